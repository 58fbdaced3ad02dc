//! Test modules: the functions by which test programs call the tests.
use crate::{
    machine::Value,
    pipeline::{self, Error, LAST},
};
use pbt::{ensure, ensure_eq, fail, CaseResult, Failure, Gen};
use std::collections::BTreeSet;

const FUEL: u64 = 200_000;

/// What a test gives: nothing, or an error of a string or of something else.
#[derive(Clone, Debug, PartialEq, Eq)]
enum Outcome {
    Pass,
    Message(Vec<u8>),
    Other,
}

const HELPERS: &str = r#"
type e {
  value number
}

type outcome = none | error

type text = string

pass = \() none | error {
  none
}

fail = \(m string) none | error {
  error(m)
}

keep = \(o outcome) outcome {
  o
}

check = \(b boolean, m text) outcome {
  if b {
    none
  } else {
    error(m)
  }
}

turn = \(o none | error) none | error {
  if o = o as error {
    none
  } else {
    error("turned")
  }
}
"#;

fn literal(bytes: &[u8]) -> String {
    let mut text = String::from("\"");
    for byte in bytes {
        match byte {
            b'"' => text += "\\\"",
            b'\\' => text += "\\\\",
            b'\n' => text += "\\n",
            0x20..=0x7e => text.push(*byte as char),
            _ => text += &format!("\\x{byte:02x}"),
        }
    }
    text + "\""
}

fn message(g: &mut Gen) -> Vec<u8> {
    let count = g.weighted(&[1, 2, 2, 2, 1]);
    (0..count).map(|_| *g.pick(b"ab\" \\\n\0\xff%{")).collect()
}

/// An expression of type none | error and what it gives
fn expression(g: &mut Gen, depth: usize) -> (String, Outcome) {
    if depth == 0 || g.chance(1, 4) {
        let message = message(g);
        let text = literal(&message);
        return match g.below(8) {
            0 => ("none".into(), Outcome::Pass),
            1 => ("pass()".into(), Outcome::Pass),
            2 => (format!("fail({text})"), Outcome::Message(message)),
            3 => (format!("check(1 < 2, {text})"), Outcome::Pass),
            4 => (format!("check(1 == 2, {text})"), Outcome::Message(message)),
            5 => (format!("error({text})"), Outcome::Message(message)),
            6 => (
                format!("error({})", g.pick(&["1", "none", "true", "e{value: 1}", "[number 1, 2]", "{string: number}", "\\() none { none }"])),
                Outcome::Other,
            ),
            _ => {
                let (first, second) = message.split_at(message.len() / 2);
                (format!("fail({} + {})", literal(first), literal(second)), Outcome::Message(message.clone()))
            }
        };
    }
    let (first, outcome) = expression(g, depth - 1);
    match g.below(5) {
        0 => {
            let (second, other) = expression(g, depth - 1);
            let condition = g.bool();
            let text = format!("if {} {{\n{first}\n}} else {{\n{second}\n}}", if condition { "1 <= 1" } else { "2 < 1" });
            (text, if condition { outcome } else { other })
        }
        1 => {
            let turned = if outcome == Outcome::Pass { Outcome::Message(b"turned".to_vec()) } else { Outcome::Pass };
            (format!("turn({first})"), turned)
        }
        2 => {
            // The first failure is the outcome.
            let (second, other) = expression(g, depth - 1);
            let text = format!("(\\() none | error {{\n_ = keep({first})?\n{second}\n}})()");
            (text, if outcome == Outcome::Pass { other } else { outcome })
        }
        3 => {
            let text = format!("(\\(o outcome) outcome {{\nif o = o as none {{\no\n}} else if error {{\no\n}}\n}})({first})");
            (text, outcome)
        }
        _ => (format!("(\\() none | error {{\nf = \\() none | error {{\n{first}\n}}\n\nf()\n}})()"), outcome),
    }
}

#[derive(Debug)]
struct Test {
    name: String,
    outcome: Outcome,
}

fn module(g: &mut Gen) -> (String, Vec<Test>) {
    let mut text = HELPERS.to_owned();
    let mut tests = vec![];
    for index in 0..1 + g.usize(5) {
        let public = !g.chance(1, 5);
        let name = format!("{}{index}", if public { *g.pick(&["Test", "Foo", "TestFoo"]) } else { "helper" });
        let depth = g.usize(4);
        let (body, outcome) = expression(g, depth);
        let type_ = *g.pick(&["none | error", "error | none", "outcome", "outcome | none"]);
        text += &format!("\n{name} = \\() {type_} {{\n{body}\n}}\n");
        if public {
            tests.push(Test { name, outcome });
        }
    }
    (text, tests)
}

fn compile(text: &str, path: &str) -> Result<(mir::ir::Module, test_info::Module), Error> {
    pipeline::compile_test(&pipeline::parse(text, path)?, &format!("{path}:"))
}

pub fn tests(g: &mut Gen) -> CaseResult {
    let (text, tests) = module(g);
    let path = *g.pick(&["Foo.test.pen", "A/Foo.test.pen"]);
    g.describe(|| text[HELPERS.len()..].to_owned());
    let compiled = compile(&text, path);
    let (mir, information) =
        compiled.map_err(|error| Failure::new("refused", format!("a good test module does not compile: {error:?}")))?;
    ensure_eq!(
        information.functions().iter().map(|function| function.name().to_owned()).collect::<Vec<_>>(),
        tests.iter().map(|test| test.name.clone()).collect::<Vec<_>>(),
        "functions",
        "names of test functions"
    );
    ensure_eq!(information.path(), path, "path", "path of the module");
    let names = information.functions().iter().map(|function| function.foreign_name()).collect::<BTreeSet<_>>();
    ensure_eq!(names.len(), tests.len(), "foreign-names", "foreign names {names:?}");
    let stage = *g.pick(&[LAST, 0, LAST, 5]);
    let stages = pipeline::stages(&mir, stage).map_err(|error| Failure::new("passes", format!("{error:?}")))?;
    let stop = |stop: crate::machine::Stop| crate::failure(&stop, "running tests");
    let machine = pipeline::machine(&[&stages[stage]], stage, FUEL).map_err(stop)?;
    let mut failures = 0;
    let mut unnoticed = None;
    for (function, test) in information.functions().iter().zip(&tests) {
        let line = text.lines().nth(function.position().line_number() - 1).unwrap_or_default();
        ensure!(line.starts_with(&format!("{} = ", test.name)), "position", "{} is said to be at {line:?}", test.name);
        let value: Value = machine.call_foreign(function.foreign_name(), vec![]).map_err(stop)?;
        let bytes = machine.bytes(&value).map_err(stop)?.to_vec();
        failures += (test.outcome != Outcome::Pass) as usize;
        let empty = matches!(&test.outcome, Outcome::Message(message) if message.is_empty());
        if empty && bytes.is_empty() {
            unnoticed = Some(&test.name);
        } else {
            ensure_eq!(bytes.is_empty(), test.outcome == Outcome::Pass, "outcome", "{} gives {bytes:?}, {:?}", test.name, test.outcome);
        }
        match &test.outcome {
            // An empty message would say that the test passes.
            Outcome::Message(message) if !message.is_empty() => {
                ensure_eq!(bytes, *message, "message", "message of {}", test.name)
            }
            _ => {}
        }
        if stage == LAST {
            machine.drop_value(&value).map_err(stop)?;
        }
    }
    if stage == LAST {
        machine.drop_globals().map_err(stop)?;
        ensure_eq!(machine.live(), 0, "leak", "values left behind");
    }
    if let Some(name) = unnoticed {
        fail!("error with an empty message", "{name} passes with an empty error message");
    }
    g.label_if(failures > 0, "failing tests");
    if tests.len() > 1 && failures > 0 {
        g.nontrivial(&text);
    }
    Ok(())
}

/// Public functions that are no tests are refused, and told about where they are.
pub fn mistakes(g: &mut Gen) -> CaseResult {
    let (mut text, _) = module(g);
    let (wrong, private) = (
        *g.pick(&[
            "\\(x number) none | error {\nnone\n}",
            "\\() number {\n1\n}",
            "\\() number | none {\n1\n}",
            "\\() none | error | string {\n\"\"\n}",
            "\\() [none] {\n[none none]\n}",
        ]),
        g.chance(1, 3),
    );
    text += &format!("\n{} = {wrong}\n", if private { "odd" } else { "Odd" });
    g.describe(|| text[HELPERS.len()..].to_owned());
    g.nontrivial(&text);
    match compile(&text, "Foo.test.pen") {
        Ok(_) => ensure!(private, "accepted", "a public function that is no test is accepted"),
        Err(Error::Internal { stage, message }) => pbt::fail!("internal", "{stage}: {message}"),
        Err(error) => ensure!(!private, "refused", "a private function is refused: {error:?}"),
    }
    Ok(())
}
