//! C01 to C04: generated programs through the compiler's passes.

use super::{
    emit::{probe_name, Emitter, SHOW_NUMBER, SHOW_STRING},
    eval::{canonical, show_bytes, show_number, Flow, Interpreter, V},
    generate::{Generator, Mistake, Options, MISTAKES},
    judge::{self, Judge, Verdict},
    *,
};
use crate::{
    machine::{number, Machine, Res, Stop, Value},
    pipeline::{self, Compiled, Error, LAST, LIFTING, STAGES},
};
use pbt::{ensure, ensure_eq, CaseResult, Failure, Gen};
use std::{cell::RefCell, collections::BTreeSet};

const REFERENCE_FUEL: u64 = 40_000;
pub const FUEL: u64 = 4_000_000;

pub fn source(module: &ast::Module) -> String {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| format::format(module, &[])))
        .unwrap_or_else(|_| format!("{module:?}"))
}

/// What is seen of a program that runs.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Seen {
    pub text: String,
    pub trace: Vec<String>,
    pub peeks: BTreeSet<String>,
}

enum Expected {
    Seen(Seen),
    Discard,
}

fn reference(program: &Rc<Program>) -> Result<Expected, Failure> {
    let interpreter = Interpreter::new(program.clone(), REFERENCE_FUEL);
    let run = || {
        let last = V::Fn(Rc::new(super::eval::Closure::Global(program.functions.len() - 1)));
        let value = interpreter.call(&last, vec![V::None])?;
        interpreter.show(&value, program.result.as_ref().unwrap())
    };

    match run() {
        Ok(text) => Ok(Expected::Seen(Seen {
            text: canonical(&text),
            trace: interpreter.trace.take(),
            peeks: interpreter.peeks.take(),
        })),
        Err(Flow::Fuel) | Err(Flow::Skip(_)) => Ok(Expected::Discard),
        Err(Flow::Return(_)) => panic!("HARNESS: an error passed on from nowhere"),
        Err(Flow::Bug(message)) => panic!("HARNESS: reference: {message}"),
    }
}

/// What the machine's value of a simple type looks like.
fn machine_digest(machine: &Machine, value: &Value) -> Res<String> {
    Ok(match value {
        Value::Number(number) => show_number(*number),
        Value::Boolean(boolean) => boolean.to_string(),
        Value::None => "none".into(),
        Value::String(_) => show_bytes(machine.bytes(value)?),
        Value::Variant(_, payload) => return machine_digest(machine, payload),
        _ => "".into(),
    })
}

fn define(machine: &Machine, program: &Program, peeks: &Rc<RefCell<BTreeSet<String>>>) {
    machine.define_foreign(SHOW_NUMBER, 1, |machine, arguments| {
        Ok(machine.string(show_number(number(arguments[0].clone())?)))
    });
    machine.define_foreign(SHOW_STRING, 1, |machine, arguments| {
        let text = show_bytes(machine.bytes(&arguments[0])?);
        machine.drop_value(&arguments[0])?;
        Ok(machine.string(text))
    });
    // Runs it at once.
    machine.define_foreign("_pen_spawn", 1, |machine, arguments| {
        let result = machine.call(&arguments[0], vec![])?;
        Ok(machine.native("future", 0, vec![result.clone()], move |machine, _| machine.clone_value(&result)))
    });

    for (index, (peek, _)) in program.probes.iter().enumerate() {
        let peek = *peek;
        let peeks = peeks.clone();

        machine.define_foreign(&probe_name(peek, index), 2, move |machine, arguments| {
            let mark = number(arguments[0].clone())? as u64;
            let text = format!("{mark} {}", machine_digest(machine, &arguments[1])?);

            if peek {
                peeks.borrow_mut().insert(text);
            } else {
                machine.trace.borrow_mut().push(text);
            }

            Ok(arguments[1].clone())
        });
    }
}

pub struct Ran {
    pub seen: Seen,
    pub allocated: u64,
    pub left: i64,
}

pub fn run(program: &Program, module: &mir::ir::Module, stage: usize, fuel: u64) -> Result<Ran, Stop> {
    let machine = pipeline::machine(&[module], stage, fuel)?;
    let peeks = Rc::new(RefCell::new(BTreeSet::new()));

    define(&machine, program, &peeks);

    let value = machine.call_name("Main.pen:Main", vec![Value::None])?;
    let text = String::from_utf8_lossy(machine.bytes(&value)?).into_owned();

    machine.drop_value(&value)?;
    machine.drop_globals()?;

    let seen = Seen { text: canonical(&text), trace: machine.trace.take(), peeks: peeks.take() };

    Ok(Ran { seen, allocated: machine.allocated(), left: machine.live() })
}

fn options(g: &mut Gen, mistake: Option<Mistake>) -> Options {
    Options { size: *g.pick(&[20, 60, 120, 240]), probes: g.chance(4, 5), mistake }
}

pub fn discard(g: &mut Gen) -> CaseResult {
    g.discard();
    Ok(())
}

pub struct Case {
    pub program: Rc<Program>,
    pub ast: ast::Module,
    pub expected: Seen,
    pub compiled: Compiled,
}

/// A program that the compiler takes and that ends.
pub fn case(g: &mut Gen) -> Result<Option<Case>, Failure> {
    let options = options(g, None);
    let (program, _) = Generator::new(g, options).program();
    let program = Rc::new(program);
    let Expected::Seen(expected) = reference(&program)? else { return Ok(None) };
    let ast = Emitter::new(&program).module(true);

    // What is refused is a matter of C02.
    let Ok(compiled) = pipeline::compile(&ast, "Main.pen:", &Default::default()) else { return Ok(None) };

    g.describe(|| source(&ast));
    describe_marks(g, &expected);

    Ok(Some(Case { program, ast, expected, compiled }))
}

/// Programs that leave marks, or show a value with parts.
pub fn nontrivial(g: &mut Gen, case: &Case) {
    if case.expected.trace.len() + case.expected.peeks.len() > 2 || case.expected.text.len() > 16 {
        g.nontrivial(&source(&case.ast));
    }
}

fn describe_marks(g: &mut Gen, expected: &Seen) {
    g.label_if(!expected.trace.is_empty(), "leaves marks in order");
    g.label_if(!expected.peeks.is_empty(), "leaves marks on demand");
    g.label_if(expected.text.contains("(m "), "shows a map");
    g.label_if(expected.text.contains("(l "), "shows a list");
    g.label_if(expected.text.contains("(f "), "shows a function");
    g.label_if(expected.text.contains("(e "), "shows an error");
}

pub fn compare(seen: &Seen, expected: &Seen, what: &str, ast: &ast::Module) -> CaseResult {
    ensure_eq!(seen.text, expected.text, "result", "result {what} of\n{}", source(ast));
    ensure_eq!(seen.trace, expected.trace, "marks", "marks {what} of\n{}", source(ast));
    ensure_eq!(seen.peeks, expected.peeks, "marks on demand", "marks on demand {what} of\n{}", source(ast));
    Ok(())
}

/// The same marks, some of them not again.
fn fewer(some: &[String], all: &[String]) -> bool {
    fn once(marks: &[String]) -> Vec<&String> {
        let mut seen = BTreeSet::new();
        marks.iter().filter(|mark| seen.insert(*mark)).collect()
    }

    let mut rest = all.iter();

    some.len() < all.len() && some.iter().all(|mark| rest.any(|other| mark == other)) && once(some) == once(all)
}

fn stopped(stop: &Stop, what: &str, ast: &ast::Module) -> Result<(), Failure> {
    match stop {
        Stop::Fuel => Ok(()),
        stop => Err(crate::failure(stop, &format!("{what} of\n{}", source(ast)))),
    }
}

/// C01: the program that the front end makes does what the language says.
pub fn meaning(g: &mut Gen) -> CaseResult {
    let Some(case) = case(g)? else { return discard(g) };

    match run(&case.program, &case.compiled.mir, 0, FUEL) {
        Ok(ran) => compare(&ran.seen, &case.expected, "of the program", &case.ast)?,
        Err(stop) => {
            stopped(&stop, "run", &case.ast)?;
            return discard(g);
        }
    }

    nontrivial(g, &case);

    Ok(())
}

/// C03: every pass keeps what programs do, and gives a well-typed program.
pub fn passes(g: &mut Gen) -> CaseResult {
    let Some(case) = case(g)? else { return discard(g) };
    let stages = match pipeline::stages(&case.compiled.mir, LAST) {
        Ok(stages) => stages,
        Err(Error::Internal { stage, message }) => {
            return Err(Failure::new("pass fails", format!("{stage}: {message} for\n{}", source(&case.ast))))
        }
        Err(error) => panic!("HARNESS: {error:?}"),
    };
    let mut first = None;

    for (index, module) in stages.iter().enumerate() {
        let (name, _) = STAGES[index];

        // The last one repeats names of variables, and is not checked by the compiler either.
        if let Err(error) = mir::analysis::type_check::check(module) {
            return Err(Failure::new(
                format!("ill-typed after {name}"),
                format!("{error:?} after {name} of\n{}", source(&case.ast)),
            ));
        }

        match run(&case.program, module, index, FUEL) {
            Ok(ran) => match &first {
                None => first = Some(ran.seen),
                Some(first) => {
                    let what = format!("after {name}");
                    let mut seen = ran.seen;

                    // Elements of lists that are closed become values of the module, which are evaluated once
                    // rather than once per list.
                    if index >= LIFTING && fewer(&seen.trace, &first.trace) {
                        g.label("elements evaluated once for all");
                        seen.trace = first.trace.clone();
                    }

                    compare(&seen, first, &what, &case.ast)?
                }
            },
            Err(stop) => {
                stopped(&stop, &format!("run after {name}"), &case.ast)?;
                return discard(g);
            }
        }
    }

    nontrivial(g, &case);

    Ok(())
}

/// C04: memory of programs is released once and for all.
pub fn memory(g: &mut Gen) -> CaseResult {
    let Some(case) = case(g)? else { return discard(g) };
    let stages = match pipeline::stages(&case.compiled.mir, LAST) {
        Ok(stages) => stages,
        Err(_) => return discard(g),
    };

    match run(&case.program, &stages[LAST], LAST, FUEL) {
        Ok(ran) => {
            ensure_eq!(ran.left, 0, "leak", "blocks left by\n{}", source(&case.ast));
            if ran.allocated > 12 {
                g.nontrivial(&source(&case.ast));
            }
        }
        Err(Stop::Heap(message)) => {
            return Err(Failure::new("heap", format!("{message} in\n{}", source(&case.ast))));
        }
        Err(_) => return discard(g),
    }

    Ok(())
}

/// C02: well-typed programs are accepted, and never get stuck.
pub fn accepted(g: &mut Gen) -> CaseResult {
    let options = options(g, None);
    let (program, _) = Generator::new(g, options).program();
    let program = Rc::new(program);
    let ast = Emitter::new(&program).module(true);

    g.describe(|| source(&ast));

    let compiled = match pipeline::compile(&ast, "Main.pen:", &Default::default()) {
        Ok(compiled) => compiled,
        Err(Error::Refused { stage, kind, message }) => {
            return Err(Failure::new(
                format!("refused: {kind}"),
                format!("{stage} refuses a program: {message}\n{}", source(&ast)),
            ))
        }
        Err(Error::Internal { stage, message }) => {
            return Err(Failure::new("internal", format!("{stage}: {message}\n{}", source(&ast))))
        }
        Err(Error::Parse(_)) => unreachable!(),
    };

    match run(&program, &compiled.mir, 0, FUEL / 4) {
        Ok(_) => {}
        Err(Stop::Stuck(message)) => {
            return Err(Failure::new("stuck", format!("{message} in\n{}", source(&ast))));
        }
        Err(_) => g.label("stopped early"),
    }

    g.nontrivial(&source(&ast));
    Ok(())
}

fn line(message: &str) -> Option<usize> {
    let text = message.split("Main.pen\n").nth(1)?;
    text.trim_start().split(':').next()?.parse().ok()
}

/// C02: a program with one mistake is refused, at the mistake.
pub fn refused(g: &mut Gen) -> CaseResult {
    let mistake = *g.pick(MISTAKES);
    let options = options(g, Some(mistake));
    let (program, made) = Generator::new(g, options).program();

    if !made {
        return discard(g);
    }

    let program = Rc::new(program);
    let emitter = Emitter::new(&program);
    let ast = emitter.module(true);

    g.label(format!("{mistake:?}"));
    g.describe(|| format!("{mistake:?}\n{}", source(&ast)));

    match pipeline::compile(&ast, "Main.pen:", &Default::default()) {
        Ok(_) => Err(Failure::new(
            format!("accepted: {mistake:?}"),
            format!("a program with a mistake ({mistake:?}) is taken:\n{}", source(&ast)),
        )),
        Err(Error::Internal { stage, message }) => Err(Failure::new(
            format!("internal: {mistake:?}"),
            format!("{stage} instead of an error for {mistake:?}: {message}\n{}", source(&ast)),
        )),
        Err(Error::Refused { stage, kind, message }) => {
            g.label(format!("{stage}: {kind}"));

            if let (Some(range), Some(definition)) = (emitter.mistake.get(), emitter.definition.get()) {
                let line = line(&message);
                let inside = |range: (usize, usize)| line.is_some_and(|line| range.0 <= line && line < range.1);

                ensure!(
                    inside(definition),
                    "place of the error",
                    "{mistake:?} at {range:?} in a definition at {definition:?} is reported at {line:?}: {message}\n{}",
                    source(&ast)
                );
                g.label_if(inside(range), "reported at the mistake itself");
            }

            g.nontrivial(&format!("{mistake:?} {}", source(&ast)));
            Ok(())
        }
        Err(Error::Parse(_)) => unreachable!(),
    }
}

/// C02: programs with small edits are accepted just when the rules of types are kept, and then never get stuck.
pub fn judged(g: &mut Gen) -> CaseResult {
    let options = Options { size: *g.pick(&[8, 20, 60, 120]), probes: g.chance(1, 2), mistake: None };
    let (original, _) = Generator::new(g, options).program();

    for _ in 0..4 {
        let (mut program, mut kind) = judge::edited(g, &original);

        if g.chance(1, 5) {
            (program, kind) = judge::edited(g, &program);
        }

        let verdict = match Judge::new(&program).program() {
            Err(Verdict::Unsure(why)) => {
                g.label(format!("not judged: {why}"));
                continue;
            }
            Err(Verdict::Bad(why)) => Some(why),
            Ok(()) => None,
        };
        let program = Rc::new(program);
        let ast = Emitter::new(&program).module(true);

        g.describe(|| format!("{}: {kind}: {}", verdict.unwrap_or("well-typed"), source(&ast)));

        match (pipeline::compile(&ast, "Main.pen:", &Default::default()), verdict) {
            (Ok(compiled), None) => {
                g.label(format!("well-typed after another {kind}"));

                if let Err(Stop::Stuck(message)) = run(&program, &compiled.mir, 0, FUEL / 8) {
                    return Err(Failure::new("stuck", format!("{message} in\n{}", source(&ast))));
                }

                g.nontrivial(&source(&ast));
            }
            (Err(Error::Refused { kind, .. }), Some(why)) => {
                g.label(format!("{why}: {kind}"));
                g.nontrivial(&source(&ast));
            }
            (Ok(_), Some(why)) => {
                return Err(Failure::new(
                    format!("accepted: {why}"),
                    format!("an ill-typed program ({why}) is taken:\n{}", source(&ast)),
                ))
            }
            (Err(Error::Refused { stage, kind, message }), None) => {
                return Err(Failure::new(
                    format!("refused: {kind}"),
                    format!("{stage} refuses a program: {message}\n{}", source(&ast)),
                ))
            }
            (Err(Error::Internal { stage, message }), _) => {
                return Err(Failure::new("internal", format!("{stage}: {message}\n{}", source(&ast))))
            }
            (Err(Error::Parse(_)), _) => unreachable!(),
        }
    }

    Ok(())
}

/// Well-typed programs of kinds that the generator leaves out.
const FIXED: &[(&str, &str)] = &[(
    "error passed on as the whole result",
    "g = \\() error | none {\n  error(none)\n}\n\nf = \\() error {\n  x = g()?\n\n  error(x)\n}\n\nMain = \\(x none) string {\n  y = f()\n\n  \"\"\n}\n",
)];

pub fn fixed_count() -> u64 {
    FIXED.len() as u64
}

/// C02: fixed well-typed programs.
pub fn fixed(g: &mut Gen) -> CaseResult {
    let (name, source) = FIXED[g.below(fixed_count()) as usize];

    g.describe(|| source.into());
    g.nontrivial(&source);

    match pipeline::compile_source(source) {
        Ok(_) => Ok(()),
        Err(error) => Err(Failure::new(name, format!("{error:?} for\n{source}"))),
    }
}
