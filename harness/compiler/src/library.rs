//! L04 to L07: packages of the standard library that are written in the language, against models.

use crate::{
    machine::{boolean, number, Machine, Res, Stop, Value},
    packages::{call, with_driver},
    pipeline::LAST,
};
use mir::types::Type;
use pbt::{ensure, ensure_eq, fail, CaseResult, Failure, Gen};
use std::{cell::RefCell, collections::BTreeMap, rc::Rc};

const FUEL: u64 = 10_000_000;

fn stage(g: &mut Gen) -> usize {
    if g.chance(3, 4) {
        LAST
    } else {
        0
    }
}

fn text(g: &mut Gen, alphabet: &[char], count: usize) -> String {
    let count = g.usize(count + 1);
    (0..count).map(|_| *g.pick(alphabet)).collect()
}

fn bytes(machine: &Machine, value: Value) -> Res<Vec<u8>> {
    let bytes = machine.bytes(&value)?.to_vec();
    machine.drop_value(&value)?;
    Ok(bytes)
}

/// The text of a value of a union that is a text if it is.
fn optional_text(machine: &Machine, value: Value) -> Res<Option<Vec<u8>>> {
    let Value::Variant(tag, payload) = &value else { return Err(Stop::Stuck(format!("variant: {value:?}"))) };
    let text = if machine.tag_type(*tag) == Type::ByteString { Some(machine.bytes(payload)?.to_vec()) } else { None };
    machine.drop_value(&value)?;
    Ok(text)
}

/// Functions that the drivers share: lists and what they hold.
const SHOW: &str = r#"
import foreign "c" _show_number \(number) none
import foreign "c" _show_text \(string) none
import foreign "c" _show_boolean \(boolean) none
"#;

const LISTS: &str = r#"
NoTexts = \() [string] { [string] }
PrependText = \(x string, xs [string]) [string] { [string x, ...xs] }
NoNumbers = \() [number] { [number] }
PrependNumber = \(x number, xs [number]) [number] { [number x, ...xs] }
NoBooleans = \() [boolean] { [boolean] }
PrependBoolean = \(x boolean, xs [boolean]) [boolean] { [boolean x, ...xs] }
NoAnys = \() [any] { [any] }
PrependAny = \(x any, xs [any]) [any] { [any x, ...xs] }

ShowNumbers = \(xs [number]) none {
  if [x, ...xs] = xs {
    _show_number(x())
    ShowNumbers(xs)
  } else {
    none
  }
}

ShowTexts = \(xs [string]) none {
  if [x, ...xs] = xs {
    _show_text(x())
    ShowTexts(xs)
  } else {
    none
  }
}

ShowBooleans = \(xs [boolean]) none {
  if [x, ...xs] = xs {
    _show_boolean(x())
    ShowBooleans(xs)
  } else {
    none
  }
}
"#;

/// Imports come first in a module, and then types.
fn driver(text: &'static str) -> &'static str {
    thread_local! {
        static DRIVERS: RefCell<BTreeMap<&'static str, &'static str>> = Default::default();
    }

    DRIVERS.with(|drivers| {
        *drivers.borrow_mut().entry(text).or_insert_with(|| {
            let (imports, rest) = text.split_once("---\n").unwrap_or(("", text));
            let (types, rest) = rest.split_once("---\n").unwrap_or(("", rest));
            Box::leak(format!("{imports}{SHOW}{types}{LISTS}{rest}").into_boxed_str())
        })
    })
}

#[derive(Clone, Debug, PartialEq)]
enum Shown {
    Number(u64),
    Text(Vec<u8>),
    Boolean(bool),
}

fn define(machine: &Machine) -> Rc<RefCell<Vec<Shown>>> {
    let shown = Rc::new(RefCell::new(vec![]));

    macro_rules! show {
        ($name:expr, $run:expr) => {{
            let shown = shown.clone();
            machine.define_foreign($name, 1, move |machine, arguments| {
                let run: fn(&Machine, Value) -> Res<Shown> = $run;
                shown.borrow_mut().push(run(machine, arguments[0].clone())?);
                Ok(Value::None)
            });
        }};
    }

    show!("_show_number", |_, x| Ok(Shown::Number(number(x)?.to_bits())));
    show!("_show_boolean", |_, x| Ok(Shown::Boolean(boolean(x)?)));
    show!("_show_text", |machine, x| Ok(Shown::Text(bytes(machine, x)?)));

    shown
}

fn texts(machine: &Machine, texts: &[String]) -> Res<Value> {
    let mut list = call(machine, "NoTexts", vec![])?;
    for text in texts.iter().rev() {
        list = call(machine, "PrependText", vec![machine.string(text.as_bytes()), list])?;
    }
    Ok(list)
}

fn numbers(machine: &Machine, numbers: &[f64]) -> Res<Value> {
    let mut list = call(machine, "NoNumbers", vec![])?;
    for number in numbers.iter().rev() {
        list = call(machine, "PrependNumber", vec![Value::Number(*number), list])?;
    }
    Ok(list)
}

fn booleans(machine: &Machine, booleans: &[bool]) -> Res<Value> {
    let mut list = call(machine, "NoBooleans", vec![])?;
    for boolean in booleans.iter().rev() {
        list = call(machine, "PrependBoolean", vec![Value::Boolean(*boolean), list])?;
    }
    Ok(list)
}

// L04

const CORE: &str = r#"
import Core'Bit
import Core'Boolean
import Core'Character
import Core'List
import Core'Number
import Core'String
import Core'String'Byte
import Core'String'Byte'View
import Core'String'Utf8
---
Maximum = \(x number, y number) number { Number'Maximum(x, y) }
Minimum = \(x number, y number) number { Number'Minimum(x, y) }
Absolute = \(x number) number { Number'Absolute(x) }
Ceil = \(x number) number { Number'Ceil(x) }
Exponential = \(x number) number { Number'Exponential(x) }
Floor = \(x number) number { Number'Floor(x) }
Fraction = \(x number) number { Number'Fraction(x) }
IsNan = \(x number) boolean { Number'IsNan(x) }
Power = \(x number, y number) number { Number'Power(x, y) }
Remainder = \(x number, y number) number { Number'Remainder(x, y) }
Round = \(x number) number { Number'Round(x) }
SquareRoot = \(x number) number { Number'SquareRoot(x) }
Truncate = \(x number) number { Number'Truncate(x) }
NumberText = \(x number) string { Number'String(x) }
Range = \(x number, y number) none { ShowNumbers(Number'Range(x, y)) }
Sequence = \(x number) none { ShowNumbers(Number'Sequence(x)) }
Sum = \(xs [number]) number { Number'Sum(xs) }

RangeStart = \(x number, y number, n number) none { start(Number'Range(x, y), n) }

start = \(xs [number], n number) none {
  if n == 0 {
    none
  } else {
    if [x, ...xs] = xs {
      _show_number(x())
      start(xs, n - 1)
    } else {
      none
    }
  }
}

Any = \(bs [boolean]) boolean { Boolean'Any(marked(bs)) }
All = \(bs [boolean]) boolean { Boolean'All(marked(bs)) }

marked = \(bs [boolean]) [boolean] { [boolean mark(b()) for b in bs] }

mark = \(b boolean) boolean {
  _show_boolean(b)
  b
}

Concatenate = \(ss [string]) string { String'Concatenate(ss) }
Join = \(ss [string], s string) string { String'Join(ss, s) }
StartsWith = \(s string, t string) boolean { String'StartsWith(s, t) }

OfNumber = \(x number) any { x }
OfText = \(x string) any { x }
OfBoolean = \(x boolean) any { x }
OfNone = \() any { none }

First = \(xs [any], x any) any { List'First(xs, x) }
Last = \(xs [any], x any) any { List'Last(xs, x) }
ToNumbers = \(xs [any]) none { ShowNumbers(List'ToNumbers(xs)) }
ToTexts = \(xs [any]) none { ShowTexts(List'ToStrings(xs)) }
ToBooleans = \(xs [any]) none { ShowBooleans(List'ToBooleans(xs)) }

ByteLength = \(s string) number { Byte'Length(s) }
ByteSlice = \(s string, x number, y number) string { Byte'Slice(s, x, y) }

Contains = \(s string, t string) boolean { Utf8'Contains(s, t) }
Find = \(s string, t string) number { if x = Utf8'Find(s, t) as number { x } else { 0 } }
Utf8StartsWith = \(s string, t string) boolean { Utf8'StartsWith(s, t) }
EndsWith = \(s string, t string) boolean { Utf8'EndsWith(s, t) }
Length = \(s string) number { Utf8'Length(s) }
Replace = \(s string, t string, u string) string { Utf8'Replace(s, t, u) }
Slice = \(s string, x number, y number) string { Utf8'Slice(s, x, y) }
ToLowercase = \(s string) string { Utf8'ToLowercase(s) }
ToUppercase = \(s string) string { Utf8'ToUppercase(s) }
Trim = \(s string) string { Utf8'Trim(s) }
TrimStart = \(s string) string { Utf8'TrimStart(s) }
TrimEnd = \(s string) string { Utf8'TrimEnd(s) }
TrimMatches = \(s string, t string) string { Utf8'TrimMatches(s, t) }
TrimStartMatches = \(s string, t string) string { Utf8'TrimStartMatches(s, t) }
TrimEndMatches = \(s string, t string) string { Utf8'TrimEndMatches(s, t) }
FromCodePoint = \(x number) string { Character'FromCodePoint(x) }
ToCodePoint = \(s string) number { Character'ToCodePoint(s) }

And = \(x number, y number) number { bits2(Bit'And, x, y) }
Or = \(x number, y number) number { bits2(Bit'Or, x, y) }
Xor = \(x number, y number) number { bits2(Bit'Xor, x, y) }
LeftShift = \(x number, y number) number { Bit'FromInteger64(Bit'LeftShift(Bit'ToInteger64(x), y)) }
RightShift = \(x number, y number) number { Bit'FromInteger64(Bit'RightShift(Bit'ToInteger64(x), y)) }
NotNot = \(x number) number { Bit'FromInteger64(Bit'Not(Bit'Not(Bit'ToInteger64(x)))) }

bits2 = \(f \(number, number) number, x number, y number) number {
  Bit'FromInteger64(f(Bit'ToInteger64(x), Bit'ToInteger64(y)))
}

View = \(s string) View'View { View'New(s) }
ViewSeek = \(v View'View, n number) View'View { View'Seek(v, n) }
ViewSlice = \(v View'View, x number, y number) View'View { View'Slice(v, x, y) }
ViewLength = \(v View'View) number { View'Length(v) }
ViewStart = \(v View'View) number { View'Start(v) }
ViewEnd = \(v View'View) number { View'End(v) }
ViewText = \(v View'View) string { View'ToString(v) }
Viewee = \(v View'View) string { View'Viewee(v) }
ViewStartsWith = \(v View'View, s string) boolean { View'StartsWith(v, s) }
"#;

fn real(g: &mut Gen) -> f64 {
    match g.weighted(&[6, 4, 2, 1]) {
        0 => g.range(-9, 9) as f64,
        1 => g.range(-1000, 1000) as f64 / 8.0,
        2 => *g.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::NAN, -0.0, f64::EPSILON, f64::MAX, f64::MIN_POSITIVE, 1e21]),
        _ => f64::from_bits(g.u64()),
    }
}

const LETTERS: &[char] = &['a', 'b', 'B', ' ', 'é', '😄', '\t', 'ß', 'あ'];

pub fn numbers_and_texts(g: &mut Gen) -> CaseResult {
    let stage = stage(g);

    with_driver(driver(CORE), stage, FUEL, |machine| {
        let count = 1 + g.usize(8);
        let mut log = vec![];

        for _ in 0..count {
            let what = match g.below(3) {
                0 => number_step(g, machine)?,
                1 => text_step(g, machine)?,
                _ => list_step(g, machine)?,
            };
            log.push(what);
        }

        if log.iter().any(|line| line.len() > 12) {
            g.nontrivial(&log);
        }
        g.describe(|| log.join("; "));
        Ok(())
    })
}

/// Equal as numbers of the same bits, or both not a number.
fn same(one: f64, other: f64) -> bool {
    one.to_bits() == other.to_bits() || one.is_nan() && other.is_nan()
}

fn number_step(g: &mut Gen, machine: &Machine) -> Result<String, Failure> {
    let (x, y) = (real(g), real(g));
    let run = |name: &str, arguments: &[f64]| {
        call(machine, name, arguments.iter().map(|x| Value::Number(*x)).collect())
            .map_err(|stop| crate::failure(&stop, &format!("{name}{arguments:?}")))
    };
    let integers = [g.below(1 << 52) as f64, g.below(1 << 20) as f64];

    macro_rules! one {
        ($name:expr, $f:expr) => {{
            let got = number(run($name, &[x])?).map_err(|stop| crate::failure(&stop, $name))?;
            let f: fn(f64) -> f64 = $f;
            ensure!(same(got, f(x)), $name, "{}({x:?}) is {got:?}, not {:?}", $name, f(x));
            format!("{}({x:?})", $name)
        }};
    }
    macro_rules! two {
        ($name:expr, $arguments:expr, $f:expr) => {{
            let [x, y] = $arguments;
            let got = number(run($name, &[x, y])?).map_err(|stop| crate::failure(&stop, $name))?;
            let f: fn(f64, f64) -> f64 = $f;
            ensure!(same(got, f(x, y)), $name, "{}({x:?}, {y:?}) is {got:?}, not {:?}", $name, f(x, y));
            format!("{}({x:?}, {y:?})", $name)
        }};
    }

    Ok(match g.below(21) {
        0 => two!("Maximum", [x, y], |x, y| if x.is_nan() || y.is_nan() { f64::NAN } else if x > y { x } else { y }),
        1 => two!("Minimum", [x, y], |x, y| if x.is_nan() || y.is_nan() { f64::NAN } else if x < y { x } else { y }),
        2 => one!("Absolute", f64::abs),
        3 => one!("Ceil", f64::ceil),
        4 => one!("Floor", f64::floor),
        5 => one!("Round", f64::round),
        6 => one!("Truncate", f64::trunc),
        7 => one!("Fraction", f64::fract),
        8 => one!("SquareRoot", f64::sqrt),
        9 => one!("Exponential", f64::exp),
        10 => two!("Power", [x, y], f64::powf),
        11 => two!("Remainder", [x, y], f64::rem_euclid),
        12 => {
            let got = boolean(run("IsNan", &[x])?).map_err(|stop| crate::failure(&stop, "IsNan"))?;
            ensure_eq!(got, x.is_nan(), "IsNan", "IsNan({x:?})");
            format!("IsNan({x:?})")
        }
        13 => {
            let got = bytes(machine, run("NumberText", &[x])?).map_err(|stop| crate::failure(&stop, "NumberText"))?;
            let got = String::from_utf8_lossy(&got).into_owned();
            ensure!(got.parse().is_ok_and(|got| same(got, x)), "NumberText", "text {got:?} of {x:?}");
            format!("NumberText({x:?})")
        }
        14 => two!("And", integers, |x, y| (x as u64 & y as u64) as f64),
        15 => two!("Or", integers, |x, y| (x as u64 | y as u64) as f64),
        16 => two!("Xor", integers, |x, y| (x as u64 ^ y as u64) as f64),
        17 => two!("LeftShift", [integers[1], g.below(70) as f64], |x, y| (x as u64).checked_shl(y as u32).unwrap_or(0) as f64),
        18 => two!("RightShift", [integers[0], g.below(70) as f64], |x, y| (x as u64).checked_shr(y as u32).unwrap_or(0) as f64),
        19 => {
            let x = integers[0];
            let got = number(run("NotNot", &[x])?).map_err(|stop| crate::failure(&stop, "NotNot"))?;
            ensure_eq!(got, x, "Not", "complement of the complement of {x}");
            format!("NotNot({x})")
        }
        _ => {
            let code = g.below(0x11_0010);
            let got = bytes(machine, run("FromCodePoint", &[code as f64])?).map_err(|stop| crate::failure(&stop, "code point"))?;
            let expected = char::from_u32(code as u32).map(String::from).unwrap_or_default();
            ensure_eq!(got, expected.as_bytes(), "FromCodePoint", "FromCodePoint({code})");
            format!("FromCodePoint({code})")
        }
    })
}

fn text_step(g: &mut Gen, machine: &Machine) -> Result<String, Failure> {
    let s = text(g, LETTERS, 8);
    // Often a part of the first text.
    let t = if g.bool() {
        let characters = s.chars().collect::<Vec<_>>();
        let (from, to) = (g.usize(characters.len() + 1), g.usize(characters.len() + 1));
        characters[from.min(to)..from.max(to)].iter().collect()
    } else {
        text(g, LETTERS, 3)
    };
    let u = text(g, LETTERS, 2);
    let from = g.range(-1, 10) as f64;
    let to = if g.chance(1, 4) { f64::INFINITY } else { g.range(-1, 10) as f64 };
    let run = |name: &str, texts: &[&str], numbers: &[f64]| {
        call(
            machine,
            name,
            texts
                .iter()
                .map(|text| machine.string(text.as_bytes()))
                .chain(numbers.iter().map(|number| Value::Number(*number)))
                .collect(),
        )
        .map_err(|stop| crate::failure(&stop, &format!("{name} of {texts:?} {numbers:?}")))
    };
    let slice = |count: usize| {
        let from = from.max(1.0) as usize;
        let to = to.min(count as f64).max(0.0) as usize;
        if from > to { 0..0 } else { from - 1..to }
    };

    macro_rules! check {
        ($name:expr, $texts:expr, $numbers:expr, $read:expr, $expected:expr) => {{
            let texts: &[&str] = $texts;
            let numbers: &[f64] = $numbers;
            let got = $read(run($name, texts, numbers)?).map_err(|stop: Stop| crate::failure(&stop, $name))?;
            ensure_eq!(got, $expected, $name, "{} of {:?} {:?}", $name, texts, numbers);
            format!("{} {:?}", $name, texts)
        }};
    }
    let to_text = |value: Value| Ok(String::from_utf8_lossy(&bytes(machine, value)?).into_owned());

    Ok(match g.below(19) {
        0 => check!("StartsWith", &[&s, &t], &[], boolean, s.starts_with(&t)),
        1 => check!("Utf8StartsWith", &[&s, &t], &[], boolean, s.starts_with(&t)),
        2 => check!("EndsWith", &[&s, &t], &[], boolean, s.ends_with(&t)),
        3 => check!("Contains", &[&s, &t], &[], boolean, s.contains(&t)),
        4 => {
            let expected = s.find(&t).map_or(0, |index| s[..index].chars().count() + 1) as f64;
            check!("Find", &[&s, &t], &[], number, expected)
        }
        5 => check!("Length", &[&s], &[], number, s.chars().count() as f64),
        6 => check!("ByteLength", &[&s], &[], number, s.len() as f64),
        7 => check!("Replace", &[&s, &t, &u], &[], to_text, s.replace(&t, &u)),
        8 => {
            let characters = s.chars().collect::<Vec<_>>();
            let expected = characters[slice(characters.len())].iter().collect::<String>();
            check!("Slice", &[&s], &[from, to], to_text, expected)
        }
        9 => {
            let expected = s.as_bytes()[slice(s.len())].to_vec();
            check!("ByteSlice", &[&s], &[from, to], |value| bytes(machine, value), expected)
        }
        10 => check!("ToLowercase", &[&s], &[], to_text, s.to_lowercase()),
        11 => check!("ToUppercase", &[&s], &[], to_text, s.to_uppercase()),
        12 => check!("Trim", &[&s], &[], to_text, s.trim()),
        13 => check!("TrimStart", &[&s], &[], to_text, s.trim_start()),
        14 => check!("TrimEnd", &[&s], &[], to_text, s.trim_end()),
        15 => check!("TrimStartMatches", &[&s, &t], &[], to_text, s.trim_start_matches(&*t)),
        16 => check!("TrimEndMatches", &[&s, &t], &[], to_text, s.trim_end_matches(&*t)),
        17 => check!("TrimMatches", &[&s, &t], &[], to_text, s.trim_start_matches(&*t).trim_end_matches(&*t)),
        _ => {
            let s = format!("{}{s}", g.pick(LETTERS));
            check!("ToCodePoint", &[&s], &[], number, s.chars().next().unwrap() as u32 as f64)
        }
    })
}

#[derive(Clone, Debug, PartialEq)]
enum Simple {
    None,
    Boolean(bool),
    Number(f64),
    Text(String),
}

impl Simple {
    fn generate(g: &mut Gen) -> Self {
        match g.below(4) {
            0 => Self::None,
            1 => Self::Boolean(g.bool()),
            2 => Self::Number(g.below(100) as f64),
            _ => Self::Text(text(g, LETTERS, 3)),
        }
    }

    fn build(&self, machine: &Machine) -> Res<Value> {
        match self {
            Self::None => call(machine, "OfNone", vec![]),
            Self::Boolean(x) => call(machine, "OfBoolean", vec![Value::Boolean(*x)]),
            Self::Number(x) => call(machine, "OfNumber", vec![Value::Number(*x)]),
            Self::Text(x) => call(machine, "OfText", vec![machine.string(x.as_bytes())]),
        }
    }

    fn read(machine: &Machine, value: Value) -> Res<Self> {
        let Value::Variant(tag, payload) = &value else { return Err(Stop::Stuck(format!("variant: {value:?}"))) };
        let read = match (machine.tag_type(*tag), &**payload) {
            (Type::None, _) => Self::None,
            (Type::Boolean, Value::Boolean(x)) => Self::Boolean(*x),
            (Type::Number, Value::Number(x)) => Self::Number(*x),
            (Type::ByteString, payload) => Self::Text(String::from_utf8_lossy(machine.bytes(payload)?).into_owned()),
            (type_, _) => return Err(Stop::Stuck(format!("a value of {type_:?}"))),
        };
        machine.drop_value(&value)?;
        Ok(read)
    }
}

fn list_step(g: &mut Gen, machine: &Machine) -> Result<String, Failure> {
    let shown = define(machine);
    let stop = |what: &str| {
        let what = what.to_owned();
        move |stop: Stop| crate::failure(&stop, &what)
    };

    Ok(match g.below(8) {
        0 => {
            let from = real(g).clamp(-1e6, 1e6);
            let from = if from.is_nan() { 0.5 } else { from };
            let to = from + g.range(-3, 9) as f64 / 2.0;
            let what = format!("Range({from:?}, {to:?})");
            call(machine, "Range", vec![Value::Number(from), Value::Number(to)]).map_err(stop(&what))?;
            let mut expected = vec![];
            let mut x = from;
            while x <= to {
                expected.push(Shown::Number(x.to_bits()));
                x += 1.0;
            }
            ensure_eq!(*shown.borrow(), expected, "Range", "{what}");
            what
        }
        1 => {
            let to = g.range(-2, 12) as f64;
            let what = format!("Sequence({to:?})");
            call(machine, "Sequence", vec![Value::Number(to)]).map_err(stop(&what))?;
            let expected = (1..=to.max(0.0) as u64).map(|x| Shown::Number((x as f64).to_bits())).collect::<Vec<_>>();
            ensure_eq!(*shown.borrow(), expected, "Sequence", "{what}");
            what
        }
        2 => {
            // As much of a list without end as is asked for.
            let (from, count) = (g.range(-5, 5) as f64, g.below(12));
            let what = format!("the first {count} of Range({from:?}, infinity)");
            call(
                machine,
                "RangeStart",
                vec![Value::Number(from), Value::Number(f64::INFINITY), Value::Number(count as f64)],
            )
            .map_err(stop(&what))?;
            let expected = (0..count).map(|x| Shown::Number((from + x as f64).to_bits())).collect::<Vec<_>>();
            ensure_eq!(*shown.borrow(), expected, "Range", "{what}");
            what
        }
        3 => {
            let xs = (0..g.usize(12)).map(|_| real(g)).collect::<Vec<_>>();
            let what = format!("Sum({xs:?})");
            let list = numbers(machine, &xs).map_err(stop(&what))?;
            let got = call(machine, "Sum", vec![list]).and_then(number).map_err(stop(&what))?;
            let expected = xs.iter().fold(0.0, |sum, x| sum + x);
            ensure!(same(got, expected), "Sum", "{what} is {got:?}, not {expected:?}");
            what
        }
        4 => {
            let any = g.bool();
            let common = g.bool();
            let xs = (0..g.usize(9)).map(|_| if g.chance(1, 4) { !common } else { common }).collect::<Vec<_>>();
            let what = format!("{} of {xs:?}", if any { "Any" } else { "All" });
            let list = booleans(machine, &xs).map_err(stop(&what))?;
            let got =
                call(machine, if any { "Any" } else { "All" }, vec![list]).and_then(boolean).map_err(stop(&what))?;
            ensure_eq!(got, if any { xs.contains(&true) } else { !xs.contains(&false) }, "Any or All", "{what}");
            // Nothing after the one that decides is looked at.
            let needed = xs.iter().position(|x| *x == any).map_or(xs.len(), |index| index + 1);
            let expected = xs[..needed].iter().map(|x| Shown::Boolean(*x)).collect::<Vec<_>>();
            ensure_eq!(*shown.borrow(), expected, "elements looked at", "{what}");
            what
        }
        5 => {
            let xs = (0..g.usize(24)).map(|_| text(g, LETTERS, 3)).collect::<Vec<_>>();
            let separator = if g.bool() { Some(text(g, LETTERS, 2)) } else { None };
            let what = format!("Join({xs:?}, {separator:?})");
            let list = texts(machine, &xs).map_err(stop(&what))?;
            let got = match &separator {
                None => call(machine, "Concatenate", vec![list]),
                Some(separator) => call(machine, "Join", vec![list, machine.string(separator.as_bytes())]),
            }
            .and_then(|value| bytes(machine, value))
            .map_err(stop(&what))?;
            ensure_eq!(String::from_utf8_lossy(&got), xs.join(&separator.unwrap_or_default()), "Join", "{what}");
            what
        }
        6 => {
            let xs = (0..g.usize(7)).map(|_| Simple::generate(g)).collect::<Vec<_>>();
            let fallback = Simple::generate(g);
            let first = g.bool();
            let what = format!("{} of {xs:?}", if first { "First" } else { "Last" });
            let list = anys(machine, &xs).map_err(stop(&what))?;
            let got = call(
                machine,
                if first { "First" } else { "Last" },
                vec![list, fallback.build(machine).map_err(stop(&what))?],
            )
            .and_then(|value| Simple::read(machine, value))
            .map_err(stop(&what))?;
            let expected = if first { xs.first() } else { xs.last() }.unwrap_or(&fallback);
            ensure_eq!(&got, expected, "First or Last", "{what}");
            what
        }
        _ => {
            let xs = (0..g.usize(9)).map(|_| Simple::generate(g)).collect::<Vec<_>>();
            let (name, expected) = match g.below(3) {
                0 => (
                    "ToNumbers",
                    xs.iter()
                        .filter_map(|x| if let Simple::Number(x) = x { Some(Shown::Number(x.to_bits())) } else { None })
                        .collect::<Vec<_>>(),
                ),
                1 => (
                    "ToTexts",
                    xs.iter()
                        .filter_map(|x| if let Simple::Text(x) = x { Some(Shown::Text(x.clone().into())) } else { None })
                        .collect(),
                ),
                _ => (
                    "ToBooleans",
                    xs.iter()
                        .filter_map(|x| if let Simple::Boolean(x) = x { Some(Shown::Boolean(*x)) } else { None })
                        .collect(),
                ),
            };
            let what = format!("{name} of {xs:?}");
            let list = anys(machine, &xs).map_err(stop(&what))?;
            call(machine, name, vec![list]).map_err(stop(&what))?;
            ensure_eq!(*shown.borrow(), expected, "elements of a type", "{what}");
            what
        }
    })
}

fn anys(machine: &Machine, xs: &[Simple]) -> Res<Value> {
    let mut list = call(machine, "NoAnys", vec![])?;
    for x in xs.iter().rev() {
        list = call(machine, "PrependAny", vec![x.build(machine)?, list])?;
    }
    Ok(list)
}

/// Histories of views of views.
pub fn views(g: &mut Gen) -> CaseResult {
    let stage = stage(g);
    let letters = ['a', 'b', 'c', 'é'];
    let viewee = text(g, &letters, 24);

    with_driver(driver(CORE), stage, FUEL, |machine| {
        let mut log = vec![];
        // With the numbers of bytes before and inside.
        let view = call(machine, "View", vec![machine.string(viewee.as_bytes())])
            .map_err(|stop| crate::failure(&stop, &viewee))?;
        let mut views = vec![(view, 0, viewee.len())];

        for _ in 0..2 + g.usize(14) {
            let (view, start, count) = views[g.usize(views.len())].clone();
            let copy = machine.clone_value(&view).map_err(|stop| crate::failure(&stop, "copy"))?;

            let (view, start, count) = match g.below(2) {
                0 => {
                    let n = g.usize(count + 2).min(g.usize(12));
                    log.push(format!("seek {n} in {start} {count}"));
                    let view = call(machine, "ViewSeek", vec![copy, Value::Number(n as f64)])
                        .map_err(|stop| crate::failure(&stop, &format!("{viewee:?} {log:?}")))?;
                    let n = n.min(count);
                    (view, start + n, count - n)
                }
                _ => {
                    let from = 1 + g.usize(count + 2);
                    let to = if g.chance(1, 5) { None } else { Some(g.usize(count + 3)) };
                    log.push(format!("slice {from} {to:?} in {start} {count}"));
                    let view = call(
                        machine,
                        "ViewSlice",
                        vec![
                            copy,
                            Value::Number(from as f64),
                            Value::Number(to.map_or(f64::INFINITY, |to| to as f64)),
                        ],
                    )
                    .map_err(|stop| crate::failure(&stop, &format!("{viewee:?} {log:?}")))?;
                    let to = to.unwrap_or(count).min(count);
                    let from = (from - 1).min(to);
                    (view, start + from, to - from)
                }
            };
            let stop = |stop: Stop| crate::failure(&stop, &format!("{viewee:?} {log:?}"));
            let expected = &viewee.as_bytes()[start..start + count];

            macro_rules! query {
                ($name:expr, $read:expr) => {
                    call(machine, $name, vec![machine.clone_value(&view).map_err(stop)?])
                        .and_then($read)
                        .map_err(stop)?
                };
            }

            ensure_eq!(query!("ViewText", |x| bytes(machine, x)), expected, "text of a view", "{viewee:?} {log:?}");
            ensure_eq!(query!("ViewLength", number), count as f64, "length of a view", "{viewee:?} {log:?}");
            ensure_eq!(query!("ViewStart", number), (start + 1) as f64, "start of a view", "{viewee:?} {log:?}");
            ensure_eq!(query!("ViewEnd", number), (start + count) as f64, "end of a view", "{viewee:?} {log:?}");
            ensure_eq!(query!("Viewee", |x| bytes(machine, x)), viewee.as_bytes(), "viewee", "{viewee:?} {log:?}");

            let prefix = if g.bool() {
                let rest = &viewee.as_bytes()[start..];
                rest[..g.usize(rest.len() + 1)].to_vec()
            } else {
                text(g, &letters, 3).into_bytes()
            };
            let got = call(
                machine,
                "ViewStartsWith",
                vec![machine.clone_value(&view).map_err(stop)?, machine.string(prefix.clone())],
            )
            .and_then(boolean)
            .map_err(stop)?;
            ensure_eq!(got, expected.starts_with(&prefix), "prefix of a view", "{prefix:?} of {expected:?}; {log:?}");

            views.push((view, start, count));
        }

        for (view, ..) in &views {
            machine.drop_value(view).map_err(|stop| crate::failure(&stop, "release"))?;
        }

        if views.iter().any(|(_, start, count)| *start > 0 && *count > 1) {
            g.nontrivial(&(viewee.clone(), log.clone()));
        }
        g.describe(|| format!("{viewee:?} {}", log.join("; ")));
        Ok(())
    })
}

// L05

const FLAGS: &str = r#"
import Flag'Flag
---
Parse = \(ss [string]) none | error {
  s = Flag'Parse(ss)?
  _show_number(size(s.Named))
  ShowTexts([string s() for s in [string k(), v()] for k, v in keys(s.Named), values(s.Named)])
  ShowTexts(s.Positional)
}
"#;

pub fn flags(g: &mut Gen) -> CaseResult {
    let stage = stage(g);
    let words = (0..g.usize(10))
        .map(|_| match g.weighted(&[6, 4, 2, 1, 1, 2]) {
            0 => format!("-{}", text(g, &['a', 'b', 'é'], 2)),
            1 => text(g, &['a', 'b', '-', ' ', 'é'], 3),
            2 => "--".into(),
            3 => "-".into(),
            4 => "".into(),
            _ => format!("--{}", text(g, &['a', '-'], 2)),
        })
        .collect::<Vec<String>>();

    // As documented in packages/flag/Flag.pen.
    let mut named = BTreeMap::new();
    let mut rest = &words[..];
    let expected = loop {
        match rest {
            [separator, others @ ..] if separator == "--" => break Some(others),
            [key, value, others @ ..] if key.starts_with('-') => {
                named.insert(key[1..].to_owned(), value.clone());
                rest = others;
            }
            [key] if key.starts_with('-') => break None,
            _ => break Some(rest),
        }
    };

    with_driver(driver(FLAGS), stage, FUEL, |machine| {
        let stop = |stop: Stop| crate::failure(&stop, &format!("{words:?}"));
        let shown = define(machine);
        let list = texts(machine, &words).map_err(stop)?;
        let result = call(machine, "Parse", vec![list]).map_err(stop)?;
        let Value::Variant(tag, _) = &result else { fail!("result", "{words:?}: {result:?}") };
        let refused = machine.tag_type(*tag) != Type::None;
        machine.drop_value(&result).map_err(stop)?;
        let Some(positional) = expected else {
            ensure!(refused, "value missing", "{words:?} is accepted");
            return Ok(());
        };
        ensure!(!refused, "refused", "{words:?} is refused");

        let mut shown = shown.borrow().clone().into_iter();
        let Some(Shown::Number(count)) = shown.next() else { fail!("shown", "{words:?}") };
        let shown = shown
            .map(|shown| if let Shown::Text(text) = shown { String::from_utf8(text).unwrap() } else { "".into() })
            .collect::<Vec<_>>();
        let count = f64::from_bits(count) as usize;
        ensure_eq!(count, named.len(), "named", "number of named flags of {words:?}");
        let got = shown[..2 * count].chunks(2).map(|pair| (pair[0].clone(), pair[1].clone())).collect::<BTreeMap<_, _>>();
        ensure_eq!(got, named, "named", "named flags of {words:?}");
        ensure_eq!(&shown[2 * count..], positional, "positional", "positional flags of {words:?}");
        Ok(())
    })?;

    if words.len() > 2 && (named.len() > 1 || expected.is_none()) {
        g.nontrivial(&words);
    }
    g.describe(|| format!("{words:?}"));
    Ok(())
}

// L06

const HTML: &str = r#"
import Html'Node { Attribute, Element, Node }
import Html'Render { Render }
---
NewText = \(s string) Node { s }
NoAttributes = \() [Attribute] { [Attribute] }
PrependAttribute = \(k string, v string, xs [Attribute]) [Attribute] {
  [Attribute Attribute{Key: k, Value: v}, ...xs]
}
NoNodes = \() [Node] { [Node] }
PrependNode = \(x Node, xs [Node]) [Node] { [Node x, ...xs] }
NewElement = \(s string, xs [Attribute], ys [Node]) Node {
  Element{Tag: s, Attributes: xs, Children: ys}
}

Rendered = \(n Node) string | none {
  if s = Render(n) as string { s } else { none }
}
"#;

#[derive(Clone, Debug, PartialEq)]
enum Html {
    Text(String),
    Element { tag: String, attributes: Vec<(String, String)>, children: Vec<Html>, closed: bool },
}

const MARKUP: &[char] = &['a', 'b', '<', '>', '&', '"', '\'', '/', ' ', ';', '=', 'é', '😄', '#', 'l', 't', '\n'];

fn name(g: &mut Gen) -> String {
    match g.weighted(&[14, 1, 1]) {
        0 => {
            let count = 1 + g.usize(5);
            (0..count).map(|_| *g.pick(&['a', 'b', 'm', 'y', 'z', '-'])).collect()
        }
        1 => text(g, &['a', 'z', '-', '<', '>', ' ', '"', '=', '/', 'A', '{', '`', '0', 'é'], 4),
        _ => format!("{}{}{}", text(g, &['a', 'z'], 2), *g.pick(&['{', '`', 'A', '.', '\'', '\n', 'é', '/']), text(g, &['a'], 1)),
    }
}

fn html(g: &mut Gen, depth: usize) -> Html {
    if depth == 0 || g.chance(1, 3) {
        return Html::Text(text(g, MARKUP, 8));
    }

    let attributes = (0..g.weighted(&[3, 2, 2, 1])).map(|_| (name(g), text(g, MARKUP, 6))).collect();
    let children = (0..g.usize(4)).map(|_| html(g, depth - 1)).collect::<Vec<_>>();
    Html::Element { tag: name(g), attributes, closed: !children.is_empty(), children }
}

impl Html {
    fn is_valid(&self) -> bool {
        let valid = |name: &str| !name.is_empty() && name.chars().all(|c| c.is_ascii_lowercase() || c == '-');

        match self {
            Self::Text(_) => true,
            Self::Element { tag, attributes, children, .. } => {
                valid(tag) && attributes.iter().all(|(key, _)| valid(key)) && children.iter().all(Self::is_valid)
            }
        }
    }

    /// With texts side by side joined and empty ones left out, as a reader of the markup sees them.
    fn seen(nodes: &[Self]) -> Vec<Self> {
        let mut seen = Vec::<Self>::new();

        for node in nodes {
            match (node, seen.last_mut()) {
                (Self::Text(text), _) if text.is_empty() => {}
                (Self::Text(text), Some(Self::Text(last))) => last.push_str(text),
                (Self::Element { tag, attributes, children, closed }, _) => seen.push(Self::Element {
                    tag: tag.clone(),
                    attributes: attributes.clone(),
                    children: Self::seen(children),
                    closed: *closed,
                }),
                (node, _) => seen.push(node.clone()),
            }
        }

        seen
    }

    fn build(&self, machine: &Machine) -> Res<Value> {
        match self {
            Self::Text(text) => call(machine, "NewText", vec![machine.string(text.as_bytes())]),
            Self::Element { tag, attributes, children, .. } => {
                let mut list = call(machine, "NoAttributes", vec![])?;
                for (key, value) in attributes.iter().rev() {
                    list = call(
                        machine,
                        "PrependAttribute",
                        vec![machine.string(key.as_bytes()), machine.string(value.as_bytes()), list],
                    )?;
                }
                let mut nodes = call(machine, "NoNodes", vec![])?;
                for child in children.iter().rev() {
                    nodes = call(machine, "PrependNode", vec![child.build(machine)?, nodes])?;
                }
                call(machine, "NewElement", vec![machine.string(tag.as_bytes()), list, nodes])
            }
        }
    }
}

/// A reader of markup that knows nothing but elements, quoted attributes and references to characters.
struct Markup<'a>(&'a str);

impl Markup<'_> {
    fn eat(&mut self, text: &str) -> bool {
        if let Some(rest) = self.0.strip_prefix(text) {
            self.0 = rest;
            true
        } else {
            false
        }
    }

    fn name(&mut self) -> Result<String, String> {
        let count = self.0.find(|c: char| !c.is_ascii_lowercase() && c != '-').unwrap_or(self.0.len());
        let (name, rest) = self.0.split_at(count);
        self.0 = rest;
        if name.is_empty() {
            Err(format!("name expected at {rest:?}"))
        } else {
            Ok(name.into())
        }
    }

    fn characters(&mut self, end: char) -> Result<String, String> {
        let count = self.0.find(end).unwrap_or(self.0.len());
        let (mut raw, rest) = self.0.split_at(count);
        self.0 = rest;
        let mut text = String::new();

        while let Some(character) = raw.chars().next() {
            if character == '&' {
                let Some(end) = raw.find(';') else { return Err(format!("bare & in {raw:?}")) };
                text.push_str(&match &raw[1..end] {
                    "amp" => "&".into(),
                    "lt" => "<".into(),
                    "gt" => ">".into(),
                    "quot" => "\"".into(),
                    "apos" => "'".into(),
                    reference => {
                        let code = match reference.strip_prefix("#x").or(reference.strip_prefix("#X")) {
                            Some(code) => u32::from_str_radix(code, 16).ok(),
                            None => reference.strip_prefix('#').and_then(|code| code.parse().ok()),
                        };
                        code.and_then(char::from_u32).map(String::from).ok_or(format!("reference {reference:?}"))?
                    }
                });
                raw = &raw[end + 1..];
            } else {
                text.push(character);
                raw = &raw[character.len_utf8()..];
            }
        }

        Ok(text)
    }

    fn nodes(&mut self) -> Result<Vec<Html>, String> {
        let mut nodes = vec![];

        while !self.0.is_empty() && !self.0.starts_with("</") {
            if !self.eat("<") {
                nodes.push(Html::Text(self.characters('<')?));
                continue;
            }

            let tag = self.name()?;
            let mut attributes = vec![];

            let closed = loop {
                self.0 = self.0.trim_start_matches(' ');
                if self.eat("/>") {
                    break false;
                } else if self.eat(">") {
                    break true;
                }
                let key = self.name()?;
                if !self.eat("=\"") {
                    return Err(format!("value of {key} expected at {:?}", self.0));
                }
                let value = self.characters('"')?;
                if !self.eat("\"") {
                    return Err("end of value expected".into());
                }
                attributes.push((key, value));
            };
            let children = if closed {
                let children = self.nodes()?;
                if !self.eat(&format!("</{tag}>")) {
                    return Err(format!("end of {tag} expected at {:?}", self.0));
                }
                children
            } else {
                vec![]
            };

            nodes.push(Html::Element { tag, attributes, children, closed });
        }

        Ok(nodes)
    }
}

pub fn render(g: &mut Gen) -> CaseResult {
    let stage = stage(g);
    let depth = 4 - g.usize(5);
    let node = html(g, depth);

    with_driver(driver(HTML), stage, FUEL, |machine| {
        let stop = |stop: Stop| crate::failure(&stop, &format!("{node:?}"));
        let built = node.build(machine).map_err(stop)?;
        let result = call(machine, "Rendered", vec![built]).map_err(stop)?;
        let text = optional_text(machine, result).map_err(stop)?;

        match (node.is_valid(), text) {
            (true, Some(text)) => {
                let text = String::from_utf8_lossy(&text).into_owned();
                let mut markup = Markup(&text);
                let got = markup.nodes();
                ensure!(markup.0.is_empty(), "markup", "{:?} is left of {text:?} of {node:?}: {got:?}", markup.0);
                ensure_eq!(got, Ok(Html::seen(std::slice::from_ref(&node))), "markup", "meaning of {text:?}");
            }
            (false, None) => {}
            (true, None) => fail!("refused", "{node:?} is refused"),
            (false, Some(text)) => fail!("invalid name", "{node:?} is rendered as {:?}", String::from_utf8_lossy(&text)),
        }
        Ok(())
    })?;

    g.label(if node.is_valid() { "valid" } else { "invalid name" });
    if let Html::Element { attributes, children, .. } = &node {
        if !attributes.is_empty() || !children.is_empty() {
            g.nontrivial(&format!("{node:?}"));
        }
    }
    g.describe(|| format!("{node:?}"));
    Ok(())
}

// L07

const ANY: &str = r#"
import Reflect'Any
import Test'Assert
---
type pair {
  first any
  second any
}

type point {
  x number
  y string
  z boolean | none
}
---

OfNumber = \(x number) any { x }
OfText = \(x string) any { x }
OfBoolean = \(x boolean) any { x }
OfNone = \() any { none }
OfFunction = \(x number) any { \() number { x } }
OfError = \(x any) any { error(x) }
OfAnys = \(xs [any]) any { xs }
OfNumbers = \(xs [number]) any { xs }
OfTexts = \(xs [string]) any { xs }
OfPair = \(x any, y any) any { pair{first: x, second: y} }
OfPoint = \(x number, y string, z boolean) any { point{x: x, y: y, z: if z { true } else { none }} }
NoMap = \() {string: any} { {string: any} }
Insert = \(xs {string: any}, k string, x any) {string: any} { {string: any ...xs, k: x} }
OfMap = \(xs {string: any}) any { xs }

Equal = \(x any, y any) boolean | none { Any'Equal(x, y) }
Debug = \(x any) string { Any'Debug(x) }
AssertEqual = \(x any, y any) boolean { if _ = Assert'Equal(x, y) as none { true } else { false } }
AssertError = \(x any) boolean { if _ = Assert'Error(x) as none { true } else { false } }
AssertTrue = \(x boolean) boolean { if _ = Assert'True(x) as none { true } else { false } }
"#;

#[derive(Clone, Debug)]
enum A {
    None,
    Boolean(bool),
    Number(f64),
    Text(String),
    Function(f64),
    Error(Box<A>),
    Anys(Vec<A>),
    Numbers(Vec<f64>),
    Texts(Vec<String>),
    Map(BTreeMap<String, A>),
    Pair(Box<A>, Box<A>),
    Point(f64, String, bool),
}

impl A {
    fn generate(g: &mut Gen, depth: usize) -> Self {
        let small = |g: &mut Gen| match g.weighted(&[8, 1, 1]) {
            0 => g.range(-2, 3) as f64 / 2.0,
            1 => *g.pick(&[f64::INFINITY, 1e300, 0.1, -0.0]),
            _ => g.below(1 << 30) as f64,
        };

        match g.weighted(&if depth == 0 { [2, 3, 4, 4, 1, 0, 0, 0, 0, 0, 0, 2] } else { [1, 2, 2, 2, 1, 2, 5, 2, 2, 3, 4, 2] }) {
            0 => Self::None,
            1 => Self::Boolean(g.bool()),
            2 => Self::Number(small(g)),
            3 => Self::Text(text(g, &['a', 'b', 'é', '"'], 2)),
            4 => Self::Function(small(g)),
            5 => match Self::generate(g, depth - 1) {
                // The source of an error is no error.
                error @ Self::Error(_) => error,
                source => Self::Error(source.into()),
            },
            6 => Self::Anys((0..g.usize(4)).map(|_| Self::generate(g, depth - 1)).collect()),
            7 => Self::Numbers((0..g.usize(4)).map(|_| small(g)).collect()),
            8 => Self::Texts((0..g.usize(4)).map(|_| text(g, &['a', 'b'], 1)).collect()),
            9 => Self::Map((0..g.usize(4)).map(|_| (text(g, &['a', 'b', 'c'], 2), Self::generate(g, depth - 1))).collect()),
            10 => Self::Pair(Self::generate(g, depth - 1).into(), Self::generate(g, depth - 1).into()),
            _ => Self::Point(small(g), text(g, &['a'], 1), g.bool()),
        }
    }

    /// The same, or different in one place.
    fn change(&self, g: &mut Gen) -> Self {
        match self {
            Self::Anys(xs) if !xs.is_empty() => {
                let mut xs = xs.clone();
                let index = g.usize(xs.len());
                match g.below(4) {
                    0 => {
                        xs.remove(index);
                    }
                    1 => xs.push(Self::generate(g, 0)),
                    _ => xs[index] = xs[index].change(g),
                }
                Self::Anys(xs)
            }
            Self::Map(xs) if !xs.is_empty() => {
                let mut xs = xs.clone();
                let key = xs.keys().nth(g.usize(xs.len())).unwrap().clone();
                let value = xs[&key].change(g);
                if g.chance(1, 4) {
                    xs.remove(&key);
                    xs.insert(text(g, &['a', 'b', 'c'], 2), value);
                } else {
                    xs.insert(key, value);
                }
                Self::Map(xs)
            }
            Self::Pair(x, y) => {
                if g.bool() {
                    Self::Pair(x.change(g).into(), y.clone())
                } else {
                    Self::Pair(x.clone(), y.change(g).into())
                }
            }
            Self::Error(x) => match x.change(g) {
                error @ Self::Error(_) => error,
                source => Self::Error(source.into()),
            },
            Self::Point(x, y, z) => match g.below(4) {
                0 => Self::Point(x + 1.0, y.clone(), *z),
                1 => Self::Point(*x, format!("{y}a"), *z),
                2 => Self::Point(*x, y.clone(), !z),
                _ => self.clone(),
            },
            Self::Numbers(xs) if g.bool() => Self::Anys(xs.iter().map(|x| Self::Number(*x)).collect()),
            Self::Numbers(xs) if !xs.is_empty() => {
                let mut xs = xs.clone();
                let index = g.usize(xs.len());
                xs[index] += 1.0;
                Self::Numbers(xs)
            }
            Self::Number(x) if g.bool() => Self::Number(x + 1.0),
            _ if g.bool() => self.clone(),
            _ => Self::generate(g, 1),
        }
    }

    fn build(&self, machine: &Machine) -> Res<Value> {
        match self {
            Self::None => call(machine, "OfNone", vec![]),
            Self::Boolean(x) => call(machine, "OfBoolean", vec![Value::Boolean(*x)]),
            Self::Number(x) => call(machine, "OfNumber", vec![Value::Number(*x)]),
            Self::Text(x) => call(machine, "OfText", vec![machine.string(x.as_bytes())]),
            Self::Function(x) => call(machine, "OfFunction", vec![Value::Number(*x)]),
            Self::Error(x) => call(machine, "OfError", vec![x.build(machine)?]),
            Self::Anys(xs) => {
                let mut list = call(machine, "NoAnys", vec![])?;
                for x in xs.iter().rev() {
                    list = call(machine, "PrependAny", vec![x.build(machine)?, list])?;
                }
                call(machine, "OfAnys", vec![list])
            }
            Self::Numbers(xs) => call(machine, "OfNumbers", vec![numbers(machine, xs)?]),
            Self::Texts(xs) => call(machine, "OfTexts", vec![texts(machine, xs)?]),
            Self::Map(xs) => {
                let mut map = call(machine, "NoMap", vec![])?;
                for (key, x) in xs {
                    map = call(machine, "Insert", vec![map, machine.string(key.as_bytes()), x.build(machine)?])?;
                }
                call(machine, "OfMap", vec![map])
            }
            Self::Pair(x, y) => call(machine, "OfPair", vec![x.build(machine)?, y.build(machine)?]),
            Self::Point(x, y, z) => {
                call(machine, "OfPoint", vec![Value::Number(*x), machine.string(y.as_bytes()), Value::Boolean(*z)])
            }
        }
    }

    /// What is left of a text that starts with the value as the language writes it.
    fn strip<'a>(&self, text: &'a str) -> Option<&'a str> {
        fn items<'a, I>(mut text: &'a str, items: &[I], strip: impl Fn(&I, &'a str) -> Option<&'a str>) -> Option<&'a str> {
            for (index, item) in items.iter().enumerate() {
                text = strip(item, text.strip_prefix(if index == 0 { " " } else { ", " })?)?;
            }
            Some(text)
        }

        fn number(x: f64, text: &str) -> Option<&str> {
            let end = text.find([',', ' ', '}', ']', ')']).unwrap_or(text.len());
            text[..end].parse::<f64>().is_ok_and(|y| x == y).then(|| &text[end..])
        }

        fn quoted<'a>(x: &str, text: &'a str) -> Option<&'a str> {
            text.strip_prefix('"')?.strip_prefix(x)?.strip_prefix('"')
        }

        match self {
            Self::None => text.strip_prefix("none"),
            Self::Boolean(x) => text.strip_prefix(if *x { "true" } else { "false" }),
            Self::Number(x) => number(*x, text),
            Self::Text(x) => quoted(x, text),
            Self::Function(_) => text.strip_prefix("<function>"),
            Self::Error(x) => x.strip(text.strip_prefix("error(")?)?.strip_prefix(')'),
            Self::Anys(xs) => items(text.strip_prefix("[any")?, xs, A::strip)?.strip_prefix(']'),
            Self::Numbers(xs) => {
                items(text.strip_prefix("[number")?, xs, |x, text| number(*x, text))?.strip_prefix(']')
            }
            Self::Texts(xs) => {
                items(text.strip_prefix("[string")?, xs, |x, text| quoted(x, text))?.strip_prefix(']')
            }
            // Entries come in any order.
            Self::Map(xs) => {
                let mut xs = xs.clone();
                let mut text = text.strip_prefix("{string: any")?;
                for index in 0..xs.len() {
                    text = text.strip_prefix(if index == 0 { " " } else { ", " })?;
                    let key = xs.keys().find(|key| text.starts_with(&format!("\"{key}\": ")))?.clone();
                    text = xs.remove(&key)?.strip(&text[key.len() + 4..])?;
                }
                text.strip_prefix('}')
            }
            Self::Pair(x, y) => {
                let text = x.strip(text.strip_prefix("pair{first: ")?)?;
                y.strip(text.strip_prefix(", second: ")?)?.strip_prefix('}')
            }
            Self::Point(x, y, z) => {
                let text = number(*x, text.strip_prefix("point{x: ")?)?;
                let text = quoted(y, text.strip_prefix(", y: ")?)?;
                text.strip_prefix(if *z { ", z: true}" } else { ", z: none}" })
            }
        }
    }

    fn has_function(&self) -> bool {
        match self {
            Self::Function(_) => true,
            Self::Error(x) => x.has_function(),
            Self::Anys(xs) => xs.iter().any(Self::has_function),
            Self::Map(xs) => xs.values().any(Self::has_function),
            Self::Pair(x, y) => x.has_function() || y.has_function(),
            _ => false,
        }
    }

    fn is_equal(&self, other: &Self) -> bool {
        match (self, other) {
            (Self::None, Self::None) => true,
            (Self::Boolean(x), Self::Boolean(y)) => x == y,
            (Self::Number(x), Self::Number(y)) => x == y,
            (Self::Text(x), Self::Text(y)) => x == y,
            (Self::Error(x), Self::Error(y)) => x.is_equal(y),
            (Self::Anys(x), Self::Anys(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| x.is_equal(y)),
            (Self::Numbers(x), Self::Numbers(y)) => x == y,
            (Self::Texts(x), Self::Texts(y)) => x == y,
            (Self::Map(x), Self::Map(y)) => {
                x.len() == y.len() && x.iter().all(|(key, x)| y.get(key).is_some_and(|y| x.is_equal(y)))
            }
            (Self::Pair(x, z), Self::Pair(y, w)) => x.is_equal(y) && z.is_equal(w),
            (Self::Point(x, z, v), Self::Point(y, w, u)) => x == y && z == w && v == u,
            _ => false,
        }
    }

    fn size(&self) -> usize {
        1 + match self {
            Self::Error(x) => x.size(),
            Self::Anys(xs) => xs.iter().map(Self::size).sum(),
            Self::Map(xs) => xs.values().map(Self::size).sum(),
            Self::Pair(x, y) => x.size() + y.size(),
            Self::Numbers(xs) => xs.len(),
            Self::Texts(xs) => xs.len(),
            _ => 0,
        }
    }
}

pub fn any_values(g: &mut Gen) -> CaseResult {
    let stage = stage(g);
    let depth = 3 - g.usize(4);
    let x = A::generate(g, depth);
    let y = match g.weighted(&[2, 3, 1]) {
        0 => x.clone(),
        1 => x.change(g),
        _ => A::generate(g, depth),
    };
    let condition = g.bool();

    with_driver(driver(ANY), stage, FUEL, |machine| {
        let stop = |stop: Stop| crate::failure(&stop, &format!("{x:?} and {y:?}"));
        let build = |x: &A| x.build(machine).map_err(stop);
        let both = || Ok::<_, Failure>(vec![build(&x)?, build(&y)?]);

        let result = call(machine, "Equal", both()?).map_err(stop)?;
        let got = match &result {
            Value::Variant(_, payload) => match &**payload {
                Value::Boolean(equal) => Some(*equal),
                Value::None => None,
                value => fail!("result", "{value:?}"),
            },
            value => fail!("result", "{value:?}"),
        };
        // Where two values differ somewhere and cannot be compared elsewhere, either may be noticed first.
        match got {
            Some(true) => ensure!(x.is_equal(&y), "equality", "{x:?} equals {y:?}"),
            Some(false) => ensure!(!x.is_equal(&y) , "equality", "{x:?} does not equal {y:?}"),
            None => ensure!(x.has_function() && y.has_function(), "comparability", "{x:?} cannot be compared with {y:?}"),
        }
        if std::mem::discriminant(&x) == std::mem::discriminant(&y) && matches!(x, A::Function(_)) {
            ensure!(got.is_none(), "comparability", "functions are compared");
        }

        let accepted = call(machine, "AssertEqual", both()?).and_then(boolean).map_err(stop)?;
        ensure_eq!(accepted, got == Some(true), "assertion of equality", "{x:?} and {y:?}");
        let accepted = call(machine, "AssertError", vec![build(&x)?]).and_then(boolean).map_err(stop)?;
        ensure_eq!(accepted, matches!(x, A::Error(_)), "assertion of an error", "{x:?}");
        let accepted = call(machine, "AssertTrue", vec![Value::Boolean(condition)]).and_then(boolean).map_err(stop)?;
        ensure_eq!(accepted, condition, "assertion of a condition", "{condition}");

        let text = |x: &A| call(machine, "Debug", vec![build(x)?]).and_then(|x| bytes(machine, x)).map_err(stop);
        let (one, other) = (text(&x)?, text(&y)?);
        let shown = (String::from_utf8_lossy(&one).into_owned(), String::from_utf8_lossy(&other).into_owned());
        ensure_eq!(text(&x)?, one, "text for debugging", "text of {x:?} twice");
        // The signs of zeros and the order of entries show although they are no difference.
        if !x.has_function() && !y.has_function() && !x.is_equal(&y) {
            ensure!(shown.0 != shown.1 || ambiguous(&x) || ambiguous(&y), "text for debugging", "{x:?} and {y:?} have the same text {:?}", shown.0);
        }
        for (x, shown) in [(&x, &shown.0), (&y, &shown.1)] {
            ensure!(x.strip(shown) == Some(""), "text for debugging", "{x:?} is shown as {shown:?}");
        }

        foreign_conversions(machine, &x).map_err(stop)?
    })?;

    g.label(if x.has_function() { "with a function" } else if x.is_equal(&y) { "equal" } else { "different" });
    if x.size() > 2 {
        g.nontrivial(&format!("{x:?} {y:?}"));
    }
    g.describe(|| format!("{x:?} {y:?}"));
    Ok(())
}

/// Whether the text of a value may be that of another: quotes in texts are not escaped.
fn ambiguous(x: &A) -> bool {
    match x {
        A::Text(x) => x.contains('"'),
        A::Error(x) => ambiguous(x),
        A::Anys(xs) => xs.iter().any(ambiguous),
        A::Map(xs) => xs.values().any(ambiguous),
        A::Pair(x, y) => ambiguous(x) || ambiguous(y),
        _ => false,
    }
}

/// What foreign code sees of a value through packages/ffi/any.pen and packages/ffi/list.pen.
fn foreign_conversions(machine: &Machine, x: &A) -> Res<CaseResult> {
    let ask = |name: &str| machine.call_foreign(name, vec![x.build(machine)?]);
    let is = |name: &str| ask(&format!("pen_ffi_any_is_{name}")).and_then(boolean);
    let kinds = [
        ("boolean", matches!(x, A::Boolean(_))),
        ("error", matches!(x, A::Error(_))),
        ("none", matches!(x, A::None)),
        ("list", matches!(x, A::Anys(_))),
        ("number", matches!(x, A::Number(_))),
        ("string", matches!(x, A::Text(_))),
    ];

    for (name, expected) in kinds {
        let got = is(name)?;
        if got != expected {
            return Ok(Err(Failure::new("kind of a value", format!("{x:?} is a {name}: {got}"))));
        }
    }

    let got = boolean(ask("pen_ffi_any_to_boolean")?)?;
    if got != matches!(x, A::Boolean(true)) {
        return Ok(Err(Failure::new("conversion", format!("{x:?} as a boolean: {got}"))));
    }

    let got = number(ask("pen_ffi_any_to_number")?)?;
    if got.to_bits() != if let A::Number(x) = x { x.to_bits() } else { 0 } {
        return Ok(Err(Failure::new("conversion", format!("{x:?} as a number: {got}"))));
    }

    let got = bytes(machine, ask("pen_ffi_any_to_string")?)?;
    if got != if let A::Text(x) = x { x.as_bytes() } else { b"" } {
        return Ok(Err(Failure::new("conversion", format!("{x:?} as a string: {got:?}"))));
    }

    // The elements of a list, and the list made of them again.
    let A::Anys(xs) = x else { return Ok(Ok(())) };
    let mut list = ask("pen_ffi_any_to_list")?;
    let mut elements = vec![];

    loop {
        let first_rest = machine.call_foreign("pen_ffi_list_first_rest", vec![list])?;
        let Value::Record(record) = &first_rest else { return Err(Stop::Stuck(format!("{first_rest:?}"))) };
        let [ok, first, rest] = &record.data.fields.borrow()[..] else { return Err(Stop::Stuck("fields".into())) };
        let (ok, first, rest) = (ok.clone(), machine.clone_value(first)?, machine.clone_value(rest)?);
        machine.drop_value(&first_rest)?;

        if !boolean(ok)? {
            machine.drop_value(&first)?;
            machine.drop_value(&rest)?;
            break;
        }

        // A call gives away its function.
        elements.push(machine.call(&first, vec![])?);
        list = rest;
    }

    if elements.len() != xs.len() {
        return Ok(Err(Failure::new("list", format!("{} elements of {x:?}", elements.len()))));
    }

    let mut list = machine.call_foreign("pen_ffi_list_create", vec![])?;
    for element in elements.into_iter().rev() {
        list = machine.call_foreign("pen_ffi_list_prepend", vec![element, list])?;
    }
    let again = call(machine, "OfAnys", vec![list])?;
    let result = call(machine, "Equal", vec![again, x.build(machine)?])?;
    let Value::Variant(_, payload) = &result else { return Err(Stop::Stuck("equality".into())) };

    Ok(match &**payload {
        Value::Boolean(true) => Ok(()),
        Value::None if x.has_function() => Ok(()),
        value => Err(Failure::new("list", format!("the list of the elements of {x:?} equals it: {value:?}"))),
    })
}
