//! F04: type-erased values.

use crate::heap::track;
use crate::host;
use crate::strings::bytes;
use crate::token::{self, Token};
use crate::{begin, finished, sound};
use pbt::{ensure, ensure_eq, fail, Campaign, CaseResult, Gen, Property};
use pen_ffi::{Any, Arc, Boolean, ByteString, Error, List, None, Number};

#[pen_ffi::any(crate = "pen_ffi")]
#[derive(Clone, Copy, Debug, PartialEq)]
struct Byte(u8);

#[pen_ffi::any(crate = "pen_ffi")]
#[derive(Clone, Debug, PartialEq)]
struct Pair {
    x: u32,
    y: u16,
}

#[pen_ffi::any(crate = "pen_ffi")]
#[derive(Clone, Debug, PartialEq)]
struct Pair2 {
    x: u32,
    y: u16,
}

#[pen_ffi::any(crate = "pen_ffi")]
#[derive(Clone, Debug, PartialEq)]
struct Word(u64);

#[pen_ffi::any(crate = "pen_ffi")]
#[derive(Clone, Debug, PartialEq, Default)]
struct Empty {}

#[pen_ffi::any(crate = "pen_ffi")]
#[derive(Clone, Debug)]
struct Counted(Token);

#[pen_ffi::any(crate = "pen_ffi")]
#[derive(Clone, Debug)]
struct Deep(Box<(Token, u64)>);

#[pen_ffi::any(crate = "pen_ffi")]
#[derive(Clone, Debug)]
struct Shared(Arc<(Token, u64, [u8; 40])>);

#[derive(Clone, Debug, PartialEq)]
enum Value {
    Byte(u8),
    Pair(u32, u16),
    Pair2(u32, u16),
    Word(u64),
    Empty,
    Counted,
    Deep(u64),
    Shared(u64),
    Boolean(bool),
    Number(u64),
    None,
    Text(Vec<u8>),
    List(Vec<u64>),
    // Holds the value it was made from.
    Error(Box<Value>),
}

fn value(g: &mut Gen, depth: u32) -> Value {
    match g.below(14) {
        0 => Value::Byte(g.below(256) as u8),
        1 => Value::Pair(g.u64() as u32, g.u64() as u16),
        2 => Value::Pair2(g.u64() as u32, g.u64() as u16),
        3 => Value::Word(g.u64()),
        4 => Value::Empty,
        5 => Value::Counted,
        6 => Value::Deep(g.u64()),
        7 => Value::Shared(g.u64()),
        8 => Value::Boolean(g.bool()),
        9 => Value::Number(g.u64()),
        10 => Value::None,
        11 => Value::Text(bytes(g)),
        12 => Value::List((0..g.usize(4)).map(|_| g.u64()).collect()),
        _ if depth == 0 => Value::Boolean(g.bool()),
        _ => Value::Error(value(g, depth - 1).into()),
    }
}

fn erase(v: &Value) -> Any {
    match v {
        Value::Byte(x) => Byte(*x).into(),
        Value::Pair(x, y) => Pair { x: *x, y: *y }.into(),
        Value::Pair2(x, y) => Pair2 { x: *x, y: *y }.into(),
        Value::Word(x) => Word(*x).into(),
        Value::Empty => Empty {}.into(),
        Value::Counted => Counted(Token::new()).into(),
        Value::Deep(x) => Deep(Box::new((Token::new(), *x))).into(),
        Value::Shared(x) => Shared(Arc::new((Token::new(), *x, [*x as u8; 40]))).into(),
        Value::Boolean(x) => Boolean::new(*x).into(),
        Value::Number(x) => Number::new(f64::from_bits(*x)).into(),
        Value::None => None::new().into(),
        Value::Text(x) => ByteString::from(x.as_slice()).into(),
        Value::List(xs) => List::from(xs.iter().map(|x| Word(*x)).collect::<Vec<_>>()).into(),
        Value::Error(x) => Error::new(erase(x)).into(),
    }
}

const TARGETS: usize = 13;

fn target(v: &Value) -> Option<usize> {
    Some(match v {
        Value::Byte(_) => 0,
        Value::Pair(..) => 1,
        Value::Pair2(..) => 2,
        Value::Word(_) => 3,
        Value::Empty => 4,
        Value::Counted => 5,
        Value::Deep(_) => 6,
        Value::Shared(_) => 7,
        Value::Boolean(_) => 8,
        Value::Number(_) => 9,
        Value::Text(_) => 10,
        Value::List(_) => 11,
        Value::Error(_) => 12,
        Value::None => return Option::None,
    })
}

/// Converts to the type with the given number and compares with the expected value.
fn convert(any: Any, to: usize, expected: &Value) -> CaseResult {
    let matching = target(expected) == Some(to);
    macro_rules! check {
        ($type:ty, $pattern:pat, $x:ident, $same:expr) => {
            match (<$type>::try_from(any), matching) {
                (Ok($x), true) => match expected {
                    $pattern => ensure!($same, "recovered value differs", "{} recovered from {expected:?} differs", stringify!($type)),
                    _ => unreachable!(),
                },
                (Err(()), false) => {}
                (Ok(_), false) => fail!("conversion to another type", "{expected:?} was converted to {}", stringify!($type)),
                (Err(()), true) => fail!("conversion refused", "{expected:?} was not converted to {}", stringify!($type)),
            }
        };
    }
    match to {
        0 => check!(Byte, Value::Byte(v), x, x.0 == *v),
        1 => check!(Pair, Value::Pair(v, w), x, (x.x, x.y) == (*v, *w)),
        2 => check!(Pair2, Value::Pair2(v, w), x, (x.x, x.y) == (*v, *w)),
        3 => check!(Word, Value::Word(v), x, x.0 == *v),
        4 => check!(Empty, Value::Empty, x, x == Empty {}),
        5 => check!(Counted, Value::Counted, x, x.0.intact()),
        6 => check!(Deep, Value::Deep(v), x, x.0 .0.intact() && x.0 .1 == *v),
        7 => check!(Shared, Value::Shared(v), x, x.0 .0.intact() && x.0 .1 == *v && x.0 .2 == [*v as u8; 40]),
        8 => check!(Boolean, Value::Boolean(v), x, bool::from(x) == *v),
        9 => check!(Number, Value::Number(v), x, f64::from(x).to_bits() == *v),
        10 => check!(ByteString, Value::Text(v), x, x.as_slice() == v.as_slice()),
        11 => check!(List, Value::List(v), x, elements(x) == *v),
        _ => match (Error::try_from(any), expected) {
            (Ok(e), Value::Error(inner)) => {
                let source = host::source(&e);
                drop(e);
                check_kind(&source, inner)?;
                if let Some(t) = target(inner) {
                    convert(source, t, inner)?;
                }
            }
            (Err(()), Value::Error(_)) => fail!("conversion refused", "{expected:?} was not converted to an error"),
            (Ok(_), _) => fail!("conversion to another type", "{expected:?} was converted to an error"),
            (Err(()), _) => {}
        },
    }
    Ok(())
}

fn elements(list: List) -> Vec<u64> {
    use futures::StreamExt;
    crate::tasks::complete(
        pen_ffi::future::stream::from_list(list).map(|x| Word::try_from(x).map(|w| w.0).unwrap_or(u64::MAX)).collect::<Vec<_>>(),
    )
}

/// Looks at a value through a shared reference.
fn peek(any: &Any, to: usize, expected: &Value) -> CaseResult {
    let matching = target(expected) == Some(to);
    macro_rules! check {
        ($type:ty, $pattern:pat, $x:ident, $same:expr) => {
            match (<&$type>::try_from(any), matching) {
                (Ok($x), true) => match expected {
                    $pattern => ensure!($same, "referenced value differs", "{} seen in {expected:?} differs", stringify!($type)),
                    _ => unreachable!(),
                },
                (Err(()), false) => {}
                (Ok(_), false) => fail!("reference to another type", "{expected:?} was seen as {}", stringify!($type)),
                (Err(()), true) => fail!("reference refused", "{expected:?} was not seen as {}", stringify!($type)),
            }
        };
    }
    match to {
        0 => check!(Byte, Value::Byte(v), x, x.0 == *v),
        1 => check!(Pair, Value::Pair(v, w), x, (x.x, x.y) == (*v, *w)),
        2 => check!(Pair2, Value::Pair2(v, w), x, (x.x, x.y) == (*v, *w)),
        3 => check!(Word, Value::Word(v), x, x.0 == *v),
        4 => check!(Empty, Value::Empty, x, *x == Empty {}),
        5 => check!(Counted, Value::Counted, x, x.0.intact()),
        6 => check!(Deep, Value::Deep(v), x, x.0 .0.intact() && x.0 .1 == *v),
        7 => check!(Shared, Value::Shared(v), x, x.0 .0.intact() && x.0 .1 == *v),
        _ => {}
    }
    Ok(())
}

/// Changes an inline value through an exclusive reference.
fn poke(any: &mut Any, to: usize, seed: u64, expected: &mut Value) -> CaseResult {
    let matching = target(expected) == Some(to);
    macro_rules! check {
        ($type:ty, $x:ident, $write:expr) => {
            match (<&mut $type>::try_from(&mut *any), matching) {
                (Ok($x), true) => $write,
                (Err(()), false) => {}
                (Ok(_), false) => fail!("reference to another type", "{expected:?} was changed as {}", stringify!($type)),
                (Err(()), true) => fail!("reference refused", "{expected:?} was not changed as {}", stringify!($type)),
            }
        };
    }
    match to {
        0 => check!(Byte, x, {
            x.0 = seed as u8;
            *expected = Value::Byte(seed as u8)
        }),
        1 => check!(Pair, x, {
            *x = Pair { x: seed as u32, y: (seed >> 32) as u16 };
            *expected = Value::Pair(seed as u32, (seed >> 32) as u16)
        }),
        2 => check!(Pair2, x, {
            x.y = seed as u16;
            let Value::Pair2(_, y) = expected else { unreachable!() };
            *y = seed as u16
        }),
        3 => check!(Word, x, {
            x.0 = seed;
            *expected = Value::Word(seed)
        }),
        6 => check!(Deep, x, {
            x.0 .1 = seed;
            *expected = Value::Deep(seed)
        }),
        _ => {}
    }
    Ok(())
}

fn check_kind(any: &Any, v: &Value) -> CaseResult {
    let kinds = [any.is_boolean(), any.is_error(), any.is_none(), any.is_list(), any.is_number(), any.is_string()];
    let expected = [
        matches!(v, Value::Boolean(_)),
        matches!(v, Value::Error(_)),
        matches!(v, Value::None),
        matches!(v, Value::List(_)),
        matches!(v, Value::Number(_)),
        matches!(v, Value::Text(_)),
    ];
    ensure_eq!(kinds, expected, "kind", "is_boolean, is_error, is_none, is_list, is_number, is_string of {v:?}");
    Ok(())
}

fn tokens(v: &Value) -> usize {
    match v {
        Value::Counted | Value::Deep(_) => 1,
        _ => 0,
    }
}

fn history(g: &mut Gen) -> CaseResult {
    begin();
    host::SUSPENSIONS.store(0, std::sync::atomic::Ordering::SeqCst);
    let mut slots: Vec<(Any, Value)> = vec![];
    let result = run(g, &mut slots);
    if result.is_err() {
        std::mem::forget(slots);
        return result;
    }
    for (any, _) in slots {
        track(|| drop(any));
        sound()?;
    }
    finished()
}

fn run(g: &mut Gen, slots: &mut Vec<(Any, Value)>) -> CaseResult {
    let steps = 3 + g.len(40);
    let mut conversions = 0;
    for _ in 0..steps {
        let step = if slots.is_empty() { 0 } else { g.weighted(&[4, 3, 2, 4, 3, 3, 2]) };
        let slot = g.usize(slots.len());
        let matching = g.chance(1, 2);
        let to = |v: &Value, other: usize| if matching { target(v).unwrap_or(other) } else { other };
        match step {
            0 => {
                let v = value(g, 2);
                g.describe(|| format!("erase {v:?}"));
                slots.push((track(|| erase(&v)), v));
            }
            1 => {
                let v = slots[slot].1.clone();
                g.describe(|| format!("clone {v:?}"));
                slots.push((track(|| slots[slot].0.clone()), v));
            }
            2 => {
                let (any, v) = slots.swap_remove(slot);
                g.describe(|| format!("drop {v:?}"));
                track(|| drop(any));
            }
            3 => {
                let other = g.usize(TARGETS);
                let (any, v) = slots.swap_remove(slot);
                let to = to(&v, other);
                g.describe(|| format!("convert {v:?} to type {to}"));
                track(|| convert(any, to, &v))?;
                conversions += 1;
            }
            4 => {
                let other = g.usize(8);
                let v = slots[slot].1.clone();
                g.describe(|| format!("look at {v:?}"));
                track(|| peek(&slots[slot].0, to(&v, other), &v))?;
            }
            5 => {
                let other = *g.pick(&[0, 1, 2, 3, 6]);
                let seed = g.u64();
                let to = to(&slots[slot].1, other);
                g.describe(|| format!("change {:?}", slots[slot].1));
                let (any, v) = &mut slots[slot];
                track(|| poke(any, to, seed, v))?;
            }
            _ => {
                let v = slots[slot].1.clone();
                track(|| check_kind(&slots[slot].0, &v))?;
            }
        }
        sound()?;
        // Payloads cloned by value have a token for each handle.
        let expected: usize = slots.iter().map(|s| tokens(&s.1)).sum();
        let nested = slots.iter().any(|s| matches!(s.1, Value::Shared(_) | Value::Error(_)));
        let left = token::outstanding().unwrap();
        ensure!(left >= expected && (nested || left == expected), "payloads and handles differ", "{left} payloads, {expected} handles");
        for (any, v) in slots.iter() {
            if let Some(t) = target(v).filter(|t| *t < 8) {
                track(|| peek(any, t, v))?;
            }
        }
    }
    if conversions > 1 {
        g.nontrivial(&g.recorded().to_vec());
    }
    Ok(())
}

/// Outcomes of fallible native functions.
fn outcomes(g: &mut Gen) -> CaseResult {
    begin();
    let v = value(g, 1);
    let failed = g.bool();
    let text = String::from_utf8_lossy(&bytes(g)).to_string();
    g.describe(|| format!("{failed} {v:?} {text:?}"));
    g.nontrivial(&(format!("{v:?}"), failed, text.clone()));
    let kind = g.below(4);
    track(|| -> CaseResult {
        let result: pen_ffi::extra::Result = match kind {
            0 => if failed { Err(erase(&v)) } else { Ok(erase(&v)) }.into(),
            1 => if failed { Err(erase(&v)) } else { Ok(()) }.into(),
            2 => if failed { Err::<Any, Box<dyn std::error::Error>>(text.clone().into()) } else { Ok(erase(&v)) }.into(),
            _ => if failed { Err::<(), Box<dyn std::error::Error>>(text.clone().into()) } else { Ok(()) }.into(),
        };
        let any: Any = unsafe { std::mem::transmute(result) };
        let inner = match kind {
            _ if !failed && kind % 2 == 0 => v.clone(),
            _ if !failed => Value::None,
            0 | 1 => Value::Error(v.clone().into()),
            _ => Value::Error(Value::Text(text.clone().into_bytes()).into()),
        };
        check_kind(&any, &inner)?;
        if let Some(t) = target(&inner) {
            convert(any, t, &inner)?;
        }
        let error: Error = std::io::Error::other(text.clone()).into();
        convert(error.into(), 12, &Value::Error(Value::Text(text.clone().into_bytes()).into()))
    })?;
    // Numbers and booleans.
    let x = f64::from_bits(g.u64());
    ensure_eq!(f64::from(Number::from(x)).to_bits(), x.to_bits(), "number", "number");
    ensure_eq!(usize::from(Number::from(x)), x as usize, "number as an index", "number as an index");
    ensure_eq!(bool::from(Boolean::from(failed)), failed, "boolean", "boolean");
    finished()
}

pub fn property() -> Property {
    Property {
        id: "F04",
        level: "exploration",
        rule: "a case is non-trivial if values were converted at least twice",
        assumptions: &["The functions that compiled programs provide (tests, conversions and lists) are played by the harness."],
        campaigns: vec![Campaign::new("histories", 1_500_000, 30_000_000, history), Campaign::new("outcomes", 500_000, 5_000_000, outcomes)],
    }
}
