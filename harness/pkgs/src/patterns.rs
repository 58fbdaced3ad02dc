//! P05: regular expressions against a backtracking matcher of its own.

use crate::{s, vec};
use pbt::{ensure, ensure_eq, fail, Campaign, CaseResult, Gen, Property};
use pen_ffi::{Any, Arc, Boolean, ByteString, List, TypeInformation};
use std::mem::{forget, transmute};

extern "C" {
    fn _pen_regex_expression_new(x: ByteString) -> Any;
    fn _pen_regex_expression_matches(x: Arc<Any>, y: ByteString) -> Boolean;
    fn _pen_regex_expression_match(x: Arc<Any>, y: ByteString) -> List;
}

extern "C" fn clone(x: u64) -> u64 {
    let x: Arc<Any> = unsafe { transmute(x) };
    let y = x.clone();
    forget(x);
    unsafe { transmute(y) }
}

extern "C" fn release(x: u64) {
    drop(unsafe { transmute::<u64, Arc<Any>>(x) })
}

extern "C" fn synchronize(_: u64) {}

static EXPRESSION: TypeInformation = TypeInformation::new(clone, release, synchronize);

#[no_mangle]
extern "C" fn _pen_regex_expression_to_any(x: Arc<Any>) -> Any {
    Any::new(&EXPRESSION, unsafe { transmute(x) })
}

fn compile(x: &[u8]) -> Result<Arc<Any>, ()> {
    let x = unsafe { _pen_regex_expression_new(s(x)) };
    if x.is_error() {
        return Err(());
    }
    assert!(std::ptr::eq(x.type_information(), &EXPRESSION), "an expression");
    let y = *x.payload();
    forget(x);
    Ok(unsafe { transmute::<u64, Arc<Any>>(y) })
}

fn matches(e: &Arc<Any>, x: &[u8]) -> bool {
    unsafe { _pen_regex_expression_matches(e.clone(), s(x)) }.into()
}

type Groups = Vec<Option<Vec<u8>>>;

fn groups(e: &Arc<Any>, x: &[u8]) -> Option<Groups> {
    let v = vec(unsafe { _pen_regex_expression_match(e.clone(), s(x)) })
        .into_iter()
        .map(|x| {
            if x.is_none() {
                None
            } else {
                Some(ByteString::try_from(x).expect("a group is a string or none").as_slice().to_vec())
            }
        })
        .collect::<Vec<_>>();
    if v.is_empty() { None } else { Some(v) }
}

#[derive(Clone, Debug)]
enum Node {
    Empty,
    Character(char),
    Any,
    Class(bool, Vec<(char, char)>),
    Start,
    End,
    Sequence(Vec<Node>),
    Choice(Vec<Node>),
    /// A group with its index.
    Group(usize, Box<Node>),
    Repeat(Box<Node>, usize, Option<usize>, bool),
}

const CHARACTERS: [char; 8] = ['a', 'b', 'c', '1', ' ', '.', 'é', '😄'];

fn node(g: &mut Gen, depth: u32, count: &mut usize) -> Node {
    match g.weighted(if depth == 0 { &[6, 1, 2, 1, 0, 0, 0, 0] } else { &[4, 1, 1, 1, 4, 3, 3, 4] }) {
        0 => Node::Character(*g.pick(&CHARACTERS)),
        1 => Node::Any,
        2 => {
            let negated = g.chance(1, 3);
            let n = 1 + g.usize(3);
            Node::Class(
                negated,
                (0..n)
                    .map(|_| {
                        let (x, y) = (*g.pick(&CHARACTERS), *g.pick(&CHARACTERS));
                        if g.bool() { (x, x) } else { (x.min(y), x.max(y)) }
                    })
                    .collect(),
            )
        }
        3 => [Node::Empty, Node::Start, Node::End][g.weighted(&[1, 1, 2])].clone(),
        4 => {
            let n = 1 + g.usize(4);
            Node::Sequence((0..n).map(|_| node(g, depth - 1, count)).collect())
        }
        5 => {
            let n = 2 + g.usize(2);
            Node::Choice((0..n).map(|_| node(g, depth - 1, count)).collect())
        }
        6 => {
            *count += 1;
            let i = *count;
            Node::Group(i, node(g, depth - 1, count).into())
        }
        _ => {
            let before = *count;
            let mut inner = node(g, depth - 1, count);
            if least(&inner) == 0 {
                // What groups take part in empty repetitions depends on the implementation.
                *count = before;
                inner = Node::Character(*g.pick(&CHARACTERS));
            }
            let (low, high) = *g.pick(&[(0, None), (1, None), (0, Some(1)), (2, Some(2)), (1, Some(3)), (0, Some(2)), (2, None)]);
            Node::Repeat(inner.into(), low, high, g.chance(1, 3))
        }
    }
}

/// The least number of characters that a node matches.
fn least(x: &Node) -> usize {
    match x {
        Node::Empty | Node::Start | Node::End => 0,
        Node::Character(_) | Node::Any | Node::Class(..) => 1,
        Node::Sequence(xs) => xs.iter().map(least).sum(),
        Node::Choice(xs) => xs.iter().map(least).min().unwrap_or(0),
        Node::Group(_, x) => least(x),
        Node::Repeat(x, n, ..) => least(x) * n,
    }
}

fn write(x: &Node, t: &mut String) {
    let literal = |c: char, t: &mut String| {
        if c == '.' {
            t.push('\\')
        }
        t.push(c)
    };
    match x {
        Node::Empty => *t += "(?:)",
        Node::Character(c) => literal(*c, t),
        Node::Any => t.push('.'),
        Node::Class(negated, ranges) => {
            *t += if *negated { "[^" } else { "[" };
            for (x, y) in ranges {
                literal(*x, t);
                if x != y {
                    t.push('-');
                    literal(*y, t);
                }
            }
            t.push(']');
        }
        Node::Start => t.push('^'),
        Node::End => t.push('$'),
        Node::Sequence(xs) => {
            for x in xs {
                if matches!(x, Node::Choice(_)) {
                    *t += "(?:";
                    write(x, t);
                    t.push(')');
                } else {
                    write(x, t);
                }
            }
        }
        Node::Choice(xs) => {
            for (i, x) in xs.iter().enumerate() {
                if i > 0 {
                    t.push('|');
                }
                write(x, t);
            }
        }
        Node::Group(i, x) => {
            *t += &if i % 3 == 0 { format!("(?P<g{i}>") } else { "(".into() };
            write(x, t);
            t.push(')');
        }
        Node::Repeat(x, low, high, lazy) => {
            *t += "(?:";
            write(x, t);
            t.push(')');
            *t += &match (low, high) {
                (0, None) => "*".into(),
                (1, None) => "+".into(),
                (0, Some(1)) => "?".into(),
                (n, None) => format!("{{{n},}}"),
                (n, Some(m)) if n == m => format!("{{{n}}}"),
                (n, Some(m)) => format!("{{{n},{m}}}"),
            };
            if *lazy {
                t.push('?');
            }
        }
    }
}

type Places = Vec<Option<(usize, usize)>>;

/// Tries to match a node at a place and then what follows it; the first success counts.
fn step(x: &Node, text: &[char], i: usize, groups: &Places, fuel: &mut u64, rest: &mut dyn FnMut(usize, &Places, &mut u64) -> Option<Places>) -> Option<Places> {
    if *fuel == 0 {
        return None;
    }
    *fuel -= 1;
    match x {
        Node::Empty => rest(i, groups, fuel),
        Node::Character(c) => (text.get(i) == Some(c)).then(|| rest(i + 1, groups, fuel))?,
        Node::Any => text.get(i).is_some_and(|c| *c != '\n').then(|| rest(i + 1, groups, fuel))?,
        Node::Class(negated, ranges) => {
            let c = *text.get(i)?;
            (ranges.iter().any(|(x, y)| (*x..=*y).contains(&c)) != *negated).then(|| rest(i + 1, groups, fuel))?
        }
        Node::Start => (i == 0).then(|| rest(i, groups, fuel))?,
        Node::End => (i == text.len()).then(|| rest(i, groups, fuel))?,
        Node::Sequence(xs) => match xs.split_first() {
            None => rest(i, groups, fuel),
            Some((x, xs)) => {
                let xs = Node::Sequence(xs.to_vec());
                step(x, text, i, groups, fuel, &mut |i, groups, fuel| step(&xs, text, i, groups, fuel, rest))
            }
        },
        Node::Choice(xs) => xs.iter().find_map(|x| step(x, text, i, groups, fuel, rest)),
        Node::Group(n, x) => step(x, text, i, groups, fuel, &mut |j, groups, fuel| {
            let mut groups = groups.clone();
            groups[*n] = Some((i, j));
            rest(j, &groups, fuel)
        }),
        Node::Repeat(x, low, high, lazy) => {
            let more = Node::Repeat(x.clone(), low.saturating_sub(1), high.map(|n| n.saturating_sub(1)), *lazy);
            let stop = *low == 0;
            let go = *high != Some(0);
            if stop && *lazy {
                if let Some(found) = rest(i, groups, fuel) {
                    return Some(found);
                }
            }
            if go {
                let found = step(x, text, i, groups, fuel, &mut |j, groups, fuel| {
                    step(&more, text, j, groups, fuel, rest)
                });
                if found.is_some() {
                    return found;
                }
            }
            if stop && !*lazy { rest(i, groups, fuel) } else { None }
        }
    }
}

fn reference(x: &Node, count: usize, text: &[char]) -> Option<Option<Groups>> {
    let mut fuel = 200_000;
    for i in 0..=text.len() {
        let found = step(x, text, i, &vec![None; count + 1], &mut fuel, &mut |j, groups, _| {
            let mut groups = groups.clone();
            groups[0] = Some((i, j));
            Some(groups)
        });
        if fuel == 0 {
            return None;
        }
        if let Some(places) = found {
            return Some(Some(
                places.into_iter().map(|p| p.map(|(i, j)| text[i..j].iter().collect::<String>().into_bytes())).collect(),
            ));
        }
    }
    Some(None)
}

fn matching(g: &mut Gen) -> CaseResult {
    let mut count = 0;
    let mut x = node(g, 4, &mut count);
    renumber(&mut x, &mut 0);
    count = groups_of(&x);
    let mut pattern = String::new();
    write(&x, &mut pattern);
    let text = g.vec(12, |g| *g.pick(&['a', 'b', 'c', '1', ' ', '.', 'é', '😄', '\n', 'z']));
    let string: String = text.iter().collect();
    g.describe(|| format!("{pattern:?} on {string:?}"));
    let Ok(e) = compile(pattern.as_bytes()) else { fail!("refused pattern", "{pattern:?}") };
    let Some(expected) = reference(&x, count, &text) else {
        g.discard();
        return Ok(());
    };
    g.label(if expected.is_some() { "match" } else { "no match" });
    if expected.as_ref().is_some_and(|m| m.len() > 1 || m[0].as_ref().is_some_and(|x| !x.is_empty())) {
        g.nontrivial(&(&pattern, &string));
    }
    g.label_if(expected.iter().flatten().any(|x| x.is_none()), "absent group");
    ensure_eq!(matches(&e, string.as_bytes()), expected.is_some(), "match", "{pattern:?} on {string:?}");
    ensure_eq!(groups(&e, string.as_bytes()), expected, "groups", "{pattern:?} on {string:?}");
    Ok(())
}

/// Numbers groups in the order of their opening parentheses.
fn renumber(x: &mut Node, n: &mut usize) {
    match x {
        Node::Group(i, x) => {
            *n += 1;
            *i = *n;
            renumber(x, n)
        }
        Node::Sequence(xs) | Node::Choice(xs) => xs.iter_mut().for_each(|x| renumber(x, n)),
        Node::Repeat(x, ..) => renumber(x, n),
        _ => (),
    }
}

fn groups_of(x: &Node) -> usize {
    match x {
        Node::Group(_, x) => 1 + groups_of(x),
        Node::Sequence(xs) | Node::Choice(xs) => xs.iter().map(groups_of).sum(),
        Node::Repeat(x, ..) => groups_of(x),
        _ => 0,
    }
}

fn invalid(g: &mut Gen) -> CaseResult {
    let mut pattern = String::new();
    write(&node(g, 3, &mut 0), &mut pattern);
    let mut pattern = pattern.replace("?P<", "?P<x").into_bytes();
    match g.below(9) {
        0 => pattern.push(b')'),
        1 => pattern.splice(0..0, *b"(").for_each(drop),
        2 => pattern.push(b'['),
        3 => pattern.push(b'\\'),
        4 => pattern.extend(b"a{2,1}"),
        5 => pattern.extend(b"(?=a)"),
        6 => pattern.splice(0..0, *b"*").for_each(drop),
        7 => pattern.extend(b"[z-a]"),
        _ => {
            let i = g.usize(pattern.len() + 1);
            pattern.insert(i, 0xff);
        }
    }
    g.describe(|| format!("{:?}", String::from_utf8_lossy(&pattern)));
    g.nontrivial(&pattern);
    ensure!(compile(&pattern).is_err(), "accepted pattern", "{:?}", String::from_utf8_lossy(&pattern));
    Ok(())
}

/// Any text as a pattern on any string, against the underlying library used directly.
fn wrapping(g: &mut Gen) -> CaseResult {
    let pieces = ["a", "b", "(", ")", "(?:", "(?P<n>", "[", "]", "^", "$", "*", "+", "?", "{2}", "{1,", "}", "|", ".", "\\b", "\\d", "\\w+", "\\s", "(?i)", "(?m)", "(?s)", "(?x)", "é", "\\p{L}", "-", "\\", "\n", "[[:alpha:]]", "&&"];
    let pattern: String = g.vec(10, |g| *g.pick(&pieces)).concat();
    let mut x = g.vec(12, |g| *g.pick(&["a", "b", "A", "1", " ", "é", "\n", "😄", "ab"])).concat().into_bytes();
    if g.chance(1, 6) {
        let i = g.usize(x.len() + 1);
        x.insert(i, 0xff);
    }
    g.describe(|| format!("{pattern:?} on {:?}", String::from_utf8_lossy(&x)));
    g.nontrivial(&(&pattern, &x));
    let (got, expected) = (compile(pattern.as_bytes()), regex::Regex::new(&pattern));
    ensure_eq!(got.is_ok(), expected.is_ok(), "validity", "of {pattern:?}");
    let (Ok(e), Ok(r)) = (got, expected) else { return Ok(()) };
    g.label("valid");
    let text = std::str::from_utf8(&x).ok();
    let captures = text.and_then(|x| r.captures(x)).map(|c| c.iter().map(|m| m.map(|m| m.as_str().as_bytes().to_vec())).collect());
    ensure_eq!(matches(&e, &x), captures.is_some(), "match", "{pattern:?} on {:?}", String::from_utf8_lossy(&x));
    ensure_eq!(groups(&e, &x), captures, "groups", "{pattern:?} on {:?}", String::from_utf8_lossy(&x));
    // An expression can be used again.
    ensure_eq!(groups(&e, &x), captures, "groups", "the second time");
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "P05",
        level: "exploration",
        rule: "matching: a match that is not empty or has groups; invalid, wrapping: every case",
        assumptions: &[
            "The reference prefers the leftmost match, then earlier alternatives, then greedy or lazy repetition as written, on characters; repeated parts match no empty text in the generated patterns.",
            "Strings that are not text match nothing.",
        ],
        campaigns: vec![
            Campaign::new("matching", 60_000, 3_000_000, matching),
            Campaign::new("invalid", 20_000, 1_000_000, invalid),
            Campaign::new("wrapping", 40_000, 2_000_000, wrapping),
        ],
    }
}
