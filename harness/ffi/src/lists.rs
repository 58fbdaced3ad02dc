//! F07: lists built by native code and traversed as streams.

use crate::heap::track;
use crate::host::{FIRSTS, NODES, SUSPENSIONS};
use crate::tasks::{yield_now, Wake};
use crate::token::{self, Token};
use crate::{begin, finished, sound};
use futures::task::noop_waker;
use futures::{pin_mut, Stream};
use pbt::{ensure, ensure_eq, fail, Campaign, CaseResult, Gen, Property};
use pen_ffi::future::stream::from_list;
use pen_ffi::future::to_closure;
use pen_ffi::{Any, Arc, ByteString, List, Number};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::task::{Context, Poll};

#[pen_ffi::any(crate = "pen_ffi")]
#[derive(Clone)]
struct Element(Arc<(Token, u64)>);

#[derive(Clone, Debug)]
enum Part {
    /// Elements put in front of the rest one by one.
    Prepend(Vec<u64>),
    /// A lazily computed rest, with a number of suspensions.
    Lazy(u32),
}

static LAZY: AtomicU64 = AtomicU64::new(0);

fn element(x: u64) -> Any {
    match x % 3 {
        0 => Number::new(x as f64).into(),
        1 => ByteString::from(x.to_string()).into(),
        _ => Element(Arc::new((Token::new(), x))).into(),
    }
}

fn back(any: Any) -> Result<u64, String> {
    if any.is_number() {
        Ok(f64::from(Number::try_from(any).map_err(|()| "number")?) as u64)
    } else if any.is_string() {
        let s = ByteString::try_from(any).map_err(|()| "string")?;
        std::str::from_utf8(s.as_slice()).unwrap().parse().map_err(|_| "string".into())
    } else {
        Ok(Element::try_from(any).map_err(|()| "element")?.0 .1)
    }
}

/// Builds a list from the last part to the first one. `base` is a list that is shared by several.
fn build(parts: &[Part], base: &List) -> List {
    match parts {
        [] => base.clone(),
        [Part::Prepend(xs), rest @ ..] => xs.iter().rev().fold(build(rest, base), |list, x| list.prepend(element(*x))),
        [Part::Lazy(n), rest @ ..] => {
            let (n, rest, base) = (*n, rest.to_vec(), base.clone());
            List::lazy(to_closure(async move {
                LAZY.fetch_add(1, SeqCst);
                for _ in 0..n {
                    yield_now(Wake::Now).await;
                }
                build(&rest, &base)
            }))
        }
    }
}

/// Reads up to `count` elements and counts the polls that gave none.
fn take(list: List, count: usize, check: &mut dyn FnMut(usize) -> CaseResult) -> Result<(Vec<u64>, bool), pbt::Failure> {
    let stream = from_list(list);
    pin_mut!(stream);
    let waker = noop_waker();
    let mut context = Context::from_waker(&waker);
    let mut xs = vec![];
    let mut polls = 0;
    while xs.len() < count {
        match stream.as_mut().poll_next(&mut context) {
            Poll::Ready(Some(x)) => {
                xs.push(back(x).map_err(|e| pbt::Failure::new("element type", format!("an element is not a {e}")))?);
                check(xs.len())?;
            }
            Poll::Ready(None) => return Ok((xs, true)),
            Poll::Pending => {
                polls += 1;
                if polls > 10_000 {
                    fail!("no end", "a stream does not go on")
                }
            }
        }
    }
    Ok((xs, false))
}

fn streams(g: &mut Gen) -> CaseResult {
    begin();
    NODES.store(0, SeqCst);
    FIRSTS.store(0, SeqCst);
    LAZY.store(0, SeqCst);
    SUSPENSIONS.store(g.below(16) as usize, SeqCst);
    let base: Vec<u64> = (0..g.len(12)).map(|_| g.below(1 << 30)).collect();
    let parts: Vec<Part> = (0..g.usize(5))
        .map(|_| {
            if g.bool() {
                Part::Prepend((0..g.len(6)).map(|_| g.below(1 << 30)).collect())
            } else {
                Part::Lazy(g.below(3) as u32)
            }
        })
        .collect();
    let mut expected: Vec<u64> = parts.iter().flat_map(|p| if let Part::Prepend(xs) = p { xs.clone() } else { vec![] }).collect();
    expected.extend(&base);
    g.describe(|| format!("{parts:?} {base:?}"));
    let list = track(|| build(&parts, &List::from(base.iter().map(|x| element(*x)).collect::<Vec<_>>())));
    ensure_eq!(NODES.load(SeqCst) + FIRSTS.load(SeqCst), 0, "laziness", "traversal before the stream is polled");
    ensure_eq!(LAZY.load(SeqCst), 0, "laziness", "lazy rests computed while building");
    let lazies = parts.iter().filter(|p| matches!(p, Part::Lazy(_))).count();
    // Native closures of lazy lists run once, so a list that holds any is traversed once.
    let rounds = if lazies == 0 { 1 + g.usize(2) } else { 1 };
    for round in 0..rounds {
        let count = if g.chance(1, 3) { g.usize(expected.len() + 1) } else { usize::MAX };
        NODES.store(0, SeqCst);
        FIRSTS.store(0, SeqCst);
        let handle = track(|| list.clone());
        let mut check = |n: usize| -> CaseResult {
            ensure_eq!(FIRSTS.load(SeqCst), n, "laziness", "elements computed when {n} have been taken");
            ensure!(NODES.load(SeqCst) <= n, "laziness", "{} nodes looked at when {n} elements have been taken", NODES.load(SeqCst));
            Ok(())
        };
        let (xs, ended) = track(|| take(handle, count, &mut check))?;
        let n = count.min(expected.len());
        ensure_eq!(xs, expected[..n], "elements", "the elements of a list");
        ensure_eq!(ended, count > expected.len(), "end", "the end of a list");
        g.label_if(n < expected.len(), "stopped early");
        sound()?;
        let _ = round;
    }
    let before = token::outstanding().unwrap();
    ensure!(before <= expected.len(), "payload count", "more payloads than elements");
    track(|| drop(list));
    if expected.len() > 2 {
        g.nontrivial(&(format!("{parts:?}"), base.clone()));
    }
    g.label_if(lazies > 0, "lazy");
    // A lazy rest that was never reached is released all the same.
    finished()
}

fn natives(g: &mut Gen) -> CaseResult {
    begin();
    SUSPENSIONS.store(g.below(16) as usize, SeqCst);
    let n = if g.chance(1, 20) { g.usize(500) } else { g.usize(20) };
    let xs: Vec<u64> = (0..n).map(|_| g.below(1 << 50)).collect();
    g.nontrivial(&xs);
    let list = track(|| match xs.len() % 3 {
        0 => List::from(xs.iter().map(|x| Number::new(*x as f64)).collect::<Vec<_>>()),
        1 => List::from(xs.iter().map(|x| ByteString::from(x.to_string())).collect::<std::collections::VecDeque<_>>()),
        _ => List::from(xs.iter().map(|x| Element(Arc::new((Token::new(), *x)))).collect::<Vec<_>>()),
    });
    let back = |any: Any| -> Option<u64> {
        match xs.len() % 3 {
            0 => Number::try_from(any).ok().map(|x| f64::from(x) as u64),
            1 => ByteString::try_from(any).ok().and_then(|x| std::str::from_utf8(x.as_slice()).ok()?.parse().ok()),
            _ => Element::try_from(any).ok().map(|x| x.0 .1),
        }
    };
    let result = track(|| {
        use futures::StreamExt;
        crate::tasks::complete(from_list(list.clone()).map(back).collect::<Vec<_>>())
    });
    ensure_eq!(result, xs.iter().map(|x| Some(*x)).collect::<Vec<_>>(), "elements", "the elements of a list made from a sequence");
    let whole: Any = track(|| list.into());
    ensure!(whole.is_list(), "kind", "a list is not a list");
    track(|| drop((whole, List::default())));
    track(|| drop(result));
    finished()
}

pub fn property() -> Property {
    Property {
        id: "F07",
        level: "exploration",
        rule: "a case is non-trivial if the list has more than two elements",
        assumptions: &["The functions that compiled programs provide (construction and traversal of lists) are played by the harness."],
        campaigns: vec![Campaign::new("streams", 800_000, 20_000_000, streams), Campaign::new("sequences", 200_000, 3_000_000, natives)],
    }
}
