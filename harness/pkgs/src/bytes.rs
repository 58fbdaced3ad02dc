//! P03: strings as arrays of bytes.

use crate::texts::{index, range};
use crate::s;
use pbt::{ensure_eq, Campaign, CaseResult, Gen, Property};
use pen_ffi::{Boolean, ByteString, Number};

extern "C" {
    fn _pen_core_byte_length(x: ByteString) -> Number;
    fn _pen_core_byte_slice(x: ByteString, start: Number, end: Number) -> ByteString;
    fn _pen_core_string_starts_with(x: ByteString, y: ByteString) -> Boolean;
    fn _pen_core_view_starts_with(x: ByteString, start: Number, end: Number, y: ByteString) -> Boolean;
    fn _pen_core_view_to_string(x: ByteString, start: Number, end: Number) -> ByteString;
    fn _pen_prelude_equal_strings(x: ByteString, y: ByteString) -> Boolean;
}

pub fn bytes(g: &mut Gen) -> Vec<u8> {
    match g.weighted(&[3, 3, 1, 1]) {
        0 => g.bytes(12),
        1 => g.vec(12, |g| *g.pick(b"ab\0\xff")),
        2 => (0..g.len(8)).flat_map(|_| g.pick(&["é", "😄", "a", "\u{800}"]).bytes().collect::<Vec<_>>()).collect(),
        _ => {
            let n = g.usize(300);
            (0..n).map(|i| i as u8).collect()
        }
    }
}

/// A string that is equal to, a part of, or close to another one.
fn related(g: &mut Gen, x: &[u8]) -> Vec<u8> {
    let mut y = x.to_vec();
    match g.weighted(&[3, 2, 2, 1, 1]) {
        0 => y.truncate(g.usize(x.len() + 1)),
        1 if !x.is_empty() => {
            let i = g.usize(x.len());
            y[i] ^= 1 << g.below(8);
        }
        2 => (),
        3 => y.push(g.below(256) as u8),
        _ => y = bytes(g),
    }
    y
}

fn slices(g: &mut Gen) -> CaseResult {
    let x = bytes(g);
    let (i, j) = (index(g, x.len()), index(g, x.len()));
    g.describe(|| format!("{x:?} from {i:?} to {j:?}"));
    let r = range(x.len(), i, j);
    if !r.is_empty() && r.len() < x.len() {
        g.nontrivial(&(&x, i.to_bits(), j.to_bits()));
    }
    ensure_eq!(f64::from(unsafe { _pen_core_byte_length(s(&x)) }), x.len() as f64, "length", "{x:?}");
    let got = unsafe { _pen_core_byte_slice(s(&x), i.into(), j.into()) };
    ensure_eq!(got.as_slice(), &x[r], "slice", "bytes {i:?} to {j:?} of {x:?}");
    Ok(())
}

fn comparisons(g: &mut Gen) -> CaseResult {
    let x = bytes(g);
    let y = related(g, &x);
    g.describe(|| format!("{x:?} and {y:?}"));
    if x != y && !y.is_empty() {
        g.nontrivial(&(&x, &y));
    }
    for (x, y) in [(&x, &y), (&y, &x)] {
        ensure_eq!(bool::from(unsafe { _pen_core_string_starts_with(s(x), s(y)) }), x.starts_with(y), "prefix", "{y:?} of {x:?}");
        ensure_eq!(bool::from(unsafe { _pen_prelude_equal_strings(s(x), s(y)) }), x == y, "equality", "{x:?} and {y:?}");
    }
    let shared = s(&x);
    ensure_eq!(bool::from(unsafe { _pen_prelude_equal_strings(shared.clone(), shared) }), true, "equality", "{x:?} and itself");
    Ok(())
}

fn views(g: &mut Gen) -> CaseResult {
    let x = bytes(g);
    // A view starts at one at least and ends at the length at most; an empty view may start behind its end.
    let i = 1 + g.usize(x.len() + 1);
    let j = i - 1 + g.usize(x.len() + 2 - i);
    let inner = &x[i - 1..j];
    let part = related(g, inner);
    let outer = related(g, &x[i - 1..]);
    g.describe(|| format!("{x:?} from {i} to {j}, {part:?}, {outer:?}"));
    if !inner.is_empty() && inner.len() < x.len() {
        g.nontrivial(&(&x, i, j, &part));
    }
    let (a, b) = ((i as f64).into(), (j as f64).into());
    let (a, b): (Number, Number) = (a, b);
    ensure_eq!(unsafe { _pen_core_view_to_string(s(&x), a, b) }.as_slice(), inner, "view", "bytes {i} to {j} of {x:?}");
    for p in [&part, &outer] {
        ensure_eq!(
            bool::from(unsafe { _pen_core_view_starts_with(s(&x), a, b, s(p)) }),
            inner.starts_with(p),
            "prefix of a view",
            "{p:?} of bytes {i} to {j} of {x:?}"
        );
    }
    Ok(())
}

/// Bounds that no view should have: whatever they give, they must not crash or show other bytes.
fn bounds(g: &mut Gen) -> CaseResult {
    let x = bytes(g);
    let (i, j) = (index(g, x.len()), index(g, x.len()));
    g.describe(|| format!("{x:?} from {i:?} to {j:?}"));
    if !(i >= 1.0 && j <= x.len() as f64 && i <= j + 1.0) {
        g.nontrivial(&(&x, i.to_bits(), j.to_bits()));
    }
    let r = &x[range(x.len(), i, j)];
    let got = unsafe { _pen_core_view_to_string(s(&x), i.into(), j.into()) };
    ensure_eq!(got.as_slice(), r, "view", "bytes {i:?} to {j:?} of {x:?}");
    let p = related(g, r);
    ensure_eq!(
        bool::from(unsafe { _pen_core_view_starts_with(s(&x), i.into(), j.into(), s(&p)) }),
        r.starts_with(&p),
        "prefix of a view",
        "{p:?} of bytes {i:?} to {j:?} of {x:?}"
    );
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "P03",
        level: "exploration",
        rule: "slices, views: a proper part that is not empty; comparisons: different strings; bounds: indexes outside of the string",
        assumptions: &["Indexes count from one, include both ends and are truncated and clamped; an end that is not a number is no bound."],
        campaigns: vec![
            Campaign::new("slices", 500_000, 20_000_000, slices),
            Campaign::new("comparisons", 500_000, 20_000_000, comparisons),
            Campaign::new("views", 500_000, 20_000_000, views),
            Campaign::new("bounds", 300_000, 10_000_000, bounds),
        ],
    }
}
