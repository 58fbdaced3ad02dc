//! P02: texts as sequences of characters.

use crate::{s, strings};
use pbt::{ensure, ensure_eq, Campaign, CaseResult, Gen, Property};
use pen_ffi::{Any, Boolean, ByteString, List, Number};
use std::str::from_utf8;

extern "C" {
    fn _pen_core_utf8_characters(x: ByteString) -> List;
    fn _pen_core_utf8_contains(x: ByteString, y: ByteString) -> Boolean;
    fn _pen_core_utf8_find(x: ByteString, y: ByteString) -> Number;
    fn _pen_core_utf8_starts_with(x: ByteString, y: ByteString) -> Boolean;
    fn _pen_core_utf8_ends_with(x: ByteString, y: ByteString) -> Boolean;
    fn _pen_core_utf8_length(x: ByteString) -> Number;
    fn _pen_core_utf8_slice(x: ByteString, start: Number, end: Number) -> ByteString;
    fn _pen_core_utf8_split(x: ByteString, y: ByteString) -> List;
    fn _pen_core_utf8_replace(x: ByteString, y: ByteString, z: ByteString) -> ByteString;
    fn _pen_core_utf8_to_lowercase(x: ByteString) -> ByteString;
    fn _pen_core_utf8_to_uppercase(x: ByteString) -> ByteString;
    fn _pen_core_utf8_trim(x: ByteString) -> ByteString;
    fn _pen_core_utf8_trim_start(x: ByteString) -> ByteString;
    fn _pen_core_utf8_trim_end(x: ByteString) -> ByteString;
    fn _pen_core_utf8_trim_start_matches(x: ByteString, y: ByteString) -> ByteString;
    fn _pen_core_utf8_trim_end_matches(x: ByteString, y: ByteString) -> ByteString;
    fn _pen_core_character_from_code_point(x: Number) -> ByteString;
    fn _pen_core_character_to_code_point(x: ByteString) -> Number;
    fn _pen_core_string_builder_create() -> pen_ffi::Arc<Any>;
    fn _pen_core_string_builder_append(x: pen_ffi::Arc<Any>, y: ByteString) -> pen_ffi::Arc<Any>;
    fn _pen_core_string_builder_build(x: pen_ffi::Arc<Any>, y: ByteString) -> ByteString;
}

fn character(g: &mut Gen) -> char {
    loop {
        let c = match g.weighted(&[8, 2, 2, 1, 1, 1, 1]) {
            0 => Some(*g.pick(&['a', 'b', 'c', 'é', '😄'])),
            1 => char::from_u32(g.below(128) as u32),
            2 => Some(*g.pick(&[' ', '\t', '\n', '\r', '\u{a0}', '\u{2003}', '\u{3000}', '\u{85}', '\u{feff}', '\u{200b}'])),
            3 => char::from_u32(0x80 + g.below(0x780) as u32),
            4 => char::from_u32(0x800 + g.below(0xf800) as u32),
            5 => char::from_u32(0x10000 + g.below(0x100000) as u32),
            _ => Some(*g.pick(&['ß', 'İ', 'ŉ', 'Σ', 'ς', 'ﬁ', 'ǅ', 'Ω', '\u{301}', 'Ａ', 'ᾳ', '🗿'])),
        };
        if let Some(c) = c {
            return c;
        }
    }
}

fn text(g: &mut Gen, max: usize) -> Vec<char> {
    g.vec(max, character)
}

fn string(x: &[char]) -> String {
    x.iter().collect()
}

/// A pattern that is likely to occur in a text.
fn pattern(g: &mut Gen, x: &[char]) -> Vec<char> {
    match g.weighted(&[4, 2, 1]) {
        0 if !x.is_empty() => {
            let i = g.usize(x.len());
            let n = 1 + g.usize(3);
            x[i..(i + n).min(x.len())].to_vec()
        }
        2 => vec![],
        _ => text(g, 3),
    }
}

/// Where a pattern that is not empty first occurs at or after an index.
fn find(x: &[char], p: &[char], from: usize) -> Option<usize> {
    (from..=x.len().saturating_sub(p.len())).find(|i| x[*i..].starts_with(p))
}

fn b(x: Boolean) -> bool {
    x.into()
}

fn n(x: Number) -> f64 {
    x.into()
}

fn t(x: ByteString) -> Result<String, pbt::Failure> {
    match from_utf8(x.as_slice()) {
        Ok(x) => Ok(x.into()),
        Err(_) => Err(pbt::Failure::new("split character", format!("{:?} is not text", x.as_slice()))),
    }
}

/// An index as users can give it.
pub fn index(g: &mut Gen, length: usize) -> f64 {
    match g.weighted(&[8, 2, 1, 1]) {
        0 => g.range(0, length as i64 + 2) as f64,
        1 => g.range(-2, length as i64 * 4 + 8) as f64 / 4.0,
        2 => *g.pick(&[
            f64::INFINITY, f64::NEG_INFINITY, f64::NAN, -0.0, -1.0, 1e300, -1e300, 4294967296.0, 4294967297.0,
            18446744073709551616.0, 9223372036854775808.0, 5e-324, f64::MAX, 9007199254740993.0,
        ]),
        _ => f64::from_bits(g.u64()),
    }
}

/// The range of elements from one-based, inclusive indexes that are truncated and clamped.
pub fn range(length: usize, start: f64, end: f64) -> std::ops::Range<usize> {
    let end = if end.is_nan() { f64::INFINITY } else { end.trunc() };
    let start = if start.is_nan() { 1.0 } else { start.trunc().max(1.0) };
    let end = end.min(length as f64);
    if start > end { 0..0 } else { start as usize - 1..end as usize }
}

fn slices(g: &mut Gen) -> CaseResult {
    let x = text(g, 30);
    let (i, j) = (index(g, x.len()), index(g, x.len()));
    g.describe(|| format!("{:?} from {i:?} to {j:?}", string(&x)));
    let r = range(x.len(), i, j);
    if !r.is_empty() && r.len() < x.len() {
        g.nontrivial(&(&x, i.to_bits(), j.to_bits()));
    }
    let got = t(unsafe { _pen_core_utf8_slice(s(string(&x).as_bytes()), i.into(), j.into()) })?;
    ensure_eq!(got, string(&x[r]), "slice", "characters {i:?} to {j:?} of {:?}", string(&x));
    ensure_eq!(n(unsafe { _pen_core_utf8_length(s(string(&x).as_bytes())) }), x.len() as f64, "length", "{:?}", string(&x));
    let characters = strings(unsafe { _pen_core_utf8_characters(s(string(&x).as_bytes())) });
    ensure_eq!(characters, x.iter().map(|c| c.to_string().into_bytes()).collect::<Vec<_>>(), "characters", "{:?}", string(&x));
    Ok(())
}

fn searches(g: &mut Gen) -> CaseResult {
    let x = text(g, 20);
    let p = pattern(g, &x);
    let q = text(g, 3);
    let (xs, ps, qs) = (string(&x), string(&p), string(&q));
    g.describe(|| format!("{ps:?} in {xs:?}, for {qs:?}"));
    let (xb, pb, qb) = (|| s(xs.as_bytes()), || s(ps.as_bytes()), || s(qs.as_bytes()));
    let place = find(&x, &p, 0);
    if place.is_some() && !p.is_empty() {
        g.nontrivial(&(&x, &p));
    }
    ensure_eq!(b(unsafe { _pen_core_utf8_contains(xb(), pb()) }), place.is_some(), "containment", "{ps:?} in {xs:?}");
    ensure_eq!(
        n(unsafe { _pen_core_utf8_find(xb(), pb()) }),
        place.map(|i| i as f64 + 1.0).unwrap_or(-1.0),
        "place",
        "of {ps:?} in {xs:?}"
    );
    ensure_eq!(b(unsafe { _pen_core_utf8_starts_with(xb(), pb()) }), x.starts_with(&p), "prefix", "{ps:?} of {xs:?}");
    ensure_eq!(b(unsafe { _pen_core_utf8_ends_with(xb(), pb()) }), x.ends_with(&p), "suffix", "{ps:?} of {xs:?}");

    let parts = strings(unsafe { _pen_core_utf8_split(xb(), pb()) })
        .into_iter()
        .map(|x| t(s(&x)))
        .collect::<Result<Vec<_>, _>>()?;
    ensure_eq!(parts.join(&ps), xs, "split", "the parts {parts:?} of {xs:?} at {ps:?}");
    let replaced = t(unsafe { _pen_core_utf8_replace(xb(), pb(), qb()) })?;
    if p.is_empty() {
        g.label("empty pattern");
    } else {
        let mut expected = vec![];
        let mut i = 0;
        while let Some(j) = find(&x, &p, i) {
            expected.push(string(&x[i..j]));
            i = j + p.len();
        }
        expected.push(string(&x[i..]));
        ensure_eq!(parts, expected, "split", "{xs:?} at {ps:?}");
        ensure_eq!(replaced, expected.join(&qs), "replacement", "of {ps:?} in {xs:?} by {qs:?}");
    }

    let (mut i, mut j) = (0, x.len());
    while !p.is_empty() && x[i..].starts_with(&p) {
        i += p.len();
    }
    while !p.is_empty() && x[..j].ends_with(&p) {
        j -= p.len();
    }
    g.label_if(i > 0 || j < x.len(), "trimmed pattern");
    ensure_eq!(t(unsafe { _pen_core_utf8_trim_start_matches(xb(), pb()) })?, string(&x[i..]), "trimmed pattern", "{ps:?} before {xs:?}");
    ensure_eq!(t(unsafe { _pen_core_utf8_trim_end_matches(xb(), pb()) })?, string(&x[..j]), "trimmed pattern", "{ps:?} after {xs:?}");
    Ok(())
}

fn space(c: char) -> bool {
    matches!(c as u32, 9..=13 | 32 | 0x85 | 0xa0 | 0x1680 | 0x2000..=0x200a | 0x2028 | 0x2029 | 0x202f | 0x205f | 0x3000)
}

fn conversions(g: &mut Gen) -> CaseResult {
    let x = text(g, 20);
    let xs = string(&x);
    let xb = || s(xs.as_bytes());
    let c = match g.weighted(&[4, 2, 1]) {
        0 => character(g) as u32 as f64,
        1 => *g.pick(&[0.0, 0xd7ffu32 as f64, 0xd800u32 as f64, 0xdfffu32 as f64, 0xe000u32 as f64, 0x10ffffu32 as f64, 0x110000u32 as f64, 97.5, 4294967296.0 + 97.0, f64::INFINITY, 1e300]),
        _ => g.below(0x120000) as f64,
    };
    g.describe(|| format!("{xs:?}, code point {c:?}"));
    if x.iter().any(|c| space(*c)) || !xs.is_ascii() {
        g.nontrivial(&x);
    }
    let i = x.iter().position(|c| !space(*c)).unwrap_or(x.len());
    let j = x.iter().rposition(|c| !space(*c)).map(|j| j + 1).unwrap_or(i);
    ensure_eq!(t(unsafe { _pen_core_utf8_trim(xb()) })?, string(&x[i..j]), "trimmed text", "{xs:?}");
    ensure_eq!(t(unsafe { _pen_core_utf8_trim_start(xb()) })?, string(&x[i..]), "trimmed text", "{xs:?} at its start");
    ensure_eq!(t(unsafe { _pen_core_utf8_trim_end(xb()) })?, string(&x[..if j == i { 0 } else { j }]), "trimmed text", "{xs:?} at its end");
    ensure_eq!(t(unsafe { _pen_core_utf8_to_lowercase(xb()) })?, xs.to_lowercase(), "lower case", "{xs:?}");
    ensure_eq!(t(unsafe { _pen_core_utf8_to_uppercase(xb()) })?, xs.to_uppercase(), "upper case", "{xs:?}");

    let first = n(unsafe { _pen_core_character_to_code_point(xb()) });
    match x.first() {
        Some(c) => {
            ensure_eq!(first, *c as u32 as f64, "code point", "of {xs:?}");
            let back = t(unsafe { _pen_core_character_from_code_point(first.into()) })?;
            ensure_eq!(back, c.to_string(), "character", "of code point {first}");
        }
        None => ensure!(first.is_nan(), "code point", "the empty text has the code point {first}"),
    }
    // A code point is truncated and names no character outside of Unicode scalar values.
    let expected = if c < 1114112.0 { char::from_u32(c as u32) } else { None };
    let got = t(unsafe { _pen_core_character_from_code_point(c.into()) })?;
    ensure_eq!(got, expected.map(String::from).unwrap_or_default(), "character", "of code point {c:?}");
    Ok(())
}

fn joins(g: &mut Gen) -> CaseResult {
    let parts = g.vec(40, |g| crate::bytes::bytes(g));
    let separator = if g.bool() { vec![] } else { crate::bytes::bytes(g) };
    g.describe(|| format!("{parts:?} with {separator:?}"));
    if parts.len() > 1 {
        g.nontrivial(&(&parts, &separator));
    }
    let mut builder = unsafe { _pen_core_string_builder_create() };
    for part in &parts {
        builder = unsafe { _pen_core_string_builder_append(builder, s(part)) };
    }
    let got = unsafe { _pen_core_string_builder_build(builder, s(&separator)) };
    ensure_eq!(got.as_slice(), parts.join(&separator[..]), "joined text", "{parts:?} with {separator:?}");
    Ok(())
}

/// Strings that are not text: no crash, no character split out of them, and the string itself where one is returned.
fn invalid(g: &mut Gen) -> CaseResult {
    let mut x = string(&text(g, 8)).into_bytes();
    let i = g.usize(x.len() + 1);
    let bad = g.pick(&[&b"\xff"[..], b"\x80", b"\xc3", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xe2\x82", b"\xc0\xaf", b"\xf0\x9f\x98"]).to_vec();
    x.splice(i..i, bad);
    let y = string(&text(g, 2)).into_bytes();
    let (i, j) = (index(g, 10), index(g, 10));
    g.describe(|| format!("{x:?}, {y:?}"));
    if from_utf8(&x).is_ok() {
        g.discard();
        return Ok(());
    }
    g.nontrivial(&x);
    let (xb, yb) = (|| s(&x), || s(&y));
    let mut whole = vec![];
    unsafe {
        ensure!(n(_pen_core_utf8_length(xb())).is_nan(), "invalid text", "{x:?} has a length");
        ensure!(n(_pen_core_character_to_code_point(xb())).is_nan(), "invalid text", "{x:?} has a code point");
        for (p, q) in [(xb(), yb()), (yb(), xb())] {
            let empty = |x: &ByteString| x.as_slice().is_empty();
            let trivial = empty(&p) || empty(&q);
            ensure!(!b(_pen_core_utf8_contains(p.clone(), q.clone())) || trivial, "invalid text", "contains");
            ensure!(n(_pen_core_utf8_find(p.clone(), q.clone())) == -1.0 || trivial, "invalid text", "found");
            ensure!(!b(_pen_core_utf8_starts_with(p.clone(), q.clone())) || trivial, "invalid text", "prefix");
            ensure!(!b(_pen_core_utf8_ends_with(p.clone(), q.clone())) || trivial, "invalid text", "suffix");
        }
        t(_pen_core_utf8_slice(xb(), i.into(), j.into()))?;
        for x in strings(_pen_core_utf8_characters(xb())) {
            t(s(&x))?;
        }
        whole.push(strings(_pen_core_utf8_split(xb(), yb())).concat());
        for z in [
            _pen_core_utf8_replace(xb(), yb(), yb()),
            _pen_core_utf8_to_lowercase(xb()),
            _pen_core_utf8_to_uppercase(xb()),
            _pen_core_utf8_trim(xb()),
            _pen_core_utf8_trim_start(xb()),
            _pen_core_utf8_trim_end(xb()),
            _pen_core_utf8_trim_start_matches(xb(), yb()),
            _pen_core_utf8_trim_end_matches(xb(), yb()),
        ] {
            whole.push(z.as_slice().to_vec());
        }
        // A valid text with an invalid pattern.
        for z in [
            _pen_core_utf8_replace(yb(), xb(), yb()),
            _pen_core_utf8_replace(yb(), yb(), xb()),
            _pen_core_utf8_trim_start_matches(yb(), xb()),
            _pen_core_utf8_trim_end_matches(yb(), xb()),
        ] {
            ensure_eq!(z.as_slice(), y, "invalid pattern", "{x:?} for {y:?}");
        }
        ensure_eq!(strings(_pen_core_utf8_split(yb(), xb())), vec![y.clone()], "invalid pattern", "{x:?} for {y:?}");
    }
    for z in whole {
        ensure_eq!(z, x, "invalid text", "changed");
    }
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "P02",
        level: "exploration",
        rule: "slices: a proper part that is not empty; searches: a pattern that is not empty and occurs; conversions: a text with spaces or characters beyond ASCII; joins: more than one part; invalid: a string that is not text",
        assumptions: &[
            "Indexes count from one, include both ends and are truncated and clamped; an end that is not a number is no bound.",
            "Strings that are not text have no characters: searches fail and conversions return them unchanged.",
            "An empty pattern is found before everything and splits so that joining gives the text back; what its replacement gives is not claimed, nor are negative code points.",
            "Case conversion is compared with the standard library of Rust.",
            "A builder is appended to by its sole owner, as the package does.",
        ],
        campaigns: vec![
            Campaign::new("slices", 500_000, 20_000_000, slices),
            Campaign::new("searches", 500_000, 20_000_000, searches),
            Campaign::new("conversions", 500_000, 20_000_000, conversions),
            Campaign::new("joins", 200_000, 10_000_000, joins),
            Campaign::new("invalid", 300_000, 10_000_000, invalid),
        ],
    }
}
