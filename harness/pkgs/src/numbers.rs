//! P01: numbers, their texts and their arithmetic.

use crate::s;
use pbt::{ensure, ensure_eq, Campaign, CaseResult, Gen, Property};
use pen_ffi::{Any, Boolean, ByteString, Number};
use std::cmp::Ordering;

extern "C" {
    fn _pen_core_absolute(x: Number) -> Number;
    fn _pen_core_ceil(x: Number) -> Number;
    fn _pen_core_convert_number_to_string(x: Number) -> ByteString;
    fn _pen_core_epsilon() -> Number;
    fn _pen_core_exponential(x: Number) -> Number;
    fn _pen_core_floor(x: Number) -> Number;
    fn _pen_core_fraction(x: Number) -> Number;
    fn _pen_core_infinity() -> Number;
    fn _pen_core_is_nan(x: Number) -> Boolean;
    fn _pen_core_nan() -> Number;
    fn _pen_core_parse_number(x: ByteString) -> Any;
    fn _pen_core_power(x: Number, y: Number) -> Number;
    fn _pen_core_remainder(x: Number, y: Number) -> Number;
    fn _pen_core_round(x: Number) -> Number;
    fn _pen_core_square_root(x: Number) -> Number;
    fn _pen_core_truncate(x: Number) -> Number;
    fn _pen_json_decode_number(x: ByteString) -> Number;
    fn _pen_json_encode_number(x: Number) -> ByteString;
    fn _pen_prelude_debug_number(x: Number) -> ByteString;
}

macro_rules! call {
    ($f:ident $(, $x:expr)*) => { f64::from(unsafe { $f($(Number::from($x)),*) }) };
}

pub fn number(g: &mut Gen) -> f64 {
    match g.weighted(&[3, 2, 2, 2, 2, 1, 1]) {
        0 => g.range(-20, 20) as f64,
        1 => f64::from_bits(g.u64()),
        2 => g.range(-100, 100) as f64 / *g.pick(&[2.0, 4.0, 3.0, 10.0, 7.0]),
        3 => {
            let x: f64 = format!("{}e{}", 1 + g.below(99), g.range(-330, 310)).parse().unwrap();
            if g.bool() { -x } else { x }
        }
        4 => {
            // Around powers of two, where the spacing of numbers changes.
            let x = 2f64.powi(g.range(-1074, 1023) as i32);
            let x = f64::from_bits((x.to_bits() as i64 + g.range(-2, 2)).max(0) as u64);
            if g.bool() { -x } else { x }
        }
        5 => *g.pick(&[
            0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324,
            f64::EPSILON, 0.1, 0.5, -0.5, 1.5, 2.5, 0.49999999999999994, 4503599627370495.5, 9007199254740992.0,
        ]),
        _ => {
            let x = g.range(-(1 << 53), 1 << 53) as f64;
            if g.bool() { x / 2.0 } else { x }
        }
    }
}

fn same(x: f64, y: f64) -> bool {
    x.to_bits() == y.to_bits() || x.is_nan() && y.is_nan()
}

fn text(x: ByteString) -> String {
    String::from_utf8(x.as_slice().to_vec()).expect("text of a number")
}

fn parse(x: &[u8]) -> Result<f64, String> {
    let x = unsafe { _pen_core_parse_number(s(x)) };
    if x.is_error() {
        let e = pen_ffi::Error::try_from(x).unwrap();
        let source = crate::host::source(&e);
        Err(text(ByteString::try_from(source).expect("the source of an error is a text")))
    } else {
        Ok(f64::from(Number::try_from(x).expect("a number")))
    }
}

fn formatting(g: &mut Gen) -> CaseResult {
    let x = number(g);
    g.describe(|| format!("{x:e} ({:#x})", x.to_bits()));
    if x.is_finite() && x.fract() != 0.0 {
        g.nontrivial(&x.to_bits());
    }
    let t = text(unsafe { _pen_core_convert_number_to_string(x.into()) });
    match parse(t.as_bytes()) {
        Ok(y) => ensure!(same(x, y), "text of a number", "{x:e} is written {t:?}, which reads {y:e}"),
        Err(e) => pbt::fail!("text of a number", "{x:e} is written {t:?}, which is no number: {e}"),
    }
    if x.is_finite() {
        let u = t.strip_prefix('-').unwrap_or(&t);
        let (i, f) = u.split_once('.').unwrap_or((u, "0"));
        let digits = |s: &str| !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit());
        ensure!(
            digits(i) && digits(f) && (i == "0" || !i.starts_with('0')),
            "form of a number",
            "{x:e} is written {t:?}, which is no plain decimal number"
        );
        ensure_eq!(t.starts_with('-'), x.is_sign_negative(), "sign of a number", "{t:?}");
    }
    for (name, u) in [
        ("JSON", text(unsafe { _pen_json_encode_number(x.into()) })),
        ("debug", text(unsafe { _pen_prelude_debug_number(x.into()) })),
    ] {
        ensure!(
            u.parse::<f64>().is_ok_and(|y| same(x, y)),
            "text of a number",
            "{x:e} is written {u:?} as {name} text"
        );
        ensure_eq!(u, t, "text of a number", "{name} text");
    }
    let y = f64::from(unsafe { _pen_json_decode_number(s(t.as_bytes())) });
    ensure!(same(x, y), "JSON number", "{x:e} is written {t:?}, which JSON reads {y:e}");
    Ok(())
}

/// A natural number of any size, least digit first.
#[derive(Clone)]
struct Big(Vec<u32>);

impl Big {
    fn new(x: u64) -> Self {
        Self(vec![x as u32, (x >> 32) as u32])
    }
    fn mul_add(&mut self, x: u32, mut carry: u64) {
        for d in &mut self.0 {
            let y = *d as u64 * x as u64 + carry;
            *d = y as u32;
            carry = y >> 32;
        }
        self.0.push(carry as u32);
    }
    fn power(mut self, base: u32, n: u32) -> Self {
        for _ in 0..n {
            self.mul_add(base, 0);
            while self.0.last() == Some(&0) {
                self.0.pop();
            }
        }
        self
    }
    fn shift(mut self, n: u32) -> Self {
        self = self.power(2, n % 32);
        let mut v = vec![0; (n / 32) as usize];
        v.extend(self.0);
        Self(v)
    }
    fn times(&self, other: &Self) -> Self {
        let mut r = vec![0u32; self.0.len() + other.0.len() + 1];
        for (i, x) in self.0.iter().enumerate() {
            let mut carry = 0;
            for (j, y) in other.0.iter().chain([&0]).enumerate() {
                let z = *x as u64 * *y as u64 + r[i + j] as u64 + carry;
                r[i + j] = z as u32;
                carry = z >> 32;
            }
        }
        Self(r)
    }
    fn compare(&self, other: &Self) -> Ordering {
        let n = self.0.len().max(other.0.len());
        for i in (0..n).rev() {
            let order = self.0.get(i).unwrap_or(&0).cmp(other.0.get(i).unwrap_or(&0));
            if order.is_ne() {
                return order;
            }
        }
        Ordering::Equal
    }
}

/// The integer and the power of two of a finite number.
fn parts(x: f64) -> (u64, i32) {
    let bits = x.abs().to_bits();
    let (e, m) = ((bits >> 52) as i32, bits & ((1 << 52) - 1));
    if e == 0 { (m, -1074) } else { (m | 1 << 52, e - 1075) }
}

/// The numbers halfway to the neighbours of x as integers and a power of two, the lower and the upper one.
fn halves(x: f64) -> ((u64, i32), (u64, i32)) {
    let (m, e) = parts(x);
    let lower = if m == 1 << 52 && e > -1074 { (4 * m - 1, e - 2) } else { ((2 * m).saturating_sub(1), e - 1) };
    (lower, (2 * m + 1, e - 1))
}

/// Compares d * 10^e and m * 2^f.
fn compare(d: &Big, e: i32, (m, f): (u64, i32)) -> Ordering {
    let (mut l, mut r) = (d.clone(), Big::new(m));
    if e >= 0 { l = l.power(10, e as u32) } else { r = r.power(10, -e as u32) }
    if f >= 0 { r = r.shift(f as u32) } else { l = l.shift(-f as u32) }
    l.compare(&r)
}

/// A text of the decimal notation: sign, digits, optional fraction, optional exponent.
fn decimal(g: &mut Gen) -> String {
    let mut t = String::from(*g.pick(&["", "-", "+"]));
    let near = g.chance(1, 4);
    if near {
        // The middle between two numbers, or next to it.
        let x = f64::from_bits((g.range(700, 1400) as u64) << 52 | g.u64() >> 12);
        let (m, e) = halves(x).1;
        // Written out: m * 2^e = m * 5^-e / 10^-e.
        let (mut big, scale) = if e < 0 { (Big::new(m).power(5, -e as u32), -e) } else { (Big::new(m).shift(e as u32), 0) };
        let mut digits = vec![];
        while big.0.iter().any(|d| *d > 0) {
            let mut rest = 0u64;
            for d in big.0.iter_mut().rev() {
                let y = rest << 32 | *d as u64;
                *d = (y / 10) as u32;
                rest = y % 10;
            }
            digits.push(b'0' + rest as u8);
        }
        digits.reverse();
        let digits = String::from_utf8(digits).unwrap();
        t += &digits;
        match g.below(4) {
            0 => (),
            1 => t += ".0000",
            2 => t += ".00001",
            _ => {
                t.pop();
                t.push('1');
            }
        }
        if scale > 0 {
            t += &format!("e-{scale}");
        }
        return t;
    }
    let digits = |g: &mut Gen, t: &mut String, least: u64| {
        let n = least + g.len(25) as u64;
        for _ in 0..n {
            t.push(char::from(b'0' + g.below(10) as u8));
        }
    };
    match g.weighted(&[5, 3, 1, 1]) {
        0 => digits(g, &mut t, 1),
        1 => {
            digits(g, &mut t, 1);
            t.push('.');
            digits(g, &mut t, 1);
        }
        2 => {
            digits(g, &mut t, 1);
            t.push('.');
        }
        _ => {
            t.push('.');
            digits(g, &mut t, 1);
        }
    }
    if g.chance(1, 3) {
        t.push(*g.pick(&['e', 'E']));
        t += *g.pick(&["", "-", "+"]);
        let most = if g.bool() { 400 } else { 30 };
        t += &g.below(most).to_string();
    }
    t
}

/// Whether a text is a number, and its sign, digits and exponent if it is a finite one.
enum Kind {
    None,
    Special,
    Finite(bool, Vec<u8>, i64),
}

fn kind(t: &[u8]) -> Kind {
    let (negative, mut rest) = match t {
        [b'-', r @ ..] => (true, r),
        [b'+', r @ ..] => (false, r),
        r => (false, r),
    };
    if ["inf", "infinity", "nan"].iter().any(|w| rest.eq_ignore_ascii_case(w.as_bytes())) {
        return Kind::Special;
    }
    let mut digits = vec![];
    let mut e = 0i64;
    let take = |rest: &mut &[u8], out: &mut Vec<u8>| {
        let mut n = 0;
        while let [d @ b'0'..=b'9', r @ ..] = *rest {
            out.push(*d);
            *rest = r;
            n += 1;
        }
        n
    };
    let mut n = take(&mut rest, &mut digits);
    if let [b'.', r @ ..] = rest {
        rest = r;
        let f = take(&mut rest, &mut digits);
        e -= f;
        n += f;
    }
    if n == 0 {
        return Kind::None;
    }
    if let [b'e' | b'E', r @ ..] = rest {
        rest = r;
        let sign = match rest {
            [b'-', r @ ..] => {
                rest = r;
                -1
            }
            [b'+', r @ ..] => {
                rest = r;
                1
            }
            _ => 1,
        };
        let mut x = vec![];
        if take(&mut rest, &mut x) == 0 {
            return Kind::None;
        }
        e += sign * x.iter().fold(0i64, |y, d| (y * 10 + (d - b'0') as i64).min(1 << 40));
    }
    if rest.is_empty() { Kind::Finite(negative, digits, e) } else { Kind::None }
}

fn parsing(g: &mut Gen) -> CaseResult {
    let mut t = match g.weighted(&[6, 1, 1]) {
        0 => decimal(g).into_bytes(),
        1 => g.pick(&["inf", "-inf", "+Infinity", "NaN", "nan", "-nan", "", "-", ".", "e5", "1e", "1e+", "infinit", "0x10", "1_000", "1,5", "٣", "1f"]).as_bytes().to_vec(),
        _ => g.bytes(5),
    };
    if g.chance(1, 4) && !t.is_empty() {
        let i = g.usize(t.len());
        match g.below(3) {
            0 => drop(t.remove(i)),
            1 => t.insert(i, *g.pick(b"0123456789.eE+- \n_infa\xff\0")),
            _ => t[i] = *g.pick(b"0123456789.eE+- \n_infa\xff\0"),
        }
    }
    g.describe(|| format!("{:?}", String::from_utf8_lossy(&t)));
    let got = parse(&t);
    let json = f64::from(unsafe { _pen_json_decode_number(s(&t)) });
    match kind(&t) {
        Kind::None => {
            g.nontrivial(&t);
            g.label("no number");
            ensure!(got.is_err(), "accepted text", "{:?} is read as {:?}", String::from_utf8_lossy(&t), got);
            ensure!(json.is_nan(), "accepted text", "{:?} is read as the JSON number {json:e}", String::from_utf8_lossy(&t));
            ensure!(!got.unwrap_err().is_empty(), "empty error", "{:?}", String::from_utf8_lossy(&t));
        }
        Kind::Special => {
            let x = match got {
                Ok(x) => x,
                Err(e) => pbt::fail!("refused text", "{:?}: {e}", String::from_utf8_lossy(&t)),
            };
            let nan = t.to_ascii_lowercase().ends_with(b"nan");
            ensure!(
                if nan { x.is_nan() } else { x == if t[0] == b'-' { f64::NEG_INFINITY } else { f64::INFINITY } },
                "class of a number",
                "{:?} is read as {x:e}",
                String::from_utf8_lossy(&t)
            );
        }
        Kind::Finite(negative, digits, e) => {
            g.nontrivial(&t);
            g.label("number");
            let x = match got {
                Ok(x) => x,
                Err(error) => pbt::fail!("refused text", "{:?}: {error}", String::from_utf8_lossy(&t)),
            };
            ensure!(same(x, json), "JSON number", "{:?} is {x:e}, but {json:e} in JSON", String::from_utf8_lossy(&t));
            ensure_eq!(x.is_sign_negative(), negative, "sign of a number", "{:?} is read as {x:e}", String::from_utf8_lossy(&t));
            if e.abs() > 2000 {
                g.discard();
                return Ok(());
            }
            let mut big = Big::new(0);
            for d in digits {
                big.mul_add(10, (d - b'0') as u64);
                while big.0.last() == Some(&0) {
                    big.0.pop();
                }
            }
            let (lower, upper) = if x.is_infinite() {
                // Above the greatest number by half its spacing.
                (((1 << 54) - 1, 970), (0, 0))
            } else {
                halves(x)
            };
            let even = x.is_infinite() || parts(x).0 % 2 == 0;
            let u = if x.is_infinite() { Ordering::Less } else { compare(&big, e as i32, upper) };
            let l = compare(&big, e as i32, lower);
            g.label_if(l.is_eq() || u.is_eq(), "halfway");
            let ok = (l.is_gt() || l.is_eq() && even || x == 0.0) && (u.is_lt() || u.is_eq() && even);
            ensure!(ok, "nearest number", "{:?} is read as {x:e}, which is not the nearest number", String::from_utf8_lossy(&t));
        }
    }
    Ok(())
}

/// The greatest integer up to x, from integers alone.
fn floor(x: f64) -> f64 {
    if !x.is_finite() || x.abs() >= (1u64 << 52) as f64 {
        return x;
    }
    let i = x as i64;
    let i = if i as f64 > x { i - 1 } else { i };
    if i == 0 { 0.0f64.copysign(x) } else { i as f64 }
}

fn rounding(g: &mut Gen) -> CaseResult {
    let x = number(g);
    g.describe(|| format!("{x:e}"));
    if x.is_finite() && x.abs() < (1u64 << 52) as f64 && floor(x) != x {
        g.nontrivial(&x.to_bits());
    }
    let zero = |x: f64, sign: f64| if x == 0.0 { 0.0f64.copysign(sign) } else { x };
    let negated = -floor(-x);
    let truncated = if x < 0.0 { negated } else { floor(x) };
    let fraction = x.abs() - truncated.abs();
    let rounded = if !x.is_finite() {
        x
    } else if fraction >= 0.5 {
        truncated + 1f64.copysign(x)
    } else {
        truncated
    };
    for (name, got, expected) in [
        ("floor", call!(_pen_core_floor, x), floor(x)),
        ("ceiling", call!(_pen_core_ceil, x), negated),
        ("integer", call!(_pen_core_truncate, x), truncated),
        ("rounding", call!(_pen_core_round, x), rounded),
        ("absolute value", call!(_pen_core_absolute, x), f64::from_bits(x.to_bits() & (u64::MAX >> 1))),
    ] {
        ensure!(
            same(zero(got, 1.0), zero(expected, 1.0)),
            name,
            "the {name} of {x:e} is {got:e} and not {expected:e}"
        );
    }
    if x.is_finite() {
        let got = call!(_pen_core_fraction, x);
        ensure!(
            got + truncated == x && got.abs() < 1.0,
            "fraction",
            "the fraction of {x:e} is {got:e}"
        );
    }
    let nan: bool = unsafe { _pen_core_is_nan(x.into()) }.into();
    ensure_eq!(nan, x != x, "not a number", "{x:e}");

    let root = call!(_pen_core_square_root, x);
    if x < 0.0 || x.is_nan() {
        ensure!(root.is_nan(), "square root", "the square root of {x:e} is {root:e}");
    } else if x == 0.0 || x.is_infinite() {
        ensure_eq!(root, x, "square root", "{x:e}");
    } else {
        ensure!(root > 0.0 && root.is_finite(), "square root", "the square root of {x:e} is {root:e}");
        let ((l, le), (u, ue)) = halves(root);
        let (m, e) = parts(x);
        let square = |m: u64, f: i32, x: u64, e: i32| {
            let (mut l, mut r) = (Big::new(m).times(&Big::new(m)), Big::new(x));
            if 2 * f >= e { l = l.shift((2 * f - e) as u32) } else { r = r.shift((e - 2 * f) as u32) }
            l.compare(&r)
        };
        ensure!(
            square(l, le, m, e).is_le() && square(u, ue, m, e).is_ge(),
            "square root",
            "{root:e} is not the number nearest to the square root of {x:e}"
        );
    }
    ensure!(
        call!(_pen_core_epsilon) == 2f64.powi(-52) && call!(_pen_core_infinity) == 1.0 / 0.0 && call!(_pen_core_nan).is_nan(),
        "constants",
        "epsilon, infinity or not-a-number"
    );
    Ok(())
}

fn close(x: f64, y: f64) -> bool {
    same(x, y) || x == y || (x.to_bits() as i64).wrapping_sub(y.to_bits() as i64).abs() <= 4
}

fn powers(g: &mut Gen) -> CaseResult {
    let (x, y) = (number(g), number(g));
    g.describe(|| format!("{x:e}, {y:e}"));
    if x.is_finite() && y.is_finite() && x != 0.0 && y != 0.0 {
        g.nontrivial(&(x.to_bits(), y.to_bits()));
    }
    // Integers, exactly.
    let (a, b) = (g.range(-40, 40), g.below(9) as u32);
    let p = a.pow(b);
    if p.abs() < 1 << 53 {
        ensure_eq!(call!(_pen_core_power, a as f64, b as f64), p as f64, "power", "{a} to the {b}");
    }
    let got = call!(_pen_core_power, x, y);
    ensure!(close(got, x.powf(y)), "power", "{x:e} to the {y:e} is {got:e} and not {:e}", x.powf(y));
    let got = call!(_pen_core_exponential, x);
    ensure!(close(got, x.exp()), "exponential", "of {x:e} is {got:e} and not {:e}", x.exp());

    let (a, b) = (g.range(-(1 << 53), 1 << 53), g.range(-1000, 1000));
    if b != 0 {
        ensure_eq!(call!(_pen_core_remainder, a as f64, b as f64), a.rem_euclid(b) as f64, "remainder", "{a} by {b}");
    }
    let r = call!(_pen_core_remainder, x, y);
    if x.is_finite() && y.is_finite() && y != 0.0 {
        ensure!(r >= 0.0 && r <= y.abs(), "remainder", "{x:e} by {y:e} leaves {r:e}");
        // The remainder of division towards zero is exact.
        let exact = x % y;
        let expected = if exact < 0.0 { exact + y.abs() } else { exact };
        ensure_eq!(r, expected, "remainder", "{x:e} by {y:e}");
    } else if y == 0.0 || !x.is_finite() || y.is_nan() {
        ensure!(r.is_nan(), "remainder", "{x:e} by {y:e} leaves {r:e}");
    }
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "P01",
        level: "exploration",
        rule: "formatting, rounding: a number with a fraction; parsing: a text decided by the grammar of decimal numbers; powers: finite operands other than zero",
        assumptions: &[
            "The functions are called directly as compiled programs call them, built with the profile of the packages.",
            "Powers and exponentials are compared with the mathematical library of the platform within four units in the last place, all else exactly.",
        ],
        campaigns: vec![
            Campaign::new("formatting", 200_000, 20_000_000, formatting),
            Campaign::new("parsing", 100_000, 10_000_000, parsing),
            Campaign::new("rounding", 100_000, 10_000_000, rounding),
            Campaign::new("powers", 200_000, 20_000_000, powers),
        ],
    }
}
