//! P14: operations on 64-bit integers.

use pbt::{ensure_eq, Campaign, CaseResult, Gen, Property};
use pen_ffi::Number;

extern "C" {
    fn _pen_core_bit_and(x: Number, y: Number) -> Number;
    fn _pen_core_bit_or(x: Number, y: Number) -> Number;
    fn _pen_core_bit_xor(x: Number, y: Number) -> Number;
    fn _pen_core_bit_not(x: Number) -> Number;
    fn _pen_core_bit_left_shift(x: Number, n: Number) -> Number;
    fn _pen_core_bit_right_shift(x: Number, n: Number) -> Number;
    fn _pen_core_bit_to_integer_64(x: Number) -> Number;
    fn _pen_core_bit_from_integer_64(x: Number) -> Number;
}

fn n(x: u64) -> Number {
    f64::from_bits(x).into()
}

fn b(x: Number) -> u64 {
    f64::from(x).to_bits()
}

fn word(g: &mut Gen) -> u64 {
    match g.below(4) {
        0 => g.below(300),
        1 => g.u64(),
        2 => (1u64 << g.below(64)).wrapping_sub(g.below(2)),
        _ => *g.pick(&[0, u64::MAX, 0x7ff0_0000_0000_0000, 0x7ff8_0000_0000_0000, 0x7ff0_0000_0000_0001, 0xfff0_0000_0000_0001, 1 << 63, 1 << 53, (1 << 53) + 1]),
    }
}

fn operations(g: &mut Gen) -> CaseResult {
    let (x, y) = (word(g), word(g));
    g.describe(|| format!("{x:#x}, {y:#x}"));
    if x != 0 && y != 0 {
        g.nontrivial(&(x, y));
    }
    unsafe {
        ensure_eq!(b(_pen_core_bit_and(n(x), n(y))), x & y, "and", "{x:#x}, {y:#x}");
        ensure_eq!(b(_pen_core_bit_or(n(x), n(y))), x | y, "or", "{x:#x}, {y:#x}");
        ensure_eq!(b(_pen_core_bit_xor(n(x), n(y))), x ^ y, "xor", "{x:#x}, {y:#x}");
        ensure_eq!(b(_pen_core_bit_not(n(x))), !x, "not", "{x:#x}");
        ensure_eq!(f64::from(_pen_core_bit_from_integer_64(n(x))), x as f64, "from integer", "{x:#x}");
        if x < 1 << 53 {
            ensure_eq!(b(_pen_core_bit_to_integer_64((x as f64).into())), x, "to integer", "{x:#x}");
        }
        let f = x as f64 / 8.0;
        ensure_eq!(b(_pen_core_bit_to_integer_64(f.into())), f as u64, "to integer", "{f:?}");
    }
    Ok(())
}

fn shifts(g: &mut Gen) -> CaseResult {
    let x = word(g);
    let c = match g.weighted(&[4, 1, 1]) {
        0 => g.below(64) as f64,
        1 => g.below(200) as f64,
        _ => *g.pick(&[63.0, 64.0, 65.0, 128.0, 4294967296.0, 4294967297.0, 1e300, f64::INFINITY, 1.5]),
    };
    g.describe(|| format!("{x:#x} by {c:?}"));
    if x != 0 && c != 0.0 {
        g.nontrivial(&(x, c.to_bits()));
    }
    let (left, right) = if c < 64.0 { (x << c as u32, x >> c as u32) } else { (0, 0) };
    ensure_eq!(b(unsafe { _pen_core_bit_left_shift(n(x), c.into()) }), left, "left shift", "{x:#x} by {c:?}");
    ensure_eq!(b(unsafe { _pen_core_bit_right_shift(n(x), c.into()) }), right, "right shift", "{x:#x} by {c:?}");
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "P14",
        level: "exploration",
        rule: "operands other than zero",
        assumptions: &["Integers are held by the bits of numbers; the counts of shifts are not negative and are truncated."],
        campaigns: vec![Campaign::new("operations", 1_000_000, 40_000_000, operations), Campaign::new("shifts", 1_000_000, 40_000_000, shifts)],
    }
}
