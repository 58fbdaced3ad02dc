//! P04: hashes of numbers and strings.

use crate::bytes::bytes;
use crate::numbers::number;
use crate::s;
use pbt::{ensure, ensure_eq, Campaign, CaseResult, Gen, Property};
use pen_ffi::{ByteString, Number};

extern "C" {
    fn _pen_prelude_combine_hashes(x: Number, y: Number) -> Number;
    fn _pen_prelude_hash_number(x: Number) -> Number;
    fn _pen_prelude_hash_string(x: ByteString) -> Number;
    fn _pen_prelude_hash_to_index(hash: Number, layer: Number, level: Number) -> Number;
}

/// The levels of a layer that maps use.
const LEVELS: u64 = 13;

fn bits(x: Number) -> u64 {
    f64::from(x).to_bits()
}

fn hash(x: f64) -> u64 {
    bits(unsafe { _pen_prelude_hash_number(x.into()) })
}

fn n(bits: u64) -> Number {
    f64::from_bits(bits).into()
}

fn numbers(g: &mut Gen) -> CaseResult {
    let x = number(g);
    let y = if g.bool() { number(g) } else { f64::from_bits(x.to_bits() ^ 1 << g.below(64)) };
    g.describe(|| format!("{x:e} ({:#x}) and {y:e} ({:#x})", x.to_bits(), y.to_bits()));
    g.nontrivial(&(x.to_bits(), y.to_bits()));
    ensure_eq!(hash(x), hash(x), "hash", "{x:e} hashed again");
    if x == y || x.is_nan() && y.is_nan() {
        g.label("equal");
        ensure_eq!(hash(x), hash(y), "hashes of equal numbers", "{x:e} and {y:e}");
    } else {
        // 64 bits of a good hash function do not collide by chance.
        ensure!(hash(x) != hash(y), "hashes of different numbers", "{x:e} and {y:e} have the hash {:#x}", hash(x));
    }
    ensure_eq!(hash(0.0), hash(-0.0), "hashes of equal numbers", "the two zeros");
    Ok(())
}

fn strings(g: &mut Gen) -> CaseResult {
    let x = bytes(g);
    let y = match g.below(3) {
        0 => x.clone(),
        1 => bytes(g),
        _ => {
            let mut y = x.clone();
            y.push(*g.pick(&[0, 0xff, b'a']));
            y
        }
    };
    g.describe(|| format!("{x:?} and {y:?}"));
    g.nontrivial(&(&x, &y));
    let h = bits(unsafe { _pen_prelude_hash_string(s(&x)) });
    let k = bits(unsafe { _pen_prelude_hash_string(s(&y)) });
    if x == y {
        g.label("equal");
        ensure_eq!(h, k, "hashes of equal strings", "{x:?}");
    } else {
        ensure!(h != k, "hashes of different strings", "{x:?} and {y:?} have the hash {h:#x}");
    }
    Ok(())
}

fn word(g: &mut Gen) -> u64 {
    match g.below(4) {
        0 => g.u64(),
        1 => 1 << g.below(64),
        2 => g.below(100),
        _ => *g.pick(&[0, u64::MAX, 0x7ff0_0000_0000_0000, 0x7ff8_0000_0000_0000, 0x7ff0_0000_0000_0001, 1 << 63]),
    }
}

fn combinations(g: &mut Gen) -> CaseResult {
    let (x, y, z) = (word(g), word(g), word(g));
    g.describe(|| format!("{x:#x}, {y:#x}, {z:#x}"));
    g.nontrivial(&(x, y, z));
    let combine = |x, y| bits(unsafe { _pen_prelude_combine_hashes(n(x), n(y)) });
    ensure_eq!(combine(x, y), combine(x, y), "combination", "of {x:#x} and {y:#x} made again");
    // No part is lost: what differs in one place differs combined.
    if y != z {
        ensure!(combine(x, y) != combine(x, z), "combination", "of {x:#x} is the same with {y:#x} and {z:#x}");
        ensure!(combine(y, x) != combine(z, x), "combination", "with {x:#x} is the same of {y:#x} and {z:#x}");
    }
    // Nor the order.
    if x.wrapping_mul(30) != y.wrapping_mul(30) {
        ensure!(combine(x, y) != combine(y, x), "combination", "of {x:#x} and {y:#x} is the same in both orders");
    }
    Ok(())
}

fn index(hash: u64, layer: u64, level: u64) -> f64 {
    unsafe { _pen_prelude_hash_to_index(n(hash), (layer as f64).into(), (level as f64).into()) }.into()
}

fn indexes(g: &mut Gen) -> CaseResult {
    let x = word(g);
    let y = match g.below(3) {
        0 => x ^ 1 << g.below(64),
        1 => x.wrapping_add(g.below(40)),
        _ => word(g),
    };
    let layer = 1 + g.below(4);
    g.describe(|| format!("{x:#x} and {y:#x} in layer {layer}"));
    g.nontrivial(&(x, y, layer));
    let mut differ = false;
    for level in 1..=LEVELS {
        let (i, j) = (index(x, layer, level), index(y, layer, level));
        for k in [i, j] {
            ensure!(
                (1.0..=32.0).contains(&k) && k.fract() == 0.0,
                "index",
                "{k:?} is no index, for {x:#x} or {y:#x} at level {level} of layer {layer}"
            );
        }
        ensure_eq!(i, index(x, layer, level), "index", "computed again");
        differ |= i != j;
    }
    ensure_eq!(differ, x != y, "different hashes", "{x:#x} and {y:#x} are told apart at some level of layer {layer}");
    Ok(())
}

/// Every index occurs about as often at every level.
fn spread(g: &mut Gen) -> CaseResult {
    let (base, step): (f64, f64) = (g.range(-1000, 1000) as f64, *g.pick(&[1.0, 2.0, 32.0, 1024.0, 0.5, 1e9]));
    let level = 1 + g.below(LEVELS - 1);
    let layer = 1 + g.below(2);
    g.describe(|| format!("numbers from {base} by {step} at level {level} of layer {layer}"));
    g.nontrivial(&(base.to_bits(), step.to_bits(), level, layer));
    let mut counts = [0u32; 32];
    for i in 0..3200 {
        counts[index(hash(base + i as f64 * step), layer, level) as usize - 1] += 1;
    }
    // 100 are expected; ten standard deviations away is no chance.
    ensure!(counts.iter().all(|c| (1..=200).contains(c)), "spread of indexes", "{counts:?}");
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "P04",
        level: "exploration",
        rule: "every case; labels count the equal pairs",
        assumptions: &[
            "Different values of the generated kinds do not collide in 64 bits by chance.",
            "Levels are those that maps use, 1 to 13, which cover all bits of a hash.",
        ],
        campaigns: vec![
            Campaign::new("numbers", 1_000_000, 40_000_000, numbers),
            Campaign::new("strings", 500_000, 20_000_000, strings),
            Campaign::new("combinations", 1_000_000, 40_000_000, combinations),
            Campaign::new("indexes", 300_000, 10_000_000, indexes),
            Campaign::new("spread", 2_000, 100_000, spread),
        ],
    }
}
