//! F05: the continuation stack against a list of values.

use crate::heap::track;
use crate::token::Token;
use crate::{begin, finished, sound};
use pbt::{ensure, Campaign, CaseResult, Gen, Property};
use pen_ffi::cps::{AsyncStack, Stack};
use pen_ffi::ByteString;

trait Sample: Sized {
    fn make(seed: u64) -> Self;
    fn check(&self, seed: u64) -> bool;
}

macro_rules! number {
    ($($type:ty)*) => {$(
        impl Sample for $type {
            fn make(seed: u64) -> Self { seed as $type }
            fn check(&self, seed: u64) -> bool { *self == seed as $type }
        }
    )*};
}

number!(u8 u16 u32 u64 i64 f64 f32 u128 usize);

impl Sample for () {
    fn make(_: u64) {}
    fn check(&self, _: u64) -> bool {
        true
    }
}

impl Sample for bool {
    fn make(seed: u64) -> bool {
        seed % 2 == 1
    }
    fn check(&self, seed: u64) -> bool {
        *self == (seed % 2 == 1)
    }
}

impl<T: Sample, const N: usize> Sample for [T; N] {
    fn make(seed: u64) -> Self {
        std::array::from_fn(|i| T::make(seed.wrapping_mul(i as u64 + 1)))
    }
    fn check(&self, seed: u64) -> bool {
        self.iter().enumerate().all(|(i, x)| x.check(seed.wrapping_mul(i as u64 + 1)))
    }
}

impl<A: Sample, B: Sample> Sample for (A, B) {
    fn make(seed: u64) -> Self {
        (A::make(seed), B::make(!seed))
    }
    fn check(&self, seed: u64) -> bool {
        self.0.check(seed) && self.1.check(!seed)
    }
}

impl Sample for Box<u64> {
    fn make(seed: u64) -> Self {
        Box::new(seed)
    }
    fn check(&self, seed: u64) -> bool {
        **self == seed
    }
}

impl Sample for ByteString {
    fn make(seed: u64) -> Self {
        ByteString::from(&seed.to_le_bytes()[..(seed % 9) as usize])
    }
    fn check(&self, seed: u64) -> bool {
        self.as_slice() == &seed.to_le_bytes()[..(seed % 9) as usize]
    }
}

impl Sample for Token {
    fn make(_: u64) -> Self {
        Token::new()
    }
    fn check(&self, _: u64) -> bool {
        self.intact()
    }
}

#[repr(align(16))]
struct Aligned16(u8);
#[repr(align(64))]
struct Aligned64([u8; 70]);

impl Sample for Aligned16 {
    fn make(seed: u64) -> Self {
        Self(seed as u8)
    }
    fn check(&self, seed: u64) -> bool {
        self.0 == seed as u8
    }
}

impl Sample for Aligned64 {
    fn make(seed: u64) -> Self {
        Self([seed as u8; 70])
    }
    fn check(&self, seed: u64) -> bool {
        self.0 == [seed as u8; 70]
    }
}

fn push<T: Sample>(stack: &mut Stack, seed: u64) {
    stack.push(T::make(seed))
}

fn pop<T: Sample>(stack: &mut Stack, seed: u64) -> bool {
    stack.pop::<T>().check(seed)
}

type Entry = (&'static str, fn(&mut Stack, u64), fn(&mut Stack, u64) -> bool);

macro_rules! entries {
    ($($type:ty),* $(,)?) => { &[$((stringify!($type), push::<$type>, pop::<$type>)),*] };
}

const TYPES: &[Entry] = entries![
    u64, u8, (), u16, u32, f64, f32, bool, usize, [u8; 3], [u8; 7], [u8; 8], [u8; 9], [u8; 17], [u8; 31], [u8; 64], [u8; 65], [u8; 200],
    [u16; 3], [u16; 5], [u32; 3], [u64; 2], [u64; 3], [u64; 9], [u64; 33], [u64; 300], (u8, u64), (u64, u8), (u32, u8), Box<u64>, ByteString, Token,
    (Token, ByteString), (Box<u64>, [u8; 5]), u128, (u8, u128), Aligned16, Aligned64, [u8; 1000]
];

fn bracketed(g: &mut Gen, stack: &mut Stack) -> CaseResult {
    let steps = 1 + g.len(80);
    let mut model: Vec<(usize, u64)> = vec![];
    let mut pushed = 0;
    let kinds: Vec<usize> = (0..1 + g.usize(6)).map(|_| g.usize(TYPES.len())).collect();
    let mut deepest = 0;
    for i in 0..=steps {
        // Everything is popped in the end.
        let popping = i == steps || !model.is_empty() && g.chance(2, 5);
        if popping {
            let n = if i == steps { model.len() } else { 1 + g.usize(model.len().min(4)) };
            for _ in 0..n {
                let (kind, seed) = model.pop().unwrap();
                let ok = track(|| TYPES[kind].2(stack, seed));
                ensure!(ok, "popped value differs", "popping a {} does not give the pushed value", TYPES[kind].0);
            }
        } else {
            let kind = *g.pick(&kinds);
            let seed = g.u64();
            track(|| TYPES[kind].1(stack, seed));
            model.push((kind, seed));
            pushed += 1;
            deepest = deepest.max(model.len());
            g.describe(|| format!("push {}", TYPES[kind].0));
        }
        sound()?;
    }
    g.label_if(deepest > 20, "more than 20 values at once");
    for k in kinds {
        g.label(TYPES[k].0);
    }
    if pushed > 3 {
        g.nontrivial(&g.recorded().to_vec());
    }
    Ok(())
}

fn stack(g: &mut Gen) -> CaseResult {
    begin();
    let capacity = *g.pick(&[1usize, 2, 7, 8, 9, 16, 24, 64, 100, 1024]);
    g.describe(|| format!("capacity {capacity}"));
    let result = if g.chance(1, 3) {
        let mut stack = track(|| AsyncStack::<ByteString>::new(capacity));
        let result = bracketed(g, &mut stack);
        track(|| drop(stack));
        result
    } else {
        let mut stack = track(|| Stack::new(capacity));
        let result = bracketed(g, &mut stack);
        track(|| drop(stack));
        result
    };
    result?;
    finished()
}

pub fn property() -> Property {
    Property {
        id: "F05",
        level: "exploration",
        rule: "a case is non-trivial if more than three values were pushed",
        assumptions: &["The initial capacity is not zero, and each pop names the type of its push, as generated code does."],
        campaigns: vec![Campaign::new("push and pop", 1_500_000, 40_000_000, stack)],
    }
}
