//! Choice-sequence generators: every random decision of a case is a number drawn through `Gen::below`, so a case is
//! a list of numbers. Replaying and shrinking work on that list and need no per-type code.

use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};

#[derive(Clone)]
pub struct SplitMix(pub u64);

impl SplitMix {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

/// Where drawn choices are mirrored so that the supervisor can read them if this process dies.
#[derive(Clone, Copy)]
pub struct Mirror {
    pub base: *mut u64,
    pub capacity: usize,
}

pub struct Gen {
    prefix: Vec<u64>,
    replay: bool,
    rng: SplitMix,
    recorded: Vec<u64>,
    mirror: Option<Mirror>,
    pub(crate) labels: BTreeMap<String, u64>,
    pub(crate) nontrivial: bool,
    pub(crate) fingerprint: u64,
    pub(crate) describe: bool,
    pub(crate) description: String,
    /// Gets the description as it grows, for cases that kill their process.
    pub(crate) description_file: Option<std::fs::File>,
    pub(crate) discarded: bool,
    /// 0.0 for the first cases of a campaign, 1.0 for the last ones.
    pub size: f64,
}

impl Gen {
    pub fn random(seed: u64, size: f64, mirror: Option<Mirror>) -> Self {
        Self::make(vec![], false, seed, size, mirror)
    }

    pub fn replaying(choices: Vec<u64>, size: f64, mirror: Option<Mirror>) -> Self {
        Self::make(choices, true, 0, size, mirror)
    }

    fn make(prefix: Vec<u64>, replay: bool, seed: u64, size: f64, mirror: Option<Mirror>) -> Self {
        if let Some(m) = mirror {
            unsafe { m.base.write_volatile(0) }
        }
        Self {
            prefix,
            replay,
            rng: SplitMix(seed),
            recorded: vec![],
            mirror,
            labels: BTreeMap::new(),
            nontrivial: false,
            fingerprint: 0,
            describe: false,
            description: String::new(),
            description_file: None,
            discarded: false,
            size,
        }
    }

    pub fn recorded(&self) -> &[u64] {
        &self.recorded
    }

    /// A number in 0..n. 0 is the simplest choice.
    pub fn below(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let value = if self.replay {
            let v = self.prefix.get(self.recorded.len()).copied().unwrap_or(0);
            v.min(n - 1)
        } else if n == 1 {
            0
        } else {
            // Multiply-shift; bias is irrelevant here.
            ((self.rng.next() as u128 * n as u128) >> 64) as u64
        };
        self.record(value);
        value
    }

    /// Any 64-bit number.
    pub fn u64(&mut self) -> u64 {
        let value = if self.replay {
            self.prefix.get(self.recorded.len()).copied().unwrap_or(0)
        } else {
            self.rng.next()
        };
        self.record(value);
        value
    }

    fn record(&mut self, value: u64) {
        self.recorded.push(value);
        if let Some(m) = self.mirror {
            let n = self.recorded.len();
            if n < m.capacity {
                unsafe {
                    m.base.add(n).write_volatile(value);
                    m.base.write_volatile(n as u64);
                }
            }
        }
    }

    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }

    /// True with probability numerator / denominator; false is simplest.
    pub fn chance(&mut self, numerator: u64, denominator: u64) -> bool {
        self.below(denominator) >= denominator - numerator
    }

    pub fn range(&mut self, low: i64, high: i64) -> i64 {
        low + self.below((high - low + 1) as u64) as i64
    }

    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }

    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.usize(items.len())]
    }

    /// Index drawn by weight; the first index is simplest.
    pub fn weighted(&mut self, weights: &[u64]) -> usize {
        let total: u64 = weights.iter().sum();
        let mut x = self.below(total);
        for (i, w) in weights.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= w;
        }
        0
    }

    /// A length with a short-tailed distribution up to `max`.
    pub fn len(&mut self, max: usize) -> usize {
        match self.weighted(&[5, 3, 1]) {
            0 => self.usize(max.min(3) + 1),
            1 => self.usize(max.min(8) + 1),
            _ => self.usize(max + 1),
        }
    }

    pub fn vec<T>(&mut self, max: usize, mut f: impl FnMut(&mut Self) -> T) -> Vec<T> {
        let n = self.len(max);
        (0..n).map(|_| f(self)).collect()
    }

    pub fn bytes(&mut self, max: usize) -> Vec<u8> {
        let n = self.len(max);
        (0..n).map(|_| self.below(256) as u8).collect()
    }

    pub fn label(&mut self, label: impl Into<String>) {
        *self.labels.entry(label.into()).or_default() += 1;
    }

    pub fn label_if(&mut self, condition: bool, label: &str) {
        if condition {
            self.label(label)
        }
    }

    /// Marks the case as non-trivial by the stated rule, identified by `key` for counting distinct cases.
    pub fn nontrivial(&mut self, key: &(impl Hash + ?Sized)) {
        self.nontrivial = true;
        let mut hasher = Fnv(0xcbf29ce484222325);
        key.hash(&mut hasher);
        self.fingerprint ^= hasher.finish();
    }

    pub fn discard(&mut self) {
        self.discarded = true;
    }

    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        if self.describe {
            let text = f();
            if let Some(file) = &mut self.description_file {
                use std::io::Write;
                let _ = writeln!(file, "{text}");
            }
            if !self.description.is_empty() {
                self.description.push('\n');
            }
            self.description.push_str(&text);
        }
    }

    pub fn describing(&self) -> bool {
        self.describe
    }
}

pub struct Fnv(pub u64);

impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z ^ (z >> 31)
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 = (self.0 ^ *b as u64).wrapping_mul(0x100000001b3);
        }
    }
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = Fnv(0xcbf29ce484222325);
    h.write(s.as_bytes());
    h.finish()
}
