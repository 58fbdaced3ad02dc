//! F03: strings and buffers against vectors of bytes.

use crate::heap::track;
use crate::{begin, finished, sound};
use pbt::{ensure, ensure_eq, Campaign, CaseResult, Gen, Property};
use pen_ffi::{ArcBuffer, ByteString};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

pub fn bytes(g: &mut Gen) -> Vec<u8> {
    match g.weighted(&[3, 3, 2, 1, 1]) {
        0 => g.bytes(12),
        1 => text(g).into_bytes(),
        // Lengths around the sizes of words.
        2 => {
            let n = *g.pick(&[0usize, 1, 7, 8, 9, 15, 16, 17, 23, 24, 25, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257]);
            let b = g.below(256) as u8;
            (0..n).map(|i| b.wrapping_add(i as u8)).collect()
        }
        3 => {
            let max = if g.chance(1, 20) { 100_000 } else { 3000 };
            vec![g.below(256) as u8; 1 + g.usize(max)]
        },
        _ => {
            let mut b = text(g).into_bytes();
            if !b.is_empty() {
                let i = g.usize(b.len());
                b[i] = g.below(256) as u8;
            }
            b
        }
    }
}

fn text(g: &mut Gen) -> String {
    let n = g.len(20);
    (0..n)
        .map(|_| match g.weighted(&[4, 1, 1, 1, 1]) {
            0 => char::from(b'a' + g.below(26) as u8),
            1 => char::from_u32(g.below(128) as u32).unwrap(),
            2 => char::from_u32(0x80 + g.below(0x780) as u32).unwrap(),
            3 => char::from_u32(0x800 + g.below(0xD000) as u32).unwrap(),
            _ => char::from_u32(0x10000 + g.below(0x100000) as u32).unwrap(),
        })
        .collect()
}

fn hash(x: &impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn strings(g: &mut Gen) -> CaseResult {
    begin();
    let mut pool: Vec<(ByteString, Vec<u8>)> = vec![];
    let result = run(g, &mut pool);
    track(|| drop(std::mem::take(&mut pool)));
    result?;
    finished()
}

fn run(g: &mut Gen, pool: &mut Vec<(ByteString, Vec<u8>)>) -> CaseResult {
    let steps = 2 + g.len(20);
    let mut longest = 0;
    for _ in 0..steps {
        let entry = match g.weighted(&[4, 2, 2, 1, 1, 1, 4]) {
            0 => {
                let b = bytes(g);
                (track(|| ByteString::from(b.as_slice())), b)
            }
            1 => {
                let b = bytes(g);
                (track(|| ByteString::from(b.clone())), b)
            }
            2 => {
                let s = text(g);
                (track(|| ByteString::from(s.clone())), s.into_bytes())
            }
            3 => {
                let s = text(g);
                (track(|| ByteString::from(s.as_str())), s.into_bytes())
            }
            4 => {
                let c = text(g).chars().next().unwrap_or('é');
                (track(|| ByteString::from(c)), c.to_string().into_bytes())
            }
            5 => (track(ByteString::default), vec![]),
            _ if pool.is_empty() => (track(ByteString::default), vec![]),
            _ => {
                // A copy, by handle or by bytes.
                let (s, b) = g.pick(pool);
                let b = b.clone();
                (if g.bool() { track(|| s.clone()) } else { track(|| ByteString::from(s.as_slice())) }, b)
            }
        };
        longest = longest.max(entry.1.len());
        g.describe(|| format!("make {:?}", entry.1));
        pool.push(entry);
        if pool.len() > 3 && g.chance(1, 3) {
            let i = g.usize(pool.len());
            let (s, _) = pool.swap_remove(i);
            track(|| drop(s));
        }
        sound()?;
        for (s, b) in pool.iter() {
            ensure_eq!(s.as_slice(), b.as_slice(), "bytes", "the bytes of a string");
            ensure_eq!(s.as_slice().len(), b.len(), "length", "the length of a string");
        }
        let (s, b) = pool.last().unwrap();
        for (t, c) in pool.iter() {
            ensure_eq!(s == t, b == c, "equality", "equality of {b:?} and {c:?}");
            ensure!(b != c || hash(s) == hash(t), "hash", "equal strings {b:?} have different hashes");
        }
    }
    if longest > 0 && pool.len() > 2 {
        g.nontrivial(&pool.iter().map(|p| p.1.clone()).collect::<Vec<_>>());
    }
    g.label_if(longest > 256, "long string");
    g.label_if(pool.iter().any(|p| std::str::from_utf8(&p.1).is_err()), "not text");
    Ok(())
}

fn buffers(g: &mut Gen) -> CaseResult {
    begin();
    let n = if g.chance(1, 3) { g.usize(3000) } else { g.usize(40) };
    let mut model = vec![0; n];
    let mut buffer = track(|| ArcBuffer::new(n));
    g.nontrivial(&g.recorded().to_vec());
    ensure_eq!(buffer.as_slice().len(), n, "length", "the length of a new buffer");
    for b in &mut model {
        *b = g.below(256) as u8;
    }
    ensure_eq!(buffer.as_slice_mut().len(), n, "length", "the length of a new buffer");
    buffer.as_slice_mut().copy_from_slice(&model);
    for _ in 0..g.usize(8) {
        if n > 0 {
            let (i, b) = (g.usize(n), g.below(256) as u8);
            model[i] = b;
            buffer.as_slice_mut()[i] = b;
        }
        ensure_eq!(buffer.as_slice(), model.as_slice(), "bytes", "the bytes of a buffer after writing");
        let copy = track(|| ArcBuffer::from(model.as_slice()));
        ensure_eq!(copy.as_slice(), model.as_slice(), "bytes", "the bytes of a copied buffer");
        let clone = track(|| buffer.clone());
        ensure_eq!(clone.as_slice(), model.as_slice(), "bytes", "the bytes of a cloned buffer");
        track(|| drop((copy, clone)));
        sound()?;
    }
    ensure!(track(ArcBuffer::default).as_slice().is_empty(), "length", "the default buffer is not empty");
    track(|| drop(buffer));
    finished()
}

pub fn property() -> Property {
    Property {
        id: "F03",
        level: "exploration",
        rule: "a case is non-trivial if it holds three strings or more, one of them not empty",
        assumptions: &["ArcBuffer::as_slice_mut is used by the sole owner only."],
        campaigns: vec![Campaign::new("strings", 2_000_000, 40_000_000, strings), Campaign::new("buffers", 1_000_000, 20_000_000, buffers)],
    }
}
