//! Values that count their drops.

use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering::SeqCst};

const COUNT: usize = 1 << 14;
const ALIVE: u32 = 0x600D_CAFE;
const GONE: u32 = 0x0BAD_F00D;

static DROPS: [AtomicU32; COUNT] = [const { AtomicU32::new(0) }; COUNT];
static NEXT: AtomicUsize = AtomicUsize::new(0);
static GARBAGE: AtomicUsize = AtomicUsize::new(0);

#[derive(Debug)]
#[repr(C)]
pub struct Token {
    pub id: u32,
    magic: u32,
}

pub fn begin() {
    let n = NEXT.swap(0, SeqCst).min(COUNT);
    for d in &DROPS[..n] {
        d.store(0, SeqCst);
    }
    GARBAGE.store(0, SeqCst);
}

impl Token {
    pub fn new() -> Self {
        let id = NEXT.fetch_add(1, SeqCst);
        if id >= COUNT {
            panic!("HARNESS: too many tokens");
        }
        Self { id: id as u32, magic: ALIVE }
    }
    pub fn intact(&self) -> bool {
        self.magic == ALIVE
    }
}

impl Clone for Token {
    fn clone(&self) -> Self {
        if !self.intact() {
            GARBAGE.fetch_add(1, SeqCst);
        }
        Self::new()
    }
}

impl Drop for Token {
    fn drop(&mut self) {
        if self.magic == ALIVE && (self.id as usize) < COUNT {
            DROPS[self.id as usize].fetch_add(1, SeqCst);
        } else {
            GARBAGE.fetch_add(1, SeqCst);
        }
        unsafe { std::ptr::write_volatile(&mut self.magic, GONE) }
    }
}

pub fn drops(id: u32) -> u32 {
    DROPS[id as usize].load(SeqCst)
}

pub fn made() -> u32 {
    NEXT.load(SeqCst) as u32
}

pub fn garbage() -> usize {
    GARBAGE.load(SeqCst)
}

/// Number of made tokens that have not been dropped, or an error if one has been dropped twice.
pub fn outstanding() -> Result<usize, String> {
    if garbage() > 0 {
        return Err("a payload was dropped or cloned after it was gone".into());
    }
    let mut n = 0;
    for id in 0..made() {
        match drops(id) {
            0 => n += 1,
            1 => {}
            k => return Err(format!("payload {id} was dropped {k} times")),
        }
    }
    Ok(n)
}
