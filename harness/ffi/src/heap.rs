//! A checking allocator. Blocks allocated while tracking is on carry a header and guard bytes, are filled with a
//! pattern when freed and kept until the end of the case, so that double frees, leaks, wild frees and writes outside
//! live blocks are found.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::ptr::{null_mut, write_bytes};
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU64, AtomicUsize, Ordering::SeqCst};

const FREE: u64 = 0x1111_F4EE_B10C_0001;
const LIVE: u64 = 0x1111_11FE_B10C_0002;
const PLAIN: u64 = 0x1111_914A_B10C_0003;
const GUARD: u8 = 0xA7;
const DEAD: u8 = 0xDD;
const FRESH: u8 = 0xCD;
const TAIL: usize = 16;

#[repr(C)]
struct Header {
    previous: *mut Header,
    next: *mut Header,
    size: usize,
    front: u32,
    align: u32,
    serial: u64,
    state: u64,
    guard: [u8; 16],
}

const HEADER: usize = std::mem::size_of::<Header>();

pub struct Heap;

#[global_allocator]
static HEAP: Heap = Heap;

static LOCK: AtomicBool = AtomicBool::new(false);
static BLOCKS: AtomicPtr<Header> = AtomicPtr::new(null_mut());
static LIVE_BLOCKS: AtomicUsize = AtomicUsize::new(0);
static LIVE_BYTES: AtomicUsize = AtomicUsize::new(0);
static SERIAL: AtomicU64 = AtomicU64::new(0);
static ALLOCATED: AtomicU64 = AtomicU64::new(0);
static FREED: AtomicU64 = AtomicU64::new(0);
static FAULT: AtomicUsize = AtomicUsize::new(0);
static FAULT_DETAIL: AtomicU64 = AtomicU64::new(0);
static QUARANTINE: AtomicUsize = AtomicUsize::new(0);

thread_local! {
    static TRACKING: Cell<bool> = const { Cell::new(false) };
}

const FAULTS: &[&str] = &["", "double free", "free of an address that is not a block", "write past the end of a block", "write before a block", "write into a freed block"];

fn fault(kind: usize, detail: u64) {
    if FAULT.compare_exchange(0, kind, SeqCst, SeqCst).is_ok() {
        FAULT_DETAIL.store(detail, SeqCst);
    }
}

fn locked<T>(f: impl FnOnce() -> T) -> T {
    while LOCK.compare_exchange(false, true, SeqCst, SeqCst).is_err() {
        std::hint::spin_loop();
    }
    let value = f();
    LOCK.store(false, SeqCst);
    value
}

unsafe fn tail_intact(header: *mut Header) -> bool {
    let end = (header as *mut u8).add(HEADER + (*header).size);
    (0..TAIL).all(|i| *end.add(i) == GUARD)
}

unsafe fn allocate(layout: Layout) -> *mut u8 {
    let align = layout.align().max(16);
    let front = HEADER.next_multiple_of(align);
    let base = System.alloc(Layout::from_size_align_unchecked(front + layout.size() + TAIL, align));
    if base.is_null() {
        return base;
    }
    let pointer = base.add(front);
    let header = pointer.sub(HEADER) as *mut Header;
    let tracked = TRACKING.with(|t| t.get());
    *header = Header {
        previous: null_mut(),
        next: null_mut(),
        size: layout.size(),
        front: front as u32,
        align: align as u32,
        serial: SERIAL.fetch_add(1, SeqCst),
        state: if tracked { LIVE } else { PLAIN },
        guard: [GUARD; 16],
    };
    if tracked {
        write_bytes(pointer, FRESH, layout.size());
        write_bytes(pointer.add(layout.size()), GUARD, TAIL);
        locked(|| {
            let first = BLOCKS.load(SeqCst);
            (*header).next = first;
            if !first.is_null() {
                (*first).previous = header;
            }
            BLOCKS.store(header, SeqCst);
        });
        LIVE_BLOCKS.fetch_add(1, SeqCst);
        LIVE_BYTES.fetch_add(layout.size(), SeqCst);
        ALLOCATED.fetch_add(1, SeqCst);
    }
    pointer
}

unsafe fn release(header: *mut Header) {
    let front = (*header).front as usize;
    let size = (*header).size;
    let align = (*header).align as usize;
    let base = (header as *mut u8).add(HEADER).sub(front);
    System.dealloc(base, Layout::from_size_align_unchecked(front + size + TAIL, align));
}

unsafe fn free(pointer: *mut u8) {
    let header = pointer.sub(HEADER) as *mut Header;
    match (*header).state {
        PLAIN => {
            (*header).state = 0;
            release(header)
        }
        LIVE => {
            if !tail_intact(header) {
                fault(3, (*header).serial);
            }
            if (*header).guard != [GUARD; 16] {
                fault(4, (*header).serial);
            }
            (*header).state = FREE;
            let size = (*header).size;
            write_bytes(pointer, DEAD, size);
            LIVE_BLOCKS.fetch_sub(1, SeqCst);
            LIVE_BYTES.fetch_sub(size, SeqCst);
            FREED.fetch_add(1, SeqCst);
            QUARANTINE.fetch_add(size + HEADER, SeqCst);
        }
        FREE => fault(1, (*header).serial),
        _ => fault(2, pointer as u64),
    }
}

unsafe impl GlobalAlloc for Heap {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        allocate(layout)
    }
    unsafe fn dealloc(&self, pointer: *mut u8, _: Layout) {
        free(pointer)
    }
    unsafe fn realloc(&self, pointer: *mut u8, layout: Layout, size: usize) -> *mut u8 {
        let header = pointer.sub(HEADER) as *mut Header;
        let old = match (*header).state {
            LIVE | PLAIN => (*header).size,
            FREE => {
                fault(1, (*header).serial);
                layout.size()
            }
            _ => {
                fault(2, pointer as u64);
                layout.size()
            }
        };
        let plain = (*header).state == PLAIN;
        let before = TRACKING.with(|t| t.replace(t.get() && !plain || (*header).state == LIVE));
        let new = allocate(Layout::from_size_align_unchecked(size, layout.align()));
        TRACKING.with(|t| t.set(before));
        if !new.is_null() {
            std::ptr::copy_nonoverlapping(pointer, new, old.min(size));
            free(pointer);
        }
        new
    }
}

/// Runs code under test with tracking on.
pub fn track<T>(f: impl FnOnce() -> T) -> T {
    struct Guard(bool);
    impl Drop for Guard {
        fn drop(&mut self) {
            TRACKING.with(|t| t.set(self.0));
        }
    }
    let _guard = Guard(TRACKING.with(|t| t.replace(true)));
    f()
}

/// Runs code of the harness inside tracked code.
pub fn untracked<T>(f: impl FnOnce() -> T) -> T {
    struct Guard(bool);
    impl Drop for Guard {
        fn drop(&mut self) {
            TRACKING.with(|t| t.set(self.0));
        }
    }
    let _guard = Guard(TRACKING.with(|t| t.replace(false)));
    f()
}

pub fn live_blocks() -> usize {
    LIVE_BLOCKS.load(SeqCst)
}

pub fn allocations() -> u64 {
    ALLOCATED.load(SeqCst)
}

/// True if the address lies in the contents of a block allocated under tracking that is still live.
pub fn is_live(address: *const u8) -> bool {
    locked(|| unsafe {
        let mut header = BLOCKS.load(SeqCst);
        while !header.is_null() {
            let start = (header as *mut u8).add(HEADER);
            if (*header).state == LIVE && address >= start && address < start.add((*header).size.max(1)) {
                return true;
            }
            header = (*header).next;
        }
        false
    })
}

/// Forgets everything tracked so far. Live blocks stay allocated.
pub fn begin() {
    locked(|| unsafe {
        let mut header = BLOCKS.swap(null_mut(), SeqCst);
        while !header.is_null() {
            let next = (*header).next;
            match (*header).state {
                FREE => {
                    (*header).state = 0;
                    release(header)
                }
                _ => (*header).state = PLAIN,
            }
            header = next;
        }
    });
    LIVE_BLOCKS.store(0, SeqCst);
    LIVE_BYTES.store(0, SeqCst);
    ALLOCATED.store(0, SeqCst);
    FREED.store(0, SeqCst);
    FAULT.store(0, SeqCst);
    SERIAL.store(0, SeqCst);
    QUARANTINE.store(0, SeqCst);
}

/// The first fault found up to now.
pub fn fault_found() -> Result<(), (String, String)> {
    let check = locked(|| unsafe {
        let mut header = BLOCKS.load(SeqCst);
        while !header.is_null() {
            let start = (header as *mut u8).add(HEADER);
            let size = (*header).size;
            match (*header).state {
                FREE => {
                    if (0..size).any(|i| *start.add(i) != DEAD) {
                        fault(5, (*header).serial)
                    }
                }
                LIVE => {
                    if !tail_intact(header) {
                        fault(3, (*header).serial)
                    }
                }
                _ => {}
            }
            if (*header).guard != [GUARD; 16] {
                fault(4, (*header).serial)
            }
            header = (*header).next;
        }
        FAULT.load(SeqCst)
    });
    if check == 0 {
        Ok(())
    } else {
        Err((FAULTS[check].to_string(), format!("{} (block {})", FAULTS[check], FAULT_DETAIL.load(SeqCst))))
    }
}
