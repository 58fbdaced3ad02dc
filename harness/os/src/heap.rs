//! P13: the heap of programs against a model of its blocks.

use pbt::{ensure, CaseResult, Gen};

extern "C" {
    fn _pen_malloc(size: usize) -> *mut u8;
    fn _pen_realloc(pointer: *mut u8, size: usize) -> *mut u8;
    fn _pen_free(pointer: *mut u8);
}

struct Block {
    pointer: *mut u8,
    size: usize,
    mark: u8,
    /// How many bytes of the start have been written.
    filled: usize,
}

fn size(g: &mut Gen, huge: bool) -> usize {
    match g.weighted(&[8, 4, 2, if huge { 2 } else { 0 }]) {
        0 => 1 + g.usize(40),
        1 => 1 + g.usize(600),
        2 => 1 + g.usize(9000),
        _ => (1 << (10 + g.below(14))) + g.usize(40),
    }
}

fn byte(mark: u8, i: usize) -> u8 {
    mark.wrapping_add((i as u8).wrapping_mul(31)).wrapping_add((i >> 8) as u8)
}

fn fill(block: &mut Block) {
    for i in 0..block.size {
        unsafe { *block.pointer.add(i) = byte(block.mark, i) }
    }
    block.filled = block.size;
}

fn check(block: &Block, what: &str) -> CaseResult {
    for i in 0..block.filled {
        let x = unsafe { *block.pointer.add(i) };
        ensure!(x == byte(block.mark, i), "contents", "byte {i} of a block of {} bytes has changed after {what}", block.size);
    }
    Ok(())
}

fn place(blocks: &[Block], new: usize, what: &str) -> CaseResult {
    let x = &blocks[new];
    ensure!(!x.pointer.is_null(), "null", "{what} gives no block");
    ensure!(x.pointer as usize % ffi::DEFAULT_MEMORY_ALIGNMENT == 0, "alignment", "{what} gives {:?}", x.pointer);
    for (i, y) in blocks.iter().enumerate() {
        let (a, b) = (x.pointer as usize, y.pointer as usize);
        ensure!(i == new || a + x.size <= b || b + y.size <= a, "overlap", "{what} gives a block of {} bytes that overlaps one of {} bytes", x.size, y.size);
    }
    Ok(())
}

fn histories(g: &mut Gen, huge: bool) -> CaseResult {
    let mut blocks: Vec<Block> = vec![];
    let mut script = vec![];
    let (mut grown, mut shrunk, mut freed) = (0, 0, 0);
    let result = (|| -> CaseResult {
        for step in 0..2 + g.len(60) {
            let what;
            match g.weighted(if blocks.is_empty() { &[1, 0, 0] } else { &[3, 4, 2] }) {
                0 => {
                    let size = size(g, huge);
                    what = format!("allocation of {size} bytes");
                    blocks.push(Block { pointer: unsafe { _pen_malloc(size) }, size, mark: step as u8 * 7 + 1, filled: 0 });
                    place(&blocks, blocks.len() - 1, &what)?;
                    fill(blocks.last_mut().unwrap());
                }
                1 => {
                    let i = g.usize(blocks.len());
                    let size = match g.weighted(&[3, 2, 1]) {
                        0 => size(g, huge),
                        1 => blocks[i].size * 2,
                        _ => 1 + blocks[i].size / 2,
                    };
                    what = format!("resizing {} to {size} bytes", blocks[i].size);
                    if size > blocks[i].size {
                        grown += 1;
                    } else {
                        shrunk += 1;
                    }
                    blocks[i].pointer = unsafe { _pen_realloc(blocks[i].pointer, size) };
                    blocks[i].size = size;
                    blocks[i].filled = blocks[i].filled.min(size);
                    place(&blocks, i, &what)?;
                    check(&blocks[i], &what)?;
                    fill(&mut blocks[i]);
                }
                _ => {
                    let i = g.usize(blocks.len());
                    let block = blocks.swap_remove(i);
                    what = format!("freeing {} bytes", block.size);
                    check(&block, "other operations")?;
                    unsafe { _pen_free(block.pointer) };
                    freed += 1;
                }
            }
            for x in &blocks {
                check(x, &what)?;
            }
            script.push(what);
        }
        Ok(())
    })();
    g.describe(|| script.join("; "));
    if grown > 0 && shrunk > 0 && freed > 0 {
        g.nontrivial(&script);
    }
    for x in blocks {
        unsafe { _pen_free(x.pointer) };
    }
    result
}

pub fn small(g: &mut Gen) -> CaseResult {
    histories(g, false)
}

pub fn large(g: &mut Gen) -> CaseResult {
    histories(g, true)
}
