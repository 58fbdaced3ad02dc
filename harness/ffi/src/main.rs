mod anys;
mod counts;
mod heap;
mod host;
mod lists;
mod stacks;
mod strings;
mod tasks;
mod threads;
mod token;

use pbt::{fail, CaseResult};

pub fn begin() {
    heap::begin();
    token::begin();
}

/// What must hold at any time.
pub fn sound() -> CaseResult {
    if let Err((signature, message)) = heap::fault_found() {
        fail!(signature, "{message}");
    }
    if let Err(message) = token::outstanding() {
        fail!("payload dropped twice", "{message}");
    }
    Ok(())
}

/// What must hold when all handles are gone.
pub fn finished() -> CaseResult {
    sound()?;
    let left = token::outstanding().unwrap();
    if left > 0 {
        fail!("payload not dropped", "{left} payloads were not dropped when all handles were gone");
    }
    let blocks = heap::live_blocks();
    if blocks > 0 {
        fail!("memory not released", "{blocks} blocks are still allocated when all handles are gone");
    }
    Ok(())
}

fn main() {
    pbt::main(vec![
        counts::property(),
        threads::property(),
        strings::property(),
        anys::property(),
        stacks::property(),
        tasks::property(),
        lists::property(),
    ])
}
