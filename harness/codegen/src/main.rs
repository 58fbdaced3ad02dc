//! C07: what mir-fmm generates, run over memory of bytes.

#[allow(dead_code)]
#[path = "../../compiler/src/lang/mod.rs"]
mod lang;
#[allow(dead_code)]
#[path = "../../compiler/src/machine.rs"]
mod machine;
#[allow(dead_code)]
#[path = "../../compiler/src/natives.rs"]
mod natives;
#[allow(dead_code)]
#[path = "../../compiler/src/pipeline.rs"]
mod pipeline;
mod programs;
mod vm;
extern crate pkg_prelude;

use machine::Stop;
use pbt::{Campaign, Failure, Property};

/// What a stopped machine means for a case.
pub fn failure(stop: &Stop, what: &str) -> Failure {
    match stop {
        Stop::Stuck(message) => Failure::new("stuck", format!("stuck: {message}; {what}")),
        Stop::Heap(message) => Failure::new("heap", format!("{message}; {what}")),
        Stop::Fuel => Failure::new("fuel", format!("too many steps; {what}")),
        Stop::Exit(message) => Failure::new("exit", format!("{message}; {what}")),
    }
}

fn main() {
    let thread = std::thread::Builder::new().stack_size(1 << 30).spawn(run).unwrap();
    let _ = thread.join();
    std::process::exit(3)
}

fn run() {
    pbt::main(vec![Property {
        id: "C07",
        level: "exploration",
        rule: "distinct programs that leave more than two marks or show a value with parts",
        assumptions: &[
            "the generated code is built with a stand-in of the fmm crate and run by an interpreter of F-- over memory of bytes: fmm and LLVM cannot be built without network",
            "tasks run at once, one at a time, and memory is ordered",
        ],
        campaigns: vec![Campaign::new("programs", 3_000, 60_000, programs::programs)],
    }])
}
