//! The application of the package without its main function, which needs a compiled program.

#[path = "/repo/packages/os-sync/ffi/application/src/debug.rs"]
mod debug;
#[path = "/repo/packages/os-sync/ffi/application/src/heap.rs"]
mod heap;
#[path = "/repo/packages/os-sync/ffi/application/src/utilities.rs"]
mod utilities;
