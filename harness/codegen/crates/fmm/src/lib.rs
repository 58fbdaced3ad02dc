//! Stands in for github.com/raviqqe/fmm, which is not available here: the builder of F-- modules with the interface
//! that mir-fmm uses. Modules are only built; what runs them is in the harness.

pub mod build;
pub mod ir;
pub mod types;
