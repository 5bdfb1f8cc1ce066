//! Harnesses over the crate's floating-point code. Compiled twice: to LLVM IR, which lib/lsym executes
//! symbolically (doubles as reals, decided by z3), and natively, where a counterexample is replayed.
#![allow(clippy::all)]
#[macro_use]
pub mod sym;
pub mod util;
pub mod curve;
pub mod options;
pub mod opt;
pub mod fx;
pub mod rates;

pub type Table = &'static [(&'static str, extern "C-unwind" fn())];
pub const ALL: &[Table] = &[curve::ALL, options::ALL, opt::ALL, fx::ALL, rates::ALL];
