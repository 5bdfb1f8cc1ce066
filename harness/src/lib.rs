#![recursion_limit = "1024"]
#![cfg_attr(kani, feature(pattern))]
#![allow(clippy::all)]
pub mod cal;
pub mod fast;
pub mod dc;
pub mod imm;
pub mod laws;
pub mod padd;
pub mod per;
pub mod spec;
pub mod sym;
#[cfg(not(kani))]
pub fn all() -> Vec<&'static [(&'static str, fn())]> { vec![cal::LIST, fast::LIST, imm::LIST, dc::LIST, laws::LIST, per::LIST, padd::LIST] }
