//! Symbolic inputs. Under Kani every `sym::*` value is a solver variable; in
//! the native replay binary the same calls read the solver's assignment back,
//! so that a counterexample is re-executed against the ordinary build.
use chrono::NaiveDate;

#[cfg(kani)]
mod imp {
    pub fn raw_i64() -> i64 { kani::any() }
    pub fn raw_i32() -> i32 { kani::any() }
    pub fn raw_u32() -> u32 { kani::any() }
    pub fn raw_u8() -> u8 { kani::any() }
    pub fn raw_u64() -> u64 { kani::any() }
    pub fn raw_bool() -> bool { kani::any() }
    pub fn raw_f64() -> f64 { kani::any() }
    pub fn assume(c: bool) { kani::assume(c) }
}
#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;
    thread_local! { pub static INPUT: RefCell<Vec<Vec<u8>>> = const { RefCell::new(Vec::new()) }; }
    fn pop(n: usize) -> Vec<u8> {
        INPUT.with(|i| {
            let mut i = i.borrow_mut();
            if i.is_empty() { eprintln!("REPLAY-INPUT-EXHAUSTED"); std::process::exit(4) }
            let v = i.remove(0);
            if v.len() != n { eprintln!("REPLAY-INPUT-MISMATCH {} {}", v.len(), n); std::process::exit(4) }
            v
        })
    }
    pub fn raw_i64() -> i64 { i64::from_le_bytes(pop(8).try_into().unwrap()) }
    pub fn raw_u64() -> u64 { u64::from_le_bytes(pop(8).try_into().unwrap()) }
    pub fn raw_f64() -> f64 { f64::from_le_bytes(pop(8).try_into().unwrap()) }
    pub fn raw_i32() -> i32 { i32::from_le_bytes(pop(4).try_into().unwrap()) }
    pub fn raw_u32() -> u32 { u32::from_le_bytes(pop(4).try_into().unwrap()) }
    pub fn raw_u8() -> u8 { pop(1)[0] }
    pub fn raw_bool() -> bool { pop(1)[0] != 0 }
    pub fn assume(c: bool) { if !c { eprintln!("REPLAY-ASSUME-FAILED"); std::process::exit(3) } }
}
pub use imp::*;

pub fn int(lo: i64, hi: i64) -> i64 { let v = raw_i64(); assume(v >= lo && v <= hi); v }
pub fn i32_in(lo: i32, hi: i32) -> i32 { let v = raw_i32(); assume(v >= lo && v <= hi); v }
pub fn u32_in(lo: u32, hi: u32) -> u32 { let v = raw_u32(); assume(v >= lo && v <= hi); v }
pub fn u8_in(lo: u8, hi: u8) -> u8 { let v = raw_u8(); assume(v >= lo && v <= hi); v }

/// Any calendar date with lo <= year <= hi.
pub fn date(lo: i32, hi: i32) -> NaiveDate {
    let y = i32_in(lo, hi);
    let o = u32_in(1, 366);
    match NaiveDate::from_yo_opt(y, o) {
        Some(d) => { say(format_args!("date {d}")); d }
        None => { assume(false); unreachable!() }
    }
}

/// Reachability witness: the runner demands that the solver can reach it.
#[macro_export]
macro_rules! reach {
    ($c:expr) => {{ #[cfg(kani)] { kani::cover!($c); } #[cfg(not(kani))] { let _ = $c; } }};
}

/// Prints values when a counterexample is replayed natively.
#[allow(unused_variables)]
pub fn say(a: std::fmt::Arguments) {
    #[cfg(not(kani))]
    println!("  {a}");
}
#[macro_export]
macro_rules! show {
    ($($t:tt)*) => { #[cfg(not(kani))] { println!("  {}", format!($($t)*)); } };
}

/// Declares harnesses: each becomes a Kani proof and a native replay entry.
#[macro_export]
macro_rules! harnesses {
    ($( $(#[$m:meta])* fn $n:ident [$u:literal] $b:block )*) => {
        $( $(#[$m])* #[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind($u))] pub fn $n() $b )*
        #[cfg(not(kani))]
        pub const LIST: &[(&str, fn())] = &[ $( (stringify!($n), $n as fn()) ),* ];
    };
}

/// As `harnesses!`, with chrono's date primitives replaced (under the solver only)
/// by the table-free equivalents of `fast.rs`, which its lemma harnesses prove equal.
#[macro_export]
macro_rules! harnesses_fast {
    ($( $(#[$m:meta])* fn $n:ident [$u:literal] $b:block )*) => {
        $( $(#[$m])* #[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind($u))]
           #[cfg_attr(kani, kani::stub(chrono::NaiveDate::checked_add_signed, crate::fast::add_td))]
           #[cfg_attr(kani, kani::stub(chrono::NaiveDate::checked_sub_signed, crate::fast::sub_td))]
           #[cfg_attr(kani, kani::stub(chrono::NaiveDate::checked_add_months, crate::fast::add_months))]
           #[cfg_attr(kani, kani::stub(chrono::NaiveDate::checked_sub_months, crate::fast::sub_months))]
           #[cfg_attr(kani, kani::stub(chrono::NaiveDate::from_ymd_opt, crate::fast::from_ymd_opt))]
           #[cfg_attr(kani, kani::stub(chrono::NaiveDate::from_yo_opt, crate::fast::from_yo_opt))]
           #[cfg_attr(kani, kani::stub(chrono::NaiveDate::month, crate::fast::month))]
           #[cfg_attr(kani, kani::stub(chrono::NaiveDate::day, crate::fast::day))]
           #[cfg_attr(kani, kani::stub(chrono::NaiveDate::signed_duration_since, crate::fast::since))]
           #[cfg_attr(kani, kani::stub(chrono::TimeDelta::num_days, crate::fast::num_days))]
           #[cfg_attr(kani, kani::stub(std::fmt::format, crate::fast::no_text))]
           pub fn $n() $b )*
        #[cfg(not(kani))]
        pub const LIST: &[(&str, fn())] = &[ $( (stringify!($n), $n as fn()) ),* ];
    };
}
pub fn shift(d: NaiveDate, n: i64) -> Option<NaiveDate> { crate::fast::shift(d, n) }
