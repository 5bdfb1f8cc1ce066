unsafe extern "C-unwind" {
    fn sym_f64(lo: f64, hi: f64) -> f64;
    fn sym_int(lo: i64, hi: i64) -> i64;
    fn sym_assume(c: bool);
    fn sym_assert(c: bool, id: i32);
    fn sym_close(a: f64, b: f64, tol: f64, id: i32);
    fn sym_le(a: f64, b: f64, tol: f64, id: i32);
    fn sym_reach(id: i32);
    fn sym_erfc(x: f64) -> f64;
    fn sym_opaque(k: i64) -> i64;
}
/// Any real in [lo, hi].
pub fn real(lo: f64, hi: f64) -> f64 { unsafe { sym_f64(lo, hi) } }
/// Any integer in [lo, hi]; each is explored.
pub fn int(lo: i64, hi: i64) -> i64 { unsafe { sym_int(lo, hi) } }
pub fn any() -> bool { int(0, 1) == 1 }
pub fn assume(c: bool) { unsafe { sym_assume(c) } }
pub fn ok(c: bool, id: i32) { unsafe { sym_assert(c, id) } }
/// |a - b| <= tol
pub fn close(a: f64, b: f64, tol: f64, id: i32) { unsafe { sym_close(a, b, tol, id) } }
/// a <= b + tol
pub fn le(a: f64, b: f64, tol: f64, id: i32) { unsafe { sym_le(a, b, tol, id) } }
/// k, as a float the compiler cannot fold away: constants are then computed exactly on both sides.
pub fn num(k: i64) -> f64 { unsafe { sym_opaque(k) as f64 } }
/// Must be reached on some explored path.
pub fn reach(id: i32) { unsafe { sym_reach(id) } }
/// Standard normal distribution function, for oracles.
pub fn phi(x: f64) -> f64 { 0.5 * unsafe { sym_erfc(-x / std::f64::consts::SQRT_2) } }
pub fn npdf(x: f64) -> f64 { (-0.5 * x * x).exp() / (2.0 * std::f64::consts::PI).sqrt() }

/// Runs code that calls a root finder: where the real one finds no root, the run is outside the claim.
pub fn solved<T>(f: impl FnOnce() -> T) -> T {
    if cfg!(panic = "abort") { return f(); }
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) { Ok(v) => v, Err(_) => { assume(false); unreachable!() } }
}

macro_rules! harnesses {
    ($(fn $n:ident() $b:block)*) => {
        $(#[unsafe(no_mangle)] pub extern "C-unwind" fn $n() $b)*
        pub const ALL: $crate::Table = &[$((stringify!($n), $n)),*];
    };
}
