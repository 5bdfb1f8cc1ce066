use super::super::FloatType;
use super::{Convergency, SearchError};
use std::mem::{size_of, transmute_copy};

unsafe extern "C-unwind" {
    fn sym_between(lo: f64, hi: f64) -> f64;
    fn sym_assume(c: bool);
}
/// An arbitrary point (inside the bracket) whose value is a root within the caller's tolerance.
/// That one exists and is found is assumed.
pub fn root<F: FloatType, Func: FnMut(F) -> F>(a: F, b: F, inside: bool, mut f: Func, convergency: &mut dyn Convergency<F>) -> Result<F, SearchError> {
    assert!(size_of::<F>() == 8);
    unsafe {
        let (lo, hi): (f64, f64) = if inside { (transmute_copy(&a), transmute_copy(&b)) } else { (-1e6, 1e6) };
        let x = sym_between(lo.min(hi), lo.max(hi));
        let x: F = transmute_copy(&x);
        let y = f(x);
        sym_assume(convergency.is_root_found(y));
        Ok(x)
    }
}
