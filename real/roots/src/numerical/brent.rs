use super::super::FloatType;
use super::{symbolic, Convergency, SearchError};

/// Some point where the convergency criterion accepts the function's value as a root.
pub fn find_root_brent<F, Func>(a: F, b: F, f: Func, convergency: &mut dyn Convergency<F>) -> Result<F, SearchError>
where
    F: FloatType,
    Func: FnMut(F) -> F,
{
    symbolic::root(a, b, true, f, convergency)
}
