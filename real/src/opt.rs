//! Nelder-Mead: the objective is any function (each new point gets any value).
use crate::sym::*;
use finquant::math::optimize::{nelder_mead, NelderMeadOptions};

fn run(n: usize, iters: usize) {
    let mut seen: Vec<(Vec<f64>, f64)> = Vec::new();
    let x0: Vec<f64> = [1.5, -2.0, 0.0][..n].to_vec();
    let r = nelder_mead(|x| {
        if let Some((_, v)) = seen.iter().find(|(p, _)| p == x) { return *v; }
        let v = real(-10.0, 10.0);
        seen.push((x.to_vec(), v));
        v
    }, &x0, NelderMeadOptions { max_iter: iters, ..Default::default() });
    ok(seen[0].0 == x0, 1);
    ok(r.iterations <= iters, 2);
    // the value reported is the objective at the point reported, and no point tried was better
    let at = seen.iter().find(|(p, _)| *p == r.x);
    ok(at.is_some(), 3);
    close(at.unwrap().1, r.f, 0.0, 4);
    for (_, v) in &seen { le(r.f, *v, 0.0, 5); }
}
harnesses! {
    fn simplex_one() { run(1, 3) }
    fn simplex_two() { run(2, 2) }
    fn simplex_two_long() { run(2, 3) }
}
