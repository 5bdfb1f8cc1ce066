//! Yield curve: zero rates, discount factors, forward rates.
use crate::{sym::*, util::*};
use finquant::time::period::Period;

fn rate() -> f64 { real(-0.05, 0.2) }
const P: [i64; 4] = [10, 40, 95, 400];
/// The day after the queried date, between pillars, is interpolated linearly; flat outside.
fn between(p: &[(i64, f64)], k: i64) -> f64 {
    let t = k + 1;
    if t <= p[0].0 { return p[0].1; }
    for w in p.windows(2) {
        if t <= w[1].0 { return w[0].1 + (w[1].1 - w[0].1) * num(t - w[0].0) / num(w[1].0 - w[0].0); }
    }
    p[p.len() - 1].1
}
fn expected(z: &[f64], k: i64) -> f64 { between(&pillars(z), k) }
fn rates(n: usize) -> Vec<f64> { (0..n).map(|_| rate()).collect() }
fn pillars(z: &[f64]) -> Vec<(i64, f64)> { z.iter().enumerate().map(|(i, &r)| (P[i], r)).collect() }
/// Every day up to past the last short pillar, and days around the long one.
fn pick() -> i64 { let k = int(0, 110); if k <= 104 { k } else { 388 + 4 * (k - 104) } }

harnesses! {
    fn curve_zero_rate() {
        let n = int(1, 4) as usize;
        let z = rates(n);
        let c = curve(&pillars(&z));
        let k = pick();
        let r = c.zero_rate(day(k), &M).unwrap();
        close(r, expected(&z, k), 1e-9, 1);
    }
    fn curve_zero_rate_bounds() {
        let z = rates(3);
        let c = curve(&pillars(&z));
        let k = pick();
        let r = c.zero_rate(day(k), &M).unwrap();
        let (lo, hi) = (z[0].min(z[1]).min(z[2]), z[0].max(z[1]).max(z[2]));
        le(r, hi, 1e-9, 1);
        le(lo, r, 1e-9, 2);
    }
    // hidden pillars take no part
    fn curve_hidden() {
        let n = int(2, 4) as usize;
        let z = rates(n);
        let hide = int(1, (1 << n) - 2);
        let mut c = curve(&pillars(&z));
        for i in 0..n { c.stripped_curves[i].hidden_pillar = hide >> i & 1 == 1; }
        let seen: Vec<(i64, f64)> = (0..n).filter(|i| hide >> i & 1 == 0).map(|i| (P[i], z[i])).collect();
        let k = [0, 8, 9, 10, 30, 38, 39, 40, 60, 93, 94, 95, 200, 398, 399, 400, 500][int(0, 16) as usize];
        close(c.zero_rate(day(k), &M).unwrap(), between(&seen, k), 1e-9, 1);
    }
    fn curve_discount() {
        let z = rates(3);
        let c = curve(&pillars(&z));
        let k = pick();
        let d = c.discount(day(k), &M).unwrap();
        close(d, (-expected(&z, k) * yf(k)).exp(), 1e-9, 1);
        le(1e-300, d, 0.0, 2);
        if k == 0 { close(d, 1.0, 1e-12, 3); reach(1); }
    }
    // a shifted discount factor is that of the curve with every pillar's zero rate bumped
    fn curve_shifted() {
        let z = rates(3);
        let c = curve(&pillars(&z));
        let bp = real(-300.0, 300.0);
        let up: Vec<f64> = z.iter().map(|r| r + bp * 1e-4).collect();
        let b = curve(&pillars(&up));
        let k = pick();
        close(c.shifted_discount(day(k), &M, bp).unwrap(), b.discount(day(k), &M).unwrap(), 1e-9, 1);
    }
    // investing at the forward rate links the two discount factors
    fn curve_forward() {
        let z = rates(3);
        let c = curve(&pillars(&z));
        let k = int(0, 60);
        let n = int(1, 4);
        let p = if any() { Period::Weeks(n) } else { Period::Days(7 * n) };
        let f = c.forward_rate(day(k), p, &M).unwrap();
        let (a, b) = (c.discount(day(k), &M).unwrap(), c.discount(day(k + 7 * n), &M).unwrap());
        close(a * (-f * yf(7 * n)).exp(), b, 1e-9, 1);
    }
}
