//! Closed-form option prices.
use crate::sym::*;
use finquant::derivatives::forex::option::{black_scholes, OptionType};
use finquant::derivatives::interestrate::basic::{caplet_total_variance, CapStyle};
use finquant::math::normal::{cdf, pdf};
use finquant::models::common::{bachelier::*, black_scholes::*};

fn fkvtd() -> (f64, f64, f64, f64, f64) { (real(0.01, 300.0), real(0.01, 300.0), real(-0.1, 3.0), real(-0.5, 40.0), real(0.05, 1.5)) }

harnesses! {
    fn normal_symmetry() {
        let x = real(-30.0, 30.0);
        close(cdf(x) + cdf(-x), 1.0, 1e-9, 1);
        close(pdf(x), pdf(-x), 1e-9, 2);
        close(cdf(x), phi(x), 1e-9, 3);
        close(pdf(x), npdf(x), 1e-9, 4);
        let y = real(-30.0, 30.0);
        if x <= y { le(cdf(x), cdf(y), 1e-12, 5); reach(1); }
        le(0.0, cdf(x), 0.0, 6); le(cdf(x), 1.0, 0.0, 7);
    }
    fn black_parity() {
        let (f, k, v, t, d) = fkvtd();
        let (c, p) = (bs_call_forward(f, k, v, t, d), bs_put_forward(f, k, v, t, d));
        close(c - p, d * (f - k), 1e-7, 1);
    }
    fn black_formula() {
        let (f, k, v, t, d) = fkvtd();
        let (c, p) = (bs_call_forward(f, k, v, t, d), bs_put_forward(f, k, v, t, d));
        if v <= 0.0 || t <= 0.0 {
            close(c, d * (f - k).max(0.0), 1e-7, 1);
            close(p, d * (k - f).max(0.0), 1e-7, 2);
            reach(1);
        } else {
            let s = v * t.sqrt();
            let d1 = ((f / k).ln() + s * s / 2.0) / s;
            close(c, d * (f * phi(d1) - k * phi(d1 - s)), 1e-7, 3);
            close(p, d * (k * phi(s - d1) - f * phi(-d1)), 1e-7, 4);
            reach(2);
        }
    }
    fn black_deal_formula() {
        let (f, k, v, d) = (real(0.01, 300.0), real(0.01, 300.0), real(-0.1, 9.0), real(0.05, 1.5));
        let (c, p) = (black_scholes(f, k, v, d, OptionType::Call), black_scholes(f, k, v, d, OptionType::Put));
        close(c - p, d * (f - k), 1e-7, 1);
        if v > 0.0 {
            close(c, bs_call_forward(f, k, v.sqrt(), 1.0, d), 1e-7, 2);
            close(p, bs_put_forward(f, k, v.sqrt(), 1.0, d), 1e-7, 3);
            reach(1);
        } else {
            close(c, d * (f - k).max(0.0), 1e-7, 4);
            close(p, d * (k - f).max(0.0), 1e-7, 5);
            reach(2);
        }
    }
    fn bachelier_parity() {
        let (f, k, v) = (real(-0.5, 0.5), real(-0.5, 0.5), real(-0.01, 0.5));
        let (c, p) = (bachelier_call(f, k, v), bachelier_put(f, k, v));
        close(c - p, f - k, 1e-9, 1);
        if v > 0.0 {
            let s = v.sqrt();
            let x = (f - k) / s;
            close(c, s * npdf(x) + (f - k) * phi(x), 1e-9, 2);
            close(bachelier_vega_variance(f, k, v) * 2.0 * s, npdf(x), 1e-9, 3);
            close(bachelier_put(k, f, v), c, 1e-9, 4);
            reach(1);
        } else {
            close(c, (f - k).max(0.0), 1e-9, 5);
            close(bachelier_vega_variance(f, k, v), 0.0, 0.0, 6);
            reach(2);
        }
    }
    fn caplet_variance() {
        let (s, a, b) = (real(0.0, 1.0), real(-2.0, 20.0), real(-2.0, 21.0));
        assume(a < b - 0.01);
        let f = caplet_total_variance(CapStyle::ForwardLooking, s, a, b);
        let r = caplet_total_variance(CapStyle::BackwardCompounded, s, a, b);
        if b <= 0.0 { close(f, 0.0, 0.0, 1); close(r, 0.0, 0.0, 2); reach(1); }
        else if a >= 0.0 {
            close(f, s * s * a, 1e-9, 3);
            close(r, s * s * (a + (b - a) / 3.0), 1e-9, 4);
            reach(2);
        } else {
            close(f, 0.0, 0.0, 5);
            close(r * 3.0 * (b - a) * (b - a), s * s * b * b * b, 1e-9, 6);
            reach(3);
        }
        le(0.0, r, 0.0, 7);
        le(f, r, 1e-12, 8);
    }
}
