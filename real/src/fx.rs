//! Foreign exchange: forward points, forwards, vanilla options.
use crate::{sym::*, util::*};
use chrono::NaiveDate;
use finquant::derivatives::basic::{BasicInfo, Direction, Style};
use finquant::derivatives::forex::basic::{FXDerivatives, FXUnderlying};
use finquant::derivatives::forex::forward::FXForward;
use finquant::derivatives::forex::option::{FXVanillaOption, OptionType};
use finquant::markets::forex::market_context::FxMarketContext;
use finquant::markets::forex::quotes::forwardpoints::{FXForwardHelper, FXForwardQuote};
use finquant::time::calendars::Target;
use finquant::time::period::Period;
use iso_currency::Currency;

macro_rules! pairs { ($($p:ident)*) => {
    const NAMES: &[&str] = &[$(stringify!($p)),*];
    fn pair(n: &str) -> FXUnderlying { match n { $(stringify!($p) => FXUnderlying::$p,)* _ => panic!() } }
} }
pairs! { EURGBP EURUSD EURCAD EURJPY EURCHF EURNOK EURSEK EURAUD EURNZD EURDKK EURPLN EURHUF EURCZK EURRON
    GBPUSD GBPCAD GBPJPY GBPAUD GBPNZD GBPCHF GBPNOK GBPSEK
    AUDUSD NZDUSD USDCHF USDNOK USDSEK USDJPY USDSGD USDHKD USDCNY USDPLN USDHUF USDCZK USDZAR USDKRW USDINR USDBRL USDDKK
    USDIDR USDTWD USDTHB USDILS USDRON USDCAD USDMXN USDTRY USDRUB
    AUDNZD AUDCAD AUDCHF AUDJPY AUDSGD NZDCAD NZDCHF NZDJPY NZDSGD CADJPY CHFJPY CADCHF }

fn cur(s: &str) -> Currency { Currency::from_code(s).unwrap() }
fn q(tenor: Period, value: f64) -> FXForwardQuote { FXForwardQuote { tenor, value } }
fn info(k: i64, buy: bool) -> BasicInfo {
    BasicInfo { trade_date: val(), style: Style::FXForward, direction: if buy { Direction::Buy } else { Direction::Sell }, expiry_date: day(k), delivery_date: day(k + 2) }
}
/// Forward points on a given day from dated quotes: exact on a quote's date, linear in days between, none outside.
fn points(mut q: Vec<(NaiveDate, f64)>, d: NaiveDate) -> Option<f64> {
    q.sort_by_key(|x| x.0);
    if d <= val() || q.len() < 2 { return None; }
    for i in 0..q.len() {
        if q[i].0 == d { return Some(q[i].1); }
        if i > 0 && q[i - 1].0 < d && d < q[i].0 {
            let n = |a: NaiveDate, b: NaiveDate| (b - a).num_days() as f64;
            return Some(q[i - 1].1 + (q[i].1 - q[i - 1].1) * n(q[i - 1].0, d) / n(q[i - 1].0, q[i].0));
        }
    }
    None
}
struct Mkt { spot: f64, p: [f64; 2], z: [f64; 2], zf: f64 }
fn mkt() -> Mkt { Mkt { spot: real(0.2, 300.0), p: [real(-500.0, 500.0), real(-900.0, 900.0)], z: [real(-0.02, 0.15), real(-0.02, 0.15)], zf: real(-0.02, 0.15) } }
impl Mkt {
    fn ctx(&self, u: &FXUnderlying, dom: Currency, frn: Currency) -> FxMarketContext {
        let h = u.forward_helper(val(), self.spot, vec![q(Period::Months(3), self.p[1]), q(Period::Weeks(1), self.p[0])]);
        FxMarketContext::for_linear(val(), self.spot, (dom, frn), curve(&[(10, self.z[0]), (110, self.z[1])]), curve(&[(40, self.zf)]), h).unwrap()
    }
    fn points(&self, u: &FXUnderlying, d: NaiveDate) -> Option<f64> {
        points(vec![(u.settlement_date(Period::Weeks(1), val()).unwrap(), self.p[0]), (u.settlement_date(Period::Months(3), val()).unwrap(), self.p[1])], d)
    }
    fn df(&self, k: i64) -> f64 {
        let t = (k + 1) as f64;
        let z = if t <= 10.0 { self.z[0] } else if t <= 110.0 { self.z[0] + (self.z[1] - self.z[0]) * (t - 10.0) / 100.0 } else { self.z[1] };
        (-z * yf(k)).exp()
    }
}
fn pips(name: &str) -> f64 { if name.ends_with("JPY") { 100.0 } else { 10_000.0 } }

fn forward_on(name: &str, k: i64) {
    let m = mkt();
    let u = pair(name);
    let (frn, dom) = (cur(&name[..3]), cur(&name[3..]));
    let c = m.ctx(&u, dom, frn);
    let base = any();
    let buy = any();
    let (n, strike) = (real(0.5, 100.0), real(0.2, 300.0));
    let f = FXForward { basic_info: info(k, buy), asset: pair(name), notional_currency: if base { frn } else { dom }, notional_amounts: n, strike };
    let s = if buy { 1.0 } else { -1.0 };
    let units = if base { n * s } else { -n * s / strike };
    match m.points(&u, day(k)) {
        None => { ok(f.mtm(&c).is_err(), 1); ok(c.forward_at(day(k), &u.calendar()).is_err(), 2); reach(1); }
        Some(p) => {
            let fwd = m.spot + p / pips(name);
            let v = f.mtm(&c).unwrap();
            ok(v.currency == dom, 3);
            close(v.value, units * (fwd - strike) * m.df(k), 1e-6, 4);
            close(c.forward_at(day(k), &u.calendar()).unwrap(), fwd, 1e-9, 5);
            reach(2);
        }
    }
    let d = f.delta(&c).unwrap();
    ok(d.currency == frn, 6);
    close(d.value, units, 1e-9, 7);
    close(f.gamma(&c).unwrap(), 0.0, 0.0, 8);
    close(f.vega(&c).unwrap(), 0.0, 0.0, 9);
}
fn option_on(name: &str, k: i64, call: bool, base: bool) {
    let m = mkt();
    let u = pair(name);
    let (frn, dom) = (cur(&name[..3]), cur(&name[3..]));
    let c = m.ctx(&u, dom, frn);
    let buy = any();
    let (n, strike, vol) = (real(0.5, 100.0), real(0.2, 300.0), real(0.01, 1.5));
    let o = FXVanillaOption { basic_info: info(k, buy), asset: pair(name), option_type: if call { OptionType::Call } else { OptionType::Put },
        notional_currency: if base { frn } else { dom }, notional_amounts: n, strike, volatility: vol };
    let s = if buy { 1.0 } else { -1.0 };
    let w = if call { 1.0 } else { -1.0 };
    let Some(p) = m.points(&u, day(k)) else {
        ok(o.mtm(&c).is_err() && o.delta(&c).is_err() && o.gamma(&c).is_err() && o.vega(&c).is_err(), 1);
        reach(1);
        return;
    };
    let fwd = m.spot + p / pips(name);
    assume(fwd > 0.05);
    let (t, df) = (yf(k), m.df(k));
    let sd = (vol * vol * t).sqrt();
    let d1 = ((fwd / strike).ln() + 0.5 * vol * vol * t) / sd;
    let premium = df * w * (fwd * phi(w * d1) - strike * phi(w * (d1 - sd)));
    let scale = if base { n / m.spot } else { n / strike };
    let v = o.mtm(&c).unwrap();
    ok(v.currency == if base { frn } else { dom }, 2);
    close(v.value, -s * scale * premium, 1e-6, 3);
    close(o.vega(&c).unwrap(), s * scale * df * fwd * npdf(d1) * t.sqrt() / 100.0, 1e-6, 4);
    if base {
        let d = o.delta(&c).unwrap();
        ok(d.currency == frn, 5);
        close(d.value, s * n * w * phi(w * d1), 1e-6, 6);
        close(o.gamma(&c).unwrap(), s * n * df * npdf(d1) / (fwd * sd), 1e-6, 7);
    }
    reach(2);
}

harnesses! {
    // every quote date is exact, days between are linear, days outside have no forward
    fn fx_points() {
        let v: Vec<f64> = (0..4).map(|_| real(-500.0, 500.0)).collect();
        let k = int(-1, 70);
        let tenors = [Period::Months(2), Period::SPOT, Period::Months(1), Period::Weeks(1)];
        let n = if k % 2 == 0 { 4 } else { int(0, 4) as usize };
        let h = FXForwardHelper::new(val(), 1.1, (0..n).map(|i| q(tenors[i], v[i])).collect());
        let e = points((0..n).map(|i| (tenors[i].settlement_date(val(), &Target).unwrap(), v[i])).collect(), day(k));
        let r = h.get_forward(day(k), &Target).unwrap();
        ok(r.is_some() == e.is_some(), 1);
        if let (Some(a), Some(b)) = (r, e) { close(a, b, 1e-9, 2); reach(1); } else { reach(2); }
    }
    // every pair, one date
    fn fx_forward_pairs() { let i = int(0, NAMES.len() as i64 - 1) as usize; forward_on(NAMES[i], 60); }
    // dates before, at, between and after the quotes
    fn fx_forward_days() {
        let i = int(0, 2) as usize;
        let k = [-3, 0, 5, 8, 9, 10, 11, 12, 30, 91, 92, 93, 94, 95, 96, 130][int(0, 15) as usize];
        forward_on(["EURUSD", "USDJPY", "USDCAD"][i], k);
    }
    fn fx_option_call() { let i = int(0, 1) as usize; let k = [5, 10, 40, 93, 130][int(0, 4) as usize]; option_on(["EURUSD", "USDJPY"][i], k, true, any()); }
    fn fx_option_put() { let i = int(0, 1) as usize; let k = [5, 10, 40, 93, 130][int(0, 4) as usize]; option_on(["GBPUSD", "EURJPY"][i], k, false, any()); }
}
