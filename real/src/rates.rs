//! Interest rates: money-market and futures quotes, stripping, swaps, caps and floors.
use crate::{sym::*, util::*};
use chrono::NaiveDate;
use finquant::derivatives::basic::{BasicInfo, Direction, Style};
use finquant::derivatives::interestrate::basic::*;
use finquant::derivatives::interestrate::cap::CapFloor;
use finquant::derivatives::interestrate::swap::*;
use finquant::markets::interestrate::futures::InterestRateFutures;
use finquant::markets::interestrate::interestrateindex::{InterestRateIndex, InterestRateIndexEnum};
use finquant::markets::interestrate::market_context::IrMarketContext;
use finquant::markets::interestrate::volsurface::*;
use finquant::markets::termstructures::yieldcurve::oisratehelper::OISRate;
use finquant::markets::termstructures::yieldcurve::ratehelper::FuturesRate;
use finquant::markets::termstructures::yieldcurve::*;
use finquant::time::businessdayconvention::BusinessDayConvention;
use finquant::time::calendars::{Calendar, Target};
use finquant::time::daycounters::actual360::Actual360;
use finquant::time::frequency::Frequency;
use finquant::time::period::Period;
use iso_currency::Currency;

fn euribor(p: Period) -> InterestRateIndex { InterestRateIndex::from_enum(InterestRateIndexEnum::EUIBOR(p)).unwrap() }
fn n(a: NaiveDate, b: NaiveDate) -> f64 { num((b - a).num_days()) }
fn dir(buy: bool) -> (Direction, f64) { if buy { (Direction::Buy, 1.0) } else { (Direction::Sell, -1.0) } }
fn ois(v: f64, p: Period) -> OISRate { OISRate { value: v, interest_rate_index: euribor(p) } }
fn period(s: i64, e: i64, pay: i64, bal: f64) -> InterestRateSchedulePeriod {
    InterestRateSchedulePeriod::new(day(s), day(e), day(pay), day(s - 2), 0.0, bal)
}
/// Two pillars, short and long.
fn two() -> ([f64; 2], YieldTermStructure) {
    let z = [real(-0.02, 0.12), real(-0.02, 0.12)];
    (z, curve(&[(30, z[0]), (1000, z[1])]))
}
fn bumped(z: [f64; 2], bp: f64) -> YieldTermStructure { curve(&[(30, z[0] + bp * 1e-4), (1000, z[1] + bp * 1e-4)]) }
fn df(c: &YieldTermStructure, k: i64) -> f64 { c.discount(day(k), &M).unwrap() }

// ---- swaps ----
fn detail() -> ScheduleDetail {
    ScheduleDetail::new(Frequency::Quarterly, Period::Months(3), Period::Years(1), Box::new(Actual360), Box::new(Target), BusinessDayConvention::ModifiedFollowing, 2, 0, 2)
}
fn leg(kind: InterestRateSwapLegType, d: Direction, notional: f64, schedule: Vec<InterestRateSchedulePeriod>) -> InterestRateSwapLeg {
    InterestRateSwapLeg::new(kind, d, euribor(Period::Months(3)), notional, detail(), schedule)
}
const PER: [(i64, i64, i64); 3] = [(2, 92, 94), (92, 184, 184), (184, 400, 402)];
/// Present value of one leg on a curve: coupons at the pay dates, and the last balance back at the last.
fn leg_pv(fixed: bool, rate: f64, bal: &[f64], c: &YieldTermStructure) -> f64 {
    let mut pv = 0.0;
    for (i, b) in bal.iter().enumerate() {
        let (s, e, p) = PER[i];
        let t = num(e - s) / 360.0;
        let coupon = if fixed { rate * t } else { df(c, s) / df(c, e) - 1.0 + rate * t };
        pv += coupon * b * df(c, p);
    }
    pv + bal[bal.len() - 1] * df(c, PER[bal.len() - 1].2)
}
struct Sw { swap: InterestRateSwap, z: [f64; 2], legs: Vec<(bool, f64, Vec<f64>, f64)> }
fn swap() -> Sw {
    let shape = int(0, 3);
    let kinds: &[(bool, usize)] = match shape { 0 => &[(true, 2)], 1 => &[(false, 2)], 2 => &[(true, 1), (false, 3)], _ => &[(false, 1), (true, 2)] };
    let z = [real(-0.02, 0.12), real(-0.02, 0.12)];
    let mut legs = vec![];
    let mut spec = vec![];
    for &(fixed, np) in kinds {
        let rate = real(-0.05, 0.2);
        let bal: Vec<f64> = (0..np).map(|_| real(0.0, 100.0)).collect();
        let (d, s) = dir(any());
        let kind = if fixed { InterestRateSwapLegType::Fixed { coupon: rate } } else { InterestRateSwapLegType::Float { spread: rate } };
        legs.push(leg(kind, d, bal[0], bal.iter().enumerate().map(|(i, &b)| period(PER[i].0, PER[i].1, PER[i].2, b)).collect()));
        spec.push((fixed, rate, bal, s));
    }
    Sw { swap: InterestRateSwap::new(legs), z, legs: spec }
}
impl Sw {
    fn pv(&self, bp: f64) -> f64 {
        let c = bumped(self.z, bp);
        self.legs.iter().map(|(f, r, b, s)| s * leg_pv(*f, *r, b, &c)).sum()
    }
    fn market(&self) -> IrMarketContext { IrMarketContext::new(val(), Currency::EUR, bumped(self.z, 0.0), None) }
}

// ---- caps ----
fn bachelier(f: f64, k: f64, v: f64) -> f64 {
    if v <= 0.0 { return (f - k).max(0.0); }
    let s = v.sqrt();
    let x = (f - k) / s;
    (f - k) * phi(x) + s * npdf(x)
}
/// Days to accrual start, end and payment.
struct CapSpec { buy: bool, cap: bool, back: bool, n: f64, k: f64, per: Vec<(i64, i64, i64)>, sig: Vec<f64> }
impl CapSpec {
    fn deal(&self) -> CapFloor {
        CapFloor {
            basic_info: BasicInfo { trade_date: val(), style: Style::IRSwap, direction: dir(self.buy).0, expiry_date: day(400), delivery_date: day(400) },
            kind: if self.cap { CapFloorKind::Cap } else { CapFloorKind::Floor },
            style: if self.back { CapStyle::BackwardCompounded } else { CapStyle::ForwardLooking },
            currency: Currency::EUR, notional: self.n, strike: self.k, valuation_date: val(),
            schedule: self.per.iter().map(|&(s, e, p)| period(s, e, p, self.n)).collect(),
            accrual_day_counter: Box::new(Actual360),
        }
    }
    /// Sum over the periods of notional * accrual * discount * normal-model price.
    fn pv(&self, c: &YieldTermStructure, dvol: f64) -> f64 {
        let mut t = 0.0;
        for (i, &(s, e, p)) in self.per.iter().enumerate() {
            let tau = num(e - s) / 360.0;
            let f = (df(c, s) / df(c, e) - 1.0) / tau;
            let sig = self.sig[i] + dvol;
            let var = sig * sig * if !self.back { yf(s.max(0)) } else if s >= 0 { yf(s) + yf(e - s) / 3.0 } else { yf(e).powi(3) / (3.0 * yf(e - s) * yf(e - s)) };
            let o = if self.cap { bachelier(f, self.k, var) } else { bachelier(self.k, f, var) };
            t += self.n * tau * df(c, p) * o;
        }
        if self.buy { t } else { -t }
    }
}
/// A surface whose two pillars hold one volatility each.
fn flat_surface(v: [f64; 2], split: i64) -> IRNormalVolSurface {
    let mut s = IRNormalVolSurface::new(val());
    s.pillars = vec![CapletVolPillar { expiry: day(split), nodes: vec![(0.02, v[0])] }, CapletVolPillar { expiry: day(900), nodes: vec![(0.02, v[1])] }];
    s
}
fn vols() -> [f64; 2] { [real(0.001, 0.05), real(0.001, 0.05)] }
fn cap_case(shape: i64, buy: bool, cap: bool, back: bool) -> (CapSpec, [f64; 2], [f64; 2]) {
    let per = match shape { 0 => vec![(100, 190, 192)], 1 => vec![(-30, 60, 60)], _ => vec![(90, 181, 183), (181, 273, 273)] };
    let v = vols();
    let z = [real(-0.02, 0.12), real(-0.02, 0.12)];
    let sig = per.iter().map(|p| if p.0 <= 120 { v[0] } else { v[1] }).collect();
    (CapSpec { buy, cap, back, n: real(0.5, 100.0), k: real(-0.02, 0.12), per, sig }, v, z)
}
fn ctx(z: [f64; 2], v: [f64; 2]) -> IrMarketContext { IrMarketContext::new(val(), Currency::EUR, bumped(z, 0.0), Some(flat_surface(v, 120))) }

harnesses! {
    // a deposit pays simple interest from its settlement to its maturity
    fn deposit() {
        let r = real(-0.05, 0.3);
        let i = int(0, 4) as usize;
        let p = [Period::Weeks(1), Period::Months(1), Period::Months(3), Period::Months(6), Period::Years(1)][i];
        let k = int(0, 6);
        let d = day(k);
        let o = ois(r, p);
        let conv = if i == 0 { BusinessDayConvention::Following } else { BusinessDayConvention::ModifiedFollowing };
        let s = Target.advance(d, Period::Days(2), conv, Some(false)).unwrap().unwrap();
        let m = Target.advance(s, p, conv, Some(false)).unwrap().unwrap();
        ok(o.settle_date(d).unwrap() == s, 1);
        ok(o.maturity_date(d).unwrap() == m, 2);
        let z = o.zero_rate(d).unwrap();
        // growing at the zero rate from settlement to maturity returns principal and interest
        close((z * n(s, m) / 365.0).exp(), 1.0 + r * n(s, m) / 360.0, 1e-9, 3);
        close(o.discount(d).unwrap(), (-z * n(d, m) / 365.0).exp(), 1e-9, 4);
    }
    // the stripped curve holds each deposit's zero rate, in maturity order; one-week deposits are hidden
    fn strip_deposits() {
        let r: Vec<f64> = (0..3).map(|_| real(-0.05, 0.3)).collect();
        let p = [Period::Months(3), Period::Weeks(1), Period::Months(1)];
        let rot = int(0, 2) as usize;
        let md = YieldTermMarketData::new(val(), (0..3).map(|i| ois(r[(i + rot) % 3], p[(i + rot) % 3])).collect(), vec![], vec![]);
        let c = md.get_stripped_curve().unwrap();
        ok(c.len() == 3, 1);
        for (j, &i) in [1usize, 2, 0].iter().enumerate() {
            let o = ois(r[i], p[i]);
            ok(c[j].date == o.maturity_date(val()).unwrap(), 2);
            ok(c[j].first_settle_date == o.settle_date(val()).unwrap(), 3);
            ok(c[j].hidden_pillar == (i == 1), 4);
            ok(c[j].source == InterestRateQuoteEnum::OIS, 5);
            close(c[j].market_rate, r[i], 1e-12, 6);
            close(c[j].zero_rate, o.zero_rate(val()).unwrap(), 1e-12, 7);
            close(c[j].discount, o.discount(val()).unwrap(), 1e-12, 8);
        }
    }
    // a future discounts at simple interest over its IMM period, from a pillar's discount
    fn futures() {
        let (price, conv) = (real(80.0, 105.0), real(-1.0, 1.0));
        let i = int(0, 3) as usize;
        let code = ["H4", "M4", "U4", "Z4"][i];
        let f = FuturesRate { value: price, imm_code: code.to_string(), convexity_adjustment: conv, futures_spec: InterestRateFutures::new(Period::Months(3)), interest_rate_index: euribor(Period::Months(3)) };
        close(f.implied_quote(), (100.0 - price + conv) / 100.0, 1e-9, 1);
        let d = |m, d| NaiveDate::from_ymd_opt(2024, m, d).unwrap();
        let imm = [d(3, 20), d(6, 19), d(9, 18), d(12, 18), NaiveDate::from_ymd_opt(2025, 3, 19).unwrap()];
        ok(f.settle_date(val()).unwrap() == imm[i], 2);
        ok(f.maturity_date(val()).unwrap() == imm[i + 1], 3);
        let z = real(-0.05, 0.2);
        let t = n(imm[i], imm[i + 1]) / 360.0;
        let c = vec![pillar(40, z)];
        let want = (-z * n(val(), imm[i]) / 365.0).exp();
        close(f.discount(val(), &c).unwrap() * (1.0 + t * (100.0 - price + conv) / 100.0), want, 1e-9, 4);
        // after the first future the zero rate is that of the discount factor
        let mut c = c;
        c[0].source = InterestRateQuoteEnum::Futures;
        let zr = f.zero_rate(val(), &c).unwrap();
        close((-zr * n(val(), imm[i + 1]) / 365.0).exp(), f.discount(val(), &c).unwrap(), 1e-9, 5);
    }
    fn swap_value() {
        let s = swap();
        let v = s.swap.mtm(&s.market()).unwrap();
        ok(v.currency == Currency::EUR, 1);
        close(v.value, s.pv(0.0), 1e-7, 2);
        close(s.swap.npv(val(), &mut bumped(s.z, 0.0)).unwrap(), s.pv(0.0), 1e-7, 3);
        close(s.swap.vega(&s.market(), 5.0).unwrap(), 0.0, 0.0, 4);
        ok(s.swap.maturity_date(val()).unwrap() == day(s.legs.iter().map(|l| PER[l.2.len() - 1].1).max().unwrap()), 5);
    }
    fn swap_rate_risk() {
        let s = swap();
        let m = s.market();
        let (up, base) = (s.pv(1.0), s.pv(0.0));
        close(s.swap.dv01(&m).unwrap(), up - base, 1e-7, 1);
        let bp = [10.0, 1.0, 25.0][int(0, 2) as usize];
        close(s.swap.gamma(&m, bp, RateShiftMode::Zeros).unwrap(), s.pv(bp) + s.pv(-bp) - 2.0 * base, 1e-7, 2);
        for mode in [RateShiftMode::Instruments, RateShiftMode::Forwards, RateShiftMode::Swaps] { ok(s.swap.gamma(&m, bp, mode).is_err(), 3); }
    }
    fn swap_duration() {
        let s = swap();
        let m = s.market();
        let d = s.swap.modified_duration(&m).unwrap();
        let v = s.swap.mtm(&m).unwrap().value;
        if v.abs() < 1e-12 { close(d, 0.0, 0.0, 1); reach(1); } else { close(d * v, -1e4 * s.swap.dv01(&m).unwrap(), 1e-6, 2); reach(2); }
    }
    // periods follow each other from the effective date, each end a whole number of periods on
    fn swap_schedule() {
        let notional = real(0.0, 100.0);
        let k = int(0, 6);
        let f = int(0, 3) as usize;
        let (freq, step, per_year) = match f { 0 => (Frequency::Quarterly, 3u32, 4), 1 => (Frequency::Semiannual, 6, 2), 2 => (Frequency::Monthly, 1, 12), _ => (Frequency::Annual, 12, 1) };
        let years = int(1, 2);
        let (delay, reset) = ([0, 2][int(0, 1) as usize], [0, 2][int(0, 1) as usize]);
        let det = ScheduleDetail::new(freq, if f == 3 { Period::Years(1) } else { Period::Months(step) }, if f == 3 { Period::Years(years as u32) } else { Period::Months(12 * years as u32) },
            Box::new(Actual360), Box::new(Target), BusinessDayConvention::ModifiedFollowing, 2, delay, reset);
        let l = InterestRateSwapLeg::new(InterestRateSwapLegType::Fixed { coupon: 0.02 }, Direction::Buy, euribor(Period::Months(3)), notional, det, vec![]);
        let d = day(k);
        let adv = |d, p| Target.advance(d, p, BusinessDayConvention::ModifiedFollowing, Some(false)).unwrap().unwrap();
        let eff = adv(d, Period::Days(2));
        let sch = l.generate_schedule(d).unwrap();
        ok(sch.len() == per_year * years as usize, 1);
        for (i, p) in sch.iter().enumerate() {
            ok(p.accrual_start_date == if i == 0 { eff } else { sch[i - 1].accrual_end_date }, 2);
            ok(p.accrual_end_date == adv(eff, Period::Months(step * (i as u32 + 1))), 3);
            ok(p.pay_date == adv(p.accrual_end_date, Period::Days(delay)), 4);
            ok(p.reset_date == adv(p.accrual_start_date, Period::Days(-reset)), 5);
            close(p.balance, notional, 0.0, 6);
        }
    }
    // the pillar solved for a swap reprices it
    fn swap_pillar() {
        let z0 = real(-0.01, 0.1);
        let (c, spread) = (real(0.001, 0.2), real(-0.01, 0.01));
        let sched = || vec![period(2, 184, 184, 1.0), period(184, 400, 402, 1.0)];
        let s = InterestRateSwap::new(vec![leg(InterestRateSwapLegType::Fixed { coupon: c }, Direction::Sell, 1.0, sched()), leg(InterestRateSwapLegType::Float { spread }, Direction::Buy, 1.0, sched())]);
        let md = YieldTermMarketData::new(val(), vec![ois(z0, Period::Months(3))], vec![], vec![s]);
        let st = solved(|| md.get_stripped_curve().unwrap());
        ok(st.len() == 2 && st[1].date == day(400) && st[1].source == InterestRateQuoteEnum::Swap && !st[1].hidden_pillar, 1);
        let mut y = curve(&[]);
        y.stripped_curves = st;
        close(md.swap_quote[0].npv(val(), &mut y).unwrap(), 0.0, 1e-7, 2);
    }
    fn caplet_value() {
        let (spec, v, z) = cap_case(int(0, 2), any(), any(), any());
        let r = spec.deal().mtm(&ctx(z, v)).unwrap();
        ok(r.currency == Currency::EUR, 1);
        close(r.value, spec.pv(&bumped(z, 0.0), 0.0), 1e-6, 2);
    }
    fn cap_rate_risk() {
        let (spec, v, z) = cap_case(int(0, 1), any(), any(), true);
        let (m, d) = (ctx(z, v), spec.deal());
        let base = spec.pv(&bumped(z, 0.0), 0.0);
        close(d.dv01(&m).unwrap(), spec.pv(&bumped(z, 1.0), 0.0) - base, 1e-6, 1);
        let bp = [10.0, 1.0][int(0, 1) as usize];
        close(d.gamma(&m, bp, RateShiftMode::Zeros).unwrap(), spec.pv(&bumped(z, bp), 0.0) + spec.pv(&bumped(z, -bp), 0.0) - 2.0 * base, 1e-6, 2);
        ok(d.gamma(&m, 10.0, RateShiftMode::Instruments).is_err() && d.gamma(&m, 10.0, RateShiftMode::Forwards).is_err() && d.gamma(&m, 10.0, RateShiftMode::Swaps).is_err(), 3);
    }
    fn cap_vol_risk() {
        let (spec, v, z) = cap_case(2 * int(0, 1), any(), any(), any());
        let (m, d) = (ctx(z, v), spec.deal());
        let c = bumped(z, 0.0);
        close(d.vega(&m, 1.0).unwrap(), spec.pv(&c, 1e-4) - spec.pv(&c, 0.0), 1e-6, 1);
        let none = IrMarketContext::new(val(), Currency::EUR, bumped(z, 0.0), None);
        ok(d.mtm(&none).is_err() && d.dv01(&none).is_err() && d.vega(&none, 1.0).is_err(), 2);
    }
    // expiry: first pillar on or after; strike: linear between nodes, flat outside
    fn caplet_vol_lookup() {
        let np = int(1, 3) as usize;
        let e = [30i64, 120, 400];
        let mut s = IRNormalVolSurface::new(val());
        let mut all = vec![];
        for i in 0..np {
            let m = int(1, 3) as usize;
            let ks: Vec<f64> = (0..m).map(|j| real(-0.05 + 0.05 * j as f64, -0.01 + 0.05 * j as f64)).collect();
            let nodes: Vec<(f64, f64)> = ks.into_iter().map(|k| (k, real(0.0, 0.1))).collect();
            s.pillars.push(CapletVolPillar { expiry: day(e[i]), nodes: nodes.clone() });
            all.push(nodes);
        }
        let k = [0, 30, 31, 120, 121, 400, 401][int(0, 6) as usize];
        let nodes = &all[(0..np).find(|&i| k <= e[i]).unwrap_or(np - 1)];
        let x = real(-0.1, 0.2);
        let last = nodes[nodes.len() - 1];
        let mut want = last.1;
        if x <= nodes[0].0 { want = nodes[0].1; }
        else { for w in nodes.windows(2) { if w[0].0 < x && x <= w[1].0 { want = w[0].1 + (w[1].1 - w[0].1) * (x - w[0].0) / (w[1].0 - w[0].0); } } }
        close(s.caplet_volatility(day(k), x).unwrap(), want, 1e-9, 1);
        ok(IRNormalVolSurface::new(val()).caplet_volatility(day(k), x).is_err(), 2);
    }
    // stripping caps at one strike reprices every cap
    fn cap_stripping() {
        let z = [0.03, 0.035];
        let c = bumped(z, 0.0);
        let order = any();
        let per = [(90i64, 181i64, 183i64), (181, 273, 275), (273, 365, 367)];
        let lens = if order { [1usize, 3] } else { [3, 1] };
        let k = 0.04;
        let nt = 10.0;
        let mk = |n: usize, npv: f64| CapQuote { strike: k, notional: nt, direction: Direction::Buy, kind: CapFloorKind::Cap, style: CapStyle::BackwardCompounded, currency: Currency::EUR,
            schedule: per[..n].iter().map(|&(s, e, p)| period(s, e, p, nt)).collect(), accrual_day_counter: Box::new(Actual360), market_npv: npv };
        let npv = [real(0.0, 2.0), real(0.0, 2.0)];
        let md = IRCapMarketData::new(val(), vec![mk(lens[0], npv[0]), mk(lens[1], npv[1])]);
        let mut s = IRNormalVolSurface::new(val());
        solved(|| s.rebuild(&c, &md).unwrap());
        ok(s.pillars.len() == 2 && s.pillars[0].expiry == day(90) && s.pillars[1].expiry == day(273), 1);
        for i in 0..2 {
            let sig = (0..lens[i]).map(|j| s.caplet_volatility(day(per[j].0), k).unwrap()).collect();
            let spec = CapSpec { buy: true, cap: true, back: true, n: nt, k, per: per[..lens[i]].to_vec(), sig };
            close(spec.pv(&c, 0.0), npv[i], 1e-6, 2);
        }
    }
    // each strike is its own column; a pillar lists the strikes quoted so far, in order
    fn cap_stripping_strikes() {
        let z = [0.03, 0.035];
        let c = bumped(z, 0.0);
        let per = [(90i64, 181i64, 183i64), (181, 273, 275)];
        let ks = [0.04, 0.02];
        let npv = [real(0.0, 2.0), real(0.0, 2.0)];
        let first = int(1, 2) as usize;
        let lens = [first, 1];
        let mk = |i: usize| CapQuote { strike: ks[i], notional: 1.0, direction: Direction::Sell, kind: CapFloorKind::Floor, style: CapStyle::ForwardLooking, currency: Currency::EUR,
            schedule: per[..lens[i]].iter().map(|&(s, e, p)| period(s, e, p, 1.0)).collect(), accrual_day_counter: Box::new(Actual360), market_npv: -npv[i] };
        let mut s = IRNormalVolSurface::new(val());
        let md = IRCapMarketData::new(val(), vec![mk(0), mk(1)]);
        solved(|| s.rebuild(&c, &md).unwrap());
        ok(s.pillars.len() == first, 1);
        let last = &s.pillars[first - 1];
        ok(last.expiry == day(per[first - 1].0) && last.nodes.len() == 2, 2);
        close(last.nodes[0].0, ks[1], 0.0, 3);
        close(last.nodes[1].0, ks[0], 0.0, 4);
        if first == 2 { ok(s.pillars[0].nodes.len() == 1 && s.pillars[0].expiry == day(90), 5); }
        for i in 0..2 {
            let sig = vec![last.nodes[1 - i].1; lens[i]];
            let spec = CapSpec { buy: false, cap: false, back: false, n: 1.0, k: ks[i], per: per[..lens[i]].to_vec(), sig };
            close(spec.pv(&c, 0.0), -npv[i], 1e-6, 6);
        }
    }
}
