//! Period arithmetic and FX settlement dates.
use crate::laws::{bits, day, pos};
use crate::{harnesses_fast, reach, show, sym};
use chrono::{Datelike, NaiveDate};
use finquant::time::calendars::Calendar;
use finquant::time::period::Period;

use crate::fast::dim;
/// target date before any holiday rolling: the documented base date plus the tenor
fn far(k: u8, lag: i64) {
    let c = bits();
    let d = sym::date(1902, 2150);
    let (p, base): (Period, i64) = match k {
        0 => (Period::ON, 1),
        1 => (Period::TN, 2),
        2 => (Period::SN, lag + 1),
        3 => (Period::SPOT, lag),
        4 => { let x = sym::int(0, 40); (Period::Days(x), lag + x) }
        _ => { let x = sym::int(0, 56); (Period::Weeks(x), lag + 7 * x) }
    };
    let r = if lag == 2 { p.settlement_date(d, &c) } else { settle(&p, d, &c, lag) }.unwrap();
    let b = pos(sym::shift(d, base).unwrap());
    let want = c.foll(b);
    show!("{d} {p:?} lag {lag} -> {r}, by the rules {}", day(want));
    reach!(pos(r) != b);
    reach!(pos(r) == b);
    assert!(pos(r) == want);
}
fn far_months(years: bool, lag: i64) {
    let c = bits();
    let d = sym::date(1902, 2150);
    let k = sym::u32_in(0, if years { 40 } else { 120 });
    let p = if years { Period::Years(k) } else { Period::Months(k) };
    let r = if lag == 2 { p.settlement_date(d, &c) } else { settle(&p, d, &c, lag) }.unwrap();
    let base = sym::shift(d, lag).unwrap();
    let t = base.year() * 12 + base.month0() as i32 + (if years { 12 * k } else { k }) as i32;
    let (y, m) = (t.div_euclid(12), t.rem_euclid(12) as u32 + 1);
    let raw = NaiveDate::from_ymd_opt(y, m, base.day().min(dim(y, m))).unwrap();
    let last_open = c.prec(pos(NaiveDate::from_ymd_opt(y, m, dim(y, m)).unwrap()));
    // following, but never past the last business day of the month
    let want = if pos(raw) >= last_open { last_open } else { c.foll(pos(raw)) };
    show!("{d} {p:?} lag {lag} -> {r}, unadjusted {raw}");
    reach!(pos(raw) > last_open);
    reach!(want > pos(raw));
    assert!(pos(r) == want);
    assert!(r.month() == m && r.year() == y);
}
#[cfg(finquant_verif)]
fn settle(p: &Period, d: NaiveDate, c: &dyn Calendar, lag: i64) -> finquant::error::Result<NaiveDate> { p.verif_settlement_date(d, c, lag) }
#[cfg(finquant_verif)]
fn near_lag(p: &Period, d: NaiveDate, c: &dyn Calendar, lag: i64) -> finquant::error::Result<Option<NaiveDate>> { p.verif_near_date(d, c, lag) }
#[cfg(not(finquant_verif))]
fn settle(p: &Period, d: NaiveDate, c: &dyn Calendar, _: i64) -> finquant::error::Result<NaiveDate> { p.settlement_date(d, c) }
#[cfg(not(finquant_verif))]
fn near_lag(p: &Period, d: NaiveDate, c: &dyn Calendar, _: i64) -> finquant::error::Result<Option<NaiveDate>> { p.near_date(d, c) }

fn near(lag: i64) {
    let c = bits();
    let d = sym::date(1902, 2150);
    let n = pos(d);
    let k = sym::u8_in(0, 6);
    let (p, want) = match k {
        0 => (Period::ON, Some(n)),
        1 => (Period::TN, Some(n.plus(1))),
        2 => (Period::SN, Some(n.plus(lag as i32))),
        3 => (Period::SPOT, None),
        4 => (Period::Days(sym::int(0, 40)), None),
        5 => (Period::Weeks(sym::int(0, 40)), None),
        _ => (Period::Months(sym::u32_in(0, 24)), None),
    };
    let r = if lag == 2 { p.near_date(d, &c) } else { near_lag(&p, d, &c, lag) }.unwrap();
    show!("{d} near date of {p:?} -> {r:?}");
    reach!(k == 2 && pos(r.unwrap()) != n.plus(lag as i32));
    reach!(k == 5);
    assert!(r.map(pos) == want.map(|w| c.foll(w)));
}

harnesses_fast! {
    fn far_on [5] { far(0, 2) }
    fn far_tn [5] { far(1, 2) }
    fn far_sn [5] { far(2, 2) }
    fn far_spot [5] { far(3, 2) }
    fn far_days [5] { far(4, 2) }
    fn far_weeks [5] { far(5, 2) }
    fn far_month_tenors [5] { far_months(false, 2) }
    fn far_year_tenors [5] { far_months(true, 2) }
    fn far_spot_lag1 [5] { far(3, 1) }
    fn far_sn_lag1 [5] { far(2, 1) }
    fn far_month_tenors_lag1 [5] { far_months(false, 1) }
    fn near_dates [5] { near(2) }
    fn near_dates_lag1 [5] { near(1) }
    fn near_not_after_far [5] {
        let c = bits();
        let d = sym::date(1902, 2150);
        let p = match sym::u8_in(0, 2) { 0 => Period::ON, 1 => Period::TN, _ => Period::SN };
        let f = p.settlement_date(d, &c).unwrap();
        let n = p.near_date(d, &c).unwrap().unwrap();
        show!("{d} {p:?} near {n} far {f}");
        reach!(n < f);
        assert!(n <= f);
        assert!(c.is_business_day(n) && c.is_business_day(f));
    }
}
