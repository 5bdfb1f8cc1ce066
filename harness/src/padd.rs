//! Period addition and subtraction: exact or an error, for any magnitude.
use crate::fast::dim;
use crate::{harnesses_fast, reach, show, sym};
use chrono::{Datelike, NaiveDate};
use finquant::time::period::Period;

fn num(d: NaiveDate) -> i64 { crate::fast::day_number(d) as i64 }
/// |n| up to `most` days, or too far for any date to represent
fn amount(unit: i64, most: i64) -> i64 {
    let n = sym::raw_i64();
    let small = n >= -most / unit && n <= most / unit;
    sym::assume(small || n > 200_000_000 || n < -200_000_000);
    reach!(n > 200_000_000);
    reach!(n < 0 && small);
    reach!(n > 0 && small);
    n
}
fn by_days(weeks: bool, sub: bool, most: i64) {
    let d = sym::date(2000, 2100);
    let unit = if weeks { 7 } else { 1 };
    let n = amount(unit, most);
    let p = if weeks { Period::Weeks(n) } else { Period::Days(n) };
    match if sub { d - p } else { d + p } {
        Ok(x) => { show!("{d} by {p:?} subtract={sub} -> {x}"); assert!(n >= -36_000 && n <= 36_000); assert!(num(x) - num(d) == if sub { -n * unit } else { n * unit }) }
        Err(_) => { show!("{d} by {p:?} subtract={sub} -> error"); assert!(n > 36_000 || n < -36_000) }
    }
}
fn by_months(years: bool, sub: bool) {
    let d = sym::date(2000, 2100);
    let n = sym::raw_u32();
    let unit = if years { 12 } else { 1 };
    let small = n <= 1188 / unit;
    sym::assume(small || n > 3_200_000);
    reach!(small && n > 0 && d.day() == 31);
    reach!(d.day() == 29 && d.month() == 2 && small);
    reach!(n > 4_000_000_000);
    let p = if years { Period::Years(n) } else { Period::Months(n) };
    match if sub { d - p } else { d + p } {
        Ok(x) => {
            show!("{d} by {p:?} subtract={sub} -> {x}");
            assert!(small);
            let m = (n * unit) as i32;
            let t = d.year() * 12 + d.month() as i32 - 1 + if sub { -m } else { m };
            assert!(x.year() * 12 + x.month() as i32 - 1 == t);
            assert!(x.day() == d.day().min(dim(x.year(), x.month())));
        }
        Err(_) => { show!("{d} by {p:?} subtract={sub} -> error"); assert!(!small) }
    }
}
fn raw_date() -> NaiveDate { sym::date(1902, 2190) }

harnesses_fast! {
    fn add_days [4] { by_days(false, false, 770) }
    fn add_days_far [4] { by_days(false, false, 36_000) }
    fn sub_days [4] { by_days(false, true, 770) }
    fn sub_days_far [4] { by_days(false, true, 36_000) }
    fn add_weeks [4] { by_days(true, false, 371) }
    fn add_weeks_far [4] { by_days(true, false, 36_000) }
    fn sub_weeks [4] { by_days(true, true, 371) }
    fn sub_weeks_far [4] { by_days(true, true, 36_000) }
    fn add_months [4] { by_months(false, false) }
    fn sub_months [4] { by_months(false, true) }
    fn add_years [4] { by_months(true, false) }
    fn sub_years [4] { by_months(true, true) }
    fn named_tenors [4] {
        let d = raw_date();
        reach!(d.day() == 1);
        for p in [Period::ON, Period::TN, Period::SN] { assert!(num((d + p).unwrap()) == num(d) + 1); assert!(num((d - p).unwrap()) == num(d) - 1); }
        assert!((d + Period::SPOT).unwrap() == d && (d - Period::SPOT).unwrap() == d);
    }
    fn scaling [6] {
        let k = sym::u32_in(0, 31);
        let n = sym::int(-1_000, 1_000);
        let m = sym::u32_in(0, 1_000);
        reach!(k == 7);
        assert!(k * Period::Days(n) == Period::Days(k as i64 * n));
        assert!(k * Period::Weeks(n) == Period::Weeks(k as i64 * n));
        assert!(k * Period::Months(m) == Period::Months(k * m));
        assert!(k * Period::Years(m) == Period::Years(k * m));
        for p in [Period::ON, Period::TN, Period::SN, Period::SPOT] { assert!(k * p == p); }
    }
}
