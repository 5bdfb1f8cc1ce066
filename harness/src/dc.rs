//! Day counters against their conventions.
use crate::fast::{self, day_number};
use crate::{harnesses_fast, reach, show, sym};
use chrono::{Datelike, NaiveDate};
use finquant::time::calendars::Calendar;
use finquant::time::daycounters::DayCounters;
use finquant::time::daycounters::actual360::Actual360;
use finquant::time::daycounters::actual364::Actual364;
use finquant::time::daycounters::actual365fixed::*;
use finquant::time::daycounters::actual366::Actual366;
use finquant::time::daycounters::actualactual::*;
use finquant::time::daycounters::business252::Business252;
use finquant::time::daycounters::thirty360::*;
use finquant::time::daycounters::thirty365::Thirty365;

type C<'a> = &'a dyn DayCounters;
fn two() -> (NaiveDate, NaiveDate) { (sym::date(1902, 2190), sym::date(1902, 2190)) }
fn count_is(c: C, f: fn(NaiveDate, NaiveDate) -> i64) {
    let (a, b) = two();
    let (r, w) = (c.day_count(a, b).unwrap(), f(a, b));
    show!("day count {a} to {b}: {r}, by the convention {w}");
    reach!(a < b);
    reach!(a > b);
    reach!(a.day() == 31 && b.day() == 31);
    assert!(r == w);
}
fn actual(a: NaiveDate, b: NaiveDate) -> i64 { (day_number(b) - day_number(a)) as i64 }
fn no_leap(a: NaiveDate, b: NaiveDate) -> i64 {
    // every year has 365 days: 29 February counts as 28 February
    let n = |d: NaiveDate| { let o = d.ordinal() as i64; d.year() as i64 * 365 + if d.leap_year() && o >= 60 { o - 1 } else { o } };
    n(b) - n(a)
}
struct F { y: i64, m: i64, d: i64, feb_end: bool }
fn fields(x: NaiveDate) -> F {
    let (m, d) = fast::md(x);
    F { y: x.year() as i64, m: m as i64, d: d as i64, feb_end: m == 2 && d == fast::dim(x.year(), 2) }
}
fn thirty(a: &F, b: &F, d1: i64, d2: i64) -> i64 { 360 * (b.y - a.y) + 30 * (b.m - a.m) + d2 - d1 }
fn usa(a: NaiveDate, b: NaiveDate) -> i64 {
    let (a, b) = (fields(a), fields(b));
    let d1 = if a.feb_end || a.d == 31 { 30 } else { a.d };
    let d2 = if a.feb_end && b.feb_end || b.d == 31 && d1 == 30 { 30 } else { b.d };
    thirty(&a, &b, d1, d2)
}
fn isma(a: NaiveDate, b: NaiveDate) -> i64 {
    let (a, b) = (fields(a), fields(b));
    let d1 = a.d.min(30);
    thirty(&a, &b, d1, if b.d == 31 && d1 == 30 { 30 } else { b.d })
}
fn european(a: NaiveDate, b: NaiveDate) -> i64 { let (a, b) = (fields(a), fields(b)); thirty(&a, &b, a.d.min(30), b.d.min(30)) }
fn italian(a: NaiveDate, b: NaiveDate) -> i64 {
    let (a, b) = (fields(a), fields(b));
    let f = |x: &F| if x.m == 2 && x.d > 27 || x.d == 31 { 30 } else { x.d };
    thirty(&a, &b, f(&a), f(&b))
}
fn nasd(a: NaiveDate, b: NaiveDate) -> i64 {
    let (a, b) = (fields(a), fields(b));
    let d1 = a.d.min(30);
    // the 31st is the first of the next month unless the period starts at month end
    if b.d == 31 { if d1 == 30 { thirty(&a, &b, d1, 30) } else { thirty(&a, &b, d1, 1) + 30 } } else { thirty(&a, &b, d1, b.d) }
}
fn isda_german(german: bool) {
    let (a, b) = two();
    let t = if sym::raw_bool() { b } else { sym::date(1902, 2190) };
    let c = Thirty360::new(if german { Thirty360Market::German(t) } else { Thirty360Market::ISDA(t) });
    let (x, y) = (fields(a), fields(b));
    let d1 = if x.feb_end || x.d == 31 { 30 } else { x.d };
    let d2 = if y.d == 31 || y.feb_end && b != t { 30 } else { y.d };
    let (r, w) = (c.day_count(a, b).unwrap(), thirty(&x, &y, d1, d2));
    show!("day count {a} to {b}, maturity {t}: {r}, by the convention {w}");
    reach!(y.feb_end && b == t);
    reach!(y.feb_end && b != t);
    assert!(r == w);
}
/// year fractions over up to `most` days either way
fn fraction(c: C, den: f64, f: fn(NaiveDate, NaiveDate) -> i64, most: i64) {
    let a = sym::date(1999, 2004);
    let b = fast::shift(a, sym::int(-most, most)).unwrap();
    let r = c.year_fraction(a, b).unwrap();
    let w = f(a, b) as f64 / den;
    show!("year fraction {a} to {b}: {r}, by the convention {w}");
    reach!(a > b);
    reach!(a < b);
    assert!(r == w || (r - w).abs() < 1e-12);
}
fn near_new_year(y: i32, w: i32) -> NaiveDate { fast::shift(NaiveDate::from_ymd_opt(y, 1, 1).unwrap(), sym::int(-(w as i64), w as i64 - 1)).unwrap() }
/// Actual/Actual (ISDA): days in common years over 365 plus days in leap years over 366
fn isda(y1: i32, y2: i32, back: bool) {
    let (a, b) = (near_new_year(y1, 4), near_new_year(y2, 4));
    let (mut common, mut leap) = (0i64, 0i64);
    let (lo, hi) = if a <= b { (a, b) } else { (b, a) };
    let mut year = |y: i32| {
        let len = fast::len(y) as i64;
        let from = if lo.year() < y { 1 } else if lo.year() > y { len + 1 } else { lo.ordinal() as i64 };
        let to = if hi.year() < y { 1 } else if hi.year() > y { len + 1 } else { hi.ordinal() as i64 };
        let n = if to > from { to - from } else { 0 };
        if fast::leap(y) { leap += n } else { common += n }
    };
    year(y1 - 1); year(y1);
    if y2 > y1 { year(y1 + 1) }
    if y2 > y1 + 1 { year(y1 + 2) }
    if y2 > y1 + 2 { year(y1 + 3) }
    let w = common as f64 / 365.0 + leap as f64 / 366.0;
    let w = if a <= b { w } else { -w };
    let c = ActualActual { market: if sym::raw_bool() { None } else { Some(ActualActualMarket::Isda) } };
    let r = if back { -c.year_fraction(b, a).unwrap() } else { c.year_fraction(a, b).unwrap() };
    show!("Act/Act ISDA {a} to {b}: {r}, by the convention {w}");
    reach!(a.year() == y1 && b.year() == y2);
    reach!(a.year() == y1 - 1 && b.year() == y2 - 1);
    assert!((r - w).abs() < 1e-9);
}
fn near(y: i32, m: u32, d: u32, w: i64) -> NaiveDate { fast::shift(NaiveDate::from_ymd_opt(y, m, d).unwrap(), sym::int(-w, w)).unwrap() }
/// Actual/Actual (Euro, AFB): whole years counted back from the later date (February
/// ends stay February ends), plus the stub over 366 if it contains a 29 February.
fn euro(y1: i32, k: i32, back: bool) {
    let (a, b) = (near(y1, 3, 1, 2), near(y1 + k, 3, 1, 2));
    let years_back = |n: i32| {
        let (m, d) = fast::md(b);
        let y = b.year() - n;
        fast::from_ymd_opt(y, m, if m == 2 && d >= 28 { if n == 0 { d } else { fast::dim(y, 2) } } else { d }).unwrap()
    };
    let mut whole = 0;
    if k >= 1 && years_back(1) >= a { whole = 1 }
    if k >= 2 && years_back(2) >= a { whole = 2 }
    if k >= 3 && years_back(3) >= a { whole = 3 }
    sym::assume(a < b);
    let e = years_back(whole);
    let n = day_number(e) - day_number(a);
    let feb29 = |y: i32| fast::leap(y) && { let f = NaiveDate::from_yo_opt(y, 60).unwrap(); a <= f && f < e };
    let long = feb29(a.year()) || e.year() != a.year() && feb29(e.year());
    let w = whole as f64 + n as f64 / if long { 366.0 } else { 365.0 };
    let c = ActualActual { market: Some(ActualActualMarket::Euro) };
    let r = if back { -c.year_fraction(b, a).unwrap() } else { c.year_fraction(a, b).unwrap() };
    show!("Act/Act Euro {a} to {b}: {r}, by the convention {w}");
    reach!(n > 0);
    assert!((r - w).abs() < 1e-9);
}

/// A calendar with a single business day. Counting business days is additive over
/// the days of a calendar, so what holds for every such calendar holds for all.
#[derive(serde::Serialize, serde::Deserialize, Debug, Clone, Copy)]
pub struct OneDay(pub NaiveDate);
#[typetag::serde]
impl Calendar for OneDay {
    fn is_business_day(&self, d: NaiveDate) -> bool { d == self.0 }
    fn business_days_between(&self, a: NaiveDate, b: NaiveDate, first: Option<bool>, last: Option<bool>) -> i64 {
        let (lo, hi, sign) = if a > b { (b, a, -1) } else { (a, b, 1) };
        let x = self.0;
        let inside = if lo == hi { x == lo && first.unwrap_or(true) && last.unwrap_or(false) }
            else { x > lo && x < hi || x == lo && first.unwrap_or(true) || x == hi && last.unwrap_or(false) };
        if inside { sign } else { 0 }
    }
}
fn b252(back: bool, fraction: bool) {
    let a = sym::date(1902, 2190);
    let b = fast::shift(a, sym::int(0, 70)).unwrap();
    let x = fast::shift(a, sym::int(-3, 73)).unwrap();
    let k = Business252::verif_new(Box::new(OneDay(x)));
    let w = if a <= x && x < b { 1 } else { 0 };
    reach!(w == 1 && fast::month(&a) != fast::month(&x) && fast::month(&x) != fast::month(&b));
    reach!(x == b);
    if fraction {
        let r = k.year_fraction(a, b).unwrap();
        show!("Business/252 {a} to {b} with only {x} open: {r}, counted {w}");
        assert!((r - w as f64 / 252.0).abs() < 1e-12);
        return;
    }
    let r = if back { -k.day_count(b, a).unwrap() } else { k.day_count(a, b).unwrap() };
    show!("Business/252 {a} to {b} with only {x} open: {r}, counted {w}");
    assert!(r == w);
}

harnesses_fast! {
    fn act360_count [2] { count_is(&Actual360, actual) }
    fn act364_count [2] { count_is(&Actual364, actual) }
    fn act365_count [2] { count_is(&Actual365Fixed::default(), actual) }
    fn act366_count [2] { count_is(&Actual366, actual) }
    fn actact_count [2] { count_is(&ActualActual::default(), actual) }
    fn noleap_count [2] { count_is(&noleap(), no_leap) }
    fn act360_fraction [2] { fraction(&Actual360, 360.0, actual, 800) }
    fn act364_fraction [2] { fraction(&Actual364, 364.0, actual, 800) }
    fn act365_fraction [2] { fraction(&Actual365Fixed::default(), 365.0, actual, 800) }
    fn act366_fraction [2] { fraction(&Actual366, 366.0, actual, 800) }
    fn noleap_fraction [2] { fraction(&noleap(), 365.0, no_leap, 800) }
    fn thirty360_usa_count [2] { count_is(&Thirty360::default(), usa) }
    fn thirty360_european_count [2] { count_is(&Thirty360::new(Thirty360Market::European), european) }
    fn thirty360_italian_count [2] { count_is(&Thirty360::new(Thirty360Market::Italian), italian) }
    fn thirty360_isma_count [2] { count_is(&Thirty360::new(Thirty360Market::ISMA), isma) }
    fn thirty360_nasd_count [2] { count_is(&Thirty360::new(Thirty360Market::NASD), nasd) }
    fn thirty360_isda_count [2] { isda_german(false) }
    fn thirty360_german_count [2] { isda_german(true) }
    fn thirty365_count [2] { count_is(&Thirty365, |a, b| { let (a, b) = (fields(a), fields(b)); thirty(&a, &b, a.d, b.d) }) }
    fn thirty360_usa_fraction [2] { fraction(&Thirty360::default(), 360.0, usa, 800) }
    fn thirty365_fraction [2] { fraction(&Thirty365, 365.0, |a, b| { let (a, b) = (fields(a), fields(b)); thirty(&a, &b, a.d, b.d) }, 800) }
    fn isda_leap_to_next [3] { isda(2000, 2001, false) }
    fn isda_into_leap [3] { isda(1999, 2000, false) }
    fn isda_three_years [3] { isda(1999, 2002, false) }
    fn isda_reversed [3] { isda(2000, 2001, true) }
    fn isda_into_century [3] { isda(2099, 2100, false) }
    fn isda_from_century [3] { isda(2100, 2101, false) }
    fn euro_century [4] { euro(2099, 1, false) }
    fn isda_same_year [3] { isda(2001, 2001, false) }
    fn euro_within_a_year [3] { euro(2000, 0, false) }
    fn euro_from_leap [4] { euro(2000, 1, false) }
    fn euro_into_leap [4] { euro(1999, 1, false) }
    fn euro_two_years [5] { euro(1998, 2, false) }
    fn euro_from_leap_reversed [4] { euro(2000, 1, true) }
    fn business252_count [5] { b252(false, false) }
    fn business252_count_reversed [5] { b252(true, false) }
    fn business252_fraction [5] { b252(false, true) }
}
fn noleap() -> Actual365Fixed { Actual365Fixed::verif_new(Some(Actual365FixedMarket::NoLeap)) }
