//! Date-rolling laws, for an arbitrary calendar. The calendar is a symbolic
//! 64-bit pattern: a day is open iff the bit numbered (day of year mod 32) in the
//! half for its year's parity is set, so within any 32-day span every combination
//! of holidays is covered (with at most
//! `MAXRUN` consecutive closed days, an assumption of the bound).
use crate::{harnesses_fast, reach, show, sym};
use chrono::{Datelike, NaiveDate};
use finquant::time::businessdayconvention::BusinessDayConvention as B;
use finquant::time::calendars::{Calendar, JointCalendar};
use finquant::time::period::Period;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Debug, Clone, Copy)]
pub struct Bits(pub u64);
#[typetag::serde]
impl Calendar for Bits {
    fn is_business_day(&self, date: NaiveDate) -> bool { self.open(pos(date)) }
}
/// A day as year and day of year: stepping needs no calendar conversion.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Pos { pub y: i32, pub o: i32 }
pub fn pos(d: NaiveDate) -> Pos { Pos { y: d.year(), o: d.ordinal() as i32 } }
use crate::fast::len;
impl Pos {
    /// k days later, |k| <= 365
    pub fn plus(self, k: i32) -> Pos {
        let (mut y, mut o) = (self.y, self.o + k);
        if o < 1 { y -= 1; o += len(y) } else { let l = len(y); if o > l { o -= l; y += 1 } }
        Pos { y, o }
    }
}
impl Bits {
    pub fn open(&self, p: Pos) -> bool { (self.0 >> (((p.o & 31) | ((p.y & 1) << 5)) as u32)) & 1 == 1 }
    /// first open day at or after / at or before p, as an offset
    pub fn foll_k(&self, p: Pos) -> i32 { let mut k = 0; while k < MAXRUN { if self.open(p.plus(k)) { return k } k += 1; } k }
    pub fn prec_k(&self, p: Pos) -> i32 { let mut k = 0; while k < MAXRUN { if self.open(p.plus(-k)) { return k } k += 1; } k }
    pub fn foll(&self, p: Pos) -> Pos { p.plus(self.foll_k(p)) }
    pub fn prec(&self, p: Pos) -> Pos { p.plus(-self.prec_k(p)) }
}
pub const MAXRUN: i32 = 3;
fn runs(c: u32) -> bool { c & (c << 1) & (c << 2) & (c << 3) != 0 }
/// Any pattern without MAXRUN + 1 consecutive closed days.
pub fn bits() -> Bits {
    let b = sym::raw_u64();
    let (e, o) = (!(b as u32), !((b >> 32) as u32));
    for c in [e, o] {
        let r = c & c.rotate_left(1) & c.rotate_left(2) & c.rotate_left(3);
        sym::assume(r == 0);
    }
    // across New Year: the last days of a year (day 365 has index 13, 366 has 14) then days 1, 2, 3
    for (a, z) in [(e, o), (o, e)] {
        for last in [13, 14] {
            let tail = (a >> (last - 2)) & 7;
            let head = (z >> 1) & 7;
            sym::assume(!runs(tail | (head << 3)));
        }
    }
    show!("calendar pattern {b:064b}");
    Bits(b)
}
pub fn day(p: Pos) -> NaiveDate { NaiveDate::from_yo_opt(p.y, p.o as u32).unwrap() }
/// the date k days from d
fn off(d: NaiveDate, k: i32) -> NaiveDate { sym::shift(d, k as i64).unwrap() }

/// the adjusted day by the definition of the convention
pub fn rolled(c: &Bits, d: NaiveDate, b: B) -> Pos {
    let n = pos(d);
    if b == B::Unadjusted { return n }
    let (fk, pk) = (c.foll_k(n), c.prec_k(n));
    let (f, p) = (n.plus(fk), n.plus(-pk));
    // day-of-month positions of the candidates
    let dd = d.day() as i32;
    let f_out = dd + fk > crate::fast::dim(d.year(), d.month()) as i32;
    let p_out = dd - pk < 1;
    match b {
        B::Following => f,
        B::Preceding => p,
        B::ModifiedFollowing => if f_out { p } else { f },
        B::ModifiedPreceding => if p_out { f } else { p },
        B::HalfMonthModifiedFollowing => if f_out || (dd <= 15 && dd + fk > 15) { p } else { f },
        B::Unadjusted => n,
        B::Nearest => if fk <= pk { f } else { p },
    }
}
fn adj(b: B) {
    let c = bits();
    let d = sym::date(1902, 2190);
    let r = c.adjust(d, b).unwrap();
    let want = rolled(&c, d, b);
    show!("adjust {d} -> {r}, by the rules {}", day(want));
    reach!(!c.open(pos(d)));
    reach!(c.open(pos(d)));
    reach!(d.day() == 31 && !c.open(pos(d)));
    assert!(pos(r) == want);
}

fn adv_days(k: i64) {
    let c = bits();
    let d = sym::date(1902, 2190);
    let b = if k % 2 == 0 { B::Unadjusted } else { B::Preceding };
    let r = c.advance(d, Period::Days(k), b, Some(k > 1)).unwrap().unwrap();
    let mut want = pos(d);
    for _ in 0..k.abs() { want = if k > 0 { c.foll(want.plus(1)) } else { c.prec(want.plus(-1)) } }
    show!("advance {d} by {k} business days -> {r}, by the rules {}", day(want));
    reach!(pos(r) == pos(d).plus(k as i32));
    reach!(pos(r) == pos(d).plus(k as i32 + 3 * k.signum() as i32));
    assert!(pos(r) == want);
}
fn adv_zero(b: B) {
    let c = bits();
    let d = sym::date(1902, 2190);
    let r = c.advance(d, Period::Days(0), b, None).unwrap().unwrap();
    let want = if b == B::Unadjusted { pos(d) } else { c.foll(pos(d)) };
    reach!(!c.open(pos(d)));
    assert!(pos(r) == want);
}
fn adv_weeks(b: B) {
    let c = bits();
    let d = sym::date(1905, 2190);
    let w = sym::int(-60, 60);
    let eom = sym::raw_bool();
    let r = c.advance(d, Period::Weeks(w), b, Some(eom)).unwrap().unwrap();
    let t = pos(off(d, 7 * w as i32));
    let want = match b { B::Following => c.foll(t), B::Preceding => c.prec(t), _ => t };
    show!("advance {d} by {w} weeks -> {r}, by the rules {}", day(want));
    reach!(w < 0 && !c.open(t));
    assert!(pos(r) == want);
}

fn add_months(d: NaiveDate, k: u32) -> NaiveDate {
    let t = d.year() as i64 * 12 + d.month0() as i64 + k as i64;
    let (y, m) = (t.div_euclid(12) as i32, t.rem_euclid(12) as u32 + 1);
    NaiveDate::from_ymd_opt(y, m, d.day().min(crate::fast::dim(y, m))).unwrap()
}
/// last calendar day and last open day of a month
fn month_end(d: NaiveDate) -> NaiveDate { NaiveDate::from_ymd_opt(d.year(), d.month(), crate::fast::dim(d.year(), d.month())).unwrap() }

fn adv_months(b: B, years: bool) {
    let c = bits();
    let d = sym::date(1902, 2190);
    let k = sym::u32_in(0, if years { 3 } else { 30 });
    let eom = sym::raw_bool();
    let p = if years { Period::Years(k) } else { Period::Months(k) };
    let raw = add_months(d, if years { 12 * k } else { k });
    show!("advance {d} by {p:?} end_of_month={eom}");
    let r = c.advance(d, p, b, Some(eom)).unwrap().unwrap();
    let at_end = if b == B::Unadjusted { d == month_end(d) } else { pos(d) >= c.prec(pos(month_end(d))) };
    let want = if eom && at_end {
        if b == B::Unadjusted { pos(month_end(raw)) } else { c.prec(pos(month_end(raw))) }
    } else { rolled(&c, raw, b) };
    show!("got {r}, by the rules {}", day(want));
    reach!(eom && at_end && raw != month_end(raw));
    reach!(eom && !at_end);
    reach!(!eom);
    assert!(pos(r) == want);
    if !eom { assert!(c.advance(d, p, b, None).unwrap() == Some(r)); }
}

fn between(back: bool, most: i32) {
    let c = bits();
    let d = sym::date(1902, 2190);
    let k = sym::i32_in(0, most);
    let e = off(d, k);
    let first = match sym::u8_in(0, 2) { 0 => None, 1 => Some(false), _ => Some(true) };
    let last = match sym::u8_in(0, 2) { 0 => None, 1 => Some(false), _ => Some(true) };
    let (f, l) = (first.unwrap_or(true), last.unwrap_or(false));
    let r = if back { c.business_days_between(e, d, first, last) } else { c.business_days_between(d, e, first, last) };
    let mut want = 0i64;
    for i in 0..=most {
        let inside = if k == 0 { i == 0 && f && l } else { (i > 0 && i < k) || (i == 0 && f) || (i == k && l) };
        if i <= k && inside && c.open(pos(d).plus(i)) { want += 1; }
    }
    if back && k > 0 { want = -want }
    show!("business days {d}..{e} first={first:?} last={last:?} swapped={back}: {r}, counted {want}");
    reach!(k == 0);
    reach!(k == most && want.abs() as i32 == most - 1);
    assert!(r == want);
}

harnesses_fast! {
    fn adjust_following [5] { adj(B::Following) }
    fn adjust_modified_following [5] { adj(B::ModifiedFollowing) }
    fn adjust_half_month [5] { adj(B::HalfMonthModifiedFollowing) }
    fn adjust_preceding [5] { adj(B::Preceding) }
    fn adjust_modified_preceding [5] { adj(B::ModifiedPreceding) }
    fn adjust_unadjusted [5] { adj(B::Unadjusted) }
    fn adjust_nearest [5] { adj(B::Nearest) }

    fn advance_1_day [5] { adv_days(1) }
    fn advance_2_days [5] { adv_days(2) }
    fn advance_3_days [5] { adv_days(3) }
    fn advance_back_1_day [5] { adv_days(-1) }
    fn advance_back_2_days [5] { adv_days(-2) }
    fn advance_back_3_days [5] { adv_days(-3) }
    fn advance_0_days_following [5] { adv_zero(B::Following) }
    fn advance_0_days_unadjusted [5] { adv_zero(B::Unadjusted) }
    fn advance_weeks_following [5] { adv_weeks(B::Following) }
    fn advance_weeks_preceding [5] { adv_weeks(B::Preceding) }
    fn advance_weeks_unadjusted [5] { adv_weeks(B::Unadjusted) }
    fn advance_months_following [5] { adv_months(B::Following, false) }
    fn advance_months_modified_following [5] { adv_months(B::ModifiedFollowing, false) }
    fn advance_months_unadjusted [5] { adv_months(B::Unadjusted, false) }
    fn advance_years_modified_following [5] { adv_months(B::ModifiedFollowing, true) }

    fn month_ends [5] {
        let c = bits();
        let d = sym::date(1902, 2190);
        let l = c.last_day_of_month(d);
        let e = c.end_of_month(d);
        show!("{d}: last day {l}, last open day {e}");
        reach!(e != l);
        reach!(e < d);
        reach!(d.month() == 12);
        assert!(l == month_end(d));
        assert!(pos(e) == c.prec(pos(month_end(d))));
    }

    fn between_forward [5] { between(false, 3) }
    fn between_backward [5] { between(true, 3) }
    fn between_forward_longer [7] { between(false, 5) }
    fn between_backward_longer [7] { between(true, 5) }

    fn joint_is_the_intersection [5] {
        let (a, b, c) = (Bits(sym::raw_u64()), Bits(sym::raw_u64()), Bits(sym::raw_u64()));
        let d = sym::date(1902, 2190);
        let k = sym::u8_in(0, 3);
        let v: Vec<Box<dyn Calendar>> = match k {
            0 => vec![], 1 => vec![Box::new(a)], 2 => vec![Box::new(a), Box::new(b)],
            _ => vec![Box::new(a), Box::new(b), Box::new(c)],
        };
        let j = JointCalendar::new(v);
        let n = pos(d);
        let want = (k < 1 || a.open(n)) && (k < 2 || b.open(n)) && (k < 3 || c.open(n));
        reach!(k == 3 && a.open(n) && b.open(n) && !c.open(n));
        reach!(want);
        assert!(j.is_business_day(d) == want);
        assert!(j.is_holiday(d) == !want);
    }
}
