//! Cheaper equivalents of chrono's date primitives, used under the solver only
//! in place of its 400- and 733-entry lookup tables. chrono is not the code
//! under test; the lemma harnesses below prove each one equal to the original
//! for every date of 1900..=2200 (outside, the substitutes panic).
use crate::{harnesses, reach, sym};
use chrono::{Datelike, Days, Months, NaiveDate, TimeDelta, Weekday};

pub const LO: i32 = 1900;
pub const HI: i32 = 2200;
fn raw(d: NaiveDate) -> i32 { unsafe { std::mem::transmute(d) } }
fn mk(y: i32, o: i32, f: i32) -> NaiveDate { unsafe { std::mem::transmute((y << 13) | (o << 4) | f) } }
pub fn year(d: NaiveDate) -> i32 { raw(d) >> 13 }
pub fn ord(d: NaiveDate) -> i32 { (raw(d) >> 4) & 511 }
pub fn leap(y: i32) -> bool { y & 3 == 0 && y != 1900 && y != 2100 && y != 2200 && y != 1800 }
pub fn len(y: i32) -> i32 { if leap(y) { 366 } else { 365 } }
fn range(y: i32) { if y < LO || y > HI { panic!("date substitute outside its range") } }
/// chrono's year flags: bit 3 set in common years, and (low bits + day of year) mod 7 is the weekday, Monday = 0
fn flags(y: i32) -> i32 {
    range(y);
    let t = (y - 1900) as u16; // days before Jan 1: 365 t + leap days, and 1900-01-01 was a Monday
    let mut leaps = if t == 0 { 0 } else { (t - 1) / 4 };
    if t > 200 { leaps -= 1 }
    let w = (t + leaps) % 7;
    (if leap(y) { 0 } else { 8 }) | if w <= 1 { w as i32 + 6 } else { w as i32 - 1 }
}
pub fn from_yo_opt(y: i32, o: u32) -> Option<NaiveDate> { if o == 0 || o > 366 { return None } let o = o as i32; if o > len(y) { return None } Some(mk(y, o, flags(y))) }
/// day of year before the first of month m
fn before(y: i32, m: u32) -> i32 {
    let b = match m { 1 => 0, 2 => 31, 3 => 59, 4 => 90, 5 => 120, 6 => 151, 7 => 181, 8 => 212, 9 => 243, 10 => 273, 11 => 304, _ => 334 };
    if m > 2 && leap(y) { b + 1 } else { b }
}
pub fn dim(y: i32, m: u32) -> u32 { match m { 2 => if leap(y) { 29 } else { 28 }, 4 | 6 | 9 | 11 => 30, _ => 31 } }
pub fn from_ymd_opt(y: i32, m: u32, d: u32) -> Option<NaiveDate> {
    if m == 0 || m > 12 || d == 0 || d > 31 { return None }
    if d > dim(y, m) { return None }
    Some(mk(y, before(y, m) + d as i32, flags(y)))
}
fn is_leap(d: NaiveDate) -> bool { raw(d) & 8 == 0 }
pub fn month(d: &NaiveDate) -> u32 { md(*d).0 }
pub fn day(d: &NaiveDate) -> u32 { md(*d).1 }
pub fn md(d: NaiveDate) -> (u32, u32) {
    let o = ord(d) as u32;
    if o <= 31 { return (1, o) }
    let l = is_leap(d) as u32;
    if o <= 59 + l { return (2, o - 31) }
    let n = o - l;
    if n <= 90 { (3, n - 59) } else if n <= 120 { (4, n - 90) } else if n <= 151 { (5, n - 120) } else if n <= 181 { (6, n - 151) }
    else if n <= 212 { (7, n - 181) } else if n <= 243 { (8, n - 212) } else if n <= 273 { (9, n - 243) } else if n <= 304 { (10, n - 273) }
    else if n <= 334 { (11, n - 304) } else { (12, n - 334) }
}
pub fn weekday(d: &NaiveDate) -> Weekday {
    match ((raw(*d) & 7) as u16 + ord(*d) as u16) % 7 {
        0 => Weekday::Mon, 1 => Weekday::Tue, 2 => Weekday::Wed, 3 => Weekday::Thu, 4 => Weekday::Fri, 5 => Weekday::Sat, _ => Weekday::Sun,
    }
}
fn next_flags(d: NaiveDate) -> i32 {
    let y = year(d);
    let mut w = (raw(d) & 7) + if leap(y) { 2 } else { 1 };
    if w > 7 { w -= 7 }
    (if leap(y + 1) { 0 } else { 8 }) | w
}
fn prev_flags(d: NaiveDate) -> i32 {
    let y = year(d);
    let mut w = (raw(d) & 7) - if leap(y - 1) { 2 } else { 1 };
    if w < 1 { w += 7 }
    (if leap(y - 1) { 0 } else { 8 }) | w
}
fn next_year(d: NaiveDate, o: i32) -> NaiveDate { range(year(d) + 1); mk(year(d) + 1, o, next_flags(d)) }
fn prev_year(d: NaiveDate, o: i32) -> NaiveDate { range(year(d) - 1); mk(year(d) - 1, o, prev_flags(d)) }
/// d shifted by n days; cheapest for |n| <= 365, then up to 800; anything further
/// is computed from a day count.
pub fn shift(d: NaiveDate, n: i64) -> Option<NaiveDate> {
    if n > 800 || n < -800 { return far_shift(d, n) }
    let (y, l, t) = (year(d), if is_leap(d) { 366 } else { 365 }, ord(d) + n as i32);
    if t >= 1 && t <= l { return Some(mk(y, t, raw(d) & 15)) }
    if t < 1 {
        let t = t + len(y - 1);
        if t >= 1 { return Some(prev_year(d, t)) }
        let e = prev_year(d, 1);
        let t = t + len(y - 2);
        if t >= 1 { return Some(prev_year(e, t)) }
        return Some(prev_year(prev_year(e, 1), t + len(y - 3)));
    }
    let t = t - l;
    if t <= len(y + 1) { return Some(next_year(d, t)) }
    let e = next_year(d, 1);
    let t = t - len(y + 1);
    if t <= len(y + 2) { return Some(next_year(e, t)) }
    Some(next_year(next_year(e, 1), t - len(y + 2)))
}
/// days from 1900-01-01 to Jan 1 of y
pub fn year_start(y: i32) -> i32 {
    let t = y - 1900;
    let mut leaps = if t <= 0 { 0 } else { (t - 1) as u16 as i32 / 4 };
    if t > 200 { leaps -= 1 }
    365 * t + leaps
}
pub fn day_number(d: NaiveDate) -> i32 { range(year(d)); year_start(year(d)) + ord(d) - 1 }
fn far_shift(d: NaiveDate, n: i64) -> Option<NaiveDate> {
    if n > 200_000_000 || n < -200_000_000 { return None } // chrono ends 95 million days away
    if n > 200_000 || n < -200_000 { panic!("date substitute outside its range") }
    let t = day_number(d) + n as i32;
    if t < 0 || t > year_start(2200) + 364 { panic!("date substitute outside its range") }
    // the estimate is never above the year and at most one below it
    let mut y = 1900 + (t as u32 / 366) as i32;
    if year_start(y + 1) <= t { y += 1 }
    Some(mk(y, t - year_start(y) + 1, flags(y)))
}
pub fn add_td(d: NaiveDate, r: TimeDelta) -> Option<NaiveDate> { shift(d, r.num_days()) }
pub fn sub_td(d: NaiveDate, r: TimeDelta) -> Option<NaiveDate> { shift(d, -r.num_days()) }
pub fn add_months(d: NaiveDate, k: Months) -> Option<NaiveDate> { months(d, k.as_u32() as i64) }
pub fn sub_months(d: NaiveDate, k: Months) -> Option<NaiveDate> { months(d, -(k.as_u32() as i64)) }
fn months(d: NaiveDate, k: i64) -> Option<NaiveDate> {
    if k > 3_200_000 || k < -3_200_000 { return None } // chrono's years end at -262143 and 262142
    if k > 3600 || k < -3600 { panic!("date substitute outside its range") }
    let (m, dd) = md(d);
    let t = (year(d) - 1900) * 12 + m as i32 - 1 + k as i32;
    if t < 0 { panic!("date substitute outside its range") }
    let t = t as u16;
    let (y, m) = (1900 + (t / 12) as i32, (t % 12) as u32 + 1);
    let l = dim(y, m);
    Some(mk(y, before(y, m) + if dd > l { l } else { dd } as i32, flags(y)))
}
pub fn since(a: NaiveDate, b: NaiveDate) -> TimeDelta {
    // nearby dates: no multiplication
    let (ya, yb) = (year(a), year(b));
    range(ya); range(yb);
    let near = if ya == yb { ord(a) - ord(b) } else if ya == yb + 1 { ord(a) + len(yb) - ord(b) } else if yb == ya + 1 { ord(a) - len(ya) - ord(b) } else { 1000 };
    if near >= -6 && near <= 6 { return TimeDelta::new(match near {
        0 => 0, 1 => 86_400, 2 => 172_800, 3 => 259_200, 4 => 345_600, 5 => 432_000, 6 => 518_400,
        -1 => -86_400, -2 => -172_800, -3 => -259_200, -4 => -345_600, -5 => -432_000, _ => -518_400 }, 0).unwrap() }
    TimeDelta::new((day_number(a) - day_number(b)) as i64 * 86400, 0).unwrap()
}
pub fn num_days(t: &TimeDelta) -> i64 {
    let s = t.num_seconds();
    match s {
        0 => return 0, 86_400 => return 1, 172_800 => return 2, 259_200 => return 3, 345_600 => return 4, 432_000 => return 5, 518_400 => return 6,
        -86_400 => return -1, -172_800 => return -2, -259_200 => return -3, -345_600 => return -4, -432_000 => return -5, -518_400 => return -6,
        _ => {}
    }
    if s > 40_000_000_000 || s < -40_000_000_000 { return s / 86_400 }
    let q = (s.unsigned_abs() >> 7) as u32 / 675; // 86_400 = 128 * 675
    if s < 0 { -(q as i64) } else { q as i64 }
}
/// Error messages are not part of any property.
pub fn no_text(_: std::fmt::Arguments<'_>) -> String { String::new() }

fn any() -> NaiveDate {
    let y = sym::i32_in(LO, HI);
    let o = sym::u32_in(1, 366);
    match NaiveDate::from_yo_opt(y, o) { Some(d) => d, None => { sym::assume(false); unreachable!() } }
}
fn inside(d: NaiveDate, n: i64) { let t = d.ordinal() as i64 + n; let y = d.year() as i64; sym::assume(y * 365 + t > 1903 * 365 && y * 365 + t < 2196 * 365) }

harnesses! {
    fn lemma_from_yo [2] {
        let (y, o) = (sym::i32_in(LO, HI), sym::raw_u32());
        reach!(o == 366);
        assert!(from_yo_opt(y, o) == NaiveDate::from_yo_opt(y, o));
    }
    fn lemma_from_ymd [2] {
        let (y, m, d) = (sym::i32_in(LO, HI), sym::raw_u32(), sym::raw_u32());
        reach!(m == 2 && d == 29);
        assert!(from_ymd_opt(y, m, d) == NaiveDate::from_ymd_opt(y, m, d));
    }
    fn lemma_fields [2] {
        let d = any();
        reach!(d.month() == 12 && d.leap_year());
        assert!(month(&d) == d.month() && day(&d) == d.day() && weekday(&d) == d.weekday());
        assert!(year(d) == d.year() && ord(d) == d.ordinal() as i32 && dim(d.year(), d.month()) >= d.day());
    }
    fn lemma_shift [2] {
        let d = any();
        let n = sym::int(-800, 800);
        inside(d, n);
        reach!(n == -800);
        let exact = if n >= 0 { d.checked_add_days(Days::new(n as u64)) } else { d.checked_sub_days(Days::new(-n as u64)) };
        assert!(shift(d, n) == exact);
    }
    fn lemma_far_shift [2] {
        let d = any();
        let n = sym::int(-100_000, 100_000);
        inside(d, n);
        reach!(n == -80_000);
        let exact = if n >= 0 { d.checked_add_days(Days::new(n as u64)) } else { d.checked_sub_days(Days::new(-n as u64)) };
        assert!(far_shift(d, n) == exact);
    }
    fn lemma_months [2] {
        let d = any();
        let k = sym::u32_in(0, 2400);
        let up = d.year() + k as i32 / 12 < 2199;
        sym::assume(up || d.year() - (k as i32 / 12) > 1901);
        reach!(up && k == 25);
        if up { assert!(add_months(d, Months::new(k)) == d.checked_add_months(Months::new(k))) }
        else { assert!(sub_months(d, Months::new(k)) == d.checked_sub_months(Months::new(k))) }
    }
    fn lemma_day_number [2] {
        let d = any();
        reach!(d.year() == 2199);
        assert!(day_number(d) == d.num_days_from_ce() - 693_596);
    }
    fn lemma_num_days [2] {
        let t = TimeDelta::new(sym::int(-50_000_000_000, 50_000_000_000), sym::u32_in(0, 999_999_999)).unwrap();
        reach!(t.num_days() == -4_000);
        assert!(num_days(&t) == t.num_days());
    }
    fn lemma_since [2] {
        let (a, b) = (any(), any());
        reach!(a < b);
        assert!(since(a, b) == a.signed_duration_since(b));
    }
}
