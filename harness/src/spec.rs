//! Independent statement of the published holiday rules. Nothing here calls
//! the library: a day is described by its civil coordinates and the offset
//! from Easter Monday (Gregorian, `e`; Julian/orthodox, `o`).
use chrono::{Datelike, NaiveDate};

pub const MON: u32 = 0;
pub const TUE: u32 = 1;
pub const WED: u32 = 2;
pub const THU: u32 = 3;
pub const FRI: u32 = 4;

/// Gregorian Easter Sunday (anonymous Gregorian computus) as day of March (1 = 1 March).
pub fn easter_sunday_march(y: i32) -> i32 {
    let a = y % 19;
    let b = y / 100;
    let c = y % 100;
    let d = b / 4;
    let e = b % 4;
    let f = (b + 8) / 25;
    let g = (b - f + 1) / 3;
    let h = (19 * a + b - d - g + 15) % 30;
    let i = c / 4;
    let k = c % 4;
    let l = (32 + 2 * e + 2 * i - h - k) % 7;
    let m = (a + 11 * h + 22 * l) / 451;
    let t = h + l - 7 * m + 114; // month = t/31, day = t%31 + 1
    let month = t / 31;
    let day = t % 31 + 1;
    if month == 3 { day } else { day + 31 }
}
/// Orthodox Easter Sunday (Meeus, Julian computus) as Gregorian day of March.
pub fn orthodox_sunday_march(y: i32) -> i32 {
    let a = y % 4;
    let b = y % 7;
    let c = y % 19;
    let d = (19 * c + 15) % 30;
    let e = (2 * a + 4 * b - d + 34) % 7;
    let t = d + e + 114;
    let month = t / 31;
    let day = t % 31 + 1;
    let julian = if month == 3 { day } else { day + 31 };
    julian + (y / 100 - y / 400 - 2)
}
pub fn leap(y: i32) -> bool { y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) }
/// Days before 1 March.
pub fn march0(y: i32) -> i32 { if leap(y) { 60 } else { 59 } }

/// Easter Monday as day of year, one entry per year 1901..=2199, computed by
/// the compiler from the computus above.
pub static EASTER: [u16; 299] = {
    let mut t = [0u16; 299];
    let mut i = 0;
    while i < 299 { t[i] = cmon(1901 + i as i32, false); i += 1; }
    t
};
pub static ORTHODOX: [u16; 299] = {
    let mut t = [0u16; 299];
    let mut i = 0;
    while i < 299 { t[i] = cmon(1901 + i as i32, true); i += 1; }
    t
};
const fn cmon(y: i32, orth: bool) -> u16 {
    let l = if y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) { 60 } else { 59 };
    let s = if orth {
        let c = y % 19;
        let d = (19 * c + 15) % 30;
        let e = (2 * (y % 4) + 4 * (y % 7) - d + 34) % 7;
        let t = d + e + 114;
        (if t / 31 == 3 { t % 31 + 1 } else { t % 31 + 32 }) + (y / 100 - y / 400 - 2)
    } else {
        let a = y % 19;
        let b = y / 100;
        let c = y % 100;
        let h = (19 * a + b - b / 4 - (b - (b + 8) / 25 + 1) / 3 + 15) % 30;
        let l = (32 + 2 * (b % 4) + 2 * (c / 4) - h - c % 4) % 7;
        let t = h + l - 7 * ((a + 11 * h + 22 * l) / 451) + 114;
        if t / 31 == 3 { t % 31 + 1 } else { t % 31 + 32 }
    };
    (l + s + 1) as u16
}

pub struct D { pub y: i32, pub m: u32, pub d: u32, pub w: u32, pub yd: i32, pub e: i32, pub o: i32, pub k: u32 }
impl D {
    pub fn new(x: NaiveDate) -> D {
        let (y, m, d) = (x.year(), x.month(), x.day());
        let yd = x.ordinal() as i32;
        let i = (y - 1901) as usize;
        D { y, m, d, w: x.weekday().num_days_from_monday(), yd, e: yd - EASTER[i] as i32, o: yd - ORTHODOX[i] as i32,
            k: (y as u32) * 10000 + m * 100 + d }
    }
    pub fn we(&self) -> bool { self.w >= 5 }
    /// month m, day d
    pub fn f(&self, m: u32, d: u32) -> bool { self.m == m && self.d == d }
    /// month m, days a..=b
    pub fn r(&self, m: u32, a: u32, b: u32) -> bool { self.m == m && self.d >= a && self.d <= b }
    /// n-th weekday w of month m
    pub fn nth(&self, n: u32, w: u32, m: u32) -> bool { self.w == w && self.r(m, 7 * n - 6, 7 * n) }
    /// last Monday of a 31-day month
    pub fn last_mon31(&self, m: u32) -> bool { self.w == MON && self.r(m, 25, 31) }
    /// fixed day, with the next Monday in lieu when it falls on Sunday
    pub fn sun(&self, m: u32, d: u32) -> bool { self.f(m, d) || (self.w == MON && self.f(m, d + 1)) }
    /// fixed day, with the next Monday in lieu when it falls on a weekend
    pub fn wk(&self, m: u32, d: u32) -> bool { self.f(m, d) || (self.w == MON && self.r(m, d + 1, d + 2)) }
    /// fixed day; Friday before when Saturday, Monday after when Sunday
    pub fn us(&self, m: u32, d: u32) -> bool { self.sun(m, d) || (self.w == FRI && self.f(m, d - 1)) }
    /// Christmas and Boxing Day with Monday/Tuesday substitutes
    pub fn xmas_uk(&self) -> bool {
        self.r(12, 25, 26) || ((self.w == MON || self.w == TUE) && self.r(12, 27, 28))
    }
    pub fn ge(&self, y: i32) -> bool { self.y >= y }
    pub fn le(&self, y: i32) -> bool { self.y <= y }
    pub fn is(&self, y: i32) -> bool { self.y == y }
}

pub fn weekends_only(x: &D) -> bool { x.we() }

// ---------------------------------------------------------------- euro area and western Europe
pub fn target(x: &D) -> bool {
    x.we() || x.f(1, 1) || x.f(12, 25)
        || (x.ge(2000) && (x.e == -3 || x.e == 0 || x.f(5, 1) || x.f(12, 26)))
        || (x.f(12, 31) && (x.is(1998) || x.is(1999) || x.is(2001)))
}
fn austria_nat(x: &D) -> bool { (x.f(10, 26) && x.ge(1967)) || (x.f(11, 12) && x.ge(1919) && x.le(1934)) }
pub fn austria_settlement(x: &D) -> bool {
    x.we() || x.f(1, 1) || x.f(1, 6) || x.e == 0 || x.e == 38 || x.e == 49 || x.e == 59 || x.f(5, 1) || x.f(8, 15)
        || austria_nat(x) || x.f(11, 1) || x.f(12, 8) || x.r(12, 25, 26)
}
pub fn austria_exchange(x: &D) -> bool {
    x.we() || x.f(1, 1) || x.e == -3 || x.e == 0 || x.e == 49 || x.f(5, 1) || austria_nat(x) || x.r(12, 24, 26) || x.f(12, 31)
}
pub fn france_settlement(x: &D) -> bool {
    x.we() || x.f(1, 1) || x.e == 0 || x.f(5, 1) || x.f(5, 8) || x.f(5, 10) || x.f(5, 21) || x.f(7, 14) || x.f(8, 15)
        || x.f(11, 1) || x.f(11, 11) || x.f(12, 25)
}
pub fn france_exchange(x: &D) -> bool {
    x.we() || x.f(1, 1) || x.e == -3 || x.e == 0 || x.f(5, 1) || x.r(12, 24, 26) || x.f(12, 31)
}
pub fn germany_settlement(x: &D) -> bool {
    x.we() || x.f(1, 1) || x.e == -3 || x.e == 0 || x.e == 38 || x.e == 49 || x.e == 59 || x.f(5, 1) || x.f(10, 3)
        || x.r(12, 24, 26)
}
pub fn germany_frankfurt(x: &D) -> bool {
    x.we() || x.f(1, 1) || x.e == -3 || x.e == 0 || x.f(5, 1) || x.r(12, 24, 26)
}
pub fn germany_eurex(x: &D) -> bool { germany_frankfurt(x) || x.f(12, 31) }
pub fn germany_euwax(x: &D) -> bool { germany_frankfurt(x) || x.e == 49 }
pub fn italy_settlement(x: &D) -> bool {
    x.we() || x.f(1, 1) || x.f(1, 6) || x.e == 0 || x.f(4, 25) || x.f(5, 1) || (x.f(6, 2) && x.ge(2000)) || x.f(8, 15)
        || x.f(11, 1) || x.f(12, 8) || x.r(12, 25, 26) || (x.f(12, 31) && x.is(1999))
}
pub fn italy_exchange(x: &D) -> bool {
    x.we() || x.f(1, 1) || x.e == -3 || x.e == 0 || x.f(5, 1) || x.f(8, 15) || x.r(12, 24, 26) || x.f(12, 31)
}
pub fn switzerland(x: &D) -> bool {
    x.we() || x.r(1, 1, 2) || x.e == -3 || x.e == 0 || x.e == 38 || x.e == 49 || x.f(5, 1) || x.f(8, 1) || x.r(12, 25, 26)
}
pub fn uk(x: &D) -> bool {
    let early_may = if x.is(1995) || x.is(2020) { x.f(5, 8) } else { x.nth(1, MON, 5) };
    let spring = match x.y {
        2002 => x.r(6, 3, 4),
        2012 => x.r(6, 4, 5),
        2022 => x.r(6, 2, 3),
        _ => x.last_mon31(5),
    };
    x.we() || x.wk(1, 1) || x.e == -3 || x.e == 0 || early_may || spring || x.last_mon31(8) || x.xmas_uk()
        || matches!(x.k, 20110429 | 20220919 | 20230508 | 19991231)
}

// ---------------------------------------------------------------- nordics, central and eastern Europe
pub fn denmark(x: &D) -> bool {
    x.we() || x.f(1, 1) || x.e == -4 || x.e == -3 || x.e == 0 || (x.e == 25 && x.le(2023)) || x.e == 38
        || (x.e == 39 && x.ge(2009)) || x.e == 49 || x.f(6, 5) || x.r(12, 24, 26) || x.f(12, 31)
}
fn midsummer_eve(x: &D) -> bool { x.w == FRI && x.r(6, 19, 25) }
pub fn finland(x: &D) -> bool {
    x.we() || x.f(1, 1) || x.f(1, 6) || x.e == -3 || x.e == 0 || x.e == 38 || x.f(5, 1) || midsummer_eve(x) || x.f(12, 6)
        || x.r(12, 24, 26)
}
pub fn iceland(x: &D) -> bool {
    x.we() || x.f(1, 1) || x.e == -4 || x.e == -3 || x.e == 0 || (x.w == THU && x.r(4, 19, 25)) || x.e == 38 || x.e == 49
        || x.f(5, 1) || x.f(6, 17) || x.nth(1, MON, 8) || x.r(12, 25, 26)
}
pub fn norway(x: &D) -> bool {
    x.we() || x.f(1, 1) || x.e == -4 || x.e == -3 || x.e == 0 || x.e == 38 || x.e == 49 || x.f(5, 1) || x.f(5, 17)
        || (x.f(12, 24) && x.ge(2002)) || x.r(12, 25, 26)
}
pub fn sweden(x: &D) -> bool {
    x.we() || x.f(1, 1) || x.f(1, 6) || x.e == -3 || x.e == 0 || x.e == 38 || (x.e == 49 && x.le(2004)) || x.f(5, 1)
        || (x.f(6, 6) && x.ge(2005)) || midsummer_eve(x) || x.r(12, 24, 26) || x.f(12, 31)
}
pub fn czech(x: &D) -> bool {
    x.we() || x.f(1, 1) || (x.e == -3 && x.ge(2016)) || x.e == 0 || x.f(5, 1) || x.f(5, 8) || x.r(7, 5, 6) || x.f(9, 28)
        || x.f(10, 28) || x.f(11, 17) || x.r(12, 24, 26) || x.k == 20040102 || x.k == 20041231
}
pub fn hungary(x: &D) -> bool {
    x.we() || x.f(1, 1) || (x.e == -3 && x.ge(2017)) || x.e == 0 || x.e == 49 || x.f(3, 15) || x.f(5, 1) || x.f(8, 20)
        || x.f(10, 23) || x.f(11, 1) || x.r(12, 25, 26)
}
pub fn poland_settlement(x: &D) -> bool {
    x.we() || x.f(1, 1) || (x.f(1, 6) && x.ge(2011)) || x.e == 0 || x.e == 59 || x.f(5, 1) || x.f(5, 3) || x.f(8, 15)
        || x.f(11, 1) || x.f(11, 11) || x.r(12, 25, 26)
}
pub fn poland_wse(x: &D) -> bool { poland_settlement(x) || x.f(12, 24) || x.f(12, 31) }
pub fn romania(x: &D) -> bool {
    x.we() || x.r(1, 1, 2) || x.f(1, 24) || x.o == 0 || x.f(5, 1) || x.o == 49 || (x.f(6, 1) && x.ge(2017)) || x.f(8, 15)
        || x.f(11, 30) || x.f(12, 1) || x.r(12, 25, 26)
}
pub fn russia_settlement(x: &D) -> bool {
    x.we() || (x.le(2005) && x.r(1, 1, 2)) || (x.ge(2005) && x.r(1, 1, 5)) || x.k == 20120106 || x.wk(1, 7) || x.wk(2, 23)
        || x.wk(3, 8) || x.wk(5, 1) || x.wk(5, 9) || x.wk(6, 12) || x.wk(11, 4)
        || matches!(x.k, 20170224 | 20170508 | 20171106 | 20180309 | 20180430 | 20180502 | 20180611 | 20181231
            | 20190502 | 20190503 | 20190509 | 20200330 | 20200331 | 20200401 | 20200402 | 20200403)
}
pub fn russia_exchange(x: &D) -> bool {
    if matches!(x.k, 20120311 | 20120428 | 20120505 | 20120512 | 20120609 | 20160220 | 20180428 | 20180609 | 20181229) {
        return false; // declared working weekends
    }
    x.we() || x.f(2, 23) || x.wk(3, 8) || x.f(5, 1) || x.wk(5, 9) || x.f(6, 12) || x.wk(11, 4) || x.f(12, 31)
        || matches!(x.k, 20120102 | 20120309 | 20120430 | 20120611
            | 20130101 | 20130102 | 20130103 | 20130104 | 20130107
            | 20140101 | 20140102 | 20140103 | 20140107
            | 20150101 | 20150102 | 20150107
            | 20160101 | 20160107 | 20160108 | 20160502 | 20160503 | 20160613 | 20161230
            | 20170102 | 20170508 | 20180101 | 20180102 | 20180108
            | 20190101 | 20190102 | 20190107
            | 20200101 | 20200102 | 20200107 | 20200224 | 20200624 | 20200701)
}
pub fn slovakia(x: &D) -> bool {
    x.we() || x.f(1, 1) || x.f(1, 6) || x.e == -3 || x.e == 0 || x.f(5, 1) || x.f(5, 8) || x.f(7, 5) || x.f(8, 29)
        || x.f(9, 1) || x.f(9, 15) || x.f(11, 1) || x.f(11, 17) || x.r(12, 24, 26)
        || (x.r(12, 24, 31) && x.ge(2004) && x.le(2005))
}
pub fn ukraine(x: &D) -> bool {
    x.we() || x.wk(1, 1) || x.wk(1, 7) || x.wk(3, 8) || x.o == 0 || x.o == 49 || x.r(5, 1, 2) || (x.w == MON && x.f(5, 3))
        || x.wk(5, 9) || x.f(6, 28) || x.f(8, 24) || (x.f(10, 14) && x.ge(2015))
}

// ---------------------------------------------------------------- Americas
pub fn argentina(x: &D) -> bool {
    x.we() || x.f(1, 1) || x.e == -4 || x.e == -3 || x.f(5, 1) || x.f(5, 25) || x.nth(3, MON, 6) || x.f(7, 9)
        || x.nth(3, MON, 8) || (x.w == MON && (x.r(10, 10, 12) || x.r(10, 15, 16))) || x.f(12, 8) || x.f(12, 24)
        || x.f(12, 31) || (x.f(12, 30) && x.w == FRI)
}
fn brazil_common(x: &D) -> bool {
    x.we() || x.f(1, 1) || x.e == -49 || x.e == -48 || x.e == -3 || x.f(4, 21) || x.f(5, 1) || x.e == 59 || x.f(9, 7)
        || x.f(10, 12) || x.f(11, 2) || x.f(11, 15) || x.f(12, 25)
}
pub fn brazil_settlement(x: &D) -> bool { brazil_common(x) || (x.f(11, 20) && x.ge(2024)) }
pub fn brazil_exchange(x: &D) -> bool {
    brazil_common(x) || (x.le(2021) && (x.f(1, 25) || x.f(7, 9)))
        || (x.f(11, 20) && x.ge(2007) && !x.is(2022) && !x.is(2023))
        || x.f(12, 24) || x.f(12, 31) || (x.w == FRI && x.r(12, 29, 30))
}
pub fn canada_tsx(x: &D) -> bool {
    x.we() || x.wk(1, 1) || (x.nth(3, MON, 2) && x.ge(2008)) || x.e == -3 || (x.w == MON && x.r(5, 18, 24)) || x.wk(7, 1)
        || x.nth(1, MON, 8) || x.nth(1, MON, 9)
        || (x.ge(2021) && (x.f(9, 30) || (x.w == MON && x.r(10, 1, 2)))) || x.nth(2, MON, 10) || x.xmas_uk()
}
pub fn canada_settlement(x: &D) -> bool { canada_tsx(x) || x.wk(11, 11) }
pub fn chile(x: &D) -> bool {
    x.we() || x.f(1, 1) || (x.f(1, 2) && x.w == MON && x.ge(2017)) || x.k == 20180116 || x.e == -3 || x.e == -2
        || x.k == 20170419 || x.f(5, 1) || x.f(5, 21)
        || (x.w == MON && (x.r(6, 26, 29) || x.f(7, 2))) || x.f(7, 16) || x.f(8, 15) || x.k == 20220916
        || (x.f(9, 17) && ((x.w == MON && x.ge(2007)) || (x.w == FRI && x.ge(2017)))) || x.r(9, 18, 19)
        || (x.f(9, 20) && x.w == FRI && x.ge(2007)) || (x.w == MON && (x.r(10, 9, 12) || x.f(10, 15)))
        || (x.ge(2008) && ((x.f(10, 27) && x.w == FRI) || (x.f(10, 31) && x.w != TUE && x.w != WED) || (x.f(11, 2) && x.w == FRI)))
        || x.f(11, 1) || x.f(12, 8) || x.f(12, 25) || x.f(12, 31)
        || (x.m == 6 && x.ge(2021) && x.d == CHILE_SOLSTICE[(x.y - 2021) as usize] as u32)
}
pub fn mexico(x: &D) -> bool {
    x.we() || x.f(1, 1)
        || (if x.ge(2006) { x.nth(1, MON, 2) || x.nth(3, MON, 3) || x.nth(3, MON, 11) } else { x.f(2, 5) || x.f(3, 21) || x.f(11, 20) })
        || x.e == -4 || x.e == -3 || x.f(5, 1) || x.f(9, 16) || (x.f(10, 1) && x.ge(2024) && (x.y - 2024) % 6 == 0)
        || x.f(11, 2) || x.f(12, 12) || x.f(12, 25)
}
fn washington(x: &D) -> bool { if x.ge(1971) { x.nth(3, MON, 2) } else { x.us(2, 22) } }
fn memorial(x: &D) -> bool { if x.ge(1971) { x.last_mon31(5) } else { x.us(5, 30) } }
fn labor(x: &D) -> bool { x.nth(1, MON, 9) }
fn columbus(x: &D) -> bool { x.nth(2, MON, 10) && x.ge(1971) }
fn juneteenth(x: &D) -> bool { x.us(6, 19) && x.ge(2022) }
fn thanksgiving(x: &D) -> bool { x.nth(4, THU, 11) }
fn veterans_moved(x: &D) -> bool { x.ge(1971) && x.le(1977) }
fn veterans(x: &D) -> bool { if veterans_moved(x) { x.nth(4, MON, 10) } else { x.us(11, 11) } }
fn veterans_no_sat(x: &D) -> bool { if veterans_moved(x) { x.nth(4, MON, 10) } else { x.sun(11, 11) } }
fn mlk(x: &D) -> bool { x.nth(3, MON, 1) }
pub fn us_settlement(x: &D) -> bool {
    x.we() || x.sun(1, 1) || (x.w == FRI && x.f(12, 31)) || (mlk(x) && x.ge(1983)) || washington(x) || memorial(x)
        || juneteenth(x) || x.us(7, 4) || labor(x) || columbus(x) || veterans(x) || thanksgiving(x) || x.us(12, 25)
}
pub fn us_libor(x: &D) -> bool {
    // since 2015 the Independence Day substitute is not observed
    if x.ge(2015) && x.us(7, 4) && !x.f(7, 4) { return false; }
    us_settlement(x)
}
pub fn us_nyse(x: &D) -> bool {
    let election = x.m == 11 && x.w == TUE && x.d <= 7 && (x.le(1968) || (x.le(1980) && x.y % 4 == 0));
    x.we() || x.sun(1, 1) || (mlk(x) && x.ge(1998)) || washington(x) || x.e == -3 || memorial(x) || juneteenth(x) || x.us(7, 4)
        || labor(x) || election || thanksgiving(x) || x.us(12, 25)
        || (x.is(1968) && x.w == WED && x.yd >= 163)
        || matches!(x.k, 20250109 | 20181205 | 20121029 | 20121030 | 20070102 | 20040611 | 20010911 | 20010912 | 20010913 | 20010914
            | 19940427 | 19850927 | 19770714 | 19730125 | 19721228 | 19690721 | 19690331 | 19690210 | 19680705 | 19680409
            | 19631125 | 19610529 | 19581226 | 19541224 | 19561224 | 19651224)
}
pub fn us_govbond(x: &D) -> bool {
    // Good Friday is only an early close when it coincides with the April NFP release (first Friday)
    let good_friday = x.e == -3 && (x.le(1995) || x.d > 7);
    x.we() || x.sun(1, 1) || (mlk(x) && x.ge(1983)) || washington(x) || good_friday || memorial(x) || juneteenth(x) || x.us(7, 4)
        || labor(x) || columbus(x) || veterans_no_sat(x) || thanksgiving(x) || x.us(12, 25)
        || matches!(x.k, 20181205 | 20250109 | 20121030 | 20040611)
}
pub fn us_sofr(x: &D) -> bool { x.e == -3 || us_govbond(x) }
pub fn us_nerc(x: &D) -> bool {
    x.we() || x.sun(1, 1) || memorial(x) || x.sun(7, 4) || labor(x) || thanksgiving(x) || x.sun(12, 25)
}
pub fn us_fed(x: &D) -> bool {
    x.we() || x.sun(1, 1) || (mlk(x) && x.ge(1983)) || washington(x) || memorial(x) || juneteenth(x) || x.sun(7, 4) || labor(x)
        || columbus(x) || veterans_no_sat(x) || thanksgiving(x) || x.sun(12, 25)
}

// ---------------------------------------------------------------- Asia-Pacific and Africa, rule based
pub fn australia_asx(x: &D) -> bool {
    x.we() || x.wk(1, 1) || x.wk(1, 26) || x.e == -3 || x.e == 0 || x.f(4, 25) || x.nth(2, MON, 6) || x.xmas_uk() || x.k == 20220922
}
pub fn australia_settlement(x: &D) -> bool { australia_asx(x) || x.nth(1, MON, 8) || x.nth(1, MON, 10) }
fn nz(x: &D) -> bool {
    let mt = x.w == MON || x.w == TUE;
    x.we() || x.r(1, 1, 2) || (mt && x.r(1, 3, 4)) || x.f(2, 6) || (x.ge(2014) && x.wk(2, 6)) || x.e == -3 || x.e == 0
        || x.f(4, 25) || (x.ge(2014) && x.wk(4, 25)) || x.nth(1, MON, 6) || x.nth(4, MON, 10) || x.xmas_uk()
        || matches!(x.k, 20220926
            // Matariki dates published for 2022-2052
            | 20220624 | 20230714 | 20240628 | 20250620 | 20260710 | 20270625 | 20280714 | 20290706 | 20300621 | 20310711
            | 20320702 | 20330624 | 20340707 | 20350629 | 20360718 | 20370710 | 20380625 | 20390715 | 20400706 | 20410719
            | 20420711 | 20430703 | 20440624 | 20450707 | 20460629 | 20470719 | 20480703 | 20490625 | 20500715 | 20510630 | 20520621)
}
pub fn nz_wellington(x: &D) -> bool { nz(x) || (x.w == MON && x.r(1, 19, 25)) }
pub fn nz_auckland(x: &D) -> bool { nz(x) || (x.w == MON && (x.r(1, 26, 31) || x.f(2, 1))) }
/// astronomical equinox approximation used for the Japanese almanac
/// Day of March / September of the equinox, from the mean equinox of 2000 (in
/// millionths of a day), the tropical-year excess and the leap days in between.
const fn equinox_day(y: i32, micro: i64) -> u8 {
    const fn c(y: i64) -> i64 { y / 4 - y / 100 + y / 400 }
    ((micro + 242_194 * (y - 2000) as i64 - 1_000_000 * (c(y as i64) - c(2000))) / 1_000_000) as u8
}
const fn equinoxes(micro: i64) -> [u8; 299] {
    let mut t = [0u8; 299];
    let mut i = 0;
    while i < 299 { t[i] = equinox_day(1901 + i as i32, micro); i += 1; }
    t
}
pub static VERNAL: [u8; 299] = equinoxes(20_691_150);
pub static AUTUMNAL: [u8; 299] = equinoxes(23_090_000);
pub fn japan(x: &D) -> bool {
    let ve = VERNAL[(x.y - 1901) as usize] as u32;
    let ae = AUTUMNAL[(x.y - 1901) as usize] as u32;
    let olympics = x.is(2020) || x.is(2021);
    let marine = if x.ge(2003) { !olympics && x.nth(3, MON, 7) } else { x.ge(1996) && x.sun(7, 20) };
    let sports = if x.ge(2000) { !olympics && x.nth(2, MON, 10) } else { x.sun(10, 10) };
    let aged = if x.ge(2003) { x.nth(3, MON, 9) } else { x.sun(9, 15) };
    x.we() || x.r(1, 1, 3) || (if x.ge(2000) { x.nth(2, MON, 1) } else { x.sun(1, 15) }) || x.sun(2, 11)
        || (x.sun(2, 23) && x.ge(2020)) || (x.sun(12, 23) && x.ge(1989) && x.le(2018)) || x.sun(3, ve) || x.sun(4, 29)
        || x.r(5, 3, 5) || (x.f(5, 6) && x.w <= WED) || marine || (x.ge(2016) && !olympics && x.sun(8, 11)) || aged
        || (x.ge(2003) && x.w == TUE && x.m == 9 && x.d + 1 == ae && x.d >= 16 && x.d <= 22) || x.sun(9, ae) || sports
        || x.sun(11, 3) || x.sun(11, 23) || x.f(12, 31)
        || matches!(x.k, 20200723 | 20210722 | 20200810 | 20210809 | 20200724 | 20210723
            | 19590410 | 19890224 | 19901112 | 19930609 | 20190430 | 20190501 | 20190502 | 20191022)
}
pub fn southafrica(x: &D) -> bool {
    x.we() || x.sun(1, 1) || x.e == -3 || x.e == 0 || x.sun(3, 21) || x.sun(4, 27) || x.sun(5, 1) || x.sun(6, 16) || x.sun(8, 9)
        || x.sun(9, 24) || x.sun(12, 16) || x.f(12, 25) || x.sun(12, 26)
        || matches!(x.k, 20040414 | 20090422 | 20160803 | 20211101 | 20221227 | 20231215 | 20240529)
}
pub fn botswana(x: &D) -> bool {
    let tue3 = x.d == 3 && x.w == TUE;
    x.we() || x.sun(1, 1) || (x.m == 1 && tue3) || x.e == -3 || x.e == 0 || x.sun(5, 1) || x.e == 38 || x.sun(7, 1)
        || x.nth(3, MON, 7) || x.f(9, 30) || x.sun(10, 1) || (x.m == 10 && tue3) || x.f(12, 25) || x.sun(12, 26)
}
pub fn singapore_rules(x: &D) -> bool {
    x.we() || x.sun(1, 1) || x.e == -3 || x.f(5, 1) || x.sun(8, 9) || x.f(12, 25)
}
pub fn china_rules(x: &D) -> bool {
    x.we() || x.f(1, 1) || (x.le(2007) && (x.r(5, 1, 7) || x.r(10, 1, 7))) || (x.le(2008) && (x.f(4, 4) || x.f(6, 9) || x.f(9, 15)))
}
pub fn taiwan_rules(x: &D) -> bool {
    x.we() || x.f(1, 1) || x.f(2, 28) || (x.f(4, 5) && !matches!(x.y, 2008 | 2009 | 2012 | 2017)) || x.f(5, 1) || x.f(10, 10)
}
pub fn india_rules(x: &D) -> bool {
    x.we() || x.f(1, 26) || x.e == -3 || x.f(4, 14) || x.f(5, 1) || x.f(8, 15) || x.f(10, 2) || x.f(12, 25)
}
pub fn indonesia_rules(x: &D) -> bool { x.we() || x.f(1, 1) || x.e == -3 || x.e == 38 || x.f(8, 17) || x.f(12, 25) }
pub fn turkey_rules(x: &D) -> bool {
    x.we() || x.f(1, 1) || x.f(4, 23) || x.f(5, 1) || x.f(5, 19) || (x.f(7, 15) && x.ge(2017)) || x.f(8, 30) || x.f(10, 29)
}
pub fn thailand_rules(x: &D) -> bool {
    x.we() || x.f(1, 1) || (x.w == MON && x.f(1, 3)) || x.wk(4, 6) || (!x.is(2020) && (x.r(4, 13, 15) || (x.f(4, 16) && x.w <= TUE)))
        || x.wk(5, 1) || (x.ge(2019) && (x.wk(5, 4) || x.wk(6, 3))) || (x.ge(2017) && (x.wk(7, 28) || x.wk(10, 13))) || x.wk(8, 12)
        || (x.wk(10, 23) && !x.is(2021)) || x.wk(12, 5) || x.wk(12, 10) || x.f(12, 31) || (x.w == MON && x.f(1, 2) && !x.is(2024))
}
pub fn korea_rules(x: &D) -> bool {
    x.we() || x.f(1, 1) || x.f(3, 1) || (x.wk(3, 1) && x.ge(2022)) || (x.f(4, 5) && x.le(2005)) || x.f(5, 1) || x.f(5, 5)
        || (x.wk(5, 5) && x.ge(2014)) || x.f(6, 6) || (x.f(7, 17) && x.le(2007)) || x.f(8, 15) || (x.wk(8, 15) && x.ge(2021))
        || x.f(10, 3) || (x.wk(10, 3) && x.ge(2021)) || x.f(12, 25) || (x.wk(12, 25) && x.ge(2023))
        || (x.f(10, 9) && x.ge(2013)) || (x.wk(10, 9) && x.ge(2021))
}
include!("tables.rs");
