//! IMM dates and codes.
use crate::fast;
use crate::{harnesses_fast, reach, show, sym};
use chrono::{Datelike, NaiveDate};
use finquant::time::imm::IMM;

/// day of the third Wednesday of a month
fn third_wednesday(y: i32, m: u32) -> u32 {
    let first = fast::from_ymd_opt(y, m, 1).unwrap();
    let w = fast::weekday(&first).num_days_from_monday(); // Wednesday = 2
    (if w <= 2 { 3 - w } else { 10 - w }) + 14
}
fn imm(y: i32, m: u32) -> NaiveDate { fast::from_ymd_opt(y, m, third_wednesday(y, m)).unwrap() }
fn is_imm(d: NaiveDate, main: bool) -> bool { let (m, k) = fast::md(d); k == third_wednesday(d.year(), m) && (!main || m % 3 == 0) }
fn next(main: bool) {
    let d = sym::date(1902, 2190);
    let r = IMM.next_date(d, main);
    // first cycle month from d's own on whose third Wednesday is later than d
    let (y, m) = (d.year(), fast::md(d).0);
    let step = if main { 3 } else { 1 };
    let m0 = if main { (m + 2) / 3 * 3 } else { m };
    let here = imm(y, m0);
    let w = if here > d { here } else if m0 + step > 12 { imm(y + 1, m0 + step - 12) } else { imm(y, m0 + step) };
    show!("next IMM date after {d} (main cycle {main}): {r}, by the rules {w}");
    reach!(r.year() > d.year());
    reach!(is_imm(d, main));
    assert!(r == w);
}
const LETTERS: [u8; 12] = *b"FGHJKMNQUVXZ";

harnesses_fast! {
    fn imm_next_main [4] { next(true) }
    fn imm_next_serial [4] { next(false) }
    fn imm_is_date [2] {
        let d = sym::date(1902, 2190);
        let main = sym::raw_bool();
        reach!(IMM.is_imm_date(d, true));
        reach!(IMM.is_imm_date(d, false) && !IMM.is_imm_date(d, true));
        assert!(IMM.is_imm_date(d, main) == is_imm(d, main));
    }
    #[cfg_attr(kani, kani::stub(str::contains, contains))]
    fn imm_code_check [4] {
        let (a, b) = (sym::raw_u8(), sym::raw_u8());
        sym::assume(a < 128 && b < 128);
        let main = sym::raw_bool();
        let s = unsafe { String::from_utf8_unchecked(vec![a, b]) };
        let up = a & !32;
        let letter = (a & 64 != 0) && (if main { up == b'H' || up == b'M' || up == b'U' || up == b'Z' } else {
            up >= b'F' && up <= b'Z' && up != b'I' && up != b'L' && up != b'O' && up != b'P' && up != b'R' && up != b'S' && up != b'T' && up != b'W' && up != b'Y' });
        show!("code {s:?} main cycle {main}");
        reach!(letter);
        assert!(IMM.is_imm_code(s, main) == (letter && b >= b'0' && b <= b'9'));
    }
    fn imm_code_of_date [16] {
        let d = sym::date(2000, 2060);
        let r = IMM.code(d);
        reach!(r.is_some());
        assert!(r.is_some() == is_imm(d, false));
        if let Some(s) = r {
            show!("code of {d}: {s}");
            let v = s.as_bytes();
            assert!(v.len() == 2 && v[0] == LETTERS[d.month() as usize - 1] && v[1] as i32 - 48 == d.year() % 10);
        }
    }
    #[cfg_attr(kani, kani::stub(str::contains, contains))]
    #[cfg_attr(kani, kani::stub(chrono::Utc::now, no_clock))]
    fn imm_date_of_code [4] {
        let r = sym::date(2000, 2060);
        let m = sym::u32_in(1, 12);
        let y = sym::u8_in(0, 9);
        let lower = sym::raw_bool();
        let s = unsafe { String::from_utf8_unchecked(vec![LETTERS[m as usize - 1] | if lower { 32 } else { 0 }, b'0' + y]) };
        show!("code {s} from {r}");
        let d = IMM.date(s, Some(r)).unwrap();
        // the first IMM date on or after the reference date in that month of a year ending in that digit
        let t = r.year() - r.year() % 10 + y as i32;
        let w = if imm(t, m) >= r { imm(t, m) } else { imm(t + 10, m) };
        show!("date {d}, by the rules {w}");
        reach!(d.year() > r.year() + 8);
        reach!(lower);
        assert!(d == w);
    }
}
/// the clock is read but, with a reference date given, never used
#[cfg(kani)]
fn no_clock() -> chrono::DateTime<chrono::Utc> { chrono::DateTime::UNIX_EPOCH }
/// `str::contains` for an ASCII char in an ASCII string, without the word-at-a-time search.
#[cfg(kani)]
fn contains<P: std::str::pattern::Pattern>(s: &str, p: P) -> bool {
    if std::mem::size_of::<P>() == 4 {
        let c: u32 = unsafe { std::mem::transmute_copy(&p) };
        let t = s.as_bytes();
        let at = |i: usize| i < t.len() && t[i] as u32 == c;
        if t.len() <= 26 {
            return at(0) || at(1) || at(2) || at(3) || at(4) || at(5) || at(6) || at(7) || at(8) || at(9) || at(10) || at(11) || at(12)
                || at(13) || at(14) || at(15) || at(16) || at(17) || at(18) || at(19) || at(20) || at(21) || at(22) || at(23) || at(24) || at(25);
        }
    }
    use std::str::pattern::Searcher;
    p.into_searcher(s).next_match().is_some()
}
