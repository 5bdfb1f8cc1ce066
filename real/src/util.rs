use chrono::{Duration, NaiveDate};
use finquant::markets::termstructures::yieldcurve::*;
use finquant::time::calendars::Target;
use finquant::time::daycounters::actual365fixed::Actual365Fixed;

/// Monday 8 January 2024.
pub fn val() -> NaiveDate { NaiveDate::from_ymd_opt(2024, 1, 8).unwrap() }
pub fn day(k: i64) -> NaiveDate { val() + Duration::days(k) }
pub fn yf(k: i64) -> f64 { crate::sym::num(k) / 365.0 }
pub const M: InterpolationMethodEnum = InterpolationMethodEnum::PiecewiseLinearContinuous;

pub fn pillar(k: i64, z: f64) -> StrippedCurve {
    StrippedCurve { first_settle_date: val(), date: day(k), market_rate: z, zero_rate: z, discount: 1.0, source: InterestRateQuoteEnum::OIS, hidden_pillar: false }
}
pub fn curve(pillars: &[(i64, f64)]) -> YieldTermStructure {
    YieldTermStructure::new(Box::new(Target), Box::<Actual365Fixed>::default(), val(), pillars.iter().map(|&(k, z)| pillar(k, z)).collect())
}
