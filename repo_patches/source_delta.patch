From 29ef176d9c021025a5d983eb567c5136da020e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:44 +0000
Subject: [PATCH 01/20] fix: Actual/365 (No Leap) December month offset is 334
 days

---
 src/time/daycounters/actual365fixed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time/daycounters/actual365fixed.rs b/src/time/daycounters/actual365fixed.rs
index 19057c6..e9896e8 100644
--- a/src/time/daycounters/actual365fixed.rs
+++ b/src/time/daycounters/actual365fixed.rs
@@ -21,7 +21,7 @@ impl Actual365Fixed {
     }
 
     fn nl_day_count(&self, d1: NaiveDate, d2: NaiveDate) -> i64 {
-        const MONTH_OFFSET: [i64; 12] = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 344];
+        const MONTH_OFFSET: [i64; 12] = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334];
         let mut s1 =
             d1.day() as i64 + MONTH_OFFSET[d1.month() as usize - 1usize] + (d1.year() as i64 * 365);
         let mut s2 =
-- 
2.43.0


From 51093d79f2f0cd68b8da39f3728be04b5c1fb5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:44 +0000
Subject: [PATCH 02/20] fix: Actual/Actual (ISDA) stub fractions had reversed
 signs

---
 src/time/daycounters/actualactual.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/time/daycounters/actualactual.rs b/src/time/daycounters/actualactual.rs
index c7ab213..a8534cb 100644
--- a/src/time/daycounters/actualactual.rs
+++ b/src/time/daycounters/actualactual.rs
@@ -19,14 +19,16 @@ impl ActualActual {
     fn isda_year_fraction(&self, d1: NaiveDate, d2: NaiveDate) -> f64 {
         if d1 == d2 {
             0f64
+        } else if d1 > d2 {
+            -self.isda_year_fraction(d2, d1)
         } else {
             let y1 = d1.year();
             let y2 = d2.year();
             let dib1 = if d1.leap_year() { 366f64 } else { 365f64 };
             let dib2 = if d2.leap_year() { 366f64 } else { 365f64 };
             let mut sum: f64 = (y2 - y1) as f64 - 1.0;
-            sum += (d1 - NaiveDate::from_ymd_opt(y1 + 1, 1, 1).unwrap()).num_days() as f64 / dib1;
-            sum += (NaiveDate::from_ymd_opt(y2, 1, 1).unwrap() - d2).num_days() as f64 / dib2;
+            sum += (NaiveDate::from_ymd_opt(y1 + 1, 1, 1).unwrap() - d1).num_days() as f64 / dib1;
+            sum += (d2 - NaiveDate::from_ymd_opt(y2, 1, 1).unwrap()).num_days() as f64 / dib2;
             sum
         }
     }
-- 
2.43.0


From 6fc127e2f70a645ca748dd971a2497f5d2a9d95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:44 +0000
Subject: [PATCH 03/20] fix: Actual/Actual (Euro) stub fraction had a reversed
 sign

---
 src/time/daycounters/actualactual.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/time/daycounters/actualactual.rs b/src/time/daycounters/actualactual.rs
index a8534cb..139ceb6 100644
--- a/src/time/daycounters/actualactual.rs
+++ b/src/time/daycounters/actualactual.rs
@@ -36,6 +36,8 @@ impl ActualActual {
     fn euro_year_fraction(&self, d1: NaiveDate, d2: NaiveDate) -> f64 {
         if d1 == d2 {
             0f64
+        } else if d1 > d2 {
+            -self.euro_year_fraction(d2, d1)
         } else {
             let mut new_d2 = d2;
             let mut temp = d2;
@@ -62,7 +64,7 @@ impl ActualActual {
                     den += 1.0;
                 }
             }
-            sum + (d1 - new_d2).num_days() as f64 / den
+            sum + (new_d2 - d1).num_days() as f64 / den
         }
     }
 }
-- 
2.43.0


From 125c10d8bcc11eebb4e355bb207443354397f8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:44 +0000
Subject: [PATCH 04/20] fix: Business/252 counted whole months up to the end
 date

---
 src/time/daycounters/business252.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/time/daycounters/business252.rs b/src/time/daycounters/business252.rs
index c6becb3..c42f4c1 100644
--- a/src/time/daycounters/business252.rs
+++ b/src/time/daycounters/business252.rs
@@ -27,8 +27,9 @@ impl DayCounters for Business252 {
             let mut d = (NaiveDate::from_ymd_opt(d1.year(), d1.month(), 1).unwrap() + Months(1))?;
             total += self.calendar.business_days_between(d1, d, None, None);
             while !self.same_month(d, d2) {
-                total += self.calendar.business_days_between(d, d2, None, None);
-                d = (d + Months(1))?;
+                let next = (d + Months(1))?;
+                total += self.calendar.business_days_between(d, next, None, None);
+                d = next;
             }
             total += self.calendar.business_days_between(d, d2, None, None);
             Ok(total)
-- 
2.43.0


From 788f9850011cb743089e5d8fa465c7103b1452ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:44 +0000
Subject: [PATCH 05/20] fix: IMM next date never advanced the month

---
 src/time/imm.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/time/imm.rs b/src/time/imm.rs
index 51a8856..bd344e8 100644
--- a/src/time/imm.rs
+++ b/src/time/imm.rs
@@ -131,8 +131,10 @@ impl IMM {
         let mut skip_months = offset - (date.month() % offset);
         if skip_months != offset || date.day() > 21 {
             skip_months += date.month();
-            if skip_months > 12 {
-                month -= 12;
+            if skip_months <= 12 {
+                month = skip_months;
+            } else {
+                month = skip_months - 12;
                 year += 1;
             }
         }
-- 
2.43.0


From 00b0869256b169b075164e20f5ec7e2d018ab97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:44 +0000
Subject: [PATCH 06/20] fix: IMM date panicked on lower-case codes it accepts
 as valid

---
 src/time/imm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time/imm.rs b/src/time/imm.rs
index bd344e8..e8d76c7 100644
--- a/src/time/imm.rs
+++ b/src/time/imm.rs
@@ -102,7 +102,7 @@ impl IMM {
             None
         } else {
             let ref_date = ref_date.unwrap_or(chrono::offset::Utc::now().date_naive());
-            let month = imm_code.chars().nth(0).unwrap();
+            let month = imm_code.chars().nth(0).unwrap().to_ascii_uppercase();
             let mut year = imm_code.chars().nth(1).unwrap().to_digit(10).unwrap() as i32;
             let imm_month = IMMMonth::from_str(&month.to_string()).unwrap() as u32;
             if year == 0 && ref_date.year() <= 1909 {
-- 
2.43.0


From e68c3bb0a27d5c1ba790ec699eb3be96914456bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:44 +0000
Subject: [PATCH 07/20] fix: IMM code check panicked on a two-byte single
 character

---
 src/time/imm.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/time/imm.rs b/src/time/imm.rs
index e8d76c7..d3c9b4e 100644
--- a/src/time/imm.rs
+++ b/src/time/imm.rs
@@ -54,10 +54,9 @@ impl IMM {
             return false;
         }
 
-        let imm_year = imm_code
-            .chars()
-            .nth(1)
-            .expect("already asserted length of 2");
+        let Some(imm_year) = imm_code.chars().nth(1) else {
+            return false;
+        };
 
         if !"0123456789".contains(imm_year) {
             return false;
-- 
2.43.0


From 7a2600be656447f68ec051e650c4af44b7658d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:44 +0000
Subject: [PATCH 08/20] fix: Nearest convention returned the holiday instead of
 the business day

---
 src/time/calendars.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/time/calendars.rs b/src/time/calendars.rs
index 9c81ad8..ce0bd3c 100644
--- a/src/time/calendars.rs
+++ b/src/time/calendars.rs
@@ -247,9 +247,9 @@ pub trait Calendar: Debug {
                 d2 -= ONE_DAY;
             }
             return if self.is_holiday(d1) {
-                Some(d1)
-            } else {
                 Some(d2)
+            } else {
+                Some(d1)
             };
         } else {
             return None;
-- 
2.43.0


From d94974546d2d14ef1968babbbed7343b95d1ffc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:44 +0000
Subject: [PATCH 09/20] fix: business_days_between inverted include_first and
 ran away on equal dates

---
 src/time/calendars.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/time/calendars.rs b/src/time/calendars.rs
index ce0bd3c..9d68b0a 100644
--- a/src/time/calendars.rs
+++ b/src/time/calendars.rs
@@ -323,11 +323,11 @@ pub trait Calendar: Debug {
         let include_last = include_last.unwrap_or(false);
         let mut day_count = 0;
         let day_diff = ((to + Duration::try_days(if include_last { 1 } else { 0 }).unwrap())
-            - (from + Duration::try_days(if include_first { 1 } else { 0 }).unwrap()))
+            - (from + Duration::try_days(if include_first { 0 } else { 1 }).unwrap()))
         .num_days();
-        for date in (from + Duration::try_days(if include_first { 1 } else { 0 }).unwrap())
+        for date in (from + Duration::try_days(if include_first { 0 } else { 1 }).unwrap())
             .iter_days()
-            .take(day_diff as usize)
+            .take(day_diff.max(0) as usize)
         {
             if self.is_business_day(date) {
                 day_count += 1;
-- 
2.43.0


From ec6322ec21ab33030582b5153ee5aae0989c8aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:44 +0000
Subject: [PATCH 10/20] fix: end-of-month rule applied to dates that are not at
 month end

---
 src/time/calendars.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/time/calendars.rs b/src/time/calendars.rs
index 9d68b0a..2a204cf 100644
--- a/src/time/calendars.rs
+++ b/src/time/calendars.rs
@@ -269,11 +269,19 @@ pub trait Calendar: Debug {
         match period {
             Period::Months(_) | Period::Years(_) => {
                 let advance_date = (date + period)?;
-                Ok(if end_of_month {
-                    Some(self.end_of_month(self.adjust(advance_date, bdc).unwrap()))
-                } else {
-                    self.adjust(advance_date, bdc)
-                })
+                Ok(
+                    if end_of_month && bdc == BusinessDayConvention::Unadjusted {
+                        if date == self.last_day_of_month(date) {
+                            Some(self.last_day_of_month(advance_date))
+                        } else {
+                            Some(advance_date)
+                        }
+                    } else if end_of_month && date >= self.end_of_month(date) {
+                        Some(self.end_of_month(advance_date))
+                    } else {
+                        self.adjust(advance_date, bdc)
+                    },
+                )
             }
             Period::Days(mut num) => {
                 let mut advance_date = date;
-- 
2.43.0


From 2d7c24f3a6a98fffee51d23efc15c6e09a3d97a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:44 +0000
Subject: [PATCH 11/20] fix: month-end cap moved short FX tenors before their
 near leg

---
 src/time/period.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/time/period.rs b/src/time/period.rs
index d2f0fe9..2e57487 100644
--- a/src/time/period.rs
+++ b/src/time/period.rs
@@ -55,7 +55,8 @@ impl Period {
     /// | rest  | T+2       | spot + tenor |
     ///
     /// The result is rolled forward to the next business day (following convention)
-    /// and capped at end-of-month when the unadjusted date falls on or after it.
+    /// and, for month and year tenors, capped at end-of-month when the unadjusted
+    /// date falls on or after it.
     ///
     /// For pairs with a non-standard spot lag (e.g. USDCAD at T+1), use
     /// `FXUnderlying::settlement_date` instead, which applies the pair's convention.
@@ -109,7 +110,11 @@ impl Period {
             _ => valuation_date + spot_offset,
         };
         let mut settlement_date = (target_date + *self)?;
-        if settlement_date >= calendar.end_of_month(settlement_date) {
+        // The end-of-month cap is a month-tenor rule: applied to day-count tenors it
+        // would settle them before their own near leg (or spot).
+        if matches!(self, Period::Months(_) | Period::Years(_))
+            && settlement_date >= calendar.end_of_month(settlement_date)
+        {
             settlement_date = calendar.end_of_month(settlement_date)
         }
         while !calendar.is_business_day(settlement_date) {
-- 
2.43.0


From 8c2292c20170432a81176ca6c4576d59aac69ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:44 +0000
Subject: [PATCH 12/20] fix: period arithmetic wrapped or panicked out of range
 instead of erring

---
 src/time/period.rs | 50 ++++++++++++++++++++++++----------------------
 1 file changed, 26 insertions(+), 24 deletions(-)

diff --git a/src/time/period.rs b/src/time/period.rs
index 2e57487..1d0c2ed 100644
--- a/src/time/period.rs
+++ b/src/time/period.rs
@@ -160,18 +160,19 @@ impl Add<Period> for NaiveDate {
             Period::TN => self + ONE_DAY,
             Period::SPOT => self,
             Period::SN => self + ONE_DAY,
-            Period::Days(num) => {
-                self + Duration::try_days(num).ok_or_else(|| {
-                    Error::PeriodOutOfBounds(format!("{num} days is out of bounds"))
-                })?
-            }
-            Period::Weeks(num) => {
-                self + Duration::try_days(num * 7).ok_or_else(|| {
-                    Error::PeriodOutOfBounds(format!("{num} weeks is out of bounds"))
-                })?
-            }
-            Period::Months(num) => self + Months::new(num),
-            Period::Years(num) => self + Months::new(num * 12),
+            Period::Days(num) => Duration::try_days(num)
+                .and_then(|days| self.checked_add_signed(days))
+                .ok_or_else(|| Error::PeriodOutOfBounds(format!("{num} days is out of bounds")))?,
+            Period::Weeks(num) => Duration::try_weeks(num)
+                .and_then(|weeks| self.checked_add_signed(weeks))
+                .ok_or_else(|| Error::PeriodOutOfBounds(format!("{num} weeks is out of bounds")))?,
+            Period::Months(num) => self.checked_add_months(Months::new(num)).ok_or_else(|| {
+                Error::PeriodOutOfBounds(format!("{num} months is out of bounds"))
+            })?,
+            Period::Years(num) => num
+                .checked_mul(12)
+                .and_then(|months| self.checked_add_months(Months::new(months)))
+                .ok_or_else(|| Error::PeriodOutOfBounds(format!("{num} years is out of bounds")))?,
         };
 
         Ok(date)
@@ -187,18 +188,19 @@ impl Sub<Period> for NaiveDate {
             Period::TN => self - ONE_DAY,
             Period::SPOT => self,
             Period::SN => self - ONE_DAY,
-            Period::Days(num) => {
-                self - Duration::try_days(num).ok_or_else(|| {
-                    Error::PeriodOutOfBounds(format!("{num} days is out of bounds"))
-                })?
-            }
-            Period::Weeks(num) => {
-                self - Duration::try_days(num * 7).ok_or_else(|| {
-                    Error::PeriodOutOfBounds(format!("{num} weeks is out of bounds"))
-                })?
-            }
-            Period::Months(num) => self - Months::new(num),
-            Period::Years(num) => self - Months::new(num * 12),
+            Period::Days(num) => Duration::try_days(num)
+                .and_then(|days| self.checked_sub_signed(days))
+                .ok_or_else(|| Error::PeriodOutOfBounds(format!("{num} days is out of bounds")))?,
+            Period::Weeks(num) => Duration::try_weeks(num)
+                .and_then(|weeks| self.checked_sub_signed(weeks))
+                .ok_or_else(|| Error::PeriodOutOfBounds(format!("{num} weeks is out of bounds")))?,
+            Period::Months(num) => self.checked_sub_months(Months::new(num)).ok_or_else(|| {
+                Error::PeriodOutOfBounds(format!("{num} months is out of bounds"))
+            })?,
+            Period::Years(num) => num
+                .checked_mul(12)
+                .and_then(|months| self.checked_sub_months(Months::new(months)))
+                .ok_or_else(|| Error::PeriodOutOfBounds(format!("{num} years is out of bounds")))?,
         };
 
         Ok(date)
-- 
2.43.0


From 40fffbcfbf7f9bcf85584f61afe9aa417278bef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:44 +0000
Subject: [PATCH 13/20] fix: Ukrainian Easter and Trinity follow the Orthodox
 computus

---
 src/time/calendars/ukraine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time/calendars/ukraine.rs b/src/time/calendars/ukraine.rs
index 789e73a..03745ab 100644
--- a/src/time/calendars/ukraine.rs
+++ b/src/time/calendars/ukraine.rs
@@ -12,7 +12,7 @@ pub struct Ukraine;
 impl Calendar for Ukraine {
     fn is_business_day(&self, date: NaiveDate) -> bool {
         let (d, w, m, y, dd) = self.naive_date_to_dkmy(date);
-        let em = self.easter_monday(y);
+        let em = self.orthodox_easter_monday(y);
         if self.is_weekend(date)
             // New Year's Day (possibly moved to Weekday::Mon)
             || ((d == 1 || ((d == 2 || d == 3) && w == Weekday::Mon))
-- 
2.43.0


From c7a6bbbd85dd99645c867e8a11fc71a74cd7b340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:15 +0000
Subject: [PATCH 14/20] fix: NYSE was open on the 2025-01-09 national day of
 mourning

---
 src/time/calendars/unitedstates.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/time/calendars/unitedstates.rs b/src/time/calendars/unitedstates.rs
index 79223ee..4f18838 100644
--- a/src/time/calendars/unitedstates.rs
+++ b/src/time/calendars/unitedstates.rs
@@ -154,8 +154,10 @@ impl UnitedStates {
 
         // Special closings
         if
-        // President Bush's Funeral
-        (y == 2018 && m == 12 && d == 5)
+        // President Carter's national day of mourning
+        (y == 2025 && m == 1 && d == 9)
+                // President Bush's Funeral
+                || (y == 2018 && m == 12 && d == 5)
                 // Hurricane Sandy
                 || (y == 2012 && m == 10 && (d == 29 || d == 30))
                 // President Ford's funeral
-- 
2.43.0


From 58209881bb3f86201eb1dc5759d8735e8c40f467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:58 +0000
Subject: [PATCH 15/20] fix: Japanese equinox holidays were wrong outside
 2014-2028

---
 src/time/calendars/japan.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/time/calendars/japan.rs b/src/time/calendars/japan.rs
index 0e3e8f5..44dde79 100644
--- a/src/time/calendars/japan.rs
+++ b/src/time/calendars/japan.rs
@@ -10,16 +10,19 @@ pub struct Japan;
 
 impl Japan {
     fn vernal_equinox_day(&self, y: i32) -> u32 {
-        match y {
-            2014 | 2015 | 2018 | 2019 | 2022 | 2023 | 2027 => 21,
-            _ => 20,
-        }
+        self.equinox_day(20_691_150, y)
     }
     fn autumnal_equinox_day(&self, y: i32) -> u32 {
-        match y {
-            2020 | 2024 | 2028 => 22,
-            _ => 23,
-        }
+        self.equinox_day(23_090_000, y)
+    }
+    /// Day of month of an equinox: the mean equinox of 2000 (in millionths of a
+    /// day) moved by the tropical-year excess, less the leap days since.
+    fn equinox_day(&self, equinox_of_2000: i64, y: i32) -> u32 {
+        const EXCESS_PER_YEAR: i64 = 242_194;
+        let years = y as i64 - 2000;
+        let moving_amount = years * EXCESS_PER_YEAR;
+        let leap_days = years.div_euclid(4) - years.div_euclid(100) + years.div_euclid(400);
+        ((equinox_of_2000 + moving_amount - leap_days * 1_000_000) / 1_000_000) as u32
     }
 }
 
-- 
2.43.0


From 6c5104754603bf1dadcce90526fe4bfc64021e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:37 +0000
Subject: [PATCH 16/20] verification hooks behind cfg(finquant_verif)

---
 src/lib.rs                             |  2 ++
 src/time/daycounters/actual365fixed.rs |  8 ++++++++
 src/time/daycounters/business252.rs    |  8 ++++++++
 src/time/period.rs                     | 22 ++++++++++++++++++++++
 4 files changed, 40 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 7552ef7..346be98 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,5 @@
+// `finquant_verif` guards verification hooks; it is never set by a normal build.
+#![allow(unexpected_cfgs)]
 extern crate strum;
 pub mod derivatives;
 pub mod error;
diff --git a/src/time/daycounters/actual365fixed.rs b/src/time/daycounters/actual365fixed.rs
index e9896e8..27dc0ec 100644
--- a/src/time/daycounters/actual365fixed.rs
+++ b/src/time/daycounters/actual365fixed.rs
@@ -36,6 +36,14 @@ impl Actual365Fixed {
     }
 }
 
+#[cfg(finquant_verif)]
+impl Actual365Fixed {
+    /// Verification hook: the market is otherwise only set by deserialisation.
+    pub fn verif_new(market: Option<Actual365FixedMarket>) -> Self {
+        Self { market }
+    }
+}
+
 #[typetag::serde]
 impl DayCounters for Actual365Fixed {
     fn day_count(&self, d1: NaiveDate, d2: NaiveDate) -> Result<i64> {
diff --git a/src/time/daycounters/business252.rs b/src/time/daycounters/business252.rs
index c42f4c1..e18ea38 100644
--- a/src/time/daycounters/business252.rs
+++ b/src/time/daycounters/business252.rs
@@ -17,6 +17,14 @@ impl Business252 {
     }
 }
 
+#[cfg(finquant_verif)]
+impl Business252 {
+    /// Verification hook: the calendar is otherwise only set by deserialisation.
+    pub fn verif_new(calendar: Box<dyn Calendar>) -> Self {
+        Self { calendar }
+    }
+}
+
 #[typetag::serde]
 impl DayCounters for Business252 {
     fn day_count(&self, d1: NaiveDate, d2: NaiveDate) -> Result<i64> {
diff --git a/src/time/period.rs b/src/time/period.rs
index 1d0c2ed..0d0d749 100644
--- a/src/time/period.rs
+++ b/src/time/period.rs
@@ -151,6 +151,28 @@ impl Period {
     }
 }
 
+#[cfg(finquant_verif)]
+impl Period {
+    /// Verification hooks: the lagged forms with a caller-supplied calendar.
+    pub fn verif_settlement_date(
+        &self,
+        valuation_date: NaiveDate,
+        calendar: &dyn Calendar,
+        spot_lag: i64,
+    ) -> Result<NaiveDate> {
+        self.settlement_date_with_lag(valuation_date, calendar, spot_lag)
+    }
+
+    pub fn verif_near_date(
+        &self,
+        valuation_date: NaiveDate,
+        calendar: &dyn Calendar,
+        spot_lag: i64,
+    ) -> Result<Option<NaiveDate>> {
+        self.near_date_with_lag(valuation_date, calendar, spot_lag)
+    }
+}
+
 impl Add<Period> for NaiveDate {
     type Output = Result<NaiveDate>;
 
-- 
2.43.0


From cdfcb350bae848df02426553e6870bcc4ff02f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:29 +0000
Subject: [PATCH 17/20] fix: yield curve: hold the last pillar's zero rate
 beyond it, not the first's

---
 src/markets/termstructures/yieldcurve.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/markets/termstructures/yieldcurve.rs b/src/markets/termstructures/yieldcurve.rs
index 4646b6a..d046da2 100644
--- a/src/markets/termstructures/yieldcurve.rs
+++ b/src/markets/termstructures/yieldcurve.rs
@@ -218,6 +218,11 @@ impl YieldTermStructure {
     }
     fn step_function_forward_zero_rate(&self, date: NaiveDate) -> f64 {
         let target_date = date + ONE_DAY;
+        let last = self.stripped_curves.last().unwrap();
+        if target_date > last.date {
+            // Flat extrapolation beyond the last pillar.
+            return last.zero_rate;
+        }
         let mut first = self.stripped_curves.first().unwrap();
         let mut second = self.stripped_curves.first().unwrap();
         let mut true_first = self.stripped_curves.first().unwrap();
-- 
2.43.0


From be9b141539e6a67bd7794ca39456f9aa8fe8b796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:49 +0000
Subject: [PATCH 18/20] fix: yield curve: ignore hidden pillars when
 interpolating

---
 src/markets/termstructures/yieldcurve.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/markets/termstructures/yieldcurve.rs b/src/markets/termstructures/yieldcurve.rs
index d046da2..e33d9a4 100644
--- a/src/markets/termstructures/yieldcurve.rs
+++ b/src/markets/termstructures/yieldcurve.rs
@@ -218,7 +218,8 @@ impl YieldTermStructure {
     }
     fn step_function_forward_zero_rate(&self, date: NaiveDate) -> f64 {
         let target_date = date + ONE_DAY;
-        let last = self.stripped_curves.last().unwrap();
+        let last_visible = self.stripped_curves.iter().rfind(|c| !c.hidden_pillar);
+        let last = last_visible.unwrap_or_else(|| self.stripped_curves.last().unwrap());
         if target_date > last.date {
             // Flat extrapolation beyond the last pillar.
             return last.zero_rate;
@@ -227,7 +228,10 @@ impl YieldTermStructure {
         let mut second = self.stripped_curves.first().unwrap();
         let mut true_first = self.stripped_curves.first().unwrap();
         for strip_curve in &self.stripped_curves {
-            if target_date <= strip_curve.date && !strip_curve.hidden_pillar {
+            if strip_curve.hidden_pillar {
+                continue;
+            }
+            if target_date <= strip_curve.date {
                 second = strip_curve;
                 break;
             }
-- 
2.43.0


From 93fa930f90be4e0f1c9746bb8cf22c6e2e0d94c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:49 +0000
Subject: [PATCH 19/20] fix: FxMarketContext::forward_at returns the outright
 forward, not the points

---
 src/markets/forex/market_context.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/markets/forex/market_context.rs b/src/markets/forex/market_context.rs
index 6e2f5c2..e149321 100644
--- a/src/markets/forex/market_context.rs
+++ b/src/markets/forex/market_context.rs
@@ -158,12 +158,19 @@ impl FxMarketContext {
     /// settlement calendar for the pair (typically the joint
     /// domestic/foreign calendar).
     pub fn forward_at(&self, date: NaiveDate, calendar: &dyn Calendar) -> Result<f64> {
-        self.forwards.get_forward(date, calendar)?.ok_or_else(|| {
+        let points = self.forwards.get_forward(date, calendar)?.ok_or_else(|| {
             Error::InvalidData(format!(
                 "FxMarketContext.forward_at({}): outside forward range ({} → ...)",
                 date, self.valuation_date,
             ))
-        })
+        })?;
+        // Points are quoted in pips: 1/100 when JPY is the quote currency, 1/10000 otherwise.
+        let pips = if self.pair.0 == Currency::JPY {
+            100.0
+        } else {
+            10_000.0
+        };
+        Ok(self.spot + points / pips)
     }
 
     /// Domestic zero rate via step-function-forward interpolation.
-- 
2.43.0


From b2bb0dbc21041c8dc12e9512d5ee8c8204cc3708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:37 +0000
Subject: [PATCH 20/20] fix: rate indices: AONIA fixes on Australian days, CDOR
 is a Canadian-dollar Act/365 rate

---
 src/markets/interestrate/interestrateindex.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/markets/interestrate/interestrateindex.rs b/src/markets/interestrate/interestrateindex.rs
index e0f24be..e8cff72 100644
--- a/src/markets/interestrate/interestrateindex.rs
+++ b/src/markets/interestrate/interestrateindex.rs
@@ -1,13 +1,13 @@
 use crate::time::businessdayconvention::BusinessDayConvention;
 use crate::time::calendars::unitedkingdom::UnitedKingdomMarket;
 use crate::time::calendars::unitedstates::UnitedStatesMarket;
-use crate::time::calendars::{Austria, Calendar, Target, UnitedKingdom, UnitedStates};
+use crate::time::calendars::{Australia, Calendar, Canada, Target, UnitedKingdom, UnitedStates};
 use crate::time::daycounters::DayCounters;
 use crate::time::daycounters::actual360::Actual360;
 use crate::time::daycounters::actual365fixed::Actual365Fixed;
 use crate::time::period::Period;
 use iso_currency::Currency;
-use iso_currency::Currency::{AUD, EUR, GBP, USD};
+use iso_currency::Currency::{AUD, CAD, EUR, GBP, USD};
 use serde::{Deserialize, Serialize};
 
 #[allow(clippy::upper_case_acronyms)]
@@ -41,7 +41,7 @@ impl InterestRateIndex {
                 period: Period::SPOT,
                 settlement_days: 0,
                 currency: AUD,
-                calendar: Box::<Austria>::default(),
+                calendar: Box::<Australia>::default(),
                 convention: BusinessDayConvention::ModifiedFollowing,
                 day_counter: Box::<Actual365Fixed>::default(),
                 end_of_month: false,
@@ -49,12 +49,10 @@ impl InterestRateIndex {
             InterestRateIndexEnum::CDOR(period) => Some(InterestRateIndex {
                 period,
                 settlement_days: 0,
-                currency: USD,
-                calendar: Box::new(UnitedStates {
-                    market: Some(UnitedStatesMarket::SOFR),
-                }),
+                currency: CAD,
+                calendar: Box::<Canada>::default(),
                 convention: BusinessDayConvention::ModifiedFollowing,
-                day_counter: Box::new(Actual360),
+                day_counter: Box::<Actual365Fixed>::default(),
                 end_of_month: false,
             }),
             InterestRateIndexEnum::EONIA => Some(InterestRateIndex {
-- 
2.43.0

