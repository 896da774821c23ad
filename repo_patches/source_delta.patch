From ed8ddfade52f9770cd6fbe01e8e46ba1147d380c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:15 +0000
Subject: [PATCH 01/25] hooks: access to private parts under --cfg
 momentous_verif

---
 src/lib.rs   |   5 ++
 src/verif.rs | 154 +++++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 159 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/lib.rs b/src/lib.rs
index e4b2eb8..72c7295 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)]
+
 pub use duration::{Duration, DurationNs128};
 pub use instant::{Instant, InstantNs128, InstantOutOfRange};
 pub use scale::{Nanoseconds, Scale};
@@ -13,6 +15,9 @@ mod least_common_width;
 mod period;
 mod scale;
 mod slice_cursor;
+#[cfg(momentous_verif)]
+#[doc(hidden)]
+pub mod verif;
 mod widen;
 mod zoneinfo;
 
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..6bc84ee
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,154 @@
+//! Access for the external verification harness to crate-private parts. Only compiled with
+//! `--cfg momentous_verif`; adds no behaviour.
+use std::num::NonZeroUsize;
+
+use crate::cursor::{Cursor, CursorPosition, CursorWithPosition};
+use crate::div_rem::{ClampedDivRem, DivRemCeil, MulDivRemCeil, MulDivRemFloor, RemFloor};
+use crate::gregorian_normalized_date::GregorianNormalizedDate;
+use crate::least_common_width::LeastCommonWidth;
+use crate::slice_cursor::SliceCursor;
+
+#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
+pub struct Date(GregorianNormalizedDate);
+
+impl Date {
+    pub const MIN_YEAR: i32 = GregorianNormalizedDate::MIN_YEAR;
+    pub const MAX_YEAR: i32 = GregorianNormalizedDate::MAX_YEAR;
+    pub const MIN_FIXED_DAY: i32 = GregorianNormalizedDate::MIN_FIXED_DAY;
+    pub const MAX_FIXED_DAY: i32 = GregorianNormalizedDate::MAX_FIXED_DAY;
+
+    pub fn from_day(day: i32) -> Option<Self> {
+        GregorianNormalizedDate::from_day(day).map(Date)
+    }
+    pub fn from_date(year: i32, month: u8, day: u8) -> Option<Self> {
+        GregorianNormalizedDate::from_date(year, month, day)
+            .ok()
+            .map(Date)
+    }
+    pub fn to_day(&self) -> i32 {
+        self.0.to_day()
+    }
+    pub fn to_date(&self) -> (u16, u8, u8) {
+        self.0.to_date()
+    }
+    pub fn year(&self) -> i32 {
+        self.0.unnormalized_year()
+    }
+    pub fn month(&self) -> u8 {
+        self.0.unnormalized_month()
+    }
+    pub fn day(&self) -> u8 {
+        self.0.unnormalized_day()
+    }
+    pub fn is_leap_year(&self) -> bool {
+        self.0.is_unnormalized_leap_year()
+    }
+    pub fn add_days(&mut self, days: i32) -> bool {
+        self.0.add_days(days).is_ok()
+    }
+}
+
+pub struct SliceWalker<'a>(SliceCursor<'a, u8>);
+
+#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
+pub enum Place {
+    Start,
+    At(usize),
+    End,
+}
+
+impl<'a> SliceWalker<'a> {
+    pub fn start(slice: &'a [u8]) -> Self {
+        SliceWalker(SliceCursor::at_start(slice))
+    }
+    pub fn end(slice: &'a [u8]) -> Self {
+        SliceWalker(SliceCursor::at_end(slice))
+    }
+    pub fn with_pos(slice: &'a [u8], pos: usize) -> Self {
+        SliceWalker(SliceCursor::with_pos(slice, pos))
+    }
+    pub fn next(&mut self) -> Option<u8> {
+        Cursor::next(&mut self.0).copied()
+    }
+    pub fn prev(&mut self) -> Option<u8> {
+        self.0.prev().copied()
+    }
+    pub fn advance_by(&mut self, n: usize) -> Result<(), NonZeroUsize> {
+        Cursor::advance_by(&mut self.0, n)
+    }
+    pub fn revert_by(&mut self, n: usize) -> Result<(), NonZeroUsize> {
+        self.0.revert_by(n)
+    }
+    pub fn current(&self) -> Option<u8> {
+        self.0.current().copied()
+    }
+    pub fn peek_next(&self) -> Option<u8> {
+        self.0.peek_next().copied()
+    }
+    pub fn peek_prev(&self) -> Option<u8> {
+        self.0.peek_prev().copied()
+    }
+    pub fn at_start(&self) -> bool {
+        Cursor::at_start(&self.0)
+    }
+    pub fn at_end(&self) -> bool {
+        Cursor::at_end(&self.0)
+    }
+    pub fn pos(&self) -> Place {
+        match self.0.pos() {
+            CursorPosition::Start => Place::Start,
+            CursorPosition::Pos(p) => Place::At(p),
+            CursorPosition::End => Place::End,
+        }
+    }
+    pub fn set_pos(&mut self, place: Place) {
+        self.0.set_pos(match place {
+            Place::Start => CursorPosition::Start,
+            Place::At(p) => CursorPosition::Pos(p),
+            Place::End => CursorPosition::End,
+        })
+    }
+}
+
+macro_rules! div_helpers {
+    ($($name:ident: $T:ty),*) => {
+        $(
+            pub mod $name {
+                use super::*;
+                pub fn rem_floor(a: $T, b: $T) -> $T {
+                    RemFloor::rem_floor(&a, b)
+                }
+                pub fn div_rem_ceil(a: $T, b: $T) -> ($T, $T) {
+                    DivRemCeil::div_rem_ceil(&a, &b)
+                }
+                pub fn mul_div_rem_floor(a: $T, b: $T, c: $T) -> ($T, $T) {
+                    MulDivRemFloor::mul_div_rem_floor(&a, b, c)
+                }
+                pub fn mul_div_rem_ceil(a: $T, b: $T, c: $T) -> ($T, $T) {
+                    MulDivRemCeil::mul_div_rem_ceil(&a, b, c)
+                }
+            }
+        )*
+    };
+}
+div_helpers!(i8s: i8, i16s: i16, i32s: i32, i64s: i64, i128s: i128, u8s: u8);
+
+pub fn clamped_u8(a: u8, b: u8, max: u8) -> (u8, u8) {
+    a.clamped_div_rem(b, max)
+}
+pub fn clamped_u16(a: u16, b: u16, max: u8) -> (u8, u16) {
+    a.clamped_div_rem(b, max)
+}
+pub fn clamped_u32(a: u32, b: u32, max: u16) -> (u16, u32) {
+    a.clamped_div_rem(b, max)
+}
+
+pub fn common_u8_i16(a: u8, b: i16) -> (i16, i16) {
+    a.least_common_width(b)
+}
+pub fn common_i16_u8(a: i16, b: u8) -> (i16, i16) {
+    a.least_common_width(b)
+}
+pub fn common_i8_i16(a: i8, b: i16) -> (i16, i16) {
+    a.least_common_width(b)
+}
-- 
2.43.0


From f3ea46c42bec8dc737f2fe87222b2dc14ed7ad4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:15 +0000
Subject: [PATCH 02/25] fix: clamp seconds that do not exist on the target day
 and report them as carry

The last day of a segment was never recognised, days outside the leap-second
table were never checked, and the clamped second and carry were off by one.
---
 src/iso8601/date_time.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/iso8601/date_time.rs b/src/iso8601/date_time.rs
index d7f4815..3f43fbd 100644
--- a/src/iso8601/date_time.rs
+++ b/src/iso8601/date_time.rs
@@ -602,20 +602,21 @@ impl DateTime {
         // we need a larger return type here, and probably some kind of fix to the logic.
         let leap_second_chronology = self.chronology.leap_seconds();
         let days_from_epoch = gnd.to_day();
-        if let SegmentLookupResult::In(segment) = leap_second_chronology.by_day(days_from_epoch) {
+        let day_length_s = if let SegmentLookupResult::In(segment) =
+            leap_second_chronology.by_day(days_from_epoch)
+        {
             let day_offset = (days_from_epoch - segment.start_day as i32) as u32;
-            let leap_seconds = if day_offset == segment.duration_days {
-                segment.leap_seconds
+            if day_offset == segment.duration_days - 1 {
+                (SECONDS_PER_DAY as i32 + segment.leap_seconds as i32) as u32
             } else {
-                0
-            };
-            let day_length_s = (SECONDS_PER_DAY as i32 + leap_seconds as i32) as u32;
-            if second >= day_length_s {
-                let second_carry = second - day_length_s;
-                (day_length_s, second_carry)
-            } else {
-                (second, 0)
+                SECONDS_PER_DAY
             }
+        } else {
+            SECONDS_PER_DAY
+        };
+        let max_second = day_length_s - 1;
+        if second > max_second {
+            (max_second, second - max_second)
         } else {
             (second, 0)
         }
-- 
2.43.0


From 6151448c91716187d223b25601e6dfc7c5dd5ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:15 +0000
Subject: [PATCH 03/25] fix: refuse out-of-range minute counts instead of
 overflowing or wrapping around

---
 src/iso8601/date_time.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iso8601/date_time.rs b/src/iso8601/date_time.rs
index 3f43fbd..ecf5b5f 100644
--- a/src/iso8601/date_time.rs
+++ b/src/iso8601/date_time.rs
@@ -418,8 +418,8 @@ impl DateTime {
             second_of_day.clamped_div_rem(MINUTES_PER_HOUR as u32, MINUTES_PER_DAY - 1);
         let second_of_minute = second_of_minute as u8;
         let (day_delta, minute) =
-            (minute as i64 + minutes).div_mod_floor(&(MINUTES_PER_DAY as i64));
-        let (day_delta, minute) = (day_delta as i32, minute as u16);
+            (minute as i64).checked_add(minutes)?.div_mod_floor(&(MINUTES_PER_DAY as i64));
+        let (day_delta, minute) = (i32::try_from(day_delta).ok()?, minute as u16);
         gnd.add_days(day_delta).ok()?;
         if !is_in_range(&gnd) {
             return None;
-- 
2.43.0


From 9368278f8d34160239da374a88db9e21a15fdc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:15 +0000
Subject: [PATCH 04/25] fix: refuse day counts of more than 127 cycles instead
 of wrapping around

---
 src/gregorian_normalized_date.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gregorian_normalized_date.rs b/src/gregorian_normalized_date.rs
index ea30dae..10a7539 100644
--- a/src/gregorian_normalized_date.rs
+++ b/src/gregorian_normalized_date.rs
@@ -398,9 +398,10 @@ impl GregorianNormalizedDate {
             .ok_or(OutOfBounds)?;
 
         let (cycles, day) = day.div_mod_floor(&(GREGORIAN_CYCLE_DAYS as i32));
+        let cycles = i8::try_from(cycles).map_err(|_| OutOfBounds)?;
         let (century, quadrennium, year, day) = decompose_day_of_cycle(day as u32);
 
-        self.cycle = self.cycle.checked_add(cycles as i8).ok_or(OutOfBounds)?;
+        self.cycle = self.cycle.checked_add(cycles).ok_or(OutOfBounds)?;
         self.century = century;
         self.quadrennium = quadrennium;
         self.year = year;
-- 
2.43.0


From 6667951525a1dc2891e1dc4ff4842e784de7b8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:15 +0000
Subject: [PATCH 05/25] fix: refuse year and month counts beyond the date range
 instead of overflowing or wrapping around

---
 src/iso8601/date_time.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/iso8601/date_time.rs b/src/iso8601/date_time.rs
index ecf5b5f..4910c8a 100644
--- a/src/iso8601/date_time.rs
+++ b/src/iso8601/date_time.rs
@@ -320,6 +320,10 @@ impl DateTime {
     }
 
     pub fn checked_add_years(&self, years: i16) -> Option<DateTimeWithCarry> {
+        // Larger counts are out of range from any year, and the arithmetic is not made for them.
+        if years.unsigned_abs() > MAX_YEAR - MIN_YEAR {
+            return None;
+        }
         let (precision, mut gnd, second, nanosecond) = Self::unpack0(self.w0);
         let day_carry = gnd.add_years(years);
         if !is_in_range(&gnd) {
@@ -347,6 +351,10 @@ impl DateTime {
     }
 
     pub fn checked_add_months(&self, months: i32) -> Option<DateTimeWithCarry> {
+        // Larger counts are out of range from any month, and the arithmetic is not made for them.
+        if months.unsigned_abs() > (MAX_YEAR - MIN_YEAR) as u32 * 12 + 11 {
+            return None;
+        }
         let (precision, mut gnd, second, nanosecond) = Self::unpack0(self.w0);
         let day_carry = gnd.add_months(months);
         if !is_in_range(&gnd) {
-- 
2.43.0


From 0f73fa4fc44089734ff637bc24f274e3f8bd1688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:15 +0000
Subject: [PATCH 06/25] fix: report day 0 as an invalid date instead of
 panicking

---
 src/gregorian_normalized_date.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gregorian_normalized_date.rs b/src/gregorian_normalized_date.rs
index 10a7539..84a19e6 100644
--- a/src/gregorian_normalized_date.rs
+++ b/src/gregorian_normalized_date.rs
@@ -198,7 +198,7 @@ impl GregorianNormalizedDate {
         if !(Self::MIN_YEAR..=Self::MAX_YEAR).contains(&year) {
             return Err(Error::DateOutOfBounds);
         }
-        if !(1..=12).contains(&month) {
+        if !(1..=12).contains(&month) || day == 0 {
             return Err(Error::InvalidDate);
         }
 
-- 
2.43.0


From 4ed532699987318e85376a1b7d0e1474985c0e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:15 +0000
Subject: [PATCH 07/25] fix: let date-times with year or month precision be
 built

Months and days count from 1, so the default 0 was always refused.
---
 src/iso8601/date_time_builder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iso8601/date_time_builder.rs b/src/iso8601/date_time_builder.rs
index a41990b..37291c8 100644
--- a/src/iso8601/date_time_builder.rs
+++ b/src/iso8601/date_time_builder.rs
@@ -141,12 +141,12 @@ impl DateTimeBuilder {
         let month = if precision >= Precision::Months {
             self.month.expect("No month provided")
         } else {
-            0
+            1
         };
         let day = if precision >= Precision::Days {
             self.day.expect("No day provided")
         } else {
-            0
+            1
         };
         let hour = if precision >= Precision::Hours {
             self.hour.expect("No hour provided")
-- 
2.43.0


From 6d9369ab3b43aee8b10693bcf29c26f651a36969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:15 +0000
Subject: [PATCH 08/25] fix: store all bits of second, precision and nanosecond

The upper bits of the nanosecond were shifted out of the word, and the top bit
of the second landed outside its field, so different date-times compared equal.
---
 src/iso8601/date_time.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/iso8601/date_time.rs b/src/iso8601/date_time.rs
index 4910c8a..521cbd9 100644
--- a/src/iso8601/date_time.rs
+++ b/src/iso8601/date_time.rs
@@ -176,9 +176,9 @@ impl DateTime {
         let year = gnd.year;
         let day = gnd.day;
         let rebased_cycle = cycle as i32 + 6;
-        ((nanosecond & 0x7FFF0000) as u64) << 48
+        ((nanosecond & 0x3FFF0000) as u64) << 32
             | (p as u64) << 41
-            | ((second & 0x10000) as u64) << 40
+            | ((second & 0x10000) as u64) << 24
             | ((rebased_cycle & 0x1F) as u64) << 35
             | ((century & 0x3) as u64) << 33
             | ((quadrennium & 0x1F) as u64) << 27
@@ -194,9 +194,9 @@ impl DateTime {
         let quadrennium = ((w0 >> 27) & 0x1F) as u8;
         let century = ((w0 >> 33) & 0x3) as u8;
         let cycle = ((w0 >> 35) & 0x1F) as i8 - 6;
-        let second = ((w0 >> 40) & 0x10000) as u32 | lower_second;
-        let precision = Self::decode_precision((w0 >> 41) as u8);
-        let nanosecond = ((w0 >> 48) & 0x7FFF0000) as u32;
+        let second = ((w0 >> 24) & 0x10000) as u32 | lower_second;
+        let precision = Self::decode_precision(((w0 >> 41) & 0xF) as u8);
+        let nanosecond = ((w0 >> 32) & 0x3FFF0000) as u32;
         let gnd = GregorianNormalizedDate {
             cycle,
             century,
-- 
2.43.0


From 49d45e73e0b41c272543e45c514ce654885940f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:15 +0000
Subject: [PATCH 09/25] fix: convert the sub-second part of system times before
 the epoch

---
 src/instant.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/instant.rs b/src/instant.rs
index 16dde7c..ed56f46 100644
--- a/src/instant.rs
+++ b/src/instant.rs
@@ -363,10 +363,16 @@ fn system_time_to_time_t(value: SystemTime) -> (libc::time_t, u32) {
     }
     .unwrap();
     let mut seconds = duration.as_secs() as i64;
+    let mut subsec_nanos = duration.subsec_nanos();
     if sign {
         seconds = -seconds;
+        if subsec_nanos > 0 {
+            // The sub-second part counts forwards from the whole second before.
+            seconds -= 1;
+            subsec_nanos = 1_000_000_000 - subsec_nanos;
+        }
     }
-    (seconds, duration.subsec_nanos())
+    (seconds, subsec_nanos)
 }
 
 /// Return true if the system time includes leap seconds.
-- 
2.43.0


From 91f6d35e5c7292750eef1ab6ba47f0dae458686a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:15 +0000
Subject: [PATCH 10/25] fix: count the last leap second for system times after
 it

---
 src/zoneinfo.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/zoneinfo.rs b/src/zoneinfo.rs
index ffa8a74..641b298 100644
--- a/src/zoneinfo.rs
+++ b/src/zoneinfo.rs
@@ -235,10 +235,15 @@ pub(crate) fn get_leap_second_adjustment_for_unix_timestamp(unix_timestamp: i64)
     let utc = iso8601::load_chronology("UTC");
     let leap_seconds = utc.leap_seconds();
 
-    let day = (unix_timestamp / 86_400) as i32;
+    // Any day outside the range of the table will do for time stamps whose day does not fit an i32.
+    let day = unix_timestamp
+        .div_euclid(86_400)
+        .clamp(i32::MIN as i64, i32::MAX as i64) as i32;
     match leap_seconds.by_day(day) {
         SegmentLookupResult::BeforeFirst(_) => 0,
         SegmentLookupResult::In(segment) => segment.accumulated_leap_seconds,
-        SegmentLookupResult::AfterLast(last_segment) => last_segment.accumulated_leap_seconds,
+        SegmentLookupResult::AfterLast(last_segment) => {
+            last_segment.accumulated_leap_seconds + last_segment.leap_seconds as i32
+        }
     }
 }
-- 
2.43.0


From 699a56df927e4eeccfe5ced5e392ac84feb4da65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:20 +0000
Subject: [PATCH 11/25] fix: compare instants of different scales by the moment
 they denote

The wrong side was scaled, and scaling overflowed for large tick counts.
---
 src/instant.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/instant.rs b/src/instant.rs
index ed56f46..1ed2adb 100644
--- a/src/instant.rs
+++ b/src/instant.rs
@@ -222,15 +222,17 @@ where
         //
         // If s1 < s2 then this can be rewritten as
         //
-        // t1 == t2*s2/s1.
+        // t1 == t2/(s2/s1).
         //
         // If s1 > s2, it can be rewritten as
         //
-        // t1*s1/s2 == t2.
+        // t1/(s1/s2) == t2.
         //
         // If s1 == s2, then it simplifies to
         //
         // t1 == t2.
+        //
+        // Only the finer side is divided, since multiplying could overflow.
         let t1 = self.ticks;
         let s1 = S1::TICKS_PER_SECOND;
         let t2 = other.ticks;
@@ -239,12 +241,14 @@ where
             std::cmp::Ordering::Less => {
                 let factor =
                     T2::from(s2 / s1).expect("scale conversion factor is too large for type T2");
-                t1.num_eq(t2 * factor)
+                let (t2, rest) = t2.div_mod_floor(&factor);
+                rest.is_zero() && t1.num_eq(t2)
             }
             std::cmp::Ordering::Greater => {
                 let factor =
                     T1::from(s1 / s2).expect("scale conversion factor is too large for type T1");
-                (t1 * factor).num_eq(t2)
+                let (t1, rest) = t1.div_mod_floor(&factor);
+                rest.is_zero() && t1.num_eq(t2)
             }
             std::cmp::Ordering::Equal => t1.num_eq(t2),
         }
@@ -290,6 +294,8 @@ where
         //
         // t1*s2 < t2*s1
         //
+        // The finer side is divided, and whatever is left of it after its whole coarser ticks
+        // makes it greater than them.
         let t1 = self.ticks;
         let s1 = S1::TICKS_PER_SECOND;
         let t2 = other.ticks;
@@ -298,12 +304,16 @@ where
             std::cmp::Ordering::Less => {
                 let factor =
                     T2::from(s2 / s1).expect("scale conversion factor is too large for type T2");
-                t1.num_cmp(t2 * factor)
+                let (t2, rest) = t2.div_mod_floor(&factor);
+                let ordering = t1.num_cmp(t2)?;
+                Some(ordering.then(T2::zero().cmp(&rest)))
             }
             std::cmp::Ordering::Greater => {
                 let factor =
                     T1::from(s1 / s2).expect("scale conversion factor is too large for type T1");
-                (t1 * factor).num_cmp(t2)
+                let (t1, rest) = t1.div_mod_floor(&factor);
+                let ordering = t1.num_cmp(t2)?;
+                Some(ordering.then(rest.cmp(&T1::zero())))
             }
             std::cmp::Ordering::Equal => t1.num_cmp(t2),
         }
-- 
2.43.0


From 3b1097d8ff976c8b2a95136bf6ebbeda7586c142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:20 +0000
Subject: [PATCH 12/25] fix: floor negative durations instead of truncating
 them

---
 src/duration.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/duration.rs b/src/duration.rs
index 5082602..d5035a8 100644
--- a/src/duration.rs
+++ b/src/duration.rs
@@ -114,7 +114,7 @@ impl<T: Tick, S: Scale> Duration<T, S> {
             "Cannot floor to a higher scale"
         );
         let factor = T::from(S::TICKS_PER_SECOND).unwrap() / T::from(S2::TICKS_PER_SECOND).unwrap();
-        Duration::new(self.ticks / factor)
+        Duration::new(self.ticks.div_floor(&factor))
     }
 
     pub fn extend<S2: Scale>(&self) -> Option<Duration<T, S2>> {
-- 
2.43.0


From e082cafbb96eee47055ed9a9ceb7436f96b0995f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:20 +0000
Subject: [PATCH 13/25] fix: refuse seconds that lead to the minimum i64
 instant instead of panicking

---
 src/iso8601/date_time.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/iso8601/date_time.rs b/src/iso8601/date_time.rs
index 521cbd9..a71ea5d 100644
--- a/src/iso8601/date_time.rs
+++ b/src/iso8601/date_time.rs
@@ -582,8 +582,9 @@ impl DateTime {
                 Some((gnd, second))
             }
             SegmentLookupResult::BeforeFirst(first_segment) => {
+                let first_segment_start = first_segment.start_instant.ticks_since_epoch() as i64;
                 let seconds_until_first_segment =
-                    (first_segment.start_instant.into() - instant).ticks() as u64;
+                    first_segment_start.checked_sub(instant.ticks_since_epoch())? as u64;
                 // When seconds_until_first_segment is 1, we want to end up subtracting 1 day and
                 // setting the second to 86399. Simply dividing by SECONDS_PER_DAY will give us 0 days.
                 // It's essentially a division that rounds up.
-- 
2.43.0


From 55e67022a6bf2869d4bddef190e8f791c6306e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:20 +0000
Subject: [PATCH 14/25] fix: let a cursor that is already at the end be moved
 further by zero elements

---
 src/slice_cursor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/slice_cursor.rs b/src/slice_cursor.rs
index beb2bd0..3e66616 100644
--- a/src/slice_cursor.rs
+++ b/src/slice_cursor.rs
@@ -57,7 +57,7 @@ impl<'a, T> Cursor for SliceCursor<'a, T> {
         }
     }
     fn advance_by(&mut self, n: usize) -> Result<(), NonZeroUsize> {
-        let remaining = self.slice.len() - self.pos;
+        let remaining = self.slice.len().saturating_sub(self.pos);
         let advance = min(n, remaining);
         self.pos += advance;
         let n = n - advance;
@@ -106,7 +106,7 @@ impl<'a, T> Cursor for SliceCursor<'a, T> {
     }
 
     fn revert_by(&mut self, n: usize) -> Result<(), NonZeroUsize> {
-        let remaining = self.pos - 1;
+        let remaining = self.pos.saturating_sub(1);
         let revert = min(n, remaining);
         self.pos -= revert;
         let n = n - revert;
-- 
2.43.0


From 3602d77584472176164dc8fa56e07d70e9a96a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:20 +0000
Subject: [PATCH 15/25] fix: make ceiling division round up

---
 src/div_rem.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/div_rem.rs b/src/div_rem.rs
index 0d47546..4ea9723 100644
--- a/src/div_rem.rs
+++ b/src/div_rem.rs
@@ -50,14 +50,12 @@ impl<T: Integer + Copy> DivRemCeil for T {
     fn div_rem_ceil(&self, other: &Self) -> (Self, Self) {
         let zero = Self::zero();
         let one = Self::one();
-        if *self > zero && *other < zero {
-            let (q, r) = (*self - one).div_rem(other);
-            (q - one, r + *other - one)
-        } else if *self < zero && *other > zero {
-            let (q, r) = (*self + one).div_rem(other);
-            (q - one, r + *other + one)
+        let (q, r) = (*self).div_rem(other);
+        if (r > zero && *other > zero) || (r < zero && *other < zero) {
+            // The quotient is positive and was rounded towards zero.
+            (q + one, r - *other)
         } else {
-            (*self).div_rem(other)
+            (q, r)
         }
     }
 }
-- 
2.43.0


From 30b7278db5f9d598b75eb6d9e58972726cbc2728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:20 +0000
Subject: [PATCH 16/25] fix: find the day of a removed leap second whatever the
 running total is

The time stamp of a removed second, or of any adjustment while the total is
negative, can fall on the day that is adjusted and not on the one after it.
---
 src/zoneinfo.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/zoneinfo.rs b/src/zoneinfo.rs
index 641b298..b3360a8 100644
--- a/src/zoneinfo.rs
+++ b/src/zoneinfo.rs
@@ -202,7 +202,10 @@ pub(crate) fn load_leap_segments() -> Vec<ContinuousTimeSegment> {
     let mut start_day = 0;
     let mut previous_leap_second_total = 0;
     for leap_second in tz.leap_seconds.iter() {
-        let end_day = leap_second.timestamp as u32 / 86400;
+        // The time stamp counts the leap seconds before it, and is that of the inserted second
+        // itself or of the one that is left out.
+        let end_day =
+            ((leap_second.timestamp - previous_leap_second_total + 1) / 86400) as u32;
 
         let leap_second_total = leap_second.leap_second_count;
         let leap_seconds = leap_second_total - previous_leap_second_total;
-- 
2.43.0


From be51d7e059f2b780fb6acebb4adca76ac030b2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:21 +0000
Subject: [PATCH 17/25] fix: accept time zone data without leap seconds

---
 src/zoneinfo.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/zoneinfo.rs b/src/zoneinfo.rs
index b3360a8..9784b56 100644
--- a/src/zoneinfo.rs
+++ b/src/zoneinfo.rs
@@ -226,6 +226,18 @@ pub(crate) fn load_leap_segments() -> Vec<ContinuousTimeSegment> {
         previous_leap_second_total = leap_second_total;
     }
 
+    if segments.is_empty() {
+        // Lookups need a segment to refer to, so represent a table without leap seconds by a
+        // single day without any.
+        segments.push(ContinuousTimeSegment {
+            start_instant,
+            start_day,
+            duration_days: 1,
+            leap_seconds: 0,
+            accumulated_leap_seconds: 0,
+        });
+    }
+
     segments
 }
 
-- 
2.43.0


From 3e5b6fa811fb5583c96f5c1d0561c03d16d2b967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:44 +0000
Subject: [PATCH 18/25] fix: dates beyond year 32767 and in January or February
 of year 0 read back without overflow

---
 src/gregorian_normalized_date.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/gregorian_normalized_date.rs b/src/gregorian_normalized_date.rs
index 84a19e6..1ec5776 100644
--- a/src/gregorian_normalized_date.rs
+++ b/src/gregorian_normalized_date.rs
@@ -246,12 +246,11 @@ impl GregorianNormalizedDate {
     }
 
     pub(crate) fn to_date(&self) -> (u16, u8, u8) {
-        let year = 2000
-            + 400 * self.cycle as i16
-            + 100 * self.century as i16
-            + 4 * self.quadrennium as i16
-            + self.year as i16;
-        let mut year = year as u16;
+        let mut year = 2000
+            + 400 * self.cycle as i32
+            + 100 * self.century as i32
+            + 4 * self.quadrennium as i32
+            + self.year as i32;
 
         // NB: shifted so March is first. This way we don't need to care about how leap days
         // affect the month start since the leap day comes at the end of the year.
@@ -263,7 +262,7 @@ impl GregorianNormalizedDate {
             month -= 12;
             year += 1;
         }
-        (year, month + 1, days_into_month + 1)
+        (year as u16, month + 1, days_into_month + 1)
     }
 
     pub(crate) fn unnormalized_year(&self) -> i32 {
-- 
2.43.0


From 437281b848bcec3d7d090eec90ccf837874fa5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:58 +0000
Subject: [PATCH 19/25] fix: refuse duration arithmetic that does not fit
 instead of wrapping around without overflow checks

---
 src/duration.rs | 45 +++++++++++++++++++++++++++++++++++----------
 1 file changed, 35 insertions(+), 10 deletions(-)

diff --git a/src/duration.rs b/src/duration.rs
index d5035a8..74498a0 100644
--- a/src/duration.rs
+++ b/src/duration.rs
@@ -2,8 +2,9 @@ use std::hash::Hash;
 use std::marker::PhantomData;
 use std::ops::{Add, Mul, Sub};
 
+use num_integer::Integer;
 use num_rational::Ratio;
-use num_traits::PrimInt;
+use num_traits::{CheckedDiv, CheckedMul, CheckedSub, PrimInt};
 
 use crate::instant::Tick;
 use crate::scale::{Milliseconds, Scale, Seconds};
@@ -135,10 +136,16 @@ impl<T: Tick, S: Scale> Duration<T, S> {
         // is, and the remainder will be scaled up to the scale of the Duration type.
         let t1 = Ratio::new(self.ticks, T::from(S::TICKS_PER_SECOND).unwrap());
         let t2 = Ratio::new(other.ticks, T::from(S2::TICKS_PER_SECOND).unwrap());
-        let quotient = (t1 / t2).floor();
-        let remainder = t1 - t2 * quotient;
+        let quotient = t1.checked_div(&t2).expect("duration division overflow");
+        let quotient = Ratio::from_integer(quotient.numer().div_floor(quotient.denom()));
+        let remainder = t2
+            .checked_mul(&quotient)
+            .and_then(|product| t1.checked_sub(&product))
+            .expect("duration division overflow");
         // Scale the remainder up to the scale parameter of the Duration type.
-        let remainder = remainder * T::from(S::TICKS_PER_SECOND).unwrap();
+        let remainder = remainder
+            .checked_mul(&Ratio::from_integer(T::from(S::TICKS_PER_SECOND).unwrap()))
+            .expect("duration division overflow");
         (quotient.to_integer(), Duration::new(remainder.to_integer()))
     }
 
@@ -151,9 +158,15 @@ impl<T: Tick, S: Scale> Duration<T, S> {
         // instead of a flooring operation to get the quotient.
         let t1 = Ratio::new(self.ticks, T::from(S::TICKS_PER_SECOND).unwrap());
         let t2 = Ratio::new(other.ticks, T::from(S2::TICKS_PER_SECOND).unwrap());
-        let quotient = (t1 / t2).ceil();
-        let remainder = t2 * quotient - t1;
-        let remainder = remainder * T::from(S::TICKS_PER_SECOND).unwrap();
+        let quotient = t1.checked_div(&t2).expect("duration division overflow");
+        let quotient = Ratio::from_integer(Integer::div_ceil(quotient.numer(), quotient.denom()));
+        let remainder = t2
+            .checked_mul(&quotient)
+            .and_then(|product| product.checked_sub(&t1))
+            .expect("duration division overflow");
+        let remainder = remainder
+            .checked_mul(&Ratio::from_integer(T::from(S::TICKS_PER_SECOND).unwrap()))
+            .expect("duration division overflow");
         (quotient.to_integer(), Duration::new(remainder.to_integer()))
     }
 
@@ -166,7 +179,11 @@ impl<T: Tick, S: Scale> Add for Duration<T, S> {
     type Output = Self;
 
     fn add(self, rhs: Self) -> Self::Output {
-        Self::new(self.ticks + rhs.ticks)
+        Self::new(
+            self.ticks
+                .checked_add(&rhs.ticks)
+                .expect("duration addition overflow"),
+        )
     }
 }
 
@@ -174,7 +191,11 @@ impl<T: Tick, S: Scale> Sub for Duration<T, S> {
     type Output = Self;
 
     fn sub(self, rhs: Self) -> Self::Output {
-        Self::new(self.ticks - rhs.ticks)
+        Self::new(
+            self.ticks
+                .checked_sub(&rhs.ticks)
+                .expect("duration subtraction overflow"),
+        )
     }
 }
 
@@ -182,6 +203,10 @@ impl<T: Tick, S: Scale> Mul<T> for Duration<T, S> {
     type Output = Self;
 
     fn mul(self, rhs: T) -> Self::Output {
-        Self::new(self.ticks * rhs)
+        Self::new(
+            self.ticks
+                .checked_mul(&rhs)
+                .expect("duration multiplication overflow"),
+        )
     }
 }
-- 
2.43.0


From 7e835773fca7464244d36a53674ca272202b185c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:58 +0000
Subject: [PATCH 20/25] fix: refuse system times out of range of the instant
 instead of wrapping around without overflow checks

---
 src/instant.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/instant.rs b/src/instant.rs
index 1ed2adb..6d7d004 100644
--- a/src/instant.rs
+++ b/src/instant.rs
@@ -353,7 +353,10 @@ impl<T: Tick, S: Scale> TryFrom<SystemTime> for Instant<T, S> {
         let subsecond_ns = T::from(subsecond_ns).unwrap();
 
         let subsec_ticks = subsecond_ns / nanoseconds_per_tick;
-        let total_ticks = seconds * ticks_per_second + subsec_ticks;
+        let total_ticks = seconds
+            .checked_mul(&ticks_per_second)
+            .and_then(|ticks| ticks.checked_add(&subsec_ticks))
+            .expect("system time is out of range of the instant");
 
         Ok(Instant::<T, S> {
             ticks: total_ticks,
-- 
2.43.0


From 3d2b25cfca5d6eac4e9fb11ccf6f065adbfb3b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:58 +0000
Subject: [PATCH 21/25] fix: refuse division intermediates that do not fit
 instead of wrapping around without overflow checks

---
 src/div_rem.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/div_rem.rs b/src/div_rem.rs
index 4ea9723..a30b23b 100644
--- a/src/div_rem.rs
+++ b/src/div_rem.rs
@@ -45,7 +45,7 @@ pub(crate) trait DivRemCeil: Sized {
     fn div_rem_ceil(&self, other: &Self) -> (Self, Self);
 }
 
-impl<T: Integer + Copy> DivRemCeil for T {
+impl<T: PrimInt + Integer> DivRemCeil for T {
     // TODO test this
     fn div_rem_ceil(&self, other: &Self) -> (Self, Self) {
         let zero = Self::zero();
@@ -53,18 +53,29 @@ impl<T: Integer + Copy> DivRemCeil for T {
         let (q, r) = (*self).div_rem(other);
         if (r > zero && *other > zero) || (r < zero && *other < zero) {
             // The quotient is positive and was rounded towards zero.
-            (q + one, r - *other)
+            let r = r
+                .checked_sub(other)
+                .expect("remainder of ceiling division overflow");
+            (q + one, r)
         } else {
             (q, r)
         }
     }
 }
 
+fn add<T: PrimInt>(a: T, b: T) -> T {
+    a.checked_add(&b).expect("multiply and divide overflow")
+}
+
+fn mul<T: PrimInt>(a: T, b: T) -> T {
+    a.checked_mul(&b).expect("multiply and divide overflow")
+}
+
 pub(crate) trait MulDivRemFloor: Sized {
     fn mul_div_rem_floor(&self, multiplier: Self, divisor: Self) -> (Self, Self);
 }
 
-impl<T: Integer + Copy> MulDivRemFloor for T {
+impl<T: PrimInt + Integer> MulDivRemFloor for T {
     fn mul_div_rem_floor(&self, multiplier: Self, divisor: Self) -> (Self, Self) {
         // We want to compute the quotient and remainder of (a*b)/c, but
         // without computing the intermediate value a*b since it might overflow.
@@ -105,8 +116,8 @@ impl<T: Integer + Copy> MulDivRemFloor for T {
         let c = divisor;
         let (q_a, r_a) = a.div_mod_floor(&c);
         let (q_b, r_b) = b.div_mod_floor(&c);
-        let (q_c, r_c) = (r_a * r_b).div_mod_floor(&c);
-        (q_a * b + r_a * q_b + q_c, r_c)
+        let (q_c, r_c) = mul(r_a, r_b).div_mod_floor(&c);
+        (add(add(mul(q_a, b), mul(r_a, q_b)), q_c), r_c)
     }
 }
 
@@ -118,7 +129,7 @@ pub(crate) trait MulDivRemCeil: Sized {
     fn mul_div_rem_ceil(&self, multiplier: Self, divisor: Self) -> (Self, Self);
 }
 
-impl<T: Integer + Copy> MulDivRemCeil for T {
+impl<T: PrimInt + Integer> MulDivRemCeil for T {
     fn mul_div_rem_ceil(&self, multiplier: Self, divisor: Self) -> (Self, Self) {
         // This is exactly the same as MulDivRemFloor, but we use div_rem_ceil
         // instead of div_rem_floor.
@@ -127,8 +138,8 @@ impl<T: Integer + Copy> MulDivRemCeil for T {
         let c = divisor;
         let (q_a, r_a) = a.div_rem_ceil(&c);
         let (q_b, r_b) = b.div_rem_ceil(&c);
-        let (q_c, r_c) = (r_a * r_b).div_rem_ceil(&c);
-        (q_a * b + r_a * q_b + q_c, r_c)
+        let (q_c, r_c) = mul(r_a, r_b).div_rem_ceil(&c);
+        (add(add(mul(q_a, b), mul(r_a, q_b)), q_c), r_c)
     }
 }
 
-- 
2.43.0


From b588159e1720a8f1a71822fb66041791cc5c0e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:46 +0000
Subject: [PATCH 22/25] fix: refuse cursor positions outside the slice instead
 of leaving it

---
 src/slice_cursor.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/slice_cursor.rs b/src/slice_cursor.rs
index 3e66616..1106593 100644
--- a/src/slice_cursor.rs
+++ b/src/slice_cursor.rs
@@ -141,7 +141,10 @@ impl<'a, T> CursorWithPosition for SliceCursor<'a, T> {
         match pos {
             CursorPosition::Start => self.pos = 0,
             CursorPosition::End => self.pos = self.slice.len() + 1,
-            CursorPosition::Pos(pos) => self.pos = pos + 1,
+            CursorPosition::Pos(pos) => {
+                assert!(pos < self.slice.len(), "Position out of bounds");
+                self.pos = pos + 1;
+            }
         }
     }
 }
-- 
2.43.0


From 833d806dcc1e4d9df81b33c4486ea0573cec1fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:58 +0000
Subject: [PATCH 23/25] fix: use the directory TZDIR names also when its name
 is not UTF-8

---
 src/zoneinfo.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zoneinfo.rs b/src/zoneinfo.rs
index 9784b56..72e17ef 100644
--- a/src/zoneinfo.rs
+++ b/src/zoneinfo.rs
@@ -40,8 +40,8 @@ fn tzdir() -> PathBuf {
     // We could try to be more clever here (look for the root directory that /etc/localtime points
     // to, check if /etc/zoneinfo has anything, etc), but the logic here appears to be what
     // the C library does so we probably shouldn't deviate too much from that behavior.
-    std::env::var("TZDIR")
-        .unwrap_or_else(|_| "/usr/share/zoneinfo".to_string())
+    std::env::var_os("TZDIR")
+        .unwrap_or_else(|| "/usr/share/zoneinfo".into())
         .into()
 }
 
-- 
2.43.0


From 51466622afd8b1493fcce0ad96893274ab352017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:54 +0000
Subject: [PATCH 24/25] fix: refuse leap-second records that are out of order
 instead of reading another table

---
 src/zoneinfo.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/zoneinfo.rs b/src/zoneinfo.rs
index 72e17ef..6dd6986 100644
--- a/src/zoneinfo.rs
+++ b/src/zoneinfo.rs
@@ -204,8 +204,9 @@ pub(crate) fn load_leap_segments() -> Vec<ContinuousTimeSegment> {
     for leap_second in tz.leap_seconds.iter() {
         // The time stamp counts the leap seconds before it, and is that of the inserted second
         // itself or of the one that is left out.
-        let end_day =
-            ((leap_second.timestamp - previous_leap_second_total + 1) / 86400) as u32;
+        let end_day = (leap_second.timestamp - previous_leap_second_total + 1) / 86400;
+        assert!(end_day > start_day as i32, "leap seconds out of order");
+        let end_day = end_day as u32;
 
         let leap_second_total = leap_second.leap_second_count;
         let leap_seconds = leap_second_total - previous_leap_second_total;
-- 
2.43.0


From 86091ca3f80d6f0fd0941437361c0f72b92a660f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:07 +0000
Subject: [PATCH 25/25] fix: count leap seconds of a system time in more than
 an i64

---
 src/instant.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/instant.rs b/src/instant.rs
index 6d7d004..a759c2b 100644
--- a/src/instant.rs
+++ b/src/instant.rs
@@ -342,9 +342,11 @@ impl<T: Tick, S: Scale> TryFrom<SystemTime> for Instant<T, S> {
             T::from(1_000_000_000).expect("nanoseconds per second is too large for type T)");
         let nanoseconds_per_tick = nanoseconds_per_second / ticks_per_second;
 
-        let (mut seconds, subsecond_ns) = system_time_to_time_t(value);
+        let (unix_seconds, subsecond_ns) = system_time_to_time_t(value);
+        // With the leap seconds included, the count can be just outside the range of an i64.
+        let mut seconds = unix_seconds as i128;
         if !system_time_includes_leap_seconds() {
-            seconds += get_leap_second_adjustment_for_unix_timestamp(seconds) as i64;
+            seconds += get_leap_second_adjustment_for_unix_timestamp(unix_seconds) as i128;
         }
 
         // FIXME report proper error here
@@ -378,7 +380,8 @@ fn system_time_to_time_t(value: SystemTime) -> (libc::time_t, u32) {
     let mut seconds = duration.as_secs() as i64;
     let mut subsec_nanos = duration.subsec_nanos();
     if sign {
-        seconds = -seconds;
+        // The earliest system time is i64::MIN seconds, and is cast to that already.
+        seconds = seconds.wrapping_neg();
         if subsec_nanos > 0 {
             // The sub-second part counts forwards from the whole second before.
             seconds -= 1;
-- 
2.43.0

