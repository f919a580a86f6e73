From 31d8a4920d739c76b274be646d1db7db158fad66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:36 +0000
Subject: [PATCH 01/39] fix: saturate too negative durations to -oo instead of
 overflowing

---
 src/wins/timevalue.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wins/timevalue.rs b/src/wins/timevalue.rs
index dcc0c20..a77545d 100644
--- a/src/wins/timevalue.rs
+++ b/src/wins/timevalue.rs
@@ -56,6 +56,8 @@ impl TimeValue {
     {
         if sec > MAX_SEC {
             TimeValue::INFINITE
+        } else if sec < -MAX_SEC {
+            -TimeValue::INFINITE
         } else {
             Self(sec << SUBSEC_BITLEN)
         }
@@ -67,6 +69,8 @@ impl TimeValue {
         let frac = t - sec*unit;
         if sec > MAX_SEC {
             TimeValue::INFINITE
+        } else if sec < -MAX_SEC {
+            -TimeValue::INFINITE
         } else {
             // we should separate in order to deal with overflow
             Self((sec<<SUBSEC_BITLEN) + (frac << SUBSEC_BITLEN)/unit)
-- 
2.43.0


From e841b422a0970807fcc6b938dbe5e5bfb599c0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:32 +0000
Subject: [PATCH 02/39] fix: ceil of negative durations, floor and ceil of
 infinite or extreme ones

---
 src/wins/timevalue.rs | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/wins/timevalue.rs b/src/wins/timevalue.rs
index a77545d..a8b3238 100644
--- a/src/wins/timevalue.rs
+++ b/src/wins/timevalue.rs
@@ -193,32 +193,39 @@ impl TimeValue {
     #[inline]
     pub fn is_strictly_negative(&self) -> bool { self.0 < 0 }
 
+    /// Greatest multiple of the period which is not greater than this time value
+    ///
+    /// An infinite time value is its own floor.
     #[inline]
     pub fn floor(self, period:TimeValue) -> Self
     {
-        Self(
-            if self.0 >= 0 {
-                (self.0/period.0)*period.0
-            } else {
-                ((self.0+1)/period.0-1)*period.0
-            }
-        )
+        if !self.is_finite() {
+            self
+        } else if self.0 >= 0 {
+            Self((self.0/period.0)*period.0)
+        } else {
+            Self::from_ticks(((self.0+1)/period.0-1).saturating_mul(period.0))
+        }
     }
 
+    /// Lowest multiple of the period which is not lower than this time value
+    ///
+    /// An infinite time value is its own ceil.
     #[inline]
     pub fn ceil(self, period:TimeValue) -> Self
     {
-        Self(
-            if self.0 > 0 {
-                ((self.0-1)/period.0+1)*period.0
-            } else {
-                ((self.0-1)/period.0)*period.0
-            }
-        )
+        if !self.is_finite() {
+            self
+        } else if self.0 > 0 {
+            Self::from_ticks(((self.0-1)/period.0+1).saturating_mul(period.0))
+        } else {
+            Self((self.0/period.0)*period.0)
+        }
     }
 }
 
 
+
 impl TimePoint for TimeValue
 {
     const INFINITE: TimeValue = Self(INFINITE_TIME_VALUE);
-- 
2.43.0


From 940ed2033e327c7b4d85ca1c8f81a377b08f0aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:33 +0000
Subject: [PATCH 03/39] fix: truncation of durations to months and of negative
 or infinite ones to seconds

---
 src/wins/convert.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/wins/convert.rs b/src/wins/convert.rs
index 1fbe240..de6a7f6 100644
--- a/src/wins/convert.rs
+++ b/src/wins/convert.rs
@@ -1,4 +1,4 @@
-use crate::{SUBSEC_BITMASK, TimeValue};
+use crate::TimeValue;
 
 pub trait IntoTimeValue
 {
@@ -21,7 +21,7 @@ impl IntoTimeValue for TimeValue
         if self.is_strictly_negative() { self.ceil(1.years()) } else { self.floor(1.years())}
     }
     #[inline] fn months(self) -> TimeValue {
-        if self.is_strictly_negative() { self.ceil(1.years()) } else { self.floor(1.years())}
+        if self.is_strictly_negative() { self.ceil(1.months()) } else { self.floor(1.months())}
     }
     #[inline] fn weeks(self) -> TimeValue {
         if self.is_strictly_negative() { self.ceil(1.weeks()) } else { self.floor(1.weeks())}
@@ -35,7 +35,9 @@ impl IntoTimeValue for TimeValue
     #[inline] fn mins(self) -> TimeValue {
         if self.is_strictly_negative() { self.ceil(1.mins()) } else { self.floor(1.mins())}
     }
-    #[inline] fn secs(mut self) -> TimeValue { self.0 &= !SUBSEC_BITMASK; self }
+    #[inline] fn secs(self) -> TimeValue {
+        if self.is_strictly_negative() { self.ceil(1.secs()) } else { self.floor(1.secs())}
+    }
 
     #[inline] fn millis(self) -> TimeValue {
         if self.is_strictly_negative() { self.ceil(1.millis()) } else { self.floor(1.millis())}
-- 
2.43.0


From 2e8c4e902c3e515dc364e52cf818cbc0c9d90742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:35 +0000
Subject: [PATCH 04/39] fix: lazy intersection of adjacent intervals is empty,
 not an inverted interval

---
 src/iter/intersect.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/iter/intersect.rs b/src/iter/intersect.rs
index 8aba6c9..92426b5 100644
--- a/src/iter/intersect.rs
+++ b/src/iter/intersect.rs
@@ -112,7 +112,7 @@ impl<I,J> Iterator for IterIntersection<I,J>
                     match (self.i.next(), self.j.next()) {
                         (None,_)|(_,None) => { self.state = InterState::End; return None; }
 
-                        (Some(i), Some(j)) if i.upper < j.lower.just_before() => {
+                        (Some(i), Some(j)) if i.upper < j.lower => {
                             // i:       [------------------]
                             // j:                                  [--------]
                             //=>tmp:                               [--------]
@@ -120,7 +120,7 @@ impl<I,J> Iterator for IterIntersection<I,J>
                             self.tmp=j;
                         },
 
-                        (Some(i), Some(j)) if j.upper < i.lower.just_before()  => {
+                        (Some(i), Some(j)) if j.upper < i.lower  => {
                             // i:                          [------------------]
                             // j:          [--------]
                             self.state = InterState::WaitJ;
@@ -149,11 +149,11 @@ impl<I,J> Iterator for IterIntersection<I,J>
                             self.state = InterState::End;
                             return None;
                         },
-                        Some(i) if i.upper < self.tmp.lower.just_before() => {
+                        Some(i) if i.upper < self.tmp.lower => {
                             // i:       [------------------]
                             // tmp:                                [--------]
                         },
-                        Some(i) if self.tmp.upper < i.lower.just_before()  => {
+                        Some(i) if self.tmp.upper < i.lower  => {
                             // i:                          [------------------]
                             // tmp:        [--------]
                             self.state = InterState::WaitJ;
@@ -182,11 +182,11 @@ impl<I,J> Iterator for IterIntersection<I,J>
                             self.state = InterState::End;
                             return None;
                         },
-                        Some(j) if j.upper < self.tmp.lower.just_before() => {
+                        Some(j) if j.upper < self.tmp.lower => {
                             // tmp:                                [--------]
                             // j:       [------------------]
                         },
-                        Some(j) if self.tmp.upper < j.lower.just_before()  => {
+                        Some(j) if self.tmp.upper < j.lower  => {
                             // tmp:        [--------]
                             // j:                          [------------------]
                             self.state = InterState::WaitI;
-- 
2.43.0


From b359ddc56760348e2b2388923398f2e235da17ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:36 +0000
Subject: [PATCH 05/39] fix: lazy union keeps the remaining intervals of its
 first operand

---
 src/iter/union.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iter/union.rs b/src/iter/union.rs
index b57d3b1..023950f 100644
--- a/src/iter/union.rs
+++ b/src/iter/union.rs
@@ -186,8 +186,8 @@ impl<I,J> Iterator for IterUnion<I,J>
                 UnionState::WaitJ => {
                     match self.j.next() {
                         None => {
-                            /* end of the iterator over i...*/
-                            self.state = UnionState::OnlyJ;
+                            /* end of the iterator over j...*/
+                            self.state = UnionState::OnlyI;
                             return Some(self.tmp);
                         },
                         Some(j) if j.upper < self.tmp.lower.just_before() => {
-- 
2.43.0


From 0140240b303f72a7eee5f9ffb33cd526b91b363b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:38 +0000
Subject: [PATCH 06/39] fix: the intersection of disjoint intervals is the
 empty interval

---
 src/ops/intersect.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/ops/intersect.rs b/src/ops/intersect.rs
index 46415da..4214b22 100644
--- a/src/ops/intersect.rs
+++ b/src/ops/intersect.rs
@@ -26,8 +26,7 @@ impl<T:TimePoint,TW> BitAndAssign<TW> for TimeInterval<T>
 {
     #[inline]
     fn bitand_assign(&mut self, tw: TW) {
-        if self.lower < tw.lower_bound() { self.lower = tw.lower_bound(); }
-        if self.upper > tw.upper_bound() { self.upper = tw.upper_bound(); }
+        *self = (*self).bitand(tw)
     }
 }
 
@@ -48,10 +47,8 @@ impl<T:TimePoint,TW> BitAnd<TW> for &TimeInterval<T>
     #[inline]
     fn bitand(self, tw: TW) -> Self::Output {
         let i = tw.into();
-        TimeInterval {
-            lower: self.lower.max(i.lower),
-            upper: self.upper.min(i.upper)
-        }
+        // if both intervals are disjoint, the result should be the (canonical) empty interval
+        TimeInterval::new(self.lower.max(i.lower), self.upper.min(i.upper))
     }
 }
 
-- 
2.43.0


From c5e9fad3eb59f92de0e6ff88c3a61708560a9739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:28 +0000
Subject: [PATCH 07/39] fix: an empty window is neither bounded nor everything

---
 src/wins/format.rs       | 4 +++-
 src/wins/mod.rs          | 2 +-
 src/wins/timeinterval.rs | 4 ++--
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/wins/format.rs b/src/wins/format.rs
index e97c111..9ed3c43 100644
--- a/src/wins/format.rs
+++ b/src/wins/format.rs
@@ -199,7 +199,9 @@ impl<T:TimePoint+fmt::Debug> fmt::Debug for TimeInterval<T>
     #[allow(clippy::collapsible_else_if)]
     fn fmt(&self, formatter: &mut fmt::Formatter) -> fmt::Result
     {
-        if self.is_low_bounded() {
+        if self.is_empty() {
+            write!(formatter, "{{}}")
+        } else if self.is_low_bounded() {
             if self.is_up_bounded() {
                 if self.lower == self.upper {
                     write!(formatter, "{{{:?}}}", self.lower)
diff --git a/src/wins/mod.rs b/src/wins/mod.rs
index 8acaf6d..73a72d7 100644
--- a/src/wins/mod.rs
+++ b/src/wins/mod.rs
@@ -74,7 +74,7 @@ pub trait TimeWindow : TimeBounds {
 
     #[inline]
     fn is_all(&self) -> bool {
-        self.is_convex() && !self.is_low_bounded() && !self.is_up_bounded()
+        !self.is_empty() && self.is_convex() && !self.is_low_bounded() && !self.is_up_bounded()
     }
 
     /// Checks if this time window is an interval
diff --git a/src/wins/timeinterval.rs b/src/wins/timeinterval.rs
index 9c21513..c47fc9a 100644
--- a/src/wins/timeinterval.rs
+++ b/src/wins/timeinterval.rs
@@ -184,8 +184,8 @@ impl<T:TimePoint> TimeBounds for TimeInterval<T>
     #[inline] fn is_empty(&self) -> bool { self.lower.is_future_infinite() }
     #[inline] fn is_singleton(&self) -> bool { self.lower == self.upper }
     #[inline] fn is_bounded(&self) -> bool { self.is_low_bounded() && self.is_up_bounded() }
-    #[inline] fn is_low_bounded(&self) -> bool { !self.lower.is_past_infinite() }
-    #[inline] fn is_up_bounded(&self) -> bool { !self.upper.is_future_infinite() }
+    #[inline] fn is_low_bounded(&self) -> bool { self.lower.is_finite() }
+    #[inline] fn is_up_bounded(&self) -> bool { self.upper.is_finite() }
     #[inline] fn lower_bound(&self) -> Self::TimePoint { self.lower }
     #[inline] fn upper_bound(&self) -> Self::TimePoint { self.upper }
 }
-- 
2.43.0


From 86ba264e459ba5a8d5ac00fdf987498a94a0bf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:29 +0000
Subject: [PATCH 08/39] fix: truncating before +oo or after -oo gives the empty
 window

---
 src/wins/timeinterval.rs |  4 ++--
 src/wins/timeset.rs      | 12 ++++++++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/wins/timeinterval.rs b/src/wins/timeinterval.rs
index c47fc9a..44a9814 100644
--- a/src/wins/timeinterval.rs
+++ b/src/wins/timeinterval.rs
@@ -127,7 +127,7 @@ impl<T:TimePoint> TimeTruncation for TimeInterval<T>
         if lower <= self.lower {
             false
         } else {
-            if self.upper < lower {
+            if self.upper < lower || lower.is_future_infinite() {
                 *self = Self::empty();
             } else {
                 self.lower = lower;
@@ -142,7 +142,7 @@ impl<T:TimePoint> TimeTruncation for TimeInterval<T>
         if self.upper <= upper {
             false
         } else {
-            if upper < self.lower {
+            if upper < self.lower || upper.is_past_infinite() {
                 *self = Self::empty();
             } else {
                 self.upper = upper;
diff --git a/src/wins/timeset.rs b/src/wins/timeset.rs
index 7890ae3..d004d63 100644
--- a/src/wins/timeset.rs
+++ b/src/wins/timeset.rs
@@ -174,6 +174,12 @@ impl<T:TimePoint> TimeTruncation for TimeSet<T>
     /// Returns `true` if something changed
     fn truncate_before(&mut self, lower: T) -> bool
     {
+        if lower.is_future_infinite() {
+            // no (finite) point remains
+            let changed = !self.is_empty();
+            self.0.clear();
+            return changed;
+        }
         match self.0.iter().position(|i| i.upper_bound() >= lower)
         {
             Some(0) => {
@@ -194,6 +200,12 @@ impl<T:TimePoint> TimeTruncation for TimeSet<T>
     /// Returns `true` if something changed
     fn truncate_after(&mut self, upper: T) -> bool
     {
+        if upper.is_past_infinite() {
+            // no (finite) point remains
+            let changed = !self.is_empty();
+            self.0.clear();
+            return changed;
+        }
         match self.0.iter().rposition(|i| i.lower_bound() <= upper)
         {
             Some(pos) if pos+1 == self.0.len() => {
-- 
2.43.0


From 8b41388be6b4f444aef6fd12283e05cc161de152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:18 +0000
Subject: [PATCH 09/39] fix: ranges without any finite point are empty

---
 src/ops/range.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/ops/range.rs b/src/ops/range.rs
index 6acb40f..5673794 100644
--- a/src/ops/range.rs
+++ b/src/ops/range.rs
@@ -7,55 +7,55 @@ use crate::iter::*;
 impl<T:TimePoint> TimeBounds for Range<T>
 {
     type TimePoint = T;
-    #[inline] fn is_empty(&self) -> bool { Range::is_empty(self) }
+    #[inline] fn is_empty(&self) -> bool { Range::is_empty(self) || self.end.just_before().is_past_infinite() }
     #[inline] fn is_bounded(&self) -> bool { !self.is_empty() && self.lower_bound().is_finite() && self.upper_bound().is_finite() }
     #[inline] fn is_low_bounded(&self) -> bool { !self.is_empty() && self.lower_bound().is_finite() }
     #[inline] fn is_up_bounded(&self) -> bool { !self.is_empty() && self.upper_bound().is_finite()  }
-    #[inline] fn lower_bound(&self) -> Self::TimePoint { if self.is_empty() { T::INFINITE } else { self.start } }
-    #[inline] fn upper_bound(&self) -> Self::TimePoint { if self.is_empty() { -T::INFINITE} else { self.end.just_before() } }// not inclusive
+    #[inline] fn lower_bound(&self) -> Self::TimePoint { if TimeBounds::is_empty(self) { T::INFINITE } else { self.start } }
+    #[inline] fn upper_bound(&self) -> Self::TimePoint { if TimeBounds::is_empty(self) { -T::INFINITE} else { self.end.just_before() } }// not inclusive
 }
 
 impl<T:TimePoint> TimeBounds for RangeFrom<T>
 {
     type TimePoint = T;
-    #[inline] fn is_empty(&self) -> bool { false }
+    #[inline] fn is_empty(&self) -> bool { self.start.is_future_infinite() }
     #[inline] fn is_bounded(&self) -> bool { false }
     #[inline] fn is_low_bounded(&self) -> bool { self.lower_bound().is_finite() }
     #[inline] fn is_up_bounded(&self) -> bool { false }
     #[inline] fn lower_bound(&self) -> Self::TimePoint { self.start }
-    #[inline] fn upper_bound(&self) -> Self::TimePoint { Self::TimePoint::INFINITE }
+    #[inline] fn upper_bound(&self) -> Self::TimePoint { if self.is_empty() { -T::INFINITE } else { T::INFINITE } }
 }
 
 impl<T:TimePoint> TimeBounds for RangeInclusive<T>
 {
     type TimePoint = T;
-    #[inline] fn is_empty(&self) -> bool { RangeInclusive::is_empty(self) }
+    #[inline] fn is_empty(&self) -> bool { RangeInclusive::is_empty(self) || self.start().is_future_infinite() || self.end().is_past_infinite() }
     #[inline] fn is_bounded(&self) -> bool { !self.is_empty() && self.lower_bound().is_finite() && self.upper_bound().is_finite() }
     #[inline] fn is_low_bounded(&self) -> bool { !self.is_empty() && self.lower_bound().is_finite() }
     #[inline] fn is_up_bounded(&self) -> bool { !self.is_empty() && self.upper_bound().is_finite()  }
-    #[inline] fn lower_bound(&self) -> Self::TimePoint { if self.is_empty() { T::INFINITE} else { *self.start() } }
-    #[inline] fn upper_bound(&self) -> Self::TimePoint { if self.is_empty() { -T::INFINITE } else { *self.end() } } // inclusive
+    #[inline] fn lower_bound(&self) -> Self::TimePoint { if TimeBounds::is_empty(self) { T::INFINITE} else { *self.start() } }
+    #[inline] fn upper_bound(&self) -> Self::TimePoint { if TimeBounds::is_empty(self) { -T::INFINITE } else { *self.end() } } // inclusive
 }
 
 impl<T:TimePoint> TimeBounds for RangeTo<T>
 {
     type TimePoint = T;
-    #[inline] fn is_empty(&self) -> bool { false }
+    #[inline] fn is_empty(&self) -> bool { self.end.just_before().is_past_infinite() }
     #[inline] fn is_bounded(&self) -> bool { false }
     #[inline] fn is_low_bounded(&self) -> bool { false }
     #[inline] fn is_up_bounded(&self) -> bool { self.upper_bound().is_finite()  }
-    #[inline] fn lower_bound(&self) -> Self::TimePoint { - Self::TimePoint::INFINITE }
+    #[inline] fn lower_bound(&self) -> Self::TimePoint { if self.is_empty() { T::INFINITE } else { -T::INFINITE } }
     #[inline] fn upper_bound(&self) -> Self::TimePoint { self.end.just_before() } // not inclusive
 }
 
 impl<T:TimePoint> TimeBounds for RangeToInclusive<T>
 {
     type TimePoint = T;
-    #[inline] fn is_empty(&self) -> bool { false }
+    #[inline] fn is_empty(&self) -> bool { self.end.is_past_infinite() }
     #[inline] fn is_bounded(&self) -> bool { false }
     #[inline] fn is_low_bounded(&self) -> bool { false }
     #[inline] fn is_up_bounded(&self) -> bool { self.upper_bound().is_finite()  }
-    #[inline] fn lower_bound(&self) -> Self::TimePoint { - Self::TimePoint::INFINITE }
+    #[inline] fn lower_bound(&self) -> Self::TimePoint { if self.is_empty() { T::INFINITE } else { -T::INFINITE } }
     #[inline] fn upper_bound(&self) -> Self::TimePoint { self.end } // inclusive
 }
 
-- 
2.43.0


From cd3e134d7e2578b7822c1ca4d90cc1c1bfa7f207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:20 +0000
Subject: [PATCH 10/39] fix: sets built from an infinite point or from empty
 intervals have no empty piece

---
 src/wins/timeset.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/wins/timeset.rs b/src/wins/timeset.rs
index d004d63..b83ee92 100644
--- a/src/wins/timeset.rs
+++ b/src/wins/timeset.rs
@@ -43,7 +43,7 @@ impl<T:TimePoint> TimeSet<T>
     /// Retuns a timeset composed of the convex interval `[t,t]`
     #[inline]
     pub fn singleton(t: T) -> Self {
-        Self(vec![TimeInterval::singleton(t)])
+        TimeInterval::singleton(t).into()
     }
 
     /// The empty set
@@ -124,7 +124,8 @@ impl<T:TimePoint> FromIterator<TimeInterval<T>> for TimeSet<T>
 {
     fn from_iter<I: IntoIterator<Item=TimeInterval<T>>>(iter: I) -> Self
     {
-        let mut iter = iter.into_iter();
+        // empty intervals are meaningless here
+        let mut iter = iter.into_iter().filter(|i| !i.is_empty());
         match iter.next() {
             None => Self::empty(),
             Some(first) => iter.fold(first.into(), |mut r, i| {
@@ -160,11 +161,8 @@ impl<T,TW> From<TW> for TimeSet<T>
 {
     #[inline] fn from(tw: TW) -> Self
     {
-        if tw.is_empty() {
-            TimeSet::empty()
-        } else {
-            Self(vec![TimeInterval { lower: tw.lower_bound(), upper: tw.upper_bound()}])
-        }
+        let tw: TimeInterval<T> = tw.into();
+        if tw.is_empty() { TimeSet::empty() } else { Self(vec![tw]) }
     }
 }
 
-- 
2.43.0


From 9baece784aef323dfb533aee09378bef57dd7760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:22 +0000
Subject: [PATCH 11/39] fix: every set of intervals contains the empty window

---
 src/relns/contain.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/relns/contain.rs b/src/relns/contain.rs
index 16a9f72..c367720 100644
--- a/src/relns/contain.rs
+++ b/src/relns/contain.rs
@@ -11,7 +11,7 @@ impl<TW1:TimeConvex,TW2> TimeContaining<TW2> for TW1
 {
     #[inline]
     fn contains(&self, rhs: &TW2) -> bool {
-        self.lower_bound() <= rhs.lower_bound() && rhs.upper_bound() <= self.upper_bound()
+        rhs.is_empty() || self.lower_bound() <= rhs.lower_bound() && rhs.upper_bound() <= self.upper_bound()
     }
 }
 
@@ -22,7 +22,7 @@ impl<T:TimePoint,TW> TimeContaining<TW> for TimeSet<T>
     #[inline]
     fn contains(&self, rhs: &TW) -> bool
     {
-        self.0.iter()
+        rhs.is_empty() || self.0.iter()
             .find(|ts| ts.upper_bound() >= rhs.lower_bound())
             .map(|ts| ts.contains(rhs))
             .unwrap_or(false)
-- 
2.43.0


From aa3cfb4421a2688325a80af74e80850f43036862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:23 +0000
Subject: [PATCH 12/39] fix: nothing overlaps the empty window

---
 src/relns/overlap.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/relns/overlap.rs b/src/relns/overlap.rs
index 5f37e78..4ff4b4c 100644
--- a/src/relns/overlap.rs
+++ b/src/relns/overlap.rs
@@ -14,7 +14,8 @@ impl<TW1:TimeConvex,TW2:TimeConvex> TimeOverlapping<TW2> for TW1
 {
     #[inline]
     fn overlaps(&self, rhs: &TW2) -> bool {
-        self.lower_bound() <= rhs.upper_bound() && rhs.lower_bound() <= self.upper_bound()
+        !self.is_empty() && !rhs.is_empty()
+            && self.lower_bound() <= rhs.upper_bound() && rhs.lower_bound() <= self.upper_bound()
     }
 }
 
@@ -33,7 +34,7 @@ impl<T:TimePoint, TW> TimeOverlapping<TW> for TimeSet<T>
     #[inline]
     fn overlaps(&self, rhs: &TW) -> bool
     {
-        self.0.iter()
+        !rhs.is_empty() && self.0.iter()
             .find(|ts| ts.upper_bound() >= rhs.lower_bound())
             .map(|ts| ts.lower_bound() <= rhs.upper_bound())
             .unwrap_or(false)
-- 
2.43.0


From f5bcc57801768a5c9815e81480a139b34985b2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:24 +0000
Subject: [PATCH 13/39] fix: an empty window is neither before nor after
 another one

---
 src/relns/ordering.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/relns/ordering.rs b/src/relns/ordering.rs
index 41c523d..55ee286 100644
--- a/src/relns/ordering.rs
+++ b/src/relns/ordering.rs
@@ -46,7 +46,7 @@ macro_rules! timepartialcmp {
 
             #[inline]
             fn lt(&self, other: &TW) -> bool {
-                self.upper_bound() < other.lower_bound()
+                !self.is_empty() && !other.is_empty() && self.upper_bound() < other.lower_bound()
             }
 
             #[inline]
@@ -56,7 +56,7 @@ macro_rules! timepartialcmp {
 
             #[inline]
             fn gt(&self, other: &TW) -> bool {
-                self.lower_bound() > other.upper_bound()
+                !self.is_empty() && !other.is_empty() && self.lower_bound() > other.upper_bound()
             }
 
             #[inline]
-- 
2.43.0


From 84da4e714382da02dbd7903dcb4840e0987e3544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:49 +0000
Subject: [PATCH 14/39] fix: centered and enlarged intervals never keep only an
 infinite point

---
 src/wins/timeinterval.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/wins/timeinterval.rs b/src/wins/timeinterval.rs
index 44a9814..22fd60f 100644
--- a/src/wins/timeinterval.rs
+++ b/src/wins/timeinterval.rs
@@ -160,19 +160,15 @@ impl<T:TimePoint> TimeInterval<T>
     pub fn centered(origin: T, delta: TimeValue) -> Option<Self>
     {
         // if delta is negative, we could be surprised...
-        delta.is_positive().then_some(Self {
-            lower: origin - delta,
-            upper: origin + delta,
-        })
+        delta.is_positive().then(|| Self::new(origin - delta, origin + delta))
     }
 
     #[inline]
     pub fn enlarge(&self, delta: TimeValue) -> Option<Self>
     {
-        let lower = self.lower - delta;
-        let upper = self.upper + delta;
+        let tw = Self::new(self.lower - delta, self.upper + delta);
         // if delta is negative, we could be surprised...
-        (lower <= upper).then_some(Self { lower, upper } )
+        (!tw.is_empty()).then_some(tw)
     }
 
 }
-- 
2.43.0


From a9b3acd16486dc3b76a47c4da07f46447ebec249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:19 +0000
Subject: [PATCH 15/39] fix: translate single points in place, and empty
 intervals, without panicking

---
 src/ops/transl.rs | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/ops/transl.rs b/src/ops/transl.rs
index e2a84ca..8c26072 100644
--- a/src/ops/transl.rs
+++ b/src/ops/transl.rs
@@ -9,6 +9,7 @@ impl<T> Add<TimeValue> for TimeInterval<T>
 {
     type Output = Self;
     #[inline] fn add(self, other: TimeValue) -> Self::Output {
+        if self.is_empty() { return TimeInterval::empty(); }
         let tw = TimeInterval::new(self.lower + other, self.upper + other);
         debug_assert!(!tw.is_empty(), "time interval translation overflows");
         tw
@@ -20,6 +21,7 @@ impl<T> Sub<TimeValue> for TimeInterval<T>
 {
     type Output = Self;
     #[inline] fn sub(self, other: TimeValue) -> Self::Output {
+        if self.is_empty() { return TimeInterval::empty(); }
         let tw = TimeInterval::new(self.lower - other, self.upper - other);
         debug_assert!(!tw.is_empty(), "time interval translation overflows");
         tw
@@ -31,9 +33,11 @@ impl<T> AddAssign<TimeValue> for TimeInterval<T>
 {
     #[inline]
     fn add_assign(&mut self, other: TimeValue) {
+        if self.is_empty() { return; }
         self.lower += other;
         self.upper += other;
-        assert!( (self.lower != self.upper) || !self.lower.is_finite() );
+        *self = TimeInterval::new(self.lower, self.upper);
+        debug_assert!(!self.is_empty(), "time interval translation overflows");
     }
 }
 
@@ -42,9 +46,11 @@ impl<T> SubAssign<TimeValue> for TimeInterval<T>
 {
     #[inline]
     fn sub_assign(&mut self, other: TimeValue) {
+        if self.is_empty() { return; }
         self.lower -= other;
         self.upper -= other;
-        assert!( (self.lower != self.upper) || !self.lower.is_finite() );
+        *self = TimeInterval::new(self.lower, self.upper);
+        debug_assert!(!self.is_empty(), "time interval translation overflows");
     }
 }
 
@@ -67,6 +73,7 @@ impl<T> Add<TimeSpan> for TimeInterval<T>
 {
     type Output = Self;
     #[inline] fn add(self, other: TimeSpan) -> Self::Output {
+        if self.is_empty() || other.is_empty() { return TimeInterval::empty(); }
         let tw = TimeInterval::new(self.lower + other.lower, self.upper + other.upper);
         debug_assert!(!tw.is_empty(), "time interval translation overflows");
         tw
@@ -78,6 +85,7 @@ impl<T> Sub<TimeSpan> for TimeInterval<T>
 {
     type Output = Self;
     #[inline] fn sub(self, other: TimeSpan) -> Self::Output {
+        if self.is_empty() || other.is_empty() { return TimeInterval::empty(); }
         let tw = TimeInterval::new(self.lower - other.upper, self.upper - other.lower);
         debug_assert!(!tw.is_empty(), "time interval translation overflows");
         tw
@@ -89,9 +97,14 @@ impl<T> AddAssign<TimeSpan> for TimeInterval<T>
 {
     #[inline]
     fn add_assign(&mut self, other: TimeSpan) {
+        if self.is_empty() || other.is_empty() {
+            *self = Self::empty();
+            return;
+        }
         self.lower += other.lower;
         self.upper += other.upper;
-        assert!( (self.lower != self.upper) || !self.lower.is_finite() );
+        *self = TimeInterval::new(self.lower, self.upper);
+        debug_assert!(!self.is_empty(), "time interval translation overflows");
     }
 }
 
@@ -100,9 +113,14 @@ impl<T> SubAssign<TimeSpan> for TimeInterval<T>
 {
     #[inline]
     fn sub_assign(&mut self, other: TimeSpan) {
+        if self.is_empty() || other.is_empty() {
+            *self = Self::empty();
+            return;
+        }
         self.lower -= other.upper;
         self.upper -= other.lower;
-        assert!( (self.lower != self.upper) || !self.lower.is_finite() );
+        *self = TimeInterval::new(self.lower, self.upper);
+        debug_assert!(!self.is_empty(), "time interval translation overflows");
     }
 }
 
@@ -110,6 +128,7 @@ impl Add<TimeSpan> for Timestamp {
     type Output = TimeSlot;
     #[inline]
     fn add(self, other: TimeSpan) -> Self::Output {
+        if other.is_empty() { return TimeSlot::empty(); }
         let tw = TimeSlot::new(self + other.lower, self + other.upper);
         debug_assert!(!tw.is_empty(), "time interval translation overflows");
         tw
@@ -120,6 +139,7 @@ impl Sub<TimeSpan> for Timestamp {
     type Output = TimeSlot;
     #[inline]
     fn sub(self, other: TimeSpan) -> Self::Output {
+        if other.is_empty() { return TimeSlot::empty(); }
         let tw = TimeSlot::new(self - other.upper, self - other.lower);
         debug_assert!(!tw.is_empty(), "time interval translation overflows");
         tw
@@ -142,6 +162,7 @@ impl Sub for TimeSlot {
     type Output = TimeSpan;
     #[inline]
     fn sub(self, other: Self) -> Self::Output {
+        if self.is_empty() || other.is_empty() { return TimeInterval::empty(); }
         let tw = TimeInterval::new(self.lower - other.upper,self.upper - other.lower);
         debug_assert!(!tw.is_empty(), "time interval translation overflows");
         tw
@@ -152,6 +173,7 @@ impl Sub<Timestamp> for TimeSlot {
     type Output = TimeSpan;
     #[inline]
     fn sub(self, other: Timestamp) -> Self::Output {
+        if self.is_empty() { return TimeInterval::empty(); }
         let tw = TimeInterval::new(self.lower - other,self.upper - other);
         debug_assert!(!tw.is_empty(), "time interval translation overflows");
         tw
@@ -162,6 +184,7 @@ impl Sub<TimeSlot> for Timestamp {
     type Output = TimeSpan;
     #[inline]
     fn sub(self, other: TimeSlot) -> Self::Output {
+        if other.is_empty() { return TimeInterval::empty(); }
         let tw = TimeInterval::new(self - other.upper,self - other.lower);
         debug_assert!(!tw.is_empty(), "time interval translation overflows");
         tw
-- 
2.43.0


From ffae787e3b491bc3bfee200d3733422003e36e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:45 +0000
Subject: [PATCH 16/39] fix: translating a set drops only the intervals which
 are out of range

---
 src/iter/transl.rs |  5 +++--
 src/ops/transl.rs  | 20 +++++++++++++-------
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/iter/transl.rs b/src/iter/transl.rs
index 3d21b10..c7de711 100644
--- a/src/iter/transl.rs
+++ b/src/iter/transl.rs
@@ -34,8 +34,9 @@ impl<I:TimeConvexIterator> Iterator for TimeValueTranslIter<I>
     type Item = I::Item;
 
     fn next(&mut self) -> Option<Self::Item> {
-        self.iter.next().map(|tw| tw+self.t)
-            .and_then(|tw| if tw.is_empty() { None } else { Some(tw) })
+        // skip the intervals which are out of range
+        let t = self.t;
+        self.iter.by_ref().map(|tw| tw+t).find(|tw| !tw.is_empty())
     }
 }
 
diff --git a/src/ops/transl.rs b/src/ops/transl.rs
index 8c26072..b6dff67 100644
--- a/src/ops/transl.rs
+++ b/src/ops/transl.rs
@@ -201,7 +201,8 @@ impl<T:TimePoint> Add<TimeValue> for TimeSet<T>
     fn add(self, other: TimeValue) -> Self::Output {
         // adding a constant preserves the structure (order and distance
         // between successive intervals -> no new overlapping to manage)
-        Self(self.0.iter().map(|tw| *tw + other).collect())
+        // (but some of them could be out of range)
+        Self(self.0.iter().map(|tw| *tw + other).filter(|tw| !tw.is_empty()).collect())
     }
 }
 
@@ -213,7 +214,8 @@ impl<T:TimePoint> Sub<TimeValue> for TimeSet<T>
     fn sub(self, other: TimeValue) -> Self::Output {
         // adding a constant preserves the structure (order and distance
         // between successive intervals -> no new overlapping to manage)
-        Self(self.0.iter().map(|tw| *tw - other).collect())
+        // (but some of them could be out of range)
+        Self(self.0.iter().map(|tw| *tw - other).filter(|tw| !tw.is_empty()).collect())
     }
 }
 
@@ -224,7 +226,9 @@ impl<T:TimePoint> AddAssign<TimeValue> for TimeSet<T>
     fn add_assign(&mut self, t: TimeValue) {
         // adding a constant preserves the structure (order and distance
         // between successive intervals -> no new overlapping to manage)
-        self.0.iter_mut().for_each(|tw| *tw += t)
+        // (but some of them could be out of range)
+        self.0.iter_mut().for_each(|tw| *tw += t);
+        self.0.retain(|tw| !tw.is_empty())
     }
 }
 
@@ -235,7 +239,9 @@ impl<T:TimePoint> SubAssign<TimeValue> for TimeSet<T>
     fn sub_assign(&mut self, t: TimeValue) {
         // adding a constant preserves the structure (order and distance
         // between successive intervals -> no new overlapping to manage)
-        self.0.iter_mut().for_each(|tw| *tw -= t)
+        // (but some of them could be out of range)
+        self.0.iter_mut().for_each(|tw| *tw -= t);
+        self.0.retain(|tw| !tw.is_empty())
     }
 }
 
@@ -246,7 +252,7 @@ impl Add<Timestamp> for TimeSpans
     fn add(self, other: Timestamp) -> Self::Output {
         // adding a constant preserves the structure (order and distance
         // between successive intervals -> no new overlapping to manage)
-        TimeSet(self.0.iter().map(|tw| *tw + other).collect())
+        TimeSet(self.0.iter().map(|tw| *tw + other).filter(|tw| !tw.is_empty()).collect())
     }
 }
 
@@ -257,7 +263,7 @@ impl Sub<Timestamp> for TimeSpans
     fn sub(self, other: Timestamp) -> Self::Output {
         // adding a constant preserves the structure (order and distance
         // between successive intervals -> no new overlapping to manage)
-        TimeSet(self.0.iter().map(|tw| *tw - other).collect())
+        TimeSet(self.0.iter().map(|tw| *tw - other).filter(|tw| !tw.is_empty()).collect())
     }
 }
 
@@ -276,7 +282,7 @@ impl Sub<TimeSpans> for Timestamp
         // adding a constant preserves the structure (order and distance
         // between successive intervals -> no new overlapping to manage)
         // but as we subtracts the intervals, the list should be reversed
-        TimeSet(other.0.into_iter().rev().map(|i| self - i).collect())
+        TimeSet(other.0.into_iter().rev().map(|i| self - i).filter(|tw| !tw.is_empty()).collect())
     }
 }
 
-- 
2.43.0


From eb3f0b679b825d1e6b5b706155de89e75dca31ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:47 +0000
Subject: [PATCH 17/39] fix: multiplying a duration by a huge integer takes its
 sign into account

---
 src/ops/scaling.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/ops/scaling.rs b/src/ops/scaling.rs
index 611abde..1e68483 100644
--- a/src/ops/scaling.rs
+++ b/src/ops/scaling.rs
@@ -35,13 +35,9 @@ macro_rules! timevalscalingbig {
         impl Mul<$time> for TimeValue {
             type Output = Self;
             #[inline] fn mul(self, n: $time) -> Self::Output {
-                if n > INFINITE_TIME_VALUE as $time {
-                    TimeValue::INFINITE
-                } else if n < -INFINITE_TIME_VALUE as $time {
-                    -TimeValue::INFINITE
-                } else {
-                    TimeValue::from_ticks(self.0.saturating_mul(n as i64))
-                }
+                // a greater factor saturates too (except for zero)
+                let n = n.clamp(-INFINITE_TIME_VALUE as $time, INFINITE_TIME_VALUE as $time);
+                TimeValue::from_ticks(self.0.saturating_mul(n as i64))
             }
         }
         impl Div<$time> for TimeValue {
@@ -67,11 +63,9 @@ macro_rules! timevalscalingubig {
         impl Mul<$time> for TimeValue {
             type Output = Self;
             #[inline] fn mul(self, n: $time) -> Self::Output {
-                if n > INFINITE_TIME_VALUE as $time {
-                    TimeValue::INFINITE
-                } else {
-                    TimeValue::from_ticks(self.0.saturating_mul(n as i64))
-                }
+                // a greater factor saturates too (except for zero)
+                let n = n.min(INFINITE_TIME_VALUE as $time);
+                TimeValue::from_ticks(self.0.saturating_mul(n as i64))
             }
         }
         impl Div<$time> for TimeValue {
-- 
2.43.0


From 242246d498c24afd6f8dbb271c81b5ea4797978f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:49 +0000
Subject: [PATCH 18/39] fix: an infinite duration divided by an integer remains
 infinite

---
 src/ops/scaling.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/ops/scaling.rs b/src/ops/scaling.rs
index 1e68483..303cab2 100644
--- a/src/ops/scaling.rs
+++ b/src/ops/scaling.rs
@@ -14,7 +14,13 @@ macro_rules! timevalscalingsmall {
         }
         impl Div<$scale> for TimeValue {
             type Output = Self;
-            #[inline] fn div(self, n: $scale) -> Self::Output {
+            #[inline]
+            #[allow(unused_comparisons)]
+            fn div(self, n: $scale) -> Self::Output {
+                assert_ne!(n, 0, "div. by zero");
+                if !self.is_finite() {
+                    return if n < 0 { -self } else { self };
+                }
                 TimeValue::from_ticks(self.0.saturating_div(n as i64))
             }
         }
@@ -42,7 +48,13 @@ macro_rules! timevalscalingbig {
         }
         impl Div<$time> for TimeValue {
             type Output = Self;
-            #[inline] fn div(self, n: $time) -> Self::Output {
+            #[inline]
+            #[allow(unused_comparisons)]
+            fn div(self, n: $time) -> Self::Output {
+                assert_ne!(n, 0, "div. by zero");
+                if !self.is_finite() {
+                    return if n < 0 { -self } else { self };
+                }
                 if n > INFINITE_TIME_VALUE as $time || n < -INFINITE_TIME_VALUE as $time {
                     TimeValue::default() // zero
                 } else {
@@ -70,7 +82,13 @@ macro_rules! timevalscalingubig {
         }
         impl Div<$time> for TimeValue {
             type Output = Self;
-            #[inline] fn div(self, n: $time) -> Self::Output {
+            #[inline]
+            #[allow(unused_comparisons)]
+            fn div(self, n: $time) -> Self::Output {
+                assert_ne!(n, 0, "div. by zero");
+                if !self.is_finite() {
+                    return if n < 0 { -self } else { self };
+                }
                 if n > INFINITE_TIME_VALUE as $time {
                     TimeValue::default() // zero
                 } else {
-- 
2.43.0


From 8ef0e2791fdecef9090902384cd86cfef0cf3d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:51 +0000
Subject: [PATCH 19/39] fix: scaling keeps empty intervals empty, and a set
 multiplied by zero is {0}

---
 src/ops/scaling.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ops/scaling.rs b/src/ops/scaling.rs
index 303cab2..8b237aa 100644
--- a/src/ops/scaling.rs
+++ b/src/ops/scaling.rs
@@ -168,6 +168,7 @@ macro_rules! timespanscalingint {
             #[inline]
             #[allow(unused_comparisons)]
             fn mul(self, n: $scale) -> Self::Output {
+                if self.is_empty() { return self; }
                 let (lower, upper) = if n < 0 {
                     // negative factor -> reverse interval
                     (self.upper * n, self.lower * n)
@@ -184,6 +185,7 @@ macro_rules! timespanscalingint {
             #[inline]
             #[allow(unused_comparisons)]
             fn div(self, n: $scale) -> Self::Output {
+                if self.is_empty() { return self; }
                 let (lower, upper) = if n < 0 {
                     // negative factor -> reverse interval
                     (self.upper / n, self.lower / n)
@@ -274,7 +276,7 @@ macro_rules! timespansscaleint {
                     if self.is_empty() {
                         TimeSpans::empty()
                     } else {
-                        Self(vec![ TimeSpan::default() ])
+                        Self(vec![ TimeSpan::singleton(TimeValue::default()) ])
                     }
                 } else {
                     // since factor is non null integer, the scale increases distances between
@@ -301,7 +303,7 @@ macro_rules! timespansscaleint {
                 if n == 0 {
                     if !self.is_empty() {
                         self.0.clear();
-                        self.0.push(TimeSpan::default());
+                        self.0.push(TimeSpan::singleton(TimeValue::default()));
                     }
                 } else {
                     self.0.iter_mut().for_each(|tw| *tw *= n);
-- 
2.43.0


From 0d69a78ba14bf9433fadf14d9b8c522ba1e01e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:52 +0000
Subject: [PATCH 20/39] fix: lazy scaling yields sorted and disjoint intervals

---
 src/iter/scaling.rs | 31 +++----------------------------
 1 file changed, 3 insertions(+), 28 deletions(-)

diff --git a/src/iter/scaling.rs b/src/iter/scaling.rs
index b80fe6e..3c06aff 100644
--- a/src/iter/scaling.rs
+++ b/src/iter/scaling.rs
@@ -15,35 +15,10 @@ impl<I:TimeConvexIterator,S:Copy> TimeScaling<S> for I
     where
         I::Item: Mul<S,Output=I::Item>
 {
-    type Output = TimeValueScaleIter<I,S>;
+    type Output = crate::iter::intoiter::IntoConvexIter<I::TimePoint,std::vec::IntoIter<TimeInterval<I::TimePoint>>>;
 
     fn scaling(self, scale: S) -> Self::Output {
-        TimeValueScaleIter { scale, iter: self }
+        // the scaled intervals could be no more sorted (negative scale) or disjoint (small scale)
+        self.map(|tw| tw*scale).collect::<TimeSet<I::TimePoint>>().into_iter()
     }
 }
-
-pub struct TimeValueScaleIter<I:TimeConvexIterator,S:Copy> {
-    scale: S,
-    iter: I
-}
-
-impl<I:TimeConvexIterator,S:Copy> Iterator for TimeValueScaleIter<I,S>
-    where
-        I::Item: Mul<S,Output=I::Item>
-{
-    type Item = I::Item;
-
-    fn next(&mut self) -> Option<Self::Item> {
-        self.iter.next().map(|tw| tw*self.scale)
-            .and_then(|tw| if tw.is_empty() { None } else { Some(tw) })
-    }
-}
-
-
-impl<I:TimeConvexIterator,S:Copy> TimeConvexIterator for TimeValueScaleIter<I,S>
-    where
-        I::Item: Mul<S,Output=I::Item>
-{
-    type TimePoint = I::TimePoint;
-}
-
-- 
2.43.0


From 2aa7fcad315d6904cd6cb3f6f94adcf6c985cd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:37 +0000
Subject: [PATCH 21/39] fix: size hints of lazy complements and unions count
 the pending interval

---
 src/iter/compl.rs | 7 ++-----
 src/iter/union.rs | 4 +++-
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/iter/compl.rs b/src/iter/compl.rs
index 84205a9..56895ef 100644
--- a/src/iter/compl.rs
+++ b/src/iter/compl.rs
@@ -90,11 +90,8 @@ impl<I:TimeConvexIterator> Iterator for IterComplementary<I>
 
     fn size_hint(&self) -> (usize, Option<usize>)
     {
+        // one interval before each of the remaining ones and another one after the last
         let (min,max) = self.iter.size_hint();
-        if self.lower.is_finite() {
-            (min.saturating_sub(1), max)
-        } else {
-            (min.saturating_sub(1), max.map(|i| i + 1))
-        }
+        (min.saturating_sub(1), max.and_then(|i| i.checked_add(1)))
     }
 }
diff --git a/src/iter/union.rs b/src/iter/union.rs
index 023950f..00a62cf 100644
--- a/src/iter/union.rs
+++ b/src/iter/union.rs
@@ -234,9 +234,11 @@ impl<I,J> Iterator for IterUnion<I,J>
             UnionState::OnlyJ => { self.j.size_hint() }
             UnionState::End => { (0, Some(0)) }
             _ => {
+                // once started, the temporary interval is also to come
+                let tmp = if matches!(self.state, UnionState::Init) { 0 } else { 1 };
                 if let (_,Some(imax)) = self.i.size_hint() {
                     if let (_,Some(jmax)) = self.j.size_hint() {
-                        return (0, Some(imax.saturating_add(jmax)));
+                        return (0, imax.checked_add(jmax).and_then(|max| max.checked_add(tmp)));
                     }
                 }
                 (0, None)
-- 
2.43.0


From fe98b5672691d707246ebf6da57cd5b89872fc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:29 +0000
Subject: [PATCH 22/39] fix: a too negative chrono duration is -oo

---
 src/wins/timevalue.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wins/timevalue.rs b/src/wins/timevalue.rs
index a8b3238..ec0d6e7 100644
--- a/src/wins/timevalue.rs
+++ b/src/wins/timevalue.rs
@@ -274,6 +274,7 @@ impl From<chrono::Duration> for TimeValue
     fn from(t: chrono::Duration) -> Self
     {
         match t.num_nanoseconds() {
+            None if t < chrono::Duration::zero() => -TimeValue::INFINITE,
             None => TimeValue::INFINITE,
             Some(nanos) => TimeValue::from_nanos(nanos)
         }
-- 
2.43.0


From 285312c0d7d9fe58515e1495c8401b89888fc0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:31 +0000
Subject: [PATCH 23/39] fix: a standard duration longer than 2^31 seconds is
 not infinite

---
 src/wins/timevalue.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wins/timevalue.rs b/src/wins/timevalue.rs
index ec0d6e7..05de909 100644
--- a/src/wins/timevalue.rs
+++ b/src/wins/timevalue.rs
@@ -295,7 +295,7 @@ impl From<time::Duration> for TimeValue
     fn from(t: time::Duration) -> Self
     {
         let sec = t.as_secs();
-        if sec > i32::MAX as u64 {
+        if sec > MAX_SEC as u64 {
             TimeValue::INFINITE
         } else {
             let ns = t.subsec_nanos() as i64;
-- 
2.43.0


From 23d8ead2220c0109ab2857aa86eefbbff2da7db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:32 +0000
Subject: [PATCH 24/39] fix: dates out of range are converted to infinite
 timestamps

---
 src/wins/timestamp.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/wins/timestamp.rs b/src/wins/timestamp.rs
index ce393aa..14cb2e8 100644
--- a/src/wins/timestamp.rs
+++ b/src/wins/timestamp.rs
@@ -103,7 +103,7 @@ impl From<NaiveDateTime> for Timestamp
 {
     #[inline]
     fn from(t: NaiveDateTime) -> Self {
-        Self(TimeValue::from_nanos(t.timestamp_nanos_opt().unwrap()))
+        t.and_utc().into()
     }
 }
 
@@ -112,7 +112,12 @@ impl<Tz:TimeZone> From<DateTime<Tz>> for Timestamp
 {
     #[inline]
     fn from(t: DateTime<Tz>) -> Self {
-        Self(TimeValue::from_nanos(t.timestamp_nanos_opt().unwrap()))
+        // if too far for being expressed in nanoseconds, it is also out of our range
+        Self(match t.timestamp_nanos_opt() {
+            Some(nanos) => TimeValue::from_nanos(nanos),
+            None if t.timestamp() < 0 => -TimeValue::INFINITE,
+            None => TimeValue::INFINITE
+        })
     }
 }
 
-- 
2.43.0


From 82f4414df7fc458129299d0989d527e75046db51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:25 +0000
Subject: [PATCH 25/39] fix: a constraint which adds an instant to a graph is
 checked and propagated

---
 src/graph/propagation.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/graph/propagation.rs b/src/graph/propagation.rs
index 02ef878..f89604d 100644
--- a/src/graph/propagation.rs
+++ b/src/graph/propagation.rs
@@ -50,15 +50,15 @@ impl TimeGraph
             Err(TimeInconsistencyError::Recovered)
         } else {
             let max = k.from().max(k.to());
-            if self.size() <= max {
-                // si i ou j n'était pas dans le graphe, on n'aura rien à propager
+            let size = self.size();
+            if size <= max {
+                // si i ou j n'était pas dans le graphe, on l'ajoute
+                // (l'autre peut déjà y être contraint, donc il faut propager)
                 self.resize(max + 1);
-                unsafe {
-                    // SAFETY: we have just resize the graph for that
-                    *self.lower_mut(k.from(), k.to()) = k.lower_bound();
-                    *self.lower_mut(k.to(), k.from()) = -k.upper_bound();
+                match self.propagate(k) {
+                    Ok(_) => Ok(TimePropagation::Propagated),
+                    Err(error) => { self.resize(size); Err(error) }
                 }
-                Ok(TimePropagation::Propagated)
             } else {
                 unsafe {
                     // SAFETY: we check the size of the graph just before entering here
-- 
2.43.0


From 173246284474c68f04a4b6fbd7dca0ebc3d3aad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:26 +0000
Subject: [PATCH 26/39] fix: an inconsistency drops all the data of the emptied
 graph

---
 src/graph/propagation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph/propagation.rs b/src/graph/propagation.rs
index f89604d..5001d48 100644
--- a/src/graph/propagation.rs
+++ b/src/graph/propagation.rs
@@ -165,7 +165,7 @@ impl TimeGraph
                     if val > *x { *x = val; }
                 }
                 if unsafe { self.lower(i,i) }.is_strictly_positive() {
-                    self.size = 0;
+                    self.resize(0); // also drops the corrupted data
                     return Err(TimeInconsistencyError::Fatal)
                 }
             }
-- 
2.43.0


From c3bd1f5877d995dc67c5455afb3d3723009f73ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:27 +0000
Subject: [PATCH 27/39] fix: adding an empty constraint in bulk is an
 inconsistency, not a panic

---
 src/graph/propagation.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/graph/propagation.rs b/src/graph/propagation.rs
index 5001d48..8e0a1c6 100644
--- a/src/graph/propagation.rs
+++ b/src/graph/propagation.rs
@@ -194,7 +194,10 @@ impl TimeGraph
                 }
             }
             _ => {
+                let mut consistent = true;
                 iter.for_each(|k| {
+                        if k.is_empty() { consistent = false; return; }
+
                         let max = k.from().max(k.to());
                         if max >= self.size() { self.resize(max+1) }
 
@@ -208,7 +211,12 @@ impl TimeGraph
                             *upper = -k.upper_bound();
                         }
                     });
-                self.global_propagation()
+                if consistent {
+                    self.global_propagation()
+                } else {
+                    self.resize(0);
+                    Err(TimeInconsistencyError::Fatal)
+                }
             }
         }
     }
-- 
2.43.0


From 71dcbdc81844ef0dbf2e9dd8a92d0acf86c07090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:28 +0000
Subject: [PATCH 28/39] fix: the constraints from an instant are those with the
 other constrained instants

---
 src/graph/constraints.rs | 39 +++++++++++++++++----------------------
 1 file changed, 17 insertions(+), 22 deletions(-)

diff --git a/src/graph/constraints.rs b/src/graph/constraints.rs
index 229584b..1c4f6a2 100644
--- a/src/graph/constraints.rs
+++ b/src/graph/constraints.rs
@@ -202,40 +202,35 @@ impl<'a> Iterator for TimeConstraintFromIter<'a> {
 
     fn next(&mut self) -> Option<Self::Item>
     {
-        if self.i >= self.graph.size() {
+        if self.i < self.graph.size() {
             // this bound checking guarantees also that
             // this iterator is a FusedIterator
-            None
-        } else {
-            let current = TimeGraphConstraint {
-                from: self.i,
-                to: self.j,
-                graph: self.graph
-            };
-            loop { // search the next current
+            while self.j < self.graph.size() {
+                let j = self.j;
                 self.j += 1;
 
-                if self.j == self.graph.size() {
-                    self.i = self.graph.size();
-                    break;
-
-                } else if self.i != self.j &&
-                    (unsafe { !self.graph.lower(self.i,self.j).is_past_infinite() }
-                        || unsafe { !self.graph.lower(self.j,self.i).is_past_infinite() }) {
-                    break;
+                if self.i != j &&
+                    (unsafe { !self.graph.lower(self.i,j).is_past_infinite() }
+                        || unsafe { !self.graph.lower(j,self.i).is_past_infinite() }) {
+                    return Some(TimeGraphConstraint {
+                        from: self.i,
+                        to: j,
+                        graph: self.graph
+                    })
                 }
             }
-            Some(current)
         }
+        None
     }
 
     #[inline]
     fn size_hint(&self) -> (usize, Option<usize>)
     {
-        let all_constraints = (self.graph.size() * self.graph.size() - self.graph.size())/2;
-        let previous_constraints =  (self.i * self.i - self.i)/2;
-        let max = all_constraints - previous_constraints + 1 - self.j;
-        (0, Some(max as usize))
+        if self.i < self.graph.size() {
+            (0, Some((self.graph.size() - self.j) as usize))
+        } else {
+            (0, Some(0))
+        }
     }
 }
 
-- 
2.43.0


From d0257a32d6667b60a999b97f258bcaad086774cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:30 +0000
Subject: [PATCH 29/39] fix: the size hint of the constraints of a graph does
 not overflow

---
 src/graph/constraints.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/graph/constraints.rs b/src/graph/constraints.rs
index 1c4f6a2..5983bca 100644
--- a/src/graph/constraints.rs
+++ b/src/graph/constraints.rs
@@ -176,10 +176,14 @@ impl<'a> Iterator for TimeConstraintIter<'a> {
     #[inline]
     fn size_hint(&self) -> (usize, Option<usize>)
     {
-        let all_constraints = (self.graph.size() * self.graph.size() - self.graph.size())/2;
-        let previous_constraints =  (self.i * self.i - self.i)/2;
-        let max = all_constraints - previous_constraints + 1 - self.j;
-        (0, Some(max as usize))
+        // the remaining pairs (i,j) of this row, then the ones of the next rows
+        let max = if self.i < self.graph.size() {
+            let n = (self.graph.size() - self.i) as usize;
+            n * (n-1) / 2 - (self.j - self.i) as usize
+        } else {
+            0
+        };
+        (0, Some(max))
     }
 }
 
-- 
2.43.0


From 15bb9b3e36e3a5288d45ba9813289e012c3b7a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:17 +0000
Subject: [PATCH 30/39] fix: a scheduler refuses the slots which leave an
 instant without any date

---
 src/graph/scheduler.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/graph/scheduler.rs b/src/graph/scheduler.rs
index 077e6ca..dbce7a2 100644
--- a/src/graph/scheduler.rs
+++ b/src/graph/scheduler.rs
@@ -107,9 +107,16 @@ impl TimeScheduler<'_> {
             } else if !tw.overlaps(self.schedule.get_unchecked(i as usize)) {
                 Err(TimeInconsistencyError::Recovered)
             } else {
+                let previous = self.schedule.clone();
                 *self.schedule.get_unchecked_mut(i as usize) &= tw;
                 self.propagate_scheduling(i);
-                Ok(TimePropagation::Propagated)
+                if self.schedule.iter().any(|tw| tw.is_empty()) {
+                    // an instant has no more possible date
+                    self.schedule = previous;
+                    Err(TimeInconsistencyError::Recovered)
+                } else {
+                    Ok(TimePropagation::Propagated)
+                }
             }
         }
     }
-- 
2.43.0


From 3097623aff110f3f06e333cc989a4be4e492e8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:18 +0000
Subject: [PATCH 31/39] fix: deadlines and start lines are refused, not a
 panic, with disconnected slots

---
 src/graph/scheduler.rs | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/src/graph/scheduler.rs b/src/graph/scheduler.rs
index dbce7a2..44be2eb 100644
--- a/src/graph/scheduler.rs
+++ b/src/graph/scheduler.rs
@@ -59,14 +59,8 @@ impl TimeScheduler<'_> {
         if self.schedule.iter().any(|tw| tw.lower_bound() > deadline) {
             Err(TimeInconsistencyError::Recovered)
         } else {
-            // we know that the propagation will succeed
-            Ok((0..self.schedule.len() as u32)
-                .fold(TimePropagation::Unchanged,
-                      |result, i|
-                          match self.retain(i, ..=deadline).unwrap() {
-                              TimePropagation::Unchanged => { result }
-                              TimePropagation::Propagated => { TimePropagation::Propagated }
-                          }))
+            // the propagation could only fail with disconnected slots
+            self.retain_all(..=deadline)
         }
     }
 
@@ -78,17 +72,28 @@ impl TimeScheduler<'_> {
         if self.schedule.iter().any(|tw| tw.upper_bound() < startline) {
             Err(TimeInconsistencyError::Recovered)
         } else {
-            // we know that the propagation will succeed
-            Ok((0..self.schedule.len() as u32)
-                .fold(TimePropagation::Unchanged,
-                      |result, i|
-                          match self.retain(i, startline..).unwrap() {
-                              TimePropagation::Unchanged => { result }
-                              TimePropagation::Propagated => { TimePropagation::Propagated }
-                          }))
+            // the propagation could only fail with disconnected slots
+            self.retain_all(startline..)
         }
     }
 
+    /// Retains the same time window for all the instants (or changes nothing if it fails)
+    fn retain_all<TW>(&mut self, tw: TW) -> TimePropagationResult
+        where
+            TW: Clone + TimeContaining<TimeSlots> + TimeOverlapping<TimeSlots> + TimeWindow<TimePoint=Timestamp>,
+            TimeSlots: BitAndAssign<TW>
+    {
+        let previous = self.schedule.clone();
+        let mut result = TimePropagation::Unchanged;
+        for i in 0..self.schedule.len() as u32 {
+            match self.retain(i, tw.clone()) {
+                Ok(TimePropagation::Unchanged) => { }
+                Ok(TimePropagation::Propagated) => { result = TimePropagation::Propagated; }
+                Err(error) => { self.schedule = previous; return Err(error) }
+            }
+        }
+        Ok(result)
+    }
 
     /// Add a new constraint on one scheduler entry
     ///
-- 
2.43.0


From 6f093b96b221a2c4238677c2bce5d0eb22f106e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:05 +0000
Subject: [PATCH 32/39] fix: backward sequences start at the given date, or at
 the last period before it

---
 src/seq/backward.rs | 2 +-
 src/seq/mod.rs      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/seq/backward.rs b/src/seq/backward.rs
index d624bd1..7232f90 100644
--- a/src/seq/backward.rs
+++ b/src/seq/backward.rs
@@ -13,7 +13,7 @@ impl TimeSequence for TimeSeqBackward
     fn new<T:Timestamped>(t: T, delta: TimeValue) -> Self
     {
         assert!( delta.is_strictly_positive(), "sequence interval should be strictly positive" );
-        let t = t.timestamp() - delta; // so we will start at t
+        let t = t.timestamp() + delta; // so we will start at t
         assert!( t.is_finite(), "infinite start value");
         Self { t, step: delta }
     }
diff --git a/src/seq/mod.rs b/src/seq/mod.rs
index a375631..3aac9cf 100644
--- a/src/seq/mod.rs
+++ b/src/seq/mod.rs
@@ -40,7 +40,7 @@ impl Timestamp {
     }
 
     pub fn backward_periods(self, period: TimeValue) -> TimeSeqBackward {
-        TimeSeqBackward::new(self.ceil(period), period)
+        TimeSeqBackward::new(self.floor(period), period)
     }
 }
 
-- 
2.43.0


From a607448c41c86e3345152a70177832be5518738b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:07 +0000
Subject: [PATCH 33/39] fix: length, n-th and last dates of periodic sequences

---
 src/seq/backward.rs | 23 +++++++++++++++++------
 src/seq/forward.rs  | 23 +++++++++++++++++------
 2 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/src/seq/backward.rs b/src/seq/backward.rs
index 7232f90..c7d736c 100644
--- a/src/seq/backward.rs
+++ b/src/seq/backward.rs
@@ -31,16 +31,27 @@ impl TimeSequence for TimeSeqBackward
 
     fn len(&self) -> usize
     {
-        if self.t.0.is_strictly_negative() {
-            (self.t.0.as_ticks() - i64::MIN) as usize / self.step.as_ticks() as usize
+        if self.t.is_past_infinite() {
+            0
         } else {
-            self.t.0.as_ticks() as usize + i64::MAX as usize + 1 / self.step.as_ticks() as usize
+            // number of ticks down to the first finite date (it always fits, whatever the sign of t)
+            self.t.0.as_ticks().wrapping_add(i64::MAX - 1) as u64 as usize / self.step.as_ticks() as usize
         }
     }
 }
 
 impl FusedIterator for TimeSeqBackward { }
 
+impl TimeSeqBackward {
+
+    /// The date after n steps (it should be finite, but not necessarily the duration of the n steps)
+    #[inline]
+    fn after(&self, n: usize) -> Timestamp {
+        let ticks = self.t.0.as_ticks().wrapping_sub(self.step.as_ticks().wrapping_mul(n as i64));
+        Timestamp::from_origin(TimeValue::from_ticks(ticks))
+    }
+}
+
 
 impl Iterator for TimeSeqBackward {
 
@@ -68,17 +79,17 @@ impl Iterator for TimeSeqBackward {
     fn last(self) -> Option<Self::Item>
     {
         let n = self.len();
-        (n > 0).then_some(self.t - n*self.step)
+        (n > 0).then(|| self.after(n))
     }
 
 
     fn nth(&mut self, n: usize) -> Option<Self::Item>
     {
-        if self.len() < n {
+        if self.len() <= n {
             self.t = -Timestamp::INFINITE;
             None
         } else {
-            self.t -= self.step * n;
+            self.t = self.after(n + 1);
             Some(self.t)
         }
     }
diff --git a/src/seq/forward.rs b/src/seq/forward.rs
index d1469c0..5145cf1 100644
--- a/src/seq/forward.rs
+++ b/src/seq/forward.rs
@@ -32,16 +32,27 @@ impl TimeSequence for TimeSeqForward
 
     fn len(&self) -> usize
     {
-        if self.t.0.is_positive() {
-            (i64::MAX - self.t.0.as_ticks()) as usize / self.step.as_ticks() as usize
+        if self.t.is_future_infinite() {
+            0
         } else {
-            (i64::MAX as usize) + (-self.t.0.as_ticks() as usize) / self.step.as_ticks() as usize
+            // number of ticks up to the last finite date (it always fits, whatever the sign of t)
+            (i64::MAX - 1).wrapping_sub(self.t.0.as_ticks()) as u64 as usize / self.step.as_ticks() as usize
         }
     }
 }
 
 impl FusedIterator for TimeSeqForward { }
 
+impl TimeSeqForward {
+
+    /// The date after n steps (it should be finite, but not necessarily the duration of the n steps)
+    #[inline]
+    fn after(&self, n: usize) -> Timestamp {
+        let ticks = self.t.0.as_ticks().wrapping_add(self.step.as_ticks().wrapping_mul(n as i64));
+        Timestamp::from_origin(TimeValue::from_ticks(ticks))
+    }
+}
+
 
 impl Iterator for TimeSeqForward {
 
@@ -69,17 +80,17 @@ impl Iterator for TimeSeqForward {
     fn last(self) -> Option<Self::Item>
     {
         let n = self.len();
-        (n > 0).then_some(self.t + n*self.step)
+        (n > 0).then(|| self.after(n))
     }
 
 
     fn nth(&mut self, n: usize) -> Option<Self::Item>
     {
-        if self.len() < n {
+        if self.len() <= n {
             self.t = Timestamp::INFINITE;
             None
         } else {
-            self.t += self.step * n;
+            self.t = self.after(n + 1);
             Some(self.t)
         }
     }
-- 
2.43.0


From 5a1fee96a508352c18744f8ca406eedbf0022b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:08 +0000
Subject: [PATCH 34/39] fix: a forward sequence has a positive increment

---
 src/seq/forward.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seq/forward.rs b/src/seq/forward.rs
index 5145cf1..5bf37d8 100644
--- a/src/seq/forward.rs
+++ b/src/seq/forward.rs
@@ -25,7 +25,7 @@ impl TimeSequence for TimeSeqForward
     }
 
     #[inline]
-    fn increment(&self) -> TimeValue { -self.step }
+    fn increment(&self) -> TimeValue { self.step }
 
     #[inline]
     fn period(&self) -> TimeValue { self.step }
-- 
2.43.0


From e8cb459a1c5c0a0257b9ee9754c954e87125530a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:10 +0000
Subject: [PATCH 35/39] fix: the empty window is formatted as {}

---
 src/wins/format.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wins/format.rs b/src/wins/format.rs
index 9ed3c43..75c5204 100644
--- a/src/wins/format.rs
+++ b/src/wins/format.rs
@@ -86,7 +86,7 @@ fn format_timeslot<TW:TimeConvex>(tw: &TW, timefmt: &str) -> String
     where TW::TimePoint: TimePointFormat
 {
     if tw.is_empty() {
-        "{{}}".to_string()
+        "{}".to_string()
 
     } else if tw.is_singleton() {
         format!("{{{}}}", tw.lower_bound().format_timepoint(timefmt))
@@ -114,7 +114,7 @@ impl<TW:TimeWindow> TimeSetFormat for TW
             iter.fold(format_timeslot(&first, timefmt),
                       |s,i| s + "U" + &format_timeslot(&i,timefmt))
         } else {
-           "{{}}".to_string() /* empty set */
+           "{}".to_string() /* empty set */
         }
     }
 }
-- 
2.43.0


From 0f7802916001f2136964a585e4b5fb0297129fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:11 +0000
Subject: [PATCH 36/39] fix: a duration of exactly 1 ms or 1 us is displayed in
 this unit

---
 src/wins/format.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wins/format.rs b/src/wins/format.rs
index 75c5204..51bd24a 100644
--- a/src/wins/format.rs
+++ b/src/wins/format.rs
@@ -53,11 +53,11 @@ fn format_duration(t: i64) -> String
     let ticks = concat_unit(ticks, TimeValue::from_secs, "s");
 
     let mut str = ticks.1;
-    if nanos > 1_000_000 {
+    if nanos >= 1_000_000 {
         str = format!("{}{}ms ", str, nanos/1_000_000);
         nanos %= 1_000_000;
     }
-    if nanos > 1_000 {
+    if nanos >= 1_000 {
         str = format!("{}{}us ", str, nanos/1_000);
         nanos %= 1_000;
     }
-- 
2.43.0


From 196e9fb420f610814eb6a1d46465ca8d3d4d27c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:46 +0000
Subject: [PATCH 37/39] fix: an infinite duration scaled by a small float stays
 infinite

---
 src/ops/scaling.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ops/scaling.rs b/src/ops/scaling.rs
index 8b237aa..df91bb3 100644
--- a/src/ops/scaling.rs
+++ b/src/ops/scaling.rs
@@ -111,6 +111,9 @@ macro_rules! timevalscalingfloat {
             type Output = Self;
             #[inline]
             fn mul(self, n: $time) -> Self::Output {
+                if !self.is_finite() && n != 0. {
+                    return if n < 0. { -self } else { self };
+                }
                 let t = self.0 as $time * n;
                 if t > INFINITE_TIME_VALUE as $time {
                     TimeValue::INFINITE
-- 
2.43.0


From 4e184d1bbfed44487cc73f0e13c7ccb9772316a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:48 +0000
Subject: [PATCH 38/39] fix: the empty window scaled by a float stays empty

---
 src/ops/scaling.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ops/scaling.rs b/src/ops/scaling.rs
index df91bb3..a752002 100644
--- a/src/ops/scaling.rs
+++ b/src/ops/scaling.rs
@@ -221,6 +221,7 @@ macro_rules! timespanscalingfloat {
             type Output = TimeSpan;
             #[inline]
             fn mul(self, f: $scale) -> Self::Output {
+                if self.is_empty() { return self; }
                 let (lower, upper) = if f < 0. {
                     // negative factor -> reverse interval
                     (self.upper * f, self.lower * f)
@@ -236,6 +237,7 @@ macro_rules! timespanscalingfloat {
             type Output = TimeSpan;
             #[inline]
             fn div(self, f: $scale) -> Self::Output {
+                if self.is_empty() { return self; }
                 let (lower, upper) = if f < 0. {
                     // negative factor -> reverse interval
                     (self.upper / f, self.lower / f)
-- 
2.43.0


From d0f9ec651d3deedcc1f75487df9d6e048c71a5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:49 +0000
Subject: [PATCH 39/39] fix: pieces of a set which meet when scaled by a float
 are joined

---
 src/ops/scaling.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ops/scaling.rs b/src/ops/scaling.rs
index a752002..0cb8f10 100644
--- a/src/ops/scaling.rs
+++ b/src/ops/scaling.rs
@@ -353,7 +353,8 @@ macro_rules! timespansscalefloat {
                     .map(|tw| *tw * f)
                     .collect::<Vec<_>>();
                 if f < 0. { inners.reverse() }
-                if f.abs() > 1. { check_joined_inners(&mut inners); }
+                // even if the factor is not less than 1, greatest bounds are rounded
+                check_joined_inners(&mut inners);
                 Self(inners)
             }
         }
@@ -366,7 +367,7 @@ macro_rules! timespansscalefloat {
             fn mul_assign(&mut self, f: $scale) {
                 self.0.iter_mut().for_each(|tw| *tw *= f);
                 if f < 0. { self.0.reverse() }
-                if f.abs() < 1. { check_joined_inners(&mut self.0) }
+                check_joined_inners(&mut self.0)
             }
         }
         impl DivAssign<$scale> for TimeSpans {
-- 
2.43.0

