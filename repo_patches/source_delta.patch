From cbdb5b120f87afcb6ae0934b0aa24ec573c8b17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:24 +0000
Subject: [PATCH 01/10] fix: intersect the unbounded tail of a LowerBoundedSet
 with the other set's ranges
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

LowerBoundedSet ∩ LowerBoundedSet only intersected self's bounded ranges with
the other set's bounded ranges, dropping (self's tail) ∩ (other's ranges).
---
 src/implementations/intersection/lower_bounded_set.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/implementations/intersection/lower_bounded_set.rs b/src/implementations/intersection/lower_bounded_set.rs
index 4a4b4bc..8b478eb 100644
--- a/src/implementations/intersection/lower_bounded_set.rs
+++ b/src/implementations/intersection/lower_bounded_set.rs
@@ -55,7 +55,7 @@ where
             self.clone(),
             other.clone().to_inner().lower_bounded_range,
         );
-        set.add_set(RangeIntersection::intersection(self.ranges, other));
+        set.add_set(RangeIntersection::intersection(self, other.to_inner().ranges));
         set
     }
 }
-- 
2.43.0


From fba0d512de167c434e27b167fe99f6a9d5f6778e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:08 +0000
Subject: [PATCH 02/10] fix: do not step past the limits of T when iterating a
 BoundedRange

Ranges touching the smallest or largest value of T panicked (or, in release
builds, wrapped around and never ended) in into_iter, next, next_back, nth and
nth_back.
---
 src/bounded_range.rs | 58 +++++++++++++++++++++++---------------------
 1 file changed, 30 insertions(+), 28 deletions(-)

diff --git a/src/bounded_range.rs b/src/bounded_range.rs
index ea68456..e0d5fcd 100644
--- a/src/bounded_range.rs
+++ b/src/bounded_range.rs
@@ -90,12 +90,12 @@ where
     type Item = T;
     fn into_iter(self) -> Self::IntoIter {
         let current = match self.start {
-            LowerBound(Bound::Excluded(t)) => Step::forward(t, 1),
-            LowerBound(Bound::Included(t)) => t,
+            LowerBound(Bound::Excluded(t)) => Step::forward_checked(t, 1),
+            LowerBound(Bound::Included(t)) => Some(t),
         };
         let last = match self.end {
-            UpperBound(Bound::Excluded(t)) => Step::backward(t, 1),
-            UpperBound(Bound::Included(t)) => t,
+            UpperBound(Bound::Excluded(t)) => Step::backward_checked(t, 1),
+            UpperBound(Bound::Included(t)) => Some(t),
         };
         BoundedRangeIter { current, last }
     }
@@ -165,8 +165,20 @@ impl<T: Copy + Ord> BoundedRange<T> {
 /// ```
 #[derive(Clone, Debug)]
 pub struct BoundedRangeIter<T> {
-    current: T,
-    last: T,
+    /// The next value from the front, or `None` if there is no such value of type `T`.
+    current: Option<T>,
+    /// The next value from the back, or `None` if there is no such value of type `T`.
+    last: Option<T>,
+}
+
+impl<T: Copy + Ord> BoundedRangeIter<T> {
+    /// The first and last remaining values, if there are any values remaining.
+    fn remaining(&self) -> Option<(T, T)> {
+        match (self.current, self.last) {
+            (Some(current), Some(last)) if current <= last => Some((current, last)),
+            _ => None,
+        }
+    }
 }
 
 impl<T> Iterator for BoundedRangeIter<T>
@@ -176,17 +188,15 @@ where
     type Item = T;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.current > self.last {
-            None
-        } else {
-            let t = self.current;
-            self.current = Step::forward(self.current, 1);
-            Some(t)
-        }
+        let (t, _) = self.remaining()?;
+        self.current = Step::forward_checked(t, 1);
+        Some(t)
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = Step::steps_between(&self.current, &self.last)
+        let size = self
+            .remaining()
+            .and_then(|(current, last)| Step::steps_between(&current, &last))
             .map(|steps| steps + 1)
             .unwrap_or_default();
         (size, Some(size))
@@ -200,15 +210,11 @@ where
     where
         Self: Sized,
     {
-        if self.current > self.last {
-            None
-        } else {
-            Some(self.last)
-        }
+        self.remaining().map(|(_, last)| last)
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.current = Step::forward(self.current, n);
+        self.current = self.current.and_then(|t| Step::forward_checked(t, n));
         self.next()
     }
 
@@ -226,17 +232,13 @@ where
     T: Copy + Ord + Step,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
-        if self.current > self.last {
-            None
-        } else {
-            let t = self.last;
-            self.last = Step::backward(self.last, 1);
-            Some(t)
-        }
+        let (_, t) = self.remaining()?;
+        self.last = Step::backward_checked(t, 1);
+        Some(t)
     }
 
     fn nth_back(&mut self, n: usize) -> Option<Self::Item> {
-        self.last = Step::backward(self.last, n);
+        self.last = self.last.and_then(|t| Step::backward_checked(t, n));
         self.next_back()
     }
 }
-- 
2.43.0


From 82cfb7924cb35be3a3ea32a1649e01833c10405b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:45 +0000
Subject: [PATCH 03/10] fix: report iterator sizes that overflow usize as
 unknown, not as 0

A range whose length does not fit in usize had a size_hint of (0, Some(0)), or
overflowed, which also made BoundedSet and LowerBoundedSet iterators skip it.
---
 src/bounded_range.rs     | 12 ++++++------
 src/bounded_set.rs       | 16 +++++++++-------
 src/lower_bounded_set.rs |  2 +-
 3 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/bounded_range.rs b/src/bounded_range.rs
index e0d5fcd..8ef07d5 100644
--- a/src/bounded_range.rs
+++ b/src/bounded_range.rs
@@ -194,12 +194,12 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = self
-            .remaining()
-            .and_then(|(current, last)| Step::steps_between(&current, &last))
-            .map(|steps| steps + 1)
-            .unwrap_or_default();
-        (size, Some(size))
+        match self.remaining() {
+            Some((current, last)) => Step::steps_between(&current, &last)
+                .and_then(|steps| steps.checked_add(1))
+                .map_or((usize::MAX, None), |size| (size, Some(size))),
+            None => (0, Some(0)),
+        }
     }
 
     fn count(self) -> usize {
diff --git a/src/bounded_set.rs b/src/bounded_set.rs
index 21cd260..292ed0c 100644
--- a/src/bounded_set.rs
+++ b/src/bounded_set.rs
@@ -124,7 +124,7 @@ where
         while self
             .range_iters
             .front()
-            .map(|i| i.len() == 0)
+            .map(|i| i.size_hint() == (0, Some(0)))
             .unwrap_or(false)
         {
             self.range_iters.pop_front();
@@ -133,8 +133,10 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = self.range_iters.iter().map(|i| i.len()).sum();
-        (size, Some(size))
+        self.range_iters
+            .iter()
+            .try_fold(0usize, |size, i| size.checked_add(i.size_hint().1?))
+            .map_or((usize::MAX, None), |size| (size, Some(size)))
     }
 
     fn count(self) -> usize
@@ -151,7 +153,7 @@ where
         while self
             .range_iters
             .back()
-            .map(|i| i.len() == 0)
+            .map(|i| i.size_hint() == (0, Some(0)))
             .unwrap_or(false)
         {
             self.range_iters.pop_back();
@@ -160,7 +162,7 @@ where
     }
 
     fn nth(&mut self, mut n: usize) -> Option<Self::Item> {
-        while let Some(len) = self.range_iters.front().map(|i| i.len()) {
+        while let Some(len) = self.range_iters.front().and_then(|i| i.size_hint().1) {
             if len <= n {
                 n -= len;
                 self.range_iters.remove(0);
@@ -188,7 +190,7 @@ where
         while self
             .range_iters
             .back()
-            .map(|i| i.len() == 0)
+            .map(|i| i.size_hint() == (0, Some(0)))
             .unwrap_or(false)
         {
             self.range_iters.pop_back();
@@ -197,7 +199,7 @@ where
     }
 
     fn nth_back(&mut self, mut n: usize) -> Option<Self::Item> {
-        while let Some(len) = self.range_iters.back_mut().map(|i| i.len()) {
+        while let Some(len) = self.range_iters.back().and_then(|i| i.size_hint().1) {
             if len <= n {
                 n -= len;
                 self.range_iters.pop_back();
diff --git a/src/lower_bounded_set.rs b/src/lower_bounded_set.rs
index 0485aa5..dcb9da6 100644
--- a/src/lower_bounded_set.rs
+++ b/src/lower_bounded_set.rs
@@ -127,7 +127,7 @@ where
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        let bounded_size = self.set_iter.len();
+        let bounded_size = self.set_iter.size_hint().0;
         self.set_iter
             .nth(n)
             .or_else(|| self.range_iter.nth(n - bounded_size))
-- 
2.43.0


From ecec170609053f9a41f55bd44d127d4863bfd1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:46 +0000
Subject: [PATCH 04/10] fix: do not walk the whole final range in
 BoundedSetIter::last

Calling last on a mutable reference picked the default implementation, which
steps through every value and effectively never returns for a wide range.
---
 src/bounded_set.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bounded_set.rs b/src/bounded_set.rs
index 292ed0c..1b9a698 100644
--- a/src/bounded_set.rs
+++ b/src/bounded_set.rs
@@ -158,7 +158,7 @@ where
         {
             self.range_iters.pop_back();
         }
-        self.range_iters.back_mut().map(|i| i.last()).flatten()
+        self.range_iters.pop_back().and_then(|i| i.last())
     }
 
     fn nth(&mut self, mut n: usize) -> Option<Self::Item> {
-- 
2.43.0


From f96a32ed14d3136852a915b0b61735008b902392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:48 +0000
Subject: [PATCH 05/10] fix: merge ranges iteratively so sets with many ranges
 do not exhaust the stack

Adding a range overlapping some tens of thousands of ranges of a set recursed
once per range and aborted the process with a stack overflow.
---
 src/bounded_set.rs   | 20 +++++++++-----------
 src/unbounded_set.rs |  7 +++----
 2 files changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/bounded_set.rs b/src/bounded_set.rs
index 1b9a698..af6cc17 100644
--- a/src/bounded_set.rs
+++ b/src/bounded_set.rs
@@ -61,20 +61,18 @@ impl<T> BoundedSet<T> {
 }
 
 impl<T: Copy + Ord> BoundedSet<T> {
-    pub(crate) fn add_range(&mut self, r: BoundedRange<T>) {
+    pub(crate) fn add_range(&mut self, mut r: BoundedRange<T>) {
         if !r.is_empty() {
-            if let Some(index) = self.ranges.iter().position(|range| range.intersects(r)) {
-                let new_range = r.combine(&self.ranges[index]);
+            while let Some(index) = self.ranges.iter().position(|range| range.intersects(r)) {
+                r = r.combine(&self.ranges[index]);
                 self.ranges.remove(index);
-                self.add_range(new_range);
-            } else {
-                let index = self
-                    .ranges
-                    .iter()
-                    .position(|range| range.start > r.start)
-                    .unwrap_or(self.ranges.len());
-                self.ranges.insert(index, r);
             }
+            let index = self
+                .ranges
+                .iter()
+                .position(|range| range.start > r.start)
+                .unwrap_or(self.ranges.len());
+            self.ranges.insert(index, r);
         }
     }
     pub(crate) fn add_set(&mut self, other: Self) {
diff --git a/src/unbounded_set.rs b/src/unbounded_set.rs
index a47108a..2d655bd 100644
--- a/src/unbounded_set.rs
+++ b/src/unbounded_set.rs
@@ -47,7 +47,7 @@ impl<T: Copy + Ord> PiecewiseUnboundedSet<T> {
     }
 
     fn defragment(&mut self) {
-        if let Some(index) = self
+        while let Some(index) = self
             .ranges
             .ranges
             .iter()
@@ -55,8 +55,8 @@ impl<T: Copy + Ord> PiecewiseUnboundedSet<T> {
         {
             let range = self.ranges.ranges.remove(index).unwrap();
             self.upper_bounded_range.end = self.upper_bounded_range.end.max(range.end);
-            self.defragment();
-        } else if let Some(index) = self
+        }
+        while let Some(index) = self
             .ranges
             .ranges
             .iter()
@@ -64,7 +64,6 @@ impl<T: Copy + Ord> PiecewiseUnboundedSet<T> {
         {
             let range = self.ranges.ranges.remove(index).unwrap();
             self.lower_bounded_range.start = self.lower_bounded_range.start.min(range.start);
-            self.defragment();
         }
     }
 }
-- 
2.43.0


From 779e1fe95eb3afb60a4f6182205ef0c4584e92ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:30 +0000
Subject: [PATCH 06/10] fix: convert empty ranges at the limits of T to empty
 std ranges

BoundedRange and EmptyRange conversions stepped past the smallest or largest
value of T: EmptyRange<u32> to RangeInclusive panicked, or became
0..=u32::MAX in release builds.
---
 src/bounded_range.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/bounded_range.rs b/src/bounded_range.rs
index 8ef07d5..2107881 100644
--- a/src/bounded_range.rs
+++ b/src/bounded_range.rs
@@ -54,7 +54,11 @@ where
 {
     fn from(r: BoundedRange<T>) -> Self {
         let start = match r.start.to_bound() {
-            Bound::Excluded(t) => Step::forward(t, 1),
+            Bound::Excluded(t) => match Step::forward_checked(t, 1) {
+                Some(start) => start,
+                // There are no values greater than `t`, so the range is empty.
+                None => return t..t,
+            },
             Bound::Included(t) => t,
         };
         let end = match r.end.to_bound() {
@@ -71,11 +75,19 @@ where
 {
     fn from(r: BoundedRange<T>) -> Self {
         let start = match r.start.to_bound() {
-            Bound::Excluded(t) => Step::forward(t, 1),
+            Bound::Excluded(t) => match Step::forward_checked(t, 1) {
+                Some(start) => start,
+                // There are no values greater than `t`, so the range is empty.
+                None => return t..=Step::backward(t, 1),
+            },
             Bound::Included(t) => t,
         };
         let end = match r.end.to_bound() {
-            Bound::Excluded(t) => Step::backward(t, 1),
+            Bound::Excluded(t) => match Step::backward_checked(t, 1) {
+                Some(end) => end,
+                // There are no values less than `t`, so the range is empty.
+                None => return Step::forward(t, 1)..=t,
+            },
             Bound::Included(t) => t,
         };
         start..=end
-- 
2.43.0


From 14b0702032d045f278b9afcf2fdd1a2b0b33976c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:32 +0000
Subject: [PATCH 07/10] fix: refuse to convert a range that the std range type
 cannot represent

With overflow checks off, converting e.g. 0..=usize::MAX to a Range wrapped
around to 0..0, so indexing with it silently returned an empty slice where
indexing with the std range panics.
---
 src/bounded_range.rs       | 4 +++-
 src/lower_bounded_range.rs | 4 +++-
 src/upper_bounded_range.rs | 8 ++++++--
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/bounded_range.rs b/src/bounded_range.rs
index 2107881..3b77e16 100644
--- a/src/bounded_range.rs
+++ b/src/bounded_range.rs
@@ -63,7 +63,9 @@ where
         };
         let end = match r.end.to_bound() {
             Bound::Excluded(t) => t,
-            Bound::Included(t) => Step::forward(t, 1),
+            Bound::Included(t) => {
+                Step::forward_checked(t, 1).expect("range end overflows its type")
+            }
         };
         start..end
     }
diff --git a/src/lower_bounded_range.rs b/src/lower_bounded_range.rs
index 1c7fb91..b724f43 100644
--- a/src/lower_bounded_range.rs
+++ b/src/lower_bounded_range.rs
@@ -36,7 +36,9 @@ where
 {
     fn from(r: LowerBoundedRange<T>) -> Self {
         match r.start.to_bound() {
-            Bound::Excluded(t) => Step::forward(t, 1)..,
+            Bound::Excluded(t) => {
+                Step::forward_checked(t, 1).expect("range start overflows its type")..
+            }
             Bound::Included(t) => t..,
         }
     }
diff --git a/src/upper_bounded_range.rs b/src/upper_bounded_range.rs
index 33bbbf5..3e643b7 100644
--- a/src/upper_bounded_range.rs
+++ b/src/upper_bounded_range.rs
@@ -44,7 +44,9 @@ where
     fn from(r: UpperBoundedRange<T>) -> Self {
         match r.end.to_bound() {
             Bound::Excluded(t) => ..t,
-            Bound::Included(t) => ..Step::forward(t, 1),
+            Bound::Included(t) => {
+                ..Step::forward_checked(t, 1).expect("range end overflows its type")
+            }
         }
     }
 }
@@ -55,7 +57,9 @@ where
 {
     fn from(r: UpperBoundedRange<T>) -> Self {
         match r.end.to_bound() {
-            Bound::Excluded(t) => ..=Step::backward(t, 1),
+            Bound::Excluded(t) => {
+                ..=Step::backward_checked(t, 1).expect("range end overflows its type")
+            }
             Bound::Included(t) => ..=t,
         }
     }
-- 
2.43.0


From 792e7a0201e06c5d7d1625d3abb0439559873123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:33 +0000
Subject: [PATCH 08/10] fix: treat an exhausted RangeInclusive as empty

A RangeInclusive that was iterated to the end is empty, but converting it (and
so any operation on it) resurrected its last value.
---
 src/bounded_range.rs                              | 10 ++++++++--
 src/implementations/rangetools/range_inclusive.rs |  2 +-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/bounded_range.rs b/src/bounded_range.rs
index 3b77e16..d8be0a5 100644
--- a/src/bounded_range.rs
+++ b/src/bounded_range.rs
@@ -1,7 +1,7 @@
 use crate::{Bound, LowerBound, Rangetools, Step, UpperBound};
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
-use std::iter::FusedIterator;
+use std::{iter::FusedIterator, ops::RangeBounds};
 
 /// A range bounded both below and above (either inclusive or exclusive).
 ///
@@ -40,10 +40,16 @@ impl<T> From<std::ops::Range<T>> for BoundedRange<T> {
 
 impl<T> From<std::ops::RangeInclusive<T>> for BoundedRange<T> {
     fn from(r: std::ops::RangeInclusive<T>) -> Self {
+        // A `RangeInclusive` that was iterated to exhaustion reports its end as excluded.
+        let exhausted = matches!(r.end_bound(), std::ops::Bound::Excluded(_));
         let (start, end) = r.into_inner();
         Self {
             start: LowerBound::included(start),
-            end: UpperBound::included(end),
+            end: if exhausted {
+                UpperBound::excluded(end)
+            } else {
+                UpperBound::included(end)
+            },
         }
     }
 }
diff --git a/src/implementations/rangetools/range_inclusive.rs b/src/implementations/rangetools/range_inclusive.rs
index c66249c..15b10f5 100644
--- a/src/implementations/rangetools/range_inclusive.rs
+++ b/src/implementations/rangetools/range_inclusive.rs
@@ -2,7 +2,7 @@ use crate::{BoundedRange, BoundedSet, Rangetools};
 
 impl<T: Copy + Ord> Rangetools for std::ops::RangeInclusive<T> {
     fn is_empty(&self) -> bool {
-        self.start() > self.end()
+        std::ops::RangeInclusive::is_empty(self)
     }
 
     type Inner = BoundedRange<T>;
-- 
2.43.0


From b07d6903275b84b2b4f8295bfd191ad852f3d699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:53 +0000
Subject: [PATCH 09/10] fix: an exhausted RangeInclusive whose start wrapped is
 still empty

---
 src/bounded_range.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/bounded_range.rs b/src/bounded_range.rs
index d8be0a5..2d42387 100644
--- a/src/bounded_range.rs
+++ b/src/bounded_range.rs
@@ -38,18 +38,21 @@ impl<T> From<std::ops::Range<T>> for BoundedRange<T> {
     }
 }
 
-impl<T> From<std::ops::RangeInclusive<T>> for BoundedRange<T> {
+impl<T: Clone> From<std::ops::RangeInclusive<T>> for BoundedRange<T> {
     fn from(r: std::ops::RangeInclusive<T>) -> Self {
-        // A `RangeInclusive` that was iterated to exhaustion reports its end as excluded.
+        // A `RangeInclusive` that was iterated to exhaustion reports its end as excluded. Its
+        // `start` and `end` are unspecified (`start` may have wrapped), but it is empty.
         let exhausted = matches!(r.end_bound(), std::ops::Bound::Excluded(_));
         let (start, end) = r.into_inner();
+        if exhausted {
+            return Self {
+                start: LowerBound::included(end.clone()),
+                end: UpperBound::excluded(end),
+            };
+        }
         Self {
             start: LowerBound::included(start),
-            end: if exhausted {
-                UpperBound::excluded(end)
-            } else {
-                UpperBound::included(end)
-            },
+            end: UpperBound::included(end),
         }
     }
 }
-- 
2.43.0


From c9b317102ed5d3d8ebe0a94d2ce7e1b0002a8d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:26 +0000
Subject: [PATCH 10/10] fix: step a lower-bounded iterator only when the next
 value is asked for

Creating the iterator stepped an excluded start eagerly, so iterating a
LowerBoundedSet whose tail starts after T::MAX panicked (or wrapped) before
any value of its bounded ranges came out, and T::MAX itself was never yielded.
---
 src/lower_bounded_range.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/lower_bounded_range.rs b/src/lower_bounded_range.rs
index b724f43..e1b1635 100644
--- a/src/lower_bounded_range.rs
+++ b/src/lower_bounded_range.rs
@@ -52,10 +52,7 @@ where
     type Item = T;
     fn into_iter(self) -> Self::IntoIter {
         LowerBoundedRangeIter {
-            current: match self.start {
-                LowerBound(Bound::Excluded(t)) => Step::forward(t, 1),
-                LowerBound(Bound::Included(t)) => t,
-            },
+            start: self.start.0,
         }
     }
 }
@@ -105,7 +102,8 @@ impl<T: Copy + Ord> LowerBoundedRange<T> {
 /// ```
 #[derive(Clone, Debug)]
 pub struct LowerBoundedRangeIter<T> {
-    current: T,
+    // Stepping forward is left to `next`: the successor need not exist until then.
+    start: Bound<T>,
 }
 
 impl<T> Iterator for LowerBoundedRangeIter<T>
@@ -115,8 +113,11 @@ where
     type Item = T;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let t = self.current;
-        self.current = Step::forward(self.current, 1);
+        let t = match self.start {
+            Bound::Excluded(t) => Step::forward(t, 1),
+            Bound::Included(t) => t,
+        };
+        self.start = Bound::Excluded(t);
         Some(t)
     }
 
@@ -125,7 +126,7 @@ where
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.current = Step::forward(self.current, n);
+        self.start = self.start.map(|t| Step::forward(t, n));
         self.next()
     }
 
-- 
2.43.0

