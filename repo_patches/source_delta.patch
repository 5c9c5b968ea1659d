From b1046f330b991512274901caa5aa0ca452bf1b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:22 +0000
Subject: [PATCH 1/4] fix: intersect all parts of two LowerBoundedSets
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The unbounded part of the left operand was never intersected with the bounded
ranges of the right one, so e.g. (1..) as a set ∩ {3..5, 10..} lost 3..5.
---
 src/implementations/intersection/lower_bounded_set.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/implementations/intersection/lower_bounded_set.rs b/src/implementations/intersection/lower_bounded_set.rs
index 4a4b4bc..b7454f9 100644
--- a/src/implementations/intersection/lower_bounded_set.rs
+++ b/src/implementations/intersection/lower_bounded_set.rs
@@ -51,11 +51,9 @@ where
 {
     type Output = LowerBoundedSet<T>;
     fn intersection(self, other: R) -> Self::Output {
-        let mut set = RangeIntersection::intersection(
-            self.clone(),
-            other.clone().to_inner().lower_bounded_range,
-        );
-        set.add_set(RangeIntersection::intersection(self.ranges, other));
+        let other = other.to_inner();
+        let mut set = RangeIntersection::intersection(self.clone(), other.lower_bounded_range);
+        set.add_set(RangeIntersection::intersection(self, other.ranges));
         set
     }
 }
-- 
2.43.0


From 246bbb69695a6262ac7a8711f0a6221b17735fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:10 +0000
Subject: [PATCH 2/4] fix: don't step BoundedRangeIter past the extremes of its
 type

Iterating 0u8..=255, reversing 0u8..3, starting on 0u8..0, or asking for
nth(300) stepped past the type's limits: a panic in debug builds and a wrapped,
endless iterator in release builds.
---
 src/bounded_range.rs | 58 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 44 insertions(+), 14 deletions(-)

diff --git a/src/bounded_range.rs b/src/bounded_range.rs
index ea68456..fcede59 100644
--- a/src/bounded_range.rs
+++ b/src/bounded_range.rs
@@ -89,15 +89,25 @@ where
     type IntoIter = BoundedRangeIter<T>;
     type Item = T;
     fn into_iter(self) -> Self::IntoIter {
-        let current = match self.start {
-            LowerBound(Bound::Excluded(t)) => Step::forward(t, 1),
-            LowerBound(Bound::Included(t)) => t,
+        let (current, start_exhausted) = match self.start {
+            LowerBound(Bound::Excluded(t)) => match Step::forward_checked(t, 1) {
+                Some(next) => (next, false),
+                None => (t, true),
+            },
+            LowerBound(Bound::Included(t)) => (t, false),
         };
-        let last = match self.end {
-            UpperBound(Bound::Excluded(t)) => Step::backward(t, 1),
-            UpperBound(Bound::Included(t)) => t,
+        let (last, end_exhausted) = match self.end {
+            UpperBound(Bound::Excluded(t)) => match Step::backward_checked(t, 1) {
+                Some(prev) => (prev, false),
+                None => (t, true),
+            },
+            UpperBound(Bound::Included(t)) => (t, false),
         };
-        BoundedRangeIter { current, last }
+        BoundedRangeIter {
+            current,
+            last,
+            exhausted: start_exhausted || end_exhausted || current > last,
+        }
     }
 }
 
@@ -167,6 +177,9 @@ impl<T: Copy + Ord> BoundedRange<T> {
 pub struct BoundedRangeIter<T> {
     current: T,
     last: T,
+    /// Whether every value has been yielded. `current` and `last` alone can't express this at the
+    /// extremes of `T`, since there is nothing to step to past them.
+    exhausted: bool,
 }
 
 impl<T> Iterator for BoundedRangeIter<T>
@@ -176,16 +189,23 @@ where
     type Item = T;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.current > self.last {
+        if self.exhausted {
             None
         } else {
             let t = self.current;
-            self.current = Step::forward(self.current, 1);
+            if self.current < self.last {
+                self.current = Step::forward(self.current, 1);
+            } else {
+                self.exhausted = true;
+            }
             Some(t)
         }
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
+        if self.exhausted {
+            return (0, Some(0));
+        }
         let size = Step::steps_between(&self.current, &self.last)
             .map(|steps| steps + 1)
             .unwrap_or_default();
@@ -200,7 +220,7 @@ where
     where
         Self: Sized,
     {
-        if self.current > self.last {
+        if self.exhausted {
             None
         } else {
             Some(self.last)
@@ -208,7 +228,10 @@ where
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.current = Step::forward(self.current, n);
+        match Step::forward_checked(self.current, n) {
+            Some(current) if current <= self.last => self.current = current,
+            _ => self.exhausted = true,
+        }
         self.next()
     }
 
@@ -226,17 +249,24 @@ where
     T: Copy + Ord + Step,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
-        if self.current > self.last {
+        if self.exhausted {
             None
         } else {
             let t = self.last;
-            self.last = Step::backward(self.last, 1);
+            if self.current < self.last {
+                self.last = Step::backward(self.last, 1);
+            } else {
+                self.exhausted = true;
+            }
             Some(t)
         }
     }
 
     fn nth_back(&mut self, n: usize) -> Option<Self::Item> {
-        self.last = Step::backward(self.last, n);
+        match Step::backward_checked(self.last, n) {
+            Some(last) if last >= self.current => self.last = last,
+            _ => self.exhausted = true,
+        }
         self.next_back()
     }
 }
-- 
2.43.0


From d4bd7bbac8bae2c9e3735f1daf07d9bcc175f5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:14 +0000
Subject: [PATCH 3/4] fix: handle ranges with more than usize::MAX values when
 iterating

The length of such a range was reported as 0 (128-bit types) or overflowed
(0..=u64::MAX), so sets silently skipped it or panicked.
---
 src/bounded_range.rs     |  8 ++++----
 src/bounded_set.rs       | 20 +++++++++++++-------
 src/lower_bounded_set.rs |  2 +-
 3 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/bounded_range.rs b/src/bounded_range.rs
index fcede59..c303658 100644
--- a/src/bounded_range.rs
+++ b/src/bounded_range.rs
@@ -206,10 +206,10 @@ where
         if self.exhausted {
             return (0, Some(0));
         }
-        let size = Step::steps_between(&self.current, &self.last)
-            .map(|steps| steps + 1)
-            .unwrap_or_default();
-        (size, Some(size))
+        match Step::steps_between(&self.current, &self.last).and_then(|steps| steps.checked_add(1)) {
+            Some(size) => (size, Some(size)),
+            None => (usize::MAX, None),
+        }
     }
 
     fn count(self) -> usize {
diff --git a/src/bounded_set.rs b/src/bounded_set.rs
index 21cd260..6b0b756 100644
--- a/src/bounded_set.rs
+++ b/src/bounded_set.rs
@@ -124,7 +124,7 @@ where
         while self
             .range_iters
             .front()
-            .map(|i| i.len() == 0)
+            .map(|i| i.size_hint().0 == 0)
             .unwrap_or(false)
         {
             self.range_iters.pop_front();
@@ -133,8 +133,14 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = self.range_iters.iter().map(|i| i.len()).sum();
-        (size, Some(size))
+        let size = self
+            .range_iters
+            .iter()
+            .try_fold(0usize, |size, i| size.checked_add(i.size_hint().1?));
+        match size {
+            Some(size) => (size, Some(size)),
+            None => (usize::MAX, None),
+        }
     }
 
     fn count(self) -> usize
@@ -151,7 +157,7 @@ where
         while self
             .range_iters
             .back()
-            .map(|i| i.len() == 0)
+            .map(|i| i.size_hint().0 == 0)
             .unwrap_or(false)
         {
             self.range_iters.pop_back();
@@ -160,7 +166,7 @@ where
     }
 
     fn nth(&mut self, mut n: usize) -> Option<Self::Item> {
-        while let Some(len) = self.range_iters.front().map(|i| i.len()) {
+        while let Some(len) = self.range_iters.front().and_then(|i| i.size_hint().1) {
             if len <= n {
                 n -= len;
                 self.range_iters.remove(0);
@@ -188,7 +194,7 @@ where
         while self
             .range_iters
             .back()
-            .map(|i| i.len() == 0)
+            .map(|i| i.size_hint().0 == 0)
             .unwrap_or(false)
         {
             self.range_iters.pop_back();
@@ -197,7 +203,7 @@ where
     }
 
     fn nth_back(&mut self, mut n: usize) -> Option<Self::Item> {
-        while let Some(len) = self.range_iters.back_mut().map(|i| i.len()) {
+        while let Some(len) = self.range_iters.back().and_then(|i| i.size_hint().1) {
             if len <= n {
                 n -= len;
                 self.range_iters.pop_back();
diff --git a/src/lower_bounded_set.rs b/src/lower_bounded_set.rs
index 0485aa5..dcb9da6 100644
--- a/src/lower_bounded_set.rs
+++ b/src/lower_bounded_set.rs
@@ -127,7 +127,7 @@ where
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        let bounded_size = self.set_iter.len();
+        let bounded_size = self.set_iter.size_hint().0;
         self.set_iter
             .nth(n)
             .or_else(|| self.range_iter.nth(n - bounded_size))
-- 
2.43.0


From 424074e8a24875c82d9f9d569beb3ac14964a374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:18 +0000
Subject: [PATCH 4/4] fix: convert to std ranges without wrapping at the
 extremes of the type

Converting an empty range such as 0u8..0 to RangeInclusive (or an EmptyRange of
any unsigned type) panicked. In release builds, conversions without a
representable result wrapped instead of panicking, so that for example indexing
a slice with 0..=usize::MAX returned an empty slice and x > MAX became 0.. .
---
 src/bounded_range.rs       | 19 +++++++++++++++----
 src/lower_bounded_range.rs |  4 +++-
 src/upper_bounded_range.rs |  8 ++++++--
 3 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/bounded_range.rs b/src/bounded_range.rs
index c303658..8376274 100644
--- a/src/bounded_range.rs
+++ b/src/bounded_range.rs
@@ -54,12 +54,17 @@ where
 {
     fn from(r: BoundedRange<T>) -> Self {
         let start = match r.start.to_bound() {
-            Bound::Excluded(t) => Step::forward(t, 1),
+            Bound::Excluded(t) => match Step::forward_checked(t, 1) {
+                Some(start) => start,
+                None => return t..t,
+            },
             Bound::Included(t) => t,
         };
         let end = match r.end.to_bound() {
             Bound::Excluded(t) => t,
-            Bound::Included(t) => Step::forward(t, 1),
+            Bound::Included(t) => {
+                Step::forward_checked(t, 1).expect("Included bound has no excluded equivalent")
+            }
         };
         start..end
     }
@@ -71,11 +76,17 @@ where
 {
     fn from(r: BoundedRange<T>) -> Self {
         let start = match r.start.to_bound() {
-            Bound::Excluded(t) => Step::forward(t, 1),
+            Bound::Excluded(t) => match Step::forward_checked(t, 1) {
+                Some(start) => start,
+                None => return t..=Step::backward(t, 1),
+            },
             Bound::Included(t) => t,
         };
         let end = match r.end.to_bound() {
-            Bound::Excluded(t) => Step::backward(t, 1),
+            Bound::Excluded(t) => match Step::backward_checked(t, 1) {
+                Some(end) => end,
+                None => return Step::forward(t, 1)..=t,
+            },
             Bound::Included(t) => t,
         };
         start..=end
diff --git a/src/lower_bounded_range.rs b/src/lower_bounded_range.rs
index 1c7fb91..79d3e9c 100644
--- a/src/lower_bounded_range.rs
+++ b/src/lower_bounded_range.rs
@@ -36,7 +36,9 @@ where
 {
     fn from(r: LowerBoundedRange<T>) -> Self {
         match r.start.to_bound() {
-            Bound::Excluded(t) => Step::forward(t, 1)..,
+            Bound::Excluded(t) => {
+                Step::forward_checked(t, 1).expect("Excluded bound has no included equivalent")..
+            }
             Bound::Included(t) => t..,
         }
     }
diff --git a/src/upper_bounded_range.rs b/src/upper_bounded_range.rs
index 33bbbf5..0fa539c 100644
--- a/src/upper_bounded_range.rs
+++ b/src/upper_bounded_range.rs
@@ -44,7 +44,9 @@ where
     fn from(r: UpperBoundedRange<T>) -> Self {
         match r.end.to_bound() {
             Bound::Excluded(t) => ..t,
-            Bound::Included(t) => ..Step::forward(t, 1),
+            Bound::Included(t) => {
+                ..Step::forward_checked(t, 1).expect("Included bound has no excluded equivalent")
+            }
         }
     }
 }
@@ -55,7 +57,9 @@ where
 {
     fn from(r: UpperBoundedRange<T>) -> Self {
         match r.end.to_bound() {
-            Bound::Excluded(t) => ..=Step::backward(t, 1),
+            Bound::Excluded(t) => {
+                ..=Step::backward_checked(t, 1).expect("Excluded bound has no included equivalent")
+            }
             Bound::Included(t) => ..=t,
         }
     }
-- 
2.43.0

