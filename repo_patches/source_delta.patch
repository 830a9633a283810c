From fb43d8ac27dee95fbe5f381d8b2a1e0e75854d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:12 +0000
Subject: [PATCH 01/48] fix: intersection iterator no longer yields inverted
 pieces for adjacent windows

---
 src/iter/intersect.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/iter/intersect.rs b/src/iter/intersect.rs
index 8aba6c9..92426b5 100644
--- a/src/iter/intersect.rs
+++ b/src/iter/intersect.rs
@@ -112,7 +112,7 @@ impl<I,J> Iterator for IterIntersection<I,J>
                     match (self.i.next(), self.j.next()) {
                         (None,_)|(_,None) => { self.state = InterState::End; return None; }
 
-                        (Some(i), Some(j)) if i.upper < j.lower.just_before() => {
+                        (Some(i), Some(j)) if i.upper < j.lower => {
                             // i:       [------------------]
                             // j:                                  [--------]
                             //=>tmp:                               [--------]
@@ -120,7 +120,7 @@ impl<I,J> Iterator for IterIntersection<I,J>
                             self.tmp=j;
                         },
 
-                        (Some(i), Some(j)) if j.upper < i.lower.just_before()  => {
+                        (Some(i), Some(j)) if j.upper < i.lower  => {
                             // i:                          [------------------]
                             // j:          [--------]
                             self.state = InterState::WaitJ;
@@ -149,11 +149,11 @@ impl<I,J> Iterator for IterIntersection<I,J>
                             self.state = InterState::End;
                             return None;
                         },
-                        Some(i) if i.upper < self.tmp.lower.just_before() => {
+                        Some(i) if i.upper < self.tmp.lower => {
                             // i:       [------------------]
                             // tmp:                                [--------]
                         },
-                        Some(i) if self.tmp.upper < i.lower.just_before()  => {
+                        Some(i) if self.tmp.upper < i.lower  => {
                             // i:                          [------------------]
                             // tmp:        [--------]
                             self.state = InterState::WaitJ;
@@ -182,11 +182,11 @@ impl<I,J> Iterator for IterIntersection<I,J>
                             self.state = InterState::End;
                             return None;
                         },
-                        Some(j) if j.upper < self.tmp.lower.just_before() => {
+                        Some(j) if j.upper < self.tmp.lower => {
                             // tmp:                                [--------]
                             // j:       [------------------]
                         },
-                        Some(j) if self.tmp.upper < j.lower.just_before()  => {
+                        Some(j) if self.tmp.upper < j.lower  => {
                             // tmp:        [--------]
                             // j:                          [------------------]
                             self.state = InterState::WaitI;
-- 
2.43.0


From a686c082d5e324cc7b79ca33b77c32be4bca7374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:13 +0000
Subject: [PATCH 02/48] fix: union iterator keeps the end of the first operand
 once the second is exhausted

---
 src/iter/union.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iter/union.rs b/src/iter/union.rs
index b57d3b1..023950f 100644
--- a/src/iter/union.rs
+++ b/src/iter/union.rs
@@ -186,8 +186,8 @@ impl<I,J> Iterator for IterUnion<I,J>
                 UnionState::WaitJ => {
                     match self.j.next() {
                         None => {
-                            /* end of the iterator over i...*/
-                            self.state = UnionState::OnlyJ;
+                            /* end of the iterator over j...*/
+                            self.state = UnionState::OnlyI;
                             return Some(self.tmp);
                         },
                         Some(j) if j.upper < self.tmp.lower.just_before() => {
-- 
2.43.0


From e4315ea2156f9db75506b857935d6361c02cec3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:14 +0000
Subject: [PATCH 03/48] fix: size_hint of the union iterator counts the piece
 it holds

---
 src/iter/union.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/iter/union.rs b/src/iter/union.rs
index 023950f..e377189 100644
--- a/src/iter/union.rs
+++ b/src/iter/union.rs
@@ -234,9 +234,11 @@ impl<I,J> Iterator for IterUnion<I,J>
             UnionState::OnlyJ => { self.j.size_hint() }
             UnionState::End => { (0, Some(0)) }
             _ => {
+                // when waiting, one more piece is held in tmp
+                let held = usize::from(!matches!(self.state, UnionState::Init));
                 if let (_,Some(imax)) = self.i.size_hint() {
                     if let (_,Some(jmax)) = self.j.size_hint() {
-                        return (0, Some(imax.saturating_add(jmax)));
+                        return (0, Some(imax.saturating_add(jmax).saturating_add(held)));
                     }
                 }
                 (0, None)
-- 
2.43.0


From 419c1608e3d02a32fa27ae2675e26781ad474ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:16 +0000
Subject: [PATCH 04/48] fix: size_hint of the complementary iterator counts the
 last unbounded piece

---
 src/iter/compl.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/iter/compl.rs b/src/iter/compl.rs
index 84205a9..8e3c792 100644
--- a/src/iter/compl.rs
+++ b/src/iter/compl.rs
@@ -91,10 +91,11 @@ impl<I:TimeConvexIterator> Iterator for IterComplementary<I>
     fn size_hint(&self) -> (usize, Option<usize>)
     {
         let (min,max) = self.iter.size_hint();
-        if self.lower.is_finite() {
-            (min.saturating_sub(1), max)
+        if self.lower.is_future_infinite() {
+            (0, Some(0))
         } else {
-            (min.saturating_sub(1), max.map(|i| i + 1))
+            // before each remaining piece, and after the last one
+            (min.saturating_sub(1), max.and_then(|i| i.checked_add(1)))
         }
     }
 }
-- 
2.43.0


From 9c75e16c69f08d1a6dfb86790c817023f7f12f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:26 +0000
Subject: [PATCH 05/48] fix: the intersection of disjoint intervals is the
 empty interval

---
 src/ops/intersect.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/ops/intersect.rs b/src/ops/intersect.rs
index 46415da..75eb219 100644
--- a/src/ops/intersect.rs
+++ b/src/ops/intersect.rs
@@ -26,8 +26,7 @@ impl<T:TimePoint,TW> BitAndAssign<TW> for TimeInterval<T>
 {
     #[inline]
     fn bitand_assign(&mut self, tw: TW) {
-        if self.lower < tw.lower_bound() { self.lower = tw.lower_bound(); }
-        if self.upper > tw.upper_bound() { self.upper = tw.upper_bound(); }
+        *self = self.bitand(tw);
     }
 }
 
@@ -48,10 +47,7 @@ impl<T:TimePoint,TW> BitAnd<TW> for &TimeInterval<T>
     #[inline]
     fn bitand(self, tw: TW) -> Self::Output {
         let i = tw.into();
-        TimeInterval {
-            lower: self.lower.max(i.lower),
-            upper: self.upper.min(i.upper)
-        }
+        TimeInterval::new(self.lower.max(i.lower), self.upper.min(i.upper))
     }
 }
 
-- 
2.43.0


From bfca054e903fbdb78b2235a77a7cd5f7d552efe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:28 +0000
Subject: [PATCH 06/48] fix: every time window contains the empty window

---
 src/relns/contain.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/relns/contain.rs b/src/relns/contain.rs
index 16a9f72..d839eb9 100644
--- a/src/relns/contain.rs
+++ b/src/relns/contain.rs
@@ -11,7 +11,8 @@ impl<TW1:TimeConvex,TW2> TimeContaining<TW2> for TW1
 {
     #[inline]
     fn contains(&self, rhs: &TW2) -> bool {
-        self.lower_bound() <= rhs.lower_bound() && rhs.upper_bound() <= self.upper_bound()
+        rhs.is_empty() ||
+            (self.lower_bound() <= rhs.lower_bound() && rhs.upper_bound() <= self.upper_bound())
     }
 }
 
@@ -22,7 +23,7 @@ impl<T:TimePoint,TW> TimeContaining<TW> for TimeSet<T>
     #[inline]
     fn contains(&self, rhs: &TW) -> bool
     {
-        self.0.iter()
+        rhs.is_empty() || self.0.iter()
             .find(|ts| ts.upper_bound() >= rhs.lower_bound())
             .map(|ts| ts.contains(rhs))
             .unwrap_or(false)
-- 
2.43.0


From 79188fa9ee8bbb33f2c7922c3226232fac3f71fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:29 +0000
Subject: [PATCH 07/48] fix: nothing overlaps the empty window

---
 src/relns/overlap.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/relns/overlap.rs b/src/relns/overlap.rs
index 5f37e78..4ff4b4c 100644
--- a/src/relns/overlap.rs
+++ b/src/relns/overlap.rs
@@ -14,7 +14,8 @@ impl<TW1:TimeConvex,TW2:TimeConvex> TimeOverlapping<TW2> for TW1
 {
     #[inline]
     fn overlaps(&self, rhs: &TW2) -> bool {
-        self.lower_bound() <= rhs.upper_bound() && rhs.lower_bound() <= self.upper_bound()
+        !self.is_empty() && !rhs.is_empty()
+            && self.lower_bound() <= rhs.upper_bound() && rhs.lower_bound() <= self.upper_bound()
     }
 }
 
@@ -33,7 +34,7 @@ impl<T:TimePoint, TW> TimeOverlapping<TW> for TimeSet<T>
     #[inline]
     fn overlaps(&self, rhs: &TW) -> bool
     {
-        self.0.iter()
+        !rhs.is_empty() && self.0.iter()
             .find(|ts| ts.upper_bound() >= rhs.lower_bound())
             .map(|ts| ts.lower_bound() <= rhs.upper_bound())
             .unwrap_or(false)
-- 
2.43.0


From 67fb0957d83df476393a3c238ecc201f072cef02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:45 +0000
Subject: [PATCH 08/48] fix: an empty window is neither before nor after any
 other

---
 src/relns/ordering.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/relns/ordering.rs b/src/relns/ordering.rs
index 41c523d..55ee286 100644
--- a/src/relns/ordering.rs
+++ b/src/relns/ordering.rs
@@ -46,7 +46,7 @@ macro_rules! timepartialcmp {
 
             #[inline]
             fn lt(&self, other: &TW) -> bool {
-                self.upper_bound() < other.lower_bound()
+                !self.is_empty() && !other.is_empty() && self.upper_bound() < other.lower_bound()
             }
 
             #[inline]
@@ -56,7 +56,7 @@ macro_rules! timepartialcmp {
 
             #[inline]
             fn gt(&self, other: &TW) -> bool {
-                self.lower_bound() > other.upper_bound()
+                !self.is_empty() && !other.is_empty() && self.lower_bound() > other.upper_bound()
             }
 
             #[inline]
-- 
2.43.0


From 296e38751adde15909fe285e254c324d500e5bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:47 +0000
Subject: [PATCH 09/48] fix: an empty interval is not bounded, does not cover
 everything and prints as {}

---
 src/wins/format.rs       | 5 ++++-
 src/wins/mod.rs          | 2 +-
 src/wins/timeinterval.rs | 4 ++--
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/wins/format.rs b/src/wins/format.rs
index e97c111..9e84515 100644
--- a/src/wins/format.rs
+++ b/src/wins/format.rs
@@ -199,7 +199,10 @@ impl<T:TimePoint+fmt::Debug> fmt::Debug for TimeInterval<T>
     #[allow(clippy::collapsible_else_if)]
     fn fmt(&self, formatter: &mut fmt::Formatter) -> fmt::Result
     {
-        if self.is_low_bounded() {
+        if self.is_empty() {
+            write!(formatter, "{{}}")
+
+        } else if self.is_low_bounded() {
             if self.is_up_bounded() {
                 if self.lower == self.upper {
                     write!(formatter, "{{{:?}}}", self.lower)
diff --git a/src/wins/mod.rs b/src/wins/mod.rs
index 8acaf6d..73a72d7 100644
--- a/src/wins/mod.rs
+++ b/src/wins/mod.rs
@@ -74,7 +74,7 @@ pub trait TimeWindow : TimeBounds {
 
     #[inline]
     fn is_all(&self) -> bool {
-        self.is_convex() && !self.is_low_bounded() && !self.is_up_bounded()
+        !self.is_empty() && self.is_convex() && !self.is_low_bounded() && !self.is_up_bounded()
     }
 
     /// Checks if this time window is an interval
diff --git a/src/wins/timeinterval.rs b/src/wins/timeinterval.rs
index 9c21513..9f60e92 100644
--- a/src/wins/timeinterval.rs
+++ b/src/wins/timeinterval.rs
@@ -184,8 +184,8 @@ impl<T:TimePoint> TimeBounds for TimeInterval<T>
     #[inline] fn is_empty(&self) -> bool { self.lower.is_future_infinite() }
     #[inline] fn is_singleton(&self) -> bool { self.lower == self.upper }
     #[inline] fn is_bounded(&self) -> bool { self.is_low_bounded() && self.is_up_bounded() }
-    #[inline] fn is_low_bounded(&self) -> bool { !self.lower.is_past_infinite() }
-    #[inline] fn is_up_bounded(&self) -> bool { !self.upper.is_future_infinite() }
+    #[inline] fn is_low_bounded(&self) -> bool { !self.is_empty() && !self.lower.is_past_infinite() }
+    #[inline] fn is_up_bounded(&self) -> bool { !self.is_empty() && !self.upper.is_future_infinite() }
     #[inline] fn lower_bound(&self) -> Self::TimePoint { self.lower }
     #[inline] fn upper_bound(&self) -> Self::TimePoint { self.upper }
 }
-- 
2.43.0


From e13ba7c548b6f6e4cd5554c249732fa9cfa52817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:48 +0000
Subject: [PATCH 10/48] fix: truncating a window before +oo or after -oo leaves
 it empty

---
 src/wins/timeinterval.rs | 4 ++--
 src/wins/timeset.rs      | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/wins/timeinterval.rs b/src/wins/timeinterval.rs
index 9f60e92..cf3bf88 100644
--- a/src/wins/timeinterval.rs
+++ b/src/wins/timeinterval.rs
@@ -127,7 +127,7 @@ impl<T:TimePoint> TimeTruncation for TimeInterval<T>
         if lower <= self.lower {
             false
         } else {
-            if self.upper < lower {
+            if self.upper < lower || lower.is_future_infinite() {
                 *self = Self::empty();
             } else {
                 self.lower = lower;
@@ -142,7 +142,7 @@ impl<T:TimePoint> TimeTruncation for TimeInterval<T>
         if self.upper <= upper {
             false
         } else {
-            if upper < self.lower {
+            if upper < self.lower || upper.is_past_infinite() {
                 *self = Self::empty();
             } else {
                 self.upper = upper;
diff --git a/src/wins/timeset.rs b/src/wins/timeset.rs
index 7890ae3..fcad91b 100644
--- a/src/wins/timeset.rs
+++ b/src/wins/timeset.rs
@@ -174,7 +174,8 @@ impl<T:TimePoint> TimeTruncation for TimeSet<T>
     /// Returns `true` if something changed
     fn truncate_before(&mut self, lower: T) -> bool
     {
-        match self.0.iter().position(|i| i.upper_bound() >= lower)
+        // +oo belongs to no window, even to an unbounded one
+        match self.0.iter().position(|i| i.upper_bound() >= lower && !lower.is_future_infinite())
         {
             Some(0) => {
                 // only the first element could change
@@ -194,7 +195,8 @@ impl<T:TimePoint> TimeTruncation for TimeSet<T>
     /// Returns `true` if something changed
     fn truncate_after(&mut self, upper: T) -> bool
     {
-        match self.0.iter().rposition(|i| i.lower_bound() <= upper)
+        // -oo belongs to no window, even to an unbounded one
+        match self.0.iter().rposition(|i| i.lower_bound() <= upper && !upper.is_past_infinite())
         {
             Some(pos) if pos+1 == self.0.len() => {
                 // only the last element could change
-- 
2.43.0


From 366ec217a470c9d1e7137642d4648acf69b7a045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:49 +0000
Subject: [PATCH 11/48] fix: the singleton set of an infinite timepoint has no
 empty piece

---
 src/wins/timeset.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wins/timeset.rs b/src/wins/timeset.rs
index fcad91b..5ff773d 100644
--- a/src/wins/timeset.rs
+++ b/src/wins/timeset.rs
@@ -43,7 +43,7 @@ impl<T:TimePoint> TimeSet<T>
     /// Retuns a timeset composed of the convex interval `[t,t]`
     #[inline]
     pub fn singleton(t: T) -> Self {
-        Self(vec![TimeInterval::singleton(t)])
+        TimeInterval::singleton(t).into()
     }
 
     /// The empty set
-- 
2.43.0


From 1ac66abcad5a8b0f9775d098eb381a7a95a653d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:50 +0000
Subject: [PATCH 12/48] fix: collecting intervals into a set skips the empty
 ones

---
 src/wins/timeset.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wins/timeset.rs b/src/wins/timeset.rs
index 5ff773d..079ef36 100644
--- a/src/wins/timeset.rs
+++ b/src/wins/timeset.rs
@@ -124,7 +124,7 @@ impl<T:TimePoint> FromIterator<TimeInterval<T>> for TimeSet<T>
 {
     fn from_iter<I: IntoIterator<Item=TimeInterval<T>>>(iter: I) -> Self
     {
-        let mut iter = iter.into_iter();
+        let mut iter = iter.into_iter().filter(|i| !i.is_empty());
         match iter.next() {
             None => Self::empty(),
             Some(first) => iter.fold(first.into(), |mut r, i| {
-- 
2.43.0


From 50e0758351f1f203d3ac0c96edcc0dcc052e7aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:36 +0000
Subject: [PATCH 13/48] fix: in-place translation of a finite singleton does
 not panic

---
 src/ops/transl.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ops/transl.rs b/src/ops/transl.rs
index e2a84ca..291239a 100644
--- a/src/ops/transl.rs
+++ b/src/ops/transl.rs
@@ -33,7 +33,7 @@ impl<T> AddAssign<TimeValue> for TimeInterval<T>
     fn add_assign(&mut self, other: TimeValue) {
         self.lower += other;
         self.upper += other;
-        assert!( (self.lower != self.upper) || !self.lower.is_finite() );
+        assert!( (self.lower != self.upper) || self.lower.is_finite() );
     }
 }
 
@@ -44,7 +44,7 @@ impl<T> SubAssign<TimeValue> for TimeInterval<T>
     fn sub_assign(&mut self, other: TimeValue) {
         self.lower -= other;
         self.upper -= other;
-        assert!( (self.lower != self.upper) || !self.lower.is_finite() );
+        assert!( (self.lower != self.upper) || self.lower.is_finite() );
     }
 }
 
@@ -91,7 +91,7 @@ impl<T> AddAssign<TimeSpan> for TimeInterval<T>
     fn add_assign(&mut self, other: TimeSpan) {
         self.lower += other.lower;
         self.upper += other.upper;
-        assert!( (self.lower != self.upper) || !self.lower.is_finite() );
+        assert!( (self.lower != self.upper) || self.lower.is_finite() );
     }
 }
 
@@ -102,7 +102,7 @@ impl<T> SubAssign<TimeSpan> for TimeInterval<T>
     fn sub_assign(&mut self, other: TimeSpan) {
         self.lower -= other.upper;
         self.upper -= other.lower;
-        assert!( (self.lower != self.upper) || !self.lower.is_finite() );
+        assert!( (self.lower != self.upper) || self.lower.is_finite() );
     }
 }
 
-- 
2.43.0


From 23b210b0291f69ed67590e97323ee9bf830b4c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:58 +0000
Subject: [PATCH 14/48] fix: translating an empty window or by an empty window
 gives an empty window

---
 src/ops/transl.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/ops/transl.rs b/src/ops/transl.rs
index 291239a..2b64c4a 100644
--- a/src/ops/transl.rs
+++ b/src/ops/transl.rs
@@ -9,6 +9,7 @@ impl<T> Add<TimeValue> for TimeInterval<T>
 {
     type Output = Self;
     #[inline] fn add(self, other: TimeValue) -> Self::Output {
+        if self.is_empty() { return TimeInterval::empty(); }
         let tw = TimeInterval::new(self.lower + other, self.upper + other);
         debug_assert!(!tw.is_empty(), "time interval translation overflows");
         tw
@@ -20,6 +21,7 @@ impl<T> Sub<TimeValue> for TimeInterval<T>
 {
     type Output = Self;
     #[inline] fn sub(self, other: TimeValue) -> Self::Output {
+        if self.is_empty() { return TimeInterval::empty(); }
         let tw = TimeInterval::new(self.lower - other, self.upper - other);
         debug_assert!(!tw.is_empty(), "time interval translation overflows");
         tw
@@ -31,6 +33,7 @@ impl<T> AddAssign<TimeValue> for TimeInterval<T>
 {
     #[inline]
     fn add_assign(&mut self, other: TimeValue) {
+        if self.is_empty() { return; }
         self.lower += other;
         self.upper += other;
         assert!( (self.lower != self.upper) || self.lower.is_finite() );
@@ -42,6 +45,7 @@ impl<T> SubAssign<TimeValue> for TimeInterval<T>
 {
     #[inline]
     fn sub_assign(&mut self, other: TimeValue) {
+        if self.is_empty() { return; }
         self.lower -= other;
         self.upper -= other;
         assert!( (self.lower != self.upper) || self.lower.is_finite() );
@@ -67,6 +71,7 @@ impl<T> Add<TimeSpan> for TimeInterval<T>
 {
     type Output = Self;
     #[inline] fn add(self, other: TimeSpan) -> Self::Output {
+        if self.is_empty() || other.is_empty() { return TimeInterval::empty(); }
         let tw = TimeInterval::new(self.lower + other.lower, self.upper + other.upper);
         debug_assert!(!tw.is_empty(), "time interval translation overflows");
         tw
@@ -78,6 +83,7 @@ impl<T> Sub<TimeSpan> for TimeInterval<T>
 {
     type Output = Self;
     #[inline] fn sub(self, other: TimeSpan) -> Self::Output {
+        if self.is_empty() || other.is_empty() { return TimeInterval::empty(); }
         let tw = TimeInterval::new(self.lower - other.upper, self.upper - other.lower);
         debug_assert!(!tw.is_empty(), "time interval translation overflows");
         tw
@@ -89,6 +95,7 @@ impl<T> AddAssign<TimeSpan> for TimeInterval<T>
 {
     #[inline]
     fn add_assign(&mut self, other: TimeSpan) {
+        if self.is_empty() || other.is_empty() { *self = Self::empty(); return; }
         self.lower += other.lower;
         self.upper += other.upper;
         assert!( (self.lower != self.upper) || self.lower.is_finite() );
@@ -100,6 +107,7 @@ impl<T> SubAssign<TimeSpan> for TimeInterval<T>
 {
     #[inline]
     fn sub_assign(&mut self, other: TimeSpan) {
+        if self.is_empty() || other.is_empty() { *self = Self::empty(); return; }
         self.lower -= other.upper;
         self.upper -= other.lower;
         assert!( (self.lower != self.upper) || self.lower.is_finite() );
@@ -110,6 +118,7 @@ impl Add<TimeSpan> for Timestamp {
     type Output = TimeSlot;
     #[inline]
     fn add(self, other: TimeSpan) -> Self::Output {
+        if other.is_empty() { return TimeSlot::empty(); }
         let tw = TimeSlot::new(self + other.lower, self + other.upper);
         debug_assert!(!tw.is_empty(), "time interval translation overflows");
         tw
@@ -120,6 +129,7 @@ impl Sub<TimeSpan> for Timestamp {
     type Output = TimeSlot;
     #[inline]
     fn sub(self, other: TimeSpan) -> Self::Output {
+        if other.is_empty() { return TimeSlot::empty(); }
         let tw = TimeSlot::new(self - other.upper, self - other.lower);
         debug_assert!(!tw.is_empty(), "time interval translation overflows");
         tw
@@ -142,6 +152,7 @@ impl Sub for TimeSlot {
     type Output = TimeSpan;
     #[inline]
     fn sub(self, other: Self) -> Self::Output {
+        if self.is_empty() || other.is_empty() { return TimeInterval::empty(); }
         let tw = TimeInterval::new(self.lower - other.upper,self.upper - other.lower);
         debug_assert!(!tw.is_empty(), "time interval translation overflows");
         tw
@@ -152,6 +163,7 @@ impl Sub<Timestamp> for TimeSlot {
     type Output = TimeSpan;
     #[inline]
     fn sub(self, other: Timestamp) -> Self::Output {
+        if self.is_empty() { return TimeInterval::empty(); }
         let tw = TimeInterval::new(self.lower - other,self.upper - other);
         debug_assert!(!tw.is_empty(), "time interval translation overflows");
         tw
@@ -162,6 +174,7 @@ impl Sub<TimeSlot> for Timestamp {
     type Output = TimeSpan;
     #[inline]
     fn sub(self, other: TimeSlot) -> Self::Output {
+        if other.is_empty() { return TimeInterval::empty(); }
         let tw = TimeInterval::new(self - other.upper,self - other.lower);
         debug_assert!(!tw.is_empty(), "time interval translation overflows");
         tw
-- 
2.43.0


From e7b126c69485c60f143eecac3fb561f8c93b4223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:59 +0000
Subject: [PATCH 15/48] fix: scaling a duration by a huge integer and dividing
 an infinite one keep the right sign

---
 src/ops/scaling.rs | 46 +++++++++++++++++++++++-----------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/src/ops/scaling.rs b/src/ops/scaling.rs
index 611abde..7c528e8 100644
--- a/src/ops/scaling.rs
+++ b/src/ops/scaling.rs
@@ -3,6 +3,21 @@ use std::ops::{Div, DivAssign, Mul, MulAssign};
 
 //-------------- TIMEVALUE SCALING -----------------------------
 
+impl TimeValue {
+    // infinite values remain infinite
+    #[inline]
+    fn saturating_div(self, n: i64) -> Self {
+        let quotient = self.0.saturating_div(n);
+        if self.is_finite() {
+            TimeValue::from_ticks(quotient)
+        } else if n < 0 {
+            -self
+        } else {
+            self
+        }
+    }
+}
+
 // GROUP 1: scale factor is always less than i64::MAX (abs value)
 macro_rules! timevalscalingsmall {
     ($scale: ty) => {
@@ -15,7 +30,7 @@ macro_rules! timevalscalingsmall {
         impl Div<$scale> for TimeValue {
             type Output = Self;
             #[inline] fn div(self, n: $scale) -> Self::Output {
-                TimeValue::from_ticks(self.0.saturating_div(n as i64))
+                self.saturating_div(n as i64)
             }
         }
     };
@@ -35,23 +50,16 @@ macro_rules! timevalscalingbig {
         impl Mul<$time> for TimeValue {
             type Output = Self;
             #[inline] fn mul(self, n: $time) -> Self::Output {
-                if n > INFINITE_TIME_VALUE as $time {
-                    TimeValue::INFINITE
-                } else if n < -INFINITE_TIME_VALUE as $time {
-                    -TimeValue::INFINITE
-                } else {
-                    TimeValue::from_ticks(self.0.saturating_mul(n as i64))
-                }
+                // beyond i64, only the sign of the factor matters
+                let n = i64::try_from(n).unwrap_or(if n < 0 { i64::MIN } else { i64::MAX });
+                TimeValue::from_ticks(self.0.saturating_mul(n))
             }
         }
         impl Div<$time> for TimeValue {
             type Output = Self;
             #[inline] fn div(self, n: $time) -> Self::Output {
-                if n > INFINITE_TIME_VALUE as $time || n < -INFINITE_TIME_VALUE as $time {
-                    TimeValue::default() // zero
-                } else {
-                    TimeValue::from_ticks(self.0.saturating_div(n as i64))
-                }
+                // beyond i64, only the sign of the divisor matters
+                self.saturating_div(i64::try_from(n).unwrap_or(if n < 0 { i64::MIN } else { i64::MAX }))
             }
         }
     };
@@ -67,21 +75,13 @@ macro_rules! timevalscalingubig {
         impl Mul<$time> for TimeValue {
             type Output = Self;
             #[inline] fn mul(self, n: $time) -> Self::Output {
-                if n > INFINITE_TIME_VALUE as $time {
-                    TimeValue::INFINITE
-                } else {
-                    TimeValue::from_ticks(self.0.saturating_mul(n as i64))
-                }
+                TimeValue::from_ticks(self.0.saturating_mul(i64::try_from(n).unwrap_or(i64::MAX)))
             }
         }
         impl Div<$time> for TimeValue {
             type Output = Self;
             #[inline] fn div(self, n: $time) -> Self::Output {
-                if n > INFINITE_TIME_VALUE as $time {
-                    TimeValue::default() // zero
-                } else {
-                    TimeValue::from_ticks(self.0.saturating_div(n as i64))
-                }
+                self.saturating_div(i64::try_from(n).unwrap_or(i64::MAX))
             }
         }
     };
-- 
2.43.0


From 7f61001f5da3b6ac29a430150ea1e891804b803e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:34 +0000
Subject: [PATCH 16/48] fix: an infinite duration scaled by a float remains
 infinite

---
 src/ops/scaling.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ops/scaling.rs b/src/ops/scaling.rs
index 7c528e8..5828ac8 100644
--- a/src/ops/scaling.rs
+++ b/src/ops/scaling.rs
@@ -99,6 +99,10 @@ macro_rules! timevalscalingfloat {
             type Output = Self;
             #[inline]
             fn mul(self, n: $time) -> Self::Output {
+                if !self.is_finite() && n != 0. {
+                    // infinite values remain infinite
+                    return if n < 0. { -self } else { self };
+                }
                 let t = self.0 as $time * n;
                 if t > INFINITE_TIME_VALUE as $time {
                     TimeValue::INFINITE
-- 
2.43.0


From 9df811167ba0c8f3b9ba56fb266e770b9e946824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:35 +0000
Subject: [PATCH 17/48] fix: dividing by a float does not multiply by its
 rounded inverse

---
 src/ops/scaling.rs | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/ops/scaling.rs b/src/ops/scaling.rs
index 5828ac8..0bbac92 100644
--- a/src/ops/scaling.rs
+++ b/src/ops/scaling.rs
@@ -117,7 +117,18 @@ macro_rules! timevalscalingfloat {
             type Output = Self;
             #[inline]
             fn div(self, n: $time) -> Self::Output {
-                self.mul(1. / n)
+                if !self.is_finite() {
+                    // infinite values remain infinite
+                    return if n < 0. { -self } else { self };
+                }
+                let t = self.0 as $time / n;
+                if t > INFINITE_TIME_VALUE as $time {
+                    TimeValue::INFINITE
+                } else if t < -INFINITE_TIME_VALUE as $time {
+                    -TimeValue::INFINITE
+                } else {
+                    TimeValue::from_ticks(t as i64)
+                }
             }
         }
     };
@@ -344,7 +355,11 @@ macro_rules! timespansscalefloat {
         }
         impl Div<$scale> for TimeSpans {
             type Output = TimeSpans;
-            #[inline] fn div(self, f: $scale) -> Self::Output { self * (1./f) }
+            #[inline]
+            fn div(self, f: $scale) -> Self::Output {
+                let mut copy = self;
+                copy /= f; copy
+            }
         }
         impl MulAssign<$scale> for TimeSpans {
             #[inline]
@@ -355,7 +370,12 @@ macro_rules! timespansscalefloat {
             }
         }
         impl DivAssign<$scale> for TimeSpans {
-            #[inline] fn div_assign(&mut self, f: $scale) { *self *= 1./f }
+            #[inline]
+            fn div_assign(&mut self, f: $scale) {
+                self.0.iter_mut().for_each(|tw| *tw /= f);
+                if f < 0. { self.0.reverse() }
+                check_joined_inners(&mut self.0)
+            }
         }
     };
 }
-- 
2.43.0


From 84dc119ae6884867bbb27ea273f20ef79f987d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:36 +0000
Subject: [PATCH 18/48] fix: pieces of a set which meet when scaled by a float
 are joined

---
 src/ops/scaling.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ops/scaling.rs b/src/ops/scaling.rs
index 0bbac92..41d9422 100644
--- a/src/ops/scaling.rs
+++ b/src/ops/scaling.rs
@@ -349,7 +349,7 @@ macro_rules! timespansscalefloat {
                     .map(|tw| *tw * f)
                     .collect::<Vec<_>>();
                 if f < 0. { inners.reverse() }
-                if f.abs() > 1. { check_joined_inners(&mut inners); }
+                check_joined_inners(&mut inners);
                 Self(inners)
             }
         }
@@ -366,7 +366,7 @@ macro_rules! timespansscalefloat {
             fn mul_assign(&mut self, f: $scale) {
                 self.0.iter_mut().for_each(|tw| *tw *= f);
                 if f < 0. { self.0.reverse() }
-                if f.abs() < 1. { check_joined_inners(&mut self.0) }
+                check_joined_inners(&mut self.0)
             }
         }
         impl DivAssign<$scale> for TimeSpans {
-- 
2.43.0


From 665c6cdcbc329f4906c1bc6bdf45ede53b73f89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:38 +0000
Subject: [PATCH 19/48] fix: a non-empty set multiplied by zero is {0}

---
 src/ops/scaling.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ops/scaling.rs b/src/ops/scaling.rs
index 41d9422..a243c3e 100644
--- a/src/ops/scaling.rs
+++ b/src/ops/scaling.rs
@@ -277,7 +277,7 @@ macro_rules! timespansscaleint {
                     if self.is_empty() {
                         TimeSpans::empty()
                     } else {
-                        Self(vec![ TimeSpan::default() ])
+                        TimeSpans::singleton(TimeValue::default())
                     }
                 } else {
                     // since factor is non null integer, the scale increases distances between
@@ -304,7 +304,7 @@ macro_rules! timespansscaleint {
                 if n == 0 {
                     if !self.is_empty() {
                         self.0.clear();
-                        self.0.push(TimeSpan::default());
+                        self.0.push(TimeSpan::singleton(TimeValue::default()));
                     }
                 } else {
                     self.0.iter_mut().for_each(|tw| *tw *= n);
-- 
2.43.0


From 4c0ee458d01e7d135b1fc703f5dd7804b5cd1bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:39 +0000
Subject: [PATCH 20/48] fix: scaling an empty interval gives an empty interval

---
 src/ops/scaling.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ops/scaling.rs b/src/ops/scaling.rs
index a243c3e..c518f00 100644
--- a/src/ops/scaling.rs
+++ b/src/ops/scaling.rs
@@ -171,6 +171,7 @@ macro_rules! timespanscalingint {
             #[inline]
             #[allow(unused_comparisons)]
             fn mul(self, n: $scale) -> Self::Output {
+                if self.is_empty() { return TimeSpan::empty(); }
                 let (lower, upper) = if n < 0 {
                     // negative factor -> reverse interval
                     (self.upper * n, self.lower * n)
@@ -187,6 +188,7 @@ macro_rules! timespanscalingint {
             #[inline]
             #[allow(unused_comparisons)]
             fn div(self, n: $scale) -> Self::Output {
+                if self.is_empty() { return TimeSpan::empty(); }
                 let (lower, upper) = if n < 0 {
                     // negative factor -> reverse interval
                     (self.upper / n, self.lower / n)
@@ -219,6 +221,7 @@ macro_rules! timespanscalingfloat {
             type Output = TimeSpan;
             #[inline]
             fn mul(self, f: $scale) -> Self::Output {
+                if self.is_empty() { return TimeSpan::empty(); }
                 let (lower, upper) = if f < 0. {
                     // negative factor -> reverse interval
                     (self.upper * f, self.lower * f)
@@ -234,6 +237,7 @@ macro_rules! timespanscalingfloat {
             type Output = TimeSpan;
             #[inline]
             fn div(self, f: $scale) -> Self::Output {
+                if self.is_empty() { return TimeSpan::empty(); }
                 let (lower, upper) = if f < 0. {
                     // negative factor -> reverse interval
                     (self.upper / f, self.lower / f)
-- 
2.43.0


From 5edff0f48e96095e3ffe8971bc00b3c36eafa474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:41 +0000
Subject: [PATCH 21/48] fix: the scaling iterator yields sorted and disjoint
 pieces for any factor

---
 src/iter/scaling.rs | 31 ++++---------------------------
 1 file changed, 4 insertions(+), 27 deletions(-)

diff --git a/src/iter/scaling.rs b/src/iter/scaling.rs
index b80fe6e..c173dfe 100644
--- a/src/iter/scaling.rs
+++ b/src/iter/scaling.rs
@@ -15,35 +15,12 @@ impl<I:TimeConvexIterator,S:Copy> TimeScaling<S> for I
     where
         I::Item: Mul<S,Output=I::Item>
 {
-    type Output = TimeValueScaleIter<I,S>;
+    type Output = crate::iter::intoiter::IntoConvexIter<I::TimePoint,std::vec::IntoIter<TimeInterval<I::TimePoint>>>;
 
     fn scaling(self, scale: S) -> Self::Output {
-        TimeValueScaleIter { scale, iter: self }
+        // the scale could reverse the order of the intervals (if negative) or make them join
+        let tw = self.map(|tw| tw*scale).collect::<TimeSet<I::TimePoint>>();
+        tw.into_iter()
     }
 }
 
-pub struct TimeValueScaleIter<I:TimeConvexIterator,S:Copy> {
-    scale: S,
-    iter: I
-}
-
-impl<I:TimeConvexIterator,S:Copy> Iterator for TimeValueScaleIter<I,S>
-    where
-        I::Item: Mul<S,Output=I::Item>
-{
-    type Item = I::Item;
-
-    fn next(&mut self) -> Option<Self::Item> {
-        self.iter.next().map(|tw| tw*self.scale)
-            .and_then(|tw| if tw.is_empty() { None } else { Some(tw) })
-    }
-}
-
-
-impl<I:TimeConvexIterator,S:Copy> TimeConvexIterator for TimeValueScaleIter<I,S>
-    where
-        I::Item: Mul<S,Output=I::Item>
-{
-    type TimePoint = I::TimePoint;
-}
-
-- 
2.43.0


From 26e7dac3f36080f2ff5eb24e312d307b1bac6d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:38 +0000
Subject: [PATCH 22/48] fix: durations built from a very negative amount are
 -oo instead of wrapping

---
 src/wins/timevalue.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wins/timevalue.rs b/src/wins/timevalue.rs
index dcc0c20..a77545d 100644
--- a/src/wins/timevalue.rs
+++ b/src/wins/timevalue.rs
@@ -56,6 +56,8 @@ impl TimeValue {
     {
         if sec > MAX_SEC {
             TimeValue::INFINITE
+        } else if sec < -MAX_SEC {
+            -TimeValue::INFINITE
         } else {
             Self(sec << SUBSEC_BITLEN)
         }
@@ -67,6 +69,8 @@ impl TimeValue {
         let frac = t - sec*unit;
         if sec > MAX_SEC {
             TimeValue::INFINITE
+        } else if sec < -MAX_SEC {
+            -TimeValue::INFINITE
         } else {
             // we should separate in order to deal with overflow
             Self((sec<<SUBSEC_BITLEN) + (frac << SUBSEC_BITLEN)/unit)
-- 
2.43.0


From 3eb27ccd37deb1783c1e21ac096b13f7edb7996c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:39 +0000
Subject: [PATCH 23/48] fix: floor and ceil keep infinities and saturate; ceil
 is exact on negative multiples and zero

---
 src/wins/timevalue.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/wins/timevalue.rs b/src/wins/timevalue.rs
index a77545d..0199893 100644
--- a/src/wins/timevalue.rs
+++ b/src/wins/timevalue.rs
@@ -196,11 +196,12 @@ impl TimeValue {
     #[inline]
     pub fn floor(self, period:TimeValue) -> Self
     {
-        Self(
+        if !self.is_finite() { return self; }
+        Self::from_ticks(
             if self.0 >= 0 {
                 (self.0/period.0)*period.0
             } else {
-                ((self.0+1)/period.0-1)*period.0
+                ((self.0+1)/period.0-1).saturating_mul(period.0)
             }
         )
     }
@@ -208,11 +209,12 @@ impl TimeValue {
     #[inline]
     pub fn ceil(self, period:TimeValue) -> Self
     {
-        Self(
+        if !self.is_finite() { return self; }
+        Self::from_ticks(
             if self.0 > 0 {
-                ((self.0-1)/period.0+1)*period.0
+                ((self.0-1)/period.0+1).saturating_mul(period.0)
             } else {
-                ((self.0-1)/period.0)*period.0
+                (self.0/period.0)*period.0
             }
         )
     }
-- 
2.43.0


From 572fde908315108d607f3a16f647e644f9b6f5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:40 +0000
Subject: [PATCH 24/48] fix: a very negative chrono duration is converted to
 -oo

---
 src/wins/timevalue.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wins/timevalue.rs b/src/wins/timevalue.rs
index 0199893..4f172d2 100644
--- a/src/wins/timevalue.rs
+++ b/src/wins/timevalue.rs
@@ -269,6 +269,7 @@ impl From<chrono::Duration> for TimeValue
     fn from(t: chrono::Duration) -> Self
     {
         match t.num_nanoseconds() {
+            None if t < chrono::Duration::zero() => -TimeValue::INFINITE,
             None => TimeValue::INFINITE,
             Some(nanos) => TimeValue::from_nanos(nanos)
         }
-- 
2.43.0


From b216eb162774ca18bd38f59255db5fc146cf5861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:41 +0000
Subject: [PATCH 25/48] fix: std durations of more than 68 years are not
 infinite

---
 src/wins/timevalue.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wins/timevalue.rs b/src/wins/timevalue.rs
index 4f172d2..7680d56 100644
--- a/src/wins/timevalue.rs
+++ b/src/wins/timevalue.rs
@@ -290,7 +290,7 @@ impl From<time::Duration> for TimeValue
     fn from(t: time::Duration) -> Self
     {
         let sec = t.as_secs();
-        if sec > i32::MAX as u64 {
+        if sec > MAX_SEC as u64 {
             TimeValue::INFINITE
         } else {
             let ns = t.subsec_nanos() as i64;
-- 
2.43.0


From cadab42b17e1ecffaa01d459624d7825c642287e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:42 +0000
Subject: [PATCH 26/48] fix: reducing a duration to months does not reduce it
 to years

---
 src/wins/convert.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wins/convert.rs b/src/wins/convert.rs
index 1fbe240..1a5a2e9 100644
--- a/src/wins/convert.rs
+++ b/src/wins/convert.rs
@@ -21,7 +21,7 @@ impl IntoTimeValue for TimeValue
         if self.is_strictly_negative() { self.ceil(1.years()) } else { self.floor(1.years())}
     }
     #[inline] fn months(self) -> TimeValue {
-        if self.is_strictly_negative() { self.ceil(1.years()) } else { self.floor(1.years())}
+        if self.is_strictly_negative() { self.ceil(1.months()) } else { self.floor(1.months())}
     }
     #[inline] fn weeks(self) -> TimeValue {
         if self.is_strictly_negative() { self.ceil(1.weeks()) } else { self.floor(1.weeks())}
-- 
2.43.0


From cdafc769f191cd13a117af7198e00bc536ca9603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:43 +0000
Subject: [PATCH 27/48] fix: reducing a duration to seconds truncates toward
 zero and keeps infinities

---
 src/wins/convert.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/wins/convert.rs b/src/wins/convert.rs
index 1a5a2e9..de6a7f6 100644
--- a/src/wins/convert.rs
+++ b/src/wins/convert.rs
@@ -1,4 +1,4 @@
-use crate::{SUBSEC_BITMASK, TimeValue};
+use crate::TimeValue;
 
 pub trait IntoTimeValue
 {
@@ -35,7 +35,9 @@ impl IntoTimeValue for TimeValue
     #[inline] fn mins(self) -> TimeValue {
         if self.is_strictly_negative() { self.ceil(1.mins()) } else { self.floor(1.mins())}
     }
-    #[inline] fn secs(mut self) -> TimeValue { self.0 &= !SUBSEC_BITMASK; self }
+    #[inline] fn secs(self) -> TimeValue {
+        if self.is_strictly_negative() { self.ceil(1.secs()) } else { self.floor(1.secs())}
+    }
 
     #[inline] fn millis(self) -> TimeValue {
         if self.is_strictly_negative() { self.ceil(1.millis()) } else { self.floor(1.millis())}
-- 
2.43.0


From 94c2393a380585bb0159b4e89f670e6d6a7553d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:44 +0000
Subject: [PATCH 28/48] fix: one millisecond is printed as 1ms and one
 microsecond as 1us

---
 src/wins/format.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wins/format.rs b/src/wins/format.rs
index 9e84515..c668083 100644
--- a/src/wins/format.rs
+++ b/src/wins/format.rs
@@ -53,11 +53,11 @@ fn format_duration(t: i64) -> String
     let ticks = concat_unit(ticks, TimeValue::from_secs, "s");
 
     let mut str = ticks.1;
-    if nanos > 1_000_000 {
+    if nanos >= 1_000_000 {
         str = format!("{}{}ms ", str, nanos/1_000_000);
         nanos %= 1_000_000;
     }
-    if nanos > 1_000 {
+    if nanos >= 1_000 {
         str = format!("{}{}us ", str, nanos/1_000);
         nanos %= 1_000;
     }
-- 
2.43.0


From 5b9b01d344c8f8235999703e2215dc339674d190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:46 +0000
Subject: [PATCH 29/48] fix: the formatted empty window is {}

---
 src/wins/format.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wins/format.rs b/src/wins/format.rs
index c668083..5da6ed1 100644
--- a/src/wins/format.rs
+++ b/src/wins/format.rs
@@ -86,7 +86,7 @@ fn format_timeslot<TW:TimeConvex>(tw: &TW, timefmt: &str) -> String
     where TW::TimePoint: TimePointFormat
 {
     if tw.is_empty() {
-        "{{}}".to_string()
+        "{}".to_string()
 
     } else if tw.is_singleton() {
         format!("{{{}}}", tw.lower_bound().format_timepoint(timefmt))
@@ -114,7 +114,7 @@ impl<TW:TimeWindow> TimeSetFormat for TW
             iter.fold(format_timeslot(&first, timefmt),
                       |s,i| s + "U" + &format_timeslot(&i,timefmt))
         } else {
-           "{{}}".to_string() /* empty set */
+           "{}".to_string() /* empty set */
         }
     }
 }
-- 
2.43.0


From e2d196c6b691ee2d47c13236e6935fc5273f3a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:40 +0000
Subject: [PATCH 30/48] fix: a backward sequence starts at the requested date

---
 src/seq/backward.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seq/backward.rs b/src/seq/backward.rs
index d624bd1..7232f90 100644
--- a/src/seq/backward.rs
+++ b/src/seq/backward.rs
@@ -13,7 +13,7 @@ impl TimeSequence for TimeSeqBackward
     fn new<T:Timestamped>(t: T, delta: TimeValue) -> Self
     {
         assert!( delta.is_strictly_positive(), "sequence interval should be strictly positive" );
-        let t = t.timestamp() - delta; // so we will start at t
+        let t = t.timestamp() + delta; // so we will start at t
         assert!( t.is_finite(), "infinite start value");
         Self { t, step: delta }
     }
-- 
2.43.0


From a1f583ce422e88d0141fa03bfceee6cb759eb9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:41 +0000
Subject: [PATCH 31/48] fix: backward periods start at the period at or before
 the date

---
 src/seq/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seq/mod.rs b/src/seq/mod.rs
index a375631..3aac9cf 100644
--- a/src/seq/mod.rs
+++ b/src/seq/mod.rs
@@ -40,7 +40,7 @@ impl Timestamp {
     }
 
     pub fn backward_periods(self, period: TimeValue) -> TimeSeqBackward {
-        TimeSeqBackward::new(self.ceil(period), period)
+        TimeSeqBackward::new(self.floor(period), period)
     }
 }
 
-- 
2.43.0


From 4611f94255f0cf8a4822c448ad023662d16ff998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:42 +0000
Subject: [PATCH 32/48] fix: the length of a date sequence counts its finite
 dates

---
 src/seq/backward.rs | 7 ++++---
 src/seq/forward.rs  | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/seq/backward.rs b/src/seq/backward.rs
index 7232f90..9d20373 100644
--- a/src/seq/backward.rs
+++ b/src/seq/backward.rs
@@ -31,10 +31,11 @@ impl TimeSequence for TimeSeqBackward
 
     fn len(&self) -> usize
     {
-        if self.t.0.is_strictly_negative() {
-            (self.t.0.as_ticks() - i64::MIN) as usize / self.step.as_ticks() as usize
+        if self.t.is_finite() {
+            let last = -(i64::MAX - 1); // the least finite date
+            (self.t.0.as_ticks().abs_diff(last) / self.step.as_ticks().unsigned_abs()) as usize
         } else {
-            self.t.0.as_ticks() as usize + i64::MAX as usize + 1 / self.step.as_ticks() as usize
+            0
         }
     }
 }
diff --git a/src/seq/forward.rs b/src/seq/forward.rs
index d1469c0..b6a9b54 100644
--- a/src/seq/forward.rs
+++ b/src/seq/forward.rs
@@ -32,10 +32,11 @@ impl TimeSequence for TimeSeqForward
 
     fn len(&self) -> usize
     {
-        if self.t.0.is_positive() {
-            (i64::MAX - self.t.0.as_ticks()) as usize / self.step.as_ticks() as usize
+        if self.t.is_finite() {
+            let last = i64::MAX - 1;  // the greatest finite date
+            (last.abs_diff(self.t.0.as_ticks()) / self.step.as_ticks().unsigned_abs()) as usize
         } else {
-            (i64::MAX as usize) + (-self.t.0.as_ticks() as usize) / self.step.as_ticks() as usize
+            0
         }
     }
 }
-- 
2.43.0


From 68a64c4d1375f404059a495d6a4f68783377ba13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:43 +0000
Subject: [PATCH 33/48] fix: nth and last of date sequences agree with next

---
 src/seq/backward.rs | 12 +++++++-----
 src/seq/forward.rs  | 12 +++++++-----
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/seq/backward.rs b/src/seq/backward.rs
index 9d20373..0bcceb9 100644
--- a/src/seq/backward.rs
+++ b/src/seq/backward.rs
@@ -68,19 +68,21 @@ impl Iterator for TimeSeqBackward {
 
     fn last(self) -> Option<Self::Item>
     {
-        let n = self.len();
-        (n > 0).then_some(self.t - n*self.step)
+        let mut iter = self;
+        self.len().checked_sub(1).and_then(|n| iter.nth(n))
     }
 
 
     fn nth(&mut self, n: usize) -> Option<Self::Item>
     {
-        if self.len() < n {
+        if self.len() <= n {
             self.t = -Timestamp::INFINITE;
             None
         } else {
-            self.t -= self.step * n;
-            Some(self.t)
+            // by two steps since the distance could be out of the range of durations
+            self.t -= self.step * (n/2);
+            self.t -= self.step * (n - n/2);
+            self.next()
         }
     }
 }
\ No newline at end of file
diff --git a/src/seq/forward.rs b/src/seq/forward.rs
index b6a9b54..2f5fc52 100644
--- a/src/seq/forward.rs
+++ b/src/seq/forward.rs
@@ -69,19 +69,21 @@ impl Iterator for TimeSeqForward {
 
     fn last(self) -> Option<Self::Item>
     {
-        let n = self.len();
-        (n > 0).then_some(self.t + n*self.step)
+        let mut iter = self;
+        self.len().checked_sub(1).and_then(|n| iter.nth(n))
     }
 
 
     fn nth(&mut self, n: usize) -> Option<Self::Item>
     {
-        if self.len() < n {
+        if self.len() <= n {
             self.t = Timestamp::INFINITE;
             None
         } else {
-            self.t += self.step * n;
-            Some(self.t)
+            // by two steps since the distance could be out of the range of durations
+            self.t += self.step * (n/2);
+            self.t += self.step * (n - n/2);
+            self.next()
         }
     }
 }
\ No newline at end of file
-- 
2.43.0


From 4c7721aa8e9983b202c55425fac59112debf429e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:31 +0000
Subject: [PATCH 34/48] fix: adding a constraint on a new instant is checked
 and propagated

---
 src/graph/propagation.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/graph/propagation.rs b/src/graph/propagation.rs
index 02ef878..bb86120 100644
--- a/src/graph/propagation.rs
+++ b/src/graph/propagation.rs
@@ -51,13 +51,13 @@ impl TimeGraph
         } else {
             let max = k.from().max(k.to());
             if self.size() <= max {
-                // si i ou j n'était pas dans le graphe, on n'aura rien à propager
-                self.resize(max + 1);
-                unsafe {
-                    // SAFETY: we have just resize the graph for that
-                    *self.lower_mut(k.from(), k.to()) = k.lower_bound();
-                    *self.lower_mut(k.to(), k.from()) = -k.upper_bound();
+                // si i ou j n'était pas dans le graphe, la seule inconsistance possible
+                // est d'éloigner un instant de lui-même
+                if k.from() == k.to() && (k.lower_bound().is_strictly_positive() || k.upper_bound().is_strictly_negative()) {
+                    return Err(TimeInconsistencyError::Recovered);
                 }
+                self.resize(max + 1);
+                self.propagate(k)?;
                 Ok(TimePropagation::Propagated)
             } else {
                 unsafe {
-- 
2.43.0


From c6fc3d5f7f6a7543e7b7ff99e2e912b06b30e673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:32 +0000
Subject: [PATCH 35/48] fix: a graph emptied by a fatal inconsistency keeps no
 stale window

---
 src/graph/propagation.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/graph/propagation.rs b/src/graph/propagation.rs
index bb86120..0bf3803 100644
--- a/src/graph/propagation.rs
+++ b/src/graph/propagation.rs
@@ -166,6 +166,7 @@ impl TimeGraph
                 }
                 if unsafe { self.lower(i,i) }.is_strictly_positive() {
                     self.size = 0;
+                    self.data.clear();
                     return Err(TimeInconsistencyError::Fatal)
                 }
             }
-- 
2.43.0


From df546bf31e9f28d0f1ec0429b6dfbd8e7a1c446c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:33 +0000
Subject: [PATCH 36/48] fix: extending a graph by an empty constraint is an
 inconsistency

---
 src/graph/propagation.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/graph/propagation.rs b/src/graph/propagation.rs
index 0bf3803..a23e13c 100644
--- a/src/graph/propagation.rs
+++ b/src/graph/propagation.rs
@@ -195,7 +195,12 @@ impl TimeGraph
                 }
             }
             _ => {
-                iter.for_each(|k| {
+                for k in iter {
+                        if k.is_empty() {
+                            self.size = 0;
+                            self.data.clear();
+                            return Err(TimeInconsistencyError::Fatal);
+                        }
                         let max = k.from().max(k.to());
                         if max >= self.size() { self.resize(max+1) }
 
@@ -208,7 +213,7 @@ impl TimeGraph
                         if *upper < -k.upper_bound() {
                             *upper = -k.upper_bound();
                         }
-                    });
+                    }
                 self.global_propagation()
             }
         }
-- 
2.43.0


From 5d1d110bc54580be3e7726285b5a65fa04137a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:35 +0000
Subject: [PATCH 37/48] fix: extending a graph by implied constraints is
 reported as unchanged

---
 src/graph/propagation.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/graph/propagation.rs b/src/graph/propagation.rs
index a23e13c..0f0dbb4 100644
--- a/src/graph/propagation.rs
+++ b/src/graph/propagation.rs
@@ -195,6 +195,7 @@ impl TimeGraph
                 }
             }
             _ => {
+                let mut changed = false;
                 for k in iter {
                         if k.is_empty() {
                             self.size = 0;
@@ -202,19 +203,21 @@ impl TimeGraph
                             return Err(TimeInconsistencyError::Fatal);
                         }
                         let max = k.from().max(k.to());
-                        if max >= self.size() { self.resize(max+1) }
+                        if max >= self.size() { self.resize(max+1); changed = true; }
 
                         let lower = unsafe { self.lower_mut(k.from(), k.to()) };
                         if *lower < k.lower_bound() {
                             *lower = k.lower_bound();
+                            changed = true;
                         }
                         // SAFETY: if lower exists (checked just above), the upper does...
                         let upper = unsafe { self.lower_mut(k.to(), k.from()) };
                         if *upper < -k.upper_bound() {
                             *upper = -k.upper_bound();
+                            changed = true;
                         }
                     }
-                self.global_propagation()
+                if changed { self.global_propagation() } else { Ok(TimePropagation::Unchanged) }
             }
         }
     }
-- 
2.43.0


From f3e6e310eee4c11cbaee828962da05292b4b89fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:36 +0000
Subject: [PATCH 38/48] fix: shrinking a graph removes the windows of the
 removed instants

---
 src/graph/storage.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/graph/storage.rs b/src/graph/storage.rs
index 0ed5877..67e2216 100644
--- a/src/graph/storage.rs
+++ b/src/graph/storage.rs
@@ -59,6 +59,7 @@ impl TimeGraph {
                     .any(|x| unsafe { !self.data.get_unchecked(x as usize).is_past_infinite()})
             ).map(|i| i+1)
             .unwrap_or(0);
+        self.data.truncate((self.size * self.size) as usize);
         self.data.shrink_to_fit()
     }
 
-- 
2.43.0


From 1a7457442ae30b2b4388840e19fd83f3622795d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:37 +0000
Subject: [PATCH 39/48] fix: constraints from an instant do not include
 unconstrained pairs

---
 src/graph/constraints.rs | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/src/graph/constraints.rs b/src/graph/constraints.rs
index 229584b..4bb5aee 100644
--- a/src/graph/constraints.rs
+++ b/src/graph/constraints.rs
@@ -207,25 +207,21 @@ impl<'a> Iterator for TimeConstraintFromIter<'a> {
             // this iterator is a FusedIterator
             None
         } else {
-            let current = TimeGraphConstraint {
-                from: self.i,
-                to: self.j,
-                graph: self.graph
-            };
-            loop { // search the next current
+            while self.j < self.graph.size() {
+                let j = self.j;
                 self.j += 1;
 
-                if self.j == self.graph.size() {
-                    self.i = self.graph.size();
-                    break;
-
-                } else if self.i != self.j &&
-                    (unsafe { !self.graph.lower(self.i,self.j).is_past_infinite() }
-                        || unsafe { !self.graph.lower(self.j,self.i).is_past_infinite() }) {
-                    break;
+                if self.i != j &&
+                    (unsafe { !self.graph.lower(self.i,j).is_past_infinite() }
+                        || unsafe { !self.graph.lower(j,self.i).is_past_infinite() }) {
+                    return Some(TimeGraphConstraint {
+                        from: self.i,
+                        to: j,
+                        graph: self.graph
+                    })
                 }
             }
-            Some(current)
+            None
         }
     }
 
-- 
2.43.0


From 79d1013d8d8c5ad3a2409d0fdffb1163bc896dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:38 +0000
Subject: [PATCH 40/48] fix: size_hint of graph iterators does not underflow

---
 src/graph/constraints.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/graph/constraints.rs b/src/graph/constraints.rs
index 4bb5aee..3351825 100644
--- a/src/graph/constraints.rs
+++ b/src/graph/constraints.rs
@@ -176,10 +176,12 @@ impl<'a> Iterator for TimeConstraintIter<'a> {
     #[inline]
     fn size_hint(&self) -> (usize, Option<usize>)
     {
-        let all_constraints = (self.graph.size() * self.graph.size() - self.graph.size())/2;
-        let previous_constraints =  (self.i * self.i - self.i)/2;
-        let max = all_constraints - previous_constraints + 1 - self.j;
-        (0, Some(max as usize))
+        // number of instants not yet entirely visited
+        let n = (self.graph.size() - self.i) as usize;
+        let max = if n == 0 { 0 } else {
+            (n-1)*(n-1).saturating_sub(1)/2 + (self.graph.size() - 1 - self.j) as usize
+        };
+        (0, Some(max))
     }
 }
 
@@ -228,9 +230,7 @@ impl<'a> Iterator for TimeConstraintFromIter<'a> {
     #[inline]
     fn size_hint(&self) -> (usize, Option<usize>)
     {
-        let all_constraints = (self.graph.size() * self.graph.size() - self.graph.size())/2;
-        let previous_constraints =  (self.i * self.i - self.i)/2;
-        let max = all_constraints - previous_constraints + 1 - self.j;
+        let max = if self.i >= self.graph.size() { 0 } else { self.graph.size() - self.j };
         (0, Some(max as usize))
     }
 }
-- 
2.43.0


From 79b0095d45422c9797b6dd5c5e4aac0d6fa43d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:40 +0000
Subject: [PATCH 41/48] fix: scheduling in several slots is propagated until a
 fixed point, or refused

---
 src/graph/scheduler.rs | 44 ++++++++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/src/graph/scheduler.rs b/src/graph/scheduler.rs
index 077e6ca..5d8121d 100644
--- a/src/graph/scheduler.rs
+++ b/src/graph/scheduler.rs
@@ -107,9 +107,14 @@ impl TimeScheduler<'_> {
             } else if !tw.overlaps(self.schedule.get_unchecked(i as usize)) {
                 Err(TimeInconsistencyError::Recovered)
             } else {
+                let previous = self.schedule.clone();
                 *self.schedule.get_unchecked_mut(i as usize) &= tw;
-                self.propagate_scheduling(i);
-                Ok(TimePropagation::Propagated)
+                if self.propagate_scheduling(i) {
+                    Ok(TimePropagation::Propagated)
+                } else {
+                    self.schedule = previous;
+                    Err(TimeInconsistencyError::Recovered)
+                }
             }
         }
     }
@@ -123,22 +128,31 @@ impl TimeScheduler<'_> {
         self.retain(i, !tw)
     }
 
-    fn propagate_scheduling(&mut self, i: Instant)
+    /// Propagates the scheduling of `i` until nothing changes
+    ///
+    /// Returns `false` if one instant could not be scheduled any more
+    fn propagate_scheduling(&mut self, i: Instant) -> bool
     {
         debug_assert!( i as usize <= self.schedule.len() );
-        unsafe {
-            self.constraints
-                .constraints_from(i)
-                .for_each(|k| {
-                    let j = k.to() as usize;
-                    *self.schedule.get_unchecked_mut(j) =
-                        self.schedule.get_unchecked(j).iter()
-                            .intersection(self.schedule.get_unchecked(i as usize)
-                                .iter()
-                                .translation(&TimeInterval::from(k)))
-                            .collect();
-                });
+        // if a scheduling is made of several slots, then updating an instant
+        // could also restrict the ones which are already updated
+        let mut updated = vec![i];
+        while let Some(i) = updated.pop() {
+            for k in self.constraints.constraints_from(i) {
+                let to = k.to();
+                let slots: TimeSlots = self.schedule[to as usize].iter()
+                    .intersection(self.schedule[i as usize]
+                        .iter()
+                        .translation(&TimeInterval::from(k)))
+                    .collect();
+                if slots.is_empty() { return false; }
+                if slots != self.schedule[to as usize] {
+                    self.schedule[to as usize] = slots;
+                    if !updated.contains(&to) { updated.push(to) }
+                }
+            }
         }
+        true
     }
 }
 
-- 
2.43.0


From c2f523e12d016beac2c9d8f62ca1f41b712c8f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:41 +0000
Subject: [PATCH 42/48] fix: an infeasible deadline or startline is refused
 instead of panicking

---
 src/graph/scheduler.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/graph/scheduler.rs b/src/graph/scheduler.rs
index 5d8121d..90a9a59 100644
--- a/src/graph/scheduler.rs
+++ b/src/graph/scheduler.rs
@@ -59,14 +59,17 @@ impl TimeScheduler<'_> {
         if self.schedule.iter().any(|tw| tw.lower_bound() > deadline) {
             Err(TimeInconsistencyError::Recovered)
         } else {
-            // we know that the propagation will succeed
-            Ok((0..self.schedule.len() as u32)
-                .fold(TimePropagation::Unchanged,
+            // the propagation could still fail if there are several slots
+            let previous = self.schedule.clone();
+            let result = (0..self.schedule.len() as u32)
+                .try_fold(TimePropagation::Unchanged,
                       |result, i|
-                          match self.retain(i, ..=deadline).unwrap() {
+                          Ok(match self.retain(i, ..=deadline)? {
                               TimePropagation::Unchanged => { result }
                               TimePropagation::Propagated => { TimePropagation::Propagated }
-                          }))
+                          }));
+            if result.is_err() { self.schedule = previous; }
+            result
         }
     }
 
@@ -78,14 +81,17 @@ impl TimeScheduler<'_> {
         if self.schedule.iter().any(|tw| tw.upper_bound() < startline) {
             Err(TimeInconsistencyError::Recovered)
         } else {
-            // we know that the propagation will succeed
-            Ok((0..self.schedule.len() as u32)
-                .fold(TimePropagation::Unchanged,
+            // the propagation could still fail if there are several slots
+            let previous = self.schedule.clone();
+            let result = (0..self.schedule.len() as u32)
+                .try_fold(TimePropagation::Unchanged,
                       |result, i|
-                          match self.retain(i, startline..).unwrap() {
+                          Ok(match self.retain(i, startline..)? {
                               TimePropagation::Unchanged => { result }
                               TimePropagation::Propagated => { TimePropagation::Propagated }
-                          }))
+                          }));
+            if result.is_err() { self.schedule = previous; }
+            result
         }
     }
 
-- 
2.43.0


From cf7272a75266d3d516ca4147016c61ab1c0080d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:07 +0000
Subject: [PATCH 43/48] fix: an infinite duration or date is formatted as +oo
 or -oo

---
 src/wins/format.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/wins/format.rs b/src/wins/format.rs
index 5da6ed1..823da80 100644
--- a/src/wins/format.rs
+++ b/src/wins/format.rs
@@ -13,7 +13,9 @@ pub trait TimePointFormat {
 impl TimePointFormat for TimeValue {
 
     fn format_timepoint(self, _timefmt: &str) -> String {
-        if self.is_positive() {
+        if !self.is_finite() {
+            self.to_string()
+        } else if self.is_positive() {
             format_duration(self.as_ticks())
         } else {
             format!("- {}", &format_duration(-self.as_ticks()))
@@ -24,7 +26,11 @@ impl TimePointFormat for TimeValue {
 impl TimePointFormat for Timestamp {
 
     fn format_timepoint(self, timefmt: &str) -> String {
-        format_timestamp(self, timefmt).to_string()
+        if self.is_finite() {
+            format_timestamp(self, timefmt).to_string()
+        } else {
+            self.to_string()
+        }
     }
 }
 
-- 
2.43.0


From 60054794cd809a49f3dcb05b49d0591b4839a2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:08 +0000
Subject: [PATCH 44/48] fix: dates before 1677 or after 2262 are converted to
 an infinite date instead of panicking

---
 src/wins/timestamp.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/wins/timestamp.rs b/src/wins/timestamp.rs
index ce393aa..d1c5b15 100644
--- a/src/wins/timestamp.rs
+++ b/src/wins/timestamp.rs
@@ -102,9 +102,7 @@ impl From<Timestamp> for NaiveDateTime
 impl From<NaiveDateTime> for Timestamp
 {
     #[inline]
-    fn from(t: NaiveDateTime) -> Self {
-        Self(TimeValue::from_nanos(t.timestamp_nanos_opt().unwrap()))
-    }
+    fn from(t: NaiveDateTime) -> Self { t.and_utc().into() }
 }
 
 
@@ -112,7 +110,11 @@ impl<Tz:TimeZone> From<DateTime<Tz>> for Timestamp
 {
     #[inline]
     fn from(t: DateTime<Tz>) -> Self {
-        Self(TimeValue::from_nanos(t.timestamp_nanos_opt().unwrap()))
+        match t.timestamp_nanos_opt() {
+            None if t.timestamp() < 0 => -Timestamp::INFINITE,
+            None => Timestamp::INFINITE,
+            Some(nanos) => Self(TimeValue::from_nanos(nanos))
+        }
     }
 }
 
-- 
2.43.0


From b3baaeed84facb55706f645b85109a35d24e4a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:09 +0000
Subject: [PATCH 45/48] fix: constraints whose sums leave the range of
 durations neither panic nor lose bounds

---
 src/graph/propagation.rs | 55 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 52 insertions(+), 3 deletions(-)

diff --git a/src/graph/propagation.rs b/src/graph/propagation.rs
index 0f0dbb4..b97a7dd 100644
--- a/src/graph/propagation.rs
+++ b/src/graph/propagation.rs
@@ -2,6 +2,7 @@ use std::error::Error;
 use std::fmt;
 use std::mem::swap;
 use crate::graph::{Instant, TimeConstraint, TimeGraph};
+use crate::TimePoint;
 use crate::TimeValue;
 
 pub type TimePropagationResult = Result<TimePropagation,TimeInconsistencyError>;
@@ -56,8 +57,12 @@ impl TimeGraph
                 if k.from() == k.to() && (k.lower_bound().is_strictly_positive() || k.upper_bound().is_strictly_negative()) {
                     return Err(TimeInconsistencyError::Recovered);
                 }
+                let size = self.size();
                 self.resize(max + 1);
-                self.propagate(k)?;
+                if let Err(e) = self.propagate(k) {
+                    self.resize(size);
+                    return Err(e);
+                }
                 Ok(TimePropagation::Propagated)
             } else {
                 unsafe {
@@ -72,6 +77,7 @@ impl TimeGraph
                             Err(TimeInconsistencyError::Recovered)
                         } else {
                             //- OK, on propage la contrainte ji (et c'est tout)
+                            if self.has_far_bounds(&k) { return self.propagate_far_bounds(k); }
                             *self.lower_mut(k.to(), k.from()) = -k.upper_bound();
                             self.propagate_lower_bound(k.to(), k.from());
                             Ok(TimePropagation::Propagated)
@@ -83,6 +89,7 @@ impl TimeGraph
                             Err(TimeInconsistencyError::Recovered)
                         } else {
                             //- OK, on peut propager la contrainte ij
+                            if self.has_far_bounds(&k) { return self.propagate_far_bounds(k); }
                             *self.lower_mut(k.from(), k.to()) = k.lower_bound();
                             self.propagate_lower_bound(k.from(), k.to());
                             if self.lower(k.to(), k.from()) < -k.upper_bound() {
@@ -98,6 +105,31 @@ impl TimeGraph
         }
     }
 
+    /// Checks if adding some bounds could leave the range of the durations
+    fn has_far_bounds<K:TimeConstraint>(&self, k: &K) -> bool
+    {
+        is_far(k.lower_bound()) || is_far(k.upper_bound()) || self.data.iter().any(|&x| is_far(x))
+    }
+
+    /// Adds a constraint when bounds could leave the range of the durations
+    ///
+    /// The incremental propagation is not sufficient in this case.
+    fn propagate_far_bounds<K:TimeConstraint>(&mut self, k: K) -> TimePropagationResult
+    {
+        let previous = self.clone();
+        unsafe {
+            // SAFETY: the instants of the constraint are in the graph
+            let lower = self.lower_mut(k.from(), k.to());
+            *lower = k.lower_bound().max(*lower);
+            let upper = self.lower_mut(k.to(), k.from());
+            *upper = (-k.upper_bound()).max(*upper);
+        }
+        self.global_propagation().map_err(|_| {
+            *self = previous;
+            TimeInconsistencyError::Recovered
+        })
+    }
+
     /// Merge two timegraphs
     pub fn merge(&mut self, mut graph: TimeGraph) -> TimePropagationResult
     {
@@ -155,15 +187,21 @@ impl TimeGraph
     /// Global propagation in O(n<sup>3</sup>).
     ///
     /// All the graph constraints are propagated.
+    /// It is repeated while something changes if bounds could leave the range
+    /// of the durations (a bound which leaves it is lost, or could not be satisfied).
     fn global_propagation(&mut self) -> TimePropagationResult
     {
+        let mut changed = false;
+        let mut too_far = false;
         for k in 0..self.size() {
             for i in 0..self.size() {
                 for j in 0..self.size() {
                     let val: TimeValue = unsafe { self.lower(i,k)+self.lower(k,j) };
                     let x = unsafe { self.lower_mut(i,j) };
-                    if val > *x { *x = val; }
+                    if val > *x { *x = val; changed = true; }
+                    if val == TimeValue::INFINITE { too_far = true; break; }
                 }
+                if too_far { unsafe { *self.lower_mut(i,i) = TimeValue::INFINITE; } }
                 if unsafe { self.lower(i,i) }.is_strictly_positive() {
                     self.size = 0;
                     self.data.clear();
@@ -171,7 +209,11 @@ impl TimeGraph
                 }
             }
         }
-        Ok(TimePropagation::Propagated)
+        if changed && self.data.iter().any(|&x| is_far(x)) {
+            self.global_propagation()
+        } else {
+            Ok(TimePropagation::Propagated)
+        }
     }
 
     /// Add several constraints in one shot
@@ -223,3 +265,10 @@ impl TimeGraph
     }
 
 }
+
+/// Checks if a finite bound is so far that a sum of some of them could leave the finite range
+fn is_far(t: TimeValue) -> bool
+{
+    const FAR: TimeValue = TimeValue(i64::MAX/4);
+    (t > FAR && t != TimeValue::INFINITE) || (t < -FAR && t != -TimeValue::INFINITE)
+}
-- 
2.43.0


From ee20891fb873ce73c03c117007f00ca71cf726cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:10 +0000
Subject: [PATCH 46/48] fix: a slot translated out of the range of the dates is
 dropped instead of panicking

---
 src/graph/scheduler.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/graph/scheduler.rs b/src/graph/scheduler.rs
index 90a9a59..58fccef 100644
--- a/src/graph/scheduler.rs
+++ b/src/graph/scheduler.rs
@@ -4,7 +4,7 @@ use std::ops::BitAndAssign;
 use crate::*;
 use crate::graph::*;
 use crate::graph::propagation::{TimeInconsistencyError, TimePropagation, TimePropagationResult};
-use crate::iter::{TimeIntersection, TimeTranslation};
+use crate::iter::TimeIntersection;
 
 
 /// # A manager of constrained time variables.
@@ -146,10 +146,15 @@ impl TimeScheduler<'_> {
         while let Some(i) = updated.pop() {
             for k in self.constraints.constraints_from(i) {
                 let to = k.to();
+                // a slot could become empty if it is translated out of the range of the timestamps
+                let translated: TimeSlots = self.schedule[i as usize].iter()
+                    .map(|tw| TimeInterval::new(
+                        tw.lower_bound() + k.lower_bound(),
+                        tw.upper_bound() + k.upper_bound()
+                    ))
+                    .collect();
                 let slots: TimeSlots = self.schedule[to as usize].iter()
-                    .intersection(self.schedule[i as usize]
-                        .iter()
-                        .translation(&TimeInterval::from(k)))
+                    .intersection(translated.iter())
                     .collect();
                 if slots.is_empty() { return false; }
                 if slots != self.schedule[to as usize] {
-- 
2.43.0


From d834ba41b134cea8eca34fc7e59eeb31594cc031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:36 +0000
Subject: [PATCH 47/48] fix: TimeGraph::shrink_to overflowed beyond 65535
 instants

---
 src/graph/storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph/storage.rs b/src/graph/storage.rs
index 67e2216..b38788c 100644
--- a/src/graph/storage.rs
+++ b/src/graph/storage.rs
@@ -69,7 +69,7 @@ impl TimeGraph {
     ///
     /// If the current capacity is less than the lower limit, this is a no-op.
     #[inline]
-    pub fn shrink_to(&mut self, n: Instant) { self.data.shrink_to((n * n) as usize) }
+    pub fn shrink_to(&mut self, n: Instant) { self.data.shrink_to(n as usize * n as usize) }
 
     #[inline]
     pub(super)
-- 
2.43.0


From f096d472951030f1634a402fca6d3c901c1794f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:48 +0000
Subject: [PATCH 48/48] fix: graphs of more instants than the matrix could
 index corrupted the memory in release builds

---
 src/graph/propagation.rs | 4 ++--
 src/graph/storage.rs     | 5 +++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/graph/propagation.rs b/src/graph/propagation.rs
index b97a7dd..12e7603 100644
--- a/src/graph/propagation.rs
+++ b/src/graph/propagation.rs
@@ -58,7 +58,7 @@ impl TimeGraph
                     return Err(TimeInconsistencyError::Recovered);
                 }
                 let size = self.size();
-                self.resize(max + 1);
+                self.resize(max.saturating_add(1));
                 if let Err(e) = self.propagate(k) {
                     self.resize(size);
                     return Err(e);
@@ -245,7 +245,7 @@ impl TimeGraph
                             return Err(TimeInconsistencyError::Fatal);
                         }
                         let max = k.from().max(k.to());
-                        if max >= self.size() { self.resize(max+1); changed = true; }
+                        if max >= self.size() { self.resize(max.saturating_add(1)); changed = true; }
 
                         let lower = unsafe { self.lower_mut(k.from(), k.to()) };
                         if *lower < k.lower_bound() {
diff --git a/src/graph/storage.rs b/src/graph/storage.rs
index b38788c..64bc0bd 100644
--- a/src/graph/storage.rs
+++ b/src/graph/storage.rs
@@ -34,8 +34,13 @@ impl TimeGraph {
     /// If the new size is smaller than the current one,
     /// they the related constraint are also removed
     /// buth the impact of their propagation remains.
+    ///
+    /// # Panics
+    /// A graph could not manage more than 65535 instants.
     pub fn resize(&mut self, n: Instant)
     {
+        // beyond, the (u32) indexes of the matrix overflow
+        assert!( n <= Instant::MAX >> 16, "too many instants" );
         self.data.resize((n * n) as usize, -TimeValue::INFINITE);
         (self.size..n).for_each(|i| unsafe {
             // setting all constraint (i,i) to 0 (constraint from i to itseltf)
-- 
2.43.0

