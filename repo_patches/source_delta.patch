From 9bb6e7266f910b7e48b45edc8d9176d376f6d87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:08 +0000
Subject: [PATCH 01/18] fix: Tine::minus dropped or flipped boundaries when a
 side is exclusive

Removing a point next to an exclusive bound lost the bound, and removing an
interval starting at a shared excluded point kept the wrong side of it.
---
 src/tine.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/tine.rs b/src/tine.rs
index a4db9d1..9ba5522 100644
--- a/src/tine.rs
+++ b/src/tine.rs
@@ -226,6 +226,8 @@ impl<T> Tine<T> where T: PartialOrd + Ord + Clone {
             (Lower(_),          &Lower(_))          => None,
 
             (Lower(Include(l)), &Point(Include(_))) => Some(Lower(Exclude(l))),
+            (Lower(Include(l)), &Point(Exclude(_))) => Some(Point(Include(l))),
+            (Lower(Exclude(l)), &Point(Include(_))) => Some(Lower(Exclude(l))),
             (Lower(_),          &Point(_))          => None,
 
             (Lower(Include(l)), &Upper(Include(_))) => Some(Lower(Exclude(l))),
@@ -238,10 +240,10 @@ impl<T> Tine<T> where T: PartialOrd + Ord + Clone {
             (Point(Include(_)), &Upper(Include(_))) => None,
             (Point(Include(l)), _)                  => Some(Point(Include(l))),
 
-            (Point(Exclude(l)), &Lower(_))          => Some(Lower(Exclude(l))),
+            (Point(Exclude(l)), &Lower(_))          => Some(Upper(Exclude(l))),
             (Point(Exclude(l)), &Point(Include(_))) => Some(Point(Exclude(l))),
             (Point(Exclude(_)), &Point(Exclude(_))) => None,
-            (Point(Exclude(l)), &Upper(_))          => Some(Upper(Exclude(l))),
+            (Point(Exclude(l)), &Upper(_))          => Some(Lower(Exclude(l))),
 
             (Upper(Include(l)), &Lower(Include(_))) => Some(Upper(Exclude(l))),
             (Upper(Include(l)), &Lower(Exclude(_))) => Some(Upper(Include(l))),
@@ -249,6 +251,8 @@ impl<T> Tine<T> where T: PartialOrd + Ord + Clone {
             (Upper(Exclude(l)), &Lower(Exclude(_))) => Some(Upper(Exclude(l))),
 
             (Upper(Include(l)), &Point(Include(_))) => Some(Upper(Exclude(l))),
+            (Upper(Include(l)), &Point(Exclude(_))) => Some(Point(Include(l))),
+            (Upper(Exclude(l)), &Point(Include(_))) => Some(Upper(Exclude(l))),
             (Upper(_),          &Point(_))          => None,
 
             (Upper(Include(l)), &Upper(Exclude(_))) => Some(Point(Include(l))),
-- 
2.43.0


From 99c4f5597c2aafa51cffc21134cfc3e89b1f1c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:08 +0000
Subject: [PATCH 02/18] fix: Tine::intersect lost the open side of an excluded
 point

Intersecting an inclusive bound with an excluded point at the same place
returned nothing instead of the exclusive bound.
---
 src/tine.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tine.rs b/src/tine.rs
index 9ba5522..f8d522e 100644
--- a/src/tine.rs
+++ b/src/tine.rs
@@ -182,6 +182,7 @@ impl<T> Tine<T> where T: PartialOrd + Ord + Clone {
             (Lower(lb),         &Lower(_))          => Some(Lower(lb)),
 
             (Lower(Include(l)), &Point(Include(_))) => Some(Point(Include(l))),
+            (Lower(Include(l)), &Point(Exclude(_))) => Some(Lower(Exclude(l))),
             (Lower(Exclude(l)), &Point(Exclude(_))) => Some(Lower(Exclude(l))),
             (Lower(_),          &Point(_))          => None,
 
@@ -202,6 +203,7 @@ impl<T> Tine<T> where T: PartialOrd + Ord + Clone {
             (Upper(_),          &Lower(_))          => None,
 
             (Upper(Include(l)), &Point(Include(_))) => Some(Point(Include(l))),
+            (Upper(Include(l)), &Point(Exclude(_))) => Some(Upper(Exclude(l))),
             (Upper(Exclude(l)), &Point(Exclude(_))) => Some(Upper(Exclude(l))),
             (Upper(_),          &Point(_))          => None,
 
-- 
2.43.0


From a5114464cbb4c934a5c60464cbae4cb5d7f53627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:08 +0000
Subject: [PATCH 03/18] fix: TineTree::minus_in_place included an already
 excluded point

Removing a point that two adjacent intervals already exclude inverted the
shared boundary and corrupted the tree.
---
 src/tine_tree.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tine_tree.rs b/src/tine_tree.rs
index adc129b..e76e0fa 100644
--- a/src/tine_tree.rs
+++ b/src/tine_tree.rs
@@ -664,7 +664,10 @@ impl<T> TineTree<T> where T: Ord + Clone {
             (true,  true)  => {
                 // (   )
                 //   |
-                self.0.insert(p.invert());
+                //     O R
+                // ( )( )
+                //   |
+                self.0.insert(if p.is_point_exclude() {p} else {p.invert()});
             },
             (true,  false) => {
                 // ( )   ( )
-- 
2.43.0


From 38652f47d62be58d40047f428cab7815abae7481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:08 +0000
Subject: [PATCH 04/18] fix: backward and mixed traversal of TineTree intervals
 sharing a point

next_back saved a shared excluded boundary for the wrong end, and both
directions saved it again after the other end had already handed it over.
---
 src/tine_tree.rs | 68 ++++++++++++++++++++++++++++--------------------
 1 file changed, 40 insertions(+), 28 deletions(-)

diff --git a/src/tine_tree.rs b/src/tine_tree.rs
index e76e0fa..1e8621e 100644
--- a/src/tine_tree.rs
+++ b/src/tine_tree.rs
@@ -1036,13 +1036,16 @@ impl<T> Iterator for IntoIter<T> where T: Ord + Clone {
                     // Next tine must be a lower bound of an interval.
                     debug_assert!(lower.is_lower_bound());
 
-                    let upper = self.inner.next()
-                        .or_else(|| self.saved_upper.take())
-                        .expect("interval is not partial");
-
-                    if upper.is_point_exclude() {
-                        self.saved_lower = Some(upper.clone());
-                    }
+                    let upper = if let Some(upper) = self.inner.next() {
+                        if upper.is_point_exclude() {
+                            self.saved_lower = Some(upper.clone());
+                        }
+                        upper
+                    } else {
+                        self.saved_upper
+                            .take()
+                            .expect("interval is not partial")
+                    };
 
                     // ... and the next tine after must be an upper bound.
                     debug_assert!(upper.is_upper_bound());
@@ -1072,13 +1075,16 @@ impl<T> DoubleEndedIterator for IntoIter<T>
                     // Next tine must be an upper bound of an interval.
                     debug_assert!(upper.is_upper_bound());
 
-                    let lower = self.inner.next_back()
-                        .or_else(|| self.saved_lower.take())
-                        .expect("interval is not partial");
-
-                    if lower.is_point_exclude() {
-                        self.saved_lower = Some(lower.clone());
-                    }
+                    let lower = if let Some(lower) = self.inner.next_back() {
+                        if lower.is_point_exclude() {
+                            self.saved_upper = Some(lower.clone());
+                        }
+                        lower
+                    } else {
+                        self.saved_lower
+                            .take()
+                            .expect("interval is not partial")
+                    };
 
                     // ... and the next tine after must be a lower bound.
                     debug_assert!(lower.is_lower_bound());
@@ -1125,13 +1131,16 @@ impl<'t, T> Iterator for Iter<'t, T>
                     // Next tine must be a lower bound of an interval.
                     debug_assert!(lower.is_lower_bound());
 
-                    let upper = self.tine_iter.next().cloned()
-                        .or_else(|| self.saved_upper.take())
-                        .expect("interval is not partial");
-
-                    if upper.is_point_exclude() {
-                        self.saved_lower = Some(upper.clone());
-                    }
+                    let upper = if let Some(upper) = self.tine_iter.next().cloned() {
+                        if upper.is_point_exclude() {
+                            self.saved_lower = Some(upper.clone());
+                        }
+                        upper
+                    } else {
+                        self.saved_upper
+                            .take()
+                            .expect("interval is not partial")
+                    };
 
                     // ... and the next tine after must be an upper bound.
                     debug_assert!(upper.is_upper_bound());
@@ -1162,13 +1171,16 @@ impl<'t, T> DoubleEndedIterator for Iter<'t, T>
                     // Next tine must be an upper bound of an interval.
                     debug_assert!(upper.is_upper_bound());
 
-                    let lower = self.tine_iter.next_back().cloned()
-                        .or_else(|| self.saved_lower.take())
-                        .expect("interval is not partial");
-
-                    if lower.is_point_exclude() {
-                        self.saved_lower = Some(lower.clone());
-                    }
+                    let lower = if let Some(lower) = self.tine_iter.next_back().cloned() {
+                        if lower.is_point_exclude() {
+                            self.saved_upper = Some(lower.clone());
+                        }
+                        lower
+                    } else {
+                        self.saved_lower
+                            .take()
+                            .expect("interval is not partial")
+                    };
 
                     // ... and the next tine after must be a lower bound.
                     debug_assert!(lower.is_lower_bound());
-- 
2.43.0


From ab38bb7f118e12c9b3e929f4b2ab542aa920087a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:08 +0000
Subject: [PATCH 05/18] fix: TineTree::intersect skipped overlaps after a
 disjoint pair

The walk consumed an interval of the other tree for every pair it tried, so
later overlaps were lost as soon as either tree had more than one interval.
---
 src/tine_tree.rs | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/tine_tree.rs b/src/tine_tree.rs
index 1e8621e..068429d 100644
--- a/src/tine_tree.rs
+++ b/src/tine_tree.rs
@@ -182,22 +182,19 @@ impl<T> TineTree<T> where T: Ord + Clone {
     pub fn intersect(&self, other: &Self) -> Self {
         let mut intersection = Self::new();
         let self_intervals = self.interval_iter();
-        let mut other_intervals = other.interval_iter();
+        let mut other_intervals = other.interval_iter().peekable();
 
         for self_interval in self_intervals {
-            'segment: loop {
-                if let Some(other_interval) = other_intervals.next() {
-                    let i = self_interval.intersect(&other_interval);
-                    if i.is_empty() {
-                        // Nothing else overlaps in this segment.
-                        break 'segment;
-                    }
-
-                    intersection.union_in_place(&i);
-                } else {
-                    // Nothing else overlaps anywhere.
-                    return intersection;
+            let self_upper = self_interval.upper_bound().map(Tine::Upper);
+            while let Some(other_interval) = other_intervals.peek() {
+                let i = self_interval.intersect(other_interval);
+                intersection.union_in_place(&i);
+
+                if other_interval.upper_bound().map(Tine::Upper) >= self_upper {
+                    // The next segment may overlap this interval as well.
+                    break;
                 }
+                let _ = other_intervals.next();
             }
         }
         intersection
-- 
2.43.0


From 20e836e381c7141e8f7d6b08f3ca6175d293aaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:08 +0000
Subject: [PATCH 06/18] fix: TineTree::intersect_in_place kept points outside
 the tree or panicked

The bounds of the given interval were inserted without checking that they lie
inside an interval of the tree, and boundaries merging to a single point or to
nothing ran into an assertion or unreachable!.
---
 src/tine_tree.rs | 103 ++++++++++-------------------------------------
 1 file changed, 22 insertions(+), 81 deletions(-)

diff --git a/src/tine_tree.rs b/src/tine_tree.rs
index 068429d..d9d1bc3 100644
--- a/src/tine_tree.rs
+++ b/src/tine_tree.rs
@@ -320,91 +320,32 @@ impl<T> TineTree<T> where T: Ord + Clone {
     fn intersect_proper_interval(&mut self, l: Tine<T>, u: Tine<T>) {
         let mut ts = self.interior_split_for_proper_interval(&l, &u);
 
-        // Merge tines if overlap or use given ones. We should only have `None`
-        // in the case of a intersection annhiliation.
-        let merged_l = if ts[2].is_some() {
-            ts[2].take().and_then(|lower| lower.intersect(&l))
-        } else {
-            Some(l)
-        };
-
-        let merged_u = if ts[3].is_some() {
-            ts[3].take().and_then(|upper| upper.intersect(&u))
-        } else {
-            Some(u)
-        };
-        
-        // Ensure inner tines have the correct bounds.
-        debug_assert!(merged_l
-            .as_ref()
-            .map_or(true, Tine::is_lower_bound));
-        debug_assert!(merged_u
-            .as_ref()
-            .map_or(true, Tine::is_upper_bound));
-
-        
-        // We need to detect whether the point is inside or outside an interval.
-        // To do this, we look at the tines inside and outside the interval.
-        let open_before = ts[0]
-            .as_ref()
-            .is_some_and(Tine::is_lower_bound);
-        let closed_after = ts[5]
-            .as_ref()
-            .is_some_and(Tine::is_upper_bound);
-
-        let in_l = ts[1]
-            .as_ref()
+        // We need to detect whether the given tines are inside or outside an
+        // interval of the tree. To do this, we look at the nearest tine after
+        // the lower one and the nearest tine before the upper one.
+        let in_l = ts[1].as_ref()
+            .or(ts[3].as_ref())
+            .or(ts[5].as_ref())
             .is_some_and(Tine::is_upper_bound);
-        let in_r = ts[4]
-            .as_ref()
+        let in_u = ts[4].as_ref()
+            .or(ts[2].as_ref())
+            .or(ts[0].as_ref())
             .is_some_and(Tine::is_lower_bound);
 
+        // Merge tines if overlap or use given ones if they are wrapped by an
+        // interval of the tree.
+        let merged_l = match ts[2].take() {
+            Some(lower) => lower.intersect(&l),
+            None        => in_l.then_some(l),
+        };
 
-        // Insert tines into the tree, ignoring them if the are not wrapped by a
-        // surrounding interval, or not wrapping a surrounding interval.
-        match (open_before, merged_l, in_l, in_r, merged_u, closed_after) {
-            (_,     Some(l), true,  true,  Some(u), _   )  |
-            (_,     Some(l), false, false, Some(u), _   )  => {
-                // (   ) (   )
-                //   (     )
-                //     O R
-                // (     )
-                //   ( )
-                //     O R
-                // (     )
-                // (  )
-                //     O R
-                // (     )
-                //    (  )
-                self.0.insert(l);
-                self.0.insert(u);
-            },
-            (true, Some(l),  true,  false, _,       false) => {
-                // (   )
-                //   (   )
-                //     O R
-                // (   ) ( )
-                //   (   )
-                self.0.insert(l);
-            },
-            (false, _,       false, true,  Some(u), true)  => {
-                //   (   )
-                // (   )
-                //     O R
-                // ( ) (   )
-                //   (   )
-                self.0.insert(u);
-            },
-            (false, _,       false, false, _,       false) => {
-                // )     (
-                // (     )
-                //     O R
-                //   ( )
-                // (     )
-                /* Do nothing. */
-            },
-            _ => unreachable!("invalid bounds for intersection interval"),
-        }
+        let merged_u = match ts[3].take() {
+            Some(upper) => upper.intersect(&u),
+            None        => in_u.then_some(u),
+        };
+
+        self.0.extend(merged_l);
+        self.0.extend(merged_u);
     }
 
     /// Unions the given interval with the contents of the tree.
-- 
2.43.0


From 75f08e3d041eba97c1ee7bb7287a9da7f46f36cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:32 +0000
Subject: [PATCH 07/18] fix: normalizing an interval with no or one point
 between its bounds

`Open(0, 1)` became `Closed(1, 0)` and `Open(0, 2)` became `Closed(1, 1)`
instead of `Empty` and `Point(1)`.
---
 src/normalize.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/normalize.rs b/src/normalize.rs
index dd0cdaf..7a43368 100644
--- a/src/normalize.rs
+++ b/src/normalize.rs
@@ -77,24 +77,24 @@ pub trait Normalize {
 // }
 
 /// Specialization for [`Finite`] intervals.
-impl<T> Normalize for RawInterval<T> where T: Finite {
+impl<T> Normalize for RawInterval<T> where T: Finite + Ord {
     fn normalize(&mut self) {
         use RawInterval::*;
         *self = match std::mem::replace(self, Empty) {
             Empty           => Empty,
             Point(p)        => Point(p),
             Open(l, r)      => match (l.succ(), r.pred()) {
-                (Some(l), Some(r)) => Closed(l, r),
+                (Some(l), Some(r)) => Self::closed(l, r),
                 _                  => Empty,
             },
-            LeftOpen(l, r)  => l.succ().map_or(Empty, |l| Closed(l, r)),
-            RightOpen(l, r) => r.pred().map_or(Empty, |r| Closed(l, r)),
-            Closed(l, r)    => Closed(l, r),
-            UpTo(r)         => r.pred().map_or(Empty, |r| Closed(T::MINIMUM, r)),
-            UpFrom(l)       => l.succ().map_or(Empty, |l| Closed(l, T::MAXIMUM)),
-            To(p)           => Closed(T::MINIMUM, p),
-            From(p)         => Closed(p, T::MAXIMUM),
-            Full            => Closed(T::MINIMUM, T::MAXIMUM),
+            LeftOpen(l, r)  => l.succ().map_or(Empty, |l| Self::closed(l, r)),
+            RightOpen(l, r) => r.pred().map_or(Empty, |r| Self::closed(l, r)),
+            Closed(l, r)    => Self::closed(l, r),
+            UpTo(r)         => r.pred().map_or(Empty, |r| Self::closed(T::MINIMUM, r)),
+            UpFrom(l)       => l.succ().map_or(Empty, |l| Self::closed(l, T::MAXIMUM)),
+            To(p)           => Self::closed(T::MINIMUM, p),
+            From(p)         => Self::closed(p, T::MAXIMUM),
+            Full            => Self::closed(T::MINIMUM, T::MAXIMUM),
         }
     }
 
-- 
2.43.0


From fd1fa3ba606bc908da0394904ab0dcaaa12c98b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:33 +0000
Subject: [PATCH 08/18] fix: denormalizing a half-bounded closed interval
 removed its points

---
 src/normalize.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/normalize.rs b/src/normalize.rs
index 7a43368..db5bfa7 100644
--- a/src/normalize.rs
+++ b/src/normalize.rs
@@ -125,8 +125,8 @@ impl<T> Normalize for RawInterval<T> where T: Finite + Ord {
             },
             UpTo(r)         => UpTo(r),
             UpFrom(l)       => UpFrom(l),
-            To(p)           => p.pred().map_or(Empty, |r| UpTo(r)),
-            From(p)         => p.succ().map_or(Empty, |l| UpFrom(l)),
+            To(p)           => p.succ().map_or(Full, |r| UpTo(r)),
+            From(p)         => p.pred().map_or(Full, |l| UpFrom(l)),
             Full            => Full,
         }
     }
-- 
2.43.0


From 5408b65622c73ba02ad69e5a8664dd4167987e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:35 +0000
Subject: [PATCH 09/18] fix: RawInterval::enclose_all always returned the full
 interval

---
 src/raw_interval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/raw_interval.rs b/src/raw_interval.rs
index f0d71c1..768a693 100644
--- a/src/raw_interval.rs
+++ b/src/raw_interval.rs
@@ -392,7 +392,7 @@ impl<T> RawInterval<T> where T: Ord + Clone {
     pub fn enclose_all<I>(intervals: I) -> Self
         where I: Iterator<Item=Self>
     {
-        intervals.fold(Self::Full, |acc, i| acc.enclose(&i))
+        intervals.fold(Self::Empty, |acc, i| acc.enclose(&i))
     }
 
     /// Returns the intersection of all of the given intervals.
-- 
2.43.0


From 84e55e91155081cf2d1041949989f89de3da1629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:36 +0000
Subject: [PATCH 10/18] fix: RawInterval::union_all returned overlapping
 intervals

An interval touching several of the previous ones was only merged with the
first of them.
---
 src/raw_interval.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/raw_interval.rs b/src/raw_interval.rs
index 768a693..17abb4a 100644
--- a/src/raw_interval.rs
+++ b/src/raw_interval.rs
@@ -414,20 +414,19 @@ impl<T> RawInterval<T> where T: Ord + Clone {
         // Get first interval.
         if let Some(start) = it.next() {
             // Fold over remaining intervals.
-            it.fold(vec![start], |mut prev, next| {
+            it.fold(vec![start], |mut prev, mut next| {
                 // Early exit for full interval.
                 if next == Self::Full {
                     return vec![Self::Full];
                 }
-                let mut append = true;
-                for item in &mut prev {
-                    if item.intersects(&next) || item .is_adjacent_to(&next) {
-                        *item = item.enclose(&next);
-                        append = false;
-                        break;
-                    }
-                }
-                if append {prev.push(next);}
+                // Merge every previous interval which touches the next one.
+                prev.retain(|item| {
+                    let merge = item.intersects(&next) 
+                        || item .is_adjacent_to(&next);
+                    if merge {next = item.enclose(&next);}
+                    !merge
+                });
+                prev.push(next);
                 prev
             })
         } else {
-- 
2.43.0


From 52a9dbddc46363e65566cc4b3ca73e62cfc31bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:37 +0000
Subject: [PATCH 11/18] fix: Interval::complement returned empty intervals

---
 src/interval.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/interval.rs b/src/interval.rs
index dc00dbc..3382a16 100644
--- a/src/interval.rs
+++ b/src/interval.rs
@@ -1569,6 +1569,7 @@ impl<T> Interval<T>
         self.0
             .complement()
             .map(Normalize::normalized)
+            .filter(|i| !i.is_empty())
             .map(Interval)
     }
     
-- 
2.43.0


From 212ca6a267ea86e9288f15fa412f16bbc825098c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:39 +0000
Subject: [PATCH 12/18] fix: Interval::union did not join adjacent intervals

---
 src/interval.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/interval.rs b/src/interval.rs
index 3382a16..ebfbf6a 100644
--- a/src/interval.rs
+++ b/src/interval.rs
@@ -1614,9 +1614,10 @@ impl<T> Interval<T>
     /// # }
     /// ```
     pub fn union(&self, other: &Self) -> impl Iterator<Item=Self> {
-        // TODO: Fix intervals that are adjacent after normalization.
-        self.0
-            .union(&other.0)
+        // Intervals that are adjacent after normalization will overlap when they
+        // are denormalized.
+        self.0.clone().denormalized()
+            .union(&other.0.clone().denormalized())
             .map(Normalize::normalized)
             .map(Interval)
     }
-- 
2.43.0


From 81bed4f2aa8f060c34cf5f116f7c84717a2be8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:40 +0000
Subject: [PATCH 13/18] fix: parsing an interval ignored text around the empty
 and infinite symbols

---
 src/raw_interval.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/raw_interval.rs b/src/raw_interval.rs
index 17abb4a..7473b4d 100644
--- a/src/raw_interval.rs
+++ b/src/raw_interval.rs
@@ -461,14 +461,14 @@ impl<T> FromStr for RawInterval<T> where T: Ord + FromStr {
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         use RawInterval::*;
         // Parse empty interval.
-        if s.starts_with("Ø") { return Ok(Empty); }
+        if s == "Ø" { return Ok(Empty); }
         // Parse point interval.
         if let Ok(p) = T::from_str(s) { return Ok(Point(p)); }
 
         let (x, y) = s.split_once(',')
             .ok_or(IntervalParseError::InvalidInterval)?;
 
-        let lb = if x.starts_with("(-∞") { 
+        let lb = if x == "(-∞" { 
             Bound::Infinite
         } else if let Some(res) = x.strip_prefix('(') {
             Bound::Exclude(T::from_str(res)
@@ -480,7 +480,7 @@ impl<T> FromStr for RawInterval<T> where T: Ord + FromStr {
             return Err(IntervalParseError::InvalidInterval);
         };
 
-        let ub = if y.ends_with("∞)") { 
+        let ub = if y == "∞)" { 
             Bound::Infinite
         } else if y.ends_with(')') {
             let end = y.len() - 1;
-- 
2.43.0


From f586ea441761ac2b1981990f661819432965b3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:41 +0000
Subject: [PATCH 14/18] fix: deserializing an Interval did not normalize it

---
 src/interval.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/interval.rs b/src/interval.rs
index ebfbf6a..08772ff 100644
--- a/src/interval.rs
+++ b/src/interval.rs
@@ -45,7 +45,7 @@ use std::ops::Sub;
 /// [`Finite`]: ../normalize/trait.Finite.html
 #[repr(transparent)]
 #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
-#[cfg_attr(feature="serde", derive(Deserialize, Serialize))]
+#[cfg_attr(feature="serde", derive(Serialize))]
 #[cfg_attr(feature="serde", serde(transparent))]
 pub struct Interval<T>(pub (crate) RawInterval<T>);
 
@@ -59,6 +59,20 @@ impl<T> Default for Interval<T>
     }
 }
 
+#[cfg(feature="serde")]
+impl<'de, T> Deserialize<'de> for Interval<T>
+    where
+        T: Ord + Clone + Deserialize<'de>,
+        RawInterval<T>: Normalize,
+{
+    fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+        where D: serde::Deserializer<'de>
+    {
+        // Ensure that the deserialized interval is normalized.
+        RawInterval::deserialize(deserializer).map(Self::from)
+    }
+}
+
 // All mutable operations and constructors on `Interval` must ensure that the
 // interval is normalized before returning.
 impl<T> Interval<T> 
-- 
2.43.0


From 50c3ada95e1317873e001a1d3cb01ec7cbb15e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:42 +0000
Subject: [PATCH 15/18] fix: Selection operations left trees that are not
 denormalized

The trees resulting from complement, intersect, minus, intersect_in_place and
minus_in_place may contain closed bounds, or intervals without any points, so
that equality, is_empty, is_full, intersects, and the intervals were wrong.
---
 src/selection.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/selection.rs b/src/selection.rs
index 9368290..f0aedb6 100644
--- a/src/selection.rs
+++ b/src/selection.rs
@@ -111,6 +111,12 @@ impl<T> Selection<T>
         Interval::full().into()
     }
 
+    /// Constructs a `Selection` from a `TineTree` whose intervals may no longer
+    /// be denormalized, or may no longer contain any points.
+    fn renormalized(tree: TineTree<T>) -> Self {
+        IntoIntervalIter(tree.into_iter()).collect()
+    }
+
     // Bound accessors
     ////////////////////////////////////////////////////////////////////////////
 
@@ -500,7 +506,7 @@ impl<T> Selection<T>
     #[must_use]
     pub fn intersects(&self, other: &Self) -> bool {
         // TODO: Make generic?
-        !self.0.intersect(&other.0).is_empty()
+        !self.intersect(other).is_empty()
     }
 
     // Symmetric set operations
@@ -552,7 +558,7 @@ impl<T> Selection<T>
     /// ```
     #[must_use]
     pub fn complement(&self) -> Self {
-        Self(self.0.complement())
+        Self::renormalized(self.0.complement())
     }
 
     /// Returns the `Selection` containing all points in both the given
@@ -595,7 +601,7 @@ impl<T> Selection<T>
     /// ```
     #[must_use]
     pub fn intersect(&self, other: &Self) -> Self {
-        Self(self.0.intersect(&other.0))
+        Self::renormalized(self.0.intersect(&other.0))
     }
 
     /// Returns the `Selection` containing all points in either of the given
@@ -662,7 +668,7 @@ impl<T> Selection<T>
     /// ```
     #[must_use]
     pub fn minus(&self, other: &Self) -> Self {
-        Self(self.0.minus(&other.0))
+        Self::renormalized(self.0.minus(&other.0))
     }
 
     /// Returns the smallest `Interval` containing all of the points in the 
@@ -760,6 +766,7 @@ impl<T> Selection<T>
     /// ```
     pub fn intersect_in_place(&mut self, interval: Interval<T>) {
         self.0.intersect_in_place(&interval.0.denormalized());
+        *self = Self::renormalized(std::mem::take(&mut self.0));
     }
 
     /// Adds all of the points in the given `Interval` to the `Selection`.
@@ -846,6 +853,7 @@ impl<T> Selection<T>
     /// ```
     pub fn minus_in_place(&mut self, interval: Interval<T>) {
         self.0.minus_in_place(&interval.0.denormalized());
+        *self = Self::renormalized(std::mem::take(&mut self.0));
     }
 
     ////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 8fc1629607b80caa4111006ac1ae31801b2e6196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:43 +0000
Subject: [PATCH 16/18] fix: Selection::is_bounded was false for the empty and
 true for unbounded selections

---
 src/selection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/selection.rs b/src/selection.rs
index f0aedb6..d2541d6 100644
--- a/src/selection.rs
+++ b/src/selection.rs
@@ -374,7 +374,7 @@ impl<T> Selection<T>
     #[inline]
     #[must_use]
     pub fn is_bounded(&self) -> bool {
-        self.lower_bound().is_some() || self.upper_bound().is_some()
+        self.is_left_bounded() && self.is_right_bounded()
     }
 
     /// Returns `true` if the the `Selection` is left-bounded.
-- 
2.43.0


From 0472a0fec0b7e8badd1ee04fc6ded91fd8d7ae32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:45 +0000
Subject: [PATCH 17/18] fix: Selection::closure included points next to the
 selection

---
 src/selection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/selection.rs b/src/selection.rs
index d2541d6..b8f02b3 100644
--- a/src/selection.rs
+++ b/src/selection.rs
@@ -718,7 +718,7 @@ impl<T> Selection<T>
     /// ```
     #[must_use]
     pub fn closure(&self) -> Interval<T> {
-        Interval(self.0.closure().normalized())
+        self.enclose().closure()
     }
 
     // In-place operations
-- 
2.43.0


From 9569816c26b9185f57b37cab41adab1051ab682b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:46 +0000
Subject: [PATCH 18/18] fix: Selection point iterators mixed up their two ends

`next` and `next_back` took points from the same current interval.
---
 src/selection.rs | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/selection.rs b/src/selection.rs
index b8f02b3..f54fb4c 100644
--- a/src/selection.rs
+++ b/src/selection.rs
@@ -882,6 +882,7 @@ impl<T> Selection<T>
         Iter {
             intervals: self.0.interval_iter(),
             current: Interval::empty().iter(),
+            current_back: Interval::empty().iter(),
         }
     }
 }
@@ -896,6 +897,7 @@ impl<T> IntoIterator for Selection<T>
         IntoIter {
             intervals: self.0.into_iter(),
             current: Interval::empty().iter(),
+            current_back: Interval::empty().iter(),
         }
     }
 }
@@ -910,6 +912,7 @@ impl<'a, T> IntoIterator for &'a Selection<T>
         Iter {
             intervals: self.0.interval_iter(),
             current: Interval::empty().iter(),
+            current_back: Interval::empty().iter(),
         }
     }
 }
@@ -1064,8 +1067,10 @@ pub struct IntoIter<T>
 {
     /// The interval iterator of the `TineTree`.
     intervals: crate::tine_tree::IntoIter<T>,
-    /// The current interval.
+    /// The current interval at the front.
     current: crate::interval::Iter<T>,
+    /// The current interval at the back.
+    current_back: crate::interval::Iter<T>,
 }
 
 impl<T> Iterator for IntoIter<T>
@@ -1084,7 +1089,7 @@ impl<T> Iterator for IntoIter<T>
             .map(Interval::from)
         {
             Some(interval) => interval.iter(),
-            None           => return None,
+            None           => return self.current_back.next(),
         };
 
         self.current.next()
@@ -1095,20 +1100,20 @@ impl<T> DoubleEndedIterator for IntoIter<T>
     where T: Ord + Clone + Finite,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
-        if let Some(next_back) = self.current.next_back() {
+        if let Some(next_back) = self.current_back.next_back() {
             return Some(next_back);
         }
 
-        self.current = match self.intervals
+        self.current_back = match self.intervals
             .next_back()
             .map(Normalize::normalized)
             .map(Interval::from)
         {
             Some(interval) => interval.iter(),
-            None           => return None,
+            None           => return self.current.next_back(),
         };
 
-        self.current.next_back()
+        self.current_back.next_back()
     }
 }
 
@@ -1126,8 +1131,10 @@ pub struct Iter<'t, T>
 {
     /// The interval iterator of the `TineTree`.
     intervals: crate::tine_tree::Iter<'t, T>,
-    /// The current interval.
+    /// The current interval at the front.
     current: crate::interval::Iter<T>,
+    /// The current interval at the back.
+    current_back: crate::interval::Iter<T>,
 }
 
 impl<'t, T> Iterator for Iter<'t, T>
@@ -1146,7 +1153,7 @@ impl<'t, T> Iterator for Iter<'t, T>
             .map(Interval::from)
         {
             Some(interval) => interval.iter(),
-            None           => return None,
+            None           => return self.current_back.next(),
         };
 
         self.current.next()
@@ -1157,20 +1164,20 @@ impl<'t, T> DoubleEndedIterator for Iter<'t, T>
     where T: Ord + Clone + Finite,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
-        if let Some(next_back) = self.current.next_back() {
+        if let Some(next_back) = self.current_back.next_back() {
             return Some(next_back);
         }
 
-        self.current = match self.intervals
+        self.current_back = match self.intervals
             .next_back()
             .map(Normalize::normalized)
             .map(Interval::from)
         {
             Some(interval) => interval.iter(),
-            None           => return None,
+            None           => return self.current.next_back(),
         };
 
-        self.current.next_back()
+        self.current_back.next_back()
     }
 }
 
-- 
2.43.0

