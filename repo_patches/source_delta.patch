From 563f0c4a1fd1d6cabec32ca0acd36e8c22b75451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:16 +0000
Subject: [PATCH 1/4] fix: release splay trees without recursion

Clearing or dropping a SplayTree, or abandoning its IntoIter, dropped the
links recursively and overflowed the stack for deep trees (e.g. a few
hundred thousand keys inserted in order).
---
 src/splay/tree.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/splay/tree.rs b/src/splay/tree.rs
index 0901467..d8ac0b0 100644
--- a/src/splay/tree.rs
+++ b/src/splay/tree.rs
@@ -34,7 +34,12 @@ where
     }
 
     pub fn clear(&mut self) {
-        self.root_mut().take();
+        // Dropping the links recursively needs stack proportional to the depth
+        // of the tree; let the iterator take the nodes apart instead.
+        drop(IntoIter {
+            cur: self.root_mut().take(),
+            remaining: self.size,
+        });
         self.size = 0;
     }
 
@@ -390,6 +395,13 @@ impl<K, V> DoubleEndedIterator for IntoIter<K, V> {
 
 impl<K, V> ExactSizeIterator for IntoIter<K, V> {}
 
+impl<K, V> Drop for IntoIter<K, V> {
+    fn drop(&mut self) {
+        // Release the remaining nodes one by one, without recursion.
+        for _ in self {}
+    }
+}
+
 /// Performs a top-down splay operation on a tree rooted at `node`. This will
 /// modify the pointer to contain the new root of the tree once the splay
 /// operation is done. When finished, if `key` is in the tree, it will be at the
-- 
2.43.0


From 8ee742d0dd0c9e76e1eea2a588f31e26a4af7b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 2/4] fix: continue ring chains only with edges of the same
 region where rings touch

add_edge keyed the open ends of chains by point alone, so of several ends at a
vertex shared by rings the wrong one was continued: the union of two triangles
sharing their leftmost vertex panicked in debug builds and made one of them a
hole of the other in release builds.
---
 src/bops/rings.rs | 48 ++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 37 insertions(+), 11 deletions(-)

diff --git a/src/bops/rings.rs b/src/bops/rings.rs
index 74a3d63..f6910fe 100644
--- a/src/bops/rings.rs
+++ b/src/bops/rings.rs
@@ -8,7 +8,8 @@ use crate::{line_or_point::LineOrPoint, SweepPoint, utils::winding_inverse};
 #[derive(Debug, Clone)]
 pub struct Rings<T: GeoNum> {
     chains: Vec<Chain<T>>,
-    end_points: BTreeMap<SweepPoint<T>, Link>,
+    // Open ends of chains at each point.
+    end_points: BTreeMap<SweepPoint<T>, Vec<Link>>,
 }
 
 impl<T: GeoNum> Default for Rings<T> {
@@ -96,8 +97,8 @@ impl<T: GeoFloat> Rings<T> {
         let right = geom.second();
 
         let (le, re) = (
-            self.end_points.get(&left).copied(),
-            self.end_points.get(&right).copied(),
+            self.take_end(left, &winding),
+            self.take_end(right, &winding_inverse(winding.clone())),
         );
 
         match (le, re) {
@@ -105,14 +106,14 @@ impl<T: GeoFloat> Rings<T> {
                 // New chain.
                 let idx = self.chains.len();
                 self.chains.push(Chain::new(left, right, winding));
-                self.end_points.insert(
+                self.add_end(
                     left,
                     Link {
                         idx,
                         to_front: true,
                     },
                 );
-                self.end_points.insert(
+                self.add_end(
                     right,
                     Link {
                         idx,
@@ -124,15 +125,13 @@ impl<T: GeoFloat> Rings<T> {
             (None, Some(i)) => {
                 // right matched against of chains[i]
                 self.push_link(i, left, winding_inverse(winding));
-                self.end_points.remove(&right).unwrap();
-                self.end_points.insert(left, i);
+                self.add_end(left, i);
                 trace!("\tadded to {i:?}: {left:?}");
             }
             (Some(i), None) => {
                 // left matched against of chains[i]
                 self.push_link(i, right, winding);
-                self.end_points.remove(&left).unwrap();
-                self.end_points.insert(right, i);
+                self.add_end(right, i);
                 trace!("\tadded to {i:?}: {right:?}");
 
             }
@@ -141,13 +140,40 @@ impl<T: GeoFloat> Rings<T> {
                 // need to add to the end_points tree, nor
                 // push_link.  Only need to connect the two chains.
                 self.link_chains(i, j, winding);
-                self.end_points.remove(&left).unwrap();
-                self.end_points.remove(&right).unwrap();
                 trace!("\tconnected chains {i:?} and {j:?}");
             }
         }
     }
 
+    /// Record an open end of a chain at `pt`.
+    fn add_end(&mut self, pt: SweepPoint<T>, link: Link) {
+        self.end_points.entry(pt).or_default().push(link);
+    }
+
+    /// Remove and return an open end at `pt` that an edge leaving `pt` with the
+    /// given `winding` continues (i.e. with the region on the same side).
+    ///
+    /// Rings may touch at a vertex, so ends at `pt` may belong to different
+    /// regions.
+    fn take_end(&mut self, pt: SweepPoint<T>, winding: &WindingOrder) -> Option<Link> {
+        let chains = &self.chains;
+        let ends = self.end_points.get_mut(&pt)?;
+        let pos = ends.iter().position(|l| {
+            let along = chains[l.idx].winding.clone();
+            *winding
+                == if l.to_front {
+                    winding_inverse(along)
+                } else {
+                    along
+                }
+        })?;
+        let link = ends.remove(pos);
+        if ends.is_empty() {
+            self.end_points.remove(&pt);
+        }
+        Some(link)
+    }
+
     fn push_link(&mut self, l: Link, pt: SweepPoint<T>, winding: WindingOrder) {
         if l.to_front {
             self.chains[l.idx].push_front(pt);
-- 
2.43.0


From a134f9851e0f4c7a5d7d3d386379f018aafd1fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 3/4] fix: keep overlapping crossings in order when sorting
 them

With more than 20 crossings at a point the unstable sort may put an overlapped
segment before the one that carries it, and prev_active of an overlapped
segment is its carrier, whose region is not known yet.
---
 src/bops/op.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bops/op.rs b/src/bops/op.rs
index 1f2064d..5bf73a9 100644
--- a/src/bops/op.rs
+++ b/src/bops/op.rs
@@ -74,7 +74,7 @@ impl<T: Float> Op<T> {
                     }
                 })
             }
-            iter.intersections_mut().sort_unstable_by(compare_crossings);
+            iter.intersections_mut().sort_by(compare_crossings);
 
             // Process all end-segments.
             let mut idx = 0;
-- 
2.43.0


From 9fa25d3b87b03f8cfc23344169be79ec5d8423b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:58 +0000
Subject: [PATCH 4/4] fix: monotone sweep must not be Unpin

Only fields marked #[pin] decide whether the projected type is Unpin, so
the PhantomPinned marker had no effect: a sweep could be taken out of its
pin by safe code once started, leaving its active segments with dangling
pointers to the segment storage.
---
 src/monotone/sweep.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/monotone/sweep.rs b/src/monotone/sweep.rs
index 00f1635..e188ee2 100644
--- a/src/monotone/sweep.rs
+++ b/src/monotone/sweep.rs
@@ -39,6 +39,7 @@ pin_project! {
         pt_key: usize,
         events: Vec<Event<T>>,
         active_segments: BTreeSet<Active<Segment<T>>>,
+        #[pin]
         _pin: PhantomPinned,
     }
 }
-- 
2.43.0

