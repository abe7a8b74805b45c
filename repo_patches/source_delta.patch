From 34301c95fcf53a3c2797a42ad23554c29b5b38d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:16 +0000
Subject: [PATCH 1/4] fix: pair ring edges by winding when several chains end
 at one point

Boolean operations stored a single free chain-end per point, so when a
point is the left end of several boundary edges, whichever edges ended
first were paired, even when their windings do not match (panic in debug
builds, misjoined rings in release builds).
---
 src/bops/rings.rs | 49 ++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 38 insertions(+), 11 deletions(-)

diff --git a/src/bops/rings.rs b/src/bops/rings.rs
index 74a3d63..9f544db 100644
--- a/src/bops/rings.rs
+++ b/src/bops/rings.rs
@@ -8,7 +8,9 @@ use crate::{line_or_point::LineOrPoint, SweepPoint, utils::winding_inverse};
 #[derive(Debug, Clone)]
 pub struct Rings<T: GeoNum> {
     chains: Vec<Chain<T>>,
-    end_points: BTreeMap<SweepPoint<T>, Link>,
+    // Free ends of the chains; more than one chain may have an end at
+    // the same point.
+    end_points: BTreeMap<SweepPoint<T>, Vec<Link>>,
 }
 
 impl<T: GeoNum> Default for Rings<T> {
@@ -96,8 +98,8 @@ impl<T: GeoFloat> Rings<T> {
         let right = geom.second();
 
         let (le, re) = (
-            self.end_points.get(&left).copied(),
-            self.end_points.get(&right).copied(),
+            self.take_link(&left, winding.clone()),
+            self.take_link(&right, winding_inverse(winding.clone())),
         );
 
         match (le, re) {
@@ -105,14 +107,14 @@ impl<T: GeoFloat> Rings<T> {
                 // New chain.
                 let idx = self.chains.len();
                 self.chains.push(Chain::new(left, right, winding));
-                self.end_points.insert(
+                self.put_link(
                     left,
                     Link {
                         idx,
                         to_front: true,
                     },
                 );
-                self.end_points.insert(
+                self.put_link(
                     right,
                     Link {
                         idx,
@@ -124,15 +126,13 @@ impl<T: GeoFloat> Rings<T> {
             (None, Some(i)) => {
                 // right matched against of chains[i]
                 self.push_link(i, left, winding_inverse(winding));
-                self.end_points.remove(&right).unwrap();
-                self.end_points.insert(left, i);
+                self.put_link(left, i);
                 trace!("\tadded to {i:?}: {left:?}");
             }
             (Some(i), None) => {
                 // left matched against of chains[i]
                 self.push_link(i, right, winding);
-                self.end_points.remove(&left).unwrap();
-                self.end_points.insert(right, i);
+                self.put_link(right, i);
                 trace!("\tadded to {i:?}: {right:?}");
 
             }
@@ -141,13 +141,40 @@ impl<T: GeoFloat> Rings<T> {
                 // need to add to the end_points tree, nor
                 // push_link.  Only need to connect the two chains.
                 self.link_chains(i, j, winding);
-                self.end_points.remove(&left).unwrap();
-                self.end_points.remove(&right).unwrap();
                 trace!("\tconnected chains {i:?} and {j:?}");
             }
         }
     }
 
+    /// Take the last added chain-end at `pt` that can be continued by
+    /// an edge which, when traversed away from `pt`, has the given
+    /// `winding`.
+    fn take_link(&mut self, pt: &SweepPoint<T>, winding: WindingOrder) -> Option<Link> {
+        let inverse = winding_inverse(winding.clone());
+        let links = self.end_points.get_mut(pt)?;
+        let mut pos = links.len();
+        while pos > 0 {
+            pos -= 1;
+            let link = links[pos];
+            let expected = if link.to_front { &inverse } else { &winding };
+            if &self.chains[link.idx].winding == expected {
+                links.remove(pos);
+                return Some(link);
+            }
+        }
+        None
+    }
+
+    /// Add a free chain-end at `pt`.
+    fn put_link(&mut self, pt: SweepPoint<T>, link: Link) {
+        match self.end_points.get_mut(&pt) {
+            Some(links) => links.push(link),
+            None => {
+                self.end_points.insert(pt, vec![link]);
+            }
+        }
+    }
+
     fn push_link(&mut self, l: Link, pt: SweepPoint<T>, winding: WindingOrder) {
         if l.to_front {
             self.chains[l.idx].push_front(pt);
-- 
2.43.0


From cd352105716f61a6beff33d5971b9519d2216b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:40 +0000
Subject: [PATCH 2/4] fix: drop splay tree nodes iteratively so deep trees do
 not overflow the stack

---
 src/splay/tree.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/splay/tree.rs b/src/splay/tree.rs
index 0901467..823f5a0 100644
--- a/src/splay/tree.rs
+++ b/src/splay/tree.rs
@@ -34,7 +34,13 @@ where
     }
 
     pub fn clear(&mut self) {
-        self.root_mut().take();
+        // Nodes are dropped one at a time: the tree may be arbitrarily deep,
+        // and the drop glue of a nested `Node` recurses.
+        let mut iter = IntoIter {
+            cur: self.root_mut().take(),
+            remaining: self.size,
+        };
+        while iter.next().is_some() {}
         self.size = 0;
     }
 
@@ -390,6 +396,12 @@ impl<K, V> DoubleEndedIterator for IntoIter<K, V> {
 
 impl<K, V> ExactSizeIterator for IntoIter<K, V> {}
 
+impl<K, V> Drop for IntoIter<K, V> {
+    fn drop(&mut self) {
+        while self.next().is_some() {}
+    }
+}
+
 /// Performs a top-down splay operation on a tree rooted at `node`. This will
 /// modify the pointer to contain the new root of the tree once the splay
 /// operation is done. When finished, if `key` is in the tree, it will be at the
-- 
2.43.0


From 99fd9cddb4daee41a1a479ff94eaefc8f79a4320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:52 +0000
Subject: [PATCH 3/4] fix: order an intersection point after the left ends of
 both lines, not only of self

---
 src/line_or_point.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/line_or_point.rs b/src/line_or_point.rs
index c984ed9..2c71967 100644
--- a/src/line_or_point.rs
+++ b/src/line_or_point.rs
@@ -144,7 +144,7 @@ impl<T: Float> LineOrPoint<T> {
                 // `btree-slab` seems like a great starting point.
                 let (mut x, y) = pt.coord().x_y();
 
-                let c = self.first().coord();
+                let c = self.first().max(other.first()).coord();
 
                 if x == c.x && y < c.y {
                     x = x.next_after(T::infinity());
-- 
2.43.0


From 42f23b4d86abacfc3208c03b089e174bbb64628a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:18 +0000
Subject: [PATCH 4/4] fix: do not size buffers by the upper bound of a size
 hint

Collecting a CrossingsIter or Intersections from an iterator whose upper
bound is loose (e.g. (0..usize::MAX).map_while(..)) panicked with a
capacity overflow.
---
 src/crossings.rs       | 6 ++----
 src/crossings/sweep.rs | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/crossings.rs b/src/crossings.rs
index 7ba6453..0e4b2cc 100644
--- a/src/crossings.rs
+++ b/src/crossings.rs
@@ -168,10 +168,8 @@ where
 {
     fn from_iter<T: IntoIterator<Item = C>>(iter: T) -> Self {
         let iter = iter.into_iter();
-        let size = {
-            let (min_size, max_size) = iter.size_hint();
-            max_size.unwrap_or(min_size)
-        };
+        // The upper bound of the hint may be arbitrarily loose.
+        let (size, _) = iter.size_hint();
         let sweep = Sweep::new(iter);
         let segments = Vec::with_capacity(4 * size);
         Self { sweep, segments }
diff --git a/src/crossings/sweep.rs b/src/crossings/sweep.rs
index 6878e98..4c3a10c 100644
--- a/src/crossings/sweep.rs
+++ b/src/crossings/sweep.rs
@@ -252,10 +252,8 @@ where
 {
     pub fn new<I: IntoIterator<Item = C>>(iter: I) -> Self {
         let iter = iter.into_iter();
-        let size = {
-            let (min_size, max_size) = iter.size_hint();
-            max_size.unwrap_or(min_size)
-        };
+        // The upper bound of the hint may be arbitrarily loose.
+        let (size, _) = iter.size_hint();
 
         let mut sweep = Sweep {
             segments: Slab::with_capacity(16 * size).into(),
-- 
2.43.0

