From 420826551c6e576f715211396975be97b19dfba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:57 +0000
Subject: [PATCH 1/8] fix: only connect ring ends of matching orientation when
 rings meet at a point

Several output rings may share a vertex. The open chain ends were keyed by the
point alone, so two ends that both leave (or both enter) the point could be
connected, which trips the winding assertions, e.g. on the xor of two triangles
sharing a vertex.
---
 src/bops/rings.rs | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/bops/rings.rs b/src/bops/rings.rs
index 74a3d63..62d33e3 100644
--- a/src/bops/rings.rs
+++ b/src/bops/rings.rs
@@ -8,7 +8,10 @@ use crate::{line_or_point::LineOrPoint, SweepPoint, utils::winding_inverse};
 #[derive(Debug, Clone)]
 pub struct Rings<T: GeoNum> {
     chains: Vec<Chain<T>>,
-    end_points: BTreeMap<SweepPoint<T>, Link>,
+    // Open ends of the chains, by the point, and whether the boundary (oriented
+    // as per the winding) leaves the point along the chain. Many rings may meet
+    // at a point: only ends with opposite orientations may be connected.
+    end_points: BTreeMap<(SweepPoint<T>, bool), Vec<Link>>,
 }
 
 impl<T: GeoNum> Default for Rings<T> {
@@ -95,25 +98,27 @@ impl<T: GeoFloat> Rings<T> {
         let left = geom.first();
         let right = geom.second();
 
-        let (le, re) = (
-            self.end_points.get(&left).copied(),
-            self.end_points.get(&right).copied(),
-        );
+        // Whether the edge leaves its left end (and enters its right end).
+        let leaves = winding == WindingOrder::CounterClockwise;
+        let le = self.take_end_point(left, !leaves);
+        let re = self.take_end_point(right, leaves);
 
         match (le, re) {
             (None, None) => {
                 // New chain.
                 let idx = self.chains.len();
                 self.chains.push(Chain::new(left, right, winding));
-                self.end_points.insert(
+                self.add_end_point(
                     left,
+                    leaves,
                     Link {
                         idx,
                         to_front: true,
                     },
                 );
-                self.end_points.insert(
+                self.add_end_point(
                     right,
+                    !leaves,
                     Link {
                         idx,
                         to_front: false,
@@ -124,15 +129,13 @@ impl<T: GeoFloat> Rings<T> {
             (None, Some(i)) => {
                 // right matched against of chains[i]
                 self.push_link(i, left, winding_inverse(winding));
-                self.end_points.remove(&right).unwrap();
-                self.end_points.insert(left, i);
+                self.add_end_point(left, leaves, i);
                 trace!("\tadded to {i:?}: {left:?}");
             }
             (Some(i), None) => {
                 // left matched against of chains[i]
                 self.push_link(i, right, winding);
-                self.end_points.remove(&left).unwrap();
-                self.end_points.insert(right, i);
+                self.add_end_point(right, !leaves, i);
                 trace!("\tadded to {i:?}: {right:?}");
 
             }
@@ -141,13 +144,19 @@ impl<T: GeoFloat> Rings<T> {
                 // need to add to the end_points tree, nor
                 // push_link.  Only need to connect the two chains.
                 self.link_chains(i, j, winding);
-                self.end_points.remove(&left).unwrap();
-                self.end_points.remove(&right).unwrap();
                 trace!("\tconnected chains {i:?} and {j:?}");
             }
         }
     }
 
+    fn take_end_point(&mut self, pt: SweepPoint<T>, leaves: bool) -> Option<Link> {
+        self.end_points.get_mut(&(pt, leaves)).and_then(Vec::pop)
+    }
+
+    fn add_end_point(&mut self, pt: SweepPoint<T>, leaves: bool, link: Link) {
+        self.end_points.entry((pt, leaves)).or_default().push(link);
+    }
+
     fn push_link(&mut self, l: Link, pt: SweepPoint<T>, winding: WindingOrder) {
         if l.to_front {
             self.chains[l.idx].push_front(pt);
-- 
2.43.0


From 490f7301fb9befbc78fee2b989787da66eedb9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:53 +0000
Subject: [PATCH 2/8] fix: destroy deep splay trees without exhausting the
 stack

---
 src/splay/tree.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/splay/tree.rs b/src/splay/tree.rs
index 0901467..381361f 100644
--- a/src/splay/tree.rs
+++ b/src/splay/tree.rs
@@ -34,7 +34,12 @@ where
     }
 
     pub fn clear(&mut self) {
-        self.root_mut().take();
+        // Drop the nodes one by one: the tree may be too deep for the recursive
+        // drop of its boxes.
+        drop(IntoIter {
+            cur: self.root_mut().take(),
+            remaining: self.size,
+        });
         self.size = 0;
     }
 
@@ -390,6 +395,12 @@ impl<K, V> DoubleEndedIterator for IntoIter<K, V> {
 
 impl<K, V> ExactSizeIterator for IntoIter<K, V> {}
 
+impl<K, V> Drop for IntoIter<K, V> {
+    fn drop(&mut self) {
+        for _ in self {}
+    }
+}
+
 /// Performs a top-down splay operation on a tree rooted at `node`. This will
 /// modify the pointer to contain the new root of the tree once the splay
 /// operation is done. When finished, if `key` is in the tree, it will be at the
-- 
2.43.0


From c7d8d2434103c8a3a19944cef2f438fd10877121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:26 +0000
Subject: [PATCH 3/8] fix: keep the order of overlapping segments at vertices
 of high degree

---
 src/bops/op.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bops/op.rs b/src/bops/op.rs
index 1f2064d..ca40a90 100644
--- a/src/bops/op.rs
+++ b/src/bops/op.rs
@@ -74,7 +74,10 @@ impl<T: Float> Op<T> {
                     }
                 })
             }
-            iter.intersections_mut().sort_unstable_by(compare_crossings);
+            // Must be stable: among overlapping start-segments, the one that
+            // is active in the sweep is reported first, and must stay so for
+            // `prev_active` to work.
+            iter.intersections_mut().sort_by(compare_crossings);
 
             // Process all end-segments.
             let mut idx = 0;
-- 
2.43.0


From 37dd419526cce548abf9cf42cc4bd62a7a0ba845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:32 +0000
Subject: [PATCH 4/8] fix: keep the scanner's top above its bottom where chains
 almost meet

---
 src/monotone/mono_poly.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/monotone/mono_poly.rs b/src/monotone/mono_poly.rs
index 0643181..0199f8b 100644
--- a/src/monotone/mono_poly.rs
+++ b/src/monotone/mono_poly.rs
@@ -254,13 +254,18 @@ impl<'a, T: GeoFloat> Scanner<'a, T> {
                 (new_top, bot[self.bot_idx], Ordering::Less, self.curr.x)
             }
         };
+
+        // The chains may be arbitrarily close to each other: ensure that they
+        // are not swapped by the rounding in the interpolation.
         if until < new_x {
+            let new_top = interpolate(top[self.top_idx], new_top, until);
+            let new_bot = interpolate(bot[self.bot_idx], new_bot, until);
             Some((
                 None,
                 Trip {
                     x: until,
-                    top: interpolate(top[self.top_idx], new_top, until),
-                    bot: interpolate(bot[self.bot_idx], new_bot, until),
+                    top: new_top,
+                    bot: new_bot.min(new_top),
                 },
             ))
         } else {
@@ -270,7 +275,7 @@ impl<'a, T: GeoFloat> Scanner<'a, T> {
                     Trip {
                         x: new_top.x,
                         top: new_top.y,
-                        bot: interpolate(bot[self.bot_idx], new_bot, new_top.x),
+                        bot: interpolate(bot[self.bot_idx], new_bot, new_top.x).min(new_top.y),
                     },
                 )),
                 Ordering::Equal => Some((
@@ -285,7 +290,7 @@ impl<'a, T: GeoFloat> Scanner<'a, T> {
                     Some(ord),
                     Trip {
                         x: new_bot.x,
-                        top: interpolate(top[self.top_idx], new_top, new_bot.x),
+                        top: interpolate(top[self.top_idx], new_top, new_bot.x).max(new_bot.y),
                         bot: new_bot.y,
                     },
                 )),
-- 
2.43.0


From d05ee5a1aadfbbcb57031a23dc9a8202463bcb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:54 +0000
Subject: [PATCH 5/8] fix: order a computed crossing after the starts of both
 segments

The crossing of a nearly vertical segment may be rounded to a point that
precedes its left end. It was moved behind the left end of the first
operand only, so that the operation panicked (or, without debug
assertions, answered a point outside of the second one) when the second
operand was the nearly vertical one.
---
 src/line_or_point.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/line_or_point.rs b/src/line_or_point.rs
index c984ed9..2c71967 100644
--- a/src/line_or_point.rs
+++ b/src/line_or_point.rs
@@ -144,7 +144,7 @@ impl<T: Float> LineOrPoint<T> {
                 // `btree-slab` seems like a great starting point.
                 let (mut x, y) = pt.coord().x_y();
 
-                let c = self.first().coord();
+                let c = self.first().max(other.first()).coord();
 
                 if x == c.x && y < c.y {
                     x = x.next_after(T::infinity());
-- 
2.43.0


From d73ff2e9cfb8210f58349112f9dd6dcf3ebfe8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:53 +0000
Subject: [PATCH 6/8] fix: size the buffers of the sweep by the lower bound of
 the size hint

---
 src/crossings.rs       | 6 ++----
 src/crossings/sweep.rs | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/crossings.rs b/src/crossings.rs
index 7ba6453..82f0201 100644
--- a/src/crossings.rs
+++ b/src/crossings.rs
@@ -168,10 +168,8 @@ where
 {
     fn from_iter<T: IntoIterator<Item = C>>(iter: T) -> Self {
         let iter = iter.into_iter();
-        let size = {
-            let (min_size, max_size) = iter.size_hint();
-            max_size.unwrap_or(min_size)
-        };
+        // The upper bound may be arbitrarily larger than the actual size.
+        let (size, _) = iter.size_hint();
         let sweep = Sweep::new(iter);
         let segments = Vec::with_capacity(4 * size);
         Self { sweep, segments }
diff --git a/src/crossings/sweep.rs b/src/crossings/sweep.rs
index 6878e98..d71a964 100644
--- a/src/crossings/sweep.rs
+++ b/src/crossings/sweep.rs
@@ -252,10 +252,8 @@ where
 {
     pub fn new<I: IntoIterator<Item = C>>(iter: I) -> Self {
         let iter = iter.into_iter();
-        let size = {
-            let (min_size, max_size) = iter.size_hint();
-            max_size.unwrap_or(min_size)
-        };
+        // The upper bound may be arbitrarily larger than the actual size.
+        let (size, _) = iter.size_hint();
 
         let mut sweep = Sweep {
             segments: Slab::with_capacity(16 * size).into(),
-- 
2.43.0


From fcae337540417937b268d6870717803097bf887c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:17 +0000
Subject: [PATCH 7/8] fix: put a splayed tree together again when the
 comparator panics

---
 src/splay/tree.rs | 86 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 59 insertions(+), 27 deletions(-)

diff --git a/src/splay/tree.rs b/src/splay/tree.rs
index 381361f..c18d1ec 100644
--- a/src/splay/tree.rs
+++ b/src/splay/tree.rs
@@ -205,7 +205,9 @@ where
         *self.root_mut() = match left {
             None => right,
             Some(mut node) => {
-                splay(key, &mut node, &self.comparator);
+                // `key` is larger than all keys to its left. Do not ask the
+                // comparator, which may panic.
+                splay(key, &mut node, &|_: &K, _: &K| Ordering::Greater);
                 node.right = right;
                 Some(node)
             }
@@ -401,6 +403,39 @@ impl<K, V> Drop for IntoIter<K, V> {
     }
 }
 
+/// The parts of a tree that is being splayed. They are put together when this
+/// is dropped, so that no node is lost if the user's comparator panics.
+struct Parts<'a, K, V> {
+    /// The sub-tree still to be searched.
+    node: &'a mut Box<Node<K, V>>,
+
+    /// Trees of smaller keys, largest first, each without a right sub-tree;
+    /// linked through that.
+    smaller: Option<Box<Node<K, V>>>,
+
+    /// Trees of larger keys, smallest first, each without a left sub-tree;
+    /// linked through that.
+    larger: Option<Box<Node<K, V>>>,
+}
+
+impl<'a, K, V> Drop for Parts<'a, K, V> {
+    fn drop(&mut self) {
+        let mut left = self.node.pop_left();
+        while let Some(mut tree) = self.smaller.take() {
+            self.smaller = mem::replace(&mut tree.right, left);
+            left = Some(tree);
+        }
+        self.node.left = left;
+
+        let mut right = self.node.pop_right();
+        while let Some(mut tree) = self.larger.take() {
+            self.larger = mem::replace(&mut tree.left, right);
+            right = Some(tree);
+        }
+        self.node.right = right;
+    }
+}
+
 /// Performs a top-down splay operation on a tree rooted at `node`. This will
 /// modify the pointer to contain the new root of the tree once the splay
 /// operation is done. When finished, if `key` is in the tree, it will be at the
@@ -410,15 +445,16 @@ fn splay<K, V, C>(key: &K, node: &mut Box<Node<K, V>>, comparator: &C)
 where
     C: Fn(&K, &K) -> Ordering,
 {
-    let mut newleft = None;
-    let mut newright = None;
-
-    // Eplicitly grab a new scope so the loans on newleft/newright are
-    // terminated before we move out of them.
+    let mut parts = Parts {
+        node,
+        smaller: None,
+        larger: None,
+    };
+
+    // Explicitly grab a new scope so the loans on parts are terminated before
+    // they are put together.
     {
-        // Yes, these are backwards, that's intentional.
-        let mut l = &mut newright;
-        let mut r = &mut newleft;
+        let node = &mut *parts.node;
 
         loop {
             match comparator(key, &node.key) {
@@ -426,12 +462,13 @@ where
                 Ordering::Equal => break,
 
                 Ordering::Less => {
-                    let mut left = match node.pop_left() {
-                        Some(left) => left,
+                    let rotate = match node.left {
+                        Some(ref left) => comparator(key, &left.key) == Ordering::Less,
                         None => break,
                     };
+                    let mut left = node.pop_left().unwrap();
                     // rotate this node right if necessary
-                    if comparator(key, &left.key) == Ordering::Less {
+                    if rotate {
                         // A bit odd, but avoids drop glue
                         mem::swap(&mut node.left, &mut left.right);
                         mem::swap(&mut left, node);
@@ -444,20 +481,21 @@ where
                         }
                     }
 
-                    *r = Some(mem::replace(node, left));
-                    let tmp = r;
-                    r = &mut tmp.as_mut().unwrap().left;
+                    let mut tree = mem::replace(node, left);
+                    tree.left = parts.larger.take();
+                    parts.larger = Some(tree);
                 }
 
                 // If you look closely, you may have seen some similar code
                 // before
                 Ordering::Greater => {
-                    let mut right = match node.pop_right() {
-                        Some(right) => right,
+                    let rotate = match node.right {
+                        Some(ref right) => comparator(key, &right.key) == Ordering::Greater,
                         None => break,
                     };
+                    let mut right = node.pop_right().unwrap();
 
-                    if comparator(key, &right.key) == Ordering::Greater {
+                    if rotate {
                         mem::swap(&mut node.right, &mut right.left);
                         mem::swap(&mut right, node);
                         let none = mem::replace(&mut node.left, Some(right));
@@ -468,17 +506,11 @@ where
                             None => break,
                         }
                     }
-                    *l = Some(mem::replace(node, right));
-                    let tmp = l;
-                    l = &mut tmp.as_mut().unwrap().right;
+                    let mut tree = mem::replace(node, right);
+                    tree.right = parts.smaller.take();
+                    parts.smaller = Some(tree);
                 }
             }
         }
-
-        mem::swap(l, &mut node.left);
-        mem::swap(r, &mut node.right);
     }
-
-    node.left = newright;
-    node.right = newleft;
 }
-- 
2.43.0


From 9c06474e294e7326711e585001273ec7302a233d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:38 +0000
Subject: [PATCH 8/8] fix: splay the neighbour of the key too in next and prev,
 so that asking again is cheap

---
 src/splay/tree.rs | 71 +++++++++++++++++------------------------------
 1 file changed, 25 insertions(+), 46 deletions(-)

diff --git a/src/splay/tree.rs b/src/splay/tree.rs
index c18d1ec..73b0239 100644
--- a/src/splay/tree.rs
+++ b/src/splay/tree.rs
@@ -95,64 +95,43 @@ where
 
     pub fn next(&self, key: &K) -> Option<(&K, &V)> {
         // Splay trees are self-modifying, which is the cause of this ugly mess
-        let mut node: &Node<K, V> = match self.root_mut() {
-            Some(ref mut root) => {
-                splay(key, root, &self.comparator);
-                root
-            }
+        let root = match self.root_mut() {
+            Some(ref mut root) => root,
             None => return None,
         };
-
-        let mut successor: Option<(&K, &V)> = None;
-
-        loop {
-            match (self.comparator)(key, &node.key) {
-                Ordering::Less => {
-                    successor = Some((&node.key, &node.value));
-                    match node.left {
-                        Some(ref left) => node = left,
-                        None => break,
-                    }
-                }
-                Ordering::Equal | Ordering::Greater => match node.right {
-                    Some(ref right) => node = right,
-                    None => break,
-                },
-            }
+        splay(key, root, &self.comparator);
+        if (self.comparator)(key, &root.key) == Ordering::Less {
+            return Some((&root.key, &root.value));
         }
 
-        successor
+        // All the keys to the right are larger. Splay the smallest of them too:
+        // it may be deep down, and stay there however often it is asked for.
+        let right = match root.right {
+            Some(ref mut right) => right,
+            None => return None,
+        };
+        splay(key, right, &|_: &K, _: &K| Ordering::Less);
+        Some((&right.key, &right.value))
     }
 
     pub fn prev(&self, key: &K) -> Option<(&K, &V)> {
         // Splay trees are self-modifying, which is the cause of this ugly mess
-        let mut node: &Node<K, V> = match self.root_mut() {
-            Some(ref mut root) => {
-                splay(key, root, &self.comparator);
-                root
-            }
+        let root = match self.root_mut() {
+            Some(ref mut root) => root,
             None => return None,
         };
-
-        let mut predecessor: Option<(&K, &V)> = None;
-
-        loop {
-            match (self.comparator)(key, &node.key) {
-                Ordering::Equal | Ordering::Less => match node.left {
-                    Some(ref left) => node = left,
-                    None => break,
-                },
-                Ordering::Greater => {
-                    predecessor = Some((&node.key, &node.value));
-                    match node.right {
-                        Some(ref right) => node = right,
-                        None => break,
-                    }
-                }
-            }
+        splay(key, root, &self.comparator);
+        if (self.comparator)(key, &root.key) == Ordering::Greater {
+            return Some((&root.key, &root.value));
         }
 
-        predecessor
+        // All the keys to the left are smaller. See `next`.
+        let left = match root.left {
+            Some(ref mut left) => left,
+            None => return None,
+        };
+        splay(key, left, &|_: &K, _: &K| Ordering::Greater);
+        Some((&left.key, &left.value))
     }
 
     pub fn insert(&mut self, key: K, value: V) -> Option<V> {
-- 
2.43.0

