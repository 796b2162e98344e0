From f4171cbeb198ee202b422375b98877afd74032f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:01 +0000
Subject: [PATCH 1/8] fix: equal_range* treat an included end bound as
 exclusive-minus-one

An included end bound `..=x` covers x, so the exclusive end is x + 1, as in every other range conversion.
---
 src/vector.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index a8f0cd8..e7c4081 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -1455,7 +1455,7 @@ where
         };
 
         let mut end = match range.end_bound() {
-            Bound::Included(x) => x - 1,
+            Bound::Included(x) => x + 1,
             Bound::Excluded(x) => *x,
             Bound::Unbounded => self.len,
         };
@@ -1587,7 +1587,7 @@ where
         };
 
         let mut end = match range.end_bound() {
-            Bound::Included(x) => x - 1,
+            Bound::Included(x) => x + 1,
             Bound::Excluded(x) => *x,
             Bound::Unbounded => self.len,
         };
-- 
2.43.0


From 70555f42ca20b6d3471d8f6fa08887c0ae9d9b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:08 +0000
Subject: [PATCH 2/8] fix: equal_range* panic or loop forever on an empty range

An empty vector or empty range contains no match; report the insertion point.
---
 src/vector.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vector.rs b/src/vector.rs
index e7c4081..f911794 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -1595,6 +1595,10 @@ where
         let avg = |x: usize, y: usize| (x / 2) + (y / 2) + (x % 2 + y % 2) / 2;
         let mut focus = self.focus();
 
+        if start >= end {
+            return Err(start);
+        }
+
         // Find an equal item, we maintain an invariant that [start, end) should be the only
         // possible equal elements. We binary search down to narrow the range. We stop if we find
         // an equal item for the next step.
-- 
2.43.0


From 82a24ae81896880d561d67c505ba879a217328a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:08 +0000
Subject: [PATCH 3/8] fix: Focus::split_at ignores the start of a narrowed
 focus

---
 src/focus.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/focus.rs b/src/focus.rs
index 0e2b6cc..e297d70 100644
--- a/src/focus.rs
+++ b/src/focus.rs
@@ -364,8 +364,9 @@ where
         if idx >= self.len() {
             panic!("Split is out of range")
         }
-        let first_range = self.range.start..idx;
-        let second_range = idx..self.range.end;
+        let split_point = self.range.start + idx;
+        let first_range = self.range.start..split_point;
+        let second_range = split_point..self.range.end;
         let first = Focus::narrowed_tree(self.tree, first_range);
         let second = Focus::narrowed_tree(self.tree, second_range);
         (first, second)
-- 
2.43.0


From 0c73a8ce67072f9ca42a615b2094ccbf9437a507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:08 +0000
Subject: [PATCH 4/8] fix: Focus::narrow lets a narrowed focus escape its
 parent range

---
 src/focus.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/focus.rs b/src/focus.rs
index e297d70..cefc394 100644
--- a/src/focus.rs
+++ b/src/focus.rs
@@ -334,7 +334,7 @@ where
             Bound::Included(x) => x + 1,
             Bound::Excluded(x) => *x,
         };
-        if range_end > self.range.end {
+        if range_end > self.len() {
             panic!("Range must be inside the parent range");
         }
         let new_start = self.range.start + range_start;
-- 
2.43.0


From 4d2797eacb4d97500de158e15d6155bd5396dcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:08 +0000
Subject: [PATCH 5/8] fix: an empty Focus panics when the root node has no
 children

---
 src/focus.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/focus.rs b/src/focus.rs
index cefc394..3331128 100644
--- a/src/focus.rs
+++ b/src/focus.rs
@@ -174,7 +174,8 @@ where
         let mut range_end = 0;
         let mut focus_range = 0..0;
         let mut spine_position = None;
-        let mut focus_node = &tree.root;
+        // An empty range matches no node, and an internal root may have no children of its own.
+        let mut focus_node = tree.left_spine.first().unwrap_or(&tree.root);
         for (node_position, node) in tree_iter {
             let range_start = range_end;
             range_end = range_start + node.len();
-- 
2.43.0


From c3faedd44927dc7ad68a4b6bf58450144fcd7ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:08 +0000
Subject: [PATCH 6/8] fix: FocusMut keeps a stale leaf range after an out of
 bounds access

When the focused root is a leaf there is no borrowed leaf, so the range was never reset and the next access unwrapped a missing root.
---
 src/focus.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/focus.rs b/src/focus.rs
index 3331128..59035ce 100644
--- a/src/focus.rs
+++ b/src/focus.rs
@@ -706,10 +706,9 @@ where
     fn drop_path_nodes(&mut self) {
         self.root = None;
         // panic!("rawr {}", self.path.len());
-        if self.leaf.take().is_some() {
-            // println!("dropping leaf {:?} ", self.leaf_range);
-            self.leaf_range = 0..0;
-        }
+        self.leaf = None;
+        // The root itself may be the leaf, in which case there is a range but no borrowed leaf.
+        self.leaf_range = 0..0;
         while self.path.pop().is_some() {
             // println!("dropping internal {:?} ", p.1);
         }
-- 
2.43.0


From 96cf6fc48eab3429a9adc054321c95dd055f4658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:08 +0000
Subject: [PATCH 7/8] fix: CircularBuffer::into_iter drops yielded items twice

Items were moved out without telling the buffer, which dropped them again, and next_back read from the front.
---
 src/circular.rs | 43 ++++---------------------------------------
 1 file changed, 4 insertions(+), 39 deletions(-)

diff --git a/src/circular.rs b/src/circular.rs
index 0dc95a2..7825274 100644
--- a/src/circular.rs
+++ b/src/circular.rs
@@ -698,9 +698,6 @@ impl<'a, A: 'a> FusedIterator for IterMut<'a, A> {}
 
 /// A consuming iterator over a vector that is obtained by the `Vector::into_iter()` method.
 pub struct IntoIter<A> {
-    consumed: usize,
-    front: usize,
-    back: usize,
     buffer: CircularBuffer<A>,
 }
 
@@ -708,44 +705,18 @@ impl<A> Iterator for IntoIter<A> {
     type Item = A;
 
     fn next(&mut self) -> Option<A> {
-        if self.consumed == self.buffer.len() {
-            None
-        } else {
-            let result = unsafe {
-                mem::replace(
-                    &mut self.buffer.data[self.front],
-                    mem::MaybeUninit::uninit(),
-                )
-                .assume_init()
-            };
-            self.front = (self.front + 1) % RRB_WIDTH;
-            self.consumed += 1;
-            Some(result)
-        }
+        self.buffer.try_pop_front()
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let len = self.buffer.len() - self.consumed;
+        let len = self.buffer.len();
         (len, Some(len))
     }
 }
 
 impl<A> DoubleEndedIterator for IntoIter<A> {
     fn next_back(&mut self) -> Option<A> {
-        if self.consumed == self.buffer.len() {
-            None
-        } else {
-            self.consumed += 1;
-            self.back = (self.back + RRB_WIDTH - 1) % RRB_WIDTH;
-            let result = unsafe {
-                mem::replace(
-                    &mut self.buffer.data[self.front],
-                    mem::MaybeUninit::uninit(),
-                )
-                .assume_init()
-            };
-            Some(result)
-        }
+        self.buffer.try_pop_back()
     }
 }
 
@@ -776,13 +747,7 @@ impl<A> IntoIterator for CircularBuffer<A> {
     type Item = A;
 
     fn into_iter(self) -> IntoIter<A> {
-        let back = (self.front + self.len) % RRB_WIDTH;
-        IntoIter {
-            back,
-            front: self.front,
-            consumed: 0,
-            buffer: self,
-        }
+        IntoIter { buffer: self }
     }
 }
 
-- 
2.43.0


From fbb15e8e0979f367236580c381415d31daf0db44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:24 +0000
Subject: [PATCH 8/8] fix: a Focus narrowed to a range that ends before it
 starts reached elements outside it

---
 src/focus.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/focus.rs b/src/focus.rs
index 59035ce..5f5fd5d 100644
--- a/src/focus.rs
+++ b/src/focus.rs
@@ -170,6 +170,10 @@ where
         if range.end >= tree.len() {
             range.end = tree.len();
         }
+        // A range that ends before it starts is empty.
+        if range.end < range.start {
+            range.end = range.start;
+        }
         let tree_iter = tree.spine_iter();
         let mut range_end = 0;
         let mut focus_range = 0..0;
-- 
2.43.0

