From db7d6ea32ad5ea0175be623c766e578aa0bb902a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:30 +0000
Subject: [PATCH 1/9] fix: pass map_path closures the path of the node being
 mapped

MapPath and CollectionMapPath captured a raw pointer to the current path
before advancing the inner iterator, so the closure saw the path of the
previously yielded node (and a dangling slice once the path reallocated).
---
 .../src/tree_collection_iterators/map_path.rs            | 7 ++++---
 tree_iterators_rs/src/tree_iterators/map_path.rs         | 9 ++++-----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/tree_iterators_rs/src/tree_collection_iterators/map_path.rs b/tree_iterators_rs/src/tree_collection_iterators/map_path.rs
index 293eeaf..c957aec 100644
--- a/tree_iterators_rs/src/tree_collection_iterators/map_path.rs
+++ b/tree_iterators_rs/src/tree_collection_iterators/map_path.rs
@@ -37,9 +37,10 @@ where
     type Item = Output;
 
     fn next(&mut self) -> Option<Self::Item> {
-        // SAFETY: self.f cannot borrow path mutably since path is our internal state.
-        let path = unsafe { &*(self.current_path() as *const [usize]) };
-        self.inner.next().map(|value| (self.f)(path, value))
+        // The path must be read after advancing the inner iterator. Before that
+        // it is still the path of the previously yielded node.
+        let value = self.inner.next()?;
+        Some((self.f)(self.inner.current_path(), value))
     }
 }
 
diff --git a/tree_iterators_rs/src/tree_iterators/map_path.rs b/tree_iterators_rs/src/tree_iterators/map_path.rs
index 4c36137..a0ac053 100644
--- a/tree_iterators_rs/src/tree_iterators/map_path.rs
+++ b/tree_iterators_rs/src/tree_iterators/map_path.rs
@@ -37,11 +37,10 @@ where
     type Item = Output;
 
     fn next(&mut self) -> Option<Self::Item> {
-        // SAFETY: self.f cannot borrow path mutably since path is our internal state.
-        let path = self.current_path() as *const [usize];
-        self.inner
-            .next()
-            .map(|value| (self.f)(unsafe { &*path }, value))
+        // The path must be read after advancing the inner iterator. Before that
+        // it is still the path of the previously yielded node.
+        let value = self.inner.next()?;
+        Some((self.f)(self.inner.current_path(), value))
     }
 }
 
-- 
2.43.0


From 8b4d28a5ce2a86b4dc5a0551044e6344d52be153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:35 +0000
Subject: [PATCH 2/9] fix: number siblings correctly in the current path of
 n-ary prune adaptors

Consecutive siblings shared one path segment, so anything chained after
prune/prune_path (map_path, fold_path, prune_path) saw wrong paths.
---
 .../src/tree_collection_iterators/prune.rs            | 11 ++++++++---
 .../src/tree_collection_iterators/prune_path.rs       | 11 ++++++++---
 tree_iterators_rs/src/tree_iterators/prune.rs         | 11 ++++++++---
 tree_iterators_rs/src/tree_iterators/prune_path.rs    | 11 ++++++++---
 4 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/tree_iterators_rs/src/tree_collection_iterators/prune.rs b/tree_iterators_rs/src/tree_collection_iterators/prune.rs
index 34f62d0..7735c19 100644
--- a/tree_iterators_rs/src/tree_collection_iterators/prune.rs
+++ b/tree_iterators_rs/src/tree_collection_iterators/prune.rs
@@ -58,10 +58,15 @@ where
             } else if self.pruned_at_each_depth.len() > inner_path_len {
                 self.pruned_at_each_depth.truncate(inner_path_len);
                 self.current_path.truncate(inner_path_len);
+            }
 
-                if let Some(last_path_segment) = self.current_path.last_mut() {
-                    *last_path_segment += 1;
-                }
+            // Siblings that were pruned don't take up an index in the resulting tree.
+            if let (Some(last_path_segment), Some(inner_segment), Some(pruned)) = (
+                self.current_path.last_mut(),
+                self.inner.current_path().last(),
+                self.pruned_at_each_depth.last(),
+            ) {
+                *last_path_segment = inner_segment.saturating_sub(*pruned);
             }
 
             if (self.f)(&item) {
diff --git a/tree_iterators_rs/src/tree_collection_iterators/prune_path.rs b/tree_iterators_rs/src/tree_collection_iterators/prune_path.rs
index d32eaa0..913d090 100644
--- a/tree_iterators_rs/src/tree_collection_iterators/prune_path.rs
+++ b/tree_iterators_rs/src/tree_collection_iterators/prune_path.rs
@@ -63,10 +63,15 @@ where
             } else if self.pruned_at_each_depth.len() > inner_path_len {
                 self.pruned_at_each_depth.truncate(inner_path_len);
                 self.current_path.truncate(inner_path_len);
+            }
 
-                if let Some(last_path_segment) = self.current_path.last_mut() {
-                    *last_path_segment += 1;
-                }
+            // Siblings that were pruned don't take up an index in the resulting tree.
+            if let (Some(last_path_segment), Some(inner_segment), Some(pruned)) = (
+                self.current_path.last_mut(),
+                self.inner.current_path().last(),
+                self.pruned_at_each_depth.last(),
+            ) {
+                *last_path_segment = inner_segment.saturating_sub(*pruned);
             }
 
             if (self.f)(self.inner.current_path(), &item) {
diff --git a/tree_iterators_rs/src/tree_iterators/prune.rs b/tree_iterators_rs/src/tree_iterators/prune.rs
index 6af5b61..b4b7de1 100644
--- a/tree_iterators_rs/src/tree_iterators/prune.rs
+++ b/tree_iterators_rs/src/tree_iterators/prune.rs
@@ -58,10 +58,15 @@ where
             } else if self.pruned_at_each_depth.len() > inner_path_len {
                 self.pruned_at_each_depth.truncate(inner_path_len);
                 self.current_path.truncate(inner_path_len);
+            }
 
-                if let Some(last_path_segment) = self.current_path.last_mut() {
-                    *last_path_segment += 1;
-                }
+            // Siblings that were pruned don't take up an index in the resulting tree.
+            if let (Some(last_path_segment), Some(inner_segment), Some(pruned)) = (
+                self.current_path.last_mut(),
+                self.inner.current_path().last(),
+                self.pruned_at_each_depth.last(),
+            ) {
+                *last_path_segment = inner_segment.saturating_sub(*pruned);
             }
 
             if (self.f)(&item) {
diff --git a/tree_iterators_rs/src/tree_iterators/prune_path.rs b/tree_iterators_rs/src/tree_iterators/prune_path.rs
index 1d53054..5b84af7 100644
--- a/tree_iterators_rs/src/tree_iterators/prune_path.rs
+++ b/tree_iterators_rs/src/tree_iterators/prune_path.rs
@@ -58,10 +58,15 @@ where
             } else if self.pruned_at_each_depth.len() > inner_depth {
                 self.pruned_at_each_depth.truncate(inner_depth);
                 self.current_path.truncate(inner_depth);
+            }
 
-                if let Some(last_path_segment) = self.current_path.last_mut() {
-                    *last_path_segment += 1;
-                }
+            // Siblings that were pruned don't take up an index in the resulting tree.
+            if let (Some(last_path_segment), Some(inner_segment), Some(pruned)) = (
+                self.current_path.last_mut(),
+                self.inner.current_path().last(),
+                self.pruned_at_each_depth.last(),
+            ) {
+                *last_path_segment = inner_segment.saturating_sub(*pruned);
             }
 
             if (self.f)(self.inner.current_path(), &item) {
-- 
2.43.0


From 71877fb48fe275eeceef8c481ed05720043834da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:16 +0000
Subject: [PATCH 3/9] fix: stop the BFS ancestors iterator from panicking after
 exhaustion

---
 tree_iterators_rs/src/bfs_iterators/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tree_iterators_rs/src/bfs_iterators/mod.rs b/tree_iterators_rs/src/bfs_iterators/mod.rs
index 2ba830c..1d32a77 100644
--- a/tree_iterators_rs/src/bfs_iterators/mod.rs
+++ b/tree_iterators_rs/src/bfs_iterators/mod.rs
@@ -277,6 +277,10 @@ macro_rules! bfs_ancestors_streaming_iterator_impl {
                 return;
             }
 
+            if self.item_stack.is_empty() {
+                return;
+            }
+
             loop {
                 if self.item_stack.len() == self.traversal_stack.len() + 2 {
                     self.pop_from_item_stack();
-- 
2.43.0


From 5e4d1716121c50280592baeeb905579d6399c8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:16 +0000
Subject: [PATCH 4/9] fix: don't skip a leaf when leaves() is called
 mid-traversal

The first node taken from the original iterator's stack was never marked as
just added, so if it was a leaf it was silently dropped.
---
 tree_iterators_rs/src/leaves_iterators/depth_first/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tree_iterators_rs/src/leaves_iterators/depth_first/mod.rs b/tree_iterators_rs/src/leaves_iterators/depth_first/mod.rs
index 3acbce6..6995f89 100644
--- a/tree_iterators_rs/src/leaves_iterators/depth_first/mod.rs
+++ b/tree_iterators_rs/src/leaves_iterators/depth_first/mod.rs
@@ -34,7 +34,8 @@ macro_rules! dfs_postorder_leaves_next {
                     if let Some(node) = next_iter.next() {
                         let (value, children) = node.$get_value_and_children();
                         self.item_stack.push(value);
-                        self.traversal_stack_top.push(children.into_iter())
+                        self.traversal_stack_top.push(children.into_iter());
+                        just_added = true;
                     } else {
                         self.traversal_stack_bottom.pop();
                     }
-- 
2.43.0


From a8d527a1fba0c59c537b835ea32c49b36e3c301c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:26 +0000
Subject: [PATCH 5/9] fix: keep leaves() in step with the ancestors when called
 mid-traversal

The ancestors leaves iterator dropped an ancestor too many when called on a
partially consumed iterator and never terminated cleanly on an exhausted one.
---
 .../src/dfs_inorder_iterators/borrow.rs       | 13 +++++++----
 .../src/dfs_inorder_iterators/mut_borrow.rs   | 13 +++++++----
 .../src/dfs_inorder_iterators/owned.rs        | 13 +++++++----
 .../ancestors_depth_first/mod.rs              | 22 +++++++++----------
 4 files changed, 37 insertions(+), 24 deletions(-)

diff --git a/tree_iterators_rs/src/dfs_inorder_iterators/borrow.rs b/tree_iterators_rs/src/dfs_inorder_iterators/borrow.rs
index 3d91844..ecd9737 100644
--- a/tree_iterators_rs/src/dfs_inorder_iterators/borrow.rs
+++ b/tree_iterators_rs/src/dfs_inorder_iterators/borrow.rs
@@ -148,15 +148,20 @@ where
         let root;
         let old_traversal_stack;
 
-        if self.right_stack.len() == 1 {
+        if self.item_stack.is_empty() && self.right_stack.len() == 1 {
             root = core::mem::take(self.right_stack.get_mut(0).unwrap());
             old_traversal_stack = Vec::new();
         } else {
             root = None;
+            // Nodes that already went right no longer have an entry in the right stack.
+            let mut right_stack = self.right_stack.into_iter();
             old_traversal_stack = self
-                .right_stack
-                .into_iter()
-                .map(|opt| opt.into_iter())
+                .status_stack
+                .iter()
+                .map(|status| match status {
+                    TraversalStatus::WentRight => None.into_iter(),
+                    _ => right_stack.next().flatten().into_iter(),
+                })
                 .collect();
         }
 
diff --git a/tree_iterators_rs/src/dfs_inorder_iterators/mut_borrow.rs b/tree_iterators_rs/src/dfs_inorder_iterators/mut_borrow.rs
index e54cbdf..f101eac 100644
--- a/tree_iterators_rs/src/dfs_inorder_iterators/mut_borrow.rs
+++ b/tree_iterators_rs/src/dfs_inorder_iterators/mut_borrow.rs
@@ -152,15 +152,20 @@ where
         let root;
         let old_traversal_stack;
 
-        if self.right_stack.len() == 1 {
+        if self.item_stack.is_empty() && self.right_stack.len() == 1 {
             root = core::mem::take(self.right_stack.get_mut(0).unwrap());
             old_traversal_stack = Vec::new();
         } else {
             root = None;
+            // Nodes that already went right no longer have an entry in the right stack.
+            let mut right_stack = self.right_stack.into_iter();
             old_traversal_stack = self
-                .right_stack
-                .into_iter()
-                .map(|opt| opt.into_iter())
+                .status_stack
+                .iter()
+                .map(|status| match status {
+                    TraversalStatus::WentRight => None.into_iter(),
+                    _ => right_stack.next().flatten().into_iter(),
+                })
                 .collect();
         }
 
diff --git a/tree_iterators_rs/src/dfs_inorder_iterators/owned.rs b/tree_iterators_rs/src/dfs_inorder_iterators/owned.rs
index 4757f64..b2cdcee 100644
--- a/tree_iterators_rs/src/dfs_inorder_iterators/owned.rs
+++ b/tree_iterators_rs/src/dfs_inorder_iterators/owned.rs
@@ -148,15 +148,20 @@ where
         let root;
         let old_traversal_stack;
 
-        if self.right_stack.len() == 1 {
+        if self.item_stack.is_empty() && self.right_stack.len() == 1 {
             root = core::mem::take(self.right_stack.get_mut(0).unwrap());
             old_traversal_stack = Vec::new();
         } else {
             root = None;
+            // Nodes that already went right no longer have an entry in the right stack.
+            let mut right_stack = self.right_stack.into_iter();
             old_traversal_stack = self
-                .right_stack
-                .into_iter()
-                .map(|opt| opt.into_iter())
+                .status_stack
+                .iter()
+                .map(|status| match status {
+                    TraversalStatus::WentRight => None.into_iter(),
+                    _ => right_stack.next().flatten().into_iter(),
+                })
                 .collect();
         }
 
diff --git a/tree_iterators_rs/src/leaves_iterators/ancestors_depth_first/mod.rs b/tree_iterators_rs/src/leaves_iterators/ancestors_depth_first/mod.rs
index 1f79a09..0d65976 100644
--- a/tree_iterators_rs/src/leaves_iterators/ancestors_depth_first/mod.rs
+++ b/tree_iterators_rs/src/leaves_iterators/ancestors_depth_first/mod.rs
@@ -11,7 +11,10 @@ macro_rules! streaming_leaves {
                 self.new_traversal_stack.push(children.into_iter());
                 self.item_stack.push(value);
                 pushed_another_iterator = true;
-            } else {
+            } else if self.item_stack.len()
+                > self.old_traversal_stack.len() + self.new_traversal_stack.len()
+            {
+                // The last yielded node's children were already used up.
                 self.item_stack.pop();
             }
 
@@ -24,14 +27,9 @@ macro_rules! streaming_leaves {
                         pushed_another_iterator = true;
                         continue;
                     }
-                }
 
-                self.new_traversal_stack.pop();
-                if pushed_another_iterator {
-                    return;
-                }
-
-                if let Some(old_stack_last) = self.old_traversal_stack.last_mut() {
+                    self.new_traversal_stack.pop();
+                } else if let Some(old_stack_last) = self.old_traversal_stack.last_mut() {
                     if let Some(node) = old_stack_last.next() {
                         let (value, children) = node.$get_value_and_children();
                         self.new_traversal_stack.push(children.into_iter());
@@ -39,17 +37,17 @@ macro_rules! streaming_leaves {
                         pushed_another_iterator = true;
                         continue;
                     }
+
+                    self.old_traversal_stack.pop();
+                } else {
+                    return;
                 }
 
-                self.old_traversal_stack.pop();
                 if pushed_another_iterator {
                     return;
                 }
 
                 self.item_stack.pop();
-                if self.item_stack.is_empty() {
-                    break;
-                }
             }
         }
 
-- 
2.43.0


From 86a56a99096fc6d3d290d4153a2d87b03d214405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:39 +0000
Subject: [PATCH 6/9] fix: drop the node values parked by the BFS iterative
 deepening iterators

They were parked in MaybeUninit, so owned values leaked whenever a parked
node was discarded or the iterator was dropped early, and Clone read them
while uninitialised.
---
 tree_iterators_rs/src/bfs_iterators/mod.rs    | 22 +++++++++----------
 .../ancestors_breadth_first/mod.rs            |  8 +++----
 2 files changed, 14 insertions(+), 16 deletions(-)

diff --git a/tree_iterators_rs/src/bfs_iterators/mod.rs b/tree_iterators_rs/src/bfs_iterators/mod.rs
index 1d32a77..76dff08 100644
--- a/tree_iterators_rs/src/bfs_iterators/mod.rs
+++ b/tree_iterators_rs/src/bfs_iterators/mod.rs
@@ -131,8 +131,7 @@ macro_rules! bfs_context_advance_iterator {
                 if let Some(mut value) = child {
                     self.current_context
                         .ancestors
-                        .push(unsafe { value.value.assume_init() });
-                    value.value = core::mem::MaybeUninit::uninit();
+                        .push(value.value.take().expect("the node's value to be stored"));
 
                     self.current_context.path.push(value.path_segment);
 
@@ -157,8 +156,7 @@ macro_rules! bfs_context_advance_iterator {
 
                 if self.current_context.ancestors.len() > 1 {
                     let target = self.traversal_stack.last_mut().unwrap();
-                    target.value =
-                        core::mem::MaybeUninit::new(self.current_context.ancestors.pop().unwrap());
+                    target.value = Some(self.current_context.ancestors.pop().unwrap());
                     target.path_segment = self.current_context.path.pop().unwrap();
                 }
 
@@ -185,7 +183,7 @@ macro_rules! bfs_context_advance_iterator {
             };
 
             tree_node.children.push_back(Some(TreeNodeVecDeque {
-                value: core::mem::MaybeUninit::new(self.current_context.ancestors.pop().unwrap()),
+                value: Some(self.current_context.ancestors.pop().unwrap()),
                 path_segment: self.current_context.path.pop().unwrap(),
                 children: VecDeque::new(),
             }));
@@ -365,8 +363,8 @@ macro_rules! bfs_ancestors_advance_iterator {
                 };
 
                 if let Some(mut value) = child {
-                    self.item_stack.push(unsafe { value.value.assume_init() });
-                    value.value = core::mem::MaybeUninit::uninit();
+                    self.item_stack
+                        .push(value.value.take().expect("the node's value to be stored"));
                     let has_children = !value.children.is_empty();
                     self.traversal_stack.push(value);
                     if !has_children && self.item_stack.len() >= starting_depth {
@@ -387,7 +385,7 @@ macro_rules! bfs_ancestors_advance_iterator {
 
                 if self.item_stack.len() > 1 {
                     let target = self.traversal_stack.last_mut().unwrap();
-                    target.value = core::mem::MaybeUninit::new(self.item_stack.pop().unwrap());
+                    target.value = Some(self.item_stack.pop().unwrap());
                 }
 
                 if let Some(popped) = self.traversal_stack.pop() {
@@ -417,7 +415,7 @@ macro_rules! bfs_ancestors_advance_iterator {
             };
 
             tree_node.children.push_back(Some(TreeNodeVecDeque {
-                value: core::mem::MaybeUninit::new(self.item_stack.pop().unwrap()),
+                value: Some(self.item_stack.pop().unwrap()),
                 path_segment: 0,
                 children: VecDeque::new(),
             }));
@@ -436,7 +434,7 @@ pub(crate) use get_mut_context;
 
 #[derive(Debug)]
 pub(crate) struct TreeNodeVecDeque<T> {
-    pub(crate) value: core::mem::MaybeUninit<T>,
+    pub(crate) value: Option<T>,
     pub(crate) path_segment: usize,
     pub(crate) children: alloc::collections::VecDeque<Option<Self>>,
 }
@@ -447,7 +445,7 @@ where
 {
     fn clone(&self) -> Self {
         Self {
-            value: core::mem::MaybeUninit::new(unsafe { self.value.assume_init_ref().clone() }),
+            value: self.value.clone(),
             path_segment: self.path_segment,
             children: self.children.clone(),
         }
@@ -457,7 +455,7 @@ where
 impl<T> Default for TreeNodeVecDeque<T> {
     fn default() -> Self {
         Self {
-            value: core::mem::MaybeUninit::uninit(),
+            value: None,
             path_segment: 0,
             children: alloc::collections::VecDeque::new(),
         }
diff --git a/tree_iterators_rs/src/leaves_iterators/ancestors_breadth_first/mod.rs b/tree_iterators_rs/src/leaves_iterators/ancestors_breadth_first/mod.rs
index 668927b..3d59969 100644
--- a/tree_iterators_rs/src/leaves_iterators/ancestors_breadth_first/mod.rs
+++ b/tree_iterators_rs/src/leaves_iterators/ancestors_breadth_first/mod.rs
@@ -22,8 +22,8 @@ macro_rules! bfs_next {
                 };
 
                 if let Some(mut value) = child {
-                    self.item_stack.push(unsafe { value.value.assume_init() });
-                    value.value = core::mem::MaybeUninit::uninit();
+                    self.item_stack
+                        .push(value.value.take().expect("the node's value to be stored"));
                     let has_children = !value.children.is_empty();
                     self.traversal_stack.push(value);
                     if !has_children && self.item_stack.len() >= starting_depth {
@@ -43,7 +43,7 @@ macro_rules! bfs_next {
 
                 if self.item_stack.len() > 1 {
                     let target = self.traversal_stack.last_mut().unwrap();
-                    target.value = core::mem::MaybeUninit::new(self.item_stack.pop().unwrap());
+                    target.value = Some(self.item_stack.pop().unwrap());
                 }
 
                 if let Some(popped) = self.traversal_stack.pop() {
@@ -70,7 +70,7 @@ macro_rules! bfs_next {
             };
 
             tree_node.children.push_back(Some(TreeNodeVecDeque {
-                value: core::mem::MaybeUninit::new(self.item_stack.pop().unwrap()),
+                value: Some(self.item_stack.pop().unwrap()),
                 path_segment: 0,
                 children: VecDeque::new(),
             }));
-- 
2.43.0


From 789772778bff429c351d38b6e7775cee1226b2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:47 +0000
Subject: [PATCH 7/9] fix: pass the path to the closure of map_path_each on
 owned binary trees

---
 tree_iterators_rs/src/prelude.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tree_iterators_rs/src/prelude.rs b/tree_iterators_rs/src/prelude.rs
index 44d25c1..33c8a0b 100644
--- a/tree_iterators_rs/src/prelude.rs
+++ b/tree_iterators_rs/src/prelude.rs
@@ -4079,7 +4079,7 @@ where
     ) -> BinaryTrees<
         Output,
         (),
-        CollectionMap<
+        CollectionMapPath<
             T::OwnedValue,
             [Option<T>; 2],
             impl BinaryTreeCollectionIterator<T::OwnedValue, [Option<T>; 2]>,
@@ -4088,9 +4088,9 @@ where
         >,
     >
     where
-        F: FnMut(T::OwnedValue) -> Output,
+        F: FnMut(&[usize], T::OwnedValue) -> Output,
     {
-        self.into_pipeline().map_trees(f).trees()
+        self.into_pipeline().map_path(f).trees()
     }
 
     /// Applies the fold operation to every tree within this [`OwnedIntoIteratorOfBinaryTrees`].
-- 
2.43.0


From 0579dfe592a5fe080adfe4fa12f00ba13813e31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:12 +0000
Subject: [PATCH 8/9] fix: do not duplicate the children bitwise in the
 borrowed postorder iterator with context

---
 .../src/dfs_postorder_iterators/borrow.rs      | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/tree_iterators_rs/src/dfs_postorder_iterators/borrow.rs b/tree_iterators_rs/src/dfs_postorder_iterators/borrow.rs
index cc407e0..8239ac5 100644
--- a/tree_iterators_rs/src/dfs_postorder_iterators/borrow.rs
+++ b/tree_iterators_rs/src/dfs_postorder_iterators/borrow.rs
@@ -138,11 +138,10 @@ where
     fn advance(&mut self) {
         if let Some(next) = self.root.take() {
             let (value, children) = next.get_value_and_children_iter();
-            // ASSUMPTION: self.into_iterator_stack will always outlive self.traversal_stack.
-            // If that assumption is not true, this code will cause Undefined Behavior.
-            self.traversal_stack.push(
-                unsafe { core::ptr::read(&children as *const Node::BorrowedChildren) }.into_iter(),
-            );
+            // The children are both iterated over and handed out by the context, so
+            // they are asked for twice: a bitwise copy would be dropped twice.
+            self.traversal_stack
+                .push(next.get_value_and_children_iter().1.into_iter());
             self.current_context.ancestors.push(value);
             self.current_context.path.push(usize::MAX);
             self.into_iterator_stack.push(children);
@@ -165,12 +164,9 @@ where
 
                     let (value, children) = node.get_value_and_children_iter();
 
-                    // ASSUMPTION: self.into_iterator_stack will always outlive self.traversal_stack.
-                    // If that assumption is not true, this code will cause Undefined Behavior.
-                    self.traversal_stack.push(
-                        unsafe { core::ptr::read(&children as *const Node::BorrowedChildren) }
-                            .into_iter(),
-                    );
+                    // See above: a bitwise copy of the children would be dropped twice.
+                    self.traversal_stack
+                        .push(node.get_value_and_children_iter().1.into_iter());
                     self.current_context.ancestors.push(value);
                     self.current_context.path.push(usize::MAX);
                     self.into_iterator_stack.push(children);
-- 
2.43.0


From ba9db1e9561f2aeac34e0afef529e22207b853be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:12 +0000
Subject: [PATCH 9/9] fix: drop the type parameter of prune_depth_each that
 nothing can infer

---
 tree_iterators_rs/src/prelude.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree_iterators_rs/src/prelude.rs b/tree_iterators_rs/src/prelude.rs
index 33c8a0b..48cd75a 100644
--- a/tree_iterators_rs/src/prelude.rs
+++ b/tree_iterators_rs/src/prelude.rs
@@ -3745,7 +3745,7 @@ where
     ///
     /// For more details, see [`prune_depth`](OwnedTreeNode::prune_depth)
     #[must_use]
-    fn prune_depth_each<F>(
+    fn prune_depth_each(
         self,
         depth_limit: usize,
     ) -> Trees<
-- 
2.43.0

