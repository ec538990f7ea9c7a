From 3de6a9e415f4002ea6a57ca02f86eb2c1e6735ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:41 +0000
Subject: [PATCH 01/19] fix: multi_intersection cursor keeps its terminal mask
 on unchecked selects

---
 src/ops/_multi_intersection.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ops/_multi_intersection.rs b/src/ops/_multi_intersection.rs
index bb097a6..20d708e 100644
--- a/src/ops/_multi_intersection.rs
+++ b/src/ops/_multi_intersection.rs
@@ -424,6 +424,10 @@ where
             acc_mask &= mask;
         }            
         
+        /*const*/ if N::VALUE == <Self::Src as HibitTree>::LevelCount::VALUE - 1 {
+            self.terminal_node_mask = acc_mask.clone(); 
+        }
+        
         acc_mask
     }
 
-- 
2.43.0


From 9749f17105609bb22764b55757e02cb98df53a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:41 +0000
Subject: [PATCH 02/19] fix: get() of a multi_intersection over zero trees
 finds nothing

---
 src/ops/_multi_intersection.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ops/_multi_intersection.rs b/src/ops/_multi_intersection.rs
index 20d708e..a36a5bf 100644
--- a/src/ops/_multi_intersection.rs
+++ b/src/ops/_multi_intersection.rs
@@ -112,6 +112,11 @@ where
                 }
             }
             
+            // Intersection of nothing is empty - same as in iteration.
+            if datas.is_empty() {
+                return None;
+            }
+            
             Some(datas.into_iter())
         }
 
-- 
2.43.0


From 2cac934e1517830add925410af387916889fa5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:06 +0000
Subject: [PATCH 03/19] fix: DenseTree::remove works on one-level trees

---
 src/dense_tree.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dense_tree.rs b/src/dense_tree.rs
index 41075a0..0a44a12 100644
--- a/src/dense_tree.rs
+++ b/src/dense_tree.rs
@@ -232,7 +232,8 @@ where
             let indices = level_indices::<Mask, ConstUsize<DEPTH>>(index);
             let branch = self.get_branch(&indices);
 
-            let terminal_node = branch.as_ref().last().unwrap_unchecked();
+            // root is the terminal node in a one-level tree
+            let terminal_node = branch.as_ref().last().unwrap_or(&self.root);
             let terminal_inner_index = *indices.as_ref().last().unwrap_unchecked();
 
             let data_index = terminal_node.get_child::<DataIndex>(terminal_inner_index).as_usize();
@@ -241,7 +242,7 @@ where
                 terminal_node.remove::<DataIndex>(terminal_inner_index);
 
                 // 1. Try remove empty terminal node recursively.
-                if terminal_node.header().len() == 1 /* TODO: unlikely */ {
+                if DEPTH != 1 /*don't touch root*/ && terminal_node.header().len() == 1 /* TODO: unlikely */ {
                     terminal_node.drop_node::<DataIndex>();
 
                     // climb up the tree, and remove empty nodes
-- 
2.43.0


From e7258280a16b17da7d1bccf3ed76225d5c545241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:37 +0000
Subject: [PATCH 04/19] fix: multi_union iterates one-level trees

---
 src/ops/_multi_union.rs | 27 ++++++---------------------
 1 file changed, 6 insertions(+), 21 deletions(-)

diff --git a/src/ops/_multi_union.rs b/src/ops/_multi_union.rs
index 7d492ad..40c15e1 100644
--- a/src/ops/_multi_union.rs
+++ b/src/ops/_multi_union.rs
@@ -126,12 +126,10 @@ where
 {
     cursors: ArrayVec<CursorsItem<'item, Iter>, N>,
     
-    /// [ArrayVec<usize, N>; Array::LevelCount - 1]
-    /// 
-    /// Root level skipped.
+    /// [ArrayVec<usize, N>; Array::LevelCount]
     lvls_non_empty_states: ConstArrayType<
         ArrayVec<CursorIndex, N>,
-        <<IterItem<Iter> as HibitTree>::LevelCount as ConstInteger>::Dec,
+        <IterItem<Iter> as HibitTree>::LevelCount,
     >,
     
     phantom_data: PhantomData<&'src MultiUnion<Iter>>
@@ -182,19 +180,11 @@ where
     {
         let mut acc_mask = BitBlock::zero();
         
-        if N::VALUE == 0 {
-            for (array, array_cursor) in self.cursors.iter_mut() {
-                let mask = array_cursor.select_level_node(array, level_n, level_index);
-                acc_mask |= mask;
-            }            
-            return acc_mask;
-        }
-        
         // drop lifetime checks for `get_many`-like access. 
         let mut lvls_non_empty_states = NonNull::from(self.lvls_non_empty_states.as_mut());
         
         let lvl_non_empty_states = 
-            lvls_non_empty_states.as_mut().get_unchecked_mut(level_n.value()-1);
+            lvls_non_empty_states.as_mut().get_unchecked_mut(level_n.value());
         lvl_non_empty_states.clear();
         
         let len = self.cursors.len() as u8;
@@ -208,13 +198,12 @@ where
             acc_mask |= mask;            
         };
         
-        if N::VALUE == 1 {
-            // Prev level is root. Since we don't store root - 
-            // just iterate all states.
+        if N::VALUE == 0 {
+            // Root - iterate all states.
             for i in 0..len { foreach(i) }    
         } else {
             let prev_lvl_non_empty_states =
-                lvls_non_empty_states.as_ref().get_unchecked(level_n.value()-2);
+                lvls_non_empty_states.as_ref().get_unchecked(level_n.value()-1);
             for i in prev_lvl_non_empty_states { foreach(*i) }
         }
         
@@ -225,10 +214,6 @@ where
     unsafe fn data<'a>(&'a self, src: &'src Self::Src, level_index: usize) 
         -> Option<<Self as HibitTreeCursorTypes<'a>>::Data> 
     {
-        if <Self::Src as HibitTree>::LevelCount::VALUE == 1 {
-            todo!("TODO: compile-time special case for 1-level SparseHierarchy");
-        }
-        
         let lvl_non_empty_states = self.lvls_non_empty_states.as_ref()
                                    .last().unwrap_unchecked();
         if lvl_non_empty_states.is_empty(){
-- 
2.43.0


From 5a043e43475ba52985d0967e7e651b3b7f715462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:38 +0000
Subject: [PATCH 05/19] fix: multi_union cursor finds no data at an absent
 index

---
 src/ops/_multi_union.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/ops/_multi_union.rs b/src/ops/_multi_union.rs
index 40c15e1..b0df787 100644
--- a/src/ops/_multi_union.rs
+++ b/src/ops/_multi_union.rs
@@ -132,6 +132,7 @@ where
         <IterItem<Iter> as HibitTree>::LevelCount,
     >,
     
+    terminal_node_mask: <IterItem<Iter> as HibitTree>::LevelMask,
     phantom_data: PhantomData<&'src MultiUnion<Iter>>
 }
 
@@ -162,6 +163,7 @@ where
         Self {
             cursors: states,
             lvls_non_empty_states: Array::from_fn(|_|ArrayVec::new()),
+            terminal_node_mask: BitBlock::zero(),
             phantom_data: PhantomData,
         }
     }
@@ -178,7 +180,7 @@ where
     unsafe fn select_level_node_unchecked<N: ConstInteger>(&mut self, src: &'src Self::Src, level_n: N, level_index: usize) 
         -> <Self::Src as HibitTree>::LevelMask 
     {
-        let mut acc_mask = BitBlock::zero();
+        let mut acc_mask: <Self::Src as HibitTree>::LevelMask = BitBlock::zero();
         
         // drop lifetime checks for `get_many`-like access. 
         let mut lvls_non_empty_states = NonNull::from(self.lvls_non_empty_states.as_mut());
@@ -207,6 +209,10 @@ where
             for i in prev_lvl_non_empty_states { foreach(*i) }
         }
         
+        /*const*/ if N::VALUE == <Self::Src as HibitTree>::LevelCount::VALUE - 1 {
+            self.terminal_node_mask = acc_mask.clone(); 
+        }
+        
         acc_mask
     }
 
@@ -214,12 +220,12 @@ where
     unsafe fn data<'a>(&'a self, src: &'src Self::Src, level_index: usize) 
         -> Option<<Self as HibitTreeCursorTypes<'a>>::Data> 
     {
-        let lvl_non_empty_states = self.lvls_non_empty_states.as_ref()
-                                   .last().unwrap_unchecked();
-        if lvl_non_empty_states.is_empty(){
+        if !self.terminal_node_mask.get_bit(level_index){
             return None;
         }
         
+        let lvl_non_empty_states = self.lvls_non_empty_states.as_ref()
+                                   .last().unwrap_unchecked();
         Some(CursorData {
             lvl_non_empty_states: lvl_non_empty_states.iter(),
             cursors: &self.cursors,
-- 
2.43.0


From 3b3b0470f56c2caa0166b5d29f5060af48f7e440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:02 +0000
Subject: [PATCH 06/19] fix: index_range() does not overflow for
 width_256::depth_8

---
 src/hibit_tree.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hibit_tree.rs b/src/hibit_tree.rs
index c55317e..b80e3c7 100644
--- a/src/hibit_tree.rs
+++ b/src/hibit_tree.rs
@@ -213,7 +213,8 @@ where
     /// Act as `const`.
     #[inline]
     /*const*/ fn index_range() -> RangeTo<usize> {
-        RangeTo{ end: Self::LevelMask::SIZE.pow(Self::LevelCount::VALUE as _) }
+        // width_256::depth_8 covers whole usize.
+        RangeTo{ end: Self::LevelMask::SIZE.saturating_pow(Self::LevelCount::VALUE as _) }
     }
 }
 
-- 
2.43.0


From b441d70b10a99388d9f13e0cb2716988341fd469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:02 +0000
Subject: [PATCH 07/19] fix: ArrayBitQueue::current() skips exhausted blocks

---
 src/bit_queue.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/bit_queue.rs b/src/bit_queue.rs
index c973db0..3d36182 100644
--- a/src/bit_queue.rs
+++ b/src/bit_queue.rs
@@ -266,8 +266,14 @@ where
 
     #[inline]
     fn current(&self) -> usize {
-        let active_block_iter = &self.bit_block_iters[0];
-        self.bit_block_index * size_of::<P>() * 8 + trailing_zeroes(active_block_iter)
+        let mut block_index = self.bit_block_index;
+        let mut bit_index = trailing_zeroes(&self.bit_block_iters[0]);
+        // active block exhausted - look in the next ones.
+        while bit_index == size_of::<P>() * 8 && block_index != N-1 {
+            block_index += 1;
+            bit_index = trailing_zeroes(&self.bit_block_iters[block_index]);
+        }
+        block_index * size_of::<P>() * 8 + bit_index
     }
 
     #[inline]
-- 
2.43.0


From ed3cf90448f7501d4594cc7f188409411e5c3aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:13 +0000
Subject: [PATCH 08/19] fix: nodes materialized from inexact trees count their
 empty child

---
 src/dense_tree/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dense_tree/node.rs b/src/dense_tree/node.rs
index 734c5f6..4985807 100644
--- a/src/dense_tree/node.rs
+++ b/src/dense_tree/node.rs
@@ -219,7 +219,7 @@ impl NodePtr {
         
         addr_of_mut!((*node).mask).write(mask);
         addr_of_mut!((*node).capacity).write(cap);
-        addr_of_mut!((*node).len).write(len as u8);
+        addr_of_mut!((*node).len).write(cap); // counts empty_child
         
         let mut this = Self(NonNull::new_unchecked(node));
         
-- 
2.43.0


From 80e488903c89aba59793381b6bb99cfdebf5841a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:13 +0000
Subject: [PATCH 09/19] fix: materialize an inexact tree without elements

---
 src/dense_tree/from.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/dense_tree/from.rs b/src/dense_tree/from.rs
index 474c2c6..60e5f27 100644
--- a/src/dense_tree/from.rs
+++ b/src/dense_tree/from.rs
@@ -7,7 +7,7 @@ use crate::{
     HibitTreeCursorTypes, HibitTreeTypes
 };
 
-use super::node::{empty_node, NodePtr};
+use super::node::{empty_node, NodePtr, DEFAULT_CAP};
 use super::{DenseTree, DataIndex, Mask};
 
 type CursorData<'src, 'state, L> = 
@@ -171,7 +171,10 @@ where
             } else {
                 from_sparse_hierarchy(
                     &other, &mut other_cursor, ConstUsize::<0>, 0, 0, &mut push_fn
-                ).unwrap_unchecked()
+                ).unwrap_or_else(|| 
+                    // nothing to materialize
+                    NodePtr::new::<NodePtr>(DEFAULT_CAP, empty_node(ConstUsize::<1>, ConstUsize::<DEPTH>))
+                )
             }
         };
         Self{ root, data, keys }
-- 
2.43.0


From 8f987d90ebf6a920c9a09f358a1b36518349d65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:13 +0000
Subject: [PATCH 10/19] fix: materialize does not keep empty terminal nodes of
 inexact trees

---
 src/dense_tree/from.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dense_tree/from.rs b/src/dense_tree/from.rs
index 60e5f27..ff8bdc5 100644
--- a/src/dense_tree/from.rs
+++ b/src/dense_tree/from.rs
@@ -110,6 +110,10 @@ where
     let mask = other_cursor.select_level_node_unchecked(other, n, index);
     
     if N::VALUE == L::LevelCount::VALUE - 1 {
+        if N::VALUE != 0 && mask.is_zero() {
+            // DenseTree is exact - skip empty nodes.
+            return None;
+        }
         // terminal node with data
         let len = mask.count_ones() as u8;
         let cap = len + 1;
-- 
2.43.0


From e93a1eced7984beb7a57251ef28bb0bd3f8cd4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:46 +0000
Subject: [PATCH 11/19] fix: width_256 configs use child indices wide enough
 for full nodes

---
 src/config.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/config.rs b/src/config.rs
index 0ebf70c..7790bc1 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -48,7 +48,9 @@ pub mod width_128 {
 #[allow(non_camel_case_types)]
 pub mod width_256{
     use super::*;
-    generate!(Block<wide::u64x4, [u8; 256]>, Block<wide::u64x4, [u16; 256]>, Block<wide::u64x4, [u32; 256]>);
+    // Child number 0 is reserved, so a full root needs indices up to 256,
+    // and a full second level - up to 65536.
+    generate!(Block<wide::u64x4, [u16; 256]>, Block<wide::u64x4, [u32; 256]>, Block<wide::u64x4, [u32; 256]>);
 }
 
 /*pub type _64x1 = w64::d1;
-- 
2.43.0


From 51b1d1314c3612b27a56d14f50030f74a7b8d47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:19 +0000
Subject: [PATCH 12/19] fix: containers do not drop elements twice when an
 element's drop panics

---
 src/dense_tree.rs  | 3 ++-
 src/sparse_tree.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dense_tree.rs b/src/dense_tree.rs
index 0a44a12..37123eb 100644
--- a/src/dense_tree.rs
+++ b/src/dense_tree.rs
@@ -316,8 +316,9 @@ where
             self.data.as_mut_ptr().add(1), 
             self.data.len() - 1
         ); 
-        ptr::drop_in_place(slice);
+        // Before drop - if it panics, `data` must not drop values again.
         self.data.set_len(0);
+        ptr::drop_in_place(slice);
         
         // drop node hierarchy
         self.root.drop_node_with_childs::<ConstUsize<0>, DEPTH>()         
diff --git a/src/sparse_tree.rs b/src/sparse_tree.rs
index 9394e78..49b555b 100644
--- a/src/sparse_tree.rs
+++ b/src/sparse_tree.rs
@@ -526,8 +526,9 @@ where
             self.values.as_mut_ptr().add(skip_first as usize), 
             self.values.len() - skip_first as usize
         ); 
-        ptr::drop_in_place(slice);
+        // Before drop - if it panics, `values` must not drop values again.
         self.values.set_len(0);
+        ptr::drop_in_place(slice);
     }
 }
 
-- 
2.43.0


From d215a53167e4722e21e18ad71221c4512c67c16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:19 +0000
Subject: [PATCH 13/19] fix: SparseTree::default does not drop an uninitialised
 element when Data::default panics

---
 src/sparse_tree.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sparse_tree.rs b/src/sparse_tree.rs
index 49b555b..4434109 100644
--- a/src/sparse_tree.rs
+++ b/src/sparse_tree.rs
@@ -75,10 +75,11 @@ where
     #[inline]
     fn default() -> Self {
         let mut values: Vec<Data> = Vec::with_capacity(1);
-        unsafe{ values.set_len(1); }
         unsafe{
             <DefaultInitFor<Data, R> as DefaultInit>
             ::init_default(values.as_mut_ptr().cast());
+            // After init - it may panic.
+            values.set_len(1);
         }
         
         Self{
-- 
2.43.0


From a3df0cb1ffdc3c8fa3b6e29410dd3eaa177b99f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:29 +0000
Subject: [PATCH 14/19] fix: materializing a tree does not drop an
 uninitialised element when the source panics

---
 src/dense_tree/from.rs | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/dense_tree/from.rs b/src/dense_tree/from.rs
index ff8bdc5..a048eae 100644
--- a/src/dense_tree/from.rs
+++ b/src/dense_tree/from.rs
@@ -7,7 +7,7 @@ use crate::{
     HibitTreeCursorTypes, HibitTreeTypes
 };
 
-use super::node::{empty_node, NodePtr, DEFAULT_CAP};
+use super::node::{empty_node, NodePtr};
 use super::{DenseTree, DataIndex, Mask};
 
 type CursorData<'src, 'state, L> = 
@@ -155,10 +155,9 @@ where
 {
     fn from_sparse_hierarchy(other: From) -> Self {
         let mut other_cursor = <From as HibitTreeTypes>::Cursor::new(&other);        
-        let mut data: Vec<T> = Vec::with_capacity(1);
-        unsafe{ data.set_len(1); }
-        
-        let mut keys = vec![usize::MAX];
+        // Filled in place - if `other` panics, its drop() takes care of the placeholder. 
+        let mut this = Self::default();
+        let DenseTree{ data, keys, .. } = &mut this;
         
         let mut push_fn = |index, value| -> DataIndex {
             let i = data.len(); 
@@ -169,18 +168,26 @@ where
 
         let root = unsafe {
             if <From as HibitTree>::EXACT_HIERARCHY {
-                from_exact_sparse_hierarchy(
+                Some(from_exact_sparse_hierarchy(
                     &other, &mut other_cursor, ConstUsize::<0>, 0, 0, &mut push_fn
-                )
+                ))
             } else {
                 from_sparse_hierarchy(
                     &other, &mut other_cursor, ConstUsize::<0>, 0, 0, &mut push_fn
-                ).unwrap_or_else(|| 
-                    // nothing to materialize
-                    NodePtr::new::<NodePtr>(DEFAULT_CAP, empty_node(ConstUsize::<1>, ConstUsize::<DEPTH>))
                 )
             }
         };
-        Self{ root, data, keys }
+        // None - nothing to materialize.
+        if let Some(root) = root {
+            let empty_root = std::mem::replace(&mut this.root, root);
+            unsafe{
+                if DEPTH == 1 {
+                    empty_root.drop_node::<DataIndex>()
+                } else {
+                    empty_root.drop_node::<NodePtr>()
+                }
+            }
+        }
+        this
     }
 }
\ No newline at end of file
-- 
2.43.0


From 7351e5cf3d24bb2c5a49d9bc783a2d2864eeb7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:03 +0000
Subject: [PATCH 15/19] fix: may_dangle feature compiles - DenseTree drop impl
 lacked its where clause

---
 src/dense_tree.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dense_tree.rs b/src/dense_tree.rs
index 37123eb..15b808f 100644
--- a/src/dense_tree.rs
+++ b/src/dense_tree.rs
@@ -326,7 +326,10 @@ where
 }
 
 #[cfg(feature = "may_dangle")]
-unsafe impl<#[may_dangle] T, const DEPTH: usize> Drop for DenseTree<T, DEPTH> {
+unsafe impl<#[may_dangle] T, const DEPTH: usize> Drop for DenseTree<T, DEPTH>
+where
+    ConstUsize<DEPTH>: ConstInteger
+{
     #[inline]
     fn drop(&mut self) {
         unsafe{ self.drop_impl(); }
-- 
2.43.0


From 9a1b4fb598d5ab4628fd943d318dce17ee05a5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:03 +0000
Subject: [PATCH 16/19] fix: const_for and const_for_rev visit exactly from..to
 for from above zero

---
 src/const_utils/const_int.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/const_utils/const_int.rs b/src/const_utils/const_int.rs
index 1aff1bb..a531438 100644
--- a/src/const_utils/const_int.rs
+++ b/src/const_utils/const_int.rs
@@ -35,13 +35,12 @@ trait ConstIntegerPrivate{
     where
         Self: ConstInteger
     {
+        if self.value() <= from.value() {
+            return Continue(());
+        }
         let ctrl = self.dec().iterate_as_range(from, visitor);
         if ctrl.is_continue() {
-            if self.value() == from.value() {
-                Continue(())
-            } else {            
-                visitor.visit(self.dec())
-            }
+            visitor.visit(self.dec())
         } else {
             ctrl
         }
@@ -54,13 +53,12 @@ trait ConstIntegerPrivate{
     where
         Self: ConstInteger
     {
+        if self.value() <= from.value() {
+            return Continue(());
+        }
         let ctrl = visitor.visit(self.dec());
         if ctrl.is_continue(){
-            if self.value() == from.value() {
-                Continue(())
-            } else {
-                self.dec().iterate_as_range_rev(from, visitor)
-            }
+            self.dec().iterate_as_range_rev(from, visitor)
         } else {
             ctrl
         }
-- 
2.43.0


From c5be9461c1c53804133a7448c0db9c89c171c0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:03 +0000
Subject: [PATCH 17/19] fix: ConstInteger::sat_dec() saturates

---
 src/const_utils/const_int.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/const_utils/const_int.rs b/src/const_utils/const_int.rs
index a531438..383a01b 100644
--- a/src/const_utils/const_int.rs
+++ b/src/const_utils/const_int.rs
@@ -82,8 +82,8 @@ pub trait ConstInteger: ConstIntegerPrivate + Default + Copy + Eq + Debug + 'sta
     type SatDec: ConstInteger;
     /// Saturating decrement
     #[inline]
-    fn sat_dec(self) -> Self::Dec {
-        Self::Dec::default()
+    fn sat_dec(self) -> Self::SatDec {
+        Self::SatDec::default()
     }
     
     type Dec: ConstInteger;
-- 
2.43.0


From 082dbd959f5c5fc1c3af6e56486e0660fe115bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:29 +0000
Subject: [PATCH 18/19] fix: DenseTree nodes check for allocation failure

---
 src/dense_tree/node.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/dense_tree/node.rs b/src/dense_tree/node.rs
index 4985807..347ce52 100644
--- a/src/dense_tree/node.rs
+++ b/src/dense_tree/node.rs
@@ -1,4 +1,4 @@
-use std::alloc::{alloc, dealloc, Layout, realloc};
+use std::alloc::{alloc, dealloc, handle_alloc_error, Layout, realloc};
 use std::{mem, ptr};
 use std::mem::{align_of, MaybeUninit, size_of};
 use std::ops::ControlFlow;
@@ -189,10 +189,21 @@ impl NodePtr {
         }
     }
     
+    /// Aborts if out of memory.
+    #[inline]
+    unsafe fn alloc_node<T: NodeChild>(cap: u8) -> *mut NodeHeader {
+        let layout = Self::layout::<T>(cap);
+        let node = alloc(layout);
+        if node.is_null() {
+            handle_alloc_error(layout)
+        }
+        node as *mut NodeHeader
+    }
+    
     #[inline]
     pub fn new<T: NodeChild>(cap: u8, empty_child: T) -> Self {
         unsafe {
-            let node = alloc(Self::layout::<T>(cap)) as *mut NodeHeader;
+            let node = Self::alloc_node::<T>(cap);
             
             addr_of_mut!((*node).mask).write(Mask::default());
             debug_assert!(cap>=1);
@@ -215,7 +226,7 @@ impl NodePtr {
     ) -> Self {
         let len = childs.len();
         let cap = (len + 1) as u8; 
-        let node = alloc(Self::layout::<T>(cap)) as *mut NodeHeader;
+        let node = Self::alloc_node::<T>(cap);
         
         addr_of_mut!((*node).mask).write(mask);
         addr_of_mut!((*node).capacity).write(cap);
@@ -239,7 +250,7 @@ impl NodePtr {
     #[inline]
     pub fn raw_new<T: NodeChild>(cap: u8, mask: Mask) -> MaybeUninit<Self> {
         unsafe {
-            let node = alloc(Self::layout::<T>(cap)) as *mut NodeHeader;
+            let node = Self::alloc_node::<T>(cap);
             
             addr_of_mut!((*node).mask).write(mask);
             addr_of_mut!((*node).capacity).write(cap);
@@ -311,6 +322,9 @@ impl NodePtr {
                     Self::layout::<T>(capacity),
                     Self::layout::<T>(new_capacity).size(),
                 ) as *mut NodeHeader;
+                if new_ptr.is_null() {
+                    handle_alloc_error(Self::layout::<T>(new_capacity))
+                }
                 (*new_ptr).capacity = new_capacity; 
                 self.0 = NonNull::new_unchecked(new_ptr);
             }
-- 
2.43.0


From 3b17aeacebfdff8a96349ff0a47908b9f6050240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:25 +0000
Subject: [PATCH 19/19] fix: do not name core::arch::x86_64 on other
 architectures

DenseTree's bzhi path was selected with the cfg! macro, so the x86_64 module
was named, and the crate failed to build, on every other architecture.
---
 src/dense_tree/node.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/dense_tree/node.rs b/src/dense_tree/node.rs
index 347ce52..725020c 100644
--- a/src/dense_tree/node.rs
+++ b/src/dense_tree/node.rs
@@ -85,9 +85,10 @@ impl NodeHeader{
     /// less or equal to mask population.
     #[inline]
     unsafe fn get_dense_index(&self, index: usize) -> usize {
-        let block = if cfg!(target_feature = "bmi2") {
-            core::arch::x86_64::_bzhi_u64(self.mask, index as u32)
-        } else {
+        #[cfg(all(target_arch = "x86_64", target_feature = "bmi2"))]
+        let block = core::arch::x86_64::_bzhi_u64(self.mask, index as u32);
+        #[cfg(not(all(target_arch = "x86_64", target_feature = "bmi2")))]
+        let block = {
             let mask = !(u64::MAX << index);
             self.mask & mask
         };
-- 
2.43.0

