From 2f87c64512536f040301cdbfd8632c5e0ac93d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:03 +0000
Subject: [PATCH 01/18] fix: DenseTree::remove on a 1-level tree read the
 branch of a root that has none

---
 src/dense_tree.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dense_tree.rs b/src/dense_tree.rs
index 41075a0..66e26c9 100644
--- a/src/dense_tree.rs
+++ b/src/dense_tree.rs
@@ -232,7 +232,8 @@ where
             let indices = level_indices::<Mask, ConstUsize<DEPTH>>(index);
             let branch = self.get_branch(&indices);
 
-            let terminal_node = branch.as_ref().last().unwrap_unchecked();
+            // 1-level tree have only root.
+            let terminal_node = branch.as_ref().last().copied().unwrap_or(self.root);
             let terminal_inner_index = *indices.as_ref().last().unwrap_unchecked();
 
             let data_index = terminal_node.get_child::<DataIndex>(terminal_inner_index).as_usize();
@@ -241,7 +242,7 @@ where
                 terminal_node.remove::<DataIndex>(terminal_inner_index);
 
                 // 1. Try remove empty terminal node recursively.
-                if terminal_node.header().len() == 1 /* TODO: unlikely */ {
+                if DEPTH != 1 /*don't touch root*/ && terminal_node.header().len() == 1 /* TODO: unlikely */ {
                     terminal_node.drop_node::<DataIndex>();
 
                     // climb up the tree, and remove empty nodes
-- 
2.43.0


From cde0f825637c87da6a30d74dfc0d7c855ee147bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:03 +0000
Subject: [PATCH 02/18] fix: NodePtr::from_parts did not count the trailing
 empty child in len

---
 src/dense_tree/node.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dense_tree/node.rs b/src/dense_tree/node.rs
index 734c5f6..8c2c31f 100644
--- a/src/dense_tree/node.rs
+++ b/src/dense_tree/node.rs
@@ -219,7 +219,8 @@ impl NodePtr {
         
         addr_of_mut!((*node).mask).write(mask);
         addr_of_mut!((*node).capacity).write(cap);
-        addr_of_mut!((*node).len).write(len as u8);
+        // childs + empty_child
+        addr_of_mut!((*node).len).write(cap);
         
         let mut this = Self(NonNull::new_unchecked(node));
         
-- 
2.43.0


From ff2cf22db5a822c58464aa7854898ba01cd144a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:29 +0000
Subject: [PATCH 03/18] fix: materialize of a non-exact hierarchy kept empty
 terminal nodes, was undefined for an empty result, and dropped a placeholder
 if user code panicked

---
 src/dense_tree/from.rs | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/dense_tree/from.rs b/src/dense_tree/from.rs
index 474c2c6..a16082b 100644
--- a/src/dense_tree/from.rs
+++ b/src/dense_tree/from.rs
@@ -1,4 +1,5 @@
 use arrayvec::ArrayVec;
+use std::mem;
 use std::ops::ControlFlow::Continue;
 
 use crate::const_utils::{ConstInteger, ConstUsize};
@@ -110,6 +111,11 @@ where
     let mask = other_cursor.select_level_node_unchecked(other, n, index);
     
     if N::VALUE == L::LevelCount::VALUE - 1 {
+        // non-exact hierarchy may lead to an empty node
+        if mask.is_zero() {
+            return None;
+        }
+        
         // terminal node with data
         let len = mask.count_ones() as u8;
         let cap = len + 1;
@@ -150,11 +156,13 @@ where
     >,    
 {
     fn from_sparse_hierarchy(other: From) -> Self {
-        let mut other_cursor = <From as HibitTreeTypes>::Cursor::new(&other);        
-        let mut data: Vec<T> = Vec::with_capacity(1);
-        unsafe{ data.set_len(1); }
+        let mut other_cursor = <From as HibitTreeTypes>::Cursor::new(&other);
         
-        let mut keys = vec![usize::MAX];
+        // Start from the valid empty tree. Values will be pushed directly to it,
+        // so if user code panics - already pushed ones will be properly dropped.
+        let mut this = Self::default();
+        let data = &mut this.data;
+        let keys = &mut this.keys;
         
         let mut push_fn = |index, value| -> DataIndex {
             let i = data.len(); 
@@ -165,15 +173,22 @@ where
 
         let root = unsafe {
             if <From as HibitTree>::EXACT_HIERARCHY {
-                from_exact_sparse_hierarchy(
+                Some(from_exact_sparse_hierarchy(
                     &other, &mut other_cursor, ConstUsize::<0>, 0, 0, &mut push_fn
-                )
+                ))
             } else {
                 from_sparse_hierarchy(
                     &other, &mut other_cursor, ConstUsize::<0>, 0, 0, &mut push_fn
-                ).unwrap_unchecked()
+                )
             }
         };
-        Self{ root, data, keys }
+        
+        // `None` if `other` is empty.
+        if let Some(root) = root {
+            let empty_root = mem::replace(&mut this.root, root);
+            unsafe{ empty_root.drop_node_with_childs::<ConstUsize<0>, DEPTH>(); }
+        }
+        
+        this
     }
 }
\ No newline at end of file
-- 
2.43.0


From 33288d9d8c802d1622041d1367d6b539520b4f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:30 +0000
Subject: [PATCH 04/18] fix: values were dropped twice if a value's drop
 panicked while dropping a tree

---
 src/dense_tree.rs  | 10 ++++++----
 src/sparse_tree.rs |  4 +++-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/dense_tree.rs b/src/dense_tree.rs
index 66e26c9..9a5022b 100644
--- a/src/dense_tree.rs
+++ b/src/dense_tree.rs
@@ -311,16 +311,18 @@ where
     
     #[inline]
     unsafe fn drop_impl(&mut self){
+        // drop node hierarchy
+        self.root.drop_node_with_childs::<ConstUsize<0>, DEPTH>();
+        
         // drop values
         let slice = ptr::slice_from_raw_parts_mut(
             self.data.as_mut_ptr().add(1), 
             self.data.len() - 1
         ); 
-        ptr::drop_in_place(slice);
+        // Must be before drop_in_place - value's drop may panic,
+        // and then Vec should not drop values again.
         self.data.set_len(0);
-        
-        // drop node hierarchy
-        self.root.drop_node_with_childs::<ConstUsize<0>, DEPTH>()         
+        ptr::drop_in_place(slice);
     }
 }
 
diff --git a/src/sparse_tree.rs b/src/sparse_tree.rs
index 9394e78..9991234 100644
--- a/src/sparse_tree.rs
+++ b/src/sparse_tree.rs
@@ -526,8 +526,10 @@ where
             self.values.as_mut_ptr().add(skip_first as usize), 
             self.values.len() - skip_first as usize
         ); 
-        ptr::drop_in_place(slice);
+        // Must be before drop_in_place - value's drop may panic,
+        // and then Vec should not drop values again.
         self.values.set_len(0);
+        ptr::drop_in_place(slice);
     }
 }
 
-- 
2.43.0


From da6ac80e5668eb825e3412b8fe960dad965e0622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:30 +0000
Subject: [PATCH 05/18] fix: SparseTree::default dropped an uninitialized value
 if Data::default() panicked

---
 src/sparse_tree.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sparse_tree.rs b/src/sparse_tree.rs
index 9991234..40deaff 100644
--- a/src/sparse_tree.rs
+++ b/src/sparse_tree.rs
@@ -75,11 +75,12 @@ where
     #[inline]
     fn default() -> Self {
         let mut values: Vec<Data> = Vec::with_capacity(1);
-        unsafe{ values.set_len(1); }
         unsafe{
             <DefaultInitFor<Data, R> as DefaultInit>
             ::init_default(values.as_mut_ptr().cast());
         }
+        // After init_default, since it may panic.
+        unsafe{ values.set_len(1); }
         
         Self{
             levels: Levels::default(),
-- 
2.43.0


From 85f7ead4917374596024e6416734f16734d86585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:30 +0000
Subject: [PATCH 06/18] fix: width_256 child indices overflowed when a root or
 first level was full

---
 src/config.rs      | 3 ++-
 src/sparse_tree.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index 0ebf70c..0d29314 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -48,7 +48,8 @@ pub mod width_128 {
 #[allow(non_camel_case_types)]
 pub mod width_256{
     use super::*;
-    generate!(Block<wide::u64x4, [u8; 256]>, Block<wide::u64x4, [u16; 256]>, Block<wide::u64x4, [u32; 256]>);
+    // Index 0 is reserved for an empty child, so u8 can address only 255 childs, and u16 only 256*256-1.
+    generate!(Block<wide::u64x4, [u16; 256]>, Block<wide::u64x4, [u32; 256]>, Block<wide::u64x4, [u32; 256]>);
 }
 
 /*pub type _64x1 = w64::d1;
diff --git a/src/sparse_tree.rs b/src/sparse_tree.rs
index 40deaff..c09ea11 100644
--- a/src/sparse_tree.rs
+++ b/src/sparse_tree.rs
@@ -23,7 +23,8 @@ use crate::hibit_tree::{HibitTree, HibitTreeCursor};
 /// This means that array size equals to maximum children count (bitmask width).
 /// 
 /// To save memory, instead of traditional pointers, integer indices
-/// are used. Root level use u8 for indices, first level - u16, everything below - u32.
+/// are used. Root level use u8 for indices, first level - u16, everything below - u32
+/// (for 256bit wide nodes: root level - u16, everything below - u32).
 /// 
 /// It is slightly faster than [DenseTree], and can have wider nodes with 
 /// SIMD-accelerated bitmasks.
-- 
2.43.0


From 2176a03e74940929180319ec03d2bcc6c202bd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:30 +0000
Subject: [PATCH 07/18] fix: index_range overflowed for width_256::depth_8

---
 src/hibit_tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hibit_tree.rs b/src/hibit_tree.rs
index c55317e..4652089 100644
--- a/src/hibit_tree.rs
+++ b/src/hibit_tree.rs
@@ -213,7 +213,7 @@ where
     /// Act as `const`.
     #[inline]
     /*const*/ fn index_range() -> RangeTo<usize> {
-        RangeTo{ end: Self::LevelMask::SIZE.pow(Self::LevelCount::VALUE as _) }
+        RangeTo{ end: Self::LevelMask::SIZE.saturating_pow(Self::LevelCount::VALUE as _) }
     }
 }
 
-- 
2.43.0


From 2de7f7a1006ca03c0a3cc0824ff22cdd3a3edea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:14 +0000
Subject: [PATCH 08/18] fix: multi_intersection of zero trees contained every
 index on get

---
 src/ops/_multi_intersection.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ops/_multi_intersection.rs b/src/ops/_multi_intersection.rs
index bb097a6..10e1a9e 100644
--- a/src/ops/_multi_intersection.rs
+++ b/src/ops/_multi_intersection.rs
@@ -112,6 +112,11 @@ where
                 }
             }
             
+            // Intersection of nothing is empty.
+            if datas.is_empty(){
+                return None;
+            }
+            
             Some(datas.into_iter())
         }
 
-- 
2.43.0


From 8e1034fd26556afc9dd5e4e8735cf1b0c8420834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:33 +0000
Subject: [PATCH 09/18] fix: multi_intersection cursor data() ignored nodes
 selected with select_level_node_unchecked

---
 src/ops/_multi_intersection.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ops/_multi_intersection.rs b/src/ops/_multi_intersection.rs
index 10e1a9e..1fc042e 100644
--- a/src/ops/_multi_intersection.rs
+++ b/src/ops/_multi_intersection.rs
@@ -429,6 +429,10 @@ where
             acc_mask &= mask;
         }            
         
+        /*const*/ if N::VALUE == <Self::Src as HibitTree>::LevelCount::VALUE - 1 {
+            self.terminal_node_mask = acc_mask.clone(); 
+        }
+        
         acc_mask
     }
 
-- 
2.43.0


From d6d115b3cf61e64f85e9e944f140673d131f85a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:53 +0000
Subject: [PATCH 10/18] fix: multi_union cursor used a mutable reference to a
 level's state after reborrowing all of them

---
 src/ops/_multi_union.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ops/_multi_union.rs b/src/ops/_multi_union.rs
index 7d492ad..e97e601 100644
--- a/src/ops/_multi_union.rs
+++ b/src/ops/_multi_union.rs
@@ -190,11 +190,11 @@ where
             return acc_mask;
         }
         
-        // drop lifetime checks for `get_many`-like access. 
-        let mut lvls_non_empty_states = NonNull::from(self.lvls_non_empty_states.as_mut());
+        // Prev level's states (if any) are the last in the `upper` part. 
+        let (upper_lvls, lower_lvls) = 
+            self.lvls_non_empty_states.as_mut().split_at_mut(level_n.value()-1);
         
-        let lvl_non_empty_states = 
-            lvls_non_empty_states.as_mut().get_unchecked_mut(level_n.value()-1);
+        let lvl_non_empty_states = lower_lvls.get_unchecked_mut(0);
         lvl_non_empty_states.clear();
         
         let len = self.cursors.len() as u8;
@@ -214,7 +214,7 @@ where
             for i in 0..len { foreach(i) }    
         } else {
             let prev_lvl_non_empty_states =
-                lvls_non_empty_states.as_ref().get_unchecked(level_n.value()-2);
+                upper_lvls.get_unchecked(level_n.value()-2);
             for i in prev_lvl_non_empty_states { foreach(*i) }
         }
         
-- 
2.43.0


From d2667533428a0c44f11cc5409c80d9d0eb336285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:08 +0000
Subject: [PATCH 11/18] fix: multi_union cursor data() yielded an empty
 iterator for absent elements, and was not implemented for 1-level trees

---
 src/ops/_multi_union.rs | 41 +++++++++++++++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/src/ops/_multi_union.rs b/src/ops/_multi_union.rs
index e97e601..3fe9651 100644
--- a/src/ops/_multi_union.rs
+++ b/src/ops/_multi_union.rs
@@ -118,6 +118,18 @@ where
 
 const N: usize = 32;
 type CursorIndex = u8;
+
+/// 0..N
+static ALL_STATES: [CursorIndex; N] = {
+    let mut states = [0; N];
+    let mut i = 0;
+    while i < N {
+        states[i] = i as CursorIndex;
+        i += 1;
+    }
+    states
+};
+
 type CursorsItem<'item, Iter> = (<Iter as Iterator>::Item, IterItemCursor<'item, Iter>);
 
 pub struct Cursor<'src, 'item, Iter>
@@ -134,6 +146,8 @@ where
         <<IterItem<Iter> as HibitTree>::LevelCount as ConstInteger>::Dec,
     >,
     
+    terminal_node_mask: <IterItem<Iter> as HibitTree>::LevelMask,
+    
     phantom_data: PhantomData<&'src MultiUnion<Iter>>
 }
 
@@ -164,6 +178,7 @@ where
         Self {
             cursors: states,
             lvls_non_empty_states: Array::from_fn(|_|ArrayVec::new()),
+            terminal_node_mask: BitBlock::zero(),
             phantom_data: PhantomData,
         }
     }
@@ -180,13 +195,16 @@ where
     unsafe fn select_level_node_unchecked<N: ConstInteger>(&mut self, src: &'src Self::Src, level_n: N, level_index: usize) 
         -> <Self::Src as HibitTree>::LevelMask 
     {
-        let mut acc_mask = BitBlock::zero();
+        let mut acc_mask = <Self::Src as HibitTree>::LevelMask::zero();
         
         if N::VALUE == 0 {
             for (array, array_cursor) in self.cursors.iter_mut() {
                 let mask = array_cursor.select_level_node(array, level_n, level_index);
                 acc_mask |= mask;
             }            
+            /*const*/ if <Self::Src as HibitTree>::LevelCount::VALUE == 1 {
+                self.terminal_node_mask = acc_mask.clone();
+            }
             return acc_mask;
         }
         
@@ -218,6 +236,10 @@ where
             for i in prev_lvl_non_empty_states { foreach(*i) }
         }
         
+        /*const*/ if N::VALUE == <Self::Src as HibitTree>::LevelCount::VALUE - 1 {
+            self.terminal_node_mask = acc_mask.clone();
+        }
+        
         acc_mask
     }
 
@@ -225,16 +247,19 @@ where
     unsafe fn data<'a>(&'a self, src: &'src Self::Src, level_index: usize) 
         -> Option<<Self as HibitTreeCursorTypes<'a>>::Data> 
     {
-        if <Self::Src as HibitTree>::LevelCount::VALUE == 1 {
-            todo!("TODO: compile-time special case for 1-level SparseHierarchy");
-        }
-        
-        let lvl_non_empty_states = self.lvls_non_empty_states.as_ref()
-                                   .last().unwrap_unchecked();
-        if lvl_non_empty_states.is_empty(){
+        if !self.terminal_node_mask.get_bit(level_index) {
             return None;
         }
         
+        let lvl_non_empty_states = 
+            /*const*/ if <Self::Src as HibitTree>::LevelCount::VALUE == 1 {
+                // Root level's states are not stored - use all of them. 
+                ALL_STATES.get_unchecked(..self.cursors.len())
+            } else {
+                self.lvls_non_empty_states.as_ref()
+                    .last().unwrap_unchecked().as_slice()
+            };
+        
         Some(CursorData {
             lvl_non_empty_states: lvl_non_empty_states.iter(),
             cursors: &self.cursors,
-- 
2.43.0


From a6a7a36e6f1ebea29cf44ca903063d1384ec072a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:29 +0000
Subject: [PATCH 12/18] fix: const_for and const_for_rev visited integers below
 `from`

---
 src/const_utils/const_int.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/const_utils/const_int.rs b/src/const_utils/const_int.rs
index 1aff1bb..05fd69f 100644
--- a/src/const_utils/const_int.rs
+++ b/src/const_utils/const_int.rs
@@ -35,13 +35,13 @@ trait ConstIntegerPrivate{
     where
         Self: ConstInteger
     {
+        if self.value() <= from.value() {
+            return Continue(());
+        }
+        
         let ctrl = self.dec().iterate_as_range(from, visitor);
         if ctrl.is_continue() {
-            if self.value() == from.value() {
-                Continue(())
-            } else {            
-                visitor.visit(self.dec())
-            }
+            visitor.visit(self.dec())
         } else {
             ctrl
         }
@@ -54,13 +54,13 @@ trait ConstIntegerPrivate{
     where
         Self: ConstInteger
     {
+        if self.value() <= from.value() {
+            return Continue(());
+        }
+        
         let ctrl = visitor.visit(self.dec());
         if ctrl.is_continue(){
-            if self.value() == from.value() {
-                Continue(())
-            } else {
-                self.dec().iterate_as_range_rev(from, visitor)
-            }
+            self.dec().iterate_as_range_rev(from, visitor)
         } else {
             ctrl
         }
-- 
2.43.0


From ffaa7b9fbcfb72b19e60ef01075728965077eb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:29 +0000
Subject: [PATCH 13/18] fix: ConstInteger::sat_dec was not saturating and
 panicked for 0

---
 src/const_utils/const_int.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/const_utils/const_int.rs b/src/const_utils/const_int.rs
index 05fd69f..fce48f9 100644
--- a/src/const_utils/const_int.rs
+++ b/src/const_utils/const_int.rs
@@ -84,8 +84,8 @@ pub trait ConstInteger: ConstIntegerPrivate + Default + Copy + Eq + Debug + 'sta
     type SatDec: ConstInteger;
     /// Saturating decrement
     #[inline]
-    fn sat_dec(self) -> Self::Dec {
-        Self::Dec::default()
+    fn sat_dec(self) -> Self::SatDec {
+        Self::SatDec::default()
     }
     
     type Dec: ConstInteger;
-- 
2.43.0


From f4911bf70df3a4886625c90cad733d826988a9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:29 +0000
Subject: [PATCH 14/18] fix: DenseTree did not compile with the may_dangle
 feature

---
 src/dense_tree.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dense_tree.rs b/src/dense_tree.rs
index 9a5022b..a81eb55 100644
--- a/src/dense_tree.rs
+++ b/src/dense_tree.rs
@@ -327,7 +327,10 @@ where
 }
 
 #[cfg(feature = "may_dangle")]
-unsafe impl<#[may_dangle] T, const DEPTH: usize> Drop for DenseTree<T, DEPTH> {
+unsafe impl<#[may_dangle] T, const DEPTH: usize> Drop for DenseTree<T, DEPTH>
+where
+    ConstUsize<DEPTH>: ConstInteger
+{
     #[inline]
     fn drop(&mut self) {
         unsafe{ self.drop_impl(); }
-- 
2.43.0


From 1eb4ea7915fed6eab2d1b070a5fa6b5b55b26bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:14 +0000
Subject: [PATCH 15/18] fix: get_or_insert left empty nodes in the hierarchy if
 Default::default() panicked

---
 src/dense_tree.rs  | 12 ++++++++++--
 src/sparse_tree.rs | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/dense_tree.rs b/src/dense_tree.rs
index a81eb55..4fbd6de 100644
--- a/src/dense_tree.rs
+++ b/src/dense_tree.rs
@@ -124,6 +124,11 @@ where
     ) -> &mut T {
         let indices = level_indices::<Mask, ConstUsize<DEPTH>>(index);
         
+        // value_fn may panic, so it must be called before the first node
+        // inserted - otherwise we'll end up with an empty node in the tree.
+        let mut value_fn = Some(value_fn);
+        let mut value = None;
+        
         // get terminal node pointing to data
         let mut node = &mut self.root;
         const_loop!(N in 0..{DEPTH-1} => {
@@ -133,6 +138,8 @@ where
                 /*child*/ node = if node_ptr.header().contains(inner_index) {
                     node_ptr.get_child_mut(inner_index)
                 } else {
+                    value = value.or_else(|| value_fn.take().map(|f| f()));
+                    
                     // TODO: insert node with already inserted ONE element 
                     //       all down below. And immediately exit loop?
                     //       BENCHMARK change.
@@ -153,6 +160,7 @@ where
         });
      
         // now fetch data
+        let make_value = || value.unwrap_or_else(|| (value_fn.unwrap())());
         unsafe{
             let node_ptr = *node;
             let inner_index = *indices.as_ref().last().unwrap_unchecked();
@@ -160,12 +168,12 @@ where
             let data_index = if node_ptr.header().contains(inner_index) {
                 let data_index = node_ptr.get_child::<DataIndex>(inner_index).as_usize();
                 /*const*/ if insert.value(){
-                    *self.data.get_unchecked_mut(data_index) = value_fn();                     
+                    *self.data.get_unchecked_mut(data_index) = make_value();                   
                 }
                 data_index
             } else {
                 let i = self.data.len(); 
-                self.data.push(value_fn());
+                self.data.push(make_value());
                 self.keys.push(index);
                 let (_, new_node) = node_ptr.insert(inner_index, i as DataIndex);
                 *node = new_node;
diff --git a/src/sparse_tree.rs b/src/sparse_tree.rs
index c09ea11..cbb9502 100644
--- a/src/sparse_tree.rs
+++ b/src/sparse_tree.rs
@@ -400,6 +400,11 @@ where
         let level_indices = crate::level_indices::<Levels::Mask, Levels::LevelCount>(index);
         let last_level_inner_index = unsafe{ *level_indices.as_ref().last().unwrap_unchecked() };
         
+        // value_fn may panic, so it must be called before the first block
+        // inserted - otherwise we'll end up with an empty block in the tree.
+        let mut value_fn = Some(value_fn);
+        let mut value = None;
+        
         let mut level_block_index = 0;
         const_loop!(LEVEL_INDEX in 0..{<Levels::LevelCount as ConstInteger>::Dec::VALUE} => {
             let level_index = ConstUsize::<LEVEL_INDEX>;
@@ -409,6 +414,8 @@ where
                 block.get_child(inner_index) 
             };
             level_block_index = if next_level_block_index.is_zero() {
+                value = value.or_else(|| value_fn.take().map(|f| f()));
+                
                 // 1. Insert new block in next level
                 struct Insert;
                 impl<M> MutVisitor<M> for Insert {
@@ -438,13 +445,14 @@ where
         });
         
         // 3. Last level
+        let make_value = || value.unwrap_or_else(|| (value_fn.unwrap())());
         let data_block_index = unsafe {
             let mut block = self.get_block_mut(Levels::LevelCount::default().dec(), level_block_index);
             let mut data_block_index = block.get_child(last_level_inner_index);
             if data_block_index.is_zero() {
                 let i = self.values.len();
                 
-                self.values.push((value_fn)());
+                self.values.push(make_value());
                 self.keys.push(index);
                 self.last_level_block_indices.push(
                     (level_block_index, last_level_inner_index)
@@ -454,7 +462,7 @@ where
                 i                   
             } else {
                 /*const*/ if insert.value() { 
-                    *self.values.get_unchecked_mut(data_block_index) = (value_fn)();
+                    *self.values.get_unchecked_mut(data_block_index) = make_value();
                 }
                 data_block_index
             }
-- 
2.43.0


From 05beba85377c0713b9dd663c16b200875b143c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:44 +0000
Subject: [PATCH 16/18] fix: multi_intersection's get_unchecked values reported
 a wrong length for operand iterators of inexact size

---
 src/ops/_multi_intersection.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ops/_multi_intersection.rs b/src/ops/_multi_intersection.rs
index 1fc042e..dd45f31 100644
--- a/src/ops/_multi_intersection.rs
+++ b/src/ops/_multi_intersection.rs
@@ -310,7 +310,9 @@ where
     
     #[inline]
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.iter.size_hint()
+        // Must be exact for ExactSizeIterator, even if `iter.size_hint()` is not (filter, etc.).
+        let len = self.iter.clone().count();
+        (len, Some(len))
     }
 }
 
-- 
2.43.0


From 9e7ebead4880bbcbb5d4abb223ef23943c9347f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:10 +0000
Subject: [PATCH 17/18] fix: multi_intersection's cursor used trees that it was
 not created with, if iter.clone() yields other ones

---
 src/ops/_multi_intersection.rs | 30 +++++++++++-------------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/src/ops/_multi_intersection.rs b/src/ops/_multi_intersection.rs
index dd45f31..029c68d 100644
--- a/src/ops/_multi_intersection.rs
+++ b/src/ops/_multi_intersection.rs
@@ -323,7 +323,9 @@ where
 {}
 
 const N: usize = 32;
-type CursorsItem<'item, Iter> = IterItemCursor<'item, Iter>; 
+// Trees are stored along with their cursors - a cursor must always be used with the very same tree,
+// but nothing guarantees that each `iter.clone()` yields the same trees.
+type CursorsItem<'item, Iter> = (<Iter as Iterator>::Item, IterItemCursor<'item, Iter>); 
 
 pub struct Cursor<'src, 'item, I>
 where
@@ -354,7 +356,7 @@ where
         let cursors = ArrayVec::from_iter(
             src.iter.clone()
                 .map(|array|{
-                    HibitTreeCursor::new(array)
+                    (array, HibitTreeCursor::new(array))
                 })
         );
         
@@ -376,18 +378,15 @@ where
         }
         
         let mut cursors_iter = self.cursors.iter_mut();
-        let mut array_iter  = src.iter.clone();
         
         let mut acc_mask = 
-            if let Some(array_cursor) = cursors_iter.next(){
-                let array = array_iter.next().unwrap_unchecked();
+            if let Some((array, array_cursor)) = cursors_iter.next(){
                 array_cursor.select_level_node(array, level_n, level_index)
             } else {
                 return BitBlock::zero();
             };
         
-        for array_cursor in cursors_iter {
-            let array = array_iter.next().unwrap_unchecked();
+        for (array, array_cursor) in cursors_iter {
             let mask = array_cursor.select_level_node(
                 array, level_n, level_index
             );
@@ -413,18 +412,15 @@ where
     ) -> <Self::Src as HibitTree>::LevelMask {
         // TODO: Almost the same as in checked version. Reuse somehow. 
         let mut cursors_iter = self.cursors.iter_mut();
-        let mut array_iter  = src.iter.clone();
         
         let mut acc_mask = 
-            if let Some(array_cursor) = cursors_iter.next() {
-                let array = array_iter.next().unwrap_unchecked();
+            if let Some((array, array_cursor)) = cursors_iter.next() {
                 array_cursor.select_level_node_unchecked(array, level_n, level_index)
             } else {
                 return BitBlock::zero();
             };
         
-        for array_cursor in cursors_iter {
-            let array = array_iter.next().unwrap_unchecked();
+        for (array, array_cursor) in cursors_iter {
             let mask = array_cursor.select_level_node_unchecked(
                 array, level_n, level_index
             );
@@ -455,7 +451,6 @@ where
     ) -> <Self as HibitTreeCursorTypes<'a>>::Data {
         CursorData { 
             level_index,
-            array_iter: src.iter.clone(),
             cursors_iter: self.cursors.iter(),
         }
     }
@@ -467,7 +462,6 @@ where
     I: Iterator<Item: Ref<Type: HibitTree>>
 {
     level_index: usize,
-    array_iter: I,
     cursors_iter: slice::Iter<'cursor, CursorsItem<'item, I>>,
 }
 
@@ -493,8 +487,7 @@ where
         // Compiler optimizes away additional branching here.
         self.cursors_iter
             .next()
-            .map(|array_cursor| unsafe { 
-                let array = self.array_iter.next().unwrap_unchecked();
+            .map(|(array, array_cursor)| unsafe { 
                 array_cursor.data_unchecked(array, self.level_index)
             })
     }
@@ -502,15 +495,14 @@ where
     // TODO: We probably don't need this fold implementation.
     //       Looks like compiler able to optimize next() into the same code.
     #[inline]
-    fn fold<B, F>(mut self, mut init: B, mut f: F) -> B
+    fn fold<B, F>(self, mut init: B, mut f: F) -> B
     where
         Self: Sized,
         F: FnMut(B, Self::Item) -> B,
     {
         let level_index = self.level_index;
-        for array_cursor in self.cursors_iter {
+        for (array, array_cursor) in self.cursors_iter {
             let data = unsafe{
-                let array = self.array_iter.next().unwrap_unchecked();
                 array_cursor.data_unchecked(array, level_index) 
             };
             init = f(init, data);
-- 
2.43.0


From bbb3f74d45b6d8cb6238e6c0c71ddf3a58829fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:51 +0000
Subject: [PATCH 18/18] fix: DenseTree used the null pointer of a failed
 allocation, instead of ending in handle_alloc_error

---
 src/dense_tree/node.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/dense_tree/node.rs b/src/dense_tree/node.rs
index 8c2c31f..6181601 100644
--- a/src/dense_tree/node.rs
+++ b/src/dense_tree/node.rs
@@ -1,4 +1,4 @@
-use std::alloc::{alloc, dealloc, Layout, realloc};
+use std::alloc::{dealloc, handle_alloc_error, Layout};
 use std::{mem, ptr};
 use std::mem::{align_of, MaybeUninit, size_of};
 use std::ops::ControlFlow;
@@ -13,6 +13,26 @@ use super::Mask;
 
 pub(super) const DEFAULT_CAP: u8 = 2;
 
+/// Same as [std::alloc::alloc], but never returns null.
+#[inline]
+unsafe fn alloc(layout: Layout) -> *mut u8 {
+    let ptr = std::alloc::alloc(layout);
+    if ptr.is_null() {
+        handle_alloc_error(layout);
+    }
+    ptr
+}
+
+/// Same as [std::alloc::realloc], but never returns null.
+#[inline]
+unsafe fn realloc(ptr: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
+    let new_ptr = std::alloc::realloc(ptr, layout, new_size);
+    if new_ptr.is_null() {
+        handle_alloc_error(Layout::from_size_align_unchecked(new_size, layout.align()));
+    }
+    new_ptr
+}
+
 /// Just for safety
 pub(super) trait NodeChild: 'static{}
 impl NodeChild for NodePtr{}
-- 
2.43.0

