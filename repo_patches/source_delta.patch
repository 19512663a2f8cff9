From d66904daafff6e88569a6b8c4e3f24d4d9d5d731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:56 +0000
Subject: [PATCH 1/7] fix: ordered maps with keys aligned above 16 bytes no
 longer panic on every lookup

---
 src/btree/node.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/btree/node.rs b/src/btree/node.rs
index bed459d..f113484 100644
--- a/src/btree/node.rs
+++ b/src/btree/node.rs
@@ -567,8 +567,18 @@ impl<'a, K: 'a, V: 'a, Type> NodeRef<marker::Immut<'a>, K, V, Type> {
         // of the header!  So we do an alignment check first, that will be
         // evaluated at compile-time, and only do any run-time check in the rare case
         // that the alignment is very big.
-        if mem::align_of::<K>() > mem::align_of::<LeafNode<(), ()>>() && self.is_shared_root() {
-            &[]
+        if mem::align_of::<K>() > mem::align_of::<LeafNode<(), ()>>() {
+            if self.is_shared_root() {
+                &[]
+            } else {
+                // This is not the shared root, so `as_leaf` is okay
+                unsafe {
+                    slice::from_raw_parts(
+                        MaybeUninit::slice_as_ptr(&self.as_leaf().keys),
+                        self.len(),
+                    )
+                }
+            }
         } else {
             // Thanks to the alignment check above, we know that `keys` will be
             // in-bounds of some allocation even if this is the shared root!
-- 
2.43.0


From dde736fec6e8adc3ccca7b2294742a4fd3fce621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:33 +0000
Subject: [PATCH 2/7] fix: shortening a vector whose element destructor panics
 no longer drops that element twice

---
 src/vec.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index 644bbb3..8c76918 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -625,18 +625,17 @@ impl<T> Truncate for Vec<T> {
         let current_len = self.len();
         unsafe {
             let mut ptr = self.as_mut_ptr().add(current_len);
-            // Set the final length at the end, keeping in mind that
-            // dropping an element might panic. Works around a missed
-            // optimization, as seen in the following issue:
-            // https://github.com/rust-lang/rust/issues/51802
+            // Shorten the vector before each drop, keeping in mind that
+            // dropping an element might panic and the element must not
+            // be dropped again.
             let mut local_len = self.len();
 
             // drop any extra elements
             for _ in len..current_len {
                 ptr = ptr.offset(-1);
-                core::ptr::drop_in_place(ptr);
                 local_len -= 1;
                 self.set_len(local_len);
+                core::ptr::drop_in_place(ptr);
             }
         }
     }
-- 
2.43.0


From 459156cec743ee98e6ba49e85c5a7c9d3fbc5cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 3/7] fix: a refused allocation in the middle of an ordered-map
 insertion leaves the map as it was

The length was raised before the insertion could fail, and a split that had
already happened when a split further up was refused lost its right half.
---
 src/btree/map.rs  |   9 ++-
 src/btree/node.rs | 141 +++++++++++++++++++++++++++++++++-------------
 2 files changed, 109 insertions(+), 41 deletions(-)

diff --git a/src/btree/map.rs b/src/btree/map.rs
index 3a69a66..106d959 100644
--- a/src/btree/map.rs
+++ b/src/btree/map.rs
@@ -2368,6 +2368,8 @@ impl<'a, K: Ord, V> VacantEntry<'a, K, V> {
     /// ```
 
     pub fn try_insert(self, value: V) -> Result<&'a mut V, TryReserveError> {
+        // Allocate everything first: a refused request must leave the map as it was.
+        let mut spare = node::SpareNodes::for_insertion(self.handle.reborrow().into_node())?;
         *self.length += 1;
 
         let out_ptr;
@@ -2376,7 +2378,7 @@ impl<'a, K: Ord, V> VacantEntry<'a, K, V> {
         let mut ins_v;
         let mut ins_edge;
 
-        let mut cur_parent = match self.handle.insert(self.key, value)? {
+        let mut cur_parent = match self.handle.insert(self.key, value, &mut spare) {
             (Fit(handle), _) => return Ok(handle.into_kv_mut().1),
             (Split(left, k, v, right), ptr) => {
                 ins_k = k;
@@ -2389,7 +2391,7 @@ impl<'a, K: Ord, V> VacantEntry<'a, K, V> {
 
         loop {
             match cur_parent {
-                Ok(parent) => match parent.insert(ins_k, ins_v, ins_edge)? {
+                Ok(parent) => match parent.insert(ins_k, ins_v, ins_edge, &mut spare) {
                     Fit(_) => return Ok(unsafe { &mut *out_ptr }),
                     Split(left, k, v, right) => {
                         ins_k = k;
@@ -2399,7 +2401,8 @@ impl<'a, K: Ord, V> VacantEntry<'a, K, V> {
                     }
                 },
                 Err(root) => {
-                    root.push_level()?.push(ins_k, ins_v, ins_edge);
+                    root.push_spare_level(&mut spare)
+                        .push(ins_k, ins_v, ins_edge);
                     return Ok(unsafe { &mut *out_ptr });
                 }
             }
diff --git a/src/btree/node.rs b/src/btree/node.rs
index f113484..2092957 100644
--- a/src/btree/node.rs
+++ b/src/btree/node.rs
@@ -37,9 +37,11 @@ use core::ptr::{self, NonNull, Unique};
 use core::slice;
 
 use crate::boxed::FallibleBox;
+use crate::vec::FallibleVec;
 use crate::TryReserveError;
 use alloc::alloc::{Allocator, Global, Layout};
 use alloc::boxed::Box;
+use alloc::vec::Vec;
 
 const B: usize = 6;
 pub const MIN_LEN: usize = B - 1;
@@ -266,8 +268,23 @@ impl<K, V> Root<K, V> {
     pub fn push_level(
         &mut self,
     ) -> Result<NodeRef<marker::Mut<'_>, K, V, marker::Internal>, TryReserveError> {
+        let new_node = <Box<_> as FallibleBox<_>>::try_new(unsafe { InternalNode::new() })?;
+        Ok(self.push_level_with(new_node))
+    }
+
+    /// As `push_level`, with a node set aside beforehand.
+    pub fn push_spare_level(
+        &mut self,
+        spare: &mut SpareNodes<K, V>,
+    ) -> NodeRef<marker::Mut<'_>, K, V, marker::Internal> {
+        self.push_level_with(spare.take_internal())
+    }
+
+    fn push_level_with(
+        &mut self,
+        mut new_node: Box<InternalNode<K, V>>,
+    ) -> NodeRef<marker::Mut<'_>, K, V, marker::Internal> {
         debug_assert!(!self.is_shared_root());
-        let mut new_node = <Box<_> as FallibleBox<_>>::try_new(unsafe { InternalNode::new() })?;
         new_node.edges[0].write(unsafe { BoxedNode::from_ptr(self.node.as_ptr()) });
 
         self.node = BoxedNode::from_internal(new_node);
@@ -284,7 +301,7 @@ impl<K, V> Root<K, V> {
             ret.reborrow_mut().first_edge().correct_parent_link();
         }
 
-        Ok(ret)
+        ret
     }
 
     /// Removes the root node, using its first child as the new root. This cannot be called when
@@ -319,6 +336,61 @@ impl<K, V> Root<K, V> {
     }
 }
 
+/// The nodes an insertion is going to need, allocated before the tree is touched so that
+/// the insertion itself cannot fail half-way through.
+pub struct SpareNodes<K, V> {
+    leaf: Option<Box<LeafNode<K, V>>>,
+    internal: Vec<Box<InternalNode<K, V>>>,
+}
+
+impl<K, V> SpareNodes<K, V> {
+    /// Allocates one node for every full node an insertion at `leaf` has to split, plus a
+    /// new root if the root is among them.
+    pub fn for_insertion<'a>(
+        leaf: NodeRef<marker::Immut<'a>, K, V, marker::Leaf>,
+    ) -> Result<Self, TryReserveError>
+    where
+        K: 'a,
+        V: 'a,
+    {
+        let mut spare = SpareNodes {
+            leaf: None,
+            internal: Vec::new(),
+        };
+        if leaf.len() < CAPACITY {
+            return Ok(spare);
+        }
+
+        spare.leaf = Some(<Box<_> as FallibleBox<_>>::try_new(unsafe {
+            LeafNode::new()
+        })?);
+        let mut full_node = leaf.forget_type();
+        loop {
+            let parent = full_node.ascend().ok().map(|edge| edge.into_node());
+            match parent {
+                Some(parent) if parent.len() < CAPACITY => return Ok(spare),
+                _ => spare
+                    .internal
+                    .try_push(<Box<_> as FallibleBox<_>>::try_new(unsafe {
+                        InternalNode::new()
+                    })?)?,
+            }
+            match parent {
+                Some(parent) => full_node = parent.forget_type(),
+                None => return Ok(spare),
+            }
+        }
+    }
+
+    fn take_leaf(&mut self) -> Box<LeafNode<K, V>> {
+        self.leaf.take().expect("no leaf was set aside")
+    }
+
+    fn take_internal(&mut self) -> Box<InternalNode<K, V>> {
+        self.internal.pop().expect("no internal node was set aside")
+    }
+}
+
 // N.B. `NodeRef` is always covariant in `K` and `V`, even when the `BorrowType`
 // is `Mut`. This is technically wrong, but cannot result in any unsafety due to
 // internal use of `NodeRef` because we stay completely generic over `K` and `V`.
@@ -1027,13 +1099,14 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Leaf>, marker::Edge
         mut self,
         key: K,
         val: V,
-    ) -> Result<(InsertResult<'a, K, V, marker::Leaf>, *mut V), TryReserveError> {
+        spare: &mut SpareNodes<K, V>,
+    ) -> (InsertResult<'a, K, V, marker::Leaf>, *mut V) {
         if self.node.len() < CAPACITY {
             let ptr = self.insert_fit(key, val);
-            Ok((InsertResult::Fit(Handle::new_kv(self.node, self.idx)), ptr))
+            (InsertResult::Fit(Handle::new_kv(self.node, self.idx)), ptr)
         } else {
             let middle = Handle::new_kv(self.node, B);
-            let (mut left, k, v, mut right) = middle.split()?;
+            let (mut left, k, v, mut right) = middle.split(spare.take_leaf());
             let ptr = if self.idx <= B {
                 unsafe { Handle::new_edge(left.reborrow_mut(), self.idx).insert_fit(key, val) }
             } else {
@@ -1045,7 +1118,7 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Leaf>, marker::Edge
                     .insert_fit(key, val)
                 }
             };
-            Ok((InsertResult::Split(left, k, v, right), ptr))
+            (InsertResult::Split(left, k, v, right), ptr)
         }
     }
 }
@@ -1106,16 +1179,17 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Internal>, marker::
         key: K,
         val: V,
         edge: Root<K, V>,
-    ) -> Result<InsertResult<'a, K, V, marker::Internal>, TryReserveError> {
+        spare: &mut SpareNodes<K, V>,
+    ) -> InsertResult<'a, K, V, marker::Internal> {
         // Necessary for correctness, but this is an internal module
         debug_assert!(edge.height == self.node.height - 1);
 
         if self.node.len() < CAPACITY {
             self.insert_fit(key, val, edge);
-            Ok(InsertResult::Fit(Handle::new_kv(self.node, self.idx)))
+            InsertResult::Fit(Handle::new_kv(self.node, self.idx))
         } else {
             let middle = Handle::new_kv(self.node, B);
-            let (mut left, k, v, mut right) = middle.split()?;
+            let (mut left, k, v, mut right) = middle.split(spare.take_internal());
             if self.idx <= B {
                 unsafe {
                     Handle::new_edge(left.reborrow_mut(), self.idx).insert_fit(key, val, edge);
@@ -1129,7 +1203,7 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Internal>, marker::
                     .insert_fit(key, val, edge);
                 }
             }
-            Ok(InsertResult::Split(left, k, v, right))
+            InsertResult::Split(left, k, v, right)
         }
     }
 }
@@ -1194,23 +1268,18 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Leaf>, marker::KV>
     /// - The node is truncated to only contain the key/value pairs to the right of
     ///   this handle.
     /// - The key and value pointed to by this handle and extracted.
-    /// - All the key/value pairs to the right of this handle are put into a newly
-    ///   allocated node.
+    /// - All the key/value pairs to the right of this handle are put into `new_node`.
     pub fn split(
         mut self,
-    ) -> Result<
-        (
-            NodeRef<marker::Mut<'a>, K, V, marker::Leaf>,
-            K,
-            V,
-            Root<K, V>,
-        ),
-        TryReserveError,
-    > {
+        mut new_node: Box<LeafNode<K, V>>,
+    ) -> (
+        NodeRef<marker::Mut<'a>, K, V, marker::Leaf>,
+        K,
+        V,
+        Root<K, V>,
+    ) {
         debug_assert!(!self.node.is_shared_root());
         unsafe {
-            let mut new_node = <Box<_> as FallibleBox<_>>::try_new(LeafNode::new())?;
-
             let k = ptr::read(self.node.keys().get_unchecked(self.idx));
             let v = ptr::read(self.node.vals().get_unchecked(self.idx));
 
@@ -1230,7 +1299,7 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Leaf>, marker::KV>
             (*self.node.as_leaf_mut()).len = self.idx as u16;
             new_node.len = new_len as u16;
 
-            Ok((
+            (
                 self.node,
                 k,
                 v,
@@ -1238,7 +1307,7 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Leaf>, marker::KV>
                     node: BoxedNode::from_leaf(new_node),
                     height: 0,
                 },
-            ))
+            )
         }
     }
 
@@ -1268,21 +1337,17 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Internal>, marker::
     ///   right of this handle.
     /// - The key and value pointed to by this handle and extracted.
     /// - All the edges and key/value pairs to the right of this handle are put into
-    ///   a newly allocated node.
+    ///   `new_node`.
     pub fn split(
         mut self,
-    ) -> Result<
-        (
-            NodeRef<marker::Mut<'a>, K, V, marker::Internal>,
-            K,
-            V,
-            Root<K, V>,
-        ),
-        TryReserveError,
-    > {
+        mut new_node: Box<InternalNode<K, V>>,
+    ) -> (
+        NodeRef<marker::Mut<'a>, K, V, marker::Internal>,
+        K,
+        V,
+        Root<K, V>,
+    ) {
         unsafe {
-            let mut new_node = <Box<_> as FallibleBox<_>>::try_new(InternalNode::new())?;
-
             let k = ptr::read(self.node.keys().get_unchecked(self.idx));
             let v = ptr::read(self.node.vals().get_unchecked(self.idx));
 
@@ -1317,7 +1382,7 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Internal>, marker::
                 Handle::new_edge(new_root.as_mut().cast_unchecked(), i).correct_parent_link();
             }
 
-            Ok((self.node, k, v, new_root))
+            (self.node, k, v, new_root)
         }
     }
 
-- 
2.43.0


From 82e64bbd6d0deba72a34876c1c577b27ce179971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:15 +0000
Subject: [PATCH 4/7] fix: a comparison that panics during append no longer
 leaves a malformed map behind

---
 src/btree/map.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/btree/map.rs b/src/btree/map.rs
index 106d959..286a944 100644
--- a/src/btree/map.rs
+++ b/src/btree/map.rs
@@ -848,8 +848,11 @@ impl<K: Ord, V> BTreeMap<K, V> {
         };
 
         // Second, we build a tree from the sorted sequence in linear time.
-        self.from_sorted_iter(iter);
-        self.fix_right_edge();
+        // It only takes the place of `self` when it is complete: a comparison may panic.
+        let mut merged = BTreeMap::new();
+        merged.from_sorted_iter(iter);
+        merged.fix_right_edge();
+        *self = merged;
     }
 
     /// Constructs a double-ended iterator over a sub-range of elements in the map.
-- 
2.43.0


From 7a10541300f29613895250c260207ab2a9d54b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:32 +0000
Subject: [PATCH 5/7] fix: a comparison that panics during split_off no longer
 leaves the map with a wrong length

---
 src/btree/map.rs  | 27 +++++++++++++++++++++------
 src/btree/node.rs |  5 +++++
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/btree/map.rs b/src/btree/map.rs
index 286a944..46b8dfc 100644
--- a/src/btree/map.rs
+++ b/src/btree/map.rs
@@ -1,4 +1,6 @@
+use crate::vec::FallibleVec;
 use crate::TryReserveError;
+use alloc::vec::Vec;
 use core::borrow::Borrow;
 use core::cmp::Ordering;
 use core::fmt::Debug;
@@ -1094,6 +1096,23 @@ impl<K: Ord, V> BTreeMap<K, V> {
 
         let total_num = self.len();
 
+        // Find every edge to split at before moving anything: a comparison may panic.
+        let mut path: Vec<usize> =
+            FallibleVec::try_with_capacity(self.root.as_ref().height() + 1)?;
+        let mut node = self.root.as_ref();
+        loop {
+            let edge = match search::search_node(node, key) {
+                // key is going to the right tree
+                Found(handle) => handle.left_edge(),
+                GoDown(handle) => handle,
+            };
+            path.push(edge.idx());
+            match edge.force() {
+                Internal(edge) => node = edge.descend(),
+                Leaf(_) => break,
+            }
+        }
+
         let mut right = Self::new();
         right.root = node::Root::new_leaf()?;
         for _ in 0..(self.root.as_ref().height()) {
@@ -1104,12 +1123,8 @@ impl<K: Ord, V> BTreeMap<K, V> {
             let mut left_node = self.root.as_mut();
             let mut right_node = right.root.as_mut();
 
-            loop {
-                let mut split_edge = match search::search_node(left_node, key) {
-                    // key is going to the right tree
-                    Found(handle) => handle.left_edge(),
-                    GoDown(handle) => handle,
-                };
+            for idx in path {
+                let mut split_edge = Handle::new_edge(left_node, idx);
 
                 split_edge.move_suffix(&mut right_node);
 
diff --git a/src/btree/node.rs b/src/btree/node.rs
index 2092957..98394a2 100644
--- a/src/btree/node.rs
+++ b/src/btree/node.rs
@@ -966,6 +966,11 @@ impl<Node: Copy, Type> Clone for Handle<Node, Type> {
 }
 
 impl<Node, Type> Handle<Node, Type> {
+    /// Retrieves the position of this handle in its node
+    pub fn idx(&self) -> usize {
+        self.idx
+    }
+
     /// Retrieves the node that contains the edge of key/value pair this handle points to.
     pub fn into_node(self) -> Node {
         self.node
-- 
2.43.0


From 465ae59c81861674fcc905298f3e3f6ae58f517e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:01 +0000
Subject: [PATCH 6/7] fix: reporting a refused allocation while reading or
 writing bytes no longer allocates (and aborts)

---
 src/vec.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index 8c76918..e18bb36 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -256,9 +256,9 @@ pub mod std_io {
     ) -> io::Result<usize> {
         let additional = limit
             .try_into()
-            .map_err(|e| io::Error::new(io::ErrorKind::Other, e))?;
+            .map_err(|_| io::Error::from(io::ErrorKind::OutOfMemory))?;
         buf.reserve(additional)
-            .map_err(|_| io::Error::new(io::ErrorKind::Other, "reserve allocation failed"))?;
+            .map_err(|_| io::Error::from(io::ErrorKind::OutOfMemory))?;
         let bytes_read = src.take(limit).read_to_end(&mut buf.inner)?;
         Ok(bytes_read)
     }
@@ -266,7 +266,7 @@ pub mod std_io {
     impl Write for TryVec<u8> {
         fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
             self.extend_from_slice(buf)
-                .map_err(|_| io::Error::new(io::ErrorKind::Other, "extend_from_slice failed"))?;
+                .map_err(|_| io::Error::from(io::ErrorKind::OutOfMemory))?;
             Ok(buf.len())
         }
 
-- 
2.43.0


From 72bd3fadbb17fd81b9b429fc90b32402d6fead74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:35 +0000
Subject: [PATCH 7/7] fix: report an unrepresentable total length in
 TryVec::concat as an error

---
 src/vec.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/vec.rs b/src/vec.rs
index e18bb36..a0e612e 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -175,7 +175,14 @@ impl<T: TryClone> TryClone for TryVec<T> {
 
 impl<T: TryClone> TryVec<TryVec<T>> {
     pub fn concat(&self) -> Result<TryVec<T>, TryReserveError> {
-        let size = self.iter().map(|v| v.inner.len()).sum();
+        let mut size: usize = 0;
+        for v in self.iter() {
+            size = match size.checked_add(v.inner.len()) {
+                Some(size) => size,
+                // more than any vector can hold, this will always overflow capacity
+                None => return Err(Vec::<u8>::new().try_reserve(!0).unwrap_err()),
+            };
+        }
         let mut result = TryVec::with_capacity(size)?;
         for v in self.iter() {
             result.inner.try_extend_from_slice_no_copy(&v.inner)?;
-- 
2.43.0

