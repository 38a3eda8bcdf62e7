From b9ae4cbee548d222c3f4a77d5a7b6b97e3caae74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:00 +0000
Subject: [PATCH 01/12] fix: keep sets and maps ordered when a retain predicate
 panics

---
 src/vec_map.rs |  4 ++--
 src/vec_set.rs | 39 +++++++++++++++++++++++++++++++++++++--
 2 files changed, 39 insertions(+), 4 deletions(-)

diff --git a/src/vec_map.rs b/src/vec_map.rs
index 30a861c..2a981f6 100644
--- a/src/vec_map.rs
+++ b/src/vec_map.rs
@@ -640,8 +640,8 @@ impl<A: Array> VecMap<A> {
     }
 
     /// retain all pairs matching a predicate
-    pub fn retain<F: FnMut(&A::Item) -> bool>(&mut self, mut f: F) {
-        self.0.retain(|entry| f(entry))
+    pub fn retain<F: FnMut(&A::Item) -> bool>(&mut self, f: F) {
+        crate::vec_set::retain_in_order(&mut self.0, f)
     }
 
     #[cfg(feature = "total")]
diff --git a/src/vec_set.rs b/src/vec_set.rs
index 7dc66e0..5888dc5 100644
--- a/src/vec_set.rs
+++ b/src/vec_set.rs
@@ -295,6 +295,41 @@ impl<A: Array> VecSet<A> {
     }
 }
 
+/// Like [SmallVec::retain], but keeps the order of the elements even if the predicate panics.
+pub(crate) fn retain_in_order<A: Array>(
+    vec: &mut SmallVec<A>,
+    mut f: impl FnMut(&A::Item) -> bool,
+) {
+    struct CloseGap<'a, A: Array> {
+        vec: &'a mut SmallVec<A>,
+        pos: usize,
+        del: usize,
+    }
+    impl<'a, A: Array> Drop for CloseGap<'a, A> {
+        fn drop(&mut self) {
+            let len = self.vec.len();
+            // nothing to move unless the predicate panicked
+            for i in self.pos..len {
+                self.vec.swap(i - self.del, i);
+            }
+            self.vec.truncate(len - self.del);
+        }
+    }
+    let mut state = CloseGap {
+        vec,
+        pos: 0,
+        del: 0,
+    };
+    while state.pos < state.vec.len() {
+        if !f(&state.vec[state.pos]) {
+            state.del += 1;
+        } else if state.del > 0 {
+            state.vec.swap(state.pos - state.del, state.pos);
+        }
+        state.pos += 1;
+    }
+}
+
 impl<A: Array> VecSet<A>
 where
     A::Item: Ord,
@@ -330,8 +365,8 @@ where
     }
 
     /// Retain all elements matching a predicate.
-    pub fn retain<F: FnMut(&A::Item) -> bool>(&mut self, mut f: F) {
-        self.0.retain(|entry| f(entry))
+    pub fn retain<F: FnMut(&A::Item) -> bool>(&mut self, f: F) {
+        retain_in_order(&mut self.0, f)
     }
 
     /// creates a set from a vec.
-- 
2.43.0


From 9569edbc226db625f06c8548bb9f9d76603afaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:21 +0000
Subject: [PATCH 02/12] fix: union_with and xor_with of VecSet take new
 elements from the operand

---
 src/vec_set.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/vec_set.rs b/src/vec_set.rs
index 5888dc5..9fcdd0e 100644
--- a/src/vec_set.rs
+++ b/src/vec_set.rs
@@ -789,7 +789,12 @@ where
     }
 
     pub fn union_with(&mut self, that: &impl AbstractVecSet<A::Item>) {
-        InPlaceSmallVecMergeStateRef::merge(&mut self.0, &that.as_slice(), SetUnionOp, NoConverter);
+        InPlaceSmallVecMergeStateRef::merge(
+            &mut self.0,
+            &that.as_slice(),
+            SetUnionOp,
+            CloneConverter,
+        );
     }
 
     pub fn intersection_with(&mut self, that: &impl AbstractVecSet<A::Item>) {
@@ -805,8 +810,8 @@ where
         InPlaceSmallVecMergeStateRef::merge(
             &mut self.0,
             &that.as_slice(),
-            SetIntersectionOp,
-            NoConverter,
+            SetXorOp,
+            CloneConverter,
         );
     }
 
-- 
2.43.0


From a92ff7cd9ed12c684511b3d8805a0e013b9d9399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:21 +0000
Subject: [PATCH 03/12] fix: TotalVecSet::is_superset is the converse of
 is_subset

---
 src/total_vec_set.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/total_vec_set.rs b/src/total_vec_set.rs
index d88680b..7352348 100644
--- a/src/total_vec_set.rs
+++ b/src/total_vec_set.rs
@@ -138,7 +138,7 @@ impl<T: Ord, A: Array<Item = T>> TotalVecSet<A> {
     }
 
     pub fn is_superset(&self, that: &Self) -> bool {
-        !self.is_subset(that)
+        that.is_subset(self)
     }
 
     pub fn is_subset(&self, that: &Self) -> bool {
-- 
2.43.0


From 8f8c2940c3e73a13ffc5ebe6a3ad76e684739bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:07 +0000
Subject: [PATCH 04/12] fix: right_join_with of BTreeMap drops keys that are
 not in the right map

---
 src/btree_map.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/btree_map.rs b/src/btree_map.rs
index b315666..c423ce9 100644
--- a/src/btree_map.rs
+++ b/src/btree_map.rs
@@ -195,6 +195,8 @@ impl<K, V> InPlaceRelationalOps<K, V> for BTreeMap<K, V> {
                 self.remove(k);
             }
         }
+        // k not in that
+        self.retain(|k, _| that.get(k).is_some());
     }
 
     fn outer_join_with<W, L, R>(&mut self, that: &impl AbstractBTreeMap<K, W>, l: L, r: R)
-- 
2.43.0


From 72d1cf9e904ea843fa49c30bda42cd475258fcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:24 +0000
Subject: [PATCH 05/12] fix: equality of TotalVecMap takes the default value
 into account

---
 src/total_vec_map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/total_vec_map.rs b/src/total_vec_map.rs
index c628a79..663a25a 100644
--- a/src/total_vec_map.rs
+++ b/src/total_vec_map.rs
@@ -66,7 +66,7 @@ impl<K: Hash, V: Hash, A: Array<Item = (K, V)>> Hash for TotalVecMap<V, A> {
 
 impl<K: PartialEq, V: PartialEq, A: Array<Item = (K, V)>> PartialEq for TotalVecMap<V, A> {
     fn eq(&self, other: &Self) -> bool {
-        self.0 == other.0
+        self.0 == other.0 && self.1 == other.1
     }
 }
 
-- 
2.43.0


From 2a9f9141317feb9529d7fc8745f388ef6d630dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:23 +0000
Subject: [PATCH 06/12] fix: decoding does not allocate for an announced length
 that is not backed by data

---
 src/vec_map.rs | 3 ++-
 src/vec_set.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vec_map.rs b/src/vec_map.rs
index 2a981f6..58047d1 100644
--- a/src/vec_map.rs
+++ b/src/vec_map.rs
@@ -815,7 +815,8 @@ where
     }
 
     fn visit_map<M: MapAccess<'de>>(self, mut map: M) -> Result<Self::Value, M::Error> {
-        let len = map.size_hint().unwrap_or(0);
+        // the length is just a claim of the input, so don't trust it with memory
+        let len = map.size_hint().unwrap_or(0).min(4096);
         let mut values: SmallVec<A> = SmallVec::with_capacity(len);
 
         while let Some(value) = map.next_entry::<K, V>()? {
diff --git a/src/vec_set.rs b/src/vec_set.rs
index 9fcdd0e..5c484a0 100644
--- a/src/vec_set.rs
+++ b/src/vec_set.rs
@@ -646,7 +646,8 @@ where
     where
         B: SeqAccess<'de>,
     {
-        let len = seq.size_hint().unwrap_or(0);
+        // the length is just a claim of the input, so don't trust it with memory
+        let len = seq.size_hint().unwrap_or(0).min(4096);
         let mut values = SmallVec::with_capacity(len);
 
         while let Some(value) = seq.next_element()? {
-- 
2.43.0


From a1a84b9109024c94d71e4ab020aca232831a8afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:58 +0000
Subject: [PATCH 07/12] fix: a radix tree emptied by an interrupted operation
 behaves as empty

An operation whose combining function or value clone panics can leave an empty
tree that still has a prefix. is_subset took the prefix for contents, and split
turned it into an empty child, so that is_empty became false.
---
 src/radix_tree/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/radix_tree/mod.rs b/src/radix_tree/mod.rs
index ad907b3..05c6558 100644
--- a/src/radix_tree/mod.rs
+++ b/src/radix_tree/mod.rs
@@ -131,6 +131,11 @@ pub(crate) mod internals {
         fn split(&mut self, n: usize) {
             assert!(n < self.prefix().len());
             let first = self.prefix()[..n].into();
+            if self.is_empty() {
+                // there is nothing to put below the split
+                *self.prefix_mut() = first;
+                return;
+            }
             let rest = self.prefix()[n..].into();
             let mut split = Self::new(first, None, Vec::new());
             std::mem::swap(self, &mut split);
@@ -955,7 +960,8 @@ fn is_subset<K: TKey, V: TValue, W: TValue>(
     l: &impl AbstractRadixTree<K, V>,
     r: &impl AbstractRadixTree<K, W>,
 ) -> bool {
-    is_subset0(l, l.prefix(), r, r.prefix())
+    // an operation interrupted by a panic can leave an empty tree with a non empty prefix
+    l.is_empty() || is_subset0(l, l.prefix(), r, r.prefix())
 }
 
 fn is_subset0<K: TKey, V: TValue, W: TValue>(
-- 
2.43.0


From a203b55b99dac079f9ffa3dc2cd6c2393a381093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:28 +0000
Subject: [PATCH 08/12] fix: validate the children of an archived radix tree
 before looking at them

---
 src/radix_tree/arc_radix_tree.rs  | 6 +++---
 src/radix_tree/flat_radix_tree.rs | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/radix_tree/arc_radix_tree.rs b/src/radix_tree/arc_radix_tree.rs
index 5b1b476..3be1519 100644
--- a/src/radix_tree/arc_radix_tree.rs
+++ b/src/radix_tree/arc_radix_tree.rs
@@ -297,6 +297,9 @@ mod validation_support {
             CheckBytes::check_bytes(prefix, context).map_err(|_| ArchivedRadixTreeError::Prefix)?;
             // check the value, if present
             CheckBytes::check_bytes(value, context).map_err(|_| ArchivedRadixTreeError::Value)?;
+            // recursively check the children, before looking at them below
+            CheckBytes::check_bytes(children, context)
+                .map_err(|e| ArchivedRadixTreeError::Children(e.to_string()))?;
             // check that the prefix of all children is of non zero length
             if !children.iter().all(|child| !child.prefix.is_empty()) {
                 return Err(ArchivedRadixTreeError::Children(
@@ -311,9 +314,6 @@ mod validation_support {
             {
                 return Err(ArchivedRadixTreeError::Order);
             };
-            // recursively check the children
-            CheckBytes::check_bytes(children, context)
-                .map_err(|e| ArchivedRadixTreeError::Children(e.to_string()))?;
 
             Ok(&*this)
         }
diff --git a/src/radix_tree/flat_radix_tree.rs b/src/radix_tree/flat_radix_tree.rs
index c57c33b..e6f0715 100644
--- a/src/radix_tree/flat_radix_tree.rs
+++ b/src/radix_tree/flat_radix_tree.rs
@@ -247,6 +247,9 @@ mod rkyv_support {
                 // check the value, if present
                 CheckBytes::check_bytes(value, context)
                     .map_err(|_| ArchivedRadixTreeError::Value)?;
+                // recursively check the children, before looking at them below
+                CheckBytes::check_bytes(children, context)
+                    .map_err(|_| ArchivedRadixTreeError::Children)?;
                 // check that the prefix of all children is of non zero length
                 if !children.iter().all(|child| !child.prefix.is_empty()) {
                     return Err(ArchivedRadixTreeError::Children);
@@ -259,9 +262,6 @@ mod rkyv_support {
                 {
                     return Err(ArchivedRadixTreeError::Order);
                 };
-                // recursively check the children
-                CheckBytes::check_bytes(children, context)
-                    .map_err(|_| ArchivedRadixTreeError::Children)?;
 
                 Ok(&*this)
             }
-- 
2.43.0


From e15a9618d566a399e3bf61f9d97ca75893971174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:35 +0000
Subject: [PATCH 09/12] fix: validation of archived arc radix trees rejects
 cycles

---
 src/radix_tree/arc_radix_tree.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/radix_tree/arc_radix_tree.rs b/src/radix_tree/arc_radix_tree.rs
index 3be1519..fa78d93 100644
--- a/src/radix_tree/arc_radix_tree.rs
+++ b/src/radix_tree/arc_radix_tree.rs
@@ -300,6 +300,14 @@ mod validation_support {
             // recursively check the children, before looking at them below
             CheckBytes::check_bytes(children, context)
                 .map_err(|e| ArchivedRadixTreeError::Children(e.to_string()))?;
+            // children are always archived before their parent. Insist on it, so that there can't
+            // be cycles. A cycle would pass the check above, since shared pointers that are already
+            // being checked are not checked again.
+            if &**children as *const _ as usize >= this as usize {
+                return Err(ArchivedRadixTreeError::Children(
+                    "children not before parent".into(),
+                ));
+            }
             // check that the prefix of all children is of non zero length
             if !children.iter().all(|child| !child.prefix.is_empty()) {
                 return Err(ArchivedRadixTreeError::Children(
-- 
2.43.0


From 9646c381a57322c20db8a5771c7fdab2d6d9f968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:06 +0000
Subject: [PATCH 10/12] fix: opening a lazy radix tree over an archive loads
 only the root

---
 src/radix_tree/lazy_radix_tree.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/radix_tree/lazy_radix_tree.rs b/src/radix_tree/lazy_radix_tree.rs
index e926f17..6e91c17 100644
--- a/src/radix_tree/lazy_radix_tree.rs
+++ b/src/radix_tree/lazy_radix_tree.rs
@@ -125,12 +125,10 @@ impl<'a, K: TKey + Archive<Archived = K>, V: TValue + Archive<Archived = V>>
     From<&'a ArchivedLazyRadixTree<K, V>> for LazyRadixTree<'a, K, V>
 {
     fn from(value: &'a ArchivedLazyRadixTree<K, V>) -> Self {
-        let children = value.children().iter().map(Self::from).collect::<Vec<_>>();
-        let children = Lazy::initialized(Arc::new(children));
         LazyRadixTree {
             prefix: value.prefix().into(),
             value: value.value().cloned(),
-            children,
+            children: Lazy::uninitialized(value.children.as_ref()),
         }
     }
 }
-- 
2.43.0


From 77131fac5a0edc7213455ff36469eef99dc50bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:49 +0000
Subject: [PATCH 11/12] fix: items of an owning radix tree iterator no longer
 refer into the tree

into_iter yielded &'static V, so that safe code could keep the reference
after the iterator (and with it the tree) was gone. Yield clones instead.
---
 src/radix_tree/mod.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/radix_tree/mod.rs b/src/radix_tree/mod.rs
index 05c6558..d06ac39 100644
--- a/src/radix_tree/mod.rs
+++ b/src/radix_tree/mod.rs
@@ -1922,10 +1922,13 @@ impl<K: 'static, V> ObjAndIter<K, V> {
     }
 }
 
-impl<K: 'static, V: Iterator> Iterator for ObjAndIter<K, V> {
-    type Item = V::Item;
+impl<K: 'static, A, B: Clone + 'static, V: Iterator<Item = (A, &'static B)>> Iterator
+    for ObjAndIter<K, V>
+{
+    type Item = (A, B);
 
     fn next(&mut self) -> Option<Self::Item> {
-        self.v.next()
+        // items can outlive the object, so they must not contain references into it
+        self.v.next().map(|(a, b)| (a, b.clone()))
     }
 }
-- 
2.43.0


From a02f32fc9e5ef824778215a024ff38013fffe1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:17 +0000
Subject: [PATCH 12/12] fix: arc radix trees of different types can be in one
 archive

The empty child vec was one object for all types. In an archive it therefore
was one shared value claimed as two types, which validation rejects.
---
 src/radix_tree/arc_radix_tree.rs | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/radix_tree/arc_radix_tree.rs b/src/radix_tree/arc_radix_tree.rs
index fa78d93..f56e9c3 100644
--- a/src/radix_tree/arc_radix_tree.rs
+++ b/src/radix_tree/arc_radix_tree.rs
@@ -1,6 +1,7 @@
 use std::{
+    any::{Any, TypeId},
     collections::BTreeMap,
-    sync::{Arc, LazyLock},
+    sync::{Arc, RwLock},
 };
 
 use internals::{AbstractRadixTreeMut as _, Fragment};
@@ -13,14 +14,29 @@ use rkyv::{
 
 use super::{internals, location, offset_from, AbstractRadixTree, RadixTree, TKey, TValue};
 
-static EMPTY_ARC_VEC: LazyLock<Arc<Vec<u128>>> = LazyLock::new(|| Arc::new(Vec::new()));
-
-fn empty_arc<T>() -> Arc<Vec<T>> {
-    // TODO: this seems to work, but is strictly speaking ub. Get rid of the unsafe
-    unsafe { std::mem::transmute(EMPTY_ARC_VEC.clone()) }
+/// The shared empty vec for each element type.
+///
+/// This can't be a single vec that is used for all types, since an archive identifies shared
+/// values by their location, and does not allow values of different types at the same location.
+static EMPTY_ARC_VECS: RwLock<BTreeMap<TypeId, Box<dyn Any + Send + Sync>>> =
+    RwLock::new(BTreeMap::new());
+
+fn empty_arc<T: Send + Sync + 'static>() -> Arc<Vec<T>> {
+    fn get<T: 'static>(empty: &dyn Any) -> Arc<Vec<T>> {
+        empty.downcast_ref::<Arc<Vec<T>>>().unwrap().clone()
+    }
+    let id = TypeId::of::<T>();
+    if let Some(empty) = EMPTY_ARC_VECS.read().unwrap().get(&id) {
+        return get(empty.as_ref());
+    }
+    let mut empties = EMPTY_ARC_VECS.write().unwrap();
+    let empty = empties
+        .entry(id)
+        .or_insert_with(|| Box::new(Arc::new(Vec::<T>::new())));
+    get(empty.as_ref())
 }
 
-fn wrap_in_arc<T>(data: Vec<T>) -> Arc<Vec<T>> {
+fn wrap_in_arc<T: Send + Sync + 'static>(data: Vec<T>) -> Arc<Vec<T>> {
     if data.is_empty() {
         empty_arc()
     } else {
-- 
2.43.0

