From 25b78f215dd624d64a4e8000fcc392e62d6844f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:48 +0000
Subject: [PATCH 01/26] fix: validate proofs with the height each node was
 hashed at

Proof::validate passed the lemma offset as the height, which is the height
of the node only for arity 2, and compound layers were validated at height 0
although from_trees and from_sub_trees hash them at height 1. Proofs of trees
whose Algorithm uses the height did not validate.
---
 src/proof.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/proof.rs b/src/proof.rs
index 2a56d9a..39bbf9a 100644
--- a/src/proof.rs
+++ b/src/proof.rs
@@ -119,7 +119,8 @@ impl<T: Eq + Clone + AsRef<[u8]>, BaseTreeArity: Unsigned> Proof<T, BaseTreeArit
                 return Ok(false);
             }
 
-            a.multi_node(&nodes, 0)
+            // compound layers are hashed at height 1 when the tree is built
+            a.multi_node(&nodes, 1)
         };
 
         Ok(h == self.root())
@@ -186,8 +187,10 @@ impl<T: Eq + Clone + AsRef<[u8]>, BaseTreeArity: Unsigned> Proof<T, BaseTreeArit
                     return Ok(false);
                 }
 
+                // the height at which this node was hashed when the tree was built
+                let height = path_index - 1;
                 path_index += 1;
-                a.multi_node(&nodes, i - 1)
+                a.multi_node(&nodes, height)
             };
         }
 
-- 
2.43.0


From 5f7429ec64df8f2a338eff7e97590cfc44ef9204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:48 +0000
Subject: [PATCH 02/26] fix: Proof::item of a compound proof is the leaf

It returned the first sibling root of the outermost layer, so that
validate_with_data rejected every compound proof.
---
 src/proof.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/proof.rs b/src/proof.rs
index 39bbf9a..7ddb329 100644
--- a/src/proof.rs
+++ b/src/proof.rs
@@ -60,6 +60,12 @@ impl<T: Eq + Clone + AsRef<[u8]>, BaseTreeArity: Unsigned> Proof<T, BaseTreeArit
 
     /// Return proof target leaf
     pub fn item(&self) -> T {
+        // A compound layer's lemma only has the roots of the layer below,
+        // the leaf is in the base layer proof.
+        if let Some(sub_tree_proof) = &self.sub_tree_proof {
+            return sub_tree_proof.item();
+        }
+
         self.lemma
             .first()
             .expect("[item] requested element is empty")
-- 
2.43.0


From 5e25378868589a26ea70fe6a6981f0b756ca8fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:18 +0000
Subject: [PATCH 03/26] fix: LevelCacheStore refuses ranges that touch
 discarded rows

The bounds check let a read start at the first discarded element and let a
range run from the base layer into the discarded rows; both returned
unrelated cached or external data instead of an error.
---
 src/store/level_cache.rs | 46 +++++++++++++++++++---------------------
 1 file changed, 22 insertions(+), 24 deletions(-)

diff --git a/src/store/level_cache.rs b/src/store/level_cache.rs
index 8275fef..d159962 100644
--- a/src/store/level_cache.rs
+++ b/src/store/level_cache.rs
@@ -351,10 +351,7 @@ impl<E: Element, R: Read + Send + Sync> Store<E> for LevelCacheStore<E, R> {
         let len = self.len * self.elem_len;
         ensure!(start < len, "start out of range {} >= {}", start, len);
         ensure!(end <= len, "end out of range {} > {}", end, len);
-        ensure!(
-            start <= self.data_width * self.elem_len || start >= self.cache_index_start,
-            "out of bounds"
-        );
+        self.ensure_available(start, end)?;
 
         Ok(E::from_slice(&self.store_read_range(start, end)?))
     }
@@ -366,10 +363,7 @@ impl<E: Element, R: Read + Send + Sync> Store<E> for LevelCacheStore<E, R> {
         let len = self.len * self.elem_len;
         ensure!(start < len, "start out of range {} >= {}", start, len);
         ensure!(end <= len, "end out of range {} > {}", end, len);
-        ensure!(
-            start <= self.data_width * self.elem_len || start >= self.cache_index_start,
-            "out of bounds"
-        );
+        self.ensure_available(start, end)?;
 
         self.store_read_into(start, end, buf)
     }
@@ -381,10 +375,7 @@ impl<E: Element, R: Read + Send + Sync> Store<E> for LevelCacheStore<E, R> {
         let len = self.len * self.elem_len;
         ensure!(start < len, "start out of range {} >= {}", start, len);
         ensure!(end <= len, "end out of range {} > {}", end, len);
-        ensure!(
-            start <= self.data_width * self.elem_len || start >= self.cache_index_start,
-            "out of bounds"
-        );
+        self.ensure_available(start, end)?;
 
         self.store_read_into(start, end, buf)
     }
@@ -396,10 +387,7 @@ impl<E: Element, R: Read + Send + Sync> Store<E> for LevelCacheStore<E, R> {
         let len = self.len * self.elem_len;
         ensure!(start < len, "start out of range {} >= {}", start, len);
         ensure!(end <= len, "end out of range {} > {}", end, len);
-        ensure!(
-            start <= self.data_width * self.elem_len || start >= self.cache_index_start,
-            "out of bounds"
-        );
+        self.ensure_available(start, end)?;
 
         Ok(self
             .store_read_range(start, end)?
@@ -703,15 +691,28 @@ impl<E: Element, R: Read + Send + Sync> LevelCacheStore<E, R> {
         Ok(store_size == cache_size)
     }
 
+    // The byte range must not touch the discarded rows: it has to be
+    // either within the base layer or within the cached rows. Only
+    // with the base layer in the same file (v1) and no discarded rows
+    // are the two contiguous.
+    fn ensure_available(&self, start: usize, end: usize) -> Result<()> {
+        let base_end = self.data_width * self.elem_len;
+        ensure!(
+            end <= base_end
+                || start >= self.cache_index_start
+                || (self.reader.is_none() && base_end >= self.cache_index_start),
+            "out of bounds"
+        );
+
+        Ok(())
+    }
+
     pub fn store_read_range(&self, start: usize, end: usize) -> Result<Vec<u8>> {
         let read_len = end - start;
         let mut read_data = vec![0; read_len];
         let mut adjusted_start = start;
 
-        ensure!(
-            start <= self.data_width * self.elem_len || start >= self.cache_index_start,
-            "out of bounds"
-        );
+        self.ensure_available(start, end)?;
 
         // If an external reader was specified for the base layer, use it.
         if start < self.data_width * self.elem_len && self.reader.is_some() {
@@ -810,10 +811,7 @@ impl<E: Element, R: Read + Send + Sync> LevelCacheStore<E, R> {
     }
 
     pub fn store_read_into(&self, start: usize, end: usize, buf: &mut [u8]) -> Result<()> {
-        ensure!(
-            start <= self.data_width * self.elem_len || start >= self.cache_index_start,
-            "Invalid read start"
-        );
+        self.ensure_available(start, end)?;
 
         // If an external reader was specified for the base layer, use it.
         if start < self.data_width * self.elem_len && self.reader.is_some() {
-- 
2.43.0


From cf1f539851f46549e1f1fb7c58a41ca505315495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:56 +0000
Subject: [PATCH 04/26] fix: out of range leaf index of a compound tree is an
 error

gen_proof and read_at indexed past the list of sub-trees and panicked.
---
 src/merkle.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/merkle.rs b/src/merkle.rs
index ba17492..5aae702 100644
--- a/src/merkle.rs
+++ b/src/merkle.rs
@@ -866,6 +866,12 @@ impl<
         arity: usize,
     ) -> Result<Proof<E, BaseTreeArity>> {
         ensure!(arity != 0, "Invalid sub-tree arity");
+        ensure!(
+            i < self.leafs,
+            "{} is out of bounds (max: {})",
+            i,
+            self.leafs
+        ); // i in [0 .. self.leafs)
 
         // Locate the sub-tree the leaf is contained in.
         let tree_index = i / (self.leafs / arity);
@@ -1437,6 +1443,12 @@ impl<
                     TopTreeArity::to_usize() == sub_trees.len(),
                     "Top layer tree shape mis-match"
                 );
+                ensure!(
+                    i < self.leafs,
+                    "{} is out of bounds (max: {})",
+                    i,
+                    self.leafs
+                ); // i in [0 .. self.leafs)
                 let tree_index = i / (self.leafs / TopTreeArity::to_usize());
                 let tree = &sub_trees[tree_index];
                 let tree_leafs = tree.leafs();
@@ -1452,6 +1464,12 @@ impl<
                     SubTreeArity::to_usize() == base_trees.len(),
                     "Sub-tree shape mis-match"
                 );
+                ensure!(
+                    i < self.leafs,
+                    "{} is out of bounds (max: {})",
+                    i,
+                    self.leafs
+                ); // i in [0 .. self.leafs)
                 let tree_index = i / (self.leafs / SubTreeArity::to_usize());
                 let tree = &base_trees[tree_index];
                 let tree_leafs = tree.leafs();
-- 
2.43.0


From 65271e43ee65b5542b4dd0b7fba32e7ccc64aafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:56 +0000
Subject: [PATCH 05/26] fix: return errors from populating and allocating
 stores

try_from_iter_with_config panicked on an error yielded by the iterator, which
it documents to return, and from_par_iter on a store that cannot be created.
---
 src/merkle.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/merkle.rs b/src/merkle.rs
index 5aae702..fff73b4 100644
--- a/src/merkle.rs
+++ b/src/merkle.rs
@@ -1645,7 +1645,7 @@ impl<
         let size = get_merkle_tree_len(leafs, branches)?;
         let row_count = get_merkle_tree_row_count(leafs, branches);
 
-        let mut data = S::new(size).expect("failed to create data store");
+        let mut data = S::new(size).context("failed to create data store")?;
 
         populate_data_par::<E, A, S, BaseTreeArity, _>(&mut data, iter)?;
         let root = S::build::<A, BaseTreeArity>(&mut data, leafs, row_count, None)?;
@@ -1817,7 +1817,7 @@ impl<
         }
 
         populate_data::<E, A, S, BaseTreeArity, I>(&mut data, iter)
-            .expect("failed to populate data");
+            .context("failed to populate data")?;
         let root = S::build::<A, BaseTreeArity>(&mut data, leafs, row_count, Some(config))?;
 
         Ok(MerkleTree {
-- 
2.43.0


From 5c9cd18bf57e84905c08333a2016da98c0505846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:56 +0000
Subject: [PATCH 06/26] fix: get_merkle_tree_leafs rejects even lengths for
 arity 2

0, 2, 6, 14, ... are not lengths of a binary tree.
---
 src/merkle.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/merkle.rs b/src/merkle.rs
index fff73b4..bc68b08 100644
--- a/src/merkle.rs
+++ b/src/merkle.rs
@@ -1987,6 +1987,10 @@ pub fn get_merkle_tree_leafs(len: usize, branches: usize) -> Result<usize> {
     let leafs = {
         // Optimization:
         if branches == 2 {
+            ensure!(
+                len % 2 == 1,
+                "Invalid tree length provided for the specified arity"
+            );
             (len >> 1) + 1
         } else {
             let mut leafs = 1;
-- 
2.43.0


From c01c36823186620d6b7b56c450fae2f47c7168f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:56 +0000
Subject: [PATCH 07/26] fix: gen_cached_proof honours rows_to_discard above the
 default

It was clamped to the default, so that no proof could be generated from a
store that legally discards more rows than that.
---
 src/merkle.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/merkle.rs b/src/merkle.rs
index bc68b08..a389d16 100644
--- a/src/merkle.rs
+++ b/src/merkle.rs
@@ -1144,10 +1144,11 @@ impl<
                 // primarily affects tests because it only affects 'small' trees, entirely outside the
                 // scope of any 'production' tree width.
                 let rows_to_discard = if let Some(rows) = rows_to_discard {
-                    std::cmp::min(
-                        rows,
-                        StoreConfig::default_rows_to_discard(self.leafs, branches),
-                    )
+                    if rows + 1 < self.row_count {
+                        rows
+                    } else {
+                        StoreConfig::default_rows_to_discard(self.leafs, branches)
+                    }
                 } else {
                     StoreConfig::default_rows_to_discard(self.leafs, branches)
                 };
-- 
2.43.0


From b2432dd71b6488f8a377f9f052d96799bd7dc17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:56 +0000
Subject: [PATCH 08/26] fix: a compound tree is not empty

---
 src/merkle.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/merkle.rs b/src/merkle.rs
index a389d16..52bdecd 100644
--- a/src/merkle.rs
+++ b/src/merkle.rs
@@ -1406,8 +1406,8 @@ impl<
     #[inline]
     pub fn is_empty(&self) -> bool {
         match &self.data {
-            Data::TopTree(_) => true,
-            Data::SubTree(_) => true,
+            Data::TopTree(sub_trees) => sub_trees.is_empty(),
+            Data::SubTree(base_trees) => base_trees.is_empty(),
             Data::BaseTree(store) => store.is_empty(),
         }
     }
-- 
2.43.0


From d8425715fc55ae9f4b9244bb8cdca47bad04d7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:56 +0000
Subject: [PATCH 09/26] fix: writing past the end of an MmapStore is an error

It panicked, for instance while building a tree over a number of leaves that
is not a power of the arity, where the other stores report an error.
---
 src/store/mmap.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/store/mmap.rs b/src/store/mmap.rs
index b2abbd3..c92f0b1 100644
--- a/src/store/mmap.rs
+++ b/src/store/mmap.rs
@@ -119,8 +119,14 @@ impl<E: Element> Store<E> for MmapStore<E> {
             self.reinit()?;
         }
 
-        //unwrap is safe as we checked map to be initialised
-        self.map.as_mut().unwrap()[start..end].copy_from_slice(el.as_ref());
+        // unwrap is safe as we checked map to be initialised
+        let map = self.map.as_mut().unwrap();
+        ensure!(
+            end <= map.len(),
+            "Requested slice too large (max: {})",
+            map.len()
+        );
+        map[start..end].copy_from_slice(el.as_ref());
         self.len = std::cmp::max(self.len, index + 1);
 
         Ok(())
@@ -141,7 +147,13 @@ impl<E: Element> Store<E> for MmapStore<E> {
         }
 
         // unwrap is safe as we checked map to be initialised
-        self.map.as_mut().unwrap()[map_start..map_end].copy_from_slice(buf);
+        let map = self.map.as_mut().unwrap();
+        ensure!(
+            map_end <= map.len(),
+            "Requested slice too large (max: {})",
+            map.len()
+        );
+        map[map_start..map_end].copy_from_slice(buf);
         self.len = std::cmp::max(self.len, start + (buf.len() / E::byte_len()));
 
         Ok(())
-- 
2.43.0


From fe35ef706c60046dd74bceda6afbe04fac1eeebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:43 +0000
Subject: [PATCH 10/26] fix: refuse a wrong number of sub-tree store configs

---
 src/merkle.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/merkle.rs b/src/merkle.rs
index 52bdecd..7b011a8 100644
--- a/src/merkle.rs
+++ b/src/merkle.rs
@@ -292,6 +292,10 @@ impl<
         );
 
         let sub_tree_count = TopTreeArity::to_usize();
+        ensure!(
+            sub_tree_count > 0 && configs.len() == sub_tree_count * SubTreeArity::to_usize(),
+            "Length of configs MUST equal the number of base layer trees"
+        );
 
         let mut start = 0;
         let mut end = configs.len() / sub_tree_count;
@@ -805,6 +809,10 @@ impl<
         configs: &[StoreConfig],
     ) -> Result<MerkleTree<E, A, S, BaseTreeArity, SubTreeArity, TopTreeArity>> {
         let tree_count = TopTreeArity::to_usize();
+        ensure!(
+            tree_count > 0 && configs.len() == tree_count * SubTreeArity::to_usize(),
+            "Length of configs MUST equal the number of base layer trees"
+        );
 
         let mut start = 0;
         let mut end = configs.len() / tree_count;
-- 
2.43.0


From 3dd7d2f2045b826f4b69b69a2be198703e8d5adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:48 +0000
Subject: [PATCH 11/26] fix: check the leaf count before a store is created

A leaf count that is a power of two but not of the arity was refused only
after a full-size store file had been written; building again under that
name then loaded the file as a tree.
---
 src/merkle.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/merkle.rs b/src/merkle.rs
index 7b011a8..2170f14 100644
--- a/src/merkle.rs
+++ b/src/merkle.rs
@@ -1542,6 +1542,10 @@ impl<
             next_pow2(branches) == branches,
             "branches MUST be a power of 2"
         );
+        ensure!(
+            is_merkle_tree_size_valid(leafs_count, branches),
+            "MerkleTree size is invalid given the arity"
+        );
 
         let size = get_merkle_tree_len(leafs_count, branches)?;
         let row_count = get_merkle_tree_row_count(leafs_count, branches);
@@ -1584,6 +1588,10 @@ impl<
             next_pow2(branches) == branches,
             "branches MUST be a power of 2"
         );
+        ensure!(
+            is_merkle_tree_size_valid(leafs_count, branches),
+            "MerkleTree size is invalid given the arity"
+        );
 
         let size = get_merkle_tree_len(leafs_count, branches)?;
         let row_count = get_merkle_tree_row_count(leafs_count, branches);
@@ -1650,6 +1658,10 @@ impl<
             next_pow2(branches) == branches,
             "branches MUST be a power of 2"
         );
+        ensure!(
+            is_merkle_tree_size_valid(leafs, branches),
+            "MerkleTree size is invalid given the arity"
+        );
 
         let size = get_merkle_tree_len(leafs, branches)?;
         let row_count = get_merkle_tree_row_count(leafs, branches);
@@ -1690,6 +1702,10 @@ impl<
             next_pow2(branches) == branches,
             "branches MUST be a power of 2"
         );
+        ensure!(
+            is_merkle_tree_size_valid(leafs, branches),
+            "MerkleTree size is invalid given the arity"
+        );
 
         let size = get_merkle_tree_len(leafs, branches)?;
         let row_count = get_merkle_tree_row_count(leafs, branches);
@@ -1758,6 +1774,10 @@ impl<
             next_pow2(branches) == branches,
             "branches MUST be a power of 2"
         );
+        ensure!(
+            is_merkle_tree_size_valid(leafs, branches),
+            "MerkleTree size is invalid given the arity"
+        );
 
         let size = get_merkle_tree_len(leafs, branches)?;
         let row_count = get_merkle_tree_row_count(leafs, branches);
@@ -1799,6 +1819,10 @@ impl<
             next_pow2(branches) == branches,
             "branches MUST be a power of 2"
         );
+        ensure!(
+            is_merkle_tree_size_valid(leafs, branches),
+            "MerkleTree size is invalid given the arity"
+        );
 
         let size = get_merkle_tree_len(leafs, branches)?;
         let row_count = get_merkle_tree_row_count(leafs, branches);
-- 
2.43.0


From 544f10fc9756108b3b1638a031cde07d7b93938b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:48 +0000
Subject: [PATCH 12/26] fix: reading outside a VecStore or filling it with a
 wrong slice is an error

---
 src/store/vec.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/store/vec.rs b/src/store/vec.rs
index 9bf42a1..1cdd9d6 100644
--- a/src/store/vec.rs
+++ b/src/store/vec.rs
@@ -1,6 +1,6 @@
-use std::ops::{self, Index};
+use std::ops;
 
-use anyhow::Result;
+use anyhow::{Context, Result};
 
 use crate::merkle::Element;
 use crate::store::{Store, StoreConfig};
@@ -68,10 +68,21 @@ impl<E: Element> Store<E> for VecStore<E> {
     }
 
     fn new_from_slice(size: usize, data: &[u8]) -> Result<Self> {
+        ensure!(
+            data.len() % E::byte_len() == 0,
+            "data size must be a multiple of {}",
+            E::byte_len()
+        );
+
         let mut v: Vec<_> = data
             .chunks_exact(E::byte_len())
             .map(E::from_slice)
             .collect();
+        ensure!(
+            v.len() <= size,
+            "Requested slice too large (max: {})",
+            size
+        );
         let additional = size - v.len();
         v.reserve(additional);
 
@@ -83,11 +94,14 @@ impl<E: Element> Store<E> for VecStore<E> {
     }
 
     fn read_at(&self, index: usize) -> Result<E> {
-        Ok(self.0[index].clone())
+        self.0
+            .get(index)
+            .cloned()
+            .with_context(|| format!("index out of range {} >= {}", index, self.0.len()))
     }
 
     fn read_into(&self, index: usize, buf: &mut [u8]) -> Result<()> {
-        self.0[index].copy_to_slice(buf);
+        self.read_at(index)?.copy_to_slice(buf);
         Ok(())
     }
 
@@ -96,7 +110,10 @@ impl<E: Element> Store<E> for VecStore<E> {
     }
 
     fn read_range(&self, r: ops::Range<usize>) -> Result<Vec<E>> {
-        Ok(self.0.index(r).to_vec())
+        self.0
+            .get(r.clone())
+            .map(|elems| elems.to_vec())
+            .with_context(|| format!("range out of range {:?} (max: {})", r, self.0.len()))
     }
 
     fn len(&self) -> usize {
-- 
2.43.0


From 05cf7996369f119dd1bab8d38629066a2fa1c2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:07 +0000
Subject: [PATCH 13/26] fix: MmapStore returns errors from opening and filling,
 and keeps an existing file

---
 src/store/mmap.rs | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/src/store/mmap.rs b/src/store/mmap.rs
index c92f0b1..6edaff3 100644
--- a/src/store/mmap.rs
+++ b/src/store/mmap.rs
@@ -86,7 +86,7 @@ impl<E: Element> Store<E> for MmapStore<E> {
                 if e.kind() == std::io::ErrorKind::PermissionDenied {
                     error!("MmapStore doesn't support read-only storages");
                 }
-                panic!("{}", e)
+                return Err(e.into());
             }
         };
 
@@ -177,16 +177,8 @@ impl<E: Element> Store<E> for MmapStore<E> {
         // information, avoid re-populating the store at this point
         // since it can be assumed by the config that the data is
         // already correct).
-        if !store.loaded_from_disk() {
-            if store.map.is_none() {
-                store.reinit()?;
-            }
-
-            let len = data.len();
-
-            // unwrap is safe as we checked map to be initialised
-            store.map.as_mut().unwrap()[0..len].copy_from_slice(data);
-            store.len = len / E::byte_len();
+        if store.is_empty() {
+            store.copy_from_slice(data, 0)?;
         }
 
         Ok(store)
@@ -202,10 +194,7 @@ impl<E: Element> Store<E> for MmapStore<E> {
         let mut store = Self::new(size)?;
         ensure!(store.map.is_some(), "Internal map needs to be initialized");
 
-        let len = data.len();
-        // unwrap is safe as we checked map to be initialised
-        store.map.as_mut().unwrap()[0..len].copy_from_slice(data);
-        store.len = len / E::byte_len();
+        store.copy_from_slice(data, 0)?;
 
         Ok(store)
     }
-- 
2.43.0


From 2b7c4952e34361f55cc25aa5718e7e36144e1d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:07 +0000
Subject: [PATCH 14/26] fix: validating a proof of the wrong shape is an error

---
 src/proof.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/proof.rs b/src/proof.rs
index 7ddb329..c7ed2bd 100644
--- a/src/proof.rs
+++ b/src/proof.rs
@@ -89,13 +89,18 @@ impl<T: Eq + Clone + AsRef<[u8]>, BaseTreeArity: Unsigned> Proof<T, BaseTreeArit
 
     /// Validates sub-tree proofs with the specified arity.
     fn validate_sub_tree_proof<A: Algorithm<T>>(&self, arity: usize) -> Result<bool> {
+        ensure!(
+            self.path.len() == 1 && self.lemma.len() == arity,
+            "Invalid compound layer proof shape"
+        );
+
         // Ensure that the sub_tree validates to the root of that
         // sub_tree.
-        let valid = self
+        let sub_tree_proof = self
             .sub_tree_proof
             .as_ref()
-            .expect("[validate_sub_tree_proof] couldn't get sub_tree_proof value")
-            .validate::<A>()?;
+            .expect("[validate_sub_tree_proof] couldn't get sub_tree_proof value");
+        let valid = sub_tree_proof.validate::<A>()?;
         if !valid {
             return Ok(valid);
         }
@@ -114,7 +119,7 @@ impl<T: Eq + Clone + AsRef<[u8]>, BaseTreeArity: Unsigned> Proof<T, BaseTreeArit
             let mut cur_index = 0;
             for j in 0..node_count {
                 if j == self.path()[0] {
-                    nodes.push(self.sub_tree_root().clone());
+                    nodes.push(sub_tree_proof.root());
                 } else {
                     nodes.push(self.lemma()[cur_index].clone());
                     cur_index += 1;
@@ -171,6 +176,10 @@ impl<T: Eq + Clone + AsRef<[u8]>, BaseTreeArity: Unsigned> Proof<T, BaseTreeArit
         }
 
         let branches = BaseTreeArity::to_usize();
+        ensure!(
+            size == get_merkle_proof_lemma_len(self.path.len() + 1, branches),
+            "Invalid lemma length"
+        );
         let mut a = A::default();
         let mut h = self.item();
         let mut path_index = 1;
-- 
2.43.0


From f6973201db5282ff80137e826669e385d7b2245a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:07 +0000
Subject: [PATCH 15/26] fix: from_slices_with_configs refuses a wrong number of
 configs

---
 src/merkle.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/merkle.rs b/src/merkle.rs
index 2170f14..01ba098 100644
--- a/src/merkle.rs
+++ b/src/merkle.rs
@@ -739,6 +739,10 @@ impl<
         leafs: usize,
         configs: &[StoreConfig],
     ) -> Result<MerkleTree<E, A, S, BaseTreeArity, SubTreeArity, TopTreeArity>> {
+        ensure!(
+            tree_data.len() == configs.len(),
+            "Length of tree data and configs MUST be equal"
+        );
         let mut trees = Vec::with_capacity(tree_data.len());
         for i in 0..tree_data.len() {
             trees.push(
-- 
2.43.0


From 328f871619f9709ab735e3ca99021453cef2c3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:07 +0000
Subject: [PATCH 16/26] fix: an external reader without a replica offset is an
 error

---
 src/store/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/store/mod.rs b/src/store/mod.rs
index 4e6aae7..780da74 100644
--- a/src/store/mod.rs
+++ b/src/store/mod.rs
@@ -53,6 +53,11 @@ impl<R: Read + Send + Sync> ExternalReader<R> {
 
 impl ExternalReader<std::fs::File> {
     pub fn new_from_config(replica_config: &ReplicaConfig, index: usize) -> Result<Self> {
+        ensure!(
+            index < replica_config.offsets.len(),
+            "No replica offset at index {}",
+            index
+        );
         let reader = OpenOptions::new().read(true).open(&replica_config.path)?;
 
         Ok(ExternalReader {
-- 
2.43.0


From f97726df1aa0090ccdafb43379f5a7f71b9e2634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:30 +0000
Subject: [PATCH 17/26] fix: a failed build does not leave a store behind that
 loads as a tree

Building again under the name of a store whose population had failed (for
instance because the leaf iterator yielded an error) loaded the incomplete
file and returned it as a tree.
---
 src/merkle.rs | 63 +++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 63 insertions(+)

diff --git a/src/merkle.rs b/src/merkle.rs
index 01ba098..f5767b9 100644
--- a/src/merkle.rs
+++ b/src/merkle.rs
@@ -473,6 +473,16 @@ impl<
         data: &[u8],
         leafs: usize,
         config: StoreConfig,
+    ) -> Result<MerkleTree<E, A, S, BaseTreeArity, SubTreeArity, TopTreeArity>> {
+        build_or_discard(config, |config| {
+            Self::load_tree_slice_with_config(data, leafs, config)
+        })
+    }
+
+    fn load_tree_slice_with_config(
+        data: &[u8],
+        leafs: usize,
+        config: StoreConfig,
     ) -> Result<MerkleTree<E, A, S, BaseTreeArity, SubTreeArity, TopTreeArity>> {
         ensure!(
             SubTreeArity::to_usize() == 0,
@@ -1528,6 +1538,12 @@ impl<
 
     /// Build the tree given a slice of all leafs, in bytes form.
     pub fn from_byte_slice_with_config(leafs: &[u8], config: StoreConfig) -> Result<Self> {
+        build_or_discard(config, |config| {
+            Self::build_from_byte_slice_with_config(leafs, config)
+        })
+    }
+
+    fn build_from_byte_slice_with_config(leafs: &[u8], config: StoreConfig) -> Result<Self> {
         ensure!(
             leafs.len() % E::byte_len() == 0,
             "{} ist not a multiple of {}",
@@ -1695,6 +1711,26 @@ impl<
         BaseTreeArity: Unsigned,
         I: IntoParallelIterator<Item = E>,
         I::Iter: IndexedParallelIterator,
+    {
+        build_or_discard(config, |config| {
+            Self::build_from_par_iter_with_config(into, config)
+        })
+    }
+}
+
+impl<
+        E: Element,
+        A: Algorithm<E>,
+        S: Store<E>,
+        BaseTreeArity: Unsigned,
+        SubTreeArity: Unsigned,
+        TopTreeArity: Unsigned,
+    > MerkleTree<E, A, S, BaseTreeArity, SubTreeArity, TopTreeArity>
+{
+    fn build_from_par_iter_with_config<I>(into: I, config: StoreConfig) -> Result<Self>
+    where
+        I: IntoParallelIterator<Item = E>,
+        I::Iter: IndexedParallelIterator,
     {
         let iter = into.into_par_iter();
 
@@ -1811,6 +1847,15 @@ impl<
     pub fn try_from_iter_with_config<I: IntoIterator<Item = Result<E>>>(
         into: I,
         config: StoreConfig,
+    ) -> Result<Self> {
+        build_or_discard(config, |config| {
+            Self::build_from_iter_with_config(into, config)
+        })
+    }
+
+    fn build_from_iter_with_config<I: IntoIterator<Item = Result<E>>>(
+        into: I,
+        config: StoreConfig,
     ) -> Result<Self> {
         let iter = into.into_iter();
 
@@ -1889,6 +1934,24 @@ impl Element for [u8; 32] {
     }
 }
 
+/// Runs `build`, which creates the store named by `config`.  If it fails, the file it created is
+/// removed, as an incomplete store left behind would later be loaded as if it were a tree.
+fn build_or_discard<T>(
+    config: StoreConfig,
+    build: impl FnOnce(StoreConfig) -> Result<T>,
+) -> Result<T> {
+    let data_path = StoreConfig::data_path(&config.path, &config.id);
+    let existed = data_path.exists();
+
+    let tree = build(config);
+    if tree.is_err() && !existed {
+        // There may be no file, and the error to report is that of the build.
+        let _ = std::fs::remove_file(&data_path);
+    }
+
+    tree
+}
+
 /// This function calculates length of the generic tree by taking values from arity parameters.
 /// E.g. it can be used for base / compound / compound-compound trees.
 pub fn get_merkle_tree_len_generic<
-- 
2.43.0


From 0245f07bcee22fc263f93b2502359a887b1690a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:34 +0000
Subject: [PATCH 18/26] fix: an unnamed LevelCacheStore is readable

---
 src/store/level_cache.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/store/level_cache.rs b/src/store/level_cache.rs
index d159962..c406779 100644
--- a/src/store/level_cache.rs
+++ b/src/store/level_cache.rs
@@ -207,8 +207,9 @@ impl<E: Element, R: Read + Send + Sync> Store<E> for LevelCacheStore<E, R> {
             len: 0,
             elem_len: E::byte_len(),
             file,
+            // All elements are base layer data, nothing is cached.
             data_width: size,
-            cache_index_start: 0,
+            cache_index_start: store_size,
             store_size,
             loaded_from_disk: false,
             reader: None,
-- 
2.43.0


From c26f0486acf75873fa1895fc5aa26c36671c995c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:10 +0000
Subject: [PATCH 19/26] fix: a store iterator ends at a failed read

---
 src/store/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/store/mod.rs b/src/store/mod.rs
index 780da74..e0a28e4 100644
--- a/src/store/mod.rs
+++ b/src/store/mod.rs
@@ -576,7 +576,7 @@ macro_rules! impl_parallel_iter {
 
         impl<'data, E: 'data + Element> $iter<'data, E> {
             fn is_done(&self) -> bool {
-                !self.err && self.len() == 0
+                self.err || self.len() == 0
             }
         }
 
-- 
2.43.0


From 264ff5d682ed0161828d0932beb1b187ee8ff881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:48 +0000
Subject: [PATCH 20/26] fix: MmapStore::delete removes the store's file

---
 src/store/mmap.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/store/mmap.rs b/src/store/mmap.rs
index 6edaff3..56c2fe7 100644
--- a/src/store/mmap.rs
+++ b/src/store/mmap.rs
@@ -1,4 +1,4 @@
-use std::fs::{File, OpenOptions};
+use std::fs::{remove_file, File, OpenOptions};
 use std::marker::PhantomData;
 use std::ops;
 use std::path::Path;
@@ -280,8 +280,9 @@ impl<E: Element> Store<E> for MmapStore<E> {
         Ok(())
     }
 
-    fn delete(_config: StoreConfig) -> Result<()> {
-        Ok(())
+    fn delete(config: StoreConfig) -> Result<()> {
+        let path = StoreConfig::data_path(&config.path, &config.id);
+        remove_file(&path).with_context(|| format!("Failed to delete {:?}", &path))
     }
 
     fn is_empty(&self) -> bool {
-- 
2.43.0


From a3be6497888984e3ab0607c6548fc90c591c5622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:06 +0000
Subject: [PATCH 21/26] fix: a failed compaction leaves the store as it was

---
 src/store/disk.rs | 92 +++++++++++++++++++++++++----------------------
 1 file changed, 49 insertions(+), 43 deletions(-)

diff --git a/src/store/disk.rs b/src/store/disk.rs
index 592c2ec..334c00c 100644
--- a/src/store/disk.rs
+++ b/src/store/disk.rs
@@ -1,5 +1,5 @@
-use std::fs::{remove_file, File, OpenOptions};
-use std::io::{copy, Seek, SeekFrom};
+use std::fs::{remove_file, rename, File, OpenOptions};
+use std::io::{copy, Read, Seek, SeekFrom};
 use std::iter::FromIterator;
 use std::marker::PhantomData;
 use std::ops;
@@ -235,55 +235,42 @@ impl<E: Element> Store<E> for DiskStore<E> {
             "Cannot compact with this configuration"
         );
 
+        // Version 1 keeps the base layer data in front of the cached data.
         let v1 = store_version == StoreConfigDataVersion::One as u32;
-        let start: u64 = if v1 { data_width as u64 } else { 0 };
+        let base_size = if v1 { data_width } else { 0 };
 
         // Calculate cache start and updated size with repect to the
         // data size.
         let cache_start = self.store_size - cache_size;
 
-        // Seek the reader to the start of the cached data.
-        let mut reader = OpenOptions::new()
-            .read(true)
-            .open(StoreConfig::data_path(&config.path, &config.id))?;
-        reader.seek(SeekFrom::Start(cache_start as u64))?;
-
-        // Make sure the store file is opened for read/write.
-        self.file = OpenOptions::new()
-            .read(true)
-            .write(true)
-            .open(StoreConfig::data_path(&config.path, &config.id))?;
-
-        // Seek the writer.
-        self.file.seek(SeekFrom::Start(start))?;
-
-        // Copy the data from the cached region to the writer.
-        let written = copy(&mut reader, &mut self.file)?;
-        ensure!(written == cache_size as u64, "Failed to copy all data");
-        if v1 {
-            // Truncate the data on-disk to be the base layer data
-            // followed by the cached data.
-            self.file.set_len((data_width + cache_size) as u64)?;
-            // Adjust our length for internal consistency.
-            self.len = (data_width + cache_size) / self.elem_len;
-        } else {
-            // Truncate the data on-disk to be only the cached data.
-            self.file.set_len(cache_size as u64)?;
-
-            // Adjust our length to be the cached elements only for
-            // internal consistency.
-            self.len = cache_size / self.elem_len;
+        // Write the data to keep to a file of its own and replace the
+        // store's file with it only once it is complete, so that the
+        // store is left as it was if anything fails on the way.
+        let data_path = StoreConfig::data_path(&config.path, &config.id);
+        let compacted_path = data_path.with_extension("compacted");
+        let compacted = copy_ranges(
+            &data_path,
+            &compacted_path,
+            &[
+                (0, base_size as u64),
+                (cache_start as u64, cache_size as u64),
+            ],
+        )
+        .and_then(|file| {
+            rename(&compacted_path, &data_path)?;
+            Ok(file)
+        });
+        match compacted {
+            Ok(file) => self.file = file,
+            Err(e) => {
+                // There may be no such file, and the error to report is the first one.
+                let _ = remove_file(&compacted_path);
+                return Err(e);
+            }
         }
 
-        // Sync and sanity check that we match on disk (this can be
-        // removed if needed).
-        self.sync()?;
-        let metadata = self.file.metadata()?;
-        let store_size = metadata.len() as usize;
-        ensure!(
-            self.len * self.elem_len == store_size,
-            "Inconsistent metadata detected"
-        );
+        // Adjust our length for internal consistency.
+        self.len = (base_size + cache_size) / self.elem_len;
 
         Ok(true)
     }
@@ -548,3 +535,22 @@ impl<E: Element> DiskStore<E> {
         Ok(())
     }
 }
+
+/// Copy ranges of bytes (start and length) of the file `from` to a new file `to`, and sync it.
+fn copy_ranges(from: &Path, to: &Path, ranges: &[(u64, u64)]) -> Result<File> {
+    let mut reader = OpenOptions::new().read(true).open(from)?;
+    let mut writer = OpenOptions::new()
+        .read(true)
+        .write(true)
+        .create(true)
+        .truncate(true)
+        .open(to)?;
+    for (start, len) in ranges {
+        reader.seek(SeekFrom::Start(*start))?;
+        let written = copy(&mut (&reader).take(*len), &mut writer)?;
+        ensure!(written == *len, "Failed to copy all data");
+    }
+    writer.sync_all().context("failed to sync file")?;
+
+    Ok(writer)
+}
-- 
2.43.0


From 7ecfaa750a0f2df34c71a1b81640f69dedc6e55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:13 +0000
Subject: [PATCH 22/26] fix: a level-cache store addresses its file by the
 layout the file has

Whether the cached rows follow the base layer was guessed from whether an
external reader is set: without one, a leaf of a store whose base layer is
elsewhere read as some cached node; with one, a node of a v1 store as
another; nodes and root of a store over a whole tree were wrong whenever
rows were to be discarded; and writes to a compacted store hit other nodes.
---
 src/store/level_cache.rs | 102 +++++++++++++++++++++++----------------
 1 file changed, 60 insertions(+), 42 deletions(-)

diff --git a/src/store/level_cache.rs b/src/store/level_cache.rs
index c406779..3d32325 100644
--- a/src/store/level_cache.rs
+++ b/src/store/level_cache.rs
@@ -42,6 +42,12 @@ pub struct LevelCacheStore<E: Element, R: Read + Send + Sync> {
     // The byte index of where the cached data begins.
     cache_index_start: usize,
 
+    // The offset of the cached data in the file.
+    cache_offset: usize,
+
+    // Whether the file starts with the base layer data.
+    base_in_file: bool,
+
     // This flag is useful only immediate after instantiation, which
     // is false if the store was newly initialized and true if the
     // store was loaded from already existing on-disk data.
@@ -66,6 +72,8 @@ impl<E: Element, R: Read + Send + Sync> fmt::Debug for LevelCacheStore<E, R> {
             .field("data_width", &self.data_width)
             .field("loaded_from_disk", &self.loaded_from_disk)
             .field("cache_index_start", &self.cache_index_start)
+            .field("cache_offset", &self.cache_offset)
+            .field("base_in_file", &self.base_in_file)
             .field("store_size", &self.store_size)
             .finish()
     }
@@ -137,6 +145,8 @@ impl<E: Element, R: Read + Send + Sync> LevelCacheStore<E, R> {
             file,
             data_width: size,
             cache_index_start,
+            cache_offset: 0,
+            base_in_file: false,
             store_size,
             loaded_from_disk: false,
             reader: Some(reader),
@@ -191,6 +201,8 @@ impl<E: Element, R: Read + Send + Sync> Store<E> for LevelCacheStore<E, R> {
             file,
             data_width: leafs,
             cache_index_start,
+            cache_offset: cache_index_start,
+            base_in_file: true,
             store_size,
             loaded_from_disk: false,
             reader: None,
@@ -210,6 +222,8 @@ impl<E: Element, R: Read + Send + Sync> Store<E> for LevelCacheStore<E, R> {
             // All elements are base layer data, nothing is cached.
             data_width: size,
             cache_index_start: store_size,
+            cache_offset: store_size,
+            base_in_file: true,
             store_size,
             loaded_from_disk: false,
             reader: None,
@@ -299,19 +313,18 @@ impl<E: Element, R: Read + Send + Sync> Store<E> for LevelCacheStore<E, R> {
             get_merkle_tree_cache_size(size, branches, config.rows_to_discard)? * E::byte_len();
         let cache_index_start = store_range - cache_size;
 
-        // For a true v1 compatible store, this check should remain,
-        // but since the store structure is identical otherwise this
-        // method can be re-used to open v2 stores, so long as an
-        // external_reader is set afterward.
-
-        // Sanity checks that the StoreConfig rows_to_discard matches this
-        // particular on-disk file.
-        /*
-        ensure!(
-            store_size == size * E::byte_len() + cache_size,
-            "Inconsistent store size detected"
-        );
-         */
+        // The on-disk file is either a v1 store (the base layer, then
+        // the cached data), a v2 store (only the cached data; an
+        // external reader has to be set to access the base layer) or
+        // not compacted at all.
+        let base_size = size * E::byte_len();
+        let (base_in_file, cache_offset) = if store_size == cache_size {
+            (false, 0)
+        } else if store_size == store_range {
+            (true, cache_index_start)
+        } else {
+            (true, base_size)
+        };
 
         Ok(LevelCacheStore {
             len: store_range / E::byte_len(),
@@ -319,6 +332,8 @@ impl<E: Element, R: Read + Send + Sync> Store<E> for LevelCacheStore<E, R> {
             file,
             data_width: size,
             cache_index_start,
+            cache_offset,
+            base_in_file,
             loaded_from_disk: true,
             store_size,
             reader: None,
@@ -576,6 +591,11 @@ impl<E: Element, R: Read + Send + Sync> Store<E> for LevelCacheStore<E, R> {
         // The root isn't part of the previous loop so `row_count` is
         // missing one level.
 
+        // Only the cached data is left in the file.
+        self.base_in_file = false;
+        self.cache_offset = 0;
+        self.store_size = cache_size * self.elem_len;
+
         // Return the root.  Note that the offset is adjusted because
         // we've just built a store that says that it has the full
         // length of elements, when in fact only the cached portion is
@@ -708,10 +728,23 @@ impl<E: Element, R: Read + Send + Sync> LevelCacheStore<E, R> {
         Ok(())
     }
 
+    // The offset in the file of the data with the given byte index.
+    fn file_offset(&self, start: usize) -> Result<usize> {
+        // The cached data is shifted if the file is compacted.
+        if start >= self.cache_index_start {
+            return Ok(start - self.cache_index_start + self.cache_offset);
+        }
+        ensure!(
+            self.base_in_file,
+            "the base layer is not in the store and no external reader is set"
+        );
+
+        Ok(start)
+    }
+
     pub fn store_read_range(&self, start: usize, end: usize) -> Result<Vec<u8>> {
         let read_len = end - start;
         let mut read_data = vec![0; read_len];
-        let mut adjusted_start = start;
 
         self.ensure_available(start, end)?;
 
@@ -732,19 +765,8 @@ impl<E: Element, R: Read + Send + Sync> LevelCacheStore<E, R> {
             return Ok(read_data);
         }
 
-        // Adjust read index if in the cached ranged to be shifted
-        // over since the data stored is compacted.
-        if start >= self.cache_index_start {
-            let v1 = self.reader.is_none();
-            adjusted_start = if v1 {
-                start - self.cache_index_start + (self.data_width * self.elem_len)
-            } else {
-                start - self.cache_index_start
-            };
-        }
-
         self.file
-            .read_exact_at(adjusted_start as u64, &mut read_data)
+            .read_exact_at(self.file_offset(start)? as u64, &mut read_data)
             .with_context(|| {
                 format!(
                     "failed to read {} bytes from file at offset {}",
@@ -828,21 +850,8 @@ impl<E: Element, R: Read + Send + Sync> LevelCacheStore<E, R> {
                     )
                 })?;
         } else {
-            // Adjust read index if in the cached ranged to be shifted
-            // over since the data stored is compacted.
-            let adjusted_start = if start >= self.cache_index_start {
-                if self.reader.is_none() {
-                    // if v1
-                    start - self.cache_index_start + (self.data_width * self.elem_len)
-                } else {
-                    start - self.cache_index_start
-                }
-            } else {
-                start
-            };
-
             self.file
-                .read_exact_at(adjusted_start as u64, buf)
+                .read_exact_at(self.file_offset(start)? as u64, buf)
                 .with_context(|| {
                     format!(
                         "failed to read {} bytes from file at offset {}",
@@ -856,12 +865,21 @@ impl<E: Element, R: Read + Send + Sync> LevelCacheStore<E, R> {
     }
 
     pub fn store_copy_from_slice(&mut self, start: usize, slice: &[u8]) -> Result<()> {
+        // A compacted file has no room for the discarded rows.
+        if self.cache_offset != self.cache_index_start {
+            self.ensure_available(start, start + slice.len())?;
+        }
+        ensure!(
+            self.reader.is_none() || start >= self.cache_index_start,
+            "the base layer is read from an external reader"
+        );
+        let offset = self.file_offset(start)?;
         ensure!(
-            start + slice.len() <= self.store_size,
+            offset + slice.len() <= self.store_size,
             "Requested slice too large (max: {})",
             self.store_size
         );
-        self.file.write_all_at(start as u64, slice)?;
+        self.file.write_all_at(offset as u64, slice)?;
 
         Ok(())
     }
-- 
2.43.0


From b2ae6455ce757fba856d1304f53926453314702b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:13 +0000
Subject: [PATCH 23/26] fix: LevelCacheStore::new_from_disk refuses a file of
 none of the known sizes

It opened and answered reads with other nodes.
---
 src/store/level_cache.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/store/level_cache.rs b/src/store/level_cache.rs
index 3d32325..0bdfc28 100644
--- a/src/store/level_cache.rs
+++ b/src/store/level_cache.rs
@@ -318,12 +318,14 @@ impl<E: Element, R: Read + Send + Sync> Store<E> for LevelCacheStore<E, R> {
         // external reader has to be set to access the base layer) or
         // not compacted at all.
         let base_size = size * E::byte_len();
-        let (base_in_file, cache_offset) = if store_size == cache_size {
+        let (base_in_file, cache_offset) = if store_size == base_size + cache_size {
+            (true, base_size)
+        } else if store_size == cache_size {
             (false, 0)
         } else if store_size == store_range {
             (true, cache_index_start)
         } else {
-            (true, base_size)
+            bail!("Inconsistent store size detected ({})", store_size);
         };
 
         Ok(LevelCacheStore {
-- 
2.43.0


From cba8f889adc15feb7f0fd9f1c54829f14c6adea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:13 +0000
Subject: [PATCH 24/26] fix: gen_cached_proof does not overflow on the greatest
 number of rows

---
 src/merkle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/merkle.rs b/src/merkle.rs
index f5767b9..40c7ac5 100644
--- a/src/merkle.rs
+++ b/src/merkle.rs
@@ -1166,7 +1166,7 @@ impl<
                 // primarily affects tests because it only affects 'small' trees, entirely outside the
                 // scope of any 'production' tree width.
                 let rows_to_discard = if let Some(rows) = rows_to_discard {
-                    if rows + 1 < self.row_count {
+                    if rows < self.row_count - 1 {
                         rows
                     } else {
                         StoreConfig::default_rows_to_discard(self.leafs, branches)
-- 
2.43.0


From 05bcb1b66fd70ab758ea71d2ecddaf009fdbbb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:53 +0000
Subject: [PATCH 25/26] fix: an external reader that delivers too few bytes is
 an error

---
 src/store/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/store/mod.rs b/src/store/mod.rs
index e0a28e4..5ed530a 100644
--- a/src/store/mod.rs
+++ b/src/store/mod.rs
@@ -47,7 +47,15 @@ pub struct ExternalReader<R: Read + Send + Sync> {
 
 impl<R: Read + Send + Sync> ExternalReader<R> {
     pub fn read(&self, start: usize, end: usize, buf: &mut [u8]) -> Result<usize> {
-        (self.read_fn)(start + self.offset, end + self.offset, buf, &self.source)
+        let read_len = (self.read_fn)(start + self.offset, end + self.offset, buf, &self.source)?;
+        ensure!(
+            read_len >= end - start,
+            "external reader returned {} of {} bytes",
+            read_len,
+            end - start
+        );
+
+        Ok(read_len)
     }
 }
 
-- 
2.43.0


From 35e6d17e9bb3bc2ead449000921f29c279c1bc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:29 +0000
Subject: [PATCH 26/26] fix: a tree of arity one is refused instead of looping
 for ever

is_merkle_tree_size_valid divided by the arity until one leaf was left, which with an arity of one never happens.
---
 src/merkle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/merkle.rs b/src/merkle.rs
index 40c7ac5..3067da7 100644
--- a/src/merkle.rs
+++ b/src/merkle.rs
@@ -2043,7 +2043,7 @@ pub fn get_merkle_tree_cache_size(
 }
 
 pub fn is_merkle_tree_size_valid(leafs: usize, branches: usize) -> bool {
-    if branches == 0 || leafs != next_pow2(leafs) || branches != next_pow2(branches) {
+    if branches < 2 || leafs != next_pow2(leafs) || branches != next_pow2(branches) {
         return false;
     }
 
-- 
2.43.0

