From c2ccfaab8e30e813b4c1cc1c28b66e34196e1a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:39 +0000
Subject: [PATCH 01/18] fix: re-inserting an id into MinHashIndex left its old
 band entries behind

---
 gaoya/src/minhash/minhash_index.rs | 32 ++++++++++++------------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/gaoya/src/minhash/minhash_index.rs b/gaoya/src/minhash/minhash_index.rs
index 8a7d996..782d407 100644
--- a/gaoya/src/minhash/minhash_index.rs
+++ b/gaoya/src/minhash/minhash_index.rs
@@ -419,6 +419,8 @@ where
     #[inline]
     pub fn insert(&mut self, id: Id, signature: Vec<T>) {
         assert_eq!(self.num_hashes(), signature.len());
+        // drop the band entries of the previous signature of this id, if there is one
+        self.remove(&id);
         for band in &mut self.bands {
             band.insert(id.clone(), &signature);
         }
@@ -434,17 +436,7 @@ where
             assert_eq!(self.num_hashes(), signatures[0].len());
         }
 
-        self.bands.par_iter_mut().for_each(|band| {
-            for item in signatures.iter().zip(ids.iter()) {
-                let hashes = item.0;
-                let id = item.1.clone();
-                band.insert(id, hashes);
-            }
-        });
-
-        for id_hash in ids.into_iter().zip(signatures.into_iter()) {
-            self.id_signatures.insert(id_hash.0, id_hash.1);
-        }
+        self.par_bulk_insert_pairs(ids.into_iter().zip(signatures.into_iter()).collect());
     }
 
     pub fn par_bulk_insert_pairs(&mut self, id_signature_pairs: Vec<(Id, Vec<T>)>)
@@ -452,18 +444,20 @@ where
         Id: Hash + Eq + Clone + Send + Sync,
         T: Send + Sync,
     {
+        // only the last signature of an id is kept, whether the previous one
+        // is already in the index or in the same batch
+        let id_signatures: HashMap<Id, Vec<T>> = id_signature_pairs.into_iter().collect();
+        for id in id_signatures.keys() {
+            self.remove(id);
+        }
+
         self.bands.par_iter_mut().for_each(|band| {
-            for item in id_signature_pairs.iter() {
-                let i: &(Id, Vec<T>) = item;
-                let (a, b) = i;
-                let k: Id = a.clone();
-                band.insert(k, b);
+            for (id, signature) in id_signatures.iter() {
+                band.insert(id.clone(), signature);
             }
         });
 
-        for id_hash in id_signature_pairs {
-            self.id_signatures.insert(id_hash.0, id_hash.1);
-        }
+        self.id_signatures.extend(id_signatures);
     }
 
     pub fn shrink_to_fit(&mut self)
-- 
2.43.0


From 09035c8f72105f0a1a6c7d31da0d64c314c37597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:39 +0000
Subject: [PATCH 02/18] fix: MinHashIndex::bulk_remove paired ids with the
 wrong signatures when some were absent

---
 gaoya/src/minhash/minhash_index.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gaoya/src/minhash/minhash_index.rs b/gaoya/src/minhash/minhash_index.rs
index 782d407..6375808 100644
--- a/gaoya/src/minhash/minhash_index.rs
+++ b/gaoya/src/minhash/minhash_index.rs
@@ -694,16 +694,16 @@ where
         where
             Id: Hash + Eq + Clone + Send + Sync,
             T: Send + Sync {
-        let sigs: Vec<Vec<T>> = ids.iter()
-            .filter_map(|id| self.id_signatures.remove(id))
+        let removed: Vec<(&Id, Vec<T>)> = ids.iter()
+            .filter_map(|id| self.id_signatures.remove(id).map(|sig| (id, sig)))
             .collect();
 
         self.bands.par_iter_mut()
             .for_each(|band| {
-                sigs.iter().zip(ids)
-                    .for_each(|(sig, id)| band.remove(id, sig))
+                removed.iter()
+                    .for_each(|(id, sig)| band.remove(id, sig))
             });
-        sigs
+        removed.into_iter().map(|(_, sig)| sig).collect()
     }
 
     pub fn size(&self) -> usize {
-- 
2.43.0


From 6df605d0970efd2159074cdbf39d13b52530729a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:39 +0000
Subject: [PATCH 03/18] fix: MinHashIndex::query_one missed a match exactly at
 the threshold

---
 gaoya/src/minhash/minhash_index.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gaoya/src/minhash/minhash_index.rs b/gaoya/src/minhash/minhash_index.rs
index 6375808..5e0f9a4 100644
--- a/gaoya/src/minhash/minhash_index.rs
+++ b/gaoya/src/minhash/minhash_index.rs
@@ -533,7 +533,7 @@ where
             .map(|id| (id, self.id_signatures.get(&id)))
             .filter(|(id, sig)| sig.is_some())
             .map(|(id, sig)| (id, compute_minhash_similarity(sig.unwrap(), query_signature)))
-            .filter(|pair| pair.1 > self.threshold)
+            .filter(|pair| pair.1 >= self.threshold)
             .max_by(|x, y| x.1.partial_cmp(&y.1).unwrap())
     }
 
-- 
2.43.0


From 481b7e0a52843436bea230fd72033e0d05ed1a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:39 +0000
Subject: [PATCH 04/18] fix: MinHashIndex::shrink_to panicked when no two
 documents share a band

---
 gaoya/src/minhash/minhash_index.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/gaoya/src/minhash/minhash_index.rs b/gaoya/src/minhash/minhash_index.rs
index 5e0f9a4..d444f58 100644
--- a/gaoya/src/minhash/minhash_index.rs
+++ b/gaoya/src/minhash/minhash_index.rs
@@ -481,7 +481,6 @@ where
                 // On average the size of every band will be lower than the size of
                 // id_signatures. We adjust the desired capacity.
                 let ratio = band.hash_table.len() as f64 / self.id_signatures.len() as f64;
-                assert!(ratio < 1.0);
                 let adjusted_capacity = (min_capacity as f64 * ratio) as usize;
                 band.shrink_to(adjusted_capacity)
             });
-- 
2.43.0


From 1e053786cae57b1265259fb3d15ac16248191e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:39 +0000
Subject: [PATCH 05/18] fix: MinHashIndex bulk inserts accepted or half-applied
 signatures of the wrong length

---
 gaoya/src/minhash/minhash_index.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gaoya/src/minhash/minhash_index.rs b/gaoya/src/minhash/minhash_index.rs
index d444f58..3b7475b 100644
--- a/gaoya/src/minhash/minhash_index.rs
+++ b/gaoya/src/minhash/minhash_index.rs
@@ -432,10 +432,6 @@ where
         Id: Hash + Eq + Clone + Send + Sync,
         T: Send + Sync,
     {
-        if !signatures.is_empty() {
-            assert_eq!(self.num_hashes(), signatures[0].len());
-        }
-
         self.par_bulk_insert_pairs(ids.into_iter().zip(signatures.into_iter()).collect());
     }
 
@@ -444,6 +440,10 @@ where
         Id: Hash + Eq + Clone + Send + Sync,
         T: Send + Sync,
     {
+        // check everything before touching the index
+        for (_, signature) in id_signature_pairs.iter() {
+            assert_eq!(self.num_hashes(), signature.len());
+        }
         // only the last signature of an id is kept, whether the previous one
         // is already in the index or in the same batch
         let id_signatures: HashMap<Id, Vec<T>> = id_signature_pairs.into_iter().collect();
-- 
2.43.0


From c47ecf7003c570d90453777de4c2146bf182cc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:16 +0000
Subject: [PATCH 06/18] fix: SimHash queries missed documents at exactly the
 allowed Hamming distance

---
 gaoya/src/simhash/sim_hash_index.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gaoya/src/simhash/sim_hash_index.rs b/gaoya/src/simhash/sim_hash_index.rs
index ac56fe0..22df6f3 100644
--- a/gaoya/src/simhash/sim_hash_index.rs
+++ b/gaoya/src/simhash/sim_hash_index.rs
@@ -54,7 +54,7 @@ where
                     .iter()
                     .filter(|id| {
                         let signature = id_signatures.get(id).unwrap();
-                        query_signature.hamming_distance(signature) < max_distance
+                        query_signature.hamming_distance(signature) <= max_distance
                     });
                 match_ids.extend(matches);
             }
@@ -75,7 +75,7 @@ where
                     .iter()
                     .filter(|id| {
                         let signature = id_signatures.get(id).unwrap();
-                        query_signature.hamming_distance(signature) < max_distance
+                        query_signature.hamming_distance(signature) <= max_distance
                     }).cloned();
                 match_ids.extend(matches);
             }
-- 
2.43.0


From 84ff30d78888ea05409825ff5cad25a360efffd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:16 +0000
Subject: [PATCH 07/18] fix: SimHashIndex::size was always 0

---
 gaoya/src/simhash/sim_hash_index.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/gaoya/src/simhash/sim_hash_index.rs b/gaoya/src/simhash/sim_hash_index.rs
index 22df6f3..1a3b542 100644
--- a/gaoya/src/simhash/sim_hash_index.rs
+++ b/gaoya/src/simhash/sim_hash_index.rs
@@ -102,7 +102,6 @@ where
     hash_tables: Vec<SimHashTable<S, Id>>,
     id_signatures: AHashMap<Id, S>,
     marker: PhantomData<(S, Id)>,
-    size: usize,
 }
 
 impl<S, Id> SimHashIndex<S, Id>
@@ -123,7 +122,6 @@ where
                 .collect()),
             id_signatures: AHashMap::default(),
             marker: PhantomData,
-            size: 0,
         }
     }
 
@@ -225,7 +223,7 @@ where
     }
 
     pub fn size(&self) -> usize {
-        self.size
+        self.id_signatures.len()
     }
 
     fn avg_bucket_count(&self) -> usize {
-- 
2.43.0


From 376bc4e783f5d4f928c5cc2a46acc427e9448873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:10 +0000
Subject: [PATCH 08/18] fix: similarity_greater_than_threshold must not round
 the threshold down

The number of required matches was truncated, so 0.5 over 3 hashes accepted
a single match (similarity 0.33).
---
 gaoya/src/minhash/mod.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gaoya/src/minhash/mod.rs b/gaoya/src/minhash/mod.rs
index d8f69d1..1ef1d08 100644
--- a/gaoya/src/minhash/mod.rs
+++ b/gaoya/src/minhash/mod.rs
@@ -147,13 +147,12 @@ pub fn similarity_greater_than_threshold<T>(
 {
     assert_eq!(min_hashes_1.len(), min_hashes_2.len());
     let num_hashes = min_hashes_1.len();
-    let expected_matches = (num_hashes as f64 * threshold) as u32;
     let mut num_matches: u32 = 0;
     for pair in min_hashes_1.iter().zip(min_hashes_2.iter()) {
         if pair.0 == pair.1 {
             num_matches += 1;
         }
-        if num_matches >= expected_matches {
+        if num_matches as f64 / num_hashes as f64 >= threshold {
             return true;
         }
     }
-- 
2.43.0


From 8d6808bb026cbb66b9448d335983b6506148df6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:40 +0000
Subject: [PATCH 09/18] fix: MultiShingles stopped before the last short
 shingles when the range spans three or more sizes

---
 gaoya/src/text/multi_shingles.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/gaoya/src/text/multi_shingles.rs b/gaoya/src/text/multi_shingles.rs
index ff8ab62..abda3ca 100644
--- a/gaoya/src/text/multi_shingles.rs
+++ b/gaoya/src/text/multi_shingles.rs
@@ -28,6 +28,11 @@ impl<'a, T> Iterator for MultiShingles<'a, [T]> {
     type Item = &'a [T];
 
     fn next(&mut self) -> Option<Self::Item> {
+        if self.data.len() < self.size && self.size > self.from_size {
+            // no longer shingle fits here, shorter ones may still start at the next position
+            self.size = self.from_size;
+            self.data = &self.data[self.step..];
+        }
         if self.data.len() >= self.size {
             let ret = &self.data[0..self.size];
             self.size += 1;
@@ -79,8 +84,9 @@ impl<'a> Iterator for MultiShingles<'a, str> {
         };
 
         // move data slice to next step position
+        let retry = ret.is_none() && self.size > self.from_size;
         self.size += 1;
-        if self.size > self.to_size {
+        if self.size > self.to_size || retry {
             self.size = self.from_size;
             if pos_next != 0 {
                 self.data = &self.data[pos_next..];
@@ -89,7 +95,12 @@ impl<'a> Iterator for MultiShingles<'a, str> {
             }
         }
 
-        ret
+        if retry {
+            // no longer shingle fits here, shorter ones may still start at the next position
+            self.next()
+        } else {
+            ret
+        }
     }
 }
 pub trait AsShingles<'a, T: ?Sized + 'a> {
-- 
2.43.0


From b1b13e65606efc48752781b6a74c92e72defbb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:20 +0000
Subject: [PATCH 10/18] fix: serial clusterer ignored clusters of exactly
 min_cluster_size and reused cluster ids between runs

---
 gaoya/src/clustering/clustering_serial.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/gaoya/src/clustering/clustering_serial.rs b/gaoya/src/clustering/clustering_serial.rs
index 492ba30..f909e83 100644
--- a/gaoya/src/clustering/clustering_serial.rs
+++ b/gaoya/src/clustering/clustering_serial.rs
@@ -90,7 +90,6 @@ impl<Id> Clusterer<Id>
                    points: &mut Vec<ClusterPoint<Id>>,
                    query_index: & (dyn QueryIndex<Id=ClusterPoint<Id>> )) -> Vec<Box<Cluster<Id>>> {
         let mut clusters = Vec::new();
-        let mut cluster_id_seq = self.cluster_id_sequence;
         for point in points {
             if point.cluster.get().is_some() {
                 continue;
@@ -99,9 +98,9 @@ impl<Id> Clusterer<Id>
             let similar_points: Vec<_> = query_index.query(point).into_iter()
                 .filter(|point| point.cluster.get().is_none())
                 .map(|p| p.clone()).collect();
-            if similar_points.len() > self.min_cluster_size {
-                cluster_id_seq += 1;
-                let cluster = self.create_new_cluster(similar_points, cluster_id_seq);
+            if similar_points.len() >= self.min_cluster_size {
+                let cluster_id = self.new_cluster_id();
+                let cluster = self.create_new_cluster(similar_points, cluster_id);
                 clusters.push(cluster);
             }
         }
-- 
2.43.0


From fd681168d8f88c634acf2671ac2fff6cf389f594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:00 +0000
Subject: [PATCH 11/18] fix: parallel clusterer shared points between clusters
 and used freed clusters

- COMMITTED and ROLLED_BACK were the same value
- a point won from a rolled back cluster was never reassigned, and the retry
  after losing a race did not retry
- a rolled back cluster was freed while other threads could still reach it
- a cluster rolled back by another thread went on and could lose to its own victim
- cluster_par panicked with fewer points than threads
---
 gaoya/src/clustering/clusterer_parallel.rs | 109 ++++++++++++---------
 1 file changed, 62 insertions(+), 47 deletions(-)

diff --git a/gaoya/src/clustering/clusterer_parallel.rs b/gaoya/src/clustering/clusterer_parallel.rs
index ef5ede1..4e834d1 100644
--- a/gaoya/src/clustering/clusterer_parallel.rs
+++ b/gaoya/src/clustering/clusterer_parallel.rs
@@ -9,6 +9,7 @@ use std::pin::Pin;
 use std::ptr;
 use std::ptr::null_mut;
 use std::sync::atomic::{AtomicPtr, AtomicU32, AtomicU8, Ordering};
+use std::sync::Mutex;
 use triomphe::Arc;
 
 /// Implementation of a parallel,  multi-threaded clustering algorithm.
@@ -37,24 +38,25 @@ where
     }
 
     pub fn get_cluster(&self) -> *mut Cluster<Id> {
-        self.cluster.load(Ordering::Relaxed)
+        self.cluster.load(Ordering::Acquire)
     }
 
     pub fn is_cluster_assigned(&self) -> bool {
         self.get_cluster() != null_mut()
     }
 
-    /// Atomically assigns the cluster to this point
-    /// If this point already has a cluster assignment the assignment will fail
+    /// Atomically replaces the assignment `expected` (null if unassigned) of this point
+    /// with the cluster. If this point has another assignment the assignment will fail
     fn assign_cluster(
         &self,
+        expected: *mut Cluster<Id>,
         cluster_ptr: *mut Cluster<Id>,
     ) -> Result<*mut Cluster<Id>, *mut Cluster<Id>> {
         self.cluster.compare_exchange(
-            ptr::null_mut(),
+            expected,
             cluster_ptr,
-            Ordering::Relaxed,
-            Ordering::Relaxed,
+            Ordering::AcqRel,
+            Ordering::Acquire,
         )
     }
 
@@ -86,7 +88,7 @@ impl<Id> Eq for ClusterPointInner<Id> where Id: Eq {}
 pub type ClusterPoint<Id> = Arc<ClusterPointInner<Id>>;
 
 const COMMITTED: u8 = 1;
-const ROLLED_BACK: u8 = 1;
+const ROLLED_BACK: u8 = 2;
 
 pub struct Cluster<Id> {
     pub points: Vec<ClusterPoint<Id>>,
@@ -109,22 +111,22 @@ impl<Id> Cluster<Id> {
 
     fn commit(&self) -> bool {
         self.state
-            .compare_exchange(0, COMMITTED, Ordering::Relaxed, Ordering::Relaxed)
+            .compare_exchange(0, COMMITTED, Ordering::AcqRel, Ordering::Acquire)
             .is_ok()
     }
 
     fn rollback(&self) -> bool {
         self.state
-            .compare_exchange(0, ROLLED_BACK, Ordering::Relaxed, Ordering::Relaxed)
+            .compare_exchange(0, ROLLED_BACK, Ordering::AcqRel, Ordering::Acquire)
             .is_ok()
     }
 
     fn is_rolled_back(&self) -> bool {
-        self.state.load(Ordering::Relaxed) == ROLLED_BACK
+        self.state.load(Ordering::Acquire) == ROLLED_BACK
     }
 
     fn is_commited(&self) -> bool {
-        self.state.load(Ordering::Relaxed) == COMMITTED
+        self.state.load(Ordering::Acquire) == COMMITTED
     }
 }
 
@@ -138,6 +140,9 @@ pub struct Clusterer<T, Id> {
     phandom: PhantomData<(T, Id)>,
     n_threads: usize,
     min_cluster_size: usize,
+    /// Clusters that were rolled back. Other threads may still be looking at them,
+    /// so they are kept for as long as the clusterer.
+    discarded: Mutex<Vec<Box<Cluster<Id>>>>,
 }
 
 impl<T, Id> Clusterer<T, Id>
@@ -151,6 +156,7 @@ where
             phandom: PhantomData,
             n_threads: n_threads,
             min_cluster_size: min_cluster_size,
+            discarded: Mutex::new(Vec::new()),
         }
     }
 
@@ -167,7 +173,7 @@ where
         points: &mut Vec<ClusterPoint<Id>>,
         query_index: &MinHashIndex<T, ClusterPoint<Id>, C>,
     ) -> Vec<Box<Cluster<Id>>> {
-        let chunk_size = points.len() / self.n_threads;
+        let chunk_size = (points.len() / self.n_threads.max(1)).max(1);
         let result: Vec<_> = points.par_chunks_mut(chunk_size)
             .map(|chunk| self.cluster_slice(chunk, query_index))
             .collect();
@@ -198,7 +204,7 @@ where
         let mut clusters = Vec::new();
         self.sort_by_most_number_of_similar_points(points, query_index);
         for point in points {
-            if point.cluster.load(Ordering::Relaxed) != null_mut() {
+            if point.is_cluster_assigned() {
                 continue;
             }
             let mut similar_points: Vec<_> = query_index.query(&point).into_iter()
@@ -229,51 +235,60 @@ where
         let cluster_const_ptr: *const Cluster<Id> = &*cluster;
         let cluster_ptr = cluster_const_ptr as *mut Cluster<Id>;
 
-        for mut i in 0..points.len() {
-            // Another thread may rolled us back
-            if cluster.is_rolled_back() {
-                self.rollback_cluster_points(&mut cluster, cluster_ptr);
-            }
-            let point = &points[i];
-            match point.assign_cluster(cluster_ptr) {
-                Ok(_) => {
-                    cluster.points.push(point.clone());
+        for point in points.iter() {
+            let mut expected = null_mut();
+            loop {
+                // Another thread may rolled us back
+                if cluster.is_rolled_back() {
+                    return self.discard_cluster(cluster, cluster_ptr);
                 }
-                Err(conflict_ptr) => {
-                    // This point has already been assigned a cluster by another thread,
-                    // but if the conflict cluster has not been commited we still can win this point
-                    let conflict_cluster: &mut Cluster<Id> = unsafe { &mut *conflict_ptr };
-                    if conflict_cluster.is_commited() {
-                        cluster.rollback();
-                        self.rollback_cluster_points(&mut cluster, cluster_ptr);
-                        return None;
-                    } else if conflict_cluster.is_rolled_back() {
-                        i = i - 1; // go back and retry
-                    } else if (cluster_id > conflict_cluster.cluster_id) {
-                        // We loose because conflict_cluster was first
-                        cluster.rollback();
-                        self.rollback_cluster_points(&mut cluster, cluster_ptr);
-                        return None;
-                    } else {
-                        if conflict_cluster.rollback() {
-                            cluster.points.push(point.clone());
-                        } else {
-                            // We are too late
+                match point.assign_cluster(expected, cluster_ptr) {
+                    Ok(_) => {
+                        cluster.points.push(point.clone());
+                        break;
+                    }
+                    Err(conflict_ptr) if conflict_ptr.is_null() => {
+                        // The conflict cluster has released the point in the meantime, retry
+                        expected = null_mut();
+                    }
+                    Err(conflict_ptr) => {
+                        // This point has already been assigned a cluster by another thread,
+                        // but if the conflict cluster has not been commited we still can win this point
+                        let conflict_cluster: &Cluster<Id> = unsafe { &*conflict_ptr };
+                        if conflict_cluster.is_rolled_back() {
+                            expected = conflict_ptr; // retry and take the point over
+                        } else if conflict_cluster.is_commited()
+                            || cluster_id > conflict_cluster.cluster_id
+                        {
+                            // We loose because conflict_cluster was first
                             cluster.rollback();
-                            self.rollback_cluster_points(&mut cluster, cluster_ptr);
-                            return None;
+                            return self.discard_cluster(cluster, cluster_ptr);
+                        } else {
+                            // If this fails the conflict cluster was commited or rolled back
+                            // just now, the retry will see which
+                            conflict_cluster.rollback();
                         }
                     }
                 }
             }
         }
         if !cluster.commit() {
-            self.rollback_cluster_points(&mut cluster, cluster_ptr);
-            return None;
+            return self.discard_cluster(cluster, cluster_ptr);
         }
         Some(cluster)
     }
 
+    /// Releases the points of a rolled back cluster
+    fn discard_cluster(
+        &self,
+        mut cluster: Box<Cluster<Id>>,
+        cluster_ptr: *mut Cluster<Id>,
+    ) -> Option<Box<Cluster<Id>>> {
+        self.rollback_cluster_points(&mut cluster, cluster_ptr);
+        self.discarded.lock().unwrap().push(cluster);
+        None
+    }
+
     fn rollback_cluster_points(
         &self,
         cluster: &mut Box<Cluster<Id>>,
@@ -283,7 +298,7 @@ where
             point.cluster.compare_exchange(
                 cluster_ptr,
                 null_mut(),
-                Ordering::Relaxed,
+                Ordering::AcqRel,
                 Ordering::Relaxed,
             );
         }
-- 
2.43.0


From e6451a9b1d3ef2561d013e91de8a98002342c0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:22 +0000
Subject: [PATCH 12/18] verification hook: instrumented atomics in the parallel
 clusterer (cfg gaoya_verif)

---
 gaoya/src/clustering/clusterer_parallel.rs |  6 +-
 gaoya/src/lib.rs                           |  2 +
 gaoya/src/verif.rs                         | 80 ++++++++++++++++++++++
 3 files changed, 87 insertions(+), 1 deletion(-)
 create mode 100644 gaoya/src/verif.rs

diff --git a/gaoya/src/clustering/clusterer_parallel.rs b/gaoya/src/clustering/clusterer_parallel.rs
index 4e834d1..f904b68 100644
--- a/gaoya/src/clustering/clusterer_parallel.rs
+++ b/gaoya/src/clustering/clusterer_parallel.rs
@@ -8,7 +8,11 @@ use std::marker::PhantomData;
 use std::pin::Pin;
 use std::ptr;
 use std::ptr::null_mut;
-use std::sync::atomic::{AtomicPtr, AtomicU32, AtomicU8, Ordering};
+#[cfg(gaoya_verif)]
+use crate::verif::{AtomicPtr, AtomicU32, AtomicU8};
+#[cfg(not(gaoya_verif))]
+use std::sync::atomic::{AtomicPtr, AtomicU32, AtomicU8};
+use std::sync::atomic::Ordering;
 use std::sync::Mutex;
 use triomphe::Arc;
 
diff --git a/gaoya/src/lib.rs b/gaoya/src/lib.rs
index 9804b8e..8a44498 100644
--- a/gaoya/src/lib.rs
+++ b/gaoya/src/lib.rs
@@ -56,3 +56,5 @@ pub mod minhash;
 pub mod simhash;
 pub mod text;
 pub mod clustering;
+#[cfg(gaoya_verif)]
+pub mod verif;
diff --git a/gaoya/src/verif.rs b/gaoya/src/verif.rs
new file mode 100644
index 0000000..0ba6a19
--- /dev/null
+++ b/gaoya/src/verif.rs
@@ -0,0 +1,80 @@
+//! Instrumented atomics for the verification harness (only with `--cfg gaoya_verif`).
+//! Every operation first reports to the installed hook, which may delay the thread;
+//! dropping an atomic is reported as well.
+use std::sync::atomic::{self as std_atomic, Ordering};
+
+#[derive(Clone, Copy, PartialEq, Eq, Debug)]
+pub enum Event {
+    /// the thread is about to operate on the atomic at this address
+    Access(usize),
+    /// the atomic at this address ceases to exist
+    Drop(usize),
+}
+
+static HOOK: std_atomic::AtomicUsize = std_atomic::AtomicUsize::new(0);
+
+pub fn set_hook(hook: fn(Event)) {
+    HOOK.store(hook as usize, Ordering::SeqCst);
+}
+
+#[inline]
+pub fn report(event: Event) {
+    let hook = HOOK.load(Ordering::SeqCst);
+    if hook != 0 {
+        let hook: fn(Event) = unsafe { std::mem::transmute(hook) };
+        hook(event)
+    }
+}
+
+macro_rules! instrumented {
+    ($name:ident, [$($gen:tt)*], $value:ty) => {
+        pub struct $name $($gen)* (std_atomic::$name $($gen)*);
+        impl $($gen)* $name $($gen)* {
+            pub const fn new(value: $value) -> Self { Self(std_atomic::$name::new(value)) }
+            fn at(&self) -> usize { self as *const Self as usize }
+            pub fn load(&self, order: Ordering) -> $value { report(Event::Access(self.at())); self.0.load(order) }
+            pub fn store(&self, value: $value, order: Ordering) { report(Event::Access(self.at())); self.0.store(value, order) }
+            pub fn swap(&self, value: $value, order: Ordering) -> $value { report(Event::Access(self.at())); self.0.swap(value, order) }
+            pub fn compare_exchange(&self, current: $value, new: $value, ok: Ordering, err: Ordering) -> Result<$value, $value> {
+                report(Event::Access(self.at()));
+                self.0.compare_exchange(current, new, ok, err)
+            }
+            pub fn compare_exchange_weak(&self, current: $value, new: $value, ok: Ordering, err: Ordering) -> Result<$value, $value> {
+                self.compare_exchange(current, new, ok, err)
+            }
+            pub fn fetch_update<F: FnMut($value) -> Option<$value>>(&self, set: Ordering, fetch: Ordering, mut f: F) -> Result<$value, $value> {
+                let mut prev = self.load(fetch);
+                while let Some(next) = f(prev) {
+                    match self.compare_exchange(prev, next, set, fetch) {
+                        Ok(x) => return Ok(x),
+                        Err(x) => prev = x,
+                    }
+                }
+                Err(prev)
+            }
+            pub fn get_mut(&mut self) -> &mut $value { self.0.get_mut() }
+        }
+        impl $($gen)* Drop for $name $($gen)* {
+            fn drop(&mut self) { report(Event::Drop(self.at())) }
+        }
+        impl $($gen)* std::fmt::Debug for $name $($gen)* {
+            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.0.fmt(f) }
+        }
+    };
+}
+macro_rules! arithmetic {
+    ($name:ident, $value:ty, $($op:ident)*) => {
+        impl $name {
+            $(pub fn $op(&self, value: $value, order: Ordering) -> $value { report(Event::Access(self.at())); self.0.$op(value, order) })*
+        }
+        impl Default for $name { fn default() -> Self { Self::new(0) } }
+    };
+}
+instrumented!(AtomicPtr, [<T>], *mut T);
+instrumented!(AtomicU8, [], u8);
+instrumented!(AtomicU32, [], u32);
+arithmetic!(AtomicU8, u8, fetch_add fetch_sub fetch_and fetch_or fetch_xor fetch_max fetch_min);
+arithmetic!(AtomicU32, u32, fetch_add fetch_sub fetch_and fetch_or fetch_xor fetch_max fetch_min);
+impl<T> Default for AtomicPtr<T> {
+    fn default() -> Self { Self::new(std::ptr::null_mut()) }
+}
-- 
2.43.0


From 0ce5b43e97262cfb30ca87774869698aba8d5e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:00 +0000
Subject: [PATCH 13/18] fix: MinHashStringIndex parallel load overwrote a
 document, panicked on invalid UTF-8; loading a directory never ended

---
 gaoya/src/minhash/string_index.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/gaoya/src/minhash/string_index.rs b/gaoya/src/minhash/string_index.rs
index 4f8e947..16e2521 100644
--- a/gaoya/src/minhash/string_index.rs
+++ b/gaoya/src/minhash/string_index.rs
@@ -6,7 +6,7 @@ use std::collections::HashMap;
 use std::fmt;
 use std::fmt::{Display, Formatter, write};
 use std::fs::File;
-use std::io::{BufRead, BufReader, Error};
+use std::io::{BufRead, BufReader, Error, ErrorKind};
 use std::io::{Read, Write};
 use fnv::FnvBuildHasher;
 
@@ -51,14 +51,19 @@ impl MinHashStringIndex {
     }
 
     pub fn load_from_lines<R: Read>(&mut self, reader: &mut BufReader<R>) {
-        for line_result in reader.lines() {
-            match line_result {
-                Ok(line) => self.insert(line),
-                Err(e) => (),
-            }
+        for line in Self::readable_lines(reader) {
+            self.insert(line);
         }
     }
 
+    /// Lines that are not valid UTF-8 are skipped, any other error ends the input
+    fn readable_lines<R: BufRead>(reader: R) -> impl Iterator<Item = String> {
+        reader
+            .lines()
+            .take_while(|line| !matches!(line, Err(e) if e.kind() != ErrorKind::InvalidData))
+            .filter_map(|line| line.ok())
+    }
+
     pub fn load_from_file(&mut self, file_name: &str) -> Result<usize, Error> {
         match File::open(file_name) {
             Ok(file) => {
@@ -77,10 +82,9 @@ impl MinHashStringIndex {
             Ok(file) => {
                 let current_size = self.size();
                 let mut reader: BufReader<File> = BufReader::new(file);
-                let lines: Vec<(u64, String)> = reader
-                    .lines()
+                let lines: Vec<(u64, String)> = Self::readable_lines(reader)
                     .enumerate()
-                    .map(|v| (v.0 as u64 + self.doc_id, v.1.unwrap()))
+                    .map(|v| (v.0 as u64 + self.doc_id + 1, v.1))
                     .collect();
                 let minhashes = lines
                     .par_iter()
-- 
2.43.0


From 20ce53b54192ed605f0a52c7d2397bb4bbd93329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:50 +0000
Subject: [PATCH 14/18] fix: Python SimHash distance and bulk token queries
 called methods that do not exist

---
 py-gaoya/gaoya/simhash.py |  8 ++++----
 py-gaoya/src/sim_hash.rs  | 10 ++++++++++
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/py-gaoya/gaoya/simhash.py b/py-gaoya/gaoya/simhash.py
index 3c53b67..621f847 100644
--- a/py-gaoya/gaoya/simhash.py
+++ b/py-gaoya/gaoya/simhash.py
@@ -102,12 +102,12 @@ class SimHashStringIndex:
         """
         if callable(self.analyzer):
             if return_hamming_distance:
-                return self.index.query_tokens_return_similarity(self.analyzer(doc))
+                return self.index.query_tokens_return_distance(self.analyzer(doc))
             else:
                 return self.index.query_tokens(self.analyzer(doc))
         else:
             if return_hamming_distance:
-                return self.index.query_return_similarity(doc)
+                return self.index.query_return_distance(doc)
             else:
                 return self.index.query(doc)
 
@@ -132,11 +132,11 @@ class SimHashStringIndex:
         if callable(self.analyzer):
             analyzed_docs = [self.analyzer(doc) for doc in docs]
             if return_similarity:
-                return self.index.par_bulk_query_tokens_return_distance(analyzed_docs)
+                return self.index.par_bulk_query_tokens_return_similarity(analyzed_docs)
             else:
                 return self.index.par_bulk_query_tokens(analyzed_docs)
         else:
             if return_similarity:
-                return self.index.par_bulk_query_tokens_return_distance(docs)
+                return self.index.par_bulk_query_return_distance(docs)
             else:
                 return self.index.par_bulk_query(docs)
diff --git a/py-gaoya/src/sim_hash.rs b/py-gaoya/src/sim_hash.rs
index 1fc9454..9b5d022 100644
--- a/py-gaoya/src/sim_hash.rs
+++ b/py-gaoya/src/sim_hash.rs
@@ -156,6 +156,16 @@ macro_rules! py_simhash_index {
                 self.inner.par_bulk_query_return_distance(&signatures)
             }
 
+            pub fn par_bulk_query_tokens(&self, doc_tokens: Vec<Vec<&str>>) -> Vec<Vec<i64>> {
+                let signatures = doc_tokens.par_iter()
+                    .map(|tokens| self.sim_hash.create_signature(tokens.iter()))
+                    .collect();
+                self.inner.par_bulk_query(&signatures)
+                    .into_iter()
+                    .map(|set| set.into_iter().collect())
+                    .collect()
+            }
+
             pub fn par_bulk_query_tokens_return_similarity(&self, doc_tokens: Vec<Vec<&str>>) -> Vec<Vec<(i64, usize)>> {
                 let signatures = doc_tokens.par_iter()
                     .map(|tokens| self.sim_hash.create_signature(tokens.iter()))
-- 
2.43.0


From ac9f66e28524ad8eb461fe3dff1b17937b98804e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:50 +0000
Subject: [PATCH 15/18] fix: Python SimHash accepted any number of blocks

---
 py-gaoya/gaoya/simhash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py-gaoya/gaoya/simhash.py b/py-gaoya/gaoya/simhash.py
index 621f847..fdd5ae0 100644
--- a/py-gaoya/gaoya/simhash.py
+++ b/py-gaoya/gaoya/simhash.py
@@ -50,7 +50,7 @@ class SimHashStringIndex:
 
         if hash_size not in [64, 128]:
             raise ValueError(f"Invalid hash_size {hash_size}. hash_size must be one of of 64 or 128")
-        if num_blocks < 3 and num_blocks > 32:
+        if num_blocks < 3 or num_blocks > 32:
             raise ValueError(f"Invalid num_blocks {num_blocks}. num_blocks must be between 3 and 32")
         if hamming_distance >= num_blocks:
             raise ValueError(f"Number of blocks must be greater than hamming distance")
-- 
2.43.0


From de9f62ba5fbe3a683b929ce7470b9ef9df0dcdb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:50 +0000
Subject: [PATCH 16/18] fix: Python MinHash accepted NaN as a threshold

---
 py-gaoya/gaoya/minhash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py-gaoya/gaoya/minhash.py b/py-gaoya/gaoya/minhash.py
index e87e8ef..2717d56 100644
--- a/py-gaoya/gaoya/minhash.py
+++ b/py-gaoya/gaoya/minhash.py
@@ -93,7 +93,7 @@ class MinHashStringIndex:
                  id_container='set'):
         if hash_size not in [8, 16, 32, 64]:
             raise ValueError(f"Invalid hash_size {hash_size}. hash_size must be on of 8, 16, 32 or 64")
-        if jaccard_threshold < 0.0 or jaccard_threshold > 1.0:
+        if not 0.0 <= jaccard_threshold <= 1.0:
             raise ValueError(f"Jaccard threshold must be between 0 and 1")
         if id_container not in ("set", "vec", "smallvec"):
             raise ValueError(f"id_container must be one of ('set', 'vec', 'smallvec')")
-- 
2.43.0


From fec8e6e44b84c216aa6d21f35ee9c5d22b6c15ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:08 +0000
Subject: [PATCH 17/18] verification hook: more instrumented atomic types (cfg
 gaoya_verif)

---
 gaoya/src/clustering/clusterer_parallel.rs | 2 +-
 gaoya/src/verif.rs                         | 9 +++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/gaoya/src/clustering/clusterer_parallel.rs b/gaoya/src/clustering/clusterer_parallel.rs
index f904b68..23260d8 100644
--- a/gaoya/src/clustering/clusterer_parallel.rs
+++ b/gaoya/src/clustering/clusterer_parallel.rs
@@ -9,7 +9,7 @@ use std::pin::Pin;
 use std::ptr;
 use std::ptr::null_mut;
 #[cfg(gaoya_verif)]
-use crate::verif::{AtomicPtr, AtomicU32, AtomicU8};
+use crate::verif::*;
 #[cfg(not(gaoya_verif))]
 use std::sync::atomic::{AtomicPtr, AtomicU32, AtomicU8};
 use std::sync::atomic::Ordering;
diff --git a/gaoya/src/verif.rs b/gaoya/src/verif.rs
index 0ba6a19..73fca12 100644
--- a/gaoya/src/verif.rs
+++ b/gaoya/src/verif.rs
@@ -54,6 +54,9 @@ macro_rules! instrumented {
             }
             pub fn get_mut(&mut self) -> &mut $value { self.0.get_mut() }
         }
+        impl $($gen)* From<$value> for $name $($gen)* {
+            fn from(value: $value) -> Self { Self::new(value) }
+        }
         impl $($gen)* Drop for $name $($gen)* {
             fn drop(&mut self) { report(Event::Drop(self.at())) }
         }
@@ -73,8 +76,14 @@ macro_rules! arithmetic {
 instrumented!(AtomicPtr, [<T>], *mut T);
 instrumented!(AtomicU8, [], u8);
 instrumented!(AtomicU32, [], u32);
+instrumented!(AtomicU64, [], u64);
+instrumented!(AtomicUsize, [], usize);
+instrumented!(AtomicBool, [], bool);
 arithmetic!(AtomicU8, u8, fetch_add fetch_sub fetch_and fetch_or fetch_xor fetch_max fetch_min);
 arithmetic!(AtomicU32, u32, fetch_add fetch_sub fetch_and fetch_or fetch_xor fetch_max fetch_min);
+arithmetic!(AtomicU64, u64, fetch_add fetch_sub fetch_and fetch_or fetch_xor fetch_max fetch_min);
+arithmetic!(AtomicUsize, usize, fetch_add fetch_sub fetch_and fetch_or fetch_xor fetch_max fetch_min);
+impl Default for AtomicBool { fn default() -> Self { Self::new(false) } }
 impl<T> Default for AtomicPtr<T> {
     fn default() -> Self { Self::new(std::ptr::null_mut()) }
 }
-- 
2.43.0


From 6884b07472e415d98a9d0b7dbe6b224126a91d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:58 +0000
Subject: [PATCH 18/18] verification hook: instrumented mutex in the parallel
 clusterer (cfg gaoya_verif)

---
 gaoya/src/clustering/clusterer_parallel.rs |  1 +
 gaoya/src/verif.rs                         | 55 +++++++++++++++++++++-
 2 files changed, 55 insertions(+), 1 deletion(-)

diff --git a/gaoya/src/clustering/clusterer_parallel.rs b/gaoya/src/clustering/clusterer_parallel.rs
index 23260d8..5a7045c 100644
--- a/gaoya/src/clustering/clusterer_parallel.rs
+++ b/gaoya/src/clustering/clusterer_parallel.rs
@@ -13,6 +13,7 @@ use crate::verif::*;
 #[cfg(not(gaoya_verif))]
 use std::sync::atomic::{AtomicPtr, AtomicU32, AtomicU8};
 use std::sync::atomic::Ordering;
+#[cfg(not(gaoya_verif))]
 use std::sync::Mutex;
 use triomphe::Arc;
 
diff --git a/gaoya/src/verif.rs b/gaoya/src/verif.rs
index 73fca12..36beaa9 100644
--- a/gaoya/src/verif.rs
+++ b/gaoya/src/verif.rs
@@ -1,4 +1,4 @@
-//! Instrumented atomics for the verification harness (only with `--cfg gaoya_verif`).
+//! Instrumented atomics and locks for the verification harness (only with `--cfg gaoya_verif`).
 //! Every operation first reports to the installed hook, which may delay the thread;
 //! dropping an atomic is reported as well.
 use std::sync::atomic::{self as std_atomic, Ordering};
@@ -9,6 +9,10 @@ pub enum Event {
     Access(usize),
     /// the atomic at this address ceases to exist
     Drop(usize),
+    /// the thread is about to take or to release the lock at this address
+    Lock(usize),
+    /// the lock at this address is held by another thread, the thread will try again
+    Blocked(usize),
 }
 
 static HOOK: std_atomic::AtomicUsize = std_atomic::AtomicUsize::new(0);
@@ -87,3 +91,52 @@ impl Default for AtomicBool { fn default() -> Self { Self::new(false) } }
 impl<T> Default for AtomicPtr<T> {
     fn default() -> Self { Self::new(std::ptr::null_mut()) }
 }
+
+/// A mutex that waits by trying again, so that the hook sees every attempt.
+#[derive(Debug, Default)]
+pub struct Mutex<T: ?Sized>(std::sync::Mutex<T>);
+pub struct MutexGuard<'a, T: ?Sized>(std::sync::MutexGuard<'a, T>, usize);
+
+impl<T> Mutex<T> {
+    pub const fn new(value: T) -> Self { Self(std::sync::Mutex::new(value)) }
+    pub fn into_inner(self) -> std::sync::LockResult<T> { self.0.into_inner() }
+}
+impl<T: ?Sized> Mutex<T> {
+    fn at(&self) -> usize { self as *const Self as *const () as usize }
+    pub fn lock(&self) -> std::sync::LockResult<MutexGuard<'_, T>> {
+        report(Event::Lock(self.at()));
+        loop {
+            match self.0.try_lock() {
+                Ok(guard) => return Ok(MutexGuard(guard, self.at())),
+                Err(std::sync::TryLockError::Poisoned(p)) => return Err(std::sync::PoisonError::new(MutexGuard(p.into_inner(), self.at()))),
+                Err(std::sync::TryLockError::WouldBlock) => {
+                    report(Event::Blocked(self.at()));
+                    std::thread::yield_now();
+                }
+            }
+        }
+    }
+    pub fn try_lock(&self) -> std::sync::TryLockResult<MutexGuard<'_, T>> {
+        report(Event::Lock(self.at()));
+        match self.0.try_lock() {
+            Ok(guard) => Ok(MutexGuard(guard, self.at())),
+            Err(std::sync::TryLockError::Poisoned(p)) => Err(std::sync::PoisonError::new(MutexGuard(p.into_inner(), self.at())).into()),
+            Err(std::sync::TryLockError::WouldBlock) => Err(std::sync::TryLockError::WouldBlock),
+        }
+    }
+    pub fn get_mut(&mut self) -> std::sync::LockResult<&mut T> { self.0.get_mut() }
+}
+impl<T: ?Sized> std::ops::Deref for MutexGuard<'_, T> {
+    type Target = T;
+    fn deref(&self) -> &T { &self.0 }
+}
+impl<T: ?Sized> std::ops::DerefMut for MutexGuard<'_, T> {
+    fn deref_mut(&mut self) -> &mut T { &mut self.0 }
+}
+impl<T: ?Sized> Drop for MutexGuard<'_, T> {
+    fn drop(&mut self) {
+        if !std::thread::panicking() {
+            report(Event::Lock(self.1))
+        }
+    }
+}
-- 
2.43.0

