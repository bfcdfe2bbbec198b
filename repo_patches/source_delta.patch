From b823e0e9e81c38a4b97a4f20ac6085b674ac4d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:05 +0000
Subject: [PATCH 01/12] fix: keep DBSCAN clusters ordered by id so swatches get
 their own percentage

centroids() listed the values of a HashMap in hash order while extract() used
the position in that list as the cluster id for count_at(), so the percentage
of a swatch could be that of another cluster and the result changed from run
to run.
---
 src/math/clustering/dbscan/algorithm.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/math/clustering/dbscan/algorithm.rs b/src/math/clustering/dbscan/algorithm.rs
index 7ac2859..2ae67d2 100644
--- a/src/math/clustering/dbscan/algorithm.rs
+++ b/src/math/clustering/dbscan/algorithm.rs
@@ -5,7 +5,7 @@ use crate::math::neighbors::kdtree::KDTree;
 use crate::math::neighbors::nns::{Neighbor, NeighborSearch};
 use crate::math::number::Float;
 use crate::math::point::Point;
-use std::collections::{HashMap, VecDeque};
+use std::collections::{BTreeMap, VecDeque};
 use std::marker::PhantomData;
 
 /// DBSCAN clustering algorithm.
@@ -16,8 +16,8 @@ where
     P: Point<F>,
 {
     _t: PhantomData<F>,
-    centroids: HashMap<usize, P>,
-    membership: HashMap<usize, Vec<usize>>,
+    centroids: BTreeMap<usize, P>,
+    membership: BTreeMap<usize, Vec<usize>>,
     outliers: Vec<usize>,
 }
 
@@ -103,8 +103,8 @@ where
         if dataset.is_empty() {
             return DBSCAN {
                 _t: PhantomData::default(),
-                centroids: HashMap::new(),
-                membership: HashMap::new(),
+                centroids: BTreeMap::new(),
+                membership: BTreeMap::new(),
                 outliers: Vec::new(),
             };
         }
@@ -131,8 +131,8 @@ where
             cluster_id += 1;
         }
 
-        let mut centroids: HashMap<usize, P> = HashMap::new();
-        let mut membership: HashMap<usize, Vec<usize>> = HashMap::new();
+        let mut centroids: BTreeMap<usize, P> = BTreeMap::new();
+        let mut membership: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
         let mut outliers: Vec<usize> = Vec::new();
         for (index, label) in labels.into_iter().enumerate() {
             match label {
-- 
2.43.0


From 130f1869ec6a530457c02578ea4ad4382ce1c0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:05 +0000
Subject: [PATCH 02/12] fix: saturate out-of-gamut channels instead of
 panicking

The mean of a cluster of sRGB pixels in L*a*b* may lie outside the sRGB gamut;
converting it back panicked (for example on a red to magenta gradient).
---
 src/color/rgba.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/color/rgba.rs b/src/color/rgba.rs
index f482a27..75f54ec 100644
--- a/src/color/rgba.rs
+++ b/src/color/rgba.rs
@@ -124,7 +124,10 @@ impl Rgba {
 
     #[must_use]
     fn normalize_value<F: Float>(value: F) -> u8 {
-        value.to_u8().expect("The value could not be cast to u8")
+        value
+            .clamp(F::zero(), Self::max_value())
+            .to_u8()
+            .expect("The value could not be cast to u8")
     }
 }
 
-- 
2.43.0


From fa95bf15efc1b4d6e7fa2217e662cec06b9f6f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:05 +0000
Subject: [PATCH 03/12] fix: prune the k-d tree in the units of the distance
 metric

The distance to the splitting plane was compared unsquared with squared
radii and distances, so neighbours closer than 1 were missed with
DistanceMetric::SquaredEuclidean.
---
 src/math/distance/metric.rs      | 8 ++++++++
 src/math/neighbors/kdtree/mod.rs | 4 ++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/math/distance/metric.rs b/src/math/distance/metric.rs
index 6e8778e..15baf2d 100644
--- a/src/math/distance/metric.rs
+++ b/src/math/distance/metric.rs
@@ -22,6 +22,14 @@ impl DistanceMetric {
                 .fold(F::zero(), |total, delta| total + delta.powi(2)),
         }
     }
+
+    /// Compute the distance between two points that differ by the given delta on a single axis.
+    pub fn measure_axis<F: Float>(&self, delta: F) -> F {
+        match *self {
+            DistanceMetric::Euclidean => delta.abs(),
+            DistanceMetric::SquaredEuclidean => delta.powi(2),
+        }
+    }
 }
 
 #[cfg(test)]
diff --git a/src/math/neighbors/kdtree/mod.rs b/src/math/neighbors/kdtree/mod.rs
index dd58d37..2e2531d 100644
--- a/src/math/neighbors/kdtree/mod.rs
+++ b/src/math/neighbors/kdtree/mod.rs
@@ -69,7 +69,7 @@ where
             query[axis] - point[axis]
         };
         let distance = heap.peek().map(|e| e.distance()).unwrap_or(F::min_value());
-        if heap.len() < k || delta.abs() <= distance {
+        if heap.len() < k || self.metric.measure_axis(delta) <= distance {
             self.search_recursively(node.left(), query, k, heap);
             self.search_recursively(node.right(), query, k, heap);
         } else if delta < F::zero() {
@@ -101,7 +101,7 @@ where
             let axis = node.axis();
             query[axis] - point[axis]
         };
-        if delta.abs() <= radius {
+        if self.metric.measure_axis(delta) <= radius {
             self.search_radius_recursively(node.left(), query, radius, results);
             self.search_radius_recursively(node.right(), query, radius, results);
         } else if delta < F::zero() {
-- 
2.43.0


From 7038c953e8fe84b89d378283596074460902255d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:05 +0000
Subject: [PATCH 04/12] fix: prune the k-nearest search by the k-th distance,
 not the nearest one

Once k elements were visited, subtrees further than the nearest element were
skipped although they could hold the 2nd to k-th nearest neighbours.
---
 src/math/neighbors/kdtree/mod.rs | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/math/neighbors/kdtree/mod.rs b/src/math/neighbors/kdtree/mod.rs
index 2e2531d..2e907b6 100644
--- a/src/math/neighbors/kdtree/mod.rs
+++ b/src/math/neighbors/kdtree/mod.rs
@@ -5,6 +5,7 @@ use crate::math::point::Point;
 use element::Element;
 use node::Node;
 use std::cmp::Ordering::Greater;
+use std::cmp::Reverse;
 use std::collections::BinaryHeap;
 use std::marker::PhantomData;
 use std::ops::Div;
@@ -48,6 +49,7 @@ where
         query: &P,
         k: usize,
         heap: &mut BinaryHeap<Element<F>>,
+        nearest: &mut BinaryHeap<Reverse<Element<F>>>,
     ) {
         let Some(node) = root else {
             return;
@@ -55,11 +57,13 @@ where
 
         let index = node.index();
         let point = self.dataset[index];
-        let element = {
-            let distance = self.metric.measure(&point, query);
-            Element::new(index, distance)
-        };
-        heap.push(element);
+        let distance = self.metric.measure(&point, query);
+        heap.push(Element::new(index, distance));
+        // Keep the k nearest elements only, the furthest of them is at the top.
+        nearest.push(Reverse(Element::new(index, distance)));
+        if nearest.len() > k {
+            nearest.pop();
+        }
         if node.is_leaf() {
             return;
         }
@@ -68,14 +72,17 @@ where
             let axis = node.axis();
             query[axis] - point[axis]
         };
-        let distance = heap.peek().map(|e| e.distance()).unwrap_or(F::min_value());
-        if heap.len() < k || self.metric.measure_axis(delta) <= distance {
-            self.search_recursively(node.left(), query, k, heap);
-            self.search_recursively(node.right(), query, k, heap);
+        let distance = nearest
+            .peek()
+            .map(|e| e.0.distance())
+            .unwrap_or(F::min_value());
+        if nearest.len() < k || self.metric.measure_axis(delta) <= distance {
+            self.search_recursively(node.left(), query, k, heap, nearest);
+            self.search_recursively(node.right(), query, k, heap, nearest);
         } else if delta < F::zero() {
-            self.search_recursively(node.left(), query, k, heap);
+            self.search_recursively(node.left(), query, k, heap, nearest);
         } else {
-            self.search_recursively(node.right(), query, k, heap);
+            self.search_recursively(node.right(), query, k, heap, nearest);
         }
     }
 
@@ -147,7 +154,8 @@ where
         }
 
         let mut heap: BinaryHeap<Element<F>> = BinaryHeap::new();
-        self.search_recursively(self.root.as_ref(), query, k, &mut heap);
+        let mut nearest: BinaryHeap<Reverse<Element<F>>> = BinaryHeap::new();
+        self.search_recursively(self.root.as_ref(), query, k, &mut heap, &mut nearest);
 
         let mut neighbors = Vec::with_capacity(k);
         while let Some(element) = heap.pop() {
-- 
2.43.0


From 6186d6b0cb3d29d70e92118b8bcb650d60b8e714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:05 +0000
Subject: [PATCH 05/12] fix: do not overflow when more neighbours are requested
 than exist

A huge k reserved room for k results (capacity overflow) and a huge
min_samples overflowed when incremented.
---
 src/math/clustering/hdbscan/core_distance.rs | 2 +-
 src/math/neighbors/kdtree/mod.rs             | 2 +-
 src/math/neighbors/linear.rs                 | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/math/clustering/hdbscan/core_distance.rs b/src/math/clustering/hdbscan/core_distance.rs
index 2b7d83a..db62fa7 100644
--- a/src/math/clustering/hdbscan/core_distance.rs
+++ b/src/math/clustering/hdbscan/core_distance.rs
@@ -22,7 +22,7 @@ where
             };
         }
 
-        let k = dataset.len().min(min_samples + 1);
+        let k = dataset.len().min(min_samples.saturating_add(1));
         let dataset_vec = dataset.to_vec();
         let neighbor_search = KDTree::new(&dataset_vec, metric);
         let mut distances = Vec::with_capacity(dataset.len());
diff --git a/src/math/neighbors/kdtree/mod.rs b/src/math/neighbors/kdtree/mod.rs
index 2e907b6..0323e89 100644
--- a/src/math/neighbors/kdtree/mod.rs
+++ b/src/math/neighbors/kdtree/mod.rs
@@ -157,7 +157,7 @@ where
         let mut nearest: BinaryHeap<Reverse<Element<F>>> = BinaryHeap::new();
         self.search_recursively(self.root.as_ref(), query, k, &mut heap, &mut nearest);
 
-        let mut neighbors = Vec::with_capacity(k);
+        let mut neighbors = Vec::with_capacity(k.min(heap.len()));
         while let Some(element) = heap.pop() {
             neighbors.push(Neighbor::new(element.index(), element.distance()));
             if neighbors.len() == k {
diff --git a/src/math/neighbors/linear.rs b/src/math/neighbors/linear.rs
index b8bbc9c..38e3e92 100644
--- a/src/math/neighbors/linear.rs
+++ b/src/math/neighbors/linear.rs
@@ -52,7 +52,7 @@ where
             neighbor1.distance.partial_cmp(&neighbor2.distance).unwrap()
         });
 
-        let mut results = Vec::with_capacity(k);
+        let mut results = Vec::with_capacity(k.min(neighbors.len()));
         results.extend(neighbors.into_iter().take(k));
         results
     }
-- 
2.43.0


From b61746efeca2ed5a8f796518a344c669f0e0d0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:05 +0000
Subject: [PATCH 06/12] fix: do not double the centroids when k-means gets at
 most k points

The point was added to a cluster that already started at that point.
---
 src/math/clustering/kmeans/algorithm.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/math/clustering/kmeans/algorithm.rs b/src/math/clustering/kmeans/algorithm.rs
index f0affa6..66bc428 100644
--- a/src/math/clustering/kmeans/algorithm.rs
+++ b/src/math/clustering/kmeans/algorithm.rs
@@ -98,6 +98,7 @@ where
                 .enumerate()
                 .map(|(index, data)| {
                     let mut cluster = Cluster::new(data);
+                    cluster.clear();
                     cluster.insert(index, data);
                     cluster
                 })
-- 
2.43.0


From 6c7a15fd89d3d631d7d7c3ba0f86d6f2b16a4b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:05 +0000
Subject: [PATCH 07/12] fix: iterate k-means until every centroid has settled

A single centroid that moved less than the tolerance stopped the iteration.
---
 src/math/clustering/kmeans/algorithm.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/math/clustering/kmeans/algorithm.rs b/src/math/clustering/kmeans/algorithm.rs
index 66bc428..6fad6b3 100644
--- a/src/math/clustering/kmeans/algorithm.rs
+++ b/src/math/clustering/kmeans/algorithm.rs
@@ -58,7 +58,7 @@ where
             }
         });
 
-        let mut converged = false;
+        let mut converged = true;
         clusters
             .iter_mut()
             .zip(centroids)
@@ -70,8 +70,8 @@ where
                 cluster.update_centroid();
 
                 let difference = metric.measure(&old_centroid, cluster.centroid());
-                if difference < tolerance {
-                    converged = true;
+                if !(difference < tolerance) {
+                    converged = false;
                 }
             });
         converged
-- 
2.43.0


From 91827c5de346f9e8259ae9e88112edf2dcfd10b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:05 +0000
Subject: [PATCH 08/12] fix: keep the centroid of an empty k-means cluster

A cluster that lost all of its points was moved to the origin.
---
 src/math/clustering/kmeans/algorithm.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/math/clustering/kmeans/algorithm.rs b/src/math/clustering/kmeans/algorithm.rs
index 6fad6b3..9504be3 100644
--- a/src/math/clustering/kmeans/algorithm.rs
+++ b/src/math/clustering/kmeans/algorithm.rs
@@ -64,6 +64,7 @@ where
             .zip(centroids)
             .for_each(|(cluster, old_centroid)| {
                 if cluster.is_empty() {
+                    *cluster = Cluster::new(&old_centroid);
                     return;
                 }
 
-- 
2.43.0


From dfb5ff7ef9cabadd3851597a42bac0ca3cad5385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:05 +0000
Subject: [PATCH 09/12] fix: never choose the same point twice as an initial
 centroid

Vec::insert shifted the flags of the selected points instead of setting one,
and k-means++ fell back to a selected point when all distances were zero.
---
 src/math/clustering/kmeans/init.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/math/clustering/kmeans/init.rs b/src/math/clustering/kmeans/init.rs
index 4c99b36..aac231e 100644
--- a/src/math/clustering/kmeans/init.rs
+++ b/src/math/clustering/kmeans/init.rs
@@ -52,7 +52,7 @@ where
 
             let point = dataset.get(index);
             if let Some(centroid) = point {
-                selected.insert(index, true);
+                selected[index] = true;
                 centroids.push(*centroid);
             }
         }
@@ -69,17 +69,14 @@ where
         let mut centroids = Vec::with_capacity(k);
 
         let index = rng.gen_range(0..dataset.len());
-        selected.insert(index, true);
+        selected[index] = true;
         centroids.push(dataset[index]);
         while centroids.len() < k {
             let furthest = dataset
                 .iter()
                 .enumerate()
+                .filter(|(index, _)| !selected[*index])
                 .map(|(index, point)| -> (usize, F) {
-                    if selected[index] {
-                        return (index, F::zero());
-                    }
-
                     let min_distance = centroids
                         .iter()
                         .map(|centroid| metric.measure(point, centroid))
@@ -93,7 +90,7 @@ where
                 .max_by(|(_, a), (_, b)| a.partial_cmp(b).unwrap_or(Ordering::Greater));
 
             if let Some((index, _)) = furthest {
-                selected.insert(index, true);
+                selected[index] = true;
                 centroids.push(dataset[index]);
             } else {
                 break;
-- 
2.43.0


From 16ba387306b68ca4cf940fd1619b99fcbdac33d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:05 +0000
Subject: [PATCH 10/12] fix: label no point when partitioning an empty
 hierarchy

The number of points was derived from the number of merges, which cannot tell
an empty dataset from a single point.
---
 src/math/clustering/hierarchical/algorithm.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/math/clustering/hierarchical/algorithm.rs b/src/math/clustering/hierarchical/algorithm.rs
index fa0ea5e..262fd14 100644
--- a/src/math/clustering/hierarchical/algorithm.rs
+++ b/src/math/clustering/hierarchical/algorithm.rs
@@ -9,6 +9,7 @@ use std::collections::{BinaryHeap, VecDeque};
 
 #[derive(Debug, PartialEq)]
 pub struct HierarchicalClustering<F: Float> {
+    n_data: usize,
     hierarchy: Vec<Node<F>>,
 }
 
@@ -23,6 +24,7 @@ where
     {
         if dataset.is_empty() {
             return Self {
+                n_data: 0,
                 hierarchy: Vec::new(),
             };
         }
@@ -53,13 +55,16 @@ where
                 }
             })
             .collect();
-        Self { hierarchy: nodes }
+        Self {
+            n_data: dataset.len(),
+            hierarchy: nodes,
+        }
     }
 
     #[must_use]
     pub fn partition(&self, k: usize) -> Vec<usize> {
         let n_edge = self.hierarchy.len();
-        let n_data = n_edge + 1;
+        let n_data = self.n_data;
         assert!(k <= n_data);
 
         let mut labels = vec![0; n_data];
@@ -93,8 +98,7 @@ where
     }
 
     fn bfs(&self, root_node_id: usize, cluster_id: usize, labels: &mut [usize]) {
-        let n_edge = self.hierarchy.len();
-        let n_data = n_edge + 1;
+        let n_data = self.n_data;
         let root_node = &self.hierarchy[root_node_id - n_data];
 
         let mut queue = VecDeque::new();
-- 
2.43.0


From 64c03e600a5db8677e0c1f8f6dc27b886faece9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:05 +0000
Subject: [PATCH 11/12] fix: order swatches consistently with their equality

Different swatches with the same percentage compared as equal, so ordered
sets dropped all but one of them.
---
 src/swatch.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/swatch.rs b/src/swatch.rs
index d577134..e104d5c 100644
--- a/src/swatch.rs
+++ b/src/swatch.rs
@@ -21,7 +21,7 @@ where
     F: Float,
 {
     fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
-        self.percentage.partial_cmp(&other.percentage)
+        Some(self.cmp(other))
     }
 }
 
@@ -33,5 +33,7 @@ where
         self.percentage
             .partial_cmp(&other.percentage)
             .unwrap_or(Ordering::Equal)
+            .then_with(|| self.position.cmp(&other.position))
+            .then_with(|| self.color.cmp(&other.color))
     }
 }
-- 
2.43.0


From bfdb345d2313ca52484f437eff209201c7ebe49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:24 +0000
Subject: [PATCH 12/12] fix: do not take points of an earlier cluster when a
 new DBSCAN cluster starts

---
 src/math/clustering/dbscan/algorithm.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/math/clustering/dbscan/algorithm.rs b/src/math/clustering/dbscan/algorithm.rs
index 2ae67d2..0fe8e87 100644
--- a/src/math/clustering/dbscan/algorithm.rs
+++ b/src/math/clustering/dbscan/algorithm.rs
@@ -125,7 +125,10 @@ where
             }
 
             neighbors.iter().for_each(|neighbor| {
-                labels[neighbor.index] = Label::Marked;
+                // A point of an earlier cluster stays in that cluster.
+                if !labels[neighbor.index].is_assigned() {
+                    labels[neighbor.index] = Label::Marked;
+                }
             });
             Self::expand_cluster(cluster_id, dataset, params, &nns, &neighbors, &mut labels);
             cluster_id += 1;
-- 
2.43.0

