From 13009b644f146603391b6aec2a529ebcd23538bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:53 +0000
Subject: [PATCH 01/16] verif: guarded hooks that make private items reachable
 (cfg auto_palette_verif)

---
 src/lib.rs                                    |  2 +
 src/math/clustering/hdbscan/mod.rs            |  5 ++
 src/math/clustering/hierarchical/algorithm.rs | 11 ++++
 src/math/clustering/hierarchical/mod.rs       |  6 ++
 src/verif/color.rs                            | 29 ++++++++++
 src/verif/dbscan.rs                           | 34 +++++++++++
 src/verif/graph.rs                            | 18 ++++++
 src/verif/hdbscan.rs                          | 16 +++++
 src/verif/hierarchical.rs                     | 41 +++++++++++++
 src/verif/kmeans.rs                           | 54 +++++++++++++++++
 src/verif/mod.rs                              | 25 ++++++++
 src/verif/neighbors.rs                        | 58 +++++++++++++++++++
 12 files changed, 299 insertions(+)
 create mode 100644 src/verif/color.rs
 create mode 100644 src/verif/dbscan.rs
 create mode 100644 src/verif/graph.rs
 create mode 100644 src/verif/hdbscan.rs
 create mode 100644 src/verif/hierarchical.rs
 create mode 100644 src/verif/kmeans.rs
 create mode 100644 src/verif/mod.rs
 create mode 100644 src/verif/neighbors.rs

diff --git a/src/lib.rs b/src/lib.rs
index b005593..be35448 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2,3 +2,5 @@ mod color;
 pub mod image;
 mod math;
 pub mod swatch;
+#[cfg(auto_palette_verif)]
+pub mod verif;
diff --git a/src/math/clustering/hdbscan/mod.rs b/src/math/clustering/hdbscan/mod.rs
index 0f565bc..3ae9d77 100644
--- a/src/math/clustering/hdbscan/mod.rs
+++ b/src/math/clustering/hdbscan/mod.rs
@@ -1,3 +1,8 @@
 pub(crate) mod algorithm;
 mod core_distance;
 pub(crate) mod params;
+
+#[cfg(auto_palette_verif = "hdbscan")]
+pub(crate) mod hooks {
+    pub(crate) use super::core_distance::CoreDistance;
+}
diff --git a/src/math/clustering/hierarchical/algorithm.rs b/src/math/clustering/hierarchical/algorithm.rs
index fa0ea5e..d691314 100644
--- a/src/math/clustering/hierarchical/algorithm.rs
+++ b/src/math/clustering/hierarchical/algorithm.rs
@@ -117,6 +117,17 @@ where
     }
 }
 
+#[cfg(auto_palette_verif = "hierarchical")]
+impl<F: Float> HierarchicalClustering<F> {
+    /// Return the merges as left, right, weight and size.
+    pub(crate) fn merges(&self) -> Vec<(usize, usize, F, usize)> {
+        self.hierarchy
+            .iter()
+            .map(|node| (node.left, node.right, node.weight, node.size))
+            .collect()
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/math/clustering/hierarchical/mod.rs b/src/math/clustering/hierarchical/mod.rs
index 868c28e..1e565f4 100644
--- a/src/math/clustering/hierarchical/mod.rs
+++ b/src/math/clustering/hierarchical/mod.rs
@@ -1,3 +1,9 @@
 mod algorithm;
 mod node;
 mod union_find;
+
+#[cfg(auto_palette_verif = "hierarchical")]
+pub(crate) mod hooks {
+    pub(crate) use super::algorithm::HierarchicalClustering;
+    pub(crate) use super::union_find::UnionFind;
+}
diff --git a/src/verif/color.rs b/src/verif/color.rs
new file mode 100644
index 0000000..03419c4
--- /dev/null
+++ b/src/verif/color.rs
@@ -0,0 +1,29 @@
+use crate::color::lab::Lab;
+use crate::color::rgba::Rgba;
+use crate::color::white_point::D65;
+use crate::color::xyz::XYZ;
+use crate::math::number::Float;
+
+pub fn rgba_to_xyz<F: Float>(rgba: [u8; 4]) -> [F; 3] {
+    let rgba = Rgba::new(rgba[0], rgba[1], rgba[2], rgba[3]);
+    let xyz: XYZ<F, D65> = XYZ::from(&rgba);
+    [xyz.x, xyz.y, xyz.z]
+}
+
+pub fn xyz_to_rgba<F: Float>(xyz: [F; 3]) -> [u8; 4] {
+    let xyz: XYZ<F, D65> = XYZ::new(xyz[0], xyz[1], xyz[2]);
+    let rgba = Rgba::from(&xyz);
+    [rgba.r, rgba.g, rgba.b, rgba.a]
+}
+
+pub fn xyz_to_lab<F: Float>(xyz: [F; 3]) -> [F; 3] {
+    let xyz: XYZ<F, D65> = XYZ::new(xyz[0], xyz[1], xyz[2]);
+    let lab: Lab<F, D65> = Lab::from(&xyz);
+    [lab.l, lab.a, lab.b]
+}
+
+pub fn lab_to_xyz<F: Float>(lab: [F; 3]) -> [F; 3] {
+    let lab: Lab<F, D65> = Lab::new(lab[0], lab[1], lab[2]);
+    let xyz: XYZ<F, D65> = XYZ::from(&lab);
+    [xyz.x, xyz.y, xyz.z]
+}
diff --git a/src/verif/dbscan.rs b/src/verif/dbscan.rs
new file mode 100644
index 0000000..cb3c1a5
--- /dev/null
+++ b/src/verif/dbscan.rs
@@ -0,0 +1,34 @@
+use crate::math::clustering::dbscan::algorithm::DBSCAN;
+use crate::math::clustering::dbscan::params::Params;
+use crate::math::clustering::traits::Fit;
+use crate::math::distance::metric::DistanceMetric;
+use crate::math::number::Float;
+use crate::math::point::Point;
+
+/// What a fitted DBSCAN reports.
+pub struct Fitted<P> {
+    pub centroids: Vec<P>,
+    /// The number of members of each cluster ID, and of one ID past the last cluster.
+    pub counts: Vec<usize>,
+    pub outliers: Vec<usize>,
+}
+
+pub fn fit<F: Float, P: Point<F>>(
+    dataset: &[P],
+    min_points: usize,
+    epsilon: F,
+    metric: DistanceMetric,
+) -> Fitted<P> {
+    let params = Params::new(min_points, epsilon, metric);
+    let dbscan: DBSCAN<F, P> = DBSCAN::fit(dataset, &params);
+    let centroids = dbscan.centroids();
+    let counts = (0..=centroids.len())
+        .map(|cluster_id| dbscan.count_at(cluster_id))
+        .collect();
+    let outliers = dbscan.outliers();
+    Fitted {
+        centroids,
+        counts,
+        outliers,
+    }
+}
diff --git a/src/verif/graph.rs b/src/verif/graph.rs
new file mode 100644
index 0000000..afe1384
--- /dev/null
+++ b/src/verif/graph.rs
@@ -0,0 +1,18 @@
+use crate::math::graph::edge::Edge;
+use crate::math::graph::spanning_tree::{MinimumSpanningTree, SpanningTree};
+use crate::math::number::Float;
+
+/// Return the total weight and the edges of the spanning tree of `n` vertices.
+pub fn spanning_tree<F: Float, W: Fn(usize, usize) -> F>(
+    n: usize,
+    weight_fn: W,
+) -> (F, Vec<(usize, usize, F)>) {
+    let vertices: Vec<usize> = (0..n).collect();
+    let tree = MinimumSpanningTree::build(&vertices, weight_fn);
+    let edges = tree
+        .edges()
+        .iter()
+        .map(|edge| (edge.u(), edge.v(), edge.weight()))
+        .collect();
+    (tree.weight(), edges)
+}
diff --git a/src/verif/hdbscan.rs b/src/verif/hdbscan.rs
new file mode 100644
index 0000000..8351d0b
--- /dev/null
+++ b/src/verif/hdbscan.rs
@@ -0,0 +1,16 @@
+use crate::math::clustering::hdbscan::hooks::CoreDistance;
+use crate::math::distance::metric::DistanceMetric;
+use crate::math::number::Float;
+use crate::math::point::Point;
+
+/// Return the core distance of each point.
+pub fn core_distances<F: Float, P: Point<F>>(
+    dataset: &[P],
+    min_samples: usize,
+    metric: DistanceMetric,
+) -> Vec<F> {
+    let core_distance = CoreDistance::new(dataset, min_samples, &metric);
+    (0..dataset.len())
+        .map(|index| core_distance.distance_at(index))
+        .collect()
+}
diff --git a/src/verif/hierarchical.rs b/src/verif/hierarchical.rs
new file mode 100644
index 0000000..f38bd72
--- /dev/null
+++ b/src/verif/hierarchical.rs
@@ -0,0 +1,41 @@
+use crate::math::clustering::hierarchical::hooks::{HierarchicalClustering, UnionFind};
+use crate::math::number::Float;
+
+pub struct Hierarchy<F: Float>(HierarchicalClustering<F>);
+
+impl<F: Float> Hierarchy<F> {
+    pub fn fit<W: Fn(usize, usize) -> F>(n: usize, weight_fn: W) -> Self {
+        let dataset: Vec<usize> = (0..n).collect();
+        Self(HierarchicalClustering::fit(&dataset, weight_fn))
+    }
+
+    pub fn partition(&self, k: usize) -> Vec<usize> {
+        self.0.partition(k)
+    }
+
+    /// The merges as left, right, weight and size.
+    pub fn merges(&self) -> Vec<(usize, usize, F, usize)> {
+        self.0.merges()
+    }
+}
+
+pub struct Forest(UnionFind);
+
+impl Forest {
+    pub fn new(n: usize) -> Self {
+        Self(UnionFind::new(n))
+    }
+
+    pub fn find(&mut self, x: usize) -> usize {
+        self.0.find(x)
+    }
+
+    pub fn union(&mut self, x: usize, y: usize) -> usize {
+        self.0.union(x, y)
+    }
+
+    /// The whole state, as text.
+    pub fn state(&self) -> String {
+        format!("{:?}", self.0)
+    }
+}
diff --git a/src/verif/kmeans.rs b/src/verif/kmeans.rs
new file mode 100644
index 0000000..c9d0c31
--- /dev/null
+++ b/src/verif/kmeans.rs
@@ -0,0 +1,54 @@
+use crate::math::clustering::kmeans::algorithm::Kmeans;
+use crate::math::clustering::kmeans::init::Initializer;
+use crate::math::clustering::kmeans::params::KmeansParams;
+use crate::math::clustering::traits::Fit;
+use crate::math::distance::metric::DistanceMetric;
+use crate::math::number::Float;
+use crate::math::point::Point;
+use rand::Rng;
+
+fn initializer<R: Rng + Clone>(plus_plus: bool, rng: R) -> Initializer<R> {
+    if plus_plus {
+        Initializer::KmeansPlusPlus(rng)
+    } else {
+        Initializer::Random(rng)
+    }
+}
+
+pub fn initialize<F: Float, P: Point<F>, R: Rng + Clone>(
+    dataset: &[P],
+    k: usize,
+    metric: DistanceMetric,
+    plus_plus: bool,
+    rng: R,
+) -> Vec<P> {
+    initializer(plus_plus, rng).initialize(dataset, k, &metric)
+}
+
+#[derive(Debug, Clone, Copy)]
+pub struct Config<F: Float> {
+    pub k: usize,
+    pub metric: DistanceMetric,
+    pub plus_plus: bool,
+    pub max_iterations: usize,
+    pub tolerance: F,
+}
+
+/// Return the centroid and the number of members of each cluster.
+pub fn fit<F: Float, P: Point<F>, R: Rng + Clone>(
+    dataset: &[P],
+    config: Config<F>,
+    rng: R,
+) -> Vec<(P, usize)> {
+    let initializer = initializer(config.plus_plus, rng);
+    let params = KmeansParams::new(config.k, config.metric, initializer)
+        .with_max_iterations(config.max_iterations)
+        .with_tolerance(config.tolerance);
+    let kmeans: Kmeans<F, P> = Kmeans::fit(dataset, &params);
+    kmeans
+        .centroids()
+        .into_iter()
+        .enumerate()
+        .map(|(index, centroid)| (centroid, kmeans.count_at(index)))
+        .collect()
+}
diff --git a/src/verif/mod.rs b/src/verif/mod.rs
new file mode 100644
index 0000000..f7cebc2
--- /dev/null
+++ b/src/verif/mod.rs
@@ -0,0 +1,25 @@
+//! Verification hooks.
+//!
+//! Nothing in here is compiled unless the crate is built with `--cfg auto_palette_verif`. Each
+//! component has a cfg value of its own (`--cfg auto_palette_verif="kmeans"` and so on), so that a
+//! harness compiles only the hooks it needs. The hooks make private items reachable and change
+//! no behaviour.
+
+pub use crate::math::distance::metric::DistanceMetric;
+pub use crate::math::number::{Clamp, Float, Number};
+pub use crate::math::point::{Point, Point2, Point3, Point5};
+
+#[cfg(auto_palette_verif = "color")]
+pub mod color;
+#[cfg(auto_palette_verif = "dbscan")]
+pub mod dbscan;
+#[cfg(auto_palette_verif = "graph")]
+pub mod graph;
+#[cfg(auto_palette_verif = "hdbscan")]
+pub mod hdbscan;
+#[cfg(auto_palette_verif = "hierarchical")]
+pub mod hierarchical;
+#[cfg(auto_palette_verif = "kmeans")]
+pub mod kmeans;
+#[cfg(auto_palette_verif = "neighbors")]
+pub mod neighbors;
diff --git a/src/verif/neighbors.rs b/src/verif/neighbors.rs
new file mode 100644
index 0000000..81cb23a
--- /dev/null
+++ b/src/verif/neighbors.rs
@@ -0,0 +1,58 @@
+use crate::math::distance::metric::DistanceMetric;
+use crate::math::neighbors::kdtree::KDTree;
+use crate::math::neighbors::linear::LinearSearch;
+use crate::math::neighbors::nns::{Neighbor, NeighborSearch};
+use crate::math::number::Float;
+use crate::math::point::Point;
+
+fn pairs<F: Float>(neighbors: Vec<Neighbor<F>>) -> Vec<(usize, F)> {
+    neighbors
+        .into_iter()
+        .map(|neighbor| (neighbor.index, neighbor.distance))
+        .collect()
+}
+
+/// A search engine of this crate.
+pub trait Search<F: Float, P: Point<F>> {
+    fn search(&self, query: &P, k: usize) -> Vec<(usize, F)>;
+    fn search_nearest(&self, query: &P) -> Option<(usize, F)>;
+    fn search_radius(&self, query: &P, radius: F) -> Vec<(usize, F)>;
+}
+
+macro_rules! impl_search {
+    ($name:ident, $engine:ident) => {
+        pub struct $name<'a, F: Float, P: Point<F>>($engine<'a, F, P>);
+
+        impl<F: Float, P: Point<F>> Search<F, P> for $name<'_, F, P> {
+            fn search(&self, query: &P, k: usize) -> Vec<(usize, F)> {
+                pairs(self.0.search(query, k))
+            }
+
+            fn search_nearest(&self, query: &P) -> Option<(usize, F)> {
+                let neighbor = self.0.search_nearest(query)?;
+                Some((neighbor.index, neighbor.distance))
+            }
+
+            fn search_radius(&self, query: &P, radius: F) -> Vec<(usize, F)> {
+                pairs(self.0.search_radius(query, radius))
+            }
+        }
+    };
+}
+
+impl_search!(Tree, KDTree);
+impl_search!(Linear, LinearSearch);
+
+pub fn tree<'a, F: Float, P: Point<F>>(
+    dataset: &'a Vec<P>,
+    metric: &'a DistanceMetric,
+) -> Tree<'a, F, P> {
+    Tree(KDTree::new(dataset, metric))
+}
+
+pub fn linear<F: Float, P: Point<F>>(
+    dataset: &Vec<P>,
+    metric: DistanceMetric,
+) -> Linear<'_, F, P> {
+    Linear(LinearSearch::new(dataset, metric))
+}
-- 
2.43.0


From 994c91f75aa463fa11b68805adc80e94cdabe69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:43 +0000
Subject: [PATCH 02/16] verif: format hooks

---
 src/verif/neighbors.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/verif/neighbors.rs b/src/verif/neighbors.rs
index 81cb23a..baaf018 100644
--- a/src/verif/neighbors.rs
+++ b/src/verif/neighbors.rs
@@ -50,9 +50,6 @@ pub fn tree<'a, F: Float, P: Point<F>>(
     Tree(KDTree::new(dataset, metric))
 }
 
-pub fn linear<F: Float, P: Point<F>>(
-    dataset: &Vec<P>,
-    metric: DistanceMetric,
-) -> Linear<'_, F, P> {
+pub fn linear<F: Float, P: Point<F>>(dataset: &Vec<P>, metric: DistanceMetric) -> Linear<'_, F, P> {
     Linear(LinearSearch::new(dataset, metric))
 }
-- 
2.43.0


From 672ca11a6edffd17e4fcf1bf92ec8d108b493e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:05 +0000
Subject: [PATCH 03/16] fix: list DBSCAN centroids in order of cluster ID

---
 src/math/clustering/dbscan/algorithm.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/math/clustering/dbscan/algorithm.rs b/src/math/clustering/dbscan/algorithm.rs
index 7ac2859..eb85110 100644
--- a/src/math/clustering/dbscan/algorithm.rs
+++ b/src/math/clustering/dbscan/algorithm.rs
@@ -26,11 +26,10 @@ where
     F: Float,
     P: Point<F>,
 {
-    /// Return a set of centroid.
+    /// Return the centroids in order of cluster ID.
     pub fn centroids(&self) -> Vec<P> {
-        self.centroids
-            .values()
-            .map(|centroid| centroid.clone())
+        (0..self.centroids.len())
+            .filter_map(|cluster_id| self.centroids.get(&cluster_id).copied())
             .collect()
     }
 
-- 
2.43.0


From 3ed27391d8b0b27833b7ac8ec6984c949bc0e92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:08 +0000
Subject: [PATCH 04/16] fix: saturate colors outside of the sRGB gamut instead
 of panicking

---
 src/color/rgba.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/color/rgba.rs b/src/color/rgba.rs
index f482a27..75f54ec 100644
--- a/src/color/rgba.rs
+++ b/src/color/rgba.rs
@@ -124,7 +124,10 @@ impl Rgba {
 
     #[must_use]
     fn normalize_value<F: Float>(value: F) -> u8 {
-        value.to_u8().expect("The value could not be cast to u8")
+        value
+            .clamp(F::zero(), Self::max_value())
+            .to_u8()
+            .expect("The value could not be cast to u8")
     }
 }
 
-- 
2.43.0


From 122b630a0b6a17fc7d911cdb325c99d495c57756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:11 +0000
Subject: [PATCH 05/16] fix: mark the selected index instead of shifting the
 marks of initial centroids

---
 src/math/clustering/kmeans/init.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/math/clustering/kmeans/init.rs b/src/math/clustering/kmeans/init.rs
index 4c99b36..427103e 100644
--- a/src/math/clustering/kmeans/init.rs
+++ b/src/math/clustering/kmeans/init.rs
@@ -52,7 +52,7 @@ where
 
             let point = dataset.get(index);
             if let Some(centroid) = point {
-                selected.insert(index, true);
+                selected[index] = true;
                 centroids.push(*centroid);
             }
         }
@@ -69,7 +69,7 @@ where
         let mut centroids = Vec::with_capacity(k);
 
         let index = rng.gen_range(0..dataset.len());
-        selected.insert(index, true);
+        selected[index] = true;
         centroids.push(dataset[index]);
         while centroids.len() < k {
             let furthest = dataset
@@ -93,7 +93,7 @@ where
                 .max_by(|(_, a), (_, b)| a.partial_cmp(b).unwrap_or(Ordering::Greater));
 
             if let Some((index, _)) = furthest {
-                selected.insert(index, true);
+                selected[index] = true;
                 centroids.push(dataset[index]);
             } else {
                 break;
-- 
2.43.0


From 4aee3fbb2e2c26ab5f200bb314e739a9944991ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:15 +0000
Subject: [PATCH 06/16] fix: never select an initial centroid twice in
 k-means++

---
 src/math/clustering/kmeans/init.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/math/clustering/kmeans/init.rs b/src/math/clustering/kmeans/init.rs
index 427103e..aac231e 100644
--- a/src/math/clustering/kmeans/init.rs
+++ b/src/math/clustering/kmeans/init.rs
@@ -75,11 +75,8 @@ where
             let furthest = dataset
                 .iter()
                 .enumerate()
+                .filter(|(index, _)| !selected[*index])
                 .map(|(index, point)| -> (usize, F) {
-                    if selected[index] {
-                        return (index, F::zero());
-                    }
-
                     let min_distance = centroids
                         .iter()
                         .map(|centroid| metric.measure(point, centroid))
-- 
2.43.0


From c5a18dd61c74f8fe9c0b0d431a6ce3dc0990ac68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:19 +0000
Subject: [PATCH 07/16] fix: do not double the centroids when k is not less
 than the number of points

---
 src/math/clustering/kmeans/algorithm.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/math/clustering/kmeans/algorithm.rs b/src/math/clustering/kmeans/algorithm.rs
index f0affa6..66bc428 100644
--- a/src/math/clustering/kmeans/algorithm.rs
+++ b/src/math/clustering/kmeans/algorithm.rs
@@ -98,6 +98,7 @@ where
                 .enumerate()
                 .map(|(index, data)| {
                     let mut cluster = Cluster::new(data);
+                    cluster.clear();
                     cluster.insert(index, data);
                     cluster
                 })
-- 
2.43.0


From 33f53b4c4129f0494ae655244b6df71d2d8acf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:22 +0000
Subject: [PATCH 08/16] fix: k-means converges only when every centroid has
 settled

---
 src/math/clustering/kmeans/algorithm.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/math/clustering/kmeans/algorithm.rs b/src/math/clustering/kmeans/algorithm.rs
index 66bc428..ffc194c 100644
--- a/src/math/clustering/kmeans/algorithm.rs
+++ b/src/math/clustering/kmeans/algorithm.rs
@@ -58,7 +58,7 @@ where
             }
         });
 
-        let mut converged = false;
+        let mut converged = true;
         clusters
             .iter_mut()
             .zip(centroids)
@@ -70,8 +70,8 @@ where
                 cluster.update_centroid();
 
                 let difference = metric.measure(&old_centroid, cluster.centroid());
-                if difference < tolerance {
-                    converged = true;
+                if difference >= tolerance {
+                    converged = false;
                 }
             });
         converged
-- 
2.43.0


From 7cf8049b55904ccf81332d61f6d74cf7a5758acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:26 +0000
Subject: [PATCH 09/16] fix: keep the centroid of a k-means cluster without
 points

---
 src/math/clustering/kmeans/algorithm.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/math/clustering/kmeans/algorithm.rs b/src/math/clustering/kmeans/algorithm.rs
index ffc194c..b3f3905 100644
--- a/src/math/clustering/kmeans/algorithm.rs
+++ b/src/math/clustering/kmeans/algorithm.rs
@@ -64,6 +64,7 @@ where
             .zip(centroids)
             .for_each(|(cluster, old_centroid)| {
                 if cluster.is_empty() {
+                    *cluster = Cluster::new(&old_centroid);
                     return;
                 }
 
-- 
2.43.0


From 963ab2dc548cdb76243d8e4b2cfeca5a60c18367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:30 +0000
Subject: [PATCH 10/16] fix: label no points when partitioning an empty dataset

---
 src/math/clustering/hierarchical/algorithm.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/math/clustering/hierarchical/algorithm.rs b/src/math/clustering/hierarchical/algorithm.rs
index d691314..3743f18 100644
--- a/src/math/clustering/hierarchical/algorithm.rs
+++ b/src/math/clustering/hierarchical/algorithm.rs
@@ -9,6 +9,7 @@ use std::collections::{BinaryHeap, VecDeque};
 
 #[derive(Debug, PartialEq)]
 pub struct HierarchicalClustering<F: Float> {
+    n_data: usize,
     hierarchy: Vec<Node<F>>,
 }
 
@@ -23,6 +24,7 @@ where
     {
         if dataset.is_empty() {
             return Self {
+                n_data: 0,
                 hierarchy: Vec::new(),
             };
         }
@@ -53,13 +55,16 @@ where
                 }
             })
             .collect();
-        Self { hierarchy: nodes }
+        Self {
+            n_data: dataset.len(),
+            hierarchy: nodes,
+        }
     }
 
     #[must_use]
     pub fn partition(&self, k: usize) -> Vec<usize> {
         let n_edge = self.hierarchy.len();
-        let n_data = n_edge + 1;
+        let n_data = self.n_data;
         assert!(k <= n_data);
 
         let mut labels = vec![0; n_data];
@@ -93,8 +98,7 @@ where
     }
 
     fn bfs(&self, root_node_id: usize, cluster_id: usize, labels: &mut [usize]) {
-        let n_edge = self.hierarchy.len();
-        let n_data = n_edge + 1;
+        let n_data = self.n_data;
         let root_node = &self.hierarchy[root_node_id - n_data];
 
         let mut queue = VecDeque::new();
-- 
2.43.0


From df0e0b3e5bb46fc656ec8f3acaa140a2d21f1629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:33 +0000
Subject: [PATCH 11/16] fix: do not reserve more neighbors than there are
 points

---
 src/math/neighbors/kdtree/mod.rs | 2 +-
 src/math/neighbors/linear.rs     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/neighbors/kdtree/mod.rs b/src/math/neighbors/kdtree/mod.rs
index dd58d37..6215e2d 100644
--- a/src/math/neighbors/kdtree/mod.rs
+++ b/src/math/neighbors/kdtree/mod.rs
@@ -149,7 +149,7 @@ where
         let mut heap: BinaryHeap<Element<F>> = BinaryHeap::new();
         self.search_recursively(self.root.as_ref(), query, k, &mut heap);
 
-        let mut neighbors = Vec::with_capacity(k);
+        let mut neighbors = Vec::with_capacity(k.min(heap.len()));
         while let Some(element) = heap.pop() {
             neighbors.push(Neighbor::new(element.index(), element.distance()));
             if neighbors.len() == k {
diff --git a/src/math/neighbors/linear.rs b/src/math/neighbors/linear.rs
index b8bbc9c..38e3e92 100644
--- a/src/math/neighbors/linear.rs
+++ b/src/math/neighbors/linear.rs
@@ -52,7 +52,7 @@ where
             neighbor1.distance.partial_cmp(&neighbor2.distance).unwrap()
         });
 
-        let mut results = Vec::with_capacity(k);
+        let mut results = Vec::with_capacity(k.min(neighbors.len()));
         results.extend(neighbors.into_iter().take(k));
         results
     }
-- 
2.43.0


From 8874a9e0362e18b30419e4583afbd22f1c8f488e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:04 +0000
Subject: [PATCH 12/16] fix: prune the k-nearest search of the KDTree by the
 k-th nearest point

---
 src/math/neighbors/kdtree/mod.rs | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/math/neighbors/kdtree/mod.rs b/src/math/neighbors/kdtree/mod.rs
index 6215e2d..43ab71f 100644
--- a/src/math/neighbors/kdtree/mod.rs
+++ b/src/math/neighbors/kdtree/mod.rs
@@ -5,6 +5,7 @@ use crate::math::point::Point;
 use element::Element;
 use node::Node;
 use std::cmp::Ordering::Greater;
+use std::cmp::Reverse;
 use std::collections::BinaryHeap;
 use std::marker::PhantomData;
 use std::ops::Div;
@@ -48,6 +49,7 @@ where
         query: &P,
         k: usize,
         heap: &mut BinaryHeap<Element<F>>,
+        nearest: &mut BinaryHeap<Reverse<Element<F>>>,
     ) {
         let Some(node) = root else {
             return;
@@ -55,11 +57,13 @@ where
 
         let index = node.index();
         let point = self.dataset[index];
-        let element = {
-            let distance = self.metric.measure(&point, query);
-            Element::new(index, distance)
-        };
-        heap.push(element);
+        let distance = self.metric.measure(&point, query);
+        heap.push(Element::new(index, distance));
+        // Keep the k nearest of the visited points, the farthest of them on top.
+        nearest.push(Reverse(Element::new(index, distance)));
+        if nearest.len() > k {
+            nearest.pop();
+        }
         if node.is_leaf() {
             return;
         }
@@ -68,14 +72,17 @@ where
             let axis = node.axis();
             query[axis] - point[axis]
         };
-        let distance = heap.peek().map(|e| e.distance()).unwrap_or(F::min_value());
-        if heap.len() < k || delta.abs() <= distance {
-            self.search_recursively(node.left(), query, k, heap);
-            self.search_recursively(node.right(), query, k, heap);
+        let distance = nearest
+            .peek()
+            .map(|Reverse(e)| e.distance())
+            .unwrap_or(F::min_value());
+        if nearest.len() < k || delta.abs() <= distance {
+            self.search_recursively(node.left(), query, k, heap, nearest);
+            self.search_recursively(node.right(), query, k, heap, nearest);
         } else if delta < F::zero() {
-            self.search_recursively(node.left(), query, k, heap);
+            self.search_recursively(node.left(), query, k, heap, nearest);
         } else {
-            self.search_recursively(node.right(), query, k, heap);
+            self.search_recursively(node.right(), query, k, heap, nearest);
         }
     }
 
@@ -147,7 +154,8 @@ where
         }
 
         let mut heap: BinaryHeap<Element<F>> = BinaryHeap::new();
-        self.search_recursively(self.root.as_ref(), query, k, &mut heap);
+        let mut nearest: BinaryHeap<Reverse<Element<F>>> = BinaryHeap::new();
+        self.search_recursively(self.root.as_ref(), query, k, &mut heap, &mut nearest);
 
         let mut neighbors = Vec::with_capacity(k.min(heap.len()));
         while let Some(element) = heap.pop() {
-- 
2.43.0


From 3f7c1a25c1ed79d44b9bb0fce871183ce55eb0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:08 +0000
Subject: [PATCH 13/16] fix: compare squared distances with squared offsets
 when pruning the KDTree

---
 src/math/distance/metric.rs      | 8 ++++++++
 src/math/neighbors/kdtree/mod.rs | 4 ++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/math/distance/metric.rs b/src/math/distance/metric.rs
index 6e8778e..6450c47 100644
--- a/src/math/distance/metric.rs
+++ b/src/math/distance/metric.rs
@@ -22,6 +22,14 @@ impl DistanceMetric {
                 .fold(F::zero(), |total, delta| total + delta.powi(2)),
         }
     }
+
+    /// Compute the distance between two points which differ by the given delta on a single axis.
+    pub fn measure_axis<F: Float>(&self, delta: F) -> F {
+        match *self {
+            DistanceMetric::Euclidean => delta.abs(),
+            DistanceMetric::SquaredEuclidean => delta.powi(2),
+        }
+    }
 }
 
 #[cfg(test)]
diff --git a/src/math/neighbors/kdtree/mod.rs b/src/math/neighbors/kdtree/mod.rs
index 43ab71f..2ea56c2 100644
--- a/src/math/neighbors/kdtree/mod.rs
+++ b/src/math/neighbors/kdtree/mod.rs
@@ -76,7 +76,7 @@ where
             .peek()
             .map(|Reverse(e)| e.distance())
             .unwrap_or(F::min_value());
-        if nearest.len() < k || delta.abs() <= distance {
+        if nearest.len() < k || self.metric.measure_axis(delta) <= distance {
             self.search_recursively(node.left(), query, k, heap, nearest);
             self.search_recursively(node.right(), query, k, heap, nearest);
         } else if delta < F::zero() {
@@ -108,7 +108,7 @@ where
             let axis = node.axis();
             query[axis] - point[axis]
         };
-        if delta.abs() <= radius {
+        if self.metric.measure_axis(delta) <= radius {
             self.search_radius_recursively(node.left(), query, radius, results);
             self.search_radius_recursively(node.right(), query, radius, results);
         } else if delta < F::zero() {
-- 
2.43.0


From a79676cc009f2f0fc96a151d810663dc8303ea4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:21 +0000
Subject: [PATCH 14/16] fix: keep rounding errors from adding up in the
 centroids of large DBSCAN clusters

---
 src/math/clustering/dbscan/algorithm.rs | 32 +++++++++++++++----------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/math/clustering/dbscan/algorithm.rs b/src/math/clustering/dbscan/algorithm.rs
index eb85110..c7eaa29 100644
--- a/src/math/clustering/dbscan/algorithm.rs
+++ b/src/math/clustering/dbscan/algorithm.rs
@@ -45,6 +45,21 @@ where
         self.outliers.clone()
     }
 
+    /// Compute the mean of the given points. The summation is compensated (Kahan's algorithm), so
+    /// that rounding errors do not add up over the points of a large cluster.
+    fn compute_centroid(dataset: &[P], children: &[usize]) -> P {
+        let mut centroid = P::zero();
+        let mut compensation = P::zero();
+        for index in children {
+            let point = dataset[*index].sub(compensation);
+            let total = centroid.add(point);
+            compensation = total.sub(centroid).sub(point);
+            centroid = total;
+        }
+        centroid.div_assign(F::from_usize(children.len()));
+        centroid
+    }
+
     fn expand_cluster<N>(
         cluster_id: usize,
         dataset: &[P],
@@ -130,18 +145,11 @@ where
             cluster_id += 1;
         }
 
-        let mut centroids: HashMap<usize, P> = HashMap::new();
         let mut membership: HashMap<usize, Vec<usize>> = HashMap::new();
         let mut outliers: Vec<usize> = Vec::new();
         for (index, label) in labels.into_iter().enumerate() {
             match label {
                 Label::Assigned(cluster_id) => {
-                    let centroid = {
-                        let entry = centroids.entry(cluster_id);
-                        entry.or_insert(P::zero())
-                    };
-                    centroid.add_assign(dataset[index]);
-
                     let children = {
                         let entry = membership.entry(cluster_id);
                         entry.or_insert(Vec::new())
@@ -155,12 +163,10 @@ where
             }
         }
 
-        for (cluster_id, centroid) in centroids.iter_mut() {
-            let Some(children) = membership.get(cluster_id) else {
-                continue;
-            };
-            centroid.div_assign(F::from_usize(children.len()));
-        }
+        let centroids = membership
+            .iter()
+            .map(|(cluster_id, children)| (*cluster_id, Self::compute_centroid(dataset, children)))
+            .collect();
 
         DBSCAN {
             _t: PhantomData::default(),
-- 
2.43.0


From 16aeb307a48556bae154abc1ca22f4608e0a3d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:22 +0000
Subject: [PATCH 15/16] fix: do not overflow on the greatest minimum sample
 count of core distances

---
 src/math/clustering/hdbscan/core_distance.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/clustering/hdbscan/core_distance.rs b/src/math/clustering/hdbscan/core_distance.rs
index 2b7d83a..db62fa7 100644
--- a/src/math/clustering/hdbscan/core_distance.rs
+++ b/src/math/clustering/hdbscan/core_distance.rs
@@ -22,7 +22,7 @@ where
             };
         }
 
-        let k = dataset.len().min(min_samples + 1);
+        let k = dataset.len().min(min_samples.saturating_add(1));
         let dataset_vec = dataset.to_vec();
         let neighbor_search = KDTree::new(&dataset_vec, metric);
         let mut distances = Vec::with_capacity(dataset.len());
-- 
2.43.0


From 649d822490b7b140826ed8ca23d5e217aa213b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:48 +0000
Subject: [PATCH 16/16] verif: report sizes of identifiers far past the last
 cluster

---
 src/verif/dbscan.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/verif/dbscan.rs b/src/verif/dbscan.rs
index cb3c1a5..3402325 100644
--- a/src/verif/dbscan.rs
+++ b/src/verif/dbscan.rs
@@ -11,6 +11,8 @@ pub struct Fitted<P> {
     /// The number of members of each cluster ID, and of one ID past the last cluster.
     pub counts: Vec<usize>,
     pub outliers: Vec<usize>,
+    /// The number of members of cluster IDs far past the last cluster.
+    pub strays: Vec<usize>,
 }
 
 pub fn fit<F: Float, P: Point<F>>(
@@ -26,9 +28,25 @@ pub fn fit<F: Float, P: Point<F>>(
         .map(|cluster_id| dbscan.count_at(cluster_id))
         .collect();
     let outliers = dbscan.outliers();
+    let clusters = centroids.len();
+    let strays = [
+        clusters + 1,
+        clusters + 2,
+        clusters + (1 << 8),
+        clusters + (1 << 16),
+        clusters + (1 << 32),
+        u32::MAX as usize,
+        isize::MAX as usize,
+        usize::MAX - 1,
+        usize::MAX,
+    ]
+    .into_iter()
+    .map(|cluster_id| dbscan.count_at(cluster_id))
+    .collect();
     Fitted {
         centroids,
         counts,
         outliers,
+        strays,
     }
 }
-- 
2.43.0

