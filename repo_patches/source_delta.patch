From 07ffef88490ea0173af6b001cf15fa2fcb1ab356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:20 +0000
Subject: [PATCH 01/30] fix: end building a nearest-neighbour tree when rows
 can't be separated

Identical rows (or rows in a range too narrow to be halved) made the split
search loop for ever once there were at least leafsize of them.
---
 src/learning/knn/binary_tree.rs | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/learning/knn/binary_tree.rs b/src/learning/knn/binary_tree.rs
index c9f3618..d458078 100644
--- a/src/learning/knn/binary_tree.rs
+++ b/src/learning/knn/binary_tree.rs
@@ -266,7 +266,8 @@ impl<B: BinarySplit> BinaryTree<B> {
         }
     }
 
-    /// Select next split dimension and value. Returns tuple with 6 elements
+    /// Select next split dimension and value. Returns `None` if the remaining rows
+    /// can't be separated, otherwise a tuple with 6 elements
     /// - split dim
     /// - split value
     /// - remains for left node
@@ -275,7 +276,13 @@ impl<B: BinarySplit> BinaryTree<B> {
     /// - updated min for right node
     fn select_split(&self, data: &Matrix<f64>, mut remains: Vec<usize>,
                     mut dmin: Vector<f64>, mut dmax: Vector<f64>)
-        -> (usize, f64, Vec<usize>, Vec<usize>, Vector<f64>, Vector<f64>){
+        -> Option<(usize, f64, Vec<usize>, Vec<usize>, Vector<f64>, Vector<f64>)> {
+
+        let identical = remains.windows(2)
+            .all(|w| (0..data.cols()).all(|c| data[[w[0], c]] == data[[w[1], c]]));
+        if identical {
+            return None;
+        }
 
         // avoid recursive call
         loop {
@@ -306,11 +313,19 @@ impl<B: BinarySplit> BinaryTree<B> {
             l_remains.shrink_to_fit();
 
             if l_remains.is_empty() {
-                // all rows are in r_remains. re-split r_remains
+                // all rows are in r_remains. re-split r_remains,
+                // unless the range is too narrow to be halved
+                if !(dmin[dim] < split) {
+                    return None;
+                }
                 remains = r_remains;
                 dmin[dim] = split;
             } else if r_remains.is_empty() {
-                // all rows are in l_remains. re-split l_remains
+                // all rows are in l_remains. re-split l_remains,
+                // unless the range is too narrow to be halved
+                if !(split < dmax[dim]) {
+                    return None;
+                }
                 remains = l_remains;
                 dmax[dim] = split;
             } else {
@@ -323,7 +338,7 @@ impl<B: BinarySplit> BinaryTree<B> {
                 let mut r_min = dmin.clone();
                 r_min[dim] = split;
 
-                return (dim, split, l_remains, r_remains, l_max, r_min);
+                return Some((dim, split, l_remains, r_remains, l_max, r_min));
             }
         };
     }
@@ -338,7 +353,11 @@ impl<B: BinarySplit> BinaryTree<B> {
 
             // ToDo: avoid this clone
             let (dim, split, l_remains, r_remains, l_max, r_min) =
-                self.select_split(data, remains.clone(), dmin.clone(), dmax.clone());
+                match self.select_split(data, remains.clone(), dmin.clone(), dmax.clone()) {
+                    Some(s) => s,
+                    // e.g. all the remaining rows are identical
+                    None => return Node::Leaf(Leaf::new(remains)),
+                };
 
             let l_node = self.split(data, l_remains, dmin.clone(), l_max);
             let g_node = self.split(data, r_remains, r_min, dmax.clone());
-- 
2.43.0


From 5866bc9cf18b9b5fb08297da03b40c03ad199897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:46 +0000
Subject: [PATCH 02/30] fix: keep looking for neighbours until k have been
 found

While fewer than k neighbours were known, adding one returned the farthest
distance so far, which made the tree searches skip rows farther than that
although they were needed to complete the k nearest.
---
 src/learning/knn/mod.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/learning/knn/mod.rs b/src/learning/knn/mod.rs
index fe6d4c0..ea291f8 100644
--- a/src/learning/knn/mod.rs
+++ b/src/learning/knn/mod.rs
@@ -168,16 +168,10 @@ impl KNearest {
     }
 
     /// Add new index and distances to the container, keeping first k elements which
-    /// distances are smaller. Returns the updated farthest distance.
+    /// distances are smaller. Returns the updated k-th distance, see `dist`.
     fn add(&mut self, index: usize, distance: f64) -> f64 {
         // self.pairs can't be empty
         let len = self.pairs.len();
-        // index of the last element after the query
-        let last_index: usize = if len < self.k {
-            len
-        } else {
-            len - 1
-        };
 
         unsafe {
             if self.pairs.get_unchecked(len - 1).1 < distance {
@@ -185,7 +179,6 @@ impl KNearest {
                     // append to the last
                     self.pairs.push((index, distance));
                 }
-                self.pairs.get_unchecked(last_index).1
             } else {
                 // last element is already compared
                 if len >= self.k {
@@ -195,13 +188,13 @@ impl KNearest {
                 for i in 2..(len + 1) {
                     if self.pairs.get_unchecked(len - i).1 < distance {
                         self.pairs.insert(len - i + 1, (index, distance));
-                        return self.pairs.get_unchecked(last_index).1;
+                        return self.dist();
                     }
                 }
                 self.pairs.insert(0, (index, distance));
-                self.pairs.get_unchecked(last_index).1
             }
         }
+        self.dist()
     }
 
     /// Return the k-th distance with searching point
-- 
2.43.0


From e78838fb93ad5ebbccf4f0befb3bd716396ca591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:07 +0000
Subject: [PATCH 03/30] fix: refuse nearest-neighbour searches for 0 neighbours
 or at a point of another width

Both made the tree searches read out of bounds (get_unchecked on an empty
container, and on the point at the split dimension).
---
 src/learning/knn/binary_tree.rs |  3 ++-
 src/learning/knn/brute_force.rs |  3 ++-
 src/learning/knn/mod.rs         | 13 +++++++++++++
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/learning/knn/binary_tree.rs b/src/learning/knn/binary_tree.rs
index d458078..9060e26 100644
--- a/src/learning/knn/binary_tree.rs
+++ b/src/learning/knn/binary_tree.rs
@@ -5,7 +5,7 @@ use std::collections::VecDeque;
 use linalg::{Matrix, BaseMatrix, Vector};
 use learning::error::Error;
 
-use super::{KNearest, KNearestSearch, get_distances, dist};
+use super::{KNearest, KNearestSearch, check_search, get_distances, dist};
 
 /// Binary tree
 #[derive(Debug)]
@@ -416,6 +416,7 @@ impl<B: BinarySplit> KNearestSearch for BinaryTree<B> {
     /// Serch k-nearest items close to the point
     fn search(&self, point: &[f64], k: usize) -> Result<(Vec<usize>, Vec<f64>), Error> {
         if let Some(ref data) = self.data {
+            check_search(data, point, k)?;
             let (mut query, mut queue) = self.search_leaf(point, k)?;
             while !queue.is_empty() {
                 let current = queue.pop_front().unwrap();
diff --git a/src/learning/knn/brute_force.rs b/src/learning/knn/brute_force.rs
index d200c09..1e37347 100644
--- a/src/learning/knn/brute_force.rs
+++ b/src/learning/knn/brute_force.rs
@@ -2,7 +2,7 @@
 use linalg::{Matrix, BaseMatrix};
 use learning::error::Error;
 
-use super::{KNearest, KNearestSearch, get_distances, dist};
+use super::{KNearest, KNearestSearch, check_search, get_distances, dist};
 
 /// Perform brute-force search
 #[derive(Debug)]
@@ -52,6 +52,7 @@ impl KNearestSearch for BruteForce {
     /// Serch k-nearest items close to the point
     fn search(&self, point: &[f64], k: usize) -> Result<(Vec<usize>, Vec<f64>), Error> {
         if let Some(ref data) = self.data {
+            check_search(data, point, k)?;
             let indices: Vec<usize> = (0..k).collect();
             let distances = get_distances(data, point, &indices);
 
diff --git a/src/learning/knn/mod.rs b/src/learning/knn/mod.rs
index ea291f8..5f2f604 100644
--- a/src/learning/knn/mod.rs
+++ b/src/learning/knn/mod.rs
@@ -253,6 +253,19 @@ fn freq(labels: &[usize]) -> (Vector<usize>, Vector<usize>) {
     (Vector::new(uniques), Vector::new(counts))
 }
 
+/// Check that the arguments of a search fit to the data
+fn check_search(data: &Matrix<f64>, point: &[f64], k: usize) -> Result<(), Error> {
+    if k == 0 {
+        return Err(Error::new(ErrorKind::InvalidParameters,
+                              "number of neighbors to search must be positive"));
+    }
+    if point.len() != data.cols() {
+        return Err(Error::new(ErrorKind::InvalidData,
+                              "point and data must have the same number of columns"));
+    }
+    Ok(())
+}
+
 /// Return distances between given point and data specified with row ids
 fn get_distances(data: &Matrix<f64>, point: &[f64], ids: &[usize]) -> Vec<f64> {
     assert!(!ids.is_empty(), "target ids is empty");
-- 
2.43.0


From 73a56414b8e5c89ce1fedcb25c0afabc53c7e476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:04 +0000
Subject: [PATCH 04/30] fix: keep the centroid of a k-means cluster that has
 lost all its rows

---
 src/learning/k_means.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/learning/k_means.rs b/src/learning/k_means.rs
index 398aae6..0b4fecc 100644
--- a/src/learning/k_means.rs
+++ b/src/learning/k_means.rs
@@ -218,9 +218,18 @@ impl<InitAlg: Initializer> KMeansClassifier<InitAlg> {
             row_indexes.get_mut(c as usize).map(|v| v.push(i));
         }
 
-        for vec_i in row_indexes {
-            let mat_i = inputs.select_rows(&vec_i);
-            new_centroids.extend(mat_i.mean(Axes::Row).into_vec());
+        for (i, vec_i) in row_indexes.into_iter().enumerate() {
+            match self.centroids {
+                // There is no mean of no rows: such a centroid stays where it is.
+                Some(ref centroids) if vec_i.is_empty() => {
+                    let start = i * inputs.cols();
+                    new_centroids.extend_from_slice(&centroids.data()[start..start + inputs.cols()]);
+                }
+                _ => {
+                    let mat_i = inputs.select_rows(&vec_i);
+                    new_centroids.extend(mat_i.mean(Axes::Row).into_vec());
+                }
+            }
         }
 
         self.centroids = Some(Matrix::new(self.k, inputs.cols(), new_centroids));
-- 
2.43.0


From 73c78f7ffffce9119873d9189ac75f90e80a2671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:04 +0000
Subject: [PATCH 05/30] fix: let k-means++ choose a row when the drawn value
 rounds up to the sum

---
 src/learning/k_means.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/learning/k_means.rs b/src/learning/k_means.rs
index 0b4fecc..c44e700 100644
--- a/src/learning/k_means.rs
+++ b/src/learning/k_means.rs
@@ -386,5 +386,10 @@ fn sample_discretely(unnorm_dist: &Vector<f64>) -> usize {
         }
     }
 
+    // Rounding can bring the drawn value up to the sum itself.
+    if let Some(i) = unnorm_dist.data().iter().rposition(|p| *p > 0.0) {
+        return i;
+    }
+
     panic!("No random value was sampled! There may be more clusters than unique data points.");
 }
-- 
2.43.0


From 52fd8db62386903b3a567f1c71994780395e9235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:04 +0000
Subject: [PATCH 06/30] fix: give DBSCAN border rows the cluster they are
 within eps of

---
 src/learning/dbscan.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/learning/dbscan.rs b/src/learning/dbscan.rs
index e7bbdee..0563b22 100644
--- a/src/learning/dbscan.rs
+++ b/src/learning/dbscan.rs
@@ -180,6 +180,12 @@ impl DBSCAN {
         self.clusters.as_mut().map(|x| x.mut_data()[point_idx] = Some(cluster));
 
         for data_point_idx in &neighbour_pts {
+            // A row within eps of a core row is no noise, core or not.
+            if let Some(ref mut clusters) = self.clusters {
+                let label = &mut clusters.mut_data()[*data_point_idx];
+                *label = label.or(Some(cluster));
+            }
+
             let visited = self._visited[*data_point_idx];
             if !visited {
                 self._visited[*data_point_idx] = true;
-- 
2.43.0


From bfd0ebd931432026d8f2cc52238a4343f8ae659c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:04 +0000
Subject: [PATCH 07/30] fix: forget the rows of an earlier DBSCAN training

---
 src/learning/dbscan.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/learning/dbscan.rs b/src/learning/dbscan.rs
index 0563b22..c14a502 100644
--- a/src/learning/dbscan.rs
+++ b/src/learning/dbscan.rs
@@ -96,9 +96,11 @@ impl UnSupModel<Matrix<f64>, Vector<Option<usize>>> for DBSCAN {
             }
         }
 
-        if self.predictive {
-            self._cluster_data = Some(inputs.clone());
-        }
+        self._cluster_data = if self.predictive {
+            Some(inputs.clone())
+        } else {
+            None
+        };
 
         Ok(())
     }
-- 
2.43.0


From 459979a26fb59c61e4b7f2f13eb32652ae284af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:38 +0000
Subject: [PATCH 08/30] fix: add the whole regularization constant to every
 mixture covariance

---
 src/learning/gmm.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/learning/gmm.rs b/src/learning/gmm.rs
index 4c7e713..ef77e0b 100644
--- a/src/learning/gmm.rs
+++ b/src/learning/gmm.rs
@@ -327,12 +327,13 @@ impl GaussianMixtureModel {
                 cov_mat += self.compute_cov(diff, membership_weights[[i, k]]);
             }
 
+            cov_mat /= sum_weights[k];
+
             if let CovOption::Regularized(eps) = self.cov_option {
                 cov_mat += Matrix::<f64>::identity(cov_mat.cols()) * eps;
             }
 
-            new_covs.push(cov_mat / sum_weights[k]);
-
+            new_covs.push(cov_mat);
         }
 
         self.model_means = Some(new_means);
-- 
2.43.0


From 7f1bdd8798b4ecb987f03dbdaa8e13362c14e006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:38 +0000
Subject: [PATCH 09/30] fix: compute mixture memberships of rows whose
 densities underflow

---
 src/learning/gmm.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/learning/gmm.rs b/src/learning/gmm.rs
index ef77e0b..e7854e5 100644
--- a/src/learning/gmm.rs
+++ b/src/learning/gmm.rs
@@ -31,13 +31,14 @@
 //! println!("{:?}", post_probs.data());
 //! ```
 use linalg::{Matrix, MatrixSlice, Vector, BaseMatrix, BaseMatrixMut, Axes};
-use rulinalg::utils;
 use rulinalg::matrix::decomposition::{PartialPivLu};
 
 use learning::{LearningResult, UnSupModel};
 use learning::toolkit::rand_utils;
 use learning::error::{Error, ErrorKind};
 
+use std::f64;
+
 /// Covariance options for GMMs.
 ///
 /// - Full : The full covariance structure.
@@ -276,25 +277,28 @@ impl GaussianMixtureModel {
         // Now we compute the membership weights
         if let Some(ref means) = self.model_means {
             for i in 0..n {
-                let mut pdfs = Vec::with_capacity(self.comp_count);
+                // In logarithms, as the densities of a row far from every mean underflow
+                let mut log_pdfs = Vec::with_capacity(self.comp_count);
                 let x_i = MatrixSlice::from_matrix(inputs, [i, 0], 1, inputs.cols());
 
                 for j in 0..self.comp_count {
                     let mu_j = MatrixSlice::from_matrix(means, [j, 0], 1, means.cols());
                     let diff = x_i - mu_j;
 
-                    let pdf = (&diff * &cov_invs[j] * diff.transpose() * -0.5).into_vec()[0]
-                        .exp() / cov_sqrt_dets[j];
-                    pdfs.push(pdf);
+                    let log_pdf = (&diff * &cov_invs[j] * diff.transpose() * -0.5).into_vec()[0] -
+                        cov_sqrt_dets[j].ln();
+                    log_pdfs.push(self.mix_weights[j].ln() + log_pdf);
                 }
 
-                let weighted_pdf_sum = utils::dot(&pdfs, self.mix_weights.data());
+                let max_log_pdf = log_pdfs.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
+                let pdfs = log_pdfs.iter().map(|l| (l - max_log_pdf).exp()).collect::<Vec<f64>>();
+                let pdf_sum = pdfs.iter().sum::<f64>();
 
-                for (idx, pdf) in pdfs.iter().enumerate() {
-                    member_weights_data.push(self.mix_weights[idx] * pdf / (weighted_pdf_sum));
+                for pdf in pdfs {
+                    member_weights_data.push(pdf / pdf_sum);
                 }
 
-                log_lik += weighted_pdf_sum.ln();
+                log_lik += max_log_pdf + pdf_sum.ln();
             }
         }
 
-- 
2.43.0


From 37d8eee4158328dcb80006393bc70e61294eb227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:38 +0000
Subject: [PATCH 10/30] fix: start training a mixture model again from its
 initial weights

---
 src/learning/gmm.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/learning/gmm.rs b/src/learning/gmm.rs
index e7854e5..d57dd68 100644
--- a/src/learning/gmm.rs
+++ b/src/learning/gmm.rs
@@ -59,6 +59,7 @@ pub enum CovOption {
 #[derive(Debug)]
 pub struct GaussianMixtureModel {
     comp_count: usize,
+    initial_weights: Vector<f64>,
     mix_weights: Vector<f64>,
     model_means: Option<Matrix<f64>>,
     model_covars: Option<Vec<Matrix<f64>>>,
@@ -80,6 +81,9 @@ impl UnSupModel<Matrix<f64>, Matrix<f64>> for GaussianMixtureModel {
         // Initialization:
         let k = self.comp_count;
 
+        self.mix_weights = self.initial_weights.clone();
+        self.log_lik = 0f64;
+
         self.model_covars = {
             let cov_mat = self.initialize_covariances(inputs, reg_value)?;
             Some(vec![cov_mat; k])
@@ -132,6 +136,7 @@ impl GaussianMixtureModel {
     pub fn new(k: usize) -> GaussianMixtureModel {
         GaussianMixtureModel {
             comp_count: k,
+            initial_weights: Vector::ones(k) / (k as f64),
             mix_weights: Vector::ones(k) / (k as f64),
             model_means: None,
             model_covars: None,
@@ -174,6 +179,7 @@ impl GaussianMixtureModel {
 
             Ok(GaussianMixtureModel {
                 comp_count: k,
+                initial_weights: normalized_weights.clone(),
                 mix_weights: normalized_weights,
                 model_means: None,
                 model_covars: None,
-- 
2.43.0


From 1c33643d6e7aa970a7a378acc516d81c0cef25a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:13 +0000
Subject: [PATCH 11/30] fix: return an error when a mixture covariance is
 singular

---
 src/learning/gmm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/learning/gmm.rs b/src/learning/gmm.rs
index d57dd68..d588966 100644
--- a/src/learning/gmm.rs
+++ b/src/learning/gmm.rs
@@ -268,7 +268,7 @@ impl GaussianMixtureModel {
 
         if let Some(ref covars) = self.model_covars {
             for cov in covars {
-                let lup = PartialPivLu::decompose(cov.clone()).expect("Covariance could not be lup decomposed");
+                let lup = PartialPivLu::decompose(cov.clone()).map_err(Error::from)?;
                 let covar_det = lup.det();
                 // TODO: We can probably remove this inverse for a more stable solve elsewhere.
                 let covar_inv = lup.inverse().map_err(Error::from)?;
-- 
2.43.0


From 1f5e1abfd45b76e943b45b9fef25e6cfb3c40f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:29 +0000
Subject: [PATCH 12/30] fix: weight the kernel values with the support vectors
 found so far when training an SVM

---
 src/learning/svm.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/learning/svm.rs b/src/learning/svm.rs
index 0ff3f07..07e37c3 100644
--- a/src/learning/svm.rs
+++ b/src/learning/svm.rs
@@ -151,12 +151,14 @@ impl<K: Kernel> SupModel<Matrix<f64>, Vector<f64>> for SVM<K> {
         let ones = Matrix::<f64>::ones(inputs.rows(), 1);
         let full_inputs = ones.hcat(inputs);
 
-        for t in 0..self.optim_iters {
+        for t in 1..(self.optim_iters + 1) {
             let i = rng.gen_range(0, n);
             let row_i = full_inputs.select_rows(&[i]);
             let sum = full_inputs.row_iter()
-                .fold(0f64, |sum, row| sum + self.ker.kernel(row_i.data(), row.raw_slice())) *
-                      targets[i] / (self.lambda * (t as f64));
+                .zip(alpha.iter().zip(targets.data()))
+                .fold(0f64, |sum, (row, (a, y))| {
+                    sum + a * y * self.ker.kernel(row_i.data(), row.raw_slice())
+                }) * targets[i] / (self.lambda * (t as f64));
 
             if sum < 1f64 {
                 alpha[i] += 1f64;
-- 
2.43.0


From 632729c19ee8d6e7edcc44a17145a439a874548f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:42 +0000
Subject: [PATCH 13/30] fix: keep the first n principal components, not
 features, of data with fewer rows than columns

---
 src/learning/pca.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/learning/pca.rs b/src/learning/pca.rs
index 743b9b7..1bd6360 100644
--- a/src/learning/pca.rs
+++ b/src/learning/pca.rs
@@ -30,6 +30,8 @@ use linalg::Vector;
 use learning::{LearningResult, UnSupModel};
 use learning::error::{Error, ErrorKind};
 
+use std::cmp;
+
 /// Principal Component Analysis
 ///
 /// - PCA uses rulinalg SVD which is experimental (not yet work for large data)
@@ -182,18 +184,17 @@ impl UnSupModel<Matrix<f64>, Matrix<f64>> for PCA {
             inputs.clone()
         };
         let (_, _, mut v) = data.svd().unwrap();
+        if let Some(c) = self.n {
+            // There are no more components than rows
+            let slicer: Vec<usize> = (0..cmp::min(c, v.cols())).collect();
+            v = v.select_cols(&slicer);
+        }
+
         if inputs.cols() > inputs.rows() {
             v = v.transpose();
             self.inv = true;
         }
-
-        self.components = match self.n {
-            Some(c) => {
-                let slicer: Vec<usize> = (0..c).collect();
-                Some(v.select_cols(&slicer))
-            },
-            None => Some(v)
-        };
+        self.components = Some(v);
         self.n_features = Some(inputs.cols());
         Ok(())
     }
-- 
2.43.0


From 79ad4f0a8d7c67f8d0aad9ffce92aedb299af3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:42 +0000
Subject: [PATCH 14/30] fix: forget that an earlier PCA training had fewer rows
 than columns

---
 src/learning/pca.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/learning/pca.rs b/src/learning/pca.rs
index 1bd6360..ad3b017 100644
--- a/src/learning/pca.rs
+++ b/src/learning/pca.rs
@@ -190,9 +190,9 @@ impl UnSupModel<Matrix<f64>, Matrix<f64>> for PCA {
             v = v.select_cols(&slicer);
         }
 
-        if inputs.cols() > inputs.rows() {
+        self.inv = inputs.cols() > inputs.rows();
+        if self.inv {
             v = v.transpose();
-            self.inv = true;
         }
         self.components = Some(v);
         self.n_features = Some(inputs.cols());
-- 
2.43.0


From 861865ca7d3e4ba2ac2bac2eec685153c0dc0a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:50 +0000
Subject: [PATCH 15/30] fix: return an error when generalized linear model
 inputs have no inverse

---
 src/learning/glm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/learning/glm.rs b/src/learning/glm.rs
index aa69a7e..1cf0f5b 100644
--- a/src/learning/glm.rs
+++ b/src/learning/glm.rs
@@ -119,7 +119,7 @@ impl<C: Criterion> SupModel<Matrix<f64>, Vector<f64>> for GenLinearModel<C> {
 
             let new_beta = (&x_t_w * &full_inputs)
                 .inverse()
-                .expect("Could not compute input data inverse.") *
+                .map_err(Error::from)? *
                            x_t_w * z;
             let diff = (beta - &new_beta).apply(&|x| x.abs()).sum();
             beta = new_beta;
-- 
2.43.0


From 309ed6108a964eac216919aaed190173ce887521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:15 +0000
Subject: [PATCH 16/30] fix: adjust the fit of a generalized linear model at
 the current means

---
 src/learning/glm.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/learning/glm.rs b/src/learning/glm.rs
index 1cf0f5b..ff468eb 100644
--- a/src/learning/glm.rs
+++ b/src/learning/glm.rs
@@ -110,10 +110,7 @@ impl<C: Criterion> SupModel<Matrix<f64>, Vector<f64>> for GenLinearModel<C> {
         // Iterate to convergence
         for _ in 0..8 {
             let w_diag = self.criterion.compute_working_weight(mu.data());
-            let y_bar_data = self.criterion.compute_y_bar(targets.data(), mu.data());
-
             let w = Matrix::from_diag(&w_diag);
-            let y_bar = Vector::new(y_bar_data);
 
             let x_t_w = &x_t * w;
 
@@ -128,10 +125,10 @@ impl<C: Criterion> SupModel<Matrix<f64>, Vector<f64>> for GenLinearModel<C> {
                 break;
             }
 
-            // Update z and mu
+            // Update mu and z
             let fitted = &full_inputs * &beta;
-            z = y_bar + &fitted;
-            mu = self.criterion.apply_link_inv(fitted);
+            mu = self.criterion.apply_link_inv(fitted.clone());
+            z = Vector::new(self.criterion.compute_y_bar(targets.data(), mu.data())) + fitted;
         }
 
         self.parameters = Some(beta);
-- 
2.43.0


From fb61f152891d4a50d3554a28e61976b422a8ec8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:55 +0000
Subject: [PATCH 17/30] fix: start fitting generalized linear models on the
 scale of the link

---
 src/learning/glm.rs | 30 +++---------------------------
 1 file changed, 3 insertions(+), 27 deletions(-)

diff --git a/src/learning/glm.rs b/src/learning/glm.rs
index ff468eb..8fea709 100644
--- a/src/learning/glm.rs
+++ b/src/learning/glm.rs
@@ -100,7 +100,7 @@ impl<C: Criterion> SupModel<Matrix<f64>, Vector<f64>> for GenLinearModel<C> {
 
         // Construct initial estimate for mu
         let mut mu = Vector::new(self.criterion.initialize_mu(targets.data()));
-        let mut z = mu.clone();
+        let mut z = self.criterion.apply_link_func(mu.clone());
         let mut beta: Vector<f64> = Vector::new(vec![0f64; inputs.cols() + 1]);
 
         let ones = Matrix::<f64>::ones(inputs.rows(), 1);
@@ -310,19 +310,7 @@ impl Criterion for Bernoulli {
     }
 
     fn initialize_mu(&self, y: &[f64]) -> Vec<f64> {
-        let mut mu_data = Vec::with_capacity(y.len());
-
-        for y_val in y {
-            mu_data.push(if *y_val < 1e-10 {
-                1e-10
-            } else if *y_val > 1f64 - 1e-10 {
-                1f64 - 1e-10
-            } else {
-                *y_val
-            });
-        }
-
-        mu_data
+        y.iter().map(|y_val| (y_val + 0.5) / 2f64).collect()
     }
 
     fn compute_working_weight(&self, mu: &[f64]) -> Vec<f64> {
@@ -379,19 +367,7 @@ impl Criterion for Binomial {
     }
 
     fn initialize_mu(&self, y: &[f64]) -> Vec<f64> {
-        let mut mu_data = Vec::with_capacity(y.len());
-
-        for y_val in y {
-            mu_data.push(if *y_val < 1e-10 {
-                1e-10
-            } else if *y_val > 1f64 - 1e-10 {
-                1f64 - 1e-10
-            } else {
-                *y_val
-            });
-        }
-
-        mu_data
+        y.iter().map(|y_val| (y_val + 0.5) / 2f64).collect()
     }
 
     fn compute_working_weight(&self, mu: &[f64]) -> Vec<f64> {
-- 
2.43.0


From 772a6539058e2c1e76c102a43932177fa70773dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:07 +0000
Subject: [PATCH 18/30] fix: don't stop gradient descent before its first step
 when the cost there is 0

---
 src/learning/optim/grad_desc.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/learning/optim/grad_desc.rs b/src/learning/optim/grad_desc.rs
index 1e11487..c90345b 100644
--- a/src/learning/optim/grad_desc.rs
+++ b/src/learning/optim/grad_desc.rs
@@ -15,6 +15,8 @@ use rulinalg::utils;
 
 use learning::toolkit::rand_utils;
 
+use std::f64;
+
 const LEARNING_EPS: f64 = 1e-20;
 
 /// Batch Gradient Descent algorithm
@@ -76,7 +78,7 @@ impl<M: Optimizable> OptimAlgorithm<M> for GradientDesc {
         // Create the initial optimal parameters
         let mut optimizing_val = Vector::new(start.to_vec());
         // The cost at the start of each iteration
-        let mut start_iter_cost = 0f64;
+        let mut start_iter_cost = f64::INFINITY;
 
         for _ in 0..self.iters {
             // Compute the cost and gradient for the current parameters
@@ -171,7 +173,7 @@ impl<M> OptimAlgorithm<M> for StochasticGD
         // Set up the indices for permutation
         let mut permutation = (0..inputs.rows()).collect::<Vec<_>>();
         // The cost at the start of each iteration
-        let mut start_iter_cost = 0f64;
+        let mut start_iter_cost = f64::INFINITY;
 
         for _ in 0..self.iters {
             // The cost at the end of each stochastic gd pass
@@ -270,7 +272,7 @@ impl<M: Optimizable<Inputs = Matrix<f64>, Targets = Matrix<f64>>> OptimAlgorithm
         // Set up the indices for permutation
         let mut permutation = (0..inputs.rows()).collect::<Vec<_>>();
         // The cost at the start of each iteration
-        let mut start_iter_cost = 0f64;
+        let mut start_iter_cost = f64::INFINITY;
 
         for _ in 0..self.iters {
             // The cost at the end of each stochastic gd pass
@@ -384,7 +386,7 @@ impl<M> OptimAlgorithm<M> for RMSProp
         // Set up indices for permutation
         let mut permutation = (0..inputs.rows()).collect::<Vec<_>>();
         // The cost from the previous iteration
-        let mut prev_cost = 0f64;
+        let mut prev_cost = f64::INFINITY;
 
         for _ in 0..self.iters {
             // The cost at end of each pass
-- 
2.43.0


From c24dad5117bf6d2165ec1fa8a71290e7b8a007c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:13 +0000
Subject: [PATCH 19/30] fix: naive Bayes: a failed training no longer mixes new
 parameters with old priors

---
 src/learning/naive_bayes.rs | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/src/learning/naive_bayes.rs b/src/learning/naive_bayes.rs
index a36a712..7fb0a7b 100644
--- a/src/learning/naive_bayes.rs
+++ b/src/learning/naive_bayes.rs
@@ -107,8 +107,8 @@ impl<T: Distribution> NaiveBayes<T> {
 impl<T: Distribution> SupModel<Matrix<f64>, Matrix<f64>> for NaiveBayes<T> {
     /// Train the model using inputs and targets.
     fn train(&mut self, inputs: &Matrix<f64>, targets: &Matrix<f64>) -> LearningResult<()> {
-        self.distr = Some(T::from_model_params(targets.cols(), inputs.cols()));
-        self.update_params(inputs, targets)
+        let distr = T::from_model_params(targets.cols(), inputs.cols());
+        self.update_params(distr, inputs, targets)
     }
 
     /// Predict output from inputs.
@@ -145,11 +145,15 @@ impl<T: Distribution> NaiveBayes<T> {
         }
     }
 
-    fn update_params(&mut self, inputs: &Matrix<f64>, targets: &Matrix<f64>) -> LearningResult<()> {
+    fn update_params(&mut self,
+                     mut distr: T,
+                     inputs: &Matrix<f64>,
+                     targets: &Matrix<f64>)
+                     -> LearningResult<()> {
         let class_count = targets.cols();
         let total_data = inputs.rows();
 
-        self.class_counts = vec![0; class_count];
+        let mut class_counts = vec![0; class_count];
         let mut class_data = vec![Vec::new(); class_count];
 
         for (idx, row) in targets.row_iter().enumerate() {
@@ -158,27 +162,28 @@ impl<T: Distribution> NaiveBayes<T> {
 
             // Note the class of the input
             class_data[class].push(idx);
-            self.class_counts[class] += 1;
+            class_counts[class] += 1;
         }
 
-        if let Some(ref mut distr) = self.distr {
-            for (idx, c) in class_data.into_iter().enumerate() {
-                // If this class' vector has not been populated, we can safely
-                // skip this iteration, since the user is clearly not interested
-                // in associating features with this class
-                if c.is_empty() {
-                    continue;
-                }
-                // Update the parameters within this class
-                distr.update_params(&inputs.select_rows(&c), idx)?;
+        for (idx, c) in class_data.into_iter().enumerate() {
+            // If this class' vector has not been populated, we can safely
+            // skip this iteration, since the user is clearly not interested
+            // in associating features with this class
+            if c.is_empty() {
+                continue;
             }
+            // Update the parameters within this class
+            distr.update_params(&inputs.select_rows(&c), idx)?;
         }
 
         let mut class_prior = Vec::with_capacity(class_count);
 
         // Compute the prior as the proportion in each class
-        class_prior.extend(self.class_counts.iter().map(|c| *c as f64 / total_data as f64));
+        class_prior.extend(class_counts.iter().map(|c| *c as f64 / total_data as f64));
 
+        // Only a completed training replaces the earlier one
+        self.distr = Some(distr);
+        self.class_counts = class_counts;
         self.class_prior = Some(class_prior);
         self.cluster_count = Some(class_count);
         Ok(())
-- 
2.43.0


From 7ba6c3e6ee261708932f66f95c6815750e1ea3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:13 +0000
Subject: [PATCH 20/30] fix: naive Bayes: a class without training rows got NaN
 probabilities and was predicted

---
 src/learning/naive_bayes.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/learning/naive_bayes.rs b/src/learning/naive_bayes.rs
index 7fb0a7b..7f4dbf1 100644
--- a/src/learning/naive_bayes.rs
+++ b/src/learning/naive_bayes.rs
@@ -45,6 +45,7 @@ use learning::{LearningResult, SupModel};
 use learning::error::{Error, ErrorKind};
 use rulinalg::utils;
 
+use std::f64;
 use std::f64::consts::PI;
 
 /// The Naive Bayes model.
@@ -139,7 +140,15 @@ impl<T: Distribution> NaiveBayes<T> {
 
         if let (&Some(ref distr), &Some(ref prior)) = (&self.distr, &self.class_prior) {
             // Get the joint log likelihood from the distribution
-            distr.joint_log_lik(inputs, prior)
+            let mut log_probs = distr.joint_log_lik(inputs, prior)?;
+
+            // A class without training data has no parameters and is never the most likely
+            for (class, _) in prior.iter().enumerate().filter(|&(_, p)| *p == 0f64) {
+                for row in 0..log_probs.rows() {
+                    log_probs[[row, class]] = f64::NEG_INFINITY;
+                }
+            }
+            Ok(log_probs)
         } else {
             Err(Error::new_untrained())
         }
-- 
2.43.0


From a545b8af920e51f9019869c4b98708c1b993b6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:14 +0000
Subject: [PATCH 21/30] fix: naive Bayes: rows without targets were counted in
 the priors

---
 src/learning/naive_bayes.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/learning/naive_bayes.rs b/src/learning/naive_bayes.rs
index 7f4dbf1..deae520 100644
--- a/src/learning/naive_bayes.rs
+++ b/src/learning/naive_bayes.rs
@@ -108,6 +108,10 @@ impl<T: Distribution> NaiveBayes<T> {
 impl<T: Distribution> SupModel<Matrix<f64>, Matrix<f64>> for NaiveBayes<T> {
     /// Train the model using inputs and targets.
     fn train(&mut self, inputs: &Matrix<f64>, targets: &Matrix<f64>) -> LearningResult<()> {
+        if inputs.rows() != targets.rows() {
+            return Err(Error::new(ErrorKind::InvalidData,
+                                  "Inputs and targets must have the same number of rows."));
+        }
         let distr = T::from_model_params(targets.cols(), inputs.cols());
         self.update_params(distr, inputs, targets)
     }
-- 
2.43.0


From 595871c5687ee8c6db7df8880d4d63fdf863e1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:36 +0000
Subject: [PATCH 22/30] fix: min-max scaling: data without rows or with an
 overflowing range was mapped to a constant

---
 src/data/transforms/minmax.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/data/transforms/minmax.rs b/src/data/transforms/minmax.rs
index 2f02e9d..001f0aa 100644
--- a/src/data/transforms/minmax.rs
+++ b/src/data/transforms/minmax.rs
@@ -112,7 +112,11 @@ impl<T: Float> TransformFitter<Matrix<T>, MinMaxScaler<T>> for MinMaxFitter<T> {
         let scales = input_min_max.iter()
             .map(|&(x, y)| {
                 let s = (self.scaled_max - self.scaled_min) / (y - x);
-                if s.is_finite() {
+                if !(y - x).is_finite() {
+                    // No rows, or a range beyond the largest float
+                    Err(Error::new(ErrorKind::InvalidData,
+                                   "The range of a feature column is not finite."))
+                } else if s.is_finite() {
                     Ok(s)
                 } else {
                     Err(Error::new(ErrorKind::InvalidData,
-- 
2.43.0


From 2cd7b87a3365e32f398df6912b96d8ce2291bcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:32 +0000
Subject: [PATCH 23/30] fix: the message of a linear algebra error was replaced
 by a deprecation note

---
 src/learning/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/learning/error.rs b/src/learning/error.rs
index c04ff34..bde4de1 100644
--- a/src/learning/error.rs
+++ b/src/learning/error.rs
@@ -59,7 +59,7 @@ impl Error {
 
 impl From<rulinalg::error::Error> for Error {
     fn from(e: rulinalg::error::Error) -> Error {
-        Error::new(ErrorKind::LinearAlgebra, <rulinalg::error::Error as error::Error>::description(&e))
+        Error::new(ErrorKind::LinearAlgebra, e.to_string())
     }
 }
 
-- 
2.43.0


From 8c1ca0d212c7ef5c07c1f131f66230ae92fe6b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:32 +0000
Subject: [PATCH 24/30] fix: SVM training accepted inputs and targets of
 different lengths

---
 src/learning/svm.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/learning/svm.rs b/src/learning/svm.rs
index 07e37c3..f029e86 100644
--- a/src/learning/svm.rs
+++ b/src/learning/svm.rs
@@ -144,6 +144,11 @@ impl<K: Kernel> SupModel<Matrix<f64>, Vector<f64>> for SVM<K> {
     fn train(&mut self, inputs: &Matrix<f64>, targets: &Vector<f64>) -> LearningResult<()> {
         let n = inputs.rows();
 
+        if n != targets.size() {
+            return Err(Error::new(ErrorKind::InvalidData,
+                                  "Training data do not have the same dimensions"));
+        }
+
         let mut rng = rand::thread_rng();
 
         let mut alpha = vec![0f64; n];
-- 
2.43.0


From b177f855d3addf215103a818693c548fd5986175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:02 +0000
Subject: [PATCH 25/30] fix: networks accepted inputs and targets of different
 lengths

---
 src/learning/nnet/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/learning/nnet/mod.rs b/src/learning/nnet/mod.rs
index 5a7fe8d..9e20951 100644
--- a/src/learning/nnet/mod.rs
+++ b/src/learning/nnet/mod.rs
@@ -45,7 +45,7 @@
 
 pub mod net_layer;
 
-use linalg::{Matrix, MatrixSlice};
+use linalg::{BaseMatrix, Matrix, MatrixSlice};
 use rulinalg::utils;
 
 use learning::{LearningResult, SupModel};
@@ -87,6 +87,11 @@ impl<T, A> SupModel<Matrix<f64>, Matrix<f64>> for NeuralNet<T, A>
 
     /// Train the model using gradient optimization and back propagation.
     fn train(&mut self, inputs: &Matrix<f64>, targets: &Matrix<f64>) -> LearningResult<()> {
+        if inputs.rows() != targets.rows() {
+            return Err(Error::new(ErrorKind::InvalidData,
+                                  "Inputs and targets must have the same number of rows."));
+        }
+
         let optimal_w = self.alg.optimize(&self.base, &self.base.weights, inputs, targets);
         self.base.weights = optimal_w;
         Ok(())
-- 
2.43.0


From a54ec52becbad318dffe017168175bd95eb20f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:20 +0000
Subject: [PATCH 26/30] fix: networks read past the end of too few weights, and
 uninitialised gradients

---
 src/learning/nnet/mod.rs | 55 ++++++++++++++--------------------------
 1 file changed, 19 insertions(+), 36 deletions(-)

diff --git a/src/learning/nnet/mod.rs b/src/learning/nnet/mod.rs
index 9e20951..6b4514b 100644
--- a/src/learning/nnet/mod.rs
+++ b/src/learning/nnet/mod.rs
@@ -309,7 +309,7 @@ impl<T: Criterion> BaseNeuralNet<T> {
     }
 
     /// Gets matrix of weights for the specified layer for the weights.
-    fn get_layer_weights(&self, weights: &[f64], idx: usize) -> MatrixSlice<f64> {
+    fn get_layer_weights<'a>(&self, weights: &'a [f64], idx: usize) -> MatrixSlice<'a, f64> {
         debug_assert!(idx < self.layers.len());
 
         // Check that the weights are the right size.
@@ -319,13 +319,7 @@ impl<T: Criterion> BaseNeuralNet<T> {
 
         let start: usize = self.layers.iter().take(idx).map(|l| l.num_params()).sum();
 
-        let shape = self.layers[idx].param_shape();
-        unsafe {
-            MatrixSlice::from_raw_parts(weights.as_ptr().offset(start as isize),
-                                        shape.0,
-                                        shape.1,
-                                        shape.1)
-        }
+        layer_params(&*self.layers[idx], weights, start)
     }
 
     /// Compute the gradient using the back propagation algorithm.
@@ -334,10 +328,7 @@ impl<T: Criterion> BaseNeuralNet<T> {
                     inputs: &Matrix<f64>,
                     targets: &Matrix<f64>)
                     -> (f64, Vec<f64>) {
-        let mut gradients = Vec::with_capacity(weights.len());
-        unsafe {
-            gradients.set_len(weights.len());
-        }
+        let mut gradients = vec![0f64; weights.len()];
         // activations[i] is the output of layer[i]
         let mut activations = Vec::with_capacity(self.layers.len());
         // params[i] is the weights for layer[i]
@@ -347,14 +338,7 @@ impl<T: Criterion> BaseNeuralNet<T> {
         
         let mut index = 0;
         for (i, layer) in self.layers.iter().enumerate() {
-            let shape = layer.param_shape();
-
-            let slice = unsafe {
-                MatrixSlice::from_raw_parts(weights.as_ptr().offset(index as isize),
-                                            shape.0,
-                                            shape.1,
-                                            shape.1)
-            };
+            let slice = layer_params(&**layer, weights, index);
 
             let output = if i == 0 {
                 layer.forward(inputs, slice).unwrap()
@@ -403,26 +387,13 @@ impl<T: Criterion> BaseNeuralNet<T> {
             return Ok(inputs.clone());
         }
 
-        let mut outputs = unsafe {
-            let shape = self.layers[0].param_shape();
-            let slice = MatrixSlice::from_raw_parts(self.weights.as_ptr(),
-                                                    shape.0,
-                                                    shape.1,
-                                                    shape.1);
-            self.layers[0].forward(inputs, slice)?
-        };
+        let slice = layer_params(&*self.layers[0], &self.weights, 0);
+        let mut outputs = self.layers[0].forward(inputs, slice)?;
 
         let mut index = self.layers[0].num_params();
         for layer in self.layers.iter().skip(1) {
-            let shape = layer.param_shape();
+            let slice = layer_params(&**layer, &self.weights, index);
 
-            let slice = unsafe {
-                MatrixSlice::from_raw_parts(self.weights.as_ptr().offset(index as isize),
-                                            shape.0,
-                                            shape.1,
-                                            shape.1)
-            };
-            
             outputs = match layer.forward(&outputs, slice) {
                 Ok(act) => act,
                 Err(_) => {return Err(Error::new(ErrorKind::InvalidParameters,
@@ -435,6 +406,18 @@ impl<T: Criterion> BaseNeuralNet<T> {
     }
 }
 
+/// The parameters of a layer, which start at the given index of the weights.
+///
+/// Panics if the weights end before the parameters do.
+fn layer_params<'a>(layer: &dyn NetLayer, weights: &'a [f64], start: usize) -> MatrixSlice<'a, f64> {
+    let (rows, cols) = layer.param_shape();
+    let size = rows.checked_mul(cols).expect("A layer has too many parameters.");
+    let params = &weights[start..][..size];
+    unsafe {
+        MatrixSlice::from_raw_parts(params.as_ptr(), rows, cols, cols)
+    }
+}
+
 /// Compute the gradient of the Neural Network using the
 /// back propagation algorithm.
 impl<T: Criterion> Optimizable for BaseNeuralNet<T> {
-- 
2.43.0


From 8fab09a7694142575403bd0065b916a2bb076628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:38 +0000
Subject: [PATCH 27/30] fix: a failed PCA training replaced the centers of the
 earlier training

---
 src/learning/pca.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/learning/pca.rs b/src/learning/pca.rs
index ad3b017..565b29b 100644
--- a/src/learning/pca.rs
+++ b/src/learning/pca.rs
@@ -175,15 +175,14 @@ impl UnSupModel<Matrix<f64>, Matrix<f64>> for PCA {
             }
         }
 
-        let data = if self.center == true {
+        let (data, centers) = if self.center == true {
             let centers = inputs.mean(Axes::Row);
             let m = unsafe { centering(inputs, &centers) };
-            self.centers = Some(centers);
-            m
+            (m, Some(centers))
         } else {
-            inputs.clone()
+            (inputs.clone(), None)
         };
-        let (_, _, mut v) = data.svd().unwrap();
+        let (_, _, mut v) = data.svd()?;
         if let Some(c) = self.n {
             // There are no more components than rows
             let slicer: Vec<usize> = (0..cmp::min(c, v.cols())).collect();
@@ -195,6 +194,7 @@ impl UnSupModel<Matrix<f64>, Matrix<f64>> for PCA {
             v = v.transpose();
         }
         self.components = Some(v);
+        self.centers = centers;
         self.n_features = Some(inputs.cols());
         Ok(())
     }
-- 
2.43.0


From 25c3d7a8efd1e26f237a1554c78da9483b322559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:54 +0000
Subject: [PATCH 28/30] fix: DBSCAN overflowed the stack on clusters of some
 ten thousand rows

---
 src/learning/dbscan.rs | 39 ++++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/src/learning/dbscan.rs b/src/learning/dbscan.rs
index c14a502..9424ba1 100644
--- a/src/learning/dbscan.rs
+++ b/src/learning/dbscan.rs
@@ -181,22 +181,35 @@ impl DBSCAN {
 
         self.clusters.as_mut().map(|x| x.mut_data()[point_idx] = Some(cluster));
 
-        for data_point_idx in &neighbour_pts {
-            // A row within eps of a core row is no noise, core or not.
-            if let Some(ref mut clusters) = self.clusters {
-                let label = &mut clusters.mut_data()[*data_point_idx];
-                *label = label.or(Some(cluster));
-            }
+        // The rows still to be expanded are kept in a list: the depth of a recursion
+        // would grow with the size of the cluster.
+        let mut pending = Vec::new();
+        let mut neighbours = neighbour_pts;
+
+        loop {
+            for data_point_idx in &neighbours {
+                // A row within eps of a core row is no noise, core or not.
+                if let Some(ref mut clusters) = self.clusters {
+                    let label = &mut clusters.mut_data()[*data_point_idx];
+                    *label = label.or(Some(cluster));
+                }
 
-            let visited = self._visited[*data_point_idx];
-            if !visited {
-                self._visited[*data_point_idx] = true;
-                let data_point_row = unsafe { inputs.row_unchecked(*data_point_idx) };
-                let sub_neighbours = self.region_query(data_point_row, inputs);
+                if !self._visited[*data_point_idx] {
+                    self._visited[*data_point_idx] = true;
+                    pending.push(*data_point_idx);
+                }
+            }
 
-                if sub_neighbours.len() >= self.min_points {
-                    self.expand_cluster(inputs, *data_point_idx, sub_neighbours, cluster);
+            neighbours = match pending.pop() {
+                Some(data_point_idx) => {
+                    let data_point_row = unsafe { inputs.row_unchecked(data_point_idx) };
+                    self.region_query(data_point_row, inputs)
                 }
+                None => return,
+            };
+
+            if neighbours.len() < self.min_points {
+                neighbours.clear();
             }
         }
     }
-- 
2.43.0


From a238e05bfe4717c07296a58ef917cfb5f6c3885a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:58 +0000
Subject: [PATCH 29/30] fix: the conjugate gradient line search does not accept
 a point whose cost is NaN

---
 src/learning/optim/fmincg.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/learning/optim/fmincg.rs b/src/learning/optim/fmincg.rs
index 5afb72b..011be9e 100644
--- a/src/learning/optim/fmincg.rs
+++ b/src/learning/optim/fmincg.rs
@@ -139,7 +139,8 @@ impl<M: Optimizable> OptimAlgorithm<M> for ConjugateGD {
             loop {
                 let mut z2: f64;
 
-                while ((f2 > (f1 + z1 * self.rho * d1)) || (d2 > -self.sig * d1)) && (m > 0i32) {
+                while (f2.is_nan() || (f2 > (f1 + z1 * self.rho * d1)) || (d2 > -self.sig * d1)) &&
+                      (m > 0i32) {
 
                     limit = z1;
 
@@ -180,7 +181,7 @@ impl<M: Optimizable> OptimAlgorithm<M> for ConjugateGD {
                     z3 -= z2;
                 }
 
-                if f2 > f1 + z1 * self.rho * d1 || d2 > -self.sig * d1 {
+                if f2.is_nan() || f2 > f1 + z1 * self.rho * d1 || d2 > -self.sig * d1 {
                     break;
                 } else if d2 > self.sig * d1 {
                     success = true;
-- 
2.43.0


From 39388c9d77f232378eca73698ee5a36ac006a812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:27 +0000
Subject: [PATCH 30/30] fix: the cross entropy of outputs that match a target
 of 0 or 1 exactly is not NaN

---
 src/learning/toolkit/cost_fn.rs | 48 +++++++++++++++++++++++++++------
 1 file changed, 40 insertions(+), 8 deletions(-)

diff --git a/src/learning/toolkit/cost_fn.rs b/src/learning/toolkit/cost_fn.rs
index b59328f..49523d0 100644
--- a/src/learning/toolkit/cost_fn.rs
+++ b/src/learning/toolkit/cost_fn.rs
@@ -63,10 +63,14 @@ pub struct CrossEntropyError;
 impl CostFunc<Matrix<f64>> for CrossEntropyError {
     fn cost(outputs: &Matrix<f64>, targets: &Matrix<f64>) -> f64 {
         // The cost for a single
-        let log_inv_output = (-outputs + 1f64).apply(&ln);
-        let log_output = outputs.clone().apply(&ln);
+        let mut log_inv_output = (-outputs + 1f64).apply(&ln);
+        let mut log_output = outputs.clone().apply(&ln);
+        let inv_targets = -targets + 1f64;
 
-        let mat_cost = targets.elemul(&log_output) + (-targets + 1f64).elemul(&log_inv_output);
+        zero_unweighted(log_output.mut_data(), targets.data());
+        zero_unweighted(log_inv_output.mut_data(), inv_targets.data());
+
+        let mat_cost = targets.elemul(&log_output) + inv_targets.elemul(&log_inv_output);
 
         let n = outputs.rows();
 
@@ -74,17 +78,23 @@ impl CostFunc<Matrix<f64>> for CrossEntropyError {
     }
 
     fn grad_cost(outputs: &Matrix<f64>, targets: &Matrix<f64>) -> Matrix<f64> {
-        (outputs - targets).elediv(&(outputs.elemul(&(-outputs + 1f64))))
+        let mut grad = (outputs - targets).elediv(&(outputs.elemul(&(-outputs + 1f64))));
+        fill_exact(grad.mut_data(), outputs.data(), targets.data());
+        grad
     }
 }
 
 impl CostFunc<Vector<f64>> for CrossEntropyError {
     fn cost(outputs: &Vector<f64>, targets: &Vector<f64>) -> f64 {
         // The cost for a single
-        let log_inv_output = (-outputs + 1f64).apply(&ln);
-        let log_output = outputs.clone().apply(&ln);
+        let mut log_inv_output = (-outputs + 1f64).apply(&ln);
+        let mut log_output = outputs.clone().apply(&ln);
+        let inv_targets = -targets + 1f64;
+
+        zero_unweighted(log_output.mut_data(), targets.data());
+        zero_unweighted(log_inv_output.mut_data(), inv_targets.data());
 
-        let mat_cost = targets.elemul(&log_output) + (-targets + 1f64).elemul(&log_inv_output);
+        let mat_cost = targets.elemul(&log_output) + inv_targets.elemul(&log_inv_output);
 
         let n = outputs.size();
 
@@ -92,7 +102,29 @@ impl CostFunc<Vector<f64>> for CrossEntropyError {
     }
 
     fn grad_cost(outputs: &Vector<f64>, targets: &Vector<f64>) -> Vector<f64> {
-        (outputs - targets).elediv(&(outputs.elemul(&(-outputs + 1f64))))
+        let mut grad = (outputs - targets).elediv(&(outputs.elemul(&(-outputs + 1f64))));
+        fill_exact(grad.mut_data(), outputs.data(), targets.data());
+        grad
+    }
+}
+
+/// Sets infinite logarithms with weight zero to zero: the limit of `x * ln(x)` at zero.
+fn zero_unweighted(logs: &mut [f64], weights: &[f64]) {
+    for (log, &weight) in logs.iter_mut().zip(weights) {
+        if weight == 0f64 && log.is_infinite() {
+            *log = 0f64;
+        }
+    }
+}
+
+/// Fills in the gradient at outputs which match a target of zero or one exactly.
+///
+/// The general expression is 0 / 0 here. Its limit is 1 for zero and -1 for one.
+fn fill_exact(grad: &mut [f64], outputs: &[f64], targets: &[f64]) {
+    for (g, (&output, &target)) in grad.iter_mut().zip(outputs.iter().zip(targets)) {
+        if output == target && (target == 0f64 || target == 1f64) {
+            *g = 1f64 - 2f64 * target;
+        }
     }
 }
 
-- 
2.43.0

