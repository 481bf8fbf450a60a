From 2b45125a80c2f7f5381dc984d7df8286523501f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:52 +0000
Subject: [PATCH 01/43] fix: NDT likelihood is never NaN or above one for cells
 without spread

---
 src/ndt_model.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/ndt_model.cpp b/src/ndt_model.cpp
index e1f9b7c..552a0b5 100644
--- a/src/ndt_model.cpp
+++ b/src/ndt_model.cpp
@@ -30,6 +30,7 @@
 #include <Eigen/Eigen>
 #include <Eigen/Eigenvalues>
 
+#include <algorithm>
 #include <cmath>
 #include <ndt_2d/conversions.hpp>
 #include <ndt_2d/ndt_model.hpp>
@@ -85,7 +86,12 @@ void Cell::compute()
   Eigen::Vector2d eigenvalues = solver.eigenvalues().real();
   double small = eigenvalues(0), large = eigenvalues(1);
   if (small > large) std::swap(small, large);
-  if (small < 0.001 * large)
+  if (large < 1e-12)
+  {
+    // All of the points coincide - there is no distribution to invert
+    information.setZero();
+  }
+  else if (small < 0.001 * large)
   {
     // Special case
     double determinant = (0.001 * large) * large;
@@ -104,15 +110,16 @@ void Cell::compute()
 
 double Cell::score(const Eigen::Vector2d & point)
 {
-  if (n < 5)
+  if (n < 5 || information.isZero(0.0))
   {
-    // Need at least five points for our mean/cov to be valid
+    // Need at least five points, with some spread, for our mean/cov to be valid
     return 0.0;
   }
 
   const auto q = point - mean;
   const double exponent = -0.5 * q.transpose() * information * q;
-  return std::exp(exponent);
+  // With (nearly) collinear points rounding can make the exponent positive
+  return std::exp(std::min(exponent, 0.0));
 }
 
 NDT::NDT(double cell_size, double size_x, double size_y, double origin_x, double origin_y)
-- 
2.43.0


From 9f599bbf53b134569258ccaa604405715b0be4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:01 +0000
Subject: [PATCH 02/43] fix: points far outside of an NDT grid (or NaN) do not
 alias into its cells

---
 src/ndt_model.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/ndt_model.cpp b/src/ndt_model.cpp
index 552a0b5..f585a54 100644
--- a/src/ndt_model.cpp
+++ b/src/ndt_model.cpp
@@ -209,18 +209,16 @@ double NDT::likelihood(const ScanPtr & scan)
 
 int NDT::getIndex(double x, double y)
 {
-  if (x < origin_x_ || y < origin_y_)
-  {
-    return -1;
-  }
-
-  unsigned int grid_x = (x - origin_x_) / cell_size_;
-  unsigned int grid_y = (y - origin_y_) / cell_size_;
-  if (grid_x >= size_x_ || grid_y >= size_y_)
+  // Compare before converting, this also rejects NaN and coordinates too large for an integer
+  const double cell_x = (x - origin_x_) / cell_size_;
+  const double cell_y = (y - origin_y_) / cell_size_;
+  if (!(cell_x >= 0.0 && cell_x < size_x_ && cell_y >= 0.0 && cell_y < size_y_))
   {
     return -1;
   }
 
+  const size_t grid_x = static_cast<size_t>(cell_x);
+  const size_t grid_y = static_cast<size_t>(cell_y);
   return (grid_y * size_x_) + grid_x;
 }
 
-- 
2.43.0


From 89ef621cec780199673b8cb6683db22d9c726749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:10 +0000
Subject: [PATCH 03/43] fix: findNearest distance is in meters, nanoflann
 expects it squared

---
 src/graph.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graph.cpp b/src/graph.cpp
index 96b724f..d78a0d0 100644
--- a/src/graph.cpp
+++ b/src/graph.cpp
@@ -178,7 +178,8 @@ std::vector<size_t> Graph::findNearest(const ScanPtr & scan, double dist, int li
   const double query[2] = {pose.x, pose.y};
   std::vector<std::pair<unsigned, double>> matches;
   nanoflann::SearchParams params;
-  tree.radiusSearch(query, dist, matches, params);
+  // With the L2 metric, nanoflann expects (and returns) squared distances
+  tree.radiusSearch(query, dist * dist, matches, params);
 
   std::vector<size_t> indicies;
   for (size_t i = 0; i < matches.size(); ++i)
-- 
2.43.0


From d0077fff1e697268891368b33c2cc9d45fb63f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:10 +0000
Subject: [PATCH 04/43] fix: match covariance is taken about the weighted mean

---
 src/scan_matcher_ndt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scan_matcher_ndt.cpp b/src/scan_matcher_ndt.cpp
index daa1413..bd96c7b 100644
--- a/src/scan_matcher_ndt.cpp
+++ b/src/scan_matcher_ndt.cpp
@@ -143,7 +143,7 @@ double ScanMatcherNDT::matchScan(const ScanPtr & scan, Pose2d & pose,
   }
 
   // Compute covariance
-  covariance = (1 / s) * k + (1 / (s * s) * u * u.transpose());
+  covariance = (1 / s) * k - (1 / (s * s) * u * u.transpose());
 
   return best_score / scan_points_to_use;
 }
-- 
2.43.0


From 64490a531b603593dfd2c85120b44a29b153baa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:35 +0000
Subject: [PATCH 05/43] fix: matching without points or overlap gives a finite
 score and covariance

---
 src/scan_matcher_ndt.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/scan_matcher_ndt.cpp b/src/scan_matcher_ndt.cpp
index bd96c7b..651fbc1 100644
--- a/src/scan_matcher_ndt.cpp
+++ b/src/scan_matcher_ndt.cpp
@@ -76,8 +76,12 @@ void ScanMatcherNDT::addScans(const std::vector<ScanPtr>::const_iterator& begin,
 double ScanMatcherNDT::matchScan(const ScanPtr & scan, Pose2d & pose,
                                  Eigen::Matrix3d & covariance) const
 {
-  // Scans must be added first
-  if (!ndt_) return 0.0;
+  // Without anything to match, there is no correction and no confidence in it
+  pose = Pose2d();
+  covariance = Eigen::Matrix3d::Identity();
+
+  // Scans must be added first, and a scan without points can not be matched
+  if (!ndt_ || scan->getPoints().empty()) return 0.0;
 
   // Search NDT for best correlation for new scan
   double best_score = 0;
@@ -142,8 +146,12 @@ double ScanMatcherNDT::matchScan(const ScanPtr & scan, Pose2d & pose,
     }
   }
 
-  // Compute covariance
-  covariance = (1 / s) * k - (1 / (s * s) * u * u.transpose());
+  // Compute covariance, unless no offset has any overlap with the map
+  if (s < 0.0)
+  {
+    const Eigen::Vector3d mean = u / s;
+    covariance = k / s - mean * mean.transpose();
+  }
 
   return best_score / scan_points_to_use;
 }
@@ -155,8 +163,8 @@ double ScanMatcherNDT::scoreScan(const ScanPtr & scan) const
 
 double ScanMatcherNDT::scorePoints(const std::vector<Point> & points, const Pose2d & pose) const
 {
-  // Need a valid NDT
-  if (!ndt_) return 0.0;
+  // Need a valid NDT, and something to score
+  if (!ndt_ || points.empty()) return 0.0;
 
   // Transform points to the pose
   const Eigen::Isometry3d t = toEigen(pose);
-- 
2.43.0


From a18563b1721032842538ec3d6ee82c7cf39f783e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:35 +0000
Subject: [PATCH 06/43] fix: NDT bounds cover the scans and nothing else, and
 no scans is not an error

---
 src/scan_matcher_ndt.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/scan_matcher_ndt.cpp b/src/scan_matcher_ndt.cpp
index 651fbc1..72df869 100644
--- a/src/scan_matcher_ndt.cpp
+++ b/src/scan_matcher_ndt.cpp
@@ -49,11 +49,15 @@ void ScanMatcherNDT::initialize(const std::string & name, rclcpp::Node * node, d
 void ScanMatcherNDT::addScans(const std::vector<ScanPtr>::const_iterator& begin,
                               const std::vector<ScanPtr>::const_iterator& end)
 {
+  // An empty map is the same as no map
+  ndt_.reset();
+  if (begin == end) return;
+
   // Compute bounding box required
   double min_x_ = std::numeric_limits<double>::max();
-  double max_x_ = std::numeric_limits<double>::min();
+  double max_x_ = std::numeric_limits<double>::lowest();
   double min_y_ = std::numeric_limits<double>::max();
-  double max_y_ = std::numeric_limits<double>::min();
+  double max_y_ = std::numeric_limits<double>::lowest();
   for (auto scan = begin; scan != end; ++scan)
   {
     Pose2d pose = (*scan)->getPose();
-- 
2.43.0


From 398244c807d789eabf237151a9db30744ec4051d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:35 +0000
Subject: [PATCH 07/43] fix: weight residuals by the upper Cholesky factor, so
 that r'r = e'*information*e

---
 src/ceres_solver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ceres_solver.cpp b/src/ceres_solver.cpp
index f819d77..a117eaf 100644
--- a/src/ceres_solver.cpp
+++ b/src/ceres_solver.cpp
@@ -129,7 +129,7 @@ ceres::ResidualBlockId CeresSolver::addConstraint(const ConstraintPtr & constrai
   auto begin_node = nodes_.find(begin->getId());
   auto end_node = nodes_.find(end->getId());
 
-  const Eigen::Matrix3d sqrt_information = constraint->information.llt().matrixL();
+  const Eigen::Matrix3d sqrt_information = constraint->information.llt().matrixU();
 
   ceres::CostFunction * cost_function =
     PoseGraph2dErrorTerm::Create(constraint->transform(0),
-- 
2.43.0


From b363ad62d11428225278515731e881ff8d957094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:29 +0000
Subject: [PATCH 08/43] fix: optimizing scans without constraints does not
 abort

---
 src/ceres_solver.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ceres_solver.cpp b/src/ceres_solver.cpp
index a117eaf..546f15d 100644
--- a/src/ceres_solver.cpp
+++ b/src/ceres_solver.cpp
@@ -73,7 +73,12 @@ bool CeresSolver::optimize(const std::vector<ConstraintPtr> & constraints,
       pose(0) = scan->getPose().x;
       pose(1) = scan->getPose().y;
       pose(2) = scan->getPose().theta;
-      nodes_.insert(std::pair<int, Eigen::Vector3d>(scan->getId(), pose));
+      node = nodes_.insert(std::pair<int, Eigen::Vector3d>(scan->getId(), pose)).first;
+      // Make sure problem knows about nodes which do not have any constraints
+      for (size_t i = 0; i < 3; ++i)
+      {
+        problem_->AddParameterBlock(&(node->second(i)), 1);
+      }
     }
   }
 
-- 
2.43.0


From 640eac158442c1fbd7fa9822258f5e79b66fa5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:29 +0000
Subject: [PATCH 09/43] fix: a failed optimization does not break all later
 ones

---
 include/ndt_2d/ceres_solver.hpp | 3 ++-
 src/ceres_solver.cpp            | 8 ++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/ndt_2d/ceres_solver.hpp b/include/ndt_2d/ceres_solver.hpp
index 5d87545..895a24f 100644
--- a/include/ndt_2d/ceres_solver.hpp
+++ b/include/ndt_2d/ceres_solver.hpp
@@ -31,6 +31,7 @@
 
 #include <Eigen/Core>
 #include <ceres/ceres.h>
+#include <memory>
 #include <unordered_map>
 #include <vector>
 #include <ndt_2d/graph.hpp>
@@ -59,7 +60,7 @@ private:
                                        std::vector<ScanPtr> & scans);
 
   // Incrementally build the problem to avoid large initialization time
-  ceres::Problem * problem_;
+  std::unique_ptr<ceres::Problem> problem_;
   ceres::Solver::Options options_;
 
   // Duplicate each node/scan pose so that failed optimizations don't break our map
diff --git a/src/ceres_solver.cpp b/src/ceres_solver.cpp
index 546f15d..bb8051a 100644
--- a/src/ceres_solver.cpp
+++ b/src/ceres_solver.cpp
@@ -39,7 +39,7 @@ CeresSolver::CeresSolver()
   options_.max_num_iterations = 100;
   options_.linear_solver_type = ceres::SPARSE_NORMAL_CHOLESKY;
 
-  problem_ = new ceres::Problem();
+  problem_ = std::make_unique<ceres::Problem>();
 }
 
 void CeresSolver::setVerbose(bool verbose)
@@ -98,10 +98,14 @@ bool CeresSolver::optimize(const std::vector<ConstraintPtr> & constraints,
 
   // Run the solver
   ceres::Solver::Summary summary;
-  ceres::Solve(options_, problem_, &summary);
+  ceres::Solve(options_, problem_.get(), &summary);
 
   if (!summary.IsSolutionUsable())
   {
+    // Start over next time, so that whatever broke this problem is not kept in it
+    problem_ = std::make_unique<ceres::Problem>();
+    nodes_.clear();
+    num_constraints_ = 0;
     return false;
   }
 
-- 
2.43.0


From 3a50c8d6399457a6415c244377dfd0d617d8aff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:30 +0000
Subject: [PATCH 10/43] fix: occupancy grid bounds follow the current poses and
 cover where rays start

---
 include/ndt_2d/occupancy_grid.hpp |  3 +--
 src/occupancy_grid.cpp            | 23 ++++++++++++-----------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/ndt_2d/occupancy_grid.hpp b/include/ndt_2d/occupancy_grid.hpp
index 1439e61..cd80393 100644
--- a/include/ndt_2d/occupancy_grid.hpp
+++ b/include/ndt_2d/occupancy_grid.hpp
@@ -60,9 +60,8 @@ private:
 
   double resolution_;
   double occ_thresh_;
-  // Bounds are recalculated when scan vector increases in size
+  // Bounds are recalculated for every message
   double min_x_, max_x_, min_y_, max_y_;
-  size_t num_scans_;
 };
 
 typedef std::shared_ptr<OccupancyGrid> OccupancyGridPtr;
diff --git a/src/occupancy_grid.cpp b/src/occupancy_grid.cpp
index d9257e6..07b1793 100644
--- a/src/occupancy_grid.cpp
+++ b/src/occupancy_grid.cpp
@@ -39,19 +39,15 @@ OccupancyGrid::OccupancyGrid(const double resolution, const double occ_thresh)
   min_x_(0),
   max_x_(0),
   min_y_(0),
-  max_y_(0),
-  num_scans_(0)
+  max_y_(0)
 {
 }
 
 void OccupancyGrid::getMsg(std::vector<ndt_2d::ScanPtr> & scans,
                            nav_msgs::msg::OccupancyGrid & grid)
 {
-  // Update size of the occupancy grid, if needed
-  if (scans.size() != num_scans_)
-  {
-    updateBounds(scans);
-  }
+  // Update size of the occupancy grid - poses may have changed, even if number of scans has not
+  updateBounds(scans);
 
   // Pad the map just a bit
   double pad = 5 * resolution_;
@@ -153,17 +149,22 @@ void OccupancyGrid::getMsg(std::vector<ndt_2d::ScanPtr> & scans,
 
 void OccupancyGrid::updateBounds(std::vector<ndt_2d::ScanPtr>& scans)
 {
-  size_t start_idx = num_scans_;
-  num_scans_ = scans.size();
+  min_x_ = max_x_ = min_y_ = max_y_ = 0.0;
 
-  // Iterate through new scans
-  for (size_t i = start_idx; i < num_scans_; ++i)
+  // Iterate through scans
+  for (size_t i = 0; i < scans.size(); ++i)
   {
     double x = scans[i]->getPose().x;
     double y = scans[i]->getPose().y;
     double cos_th = cos(scans[i]->getPose().theta);
     double sin_th = sin(scans[i]->getPose().theta);
 
+    // Rays start from the pose
+    min_x_ = std::min(x, min_x_);
+    max_x_ = std::max(x, max_x_);
+    min_y_ = std::min(y, min_y_);
+    max_y_ = std::max(y, max_y_);
+
     // Iterate through points in the scan
     for (auto & point : scans[i]->getPoints())
     {
-- 
2.43.0


From a0e10e3d35b7e6a5a0daa2fc59ac2dc3e5569825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:30 +0000
Subject: [PATCH 11/43] fix: heading covariance of the particles does not
 accumulate

---
 src/particle_filter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/particle_filter.cpp b/src/particle_filter.cpp
index eefcdc7..e30be3f 100644
--- a/src/particle_filter.cpp
+++ b/src/particle_filter.cpp
@@ -210,6 +210,7 @@ void ParticleFilter::updateStatistics()
   }
 
   // Compute covariance for theta
+  cov_(2, 2) = 0.0;
   for (size_t i = 0; i < particles_.size(); ++i)
   {
     double d = angles::shortest_angular_distance(particles_[i](2), mean_(2));
-- 
2.43.0


From 147e48a5d9579879faff56c82a8f886e6a3b851d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:30 +0000
Subject: [PATCH 12/43] fix: a measurement without information does not turn
 particle weights into NaN

---
 src/particle_filter.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/particle_filter.cpp b/src/particle_filter.cpp
index e30be3f..55973cb 100644
--- a/src/particle_filter.cpp
+++ b/src/particle_filter.cpp
@@ -27,6 +27,7 @@
  */
 
 #include <angles/angles.h>
+#include <cmath>
 #include <random>
 #include <ndt_2d/particle_filter.hpp>
 
@@ -168,6 +169,12 @@ void ParticleFilter::updateStatistics()
   {
     sum_weight += w;
   }
+  if (!std::isnormal(sum_weight))
+  {
+    // Nothing is known about the particles, they are all equal
+    weights_.assign(weights_.size(), 1.0);
+    sum_weight = weights_.size();
+  }
   for (auto & w : weights_)
   {
     w /= sum_weight;
-- 
2.43.0


From 98cb787659b116e4f8dcd345f7e75e64180c7538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:30 +0000
Subject: [PATCH 13/43] fix: resampled particles are equally weighted

---
 src/particle_filter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/particle_filter.cpp b/src/particle_filter.cpp
index 55973cb..b4a78aa 100644
--- a/src/particle_filter.cpp
+++ b/src/particle_filter.cpp
@@ -112,7 +112,8 @@ void ParticleFilter::resample(const double kld_err, const double kld_z)
     size_t p = d(gen_);
     kd_tree_.insert(particles_[p], weights_[p]);
     resampled.push_back(particles_[p]);
-    resampled_weights.push_back(weights_[p]);
+    // Weight is already accounted for by how often the particle is drawn
+    resampled_weights.push_back(1.0);
 
     // Recompute crazy equation
     size_t k = kd_tree_.getLeafCount();
-- 
2.43.0


From d27931c677fcd551e69d9f6e8da3aefc55dc6bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:48 +0000
Subject: [PATCH 14/43] fix: KD-tree bins next to zero are not merged into one
 of double size

---
 include/ndt_2d/kd_tree.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/ndt_2d/kd_tree.hpp b/include/ndt_2d/kd_tree.hpp
index 0012054..b9f0f34 100644
--- a/include/ndt_2d/kd_tree.hpp
+++ b/include/ndt_2d/kd_tree.hpp
@@ -30,6 +30,7 @@
 #define NDT_2D__KD_TREE_HPP_
 
 #include <Eigen/Core>
+#include <cmath>
 #include <memory>
 #include <vector>
 #include <utility>
@@ -97,9 +98,9 @@ public:
   void insert(Eigen::Vector3d & cont_key, T & value)
   {
     int key[3];
-    key[0] = static_cast<int>(cont_key(0) / cell_size_(0));
-    key[1] = static_cast<int>(cont_key(1) / cell_size_(1));
-    key[2] = static_cast<int>(cont_key(2) / cell_size_(2));
+    key[0] = static_cast<int>(std::floor(cont_key(0) / cell_size_(0)));
+    key[1] = static_cast<int>(std::floor(cont_key(1) / cell_size_(1)));
+    key[2] = static_cast<int>(std::floor(cont_key(2) / cell_size_(2)));
 
     if (nodes_.empty())
     {
-- 
2.43.0


From 90d452e9cee44a85f9db96e88fb289032d21b3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:48 +0000
Subject: [PATCH 15/43] fix: KLD bins are 15 degrees, as documented

---
 src/particle_filter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/particle_filter.cpp b/src/particle_filter.cpp
index b4a78aa..883029a 100644
--- a/src/particle_filter.cpp
+++ b/src/particle_filter.cpp
@@ -42,7 +42,7 @@ ParticleFilter::ParticleFilter(size_t min_particles, size_t max_particles,
   max_particles_(max_particles),
   mean_(Eigen::Vector3d::Zero()),
   cov_(Eigen::Matrix3d::Zero()),
-  kd_tree_(0.5, 0.5, 0.2671, max_particles)
+  kd_tree_(0.5, 0.5, M_PI / 12.0, max_particles)
 {
   particles_.reserve(max_particles_);
   weights_.reserve(max_particles_);
-- 
2.43.0


From 9c7a6267f22d503a191aef977487dded5fd01f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:48 +0000
Subject: [PATCH 16/43] fix: rolling window is rolling_depth scans, not always
 ten

---
 src/ndt_mapper.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 711f683..d2513d0 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -501,14 +501,15 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
     if (!graph_->scans.empty())
     {
       // Determine rolling window
-      size_t start = (graph_->scans.size() <= rolling_depth_) ? 0 : graph_->scans.size() - 10;
+      size_t start = (graph_->scans.size() <= rolling_depth_) ? 0 :
+        graph_->scans.size() - rolling_depth_;
       auto rolling = graph_->scans.begin() + start;
 
       // Create scan matcher with rolling window scans
       local_scan_matcher_->reset();
       local_scan_matcher_->addScans(rolling, graph_->scans.end());
 
-      // Local consistency - match new scan against last 10 scans
+      // Local consistency - match new scan against last rolling_depth_ scans
       Pose2d correction;
       Eigen::Matrix3d covariance;
       double uncorrected_score = local_scan_matcher_->scoreScan(scan);
-- 
2.43.0


From b8411da73f0a64de86eea414bb7dc6f67a2e0e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:48 +0000
Subject: [PATCH 17/43] fix: infinite and too short ranges are not points

---
 src/ndt_mapper.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index d2513d0..d9c2cbb 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -409,8 +409,9 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
   {
     for (size_t i = msg->ranges.size() - 1; i > 0; --i)
     {
-      // Filter out NANs and scans beyond max range
-      if (std::isnan(msg->ranges[i]) || msg->ranges[i] > range_max_) continue;
+      // Filter out invalid measurements, too close or beyond max range
+      if (!std::isfinite(msg->ranges[i]) || msg->ranges[i] < msg->range_min ||
+          msg->ranges[i] > range_max_) continue;
       // Project point in laser frame
       double angle = -(msg->angle_min + i * msg->angle_increment);
       Point lp(cos(angle) * msg->ranges[i],
@@ -432,8 +433,9 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
   {
     for (size_t i = 0; i < msg->ranges.size(); ++i)
     {
-      // Filter out NANs and scans beyond max range
-      if (std::isnan(msg->ranges[i]) || msg->ranges[i] > range_max_) continue;
+      // Filter out invalid measurements, too close or beyond max range
+      if (!std::isfinite(msg->ranges[i]) || msg->ranges[i] < msg->range_min ||
+          msg->ranges[i] > range_max_) continue;
       // Project point in laser frame
       double angle = (msg->angle_min + i * msg->angle_increment);
       Point lp(cos(angle) * msg->ranges[i],
-- 
2.43.0


From 982ad70e9a5db6a5c4b74e648a1a4df060d559fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:48 +0000
Subject: [PATCH 18/43] fix: ignore laser scans without any ranges

---
 src/ndt_mapper.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index d9c2cbb..aed1919 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -266,6 +266,9 @@ void Mapper::poseCallback(const geometry_msgs::msg::PoseWithCovarianceStamped::C
 
 void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& msg)
 {
+  // Nothing to do for an empty scan (and nothing to be learned from it)
+  if (msg->ranges.empty()) return;
+
   // Save data from laser scan message
   if (range_max_ < 0) range_max_ = msg->range_max;
   if (laser_frame_ == "")
-- 
2.43.0


From 9db1c1cd8c15eb3ce13017265a92abac3523132b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:48 +0000
Subject: [PATCH 19/43] fix: movement during the laser scan is expressed in the
 robot frame

---
 src/ndt_mapper.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index aed1919..24664d2 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -386,10 +386,15 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
   }
 
   // Determine movement between start and end of laser scan
-  Pose2d translation = fromMsg(end_odom_pose_tf);
-  translation.x -= odom_pose.x;
-  translation.y -= odom_pose.y;
-  translation.theta -= odom_pose.theta;
+  Pose2d end_odom_pose = fromMsg(end_odom_pose_tf);
+  double end_dx = end_odom_pose.x - odom_pose.x;
+  double end_dy = end_odom_pose.y - odom_pose.y;
+
+  // Points are in the robot frame at start of the scan, and so must be this movement
+  Pose2d translation;
+  translation.x = cos(odom_pose.theta) * end_dx + sin(odom_pose.theta) * end_dy;
+  translation.y = -sin(odom_pose.theta) * end_dx + cos(odom_pose.theta) * end_dy;
+  translation.theta = angles::shortest_angular_distance(odom_pose.theta, end_odom_pose.theta);
 
   // Now scale it by number of measurements
   Pose2d trans_per_meas;
-- 
2.43.0


From c7a95e71bcf228212d23833a1297908af2ba3876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:48 +0000
Subject: [PATCH 20/43] fix: inverted laser uses all beams, and the time they
 were measured

---
 src/ndt_mapper.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 24664d2..f0f9b29 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -415,7 +415,7 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
   // Using this scan, convert ROS msg into ndt_2d style scan
   if (laser_inverted_)
   {
-    for (size_t i = msg->ranges.size() - 1; i > 0; --i)
+    for (size_t i = msg->ranges.size(); i-- > 0; )
     {
       // Filter out invalid measurements, too close or beyond max range
       if (!std::isfinite(msg->ranges[i]) || msg->ranges[i] < msg->range_min ||
@@ -428,11 +428,10 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
       Point point(cos_lt * lp.x - sin_lt * lp.y + laser_transform_.x,
                   sin_lt * lp.x + cos_lt * lp.y + laser_transform_.y);
       // Apply laser movement
-      double cos_tt = cos(translation.theta - (trans_per_meas.theta * i));
-      double sin_tt = sin(translation.theta - (trans_per_meas.theta * i));
-      Point translated(
-        cos_tt * point.x - sin_tt * point.y +(translation.x - (trans_per_meas.x * i)),
-        sin_tt * point.x + cos_tt * point.y + (translation.y - (trans_per_meas.y * i)));
+      double cos_tt = cos(trans_per_meas.theta * i);
+      double sin_tt = sin(trans_per_meas.theta * i);
+      Point translated(cos_tt * point.x - sin_tt * point.y + (trans_per_meas.x * i),
+                       sin_tt * point.x + cos_tt * point.y + (trans_per_meas.y * i));
       // Add point to scan
       points.push_back(translated);
     }
-- 
2.43.0


From db0cecfa2234a1e7c5fd8121fe440a5de947322f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:48 +0000
Subject: [PATCH 21/43] fix: failing to load or save a map does not terminate
 the node

---
 src/ndt_mapper.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index f0f9b29..4f53ee7 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -172,8 +172,18 @@ void Mapper::configure(const std::shared_ptr<srv::Configure::Request> request,
   if (request->action & srv::Configure::Request::LOAD_FROM_FILE)
   {
     RCLCPP_INFO(logger_, "Loading map from %s", request->filename.c_str());
+    GraphPtr graph;
+    try
+    {
+      graph = std::make_shared<Graph>(use_barycenter_, request->filename);
+    }
+    catch (const std::exception& ex)
+    {
+      RCLCPP_ERROR(logger_, "Could not load map: %s", ex.what());
+      return;
+    }
     std::lock_guard<std::mutex> lock(graph_mutex_);
-    graph_ = std::make_shared<Graph>(use_barycenter_, request->filename);
+    graph_ = graph;
     map_update_available_ = true;
     prev_odom_pose_is_initialized_ = false;
   }
@@ -181,7 +191,14 @@ void Mapper::configure(const std::shared_ptr<srv::Configure::Request> request,
   {
     RCLCPP_INFO(logger_, "Saving map to %s", request->filename.c_str());
     std::lock_guard<std::mutex> lock(graph_mutex_);
-    graph_->save(request->filename);
+    try
+    {
+      graph_->save(request->filename);
+    }
+    catch (const std::exception& ex)
+    {
+      RCLCPP_ERROR(logger_, "Could not save map: %s", ex.what());
+    }
   }
 }
 
-- 
2.43.0


From 62427f457e82d578fbbba0394526fdf4a67c97b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:48 +0000
Subject: [PATCH 22/43] fix: mapping is disabled when using the particle filter

---
 src/ndt_mapper.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 4f53ee7..b53140c 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -204,7 +204,7 @@ void Mapper::configure(const std::shared_ptr<srv::Configure::Request> request,
 
 void Mapper::poseCallback(const geometry_msgs::msg::PoseWithCovarianceStamped::ConstSharedPtr& msg)
 {
-  if (enable_mapping_ && prev_odom_pose_is_initialized_)
+  if (enable_mapping_ && !use_particle_filter_ && prev_odom_pose_is_initialized_)
   {
     RCLCPP_WARN(logger_, "Ignoring initial pose, already mapping");
     return;
@@ -599,8 +599,8 @@ void Mapper::loopClosureThread()
   {
     std::this_thread::sleep_for(std::chrono::seconds(1));
 
-    // Only do loop closure if we are mapping
-    if (!enable_mapping_)
+    // Only do loop closure if we are mapping (the particle filter never does)
+    if (!enable_mapping_ || use_particle_filter_)
     {
       continue;
     }
-- 
2.43.0


From 7d5827f9d6efddf62fa49211aa5810dbd4846d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:15 +0000
Subject: [PATCH 23/43] fix: destroying the node stops its threads, also with
 many scans to process

---
 include/ndt_2d/ndt_mapper.hpp |  4 ++++
 src/ndt_mapper.cpp            | 10 ++++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/ndt_2d/ndt_mapper.hpp b/include/ndt_2d/ndt_mapper.hpp
index 9fe6ae4..feb10ee 100644
--- a/include/ndt_2d/ndt_mapper.hpp
+++ b/include/ndt_2d/ndt_mapper.hpp
@@ -32,6 +32,7 @@
 #include <tf2_ros/buffer.h>
 #include <tf2_ros/transform_listener.h>
 #include <tf2_ros/transform_broadcaster.h>
+#include <atomic>
 #include <memory>
 #include <mutex>
 #include <string>
@@ -68,6 +69,9 @@ protected:
   /** @brief ROS callback for new laser scan */
   void laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& msg);
 
+  // Set when the node is being destroyed, threads should exit
+  std::atomic<bool> shutdown_;
+
   // Thread for doing global loop closure
   void loopClosureThread();
   size_t global_scans_processed_;
diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index b53140c..3914eeb 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -47,6 +47,7 @@ namespace ndt_2d
 
 Mapper::Mapper(const rclcpp::NodeOptions & options)
 : rclcpp::Node("ndt_2d_mapper", options),
+  shutdown_(false),
   global_scans_processed_(0),
   map_update_available_(false),
   laser_inverted_(false),
@@ -145,6 +146,7 @@ Mapper::Mapper(const rclcpp::NodeOptions & options)
 Mapper::~Mapper()
 {
   // Shut down threads
+  shutdown_ = true;
   map_publish_thread_->join();
   loop_closure_thread_->join();
   // Clean these up to avoid pluginlib errors
@@ -595,7 +597,7 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
 
 void Mapper::loopClosureThread()
 {
-  while (rclcpp::ok())
+  while (rclcpp::ok() && !shutdown_)
   {
     std::this_thread::sleep_for(std::chrono::seconds(1));
 
@@ -630,6 +632,8 @@ void Mapper::loopClosureThread()
       // We have new scans to process
       for (; global_scans_processed_ < num_scans; ++global_scans_processed_)
       {
+        if (!rclcpp::ok() || shutdown_) return;
+
         // Determine where rolling window starts
         size_t rolling = global_scans_processed_ - rolling_depth_;
 
@@ -646,6 +650,8 @@ void Mapper::loopClosureThread()
         size_t num_scans_to_check = global_search_limit_;
         for (auto i : scans)
         {
+          if (!rclcpp::ok() || shutdown_) return;
+
           // Lock graph to access scans
           std::unique_lock<std::mutex> lock(graph_mutex_);
           const auto candidate = graph_->scans[i];
@@ -713,7 +719,7 @@ void Mapper::loopClosureThread()
 
 void Mapper::mapPublishThread()
 {
-  while (rclcpp::ok())
+  while (rclcpp::ok() && !shutdown_)
   {
     if (map_update_available_)
     {
-- 
2.43.0


From ca28166b2ff28ec7547ee541fa7cab6a3e52995e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:15 +0000
Subject: [PATCH 24/43] fix: flags shared between threads are atomic

---
 include/ndt_2d/ndt_mapper.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ndt_2d/ndt_mapper.hpp b/include/ndt_2d/ndt_mapper.hpp
index feb10ee..2627faf 100644
--- a/include/ndt_2d/ndt_mapper.hpp
+++ b/include/ndt_2d/ndt_mapper.hpp
@@ -79,7 +79,7 @@ protected:
 
   // Thread for publishing map and transforms
   void mapPublishThread();
-  bool map_update_available_;
+  std::atomic<bool> map_update_available_;
   std::unique_ptr<std::thread> map_publish_thread_;
 
   // Mapping parameters
@@ -108,7 +108,7 @@ protected:
   ScanMatcherPtr local_scan_matcher_;
   pluginlib::ClassLoader<ScanMatcher> scan_matcher_loader_;
   std::string scan_matcher_type_;
-  double typical_matcher_response_;
+  std::atomic<double> typical_matcher_response_;
 
   // ROS 2 interfaces
   rclcpp::Logger logger_;
@@ -125,7 +125,7 @@ protected:
   // Map data
   GraphPtr graph_;
   std::mutex graph_mutex_;
-  bool enable_mapping_;
+  std::atomic<bool> enable_mapping_;
   std::mutex prev_pose_mutex_;
   // The previous odom_frame_->robot_frame_
   Pose2d prev_odom_pose_;
-- 
2.43.0


From d85324b16f937b5f1e03c3071f675442557fd830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:15 +0000
Subject: [PATCH 25/43] fix: a scan and its constraint are added to the graph
 at once, under lock

---
 src/ndt_mapper.cpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 3914eeb..fc54ae9 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -526,6 +526,7 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
     RCLCPP_INFO(logger_, "Odom pose: %f, %f, %f", odom_pose.x, odom_pose.y, odom_pose.theta);
 
     double matched_score = 0.0;
+    Eigen::Matrix3d covariance;
     if (!graph_->scans.empty())
     {
       // Determine rolling window
@@ -533,13 +534,15 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
         graph_->scans.size() - rolling_depth_;
       auto rolling = graph_->scans.begin() + start;
 
-      // Create scan matcher with rolling window scans
-      local_scan_matcher_->reset();
-      local_scan_matcher_->addScans(rolling, graph_->scans.end());
+      // Create scan matcher with rolling window scans (loop closure thread might be moving them)
+      {
+        std::lock_guard<std::mutex> lock(graph_mutex_);
+        local_scan_matcher_->reset();
+        local_scan_matcher_->addScans(rolling, graph_->scans.end());
+      }
 
       // Local consistency - match new scan against last rolling_depth_ scans
       Pose2d correction;
-      Eigen::Matrix3d covariance;
       double uncorrected_score = local_scan_matcher_->scoreScan(scan);
       matched_score = local_scan_matcher_->matchScan(scan, correction, covariance);
       RCLCPP_INFO(logger_, "           %f, %f, %f (%f -> %f)",
@@ -551,19 +554,18 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
       correction.y += scan->getPose().y;
       correction.theta += scan->getPose().theta;
       scan->setPose(correction);
-
-      // Add odom constraint to the graph
-      ConstraintPtr constraint = makeConstraint(graph_->scans.back(), scan, covariance);
-      std::lock_guard<std::mutex> lock(graph_mutex_);
-      graph_->constraints.push_back(constraint);
     }
 
     RCLCPP_INFO(logger_, "Corrected: %f, %f, %f",
                 scan->getPose().x, scan->getPose().y, scan->getPose().theta);
 
-    // Append new scan to our graph
+    // Append new scan to our graph, together with its odom constraint
     {
       std::lock_guard<std::mutex> lock(graph_mutex_);
+      if (!graph_->scans.empty())
+      {
+        graph_->constraints.push_back(makeConstraint(graph_->scans.back(), scan, covariance));
+      }
       graph_->scans.push_back(scan);
     }
 
-- 
2.43.0


From 95886a889e5d743ce38582af537e4141c06eff89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:15 +0000
Subject: [PATCH 26/43] fix: loop closure moves a scan under lock, together
 with adding its constraint

---
 src/ndt_mapper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index fc54ae9..4489fd1 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -683,7 +683,8 @@ void Mapper::loopClosureThread()
             RCLCPP_INFO(logger_, "***Adding loop closure from %lu to %lu (score %f)",
                                  candidate->getId(), scan->getId(), score);
 
-            // Correct pose
+            // Correct pose (other threads use it, so lock first)
+            lock.lock();
             correction.x += scan->getPose().x;
             correction.y += scan->getPose().y;
             correction.theta += scan->getPose().theta;
@@ -692,7 +693,6 @@ void Mapper::loopClosureThread()
             // Add constraint to the graph
             ConstraintPtr constraint = makeConstraint(candidate, scan, covariance);
             constraint->switchable = true;
-            lock.lock();  // lock before adding constraint
             graph_->constraints.push_back(constraint);
             map_update_available_ = true;
           }
-- 
2.43.0


From e73bf3cb8411b058c3f3391844e963a7181a5140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:15 +0000
Subject: [PATCH 27/43] fix: an initial pose changes both previous poses under
 lock

---
 src/ndt_mapper.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 4489fd1..a931440 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -275,6 +275,7 @@ void Mapper::poseCallback(const geometry_msgs::msg::PoseWithCovarianceStamped::C
   }
 
   // Localize robot
+  std::lock_guard<std::mutex> lock(prev_pose_mutex_);
   prev_robot_pose_ = fromMsg(msg->pose.pose);
   prev_odom_pose_ = fromMsg(odom_to_robot);
   prev_odom_pose_is_initialized_ = true;
-- 
2.43.0


From 4bcfc31e1a7225e7ca3a82b649499782f5790311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:15 +0000
Subject: [PATCH 28/43] fix: transform publishing accesses the graph under lock

---
 src/ndt_mapper.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index a931440..494ea30 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -750,7 +750,12 @@ void Mapper::mapPublishThread()
     }
 
     // Publish TF
-    if (!graph_->scans.empty())
+    bool have_scans = false;
+    {
+      std::lock_guard<std::mutex> lock(graph_mutex_);
+      have_scans = !graph_->scans.empty();
+    }
+    if (have_scans)
     {
       // Lock previous poses before accessing
       std::unique_lock<std::mutex> lock(prev_pose_mutex_);
-- 
2.43.0


From ceb19bd668cfef12120c1ebaa6a1df4d1a47984e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:13 +0000
Subject: [PATCH 29/43] fix: matches which are not finite do not become poses
 or constraints

---
 src/ndt_mapper.cpp | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 494ea30..37903a8 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -27,6 +27,7 @@
  */
 
 #include <angles/angles.h>
+#include <Eigen/Cholesky>
 #include <Eigen/Core>
 #include <Eigen/Geometry>
 #include <cmath>
@@ -45,6 +46,19 @@
 namespace ndt_2d
 {
 
+// Can the result of a scan match be used to move a scan, or to build a constraint?
+static bool isUsable(double score, const Pose2d & correction, const Eigen::Matrix3d & covariance)
+{
+  if (!std::isfinite(score) || !std::isfinite(correction.x) ||
+      !std::isfinite(correction.y) || !std::isfinite(correction.theta))
+  {
+    return false;
+  }
+  // The information matrix must have a square root for the solver
+  const Eigen::Matrix3d information = covariance.inverse();
+  return information.allFinite() && information.llt().info() == Eigen::Success;
+}
+
 Mapper::Mapper(const rclcpp::NodeOptions & options)
 : rclcpp::Node("ndt_2d_mapper", options),
   shutdown_(false),
@@ -548,6 +562,11 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
       matched_score = local_scan_matcher_->matchScan(scan, correction, covariance);
       RCLCPP_INFO(logger_, "           %f, %f, %f (%f -> %f)",
                   correction.x, correction.y, correction.theta, uncorrected_score, matched_score);
+      if (!isUsable(matched_score, correction, covariance))
+      {
+        RCLCPP_ERROR(logger_, "Could not match scan, ignoring it");
+        return;
+      }
       typical_matcher_response_ = 0.95 * typical_matcher_response_ + 0.05 * matched_score;
 
       // Add correction to scan corrected pose
@@ -585,6 +604,11 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
     double score = global_scan_matcher_->matchScan(scan, correction, covariance);
     RCLCPP_INFO(logger_, "           %f, %f, %f (%f -> %f)",
                 correction.x, correction.y, correction.theta, uncorrected_score, score);
+    if (!isUsable(score, correction, covariance))
+    {
+      RCLCPP_ERROR(logger_, "Could not match scan, ignoring it");
+      return;
+    }
 
     // Add correction to scan corrected pose
     correction.x += scan->getPose().x;
@@ -678,7 +702,7 @@ void Mapper::loopClosureThread()
           Eigen::Matrix3d covariance;
           double score = global_scan_matcher_->matchScan(scan, correction, covariance);
 
-          if (std::isfinite(score) && (score < typical_matcher_response_))
+          if (isUsable(score, correction, covariance) && (score < typical_matcher_response_))
           {
             new_matches = true;
             RCLCPP_INFO(logger_, "***Adding loop closure from %lu to %lu (score %f)",
-- 
2.43.0


From 7b7387fe1b8237459705e9f226721c2afaccf49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:13 +0000
Subject: [PATCH 30/43] fix: loop closure starts over when a map is loaded, and
 stops when mapping is disabled

---
 src/ndt_mapper.cpp | 39 ++++++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 37903a8..5a1f394 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -180,6 +180,8 @@ void Mapper::configure(const std::shared_ptr<srv::Configure::Request> request,
   else if (request->action & srv::Configure::Request::DISABLE_MAPPING)
   {
     RCLCPP_INFO(logger_, "Disabling mapping");
+    // Lock graph, so that loop closure thread is not in the middle of changing it
+    std::lock_guard<std::mutex> lock(graph_mutex_);
     enable_mapping_ = false;
     // Need to be relocalized before mapping can continue
     prev_odom_pose_is_initialized_ = false;
@@ -624,6 +626,9 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
 
 void Mapper::loopClosureThread()
 {
+  // The graph being processed, graph_ is replaced when a map is loaded
+  GraphPtr graph;
+
   while (rclcpp::ok() && !shutdown_)
   {
     std::this_thread::sleep_for(std::chrono::seconds(1));
@@ -638,7 +643,15 @@ void Mapper::loopClosureThread()
     size_t num_scans;
     {
       std::lock_guard<std::mutex> lock(graph_mutex_);
-      num_scans = graph_->scans.size();
+      if (graph != graph_)
+      {
+        // A different map has been loaded, start over
+        graph = graph_;
+        global_scans_processed_ = 0;
+        optimization_last_ = 0;
+        solver_ = std::make_shared<CeresSolver>();
+      }
+      num_scans = graph->scans.size();
     }
 
     // Can't do a global search until we have at least enough scans
@@ -669,8 +682,8 @@ void Mapper::loopClosureThread()
         std::vector<size_t> scans;
         {
           std::lock_guard<std::mutex> lock(graph_mutex_);
-          scan = graph_->scans[global_scans_processed_];
-          scans = graph_->findNearest(scan, global_search_size_, rolling);
+          scan = graph->scans[global_scans_processed_];
+          scans = graph->findNearest(scan, global_search_size_, rolling);
         }
 
         // Now do global loop closure scan matching
@@ -681,14 +694,14 @@ void Mapper::loopClosureThread()
 
           // Lock graph to access scans
           std::unique_lock<std::mutex> lock(graph_mutex_);
-          const auto candidate = graph_->scans[i];
+          const auto candidate = graph->scans[i];
           if (candidate->getPoints().empty()) continue;
 
           // Take one additional scan on either side of candidate
           size_t begin_idx = (i > 0) ? i - 1: i;
           size_t end_idx = (i < rolling) ? i + 1 : i;
-          auto begin = graph_->scans.begin() + begin_idx;
-          auto end = graph_->scans.begin() + end_idx;
+          auto begin = graph->scans.begin() + begin_idx;
+          auto end = graph->scans.begin() + end_idx;
 
           // Build NDT of candidate region
           global_scan_matcher_->reset();
@@ -702,14 +715,17 @@ void Mapper::loopClosureThread()
           Eigen::Matrix3d covariance;
           double score = global_scan_matcher_->matchScan(scan, correction, covariance);
 
+          // Map might have been replaced, or mapping disabled, while we were not holding the lock
+          lock.lock();
+          if (graph != graph_ || !enable_mapping_) break;
+
           if (isUsable(score, correction, covariance) && (score < typical_matcher_response_))
           {
             new_matches = true;
             RCLCPP_INFO(logger_, "***Adding loop closure from %lu to %lu (score %f)",
                                  candidate->getId(), scan->getId(), score);
 
-            // Correct pose (other threads use it, so lock first)
-            lock.lock();
+            // Correct pose
             correction.x += scan->getPose().x;
             correction.y += scan->getPose().y;
             correction.theta += scan->getPose().theta;
@@ -718,7 +734,7 @@ void Mapper::loopClosureThread()
             // Add constraint to the graph
             ConstraintPtr constraint = makeConstraint(candidate, scan, covariance);
             constraint->switchable = true;
-            graph_->constraints.push_back(constraint);
+            graph->constraints.push_back(constraint);
             map_update_available_ = true;
           }
           else
@@ -737,8 +753,9 @@ void Mapper::loopClosureThread()
     {
       RCLCPP_INFO(logger_, "Optimizing pose graph");
       std::lock_guard<std::mutex> lock(graph_mutex_);
-      solver_->optimize(graph_->constraints, graph_->scans);
-      optimization_last_ = graph_->scans.size();
+      if (graph != graph_ || !enable_mapping_) continue;
+      solver_->optimize(graph->constraints, graph->scans);
+      optimization_last_ = graph->scans.size();
       map_update_available_ = true;
     }
   }
-- 
2.43.0


From 7c0df65ecaebed8950e39c3342f792b4a11e2b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:13 +0000
Subject: [PATCH 31/43] fix: global scan matcher is shared under lock, and
 always has the current map for localization

---
 include/ndt_2d/ndt_mapper.hpp |  7 ++++++
 src/ndt_mapper.cpp            | 42 ++++++++++++++++++++++++++---------
 2 files changed, 39 insertions(+), 10 deletions(-)

diff --git a/include/ndt_2d/ndt_mapper.hpp b/include/ndt_2d/ndt_mapper.hpp
index 2627faf..38bcdde 100644
--- a/include/ndt_2d/ndt_mapper.hpp
+++ b/include/ndt_2d/ndt_mapper.hpp
@@ -66,6 +66,9 @@ protected:
   /** @brief ROS callback for initializing localization */
   void poseCallback(const geometry_msgs::msg::PoseWithCovarianceStamped::ConstSharedPtr& msg);
 
+  /** @brief Make sure the global scan matcher contains the complete map */
+  void updateGlobalScanMatcher();
+
   /** @brief ROS callback for new laser scan */
   void laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& msg);
 
@@ -104,6 +107,10 @@ protected:
   // Scan matchers
   // Used for loop closure when mapping, and localization
   ScanMatcherPtr global_scan_matcher_;
+  // Both threads use it - always lock this before (never after) graph_mutex_
+  std::mutex global_scan_matcher_mutex_;
+  // When localizing, does the global scan matcher contain all scans of the current map?
+  std::atomic<bool> global_scan_matcher_is_complete_;
   // Used for odometric correction when mapping
   ScanMatcherPtr local_scan_matcher_;
   pluginlib::ClassLoader<ScanMatcher> scan_matcher_loader_;
diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 5a1f394..c580515 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -66,6 +66,7 @@ Mapper::Mapper(const rclcpp::NodeOptions & options)
   map_update_available_(false),
   laser_inverted_(false),
   optimization_last_(0),
+  global_scan_matcher_is_complete_(false),
   scan_matcher_loader_("ndt_2d", "ndt_2d::ScanMatcher"),
   typical_matcher_response_(-0.5),
   logger_(rclcpp::get_logger("ndt_2d_mapper")),
@@ -183,6 +184,7 @@ void Mapper::configure(const std::shared_ptr<srv::Configure::Request> request,
     // Lock graph, so that loop closure thread is not in the middle of changing it
     std::lock_guard<std::mutex> lock(graph_mutex_);
     enable_mapping_ = false;
+    global_scan_matcher_is_complete_ = false;
     // Need to be relocalized before mapping can continue
     prev_odom_pose_is_initialized_ = false;
   }
@@ -202,6 +204,7 @@ void Mapper::configure(const std::shared_ptr<srv::Configure::Request> request,
     }
     std::lock_guard<std::mutex> lock(graph_mutex_);
     graph_ = graph;
+    global_scan_matcher_is_complete_ = false;
     map_update_available_ = true;
     prev_odom_pose_is_initialized_ = false;
   }
@@ -300,6 +303,17 @@ void Mapper::poseCallback(const geometry_msgs::msg::PoseWithCovarianceStamped::C
               prev_robot_pose_.y, prev_robot_pose_.theta);
 }
 
+void Mapper::updateGlobalScanMatcher()
+{
+  if (global_scan_matcher_is_complete_) return;
+
+  // When localizing, global scan matcher uses ALL scans
+  std::lock_guard<std::mutex> lock(graph_mutex_);
+  global_scan_matcher_->reset();
+  global_scan_matcher_->addScans(graph_->scans.begin(), graph_->scans.end());
+  global_scan_matcher_is_complete_ = true;
+}
+
 void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& msg)
 {
   // Nothing to do for an empty scan (and nothing to be learned from it)
@@ -332,17 +346,9 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
     laser_frame_ = msg->header.frame_id;
 
     // range_max_ must be set before building the global scan matcher NDT
-    if (use_particle_filter_ || !enable_mapping_)
-    {
-      // When localizing, global scan matcher uses ALL scans
-      global_scan_matcher_ = scan_matcher_loader_.createSharedInstance(scan_matcher_type_);
-      global_scan_matcher_->initialize("global_scan_matcher", this, range_max_);
-      // Note: no need to lock graph here, since this thread is the only one that adds scans
-      global_scan_matcher_->addScans(graph_->scans.begin(), graph_->scans.end());
-    }
-    else
     {
       // When map building, global scan matcher is just for loop closures
+      std::lock_guard<std::mutex> lock(global_scan_matcher_mutex_);
       global_scan_matcher_ = scan_matcher_loader_.createSharedInstance(scan_matcher_type_);
       global_scan_matcher_->initialize("global_scan_matcher", this, range_max_);
     }
@@ -516,7 +522,11 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
                          robot_delta(1), robot_delta(2));
 
     filter_->update(robot_delta(0), robot_delta(1), robot_delta(2));
-    filter_->measure(global_scan_matcher_, scan);
+    {
+      std::lock_guard<std::mutex> lock(global_scan_matcher_mutex_);
+      updateGlobalScanMatcher();
+      filter_->measure(global_scan_matcher_, scan);
+    }
     filter_->resample(kld_err_, kld_z_);
 
     auto mean = filter_->getMean();
@@ -602,8 +612,11 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
     // Not using particle filter, nor mapping, just track motion of robot
     Pose2d correction;
     Eigen::Matrix3d covariance;
+    std::unique_lock<std::mutex> matcher_lock(global_scan_matcher_mutex_);
+    updateGlobalScanMatcher();
     double uncorrected_score = global_scan_matcher_->scoreScan(scan);
     double score = global_scan_matcher_->matchScan(scan, correction, covariance);
+    matcher_lock.unlock();
     RCLCPP_INFO(logger_, "           %f, %f, %f (%f -> %f)",
                 correction.x, correction.y, correction.theta, uncorrected_score, score);
     if (!isUsable(score, correction, covariance))
@@ -639,6 +652,12 @@ void Mapper::loopClosureThread()
       continue;
     }
 
+    // Scan matchers are created once there is a scan
+    {
+      std::lock_guard<std::mutex> lock(global_scan_matcher_mutex_);
+      if (!global_scan_matcher_) continue;
+    }
+
     // Determine number of scans (under lock)
     size_t num_scans;
     {
@@ -693,6 +712,7 @@ void Mapper::loopClosureThread()
           if (!rclcpp::ok() || shutdown_) return;
 
           // Lock graph to access scans
+          std::unique_lock<std::mutex> matcher_lock(global_scan_matcher_mutex_);
           std::unique_lock<std::mutex> lock(graph_mutex_);
           const auto candidate = graph->scans[i];
           if (candidate->getPoints().empty()) continue;
@@ -704,6 +724,7 @@ void Mapper::loopClosureThread()
           auto end = graph->scans.begin() + end_idx;
 
           // Build NDT of candidate region
+          global_scan_matcher_is_complete_ = false;
           global_scan_matcher_->reset();
           global_scan_matcher_->addScans(begin, end);
 
@@ -714,6 +735,7 @@ void Mapper::loopClosureThread()
           Pose2d correction;
           Eigen::Matrix3d covariance;
           double score = global_scan_matcher_->matchScan(scan, correction, covariance);
+          matcher_lock.unlock();
 
           // Map might have been replaced, or mapping disabled, while we were not holding the lock
           lock.lock();
-- 
2.43.0


From 54627c5f327bda9a1663b6294ddf8266165b4b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:13 +0000
Subject: [PATCH 32/43] fix: publish the map after an initial pose is connected
 to the graph

---
 src/ndt_mapper.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index c580515..b98bc86 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -291,6 +291,7 @@ void Mapper::poseCallback(const geometry_msgs::msg::PoseWithCovarianceStamped::C
     covariance(2, 2) = msg->pose.covariance[35];
     ConstraintPtr constraint = makeConstraint(graph_->scans[nearest[0]], scan, covariance);
     graph_->constraints.push_back(constraint);
+    map_update_available_ = true;
   }
 
   // Localize robot
-- 
2.43.0


From 998919df2ff1e9050daa8eddfb8091794ffbbc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:13 +0000
Subject: [PATCH 33/43] fix: an initial pose without covariance does not break
 optimization

---
 src/ndt_mapper.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index b98bc86..949284e 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -30,6 +30,7 @@
 #include <Eigen/Cholesky>
 #include <Eigen/Core>
 #include <Eigen/Geometry>
+#include <algorithm>
 #include <cmath>
 #include <chrono>
 #include <iostream>
@@ -286,9 +287,10 @@ void Mapper::poseCallback(const geometry_msgs::msg::PoseWithCovarianceStamped::C
 
     // Add a constraint
     Eigen::Matrix3d covariance = Eigen::Matrix3d::Zero();
-    covariance(0, 0) = msg->pose.covariance[0];
-    covariance(1, 1) = msg->pose.covariance[7];
-    covariance(2, 2) = msg->pose.covariance[35];
+    // A pose is never perfect, even if no covariance is given
+    covariance(0, 0) = std::max(msg->pose.covariance[0], 1e-6);
+    covariance(1, 1) = std::max(msg->pose.covariance[7], 1e-6);
+    covariance(2, 2) = std::max(msg->pose.covariance[35], 1e-6);
     ConstraintPtr constraint = makeConstraint(graph_->scans[nearest[0]], scan, covariance);
     graph_->constraints.push_back(constraint);
     map_update_available_ = true;
-- 
2.43.0


From 19416049664aa45fe1d94ee38a852e179a150095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:51 +0000
Subject: [PATCH 34/43] fix: loop closure does not continue matching once the
 map is replaced or mapping disabled

---
 src/ndt_mapper.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 949284e..5d3a3f5 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -704,6 +704,7 @@ void Mapper::loopClosureThread()
         std::vector<size_t> scans;
         {
           std::lock_guard<std::mutex> lock(graph_mutex_);
+          if (graph != graph_ || !enable_mapping_) break;
           scan = graph->scans[global_scans_processed_];
           scans = graph->findNearest(scan, global_search_size_, rolling);
         }
@@ -717,6 +718,7 @@ void Mapper::loopClosureThread()
           // Lock graph to access scans
           std::unique_lock<std::mutex> matcher_lock(global_scan_matcher_mutex_);
           std::unique_lock<std::mutex> lock(graph_mutex_);
+          if (graph != graph_ || !enable_mapping_) break;
           const auto candidate = graph->scans[i];
           if (candidate->getPoints().empty()) continue;
 
-- 
2.43.0


From f256c0c4c8483e88026bf3c05edb53cc06ab2901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:42 +0000
Subject: [PATCH 35/43] fix: rays of the occupancy grid end in the cell of the
 point, not the one before

---
 src/occupancy_grid.cpp | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/occupancy_grid.cpp b/src/occupancy_grid.cpp
index 07b1793..6323b37 100644
--- a/src/occupancy_grid.cpp
+++ b/src/occupancy_grid.cpp
@@ -104,23 +104,15 @@ void OccupancyGrid::getMsg(std::vector<ndt_2d::ScanPtr> & scans,
           break;
         }
         ++empty[index];
-        if (2 * error >= dy)
+        // Both steps are decided by the error before either of them
+        const int error2 = 2 * error;
+        if (error2 >= dy)
         {
-          if (x == end_x)
-          {
-            ++hit[index];
-            break;
-          }
           error = error + dy;
           x += sx;
         }
-        if (2 * error <= dx)
+        if (error2 <= dx)
         {
-          if (y == end_y)
-          {
-            ++hit[index];
-            break;
-          }
           error = error + dx;
           y += sy;
         }
-- 
2.43.0


From 57ab0529b04ef3012ef20a50544a6aa6570b8efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:05 +0000
Subject: [PATCH 36/43] fix: nearest scan query crashes if many scans are at
 the same position

---
 src/graph.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/graph.cpp b/src/graph.cpp
index d78a0d0..4f76370 100644
--- a/src/graph.cpp
+++ b/src/graph.cpp
@@ -26,6 +26,7 @@
  * THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
  */
 
+#include <algorithm>
 #include <iostream>
 #include <ndt_2d/graph.hpp>
 #include <ndt_2d/msg/scan.hpp>
@@ -170,7 +171,9 @@ std::vector<size_t> Graph::findNearest(const ScanPtr & scan, double dist, int li
   // tree, since it rebuilds index from scratch: https://github.com/jlblancoc/nanoflann/issues/90
   size_t limit = (limit_scan_index > 0) ? limit_scan_index : scans.size();
   GraphAdapter adapter(this, limit, use_barycenter_);
-  kd_tree_t tree(2 /* dimension */, adapter, 5 /* leaf size */);
+  // The tree is only used for one query, so there is nothing to gain from splitting it (and nanoflann
+  // can not split a leaf if all of the scans in it are at the very same position)
+  kd_tree_t tree(2 /* dimension */, adapter, std::max<size_t>(limit, 1) /* leaf size */);
   tree.buildIndex();
 
   // Search KD-tree for neighbors
-- 
2.43.0


From 8507627eb3058a2a91130dcbb5c55b4cab07a44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:04 +0000
Subject: [PATCH 37/43] fix: robot pose is read from scan before loop closure
 thread can move it

---
 src/ndt_mapper.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 5d3a3f5..7495c5d 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -594,6 +594,9 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
     RCLCPP_INFO(logger_, "Corrected: %f, %f, %f",
                 scan->getPose().x, scan->getPose().y, scan->getPose().theta);
 
+    // Once the scan is in the graph, loop closure thread might move it
+    robot_pose = scan->getPose();
+
     // Append new scan to our graph, together with its odom constraint
     {
       std::lock_guard<std::mutex> lock(graph_mutex_);
@@ -607,7 +610,7 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
     // Update previous pose tracking (under lock)
     std::lock_guard<std::mutex> lock(prev_pose_mutex_);
     prev_odom_pose_ = odom_pose;
-    prev_robot_pose_ = scan->getPose();
+    prev_robot_pose_ = robot_pose;
     map_update_available_ = true;
   }
   else
-- 
2.43.0


From ecd9f177fb55d5b46e8f5a2d343a4e9e31f06a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:32 +0000
Subject: [PATCH 38/43] fix: covariance of a match with underflowing
 likelihoods is not a covariance

---
 src/scan_matcher_ndt.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/scan_matcher_ndt.cpp b/src/scan_matcher_ndt.cpp
index 72df869..d786080 100644
--- a/src/scan_matcher_ndt.cpp
+++ b/src/scan_matcher_ndt.cpp
@@ -150,8 +150,9 @@ double ScanMatcherNDT::matchScan(const ScanPtr & scan, Pose2d & pose,
     }
   }
 
-  // Compute covariance, unless no offset has any overlap with the map
-  if (s < 0.0)
+  // Compute covariance, unless no offset has any overlap with the map. If the likelihoods are so
+  // small that the products above underflow, the result would not be a valid covariance.
+  if (s < -1e-200)
   {
     const Eigen::Vector3d mean = u / s;
     covariance = k / s - mean * mean.transpose();
-- 
2.43.0


From 48360c3723c0e9d570a32b91d40f44f9d7358c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:10 +0000
Subject: [PATCH 39/43] fix: initial pose that is not finite crashes the map
 publisher

A pose with a NaN orientation was added to the graph, the occupancy grid
was then rendered out of bounds (or NaN was published as transform).
---
 src/ndt_mapper.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 7495c5d..c61858c 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -238,6 +238,14 @@ void Mapper::poseCallback(const geometry_msgs::msg::PoseWithCovarianceStamped::C
     return;
   }
 
+  const Pose2d initial_pose = fromMsg(msg->pose.pose);
+  if (!std::isfinite(initial_pose.x) || !std::isfinite(initial_pose.y) ||
+      !std::isfinite(initial_pose.theta))
+  {
+    RCLCPP_ERROR(logger_, "Ignoring initial pose, it is not finite");
+    return;
+  }
+
   // Find transform from odom to robot frames
   geometry_msgs::msg::TransformStamped odom_to_robot;
   try
-- 
2.43.0


From 17bee1b04983838023e20d5ee08f52aabbb8c250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:29 +0000
Subject: [PATCH 40/43] fix: initial pose with an invalid covariance spoils
 particles and map

NaN or negative variances made all particles NaN, or added a constraint
with a NaN information matrix, so the map could never be optimized again.
---
 src/ndt_mapper.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index c61858c..73e43b5 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -60,6 +60,12 @@ static bool isUsable(double score, const Pose2d & correction, const Eigen::Matri
   return information.allFinite() && information.llt().info() == Eigen::Success;
 }
 
+// Variances of an initial pose might not be given, or not be valid
+static double toVariance(double value, double minimum)
+{
+  return std::isfinite(value) ? std::max(value, minimum) : minimum;
+}
+
 Mapper::Mapper(const rclcpp::NodeOptions & options)
 : rclcpp::Node("ndt_2d_mapper", options),
   shutdown_(false),
@@ -265,9 +271,9 @@ void Mapper::poseCallback(const geometry_msgs::msg::PoseWithCovarianceStamped::C
     filter_->init(msg->pose.pose.position.x,
                   msg->pose.pose.position.y,
                   tf2::getYaw(msg->pose.pose.orientation),
-                  sqrt(msg->pose.covariance[0]),
-                  sqrt(msg->pose.covariance[7]),
-                  sqrt(msg->pose.covariance[35]));
+                  sqrt(toVariance(msg->pose.covariance[0], 0.0)),
+                  sqrt(toVariance(msg->pose.covariance[7], 0.0)),
+                  sqrt(toVariance(msg->pose.covariance[35], 0.0)));
     // Publish visualization
     geometry_msgs::msg::PoseArray msg;
     msg.header.frame_id = "map";
@@ -296,9 +302,9 @@ void Mapper::poseCallback(const geometry_msgs::msg::PoseWithCovarianceStamped::C
     // Add a constraint
     Eigen::Matrix3d covariance = Eigen::Matrix3d::Zero();
     // A pose is never perfect, even if no covariance is given
-    covariance(0, 0) = std::max(msg->pose.covariance[0], 1e-6);
-    covariance(1, 1) = std::max(msg->pose.covariance[7], 1e-6);
-    covariance(2, 2) = std::max(msg->pose.covariance[35], 1e-6);
+    covariance(0, 0) = toVariance(msg->pose.covariance[0], 1e-6);
+    covariance(1, 1) = toVariance(msg->pose.covariance[7], 1e-6);
+    covariance(2, 2) = toVariance(msg->pose.covariance[35], 1e-6);
     ConstraintPtr constraint = makeConstraint(graph_->scans[nearest[0]], scan, covariance);
     graph_->constraints.push_back(constraint);
     map_update_available_ = true;
-- 
2.43.0


From 8523064fe06194a5e5a4918d0e7ce113d1fb8572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:37 +0000
Subject: [PATCH 41/43] fix: scan with angles that are not finite crashes the
 map publisher

Its points are not finite either, the occupancy grid is rendered out of bounds
then.
---
 src/ndt_mapper.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 73e43b5..a7615fe 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -336,6 +336,14 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
   // Nothing to do for an empty scan (and nothing to be learned from it)
   if (msg->ranges.empty()) return;
 
+  // Without these, it is not known where the measurements are
+  if (!std::isfinite(msg->angle_min) || !std::isfinite(msg->angle_increment) ||
+      !std::isfinite(msg->time_increment))
+  {
+    RCLCPP_ERROR(logger_, "Ignoring scan, its angles or times are not finite");
+    return;
+  }
+
   // Save data from laser scan message
   if (range_max_ < 0) range_max_ = msg->range_max;
   if (laser_frame_ == "")
-- 
2.43.0


From cb7b9e14aaca34a55e84c8475176bf823df5abbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:37 +0000
Subject: [PATCH 42/43] fix: first scan with an invalid maximum range disables
 scan matching

Scan matchers are sized by the maximum range when the first scan arrives. With
one that is infinite, negative or not a number they never match anything for
the rest of the run.
---
 src/ndt_mapper.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index a7615fe..e961871 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -345,7 +345,15 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
   }
 
   // Save data from laser scan message
-  if (range_max_ < 0) range_max_ = msg->range_max;
+  if (range_max_ < 0)
+  {
+    if (!std::isfinite(msg->range_max) || msg->range_max <= 0)
+    {
+      RCLCPP_ERROR(logger_, "Ignoring scan, its maximum range is not valid");
+      return;
+    }
+    range_max_ = msg->range_max;
+  }
   if (laser_frame_ == "")
   {
     try
-- 
2.43.0


From 5f4c7533ea97882c83b5cd9034d4f22fb34d51d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:37 +0000
Subject: [PATCH 43/43] fix: global search limit of zero considers all of the
 scans

The limit is the maximum number of scans to be considered.
---
 src/ndt_mapper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index e961871..cfd511e 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -747,6 +747,7 @@ void Mapper::loopClosureThread()
         for (auto i : scans)
         {
           if (!rclcpp::ok() || shutdown_) return;
+          if (num_scans_to_check == 0) break;
 
           // Lock graph to access scans
           std::unique_lock<std::mutex> matcher_lock(global_scan_matcher_mutex_);
@@ -803,7 +804,7 @@ void Mapper::loopClosureThread()
                                  candidate->getId(), scan->getId(), score);
           }
 
-          if (--num_scans_to_check == 0) break;
+          --num_scans_to_check;
         }
       }
     }
-- 
2.43.0

