From 99b3a4c85719dc5fccf0d4e0d15ee7b77dcb6346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:38 +0000
Subject: [PATCH 01/23] fix: compute block boundaries in integers so that no
 block becomes empty

---
 extraction/src/index_range.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/extraction/src/index_range.cpp b/extraction/src/index_range.cpp
index 44187f8..176c287 100644
--- a/extraction/src/index_range.cpp
+++ b/extraction/src/index_range.cpp
@@ -27,6 +27,8 @@
 // POSSIBILITY OF SUCH DAMAGE.
 
 
+#include <cstdint>
+
 #include "lidar_feature_extraction/index_range.hpp"
 
 IndexRange::IndexRange(const int start_index, const int end_index, const int n_blocks)
@@ -59,10 +61,9 @@ int IndexRange::End(const int j) const
 
 int IndexRange::Boundary(const int j) const
 {
-  const double s = static_cast<double>(start_index_);
-  const double e = static_cast<double>(end_index_);
-  const double n = static_cast<double>(n_blocks_);
-  return static_cast<int>(s * (1. - j / n) + e * j / n);
+  // integer arithmetic, since rounding errors can move a boundary and leave a block empty
+  const int64_t length = static_cast<int64_t>(end_index_) - start_index_;
+  return start_index_ + static_cast<int>(length * j / n_blocks_);
 }
 
 void IndexRange::ThrowExceptionIfOutOfRange(const int j) const
-- 
2.43.0


From 11e5260a31ee91670c701cefdab1ea06315c6f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:29 +0000
Subject: [PATCH 02/23] fix: order points by azimuth with a strict weak order,
 exact for float coordinates

---
 .../include/lidar_feature_extraction/ring.hpp | 50 +++++++------------
 1 file changed, 18 insertions(+), 32 deletions(-)

diff --git a/extraction/include/lidar_feature_extraction/ring.hpp b/extraction/include/lidar_feature_extraction/ring.hpp
index bac6aa2..5b75566 100644
--- a/extraction/include/lidar_feature_extraction/ring.hpp
+++ b/extraction/include/lidar_feature_extraction/ring.hpp
@@ -58,43 +58,29 @@ struct AHasSmallerPolarAngleThanB
   {
     // faster way to compute std::atan2(a.y, a.x) < std::atan2(b.y, b.x)
 
-    // both have the same values,
-    // including the case that a = {0, 0}, b = {0, 0}
-    if (a.x == b.x && a.y == b.y) {
-      return false;
-    }
-
-    const double lena = a.x * a.x + a.y * a.y;
-    const double lenb = b.x * b.x + b.y * b.y;
-
-    if (lena == 0) {
-      if (b.y == 0) {
-        // for the case that b.x > 0
-        // --> atan2(b.x, b.y) == atan2(a.y, a.x) == 0
-        return b.x < 0;
-      }
-      return b.y > 0;
-    }
-
-    if (lenb == 0) {
-      return a.y < 0;
+    // half turns in the order of the angle; the origin has angle zero
+    auto half = [](const T & p) {
+        if (p.y == 0) {
+          return p.x >= 0 ? 1 : 3;
+        }
+        return p.y < 0 ? 0 : 2;
+      };
+
+    const int half_a = half(a);
+    const int half_b = half(b);
+    if (half_a != half_b) {
+      return half_a < half_b;
     }
 
     if (a.y == 0) {
-      return (a.x >= 0) && (b.y >= 0);
-    }
-
-    if (b.y == 0) {
-      return !((b.x >= 0) && (a.y >= 0));
-    }
-
-    // both have the same y sign
-    if (a.y * b.y > 0) {
-      const double det = a.x * b.y - a.y * b.x;
-      return det > 0;
+      return false;  // both are on the same side of the x axis
     }
 
-    return a.y < 0;
+    // computed in double, where the products of float coordinates are exact
+    const double det =
+      static_cast<double>(a.x) * static_cast<double>(b.y) -
+      static_cast<double>(a.y) * static_cast<double>(b.x);
+    return det > 0;
   }
 };
 
-- 
2.43.0


From 0588162775c326d0a904173c0189625fc799dcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:25 +0000
Subject: [PATCH 03/23] fix: angle of collinear points is not NaN when the
 cosine rounds beyond one

---
 extraction/src/math.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/extraction/src/math.cpp b/extraction/src/math.cpp
index d12c786..b50136b 100644
--- a/extraction/src/math.cpp
+++ b/extraction/src/math.cpp
@@ -26,6 +26,7 @@
 // ARISING IN ANY WAY OUT OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE
 // POSSIBILITY OF SUCH DAMAGE.
 
+#include <algorithm>
 #include <stdexcept>
 
 #include "lidar_feature_extraction/math.hpp"
@@ -42,5 +43,6 @@ double CalcRadian(const double x1, const double y1, const double x2, const doubl
   }
 
   const double cos_angle = dot / (norm1 * norm2);
-  return std::acos(cos_angle);
+  // rounding can move the cosine of collinear points slightly outside of [-1, 1]
+  return std::acos(std::clamp(cos_angle, -1., 1.));
 }
-- 
2.43.0


From 0b63adb7cc43295cd149f7042ae52d7d4b368b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:25 +0000
Subject: [PATCH 04/23] fix: the sub-range form of Range starts at its begin
 index

---
 extraction/include/lidar_feature_extraction/range.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extraction/include/lidar_feature_extraction/range.hpp b/extraction/include/lidar_feature_extraction/range.hpp
index 6474fdc..015b657 100644
--- a/extraction/include/lidar_feature_extraction/range.hpp
+++ b/extraction/include/lidar_feature_extraction/range.hpp
@@ -59,7 +59,7 @@ public:
   {
     std::vector<double> ranges(end - begin);
     for (unsigned int i = 0; i < ranges.size(); i++) {
-      ranges.at(i) = (*this)(i);
+      ranges.at(i) = (*this)(begin + i);
     }
     return ranges;
   }
-- 
2.43.0


From c05a61c7aaa7090bddd5a6558f045bb443a142c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:11 +0000
Subject: [PATCH 05/23] fix: fit surfaces with the normal of centered points,
 so that planes through the map origin work

---
 .../lidar_feature_localization/surface.hpp    | 21 ++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/localization/include/lidar_feature_localization/surface.hpp b/localization/include/lidar_feature_localization/surface.hpp
index afb61ca..3a2d10e 100644
--- a/localization/include/lidar_feature_localization/surface.hpp
+++ b/localization/include/lidar_feature_localization/surface.hpp
@@ -30,6 +30,8 @@
 #ifndef LIDAR_FEATURE_LOCALIZATION__SURFACE_HPP_
 #define LIDAR_FEATURE_LOCALIZATION__SURFACE_HPP_
 
+#include <Eigen/Eigenvalues>
+
 #include <memory>
 #include <tuple>
 #include <vector>
@@ -82,6 +84,18 @@ Eigen::VectorXd EstimatePlaneCoefficients(const Eigen::MatrixXd & X)
   return SolveLinear(X, g);
 }
 
+// w^T * x + 1 = 0 cannot express a plane through the origin.
+// The normal of centered points has no such limitation
+Eigen::Vector3d EstimatePlaneNormal(const Eigen::MatrixXd & X, const Eigen::Vector3d & center)
+{
+  const Eigen::MatrixXd D = X.rowwise() - center.transpose();
+  const Eigen::Matrix3d C = D.transpose() * D;
+  const Eigen::SelfAdjointEigenSolver<Eigen::Matrix3d> solver(C);
+  const Eigen::Vector3d normal = solver.eigenvectors().col(0);
+  // The origin is on the positive side of the plane as in SignedPointPlaneDistance
+  return normal.dot(center) > 0. ? -normal : normal;
+}
+
 Eigen::Matrix<double, 1, 7> MakeJacobianRow(
   const Eigen::Vector3d & w,
   const Eigen::Quaterniond & q,
@@ -129,10 +143,11 @@ private:
 
       const auto [X, squared_distances] = kdtree_->NearestKSearch(point_on_map, n_neighbors_);
 
-      const Eigen::Vector3d w = EstimatePlaneCoefficients(X);
+      const Eigen::Vector3d center = X.colwise().mean();
+      const Eigen::Vector3d normal = EstimatePlaneNormal(X, center);
 
-      jacobians[i] = MakeJacobianRow(w, q, p);
-      residuals[i] = SignedPointPlaneDistanceVector1d(w, point_on_map);
+      jacobians[i] = MakeJacobianRow(normal, q, p);
+      residuals[i] = Eigen::VectorXd::Constant(1, normal.dot(point_on_map - center));
     }
 
     return std::make_tuple(jacobians, residuals);
-- 
2.43.0


From 5cae9e5011cc84c99d9ebc634457608f6c8a420c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:41 +0000
Subject: [PATCH 06/23] fix: pruning the prior store removes all newer objects
 even when none is older

---
 .../stamp_sorted_objects.hpp                    | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/localization/include/lidar_feature_localization/stamp_sorted_objects.hpp b/localization/include/lidar_feature_localization/stamp_sorted_objects.hpp
index 1c600a1..529bba7 100644
--- a/localization/include/lidar_feature_localization/stamp_sorted_objects.hpp
+++ b/localization/include/lidar_feature_localization/stamp_sorted_objects.hpp
@@ -87,21 +87,8 @@ public:
   {
     std::lock_guard<std::mutex> guard(mutex_);
 
-    // g is the first element in map that satisfies timestamp < g
-    const auto g = objects_.upper_bound(timestamp);
-
-    if (g == objects_.end()) {
-      return;
-    }
-
-    const auto boundary = std::prev(g);
-
-    auto curr = std::prev(objects_.end());
-    while (curr != boundary) {
-      auto prev = std::prev(curr);
-      objects_.erase(curr);
-      curr = prev;
-    }
+    // Erase all elements that satisfy timestamp < g
+    objects_.erase(objects_.upper_bound(timestamp), objects_.end());
   }
 
 private:
-- 
2.43.0


From fa91e1253a80248b61789d3b265db6ab7aaa28c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:24 +0000
Subject: [PATCH 07/23] fix: define the declared destructor of KalmanFilter,
 without which the class cannot be used

---
 kalman_filter/src/kalman_filter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kalman_filter/src/kalman_filter.cpp b/kalman_filter/src/kalman_filter.cpp
index 1bb57e6..28706d4 100644
--- a/kalman_filter/src/kalman_filter.cpp
+++ b/kalman_filter/src/kalman_filter.cpp
@@ -36,6 +36,10 @@ KalmanFilter::KalmanFilter(
   assert(!hasZeroElements(R));
 }
 
+KalmanFilter::~KalmanFilter()
+{
+}
+
 void KalmanFilter::init(const Eigen::VectorXd & x, const Eigen::MatrixXd & P0)
 {
   assert(!hasZeroElements(x));
-- 
2.43.0


From 725e2872180f91cc73bb9adf15e5d7e64e007e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:08 +0000
Subject: [PATCH 08/23] fix: EraseBeginSlash does not read the front of an
 empty name

---
 ekf_localizer/src/string.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ekf_localizer/src/string.cpp b/ekf_localizer/src/string.cpp
index be6884e..a033629 100644
--- a/ekf_localizer/src/string.cpp
+++ b/ekf_localizer/src/string.cpp
@@ -18,7 +18,7 @@
 std::string EraseBeginSlash(const std::string & s)
 {
   std::string a = s;
-  if (a.front() == '/') {
+  if (!a.empty() && a.front() == '/') {
     a.erase(0, 1);
   }
   return a;
-- 
2.43.0


From 28cbda8b218e9250cae2d5f9c27a83664e3a7a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:11 +0000
Subject: [PATCH 09/23] fix: compute delay steps without float rounding and
 integer overflow

---
 ekf_localizer/include/ekf_localizer/delay.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ekf_localizer/include/ekf_localizer/delay.hpp b/ekf_localizer/include/ekf_localizer/delay.hpp
index e01d921..9bc9021 100644
--- a/ekf_localizer/include/ekf_localizer/delay.hpp
+++ b/ekf_localizer/include/ekf_localizer/delay.hpp
@@ -16,6 +16,8 @@
 #define EKF_LOCALIZER__DELAY_HPP_
 
 #include <algorithm>
+#include <cmath>
+#include <limits>
 
 
 inline double ComputeDelayTime(
@@ -27,7 +29,12 @@ inline double ComputeDelayTime(
 
 inline int ComputeDelayStep(const double delay_time, const double dt)
 {
-  return std::roundf(std::max(delay_time, 0.) / dt);
+  const double delay_step = std::round(std::max(delay_time, 0.) / dt);
+  if (std::isnan(delay_step)) {  // no delay within a step of zero length
+    return 0;
+  }
+  return static_cast<int>(
+    std::min(delay_step, static_cast<double>(std::numeric_limits<int>::max())));
 }
 
 #endif  // EKF_LOCALIZER__DELAY_HPP_
-- 
2.43.0


From 4cc0c6b3a70a81e756ebf081034cf6b88db83a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:11 +0000
Subject: [PATCH 10/23] fix: measure the heading difference the short way
 around the circle

---
 ekf_localizer/src/pose_measurement.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ekf_localizer/src/pose_measurement.cpp b/ekf_localizer/src/pose_measurement.cpp
index 7da742a..32407bb 100644
--- a/ekf_localizer/src/pose_measurement.cpp
+++ b/ekf_localizer/src/pose_measurement.cpp
@@ -91,13 +91,14 @@ void PoseMeasurement::Update(
       continue;
     }
 
-    const Eigen::Vector3d y = PoseMeasurementVector(pose->pose.pose);
+    Eigen::Vector3d y = PoseMeasurementVector(pose->pose.pose);
 
     if (!CheckMeasurementMatrixNanInf(warning_, y)) {
       continue;
     }
 
     const Eigen::Vector3d y_ekf = GetPoseState(ekf->getX(delay_step));
+    y(2) = y_ekf(2) + normalizeYaw(y(2) - y_ekf(2));  // the shorter way around the circle
     const Eigen::Matrix3d P_y = PoseCovariance(ekf->getLatestP());
 
     if (!CheckMahalanobisGate(warning_, gate_dist_, y_ekf, y, P_y)) {
-- 
2.43.0


From 531ea66216327fc09524a453f0f02f6a30885e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:11 +0000
Subject: [PATCH 11/23] fix: process every pending message in each tick
 although the queue shrinks

---
 ekf_localizer/src/pose_measurement.cpp  | 3 ++-
 ekf_localizer/src/twist_measurement.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ekf_localizer/src/pose_measurement.cpp b/ekf_localizer/src/pose_measurement.cpp
index 32407bb..c0b4412 100644
--- a/ekf_localizer/src/pose_measurement.cpp
+++ b/ekf_localizer/src/pose_measurement.cpp
@@ -78,7 +78,8 @@ void PoseMeasurement::Update(
 {
   const Eigen::Matrix<double, 3, 6> C = PoseMeasurementMatrix();
 
-  for (size_t i = 0; i < messages_.size(); ++i) {
+  const size_t n_messages = messages_.size();  // the queue may shrink while it is processed
+  for (size_t i = 0; i < n_messages; ++i) {
     const auto pose = messages_.pop();
 
     CheckFrameId(warning_, pose->header.frame_id, frame_id_);
diff --git a/ekf_localizer/src/twist_measurement.cpp b/ekf_localizer/src/twist_measurement.cpp
index c6a60dc..00dca93 100644
--- a/ekf_localizer/src/twist_measurement.cpp
+++ b/ekf_localizer/src/twist_measurement.cpp
@@ -74,7 +74,8 @@ void TwistMeasurement::Update(
 {
   const Eigen::Matrix<double, 2, 6> C = TwistMeasurementMatrix();
 
-  for (size_t i = 0; i < messages_.size(); ++i) {
+  const size_t n_messages = messages_.size();  // the queue may shrink while it is processed
+  for (size_t i = 0; i < n_messages; ++i) {
     const auto twist = messages_.pop();
 
     CheckFrameId(warning_, twist->header.frame_id, "base_link");
-- 
2.43.0


From 63afda3c428dca9ffc38a5fc049dbd66f67e2045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:11 +0000
Subject: [PATCH 12/23] fix: do not use warning texts, which contain received
 frame names, as format strings

---
 ekf_localizer/include/ekf_localizer/warning.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ekf_localizer/include/ekf_localizer/warning.hpp b/ekf_localizer/include/ekf_localizer/warning.hpp
index d0b02cc..0d50b8c 100644
--- a/ekf_localizer/include/ekf_localizer/warning.hpp
+++ b/ekf_localizer/include/ekf_localizer/warning.hpp
@@ -30,17 +30,17 @@ public:
 
   void Info(const std::string & message) const
   {
-    RCLCPP_INFO(node_->get_logger(), message.c_str());
+    RCLCPP_INFO(node_->get_logger(), "%s", message.c_str());
   }
 
   void Warn(const std::string & message) const
   {
-    RCLCPP_WARN(node_->get_logger(), message.c_str());
+    RCLCPP_WARN(node_->get_logger(), "%s", message.c_str());
   }
 
   void Error(const std::string & message) const
   {
-    RCLCPP_ERROR(node_->get_logger(), message.c_str());
+    RCLCPP_ERROR(node_->get_logger(), "%s", message.c_str());
   }
 
   void WarnThrottle(
@@ -50,7 +50,7 @@ public:
     RCLCPP_WARN_THROTTLE(
       node_->get_logger(), *(node_->get_clock()),
       std::chrono::milliseconds(duration_milliseconds).count(),
-      message.c_str());
+      "%s", message.c_str());
   }
 
 private:
-- 
2.43.0


From e99abb183a851697f84c9c6bba0495c0036c3ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:08 +0000
Subject: [PATCH 13/23] fix: ignore an initial pose whose frame cannot be
 resolved instead of reading an empty optional

---
 ekf_localizer/src/ekf_localizer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ekf_localizer/src/ekf_localizer.cpp b/ekf_localizer/src/ekf_localizer.cpp
index 6adb883..b1e0cf7 100644
--- a/ekf_localizer/src/ekf_localizer.cpp
+++ b/ekf_localizer/src/ekf_localizer.cpp
@@ -242,6 +242,7 @@ void EKFLocalizer::callbackInitialPose(PoseWithCovarianceStamped::SharedPtr init
       fmt::format(
         "TF transform failed. parent = {}, child = {}",
         params.pose_frame_id_, initialpose->header.frame_id));
+    return;
   }
 
   const Eigen::Vector3d initial_position = ToVector3d(initialpose->pose.pose.position);
-- 
2.43.0


From df3f8b9b69fd91e13e3fcfd33472a38df0dbb57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:08 +0000
Subject: [PATCH 14/23] fix: transform the initial pose into the map frame
 instead of adding translations and yaws

---
 ekf_localizer/src/ekf_localizer.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/ekf_localizer/src/ekf_localizer.cpp b/ekf_localizer/src/ekf_localizer.cpp
index b1e0cf7..c909616 100644
--- a/ekf_localizer/src/ekf_localizer.cpp
+++ b/ekf_localizer/src/ekf_localizer.cpp
@@ -245,17 +245,21 @@ void EKFLocalizer::callbackInitialPose(PoseWithCovarianceStamped::SharedPtr init
     return;
   }
 
-  const Eigen::Vector3d initial_position = ToVector3d(initialpose->pose.pose.position);
-  const Eigen::Vector3d translation = ToVector3d(maybe_transform->transform.translation);
-  const Eigen::Vector3d t = initial_position + translation;
-  const double initial_yaw = tf2::getYaw(initialpose->pose.pose.orientation);
-  const double yaw = tf2::getYaw(maybe_transform->transform.rotation);
+  const Eigen::Isometry3d frame_to_map = MakeIsometry3d(
+    ToQuaterniond(maybe_transform->transform.rotation),
+    ToVector3d(maybe_transform->transform.translation));
 
-  const Vector6d x = InitState(t(0), t(1), initial_yaw + yaw);
+  PoseWithCovarianceStamped pose_in_map = *initialpose;
+  pose_in_map.pose.pose = MakePose(frame_to_map * GetIsometry3d(initialpose->pose.pose));
+
+  const geometry_msgs::msg::Point & t = pose_in_map.pose.pose.position;
+  const double yaw = tf2::getYaw(pose_in_map.pose.pose.orientation);
+
+  const Vector6d x = InitState(t.x, t.y, yaw);
   const Matrix6d P = InitCovariance(initialpose->pose.covariance);
   ekf_.reset(new TimeDelayKalmanFilter(x, P, params.extend_state_step_));
 
-  updateSimple1DFilters(*initialpose);
+  updateSimple1DFilters(pose_in_map);
 
   pose_measurement_.Clear();
   twist_measurement_.Clear();
-- 
2.43.0


From b6ab44e4417d2f2c0de62424c9e298705d2de913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:08 +0000
Subject: [PATCH 15/23] fix: restart the height, roll and pitch filters at a
 new initial pose

---
 ekf_localizer/include/ekf_localizer/ekf_localizer.hpp | 4 ++++
 ekf_localizer/src/ekf_localizer.cpp                   | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/ekf_localizer/include/ekf_localizer/ekf_localizer.hpp b/ekf_localizer/include/ekf_localizer/ekf_localizer.hpp
index 6cf61a8..dcc390c 100644
--- a/ekf_localizer/include/ekf_localizer/ekf_localizer.hpp
+++ b/ekf_localizer/include/ekf_localizer/ekf_localizer.hpp
@@ -91,6 +91,10 @@ public:
     latest_time_ = time;
     return;
   }
+  void reset()
+  {
+    initialized_ = false;
+  }
   void set_proc_stddev(const double proc_stddev) {proc_stddev_x_c_ = proc_stddev;}
   double get_x() {return x_;}
 
diff --git a/ekf_localizer/src/ekf_localizer.cpp b/ekf_localizer/src/ekf_localizer.cpp
index c909616..fce6f8d 100644
--- a/ekf_localizer/src/ekf_localizer.cpp
+++ b/ekf_localizer/src/ekf_localizer.cpp
@@ -259,6 +259,9 @@ void EKFLocalizer::callbackInitialPose(PoseWithCovarianceStamped::SharedPtr init
   const Matrix6d P = InitCovariance(initialpose->pose.covariance);
   ekf_.reset(new TimeDelayKalmanFilter(x, P, params.extend_state_step_));
 
+  z_filter_.reset();
+  roll_filter_.reset();
+  pitch_filter_.reset();
   updateSimple1DFilters(pose_in_map);
 
   pose_measurement_.Clear();
-- 
2.43.0


From 4ae9590158b178893ee08d055bc2301e98f356ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:08 +0000
Subject: [PATCH 16/23] fix: height, roll and pitch filters ignore values that
 are not finite

---
 ekf_localizer/include/ekf_localizer/ekf_localizer.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ekf_localizer/include/ekf_localizer/ekf_localizer.hpp b/ekf_localizer/include/ekf_localizer/ekf_localizer.hpp
index dcc390c..0dee493 100644
--- a/ekf_localizer/include/ekf_localizer/ekf_localizer.hpp
+++ b/ekf_localizer/include/ekf_localizer/ekf_localizer.hpp
@@ -73,6 +73,10 @@ public:
   }
   void update(const double obs, const double obs_stddev, const rclcpp::Time time)
   {
+    if (!std::isfinite(obs) || !std::isfinite(obs_stddev)) {
+      return;
+    }
+
     if (!initialized_) {
       init(obs, obs_stddev, time);
       return;
-- 
2.43.0


From 54330f2085f5b788f0cf44fe235dc8bb5f0e048f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:54 +0000
Subject: [PATCH 17/23] fix: height, roll and pitch filters do not divide zero
 variances

---
 ekf_localizer/include/ekf_localizer/ekf_localizer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ekf_localizer/include/ekf_localizer/ekf_localizer.hpp b/ekf_localizer/include/ekf_localizer/ekf_localizer.hpp
index 0dee493..a3d11eb 100644
--- a/ekf_localizer/include/ekf_localizer/ekf_localizer.hpp
+++ b/ekf_localizer/include/ekf_localizer/ekf_localizer.hpp
@@ -88,7 +88,8 @@ public:
     stddev_ = std::sqrt(stddev_ * stddev_ + proc_stddev_x_d * proc_stddev_x_d);
 
     // Update step
-    double kalman_gain = stddev_ * stddev_ / (stddev_ * stddev_ + obs_stddev * obs_stddev);
+    const double innovation_variance = stddev_ * stddev_ + obs_stddev * obs_stddev;
+    double kalman_gain = innovation_variance > 0. ? stddev_ * stddev_ / innovation_variance : 1.;
     x_ = x_ + kalman_gain * (obs - x_);
     stddev_ = std::sqrt(1 - kalman_gain) * stddev_;
 
-- 
2.43.0


From 7df0b6796e1736a2de7ec415519c04655626e322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:06 +0000
Subject: [PATCH 18/23] fix: do not broadcast the centre of an empty map

---
 map_tf_generator/src/map_tf_generator_node.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/map_tf_generator/src/map_tf_generator_node.cpp b/map_tf_generator/src/map_tf_generator_node.cpp
index 0c140da..0deddc5 100644
--- a/map_tf_generator/src/map_tf_generator_node.cpp
+++ b/map_tf_generator/src/map_tf_generator_node.cpp
@@ -57,6 +57,11 @@ private:
     pcl::fromROSMsg<pcl::PointXYZ>(*clouds_ros, clouds);
 
     const unsigned int sum = clouds.points.size();
+    if (sum == 0) {
+      RCLCPP_WARN_STREAM(get_logger(), "received an empty map. static tf is not broadcast.");
+      return;
+    }
+
     double coordinate[3] = {0, 0, 0};
     for (unsigned int i = 0; i < sum; i++) {
       coordinate[0] += clouds.points[i].x;
-- 
2.43.0


From 9db4fe3c30ffa7544b3dbc6c263ec709ab9f988a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:36 +0000
Subject: [PATCH 19/23] fix: the converter reads only the fields it needs and
 leaves the input as it is

---
 .../point_type_converter/convert.py           | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/point_type_converter/point_type_converter/convert.py b/point_type_converter/point_type_converter/convert.py
index 209b473..55cc9c5 100644
--- a/point_type_converter/point_type_converter/convert.py
+++ b/point_type_converter/point_type_converter/convert.py
@@ -131,6 +131,16 @@ def filter_point_data(point_tuples, input_fields, output_fields):
     return tuple(tuple(chunk[i] for i in indices) for chunk in point_tuples)
 
 
+def select_fields(fields, retained_fields):
+    names = {f.name for f in retained_fields}
+    retained = [f for f in fields if f.name in names]
+    return sorted(retained, key=lambda f: f.offset)
+
+
+def insert_padding(c):
+    return c[:3] + (0.,) + c[3:]
+
+
 output_point_step = 32
 
 
@@ -181,16 +191,16 @@ class PointTypeConverter(Node):
             PointCloud2, '/points_converted', reliable_keep_all())
 
     def callback(self, input_cloud):
-        input_fields = input_cloud.fields
-        input_fields.append(make_point_field('padding', 12, np.float32, 1))
-        input_fields = sorted(input_fields, key=lambda f: f.offset)
+        output_fields = make_fields()
+        value_fields = [f for f in output_fields if f.name != 'padding']
+        input_fields = select_fields(input_cloud.fields, value_fields)
         unpacked = unpack_point_bytes(
             input_cloud.data, input_fields,
             input_cloud.point_step, input_cloud.is_bigendian)
 
-        output_fields = make_fields()
         unpacked = tuple(c for c in unpacked if nonzero(c))
-        filtered = filter_point_data(unpacked, input_fields, output_fields)
+        filtered = filter_point_data(unpacked, input_fields, value_fields)
+        filtered = tuple(insert_padding(c) for c in filtered)
 
         data = pack_point_data(
             filtered, output_fields, output_point_step, False)
-- 
2.43.0


From 4750ea8189b47a9f381d0f059b5fccb3f5f09d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:50 +0000
Subject: [PATCH 20/23] fix: the converter takes each value by its field's name

---
 point_type_converter/point_type_converter/convert.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/point_type_converter/point_type_converter/convert.py b/point_type_converter/point_type_converter/convert.py
index 55cc9c5..fbae7cb 100644
--- a/point_type_converter/point_type_converter/convert.py
+++ b/point_type_converter/point_type_converter/convert.py
@@ -121,13 +121,9 @@ def split(collection, chunk_size):
     return tuple(collection[i:i+m] for i in range(0, n, m))
 
 
-def find_indices(fields, retained_names):
-    return [i for i in range(len(fields)) if fields[i].name in retained_names]
-
-
 def filter_point_data(point_tuples, input_fields, output_fields):
-    output_names = {f.name for f in output_fields}
-    indices = find_indices(input_fields, output_names)
+    input_names = [f.name for f in input_fields]
+    indices = [input_names.index(f.name) for f in output_fields]
     return tuple(tuple(chunk[i] for i in indices) for chunk in point_tuples)
 
 
@@ -198,9 +194,8 @@ class PointTypeConverter(Node):
             input_cloud.data, input_fields,
             input_cloud.point_step, input_cloud.is_bigendian)
 
-        unpacked = tuple(c for c in unpacked if nonzero(c))
         filtered = filter_point_data(unpacked, input_fields, value_fields)
-        filtered = tuple(insert_padding(c) for c in filtered)
+        filtered = tuple(insert_padding(c) for c in filtered if nonzero(c))
 
         data = pack_point_data(
             filtered, output_fields, output_point_step, False)
-- 
2.43.0


From f6c9cc27803e78e26018a565e286063dd14d2cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:32 +0000
Subject: [PATCH 21/23] fix: the converter skips the bytes between the rows of
 a cloud

---
 point_type_converter/point_type_converter/convert.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/point_type_converter/point_type_converter/convert.py b/point_type_converter/point_type_converter/convert.py
index fbae7cb..41e4ffa 100644
--- a/point_type_converter/point_type_converter/convert.py
+++ b/point_type_converter/point_type_converter/convert.py
@@ -133,6 +133,13 @@ def select_fields(fields, retained_fields):
     return sorted(retained, key=lambda f: f.offset)
 
 
+def remove_row_padding(cloud):
+    row_size = cloud.width * cloud.point_step
+    row_step = max(cloud.row_step, row_size)
+    starts = (i * row_step for i in range(cloud.height))
+    return b''.join(bytes(cloud.data[s:s+row_size]) for s in starts)
+
+
 def insert_padding(c):
     return c[:3] + (0.,) + c[3:]
 
@@ -191,7 +198,7 @@ class PointTypeConverter(Node):
         value_fields = [f for f in output_fields if f.name != 'padding']
         input_fields = select_fields(input_cloud.fields, value_fields)
         unpacked = unpack_point_bytes(
-            input_cloud.data, input_fields,
+            remove_row_padding(input_cloud), input_fields,
             input_cloud.point_step, input_cloud.is_bigendian)
 
         filtered = filter_point_data(unpacked, input_fields, value_fields)
-- 
2.43.0


From 9697f8e9c31743e342614f6bcf03cadeb21f880e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:44 +0000
Subject: [PATCH 22/23] fix: launch files do not remap a topic that the
 extraction does not have

---
 lidar_feature_launch/launch/localization.launch.py | 2 --
 lidar_feature_launch/launch/mapping.launch.py      | 2 --
 lidar_feature_launch/launch/odometry.launch.py     | 2 --
 3 files changed, 6 deletions(-)

diff --git a/lidar_feature_launch/launch/localization.launch.py b/lidar_feature_launch/launch/localization.launch.py
index 37ed71f..15e707b 100644
--- a/lidar_feature_launch/launch/localization.launch.py
+++ b/lidar_feature_launch/launch/localization.launch.py
@@ -34,7 +34,6 @@ from launch_ros.actions import Node
 scan_edge_topic = '/scan_edge'
 scan_surface_topic = '/scan_surface'
 colored_scan_topic = '/colored_scan'
-curvature_scan_topic = '/curvature_scan'
 converted_points_topic = '/points_converted'
 edge_map_path = 'maps/edge.pcd'
 surface_map_path = 'maps/surface.pcd'
@@ -94,7 +93,6 @@ def generate_launch_description():
         remappings=[
             ('points_raw', converted_points_topic),
             ('colored_scan', colored_scan_topic),
-            ('curvature_scan', curvature_scan_topic),
             ('scan_edge', scan_edge_topic),
             ('scan_surface', scan_surface_topic),
         ],
diff --git a/lidar_feature_launch/launch/mapping.launch.py b/lidar_feature_launch/launch/mapping.launch.py
index 177524f..b9e96db 100644
--- a/lidar_feature_launch/launch/mapping.launch.py
+++ b/lidar_feature_launch/launch/mapping.launch.py
@@ -33,7 +33,6 @@ from launch_ros.actions import Node
 scan_edge_topic = '/scan_edge'
 colored_scan_topic = '/colored_scan'
 converted_points_topic = '/points_converted'
-curvature_scan_topic = '/curvature_scan'
 
 input_sensor_points_topic = LaunchConfiguration(
     'input_sensor_points_topic',
@@ -72,7 +71,6 @@ def generate_launch_description():
         remappings=[
             ('points_raw', converted_points_topic),
             ('colored_scan', colored_scan_topic),
-            ('curvature_scan', curvature_scan_topic),
             ('scan_edge', scan_edge_topic),
         ]
     )
diff --git a/lidar_feature_launch/launch/odometry.launch.py b/lidar_feature_launch/launch/odometry.launch.py
index 197b43e..668e4b9 100644
--- a/lidar_feature_launch/launch/odometry.launch.py
+++ b/lidar_feature_launch/launch/odometry.launch.py
@@ -33,7 +33,6 @@ from launch_ros.actions import Node
 
 scan_edge_topic = '/scan_edge'
 colored_scan_topic = '/colored_scan'
-curvature_scan_topic = '/curvature_scan'
 
 input_sensor_points_topic = LaunchConfiguration(
     'input_sensor_points_topic',
@@ -66,7 +65,6 @@ def generate_launch_description():
         remappings=[
             ('points_raw', input_sensor_points_topic),
             ('colored_scan', colored_scan_topic),
-            ('curvature_scan', curvature_scan_topic),
             ('scan_edge', scan_edge_topic),
         ]
     )
-- 
2.43.0


From dc4e558df6f9f4d69528a1d539cb955d992a3e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:11 +0000
Subject: [PATCH 23/23] fix: the odometry launch file hands the converted
 points to the extraction

---
 lidar_feature_launch/launch/odometry.launch.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lidar_feature_launch/launch/odometry.launch.py b/lidar_feature_launch/launch/odometry.launch.py
index 668e4b9..3cd9ce9 100644
--- a/lidar_feature_launch/launch/odometry.launch.py
+++ b/lidar_feature_launch/launch/odometry.launch.py
@@ -33,6 +33,7 @@ from launch_ros.actions import Node
 
 scan_edge_topic = '/scan_edge'
 colored_scan_topic = '/colored_scan'
+converted_points_topic = '/points_converted'
 
 input_sensor_points_topic = LaunchConfiguration(
     'input_sensor_points_topic',
@@ -52,7 +53,11 @@ def generate_launch_description():
     converter = Node(
         package='point_type_converter',
         name='point_type_converter',
-        executable='listener'
+        executable='listener',
+        remappings=[
+            ('points_raw', input_sensor_points_topic),
+            ('points_converted', converted_points_topic),
+        ]
     )
 
     extraction = Node(
@@ -63,7 +68,7 @@ def generate_launch_description():
             'lidar_feature_launch/config/lidar_feature_extraction.param.yaml'
         ],
         remappings=[
-            ('points_raw', input_sensor_points_topic),
+            ('points_raw', converted_points_topic),
             ('colored_scan', colored_scan_topic),
             ('scan_edge', scan_edge_topic),
         ]
-- 
2.43.0

