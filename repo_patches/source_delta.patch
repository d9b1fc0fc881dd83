From a94b4a82d248bb5145188bf98ec354422c588b7a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:31:01 +0000
Subject: [PATCH 01/19] fix: camera breakdown aborts on an object without a
 known camera

An object whose camera name (or most visible camera name) is UNKNOWN or
outside the five perspective cameras aborted the whole evaluation.  Such
objects belong to no camera shard, which is what the callers handle.
---
 src/waymo_open_dataset/metrics/breakdown_generator.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/breakdown_generator.cc b/src/waymo_open_dataset/metrics/breakdown_generator.cc
index ea1e39e..95c2225 100644
--- a/src/waymo_open_dataset/metrics/breakdown_generator.cc
+++ b/src/waymo_open_dataset/metrics/breakdown_generator.cc
@@ -341,7 +341,11 @@ class BreakdownGeneratorCamera : public BreakdownGenerator {
       return std::vector<int>();
     }
     if (Is2DCamera(object)) {
-      return std::vector<int>({Shard(object)});
+      const int shard = Shard(object);
+      if (shard < 0) {
+        return std::vector<int>();
+      }
+      return std::vector<int>({shard});
     }
     // For 3D detections, we estimate the camera breakdowns by FOV.
     const int shard_offset = kNumCameras * (object.object().type() - 1);
@@ -404,7 +408,7 @@ class BreakdownGeneratorCamera : public BreakdownGenerator {
       case CameraName::SIDE_RIGHT:
         return 4;
       default:
-        LOG(FATAL) << "Code should not reach here.";
+        return -1;
     }
   }
 
-- 
2.43.0


From d2c78a2c3f7a8ae5a2f05336bdf3b9b7d02f8c67 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:39:36 +0000
Subject: [PATCH 02/19] fix: score-first matcher weighs pairs by their object
 index

MatchingWeight takes indices into predictions()/ground_truths(); the matcher
passed positions inside the subsets, so on a proper subset it compared the
IoUs of unrelated objects and picked the wrong ground truth.
---
 src/waymo_open_dataset/metrics/matcher.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/matcher.cc b/src/waymo_open_dataset/metrics/matcher.cc
index d1c7a17..fa33a29 100644
--- a/src/waymo_open_dataset/metrics/matcher.cc
+++ b/src/waymo_open_dataset/metrics/matcher.cc
@@ -280,9 +280,8 @@ void ScoreFirstMatcher::Match(std::vector<int>* prediction_matches,
       const int pd_idx = prediction_subset()[pd_subset_idx];
       const int gt_idx = ground_truth_subset()[gt_subset_idx];
       if (CanMatch(pd_idx, gt_idx)) {
-        if (MatchingWeight(pd_subset_idx, gt_subset_idx) >
-            best_gt_match_weight) {
-          best_gt_match_weight = MatchingWeight(pd_subset_idx, gt_subset_idx);
+        if (MatchingWeight(pd_idx, gt_idx) > best_gt_match_weight) {
+          best_gt_match_weight = MatchingWeight(pd_idx, gt_idx);
           best_gt_match = gt_subset_idx;
         }
       }
-- 
2.43.0


From 509e60f904bffea13c5f083043227c2f896aaf6d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:39:36 +0000
Subject: [PATCH 03/19] fix: score-first matcher ignores stale entries of its
 output vectors

resize() keeps the old values of a non-empty output vector, so entries of an
earlier call were taken for matches; the Hungarian matcher clears first.
---
 src/waymo_open_dataset/metrics/matcher.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/waymo_open_dataset/metrics/matcher.cc b/src/waymo_open_dataset/metrics/matcher.cc
index fa33a29..99f6017 100644
--- a/src/waymo_open_dataset/metrics/matcher.cc
+++ b/src/waymo_open_dataset/metrics/matcher.cc
@@ -256,7 +256,9 @@ void ScoreFirstMatcher::Match(std::vector<int>* prediction_matches,
 
   const int prediction_subset_size = prediction_subset().size();
   const int ground_truth_subset_size = ground_truth_subset().size();
+  prediction_matches->clear();
   prediction_matches->resize(prediction_subset_size, -1);
+  ground_truth_matches->clear();
   ground_truth_matches->resize(ground_truth_subset_size, -1);
 
   std::vector<int> sorted_pred_subset_idx(prediction_subset_size);
-- 
2.43.0


From 5bd308987d253bc1edf5fe7c5bf6db7d201e306f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:55:55 +0000
Subject: [PATCH 04/19] fix: center-aligned LET prediction boxes also take the
 ground truth's center_z

---
 src/waymo_open_dataset/metrics/iou.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/waymo_open_dataset/metrics/iou.cc b/src/waymo_open_dataset/metrics/iou.cc
index 6ee60d5..449e480 100644
--- a/src/waymo_open_dataset/metrics/iou.cc
+++ b/src/waymo_open_dataset/metrics/iou.cc
@@ -305,6 +305,7 @@ Label::Box AlignedPredictionBox(
       // Moves the prediction box's center to be same as ground truth.
       aligned_prediction_box.set_center_x(ground_truth_box.center_x());
       aligned_prediction_box.set_center_y(ground_truth_box.center_y());
+      aligned_prediction_box.set_center_z(ground_truth_box.center_z());
       break;
     case Config::LongitudinalErrorTolerantConfig::
         TYPE_ANY_CLOSER_ONLY_RANGE_ALIGNED:
-- 
2.43.0


From 9d3c3b3004c2c4371d0fda42eb3f5e80c0548c19 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 18:07:19 +0000
Subject: [PATCH 05/19] fix: polygon intersection takes the sign of near-zero
 cross products from rounding noise (disjoint touching boxes had IoU 1)

---
 src/waymo_open_dataset/math/polygon2d.cc | 51 ++++++++++--------------
 1 file changed, 22 insertions(+), 29 deletions(-)

diff --git a/src/waymo_open_dataset/math/polygon2d.cc b/src/waymo_open_dataset/math/polygon2d.cc
index 31ed180..ef0df97 100644
--- a/src/waymo_open_dataset/math/polygon2d.cc
+++ b/src/waymo_open_dataset/math/polygon2d.cc
@@ -50,11 +50,11 @@ double Cross(const Vec2d v0, const Vec2d v1, const Vec2d v2, const Vec2d v3) {
   return (v1 - v0).CrossProd(v3 - v2);
 }
 
-// Constant to check if the result of a Cross operation would need to be
-// recomputed with exact precision. Checking that precisely would require
-// dynamically computing the epsilon. Approximate by using 2^-50, which is two
-// bits apart from 1.0. This is conservative as it will happen on all cases
-// below 2^-50, which should be rare.
+// Relative error bound of a Cross operation: the result of Cross needs to be
+// recomputed with exact precision if it is not larger than this constant times
+// the sum of the magnitudes of the two products it subtracts. The rounding
+// errors of the differences, the products and the final subtraction add up to
+// less than 4 * 2^-53 of that sum, 2^-50 leaves another factor of two.
 static constexpr double kCrossExactEpsilon = 0x1p-50;  // 2 ^ -50
 
 // Accsum computes the accurate summation of 16 double precision floats.
@@ -117,9 +117,13 @@ double CrossMaybeExact(const Vec2d v0, const Vec2d v1, const Vec2d v2,
     return 0.0;
   }
 
-  const double c = Cross(v0, v1, v2, v3);
-  if (ABSL_PREDICT_TRUE(std::abs(c) > kCrossExactEpsilon)) {
-    // More precision is needed if c is a single bit apart from 0.0.
+  const Vec2d d0 = v1 - v0;
+  const Vec2d d1 = v3 - v2;
+  const double c = d0.CrossProd(d1);
+  if (ABSL_PREDICT_TRUE(std::abs(c) > kCrossExactEpsilon *
+                                          (std::abs(d0.x() * d1.y()) +
+                                           std::abs(d0.y() * d1.x())))) {
+    // More precision is needed if the rounding errors may change the sign of c.
     return c;
   }
 
@@ -308,33 +312,22 @@ bool ExactIntersection(const Vec2d p0, const Vec2d p1, const Vec2d q0,
   }
 
   const double detsign = std::copysign(1.0, det);
-  const double epsilon = std::max(std::abs(det), 1.0) * kCrossExactEpsilon;
 
   // t1/det is the intersection point projected to s1.
-  // Must be in the range [0-1] if there is an intersection
+  // Must be in the range [0-1] if there is an intersection. The sign of
+  // det - t1 is computed by reversing both segments, t1 and det can not be
+  // compared directly as they may both be affected by rounding.
   const double t1 = CrossMaybeExact(p0, q0, q1, q0);
-  if (t1 * detsign < 0.0 || t1 * detsign > std::abs(det) + epsilon) {
-    return false;
-  }
-  if (ABSL_PREDICT_FALSE(t1 * detsign > std::abs(det) - epsilon)) {
-    // t1/det is close to 1, reverse both segments and recompute the
-    // intersection, to use full precision if close to the segment start.
-    const double rt1 = CrossMaybeExact(p1, q1, q0, q1);
-    if (rt1 * detsign < 0.0) return false;
-  }
+  if (t1 * detsign < 0.0) return false;
+  const double rt1 = CrossMaybeExact(p1, q1, q0, q1);
+  if (rt1 * detsign < 0.0) return false;
 
   // t2/det is the intersection point projected to s2.
-  // Must be in the range [0-1] if there is an intersection
+  // Must be in the range [0-1] if there is an intersection.
   const double t2 = CrossMaybeExact(p0, p1, p0, q0);
-  if (t2 * detsign < 0.0 || t2 * detsign > std::abs(det) + epsilon) {
-    return false;
-  }
-  if (ABSL_PREDICT_FALSE(t2 * detsign > std::abs(det) - epsilon)) {
-    // t2/det is close to 1, reverse both segments and recompute the
-    // intersection, to use full precision if close to the segment start.
-    const double rt2 = CrossMaybeExact(p1, p0, p1, q1);
-    if (rt2 * detsign < 0.0) return false;
-  }
+  if (t2 * detsign < 0.0) return false;
+  const double rt2 = CrossMaybeExact(p1, p0, p1, q1);
+  if (rt2 * detsign < 0.0) return false;
 
   // BoundToRange to avoid precision errors from the division.
   *intersection = p0 + (p1 - p0) * BoundToRange(0.0, 1.0, t1 / det);
-- 
2.43.0


From a3d389ca1b6d857b75d379ce0f8f742dcfc70d70 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 18:07:19 +0000
Subject: [PATCH 06/19] fix: polygon intersection was empty when the traversal
 did not return to its first intersection point

---
 src/waymo_open_dataset/math/polygon2d.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/waymo_open_dataset/math/polygon2d.cc b/src/waymo_open_dataset/math/polygon2d.cc
index ef0df97..88d718f 100644
--- a/src/waymo_open_dataset/math/polygon2d.cc
+++ b/src/waymo_open_dataset/math/polygon2d.cc
@@ -449,10 +449,13 @@ std::vector<Vec2d> Polygon2d::ComputeIntersectionVertices(
     }
   }
 
-  // Handle the case that those two polygons share one vertex or (part of) one
-  // edge, in which case the intersection is empty.
+  // The boundaries intersect, and the traversal went around without getting
+  // back to exactly the same first intersection, e.g. because it lies on a
+  // vertex or on overlapping edges. If those two polygons only share one vertex
+  // or (part of) one edge there are less than three convex points or they are
+  // collinear.
   if (!convex_points.empty()) {
-    return {};
+    return convex_points;
   }
 
   // Now we have three cases:
-- 
2.43.0


From d652833ddfd41bb595c34055114e123d7d98813c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 18:07:19 +0000
Subject: [PATCH 07/19] fix: polygon containment test rejected points on the
 boundary by rounding (contained box had IoU 0)

---
 src/waymo_open_dataset/math/polygon2d.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/waymo_open_dataset/math/polygon2d.cc b/src/waymo_open_dataset/math/polygon2d.cc
index 88d718f..9bda5a6 100644
--- a/src/waymo_open_dataset/math/polygon2d.cc
+++ b/src/waymo_open_dataset/math/polygon2d.cc
@@ -254,21 +254,20 @@ bool Polygon2d::PointInside(const Vec2d p) const {
   // points_[0], points_[start_ix], ... points_[end_ix].
   while (end_ix - start_ix > kLinearSearchThreshold) {
     const int mid_ix = (end_ix + start_ix) / 2;
-    const Vec2d bisector(points_[mid_ix] - points_[0]);
-    if (bisector.CrossProd(p - points_[0]) >= 0.0) {
+    if (CrossMaybeExact(points_[0], points_[mid_ix], points_[0], p) >= 0.0) {
       start_ix = mid_ix;
     } else {
       end_ix = mid_ix;
     }
   }
   for (int ii = start_ix; ii < end_ix - 1; ++ii) {
-    const Vec2d s = points_[ii + 1] - points_[ii];
-    if (s.CrossProd(p - points_[ii]) < 0.0) {
+    if (CrossMaybeExact(points_[ii], points_[ii + 1], points_[ii], p) < 0.0) {
       return false;
     }
   }
   if (start_ix < end_ix &&
-      Segment(end_ix - 1).CrossProd(p - points_[end_ix - 1]) < 0.0) {
+      CrossMaybeExact(points_[end_ix - 1], points_[Next(end_ix - 1)],
+                      points_[end_ix - 1], p) < 0.0) {
     return false;
   }
   return true;
-- 
2.43.0


From 0efee73d3ca3b5f131de092ca99f8b430ecb849f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:07:22 +0000
Subject: [PATCH 08/19] fix: read each scene's own frames when estimating
 tracking score cutoffs

---
 src/waymo_open_dataset/metrics/tracking_metrics.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/tracking_metrics.cc b/src/waymo_open_dataset/metrics/tracking_metrics.cc
index 0df0db7..6bbf4d1 100644
--- a/src/waymo_open_dataset/metrics/tracking_metrics.cc
+++ b/src/waymo_open_dataset/metrics/tracking_metrics.cc
@@ -303,8 +303,8 @@ Config EstimateScoreCutoffs(
     for (int scene_idx = 0; scene_idx < num_scenes; ++scene_idx) {
       const int num_frames = pds[scene_idx].size();
       for (int frame_idx = 0; frame_idx < num_frames; ++frame_idx) {
-        for (int pd_idx = 0, num_pds = pds[frame_idx].size(); pd_idx < num_pds;
-             ++pd_idx) {
+        for (int pd_idx = 0, num_pds = pds[scene_idx][frame_idx].size();
+             pd_idx < num_pds; ++pd_idx) {
           pd_scores.push_back(pds[scene_idx][frame_idx][pd_idx].score());
         }
       }
-- 
2.43.0


From 32bdc3f402159cc9fa21614a188a08a7ab5bdb8c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:58:23 +0000
Subject: [PATCH 09/19] fix: keep 64-bit point counts when merging segmentation
 results

MergeResults() adds up int64 counts but then narrowed the totals to int, so
a class with more than 2^31-1 points was reported with a wrong count, and
with an IoU of 1 when the union wrapped to a negative number.
---
 src/waymo_open_dataset/metrics/segmentation_metrics.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/segmentation_metrics.cc b/src/waymo_open_dataset/metrics/segmentation_metrics.cc
index fce6828..cfb83f2 100644
--- a/src/waymo_open_dataset/metrics/segmentation_metrics.cc
+++ b/src/waymo_open_dataset/metrics/segmentation_metrics.cc
@@ -125,8 +125,8 @@ SegmentationMetrics SegmentationMetricsIOU::MergeResults(
   }
   std::vector<float> ious(num_classes_, 1.0);
   for (int i = 0; i < num_classes_; ++i) {
-    int num_intersection = num_intersections[i];
-    int num_union = num_unions[i];
+    const int64_t num_intersection = num_intersections[i];
+    const int64_t num_union = num_unions[i];
     if (num_union > 0) {
       ious[i] = 1.0f * num_intersection / num_union;
     }
-- 
2.43.0


From 21951174575298476c8c2a433ac7c9839f99811b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:17:13 +0000
Subject: [PATCH 10/19] fix: reject joint predictions of different objects when
 the first one is empty

---
 src/waymo_open_dataset/metrics/motion_metrics.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/metrics/motion_metrics.cc b/src/waymo_open_dataset/metrics/motion_metrics.cc
index dc8bb37..70c27e8 100644
--- a/src/waymo_open_dataset/metrics/motion_metrics.cc
+++ b/src/waymo_open_dataset/metrics/motion_metrics.cc
@@ -98,6 +98,7 @@ Status ValidateMultiModalPrediction(
   // Use this set to validate that all predicted trajectories in the
   // multi_modal_prediction proto are for the same object.
   std::set<int> trajectory_ids;
+  bool is_first_prediction = true;
   for (const auto& prediction : multi_modal_prediction.joint_predictions()) {
     // Validate the trajectory lengths.
     std::set<int> ids;
@@ -114,8 +115,9 @@ Status ValidateMultiModalPrediction(
     }
 
     // Verify that every joint prediction contains the same objects.
-    if (trajectory_ids.empty()) {
+    if (is_first_prediction) {
       trajectory_ids = ids;
+      is_first_prediction = false;
     }
     if (ids != trajectory_ids) {
       return InvalidArgumentError(
-- 
2.43.0


From 4ab071dc2a33dd7b49d462ac8a0737abcf3bea73 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:17:13 +0000
Subject: [PATCH 11/19] fix: return an error instead of dividing by zero for
 non-positive prediction rates

---
 src/waymo_open_dataset/metrics/motion_metrics.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/waymo_open_dataset/metrics/motion_metrics.cc b/src/waymo_open_dataset/metrics/motion_metrics.cc
index 70c27e8..4f1f07a 100644
--- a/src/waymo_open_dataset/metrics/motion_metrics.cc
+++ b/src/waymo_open_dataset/metrics/motion_metrics.cc
@@ -66,6 +66,9 @@ const std::unordered_map<TrajectoryType, int>& GetTrajectoryTypePriority() {
 // Validate the metrics configuration.
 Status ValidateConfig(const MotionMetricsConfig& config) {
   // Validate the configuration.
+  if (config.prediction_steps_per_second() <= 0) {
+    return InvalidArgumentError("prediction_steps_per_second must be positive");
+  }
   if (config.prediction_steps_per_second() > config.track_steps_per_second()) {
     return InvalidArgumentError(
         "prediction_steps_per_second cannot be greater than "
-- 
2.43.0


From f817a0b1e3ccd6cadcb50c7096fc22695b717465 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:17:13 +0000
Subject: [PATCH 12/19] fix: reject a measurement step one past the last
 predicted step

---
 src/waymo_open_dataset/metrics/motion_metrics.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/metrics/motion_metrics.cc b/src/waymo_open_dataset/metrics/motion_metrics.cc
index 4f1f07a..a630578 100644
--- a/src/waymo_open_dataset/metrics/motion_metrics.cc
+++ b/src/waymo_open_dataset/metrics/motion_metrics.cc
@@ -85,7 +85,7 @@ Status ValidateConfig(const MotionMetricsConfig& config) {
                                config.prediction_steps_per_second() /
                                config.track_steps_per_second();
   for (const auto& step_config : config.step_configurations()) {
-    if (step_config.measurement_step() > prediction_steps ||
+    if (step_config.measurement_step() >= prediction_steps ||
         step_config.measurement_step() < 0) {
       return InvalidArgumentError("Requested miss rate time is invalid");
     }
-- 
2.43.0


From 357ac444b1b45cc9ce4f6178f8550c13f5eacbe9 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:17:13 +0000
Subject: [PATCH 13/19] fix: an empty multimodal prediction no longer skips the
 ones after it

---
 src/waymo_open_dataset/metrics/motion_metrics.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/metrics/motion_metrics.cc b/src/waymo_open_dataset/metrics/motion_metrics.cc
index a630578..bf01124 100644
--- a/src/waymo_open_dataset/metrics/motion_metrics.cc
+++ b/src/waymo_open_dataset/metrics/motion_metrics.cc
@@ -756,7 +756,7 @@ Status ComputeAllMetrics(
     // joint prediction.
     if (multi_modal_prediction.joint_predictions().empty() ||
         multi_modal_prediction.joint_predictions(0).trajectories().empty()) {
-      return OkStatus();
+      continue;
     }
 
     // Find the object_type that best describes the prediction. If it is a joint
-- 
2.43.0


From a08c13700394a93f15caedbeb07571d13e85686f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:17:13 +0000
Subject: [PATCH 14/19] fix: the intersection with an empty polygon is empty

---
 src/waymo_open_dataset/math/polygon2d.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/waymo_open_dataset/math/polygon2d.cc b/src/waymo_open_dataset/math/polygon2d.cc
index 9bda5a6..785768c 100644
--- a/src/waymo_open_dataset/math/polygon2d.cc
+++ b/src/waymo_open_dataset/math/polygon2d.cc
@@ -351,6 +351,11 @@ bool ExactSegmentIntersection(const Segment2d& s1, const Segment2d& s2,
 
 std::vector<Vec2d> Polygon2d::ComputeIntersectionVertices(
     const Polygon2d& other) const {
+  // An empty polygon overlaps nothing.
+  if (NumPoints() == 0 || other.NumPoints() == 0) {
+    return {};
+  }
+
   if (!MaybeHasIntersectionWith(other)) {
     return {};
   }
-- 
2.43.0


From 495866e87f5d021927ddd49063b304c7d635e2c5 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:13:15 +0000
Subject: [PATCH 15/19] fix: delta_encoder.compress no longer overwrites the
 caller's range image

---
 src/waymo_open_dataset/utils/compression/delta_encoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/utils/compression/delta_encoder.py b/src/waymo_open_dataset/utils/compression/delta_encoder.py
index ab562c2..30b1bf5 100644
--- a/src/waymo_open_dataset/utils/compression/delta_encoder.py
+++ b/src/waymo_open_dataset/utils/compression/delta_encoder.py
@@ -60,7 +60,7 @@ def compress(
             " positive numbers"
         )
 
-  range_image_round = range_image
+  range_image_round = range_image.copy()
   for i in range(num_channel):
     range_image_round[..., i] = np.round(
         range_image[..., i] / quant_precision[i]
-- 
2.43.0


From 9d568ee87c1dc726e93a53f35dffee84a8ae4cb3 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:27:48 +0000
Subject: [PATCH 16/19] fix: reject joint scenes that simulate an object more
 than once

---
 src/waymo_open_dataset/utils/sim_agents/submission_specs.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/waymo_open_dataset/utils/sim_agents/submission_specs.py b/src/waymo_open_dataset/utils/sim_agents/submission_specs.py
index 6469cf3..aea3a13 100644
--- a/src/waymo_open_dataset/utils/sim_agents/submission_specs.py
+++ b/src/waymo_open_dataset/utils/sim_agents/submission_specs.py
@@ -209,6 +209,12 @@ def validate_joint_scene(
       raise ValueError(
           f'Object {simulated_trajectory.object_id} is not a sim agent.'
       )
+    # Check that each object is simulated only once.
+    if simulated_trajectory.object_id in simulated_ids:
+      raise ValueError(
+          f'Object {simulated_trajectory.object_id} is simulated more than'
+          ' once.'
+      )
     simulated_ids.append(simulated_trajectory.object_id)
   # Check that all of the required objects/agents are simulated.
   missing_agents = set(sim_agent_ids) - set(simulated_ids)
-- 
2.43.0


From 56766b357f18dd4c3fd6b3499cf72920363c0bf9 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:27:48 +0000
Subject: [PATCH 17/19] fix: reject rollouts of another scenario

---
 src/waymo_open_dataset/utils/sim_agents/submission_specs.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/waymo_open_dataset/utils/sim_agents/submission_specs.py b/src/waymo_open_dataset/utils/sim_agents/submission_specs.py
index aea3a13..8d49dd0 100644
--- a/src/waymo_open_dataset/utils/sim_agents/submission_specs.py
+++ b/src/waymo_open_dataset/utils/sim_agents/submission_specs.py
@@ -247,6 +247,12 @@ def validate_scenario_rollouts(
   config = get_submission_config(challenge_type)
   if not scenario_rollouts.HasField('scenario_id'):
     raise ValueError('Missing `scenario_id` field.')
+  if scenario_rollouts.scenario_id != original_scenario.scenario_id:
+    raise ValueError(
+        'Mismatched `scenario_id` field. '
+        f'(Actual: {scenario_rollouts.scenario_id}, '
+        f'Expected: {original_scenario.scenario_id})'
+    )
   if len(scenario_rollouts.joint_scenes) != config.n_rollouts:
     raise ValueError(
         'Incorrect number of parallel simulations. '
-- 
2.43.0


From 88226a523089ca86127d8b20d8faab47004cb194 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:27:48 +0000
Subject: [PATCH 18/19] fix: plot solid double yellow road lines

---
 src/waymo_open_dataset/utils/plot_maps.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/waymo_open_dataset/utils/plot_maps.py b/src/waymo_open_dataset/utils/plot_maps.py
index cd18fd6..e939cfb 100644
--- a/src/waymo_open_dataset/utils/plot_maps.py
+++ b/src/waymo_open_dataset/utils/plot_maps.py
@@ -258,6 +258,9 @@ def plot_map_features(
       map_pb2.RoadLine.TYPE_SOLID_SINGLE_YELLOW: (
           FeatureType.SOLID_SINGLE_YELLOW_BOUNDARY
       ),
+      map_pb2.RoadLine.TYPE_SOLID_DOUBLE_YELLOW: (
+          FeatureType.SOLID_DOUBLE_YELLOW_BOUNDARY
+      ),
       map_pb2.RoadLine.TYPE_PASSING_DOUBLE_YELLOW: (
           FeatureType.PASSING_DOUBLE_YELLOW_BOUNDARY
       ),
-- 
2.43.0


From 0077da2e7afa77858ed5f8571751c011738cfecf Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:27:48 +0000
Subject: [PATCH 19/19] fix: plot maps without points and empty polygons
 without an IndexError

---
 src/waymo_open_dataset/utils/plot_maps.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/waymo_open_dataset/utils/plot_maps.py b/src/waymo_open_dataset/utils/plot_maps.py
index e939cfb..713c8be 100644
--- a/src/waymo_open_dataset/utils/plot_maps.py
+++ b/src/waymo_open_dataset/utils/plot_maps.py
@@ -128,8 +128,8 @@ def plot_map_points(map_points: MapPoints) -> go._figure.Figure:
   # Plot connecting lines for each individual roadgraph feature.
   start_index = 0
   end_index = 0
-  point_type = map_points.types[0]
-  feature_id = map_points.ids[0]
+  point_type = map_points.types[0] if map_points.types else None
+  feature_id = map_points.ids[0] if map_points.ids else None
 
   color_dict = {}
   for k in line_dict:
@@ -283,7 +283,7 @@ def plot_map_features(
     for point in points:
       map_points.append_point(point, feature_type, feature_id)
 
-    if is_polygon:
+    if is_polygon and points:
       map_points.append_point(points[0], feature_type, feature_id)
 
   # Create arrays of the map points to be plotted.
-- 
2.43.0

