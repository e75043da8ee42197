From 3d3a70cea10288642cef2e51bedac64af36be0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:09 +0000
Subject: [PATCH 01/58] fix: respect the FCU pitch sign when converting FCU
 polar points to cartesian

---
 avoidance/src/common.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/avoidance/src/common.cpp b/avoidance/src/common.cpp
index 9a8e21a..f7753f5 100644
--- a/avoidance/src/common.cpp
+++ b/avoidance/src/common.cpp
@@ -135,7 +135,8 @@ Eigen::Vector3f polarFCUToCartesian(const PolarPoint& p_pol, const Eigen::Vector
   Eigen::Vector3f p;
   p.x() = pos.x() + p_pol.r * std::sin((90.0f - p_pol.e) * DEG_TO_RAD) * std::cos(p_pol.z * DEG_TO_RAD);
   p.y() = pos.y() + p_pol.r * std::sin((90.0f - p_pol.e) * DEG_TO_RAD) * std::sin(p_pol.z * DEG_TO_RAD);
-  p.z() = pos.z() + p_pol.r * std::cos((90.0f - p_pol.e) * DEG_TO_RAD);
+  // the pitch is positive downwards in FCU convention
+  p.z() = pos.z() - p_pol.r * std::cos((90.0f - p_pol.e) * DEG_TO_RAD);
 
   return p;
 }
-- 
2.43.0


From 8eba28fce462ff949f40d1ec260aad8066f599a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:09 +0000
Subject: [PATCH 02/58] fix: see points in a field of view that extends across
 the rear of the vehicle

---
 avoidance/src/common.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/avoidance/src/common.cpp b/avoidance/src/common.cpp
index f7753f5..57ff8a3 100644
--- a/avoidance/src/common.cpp
+++ b/avoidance/src/common.cpp
@@ -18,9 +18,8 @@ bool pointInsideFOV(const std::vector<FOV>& fov_vec, const PolarPoint& p_pol) {
 }
 
 bool pointInsideFOV(const FOV& fov, const PolarPoint& p_pol) {
-  return p_pol.z <= wrapAngleToPlusMinus180(fov.yaw_deg + fov.h_fov_deg / 2.f) &&
-         p_pol.z >= wrapAngleToPlusMinus180(fov.yaw_deg - fov.h_fov_deg / 2.f) &&
-         p_pol.e <= fov.pitch_deg + fov.v_fov_deg / 2.f && p_pol.e >= fov.pitch_deg - fov.v_fov_deg / 2.f;
+  return pointInsideYawFOV(fov, p_pol) && p_pol.e <= fov.pitch_deg + fov.v_fov_deg / 2.f &&
+         p_pol.e >= fov.pitch_deg - fov.v_fov_deg / 2.f;
 }
 
 bool histogramIndexYawInsideFOV(const std::vector<FOV>& fov_vec, const int idx, Eigen::Vector3f position,
@@ -64,8 +63,8 @@ bool pointInsideYawFOV(const std::vector<FOV>& fov_vec, const PolarPoint& p_pol)
 }
 
 bool pointInsideYawFOV(const FOV& fov, const PolarPoint& p_pol) {
-  return p_pol.z <= wrapAngleToPlusMinus180(fov.yaw_deg + fov.h_fov_deg / 2.f) &&
-         p_pol.z >= wrapAngleToPlusMinus180(fov.yaw_deg - fov.h_fov_deg / 2.f);
+  // compare relative to the camera's yaw: the FOV may extend across +-180 degrees
+  return std::abs(wrapAngleToPlusMinus180(p_pol.z - fov.yaw_deg)) <= fov.h_fov_deg / 2.f;
 }
 
 bool isInWhichFOV(const std::vector<FOV>& fov_vec, const PolarPoint& p_pol, int& idx) {
-- 
2.43.0


From 2cfb4876d9fac3206b05ef1b973919e24a105980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:36 +0000
Subject: [PATCH 03/58] fix: measure the field of view of a rear-facing camera
 relative to the camera

---
 avoidance/src/common.cpp | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/avoidance/src/common.cpp b/avoidance/src/common.cpp
index 57ff8a3..a94035e 100644
--- a/avoidance/src/common.cpp
+++ b/avoidance/src/common.cpp
@@ -404,36 +404,32 @@ pcl::PointCloud<pcl::PointXYZ> removeNaNAndGetMaxima(pcl::PointCloud<pcl::PointX
 
 void updateFOVFromMaxima(FOV& fov, const pcl::PointCloud<pcl::PointXYZ>& maxima) {
   float h_min = 9999.f, h_max = -9999.f, v_min = 9999.f, v_max = -9999.f;
-
-  for (auto p : maxima) {
-    PolarPoint p_pol_fcu = cartesianToPolarFCU(p);
-    p_pol_fcu.z += 180.0f;  // move azimuth to [0, 360]
-    p_pol_fcu.e += 90.0f;   // move elevation to [0, 180]
-    h_min = std::min(p_pol_fcu.z, h_min);
-    h_max = std::max(p_pol_fcu.z, h_max);
+  float h_ref = 0.f;  // azimuth of the first point
+
+  for (size_t i = 0; i < maxima.points.size(); ++i) {
+    PolarPoint p_pol_fcu = cartesianToPolarFCU(maxima.points[i]);
+    if (i == 0) h_ref = p_pol_fcu.z;
+    // Note: measuring relative to one of the points assumes the FOV of one camera is < 180 degrees!
+    float h_rel = wrapAngleToPlusMinus180(p_pol_fcu.z - h_ref);
+    h_min = std::min(h_rel, h_min);
+    h_max = std::max(h_rel, h_max);
     v_min = std::min(p_pol_fcu.e, v_min);
     v_max = std::max(p_pol_fcu.e, v_max);
   }
 
-  float h_diff = std::min(h_max - h_min, 360.0f - h_max + h_min);
-  float v_diff = std::min(v_max - v_min, 360.0f - v_max + v_min);
+  float h_diff = h_max - h_min;
+  float v_diff = v_max - v_min;
 
   if (h_diff > fov.h_fov_deg) {
     fov.h_fov_deg = h_diff;
-
-    // Note: the wrapping here assumes the FOV of one camera is < 180 degrees!
-    if (h_diff >= h_max - h_min) {
-      fov.yaw_deg = wrapAngleToPlusMinus180((h_max + h_min) / 2.0 - 180.0f);  // center of camera in [-180, 180]
-    } else {
-      fov.yaw_deg = wrapAngleToPlusMinus180((h_max + h_min) / 2.0);
-    }
+    fov.yaw_deg = wrapAngleToPlusMinus180(h_ref + (h_max + h_min) / 2.0f);  // center of camera in [-180, 180]
   }
 
   // Note: no wrapping in elevation! If the camera sees the zenith or nadir,
   // we are in trouble anyways! (aka. horizontal FOV = 360 degrees)
   if (v_diff > fov.v_fov_deg) {
     fov.v_fov_deg = v_diff;
-    fov.pitch_deg = (v_max + v_min) / 2.0f - 90.0f;
+    fov.pitch_deg = (v_max + v_min) / 2.0f;
   }
 }
 
-- 
2.43.0


From af246913304084de7e798f4e1028fd2ee0924769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:09 +0000
Subject: [PATCH 04/58] fix: no candidates wanted must not read an empty queue

With children_per_node_ set to 0, which dynamic reconfigure allows, the
look-ahead tree asks for zero candidates and the empty queue's top was read.
---
 local_planner/src/nodes/planner_functions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/local_planner/src/nodes/planner_functions.cpp b/local_planner/src/nodes/planner_functions.cpp
index 19560c9..c48c14f 100644
--- a/local_planner/src/nodes/planner_functions.cpp
+++ b/local_planner/src/nodes/planner_functions.cpp
@@ -240,7 +240,7 @@ void getBestCandidatesFromCostMatrix(const Eigen::MatrixXf& matrix, unsigned int
 
       if (queue.size() < number_of_candidates) {
         queue.push(candidate);
-      } else if (candidate < queue.top()) {
+      } else if (!queue.empty() && candidate < queue.top()) {
         queue.push(candidate);
         queue.pop();
       }
-- 
2.43.0


From c95d6fb719cce4c141d38b7de5b5fab942dbd334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:45 +0000
Subject: [PATCH 05/58] fix: keep the distance message current whenever it is
 sent

The node sends the obstacle distances unless CP_DIST is negative, but they
were only updated for a positive CP_DIST: with CP_DIST set to 0 the flight
controller kept receiving the distances of an earlier round.
---
 local_planner/src/nodes/local_planner.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/local_planner/src/nodes/local_planner.cpp b/local_planner/src/nodes/local_planner.cpp
index 560cd78..4317367 100644
--- a/local_planner/src/nodes/local_planner.cpp
+++ b/local_planner/src/nodes/local_planner.cpp
@@ -118,7 +118,7 @@ void LocalPlanner::determineStrategy() {
   cost_image_data_.clear();
   cost_image_data_.resize(3 * GRID_LENGTH_E * GRID_LENGTH_Z, 0);
 
-  create2DObstacleRepresentation(px4_.param_cp_dist > 0.f);
+  create2DObstacleRepresentation(!(px4_.param_cp_dist < 0.f));
 
   // calculate the vehicle projected position on the line between the previous and current goal
   Eigen::Vector2f u_prev_to_goal = (goal_ - prev_goal_).head<2>().normalized();
-- 
2.43.0


From 5e1f9d3715392fbc8e0b211a0dacd11da3a14d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:10 +0000
Subject: [PATCH 06/58] fix: limit the time step of the setpoint smoothing

After a pause, and at the first call with a real clock, the step is long
enough for the smoothing to become unstable: the setpoint is sent far away.
---
 local_planner/src/nodes/waypoint_generator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/local_planner/src/nodes/waypoint_generator.cpp b/local_planner/src/nodes/waypoint_generator.cpp
index 730168f..480a53c 100644
--- a/local_planner/src/nodes/waypoint_generator.cpp
+++ b/local_planner/src/nodes/waypoint_generator.cpp
@@ -392,7 +392,9 @@ void WaypointGenerator::getPathMsg() {
   output_.adapted_goto_position = output_.goto_position;
 
   float time_diff_sec = static_cast<float>((current_time_ - last_time_).toSec());
-  float dt = time_diff_sec > 0.0f ? time_diff_sec : 0.0001f;
+  // The smoothing is only stable for small steps, the time since the last call can be long (e.g. at the first call)
+  const float max_time_step_sec = 0.1f;
+  float dt = time_diff_sec > 0.0f ? std::min(time_diff_sec, max_time_step_sec) : 0.0001f;
 
   // set the yaw at the setpoint based on our smoothed location
   nextSmoothYaw(dt);
-- 
2.43.0


From 3e123f5400934aa429407901cd9bfd208972452d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:10 +0000
Subject: [PATCH 07/58] fix: do not send an uninitialised angular velocity
 setpoint

---
 local_planner/src/nodes/waypoint_generator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/local_planner/src/nodes/waypoint_generator.cpp b/local_planner/src/nodes/waypoint_generator.cpp
index 480a53c..47d3a18 100644
--- a/local_planner/src/nodes/waypoint_generator.cpp
+++ b/local_planner/src/nodes/waypoint_generator.cpp
@@ -202,6 +202,7 @@ void WaypointGenerator::calculateWaypoint() {
   ROS_DEBUG("\033[1;32m[WG] Generate Waypoint, current position: [%f, %f, %f].\033[0m", position_.x(), position_.y(),
             position_.z());
   output_.linear_velocity_wp = Eigen::Vector3f(NAN, NAN, NAN);
+  output_.angular_velocity_wp = Eigen::Vector3f(NAN, NAN, NAN);
 
   // Timing
   last_time_ = current_time_;
-- 
2.43.0


From ad39631017e886af7a185e6849df4ba11f63580a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:10 +0000
Subject: [PATCH 08/58] fix: update the setpoint when loitering after a landing
 waypoint

auto_land_ was only reset when leaving LOITER, the setpoint stayed where the
altitude change had left it.
---
 local_planner/src/nodes/waypoint_generator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/local_planner/src/nodes/waypoint_generator.cpp b/local_planner/src/nodes/waypoint_generator.cpp
index 47d3a18..88038b2 100644
--- a/local_planner/src/nodes/waypoint_generator.cpp
+++ b/local_planner/src/nodes/waypoint_generator.cpp
@@ -161,6 +161,8 @@ usm::Transition WaypointGenerator::runAltitudeChange() {
   }
 }
 usm::Transition WaypointGenerator::runLoiter() {
+  // not landing while holding the position, the setpoint has to be updated
+  auto_land_ = false;
   if (state_changed_ || hover_position_.array().hasNaN()) {
     hover_position_ = position_;
   }
-- 
2.43.0


From 4e825a1c4679da00d8bc466474d992dd097e5ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:01 +0000
Subject: [PATCH 09/58] fix: stop the parameter polling thread when the
 avoidance node is destroyed

The thread was still joinable, so that the process aborted on shutdown.
---
 avoidance/include/avoidance/avoidance_node.h |  7 ++++++-
 avoidance/src/avoidance_node.cpp             | 17 +++++++++++------
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/avoidance/include/avoidance/avoidance_node.h b/avoidance/include/avoidance/avoidance_node.h
index 9cbb0e4..2dc93ab 100644
--- a/avoidance/include/avoidance/avoidance_node.h
+++ b/avoidance/include/avoidance/avoidance_node.h
@@ -10,6 +10,9 @@
 #include "avoidance/common.h"
 #include "mavros_msgs/CompanionProcessStatus.h"
 
+#include <atomic>
+#include <condition_variable>
+#include <mutex>
 #include <thread>
 
 namespace avoidance {
@@ -77,7 +80,9 @@ class AvoidanceNode {
   double timeout_startup_;
 
   bool position_received_;
-  bool should_exit_;
+  std::atomic<bool> should_exit_;
+  std::mutex exit_mutex_;
+  std::condition_variable exit_cv_;
 
   float mission_item_speed_;
 
diff --git a/avoidance/src/avoidance_node.cpp b/avoidance/src/avoidance_node.cpp
index 75881ec..2e1e986 100644
--- a/avoidance/src/avoidance_node.cpp
+++ b/avoidance/src/avoidance_node.cpp
@@ -15,7 +15,14 @@ AvoidanceNode::AvoidanceNode(const ros::NodeHandle& nh, const ros::NodeHandle& n
   param_cb_mutex_.reset(new std::mutex);
 }
 
-AvoidanceNode::~AvoidanceNode() {}
+AvoidanceNode::~AvoidanceNode() {
+  {
+    std::lock_guard<std::mutex> lck(exit_mutex_);
+    should_exit_ = true;
+  }
+  exit_cv_.notify_all();
+  if (worker_.joinable()) worker_.join();
+}
 
 void AvoidanceNode::init() {
   mavros_system_status_pub_ = nh_.advertise<mavros_msgs::CompanionProcessStatus>("mavros/companion_process/status", 1);
@@ -157,11 +164,9 @@ void AvoidanceNode::checkPx4Parameters() {
           !std::isfinite(px4_.param_mpc_yawrauto_max);
     }
 
-    if (is_param_not_initialized) {
-      std::this_thread::sleep_for(std::chrono::seconds(5));
-    } else {
-      std::this_thread::sleep_for(std::chrono::seconds(30));
-    }
+    const std::chrono::seconds time_to_next_request(is_param_not_initialized ? 5 : 30);
+    std::unique_lock<std::mutex> lck(exit_mutex_);
+    exit_cv_.wait_for(lck, time_to_next_request, [this]() { return should_exit_.load(); });
   }
 }
 
-- 
2.43.0


From 4afd68665e2b1a1b4d419af02a70c99e6b7e17a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:39 +0000
Subject: [PATCH 10/58] fix: no undefined cruise speed before the first planner
 result

---
 local_planner/include/local_planner/avoidance_output.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/local_planner/include/local_planner/avoidance_output.h b/local_planner/include/local_planner/avoidance_output.h
index 372faa8..d3efdf8 100644
--- a/local_planner/include/local_planner/avoidance_output.h
+++ b/local_planner/include/local_planner/avoidance_output.h
@@ -3,6 +3,7 @@
 #include <ros/time.h>
 #include <Eigen/Dense>
 
+#include <cmath>
 #include <vector>
 
 namespace avoidance {
@@ -10,8 +11,8 @@ namespace avoidance {
 enum waypoint_choice { hover, tryPath, direct, reachHeight };
 
 struct avoidanceOutput {
-  float cruise_velocity;     // mission cruise velocity
-  ros::Time last_path_time;  // finish built time for the VFH+* tree
+  float cruise_velocity = NAN;  // mission cruise velocity
+  ros::Time last_path_time;     // finish built time for the VFH+* tree
 
   std::vector<Eigen::Vector3f> path_node_positions;  // array of tree nodes
                                                      // position, each node
-- 
2.43.0


From 523ca04b18d61171fd6d42ad309e6a8330afebad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:39 +0000
Subject: [PATCH 11/58] fix: initialise the state of the local planner node

---
 .../local_planner/local_planner_nodelet.h     | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/local_planner/include/local_planner/local_planner_nodelet.h b/local_planner/include/local_planner/local_planner_nodelet.h
index d34e4d4..decd178 100644
--- a/local_planner/include/local_planner/local_planner_nodelet.h
+++ b/local_planner/include/local_planner/local_planner_nodelet.h
@@ -211,18 +211,18 @@ class LocalPlannerNodelet : public nodelet::Nodelet {
   bool new_goal_ = false;
 
   std::mutex waypoints_mutex_;
-  Eigen::Vector3f newest_waypoint_position_;
-  Eigen::Vector3f last_waypoint_position_;
-  Eigen::Vector3f newest_adapted_waypoint_position_;
-  Eigen::Vector3f last_adapted_waypoint_position_;
-  Eigen::Vector3f newest_position_;
-  Eigen::Quaternionf newest_orientation_;
-  Eigen::Vector3f last_position_;
-  Eigen::Quaternionf last_orientation_;
-  Eigen::Vector3f velocity_;
-  Eigen::Vector3f desired_velocity_;
-  Eigen::Vector3f goal_position_;
-  Eigen::Vector3f prev_goal_position_;
+  Eigen::Vector3f newest_waypoint_position_ = Eigen::Vector3f::Zero();
+  Eigen::Vector3f last_waypoint_position_ = Eigen::Vector3f::Zero();
+  Eigen::Vector3f newest_adapted_waypoint_position_ = Eigen::Vector3f::Zero();
+  Eigen::Vector3f last_adapted_waypoint_position_ = Eigen::Vector3f::Zero();
+  Eigen::Vector3f newest_position_ = Eigen::Vector3f::Zero();
+  Eigen::Quaternionf newest_orientation_ = Eigen::Quaternionf::Identity();
+  Eigen::Vector3f last_position_ = Eigen::Vector3f::Zero();
+  Eigen::Quaternionf last_orientation_ = Eigen::Quaternionf::Identity();
+  Eigen::Vector3f velocity_ = Eigen::Vector3f::Zero();
+  Eigen::Vector3f desired_velocity_ = Eigen::Vector3f(NAN, NAN, NAN);
+  Eigen::Vector3f goal_position_ = Eigen::Vector3f::Zero();
+  Eigen::Vector3f prev_goal_position_ = Eigen::Vector3f::Zero();
 
   NavigationState nav_state_ = NavigationState::none;
 
-- 
2.43.0


From 0664e4db805ed2581f884fd76c1a76d7e09e5ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:39 +0000
Subject: [PATCH 12/58] fix: plan towards the same goal the setpoints head for

---
 local_planner/src/nodes/local_planner_nodelet.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/local_planner/src/nodes/local_planner_nodelet.cpp b/local_planner/src/nodes/local_planner_nodelet.cpp
index 9e83709..8ef97e8 100644
--- a/local_planner/src/nodes/local_planner_nodelet.cpp
+++ b/local_planner/src/nodes/local_planner_nodelet.cpp
@@ -352,6 +352,9 @@ void LocalPlannerNodelet::fcuInputGoalCallback(const mavros_msgs::Trajectory& ms
   if (msg.point_valid[1] == true) {
     goal_mission_item_msg_.pose.position = msg.point_2.position;
     if (msg.command[1] == UINT16_MAX) {
+      if (goal_position_ != toEigen(msg.point_2.position)) {
+        new_goal_ = true;
+      }
       goal_position_ = toEigen(msg.point_2.position);
       desired_velocity_ << NAN, NAN, NAN;
     }
-- 
2.43.0


From 116d07ccca4ef4feded4628595eaa481acd5316f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:01 +0000
Subject: [PATCH 13/58] fix: draw the heading into the cost image with the yaw
 in degrees

---
 local_planner/src/nodes/local_planner_visualization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/local_planner/src/nodes/local_planner_visualization.cpp b/local_planner/src/nodes/local_planner_visualization.cpp
index 553d929..b46dae8 100644
--- a/local_planner/src/nodes/local_planner_visualization.cpp
+++ b/local_planner/src/nodes/local_planner_visualization.cpp
@@ -279,7 +279,7 @@ void LocalPlannerVisualization::publishDataImages(const std::vector<uint8_t>& hi
 
   // current orientation
   float curr_yaw_fcu_frame = getYawFromQuaternion(newest_orientation);
-  float yaw_angle_histogram_frame = -static_cast<float>(curr_yaw_fcu_frame) * 180.0f / M_PI_F + 90.0f;
+  float yaw_angle_histogram_frame = -curr_yaw_fcu_frame + 90.0f;
   PolarPoint heading_pol(0, yaw_angle_histogram_frame, 1.0);
   Eigen::Vector2i heading_index = polarToHistogramIndex(heading_pol, ALPHA_RES);
 
-- 
2.43.0


From 72ad3087f4a89d2a32640defa902801ab41e2236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:01 +0000
Subject: [PATCH 14/58] fix: row length of the histogram image

---
 local_planner/src/nodes/local_planner_visualization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/local_planner/src/nodes/local_planner_visualization.cpp b/local_planner/src/nodes/local_planner_visualization.cpp
index b46dae8..b114bca 100644
--- a/local_planner/src/nodes/local_planner_visualization.cpp
+++ b/local_planner/src/nodes/local_planner_visualization.cpp
@@ -311,7 +311,7 @@ void LocalPlannerVisualization::publishDataImages(const std::vector<uint8_t>& hi
   hist_img.width = GRID_LENGTH_Z;
   hist_img.encoding = sensor_msgs::image_encodings::MONO8;
   hist_img.is_bigendian = 0;
-  hist_img.step = 255;
+  hist_img.step = hist_img.width;
   hist_img.data = histogram_image_data;
 
   histogram_image_pub_.publish(hist_img);
-- 
2.43.0


From db06b00cef0159201b2b4ee1721b437a5812ed48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:02 +0000
Subject: [PATCH 15/58] fix: look for models without the environment variables
 of gazebo

---
 avoidance/src/rviz_world_loader.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/avoidance/src/rviz_world_loader.cpp b/avoidance/src/rviz_world_loader.cpp
index 943bc82..8f1d0d4 100644
--- a/avoidance/src/rviz_world_loader.cpp
+++ b/avoidance/src/rviz_world_loader.cpp
@@ -34,8 +34,9 @@ int WorldVisualizer::resolveUri(std::string& uri) {
   char* gazebo_model_path = getenv("GAZEBO_MODEL_PATH");
   char* home = getenv("HOME");
   uri = uri.substr(7, std::string::npos);
-  std::stringstream all_locations(gazebo_model_path, std::ios_base::app | std::ios_base::out | std::ios_base::in);
-  all_locations << ":" << home << "/.gazebo/models";
+  std::stringstream all_locations(gazebo_model_path ? gazebo_model_path : "",
+                                  std::ios_base::app | std::ios_base::out | std::ios_base::in);
+  if (home) all_locations << ":" << home << "/.gazebo/models";
   std::string current_location;
   while (getline(all_locations, current_location, ':')) {
     struct stat s;
-- 
2.43.0


From 70176339a74a1c01fd2e6b4e048bbca03fa3b70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:35 +0000
Subject: [PATCH 16/58] fix: keep points at the border inside the landing grid

---
 safe_landing_planner/src/nodes/safe_landing_planner.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/safe_landing_planner/src/nodes/safe_landing_planner.cpp b/safe_landing_planner/src/nodes/safe_landing_planner.cpp
index 66849cf..d19a85a 100644
--- a/safe_landing_planner/src/nodes/safe_landing_planner.cpp
+++ b/safe_landing_planner/src/nodes/safe_landing_planner.cpp
@@ -148,7 +148,8 @@ Eigen::Vector2i SafeLandingPlanner::computeGridIndexes(float x, float y) {
   grid_.getGridLimits(grid_min, grid_max);
   Eigen::Vector2i idx(static_cast<int>(std::floor((x - grid_min.x()) / grid_.getCellSize())),
                       static_cast<int>(std::floor((y - grid_min.y()) / grid_.getCellSize())));
-  return idx;
+  // by rounding, a point close to the maximum border can be mapped past the last cell
+  return idx.cwiseMin(grid_.getRowColSize() - 1);
 }
 
 std::pair<float, float> SafeLandingPlanner::computeOnlineMeanVariance(float prev_mean, float prev_variance,
-- 
2.43.0


From 938c571318e26e0d5dd40f3e8b083b279e234801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:35 +0000
Subject: [PATCH 17/58] fix: adopt the size of a recorded landing grid
 completely

---
 safe_landing_planner/src/nodes/safe_landing_planner.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/safe_landing_planner/src/nodes/safe_landing_planner.cpp b/safe_landing_planner/src/nodes/safe_landing_planner.cpp
index d19a85a..f1c1d9f 100644
--- a/safe_landing_planner/src/nodes/safe_landing_planner.cpp
+++ b/safe_landing_planner/src/nodes/safe_landing_planner.cpp
@@ -55,11 +55,12 @@ void SafeLandingPlanner::processRawGrid() {
   grid_seq_ = raw_grid_.header.seq;
   std::swap(previous_grid_, grid_);
   grid_.reset();
-  grid_.setFilterLimits(position_);
 
   if (grid_.getGridSize() != raw_grid_.grid_size || grid_.getCellSize() != raw_grid_.cell_size) {
     grid_.resize(raw_grid_.grid_size, raw_grid_.cell_size);
+    previous_grid_.resize(raw_grid_.grid_size, raw_grid_.cell_size);
   }
+  grid_.setFilterLimits(position_);
 
   for (int i = 0; i < raw_grid_.mean.layout.dim[0].size; i++) {
     for (int j = 0; j < raw_grid_.mean.layout.dim[1].size; j++) {
-- 
2.43.0


From c747677ca863334c350c663d11e5561f7fbc636b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:35 +0000
Subject: [PATCH 18/58] fix: cells without any different neighbour are fit for
 landing

---
 safe_landing_planner/src/nodes/safe_landing_planner.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/safe_landing_planner/src/nodes/safe_landing_planner.cpp b/safe_landing_planner/src/nodes/safe_landing_planner.cpp
index f1c1d9f..70f982a 100644
--- a/safe_landing_planner/src/nodes/safe_landing_planner.cpp
+++ b/safe_landing_planner/src/nodes/safe_landing_planner.cpp
@@ -123,8 +123,7 @@ void SafeLandingPlanner::isLandingPossible() {
 
     // threshold each cell based on the number of cells in the neighborhood with
     // mean value difference greater than mean_diff_thr_
-    mean_accumulator = (mean_accumulator.array() <= max_n_mean_diff_cells_).select(1, mean_accumulator);
-    mean_accumulator = (mean_accumulator.array() > max_n_mean_diff_cells_).select(0, mean_accumulator);
+    mean_accumulator = (mean_accumulator.array() <= max_n_mean_diff_cells_).cast<int>().eval();
 
     // logical AND between mean_accumulator and land_accumulator
     land_accumulator = mean_accumulator.cwiseProduct(land_accumulator);
-- 
2.43.0


From 7e44be4955fb439b59e6a3d136f8b2aa895f36fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:21 +0000
Subject: [PATCH 19/58] fix: stay inside the landing grid when evaluating the
 landing area

---
 .../src/nodes/waypoint_generator.cpp          | 21 ++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/safe_landing_planner/src/nodes/waypoint_generator.cpp b/safe_landing_planner/src/nodes/waypoint_generator.cpp
index f6dd9cf..473a44d 100644
--- a/safe_landing_planner/src/nodes/waypoint_generator.cpp
+++ b/safe_landing_planner/src/nodes/waypoint_generator.cpp
@@ -310,6 +310,12 @@ usm::Transition WaypointGenerator::runEvaluateGrid() {
 }
 
 bool WaypointGenerator::evaluatePatch(Eigen::Vector2i &left_upper_corner) {
+  // an area reaching out of the grid is not known to be landable
+  if ((left_upper_corner.array() < 0).any() ||
+      (left_upper_corner.array() + mask_.rows() > can_land_hysteresis_result_.rows()).any()) {
+    return false;
+  }
+
   return can_land_hysteresis_result_.block(left_upper_corner.x(), left_upper_corner.y(), mask_.rows(), mask_.cols())
              .cwiseProduct(mask_)
              .sum() == mask_.sum();
@@ -324,19 +330,20 @@ bool WaypointGenerator::inVerticalRange() {
 }
 
 float WaypointGenerator::landingAreaHeightPercentile(float percentile) {
-  std::vector<float> altitude_landing_area((smoothing_land_cell_ * 2 + 1) * (smoothing_land_cell_ * 2 + 1));
+  std::vector<float> altitude_landing_area;
+  altitude_landing_area.reserve((smoothing_land_cell_ * 2 + 1) * (smoothing_land_cell_ * 2 + 1));
 
   int offset_center = grid_slp_.land_.rows() / 2;
-  for (int i = offset_center - smoothing_land_cell_; i <= offset_center + smoothing_land_cell_; i++) {
-    for (int j = offset_center - smoothing_land_cell_; j <= offset_center + smoothing_land_cell_; j++) {
-      int index = (smoothing_land_cell_ * 2 + 1) * (i - offset_center + smoothing_land_cell_) +
-                  (j - offset_center + smoothing_land_cell_);
-      altitude_landing_area[index] = grid_slp_.mean_(i, j);
+  int first = std::max(offset_center - smoothing_land_cell_, 0);
+  int last = std::min(offset_center + smoothing_land_cell_, static_cast<int>(grid_slp_.land_.rows()) - 1);
+  for (int i = first; i <= last; i++) {
+    for (int j = first; j <= last; j++) {
+      altitude_landing_area.push_back(grid_slp_.mean_(i, j));
     }
   }
 
   std::sort(altitude_landing_area.begin(), altitude_landing_area.end());
   int index = static_cast<int>(std::round(percentile / 100.f * altitude_landing_area.size()));
-  return altitude_landing_area[index];
+  return altitude_landing_area[std::min(index, static_cast<int>(altitude_landing_area.size()) - 1)];
 }
 }
-- 
2.43.0


From a0dacebd839cea492467d84932175c194ee4beb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:21 +0000
Subject: [PATCH 20/58] fix: show the landing area of grids of any size

---
 .../src/nodes/waypoint_generator_node.cpp     | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/safe_landing_planner/src/nodes/waypoint_generator_node.cpp b/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
index bf8887c..5238886 100644
--- a/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
+++ b/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
@@ -205,22 +205,17 @@ void WaypointGeneratorNode::landingAreaVisualization() {
   waypointGenerator_.grid_slp_.getGridLimits(grid_min, grid_max);
   int offset = waypointGenerator_.grid_slp_.land_.rows() / 2;
 
-  Eigen::MatrixXi kernel(waypointGenerator_.can_land_hysteresis_matrix_.rows(),
-                         waypointGenerator_.can_land_hysteresis_matrix_.cols());
-  kernel.fill(0);
-  kernel.block(20 - waypointGenerator_.smoothing_land_cell_, 20 - waypointGenerator_.smoothing_land_cell_,
-               waypointGenerator_.mask_.rows(), waypointGenerator_.mask_.cols()) = waypointGenerator_.mask_;
+  int slc = waypointGenerator_.mask_.rows() / 2;
+  int first = std::max(offset - slc, 0);
+  int last = std::min(offset + slc, static_cast<int>(waypointGenerator_.can_land_hysteresis_result_.rows()) - 1);
 
-  Eigen::MatrixXi result = waypointGenerator_.can_land_hysteresis_result_.cwiseProduct(kernel);
-
-  int slc = waypointGenerator_.smoothing_land_cell_;
-
-  for (size_t k = offset - slc; k <= offset + slc; k++) {
-    for (size_t l = offset - slc; l <= offset + slc; l++) {
+  for (int k = first; k <= last; k++) {
+    for (int l = first; l <= last; l++) {
       cell.pose.position.x = grid_min.x() + (cell_size * k);
       cell.pose.position.y = grid_min.y() + (cell_size * l);
       cell.pose.position.z = 1;
-      if (result(k, l)) {
+      if (waypointGenerator_.can_land_hysteresis_result_(k, l) *
+          waypointGenerator_.mask_(k - offset + slc, l - offset + slc)) {
         cell.color.r = 0.0;
         cell.color.g = 1.0;
       } else {
-- 
2.43.0


From e3e9508c91cd754ffabaadcca11e24f4b9145cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:21 +0000
Subject: [PATCH 21/58] fix: a landing setpoint without any height is not valid

---
 safe_landing_planner/src/nodes/waypoint_generator_node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/safe_landing_planner/src/nodes/waypoint_generator_node.cpp b/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
index 5238886..6c40426 100644
--- a/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
+++ b/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
@@ -157,7 +157,7 @@ void WaypointGeneratorNode::publishTrajectorySetpoints(const Eigen::Vector3f &po
   bool xy_vel_sp_valid = std::isfinite(setpoint.point_1.velocity.x) && std::isfinite(setpoint.point_1.velocity.y);
 
   if ((xy_pos_sp_valid || xy_vel_sp_valid) &&
-      (std::isfinite(setpoint.point_1.position.z || std::isfinite(setpoint.point_1.velocity.z)))) {
+      (std::isfinite(setpoint.point_1.position.z) || std::isfinite(setpoint.point_1.velocity.z))) {
     setpoint.point_valid = {true, false, false, false, false};
   } else {
     setpoint.point_valid = {false, false, false, false, false};
-- 
2.43.0


From 2eb4ae560b485713d58954069055fd87a4363c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:57 +0000
Subject: [PATCH 22/58] fix: create the mutexes of the landing planner before
 its thread

The thread locks them as soon as it runs.
---
 safe_landing_planner/src/nodes/safe_landing_planner_node.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp b/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
index c60eeed..edae778 100644
--- a/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
+++ b/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
@@ -65,12 +65,13 @@ void SafeLandingPlannerNode::rawGridCallback(const safe_landing_planner::SLPGrid
 }
 
 void SafeLandingPlannerNode::startNode() {
-  // initialize thread
-  worker_ = std::thread(&SafeLandingPlannerNode::pointCloudTransformThread, this);
   cloud_msg_mutex_.reset(new std::mutex);
   transformed_cloud_mutex_.reset(new std::mutex);
   cloud_ready_cv_.reset(new std::condition_variable);
 
+  // initialize thread
+  worker_ = std::thread(&SafeLandingPlannerNode::pointCloudTransformThread, this);
+
   ros::TimerOptions timer_options(ros::Duration(spin_dt_),
                                   boost::bind(&SafeLandingPlannerNode::cmdLoopCallback, this, _1), &cmdloop_queue_);
   cmdloop_timer_ = nh_.createTimer(timer_options);
-- 
2.43.0


From d25be0a57bf82b00557b1a0e0b0d0b48f7ada45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:57 +0000
Subject: [PATCH 23/58] fix: let the landing planner process end

main() waited for a thread that nothing ever asked to end, and the node
could not be destroyed with its thread running.
---
 .../safe_landing_planner_node.hpp                     |  2 +-
 .../src/nodes/safe_landing_planner_node.cpp           | 11 +++++++++++
 .../src/nodes/safe_landing_planner_node_main.cpp      |  2 +-
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/safe_landing_planner/include/safe_landing_planner/safe_landing_planner_node.hpp b/safe_landing_planner/include/safe_landing_planner/safe_landing_planner_node.hpp
index 00b7fd0..c2164e3 100644
--- a/safe_landing_planner/include/safe_landing_planner/safe_landing_planner_node.hpp
+++ b/safe_landing_planner/include/safe_landing_planner/safe_landing_planner_node.hpp
@@ -29,7 +29,7 @@ namespace avoidance {
 class SafeLandingPlannerNode {
  public:
   SafeLandingPlannerNode(const ros::NodeHandle& nh);
-  ~SafeLandingPlannerNode() = default;
+  ~SafeLandingPlannerNode();
 
   std::unique_ptr<SafeLandingPlanner> safe_landing_planner_;
 
diff --git a/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp b/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
index edae778..cf51278 100644
--- a/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
+++ b/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
@@ -37,6 +37,16 @@ SafeLandingPlannerNode::SafeLandingPlannerNode(const ros::NodeHandle &nh) : nh_(
   start_time_ = ros::Time::now();
 }
 
+SafeLandingPlannerNode::~SafeLandingPlannerNode() {
+  if (!worker_.joinable()) return;
+  {
+    std::lock_guard<std::mutex> lck(*(cloud_msg_mutex_));
+    should_exit_ = true;
+  }
+  cloud_ready_cv_->notify_all();
+  worker_.join();
+}
+
 void SafeLandingPlannerNode::dynamicReconfigureCallback(safe_landing_planner::SafeLandingPlannerNodeConfig &config,
                                                         uint32_t level) {
   rqt_param_config_ = config;
@@ -210,6 +220,7 @@ void SafeLandingPlannerNode::pointCloudTransformThread() {
   while (!should_exit_) {
     {
       std::unique_lock<std::mutex> cloud_msg_lock(*(cloud_msg_mutex_));
+      if (should_exit_) break;
       cloud_ready_cv_->wait(cloud_msg_lock);
     }
     while (cloud_transformed_ == false) {
diff --git a/safe_landing_planner/src/nodes/safe_landing_planner_node_main.cpp b/safe_landing_planner/src/nodes/safe_landing_planner_node_main.cpp
index 0e6de8c..67484bc 100644
--- a/safe_landing_planner/src/nodes/safe_landing_planner_node_main.cpp
+++ b/safe_landing_planner/src/nodes/safe_landing_planner_node_main.cpp
@@ -7,7 +7,7 @@ int main(int argc, char **argv) {
   SafeLandingPlannerNode NodeSLP(nh);
   NodeSLP.startNode();
 
-  NodeSLP.worker_.join();
+  ros::waitForShutdown();
 
   return 0;
 }
-- 
2.43.0


From 70d1d985d7d50f9c5a3422e99c5827ece9cbc07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:57 +0000
Subject: [PATCH 24/58] fix: keep sending the status while the landing planner
 waits for a cloud

The critical state was never reported, since no status was sent before
the termination timeout.
---
 .../src/nodes/safe_landing_planner_node.cpp              | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp b/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
index cf51278..c4fc116 100644
--- a/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
+++ b/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
@@ -92,14 +92,11 @@ void SafeLandingPlannerNode::startNode() {
 void SafeLandingPlannerNode::cmdLoopCallback(const ros::TimerEvent &event) {
   status_msg_.state = static_cast<int>(avoidance::MAV_STATE::MAV_STATE_ACTIVE);
 
-  ros::Time start_query_position = ros::Time::now();
   while (!cloud_transformed_ && ros::ok()) {
     ros::getGlobalCallbackQueue()->callAvailable(ros::WallDuration(0.1));
-    ros::Duration since_query = ros::Time::now() - start_query_position;
-    if (since_query > ros::Duration(safe_landing_planner_->timeout_termination_)) {
-      status_msg_.state = static_cast<int>(avoidance::MAV_STATE::MAV_STATE_FLIGHT_TERMINATION);
-      publishSystemStatus();
-    }
+    ros::Time time = ros::Time::now();
+    checkFailsafe(time - last_algo_time_, time - start_time_);
+    if (time - t_status_sent_ > ros::Duration(0.2)) publishSystemStatus();
   }
 
   // Check if all information was received
-- 
2.43.0


From 89005422ce9427e407532fba981c72cdc325e21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:57 +0000
Subject: [PATCH 25/58] fix: do not use a cloud that could not be transformed

---
 safe_landing_planner/src/nodes/safe_landing_planner_node.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp b/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
index c4fc116..9a0befc 100644
--- a/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
+++ b/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
@@ -237,7 +237,10 @@ void SafeLandingPlannerNode::pointCloudTransformThread() {
           pcl::removeNaNFromPointCloud(pcl_cloud, pcl_cloud, dummy_index);
 
           // transform cloud to local_origin frame
-          pcl_ros::transformPointCloud("local_origin", pcl_cloud, pcl_cloud, tf_listener_);
+          if (!pcl_ros::transformPointCloud("local_origin", pcl_cloud, pcl_cloud, tf_listener_)) {
+            ros::Duration(0.001).sleep();
+            continue;
+          }
 
           std::lock_guard<std::mutex> transformed_cloud_guard(*(transformed_cloud_mutex_));
           cloud_transformed_ = true;
-- 
2.43.0


From 2413a32f826027066e707458f6c721ba585aab1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:28 +0000
Subject: [PATCH 26/58] fix: no undefined neighbourhood for robots larger than
 a cell

---
 global_planner/src/library/cell.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global_planner/src/library/cell.cpp b/global_planner/src/library/cell.cpp
index 80aeacb..fe5d395 100644
--- a/global_planner/src/library/cell.cpp
+++ b/global_planner/src/library/cell.cpp
@@ -67,7 +67,7 @@ std::vector<Cell> Cell::getFlowNeighbors(int radius) const {
   std::vector<Cell> cells;
   auto ceilDistance = [](int radius, int x, int y) {
     auto sqr = [](int i) { return double(i * i); };
-    return static_cast<int>(std::ceil(std::sqrt(sqr(radius) - sqr(x) - sqr(y))));
+    return static_cast<int>(std::ceil(std::sqrt(std::max(0.0, sqr(radius) - sqr(x) - sqr(y)))));
   };
   for (int x = -radius; x <= radius; x++) {
     int y_radius = ceilDistance(radius, x, 0);
-- 
2.43.0


From 3a5b482a01290e557243d37edca0d9a3e5a50764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:28 +0000
Subject: [PATCH 27/58] fix: initialise the state of the global planner

---
 global_planner/include/global_planner/global_planner.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/global_planner/include/global_planner/global_planner.h b/global_planner/include/global_planner/global_planner.h
index eaf464c..61baead 100644
--- a/global_planner/include/global_planner/global_planner.h
+++ b/global_planner/include/global_planner/global_planner.h
@@ -59,7 +59,7 @@ class GlobalPlanner {
   // TODO: rename and remove not needed
   std::vector<Cell> path_back_;
   geometry_msgs::Point curr_pos_;
-  double curr_yaw_;
+  double curr_yaw_ = 0.0;
   geometry_msgs::Vector3 curr_vel_;
   GoalCell goal_pos_ = GoalCell(0.5, 0.5, 3.5);
   bool going_back_ = true;  // we start by just finding the start position
@@ -145,8 +145,8 @@ class GlobalPlanner {
   void setRobotRadius(double radius);
 
  private:
-  double robot_radius_;
-  double octree_resolution_;
+  double robot_radius_ = 0.5;
+  double octree_resolution_ = 1.0;
 };
 
 }  // namespace global_planner
-- 
2.43.0


From 709565cf47addee983ed9c79161318345b4aa769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:28 +0000
Subject: [PATCH 28/58] fix: risk heuristic of cells below the ground or above
 the altitude prior

---
 global_planner/src/library/global_planner.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/global_planner/src/library/global_planner.cpp b/global_planner/src/library/global_planner.cpp
index d04f49f..f141e57 100644
--- a/global_planner/src/library/global_planner.cpp
+++ b/global_planner/src/library/global_planner.cpp
@@ -255,8 +255,10 @@ double GlobalPlanner::riskHeuristic(const Cell& u, const Cell& goal) {
   double unexplored_risk = (1.0 + 6.0 * neighbor_risk_flow_) * explore_penalty_ * risk_factor_;
   double xy_dist = u.diagDistance2D(goal) - 1.0;  // XY distance excluding the goal cell
   double xy_risk = xy_dist * unexplored_risk * getAltPrior(u);
-  double z_risk =
-      unexplored_risk * std::abs(accumulated_alt_prior_[u.zIndex()] - accumulated_alt_prior_[goal.zIndex()]);
+  auto accumulated_prior = [this](int z) {
+    return accumulated_alt_prior_[std::max(0, std::min(z, static_cast<int>(accumulated_alt_prior_.size()) - 1))];
+  };
+  double z_risk = unexplored_risk * std::abs(accumulated_prior(u.zIndex()) - accumulated_prior(goal.zIndex()));
   // TODO: instead of subtracting 1 from the xy_dist, subtract 1 from the
   // combined xy and z dist
   double goal_risk = getRisk(goal) * risk_factor_;
-- 
2.43.0


From 78009cdab1f340ddaa7402c4f1d35bdf01df0434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:28 +0000
Subject: [PATCH 29/58] fix: altitude prior below the ground

---
 global_planner/src/library/global_planner.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/global_planner/src/library/global_planner.cpp b/global_planner/src/library/global_planner.cpp
index f141e57..212c19e 100644
--- a/global_planner/src/library/global_planner.cpp
+++ b/global_planner/src/library/global_planner.cpp
@@ -163,10 +163,10 @@ double GlobalPlanner::getSingleCellRisk(const Cell& cell) {
 double GlobalPlanner::getAltPrior(const Cell& cell) {
   int index = std::round(cell.zPos());
 
-  if (index > alt_prior_.size() - 1) {
-    return alt_prior_.back();
-  } else if (index < 0) {
+  if (index < 0) {
     return alt_prior_.front();
+  } else if (index > static_cast<int>(alt_prior_.size()) - 1) {
+    return alt_prior_.back();
   } else {
     return alt_prior_.at(index);
   }
-- 
2.43.0


From 98b04ee4fa85693a0b940d64b673efba87d280ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:28 +0000
Subject: [PATCH 30/58] fix: a turn between the axes is a turn

---
 global_planner/src/library/node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global_planner/src/library/node.cpp b/global_planner/src/library/node.cpp
index 6f631f0..f8173e2 100644
--- a/global_planner/src/library/node.cpp
+++ b/global_planner/src/library/node.cpp
@@ -65,7 +65,7 @@ double Node::getRotation(const Node& other) const {
 double Node::getXYRotation(const Node& other) const {
   Cell this_diff = (cell_ - parent_);
   Cell other_diff = (other.cell_ - other.parent_);
-  if ((this_diff.xIndex() == 0 && this_diff.yIndex() == 0) || (other_diff.xIndex() == 0 && this_diff.yIndex() == 0)) {
+  if ((this_diff.xIndex() == 0 && this_diff.yIndex() == 0) || (other_diff.xIndex() == 0 && other_diff.yIndex() == 0)) {
     return 0.0;  // Vertical movement
   }
   double this_ang = this_diff.angle();
-- 
2.43.0


From 38d997fa0967dcfb882d4d3b457c8cac583e57b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:28 +0000
Subject: [PATCH 31/58] fix: ignore the current direction when configured so

---
 global_planner/src/library/global_planner.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global_planner/src/library/global_planner.cpp b/global_planner/src/library/global_planner.cpp
index 212c19e..e970105 100644
--- a/global_planner/src/library/global_planner.cpp
+++ b/global_planner/src/library/global_planner.cpp
@@ -422,7 +422,7 @@ bool GlobalPlanner::findPath(std::vector<Cell>& path) {
   // behind the start cell Cell parent_of_s = Cell(curr_pos_);
   Cell parent_of_s(subtractPoints(curr_pos_, scalePoint(curr_vel_, search_time_)));
   if (!use_current_yaw_) {
-    Cell parent_of_s = s;  // Ignore the current yaw
+    parent_of_s = s;  // Ignore the current yaw
   }
 
   ROS_INFO("Planning a path from %s to %s", s.asString().c_str(), t.asString().c_str());
-- 
2.43.0


From aab00b56b2c16eaf20aacd9dbc9fce07137f41d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:28 +0000
Subject: [PATCH 32/58] fix: keep the configured number of iterations after a
 failed search

---
 global_planner/src/library/global_planner.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/global_planner/src/library/global_planner.cpp b/global_planner/src/library/global_planner.cpp
index e970105..479ac19 100644
--- a/global_planner/src/library/global_planner.cpp
+++ b/global_planner/src/library/global_planner.cpp
@@ -474,8 +474,10 @@ bool GlobalPlanner::findPath(std::vector<Cell>& path) {
   // Last resort, try 2d search at max_altitude_
   if (!found_path) {
     printf("No path found, search in 2D \n");
+    int configured_iterations = max_iterations_;
     max_iterations_ = 5000;
     found_path = find2DPath(this, path, s, t, parent_of_s, max_altitude_);
+    max_iterations_ = configured_iterations;
   }
 
   return found_path;
-- 
2.43.0


From bc7dcdb9df2ecdd08eb8a03c588da9d94487d0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:28 +0000
Subject: [PATCH 33/58] fix: keep the map when a map message is unusable

---
 global_planner/src/library/global_planner.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/global_planner/src/library/global_planner.cpp b/global_planner/src/library/global_planner.cpp
index 479ac19..243d70b 100644
--- a/global_planner/src/library/global_planner.cpp
+++ b/global_planner/src/library/global_planner.cpp
@@ -67,11 +67,17 @@ void GlobalPlanner::setFrame(std::string frame_id) { frame_id_ = frame_id; }
 // Going through the octomap can take more than 50 ms for 100m x 100m explored
 // map
 void GlobalPlanner::updateFullOctomap(octomap::AbstractOcTree* tree) {
+  octomap::OcTree* octree = dynamic_cast<octomap::OcTree*>(tree);
+  if (!octree) {
+    ROS_WARN("Ignoring a map which is not an OcTree");
+    delete tree;
+    return;
+  }
   risk_cache_.clear();
   if (octree_) {
     delete octree_;
   }
-  octree_ = dynamic_cast<octomap::OcTree*>(tree);
+  octree_ = octree;
   octree_resolution_ = octree_->getResolution();
 }
 
-- 
2.43.0


From 6f0ed05ee6b6e9db845590f2226c5f86c5a77d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:28 +0000
Subject: [PATCH 34/58] fix: a point clicked before the first map

---
 global_planner/include/global_planner/analysis.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global_planner/include/global_planner/analysis.h b/global_planner/include/global_planner/analysis.h
index 9ce202b..5fd8ce3 100644
--- a/global_planner/include/global_planner/analysis.h
+++ b/global_planner/include/global_planner/analysis.h
@@ -116,7 +116,7 @@ void printPointStats(GlobalPlanner* global_planner, double x, double y, double z
   double heuristics = global_planner->getHeuristic(Node(cell, cell), global_planner->goal_pos_);
   ROS_INFO("Heuristics: %2.2f", heuristics);
 
-  octomap::OcTreeNode* node = global_planner->octree_->search(x, y, z);
+  octomap::OcTreeNode* node = global_planner->octree_ ? global_planner->octree_->search(x, y, z) : nullptr;
   if (node) {
     double prob = octomap::probability(node->getValue());
     double post_prob = posterior(global_planner->getAltPrior(cell), prob);
-- 
2.43.0


From 02549524fc0cb0350324254de869ae8534df98ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:28 +0000
Subject: [PATCH 35/58] fix: order of the arguments when simplifying the path

---
 global_planner/src/nodes/global_planner_node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global_planner/src/nodes/global_planner_node.cpp b/global_planner/src/nodes/global_planner_node.cpp
index 877907b..a9f8cee 100644
--- a/global_planner/src/nodes/global_planner_node.cpp
+++ b/global_planner/src/nodes/global_planner_node.cpp
@@ -374,7 +374,7 @@ void GlobalPlannerNode::publishPath() {
   setCurrentPath(path_msg.poses);
   smooth_path_pub_.publish(smoothPath(path_msg));
 
-  auto simple_path = simplifyPath(&global_planner_, global_planner_.curr_path_, simplify_iterations_, simplify_margin_);
+  auto simple_path = simplifyPath(&global_planner_, global_planner_.curr_path_, simplify_margin_, simplify_iterations_);
   auto simple_path_msg = global_planner_.getPathMsg(simple_path);
   global_temp_path_pub_.publish(simple_path_msg);
   setCurrentPath(simple_path_msg.poses);
-- 
2.43.0


From e7b3c7404560f8c3a0eaee8cbb37bff5b491f65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:28 +0000
Subject: [PATCH 36/58] fix: no undefined setpoint exactly at the goal

---
 global_planner/src/nodes/global_planner_node.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/global_planner/src/nodes/global_planner_node.cpp b/global_planner/src/nodes/global_planner_node.cpp
index a9f8cee..cd59dd2 100644
--- a/global_planner/src/nodes/global_planner_node.cpp
+++ b/global_planner/src/nodes/global_planner_node.cpp
@@ -408,7 +408,9 @@ void GlobalPlannerNode::publishSetpoint() {
 
   // If we are less than 1.0 away, then we should stop at the goal
   double new_len = vec.length() < 1.0 ? vec.length() : speed_;
-  vec.normalize();
+  if (vec.length() > 0.0) {
+    vec.normalize();
+  }
   vec *= new_len;
 
   auto setpoint = current_goal_;  // The intermediate position sent to Mavros
-- 
2.43.0


From 2abd4068bf8c1c623983a11b12ae27795f70d149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:28 +0000
Subject: [PATCH 37/58] fix: use the setting of the risk based speed

---
 global_planner/src/nodes/global_planner_node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global_planner/src/nodes/global_planner_node.cpp b/global_planner/src/nodes/global_planner_node.cpp
index cd59dd2..1064c72 100644
--- a/global_planner/src/nodes/global_planner_node.cpp
+++ b/global_planner/src/nodes/global_planner_node.cpp
@@ -390,7 +390,7 @@ void GlobalPlannerNode::printPointInfo(double x, double y, double z) {
 void GlobalPlannerNode::publishSetpoint() {
   // Vector pointing from current position to the current goal
   tf::Vector3 vec = toTfVector3(subtractPoints(current_goal_.pose.position, last_pos_.pose.position));
-  if (global_planner_.use_speedup_heuristics_) {
+  if (global_planner_.use_risk_based_speedup_) {
     Cell cur_cell =
         global_planner::Cell(last_pos_.pose.position.x, last_pos_.pose.position.y, last_pos_.pose.position.z);
     double cur_risk = std::sqrt(global_planner_.getRisk(cur_cell));
-- 
2.43.0


From d2f2ecd1122da8e7ab4b0214abce34b933768f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:28 +0000
Subject: [PATCH 38/58] fix: default camera frame of the global planner

---
 global_planner/src/nodes/global_planner_node.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/global_planner/src/nodes/global_planner_node.cpp b/global_planner/src/nodes/global_planner_node.cpp
index 1064c72..15bb84e 100644
--- a/global_planner/src/nodes/global_planner_node.cpp
+++ b/global_planner/src/nodes/global_planner_node.cpp
@@ -81,7 +81,8 @@ void GlobalPlannerNode::readParams() {
   nh_.param<std::string>("frame_id", frame_id_, "local_origin");
   nh_.getParam("pointcloud_topics", camera_topics);
   if (!nh_.hasParam("camera_frame_id")) {
-    nh_.setParam("camera_frame_id", "camera_link");
+    camera_frame_id_ = "camera_link";
+    nh_.setParam("camera_frame_id", camera_frame_id_);
   } else {
     nh_.getParam("camera_frame_id", camera_frame_id_);
   }
-- 
2.43.0


From abcadc5468fb0bc603e6a8607d8cde040b414138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:28 +0000
Subject: [PATCH 39/58] fix: a new goal replaces the goals still to be visited

---
 global_planner/src/nodes/global_planner_node.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/global_planner/src/nodes/global_planner_node.cpp b/global_planner/src/nodes/global_planner_node.cpp
index 15bb84e..c0483fe 100644
--- a/global_planner/src/nodes/global_planner_node.cpp
+++ b/global_planner/src/nodes/global_planner_node.cpp
@@ -250,13 +250,17 @@ void GlobalPlannerNode::clickedPointCallback(const geometry_msgs::PointStamped&
 }
 
 void GlobalPlannerNode::moveBaseSimpleCallback(const geometry_msgs::PoseStamped& msg) {
+  waypoints_.clear();
   setNewGoal(GoalCell(msg.pose.position.x, msg.pose.position.y, clicked_goal_alt_, clicked_goal_radius_));
 }
 
 void GlobalPlannerNode::fcuInputGoalCallback(const mavros_msgs::Trajectory& msg) {
   const GoalCell new_goal = GoalCell(msg.point_2.position.x, msg.point_2.position.y, msg.point_2.position.z, 1.0);
-  if (msg.point_valid[1] == true && ((std::fabs(global_planner_.goal_pos_.xPos() - new_goal.xPos()) > 0.001) ||
-                                     (std::fabs(global_planner_.goal_pos_.yPos() - new_goal.yPos()) > 0.001))) {
+  // The current goal can be an intermediate one, compare with the final destination
+  const GoalCell& destination = waypoints_.empty() ? global_planner_.goal_pos_ : waypoints_.back();
+  if (msg.point_valid[1] == true && ((std::fabs(destination.xPos() - new_goal.xPos()) > 0.001) ||
+                                     (std::fabs(destination.yPos() - new_goal.yPos()) > 0.001))) {
+    waypoints_.clear();
     setNewGoal(new_goal);
   }
 }
-- 
2.43.0


From ae4408c912b0ff81cbb95091f71dec0947de76bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:28 +0000
Subject: [PATCH 40/58] fix: apply the search settings of the start
 configuration

---
 global_planner/src/nodes/global_planner_node.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/global_planner/src/nodes/global_planner_node.cpp b/global_planner/src/nodes/global_planner_node.cpp
index c0483fe..3f7dce5 100644
--- a/global_planner/src/nodes/global_planner_node.cpp
+++ b/global_planner/src/nodes/global_planner_node.cpp
@@ -187,12 +187,12 @@ void GlobalPlannerNode::dynamicReconfigureCallback(global_planner::GlobalPlanner
   simplify_margin_ = config.simplify_margin_;
 
   // cell
-  if (level == 2) {
+  if (level & 2) {
     CELL_SCALE = config.CELL_SCALE;
   }
 
   // node
-  if (level == 4) {
+  if (level & 4) {
     SPEEDNODE_RADIUS = config.SPEEDNODE_RADIUS;
     global_planner_.default_node_type_ = config.default_node_type_;
   }
-- 
2.43.0


From 8827b221da2014d6dd731368c5b8e6dbb65a2fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:15 +0000
Subject: [PATCH 41/58] fix: do not change goals, points or settings while
 planning

---
 global_planner/src/nodes/global_planner_node.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/global_planner/src/nodes/global_planner_node.cpp b/global_planner/src/nodes/global_planner_node.cpp
index 3f7dce5..c74e292 100644
--- a/global_planner/src/nodes/global_planner_node.cpp
+++ b/global_planner/src/nodes/global_planner_node.cpp
@@ -156,6 +156,7 @@ void GlobalPlannerNode::setIntermediateGoal() {
 }
 
 void GlobalPlannerNode::dynamicReconfigureCallback(global_planner::GlobalPlannerNodeConfig& config, uint32_t level) {
+  std::lock_guard<std::mutex> lock(mutex_);
   // global_planner_
   global_planner_.min_altitude_ = config.min_altitude_;
   global_planner_.max_altitude_ = config.max_altitude_;
@@ -240,6 +241,7 @@ void GlobalPlannerNode::positionCallback(const geometry_msgs::PoseStamped& msg)
 }
 
 void GlobalPlannerNode::clickedPointCallback(const geometry_msgs::PointStamped& msg) {
+  std::lock_guard<std::mutex> lock(mutex_);
   printPointInfo(msg.point.x, msg.point.y, msg.point.z);
 
   geometry_msgs::PoseStamped pose;
@@ -250,11 +252,13 @@ void GlobalPlannerNode::clickedPointCallback(const geometry_msgs::PointStamped&
 }
 
 void GlobalPlannerNode::moveBaseSimpleCallback(const geometry_msgs::PoseStamped& msg) {
+  std::lock_guard<std::mutex> lock(mutex_);
   waypoints_.clear();
   setNewGoal(GoalCell(msg.pose.position.x, msg.pose.position.y, clicked_goal_alt_, clicked_goal_radius_));
 }
 
 void GlobalPlannerNode::fcuInputGoalCallback(const mavros_msgs::Trajectory& msg) {
+  std::lock_guard<std::mutex> lock(mutex_);
   const GoalCell new_goal = GoalCell(msg.point_2.position.x, msg.point_2.position.y, msg.point_2.position.z, 1.0);
   // The current goal can be an intermediate one, compare with the final destination
   const GoalCell& destination = waypoints_.empty() ? global_planner_.goal_pos_ : waypoints_.back();
@@ -295,6 +299,7 @@ void GlobalPlannerNode::depthCameraCallback(const sensor_msgs::PointCloud2& msg)
     pcl::fromROSMsg(transformed_msg, cloud);
 
     // Store the obstacle points
+    std::lock_guard<std::mutex> lock(mutex_);
     for (const auto& p : cloud) {
       if (!std::isnan(p.x)) {
         // TODO: Not all points end up here
-- 
2.43.0


From b1ec7f6a7ce9ebc82878f70602e42309ba74492c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:15 +0000
Subject: [PATCH 42/58] fix: do not look up the risk in a map that is being
 replaced

---
 global_planner/src/nodes/global_planner_node.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/global_planner/src/nodes/global_planner_node.cpp b/global_planner/src/nodes/global_planner_node.cpp
index c74e292..c00ba74 100644
--- a/global_planner/src/nodes/global_planner_node.cpp
+++ b/global_planner/src/nodes/global_planner_node.cpp
@@ -400,7 +400,10 @@ void GlobalPlannerNode::printPointInfo(double x, double y, double z) {
 void GlobalPlannerNode::publishSetpoint() {
   // Vector pointing from current position to the current goal
   tf::Vector3 vec = toTfVector3(subtractPoints(current_goal_.pose.position, last_pos_.pose.position));
-  if (global_planner_.use_risk_based_speedup_) {
+  std::unique_lock<std::mutex> lock(mutex_, std::try_to_lock);
+  if (!lock.owns_lock()) {
+    // The planner or the map update is busy, keep the last speed
+  } else if (global_planner_.use_risk_based_speedup_) {
     Cell cur_cell =
         global_planner::Cell(last_pos_.pose.position.x, last_pos_.pose.position.y, last_pos_.pose.position.z);
     double cur_risk = std::sqrt(global_planner_.getRisk(cur_cell));
@@ -415,6 +418,9 @@ void GlobalPlannerNode::publishSetpoint() {
   } else {  // If risk based speed up is not activated, use default_speed_.
     speed_ = global_planner_.default_speed_;
   }
+  if (lock.owns_lock()) {
+    lock.unlock();
+  }
 
   // If we are less than 1.0 away, then we should stop at the goal
   double new_len = vec.length() < 1.0 ? vec.length() : speed_;
-- 
2.43.0


From a26c89bffcaa1e757c3ed52ee511a301b875a6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:15 +0000
Subject: [PATCH 43/58] fix: do not change the path while the setpoint is
 computed

---
 global_planner/include/global_planner/global_planner_node.h | 1 +
 global_planner/src/nodes/global_planner_node.cpp            | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/global_planner/include/global_planner/global_planner_node.h b/global_planner/include/global_planner/global_planner_node.h
index 3f3c1d4..196fd9a 100644
--- a/global_planner/include/global_planner/global_planner_node.h
+++ b/global_planner/include/global_planner/global_planner_node.h
@@ -52,6 +52,7 @@ class GlobalPlannerNode {
 
  private:
   std::mutex mutex_;
+  std::mutex setpoint_mutex_;  // Guards the position, the path being followed, its current goal and the speed
 
   ros::NodeHandle nh_;
   ros::NodeHandle nh_private_;
diff --git a/global_planner/src/nodes/global_planner_node.cpp b/global_planner/src/nodes/global_planner_node.cpp
index c00ba74..cba8b33 100644
--- a/global_planner/src/nodes/global_planner_node.cpp
+++ b/global_planner/src/nodes/global_planner_node.cpp
@@ -205,6 +205,7 @@ void GlobalPlannerNode::velocityCallback(const geometry_msgs::TwistStamped& msg)
 
 // Sets the current position and checks if the current goal has been reached
 void GlobalPlannerNode::positionCallback(const geometry_msgs::PoseStamped& msg) {
+  std::lock_guard<std::mutex> lock(setpoint_mutex_);
   // Update position
   last_pos_ = msg;
   global_planner_.setPose(last_pos_);
@@ -315,6 +316,7 @@ void GlobalPlannerNode::depthCameraCallback(const sensor_msgs::PointCloud2& msg)
 }
 
 void GlobalPlannerNode::setCurrentPath(const std::vector<geometry_msgs::PoseStamped>& poses) {
+  std::lock_guard<std::mutex> lock(setpoint_mutex_);
   path_.clear();
 
   if (poses.size() < 2) {
@@ -398,6 +400,7 @@ void GlobalPlannerNode::printPointInfo(double x, double y, double z) {
 }
 
 void GlobalPlannerNode::publishSetpoint() {
+  std::lock_guard<std::mutex> setpoint_lock(setpoint_mutex_);
   // Vector pointing from current position to the current goal
   tf::Vector3 vec = toTfVector3(subtractPoints(current_goal_.pose.position, last_pos_.pose.position));
   std::unique_lock<std::mutex> lock(mutex_, std::try_to_lock);
-- 
2.43.0


From 2994e772252b24bf822f2b574075e43c0e2c856c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:39 +0000
Subject: [PATCH 44/58] fix: one edge length limit for all parts of the global
 planner

---
 global_planner/include/global_planner/node.h | 2 +-
 global_planner/src/library/node.cpp          | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/global_planner/include/global_planner/node.h b/global_planner/include/global_planner/node.h
index 49c134f..31205e4 100644
--- a/global_planner/include/global_planner/node.h
+++ b/global_planner/include/global_planner/node.h
@@ -67,7 +67,7 @@ class NodeWithoutSmooth : public Node {
   double getRotation(const Node& other) const { return 0.0; }
 };
 
-static double SPEEDNODE_RADIUS = 5.0;
+extern double SPEEDNODE_RADIUS;
 // Node represents 3D position, orientation and speed
 // TODO: Needs to check the risk of Cells between cell and parent
 class SpeedNode : public Node {
diff --git a/global_planner/src/library/node.cpp b/global_planner/src/library/node.cpp
index f8173e2..dafcaf2 100644
--- a/global_planner/src/library/node.cpp
+++ b/global_planner/src/library/node.cpp
@@ -2,6 +2,8 @@
 
 namespace global_planner {
 
+double SPEEDNODE_RADIUS = 5.0;
+
 bool Node::isSmaller(const Node& other) const {
   return cell_ < other.cell_ || (cell_ == other.cell_ && parent_ < other.parent_);
 }
-- 
2.43.0


From 3acf294345f88b46acde66e75c80de5031f70cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:14 +0000
Subject: [PATCH 45/58] fix: respect the allowed risk when the risk costs
 nothing

---
 global_planner/include/global_planner/search_tools.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global_planner/include/global_planner/search_tools.h b/global_planner/include/global_planner/search_tools.h
index 65ac372..c4397e2 100644
--- a/global_planner/include/global_planner/search_tools.h
+++ b/global_planner/include/global_planner/search_tools.h
@@ -300,7 +300,7 @@ bool findPathOld(GlobalPlanner* global_planner, std::vector<Cell>& path, const C
       Cell v = v_cell_dist.first;
       double edge_cost = v_cell_dist.second;  // Use getEdgeCost
       double risk = global_planner->risk_factor_ * global_planner->getRisk(v);
-      if (risk > global_planner->risk_factor_ * global_planner->max_cell_risk_ && v != t) {
+      if (global_planner->getRisk(v) > global_planner->max_cell_risk_ && v != t) {
         continue;
       }
       double new_dist = d + edge_cost + risk;
-- 
2.43.0


From f517188f48aa1fd088840d5ee49bae83b9691b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:52 +0000
Subject: [PATCH 46/58] fix: planning ends when no lower overestimation is
 possible

---
 global_planner/src/library/global_planner.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/global_planner/src/library/global_planner.cpp b/global_planner/src/library/global_planner.cpp
index 243d70b..d4ac902 100644
--- a/global_planner/src/library/global_planner.cpp
+++ b/global_planner/src/library/global_planner.cpp
@@ -474,6 +474,9 @@ bool GlobalPlanner::findPath(std::vector<Cell>& path) {
     }
     last_iter = search_info.num_iter;
     iter_left -= last_iter;
+    if (overestimate_factor_ <= 1.0) {
+      break;  // The search can not get any better
+    }
     overestimate_factor_ = (overestimate_factor_ - 1.0) / 4.0 + 1.0;
   }
 
-- 
2.43.0


From 0d4aedda3243b97191e2a0dd992cf8a12c1dbd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:06 +0000
Subject: [PATCH 47/58] fix: the landing grid's low-pass filter takes cells
 without points for ground at height zero

---
 .../include/safe_landing_planner/grid.hpp            | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/safe_landing_planner/include/safe_landing_planner/grid.hpp b/safe_landing_planner/include/safe_landing_planner/grid.hpp
index 10a578d..eb46608 100644
--- a/safe_landing_planner/include/safe_landing_planner/grid.hpp
+++ b/safe_landing_planner/include/safe_landing_planner/grid.hpp
@@ -59,8 +59,16 @@ class Grid {
   }
 
   void combine(const Grid &prev_grid, float alpha) {
-    mean_ = alpha * prev_grid.mean_ + (1.f - alpha) * mean_;
-    variance_ = alpha * prev_grid.variance_ + (1.f - alpha) * variance_;
+    for (int i = 0; i < grid_row_col_size_; i++) {
+      for (int j = 0; j < grid_row_col_size_; j++) {
+        // a cell without points before has nothing to contribute
+        if (counter_(i, j) > 0 && prev_grid.counter_(i, j) == 0) {
+          continue;
+        }
+        mean_(i, j) = alpha * prev_grid.mean_(i, j) + (1.f - alpha) * mean_(i, j);
+        variance_(i, j) = alpha * prev_grid.variance_(i, j) + (1.f - alpha) * variance_(i, j);
+      }
+    }
   }
 
   Eigen::MatrixXi land_;
-- 
2.43.0


From 18523243a934dd4480de317862a0efb5c21fafac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:06 +0000
Subject: [PATCH 48/58] fix: the landing waypoint generator takes cells without
 points for ground at height zero

---
 safe_landing_planner/src/nodes/waypoint_generator.cpp    | 9 ++++++++-
 .../src/nodes/waypoint_generator_node.cpp                | 5 ++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/safe_landing_planner/src/nodes/waypoint_generator.cpp b/safe_landing_planner/src/nodes/waypoint_generator.cpp
index 473a44d..6507ede 100644
--- a/safe_landing_planner/src/nodes/waypoint_generator.cpp
+++ b/safe_landing_planner/src/nodes/waypoint_generator.cpp
@@ -338,10 +338,17 @@ float WaypointGenerator::landingAreaHeightPercentile(float percentile) {
   int last = std::min(offset_center + smoothing_land_cell_, static_cast<int>(grid_slp_.land_.rows()) - 1);
   for (int i = first; i <= last; i++) {
     for (int j = first; j <= last; j++) {
-      altitude_landing_area.push_back(grid_slp_.mean_(i, j));
+      if (std::isfinite(grid_slp_.mean_(i, j))) {
+        altitude_landing_area.push_back(grid_slp_.mean_(i, j));
+      }
     }
   }
 
+  // nothing is known about the ground: stay at this altitude
+  if (altitude_landing_area.empty()) {
+    return position_.z() - loiter_height_;
+  }
+
   std::sort(altitude_landing_area.begin(), altitude_landing_area.end());
   int index = static_cast<int>(std::round(percentile / 100.f * altitude_landing_area.size()));
   return altitude_landing_area[std::min(index, static_cast<int>(altitude_landing_area.size()) - 1)];
diff --git a/safe_landing_planner/src/nodes/waypoint_generator_node.cpp b/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
index 6c40426..a52ac41 100644
--- a/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
+++ b/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
@@ -116,7 +116,10 @@ void WaypointGeneratorNode::gridCallback(const safe_landing_planner::SLPGridMsg
 
   for (int i = 0; i < msg.mean.layout.dim[0].size; i++) {
     for (int j = 0; j < msg.mean.layout.dim[1].size; j++) {
-      waypointGenerator_.grid_slp_.mean_(i, j) = msg.mean.data[msg.mean.layout.dim[1].size * i + j];
+      const size_t k = msg.mean.layout.dim[1].size * i + j;
+      // a cell without points has no height
+      const bool unseen = k < msg.counter.data.size() && msg.counter.data[k] == 0;
+      waypointGenerator_.grid_slp_.mean_(i, j) = unseen ? NAN : msg.mean.data[k];
       waypointGenerator_.grid_slp_.land_(i, j) = msg.land.data[msg.mean.layout.dim[1].size * i + j];
     }
   }
-- 
2.43.0


From 25a37d743c1700e18193ee6b7682edbe907d48d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:31 +0000
Subject: [PATCH 49/58] fix: guard the vehicle state and the goal shared by the
 local planner's threads

---
 .../local_planner/local_planner_nodelet.h     |  3 +-
 .../src/nodes/local_planner_nodelet.cpp       | 70 +++++++++++++++----
 2 files changed, 59 insertions(+), 14 deletions(-)

diff --git a/local_planner/include/local_planner/local_planner_nodelet.h b/local_planner/include/local_planner/local_planner_nodelet.h
index decd178..f139f05 100644
--- a/local_planner/include/local_planner/local_planner_nodelet.h
+++ b/local_planner/include/local_planner/local_planner_nodelet.h
@@ -103,7 +103,7 @@ class LocalPlannerNodelet : public nodelet::Nodelet {
   std::mutex running_mutex_;  ///< guard against concurrent access to input &
                               /// output data (point cloud, position, ...)
 
-  bool position_received_ = false;
+  std::atomic<bool> position_received_{false};
 
   /**
   * @brief     handles threads for data publication and subscription
@@ -208,6 +208,7 @@ class LocalPlannerNodelet : public nodelet::Nodelet {
   geometry_msgs::PoseStamped goal_mission_item_msg_;
   mavros_msgs::Altitude ground_distance_msg_;
 
+  std::mutex input_mutex_;  ///< guards the received pose, velocity, state and goal
   bool new_goal_ = false;
 
   std::mutex waypoints_mutex_;
diff --git a/local_planner/src/nodes/local_planner_nodelet.cpp b/local_planner/src/nodes/local_planner_nodelet.cpp
index 8ef97e8..d9ae513 100644
--- a/local_planner/src/nodes/local_planner_nodelet.cpp
+++ b/local_planner/src/nodes/local_planner_nodelet.cpp
@@ -175,6 +175,13 @@ void LocalPlannerNodelet::updatePlannerInfo() {
     }
   }
 
+  Eigen::Vector3f last_sent_waypoint;
+  {
+    std::lock_guard<std::mutex> lock(waypoints_mutex_);
+    last_sent_waypoint = newest_waypoint_position_;
+  }
+
+  std::lock_guard<std::mutex> input_lock(input_mutex_);
   // update pose
   local_planner_->setState(newest_position_, velocity_, newest_orientation_);
 
@@ -189,7 +196,7 @@ void LocalPlannerNodelet::updatePlannerInfo() {
   }
 
   // update last sent waypoint
-  local_planner_->last_sent_waypoint_ = newest_waypoint_position_;
+  local_planner_->last_sent_waypoint_ = last_sent_waypoint;
 
   // update the Firmware parameters
   local_planner_->px4_ = avoidance_node_->getPX4Parameters();
@@ -197,6 +204,7 @@ void LocalPlannerNodelet::updatePlannerInfo() {
 }
 
 void LocalPlannerNodelet::positionCallback(const geometry_msgs::PoseStamped& msg) {
+  std::lock_guard<std::mutex> lock(input_mutex_);
   last_position_ = newest_position_;
   newest_position_ = toEigen(msg.pose.position);
   newest_orientation_ = toEigen(msg.pose.orientation);
@@ -205,10 +213,12 @@ void LocalPlannerNodelet::positionCallback(const geometry_msgs::PoseStamped& msg
 }
 
 void LocalPlannerNodelet::velocityCallback(const geometry_msgs::TwistStamped& msg) {
+  std::lock_guard<std::mutex> lock(input_mutex_);
   velocity_ = toEigen(msg.twist.linear);
 }
 
 void LocalPlannerNodelet::stateCallback(const mavros_msgs::State& msg) {
+  std::lock_guard<std::mutex> lock(input_mutex_);
   armed_ = msg.armed;
 
   if (msg.mode == "AUTO.MISSION") {
@@ -240,7 +250,12 @@ void LocalPlannerNodelet::cmdLoopCallback(const ros::TimerEvent& event) {
   while (!position_received_ && ros::ok()) {
     ros::getGlobalCallbackQueue()->callAvailable(ros::WallDuration(0.1));
     ros::Duration since_query = ros::Time::now() - start_query_position;
-    if (since_query > ros::Duration(local_planner_->timeout_termination_)) {
+    double timeout_termination;
+    {
+      std::lock_guard<std::mutex> input_lock(input_mutex_);
+      timeout_termination = local_planner_->timeout_termination_;
+    }
+    if (since_query > ros::Duration(timeout_termination)) {
       setSystemStatus(MAV_STATE::MAV_STATE_FLIGHT_TERMINATION);
       if (!position_not_received_error_sent_) {
         // clang-format off
@@ -281,11 +296,17 @@ void LocalPlannerNodelet::setSystemStatus(MAV_STATE state) { avoidance_node_->se
 MAV_STATE LocalPlannerNodelet::getSystemStatus() { return avoidance_node_->getSystemStatus(); }
 
 void LocalPlannerNodelet::calculateWaypoints(bool hover) {
-  bool is_airborne = armed_ && (nav_state_ != NavigationState::none);
-
-  wp_generator_->updateState(newest_position_, newest_orientation_, goal_position_, prev_goal_position_, velocity_,
-                             hover, is_airborne, nav_state_, is_land_waypoint_, is_takeoff_waypoint_,
-                             desired_velocity_);
+  Eigen::Vector3f last_position, newest_position;
+  {
+    std::lock_guard<std::mutex> lock(input_mutex_);
+    bool is_airborne = armed_ && (nav_state_ != NavigationState::none);
+    last_position = last_position_;
+    newest_position = newest_position_;
+
+    wp_generator_->updateState(newest_position_, newest_orientation_, goal_position_, prev_goal_position_, velocity_,
+                               hover, is_airborne, nav_state_, is_land_waypoint_, is_takeoff_waypoint_,
+                               desired_velocity_);
+  }
   waypointResult result = wp_generator_->getWaypoints();
 
   Eigen::Vector3f closest_pt = Eigen::Vector3f(NAN, NAN, NAN);
@@ -299,10 +320,10 @@ void LocalPlannerNodelet::calculateWaypoints(bool hover) {
 
   // visualize waypoint topics
   visualizer_.visualizeWaypoints(result.goto_position, result.adapted_goto_position, result.smoothed_goto_position);
-  visualizer_.publishPaths(last_position_, newest_position_, last_waypoint_position_, newest_waypoint_position_,
+  visualizer_.publishPaths(last_position, newest_position, last_waypoint_position_, newest_waypoint_position_,
                            last_adapted_waypoint_position_, newest_adapted_waypoint_position_);
   visualizer_.publishCurrentSetpoint(toTwist(result.linear_velocity_wp, result.angular_velocity_wp),
-                                     result.waypoint_type, newest_position_);
+                                     result.waypoint_type, newest_position);
 
   visualizer_.publishOfftrackPoints(closest_pt, deg60_pt);
 
@@ -320,6 +341,7 @@ void LocalPlannerNodelet::clickedPointCallback(const geometry_msgs::PointStamped
 }
 
 void LocalPlannerNodelet::clickedGoalCallback(const geometry_msgs::PoseStamped& msg) {
+  std::lock_guard<std::mutex> lock(input_mutex_);
   new_goal_ = true;
   prev_goal_position_ = goal_position_;
   goal_position_ = toEigen(msg.pose.position);
@@ -329,6 +351,7 @@ void LocalPlannerNodelet::clickedGoalCallback(const geometry_msgs::PoseStamped&
 }
 
 void LocalPlannerNodelet::updateGoalCallback(const visualization_msgs::MarkerArray& msg) {
+  std::lock_guard<std::mutex> lock(input_mutex_);
   if (accept_goal_input_topic_ && msg.markers.size() > 0) {
     prev_goal_position_ = goal_position_;
     goal_position_ = toEigen(msg.markers[0].pose.position);
@@ -337,6 +360,7 @@ void LocalPlannerNodelet::updateGoalCallback(const visualization_msgs::MarkerArr
 }
 
 void LocalPlannerNodelet::fcuInputGoalCallback(const mavros_msgs::Trajectory& msg) {
+  std::lock_guard<std::mutex> lock(input_mutex_);
   bool update =
       ((avoidance::toEigen(msg.point_2.position) - avoidance::toEigen(goal_mission_item_msg_.pose.position)).norm() >
        0.01) ||
@@ -393,7 +417,11 @@ void LocalPlannerNodelet::transformBufferThread() {
 }
 
 void LocalPlannerNodelet::printPointInfo(double x, double y, double z) {
-  Eigen::Vector3f drone_pos = local_planner_->getPosition();
+  Eigen::Vector3f drone_pos;
+  {
+    std::lock_guard<std::mutex> lock(input_mutex_);
+    drone_pos = local_planner_->getPosition();
+  }
   int beta_z = floor((atan2(x - drone_pos.x(), y - drone_pos.y()) * 180.0 / M_PI));  //(-180. +180]
   int beta_e = floor((atan((z - drone_pos.z()) / (Eigen::Vector2f(x, y) - drone_pos.topRows<2>()).norm()) * 180.0 /
                       M_PI));  //(-90.+90)
@@ -437,7 +465,11 @@ void LocalPlannerNodelet::pointCloudCallback(const sensor_msgs::PointCloud2::Con
 
 void LocalPlannerNodelet::dynamicReconfigureCallback(avoidance::LocalPlannerNodeConfig& config, uint32_t level) {
   std::lock_guard<std::mutex> guard(running_mutex_);
-  local_planner_->dynamicReconfigureSetParams(config, level);
+  {
+    // may change the height of the goal
+    std::lock_guard<std::mutex> lock(input_mutex_);
+    local_planner_->dynamicReconfigureSetParams(config, level);
+  }
   wp_generator_->setSmoothingSpeed(config.smoothing_speed_xy_, config.smoothing_speed_z_);
   rqt_param_config_ = config;
 }
@@ -471,8 +503,20 @@ void LocalPlannerNodelet::threadFunction() {
       updatePlannerInfo();
       local_planner_->runPlanner();
 
-      visualizer_.visualizePlannerData(*(local_planner_.get()), newest_waypoint_position_,
-                                       newest_adapted_waypoint_position_, newest_position_, newest_orientation_);
+      Eigen::Vector3f newest_waypoint_position, newest_adapted_waypoint_position, newest_position;
+      Eigen::Quaternionf newest_orientation;
+      {
+        std::lock_guard<std::mutex> lock(waypoints_mutex_);
+        newest_waypoint_position = newest_waypoint_position_;
+        newest_adapted_waypoint_position = newest_adapted_waypoint_position_;
+      }
+      {
+        std::lock_guard<std::mutex> lock(input_mutex_);
+        newest_position = newest_position_;
+        newest_orientation = newest_orientation_;
+      }
+      visualizer_.visualizePlannerData(*(local_planner_.get()), newest_waypoint_position,
+                                       newest_adapted_waypoint_position, newest_position, newest_orientation);
       publishLaserScan();
 
       std::lock_guard<std::mutex> lock(waypoints_mutex_);
-- 
2.43.0


From c5c89d88d5b5a51b5e3ba0083c1ddc2b16441d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:00 +0000
Subject: [PATCH 50/58] fix: change the waypoint generator's settings only
 between setpoints

---
 local_planner/src/nodes/local_planner_nodelet.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/local_planner/src/nodes/local_planner_nodelet.cpp b/local_planner/src/nodes/local_planner_nodelet.cpp
index d9ae513..c9c0ff0 100644
--- a/local_planner/src/nodes/local_planner_nodelet.cpp
+++ b/local_planner/src/nodes/local_planner_nodelet.cpp
@@ -161,6 +161,7 @@ size_t LocalPlannerNodelet::numTransformedClouds() {
 
 void LocalPlannerNodelet::updatePlannerInfo() {
   // update the point cloud
+  std::vector<FOV> fov_fcu_frame(cameras_.size());
   local_planner_->original_cloud_vector_.resize(cameras_.size());
   for (size_t i = 0; i < cameras_.size(); ++i) {
     std::lock_guard<std::mutex> transformed_cloud_guard(*(cameras_[i].camera_mutex_));
@@ -169,7 +170,7 @@ void LocalPlannerNodelet::updatePlannerInfo() {
       cameras_[i].transformed_cloud_.clear();
       cameras_[i].transformed_ = false;
       local_planner_->setFOV(i, cameras_[i].fov_fcu_frame_);
-      wp_generator_->setFOV(i, cameras_[i].fov_fcu_frame_);
+      fov_fcu_frame[i] = cameras_[i].fov_fcu_frame_;
     } catch (tf::TransformException& ex) {
       ROS_ERROR("Received an exception trying to transform a pointcloud: %s", ex.what());
     }
@@ -178,6 +179,7 @@ void LocalPlannerNodelet::updatePlannerInfo() {
   Eigen::Vector3f last_sent_waypoint;
   {
     std::lock_guard<std::mutex> lock(waypoints_mutex_);
+    for (size_t i = 0; i < cameras_.size(); ++i) wp_generator_->setFOV(i, fov_fcu_frame[i]);
     last_sent_waypoint = newest_waypoint_position_;
   }
 
@@ -470,6 +472,7 @@ void LocalPlannerNodelet::dynamicReconfigureCallback(avoidance::LocalPlannerNode
     std::lock_guard<std::mutex> lock(input_mutex_);
     local_planner_->dynamicReconfigureSetParams(config, level);
   }
+  std::lock_guard<std::mutex> lock(waypoints_mutex_);
   wp_generator_->setSmoothingSpeed(config.smoothing_speed_xy_, config.smoothing_speed_z_);
   rqt_param_config_ = config;
 }
-- 
2.43.0


From fe4237387962326f2e918dc0791d4770d6e94251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:00 +0000
Subject: [PATCH 51/58] fix: a cloud arriving just before a thread waits for it
 no longer waits for the next one

---
 .../src/nodes/local_planner_nodelet.cpp       | 22 ++++++++++++++-----
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/local_planner/src/nodes/local_planner_nodelet.cpp b/local_planner/src/nodes/local_planner_nodelet.cpp
index c9c0ff0..07b73b2 100644
--- a/local_planner/src/nodes/local_planner_nodelet.cpp
+++ b/local_planner/src/nodes/local_planner_nodelet.cpp
@@ -494,9 +494,12 @@ void LocalPlannerNodelet::threadFunction() {
   while (!should_exit_) {
     ros::Time start_time = ros::Time::now();
 
-    while ((cameras_.size() == 0 || cameras_.size() != numTransformedClouds()) && !should_exit_) {
+    {
+      // checked under the lock: a cloud getting ready just before the wait must not be missed
       std::unique_lock<std::mutex> lock(transformed_cloud_mutex_);
-      transformed_cloud_cv_.wait_for(lock, std::chrono::milliseconds(5000));
+      while ((cameras_.size() == 0 || cameras_.size() != numTransformedClouds()) && !should_exit_) {
+        transformed_cloud_cv_.wait_for(lock, std::chrono::milliseconds(5000));
+      }
     }
 
     if (should_exit_) break;
@@ -545,6 +548,7 @@ void LocalPlannerNodelet::pointCloudTransformThread(int index) {
   while (!should_exit_) {
     bool waiting_on_transform = false;
     bool waiting_on_cloud = false;
+    bool cloud_transformed = false;
     {
       std::lock_guard<std::mutex> camera_lock(*(cameras_[index].camera_mutex_));
 
@@ -574,8 +578,7 @@ void LocalPlannerNodelet::pointCloudTransformThread(int index) {
           cameras_[index].transformed_ = true;
           cameras_[index].received_ = false;
           waiting_on_cloud = true;
-          std::lock_guard<std::mutex> lock(transformed_cloud_mutex_);
-          transformed_cloud_cv_.notify_all();
+          cloud_transformed = true;
         } else {
           waiting_on_transform = true;
         }
@@ -584,16 +587,23 @@ void LocalPlannerNodelet::pointCloudTransformThread(int index) {
       }
     }
 
+    if (cloud_transformed) {
+      // without the camera lock, which the planner takes while it holds this one
+      std::lock_guard<std::mutex> lock(transformed_cloud_mutex_);
+      transformed_cloud_cv_.notify_all();
+    }
+
     if (should_exit_) {
       break;
     }
 
     if (waiting_on_transform) {
       std::unique_lock<std::mutex> lck(buffered_transforms_mutex_);
-      tf_buffer_cv_.wait_for(lck, std::chrono::milliseconds(5000));
+      if (!should_exit_) tf_buffer_cv_.wait_for(lck, std::chrono::milliseconds(5000));
     } else if (waiting_on_cloud) {
       std::unique_lock<std::mutex> lck(*(cameras_[index].camera_mutex_));
-      cameras_[index].camera_cv_->wait_for(lck, std::chrono::milliseconds(5000));
+      cameras_[index].camera_cv_->wait_for(lck, std::chrono::milliseconds(5000),
+                                           [&]() { return cameras_[index].received_ || should_exit_; });
     }
   }
 }
-- 
2.43.0


From 9e7f8273c23b74eea1b843ae6963aa8d9aa0b45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:00 +0000
Subject: [PATCH 52/58] fix: stop callbacks and timers of the local planner
 node before its members are destroyed

---
 avoidance/src/avoidance_node.cpp                  | 3 +++
 local_planner/src/nodes/local_planner_nodelet.cpp | 9 ++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/avoidance/src/avoidance_node.cpp b/avoidance/src/avoidance_node.cpp
index 2e1e986..147de45 100644
--- a/avoidance/src/avoidance_node.cpp
+++ b/avoidance/src/avoidance_node.cpp
@@ -16,6 +16,9 @@ AvoidanceNode::AvoidanceNode(const ros::NodeHandle& nh, const ros::NodeHandle& n
 }
 
 AvoidanceNode::~AvoidanceNode() {
+  // nothing may call back while the members are destroyed
+  px4_param_sub_.shutdown();
+  mission_sub_.shutdown();
   {
     std::lock_guard<std::mutex> lck(exit_mutex_);
     should_exit_ = true;
diff --git a/local_planner/src/nodes/local_planner_nodelet.cpp b/local_planner/src/nodes/local_planner_nodelet.cpp
index 07b73b2..01e5cb5 100644
--- a/local_planner/src/nodes/local_planner_nodelet.cpp
+++ b/local_planner/src/nodes/local_planner_nodelet.cpp
@@ -40,7 +40,14 @@ LocalPlannerNodelet::~LocalPlannerNodelet() {
   if (worker.joinable()) worker.join();
   if (worker_tf_listener.joinable()) worker_tf_listener.join();
 
+  // nothing may call back while the members are destroyed
   if (server_ != nullptr) delete server_;
+  if (cmdloop_spinner_) cmdloop_spinner_->stop();
+  for (size_t i = 0; i < cameras_.size(); ++i) cameras_[i].pointcloud_sub_.shutdown();
+  for (ros::Subscriber* sub : {&pose_sub_, &velocity_sub_, &state_sub_, &clicked_point_sub_, &clicked_goal_sub_,
+                               &fcu_input_sub_, &goal_topic_sub_, &distance_sensor_sub_}) {
+    sub->shutdown();
+  }
   if (tf_listener_ != nullptr) delete tf_listener_;
 }
 
@@ -249,7 +256,7 @@ void LocalPlannerNodelet::cmdLoopCallback(const ros::TimerEvent& event) {
   // Process callbacks & wait for a position update
   ros::Time start_query_position = ros::Time::now();
 
-  while (!position_received_ && ros::ok()) {
+  while (!position_received_ && ros::ok() && !should_exit_) {
     ros::getGlobalCallbackQueue()->callAvailable(ros::WallDuration(0.1));
     ros::Duration since_query = ros::Time::now() - start_query_position;
     double timeout_termination;
-- 
2.43.0


From aa0ec353a881fa7558f2e7fb76bf96f03c054707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:00 +0000
Subject: [PATCH 53/58] fix: companion status and mission speed are read and
 written by several threads

---
 avoidance/include/avoidance/avoidance_node.h | 4 ++--
 avoidance/src/avoidance_node.cpp             | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/avoidance/include/avoidance/avoidance_node.h b/avoidance/include/avoidance/avoidance_node.h
index 2dc93ab..85b3aa3 100644
--- a/avoidance/include/avoidance/avoidance_node.h
+++ b/avoidance/include/avoidance/avoidance_node.h
@@ -67,7 +67,7 @@ class AvoidanceNode {
   std::unique_ptr<ros::AsyncSpinner> cmdloop_spinner_;
   std::unique_ptr<ros::AsyncSpinner> statusloop_spinner_;
 
-  MAV_STATE companion_state_ = MAV_STATE::MAV_STATE_STANDBY;
+  std::atomic<MAV_STATE> companion_state_{MAV_STATE::MAV_STATE_STANDBY};
 
   ModelParameters px4_;  // PX4 Firmware paramters
   std::unique_ptr<std::mutex> param_cb_mutex_;
@@ -84,7 +84,7 @@ class AvoidanceNode {
   std::mutex exit_mutex_;
   std::condition_variable exit_cv_;
 
-  float mission_item_speed_;
+  std::atomic<float> mission_item_speed_;
 
   void cmdLoopCallback(const ros::TimerEvent& event);
   void statusLoopCallback(const ros::TimerEvent& event);
diff --git a/avoidance/src/avoidance_node.cpp b/avoidance/src/avoidance_node.cpp
index 147de45..fd55d23 100644
--- a/avoidance/src/avoidance_node.cpp
+++ b/avoidance/src/avoidance_node.cpp
@@ -64,7 +64,7 @@ void AvoidanceNode::publishSystemStatus() {
   mavros_msgs::CompanionProcessStatus status_msg;
   status_msg.header.stamp = ros::Time::now();
   status_msg.component = 196;  // MAV_COMPONENT_ID_AVOIDANCE
-  status_msg.state = (int)companion_state_;
+  status_msg.state = (int)companion_state_.load();
 
   mavros_system_status_pub_.publish(status_msg);
 }
-- 
2.43.0


From 7ea3bf54df6f2b603dd165b94fa90e9a5b2ad223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:38 +0000
Subject: [PATCH 54/58] fix: the global planner node's threads share its pose,
 velocity, flown path and map time under one lock and end before it

---
 .../global_planner/global_planner_node.h      |  3 ++
 .../src/nodes/global_planner_node.cpp         | 47 ++++++++++++++-----
 2 files changed, 39 insertions(+), 11 deletions(-)

diff --git a/global_planner/include/global_planner/global_planner_node.h b/global_planner/include/global_planner/global_planner_node.h
index 196fd9a..4bf62d9 100644
--- a/global_planner/include/global_planner/global_planner_node.h
+++ b/global_planner/include/global_planner/global_planner_node.h
@@ -97,6 +97,8 @@ class GlobalPlannerNode {
   geometry_msgs::PoseStamped current_goal_;
   geometry_msgs::PoseStamped last_goal_;
   geometry_msgs::PoseStamped last_pos_;
+  geometry_msgs::Vector3 last_vel_;                     ///< newest velocity, protected by setpoint_mutex_
+  std::vector<geometry_msgs::PoseStamped> new_poses_;  ///< poses the planner does not know, protected by setpoint_mutex_
 
   std::vector<geometry_msgs::PoseStamped> last_clicked_points;
   std::vector<geometry_msgs::PoseStamped> path_;
@@ -131,6 +133,7 @@ class GlobalPlannerNode {
   void popNextGoal();
   void planPath();
   void setIntermediateGoal();
+  void updatePlannerPose();
   bool isCloseToGoal();
   void setCurrentPath(const std::vector<geometry_msgs::PoseStamped>& poses);
   void dynamicReconfigureCallback(global_planner::GlobalPlannerNodeConfig& config, uint32_t level);
diff --git a/global_planner/src/nodes/global_planner_node.cpp b/global_planner/src/nodes/global_planner_node.cpp
index cba8b33..8e69e38 100644
--- a/global_planner/src/nodes/global_planner_node.cpp
+++ b/global_planner/src/nodes/global_planner_node.cpp
@@ -49,17 +49,11 @@ GlobalPlannerNode::GlobalPlannerNode(const ros::NodeHandle& nh, const ros::NodeH
                                          boost::bind(&GlobalPlannerNode::cmdLoopCallback, this, _1), &cmdloop_queue_);
   cmdloop_timer_ = nh_.createTimer(cmdlooptimer_options);
 
-  cmdloop_spinner_.reset(new ros::AsyncSpinner(1, &cmdloop_queue_));
-  cmdloop_spinner_->start();
-
   ros::TimerOptions plannerlooptimer_options(ros::Duration(plannerloop_dt_),
                                              boost::bind(&GlobalPlannerNode::plannerLoopCallback, this, _1),
                                              &plannerloop_queue_);
   plannerloop_timer_ = nh_.createTimer(plannerlooptimer_options);
 
-  plannerloop_spinner_.reset(new ros::AsyncSpinner(1, &plannerloop_queue_));
-  plannerloop_spinner_->start();
-
   current_goal_.header.frame_id = frame_id_;
   current_goal_.pose.position = start_pos_;
   current_goal_.pose.orientation = tf::createQuaternionMsgFromYaw(start_yaw_);
@@ -67,9 +61,19 @@ GlobalPlannerNode::GlobalPlannerNode(const ros::NodeHandle& nh, const ros::NodeH
 
   speed_ = global_planner_.default_speed_;
   start_time_ = ros::Time::now();
+
+  // Start the threads only once everything they use is set
+  cmdloop_spinner_.reset(new ros::AsyncSpinner(1, &cmdloop_queue_));
+  cmdloop_spinner_->start();
+  plannerloop_spinner_.reset(new ros::AsyncSpinner(1, &plannerloop_queue_));
+  plannerloop_spinner_->start();
 }
 
-GlobalPlannerNode::~GlobalPlannerNode() {}
+GlobalPlannerNode::~GlobalPlannerNode() {
+  // Stop the threads before the members they use are destroyed
+  cmdloop_spinner_->stop();
+  plannerloop_spinner_->stop();
+}
 
 // Read Ros parameters
 void GlobalPlannerNode::readParams() {
@@ -200,7 +204,18 @@ void GlobalPlannerNode::dynamicReconfigureCallback(global_planner::GlobalPlanner
 }
 
 void GlobalPlannerNode::velocityCallback(const geometry_msgs::TwistStamped& msg) {
-  global_planner_.curr_vel_ = msg.twist.linear;
+  std::lock_guard<std::mutex> lock(setpoint_mutex_);
+  last_vel_ = msg.twist.linear;
+}
+
+// Hands the poses and the velocity received since the last call over to the planner, mutex_ has to be held
+void GlobalPlannerNode::updatePlannerPose() {
+  std::lock_guard<std::mutex> lock(setpoint_mutex_);
+  for (const auto& pose : new_poses_) {
+    global_planner_.setPose(pose);
+  }
+  new_poses_.clear();
+  global_planner_.curr_vel_ = last_vel_;
 }
 
 // Sets the current position and checks if the current goal has been reached
@@ -208,7 +223,7 @@ void GlobalPlannerNode::positionCallback(const geometry_msgs::PoseStamped& msg)
   std::lock_guard<std::mutex> lock(setpoint_mutex_);
   // Update position
   last_pos_ = msg;
-  global_planner_.setPose(last_pos_);
+  new_poses_.push_back(msg);
 
   // Check if a new goal is needed
   if (num_pos_msg_++ % 10 == 0) {
@@ -243,6 +258,7 @@ void GlobalPlannerNode::positionCallback(const geometry_msgs::PoseStamped& msg)
 
 void GlobalPlannerNode::clickedPointCallback(const geometry_msgs::PointStamped& msg) {
   std::lock_guard<std::mutex> lock(mutex_);
+  updatePlannerPose();
   printPointInfo(msg.point.x, msg.point.y, msg.point.z);
 
   geometry_msgs::PoseStamped pose;
@@ -279,7 +295,10 @@ void GlobalPlannerNode::octomapFullCallback(const octomap_msgs::Octomap& msg) {
   if ((current - last_wp_time_).toSec() < mapupdate_dt_) {
     return;
   }
-  last_wp_time_ = ros::Time::now();
+  {
+    std::lock_guard<std::mutex> setpoint_lock(setpoint_mutex_);
+    last_wp_time_ = ros::Time::now();
+  }
 
   octomap::AbstractOcTree* tree = octomap_msgs::msgToMap(msg);
 
@@ -337,7 +356,11 @@ void GlobalPlannerNode::cmdLoopCallback(const ros::TimerEvent& event) {
   // Check if all information was received
   ros::Time now = ros::Time::now();
 
-  ros::Duration since_last_cloud = now - last_wp_time_;
+  ros::Duration since_last_cloud;
+  {
+    std::lock_guard<std::mutex> lock(setpoint_mutex_);
+    since_last_cloud = now - last_wp_time_;
+  }
   ros::Duration since_start = now - start_time_;
 
   avoidance_node_.checkFailsafe(since_last_cloud, since_start, hover_);
@@ -346,6 +369,7 @@ void GlobalPlannerNode::cmdLoopCallback(const ros::TimerEvent& event) {
 
 void GlobalPlannerNode::plannerLoopCallback(const ros::TimerEvent& event) {
   std::lock_guard<std::mutex> lock(mutex_);
+  updatePlannerPose();
   bool is_in_goal = global_planner_.goal_pos_.withinPositionRadius(global_planner_.curr_pos_);
   if (is_in_goal || global_planner_.goal_is_blocked_) {
     popNextGoal();
@@ -357,6 +381,7 @@ void GlobalPlannerNode::plannerLoopCallback(const ros::TimerEvent& event) {
   if (is_in_goal && !waypoints_.empty()) {
     ROS_INFO("Reached current goal %s, %d goals left\n\n", global_planner_.goal_pos_.asString().c_str(),
              (int)waypoints_.size());
+    std::lock_guard<std::mutex> setpoint_lock(setpoint_mutex_);
     ROS_INFO("Actual travel distance: %2.2f \t Actual energy usage: %2.2f", pathLength(actual_path_),
              pathEnergy(actual_path_, global_planner_.up_cost_));
   }
-- 
2.43.0


From 509b790acb87cc395ff13670faf4e4c889489df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:38 +0000
Subject: [PATCH 55/58] fix: end the landing planner's cycle before its node is
 destroyed, and without a grid when none came

---
 .../safe_landing_planner/safe_landing_planner_node.hpp      | 2 +-
 .../src/nodes/safe_landing_planner_node.cpp                 | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/safe_landing_planner/include/safe_landing_planner/safe_landing_planner_node.hpp b/safe_landing_planner/include/safe_landing_planner/safe_landing_planner_node.hpp
index c2164e3..fa6e214 100644
--- a/safe_landing_planner/include/safe_landing_planner/safe_landing_planner_node.hpp
+++ b/safe_landing_planner/include/safe_landing_planner/safe_landing_planner_node.hpp
@@ -84,7 +84,7 @@ class SafeLandingPlannerNode {
   SafeLandingPlannerVisualization visualizer_;
 
   bool position_received_ = false;
-  bool cloud_transformed_ = false;
+  std::atomic<bool> cloud_transformed_{false};  ///< set by the transform thread, polled by the planning cycle
   double spin_dt_ = 0.1;
 
   dynamic_reconfigure::Server<safe_landing_planner::SafeLandingPlannerNodeConfig> server_;
diff --git a/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp b/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
index 9a0befc..dcb2157 100644
--- a/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
+++ b/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
@@ -45,6 +45,8 @@ SafeLandingPlannerNode::~SafeLandingPlannerNode() {
   }
   cloud_ready_cv_->notify_all();
   worker_.join();
+  // the planning cycle must not run on while the members it uses are destroyed
+  cmdloop_spinner_->stop();
 }
 
 void SafeLandingPlannerNode::dynamicReconfigureCallback(safe_landing_planner::SafeLandingPlannerNodeConfig &config,
@@ -92,12 +94,14 @@ void SafeLandingPlannerNode::startNode() {
 void SafeLandingPlannerNode::cmdLoopCallback(const ros::TimerEvent &event) {
   status_msg_.state = static_cast<int>(avoidance::MAV_STATE::MAV_STATE_ACTIVE);
 
-  while (!cloud_transformed_ && ros::ok()) {
+  while (!cloud_transformed_ && !should_exit_ && ros::ok()) {
     ros::getGlobalCallbackQueue()->callAvailable(ros::WallDuration(0.1));
     ros::Time time = ros::Time::now();
     checkFailsafe(time - last_algo_time_, time - start_time_);
     if (time - t_status_sent_ > ros::Duration(0.2)) publishSystemStatus();
   }
+  // The node is stopped before there was anything to plan with
+  if (!cloud_transformed_) return;
 
   // Check if all information was received
   ros::Time now = ros::Time::now();
-- 
2.43.0


From 6c5617ac2d01df6937682ad4ef4d1f3561272596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:22:02 +0000
Subject: [PATCH 56/58] fix: plan without a line between goals when the
 previous goal is undefined

A goal with undefined position can be followed by a proper one. The projection
onto the line from the previous goal was then NaN, and with it the cost of
every direction: obstacles and goal no longer mattered until the next goal.
---
 local_planner/src/nodes/local_planner.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/local_planner/src/nodes/local_planner.cpp b/local_planner/src/nodes/local_planner.cpp
index 4317367..665b2c3 100644
--- a/local_planner/src/nodes/local_planner.cpp
+++ b/local_planner/src/nodes/local_planner.cpp
@@ -126,10 +126,10 @@ void LocalPlanner::determineStrategy() {
   closest_pt_.head<2>() = prev_goal_.head<2>() + (u_prev_to_goal * u_prev_to_goal.dot(prev_to_pos));
   closest_pt_.z() = goal_.z();
 
-  // if the vehicle is less than the cruise speed away from the line or if prev goal is the same as goal,
+  // if the vehicle is less than the cruise speed away from the line or if prev goal is undefined or the same as goal,
   // set the projection point to the goal such that the cost function doesn't pull the vehicle towards the line
   if ((position_ - closest_pt_).head<2>().norm() < px4_.param_mpc_xy_cruise ||
-      (goal_ - prev_goal_).head<2>().norm() < 0.001f) {
+      (goal_ - prev_goal_).head<2>().norm() < 0.001f || !prev_goal_.head<2>().allFinite()) {
     closest_pt_ = goal_;
   }
 
-- 
2.43.0


From 87d015b8ea6d16501fc472585ed91b4ef18c617d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:22:02 +0000
Subject: [PATCH 57/58] fix: remember only cells with finite points as occupied

Points with an infinite coordinate, or an undefined one other than x, were
converted to a cell (undefined conversion to int).
---
 global_planner/src/nodes/global_planner_node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global_planner/src/nodes/global_planner_node.cpp b/global_planner/src/nodes/global_planner_node.cpp
index 8e69e38..9528034 100644
--- a/global_planner/src/nodes/global_planner_node.cpp
+++ b/global_planner/src/nodes/global_planner_node.cpp
@@ -321,7 +321,7 @@ void GlobalPlannerNode::depthCameraCallback(const sensor_msgs::PointCloud2& msg)
     // Store the obstacle points
     std::lock_guard<std::mutex> lock(mutex_);
     for (const auto& p : cloud) {
-      if (!std::isnan(p.x)) {
+      if (std::isfinite(p.x) && std::isfinite(p.y) && std::isfinite(p.z)) {
         // TODO: Not all points end up here
         Cell occupied_cell(p.x, p.y, p.z);
         global_planner_.occupied_.insert(occupied_cell);
-- 
2.43.0


From 225c1e82c1962c6103fdf3f3464febaacbf664ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:41:57 +0000
Subject: [PATCH 58/58] fix: do not stop the node when the world file for the
 display is malformed

The exception of the YAML parser (or of reading a directory) left the timer
callback and ended the process.
---
 avoidance/src/rviz_world_loader.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/avoidance/src/rviz_world_loader.cpp b/avoidance/src/rviz_world_loader.cpp
index 8f1d0d4..9ecb60e 100644
--- a/avoidance/src/rviz_world_loader.cpp
+++ b/avoidance/src/rviz_world_loader.cpp
@@ -25,7 +25,11 @@ WorldVisualizer::WorldVisualizer(const ros::NodeHandle& nh, const std::string& n
 void WorldVisualizer::loopCallback(const ros::TimerEvent& event) {
   // visualize world in RVIZ
   if (!world_path_.empty()) {
-    if (visualizeRVIZWorld(world_path_)) ROS_WARN("[WorldVisualizer] Failed to visualize Rviz world");
+    try {
+      if (visualizeRVIZWorld(world_path_)) ROS_WARN("[WorldVisualizer] Failed to visualize Rviz world");
+    } catch (const std::exception& ex) {
+      ROS_WARN("[WorldVisualizer] Failed to read Rviz world: %s", ex.what());
+    }
   }
 }
 
-- 
2.43.0

