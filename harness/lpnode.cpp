// P19, P20: the local planner node: goals, modes and setpoints; the point cloud pipeline
#include <geom.h>
#include <local_planner/local_planner_nodelet.h>
#include <local_planner/local_planner.h>
#include <local_planner/planner_functions.h>
#include <local_planner/waypoint_generator.h>
#include <mavros_msgs/CompanionProcessStatus.h>
#include <std_msgs/UInt32.h>
#include <stdlib.h>
#include <unistd.h>
using namespace avoidance;
using namespace geom;

namespace {
const int ACTIVE = 4, CRITICAL = 5, TERMINATION = 8;
const char* kModes[] = {"AUTO.MISSION", "AUTO.TAKEOFF", "AUTO.LAND", "AUTO.RTL", "AUTO.RTGS", "AUTO.LOITER", "OFFBOARD", "MANUAL", "POSCTL", ""};
const NavigationState kNav[] = {NavigationState::mission, NavigationState::auto_takeoff, NavigationState::auto_land, NavigationState::auto_rtl, NavigationState::auto_rtgs,
                                NavigationState::auto_loiter, NavigationState::offboard, NavigationState::none, NavigationState::none, NavigationState::none};
typedef Eigen::Vector3f F3;
F3 nan3() { return F3(NAN, NAN, NAN); }
bool same(const F3& a, const F3& b, double tol = 1e-5) { for (int d = 0; d < 3; ++d) if (!pbt::sameOrBothNan(a[d], b[d], tol * (1 + std::fabs(b[d])))) return false; return true; }
F3 vec(const geometry_msgs::Point& p) { return F3(float(p.x), float(p.y), float(p.z)); }
F3 vec(const geometry_msgs::Vector3& p) { return F3(float(p.x), float(p.y), float(p.z)); }
geometry_msgs::Point pt(const F3& v) { geometry_msgs::Point p; p.x = v.x(); p.y = v.y(); p.z = v.z(); return p; }
Eigen::Quaternionf quat(pbt::Src& s) {
  Eigen::Quaternionf q = Eigen::AngleAxisf(s.sf(3.1f), F3::UnitZ()) * Eigen::AngleAxisf(s.sf(0.3f), F3::UnitY()) * Eigen::AngleAxisf(s.sf(0.2f), F3::UnitX());
  return q;
}
geometry_msgs::PoseStamped poseMsg(const F3& p, const Eigen::Quaternionf& q) {
  geometry_msgs::PoseStamped m;
  m.header.frame_id = "local_origin";
  m.header.stamp = ros::Time::now();
  m.pose.position = pt(p);
  m.pose.orientation.x = q.x(); m.pose.orientation.y = q.y(); m.pose.orientation.z = q.z(); m.pose.orientation.w = q.w();
  return m;
}
struct Scene {  // a few obstacles around a point
  std::vector<pcl::PointCloud<pcl::PointXYZ>> clouds;
};
pcl::PointCloud<pcl::PointXYZ> cloud(pbt::Src& s, const F3& around, int n, double far) {
  pcl::PointCloud<pcl::PointXYZ> c;
  for (int k = 0; k < n; ++k) {
    V3 d = s.d(0.5, far) * dirHist(s.sd(60), s.sd(180));
    c.push_back(pcl::PointXYZ(around.x() + float(d.x()), around.y() + float(d.y()), around.z() + float(d.z())));
  }
  c.header.frame_id = "local_origin";
  return c;
}
void smallTree(LocalPlannerNodeConfig& c, pbt::Src& s) {
  c.n_expanded_nodes_ = s.i(1, 8);
  c.children_per_node_ = s.i(1, 4);
  c.tree_node_distance_ = s.d(0.5, 3);
  c.max_sensor_range_ = s.d(5, 20);
  c.min_num_points_per_cell_ = 1;
}
std::string show(const avoidanceOutput& o) {
  std::string r = "v " + pbt::str(o.cruise_velocity) + " path made " + pbt::str(o.last_path_time.toSec()) + ":";
  for (auto& p : o.path_node_positions) r += sv(p);
  return r;
}
bool samePlan(const avoidanceOutput& a, const avoidanceOutput& b) {
  if (!pbt::sameOrBothNan(a.cruise_velocity, b.cruise_velocity, 1e-5) || a.last_path_time != b.last_path_time || a.path_node_positions.size() != b.path_node_positions.size()) return false;
  for (size_t k = 0; k < a.path_node_positions.size(); ++k) if (!same(a.path_node_positions[k], b.path_node_positions[k], 1e-4)) return false;
  return true;
}
void checkSetpoint(const waypointResult& w, const std::string& tr) {
  auto p = shim::published<geometry_msgs::PoseStamped>("mavros/setpoint_position/local");
  auto t = shim::published<mavros_msgs::Trajectory>("mavros/trajectory/generated");
  CHECK(p.size() == 1 && t.size() == 1, p.size() << " position setpoints and " << t.size() << " trajectories in one active cycle:" << tr);
  CHECK(same(vec(p[0].pose.position), w.position_wp), "position setpoint " << sv(vec(p[0].pose.position)) << ", expected " << sv(w.position_wp) << ":" << tr);
  Eigen::Quaternionf q(float(p[0].pose.orientation.w), float(p[0].pose.orientation.x), float(p[0].pose.orientation.y), float(p[0].pose.orientation.z));
  CHECK(std::fabs(q.dot(w.orientation_wp)) > 1 - 1e-4, "orientation setpoint:" << tr);
  double yaw = std::atan2(2.0 * (q.w() * q.z() + q.x() * q.y()), 1 - 2.0 * (q.y() * q.y() + q.z() * q.z()));
  CHECK(same(vec(t[0].point_1.position), w.position_wp), "trajectory position " << sv(vec(t[0].point_1.position)) << ", expected " << sv(w.position_wp) << ":" << tr);
  CHECK(same(vec(t[0].point_1.velocity), w.linear_velocity_wp), "trajectory velocity " << sv(vec(t[0].point_1.velocity)) << ", expected " << sv(w.linear_velocity_wp) << ":" << tr);
  CHECK(std::fabs(wrapPi(t[0].point_1.yaw - yaw)) < 1e-4, "trajectory yaw " << t[0].point_1.yaw << ", expected " << yaw << ":" << tr);
  CHECK(t[0].point_valid[0] && !t[0].point_valid[1] && !t[0].point_valid[2] && !t[0].point_valid[3] && !t[0].point_valid[4], "validity of the trajectory points:" << tr);
}
struct ParamName { const char* n; float ModelParameters::*f; };
const ParamName kParams[] = {{"MPC_XY_CRUISE", &ModelParameters::param_mpc_xy_cruise}, {"CP_DIST", &ModelParameters::param_cp_dist}, {"MPC_ACC_HOR", &ModelParameters::param_mpc_acc_hor},
                             {"MPC_JERK_MAX", &ModelParameters::param_mpc_jerk_max}, {"MPC_Z_VEL_MAX_UP", &ModelParameters::param_mpc_z_vel_max_up}};
}  // namespace

// ------------------------------------------------------------------ P19
FACET(P19, goals_and_setpoints, 1500, 30000, "histories of 3-40 vehicle poses, velocities, modes, goals from every source, parameters, planning rounds and 0.1 s cycles of a node without cameras; non-trivial when the goal changed and at least one planning round and two active cycles ran") {
  shim::dropAll();
  shim::setNow(s.pick(std::vector<double>{50.0, 1.6e9}));
  F3 goal = pos3(s, 20);
  bool accept = s.b();
  shim::setParam("goal_x_param", double(goal.x()));
  shim::setParam("goal_y_param", double(goal.y()));
  shim::setParam("goal_z_param", double(goal.z()));
  shim::setParam("accept_goal_input_topic", accept);
  // placed on memory with a pattern: nothing may depend on it
  void* mem = ::operator new(sizeof(LocalPlannerNodelet));
  memset(mem, s.b() ? 0x47 : 0xC1, sizeof(LocalPlannerNodelet));
  std::unique_ptr<LocalPlannerNodelet, void (*)(LocalPlannerNodelet*)> node(new (mem) LocalPlannerNodelet, [](LocalPlannerNodelet* n) { n->~LocalPlannerNodelet(); ::operator delete(n); });
  node->InitializeNodelet();
  node->startNode();
  ros::Time start = ros::Time::now();
  LocalPlanner ref;
  WaypointGenerator gen;
  {
    LocalPlannerNodeConfig c = LocalPlannerNodeConfig::__getDefault__();
    smallTree(c, s);
    c.goal_z_param = 0;  // the height the planner starts with: no change
    LocalPlannerNodeConfig c2 = c;
    node->local_planner_->dynamicReconfigureSetParams(c, ~0u);
    ref.dynamicReconfigureSetParams(c2, ~0u);
    FOV v(0.f, 0.f, 360.f, 180.f);
    node->local_planner_->setFOV(0, v);
    ref.setFOV(0, v);
  }
  F3 pos = F3::Zero(), vel = F3::Zero(), prev = F3::Zero(), desired = nan3(), nextItem = F3::Zero();
  Eigen::Quaternionf q = Eigen::Quaternionf::Identity();
  double plannerZ = 0;
  bool armed = false, land = false, takeoff = false, havePose = false, changed = false, stale = true;
  int mode = 7, rounds = 0, active = 0;
  std::map<std::string, double> par;
  std::string tr = " start goal " + sv(goal);
  int n = s.i(3, 40);
  auto pose = [&] {
    if (s.b(1, 4)) pos = pos3(s, 20); else pos += 0.3f * pos3(s, 1);
    if (s.b(1, 3)) q = quat(s);
    tr += " pose " + sv(pos);
    shim::deliver("mavros/local_position/pose", poseMsg(pos, q));
  };
  auto newGoal = [&](const F3& g) { prev = goal; goal = g; changed = stale = true; };
  for (int k = 0; k < n; ++k) {
    switch (s.w({5, 2, 3, 1, 2, 2, 4, 1, 1, 4, 8})) {
      case 0: pose(); havePose = true; break;
      case 1: {
        vel = s.b(1, 5) ? F3(0, 0, 0) : pos3(s, 3);
        geometry_msgs::TwistStamped m;
        m.twist.linear.x = vel.x(); m.twist.linear.y = vel.y(); m.twist.linear.z = vel.z();
        tr += " v " + sv(vel);
        shim::deliver("mavros/local_position/velocity_local", m);
        break;
      }
      case 2: {
        armed = s.b(3, 4);
        mode = s.i(0, 9);
        mavros_msgs::State m;
        m.armed = armed;
        m.mode = kModes[mode];
        tr += std::string(" mode ") + kModes[mode] + (armed ? "" : " disarmed");
        shim::deliver("mavros/state", m);
        break;
      }
      case 3: { geometry_msgs::PointStamped m; m.point = pt(pos3(s, 30)); tr += " click"; shim::deliver("clicked_point", m); break; }
      case 4: {
        F3 g = pos3(s, 20);
        shim::deliver("move_base_simple/goal", poseMsg(g, quat(s)));
        g.z() = float(plannerZ);
        tr += " goal clicked " + sv(g);
        newGoal(g);
        break;
      }
      case 5: {
        visualization_msgs::MarkerArray m;
        for (int j = s.i(0, 2); j > 0; --j) { visualization_msgs::Marker a; a.pose.position = pt(pos3(s, 20)); m.markers.push_back(a); }
        tr += " goal topic " + (m.markers.empty() ? std::string("empty") : sv(vec(m.markers[0].pose.position)));
        shim::deliver("input/goal_position", m);
        if (accept && !m.markers.empty()) newGoal(vec(m.markers[0].pose.position));
        break;
      }
      case 6: {
        mavros_msgs::Trajectory m;
        F3 p1 = pos3(s, 20), v1 = s.b() ? nan3() : pos3(s, 3), p2 = nextItem;
        int w = s.w({3, 2, 2, 1});
        if (w == 1) p2 = pos3(s, 30); else if (w == 2) p2 = nextItem + F3(s.sf(0.03f), s.sf(0.03f), s.sf(0.03f)); else if (w == 3) p2 = goal;
        if (s.b(1, 12)) p1 = nan3();
        double d = (p2 - nextItem).norm();
        if (std::fabs(d - 0.01) < 2e-4) p2 = nextItem, d = 0;
        m.point_1.position = pt(p1);
        m.point_1.velocity.x = v1.x(); m.point_1.velocity.y = v1.y(); m.point_1.velocity.z = v1.z();
        m.point_2.position = pt(p2);
        m.point_2.yaw = s.f(-3, 3);
        bool one = s.b(3, 4), two = s.b(3, 4);
        m.point_valid[0] = one; m.point_valid[1] = two;
        m.command[0] = s.pick(std::vector<uint16_t>{16, 21, 22, 65535});
        m.command[1] = s.pick(std::vector<uint16_t>{16, 21, 65535});
        tr += " desired " + (one ? sv(p1) : std::string("-")) + " then " + (two ? sv(p2) : std::string("-")) + " cmd " + pbt::str(m.command[0]) + "," + pbt::str(m.command[1]);
        shim::deliver("mavros/trajectory/desired", m);
        if (one && (d > 0.01 || !std::isfinite(goal.x()) || !std::isfinite(goal.y()))) {
          newGoal(p1);
          desired = v1;
          land = m.command[0] == 21;
          takeoff = m.command[0] == 22;
        }
        if (two) {
          nextItem = p2;
          if (m.command[1] == 65535) { if (!same(goal, p2, 0)) changed = stale = true; goal = p2; desired = nan3(); }
        }
        break;
      }
      case 7: {
        mavros_msgs::Altitude m;
        m.bottom_clearance = s.b() ? NAN : s.f(0, 10);
        shim::deliver("mavros/altitude", m);
        break;
      }
      case 8: {
        const ParamName& p = kParams[s.i(0, 4)];
        mavros_msgs::Param m;
        m.param_id = p.n;
        m.value.real = s.f(0.5f, 8);
        par[p.n] = float(m.value.real);
        tr += std::string(" ") + p.n + "=" + pbt::str(m.value.real);
        shim::deliver("mavros/param/param_value", m);
        break;
      }
      case 9: {  // a planning round
        if (!goal.allFinite() || !pos.allFinite()) break;
        auto cl = cloud(s, pos, s.i(0, 5), 6);
        node->updatePlannerInfo();
        node->local_planner_->original_cloud_vector_.assign(1, cl);
        node->local_planner_->runPlanner();
        tr += " round";
        ref.original_cloud_vector_.assign(1, cl);
        ref.setState(pos, vel, q);
        ref.setGoal(goal);
        if (stale) ref.setPreviousGoal(prev);
        stale = false;
        plannerZ = goal.z();
        ref.px4_ = node->avoidance_node_->getPX4Parameters();
        ref.mission_item_speed_ = node->avoidance_node_->getMissionItemSpeed();
        ref.runPlanner();
        CHECK(same(node->local_planner_->getGoal(), goal), "the planner's goal is " << sv(node->local_planner_->getGoal()) << ", commanded " << sv(goal) << ":" << tr);
        CHECK(same(node->local_planner_->getPosition(), pos), "the planner's position is " << sv(node->local_planner_->getPosition()) << ", last pose " << sv(pos) << ":" << tr);
        CHECK(node->local_planner_->currently_armed_ == armed, "the planner's arming state:" << tr);
        for (auto& p : kParams) if (par.count(p.n)) CHECK(pbt::near(node->local_planner_->px4_.*p.f, par[p.n], 1e-6), "the planner's " << p.n << " is " << node->local_planner_->px4_.*p.f << ", last value " << par[p.n] << ":" << tr);
        CHECK(pbt::sameOrBothNan(node->local_planner_->mission_item_speed_, ref.mission_item_speed_, 0), "mission speed:" << tr);
        avoidanceOutput a = node->local_planner_->getAvoidanceOutput(), b = ref.getAvoidanceOutput();
        CHECK(samePlan(a, b), "the round planned " << show(a) << "; from the last pose, velocity, goals and limits it would be " << show(b) << ":" << tr);
        node->wp_generator_->setPlannerInfo(a);
        gen.setPlannerInfo(b);
        ++rounds;
        break;
      }
      default: {  // a cycle
        if (!goal.allFinite()) break;
        shim::advance(s.b(1, 10) ? s.d(0.1, 6) : 0.1);
        int calls = 0, after = havePose ? 0 : s.b(1, 12) ? s.i(195, 205) : s.i(1, 4);
        double t0 = ros::Time::now().toSec();
        bool wrong = false, told = false;
        shim::onCallAvailable() = [&](double d) {
          double waited = ros::Time::now().toSec() - t0;
          int st = int(node->getSystemStatus());
          if (waited > 20.35 && st != TERMINATION) wrong = true;
          if (waited > 20.35) told = true;
          shim::advance(std::max(d, 0.01));
          if (++calls >= after) { pose(); havePose = true; }
        };
        shim::clearPublished();
        tr += " cycle";
        shim::fireTimers(0.1);
        shim::onCallAvailable() = nullptr;
        (void)told;
        CHECK(!wrong, "no position for more than 20 s and no flight termination:" << tr);
        CHECK(havePose, "the cycle ended without a position:" << tr);
        CHECK(calls == after, "the cycle waited for " << calls << " callbacks, the position came with the " << after << "th:" << tr);
        havePose = false;
        double since = (ros::Time::now() - start).toSec();
        if (std::fabs(since - 5) < 1e-3 || std::fabs(since - 15) < 1e-3) { pbt::label("ended at a threshold"); k = n; break; }
        int want = since > 15 ? TERMINATION : since > 5 ? CRITICAL : ACTIVE, st = int(node->getSystemStatus());
        CHECK(st == want, "status " << st << " " << since << " s after start without clouds, expected " << want << ":" << tr);
        if (want == ACTIVE) {
          gen.updateState(pos, q, goal, prev, vel, false, armed && kNav[mode] != NavigationState::none, kNav[mode], land, takeoff, desired);
          waypointResult w = gen.getWaypoints();
          checkSetpoint(w, tr);
          ++active;
        } else {
          CHECK(shim::published<geometry_msgs::PoseStamped>("mavros/setpoint_position/local").empty() && shim::published<mavros_msgs::Trajectory>("mavros/trajectory/generated").empty(), "setpoints are sent while the status is " << st << ":" << tr);
        }
      }
    }
    NOTE(tr);
  }
  pbt::nontrivial(changed && rounds > 0 && active >= 2);
}

// ------------------------------------------------------------------ P20
namespace {
tf::Transform randTf(pbt::Src& s, double m) {
  tf::Quaternion q;
  q.setRPY(s.sd(0.5), s.sd(0.5), s.sd(3.1));
  return tf::Transform(q, tf::Vector3(s.sd(m), s.sd(m), s.sd(m)));
}
sensor_msgs::PointCloud2 cloudMsg(const std::vector<F3>& p, const std::string& frame, const ros::Time& t, int rows) {
  sensor_msgs::PointCloud2 m;
  m.header.frame_id = frame;
  m.header.stamp = t;
  m.height = uint32_t(rows);
  m.width = uint32_t(p.size()) / m.height;
  const char* n[] = {"x", "y", "z"};
  for (int i = 0; i < 3; ++i) { sensor_msgs::PointField f; f.name = n[i]; f.offset = uint32_t(4 * i); f.datatype = 7; f.count = 1; m.fields.push_back(f); }
  m.point_step = 16;
  m.row_step = m.point_step * m.width;
  m.data.assign(m.row_step * m.height, 0);
  for (size_t i = 0; i < p.size(); ++i) memcpy(&m.data[i * 16], p[i].data(), 12);
  m.is_dense = false;
  return m;
}
struct Snap { double t; tf::Transform tr; };
struct Pending { bool have = false; ros::Time t; std::vector<F3> pts; tf::Transform world, body; };
struct Cam {
  std::string topic, frame;
  bool registered = false, ambiguous = false;
  std::vector<Snap> world, body;  // buffered transforms
  Pending raw, ready, older;      // received; transformed; what was transformed before and may have been replaced
  FOV fov;
};
bool covered(const std::vector<Snap>& b, double t) { return b.size() >= 2 && b.front().t <= t && b.back().t >= t; }
tf::Transform interp(const std::vector<Snap>& b, double t) {
  size_t i = 1;
  while (i + 1 < b.size() && b[i].t < t) ++i;
  double a = (t - b[i - 1].t) / (b[i].t - b[i - 1].t);
  return tf::Transform(b[i - 1].tr.getRotation().slerp(b[i].tr.getRotation(), a), b[i - 1].tr.getOrigin() * (1 - a) + b[i].tr.getOrigin() * a);
}
bool waitFor(const std::function<bool()>& f, double seconds) {
  for (double t = 0; t < seconds; t += 0.001) { if (f()) return true; usleep(1000); }
  return f();
}
std::vector<F3> valid(const std::vector<F3>& p) { std::vector<F3> r; for (auto& v : p) if (v.allFinite()) r.push_back(v); return r; }
}  // namespace
FACET(P20, clouds_to_setpoints, 500, 6000, "a node with 1-3 cameras and its threads: 8-45 clouds (any points, some invalid), transforms, poses, cycles and pauses in any order; non-trivial when at least two planning rounds ran") {
  shim::dropAll();
  shim::clearTf();
  shim::setNow(1000.0);
  shim::sleepAdvances() = false;
  shim::longestSleep() = 0;
  int nc = s.w({3, 2, 1}) + 1;
  std::vector<Cam> cam(static_cast<size_t>(nc));
  std::vector<std::string> topics;
  for (int k = 0; k < nc; ++k) {
    cam[size_t(k)].topic = "cam" + pbt::str(k) + "/points";
    cam[size_t(k)].frame = "cam" + pbt::str(k) + "_frame";
    cam[size_t(k)].fov = FOV();
    topics.push_back(cam[size_t(k)].topic);
  }
  F3 goal = pos3(s, 20);
  shim::setParam("goal_x_param", double(goal.x()));
  shim::setParam("goal_y_param", double(goal.y()));
  shim::setParam("goal_z_param", double(goal.z()));
  shim::setParam("accept_goal_input_topic", false);
  shim::setParam("lp/pointcloud_topics", topics);
  std::unique_ptr<LocalPlannerNodelet> node(new LocalPlannerNodelet);
  node->init("lp");
  struct Off { ~Off() { shim::sleepAdvances() = true; shim::setParam("lp/pointcloud_topics", std::vector<std::string>()); } } off;
  double start = ros::Time::now().toSec(), lastRound = 0;
  LocalPlanner ref;
  WaypointGenerator gen;
  LocalPlannerNodeConfig c = LocalPlannerNodeConfig::__getDefault__();
  smallTree(c, s);
  c.goal_z_param = goal.z();
  c.smoothing_speed_xy_ = s.d(1, 20);
  c.smoothing_speed_z_ = s.d(1, 20);
  CHECK(shim::reconfigure(c) == 1, "the node does not listen to reconfiguration");
  ref.dynamicReconfigureSetParams(c, ~0u);
  gen.setSmoothingSpeed(float(c.smoothing_speed_xy_), float(c.smoothing_speed_z_));
  mavros_msgs::Param pm;
  pm.param_id = "CP_DIST";
  double cp = s.pick(std::vector<double>{-1, 0, 3});
  pm.value.real = cp;
  shim::deliver("mavros/param/param_value", pm);
  F3 pos = pos3(s, 10), vel = F3::Zero();
  Eigen::Quaternionf q = quat(s);
  shim::deliver("mavros/local_position/pose", poseMsg(pos, q));
  mavros_msgs::State sm;
  sm.armed = true;
  sm.mode = "AUTO.MISSION";
  shim::deliver("mavros/state", sm);
  bool havePose = true, hover = false, firstRound = true;
  int rounds = 0, n = s.i(8, 45);
  std::string tr;
  auto rel = [&] { return ros::Time::now().toSec() - 1000.0; };
  // what the threads have to get done now
  auto settle = [&] {
    NOTE(nc << " cameras, CP_DIST " << cp << tr);
    size_t ready = 0;
    bool replaced = false;
    for (auto& k : cam) {
      if (k.raw.have && covered(k.world, k.raw.t.toSec()) && covered(k.body, k.raw.t.toSec())) {
        if (k.ready.have) { k.older = k.ready; replaced = true; }
        k.ready = k.raw;
        k.ready.world = interp(k.world, k.raw.t.toSec());
        k.ready.body = interp(k.body, k.raw.t.toSec());
        k.raw.have = false;
      }
      ready += k.ready.have;
    }
    if (ready < cam.size()) {
      if (!replaced) CHECK(waitFor([&] { return node->numTransformedClouds() >= ready; }, 15), node->numTransformedClouds() << " of " << ready << " clouds are transformed, although their transforms are there:" << tr);
      usleep(replaced ? 8000 : 300);
      size_t have = node->numTransformedClouds();
      CHECK(have == ready, have << " clouds are transformed, expected " << ready << ":" << tr);
      CHECK(shim::published<std_msgs::UInt32>("pointcloud_size").empty(), "a planning round without a new cloud from every camera:" << tr);
      return;
    }
    CHECK(waitFor([&] { return !shim::published<std_msgs::UInt32>("pointcloud_size").empty(); }, 15), "every camera has a new transformed cloud and no planning round follows:" << tr);
    tr += " ROUND";
    {
      std::lock_guard<std::mutex> l(node->running_mutex_);
      auto& got = node->local_planner_->original_cloud_vector_;
      CHECK(got.size() == cam.size(), got.size() << " clouds for " << cam.size() << " cameras:" << tr);
      for (size_t k = 0; k < cam.size(); ++k) {
        auto fits = [&](const Pending& p) {
          if (!p.have) return false;
          std::vector<F3> v = valid(p.pts);
          if (got[k].size() != v.size()) return false;
          const tf::Transform& t = p.world;
          for (size_t j = 0; j < v.size(); ++j) {
            tf::Vector3 e = t * tf::Vector3(v[j].x(), v[j].y(), v[j].z());
            if ((F3(float(e.x()), float(e.y()), float(e.z())) - got[k][j].getVector3fMap()).norm() > 1e-3 * (1 + v[j].norm())) return false;
          }
          return true;
        };
        bool isNew = fits(cam[k].ready), isOld = !isNew && fits(cam[k].older);
        CHECK(isNew || isOld, "the planner's cloud of camera " << k << " is not its latest cloud in the world frame (" << got[k].size() << " points, " << valid(cam[k].ready.pts).size() << " expected):" << tr);
        // the view grows with what was seen
        auto grow = [&](const Pending& p) {
          pcl::PointCloud<pcl::PointXYZ> raw;
          for (auto& v : p.pts) raw.push_back(pcl::PointXYZ(v.x(), v.y(), v.z()));
          auto m = removeNaNAndGetMaxima(raw);
          const tf::Transform& t = p.body;
          for (auto& x : m.points) { tf::Vector3 e = t * tf::Vector3(x.x, x.y, x.z); x = pcl::PointXYZ(float(e.x()), float(e.y()), float(e.z())); }
          updateFOVFromMaxima(cam[k].fov, m);
        };
        if (cam[k].older.have) grow(cam[k].older);
        if (isNew) grow(cam[k].ready);
        const auto& fv = node->local_planner_->getFOV();
        CHECK(fv.size() == cam.size(), fv.size() << " fields of view:" << tr);
        bool near = std::fabs(fv[k].h_fov_deg - cam[k].fov.h_fov_deg) < 0.1 && std::fabs(fv[k].v_fov_deg - cam[k].fov.v_fov_deg) < 0.1 &&
                    (cam[k].fov.h_fov_deg < 0.5 || circ(fv[k].yaw_deg, cam[k].fov.yaw_deg) < 0.1) && (cam[k].fov.v_fov_deg < 0.5 || std::fabs(fv[k].pitch_deg - cam[k].fov.pitch_deg) < 0.1);
        if (cam[k].older.have || cam[k].ambiguous) { cam[k].fov = fv[k]; cam[k].ambiguous = true; }
        else CHECK(near, "field of view of camera " << k << ": yaw " << fv[k].yaw_deg << " pitch " << fv[k].pitch_deg << " " << fv[k].h_fov_deg << "x" << fv[k].v_fov_deg << ", expected yaw " << cam[k].fov.yaw_deg << " pitch " << cam[k].fov.pitch_deg << " " << cam[k].fov.h_fov_deg << "x" << cam[k].fov.v_fov_deg << ":" << tr);
      }
      // the same round on a planner of our own
      ref.original_cloud_vector_ = got;
      for (size_t k = 0; k < cam.size(); ++k) { ref.setFOV(int(k), node->local_planner_->getFOV()[k]); gen.setFOV(int(k), node->local_planner_->getFOV()[k]); }
      ref.setState(pos, vel, q);
      if (firstRound) { ref.setGoal(goal); ref.setPreviousGoal(F3::Zero()); firstRound = false; }
      ref.px4_ = node->avoidance_node_->getPX4Parameters();
      ref.mission_item_speed_ = node->avoidance_node_->getMissionItemSpeed();
      ref.runPlanner();
      avoidanceOutput a = node->local_planner_->getAvoidanceOutput(), b = ref.getAvoidanceOutput();
      CHECK(same(node->local_planner_->getPosition(), pos), "the planner's position:" << tr);
      CHECK(samePlan(a, b), "the round planned " << show(a) << "; from the clouds, pose and goal it would be " << show(b) << ":" << tr);
      gen.setPlannerInfo(b);
      auto scans = shim::published<sensor_msgs::LaserScan>("mavros/obstacle/send");
      if (cp < 0) CHECK(scans.empty(), "obstacle distances are sent although they are disabled:" << tr);
      else {
        CHECK(scans.size() == 1, scans.size() << " obstacle distance messages in a round:" << tr);
        sensor_msgs::LaserScan w;
        ref.getObstacleDistanceData(w);
        CHECK(scans[0].ranges.size() == w.ranges.size(), "size of the distance message:" << tr);
        for (size_t j = 0; j < w.ranges.size(); ++j) CHECK(pbt::sameOrBothNan(scans[0].ranges[j], w.ranges[j], 1e-3), "distance " << j << " is " << scans[0].ranges[j] << ", expected " << w.ranges[j] << ":" << tr);
      }
    }
    lastRound = ros::Time::now().toSec();
    for (auto& k : cam) k.ready.have = k.older.have = false;
    usleep(300);
    CHECK(shim::published<std_msgs::UInt32>("pointcloud_size").size() == 1, "more than one planning round for the same clouds:" << tr);
    shim::clearPublished();
    ++rounds;
  };
  for (int k = 0; k < n; ++k) {
    switch (s.w({6, 5, 2, 4})) {
      case 0: {  // a cloud
        Cam& m = cam[size_t(s.i(0, nc - 1))];
        if (m.older.have) break;
        std::vector<F3> p;
        int rows = s.b(1, 4) ? 2 : 1;
        int np = s.i(0, 6) * rows;
        for (int j = 0; j < np; ++j) {
          F3 v(s.f(0.5f, 8), s.sf(5), s.sf(4));  // in front of the camera
          if (s.b(1, 5)) v[s.i(0, 2)] = s.b() ? NAN : INFINITY;
          p.push_back(v);
        }
        double age = s.b() ? 0 : s.d(0, 1.5);
        ros::Time t = ros::Time::now() - ros::Duration(std::round(age * 100) / 100 + 0.000001 * s.i(0, 3));
        t.fromNSec(t.toNSec() / 1000 * 1000);
        tr += " cloud(" + m.topic.substr(0, 4) + " t " + pbt::str(t.toSec() - 1000) + " " + pbt::str(np) + " pts)";
        bool ignored = m.raw.have && (t - m.raw.t).toSec() < 0.3;
        if (m.raw.have && std::fabs((t - m.raw.t).toSec() - 0.3) < 1e-3) break;
        CHECK(shim::deliver(m.topic, cloudMsg(p, m.frame, t, rows)) == 1, "nobody listens to camera " << m.topic);
        m.registered = true;
        if (!ignored) { m.raw.have = true; m.raw.t = t; m.raw.pts = p; }
        settle();
        break;
      }
      case 1: {  // transforms
        shim::advance(s.d(0.01, 0.4));
        ros::Time t = ros::Time::now();
        std::vector<std::pair<std::string, std::string>> reg;
        for (auto& m : cam) {
          if (!m.registered) continue;
          tf::Transform w = randTf(s, 5), b = randTf(s, 0.3);
          shim::setTf("local_origin", m.frame, w, t);
          shim::setTf("fcu", m.frame, b, t);
          m.world.push_back({t.toSec(), w});
          m.body.push_back({t.toSec(), b});
          while (t.toSec() - m.world.front().t > 5) { m.world.erase(m.world.begin()); m.body.erase(m.body.begin()); }
          reg.push_back({"local_origin", m.frame});
          reg.push_back({"fcu", m.frame});
        }
        tr += " tf(" + pbt::str(rel()) + ")";
        for (auto& r : reg) CHECK(waitFor([&] { return shim::tfReadCount(r.first, r.second) >= 2; }, 15), "the transform from " << r.second << " to " << r.first << " is not read:" << tr);
        settle();
        break;
      }
      case 2:
        if (s.b()) shim::advance(s.b(1, 6) ? s.d(0.3, 18) : s.d(0.01, 0.6));
        pos += 0.5f * pos3(s, 1);
        q = quat(s);
        shim::deliver("mavros/local_position/pose", poseMsg(pos, q));
        havePose = true;
        tr += " pose";
        break;
      default: {
        if (!havePose) break;
        shim::clearPublished();
        double now = ros::Time::now().toSec(), dc = now - lastRound, ds = now - start;
        if (std::fabs(dc - 0.5) < 1e-3 || std::fabs(dc - 15) < 1e-3 || std::fabs(ds - 5) < 1e-3 || std::fabs(ds - 15) < 1e-3) break;
        tr += " cycle(" + pbt::str(rel()) + ")";
        NOTE(nc << " cameras, CP_DIST " << cp << tr);
        shim::fireTimers(0.1);
        havePose = false;
        int want = dc > 15 && ds > 15 ? TERMINATION : dc > 0.5 && ds > 5 ? CRITICAL : ACTIVE, st = int(node->getSystemStatus());
        (void)hover;
        CHECK(st == want, "status " << st << " " << dc << " s after the last planning round and " << ds << " s after start, expected " << want << ":" << tr);
        if (want == ACTIVE) {
          gen.updateState(pos, q, goal, F3::Zero(), vel, false, true, NavigationState::mission, false, false, nan3());
          checkSetpoint(gen.getWaypoints(), tr);
        } else {
          CHECK(shim::published<mavros_msgs::Trajectory>("mavros/trajectory/generated").empty(), "setpoints are sent while the status is " << st << ":" << tr);
        }
        shim::clearPublished();
      }
    }
  }
  CHECK(shim::longestSleep().load() <= 500000000LL, "a thread of the node sleeps " << 1e-9 * double(shim::longestSleep().load()) << " s at a time, longer than a planning round may take:" << tr);
  pbt::nontrivial(rounds >= 2);
}
// ------------------------------------------------------------------ P21: what a running node shows
FACET(P21, node_display, 250, 3000, "a node with a camera and its threads: 4-25 poses, goals, setpoint cycles and planning rounds in any order; non-trivial when at least two cycles and a planning round after a cycle ran") {
  typedef visualization_msgs::Marker Marker;
  shim::dropAll(); shim::clearTf(); shim::setNow(1000.0); shim::sleepAdvances() = false;
  F3 goal = pos3(s, 20);
  shim::setParam("goal_x_param", double(goal.x())); shim::setParam("goal_y_param", double(goal.y())); shim::setParam("goal_z_param", double(goal.z()));
  shim::setParam("accept_goal_input_topic", true);
  shim::setParam("lpd/pointcloud_topics", std::vector<std::string>{"/cam/points"});
  std::unique_ptr<LocalPlannerNodelet> node(new LocalPlannerNodelet);
  struct Off { std::unique_ptr<LocalPlannerNodelet>& n; ~Off() { n.reset(); shim::sleepAdvances() = true; shim::setParam("lpd/pointcloud_topics", std::vector<std::string>()); shim::dropAll(); shim::clearTf(); } } off{node};
  node->init("lpd");
  LocalPlannerNodeConfig c = LocalPlannerNodeConfig::__getDefault__();
  smallTree(c, s); c.goal_z_param = goal.z();
  CHECK(shim::reconfigure(c) == 1, "the node does not listen to reconfiguration");
  mavros_msgs::State sm; sm.armed = true; sm.mode = s.pick(std::vector<std::string>{"AUTO.MISSION", "OFFBOARD", "AUTO.LOITER"});
  shim::deliver("mavros/state", sm);
  F3 pos = pos3(s, 10), before = F3::Zero();
  Eigen::Quaternionf q = Eigen::Quaternionf::Identity();
  int poses = 0;
  auto pose = [&] { before = pos; pos = s.b(1, 3) ? pos3(s, 10) : F3(pos + 0.5f * pos3(s, 1)); if (s.b()) q = quat(s); ++poses; shim::deliver("mavros/local_position/pose", poseMsg(pos, q)); };
  pose();
  auto rounds = [] { return shim::published<std_msgs::UInt32>("pointcloud_size").size(); };
  auto done = [&] { std::lock_guard<std::mutex> l(node->running_mutex_); };
  shim::deliver("/cam/points", cloudMsg({}, "cam", ros::Time::now(), 1));
  tf::Transform id(tf::Quaternion(0, 0, 0, 1), tf::Vector3(0, 0, 0));
  for (double t : {999.9, 1004.9}) {
    shim::setTf("local_origin", "cam", id, ros::Time(t)); shim::setTf("fcu", "cam", id, ros::Time(t));
    CHECK(waitFor([] { return shim::tfReadCount("local_origin", "cam") >= 2 && shim::tfReadCount("fcu", "cam") >= 2; }, 25), "the transforms of the camera are not read");
  }
  CHECK(waitFor([&] { return rounds() >= 1; }, 25), "no planning round");
  done();
  int n = s.i(4, 25), cycles = 0, after = 0;
  std::string tr = " at " + sv(pos);
  F3 wp, ad; double stamp = 1000, late = 0;
  std::set<int> ids;
  auto one = [&](const char* topic) { auto m = shim::published<Marker>(topic); CHECK(m.size() == 1, m.size() << " messages on " << topic << " in a cycle:" << tr); CHECK(m[0].header.frame_id == "local_origin" && m[0].action == Marker::ADD && m[0].color.a > 0.1, "the display " << topic << " is in frame " << m[0].header.frame_id << ":" << tr); return m[0]; };
  for (int k = 0; k < n && stamp < 1004.5; ++k) {
    int op = s.w({4, 1, 5, 2, 1});
    if (op == 0) { pose(); tr += " pose " + sv(pos); }
    else if (op == 1) { visualization_msgs::MarkerArray m; Marker a; goal = pos3(s, 20); a.pose.position = pt(goal); m.markers.push_back(a); shim::deliver("input/goal_position", m); tr += " goal " + sv(goal); }
    else if (op == 4) {
      mavros_msgs::Trajectory m;
      goal = pos3(s, 20);
      F3 v = s.b(1, 3) ? nan3() : pos3(s, 3);
      m.point_1.position = pt(goal);
      m.point_1.velocity.x = v.x(); m.point_1.velocity.y = v.y(); m.point_1.velocity.z = v.z();
      m.point_2.position = pt(pos3(s, 30));
      m.point_valid[0] = m.point_valid[1] = true;
      m.command[0] = s.pick(std::vector<uint16_t>{16, 21, 22}); m.command[1] = 16;
      shim::deliver("mavros/trajectory/desired", m);
      tr += " desired " + sv(goal) + " velocity " + sv(v) + " cmd " + pbt::str(m.command[0]);
    }
    else if (op == 2) {
      if (late < 4.3) { double d = s.d(0, 0.4); shim::advance(d); late += d; }
      pose(); tr += " pose " + sv(pos) + " cycle";
      shim::clearPublished();
      shim::fireTimers(0.1);
      auto sp = shim::published<geometry_msgs::PoseStamped>("mavros/setpoint_position/local");
      auto t = shim::published<mavros_msgs::Trajectory>("mavros/trajectory/generated");
      CHECK(sp.size() == 1 && t.size() == 1, "no setpoint in a cycle:" << tr);
      Marker o = one("original_waypoint"), a = one("adapted_waypoint"), sm2 = one("smoothed_waypoint"), pa = one("path_actual"), pw = one("path_waypoint"), pd = one("path_adapted_waypoint"), cs = one("current_setpoint");
      CHECK(pa.points.size() == 2 && same(vec(pa.points[1]), pos) && same(vec(pa.points[0]), poses > 1 ? before : vec(pa.points[0])), "the flown segment " << (pa.points.empty() ? std::string("is missing") : "from " + sv(vec(pa.points[0]))) << ", flown from " << sv(before) << " to " << sv(pos) << ":" << tr);
      CHECK(pw.points.size() == 2 && same(vec(pw.points[1]), vec(sm2.pose.position)), "the path of setpoints ends elsewhere than at the setpoint " << sv(vec(sm2.pose.position)) << ":" << tr);
      CHECK(pd.points.size() == 2 && same(vec(pd.points[1]), vec(a.pose.position)), "the path of speed-adapted setpoints ends elsewhere than at the setpoint " << sv(vec(a.pose.position)) << ":" << tr);
      if (cycles > 0) CHECK(same(vec(pw.points[0]), wp) && same(vec(pd.points[0]), ad), "the paths of setpoints start at " << sv(vec(pw.points[0])) << " and " << sv(vec(pd.points[0])) << ", the last setpoints were " << sv(wp) << " and " << sv(ad) << ":" << tr);
      wp = vec(sm2.pose.position); ad = vec(a.pose.position);
      CHECK(ids.insert(pa.id).second, "a segment replaces an earlier one:" << tr);
      F3 v = vec(t[0].point_1.velocity);
      CHECK(cs.points.size() == 2 && same(vec(cs.points[0]), pos) && same(vec(cs.points[1]), F3(pos + v), 1e-4), "the displayed velocity setpoint does not lead from " << sv(pos) << " by " << sv(v) << ":" << tr);
      F3 w = vec(sp[0].pose.position);
      if (w.allFinite()) CHECK(same(wp, w), "the displayed setpoint is " << sv(wp) << ", that sent " << sv(w) << ":" << tr);
      (void)o;
      ++cycles;
    } else {
      stamp += 0.35;
      std::vector<F3> p; for (int j = s.i(0, 6); j > 0; --j) p.push_back(F3(s.f(0.5f, 8), s.sf(5), s.sf(4)));
      shim::clearPublished();
      shim::deliver("/cam/points", cloudMsg(p, "cam", ros::Time(stamp), 1));
      tr += " round";
      CHECK(waitFor([&] { return rounds() >= 1; }, 25), "a cloud and no planning round:" << tr);
      std::lock_guard<std::mutex> l(node->running_mutex_);
      auto g = shim::published<visualization_msgs::MarkerArray>("goal_position");
      CHECK(g.size() == 1 && g[0].markers.size() == 1 && same(vec(g[0].markers[0].pose.position), goal), "the displayed goal is not " << sv(goal) << ":" << tr);
      auto fov = shim::published<Marker>("fov"), rs = shim::published<Marker>("range_scan");
      CHECK(fov.size() == 1 && rs.size() == 1, "fields of view and distances of a round:" << tr);
      if (!rs[0].points.empty()) CHECK(rs[0].header.frame_id == "local_origin" && same(vec(rs[0].points[0]), pos), "the distances start at " << sv(vec(rs[0].points[0])) << ", the vehicle is at " << sv(pos) << ":" << tr);
      auto ci = shim::published<sensor_msgs::Image>("cost_image");
      CHECK(ci.size() == 1, ci.size() << " cost images in a round:" << tr);
      auto base = node->local_planner_->cost_image_data_;
      if (cycles > 0 && ci[0].data.size() == base.size() && base.size() == 5400) {
        std::vector<bool> any(base.size(), false);
        double head = 90 - std::atan2(2.0 * (q.w() * q.z() + q.x() * q.y()), 1 - 2.0 * (q.y() * q.y() + q.z() * q.z())) / D2R;
        struct Mark { V3 d; int from, to; } marks[] = {{dirHist(1, head), 2, 2}, {(wp - pos).cast<double>(), 0, 2}, {(ad - pos).cast<double>(), 1, 2}};
        bool usable = true;
        for (auto& m : marks) {
          if (!(m.d.norm() > 0.05)) { usable = false; break; }
          auto touch = [&](const V3& d, bool sure) { Cell cc = cellOf(d, 6); for (int col = m.from; col <= m.to; ++col) { size_t i = size_t(((29 - cc.e) * 60 + cc.z) * 3 + col); if (sure) base[i] = 255; else any[i] = true; } };
          bool sure = cellOf(m.d, 6).margin > 0.02;
          touch(m.d, sure);
          if (!sure) for (double a : {-0.05, 0.05}) for (double b : {-0.05, 0.05}) touch(dirHist(elev(m.d) + a, azim(m.d) + b), false);
        }
        if (usable) for (size_t i = 0; i < base.size(); ++i) CHECK(any[i] || ci[0].data[i] == base[i], "cost image row " << i / 180 << " column " << i / 3 % 60 << " colour " << i % 3 << " is " << int(ci[0].data[i]) << ", expected " << int(base[i]) << " with heading " << head << ", setpoint " << sv(wp) << ", adapted " << sv(ad) << " at " << sv(pos) << ":" << tr);
        ++after;
      }
    }
  }
  NOTE(tr);
  pbt::nontrivial(cycles >= 2 && after > 0);
}
