// P36: the threads of the local planner node (built with the thread sanitizer; locks and waits go through wrap_sync.cpp)
#include <geom.h>
#include <wrap_sync.h>
#include <local_planner/local_planner_nodelet.h>
#include <local_planner/local_planner.h>
#include <local_planner/waypoint_generator.h>
#include <mavros_msgs/CompanionProcessStatus.h>
#include <std_msgs/UInt32.h>
#include <stdlib.h>
#include <unistd.h>
using namespace avoidance;
using namespace geom;
namespace {
typedef Eigen::Vector3f F3;
bool same(const F3& a, const F3& b, double tol = 1e-5) { for (int d = 0; d < 3; ++d) if (!pbt::sameOrBothNan(a[d], b[d], tol * (1 + std::fabs(b[d])))) return false; return true; }
F3 vec(const geometry_msgs::Point& p) { return F3(float(p.x), float(p.y), float(p.z)); }
geometry_msgs::Point pt(const F3& v) { geometry_msgs::Point p; p.x = v.x(); p.y = v.y(); p.z = v.z(); return p; }
geometry_msgs::PoseStamped poseMsg(const F3& p, double yaw) {
  geometry_msgs::PoseStamped m;
  m.header.frame_id = "local_origin"; m.header.stamp = ros::Time::now();
  m.pose.position = pt(p); m.pose.orientation.z = std::sin(yaw / 2); m.pose.orientation.w = std::cos(yaw / 2);
  return m;
}
Eigen::Quaternionf quat(const geometry_msgs::PoseStamped& m) { return Eigen::Quaternionf(float(m.pose.orientation.w), float(m.pose.orientation.x), float(m.pose.orientation.y), float(m.pose.orientation.z)); }
sensor_msgs::PointCloud2 cloudMsg(const std::vector<F3>& p, const std::string& frame, const ros::Time& t) {
  sensor_msgs::PointCloud2 m;
  m.header.frame_id = frame; m.header.stamp = t; m.height = 1; m.width = uint32_t(p.size());
  const char* n[] = {"x", "y", "z"};
  for (int i = 0; i < 3; ++i) { sensor_msgs::PointField f; f.name = n[i]; f.offset = uint32_t(4 * i); f.datatype = 7; f.count = 1; m.fields.push_back(f); }
  m.point_step = 16; m.row_step = 16 * m.width; m.data.assign(m.row_step, 0);
  for (size_t i = 0; i < p.size(); ++i) memcpy(&m.data[i * 16], p[i].data(), 12);
  m.is_dense = false;
  return m;
}
std::vector<F3> points(pbt::Src& s, int n) { std::vector<F3> p; for (int k = 0; k < n; ++k) p.push_back(F3(s.f(0.5f, 8), s.sf(5), s.sf(4))); return p; }
LocalPlannerNodeConfig config(pbt::Src& s, double goalZ) {
  LocalPlannerNodeConfig c = LocalPlannerNodeConfig::__getDefault__();
  c.n_expanded_nodes_ = s.i(1, 8); c.children_per_node_ = s.i(1, 4); c.tree_node_distance_ = s.d(0.5, 3); c.max_sensor_range_ = s.d(5, 20); c.min_num_points_per_cell_ = 1;
  c.yaw_cost_param_ = s.d(0.5, 20); c.obstacle_cost_param_ = s.d(1, 20); c.smoothing_speed_xy_ = s.d(1, 20); c.smoothing_speed_z_ = s.d(1, 20);
  c.goal_z_param = goalZ;
  return c;
}
bool waitFor(const std::function<bool()>& f, double seconds) {
  for (double t = 0; t < seconds; t += 0.0005) { if (f()) return true; usleep(500); }
  return f();
}
struct Rig {
  int nc;
  std::vector<std::string> topic, frame;
  F3 goal;
  std::unique_ptr<LocalPlannerNodelet> node;
  LocalPlannerNodeConfig cfg;
  double start;
  Rig(pbt::Src& s, int cameras) : nc(cameras) {
    shim::dropAll(); shim::clearTf(); shim::setNow(1000.0); shim::sleepAdvances() = false; shim::bus().record = true;
    for (int k = 0; k < nc; ++k) { topic.push_back("cam" + pbt::str(k) + "/points"); frame.push_back("cam" + pbt::str(k) + "_frame"); }
    goal = pos3(s, 20);
    shim::setParam("goal_x_param", double(goal.x())); shim::setParam("goal_y_param", double(goal.y())); shim::setParam("goal_z_param", double(goal.z()));
    shim::setParam("accept_goal_input_topic", true); shim::setParam("lp/pointcloud_topics", topic);
    node.reset(new LocalPlannerNodelet);
    node->init("lp");
    start = 1000;
    cfg = config(s, goal.z());
    CHECK(shim::reconfigure(cfg) == 1, "the node does not listen to reconfiguration");
    mavros_msgs::State sm; sm.armed = true; sm.mode = "AUTO.MISSION";
    shim::deliver("mavros/state", sm);
  }
  ~Rig() { syncw::off(); shim::pointHook() = nullptr; node.reset(); shim::sleepAdvances() = true; shim::bus().record = true; shim::setParam("lp/pointcloud_topics", std::vector<std::string>()); shim::dropAll(); shim::clearTf(); }
  // every camera's frame gets known, then transforms that hold for the next seconds
  void transforms(const tf::Transform& w, const tf::Transform& b) {
    for (int k = 0; k < nc; ++k) shim::deliver(topic[size_t(k)], cloudMsg({}, frame[size_t(k)], ros::Time::now()));
    double t0 = ros::Time::now().toSec();
    for (double t : {t0 - 0.1, t0 + 4.8}) {
      for (auto& f : frame) { shim::setTf("local_origin", f, w, ros::Time(t)); shim::setTf("fcu", f, b, ros::Time(t)); }
      for (auto& f : frame) CHECK(waitFor([&] { return shim::tfReadCount("local_origin", f) >= 2 && shim::tfReadCount("fcu", f) >= 2; }, 25), "the transforms of " << f << " are not read");
    }
    CHECK(waitFor([&] { return roundsShown() >= 1; }, 25), "every camera has a new transformed cloud and no planning round follows");
    done();
  }
  size_t roundsShown() { return shim::published<std_msgs::UInt32>("pointcloud_size").size(); }
  // until the current round is over
  void done() { std::lock_guard<std::mutex> l(node->running_mutex_); }
};
std::string show(const avoidanceOutput& o) {
  std::string r = "v " + pbt::str(o.cruise_velocity) + " path:";
  for (auto& p : o.path_node_positions) r += sv(p);
  return r;
}
bool samePlan(const avoidanceOutput& a, const avoidanceOutput& b) {
  if (!pbt::sameOrBothNan(a.cruise_velocity, b.cruise_velocity, 1e-5) || a.path_node_positions.size() != b.path_node_positions.size()) return false;
  for (size_t k = 0; k < a.path_node_positions.size(); ++k) if (!same(a.path_node_positions[k], b.path_node_positions[k], 1e-4)) return false;
  return true;
}
const char* kModes[] = {"AUTO.MISSION", "AUTO.TAKEOFF", "AUTO.LAND", "AUTO.LOITER", "OFFBOARD", "MANUAL"};
}  // namespace
// ------------------------------------------------------------------ free running threads under the thread sanitizer
namespace { std::atomic<int> gRounds{0}; pbt::Scheduled threads("P36"); }
FACET(P36, races, 800, 20000, "a node with 1-2 cameras, its own threads and up to four others that deliver 20-120 messages of every kind, settings and cycles without any order; non-trivial when planning rounds ran meanwhile") {
  Rig r(s, s.i(1, 2));
  shim::deliver("mavros/local_position/pose", poseMsg(pos3(s, 10), 0));
  tf::Transform id(tf::Quaternion(0, 0, 0, 1), tf::Vector3(0, 0, 0));
  r.transforms(id, id);
  // prepared beforehand: what the threads do must not synchronise them
  typedef std::function<void()> Act;
  std::vector<Act> A, C, R;
  shim::Port<geometry_msgs::PoseStamped> pose("mavros/local_position/pose"), clicked("move_base_simple/goal");
  shim::Port<geometry_msgs::TwistStamped> twist("mavros/local_position/velocity_local");
  shim::Port<mavros_msgs::State> state("mavros/state");
  shim::Port<mavros_msgs::Trajectory> desired("mavros/trajectory/desired");
  shim::Port<visualization_msgs::MarkerArray> goalTopic("input/goal_position");
  shim::Port<geometry_msgs::PointStamped> point("clicked_point");
  shim::Port<mavros_msgs::Altitude> alt("mavros/altitude");
  shim::Port<mavros_msgs::Param> param("mavros/param/param_value");
  shim::Port<mavros_msgs::WaypointList> mission("mavros/mission/waypoints");
  int n = s.i(20, 120), kinds = 0;
  F3 goal = r.goal;
  double stamp = ros::Time::now().toSec();
  std::string tr = pbt::str(r.nc) + " cameras, " + pbt::str(n) + " messages:";
  for (int k = 0; k < n; ++k) {
    int w = s.w({8, 3, 2, 2, 3, 2, 2, 1, 2, 1, 8});
    kinds |= 1 << w;
    static const char* kN[] = {"pose", "velocity", "state", "clicked goal", "trajectory", "goal topic", "point", "altitude", "parameter", "mission", "clouds"};
    tr += std::string(" ") + kN[w];
    if (w == 0) { auto m = boost::make_shared<geometry_msgs::PoseStamped const>(poseMsg(pos3(s, 10), s.sd(3))); A.push_back([m, &pose] { pose.send(m); }); }
    else if (w == 1) { auto m = boost::make_shared<geometry_msgs::TwistStamped>(); m->twist.linear.x = s.sd(3); A.push_back([m, &twist] { twist.send(m); }); }
    else if (w == 2) { auto m = boost::make_shared<mavros_msgs::State>(); m->armed = s.b(); m->mode = kModes[s.i(0, 5)]; A.push_back([m, &state] { state.send(m); }); }
    else if (w == 3) { auto m = boost::make_shared<geometry_msgs::PoseStamped const>(poseMsg(pos3(s, 20), 0)); A.push_back([m, &clicked] { clicked.send(m); }); goal = vec(m->pose.position); }
    else if (w == 4) {
      auto m = boost::make_shared<mavros_msgs::Trajectory>();
      m->point_valid[0] = m->point_valid[1] = true; m->point_1.position = pt(pos3(s, 20)); m->point_2.position = pt(pos3(s, 30) + F3(0, 0, 40.f + float(k))); m->command[0] = s.pick(std::vector<uint16_t>{16, 21, 22});
      A.push_back([m, &desired] { desired.send(m); }); goal = vec(m->point_1.position);
    } else if (w == 5) { auto m = boost::make_shared<visualization_msgs::MarkerArray>(); visualization_msgs::Marker a; a.pose.position = pt(pos3(s, 20)); m->markers.push_back(a); A.push_back([m, &goalTopic] { goalTopic.send(m); }); goal = vec(a.pose.position); }
    else if (w == 6) { auto m = boost::make_shared<geometry_msgs::PointStamped>(); m->point = pt(pos3(s, 10)); A.push_back([m, &point] { point.send(m); }); }
    else if (w == 7) { auto m = boost::make_shared<mavros_msgs::Altitude>(); m->bottom_clearance = s.f(0, 5); A.push_back([m, &alt] { alt.send(m); }); }
    else if (w == 8) { auto m = boost::make_shared<mavros_msgs::Param>(); m->param_id = s.b() ? "CP_DIST" : "MPC_XY_CRUISE"; m->value.real = s.d(1, 5); A.push_back([m, &param] { param.send(m); }); }
    else if (w == 9) {
      auto m = boost::make_shared<mavros_msgs::WaypointList>(); mavros_msgs::Waypoint a; a.command = 178; a.param1 = 1; a.param2 = s.f(1, 6); a.is_current = true; m->waypoints.push_back(a);
      A.push_back([m, &mission] { mission.send(m); });
    } else {
      stamp += 0.02 + 0.01 * s.i(0, 30);
      std::vector<Act> d;
      for (int c = 0; c < r.nc; ++c) {
        auto m = boost::make_shared<sensor_msgs::PointCloud2 const>(cloudMsg(points(s, s.i(0, 6)), r.frame[size_t(c)], ros::Time(std::min(stamp, 1004.5))));
        auto p = std::make_shared<shim::Port<sensor_msgs::PointCloud2>>(r.topic[size_t(c)]);
        A.push_back([m, p] { p->send(m); });
      }
    }
    if (s.b(1, 4)) A.push_back([] { usleep(400); });
  }
  int cycles = s.i(0, 20), sets = s.i(0, 6);
  for (int k = 0; k < cycles; ++k) C.push_back([&s] { shim::fireTimers(0.1); usleep(200); });
  LocalPlannerNodeConfig last = r.cfg;
  for (int k = 0; k < sets; ++k) { last = config(s, r.goal.z()); auto c = last; R.push_back([c] { shim::reconfigure(c); usleep(700); }); }
  bool status = s.b();
  tr += "; " + pbt::str(cycles) + " cycles, " + pbt::str(sets) + " settings" + (status ? ", status" : "");
  NOTE(tr);
  auto lateCloud = boost::make_shared<sensor_msgs::PointCloud2 const>(cloudMsg(points(s, 3), r.frame[0], ros::Time(1004.5)));
  shim::Port<sensor_msgs::PointCloud2> cam0(r.topic[0]);
  std::function<void()> served = [&] { cam0.send(lateCloud); };
  gRounds = 0;
  shim::bus().record = false;
  shim::pointHook() = [](int k) { if (k == 0) gRounds.fetch_add(1, std::memory_order_relaxed); };
  // while a cycle waits for a position it serves the callbacks itself
  shim::onCallAvailable() = [&pose, &served](double) { static std::atomic<int> n{0}; served(); pose.send(boost::make_shared<geometry_msgs::PoseStamped const>(poseMsg(F3(float(n.fetch_add(1, std::memory_order_relaxed) % 7), 1, 2), 0))); };
  std::vector<std::thread> th;
  for (auto* l : {&A, &C, &R}) if (!l->empty()) th.push_back(std::thread([l] { for (auto& a : *l) a(); }));
  if (status) th.push_back(std::thread([] { for (int k = 0; k < 10; ++k) { shim::fireTimers(0.2); usleep(300); } }));
  for (auto& t : th) t.join();
  shim::onCallAvailable() = nullptr;
  shim::pointHook() = nullptr;
  bool ran = gRounds > 0;
  shim::bus().record = true;
  usleep(2000);
  r.done();
  // everything that arrived holds in the next round and cycle
  shim::setNow(1004.6);
  r.done();
  shim::clearPublished();
  auto p = poseMsg(pos3(s, 10), s.sd(3));
  shim::deliver("mavros/local_position/pose", p);
  for (int c = 0; c < r.nc; ++c) shim::deliver(r.topic[size_t(c)], cloudMsg(points(s, 3), r.frame[size_t(c)], ros::Time(1004.6)));
  if (waitFor([&] { return r.roundsShown() >= 1; }, 0.3)) {
    std::unique_lock<std::mutex> l(r.node->running_mutex_);
    F3 g = r.node->local_planner_->getGoal();
    l.unlock();
    bool rank = same(g, goal) || (std::fabs(g.x() - goal.x()) < 1e-4 && std::fabs(g.y() - goal.y()) < 1e-4);  // a clicked goal keeps a height
    CHECK(rank, "the planner heads for " << sv(g) << ", last told " << sv(goal) << ": " << tr);
  }
  pbt::nontrivial(ran && kinds != 0);
}
// ------------------------------------------------------------------ one thread stopped at any lock, clock reading or message while another acts
namespace {
struct Hold {
  std::atomic<bool> armed{false};
  std::atomic<int> kind{0}, who{0};
  std::atomic<int> left{0};
  std::mutex m;
  std::condition_variable cv;
  bool held = false, released = false, byNode = false, vDone = false, aDone = false;
} H;
thread_local int tRole = 0;  // 0 the node's threads, 1 the first thread, 2 the second
void holdHook(int kind) {
  if (!H.armed.load(std::memory_order_relaxed) || tRole == 2 || kind != H.kind.load(std::memory_order_relaxed) || (H.who == 1 && tRole != 1) || (H.who == 2 && tRole != 0)) return;
  if (H.left.fetch_sub(1) != 1) return;
  std::unique_lock<std::mutex> l(H.m);
  H.held = true; H.byNode = tRole == 0;
  H.cv.notify_all();
  H.cv.wait(l, [] { return H.released; });
}
template <class F> bool await(F f, double sec) { std::unique_lock<std::mutex> l(H.m); return H.cv.wait_until(l, std::chrono::system_clock::now() + std::chrono::microseconds(int64_t(sec * 1e6)), f); }
void mark(bool Hold::*b) { std::lock_guard<std::mutex> l(H.m); H.*b = true; H.cv.notify_all(); }
const char* kPoint[] = {"message to the log", "clock reading", "publication", "cloud transformation", "lock", "unlock", "wait", "transform query"};
}  // namespace
FACET(P36, schedules, 400, 8000, "histories of 2-9 steps; in each a thread of the node or one that delivers a cloud, pose, goal, velocity, state, settings or cycle is stopped at a random lock, unlock, clock reading, publication, log message or transform and another one of these is let through meanwhile; non-trivial when at least two were stopped") {
  Rig r(s, s.w({3, 1}) + 1);
  std::vector<F3> poses; std::vector<double> yaws;
  std::mutex pm;
  typedef std::function<void()> Act;
  auto sendPose = [&](const F3& p, double yaw) { shim::deliver("mavros/local_position/pose", poseMsg(p, yaw)); };
  auto newPose = [&](F3 p, double yaw) { std::lock_guard<std::mutex> l(pm); poses.push_back(p); yaws.push_back(yaw); };
  { F3 p = pos3(s, 10); newPose(p, 0.5); sendPose(p, 0.5); }
  tf::Transform id(tf::Quaternion(0, 0, 0, 1), tf::Vector3(0, 0, 0));
  r.transforms(id, id);
  static std::mutex sm;  // a cycle does not send an older position after a newer one
  shim::onCallAvailable() = [&](double) { std::lock_guard<std::mutex> l2(sm); F3 p; double y; { std::lock_guard<std::mutex> l(pm); p = poses.back(); y = yaws.back(); } sendPose(p, y); };
  std::vector<F3> goals = {F3(0, 0, 0), r.goal};  // order known
  bool armed = true; LocalPlannerNodeConfig cfg = r.cfg;
  std::vector<F3> newest;
  double stamp = ros::Time::now().toSec();
  int n = s.i(2, 9), held = 0;
  bool pendingGoal = false;
  std::string tr = pbt::str(r.nc) + " cameras:";
  // an operation, and what is true after it
  struct Op { int kind; Act act, after; };
  auto make = [&](int kind) {
    Op o; o.kind = kind;
    if (kind == 0) {
      stamp += 0.35;
      auto ms = std::make_shared<std::vector<sensor_msgs::PointCloud2>>(); std::vector<F3> p0;
      for (int c = 0; c < r.nc; ++c) { auto p = points(s, s.i(1, 6)); if (c == 0) p0 = p; ms->push_back(cloudMsg(p, r.frame[size_t(c)], ros::Time(stamp))); }
      o.act = [ms, &r] { for (int c = 0; c < r.nc; ++c) shim::deliver(r.topic[size_t(c)], (*ms)[size_t(c)]); };
      o.after = [&newest, p0] { newest = p0; };
    } else if (kind == 1) {
      F3 p = pos3(s, 10); double y = s.sd(3);
      o.act = [&, p, y] { std::lock_guard<std::mutex> l2(sm); newPose(p, y); sendPose(p, y); };
    } else if (kind == 2) {
      F3 g = pos3(s, 30); g.z() = r.goal.z();
      if (s.b()) o.act = [g] { shim::deliver("move_base_simple/goal", poseMsg(g, 0)); };
      else o.act = [g] { visualization_msgs::MarkerArray m; visualization_msgs::Marker a; a.pose.position = pt(g); m.markers.push_back(a); shim::deliver("input/goal_position", m); };
      o.after = [&goals, g] { goals.push_back(g); };
    } else if (kind == 3) {
      F3 v = pos3(s, 3);
      o.act = [v] { geometry_msgs::TwistStamped m; m.twist.linear.x = v.x(); m.twist.linear.y = v.y(); m.twist.linear.z = v.z(); shim::deliver("mavros/local_position/velocity_local", m); };
    } else if (kind == 4) {
      bool a = s.b(3, 4); std::string md = s.pick(std::vector<std::string>{"AUTO.MISSION", "AUTO.LOITER", "OFFBOARD", "AUTO.RTL"});
      o.act = [a, md] { mavros_msgs::State m; m.armed = a; m.mode = md; shim::deliver("mavros/state", m); };
      o.after = [&armed, a] { armed = a; };
    } else if (kind == 5) {
      auto c = config(s, r.goal.z());
      o.act = [c] { shim::reconfigure(c); };
      o.after = [&cfg, c] { cfg = c; };
    } else o.act = [] { shim::fireTimers(0.1); };
    return o;
  };
  static const char* kOp[] = {"clouds", "pose", "goal", "velocity", "state", "settings", "cycle"};
  for (int k = 0; k < n && stamp < 1003.9; ++k) {
    Op V = make(s.w({6, 1, 1, 0, 1, 2, 3}));
    int ak = s.w({V.kind == 0 ? 1 : 2, 3, 3, 1, 1, 3, 3});
    if (ak == V.kind && ak != 0) ak = ak == 2 ? 1 : 2;
    int kind = s.pick(std::vector<int>{0, 1, 1, 2, 2, 3, 4, 4, 4, 5, 5, 5, 5, 6, 6, 7}), at = s.b(3, 4) ? s.i(1, 12) : s.i(1, 60), who = s.w({2, 1, 2});
    if (kind == 6 && s.b(2, 3)) { if (V.kind != 0) V = make(0); ak = 0; who = 2; at = s.i(1, 4); }
    else if ((kind == 0 || kind == 2) && s.b()) { if (V.kind != 0) V = make(0); ak = s.pick(std::vector<int>{6, 6, 1, 2}); who = 2; at = s.i(1, kind ? 12 : 3); }
    Op A = make(ak);
    if (V.kind != 0 && who == 2) who = 1;
    bool planned = false;  // stopped in the planner
    size_t before = r.roundsShown();
    { std::lock_guard<std::mutex> l(H.m); H.held = H.released = H.vDone = H.aDone = H.byNode = false; H.kind = kind; H.who = who; H.left = at; }
    H.armed = true;
    shim::pointHook() = holdHook;
    std::thread tv([&] { tRole = 1; V.act(); mark(&Hold::vDone); });
    bool h = await([] { return H.held || H.vDone; }, 25) && await([] { return H.held; }, V.kind == 0 ? 0.006 : 0);
    { std::lock_guard<std::mutex> l(H.m); h = H.held; planned = H.held && H.byNode && V.kind == 0 && (kind == 2 || (kind == 0 && !pendingGoal)); if (!h) H.armed = false; }
    // both deliver clouds: one after the other
    if (V.kind == 0 && A.kind == 0 && !await([] { return H.vDone; }, 0)) { mark(&Hold::released); await([] { return H.vDone; }, 25); }
    bool prompt = planned && (A.kind == 6 || A.kind == 1 || A.kind == 2 || A.kind == 3 || A.kind == 4);
    tr += std::string(" [") + kOp[V.kind] + (h ? " stopped at " + std::string(kPoint[kind]) + " " + pbt::str(at) + (planned ? " of the planner" : "") : std::string()) + ": " + kOp[A.kind] + "]";
    std::thread ta([&] { tRole = 2; A.act(); mark(&Hold::aDone); });
    bool in = await([] { return H.aDone; }, prompt ? 20 : h ? 0.003 : 25);
    mark(&Hold::released);
    bool ends = await([] { return H.aDone && H.vDone; }, 25);
    H.armed = false;
    if (!ends || (prompt && !in)) {
      if (ends) tv.join(), ta.join(); else { tv.detach(); ta.detach(); r.node.release(); }
      CHECK(ends, "two threads block each other:" << tr);
      CHECK(in, kOp[A.kind] << " waits for the planner:" << tr);
    }
    tv.join(); ta.join();
    held += h;
    if (V.after) V.after();
    if (A.after) A.after();
    if (A.kind == 2 || V.kind == 2) pendingGoal = true;
    // nobody overlooks the clouds
    if (V.kind == 0 || A.kind == 0) {
      CHECK(waitFor([&] { return r.roundsShown() > before; }, 25), "clouds of all cameras and no planning round:" << tr);
      if (r.nc == 1) {
        auto newestPlanned = [&] {
          std::lock_guard<std::mutex> l(r.node->running_mutex_);
          auto& v = r.node->local_planner_->original_cloud_vector_;
          return v.size() == 1 && v[0].size() == newest.size() && same(F3(v[0].points[0].x, v[0].points[0].y, v[0].points[0].z), newest[0]);
        };
        CHECK(waitFor(newestPlanned, 25), "the planner does not get the newest cloud, of " << newest.size() << " points from " << sv(newest[0]) << ":" << tr);
      }
      if (r.nc == 2 && V.kind == 0 && A.kind == 0) usleep(1000);
    }
    r.done();
    // position and orientation of one message
    std::lock_guard<std::mutex> l(r.node->running_mutex_);
    auto& lp = *r.node->local_planner_;
    bool found = false;
    { std::lock_guard<std::mutex> l2(pm); for (size_t i = 0; i < poses.size(); ++i) found |= same(lp.getPosition(), poses[i]) && std::fabs(std::remainder(lp.getOrientation() - yaws[i] * 180 / M_PI, 360)) < 0.1; }
    CHECK(found, "the planner's position " << sv(lp.getPosition()) << " and yaw " << lp.getOrientation() << " are of no pose that was sent:" << tr);
  }
  shim::pointHook() = nullptr;
  // the same as after one thing at a time
  size_t before = r.roundsShown();
  for (int c = 0; c < r.nc; ++c) shim::deliver(r.topic[size_t(c)], cloudMsg(points(s, 3), r.frame[size_t(c)], ros::Time(stamp + 0.4)));
  CHECK(waitFor([&] { return r.roundsShown() > before; }, 25), "clouds of all cameras and no planning round at the end:" << tr);
  r.done();
  shim::fireTimers(0.1);
  std::lock_guard<std::mutex> l(r.node->running_mutex_);
  auto& lp = *r.node->local_planner_;
  F3 p = poses.back(), g = goals.back();
  NOTE(tr);
  CHECK(same(lp.getPosition(), p), "the planner is at " << sv(lp.getPosition()) << ", the newest position is " << sv(p) << ":" << tr);
  CHECK(same(lp.getGoal(), g), "the planner heads for " << sv(lp.getGoal()) << ", the last goal is " << sv(g) << ":" << tr);
  CHECK(lp.currently_armed_ == armed, "armed " << lp.currently_armed_ << ":" << tr);
  CHECK(std::fabs(lp.getSensorRange() - float(cfg.max_sensor_range_)) < 1e-4, "the planner's settings are not the last ones:" << tr);
  if (r.node->getSystemStatus() == MAV_STATE::MAV_STATE_ACTIVE) {
    auto pa = shim::published<visualization_msgs::Marker>("path_actual");
    CHECK(!pa.empty() && pa.back().points.size() == 2 && same(vec(pa.back().points[1]), p), "the setpoints are not for the newest position " << sv(p) << ":" << tr);
  }
  shim::onCallAvailable() = nullptr;
  pbt::nontrivial(held >= 2);
}
// ------------------------------------------------------------------ the node ends while its threads and callbacks are busy
FACET(P36, stop, 200, 4000, "a node with 0-2 cameras that is destroyed while other threads deliver messages, cycles, status or settings, one thread possibly stopped at a random point; non-trivial when one was stopped or messages were under way") {
  int nc = s.i(0, 2);
  std::unique_ptr<Rig> rp(new Rig(s, nc)); Rig& r = *rp;
  shim::deliver("mavros/local_position/pose", poseMsg(pos3(s, 10), 0));
  tf::Transform id(tf::Quaternion(0, 0, 0, 1), tf::Vector3(0, 0, 0));
  bool ready = nc > 0 && s.b(3, 4);
  if (ready) r.transforms(id, id);
  if (s.b(3, 4)) shim::onCallAvailable() = [](double) { shim::deliver("mavros/local_position/pose", poseMsg(F3(1, 1, 1), 0)); };
  else shim::onCallAvailable() = [](double) { usleep(100); };
  std::vector<std::function<void()>> acts;
  int n = s.i(1, 6); std::string tr = pbt::str(nc) + " cameras" + (ready ? "" : " without transforms") + ":";
  std::vector<std::vector<sensor_msgs::PointCloud2>> cl; std::vector<LocalPlannerNodeConfig> cs;
  double stamp = ros::Time::now().toSec();
  for (int k = 0; k < n; ++k) {
    int w = s.w({4, 2, 2, 1, 2, 1});
    tr += " " + pbt::str(w);
    if (w == 0) { stamp += 0.35; std::vector<sensor_msgs::PointCloud2> ms; for (int c = 0; c < nc; ++c) ms.push_back(cloudMsg(points(s, 4), r.frame[size_t(c)], ros::Time(stamp))); auto t = r.topic; acts.push_back([ms, t] { for (size_t c = 0; c < ms.size(); ++c) shim::deliver(t[c], ms[c]); }); }
    else if (w == 1) acts.push_back([] { shim::deliver("mavros/local_position/pose", poseMsg(F3(2, 1, 1), 0)); });
    else if (w == 2) acts.push_back([] { shim::fireTimers(0.1); });
    else if (w == 3) acts.push_back([] { shim::fireTimers(0.2); });
    else if (w == 4) acts.push_back([] { shim::deliver("move_base_simple/goal", poseMsg(F3(5, 5, 5), 0)); });
    else { auto c = config(s, 1); acts.push_back([c] { shim::reconfigure(c); }); }
  }
  int kind = s.pick(std::vector<int>{0, 1, 2, 3, 4, 4, 5, 5, 6, 7, -1}), at = s.i(1, 30), who = s.w({2, 1, 2}), wait = s.i(0, 3000);
  tr += "; stop at " + std::string(kind < 0 ? "nothing" : kPoint[kind]) + " " + pbt::str(at);
  NOTE(tr);
  { std::lock_guard<std::mutex> l(H.m); H.held = H.released = H.vDone = H.aDone = H.byNode = false; H.kind = kind; H.who = who; H.left = at; }
  H.armed = kind >= 0;
  shim::pointHook() = holdHook;
  std::thread tv([&] { tRole = 1; for (auto& a : acts) a(); mark(&Hold::vDone); });
  await([] { return H.held || H.vDone; }, 1e-6 * wait);
  bool h; { std::lock_guard<std::mutex> l(H.m); h = H.held || !H.vDone; }
  std::thread ta([&] { tRole = 2; r.node.reset(); mark(&Hold::aDone); });
  await([] { return H.aDone; }, 0.003);
  mark(&Hold::released); H.armed = false;
  bool ends = await([] { return H.aDone && H.vDone; }, 25);
  if (!ends) { tv.detach(); ta.detach(); rp.release(); }
  CHECK(ends, "the node does not end: " << tr);
  tv.join(); ta.join();
  shim::pointHook() = nullptr; shim::onCallAvailable() = nullptr;
  // nothing of it is left
  shim::clearPublished();
  for (auto& a : acts) a();
  shim::fireTimers(0.1); shim::fireTimers(0.2);
  CHECK(shim::published<geometry_msgs::PoseStamped>("mavros/setpoint_position/local").empty() && shim::published<mavros_msgs::CompanionProcessStatus>("mavros/companion_process/status").empty(), "a node that has ended still sends: " << tr);
  pbt::nontrivial(h);
}
