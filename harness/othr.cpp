// P37: the threads of the global planner's and the landing planner's node (built with the thread sanitizer)
#include <gpworld.h>
#include <geom.h>
#include <wrap_sync.h>
#include <avoidance/common.h>
#include <global_planner/global_planner_node.h>
#include <mavros_msgs/CompanionProcessStatus.h>
#include <safe_landing_planner/safe_landing_planner_node.hpp>
#include <unistd.h>
#include <stdlib.h>
#include <condition_variable>
#include <thread>
using namespace gw;
using geom::sv;
using geom::pos3;
typedef global_planner::GlobalPlannerNodeConfig GCfg;
typedef safe_landing_planner::SafeLandingPlannerNodeConfig SCfg;
typedef Eigen::Vector3f F3;
typedef std::function<void()> Act;
namespace {
pbt::Scheduled threads("P37");
boost::shared_ptr<geometry_msgs::PoseStamped const> poseMsg(double x, double y, double z, double yaw) {
  auto m = boost::make_shared<geometry_msgs::PoseStamped>(); m->header.frame_id = "local_origin"; m->header.stamp = ros::Time::now();
  m->pose.position.x = x; m->pose.position.y = y; m->pose.position.z = z; m->pose.orientation.z = std::sin(yaw / 2); m->pose.orientation.w = std::cos(yaw / 2);
  return m;
}
boost::shared_ptr<sensor_msgs::PointCloud2 const> cloudMsg(const std::vector<F3>& p, const std::string& frame, const ros::Time& t) {
  auto m = boost::make_shared<sensor_msgs::PointCloud2>();
  m->header.frame_id = frame; m->header.stamp = t; m->height = 1; m->width = uint32_t(p.size());
  const char* n[] = {"x", "y", "z"};
  for (int i = 0; i < 3; ++i) { sensor_msgs::PointField f; f.name = n[i]; f.offset = uint32_t(4 * i); f.datatype = 7; f.count = 1; m->fields.push_back(f); }
  m->point_step = 16; m->row_step = 16 * m->width; m->data.assign(m->row_step, 0);
  for (size_t i = 0; i < p.size(); ++i) memcpy(&m->data[i * 16], p[i].data(), 12);
  m->is_dense = false;
  return m;
}
// a thread stopped at a point
struct Hold {
  std::atomic<bool> armed{false};
  std::atomic<int> kind{0}, who{0}, left{0};
  std::mutex m;
  std::condition_variable cv;
  bool held = false, released = false, vDone = false, aDone = false;
} H;
thread_local int tRole = 0;
void holdHook(int kind) {
  if (!H.armed.load(std::memory_order_relaxed) || kind != H.kind.load(std::memory_order_relaxed) || H.who.load(std::memory_order_relaxed) != tRole) return;
  if (H.left.fetch_sub(1, std::memory_order_relaxed) != 1) return;
  std::unique_lock<std::mutex> l(H.m);
  H.held = true;
  H.cv.notify_all();
  H.cv.wait(l, [] { return H.released; });
}
template <class F> bool await(F f, double sec) { std::unique_lock<std::mutex> l(H.m); return H.cv.wait_until(l, std::chrono::system_clock::now() + std::chrono::microseconds(int64_t(sec * 1e6)), f); }
void mark(bool Hold::*b) { std::lock_guard<std::mutex> l(H.m); H.*b = true; H.cv.notify_all(); }
void arm(int kind, int who, int at) {
  { std::lock_guard<std::mutex> l(H.m); H.held = H.released = H.vDone = H.aDone = false; }
  H.kind = kind; H.who = who; H.left = at; H.armed = kind >= 0; shim::pointHook() = holdHook;
}
const char* kPoint[] = {"message to the log", "clock reading", "publication", "cloud transformation", "lock", "unlock", "wait", "transform query"};

struct Gp {
  std::unique_ptr<global_planner::GlobalPlannerNode> node;
  std::map<uint32_t, World> worlds; uint32_t maps = 0;
  Gp() {
    shim::dropAll(); shim::clearTf(); shim::setNow(1000); shim::sleepAdvances() = false; shim::bus().record = true; octomap::OcTree::searchHook() = nullptr;
    shim::setParam("start_pos_x", 0.5); shim::setParam("start_pos_y", 0.5); shim::setParam("start_pos_z", 3.5);
    shim::setParam("frame_id", std::string("local_origin")); shim::setParam("camera_frame_id", std::string("camera_link")); shim::setParam("robot_radius", 0.5);
    shim::setParam("pointcloud_topics", std::vector<std::string>{"/cam1/points", "/cam2/points"});
    shim::octomapFactory() = [this](const octomap_msgs::Octomap& m) -> octomap::AbstractOcTree* { return worlds[m.header.seq].tree(); };
    shim::setTf("local_origin", "camera_link", tf::Transform(tf::Quaternion(0, 0, 0, 1), tf::Vector3(0, 0, 0)), ros::Time(0));
  }
  void make() { node.reset(new global_planner::GlobalPlannerNode(ros::NodeHandle(""), ros::NodeHandle(""))); }
  boost::shared_ptr<octomap_msgs::Octomap const> map(pbt::Src& s) {
    auto m = boost::make_shared<octomap_msgs::Octomap>(); m->header.seq = ++maps; m->id = "OcTree"; m->resolution = 1;
    World& w = worlds[maps]; randomWorld(s, w, 6, 5, true); w.occ.clear();
    return m;
  }
  ~Gp() {
    syncw::off(); node.reset(); shim::octomapFactory() = nullptr; shim::sleepAdvances() = true; shim::bus().record = true;
    shim::setParam("pointcloud_topics", std::vector<std::string>()); shim::clearTf(); shim::dropAll();
  }
};
GCfg settings(pbt::Src& s) {
  GCfg c = GCfg::__getDefault__();
  c.max_iterations_ = s.i(20, 150); c.default_speed_ = s.d(0.3, 3); c.max_speed_ = s.d(1, 6); c.use_risk_based_speedup_ = s.b(); c.search_time_ = s.d(0, 1);
  c.goal_must_be_free_ = s.b(); c.use_current_yaw_ = s.b(); c.clicked_goal_alt_ = s.d(1, 5); c.up_cost_ = s.d(0, 10);
  return c;
}
}  // namespace
// ------------------------------------------------------------------ the global planner's node
FACET(P37, planner_races, 500, 12000, "a global planner node, constructed while its cycles, planning rounds and status can run already, with up to three threads for these and one delivering 20-120 messages and settings of every kind; non-trivial when planning rounds and cycles ran meanwhile") {
  Gp r;
  bool during = s.b(1, 3);
  std::vector<Act> M;
  int n = s.i(20, 120), kinds = 0; std::string tr;
  struct Last { F3 pos = F3(0.5f, 0.5f, 2.5f); double gx = 0.5, gy = 0.5, speed = -1; } last;
  std::atomic<int> cycles{0}, rounds{0};
  std::atomic<bool> quit{false}, made{false};
  std::vector<std::thread> th;
  auto loop = [&](double period, int pause, std::atomic<int>* n) {
    th.push_back(std::thread([&quit, period, pause, n] { while (!quit.load(std::memory_order_relaxed)) { shim::fireTimers(period); if (n) n->fetch_add(1, std::memory_order_relaxed); usleep(useconds_t(pause)); } }));
  };
  int pc = s.i(50, 600), pp = s.i(50, 2000), ps = s.i(100, 2000); bool status = s.b();
  auto go = [&] { loop(0.1, pc, &cycles); loop(1.0, pp, &rounds); if (status) loop(0.2, ps, nullptr); };
  struct Stop { std::atomic<bool>& q; std::vector<std::thread>& t; ~Stop() { q = true; for (auto& x : t) if (x.joinable()) x.join(); } } stop{quit, th};
  if (during) { shim::bus().record = false; int kind = s.pick(std::vector<int>{1, 1, 1, 2, 4}), at = s.i(1, kind == 1 ? 4 : 12); arm(kind, 1, at); go(); tRole = 1; std::thread rel([] { await([] { return H.held || H.vDone; }, 10); usleep(700); mark(&Hold::released); }); r.make(); tRole = 0; mark(&Hold::vDone); rel.join(); H.armed = false; shim::pointHook() = nullptr; }
  else r.make();
  shim::Port<geometry_msgs::PoseStamped> pose("mavros/local_position/pose"), clicked("move_base_simple/goal");
  shim::Port<geometry_msgs::TwistStamped> twist("mavros/local_position/velocity");
  shim::Port<geometry_msgs::PointStamped> point("clicked_point");
  shim::Port<mavros_msgs::Trajectory> desired("mavros/trajectory/desired");
  shim::Port<octomap_msgs::Octomap> octo("octomap_full");
  shim::Port<sensor_msgs::PointCloud2> cam("/cam1/points");
  shim::Port<mavros_msgs::Param> param("mavros/param/param_value");
  shim::Port<mavros_msgs::WaypointList> mission("mavros/mission/waypoints");
  for (int k = 0; k < n; ++k) {
    int w = s.w({8, 3, 3, 2, 2, 3, 3, 3, 1, 1, 1});
    kinds |= 1 << w;
    static const char* kN[] = {"pose", "velocity", "map", "clicked goal", "trajectory", "point", "cloud", "settings", "parameter", "mission", "world"};
    tr += std::string(" ") + kN[w];
    if (w == 0) { last.pos = F3(s.sf(6), s.sf(6), s.f(1.1f, 4)); auto m = poseMsg(last.pos.x(), last.pos.y(), last.pos.z(), s.sd(3)); M.push_back([m, &pose] { pose.send(m); }); }
    else if (w == 1) { auto m = boost::make_shared<geometry_msgs::TwistStamped>(); m->twist.linear.x = s.sd(2); M.push_back([m, &twist] { twist.send(m); }); }
    else if (w == 2) { auto m = r.map(s); bool wait = s.b(3, 4); M.push_back([m, wait, &octo] { if (wait) shim::advance(0.25); octo.send(m); }); }
    else if (w == 3) { last.gx = s.sd(6.9); last.gy = s.sd(6.9); auto m = poseMsg(last.gx, last.gy, 2, 0); M.push_back([m, &clicked] { clicked.send(m); }); }
    else if (w == 4) { last.gx = s.sd(6.9); last.gy = s.sd(6.9); auto m = boost::make_shared<mavros_msgs::Trajectory>(); m->point_valid[1] = true; m->point_2.position.x = last.gx; m->point_2.position.y = last.gy; m->point_2.position.z = s.d(1.1, 5); M.push_back([m, &desired] { desired.send(m); }); }
    else if (w == 5) { auto m = boost::make_shared<geometry_msgs::PointStamped>(); m->point.x = s.sd(6); m->point.y = s.sd(6); M.push_back([m, &point] { point.send(m); }); }
    else if (w == 6) { std::vector<F3> p; for (int i = s.i(0, 8); i > 0; --i) p.push_back(F3(s.sf(6), s.sf(6), s.f(1, 5))); auto m = cloudMsg(p, "camera_link", ros::Time::now()); M.push_back([m, &cam] { cam.send(m); }); }
    else if (w == 7) { GCfg c = settings(s); last.speed = c.default_speed_; M.push_back([c] { shim::reconfigure(c); }); }
    else if (w == 8) { auto m = boost::make_shared<mavros_msgs::Param>(); m->param_id = s.b() ? "CP_DIST" : "MPC_XY_CRUISE"; m->value.real = s.d(1, 5); M.push_back([m, &param] { param.send(m); }); }
    else if (w == 9) { auto m = boost::make_shared<mavros_msgs::WaypointList>(); mavros_msgs::Waypoint a; a.command = 178; a.param1 = 1; a.param2 = s.f(1, 6); a.is_current = true; m->waypoints.push_back(a); M.push_back([m, &mission] { mission.send(m); }); }
    else M.push_back([] { shim::fireTimers(2.0); });
    if (s.b(1, 4)) M.push_back([] { usleep(300); });
  }
  NOTE((during ? "threads from the start, " : "") << n << " messages:" << tr);
  shim::bus().record = false;
  int c0 = cycles, r0 = rounds;
  if (!during) go();
  for (auto& a : M) a();
  int t = 0; while ((cycles == c0 || rounds == r0) && ++t < 20000) usleep(500);
  CHECK(cycles != c0 && rounds != r0, "the cycle or the planner does not go on:" << tr);
  quit = true; for (auto& x : th) x.join(); th.clear();
  shim::bus().record = true;
  // what came last holds
  if (last.speed >= 0) CHECK(std::fabs(r.node->global_planner_.default_speed_ - last.speed) < 1e-9, "the planner's settings are not the last ones:" << tr);
  last.pos = F3(s.sf(6), s.sf(6), s.f(1.1f, 4));
  pose.send(poseMsg(last.pos.x(), last.pos.y(), last.pos.z(), 0.3));
  shim::clearPublished();
  shim::fireTimers(1.0);
  auto& g = r.node->global_planner_;
  CHECK(std::fabs(g.curr_pos_.x - last.pos.x()) < 1e-5 && std::fabs(g.curr_pos_.y - last.pos.y()) < 1e-5 && std::fabs(g.curr_pos_.z - last.pos.z()) < 1e-5, "the planner is at (" << g.curr_pos_.x << "," << g.curr_pos_.y << "," << g.curr_pos_.z << "), the newest position is " << sv(last.pos) << ":" << tr);
  shim::fireTimers(0.1);
  auto sp = shim::published<geometry_msgs::PoseStamped>("mavros/setpoint_position/local");
  CHECK(sp.size() == 1, sp.size() << " setpoints in a cycle:" << tr);
  F3 q(float(sp[0].pose.position.x), float(sp[0].pose.position.y), float(sp[0].pose.position.z));
  CHECK((q - last.pos).norm() < std::max(6.0, std::max(g.default_speed_, g.max_speed_)) + 1e-3, "setpoint " << sv(q) << " far from the newest position " << sv(last.pos) << ":" << tr);
  pbt::nontrivial(kinds != 0);
}
FACET(P37, planner_stop, 200, 4000, "a global planner node destroyed while a cycle, planning round or status tick is stopped at a random lock, unlock, clock reading, publication or log message, or running; non-trivial when one was") {
  std::unique_ptr<Gp> rp(new Gp); Gp& r = *rp;
  if (s.b()) {  // a name that does not fit into the string itself
    shim::setParam("frame_id", std::string("local_origin_of_the_vehicle_number_one"));
    shim::setTf("local_origin_of_the_vehicle_number_one", "camera_link", tf::Transform(tf::Quaternion(0, 0, 0, 1), tf::Vector3(0, 0, 0)), ros::Time(0));
  }
  r.make();
  shim::deliver("octomap_full", *r.map(s));
  shim::deliver("mavros/local_position/pose", *poseMsg(s.sd(6), s.sd(6), s.d(1.1, 4), 0));
  GCfg c = settings(s); c.max_iterations_ = 100; shim::reconfigure(c);
  std::vector<double> periods; int n = s.i(1, 5); std::string tr;
  for (int k = 0; k < n; ++k) { periods.push_back(s.pick(std::vector<double>{0.1, 0.1, 1.0, 1.0, 0.2})); tr += " " + pbt::str(periods.back()); }
  int kind = s.pick(std::vector<int>{0, 1, 1, 2, 2, 4, 4, 5, 5, -1}), at = s.i(1, 20), wait = s.i(0, 3000);
  NOTE("timers" << tr << ", stop at " << (kind < 0 ? "nothing" : kPoint[kind]) << " " << at);
  arm(kind, 1, at);
  std::thread tv([&] { tRole = 1; for (double p : periods) shim::fireTimers(p); mark(&Hold::vDone); });
  await([] { return H.held || H.vDone; }, 1e-6 * wait);
  bool h; { std::lock_guard<std::mutex> l(H.m); h = H.held || !H.vDone; }
  std::thread ta([&] { tRole = 2; r.node.reset(); mark(&Hold::aDone); });
  await([] { return H.aDone; }, 0.003);
  mark(&Hold::released); H.armed = false;
  bool ends = await([] { return H.aDone && H.vDone; }, 25);
  if (!ends) { tv.detach(); ta.detach(); rp.release(); }
  CHECK(ends, "the node does not end:" << tr);
  tv.join(); ta.join();
  shim::pointHook() = nullptr;
  shim::clearPublished();
  for (double p : {0.1, 0.2, 1.0}) shim::fireTimers(p);
  CHECK(shim::published<geometry_msgs::PoseStamped>("mavros/setpoint_position/local").empty() && shim::published<mavros_msgs::CompanionProcessStatus>("mavros/companion_process/status").empty(), "a node that has ended still sends:" << tr);
  pbt::nontrivial(h);
}
// ------------------------------------------------------------------ the landing planner's node
namespace {
struct Slp {
  std::unique_ptr<avoidance::SafeLandingPlannerNode> node;
  bool bag;
  explicit Slp(bool b) : bag(b) {
    shim::dropAll(); shim::clearTf(); shim::setNow(1000); shim::sleepAdvances() = false; shim::bus().record = true; shim::okFlag() = true;
    shim::setParam("pointcloud_topics", std::string("/cam/points")); shim::setParam("play_rosbag", bag);
    node.reset(new avoidance::SafeLandingPlannerNode(ros::NodeHandle("~")));
    SCfg c = SCfg::__getDefault__(); c.grid_size = 5; c.cell_size = 1; c.smoothing_size = 1;
    shim::reconfigure(c, ~0u);
    tf::Transform id(tf::Quaternion(0, 0, 0, 1), tf::Vector3(0, 0, 0));
    for (double t : {999.0, 1010.0}) shim::setTf("local_origin", "cam", id, ros::Time(t));
  }
  ~Slp() { syncw::off(); shim::okFlag() = false; node.reset(); shim::okFlag() = true; shim::onCallAvailable() = nullptr; shim::sleepAdvances() = true; shim::bus().record = true; shim::setParam("play_rosbag", false); shim::clearTf(); shim::dropAll(); }
};
boost::shared_ptr<sensor_msgs::PointCloud2 const> land(pbt::Src& s, double t) { std::vector<F3> p; for (int i = s.i(1, 40); i > 0; --i) p.push_back(F3(s.sf(3), s.sf(3), s.sf(1))); return cloudMsg(p, "cam", ros::Time(t)); }
}  // namespace
FACET(P37, landing_races, 400, 8000, "a landing planner node with its own cloud thread and 3-25 cycles whose waits serve clouds, positions and settings, while another thread adds transforms and moves the clock; non-trivial when at least three grids were made") {
  Slp r(false);
  shim::Port<geometry_msgs::PoseStamped> pose("mavros/local_position/pose");
  shim::Port<sensor_msgs::PointCloud2> cam("/cam/points");
  std::vector<std::vector<Act>> Q; int n = s.i(3, 25), sets = 0; std::string tr = pbt::str(n) + " cycles:";
  double stamp = 1000;
  for (int k = 0; k < n * 2; ++k) {
    std::vector<Act> q;
    for (int j = s.i(0, 3); j > 0; --j) switch (s.w({4, 3, 1})) {
      case 0: { stamp += 0.05; auto m = land(s, std::min(stamp, 1009.0)); q.push_back([m, &cam] { cam.send(m); }); tr += " cloud"; break; }
      case 1: { auto m = poseMsg(s.sd(2), s.sd(2), s.d(1, 5), 0); q.push_back([m, &pose] { pose.send(m); }); tr += " pose"; break; }
      default: { SCfg c = SCfg::__getDefault__(); c.grid_size = 5; c.cell_size = s.b() ? 1 : 0.5; c.smoothing_size = s.i(0, 1); c.min_n_land_cells = s.i(1, 5); ++sets; q.push_back([c] { shim::reconfigure(c, ~0u); }); tr += " settings"; }
    }
    Q.push_back(q); tr += " |";
  }
  auto fallback = land(s, 1009.0);
  NOTE(tr);
  r.node->startNode();
  size_t at = 0; int idle = 0; bool stuck = false;
  shim::onCallAvailable() = [&](double) {
    if (at < Q.size()) { for (auto& a : Q[at]) a(); ++at; }
    else cam.send(fallback);
    if (++idle > 4000) { stuck = true; shim::okFlag() = false; }
    usleep(idle < 50 ? 100 : 1000);
  };
  std::atomic<bool> quit{false}; std::atomic<int> grids{0};
  bool adds = s.b();
  std::thread other([&] { tf::Transform id(tf::Quaternion(0, 0, 0, 1), tf::Vector3(0, 0, 0)); double t = 1010; while (!quit.load(std::memory_order_relaxed)) { shim::advance(0.02); if (adds) shim::setTf("local_origin", "cam", id, ros::Time(t += 0.05)); usleep(500); } });
  std::thread cmd([&] { for (int k = 0; k < n && !stuck; ++k) { idle = 0; shim::fireTimers(0.1); grids.fetch_add(1, std::memory_order_relaxed); } });
  cmd.join(); quit = true; other.join();
  CHECK(!stuck, "clouds keep coming and no grid is made: " << tr);
  auto g = shim::published<safe_landing_planner::SLPGridMsg>("grid_slp");
  CHECK(int(g.size()) == n, g.size() << " grids of " << n << " cycles: " << tr);
  pbt::nontrivial(n >= 3);
}
FACET(P37, landing_stop, 150, 3000, "a landing planner node (clouds or recorded grids) destroyed while a cycle waits or runs and its cloud thread works, one of them possibly stopped at a random point; non-trivial when a cycle was under way") {
  tRole = 3;
  std::unique_ptr<Slp> rp(new Slp(s.b(1, 4))); Slp& r = *rp;
  std::vector<boost::shared_ptr<sensor_msgs::PointCloud2 const>> clouds; for (int k = 0; k < 6; ++k) clouds.push_back(land(s, 1000 + 0.1 * k));
  int kind = s.pick(std::vector<int>{0, 1, 1, 2, 3, 4, 4, 5, 5, 6, 6, 7, -1}), at = kind == 6 ? s.i(1, 3) : s.i(1, 15), who = kind == 6 ? 0 : s.i(0, 1), wait = s.i(0, 4000), every = s.i(0, 3), n = s.i(1, 3); bool down = s.b();
  std::string tr = pbt::str(n) + " cycles, stop at " + (kind < 0 ? "nothing" : kPoint[kind]) + " " + pbt::str(at) + (who ? " of the cycle" : " of the cloud thread") + (down ? ", shut down" : "");
  NOTE(tr);
  arm(kind, who, at);
  r.node->startNode();
  int calls = 0;
  shim::onCallAvailable() = [&](double) { if (every && calls++ % every == 0) shim::deliver("/cam/points", *clouds[size_t(calls) % 6]); usleep(100); };
  std::thread tv([&] { tRole = 1; for (int k = 0; k < n; ++k) shim::fireTimers(0.1); mark(&Hold::vDone); });
  await([] { return H.held || H.vDone; }, 1e-6 * wait);
  bool h; { std::lock_guard<std::mutex> l(H.m); h = !H.vDone; }
  std::thread ta([&] { tRole = 2; if (down) shim::okFlag() = false; r.node.reset(); mark(&Hold::aDone); });
  await([] { return H.aDone; }, 0.003);
  mark(&Hold::released); H.armed = false;
  bool ends = await([] { return H.aDone && H.vDone; }, 25);
  if (!ends) { tv.detach(); ta.detach(); rp.release(); }
  CHECK(ends, "the node does not end: " << tr);
  tv.join(); ta.join();
  shim::pointHook() = nullptr; shim::onCallAvailable() = nullptr;
  shim::clearPublished();
  shim::fireTimers(0.1);
  CHECK(shim::published<safe_landing_planner::SLPGridMsg>("grid_slp").empty(), "a node that has ended still sends: " << tr);
  pbt::nontrivial(h);
}
