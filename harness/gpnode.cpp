// P31-P33: the global planner node: goals, paths and setpoints; maps, clouds, status and settings; its threads
#include <gpworld.h>
#include <avoidance/common.h>
#include <global_planner/global_planner_node.h>
#include <global_planner/analysis.h>
#include <mavros_msgs/CompanionProcessStatus.h>
#include <atomic>
#include <condition_variable>
#include <thread>
using namespace global_planner;
using namespace gw;
typedef global_planner::GlobalPlannerNodeConfig Cfg;

namespace {
const int BOOT = 1, ACTIVE = 4, CRITICAL = 5, TERMINATION = 8;
geometry_msgs::PoseStamped poseMsg(double x, double y, double z, double yaw) {
  geometry_msgs::PoseStamped m; m.header.frame_id = "odom"; m.header.stamp = ros::Time::now();
  m.pose.position.x = x; m.pose.position.y = y; m.pose.position.z = z; m.pose.orientation = tf::createQuaternionMsgFromYaw(yaw);
  return m;
}
sensor_msgs::PointCloud2 cloudMsg(const std::vector<std::array<float, 3>>& p, const std::string& frame) {
  sensor_msgs::PointCloud2 m;
  m.header.frame_id = frame; m.header.stamp = ros::Time::now(); m.height = 1; m.width = uint32_t(p.size());
  const char* n[] = {"x", "y", "z"};
  for (int i = 0; i < 3; ++i) { sensor_msgs::PointField f; f.name = n[i]; f.offset = uint32_t(4 * i); f.datatype = 7; f.count = 1; m.fields.push_back(f); }
  m.point_step = 16; m.row_step = 16 * m.width; m.data.assign(m.row_step, 0);
  for (size_t i = 0; i < p.size(); ++i) memcpy(&m.data[i * 16], p[i].data(), 12);
  m.is_dense = false;
  return m;
}
std::string sq(const geometry_msgs::Point& p) { return "(" + pbt::str(p.x) + "," + pbt::str(p.y) + "," + pbt::str(p.z) + ")"; }
double dist(const geometry_msgs::Point& a, const geometry_msgs::Point& b) { return std::sqrt((a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y) + (a.z - b.z) * (a.z - b.z)); }
bool samePt(const geometry_msgs::Point& a, const geometry_msgs::Point& b) { return dist(a, b) < 1e-9 * (1 + std::fabs(a.x) + std::fabs(a.y) + std::fabs(a.z)); }
bool samePath(const nav_msgs::Path& a, const nav_msgs::Path& b) {
  if (a.poses.size() != b.poses.size() || a.header.frame_id != b.header.frame_id) return false;
  for (size_t i = 0; i < a.poses.size(); ++i) {
    auto &p = a.poses[i].pose, &q = b.poses[i].pose;
    if (!samePt(p.position, q.position) || std::fabs(std::remainder(tf::getYaw(p.orientation) - tf::getYaw(q.orientation), 2 * M_PI)) > 1e-6) return false;
  }
  return true;
}
std::string sp(const nav_msgs::Path& p) { std::string r; for (auto& q : p.poses) r += sq(q.pose.position); return r; }

struct Params { geometry_msgs::Point start; std::string frame = "local_origin", camFrame = "camera_link"; double radius = 0.5; std::vector<std::string> topics; bool given = false; };

// the node and what it should do
struct Rig {
  Params pa;
  std::unique_ptr<GlobalPlannerNode> node;
  GlobalPlanner twin;
  Cfg cfg;
  std::vector<GoalCell> way;
  std::vector<geometry_msgs::PoseStamped> path;
  geometry_msgs::PoseStamped goal, pos;
  std::vector<geometry_msgs::Point> flown;
  double speed, lastMap = -1e9, start = 0;
  int poses = 0, nested = 0;
  World w;
  std::map<int, World> worlds; int mapId = 0; std::set<int> unusable;
  std::string tr;
  bool risky = false;  // settings or seen cells changed since the last map
  size_t longest = 0; int pops = 0, halves = 0, goals = 0;
  Rig(pbt::Src& s, bool randomStart) {
    shim::dropAll(); shim::clearTf(); shim::setNow(1000); octomap::OcTree::searchHook() = nullptr;
    pa.start.x = 0.5; pa.start.y = 0.5; pa.start.z = 3.5;
    pa.topics = {"/cam1/points", "/cam2/points"};
    if (randomStart) { pa.given = true; pa.start.x = s.sd(4); pa.start.y = s.sd(4); pa.start.z = s.d(1, 5); pa.frame = "map"; pa.radius = s.b() ? 0.5 : s.d(0.1, 2); pa.camFrame = "depth_optical"; }
    shim::setParam("start_pos_x", pa.start.x); shim::setParam("start_pos_y", pa.start.y); shim::setParam("start_pos_z", pa.start.z);
    shim::setParam("frame_id", pa.frame); shim::setParam("camera_frame_id", pa.camFrame); shim::setParam("robot_radius", pa.radius);
    shim::setParam("pointcloud_topics", pa.topics);
    shim::octomapFactory() = [this](const octomap_msgs::Octomap& m) -> octomap::AbstractOcTree* { return unusable.count(int(m.header.seq)) ? nullptr : worlds[int(m.header.seq)].tree(); };
    node.reset(new GlobalPlannerNode(ros::NodeHandle(""), ros::NodeHandle("")));
    start = 1000;
    twin.goal_pos_ = GoalCell(pa.start.x, pa.start.y, pa.start.z);
    twin.setFrame(pa.frame); twin.setRobotRadius(pa.radius);
    apply(Cfg::__getDefault__());
    goal = poseMsg(pa.start.x, pa.start.y, pa.start.z, 0);
    speed = cfg.default_speed_;
    w.empty = true;
    shim::setTf(pa.frame, pa.camFrame, tf::Transform(tf::Quaternion(0, 0, 0, 1), tf::Vector3(0, 0, 0)), ros::Time(0));
    shim::clearPublished();
  }
  ~Rig() { octomap::OcTree::searchHook() = nullptr; shim::octomapFactory() = nullptr; node.reset(); shim::clearTf(); delete twin.octree_; shim::dropAll(); }
  void apply(const Cfg& c) {
    cfg = c;
    twin.min_altitude_ = c.min_altitude_; twin.max_altitude_ = c.max_altitude_; twin.max_cell_risk_ = c.max_cell_risk_; twin.smooth_factor_ = c.smooth_factor_;
    twin.vert_to_hor_cost_ = c.vert_to_hor_cost_; twin.risk_factor_ = c.risk_factor_; twin.neighbor_risk_flow_ = c.neighbor_risk_flow_; twin.explore_penalty_ = c.explore_penalty_;
    twin.up_cost_ = c.up_cost_; twin.down_cost_ = c.down_cost_; twin.search_time_ = c.search_time_; twin.min_overestimate_factor_ = c.min_overestimate_factor_;
    twin.max_overestimate_factor_ = c.max_overestimate_factor_; twin.risk_threshold_risk_based_speedup_ = c.risk_threshold_risk_based_speedup_; twin.default_speed_ = c.default_speed_;
    twin.max_speed_ = c.max_speed_; twin.max_iterations_ = c.max_iterations_; twin.goal_must_be_free_ = c.goal_must_be_free_; twin.use_current_yaw_ = c.use_current_yaw_;
    twin.use_risk_heuristics_ = c.use_risk_heuristics_; twin.use_speedup_heuristics_ = c.use_speedup_heuristics_; twin.use_risk_based_speedup_ = c.use_risk_based_speedup_;
    twin.default_node_type_ = c.default_node_type_;
  }
  Cfg random(pbt::Src& s) {
    Cfg c = Cfg::__getDefault__();
    c.min_altitude_ = s.i(0, 2); c.max_altitude_ = s.i(3, 8);
    if (s.b(1, 3)) c.max_cell_risk_ = s.d(0.05, 1);
    c.smooth_factor_ = s.b() ? 20 : s.d(0, 100);
    c.vert_to_hor_cost_ = s.d(0, 10);
    c.risk_factor_ = s.b() ? 500 : s.d(0, 1000);
    c.neighbor_risk_flow_ = s.b(2, 3) ? 1.0 : s.d(0, 1);
    c.explore_penalty_ = s.b(2, 3) ? 0.005 : s.d(0, 0.01);
    c.up_cost_ = s.d(0, 10); c.down_cost_ = s.d(0, 10);
    c.search_time_ = s.d(0, 1);
    c.min_overestimate_factor_ = s.b() ? 1.03 : s.d(1, 1.5); c.max_overestimate_factor_ = s.b() ? 2.0 : s.d(1, 5);
    c.risk_threshold_risk_based_speedup_ = s.d(0, 1);
    c.default_speed_ = s.b() ? 1.0 : s.d(0.1, 3); c.max_speed_ = s.d(1, 6);
    c.max_iterations_ = s.w({3, 1, 1}) == 0 ? 1000 : s.i(0, 200);
    c.goal_must_be_free_ = s.b(); c.use_current_yaw_ = s.b(); c.use_risk_heuristics_ = s.b(); c.use_speedup_heuristics_ = s.b(); c.use_risk_based_speedup_ = s.b();
    c.clicked_goal_alt_ = s.d(0, 6); c.clicked_goal_radius_ = s.b() ? 1.0 : s.d(0.1, 4);
    c.simplify_iterations_ = s.i(0, 5); c.simplify_margin_ = s.b() ? 1.01 : s.d(0, 2);
    c.SPEEDNODE_RADIUS = s.b() ? 5 : s.d(1, 8);
    c.default_node_type_ = s.pick(std::vector<std::string>{"SpeedNode", "Node", "NodeWithoutSmooth"});
    return c;
  }
  double now() const { return ros::Time::now().toSec(); }
  void send(const Cfg& c) { CHECK(shim::reconfigure(c) == 1, "the node does not listen to reconfiguration"); }
  void told(const Cfg& c) { risky |= c.neighbor_risk_flow_ != cfg.neighbor_risk_flow_ || c.explore_penalty_ != cfg.explore_penalty_; apply(c); tr += " settings"; }
  // maps
  octomap_msgs::Octomap mapMsg(const World& x, bool usable) { octomap_msgs::Octomap m; m.header.seq = uint32_t(++mapId); m.header.frame_id = pa.frame; m.id = "OcTree"; m.resolution = x.res; worlds[mapId] = x; if (!usable) unusable.insert(mapId); return m; }
  void sendMap(const octomap_msgs::Octomap& m) { CHECK(shim::deliver("octomap_full", m) == 1, "nobody listens to maps"); }
  bool tookMap(const octomap_msgs::Octomap& m, double t) {  // received at t
    if (t - lastMap < 0.2 - 1e-7) { tr += " map(too early)"; return false; }
    lastMap = t;
    int id = int(m.header.seq);
    if (unusable.count(id)) { tr += " map(unusable)"; return false; }
    tr += " map(" + pbt::str(worlds[id].vox.size()) + ")";
    w = worlds[id]; twin.updateFullOctomap(w.tree()); risky = false;
    return true;
  }
  World randomMap(pbt::Src& s) { World x; randomWorld(s, x, 6, 5, true); if (s.b(1, 6)) { x.vox.clear(); x.occ.clear(); } return x; }
  // sees the obstacles, then gets the map
  void newMap(pbt::Src& s) {
    if (now() - lastMap < 0.21) shim::advance(0.25);
    World x = randomMap(s);
    std::vector<std::array<float, 3>> pts; std::vector<Cell> cells;
    for (auto& o : x.occ) pts.push_back({float(o[0]) + 0.5f, float(o[1]) + 0.5f, float(o[2]) + 0.5f});
    if (!pts.empty()) { shim::deliver(pa.topics[0], cloudMsg(pts, pa.camFrame)); for (auto& o : x.occ) twin.occupied_.insert(cell(o)); }
    auto m = mapMsg(x, true); sendMap(m); tookMap(m, now());
  }
  // poses
  void sendPose(const geometry_msgs::PoseStamped& p) { CHECK(shim::deliver("mavros/local_position/pose", p) >= 1, "nobody listens to the position"); }
  void tookPose(const geometry_msgs::PoseStamped& p) {
    pos = p; twin.setPose(p);
    tr += " at" + sq(p.pose.position);
    auto m = shim::published<nav_msgs::Path>("actual_path");
    if (poses++ % 10 == 0) {
      flown.push_back(p.pose.position);
      CHECK(m.size() == 1, m.size() << " messages with the flown path after position " << poses << ":" << tr);
      CHECK(m[0].header.frame_id == pa.frame && m[0].poses.size() == flown.size(), "flown path with " << m[0].poses.size() << " positions of " << flown.size() << " in frame " << m[0].header.frame_id << ":" << tr);
      for (size_t i = 0; i < flown.size(); ++i) CHECK(samePt(m[0].poses[i].pose.position, flown[i]), "flown position " << i << ":" << tr);
    } else CHECK(m.empty(), "flown path after position " << poses << ":" << tr);
    if (!path.empty()) {
      double d = dist(goal.pose.position, p.pose.position);
      if (std::fabs(d - speed) < 1e-9) pbt::discard();
      double y = std::fabs(std::remainder(tf::getYaw(p.pose.orientation) - tf::getYaw(goal.pose.orientation), 2 * M_PI));
      if (M_PI - y < 1e-6) pbt::discard();
      if (d < speed) { goal = path[0]; path.erase(path.begin()); ++pops; tr += " next" + sq(goal.pose.position); }
    }
  }
  geometry_msgs::PoseStamped nextPose(pbt::Src& s) {
    double x, y, z, yaw = s.b() ? tf::getYaw(goal.pose.orientation) + s.sd(0.5) : s.sd(3.1);
    const auto& g = goal.pose.position; const auto& p = pos.pose.position;
    switch (s.w({5, 3, 2, 1})) {
      case 0: { double r = speed * s.d(0, 1.2) / 1.74; x = g.x + s.sd(r); y = g.y + s.sd(r); z = g.z + s.sd(r); break; }
      case 1: { double f = s.d(0, 1); x = p.x + f * (g.x - p.x); y = p.y + f * (g.y - p.y); z = p.z + f * (g.z - p.z); break; }
      case 2: x = s.sd(6); y = s.sd(6); z = s.d(1, 5); break;
      default: x = g.x; y = g.y; z = g.z;
    }
    return poseMsg(x, y, z, yaw);
  }
  // goals
  std::vector<GoalCell> announced;
  void setGoal(const GoalCell& g) { twin.setGoal(g); announced.push_back(g); }
  void goalsAnnounced() {
    auto t = shim::published<geometry_msgs::PointStamped>("global_temp_goal"), g = shim::published<geometry_msgs::PointStamped>("global_goal");
    CHECK(t.size() == announced.size(), t.size() << " goals announced, expected " << announced.size() << ":" << tr);
    size_t k = 0;
    for (size_t i = 0; i < announced.size(); ++i) {
      auto c = announced[i].toPoint();
      CHECK(samePt(t[i].point, c) && t[i].header.frame_id == pa.frame, "announced goal " << sq(t[i].point) << ", expected " << sq(c) << ":" << tr);
      if (announced[i].is_temporary_) continue;
      CHECK(k < g.size() && samePt(g[k].point, c) && g[k].header.frame_id == pa.frame, "the goal " << sq(c) << " is not announced as goal:" << tr);
      ++k;
    }
    CHECK(k == g.size(), g.size() << " goals announced as goals, expected " << k << ":" << tr);
    announced.clear();
  }
  void clicked(double x, double y) { way.clear(); setGoal(GoalCell(x, y, cfg.clicked_goal_alt_, cfg.clicked_goal_radius_)); ++goals; tr += " clicked(" + pbt::str(x) + "," + pbt::str(y) + ")"; }
  const GoalCell& destination() const { return way.empty() ? twin.goal_pos_ : way.back(); }
  mavros_msgs::Trajectory desired(double x, double y, double z, bool valid) {
    mavros_msgs::Trajectory m; m.point_2.position.x = x; m.point_2.position.y = y; m.point_2.position.z = z; m.point_valid[1] = valid; m.point_valid[0] = true;
    m.point_1.position.x = 77; return m;
  }
  void toldDesired(double x, double y, double z, bool valid) {
    GoalCell g(x, y, z, 1.0); tr += " wanted(" + pbt::str(x) + "," + pbt::str(y) + "," + pbt::str(z) + (valid ? ")" : " invalid)");
    if (!valid || (destination().xIndex() == g.xIndex() && destination().yIndex() == g.yIndex())) return;
    way.clear(); setGoal(g); ++goals;
  }
  // a planning round
  struct Round { nav_msgs::Path raw, simple; bool found = false; };
  Round plan() {
    tr += " plan";
    if (twin.goal_pos_.withinPositionRadius(twin.curr_pos_) || twin.goal_is_blocked_) {
      if (!way.empty()) { GoalCell g = way.front(); way.erase(way.begin()); setGoal(g); tr += "(goal)"; }
      else if (twin.goal_is_blocked_) { twin.stop(); tr += "(stop)"; }
    }
    bool ok = twin.getGlobalPath();
    size_t n = twin.curr_path_.size();
    tr += ok ? "(" + pbt::str(n) + ")" : "(none)";
    if (ok && twin.overestimate_factor_ > 1.05 && n > 10) { nested += !way.empty(); way.insert(way.begin(), twin.goal_pos_); setGoal(GoalCell(twin.curr_path_[n / 2], int(n) / 4, true)); ++halves; tr += "(half)"; }
    longest = std::max(longest, n);
    Round r; r.found = ok;
    r.raw = twin.getPathMsg();
    auto simple = simplifyPath(&twin, twin.curr_path_, cfg.simplify_margin_, cfg.simplify_iterations_);
    r.simple = twin.getPathMsg(simple);
    return r;
  }
  void follow(const nav_msgs::Path& p) {
    path.clear();
    if (p.poses.size() < 2) return;
    goal = p.poses[1]; path.assign(p.poses.begin() + 2, p.poses.end());
  }
  void planned(const Round& r) {
    auto t = shim::published<nav_msgs::Path>("global_temp_path");
    CHECK(!t.empty() && samePath(t.back(), r.simple), "path to follow " << (t.empty() ? std::string("missing") : sp(t.back())) << ", expected " << sp(r.simple) << ":" << tr);
    bool raw = false; for (auto& m : t) { raw |= samePath(m, r.raw); CHECK(samePath(m, r.raw) || samePath(m, r.simple), "published path " << sp(m) << ":" << tr); }
    CHECK(raw, "the planned path " << sp(r.raw) << " is not published:" << tr);
    auto sm = shim::published<nav_msgs::Path>("smooth_path");
    CHECK(!sm.empty() && samePath(sm.back(), smoothPath(r.simple)), "smoothed path:" << tr);
    follow(r.raw); follow(r.simple);
  }
  // a setpoint
  double modelSpeed() {
    if (!cfg.use_risk_based_speedup_) return cfg.default_speed_;
    double r = std::sqrt(twin.getRisk(Cell(pos.pose.position)));
    return r >= cfg.risk_threshold_risk_based_speedup_ ? cfg.default_speed_ : cfg.default_speed_ + (cfg.max_speed_ - cfg.default_speed_) * (1 - r);
  }
  geometry_msgs::Point setpoint(const geometry_msgs::Point& p, double v) const {
    const auto& g = goal.pose.position; double d = dist(g, p);
    if (d < 1.0) return g;
    geometry_msgs::Point q; q.x = p.x + (g.x - p.x) / d * v; q.y = p.y + (g.y - p.y) / d * v; q.z = p.z + (g.z - p.z) / d * v; return q;
  }
  void setpointSent(const std::vector<geometry_msgs::Point>& ok) {
    auto a = shim::published<geometry_msgs::PoseStamped>("mavros/setpoint_position/local"), b = shim::published<geometry_msgs::PoseStamped>("current_setpoint");
    auto t = shim::published<mavros_msgs::Trajectory>("mavros/trajectory/generated");
    CHECK(a.size() == 1 && t.size() == 1, a.size() << " setpoints and " << t.size() << " trajectories in a cycle:" << tr);
    bool found = false;
    for (auto& q : ok) found |= dist(a[0].pose.position, q) < 1e-6;
    CHECK(found, "setpoint " << sq(a[0].pose.position) << ", expected " << sq(ok[0]) << " (at " << sq(pos.pose.position) << " goal " << sq(goal.pose.position) << " speed " << speed << "):" << tr);
    double y = tf::getYaw(goal.pose.orientation);
    CHECK(std::fabs(std::remainder(tf::getYaw(a[0].pose.orientation) - y, 2 * M_PI)) < 1e-6, "setpoint with yaw " << tf::getYaw(a[0].pose.orientation) << ", expected " << y << ":" << tr);
    if (!b.empty()) CHECK(samePt(b.back().pose.position, a[0].pose.position), "displayed setpoint:" << tr);
    auto& p1 = t[0].point_1;
    CHECK(dist(p1.position, a[0].pose.position) < 1e-5 && std::fabs(std::remainder(p1.yaw - y, 2 * M_PI)) < 1e-4, "trajectory to " << sq(p1.position) << " yaw " << p1.yaw << " with the setpoint " << sq(a[0].pose.position) << ":" << tr);
    CHECK(std::isnan(p1.velocity.x) && std::isnan(p1.velocity.y) && std::isnan(p1.velocity.z), "a velocity is commanded:" << tr);
    CHECK(t[0].point_valid[0] && !t[0].point_valid[1] && !t[0].point_valid[2] && !t[0].point_valid[3] && !t[0].point_valid[4], "validity of the trajectory points:" << tr);
  }
};
}  // namespace

// ------------------------------------------------------------------ P31
FACET(P31, follow_path, 250, 4000, "histories of 5-40 maps, positions near and off the path, clicked and commanded goals, settings, planning rounds and setpoint cycles, compared with a planner driven by the rules of the statement; non-trivial when at least two vertices of planned paths were passed") {
  Rig r(s, s.b(1, 3));
  if (s.b(9, 10)) { Cfg c = r.random(s); r.send(c); r.told(c); }
  auto flush = [&] { r.goalsAnnounced(); shim::clearPublished(); };
  double far = s.b(1, 3) ? 35 : 6.9;
  auto goalXY = [&](double& x, double& y) { x = s.sd(far); y = s.sd(far); };
  if (s.b(9, 10)) r.newMap(s);
  { auto p = poseMsg(s.sd(6), s.sd(6), s.d(1.1, 4), s.sd(3.1)); shim::clearPublished(); r.sendPose(p); r.tookPose(p); }
  flush();
  int n = s.i(5, 40);
  for (int k = 0; k < n; ++k) {
    shim::advance(s.pick(std::vector<double>{0.1, 0.03, 0.25, 1.0}));
    int op = s.w({8, 5, 5, 2, 2, 1, 1, 1, 1});
    if (r.risky && (op == 1 || op == 2 || op == 6)) { r.newMap(s); shim::clearPublished(); }
    switch (op) {
      case 0: { auto p = r.nextPose(s); r.sendPose(p); r.tookPose(p); break; }
      case 1: {
        shim::fireTimers(0.1); r.tr += " cycle"; r.speed = r.modelSpeed();
        r.setpointSent({r.setpoint(r.pos.pose.position, r.speed)});
        break;
      }
      case 2: { shim::fireTimers(1.0); auto x = r.plan(); r.planned(x); break; }
      case 3: {
        double x, y; goalXY(x, y); geometry_msgs::PoseStamped m = poseMsg(x, y, s.d(0, 9), 0);
        CHECK(shim::deliver("move_base_simple/goal", m) == 1, "nobody listens to clicked goals"); r.clicked(x, y); break;
      }
      case 4: {
        double x, y, z = s.d(1.1, 5); bool valid = s.b(4, 5); goalXY(x, y);
        if (s.b(1, 3)) { x = r.destination().xPos(); y = r.destination().yPos(); z = r.destination().zPos(); }  // the same again
        else if (r.destination().xIndex() == int(std::floor(x)) && r.destination().yIndex() == int(std::floor(y))) break;
        CHECK(shim::deliver("mavros/trajectory/desired", r.desired(x, y, z, valid)) == 1, "nobody listens to the flight controller"); r.toldDesired(x, y, z, valid); break;
      }
      case 5: { Cfg c = r.random(s); r.send(c); r.told(c); break; }
      case 6: { geometry_msgs::PointStamped m; m.point.x = s.sd(6); m.point.y = s.sd(6); m.point.z = s.d(0, 5); CHECK(shim::deliver("clicked_point", m) == 1, "nobody listens to clicked points"); r.tr += " point"; break; }
      case 7: r.newMap(s); break;
      default: {
        geometry_msgs::TwistStamped v; v.twist.linear.x = s.sd(2); v.twist.linear.y = s.sd(2); v.twist.linear.z = s.sd(1); r.tr += " velocity";
        CHECK(shim::deliver("mavros/local_position/velocity", v) == 1, "nobody listens to the velocity"); r.twin.curr_vel_ = v.twist.linear;
      }
    }
    flush();
  }
  NOTE(r.tr);
  if (r.halves) pbt::label("halfway goal");
  if (r.nested) pbt::label("nested halfway goals");
  if (r.goals > 1) pbt::label("several goals");
  pbt::nontrivial(r.pops >= 2);
}

// ------------------------------------------------------------------ P32
FACET(P32, maps_and_status, 500, 8000, "histories of 5-40 maps (usable or not) at any rate, setpoint cycles and status ticks after pauses of up to 16 s; non-trivial when a map was refused or ignored and the status was critical or worse and active again") {
  Rig r(s, false);
  auto p = poseMsg(0.5, 0.5, 2.5, 0); r.sendPose(p); r.tookPose(p);
  double loMap = -1e9, hiMap = -1e9;  // time of the last map, depending on whether unusable ones count
  int want = BOOT; bool sure = true; std::set<int> seen; bool refused = false, again = false;
  int n = s.i(5, 40);
  for (int k = 0; k < n; ++k) {
    shim::clearPublished();
    double dt = s.pick(std::vector<double>{0.0, 0.043, 0.117, 0.187, 0.213, 0.31, 0.62, 1.07, 4.1, 5.53, 16.1}); shim::advance(dt); r.tr += " +" + pbt::str(dt);
    double t = r.now();
    switch (s.w({4, 4, 3})) {
      case 0: {
        bool usable = s.b(4, 5);
        World x = r.randomMap(s); x.occ.clear();
        auto m = r.mapMsg(x, usable);
        double before = r.lastMap;
        // only an unusable one was just before: it may count or not
        bool either = usable && t - hiMap < 0.2 && t - loMap >= 0.2;
        r.sendMap(m);
        if (either) { NOTE(r.tr); pbt::label("either"); return; }
        bool took = r.tookMap(m, t);
        if (took) loMap = hiMap = t; else if (!usable) { if (t - before >= 0.2) hiMap = t; refused = true; } else refused = true;
        r.lastMap = hiMap;
        if (!r.w.empty) for (int q = 0; q < 6; ++q) {
          I3 c = {s.si(6), s.si(6), s.i(1, 6)};
          if (!x.vox.empty() && s.b()) { auto it = x.vox.begin(); std::advance(it, s.raw(x.vox.size())); c = it->first; }
          double a = r.node->global_planner_.getSingleCellRisk(cell(c)), b = r.twin.getSingleCellRisk(cell(c));
          CHECK(std::fabs(a - b) < 1e-9, "risk " << a << " of cell " << sc(c) << ", expected " << b << " of the last map:" << r.tr);
          a = r.node->global_planner_.getRisk(cell(c)); b = r.twin.getRisk(cell(c));
          CHECK(std::fabs(a - b) < 1e-9, "risk " << a << " around cell " << sc(c) << ", expected " << b << " of the last map:" << r.tr);
        }
        break;
      }
      case 1: {
        shim::fireTimers(0.1);
        auto of = [&](double last) { double c = t - last, st = t - r.start; return c > 15 && st > 15 ? TERMINATION : c > 0.5 && st > 5 ? CRITICAL : ACTIVE; };
        auto edge = [&](double last) { double c = t - last, st = t - r.start; return std::fabs(c - 15) < 1e-6 || std::fabs(c - 0.5) < 1e-6 || std::fabs(st - 5) < 1e-6 || std::fabs(st - 15) < 1e-6; };
        sure = of(loMap) == of(hiMap) && !edge(loMap) && !edge(hiMap);
        want = of(hiMap); r.tr += " cycle";
        CHECK(shim::published<mavros_msgs::Trajectory>("mavros/trajectory/generated").size() == 1, "no setpoint in a cycle:" << r.tr);
        if (sure) { if (want == ACTIVE && seen.count(CRITICAL) + seen.count(TERMINATION)) again = true; seen.insert(want); }
        break;
      }
      default: {
        shim::fireTimers(0.2);
        auto m = shim::published<mavros_msgs::CompanionProcessStatus>("mavros/companion_process/status"); r.tr += " status";
        CHECK(m.size() >= 1, "no status is sent:" << r.tr);
        if (sure) CHECK(int(m.back().state) == want, "status " << int(m.back().state) << ", expected " << want << ":" << r.tr);
      }
    }
  }
  NOTE(r.tr);
  pbt::nontrivial(refused && again);
}
FACET(P32, clouds, 1500, 20000, "histories of 1-10 clouds of two cameras with invalid points under moving, missing or failing transforms; non-trivial when a cloud was placed with a rotation and another could not be placed") {
  Rig r(s, s.b());
  std::set<I3> must, may; std::map<I3, int> dummy; bool rotated = false, lost = false;
  tf::Transform T(tf::Quaternion(0, 0, 0, 1), tf::Vector3(0, 0, 0));
  bool there = true;
  int n = s.i(1, 10);
  for (int k = 0; k < n; ++k) {
    shim::advance(s.d(0, 1));
    shim::clearPublished();
    if (s.b()) {
      there = s.b(3, 4); shim::clearTf();
      tf::Quaternion q; q.setRPY(s.sd(3), s.sd(1.5), s.sd(3)); T = tf::Transform(q, tf::Vector3(s.sd(20), s.sd(20), s.sd(10)));
      if (there) shim::setTf(r.pa.frame, r.pa.camFrame, T, ros::Time(0)); 
      r.tr += there ? " tf" : " no-tf"; rotated |= there;
    }
    std::vector<std::array<float, 3>> pts; int m = s.i(0, 15);
    for (int i = 0; i < m; ++i) { float x = s.sf(15), y = s.sf(15), z = s.sf(8); if (s.b(1, 6)) x = y = z = NAN; else if (s.b(1, 10)) { float f = s.pick(std::vector<float>{INFINITY, -INFINITY, NAN}); int w = s.i(0, 3); if (w == 0 || w == 3) x = f; if (w == 1 || w == 3) y = f; if (w == 2) z = f; } pts.push_back({x, y, z}); }
    auto msg = cloudMsg(pts, s.b() ? r.pa.camFrame : std::string("other"));
    CHECK(shim::deliver(r.pa.topics[s.raw(2)], msg) == 1, "nobody listens to a camera");
    r.tr += " cloud(" + pbt::str(m) + ")";
    auto out = shim::published<sensor_msgs::PointCloud2>("cloud_in");
    if (there) {
      for (auto& q : pts) {
        if (!std::isfinite(q[0]) || !std::isfinite(q[1]) || !std::isfinite(q[2])) continue;  // not a place
        tf::Vector3 e = T * tf::Vector3(q[0], q[1], q[2]);
        double c[3] = {e.x(), e.y(), e.z()}; std::vector<I3> cand(1, I3{0, 0, 0}); 
        for (int a = 0; a < 3; ++a) {
          int f = int(std::floor(c[a])); double fr = c[a] - f; std::vector<I3> nx;
          for (auto v : cand) { v[a] = f; nx.push_back(v); if (fr < 1e-4) { v[a] = f - 1; nx.push_back(v); } if (fr > 1 - 1e-4) { v[a] = f + 1; nx.push_back(v); } }
          cand = nx;
        }
        if (cand.size() == 1) must.insert(cand[0]);
        for (auto& v : cand) may.insert(v);
      }
      CHECK(out.size() == 1 && out[0] == msg, out.size() << " clouds passed on to the map:" << r.tr);
    } else { lost = true; CHECK(out.empty(), "a cloud without a known transform is passed on to the map:" << r.tr); }
    std::set<I3> got; for (auto& c : r.node->global_planner_.occupied_) got.insert(idx(c));
    for (auto& c : must) CHECK(got.count(c), "the cell " << sc(c) << " with a seen point is not remembered:" << r.tr);
    for (auto& c : got) CHECK(may.count(c), "the cell " << sc(c) << " is remembered without a point in it:" << r.tr);
  }
  NOTE(r.tr);
  pbt::nontrivial(rotated && lost);
}
FACET(P32, settings, 300, 3000, "sequences of 1-5 reconfigurations of any parameters with the levels an operator's change has, each followed by a goal and a planning round; non-trivial when the node type or edge length changes") {
  Rig r(s, s.b());
  { auto p = poseMsg(0.5, 0.5, 2.5, 0); r.sendPose(p); r.tookPose(p); }
  World free; for (int x = -10; x <= 10; ++x) for (int y = -6; y <= 6; ++y) for (int z = 1; z <= 5; ++z) free.vox[{x, y, z}] = -2.f;
  auto m = r.mapMsg(free, true); r.sendMap(m); r.tookMap(m, r.now());
  bool nt = false; int n = s.i(1, 5);
  for (int k = 0; k < n; ++k) {
    shim::advance(1);
    Cfg c = r.random(s);
    int level = 0;
    if (s.b()) { c.default_node_type_ = r.cfg.default_node_type_; c.SPEEDNODE_RADIUS = r.cfg.SPEEDNODE_RADIUS; } else { level = s.b() ? 4 : s.b() ? 6 : 5; nt = true; }
    CHECK(shim::reconfigure(c, uint32_t(level)) == 1, "the node does not listen to reconfiguration"); r.told(c);
    GlobalPlanner& g = r.node->global_planner_; GlobalPlanner& t = r.twin;
    r.tr += "(" + c.default_node_type_ + " " + pbt::str(c.SPEEDNODE_RADIUS) + " level " + pbt::str(level) + ")";
    CHECK(g.min_altitude_ == t.min_altitude_ && g.max_altitude_ == t.max_altitude_ && g.max_cell_risk_ == t.max_cell_risk_ && g.smooth_factor_ == t.smooth_factor_ && g.vert_to_hor_cost_ == t.vert_to_hor_cost_, "altitude, risk and turn settings:" << r.tr);
    CHECK(g.risk_factor_ == t.risk_factor_ && g.neighbor_risk_flow_ == t.neighbor_risk_flow_ && g.explore_penalty_ == t.explore_penalty_ && g.up_cost_ == t.up_cost_ && g.down_cost_ == t.down_cost_, "cost settings:" << r.tr);
    CHECK(g.search_time_ == t.search_time_ && g.min_overestimate_factor_ == t.min_overestimate_factor_ && g.max_overestimate_factor_ == t.max_overestimate_factor_ && g.max_iterations_ == t.max_iterations_, "search settings:" << r.tr);
    CHECK(g.risk_threshold_risk_based_speedup_ == t.risk_threshold_risk_based_speedup_ && g.default_speed_ == t.default_speed_ && g.max_speed_ == t.max_speed_ && g.use_risk_based_speedup_ == t.use_risk_based_speedup_, "speed settings:" << r.tr);
    CHECK(g.goal_must_be_free_ == t.goal_must_be_free_ && g.use_current_yaw_ == t.use_current_yaw_ && g.use_risk_heuristics_ == t.use_risk_heuristics_ && g.use_speedup_heuristics_ == t.use_speedup_heuristics_, "switches:" << r.tr);
    CHECK(g.default_node_type_ == c.default_node_type_, "node type " << g.default_node_type_ << ", expected " << c.default_node_type_ << ":" << r.tr);
    // edges of the next path
    double x = s.sd(9.9), y = s.sd(5.9);
    shim::clearPublished();
    shim::deliver("move_base_simple/goal", poseMsg(x, y, 0, 0)); r.clicked(x, y);
    CHECK(g.goal_pos_ == Cell(x, y, c.clicked_goal_alt_) && std::fabs(g.goal_pos_.radius_ - c.clicked_goal_radius_) < 1e-12, "clicked goal with height or radius of other settings:" << r.tr);
    if (r.risky) { auto m2 = r.mapMsg(free, true); r.sendMap(m2); r.tookMap(m2, r.now()); }
    shim::fireTimers(1.0); auto rd = r.plan(); r.planned(rd); r.goalsAnnounced();
    if (c.default_node_type_ == "SpeedNode" && rd.found) {  // a failed search publishes the old path again
      auto t0 = shim::published<nav_msgs::Path>("global_temp_path"); auto& q = t0.front().poses;
      bool level5 = false; for (auto& e : q) level5 |= e.pose.position.z > c.max_altitude_;
      if (!level5) for (size_t i = 2; i < q.size(); ++i) {
        double L = dist(q[i].pose.position, q[i - 1].pose.position), before = dist(q[i - 1].pose.position, q[i - 2].pose.position);
        CHECK(L < std::max(c.SPEEDNODE_RADIUS, 1.5) || L <= before + 1e-9, "an edge of length " << L << " with the limit " << c.SPEEDNODE_RADIUS << ": " << sp(t0.front()) << r.tr);
      }
    }
  }
  NOTE(r.tr);
  pbt::nontrivial(nt);
}
FACET(P32, cell_size, 30, 200, "cell sizes other than 1 m and a goal; non-trivial always") {
  Rig r(s, false);
  struct Back { ~Back() { shim::reconfigure(Cfg::__getDefault__(), 2); } } back;
  { auto p = poseMsg(0.5, 0.5, 2.5, 0); r.sendPose(p); }
  Cfg c = Cfg::__getDefault__(); c.CELL_SCALE = s.b() ? 2.0 : 0.5; c.goal_must_be_free_ = false;
  pbt::nontrivial();
  shim::reconfigure(c, 2);
  World free; free.res = c.CELL_SCALE; for (int x = -20; x <= 20; ++x) for (int y = -6; y <= 6; ++y) for (int z = 0; z <= 8; ++z) free.vox[{x, y, z}] = -2.f;
  auto m = r.mapMsg(free, true); r.sendMap(m);
  double gx = s.sd(8), gy = s.sd(2);
  shim::deliver("move_base_simple/goal", poseMsg(gx, gy, 0, 0));
  shim::clearPublished();
  shim::fireTimers(1.0);
  auto t = shim::published<nav_msgs::Path>("global_temp_path");
  NOTE("cell size " << c.CELL_SCALE << " goal " << gx << "," << gy << " path " << (t.empty() ? std::string() : sp(t[0])));
  bool bad = t.empty();
  for (auto& p : t.empty() ? std::vector<geometry_msgs::PoseStamped>() : t[0].poses) { auto& q = p.pose.position; for (double v : {q.x, q.y, q.z}) if (std::fabs(std::remainder(v / c.CELL_SCALE - 0.5, 1.0)) > 1e-6) bad = true; }
  if (bad && !pbt::known("cell-scale", "the setting CELL_SCALE does not change the size of the planner's cells")) CHECK(false, "with the cell size " << c.CELL_SCALE << " the path is " << (t.empty() ? std::string("missing") : sp(t[0])));
}

// ------------------------------------------------------------------ P33
FACET(P33, interference, 250, 4000, "histories of 3-12 rounds in which a planning round, setpoint cycle or clicked point is interrupted at any of its map lookups by another thread delivering a map, goal, command, setting, cloud, position, point, setpoint cycle or planning round; non-trivial when at least two of them fell into a lookup") {
  Rig r(s, s.b(1, 4));
  Cfg c0 = r.random(s); c0.use_risk_based_speedup_ = s.b(3, 4); c0.max_iterations_ = s.pick(std::vector<int>{100, 300, 1000}); r.send(c0); r.told(c0);
  r.newMap(s);
  shim::clearPublished();
  { auto p = poseMsg(s.sd(6), s.sd(6), s.d(1.1, 4), s.sd(3.1)); r.sendPose(p); r.tookPose(p); }
  r.announced.clear();
  int n = s.i(3, 12), hits = 0;
  for (int k = 0; k < n; ++k) {
    shim::advance(s.pick(std::vector<double>{0.25, 1.0}));
    if (s.b(1, 3)) { shim::clearPublished(); auto p = r.nextPose(s); r.sendPose(p); r.tookPose(p); }
    if (r.risky) r.newMap(s), shim::advance(0.25);
    if (s.b(1, 4)) { double x = s.sd(6.9), y = s.sd(6.9); shim::clearPublished(); shim::deliver("move_base_simple/goal", poseMsg(x, y, 0, 0)); r.clicked(x, y); r.goalsAnnounced(); }
    shim::clearPublished();
    int A = s.w({4, 2, 1}), B = s.i(0, 8);
    if ((A == 0 && B == 8) || (A == 1 && B == 7)) B = 0;  // a thread does not interrupt itself
    int at = s.b() ? s.i(1, 6) : s.i(1, 600);
    r.tr += " B" + pbt::str(B) + std::string(" [") + (A == 0 ? "plan" : A == 1 ? "cycle" : "point") + " at lookup " + pbt::str(at) + ":";
    // the interrupting action
    std::function<void()> act, model; bool prompt = false;
    double t = r.now();
    if (B == 0) { World x = r.randomMap(s); x.occ.clear(); auto m = r.mapMsg(x, true); act = [m] { shim::deliver("octomap_full", m); }; model = [&r, m, t] { r.tookMap(m, t); }; }
    else if (B == 1) { double x = s.sd(6.9), y = s.sd(6.9); auto m = poseMsg(x, y, 0, 0); act = [m] { shim::deliver("move_base_simple/goal", m); }; model = [&r, x, y] { r.clicked(x, y); }; }
    else if (B == 2) { double x = s.sd(6.9) , y = s.sd(6.9), z = s.d(1.1, 5); auto m = r.desired(x, y, z, true); act = [m] { shim::deliver("mavros/trajectory/desired", m); }; model = [&r, x, y, z] { r.toldDesired(x, y, z, true); }; }
    else if (B == 3) { Cfg c = r.random(s); c.neighbor_risk_flow_ = r.cfg.neighbor_risk_flow_; c.SPEEDNODE_RADIUS = r.cfg.SPEEDNODE_RADIUS; c.explore_penalty_ = r.cfg.explore_penalty_; c.max_iterations_ = std::min(c.max_iterations_, 1000); act = [c] { shim::reconfigure(c); }; model = [&r, c] { r.told(c); }; }
    else if (B == 4) { std::vector<std::array<float, 3>> pts; int m = s.i(1, 200); for (int i = 0; i < m; ++i) pts.push_back({s.sf(30), s.sf(30), s.f(1, 30)}); auto msg = cloudMsg(pts, r.pa.camFrame); auto topic = r.pa.topics[1];
      act = [msg, topic] { shim::deliver(topic, msg); };
      model = [&r, pts] { for (auto& p : pts) r.twin.occupied_.insert(Cell(double(p[0]), double(p[1]), double(p[2]))); r.risky = true; r.tr += " cloud"; }; }
    else if (B == 5) { geometry_msgs::PointStamped m; m.point.x = s.sd(6); m.point.y = s.sd(6); m.point.z = s.d(1, 5); act = [m] { shim::deliver("clicked_point", m); }; model = [&r] { r.tr += " point"; }; }
    else if (B == 6) {  // stays in its cell, so that the round is the same
      Cell in(r.pos.pose.position); auto p = poseMsg(in.xPos() + s.sd(0.49), in.yPos() + s.sd(0.49), in.zPos() + s.sd(0.49), tf::getYaw(r.pos.pose.orientation));
      act = [p] { shim::deliver("mavros/local_position/pose", p); }; model = [&r, p] { r.tookPose(p); }; prompt = A == 0; }
    else if (B == 7) { act = [] { shim::fireTimers(0.1); }; prompt = A == 0; }
    else { act = [] { shim::fireTimers(1.0); }; }
    // run the first with the second inside
    std::mutex m; std::condition_variable cv; bool done = false, started = false, late = false; std::thread th; int count = 0; auto self = std::this_thread::get_id();
    octomap::OcTree::searchHook() = [&](const octomap::OcTree*) {
      if (started || std::this_thread::get_id() != self || ++count < at) return;
      started = true;
      th = std::thread([&] { act(); std::lock_guard<std::mutex> l(m); done = true; cv.notify_all(); });
      std::unique_lock<std::mutex> l(m);
      bool in = cv.wait_for(l, prompt ? std::chrono::milliseconds(8000) : std::chrono::milliseconds(12), [&] { return done; });
      if (prompt && !in) late = true;
    };
    geometry_msgs::PointStamped cp; cp.point.x = s.sd(6); cp.point.y = s.sd(6); cp.point.z = s.d(1, 5);
    if (A == 0) shim::fireTimers(1.0); else if (A == 1) shim::fireTimers(0.1); else shim::deliver("clicked_point", cp);
    bool inside = started;
    if (th.joinable()) th.join();
    octomap::OcTree::searchHook() = nullptr;
    if (!started) act();
    CHECK(!late, (B == 7 ? "no setpoint is sent" : "the position is not taken") << " while the planner is busy:" << r.tr);
    hits += inside;
    // the same one after the other
    double oldSpeed = r.speed; auto oldPos = r.pos.pose.position;
    auto cycle = [&](bool sureSpeed, bool otherPos) {
      r.tr += " cycle";
      double v = r.modelSpeed();
      auto a = shim::published<geometry_msgs::PoseStamped>("mavros/setpoint_position/local");
      std::vector<geometry_msgs::Point> ok = {r.setpoint(r.pos.pose.position, v)};
      if (!sureSpeed) ok.push_back(r.setpoint(r.pos.pose.position, oldSpeed));
      r.setpointSent(ok);
      (void)otherPos;
      if (sureSpeed) r.speed = v;
      else { double d0 = dist(a[0].pose.position, ok[0]), d1 = dist(a[0].pose.position, ok[1]); r.speed = d0 <= d1 ? v : oldSpeed; if (d0 < 1e-6 && d1 < 1e-6 && std::fabs(v - oldSpeed) > 1e-9) r.speed = NAN; }
    };
    if (A == 0) {
      Rig::Round rd;
      if (B == 7 && inside) {
        auto goal0 = r.goal; auto path0 = r.path; auto a = shim::published<geometry_msgs::PoseStamped>("mavros/setpoint_position/local");
        double v = r.modelSpeed(); bool old = false;
        for (double q : {v, oldSpeed}) if (!a.empty() && dist(a[0].pose.position, r.setpoint(r.pos.pose.position, q)) < 1e-6 && std::fabs(std::remainder(tf::getYaw(a[0].pose.orientation) - tf::getYaw(goal0.pose.orientation), 2 * M_PI)) < 1e-6) old = true;
        rd = r.plan();
        if (!old) r.follow(rd.raw);  // the path is followed already, but not simplified yet
        cycle(false, false);
        if (!old) { r.goal = goal0; r.path = path0; }
        r.planned(rd);
      } else { rd = r.plan(); if (B == 6 && inside) model(); r.planned(rd); }
      if (B == 7 && !inside) cycle(true, false);
      if (B != 7 && !(B == 6 && inside)) model();
    } else {
      if (A == 1) {
        // a position that arrives meanwhile may count or not
        if (B == 6) { auto keep = shim::published<geometry_msgs::PoseStamped>("mavros/setpoint_position/local"); CHECK(keep.size() == 1, keep.size() << " setpoints in a cycle:" << r.tr); double v = r.modelSpeed(); double d = dist(keep[0].pose.position, r.setpoint(r.pos.pose.position, v)); r.speed = v; 
          if (!inside) CHECK(d < 1e-6, "setpoint " << sq(keep[0].pose.position) << ":" << r.tr);
          auto g0 = r.goal; auto q0 = r.setpoint(r.pos.pose.position, v); model(); std::vector<geometry_msgs::Point> ok = {q0, r.setpoint(r.pos.pose.position, v)};
          CHECK(d < 1e-6 || dist(keep[0].pose.position, ok[1]) < 1e-6, "setpoint " << sq(keep[0].pose.position) << ", expected " << sq(ok[0]) << " or " << sq(ok[1]) << ":" << r.tr); (void)g0; model = nullptr; }
        else cycle(true, false);
      } else r.tr += " point";
      if (B == 7) cycle(!inside, false);
      else if (B == 8) { auto rd = r.plan(); r.planned(rd); }
      else if (model) model();
    }
    r.goalsAnnounced();
    (void)oldPos; r.tr += "]";
    if (std::isnan(r.speed)) { shim::advance(0.3); if (r.risky) r.newMap(s); shim::clearPublished(); shim::fireTimers(0.1); r.speed = r.modelSpeed(); r.setpointSent({r.setpoint(r.pos.pose.position, r.speed)}); }
  }
  NOTE(r.tr);
  pbt::nontrivial(hits >= 2);
}

// ------------------------------------------------------------------ P34
namespace {
// a vehicle which follows the setpoints of the node exactly, through blocks and walls on the ground
void fly(pbt::Src& s, bool discover) {
  Rig r(s, false);
  Cfg c = Cfg::__getDefault__();
  c.use_risk_based_speedup_ = false; c.default_speed_ = s.b() ? 1.0 : s.d(0.9, 1);
  c.max_iterations_ = s.b() ? 2000 : 5000;
  if (s.b(1, 3)) c.smooth_factor_ = s.d(0, 100);
  if (s.b(1, 4)) c.simplify_iterations_ = s.i(0, 5);
  if (s.b(1, 4)) c.default_node_type_ = s.pick(std::vector<std::string>{"SpeedNode", "Node", "NodeWithoutSmooth"});
  if (s.b(1, 4)) c.use_current_yaw_ = false;
  const int R = 7, H = 4;
  World w;
  for (int x = -R; x <= R; ++x) for (int y = -R; y <= R; ++y) for (int z = 0; z <= H + 2; ++z) w.vox[{x, y, z}] = -2.f;
  int nb = s.i(1, 6);
  auto put = [&](int x, int y, int z) { w.vox[{x, y, z}] = 3.5f; w.occ.insert({x, y, z}); };
  for (int b = 0; b < nb; ++b) {
    int x = s.si(R - 1), y = s.si(R - 1);
    if (s.b()) { int a = s.i(0, 2), d = s.i(0, 2), h = s.i(1, H); for (int i = 0; i <= a; ++i) for (int j = 0; j <= d; ++j) for (int l = 0; l <= h; ++l) put(x + i, y + j, l); }
    else { int len = s.i(3, 12), h = s.i(2, H); bool ax = s.b(); for (int i = 0; i <= len; ++i) for (int l = 0; l <= h; ++l) put(ax ? x + i - len / 2 : x, ax ? y : y + i - len / 2, l); }
  }
  Model m; m.w = w; m.prior = r.twin.alt_prior_;
  auto freePlace = [&]() { for (int k = 0; k < 50; ++k) { I3 q = {s.si(R), s.si(R), s.i(1, H - 1)}; double lo, hi; m.cellRisk(q, lo, hi); if (hi < 0.15) return q; } pbt::discard(); return I3{0, 0, 0}; };
  I3 a = freePlace(), g = freePlace();
  auto blocked = [&] { for (int i = 1; i < 20; ++i) { double f = i / 20.; if (w.occ.count(I3{int(std::floor(a[0] + .5 + f * (g[0] - a[0]))), int(std::floor(a[1] + .5 + f * (g[1] - a[1]))), int(std::floor(a[2] + .5 + f * (g[2] - a[2])))})) return true; } return false; };
  for (int k = 0; k < 8 && !blocked(); ++k) a = freePlace(), g = freePlace();
  c.clicked_goal_alt_ = g[2] + 0.5; r.send(c);
  double v = s.d(0.3, 1.2), range = s.d(3, 8);
  auto pose = poseMsg(a[0] + s.d(0.1, 0.9), a[1] + s.d(0.1, 0.9), a[2] + s.d(0.1, 0.9), s.sd(3.1));
  auto& p = pose.pose.position;
  r.sendPose(pose);
  // what is known of the world: all of it, or what was within range so far
  World known; if (!discover) known = w;
  auto see = [&] {
    std::vector<std::array<float, 3>> pts;
    for (auto& o : w.vox) {
      if (discover && (std::fabs(o.first[0] + 0.5 - p.x) > range || std::fabs(o.first[1] + 0.5 - p.y) > range)) continue;
      known.vox[o.first] = o.second; if (o.second > 0) { known.occ.insert(o.first); pts.push_back({float(o.first[0]) + 0.5f, float(o.first[1]) + 0.5f, float(o.first[2]) + 0.5f}); }
    }
    if (!pts.empty()) shim::deliver(r.pa.topics[0], cloudMsg(pts, r.pa.camFrame));
    auto mm = r.mapMsg(known, true); r.sendMap(mm);
  };
  see();
  shim::deliver("move_base_simple/goal", poseMsg(g[0] + 0.5, g[1] + 0.5, 0, 0));
  geometry_msgs::Point goal; goal.x = g[0] + 0.5; goal.y = g[1] + 0.5; goal.z = g[2] + 0.5;
  std::string tr = "from " + sq(p) + " to " + sc(g) + " at " + pbt::str(v) + " m/s, speed " + pbt::str(c.default_speed_) + " range " + pbt::str(range) + " iterations " + pbt::str(c.max_iterations_) + " smooth " + pbt::str(c.smooth_factor_) + " simplify " + pbt::str(c.simplify_iterations_) + " " + c.default_node_type_ + ":";
  bool there = false;
  std::vector<geometry_msgs::Point> path;
  for (int t = 0; t < 400; ++t) {
    shim::advance(0.1);
    shim::clearPublished();
    if (t % 10 == 0) {
      see();
      shim::fireTimers(1.0);
      auto tp = shim::published<nav_msgs::Path>("global_temp_path");
      path.clear(); if (!tp.empty()) for (auto& q : tp.back().poses) path.push_back(q.pose.position);
      if (t == 0 && path.size() < 2) { pbt::label("no path"); pbt::discard(); }
      tr += "\n path"; for (auto& q : path) tr += sq(q); tr += " at";
      shim::clearPublished();
    }
    shim::fireTimers(0.1);
    auto st = shim::published<geometry_msgs::PoseStamped>("mavros/setpoint_position/local");
    CHECK(st.size() == 1, st.size() << " setpoints in a cycle: " << tr);
    auto q = st[0].pose.position; double d = dist(p, q), k = d > 0.1 * v ? 0.1 * v / d : 1;
    p.x += k * (q.x - p.x); p.y += k * (q.y - p.y); p.z += k * (q.z - p.z);
    pose.pose.orientation = st[0].pose.orientation; pose.header.stamp = ros::Time::now();
    tr += sq(p);
    // turning up to a metre before a vertex can graze the corner of a cell: 0.3 m inside counts
    auto deepIn = [&](const geometry_msgs::Point& x) {
      const double in = 0.3; int n = 0;
      for (int k = 0; k < 27; ++k) n += w.occ.count(I3{int(std::floor(x.x + in * (k % 3 - 1))), int(std::floor(x.y + in * (k / 3 % 3 - 1))), int(std::floor(x.z + in * (k / 9 - 1)))});
      return n == 27;
    };
    if (w.occ.count(I3{int(std::floor(p.x)), int(std::floor(p.y)), int(std::floor(p.z))}) && deepIn(p)) {
      CHECK(false, "the vehicle is inside a known obstacle at " << sq(p) << ": " << tr);
    }
    r.sendPose(pose);
    if (dist(p, goal) < 1.5) { there = true; if (t % 10 == 9) break; }
  }
  NOTE(tr);
  bool between = blocked();
  pbt::label(std::string(there ? "arrived" : "on the way") + (between ? ", obstacles between" : ""));
  pbt::nontrivial(between);
}
}  // namespace
FACET(P34, known_world, 120, 2000, "a vehicle that follows the setpoints of the node exactly through a known world of walls and blocks, from a free place to a goal; non-trivial when obstacles lie between") { fly(s, false); }
FACET(P34, discovered_world, 120, 2000, "the same when obstacles are seen within 3-8 m only; non-trivial when obstacles lie between") { fly(s, true); }
