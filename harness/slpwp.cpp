// P24: the landing waypoint generator: its state machine and the setpoints it sends
#include <geom.h>
#include <safe_landing_planner/waypoint_generator_node.hpp>
using namespace avoidance;
using namespace geom;
typedef Eigen::Vector3f F3;

namespace {
const char* kNames[] = {"GOTO", "ALTITUDE_CHANGE", "LOITER", "EVALUATE_GRID", "GOTO_LAND", "LAND"};
enum St { GOTO, ALT, LOITER, EVAL, GOTO_LAND, LAND };
const int kPat[8][2] = {{1, 0}, {1, 1}, {0, 1}, {-1, 1}, {-1, 0}, {-1, -1}, {0, -1}, {1, -1}};
V3 nan3() { return V3(NAN, NAN, NAN); }
V3 vec(const geometry_msgs::Point& p) { return V3(p.x, p.y, p.z); }
V3 vec(const geometry_msgs::Vector3& p) { return V3(p.x, p.y, p.z); }
bool same(const V3& a, const V3& b, double tol = 2e-5) { for (int d = 0; d < 3; ++d) if (!pbt::sameOrBothNan(a[d], b[d], tol * (1 + std::fabs(b[d])))) return false; return true; }
struct Model {  // in double precision
  St st = GOTO;
  bool entered = false, land = false, decided = false, can = true, explore = false, reset = false, anyVz = false, blind = false;
  V3 pos = nan3(), goal = nan3(), vsp = nan3(), loiter = nan3(), anchor = nan3(), item = V3::Zero();
  double yaw = NAN, yawSp = NAN, yawRate = NAN, loiterYaw = NAN, radius = 2, factor = 1;
  int seq = 0, startSeq = 0, pattern = -1;
  double beta = 0.9, thr = 0.4, height = 8, err = 0.5, spiral = 2;
  int slc = 6, rows = 0;
  double cell = 1;
  std::vector<double> mean, hyst;
  std::vector<int> fit, result;
  bool unsure = false;     // a decision within rounding: the comparison ends here
  bool patchUnsure = false;
  // what the cycle has to send
  bool sends = false;
  V3 p, v;
  double y = NAN, yr = NAN;
  void say(const V3& a, const V3& b, double c, double d) { sends = true; p = a; v = b; y = c; yr = d; }
  bool close(double a, double b) { if (std::isfinite(a) && std::isfinite(b) && std::fabs(a - b) < 2e-4 * (1 + std::fabs(b))) unsure = true; return a < b; }
  double to(const V3& g) { return std::atan2(g.y() - pos.y(), g.x() - pos.x()); }
  bool within() { return close((goal.head<2>() - pos.head<2>()).norm(), radius); }
  double level() {
    std::vector<double> m;
    for (int i = rows / 2 - slc; i <= rows / 2 + slc; ++i) for (int j = rows / 2 - slc; j <= rows / 2 + slc; ++j)
      if (i >= 0 && j >= 0 && i < rows && j < rows && std::isfinite(mean[size_t(i * rows + j)])) m.push_back(mean[size_t(i * rows + j)]);
    blind = m.empty();
    if (blind) return pos.z() - height;  // no ground in sight: no reason to change the altitude
    std::sort(m.begin(), m.end());
    size_t k = std::min(m.size() - 1, size_t(std::floor(0.8 * double(m.size()) + 0.5)));
    return m[k];
  }
  bool patch(int ci, int cj) {  // every cell of the disc around a cell can be landed on
    for (int a = -slc; a <= slc; ++a) for (int b = -slc; b <= slc; ++b) {
      int i = ci + a, j = cj + b;
      if (i < 0 || j < 0 || i >= rows || j >= rows) return false;  // the square around the disc has to be seen
    }
    for (int a = -slc; a <= slc; ++a) for (int b = -slc; b <= slc; ++b)
      if (std::hypot(a, b) < slc + 0.5 && result[size_t((ci + a) * rows + cj + b)] != 1) return false;
    return true;
  }
  void grid(int n, double cellSize, const std::vector<double>& m, const std::vector<int>& l) { rows = n; cell = cellSize; mean = m; fit = l; }
  void next(St s) { st = s; entered = true; }
  void cycle() {
    sends = false;
    anyVz = blind = false;
    if (hyst.size() != size_t(rows * rows)) { hyst.assign(size_t(rows * rows), 0); result.assign(size_t(rows * rows), 0); }
    if (!land) { decided = false; can = true; std::fill(hyst.begin(), hyst.end(), 0.0); explore = false; pattern = -1; factor = 1; radius = 2; }
    if (reset) { reset = false; next(GOTO); return; }
    bool first = entered;
    entered = false;
    switch (st) {
      case GOTO: {
        if (explore) { radius = 0.5; yawSp = to(goal); }
        say(goal, vsp, yawSp, yawRate);
        anyVz = decided;
        std::fill(hyst.begin(), hyst.end(), 0.0);
        if (!land) return;
        if (!within()) return;
        if (!decided) return next(ALT);
        if (can) return;
        if (!explore) { anchor = loiter; explore = true; }
        if (++pattern == 8) { pattern = 0; factor += 1; }
        double off = spiral * factor * 2 * slc * cell;
        goal = anchor + off * V3(kPat[pattern][0], kPat[pattern][1], 0);
        vsp = nan3();
        decided = false;
        return;
      }
      case ALT: {
        if (first) loiterYaw = yaw;
        goal.z() = NAN;
        double h = std::fabs(pos.z() - level());
        vsp.z() = close(h, height) ? 0.7 : -0.7;
        if (std::fabs(h - height) < err) unsure = false;  // the direction no longer matters then
        bool tie = std::fabs(h - height) < 2e-4 * (1 + height);
        say(goal, vsp, loiterYaw, yawRate);
        if (blind) { unsure = false; startSeq = seq; return next(LOITER); }
        if (tie) unsure = true;
        if (close(std::fabs(h - height), err)) { startSeq = seq; next(LOITER); }
        return;
      }
      case LOITER: {
        if (first) { loiter = pos; goal = loiter; }
        say(loiter, nan3(), loiterYaw, NAN);
        if (std::abs(seq - startSeq) <= 20) {
          for (size_t k = 0; k < hyst.size(); ++k) hyst[k] = beta * hyst[k] + (1 - beta) * fit[k];
        } else {
          for (size_t k = 0; k < hyst.size(); ++k) { if (std::fabs(hyst[k] - thr) < 1e-5 && (hyst[k] > 1e-9 || thr > 1e-9)) patchUnsure = true; result[k] = hyst[k] > thr; hyst[k] = result[k]; }
          next(EVAL);
        }
        return;
      }
      case EVAL: {
        say(loiter, nan3(), loiterYaw, NAN);
        radius = 0.5;
        if (patchUnsure) unsure = true;
        can = patch(rows / 2, rows / 2);
        decided = true;
        if (can) return next(GOTO_LAND);
        int rings = (1 + (rows - (2 * slc + 1))) / 2;
        for (int r = 1; r < rings; ++r) for (int k = 0; k < 8; ++k) {
          can = patch(rows / 2 + r * kPat[k][0], rows / 2 + r * kPat[k][1]);
          if (!can) continue;
          goal = pos + cell * V3(r * kPat[k][0], r * kPat[k][1], 0);
          vsp.z() = NAN;
          return next(GOTO_LAND);
        }
        return next(GOTO);
      }
      case GOTO_LAND:
        say(goal, vsp, to(goal), yawRate);
        anyVz = true;
        if (within()) next(LAND);
        return;
      case LAND:
        if (first) { loiter = pos; loiterYaw = yaw; }
        loiter.z() = NAN;
        say(loiter, V3(NAN, NAN, -0.7), loiterYaw, NAN);
        return;
    }
  }
};
double r4(double v) { return std::round(v * 1e4) / 1e4; }
}  // namespace

static void fly(pbt::Src& s, bool exploring) {
  shim::dropAll();
  shim::setNow(s.pick(std::vector<double>{50.0, 1.6e9}));
  ros::NodeHandle nh("~");
  std::unique_ptr<WaypointGeneratorNode> node(new WaypointGeneratorNode(nh));
  node->startNode();
  Model m;
  std::string tr;
  auto settings = [&](bool first) {
    safe_landing_planner::WaypointGeneratorNodeConfig c = safe_landing_planner::WaypointGeneratorNodeConfig::__getDefault__();
    if (first || s.b()) { m.beta = r4(s.b(1, 3) ? 0.9 : s.d(0, 1)); m.thr = r4(s.b(1, 3) ? 0.4 : s.d(0, 1)); m.height = r4(s.d(1, 12)); m.err = r4(s.b(1, 2) ? 0.5 : s.d(0.1, 4)); m.spiral = r4(s.d(1, 10)); }
    if (exploring) { m.err = 4; m.slc = s.i(0, 2); }
    else m.slc = s.w({10, 1}) ? s.i(0, 30) : s.w({1, 8}) ? s.i(1, 4) : 0;
    c.beta = m.beta; c.can_land_thr = m.thr; c.loiter_height = m.height; c.vertical_range_error = m.err; c.spiral_width = m.spiral; c.smoothing_land_cell = m.slc;
    tr += " settings(beta " + pbt::str(m.beta) + " thr " + pbt::str(m.thr) + " height " + pbt::str(m.height) + "+-" + pbt::str(m.err) + " patch " + pbt::str(m.slc) + " spiral " + pbt::str(m.spiral) + ")";
    CHECK(shim::reconfigure(c) == 1, "the node does not listen to reconfiguration");
  };
  settings(true);
  // the ground: heights and landable cells, fixed relative to the grid's centre
  int rows = 0, gridKind = 0, blobI = 0, blobJ = 0, blobR = 0;
  double cell = 1, ground = 0;
  std::vector<int> fit;
  std::vector<double> mean;  // not finite: nothing seen there
  auto flip = [&] { size_t k = size_t(s.i(0, rows * rows - 1)); if (std::isfinite(mean[k])) fit[k] ^= 1; };
  auto scene = [&](bool resize) {
    if (resize && exploring) { rows = s.i(3, 6); cell = s.pick(std::vector<double>{0.25, 0.5, 1}); }
    else if (resize) { rows = s.b(2, 3) ? s.i(8, 20) : s.i(1, 30); cell = s.pick(std::vector<double>{0.25, 0.5, 0.5, 1}); }
    ground = s.b() ? 0 : s.sd(10);
    gridKind = exploring ? !s.b(30, 31) : s.w({2, 2, 5, 1});
    blobI = s.i(0, rows - 1);
    blobJ = s.i(0, rows - 1);
    blobR = s.i(0, m.slc + 4);
    fit.assign(size_t(rows * rows), 0);
    mean.assign(size_t(rows * rows), 0);
    bool rough = s.b();
    int unseen = s.w({3, 1, 1});  // all seen, some not, hardly any
    int holes = exploring || s.b() ? 0 : s.i(1, 4);
    for (int i = 0; i < rows; ++i) for (int j = 0; j < rows; ++j) {
      bool f = gridKind == 0 ? false : gridKind == 1 ? true : gridKind == 2 ? std::hypot(i - blobI, j - blobJ) <= blobR + 0.7 : s.b(7, 8);
      fit[size_t(i * rows + j)] = f;
      if (unseen && !s.b(unseen == 1 ? 7 : 1, 9)) { mean[size_t(i * rows + j)] = NAN; fit[size_t(i * rows + j)] = 0; }
      else mean[size_t(i * rows + j)] = ground + (rough ? 0.25 * ((i * 7 + j * 3) % 5) : 0.0);
    }
    for (; holes > 0; --holes) flip();
    tr += " ground(" + pbt::str(rows) + "x" + pbt::str(cell) + " kind " + pbt::str(gridKind) + " at " + pbt::str(blobI) + "," + pbt::str(blobJ) + " r " + pbt::str(blobR) + " z " + pbt::str(ground) + (unseen == 1 ? " partly seen" : unseen ? " hardly seen" : "") + ")";
  };
  scene(true);
  auto setpose = [&](const V3& p, double yaw) {
    geometry_msgs::PoseStamped q;
    q.pose.position.x = p.x(); q.pose.position.y = p.y(); q.pose.position.z = p.z();
    double a = s.sd(0.2), b = s.sd(0.2);
    Eigen::Quaterniond o = Eigen::AngleAxisd(yaw, V3::UnitZ()) * Eigen::AngleAxisd(a, V3::UnitY()) * Eigen::AngleAxisd(b, V3::UnitX());
    q.pose.orientation.w = o.w(); q.pose.orientation.x = o.x(); q.pose.orientation.y = o.y(); q.pose.orientation.z = o.z();
    shim::deliver("mavros/local_position/pose", q);
    m.pos = p.cast<float>().cast<double>();
    m.yaw = yaw;
  };
  auto item = [&](bool land) {
    mavros_msgs::Trajectory t;
    V3 g = m.pos.array().isNaN().any() ? pos3(s, 20).cast<double>() : s.b(2, 3) ? V3(m.pos + V3(s.sd(2.5), s.sd(2.5), s.sd(3))) : V3(m.pos + pos3(s, exploring ? 2 : 20).cast<double>());
    if (s.b(1, 8)) g.z() = NAN;
    V3 v = s.b(1, 3) ? V3(r4(s.sd(3)), r4(s.sd(3)), s.b() ? NAN : r4(s.sd(1))) : nan3();
    g = g.cast<float>().cast<double>();
    t.point_1.position.x = g.x(); t.point_1.position.y = g.y(); t.point_1.position.z = g.z();
    t.point_1.velocity.x = v.x(); t.point_1.velocity.y = v.y(); t.point_1.velocity.z = v.z();
    V3 i2 = s.b(1, 3) ? m.item : V3(m.item + V3(s.i(1, 20), s.si(20), s.si(20)));
    t.point_2.position.x = i2.x(); t.point_2.position.y = i2.y(); t.point_2.position.z = i2.z();
    t.point_2.yaw = float(r4(s.sd(3)));
    t.point_2.yaw_rate = float(s.b() ? NAN : r4(s.sd(1)));
    bool v1 = s.b(9, 10), v2 = s.b(9, 10);
    for (int k = 0; k < 5; ++k) t.point_valid[k] = 0;
    t.point_valid[0] = v1; t.point_valid[1] = v2;
    for (auto& c : t.command) c = uint16_t(UINT16_MAX);
    t.command[1] = land ? 21 : s.pick(std::vector<int>{16, 22, 65535, 0, 17});
    t.command[0] = uint16_t(s.pick(std::vector<int>{21, 16}));
    tr += std::string(land ? " land" : " go") + sv(g) + (v1 ? "" : " (point 1 invalid)") + (v2 ? "" : " (point 2 invalid)") + (i2 == m.item ? " same item" : "");
    CHECK(shim::deliver("mavros/trajectory/desired", t) == 1, "nobody listens to trajectories");
    bool upd = (i2 - m.item).norm() > 0.01 || std::isnan(m.goal.x()) || std::isnan(m.goal.y());
    if (upd && v1) { m.goal = g; m.vsp = v; m.land = land; }
    if (v2) { m.item = i2; m.yawSp = t.point_2.yaw; m.yawRate = t.point_2.yaw_rate; }
  };
  auto mode = [&](const std::string& md, bool armed) {
    mavros_msgs::State st;
    st.mode = md;
    st.armed = armed;
    tr += " " + md + (armed ? "" : "(disarmed)");
    shim::deliver("mavros/state", st);
    if (md == "AUTO.LAND") m.land = true;
    else if (md != "AUTO.MISSION") { m.land = false; m.reset = true; }
    if (!armed) { m.land = false; m.reset = true; }
  };
  setpose(pos3(s, 20).cast<double>(), s.sd(3.1));
  mode("AUTO.MISSION", true);
  item(exploring || s.b(5, 6));
  int n = exploring ? s.i(60, 160) : s.i(10, 90), evals = 0, explored = 0, landed = 0;
  int step = s.pick(std::vector<int>{1, 3, 7, 11, 21});
  if (exploring) step = s.i(11, 21);
  m.seq = s.i(0, 100);
  double speed = s.d(0.2, 2), follow = s.d(0.5, 1);
  if (exploring) { speed = 1000; follow = s.d(0.9, 1); }
  for (int k = 0; k < n; ++k) {
    // rare events
    switch (exploring ? s.w({200, 1, 1, 2, 0, 0, 1, 4, 1}) : s.w({60, 2, 2, 1, 1, 1, 1, 2, 2})) {
      case 1: item(true); break;
      case 2: item(s.b()); break;
      case 3: mode(s.pick(std::vector<std::string>{"AUTO.MISSION", "AUTO.LAND", "POSCTL", "OFFBOARD", "AUTO.RTL", ""}), s.b(9, 10)); break;
      case 4: settings(false); break;
      case 5: scene(true); break;
      case 6: scene(false); break;
      case 7: setpose(m.pos + V3(s.sd(1), s.sd(1), s.sd(1)), s.sd(3.1)); tr += " push"; break;
      case 8: for (int q = s.i(1, 3); q > 0; --q) flip(); break;
      default: break;
    }
    // the vehicle follows the last setpoint
    if (m.sends) {
      V3 p = m.pos, d = V3::Zero();
      for (int a = 0; a < 3; ++a) {
        if (std::isfinite(m.p[a])) d[a] = std::max(-speed, std::min(speed, (m.p[a] - p[a]) * follow));
        else if (std::isfinite(m.v[a])) d[a] = m.v[a] * speed;
      }
      setpose(p + d, s.b() ? m.yaw : s.sd(3.1));
    }
    // a grid, sent before or while the node waits for it
    m.seq += s.b(1, 8) ? step * 2 : step;
    safe_landing_planner::SLPGridMsg g;
    g.header.seq = uint32_t(m.seq);
    g.grid_size = float(rows * cell);
    g.cell_size = float(cell);
    auto dims = [&](std::vector<std_msgs::MultiArrayDimension>& d) { d.assign(2, std_msgs::MultiArrayDimension()); d[0].size = d[1].size = uint32_t(rows); d[0].stride = uint32_t(rows * rows); d[1].stride = uint32_t(rows); };
    dims(g.mean.layout.dim); dims(g.land.layout.dim); dims(g.counter.layout.dim);
    for (size_t c = 0; c < fit.size(); ++c) { bool seen = std::isfinite(mean[c]); g.mean.data.push_back(seen ? mean[c] : 0.0); g.land.data.push_back(fit[c]); g.counter.data.push_back(seen ? 1 + int(c % 7) : 0); }
    g.curr_pos_index.x = g.curr_pos_index.y = float(rows / 2);
    int waits = s.i(0, 2), calls = 0;
    shim::clearPublished();
    if (waits == 0) CHECK(shim::deliver("grid_slp", g) == 1, "nobody listens to the landing grid");
    shim::onCallAvailable() = [&](double) { if (++calls == waits) shim::deliver("grid_slp", g); if (calls > 20) { shim::okFlag() = false; } };
    m.grid(rows, cell, mean, fit);
    St was = m.st;
    m.cycle();
    NOTE(tr << " | cycle " << k << " in " << kNames[was] << " at " << sv(m.pos) << (m.sends ? " expects " + sv(m.p) + " v " + sv(m.v) : " expects nothing"));
    shim::fireTimers(0.1);
    shim::onCallAvailable() = nullptr;
    CHECK(shim::okFlag(), "the cycle goes on waiting although a grid arrived:" << tr);
    auto t = shim::published<mavros_msgs::Trajectory>("mavros/trajectory/generated");
    std::string at = " (cycle " + pbt::str(k) + ", " + kNames[was] + "):" + tr;
    CHECK(t.size() == (m.sends ? 1u : 0u), t.size() << " setpoints sent in a cycle" << at);
    if (m.sends) {
      auto& q = t[0].point_1;
      V3 gp = vec(q.position), gv = vec(q.velocity);
      if (m.blind && was == ALT) { m.vsp.z() = gv.z(); gv.z() = m.v.z(); CHECK(m.st == LOITER, "model"); }
      if (m.unsure && was == ALT) gv.z() = m.v.z();  // at the height wanted the direction is a toss-up
      if (m.anyVz && std::isfinite(gp.z()) && std::isnan(gv.z())) gv.z() = m.v.z();  // the height is held, no need for a vertical speed
      CHECK(same(gp, m.p), "position setpoint " << sv(gp) << ", expected " << sv(m.p) << at);
      CHECK(same(gv, m.v), "velocity setpoint " << sv(gv) << ", expected " << sv(m.v) << at);
      bool yawFree = was == GOTO_LAND || (was == GOTO && m.explore);
      double dist = (m.p.head<2>() - m.pos.head<2>()).norm();
      if (!(yawFree && dist < 1e-2)) CHECK(pbt::sameOrBothNan(wrapPi(q.yaw - m.y), 0, yawFree ? 1e-4 + 1e-4 / dist : 1e-4) || (std::isnan(q.yaw) && std::isnan(m.y)), "yaw setpoint " << q.yaw << ", expected " << m.y << at);
      if (yawFree && was == GOTO) m.yawSp = q.yaw;  // kept from here on
      CHECK(pbt::sameOrBothNan(q.yaw_rate, m.yr, 1e-5), "yaw rate setpoint " << q.yaw_rate << ", expected " << m.yr << at);
      CHECK(vec(q.acceleration_or_force).array().isNaN().all(), "an acceleration is commanded" << at);
      bool ok = ((std::isfinite(gp.x()) && std::isfinite(gp.y())) || (std::isfinite(gv.x()) && std::isfinite(gv.y()))) && (std::isfinite(gp.z()) || std::isfinite(gv.z()));
      CHECK(bool(t[0].point_valid[0]) == ok, "the setpoint " << sv(gp) << " v " << sv(gv) << " is marked " << (ok ? "in" : "") << "valid" << at);
      for (int c = 1; c < 5; ++c) CHECK(!t[0].point_valid[c], "point " << c + 1 << " is marked valid" << at);
      for (auto* u : {&t[0].point_2, &t[0].point_3, &t[0].point_4, &t[0].point_5})
        CHECK(vec(u->position).array().isNaN().all() && vec(u->velocity).array().isNaN().all() && vec(u->acceleration_or_force).array().isNaN().all() && std::isnan(u->yaw) && std::isnan(u->yaw_rate), "an unused trajectory point has a value" << at);
      CHECK(t[0].type == 0 && t[0].header.frame_id == "local_origin" && t[0].header.stamp == ros::Time::now(), "header of the setpoint" << at);
    }
    // displays
    auto goals = shim::published<visualization_msgs::Marker>("goal_position");
    CHECK(goals.size() == 1, goals.size() << " goals shown" << at);
    if (!m.unsure) CHECK(same(vec(goals[0].pose.position), m.goal), "the goal shown is " << sv(vec(goals[0].pose.position)) << ", the vehicle heads for " << sv(m.goal) << at);
    auto area = shim::published<visualization_msgs::MarkerArray>("land_hysteresis");
    CHECK(area.size() == 1, area.size() << " landing areas shown" << at);
    if (!m.unsure && !m.patchUnsure) {
      int c0 = rows / 2, shown = 0;
      for (auto& mk : area[0].markers) {
        double u = (mk.pose.position.x - (m.pos.x() - rows * cell / 2)) / cell, v = (mk.pose.position.y - (m.pos.y() - rows * cell / 2)) / cell;
        // the corner or the centre of the cell
        if (std::fabs(u - std::round(u)) > 0.25) { u -= 0.5; v -= 0.5; }
        int i = int(std::lround(u)), j = int(std::lround(v));
        CHECK(i >= 0 && j >= 0 && i < rows && j < rows && std::abs(i - c0) <= m.slc && std::abs(j - c0) <= m.slc, "cell " << i << "," << j << " is shown as part of the landing area around " << c0 << at);
        bool ok = std::hypot(i - c0, j - c0) < m.slc + 0.5 && m.result[size_t(i * rows + j)] == 1;
        CHECK((mk.color.g > 0.5) == ok && (mk.color.r < 0.5) == ok, "cell " << i << "," << j << " of the landing area is shown as " << (ok ? "not " : "") << "landable" << at);
        ++shown;
      }
      int a = std::max(0, c0 - m.slc), b = std::min(rows - 1, c0 + m.slc);
      CHECK(shown == (b - a + 1) * (b - a + 1), shown << " cells of the landing area are shown" << at);
    }
    if (was == EVAL) ++evals;
    if (was == LAND) ++landed;
    if (m.explore) ++explored;
    if (m.unsure) { pbt::label("ended within rounding"); break; }
  }
  shim::okFlag() = true;
  if (evals) pbt::label("evaluated");
  if (landed) pbt::label("landed");
  if (explored) pbt::label("explored");
  if (m.factor > 1) pbt::label("second turn of the spiral");
  pbt::nontrivial(exploring ? m.factor > 1 : evals && (landed || explored));
}

FACET(P24, flights, 3000, 60000, "flights of 10-90 cycles of the landing node: missions with and without landing items, mode changes, disarming, settings, grids of any size with landable areas in the centre, aside, or nowhere, lost grid messages, and a vehicle that follows the setpoints more or less; non-trivial when a grid was evaluated and the vehicle landed or explored") { fly(s, false); }
FACET(P24, exploration, 600, 12000, "flights of 60-160 cycles over ground where landing is rarely possible, interrupted now and then by other modes or items; non-trivial when the spiral's second turn is flown at the end") { fly(s, true); }
