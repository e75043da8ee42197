// P18: the local planner's waypoint generator: state machine, setpoints, smoothing
#include <geom.h>
#include <local_planner/waypoint_generator.h>
#include <local_planner/planner_functions.h>
#include <new>
using namespace avoidance;
using namespace geom;

namespace {
struct Gen : public WaypointGenerator {
  ros::Time now{1.0};
  ros::Time getSystemTime() override { return now; }
};
const NavigationState kNav[] = {NavigationState::mission, NavigationState::auto_takeoff, NavigationState::auto_land, NavigationState::auto_rtl,
                                NavigationState::auto_rtgs, NavigationState::offboard, NavigationState::auto_loiter, NavigationState::none};
const char* kNavName[] = {"mission", "takeoff", "land", "rtl", "rtgs", "offboard", "loiter", "none"};
const char* kStateName[] = {"TRY_PATH", "ALTITUDE_CHANGE", "LOITER", "DIRECT"};
struct In {  // one cycle
  double now;
  V3 pos, vel, goal;
  double yaw, pitch;  // degrees
  bool stay, airborne, land, takeoff;
  int nav;
  V3 desired;
};
struct Unsure {};
// The behaviour, restated in double precision.
struct Model {
  int state = 2;  // as kStateName
  std::vector<V3> path;
  double pathTime = 0, cruise = 0;
  std::vector<FOV> fov;
  double sxy = 10, sz = 3;
  // memory
  bool init = false, changed = false, reached = false, landing = false, first = true;
  V3 sm = V3::Zero(), smv = V3::Zero(), hold = V3::Zero(), hover = V3::Zero();
  bool haveHover = false;
  double last = 99999, yawSp = 0, yawV = 0, speed = 0, headingGoal = NAN, yawClimb = NAN;
  // result
  V3 gotoP, adapted, smoothed, linvel;
  void unsure(bool b) { if (b) throw Unsure(); }
  bool setpoint(const In& i, V3& sp) {
    size_t n = path.size();
    if (n < 2) return false;
    if (n == 2) { sp = path[0]; return true; }
    double left = (i.now - pathTime) * cruise, len = 0;
    for (size_t k = 1; k + 1 < n; ++k) len += (path[n - 2 - k] - path[n - 1 - k]).norm();
    unsure(std::fabs(left - len) < 1e-3 * (1 + len) + 1e-3 * cruise);
    size_t k = n - 2;
    while (k > 1 && left > (path[k - 1] - path[k]).norm()) { left -= (path[k - 1] - path[k]).norm(); --k; }
    V3 d = path[k - 1] - path[k];
    sp = path[k] + left * d.normalized();
    return left < d.norm();
  }
  bool altitude(const In& i) {
    double dz = i.goal.z() - i.pos.z();
    if (i.nav == 3) unsure(std::fabs(dz - 0.8) < 1e-3);
    bool climb = dz > 0.8 - 1e-9;
    bool take = i.nav == 1 || (i.nav == 0 && i.takeoff) || (i.nav == 3 && climb);
    landing = i.nav == 2 || (i.nav == 0 && i.land);
    if (i.nav == 5 && !reached) {
      unsure(std::fabs(dz) < 1e-3 && dz != 0);
      if (dz <= 0) { reached = true; return false; }
      return true;
    }
    return take || landing;
  }
  void smoothYaw(const In& i, double dt) {
    V3 d = gotoP - i.pos;
    unsure(std::fabs(d.head<2>().norm() - 0.1) < 1e-3);
    double want = d.head<2>().norm() > 0.1 ? std::atan2(d.y(), d.x()) : i.yaw * D2R;
    if (state == 1) want = yawClimb;
    if (sxy <= 0.01) { yawSp = want; return; }
    double diff = std::isfinite(want) ? wrapPi(want - yawSp) : 0;
    unsure(std::fabs(diff) > M_PI - 2e-3);
    yawV += (diff * sxy - yawV * 2 * std::sqrt(sxy)) * dt;
    yawSp = wrapPi(yawSp + yawV * dt);
  }
  void send(const In& i, double dt) {
    adapted = gotoP;
    smoothYaw(i, dt);
    if (landing) return;
    // speed: low-pass filtered, slower outside the view, never past the goal
    double alpha = dt / (0.9 + dt), want = std::isfinite(cruise) ? cruise : 2.0, dist = (goal(i) - i.pos).norm();
    unsure(std::fabs(dist - 1) < 1e-3);
    if (dist < 1) {
      gotoP = goal(i);
      want = dist;
      if (!std::isfinite(headingGoal)) headingGoal = i.yaw * D2R;
      yawSp = headingGoal;
    } else {
      if (state != 1) {
        V3 d = gotoP - i.pos;
        double e = -elev(d) - i.pitch, z = 90 - azim(d) - i.yaw, sc[5];
        // near 0 the direction is not defined
        if (d.norm() > 1e-6) unsure(d.norm() < 1e-2);
        for (int k = 0; k < 5; ++k) {
          PolarPoint p(float(e + (k == 3 ? 0.05 : k == 4 ? -0.05 : 0)), float(z + (k == 1 ? 0.05 : k == 2 ? -0.05 : 0)), float(d.norm()));
          wrapPolar(p);
          sc[k] = scaleToFOV(fov, p);
          unsure(std::fabs(sc[k] - sc[0]) > 0.05);
        }
        want *= sc[0];
      }
      headingGoal = NAN;
    }
    speed = std::min(alpha * want + (1 - alpha) * speed, dist);
    V3 d = gotoP - i.pos;
    unsure(std::fabs(d.norm() - 0.1) < 1e-3);
    if (d.norm() > 0.1) d.normalize();
    adapted = i.pos + speed * d;
    // smoothing
    if (sxy < 0.01 || sz < 0.01) { smoothed = adapted; return; }
    unsure(std::fabs((adapted - goal(i)).norm() - 0.1) < 1e-3);
    V3 v = (adapted - goal(i)).norm() < 0.1 ? V3(0, 0, 0) : i.vel, P(sxy, sxy, sz), D = 2 * P.array().sqrt();
    smv += ((adapted - sm).cwiseProduct(P) + (v - smv).cwiseProduct(D)) * dt;
    sm += smv * dt;
    smoothed = sm;
  }
  bool climbHere = false;
  V3 goal(const In& i) { return climbHere ? V3(i.pos.x(), i.pos.y(), i.goal.z()) : i.goal; }
  void step(const In& i) {
    climbHere = false;
    if (!i.airborne || !init) { sm = i.pos; smv.setZero(); yawSp = i.yaw * D2R; yawV = 0; reached = false; init = true; }
    if (landing) { sm = i.pos; smv.setZero(); }
    linvel = V3(NAN, NAN, NAN);
    double dt = i.now - last;
    last = i.now;
    dt = dt > 0 ? std::min(dt, 0.1) : 1e-4;
    int s = state, next = state;
    if (s == 0) {
      V3 sp = i.pos;
      bool ok = setpoint(i, sp);
      unsure((sp - i.pos).norm() < 1e-2 && (sp - i.pos).norm() > 0);
      gotoP = i.pos + (sp - i.pos).normalized();
      send(i, dt);
      if (i.stay) next = 2; else if (altitude(i)) next = 1; else if (!ok) next = 3;
    } else if (s == 1) {
      if (changed) { yawClimb = i.yaw * D2R; hold = i.pos; }
      if (i.nav == 5) {
        climbHere = true;
        gotoP = i.pos;
        if (i.airborne) { unsure(std::fabs(i.goal.z() - i.pos.z()) < 1e-4 && i.goal.z() != i.pos.z()); gotoP.z() += i.pos.z() <= i.goal.z() ? 1 : -1; }
      } else {
        unsure(std::fabs(i.vel.head<2>().norm() - 0.5) < 1e-3);
        if (i.vel.head<2>().norm() > 0.5) { linvel = V3(0, 0, NAN); gotoP = smoothed = hold = i.pos; }
        else {
          gotoP = V3(hold.x(), hold.y(), i.goal.z());
          if (landing) smoothed = gotoP;
          linvel = i.desired;
        }
      }
      send(i, dt);
      if (i.stay) next = 2; else if (!altitude(i)) next = 0;
    } else if (s == 2) {
      if (changed || !haveHover) { hover = i.pos; haveHover = true; }
      landing = false;  // holding the position is not landing
      gotoP = hover;
      send(i, dt);
      if (!i.stay) next = 0;
    } else {
      unsure((i.goal - i.pos).norm() < 1e-2);
      gotoP = i.pos + (i.goal - i.pos).normalized();
      send(i, dt);
      V3 sp;
      if (setpoint(i, sp)) next = 0; else if (altitude(i)) next = 1; else if (i.stay) next = 2;
    }
    changed = next != s;
    state = next;
  }
};
std::vector<V3> randomPath(pbt::Src& s, const V3& from) {
  std::vector<V3> f;
  int n = s.i(0, 6);
  V3 p = from + 0.1 * V3(s.sd(1), s.sd(1), s.sd(1));
  for (int k = 0; k < n; ++k) { f.push_back(p.cast<float>().cast<double>()); p += s.d(0.3, 3) * dirHist(s.sd(40), s.sd(180)); }
  std::reverse(f.begin(), f.end());
  return f;
}
std::string show(const In& i) {
  return " [t " + pbt::str(i.now) + " at " + sv(i.pos) + " v " + sv(i.vel) + " yaw " + pbt::str(i.yaw) + " goal " + sv(i.goal) + " " + kNavName[i.nav] + (i.stay ? " stay" : "") + (i.airborne ? "" : " on ground") + (i.land ? " landwp" : "") + (i.takeoff ? " takeoffwp" : "") + "]";
}
struct Flight {  // random input histories
  In i;
  double clock;
  Flight(pbt::Src& s, bool ground) {
    static const std::vector<double> clocks = {0.5, 100.0, 1.6e9};
    clock = s.pick(clocks);
    i.now = clock;
    i.pos = pos3(s, 20).cast<double>();
    i.vel = V3::Zero();
    i.goal = (i.pos + s.d(0.3, 40) * dirHist(s.sd(30), s.sd(180))).cast<float>().cast<double>();
    i.yaw = s.sd(180);
    i.pitch = 0;
    i.stay = s.b();
    i.airborne = !ground;
    i.land = i.takeoff = false;
    i.nav = s.b() ? 0 : s.i(0, 7);
    i.desired = V3(NAN, NAN, NAN);
  }
  void advance(pbt::Src& s, const V3& target, double cruise) {
    double dt = s.b(5, 6) ? s.d(0.03, 0.15) : (s.b(2, 3) ? s.d(0.2, 1.5) : s.d(2, 20));
    // the vehicle keeps moving during short gaps and stops during long ones
    V3 v;
    double vmax = std::min(6.0, std::isfinite(cruise) ? cruise + 1 : 3.0);
    switch (s.w({4, 2, 1})) {
      case 0: v = target.allFinite() ? V3((target - i.pos) * s.d(0.3, 1.2)) : V3(0, 0, 0); break;
      case 1: v = i.vel + 0.3 * V3(s.sd(1), s.sd(1), s.sd(1)); break;
      default: v = V3::Zero();
    }
    if (v.norm() > vmax) v *= vmax / v.norm();
    if (dt > 2) v.setZero();
    i.pos = (i.pos + std::min(dt, 1.0) * v).cast<float>().cast<double>();
    i.vel = v.cast<float>().cast<double>();
    if (s.b(1, 4)) i.yaw = wrap180(i.yaw + s.sd(20));
    if (s.b(1, 6)) i.pitch = s.sd(15);
    if (s.b(1, 20)) i.goal = (i.pos + s.d(0.05, 40) * dirHist(s.sd(30), s.sd(180))).cast<float>().cast<double>();
    if (s.b(1, 12)) i.nav = s.b() ? 0 : s.i(0, 7);
    if (s.b(1, 15)) i.stay = !i.stay;
    if (s.b(1, 15)) i.land = !i.land;
    if (s.b(1, 15)) i.takeoff = !i.takeoff;
    if (s.b(1, 20)) i.airborne = !i.airborne;
    if (s.b(1, 20)) i.desired = s.b() ? V3(NAN, NAN, NAN) : V3(s.sd(1), s.sd(1), s.sd(2)).cast<float>().cast<double>();
    clock += dt;
    i.now = ros::Time(clock).toSec();
  }
  Eigen::Quaternionf q() const {
    // yaw about z, then pitch (positive down) about y
    return Eigen::Quaternionf((Eigen::AngleAxisd(i.yaw * D2R, V3::UnitZ()) * Eigen::AngleAxisd(i.pitch * D2R, V3::UnitY())).cast<float>());
  }
};
void feed(Gen& g, const Flight& f) {
  const In& i = f.i;
  g.now = ros::Time(f.clock);
  g.updateState(i.pos.cast<float>(), f.q(), i.goal.cast<float>(), i.goal.cast<float>(), i.vel.cast<float>(), i.stay, i.airborne, kNav[i.nav], i.land, i.takeoff, i.desired.cast<float>());
}
}  // namespace

FACET(P18, behaviour, 20000, 300000, "histories of 5-60 cycles of a flight: vehicle moving, changes of flight mode, goal, mission item, staying, airborne; new look-ahead paths, cruise speeds, cameras, smoothing off or on, gaps and any clock; non-trivial when at least three states and a smoothed setpoint away from the vehicle occur") {
  Flight f(s, s.b());
  Gen g;
  Model m;
  int ncam = s.i(0, 2);
  for (int k = 0; k < ncam; ++k) { FOV v(s.sf(180.f), s.sf(20.f), s.f(30.f, 170.f), s.f(30.f, 90.f)); g.setFOV(k, v); m.fov.push_back(v); }
  if (s.b(1, 8)) { FOV v(0.f, 0.f, 360.f, 180.f); g.setFOV(0, v); m.fov.assign(1, v); for (int k = 1; k < ncam; ++k) { g.setFOV(k, v); m.fov.push_back(v); } }
  if (s.b()) { m.sxy = s.b(1, 5) ? 0 : s.d(0.5, 30); m.sz = s.b(1, 5) ? 0 : s.d(0.5, 30); g.setSmoothingSpeed(float(m.sxy), float(m.sz)); }
  int n = s.i(5, 60), states = 0;
  bool away = false;
  std::string tr;
  auto newPath = [&] {
    avoidanceOutput o;
    m.path = randomPath(s, f.i.pos);
    m.cruise = s.b(1, 12) ? NAN : s.f(0.3f, 6.f);
    ros::Time t(std::max(0.01, f.clock - s.d(0, 2)));
    m.pathTime = t.toSec();
    o.cruise_velocity = float(m.cruise);
    m.cruise = o.cruise_velocity;
    o.last_path_time = t;
    for (auto& p : m.path) o.path_node_positions.push_back(p.cast<float>());
    if (std::isnan(m.cruise) && m.path.size() > 2) { o.path_node_positions.clear(); m.path.clear(); }
    g.setPlannerInfo(o);
  };
  newPath();
  try {
    for (int k = 0; k < n; ++k) {
      int before = m.state;
      m.step(f.i);
      feed(g, f);
      waypointResult r = g.getWaypoints();
      tr += show(f.i) + "->" + kStateName[m.state];
      NOTE("smoothing " << m.sxy << "," << m.sz << tr);
      states |= 1 << m.state;
      CHECK(int(r.waypoint_type) == m.state && r.waypoint_type == g.getState(), "state is " << kStateName[int(r.waypoint_type)] << " after " << kStateName[before] << ", expected " << kStateName[m.state] << ":" << tr);
      double tol = 5e-3 * (1 + m.smv.norm()) + 2e-5 * f.i.pos.norm();
      CHECK((r.goto_position.cast<double>() - m.gotoP).norm() <= tol, "direction point " << sv(r.goto_position) << ", expected " << sv(m.gotoP) << " in state " << kStateName[before] << ":" << tr);
      if (!m.landing || before == 1 || before == 2) {
        CHECK((r.smoothed_goto_position.cast<double>() - m.smoothed).norm() <= tol, "setpoint " << sv(r.smoothed_goto_position) << ", expected " << sv(m.smoothed) << " in state " << kStateName[before] << ":" << tr);
        CHECK((r.position_wp - r.smoothed_goto_position).norm() <= 1e-5 * (1 + r.position_wp.norm()), "the commanded position " << sv(r.position_wp) << " is not the setpoint:" << tr);
        CHECK(m.landing || (r.adapted_goto_position.cast<double>() - m.adapted).norm() <= tol, "speed-adapted point " << sv(r.adapted_goto_position) << ", expected " << sv(m.adapted) << ":" << tr);
      }
      for (int d = 0; d < 3; ++d) CHECK(pbt::sameOrBothNan(r.linear_velocity_wp[d], m.linvel[d], 1e-4), "commanded velocity " << sv(r.linear_velocity_wp) << ", expected " << sv(m.linvel) << ":" << tr);
      const Eigen::Quaternionf& q = r.orientation_wp;
      double yaw = std::atan2(2.0 * (q.w() * q.z() + q.x() * q.y()), 1 - 2.0 * (q.y() * q.y() + q.z() * q.z()));
      CHECK(std::fabs(q.norm() - 1) < 1e-3 && std::fabs(wrapPi(yaw - m.yawSp)) <= 5e-3, "commanded yaw " << yaw << ", expected " << m.yawSp << " in state " << kStateName[before] << ":" << tr);
      CHECK(!std::isfinite(r.angular_velocity_wp.z()) || std::fabs(r.angular_velocity_wp.z()) <= M_PI, "commanded yaw rate " << r.angular_velocity_wp.z());
      if ((m.smoothed - f.i.pos).norm() > 0.2 && m.sxy > 0) away = true;
      f.advance(s, m.landing ? f.i.pos : m.smoothed, m.cruise);
      if (s.b(1, 6)) newPath();
    }
  } catch (Unsure&) { pbt::label("ended at a threshold"); }
  pbt::nontrivial(away && __builtin_popcount(unsigned(states)) >= 3);
}
FACET(P18, near_vehicle, 8000, 100000, "flights as in behaviour (any clock, gaps, starting on the ground or in the air); non-trivial when a gap of more than half a second or a start in the air happens while moving") {
  Flight f(s, s.b());
  Gen g;
  g.setFOV(0, FOV(0.f, 0.f, 360.f, 180.f));
  if (!f.i.airborne ? false : s.b()) f.i.vel = V3(s.sd(4), s.sd(4), s.sd(1)).cast<float>().cast<double>();
  bool nt = f.i.vel.norm() > 0.5;
  double sxy = 10, sz = 3;
  if (s.b()) { sxy = s.d(1, 30); sz = s.d(1, 30); g.setSmoothingSpeed(float(sxy), float(sz)); }
  int n = s.i(2, 40);
  bool landBefore = false;
  double fastest = 2, vmax = f.i.vel.norm();
  std::string tr;
  for (int k = 0; k < n; ++k) {
    if (k == 0 || s.b(1, 6)) {
      avoidanceOutput o;
      o.cruise_velocity = s.f(0.3f, 6.f);
      fastest = std::max(fastest, double(o.cruise_velocity));
      o.last_path_time = ros::Time(f.clock);
      for (auto& p : randomPath(s, f.i.pos)) o.path_node_positions.push_back(p.cast<float>());
      g.setPlannerInfo(o);
    }
    feed(g, f);
    waypointResult r = g.getWaypoints();
    tr += show(f.i);
    NOTE("smoothing " << sxy << "," << sz << tr);
    vmax = std::max(vmax, f.i.vel.norm());
    // while landing, and in the cycle after, the height is the goal's
    bool landNow = f.i.nav == 2 || f.i.land, altLand = landNow || landBefore;
    landBefore = landNow;
    Eigen::Vector3f d = r.position_wp - f.i.pos.cast<float>();
    if (altLand) d.z() = 0;
    double bound = 6 + 4 * (fastest + vmax) * (1 + 1 / std::sqrt(std::min(sxy, sz)));
    CHECK(d.allFinite() && d.norm() <= bound, "the commanded position is " << d.norm() << " m away from the vehicle:" << tr);
    double dist = (f.i.goal - f.i.pos).norm();
    if (!altLand) CHECK((r.adapted_goto_position.cast<double>() - f.i.pos).norm() <= std::min(dist, fastest) * 1.01 + 0.01, "the unsmoothed setpoint is " << (r.adapted_goto_position.cast<double>() - f.i.pos).norm() << " m ahead, the goal " << dist << " m, the cruise speed at most " << fastest << ":" << tr);
    double t0 = f.clock;
    V3 target = r.position_wp.allFinite() ? V3(r.position_wp.cast<double>()) : f.i.pos;
    if ((target - f.i.pos).norm() > 10) target = f.i.pos;
    f.advance(s, target, fastest);
    if (f.clock - t0 > 0.5 && f.i.vel.norm() > 0.3) nt = true;
  }
  pbt::nontrivial(nt);
}
FACET(P18, defined_output, 3000, 30000, "the same flight with generators placed on two different memory contents; non-trivial when at least five cycles are run") {
  std::vector<uint64_t> tape;
  struct Out { Eigen::Vector3f a, b, c, d, e; int st; };
  std::vector<Out> runs[2];
  Flight f0(s, s.b());
  int n = s.i(1, 25);
  std::vector<Flight> cyc;
  for (int k = 0; k < n; ++k) { cyc.push_back(f0); f0.advance(s, f0.i.pos + dirHist(0, 10), 2); }
  bool cams = s.b(), info = s.b(2, 3);  // no planner result yet
  for (int q = 0; q < 2; ++q) {
    void* mem = ::operator new(sizeof(Gen));
    memset(mem, q ? 0x47 : 0xC1, sizeof(Gen));  // floats -24.2 and 51015
    Gen* g = new (mem) Gen;
    if (cams) g->setFOV(0, FOV(0.f, 0.f, 90.f, 60.f));
    avoidanceOutput o;
    o.cruise_velocity = 2.f;
    o.last_path_time = ros::Time(cyc[0].clock);
    if (info) g->setPlannerInfo(o);
    for (auto& f : cyc) { feed(*g, f); waypointResult r = g->getWaypoints(); runs[q].push_back({r.position_wp, r.linear_velocity_wp, r.angular_velocity_wp, r.adapted_goto_position, r.goto_position, int(r.waypoint_type)}); }
    g->~Gen();
    ::operator delete(mem);
  }
  NOTE(n << " cycles");
  pbt::nontrivial(n >= 5);
  auto same = [](const Eigen::Vector3f& a, const Eigen::Vector3f& b) { for (int d = 0; d < 3; ++d) if (!pbt::sameOrBothNan(a[d], b[d], 0)) return false; return true; };
  for (int k = 0; k < n; ++k) {
    const Out &a = runs[0][size_t(k)], &b = runs[1][size_t(k)];
    CHECK(a.st == b.st, "cycle " << k << ": the state depends on uninitialised memory");
    CHECK(same(a.a, b.a), "cycle " << k << ": the commanded position depends on uninitialised memory: " << sv(a.a) << " or " << sv(b.a));
    CHECK(same(a.b, b.b), "cycle " << k << ": the commanded velocity depends on uninitialised memory: " << sv(a.b) << " or " << sv(b.b));
    CHECK(same(a.c, b.c), "cycle " << k << ": the commanded turn rate depends on uninitialised memory: " << sv(a.c) << " or " << sv(b.c));
    CHECK(same(a.d, b.d) && same(a.e, b.e), "cycle " << k << ": the direction depends on uninitialised memory");
  }
}
