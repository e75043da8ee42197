// P07, P08: the companion process: failsafe status, flight-controller parameters, mission speed
#define THREADCTL_IMPL
#include <pbt.h>
#include <threadctl.h>
#include <avoidance/avoidance_node.h>
#include <mavros_msgs/CompanionProcessStatus.h>
#include <map>
#include <set>
using namespace avoidance;

namespace {
// MAV_STATE values of MAVLink that the companion status uses
const int BOOT = 1, ACTIVE = 4, CRITICAL = 5, TERMINATION = 8;
struct Rig {  // one node
  AvoidanceNode* node;
  threadctl::Gate* g;
  bool polled;
  explicit Rig(std::function<bool(mavros_msgs::ParamGet&)> srv) {
    threadctl::owner() = true;
    shim::dropAll();
    shim::setNow(100.0);
    shim::bus().services["mavros/param/get"] = [srv](void* s, std::type_index t) {
      return t == std::type_index(typeid(mavros_msgs::ParamGet)) && srv(*static_cast<mavros_msgs::ParamGet*>(s)); };
    g = new threadctl::Gate;
    threadctl::gate() = g;
    node = new AvoidanceNode(ros::NodeHandle(), ros::NodeHandle("~"));
    node->init();
    polled = threadctl::awaitRound(g, 1);
  }
  ~Rig() {
    threadctl::command(g, threadctl::Gate::RELEASE);
    delete node;  // stops its thread
    threadctl::gate() = nullptr;
    delete g;
    shim::dropAll();
  }
};
int status(AvoidanceNode& n) { return int(n.getSystemStatus()); }
ros::Duration dur(double s) { return ros::Duration(s); }
}  // namespace

// ------------------------------------------------------------------ P07
FACET(P07, failsafe_history, 6000, 60000, "histories of health checks (age of the last cloud, time since start, hovering reset by the planner), status changes and status timer ticks; non-trivial when the history passes through at least two of active, critical and termination") {
  Rig r([](mavros_msgs::ParamGet&) { return false; });
  int want = BOOT;
  CHECK(status(*r.node) == BOOT, "status after start is " << status(*r.node));
  int n = s.i(1, 25);
  bool hover = false;
  std::set<int> seen;
  std::string tr;
  for (int k = 0; k < n; ++k) {
    switch (s.w({6, 2, 1, 1})) {
      case 0: {
        static const std::vector<double> near = {0.0, 0.4, 0.49, 0.51, 0.6, 4.9, 5.1, 14.9, 15.1, 20.0, 100.0};
        double cloud = s.b() ? s.pick(near) : s.d(0, 25), start = s.b() ? s.pick(near) : s.d(0, 40);
        if (std::fabs(cloud - 0.5) < 1e-3 || std::fabs(cloud - 15) < 1e-3 || std::fabs(start - 5) < 1e-3 || std::fabs(start - 15) < 1e-3) break;
        tr += " check(cloud " + pbt::str(cloud) + " start " + pbt::str(start) + " hover " + pbt::str(hover) + ")";
        bool before = hover;
        r.node->checkFailsafe(dur(cloud), dur(start), hover);
        if (cloud > 15 && start > 15) { want = TERMINATION; CHECK(hover == before, "hovering changed on termination:" << tr); }
        else if (cloud > 0.5 && start > 5) { want = CRITICAL; CHECK(hover, "no hovering although the clouds stopped:" << tr); }
        else { CHECK(hover == before, "hovering changed while clouds arrive:" << tr); if (!before) want = ACTIVE; }
        seen.insert(want);
        CHECK(status(*r.node) == want, "status " << status(*r.node) << " expected " << want << ":" << tr);
        break;
      }
      case 1: hover = s.b(); tr += hover ? " hovering" : " moving"; break;
      case 2: want = s.i(0, 8); r.node->setSystemStatus(MAV_STATE(want)); tr += " set(" + pbt::str(want) + ")"; CHECK(status(*r.node) == want, "status set"); break;
      default: {
        shim::clearPublished();
        shim::advance(s.d(0, 1));
        shim::fireTimers();
        auto m = shim::published<mavros_msgs::CompanionProcessStatus>("mavros/companion_process/status");
        tr += " tick";
        CHECK(m.size() == 1, m.size() << " status messages in one tick:" << tr);
        CHECK(int(m[0].state) == want && int(m[0].component) == 196, "published state " << int(m[0].state) << " component " << int(m[0].component) << ", expected " << want << ":" << tr);
        CHECK(m[0].header.stamp == ros::Time::now(), "stamp of the status message");
      }
    }
  }
  NOTE(tr);
  pbt::nontrivial(seen.size() >= 2);
}
FACET(P07, heartbeat, 2000, 20000, "a running node with 1-20 timer ticks; non-trivial always") {
  Rig r([](mavros_msgs::ParamGet&) { return false; });
  pbt::nontrivial();
  int n = s.i(1, 20), slow = 0;
  for (auto& t : shim::bus().timers) if (t->running && t->period <= 0.2 + 1e-9) ++slow;
  CHECK(slow >= 1, "no timer of at most 0.2 s publishes the status");
  shim::clearPublished();
  for (int k = 0; k < n; ++k) { shim::advance(0.2); shim::fireTimers(); }
  size_t m = shim::published<mavros_msgs::CompanionProcessStatus>("mavros/companion_process/status").size();
  NOTE(n << " ticks, " << m << " messages");
  CHECK(m == size_t(n), m << " status messages in " << n << " ticks");
}

// ------------------------------------------------------------------ P08
namespace {
struct ParamRef { const char* name; float ModelParameters::*f; bool polled; };
const ParamRef kParams[] = {
    {"MPC_ACC_DOWN_MAX", &ModelParameters::param_mpc_acc_down_max, true}, {"MPC_ACC_HOR", &ModelParameters::param_mpc_acc_hor, true},
    {"MPC_ACC_UP_MAX", &ModelParameters::param_mpc_acc_up_max, true},     {"MPC_JERK_MIN", &ModelParameters::param_mpc_jerk_min, false},
    {"MPC_JERK_MAX", &ModelParameters::param_mpc_jerk_max, true},         {"MPC_LAND_SPEED", &ModelParameters::param_mpc_land_speed, true},
    {"MPC_TKO_SPEED", &ModelParameters::param_mpc_tko_speed, false},      {"MPC_XY_CRUISE", &ModelParameters::param_mpc_xy_cruise, true},
    {"MPC_Z_VEL_MAX_DN", &ModelParameters::param_mpc_z_vel_max_dn, true}, {"MPC_Z_VEL_MAX_UP", &ModelParameters::param_mpc_z_vel_max_up, true},
    {"CP_DIST", &ModelParameters::param_cp_dist, true},                   {"NAV_ACC_RAD", &ModelParameters::param_nav_acc_rad, true},
    {"MPC_YAWRAUTO_MAX", &ModelParameters::param_mpc_yawrauto_max, true}};
const size_t NP = sizeof(kParams) / sizeof(kParams[0]);
void compare(const ModelParameters& m, const std::map<std::string, float>& want, int mode, const std::string& tr) {
  for (auto& p : kParams) {
    auto i = want.find(p.name);
    float w = i == want.end() ? NAN : i->second, g = m.*(p.f);
    CHECK(pbt::sameOrBothNan(g, w, 1e-4 * (1 + std::fabs(w))), p.name << " is " << g << ", expected " << w << ":" << tr);
  }
  CHECK(m.param_mpc_auto_mode == mode, "MPC_AUTO_MODE is " << m.param_mpc_auto_mode << ", expected " << mode << ":" << tr);
}
}  // namespace
FACET(P08, parameters, 4000, 40000, "histories of parameter messages (known and unknown names) and polling rounds in which each request is answered or fails; non-trivial when both sources wrote the same parameter") {
  std::map<std::string, float> answers, model;
  std::set<std::string> asked, fromMsg;
  int mode = -1;
  auto roll = [&] {
    answers.clear();
    bool all = s.b(1, 3);
    for (auto& p : kParams) if (all || s.b(2, 3)) answers[p.name] = s.sf(20.f);
  };
  roll();
  auto srv = [&](mavros_msgs::ParamGet& q) {
    asked.insert(q.request.param_id);
    auto i = answers.find(q.request.param_id);
    q.response.success = i != answers.end();
    q.response.value.real = i == answers.end() ? 999.0 : double(i->second);
    q.response.value.integer = 777;
    return q.response.success || (q.request.param_id.size() % 2);  // failing calls and failing answers
  };
  Rig r(srv);
  std::string tr;
  bool overlap = false;
  auto absorb = [&] {
    for (auto& p : kParams) if (asked.count(p.name) && answers.count(p.name)) { overlap = overlap || fromMsg.count(p.name); model[p.name] = answers[p.name]; }
    for (auto& p : kParams) if (p.polled) CHECK(asked.count(p.name), p.name << " is not polled");
    bool complete = true;
    for (auto& p : kParams) if (p.polled && !model.count(p.name)) complete = false;
    CHECK(r.g->lastSleep > 0, "no sleep between polls");
    if (complete) CHECK(r.g->lastSleep <= 30.5, "the next poll is " << r.g->lastSleep << " s away");
    else CHECK(r.g->lastSleep <= 5.5, "parameters are missing and the next poll is " << r.g->lastSleep << " s away:" << tr);
  };
  if (!r.polled) return;  // the polling thread does not sleep the way this harness can follow
  absorb();
  compare(r.node->getPX4Parameters(), model, mode, tr);
  int n = s.i(1, 30), round = 1;
  for (int k = 0; k < n; ++k) {
    if (s.b(1, 6)) {
      asked.clear();
      roll();
      threadctl::command(r.g, threadctl::Gate::GO);
      if (!threadctl::awaitRound(r.g, ++round)) return;
      tr += " poll";
      absorb();
    } else {
      mavros_msgs::Param m;
      m.value.real = s.sd(20);
      m.value.integer = s.si(100);
      switch (s.w({10, 1, 1})) {
        case 0: { const ParamRef& p = kParams[s.raw(NP)]; m.param_id = p.name; model[p.name] = float(m.value.real); fromMsg.insert(p.name); break; }
        case 1: m.param_id = "MPC_AUTO_MODE"; mode = int(m.value.integer); break;
        default: { static const std::vector<std::string> u = {"", "MPC_ACC", "MPC_ACC_HOR_MAX", "CP_DIST2", "MPC_XY_VEL_MAX", "mpc_acc_hor"}; m.param_id = s.pick(u); }
      }
      tr += " " + m.param_id + "=" + pbt::str(m.value.real) + "/" + pbt::str(m.value.integer);
      CHECK(shim::deliver("mavros/param/param_value", m) == 1, "nobody listens to the flight controller's parameters");
    }
    compare(r.node->getPX4Parameters(), model, mode, tr);
  }
  NOTE(tr);
  pbt::nontrivial(overlap);
}
FACET(P08, mission_speed, 20000, 200000, "histories of mission lists with speed changes of any type anywhere, waypoints in between, and any (or no) current item; non-trivial when a speed change before the current item is found and another one after it is not") {
  shim::dropAll();
  AvoidanceNode node{ros::NodeHandle(), ros::NodeHandle("~")};
  std::vector<double> acceptable = {NAN};  // more than one when the speed type is airspeed, about which nothing is said
  int n = s.i(1, 6);
  bool nt = false;
  std::string tr;
  for (int k = 0; k < n; ++k) {
    mavros_msgs::WaypointList m;
    int len = s.i(0, 10), cur = len ? s.i(-1, len - 1) : -1;
    for (int j = 0; j < len; ++j) {
      mavros_msgs::Waypoint w;
      w.command = uint16_t(s.b(2, 5) ? 178 : s.pick(std::vector<int>{16, 22, 21, 177, 179, 0}));
      w.param1 = float(s.pick(std::vector<int>{1, 1, 1, 2, 3, 0}));
      w.param2 = s.b(1, 4) ? float(-s.i(0, 2)) : s.f(0.1f, 15.f);
      w.is_current = j == cur;
      m.waypoints.push_back(w);
      tr += " " + pbt::str(int(w.command)) + (w.command == 178 ? "(" + pbt::str(w.param1) + "," + pbt::str(w.param2) + ")" : std::string()) + (j == cur ? "*" : "");
    }
    tr += ";";
    std::vector<double> next;
    bool found = false;
    for (int j = cur; j >= 0; --j) {
      auto& w = m.waypoints[size_t(j)];
      if (w.command != 178 || !(w.param2 > 0)) continue;
      if (w.param1 == 1.f) { next.push_back(w.param2); found = true; break; }
      if (w.param1 == 0.f) next.push_back(w.param2);
    }
    if (!found) for (double a : acceptable) next.push_back(a);
    acceptable = next;
    for (int j = cur + 1; j < len && found; ++j) if (m.waypoints[size_t(j)].command == 178 && m.waypoints[size_t(j)].param1 == 1.f) nt = true;
    node.missionCallback(m);
    double g = node.getMissionItemSpeed();
    bool ok = false;
    for (double a : acceptable) ok = ok || pbt::sameOrBothNan(g, a, 1e-5);
    CHECK(ok, "mission speed " << g << ", expected " << acceptable.front() << ":" << tr);
  }
  NOTE(tr);
  pbt::nontrivial(nt);
}
