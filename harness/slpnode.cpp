// P25, P26: the landing planner node: clouds to grids and status; what it shows
#include <dlfcn.h>
#include <geom.h>
#include <mavros_msgs/CompanionProcessStatus.h>
#include <pthread.h>
#include <safe_landing_planner/safe_landing_planner_node.hpp>
#include <safe_landing_planner/waypoint_generator_node.hpp>
#include <unistd.h>
#include <errno.h>
#include <deque>
#include <set>
using namespace avoidance;
using namespace geom;
typedef Eigen::Vector3f F3;
typedef safe_landing_planner::SLPGridMsg GridMsg;
typedef safe_landing_planner::SafeLandingPlannerNodeConfig Cfg;
int slpn_main(int, char**);

static volatile bool g_eagerThreads = false;  // new threads get to run before the thread that made them goes on
extern "C" int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* p) {
  typedef int (*F)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
  static F real = (F)dlsym(RTLD_NEXT, "pthread_create");
  int r = real(t, a, f, p);
  if (g_eagerThreads) usleep(3000);
  return r;
}

// The cloud thread: where it waits is known, so that the harness goes on once it can do nothing more
namespace worker {
struct State {
  std::mutex m;
  std::condition_variable cv;
  bool track = false, blocked = false, sleeping = false, go = false;
  void* on = nullptr;
};
State* st = new State;
thread_local bool ours = false;  // the harness' thread, or one busy in here
template <class F> F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
struct Busy { bool o; Busy() : o(ours) { ours = true; } ~Busy() { ours = o; } };
// the thread can do nothing more (or takes too long)
bool settle() {
  Busy b;
  std::unique_lock<std::mutex> l(st->m);
  return st->cv.wait_for(l, std::chrono::seconds(2), [] { return !st->track || (st->blocked && !st->go); });
}
// one round of its polling
bool round() {
  {
    Busy b;
    std::lock_guard<std::mutex> l(st->m);
    if (!st->track || !st->blocked || !st->sleeping) return false;
    st->go = true;
    st->cv.notify_all();
  }
  return settle();
}
void start() { ours = true; st->track = true; st->blocked = st->sleeping = st->go = false; }
void stop() { Busy b; std::lock_guard<std::mutex> l(st->m); st->track = false; st->cv.notify_all(); }
bool sleep() {
  if (ours || !st->track) return false;
  Busy b;
  std::unique_lock<std::mutex> l(st->m);
  st->blocked = st->sleeping = true;
  st->go = false;
  st->cv.notify_all();
  st->cv.wait(l, [] { return st->go || !st->track; });
  st->blocked = st->sleeping = st->go = false;
  return true;
}
void woken(void* c) {
  if (!st->track) return;
  Busy b;
  std::lock_guard<std::mutex> l(st->m);
  if (st->blocked && st->on == c) { st->blocked = false; st->on = nullptr; }
}
}  // namespace worker
extern "C" int nanosleep(const struct timespec* t, struct timespec* rem) {
  if (worker::sleep()) return 0;
  static auto f = worker::real<int (*)(const struct timespec*, struct timespec*)>("nanosleep");
  return f(t, rem);
}
extern "C" int clock_nanosleep(clockid_t c, int flags, const struct timespec* t, struct timespec* rem) {
  if (flags == 0 && worker::sleep()) return 0;
  static auto f = worker::real<int (*)(clockid_t, int, const struct timespec*, struct timespec*)>("clock_nanosleep");
  return f(c, flags, t, rem);
}
extern "C" int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* until) {
  static auto f = worker::real<int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*)>("pthread_cond_clockwait");
  if (worker::ours || !worker::st->track) return f(c, m, k, until);
  pthread_mutex_unlock(m);
  worker::sleep();
  pthread_mutex_lock(m);
  return ETIMEDOUT;
}
extern "C" int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  static auto f = worker::real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait");
  if (worker::ours || !worker::st->track) return f(c, m);
  {
    worker::Busy b;
    std::lock_guard<std::mutex> l(worker::st->m);
    worker::st->blocked = true;
    worker::st->sleeping = false;
    worker::st->on = c;
    worker::st->cv.notify_all();
  }
  int r = f(c, m);
  worker::Busy b;
  std::lock_guard<std::mutex> l(worker::st->m);
  if (worker::st->on == c) worker::st->blocked = false, worker::st->on = nullptr;
  return r;
}
extern "C" int pthread_cond_signal(pthread_cond_t* c) {
  static auto f = worker::real<int (*)(pthread_cond_t*)>("pthread_cond_signal");
  if (c != (void*)worker::st->cv.native_handle()) worker::woken(c);
  return f(c);
}
extern "C" int pthread_cond_broadcast(pthread_cond_t* c) {
  static auto f = worker::real<int (*)(pthread_cond_t*)>("pthread_cond_broadcast");
  if (c != (void*)worker::st->cv.native_handle()) worker::woken(c);
  return f(c);
}

namespace {
const int BOOT = 1, ACTIVE = 4, CRITICAL = 5, TERMINATION = 8;
sensor_msgs::PointCloud2 cloudMsg(const std::vector<F3>& p, const std::string& frame, const ros::Time& t, int rows) {
  sensor_msgs::PointCloud2 m;
  m.header.frame_id = frame;
  m.header.stamp = t;
  m.height = uint32_t(rows);
  m.width = uint32_t(p.size()) / m.height;
  const char* n[] = {"x", "y", "z"};
  for (int i = 0; i < 3; ++i) { sensor_msgs::PointField f; f.name = n[i]; f.offset = uint32_t(4 * i); f.datatype = 7; f.count = 1; m.fields.push_back(f); }
  m.point_step = 16;
  m.row_step = m.point_step * m.width;
  m.data.assign(m.row_step * m.height, 0);
  for (size_t i = 0; i < p.size(); ++i) memcpy(&m.data[i * 16], p[i].data(), 12);
  m.is_dense = false;
  return m;
}
geometry_msgs::PoseStamped poseMsg(const F3& p) {
  geometry_msgs::PoseStamped m;
  m.pose.position.x = p.x(); m.pose.position.y = p.y(); m.pose.position.z = p.z();
  m.pose.orientation.w = 1;
  return m;
}
template <class A> bool sameData(const A& d, const Eigen::MatrixXd& e, double tol) {
  if (d.size() != size_t(e.size())) return false;
  for (int i = 0; i < e.rows(); ++i) for (int j = 0; j < e.cols(); ++j) if (!pbt::sameOrBothNan(double(d[size_t(i * e.cols() + j)]), e(i, j), tol * (1 + std::fabs(e(i, j))))) return false;
  return true;
}
template <class A> bool layout(const A& a, int n) {
  return a.layout.dim.size() == 2 && int(a.layout.dim[0].size) == n && int(a.layout.dim[1].size) == n && a.data.size() == size_t(n * n);
}
// the message is this grid
bool shows(const GridMsg& m, const Grid& g) {
  int n = g.getRowColSize();
  if (!layout(m.mean, n) || !layout(m.land, n) || !layout(m.counter, n) || !layout(m.std_dev, n)) return false;
  if (std::fabs(m.grid_size - g.getGridSize()) > 1e-5 || std::fabs(m.cell_size - g.getCellSize()) > 1e-6) return false;
  return sameData(m.mean.data, g.getMean().cast<double>(), 1e-5) && sameData(m.land.data, g.land_.cast<double>(), 0) && sameData(m.counter.data, g.getCounter().cast<double>(), 0) &&
         sameData(m.std_dev.data, g.getVariance().cast<double>().array().sqrt().matrix(), 1e-4);
}
// how far apart two grids are; infinite for other cells or points
double apart(const Grid& a, const Grid& b) {
  if (a.getRowColSize() != b.getRowColSize()) return INFINITY;
  if (a.getRowColSize() == 0) return 0;
  Eigen::Vector2f m1, x1, m2, x2;
  a.getGridLimits(m1, x1);
  b.getGridLimits(m2, x2);
  if ((m1 - m2).norm() > 1e-3 || (x1 - x2).norm() > 1e-3 || a.getCounter() != b.getCounter()) return INFINITY;
  return std::max((a.getMean() - b.getMean()).cwiseAbs().maxCoeff(), 0.1f * (a.getVariance() - b.getVariance()).cwiseAbs().maxCoeff());
}
bool sameGrid(const Grid& a, const Grid& b) { return apart(a, b) < 1e-3; }
void smallGrid(Cfg& c, pbt::Src& s) {
  c.grid_size = s.i(2, 8);
  c.cell_size = s.pick(std::vector<double>{1, 0.5, 2});
  c.alpha = s.b(1, 4) ? 0.0 : s.d(0, 1);
  c.n_points_threshold = s.i(0, 3);
  c.std_dev_threshold = s.d(0.05, 1);
  c.smoothing_size = s.i(-1, 2);
  c.mean_diff_thr = s.d(0, 1);
  c.max_n_mean_diff_cells = s.i(0, 20);
  c.min_n_land_cells = s.i(0, 6);
}
}  // namespace

// ------------------------------------------------------------------ P25
FACET(P25, clouds_to_grid, 400, 8000, "histories of 3-25 cycles of the landing node with clouds (dense or organised, invalid points), transforms that come late, move or vanish, poses, settings, and pauses of up to 20 s while clouds are missing; or recorded grids instead of clouds; non-trivial when at least three grids were made and one of them had to wait for a transform, or a pause exceeded a timeout") {
  shim::dropAll();
  shim::clearTf();
  shim::setNow(1000);
  shim::sleepAdvances() = false;
  bool bag = s.b(1, 6), eager = s.b(1, 12);
  shim::setParam("pointcloud_topics", std::string("/cam/points"));
  shim::setParam("play_rosbag", bag);
  ros::NodeHandle nh("~");
  struct Off { ~Off() { shim::sleepAdvances() = true; shim::onCallAvailable() = nullptr; shim::okFlag() = true; g_eagerThreads = false; shim::clearTf(); shim::setParam("play_rosbag", false); } } off;
  std::unique_ptr<SafeLandingPlannerNode> node(new SafeLandingPlannerNode(nh));
  struct Free { ~Free() { worker::stop(); } } freeWorker;
  worker::start();
  g_eagerThreads = eager;
  node->startNode();
  g_eagerThreads = false;
  worker::settle();
  SafeLandingPlanner ref;
  ref.play_rosbag_ = bag;
  ref.dynamicReconfigureSetParams(Cfg::__getDefault__(), ~0u);
  std::string tr = bag ? " recorded grids" : "";
  auto settings = [&] {
    Cfg c = Cfg::__getDefault__();
    smallGrid(c, s);
    c.timeout_critical = s.b() ? 0.5 : s.d(0.3, 5);
    c.timeout_termination = s.b() ? 15 : s.d(1, 15);
    tr += " settings(" + pbt::str(c.grid_size) + "/" + pbt::str(c.cell_size) + " timeouts " + pbt::str(c.timeout_critical) + ", " + pbt::str(c.timeout_termination) + ")";
    CHECK(shim::reconfigure(c) == 1, "the node does not listen to reconfiguration");
    ref.dynamicReconfigureSetParams(c, ~0u);
  };
  settings();
  double start = 1000, lastGrid = -1e9, lastStatus = 1000;
  F3 pos = F3::Zero(), prevPos = F3::Zero();
  struct C { std::vector<F3> pts; ros::Time t; int id; bool ready; pcl::PointCloud<pcl::PointXYZ> world; };
  std::deque<C> clouds;  // delivered, not older than the last one used
  std::vector<std::pair<int64_t, tf::Transform>> hist;
  int id = 0, lastUsed = -1, without = 0, grids = 0, waited = 0, paused = 0;
  auto now = [&] { return ros::Time::now().toSec(); };
  auto addTf = [&] {
    tf::Quaternion q;
    q.setRPY(s.sd(0.5), s.sd(0.5), s.sd(3.1));
    tf::Transform t(q, tf::Vector3(pos.x() + s.sd(2), pos.y() + s.sd(2), pos.z() + s.sd(2)));
    ros::Time st = ros::Time::now();
    if (!hist.empty() && int64_t(st.toNSec()) - hist.back().first < 100000) return;
    shim::addTf("local_origin", "cam", t, st);
    hist.push_back({int64_t(st.toNSec()), t});
    tr += " tf";
  };
  auto usable = [&](C& c) {  // its transform is known
    if (c.ready) return true;
    int64_t t = int64_t(c.t.toNSec());
    if (hist.empty() || t < hist.front().first || t > hist.back().first) return false;
    size_t k = 1;
    while (k < hist.size() && hist[k].first < t) ++k;
    tf::Transform x = hist.back().second;
    if (k < hist.size()) {
      double r = double(t - hist[k - 1].first) / double(hist[k].first - hist[k - 1].first);
      x.setOrigin(hist[k - 1].second.getOrigin() * (1 - r) + hist[k].second.getOrigin() * r);
      x.setRotation(hist[k - 1].second.getRotation().slerp(hist[k].second.getRotation(), r));
    }
    c.world.clear();
    for (auto& p : c.pts) {
      if (!p.allFinite()) continue;
      tf::Vector3 e = x * tf::Vector3(p.x(), p.y(), p.z());
      c.world.push_back(pcl::PointXYZ(float(e.x()), float(e.y()), float(e.z())));
    }
    c.ready = true;
    return true;
  };
  GridMsg raw;
  auto newRaw = [&] {
    int n = s.i(1, 6);
    float cell = float(s.pick(std::vector<double>{0.5, 1, 2}));
    raw = GridMsg();
    raw.grid_size = n * cell;
    raw.cell_size = cell;
    raw.header.seq = uint32_t(++id);
    auto dims = [&](std::vector<std_msgs::MultiArrayDimension>& d) { d.assign(2, std_msgs::MultiArrayDimension()); d[0].size = d[1].size = uint32_t(n); };
    dims(raw.mean.layout.dim); dims(raw.std_dev.layout.dim); dims(raw.counter.layout.dim); dims(raw.land.layout.dim);
    for (int k = 0; k < n * n; ++k) { raw.mean.data.push_back(s.sd(3)); raw.std_dev.data.push_back(s.d(0, 1)); raw.counter.data.push_back(s.i(0, 6)); raw.land.data.push_back(0); }
  };
  auto newCloud = [&](bool old = true) {
    C c;
    int rows = s.b(1, 4) ? 2 : 1, np = s.i(0, 10) * rows;
    for (int j = 0; j < np; ++j) {
      F3 v = s.f(0.3f, 5) * F3(s.sf(1), s.sf(1), s.sf(1));
      if (s.b(1, 6)) v[s.i(0, 2)] = s.pick(std::vector<float>{NAN, INFINITY, -INFINITY});
      c.pts.push_back(v);
    }
    double age = s.b() || !old ? 0 : s.d(0, 0.5);
    c.t = ros::Time::now() - ros::Duration(age);
    c.t.fromNSec(c.t.toNSec() / 1000 * 1000);
    c.id = ++id;
    c.ready = false;
    clouds.push_back(c);
    tr += " cloud" + pbt::str(c.id) + "(" + pbt::str(np) + " pts)";
    CHECK(shim::deliver("/cam/points", cloudMsg(c.pts, "cam", c.t, rows)) == 1, "nobody listens to the clouds");
    worker::settle();
  };
  auto again = [&] { auto& c = clouds.back(); shim::deliver("/cam/points", cloudMsg(c.pts, "cam", c.t, 1)); worker::settle(); };
  size_t seenStatus = 0;
  double cycleStart = 0;
  // the status messages so far
  auto statuses = [&](bool made) {
    auto st = shim::published<mavros_msgs::CompanionProcessStatus>("mavros/companion_process/status");
    for (; seenStatus < st.size(); ++seenStatus) {
      auto& m = st[seenStatus];
      double t = m.header.stamp.toSec(), dc = t - lastGrid, ds = t - start;
      CHECK(m.component == 196, "component " << int(m.component) << ":" << tr);
      bool edge = std::fabs(dc - ref.timeout_critical_) < 1e-3 || std::fabs(ds - ref.timeout_critical_) < 1e-3 || std::fabs(dc - ref.timeout_termination_) < 1e-3 || std::fabs(ds - ref.timeout_termination_) < 1e-3;
      int want = dc > ref.timeout_termination_ && ds > ref.timeout_termination_ ? TERMINATION : dc > ref.timeout_critical_ && ds > ref.timeout_critical_ ? CRITICAL : ACTIVE;
      CHECK(edge || int(m.state) == want || (made && int(m.state) == ACTIVE), "status " << int(m.state) << " is sent " << dc << " s after the last grid and " << ds << " s after start, expected " << want << ":" << tr);
      lastStatus = t;
    }
  };
  int n = s.i(3, 25);
  for (int k = 0; k < n; ++k) {
    shim::advance(s.b(3, 4) ? 0.1 : s.d(0.01, 0.3));
    if (s.b(1, 12)) settings();
    if (s.b(2, 3)) { prevPos = pos; pos = s.b(1, 5) ? pos3(s, 50) : F3(pos + pos3(s, 0.5)); shim::deliver("mavros/local_position/pose", poseMsg(pos)); }
    if (!bag && s.b(2, 3)) addTf();
    if (bag && s.b(1, 6)) {  // clouds play no part
      ros::Time t = ros::Time::now();
      shim::addTf("local_origin", "cam", tf::Transform(tf::Quaternion(0, 0, 0, 1), tf::Vector3(0, 0, 0)), t);
      shim::deliver("/cam/points", cloudMsg({F3(0, 0, 1)}, "cam", t, 1));
      worker::settle();
      worker::round();
    }
    if (s.b(1, 3)) { if (bag) { newRaw(); shim::deliver("/raw_grid_slp", raw); } else newCloud(); }
    if (bag && id == 0) { newRaw(); shim::deliver("/raw_grid_slp", raw); }
    bool fresh = false;
    for (auto& c : clouds) fresh |= c.id != lastUsed;
    // what happens while the node waits
    int calls = 0, quiet = s.b(1, 10) ? s.i(3, 200) : s.i(0, 6);
    double left = s.b(1, 8) ? s.d(0.3, 20) : s.d(0, 0.5);
    int faults = s.b(1, 10) ? 1 : 0;
    std::string stuck;
    bool enabled = false, ended = false;
    auto spin = [&](double) {
      if (!stuck.empty()) return;
      try {
        ++calls;
        worker::round();
        statuses(false);
        CHECK(now() - lastStatus < 0.65, "no status is sent for " << now() - lastStatus << " s:" << tr);
        if (!enabled) {
          if (calls <= quiet || left > 0.05) {
            double d = std::min(left, 0.1);
            shim::advance(d);
            left -= d;
            ++waited;
            if (!bag && s.b(1, 6)) addTf();
            if (!bag && s.b(1, 8)) newCloud();
            if (s.b(1, 8)) { prevPos = pos; pos = pos + pos3(s, 0.5); shim::deliver("mavros/local_position/pose", poseMsg(pos)); }
            return;
          }
          if (bag) { newRaw(); shim::deliver("/raw_grid_slp", raw); enabled = true; return; }
          if (clouds.empty() || clouds.back().id == lastUsed) newCloud();
          while (!usable(clouds.back())) {
            if (!hist.empty() && int64_t(clouds.back().t.toNSec()) < hist.front().first) { newCloud(false); }
            shim::advance(0.01);
            addTf();
          }
          shim::tfFaults() = faults;
          again();
          enabled = true;
          return;
        }
        if (calls % 5 == 0) again();  // it may have come while the thread was not waiting
        CHECK(calls < 400, "the latest cloud and its transform are there and no grid is made:" << tr);
      } catch (const pbt::Fail& f) { stuck = f.msg; shim::okFlag() = false; } catch (...) { ended = true; shim::okFlag() = false; }
    };
    shim::onCallAvailable() = spin;
    cycleStart = now();
    NOTE(tr);
    shim::fireTimers(0.1);
    shim::onCallAvailable() = nullptr;
    if (!stuck.empty()) pbt::fail(stuck);
    if (ended) pbt::discard();
    shim::tfFaults() = 0;
    tr += " GRID(" + pbt::str(now() - 1000) + ")";
    statuses(true);
    if (now() - cycleStart > ref.timeout_critical_) ++paused;
    CHECK(now() - lastStatus < 0.65, "no status is sent for " << now() - lastStatus << " s:" << tr);
    // the same grid on a planner of our own
    ref.setPose(pos, Eigen::Quaternionf::Identity());
    Grid got = node->safe_landing_planner_->getGrid();
    int used = -1;
    if (bag) {
      ref.raw_grid_ = raw;
      ref.runSafeLandingPlanner();
      CHECK(id != lastUsed, "a grid is made without a new recorded grid:" << tr);
      lastUsed = id;
      CHECK(sameGrid(got, ref.getGrid()), "the grid is not the recorded one:" << tr);
    } else {
      SafeLandingPlanner best;
      double closest = INFINITY;
      for (auto& c : clouds) {
        if (!usable(c)) continue;
        SafeLandingPlanner r(ref);
        r.cloud_ = c.world;
        r.runSafeLandingPlanner();
        double d = apart(got, r.getGrid());
        if (d > 1e-3) continue;
        if (used < 0 || d < closest - 1e-5 || (used == lastUsed && d < closest + 1e-5)) { used = c.id; best = r; closest = d; }
      }
      // a point on the border between cells may be placed differently
      bool border = false;
      Eigen::Vector2f mn, mx;
      for (auto& c : clouds) {
        if (!c.ready) continue;
        for (auto& p : c.world) for (int d = 0; d < 2; ++d) {
          double g = got.getGridSize(), u = ((d ? p.y : p.x) - pos[d] + g / 2) / got.getCellSize();
          if (std::fabs(u - std::round(u)) < 2e-3) border = true;
        }
      }
      if (used < 0 && border) pbt::discard();
      CHECK(used >= 0, "the grid is that of none of the " << clouds.size() << " clouds since the last grid, in the world frame:" << tr);
      without = used == lastUsed ? without + 1 : 0;
      CHECK(without < 2, "grids are made again and again from the same cloud:" << tr);
      lastUsed = used;
      while (clouds.front().id != used) clouds.pop_front();
      ref = best;
    }
    lastGrid = now();
    ++grids;
    auto g = shim::published<GridMsg>("grid_slp");
    CHECK(g.size() == 1, g.size() << " grids are published in a cycle:" << tr);
    CHECK(shows(g[0], ref.getPreviousGrid()) || shows(g[0], ref.getGrid()), "the grid published (" << g[0].grid_size << "/" << g[0].cell_size << ") is neither that of this cycle nor of the one before:" << tr);
    double half = ref.getGrid().getGridSize() / 2.0 / ref.getGrid().getCellSize();
    CHECK(std::fabs(g[0].curr_pos_index.x - half) <= 1.01 && std::fabs(g[0].curr_pos_index.y - half) <= 1.01, "the vehicle's cell is " << g[0].curr_pos_index.x << "," << g[0].curr_pos_index.y << ":" << tr);
    static int lastSeq = -1;
    if (k > 0) CHECK(int(g[0].header.seq) == lastSeq + 1, "the grid has number " << g[0].header.seq << " after " << lastSeq << ":" << tr);
    lastSeq = int(g[0].header.seq);
    shim::clearPublished();
    seenStatus = 0;
  }
  pbt::label(bag ? "recorded grids" : "clouds");
  if (paused) pbt::label("pause beyond a timeout");
  pbt::nontrivial((grids >= 3 && waited) || paused);
}

FACET(P25, shutdown, 60, 600, "the landing node's process is asked to stop after any number of waits, with and without a cloud on its way, also while it starts; non-trivial when it was waiting") {
  shim::dropAll();
  shim::clearTf();
  shim::setNow(1000);
  shim::setParam("pointcloud_topics", std::string("/cam/points"));
  shim::setParam("play_rosbag", false);
  struct Off { ~Off() { shim::okFlag() = true; g_eagerThreads = false; } } off;
  shim::okFlag() = true;
  bool cloud = s.b();
  int delay = s.i(0, 20);
  g_eagerThreads = s.b(1, 3);
  NOTE((cloud ? "with a cloud, " : "") << delay << " ms" << (g_eagerThreads ? ", eager threads" : ""));
  std::thread stop([&] {
    usleep(useconds_t(1000 * delay));
    if (cloud) shim::deliver("/cam/points", cloudMsg({F3(0, 0, 1)}, "cam", ros::Time::now(), 1));
    shim::okFlag() = false;
  });
  char name[] = "node";
  char* argv[] = {name, nullptr};
  int r = slpn_main(1, argv);
  stop.join();
  CHECK(r == 0, "the process ends with code " << r);
  pbt::nontrivial(delay > 3);
}

// ------------------------------------------------------------------ P26
FACET(P26, display, 2000, 40000, "a landing planner after 1-3 rounds with any grid, clouds and thresholds, displayed once per round; non-trivial when the grid has landable, not landable, rough and smooth cells") {
  shim::dropAll();
  shim::setNow(100);
  ros::NodeHandle nh("~");
  SafeLandingPlannerVisualization vis;
  vis.initializePublishers(nh);
  SafeLandingPlanner p;
  Cfg c = Cfg::__getDefault__();
  smallGrid(c, s);
  p.dynamicReconfigureSetParams(c, ~0u);
  bool yes = false, no = false, rough = false, smooth = false;
  F3 last = pos3(s, 10);
  std::set<int> ids;
  for (int r = s.i(1, 3); r > 0; --r) {
    shim::clearPublished();
    F3 pos = pos3(s, 10);
    p.setPose(pos, Eigen::Quaternionf::Identity());
    p.cloud_.clear();
    p.cloud_.header.frame_id = "local_origin";
    for (int k = s.i(0, 60); k > 0; --k) p.cloud_.push_back(pcl::PointXYZ(float(pos.x() + s.sd(c.grid_size * 0.6)), float(pos.y() + s.sd(c.grid_size * 0.6)), float(s.b() ? 0 : s.sd(1))));
    p.runSafeLandingPlanner();
    geometry_msgs::Point a, b;
    a.x = pos.x(); a.y = pos.y(); a.z = pos.z();
    b.x = last.x(); b.y = last.y(); b.z = last.z();
    NOTE("grid " << c.grid_size << "/" << c.cell_size << " at " << sv(pos));
    vis.visualizeSafeLandingPlanner(p, a, b, c);
    Grid g = p.getGrid();
    int n = g.getRowColSize();
    Eigen::Vector2f mn, mx;
    g.getGridLimits(mn, mx);
    std::map<int, F3> countColour;
    for (std::string topic : {"grid", "grid_mean_std_dev", "grid_counter"}) {
      auto v = shim::published<visualization_msgs::MarkerArray>(topic);
      CHECK(v.size() == 1, v.size() << " messages on " << topic);
      CHECK(int(v[0].markers.size()) == n * n, v[0].markers.size() << " cells shown on " << topic << " of a grid of " << n << "x" << n);
      std::set<int> cellIds;
      std::vector<int> shown(size_t(n * n), 0);
      for (auto& m : v[0].markers) {
        cellIds.insert(m.id);
        double u = (m.pose.position.x - mn.x()) / g.getCellSize() - 0.5, w = (m.pose.position.y - mn.y()) / g.getCellSize() - 0.5;
        int i = int(std::lround(u)), j = int(std::lround(w));
        CHECK(std::fabs(u - i) < 1e-2 && std::fabs(w - j) < 1e-2 && i >= 0 && j >= 0 && i < n && j < n, "a cell shown on " << topic << " is at " << u << "," << w << " of " << n);
        ++shown[size_t(i * n + j)];
        CHECK(std::fabs(m.scale.x - g.getCellSize()) < 1e-4 && std::fabs(m.scale.y - g.getCellSize()) < 1e-4 && m.scale.z > 0 && m.header.frame_id == "local_origin" && m.color.a > 0, "size or frame of a cell on " << topic);
        double sd = std::sqrt(std::max(0.f, g.getVariance()(i, j)));
        F3 col(m.color.r, m.color.g, m.color.b);
        if (topic == "grid") {
          bool ok = g.land_(i, j) == 1;
          (ok ? yes : no) = true;
          CHECK((col - (ok ? F3(0, 1, 0) : F3(1, 0, 0))).norm() < 1e-3, "cell " << i << "," << j << " is " << (ok ? "" : "not ") << "landable and shown in " << sv(col));
          int d = std::max(std::abs(i - n / 2), std::abs(j - n / 2));
          if (c.smoothing_size >= 0 && d < c.smoothing_size) CHECK(m.scale.z > 0.5, "cell " << i << "," << j << " next to the vehicle is not raised");
          if (c.smoothing_size >= 0 && d > c.smoothing_size) CHECK(m.scale.z < 0.5, "cell " << i << "," << j << " away from the vehicle is raised");
        } else if (topic == "grid_mean_std_dev") {
          CHECK(std::fabs(m.pose.position.z - g.getMean()(i, j)) < 1e-4, "cell " << i << "," << j << " has the mean height " << g.getMean()(i, j) << " and is shown at " << m.pose.position.z);
          if (std::fabs(sd - c.std_dev_threshold) > 1e-4) {
            (sd > c.std_dev_threshold ? rough : smooth) = true;
            CHECK((col.norm() < 1e-3) == (sd > c.std_dev_threshold), "cell " << i << "," << j << " with deviation " << sd << " (threshold " << c.std_dev_threshold << ") is shown in " << sv(col));
            if (sd <= c.std_dev_threshold) {  // full colours, red for none over green to blue and back with the deviation
              CHECK(std::fabs(col.maxCoeff() - 1) < 1e-3 && std::fabs(col.minCoeff()) < 1e-3, "cell " << i << "," << j << " is shown in " << sv(col));
              double h = 360 * sd / c.std_dev_threshold;
              auto part = [](double x) { x = std::fabs(wrap180(x)); return std::max(0.0, std::min(1.0, 2 - x / 60)); };
              F3 e(float(part(h)), float(part(h - 120)), float(part(h - 240)));
              CHECK((col - e).norm() < 2e-2 || h > 359, "cell " << i << "," << j << " with deviation " << sd << " of " << c.std_dev_threshold << " is shown in " << sv(col) << ", expected " << sv(e));
            }
          }
        } else {
          int cnt = g.getCounter()(i, j);
          auto it = countColour.insert({cnt, col}).first;
          CHECK((it->second - col).norm() < 1e-3, "cells with " << cnt << " points are shown in " << sv(col) << " and " << sv(it->second));
          if (cnt < c.n_points_threshold - 300) CHECK(col.norm() < 1e-3, "cells with too few points are shown in " << sv(col));
        }
      }
      for (int x : shown) CHECK(x == 1, "a cell is shown " << x << " times on " << topic);
      CHECK(int(cellIds.size()) == n * n, "cells with the same id on " << topic);
    }
    auto pc = shim::published<pcl::PointCloud<pcl::PointXYZI>>("grid_pointcloud");
    CHECK(pc.size() == 1 && pc[0].header.frame_id == "local_origin", "the cloud shown");
    size_t total = size_t(g.getCounter().sum());
    CHECK(pc[0].size() == total, pc[0].size() << " points shown of " << total);
    auto path = shim::published<visualization_msgs::Marker>("path_actual");
    CHECK(path.size() == 1 && path[0].points.size() == 2, "the path shown");
    auto at = [](const geometry_msgs::Point& q) { return F3(float(q.x), float(q.y), float(q.z)); };
    CHECK((at(path[0].points[0]) - last).norm() < 1e-4 && (at(path[0].points[1]) - pos).norm() < 1e-4, "the path shown leads from " << sv(at(path[0].points[0])) << " to " << sv(at(path[0].points[1])));
    CHECK(ids.insert(path[0].id).second, "the path shown replaces an earlier part");
    last = pos;
  }
  pbt::nontrivial(yes && no && rough && smooth);
}

// ------------------------------------------------------------------ P35
namespace {
// ground with zones no one should land on
struct Zone { int kind; double x0, y0, x1, y1, h; };  // 0: higher or lower, 1: rough, 2: nothing seen
struct Ground {
  double z0 = 0, sx = 0, sy = 0;
  std::vector<Zone> zones;
  static bool in(const Zone& z, double x, double y) { return x > z.x0 && x < z.x1 && y > z.y0 && y < z.y1; }
  bool seen(double x, double y) const { for (auto& z : zones) if (z.kind == 2 && in(z, x, y)) return false; return true; }
  double at(double x, double y) const {
    double h = z0 + sx * x + sy * y;
    for (auto& z : zones) if (z.kind != 2 && in(z, x, y)) {
      if (z.kind == 0) h += z.h;
      else { uint64_t q = uint64_t(int64_t(std::floor(x * 50)) * 73856093 ^ int64_t(std::floor(y * 50)) * 19349663) * 0x9E3779B97F4A7C15ull; h += z.h * (double(q >> 40) / double(1 << 24) * 2 - 1); }
    }
    return h;
  }
  double clearance(double x, double y) const {  // horizontal distance to the next place that is not level (the middle of a step is)
    double d = 1e9;
    for (auto& z : zones) { double dx = std::max({z.x0 - x, 0.0, x - z.x1}), dy = std::max({z.y0 - y, 0.0, y - z.y1}); if (z.kind == 0 && in(z, x, y)) dx = std::min(x - z.x0, z.x1 - x), dy = std::min(y - z.y0, z.y1 - y), dx = dy = std::min(dx, dy) / std::sqrt(2.0); d = std::min(d, std::hypot(dx, dy)); }
    return d;
  }
};
}  // namespace
FACET(P35, landing, 160, 3000, "landings of a vehicle that follows the setpoints over ground with steps, rough and unseen zones, both nodes running with thresholds that ask for a level neighbourhood; non-trivial when it touched down and a zone lay within 3 m of the place asked for") {
  shim::dropAll(); shim::clearTf(); shim::setNow(1000); shim::sleepAdvances() = false;
  shim::setParam("pointcloud_topics", std::string("/cam/points"));
  shim::setParam("play_rosbag", false);
  ros::NodeHandle nh("~");
  struct Off { ~Off() { shim::sleepAdvances() = true; shim::onCallAvailable() = nullptr; shim::okFlag() = true; shim::clearTf(); } } off;
  std::unique_ptr<SafeLandingPlannerNode> node(new SafeLandingPlannerNode(nh));
  struct Free { ~Free() { worker::stop(); } } freeWorker;
  worker::start();
  node->startNode();
  worker::settle();
  std::unique_ptr<WaypointGeneratorNode> wpg(new WaypointGeneratorNode(nh));
  wpg->startNode();
  // settings
  int k = s.i(1, 2), slc = s.i(2, 3), rows = s.i(2 * (slc + k) + 2, 18);
  double cell = s.pick(std::vector<double>{0.5, 0.75, 1.0});
  Cfg c = Cfg::__getDefault__();
  c.grid_size = rows * cell; c.cell_size = cell; c.alpha = s.b(1, 3) ? 0.0 : s.d(0, 0.9);
  c.n_points_threshold = s.i(3, 6); c.std_dev_threshold = s.d(0.1, 0.2); c.smoothing_size = k;
  c.mean_diff_thr = s.d(0.1, 0.3); c.max_n_mean_diff_cells = 0; c.min_n_land_cells = (2 * k + 1) * (2 * k + 1) - 1;
  CHECK(shim::reconfigure(c) >= 1, "the node does not listen to reconfiguration");
  safe_landing_planner::WaypointGeneratorNodeConfig w = safe_landing_planner::WaypointGeneratorNodeConfig::__getDefault__();
  w.beta = s.b() ? 0.9 : s.d(0, 0.9); w.can_land_thr = s.d(0.3, 0.6); w.loiter_height = s.d(3, 8); w.smoothing_land_cell = slc; w.spiral_width = s.d(1, 2);
  CHECK(shim::reconfigure(w) >= 1, "the waypoint generator does not listen to reconfiguration");
  // the ground
  Ground g;
  F3 item(s.sf(30), s.sf(30), 0);
  g.z0 = s.b() ? 0 : s.d(-20, 5); if (s.b(1, 4)) { g.sx = s.sd(0.02); g.sy = s.sd(0.02); }
  int nz = s.w({1, 6}) ? s.i(1, 8) : 0;
  for (int q = 0; q < nz; ++q) {
    Zone z; z.kind = s.w({3, 2, 2}); z.h = z.kind == 1 ? s.d(0.8, 2) : s.d(0.8, 2) * (s.b() ? 1 : -1);
    double a = s.d(2.2 * cell, 8), b = s.d(2.2 * cell, 8); z.x0 = item.x() + s.sd(10) - a / 2; z.y0 = item.y() + s.sd(10) - b / 2; z.x1 = z.x0 + a; z.y1 = z.y0 + b;
    g.zones.push_back(z);
  }
  F3 pos = item + F3(s.sf(15), s.sf(15), 0); double level = g.z0 + g.sx * item.x() + g.sy * item.y();
  pos.z() = float(level + s.d(4, 14)); item.z() = pos.z();
  std::string tr = "grid " + pbt::str(rows) + "x" + pbt::str(cell) + " smoothing " + pbt::str(k) + " alpha " + pbt::str(c.alpha) + " patch " + pbt::str(slc) + " beta " + pbt::str(w.beta) + " thr " + pbt::str(w.can_land_thr) + " height " + pbt::str(w.loiter_height) + " spiral " + pbt::str(w.spiral_width) + " ground " + pbt::str(g.z0) + " slope " + pbt::str(g.sx) + "," + pbt::str(g.sy) + " item " + sv(item);
  for (auto& z : g.zones) tr += " zone" + pbt::str(z.kind) + "[" + pbt::str(z.x0) + ".." + pbt::str(z.x1) + "]x[" + pbt::str(z.y0) + ".." + pbt::str(z.y1) + "]h" + pbt::str(z.h);
  tr += ":";
  // mission
  { mavros_msgs::State st; st.mode = "AUTO.MISSION"; st.armed = true; shim::deliver("mavros/state", st); }
  auto sendPose = [&] { auto m = poseMsg(pos); m.header.stamp = ros::Time::now(); CHECK(shim::deliver("mavros/local_position/pose", m) >= 1, "nobody needs the position"); };
  sendPose();
  { mavros_msgs::Trajectory t; for (auto* p : {&t.point_1, &t.point_2}) { p->position.x = item.x(); p->position.y = item.y(); p->position.z = item.z(); p->velocity.x = p->velocity.y = p->velocity.z = NAN; }
    t.point_valid[0] = t.point_valid[1] = 1; t.point_valid[2] = t.point_valid[3] = t.point_valid[4] = 0; for (auto& q : t.command) q = UINT16_MAX; t.command[1] = 21;
    CHECK(shim::deliver("mavros/trajectory/desired", t) == 1, "nobody listens to trajectories"); }
  double step = s.d(0.2, 1.5);  // m per cycle
  double near = g.clearance(item.x(), item.y());
  double dn = s.d(cell / 3.6, cell / 3.05), ph = s.d(0, dn);
  bool down = false, bumped = false; int t = 0, limit = int(150 + 20 / step + (14 + 8) / (0.7 * step) * 2);
  for (; t < (nz ? 260 : limit) && !down && !bumped; ++t) {
    shim::advance(0.1);
    sendPose();
    // the camera looks down, more or less
    tf::Quaternion q; q.setRPY(M_PI + s.sd(0.3), s.sd(0.3), s.sd(3.1));
    tf::Transform T(q, tf::Vector3(pos.x() + 0.1, pos.y(), pos.z() - 0.1)), Ti = T.inverse();
    ros::Time now = ros::Time::now(); now.fromNSec(now.toNSec() / 1000 * 1000);
    shim::addTf("local_origin", "cam", T, now);
    std::vector<F3> pts; double half = rows * cell / 2 + 0.5;
    for (double x = std::floor((pos.x() - half) / dn) * dn + ph; x < pos.x() + half; x += dn) for (double y = std::floor((pos.y() - half) / dn) * dn + ph; y < pos.y() + half; y += dn) {
      if (!g.seen(x, y)) continue;
      tf::Vector3 e = Ti * tf::Vector3(x, y, g.at(x, y)); pts.push_back(F3(float(e.x()), float(e.y()), float(e.z())));
    }
    auto cloud = cloudMsg(pts, "cam", now, 1);
    shim::clearPublished();
    CHECK(shim::deliver("/cam/points", cloud) == 1, "nobody listens to the clouds");
    worker::settle();
    int calls = 0; size_t relayed = 0; std::string bad;
    shim::onCallAvailable() = [&](double) {
      auto gs = shim::published<GridMsg>("grid_slp");
      if (gs.size() > relayed) { relayed = gs.size(); shim::deliver("grid_slp", gs.back()); return; }
      worker::round(); if (++calls % 5 == 0) { shim::deliver("/cam/points", cloud); worker::settle(); }
      if (calls > 200) { bad = "the nodes go on waiting although a cloud and its transform are there"; shim::okFlag() = false; }
    };
    shim::fireTimers(0.1);
    shim::onCallAvailable() = nullptr;
    if (!bad.empty()) { shim::okFlag() = true; CHECK(false, bad << ": " << tr); }
    auto out = shim::published<mavros_msgs::Trajectory>("mavros/trajectory/generated");
    F3 was = pos;
    if (!out.empty()) {
      auto& o = out.back().point_1; float p[3] = {float(o.position.x), float(o.position.y), float(o.position.z)}, v[3] = {float(o.velocity.x), float(o.velocity.y), float(o.velocity.z)};
      F3 d = F3::Zero();
      for (int a = 0; a < 3; ++a) { if (std::isfinite(p[a])) d[a] = p[a] - pos[a]; }
      if (d.norm() > step) d *= float(step) / d.norm();
      if (!std::isfinite(p[2]) && std::isfinite(v[2])) d.z() = v[2] * float(std::min(step, 0.6));
      pos += d;
      if (s.b(1, 16)) tr += " t" + pbt::str(t) + sv(pos);
    }
    // flying past in too low an altitude is another matter
    if (pos.z() < g.at(pos.x(), pos.y()) + 0.5) (std::hypot(pos.x() - was.x(), pos.y() - was.y()) < 0.05 ? down : bumped) = true;
    if (down) tr += " DOWN at t" + pbt::str(t) + sv(pos) + " from " + sv(was);
  }
  NOTE(tr);
  if (down) {
    double d = g.clearance(pos.x(), pos.y());
    CHECK(d > (slc + k - 2) * cell - 0.5, "touched down " << d << " m from ground that is not level: " << tr);
  }
  if (near > rows * cell + 3) { CHECK(down, "no landing on level ground after " << t << " cycles: " << tr); CHECK(std::hypot(pos.x() - item.x(), pos.y() - item.y()) < 2.5, "landed elsewhere on level ground: " << tr); }
  pbt::label(down ? near > 3 ? "landed on free ground" : "landed aside" : bumped ? "flown into a step" : "not landed");
  pbt::nontrivial(down && near < 3);
}
