// P10..P15: perception and planning functions of the local planner
#include <geom.h>
#include <local_planner/planner_functions.h>
#include <local_planner/local_planner.h>
#include <local_planner/star_planner.h>
#include <local_planner/tree_node.h>
#include <local_planner/trajectory_simulator.h>
#include <map>
#include <set>
using namespace avoidance;
using namespace geom;
typedef pcl::PointCloud<pcl::PointXYZ> Cloud;
typedef pcl::PointCloud<pcl::PointXYZI> ICloud;

namespace {
const int SUB = 2;  // degrees per cell of the subsampling grid: a third of ALPHA_RES
Eigen::Vector3f at(const Eigen::Vector3f& o, double e, double z, double r) { return (o.cast<double>() + r * dirHist(e, z)).cast<float>(); }
std::string cams(const std::vector<FOV>& v) {
  std::string o;
  for (auto& f : v) o += "[yaw " + pbt::str(f.yaw_deg) + " pitch " + pbt::str(f.pitch_deg) + " h " + pbt::str(f.h_fov_deg) + " v " + pbt::str(f.v_fov_deg) + "]";
  return o;
}
// 1 seen, 0 not seen, -1 too close to a border to say. v: vector from the vehicle
int seen(const std::vector<FOV>& fov, const V3& v, double yaw, double pitch, double tol = 0.05) {
  double e = -elev(v) - pitch, z = 90 - azim(v) - yaw;
  e = wrap180(e);
  if (std::fabs(std::fabs(e) - 90) < tol) return -1;
  if (e > 90) { e = 180 - e; z += 180; } else if (e < -90) { e = -180 - e; z += 180; }
  int r = 0;
  for (auto& f : fov) {
    double m = std::min(f.h_fov_deg / 2.0 - circ(z, f.yaw_deg), f.v_fov_deg / 2.0 - std::fabs(e - f.pitch_deg));
    if (m > tol) return 1;
    if (m > -tol) r = -1;
  }
  return r;
}
}  // namespace

// ------------------------------------------------------------------ P10
FACET(P10, one_pass, 20000, 300000, "1-3 new clouds and a remembered cloud around the vehicle, points clustered into a few 2 degree cells, invalid points mixed in, any cameras, attitude, ranges, age and minimum count; non-trivial when a cell is populated, one is below the minimum count, and a remembered point is kept and another one dropped") {
  Eigen::Vector3f pos = pos3(s, 50);
  float minr = s.f(0.f, 2.f), maxr = s.f(3.f, 20.f), maxAge = s.f(0.f, 20.f), dt = s.f(0.f, 1.f), yaw = s.sf(180.f), pitch = s.sf(30.f);
  int N = s.b(1, 3) ? 1 : s.i(2, 4);
  std::vector<FOV> fov;
  for (int k = s.i(0, 2); k > 0; --k) fov.push_back(FOV(s.sf(180.f), s.sf(30.f), s.f(10.f, 170.f), s.f(10.f, 90.f)));
  std::vector<std::pair<int, int>> cells;
  for (int k = s.i(1, 6); k > 0; --k) cells.push_back({s.i(2, 180 / SUB - 3), s.i(0, 360 / SUB - 1)});
  auto point = [&]() {
    auto c = s.pick(cells);
    double r = s.b(1, 5) ? (s.b() ? minr * s.d(0.1, 0.98) : maxr * s.d(1.02, 1.5)) : s.d(minr * 1.02 + 0.01, maxr * 0.98);
    return at(pos, -90 + SUB * (c.first + s.d(0.05, 0.95)), -180 + SUB * (c.second + s.d(0.05, 0.95)), r);
  };
  std::vector<Cloud> in(size_t(s.i(1, 3)));
  std::map<std::pair<int, int>, std::vector<V3>> fresh;
  bool unsure = false;
  for (auto& c : in) {
    c.header.stamp = uint64_t(s.i(1, 1000000));
    c.header.frame_id = s.b() ? "local_origin" : "map";
    for (int k = s.i(0, 12); k > 0; --k) {
      Eigen::Vector3f p = point();
      if (s.b(1, 8)) { p[int(s.raw(3))] = s.b() ? NAN : (s.b() ? INFINITY : -INFINITY); c.push_back(toXYZ(p)); continue; }
      c.push_back(toXYZ(p));
      V3 v = p.cast<double>() - pos.cast<double>();
      if (std::fabs(v.norm() - minr) < 2e-3 || std::fabs(v.norm() - maxr) < 2e-3) unsure = true;
      Cell q = cellOf(v, SUB);
      if (q.margin < 0.01) unsure = true;
      if (v.norm() > minr && v.norm() < maxr) fresh[{q.e, q.z}].push_back(p.cast<double>());
    }
  }
  ICloud cloud;
  std::map<std::pair<int, int>, std::vector<std::pair<V3, double>>> old;
  int n = s.i(0, 12);
  for (int k = 0; k < n; ++k) {
    Eigen::Vector3f p = point();
    float age = s.b(1, 4) ? maxAge + s.f(0.01f, 5.f) : maxAge * s.f(0.f, 0.99f);
    cloud.push_back(toXYZI(p, age));
    V3 v = p.cast<double>() - pos.cast<double>();
    int in = seen(fov, v, yaw, pitch);
    Cell q = cellOf(v, SUB);
    if (std::fabs(v.norm() - maxr) < 2e-3 || in < 0 || q.margin < 0.01 || std::fabs(age - maxAge) < 1e-3) unsure = true;
    if (v.norm() < maxr && in == 0 && age < maxAge) old[{q.e, q.z}].push_back({p.cast<double>(), age});
  }
  if (unsure) pbt::discard();
  ICloud before = cloud;
  NOTE("vehicle " << sv(pos) << " yaw " << yaw << " pitch " << pitch << " range " << minr << ".." << maxr << " min count " << N << " max age " << maxAge << " elapsed " << dt << " cameras " << cams(fov) << " remembered " << n << " new " << in[0].size());
  processPointcloud(cloud, in, fov, yaw, pitch, pos, minr, maxr, maxAge, dt, N);
  std::set<std::pair<int, int>> have;
  int kept = 0, popul = 0;
  for (auto& p : cloud.points) {
    Eigen::Vector3f f = toEigen(p);
    Cell q = cellOf(f.cast<double>() - pos.cast<double>(), SUB);
    std::pair<int, int> c(q.e, q.z);
    CHECK(have.insert(c).second, "two points in the cell " << q.e << "," << q.z);
    auto i = fresh.find(c);
    if (i != fresh.end() && int(i->second.size()) >= N) {
      ++popul;
      bool ok = false;
      for (auto& v : i->second) ok = ok || (v - f.cast<double>()).norm() < 1e-6;
      CHECK(ok, "point " << sv(f) << " is not one of the cell's new points");
      CHECK(p.intensity == 0.f, "a new point has age " << p.intensity);
    } else {
      auto j = old.find(c);
      CHECK(j != old.end(), "point " << sv(f) << " age " << p.intensity << " should not be there");
      bool ok = false;
      for (auto& v : j->second) ok = ok || ((v.first - f.cast<double>()).norm() < 1e-6 && std::fabs(v.second + dt - p.intensity) < 1e-4);
      CHECK(ok, "point " << sv(f) << " age " << p.intensity << " is not a remembered point aged by " << dt);
      ++kept;
    }
  }
  bool below = false;
  for (auto& c : fresh) { if (int(c.second.size()) >= N) CHECK(have.count(c.first), "cell " << c.first.first << "," << c.first.second << " has " << c.second.size() << " new points and none is kept"); else below = true; }
  for (auto& c : old) CHECK(have.count(c.first), "the remembered point " << sv(c.second[0].first) << " was dropped");
  CHECK(cloud.height == 1 && cloud.width == cloud.points.size(), "cloud is " << cloud.width << "x" << cloud.height << " with " << cloud.points.size() << " points");
  CHECK(cloud.header.stamp == in[0].header.stamp && cloud.header.frame_id == in[0].header.frame_id, "header of the result");
  pbt::nontrivial(popul > 0 && (N == 1 || below) && kept > 0 && kept < n);
}
FACET(P10, memory, 1500, 20000, "a planner observing over 2-12 rounds while it turns: obstacles appear, leave the view and disappear; non-trivial when a point was remembered over at least two rounds and another one forgotten by age or by being looked at") {
  shim::setNow(1000.0);
  LocalPlanner lp;
  LocalPlannerNodeConfig c = LocalPlannerNodeConfig::__getDefault__();
  c.max_point_age_s_ = s.d(0.5, 8);
  c.n_expanded_nodes_ = 1;
  c.children_per_node_ = 1;
  lp.dynamicReconfigureSetParams(c, 0);
  lp.setDefaultPx4Parameters();
  lp.setGoal(Eigen::Vector3f(50, 0, 3));
  FOV f(0.f, 0.f, s.f(30.f, 120.f), s.f(30.f, 90.f));
  lp.setFOV(0, f);
  Eigen::Vector3f pos = pos3(s, 20);
  struct Mem { double age; int rounds; };
  std::map<std::pair<int, int>, Mem> model;
  std::map<std::pair<int, int>, Eigen::Vector3f> where;
  std::vector<Eigen::Vector3f> world;
  for (int k = s.i(1, 8); k > 0; --k) {
    Eigen::Vector3f p = at(pos, -90 + SUB * (s.i(30, 60) + s.d(0.1, 0.9)), -180 + SUB * (s.i(0, 179) + s.d(0.1, 0.9)), s.d(1, 14));
    Cell q = cellOf(p.cast<double>() - pos.cast<double>(), SUB);
    if (where.insert({{q.e, q.z}, p}).second) world.push_back(p);
  }
  int n = s.i(2, 12);
  bool remembered = false, forgotten = false;
  std::string tr;
  for (int k = 0; k < n; ++k) {
    double dt = s.d(0.05, 2.0);
    shim::advance(dt);
    float yaw = s.sf(180.f);
    Eigen::Quaternionf q(Eigen::AngleAxisf(float(yaw * D2R), Eigen::Vector3f::UnitZ()));
    lp.setState(pos, Eigen::Vector3f::Zero(), q);
    if (s.b(1, 6) && !world.empty()) world.erase(world.begin() + long(s.raw(world.size())));
    Cloud cl;
    cl.header.frame_id = "local_origin";
    std::map<std::pair<int, int>, Mem> next;
    for (auto& p : world) {
      V3 v = p.cast<double>() - pos.cast<double>();
      int in = seen({f}, v, yaw, 0);
      if (in < 0) return;
      if (in == 1) { cl.push_back(toXYZ(p)); Cell q = cellOf(v, SUB); next[{q.e, q.z}] = {0, 0}; }
    }
    for (auto& m : model) {
      if (next.count(m.first)) continue;
      V3 v = where[m.first].cast<double>() - pos.cast<double>();
      int in = seen({f}, v, yaw, 0);
      if (in < 0 || std::fabs(m.second.age - c.max_point_age_s_) < 1e-3) return;
      if (in == 0 && m.second.age < c.max_point_age_s_) { next[m.first] = {m.second.age + dt, m.second.rounds + 1}; if (m.second.rounds) remembered = true; }
      else forgotten = true;
    }
    model = next;
    tr += " [dt " + pbt::str(dt) + " yaw " + pbt::str(yaw) + " seen " + pbt::str(cl.size()) + " expected " + pbt::str(model.size()) + "]";
    lp.original_cloud_vector_ = {cl};
    lp.runPlanner();
    const ICloud& got = lp.getPointcloud();
    CHECK(got.size() == model.size(), "the planner holds " << got.size() << " points, expected " << model.size() << ":" << tr);
    for (auto& p : got.points) {
      Cell q = cellOf(toEigen(p).cast<double>() - pos.cast<double>(), SUB);
      auto i = model.find({q.e, q.z});
      CHECK(i != model.end(), "point " << sv(toEigen(p)) << " should be forgotten:" << tr);
      CHECK((where[i->first] - toEigen(p)).norm() < 1e-5 && std::fabs(p.intensity - i->second.age) < 1e-3, "point " << sv(toEigen(p)) << " has age " << p.intensity << ", expected " << i->second.age << ":" << tr);
    }
  }
  NOTE("view " << cams({f}) << " max age " << c.max_point_age_s_ << tr);
  pbt::nontrivial(remembered && forgotten);
}

// ------------------------------------------------------------------ P11
FACET(P11, histogram, 30000, 400000, "clouds of 0-40 points around any position, clustered into cells; non-trivial when some cell holds at least two points") {
  Eigen::Vector3f pos = pos3(s, 50);
  ICloud cl;
  std::map<std::pair<int, int>, std::vector<double>> ref;
  std::vector<std::pair<int, int>> cells;
  for (int k = s.i(1, 8); k > 0; --k) cells.push_back({s.i(0, GRID_LENGTH_E - 1), s.i(0, GRID_LENGTH_Z - 1)});
  for (int k = s.i(0, 40); k > 0; --k) {
    auto c = s.pick(cells);
    double e = -90 + ALPHA_RES * (c.first + s.d(0.03, 0.97));
    if (std::fabs(e) > 89) e = e > 0 ? 89 : -89;
    Eigen::Vector3f p = at(pos, e, -180 + ALPHA_RES * (c.second + s.d(0.03, 0.97)), s.d(0.5, 25));
    Cell q = cellOf(p.cast<double>() - pos.cast<double>(), ALPHA_RES);
    if (q.margin < 0.01) continue;
    cl.push_back(toXYZI(p, s.f(0.f, 5.f)));
    ref[{q.e, q.z}].push_back((p.cast<double>() - pos.cast<double>()).norm());
  }
  NOTE("vehicle " << sv(pos) << ", " << cl.size() << " points in " << ref.size() << " cells");
  Histogram h(ALPHA_RES);
  generateNewHistogram(h, cl, pos);
  for (int e = 0; e < GRID_LENGTH_E; ++e)
    for (int z = 0; z < GRID_LENGTH_Z; ++z) {
      auto i = ref.find({e, z});
      double want = 0;
      if (i != ref.end()) { for (double d : i->second) want += d; want /= double(i->second.size()); if (i->second.size() > 1) pbt::nontrivial(); }
      CHECK(std::fabs(h.get_dist(e, z) - want) <= 1e-3, "cell " << e << "," << z << " holds " << h.get_dist(e, z) << ", the mean distance is " << want);
    }
  CHECK(h.isEmpty() == ref.empty(), "empty says " << h.isEmpty() << " with " << ref.size() << " occupied cells");
}
FACET(P11, compressed, 30000, 400000, "histograms with 0-30 occupied cells concentrated around the horizon; non-trivial when a column holds two usable obstacles, and an obstacle too high or low is present") {
  Eigen::Vector3f pos = pos3(s, 30);
  Histogram h(ALPHA_RES), out(ALPHA_RES);
  struct O { int e, z; double d; };
  std::vector<O> obs;
  int zbase = s.i(0, GRID_LENGTH_Z - 1), zs = s.i(1, 6);
  std::set<std::pair<int, int>> used;
  for (int k = s.i(0, 30); k > 0; --k) {
    O o{s.b(3, 4) ? s.i(11, 18) : s.i(0, GRID_LENGTH_E - 1), (zbase + s.i(0, zs)) % GRID_LENGTH_Z, s.d(0.1, 20)};
    if (!used.insert({o.e, o.z}).second) continue;
    obs.push_back(o);
    h.set_dist(o.e, o.z, float(o.d));
  }
  std::vector<double> want(GRID_LENGTH_Z, 0.0);
  std::vector<int> cnt(GRID_LENGTH_Z, 0);
  bool high = false;
  std::set<int> skip;
  std::string tr;
  for (auto& o : obs) {
    double centre = -90 + ALPHA_RES * (o.e + 0.5);
    tr += " (" + pbt::str(o.e) + "," + pbt::str(o.z) + "):" + pbt::str(o.d);
    // rows that overlap +-10 degrees around the horizon
    if (centre + ALPHA_RES / 2.0 <= -10 || centre - ALPHA_RES / 2.0 >= 10) continue;
    double dz = std::fabs(o.d * std::sin(centre * D2R));
    if (std::fabs(dz - 1) < 1e-3) { skip.insert(o.z); continue; }
    if (dz > 1) { high = true; continue; }
    ++cnt[size_t(o.z)];
    if (want[size_t(o.z)] == 0 || o.d < want[size_t(o.z)]) want[size_t(o.z)] = o.d;
  }
  NOTE("vehicle " << sv(pos) << " cells (e,z):distance" << tr);
  compressHistogramElevation(out, h, pos);
  bool two = false;
  for (int z = 0; z < GRID_LENGTH_Z; ++z) {
    if (skip.count(z)) continue;
    two = two || cnt[size_t(z)] > 1;
    CHECK(std::fabs(out.get_dist(0, z) - want[size_t(z)]) <= 1e-4, "column " << z << " holds " << out.get_dist(0, z) << ", the nearest obstacle at flight height is at " << want[size_t(z)] << ":" << tr);
  }
  for (int e = 1; e < GRID_LENGTH_E; ++e) for (int z = 0; z < GRID_LENGTH_Z; ++z) CHECK(out.get_dist(e, z) == 0.f, "row " << e << " is not empty");
  pbt::nontrivial(two && high);
}

// ------------------------------------------------------------------ P12
namespace {
struct Scene {
  Eigen::Vector3f goal, pos, vel, line;
  costParameters cp;
  float margin, maxr, minr;
};
Scene scene(pbt::Src& s) {
  Scene k;
  k.pos = pos3(s, 30);
  double gd = s.b(1, 4) ? s.d(0.2, 4.9) : s.d(5.1, 80);
  k.goal = at(k.pos, s.b(1, 4) ? s.sd(85) : s.sd(30), s.sd(180), gd);
  k.vel = s.b(1, 4) ? Eigen::Vector3f(0, 0, 0) : pos3(s, 5);
  k.line = s.b() ? k.goal : at(k.pos, s.sd(40), s.sd(180), s.d(0.3, 30));
  k.cp.yaw_cost_param = s.f(0.f, 20.f);
  k.cp.pitch_cost_param = s.f(0.f, 30.f);
  k.cp.velocity_cost_param = s.b() ? s.f(0.f, 10.f) : s.f(0.f, 9000.f);
  k.cp.obstacle_cost_param = s.f(0.f, 15.f);
  k.margin = s.b(1, 5) ? float(s.i(0, 3) * ALPHA_RES) : s.f(0.f, 60.f);
  k.maxr = s.f(5.f, 20.f);
  k.minr = s.f(0.f, 1.f);
  return k;
}
std::string str(const Scene& k) {
  return "vehicle " + sv(k.pos) + " velocity " + sv(k.vel) + " goal " + sv(k.goal) + " line point " + sv(k.line) + " weights yaw " + pbt::str(k.cp.yaw_cost_param) + " pitch " +
         pbt::str(k.cp.pitch_cost_param) + " velocity " + pbt::str(k.cp.velocity_cost_param) + " obstacle " + pbt::str(k.cp.obstacle_cost_param) + " margin " + pbt::str(k.margin) + " range " + pbt::str(k.minr) + ".." + pbt::str(k.maxr);
}
// obstacle part and remaining part of the cost of one direction
std::pair<double, double> refCost(const Scene& k, double e, double z, double obst, bool facing) {
  V3 g = k.goal.cast<double>() - k.pos.cast<double>(), l = k.line.cast<double>() - k.pos.cast<double>(), v = k.vel.cast<double>();
  double a = wrap180(z - azim(g)), b = wrap180(z - azim(l)), dp = e - elev(g), w = facing ? 0 : 0.5;
  double vel = k.cp.velocity_cost_param * (v.norm() - dirHist(e, z).dot(v));
  double yaw = k.cp.yaw_cost_param * ((1 - w) * a * a + w * b * b);
  double pitch = k.cp.pitch_cost_param * dp * dp;
  if (g.norm() < 5) pitch /= (g.norm() / 5) * (g.norm() / 5);
  double d = k.cp.obstacle_cost_param - obst;
  return {obst > 0 ? 5000 * (1 + d / std::sqrt(1 + d * d)) : 0.0, vel + yaw + pitch};
}
// one-dimensional smoothing weights: a cone of the given radius
std::vector<double> cone(int r) { std::vector<double> k; for (int i = -r; i <= r; ++i) k.push_back((1.0 + r - std::abs(i)) / (1.0 + r)); return k; }
// reading beyond a pole continues on the other side of it
double wrapped(const Eigen::MatrixXd& m, int e, int z) {
  int E = int(m.rows()), Z = int(m.cols());
  if (e < 0) { e = -1 - e; z += Z / 2; }
  if (e >= E) { e = 2 * E - 1 - e; z += Z / 2; }
  return m(e, ((z % Z) + Z) % Z);
}
Eigen::MatrixXd refSmooth(const Eigen::MatrixXd& m, int r) {
  auto k = cone(r);
  Eigen::MatrixXd t(m.rows(), m.cols()), o(m.rows(), m.cols());
  for (int e = 0; e < m.rows(); ++e) for (int z = 0; z < m.cols(); ++z) { double a = 0; for (int i = -r; i <= r; ++i) a += k[size_t(i + r)] * wrapped(m, e + i, z); t(e, z) = a; }
  for (int e = 0; e < m.rows(); ++e) for (int z = 0; z < m.cols(); ++z) { double a = 0; for (int i = -r; i <= r; ++i) a += k[size_t(i + r)] * wrapped(t, e, z + i); o(e, z) = a; }
  return o;
}
}  // namespace
FACET(P12, direction_cost, 60000, 800000, "any vehicle, goal, velocity, weights and direction; non-trivial when an obstacle lies in the direction and the vehicle moves") {
  Scene k = scene(s);
  int e = s.i(0, GRID_LENGTH_E - 1), z = s.i(0, GRID_LENGTH_Z - 1);
  double ce = -90 + ALPHA_RES * (e + 0.5), cz = -180 + ALPHA_RES * (z + 0.5);
  float obst = s.b(1, 4) ? 0.f : s.f(0.1f, 20.f);
  bool facing = s.b();
  NOTE(str(k) << " direction e=" << ce << " z=" << cz << " obstacle " << obst << " facing " << facing);
  PolarPoint p{float(ce), float(cz), 1.f};
  auto g = costFunction(p, obst, k.goal, k.pos, k.vel, k.cp, k.line, facing);
  auto w = refCost(k, ce, cz, obst, facing);
  V3 gd = k.goal.cast<double>() - k.pos.cast<double>(), ld = k.line.cast<double>() - k.pos.cast<double>();
  pbt::nontrivial(obst > 0 && k.vel.norm() > 0.1);
  CHECK(std::fabs(g.first - w.first) <= 1e-3 * (1 + w.first) + 0.5, "obstacle cost " << g.first << ", expected " << w.first);
  if (circ(cz, azim(gd)) > 179.9 || circ(cz, azim(ld)) > 179.9) return;
  double scale = 1 + 1.0 / std::min(1.0, gd.head<2>().norm()) + 1.0 / std::min(1.0, ld.head<2>().norm());
  CHECK(std::fabs(g.second - w.second) <= 2e-3 * scale * (1 + std::fabs(w.second)), "heading, height and velocity cost " << g.second << ", expected " << w.second);
  CHECK(g.first >= 0 && g.second >= -1e-2 * (1 + k.cp.velocity_cost_param * k.vel.norm() * 1e-3), "negative cost " << g.first << " + " << g.second);
  // a nearer obstacle never costs less
  if (obst > 0) {
    float nearer = obst * s.f(0.05f, 1.f);
    CHECK(costFunction(p, nearer, k.goal, k.pos, k.vel, k.cp, k.line, facing).first >= g.first - 1e-2f, "an obstacle at " << nearer << " costs less than one at " << obst);
  }
}
FACET(P12, smoothing, 4000, 60000, "random matrices of the histogram's size with radius 0-15; non-trivial when the radius is positive and a value near a pole or the seam is set") {
  int r = s.i(0, 15);
  Eigen::MatrixXd m = Eigen::MatrixXd::Zero(GRID_LENGTH_E, GRID_LENGTH_Z);
  int n = s.i(1, 20);
  for (int k = 0; k < n; ++k) {
    int e = s.b() ? s.i(0, GRID_LENGTH_E - 1) : (s.b() ? s.i(0, 2) : GRID_LENGTH_E - 1 - s.i(0, 2)), z = s.i(0, GRID_LENGTH_Z - 1);
    if (s.b(1, 3)) z = s.b() ? s.i(0, 2) : GRID_LENGTH_Z - 1 - s.i(0, 2);
    m(e, z) = s.d(0, 10000);
    if (r > 0 && (e < r || e >= GRID_LENGTH_E - r || z < r || z >= GRID_LENGTH_Z - r)) pbt::nontrivial();
  }
  NOTE("radius " << r << ", " << n << " values");
  Eigen::MatrixXf g = m.cast<float>();
  smoothPolarMatrix(g, unsigned(r));
  CHECK(g.rows() == m.rows() && g.cols() == m.cols(), "size changed");
  Eigen::MatrixXd w = refSmooth(m, r);
  double tol = 1e-4 * (1 + w.maxCoeff());
  for (int e = 0; e < m.rows(); ++e) for (int z = 0; z < m.cols(); ++z) CHECK(std::fabs(g(e, z) - w(e, z)) <= tol, "radius " << r << " cell " << e << "," << z << " is " << g(e, z) << ", expected " << w(e, z));
  Eigen::MatrixXf pad;
  Eigen::MatrixXf f = m.cast<float>();
  padPolarMatrix(f, unsigned(r), pad);
  CHECK(pad.rows() == m.rows() + 2 * r && pad.cols() == m.cols() + 2 * r, "padded size " << pad.rows() << "x" << pad.cols());
  for (int e = 0; e < pad.rows(); ++e) for (int z = 0; z < pad.cols(); ++z) CHECK(pad(e, z) == float(wrapped(m, e - r, z - r)), "padding " << r << " at " << e - r << "," << z - r);
}
FACET(P12, cost_matrix, 1500, 25000, "any vehicle, goal, weights and margin with 0-12 obstacles, biased to the goal's direction; non-trivial when an obstacle faces the goal, or the goal is near a pole or the seam") {
  Scene k = scene(s);
  V3 g = k.goal.cast<double>() - k.pos.cast<double>(), l = k.line.cast<double>() - k.pos.cast<double>();
  Histogram h(ALPHA_RES);
  Cell gc = cellOf(g, ALPHA_RES);
  if (gc.margin < 0.02 || g.head<2>().norm() < 0.05 || l.head<2>().norm() < 0.05) pbt::discard();
  int n = s.i(0, 12);
  std::string tr;
  for (int q = 0; q < n; ++q) {
    int e, z;
    if (s.b()) { e = std::min(GRID_LENGTH_E - 1, std::max(0, gc.e + s.si(4))); z = (gc.z + s.si(8) + GRID_LENGTH_Z) % GRID_LENGTH_Z; }
    else { e = s.i(0, GRID_LENGTH_E - 1); z = s.i(0, GRID_LENGTH_Z - 1); }
    float d = s.b(1, 5) ? (s.b() ? k.minr * 0.9f : k.maxr * 1.1f) : s.f(k.minr * 1.05f + 0.05f, k.maxr * 0.97f);
    h.set_dist(e, z, d);
    tr += " (" + pbt::str(e) + "," + pbt::str(z) + "):" + pbt::str(d);
  }
  // is anything within two rows and five columns around the goal's direction (past a pole on its other side)?
  bool facing = false;
  for (int j = -2; j <= 2; ++j)
    for (int i = -5; i <= 5; ++i) {
      int e = gc.e + j, z = gc.z + i;
      if (e < 0) { e = -1 - e; z += GRID_LENGTH_Z / 2; }
      if (e >= GRID_LENGTH_E) { e = 2 * GRID_LENGTH_E - 1 - e; z += GRID_LENGTH_Z / 2; }
      float d = h.get_dist(e, ((z % GRID_LENGTH_Z) + GRID_LENGTH_Z) % GRID_LENGTH_Z);
      facing = facing || (d > k.minr && d < k.maxr);
    }
  Eigen::MatrixXd D(GRID_LENGTH_E, GRID_LENGTH_Z), C(GRID_LENGTH_E, GRID_LENGTH_Z);
  bool unsure = false;
  for (int e = 0; e < GRID_LENGTH_E; ++e) {
    double ce = -90 + ALPHA_RES * (e + 0.5);
    int step = int(std::lround(1 / std::cos(ce * D2R)));
    std::vector<int> at;
    for (int z = 0; z < GRID_LENGTH_Z; z += step) {
      double cz = -180 + ALPHA_RES * (z + 0.5);
      if (circ(cz, azim(g)) > 179.8 || circ(cz, azim(l)) > 179.8) unsure = true;
      auto c = refCost(k, ce, cz, h.get_dist(e, z), facing);
      D(e, z) = c.first; C(e, z) = c.second;
      at.push_back(z);
    }
    for (size_t q = 0; q < at.size(); ++q) {
      int a = at[q], b = q + 1 < at.size() ? at[q + 1] : GRID_LENGTH_Z, bi = b % GRID_LENGTH_Z;
      for (int z = a + 1; z < b; ++z) {
        double t = double(z - a) / (b - a);
        D(e, z) = D(e, a) * (1 - t) + D(e, bi) * t;
        C(e, z) = C(e, a) * (1 - t) + C(e, bi) * t;
      }
    }
  }
  if (unsure) pbt::discard();
  int r = int(std::ceil(double(k.margin) / ALPHA_RES - 1e-9));
  if (std::fabs(k.margin / ALPHA_RES - std::round(k.margin / ALPHA_RES)) < 1e-4 && std::fabs(k.margin / ALPHA_RES - std::round(k.margin / ALPHA_RES)) > 0) pbt::discard();
  Eigen::MatrixXd S = refSmooth(D, r);
  NOTE(str(k) << " cells (e,z):distance" << tr);
  pbt::nontrivial(facing || gc.e < 2 || gc.e >= GRID_LENGTH_E - 2 || gc.z < 5 || gc.z >= GRID_LENGTH_Z - 5);
  Eigen::MatrixXf m;
  std::vector<uint8_t> img;
  getCostMatrix(h, k.goal, k.pos, k.vel, k.cp, k.margin, k.line, k.maxr, k.minr, m, img);
  CHECK(m.rows() == GRID_LENGTH_E && m.cols() == GRID_LENGTH_Z, "size " << m.rows() << "x" << m.cols());
  double tol = 1e-4 * S.maxCoeff(), scale = 2e-3 * (1 + 1 / std::min(1.0, g.head<2>().norm()) + 1 / std::min(1.0, l.head<2>().norm()));
  double mx = std::max(S.maxCoeff(), C.maxCoeff());
  for (int e = 0; e < GRID_LENGTH_E; ++e)
    for (int z = 0; z < GRID_LENGTH_Z; ++z) {
      double w = S(e, z) + C(e, z);
      CHECK(std::fabs(m(e, z) - w) <= tol + scale * (1 + C(e, z)), "cost of cell " << e << "," << z << " is " << m(e, z) << ", expected " << S(e, z) << " + " << C(e, z) << (facing ? " (obstacle towards the goal)" : "") << ":" << tr);
    }
  CHECK(img.size() == size_t(3 * GRID_LENGTH_E * GRID_LENGTH_Z), "image has " << img.size() << " bytes");
  if (mx > 1)
    for (int e = 0; e < GRID_LENGTH_E; ++e)
      for (int z = 0; z < GRID_LENGTH_Z; ++z) {
        int i = ((GRID_LENGTH_E - e - 1) * GRID_LENGTH_Z + z) * 3;
        CHECK(colorImageIndex(e, z, 1) == i + 1, "image index");
        CHECK(std::fabs(img[size_t(i)] - 255 * S(e, z) / mx) <= 2 + 255 * (tol + scale * mx) / mx && std::fabs(img[size_t(i) + 1] - 255 * C(e, z) / mx) <= 2 + 255 * (tol + scale * mx) / mx && img[size_t(i) + 2] == 0,
              "pixel of cell " << e << "," << z << " is " << int(img[size_t(i)]) << "," << int(img[size_t(i) + 1]) << ", expected " << 255 * S(e, z) / mx << "," << 255 * C(e, z) / mx);
      }
}
FACET(P12, candidates, 15000, 200000, "random cost matrices with ties, 0-100 candidates wanted; non-trivial when more than one is wanted") {
  int n = s.b(1, 12) ? 0 : s.i(1, s.b(1, 4) ? 100 : 12), rows = s.i(1, GRID_LENGTH_E), cols = s.i(1, 20);
  Eigen::MatrixXf m(rows, cols);
  std::vector<float> all;
  bool ties = s.b(1, 3);
  uint64_t seed = s.raw(1ull << 40);
  for (int e = 0; e < rows; ++e) for (int z = 0; z < cols; ++z) { seed = seed * 6364136223846793005ull + 1442695040888963407ull; float v = float((seed >> 33) % (ties ? 20 : 100000)) * 0.37f; m(e, z) = v; all.push_back(v); }
  std::sort(all.begin(), all.end());
  NOTE(n << " candidates of a " << rows << "x" << cols << " matrix");
  pbt::nontrivial(n > 1);
  std::vector<candidateDirection> c(1, candidateDirection(-1.f, 0.f, 0.f));
  getBestCandidatesFromCostMatrix(m, unsigned(n), c);
  CHECK(c.size() == std::min(size_t(n), all.size()), c.size() << " candidates, " << n << " wanted of " << all.size());
  std::set<std::pair<int, int>> used;
  for (size_t k = 0; k < c.size(); ++k) {
    CHECK(c[k].cost == all[k], "candidate " << k << " costs " << c[k].cost << ", the " << k << "-th smallest cost is " << all[k]);
    int e = int(std::floor((c[k].elevation_angle + 90) / ALPHA_RES)), z = int(std::floor((c[k].azimuth_angle + 180) / ALPHA_RES));
    CHECK(e >= 0 && e < rows && z >= 0 && z < cols && m(e, z) == c[k].cost, "candidate " << k << " points to e=" << c[k].elevation_angle << " z=" << c[k].azimuth_angle);
    CHECK(used.insert({e, z}).second, "the same direction is offered twice");
  }
}

// ------------------------------------------------------------------ P13
FACET(P13, tree, 1200, 15000, "any cloud around the vehicle, goal, weights and tree parameters; non-trivial when at least five nodes are expanded and an obstacle is within range") {
  Scene k = scene(s);
  StarPlanner sp;
  LocalPlannerNodeConfig c = LocalPlannerNodeConfig::__getDefault__();
  c.children_per_node_ = s.b(1, 20) ? 0 : s.i(1, s.b(1, 5) ? 40 : 8);
  c.n_expanded_nodes_ = s.b(1, 20) ? 0 : s.i(1, 14);
  c.tree_node_distance_ = s.b(1, 10) ? s.d(0, 0.3) : s.d(0.3, 4);
  c.max_sensor_range_ = s.b(1, 5) ? s.d(0.5, 3) : s.d(4, 20);
  c.min_sensor_range_ = k.minr;
  c.smoothing_margin_degrees_ = k.margin;
  c.tree_heuristic_weight_ = s.d(0, 50);
  sp.dynamicReconfigureSetStarParams(c, 0);
  costParameters cp = k.cp;
  sp.setParams(cp);
  sp.setPose(k.pos, k.vel);
  sp.setGoal(k.goal);
  sp.setClosestPointOnLine(k.line);
  ICloud cl;
  for (int q = s.i(0, 12); q > 0; --q) {
    double z = s.sd(180), r = s.d(0.5, c.max_sensor_range_);
    for (int w = s.i(0, 5); w >= 0; --w) cl.push_back(toXYZI(at(k.pos, s.sd(30), z + s.sd(15), r), 0.f));
  }
  sp.setPointcloud(cl);
  int rounds = s.i(1, 2);
  for (int q = 0; q < rounds; ++q) sp.buildLookAheadTree();
  NOTE(str(k) << " children " << c.children_per_node_ << " expanded " << c.n_expanded_nodes_ << " node distance " << c.tree_node_distance_ << " range " << c.max_sensor_range_ << " points " << cl.size() << " -> " << sp.tree_.size() << " nodes");
  auto& T = sp.tree_;
  auto& done = sp.closed_set_;
  float step = float(c.tree_node_distance_);
  CHECK(!T.empty() && (T[0].getPosition() - k.pos).norm() < 1e-6 && T[0].depth_ == 0, "the tree does not start at the vehicle");
  CHECK(int(done.size()) <= c.n_expanded_nodes_, done.size() << " nodes expanded, at most " << c.n_expanded_nodes_ << " allowed");
  pbt::nontrivial(done.size() >= 5 && !cl.empty());
  std::vector<std::vector<int>> kids(T.size());
  for (size_t i = 1; i < T.size(); ++i) {
    int o = T[i].origin_;
    CHECK(o >= 0 && size_t(o) < i, "node " << i << " has parent " << o);
    kids[size_t(o)].push_back(int(i));
    CHECK(std::fabs((T[i].getPosition() - T[size_t(o)].getPosition()).norm() - step) <= 1e-3 * (1 + step), "node " << i << " is " << (T[i].getPosition() - T[size_t(o)].getPosition()).norm() << " m from its parent, not " << step);
    CHECK(T[i].depth_ == T[size_t(o)].depth_ + 1, "depth of node " << i);
    for (size_t j = 0; j < i; ++j) CHECK((T[i].getPosition() - T[j].getPosition()).norm() >= 0.2 - 1e-4, "nodes " << i << " and " << j << " coincide");
  }
  for (size_t i = 0; i < T.size(); ++i) CHECK(int(kids[i].size()) <= c.children_per_node_, "node " << i << " has " << kids[i].size() << " children");
  // replay of the search: each expanded node is the cheapest open one in range, its children are its cheapest new directions
  std::vector<bool> known(T.size(), false), closed(T.size(), false);
  known[0] = true;
  size_t added = 1;
  for (size_t q = 0; q < done.size(); ++q) {
    int o = done[q];
    CHECK(o >= 0 && size_t(o) < T.size() && known[size_t(o)] && !closed[size_t(o)], "expansion " << q << " of node " << o << " which is not open");
    if (q == 0) CHECK(o == 0, "the first expanded node is " << o);
    double best = HUGE_VAL;
    for (size_t i = 0; i < T.size(); ++i)
      if (known[i] && !closed[i] && (T[i].getPosition() - k.pos).norm() < c.max_sensor_range_ - 1e-3) best = std::min(best, double(T[i].total_cost_));
    if (q > 0) {
      CHECK((T[size_t(o)].getPosition() - k.pos).norm() <= c.max_sensor_range_ + 1e-3, "expanded node " << o << " is out of range");
      CHECK(T[size_t(o)].total_cost_ <= best + 1e-3 * (1 + std::fabs(best)), "expanded node " << o << " costs " << T[size_t(o)].total_cost_ << ", an open one in range costs " << best);
    }
    closed[size_t(o)] = true;
    CHECK(T[size_t(o)].closed_, "expanded node " << o << " is not marked");
    Histogram h(ALPHA_RES);
    generateNewHistogram(h, cl, T[size_t(o)].getPosition());
    Eigen::MatrixXf m;
    std::vector<uint8_t> img;
    std::vector<candidateDirection> cand;
    getCostMatrix(h, k.goal, T[size_t(o)].getPosition(), T[size_t(o)].getVelocity(), cp, float(c.smoothing_margin_degrees_), k.line, float(c.max_sensor_range_), float(c.min_sensor_range_), m, img);
    if (c.children_per_node_ > 0) getBestCandidatesFromCostMatrix(m, unsigned(c.children_per_node_), cand);
    std::set<int> matched;
    for (auto& d : cand) {
      V3 p = T[size_t(o)].getPosition().cast<double>() + step * dirHist(d.elevation_angle, d.azimuth_angle);
      double near = HUGE_VAL;
      for (size_t i = 0; i < T.size(); ++i) if (known[i]) near = std::min(near, (T[i].getPosition().cast<double>() - p).norm());
      int hit = -1;
      for (int i : kids[size_t(o)]) if ((T[size_t(i)].getPosition().cast<double>() - p).norm() < 1e-3 * (1 + step)) hit = i;
      if (near < 0.2 - 1e-3) { CHECK(hit < 0 || known[size_t(hit)], "a child next to an existing node"); continue; }
      if (near < 0.2 + 1e-3) { if (hit >= 0) { known[size_t(hit)] = true; matched.insert(hit); ++added; } continue; }
      CHECK(hit >= 0, "the direction e=" << d.elevation_angle << " z=" << d.azimuth_angle << " of node " << o << " was not explored");
      if (matched.insert(hit).second) ++added;
      known[size_t(hit)] = true;
      double heur = (k.goal - T[size_t(hit)].getPosition()).norm() * c.tree_heuristic_weight_;
      double want = double(T[size_t(o)].total_cost_) - T[size_t(o)].heuristic_ + d.cost + heur;
      CHECK(std::fabs(T[size_t(hit)].heuristic_ - heur) <= 1e-3 * (1 + heur), "heuristic of node " << hit << " is " << T[size_t(hit)].heuristic_ << ", expected " << heur);
      CHECK(std::fabs(T[size_t(hit)].total_cost_ - want) <= 1e-3 * (1 + std::fabs(want)), "cost of node " << hit << " is " << T[size_t(hit)].total_cost_ << ", expected " << want);
    }
    CHECK(matched.size() == kids[size_t(o)].size(), "node " << o << " has children that are not among its best directions");
  }
  CHECK(added == T.size(), "the tree has " << T.size() << " nodes, " << added << " explained");
  for (size_t i = 0; i < T.size(); ++i) CHECK(T[i].closed_ == bool(closed[i]), "node " << i << " closed flag");
  // stopped early only when nothing open is in range
  if (int(done.size()) < c.n_expanded_nodes_ && !done.empty())
    for (size_t i = 0; i < T.size(); ++i)
      if (!closed[i] && std::isfinite(T[i].total_cost_)) CHECK((T[i].getPosition() - k.pos).norm() >= c.max_sensor_range_ - 1e-3, "node " << i << " could still be expanded");
  // the path: from a deepest open node back to the vehicle
  auto& P = sp.path_node_positions_;
  CHECK(!P.empty() && (P.back() - k.pos).norm() < 1e-6, "the path does not start at the vehicle");
  int deepest = 0;
  for (size_t i = 0; i < T.size(); ++i) if (!closed[i]) deepest = std::max(deepest, T[i].depth_);
  CHECK(int(P.size()) == deepest + 1, "the path has " << P.size() << " nodes, the deepest open node is at depth " << deepest);
  bool found = P.size() == 1;
  for (size_t i = 0; i < T.size() && !found; ++i) {
    if (closed[i] || T[i].depth_ != deepest) continue;
    bool ok = true;
    int a = int(i);
    for (size_t q = 0; q < P.size() && ok; ++q) { ok = (P[q] - T[size_t(a)].getPosition()).norm() < 1e-5; a = T[size_t(a)].origin_; }
    found = ok;
  }
  CHECK(found, "the path is not a branch of the tree that ends at a deepest open node");
}

// ------------------------------------------------------------------ P14
FACET(P14, setpoint, 60000, 800000, "paths of 0-8 nodes at least 5 cm apart, any speed, and ages from 0 to past the end; non-trivial when the setpoint lies on an inner segment") {
  std::vector<Eigen::Vector3f> path;
  int n = s.i(0, 8);
  Eigen::Vector3f p = pos3(s, 50);
  std::vector<Eigen::Vector3f> fwd;
  for (int k = 0; k < n; ++k) { fwd.push_back(p); p = at(p, s.sd(60), s.sd(180), s.d(0.05, 3)); }
  path.assign(fwd.rbegin(), fwd.rend());
  float v = s.b(1, 10) ? 0.f : s.f(0.05f, 8.f);
  double total = 0;
  for (int k = 1; k + 1 < n; ++k) total += (fwd[size_t(k) + 1] - fwd[size_t(k)]).cast<double>().norm();
  double age = v > 0 ? s.d(0, 1.3 * total / v + 0.2) : s.d(0, 10);
  double t0 = s.d(1, 1000);
  ros::Time gen(t0), now(t0 + age);
  double left = (now - gen).toSec() * v;
  NOTE(n << " nodes, speed " << v << " age " << age << " length " << total);
  Eigen::Vector3f sp(NAN, NAN, NAN);
  bool ok = getSetpointFromPath(path, gen, v, now, sp);
  if (n < 2) { CHECK(!ok, "a setpoint from " << n << " nodes"); return; }
  if (n == 2) { CHECK(ok && (sp - path[0]).norm() < 1e-5, "a path with one segment leads to " << sv(sp) << ", its end is " << sv(path[0])); return; }
  if (std::fabs(left - total) < 1e-3 * (1 + total)) return;
  CHECK(ok == (left < total), "travelled " << left << " of " << total << " m, valid says " << ok);
  if (!ok) return;
  // first node after the vehicle, then along the path by the distance travelled
  size_t k = 1;
  double d = left;
  while (d > (fwd[k + 1] - fwd[k]).cast<double>().norm() && k + 2 < size_t(n)) { d -= (fwd[k + 1] - fwd[k]).cast<double>().norm(); ++k; }
  V3 dir = (fwd[k + 1] - fwd[k]).cast<double>().normalized();
  V3 want = fwd[k].cast<double>() + d * dir;
  pbt::nontrivial(k > 1);
  CHECK((sp.cast<double>() - want).norm() <= 2e-3 * (1 + total), "setpoint " << sv(sp) << " after " << left << " m, expected " << sv(want) << " on segment " << k);
}

// ------------------------------------------------------------------ P15
namespace {
struct Sim { simulation_limits l; simulation_state st; V3 goal; float step, dur; };
Sim simCase(pbt::Src& s) {
  Sim c;
  c.l.max_z_velocity = s.f(0.2f, 5.f);
  c.l.min_z_velocity = -s.f(0.2f, 4.f);
  c.l.max_xy_velocity_norm = s.f(0.3f, 10.f);
  c.l.max_acceleration_norm = s.f(0.5f, 10.f);
  c.l.max_jerk_norm = s.f(1.f, 40.f);
  c.st.time = s.f(0.f, 100.f);
  c.st.position = pos3(s, 30);
  c.st.velocity = s.b(1, 4) ? Eigen::Vector3f(0, 0, 0) : pos3(s, 4);
  float lim = std::min(2 * std::sqrt(c.l.max_jerk_norm), c.l.max_acceleration_norm);
  c.st.acceleration = s.b() ? Eigen::Vector3f(0, 0, 0) : Eigen::Vector3f(at(Eigen::Vector3f::Zero(), s.sd(80), s.sd(180), s.d(0, 0.98) * lim));
  c.goal = dirHist(s.b(1, 5) ? (s.b() ? 90 : -90) : s.sd(80), s.sd(180)) * s.d(0.1, 50);
  c.step = s.b() ? 0.1f : s.f(0.02f, 0.2f);
  c.dur = s.f(0.f, 10.f);
  return c;
}
std::string str(const Sim& c) {
  return "limits z " + pbt::str(c.l.min_z_velocity) + ".." + pbt::str(c.l.max_z_velocity) + " xy " + pbt::str(c.l.max_xy_velocity_norm) + " acc " + pbt::str(c.l.max_acceleration_norm) + " jerk " + pbt::str(c.l.max_jerk_norm) +
         " start v " + sv(c.st.velocity) + " a " + sv(c.st.acceleration) + " towards " + sv(c.goal) + " step " + pbt::str(c.step) + " duration " + pbt::str(c.dur);
}
}  // namespace
FACET(P15, motion, 8000, 100000, "any limits, start state within the acceleration limit, direction, step and duration; non-trivial when the run has at least 20 steps and starts moving") {
  Sim c = simCase(s);
  NOTE(str(c));
  TrajectorySimulator sim(c.l, c.st, c.step);
  auto t = sim.generate_trajectory(c.goal.cast<float>(), c.dur);
  double q = double(c.dur) / c.step;
  CHECK(std::fabs(double(t.size()) - std::ceil(q)) < 1 || (std::fabs(q - std::round(q)) < 1e-4 && std::fabs(double(t.size()) - q) < 1.5), t.size() << " states for " << q << " steps");
  pbt::nontrivial(t.size() >= 20 && c.st.velocity.norm() > 0.1);
  simulation_state a = c.st;
  double lim = c.l.max_acceleration_norm, cap = std::min(2 * std::sqrt(double(c.l.max_jerk_norm)), lim);
  // wanted velocity: towards the goal, within the horizontal and vertical limits
  V3 u = c.goal.cast<float>().cast<double>().normalized();
  V3 want = u * std::hypot(double(c.l.max_xy_velocity_norm), double(u.z() > 0 ? c.l.max_z_velocity : c.l.min_z_velocity));
  double h = want.head<2>().norm();
  if (h > c.l.max_xy_velocity_norm) want.head<2>() *= c.l.max_xy_velocity_norm / h;
  want.z() = std::min(double(c.l.max_z_velocity), std::max(double(c.l.min_z_velocity), want.z()));
  double P = (std::sqrt(cap * cap + c.l.max_jerk_norm * want.norm()) - cap) / want.norm() * 10, D = 2 * std::sqrt(P);
  for (size_t k = 0; k < t.size(); ++k) {
    const simulation_state& b = t[k];
    V3 v0 = a.velocity.cast<double>(), a0 = a.acceleration.cast<double>(), p0 = a.position.cast<double>();
    CHECK(b.acceleration.norm() <= lim * 1.001 + 1e-4, "acceleration " << b.acceleration.norm() << " after step " << k << ", limit " << lim);
    V3 j = P * (want - v0) - D * a0;
    if (j.norm() > c.l.max_jerk_norm) j *= c.l.max_jerk_norm / j.norm();
    // the allowed continuations: full step, shortened to stay within the acceleration limit, or without jerk at the limit
    struct Opt { V3 j; double dt; };
    std::vector<Opt> opts;
    double req = (a0 + c.step * j).norm(), left = (cap - a0.norm()) / std::max(1e-12, j.norm()), te = 1e-4 * (1 + cap);
    if (req <= cap + te) opts.push_back({j, c.step});
    if (req >= cap - te) {
      if (left > -te && left < c.step + te) opts.push_back({j, std::max(0.0, left)});
      if (left < 1e-3 || left > c.step - te) opts.push_back({V3::Zero(), c.step});
    }
    std::string best;
    double err = HUGE_VAL;
    for (auto& o : opts) {
      double dt = o.dt;
      V3 w = v0 + dt * a0 + 0.5 * dt * dt * o.j, p = p0 + dt * v0 + 0.5 * dt * dt * a0 + dt * dt * dt / 6 * o.j, q = a0 + dt * o.j;
      double m = 1e-4 * (1 + v0.norm() + a0.norm()) * 5;
      double e = std::max(std::max((b.velocity.cast<double>() - w).norm() / m, (b.acceleration.cast<double>() - q).norm() / (m + 2e-4 * c.l.max_jerk_norm)),
                          std::max((b.position.cast<double>() - p).norm() / (m + 1e-5 * p.norm()), std::fabs(double(b.time) - a.time - dt) / (2e-4 + 1e-6 * b.time)));
      if (e < err) { err = e; best = "velocity " + sv(w) + " acceleration " + sv(q) + " position " + sv(p) + " after " + pbt::str(dt) + " s"; }
    }
    CHECK(err <= 1, "step " << k << " from velocity " << sv(a.velocity) << " acceleration " << sv(a.acceleration) << " ends with velocity " << sv(b.velocity) << " acceleration " << sv(b.acceleration) << " position " << sv(b.position) << " after " << double(b.time) - a.time << " s; expected " << best);
    a = b;
  }
}

// ------------------------------------------------------------------ P16, P17
namespace {
struct Plan {  // a planner with random settings, state and surroundings
  LocalPlanner lp;
  LocalPlannerNodeConfig c;
  Eigen::Vector3f pos, vel, goal, prev;
  float yaw = 0;
  std::vector<FOV> fov;
  std::string tr;
};
void setup(pbt::Src& s, Plan& p) {
  shim::setNow(500.0);
  p.c = LocalPlannerNodeConfig::__getDefault__();
  p.c.max_sensor_range_ = s.d(4, 20);
  p.c.min_sensor_range_ = s.d(0, 1);
  p.c.n_expanded_nodes_ = s.i(0, 4);
  p.c.children_per_node_ = s.i(1, 6);
  p.c.smoothing_margin_degrees_ = s.d(0, 60);
  p.c.pitch_cost_param_ = s.d(0, 30);
  p.c.yaw_cost_param_ = s.d(0, 20);
  p.c.velocity_cost_param_ = s.d(0, 9000);
  p.c.obstacle_cost_param_ = s.d(0, 15);
  p.c.goal_z_param = s.sd(20);
  p.c.tree_node_distance_ = s.d(0.5, 4);
  p.lp.dynamicReconfigureSetParams(p.c, 0);
  p.lp.setDefaultPx4Parameters();
  for (int k = s.i(1, 3); k > 0; --k) { p.fov.push_back(FOV(s.sf(180.f), s.sf(20.f), s.f(20.f, 170.f), s.f(30.f, 90.f))); p.lp.setFOV(int(p.fov.size()) - 1, p.fov.back()); }
}
void move(pbt::Src& s, Plan& p) {
  p.pos = pos3(s, 30);
  p.vel = pos3(s, 4);
  p.yaw = s.sf(180.f);
  p.lp.setState(p.pos, p.vel, Eigen::Quaternionf(Eigen::AngleAxisf(float(p.yaw * D2R), Eigen::Vector3f::UnitZ())));
}
void look(pbt::Src& s, Plan& p, int most) {
  std::vector<Cloud> in(p.fov.size());
  int n = s.i(0, most);
  for (int k = 0; k < n; ++k) {
    double e = s.b(2, 3) ? s.sd(20) : s.sd(80), z = s.sd(180), r = s.d(0.2, 22);
    in[s.raw(in.size())].push_back(toXYZ(at(p.pos, e, z, r)));
  }
  for (auto& c : in) c.header.frame_id = "local_origin";
  p.lp.original_cloud_vector_ = in;
}
}  // namespace
FACET(P16, distances, 6000, 80000, "a planner over 1-4 rounds with any obstacles, cameras, position, heading, ranges and CP_DIST (also 0, disabled or unknown); non-trivial when an obstacle is reported, a free and an unseen direction are present") {
  Plan p;
  setup(s, p);
  p.c.n_expanded_nodes_ = 0;
  p.lp.dynamicReconfigureSetParams(p.c, 0);
  int rounds = s.i(1, 4);
  for (int q = 0; q < rounds; ++q) {
    shim::advance(s.d(0.1, 1));
    move(s, p);
    look(s, p, 25);
    float cp = s.b(2, 3) ? s.f(0.1f, 10.f) : s.pick(std::vector<float>{0.f, -1.f, NAN});
    p.lp.px4_.param_cp_dist = cp;
    p.lp.setGoal(at(p.pos, 0, s.sd(180), 30));
    p.lp.runPlanner();
    sensor_msgs::LaserScan m;
    p.lp.getObstacleDistanceData(m);
    p.tr += " [vehicle " + sv(p.pos) + " yaw " + pbt::str(p.yaw) + " points " + pbt::str(p.lp.getPointcloud().size()) + " CP_DIST " + pbt::str(cp) + "]";
    NOTE("cameras " << cams(p.fov) << " range " << p.c.min_sensor_range_ << ".." << p.c.max_sensor_range_ << p.tr);
    if (cp < 0) continue;
    CHECK(m.header.stamp == ros::Time::now(), "the distances sent to the flight controller are from an earlier round:" << p.tr);
    CHECK(m.ranges.size() == size_t(GRID_LENGTH_Z) && std::fabs(m.angle_increment - ALPHA_RES * D2R) < 1e-6, m.ranges.size() << " ranges, increment " << m.angle_increment);
    CHECK(m.header.frame_id == "local_origin" && m.angle_min == 0.f, "frame " << m.header.frame_id << " first angle " << m.angle_min);
    CHECK(std::fabs(m.range_min - p.c.min_sensor_range_) < 1e-5 && std::fabs(m.range_max - p.c.max_sensor_range_) < 1e-4, "ranges " << m.range_min << ".." << m.range_max);
    // mean distance per cell of what the planner holds
    std::map<std::pair<int, int>, std::vector<double>> cells;
    std::set<int> unsure;
    for (auto& x : p.lp.getPointcloud().points) {
      V3 v = toEigen(x).cast<double>() - p.pos.cast<double>();
      Cell c = cellOf(v, ALPHA_RES);
      if (c.margin < 0.01) for (int d = -1; d <= 1; ++d) unsure.insert((c.z + d + GRID_LENGTH_Z) % GRID_LENGTH_Z);
      cells[{c.e, c.z}].push_back(v.norm());
    }
    bool obst = false, free = false, unseen = false;
    for (int i = 0; i < GRID_LENGTH_Z; ++i) {
      // the i-th range covers the i-th cell clockwise from local +y
      int col = (i + GRID_LENGTH_Z / 2) % GRID_LENGTH_Z;
      double best = 0;
      bool amb = unsure.count(col) > 0;
      for (auto& c : cells) {
        if (c.first.second != col) continue;
        double ce = -90 + ALPHA_RES * (c.first.first + 0.5), d = 0;
        if (std::fabs(ce) > 10 + ALPHA_RES / 2.0) continue;
        for (double x : c.second) d += x;
        d /= double(c.second.size());
        double dz = std::fabs(d * std::sin(ce * D2R));
        if (std::fabs(dz - 1) < 1e-3) amb = true;
        if (dz < 1 && (best == 0 || d < best)) best = d;
      }
      double az = 90.0 - (-180.0 + ALPHA_RES * (col + 0.5)) - p.yaw, el = -(-90.0 + ALPHA_RES * (GRID_LENGTH_E / 2 + 0.5));
      int see = 0;
      for (auto& f : p.fov)
        for (int sd = -1; sd <= 1; sd += 2) {
          double a = f.h_fov_deg / 2.0 - circ(az + sd * ALPHA_RES / 2.0, f.yaw_deg), b = f.v_fov_deg / 2.0 - std::fabs(el - f.pitch_deg), mm = std::min(a, b);
          if (mm > 0.1) see = 1; else if (mm > -0.1 && see == 0) see = -1;
        }
      float g = m.ranges[size_t(i)];
      if (see == 0) { CHECK(std::isnan(g), "direction " << i << " is not seen by any camera but reported as " << g << ":" << p.tr); unseen = true; continue; }
      if (see < 0) continue;
      CHECK(!std::isnan(g), "direction " << i << " is seen by a camera but reported as unknown:" << p.tr);
      if (amb || std::fabs(best - p.c.min_sensor_range_) < 1e-3) continue;
      if (best > p.c.min_sensor_range_) { CHECK(std::fabs(g - best) <= 2e-3, "direction " << i << " reports " << g << ", the nearest obstacle at flight height is at " << best << ":" << p.tr); obst = true; }
      else { CHECK(g > m.range_max && g < m.range_max + 0.1f, "direction " << i << " is free but reports " << g << ":" << p.tr); free = true; }
    }
    if (obst && free && unseen) pbt::nontrivial();
  }
}
FACET(P17, plan, 1500, 20000, "a planner over 1-5 rounds with any obstacles, goals, previous goals, cruise speed, vehicle limits and mission speed; non-trivial when a tree is built away from the line between the goals, and a round without obstacles follows or precedes") {
  Plan p;
  setup(s, p);
  CHECK(std::fabs(p.lp.getGoal().z() - p.c.goal_z_param) < 1e-5, "goal height " << p.lp.getGoal().z() << " after configuring " << p.c.goal_z_param);
  int rounds = s.i(1, 5);
  bool offLine = false, empty = false;
  ros::Time lastPath;
  std::vector<Eigen::Vector3f> lastNodes;
  for (int q = 0; q < rounds; ++q) {
    shim::advance(s.d(0.1, 1));
    move(s, p);
    look(s, p, s.b(1, 3) ? 0 : 15);
    if (q == 0 || s.b()) {
      p.goal = at(p.pos, s.sd(30), s.sd(180), s.d(0.5, 50));
      p.prev = s.b(1, 5) ? p.goal : s.b(1, 8) ? Eigen::Vector3f(NAN, NAN, NAN) : at(p.goal, s.sd(30), s.sd(180), s.d(1, 60));
      p.lp.setGoal(p.goal);
      p.lp.setPreviousGoal(p.prev);
    }
    p.lp.px4_.param_mpc_xy_cruise = s.f(0.5f, 12.f);
    p.lp.px4_.param_mpc_acc_hor = s.f(1.f, 10.f);
    p.lp.px4_.param_mpc_jerk_max = s.f(2.f, 30.f);
    p.lp.mission_item_speed_ = s.b() ? NAN : s.f(0.5f, 15.f);
    p.lp.runPlanner();
    p.tr += " [vehicle " + sv(p.pos) + " v " + sv(p.vel) + " goal " + sv(p.goal) + " previous " + sv(p.prev) + " cruise " + pbt::str(p.lp.px4_.param_mpc_xy_cruise) + " mission " + pbt::str(p.lp.mission_item_speed_) + " points " + pbt::str(p.lp.getPointcloud().size()) + "]";
    NOTE("range " << p.c.max_sensor_range_ << p.tr);
    CHECK((p.lp.getGoal() - p.goal).norm() < 1e-5 && (p.lp.getPosition() - p.pos).norm() < 1e-5, "goal or position got lost:" << p.tr);
    avoidanceOutput out = p.lp.getAvoidanceOutput();
    // speed: as wanted, but never faster than allows stopping within the sensor range (braking ramps up within acc/jerk)
    double acc = p.lp.px4_.param_mpc_acc_hor, jerk = p.lp.px4_.param_mpc_jerk_max, u = out.cruise_velocity;
    double wanted = std::isfinite(p.lp.mission_item_speed_) ? p.lp.mission_item_speed_ : p.lp.px4_.param_mpc_xy_cruise;
    auto stopping = [&](double v) { return v * v / (2 * acc) + v * acc / jerk; };
    CHECK(u <= wanted * 1.0001 + 1e-4, "speed " << u << " above the wanted " << wanted << ":" << p.tr);
    CHECK(stopping(u) <= p.c.max_sensor_range_ * 1.001 + 1e-3, "from " << u << " m/s the vehicle stops after " << stopping(u) << " m, it sees " << p.c.max_sensor_range_ << " m:" << p.tr);
    CHECK(u >= wanted * 0.9999 - 1e-4 || stopping(u) >= p.c.max_sensor_range_ * 0.999 - 1e-3, "speed " << u << " is below the wanted " << wanted << " although it could stop:" << p.tr);
    std::vector<TreeNode> T;
    std::vector<int> closed;
    std::vector<Eigen::Vector3f> nodes;
    p.lp.getTree(T, closed, nodes);
    CHECK(nodes.size() == out.path_node_positions.size(), "path length");
    for (size_t k = 0; k < nodes.size(); ++k) CHECK(nodes[k] == out.path_node_positions[k], "path node " << k);
    Histogram h(ALPHA_RES);
    generateNewHistogram(h, p.lp.getPointcloud(), p.pos);
    CHECK(p.lp.histogram_image_data_.size() == size_t(GRID_LENGTH_E * GRID_LENGTH_Z), "histogram image has " << p.lp.histogram_image_data_.size() << " bytes");
    if (p.lp.getPointcloud().size() == 0) {
      empty = true;
      CHECK(out.last_path_time == lastPath && nodes.size() == lastNodes.size(), "a path was made without obstacles:" << p.tr);
      for (uint8_t b : p.lp.histogram_image_data_) CHECK(b == 0, "histogram image not black without obstacles");
      continue;
    }
    CHECK(out.last_path_time == ros::Time::now(), "obstacles but no new path:" << p.tr);
    lastPath = out.last_path_time;
    lastNodes = nodes;
    CHECK(!nodes.empty() && (nodes.back() - p.pos).norm() < 1e-5, "the path does not start at the vehicle:" << p.tr);
    for (int e = 0; e < GRID_LENGTH_E; ++e)
      for (int z = 0; z < GRID_LENGTH_Z; ++z) {
        double d = h.get_dist(e, z), w = d > 0.01 ? std::min(255.0, std::max(0.0, 255 - 255 * d / p.c.max_sensor_range_)) : 0;
        int g = p.lp.histogram_image_data_[size_t((GRID_LENGTH_E - 1 - e) * GRID_LENGTH_Z + z)];
        CHECK(std::fabs(g - w) <= 1.01, "histogram image at cell " << e << "," << z << " is " << g << ", expected " << w);
      }
    // the point on the line between the goals towards which the vehicle is pulled
    V3 g = p.goal.cast<double>(), o = p.prev.cast<double>(), x = p.pos.cast<double>(), cl = g;
    Eigen::Vector2d line = (g - o).head<2>();
    if (std::fabs(line.norm() - 0.001) < 1e-4) return;
    if (line.norm() > 0.001) {  // not without a previous goal
      Eigen::Vector2d n = line.normalized();
      cl.head<2>() = o.head<2>() + n * n.dot((x - o).head<2>());
      double off = (x - cl).head<2>().norm();
      if (std::fabs(off - p.lp.px4_.param_mpc_xy_cruise) < 1e-2) return;
      if (off < p.lp.px4_.param_mpc_xy_cruise) cl = g; else offLine = true;
    }
    if (closed.empty()) continue;
    costParameters cp;
    cp.pitch_cost_param = float(p.c.pitch_cost_param_); cp.yaw_cost_param = float(p.c.yaw_cost_param_);
    cp.velocity_cost_param = float(p.c.velocity_cost_param_); cp.obstacle_cost_param = float(p.c.obstacle_cost_param_);
    Eigen::MatrixXf m;
    std::vector<uint8_t> img;
    getCostMatrix(h, p.goal, p.pos, p.vel, cp, float(p.c.smoothing_margin_degrees_), cl.cast<float>(), float(p.c.max_sensor_range_), float(p.c.min_sensor_range_), m, img);
    std::vector<candidateDirection> best;
    getBestCandidatesFromCostMatrix(m, unsigned(p.c.children_per_node_), best);
    double ref = best.back().cost, tol = 1e-3 * (1 + m.maxCoeff());
    int kids = 0;
    for (size_t i = 1; i < T.size(); ++i) {
      if (T[i].origin_ != 0) continue;
      ++kids;
      V3 d = T[i].getPosition().cast<double>() - x;
      Cell c = cellOf(d, ALPHA_RES);
      double cost = double(T[i].total_cost_) - T[i].heuristic_;
      CHECK(std::fabs(d.norm() - p.c.tree_node_distance_) < 1e-2, "first node at " << d.norm() << " m, configured " << p.c.tree_node_distance_ << ":" << p.tr);
      CHECK(std::fabs(T[i].heuristic_ - p.c.tree_heuristic_weight_ * (g - T[i].getPosition().cast<double>()).norm()) < 1e-2 * (1 + T[i].heuristic_), "heuristic of a first node:" << p.tr);
      CHECK(std::fabs(cost - m(c.e, c.z)) <= tol, "the direction " << c.e << "," << c.z << " costs " << cost << " in the plan, expected " << m(c.e, c.z) << " (pulled to " << sv(cl) << "):" << p.tr);
      CHECK(cost <= ref + tol, "the plan explores a direction of cost " << cost << ", the best ones cost up to " << ref << ":" << p.tr);
    }
    CHECK(kids > 0 && kids <= p.c.children_per_node_, kids << " first directions explored, at most " << p.c.children_per_node_ << ":" << p.tr);
    CHECK(p.lp.cost_image_data_ == img || p.lp.cost_image_data_.size() == img.size(), "cost image has " << p.lp.cost_image_data_.size() << " bytes");
    int diff = 0;
    for (size_t i = 0; i < img.size(); ++i) diff = std::max(diff, std::abs(int(img[i]) - int(p.lp.cost_image_data_[i])));
    CHECK(diff <= 3, "cost image differs by " << diff);
  }
  pbt::nontrivial(offLine && empty);
}
