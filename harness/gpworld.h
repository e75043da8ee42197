// Random octree worlds and an independent model of cells, risks and costs of the global planner.
#pragma once
#include <pbt.h>
#include <global_planner/global_planner.h>
#include <array>
#include <cmath>
#include <map>
#include <set>
#include <vector>
namespace gw {
using global_planner::Cell;
using global_planner::Node;
using global_planner::NodePtr;
typedef std::array<int, 3> I3;
inline Cell cell(const I3& i) { return Cell(std::tuple<int, int, int>(i[0], i[1], i[2])); }
inline I3 idx(const Cell& c) { return {c.xIndex(), c.yIndex(), c.zIndex()}; }
inline std::string sc(const I3& c) { return "(" + std::to_string(c[0]) + "," + std::to_string(c[1]) + "," + std::to_string(c[2]) + ")"; }
inline std::string sc(const Cell& c) { return sc(idx(c)); }
inline std::string sp(const std::vector<Cell>& p) { std::string r; for (auto& c : p) r += sc(c); return r; }
struct World {
  double res = 1.0;
  std::map<I3, float> vox;  // voxel -> log odds
  std::set<I3> occ;         // cells in which a camera saw a point
  bool empty = false;       // no map yet
  octomap::OcTree* tree() const {
    auto* t = new octomap::OcTree(res);
    for (auto& v : vox) t->setNodeValue((v.first[0] + 0.5) * res, (v.first[1] + 0.5) * res, (v.first[2] + 0.5) * res, v.second);
    return t;
  }
  void give(global_planner::GlobalPlanner& g) const { for (auto& o : occ) g.occupied_.insert(cell(o)); if (!empty) g.updateFullOctomap(tree()); }
};
const std::vector<float> kOdds = {3.5f, -2.f, 0.85f, 2.2f, -0.4f, 0.f, 1e-4f, -1e-4f, 3.5f, 3.5f};
struct Model {
  World w;
  double robot = 0.5, flow = 1, explore = 0.005, risk = 500, smooth = 10, up = 3, down = 1, maxRisk = 0.2;
  int maxAlt = 10, minAlt = 1;
  std::vector<double> prior;
  double priorAt(int z) const {  // index of the height of the upper border of the cell
    int i = z + 1; return prior[std::max(0, std::min(i, int(prior.size()) - 1))]; }
  double single(const I3& c) const {
    if (c[2] < 1 || w.empty) return 1.0;
    I3 v; for (int i = 0; i < 3; ++i) v[i] = int(std::floor((c[i] + 0.5) / w.res));
    auto it = w.vox.find(v);
    if (it == w.vox.end()) return explore * priorAt(c[2]);
    double p = 1.0 / (1.0 + std::exp(-double(it->second))), q = priorAt(c[2]);
    double post = p * q / (p * q + (1 - p) * (1 - q) + 1e-4);
    return (it->second > 0 || w.occ.count(c)) ? post : explore * post;
  }
  int radius() const { return int(std::ceil(robot / w.res)); }
  // bounds of the risk of a cell: own risk plus the flow from the cells around within the radius of the robot
  void cellRisk(const I3& c, double& lo, double& hi) const {
    auto memo = cache.find(c);
    if (memo != cache.end()) { lo = memo->second.first; hi = memo->second.second; return; }
    int r = radius();
    double own = single(c); lo = own; hi = own + flow * own;
    for (int x = -r; x <= r; ++x) for (int y = -r; y <= r; ++y) for (int z = -r; z <= r; ++z) {
      if (!x && !y && !z) continue;
      int d2 = x * x + y * y + z * z;
      bool in = d2 <= r * r;
      double yr = std::ceil(std::sqrt(double(r * r - x * x))), zr = std::ceil(std::sqrt(std::max(0.0, double(r * r - x * x - y * y))));
      bool out = std::abs(y) <= yr && std::abs(z) <= zr;
      if (!in && !out) continue;
      double k = flow * single({c[0] + x, c[1] + y, c[2] + z});
      if (in) lo += k;
      hi += k;
    }
    cache[c] = {lo, hi};
  }
  mutable std::map<I3, std::pair<double, double>> cache;
  void configure(global_planner::GlobalPlanner& g) const {
    g.setRobotRadius(robot);
    g.neighbor_risk_flow_ = flow; g.explore_penalty_ = explore; g.risk_factor_ = risk; g.smooth_factor_ = smooth; g.up_cost_ = up; g.down_cost_ = down;
    g.max_cell_risk_ = maxRisk; g.max_altitude_ = maxAlt; g.min_altitude_ = minAlt;
  }
};
inline void randomParams(pbt::Src& s, Model& m) {
  m.robot = s.b(2, 3) ? 0.5 : s.d(0.1, 2.5);
  m.flow = s.b() ? 1.0 : s.d(0, 1);
  m.explore = s.b() ? 0.005 : s.d(0, 0.01);
  m.risk = s.b() ? 500 : s.d(0, 1000);
  m.smooth = s.b() ? 10 : s.d(0, 100);
  m.up = s.b() ? 3 : s.d(0, 10);
  m.down = s.b() ? 1 : s.d(0, 10);
  m.maxRisk = s.b() ? 0.2 : s.d(0, 1);
  m.maxAlt = s.b() ? 10 : s.i(3, 15);
  m.minAlt = s.i(0, 2);
}
// walls, blocks and noise around the origin
inline void randomWorld(pbt::Src& s, World& w, int R, int H, bool coarse) {
  w.res = coarse ? 1.0 : s.pick(std::vector<double>{1.0, 1.0, 0.5, 0.25, 2.0});
  double k = 1.0 / w.res;
  auto put = [&](int x, int y, int z, float v, bool seen) {
    I3 c = {x, y, z}; if (seen) w.occ.insert(c);
    I3 q; for (int i = 0; i < 3; ++i) q[i] = int(std::floor((c[i] + 0.5) * k));
    w.vox[q] = v;
  };
  int n = s.i(0, 6);
  for (int b = 0; b < n; ++b) {
    int kind = s.w({3, 2, 3});
    float v = s.pick(kOdds); bool seen = s.b(3, 4);
    int x = s.si(R), y = s.si(R), z = s.i(0, H);
    if (kind == 0) {  // block
      int a = s.i(0, 3), c = s.i(0, 3), h = s.i(0, 4);
      for (int i = 0; i <= a; ++i) for (int j = 0; j <= c; ++j) for (int l = 0; l <= h; ++l) put(x + i, y + j, z + l, v, seen);
    } else if (kind == 1) {  // wall from the ground, with a gap
      int len = s.i(2, 2 * R), h = s.i(1, H + 2), gap = s.i(0, len); bool alongX = s.b();
      for (int i = 0; i <= len; ++i) for (int l = 0; l <= h; ++l) if (i != gap) put(alongX ? x + i - len / 2 : x, alongX ? y : y + i - len / 2, l, v, seen);
    } else {
      int m = s.i(1, 12);
      for (int i = 0; i < m; ++i) put(s.si(R), s.si(R), s.i(0, H), s.pick(kOdds), s.b());
    }
  }
}
}  // namespace gw
