// P22, P23: the landing grid and which of its cells are fit for landing
#include <geom.h>
#include <safe_landing_planner/safe_landing_planner.hpp>
using namespace avoidance;
using namespace geom;
typedef Eigen::Vector3f F3;
typedef Eigen::MatrixXd M;

namespace {
struct Setup { float size, cell; int rows; };
Setup setup(pbt::Src& s, int maxRows) {
  Setup g;
  for (;;) {
    g.size = s.b(1, 3) ? float(s.i(1, 20)) : s.f(1.f, 20.f);
    g.cell = s.b(1, 2) ? float(s.pick(std::vector<double>{0.25, 0.5, 1, 2, 0.1, 4})) : s.f(0.1f, 10.f);
    double r = double(g.size) / double(g.cell);
    g.rows = int(std::ceil(r - 1e-6));
    // a size that is a multiple of the cell up to rounding may give one row more or less
    if (std::fabs(r - std::round(r)) < 1e-5 && std::ceil(g.size / g.cell) != g.rows) g.rows = int(std::ceil(g.size / g.cell));
    if (g.rows <= maxRows) return g;
    g.cell = g.size / 8.f;
    g.rows = 8;
    return g;
  }
}
safe_landing_planner::SafeLandingPlannerNodeConfig config(const Setup& g) {
  safe_landing_planner::SafeLandingPlannerNodeConfig c = safe_landing_planner::SafeLandingPlannerNodeConfig::__getDefault__();
  c.grid_size = g.size;
  c.cell_size = g.cell;
  return c;
}
// the landable cells a grid has to show: 0, 1, or -1 when rounding decides
Eigen::MatrixXi landable(const Grid& g, const safe_landing_planner::SafeLandingPlannerNodeConfig& c, int pad) {
  int n = g.getRowColSize();
  Eigen::MatrixXf var = g.getVariance(), mean = g.getMean();
  Eigen::MatrixXi cnt = g.getCounter(), flat(n, n), r(n, n);
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
    double sd = std::sqrt(std::max(0.0, double(var(i, j))));
    bool enough = cnt(i, j) >= c.n_points_threshold - 1e-6;
    flat(i, j) = !enough ? 0 : std::fabs(sd - c.std_dev_threshold) < 1e-6 ? -1 : sd <= c.std_dev_threshold;
  }
  if (pad <= 0) return flat;
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
    int l0 = 0, l1 = 0, d0 = 0, d1 = 0;
    for (int k = -pad; k <= pad; ++k) for (int t = -pad; t <= pad; ++t) {
      int a = i + k, b = j + t;
      bool in = a >= 0 && b >= 0 && a < n && b < n;
      int f = in ? flat(a, b) : 0;
      l0 += f == 1;
      l1 += f != 0;
      double diff = std::fabs(double(mean(i, j)) - (in ? double(mean(a, b)) : 0.0)), m = diff - float(c.mean_diff_thr);
      if (diff == 0) continue;  // equal heights are never different
      d0 += m > 1e-6 * (1 + diff);
      d1 += m > -1e-6 * (1 + diff);
    }
    bool yes = l0 > c.min_n_land_cells && d1 <= c.max_n_mean_diff_cells, no = l1 <= c.min_n_land_cells || d0 > c.max_n_mean_diff_cells;
    r(i, j) = yes ? 1 : no ? 0 : -1;
  }
  return r;
}
}  // namespace

// ------------------------------------------------------------------ P22
FACET(P22, rounds, 20000, 400000, "histories of 1-8 rounds with changing grid and cell size, low-pass factor, position and clouds of up to 80 points inside, outside and on the border of the grid, some invalid; non-trivial when a cell got at least two points in a round after the first and one point was outside") {
  SafeLandingPlanner p;
  Setup g = {10.f, 1.f, 10};
  safe_landing_planner::SafeLandingPlannerNodeConfig c = config(g);
  c.alpha = 0.8;
  c.smoothing_size = 1;
  int lastSmooth = 1;
  M mean = M::Zero(10, 10), var = mean, prevMean, prevVar;
  Eigen::MatrixXi count = Eigen::MatrixXi::Zero(10, 10);  // points per cell in the previous round
  F3 pos = F3::Zero();
  std::string tr;
  bool two = false, out = false, exact = true;
  double scale = s.pick(std::vector<double>{5, 5, 500});
  int rounds = s.i(1, 8);
  for (int r = 0; r < rounds; ++r) {
    Setup old = g;
    if (r == 0 || s.b(1, 4)) {
      if (s.b(2, 3)) g = setup(s, 24);
      double sm = c.smoothing_size;
      c = config(g);
      c.alpha = s.b(1, 5) ? double(s.i(0, 1)) : s.d(0, 1);
      c.smoothing_size = s.b(2, 3) ? int(sm) : s.i(-1, 3);
      p.dynamicReconfigureSetParams(c, ~0u);
      tr += " grid " + pbt::str(g.size) + "/" + pbt::str(g.cell) + " alpha " + pbt::str(c.alpha);
    }
    bool resized = g.size != old.size || g.cell != old.cell || c.smoothing_size != lastSmooth;
    lastSmooth = c.smoothing_size;
    int n = g.rows;
    if (resized) { mean = M::Zero(n, n); var = mean; count = Eigen::MatrixXi::Zero(n, n); }
    if (s.b(1, 2)) pos = pos3(s, scale);
    p.setPose(pos, Eigen::Quaternionf::Identity());
    p.cloud_.clear();
    p.cloud_.header.seq = uint32_t(r);
    std::vector<std::vector<double>> bin(size_t(n * n));
    int lo = 0, hi = 0;
    bool unsure = false;
    std::vector<std::pair<int, int>> spots;
    for (int k = s.i(1, 4); k > 0; --k) spots.push_back({s.i(0, n - 1), s.i(0, n - 1)});
    int np = s.i(0, 80);
    double z0 = s.sd(scale == 5 ? 20 : 300), dz = s.d(0, 5);
    for (int k = 0; k < np; ++k) {
      double u, v;
      int kind = s.w({8, 2, 1, 1});
      if (kind == 0) { auto& q = s.pick(spots); u = (q.first + s.d(0.05, 0.95)) * g.cell; v = (q.second + s.d(0.05, 0.95)) * g.cell; }
      else if (kind == 1) { u = s.d(-0.5, 1.5) * g.size; v = s.d(-0.5, 1.5) * g.size; }
      else { u = s.b() ? s.i(0, n) * double(g.cell) : s.b() * double(g.size); v = s.b() ? s.d(0, 1) * g.size : s.b() ? 0.0 : double(g.size); if (s.b()) std::swap(u, v); }
      float x = float(pos.x() - g.size / 2 + u), y = float(pos.y() - g.size / 2 + v), z = float(z0 + dz * s.d(0, 1));
      if (kind == 3) { int up = s.si(2); for (; up > 0; --up) x = std::nextafter(x, 1e9f); for (; up < 0; ++up) x = std::nextafter(x, -1e9f); }
      if (s.b(1, 12)) { int w = int(s.raw(3)); (w == 0 ? x : w == 1 ? y : z) = NAN; p.cloud_.push_back(pcl::PointXYZ(x, y, z)); continue; }
      p.cloud_.push_back(pcl::PointXYZ(x, y, z));
      double a = double(x) - double(pos.x()) + g.size / 2.0, b = double(y) - double(pos.y()) + g.size / 2.0, eps = 1e-6 * (10 + std::fabs(pos.x()) + std::fabs(pos.y()));
      bool surelyIn = a > eps && b > eps && a < g.size - eps && b < g.size - eps, surelyOut = a < -eps || b < -eps || a > g.size + eps || b > g.size + eps;
      if (surelyOut) { out = true; continue; }
      ++hi;
      lo += surelyIn;
      double ia = a / g.cell, ib = b / g.cell, e = eps / g.cell + 1e-6 * n;
      if (!surelyIn || std::fabs(ia - std::round(ia)) < e || std::fabs(ib - std::round(ib)) < e) { unsure = true; continue; }
      bin[size_t(std::floor(ia)) * size_t(n) + size_t(std::floor(ib))].push_back(z);
    }
    prevMean = mean;
    prevVar = var;
    M m2 = M::Zero(n, n), v2 = m2;
    tr += " round at " + sv(pos) + " " + pbt::str(p.cloud_.size()) + " points";
    NOTE(tr);
    p.runSafeLandingPlanner();
    Grid got = p.getGrid(), before = p.getPreviousGrid();
    CHECK(got.getRowColSize() == n && got.getMean().rows() == n && got.getMean().cols() == n && got.getVariance().rows() == n && got.getCounter().rows() == n && got.land_.rows() == n && got.land_.cols() == n,
          "the grid has " << got.getRowColSize() << " rows, expected " << n << ":" << tr);
    Eigen::Vector2f mn, mx;
    got.getGridLimits(mn, mx);
    for (int d = 0; d < 2; ++d)
      CHECK(std::fabs(mn[d] - (pos[d] - g.size / 2)) < 1e-5 * (10 + std::fabs(pos[d])) && std::fabs(mx[d] - (pos[d] + g.size / 2)) < 1e-5 * (10 + std::fabs(pos[d])), "the grid reaches from " << mn.transpose() << " to " << mx.transpose() << ":" << tr);
    double half = g.size / 2.0 / g.cell, e = 1e-6 * (10 + std::fabs(pos.x()) + std::fabs(pos.y())) / g.cell + 1e-5;
    Eigen::Vector2i pi = p.getPositionIndex();
    for (int d = 0; d < 2; ++d) CHECK(pi[d] >= std::floor(half - e) && pi[d] <= std::floor(half + e), "the vehicle is in cell " << pi.transpose() << " of " << n << ":" << tr);
    int total = got.getCounter().sum();
    CHECK(total >= lo && total <= hi, total << " points counted, " << lo << " to " << hi << " are inside the grid:" << tr);
    CHECK(int(p.visualization_cloud_.size()) == total, p.visualization_cloud_.size() << " points shown, " << total << " counted:" << tr);
    if (unsure) { exact = false; break; }
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
      auto& b = bin[size_t(i * n + j)];
      double m = 0, v = 0;
      for (double z : b) m += z / b.size();
      for (double z : b) v += (z - m) * (z - m) / b.size();
      CHECK(got.getCounter()(i, j) == int(b.size()), "cell " << i << "," << j << " counts " << got.getCounter()(i, j) << " points, expected " << b.size() << ":" << tr);
      double al = !b.empty() && !count(i, j) ? 0 : c.alpha;  // an empty cell has nothing to add
      m2(i, j) = al * prevMean(i, j) + (1 - al) * m;
      v2(i, j) = al * prevVar(i, j) + (1 - al) * v;
      double tm = 1e-5 * (10 + std::fabs(z0) + dz), tv = 1e-4 * (1 + dz * dz) + 1e-5 * std::fabs(z0) * (1 + dz);
      CHECK(std::fabs(got.getMean()(i, j) - m2(i, j)) < tm, "mean height of cell " << i << "," << j << " is " << got.getMean()(i, j) << ", expected " << m2(i, j) << " (" << b.size() << " points):" << tr);
      CHECK(std::fabs(got.getVariance()(i, j) - v2(i, j)) < tv, "height variance of cell " << i << "," << j << " is " << got.getVariance()(i, j) << ", expected " << v2(i, j) << " (" << b.size() << " points):" << tr);
      CHECK(std::fabs(before.getMean()(i, j) - prevMean(i, j)) < 1e-5 * (10 + 2 * scale + 700), "mean of cell " << i << "," << j << " in the previous grid is " << before.getMean()(i, j) << ", expected " << prevMean(i, j) << ":" << tr);
      if (b.size() > 1 && r > 0) two = true;
    }
    mean = m2;
    var = v2;
    count = got.getCounter();
  }
  pbt::nontrivial(two && out && exact);
}
FACET(P22, recorded, 10000, 200000, "1-5 rounds on recorded grids of the configured or another size, with any counts, means and deviations; non-trivial when the recorded size differs from the configured one and at least three rounds ran") {
  SafeLandingPlanner p;
  p.play_rosbag_ = true;
  Setup g = setup(s, 12), rec = s.b() ? g : setup(s, 12);
  safe_landing_planner::SafeLandingPlannerNodeConfig c = config(g);
  c.alpha = s.d(0, 1);
  c.smoothing_size = s.i(-1, 2);
  c.n_points_threshold = s.i(0, 5);
  c.min_n_land_cells = s.i(0, 5);
  c.max_n_mean_diff_cells = s.i(0, 9);
  if (s.b(3, 4)) p.dynamicReconfigureSetParams(c, ~0u);
  else { c.n_points_threshold = 1; c.std_dev_threshold = 0.1; c.mean_diff_thr = 0.3; c.alpha = 0.8; c.smoothing_size = 1; c.max_n_mean_diff_cells = 2; c.min_n_land_cells = 9; }
  M mean, var;
  Eigen::MatrixXi count;
  int rows = -1, rounds = s.i(1, 5);
  bool changed = false;
  float cs = 0, gs = 0;
  std::string tr = " configured " + pbt::str(g.size) + "/" + pbt::str(g.cell);
  for (int r = 0; r < rounds; ++r) {
    if (r > 0 && s.b(1, 5)) rec = setup(s, 12);
    int n = rec.rows;
    if (gs != rec.size || cs != rec.cell) { if (rows != -1) changed = true; mean = M::Zero(n, n); var = mean; count = Eigen::MatrixXi::Zero(n, n); rows = n; gs = rec.size; cs = rec.cell; }
    F3 pos = pos3(s, 50);
    p.setPose(pos, Eigen::Quaternionf::Identity());
    auto& m = p.raw_grid_;
    m.header.seq = uint32_t(r);
    m.grid_size = rec.size;
    m.cell_size = rec.cell;
    auto dims = [&](std::vector<std_msgs::MultiArrayDimension>& d) { d.assign(2, std_msgs::MultiArrayDimension()); d[0].size = d[1].size = uint32_t(n); d[0].stride = uint32_t(n * n); d[1].stride = uint32_t(n); };
    dims(m.mean.layout.dim); dims(m.std_dev.layout.dim); dims(m.counter.layout.dim); dims(m.land.layout.dim);
    m.mean.data.clear(); m.std_dev.data.clear(); m.counter.data.clear(); m.land.data.clear();
    for (int k = 0; k < n * n; ++k) {
      m.mean.data.push_back(s.b(1, 3) ? 0.0 : s.sd(2));
      m.std_dev.data.push_back(s.b() ? 0.0 : s.d(0, 0.4));
      m.counter.data.push_back(s.i(0, 8));
      m.land.data.push_back(0);
    }
    tr += " recorded " + pbt::str(rec.size) + "/" + pbt::str(rec.cell);
    NOTE(tr);
    p.runSafeLandingPlanner();
    Grid got = p.getGrid();
    CHECK(got.getRowColSize() == n, "the grid has " << got.getRowColSize() << " rows, expected " << n << ":" << tr);
    Eigen::Vector2f mn, mx;
    got.getGridLimits(mn, mx);
    for (int d = 0; d < 2; ++d) CHECK(std::fabs(mn[d] - (pos[d] - rec.size / 2)) < 1e-3 && std::fabs(mx[d] - (pos[d] + rec.size / 2)) < 1e-3, "the grid reaches from " << mn.transpose() << " to " << mx.transpose() << ", the vehicle is at " << sv(pos) << ":" << tr);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
      size_t k = size_t(i * n + j);
      double al = m.counter.data[k] > 0 && !count(i, j) ? 0 : c.alpha;
      mean(i, j) = al * mean(i, j) + (1 - al) * m.mean.data[k];
      var(i, j) = al * var(i, j) + (1 - al) * m.std_dev.data[k] * m.std_dev.data[k];
      count(i, j) = int(m.counter.data[k]);
      CHECK(got.getCounter()(i, j) == int(m.counter.data[k]), "count of cell " << i << "," << j << ":" << tr);
      CHECK(std::fabs(got.getMean()(i, j) - mean(i, j)) < 1e-4, "mean of cell " << i << "," << j << " is " << got.getMean()(i, j) << ", expected " << mean(i, j) << ":" << tr);
      CHECK(std::fabs(got.getVariance()(i, j) - var(i, j)) < 1e-4, "variance of cell " << i << "," << j << " is " << got.getVariance()(i, j) << ", expected " << var(i, j) << ":" << tr);
    }
    bool unsure = (g.size != rec.size || g.cell != rec.cell);  // whether the smoothing set takes effect is settled by the configured grid
    Eigen::MatrixXi w = landable(got, c, c.smoothing_size);
    if (!unsure) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) CHECK(w(i, j) < 0 || got.land_(i, j) == w(i, j), "cell " << i << "," << j << " is " << (got.land_(i, j) ? "" : "not ") << "landable:" << tr);
  }
  pbt::nontrivial((changed || g.size != rec.size || g.cell != rec.cell) && rounds >= 3);
}

// ------------------------------------------------------------------ P23
FACET(P23, cells, 20000, 400000, "1-4 rounds over a scene of flat, rough, stepped and sparsely seen cells on up to 12x12 cells, with any thresholds, smoothing and low-pass factor; non-trivial when the result has landable and not landable cells and smoothing changed the decision of a cell") {
  SafeLandingPlanner p;
  Setup g;
  g.rows = s.i(1, 12);
  g.cell = float(s.pick(std::vector<double>{0.25, 0.5, 1, 2}));
  g.size = g.rows * g.cell;
  if (g.size < 1 || g.size > 20) { g.cell = 1; g.size = float(g.rows); }
  safe_landing_planner::SafeLandingPlannerNodeConfig c = config(g);
  c.alpha = s.b() ? 0.0 : s.d(0, 0.95);
  c.n_points_threshold = s.b() ? s.i(0, 4) : s.d(0, 4);
  c.std_dev_threshold = s.b(1, 6) ? 0 : s.d(0, 0.5);
  c.mean_diff_thr = s.b(1, 6) ? 0 : s.d(0, 1);
  c.smoothing_size = s.w({2, 6, 3, 1}) == 0 ? s.i(-1, 0) : s.i(1, 4);
  int win = (2 * c.smoothing_size + 1) * (2 * c.smoothing_size + 1);
  c.min_n_land_cells = s.i(0, std::min(100, std::max(1, win)));
  c.max_n_mean_diff_cells = s.b(1, 4) ? 0 : s.i(0, std::min(100, std::max(1, win)));
  p.dynamicReconfigureSetParams(c, ~0u);
  int n = g.rows;
  std::vector<int> kind(size_t(n * n)), level(size_t(n * n));
  int common = s.i(0, 3);
  double base = s.b() ? 0 : s.sd(20);
  for (auto& k : kind) k = s.b(1, 6) ? s.i(0, 3) : common;
  for (auto& l : level) l = s.b(1, 8) ? s.i(0, 3) : 0;
  std::string tr = " points>=" + pbt::str(c.n_points_threshold) + " sd<=" + pbt::str(c.std_dev_threshold) + " step<=" + pbt::str(c.mean_diff_thr) + " smoothing " + pbt::str(c.smoothing_size) + " land>" + pbt::str(c.min_n_land_cells) +
                   " different<=" + pbt::str(c.max_n_mean_diff_cells) + " alpha " + pbt::str(c.alpha) + " rows " + pbt::str(n);
  bool some = false, none = false, changed = false;
  int rounds = s.i(1, 4);
  for (int r = 0; r < rounds; ++r) {
    F3 pos = pos3(s, 20);
    p.setPose(pos, Eigen::Quaternionf::Identity());
    p.cloud_.clear();
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
      int k = kind[size_t(i * n + j)], np = k == 3 ? s.i(0, 2) : s.i(2, 4);
      for (int q = 0; q < np; ++q) {
        double z = base + 0.3 * level[size_t(i * n + j)] + (k == 0 ? 0 : k == 1 ? s.sd(0.05) : s.sd(0.8));
        p.cloud_.push_back(pcl::PointXYZ(float(pos.x() - g.size / 2 + (i + s.d(0.1, 0.9)) * g.cell), float(pos.y() - g.size / 2 + (j + s.d(0.1, 0.9)) * g.cell), float(z)));
      }
    }
    NOTE(tr << " round " << r << " " << p.cloud_.size() << " points");
    if (r > 0 && s.b(1, 3)) {  // thresholds may change between rounds
      c.std_dev_threshold = s.d(0, 0.5);
      c.mean_diff_thr = s.d(0, 1);
      c.n_points_threshold = s.i(0, 4);
      c.min_n_land_cells = s.i(0, std::min(100, std::max(1, win)));
      c.max_n_mean_diff_cells = s.i(0, std::min(100, std::max(1, win)));
      p.dynamicReconfigureSetParams(c, ~0u);
      tr += " then points>=" + pbt::str(c.n_points_threshold) + " sd<=" + pbt::str(c.std_dev_threshold) + " step<=" + pbt::str(c.mean_diff_thr) + " land>" + pbt::str(c.min_n_land_cells) + " different<=" + pbt::str(c.max_n_mean_diff_cells);
    }
    p.runSafeLandingPlanner();
    Grid got = p.getGrid();
    CHECK(got.land_.rows() == n && got.land_.cols() == n, "size of the result:" << tr);
    Eigen::MatrixXi w = landable(got, c, c.smoothing_size), flat = landable(got, c, 0);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
      int l = got.land_(i, j);
      CHECK(l == 0 || l == 1, "cell " << i << "," << j << " is " << l << ":" << tr);
      CHECK(w(i, j) < 0 || l == w(i, j), "cell " << i << "," << j << " is " << (l ? "" : "not ") << "landable in round " << r << "; it has " << got.getCounter()(i, j) << " points, deviation " << std::sqrt(got.getVariance()(i, j)) << ", mean " << got.getMean()(i, j) << ":" << tr);
      (l ? some : none) = true;
      if (l != flat(i, j) && flat(i, j) >= 0) changed = true;
    }
  }
  pbt::nontrivial(some && none && changed);
}
