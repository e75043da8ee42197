// P27-P30: cells, risks, search and path processing of the global planner
#include <gpworld.h>
#include <queue>
#include <unordered_set>
using namespace global_planner;
using namespace gw;

namespace {
I3 rcell(pbt::Src& s, int R, int zlo, int zhi) { I3 c; c[0] = s.si(R); c[1] = s.si(R); c[2] = s.i(zlo, zhi); return c; }
double center(int i) { return i + 0.5; }
double euclid(const I3& a, const I3& b) { return std::sqrt(double((a[0] - b[0]) * (a[0] - b[0]) + (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2]))); }
// length of the part of the segment between the centres of a and b inside the box of c grown by (gx, gy, gz), as a fraction of the segment; -1 if it misses the box
double inside(const I3& a, const I3& b, const I3& c, double gx, double gy, double gz) {
  double lo = 0, hi = 1, g[3] = {gx, gy, gz};
  for (int i = 0; i < 3; ++i) {
    double p = center(a[i]), d = b[i] - a[i], l = c[i] - g[i], h = c[i] + 1 + g[i];
    if (d == 0) { if (p < l || p > h) return -1; continue; }
    double t0 = (l - p) / d, t1 = (h - p) / d; if (t0 > t1) std::swap(t0, t1);
    lo = std::max(lo, t0); hi = std::min(hi, t1);
  }
  return hi < lo ? -1 : hi - lo;
}
double turns(const I3& p, const I3& q, bool& vertical) {  // number of 45 degree turns between two horizontal directions
  vertical = (p[0] == 0 && p[1] == 0) || (q[0] == 0 && q[1] == 0);
  if (vertical) return 0;
  double c = (double(p[0]) * q[0] + double(p[1]) * q[1]) / (std::hypot(p[0], p[1]) * std::hypot(q[0], q[1]));
  double a = std::atan2(std::fabs(double(p[0]) * q[1] - double(p[1]) * q[0]), double(p[0]) * q[0] + double(p[1]) * q[1]); (void)c;
  return a / (M_PI / 4);
}
I3 sub(const I3& a, const I3& b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
double rotation(const I3& u, const I3& pu, const I3& v, const I3& pv) {
  I3 a = sub(u, pu), b = sub(v, pv);
  bool vert; double t = turns(a, b, vert);
  return t + (((a[2] == 0) != (b[2] == 0)) ? 0.5 : 0.0);
}
}  // namespace

// ------------------------------------------------------------------ P27
FACET(P27, cells, 20000, 200000, "points and pairs of cells up to 1e4 m around the origin; non-trivial when a coordinate is negative") {
  double m = s.pick(std::vector<double>{3, 30, 1e4});
  double p[3], q[3];
  for (int i = 0; i < 3; ++i) { p[i] = s.b(1, 4) ? s.si(int(m)) : s.sd(m); q[i] = s.b(1, 4) ? p[i] : s.sd(m); }
  pbt::nontrivial(p[0] < 0 || p[1] < 0 || p[2] < 0);
  NOTE("points " << p[0] << "," << p[1] << "," << p[2] << " and " << q[0] << "," << q[1] << "," << q[2]);
  Cell c(p[0], p[1], p[2]), e(q[0], q[1], q[2]);
  I3 ci = idx(c), ei = idx(e);
  double pos[3] = {c.xPos(), c.yPos(), c.zPos()};
  for (int i = 0; i < 3; ++i) {
    CHECK(ci[i] <= p[i] && p[i] < ci[i] + 1, "point " << p[i] << " lies not in cell " << ci[i]);
    CHECK(pos[i] == ci[i] + 0.5, "centre " << pos[i] << " of cell " << ci[i]);
  }
  geometry_msgs::Point pt; pt.x = p[0]; pt.y = p[1]; pt.z = p[2];
  CHECK(Cell(pt) == c, "cell of a point message");
  CHECK(Cell(p[0], p[1]) == Cell(p[0], p[1], 0.0), "cell at the ground");
  geometry_msgs::Point tp = c.toPoint();
  CHECK(tp.x == pos[0] && tp.y == pos[1] && tp.z == pos[2] && Cell(tp) == c, "centre point of " << sc(c));
  double dx = std::abs(ci[0] - ei[0]), dy = std::abs(ci[1] - ei[1]), dz = std::abs(ci[2] - ei[2]);
  double tol = 1e-9 * (1 + m);
  CHECK(pbt::near(c.distance2D(e), std::hypot(dx, dy), tol) && pbt::near(e.distance2D(c), std::hypot(dx, dy), tol), "horizontal distance " << c.distance2D(e));
  CHECK(pbt::near(c.distance3D(e), std::sqrt(dx * dx + dy * dy + dz * dz), tol), "distance " << c.distance3D(e));
  double oct = std::max(dx, dy) - std::min(dx, dy) + std::sqrt(2.0) * std::min(dx, dy);
  CHECK(pbt::near(c.diagDistance2D(e), oct, 1e-9 * m + 1e-9), "grid distance " << c.diagDistance2D(e) << " expected " << oct);
  CHECK(pbt::near(c.diagDistance3D(e), oct + dz, 1e-9 * m + 1e-9), "grid distance with height " << c.diagDistance3D(e));
  double man = std::fabs(pos[0] - q[0]) + std::fabs(pos[1] - q[1]) + std::fabs(pos[2] - q[2]);
  CHECK(pbt::near(c.manhattanDist(q[0], q[1], q[2]), man, tol), "distance along the axes " << c.manhattanDist(q[0], q[1], q[2]));
  CHECK((c == e) == (ci == ei) && (c != e) == (ci != ei), "equality of " << sc(c) << " and " << sc(e));
  CHECK(!(c < e && e < c) && ((c < e) || (e < c) || (c == e)), "order of " << sc(c) << " and " << sc(e));
  CHECK(idx(c + e) == (I3{ci[0] + ei[0], ci[1] + ei[1], ci[2] + ei[2]}) && idx(c - e) == sub(ci, ei), "sum and difference of " << sc(c) << " and " << sc(e));
  if (ci[0] || ci[1]) CHECK(pbt::near(c.angle(), std::atan2(double(ci[1]), double(ci[0])), 1e-9), "angle of " << sc(c) << " is " << c.angle());
  double r = s.d(0, 20);
  GoalCell g(c, r);
  geometry_msgs::Point qp; qp.x = q[0]; qp.y = q[1]; qp.z = q[2];
  if (std::fabs(man - r) > 1e-9 * (1 + m)) CHECK(g.withinPositionRadius(qp) == (man < r), "position at " << man << " of a goal with radius " << r);
  double mc = dx + dy + dz;
  if (std::fabs(mc - r / 2) > 1e-9 * (1 + m)) CHECK(g.withinPlanRadius(e) == (mc < r / 2), "cell at " << mc << " of a goal with radius " << r);
}
FACET(P27, neighbours, 6000, 60000, "a cell and a radius of 0-5 cells; non-trivial when the radius is at least 2") {
  I3 c = rcell(s, 50, -3, 30);
  int r = s.i(0, 5);
  pbt::nontrivial(r >= 2);
  NOTE("cell " << sc(c) << " radius " << r);
  auto n = cell(c).getNeighbors();
  std::set<I3> ns; for (auto& x : n) ns.insert(idx(x));
  std::set<I3> want, diag;
  for (int x = -1; x <= 1; ++x) for (int y = -1; y <= 1; ++y) { if (x || y) want.insert({c[0] + x, c[1] + y, c[2]}); if (x && y) diag.insert({c[0] + x, c[1] + y, c[2]}); }
  want.insert({c[0], c[1], c[2] + 1}); want.insert({c[0], c[1], c[2] - 1});
  CHECK(ns == want && n.size() == want.size(), "neighbours of " << sc(c) << ": " << sp(n));
  std::set<I3> ds; for (auto& x : cell(c).getDiagonalNeighbors()) ds.insert(idx(x));
  CHECK(ds == diag, "diagonal neighbours of " << sc(c));
  auto f = cell(c).getFlowNeighbors(r);
  std::set<I3> fs; for (auto& x : f) fs.insert(idx(x));
  CHECK(fs.size() == f.size(), "a cell is counted twice around " << sc(c) << " with radius " << r);
  for (int x = -r - 1; x <= r + 1; ++x) for (int y = -r - 1; y <= r + 1; ++y) for (int z = -r - 1; z <= r + 1; ++z) {
    int d2 = x * x + y * y + z * z;
    if (d2 == 0 || d2 > r * r) continue;
    CHECK(fs.count({c[0] + x, c[1] + y, c[2] + z}), "cell at offset " << x << "," << y << "," << z << " is missing around " << sc(c) << " with radius " << r);
  }
  for (auto& q : fs) {
    I3 d = sub(q, c); double yr = std::ceil(std::sqrt(std::max(0.0, double(r * r - d[0] * d[0])))), zr = std::ceil(std::sqrt(std::max(0.0, double(r * r - d[0] * d[0] - d[1] * d[1]))));
    CHECK(std::abs(d[0]) <= r && std::abs(d[1]) <= yr && std::abs(d[2]) <= zr, "cell at offset " << sc(d) << " counts as near " << sc(c) << " with radius " << r);
  }
}
FACET(P27, edges, 12000, 120000, "edges between cells up to 8 cells apart in any direction; non-trivial when the edge is neither along an axis nor a diagonal") {
  I3 p = rcell(s, 20, -2, 20), c = {p[0] + s.si(8), p[1] + s.si(8), p[2] + (s.b() ? 0 : s.si(6))};
  I3 d = sub(c, p);
  if (c == p) { Node same(cell(c), cell(p)); CHECK(same.getLength() == 0, "length"); pbt::nontrivial(false); return; }
  std::set<int> mags; for (int x : d) if (x) mags.insert(std::abs(x));
  pbt::nontrivial(mags.size() > 1);
  NOTE("edge " << sc(p) << " -> " << sc(c));
  Node n(cell(c), cell(p));
  CHECK(pbt::near(n.getLength(), euclid(p, c), 1e-9), "length " << n.getLength() << " of the edge " << sc(p) << sc(c));
  std::set<I3> got; for (auto& x : n.getCells()) got.insert(idx(x));
  CHECK(got.count(c), "the cells of the edge " << sc(p) << sc(c) << " do not contain its end");
  int big = std::max(std::abs(d[0]), std::max(std::abs(d[1]), std::abs(d[2])));
  for (auto& q : got) CHECK(inside(p, c, q, 0.1 + 1e-6, 0.1 + 1e-6, 1e-6) >= 0, "cell " << sc(q) << " is counted for the edge " << sc(p) << sc(c) << " which does not touch it");
  for (int x = std::min(p[0], c[0]); x <= std::max(p[0], c[0]); ++x) for (int y = std::min(p[1], c[1]); y <= std::max(p[1], c[1]); ++y) for (int z = std::min(p[2], c[2]); z <= std::max(p[2], c[2]); ++z) {
    I3 q = {x, y, z};
    if (q == p || got.count(q)) continue;
    double f = inside(p, c, q, 0, 0, 0);
    // every crossed cell counts on level-dominated edges which bend in one plane only; otherwise cells crossed between two samples may be left out
    int minor = 0; for (int i = 0; i < 3; ++i) if (d[i] && std::abs(d[i]) < big) ++minor; 
    bool levelLed = std::max(std::abs(d[0]), std::abs(d[1])) == big;
    bool strict = levelLed && std::abs(d[2]) < big && minor <= 1;
    CHECK(f * big <= (strict ? 1e-5 : 0.5 + 1e-6), "the edge " << sc(p) << sc(c) << " passes through " << sc(q) << " over " << f * big << " cells but the cell is not counted");
  }
}
FACET(P27, nodes, 12000, 120000, "pairs of edges (mostly chained) between cells up to 4 cells apart; non-trivial when both have a horizontal direction") {
  I3 a = rcell(s, 6, 0, 10), b = {a[0] + s.si(4), a[1] + s.si(4), a[2] + (s.b() ? 0 : s.si(2))};
  I3 c = {b[0] + s.si(4), b[1] + s.si(4), b[2] + (s.b() ? 0 : s.si(2))};
  bool chained = s.b(4, 5);
  I3 b2 = chained ? b : rcell(s, 6, 0, 10);
  Node u(cell(b), cell(a)), v(cell(c), cell(b2));
  bool vert; turns(sub(b, a), sub(c, b2), vert);
  pbt::nontrivial(!vert);
  NOTE("edges " << sc(a) << sc(b) << " and " << sc(b2) << sc(c));
  double want = rotation(b, a, c, b2);
  CHECK(pbt::near(u.getRotation(v), want, 1e-6), "turn from " << sc(a) << sc(b) << " to " << sc(b2) << sc(c) << " is " << u.getRotation(v) << " times 45 degrees, expected " << want);
  CHECK(pbt::near(v.getRotation(u), want, 1e-6), "turn back " << v.getRotation(u));
  bool eq = a == b2 && b == c;
  CHECK((u == v) == eq && (u != v) != (u == v), "equality of edges " << sc(a) << sc(b) << " and " << sc(b2) << sc(c));
  CHECK(!((u < v) && (v < u)) && ((u < v) || (v < u) || eq), "order of edges");
  Node same(cell(b), cell(a));
  CHECK(same == u && same.hash() == u.hash() && std::hash<Node>()(same) == std::hash<Node>()(u), "equal edges hash differently");
  auto nx = u.nextNode(cell(c));
  CHECK(idx(nx->cell_) == c && idx(nx->parent_) == b, "next edge " << nx->asString());
  std::set<I3> want10; for (auto& q : cell(b).getNeighbors()) want10.insert(idx(q));
  std::set<I3> got10; for (auto& q : u.getNeighbors()) { CHECK(idx(q->parent_) == b, "neighbour edge " << q->asString()); got10.insert(idx(q->cell_)); }
  CHECK(got10 == want10, "edges from " << sc(b) << " lead to " << got10.size() << " cells");
  NodeWithoutSmooth w(cell(b), cell(a)), w2(cell(b), cell(c));
  CHECK(w == w2 && w.hash() == w2.hash() && w.getRotation(w2) == 0, "nodes without direction");
  CHECK(!(w == NodeWithoutSmooth(cell(c), cell(a))) || b == c, "different nodes without direction");
  SpeedNode sn(cell(b), cell(a));
  double R = SPEEDNODE_RADIUS;
  I3 ex = {2 * b[0] - a[0], 2 * b[1] - a[1], 2 * b[2] - a[2]};
  std::set<I3> ws, gs; ws.insert(ex);
  for (auto& q : cell(ex).getNeighbors()) { double dd = euclid(idx(q), b); if (dd > 0 && dd < R) ws.insert(idx(q)); }
  for (auto& q : sn.getNeighbors()) { gs.insert(idx(q->cell_)); CHECK(idx(q->parent_) == b, "speed edge " << q->asString());
    CHECK(dynamic_cast<SpeedNode*>(q.get()), "type of the speed edge"); }
  CHECK(gs == ws, "edges after " << sc(a) << sc(b) << " with speed lead to " << gs.size() << " cells, expected " << ws.size());
}

// ------------------------------------------------------------------ P28
FACET(P28, cell_risk, 3000, 40000, "histories of up to 3 maps (walls, blocks, noise of any probability, resolution 0.25-2 m) with points seen before, any parameters; queries of random cells twice and in any order, and refused maps; non-trivial when an occupied cell or its surroundings is queried") {
  GlobalPlanner g; Model m; randomParams(s, m); m.prior = g.alt_prior_; m.configure(g); m.w.empty = true;
  for (size_t i = 0; i + 1 < g.alt_prior_.size(); ++i) CHECK(g.alt_prior_[i] >= g.alt_prior_[i + 1] && g.alt_prior_[i] <= 1 && g.alt_prior_[i + 1] > 0, "altitude prior");
  int rounds = s.i(1, 3); bool nt = false;
  for (int k = 0; k < rounds; ++k) {
    if (k || s.b(9, 10)) {
      if (s.b(1, 8)) { g.updateFullOctomap(nullptr); }  // an unusable map changes nothing
      else { std::set<I3> seen = m.w.occ; m.w = World(); m.w.occ = seen; randomWorld(s, m.w, 5, 5, false); m.w.give(g); m.cache.clear(); }
    }
    NOTE("map " << k << ": resolution " << m.w.res << " " << m.w.vox.size() << " voxels " << m.w.occ.size() << " seen cells, robot " << m.robot << " flow " << m.flow << " explore " << m.explore);
    int nq = s.i(1, 12);
    for (int i = 0; i < nq; ++i) {
      I3 c = rcell(s, 6, -2, 12);
      if (!m.w.occ.empty() && s.b()) { auto it = m.w.occ.begin(); std::advance(it, s.raw(m.w.occ.size())); c = *it; c[s.i(0, 2)] += s.si(1); nt = true; }
      double w1 = m.single(c), lo, hi; m.cellRisk(c, lo, hi);
      CHECK(pbt::near(g.getSingleCellRisk(cell(c)), w1, 1e-5 * (1 + w1)), "risk of cell " << sc(c) << " alone is " << g.getSingleCellRisk(cell(c)) << ", expected " << w1 << " (map " << k << ")");
      if (std::fabs(w1 - 0.5) > 1e-4) CHECK(g.isOccupied(cell(c)) == (w1 > 0.5), "cell " << sc(c) << " with risk " << w1 << " occupied: " << g.isOccupied(cell(c)));
      double r = g.getRisk(cell(c)), r2 = g.getRisk(cell(c));
      CHECK(r >= lo - 1e-5 * (1 + lo) && r <= hi + 1e-5 * (1 + hi), "risk of cell " << sc(c) << " with its surroundings is " << r << ", expected " << lo << " to " << hi << " (map " << k << ")");
      CHECK(r == r2, "risk of cell " << sc(c) << " changes from " << r << " to " << r2 << " without a new map");
      bool wall = false; bool unsure = false;
      for (int x = -1; x <= 1; x += 2) for (int y = -1; y <= 1; y += 2) { double v = m.single({c[0] + x, c[1] + y, c[2]}); wall |= v > 0.5; unsure |= std::fabs(v - 0.5) < 1e-4; }
      if (!unsure) CHECK(g.isNearWall(cell(c)) == wall, "cell " << sc(c) << " near a wall: " << g.isNearWall(cell(c)));
      double q = g.getAltPrior(cell(c));
      CHECK(q == m.priorAt(c[2]), "altitude prior of " << sc(c) << " is " << q << ", expected " << m.priorAt(c[2]));
    }
  }
  pbt::nontrivial(nt);
  if (g.octree_) delete g.octree_;
}
FACET(P28, edge_cost, 3000, 40000, "pairs of successive edges up to 5 cells long in random maps with any parameters, position and velocity; non-trivial when the second edge is risky and turns") {
  GlobalPlanner g; Model m; randomParams(s, m); m.prior = g.alt_prior_;
  randomWorld(s, m.w, 5, 5, true); m.configure(g); m.w.give(g);
  I3 cp = rcell(s, 6, 1, 9);
  g.curr_pos_.x = cp[0] + s.d(0.01, 0.99); g.curr_pos_.y = cp[1] + s.d(0.01, 0.99); g.curr_pos_.z = cp[2] + s.d(0.01, 0.99);
  g.curr_vel_.x = s.sd(2); g.curr_vel_.y = s.sd(2); g.curr_vel_.z = s.sd(1);
  bool nt = false;
  int n = s.i(1, 6);
  for (int k = 0; k < n; ++k) {
    int R = s.b(2, 3) ? 1 : 5;
    I3 a = rcell(s, 6, 1, 10), b = {a[0] + s.si(R), a[1] + s.si(R), a[2] + (s.b() ? 0 : s.si(R))}, c = {b[0] + s.si(R), b[1] + s.si(R), b[2] + (s.b() ? 0 : s.si(R))};
    if (b == c) continue;
    Node u(cell(b), cell(a)), v(cell(c), cell(b));
    double lo = 0, hi = 0; int cnt = 0;
    for (auto& q : v.getCells()) { double l, h; m.cellRisk(idx(q), l, h); lo += l; hi += h; ++cnt; }
    double L = euclid(b, c); lo *= L / cnt; hi *= L / cnt;
    double tol = 1e-5;
    double r = g.getRisk(v);
    CHECK(r >= lo - tol * (1 + lo) && r <= hi + tol * (1 + hi), "risk of the edge " << sc(b) << sc(c) << " is " << r << ", expected " << lo << " to " << hi);
    if (!(lo - 1e-4 < m.maxRisk && m.maxRisk < hi + 1e-4)) {
      bool legal = center(c[2]) < m.maxAlt && hi < m.maxRisk;
      CHECK(g.isLegal(v) == legal, "edge " << sc(b) << sc(c) << " with risk " << r << " of at most " << m.maxRisk << " up to height " << m.maxAlt << " is allowed: " << g.isLegal(v));
    }
    double dist = std::hypot(c[0] - b[0], c[1] - b[1]) + (c[2] > b[2] ? m.up * (c[2] - b[2]) : m.down * (b[2] - c[2]));
    CHECK(pbt::near(g.getEdgeDist(cell(b), cell(c)), dist, 1e-9 * (1 + dist)), "length cost of " << sc(b) << sc(c) << " is " << g.getEdgeDist(cell(b), cell(c)) << ", expected " << dist);
    double t = rotation(b, a, c, b), sm = m.smooth * t * t;
    CHECK(pbt::near(g.getTurnSmoothness(u, v), t * t, 1e-5), "turning " << g.getTurnSmoothness(u, v) << " from " << sc(a) << sc(b) << sc(c) << ", expected " << t * t);
    double vel = std::sqrt(g.curr_vel_.x * g.curr_vel_.x + g.curr_vel_.y * g.curr_vel_.y + g.curr_vel_.z * g.curr_vel_.z);
    double de = euclid(b, cp);
    if (std::fabs(vel - 1) < 1e-6) continue;
    if (de < 3 && vel > 1) sm *= 2;
    double cost = g.getEdgeCost(u, v);
    double clo = dist + m.risk * lo + sm, chi = dist + m.risk * hi + sm;
    CHECK(cost >= clo - tol * (1 + clo) && cost <= chi + tol * (1 + chi), "cost of " << sc(a) << sc(b) << sc(c) << " is " << cost << ", expected " << clo << " to " << chi << " (length " << dist << " turning " << sm << " at " << de << " from the vehicle with speed " << vel << ")");
    nt |= t > 0 && hi > 0.1;
  }
  NOTE(m.w.vox.size() << " voxels, " << n << " edges, robot " << m.robot << " flow " << m.flow << " risk factor " << m.risk);
  pbt::nontrivial(nt);
  delete g.octree_;
}
FACET(P28, heuristics, 5000, 60000, "nodes and goals anywhere (also below the ground and above the altitude prior) with any parameters; non-trivial when the goal is elsewhere horizontally") {
  GlobalPlanner g; Model m; randomParams(s, m); m.prior = g.alt_prior_; randomWorld(s, m.w, 4, 4, true); m.configure(g); if (s.b(9, 10)) m.w.give(g); 
  I3 c = rcell(s, 40, -5, 40), t = s.b(1, 6) ? c : rcell(s, 40, -5, 40), p = {c[0] + s.si(2), c[1] + s.si(2), c[2] + s.si(1)};
  g.overestimate_factor_ = s.d(1, 5); g.use_risk_heuristics_ = false; g.use_speedup_heuristics_ = false; g.vert_to_hor_cost_ = s.d(0, 10);
  Node u(cell(c), cell(p));
  pbt::nontrivial(c[0] != t[0] || c[1] != t[1]);
  NOTE("from " << sc(c) << " (parent " << sc(p) << ") to " << sc(t));
  double dx = std::abs(c[0] - t[0]), dy = std::abs(c[1] - t[1]);
  double oct = std::max(dx, dy) - std::min(dx, dy) + std::sqrt(2.0) * std::min(dx, dy);
  double alt = t[2] > c[2] ? m.up * (t[2] - c[2]) : m.down * (c[2] - t[2]);
  CHECK(pbt::near(g.altitudeHeuristic(cell(c), cell(t)), alt, 1e-9 * (1 + alt)), "height estimate " << g.altitudeHeuristic(cell(c), cell(t)) << ", expected " << alt);
  double sm = g.smoothnessHeuristic(u, cell(t));
  CHECK(std::isfinite(sm) && sm >= 0, "turning estimate " << sm);
  if (dx == 0 && dy == 0) CHECK(sm == 0, "turning estimate " << sm << " below or above the goal");
  double h = g.getHeuristic(u, cell(t)), want = g.overestimate_factor_ * oct + alt + sm;
  CHECK(pbt::near(h, want, 1e-6 * (1 + want)), "estimate " << h << " from " << sc(c) << " to " << sc(t) << ", expected " << want);
  double rh = g.riskHeuristic(cell(c), cell(t));
  CHECK(std::isfinite(rh) && rh >= -(1 + 6 * m.flow) * m.explore * m.risk - 1e-9, "risk estimate " << rh << " from " << sc(c) << " to " << sc(t));
  if (c == t) CHECK(rh == 0, "risk estimate at the goal " << rh);
  g.use_risk_heuristics_ = true;
  double h2 = g.getHeuristic(u, cell(t));
  CHECK(pbt::near(h2, want + rh, 1e-6 * (1 + std::fabs(want + rh))), "estimate with risk " << h2 << ", expected " << want + rh);
  CHECK(g.riskHeuristicReverseCache(cell(c), cell(t)) >= 0, "risk estimate from the goal");
  if (g.octree_) delete g.octree_;
}

// ------------------------------------------------------------------ P29
namespace {
struct Scene {
  GlobalPlanner g; Model m; I3 s, t, parent;
  ~Scene() { delete g.octree_; }
};
void scene(pbt::Src& s, Scene& k, int R, bool box, int between = 0) {
  randomParams(s, k.m); k.m.prior = k.g.alt_prior_;
  if (s.b(3, 4)) { k.m.robot = 0.5; k.m.maxRisk = 0.2; }
  k.m.maxAlt = s.i(4, 7);
  randomWorld(s, k.m.w, R, 5, true);
  k.s = rcell(s, R, 1, 4); k.t = rcell(s, R, 1, 4);
  if (box) {  // a closed chamber around start or goal, with or without a hole
    I3 c = s.b() ? k.s : k.t; int a = s.i(2, 3); bool hole = s.b(1, 3); I3 h = {c[0] + a, c[1], c[2]};
    for (int x = -a; x <= a; ++x) for (int y = -a; y <= a; ++y) for (int z = 0; z <= k.m.maxAlt + 1; ++z)
      if (std::abs(x) == a || std::abs(y) == a) { I3 q = {c[0] + x, c[1] + y, z}; k.m.w.vox[q] = 3.5f; k.m.w.occ.insert(q); }
    if (hole) for (int d = -1; d <= 1; ++d) for (int z = 1; z <= k.m.maxAlt; ++z) { I3 q = {h[0], h[1] + d, z}; k.m.w.vox[q] = -2.f; k.m.w.occ.erase(q); }
    for (int x = -1; x <= 1; ++x) for (int y = -1; y <= 1; ++y) for (int z = 1; z <= k.m.maxAlt + 1; ++z) { I3 q = {c[0] + x, c[1] + y, z}; k.m.w.vox[q] = -2.f; k.m.w.occ.erase(q); }
  }
  for (int i = 0; i < between; ++i) {  // something in the way
    double f = s.d(0, 1); I3 q; for (int a = 0; a < 3; ++a) q[a] = int(std::lround(k.s[a] + f * (k.t[a] - k.s[a]))) + s.si(1);
    if (q != k.s && q != k.t) { k.m.w.vox[q] = s.pick(std::vector<float>{3.5f, 2.2f, 0.85f, 0.3f, -0.4f, -2.f}); if (s.b()) k.m.w.occ.insert(q); }
  }
  k.m.configure(k.g); k.m.w.give(k.g);
  k.parent = {k.s[0] + s.si(1), k.s[1] + s.si(1), k.s[2] + s.si(1)};
  k.g.use_risk_heuristics_ = s.b(); k.g.use_speedup_heuristics_ = s.b();
  k.g.overestimate_factor_ = s.b() ? 2.0 : s.d(1, 5);
  k.g.curr_pos_ = cell(k.s).toPoint();
  k.g.curr_vel_.x = s.sd(1.5); k.g.curr_vel_.y = s.sd(1.5);
}
void checkEdges(Scene& k, const std::vector<Cell>& p, int type, const std::string& tr) {
  for (size_t i = 2; i < p.size(); ++i) {
    Node e(p[i], p[i - 1]);
    CHECK(center(idx(p[i])[2]) < k.m.maxAlt, "path cell " << sc(p[i]) << " above the highest altitude " << k.m.maxAlt << ":" << tr);
    CHECK(idx(p[i])[2] >= 1 || k.m.maxRisk > 0.9, "path cell " << sc(p[i]) << " in the ground:" << tr);
    double lo = 0; int n = 0; for (auto& q : e.getCells()) { double l, h; k.m.cellRisk(idx(q), l, h); lo += l; ++n; }
    lo *= e.getLength() / n;
    CHECK(lo < k.m.maxRisk + 1e-5, "path edge " << sc(p[i - 1]) << sc(p[i]) << " has the risk " << lo << " of at most " << k.m.maxRisk << ":" << tr);
    I3 a = idx(p[i - 1]), b = idx(p[i]), d = sub(b, a);
    if (type == 2) {
      I3 pp = idx(p[i - 2]); I3 ex = sub(b, {2 * a[0] - pp[0], 2 * a[1] - pp[1], 2 * a[2] - pp[2]});
      bool same = ex == I3{0, 0, 0};
      bool nb = (ex[2] == 0 && std::abs(ex[0]) <= 1 && std::abs(ex[1]) <= 1) || (ex[0] == 0 && ex[1] == 0 && std::abs(ex[2]) == 1);
      CHECK(same || (nb && euclid(a, b) < SPEEDNODE_RADIUS), "speed edge " << sc(a) << sc(b) << " after " << sc(pp) << ":" << tr);
    } else {
      bool nb = (d[2] == 0 && std::abs(d[0]) <= 1 && std::abs(d[1]) <= 1 && (d[0] || d[1])) || (d[0] == 0 && d[1] == 0 && std::abs(d[2]) == 1);
      CHECK(nb, "path cells " << sc(a) << " and " << sc(b) << " are not neighbours:" << tr);
    }
    if (k.m.flow == 1 && k.m.radius() >= 1 && k.m.maxRisk <= 0.2)
      for (auto& q : e.getCells()) CHECK(k.m.single(idx(q)) <= 0.5, "path edge " << sc(a) << sc(b) << " touches the occupied cell " << sc(q) << ":" << tr);
  }
}
const char* kTypes[] = {"Node", "NodeWithoutSmooth", "SpeedNode"};
}  // namespace
FACET(P29, legal_paths, 800, 15000, "searches of all node types between cells in random worlds with walls, blocks and chambers, any parameters and heuristics, up to 3000 iterations; non-trivial when a path of at least 4 edges is found in a world with obstacles") {
  Scene k; scene(s, k, 5, s.b(1, 3));
  int type = s.i(0, 2); double rad = s.b() ? 1.0 : s.d(0.1, 8);
  GoalCell t(cell(k.t), rad); k.g.goal_pos_ = t;
  int iters = s.b(3, 4) ? 3000 : s.i(0, 100);
  std::vector<Cell> p;
  auto st = k.g.getStartNode(cell(k.s), cell(k.parent), kTypes[type]);
  SearchInfo info = findSmoothPath(&k.g, p, st, t, iters, k.g.visitor_);
  std::string tr = std::string(" ") + kTypes[type] + " from " + sc(k.s) + " (parent " + sc(k.parent) + ") to " + sc(k.t) + " radius " + pbt::str(rad) + " found " + pbt::str(info.found_path) + " in " + pbt::str(info.num_iter) + " path " + sp(p);
  NOTE(tr);
  CHECK(info.num_iter <= iters, "more iterations than the allowed " << iters << ":" << tr);
  if (!info.found_path) {
    CHECK(p.empty(), "a path without success:" << tr);
    if (info.num_iter < iters && type != 2) {  // the search ended by itself: nothing more can be reached
      std::set<I3> seen; std::queue<I3> q;
      // edges differ in their first cell only for the parent of the start, which does not matter for what is allowed
      seen.insert(k.s); q.push(k.s); bool reach = t.withinPlanRadius(cell(k.s));
      while (!q.empty() && !reach && seen.size() < 20000) {
        I3 u = q.front(); q.pop();
        for (auto& n : cell(u).getNeighbors()) { I3 v = idx(n); if (seen.count(v)) continue; if (!k.g.isLegal(Node(n, cell(u)))) continue; seen.insert(v); q.push(v); if (t.withinPlanRadius(n)) reach = true; }
      }
      CHECK(!reach, "the search gave up after " << info.num_iter << " of " << iters << " iterations although the goal can be reached:" << tr);
      pbt::label("unreachable");
    } else pbt::label("limit");
    return;
  }
  CHECK(p.size() >= 2 && idx(p[0]) == k.parent && idx(p[1]) == k.s, "path does not begin at the start:" << tr);
  I3 e = idx(p.back());
  double man = std::abs(e[0] - k.t[0]) + std::abs(e[1] - k.t[1]) + std::abs(e[2] - k.t[2]);
  CHECK(man < rad / 2 + 1e-9, "path ends " << man << " away from the goal with radius " << rad << ":" << tr);
  checkEdges(k, p, type, tr);
  pbt::nontrivial(p.size() >= 6 && !k.m.w.vox.empty());
  pbt::label(std::string("found ") + kTypes[type]);
}
FACET(P29, cheap_paths, 300, 5000, "searches without direction in random worlds of limited height; compared with the cheapest path found by an own search; non-trivial when the cheapest path is not straight") {
  Scene k; scene(s, k, 4, s.b(1, 3), s.i(0, 25));
  k.g.smooth_factor_ = k.m.smooth = 0; k.g.use_risk_heuristics_ = false; k.g.use_speedup_heuristics_ = false;
  k.g.max_altitude_ = k.m.maxAlt = s.i(3, 5);
  if (s.b()) k.g.overestimate_factor_ = 1.0;
  else if (s.b()) k.g.overestimate_factor_ = s.d(1, 1.3);
  GoalCell t(cell(k.t), 1.0); k.g.goal_pos_ = t;
  double w = k.g.overestimate_factor_;
  std::vector<Cell> p;
  SearchInfo info = findSmoothPath(&k.g, p, k.g.getStartNode(cell(k.s), cell(k.parent), "NodeWithoutSmooth"), t, 4000, k.g.visitor_);
  if (!info.found_path) { pbt::label("none"); return; }
  double cost = 0;
  for (size_t i = 2; i < p.size(); ++i) cost += k.g.getEdgeCost(Node(p[i - 1], p[i - 2]), Node(p[i], p[i - 1]));
  // own uniform-cost search, ended when it is more expensive than the found path
  std::map<I3, double> dist; std::set<I3> done; std::priority_queue<std::pair<double, I3>, std::vector<std::pair<double, I3>>, std::greater<std::pair<double, I3>>> q;
  dist[k.s] = 0; q.push({0, k.s}); double best = cost;
  while (!q.empty() && done.size() < 6000) {
    auto u = q.top(); q.pop(); if (!done.insert(u.second).second) continue;
    if (u.first >= cost / w) { best = u.first; break; }  // everything cheaper has been seen
    if (u.second == k.t) { best = u.first; break; }
    for (auto& n : cell(u.second).getNeighbors()) {
      I3 v = idx(n); if (done.count(v)) continue; Node e(n, cell(u.second)); if (!k.g.isLegal(e)) continue;
      double d = u.first + k.g.getEdgeCost(Node(cell(u.second), cell(u.second)), e);
      auto it = dist.find(v); if (it == dist.end() || d < it->second) { dist[v] = d; q.push({d, v}); }
    }
  }
  std::string tr = " from " + sc(k.s) + " to " + sc(k.t) + " cost " + pbt::str(cost) + " cheapest " + pbt::str(best) + " allowed factor " + pbt::str(w) + " path " + sp(p);
  NOTE(tr);
  CHECK(cost <= w * best * (1 + 1e-9) + 1e-6, "the path is more expensive than the allowed factor:" << tr);
  I3 d = sub(k.t, k.s);
  pbt::nontrivial(int(p.size()) - 2 > std::max(std::abs(d[0]), std::abs(d[1])) + std::abs(d[2]));
}
FACET(P29, planning, 500, 6000, "complete planning rounds with moving vehicles, occupied starts and goals, chambers, iteration limits and settings; non-trivial when a path of at least 4 edges results") {
  Scene k; scene(s, k, 6, s.b(1, 3));
  GlobalPlanner& g = k.g;
  g.max_overestimate_factor_ = s.b() ? 2.0 : s.d(1, 5); g.min_overestimate_factor_ = s.b() ? 1.03 : s.d(1.0, 1.5);
  g.use_current_yaw_ = s.b(); g.goal_must_be_free_ = s.b(3, 4); g.search_time_ = s.b() ? 0.5 : s.d(0, 1);
  g.default_node_type_ = s.pick(std::vector<std::string>{"SpeedNode", "Node", "NodeWithoutSmooth"});
  g.max_iterations_ = s.w({3, 1, 1}) == 0 ? 2000 : s.i(0, 300);
  g.setFrame("world");
  if (s.b(1, 6) && !k.m.w.occ.empty()) { auto it = k.m.w.occ.begin(); std::advance(it, s.raw(k.m.w.occ.size())); if ((*it)[2] >= 1) (s.b() ? k.s : k.t) = *it; }
  geometry_msgs::PoseStamped pose; pose.pose.position.x = k.s[0] + s.d(0.01, 0.99); pose.pose.position.y = k.s[1] + s.d(0.01, 0.99); pose.pose.position.z = k.s[2] + s.d(0.01, 0.99);
  double yaw = s.sd(M_PI); pose.pose.orientation = tf::createQuaternionMsgFromYaw(yaw);
  g.setPose(pose);
  CHECK(pbt::near(std::remainder(g.curr_yaw_ - yaw, 2 * M_PI), 0, 1e-6), "yaw " << g.curr_yaw_ << " of " << yaw);
  double rad = s.b() ? 1.0 : s.d(0.5, 6);
  g.goal_is_blocked_ = s.b();
  g.setGoal(GoalCell(cell(k.t), rad));
  CHECK(!g.goal_is_blocked_ && g.goal_pos_ == cell(k.t) && g.goal_pos_.radius_ == rad, "goal set");
  int limit = g.max_iterations_;
  std::vector<Cell> before = g.curr_path_;
  if (s.b(1, 4)) { before = {cell({0, 0, 5}), cell({1, 0, 5}), cell({2, 0, 5})}; g.setPath(before); }
  bool ok = g.getGlobalPath();
  double vx = g.curr_vel_.x * g.search_time_, vy = g.curr_vel_.y * g.search_time_;
  Cell st(pose.pose.position.x + vx, pose.pose.position.y + vy, pose.pose.position.z);
  Cell par = g.use_current_yaw_ ? Cell(pose.pose.position.x - vx, pose.pose.position.y - vy, pose.pose.position.z) : st;
  std::vector<Cell> p = g.curr_path_;
  std::string tr = " at " + sc(k.s) + " start " + sc(st) + " parent " + sc(par) + " goal " + sc(k.t) + " radius " + pbt::str(rad) + " result " + pbt::str(ok) + " path " + sp(p);
  NOTE(tr);
  CHECK(g.max_iterations_ == limit, "the iteration limit changes from " << limit << " to " << g.max_iterations_ << ":" << tr);
  CHECK(g.goal_pos_ == cell(k.t), "the goal changes:" << tr);
  double lo, hi; k.m.cellRisk(k.t, lo, hi);
  double own = k.m.single(k.s);
  bool goalBad = g.goal_must_be_free_ && lo > k.m.maxRisk + 1e-5, goalMaybe = g.goal_must_be_free_ && hi > k.m.maxRisk - 1e-5;
  if (std::fabs(own - 0.5) > 1e-4) CHECK(g.current_cell_blocked_ == (own > 0.5), "own cell with risk " << own << " blocked " << g.current_cell_blocked_ << ":" << tr);
  if (goalBad) { CHECK(!ok && g.goal_is_blocked_, "the goal has the risk " << lo << " but a path is planned:" << tr); }
  if (own > 0.5001) CHECK(!ok, "path out of an occupied cell:" << tr);
  if (!ok) {
    CHECK(p == before, "the path changes without success:" << tr);
    if (!goalMaybe && own < 0.4999) CHECK(g.goal_is_blocked_, "the failed goal is not marked:" << tr);
    // no obstacles: a near goal is always found
    if (k.m.w.vox.empty() && !goalMaybe && k.m.maxRisk >= 0.05 && k.m.radius() <= 1 && limit >= 2000 && k.t[2] >= 2 && k.s[2] >= 2 && k.t[2] < k.m.maxAlt - 1 && k.s[2] < k.m.maxAlt - 1)
      CHECK(false, "no path in free space:" << tr);
    pbt::label("none");
    return;
  }
  CHECK(!g.goal_is_blocked_, "goal marked as blocked although there is a path:" << tr);
  CHECK(p.size() >= 2, "path too short:" << tr);
  I3 e = idx(p.back());
  double man = std::abs(e[0] - k.t[0]) + std::abs(e[1] - k.t[1]) + std::abs(e[2] - k.t[2]);
  CHECK(man < rad / 2 + 1e-9, "path ends " << man << " away from the goal:" << tr);
  CHECK(idx(p[1]) == idx(st), "path starts elsewhere:" << tr);
  bool neigh = true;  // level and vertical steps only
  for (size_t i = 2; i < p.size(); ++i) { I3 d = sub(idx(p[i]), idx(p[i - 1])); if (!((d[2] == 0 && std::abs(d[0]) <= 1 && std::abs(d[1]) <= 1) || (d[0] == 0 && d[1] == 0 && std::abs(d[2]) == 1))) neigh = false; }
  bool speed = g.default_node_type_ == "SpeedNode";
  auto level = [&] {  // the last resort: up, level at the highest altitude, down
    if (!(idx(p[0]) == idx(st) && e == k.t && neigh)) return false;
    I3 aboveT = {k.t[0], k.t[1], k.m.maxAlt}, aboveS = {idx(st)[0], idx(st)[1], k.m.maxAlt};
    if (!std::count(p.begin(), p.end(), cell(aboveT)) || !std::count(p.begin(), p.end(), cell(aboveS))) return false;
    for (size_t i = 1; i < p.size(); ++i) {
      I3 b = idx(p[i]); double l, h; k.m.cellRisk(b, l, h);
      if (b != k.t && b != idx(st) && b != aboveT && b != aboveS && l > k.m.maxRisk + 1e-5) return false;
      if (b[2] > std::max(k.m.maxAlt, idx(st)[2]) + 0 && b[2] > k.t[2]) return false;
    }
    return true;
  };
  if (level()) pbt::label("level flight");
  else {
    CHECK(idx(p[0]) == idx(par), "path begins with " << sc(p[0]) << ":" << tr);
    // the path is the result of one of the searches: legal edges in any case, neighbours unless searched with speed
    CHECK(speed || neigh, "path with gaps:" << tr);
    checkEdges(k, p, neigh ? 0 : 2, tr);
  }
  pbt::nontrivial(p.size() >= 6);
  // the cells of the path
  std::set<I3> want, got;
  for (size_t i = 2; i < p.size(); ++i) if (!(p[i] == p[i - 1])) for (auto& q : Node(p[i], p[i - 1]).getCells()) want.insert(idx(q));
  for (auto& q : g.path_cells_) got.insert(idx(q));
  CHECK(want == got, "remembered cells of the path: " << got.size() << " expected " << want.size() << ":" << tr);
}
FACET(P29, level_search, 600, 8000, "level searches at the highest altitude in random worlds; non-trivial when found around obstacles") {
  Scene k; scene(s, k, 5, s.b(1, 3));
  k.g.max_iterations_ = s.b(4, 5) ? 5000 : s.i(0, 200);
  k.g.min_altitude_ = k.m.minAlt = s.i(0, 1);
  std::vector<Cell> p;
  bool ok = find2DPath(&k.g, p, cell(k.s), cell(k.t), cell(k.parent), k.m.maxAlt);
  std::string tr = " from " + sc(k.s) + " to " + sc(k.t) + " at " + pbt::str(k.m.maxAlt) + " found " + pbt::str(ok) + " path " + sp(p);
  NOTE(tr);
  if (!ok) { CHECK(p.empty(), "path without success:" << tr); pbt::label("none"); return; }
  CHECK(p.size() >= 2 && p.front() == cell(k.s) && p.back() == cell(k.t), "path from start to goal:" << tr);
  bool level = true;
  for (size_t i = 1; i < p.size(); ++i) {
    I3 a = idx(p[i - 1]), b = idx(p[i]), d = sub(b, a);
    CHECK((std::abs(d[0]) <= 1 && std::abs(d[1]) <= 1 && d[2] == 0) || (d[0] == 0 && d[1] == 0 && std::abs(d[2]) == 1), "path cells " << sc(a) << " and " << sc(b) << " are not neighbours:" << tr);
    double l, h; k.m.cellRisk(b, l, h);
    I3 aboveT = {k.t[0], k.t[1], k.m.maxAlt}, aboveS = {k.s[0], k.s[1], k.m.maxAlt};
    if (b != k.t && b != k.s && b != aboveT && b != aboveS) CHECK(l <= k.m.maxRisk + 1e-5, "path cell " << sc(b) << " has the risk " << l << " of at most " << k.m.maxRisk << ":" << tr);
    if (b[2] != k.m.maxAlt && (d[0] || d[1])) level = false;
  }
  pbt::nontrivial(!k.m.w.vox.empty() && p.size() > 8);
  bool between = false;  // level between the places above start and goal
  I3 as = {k.s[0], k.s[1], k.m.maxAlt}, at = {k.t[0], k.t[1], k.m.maxAlt};
  for (size_t i = 0; i < p.size(); ++i) if (idx(p[i]) == as) for (size_t j = i; j < p.size() && idx(p[j])[2] == k.m.maxAlt; ++j) if (idx(p[j]) == at) between = true;
  CHECK(between, "the path is not level at " << k.m.maxAlt << " between the places above start and goal:" << tr);
  if (level) pbt::label("level");
  CHECK(std::count(p.begin(), p.end(), cell({k.s[0], k.s[1], k.m.maxAlt})) && std::count(p.begin(), p.end(), cell({k.t[0], k.t[1], k.m.maxAlt})), "path does not pass above start and goal:" << tr);
}

// ------------------------------------------------------------------ P30
namespace {
std::vector<Cell> walk(pbt::Src& s, int n, int step) {
  std::vector<Cell> p; I3 c = rcell(s, 5, 1, 6); p.push_back(cell(c));
  I3 dir = {1, 0, 0};
  for (int i = 1; i < n; ++i) {
    if (s.b(1, 3)) { dir = {s.si(step), s.si(step), s.b(1, 4) ? s.si(1) : 0}; if (dir == I3{0, 0, 0}) dir = {0, 1, 0}; }
    c = {c[0] + dir[0], c[1] + dir[1], std::max(1, c[2] + dir[2])}; if (cell(c) == p.back()) c[0] += 1;
    p.push_back(cell(c));
  }
  return p;
}
std::vector<double> P3(const geometry_msgs::PoseStamped& p) { return {p.pose.position.x, p.pose.position.y, p.pose.position.z}; }
}  // namespace
FACET(P30, simplify, 2000, 25000, "random paths of 0-20 cells in random worlds, cost margins 0-2, 0-20 iterations; non-trivial when a vertex is dropped") {
  GlobalPlanner g; Model m; randomParams(s, m); m.prior = g.alt_prior_; randomWorld(s, m.w, 5, 5, true); m.configure(g); m.w.give(g);
  g.curr_pos_ = cell(rcell(s, 5, 1, 5)).toPoint(); g.curr_vel_.x = s.sd(2);
  auto path = walk(s, s.i(0, 20), s.i(1, 3));
  if (path.size() == 1 && s.b()) path.clear();
  double margin = s.b() ? 1.01 : s.d(0, 2); int iters = s.i(0, 20); bool dec = s.b();
  auto orig = path;
  auto res = simplifyPath(&g, path, margin, iters, dec);
  std::string tr = " " + sp(orig) + " margin " + pbt::str(margin) + " iterations " + pbt::str(iters) + " -> " + sp(res);
  NOTE(tr);
  CHECK(path == orig, "the path given is changed:" << tr);
  if (orig.size() < 3) { CHECK(res == orig, "trivial path changed:" << tr); delete g.octree_; return; }
  auto core = res;
  if (dec) { CHECK(core.size() >= 4 && core[core.size() - 1] == core[core.size() - 2], "the last point is not repeated:" << tr); core.pop_back(); }
  CHECK(core.size() >= 3 && core.size() <= orig.size() && core[0] == orig[0] && core[1] == orig[1] && core.back() == orig.back(), "ends of the path:" << tr);
  // iteration by iteration
  std::vector<Cell> cur = orig; bool nt = false;
  for (int j = 0; j < iters; ++j) {
    auto next = simplifyPath(&g, cur, margin, 1, false);
    std::vector<bool> kept(cur.size(), false); size_t q = 0;
    for (size_t i = 0; i < cur.size(); ++i) if (q < next.size() && next[q] == cur[i]) {
      // a dropped vertex can equal a later one; prefer dropping as the number of vertices requires
      kept[i] = true; ++q;
    }
    CHECK(q == next.size(), "the simplified path is not part of the path:" << tr << " step " << sp(cur) << " -> " << sp(next));
    std::set<Cell> uniq(cur.begin(), cur.end());
    bool clean = uniq.size() == cur.size();
    auto droppable = [&](size_t i, bool& sure) {
      Node parent(cur[i - 1], cur[i - 2]), u(cur[i], cur[i - 1]), v(cur[i + 1], cur[i]), w(cur[i + 1], cur[i - 1]);
      double a = g.getEdgeCost(parent, u) + g.getEdgeCost(u, v), b = g.getEdgeCost(parent, w);
      sure = std::fabs(b - margin * a) > 1e-9 * (1 + a);
      return !(b > margin * a);
    };
    if (clean) for (size_t i = 2; i + 1 < cur.size(); ++i) {
      bool sure, can = droppable(i, sure);
      if (!kept[i]) { CHECK(!sure || can, "vertex " << sc(cur[i]) << " is dropped although this costs more than the margin:" << tr << " step " << sp(cur) << " -> " << sp(next));
        CHECK(kept[i - 1] && kept[i + 1], "successive vertices are dropped at once:" << tr); nt = true; }
      else if (i % 2 == 0 && sure) CHECK(!can, "vertex " << sc(cur[i]) << " could be dropped within the margin:" << tr << " step " << sp(cur) << " -> " << sp(next));
    }
    bool same = next == cur; cur = next;
    if (same) break;
  }
  CHECK(cur == core, "result after " << iters << " iterations is " << sp(core) << ", step by step " << sp(cur) << ":" << tr);
  pbt::nontrivial(nt);
  delete g.octree_;
}
FACET(P30, smoothing, 4000, 40000, "paths of 0-12 poses anywhere; non-trivial when it has a corner") {
  nav_msgs::Path p; p.header.frame_id = "f" + pbt::str(s.i(0, 9)); p.header.seq = s.i(0, 9); p.header.stamp = ros::Time(s.d(0, 100));
  int n = s.i(0, 12); double m = s.pick(std::vector<double>{2, 20, 500});
  for (int i = 0; i < n; ++i) { geometry_msgs::PoseStamped q; q.header.frame_id = p.header.frame_id; q.pose.position.x = s.sd(m); q.pose.position.y = s.sd(m); q.pose.position.z = s.sd(m);
    if (i && s.b(1, 6)) q.pose.position = p.poses.back().pose.position; q.pose.orientation = tf::createQuaternionMsgFromYaw(s.sd(3)); p.poses.push_back(q); }
  auto r = smoothPath(p);
  pbt::nontrivial(n >= 3);
  NOTE(n << " poses within " << m << " m -> " << r.poses.size());
  if (n < 3) { CHECK(r == p, "a path of " << n << " poses changes"); return; }
  CHECK(r.header == p.header, "header of the smoothed path");
  CHECK(r.poses.front() == p.poses.front() && r.poses.back() == p.poses.back(), "ends of the smoothed path");
  // every point lies on the curve of its corner, the curves are in order, begin and end in the middle of the edges and touch each other
  double tol = 1e-9 * (1 + m); size_t at = 1; int corner = 2; double lastT = -1; size_t count = 0;
  auto bez = [&](int c, double t, double* o) { for (int a = 0; a < 3; ++a) { double p0 = P3(p.poses[c - 2])[a], p1 = P3(p.poses[c - 1])[a], p2 = P3(p.poses[c])[a]; double b0 = (p0 + p1) / 2, b2 = (p1 + p2) / 2; o[a] = (1 - t) * (1 - t) * b0 + 2 * t * (1 - t) * p1 + t * t * b2; } };
  size_t per = (r.poses.size() - 2) / (n - 2);
  CHECK((r.poses.size() - 2) % (n - 2) == 0 && per >= 5, r.poses.size() << " smoothed poses for " << n); (void)at; (void)corner; (void)lastT; (void)count;
  for (int c = 2; c < n; ++c) for (size_t k = 0; k < per; ++k) {
    double o[3]; bez(c, double(k) / (per - 1), o);
    auto g = P3(r.poses[1 + (c - 2) * per + k]);
    for (int a = 0; a < 3; ++a) CHECK(pbt::near(g[a], o[a], tol), "point " << k << " of corner " << c - 1 << " is " << g[a] << " instead of " << o[a] << " (coordinate " << a << ")");
    CHECK(r.poses[1 + (c - 2) * per + k].header.frame_id == p.header.frame_id, "frame of a smoothed pose");
  }
}
FACET(P30, messages, 4000, 40000, "random paths of 0-15 cells (with repeated and vertical steps) with any current yaw in random worlds; non-trivial when the path contains vertical and horizontal steps") {
  GlobalPlanner g; Model m; randomParams(s, m); m.prior = g.alt_prior_; randomWorld(s, m.w, 5, 5, true); m.configure(g); m.w.give(g);
  auto path = walk(s, s.i(1, 15), s.i(1, 2)); if (path.size() == 1 && s.b()) path.clear();
  g.curr_pos_ = cell(rcell(s, 5, 1, 5)).toPoint(); g.curr_vel_.x = s.sd(2);
  g.curr_yaw_ = s.sd(M_PI); std::string fr = "fr" + pbt::str(s.i(0, 9)); g.setFrame(fr);
  if (s.b()) g.setPath(walk(s, s.i(1, 8), 2));  // an earlier path
  g.setPath(path);
  CHECK(g.curr_path_ == path, "path set");
  bool rep = s.b(1, 3); auto shown = path; if (rep && !path.empty()) shown.push_back(path.back());
  nav_msgs::Path msg = rep ? g.getPathMsg(shown) : g.getPathMsg();
  NOTE(sp(shown) << " yaw " << g.curr_yaw_);
  CHECK(msg.header.frame_id == fr && msg.poses.size() == shown.size(), msg.poses.size() << " poses for " << shown.size() << " cells");
  double yaw = g.curr_yaw_; bool vert = false, hor = false;
  for (size_t i = 0; i < shown.size(); ++i) {
    I3 c = idx(shown[i]);
    auto& q = msg.poses[i];
    CHECK(q.header.frame_id == fr && q.pose.position.x == c[0] + 0.5 && q.pose.position.y == c[1] + 0.5 && q.pose.position.z == c[2] + 0.5, "pose " << i << " is not at the centre of " << sc(c));
    if (i + 1 < shown.size()) { I3 d = sub(idx(shown[i + 1]), c); if (d[0] || d[1]) { yaw = std::atan2(double(d[1]), double(d[0])); hor = true; } else vert = true; }
    double got = 2 * std::atan2(q.pose.orientation.z, q.pose.orientation.w);
    CHECK(pbt::near(std::remainder(got - yaw, 2 * M_PI), 0, 1e-6) && q.pose.orientation.x == 0 && q.pose.orientation.y == 0, "yaw " << got << " of pose " << i << ", expected " << yaw << ": " << sp(shown));
  }
  pbt::nontrivial(vert && hor);
  auto rm = g.getPathWithRiskMsg();
  CHECK(rm.header.frame_id == fr && rm.poses.size() == path.size() && rm.risks.size() == path.size(), "sizes of the path with risk");
  for (size_t i = 0; i < path.size(); ++i) { double lo, hi; m.cellRisk(idx(path[i]), lo, hi); CHECK(rm.risks[i] >= lo - 1e-4 * (1 + lo) && rm.risks[i] <= hi + 1e-4 * (1 + hi), "risk " << rm.risks[i] << " of pose " << i << ", expected " << lo << " to " << hi);
    CHECK(rm.poses[i].pose.position.x == idx(path[i])[0] + 0.5, "pose " << i << " of the path with risk"); }
  PathInfo info = g.getPathInfo(path);
  double dist = 0, rlo = 0, rhi = 0, sm = 0, extra = 0; bool blo = false, bhi = false; bool unsure = false;
  double vel = std::fabs(g.curr_vel_.x); if (std::fabs(vel - 1) < 1e-6) unsure = true;
  for (size_t i = 2; i < path.size(); ++i) {
    I3 a = idx(path[i - 2]), b = idx(path[i - 1]), c = idx(path[i]);
    dist += std::hypot(c[0] - b[0], c[1] - b[1]) + (c[2] > b[2] ? m.up * (c[2] - b[2]) : m.down * (b[2] - c[2]));
    double lo = 0, hi = 0; int n = 0; for (auto& q : Node(path[i], path[i - 1]).getCells()) { double l, h; m.cellRisk(idx(q), l, h); lo += l; hi += h; ++n; }
    double L = euclid(b, c); lo *= L / n; hi *= L / n; rlo += m.risk * lo; rhi += m.risk * hi; blo |= lo > m.maxRisk + 1e-5; bhi |= hi > m.maxRisk - 1e-5;
    double t = rotation(b, a, c, b); sm += m.smooth * t * t;
    if (euclid(b, idx(Cell(g.curr_pos_))) < 3 && vel > 1) extra += m.smooth * t * t;
  }
  double tol = 1e-5 * (1 + dist + rhi + sm);
  CHECK(pbt::near(info.dist, dist, tol) && info.risk >= rlo - tol && info.risk <= rhi + tol && pbt::near(info.smoothness, sm, tol), "path costs: length " << info.dist << " (" << dist << ") risk " << info.risk << " (" << rlo << "-" << rhi << ") turning " << info.smoothness << " (" << sm << ") for " << sp(path));
  if (!unsure) CHECK(info.cost >= dist + rlo + sm + extra - 2 * tol && info.cost <= dist + rhi + sm + extra + 2 * tol, "total cost " << info.cost << " expected " << dist + rlo + sm + extra << " for " << sp(path));
  if (blo) CHECK(info.is_blocked, "path is not reported as blocked: " << sp(path));
  if (!bhi) CHECK(!info.is_blocked, "path is reported as blocked: " << sp(path));
  CHECK(g.curr_path_info_.dist == info.dist && g.curr_path_info_.is_blocked == info.is_blocked, "costs kept with the path");
  std::set<I3> want, got;
  for (size_t i = 2; i < path.size(); ++i) for (auto& q : Node(path[i], path[i - 1]).getCells()) want.insert(idx(q));
  for (auto& q : g.path_cells_) got.insert(idx(q));
  CHECK(want == got, "cells kept with the path: " << got.size() << ", expected " << want.size());
  // measures of the flown path
  double len = 0, en = 0, up = s.d(0, 5);
  for (size_t i = 1; i < shown.size(); ++i) { I3 a = idx(shown[i - 1]), b = idx(shown[i]); len += euclid(a, b); en += euclid(a, b) + up * std::max(0, b[2] - a[2]); }
  CHECK(pbt::near(pathLength(msg), len, 1e-9 * (1 + len)) && pbt::near(pathEnergy(msg, up), en, 1e-9 * (1 + en)), "length " << pathLength(msg) << " and energy " << pathEnergy(msg, up) << " of the path, expected " << len << " and " << en);
  auto cor = filterPathCorners(msg.poses);
  CHECK(msg.poses.empty() ? cor.empty() : cor.front() == msg.poses.front() && cor.back() == msg.poses.back(), "ends of the path corners");
  delete g.octree_;
}

