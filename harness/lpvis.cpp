// P21: what the displays show
#include <geom.h>
#include <local_planner/local_planner_visualization.h>
#include <local_planner/local_planner.h>
#include <local_planner/tree_node.h>
#include <avoidance/rviz_world_loader.h>
#include <sensor_msgs/Image.h>
#include <std_msgs/UInt32.h>
#include <sys/stat.h>
#include <unistd.h>
#include <set>
using namespace avoidance;
using namespace geom;
namespace {
typedef Eigen::Vector3f F3;
typedef visualization_msgs::Marker Marker;
F3 vec(const geometry_msgs::Point& p) { return F3(float(p.x), float(p.y), float(p.z)); }
bool close(const F3& a, const F3& b, double tol = 1e-4) { return (a - b).norm() <= tol * (1 + b.norm()); }
template <class M> M one(const std::string& topic) {
  auto v = shim::published<M>(topic);
  CHECK(v.size() == 1, v.size() << " messages on " << topic);
  return v[0];
}
}  // namespace
FACET(P21, planner_display, 1500, 20000, "a planner with random obstacles, cameras, pose and setpoints, displayed once; non-trivial when the planner built a tree and a path of at least two nodes") {
  shim::dropAll();
  shim::setNow(100 + s.i(0, 5));
  LocalPlanner p;
  LocalPlannerNodeConfig c = LocalPlannerNodeConfig::__getDefault__();
  c.n_expanded_nodes_ = s.i(1, 10);
  c.children_per_node_ = s.i(1, 5);
  c.max_sensor_range_ = s.d(3, 20);
  c.min_num_points_per_cell_ = 1;
  p.dynamicReconfigureSetParams(c, ~0u);
  F3 pos = pos3(s, 10), goal = pos3(s, 20), wp, ad;
  double yaw = s.sd(180), pitch = s.b() ? 0 : s.sd(20);
  Eigen::Quaternionf q = Eigen::AngleAxisf(float(yaw * D2R), F3::UnitZ()) * Eigen::AngleAxisf(float(pitch * D2R), F3::UnitY()) * Eigen::Quaternionf::Identity();
  int ncam = s.i(0, 3);
  for (int k = 0; k < ncam; ++k) p.setFOV(k, FOV(s.sf(180), s.sf(20), s.f(20, 120), s.f(20, 80)));
  pcl::PointCloud<pcl::PointXYZ> cl;
  for (int k = s.i(0, 8); k > 0; --k) { V3 d = s.d(0.5, 15) * dirHist(s.sd(60), s.sd(180)); cl.push_back(pcl::PointXYZ(pos.x() + float(d.x()), pos.y() + float(d.y()), pos.z() + float(d.z()))); }
  p.original_cloud_vector_.assign(1, cl);
  p.px4_.param_cp_dist = s.b() ? 4.f : -1.f;
  p.setState(pos, pos3(s, 2), q);
  p.setGoal(goal);
  p.runPlanner();
  V3 dw = s.d(0.1, 3) * dirHist(s.sd(80), s.sd(180)), da = s.d(0.1, 3) * dirHist(s.sd(80), s.sd(180));
  wp = pos + dw.cast<float>();
  ad = pos + da.cast<float>();
  NOTE(cl.size() << " points, " << ncam << " cameras, yaw " << yaw << " pitch " << pitch << " at " << sv(pos));
  ros::NodeHandle nh;
  LocalPlannerVisualization v;
  v.initializePublishers(nh);
  shim::clearPublished();
  v.visualizePlannerData(p, wp, ad, pos, q);
  // memory of obstacles
  auto shown = one<pcl::PointCloud<pcl::PointXYZI>>("local_pointcloud");
  CHECK(shown.size() == p.getPointcloud().size(), shown.size() << " points shown");
  for (size_t k = 0; k < shown.size(); ++k) CHECK(close(shown[k].getVector3fMap(), p.getPointcloud()[k].getVector3fMap()), "point " << k);
  CHECK(one<std_msgs::UInt32>("pointcloud_size").data == shown.size(), "size of the memory");
  // tree and path
  std::vector<TreeNode> tree;
  std::vector<int> closed;
  std::vector<F3> path;
  p.getTree(tree, closed, path);
  pbt::nontrivial(closed.size() > 1 && path.size() >= 2);
  Marker t = one<Marker>("complete_tree"), m = one<Marker>("tree_path");
  std::multiset<std::string> want, have;
  for (int k : closed) want.insert(sv(tree[size_t(k)].getPosition()) + sv(tree[size_t(tree[size_t(k)].origin_)].getPosition()));
  CHECK(t.points.size() % 2 == 0, "tree lines");
  for (size_t k = 0; k + 1 < t.points.size(); k += 2) have.insert(sv(vec(t.points[k])) + sv(vec(t.points[k + 1])));
  CHECK(t.type == Marker::LINE_LIST && want == have, "the displayed tree has " << have.size() << " edges, the tree " << want.size());
  std::vector<F3> line;
  for (size_t k = 1; k < path.size(); ++k) { line.push_back(path[k - 1]); line.push_back(path[k]); }
  CHECK(m.type == Marker::LINE_LIST && m.points.size() == line.size(), m.points.size() << " points of the path, expected " << line.size());
  for (size_t k = 0; k < line.size(); ++k) CHECK(close(vec(m.points[k]), line[k]), "path point " << k);
  auto g = one<visualization_msgs::MarkerArray>("goal_position");
  CHECK(g.markers.size() == 1 && close(vec(g.markers[0].pose.position), goal), "displayed goal");
  for (auto& f : {t.header.frame_id, m.header.frame_id, g.markers[0].header.frame_id}) CHECK(f == "local_origin", "frame " << f);
  // images
  auto h = one<sensor_msgs::Image>("histogram_image"), ci = one<sensor_msgs::Image>("cost_image");
  CHECK(h.encoding == "mono8" && h.step == h.width && h.data.size() == size_t(h.step) * h.height && h.data == p.histogram_image_data_, "histogram image " << h.width << "x" << h.height << " step " << h.step << " " << h.data.size() << " bytes");
  CHECK(ci.encoding == "rgb8" && ci.step == 3 * ci.width && ci.data.size() == size_t(ci.step) * ci.height, "cost image " << ci.width << "x" << ci.height << " step " << ci.step << " " << ci.data.size() << " bytes");
  CHECK(h.width == 60 && h.height == 30 && ci.width == 60 && ci.height == 30, "image size");
  {
    std::vector<uint8_t> w = p.cost_image_data_;
    std::vector<bool> any(w.size(), false);
    // heading blue, setpoint white, speed-adapted setpoint light blue
    double head = 90 - std::atan2(2.0 * (q.w() * q.z() + q.x() * q.y()), 1 - 2.0 * (q.y() * q.y() + q.z() * q.z())) / D2R;
    struct Mark { V3 d; int from, to; } marks[] = {{dirHist(1, head), 2, 2}, {(wp - pos).cast<double>(), 0, 2}, {(ad - pos).cast<double>(), 1, 2}};
    for (auto& k : marks) {
      auto touch = [&](const V3& d, bool sure) {
        Cell cc = cellOf(d, 6);
        for (int col = k.from; col <= k.to; ++col) { size_t i = size_t(((29 - cc.e) * 60 + cc.z) * 3 + col); if (sure) w[i] = 255; else any[i] = true; }
      };
      bool sure = cellOf(k.d, 6).margin > 0.02;
      touch(k.d, sure);
      if (!sure) for (double a : {-0.05, 0.05}) for (double b : {-0.05, 0.05}) touch(dirHist(elev(k.d) + a, azim(k.d) + b), false);
    }
    for (size_t i = 0; i < w.size(); ++i) CHECK(any[i] || ci.data[i] == w[i], "cost image row " << i / 180 << " column " << i / 3 % 60 << " colour " << i % 3 << " is " << int(ci.data[i]) << ", expected " << int(w[i]) << " (heading " << head << " degrees from north)");
  }
  // fields of view: pyramids around the vehicle
  auto fv = shim::published<Marker>("fov");
  CHECK(int(fv.size()) == ncam, fv.size() << " fields of view displayed for " << ncam << " cameras");
  for (int k = 0; k < ncam; ++k) {
    const FOV& f = p.getFOV()[size_t(k)];
    const Marker& a = fv[size_t(k)];
    CHECK(a.header.frame_id == "fcu" && a.id == k && a.type == Marker::TRIANGLE_LIST && a.points.size() == 12, "display of camera " << k);
    std::vector<F3> corner;
    for (int e : {-1, 1}) for (int z : {-1, 1}) {
      double el = -(f.pitch_deg + e * f.v_fov_deg / 2), az = f.yaw_deg + z * f.h_fov_deg / 2;
      corner.push_back(float(c.max_sensor_range_) * F3(float(std::cos(el * D2R) * std::cos(az * D2R)), float(std::cos(el * D2R) * std::sin(az * D2R)), float(std::sin(el * D2R))));
    }
    std::vector<int> used(4, 0);
    for (int j = 0; j < 12; ++j) {
      if (j % 3 == 0) { CHECK(vec(a.points[size_t(j)]).norm() < 1e-4, "the view of camera " << k << " does not start at the vehicle"); continue; }
      int at = -1;
      for (int q4 = 0; q4 < 4; ++q4) if (close(vec(a.points[size_t(j)]), corner[size_t(q4)], 1e-3)) at = q4;
      CHECK(at >= 0, "corner " << sv(vec(a.points[size_t(j)])) << " of the view of camera " << k << " (yaw " << f.yaw_deg << " pitch " << f.pitch_deg << " " << f.h_fov_deg << "x" << f.v_fov_deg << ")");
      used[size_t(at)]++;
    }
    for (int u : used) CHECK(u == 2, "corners of the view of camera " << k);
  }
  // distances
  Marker r = one<Marker>("range_scan");
  const auto& sc = p.distance_data_;
  CHECK(r.points.size() == 3 * sc.ranges.size() && r.colors.size() == r.points.size(), r.points.size() << " points for " << sc.ranges.size() << " distances");
  for (size_t k = 0; k < sc.ranges.size(); ++k) {
    double len = std::isnan(sc.ranges[k]) ? sc.range_max : std::min(sc.range_max, sc.ranges[k]);
    CHECK(close(vec(r.points[3 * k]), pos), "distance " << k << " does not start at the vehicle");
    for (int j : {1, 2}) {
      V3 d = (vec(r.points[3 * k + size_t(j)]) - pos).cast<double>();
      CHECK(std::fabs(d.norm() - len) < 1e-3 * (1 + len), "distance " << k << " is shown " << d.norm() << " m long, expected " << len);
      CHECK(len < 0.01 || (std::fabs(elev(d)) < 0.05 && circ(azim(d), (double(k) + 0.5) * 6) < 6.1), "distance " << k << " is shown at azimuth " << azim(d));
    }
    const auto& col = r.colors[3 * k];
    bool red = std::isnan(sc.ranges[k]), green = sc.ranges[k] > sc.range_max;
    CHECK((!red || (col.r > 0.99 && col.g < 0.01)) && (!green || (col.g > 0.99 && col.r < 0.01)), "colour of distance " << k << " (" << sc.ranges[k] << "): " << col.r << "," << col.g);
    if (!red && !green) CHECK(std::fabs(col.g - sc.ranges[k] / sc.range_max) < 1e-3 && std::fabs(col.r + col.g - 1) < 1e-3, "colour of distance " << k << ": " << col.r << "," << col.g);
  }
}
FACET(P21, setpoint_display, 3000, 30000, "1-6 cycles of positions and setpoints; non-trivial with at least two") {
  shim::dropAll();
  ros::NodeHandle nh;
  LocalPlannerVisualization v;
  v.initializePublishers(nh);
  int n = s.i(1, 6);
  pbt::nontrivial(n >= 2);
  std::set<int> ids;
  for (int k = 0; k < n; ++k) {
    shim::clearPublished();
    F3 a[6];
    for (auto& x : a) x = pos3(s, 20);
    v.visualizeWaypoints(a[0], a[1], a[2]);
    CHECK(close(vec(one<Marker>("original_waypoint").pose.position), a[0]) && close(vec(one<Marker>("adapted_waypoint").pose.position), a[1]) && close(vec(one<Marker>("smoothed_waypoint").pose.position), a[2]), "displayed setpoints");
    v.publishPaths(a[0], a[1], a[2], a[3], a[4], a[5]);
    const char* names[] = {"path_actual", "path_waypoint", "path_adapted_waypoint"};
    for (int j = 0; j < 3; ++j) {
      Marker m = one<Marker>(names[j]);
      CHECK(m.points.size() == 2 && close(vec(m.points[0]), a[2 * j]) && close(vec(m.points[1]), a[2 * j + 1]), "displayed segment of " << names[j]);
      if (j == 0) CHECK(ids.insert(m.id).second, "the segment of cycle " << k << " replaces an earlier one");
    }
    geometry_msgs::Twist t;
    t.linear.x = s.sd(5); t.linear.y = s.sd(5); t.linear.z = s.sd(5);
    v.publishCurrentSetpoint(t, s.pick(std::vector<PlannerState>{PlannerState::TRY_PATH, PlannerState::ALTITUDE_CHANGE, PlannerState::LOITER, PlannerState::DIRECT}), a[0]);
    Marker m = one<Marker>("current_setpoint");
    CHECK(m.type == Marker::ARROW && m.points.size() == 2 && close(vec(m.points[0]), a[0]) && close(vec(m.points[1]), a[0] + F3(float(t.linear.x), float(t.linear.y), float(t.linear.z))), "displayed velocity");
    CHECK(m.color.a > 0 && m.color.r + m.color.g + m.color.b > 0.5, "colour of the velocity");
    v.publishOfftrackPoints(a[3], a[4]);
    CHECK(close(vec(one<Marker>("closest_point").pose.position), a[3]) && close(vec(one<Marker>("deg60_point").pose.position), a[4]), "displayed off-track points");
  }
}
namespace {
struct Dir {
  char d[64];
  Dir() { strcpy(d, "/tmp/lpvis.XXXXXX"); if (!mkdtemp(d)) d[0] = 0; }
  std::string operator/(const std::string& f) const { return std::string(d) + "/" + f; }
  std::vector<std::string> files, dirs;
  void mk(const std::string& f) { mkdir((*this / f).c_str(), 0700); dirs.push_back(*this / f); }
  void put(const std::string& f, const std::string& t) { FILE* o = fopen((*this / f).c_str(), "w"); fputs(t.c_str(), o); fclose(o); files.push_back(*this / f); }
  ~Dir() { for (auto& f : files) unlink(f.c_str()); for (size_t k = dirs.size(); k-- > 0;) rmdir(dirs[k].c_str()); rmdir(d); }
};
}  // namespace
FACET(P21, world_display, 400, 4000, "world files of 0-6 objects with meshes that exist or do not, with and without model path and home directory, and 0-3 poses; non-trivial with at least two objects") {
  shim::dropAll();
  shim::setNow(50);
  Dir d;
  CHECK(d.d[0], "no scratch directory");
  d.mk("models"); d.mk("models/tree"); d.mk("home"); d.mk("home/.gazebo"); d.mk("home/.gazebo/models"); d.mk("home/.gazebo/models/house");
  d.put("models/tree/a.dae", "x");
  bool model = s.b();
  if (model) { d.mk("models/matrice_100"); d.mk("models/matrice_100/meshes"); d.put("models/matrice_100/meshes/Matrice_100.dae", "x"); }
  d.put("home/.gazebo/models/house/b.dae", "x");
  bool path = s.b(), other = s.b(), home = s.b();
  if (path) setenv("GAZEBO_MODEL_PATH", other ? ("/nonexistent:" + (d / "models")).c_str() : (d / "models").c_str(), 1); else unsetenv("GAZEBO_MODEL_PATH");
  if (home) setenv("HOME", (d / "home").c_str(), 1); else unsetenv("HOME");
  int n = s.i(0, 6);
  pbt::nontrivial(n >= 2);
  std::string y, tr;
  bool ok = true;
  struct Obj { int type; std::string mesh; F3 pos, scale; Eigen::Vector4f q; std::string frame; };
  std::vector<Obj> objs;
  auto vs = [](const F3& v) { return "[" + pbt::str(v.x()) + ", " + pbt::str(v.y()) + ", " + pbt::str(v.z()) + "]"; };
  for (int k = 0; k < n; ++k) {
    Obj o;
    static const char* kType[] = {"cube", "sphere", "cylinder", "mesh", "banana"};
    static const int kMarker[] = {Marker::CUBE, Marker::SPHERE, Marker::CYLINDER, Marker::MESH_RESOURCE, -1};
    int t = s.w({4, 4, 4, 6, 1});
    o.type = kMarker[t];
    o.pos = pos3(s, 30); o.scale = F3(s.f(0.1f, 9), s.f(0.1f, 9), s.f(0.1f, 9));
    o.q = Eigen::Vector4f(s.sf(1), s.sf(1), s.sf(1), s.sf(1));
    o.frame = s.b() ? "local_origin" : "world";
    std::string mesh;
    if (t == 4) ok = false;
    if (t == 3) {
      int w = s.w({2, 2, 1, 1});
      if (w == 0) { mesh = "model://tree/a.dae"; o.mesh = "file://" + (d / "models/tree/a.dae"); if (!path) ok = false; }
      else if (w == 1) { mesh = "model://house/b.dae"; o.mesh = "file://" + (d / "home/.gazebo/models/house/b.dae"); if (!home) ok = false; }
      else if (w == 2) { mesh = "model://tree"; ok = false; }  // a directory
      else mesh = o.mesh = "file:///meshes/x.dae";
    }
    objs.push_back(o);
    tr += std::string(" ") + kType[t] + (mesh.empty() ? "" : "(" + mesh + ")");
    y += std::string("- type: \"") + kType[t] + "\"\n  name: \"o" + pbt::str(k) + "\"\n  frame_id: \"" + o.frame + "\"\n  mesh_resource: \"" + mesh + "\"\n  position: " + vs(o.pos) + "\n  orientation: [" + pbt::str(o.q.x()) + ", " + pbt::str(o.q.y()) + ", " +
         pbt::str(o.q.z()) + ", " + pbt::str(o.q.w()) + "]\n  scale: " + vs(o.scale) + "\n";
  }
  NOTE((path ? "model path" : "no model path") << (home ? ", home:" : ", no home:") << tr);
  d.put("world.yaml", y);
  bool ns = s.b(), given = s.b(4, 5);
  shim::setParam("lp/world_name", given ? d / "world.yaml" : std::string());
  shim::setParam("world_name", given ? d / "world.yaml" : std::string());
  ros::NodeHandle nh;
  WorldVisualizer v(nh, ns ? "lp" : "");
  shim::clearPublished();
  shim::fireTimers(2.0);
  auto w = shim::published<visualization_msgs::MarkerArray>("world");
  if (!given || !ok) CHECK(w.empty(), "a world is shown although there is none or part of it is missing:" << tr);
  else {
    CHECK(w.size() == 1 && w[0].markers.size() == objs.size(), "displayed world:" << tr);
    std::set<int> ids;
    for (size_t k = 0; k < objs.size(); ++k) {
      const Marker& m = w[0].markers[k];
      const Obj& o = objs[k];
      CHECK(m.type == o.type && m.header.frame_id == o.frame && m.mesh_resource == o.mesh && ids.insert(m.id).second, "object " << k << " type " << m.type << " mesh " << m.mesh_resource << " expected " << o.mesh << ":" << tr);
      CHECK(close(vec(m.pose.position), o.pos) && close(F3(float(m.scale.x), float(m.scale.y), float(m.scale.z)), o.scale), "place of object " << k);
      CHECK((Eigen::Vector4f(float(m.pose.orientation.x), float(m.pose.orientation.y), float(m.pose.orientation.z), float(m.pose.orientation.w)) - o.q).norm() < 1e-4, "orientation of object " << k);
      CHECK(m.type == Marker::MESH_RESOURCE || m.color.a > 0.1, "object " << k << " is invisible");
    }
  }
  for (int k = s.i(0, 3); k > 0; --k) {  // showing the vehicle never stops the node
    geometry_msgs::PoseStamped p;
    F3 at = pos3(s, 20);
    p.pose.position.x = at.x(); p.pose.position.y = at.y(); p.pose.position.z = at.z();
    p.pose.orientation.z = s.sd(1);
    p.pose.orientation.w = s.sd(1);
    shim::clearPublished();
    shim::deliver("mavros/local_position/pose", p);
    auto m = shim::published<Marker>("drone");
    if (!model || !path || !given) CHECK(m.empty(), "a vehicle is shown without its model");
    else CHECK(m.size() == 1 && m[0].type == Marker::MESH_RESOURCE && m[0].mesh_resource == "file://" + (d / "models/matrice_100/meshes/Matrice_100.dae") && m[0].header.frame_id == "local_origin" && close(vec(m[0].pose.position), at) &&
               m[0].pose.orientation.z == p.pose.orientation.z && m[0].pose.orientation.w == p.pose.orientation.w, "displayed vehicle");
  }
}
FACET(P21, broken_world, 600, 20000, "world files of 0-4 objects with 0-6 damages (bytes replaced, inserted, lines dropped or doubled, an end missing), a directory or no file at all; non-trivial when a file was damaged") {
  shim::dropAll();
  shim::setNow(50);
  Dir d;
  CHECK(d.d[0], "no scratch directory");
  std::string y;
  for (int k = s.i(0, 4); k > 0; --k) {
    y += "- type: \"" + std::string(s.b() ? "cube" : "mesh") + "\"\n  name: \"o\"\n  frame_id: \"local_origin\"\n  mesh_resource: \"" + (s.b() ? "model://tree/a.dae" : "") + "\"\n";
    for (const char* n : {"position", "orientation", "scale"}) {
      y += std::string("  ") + n + ": [";
      for (int j = 0; j < (n[0] == 'o' ? 4 : 3); ++j) y += (j ? ", " : "") + pbt::str(s.sf(9));
      y += "]\n";
    }
  }
  int damages = s.i(0, 6);
  static const std::string kChars = "[]{}:,-\"'#&*!|>%@`\t\n 0aZ.~?=\\";
  for (int k = 0; k < damages; ++k) {
    if (y.empty()) { y += kChars[s.raw(kChars.size())]; continue; }
    size_t at = size_t(s.raw(y.size()));
    size_t b = y.rfind('\n', at), e = y.find('\n', at);
    b = b == std::string::npos ? 0 : b + 1; e = e == std::string::npos ? y.size() : e + 1;
    switch (s.w({4, 4, 3, 1, 1})) {
      case 0: y[at] = kChars[s.raw(kChars.size())]; break;
      case 1: y.insert(at, 1, kChars[s.raw(kChars.size())]); break;
      case 2: if (e > b) y.erase(b, e - b); break;
      case 3: if (e > b) y.insert(b, y.substr(b, e - b)); break;
      default: y.resize(at);
    }
  }
  int where = s.w({12, 1, 1});
  d.put("world.yaml", y);
  std::string path = where == 0 ? d / "world.yaml" : where == 1 ? d / "none.yaml" : std::string(d.d);
  shim::setParam("lp/world_name", path);
  unsetenv("GAZEBO_MODEL_PATH");
  NOTE("file " << path << ":\n" << y);
  ros::NodeHandle nh;
  WorldVisualizer v(nh, "lp");
  for (int k = 0; k < 2; ++k) {
    std::string what;
    try { shim::fireTimers(2.0); } catch (const std::exception& ex) { what = ex.what(); if (what.empty()) what = "?"; }
    CHECK(what.empty(), "a wrong world file stops the node: " << what);
  }
  pbt::nontrivial(where == 0 && damages > 0);
}
