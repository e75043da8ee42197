// P01..P06, P09: geometry, message, field-of-view, histogram, state-machine and transform-buffer helpers of the avoidance library
#include <pbt.h>
#include <avoidance/common.h>
#include <avoidance/histogram.h>
#include <avoidance/transform_buffer.h>
#include <avoidance/usm.h>
#include <deque>
#include <map>
#include <thread>
using namespace avoidance;

namespace {
const double D2R = M_PI / 180.0;
typedef Eigen::Vector3d V3;
double wrap180(double a) { return a - 360.0 * std::floor(a / 360.0 + 0.5); }
double circ(double a, double b) { return std::fabs(wrap180(a - b)); }
V3 dirHist(double e, double z) { return V3(std::cos(e * D2R) * std::sin(z * D2R), std::cos(e * D2R) * std::cos(z * D2R), std::sin(e * D2R)); }
V3 dirFCU(double e, double z) { return V3(std::cos(e * D2R) * std::cos(z * D2R), std::cos(e * D2R) * std::sin(z * D2R), -std::sin(e * D2R)); }
double angleBetween(const V3& a, const V3& b) { return std::atan2(a.cross(b).norm(), a.dot(b)) / D2R; }
Eigen::Vector3f pos3(pbt::Src& s, double m) { return Eigen::Vector3f(s.sf(float(m)), s.sf(float(m)), s.sf(float(m))); }
std::string sv(const Eigen::Vector3f& v) { return "(" + pbt::str(v.x()) + "," + pbt::str(v.y()) + "," + pbt::str(v.z()) + ")"; }
float angle(pbt::Src& s) {  // degrees, over several turns, with the special values
  static const std::vector<float> sp = {0.f, 90.f, -90.f, 180.f, -180.f, 270.f, 360.f, -360.f, 89.99f, 450.f};
  switch (s.w({6, 2, 2})) {
    case 0: return s.sf(180.f);
    case 1: return s.sf(2000.f);
    default: return s.pick(sp) + (s.b(1, 3) ? s.sf(0.01f) : 0.f);
  }
}
}  // namespace

// ------------------------------------------------------------------ P01
FACET(P01, polar_cartesian, 60000, 600000, "random origin and offset; non-trivial when the offset is longer than 1 cm and not vertical") {
  Eigen::Vector3f o = pos3(s, s.b() ? 10 : 200);
  Eigen::Vector3f d = s.b(1, 8) ? Eigen::Vector3f(float(s.si(2)), float(s.si(2)), float(s.si(2))) : pos3(s, s.b() ? 20 : 0.5);
  Eigen::Vector3f p = o + d;
  V3 t = p.cast<double>() - o.cast<double>();
  double h = t.head<2>().norm(), n = t.norm();
  NOTE("origin " << sv(o) << " point " << sv(p));
  pbt::nontrivial(h > 0.01);
  double tol = 1e-4 + 2e-6 * (std::fabs(p.norm()) + o.norm());
  PolarPoint q = cartesianToPolarHistogram(p, o);
  PolarPoint q2 = cartesianToPolarHistogram(p.x(), p.y(), p.z(), o);
  CHECK(q.e == q2.e && q.z == q2.z && q.r == q2.r, "the two overloads disagree");
  CHECK(std::fabs(q.r - n) <= tol, "histogram radius " << q.r << " expected " << n);
  CHECK(q.z >= -180.01f && q.z <= 180.01f && q.e >= -90.01f && q.e <= 90.01f, "angles out of range e=" << q.e << " z=" << q.z);
  Eigen::Vector3f back = polarHistogramToCartesian(q, o);
  CHECK((back - p).norm() <= 5 * tol, "cartesian -> histogram polar -> cartesian ends at " << sv(back));
  PolarPoint f = cartesianToPolarFCU(p, o);
  CHECK(std::fabs(f.r - n) <= tol, "fcu radius " << f.r << " expected " << n);
  CHECK(f.z >= -180.01f && f.z <= 180.01f && f.e >= -90.01f && f.e <= 90.01f, "fcu angles out of range e=" << f.e << " z=" << f.z);
  Eigen::Vector3f bf = polarFCUToCartesian(f, o);
  CHECK((bf - p).norm() <= 5 * tol, "cartesian -> fcu polar -> cartesian ends at " << sv(bf));
  if (n > 0.01) {
    double atol = 0.02 + tol / n / D2R * 2;
    CHECK(angleBetween(dirHist(q.e, q.z), t) <= atol, "histogram convention: azimuth clockwise from +y, elevation up; got e=" << q.e << " z=" << q.z);
    CHECK(angleBetween(dirFCU(f.e, f.z), t) <= atol, "fcu convention: yaw counter-clockwise from +x, pitch down; got e=" << f.e << " z=" << f.z);
    if (h > 0.01) {
      double y = nextYaw(o, p);
      CHECK(circ(y / D2R, std::atan2(t.y(), t.x()) / D2R) <= 0.02 + tol / h / D2R * 2, "yaw towards the point is " << y);
    }
    if (o.norm() == 0) {
      PolarPoint g = cartesianToPolarFCU(pcl::PointXYZ(p.x(), p.y(), p.z()));
      CHECK(angleBetween(dirFCU(g.e, g.z), t) <= atol, "point overload e=" << g.e << " z=" << g.z);
    }
  }
  PolarPoint r(s.sf(90.f), s.sf(180.f), s.f(0.f, 30.f));
  Eigen::Vector3f c = polarHistogramToCartesian(r, o);
  CHECK((c.cast<double>() - (o.cast<double>() + r.r * dirHist(r.e, r.z))).norm() <= tol + 1e-5 * r.r, "polar (e " << r.e << " z " << r.z << " r " << r.r << ") to cartesian gives " << sv(c));
  Eigen::Vector3f cf = polarFCUToCartesian(r, o);
  CHECK((cf.cast<double>() - (o.cast<double>() + r.r * dirFCU(r.e, r.z))).norm() <= tol + 1e-5 * r.r, "fcu polar (e " << r.e << " z " << r.z << " r " << r.r << ") to cartesian gives " << sv(cf));
}

FACET(P01, histogram_index, 40000, 400000, "a cell (all of both resolutions are drawn) or an arbitrary direction including several turns and non-finite angles; non-trivial when the direction is not a cell centre") {
  int res = s.b(1, 3) ? 2 * ALPHA_RES : ALPHA_RES, nz = 360 / res, ne = 180 / res;
  int e = s.i(0, ne - 1), z = s.i(0, nz - 1);
  float r = s.f(0.f, 30.f);
  PolarPoint c = histogramIndexToPolar(e, z, res, r);
  CHECK(c.r == r, "radius changed");
  CHECK(pbt::near(c.e, -90 + res * (e + 0.5), 0.01) && pbt::near(c.z, -180 + res * (z + 0.5), 0.01), "cell (" << e << "," << z << ") res " << res << " centre is e=" << c.e << " z=" << c.z);
  Eigen::Vector2i k = polarToHistogramIndex(c, res);
  CHECK(k.y() == e && k.x() == z, "cell (" << e << "," << z << ") maps back to (" << k.y() << "," << k.x() << ")");
  // any direction
  PolarPoint p(angle(s), angle(s), r);
  if (s.b(1, 40)) p.e = s.b() ? NAN : INFINITY;
  if (s.b(1, 40)) p.z = s.b() ? NAN : -INFINITY;
  NOTE("res " << res << " direction e=" << p.e << " z=" << p.z);
  pbt::nontrivial();
  Eigen::Vector2i i = polarToHistogramIndex(p, res);
  CHECK(i.x() >= 0 && i.x() < nz && i.y() >= 0 && i.y() < ne, "index out of range: (" << i.y() << "," << i.x() << ") for e=" << p.e << " z=" << p.z);
  if (!std::isfinite(p.e)) CHECK(i.y() == 0, "invalid elevation gives row " << i.y());
  if (!std::isfinite(p.z)) CHECK(i.x() == 0, "invalid azimuth gives column " << i.x());
  if (std::isfinite(p.e) && std::isfinite(p.z)) {
    V3 d = dirHist(p.e, p.z);
    double el = std::asin(std::max(-1.0, std::min(1.0, d.z()))) / D2R, az = std::atan2(d.x(), d.y()) / D2R;
    double lo = -90 + res * i.y(), hi = lo + res, tol = 0.05;
    CHECK(el >= lo - tol && el <= hi + tol, "elevation " << el << " in row " << i.y() << " [" << lo << "," << hi << "]");
    if (std::fabs(el) < 89.9) CHECK(circ(az, -180 + res * (i.x() + 0.5)) <= res / 2.0 + tol, "azimuth " << az << " in column " << i.x());
  }
}

FACET(P01, wrapping, 60000, 600000, "pairs of angles over several turns; non-trivial when one lies outside one turn") {
  float a = angle(s), b = angle(s);
  pbt::nontrivial(std::fabs(a) > 180 || std::fabs(b) > 180);
  NOTE("a=" << a << " b=" << b);
  float w = wrapAngleToPlusMinus180(a);
  CHECK(w >= -180.0005f && w <= 180.0005f, "wrap180(" << a << ") = " << w);
  CHECK(circ(w, a) <= 0.002, "wrap180(" << a << ") = " << w << " is another angle");
  float ar = float(a * D2R), br = float(b * D2R), wr = wrapAngleToPlusMinusPI(ar);
  CHECK(wr >= -M_PI - 1e-5 && wr <= M_PI + 1e-5, "wrapPi(" << ar << ") = " << wr);
  CHECK(circ(wr / D2R, ar / D2R) <= 0.005, "wrapPi(" << ar << ") = " << wr << " is another angle");
  float df = angleDifference(a, b);
  CHECK(df >= -180.0005f && df <= 180.0005f && circ(df, double(a) - b) <= 0.003, "angleDifference(" << a << "," << b << ") = " << df);
  float a1 = wrapAngleToPlusMinus180(a), b1 = wrapAngleToPlusMinus180(b), id = indexAngleDifference(a1, b1);
  CHECK(std::fabs(id - circ(a1, b1)) <= 0.003, "indexAngleDifference(" << a1 << "," << b1 << ") = " << id);
  float cur = wrapAngleToPlusMinusPI(br);
  double v = getAngularVelocity(ar, cur);
  double want = wrap180(double(ar) / D2R - double(cur) / D2R) * D2R;
  CHECK(std::fabs(v) <= M_PI_2 + 1e-4, "angular velocity " << v << " is not the short way round");
  CHECK(std::fabs(v - 0.5 * want) <= 2e-4 || (std::fabs(std::fabs(want) - M_PI) < 1e-3 && std::fabs(std::fabs(v) - 0.5 * M_PI) < 1e-3),
        "angular velocity from " << cur << " to " << ar << " is " << v << ", half the shortest rotation is " << 0.5 * want);
  PolarPoint p(a, b, 1.f);
  V3 d = dirHist(a, b);
  wrapPolar(p);
  CHECK(p.e >= -90.001f && p.e <= 90.001f && p.z >= -180.001f && p.z <= 180.001f && p.r == 1.f, "wrapPolar gives e=" << p.e << " z=" << p.z);
  CHECK(angleBetween(d, dirHist(p.e, p.z)) <= 0.01, "wrapPolar(" << a << "," << b << ") gives another direction e=" << p.e << " z=" << p.z);
  PolarPoint x(s.sf(90.f), s.sf(180.f), 1.f), y(s.sf(90.f), s.sf(180.f), 2.f);
  CHECK(pbt::near(distance2DPolar(x, y), std::hypot(x.e - y.e, x.z - y.z), 1e-3), "angular distance of two polar points");
  CHECK(distance2DPolar(x, y) == distance2DPolar(y, x) && distance2DPolar(x, x) == 0.f, "angular distance is no distance");
}

FACET(P01, attitude, 30000, 300000, "random roll, pitch, yaw; non-trivial when all three are non-zero") {
  double roll = s.sd(1.4), pitch = s.sd(1.5), yaw = s.sd(M_PI);
  Eigen::Quaterniond q = Eigen::AngleAxisd(yaw, V3::UnitZ()) * Eigen::AngleAxisd(pitch, V3::UnitY()) * Eigen::AngleAxisd(roll, V3::UnitX());
  if (s.b()) q.coeffs() = -q.coeffs();
  pbt::nontrivial(roll != 0 && pitch != 0 && yaw != 0);
  NOTE("rpy " << roll << " " << pitch << " " << yaw);
  Eigen::Quaternionf f = q.cast<float>();
  CHECK(circ(getYawFromQuaternion(f), yaw / D2R) <= 0.2, "yaw " << getYawFromQuaternion(f) << " of " << yaw / D2R);
  CHECK(std::fabs(getPitchFromQuaternion(f) - pitch / D2R) <= 0.3, "pitch " << getPitchFromQuaternion(f) << " of " << pitch / D2R);
  Eigen::Quaterniond r = quaternionFromRPY(V3(roll, pitch, yaw));
  CHECK(r.angularDistance(q) <= 1e-6, "quaternionFromRPY");
  Eigen::Vector3f wp = pos3(s, 50), out;
  Eigen::Quaternionf oq;
  createPoseMsg(out, oq, wp, float(yaw));
  CHECK(out == wp, "the waypoint's position changed");
  CHECK(circ(getYawFromQuaternion(oq), yaw / D2R) <= 0.05 && std::fabs(getPitchFromQuaternion(oq)) < 0.05, "pose yaw " << getYawFromQuaternion(oq) << " of " << yaw / D2R);
}

// ------------------------------------------------------------------ P02
FACET(P02, frames, 40000, 400000, "random vectors, yaws, pitches and attitudes; non-trivial when the vector has three distinct non-zero components") {
  Eigen::Vector3f v = pos3(s, 100);
  pbt::nontrivial(v.x() != 0 && v.y() != 0 && v.z() != 0 && v.x() != v.y());
  NOTE("vector " << sv(v));
  Eigen::Vector3f n = toNED(v), e = toENU(v);
  CHECK(n == Eigen::Vector3f(v.y(), v.x(), -v.z()), "ENU (east,north,up) to NED (north,east,down) gives " << sv(n));
  CHECK(toENU(n) == v && toNED(e) == v, "NED/ENU conversion is not its own inverse");
  float yaw = s.sf(float(M_PI));
  // a vector pointing along the yaw keeps doing so
  Eigen::Vector3f along(std::cos(yaw), std::sin(yaw), 0.f), an = toNED(along);
  CHECK(circ(yawToNEDrad(yaw) / D2R, std::atan2(an.y(), an.x()) / D2R) < 0.01, "yaw to NED " << yawToNEDrad(yaw));
  CHECK(circ(yawToENUrad(yawToNEDrad(yaw)) / D2R, yaw / D2R) < 0.01, "yaw NED and back");
  CHECK(circ(yawToNEDdeg(float(yaw / D2R)), yawToNEDrad(yaw) / D2R) < 0.01 && circ(yawToENUdeg(float(yaw / D2R)), yawToENUrad(yaw) / D2R) < 0.01, "degrees and radians disagree");
  CHECK(pitchtoNED(yaw) == -yaw && pitchToENU(yaw) == -yaw, "pitch sign");
  Eigen::Quaterniond q = quaternionFromRPY(V3(s.sd(3), s.sd(1.5), s.sd(3)));
  Eigen::Quaterniond r = orientationToENU(orientationToNED(q));
  CHECK(r.angularDistance(q) < 1e-6, "attitude NED and back");
  // the body's forward axis, expressed in NED, is the forward axis expressed in ENU and converted
  V3 fwdE = q * V3::UnitX(), fwdN = orientationToNED(q) * V3::UnitX();
  CHECK((fwdN - V3(fwdE.y(), fwdE.x(), -fwdE.z())).norm() < 1e-6, "forward axis after the attitude conversion");
  V3 upE = q * V3::UnitZ(), dnN = orientationToNED(q) * V3::UnitZ();
  CHECK((dnN + V3(upE.y(), upE.x(), -upE.z())).norm() < 1e-6, "vertical axis after the attitude conversion");
  CHECK(toEigen(toPoint(v)) == v && toEigen(toVector3(v)) == v && toEigen(toXYZ(v)) == v, "message round trip");
  Eigen::Quaternionf qf = q.cast<float>(), qb = toEigen(toQuaternion(qf));
  CHECK(qb.coeffs() == qf.coeffs(), "quaternion message round trip");
  geometry_msgs::Twist t = toTwist(v, n);
  CHECK(toEigen(t.linear) == v && toEigen(t.angular) == n, "twist message");
  geometry_msgs::PoseStamped ps = toPoseStamped(v, qf);
  CHECK(toEigen(ps.pose.position) == v && toEigen(ps.pose.orientation).coeffs() == qf.coeffs(), "pose message");
  pcl::PointXYZI pi = toXYZI(v, 3.5f), pj = toXYZI(v.x(), v.y(), v.z(), 3.5f), pk = toXYZI(toXYZ(v), 3.5f);
  CHECK(toEigen(pi) == v && pi.intensity == 3.5f && toEigen(pj) == v && pj.intensity == 3.5f && toEigen(pk) == v && pk.intensity == 3.5f, "point with intensity");
}

static bool allNan(const mavros_msgs::PositionTarget& p) {
  return std::isnan(p.position.x) && std::isnan(p.position.y) && std::isnan(p.position.z) && std::isnan(p.velocity.x) && std::isnan(p.velocity.y) &&
         std::isnan(p.velocity.z) && std::isnan(p.acceleration_or_force.x) && std::isnan(p.acceleration_or_force.y) && std::isnan(p.acceleration_or_force.z) &&
         std::isnan(p.yaw) && std::isnan(p.yaw_rate);
}
FACET(P02, trajectory_message, 30000, 300000, "random setpoints, also with absent (NaN) parts, written over an arbitrary earlier message; non-trivial when the earlier message was a different kind") {
  shim::setNow(s.d(1, 1e6));
  mavros_msgs::Trajectory m;
  bool dirty = s.b();
  if (dirty) {
    m.type = 1; m.point_valid = {true, true, true, true, true}; m.time_horizon = {1, 2, 3, 4, 5};
    for (mavros_msgs::PositionTarget* p : {&m.point_1, &m.point_2, &m.point_3, &m.point_4, &m.point_5}) {
      p->position.x = p->velocity.y = p->acceleration_or_force.z = 7; p->yaw = 1; p->yaw_rate = 2;
    }
  }
  auto val = [&] { return s.b(1, 6) ? double(NAN) : s.sd(200); };
  geometry_msgs::PoseStamped p;
  p.pose.position.x = val(); p.pose.position.y = val(); p.pose.position.z = val();
  double yaw = s.sd(M_PI);
  p.pose.orientation.z = std::sin(yaw / 2); p.pose.orientation.w = std::cos(yaw / 2);
  geometry_msgs::Twist v;
  v.linear.x = val(); v.linear.y = val(); v.linear.z = val(); v.angular.z = val();
  pbt::nontrivial(dirty);
  NOTE("position " << p.pose.position.x << "," << p.pose.position.y << "," << p.pose.position.z << " yaw " << yaw << " velocity " << v.linear.x << "," << v.linear.y << "," << v.linear.z << " yaw rate " << v.angular.z);
  transformToTrajectory(m, p, v);
  auto eq = [](double a, double b) { return pbt::sameOrBothNan(a, b, 1e-4 * (1 + std::fabs(b))); };
  CHECK(m.type == 0, "type " << int(m.type));
  CHECK(m.header.stamp == ros::Time::now(), "stamp");
  CHECK(m.point_valid[0] && !m.point_valid[1] && !m.point_valid[2] && !m.point_valid[3] && !m.point_valid[4], "valid flags");
  CHECK(eq(m.point_1.position.x, p.pose.position.x) && eq(m.point_1.position.y, p.pose.position.y) && eq(m.point_1.position.z, p.pose.position.z), "position");
  CHECK(eq(m.point_1.velocity.x, v.linear.x) && eq(m.point_1.velocity.y, v.linear.y) && eq(m.point_1.velocity.z, v.linear.z), "velocity");
  CHECK(std::isnan(m.point_1.acceleration_or_force.x) && std::isnan(m.point_1.acceleration_or_force.y) && std::isnan(m.point_1.acceleration_or_force.z), "acceleration is not marked unused");
  CHECK(circ(m.point_1.yaw / D2R, yaw / D2R) < 0.01, "yaw " << m.point_1.yaw);
  CHECK(eq(m.point_1.yaw_rate, -v.angular.z), "yaw rate " << m.point_1.yaw_rate);
  CHECK(allNan(m.point_2) && allNan(m.point_3) && allNan(m.point_4) && allNan(m.point_5), "an unused point carries values");
  for (int i = 0; i < 5; ++i) CHECK(std::isnan(m.time_horizon[size_t(i)]), "time horizon " << i);
}
FACET(P02, bezier_message, 20000, 200000, "five random control points and a duration; non-trivial always (all points differ)") {
  shim::setNow(s.d(1, 1e6));
  mavros_msgs::Trajectory m;
  std::array<Eigen::Vector4d, 5> c;
  for (auto& k : c) k = Eigen::Vector4d(s.sd(100), s.sd(100), s.sd(50), s.sd(3));
  double dur = s.d(0, 30);
  pbt::nontrivial();
  NOTE("first control point " << c[0].transpose() << " duration " << dur);
  transformToBezier(m, c, dur);
  CHECK(m.type == 1, "type " << int(m.type));
  const mavros_msgs::PositionTarget* p[5] = {&m.point_1, &m.point_2, &m.point_3, &m.point_4, &m.point_5};
  for (size_t i = 0; i < 5; ++i) {
    CHECK(m.point_valid[i], "point " << i << " not valid");
    CHECK(pbt::near(p[i]->position.x, c[i][1], 1e-4) && pbt::near(p[i]->position.y, c[i][0], 1e-4) && pbt::near(p[i]->position.z, -c[i][2], 1e-4), "control point " << i);
    CHECK(circ(p[i]->yaw / D2R, 90 - c[i][3] / D2R) < 0.01, "yaw of control point " << i << " is " << p[i]->yaw);
  }
  for (size_t i = 0; i < 4; ++i) CHECK(std::isnan(m.time_horizon[i]), "time horizon " << i);
  CHECK(pbt::near(m.time_horizon[4], dur, 1e-4), "duration " << m.time_horizon[4]);
}

// ------------------------------------------------------------------ P03
namespace {
std::vector<FOV> cameras(pbt::Src& s) {
  std::vector<FOV> v;
  int n = s.i(1, 4);
  for (int k = 0; k < n; ++k) {
    float yaw = s.b(1, 3) ? float(s.pick(std::vector<int>{0, 90, -90, 180, -180, 120, -150, 175})) : s.sf(180.f);
    float h = s.b(1, 6) ? float(s.pick(std::vector<int>{180, 360, 60})) : s.f(1.f, s.b(1, 4) ? 359.f : 120.f);
    v.push_back(FOV(yaw, s.sf(60.f), h, s.f(1.f, 120.f)));
  }
  return v;
}
std::string fovs(const std::vector<FOV>& v) {
  std::string o;
  for (auto& f : v) o += "[yaw " + pbt::str(f.yaw_deg) + " pitch " + pbt::str(f.pitch_deg) + " h " + pbt::str(f.h_fov_deg) + " v " + pbt::str(f.v_fov_deg) + "]";
  return o;
}
const double kMargin = 0.02;
// 1 inside, 0 outside, -1 too close to the border to say
int inYaw(const FOV& f, double z) { double m = f.h_fov_deg / 2.0 - circ(z, f.yaw_deg); return m > kMargin ? 1 : (m < -kMargin ? 0 : -1); }
int inPitch(const FOV& f, double e) { double m = f.v_fov_deg / 2.0 - std::fabs(e - f.pitch_deg); return m > kMargin ? 1 : (m < -kMargin ? 0 : -1); }
int both(int a, int b) { return a == 0 || b == 0 ? 0 : (a == 1 && b == 1 ? 1 : -1); }
int any(const std::vector<int>& v) { int r = 0; for (int x : v) { if (x == 1) return 1; if (x == -1) r = -1; } return r; }
float bearing(pbt::Src& s, const std::vector<FOV>& v) {  // biased to the cameras' borders
  if (s.b(1, 2)) return s.sf(180.f);
  const FOV& f = v[s.raw(v.size())];
  float z = f.yaw_deg + (s.b() ? 1.f : -1.f) * f.h_fov_deg / 2.f + s.sf(8.f);
  return float(wrap180(z));
}
bool straddles(const std::vector<FOV>& v) { for (auto& f : v) if (std::fabs(f.yaw_deg) + f.h_fov_deg / 2 >= 180) return true; return false; }
}  // namespace
FACET(P03, membership, 60000, 600000, "1-4 cameras of any yaw and width, a direction biased to their borders; non-trivial when a camera looks across the rear (+-180 deg) or cameras overlap") {
  std::vector<FOV> v = cameras(s);
  PolarPoint p(s.sf(90.f), bearing(s, v), s.f(0.f, 20.f));
  NOTE(fovs(v) << " direction e=" << p.e << " z=" << p.z);
  std::vector<int> yw, full;
  for (auto& f : v) {
    int y = inYaw(f, p.z), a = both(y, inPitch(f, p.e));
    yw.push_back(y); full.push_back(a);
    if (y >= 0) CHECK(pointInsideYawFOV(f, p) == (y == 1), "azimuth " << p.z << (y ? " is inside" : " is outside") << " the camera " << fovs({f}));
    if (a >= 0) CHECK(pointInsideFOV(f, p) == (a == 1), "direction e=" << p.e << " z=" << p.z << (a ? " is inside" : " is outside") << " the camera " << fovs({f}));
  }
  int ones = 0, unk = 0;
  for (int y : yw) { ones += y == 1; unk += y == -1; }
  pbt::nontrivial(straddles(v) || ones > 1);
  if (straddles(v)) pbt::label("rear-facing");
  if (any(yw) >= 0) CHECK(pointInsideYawFOV(v, p) == (any(yw) == 1), "azimuth " << p.z << " in any of " << fovs(v));
  if (any(full) >= 0) CHECK(pointInsideFOV(v, p) == (any(full) == 1), "direction in any of " << fovs(v));
  int idx = 99;
  bool w = isInWhichFOV(v, p, idx);
  CHECK(w == (idx >= 0) && idx >= -1 && idx < int(v.size()), "camera index " << idx << " with result " << w);
  if (unk == 0) {
    CHECK(w == (ones == 1), "azimuth " << p.z << " is seen by " << ones << " cameras, exactly-one says " << w);
    if (w) CHECK(yw[size_t(idx)] == 1, "camera " << idx << " does not see azimuth " << p.z);
  } else if (w) CHECK(yw[size_t(idx)] != 0, "camera " << idx << " does not see azimuth " << p.z);
}
FACET(P03, edge_scale, 60000, 600000, "as membership; non-trivial when the direction is seen by exactly one camera") {
  std::vector<FOV> v = cameras(s);
  PolarPoint p(0.f, bearing(s, v), 1.f);
  NOTE(fovs(v) << " azimuth " << p.z);
  float sc = scaleToFOV(v, p);
  CHECK(sc >= -1e-5f && sc <= 1.00001f, "scale " << sc);
  int ones = 0, unk = 0, cam = -1;
  for (size_t k = 0; k < v.size(); ++k) { int y = inYaw(v[k], p.z); ones += y == 1; unk += y == -1; if (y == 1) cam = int(k); }
  if (unk) return;
  pbt::nontrivial(ones == 1);
  int idx = 99;
  bool edge = isOnEdgeOfFOV(v, p, idx);
  CHECK(edge == (idx >= 0) && idx < int(v.size()), "index " << idx << " with result " << edge);
  if (ones == 0) { CHECK(sc == 0.f && !edge, "azimuth " << p.z << " is not seen; scale " << sc << " edge " << edge); return; }
  if (ones > 1) { CHECK(sc == 1.f && !edge, "azimuth " << p.z << " is seen by several cameras; scale " << sc << " edge " << edge); return; }
  const FOV& f = v[size_t(cam)];
  double off = wrap180(p.z - f.yaw_deg);
  if (std::fabs(off) < kMargin || std::fabs(off) > 180 - kMargin) return;
  double beyond = f.yaw_deg + (off > 0 ? 1 : -1) * (f.h_fov_deg / 2.0 + ALPHA_RES / 2.0);
  std::vector<int> b;
  for (auto& g : v) b.push_back(inYaw(g, beyond));
  int seenBeyond = any(b);
  if (seenBeyond < 0) return;
  pbt::label(seenBeyond ? "inner border" : "outer border");
  CHECK(edge == (seenBeyond == 0), "azimuth " << p.z << ": half a cell beyond the camera's border " << (seenBeyond ? "another camera sees" : "nothing is seen") << ", edge says " << edge);
  double want = seenBeyond ? 1.0 : 1.0 - 2.0 * std::min(std::fabs(off), f.h_fov_deg / 2.0) / f.h_fov_deg;
  if (!seenBeyond) CHECK(idx == cam, "edge of camera " << idx << ", expected " << cam);
  CHECK(std::fabs(sc - want) <= 2e-3, "azimuth " << p.z << " scale " << sc << " expected " << want);
}
FACET(P03, histogram_column, 40000, 400000, "cameras, vehicle position and yaw, a histogram column; non-trivial when the column is at least partly seen") {
  std::vector<FOV> v = cameras(s);
  Eigen::Vector3f pos = pos3(s, 100);
  float yaw = s.sf(180.f);
  int idx = s.i(0, GRID_LENGTH_Z - 1);
  // the column's centre, clockwise from +y, as a body-frame counter-clockwise bearing
  double az = 90.0 - (-180.0 + ALPHA_RES * (idx + 0.5)) - yaw, el = -(-90.0 + ALPHA_RES * (GRID_LENGTH_E / 2 + 0.5));
  NOTE(fovs(v) << " column " << idx << " vehicle yaw " << yaw);
  std::vector<int> all;
  for (auto& f : v) {
    auto in = [&](double z) {
      double m = f.h_fov_deg / 2.0 - circ(z, f.yaw_deg), mp = f.v_fov_deg / 2.0 - std::fabs(el - f.pitch_deg), t = 0.1;
      int a = m > t ? 1 : (m < -t ? 0 : -1), b = mp > t ? 1 : (mp < -t ? 0 : -1);
      return both(a, b);
    };
    int r = any({in(az + ALPHA_RES / 2.0), in(az - ALPHA_RES / 2.0)});
    all.push_back(r);
    if (r >= 0) CHECK(histogramIndexYawInsideFOV(f, idx, pos, yaw) == (r == 1), "column " << idx << " (bearing " << wrap180(az) << ") and camera " << fovs({f}));
  }
  int r = any(all);
  pbt::nontrivial(r == 1);
  if (r >= 0) CHECK(histogramIndexYawInsideFOV(v, idx, pos, yaw) == (r == 1), "column " << idx << " (bearing " << wrap180(az) << ") and cameras");
}

// ------------------------------------------------------------------ P04
FACET(P04, container, 20000, 200000, "histories of set/get/upsample/downsample/clear against a two-dimensional model; non-trivial when the resolution changed and values were set") {
  bool full = s.b();
  int res = full ? ALPHA_RES : 2 * ALPHA_RES;
  Histogram h(res);
  std::vector<std::vector<double>> m(size_t(180 / res), std::vector<double>(size_t(360 / res), 0.0));
  int n = s.i(1, 25), changes = 0, sets = 0;
  std::string trace;
  auto compare = [&] {
    for (size_t e = 0; e < m.size(); ++e) for (size_t z = 0; z < m[e].size(); ++z)
      CHECK(std::fabs(h.get_dist(int(e), int(z)) - m[e][z]) <= 1e-4 * (1 + m[e][z]), "cell (" << e << "," << z << ") is " << h.get_dist(int(e), int(z)) << ", model " << m[e][z] << " after" << trace);
    bool empty = true;
    for (auto& r : m) for (double x : r) if (x > FLT_MIN) empty = false;
    CHECK(h.isEmpty() == empty, "isEmpty " << h.isEmpty() << " after" << trace);
  };
  for (int k = 0; k < n; ++k) {
    int E = int(m.size()), Z = int(m[0].size());
    switch (s.w({8, 3, 1, 1, 1})) {
      case 0: {
        int e = s.i(0, E - 1), z = s.i(0, Z - 1);
        float v = s.b(1, 6) ? 0.f : s.f(0.01f, 20.f);
        h.set_dist(e, z, v); m[size_t(e)][size_t(z)] = v; ++sets;
        trace += " set(" + pbt::str(e) + "," + pbt::str(z) + "," + pbt::str(v) + ")";
        break;
      }
      case 1: {
        int e = s.si(4 * E), z = s.si(4 * Z);
        int we = ((e % E) + E) % E, wz = ((z % Z) + Z) % Z;
        CHECK(h.get_dist(e, z) == h.get_dist(we, wz), "index (" << e << "," << z << ") does not wrap to (" << we << "," << wz << ")");
        break;
      }
      case 2: {
        bool threw = false;
        try { h.upsample(); } catch (const std::logic_error&) { threw = true; }
        CHECK(threw == full, "upsampling " << (full ? "a full" : "a half") << " resolution histogram " << (threw ? "threw" : "did not throw"));
        if (!full) {
          std::vector<std::vector<double>> u(m.size() * 2, std::vector<double>(m[0].size() * 2));
          for (size_t e = 0; e < u.size(); ++e) for (size_t z = 0; z < u[e].size(); ++z) u[e][z] = m[e / 2][z / 2];
          m = u; full = true; ++changes;
        }
        trace += " up";
        break;
      }
      case 3: {
        bool threw = false;
        try { h.downsample(); } catch (const std::logic_error&) { threw = true; }
        CHECK(threw == !full, "downsampling " << (full ? "a full" : "a half") << " resolution histogram " << (threw ? "threw" : "did not throw"));
        if (full) {
          std::vector<std::vector<double>> u(m.size() / 2, std::vector<double>(m[0].size() / 2));
          for (size_t e = 0; e < u.size(); ++e) for (size_t z = 0; z < u[e].size(); ++z)
            u[e][z] = (m[2 * e][2 * z] + m[2 * e + 1][2 * z] + m[2 * e][2 * z + 1] + m[2 * e + 1][2 * z + 1]) / 4;
          m = u; full = false; ++changes;
        }
        trace += " down";
        break;
      }
      default:
        h.setZero(); for (auto& r : m) for (double& x : r) x = 0; trace += " clear";
    }
    if (k % 4 == 0) compare();
  }
  NOTE("start res " << res << ":" << trace);
  pbt::nontrivial(changes > 0 && sets > 0);
  compare();
  // copies are independent
  Histogram c(h);
  c.set_dist(0, 0, 77.f);
  compare();
}

// ------------------------------------------------------------------ P05
namespace {
enum class St { A, B, C, D, E, ERR };
struct Machine : usm::StateMachine<St> {
  explicit Machine(St st) : usm::StateMachine<St>(st) {}
  usm::Transition next = usm::Transition::REPEAT;
  int runs = 0, choices = 0;
  St seen = St::ERR;
  std::map<std::pair<int, int>, int> table;
  usm::Transition runCurrentState() override { ++runs; seen = getState(); return next; }
  St chooseNextState(St c, usm::Transition t) override { ++choices; auto i = table.find(std::make_pair(int(c), int(t))); return i == table.end() ? St::ERR : St(i->second); }
};
struct TableMachine : Machine {
  explicit TableMachine(St st) : Machine(st) {}
  St chooseNextState(St c, usm::Transition t) override {
    using usm::Transition;
    ++choices;
    // clang-format off
    USM_TABLE(c, St::ERR,
      USM_STATE(t, St::A, USM_MAP(Transition::NEXT1, St::B); USM_MAP(Transition::NEXT2, St::C); USM_MAP(Transition::ERROR, St::D));
      USM_STATE(t, St::B, USM_MAP(Transition::NEXT1, St::A); USM_MAP(Transition::NEXT3, St::E));
      USM_STATE(t, St::C, USM_MAP(Transition::NEXT4, St::C));
      USM_STATE(t, St::D, USM_MAP(Transition::NEXT2, St::A); USM_MAP(Transition::NEXT1, St::E)));
    // clang-format on
  }
};
}  // namespace
FACET(P05, random_tables, 30000, 300000, "a random transition table and a random history of transitions; non-trivial when both mapped and unmapped transitions happen") {
  Machine m{St(s.i(0, 5))};
  int e = s.i(0, 14);
  for (int k = 0; k < e; ++k) m.table[std::make_pair(s.i(0, 5), s.i(1, 5))] = s.i(0, 5);
  St want = m.getState();
  int n = s.i(1, 40), mapped = 0, unmapped = 0, choices = 0;
  std::string tr;
  for (int k = 0; k < n; ++k) {
    int t = s.i(0, 5);
    m.next = usm::Transition(t);
    tr += " " + pbt::str(t);
    m.iterateOnce();
    CHECK(m.runs == k + 1, "the state ran " << m.runs << " times in " << k + 1 << " steps");
    CHECK(m.seen == want, "the state that ran is " << int(m.seen) << ", expected " << int(want));
    if (t != int(usm::Transition::REPEAT)) {
      ++choices;
      auto i = m.table.find(std::make_pair(int(want), t));
      if (i == m.table.end()) { want = St::ERR; ++unmapped; } else { want = St(i->second); ++mapped; }
    }
    CHECK(m.getState() == want, "state " << int(m.getState()) << " expected " << int(want) << " after" << tr);
    CHECK(m.choices == choices, "the table was consulted " << m.choices << " times, expected " << choices);
  }
  NOTE("table of " << m.table.size() << ", transitions" << tr);
  pbt::nontrivial(mapped > 0 && unmapped > 0);
}
FACET(P05, table_macros, 10000, 100000, "a table written with the library's macros, random start and history; non-trivial when a mapped transition happens") {
  static const int T[5][6] = {{0, 1, 2, 5, 5, 3}, {1, 0, 5, 4, 5, 5}, {2, 5, 5, 5, 2, 5}, {3, 4, 0, 5, 5, 5}, {4, 5, 5, 5, 5, 5}};
  int want = s.i(0, 4);
  TableMachine m{St(want)};
  int n = s.i(1, 20);
  std::string tr;
  bool mapped = false;
  for (int k = 0; k < n; ++k) {
    int t = s.i(0, 5);
    m.next = usm::Transition(t);
    tr += " " + pbt::str(t);
    m.iterateOnce();
    if (t) { want = want == 5 ? 5 : T[want][t]; mapped = mapped || want != 5; }
    CHECK(int(m.getState()) == want, "state " << int(m.getState()) << " expected " << want << " after" << tr);
  }
  NOTE("transitions" << tr);
  pbt::nontrivial(mapped);
}

// ------------------------------------------------------------------ P06
namespace {
struct Entry { int64_t t; V3 p; Eigen::Quaterniond q; };
ros::Time at(int64_t ns) { ros::Time t; t.fromNSec(uint64_t(ns)); return t; }
tf::StampedTransform toTf(const Entry& e, const std::string& a, const std::string& b) {
  tf::Transform t(tf::Quaternion(e.q.x(), e.q.y(), e.q.z(), e.q.w()), tf::Vector3(e.p.x(), e.p.y(), e.p.z()));
  return tf::StampedTransform(t, at(e.t), a, b);
}
}  // namespace
FACET(P06, history, 25000, 250000, "histories of insertions (also stale, duplicate, out of order, several frame pairs) and queries; non-trivial when a query falls between two buffered transforms after others were dropped") {
  const int64_t U = 125000000;  // 1/8 s
  shim::setNow(1000.0);
  double size = 0.0625 + 0.125 * s.i(1, 40);
  tf_buffer::TransformBuffer buf(static_cast<float>(size));
  const std::vector<std::string> frames = {"camera", "fcu", "local_origin"};
  std::map<std::pair<std::string, std::string>, std::deque<Entry>> model;
  std::map<std::pair<std::string, std::string>, int> dropped;
  int n = s.i(2, 50);
  int64_t clock = 8000;
  bool hit = false;
  std::string tr;
  for (int k = 0; k < n; ++k) {
    std::string a = frames[size_t(s.i(0, 1))], b = frames[size_t(s.i(1, 2))];
    auto key = std::make_pair(a, b);
    auto& dq = model[key];
    if (s.b(3, 5)) {
      clock += s.i(0, 6);
      Entry e;
      e.t = (clock - (s.b(1, 5) ? s.i(0, 10) : 0)) * U;
      e.p = V3(s.sd(20), s.sd(20), s.sd(20));
      e.q = quaternionFromRPY(V3(s.sd(3), s.sd(1.5), s.sd(3)));
      if (s.b(1, 4)) e.q.coeffs() = -e.q.coeffs();
      bool ok = buf.insertTransform(a, b, toTf(e, a, b));
      bool want = dq.empty() || dq.back().t < e.t;
      tr += " insert(" + a + ">" + b + "@" + pbt::str(e.t / U) + ")";
      CHECK(ok == want, "insertion returned " << ok << tr);
      if (want) {
        dq.push_back(e);
        while (double(e.t - dq.front().t) * 1e-9 > size) { dq.pop_front(); dropped[key]++; }
      }
    } else {
      int64_t t = s.b() || dq.empty() ? (clock - s.i(0, 60)) * U + s.i(0, 3) * U / 4 : (s.b() ? dq[s.raw(dq.size())].t : dq.back().t + U * s.si(2));
      tf::StampedTransform out;
      out.setOrigin(tf::Vector3(-777, 0, 0));
      bool ok = buf.getTransform(a, b, at(t), out);
      tr += " get(" + a + ">" + b + "@" + pbt::str(double(t) / U) + ")";
      bool within = !dq.empty() && dq.front().t <= t && t <= dq.back().t;
      if (!within) { CHECK(!ok, "a transform outside the buffered time span was returned:" << tr); continue; }
      if (dq.size() == 1) { if (!ok) continue; }
      CHECK(ok, "no transform although buffered ones surround the requested time:" << tr);
      CHECK(out.stamp_ == at(t), "the returned transform is not stamped with the requested time");
      size_t j = 0;
      while (j + 1 < dq.size() && dq[j + 1].t <= t) ++j;
      V3 p = dq[j].p; Eigen::Quaterniond q = dq[j].q;
      if (t > dq[j].t) {
        double tau = double(t - dq[j].t) / double(dq[j + 1].t - dq[j].t);
        p = (1 - tau) * dq[j].p + tau * dq[j + 1].p;
        q = dq[j].q.slerp(tau, dq[j + 1].q);
        hit = hit || dropped[key] > 0;
        if (dq[j].q.angularDistance(dq[j + 1].q) > 3.1) continue;  // half turn: the rotation's way is not determined
      }
      V3 gp(out.getOrigin().x(), out.getOrigin().y(), out.getOrigin().z());
      tf::Quaternion tq = out.getRotation();
      Eigen::Quaterniond gq(tq.w(), tq.x(), tq.y(), tq.z());
      CHECK((gp - p).norm() <= 1e-3, "translation " << gp.transpose() << " expected " << p.transpose() << ":" << tr);
      CHECK(gq.angularDistance(q) <= 2e-3, "rotation is off by " << gq.angularDistance(q) << " rad:" << tr);
    }
  }
  NOTE("buffer " << size << " s:" << tr);
  pbt::nontrivial(hit);
}

// ------------------------------------------------------------------ P09
FACET(P09, nan_filter, 40000, 400000, "organised clouds of 0-60 points with NaN/inf points anywhere; non-trivial when some but not all points are invalid") {
  pcl::PointCloud<pcl::PointXYZ> c;
  c.header.frame_id = "camera_link";
  int n = s.i(0, 60), bad = 0;
  float m = s.b(1, 5) ? 3000.f : 20.f;
  std::vector<Eigen::Vector3f> good;
  for (int k = 0; k < n; ++k) {
    Eigen::Vector3f p = s.b(1, 5) ? Eigen::Vector3f(float(s.si(3)), float(s.si(3)), float(s.si(3))) : pos3(s, m);
    if (s.b(1, 4)) { p[int(s.raw(3))] = s.b() ? NAN : (s.b() ? INFINITY : -INFINITY); ++bad; } else good.push_back(p);
    c.push_back(pcl::PointXYZ(p.x(), p.y(), p.z()));
  }
  c.is_dense = false;
  NOTE(n << " points, " << bad << " invalid");
  pbt::nontrivial(bad > 0 && bad < n);
  pcl::PointCloud<pcl::PointXYZ> mx = removeNaNAndGetMaxima(c);
  CHECK(c.points.size() == good.size(), c.points.size() << " points left of " << n << ", " << good.size() << " are valid");
  CHECK(c.width * c.height == good.size() && c.is_dense, "width " << c.width << " height " << c.height << " of " << good.size() << " points");
  for (size_t k = 0; k < good.size(); ++k) CHECK(toEigen(c.points[k]) == good[k], "point " << k << " changed to " << sv(toEigen(c.points[k])));
  if (good.empty()) { CHECK(mx.points.empty(), "extremes of an empty cloud"); return; }
  CHECK(mx.header.frame_id == "camera_link", "frame of the extremes is " << mx.header.frame_id);
  CHECK(mx.points.size() == 6, mx.points.size() << " extreme points");
  for (auto& p : mx.points) { bool in = false; for (auto& g : good) in = in || toEigen(p) == g; CHECK(in, "extreme point " << sv(toEigen(p)) << " is not in the cloud"); }
  for (int a = 0; a < 3; ++a) {
    float lo = INFINITY, hi = -INFINITY, glo = INFINITY, ghi = -INFINITY;
    for (auto& g : good) { lo = std::min(lo, g[a]); hi = std::max(hi, g[a]); }
    for (auto& p : mx.points) { glo = std::min(glo, toEigen(p)[a]); ghi = std::max(ghi, toEigen(p)[a]); }
    CHECK(lo == glo && hi == ghi, "axis " << a << " spans [" << lo << "," << hi << "], the extremes span [" << glo << "," << ghi << "]");
  }
}
FACET(P09, fov_growth, 40000, 400000, "a sequence of point sets seen by one camera (any yaw, also rear-facing, spans under 170 deg); non-trivial when a later set is wider, or the camera looks across the rear") {
  FOV f;
  double cam = s.b(1, 3) ? s.pick(std::vector<int>{0, 90, 180, -90, 170, -135}) : s.sd(180), pit = s.sd(30);
  int n = s.i(1, 4);
  double H = 0, V = 0, yaw = 0, pitch = 0;
  bool grew = false, rear = false;
  std::string tr;
  for (int k = 0; k < n; ++k) {
    pcl::PointCloud<pcl::PointXYZ> c;
    int m = s.i(0, 7);
    double hw = s.d(0, 84), vw = s.d(0, 35);
    double zlo = 1e9, zhi = -1e9, elo = 1e9, ehi = -1e9;
    for (int j = 0; j < m; ++j) {
      double z = s.sd(hw), e = pit + s.sd(vw), r = s.d(0.5, 15);
      V3 d = r * dirFCU(e, cam + z);
      c.push_back(pcl::PointXYZ(float(d.x()), float(d.y()), float(d.z())));
      zlo = std::min(zlo, z); zhi = std::max(zhi, z); elo = std::min(elo, e); ehi = std::max(ehi, e);
    }
    tr += " {" + pbt::str(m) + " points, azimuth " + pbt::str(cam) + "+[" + pbt::str(zlo) + "," + pbt::str(zhi) + "] pitch [" + pbt::str(elo) + "," + pbt::str(ehi) + "]}";
    FOV before = f;
    updateFOVFromMaxima(f, c);
    CHECK(f.h_fov_deg >= before.h_fov_deg && f.v_fov_deg >= before.v_fov_deg, "the field of view shrank:" << tr);
    if (m) {
      if (zhi - zlo > H + 0.01) { grew = grew || H > 0; H = zhi - zlo; yaw = cam + (zhi + zlo) / 2; rear = rear || std::fabs(wrap180(cam)) + hw > 180; }
      else if (zhi - zlo > H - 0.01) return;  // too close to call
      if (ehi - elo > V + 0.01) { V = ehi - elo; pitch = (ehi + elo) / 2; } else if (ehi - elo > V - 0.01) return;
    }
    CHECK(std::fabs(f.h_fov_deg - H) <= 0.05 && std::fabs(f.v_fov_deg - V) <= 0.05, "field of view is " << f.h_fov_deg << " x " << f.v_fov_deg << " deg, the widest set spans " << H << " x " << V << ":" << tr);
    if (H > 0) CHECK(circ(f.yaw_deg, yaw) <= 0.05 && f.yaw_deg >= -180.01f && f.yaw_deg <= 180.01f, "field of view is centred at " << f.yaw_deg << ", expected " << wrap180(yaw) << ":" << tr);
    if (V > 0) CHECK(std::fabs(f.pitch_deg - pitch) <= 0.05, "field of view is centred at pitch " << f.pitch_deg << ", expected " << pitch << ":" << tr);
  }
  NOTE(tr);
  pbt::nontrivial(grew || rear);
}
