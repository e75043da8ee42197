// Stand-in for tf (bullet-derived linear maths + a table-driven TransformListener).
#pragma once
#include <ros/ros.h>
#include <geometry_msgs/PointStamped.h>
#include <geometry_msgs/PoseStamped.h>
#include <geometry_msgs/QuaternionStamped.h>
#include <geometry_msgs/TransformStamped.h>
#include <geometry_msgs/TwistStamped.h>
#include <geometry_msgs/Vector3Stamped.h>
typedef double tfScalar;
namespace tf {
inline tfScalar tfAcos(tfScalar x) { if (x < -1) x = -1; if (x > 1) x = 1; return acos(x); }
class Vector3 {
 public:
  tfScalar m_floats[4];
  Vector3() { m_floats[0] = m_floats[1] = m_floats[2] = m_floats[3] = 0; }
  Vector3(tfScalar x, tfScalar y, tfScalar z) { setValue(x, y, z); }
  void setValue(tfScalar x, tfScalar y, tfScalar z) { m_floats[0] = x; m_floats[1] = y; m_floats[2] = z; m_floats[3] = 0; }
  tfScalar dot(const Vector3& v) const { return m_floats[0] * v.m_floats[0] + m_floats[1] * v.m_floats[1] + m_floats[2] * v.m_floats[2]; }
  Vector3 cross(const Vector3& v) const {
    return Vector3(m_floats[1] * v.m_floats[2] - m_floats[2] * v.m_floats[1], m_floats[2] * v.m_floats[0] - m_floats[0] * v.m_floats[2],
                   m_floats[0] * v.m_floats[1] - m_floats[1] * v.m_floats[0]);
  }
  tfScalar length2() const { return dot(*this); }
  tfScalar length() const { return sqrt(length2()); }
  tfScalar distance2(const Vector3& v) const { return (v - *this).length2(); }
  tfScalar distance(const Vector3& v) const { return (v - *this).length(); }
  Vector3& normalize() { return *this *= 1.0 / length(); }
  Vector3 normalized() const { return *this * (1.0 / length()); }
  tfScalar angle(const Vector3& v) const { tfScalar s = sqrt(length2() * v.length2()); return tfAcos(dot(v) / s); }
  Vector3 absolute() const { return Vector3(fabs(x()), fabs(y()), fabs(z())); }
  Vector3 lerp(const Vector3& v, tfScalar t) const { return Vector3(x() + (v.x() - x()) * t, y() + (v.y() - y()) * t, z() + (v.z() - z()) * t); }
  bool isZero() const { return x() == 0 && y() == 0 && z() == 0; }
  void setZero() { setValue(0, 0, 0); }
  const tfScalar& x() const { return m_floats[0]; }
  const tfScalar& y() const { return m_floats[1]; }
  const tfScalar& z() const { return m_floats[2]; }
  const tfScalar& getX() const { return m_floats[0]; }
  const tfScalar& getY() const { return m_floats[1]; }
  const tfScalar& getZ() const { return m_floats[2]; }
  void setX(tfScalar v) { m_floats[0] = v; }
  void setY(tfScalar v) { m_floats[1] = v; }
  void setZ(tfScalar v) { m_floats[2] = v; }
  operator tfScalar*() { return m_floats; }
  operator const tfScalar*() const { return m_floats; }
  Vector3& operator+=(const Vector3& v) { for (int i = 0; i < 3; ++i) m_floats[i] += v.m_floats[i]; return *this; }
  Vector3& operator-=(const Vector3& v) { for (int i = 0; i < 3; ++i) m_floats[i] -= v.m_floats[i]; return *this; }
  Vector3& operator*=(tfScalar s) { for (int i = 0; i < 3; ++i) m_floats[i] *= s; return *this; }
  Vector3& operator/=(tfScalar s) { return *this *= 1.0 / s; }
  bool operator==(const Vector3& v) const { return x() == v.x() && y() == v.y() && z() == v.z(); }
  bool operator!=(const Vector3& v) const { return !(*this == v); }
  friend Vector3 operator+(Vector3 a, const Vector3& b) { return a += b; }
  friend Vector3 operator-(Vector3 a, const Vector3& b) { return a -= b; }
  friend Vector3 operator-(const Vector3& a) { return Vector3(-a.x(), -a.y(), -a.z()); }
  friend Vector3 operator*(Vector3 a, tfScalar s) { return a *= s; }
  friend Vector3 operator*(tfScalar s, Vector3 a) { return a *= s; }
  friend Vector3 operator/(Vector3 a, tfScalar s) { return a /= s; }
};
typedef Vector3 Point;
class Quaternion {
 public:
  tfScalar m_floats[4];
  Quaternion() { m_floats[0] = m_floats[1] = m_floats[2] = 0; m_floats[3] = 0; }
  Quaternion(tfScalar x, tfScalar y, tfScalar z, tfScalar w) { setValue(x, y, z, w); }
  Quaternion(const Vector3& axis, tfScalar angle) { setRotation(axis, angle); }
  Quaternion(tfScalar yaw, tfScalar pitch, tfScalar roll) { setEuler(yaw, pitch, roll); }
  void setValue(tfScalar x, tfScalar y, tfScalar z, tfScalar w) { m_floats[0] = x; m_floats[1] = y; m_floats[2] = z; m_floats[3] = w; }
  void setRotation(const Vector3& axis, tfScalar angle) { tfScalar s = sin(angle * 0.5) / axis.length(); setValue(axis.x() * s, axis.y() * s, axis.z() * s, cos(angle * 0.5)); }
  void setEuler(tfScalar yaw, tfScalar pitch, tfScalar roll) {
    tfScalar cy = cos(yaw / 2), sy = sin(yaw / 2), cp = cos(pitch / 2), sp = sin(pitch / 2), cr = cos(roll / 2), sr = sin(roll / 2);
    setValue(cr * sp * cy + sr * cp * sy, cr * cp * sy - sr * sp * cy, sr * cp * cy - cr * sp * sy, cr * cp * cy + sr * sp * sy);
  }
  void setRPY(tfScalar roll, tfScalar pitch, tfScalar yaw) {
    tfScalar cy = cos(yaw / 2), sy = sin(yaw / 2), cp = cos(pitch / 2), sp = sin(pitch / 2), cr = cos(roll / 2), sr = sin(roll / 2);
    setValue(sr * cp * cy - cr * sp * sy, cr * sp * cy + sr * cp * sy, cr * cp * sy - sr * sp * cy, cr * cp * cy + sr * sp * sy);
  }
  void setEulerZYX(tfScalar yaw, tfScalar pitch, tfScalar roll) { setRPY(roll, pitch, yaw); }
  tfScalar dot(const Quaternion& q) const { return x() * q.x() + y() * q.y() + z() * q.z() + w() * q.w(); }
  tfScalar length2() const { return dot(*this); }
  tfScalar length() const { return sqrt(length2()); }
  Quaternion& normalize() { return *this /= length(); }
  Quaternion normalized() const { return *this / length(); }
  tfScalar angle(const Quaternion& q) const { tfScalar s = sqrt(length2() * q.length2()); return tfAcos(dot(q) / s); }
  tfScalar angleShortestPath(const Quaternion& q) const {
    tfScalar s = sqrt(length2() * q.length2());
    return (dot(q) < 0 ? tfAcos(dot(-q) / s) : tfAcos(dot(q) / s)) * 2.0;
  }
  tfScalar getAngle() const { return 2.0 * tfAcos(w()); }
  tfScalar getAngleShortestPath() const { return 2.0 * tfAcos(fabs(w())); }
  Vector3 getAxis() const { tfScalar s2 = 1 - w() * w(); if (s2 < 10 * 2.2e-16) return Vector3(1, 0, 0); tfScalar s = sqrt(s2); return Vector3(x() / s, y() / s, z() / s); }
  Quaternion inverse() const { return Quaternion(-x(), -y(), -z(), w()); }
  Quaternion slerp(const Quaternion& q, tfScalar t) const {
    tfScalar theta = angleShortestPath(q) / 2.0;
    if (theta != 0.0) {
      tfScalar d = 1.0 / sin(theta), s0 = sin((1.0 - t) * theta), s1 = sin(t * theta);
      if (dot(q) < 0) s1 = -s1;
      return Quaternion((x() * s0 + q.x() * s1) * d, (y() * s0 + q.y() * s1) * d, (z() * s0 + q.z() * s1) * d, (w() * s0 + q.w() * s1) * d);
    }
    return *this;
  }
  static Quaternion getIdentity() { return Quaternion(0, 0, 0, 1); }
  const tfScalar& x() const { return m_floats[0]; }
  const tfScalar& y() const { return m_floats[1]; }
  const tfScalar& z() const { return m_floats[2]; }
  const tfScalar& w() const { return m_floats[3]; }
  const tfScalar& getX() const { return m_floats[0]; }
  const tfScalar& getY() const { return m_floats[1]; }
  const tfScalar& getZ() const { return m_floats[2]; }
  const tfScalar& getW() const { return m_floats[3]; }
  void setX(tfScalar v) { m_floats[0] = v; }
  void setY(tfScalar v) { m_floats[1] = v; }
  void setZ(tfScalar v) { m_floats[2] = v; }
  void setW(tfScalar v) { m_floats[3] = v; }
  Quaternion operator-() const { return Quaternion(-x(), -y(), -z(), -w()); }
  Quaternion operator+(const Quaternion& q) const { return Quaternion(x() + q.x(), y() + q.y(), z() + q.z(), w() + q.w()); }
  Quaternion operator-(const Quaternion& q) const { return Quaternion(x() - q.x(), y() - q.y(), z() - q.z(), w() - q.w()); }
  Quaternion operator*(tfScalar s) const { return Quaternion(x() * s, y() * s, z() * s, w() * s); }
  Quaternion operator/(tfScalar s) const { return *this * (1.0 / s); }
  Quaternion& operator*=(tfScalar s) { return *this = *this * s; }
  Quaternion& operator/=(tfScalar s) { return *this = *this / s; }
  Quaternion operator*(const Quaternion& b) const {
    return Quaternion(w() * b.x() + x() * b.w() + y() * b.z() - z() * b.y(), w() * b.y() + y() * b.w() + z() * b.x() - x() * b.z(),
                      w() * b.z() + z() * b.w() + x() * b.y() - y() * b.x(), w() * b.w() - x() * b.x() - y() * b.y() - z() * b.z());
  }
  Quaternion& operator*=(const Quaternion& b) { return *this = *this * b; }
  bool operator==(const Quaternion& q) const { return x() == q.x() && y() == q.y() && z() == q.z() && w() == q.w(); }
};
class Matrix3x3 {
 public:
  Vector3 m_el[3];
  Matrix3x3() {}
  explicit Matrix3x3(const Quaternion& q) { setRotation(q); }
  Matrix3x3(tfScalar a, tfScalar b, tfScalar c, tfScalar d, tfScalar e, tfScalar f, tfScalar g, tfScalar h, tfScalar i) { m_el[0] = Vector3(a, b, c); m_el[1] = Vector3(d, e, f); m_el[2] = Vector3(g, h, i); }
  void setIdentity() { m_el[0] = Vector3(1, 0, 0); m_el[1] = Vector3(0, 1, 0); m_el[2] = Vector3(0, 0, 1); }
  const Vector3& operator[](int i) const { return m_el[i]; }
  Vector3& operator[](int i) { return m_el[i]; }
  const Vector3& getRow(int i) const { return m_el[i]; }
  Vector3 getColumn(int i) const { return Vector3(m_el[0][i], m_el[1][i], m_el[2][i]); }
  void setRotation(const Quaternion& q) {
    tfScalar d = q.length2(), s = 2.0 / d;
    tfScalar xs = q.x() * s, ys = q.y() * s, zs = q.z() * s, wx = q.w() * xs, wy = q.w() * ys, wz = q.w() * zs, xx = q.x() * xs, xy = q.x() * ys, xz = q.x() * zs,
             yy = q.y() * ys, yz = q.y() * zs, zz = q.z() * zs;
    m_el[0] = Vector3(1.0 - (yy + zz), xy - wz, xz + wy); m_el[1] = Vector3(xy + wz, 1.0 - (xx + zz), yz - wx); m_el[2] = Vector3(xz - wy, yz + wx, 1.0 - (xx + yy));
  }
  void setRPY(tfScalar r, tfScalar p, tfScalar y) { Quaternion q; q.setRPY(r, p, y); setRotation(q); }
  void setEulerYPR(tfScalar y, tfScalar p, tfScalar r) { setRPY(r, p, y); }
  void getRotation(Quaternion& q) const {
    tfScalar trace = m_el[0][0] + m_el[1][1] + m_el[2][2], t[4];
    if (trace > 0) { tfScalar s = sqrt(trace + 1); t[3] = s * 0.5; s = 0.5 / s; t[0] = (m_el[2][1] - m_el[1][2]) * s; t[1] = (m_el[0][2] - m_el[2][0]) * s; t[2] = (m_el[1][0] - m_el[0][1]) * s; }
    else {
      int i = m_el[0][0] < m_el[1][1] ? (m_el[1][1] < m_el[2][2] ? 2 : 1) : (m_el[0][0] < m_el[2][2] ? 2 : 0), j = (i + 1) % 3, k = (i + 2) % 3;
      tfScalar s = sqrt(m_el[i][i] - m_el[j][j] - m_el[k][k] + 1); t[i] = s * 0.5; s = 0.5 / s;
      t[3] = (m_el[k][j] - m_el[j][k]) * s; t[j] = (m_el[j][i] + m_el[i][j]) * s; t[k] = (m_el[k][i] + m_el[i][k]) * s;
    }
    q.setValue(t[0], t[1], t[2], t[3]);
  }
  void getEulerYPR(tfScalar& yaw, tfScalar& pitch, tfScalar& roll, unsigned int sol = 1) const {
    (void)sol;
    if (fabs(m_el[2].x()) >= 1) {
      yaw = 0;
      tfScalar delta = atan2(m_el[2].y(), m_el[2].z());
      if (m_el[2].x() < 0) { pitch = M_PI / 2; roll = delta; } else { pitch = -M_PI / 2; roll = delta; }
    } else {
      pitch = -asin(m_el[2].x());
      roll = atan2(m_el[2].y() / cos(pitch), m_el[2].z() / cos(pitch));
      yaw = atan2(m_el[1].x() / cos(pitch), m_el[0].x() / cos(pitch));
    }
  }
  void getRPY(tfScalar& r, tfScalar& p, tfScalar& y, unsigned int sol = 1) const { getEulerYPR(y, p, r, sol); }
  Vector3 operator*(const Vector3& v) const { return Vector3(m_el[0].dot(v), m_el[1].dot(v), m_el[2].dot(v)); }
  Matrix3x3 transpose() const { Matrix3x3 m; for (int i = 0; i < 3; ++i) m.m_el[i] = getColumn(i); return m; }
  Matrix3x3 inverse() const { return transpose(); }
  Matrix3x3 operator*(const Matrix3x3& o) const { Matrix3x3 m; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m.m_el[i][j] = m_el[i].dot(o.getColumn(j)); return m; }
};
class Transform {
 public:
  Transform() { m_basis.setIdentity(); }
  explicit Transform(const Quaternion& q, const Vector3& c = Vector3(0, 0, 0)) : m_basis(q), m_origin(c) {}
  explicit Transform(const Matrix3x3& b, const Vector3& c = Vector3(0, 0, 0)) : m_basis(b), m_origin(c) {}
  void setIdentity() { m_basis.setIdentity(); m_origin.setZero(); }
  static Transform getIdentity() { return Transform(); }
  const Vector3& getOrigin() const { return m_origin; }
  Vector3& getOrigin() { return m_origin; }
  const Matrix3x3& getBasis() const { return m_basis; }
  Matrix3x3& getBasis() { return m_basis; }
  Quaternion getRotation() const { Quaternion q; m_basis.getRotation(q); return q; }
  void setOrigin(const Vector3& o) { m_origin = o; }
  void setBasis(const Matrix3x3& b) { m_basis = b; }
  void setRotation(const Quaternion& q) { m_basis.setRotation(q); }
  Vector3 operator()(const Vector3& v) const { return m_basis * v + m_origin; }
  Vector3 operator*(const Vector3& v) const { return (*this)(v); }
  Transform operator*(const Transform& t) const { return Transform(m_basis * t.m_basis, (*this)(t.m_origin)); }
  Transform inverse() const { Matrix3x3 i = m_basis.transpose(); return Transform(i, i * -m_origin); }
 private:
  Matrix3x3 m_basis; Vector3 m_origin;
};
typedef Transform Pose;
class StampedTransform : public Transform {
 public:
  ros::Time stamp_; std::string frame_id_, child_frame_id_;
  StampedTransform() {}
  StampedTransform(const Transform& t, const ros::Time& s, const std::string& f, const std::string& c) : Transform(t), stamp_(s), frame_id_(f), child_frame_id_(c) {}
  void setData(const Transform& t) { *static_cast<Transform*>(this) = t; }
};
inline bool operator==(const Transform& a, const Transform& b) {
  for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) if (a.getBasis()[i][k] != b.getBasis()[i][k]) return false;
  return a.getOrigin() == b.getOrigin(); }
inline bool operator==(const StampedTransform& a, const StampedTransform& b) {
  return a.frame_id_ == b.frame_id_ && a.child_frame_id_ == b.child_frame_id_ && a.stamp_ == b.stamp_ && static_cast<const Transform&>(a) == static_cast<const Transform&>(b); }
inline void quaternionMsgToTF(const geometry_msgs::Quaternion& m, Quaternion& q) { q = Quaternion(m.x, m.y, m.z, m.w); if (fabs(q.length2() - 1) > 0.1) q.normalize(); }
inline void quaternionTFToMsg(const Quaternion& q, geometry_msgs::Quaternion& m) {
  Quaternion n = q; if (fabs(n.length2() - 1) > 0.1) n.normalize(); m.x = n.x(); m.y = n.y(); m.z = n.z(); m.w = n.w(); }
inline void pointMsgToTF(const geometry_msgs::Point& m, Vector3& v) { v = Vector3(m.x, m.y, m.z); }
inline void pointTFToMsg(const Vector3& v, geometry_msgs::Point& m) { m.x = v.x(); m.y = v.y(); m.z = v.z(); }
inline void vector3MsgToTF(const geometry_msgs::Vector3& m, Vector3& v) { v = Vector3(m.x, m.y, m.z); }
inline void vector3TFToMsg(const Vector3& v, geometry_msgs::Vector3& m) { m.x = v.x(); m.y = v.y(); m.z = v.z(); }
inline void poseMsgToTF(const geometry_msgs::Pose& m, Pose& p) { Quaternion q; quaternionMsgToTF(m.orientation, q); p = Transform(q, Vector3(m.position.x, m.position.y, m.position.z)); }
inline void poseTFToMsg(const Pose& p, geometry_msgs::Pose& m) { pointTFToMsg(p.getOrigin(), m.position); quaternionTFToMsg(p.getRotation(), m.orientation); }
inline void transformTFToMsg(const Transform& t, geometry_msgs::Transform& m) { vector3TFToMsg(t.getOrigin(), m.translation); quaternionTFToMsg(t.getRotation(), m.rotation); }
inline void transformMsgToTF(const geometry_msgs::Transform& m, Transform& t) { Quaternion q; quaternionMsgToTF(m.rotation, q); t = Transform(q, Vector3(m.translation.x, m.translation.y, m.translation.z)); }
inline double getYaw(const Quaternion& q) { tfScalar r, p, y; Matrix3x3(q).getRPY(r, p, y); return y; }
inline double getYaw(const geometry_msgs::Quaternion& m) { Quaternion q; quaternionMsgToTF(m, q); return getYaw(q); }
inline Quaternion createQuaternionFromRPY(double r, double p, double y) { Quaternion q; q.setRPY(r, p, y); return q; }
inline Quaternion createQuaternionFromYaw(double y) { Quaternion q; q.setRPY(0, 0, y); return q; }
inline geometry_msgs::Quaternion createQuaternionMsgFromYaw(double y) { geometry_msgs::Quaternion m; quaternionTFToMsg(createQuaternionFromYaw(y), m); return m; }
inline geometry_msgs::Quaternion createQuaternionMsgFromRollPitchYaw(double r, double p, double y) { geometry_msgs::Quaternion m; quaternionTFToMsg(createQuaternionFromRPY(r, p, y), m); return m; }
class TransformException : public std::runtime_error { public: explicit TransformException(const std::string& s) : std::runtime_error(s) {} };
class LookupException : public TransformException { public: using TransformException::TransformException; };
class ConnectivityException : public TransformException { public: using TransformException::TransformException; };
class ExtrapolationException : public TransformException { public: using TransformException::TransformException; };
class InvalidArgument : public TransformException { public: using TransformException::TransformException; };
}  // namespace tf
namespace shim {
// transforms a listener can see: (target, source) -> stamped transform, set by the harness
struct TfTable {
  std::mutex m;
  std::map<std::pair<std::string, std::string>, tf::StampedTransform> t;
};
// how often each (target, source) was looked up since it was last set
inline std::map<std::pair<std::string, std::string>, int>& tfReads() { static std::map<std::pair<std::string, std::string>, int> m; return m; }
inline TfTable& tfTable() { static TfTable* t = new TfTable; return *t; }
inline std::string tfn(std::string s) { while (!s.empty() && s[0] == '/') s.erase(0, 1); return s; }
inline void setTf(const std::string& target, const std::string& source, const tf::Transform& tr, const ros::Time& st) {
  std::lock_guard<std::mutex> l(tfTable().m);
  tfTable().t[std::make_pair(tfn(target), tfn(source))] = tf::StampedTransform(tr, st, target, source);
  tfReads()[std::make_pair(tfn(target), tfn(source))] = 0;
}
inline int tfReadCount(const std::string& target, const std::string& source) { std::lock_guard<std::mutex> l(tfTable().m); return tfReads()[std::make_pair(tfn(target), tfn(source))]; }
// a history of transforms between two frames: with one, lookups at a time interpolate and fail outside of it
inline std::map<std::pair<std::string, std::string>, std::vector<tf::StampedTransform>>& tfHistory() { static std::map<std::pair<std::string, std::string>, std::vector<tf::StampedTransform>> h; return h; }
inline int& tfFaults() { static int n = 0; return n; }  // the next lookups that fail although the transform was there
inline void addTf(const std::string& target, const std::string& source, const tf::Transform& tr, const ros::Time& st) {
  std::lock_guard<std::mutex> l(tfTable().m);
  auto key = std::make_pair(tfn(target), tfn(source));
  tfTable().t[key] = tf::StampedTransform(tr, st, target, source);
  tfHistory()[key].push_back(tf::StampedTransform(tr, st, target, source));
}
inline bool tfCovers(const std::pair<std::string, std::string>& key, const ros::Time& t) {
  auto it = tfHistory().find(key);
  return t.isZero() || it == tfHistory().end() || (t >= it->second.front().stamp_ && t <= it->second.back().stamp_);
}
inline void clearTf() { std::lock_guard<std::mutex> l(tfTable().m); tfTable().t.clear(); tfHistory().clear(); tfFaults() = 0; }
}
namespace tf {
class Transformer {
 public:
  static constexpr double DEFAULT_CACHE_TIME = 10.0;
  virtual ~Transformer() {}
  bool canTransform(const std::string& target, const std::string& source, const ros::Time& t, std::string* err = 0) const {
    shim::point(7);
    (void)t; (void)err; std::lock_guard<std::mutex> l(shim::tfTable().m);
    auto key = std::make_pair(shim::tfn(target), shim::tfn(source));
    return shim::tfn(target) == shim::tfn(source) || (shim::tfTable().t.count(key) > 0 && shim::tfCovers(key, t));
  }
  bool waitForTransform(const std::string& target, const std::string& source, const ros::Time& t, const ros::Duration& to,
                        const ros::Duration& sl = ros::Duration(0.01), std::string* err = 0) const { (void)to; (void)sl; return canTransform(target, source, t, err); }
  void lookupTransform(const std::string& target, const std::string& source, const ros::Time& t, StampedTransform& out) const {
    std::lock_guard<std::mutex> l(shim::tfTable().m);
    if (shim::tfn(target) == shim::tfn(source)) { out = StampedTransform(Transform(), t, target, source); return; }
    auto it = shim::tfTable().t.find(std::make_pair(shim::tfn(target), shim::tfn(source)));
    if (it == shim::tfTable().t.end()) throw LookupException("no transform");
    if (shim::tfFaults() > 0) { --shim::tfFaults(); throw ExtrapolationException("no longer there"); }
    if (!shim::tfCovers(it->first, t)) throw ExtrapolationException("outside of the buffer");
    out = it->second;
    auto h = shim::tfHistory().find(it->first);
    if (!t.isZero() && h != shim::tfHistory().end()) {
      auto& v = h->second;
      size_t k = 1;
      while (k < v.size() && v[k].stamp_ < t) ++k;
      if (k < v.size()) {
        double span = (v[k].stamp_ - v[k - 1].stamp_).toSec(), r = span > 0 ? (t - v[k - 1].stamp_).toSec() / span : 0;
        out.setOrigin(v[k - 1].getOrigin() * (1 - r) + v[k].getOrigin() * r);
        out.setRotation(v[k - 1].getRotation().slerp(v[k].getRotation(), r));
      }
    }
    ++shim::tfReads()[it->first];
    if (!t.isZero()) out.stamp_ = t;
  }
};
class TransformListener : public Transformer {
 public:
  TransformListener(ros::Duration d = ros::Duration(10.0), bool spin = true) { (void)d; (void)spin; }
  TransformListener(const ros::NodeHandle&, ros::Duration d = ros::Duration(10.0), bool spin = true) { (void)d; (void)spin; }
  void transformVector(const std::string& target, const ros::Time& t, const geometry_msgs::Vector3Stamped& in, const std::string& fixed, geometry_msgs::Vector3Stamped& out) const {
    (void)fixed; StampedTransform s; lookupTransform(target, in.header.frame_id, t, s);
    Vector3 v = s.getBasis() * Vector3(in.vector.x, in.vector.y, in.vector.z); out = in; vector3TFToMsg(v, out.vector); out.header.frame_id = target;
  }
  void transformVector(const std::string& target, const geometry_msgs::Vector3Stamped& in, geometry_msgs::Vector3Stamped& out) const { transformVector(target, in.header.stamp, in, target, out); }
  void transformPoint(const std::string& target, const geometry_msgs::PointStamped& in, geometry_msgs::PointStamped& out) const {
    StampedTransform s; lookupTransform(target, in.header.frame_id, in.header.stamp, s); out = in;
    pointTFToMsg(s * Vector3(in.point.x, in.point.y, in.point.z), out.point); out.header.frame_id = target;
  }
  void transformPose(const std::string& target, const geometry_msgs::PoseStamped& in, geometry_msgs::PoseStamped& out) const {
    StampedTransform s; lookupTransform(target, in.header.frame_id, in.header.stamp, s); Pose p; poseMsgToTF(in.pose, p); out = in;
    poseTFToMsg(s * p, out.pose); out.header.frame_id = target;
  }
};
class TransformBroadcaster { public: void sendTransform(const StampedTransform&) {} };
}  // namespace tf
