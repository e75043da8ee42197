// Stand-in for the pcl containers the repository uses.
#pragma once
#include <shim/base.h>
#include <std_msgs/Header.h>
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <Eigen/StdVector>
namespace pcl {
struct PCLHeader { PCLHeader() : seq(0), stamp(0) {} uint32_t seq; uint64_t stamp; std::string frame_id; bool operator==(const PCLHeader& o) const { return seq == o.seq && stamp == o.stamp && frame_id == o.frame_id; } };
struct PointXYZ {
  float x, y, z;
  PointXYZ() : x(0), y(0), z(0) {}
  PointXYZ(float a, float b, float c) : x(a), y(b), z(c) {}
  Eigen::Vector3f getVector3fMap() const { return Eigen::Vector3f(x, y, z); }
};
struct PointXYZI {
  float x, y, z, intensity;
  PointXYZI(float i = 0.f) : x(0), y(0), z(0), intensity(i) {}
  PointXYZI(float a, float b, float c, float i = 0.f) : x(a), y(b), z(c), intensity(i) {}
  Eigen::Vector3f getVector3fMap() const { return Eigen::Vector3f(x, y, z); }
};
struct PointXYZRGB { float x, y, z; uint8_t b, g, r, a; PointXYZRGB() : x(0), y(0), z(0), b(0), g(0), r(0), a(255) {} };
template <class P> class PointCloud {
 public:
  typedef boost::shared_ptr<PointCloud<P>> Ptr;
  typedef boost::shared_ptr<const PointCloud<P>> ConstPtr;
  typedef P PointType;
  typedef P value_type;
  typedef std::vector<P> VectorType;
  typedef typename VectorType::iterator iterator;
  typedef typename VectorType::const_iterator const_iterator;
  PCLHeader header;
  VectorType points;
  uint32_t width, height;
  bool is_dense;
  Eigen::Vector4f sensor_origin_dummy() const { return Eigen::Vector4f::Zero(); }
  PointCloud() : width(0), height(0), is_dense(true) {}
  PointCloud(uint32_t w, uint32_t h, const P& v = P()) : points(size_t(w) * h, v), width(w), height(h), is_dense(true) {}
  iterator begin() { return points.begin(); }
  iterator end() { return points.end(); }
  const_iterator begin() const { return points.begin(); }
  const_iterator end() const { return points.end(); }
  const_iterator cbegin() const { return points.begin(); }
  const_iterator cend() const { return points.end(); }
  size_t size() const { return points.size(); }
  bool empty() const { return points.empty(); }
  void reserve(size_t n) { points.reserve(n); }
  void resize(size_t n) { points.resize(n); if (width * height != n) { width = uint32_t(n); height = 1; } }
  void clear() { points.clear(); width = 0; height = 0; }
  const P& operator[](size_t i) const { return points[i]; }
  P& operator[](size_t i) { return points[i]; }
  const P& at(size_t i) const { return points.at(i); }
  P& at(size_t i) { return points.at(i); }
  const P& front() const { return points.front(); }
  P& front() { return points.front(); }
  const P& back() const { return points.back(); }
  P& back() { return points.back(); }
  void push_back(const P& p) { points.push_back(p); width = uint32_t(points.size()); height = 1; }
  template <class... A> void emplace_back(A&&... a) { points.emplace_back(std::forward<A>(a)...); width = uint32_t(points.size()); height = 1; }
  iterator insert(iterator p, const P& v) { iterator i = points.insert(p, v); width = uint32_t(points.size()); height = 1; return i; }
  template <class I> void insert(iterator p, I f, I l) { points.insert(p, f, l); width = uint32_t(points.size()); height = 1; }
  iterator erase(iterator p) { iterator i = points.erase(p); width = uint32_t(points.size()); height = 1; return i; }
  iterator erase(iterator f, iterator l) { iterator i = points.erase(f, l); width = uint32_t(points.size()); height = 1; return i; }
  void swap(PointCloud& o) { std::swap(header, o.header); points.swap(o.points); std::swap(width, o.width); std::swap(height, o.height); std::swap(is_dense, o.is_dense); }
  bool isOrganized() const { return height > 1; }
  Ptr makeShared() const { return Ptr(new PointCloud(*this)); }
  PointCloud& operator+=(const PointCloud& o) { points.insert(points.end(), o.points.begin(), o.points.end()); width = uint32_t(points.size()); height = 1; is_dense = is_dense && o.is_dense; return *this; }
  PointCloud operator+(const PointCloud& o) const { PointCloud c(*this); c += o; return c; }
};
template <class P> bool isFinite(const P& p) { return std::isfinite(p.x) && std::isfinite(p.y) && std::isfinite(p.z); }
template <class A, class B> void copyPointCloud(const PointCloud<A>& a, PointCloud<B>& b) {
  b.header = a.header; b.points.resize(a.size()); for (size_t i = 0; i < a.size(); ++i) { b.points[i].x = a[i].x; b.points[i].y = a[i].y; b.points[i].z = a[i].z; }
  b.width = a.width; b.height = a.height; b.is_dense = a.is_dense;
}
template <class P> void removeNaNFromPointCloud(const PointCloud<P>& in, PointCloud<P>& out, std::vector<int>& index) {
  if (&in != &out) { out.header = in.header; out.points.resize(in.points.size()); }
  index.resize(in.points.size());
  size_t j = 0;
  if (in.is_dense) {
    out.points = std::vector<P>(in.points);
    for (j = 0; j < out.points.size(); ++j) index[j] = int(j);
    uint32_t w = in.width, h = in.height; out.width = w; out.height = h;
  } else {
    size_t n = in.points.size();
    for (size_t i = 0; i < n; ++i) { if (!isFinite(in.points[i])) continue; out.points[j] = in.points[i]; index[j] = int(i); j++; }
    if (j != n) { out.points.resize(j); index.resize(j); }
    out.height = 1; out.width = uint32_t(j);
    out.is_dense = true;
  }
}
}  // namespace pcl
