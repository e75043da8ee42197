#pragma once
#include <pcl/shim_pcl.h>
#include <sensor_msgs/Image.h>
#include <sensor_msgs/PointCloud2.h>
namespace pcl_conversions {
inline void fromPCL(const uint64_t& us, ros::Time& t) { t.fromNSec(us * 1000ULL); }
inline void toPCL(const ros::Time& t, uint64_t& us) { us = t.toNSec() / 1000ULL; }
inline ros::Time fromPCL(const uint64_t& us) { ros::Time t; fromPCL(us, t); return t; }
inline uint64_t toPCL(const ros::Time& t) { return t.toNSec() / 1000ULL; }
inline void fromPCL(const pcl::PCLHeader& p, std_msgs::Header& h) { fromPCL(p.stamp, h.stamp); h.seq = p.seq; h.frame_id = p.frame_id; }
inline void toPCL(const std_msgs::Header& h, pcl::PCLHeader& p) { toPCL(h.stamp, p.stamp); p.seq = h.seq; p.frame_id = h.frame_id; }
inline std_msgs::Header fromPCL(const pcl::PCLHeader& p) { std_msgs::Header h; fromPCL(p, h); return h; }
inline pcl::PCLHeader toPCL(const std_msgs::Header& h) { pcl::PCLHeader p; toPCL(h, p); return p; }
}
namespace pcl {
namespace shimdetail {
inline void setI(PointXYZ&, float) {}
inline void setI(PointXYZI& p, float v) { p.intensity = v; }
inline void setI(PointXYZRGB&, float) {}
inline bool getI(const PointXYZ&, float&) { return false; }
inline bool getI(const PointXYZI& p, float& v) { v = p.intensity; return true; }
inline bool getI(const PointXYZRGB&, float&) { return false; }
}
template <class P> void fromROSMsg(const sensor_msgs::PointCloud2& m, PointCloud<P>& c) {
  int ox = -1, oy = -1, oz = -1, oi = -1;
  for (const auto& f : m.fields) { if (f.datatype != sensor_msgs::PointField::FLOAT32) continue; if (f.name == "x") ox = int(f.offset); if (f.name == "y") oy = int(f.offset); if (f.name == "z") oz = int(f.offset); if (f.name == "intensity") oi = int(f.offset); }
  pcl_conversions::toPCL(m.header, c.header);
  c.width = m.width; c.height = m.height; c.is_dense = m.is_dense;
  c.points.assign(size_t(m.width) * m.height, P());
  for (size_t r = 0; r < m.height; ++r) for (size_t k = 0; k < m.width; ++k) {
    size_t o = r * m.row_step + k * m.point_step; P& p = c.points[r * m.width + k];
    auto rd = [&](int off, float& v) { if (off >= 0 && o + size_t(off) + 4 <= m.data.size()) memcpy(&v, &m.data[o + size_t(off)], 4); };
    rd(ox, p.x); rd(oy, p.y); rd(oz, p.z); float iv = 0; rd(oi, iv); if (oi >= 0) shimdetail::setI(p, iv);
  }
}
template <class P> void toROSMsg(const PointCloud<P>& c, sensor_msgs::PointCloud2& m) {
  m.header = pcl_conversions::fromPCL(c.header);
  m.width = c.width; m.height = c.height;
  if (size_t(m.width) * m.height != c.points.size()) { m.width = uint32_t(c.points.size()); m.height = 1; }
  m.is_dense = c.is_dense; m.fields.clear();
  float iv; P q; bool hasI = shimdetail::getI(q, iv);
  const char* n[4] = {"x", "y", "z", "intensity"};
  for (int i = 0; i < (hasI ? 4 : 3); ++i) { sensor_msgs::PointField f; f.name = n[i]; f.offset = uint32_t(4 * i); f.datatype = sensor_msgs::PointField::FLOAT32; f.count = 1; m.fields.push_back(f); }
  m.point_step = 16; m.row_step = 16 * m.width; m.data.assign(c.points.size() * 16, 0);
  for (size_t i = 0; i < c.points.size(); ++i) { float v[4] = {c.points[i].x, c.points[i].y, c.points[i].z, 0}; shimdetail::getI(c.points[i], v[3]); memcpy(&m.data[i * 16], v, 16); }
}
template <class P> void moveFromROSMsg(sensor_msgs::PointCloud2& m, PointCloud<P>& c) { fromROSMsg(m, c); }
}  // namespace pcl
