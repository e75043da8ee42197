#pragma once
#include <pcl/shim_pcl.h>
#include <pcl_conversions/pcl_conversions.h>
#include <tf/shim_tf.h>
namespace pcl_ros {
inline void transformAsMatrix(const tf::Transform& t, Eigen::Matrix4f& m) {
  m.setIdentity(); for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) m(i, j) = float(t.getBasis()[i][j]); m(i, 3) = float(t.getOrigin()[i]); }
}
template <class P> void transformPointCloud(const pcl::PointCloud<P>& in, pcl::PointCloud<P>& out, const tf::Transform& t) {
  shim::point(3);
  Eigen::Matrix4f m; transformAsMatrix(t, m);
  pcl::PointCloud<P> r(in);
  for (auto& p : r.points) {
    if (!in.is_dense && !pcl::isFinite(p)) continue;
    float x = m(0, 0) * p.x + m(0, 1) * p.y + m(0, 2) * p.z + m(0, 3), y = m(1, 0) * p.x + m(1, 1) * p.y + m(1, 2) * p.z + m(1, 3), z = m(2, 0) * p.x + m(2, 1) * p.y + m(2, 2) * p.z + m(2, 3);
    p.x = x; p.y = y; p.z = z;
  }
  out = r;
}
template <class P> bool transformPointCloud(const std::string& target, const pcl::PointCloud<P>& in, pcl::PointCloud<P>& out, const tf::TransformListener& l) {
  if (in.header.frame_id == target) { out = in; return true; }
  tf::StampedTransform t;
  try { l.lookupTransform(target, in.header.frame_id, pcl_conversions::fromPCL(in.header).stamp, t); } catch (tf::TransformException&) { return false; }
  transformPointCloud(in, out, static_cast<const tf::Transform&>(t)); out.header.frame_id = target;
  return true;
}
inline bool transformPointCloud(const std::string& target, const sensor_msgs::PointCloud2& in, sensor_msgs::PointCloud2& out, const tf::TransformListener& l) {
  pcl::PointCloud<pcl::PointXYZ> c, d; pcl::fromROSMsg(in, c); if (!transformPointCloud(target, c, d, l)) return false; pcl::toROSMsg(d, out); out.header = in.header; out.header.frame_id = target; return true;
}
inline void transformPointCloud(const std::string& target, const tf::Transform& t, const sensor_msgs::PointCloud2& in, sensor_msgs::PointCloud2& out) {
  pcl::PointCloud<pcl::PointXYZ> c, d; pcl::fromROSMsg(in, c); transformPointCloud(c, d, t); pcl::toROSMsg(d, out); out.header = in.header; out.header.frame_id = target;
}
}  // namespace pcl_ros
