// generated by shim/gen/gen_msgs.py
#ifndef SHIM_SENSOR_MSGS_POINTCLOUD2_H
#define SHIM_SENSOR_MSGS_POINTCLOUD2_H
#include <shim/base.h>
#include <sensor_msgs/PointField.h>
#include <std_msgs/Header.h>
namespace sensor_msgs {
struct PointCloud2 {
  PointCloud2() : height(0), width(0), is_bigendian(0), point_step(0), row_step(0), is_dense(0) {  }
  std_msgs::Header header;
  uint32_t height;
  uint32_t width;
  std::vector<sensor_msgs::PointField> fields;
  uint8_t is_bigendian;
  uint32_t point_step;
  uint32_t row_step;
  std::vector<uint8_t> data;
  uint8_t is_dense;
  typedef boost::shared_ptr<PointCloud2> Ptr;
  typedef boost::shared_ptr<PointCloud2 const> ConstPtr;
  bool operator==(const PointCloud2& o_) const { (void)o_; return header == o_.header && height == o_.height && width == o_.width && fields == o_.fields && is_bigendian == o_.is_bigendian && point_step == o_.point_step && row_step == o_.row_step && data == o_.data && is_dense == o_.is_dense; }
  bool operator!=(const PointCloud2& o_) const { return !(*this == o_); }
};
typedef boost::shared_ptr<PointCloud2> PointCloud2Ptr;
typedef boost::shared_ptr<PointCloud2 const> PointCloud2ConstPtr;
}
#endif
