// generated by shim/gen/gen_msgs.py
#ifndef SHIM_GEOMETRY_MSGS_POSEARRAY_H
#define SHIM_GEOMETRY_MSGS_POSEARRAY_H
#include <shim/base.h>
#include <geometry_msgs/Pose.h>
#include <std_msgs/Header.h>
namespace geometry_msgs {
struct PoseArray {
  PoseArray() {  }
  std_msgs::Header header;
  std::vector<geometry_msgs::Pose> poses;
  typedef boost::shared_ptr<PoseArray> Ptr;
  typedef boost::shared_ptr<PoseArray const> ConstPtr;
  bool operator==(const PoseArray& o_) const { (void)o_; return header == o_.header && poses == o_.poses; }
  bool operator!=(const PoseArray& o_) const { return !(*this == o_); }
};
typedef boost::shared_ptr<PoseArray> PoseArrayPtr;
typedef boost::shared_ptr<PoseArray const> PoseArrayConstPtr;
}
#endif
