// generated by shim/gen/gen_msgs.py
#ifndef SHIM_GEOMETRY_MSGS_TRANSFORMSTAMPED_H
#define SHIM_GEOMETRY_MSGS_TRANSFORMSTAMPED_H
#include <shim/base.h>
#include <geometry_msgs/Transform.h>
#include <std_msgs/Header.h>
namespace geometry_msgs {
struct TransformStamped {
  TransformStamped() {  }
  std_msgs::Header header;
  std::string child_frame_id;
  geometry_msgs::Transform transform;
  typedef boost::shared_ptr<TransformStamped> Ptr;
  typedef boost::shared_ptr<TransformStamped const> ConstPtr;
  bool operator==(const TransformStamped& o_) const { (void)o_; return header == o_.header && child_frame_id == o_.child_frame_id && transform == o_.transform; }
  bool operator!=(const TransformStamped& o_) const { return !(*this == o_); }
};
typedef boost::shared_ptr<TransformStamped> TransformStampedPtr;
typedef boost::shared_ptr<TransformStamped const> TransformStampedConstPtr;
}
#endif
