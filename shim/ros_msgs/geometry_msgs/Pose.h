// generated by shim/gen/gen_msgs.py
#ifndef SHIM_GEOMETRY_MSGS_POSE_H
#define SHIM_GEOMETRY_MSGS_POSE_H
#include <shim/base.h>
#include <geometry_msgs/Point.h>
#include <geometry_msgs/Quaternion.h>
namespace geometry_msgs {
struct Pose {
  Pose() {  }
  geometry_msgs::Point position;
  geometry_msgs::Quaternion orientation;
  typedef boost::shared_ptr<Pose> Ptr;
  typedef boost::shared_ptr<Pose const> ConstPtr;
  bool operator==(const Pose& o_) const { (void)o_; return position == o_.position && orientation == o_.orientation; }
  bool operator!=(const Pose& o_) const { return !(*this == o_); }
};
typedef boost::shared_ptr<Pose> PosePtr;
typedef boost::shared_ptr<Pose const> PoseConstPtr;
}
#endif
