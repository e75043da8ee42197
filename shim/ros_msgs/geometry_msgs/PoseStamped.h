// generated by shim/gen/gen_msgs.py
#ifndef SHIM_GEOMETRY_MSGS_POSESTAMPED_H
#define SHIM_GEOMETRY_MSGS_POSESTAMPED_H
#include <shim/base.h>
#include <geometry_msgs/Pose.h>
#include <std_msgs/Header.h>
namespace geometry_msgs {
struct PoseStamped {
  PoseStamped() {  }
  std_msgs::Header header;
  geometry_msgs::Pose pose;
  typedef boost::shared_ptr<PoseStamped> Ptr;
  typedef boost::shared_ptr<PoseStamped const> ConstPtr;
  bool operator==(const PoseStamped& o_) const { (void)o_; return header == o_.header && pose == o_.pose; }
  bool operator!=(const PoseStamped& o_) const { return !(*this == o_); }
};
typedef boost::shared_ptr<PoseStamped> PoseStampedPtr;
typedef boost::shared_ptr<PoseStamped const> PoseStampedConstPtr;
}
#endif
