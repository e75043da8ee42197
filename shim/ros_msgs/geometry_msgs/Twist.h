// generated by shim/gen/gen_msgs.py
#ifndef SHIM_GEOMETRY_MSGS_TWIST_H
#define SHIM_GEOMETRY_MSGS_TWIST_H
#include <shim/base.h>
#include <geometry_msgs/Vector3.h>
namespace geometry_msgs {
struct Twist {
  Twist() {  }
  geometry_msgs::Vector3 linear;
  geometry_msgs::Vector3 angular;
  typedef boost::shared_ptr<Twist> Ptr;
  typedef boost::shared_ptr<Twist const> ConstPtr;
  bool operator==(const Twist& o_) const { (void)o_; return linear == o_.linear && angular == o_.angular; }
  bool operator!=(const Twist& o_) const { return !(*this == o_); }
};
typedef boost::shared_ptr<Twist> TwistPtr;
typedef boost::shared_ptr<Twist const> TwistConstPtr;
}
#endif
