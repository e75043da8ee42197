// generated by shim/gen/gen_msgs.py
#ifndef SHIM_GEOMETRY_MSGS_TWISTSTAMPED_H
#define SHIM_GEOMETRY_MSGS_TWISTSTAMPED_H
#include <shim/base.h>
#include <geometry_msgs/Twist.h>
#include <std_msgs/Header.h>
namespace geometry_msgs {
struct TwistStamped {
  TwistStamped() {  }
  std_msgs::Header header;
  geometry_msgs::Twist twist;
  typedef boost::shared_ptr<TwistStamped> Ptr;
  typedef boost::shared_ptr<TwistStamped const> ConstPtr;
  bool operator==(const TwistStamped& o_) const { (void)o_; return header == o_.header && twist == o_.twist; }
  bool operator!=(const TwistStamped& o_) const { return !(*this == o_); }
};
typedef boost::shared_ptr<TwistStamped> TwistStampedPtr;
typedef boost::shared_ptr<TwistStamped const> TwistStampedConstPtr;
}
#endif
