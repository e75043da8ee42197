// generated by shim/gen/gen_msgs.py
#ifndef SHIM_GEOMETRY_MSGS_QUATERNIONSTAMPED_H
#define SHIM_GEOMETRY_MSGS_QUATERNIONSTAMPED_H
#include <shim/base.h>
#include <geometry_msgs/Quaternion.h>
#include <std_msgs/Header.h>
namespace geometry_msgs {
struct QuaternionStamped {
  QuaternionStamped() {  }
  std_msgs::Header header;
  geometry_msgs::Quaternion quaternion;
  typedef boost::shared_ptr<QuaternionStamped> Ptr;
  typedef boost::shared_ptr<QuaternionStamped const> ConstPtr;
  bool operator==(const QuaternionStamped& o_) const { (void)o_; return header == o_.header && quaternion == o_.quaternion; }
  bool operator!=(const QuaternionStamped& o_) const { return !(*this == o_); }
};
typedef boost::shared_ptr<QuaternionStamped> QuaternionStampedPtr;
typedef boost::shared_ptr<QuaternionStamped const> QuaternionStampedConstPtr;
}
#endif
