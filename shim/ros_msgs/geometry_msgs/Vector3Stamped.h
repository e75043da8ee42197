// generated by shim/gen/gen_msgs.py
#ifndef SHIM_GEOMETRY_MSGS_VECTOR3STAMPED_H
#define SHIM_GEOMETRY_MSGS_VECTOR3STAMPED_H
#include <shim/base.h>
#include <geometry_msgs/Vector3.h>
#include <std_msgs/Header.h>
namespace geometry_msgs {
struct Vector3Stamped {
  Vector3Stamped() {  }
  std_msgs::Header header;
  geometry_msgs::Vector3 vector;
  typedef boost::shared_ptr<Vector3Stamped> Ptr;
  typedef boost::shared_ptr<Vector3Stamped const> ConstPtr;
  bool operator==(const Vector3Stamped& o_) const { (void)o_; return header == o_.header && vector == o_.vector; }
  bool operator!=(const Vector3Stamped& o_) const { return !(*this == o_); }
};
typedef boost::shared_ptr<Vector3Stamped> Vector3StampedPtr;
typedef boost::shared_ptr<Vector3Stamped const> Vector3StampedConstPtr;
}
#endif
