// generated by shim/gen/gen_msgs.py
#ifndef SHIM_GEOMETRY_MSGS_QUATERNION_H
#define SHIM_GEOMETRY_MSGS_QUATERNION_H
#include <shim/base.h>
namespace geometry_msgs {
struct Quaternion {
  Quaternion() : x(0), y(0), z(0), w(0) {  }
  double x;
  double y;
  double z;
  double w;
  typedef boost::shared_ptr<Quaternion> Ptr;
  typedef boost::shared_ptr<Quaternion const> ConstPtr;
  bool operator==(const Quaternion& o_) const { (void)o_; return x == o_.x && y == o_.y && z == o_.z && w == o_.w; }
  bool operator!=(const Quaternion& o_) const { return !(*this == o_); }
};
typedef boost::shared_ptr<Quaternion> QuaternionPtr;
typedef boost::shared_ptr<Quaternion const> QuaternionConstPtr;
}
#endif
