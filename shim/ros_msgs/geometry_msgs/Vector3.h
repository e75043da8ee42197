// generated by shim/gen/gen_msgs.py
#ifndef SHIM_GEOMETRY_MSGS_VECTOR3_H
#define SHIM_GEOMETRY_MSGS_VECTOR3_H
#include <shim/base.h>
namespace geometry_msgs {
struct Vector3 {
  Vector3() : x(0), y(0), z(0) {  }
  double x;
  double y;
  double z;
  typedef boost::shared_ptr<Vector3> Ptr;
  typedef boost::shared_ptr<Vector3 const> ConstPtr;
  bool operator==(const Vector3& o_) const { (void)o_; return x == o_.x && y == o_.y && z == o_.z; }
  bool operator!=(const Vector3& o_) const { return !(*this == o_); }
};
typedef boost::shared_ptr<Vector3> Vector3Ptr;
typedef boost::shared_ptr<Vector3 const> Vector3ConstPtr;
}
#endif
