// generated by shim/gen/gen_msgs.py
#ifndef SHIM_GEOMETRY_MSGS_TRANSFORM_H
#define SHIM_GEOMETRY_MSGS_TRANSFORM_H
#include <shim/base.h>
#include <geometry_msgs/Quaternion.h>
#include <geometry_msgs/Vector3.h>
namespace geometry_msgs {
struct Transform {
  Transform() {  }
  geometry_msgs::Vector3 translation;
  geometry_msgs::Quaternion rotation;
  typedef boost::shared_ptr<Transform> Ptr;
  typedef boost::shared_ptr<Transform const> ConstPtr;
  bool operator==(const Transform& o_) const { (void)o_; return translation == o_.translation && rotation == o_.rotation; }
  bool operator!=(const Transform& o_) const { return !(*this == o_); }
};
typedef boost::shared_ptr<Transform> TransformPtr;
typedef boost::shared_ptr<Transform const> TransformConstPtr;
}
#endif
