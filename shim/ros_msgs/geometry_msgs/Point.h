// generated by shim/gen/gen_msgs.py
#ifndef SHIM_GEOMETRY_MSGS_POINT_H
#define SHIM_GEOMETRY_MSGS_POINT_H
#include <shim/base.h>
namespace geometry_msgs {
struct Point {
  Point() : x(0), y(0), z(0) {  }
  double x;
  double y;
  double z;
  typedef boost::shared_ptr<Point> Ptr;
  typedef boost::shared_ptr<Point const> ConstPtr;
  bool operator==(const Point& o_) const { (void)o_; return x == o_.x && y == o_.y && z == o_.z; }
  bool operator!=(const Point& o_) const { return !(*this == o_); }
};
typedef boost::shared_ptr<Point> PointPtr;
typedef boost::shared_ptr<Point const> PointConstPtr;
}
#endif
