// generated by shim/gen/gen_msgs.py
#ifndef SHIM_GEOMETRY_MSGS_POINTSTAMPED_H
#define SHIM_GEOMETRY_MSGS_POINTSTAMPED_H
#include <shim/base.h>
#include <geometry_msgs/Point.h>
#include <std_msgs/Header.h>
namespace geometry_msgs {
struct PointStamped {
  PointStamped() {  }
  std_msgs::Header header;
  geometry_msgs::Point point;
  typedef boost::shared_ptr<PointStamped> Ptr;
  typedef boost::shared_ptr<PointStamped const> ConstPtr;
  bool operator==(const PointStamped& o_) const { (void)o_; return header == o_.header && point == o_.point; }
  bool operator!=(const PointStamped& o_) const { return !(*this == o_); }
};
typedef boost::shared_ptr<PointStamped> PointStampedPtr;
typedef boost::shared_ptr<PointStamped const> PointStampedConstPtr;
}
#endif
