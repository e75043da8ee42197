// generated by shim/gen/gen_msgs.py
#ifndef SHIM_NAV_MSGS_ODOMETRY_H
#define SHIM_NAV_MSGS_ODOMETRY_H
#include <shim/base.h>
#include <geometry_msgs/PoseWithCovariance.h>
#include <geometry_msgs/TwistWithCovariance.h>
#include <std_msgs/Header.h>
namespace nav_msgs {
struct Odometry {
  Odometry() {  }
  std_msgs::Header header;
  std::string child_frame_id;
  geometry_msgs::PoseWithCovariance pose;
  geometry_msgs::TwistWithCovariance twist;
  typedef boost::shared_ptr<Odometry> Ptr;
  typedef boost::shared_ptr<Odometry const> ConstPtr;
  bool operator==(const Odometry& o_) const { (void)o_; return header == o_.header && child_frame_id == o_.child_frame_id && pose == o_.pose && twist == o_.twist; }
  bool operator!=(const Odometry& o_) const { return !(*this == o_); }
};
typedef boost::shared_ptr<Odometry> OdometryPtr;
typedef boost::shared_ptr<Odometry const> OdometryConstPtr;
}
#endif
