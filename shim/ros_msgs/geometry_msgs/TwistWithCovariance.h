// generated by shim/gen/gen_msgs.py
#ifndef SHIM_GEOMETRY_MSGS_TWISTWITHCOVARIANCE_H
#define SHIM_GEOMETRY_MSGS_TWISTWITHCOVARIANCE_H
#include <shim/base.h>
#include <geometry_msgs/Twist.h>
namespace geometry_msgs {
struct TwistWithCovariance {
  TwistWithCovariance() { covariance.assign(0); }
  geometry_msgs::Twist twist;
  boost::array<double, 36> covariance;
  typedef boost::shared_ptr<TwistWithCovariance> Ptr;
  typedef boost::shared_ptr<TwistWithCovariance const> ConstPtr;
  bool operator==(const TwistWithCovariance& o_) const { (void)o_; return twist == o_.twist && covariance == o_.covariance; }
  bool operator!=(const TwistWithCovariance& o_) const { return !(*this == o_); }
};
typedef boost::shared_ptr<TwistWithCovariance> TwistWithCovariancePtr;
typedef boost::shared_ptr<TwistWithCovariance const> TwistWithCovarianceConstPtr;
}
#endif
