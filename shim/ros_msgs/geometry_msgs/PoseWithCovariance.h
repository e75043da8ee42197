// generated by shim/gen/gen_msgs.py
#ifndef SHIM_GEOMETRY_MSGS_POSEWITHCOVARIANCE_H
#define SHIM_GEOMETRY_MSGS_POSEWITHCOVARIANCE_H
#include <shim/base.h>
#include <geometry_msgs/Pose.h>
namespace geometry_msgs {
struct PoseWithCovariance {
  PoseWithCovariance() { covariance.assign(0); }
  geometry_msgs::Pose pose;
  boost::array<double, 36> covariance;
  typedef boost::shared_ptr<PoseWithCovariance> Ptr;
  typedef boost::shared_ptr<PoseWithCovariance const> ConstPtr;
  bool operator==(const PoseWithCovariance& o_) const { (void)o_; return pose == o_.pose && covariance == o_.covariance; }
  bool operator!=(const PoseWithCovariance& o_) const { return !(*this == o_); }
};
typedef boost::shared_ptr<PoseWithCovariance> PoseWithCovariancePtr;
typedef boost::shared_ptr<PoseWithCovariance const> PoseWithCovarianceConstPtr;
}
#endif
