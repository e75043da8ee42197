// generated by shim/gen/gen_msgs.py
#ifndef SHIM_SENSOR_MSGS_CAMERAINFO_H
#define SHIM_SENSOR_MSGS_CAMERAINFO_H
#include <shim/base.h>
#include <sensor_msgs/RegionOfInterest.h>
#include <std_msgs/Header.h>
namespace sensor_msgs {
struct CameraInfo {
  CameraInfo() : height(0), width(0), binning_x(0), binning_y(0) { K.assign(0); R.assign(0); P.assign(0); }
  std_msgs::Header header;
  uint32_t height;
  uint32_t width;
  std::string distortion_model;
  std::vector<double> D;
  boost::array<double, 9> K;
  boost::array<double, 9> R;
  boost::array<double, 12> P;
  uint32_t binning_x;
  uint32_t binning_y;
  sensor_msgs::RegionOfInterest roi;
  typedef boost::shared_ptr<CameraInfo> Ptr;
  typedef boost::shared_ptr<CameraInfo const> ConstPtr;
  bool operator==(const CameraInfo& o_) const { (void)o_; return header == o_.header && height == o_.height && width == o_.width && distortion_model == o_.distortion_model && D == o_.D && K == o_.K && R == o_.R && P == o_.P && binning_x == o_.binning_x && binning_y == o_.binning_y && roi == o_.roi; }
  bool operator!=(const CameraInfo& o_) const { return !(*this == o_); }
};
typedef boost::shared_ptr<CameraInfo> CameraInfoPtr;
typedef boost::shared_ptr<CameraInfo const> CameraInfoConstPtr;
}
#endif
