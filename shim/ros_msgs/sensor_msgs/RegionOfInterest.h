// generated by shim/gen/gen_msgs.py
#ifndef SHIM_SENSOR_MSGS_REGIONOFINTEREST_H
#define SHIM_SENSOR_MSGS_REGIONOFINTEREST_H
#include <shim/base.h>
namespace sensor_msgs {
struct RegionOfInterest {
  RegionOfInterest() : x_offset(0), y_offset(0), height(0), width(0), do_rectify(0) {  }
  uint32_t x_offset;
  uint32_t y_offset;
  uint32_t height;
  uint32_t width;
  uint8_t do_rectify;
  typedef boost::shared_ptr<RegionOfInterest> Ptr;
  typedef boost::shared_ptr<RegionOfInterest const> ConstPtr;
  bool operator==(const RegionOfInterest& o_) const { (void)o_; return x_offset == o_.x_offset && y_offset == o_.y_offset && height == o_.height && width == o_.width && do_rectify == o_.do_rectify; }
  bool operator!=(const RegionOfInterest& o_) const { return !(*this == o_); }
};
typedef boost::shared_ptr<RegionOfInterest> RegionOfInterestPtr;
typedef boost::shared_ptr<RegionOfInterest const> RegionOfInterestConstPtr;
}
#endif
