// generated by shim/gen/gen_msgs.py
#ifndef SHIM_SENSOR_MSGS_RANGE_H
#define SHIM_SENSOR_MSGS_RANGE_H
#include <shim/base.h>
#include <std_msgs/Header.h>
namespace sensor_msgs {
struct Range {
  Range() : radiation_type(0), field_of_view(0), min_range(0), max_range(0), range(0) {  }
  enum { ULTRASOUND = 0 };
  enum { INFRARED = 1 };
  std_msgs::Header header;
  uint8_t radiation_type;
  float field_of_view;
  float min_range;
  float max_range;
  float range;
  typedef boost::shared_ptr<Range> Ptr;
  typedef boost::shared_ptr<Range const> ConstPtr;
  bool operator==(const Range& o_) const { (void)o_; return header == o_.header && radiation_type == o_.radiation_type && field_of_view == o_.field_of_view && min_range == o_.min_range && max_range == o_.max_range && range == o_.range; }
  bool operator!=(const Range& o_) const { return !(*this == o_); }
};
typedef boost::shared_ptr<Range> RangePtr;
typedef boost::shared_ptr<Range const> RangeConstPtr;
}
#endif
