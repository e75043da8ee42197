// generated by shim/gen/gen_msgs.py
#ifndef SHIM_SENSOR_MSGS_LASERSCAN_H
#define SHIM_SENSOR_MSGS_LASERSCAN_H
#include <shim/base.h>
#include <std_msgs/Header.h>
namespace sensor_msgs {
struct LaserScan {
  LaserScan() : angle_min(0), angle_max(0), angle_increment(0), time_increment(0), scan_time(0), range_min(0), range_max(0) {  }
  std_msgs::Header header;
  float angle_min;
  float angle_max;
  float angle_increment;
  float time_increment;
  float scan_time;
  float range_min;
  float range_max;
  std::vector<float> ranges;
  std::vector<float> intensities;
  typedef boost::shared_ptr<LaserScan> Ptr;
  typedef boost::shared_ptr<LaserScan const> ConstPtr;
  bool operator==(const LaserScan& o_) const { (void)o_; return header == o_.header && angle_min == o_.angle_min && angle_max == o_.angle_max && angle_increment == o_.angle_increment && time_increment == o_.time_increment && scan_time == o_.scan_time && range_min == o_.range_min && range_max == o_.range_max && ranges == o_.ranges && intensities == o_.intensities; }
  bool operator!=(const LaserScan& o_) const { return !(*this == o_); }
};
typedef boost::shared_ptr<LaserScan> LaserScanPtr;
typedef boost::shared_ptr<LaserScan const> LaserScanConstPtr;
}
#endif
