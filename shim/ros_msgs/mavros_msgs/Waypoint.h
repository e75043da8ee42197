// generated by shim/gen/gen_msgs.py
#ifndef SHIM_MAVROS_MSGS_WAYPOINT_H
#define SHIM_MAVROS_MSGS_WAYPOINT_H
#include <shim/base.h>
namespace mavros_msgs {
struct Waypoint {
  Waypoint() : frame(0), command(0), is_current(0), autocontinue(0), param1(0), param2(0), param3(0), param4(0), x_lat(0), y_long(0), z_alt(0) {  }
  uint8_t frame;
  uint16_t command;
  uint8_t is_current;
  uint8_t autocontinue;
  float param1;
  float param2;
  float param3;
  float param4;
  double x_lat;
  double y_long;
  double z_alt;
  typedef boost::shared_ptr<Waypoint> Ptr;
  typedef boost::shared_ptr<Waypoint const> ConstPtr;
  bool operator==(const Waypoint& o_) const { (void)o_; return frame == o_.frame && command == o_.command && is_current == o_.is_current && autocontinue == o_.autocontinue && param1 == o_.param1 && param2 == o_.param2 && param3 == o_.param3 && param4 == o_.param4 && x_lat == o_.x_lat && y_long == o_.y_long && z_alt == o_.z_alt; }
  bool operator!=(const Waypoint& o_) const { return !(*this == o_); }
};
typedef boost::shared_ptr<Waypoint> WaypointPtr;
typedef boost::shared_ptr<Waypoint const> WaypointConstPtr;
}
#endif
