// generated by shim/gen/gen_msgs.py
#ifndef SHIM_MAVROS_MSGS_WAYPOINTLIST_H
#define SHIM_MAVROS_MSGS_WAYPOINTLIST_H
#include <shim/base.h>
#include <mavros_msgs/Waypoint.h>
namespace mavros_msgs {
struct WaypointList {
  WaypointList() : current_seq(0) {  }
  uint16_t current_seq;
  std::vector<mavros_msgs::Waypoint> waypoints;
  typedef boost::shared_ptr<WaypointList> Ptr;
  typedef boost::shared_ptr<WaypointList const> ConstPtr;
  bool operator==(const WaypointList& o_) const { (void)o_; return current_seq == o_.current_seq && waypoints == o_.waypoints; }
  bool operator!=(const WaypointList& o_) const { return !(*this == o_); }
};
typedef boost::shared_ptr<WaypointList> WaypointListPtr;
typedef boost::shared_ptr<WaypointList const> WaypointListConstPtr;
}
#endif
