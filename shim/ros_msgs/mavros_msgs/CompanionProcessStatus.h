// generated by shim/gen/gen_msgs.py
#ifndef SHIM_MAVROS_MSGS_COMPANIONPROCESSSTATUS_H
#define SHIM_MAVROS_MSGS_COMPANIONPROCESSSTATUS_H
#include <shim/base.h>
#include <std_msgs/Header.h>
namespace mavros_msgs {
struct CompanionProcessStatus {
  CompanionProcessStatus() : state(0), component(0) {  }
  enum { MAV_STATE_UNINIT = 0 };
  enum { MAV_STATE_BOOT = 1 };
  enum { MAV_STATE_CALIBRATING = 2 };
  enum { MAV_STATE_STANDBY = 3 };
  enum { MAV_STATE_ACTIVE = 4 };
  enum { MAV_STATE_CRITICAL = 5 };
  enum { MAV_STATE_EMERGENCY = 6 };
  enum { MAV_STATE_POWEROFF = 7 };
  enum { MAV_STATE_FLIGHT_TERMINATION = 8 };
  enum { MAV_COMP_ID_OBSTACLE_AVOIDANCE = 196 };
  enum { MAV_COMP_ID_VISUAL_INERTIAL_ODOMETRY = 197 };
  std_msgs::Header header;
  uint8_t state;
  uint8_t component;
  typedef boost::shared_ptr<CompanionProcessStatus> Ptr;
  typedef boost::shared_ptr<CompanionProcessStatus const> ConstPtr;
  bool operator==(const CompanionProcessStatus& o_) const { (void)o_; return header == o_.header && state == o_.state && component == o_.component; }
  bool operator!=(const CompanionProcessStatus& o_) const { return !(*this == o_); }
};
typedef boost::shared_ptr<CompanionProcessStatus> CompanionProcessStatusPtr;
typedef boost::shared_ptr<CompanionProcessStatus const> CompanionProcessStatusConstPtr;
}
#endif
