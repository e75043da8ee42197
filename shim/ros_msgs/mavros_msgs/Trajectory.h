// generated by shim/gen/gen_msgs.py
#ifndef SHIM_MAVROS_MSGS_TRAJECTORY_H
#define SHIM_MAVROS_MSGS_TRAJECTORY_H
#include <shim/base.h>
#include <mavros_msgs/PositionTarget.h>
#include <std_msgs/Header.h>
namespace mavros_msgs {
struct Trajectory {
  Trajectory() : type(0) { point_valid.assign(0); command.assign(0); time_horizon.assign(0); }
  enum { MAV_TRAJECTORY_REPRESENTATION_WAYPOINTS = 0 };
  enum { MAV_TRAJECTORY_REPRESENTATION_BEZIER = 1 };
  std_msgs::Header header;
  uint8_t type;
  mavros_msgs::PositionTarget point_1;
  mavros_msgs::PositionTarget point_2;
  mavros_msgs::PositionTarget point_3;
  mavros_msgs::PositionTarget point_4;
  mavros_msgs::PositionTarget point_5;
  boost::array<uint8_t, 5> point_valid;
  boost::array<uint16_t, 5> command;
  boost::array<float, 5> time_horizon;
  typedef boost::shared_ptr<Trajectory> Ptr;
  typedef boost::shared_ptr<Trajectory const> ConstPtr;
  bool operator==(const Trajectory& o_) const { (void)o_; return header == o_.header && type == o_.type && point_1 == o_.point_1 && point_2 == o_.point_2 && point_3 == o_.point_3 && point_4 == o_.point_4 && point_5 == o_.point_5 && point_valid == o_.point_valid && command == o_.command && time_horizon == o_.time_horizon; }
  bool operator!=(const Trajectory& o_) const { return !(*this == o_); }
};
typedef boost::shared_ptr<Trajectory> TrajectoryPtr;
typedef boost::shared_ptr<Trajectory const> TrajectoryConstPtr;
}
#endif
