// generated by shim/gen/gen_msgs.py
#ifndef SHIM_MAVROS_MSGS_POSITIONTARGET_H
#define SHIM_MAVROS_MSGS_POSITIONTARGET_H
#include <shim/base.h>
#include <geometry_msgs/Point.h>
#include <geometry_msgs/Vector3.h>
#include <std_msgs/Header.h>
namespace mavros_msgs {
struct PositionTarget {
  PositionTarget() : coordinate_frame(0), type_mask(0), yaw(0), yaw_rate(0) {  }
  enum { FRAME_LOCAL_NED = 1 };
  enum { IGNORE_PX = 1 };
  enum { IGNORE_PY = 2 };
  enum { IGNORE_PZ = 4 };
  enum { IGNORE_VX = 8 };
  enum { IGNORE_VY = 16 };
  enum { IGNORE_VZ = 32 };
  enum { IGNORE_AFX = 64 };
  enum { IGNORE_AFY = 128 };
  enum { IGNORE_AFZ = 256 };
  enum { FORCE = 512 };
  enum { IGNORE_YAW = 1024 };
  enum { IGNORE_YAW_RATE = 2048 };
  std_msgs::Header header;
  uint8_t coordinate_frame;
  uint16_t type_mask;
  geometry_msgs::Point position;
  geometry_msgs::Vector3 velocity;
  geometry_msgs::Vector3 acceleration_or_force;
  float yaw;
  float yaw_rate;
  typedef boost::shared_ptr<PositionTarget> Ptr;
  typedef boost::shared_ptr<PositionTarget const> ConstPtr;
  bool operator==(const PositionTarget& o_) const { (void)o_; return header == o_.header && coordinate_frame == o_.coordinate_frame && type_mask == o_.type_mask && position == o_.position && velocity == o_.velocity && acceleration_or_force == o_.acceleration_or_force && yaw == o_.yaw && yaw_rate == o_.yaw_rate; }
  bool operator!=(const PositionTarget& o_) const { return !(*this == o_); }
};
typedef boost::shared_ptr<PositionTarget> PositionTargetPtr;
typedef boost::shared_ptr<PositionTarget const> PositionTargetConstPtr;
}
#endif
