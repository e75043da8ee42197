// generated by shim/gen/gen_msgs.py
#ifndef SHIM_MAVROS_MSGS_ALTITUDE_H
#define SHIM_MAVROS_MSGS_ALTITUDE_H
#include <shim/base.h>
#include <std_msgs/Header.h>
namespace mavros_msgs {
struct Altitude {
  Altitude() : monotonic(0), amsl(0), local(0), relative(0), terrain(0), bottom_clearance(0) {  }
  std_msgs::Header header;
  float monotonic;
  float amsl;
  float local;
  float relative;
  float terrain;
  float bottom_clearance;
  typedef boost::shared_ptr<Altitude> Ptr;
  typedef boost::shared_ptr<Altitude const> ConstPtr;
  bool operator==(const Altitude& o_) const { (void)o_; return header == o_.header && monotonic == o_.monotonic && amsl == o_.amsl && local == o_.local && relative == o_.relative && terrain == o_.terrain && bottom_clearance == o_.bottom_clearance; }
  bool operator!=(const Altitude& o_) const { return !(*this == o_); }
};
typedef boost::shared_ptr<Altitude> AltitudePtr;
typedef boost::shared_ptr<Altitude const> AltitudeConstPtr;
}
#endif
