// generated by shim/gen/gen_msgs.py
#ifndef SHIM_MAVROS_MSGS_STATE_H
#define SHIM_MAVROS_MSGS_STATE_H
#include <shim/base.h>
#include <std_msgs/Header.h>
namespace mavros_msgs {
struct State {
  State() : connected(0), armed(0), guided(0), manual_input(0), system_status(0) {  }
  std_msgs::Header header;
  uint8_t connected;
  uint8_t armed;
  uint8_t guided;
  uint8_t manual_input;
  std::string mode;
  uint8_t system_status;
  typedef boost::shared_ptr<State> Ptr;
  typedef boost::shared_ptr<State const> ConstPtr;
  bool operator==(const State& o_) const { (void)o_; return header == o_.header && connected == o_.connected && armed == o_.armed && guided == o_.guided && manual_input == o_.manual_input && mode == o_.mode && system_status == o_.system_status; }
  bool operator!=(const State& o_) const { return !(*this == o_); }
};
typedef boost::shared_ptr<State> StatePtr;
typedef boost::shared_ptr<State const> StateConstPtr;
}
#endif
