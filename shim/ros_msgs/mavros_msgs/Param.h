// generated by shim/gen/gen_msgs.py
#ifndef SHIM_MAVROS_MSGS_PARAM_H
#define SHIM_MAVROS_MSGS_PARAM_H
#include <shim/base.h>
#include <mavros_msgs/ParamValue.h>
#include <std_msgs/Header.h>
namespace mavros_msgs {
struct Param {
  Param() : param_index(0), param_count(0) {  }
  std_msgs::Header header;
  std::string param_id;
  mavros_msgs::ParamValue value;
  uint16_t param_index;
  uint16_t param_count;
  typedef boost::shared_ptr<Param> Ptr;
  typedef boost::shared_ptr<Param const> ConstPtr;
  bool operator==(const Param& o_) const { (void)o_; return header == o_.header && param_id == o_.param_id && value == o_.value && param_index == o_.param_index && param_count == o_.param_count; }
  bool operator!=(const Param& o_) const { return !(*this == o_); }
};
typedef boost::shared_ptr<Param> ParamPtr;
typedef boost::shared_ptr<Param const> ParamConstPtr;
}
#endif
