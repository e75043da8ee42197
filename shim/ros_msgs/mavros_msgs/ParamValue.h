// generated by shim/gen/gen_msgs.py
#ifndef SHIM_MAVROS_MSGS_PARAMVALUE_H
#define SHIM_MAVROS_MSGS_PARAMVALUE_H
#include <shim/base.h>
namespace mavros_msgs {
struct ParamValue {
  ParamValue() : integer(0), real(0) {  }
  int64_t integer;
  double real;
  typedef boost::shared_ptr<ParamValue> Ptr;
  typedef boost::shared_ptr<ParamValue const> ConstPtr;
  bool operator==(const ParamValue& o_) const { (void)o_; return integer == o_.integer && real == o_.real; }
  bool operator!=(const ParamValue& o_) const { return !(*this == o_); }
};
typedef boost::shared_ptr<ParamValue> ParamValuePtr;
typedef boost::shared_ptr<ParamValue const> ParamValueConstPtr;
}
#endif
