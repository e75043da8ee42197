// generated by shim/gen/gen_msgs.py
#ifndef SHIM_STD_MSGS_BOOL_H
#define SHIM_STD_MSGS_BOOL_H
#include <shim/base.h>
namespace std_msgs {
struct Bool {
  Bool() : data(0) {  }
  uint8_t data;
  typedef boost::shared_ptr<Bool> Ptr;
  typedef boost::shared_ptr<Bool const> ConstPtr;
  bool operator==(const Bool& o_) const { (void)o_; return data == o_.data; }
  bool operator!=(const Bool& o_) const { return !(*this == o_); }
};
typedef boost::shared_ptr<Bool> BoolPtr;
typedef boost::shared_ptr<Bool const> BoolConstPtr;
}
#endif
