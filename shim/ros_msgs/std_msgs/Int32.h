// generated by shim/gen/gen_msgs.py
#ifndef SHIM_STD_MSGS_INT32_H
#define SHIM_STD_MSGS_INT32_H
#include <shim/base.h>
namespace std_msgs {
struct Int32 {
  Int32() : data(0) {  }
  int32_t data;
  typedef boost::shared_ptr<Int32> Ptr;
  typedef boost::shared_ptr<Int32 const> ConstPtr;
  bool operator==(const Int32& o_) const { (void)o_; return data == o_.data; }
  bool operator!=(const Int32& o_) const { return !(*this == o_); }
};
typedef boost::shared_ptr<Int32> Int32Ptr;
typedef boost::shared_ptr<Int32 const> Int32ConstPtr;
}
#endif
