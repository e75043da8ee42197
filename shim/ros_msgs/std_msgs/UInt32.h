// generated by shim/gen/gen_msgs.py
#ifndef SHIM_STD_MSGS_UINT32_H
#define SHIM_STD_MSGS_UINT32_H
#include <shim/base.h>
namespace std_msgs {
struct UInt32 {
  UInt32() : data(0) {  }
  uint32_t data;
  typedef boost::shared_ptr<UInt32> Ptr;
  typedef boost::shared_ptr<UInt32 const> ConstPtr;
  bool operator==(const UInt32& o_) const { (void)o_; return data == o_.data; }
  bool operator!=(const UInt32& o_) const { return !(*this == o_); }
};
typedef boost::shared_ptr<UInt32> UInt32Ptr;
typedef boost::shared_ptr<UInt32 const> UInt32ConstPtr;
}
#endif
