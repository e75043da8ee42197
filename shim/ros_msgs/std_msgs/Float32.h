// generated by shim/gen/gen_msgs.py
#ifndef SHIM_STD_MSGS_FLOAT32_H
#define SHIM_STD_MSGS_FLOAT32_H
#include <shim/base.h>
namespace std_msgs {
struct Float32 {
  Float32() : data(0) {  }
  float data;
  typedef boost::shared_ptr<Float32> Ptr;
  typedef boost::shared_ptr<Float32 const> ConstPtr;
  bool operator==(const Float32& o_) const { (void)o_; return data == o_.data; }
  bool operator!=(const Float32& o_) const { return !(*this == o_); }
};
typedef boost::shared_ptr<Float32> Float32Ptr;
typedef boost::shared_ptr<Float32 const> Float32ConstPtr;
}
#endif
