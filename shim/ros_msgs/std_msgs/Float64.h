// generated by shim/gen/gen_msgs.py
#ifndef SHIM_STD_MSGS_FLOAT64_H
#define SHIM_STD_MSGS_FLOAT64_H
#include <shim/base.h>
namespace std_msgs {
struct Float64 {
  Float64() : data(0) {  }
  double data;
  typedef boost::shared_ptr<Float64> Ptr;
  typedef boost::shared_ptr<Float64 const> ConstPtr;
  bool operator==(const Float64& o_) const { (void)o_; return data == o_.data; }
  bool operator!=(const Float64& o_) const { return !(*this == o_); }
};
typedef boost::shared_ptr<Float64> Float64Ptr;
typedef boost::shared_ptr<Float64 const> Float64ConstPtr;
}
#endif
