// generated by shim/gen/gen_msgs.py
#ifndef SHIM_STD_MSGS_FLOAT64MULTIARRAY_H
#define SHIM_STD_MSGS_FLOAT64MULTIARRAY_H
#include <shim/base.h>
#include <std_msgs/MultiArrayLayout.h>
namespace std_msgs {
struct Float64MultiArray {
  Float64MultiArray() {  }
  std_msgs::MultiArrayLayout layout;
  std::vector<double> data;
  typedef boost::shared_ptr<Float64MultiArray> Ptr;
  typedef boost::shared_ptr<Float64MultiArray const> ConstPtr;
  bool operator==(const Float64MultiArray& o_) const { (void)o_; return layout == o_.layout && data == o_.data; }
  bool operator!=(const Float64MultiArray& o_) const { return !(*this == o_); }
};
typedef boost::shared_ptr<Float64MultiArray> Float64MultiArrayPtr;
typedef boost::shared_ptr<Float64MultiArray const> Float64MultiArrayConstPtr;
}
#endif
