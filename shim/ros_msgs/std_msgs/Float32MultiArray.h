// generated by shim/gen/gen_msgs.py
#ifndef SHIM_STD_MSGS_FLOAT32MULTIARRAY_H
#define SHIM_STD_MSGS_FLOAT32MULTIARRAY_H
#include <shim/base.h>
#include <std_msgs/MultiArrayLayout.h>
namespace std_msgs {
struct Float32MultiArray {
  Float32MultiArray() {  }
  std_msgs::MultiArrayLayout layout;
  std::vector<float> data;
  typedef boost::shared_ptr<Float32MultiArray> Ptr;
  typedef boost::shared_ptr<Float32MultiArray const> ConstPtr;
  bool operator==(const Float32MultiArray& o_) const { (void)o_; return layout == o_.layout && data == o_.data; }
  bool operator!=(const Float32MultiArray& o_) const { return !(*this == o_); }
};
typedef boost::shared_ptr<Float32MultiArray> Float32MultiArrayPtr;
typedef boost::shared_ptr<Float32MultiArray const> Float32MultiArrayConstPtr;
}
#endif
