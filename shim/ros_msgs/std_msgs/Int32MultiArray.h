// generated by shim/gen/gen_msgs.py
#ifndef SHIM_STD_MSGS_INT32MULTIARRAY_H
#define SHIM_STD_MSGS_INT32MULTIARRAY_H
#include <shim/base.h>
#include <std_msgs/MultiArrayLayout.h>
namespace std_msgs {
struct Int32MultiArray {
  Int32MultiArray() {  }
  std_msgs::MultiArrayLayout layout;
  std::vector<int32_t> data;
  typedef boost::shared_ptr<Int32MultiArray> Ptr;
  typedef boost::shared_ptr<Int32MultiArray const> ConstPtr;
  bool operator==(const Int32MultiArray& o_) const { (void)o_; return layout == o_.layout && data == o_.data; }
  bool operator!=(const Int32MultiArray& o_) const { return !(*this == o_); }
};
typedef boost::shared_ptr<Int32MultiArray> Int32MultiArrayPtr;
typedef boost::shared_ptr<Int32MultiArray const> Int32MultiArrayConstPtr;
}
#endif
