// generated by shim/gen/gen_msgs.py
#ifndef SHIM_STD_MSGS_INT64MULTIARRAY_H
#define SHIM_STD_MSGS_INT64MULTIARRAY_H
#include <shim/base.h>
#include <std_msgs/MultiArrayLayout.h>
namespace std_msgs {
struct Int64MultiArray {
  Int64MultiArray() {  }
  std_msgs::MultiArrayLayout layout;
  std::vector<int64_t> data;
  typedef boost::shared_ptr<Int64MultiArray> Ptr;
  typedef boost::shared_ptr<Int64MultiArray const> ConstPtr;
  bool operator==(const Int64MultiArray& o_) const { (void)o_; return layout == o_.layout && data == o_.data; }
  bool operator!=(const Int64MultiArray& o_) const { return !(*this == o_); }
};
typedef boost::shared_ptr<Int64MultiArray> Int64MultiArrayPtr;
typedef boost::shared_ptr<Int64MultiArray const> Int64MultiArrayConstPtr;
}
#endif
