// generated by shim/gen/gen_msgs.py
#ifndef SHIM_STD_MSGS_MULTIARRAYLAYOUT_H
#define SHIM_STD_MSGS_MULTIARRAYLAYOUT_H
#include <shim/base.h>
#include <std_msgs/MultiArrayDimension.h>
namespace std_msgs {
struct MultiArrayLayout {
  MultiArrayLayout() : data_offset(0) {  }
  std::vector<std_msgs::MultiArrayDimension> dim;
  uint32_t data_offset;
  typedef boost::shared_ptr<MultiArrayLayout> Ptr;
  typedef boost::shared_ptr<MultiArrayLayout const> ConstPtr;
  bool operator==(const MultiArrayLayout& o_) const { (void)o_; return dim == o_.dim && data_offset == o_.data_offset; }
  bool operator!=(const MultiArrayLayout& o_) const { return !(*this == o_); }
};
typedef boost::shared_ptr<MultiArrayLayout> MultiArrayLayoutPtr;
typedef boost::shared_ptr<MultiArrayLayout const> MultiArrayLayoutConstPtr;
}
#endif
