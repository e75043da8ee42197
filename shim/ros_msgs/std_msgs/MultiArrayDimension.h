// generated by shim/gen/gen_msgs.py
#ifndef SHIM_STD_MSGS_MULTIARRAYDIMENSION_H
#define SHIM_STD_MSGS_MULTIARRAYDIMENSION_H
#include <shim/base.h>
namespace std_msgs {
struct MultiArrayDimension {
  MultiArrayDimension() : size(0), stride(0) {  }
  std::string label;
  uint32_t size;
  uint32_t stride;
  typedef boost::shared_ptr<MultiArrayDimension> Ptr;
  typedef boost::shared_ptr<MultiArrayDimension const> ConstPtr;
  bool operator==(const MultiArrayDimension& o_) const { (void)o_; return label == o_.label && size == o_.size && stride == o_.stride; }
  bool operator!=(const MultiArrayDimension& o_) const { return !(*this == o_); }
};
typedef boost::shared_ptr<MultiArrayDimension> MultiArrayDimensionPtr;
typedef boost::shared_ptr<MultiArrayDimension const> MultiArrayDimensionConstPtr;
}
#endif
