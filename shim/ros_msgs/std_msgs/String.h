// generated by shim/gen/gen_msgs.py
#ifndef SHIM_STD_MSGS_STRING_H
#define SHIM_STD_MSGS_STRING_H
#include <shim/base.h>
namespace std_msgs {
struct String {
  String() {  }
  std::string data;
  typedef boost::shared_ptr<String> Ptr;
  typedef boost::shared_ptr<String const> ConstPtr;
  bool operator==(const String& o_) const { (void)o_; return data == o_.data; }
  bool operator!=(const String& o_) const { return !(*this == o_); }
};
typedef boost::shared_ptr<String> StringPtr;
typedef boost::shared_ptr<String const> StringConstPtr;
}
#endif
