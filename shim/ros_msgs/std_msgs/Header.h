// generated by shim/gen/gen_msgs.py
#ifndef SHIM_STD_MSGS_HEADER_H
#define SHIM_STD_MSGS_HEADER_H
#include <shim/base.h>
namespace std_msgs {
struct Header {
  Header() : seq(0) {  }
  uint32_t seq;
  ros::Time stamp;
  std::string frame_id;
  typedef boost::shared_ptr<Header> Ptr;
  typedef boost::shared_ptr<Header const> ConstPtr;
  bool operator==(const Header& o_) const { (void)o_; return seq == o_.seq && stamp == o_.stamp && frame_id == o_.frame_id; }
  bool operator!=(const Header& o_) const { return !(*this == o_); }
};
typedef boost::shared_ptr<Header> HeaderPtr;
typedef boost::shared_ptr<Header const> HeaderConstPtr;
}
#endif
