// generated by shim/gen/gen_msgs.py
#ifndef SHIM_NAV_MSGS_PATH_H
#define SHIM_NAV_MSGS_PATH_H
#include <shim/base.h>
#include <geometry_msgs/PoseStamped.h>
#include <std_msgs/Header.h>
namespace nav_msgs {
struct Path {
  Path() {  }
  std_msgs::Header header;
  std::vector<geometry_msgs::PoseStamped> poses;
  typedef boost::shared_ptr<Path> Ptr;
  typedef boost::shared_ptr<Path const> ConstPtr;
  bool operator==(const Path& o_) const { (void)o_; return header == o_.header && poses == o_.poses; }
  bool operator!=(const Path& o_) const { return !(*this == o_); }
};
typedef boost::shared_ptr<Path> PathPtr;
typedef boost::shared_ptr<Path const> PathConstPtr;
}
#endif
