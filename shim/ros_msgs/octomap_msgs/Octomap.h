// generated by shim/gen/gen_msgs.py
#ifndef SHIM_OCTOMAP_MSGS_OCTOMAP_H
#define SHIM_OCTOMAP_MSGS_OCTOMAP_H
#include <shim/base.h>
#include <std_msgs/Header.h>
namespace octomap_msgs {
struct Octomap {
  Octomap() : binary(0), resolution(0) {  }
  std_msgs::Header header;
  uint8_t binary;
  std::string id;
  double resolution;
  std::vector<int8_t> data;
  typedef boost::shared_ptr<Octomap> Ptr;
  typedef boost::shared_ptr<Octomap const> ConstPtr;
  bool operator==(const Octomap& o_) const { (void)o_; return header == o_.header && binary == o_.binary && id == o_.id && resolution == o_.resolution && data == o_.data; }
  bool operator!=(const Octomap& o_) const { return !(*this == o_); }
};
typedef boost::shared_ptr<Octomap> OctomapPtr;
typedef boost::shared_ptr<Octomap const> OctomapConstPtr;
}
#endif
