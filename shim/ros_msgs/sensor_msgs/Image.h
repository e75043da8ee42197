// generated by shim/gen/gen_msgs.py
#ifndef SHIM_SENSOR_MSGS_IMAGE_H
#define SHIM_SENSOR_MSGS_IMAGE_H
#include <shim/base.h>
#include <std_msgs/Header.h>
namespace sensor_msgs {
struct Image {
  Image() : height(0), width(0), is_bigendian(0), step(0) {  }
  std_msgs::Header header;
  uint32_t height;
  uint32_t width;
  std::string encoding;
  uint8_t is_bigendian;
  uint32_t step;
  std::vector<uint8_t> data;
  typedef boost::shared_ptr<Image> Ptr;
  typedef boost::shared_ptr<Image const> ConstPtr;
  bool operator==(const Image& o_) const { (void)o_; return header == o_.header && height == o_.height && width == o_.width && encoding == o_.encoding && is_bigendian == o_.is_bigendian && step == o_.step && data == o_.data; }
  bool operator!=(const Image& o_) const { return !(*this == o_); }
};
typedef boost::shared_ptr<Image> ImagePtr;
typedef boost::shared_ptr<Image const> ImageConstPtr;
}
#endif
