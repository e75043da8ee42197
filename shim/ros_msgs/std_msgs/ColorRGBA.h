// generated by shim/gen/gen_msgs.py
#ifndef SHIM_STD_MSGS_COLORRGBA_H
#define SHIM_STD_MSGS_COLORRGBA_H
#include <shim/base.h>
namespace std_msgs {
struct ColorRGBA {
  ColorRGBA() : r(0), g(0), b(0), a(0) {  }
  float r;
  float g;
  float b;
  float a;
  typedef boost::shared_ptr<ColorRGBA> Ptr;
  typedef boost::shared_ptr<ColorRGBA const> ConstPtr;
  bool operator==(const ColorRGBA& o_) const { (void)o_; return r == o_.r && g == o_.g && b == o_.b && a == o_.a; }
  bool operator!=(const ColorRGBA& o_) const { return !(*this == o_); }
};
typedef boost::shared_ptr<ColorRGBA> ColorRGBAPtr;
typedef boost::shared_ptr<ColorRGBA const> ColorRGBAConstPtr;
}
#endif
