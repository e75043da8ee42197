// generated by shim/gen/gen_msgs.py
#ifndef SHIM_SENSOR_MSGS_POINTFIELD_H
#define SHIM_SENSOR_MSGS_POINTFIELD_H
#include <shim/base.h>
namespace sensor_msgs {
struct PointField {
  PointField() : offset(0), datatype(0), count(0) {  }
  enum { INT8 = 1 };
  enum { UINT8 = 2 };
  enum { INT16 = 3 };
  enum { UINT16 = 4 };
  enum { INT32 = 5 };
  enum { UINT32 = 6 };
  enum { FLOAT32 = 7 };
  enum { FLOAT64 = 8 };
  std::string name;
  uint32_t offset;
  uint8_t datatype;
  uint32_t count;
  typedef boost::shared_ptr<PointField> Ptr;
  typedef boost::shared_ptr<PointField const> ConstPtr;
  bool operator==(const PointField& o_) const { (void)o_; return name == o_.name && offset == o_.offset && datatype == o_.datatype && count == o_.count; }
  bool operator!=(const PointField& o_) const { return !(*this == o_); }
};
typedef boost::shared_ptr<PointField> PointFieldPtr;
typedef boost::shared_ptr<PointField const> PointFieldConstPtr;
}
#endif
