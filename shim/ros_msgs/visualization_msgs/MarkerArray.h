// generated by shim/gen/gen_msgs.py
#ifndef SHIM_VISUALIZATION_MSGS_MARKERARRAY_H
#define SHIM_VISUALIZATION_MSGS_MARKERARRAY_H
#include <shim/base.h>
#include <visualization_msgs/Marker.h>
namespace visualization_msgs {
struct MarkerArray {
  MarkerArray() {  }
  std::vector<visualization_msgs::Marker> markers;
  typedef boost::shared_ptr<MarkerArray> Ptr;
  typedef boost::shared_ptr<MarkerArray const> ConstPtr;
  bool operator==(const MarkerArray& o_) const { (void)o_; return markers == o_.markers; }
  bool operator!=(const MarkerArray& o_) const { return !(*this == o_); }
};
typedef boost::shared_ptr<MarkerArray> MarkerArrayPtr;
typedef boost::shared_ptr<MarkerArray const> MarkerArrayConstPtr;
}
#endif
