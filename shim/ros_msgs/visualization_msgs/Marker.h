// generated by shim/gen/gen_msgs.py
#ifndef SHIM_VISUALIZATION_MSGS_MARKER_H
#define SHIM_VISUALIZATION_MSGS_MARKER_H
#include <shim/base.h>
#include <geometry_msgs/Point.h>
#include <geometry_msgs/Pose.h>
#include <geometry_msgs/Vector3.h>
#include <std_msgs/ColorRGBA.h>
#include <std_msgs/Header.h>
namespace visualization_msgs {
struct Marker {
  Marker() : id(0), type(0), action(0), frame_locked(0), mesh_use_embedded_materials(0) {  }
  enum { ARROW = 0 };
  enum { CUBE = 1 };
  enum { SPHERE = 2 };
  enum { CYLINDER = 3 };
  enum { LINE_STRIP = 4 };
  enum { LINE_LIST = 5 };
  enum { CUBE_LIST = 6 };
  enum { SPHERE_LIST = 7 };
  enum { POINTS = 8 };
  enum { TEXT_VIEW_FACING = 9 };
  enum { MESH_RESOURCE = 10 };
  enum { TRIANGLE_LIST = 11 };
  enum { ADD = 0 };
  enum { MODIFY = 0 };
  enum { DELETE = 2 };
  enum { DELETEALL = 3 };
  std_msgs::Header header;
  std::string ns;
  int32_t id;
  int32_t type;
  int32_t action;
  geometry_msgs::Pose pose;
  geometry_msgs::Vector3 scale;
  std_msgs::ColorRGBA color;
  ros::Duration lifetime;
  uint8_t frame_locked;
  std::vector<geometry_msgs::Point> points;
  std::vector<std_msgs::ColorRGBA> colors;
  std::string text;
  std::string mesh_resource;
  uint8_t mesh_use_embedded_materials;
  typedef boost::shared_ptr<Marker> Ptr;
  typedef boost::shared_ptr<Marker const> ConstPtr;
  bool operator==(const Marker& o_) const { (void)o_; return header == o_.header && ns == o_.ns && id == o_.id && type == o_.type && action == o_.action && pose == o_.pose && scale == o_.scale && color == o_.color && lifetime == o_.lifetime && frame_locked == o_.frame_locked && points == o_.points && colors == o_.colors && text == o_.text && mesh_resource == o_.mesh_resource && mesh_use_embedded_materials == o_.mesh_use_embedded_materials; }
  bool operator!=(const Marker& o_) const { return !(*this == o_); }
};
typedef boost::shared_ptr<Marker> MarkerPtr;
typedef boost::shared_ptr<Marker const> MarkerConstPtr;
}
#endif
