// generated by shim/gen/gen_msgs.py
#ifndef SHIM_NAV_MSGS_GRIDCELLS_H
#define SHIM_NAV_MSGS_GRIDCELLS_H
#include <shim/base.h>
#include <geometry_msgs/Point.h>
#include <std_msgs/Header.h>
namespace nav_msgs {
struct GridCells {
  GridCells() : cell_width(0), cell_height(0) {  }
  std_msgs::Header header;
  float cell_width;
  float cell_height;
  std::vector<geometry_msgs::Point> cells;
  typedef boost::shared_ptr<GridCells> Ptr;
  typedef boost::shared_ptr<GridCells const> ConstPtr;
  bool operator==(const GridCells& o_) const { (void)o_; return header == o_.header && cell_width == o_.cell_width && cell_height == o_.cell_height && cells == o_.cells; }
  bool operator!=(const GridCells& o_) const { return !(*this == o_); }
};
typedef boost::shared_ptr<GridCells> GridCellsPtr;
typedef boost::shared_ptr<GridCells const> GridCellsConstPtr;
}
#endif
