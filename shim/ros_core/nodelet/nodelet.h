#pragma once
#include <ros/ros.h>
namespace nodelet {
typedef std::vector<std::string> V_string;
typedef std::map<std::string, std::string> M_string;
class Nodelet {
 public:
  virtual ~Nodelet() {}
  void init(const std::string& n, const M_string& = M_string(), const V_string& = V_string()) { name_ = n; onInit(); }
 protected:
  const std::string& getName() const { return name_; }
  ros::NodeHandle getNodeHandle() const { return ros::NodeHandle(""); }
  ros::NodeHandle getPrivateNodeHandle() const { return ros::NodeHandle("~"); }
  ros::NodeHandle getMTNodeHandle() const { return ros::NodeHandle(""); }
  ros::NodeHandle getMTPrivateNodeHandle() const { return ros::NodeHandle("~"); }
  std::string name_ = "local_planner_nodelet";
 private:
  virtual void onInit() = 0;
};
}
