#pragma once
#include <octomap/shim_octomap.h>
#include <octomap_msgs/Octomap.h>
namespace shim { inline std::function<octomap::AbstractOcTree*(const octomap_msgs::Octomap&)>& octomapFactory() { static std::function<octomap::AbstractOcTree*(const octomap_msgs::Octomap&)> f; return f; } }
namespace octomap_msgs {
inline octomap::AbstractOcTree* msgToMap(const Octomap& m) { return shim::octomapFactory() ? shim::octomapFactory()(m) : nullptr; }
inline octomap::AbstractOcTree* fullMsgToMap(const Octomap& m) { return msgToMap(m); }
inline octomap::AbstractOcTree* binaryMsgToMap(const Octomap& m) { return msgToMap(m); }
}
