// Stand-in for octomap: a voxel table with the lookup semantics of OcTree::search.
#pragma once
#include <shim/base.h>
#include <unordered_map>
namespace octomap {
inline double probability(double l) { return 1. - (1. / (1. + exp(l))); }
inline float logodds(double p) { return float(log(p / (1 - p))); }
typedef uint16_t key_type;
struct point3d { float d[3]; point3d(float x = 0, float y = 0, float z = 0) { d[0] = x; d[1] = y; d[2] = z; } float x() const { return d[0]; } float y() const { return d[1]; } float z() const { return d[2]; } float& x() { return d[0]; } float& y() { return d[1]; } float& z() { return d[2]; } };
class OcTreeNode {
 public:
  explicit OcTreeNode(float v = 0) : value_(v) {}
  float getValue() const { return value_; }
  void setValue(float v) { value_ = v; }
  double getOccupancy() const { return probability(value_); }
  float getLogOdds() const { return value_; }
  void setLogOdds(float l) { value_ = l; }
 private:
  float value_;
};
class AbstractOcTree { public: virtual ~AbstractOcTree() {} virtual double getResolution() const = 0; virtual std::string getTreeType() const = 0; virtual size_t size() const = 0; virtual size_t memoryUsage() const = 0; virtual void clear() = 0; };
class AbstractOccupancyOcTree : public AbstractOcTree {};
class OcTree : public AbstractOccupancyOcTree {
 public:
  explicit OcTree(double res) : res_(res) {}
  double getResolution() const override { return res_; }
  std::string getTreeType() const override { return "OcTree"; }
  size_t size() const override { return lv_[0].size(); }
  size_t memoryUsage() const override { return lv_[0].size() * 16; }
  void clear() override { for (auto& m : lv_) m.clear(); }
  unsigned getTreeDepth() const { return 16; }
  double getNodeSize(unsigned depth) const { return res_ * double(1u << (16 - depth)); }
  bool isNodeOccupied(const OcTreeNode& n) const { return n.getLogOdds() >= 0.f; }
  bool isNodeOccupied(const OcTreeNode* n) const { return n->getLogOdds() >= 0.f; }
  double getOccupancyThres() const { return 0.5; }
  // sets the voxel containing (x,y,z); inner nodes carry the maximum of their children
  OcTreeNode* setNodeValue(double x, double y, double z, float logodds) {
    int k[3]; if (!key(x, y, z, k)) return nullptr;
    OcTreeNode* leaf = nullptr;
    for (int s = 0; s < L; ++s) {
      uint64_t h = hash(k, s);
      auto it = lv_[s].find(h);
      if (it == lv_[s].end()) it = lv_[s].emplace(h, OcTreeNode(logodds)).first;
      else if (s == 0 || it->second.getValue() < logodds) it->second.setValue(logodds);
      if (s == 0) leaf = &it->second;
    }
    return leaf;
  }
  OcTreeNode* setNodeValue(const point3d& p, float l, bool lazy = false) { (void)lazy; return setNodeValue(p.x(), p.y(), p.z(), l); }
  static std::function<void(const OcTree*)>& searchHook() { static std::function<void(const OcTree*)> f; return f; }
  OcTreeNode* search(double x, double y, double z, unsigned depth = 0) const {
    if (searchHook()) searchHook()(this);
    int k[3]; if (!key(x, y, z, k)) return nullptr;
    int s = depth == 0 ? 0 : 16 - int(depth);
    if (s < 0 || s >= L) return nullptr;
    auto it = lv_[s].find(hash(k, s));
    return it == lv_[s].end() ? nullptr : const_cast<OcTreeNode*>(&it->second);
  }
  OcTreeNode* search(const point3d& p, unsigned depth = 0) const { return search(p.x(), p.y(), p.z(), depth); }
 private:
  static const int L = 6;
  bool key(double x, double y, double z, int* k) const {
    double c[3] = {x, y, z};
    for (int i = 0; i < 3; ++i) { double f = floor(c[i] / res_); if (!(f >= -32768 && f < 32768)) return false; k[i] = int(f) + 32768; }
    return true;
  }
  static uint64_t hash(const int* k, int s) { return (uint64_t(k[0] >> s) << 40) | (uint64_t(k[1] >> s) << 20) | uint64_t(k[2] >> s); }
  double res_;
  std::unordered_map<uint64_t, OcTreeNode> lv_[L];
};
}  // namespace octomap
