#pragma once
#include <ros/ros.h>
#include <boost/any.hpp>
#include <memory>
#include <mutex>
namespace shim {
// one callback of a server runs at a time; a server that ends waits for it
template <class C> struct Reconf { void* server; boost::function<void(C&, uint32_t)> f; std::shared_ptr<std::recursive_mutex> run; std::shared_ptr<bool> gone; };
template <class C> std::vector<Reconf<C>>& reconfServers() { static std::vector<Reconf<C>> v; return v; }
inline std::mutex& reconfMutex() { static std::mutex m; return m; }
// what an operator does with rqt_reconfigure
template <class C> size_t reconfigure(C c, uint32_t level = ~0u) {
  c.__clamp__();
  std::vector<Reconf<C>> v; { std::lock_guard<std::mutex> l(reconfMutex()); v = reconfServers<C>(); }
  for (auto& p : v) { std::lock_guard<std::recursive_mutex> l(*p.run); if (*p.gone) continue; C k = c; p.f(k, level); }
  return v.size();
}
}
namespace dynamic_reconfigure {
template <class C> class Server {
  std::shared_ptr<std::recursive_mutex> run_ = std::make_shared<std::recursive_mutex>();
  std::shared_ptr<bool> gone_ = std::make_shared<bool>(false);
  void forget() { std::lock_guard<std::mutex> l(shim::reconfMutex()); auto& v = shim::reconfServers<C>(); for (size_t i = 0; i < v.size();) if (v[i].server == this) v.erase(v.begin() + long(i)); else ++i; }
 public:
  typedef boost::function<void(C&, uint32_t level)> CallbackType;
  Server(const ros::NodeHandle& = ros::NodeHandle("~")) {}
  Server(boost::recursive_mutex&, const ros::NodeHandle& = ros::NodeHandle("~")) {}
  ~Server() { forget(); std::lock_guard<std::recursive_mutex> l(*run_); *gone_ = true; }
  void setCallback(const CallbackType& f) {
    clearCallback();
    std::lock_guard<std::recursive_mutex> r(*run_);
    { std::lock_guard<std::mutex> l(shim::reconfMutex()); shim::reconfServers<C>().push_back({static_cast<void*>(this), f, run_, gone_}); }
    C c = C::__getDefault__(); f(c, ~0u);
  }
  void clearCallback() { forget(); std::lock_guard<std::recursive_mutex> l(*run_); }
  void updateConfig(const C&) {}
  void getConfigDefault(C& c) { c = C::__getDefault__(); }
  void setConfigDefault(const C&) {}
};
}
