#pragma once
#include <shim/base.h>
#include <atomic>
#include <memory>
namespace shim {
// run when node code services the global callback queue
inline std::function<void(double)>& onCallAvailable() { static std::function<void(double)> f; return f; }
}
namespace shim {
// how many started spinners serve a queue; one callback of it runs at a time
struct Served { std::atomic<int> n{0}; std::recursive_mutex run; };
}
namespace ros {
class CallbackQueueInterface {
 public:
  virtual ~CallbackQueueInterface() {}
  // shared: spinners and timers may outlive the queue
  std::shared_ptr<shim::Served> shimServed = std::make_shared<shim::Served>();
};
class CallbackQueue : public CallbackQueueInterface {
 public:
  explicit CallbackQueue(bool enabled = true) { (void)enabled; }
  void callAvailable() { callAvailable(WallDuration()); }
  void callAvailable(WallDuration d) { if (shim::onCallAvailable()) shim::onCallAvailable()(d.toSec()); }
  void callOne(WallDuration d = WallDuration()) { callAvailable(d); }
  bool isEmpty() { return true; }
  bool empty() { return true; }
  void clear() {}
  void enable() {}
  void disable() {}
};
inline CallbackQueue* getGlobalCallbackQueue() { static CallbackQueue q; return &q; }
}
