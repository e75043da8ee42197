#pragma once
#include <shim/base.h>
#include <shim/params.h>
#include <ros/callback_queue.h>
#include <ros/console.h>
#include <ros/param.h>
namespace ros { class TimerEvent; }
namespace shim {
// ---- topics -------------------------------------------------------------------------------------
struct SubRec {
  std::string topic;
  std::type_index type;
  std::function<void(const boost::shared_ptr<void const>&)> cb;
  bool alive;
  std::recursive_mutex m;  // one message at a time; unsubscribing waits for a running callback
};
struct PubRec { std::string topic; std::type_index type; boost::shared_ptr<void const> msg; };
// served: started spinners of the timer's own queue; null for the global queue, which the harness always serves
struct TimerRec { double period; std::function<void(const ros::TimerEvent&)> cb; std::shared_ptr<Served> served; bool running; bool alive; std::recursive_mutex m; };
struct Bus {
  std::recursive_mutex m;
  std::vector<std::shared_ptr<SubRec>> subs;
  std::vector<PubRec> out;                        // everything published, in order, until cleared
  std::atomic<bool> record{true};
  std::vector<std::shared_ptr<TimerRec>> timers;
  std::map<std::string, std::function<bool(void*, std::type_index)>> services;
  std::map<std::string, int> advertised;
};
inline Bus& bus() { static Bus* b = new Bus; return *b; }
inline std::string normTopic(std::string t) { while (!t.empty() && (t[0] == '/' || t[0] == '~')) t.erase(0, 1); return t; }
inline std::atomic<bool>& okFlag() { static std::atomic<bool> ok(true); return ok; }
template <class M> size_t deliver(const std::string& topic, const M& msg) {
  std::vector<std::shared_ptr<SubRec>> s;
  { std::lock_guard<std::recursive_mutex> l(bus().m); s = bus().subs; }
  size_t n = 0;
  boost::shared_ptr<M const> p = boost::make_shared<M>(msg);
  for (auto& r : s) if (r->topic == normTopic(topic) && r->type == std::type_index(typeid(M))) { std::lock_guard<std::recursive_mutex> l(r->m); if (r->alive) { r->cb(p); ++n; } }
  return n;
}
// a topic looked up beforehand
template <class M> struct Port {
  std::vector<std::shared_ptr<SubRec>> s;
  explicit Port(const std::string& topic) {
    std::lock_guard<std::recursive_mutex> l(bus().m);
    for (auto& r : bus().subs) if (r->topic == normTopic(topic) && r->type == std::type_index(typeid(M))) s.push_back(r);
  }
  void send(const boost::shared_ptr<M const>& p) const { for (auto& r : s) { std::lock_guard<std::recursive_mutex> l(r->m); if (r->alive) r->cb(p); } }
};
inline size_t subscriberCount(const std::string& topic) {
  std::lock_guard<std::recursive_mutex> l(bus().m); size_t n = 0;
  for (auto& r : bus().subs) if (r->alive && r->topic == normTopic(topic)) ++n;
  return n;
}
template <class M> std::vector<M> published(const std::string& topic) {
  std::lock_guard<std::recursive_mutex> l(bus().m);
  std::vector<M> v;
  for (auto& r : bus().out) if (r.topic == normTopic(topic) && r.type == std::type_index(typeid(M))) v.push_back(*boost::static_pointer_cast<M const>(r.msg));
  return v;
}
inline void clearPublished() { std::lock_guard<std::recursive_mutex> l(bus().m); bus().out.clear(); }
void fireTimers(double period = -1);
inline void resetBus() {
  std::lock_guard<std::recursive_mutex> l(bus().m);
  bus().out.clear();
  auto& s = bus().subs; for (size_t i = 0; i < s.size();) if (!s[i]->alive) s.erase(s.begin() + i); else ++i;
  auto& t = bus().timers; for (size_t i = 0; i < t.size();) if (!t[i]->alive) t.erase(t.begin() + i); else ++i;
}
// forget every subscription, timer, service and published message (the owners may be leaked on purpose)
inline void dropAll() {
  std::vector<std::shared_ptr<SubRec>> s; std::vector<std::shared_ptr<TimerRec>> t;
  { std::lock_guard<std::recursive_mutex> l(bus().m); s = bus().subs; t = bus().timers; }
  for (auto& r : s) { std::lock_guard<std::recursive_mutex> l(r->m); r->alive = false; }
  for (auto& r : t) { std::lock_guard<std::recursive_mutex> l(r->m); r->alive = false; }
  std::lock_guard<std::recursive_mutex> l(bus().m);
  bus().subs.clear(); bus().timers.clear(); bus().out.clear(); bus().services.clear(); bus().advertised.clear();
}
template <class P> struct MsgOf { typedef typename std::decay<P>::type type; static const typename std::decay<P>::type& conv(const boost::shared_ptr<type const>& p) { return *p; } };
template <class M> struct MsgOf<const boost::shared_ptr<M const>&> { typedef M type; static const boost::shared_ptr<M const>& conv(const boost::shared_ptr<M const>& p) { return p; } };
template <class M> struct MsgOf<boost::shared_ptr<M const>> { typedef M type; static boost::shared_ptr<M const> conv(const boost::shared_ptr<M const>& p) { return p; } };
template <class M> struct MsgOf<const boost::shared_ptr<M>&> { typedef M type; static boost::shared_ptr<M> conv(const boost::shared_ptr<M const>& p) { return boost::make_shared<M>(*p); } };
template <class M> struct MsgOf<boost::shared_ptr<M>> { typedef M type; static boost::shared_ptr<M> conv(const boost::shared_ptr<M const>& p) { return boost::make_shared<M>(*p); } };
}  // namespace shim
namespace ros {
typedef std::map<std::string, std::string> M_string;
typedef std::vector<std::string> V_string;
class Publisher {
 public:
  Publisher() {}
  explicit Publisher(const std::string& t) : topic_(t) {}
  template <class M> void publish(const M& m) const { put<M>(boost::make_shared<M>(m)); }
  template <class M> void publish(const boost::shared_ptr<M>& m) const { put<typename std::remove_const<M>::type>(m); }
  uint32_t getNumSubscribers() const { return 1; }
  std::string getTopic() const { return topic_; }
  bool isLatched() const { return false; }
  void shutdown() { topic_.clear(); }
  operator void*() const { return topic_.empty() ? nullptr : const_cast<Publisher*>(this); }
 private:
  template <class M> void put(boost::shared_ptr<M const> p) const {
    if (topic_.empty()) return;
    shim::point(2);
    if (!shim::bus().record) return;
    std::lock_guard<std::recursive_mutex> l(shim::bus().m);
    shim::bus().out.push_back(shim::PubRec{topic_, std::type_index(typeid(M)), p});
  }
  std::string topic_;
};
class Subscriber {
 public:
  Subscriber() {}
  explicit Subscriber(std::shared_ptr<shim::SubRec> r) : h_(new Handle{r}, [](Handle* h) { { std::lock_guard<std::recursive_mutex> l(h->r->m); h->r->alive = false; } delete h; }) {}
  void shutdown() { h_.reset(); }
  std::string getTopic() const { return h_ ? h_->r->topic : std::string(); }
  uint32_t getNumPublishers() const { return 1; }
  operator void*() const { return h_ ? const_cast<Subscriber*>(this) : nullptr; }
 private:
  struct Handle { std::shared_ptr<shim::SubRec> r; };
  std::shared_ptr<Handle> h_;
};
struct TimerEvent {
  Time last_expected, last_real, current_expected, current_real;
  struct { WallDuration last_duration; } profile;
};
typedef TimerEvent WallTimerEvent;
typedef TimerEvent SteadyTimerEvent;
typedef boost::function<void(const TimerEvent&)> TimerCallback;
struct TimerOptions {
  TimerOptions() : callback_queue(0), oneshot(false), autostart(true) {}
  TimerOptions(Duration p, const TimerCallback& cb, CallbackQueueInterface* q, bool os = false, bool as = true)
      : period(p), callback(cb), callback_queue(q), oneshot(os), autostart(as) {}
  Duration period; TimerCallback callback; CallbackQueueInterface* callback_queue; bool oneshot, autostart;
};
class Timer {
 public:
  Timer() {}
  explicit Timer(std::shared_ptr<shim::TimerRec> r) : h_(new Handle{r}, [](Handle* h) { { std::lock_guard<std::recursive_mutex> l(h->r->m); h->r->alive = false; } delete h; }) {}
  void start() { set(true); }
  void stop() { set(false); }
  void setPeriod(const Duration& d, bool reset = true) { (void)reset; if (h_) h_->r->period = d.toSec(); }
  bool hasPending() { return false; }
  bool hasStarted() const { return h_ && h_->r->running; }
  bool isValid() { return bool(h_); }
  operator void*() const { return h_ ? const_cast<Timer*>(this) : nullptr; }
 private:
  struct Handle { std::shared_ptr<shim::TimerRec> r; };
  void set(bool b) { if (!h_) return; std::lock_guard<std::recursive_mutex> l(h_->r->m); h_->r->running = b; }
  std::shared_ptr<Handle> h_;
};
typedef Timer WallTimer;
class ServiceClient {
 public:
  ServiceClient() {}
  explicit ServiceClient(const std::string& n) : name_(n) {}
  template <class S> bool call(S& s) {
    std::function<bool(void*, std::type_index)> f;
    { std::lock_guard<std::recursive_mutex> l(shim::bus().m); auto it = shim::bus().services.find(name_); if (it != shim::bus().services.end()) f = it->second; }
    return f ? f(&s, std::type_index(typeid(S))) : false;
  }
  template <class A, class B> bool call(A& req, B& res) { struct S { A request; B response; }; (void)req; (void)res; return false; }
  bool exists() const { return true; }
  bool isValid() const { return !name_.empty(); }
  bool waitForExistence(Duration d = Duration(-1)) { (void)d; return true; }
  void shutdown() {}
  std::string getService() const { return name_; }
 private:
  std::string name_;
};
class ServiceServer {};
class AsyncSpinner {
 public:
  explicit AsyncSpinner(uint32_t n, CallbackQueue* q = 0) { (void)n; if (q) served_ = q->shimServed; }
  AsyncSpinner(const AsyncSpinner&) = delete;
  AsyncSpinner& operator=(const AsyncSpinner&) = delete;
  ~AsyncSpinner() { stop(); }
  bool canStart() { return true; }
  void start() { if (!started_ && served_) ++served_->n; started_ = true; }
  void stop() { if (started_ && served_) { std::lock_guard<std::recursive_mutex> l(served_->run); --served_->n; } started_ = false; }
 private:
  std::shared_ptr<shim::Served> served_;
  bool started_ = false;
};
struct TransportHints { TransportHints& tcpNoDelay(bool = true) { return *this; } TransportHints& udp() { return *this; } TransportHints& reliable() { return *this; } };
class NodeHandle {
 public:
  NodeHandle(const std::string& ns = "") : ns_(ns) {}
  NodeHandle(const NodeHandle& o, const std::string& ns) : ns_(o.ns_.empty() ? ns : o.ns_ + "/" + ns) {}
  NodeHandle(const NodeHandle&) = default;
  NodeHandle& operator=(const NodeHandle&) = default;
  template <class M> Publisher advertise(const std::string& t, uint32_t q, bool latch = false) {
    (void)q; (void)latch; { std::lock_guard<std::recursive_mutex> l(shim::bus().m); shim::bus().advertised[shim::normTopic(t)]++; }
    return Publisher(shim::normTopic(t));
  }
  template <class P, class T> Subscriber subscribe(const std::string& t, uint32_t q, void (T::*f)(P), T* o, const TransportHints& = TransportHints()) {
    (void)q; typedef shim::MsgOf<P> X; typedef typename X::type M;
    return add<M>(t, [f, o](const boost::shared_ptr<void const>& p) { (o->*f)(X::conv(boost::static_pointer_cast<M const>(p))); });
  }
  template <class P, class T> Subscriber subscribe(const std::string& t, uint32_t q, void (T::*f)(P) const, T* o, const TransportHints& = TransportHints()) {
    (void)q; typedef shim::MsgOf<P> X; typedef typename X::type M;
    return add<M>(t, [f, o](const boost::shared_ptr<void const>& p) { (o->*f)(X::conv(boost::static_pointer_cast<M const>(p))); });
  }
  template <class M, class T> Subscriber subscribe(const std::string& t, uint32_t q, void (T::*f)(const boost::shared_ptr<M const>&), T* o, const TransportHints& = TransportHints()) {
    (void)q; return add<M>(t, [f, o](const boost::shared_ptr<void const>& p) { (o->*f)(boost::static_pointer_cast<M const>(p)); });
  }
  template <class P> Subscriber subscribe(const std::string& t, uint32_t q, void (*f)(P), const TransportHints& = TransportHints()) {
    (void)q; typedef shim::MsgOf<P> X; typedef typename X::type M;
    return add<M>(t, [f](const boost::shared_ptr<void const>& p) { f(X::conv(boost::static_pointer_cast<M const>(p))); });
  }
  template <class P> Subscriber subscribe(const std::string& t, uint32_t q,
      const boost::function<void(const boost::shared_ptr<typename shim::MsgOf<P>::type const>&)>& f, const TransportHints& = TransportHints()) {
    (void)q; typedef typename shim::MsgOf<P>::type M;
    return add<M>(t, [f](const boost::shared_ptr<void const>& p) { f(boost::static_pointer_cast<M const>(p)); });
  }
  template <class S> ServiceClient serviceClient(const std::string& n, bool persistent = false) { (void)persistent; return ServiceClient(shim::normTopic(n)); }
  Timer createTimer(const TimerOptions& o) const { return mk(o.period, o.callback, o.callback_queue, o.autostart); }
  Timer createTimer(const Duration& p, const TimerCallback& cb, bool oneshot = false, bool autostart = true) const { (void)oneshot; return mk(p, cb, nullptr, autostart); }
  template <class T> Timer createTimer(const Duration& p, void (T::*f)(const TimerEvent&), T* o, bool oneshot = false, bool autostart = true) const {
    (void)oneshot; return mk(p, [f, o](const TimerEvent& e) { (o->*f)(e); }, nullptr, autostart);
  }
  template <class T> bool getParam(const std::string& k, T& v) const { return shim::getParam(k, v); }
  template <class T> bool param(const std::string& k, T& v, const T& d) const { if (shim::getParam(k, v)) return true; v = d; return false; }
  template <class T> T param(const std::string& k, const T& d) const { T v; if (shim::getParam(k, v)) return v; return d; }
  template <class T> void setParam(const std::string& k, const T& v) const { shim::setParam(k, v); }
  bool hasParam(const std::string& k) const { return shim::hasParam(k); }
  void setCallbackQueue(CallbackQueueInterface*) {}
  CallbackQueueInterface* getCallbackQueue() const { return getGlobalCallbackQueue(); }
  std::string getNamespace() const { return ns_; }
  std::string resolveName(const std::string& n) const { return n; }
  bool ok() const { return shim::okFlag(); }
  void shutdown() {}
 private:
  template <class M, class F> Subscriber add(const std::string& t, F f) {
    std::shared_ptr<shim::SubRec> r(new shim::SubRec{shim::normTopic(t), std::type_index(typeid(M)), f, true});
    std::lock_guard<std::recursive_mutex> l(shim::bus().m);
    shim::bus().subs.push_back(r);
    return Subscriber(r);
  }
  template <class F> Timer mk(const Duration& p, const F& cb, CallbackQueueInterface* q, bool autostart) const {
    std::shared_ptr<shim::TimerRec> r(new shim::TimerRec{p.toSec(), cb, q && q != getGlobalCallbackQueue() ? q->shimServed : nullptr, autostart, true});
    std::lock_guard<std::recursive_mutex> l(shim::bus().m);
    shim::bus().timers.push_back(r);
    return Timer(r);
  }
  std::string ns_;
};
inline bool ok() { return shim::okFlag(); }
inline bool isShuttingDown() { return !shim::okFlag(); }
inline bool isInitialized() { return true; }
inline void init(int&, char**, const std::string&, uint32_t = 0) {}
inline void init(const M_string&, const std::string&, uint32_t = 0) {}
inline void shutdown() { shim::okFlag() = false; }
inline void requestShutdown() { shutdown(); }
inline void spin() {}
inline void waitForShutdown() { while (ok()) std::this_thread::sleep_for(std::chrono::milliseconds(1)); }
inline void spinOnce() { getGlobalCallbackQueue()->callAvailable(); }
inline void start() {}
namespace init_options { enum { NoSigintHandler = 1, AnonymousName = 2, NoRosout = 4 }; }
namespace this_node { inline std::string getName() { return "/node"; } inline std::string getNamespace() { return "/"; } }
namespace names { inline M_string getRemappings() { return M_string(); } }
}  // namespace ros
namespace shim {
inline void fireTimers(double period) {
  std::vector<std::shared_ptr<TimerRec>> t;
  { std::lock_guard<std::recursive_mutex> l(bus().m); t = bus().timers; }
  ros::TimerEvent e; e.current_real = e.current_expected = ros::Time::now();
  for (auto& r : t) {
    if (period >= 0 && std::fabs(r->period - period) >= 1e-9) continue;
    std::unique_lock<std::recursive_mutex> q;
    if (r->served) { q = std::unique_lock<std::recursive_mutex>(r->served->run); if (r->served->n <= 0) continue; }
    std::lock_guard<std::recursive_mutex> l(r->m);
    if (r->alive && r->running) r->cb(e);
  }
}
}  // namespace shim
