#pragma once
namespace shim {
// the clock everything sees; nanoseconds since the epoch
inline std::atomic<int64_t>& clockNs() {
  static std::atomic<int64_t> t(1000000000000LL);
  return t;
}
// called at places where another thread may come in between: 0 log, 1 clock, 2 publish, 3 cloud transform, 7 transform lookup
// (a harness may call it for more kinds); for schedule injection
inline std::atomic<void (*)(int)>& pointHook() { static std::atomic<void (*)(int)> h(nullptr); return h; }
inline void point(int kind) { if (auto h = pointHook().load(std::memory_order_relaxed)) h(kind); }
// the longest sleep asked for since it was last set to 0, in ns
inline std::atomic<int64_t>& longestSleep() { static std::atomic<int64_t> n(0); return n; }
// whether sleeping moves the clock
inline std::atomic<bool>& sleepAdvances() { static std::atomic<bool> b(true); return b; }
inline void setNow(double s) { clockNs().store(static_cast<int64_t>(llround(s * 1e9)), std::memory_order_relaxed); }
inline void advance(double s) { clockNs().fetch_add(static_cast<int64_t>(llround(s * 1e9)), std::memory_order_relaxed); }
}  // namespace shim
namespace ros {
inline void shimNormDur(int64_t& sec, int64_t& nsec) {
  int64_t ns = nsec % 1000000000LL;
  int64_t s = sec + nsec / 1000000000LL;
  if (ns < 0) { ns += 1000000000LL; s -= 1; }
  if (s < std::numeric_limits<int32_t>::min() || s > std::numeric_limits<int32_t>::max())
    throw std::runtime_error("Duration is out of dual 32-bit range");
  sec = s; nsec = ns;
}
class Duration {
 public:
  int32_t sec, nsec;
  Duration() : sec(0), nsec(0) {}
  Duration(int32_t s, int32_t ns) { int64_t a = s, b = ns; shimNormDur(a, b); sec = int32_t(a); nsec = int32_t(b); }
  explicit Duration(double t) { fromSec(t); }
  static Duration raw64(int64_t s, int64_t ns) { Duration d; shimNormDur(s, ns); d.sec = int32_t(s); d.nsec = int32_t(ns); return d; }
  Duration& fromSec(double d) {
    if (!(d >= double(std::numeric_limits<int32_t>::min()) && d <= double(std::numeric_limits<int32_t>::max())))
      throw std::runtime_error("Duration is out of dual 32-bit range");
    int64_t s = int64_t(floor(d));
    int64_t ns = int64_t(llround((d - double(s)) * 1e9));
    shimNormDur(s, ns); sec = int32_t(s); nsec = int32_t(ns);
    return *this;
  }
  Duration& fromNSec(int64_t t) { int64_t s = t / 1000000000LL, n = t % 1000000000LL; shimNormDur(s, n); sec = int32_t(s); nsec = int32_t(n); return *this; }
  double toSec() const { return double(sec) + 1e-9 * double(nsec); }
  int64_t toNSec() const { return int64_t(sec) * 1000000000LL + int64_t(nsec); }
  bool isZero() const { return sec == 0 && nsec == 0; }
  bool sleep() const {
    if (toNSec() > 0) { int64_t l = shim::longestSleep().load(std::memory_order_relaxed); while (toNSec() > l && !shim::longestSleep().compare_exchange_weak(l, toNSec(), std::memory_order_relaxed)) {} if (shim::sleepAdvances()) shim::clockNs().fetch_add(toNSec(), std::memory_order_relaxed); std::this_thread::sleep_for(std::chrono::microseconds(200)); }
    return true;
  }
  Duration operator+(const Duration& r) const { return raw64(int64_t(sec) + r.sec, int64_t(nsec) + r.nsec); }
  Duration operator-(const Duration& r) const { return raw64(int64_t(sec) - r.sec, int64_t(nsec) - r.nsec); }
  Duration operator-() const { return raw64(-int64_t(sec), -int64_t(nsec)); }
  Duration operator*(double s) const { return Duration(toSec() * s); }
  Duration& operator+=(const Duration& r) { return *this = *this + r; }
  Duration& operator-=(const Duration& r) { return *this = *this - r; }
  Duration& operator*=(double s) { return *this = *this * s; }
  bool operator==(const Duration& r) const { return toNSec() == r.toNSec(); }
  bool operator!=(const Duration& r) const { return toNSec() != r.toNSec(); }
  bool operator<(const Duration& r) const { return toNSec() < r.toNSec(); }
  bool operator>(const Duration& r) const { return toNSec() > r.toNSec(); }
  bool operator<=(const Duration& r) const { return toNSec() <= r.toNSec(); }
  bool operator>=(const Duration& r) const { return toNSec() >= r.toNSec(); }
};
class WallDuration : public Duration {
 public:
  WallDuration() {}
  WallDuration(int32_t s, int32_t ns) : Duration(s, ns) {}
  explicit WallDuration(double t) : Duration(t) {}
};
class Time {
 public:
  uint32_t sec, nsec;
  Time() : sec(0), nsec(0) {}
  Time(uint32_t s, uint32_t ns) { *this = raw64(s, ns); }
  explicit Time(double t) { fromSec(t); }
  static Time raw64(int64_t s, int64_t ns) {
    int64_t n = ns % 1000000000LL, q = s + ns / 1000000000LL;
    if (n < 0) { n += 1000000000LL; q -= 1; }
    if (q < 0 || q > int64_t(std::numeric_limits<uint32_t>::max())) throw std::runtime_error("Time is out of dual 32-bit range");
    Time t; t.sec = uint32_t(q); t.nsec = uint32_t(n);
    return t;
  }
  Time& fromSec(double d) {
    if (!(d >= 0 && d <= double(std::numeric_limits<uint32_t>::max()))) throw std::runtime_error("Time is out of dual 32-bit range");
    int64_t s = int64_t(floor(d));
    return *this = raw64(s, int64_t(llround((d - double(s)) * 1e9)));
  }
  Time& fromNSec(uint64_t t) { return *this = raw64(int64_t(t / 1000000000ULL), int64_t(t % 1000000000ULL)); }
  double toSec() const { return double(sec) + 1e-9 * double(nsec); }
  uint64_t toNSec() const { return uint64_t(sec) * 1000000000ULL + uint64_t(nsec); }
  bool isZero() const { return sec == 0 && nsec == 0; }
  static Time now() { shim::point(1); Time t; t.fromNSec(uint64_t(shim::clockNs().load(std::memory_order_relaxed))); return t; }
  static void init() {}
  static bool useSystemTime() { return true; }
  static bool isValid() { return true; }
  static bool waitForValid() { return true; }
  static bool isSimTime() { return false; }
  Time operator+(const Duration& r) const { return raw64(int64_t(sec) + r.sec, int64_t(nsec) + r.nsec); }
  Time operator-(const Duration& r) const { return raw64(int64_t(sec) - r.sec, int64_t(nsec) - r.nsec); }
  Duration operator-(const Time& r) const { return Duration::raw64(int64_t(sec) - int64_t(r.sec), int64_t(nsec) - int64_t(r.nsec)); }
  Time& operator+=(const Duration& r) { return *this = *this + r; }
  Time& operator-=(const Duration& r) { return *this = *this - r; }
  bool operator==(const Time& r) const { return toNSec() == r.toNSec(); }
  bool operator!=(const Time& r) const { return toNSec() != r.toNSec(); }
  bool operator<(const Time& r) const { return toNSec() < r.toNSec(); }
  bool operator>(const Time& r) const { return toNSec() > r.toNSec(); }
  bool operator<=(const Time& r) const { return toNSec() <= r.toNSec(); }
  bool operator>=(const Time& r) const { return toNSec() >= r.toNSec(); }
};
class WallTime : public Time {
 public:
  WallTime() {}
  explicit WallTime(double t) : Time(t) {}
  WallTime(const Time& t) : Time(t) {}
  static WallTime now() { return WallTime(Time::now()); }
  WallDuration operator-(const WallTime& r) const { Duration d = Time(*this) - Time(r); return WallDuration(d.sec, d.nsec); }
};
static const Duration DURATION_MAX = Duration(std::numeric_limits<int32_t>::max(), 999999999);
static const Time TIME_MIN = Time(0, 1);
static const Time TIME_MAX = Time(std::numeric_limits<uint32_t>::max(), 999999999);
inline std::ostream& operator<<(std::ostream& os, const Time& t) { return os << t.sec << "." << t.nsec; }
inline std::ostream& operator<<(std::ostream& os, const Duration& t) { return os << t.toSec(); }
class Rate {
 public:
  explicit Rate(double f) : d_(1.0 / f) {}
  explicit Rate(const Duration& d) : d_(d) {}
  bool sleep() { d_.sleep(); return true; }
  void reset() {}
  Duration expectedCycleTime() const { return d_; }
  Duration cycleTime() const { return d_; }
 private:
  Duration d_;
};
typedef Rate WallRate;
}  // namespace ros
