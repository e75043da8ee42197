// Control over a thread of the tested code that polls: its sleeps end up here. The thread announces how
// long it wants to sleep and waits until the harness lets it run the next round. Sleeps are sleep_for() and timed waits
// on a condition variable.
#pragma once
#include <errno.h>
#include <pthread.h>
#include <stdint.h>
#include <time.h>
#include <condition_variable>
#include <chrono>
#include <mutex>
namespace threadctl {
struct Gate {
  std::mutex m;
  std::condition_variable cv;
  int rounds = 0;         // sleeps announced
  double lastSleep = 0;   // seconds
  enum Cmd { WAIT, GO, RELEASE } cmd = WAIT;  // RELEASE: sleeps no longer block
  double shortest = 0;    // shorter sleeps are none of ours
};
inline Gate*& gate() { static Gate* g = nullptr; return g; }
inline bool& owner() { static thread_local bool o = false; return o; }  // the harness' own thread
inline int64_t& skipped() { static thread_local int64_t ns = 0; return ns; }  // time this thread slept here
inline int onSleep(const struct timespec* t, pthread_mutex_t* held = nullptr) {
  Gate* g = gate();
  double d = double(t->tv_sec) + 1e-9 * double(t->tv_nsec);
  if (!g || owner() || d < g->shortest) return -1;  // not ours: the caller sleeps really
  if (held) pthread_mutex_unlock(held);
  {
    std::unique_lock<std::mutex> l(g->m);
    g->lastSleep = d;
    if (g->cmd == Gate::GO) g->cmd = Gate::WAIT;
    ++g->rounds;
    g->cv.notify_all();
    g->cv.wait(l, [g] { return g->cmd != Gate::WAIT; });
  }
  if (held) pthread_mutex_lock(held);
  skipped() += int64_t(t->tv_sec) * 1000000000 + t->tv_nsec;
  return 0;
}
// waits for the next announced sleep; false after a real timeout
inline bool awaitRound(Gate* g, int round, int ms = 5000) {
  std::unique_lock<std::mutex> l(g->m);
  return g->cv.wait_for(l, std::chrono::milliseconds(ms), [g, round] { return g->rounds >= round; });
}
inline void command(Gate* g, Gate::Cmd c) { std::lock_guard<std::mutex> l(g->m); g->cmd = c; g->cv.notify_all(); }
}  // namespace threadctl
#ifdef THREADCTL_IMPL
#include <dlfcn.h>
extern "C" int nanosleep(const struct timespec* t, struct timespec* rem) {
  if (threadctl::onSleep(t) == 0) return 0;
  typedef int (*F)(const struct timespec*, struct timespec*);
  static F f = (F)dlsym(RTLD_NEXT, "nanosleep");
  return f(t, rem);
}
extern "C" int clock_nanosleep(clockid_t c, int flags, const struct timespec* t, struct timespec* rem) {
  if (flags == 0 && threadctl::onSleep(t) == 0) return 0;
  typedef int (*F)(clockid_t, int, const struct timespec*, struct timespec*);
  static F f = (F)dlsym(RTLD_NEXT, "clock_nanosleep");
  return f(c, flags, t, rem);
}
// a thread that slept here sees a monotonic clock that went on meanwhile
extern "C" int clock_gettime(clockid_t k, struct timespec* t) {
  typedef int (*F)(clockid_t, struct timespec*);
  static F f = (F)dlsym(RTLD_NEXT, "clock_gettime");
  int r = f(k, t);
  if (r == 0 && k == CLOCK_MONOTONIC && threadctl::skipped()) {
    int64_t ns = t->tv_nsec + threadctl::skipped();
    t->tv_sec += time_t(ns / 1000000000);
    t->tv_nsec = long(ns % 1000000000);
  }
  return r;
}
extern "C" int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* until) {
  struct timespec now, d;
  clock_gettime(k, &now);
  int64_t ns = (int64_t(until->tv_sec) - now.tv_sec) * 1000000000 + until->tv_nsec - now.tv_nsec;
  if (ns < 0) ns = 0;
  // the time the harness announces is the one asked for, not what is left of it
  ns = (ns + 999999) / 1000000 * 1000000;
  d.tv_sec = time_t(ns / 1000000000);
  d.tv_nsec = long(ns % 1000000000);
  if (threadctl::onSleep(&d, m) == 0) return ETIMEDOUT;
  typedef int (*F)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
  static F f = (F)dlsym(RTLD_NEXT, "pthread_cond_clockwait");
  return f(c, m, k, until);
}
#endif
