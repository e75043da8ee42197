#include <wrap_sync.h>
#include <shim/base.h>
#include <pthread.h>
#include <time.h>
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
int __real_pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
extern char __data_start, _end;
}
namespace syncw {
bool longWaits = true;
void off() { shim::pointHook() = nullptr; }
static inline bool heap(const void* p) { return !(p >= static_cast<const void*>(&__data_start) && p < static_cast<const void*>(&_end)); }
static struct timespec later(clockid_t c, const struct timespec* t) {
  struct timespec now, r = *t;
  clock_gettime(c, &now);
  if (longWaits && double(t->tv_sec - now.tv_sec) + 1e-9 * double(t->tv_nsec - now.tv_nsec) > 0.9) r.tv_sec += 60;
  return r;
}
}
extern "C" int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { if (syncw::heap(m)) shim::point(4); return __real_pthread_mutex_lock(m); }
extern "C" int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { int r = __real_pthread_mutex_unlock(m); if (syncw::heap(m)) shim::point(5); return r; }
extern "C" int __wrap_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) { if (syncw::heap(m)) shim::point(6); auto l = syncw::later(k, t); return __real_pthread_cond_clockwait(c, m, k, &l); }
extern "C" int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { if (syncw::heap(m)) shim::point(6); auto l = syncw::later(CLOCK_REALTIME, t); return __real_pthread_cond_timedwait(c, m, &l); }
#include <condition_variable>
extern "C" void __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(std::condition_variable*, std::unique_lock<std::mutex>*);
extern "C" void __wrap__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(std::condition_variable* c, std::unique_lock<std::mutex>* l) { if (syncw::heap(c)) shim::point(6); __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(c, l); }
