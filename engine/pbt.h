// A small property-based testing engine.
//
// A case is the sequence of integer choices a property draws from its Src; the sequence is a pure function of
// (VERIF_SEED, facet name, case index), is recorded while it is drawn, can be replayed, and is what gets shrunk.
// Cases run in forked workers, so a crash, a sanitizer report or a non-terminating call of the tested code is a
// failing case like any other.
#pragma once
#include <stdint.h>
#include <cmath>
#include <functional>
#include <limits>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

class Src {
 public:
  // random mode
  Src(uint64_t seed);
  // replay mode
  explicit Src(const std::vector<uint64_t>& choices);
  uint64_t raw(uint64_t n, int bias = 0);  // in [0, n)
  int i(int lo, int hi);                   // inclusive, shrinks to lo
  int si(int m);                           // [-m, m], shrinks to 0
  bool b(int num = 1, int den = 2);        // true with probability num/den; shrinks to false
  double d(double lo, double hi);          // shrinks to lo; end points and coarse fractions are over-represented
  double sd(double m);                     // [-m, m], shrinks to 0
  float f(float lo, float hi) { return static_cast<float>(d(lo, hi)); }
  float sf(float m) { return static_cast<float>(sd(m)); }
  double grid(double lo, double step, int n) { return lo + step * i(0, n - 1); }
  template <class T> const T& pick(const std::vector<T>& v) { return v[raw(v.size())]; }
  int w(std::initializer_list<int> weights);  // weighted index, shrinks to 0
  const std::vector<uint64_t>& choices() const { return rec_; }
  static void setSink(volatile uint64_t* sink, size_t cap);

 private:
  uint64_t next();
  bool replay_;
  uint64_t s_[2];
  std::vector<uint64_t> in_;
  size_t pos_ = 0;
  std::vector<uint64_t> rec_;
};

struct Fail { std::string msg; };
struct Discard {};

// per-case context -------------------------------------------------------------------------------
void nontrivial(bool b = true);          // mark the running case non-trivial
void label(const std::string& l);        // classify the running case
void note(const std::string& s);         // describe the running case (kept for samples and replays)
bool noting();                           // whether notes are kept for this case
[[noreturn]] void fail(const std::string& msg);
[[noreturn]] void discard();             // the case is outside the domain (counted, kept rare)
// a failure already recorded in the known-findings file, identified by `key`; returns true if it is listed there
bool known(const std::string& key, const std::string& what);

typedef std::function<void(Src&)> Fn;
struct Facet { std::string id, name; int quick, thorough; std::string rule; Fn fn; };
// properties whose cases also depend on how the threads are scheduled: a failure counts when it happens twice in some attempts
std::vector<std::string>& scheduled();
struct Scheduled { explicit Scheduled(const char* id) { scheduled().push_back(id); } };
struct Reg { Reg(const char* id, const char* name, int quick, int thorough, const char* rule, Fn fn); };

inline bool near(double a, double b, double tol) { return std::fabs(a - b) <= tol; }
inline bool sameOrBothNan(double a, double b, double tol) { return (std::isnan(a) && std::isnan(b)) || a == b || std::fabs(a - b) <= tol; }

template <class T> std::string str(const T& t) { std::ostringstream o; o.precision(9); o << t; return o.str(); }

int mainImpl(int argc, char** argv);
}  // namespace pbt

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
// FACET(P01, name, quick cases, thorough cases, "what is generated; what is non-trivial") { body using Src& s }
#define FACET(id, name, q, t, rule)                                        \
  static void PBT_CAT(facet_##id##_, name)(pbt::Src & s);                  \
  static pbt::Reg PBT_CAT(reg_##id##_, name)(#id, #name, q, t, rule, PBT_CAT(facet_##id##_, name)); \
  static void PBT_CAT(facet_##id##_, name)(pbt::Src & s)
#define CHECK(c, msg)                                                                    \
  do {                                                                                   \
    if (!(c)) {                                                                          \
      std::ostringstream o_;                                                             \
      o_.precision(9);                                                                   \
      o_ << msg << "   [" << #c << "]";                                                  \
      pbt::fail(o_.str());                                                               \
    }                                                                                    \
  } while (0)
#define NOTE(msg)                    \
  do {                               \
    if (pbt::noting()) {             \
      std::ostringstream o_;         \
      o_.precision(9);               \
      o_ << msg;                     \
      pbt::note(o_.str());           \
    }                                \
  } while (0)
