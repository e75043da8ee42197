#include "pbt.h"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <unordered_set>

namespace pbt {
namespace {
const size_t kCap = 1 << 16;  // recorded choices per case
struct Shared {
  volatile uint64_t facet, index, n, state;  // state: 0 idle, 1 running, 2 failed, 3 done
  char msg[8192];
  volatile uint64_t choices[kCap];
};
volatile uint64_t* gSink = nullptr;
volatile uint64_t* gSinkN = nullptr;
size_t gSinkCap = 0;

uint64_t splitmix(uint64_t& x) {
  x += 0x9E3779B97F4A7C15ULL;
  uint64_t z = x;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}
uint64_t fnv(const std::string& s, uint64_t h = 1469598103934665603ULL) {
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
  return h;
}
std::vector<Facet>& facets() { static std::vector<Facet> f; return f; }

struct Case {
  bool nontrivial = false, noting = false;
  std::vector<std::string> labels;
  std::string notes;
  std::vector<std::pair<std::string, std::string>> known;
} gCase;
std::map<std::string, std::string> gKnownList;  // key -> description

double nowS() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec) + 1e-9 * double(t.tv_nsec); }
int gCpuLimit = 30, gWallLimit = 60;
Shared* gShared = nullptr;
void onHang(int) {
  if (gShared) { strcpy(gShared->msg, "the call does not return (CPU/wall limit of the case exceeded)"); gShared->state = 2; }
  _exit(78);
}
void armLimits(int cpu, int wall) {
  struct itimerval v; memset(&v, 0, sizeof v); v.it_value.tv_sec = cpu;
  setitimer(ITIMER_PROF, &v, nullptr);
  memset(&v, 0, sizeof v); v.it_value.tv_sec = wall;
  setitimer(ITIMER_REAL, &v, nullptr);
}
enum Outcome { OK, FAILED, DISCARDED };
Outcome runOne(const Facet& f, Src& s, std::string& msg) {
  try {
    f.fn(s);
    return OK;
  } catch (const Fail& e) { msg = e.msg; return FAILED;
  } catch (const Discard&) { return DISCARDED;
  } catch (const std::exception& e) { msg = std::string("unexpected exception: ") + e.what(); return FAILED;
  } catch (...) { msg = "unexpected exception of unknown type"; return FAILED; }
}
Shared* mapShared() {
  void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
  return static_cast<Shared*>(p);
}
std::string tailOf(const std::string& path, size_t n = 3000) {
  std::ifstream i(path); std::stringstream ss; ss << i.rdbuf(); std::string s = ss.str();
  // keep the start of a sanitizer report, which names the error
  size_t p = s.find("ERROR: AddressSanitizer"); if (p == std::string::npos) p = s.find("runtime error:"); if (p == std::string::npos) p = s.find("Assertion"); if (p == std::string::npos) p = s.find("WARNING: ThreadSanitizer");
  if (p != std::string::npos) { size_t b = s.rfind('\n', p); return s.substr(b == std::string::npos ? 0 : b + 1, s.compare(p, 8, "WARNING:") == 0 ? 4 * n : n); }
  return s.size() > n ? s.substr(s.size() - n) : s;
}
void childSetup(Shared* sh, const std::string& errPath) {
  gShared = sh;
  gSink = sh->choices; gSinkN = &sh->n; gSinkCap = kCap;
  signal(SIGPROF, onHang); signal(SIGALRM, onHang);
  int fd = open(errPath.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); }
}
std::string gTmp;
// runs one choice sequence in a child; true if it fails
bool attempt(const Facet& f, const std::vector<uint64_t>& c, std::string& msg, std::vector<uint64_t>& used, std::string* notes = nullptr) {
  static Shared* sh = mapShared();
  sh->n = 0; sh->state = 1; sh->msg[0] = 0;
  std::string err = gTmp + "/attempt.err", np = gTmp + "/attempt.notes";
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p == 0) {
    childSetup(sh, err);
    armLimits(gCpuLimit, gWallLimit);
    gCase = Case(); gCase.noting = notes != nullptr;
    Src s(c); std::string m;
    Outcome o = runOne(f, s, m);
    if (notes) { std::ofstream n(np); n << gCase.notes; for (auto& l : gCase.labels) n << "\n[label] " << l; }
    if (o == FAILED) { strncpy(sh->msg, m.c_str(), sizeof(sh->msg) - 1); sh->state = 2; } else sh->state = 3;
    _exit(0);
  }
  int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  used.assign(sh->choices, sh->choices + std::min<uint64_t>(uint64_t(sh->n), kCap));
  if (notes) { std::ifstream i(np); std::stringstream ss; ss << i.rdbuf(); *notes = ss.str(); unlink(np.c_str()); }
  if (sh->state == 3) return false;
  if (sh->state == 2) { msg = sh->msg; return true; }
  msg = "the process died (" + std::string(WIFSIGNALED(st) ? "signal " + str(WTERMSIG(st)) : "exit " + str(WEXITSTATUS(st))) + ") in the tested code:\n" + tailOf(err);
  return true;
}
std::vector<uint64_t> shrink(const Facet& f, std::vector<uint64_t> best, std::string& msg, double budget) {
  double end = nowS() + budget; int tries = 0;
  std::string m; std::vector<uint64_t> used;
  auto lessSeq = [](const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) { return a.size() != b.size() ? a.size() < b.size() : a < b; };
  auto tryIt = [&](const std::vector<uint64_t>& c) {
    if (nowS() > end || tries > 6000) return false;
    ++tries;
    if (!attempt(f, c, m, used)) return false;
    while (!used.empty() && used.back() == 0) used.pop_back();  // exhausted input reads as zeros
    if (lessSeq(used, best)) { best = used; msg = m; return true; }
    return false;
  };
  bool progress = true;
  while (progress && nowS() < end) {
    progress = false;
    for (size_t k = std::max<size_t>(1, best.size() / 2); k >= 1; k /= 2) {
      for (size_t i = 0; i + k <= best.size() && nowS() < end;) {
        std::vector<uint64_t> c(best); c.erase(c.begin() + long(i), c.begin() + long(i + k));
        if (tryIt(c)) progress = true; else i += k;
      }
      if (k == 1) break;
    }
    for (size_t k = std::max<size_t>(1, best.size() / 2); k >= 1; k /= 2) {
      for (size_t i = 0; i + k <= best.size() && nowS() < end; i += k) {
        std::vector<uint64_t> c(best); bool z = true;
        for (size_t j = i; j < i + k; ++j) { if (c[j]) z = false; c[j] = 0; }
        if (!z && tryIt(c)) progress = true;
      }
      if (k == 1) break;
    }
    for (size_t i = 0; i < best.size() && nowS() < end; ++i) {
      uint64_t lo = 0;
      while (i < best.size() && lo < best[i] && nowS() < end) {
        std::vector<uint64_t> c(best); uint64_t mid = lo + (best[i] - lo) / 2; c[i] = mid;
        if (tryIt(c)) progress = true; else lo = mid + 1;
      }
    }
  }
  return best;
}
std::string jesc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += char(c);
  }
  return o;
}
struct Stats { uint64_t evals = 0, nontrivial = 0, discarded = 0; std::map<std::string, uint64_t> labels; std::set<uint64_t> hashes; std::vector<std::string> samples; std::map<std::string, uint64_t> knownHits; };
}  // namespace

Src::Src(uint64_t seed) : replay_(false) { uint64_t x = seed; s_[0] = splitmix(x); s_[1] = splitmix(x); }
Src::Src(const std::vector<uint64_t>& c) : replay_(true), in_(c) { s_[0] = s_[1] = 0; }
uint64_t Src::next() {
  uint64_t a = s_[0]; const uint64_t b = s_[1];
  const uint64_t r = a + b; s_[0] = b; a ^= a << 23; s_[1] = a ^ b ^ (a >> 18) ^ (b >> 5);
  return r;
}
uint64_t Src::raw(uint64_t n, int bias) {
  if (n == 0) n = 1;
  uint64_t v;
  if (replay_) {
    v = pos_ < in_.size() ? in_[pos_] : 0; ++pos_;
    if (v >= n) v = n - 1;
  } else {
    uint64_t r = next();
    v = (r >> 11) % n;
    if (bias == 1) {  // integers: ends a little more often
      uint64_t k = next() >> 58; if (k == 0) v = 0; else if (k == 1) v = n - 1;
    } else if (bias == 2) {  // fractions of a range: ends and sixteenths more often
      uint64_t k = next() >> 58;
      if (k == 0) v = 0; else if (k == 1) v = n - 1; else if (k < 8) v = ((next() >> 11) % 17) * ((n - 1) / 16);
    }
  }
  rec_.push_back(v);
  if (gSink && rec_.size() <= gSinkCap) { gSink[rec_.size() - 1] = v; *gSinkN = rec_.size(); }
  if (rec_.size() > kCap) throw Discard();
  return v;
}
int Src::i(int lo, int hi) { return hi <= lo ? (raw(1), lo) : int(int64_t(lo) + int64_t(raw(uint64_t(int64_t(hi) - lo) + 1, 1))); }
int Src::si(int m) { uint64_t v = raw(2 * uint64_t(m) + 1, 1); return int((v & 1) ? -int64_t((v + 1) / 2) : int64_t(v / 2)); }
bool Src::b(int num, int den) { return raw(uint64_t(den)) >= uint64_t(den - num); }
double Src::d(double lo, double hi) { const uint64_t N = 1ULL << 30; return lo + (hi - lo) * (double(raw(N + 1, 2)) / double(N)); }
double Src::sd(double m) { const uint64_t N = 1ULL << 30; uint64_t v = raw(2 * N + 2, 2); double r = m * (double(v >> 1) / double(N)); return (v & 1) ? -r : r; }
int Src::w(std::initializer_list<int> ws) {
  int t = 0; for (int x : ws) t += x;
  int64_t r = int64_t(raw(uint64_t(t))); int k = 0;
  for (int x : ws) { if (r < x) return k; r -= x; ++k; }
  return k - 1;
}
void nontrivial(bool b) { gCase.nontrivial = b; }
void label(const std::string& l) { for (auto& x : gCase.labels) if (x == l) return; gCase.labels.push_back(l); }
void note(const std::string& s) { if (gCase.noting && gCase.notes.size() < 20000) { gCase.notes += s; gCase.notes += '\n'; } }
bool noting() { return gCase.noting; }
void fail(const std::string& m) { throw Fail{m}; }
void discard() { throw Discard(); }
bool known(const std::string& key, const std::string& what) {
  if (!gKnownList.count(key)) return false;
  gCase.known.push_back(std::make_pair(key, what));
  return true;
}
std::vector<std::string>& scheduled() { static std::vector<std::string> v; return v; }
Reg::Reg(const char* id, const char* name, int q, int t, const char* rule, Fn fn) { facets().push_back(Facet{id, name, q, t, rule, fn}); }

namespace {
// the cases of one worker, in order; ends the process at the first failing case
void workerLoop(const std::vector<Facet>& fs, uint64_t seed, bool thorough, double scale, int w, int jobs, double t0, double budget, Shared* S, std::vector<Stats>& st, bool& cut) {
      st.assign(fs.size(), Stats()); cut = false;
      for (size_t k = 0; k < fs.size(); ++k) {
        uint64_t n = uint64_t(double(thorough ? fs[k].thorough : fs[k].quick) * scale); if (n < 1) n = 1;
        uint64_t base = fnv(fs[k].id + "." + fs[k].name) ^ (seed * 0x9E3779B97F4A7C15ULL);
        double fEnd = t0 + budget * double(k + 1) / double(fs.size());
        for (uint64_t c = uint64_t(w); c < n; c += uint64_t(jobs)) {
          if (((c / uint64_t(jobs)) & 15) == 0) { if (nowS() > fEnd) { cut = true; break; } }
          armLimits(gCpuLimit, gWallLimit);
          S->facet = k; S->index = c; S->n = 0; S->msg[0] = 0; S->state = 1;
          gCase = Case(); gCase.noting = st[k].samples.size() < 2 && c < 400;
          uint64_t x = base + c * 0xD1342543DE82EF95ULL; Src s(splitmix(x)); std::string m;
          Outcome o = runOne(fs[k], s, m);
          if (o == FAILED) { strncpy(S->msg, m.c_str(), sizeof(S->msg) - 1); S->state = 2; _exit(77); }
          S->state = 0;
          Stats& T = st[k]; T.evals++;
          if (o == DISCARDED) { T.discarded++; continue; }
          for (auto& kn : gCase.known) T.knownHits[kn.first]++;
          for (auto& l : gCase.labels) T.labels[l]++;
          if (gCase.nontrivial) {
            T.nontrivial++; uint64_t h = 1469598103934665603ULL; for (uint64_t v : s.choices()) { h ^= v; h *= 1099511628211ULL; } T.hashes.insert(h);
            if (gCase.noting && !gCase.notes.empty()) T.samples.push_back(gCase.notes.substr(0, 1200));
          }
        }
      }
}

// runs the cases of one worker again up to a given one; true if that one fails again. For failures which need state that earlier cases left behind.
bool attemptHistory(const std::vector<Facet>& fs, uint64_t seed, bool thorough, double scale, int w, int jobs, uint64_t facet, uint64_t index, std::string& msg) {
  static Shared* sh = mapShared();
  sh->n = 0; sh->state = 1; sh->msg[0] = 0;
  fflush(stdout); fflush(stderr);
  std::string err = gTmp + "/attempt.err";
  pid_t p = fork();
  if (p == 0) {
    childSetup(sh, err); std::vector<Stats> st; bool cut;
    workerLoop(fs, seed, thorough, scale, w, jobs, nowS(), 1e9, sh, st, cut);
    sh->state = 3; _exit(0);
  }
  int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (sh->state == 3 || sh->facet != facet || sh->index != index) return false;
  msg = sh->state == 2 ? std::string(sh->msg) : "the process died:\n" + tailOf(err);
  return true;
}
int replayFile(const std::string& path, bool quiet, std::string* outMsg) {
  std::ifstream in(path); std::string line, fname; std::vector<uint64_t> c; int attempts = 1;
  while (std::getline(in, line)) {
    if (line.compare(0, 6, "facet ") == 0) fname = line.substr(6);
    else if (line.compare(0, 8, "choices ") == 0) { std::istringstream is(line.substr(8)); uint64_t v; while (is >> v) c.push_back(v); }
    else if (line.compare(0, 9, "attempts ") == 0) attempts = atoi(line.c_str() + 9);
    else if (line.compare(0, 8, "history ") == 0) {
      std::istringstream is(line.substr(8)); std::string id; uint64_t seed, facet, index; int th, w, jobs; double scale; is >> id >> seed >> th >> scale >> w >> jobs >> facet >> index;
      std::vector<Facet> fs; for (auto& f : facets()) if (f.id == id) fs.push_back(f);
      std::string m; bool bad = attemptHistory(fs, seed, th != 0, scale, w, jobs, facet, index, m);
      if (!quiet) std::cout << (bad ? "FAILS after the earlier cases of the same worker: " + m : std::string("passes")) << std::endl;
      return bad ? 1 : 0;
    } else if (line == "---") break;
  }
  for (auto& f : facets()) if (f.id + "." + f.name == fname) {
    std::string m, notes; std::vector<uint64_t> used;
    bool bad = false;
    for (int k = 0; k < attempts && !bad; ++k) bad = attempt(f, c, m, used, &notes);
    if (!quiet) std::cout << notes << "\n" << (bad ? "FAILS: " + m : std::string("passes")) << std::endl;
    if (outMsg) *outMsg = m;
    return bad ? 1 : 0;
  }
  if (!quiet) std::cerr << "no such facet: " << fname << std::endl;
  return 2;
}
}  // namespace

int mainImpl(int argc, char** argv) {
  std::map<std::string, std::string> a; std::vector<std::string> pos;
  for (int i = 1; i < argc; ++i) { std::string s = argv[i]; if (s.compare(0, 2, "--") == 0 && i + 1 < argc) { a[s.substr(2)] = argv[i + 1]; ++i; } else pos.push_back(s); }
  std::string cmd = pos.empty() ? "run" : pos[0];
  char tmpl[] = "/tmp/pbtXXXXXX"; gTmp = mkdtemp(tmpl);
  struct Cleanup { ~Cleanup() { for (const char* n : {"attempt.err", "attempt.notes"}) unlink((gTmp + "/" + n).c_str()); for (int i = 0; i < 64; ++i) { unlink((gTmp + "/w" + str(i) + ".err").c_str()); unlink((gTmp + "/w" + str(i) + ".stats").c_str()); } rmdir(gTmp.c_str()); } } cleanup;
  if (a.count("known")) {
    std::ifstream k(a["known"]); std::string l;
    while (std::getline(k, l)) {  // known: property=<id> key=<key> <what fails>
      if (l.compare(0, 6, "known:") != 0) continue;
      std::istringstream is(l.substr(6)); std::string t, key; while (is >> t) if (t.compare(0, 4, "key=") == 0) { key = t.substr(4); break; }
      if (!key.empty()) { std::string rest; std::getline(is, rest); gKnownList[key] = rest; }
    }
  }
  if (cmd == "list") { for (auto& f : facets()) std::cout << f.id << " " << f.name << " " << f.quick << " " << f.thorough << "\n"; return 0; }
  if (cmd == "replay") return replayFile(pos.at(1), false, nullptr);

  std::string id = a["id"]; uint64_t seed = strtoull(a.count("seed") ? a["seed"].c_str() : "1", nullptr, 10);
  bool thorough = a["tier"] == "thorough"; int jobs = a.count("jobs") ? atoi(a["jobs"].c_str()) : 8; double scale = a.count("scale") ? atof(a["scale"].c_str()) : 1.0;
  double budget = a.count("budget") ? atof(a["budget"].c_str()) : 600.0;  // wall seconds after which remaining cases are left out
  std::vector<Facet> fs; for (auto& f : facets()) if (f.id == id && (!a.count("facet") || a["facet"] == f.name)) fs.push_back(f);
  if (fs.empty()) { std::cerr << "no facets for " << id << std::endl; return 2; }
  double t0 = nowS();
  std::vector<Shared*> sh; std::vector<pid_t> pid(size_t(jobs), 0);
  for (int w = 0; w < jobs; ++w) sh.push_back(mapShared());
  fflush(stdout); fflush(stderr);
  for (int w = 0; w < jobs; ++w) {
    pid_t p = fork();
    if (p == 0) {
      Shared* S = sh[size_t(w)]; S->state = 0; childSetup(S, gTmp + "/w" + str(w) + ".err");
      std::vector<Stats> st; bool cut = false;
      workerLoop(fs, seed, thorough, scale, w, jobs, t0, budget, S, st, cut);
      armLimits(0, 0);
      std::ofstream o(gTmp + "/w" + str(w) + ".stats", std::ios::binary);
      for (size_t k = 0; k < fs.size(); ++k) {
        Stats& T = st[k];
        o << T.evals << " " << T.nontrivial << " " << T.discarded << " " << (cut ? 1 : 0) << "\n" << T.labels.size() << "\n";
        for (auto& l : T.labels) o << l.second << " " << l.first << "\n";
        o << T.knownHits.size() << "\n"; for (auto& l : T.knownHits) o << l.second << " " << l.first << "\n";
        o << T.samples.size() << "\n"; for (auto& s : T.samples) o << s.size() << "\n" << s << "\n";
        o << T.hashes.size() << "\n"; for (uint64_t h : T.hashes) o << h << " "; o << "\n";
      }
      o.close();
      S->state = 3;
      _exit(0);
    }
    pid[size_t(w)] = p;
  }
  // collect; the first failing worker stops the rest
  int failed = -1; int stFail = 0; int alive = jobs; std::vector<bool> finished(size_t(jobs), false);
  while (alive > 0) {
    int st; pid_t p = waitpid(-1, &st, 0);
    if (p < 0) { if (errno == EINTR) continue; break; }
    for (int w = 0; w < jobs; ++w) if (pid[size_t(w)] == p && !finished[size_t(w)]) {
      finished[size_t(w)] = true; --alive;
      if (sh[size_t(w)]->state != 3 && failed < 0) {
        failed = w; stFail = st;
        for (int v = 0; v < jobs; ++v) if (!finished[size_t(v)]) kill(pid[size_t(v)], SIGKILL);
      }
    }
  }
  std::string violationPath, violationMsg; bool unconfirmed = false, history = false;
  if (failed >= 0) {
    Shared* S = sh[size_t(failed)];
    const Facet& f = fs[std::min<size_t>(size_t(S->facet), fs.size() - 1)];
    std::vector<uint64_t> c(S->choices, S->choices + std::min<uint64_t>(uint64_t(S->n), kCap)), used;
    std::string msg = S->state == 2 ? S->msg : "the process died (" + std::string(WIFSIGNALED(stFail) ? "signal " + str(WTERMSIG(stFail)) : "exit " + str(WEXITSTATUS(stFail))) + "):\n" + tailOf(gTmp + "/w" + str(failed) + ".err");
    std::string m; int rep = 0;
    bool hang = msg.find("does not return") != std::string::npos;
    // the thread sanitizer reports no race that did not happen, but a replay may be scheduled differently: its report stands, the replay file asks for many attempts
    bool race = msg.find("WARNING: ThreadSanitizer") != std::string::npos;
    std::string notes; int tries = hang ? 2 : 3;  // a hanging case costs a minute each time
    if (race) for (int k = 0; k < 20 && rep == 0; ++k) rep += attempt(f, c, m, used) ? 1 : 0;
    else for (int k = 0; k < tries; ++k) { if (attempt(f, c, m, used, hang ? &notes : nullptr)) ++rep; else break; }
    bool sched = !race && !hang && std::find(scheduled().begin(), scheduled().end(), f.id) != scheduled().end();
    if (sched && rep < tries) { int total = rep; double until = nowS() + 240; for (int k = 0; k < 30 && total < 2 && nowS() < until; ++k) total += attempt(f, c, m, used) ? 1 : 0; if (total < 2) sched = false; }
    std::cerr << "facet " << f.id << "." << f.name << " case " << S->index << ": " << msg << "\n";
    std::vector<uint64_t> best = c; std::string bm = m.empty() ? msg : m;
    if (race || (sched && rep < tries)) bm = msg;
    else if (rep == tries) {
      if (!hang) {
        best = shrink(f, c, bm, thorough ? 90 : 40);
        int rep2 = 0; for (int k = 0; k < 3; ++k) if (attempt(f, best, m, used)) ++rep2;
        if (rep2 < 3) { best = c; }
      }
    } else {
      std::cerr << "not reproduced when the case is replayed alone (" << rep << "/3); replaying the worker's history\n";
      int rh = 0; for (int k = 0; k < 3; ++k) if (attemptHistory(fs, seed, thorough, scale, failed, jobs, S->facet, S->index, m)) ++rh; else break;
      if (rh == 3) history = true; else unconfirmed = true;
      bm = msg;
      std::cerr << (history ? "reproduced with the history\n" : "not reproduced with the history either: unconfirmed\n");
    }
    if (!hang) attempt(f, best, m, used, &notes);
    std::string dir = a.count("replaydir") ? a["replaydir"] : "."; violationPath = dir + "/" + f.id + "." + f.name + ".replay"; violationMsg = bm;
    std::ofstream o(violationPath);
    o << "facet " << f.id << "." << f.name << "\nchoices"; for (uint64_t v : best) o << " " << v; o << "\n";
    if (race || sched) o << "attempts 50\n";
    if (history) o << "history " << id << " " << seed << " " << (thorough ? 1 : 0) << " " << scale << " " << failed << " " << jobs << " " << S->facet << " " << S->index << "\n";
    o << "---\nseed " << seed << " case " << S->index << "\nfailure: " << bm << "\n\ncase:\n" << notes << "\n";
  }
  // evidence
  uint64_t ev = 0, nt = 0, dist = 0, disc = 0; bool cut = false; std::ostringstream fj; std::vector<std::string> samples; std::string rule; std::map<std::string, uint64_t> kh;
  std::vector<Stats> tot(fs.size());
  for (int w = 0; w < jobs; ++w) {
    std::ifstream i(gTmp + "/w" + str(w) + ".stats", std::ios::binary); if (!i) continue;
    for (size_t k = 0; k < fs.size(); ++k) {
      uint64_t e, n, d, c2, x; if (!(i >> e >> n >> d >> c2)) break; Stats& T = tot[k]; T.evals += e; T.nontrivial += n; T.discarded += d; cut = cut || c2;
      i >> x; for (uint64_t j = 0; j < x; ++j) { uint64_t q; std::string l; i >> q; i.get(); std::getline(i, l); T.labels[l] += q; }
      i >> x; for (uint64_t j = 0; j < x; ++j) { uint64_t q; std::string l; i >> q; i.get(); std::getline(i, l); T.knownHits[l] += q; kh[l] += q; }
      i >> x; for (uint64_t j = 0; j < x; ++j) { uint64_t z; i >> z; i.get(); std::string s(z, 0); i.read(&s[0], long(z)); T.samples.push_back(s); }
      i >> x; for (uint64_t j = 0; j < x; ++j) { uint64_t h; i >> h; T.hashes.insert(h); }
    }
  }
  for (size_t k = 0; k < fs.size(); ++k) {
    Stats& T = tot[k]; ev += T.evals; nt += T.nontrivial; dist += T.hashes.size(); disc += T.discarded;
    fj << (k ? "," : "") << "{\"facet\":\"" << fs[k].name << "\",\"evaluations\":" << T.evals << ",\"nontrivial\":" << T.nontrivial << ",\"distinct_nontrivial\":" << T.hashes.size() << ",\"outside_domain\":" << T.discarded << ",\"classes\":{";
    bool first = true; for (auto& l : T.labels) { fj << (first ? "" : ",") << "\"" << jesc(l.first) << "\":" << l.second; first = false; }
    fj << "}}";
    rule += (k ? " | " : "") + fs[k].name + ": " + fs[k].rule;
    for (size_t j = 0; j < std::min<size_t>(T.samples.size(), 2); ++j) samples.push_back(fs[k].name + ": " + T.samples[j]);
  }
  double wall = nowS() - t0;
  if (failed >= 0) ev += 1;
  if (a.count("out")) {
    std::ofstream o(a["out"]);
    o << "{\"property\":\"" << id << "\",\"tier\":\"" << (thorough ? "thorough" : "quick") << "\",\"seed\":" << seed << ",\"level\":\"exploration\",\"coverage\":{\"evaluations\":" << ev
      << ",\"distinct_nontrivial\":" << dist << ",\"nontrivial\":" << nt << ",\"outside_domain\":" << disc << ",\"rule\":\"" << jesc(rule) << "\",\"samples\":[";
    for (size_t k = 0; k < samples.size(); ++k) o << (k ? "," : "") << "\"" << jesc(samples[k]) << "\"";
    if (samples.empty() && failed >= 0) o << "\"" << jesc(violationMsg) << "\"";
    o << "],\"facets\":[" << fj.str() << "],\"cut_short\":" << (cut ? "true" : "false") << ",\"known_findings_hit\":{";
    bool first = true; for (auto& l : kh) { o << (first ? "" : ",") << "\"" << jesc(l.first) << "\":" << l.second; first = false; }
    o << "}},\"assumptions\":[\"ROS, PCL, tf and octomap are replaced by the stand-ins in /verif/shim\"],\"wall_s\":" << wall << ",\"violations\":" << (failed >= 0 && !unconfirmed ? 1 : 0) << "}\n";
  }
  for (auto& l : kh) std::cout << "KNOWN-FINDING: property=" << id << " " << l.first << gKnownList[l.first] << std::endl;
  std::cerr << id << ": " << ev << " cases, " << dist << " distinct non-trivial, " << wall << " s" << (cut ? " (cut short by the time budget)" : "") << "\n";
  if (failed >= 0 && !unconfirmed) {
    std::cout << "failure: " << violationMsg.substr(0, 1500) << std::endl;
    std::cout << "VIOLATION property=" << id << " replay=" << violationPath << std::endl;
    return 1;
  }
  return 0;
}
}  // namespace pbt
int main(int argc, char** argv) { return pbt::mainImpl(argc, argv); }
