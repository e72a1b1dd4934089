// Core of the property-based testing framework: random numbers, cases (operation
// sequences) that can be written, read and shrunk, fault injection, statistics,
// and the worker's main program.  The driver (run.py) starts workers, collects
// failures, shrinks them by re-running the worker on smaller cases, and replays.
#ifndef VF_CORE_HPP
#define VF_CORE_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <sstream>
#include <fstream>
#include <iostream>
#include <stdexcept>
#include <algorithm>
#include <functional>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/time.h>

namespace vf {

// ---------------------------------------------------------------- random
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint32_t below(uint32_t n) { return n ? uint32_t(next() % n) : 0; }
  int range(int lo, int hi) { return lo + int(below(uint32_t(hi - lo + 1))); }
  bool chance(int num, int den) { return int(below(uint32_t(den))) < num; }
};
inline uint64_t mix(uint64_t a, uint64_t b) { Rng r(a ^ (b * 0xD6E8FEB86659FD93ull)); return r.next(); }

// ---------------------------------------------------------------- cases
struct Op {
  uint32_t k = 0;
  uint32_t a[5] = {0, 0, 0, 0, 0};
};
struct Case {
  std::vector<uint32_t> P;  // parameters
  std::vector<Op> ops;
  std::string str() const {
    std::string o = "P";
    for (auto p : P) o += " " + std::to_string(p);
    o += "\n";
    for (auto& x : ops) {
      o += "O " + std::to_string(x.k);
      for (auto v : x.a) o += " " + std::to_string(v);
      o += "\n";
    }
    return o;
  }
  static Case parse(const std::string& t) {
    Case c;
    std::istringstream in(t);
    std::string line;
    while (std::getline(in, line)) {
      std::istringstream ls(line);
      std::string tag;
      ls >> tag;
      if (tag == "P") { uint32_t v; while (ls >> v) c.P.push_back(v); }
      else if (tag == "O") { Op o; ls >> o.k; for (auto& v : o.a) ls >> v; c.ops.push_back(o); }
    }
    return c;
  }
  uint64_t hash() const {
    uint64_t h = 1469598103934665603ull;
    auto f = [&](uint64_t v) { h ^= v; h *= 1099511628211ull; h ^= h >> 29; };
    for (auto p : P) f(p + 1);
    for (auto& o : ops) { f(o.k + 77); for (auto v : o.a) f(v + 3); }
    return h;
  }
  uint32_t p(size_t i) const { return i < P.size() ? P[i] : 0; }
};

// ---------------------------------------------------------------- failures
struct Fail {
  std::string msg;
};
[[noreturn]] inline void fail_(const std::string& m) { throw Fail{m}; }
inline std::string cat() { return {}; }
template <class T, class... R> std::string cat(const T& t, const R&... r) {
  std::ostringstream o; o << t; return o.str() + cat(r...);
}
#define VF_FAIL(...) ::vf::fail_(::vf::cat(__VA_ARGS__))
#define VF_CHECK(cond, ...) \
  do { if (!(cond)) ::vf::fail_(::vf::cat("[", #cond, "] ", __VA_ARGS__)); } while (0)

// ---------------------------------------------------------------- faults
struct Injected { int kind; };
enum FK { F_CMP = 0, F_HASH, F_EQ, F_KEY, F_COPY, F_MOVE, F_ASSIGN, F_ALLOC, F_MOD, F_PRED, F_CTOR, F_N };
struct Faults {
  long countdown = -1;  // -1: disarmed
  uint32_t mask = ~0u;
  bool fired = false;
  int fired_kind = -1;
  long calls = 0;
  uint64_t cnt[F_N] = {};
  int phase = 0, fired_phase = 0, modcalls = 0, backcalls = 0;
};
inline Faults& faults() { static Faults f; return f; }
inline void fp(FK k) {
  Faults& f = faults();
  ++f.cnt[k];
  if (f.countdown >= 0 && ((f.mask >> k) & 1)) {
    ++f.calls;
    if (f.countdown-- == 0) { f.countdown = -1; f.fired = true; f.fired_kind = k; f.fired_phase = f.phase; throw Injected{k}; }
  }
}

// ---------------------------------------------------------------- statistics
struct Stats {
  uint64_t cases = 0, evals = 0, nontrivial = 0;
  std::unordered_set<uint64_t> distinct;
  std::map<std::string, uint64_t> feat;
  uint64_t interesting = 0;  // in the current case
  uint64_t case_ops = 0;
  std::vector<std::string> samples;
};
inline Stats& stats() { static Stats s; return s; }
// feature counter with static caching of the slot
#define VF_FEAT(name) do { static uint64_t& vf_c_ = ::vf::stats().feat[name]; ++vf_c_; } while (0)
// an event that makes the current case a non-trivial one for this property
#define VF_HIT(name) do { static uint64_t& vf_c_ = ::vf::stats().feat[name]; ++vf_c_; ++::vf::stats().interesting; } while (0)

inline std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch == '\n') o += "\\n";
    else if ((unsigned char)ch < 32) o += ' ';
    else o += ch;
  }
  return o + "\"";
}

// ---------------------------------------------------------------- harness
struct Harness {
  std::string name;
  // makes a random case; size is a hint in 0..99 growing through the run
  std::function<Case(Rng&, int size)> gen;
  // runs it; throws Fail on a violation
  std::function<void(const Case&)> run;
  // human-readable rendering (optional)
  std::function<std::string(const Case&)> show;
  uint64_t nontrivial_threshold = 1;
};

inline bool& replaying() { static bool b = false; return b; }
namespace detail_run {
inline char*& shared() { static char* p = nullptr; return p; }
enum { SHSZ = 1 << 22 };
inline void on_timer(int) {
  const char m[] = "\nVF-HANG: case exceeded its CPU budget\n";
  ssize_t r = write(2, m, sizeof m - 1); (void)r;
  _exit(79);
}
#if defined(__SANITIZE_THREAD__)
#define VF_TSAN 1
#elif defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define VF_TSAN 1
#endif
#endif
inline void arm_timer(int sec) {
  struct itimerval t;
  memset(&t, 0, sizeof t);
  t.it_value.tv_sec = sec;
  setitimer(ITIMER_PROF, &t, nullptr);
#ifdef VF_TSAN
  t.it_value.tv_sec = sec ? sec + 20 : 0;  // a deadlock uses no CPU
  setitimer(ITIMER_REAL, &t, nullptr);
#endif
}
}  // namespace detail_run

inline int worker_main(int argc, char** argv, const Harness& h) {
  using namespace detail_run;
  std::map<std::string, std::string> o;
  for (int i = 1; i + 1 < argc; i += 2) o[argv[i]] = argv[i + 1];
  int budget = o.count("--casecpu") ? atoi(o["--casecpu"].c_str()) : 30;
#ifdef VF_TSAN
  signal(SIGPROF, SIG_DFL);  // handlers are deferred under ThreadSanitizer, for ever in a tight loop
#else
  signal(SIGPROF, on_timer);
#endif
  if (o.count("--replay")) {
    std::ifstream in(o["--replay"]);
    std::stringstream ss; ss << in.rdbuf();
    Case c = Case::parse(ss.str());
    if (o.count("--show")) { std::cout << (h.show ? h.show(c) : c.str()); return 0; }
    arm_timer(budget);
    replaying() = true;
    try { h.run(c); }
    catch (const Fail& f) { std::cerr << "VF-FAIL: " << f.msg << std::endl; fflush(stdout); _exit(78); }
    catch (const Injected&) { std::cerr << "VF-FAIL: injected exception escaped from an operation not under injection" << std::endl; _exit(78); }
    catch (const std::exception& e) { std::cerr << "VF-FAIL: unexpected exception " << e.what() << std::endl; _exit(78); }
    catch (...) { std::cerr << "VF-FAIL: unexpected exception" << std::endl; _exit(78); }
    arm_timer(0);
    return 0;
  }
  uint64_t seed = strtoull(o["--seed"].c_str(), 0, 10);
  long cases = atol(o["--cases"].c_str());
  double maxcpu = o.count("--maxcpu") ? atof(o["--maxcpu"].c_str()) : 1e9;
  int nsamples = o.count("--samples") ? atoi(o["--samples"].c_str()) : 2;
  std::string cur = o["--current"], out = o["--out"];
  int fd = open(cur.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
  if (fd < 0 || ftruncate(fd, SHSZ) != 0) { perror("current"); return 3; }
  shared() = (char*)mmap(0, SHSZ, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  Stats& st = stats();
  auto put = [&](const std::string& s) {
    size_t n = std::min<size_t>(s.size(), SHSZ - 1);
    memcpy(shared(), s.data(), n); shared()[n] = 0;
  };
  clock_t t0 = clock();
  bool truncated = false;
  long i = 0;
  for (; i < cases; ++i) {
    if ((i & 15) == 0 && double(clock() - t0) / CLOCKS_PER_SEC > maxcpu) { truncated = true; break; }
    Rng r(mix(seed, uint64_t(i)));
    Case c = h.gen(r, int(i * 100 / (cases ? cases : 1)));
    put(c.str());
    st.interesting = 0; st.case_ops = c.ops.size();
    #ifdef VF_TSAN
    arm_timer(budget);
#else
    if ((i & 63) == 0) arm_timer(budget * 2);
#endif
    try { h.run(c); }
    catch (const Fail& f) { std::cerr << "VF-FAIL: " << f.msg << std::endl; _exit(78); }
    catch (const Injected&) { std::cerr << "VF-FAIL: injected exception escaped" << std::endl; _exit(78); }
    catch (const std::exception& e) { std::cerr << "VF-FAIL: unexpected exception " << e.what() << std::endl; _exit(78); }
    catch (...) { std::cerr << "VF-FAIL: unexpected exception" << std::endl; _exit(78); }
    ++st.cases;
    if (st.interesting >= h.nontrivial_threshold) {
      if (st.distinct.insert(c.hash()).second) {
        ++st.nontrivial;
        if ((int)st.samples.size() < nsamples && (st.nontrivial % 7) == 3)
          st.samples.push_back(h.show ? h.show(c) : c.str());
      }
    }
  }
  arm_timer(0);
  std::ofstream f(out);
  f << "{\"cases\":" << st.cases << ",\"evals\":" << (st.evals ? st.evals : st.cases) << ",\"nontrivial\":" << st.nontrivial
    << ",\"truncated\":" << (truncated ? "true" : "false") << ",\"harness\":" << jstr(h.name) << ",\"feat\":{";
  bool first = true;
  for (auto& kv : st.feat) { if (!first) f << ","; first = false; f << jstr(kv.first) << ":" << kv.second; }
  f << "},\"samples\":[";
  for (size_t k = 0; k < st.samples.size(); ++k) { if (k) f << ","; f << jstr(st.samples[k].substr(0, 1500)); }
  f << "]}\n";
  f.close();
  return 0;
}

}  // namespace vf
#endif
