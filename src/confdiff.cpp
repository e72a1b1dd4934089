// C20: runs every generated history on all build variants (shared objects in VF_PARTS, made from
// trace.cpp) and compares what they report with the reference variant, operation by operation.
#include "core.hpp"
#include <dirent.h>
#include <dlfcn.h>
#include <algorithm>
namespace vf {
typedef unsigned long long u64;
typedef int (*TraceFn)(const unsigned*, const unsigned*, int, u64*, int, std::string*, const char* const*, int, void (*)(void*, const char*, unsigned long), void*);
struct Variant { std::string name; TraceFn fn; int caps; };
enum { SER = 1, NOCOPY = 2, NOEXC = 4 };                 // capabilities of a variant
enum { P_EXC = 1, P_SER = 2, P_COPY = 4, NOPS = 17 };    // what a case needs

static std::vector<Variant>& variants() {
  static std::vector<Variant> v;
  if (!v.empty()) return v;
  std::vector<std::string> names;
  DIR* d = opendir(VF_PARTS);
  if (d) { while (dirent* e = readdir(d)) { std::string n = e->d_name; if (n.size() > 3 && n.substr(n.size() - 3) == ".so") names.push_back(n); } closedir(d); }
  std::sort(names.begin(), names.end());
  for (auto& n : names) {
    void* h = dlopen((std::string(VF_PARTS "/") + n).c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!h) { fprintf(stderr, "cannot load %s: %s\n", n.c_str(), dlerror()); _exit(3); }
    Variant x;
    x.name = n.substr(0, n.size() - 3);
    x.fn = (TraceFn)dlsym(h, "vf_trace");
    x.caps = ((int (*)())dlsym(h, "vf_caps"))();
    if (x.name == "ref") v.insert(v.begin(), x); else v.push_back(x);
  }
  if (v.empty() || v[0].name != "ref") { fprintf(stderr, "no reference variant in %s\n", VF_PARTS); _exit(3); }
  return v;
}

struct Out { std::vector<u64> dig; std::vector<std::string> arch; std::string text; };
static void onArch(void* c, const char* p, unsigned long n) { ((std::vector<std::string>*)c)->push_back(std::string(p, n)); }

static Out exec(const Variant& v, const std::vector<unsigned>& P, const std::vector<unsigned>& ops, const std::vector<std::string>* in, int want) {
  Out o;
  o.dig.resize(ops.size() / 6);
  std::vector<const char*> a;
  if (in) for (auto& s : *in) a.push_back(s.c_str());
  v.fn(P.data(), ops.data(), int(ops.size() / 6), o.dig.data(), want, &o.text, a.data(), int(a.size()), onArch, &o.arch);
  return o;
}

static const char* const OPN[NOPS] = {"insert", "insert some", "erase", "erase by key", "look up", "replace", "modify", "policy/list operation", "transfer", "copy/move/swap", "extract and insert", "compare", "save and load", "insert many", "modify_key", "capacity/clear", "swap"};
static void norm(const Case& c, std::vector<unsigned>& P, std::vector<unsigned>& ops) {
  for (int i = 0; i < 5; ++i) P.push_back(c.p(i));
  for (auto& o : c.ops) {
    unsigned k = o.k % NOPS, a1 = o.a[1];
    if (k == 12 && !(P[4] & P_SER)) k = 4;
    if (k == 9) a1 = P[4] & P_COPY ? a1 % 6 : 3 + a1 % 3;
    ops.push_back(k);
    ops.push_back(o.a[0]); ops.push_back(a1); ops.push_back(o.a[2]); ops.push_back(o.a[3]); ops.push_back(o.a[4]);
  }
}
static bool applies(const Variant& v, unsigned f) {
  return !((f & P_SER) && !(v.caps & SER)) && !((f & P_COPY) && (v.caps & NOCOPY)) && !((f & P_EXC) && (v.caps & NOEXC));
}
static void differ(const Variant& v, const std::vector<unsigned>& P, const std::vector<unsigned>& ops, const Out& a, const Out& b, const std::vector<std::string>* in, const char* what) {
  size_t k = 0;
  while (k < a.dig.size() && a.dig[k] == b.dig[k]) ++k;
  const Variant& r = variants()[0];
  Out ta = exec(r, P, ops, 0, int(k)), tb = exec(v, P, ops, in, int(k));
  VF_FAIL("operation ", k, " (", OPN[ops[k * 6]], ") gives other results in build variant ", v.name, what, ":\n reference: ", ta.text, "\n variant:   ", tb.text);
}
static void run(const Case& c) {
  std::vector<unsigned> P, ops;
  norm(c, P, ops);
  auto& vs = variants();
  Out ref = exec(vs[0], P, ops, 0, -1);
  unsigned f = P[4];
  for (size_t i = 1; i < vs.size(); ++i) {
    if (!applies(vs[i], f)) continue;
    ++stats().evals;
    ++stats().feat["runs of variant " + vs[i].name];
    Out o = exec(vs[i], P, ops, ref.arch.empty() ? 0 : &ref.arch, -1);
    if (o.dig != ref.dig) differ(vs[i], P, ops, ref, o, ref.arch.empty() ? 0 : &ref.arch, "");
    if (!ref.arch.empty()) {
      VF_FEAT("archives of the reference loaded by a variant");
      if (o.arch != ref.arch) {
        VF_FEAT("archives of a variant differ and are loaded by the reference");
        Out q = exec(vs[0], P, ops, &o.arch, -1);
        VF_CHECK(q.dig == ref.dig, "an archive saved by build variant ", vs[i].name, " does not restore the same container in the reference build");
      }
    }
  }
  unsigned kinds = 0;
  for (size_t i = 0; i < ops.size(); i += 6) kinds |= 1u << ops[i];
  for (int k = 0; k < NOPS; ++k) if (kinds >> k & 1) ++stats().feat[std::string("histories with ") + OPN[k]];
  if (ops.size() >= 60 && __builtin_popcount(kinds) >= 5) ++stats().interesting;
}
static Case gen(Rng& r, int size) {
  Case c;
  unsigned f = r.below(4) == 0 ? P_SER : 0;
  if (r.below(2)) f |= P_COPY;
  if (r.below(3) == 0) f |= P_EXC;
  auto dom = [&] { static const unsigned d[] = {1, 3, 8, 20, 60, 1000}; return r.below(d[r.below(6)]) + 1; };
  c.P = {r.below(5), r.chance(1, 4) ? dom() : 30 + r.below(1000), dom(), dom(), f};
  int n = 8 + int(r.below(uint32_t(20 + size / 2)));
  unsigned w[NOPS];
  for (int k = 0; k < NOPS; ++k) w[k] = 1 + r.below(3) * r.below(4);
  w[0] += 4; w[1] += 3; w[12] = f & P_SER ? 3 : 0; w[15] = 1; w[13] = r.below(3);
  unsigned tot = 0;
  for (unsigned x : w) tot += x;
  for (int i = 0; i < n; ++i) {
    Op o;
    unsigned q = r.below(tot);
    o.k = 0;
    while (q >= w[o.k]) q -= w[o.k++];
    if (i < 3) o.k = r.chance(1, 2) ? 0 : 1;
    for (auto& a : o.a) a = uint32_t(r.next() & 0xffffff);
    c.ops.push_back(o);
  }
  return c;
}
static std::string show(const Case& c) {
  std::vector<unsigned> P, ops;
  norm(c, P, ops);
  std::string s = cat("container ", P[0] % 5, ", keys over ", P[1] + 1, "/", P[2] + 1, "/", P[3] + 1, " values, flags ", P[4], ":");
  for (size_t i = 0; i < ops.size(); i += 6) s += cat(" ", OPN[ops[i]], "(", ops[i + 1], ",", ops[i + 2], ",", ops[i + 3], ",", ops[i + 4], ",", ops[i + 5], ")");
  return s;
}
}
int main(int argc, char** argv) {
  vf::Harness h;
  h.name = VF_NAME; h.gen = vf::gen; h.show = vf::show; h.nontrivial_threshold = 1; h.run = vf::run;
  return vf::worker_main(argc, argv, h);
}
