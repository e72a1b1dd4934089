// One configuration of the stateful machine; everything is given by macros (see checks.py).
#include "machine.hpp"
using namespace vf;
#ifndef VF_LB
#define VF_LB VF_LA
#define VF_ALT false
#else
#define VF_ALT true
#endif
#ifndef VF_ALLOC
#define VF_ALLOC TA<Val, 0, false>
#endif
#ifndef VF_FAULTY
#define VF_FAULTY false
#endif
#ifndef VF_HITS
#define VF_HITS ~0u
#endif
#ifndef VF_THR
#define VF_THR 2
#endif
#ifndef VF_WT
#define VF_WT ""
#endif
#ifndef VF_MAXOPS
#define VF_MAXOPS 60
#endif
struct Cfg {
  typedef VF_LA LA;
  typedef VF_LB LB;
  typedef VF_ALLOC Alloc;
  static constexpr unsigned G = (VF_G), HITS = (VF_HITS);
  static constexpr bool alt = VF_ALT, faulty = VF_FAULTY;
  static const char* name() { return VF_NAME; }
};
// which group an operation belongs to, and its default weight
struct OpInfo { uint32_t k; unsigned g; int w; };
static const OpInfo info[] = {
    {K_INS, G_INS, 14}, {K_INSH, G_INS, 8}, {K_INSR, G_INS, 4}, {K_INSN, G_SEQ, 2}, {K_RESIZE, G_SEQ, 2}, {K_ASSIGN, G_SEQ, 1},
    {K_BULK, G_BULK, 3}, {K_ERASEHALF, G_BULK, 2},
    {K_ERA, G_ERA, 6}, {K_ERAR, G_ERA, 2}, {K_ERAK, G_ERA, 3}, {K_POP, G_ERA, 1}, {K_CLEAR, G_ERA, 1},
    {K_LOOK, G_LOOK, 8}, {K_RANGE, G_LOOK, 4},
    {K_REPL, G_MOD, 7}, {K_MODI, G_MOD, 7}, {K_MODR, G_MOD, 6}, {K_MODK, G_MOD, 7},
    {K_REHASH, G_HASH, 3}, {K_RESERVE, G_HASH, 2}, {K_MLF, G_HASH, 2},
    {K_SSPL1, G_SEQ, 4}, {K_SSPLR, G_SEQ, 4}, {K_RELOC, G_SEQ, 5}, {K_RELOCR, G_SEQ, 4}, {K_REMIF, G_SEQ, 2}, {K_REMV, G_SEQ, 2},
    {K_UNIQ, G_SEQ, 2}, {K_SORT, G_SEQ, 3}, {K_REV, G_SEQ, 2}, {K_REARR, G_SEQ, 2},
    {K_RCAP, G_RND, 3}, {K_RSHR, G_RND, 2}, {K_RAT, G_RND, 4},
    {K_XSPLA, G_XSEQ, 3}, {K_XSPL1, G_XSEQ, 4}, {K_XSPLR, G_XSEQ, 4}, {K_LMERGE, G_XSEQ, 4},
    {K_MRGA, G_XMERGE, 4}, {K_MRG1, G_XMERGE, 4}, {K_MRGR, G_XMERGE, 4},
    {K_CCPY, G_COPY, 4}, {K_CMOV, G_COPY, 3}, {K_ACPY, G_COPY, 4}, {K_AMOV, G_COPY, 4}, {K_SWAP, G_COPY, 4}, {K_AIL, G_COPY, 2},
    {K_CTORR, G_COPY, 2}, {K_CTORE, G_COPY, 2},
    {K_EXT, G_NODE, 6}, {K_EXTK, G_NODE, 4}, {K_NHINS, G_NODE, 7}, {K_NHINSH, G_NODE, 4}, {K_NHMOVE, G_NODE, 2}, {K_NHSWAP, G_NODE, 2},
    {K_NHDROP, G_NODE, 2}, {K_NHMUT, G_NODE, 3},
    {K_KEEP, G_ITER, 8}, {K_KEEPEND, G_ITER, 2}, {K_PROJ, G_ITER, 6}, {K_CMPR, G_CMP, 6}, {K_SER, G_SER, 6},
};
static std::vector<uint32_t> wheel(bool growOnly) {
  std::map<std::string, int> over;
  std::string s = VF_WT;
  std::istringstream in(s);
  for (std::string t; std::getline(in, t, ',');) {
    auto p = t.find(':');
    if (p != std::string::npos) over[t.substr(0, p)] = atoi(t.c_str() + p + 1);
  }
  std::vector<uint32_t> w;
  for (auto& x : info) {
    if (!(x.g & Cfg::G)) continue;
    if (growOnly && x.k != K_INS && x.k != K_INSH && x.k != K_INSR && x.k != K_BULK) continue;
    auto it = over.find(opname(x.k));
    int n = it == over.end() ? x.w : it->second;
    if (growOnly && x.k == K_BULK) n = 1;
    for (int k = 0; k < n; ++k) w.push_back(x.k);
  }
  return w;
}
static Case gen(Rng& r, int size) {
  static const std::vector<uint32_t> all = wheel(false), grow = wheel(true);
  Case c;
  auto dom = [&]() -> uint32_t { switch (r.below(8)) { case 0: return r.below(3); case 1: case 2: return 3 + r.below(4); case 3: case 4: case 5: return 5 + r.below(10); case 6: return 20 + r.below(60); default: return 100 + r.below(900); } };
  c.P = {dom(), dom(), dom(), r.below(4000), 0, r.below(4), r.below(40), 0, 0, 0};
  bool big = (Cfg::G & G_BULK) && r.below(4) == 0;
  c.P[4] = big ? 100 + r.below(220) : r.below(3) == 0 ? 6 + r.below(8) : 12 + r.below(40);
  int n = 4 + int(r.below(uint32_t(8 + (VF_MAXOPS - 8) * (20 + size) / 120)));
  int g = int(r.below(uint32_t(Cfg::faulty ? 10 : 16)));
  int last = -1;
  for (int i = 0; i < n + g; ++i) {
    Op o;
    o.k = i < g && !grow.empty() ? grow[r.below(uint32_t(grow.size()))] : all[r.below(uint32_t(all.size()))];
    for (auto& a : o.a) a = uint32_t(r.next() & 0x3fffffff);
    // half of the operations aim at the first container, so that it accumulates history
    if (r.below(2)) for (int t = 0; t < 12 && o.a[0] % (Cfg::alt ? 4 : 3) != 0; ++t) o.a[0] = uint32_t(r.next() & 0x3fffffff);
    if (last >= 0 && r.below(4) == 0) o.a[1] = c.ops[size_t(last)].a[1];
    last = int(c.ops.size());
    c.ops.push_back(o);
  }
  if (Cfg::faulty) { c.P[8] = uint32_t(g) + r.below(uint32_t(n)); }
  return c;
}
int main(int argc, char** argv) {
  Harness h;
  h.name = Cfg::name();
  h.gen = gen;
  h.run = Cfg::faulty ? Machine<Cfg>::runFaults : Machine<Cfg>::runOne;
  h.show = Machine<Cfg>::show;
  h.nontrivial_threshold = VF_THR;
  return worker_main(argc, argv, h);
}
