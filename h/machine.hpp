// Stateful model-based harness: random operation histories over a few containers,
// executed against a plain-vector reference model; after every operation the
// complete observable state of every container involved is compared with the model.
#ifndef VF_MACHINE_HPP
#define VF_MACHINE_HPP
#include "val.hpp"
#include <array>
#include <deque>
#include <list>
#include <tuple>
#include <initializer_list>
#ifdef VF_SAFE  // 1: safe mode; 2: safe mode and invariant checking
#define BOOST_MULTI_INDEX_ENABLE_SAFE_MODE
#define BOOST_MULTI_INDEX_SAFE_MODE_ASSERT(expr, code) do { if (!(expr)) ::vf::debugFail("safe mode reports an error on valid use: " #expr ", code " #code); } while (0)
#if VF_SAFE > 1
#define BOOST_MULTI_INDEX_ENABLE_INVARIANT_CHECKING
#define BOOST_MULTI_INDEX_INVARIANT_ASSERT(expr) do { if (!(expr)) ::vf::debugFail("invariant checking reports an error on valid use: " #expr); } while (0)
#endif
namespace vf { [[noreturn]] inline void debugFail(const char* m) { std::cerr << "VF-FAIL: " << m << std::endl; fflush(stdout); _exit(78); } }
#endif
#ifdef VF_SER
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/xml_iarchive.hpp>
#include <boost/archive/xml_oarchive.hpp>
#include <boost/serialization/nvp.hpp>
namespace boost { namespace serialization {
template <class Ar> void serialize(Ar& ar, vf::Val& v, unsigned) {
  v.chk();
  ar & make_nvp("id", v.id) & make_nvp("a", v.a) & make_nvp("b", v.b) & make_nvp("c", v.c);
}
}}
#else
#define BOOST_MULTI_INDEX_DISABLE_SERIALIZATION
#endif
#include <boost/multi_index_container.hpp>
#include <boost/multi_index/hashed_index.hpp>
#include <boost/multi_index/ordered_index.hpp>
#include <boost/multi_index/random_access_index.hpp>
#include <boost/multi_index/ranked_index.hpp>
#include <boost/multi_index/sequenced_index.hpp>

namespace vf {
namespace bmi = boost::multi_index;

enum Kind { OU, ON, RU, RN, HU, HN, SQ, RA };
constexpr bool kOrd(Kind k) { return k == OU || k == ON || k == RU || k == RN; }
constexpr bool kRnk(Kind k) { return k == RU || k == RN; }
constexpr bool kHsh(Kind k) { return k == HU || k == HN; }
constexpr bool kUnq(Kind k) { return k == OU || k == RU || k == HU; }
constexpr bool kLst(Kind k) { return k == SQ || k == RA; }
constexpr bool kKey(Kind k) { return !kLst(k); }
constexpr unsigned kb(Kind k) { return 1u << k; }
const unsigned M_ORD = 15, M_RNK = 12, M_HSH = 48, M_LST = 192, M_KEY = 63, M_ALL = 255;

template <Kind K, int S = 0> struct ID {
  static constexpr Kind kind = K;
  static constexpr int sel = S;
};
template <class I> struct Spec;
template <int S> struct Spec<ID<OU, S>> { typedef bmi::ordered_unique<KX<S>, Cmp> type; };
template <int S> struct Spec<ID<ON, S>> { typedef bmi::ordered_non_unique<KX<S>, Cmp> type; };
template <int S> struct Spec<ID<RU, S>> { typedef bmi::ranked_unique<KX<S>, Cmp> type; };
template <int S> struct Spec<ID<RN, S>> { typedef bmi::ranked_non_unique<KX<S>, Cmp> type; };
template <int S> struct Spec<ID<HU, S>> { typedef bmi::hashed_unique<KX<S>, Hsh, Eq> type; };
template <int S> struct Spec<ID<HN, S>> { typedef bmi::hashed_non_unique<KX<S>, Hsh, Eq> type; };
template <int S> struct Spec<ID<SQ, S>> { typedef bmi::sequenced<> type; };
template <int S> struct Spec<ID<RA, S>> { typedef bmi::random_access<> type; };

template <class... I> struct L {
  static constexpr int N = sizeof...(I);
  static constexpr Kind kind[sizeof...(I)] = {I::kind...};
  static constexpr int sel[sizeof...(I)] = {I::sel...};
  template <class A> using cont = bmi::multi_index_container<Val, bmi::indexed_by<typename Spec<I>::type...>, A>;
};

#define VF_HIT_G(g, name) do { if constexpr ((Cfg::HITS & (g)) != 0) VF_HIT(name); else VF_FEAT(name); } while (0)
// operation groups
enum : unsigned {
  G_INS = 1, G_ERA = 2, G_LOOK = 4, G_MOD = 8, G_HASH = 16, G_SEQ = 32, G_XSEQ = 64, G_RND = 128,
  G_COPY = 256, G_NODE = 512, G_XMERGE = 1024, G_ITER = 2048, G_CMP = 4096, G_SER = 8192, G_BULK = 16384
};
#define VF_OPS(X)                                                                             \
  X(INS) X(INSH) X(INSR) X(INSN) X(RESIZE) X(ASSIGN) X(ERA) X(ERAR) X(ERAK) X(POP) X(CLEAR)     \
  X(LOOK) X(RANGE) X(REPL) X(MODI) X(MODR) X(MODK) X(REHASH) X(RESERVE) X(MLF)                  \
  X(SSPL1) X(SSPLR) X(REMIF) X(REMV) X(UNIQ) X(SORT) X(REV) X(RELOC) X(RELOCR) X(REARR)         \
  X(XSPLA) X(XSPL1) X(XSPLR) X(LMERGE) X(RCAP) X(RSHR) X(RAT)                                   \
  X(CCPY) X(CMOV) X(ACPY) X(AMOV) X(SWAP) X(AIL) X(CTORR) X(CTORE)                              \
  X(EXT) X(EXTK) X(NHINS) X(NHINSH) X(NHMOVE) X(NHSWAP) X(NHDROP) X(NHMUT)                      \
  X(MRGA) X(MRG1) X(MRGR) X(KEEP) X(KEEPEND) X(PROJ) X(CMPR) X(SER) X(BULK) X(ERASEHALF)
enum OpK : uint32_t {
#define X(n) K_##n,
  VF_OPS(X)
#undef X
  K_N
};
inline const char* opname(uint32_t k) {
  static const char* n[] = {
#define X(n) #n,
      VF_OPS(X)
#undef X
  };
  return k < K_N ? n[k] : "?";
}

enum Guar { STRONG, BASIC, NOTHROW };
struct El : TagBase {
  int id, a, b, c;
  const Val* addr = nullptr;
  int where = -1;  // slot, 100+handle, -1 nowhere
  int birth = 0;   // value of the operation counter when created
  uint64_t mark = 0, fl = 0;
};
struct IS { int desc = 0, coarse = 1, hmode = 0; };

template <class Cfg> struct Machine {
  typedef typename Cfg::LA LA;
  typedef typename Cfg::LB LB;
  typedef typename Cfg::Alloc Alloc;
  typedef typename LA::template cont<Alloc> CA;
  typedef typename LB::template cont<Alloc> CB;
  static constexpr int N = LA::N;
  static constexpr unsigned G = Cfg::G;
  static constexpr bool alt = Cfg::alt;
  static constexpr int NA = 3, NS = alt ? 4 : 3, NHD = 3;
  static constexpr bool has(unsigned g) { return (G & g) != 0; }
  static_assert(LA::N == LB::N, "");
  typedef typename CA::node_type NH;
  static_assert(std::is_same<NH, typename CB::node_type>::value, "");
  typedef std::vector<El*> EV;

  struct MC {
    EV ord[N];
    IS st[N];
    int alloc = 0;
  };
  struct Plan {
    MC m;
    EV flo[N];
    EV dead;
    int first = 0;  // index to resolve new objects by
    bool grew = false;   // an element was inserted: every hashed index must be within its load limit
    int grewAt = -1;     // rehash()/reserve() was called on this index
    explicit Plan(const MC& x) : m(x) {}
  };

  std::deque<El> pool;  // outlives the containers
  std::unique_ptr<CA> A[NA];
  std::unique_ptr<CB> B;
  MC M[4];
  NH H[NHD];
  El* hel[NHD] = {};
  int halloc[NHD] = {};
  std::unordered_map<int, std::deque<El*>> pending;
  int next_id = 1;
  uint64_t epoch = 1;
  int Da = 8, Db = 8, Dc = 8, maxsz = 60;
  long base_live = 0, base_alloc = 0;
  // fault injection
  int opi = 0, armed_op = -1;
  long arm = -1;
  uint32_t armmask = ~0u;
  bool threw = false, did_fire = false, completed_unfired = false;
  // retained iterators
  template <class Ix> struct Ret { std::unique_ptr<typename Ix::iterator> ip; El* e; int slot; typename Ix::iterator& it() { return *ip; } };  // by pointer: an invalid iterator may only be destroyed, not copied
  template <int... I> static auto rettuple(std::integer_sequence<int, I...>) -> std::tuple<std::vector<Ret<typename CA::template nth_index<I>::type>>...>;
  decltype(rettuple(std::make_integer_sequence<int, N>())) R;

  static constexpr Kind kind(int slot, int i) { return (alt && slot == 3) ? LB::kind[i] : LA::kind[i]; }
  static constexpr int sel(int slot, int i) { return (alt && slot == 3) ? LB::sel[i] : LA::sel[i]; }

  // ------------------------------------------------------------ dispatch
  template <class F> void withC(int s, F f) {
    if constexpr (alt) { if (s == 3) { f(*B, std::integral_constant<bool, true>()); return; } }
    f(*A[s], std::integral_constant<bool, false>());
  }
  template <int I = 0, class F> static void withI(int i, F f) {
    if constexpr (I < N) {
      if (i == I) f(std::integral_constant<int, I>());
      else withI<I + 1>(i, f);
    }
  }
  // f(container, index, integral_constant I, integral_constant Kind) for containers whose Ith index kind is in MASK
  template <unsigned MASK, class F> void on(int s, int i, F f) {
    withI(i, [&](auto Ic) {
      constexpr int I = decltype(Ic)::value;
      if constexpr (alt) {
        if (s == 3) {
          if constexpr ((kb(LB::kind[I]) & MASK) != 0) f(*B, B->template get<I>(), Ic, std::integral_constant<Kind, LB::kind[I]>());
          return;
        }
      }
      if constexpr ((kb(LA::kind[I]) & MASK) != 0) f(*A[s], A[s]->template get<I>(), Ic, std::integral_constant<Kind, LA::kind[I]>());
    });
  }
  int pickI(uint32_t a, int s, unsigned mask) const {
    int c[N], n = 0;
    for (int i = 0; i < N; ++i) if (kb(kind(s, i)) & mask) c[n++] = i;
    return n ? c[a % n] : -1;
  }
  int slot(uint32_t a) const { return int(a % uint32_t(NS)); }

  // ------------------------------------------------------------ model helpers
  static int key(const El* e, int S) { return S == 0 ? e->a : S == 1 ? e->b : e->c; }
  static int cls(const IS& st, int k) { return k / st.coarse; }
  static bool klt(const IS& st, int x, int y) { return st.desc ? cls(st, y) < cls(st, x) : cls(st, x) < cls(st, y); }
  static bool keq(const IS& st, int x, int y) { return cls(st, x) == cls(st, y); }
  El* mk(int a, int b, int c) {
    pool.emplace_back();
    El* e = &pool.back();
    e->id = next_id++; e->a = a; e->b = b; e->c = c; e->birth = opi;
    return e;
  }
  El* mkv(uint32_t x) { return mk(int((x & 1023) % uint32_t(Da)), int(((x >> 10) & 1023) % uint32_t(Db)), int(((x >> 20) & 1023) % uint32_t(Dc))); }
  El* clone(const El* s) { El* e = mk(s->a, s->b, s->c); e->id = s->id; return e; }
  Val val(const El* e) const { return Val(e->id, e->a, e->b, e->c); }
  void expectNew(El* e) { pending[e->id].push_back(e); }
  static int posOf(const EV& v, const El* e) { return int(std::find(v.begin(), v.end(), e) - v.begin()); }
  std::size_t lowerOf(const MC& m, int s, int i, int k) const {
    std::size_t p = 0; const EV& v = m.ord[i]; int S = sel(s, i);
    while (p < v.size() && klt(m.st[i], key(v[p], S), k)) ++p;
    return p;
  }
  std::size_t upperOf(const MC& m, int s, int i, int k) const {
    std::size_t p = 0; const EV& v = m.ord[i]; int S = sel(s, i);
    while (p < v.size() && !klt(m.st[i], k, key(v[p], S))) ++p;
    return p;
  }
  EV clashes(const MC& m, int s, const El* e, const El* except = nullptr) const {
    EV r;
    for (int i = 0; i < N; ++i) if (kUnq(kind(s, i))) {
      int S = sel(s, i);
      for (El* x : m.ord[i]) if (x != except && x != e && keq(m.st[i], key(x, S), key(e, S))) r.push_back(x);
    }
    return r;
  }
  // insert e into the plan; origin: index whose position/hint is given (or -1)
  bool place(Plan& p, int s, El* e, int origin = -1, std::size_t pos = 0, bool hinted = false, bool floatAll = false) {
    MC& m = p.m;
    if (!clashes(m, s, e).empty()) return false;
    for (int i = 0; i < N; ++i) {
      Kind k = kind(s, i);
      EV& v = m.ord[i];
      if (kOrd(k)) {
        std::size_t lo = lowerOf(m, s, i, key(e, sel(s, i))), hi = upperOf(m, s, i, key(e, sel(s, i)));
        std::size_t at = hi;
        if (hinted && origin == i) at = std::min(std::max(pos, lo), hi);
        else if (hinted || floatAll) p.flo[i].push_back(e);
        v.insert(v.begin() + at, e);
      }
      else if (kLst(k) && origin == i) v.insert(v.begin() + std::min(pos, v.size()), e);
      else v.push_back(e);
    }
    p.grew = true;
    return true;
  }
  void unplace(Plan& p, El* e) {
    for (int i = 0; i < N; ++i) { EV& v = p.m.ord[i]; v.erase(v.begin() + posOf(v, e)); }
  }
  void drop(Plan& p, El* e) { unplace(p, e); p.dead.push_back(e); }

  // ------------------------------------------------------------ observation
  El* resolve(const Val& v, bool allowNew = true) {
    v.chk();
    El* e = static_cast<El*>(v.tag);
    if (!e) {
      if (!allowNew) VF_FAIL("an element object appeared that no operation created: id ", v.id);
      auto it = pending.find(v.id);
      if (it == pending.end() || it->second.empty()) VF_FAIL("an element appeared that the model does not know: id=", v.id, " (", v.a, ",", v.b, ",", v.c, ")");
      e = it->second.front(); it->second.pop_front();
      e->addr = &v;
      v.tag = e;
      e->id = next_id++;
      const_cast<Val&>(v).id = e->id;
    }
    else if (e->addr != &v) VF_FAIL("element object changed its address");
    if (e->destroyed) VF_FAIL("container holds a destroyed element id=", e->id);
    if (v.a != e->a || v.b != e->b || v.c != e->c)
      VF_FAIL("element id=", e->id, " holds (", v.a, ",", v.b, ",", v.c, ") where (", e->a, ",", e->b, ",", e->c, ") is expected");
    return e;
  }
  template <class Ix> EV walk(const Ix& ix, std::size_t limit) {
    EV r;
    for (auto it = ix.begin(), e = ix.end(); it != e; ++it) {
      if (r.size() > limit) VF_FAIL("enumeration of the index does not end after ", limit, " elements");
      r.push_back(resolve(*it));
    }
    return r;
  }
  static std::string str(const EV& v) {
    std::string o = "[";
    for (std::size_t i = 0; i < v.size() && i < 60; ++i) o += cat(i ? " " : "", v[i]->id, ":", v[i]->a, ",", v[i]->b, ",", v[i]->c);
    return o + "]";
  }
  template <int I, class C> auto& ixOf(C& c) { return c.template get<I>(); }

  // full check of one index, returns the observed order
  template <int I, class C> void checkIndex(C& c, int s, Plan& p) {
    constexpr bool isB = !std::is_same<C, CA>::value || false;
    constexpr Kind K = (isB && alt) ? LB::kind[I] : LA::kind[I];
    constexpr int S = (isB && alt) ? LB::sel[I] : LA::sel[I];
    const auto& ix = static_cast<const C&>(c).template get<I>();
    EV& exp = p.m.ord[I];
    if (ix.size() != exp.size()) VF_FAIL("index ", I, ": size() is ", ix.size(), ", expected ", exp.size());
    if (ix.empty() != exp.empty()) VF_FAIL("index ", I, ": empty() is wrong");
    EV act = walk(ix, exp.size() + 4);
    if (act.size() != exp.size()) VF_FAIL("index ", I, ": enumerates ", act.size(), " elements, expected ", exp.size(), " act=", str(act), " exp=", str(exp));
    ++epoch;
    for (El* e : exp) e->mark = epoch;
    for (El* e : act) {
      if (e->mark != epoch) VF_FAIL("index ", I, ": element id=", e->id, e->mark == epoch + 1 ? " enumerated twice" : " should not be there", " act=", str(act), " exp=", str(exp));
      e->mark = epoch + 1;
    }
    ++epoch;
    const IS& st = p.m.st[I];
    if constexpr (kOrd(K)) {
      for (std::size_t j = 1; j < act.size(); ++j) {
        int x = key(act[j - 1], S), y = key(act[j], S);
        if (klt(st, y, x)) VF_FAIL("index ", I, ": not sorted at position ", j, " ", str(act));
        if (kUnq(K) && !klt(st, x, y)) VF_FAIL("index ", I, ": equivalent keys in a unique index ", str(act));
      }
    }
    if constexpr (kHsh(K)) {
      std::unordered_map<int, int> seen;
      for (std::size_t j = 0; j < act.size(); ++j) {
        int k = cls(st, key(act[j], S));
        if (j && cls(st, key(act[j - 1], S)) == k) { if (kUnq(K)) VF_FAIL("index ", I, ": equivalent keys in a unique index"); continue; }
        if (seen[k]++) VF_FAIL("index ", I, ": equivalent elements are not adjacent ", str(act));
      }
    }
    else {
      if (p.flo[I].empty()) {
        if (act != exp) VF_FAIL("index ", I, ": order is ", str(act), " expected ", str(exp));
      }
      else {
        for (El* e : p.flo[I]) e->fl = epoch;
        EV a2, e2;
        for (El* e : act) if (e->fl != epoch) a2.push_back(e);
        for (El* e : exp) if (e->fl != epoch) e2.push_back(e);
        if (a2 != e2) VF_FAIL("index ", I, ": relative order of untouched elements changed: ", str(a2), " expected ", str(e2));
      }
      // backwards
      std::size_t j = act.size();
      for (auto it = ix.rbegin(); it != ix.rend(); ++it) {
        if (j == 0) VF_FAIL("index ", I, ": reverse enumeration is longer than size()");
        if (&*it != act[--j]->addr) VF_FAIL("index ", I, ": reverse enumeration differs from forward at ", j);
      }
      if (j) VF_FAIL("index ", I, ": reverse enumeration is shorter than size()");
    }
    if constexpr (kRnk(K)) {
      for (std::size_t j = 0; j < act.size(); ++j) {
        auto it = ix.nth(j);
        if (it == ix.end() || &*it != act[j]->addr) VF_FAIL("index ", I, ": nth(", j, ") is not the element at that position");
        if (ix.rank(ix.iterator_to(*act[j]->addr)) != j) VF_FAIL("index ", I, ": rank() of the element at ", j, " is ", ix.rank(ix.iterator_to(*act[j]->addr)));
      }
      if (ix.nth(act.size()) != ix.end() || ix.nth(act.size() + 3) != ix.end()) VF_FAIL("index ", I, ": nth(>=size()) is not end()");
      if (ix.rank(ix.end()) != act.size()) VF_FAIL("index ", I, ": rank(end()) is not size()");
    }
    if constexpr (K == RA) {
      if (ix.capacity() < ix.size()) VF_FAIL("index ", I, ": capacity() < size()");
      for (std::size_t j = 0; j < act.size(); ++j) {
        if (&ix[j] != act[j]->addr) VF_FAIL("index ", I, ": operator[](", j, ") is not the element at that position");
        auto it = ix.iterator_to(*act[j]->addr);
        if (std::size_t(it - ix.begin()) != j) VF_FAIL("index ", I, ": iterator_to at position ", j, " has offset ", it - ix.begin());
      }
    }
    if constexpr (kLst(K)) {
      if (!act.empty()) {
        if (&ix.front() != act.front()->addr) VF_FAIL("index ", I, ": front() is wrong");
        if (&ix.back() != act.back()->addr) VF_FAIL("index ", I, ": back() is wrong");
      }
    }
    if constexpr (kOrd(K)) { auto kc = ix.key_comp(); if (kc.desc != st.desc || kc.coarse != st.coarse) VF_FAIL("index ", I, ": comparison object is not the expected one"); }
    if constexpr (kHsh(K)) {
      auto h = ix.hash_function(); auto q = ix.key_eq();
      if (h.coarse != st.coarse || h.mode != st.hmode || q.coarse != st.coarse) VF_FAIL("index ", I, ": hash or equality object is not the expected one");
      if constexpr (has(G_HASH)) checkBuckets<I>(c, s, act, S);
      float mlf = ix.max_load_factor();
      if ((p.grew || p.grewAt == I) && double(ix.size()) > double(mlf) * double(ix.bucket_count()) * 1.00001 + 1e-6)
        VF_FAIL("index ", I, ": size()=", ix.size(), " exceeds bucket_count()*max_load_factor()=", ix.bucket_count(), "*", mlf, " after an insertion, rehash() or reserve()");
    }
    exp = act;
  }
  template <int I, class C> void checkBuckets(C& c, int, const EV& act, int S) {
    const auto& ix = static_cast<const C&>(c).template get<I>();
    std::size_t bc = ix.bucket_count(), total = 0;
    if (bc == 0) VF_FAIL("index ", I, ": bucket_count() is 0");
    if (ix.max_bucket_count() < bc) VF_FAIL("index ", I, ": max_bucket_count() < bucket_count()");
    for (std::size_t b = 0; b < bc; ++b) {
      std::size_t n = 0;
      for (auto it = ix.begin(b), e = ix.end(b); it != e; ++it) {
        if (++n > act.size()) VF_FAIL("index ", I, ": bucket ", b, " enumeration does not end");
        El* x = resolve(*it);
        if (ix.bucket(key(x, S)) != b) VF_FAIL("index ", I, ": element id=", x->id, " found in bucket ", b, " but bucket(key) is ", ix.bucket(key(x, S)));
        if (ix.local_iterator_to(*it) != it) VF_FAIL("index ", I, ": local_iterator_to is wrong");
      }
      if (n != ix.bucket_size(b)) VF_FAIL("index ", I, ": bucket_size(", b, ") is ", ix.bucket_size(b), ", enumerated ", n);
      total += n;
      if (n >= 2) VF_FEAT("bucket with >=2 elements");
    }
    if (total != act.size()) VF_FAIL("index ", I, ": buckets hold ", total, " elements, size() is ", act.size());
    float lf = float(act.size()) / float(bc);
    if (std::fabs(lf - ix.load_factor()) > 1e-4f * (1 + lf)) VF_FAIL("index ", I, ": load_factor() is ", ix.load_factor(), ", expected ", lf);
  }
  template <class C, int... I> void checkAll(C& c, int s, Plan& p, std::integer_sequence<int, I...>) {
    auto one = [&](auto Ic) { checkIndex<decltype(Ic)::value>(c, s, p); };
    withI(p.first, one);
    (void)std::initializer_list<int>{(I != p.first ? (one(std::integral_constant<int, I>()), 0) : 0)...};
    if (c.get_allocator().id != p.m.alloc && !Alloc::is_always_equal::value) VF_FAIL("get_allocator() is #", c.get_allocator().id, ", expected #", p.m.alloc);
    if (c.size() != p.m.ord[0].size()) VF_FAIL("container size() differs from its indices'");
  }
  // compare a container with its planned state, adopt it
  void commit(int s, Plan& p) {
    withC(s, [&](auto& c, auto) { checkAll(c, s, p, std::make_integer_sequence<int, N>()); });
    for (El* e : p.m.ord[0]) e->where = s;
    M[s] = p.m;
  }
  void settle(Plan& p) {
    for (El* e : p.dead) {
      if (e->destroyed != 1) VF_FAIL("element id=", e->id, " should have been destroyed exactly once, was ", e->destroyed);
      e->where = -1;
    }
    p.dead.clear();
  }
  void finish(std::initializer_list<std::pair<int, Plan*>> l) {
    for (auto& x : l) commit(x.first, *x.second);
    for (auto& x : l) settle(*x.second);
  }
  void done(int s, Plan& p) { commit(s, p); settle(p); }

  template <class C, class Ix> auto itAt(C&, Ix& ix, const EV& v, std::size_t pos) {
    return pos >= v.size() ? ix.end() : ix.iterator_to(*v[pos]->addr);
  }
  template <class Ix, class It> void chkIt(Ix& ix, It it, const EV& v, std::size_t pos, const char* what) {
    if (pos >= v.size()) { if (it != ix.end()) VF_FAIL(what, ": returned iterator is not end()"); }
    else if (it == ix.end() || &*it != v[pos]->addr) VF_FAIL(what, ": returned iterator does not designate the expected element at position ", pos);
  }

  // ------------------------------------------------------------ calls and faults
  template <class F> bool call(Guar g, F f) {
    threw = false;
    bool armed = (opi == armed_op && arm >= 0 && !did_fire);
    if (armed) { faults().countdown = arm; faults().mask = armmask; faults().fired = false; }
    try { f(); }
    catch (const Injected& x) {
      threw = true; did_fire = true;
      faults().countdown = -1;
      if (!armed) VF_FAIL("injected exception without injection");
      if (g == NOTHROW) VF_FAIL("an operation documented not to throw let an exception out (kind ", x.kind, ")");
      static const char* fk[] = {"fault in comparison", "fault in hash", "fault in equality", "fault in key extraction", "fault in copy construction", "fault in move construction", "fault in assignment", "fault in allocation", "fault in modifier", "fault in predicate", "fault in construction"};
      stats().feat[fk[x.kind]]++;
      stats().feat[cat("fault in op ", opname(curop))]++;
      ++stats().interesting;
      return false;
    }
    faults().countdown = -1;
    if (armed) {
      if (faults().fired) VF_FAIL("an exception thrown by user code (kind ", faults().fired_kind, ") did not reach the caller");
      completed_unfired = true;
    }
    return true;
  }
  uint32_t curop = 0;
  void forget() { pending.clear(); }
  // after a failed operation with the strong guarantee: nothing changed
  void strong(std::initializer_list<int> slots) {
    forget();
    for (int s : slots) { Plan p(M[s]); commit(s, p); }
    for (int h = 0; h < NHD; ++h) checkHandle(h);
  }
  // after a failed operation with the basic guarantee: adopt what is there after checking consistency.
  // keep: no old element may be lost. reorder: index whose order may have changed (-1 none)
  void basic(std::initializer_list<int> slots, bool keep, int reorder, bool floatAll = true) {
    EV olds;
    std::vector<int> S(slots);
    for (int s : S) for (El* e : M[s].ord[0]) olds.push_back(e);
    std::vector<std::unique_ptr<Plan>> plans;
    uint64_t mine = ++epoch; ++epoch;
    for (int s : S) {
      plans.emplace_back(new Plan(M[s]));
      Plan& p = *plans.back();
      EV act;
      withC(s, [&](auto& c, auto) { act = walk(static_cast<const std::remove_reference_t<decltype(c)>&>(c).template get<0>(), 4000); });
      for (El* e : act) { if (e->mark == mine) VF_FAIL("element id=", e->id, " is in two places after a failed operation"); e->mark = mine; }
      std::unordered_map<El*, int> in;
      for (El* e : act) in[e] = 1;
      for (int i = 0; i < N; ++i) {
        EV kept;
        for (El* e : p.m.ord[i]) if (in.count(e)) kept.push_back(e);
        std::unordered_map<El*, int> was;
        for (El* e : kept) was[e] = 1;
        for (El* e : act) if (!was.count(e)) { kept.push_back(e); p.flo[i].push_back(e); }
        p.m.ord[i] = kept;
        if (i == reorder || (floatAll && false)) p.flo[i] = kept;
      }
    }
    for (std::size_t k = 0; k < S.size(); ++k) commit(S[k], *plans[k]);
    for (El* e : olds) {
      bool here = false;
      for (int s : S) if (e->where == s && posOf(M[s].ord[0], e) < int(M[s].ord[0].size())) here = true;
      if (!here) {
        if (keep) VF_FAIL("element id=", e->id, " was lost by a failed operation that removes nothing");
        if (e->destroyed != 1) VF_FAIL("element id=", e->id, " vanished without being destroyed");
        e->where = -1;
      }
    }
    forget();
  }
  void checkHandle(int h) {
    if (hel[h]) {
      if (H[h].empty() || !H[h]) VF_FAIL("node handle lost its element");
      if (&H[h].value() != hel[h]->addr) VF_FAIL("node handle holds another element");
      resolve(H[h].value(), false);
      if (!Alloc::is_always_equal::value && H[h].get_allocator().id != halloc[h]) VF_FAIL("node handle reports allocator #", H[h].get_allocator().id, ", expected #", halloc[h]);
    }
    else if (!H[h].empty()) VF_FAIL("node handle should be empty");
  }

  // ------------------------------------------------------------ global checks after every operation
  void globals() {
    check_late();
    long want = base_live;
    for (int s = 0; s < NS; ++s) want += long(M[s].ord[0].size());
    for (int h = 0; h < NHD; ++h) { if (hel[h]) ++want; checkHandle(h); }
    if (cnt().live != want) VF_FAIL("live element objects: ", cnt().live, ", expected ", want, " (leak or double destruction)");
    if constexpr (!Alloc::is_always_equal::value) {
      for (auto& kv : ledger().per_id) if (kv.second != 0) {
        bool ok = false;
        for (int s = 0; s < NS; ++s) if (M[s].alloc == kv.first) ok = true;
        for (int h = 0; h < NHD; ++h) if (hel[h] && halloc[h] == kv.first) ok = true;
        if (!ok) VF_FAIL(kv.second, " blocks of allocator #", kv.first, " are held though no container or handle reports that allocator");
      }
    }
    forget();
    if constexpr (has(G_ITER)) checkRet();
  }
  // retained iterators
  template <int I = 0> void checkRet() {
    if constexpr (I < N) {
      auto& v = std::get<I>(R);
      for (std::size_t j = 0; j < v.size();) {
        auto& r = v[j];
        bool dropit = false;
        if (r.e) {
          int w = r.e->where;
          if (w < 0 || w >= NA) dropit = true;
          else {
            auto& ix = A[w]->template get<I>();
            if (&*r.it() != r.e->addr) VF_FAIL("a retained iterator of index ", I, " no longer designates its element");
            if (r.it() != ix.iterator_to(*r.e->addr)) VF_FAIL("a retained iterator of index ", I, " differs from iterator_to its element");
            const EV& o = M[w].ord[I];
            std::size_t p = std::size_t(posOf(o, r.e));
            auto n = r.it(); ++n;
            if (p + 1 == o.size()) { if (n != ix.end()) VF_FAIL("a retained iterator of index ", I, " does not reach end()"); }
            else if (&*n != o[p + 1]->addr) VF_FAIL("a retained iterator of index ", I, " advances to the wrong element");
            if constexpr (!kHsh(LA::kind[I])) if (p > 0) { auto q = r.it(); --q; if (&*q != o[p - 1]->addr) VF_FAIL("a retained iterator of index ", I, " steps back to the wrong element"); }
            if (w != r.slot) VF_HIT_G(G_ITER, "iterator followed its element into another container");
            else VF_FEAT("retained iterator re-checked");
          }
        }
        else {
          auto& ix = A[r.slot]->template get<I>();
          if (r.it() != ix.end()) VF_FAIL("a retained end() iterator of index ", I, " is no longer end()");
        }
        if (dropit) { if (j + 1 < v.size()) v[j] = std::move(v.back()); v.pop_back(); }
        else ++j;
      }
      checkRet<I + 1>();
    }
  }
  template <int I = 0> void dropRet(int s, bool endsOnly) {
    if constexpr (I < N) {
      auto& v = std::get<I>(R);
      for (std::size_t j = 0; j < v.size();) {
        bool d = v[j].e ? (!endsOnly && v[j].e->where == s) : v[j].slot == s;
        if (d) { if (j + 1 < v.size()) v[j] = std::move(v.back()); v.pop_back(); } else ++j;
      }
      dropRet<I + 1>(s, endsOnly);
    }
  }
  template <int I = 0> void dropRetEl(El* e) {
    if constexpr (I < N) {
      auto& v = std::get<I>(R);
      for (std::size_t j = 0; j < v.size();) { if (v[j].e == e) { if (j + 1 < v.size()) v[j] = std::move(v.back()); v.pop_back(); } else ++j; }
      dropRetEl<I + 1>(e);
    }
  }

  // ------------------------------------------------------------ construction
  template <class C, int I> static typename C::template nth_index<I>::type::ctor_args ctorArg(const IS& st, std::size_t nb) {
    typedef typename C::template nth_index<I>::type Ix;
    constexpr bool isB = alt && std::is_same<C, CB>::value && !std::is_same<CA, CB>::value;
    constexpr Kind K = isB ? LB::kind[I] : LA::kind[I];
    (void)nb; (void)st;
    if constexpr (kOrd(K)) return typename Ix::ctor_args(typename Ix::key_from_value(), Cmp(st.desc, st.coarse));
    else if constexpr (kHsh(K)) return typename Ix::ctor_args(nb, typename Ix::key_from_value(), Hsh(st.coarse, st.hmode), Eq(st.coarse));
    else return typename Ix::ctor_args();
  }
  template <class C, int I, class CL> static CL ctorCons(const MC& m, std::size_t nb) {
    if constexpr (I == N - 1) return CL(ctorArg<C, I>(m.st[I], nb), boost::tuples::null_type());
    else return CL(ctorArg<C, I>(m.st[I], nb), ctorCons<C, I + 1, typename CL::tail_type>(m, nb));
  }
  template <class C> static typename C::ctor_args_list ctorArgs(const MC& m, std::size_t nb) { return ctorCons<C, 0, typename C::ctor_args_list>(m, nb); }
  void states(int s, uint32_t seed, MC& m) const {
    Rng r(mix(seed, 77 + uint32_t(s)));
    for (int i = 0; i < N; ++i) {
      m.st[i].desc = (kOrd(kind(s, i)) && (seed % 4) != 0) ? int(r.below(2)) : 0;
      m.st[i].coarse = (kKey(kind(s, i)) && (seed % 4) != 0) ? (r.below(3) == 0 ? 2 : 1) : 1;
      m.st[i].hmode = kHsh(kind(s, i)) ? int(r.below(5)) : 0;
    }
  }
  int allocOf(uint32_t x) const {
    if (Alloc::is_always_equal::value) return 0;
    return P5 == 0 ? 0 : int(x % P5);
  }
  uint32_t P5 = 0;
  void create(int s, uint32_t seed, uint32_t nb, int al) {
    MC m; states(s, seed, m); m.alloc = al;
    if constexpr (alt) { if (s == 3) { B.reset(new CB(ctorArgs<CB>(m, nb), Alloc(al))); M[3] = m; return; } }
    A[s].reset(new CA(ctorArgs<CA>(m, nb), Alloc(al)));
    M[s] = m;
  }
  void setup(const Case& c) {
    Da = 1 + int(c.p(0) % 1023); Db = 1 + int(c.p(1) % 1023); Dc = 1 + int(c.p(2) % 1023);
    maxsz = 1 + int(c.p(4) % 3000);
    P5 = c.p(5) % 4;
    base_live = cnt().live; base_alloc = cnt().alive_alloc;
    for (int s = 0; s < NS; ++s) create(s, c.p(3) + (c.p(3) % 3 == 0 ? 0 : 4 * uint32_t(s)), c.p(6) % 40, allocOf(uint32_t(s)));
    for (int h = 0; h < NHD; ++h) hel[h] = nullptr;
  }
  void teardown() {
    if constexpr (has(G_ITER)) { for (int s = 0; s < NA; ++s) dropRet(s, false); clearRet(); }
    for (int h = 0; h < NHD; ++h) H[h] = NH();
    for (int h = 0; h < NHD; ++h) if (hel[h]) { if (hel[h]->destroyed != 1) VF_FAIL("element in a destroyed node handle was destroyed ", hel[h]->destroyed, " times"); hel[h] = nullptr; }
    for (int s = 0; s < NS; ++s) {
      EV all = M[s].ord[0];
      if (alt && s == 3) B.reset(); else A[s].reset();
      for (El* e : all) if (e->destroyed != 1) VF_FAIL("element id=", e->id, " destroyed ", e->destroyed, " times by the container's destructor");
    }
    check_late();
    if (cnt().live != base_live) VF_FAIL("live element objects at the end: ", cnt().live - base_live);
    if (cnt().alive_alloc != base_alloc) VF_FAIL("live allocator objects at the end: ", cnt().alive_alloc - base_alloc);
    if (!ledger().m.empty()) VF_FAIL(ledger().m.size(), " blocks never returned to their allocator");
  }
  template <int I = 0> void clearRet() { if constexpr (I < N) { std::get<I>(R).clear(); clearRet<I + 1>(); } }

#include "ops.inc"

  void exec(const Op& o) {
    curop = o.k;
    switch (o.k) {
#define X(n) case K_##n: op_##n(o); break;
      VF_OPS(X)
#undef X
      default: break;
    }
    globals();
    ++opi;
  }
  void run(const Case& c) {
    faults() = Faults();
    setup(c);
    for (auto& o : c.ops) exec(o);
    teardown();
  }
  // replays the case with one fault after another injected into the operation at index t
  // the machine is deliberately not destroyed when a check fails: its containers may be corrupt
  static void runOne(const Case& c) { Machine* m = new Machine; m->run(c); delete m; ++stats().evals; }
  static void runFaults(const Case& c) {
    if (c.ops.empty()) { runOne(c); return; }
    int t = int(c.p(8) % uint32_t(c.ops.size()));
    uint32_t k0 = c.p(9);  // if non-zero, only this fault point (+1): used when shrinking
    for (long k = k0 ? long(k0) - 1 : 0; k < 600; ++k) {
      Machine* m = new Machine;
      m->armed_op = t; m->arm = k;
      m->run(c);
      ++stats().evals;
      bool fired = m->did_fire;
      delete m;
      if (!fired || k0) break;
    }
  }
  static std::string show(const Case& c) {
    std::ostringstream o;
    o << Cfg::name() << " domains " << 1 + c.p(0) % 1023 << "," << 1 + c.p(1) % 1023 << "," << 1 + c.p(2) % 1023 << ";";
    if (Cfg::faulty) o << " fault target op " << (c.ops.empty() ? 0 : c.p(8) % c.ops.size()) << ";";
    for (auto& x : c.ops) o << " " << opname(x.k) << "(" << x.a[0] << "," << x.a[1] << "," << x.a[2] << "," << x.a[3] << "," << x.a[4] << ")";
    return o.str();
  }
};
}  // namespace vf
#endif
