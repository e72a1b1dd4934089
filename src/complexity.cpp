// Costs: comparisons, hash and equality evaluations per index, element constructions,
// allocations and (with counting fancy pointers) nodes visited, per operation, under
// adversarial and random histories, against the documented complexity.
#include "val.hpp"
#include <cmath>
#define BOOST_MULTI_INDEX_DISABLE_SERIALIZATION
#include <boost/multi_index_container.hpp>
#include <boost/multi_index/hashed_index.hpp>
#include <boost/multi_index/ordered_index.hpp>
#include <boost/multi_index/random_access_index.hpp>
#include <boost/multi_index/ranked_index.hpp>
#include <boost/multi_index/sequenced_index.hpp>
namespace vf {
namespace bmi = boost::multi_index;
enum Kind { OU, ON, RU, RN, HU, HN, SQ, RA };
constexpr bool kOrd(Kind k) { return k <= RN; }
constexpr bool kRnk(Kind k) { return k == RU || k == RN; }
constexpr bool kHsh(Kind k) { return k == HU || k == HN; }
constexpr bool kLst(Kind k) { return k >= SQ; }
static const char* kname[] = {"ordered_unique", "ordered_non_unique", "ranked_unique", "ranked_non_unique", "hashed_unique", "hashed_non_unique", "sequenced", "random_access"};

struct Cost {  // by index slot; the index at position i has slot i
  uint64_t cmp[4] = {}, hash[4] = {}, eq[4] = {}, ctor = 0, copy = 0, move = 0, assign = 0, massign = 0, alloc = 0, steps = 0;
};
static Cost& K() { static Cost c; return c; }
static Cost since(const Cost& b) {
  Cost e = K();
  e.alloc = cnt().alloc; e.steps = fancySteps();
  for (int i = 0; i < 4; ++i) { e.cmp[i] -= b.cmp[i]; e.hash[i] -= b.hash[i]; e.eq[i] -= b.eq[i]; }
  e.ctor -= b.ctor; e.copy -= b.copy; e.move -= b.move; e.assign -= b.assign; e.massign -= b.massign; e.alloc -= b.alloc; e.steps -= b.steps;
  return e;
}
static Cost mark() { Cost c = K(); c.alloc = cnt().alloc; c.steps = fancySteps(); return c; }

struct El {
  int k[3], id;
  mutable uint32_t pos = 0;  // place in the pool
  El(int a, int b, int c, int i) : k{a, b, c}, id(i) { ++K().ctor; }
  El(const El& x) : k{x.k[0], x.k[1], x.k[2]}, id(x.id), pos(x.pos) { ++K().copy; }
  El(El&& x) : k{x.k[0], x.k[1], x.k[2]}, id(x.id), pos(x.pos) { ++K().move; }
  El& operator=(const El& x) { for (int i = 0; i < 3; ++i) k[i] = x.k[i]; id = x.id; ++K().assign; return *this; }
  El& operator=(El&& x) { for (int i = 0; i < 3; ++i) k[i] = x.k[i]; id = x.id; ++K().massign; return *this; }
};
template <int S> struct Key { typedef int result_type; const int& operator()(const El& e) const { return e.k[S]; } int& operator()(El& e) const { return e.k[S]; } };
template <int I> struct CCmp { bool operator()(int a, int b) const { ++K().cmp[I]; return a < b; } };
static int& hashMode() { static int m; return m; }
static std::size_t mix(uint64_t x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; x ^= x >> 33; return std::size_t(x); }
template <int I> struct CHash { std::size_t operator()(int a) const { ++K().hash[I]; return hashMode() < 2 ? mix(uint64_t(unsigned(a)) + (hashMode() ? 0x51ull << 40 : 0)) : 12345; } };
template <int I> struct CEq { bool operator()(int a, int b) const { ++K().eq[I]; return a == b; } };

template <Kind K_, int S = 0> struct ID { static constexpr Kind kind = K_; static constexpr int sel = S; };
template <class D, int I> struct Spec;
template <int S, int I> struct Spec<ID<OU, S>, I> { typedef bmi::ordered_unique<Key<S>, CCmp<I>> type; };
template <int S, int I> struct Spec<ID<ON, S>, I> { typedef bmi::ordered_non_unique<Key<S>, CCmp<I>> type; };
template <int S, int I> struct Spec<ID<RU, S>, I> { typedef bmi::ranked_unique<Key<S>, CCmp<I>> type; };
template <int S, int I> struct Spec<ID<RN, S>, I> { typedef bmi::ranked_non_unique<Key<S>, CCmp<I>> type; };
template <int S, int I> struct Spec<ID<HU, S>, I> { typedef bmi::hashed_unique<Key<S>, CHash<I>, CEq<I>> type; };
template <int S, int I> struct Spec<ID<HN, S>, I> { typedef bmi::hashed_non_unique<Key<S>, CHash<I>, CEq<I>> type; };
template <int S, int I> struct Spec<ID<SQ, S>, I> { typedef bmi::sequenced<> type; };
template <int S, int I> struct Spec<ID<RA, S>, I> { typedef bmi::random_access<> type; };
template <class Seq, class... D> struct LImpl;
template <std::size_t... I, class... D> struct LImpl<std::index_sequence<I...>, D...> { typedef bmi::indexed_by<typename Spec<D, int(I)>::type...> ib; };
template <class... D> struct L {
  static constexpr int n = sizeof...(D);
  static constexpr Kind kind[] = {D::kind...};
  static constexpr int sel[] = {D::sel...};
  typedef typename LImpl<std::make_index_sequence<sizeof...(D)>, D...>::ib ib;
};
template <int I> using IC = std::integral_constant<int, I>;
template <int N, int I = 0, class F> void each(F&& f) { if constexpr (I < N) { f(IC<I>()); each<N, I + 1>(f); } }

static int lg(std::size_t n) { int r = 0; while (n > 1) { n >>= 1; ++r; } return r; }
static uint64_t treeCmp(std::size_t n) { return uint64_t(2 * lg(n + 1) + 4); }  // red-black height, plus a constant
static uint64_t treeSteps(std::size_t n) { return uint64_t(60 * (lg(n + 1) + 2)); }

template <class LL> struct M {
  typedef LL List;
  static constexpr int N = LL::n;
  static constexpr bool fancy = VF_FANCY;
  typedef TA<El, 0, fancy> Alloc;
  typedef bmi::multi_index_container<El, typename LL::ib, Alloc> C;
  struct Box {
    C c;
    std::vector<const El*> pool;
    double hcred[4], ecred[4], scred;
    explicit Box(int al) : c(typename C::ctor_args_list(), Alloc(al)) { refill(); }
    // after operations that may change the bucket or pointer arrays arbitrarily
    void refill() { for (int i = 0; i < 4; ++i) { hcred[i] = 6.0 * double(c.size()) + 200; ecred[i] = 300; } scred = 60.0 * double(c.size()) + 3000; }
    void add(const El* e) { e->pos = uint32_t(pool.size()); pool.push_back(e); }
    void del(uint32_t p) { if (p + 1 < pool.size()) { pool[p] = pool.back(); pool[p]->pos = p; } pool.pop_back(); }
    void rebuild() { pool.clear(); for (auto& e : c.template get<0>()) add(&e); }
  };
  template <int I> static constexpr Kind kind() { return LL::kind[I]; }
  template <int I> static auto& ix(Box& b) { return b.c.template get<I>(); }

  // ---- the run
  Box b0, b1;
  Rng r;
  int nextId = 1;
  int dom1, dom2;
  long c0 = 0, lo0 = 0, hi0 = 0;
  static constexpr bool hasKind(bool (*f)(Kind)) { for (int i = 0; i < N; ++i) if (f(LL::kind[i])) return true; return false; }
  static constexpr bool hasRA() { for (int i = 0; i < N; ++i) if (LL::kind[i] == RA) return true; return false; }
  explicit M(const Case& cs) : b0(1), b1(cs.p(4) % 2 ? 1 : 1), r(cs.p(0)), dom1(int(cs.p(1)) + 1), dom2(int(cs.p(2)) + 1) { hashMode() = int(cs.p(3) % 3); }

  std::size_t ndist(int slot, std::size_t n) const { int s = LL::sel[slot]; std::size_t d = s == 1 ? std::size_t(dom1) : s == 2 ? std::size_t(dom2) : n; return std::min(d, n); }
  static std::string nm(int i) { return cat(kname[LL::kind[i]], " index #", i); }

  // ---- accounting of one operation on box b; n: size before
  struct Bill { uint64_t cmp[4] = {}, hash[4] = {}; double eq[4] = {}, steps = 0; };
  void settle(Box& b, const Cost& d, const Bill& a, std::size_t n, const char* what) {
    for (int i = 0; i < N; ++i) {
      if (kOrd(LL::kind[i]) && d.cmp[i] > a.cmp[i]) VF_FAIL(what, ": ", d.cmp[i], " comparisons by ", nm(i), " with ", n, " elements, at most ", a.cmp[i], " expected");
      if (kHsh(LL::kind[i])) {
        double cap = 6.0 * double(n) + 200;
        b.hcred[i] = std::min(cap, b.hcred[i] + 3.0 * double(a.hash[i])) - double(d.hash[i]);
        if (b.hcred[i] < 0) VF_FAIL(what, ": the hash evaluations by ", nm(i), " with ", n, " elements are not amortized constant (", d.hash[i], " in the last operation)");
        if (a.hash[i] == 0 && d.hash[i] > 0) VF_FAIL(what, ": ", d.hash[i], " hash evaluations by ", nm(i));
        if (hashMode() < 2) {
          b.ecred[i] = std::min(300.0, b.ecred[i] + a.eq[i]) - double(d.eq[i]);
          if (b.ecred[i] < 0) VF_FAIL(what, ": the key equality evaluations by ", nm(i), " with ", n, " elements are not constant on average (", d.eq[i], " in the last operation) under a good hash function");
        }
        else if (double(d.eq[i]) > (a.eq[i] > 0 ? (a.eq[i] > 15 ? 4.0 : 2.0) * double(ndist(i, n + 1)) + 8 : 0)) VF_FAIL(what, ": ", d.eq[i], " key equality evaluations by ", nm(i), " with ", n, " elements in ", ndist(i, n + 1), " groups");
        if (a.eq[i] == 0 && d.eq[i] > 0) VF_FAIL(what, ": ", d.eq[i], " key equality evaluations by ", nm(i));
      }
    }
    if (fancy) {
      double cap = 60.0 * double(n) + 3000;
      b.scred = std::min(cap, b.scred + a.steps) - double(d.steps);
      if (b.scred < 0) VF_FAIL(what, ": visits too many nodes with ", n, " elements (", d.steps, " in the last operation, about ", a.steps, " expected)");
    }
  }
  // what inserting one element may cost, in all indices; through: the index used (-1: any), well: well hinted; dist: distance to the end in that random access index
  Bill insBill(std::size_t n, int through, bool well, double dist) {
    Bill a;
    for (int i = 0; i < N; ++i) {
      Kind k = LL::kind[i];
      if (kOrd(k)) { a.cmp[i] = i == through && well ? 4 : treeCmp(n + 1); a.steps += i == through && well && !kRnk(k) ? 250 : double(treeSteps(n + 1)); }
      else if (kHsh(k)) { a.hash[i] = 2; a.eq[i] = 12; a.steps += 150 + (hashMode() == 2 ? 30.0 * double(ndist(i, n + 1)) : 0); }
      else if (k == SQ) a.steps += 60;
      else a.steps += 60 + (i == through ? 12 * dist : 0);
    }
    return a;
  }
  template <class It> Bill eraBill(Box& b, It it) {
    Bill a;
    std::size_t n = b.c.size();
    each<N>([&](auto J) {
      constexpr Kind k = kind<J.value>();
      if constexpr (kRnk(k)) a.steps += double(treeSteps(n));
      else if constexpr (kOrd(k)) a.steps += 300;
      else if constexpr (kHsh(k)) { a.hash[J.value] = 1; a.steps += 150 + (hashMode() == 2 ? 30.0 * double(ndist(J.value, n)) : 0); }
      else if constexpr (k == SQ) a.steps += 60;
      else a.steps += 60 + 12.0 * double(ix<J.value>(b).end() - b.c.template project<J.value>(it));
    });
    return a;
  }
  void objects(const Cost& d, uint64_t ctor, uint64_t copy, uint64_t move, const char* what) {
    if (d.ctor > ctor || d.copy > copy || d.move > move || d.assign || d.massign)
      VF_FAIL(what, ": ", d.ctor, " elements constructed, ", d.copy, " copied, ", d.move, " moved, ", d.assign + d.massign, " assigned, at most ", ctor, ", ", copy, ", ", move, ", 0 expected");
  }

  // ---- growth
  int key0(uint32_t pat, int i, int m) {
    switch (pat % 7) {
      case 0: return int(4 * ++hi0);
      case 1: return int(4 * --lo0);
      case 2: return i % 2 ? int(4 * ++hi0) : int(4 * --lo0);
      case 3: return 4 * r.range(-50000000, 50000000);
      case 4: { if (i == 0) c0 = 4L * r.range(-1000000, 1000000); long w = m - i; return int(c0 + (i % 2 ? 4 * w : -4 * w)); }  // closing in on a point
      case 5: { if (i == 0) c0 = 4L * r.range(-1000000, 1000000); return int(c0 + 4L * (i % 16) * 4096 + 4 * (i / 16)); }        // interleaved runs
      default: { unsigned x = unsigned(i), y = 0; for (int q = 0; q < 16; ++q) y |= (x >> q & 1) << (15 - q); return int(4 * (y + 70000u)); }  // bit reversal
    }
  }
  El makeEl(uint32_t pat, int i, int m) {
    int k0 = key0(pat, i, m);
    int k1, k2;
    switch (pat / 7 % 4) {
      case 0: k1 = 4 * int(r.below(uint32_t(dom1))); k2 = 4 * int(r.below(uint32_t(dom2))); break;
      case 1: k1 = 4 * (i % dom1); k2 = 4 * int(uint64_t(i) * uint64_t(dom2) / uint64_t(m + 1)); break;
      case 2: k1 = 4 * int(uint64_t(i) * uint64_t(dom1) / uint64_t(m + 1)); k2 = 4 * (dom2 - 1 - i % dom2); break;
      default: k1 = 4 * (dom1 / 2); k2 = 4 * (dom2 - 1 - int(uint64_t(i) * uint64_t(dom2) / uint64_t(m + 1))); break;
    }
    return El(k0, k1, k2, nextId++);
  }
  // the arrays of random access and hashed indices have to grow geometrically: the places
  // allocated over a phase are bounded by a multiple of the final capacity
  struct Caps {
    std::size_t cap[N] = {};
    double sum[N] = {};
    int changes[N] = {};
    template <int I> static std::size_t of(Box& b) {
      if constexpr (kind<I>() == RA) return ix<I>(b).capacity();
      else if constexpr (kHsh(kind<I>())) return ix<I>(b).bucket_count();
      else return 0;
    }
    template <int... I> void each(Box& b, std::integer_sequence<int, I...>) { (one(I, of<I>(b)), ...); }
    void one(int i, std::size_t c) { if (c != cap[i]) { cap[i] = c; sum[i] += double(c); ++changes[i]; } }
    explicit Caps(Box& b) { look(b); for (int i = 0; i < N; ++i) { sum[i] = 0; changes[i] = 0; } }
    void look(Box& b) { each(b, std::make_integer_sequence<int, N>()); }
    void check(int m, std::size_t n) {
      for (int i = 0; i < N; ++i) {
        if (changes[i] > 4 * lg(n + 1) + 8) VF_FAIL("insertion of ", m, " elements changed the capacity of index #", i, " ", changes[i], " times");
        if (sum[i] > 6 * double(cap[i]) + 200) VF_FAIL("insertion of ", m, " elements, up to ", n, ", allocated ", sum[i], " places in arrays of index #", i, ", which has ", cap[i], " in the end");
        if (changes[i] > 6) VF_HIT("array grown more than six times");
      }
    }
  };
  template <int I> void grow(Box& b, const Op& o, int m) {
    auto& x = ix<I>(b);
    constexpr Kind k = kind<I>();
    uint64_t alloc0 = cnt().alloc;
    std::size_t n0 = b.c.size();
    int done = 0;
    Caps caps(b);
    for (int i = 0; i < m; ++i) {
      El e = makeEl(o.a[2], i, m);
      const int key = k == SQ || k == RA ? 0 : e.k[LL::sel[I]];
      std::size_t n = b.c.size();
      uint32_t meth = o.a[3] % 10;
      if (o.a[3] / 10 % 3 == 0) meth = r.below(10);
      const char* what = "insert";
      bool ok = true;
      bool well = false;
      double dist = 0;
      uint64_t xc = 0, xm = 0, xk = 0;
      Cost before = mark(), d;
      const El* at = nullptr;
      if constexpr (kLst(k)) {
        auto p = x.end();
        if (meth < 5) {
          if constexpr (k == RA) { std::size_t q = r.below(uint32_t(n + 1)); if (meth == 4) q = n > 3 ? n - 3 : n; p = x.begin() + std::ptrdiff_t(q); dist = double(n - q); }
          else if (meth > 2 && !b.pool.empty()) p = x.iterator_to(*b.pool[r.below(uint32_t(b.pool.size()))]);
          else p = meth % 2 ? x.begin() : x.end();
        }
        before = mark();
        std::pair<typename std::decay<decltype(x)>::type::iterator, bool> q;
        switch (meth) {
          case 0: case 3: q = x.insert(p, e); xc = 1; break;
          case 1: q = x.insert(p, std::move(e)); xm = 1; break;
          case 2: case 4: q = x.emplace(p, e.k[0], e.k[1], e.k[2], e.id); xk = 1; break;
          case 5: case 6: q = x.push_back(e); xc = 1; what = "push_back"; break;
          case 7: q = x.push_back(std::move(e)); xm = 1; what = "push_back"; break;
          case 8: q = x.emplace_back(e.k[0], e.k[1], e.k[2], e.id); xk = 1; what = "emplace_back"; break;
          default: q = x.push_front(e); xc = 1; dist = double(n); what = "push_front"; break;
        }
        d = since(before);
        ok = q.second;
        if (ok) at = &*q.first;
      }
      else {
        auto hint = x.end();
        if (meth >= 4 && meth < 8) {
          if constexpr (kOrd(k)) { hint = meth % 2 ? x.upper_bound(key) : x.lower_bound(key); well = !(k == OU || k == RU) || x.find(key) == x.end(); }
          else if (!b.pool.empty()) hint = x.iterator_to(*b.pool[r.below(uint32_t(b.pool.size()))]);
        }
        else if (meth == 8 && !b.pool.empty()) hint = x.iterator_to(*b.pool[r.below(uint32_t(b.pool.size()))]);
        before = mark();
        switch (meth) {
          case 0: case 1: { auto q = x.insert(e); xc = 1; ok = q.second; if (ok) at = &*q.first; break; }
          case 2: { auto q = x.insert(std::move(e)); xm = 1; ok = q.second; if (ok) at = &*q.first; break; }
          case 3: { auto q = x.emplace(e.k[0], e.k[1], e.k[2], e.id); xk = 1; ok = q.second; if (ok) at = &*q.first; break; }
          case 4: case 5: case 8: { auto q = x.insert(hint, e); xc = 1; ok = b.c.size() > n; at = ok ? &*q : nullptr; what = well ? "insert with a good hint" : "insert with a hint"; break; }
          case 6: { auto q = x.insert(hint, std::move(e)); xm = 1; ok = b.c.size() > n; at = ok ? &*q : nullptr; what = well ? "insert with a good hint" : "insert with a hint"; break; }
          case 7: { auto q = x.emplace_hint(hint, e.k[0], e.k[1], e.k[2], e.id); xk = 1; ok = b.c.size() > n; at = ok ? &*q : nullptr; what = well ? "emplace_hint with a good hint" : "emplace_hint"; break; }
          default: { El* f = &e; x.insert(static_cast<const El*>(f), static_cast<const El*>(f) + 1); xc = 1; ok = b.c.size() > n; what = "insert of a range"; break; }
        }
        d = since(before);
        if (meth == 9) {  // the element's place was searched above: charge nothing
          if (ok) { auto er = x.equal_range(key); if constexpr (kOrd(k)) { do --er.second; while (er.second->id != e.id); at = &*er.second; } else { for (; er.first->id != e.id; ++er.first) ; at = &*er.first; } }
        }
      }
      settle(b, d, insBill(n, I, well, dist), n, what);
      objects(d, xk, xc, xm, what);
      if (ok != (b.c.size() == n + 1)) VF_FAIL(what, ": reports ", ok, " but size() goes from ", n, " to ", b.c.size());
      if (ok) { b.add(at); ++done; }
      else VF_FEAT("insertion refused");
      if (well && n > 64) VF_HIT("well hinted insertion into more than 64");
      caps.look(b);
    }
    std::size_t n = b.c.size();
    if (cnt().alloc - alloc0 > uint64_t(m + 16 * N * (lg(n + 1) + 2))) VF_FAIL("insertion of ", m, " elements: ", cnt().alloc - alloc0, " allocations");
    caps.check(m, n);
    sizes(b);
    if (n0 + std::size_t(done) != n) VF_FAIL("size after growth is wrong");
    if (done > 200) VF_HIT("growth by more than 200");
  }
  // many elements at once, sorted for the index or not
  template <int I> void growRange(Box& b, const Op& o, int m) {
    constexpr Kind k = kind<I>();
    auto& x = ix<I>(b);
    std::vector<El> v;
    v.reserve(std::size_t(m));
    for (int i = 0; i < m; ++i) v.push_back(makeEl(o.a[2], i, m));
    bool sorted = false;
    if constexpr (kOrd(k)) if (o.a[3] % 2) {
      std::stable_sort(v.begin(), v.end(), [](const El& p, const El& q) { return p.k[LL::sel[I]] < q.k[LL::sel[I]]; });
      sorted = b.c.empty() || std::prev(x.end())->k[LL::sel[I]] < v[0].k[LL::sel[I]];
    }
    std::size_t n = b.c.size();
    Cost before = mark();
    if constexpr (kLst(k)) x.insert(x.end(), v.begin(), v.end());
    else x.insert(v.begin(), v.end());
    Cost d = since(before);
    b.rebuild();
    for (int i = 0; i < N; ++i) {
      uint64_t lim = uint64_t(m) * (treeCmp(n + std::size_t(m)));
      if (kOrd(LL::kind[i]) && d.cmp[i] > lim) VF_FAIL("insert of a range of ", m, " elements", " into ", n, ": ", d.cmp[i], " comparisons by ", nm(i), ", at most ", lim, " expected");
      if (kHsh(LL::kind[i]) && d.hash[i] > 6 * (n + std::size_t(m)) + 100) VF_FAIL("insert of a range of ", m, " into ", n, ": ", d.hash[i], " hash evaluations");
      if (kHsh(LL::kind[i]) && hashMode() < 2 && d.eq[i] > 12 * std::size_t(m) + 300) VF_FAIL("insert of a range of ", m, " into ", n, ": ", d.eq[i], " key equality evaluations");
    }
    objects(d, 0, uint64_t(m), 0, "insert of a range");
    if (fancy) stepsTotal(d, double(m) * opSteps(n + std::size_t(m)) + 60.0 * double(n) * N, "insert of a range");
    b.refill();
    sizes(b);
    VF_HIT(sorted ? "sorted range inserted" : "range inserted");
  }
  double opSteps(std::size_t n) { double s = 0; for (int i = 0; i < N; ++i) s += kOrd(LL::kind[i]) ? double(treeSteps(n)) : 200 + (hashMode() == 2 && kHsh(LL::kind[i]) ? 30.0 * double(ndist(i, n)) : 0); return s; }
  void stepsTotal(const Cost& d, double lim, const char* what) { if (fancy && double(d.steps) > lim + 3000) VF_FAIL(what, ": ", d.steps, " nodes visited, at most about ", lim, " expected"); }
  double arrays(Box& b) {
    double s = 0;
    each<N>([&](auto J) { if constexpr (kHsh(kind<J.value>())) s += 12.0 * double(ix<J.value>(b).bucket_count()); if constexpr (kind<J.value>() == RA) s += 12.0 * double(ix<J.value>(b).capacity()); (void)J; });
    return s;
  }
  // sizes of the auxiliary arrays
  void sizes(Box& b) {
    std::size_t n = b.c.size();
    each<N>([&](auto J) {
      constexpr Kind k = kind<J.value>();
      if constexpr (kHsh(k)) if (!policy && double(ix<J.value>(b).bucket_count()) > 16 * (double(n) + double(peak)) + 400) VF_FAIL("bucket_count() is ", ix<J.value>(b).bucket_count(), " with at most ", peak, " elements so far");
      if constexpr (k == RA) if (!policy && ix<J.value>(b).capacity() > 8 * (n + peak) + 200) VF_FAIL("capacity() is ", ix<J.value>(b).capacity(), " with at most ", peak, " elements so far");
      (void)J;
    });
    peak = std::max(peak, n);
  }
  bool policy = false;
  std::size_t peak = 0;

  // ---- shrinkage
  template <int I> typename C::template nth_index<I>::type::iterator pick(Box& b, uint32_t pat, int i) {
    auto& x = ix<I>(b);
    constexpr Kind k = kind<I>();
    switch (pat % 4) {
      case 0: return x.begin();
      case 1: if constexpr (!kHsh(k)) return std::prev(x.end()); else return x.begin();
      case 2: if constexpr (!kHsh(k)) return i % 2 ? x.begin() : std::prev(x.end());
      [[fallthrough]];
      default: return x.iterator_to(*b.pool[r.below(uint32_t(b.pool.size()))]);
    }
  }
  template <int I> void shrink(Box& b, const Op& o, int m) {
    auto& x = ix<I>(b);
    constexpr Kind k = kind<I>();
    std::size_t n0 = b.c.size();
    for (int i = 0; i < m && !b.c.empty(); ++i) {
      auto it = pick<I>(b, o.a[2], i);
      std::size_t n = b.c.size();
      uint32_t pos = it->pos;
      Bill a = eraBill(b, it);
      uint32_t meth = o.a[3] % 5;
      const char* what = "erase";
      if constexpr (kLst(k)) if (meth == 3) {
        bool front = o.a[3] / 5 % 2 == 0;
        auto jt = front ? x.begin() : std::prev(x.end());
        pos = jt->pos;
        a = eraBill(b, jt);
        Cost before = mark();
        if (front) x.pop_front(); else x.pop_back();
        Cost d = since(before);
        b.del(pos);
        settle(b, d, a, n, front ? "pop_front" : "pop_back");
        objects(d, 0, 0, 0, "pop");
        continue;
      }
      Cost before = mark();
      if (meth == 4) {
        auto nh = x.extract(it);
        Cost d = since(before);
        b.del(pos);
        settle(b, d, a, n, "extract");
        objects(d, 0, 0, 0, "extract");
        if (d.alloc) VF_FAIL("extract allocates");
        if (r.below(3) == 0) {
          before = mark();
          const El* p;
          if constexpr (kLst(k)) p = &*x.insert(x.end(), std::move(nh)).position; else p = &*x.insert(std::move(nh)).position;
          d = since(before);
          settle(b, d, insBill(n - 1, I, false, 0), n - 1, "insert of a node");
          objects(d, 0, 0, 0, "insert of a node");
          b.add(p);
          VF_FEAT("node extracted and inserted");
        }
        continue;
      }
      x.erase(it);
      Cost d = since(before);
      if (b.c.size() != n - 1) VF_FAIL("erase: size() goes from ", n, " to ", b.c.size());
      b.del(pos);
      settle(b, d, a, n, what);
      objects(d, 0, 0, 0, what);
      if (d.alloc) VF_FAIL("erase allocates");
    }
    if (n0 > 200 && m > 100) VF_HIT("shrinkage by more than 100");
  }
  template <int I> void eraseKeyOrRange(Box& b, const Op& o) {
    auto& x = ix<I>(b);
    constexpr Kind k = kind<I>();
    if (b.c.empty()) return;
    std::size_t n = b.c.size();
    auto first = pick<I>(b, 3, 0);
    auto last = first;
    std::size_t m = 0, lim = 1 + o.a[3] % 200;
    while (m < lim && last != x.end()) { ++last; ++m; }
    Bill a = eraBill(b, first);
    Cost before = mark();
    bool byKey = false;
    if constexpr (!kLst(k)) {
      if (o.a[4] % 2) {
        int key = first->k[LL::sel[I]];
        byKey = true;
        before = mark();
        m = x.erase(key);
      }
      else x.erase(first, last);
    }
    else x.erase(first, last);
    Cost d = since(before);
    b.rebuild();
    if (b.c.size() + m != n) VF_FAIL("erase by key or range: size() goes from ", n, " to ", b.c.size(), " instead of ", n - m);
    for (int i = 0; i < N; ++i) {
      if (d.cmp[i] > (byKey && i == I ? 2 * treeCmp(n) : 0)) VF_FAIL(byKey ? "erase by key" : "erase of a range", ": ", d.cmp[i], " comparisons by ", nm(i), " with ", n, " elements");
      if (d.hash[i] > (byKey && i == I ? m + 1 : m)) VF_FAIL(byKey ? "erase by key" : "erase of a range", ": ", d.hash[i], " hash evaluations by ", nm(i));
      if (!(byKey && i == I) && d.eq[i]) VF_FAIL("erase: ", d.eq[i], " key equality evaluations by ", nm(i));
      if (byKey && i == I && hashMode() == 2 && d.eq[i] > 3 * ndist(i, n) + 4) VF_FAIL("erase by key: ", d.eq[i], " key equality evaluations by ", nm(i), " with ", ndist(i, n), " groups");
      if (byKey && i == I && hashMode() != 2) { b.ecred[i] = std::min(300.0, b.ecred[i] + 12) - double(d.eq[i]); if (b.ecred[i] < 0) VF_FAIL("erase by key: the key equality evaluations by ", nm(i), " are not constant on average"); }
    }
    objects(d, 0, 0, 0, "erase by key or range");
    if (fancy) { double s = 0; for (int i = 0; i < N; ++i) s += kRnk(LL::kind[i]) ? double(treeSteps(n)) : LL::kind[i] == RA ? 12.0 * double(n) : 300 + (hashMode() == 2 && kHsh(LL::kind[i]) ? 30.0 * double(ndist(i, n)) : 0); stepsTotal(d, s * double(m) + double(treeSteps(n)) * 2, "erase by key or range"); }
    (void)a;
    if (m > 1) VF_HIT("several erased at once");
  }

  // ---- lookups and traversal
  template <int I> void probe(Box& b, const Op& o) {
    auto& x = ix<I>(b);
    constexpr Kind k = kind<I>();
    std::size_t n = b.c.size();
    const C& cc = b.c;
    auto& cx = cc.template get<I>();
    {
      Cost before = mark();
      std::size_t q = 0;
      for (auto it = cx.begin(), e = cx.end(); it != e; ++it) ++q;
      Cost d = since(before);
      if (q != n) VF_FAIL("traversal of ", nm(I), " visits ", q, " of ", n);
      noPred(d, "traversal");
      stepsTotal(d, 40.0 * double(n), "traversal");
      if constexpr (!kHsh(k)) {
        before = mark();
        q = 0;
        for (auto it = cx.rbegin(), e = cx.rend(); it != e; ++it) ++q;
        d = since(before);
        noPred(d, "backward traversal");
        stepsTotal(d, 40.0 * double(n), "backward traversal");
      }
      before = mark();
      for (int t = 0; t < 20; ++t) { auto it = cx.begin(); if (it != cx.end()) ++it; (void)(it == cx.end()); }
      d = since(before);
      noPred(d, "begin() and ++");
      if (fancy && double(d.steps) > 20.0 * double(treeSteps(n))) VF_FAIL("begin() and ++ of ", nm(I), " visit ", d.steps / 20, " nodes with ", n, " elements");
    }
    if constexpr (kOrd(k)) {
      std::vector<int> keys;
      for (int t = 0; t < 24 && n; ++t) { int kk = b.pool[r.below(uint32_t(n))]->k[LL::sel[I]]; keys.push_back(kk); keys.push_back(kk + 1); keys.push_back(kk - 1); }
      if (n) { keys.push_back(cx.begin()->k[LL::sel[I]]); keys.push_back(std::prev(cx.end())->k[LL::sel[I]]); keys.push_back(cx.begin()->k[LL::sel[I]] - 1); keys.push_back(std::prev(cx.end())->k[LL::sel[I]] + 1); }
      // every element: no path is longer than the bound
      if (o.a[3] % 3 == 0) for (auto p : b.pool) lookup<I>(x, "find", 1, 0, n, [&] { return x.find(p->k[LL::sel[I]]) != x.end(); });
      for (int key : keys) {
        std::size_t g = 0;
        lookup<I>(x, "find", 1, 0, n, [&] { return x.find(key) != x.end(); });
        lookup<I>(x, "contains", 1, 0, n, [&] { return x.contains(key); });
        lookup<I>(x, "lower_bound", 1, 0, n, [&] { return x.lower_bound(key) != x.end(); });
        lookup<I>(x, "upper_bound", 1, 0, n, [&] { return x.upper_bound(key) != x.end(); });
        lookup<I>(x, "equal_range", 2, 0, n, [&] { return x.equal_range(key).first != x.end(); });
        lookup<I>(x, "range", 2, 0, n, [&] { return x.range([&](int y) { ++K().cmp[I]; return y >= key; }, [&](int y) { ++K().cmp[I]; return y <= key + 20; }).first != x.end(); });
        lookup<I>(x, "range", 2, 0, n, [&] { return x.range(bmi::unbounded, [&](int y) { ++K().cmp[I]; return y <= key; }).first != x.end(); });
        { auto er = x.equal_range(key); for (auto it = er.first; it != er.second && g < 100000; ++it) ++g; }
        lookup<I>(x, "count", 2, kRnk(k) ? 0 : g, n, [&] { return x.count(key) != 0; });
        if constexpr (kRnk(k)) {
          lookup<I>(x, "find_rank", 1, 0, n, [&] { return x.find_rank(key) != n; });
          lookup<I>(x, "lower_bound_rank", 1, 0, n, [&] { return x.lower_bound_rank(key) != n; });
          lookup<I>(x, "upper_bound_rank", 1, 0, n, [&] { return x.upper_bound_rank(key) != n; });
          lookup<I>(x, "equal_range_rank", 2, 0, n, [&] { return x.equal_range_rank(key).first != n; });
          lookup<I>(x, "range_rank", 2, 0, n, [&] { return x.range_rank([&](int y) { ++K().cmp[I]; return y >= key; }, [&](int y) { ++K().cmp[I]; return y <= key + 20; }).first != n; });
          lookup<I>(x, "nth", 0, 0, n, [&] { return x.nth(r.below(uint32_t(n + 1))) != x.end(); });
          auto it = x.lower_bound(key);
          lookup<I>(x, "rank", 0, 0, n, [&] { return x.rank(it) != n; });
          if (g > 30) VF_HIT("ranked count of more than 30 equivalents");
        }
        else if (g > 30) VF_FEAT("ordered count of more than 30 equivalents");
      }
      if (n > 100) VF_HIT("ordered lookups among more than 100");
    }
    else if constexpr (kHsh(k)) {
      std::vector<int> present, absent;
      for (int t = 0; t < 200 && n; ++t) { int kk = b.pool[r.below(uint32_t(n))]->k[LL::sel[I]]; present.push_back(kk); absent.push_back(kk + 1 + int(r.below(3))); }
      auto tot = [&](const char* what, const std::vector<int>& ks, uint64_t hashes, double eqs, double extraSteps, auto f) {
        if (ks.empty()) return;
        Cost before = mark();
        for (int key : ks) f(key);
        Cost d = since(before);
        double q = double(ks.size());
        for (int i = 0; i < N; ++i) if (d.cmp[i] || (i != I && (d.hash[i] || d.eq[i]))) VF_FAIL(what, " on ", nm(I), " evaluates predicates of another index");
        if (d.hash[I] > hashes * ks.size()) VF_FAIL(what, " on ", nm(I), ": ", d.hash[I], " hash evaluations for ", ks.size(), " lookups");
        double per = hashMode() < 2 ? eqs : 2.0 * double(ndist(I, n)) + 2;
        if (double(d.eq[I]) > per * q + 120) VF_FAIL(what, " on ", nm(I), " with ", n, " elements in ", ndist(I, n), " groups: ", d.eq[I], " key equality evaluations for ", ks.size(), " lookups");
        stepsTotal(d, q * (80 + (hashMode() < 2 ? 0 : 30.0 * double(ndist(I, n)))) + extraSteps, what);
        objects(d, 0, 0, 0, what);
      };
      tot("find", present, 1, 10, 0, [&](int key) { x.find(key); });
      tot("find of an absent key", absent, 1, 10, 0, [&](int key) { x.find(key); });
      tot("contains", present, 1, 10, 0, [&](int key) { x.contains(key); });
      tot("equal_range", present, 1, 10, 0, [&](int key) { x.equal_range(key); });
      tot("equal_range of an absent key", absent, 1, 10, 0, [&](int key) { x.equal_range(key); });
      double g = 0;
      for (int key : present) { auto e = x.equal_range(key); for (; e.first != e.second; ++e.first) ++g; }
      tot("count", present, 1, 10, 60 * g, [&](int key) { x.count(key); });
      tot("bucket", present, 1, 0, 0, [&](int key) { x.bucket(key); });
      if (n > 100) VF_HIT("hashed lookups among more than 100");
      if (g > 30 * double(present.size())) VF_HIT("hashed lookups in groups of more than 30");
    }
    else if constexpr (k == RA) {
      for (int t = 0; t < 20 && n; ++t) {
        std::size_t i = r.below(uint32_t(n)), j = r.below(uint32_t(n));
        Cost before = mark();
        auto it = cx.begin() + std::ptrdiff_t(i);
        auto jt = it + (std::ptrdiff_t(j) - std::ptrdiff_t(i));
        (void)(jt - it); (void)(it < jt);
        (void)cx[i]; (void)cx.at(j);
        Cost d = since(before);
        noPred(d, "random access");
        if (d.steps > 150) VF_FAIL("random access visits ", d.steps, " nodes with ", n, " elements");
      }
      if (n > 100) VF_HIT("random access among more than 100");
    }
    // projection and iterator_to
    for (int t = 0; t < 10 && n; ++t) {
      const El* p = b.pool[r.below(uint32_t(n))];
      Cost before = mark();
      auto it = cx.iterator_to(*p);
      (void)cc.template project<(I + 1) % N>(it);
      Cost d = since(before);
      noPred(d, "iterator_to and project");
      if (d.steps > 60) VF_FAIL("iterator_to and project visit ", d.steps, " nodes");
    }
    sizes(b);
  }
  void noPred(const Cost& d, const char* what) {
    for (int i = 0; i < N; ++i) if (d.cmp[i] || d.hash[i] || d.eq[i]) VF_FAIL(what, ": ", d.cmp[i], " comparisons, ", d.hash[i], " hash and ", d.eq[i], " key equality evaluations by ", nm(i));
    objects(d, 0, 0, 0, what);
  }
  template <int I, class X, class F> void lookup(X&, const char* what, int descents, std::size_t extra, std::size_t n, F f) {
    Cost before = mark();
    f();
    Cost d = since(before);
    for (int i = 0; i < N; ++i) {
      uint64_t lim = i == I ? uint64_t(descents) * treeCmp(n) : 0;
      if (d.cmp[i] > lim) VF_FAIL(what, " on ", nm(I), " with ", n, " elements: ", d.cmp[i], " comparisons", i == I ? "" : " by another index", ", at most ", lim, " expected");
      if (d.hash[i] || d.eq[i]) VF_FAIL(what, " on ", nm(I), " evaluates predicates of another index");
    }
    if (fancy && double(d.steps) > double(treeSteps(n)) + 40.0 * double(extra)) VF_FAIL(what, " on ", nm(I), " with ", n, " elements visits ", d.steps, " nodes");
    objects(d, 0, 0, 0, what);
  }

  // ---- modification
  static constexpr bool unique0() { for (int i = 0; i < N; ++i) if ((LL::kind[i] == OU || LL::kind[i] == RU || LL::kind[i] == HU) && LL::sel[i] == 0) return true; return false; }
  bool has0(Box& b, int key) {
    bool h = false;
    each<N>([&](auto J) { if constexpr (!kLst(kind<J.value>())) if (LL::sel[J.value] == 0 && ix<J.value>(b).contains(key)) h = true; (void)J; });
    return h;
  }
  template <int I> void modify(Box& b, const Op& o, int m) {
    auto& x = ix<I>(b);
    constexpr Kind k = kind<I>();
    for (int t = 0; t < m && !b.c.empty(); ++t) {
      std::size_t n = b.c.size();
      const El* p = b.pool[r.below(uint32_t(n))];
      auto it = x.iterator_to(*p);
      int slotSel = int(r.below(3));  // which key changes
      bool inPlace = r.below(2) && unique0();
      uint32_t meth = o.a[3] % 5 == 4 ? r.below(4) : o.a[3] % 4;
      El v(p->k[0], p->k[1], p->k[2], p->id);
      bool same = r.below(3) == 0;
      if (inPlace) for (int q = 0; q < 4; ++q) { int w = (p->k[0] & ~3) | q; if (w != p->k[0] && has0(b, w)) inPlace = false; }
      if (!same) {
        // keys are multiples of 4: a change of the low bits of an unshared key keeps its place
        if (slotSel == 0) { v.k[0] = inPlace ? (v.k[0] & ~3) | int(r.below(4)) : int(4 * ++hi0); if (v.k[0] != p->k[0] && has0(b, v.k[0])) continue; }
        else if (slotSel == 1) { inPlace = false; v.k[1] = 4 * int(r.below(uint32_t(dom1))); }
        else { inPlace = false; v.k[2] = 4 * int(r.below(uint32_t(dom2))); }
      }
      Bill a;
      for (int i = 0; i < N; ++i) {
        Kind ki = LL::kind[i];
        bool moves = !same && LL::sel[i] == slotSel && !inPlace;
        if (kOrd(ki)) { a.cmp[i] = moves ? treeCmp(n) + 8 : 6; a.steps += moves ? 2.0 * double(treeSteps(n)) : double(treeSteps(n)); }
        else if (kHsh(ki)) { a.hash[i] = 4; a.eq[i] = 18; a.steps += 400 + (meth >= 2 && ki == HN ? 10.0 * double(n) : 0 /* modify walks the links of a group, without evaluating predicates */) + (hashMode() == 2 ? 60.0 * double(ndist(i, n)) : 0); }
        else a.steps += 60;
      }
      Cost before = mark();
      bool ok = true;
      const char* what = "replace";
      switch (meth) {
        case 0: before = mark(); ok = x.replace(it, v); break;
        case 1: before = mark(); ok = x.replace(it, std::move(v)); break;
        case 2: what = "modify"; before = mark(); ok = x.modify(it, [&](El& e) { for (int q = 0; q < 3; ++q) e.k[q] = v.k[q]; }); break;
        default:
          what = "modify with rollback"; before = mark();
          if (r.below(2)) { ok = x.modify(it, [&](El& e) { for (int q = 0; q < 3; ++q) e.k[q] = v.k[q]; }, [](El&) { VF_FAIL("rollback without a clash"); }); break; }
          if constexpr (!kLst(k)) { what = "modify_key"; if (!same && slotSel != LL::sel[I]) { for (int i = 0; i < N; ++i) if (kOrd(LL::kind[i])) a.cmp[i] = 6; }
            int nk = v.k[LL::sel[I]];
            ok = x.modify_key(it, [&](int& e) { e = nk; }); }
      }
      Cost d = since(before);
      if (b.c.size() != n) { ok = true; VF_FAIL(what, ": an element disappeared"); }
      if (!ok) VF_FAIL(what, ": refused without a clash");
      settle(b, d, a, n, what);
      if (d.copy + d.move + d.ctor > (meth < 2 ? 0 : 0) || d.assign + d.massign > (meth < 2 ? 1u : 0u)) VF_FAIL(what, ": elements copied or assigned");
      if (inPlace && !same && n > 64) VF_HIT("key changed in place among more than 64");
      else if (!same && n > 64) VF_HIT("element moved by modification among more than 64");
    }
  }

  // ---- hashing policy and capacity
  template <int I> void policyOp(Box& b, const Op& o) {
    auto& x = ix<I>(b);
    constexpr Kind k = kind<I>();
    std::size_t n = b.c.size();
    (void)x;
    if constexpr (kHsh(k)) {
      Cost before = mark();
      const char* what = "rehash";
      std::size_t want = o.a[3] % 4 == 0 ? 0 : o.a[3] % 4 == 1 ? n * 4 : o.a[3] % 4 == 2 ? n / 2 : o.a[3] / 4 % 20000;
      std::size_t bc = x.bucket_count();
      if (o.a[2] % 3 == 0) x.rehash(want);
      else if (o.a[2] % 3 == 1) { what = "reserve"; x.reserve(want); }
      else { what = "max_load_factor"; x.max_load_factor(0.5f + float(o.a[3] % 4) * 0.5f); }
      Cost d = since(before);
      for (int i = 0; i < N; ++i) if (d.cmp[i] || (i != I && (d.hash[i] || d.eq[i]))) VF_FAIL(what, " evaluates predicates of another index");
      if (d.eq[I]) VF_FAIL(what, ": ", d.eq[I], " key equality evaluations");
      if (d.hash[I] > 2 * ndist(I, n) + 1) VF_FAIL(what, " with ", n, " elements in ", ndist(I, n), " groups: ", d.hash[I], " hash evaluations");
      stepsTotal(d, 60.0 * double(n) + 8.0 * double(bc + x.bucket_count()), what);
      objects(d, 0, 0, 0, what);
      policy = true;
      if (what[2] == 's' && n) {  // reserve(m): no further rehash until m elements
        std::size_t room = want > n ? want - n : 0;
        Cost bf = mark();
        int ins = int(std::min<std::size_t>(room, 400));
        for (int i = 0; i < ins; ++i) { auto q = b.c.template get<0>().begin(); (void)q; El e = makeEl(3, i, ins); auto res = insertAny(b, e); if (res) b.add(res); }
        Cost dd = since(bf);
        if (dd.hash[I] > uint64_t(ins) * 2) VF_FAIL("insertion of ", ins, " elements after reserve: ", dd.hash[I], " hash evaluations");
        if (ins > 50) VF_HIT("insertion after reserve");
      }
      b.refill();
      if (n > 100) VF_HIT("rehash of more than 100");
    }
    else if constexpr (k == RA) {
      Cost before = mark();
      std::size_t want = o.a[3] % 3 == 0 ? n + 500 : o.a[3] / 4 % 20000;
      if (o.a[2] % 2) x.reserve(want); else x.shrink_to_fit();
      Cost d = since(before);
      noPred(d, "capacity change");
      if (d.alloc > 2) VF_FAIL("capacity change: ", d.alloc, " allocations");
      stepsTotal(d, 60.0 * double(n), "capacity change");
      policy = true;
      b.refill();
    }
  }
  const El* insertAny(Box& b, const El& e) {
    auto& x = ix<0>(b);
    if constexpr (kLst(kind<0>())) { auto q = x.push_back(e); return q.second ? &*q.first : nullptr; }
    else { auto q = x.insert(e); return q.second ? &*q.first : nullptr; }
  }

  // ---- list operations
  struct CountLess { uint64_t* n; int s; bool operator()(const El& a, const El& b) const { ++*n; return a.k[s] < b.k[s]; } };
  struct CountEq { uint64_t* n; int s; bool operator()(const El& a, const El& b) const { ++*n; return a.k[s] == b.k[s]; } };
  template <int I> void listOp(Box& b, const Op& o) {
    auto& x = ix<I>(b);
    constexpr Kind k = kind<I>();
    if constexpr (kLst(k)) {
      std::size_t n = b.c.size();
      uint64_t preds = 0;
      int s = int(o.a[3] % 3);
      auto rnd = [&]() { return n ? x.iterator_to(*b.pool[r.below(uint32_t(n))]) : x.end(); };
      switch (o.a[2] % 7) {
        case 0: {  // relocate one
          for (int t = 0; t < 30 && n; ++t) {
            auto p = t % 5 == 0 ? x.end() : rnd(), i = rnd();
            double rel = 1;
            if constexpr (k == RA) rel = double(std::abs(p - i)) + 1;
            Cost before = mark();
            x.relocate(p, i);
            Cost d = since(before);
            noPred(d, "relocate");
            if (d.alloc) VF_FAIL("relocate allocates");
            if (double(d.steps) > 12 * rel + 150) VF_FAIL("relocate visits ", d.steps, " nodes");
          }
          if (n > 30) VF_HIT("elements relocated");
          break;
        }
        case 1: {  // relocate a range
          for (int t = 0; t < 6 && n > 2; ++t) {
            std::size_t i = r.below(uint32_t(n)), j = i + r.below(uint32_t(n - i) + 1), p = i && r.below(2) ? r.below(uint32_t(i)) : j + r.below(uint32_t(n - j) + 1);
            auto nth = [&](std::size_t q) { return std::next(x.begin(), std::ptrdiff_t(q)); };
            auto pi = nth(p), ii = nth(i), ji = nth(j);
            double rel = k == RA ? double(p < i ? j - p : p - i) : 0;
            Cost before = mark();
            x.relocate(pi, ii, ji);
            Cost d = since(before);
            noPred(d, "relocate of a range");
            if (double(d.steps) > 24 * rel + 150) VF_FAIL("relocate of a range visits ", d.steps, " nodes");
          }
          if (n > 30) VF_HIT("ranges relocated");
          break;
        }
        case 2: {
          Cost before = mark();
          x.sort(CountLess{&preds, s});
          Cost d = since(before);
          noPred(d, "sort");
          double lim = 2.0 * double(n) * double(lg(n + 1) + 1) + 64;
          if (double(preds) > lim) VF_FAIL("sort of ", n, ": ", preds, " comparisons");
          stepsTotal(d, 60 * lim, "sort");
          if (n > 100) VF_HIT("sort of more than 100");
          break;
        }
        case 3: {
          Cost before = mark();
          x.reverse();
          Cost d = since(before);
          noPred(d, "reverse");
          stepsTotal(d, 40.0 * double(n), "reverse");
          break;
        }
        case 4: {
          Cost before = mark();
          x.unique(CountEq{&preds, s});
          Cost d = since(before);
          noPredButHash(d, n - b.c.size(), "unique");
          if (preds > n) VF_FAIL("unique of ", n, ": ", preds, " predicate evaluations");
          stepsTotal(d, double(n - b.c.size()) * opSteps(n) + 60.0 * double(n) + (hasTwoRA(I) ? 12.0 * double(n) * double(n - b.c.size()) : 0), "unique");
          b.rebuild();
          break;
        }
        case 5: {
          int md = 2 + int(r.below(20));
          Cost before = mark();
          x.remove_if([&](const El& e) { ++preds; return e.id % md == 0; });
          Cost d = since(before);
          noPredButHash(d, n - b.c.size(), "remove_if");
          if (preds != n) VF_FAIL("remove_if of ", n, ": ", preds, " predicate evaluations");
          stepsTotal(d, double(n - b.c.size()) * opSteps(n) + 60.0 * double(n) + (hasTwoRA(I) ? 12.0 * double(n) * double(n - b.c.size()) : 0), "remove_if");
          if (n > 60) VF_HIT("remove_if of more than 60");
          b.rebuild();
          break;
        }
        default: {
          std::vector<boost::reference_wrapper<const El>> v;
          for (auto& e : x) v.push_back(boost::cref(e));
          for (std::size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.below(uint32_t(i))]);
          Cost before = mark();
          x.rearrange(v.begin());
          Cost d = since(before);
          noPred(d, "rearrange");
          stepsTotal(d, 60.0 * double(n), "rearrange");
        }
      }
    }
  }
  static constexpr bool hasTwoRA(int i) { for (int j = 0; j < N; ++j) if (j != i && LL::kind[j] == RA) return true; return false; }
  void noPredButHash(const Cost& d, std::size_t erased, const char* what) {
    for (int i = 0; i < N; ++i) if (d.cmp[i] || d.hash[i] > erased || d.eq[i]) VF_FAIL(what, ": ", d.cmp[i], " comparisons, ", d.hash[i], " hash and ", d.eq[i], " key equality evaluations by ", nm(i));
    objects(d, 0, 0, 0, what);
  }

  // ---- whole containers
  void whole(const Op& o) {
    std::size_t n = b0.c.size(), m = b1.c.size();
    auto trees = [&](const Cost& d, std::size_t q, const char* what) {
      for (int i = 0; i < N; ++i) {
        if (d.cmp[i] > q * treeCmp(q) || d.hash[i] > 2 * q || d.eq[i] > 4 * q + 8) VF_FAIL(what, " of ", q, " elements: ", d.cmp[i], " comparisons, ", d.hash[i], " hash and ", d.eq[i], " key equality evaluations by ", nm(i));
      }
    };
    switch (o.a[2] % 7) {
      case 0: case 1: {
        Cost before = mark();
        C d2(b0.c);
        Cost d = since(before);
        trees(d, n, "copy construction");
        objects(d, 0, n, 0, "copy construction");
        stepsTotal(d, 60.0 * N * double(n) * double(lg(n + 1) + 2) + arrays(b0), "copy construction");
        before = mark();
        C d3(std::move(d2));
        d = since(before);
        noPred(d, "move construction");
        if (d.alloc > 4 * N + 4) VF_FAIL("move construction: ", d.alloc, " allocations");
        if (d.steps > 300 * N + 300) VF_FAIL("move construction of ", n, " elements visits ", d.steps, " nodes");
        before = mark();
        b1.c.swap(d3);
        d = since(before);
        noPred(d, "swap");
        if (d.alloc) VF_FAIL("swap allocates");
        if (d.steps > 300 * N + 300) VF_FAIL("swap of ", n, " elements visits ", d.steps, " nodes");
        b1.rebuild(); b1.refill();
        if (n > 100) VF_HIT("copy of more than 100");
        break;
      }
      case 2: {
        Cost before = mark();
        b0.c.swap(b1.c);
        Cost d = since(before);
        noPred(d, "swap");
        if (d.alloc) VF_FAIL("swap allocates");
        if (d.steps > 300 * N + 300) VF_FAIL("swap of ", n, " and ", m, " elements visits ", d.steps, " nodes");
        b0.rebuild(); b1.rebuild(); b0.refill(); b1.refill();
        break;
      }
      case 3: {
        Cost before = mark();
        b1.c = b0.c;
        Cost d = since(before);
        trees(d, n, "copy assignment");
        objects(d, 0, n, 0, "copy assignment");
        b1.rebuild(); b1.refill();
        break;
      }
      case 4: {
        Cost before = mark();
        b1.c.clear();
        Cost d = since(before);
        noPred(d, "clear");
        if (d.alloc) VF_FAIL("clear allocates");
        stepsTotal(d, 60.0 * N * double(m) + arrays(b1), "clear");
        b1.rebuild(); b1.refill();
        break;
      }
      default: {
        each<N>([&](auto J) {
          constexpr int I = J.value;
          constexpr Kind k = kind<I>();
          if (int(o.a[3] % N) != I) return;
          auto& x = ix<I>(b0);
          auto& y = ix<I>(b1);
          std::size_t tot = n + m;
          Cost before = mark();
          const char* what = "merge";
          if constexpr (kLst(k)) {
            if (o.a[4] % 2) { what = "splice"; x.splice(x.end(), y); }
            else {
              uint64_t preds = 0;
              x.merge(y, CountLess{&preds, 0});
              if (preds > tot + 2) VF_FAIL("list merge of ", n, " and ", m, ": ", preds, " comparisons");
            }
          }
          else x.merge(y);
          Cost d = since(before);
          std::size_t left = b1.c.size();
          for (int i = 0; i < N; ++i) {
            if (d.cmp[i] > m * treeCmp(tot)) VF_FAIL(what, " of ", m, " elements into ", n, ": ", d.cmp[i], " comparisons by ", nm(i));
            if (kHsh(LL::kind[i]) && d.hash[i] > 8 * tot + 200) VF_FAIL(what, " of ", m, " elements into ", n, ": ", d.hash[i], " hash evaluations by ", nm(i));
            if (kHsh(LL::kind[i]) && hashMode() < 2 && d.eq[i] > 12 * m + 300) VF_FAIL(what, " of ", m, " elements into ", n, ": ", d.eq[i], " key equality evaluations by ", nm(i));
          }
          objects(d, 0, 0, 0, what);
          if (!hasRA()) stepsTotal(d, double(m) * 2 * opSteps(tot) + 120.0 * double(tot) + arrays(b0) + arrays(b1), what);
          if (b0.c.size() + left != tot) VF_FAIL(what, ": elements lost or made");
          b0.rebuild(); b1.rebuild(); b0.refill(); b1.refill();
          if (m > 50 && left < m) VF_HIT("more than 50 merged");
        });
      }
    }
  }

  static int scaleM(const Op& o) {  // number of elements of a phase
    static const int t[] = {40, 150, 500, 1500, 4000, 9000};
    int b = t[std::min<uint32_t>(o.a[0] / 7 % 8, 5)];
    return b / 2 + int(o.a[1] % uint32_t(b));
  }
  void step(const Op& o, int maxn) {
    Box& b = b0;
    int m = std::min(scaleM(o), maxn - int(b.c.size()));
    bool cap = hasRA();
    each<N>([&](auto J) {
      constexpr int I = J.value;
      if (int(o.a[0] % N) != I) return;
      switch (o.k) {
        case 0: if (m > 0) grow<I>(b, o, cap ? std::min(m, 2500) : m); break;
        case 1: if (m > 0) growRange<I>(b, o, m); break;
        case 2: { int s = int(o.a[1] % 4 == 0 ? b.c.size() : o.a[1] % 4 == 1 ? b.c.size() / 2 : o.a[1] % 4 == 2 ? b.c.size() - b.c.size() / 8 : b.c.size() / 4); shrink<I>(b, o, cap ? std::min(s, 2500) : s); break; }
        case 3: eraseKeyOrRange<I>(b, o); break;
        case 4: probe<I>(b, o); break;
        case 5: modify<I>(b, o, 30 + int(o.a[2] % 100)); break;
        case 6: policyOp<I>(b, o); break;
        case 7: listOp<I>(b, o); break;
        case 8: whole(o); break;
        case 10: {  // long growth at the end
          Op g = o;
          g.a[3] = 10 + (kLst(kind<I>()) ? 5 + o.a[3] % 4 : o.a[3] % 4);
          if ((m = std::min(maxn - int(b.c.size()), 3 * m)) > 0) grow<I>(b, g, m);
          break;
        }
        default: {  // sliding window: in at one end, out at the other
          int w = std::min(m, cap ? 600 : 4000);
          Op g = o; g.a[2] = o.a[2] % 2; g.a[3] = o.a[3];
          Op e = o; e.a[2] = o.a[2] % 2; e.a[3] = 0;
          for (int i = 0; i < w / 20; ++i) { grow<I>(b, g, 20); shrink<I>(b, e, 20); }
        }
      }
    });
    peak = std::max(peak, std::max(b0.c.size(), b1.c.size()));
    check_late();
  }
  static void run(const Case& cs) {
    M m(cs);
    for (auto& o : cs.ops) m.step(o, int(cs.p(5)));
    each<N>([&](auto J) { Op o; o.a[3] = 0; m.template probe<J.value>(m.b0, o); });
  }
};
typedef M<VF_LA> Mach;
static Case gen(Rng& r, int size) {
  Case c;
  static const uint32_t mx[] = {100, 400, 400, 1200, 1200, 3000, 8000, 20000};
  auto dom = [&]() -> uint32_t { switch (r.below(4)) { case 0: return r.below(3); case 1: return 4 + r.below(30); case 2: return 100 + r.below(400); default: return 3000 + r.below(100000); } };
  uint32_t hm = r.below(6) == 0 ? 2 : r.below(2), n = mx[r.below(size < 50 ? 6 : 8)];
  c.P = {uint32_t(r.next() & 0xffffff), dom(), dom(), hm, r.below(2), n};
  if (hm == 2) { c.P[1] %= 25; c.P[2] %= 25; if (VF_HSEL0) c.P[5] = std::min(n, 300u); }
  int k = 3 + int(r.below(6));
  static const uint32_t w[] = {0, 0, 0, 0, 1, 2, 2, 2, 3, 4, 4, 4, 5, 5, 6, 7, 7, 7, 8, 8, 9, 10};
  for (int i = 0; i < k; ++i) { Op o; o.k = i == 0 ? (r.below(4) == 0 ? 1 : r.below(4) == 0 ? 10 : 0) : w[r.below(22)]; for (auto& a : o.a) a = uint32_t(r.next() & 0xffffff); c.ops.push_back(o); }
  return c;
}
static std::string show(const Case& c) {
  static const char* n[] = {"grow", "insert range", "shrink", "erase key/range", "lookups", "modify", "rehash/reserve", "list operation", "copy/move/swap/merge", "sliding window", "long growth"};
  std::string s = cat(VF_NAME, " up to ", c.p(5), " elements, hash mode ", c.p(3) % 3, ", domains ", c.p(1) + 1, "/", c.p(2) + 1, ":");
  for (auto& o : c.ops) s += cat(" ", n[std::min(o.k, 10u)], "(index ", o.a[0] % uint32_t(VF_LA::n), ", ", Mach::scaleM(o), ", pattern ", o.a[2] % 28, ")");
  return s;
}
}
int main(int argc, char** argv) {
  vf::Harness h;
  h.name = VF_NAME; h.gen = vf::gen; h.show = vf::show; h.run = vf::Mach::run; h.nontrivial_threshold = 2;
  return vf::worker_main(argc, argv, h);
}
