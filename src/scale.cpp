// The properties at size: containers of up to some hundred thousand elements, bucket arrays of up to
// millions of buckets, keys over the whole 64-bit range in regular and irregular patterns, whole-container
// operations.  The oracle is a model in terms of std containers, checked after every bulk operation.
#include "core.hpp"
#ifdef VF_SAFE
#define BOOST_MULTI_INDEX_ENABLE_SAFE_MODE
#define BOOST_MULTI_INDEX_ENABLE_INVARIANT_CHECKING
#endif
#include <boost/multi_index_container.hpp>
#include <boost/multi_index/hashed_index.hpp>
#include <boost/multi_index/member.hpp>
#include <boost/multi_index/ordered_index.hpp>
#include <boost/multi_index/random_access_index.hpp>
#include <boost/multi_index/ranked_index.hpp>
#include <boost/multi_index/sequenced_index.hpp>
#include <unordered_map>
namespace vf {
namespace bmi = boost::multi_index;
typedef uint64_t u64;
enum K { OU, ON, RU, RN, HU, HN, SQ, RA };
struct E { u64 a, b; int id; };
struct H { int m = 0; std::size_t operator()(u64 k) const { return m == 0 ? std::size_t(k) : m == 1 ? std::size_t(mix(k, 5)) : std::size_t(k << 32 | k >> 32); } };
struct Lt { bool d = false; bool operator()(u64 x, u64 y) const { return d ? y < x : x < y; } };
typedef bmi::member<E, u64, &E::a> KA;
typedef bmi::member<E, u64, &E::b> KB;
template <int k, class X> struct Spec;
template <class X> struct Spec<OU, X> { typedef bmi::ordered_unique<X, Lt> type; };
template <class X> struct Spec<ON, X> { typedef bmi::ordered_non_unique<X, Lt> type; };
template <class X> struct Spec<RU, X> { typedef bmi::ranked_unique<X, Lt> type; };
template <class X> struct Spec<RN, X> { typedef bmi::ranked_non_unique<X, Lt> type; };
template <class X> struct Spec<HU, X> { typedef bmi::hashed_unique<X, H> type; };
template <class X> struct Spec<HN, X> { typedef bmi::hashed_non_unique<X, H> type; };
template <class X> struct Spec<SQ, X> { typedef bmi::sequenced<> type; };
template <class X> struct Spec<RA, X> { typedef bmi::random_access<> type; };
constexpr int KD[2] = {VF_K0, VF_K1};
typedef bmi::multi_index_container<E, bmi::indexed_by<Spec<VF_K0, KA>::type, Spec<VF_K1, KB>::type>> C;
constexpr bool isOrd(int k) { return k <= RN; }
constexpr bool isRnk(int k) { return k == RU || k == RN; }
constexpr bool isHsh(int k) { return k == HU || k == HN; }
constexpr bool isLst(int k) { return k == SQ || k == RA; }
constexpr bool isUni(int k) { return k == OU || k == RU || k == HU; }
constexpr int LI = isLst(KD[0]) ? 0 : isLst(KD[1]) ? 1 : -1;  // the list index, if any
template <int N> u64 key(const E& e) { return N ? e.b : e.a; }

struct Args {
  bool desc; int hm;
  template <int N> auto args() const {
    if constexpr (isOrd(KD[N])) return boost::tuples::make_tuple(typename bmi::nth_index<C, N>::type::key_from_value(), Lt{desc});
    else if constexpr (isHsh(KD[N])) return boost::tuples::make_tuple(std::size_t(0), typename bmi::nth_index<C, N>::type::key_from_value(), H{hm}, std::equal_to<u64>());
    else return boost::tuples::tuple<>();
  }
  C make() const { return C(C::ctor_args_list(args<0>(), args<1>())); }
};
struct V2 { u64 k[2]; };
struct Model {
  std::unordered_map<int, V2> el;
  std::unordered_map<u64, int> cnt[2];
  std::vector<int> L;
  bool stable = true;  // equivalent elements are in the order of their ids
  bool clash(const V2& v) const { for (int i = 0; i < 2; ++i) if (isUni(KD[i]) && cnt[i].count(v.k[i])) return true; return false; }
  void add(int id, const V2& v) { el[id] = v; for (int i = 0; i < 2; ++i) ++cnt[i][v.k[i]]; }
  void del(int id) { V2 v = el.at(id); el.erase(id); for (int i = 0; i < 2; ++i) if (!--cnt[i][v.k[i]]) cnt[i].erase(v.k[i]); }
  void syncL() { L.erase(std::remove_if(L.begin(), L.end(), [&](int x) { return !el.count(x); }), L.end()); }
};
struct World {
  Rng r; Args ar; C c; Model m; int next = 0; std::size_t cap;
  World(u64 seed, Args a, std::size_t cap_) : r(seed), ar(a), c(a.make()), cap(cap_) {}
};
static u64 genKey(Rng& r, int pat, int i, int n, u64 base) {
  static const u64 primes[] = {53, 97, 193, 389, 769, 1543, 3079, 6151, 12289, 24593, 49157, 98317, 196613};
  switch (pat % 8) {
    case 0: return r.next();
    case 1: return base + u64(i);
    case 2: return base + u64(n - i);
    case 3: return (base % 1000 + u64(i)) * primes[(base >> 20) % 13];
    case 4: return base + r.below(uint32_t(1 + n / 8)) * 0x10001ull;
    case 5: return (base + u64(i)) << 40;
    case 6: return 0xFFFFFF00ull + u64(i) * (1 + base % 3);
    default: return ~u64(0) - u64(i);
  }
}
template <class F> static void both(F f) { f(std::integral_constant<int, 0>()); f(std::integral_constant<int, 1>()); }
template <class F> static void with(int i, F f) { if (i) f(std::integral_constant<int, 1>()); else f(std::integral_constant<int, 0>()); }

static void check(World& w, const char* op) {
  C& c = w.c; Model& m = w.m;
  if (c.size() != m.el.size()) VF_FAIL(op, ": size ", c.size(), ", model ", m.el.size());
  std::unordered_map<int, const E*> where; where.reserve(m.el.size() * 2);
  both([&](auto N) {
    constexpr int n = decltype(N)::value, k = KD[n];
    auto& x = c.template get<n>();
    if (x.size() != m.el.size()) VF_FAIL(op, ": index ", n, " size ", x.size());
    std::size_t cntd = 0;
    const E* prev = nullptr;
    std::unordered_set<u64> closed;
    for (auto it = x.begin(); it != x.end(); ++it) {
      const E& e = *it;
      auto f = m.el.find(e.id);
      if (f == m.el.end() || f->second.k[0] != e.a || f->second.k[1] != e.b) VF_FAIL(op, ": index ", n, " lists element ", e.id, " the model does not have (so)");
      if (n == 0) { if (!where.emplace(e.id, &e).second) VF_FAIL(op, ": index 0 lists element ", e.id, " twice"); }
      else { auto g = where.find(e.id); if (g == where.end() || g->second != &e) VF_FAIL(op, ": index 1 lists element ", e.id, " twice or another object"); g->second = nullptr; }
      if constexpr (isOrd(k)) {
        if (prev) {
          if (x.value_comp()(e, *prev) || (isUni(k) && !x.value_comp()(*prev, e))) VF_FAIL(op, ": index ", n, " not sorted at ", cntd);
          if (m.stable && key<n>(*prev) == key<n>(e) && prev->id > e.id) VF_FAIL(op, ": index ", n, " lists equivalent elements ", prev->id, ",", e.id, " not in insertion order");
        }
      }
      else if constexpr (k == HN) { if (prev && key<n>(*prev) != key<n>(e) && !closed.insert(key<n>(*prev)).second) VF_FAIL(op, ": index ", n, " group of key ", key<n>(*prev), " scattered"); if (closed.count(key<n>(e))) VF_FAIL(op, ": index ", n, " group of key ", key<n>(e), " scattered"); }
      else if constexpr (isLst(k)) { if (m.L[cntd] != e.id) VF_FAIL(op, ": list index has element ", e.id, " at position ", cntd, ", model ", m.L[cntd]); }
      prev = &e;
      if (++cntd > m.el.size()) VF_FAIL(op, ": index ", n, " enumerates too many");
    }
    if (cntd != m.el.size()) VF_FAIL(op, ": index ", n, " enumerates ", cntd, " of ", m.el.size());
    if constexpr (!isHsh(k)) {
      std::size_t back = 0; const E* first = nullptr;
      for (auto it = x.end(); it != x.begin();) { --it; first = &*it; if (++back > cntd) break; }
      if (back != cntd || (cntd && first != &*x.begin())) VF_FAIL(op, ": index ", n, " backwards enumeration");
    }
    if constexpr (isHsh(k)) {
      std::size_t B = x.bucket_count();
      if (B <= 2 * cntd + 3000) {
        std::size_t tot = 0;
        for (std::size_t b = 0; b < B; ++b) {
          std::size_t z = 0;
          for (auto l = x.begin(b); l != x.end(b); ++l) { if (x.bucket(key<n>(*l)) != b) VF_FAIL(op, ": bucket ", b, " lists an element of bucket ", x.bucket(key<n>(*l))); if (++z > cntd) VF_FAIL(op, ": bucket too long"); }
          if (z != x.bucket_size(b)) VF_FAIL(op, ": bucket_size(", b, ") is ", x.bucket_size(b), ", enumerated ", z);
          tot += z;
        }
        if (tot != cntd) VF_FAIL(op, ": buckets list ", tot, " of ", cntd);
        VF_FEAT("all buckets enumerated");
      }
    }
    // sampled lookups
    std::vector<const E*> S;
    { std::size_t step = cntd / 64 + 1, i = w.r.below(uint32_t(step)); std::size_t p = 0; for (auto it = x.begin(); it != x.end(); ++it, ++p) if (p % step == i) S.push_back(&*it); }
    if constexpr (!isLst(k)) {
      for (const E* e : S) for (int d = 0; d < 3; ++d) {
        u64 q = key<n>(*e) + u64(d == 0 ? 0 : d == 1 ? 1 : w.r.next());
        auto f = m.cnt[n].find(q);
        std::size_t want = f == m.cnt[n].end() ? 0 : std::size_t(f->second);
        if (x.count(q) != want || x.contains(q) != (want > 0)) VF_FAIL(op, ": index ", n, " count(", q, ") is ", x.count(q), ", model ", want);
        auto fi = x.find(q);
        if ((fi != x.end()) != (want > 0) || (want && key<n>(*fi) != q)) VF_FAIL(op, ": index ", n, " find(", q, ")");
        auto er = x.equal_range(q);
        std::size_t z = 0; for (auto it = er.first; it != er.second; ++it) { if (key<n>(*it) != q) VF_FAIL(op, ": index ", n, " equal_range(", q, ") holds another key"); ++z; }
        if (z != want) VF_FAIL(op, ": index ", n, " equal_range(", q, ") of ", z, ", model ", want);
        if constexpr (isHsh(k)) {
          std::size_t b = x.bucket(q);
          if (b >= x.bucket_count()) VF_FAIL(op, ": bucket(", q, ") is ", b, " of ", x.bucket_count());
          std::size_t y = 0, u = 0; for (auto l = x.begin(b); l != x.end(b); ++l) { y += key<n>(*l) == q; ++u; }
          if (y != want || u != x.bucket_size(b)) VF_FAIL(op, ": index ", n, " bucket ", b, " holds ", y, " elements of key ", q, ", model ", want);
        }
        if constexpr (isOrd(k)) {
          auto lo = x.lower_bound(q), up = x.upper_bound(q);
          if (lo != er.first || up != er.second) VF_FAIL(op, ": index ", n, " bounds of ", q);
          if (lo != x.end() && x.key_comp()(key<n>(*lo), q)) VF_FAIL(op, ": lower_bound too low");
          if (lo != x.begin() && !x.key_comp()(key<n>(*std::prev(lo)), q)) VF_FAIL(op, ": lower_bound too high");
          if (up != x.end() && !x.key_comp()(q, key<n>(*up))) VF_FAIL(op, ": upper_bound too low");
        }
      }
    }
    if constexpr (isRnk(k)) {
      std::size_t step = cntd / 512 + 1, p = 0;
      for (auto it = x.begin(); it != x.end(); ++it, ++p) if (p % step == 0 || p + 1 == cntd) {
        if (x.rank(it) != p) VF_FAIL(op, ": rank is ", x.rank(it), " at position ", p);
        if (x.nth(p) != it) VF_FAIL(op, ": nth(", p, ") elsewhere");
      }
      if (x.nth(cntd) != x.end() || x.nth(cntd + 1 + w.r.below(1000)) != x.end() || x.rank(x.end()) != cntd) VF_FAIL(op, ": nth/rank at the end");
      for (const E* e : S) {
        u64 q = key<n>(*e) + w.r.below(2);
        auto lr = std::size_t(std::distance(x.begin(), x.lower_bound(q))), ur = std::size_t(std::distance(x.begin(), x.upper_bound(q)));
        if (x.lower_bound_rank(q) != lr || x.upper_bound_rank(q) != ur || x.equal_range_rank(q) != std::make_pair(lr, ur) || x.find_rank(q) != (lr == ur ? cntd : lr)) VF_FAIL(op, ": ranks of key ", q);
        if (&e - &S[0] > 6) break;
      }
    }
    if constexpr (k == RA) {
      std::size_t step = cntd / 2048 + 1;
      for (std::size_t p = 0; p < cntd; p += step) {
        if (x[p].id != m.L[p] || x.at(p).id != m.L[p]) VF_FAIL(op, ": [", p, "]");
        auto it = x.iterator_to(x[p]);
        if (std::size_t(it - x.begin()) != p || x.begin() + std::ptrdiff_t(p) != it || x.end() - it != std::ptrdiff_t(cntd - p)) VF_FAIL(op, ": position of element ", x[p].id, " is ", it - x.begin(), " at ", p);
      }
      if (x.capacity() < cntd) VF_FAIL(op, ": capacity");
      bool thrown = false; try { (void)x.at(cntd); } catch (const std::out_of_range&) { thrown = true; }
      if (!thrown) VF_FAIL(op, ": at(size()) does not throw");
    }
  });
  VF_FEAT("checked in full");
  if (m.el.size() > 3000) VF_FEAT("checked at more than 3000 elements");
  if (m.el.size() > 50000) VF_FEAT("checked at more than 50000 elements");
}

enum { O_INS, O_RINS, O_ERP, O_ERR, O_ERK, O_HSH, O_MOD, O_CPY, O_SORT, O_REARR, O_MERGE, O_UNIQ, O_REMIF, O_RELOC, O_MASS, O_CLEAR, O_CAP, O_N };
static const char* oname[] = {"insert", "range insert", "erase every k-th", "erase range", "erase keys", "rehash/reserve", "modify keys", "copy/move/swap", "sort", "rearrange/reverse", "merge/splice", "unique", "remove_if", "relocate", "large rehash", "clear", "capacity"};

static std::vector<E> fresh(World& w, std::size_t n, int p0, int p1) {
  // keys falling in one bucket, limited to avoid quadratic behaviour that says nothing
  std::size_t lim = ((p0 % 8 == 3 || p1 % 8 == 3 || ((p0 % 8 == 5 || p1 % 8 == 5))) && (isHsh(KD[0]) || isHsh(KD[1]))) ? 1500 : w.cap;
  if (w.m.el.size() >= w.cap) n = std::min<std::size_t>(n, 5);
  n = std::min(n, lim);
  u64 b0 = w.r.next() >> w.r.below(60), b1 = w.r.next() >> w.r.below(60);
  std::vector<E> v;
  for (std::size_t i = 0; i < n; ++i) v.push_back(E{genKey(w.r, p0, int(i), int(n), b0), genKey(w.r, p1, int(i), int(n), b1), w.next++});
  return v;
}
static std::size_t size_(uint32_t x) { Rng r(x); return std::size_t(std::pow(2.0, double(r.below(1000)) / 1000 * (3 + r.below(16)))); }

template <class N> static void nodes(C& c, C& d, N) {
  constexpr int n = N::value;
  auto& x = c.template get<n>(); auto& y = d.template get<n>();
  while (!x.empty()) {
    auto nh = x.extract(x.begin());
    if constexpr (isLst(KD[n])) { if (!y.insert(y.end(), std::move(nh)).inserted) VF_FAIL("node refused by an empty index"); }
    else if constexpr (isUni(KD[n])) { if (!y.insert(std::move(nh)).inserted) VF_FAIL("node refused"); }
    else if (auto p = y.insert(std::move(nh)); !p.inserted) VF_FAIL("node refused");
  }
}
static void step(World& w, const Op& o);
template <class N> static void listStep(World& w, const Op& o, int k, const char* nm, N) {
  C& c = w.c; Model& m = w.m; Rng& r = w.r;
  constexpr int LIX = N::value;
        auto& x = c.template get<LIX>();
        constexpr bool ra = KD[LIX] == RA;
        auto val = [&](int id) -> V2& { return m.el.at(id); };
        switch (k) {
          case O_SORT: {
            int wh = int(o.a[0] % 2); u64 q = o.a[1] % 3 == 0 ? 1 : o.a[1] % 3 == 1 ? 16 : ~u64(0) / 64;
            bool dn = o.a[2] % 2;
            if (wh == 0 && o.a[3] % 2) { x.sort([&](const E& a, const E& b) { return dn ? b.a / q < a.a / q : a.a / q < b.a / q; }); }
            else x.sort([&](const E& a, const E& b) { u64 p = (wh ? a.b : a.a) / q, s = (wh ? b.b : b.a) / q; return dn ? s < p : p < s; });
            std::stable_sort(m.L.begin(), m.L.end(), [&](int a, int b) { u64 p = val(a).k[wh] / q, s = val(b).k[wh] / q; return dn ? s < p : p < s; });
            if (m.L.size() > 256) VF_HIT("more than 256 elements sorted");
            break;
          }
          case O_REARR: {
            if (o.a[0] % 3 == 0) { x.reverse(); std::reverse(m.L.begin(), m.L.end()); }
            else {
              std::vector<std::reference_wrapper<const E>> v; for (auto& e : x) v.push_back(std::cref(e));
              for (std::size_t i = v.size(); i > 1; --i) { std::size_t j = o.a[0] % 3 == 1 ? r.below(uint32_t(i)) : i - 1 - std::min<std::size_t>(i - 1, r.below(4)); std::swap(v[i - 1], v[j]); }
              x.rearrange(v.begin());
              m.L.clear(); for (const E& e : v) m.L.push_back(e.id);
            }
            if (m.L.size() > 300) VF_HIT("more than 300 elements rearranged");
            break;
          }
          case O_MERGE: {
            // another container gives its elements
            World w2(r.next(), w.ar, w.cap);
            w2.next = w.next;
            Op q{}; q.k = O_INS; q.a[0] = o.a[0]; q.a[1] = o.a[1]; q.a[2] = o.a[2]; q.a[3] = 1;
            step(w2, q);
            if (o.a[3] % 2 && m.el.size() > 3) {  // some keys in common
              std::vector<E> dup; for (auto& e : x) if (dup.size() < 50 && r.chance(1, 3)) dup.push_back(e);
              for (auto& e : dup) { E f = e; f.id = w2.next++; V2 kv{{f.a, f.b}}; if (!w2.m.clash(kv)) { w2.c.template get<LIX>().push_back(f); w2.m.add(f.id, kv); w2.m.L.push_back(f.id); } }
            }
            w.next = w2.next;
            auto& y = w2.c.template get<LIX>();
            if (o.a[3] % 4 < 2) {
              auto lt = [](const E& a, const E& b) { return a.b < b.b; };
              x.sort(lt); y.sort(lt);
              auto ml = [&](Model& z) { std::stable_sort(z.L.begin(), z.L.end(), [&](int a, int b) { return z.el.at(a).k[1] < z.el.at(b).k[1]; }); };
              ml(m); ml(w2.m);
              x.merge(y, lt);
              std::vector<int> tr, st; for (int id : w2.m.L) { V2 kv = w2.m.el.at(id); if (m.clash(kv)) st.push_back(id); else { m.add(id, kv); w2.m.del(id); tr.push_back(id); } }
              w2.m.L = st;
              std::vector<int> out; std::merge(m.L.begin(), m.L.end(), tr.begin(), tr.end(), std::back_inserter(out), [&](int a, int b) { return m.el.at(a).k[1] < m.el.at(b).k[1]; });
              m.L = out;
              if (tr.size() > 200) VF_HIT("more than 200 elements merged");
            }
            else {
              std::size_t pos = o.a[4] % (m.L.size() + 1);
              x.splice(std::next(x.begin(), std::ptrdiff_t(pos)), y);
              std::vector<int> tr, st; for (int id : w2.m.L) { V2 kv = w2.m.el.at(id); if (m.clash(kv)) st.push_back(id); else { m.add(id, kv); w2.m.del(id); tr.push_back(id); } }
              w2.m.L = st;
              m.L.insert(m.L.begin() + std::ptrdiff_t(pos), tr.begin(), tr.end());
              if (tr.size() > 200) VF_HIT("more than 200 elements spliced");
            }
            m.stable = false;
            w2.m.stable = false;
            check(w2, "source of merge/splice");
            break;
          }
          case O_UNIQ: {
            u64 q = o.a[0] % 2 ? 1 : 1000;
            x.unique([&](const E& a, const E& b) { return a.b / q == b.b / q; });
            std::vector<int> L; for (int id : m.L) if (!L.empty() && val(L.back()).k[1] / q == val(id).k[1] / q) m.del(id); else L.push_back(id);
            m.L = L;
            break;
          }
          case O_REMIF: {
            u64 q = 2 + o.a[0] % 6;
            x.remove_if([&](const E& e) { return e.id % int(q) == 0; });
            std::vector<int> L; for (int id : m.L) if (id % int(q) == 0) m.del(id); else L.push_back(id);
            m.L = L;
            break;
          }
          case O_RELOC: {
            if (m.L.size() < 3) break;
            std::size_t n = m.L.size(), f = o.a[0] % n, l = f + o.a[1] % (n - f + 1), p = o.a[2] % 2 && f ? o.a[3] % f : l + o.a[3] % (n - l + 1);
            x.relocate(std::next(x.begin(), std::ptrdiff_t(p)), std::next(x.begin(), std::ptrdiff_t(f)), std::next(x.begin(), std::ptrdiff_t(l)));
            if (p <= f) std::rotate(m.L.begin() + std::ptrdiff_t(p), m.L.begin() + std::ptrdiff_t(f), m.L.begin() + std::ptrdiff_t(l));
            else std::rotate(m.L.begin() + std::ptrdiff_t(f), m.L.begin() + std::ptrdiff_t(l), m.L.begin() + std::ptrdiff_t(p));
            if (l - f > 100) VF_HIT("more than 100 elements relocated");
            break;
          }
          case O_CAP:
            if constexpr (ra) {
              if (o.a[0] % 2) x.reserve(std::min<std::size_t>(size_(o.a[1]) * 4, 400000)); else { x.shrink_to_fit(); if (x.capacity() < x.size()) VF_FAIL("capacity below size"); }
            }
            else if (o.a[0] % 3 == 0) { std::size_t n = o.a[1] % (m.L.size() + 1); x.resize(n); while (m.L.size() > n) { m.del(m.L.back()); m.L.pop_back(); } }
            break;
        }
      
}
static void step(World& w, const Op& o) {
  C& c = w.c; Model& m = w.m; Rng& r = w.r;
  int k = int(o.k % O_N);
  const char* nm = oname[k];
  switch (k) {
    case O_INS: {
      auto v = fresh(w, size_(o.a[0]), int(o.a[1]), int(o.a[2]));
      bool front = o.a[3] % 4 == 0;
      with(LI >= 0 ? LI : int(o.a[4] % 2), [&](auto N) {
        constexpr int n = decltype(N)::value;
        auto& x = c.template get<n>();
        std::vector<int> acc;
        for (auto& e : v) {
          V2 kv{{e.a, e.b}};
          bool ok = !m.clash(kv);
          if constexpr (isLst(KD[n])) {
            if (front && KD[n] == RA && acc.size() > 300) front = false;  // linear
            auto p = front ? x.push_front(e) : x.push_back(e);
            if (p.second != ok || p.first->id != (ok ? e.id : p.first->id)) VF_FAIL(nm, ": pushing ", e.id, " returned ", p.second);
            acc.push_back(e.id);
            if (ok) { if (front) m.L.insert(m.L.begin(), e.id); else m.L.push_back(e.id); }
          }
          else {
            auto p = x.insert(e);
            if (p.second != ok) VF_FAIL(nm, ": inserting ", e.id, " returned ", p.second);
            if (!ok && !(isUni(KD[0]) && p.first->a == e.a) && !(isUni(KD[1]) && p.first->b == e.b)) VF_FAIL(nm, ": refused because of an element that does not clash");
            if (ok && p.first->id != e.id) VF_FAIL(nm, ": iterator to another element");
          }
          if (ok) m.add(e.id, kv);
        }
      });
      if (v.size() > 300) VF_HIT("more than 300 elements inserted");
      break;
    }
    case O_RINS: {
      auto v = fresh(w, size_(o.a[0]), int(o.a[1]), int(o.a[2]));
      std::vector<int> acc;
      for (auto& e : v) { V2 kv{{e.a, e.b}}; if (!m.clash(kv)) { m.add(e.id, kv); acc.push_back(e.id); } }
      with(LI >= 0 ? LI : int(o.a[4] % 2), [&](auto N) {
        constexpr int n = decltype(N)::value;
        auto& x = c.template get<n>();
        if constexpr (isLst(KD[n])) {
          std::size_t p = m.L.empty() ? 0 : o.a[3] % 3 == 0 ? 0 : o.a[3] % 3 == 1 ? m.L.size() : std::size_t(o.a[3]) % (m.L.size() + 1);
          auto pos = std::next(x.begin(), std::ptrdiff_t(p));
          x.insert(pos, v.begin(), v.end());
          m.L.insert(m.L.begin() + std::ptrdiff_t(p), acc.begin(), acc.end());
        }
        else { x.insert(v.begin(), v.end()); }
      });
      m.stable = false;  // range insertion may be hinted
      if (v.size() > 300) VF_HIT("more than 300 elements inserted as a range");
      break;
    }
    case O_ERP: {
      int md = 2 + int(o.a[1] % 5), rs = int(o.a[2] % 7);
      bool some = o.a[1] % 3 != 0;
      with(int(o.a[4] % 2), [&](auto N) {
        constexpr int n = decltype(N)::value;
        auto& x = c.template get<n>();
        std::size_t done = 0;
        if (KD[0] == RA || KD[1] == RA) { if (m.el.size() > 3000) some = true; }  // linear
        auto it = x.begin();
        if (some && m.el.size() > 40 && !isHsh(KD[n])) std::advance(it, std::ptrdiff_t(r.below(uint32_t(m.el.size() - 30))));
        while (it != x.end() && !(some && done > 400)) {
          if (it->id % md == rs % md) {
            int id = it->id; auto nx = std::next(it); const E* want = nx == x.end() ? nullptr : &*nx;
            it = x.erase(it);
            if ((it == x.end() ? nullptr : &*it) != want) VF_FAIL(nm, ": erase returned another position");
            m.del(id); ++done;
          }
          else ++it;
        }
        if (done > 100) VF_HIT("more than 100 elements erased one by one");
      });
      m.syncL();
      break;
    }
    case O_ERR: {
      with(int(o.a[4] % 2), [&](auto N) {
        constexpr int n = decltype(N)::value;
        auto& x = c.template get<n>();
        if (m.el.empty()) return;
        std::size_t f = o.a[1] % (m.el.size() + 1), l = f + o.a[2] % (m.el.size() - f + 1);
        if (KD[1 - n] == RA) l = std::min(l, f + 500);
        auto a = std::next(x.begin(), std::ptrdiff_t(f)), b = std::next(a, std::ptrdiff_t(l - f));
        std::vector<int> ids; for (auto it = a; it != b; ++it) ids.push_back(it->id);
        const E* want = b == x.end() ? nullptr : &*b;
        auto it = x.erase(a, b);
        if ((it == x.end() ? nullptr : &*it) != want) VF_FAIL(nm, ": erase returned another position");
        for (int id : ids) m.del(id);
        if (ids.size() > 100) VF_HIT("range of more than 100 elements erased");
      });
      m.syncL();
      break;
    }
    case O_ERK: {
      with(int(o.a[4] % 2), [&](auto N) {
        constexpr int n = decltype(N)::value;
        auto& x = c.template get<n>();
        if constexpr (!isLst(KD[n])) {
          std::vector<u64> ks; std::size_t stp = m.el.size() / 40 + 1, p = 0;
          for (auto& e : x) if (p++ % stp == 0) ks.push_back(key<n>(e) + (p % 5 == 0));
          for (u64 q : ks) {
            std::vector<int> ids; auto er = x.equal_range(q); for (auto it = er.first; it != er.second; ++it) ids.push_back(it->id);
            if (ids.size() > 400 && (KD[1 - n] == RA)) continue;
            auto f = m.cnt[n].find(q); std::size_t want = f == m.cnt[n].end() ? 0 : std::size_t(f->second);
            std::size_t got = x.erase(q);
            if (got != want || ids.size() != want) VF_FAIL(nm, ": erase(", q, ") is ", got, ", model ", want);
            for (int id : ids) m.del(id);
          }
        }
      });
      m.syncL();
      break;
    }
    case O_HSH: case O_MASS: {
      both([&](auto N) {
        constexpr int n = decltype(N)::value;
        if constexpr (isHsh(KD[n])) {
          if ((o.a[4] ^ unsigned(n)) % 3 == 0) return;
          auto& x = c.template get<n>();
          std::size_t z = k == O_MASS ? std::size_t(std::pow(2.0, 10 + double(o.a[0] % 1000) / 1000 * 11.6)) : size_(o.a[0]);
          if (o.a[1] % 4 == 1) { static const float fs[] = {1.0f, 0.3f, 0.7f, 2.5f, 9.0f}; x.max_load_factor(fs[o.a[2] % 5]); }
          if (o.a[1] % 2) { std::size_t b = x.bucket_count(); x.rehash(z); if (x.bucket_count() < z) VF_FAIL(nm, ": rehash(", z, ") left ", x.bucket_count(), " buckets"); if (double(x.bucket_count()) * x.max_load_factor() * 1.0001 + 1 < double(x.size())) VF_FAIL(nm, ": rehash(", z, ") left load ", x.load_factor()); (void)b; }
          else { x.reserve(z); if (double(x.bucket_count()) * x.max_load_factor() * 1.0001 + 1 < double(z)) VF_FAIL(nm, ": reserve(", z, ") left ", x.bucket_count(), " buckets, load limit ", x.max_load_factor()); }
          // a key of every size lands in a bucket
          for (int i = 0; i < 400; ++i) { u64 q = r.next() >> r.below(64); std::size_t b = x.bucket(q); if (b >= x.bucket_count()) VF_FAIL(nm, ": bucket(", q, ") is ", b, " of ", x.bucket_count()); if (x.bucket_size(b) > x.size()) VF_FAIL(nm, ": bucket_size"); }
          std::size_t cap0 = std::size_t(double(x.bucket_count()) * x.max_load_factor());
          if (std::abs(double(x.load_factor()) - double(x.size()) / double(x.bucket_count())) > 1e-4 * (1 + x.load_factor())) VF_FAIL(nm, ": load_factor()");
          (void)cap0;
          if (x.bucket_count() > 40000) VF_HIT("more than 40000 buckets");
        }
      });
      break;
    }
    case O_MOD: {
      with(int(o.a[4] % 2), [&](auto N) {
        constexpr int n = decltype(N)::value;
        auto& x = c.template get<n>();
        std::vector<const E*> S; std::size_t stp = m.el.size() / 150 + 1, p = 0;
        for (auto& e : x) if (p++ % stp == 0) S.push_back(&e);
        u64 base = r.next();
        for (std::size_t i = 0; i < S.size(); ++i) {
          int id = S[i]->id; V2 old = m.el[id], nv = old;
          int which = int((o.a[3] + i) % 2);
          nv.k[which] = o.a[2] % 3 == 0 ? old.k[which] + 1 : o.a[2] % 3 == 1 ? genKey(r, int(o.a[1]), int(i), int(S.size()), base) : (S[r.below(uint32_t(i + 1))]->a);
          S[i] = nullptr;
          m.del(id);
          bool ok = !m.clash(nv);
          auto it = x.begin();
          { auto& x0 = c.template get<0>(); (void)x0; }
          // find the object again
          if constexpr (isLst(KD[n])) { std::size_t q = std::size_t(std::find(m.L.begin(), m.L.end(), id) - m.L.begin()); it = std::next(x.begin(), std::ptrdiff_t(q)); }
          else { auto er = x.equal_range(old.k[n]); for (it = er.first; it != er.second && it->id != id; ++it) {} }
          const E* addr = &*it;
          if (o.a[2] % 2) {
            bool got = x.modify(it, [&](E& e) { e.a = nv.k[0]; e.b = nv.k[1]; }, [&](E& e) { e.a = old.k[0]; e.b = old.k[1]; });
            if (got != ok) VF_FAIL(nm, ": modify with rollback returned ", got);
            m.add(id, ok ? nv : old); S[i] = addr;
          }
          else {
            bool got = o.a[2] % 4 == 0 ? x.modify(it, [&](E& e) { e.a = nv.k[0]; e.b = nv.k[1]; }) : x.replace(it, E{nv.k[0], nv.k[1], id});
            if (got != ok) VF_FAIL(nm, ": modify/replace returned ", got);
            if (ok) m.add(id, nv);
            else if (o.a[2] % 4 != 0) m.add(id, old);
            else if (isLst(KD[n]) ) m.L.erase(std::find(m.L.begin(), m.L.end(), id));
            S[i] = m.el.count(id) ? addr : nullptr;
          }
          if (!S[i]) { S[i] = i ? S[0] : nullptr; if (!S[i]) { break; } }
        }
        if (S.size() > 30) VF_HIT("many elements modified");
      });
      m.syncL();
      m.stable = false;
      break;
    }
    case O_CPY: {
      switch (o.a[1] % 6) {
        case 0: { C d(c); check(w, "copied from"); c.swap(d); d.clear(); break; }
        case 1: { C d = w.ar.make(); d = c; c = d; break; }
        case 2: { C d(std::move(c)); if (!c.empty()) VF_FAIL(nm, ": moved-from container not empty"); c = std::move(d); break; }
        case 3: { C d(Args{!w.ar.desc, (w.ar.hm + 1) % 3}.make()); d.swap(c); if (!c.empty()) VF_FAIL(nm, ": swap"); d.swap(c); break; }
        case 4: { std::vector<E> v(c.get<0>().begin(), c.get<0>().end()); C d(v.begin(), v.end(), C::ctor_args_list(w.ar.args<0>(), w.ar.args<1>())); if (d.size() != c.size()) VF_FAIL(nm, ": range construction took ", d.size(), " of ", c.size()); if (LI < 0) { c.swap(d); m.stable = false; } break; }
        default: { // element by element through node handles
          C d = w.ar.make();
          std::vector<int> L = m.L;
          if ((KD[0] == RA || KD[1] == RA) && m.el.size() > 2000) break;
          nodes(c, d, std::integral_constant<int, (LI >= 0 ? LI : 0)>());
          c.swap(d); m.stable = false;
        }
      }
      if (m.el.size() > 300) VF_HIT("more than 300 elements copied, moved or swapped");
      break;
    }
    case O_CLEAR: if (o.a[0] % 3 == 0) { c.clear(); m = Model(); } break;
    default:
      if constexpr (LI >= 0) listStep(w, o, k, nm, std::integral_constant<int, (LI >= 0 ? LI : 0)>());
  }
}

static void run(const Case& cs) {
  World w(cs.p(0), Args{bool(cs.p(1) % 2), int(cs.p(2) % 3)}, cs.p(3) % 8 == 0 ? 260000 : cs.p(3) % 8 < 4 ? 20000 : 3000);
  for (auto& o : cs.ops) {
    std::size_t before = w.m.el.size();
    step(w, o);
    ++stats().feat[oname[o.k % O_N]];
    check(w, oname[o.k % O_N]);
    (void)before;
  }
}
static Case gen(Rng& r, int) {
  Case c;
  c.P = {uint32_t(r.next()), r.below(2), r.below(3), r.below(1000)};
  bool big = r.chance(1, 60);
  int n = 1 + int(r.below(big ? 6 : 12));
  for (int i = 0; i < n; ++i) {
    Op o;
    o.k = i == 0 ? (r.chance(1, 2) ? O_INS : O_RINS) : r.chance(1, 3) ? r.below(2) : r.below(O_N);
    for (auto& a : o.a) a = r.below(1u << 30);
    if (big && i == 0) { c.P[3] = 0; while (size_(o.a[0]) < 60000) o.a[0] = r.below(1u << 30); if (o.k == O_INS) o.a[3] |= 1; }
    if (big && i == 1) o.k = O_N - 9 + r.below(6);
    c.ops.push_back(o);
  }
  return c;
}
static std::string show(const Case& c) {
  std::string s;
  for (auto& o : c.ops) { s += oname[o.k % O_N]; if (o.k % O_N <= O_RINS) s += cat(" ", size_(o.a[0]), " (patterns ", o.a[1] % 8, ",", o.a[2] % 8, ")"); s += "; "; }
  return s;
}
}  // namespace vf
int main(int argc, char** argv) {
  vf::Harness h;
  h.name = VF_NAME;
  h.gen = vf::gen;
  h.run = vf::run;
  h.show = vf::show;
  h.nontrivial_threshold = 2;
  return vf::worker_main(argc, argv, h);
}
