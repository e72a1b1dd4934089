// Thread safety: concurrent access to different containers, and concurrent read-only access
// to the same container, under ThreadSanitizer, with normal and safe-mode builds.
// Each history is executed twice: by one thread only (the reference) and with the scripts of
// the parallel phases run by threads of their own; everything observed must agree.
#include "core.hpp"
#include <atomic>
#include <sstream>
#include <thread>
#ifdef VF_SAFE
#define BOOST_MULTI_INDEX_ENABLE_SAFE_MODE
#endif
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/multi_index_container.hpp>
#include <boost/multi_index/composite_key.hpp>
#include <boost/multi_index/hashed_index.hpp>
#include <boost/multi_index/member.hpp>
#include <boost/multi_index/ordered_index.hpp>
#include <boost/multi_index/random_access_index.hpp>
#include <boost/multi_index/ranked_index.hpp>
#include <boost/multi_index/sequenced_index.hpp>
#include <boost/tuple/tuple.hpp>
namespace vf {
namespace bmi = boost::multi_index;

struct E {
  int a = 0, b = 0, id = 0;
  E() {}
  E(int a_, int b_, int i) : a(a_), b(b_), id(i) {}
  bool operator==(const E& x) const { return a == x.a && b == x.b; }
  bool operator<(const E& x) const { return a != x.a ? a < x.a : b < x.b; }
  template <class Ar> void serialize(Ar& ar, const unsigned) { ar & boost::serialization::make_nvp("a", a); ar & boost::serialization::make_nvp("b", b); ar & boost::serialization::make_nvp("i", id); }
};
using KA = bmi::member<E, int, &E::a>;
using KB = bmi::member<E, int, &E::b>;
using CK = bmi::composite_key<E, KB, KA>;
#if VF_CFG == 0
using IB = bmi::indexed_by<bmi::ordered_unique<KA>, bmi::hashed_non_unique<KB>, bmi::sequenced<>, bmi::ranked_non_unique<KB>>;
#elif VF_CFG == 1
using IB = bmi::indexed_by<bmi::hashed_unique<KA>, bmi::random_access<>, bmi::ordered_non_unique<CK>, bmi::ranked_unique<KA>>;
#else
using IB = bmi::indexed_by<bmi::sequenced<>, bmi::hashed_unique<CK>, bmi::ordered_non_unique<KB>, bmi::random_access<>>;
#endif
using C = bmi::multi_index_container<E, IB>;
constexpr int NI = 4;
constexpr int NC = 5;  // containers
constexpr int MAXT = 4;

template <class T, class = void> struct isHsh : std::false_type {};
template <class T> struct isHsh<T, std::void_t<decltype(std::declval<const T&>().bucket_count())>> : std::true_type {};
template <class T, class = void> struct isRnk : std::false_type {};
template <class T> struct isRnk<T, std::void_t<decltype(std::declval<const T&>().nth(0), std::declval<const T&>().key_comp())>> : std::true_type {};
template <class T, class = void> struct isOrd : std::false_type {};
template <class T> struct isOrd<T, std::void_t<decltype(std::declval<const T&>().key_comp())>> : std::true_type {};
template <class T, class = void> struct isRa : std::false_type {};
template <class T> struct isRa<T, std::void_t<decltype(std::declval<const T&>().capacity())>> : std::true_type {};
template <class T> struct isLst : std::bool_constant<!isHsh<T>::value && !isOrd<T>::value> {};

template <int N> using IX = typename bmi::nth_index<C, N>::type;
template <int N> using It = typename IX<N>::const_iterator;

template <class I> auto key(int x, int y) {
  if constexpr (std::is_same_v<typename I::key_type, int>) return x;
  else return boost::make_tuple(x, y);
}

typedef std::vector<uint64_t> Log;
static void put(Log& l, uint64_t v) { l.push_back(v); }
static uint64_t hv(const E& e) { return uint64_t(e.a) * 1000003 + uint64_t(e.b) * 10007 + uint64_t(e.id) + 1; }
template <class B, class X> void seq(Log& l, B f, X e) { uint64_t h = 7; for (; f != e; ++f) h = h * 31 + hv(*f); put(l, h); }

// iterators a thread keeps for the duration of a phase and beyond
template <int N> struct Keep { It<N> it[3]; int ph[3] = {0, 0, 0}; int c[3] = {0, 0, 0}; };
struct Slots { Keep<0> k0; Keep<1> k1; Keep<2> k2; Keep<3> k3; };
template <int N> Keep<N>& keep(Slots& s) { if constexpr (N == 0) return s.k0; else if constexpr (N == 1) return s.k1; else if constexpr (N == 2) return s.k2; else return s.k3; }
struct Anchors { It<0> i0; It<1> i1; It<2> i2; It<3> i3; };  // made by the main thread, copied by others
template <int N> It<N>& anchor(Anchors& s) { if constexpr (N == 0) return s.i0; else if constexpr (N == 1) return s.i1; else if constexpr (N == 2) return s.i2; else return s.i3; }

struct World {
  C c[NC];
  Anchors anc[NC];
  Slots slots[MAXT];
  std::string ar[MAXT];
  int phase = 0;
};

template <class F> void pick(uint32_t i, F&& f) {
  switch (i % NI) {
    case 0: f(std::integral_constant<int, 0>()); break;
    case 1: f(std::integral_constant<int, 1>()); break;
    case 2: f(std::integral_constant<int, 2>()); break;
    default: f(std::integral_constant<int, 3>()); break;
  }
}
template <class I> auto at(I& ix, uint32_t p) { auto it = ix.begin(); if (!ix.empty()) std::advance(it, p % ix.size()); return it; }

enum { RD_FIND, RD_RANGE, RD_FWD, RD_BWD, RD_PROJ, RD_HASH, RD_POS, RD_CMP, RD_COPY, RD_ITER, RD_SAVE, RD_OBS, RD_ALGO, RD_N };
static const char* rdName[] = {"find", "range", "iterate", "reverse-iterate", "project", "buckets", "positions", "compare", "copy", "iterators", "save", "observers", "algorithms"};

// operations that only read container ci (and cj)
static void rd(World& w, int t, int op, int ci, int cj, uint32_t x, uint32_t y, Log& l) {
  const C& c = w.c[ci];
  const C& d = w.c[cj];
  pick(y, [&](auto n) {
    constexpr int N = decltype(n)::value;
    typedef IX<N> I;
    const I& ix = c.template get<N>();
    int kx = int(x % 40), ky = int((x >> 8) % 40);
    switch (op) {
      case RD_FIND:
        if constexpr (isLst<I>::value) { if (!ix.empty()) { put(l, hv(ix.front())); put(l, hv(ix.back())); } }
        else {
          auto it = ix.find(key<I>(kx, ky));
          put(l, it == ix.end() ? 0 : hv(*it));
          put(l, ix.count(key<I>(ky, kx)));
          put(l, ix.contains(key<I>(kx, kx)));
        }
        break;
      case RD_RANGE:
        if constexpr (!isLst<I>::value) { auto r = ix.equal_range(key<I>(kx, ky)); seq(l, r.first, r.second); }
        if constexpr (isOrd<I>::value) {
          int lo = std::min(kx, ky), hi = std::max(kx, ky);
          seq(l, ix.lower_bound(key<I>(lo, 0)), ix.upper_bound(key<I>(hi, 40)));
          auto r = (x & 1) ? ix.range([&](const auto& k) { return !(ix.key_comp()(k, key<I>(lo, 3))); }, bmi::unbounded) : ix.range(bmi::unbounded, bmi::unbounded);
          seq(l, r.first, r.second);
        }
        if constexpr (isRnk<I>::value) {
          auto r = ix.range_rank(bmi::unbounded, bmi::unbounded); put(l, r.first * 1000 + r.second);
          auto q = ix.equal_range_rank(kx); put(l, q.first * 1000 + q.second);
        }
        break;
      case RD_FWD: seq(l, ix.begin(), ix.end()); break;
      case RD_BWD:
        if constexpr (!isHsh<I>::value) seq(l, ix.rbegin(), ix.rend());
        else seq(l, ix.cbegin(), ix.cend());
        break;
      case RD_PROJ:
        if (!ix.empty()) {
          auto it = at(ix, x);
          put(l, hv(*bmi::project<0>(c, it))); put(l, hv(*bmi::project<1>(c, it))); put(l, hv(*c.template project<2>(it))); put(l, hv(*c.template project<3>(it)));
          put(l, it == ix.iterator_to(*it));
          auto back = c.template project<N>(c.template project<(N + 1) % NI>(it));
          put(l, back == it);
        }
        break;
      case RD_HASH:
        if constexpr (isHsh<I>::value) {
          put(l, ix.bucket_count()); put(l, uint64_t(ix.load_factor() * 1000)); put(l, uint64_t(ix.max_load_factor() * 1000));
          E e0(kx, ky, 0);
          if constexpr (std::is_same_v<typename I::key_type, int>) e0 = E(kx, kx, 0);
          auto b = ix.bucket(ix.key_extractor()(e0));
          put(l, b); put(l, ix.bucket_size(b)); seq(l, ix.begin(b), ix.end(b));
          if (!ix.empty()) put(l, hv(*ix.local_iterator_to(*at(ix, x))));
        } else put(l, ix.size());
        break;
      case RD_POS:
        if constexpr (isRa<I>::value) {
          if (!ix.empty()) { put(l, hv(ix[x % ix.size()])); put(l, hv(ix.at(0))); auto a = at(ix, x), b = at(ix, y); put(l, uint64_t(b - a)); put(l, a < b); put(l, hv(a[b - a])); }
          put(l, ix.capacity());
        }
        if constexpr (isRnk<I>::value) {
          put(l, ix.find_rank(kx)); put(l, ix.lower_bound_rank(kx)); put(l, ix.upper_bound_rank(ky));
          if (!ix.empty()) { auto it = ix.nth(x % ix.size()); put(l, hv(*it)); put(l, ix.rank(it)); }
        }
        put(l, ix.size() * 2 + ix.empty());
        break;
      case RD_CMP: {
        const I& jx = d.template get<N>();
        put(l, ix == jx); put(l, ix != jx);
        if constexpr (!isHsh<I>::value) { put(l, ix < jx); put(l, ix >= jx); put(l, ix > jx); put(l, ix <= jx); }
        put(l, c == d);
        break;
      }
      case RD_COPY: {
        C k(c);
        seq(l, k.template get<N>().begin(), k.template get<N>().end());
        if (x & 1) { C m(std::move(k)); put(l, m.size()); }
        if (x & 2) { C m(c, c.get_allocator()); put(l, m == c); }
        break;
      }
      case RD_ITER: {
        Keep<N>& k = keep<N>(w.slots[t]);
        for (int r = 0; r < 4; ++r) {
          int s = int((x >> (3 * r)) % 3);
          switch ((x >> (3 * r + 12)) % 5) {
            case 0: k.it[s] = at(ix, x >> r); k.ph[s] = w.phase; k.c[s] = ci; break;
            case 1: { int q = (s + 1) % 3; if (k.ph[q] == w.phase) { k.it[s] = k.it[q]; k.ph[s] = k.ph[q]; k.c[s] = k.c[q]; } break; }
            case 2: if (k.ph[s] == w.phase && k.it[s] != w.c[k.c[s]].template get<N>().cend()) { auto it = k.it[s]; put(l, hv(*it)); ++it; put(l, it == w.c[k.c[s]].template get<N>().cend()); } break;
            case 3: { auto e = ix.cend(); k.it[s] = e; k.ph[s] = w.phase; k.c[s] = ci; break; }
            default: { It<N> q[3] = {anchor<N>(w.anc[ci]), anchor<N>(w.anc[ci]), ix.end()}; put(l, q[0] == q[1]); q[1] = q[2]; put(l, q[1] == ix.cend()); if (q[0] != q[2]) put(l, hv(*q[0])); std::swap(q[0], q[2]); break; }
          }
        }
        break;
      }
      case RD_SAVE: {
        std::ostringstream o;
        { boost::archive::text_oarchive oa(o); oa << c; auto it = at(ix, x); oa << it; }
        uint64_t h = 5;
        for (char ch : o.str()) h = h * 131 + (unsigned char)ch;
        put(l, h);
        w.ar[t] = o.str();
        break;
      }
      case RD_OBS:
        put(l, ix.max_size()); (void)ix.get_allocator(); (void)c.get_allocator();
        if constexpr (isOrd<I>::value) { auto kc = ix.key_comp(); auto vc = ix.value_comp(); auto ke = ix.key_extractor(); E ea(kx, 1, 0), eb(ky, 1, 0); put(l, kc(ke(ea), ke(eb))); put(l, vc(E(kx, 1, 0), E(ky, 1, 0))); E e(kx, 3, 1); (void)ke(e); }
        if constexpr (isHsh<I>::value) { auto h = ix.hash_function(); auto q = ix.key_eq(); put(l, h(key<I>(kx, 1)) == h(key<I>(kx, 1))); put(l, q(ix.key_extractor()(E(kx, kx, 0)), ix.key_extractor()(E(kx, kx, 0)))); put(l, ix.max_bucket_count() > 0); }
        break;
      default: {
        put(l, uint64_t(std::distance(ix.begin(), ix.end())));
        put(l, uint64_t(std::count_if(ix.begin(), ix.end(), [&](const E& e) { return e.b == kx; })));
        auto it = std::find_if(ix.begin(), ix.end(), [&](const E& e) { return e.a == kx; });
        put(l, it == ix.end() ? 0 : hv(*it));
      }
    }
  });
}

enum { WR_INS, WR_HINT, WR_ERASE, WR_ERANGE, WR_MOD, WR_REPL, WR_LIST, WR_HASHP, WR_ASSIGN, WR_MERGE, WR_SWAP, WR_NODE, WR_LOAD, WR_SPLICE, WR_CLEAR, WR_FILL, WR_N };
static const char* wrName[] = {"insert", "emplace_hint", "erase", "erase-range", "modify", "replace", "list-op", "hash-policy", "assign", "merge", "swap", "node", "load", "splice", "clear", "fill"};

// operations that change container ci (and cj when two); src is only read
static void wr(World& w, int t, int op, int ci, int cj, int src, uint32_t x, uint32_t y, int& id, Log& l) {
  C& c = w.c[ci];
  C& d = w.c[cj];
  pick(y, [&](auto n) {
    constexpr int N = decltype(n)::value;
    typedef IX<N> I;
    I& ix = c.template get<N>();
    I& jx = d.template get<N>();
    int kx = int(x % 40), ky = int((x >> 8) % 40);
    switch (op) {
      case WR_INS:
        if constexpr (isLst<I>::value) { auto r = (x & 1024) ? ix.push_back(E(kx, ky, ++id)) : ix.push_front(E(kx, ky, ++id)); put(l, r.second); put(l, hv(*r.first)); }
        else { auto r = ix.insert(E(kx, ky, ++id)); put(l, r.second); put(l, hv(*r.first)); }
        break;
      case WR_HINT:
        if constexpr (isLst<I>::value) { auto r = ix.emplace(at(ix, y), kx, ky, ++id); put(l, r.second); put(l, hv(*r.first)); }
        else { auto it = ix.emplace_hint(at(ix, y >> 2), kx, ky, ++id); put(l, hv(*it)); }
        break;
      case WR_ERASE:
        if (ix.empty()) break;
        if constexpr (!isLst<I>::value) if (x & 1) { E e0(kx, kx, 0); put(l, ix.erase(ix.key_extractor()(e0))); break; }
        ix.erase(at(ix, x));
        break;
      case WR_ERANGE: if (!ix.empty()) { auto a = at(ix, x); auto b = a; for (int i = 0; i < int(y % 5) && b != ix.end(); ++i) ++b; ix.erase(a, b); put(l, ix.size()); } break;
      case WR_MOD:
        if (ix.empty()) break;
        switch ((x >> 16) % 3) {
          case 0: put(l, ix.modify(at(ix, x), [&](E& e) { e.b = ky; })); break;
          case 1: put(l, ix.modify(at(ix, x), [&](E& e) { e.a = ky; })); break;
          default: { auto it = at(ix, x); int oa = it->a; put(l, ix.modify(it, [&](E& e) { e.a = ky; }, [&](E& e) { e.a = oa; })); }
        }
        break;
      case WR_REPL: if (!ix.empty()) put(l, ix.replace(at(ix, x), E(kx, ky, ++id))); break;
      case WR_LIST:
        if constexpr (isLst<I>::value) {
          switch ((x >> 16) % 7) {
            case 0: ix.sort(); break;
            case 1: ix.reverse(); break;
            case 2: ix.unique(); break;
            case 3: ix.remove_if([&](const E& e) { return e.b == kx; }); break;
            case 4: if (!ix.empty()) ix.relocate(at(ix, x), at(ix, y >> 3)); break;
            case 5: { std::vector<std::reference_wrapper<const E>> v(ix.begin(), ix.end()); std::reverse(v.begin(), v.end()); ix.rearrange(v.begin()); break; }
            default: ix.sort([](const E& p, const E& q) { return p.b < q.b; });
          }
        }
        seq(l, ix.begin(), ix.end());
        break;
      case WR_HASHP:
        if constexpr (isHsh<I>::value) { if (x & 1) ix.rehash(x % 500); else ix.reserve(y % 300); put(l, ix.bucket_count()); }
        if constexpr (isRa<I>::value) { if (x & 1) ix.reserve(x % 300); else ix.shrink_to_fit(); put(l, ix.capacity()); }
        break;
      case WR_ASSIGN: if (x & 1) c = w.c[src]; else { C k(w.c[src]); c = std::move(k); } put(l, c.size()); break;
      case WR_MERGE:
        if (ci == cj) break;
        if constexpr (isLst<I>::value) { ix.splice(ix.end(), jx); put(l, ix.size()); put(l, jx.size()); }
        else { ix.merge(jx); put(l, ix.size()); put(l, jx.size()); }
        break;
      case WR_SWAP: if (ci != cj) c.swap(d); put(l, c.size()); break;
      case WR_NODE:
        if (ix.empty()) break;
        {
          auto nh = ix.extract(at(ix, x));
          put(l, nh.empty());
          if constexpr (isLst<I>::value) { auto r = jx.insert(at(jx, y), std::move(nh)); put(l, r.inserted); }
          else { auto r = jx.insert(std::move(nh)); put(l, r.inserted); if (!r.inserted) put(l, hv(r.node.value())); }
        }
        break;
      case WR_LOAD:
        if (!w.ar[t].empty()) {
          std::istringstream in(w.ar[t]);
          boost::archive::text_iarchive ia(in);
          C k; ia >> k; put(l, k.size()); c.swap(k);
        }
        break;
      case WR_SPLICE:
        if constexpr (isLst<I>::value) {
          if (jx.empty()) break;
          auto f = at(jx, x);
          if (ci == cj) { auto p = at(ix, y >> 2); if (p != f) { ix.splice(p, jx, f); } }
          else if (x & 256) ix.splice(at(ix, y), jx, f); else ix.splice(at(ix, y), jx, f, jx.end());
          seq(l, ix.begin(), ix.end());
        } else if (!jx.empty() && ci != cj) { if constexpr (isOrd<I>::value || isHsh<I>::value) ix.merge(jx, at(jx, x), jx.end()); put(l, ix.size()); }
        break;
      case WR_CLEAR: if (x % 3 == 0) c.clear(); break;
      default: {
        std::vector<E> v;
        for (uint32_t i = 0; i < x % 24; ++i) v.emplace_back(int((x * 7 + i * 5) % 40), int((y + i * i) % 12), ++id);
        c.insert(
#if VF_CFG == 2
            c.end(),
#endif
            v.begin(), v.end());
        put(l, c.size());
      }
    }
  });
}

static int role(uint32_t roles, int c, int T) { return int((roles >> (4 * c)) % uint32_t(T + 2)); }  // < T: private to that thread, else shared

// op.k: 0 new phase with roles a[0]; 1 main-thread change; 2 thread step
struct Run {
  World w;
  int id = 0;
  std::vector<Log> logs;
  const Case& c;
  bool par;
  int T;
  explicit Run(const Case& c_, bool p) : c(c_), par(p), T(2 + int(c_.p(0) % (MAXT - 1))) {}
  void script(size_t from, size_t to, int t, uint32_t roles, Log& l, int tid) {
    std::vector<int> own, vis;
    for (int i = 0; i < NC; ++i) { int r = role(roles, i, T); if (r == t) own.push_back(i); if (r == t || r >= T) vis.push_back(i); }
    if (vis.empty()) return;
    for (size_t i = from; i < to; ++i) {
      const Op& o = c.ops[i];
      if (int(o.a[0] % uint32_t(T)) != t) continue;
      uint32_t s = o.a[2];
      bool write = o.a[1] % 100 < 35 && !own.empty();
      if (write) wr(w, t, int((o.a[1] / 100) % WR_N), own[s % own.size()], own[(s >> 8) % own.size()], vis[(s >> 16) % vis.size()], o.a[3], o.a[4], tid, l);
      else {
        int op = int((o.a[1] / 100) % RD_N);
        if (op == RD_ITER && role(roles, vis[s % vis.size()], T) < T) op = RD_FWD;  // iterators are kept for shared containers only
        rd(w, t, op, vis[s % vis.size()], vis[(s >> 8) % vis.size()], o.a[3], o.a[4], l);
      }
      if (par && (o.a[3] >> 24) % 3 == 0) std::this_thread::yield();
    }
  }
  void anchors() {
    for (int i = 0; i < NC; ++i) {
      anchor<0>(w.anc[i]) = w.c[i].get<0>().begin(); anchor<1>(w.anc[i]) = w.c[i].get<1>().end();
      anchor<2>(w.anc[i]) = w.c[i].get<2>().begin(); anchor<3>(w.anc[i]) = w.c[i].get<3>().begin();
    }
  }
  void go(uint64_t& inter) {
    for (size_t i = 0; i < c.ops.size();) {
      const Op& o = c.ops[i];
      if (o.k != 2) {
        logs.emplace_back();
        if (o.k == 1) wr(w, 0, int((o.a[1] / 100) % WR_N), int(o.a[2] % NC), int((o.a[2] >> 8) % NC), int((o.a[2] >> 16) % NC), o.a[3], o.a[4], id, logs.back());
        ++i;
        continue;
      }
      size_t e = i;
      while (e < c.ops.size() && c.ops[e].k == 2) ++e;
      uint32_t roles = o.a[0] / 8 + o.a[4];
      ++w.phase;
      for (auto& x : w.slots) { x.~Slots(); new (&x) Slots(); }  // an iterator into a container that another thread will change would be an access to it
      anchors();
      std::vector<Log> ls((size_t)T);
      if (!par) {
        for (int t = 0; t < T; ++t) script(i, e, t, roles, ls[t], 1000 * (w.phase * MAXT + t));
      } else {
        std::atomic<int> ready{0};
        std::vector<std::string> err((size_t)T);
        std::vector<std::thread> th;
        for (int t = 0; t < T; ++t)
          th.emplace_back([&, t] {
            ready.fetch_add(1, std::memory_order_relaxed);
            for (int q = 0; q < 2000 && ready.load(std::memory_order_relaxed) < T; ++q) std::this_thread::yield();
            try { script(i, e, t, roles, ls[t], 1000 * (w.phase * MAXT + t)); }
            catch (const Fail& f) { err[t] = f.msg; }
            catch (const std::exception& x) { err[t] = std::string("exception ") + x.what(); }
          });
        for (auto& x : th) x.join();
        for (auto& s : err) if (!s.empty()) fail_(s);
        int sh = 0, pv = 0;
        for (int k = 0; k < NC; ++k) { if (role(roles, k, T) >= T) ++sh; else ++pv; }
        if (e - i >= 6 && sh) { ++inter; VF_FEAT("phases with shared containers"); }
        if (e - i >= 6 && pv > 1) { ++inter; VF_FEAT("phases with containers private to threads"); }
      }
      for (auto& x : ls) logs.push_back(std::move(x));
      i = e;
    }
    logs.emplace_back();
    for (int k = 0; k < NC; ++k) { seq(logs.back(), w.c[k].get<0>().begin(), w.c[k].get<0>().end()); seq(logs.back(), w.c[k].get<1>().begin(), w.c[k].get<1>().end()); seq(logs.back(), w.c[k].get<2>().begin(), w.c[k].get<2>().end()); seq(logs.back(), w.c[k].get<3>().begin(), w.c[k].get<3>().end()); }
  }
};

static Case gen(Rng& r, int) {
  Case c;
  c.P = {r.below(3)};
  int ph = 1 + int(r.below(3));
  auto mk = [&](uint32_t k) { Op o; o.k = k; o.a[0] = r.below(1u << 24); o.a[1] = r.below(100000); o.a[2] = r.below(1u << 24); o.a[3] = r.below(1u << 30); o.a[4] = r.below(1u << 16); return o; };
  for (int p = 0; p < ph; ++p) {
    int m = 2 + int(r.below(8));
    for (int i = 0; i < m; ++i) { Op o = mk(1); if (r.chance(p ? 1 : 3, 4)) o.a[1] = WR_FILL * 100; c.ops.push_back(o); }
    int n = 8 + int(r.below(60));
    for (int i = 0; i < n; ++i) c.ops.push_back(mk(2));
  }
  return c;
}
static void run(const Case& c) {
  uint64_t dummy = 0;
  Run ref(c, false);
  ref.go(dummy);
  int reps = replaying() ? 12 : 1;
  for (int k = 0; k < reps; ++k) {
    Run p(c, true);
    p.go(stats().interesting);
    VF_CHECK(p.logs.size() == ref.logs.size(), "different number of steps");
    for (size_t i = 0; i < p.logs.size(); ++i)
      if (p.logs[i] != ref.logs[i]) VF_FAIL("results of step ", i, " differ from those of the sequential execution");
  }
  if (!replaying()) for (auto& o : c.ops) ++stats().feat[std::string(o.k == 1 ? "main: " : "thread: ") + (o.k == 1 || o.a[1] % 100 < 35 ? wrName[(o.a[1] / 100) % WR_N] : rdName[(o.a[1] / 100) % RD_N])];
}
static std::string show(const Case& c) {
  int T = 2 + int(c.p(0) % (MAXT - 1));
  std::string s = cat(T, " threads;");
  bool in = false;
  for (auto& o : c.ops) {
    if (o.k == 2) {
      if (!in) { uint32_t roles = o.a[0] / 8 + o.a[4]; s += " phase("; for (int i = 0; i < NC; ++i) { int x = role(roles, i, T); s += x < T ? cat("c", i, ":t", x, " ") : cat("c", i, ":shared "); } s += ")"; }
      in = true;
      s += cat(" t", o.a[0] % uint32_t(T), ":", o.a[1] % 100 < 35 ? wrName[(o.a[1] / 100) % WR_N] : "", o.a[1] % 100 < 35 ? "/" : "", rdName[(o.a[1] / 100) % RD_N], "[index ", o.a[4] % NI, "]");
    } else { in = false; s += cat(" main:", wrName[(o.a[1] / 100) % WR_N], "(c", o.a[2] % NC, ")[index ", o.a[4] % NI, "]"); }
  }
  return s;
}
}  // namespace vf
int main(int argc, char** argv) {
  vf::Harness h;
  h.name = VF_NAME;
  h.gen = vf::gen;
  h.run = vf::run;
  h.show = vf::show;
  h.nontrivial_threshold = 2;
  return vf::worker_main(argc, argv, h);
}
