// Composite keys: comparison, equality, hashing and index lookups against tuples of ints.
#include "core.hpp"
#include <climits>
#include <memory>
#include <tuple>
#define BOOST_MULTI_INDEX_DISABLE_SERIALIZATION
#include <boost/multi_index_container.hpp>
#include <boost/multi_index/composite_key.hpp>
#include <boost/multi_index/global_fun.hpp>
#include <boost/multi_index/hashed_index.hpp>
#include <boost/multi_index/identity.hpp>
#include <boost/multi_index/key.hpp>
#include <boost/multi_index/mem_fun.hpp>
#include <boost/multi_index/member.hpp>
#include <boost/multi_index/ordered_index.hpp>
#include <boost/multi_index/ranked_index.hpp>
#include <boost/tuple/tuple.hpp>
namespace vf { struct Key2; }
template <> struct std::greater<vf::Key2> { bool operator()(const vf::Key2& x, const vf::Key2& y) const; };
#ifndef VF_N
#define VF_N 3
#endif
namespace vf {
namespace bmi = boost::multi_index;
const int N = VF_N, NC = 10;

struct Key2 {
  int v;
  bool operator<(const Key2& x) const { return v < x.v; }
  bool operator==(const Key2& x) const { return v == x.v; }
};
inline std::size_t hash_value(const Key2& k) { return boost::hash<int>()(k.v); }
struct V {
  int id = 0;
  int r[NC] = {};   // model: the rank of every component
  int a = 0;
  std::string s;
  long b = 0;
  Key2 c{0};
  short d = 0;
  unsigned char e[5] = {};
  const std::string& str() const { return s; }
  std::string strv() const { return s; }
  int cd() { return d; }
  int i5, i6, i7, i8, i9;
};
inline long fb(const V& v) { return v.b; }
inline short fd(const V* v) { return v->d; }
inline std::string mkstr(int r) { std::string s; for (int k = 6; k >= 0; --k) s += char('a' + ((r >> (2 * k)) & 3)); return s; }
inline V mkV(int id, const int* r) {
  V v; v.id = id;
  for (int i = 0; i < NC; ++i) v.r[i] = r[i];
  v.a = r[0]; v.s = mkstr(r[1]); v.b = r[2]; v.c = Key2{r[3]}; v.d = short(r[4]);
  v.i5 = r[5]; v.i6 = r[6]; v.i7 = r[7]; v.i8 = r[8]; v.i9 = r[9];
  return v;
}
}
inline bool std::greater<vf::Key2>::operator()(const vf::Key2& x, const vf::Key2& y) const { return y < x; }
namespace vf {
inline int rank(int x) { return x; }
inline int rank(long x) { return int(x); }
inline int rank(short x) { return x; }
inline int rank(const Key2& x) { return x.v; }
inline int rank(const std::string& s) { int r = 0; for (char ch : s) r = r * 4 + (ch - 'a'); return r; }
struct Rk { int v; };
inline int rank(const Rk& x) { return x.v; }

// component extractors
template <int> struct EX;
template <> struct EX<0> { typedef bmi::member<V, int, &V::a> type; typedef int T; static T mk(int r) { return r; } };
template <> struct EX<1> { typedef bmi::const_mem_fun<V, const std::string&, &V::str> type; typedef std::string T; static T mk(int r) { return mkstr(r); } };
template <> struct EX<2> { typedef bmi::global_fun<const V&, long, &fb> type; typedef long T; static T mk(int r) { return r; } };
template <> struct EX<3> { typedef bmi::member<V, Key2, &V::c> type; typedef Key2 T; static T mk(int r) { return Key2{r}; } };
template <> struct EX<4> { typedef bmi::member<V, short, &V::d> type; typedef short T; static T mk(int r) { return short(r); } };
template <> struct EX<5> { typedef bmi::member<V, int, &V::i5> type; typedef int T; static T mk(int r) { return r; } };
template <> struct EX<6> { typedef bmi::member<V, const int, (const int V::*)&V::i6> type; typedef int T; static T mk(int r) { return r; } };
template <> struct EX<7> { typedef bmi::member<V, int, &V::i7> type; typedef int T; static T mk(int r) { return r; } };
template <> struct EX<8> { typedef bmi::member<V, int, &V::i8> type; typedef int T; static T mk(int r) { return r; } };
template <> struct EX<9> { typedef bmi::member<V, int, &V::i9> type; typedef int T; static T mk(int r) { return r; } };

struct Cnt { static long& n() { static long c = 0; return c; } };
struct Cmp {
  bool desc; int coarse;
  Cmp(bool d = false, int c = 1) : desc(d), coarse(c) {}
  template <class A, class B> bool operator()(const A& a, const B& b) const { ++Cnt::n(); int x = rank(a) / coarse, y = rank(b) / coarse; return desc ? y < x : x < y; }
};
struct Eq {
  int coarse;
  explicit Eq(int c = 1) : coarse(c) {}
  template <class A, class B> bool operator()(const A& a, const B& b) const { ++Cnt::n(); return rank(a) / coarse == rank(b) / coarse; }
};
struct Hs {
  int coarse;
  explicit Hs(int c = 1) : coarse(c) {}
  template <class A> std::size_t operator()(const A& a) const { return std::size_t(rank(a) / coarse) * 2654435761u; }
};

template <class S> struct Types;
template <int... I> struct Types<std::integer_sequence<int, I...>> {
  typedef bmi::composite_key<V, typename EX<I>::type...> CK;
  typedef bmi::composite_key_compare<typename std::conditional<I >= 0, Cmp, void>::type...> CC;
  typedef bmi::composite_key_equal_to<typename std::conditional<I >= 0, Eq, void>::type...> CE;
  typedef bmi::composite_key_hash<typename std::conditional<I >= 0, Hs, void>::type...> CH;
  typedef bmi::composite_key_compare<std::less<typename EX<I>::T>...> SL;
  typedef std::tuple<typename EX<I>::T...> ST;
  typedef boost::tuple<typename EX<I>::T...> BT;
  typedef std::tuple<typename std::conditional<I >= 0, Rk, void>::type...> RST;
  typedef boost::tuple<typename std::conditional<I >= 0, Rk, void>::type...> RBT;
  static ST st(const int* r) { return ST(EX<I>::mk(r[I])...); }
  static BT bt(const int* r) { return BT(EX<I>::mk(r[I])...); }
  static RST rst(const int* r) { return RST(Rk{r[I]}...); }
  static RBT rbt(const int* r) { return RBT(Rk{r[I]}...); }
  static CC cc(const bool* d, const int* co) { return CC(Cmp(d[I], co[I])...); }
  static CE ce(const int* co) { return CE(Eq(co[I])...); }
  static CH ch(const int* co) { return CH(Hs(co[I])...); }
};
template <int K> using TY = Types<std::make_integer_sequence<int, K>>;
typedef TY<N> T;
typedef T::CK CK;
typedef CK::result_type CR;

typedef bmi::multi_index_container<V, bmi::indexed_by<
  bmi::ordered_non_unique<CK, T::CC>,
  bmi::ordered_non_unique<CK>,
  bmi::ranked_non_unique<CK, T::CC>,
  bmi::hashed_non_unique<CK, T::CH, T::CE>,
  bmi::hashed_non_unique<CK>,
  bmi::ordered_non_unique<CK, bmi::composite_key_result_greater<CR>>,
  bmi::ordered_non_unique<bmi::member<V, int, &V::id>>>> C;
typedef bmi::multi_index_container<V, bmi::indexed_by<bmi::ordered_unique<CK, T::CC>, bmi::hashed_unique<CK, T::CH, T::CE>>> CU;

// composite keys whose component extractors have a state
struct Nth { typedef int result_type; int n; Nth(int i = 0) : n(i) {} int operator()(const V& v) const { return v.r[n]; } };
template <class S> struct StTypes;
template <int... I> struct StTypes<std::integer_sequence<int, I...>> {
  typedef bmi::composite_key<V, typename std::conditional<I >= 0, Nth, void>::type...> CK;
  typedef std::tuple<typename std::conditional<I >= 0, int, void>::type...> ST;
  typedef boost::tuple<typename std::conditional<I >= 0, int, void>::type...> BT;
  static ST st(const int* r) { return ST(r[I]...); }
  static BT bt(const int* r) { return BT(r[I]...); }
  static CK ck(const int* p, bool tup) { if (tup) { typename CK::key_extractor_tuple t{Nth{p[I]}...}; return CK(t); } return CK(Nth(p[I])...); }
};
template <int K> using SY = StTypes<std::make_integer_sequence<int, K>>;
typedef SY<N>::CK SCK;
typedef bmi::multi_index_container<V, bmi::indexed_by<bmi::ordered_non_unique<SCK, T::CC>, bmi::hashed_non_unique<SCK, T::CH, T::CE>, bmi::ranked_non_unique<SCK>>> CS;

struct H {
  std::vector<V> vs;
  bool desc[NC]; int coarse[NC]; bool no[NC]; int one[NC];
  int dom;

  // three-way comparison of the first k components
  static int cmp(const int* x, const int* y, int k, const bool* d, const int* co) {
    for (int i = 0; i < k; ++i) { int a = x[i] / co[i], b = y[i] / co[i]; if (a != b) return (a < b) != d[i] ? -1 : 1; }
    return 0;
  }
  static int eqlen(const int* x, const int* y, int k, const int* co) { int i = 0; while (i < k && x[i] / co[i] == y[i] / co[i]) ++i; return i; }
  template <class F> static void withK(int k, F f) { withK_<1>(k, f); }
  template <int K, class F> static void withK_(int k, F& f) { if (k == K || K == N) f(std::integral_constant<int, K>()); else if constexpr (K < N) withK_<K + 1>(k, f); }

  template <class X, class Y> static void six(const char* w, const X& x, const Y& y, int c) {
    bool l = x < y, g = x > y, le = x <= y, ge = x >= y;
    if (l != (c < 0) || g != (c > 0) || le != (c <= 0) || ge != (c >= 0)) VF_FAIL(w, ": <,>,<=,>= are ", l, g, le, ge, ", expected order ", c);
    bool l2 = y < x, g2 = y > x, le2 = y <= x, ge2 = y >= x;
    if (l2 != (c > 0) || g2 != (c < 0) || le2 != (c >= 0) || ge2 != (c <= 0)) VF_FAIL(w, " (swapped): <,>,<=,>= are ", l2, g2, le2, ge2, ", expected order ", -c);
  }
  template <class X, class Y> static void two(const char* w, const X& x, const Y& y, bool e) {
    if ((x == y) != e || (y == x) != e || (x != y) == e || (y != x) == e) VF_FAIL(w, ": == or != is wrong, expected ", e);
  }
  template <class X, class Y> void ccmp(const char* w, const T::CC& f, const X& x, const Y& y, int c, int budget) const {
    Cnt::n() = 0;
    bool a = f(x, y); long n1 = Cnt::n(); Cnt::n() = 0;
    bool b = f(y, x); long n2 = Cnt::n();
    if (a != (c < 0) || b != (c > 0)) VF_FAIL("composite_key_compare ", w, ": gives ", a, " and swapped ", b, ", expected order ", c);
    if (n1 > budget || n2 > budget) VF_FAIL("composite_key_compare ", w, ": ", std::max(n1, n2), " component comparisons where ", budget, " decide");
  }
  template <class X, class Y> void ceq(const char* w, const T::CE& f, const X& x, const Y& y, bool e, int budget) const {
    Cnt::n() = 0;
    bool a = f(x, y); long n1 = Cnt::n(); Cnt::n() = 0;
    bool b = f(y, x); long n2 = Cnt::n();
    if (a != e || b != e) VF_FAIL("composite_key_equal_to ", w, ": gives ", a, " and swapped ", b, ", expected ", e);
    if (n1 > budget || n2 > budget) VF_FAIL("composite_key_equal_to ", w, ": ", std::max(n1, n2), " component comparisons where ", budget, " decide");
  }

  void pair(const V& x, const V& y) {
    CK ck;
    CR rx = ck(x), ry = ck(y);
    int c = cmp(x.r, y.r, N, no, one);
    six("composite_key_result", rx, ry, c);
    two("composite_key_result", rx, ry, c == 0);
    two("composite_key_result and boost::tuple", rx, T::bt(y.r), c == 0);
    two("composite_key_result and std::tuple", rx, T::st(y.r), c == 0);
    // one-directional ones
    typedef bmi::composite_key_result_less<CR> L; typedef bmi::composite_key_result_greater<CR> G; typedef bmi::composite_key_result_equal_to<CR> E; typedef bmi::composite_key_result_hash<CR> Hh;
    if (L()(rx, ry) != (c < 0) || G()(rx, ry) != (c > 0) || E()(rx, ry) != (c == 0)) VF_FAIL("composite_key_result_less/greater/equal_to is wrong");
    if (L()(rx, T::st(y.r)) != (c < 0) || G()(rx, T::st(y.r)) != (c > 0) || E()(rx, T::st(y.r)) != (c == 0) || L()(T::bt(x.r), ry) != (c < 0) || G()(T::bt(x.r), ry) != (c > 0) || E()(T::bt(x.r), ry) != (c == 0)) VF_FAIL("composite_key_result_less/greater/equal_to with a tuple is wrong");
    if (std::less<CR>()(rx, ry) != (c < 0) || std::greater<CR>()(rx, ry) != (c > 0) || std::equal_to<CR>()(rx, ry) != (c == 0)) VF_FAIL("std::less/greater/equal_to of composite keys is wrong");
    std::size_t h = Hh()(rx);
    if (h != boost::hash<CR>()(rx) || h != Hh()(T::st(x.r)) || h != Hh()(T::bt(x.r))) VF_FAIL("hash of a composite key differs between forms");
    if (c == 0 && Hh()(ry) != h) VF_FAIL("equal composite keys hash differently");
    // with component-wise function objects
    auto cc = T::cc(desc, coarse); auto ce = T::ce(coarse); auto ch = T::ch(coarse);
    int d = cmp(x.r, y.r, N, desc, coarse), el = eqlen(x.r, y.r, N, coarse);
    int bc = 2 * std::min(el + 1, N), be = std::min(el + 1, N);
    ccmp("of keys", cc, rx, ry, d, bc);
    ceq("of keys", ce, rx, ry, d == 0, be);
    ceq("of key and std::tuple", ce, rx, T::rst(y.r), d == 0, be);
    ceq("of key and boost::tuple", ce, rx, T::rbt(y.r), d == 0, be);
    ceq("of key and std::tuple of values", ce, rx, T::st(y.r), d == 0, be);
    std::size_t hx = ch(rx);
    if (hx != ch(T::st(x.r)) || hx != ch(T::bt(x.r)) || hx != ch(T::rst(x.r)) || hx != ch(T::rbt(x.r))) VF_FAIL("composite_key_hash differs between forms of a key");
    if (d == 0 && ch(ry) != hx) VF_FAIL("composite_key_hash of equivalent keys differs");
    if (c == 0) VF_HIT("equal keys"); else if (eqlen(x.r, y.r, N, one) > 0) VF_HIT("keys with a common prefix");
    if (d == 0 && c != 0) VF_HIT("keys equivalent under coarse components");
  }
  void prefix(const V& x, const V& y, int k) {
    CK ck;
    CR rx = ck(x);
    withK(k, [&](auto Kc) {
      constexpr int K = decltype(Kc)::value;
      int c = cmp(x.r, y.r, K, no, one);
      typename TY<K>::CK pk;
      six("composite_key_result and shorter one", rx, pk(y), c);
      six("composite_key_result and boost::tuple", rx, TY<K>::bt(y.r), c);
      six("composite_key_result and std::tuple", rx, TY<K>::st(y.r), c);
      if constexpr (K > 1) {  // keys shorter than the tuple
        typename TY<1>::CK k1;
        six("short composite_key_result and std::tuple", k1(x), TY<K>::st(y.r), cmp(x.r, y.r, 1, no, one));
        six("short composite_key_result and boost::tuple", k1(x), TY<K>::bt(y.r), cmp(x.r, y.r, 1, no, one));
      }
      auto cc = T::cc(desc, coarse);
      int d = cmp(x.r, y.r, K, desc, coarse), bc = 2 * std::min(eqlen(x.r, y.r, K, coarse) + 1, K);
      ccmp("with a shorter key", cc, rx, pk(y), d, bc);
      ccmp("with std::tuple", cc, rx, TY<K>::st(y.r), d, bc);
      ccmp("with boost::tuple", cc, rx, TY<K>::bt(y.r), d, bc);
      ccmp("with std::tuple of compatible values", cc, rx, TY<K>::rst(y.r), d, bc);
      ccmp("with boost::tuple of compatible values", cc, rx, TY<K>::rbt(y.r), d, bc);
      int d1 = cmp(x.r, y.r, 1, desc, coarse);
      ccmp("with a single value", cc, rx, y.a, d1, 2);
      ccmp("with a single compatible value", cc, rx, Rk{y.r[0]}, d1, 2);
      T::SL sl;
      int c1 = cmp(x.r, y.r, 1, no, one);
      if (sl(rx, y.a) != (c1 < 0) || sl(y.a, rx) != (c1 > 0) || sl(rx, TY<K>::st(y.r)) != (c < 0) || sl(TY<K>::bt(y.r), rx) != (c > 0)) VF_FAIL("composite_key_compare<less...> is wrong");
      if (c == 0 && K < N && cmp(x.r, y.r, N, no, one) != 0) VF_HIT("prefix matches, key differs");
      if (d == 0 && K < N) VF_HIT("prefix equivalent");
    });
  }
  void chain(V& x) {
    CK ck;
    V* p = &x; const V* cp = &x; V** pp = &p; std::shared_ptr<V> sp(&x, [](V*) {}); std::shared_ptr<V>* spp = &sp; const std::unique_ptr<const V*> up(new const V*(cp));
    auto t = T::st(x.r);
    if (!(ck(p) == t) || !(ck(cp) == t) || !(ck(pp) == t) || !(ck(sp) == t) || !(ck(spp) == t) || !(ck(up) == t) || !(ck(boost::ref(x)) == t) || !(ck(boost::cref(x)) == t)) VF_FAIL("composite key extracted through a pointer chain is wrong");
    if (&ck(pp).value != &x || &ck(boost::ref(x)).value != &x) VF_FAIL("composite key result refers to another object");
    VF_FEAT("extraction through chains");
  }

  // two composite keys whose extractors designate different components
  void states(const V& x, const V& y, int k, uint32_t seed) {
    Rng r(seed);
    int p0[NC], p1[NC], a[NC], b[NC];
    bool dup = r.chance(1, 3);
    for (int i = 0; i < NC; ++i) { p0[i] = int(r.below(NC)); p1[i] = dup ? p0[i] : int(r.below(NC)); a[i] = x.r[p0[i]]; b[i] = y.r[p1[i]]; }
    SCK c0 = SY<N>::ck(p0, r.chance(1, 2)), c1 = SY<N>::ck(p1, r.chance(1, 2));
    if (boost::tuples::get<0>(static_cast<const SCK&>(c0).key_extractors()).n != p0[0] || boost::tuples::get<N - 1>(c1.key_extractors()).n != p1[N - 1]) VF_FAIL("key_extractors() of a composite key");
    auto rx = c0(x), ry = c1(y);
    int c = cmp(a, b, N, no, one), d = cmp(a, b, N, desc, coarse), el = eqlen(a, b, N, coarse);
    six("results of composite keys with extractors of different state", rx, ry, c);
    two("results of composite keys with extractors of different state", rx, ry, c == 0);
    two("result with stateful extractors and std::tuple", rx, SY<N>::st(b), c == 0);
    auto cc = T::cc(desc, coarse); auto ce = T::ce(coarse); auto ch = T::ch(coarse);
    ccmp("with extractors of different state", cc, rx, ry, d, 2 * std::min(el + 1, N));
    ceq("with extractors of different state", ce, rx, ry, d == 0, std::min(el + 1, N));
    if (ch(rx) != ch(SY<N>::st(a)) || ch(rx) != ch(SY<N>::bt(a)) || (d == 0 && ch(ry) != ch(rx))) VF_FAIL("hash of a composite key with stateful extractors");
    typedef typename SCK::result_type R;
    if (bmi::composite_key_result_less<R>()(rx, ry) != (c < 0) || bmi::composite_key_result_greater<R>()(rx, ry) != (c > 0) || bmi::composite_key_result_equal_to<R>()(rx, ry) != (c == 0)) VF_FAIL("composite_key_result_less/greater/equal_to with extractors of different state");
    withK(k, [&](auto Kc) {
      constexpr int K = decltype(Kc)::value;
      auto ck = SY<K>::ck(p1, r.chance(1, 2));
      int cp = cmp(a, b, K, no, one);
      six("result and shorter one with extractors of different state", rx, ck(y), cp);
      six("result and std::tuple, stateful", rx, SY<K>::st(b), cp);
      six("result and boost::tuple, stateful", rx, SY<K>::bt(b), cp);
      ccmp("with a shorter key, stateful", cc, rx, ck(y), cmp(a, b, K, desc, coarse), 2 * std::min(eqlen(a, b, K, coarse) + 1, K));
    });
    if (c != 0 && eqlen(a, b, N, one) > 0) VF_HIT("keys of composite keys of different state with a common prefix");
    if (r.chance(1, 4)) {
      auto mk = [&](const SCK& ck) { return CS(boost::make_tuple(boost::make_tuple(ck, cc), boost::make_tuple(0u, ck, ch, ce), boost::make_tuple(ck, std::less<R>()))); };
      CS u(mk(c0)), w(mk(c1));
      for (auto& v : vs) { u.insert(v); if (r.chance(1, 2)) w.insert(v); }
      switch (r.below(4)) { case 0: u.swap(w); u.swap(w); break; case 1: { CS t(u); u = t; break; } case 2: { CS t(std::move(u)); u = std::move(t); break; } default: break; }
      auto sorted = [&](const auto& ix, const bool* ds, const int* co) {
        const V* l = nullptr;
        for (auto& v : ix) {
          if (l) { int e[NC], f[NC]; for (int i = 0; i < NC; ++i) { e[i] = l->r[p0[i]]; f[i] = v.r[p0[i]]; } if (cmp(e, f, N, ds, co) > 0) VF_FAIL("index with stateful composite key is not sorted"); }
          l = &v;
        }
      };
      sorted(u.get<0>(), desc, coarse); sorted(u.get<2>(), no, one);
      std::size_t eq = 0, eq1 = 0;
      for (auto& v : vs) { int e[NC]; for (int i = 0; i < NC; ++i) e[i] = v.r[p0[i]]; eq += eqlen(e, b, N, coarse) == N; eq1 += eqlen(e, b, N, one) == N; }
      // looked up by the key another composite key gives
      if (u.get<0>().count(ry) != eq || u.get<1>().count(ry) != eq || u.get<1>().count(SY<N>::st(b)) != eq || u.get<0>().count(SY<N>::bt(b)) != eq || u.get<2>().count(ry) != eq1) VF_FAIL("lookup in an index with stateful composite key");
      if (boost::tuples::get<0>(u.get<1>().key_extractor().key_extractors()).n != p0[0]) VF_FAIL("key_extractor() of an index with stateful composite key");
      std::size_t n = u.size(), m = w.size();
      for (auto it = w.begin(); it != w.end();) { auto nx = std::next(it); V cp = *it; w.erase(it); cp.id += 1000; u.insert(std::move(cp)); it = nx; }
      if (u.size() != n + m) VF_FAIL("size after transfer");
      sorted(u.get<0>(), desc, coarse); sorted(u.get<2>(), no, one);
      VF_HIT("container with a stateful composite key");
    }
  }

  template <class Ix> static std::vector<int> ids(const Ix& ix, typename Ix::const_iterator f, typename Ix::const_iterator l) { std::vector<int> v; for (; f != l; ++f) { v.push_back(f->id); if (v.size() > 100000) break; } (void)ix; return v; }
  // lookups of ordered index ix (sequence o of positions in vs) with x standing for the first k ranks of q
  template <class Ix, class X> void look(const char* w, const Ix& ix, const std::vector<const V*>& o, const X& x, const int* q, int k, const bool* d, const int* co) {
    std::size_t lo = 0, hi;
    while (lo < o.size() && cmp(o[lo]->r, q, k, d, co) < 0) ++lo;
    hi = lo;
    while (hi < o.size() && cmp(o[hi]->r, q, k, d, co) == 0) ++hi;
    auto pos = [&](typename Ix::const_iterator it) { return std::size_t(std::distance(ix.begin(), it)); };
    auto er = ix.equal_range(x);
    if (pos(ix.lower_bound(x)) != lo || pos(ix.upper_bound(x)) != hi || pos(er.first) != lo || pos(er.second) != hi || ix.count(x) != hi - lo || ix.contains(x) != (hi > lo)) VF_FAIL(w, " lookup with the first ", k, " components selects the wrong range");
    auto f = ix.find(x);
    if (hi == lo ? f != ix.end() : f == ix.end() || pos(f) < lo || pos(f) >= hi) VF_FAIL(w, " find with the first ", k, " components is wrong");
    if (hi - lo > 1 && k < N) VF_HIT("prefix lookup selecting several elements");
  }
  template <class Ix, class X> void lookH(const char* w, const Ix& ix, const X& x, const int* q, const int* co) {
    std::vector<int> e;
    for (auto& v : vs) if (eqlen(v.r, q, N, co) == N) e.push_back(v.id);
    auto er = ix.equal_range(x);
    auto g = ids(ix, er.first, er.second);
    std::sort(g.begin(), g.end()); std::sort(e.begin(), e.end());
    if (g != e || ix.count(x) != e.size() || ix.contains(x) != !e.empty() || (ix.find(x) != ix.end()) != !e.empty()) VF_FAIL(w, " hashed lookup with a full tuple selects the wrong elements");
    if (e.size() > 1) VF_HIT("full lookup selecting several elements");
  }
  std::vector<const V*> order(const bool* d, const int* co) {
    std::vector<const V*> o;
    for (auto& v : vs) o.push_back(&v);
    std::stable_sort(o.begin(), o.end(), [&](const V* a, const V* b) { return cmp(a->r, b->r, N, d, co) < 0; });
    return o;
  }
  template <class Ix> static void same(const char* w, const Ix& ix, const std::vector<const V*>& o) {
    auto g = ids(ix, ix.begin(), ix.end());
    std::vector<int> e;
    for (auto v : o) e.push_back(v->id);
    if (g != e) VF_FAIL(w, " is not sorted by the composite key");
  }
  std::unique_ptr<C> c; std::vector<const V*> oDyn, oSt, oGr;
  void build() {
    CK ck;
    typename C::ctor_args_list args = boost::make_tuple(
      boost::make_tuple(ck, T::cc(desc, coarse)), C::nth_index<1>::type::ctor_args(), boost::make_tuple(ck, T::cc(desc, coarse)),
      boost::make_tuple(0u, ck, T::ch(coarse), T::ce(coarse)), C::nth_index<4>::type::ctor_args(), C::nth_index<5>::type::ctor_args(), C::nth_index<6>::type::ctor_args());
    c.reset(new C(args));
    for (auto& v : vs) c->insert(v);
    static const bool allDesc[NC] = {true, true, true, true, true, true, true, true, true, true};
    oDyn = order(desc, coarse); oSt = order(no, one); oGr = order(allDesc, one);
    same("ordered index with component comparisons", c->get<0>(), oDyn);
    same("ordered index", c->get<1>(), oSt);
    same("ranked index with component comparisons", c->get<2>(), oDyn);
    same("ordered index with greater", c->get<5>(), oGr);
    // unique ones accept one element per equivalence class
    CU u(boost::make_tuple(boost::make_tuple(ck, T::cc(desc, coarse)), boost::make_tuple(0u, ck, T::ch(coarse), T::ce(coarse))));
    std::size_t n = 0;
    for (std::size_t i = 0; i < vs.size(); ++i) {
      bool first = true;
      for (std::size_t j = 0; j < i; ++j) if (eqlen(vs[i].r, vs[j].r, N, coarse) == N) first = false;
      bool in = u.insert(vs[i]).second;
      if (in != first) VF_FAIL("unique composite-key index ", in ? "accepts an equivalent key" : "refuses a new key");
      n += in;
    }
    if (u.size() != n || u.get<1>().size() != n) VF_FAIL("size of unique composite-key container is wrong");
  }
  void lookups(const V& q, int k) {
    static const bool allDesc[NC] = {true, true, true, true, true, true, true, true, true, true};
    withK(k, [&](auto Kc) {
      constexpr int K = decltype(Kc)::value;
      look("ordered (std::tuple)", c->get<0>(), oDyn, TY<K>::st(q.r), q.r, K, desc, coarse);
      look("ordered (boost::tuple)", c->get<0>(), oDyn, TY<K>::bt(q.r), q.r, K, desc, coarse);
      look("ordered (compatible std::tuple)", c->get<0>(), oDyn, TY<K>::rst(q.r), q.r, K, desc, coarse);
      look("ordered, default comparison (std::tuple)", c->get<1>(), oSt, TY<K>::st(q.r), q.r, K, no, one);
      look("ordered, default comparison (boost::tuple)", c->get<1>(), oSt, TY<K>::bt(q.r), q.r, K, no, one);
      look("ordered, greater (std::tuple)", c->get<5>(), oGr, TY<K>::st(q.r), q.r, K, allDesc, one);
      look("ranked (std::tuple)", c->get<2>(), oDyn, TY<K>::st(q.r), q.r, K, desc, coarse);
      look("ranked (compatible boost::tuple)", c->get<2>(), oDyn, TY<K>::rbt(q.r), q.r, K, desc, coarse);
      auto& rk = c->get<2>();
      auto rr = rk.equal_range_rank(TY<K>::st(q.r)); auto er = rk.equal_range(TY<K>::st(q.r));
      if (rr.first != rk.rank(er.first) || rr.second != rk.rank(er.second)) VF_FAIL("equal_range_rank with a prefix is wrong");
    });
    look("ordered (single value)", c->get<0>(), oDyn, q.a, q.r, 1, desc, coarse);
    look("ranked (single value)", c->get<2>(), oDyn, Rk{q.r[0]}, q.r, 1, desc, coarse);
    CK ck;
    look("ordered (key)", c->get<0>(), oDyn, ck(q), q.r, N, desc, coarse);
    look("ordered, default comparison (key)", c->get<1>(), oSt, ck(q), q.r, N, no, one);
    lookH("std::tuple", c->get<3>(), T::st(q.r), q.r, coarse);
    lookH("boost::tuple", c->get<3>(), T::bt(q.r), q.r, coarse);
    lookH("compatible std::tuple", c->get<3>(), T::rst(q.r), q.r, coarse);
    lookH("compatible boost::tuple", c->get<3>(), T::rbt(q.r), q.r, coarse);
    lookH("key", c->get<3>(), ck(q), q.r, coarse);
    lookH("default, std::tuple", c->get<4>(), T::st(q.r), q.r, one);
    lookH("default, boost::tuple", c->get<4>(), T::bt(q.r), q.r, one);
    lookH("default, key", c->get<4>(), ck(q), q.r, one);
  }
  void ranges(const V& a, const V& b, int k) {
    withK(k, [&](auto Kc) {
      constexpr int K = decltype(Kc)::value;
      auto cc = T::cc(desc, coarse);
      auto ta = TY<K>::rst(a.r); auto tb = TY<K>::rst(b.r);
      // bounds by comparison of elements with the tuples
      auto& ix = c->get<0>();
      auto r = ix.range([&](const CR& x) { return !cc(x, ta); }, [&](const CR& x) { return !cc(tb, x); });
      std::vector<int> e;
      for (auto v : oDyn) if (cmp(v->r, a.r, K, desc, coarse) >= 0 && cmp(v->r, b.r, K, desc, coarse) <= 0) e.push_back(v->id);
      if (cmp(a.r, b.r, K, desc, coarse) <= 0 && ids(ix, r.first, r.second) != e) VF_FAIL("range() between two prefixes is wrong");
      if (e.size() > 1) VF_HIT("range between prefixes");
    });
  }
  bool wide = false;
  // the value of component i: with wide components from the whole range of int
  int val(int i, int x) const {
    if (!wide || i == 1 || i == 4) return x;
    switch (x) { case 0: return INT_MIN; case 1: return INT_MAX; case 2: return -1; case 3: return 0; case 4: return INT_MIN + 1; case 5: return INT_MAX - 1; default: return int(uint32_t(x) * 2654435761u); }
  }
  void rekey(Rng& r) {
    // modify all components of an element: its position follows
    std::size_t p = r.below(uint32_t(vs.size()));
    int q[NC]; for (int i = 0; i < NC; ++i) q[i] = r.chance(1, 2) ? vs[p].r[i] : val(i, int(r.below(uint32_t(dom))));
    V nv = mkV(vs[p].id, q);
    auto it = c->get<6>().find(vs[p].id);
    c->get<6>().modify(it, [&](V& x) { x = nv; });
    vs[p] = nv;
    auto chk = [&](const char* w, auto& ix, const bool* d, const int* co) {
      std::vector<int> g = ids(ix, ix.begin(), ix.end());
      if (g.size() != vs.size()) VF_FAIL(w, ": size after modify is wrong");
      for (std::size_t i = 1; i < g.size(); ++i) if (cmp(vs[size_t(g[i - 1])].r, vs[size_t(g[i])].r, N, d, co) > 0) VF_FAIL(w, " is not sorted after modify");
      std::vector<const V*> o; for (int id : g) o.push_back(&vs[size_t(id)]);
      return o;
    };
    static const bool allDesc[NC] = {true, true, true, true, true, true, true, true, true, true};
    oDyn = chk("ordered index", c->get<0>(), desc, coarse);
    oSt = chk("ordered index, default comparison", c->get<1>(), no, one);
    auto o2 = chk("ranked index", c->get<2>(), desc, coarse); (void)o2;
    oGr = chk("ordered index, greater", c->get<5>(), allDesc, one);
    VF_FEAT("element re-keyed");
  }
  void run(const Case& cs) {
    Rng r(cs.p(0));
    dom = int(cs.p(1)) % 40 + 1;
    int n = int(cs.p(2)) % 60 + 1;
    wide = cs.p(6) % 3 == 1;
    for (int i = 0; i < NC; ++i) { no[i] = false; one[i] = 1; desc[i] = (cs.p(3) >> i) & 1; coarse[i] = (cs.p(4) >> i) & 1 ? 1 : 2 + int((cs.p(5) >> i) & 1); }
    auto mk = [&](int id) {
      int q[NC];
      bool from = !vs.empty() && r.chance(1, 2);
      const V* b = from ? &vs[r.below(uint32_t(vs.size()))] : nullptr;
      int keep = from ? int(r.below(N + 1)) : 0;
      for (int i = 0; i < NC; ++i) q[i] = i < keep ? b->r[i] : val(i, int(r.below(uint32_t(dom))));
      return mkV(id, q);
    };
    for (int i = 0; i < n; ++i) vs.push_back(mk(i));
    build();
    for (auto& o : cs.ops) {
      V tmp = mk(-1);
      V& x = vs[o.a[0] % vs.size()];
      const V& y = o.a[3] % 3 == 0 ? tmp : vs[o.a[1] % vs.size()];
      int k = 1 + int(o.a[2] % N);
      switch (o.k) {
        case 0: pair(x, y); break;
        case 1: prefix(x, y, k); break;
        case 2: lookups(y, k); break;
        case 3: ranges(x, y, k); break;
        case 4: chain(x); break;
        case 6: states(x, y, k, o.a[4]); break;
        default: { Rng q(o.a[4]); rekey(q); }
      }
    }
  }
};
// C++17 key<> composes the same key
template <class> struct SameKey;
typedef bmi::key<&V::a, &V::str, &fb> K3;
static_assert(std::is_same<K3, TY<3>::CK>::value, "key<> with several arguments is the composite key of its arguments");

static Case gen(Rng& r, int size) {
  Case c;
  c.P = {uint32_t(r.next() & 0xffffff), r.below(3) ? r.below(5) : r.below(40), r.below(uint32_t(20 + size / 2)), uint32_t(r.next() & 0xffffff), uint32_t(r.next() & 0xffffff), uint32_t(r.next() & 0xffffff), r.below(6)};
  int n = 6 + int(r.below(24));
  for (int i = 0; i < n; ++i) { Op o; o.k = r.below(13); if (o.k > 10) o.k = 6; else o.k = o.k < 3 ? 0 : o.k < 6 ? 1 : o.k < 8 ? 2 : o.k < 9 ? 3 : o.k < 10 ? 5 : 4; for (auto& a : o.a) a = uint32_t(r.next() & 0xffffff); c.ops.push_back(o); }
  return c;
}
static std::string show(const Case& c) {
  static const char* n[] = {"compare", "prefix", "lookup", "range", "chain", "rekey", "stateful extractors"};
  std::string s = cat("composite key of ", N, " components, ", c.p(2) % 60 + 1, " elements over ", c.p(1) % 40 + 1, " values per component:");
  for (auto& o : c.ops) s += cat(" ", n[std::min(o.k, 6u)], "(", o.a[0], ",", o.a[1], ",", 1 + o.a[2] % N, ")");
  return s;
}
}
int main(int argc, char** argv) {
  vf::Harness h;
  h.name = VF_NAME; h.gen = vf::gen; h.show = vf::show; h.nontrivial_threshold = 3;
  h.run = [](const vf::Case& c) { auto* x = new vf::H; x->run(c); delete x; };
  return vf::worker_main(argc, argv, h);
}
