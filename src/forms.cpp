// Alternative forms of an operation have equal effects: two containers are kept in lockstep, each
// operation is executed on the one in one documented form and on the other in another (overloads,
// convenience functions, equivalent sequences of calls, access by number or tag, through any index),
// then results and complete contents are compared.  Element types: integers, strings (transparent
// and plain predicates, looked up with other types), records, move-only pointers.
#include "core.hpp"
#include <list>
#include <memory>
#include <optional>
#include <string_view>
#define BOOST_MULTI_INDEX_DISABLE_SERIALIZATION
#ifdef VF_SAFE
#define BOOST_MULTI_INDEX_ENABLE_SAFE_MODE
#define BOOST_MULTI_INDEX_ENABLE_INVARIANT_CHECKING
#endif
#include <boost/multi_index_container.hpp>
#include <boost/multi_index/composite_key.hpp>
#include <boost/multi_index/hashed_index.hpp>
#include <boost/multi_index/identity.hpp>
#include <boost/multi_index/key.hpp>
#include <boost/multi_index/mem_fun.hpp>
#include <boost/multi_index/member.hpp>
#include <boost/multi_index/ordered_index.hpp>
#include <boost/multi_index/random_access_index.hpp>
#include <boost/multi_index/ranked_index.hpp>
#include <boost/multi_index/sequenced_index.hpp>
#include <boost/tuple/tuple.hpp>
namespace vf {
namespace bmi = boost::multi_index;
template <int N> struct T {};

#if VF_CFG == 0  // distinct integers
typedef int V;
#define ARGS(s) num(s)
static int num(uint32_t s) { return int(s % 24); }
static V mk(uint32_t s) { return num(s); }
static std::string str(const V& v) { return std::to_string(v); }
typedef bmi::indexed_by<bmi::ordered_unique<bmi::tag<T<0>, T<10>>, bmi::identity<int>>, bmi::sequenced<bmi::tag<T<1>>>, bmi::hashed_unique<bmi::tag<T<2>, T<12>>, bmi::identity<int>>, bmi::random_access<bmi::tag<T<3>>>, bmi::ranked_unique<bmi::tag<T<4>>, bmi::identity<int>, std::less<>>> IB;
static void assignTo(V& v, uint32_t s) { v = num(s); }
#elif VF_CFG == 1  // repeated integers
typedef long V;
#define ARGS(s) num(s)
static long num(uint32_t s) { return long(s % 16) - 8; }
static V mk(uint32_t s) { return num(s); }
static std::string str(const V& v) { return std::to_string(v); }
typedef bmi::indexed_by<bmi::random_access<bmi::tag<T<0>>>, bmi::ranked_non_unique<bmi::tag<T<1>>, bmi::identity<long>>, bmi::hashed_non_unique<bmi::tag<T<2>>, bmi::identity<long>>, bmi::sequenced<bmi::tag<T<3>>>, bmi::ordered_non_unique<bmi::tag<T<4>>, bmi::identity<long>, std::greater<long>>> IB;
static void assignTo(V& v, uint32_t s) { v = num(s); }
#elif VF_CFG == 2  // strings
typedef std::string V;
static std::string num(uint32_t s) { return std::string("k") + char('a' + s % 5) + std::string((s / 5) % 3, 'x') + ((s & 64) ? "a rather long tail for the heap" : ""); }
#define ARGS(s) num(s).c_str()
static V mk(uint32_t s) { return num(s); }
static std::string str(const V& v) { return v; }
struct SH { typedef void is_transparent; std::size_t operator()(std::string_view x) const { return std::hash<std::string_view>()(x) % 61; } };
struct SE { bool operator()(std::string_view x, std::string_view y) const { return x == y; } };
typedef bmi::indexed_by<bmi::sequenced<bmi::tag<T<0>>>, bmi::ordered_non_unique<bmi::tag<T<1>>, bmi::identity<std::string>, std::less<>>, bmi::hashed_non_unique<bmi::tag<T<2>>, bmi::identity<std::string>, SH, SE>, bmi::ranked_non_unique<bmi::tag<T<3>>, bmi::identity<std::string>, std::less<std::string>>, bmi::random_access<bmi::tag<T<4>>>> IB;
static void assignTo(V& v, uint32_t s) { v = num(s); }
#elif VF_CFG == 3  // records
struct Rec {
  std::string name; int age; double w;
  Rec() : age(0), w(0) {}
  Rec(std::string n, int a, double x) : name(std::move(n)), age(a), w(x) {}
  const std::string& nm() const { return name; }
  bool operator==(const Rec& r) const { return name == r.name && age == r.age; }
  bool operator<(const Rec& r) const { return age < r.age; }
};
typedef Rec V;
static std::string num(uint32_t s) { return "n" + std::to_string(s % 40); }
#define ARGS(s) num(s), int((s / 40) % 6), double(s % 3)
static V mk(uint32_t s) { return V(ARGS(s)); }
static std::string str(const V& v) { return v.name + "/" + std::to_string(v.age) + "/" + std::to_string(int(v.w)); }
typedef bmi::indexed_by<bmi::hashed_unique<bmi::tag<T<0>>, bmi::member<Rec, std::string, &Rec::name>>, bmi::ranked_non_unique<bmi::tag<T<1>>, bmi::member<Rec, int, &Rec::age>, std::greater<int>>, bmi::sequenced<bmi::tag<T<2>>>, bmi::ordered_unique<bmi::tag<T<3>>, bmi::const_mem_fun<Rec, const std::string&, &Rec::nm>>, bmi::random_access<bmi::tag<T<4>>>> IB;
static void assignTo(V& v, uint32_t s) { v = mk(s); }
#else  // move-only
struct Rec { std::string name; int age; Rec(std::string n, int a) : name(std::move(n)), age(a) {} };
struct V {
  std::unique_ptr<Rec> p;
  explicit V(std::unique_ptr<Rec> q) : p(std::move(q)) {}
  V(std::string n, int a) : p(new Rec(std::move(n), a)) {}
  V(V&& x) noexcept : p(std::move(x.p)) {}
  V& operator=(V&& x) noexcept { p = std::move(x.p); return *this; }
  int age() const { return p ? p->age : -1; }
  bool operator==(const V& v) const { return p->name == v.p->name && p->age == v.p->age; }
  bool operator<(const V& v) const { return p->age < v.p->age; }
};
static std::string num(uint32_t s) { return "n" + std::to_string(s % 40); }
#define ARGS(s) num(s), int((s / 40) % 6)
static V mk(uint32_t s) { return V(ARGS(s)); }
static std::string str(const V& v) { return v.p ? v.p->name + "/" + std::to_string(v.p->age) : "null"; }
struct KN { typedef std::string result_type; const std::string& operator()(const V& v) const { return v.p->name; } };
typedef bmi::indexed_by<bmi::ordered_unique<bmi::tag<T<0>>, KN>, bmi::hashed_non_unique<bmi::tag<T<1>>, bmi::const_mem_fun<V, int, &V::age>>, bmi::sequenced<bmi::tag<T<2>>>, bmi::random_access<bmi::tag<T<3>>>, bmi::ranked_non_unique<bmi::tag<T<4>>, bmi::const_mem_fun<V, int, &V::age>>> IB;
static void assignTo(V& v, uint32_t s) { v = mk(s); }
#endif
constexpr bool CPY = std::is_copy_constructible_v<V>;
typedef bmi::multi_index_container<V, IB> C;
constexpr int NI = 5;

template <class X, class = void> struct isHsh : std::false_type {};
template <class X> struct isHsh<X, std::void_t<decltype(std::declval<const X&>().bucket_count())>> : std::true_type {};
template <class X, class = void> struct isOrd : std::false_type {};
template <class X> struct isOrd<X, std::void_t<decltype(std::declval<const X&>().key_comp())>> : std::true_type {};
template <class X, class = void> struct isRnk : std::false_type {};
template <class X> struct isRnk<X, std::void_t<decltype(std::declval<const X&>().find_rank(std::declval<typename X::key_type>()))>> : std::true_type {};
template <class X, class = void> struct isRa : std::false_type {};
template <class X> struct isRa<X, std::void_t<decltype(std::declval<const X&>().capacity())>> : std::true_type {};
template <class X> constexpr bool isLst() { return !isHsh<X>::value && !isOrd<X>::value; }
#if VF_CFG == 0
constexpr bool UQ[NI] = {true, false, true, false, true};
#elif VF_CFG == 1 || VF_CFG == 2
constexpr bool UQ[NI] = {};
#elif VF_CFG == 3
constexpr bool UQ[NI] = {true, false, false, true, false};
#else
constexpr bool UQ[NI] = {true, false, false, false, false};
#endif

template <int N> using IX = typename bmi::nth_index<C, N>::type;

// access to index N by number or tag, as a member or through the free functions
template <int N> IX<N>& ix(C& c, uint32_t how) {
  switch (how % 4) {
    case 0: return c.template get<N>();
    case 1: return bmi::get<N>(c);
    case 2: return c.template get<T<N>>();
    default: return bmi::get<T<N>>(c);
  }
}
template <int N> const IX<N>& cix(const C& c, uint32_t how) {
  switch (how % 4) {
    case 0: return c.template get<N>();
    case 1: return bmi::get<N>(c);
    case 2: return c.template get<T<N>>();
    default: return bmi::get<T<N>>(c);
  }
}
template <class F> void pick(uint32_t i, F&& f) {
  switch (i % NI) {
    case 0: f(std::integral_constant<int, 0>()); break;
    case 1: f(std::integral_constant<int, 1>()); break;
    case 2: f(std::integral_constant<int, 2>()); break;
    case 3: f(std::integral_constant<int, 3>()); break;
    default: f(std::integral_constant<int, 4>()); break;
  }
}
template <class I> auto at(I& i, std::size_t p) { auto it = i.begin(); std::advance(it, p); return it; }
template <class I, class F, class L> std::string seq(const I&, F f, L l) { std::string s; for (; f != l; ++f) s += str(*f) + ","; return s; }

template <int N> bool clash1(const C& c, const V& v) {
  if constexpr (UQ[N]) { auto& i = c.template get<N>(); return i.find(i.key_extractor()(v)) != i.end(); } else return false;
}
// would a unique index refuse v?
static bool clash(const C& c, const V& v) { return clash1<0>(c, v) || clash1<1>(c, v) || clash1<2>(c, v) || clash1<3>(c, v) || clash1<4>(c, v); }
// an element of c equal to v, or v: arguments may refer to elements of the container
static const V& own(const C& c, const V& v);
constexpr int LI = isLst<typename bmi::nth_index<C, 0>::type>() ? 0 : isLst<typename bmi::nth_index<C, 1>::type>() ? 1 : isLst<typename bmi::nth_index<C, 2>::type>() ? 2 : 3;

static const V& own(const C& c, const V& v) {
  for (auto& x : c.template get<LI>()) if (str(x) == str(v)) { VF_FEAT("argument refers to an element of the container"); return x; }
  return v;
}
static std::string digest(const C& c) {
  std::string s = "size " + std::to_string(c.size());
  auto one = [&](auto n) {
    constexpr int N = decltype(n)::value;
    const IX<N>& i = c.template get<N>();
    std::vector<std::string> v;
    for (auto it = i.begin(); it != i.end(); ++it) v.push_back(str(*it));
    if constexpr (isHsh<IX<N>>::value) {
      // equivalent elements must be adjacent
      std::size_t groups = 0;
      for (auto it = i.begin(); it != i.end();) { auto k = i.key_extractor()(*it); ++groups; auto r = i.equal_range(k); if (r.first != it) VF_FAIL("group of equivalent elements does not start where first met"); it = r.second; }
      std::sort(v.begin(), v.end());
      v.push_back("groups " + std::to_string(groups));
    }
    s += " [";
    for (auto& x : v) s += x + ",";
    s += "]";
  };
  one(std::integral_constant<int, 0>()); one(std::integral_constant<int, 1>()); one(std::integral_constant<int, 2>()); one(std::integral_constant<int, 3>()); one(std::integral_constant<int, 4>());
  return s;
}

// the source of other key types
template <class K, class F> void alts(const K& k, F&& f) {  // all types with which key k can be looked up
  f(k);
  if constexpr (std::is_integral_v<K>) { f(int(k)); f(long(k)); f(short(k)); f((long long)k); f(double(k)); f((signed char)k); }
  if constexpr (std::is_same_v<K, std::string>) { f(k.c_str()); f(std::ref(k).get()); }
}
template <class K, class F> void altsT(const K& k, F&& f) {  // with transparent predicates
  alts(k, f);
  if constexpr (std::is_same_v<K, std::string>) f(std::string_view(k));
}
struct Src { uint32_t s; };
// a single-pass iterator producing values
struct InIt {
  typedef std::input_iterator_tag iterator_category; typedef V value_type; typedef std::ptrdiff_t difference_type; typedef V* pointer; typedef V reference;
  const std::vector<uint32_t>* v; std::size_t i;
  V operator*() const { return mk((*v)[i]); }
  InIt& operator++() { ++i; return *this; }
  InIt operator++(int) { InIt t = *this; ++i; return t; }
  bool operator==(const InIt& x) const { return i == x.i; }
  bool operator!=(const InIt& x) const { return i != x.i; }
};
static std::vector<V> vals(const std::vector<uint32_t>& s) { std::vector<V> v; for (auto x : s) v.push_back(mk(x)); return v; }

typedef std::optional<std::string> Res;
template <class P> std::string rs(const P& p) { return str(*p.first) + (p.second ? "+" : "-"); }
struct Args { uint32_t a, b, c; };
enum { O_PUSH, O_INSN, O_INSR, O_ASSIGN, O_RESIZE, O_POP, O_REMOVE, O_UNIQUE, O_SORT, O_REV, O_LMERGE, O_SPLICE, O_SPLICE1, O_RELOC, O_KINS, O_KRANGE, O_KERASE, O_IERASE, O_LOOK, O_KMERGE, O_MODIFY, O_RANGE, O_POS, O_COPY, O_CLEAR, O_CMP, O_PROJ, O_ITER, O_NODE, O_SWAP, O_N };
static const char* oname[] = {"list insertion", "insertion of n copies", "range insertion into a list", "assign", "resize", "pop", "remove", "unique", "sort", "reverse", "list merge", "splice", "splice of one", "relocate", "keyed insertion", "keyed range insertion", "erasure by key", "erasure by position", "lookup", "merge", "modification", "range", "positions", "copying", "clear", "comparison", "projection", "iteration", "node handles", "swap"};

// executes operation op in form f on c (with partner d) through index N; returns what it reports
template <int N> Res exec(C& c, C& d, int op, uint32_t f, Args g) {
  typedef IX<N> I;
  typedef typename I::value_type V;
  I& i = ix<N>(c, f / 7);
  I& j = ix<N>(d, f / 3);
  const I& ci = cix<N>(c, f / 5);
  const std::size_t n = c.size(), m = d.size();
  uint32_t q = f % 97;
  (void)m; (void)ci; (void)j; (void)q;
  if constexpr (isLst<I>()) {
    std::size_t p = g.b % (n + 1);
    switch (op) {
      case O_PUSH: {
        if (g.b % 3 == 0) p = n; else if (g.b % 3 == 1) p = 0;
        bool back = p == n, front = p == 0;
        switch (q % 9) {
          case 0: if constexpr (CPY) { const V v = mk(g.a); if (back) return rs(i.push_back(v)); if (front) return rs(i.push_front(v)); return rs(i.insert(at(i, p), v)); } [[fallthrough]];
          case 1: { V v = mk(g.a); if (back) return rs(i.push_back(std::move(v))); if (front) return rs(i.push_front(std::move(v))); return rs(i.insert(at(i, p), std::move(v))); }
          case 2: if (back) return rs(i.emplace_back(ARGS(g.a))); if (front) return rs(i.emplace_front(ARGS(g.a))); return rs(i.emplace(at(i, p), ARGS(g.a)));
          case 3: if constexpr (CPY) { const V v = mk(g.a); const V& r = own(c, v); if (back && f % 2) return rs(i.push_back(r)); if (front && f % 2) return rs(i.push_front(r)); return rs(i.insert(at(i, p), r)); } [[fallthrough]];
          case 4: return rs(i.insert(at(i, p), mk(g.a)));
          case 5: return rs(i.emplace(at(i, p), ARGS(g.a)));
          case 6: if constexpr (CPY) { V v = mk(g.a); i.insert(at(i, p), &v, &v + 1); return {}; } [[fallthrough]];
          case 7: if constexpr (CPY) { i.insert(at(i, p), {mk(g.a)}); return {}; } [[fallthrough]];
          default: { C t; typename C::node_type nh; { IX<N>& ti = t.template get<N>(); ti.push_back(mk(g.a)); nh = ti.extract(ti.begin()); } auto r = i.insert(at(i, p), std::move(nh)); return str(*r.position) + (r.inserted ? "+" : "-"); }
        }
      }
      case O_INSN:
        if constexpr (CPY) {
          int k = int(g.c % 5);
          const V v = mk(g.a);
          auto pos = at(i, p);
          switch (q % 6) {
            case 0: i.insert(pos, std::size_t(k), v); break;
            case 1: i.insert(pos, k, own(c, v)); break;
            case 2: i.insert(pos, typename I::size_type(k), mk(g.a)); break;
            case 3: for (int x = 0; x < k; ++x) i.insert(pos, v); break;
            case 4: { std::vector<V> t(std::size_t(k), v); i.insert(pos, t.begin(), t.end()); break; }
            default: if constexpr (std::is_integral_v<V>) i.insert(pos, V(k), V(v)); else i.insert(pos, (unsigned short)k, v);
          }
        }
        return {};
      case O_INSR: {
        std::vector<uint32_t> s; Rng r(g.a); for (int x = int(g.c % 6); x--;) s.push_back(uint32_t(r.next()));
        auto pos = at(i, p);
        if constexpr (!CPY) { for (auto x : s) { if (q % 2) i.emplace(pos, ARGS(x)); else i.insert(pos, mk(x)); } return {}; }
        else {
          std::vector<V> v = vals(s);
          switch (q % 6) {
            case 0: i.insert(pos, v.begin(), v.end()); break;
            case 1: { std::list<V> l(v.begin(), v.end()); i.insert(pos, l.begin(), l.end()); break; }
            case 2: { InIt a{&s, 0}, b{&s, s.size()}; i.insert(pos, a, b); break; }
            case 3: for (auto& x : v) i.insert(pos, x); break;
            case 4: { C t; IX<N>& ti = t.template get<N>(); for (auto& x : v) ti.push_back(x); i.insert(pos, ti.begin(), ti.end()); break; }  // a second occurrence is refused anyway
            default: if (s.size() == 3) i.insert(pos, {v[0], v[1], v[2]}); else i.insert(pos, v.data(), v.data() + v.size());
          }
          return {};
        }
      }
      case O_ASSIGN:
        if constexpr (CPY) {
          if (g.b % 2) {
            int k = int(g.c % 5); const V v = mk(g.a);
            switch (q % 5) {
              case 0: i.assign(std::size_t(k), v); break;
              case 1: i.assign(k, v); break;
              case 2: { std::vector<V> t(std::size_t(k), v); i.assign(t.begin(), t.end()); break; }
              case 3: if constexpr (std::is_integral_v<V>) { i.assign(V(k), V(v)); break; } [[fallthrough]];
              default: i.clear(); for (int x = 0; x < k; ++x) i.push_back(v);
            }
          } else {
            std::vector<uint32_t> s; Rng r(g.a); for (int x = int(g.c % 4); x--;) s.push_back(uint32_t(r.next()));
            std::vector<V> v = vals(s);
            switch (q % 6) {
              case 0: i.assign(v.begin(), v.end()); break;
              case 1: { InIt a{&s, 0}, b{&s, s.size()}; i.assign(a, b); break; }
              case 2: if (s.size() == 2) { i.assign({v[0], v[1]}); break; } [[fallthrough]];
              case 3: if (VF_CFG == 0 && s.size() == 2) { c = {v[0], v[1]}; break; } [[fallthrough]];  // (construction uses hints: the order of equivalent elements is free)
              case 4: if (VF_CFG == 0) { C t(v.begin(), v.end()); c.swap(t); break; } [[fallthrough]];
              default: i.clear(); i.insert(i.end(), v.begin(), v.end());
            }
          }
        }
        return {};
      case O_RESIZE:
        if constexpr (CPY) {
          std::size_t k = g.c % 4 ? (n + g.c % 7 < 3 ? 0 : n + g.c % 7 - 3) : g.c % (n + 1);
          V v = g.b % 2 ? V() : mk(g.a);
          switch (q % 4) {
            case 0: if (g.b % 2) { i.resize(k); break; } [[fallthrough]];
            case 1: i.resize(k, k > n ? own(c, v) : v); break;
            case 2: if (k > n) i.insert(i.end(), k - n, v); else i.erase(at(i, k), i.end()); break;
            default: if (k > n) for (std::size_t x = n; x < k; ++x) i.push_back(v); else while (i.size() > k) i.pop_back();
          }
        }
        return {};
      case O_POP:
        if (!n) return {};
        if (g.a % 2) switch (q % 4) { case 0: i.pop_back(); break; case 1: i.erase(std::prev(i.end())); break; case 2: i.erase(std::prev(i.end()), i.end()); break; default: i.extract(std::prev(i.end())); }
        else switch (q % 4) { case 0: i.pop_front(); break; case 1: i.erase(i.begin()); break; case 2: i.erase(i.begin(), std::next(i.begin())); break; default: i.extract(i.begin()); }
        return {};
      case O_REMOVE: {
        V v = mk(g.a);
        switch (q % 3) {
          case 0: if constexpr (CPY) { i.remove(f % 2 ? v : own(c, v)); break; } [[fallthrough]];
          case 1: i.remove_if([&](const V& x) { return x == v; }); break;
          default: for (auto it = i.begin(); it != i.end();) if (*it == v) it = i.erase(it); else ++it;
        }
        return {};
      }
      case O_UNIQUE:
        switch (q % 3) {
          case 0: i.unique(); break;
          case 1: i.unique([](const V& x, const V& y) { return x == y; }); break;
          default: for (auto it = i.begin(); it != i.end();) { auto nx = std::next(it); if (nx != i.end() && *it == *nx) i.erase(nx); else it = nx; }
        }
        return {};
      case O_SORT:
        switch (q % 4) {
          case 0: i.sort(); break;
          case 1: i.sort(std::less<V>()); break;
          case 2: i.sort([](const V& x, const V& y) { return x < y; }); break;
          default: { std::vector<std::reference_wrapper<const V>> v(i.begin(), i.end()); std::stable_sort(v.begin(), v.end(), [](const V& x, const V& y) { return x < y; }); i.rearrange(v.begin()); }
        }
        return {};
      case O_REV:
        switch (q % 3) {
          case 0: i.reverse(); break;
          case 1: { std::vector<boost::reference_wrapper<const V>> v; for (auto it = i.rbegin(); it != i.rend(); ++it) v.push_back(boost::cref(*it)); i.rearrange(v.begin()); break; }
          default: for (std::size_t x = 1; x < n; ++x) i.relocate(i.begin(), at(i, x));
        }
        return {};
      case O_LMERGE:
        i.sort(); j.sort();
        switch (q % 3) {
          case 0: i.merge(j); break;
          case 1: i.merge(j, std::less<V>()); break;
          default:  // each element goes before the first one greater than it
            for (auto it = j.begin(); it != j.end();) { auto nx = std::next(it); auto po = i.begin(); while (po != i.end() && !(*it < *po)) ++po; i.splice(po, j, it); it = nx; }
        }
        return {};
      case O_SPLICE: {
        auto pos = at(i, p);
        switch (q % 6) {
          case 0: i.splice(pos, j); break;
          case 1: i.splice(pos, std::move(j)); break;
          case 2: i.splice(pos, j, j.begin(), j.end()); break;
          case 3: i.splice(pos, std::move(j), j.begin(), j.end()); break;
          case 4: for (auto it = j.begin(); it != j.end();) { auto nx = std::next(it); i.splice(pos, j, it); it = nx; } break;
          default: for (auto it = j.begin(); it != j.end();) { auto nx = std::next(it); if (!clash(c, *it) && !i.insert(pos, j.extract(it)).inserted) VF_FAIL("insertion refused"); it = nx; }
        }
        return {};
      }
      case O_SPLICE1: {
        if (!m) return {};
        auto pos = at(i, p); auto it = at(j, g.a % m), nx = std::next(it);
        switch (q % 4) {
          case 0: { auto r = i.splice(pos, j, it); return r.second ? rs(r) : "-"; }
          case 1: { auto r = i.splice(pos, std::move(j), it); return r.second ? rs(r) : "-"; }
          case 2: i.splice(pos, j, it, nx); return {};
          default: { if (clash(c, *it)) return "-"; auto r = i.insert(pos, j.extract(it)); return str(*r.position) + (r.inserted ? "+" : "-"); }
        }
      }
      case O_RELOC: {
        if (!n) return {};
        std::size_t s = g.a % n;
        auto pos = at(i, p), it = at(i, s);
        if (pos == it) return {};
        switch (q % 4) {
          case 0: i.relocate(pos, it); break;
          case 1: i.relocate(pos, it, std::next(it)); break;
          case 2: { std::vector<boost::reference_wrapper<const V>> v; for (auto x = i.begin(); ; ++x) { if (x == pos) v.push_back(boost::cref(*it)); if (x == i.end()) break; if (x != it) v.push_back(boost::cref(*x)); } i.rearrange(v.begin()); break; }
          default: if constexpr (isRa<I>::value) i.relocate(i.begin() + std::ptrdiff_t(p), i.begin() + std::ptrdiff_t(s)); else i.splice(pos, i, it);
        }
        return {};
      }
      case O_POS:
        if (!n) return {};
        if constexpr (isRa<I>::value) {
          std::size_t x = g.a % n;
          switch (q % 7) {
            case 0: return str(i[x]);
            case 1: return str(i.at(x));
            case 2: return str(*(i.begin() + std::ptrdiff_t(x)));
            case 3: return str(i.begin()[std::ptrdiff_t(x)]);
            case 4: return str(*(i.end() - std::ptrdiff_t(n - x)));
            case 5: { auto it = i.end(); it -= std::ptrdiff_t(n); it += std::ptrdiff_t(x); if (it - i.begin() != std::ptrdiff_t(x) || !(it >= i.begin()) || !(it < i.end()) || i.rend() - i.rbegin() != std::ptrdiff_t(n)) VF_FAIL("iterator arithmetic"); return str(*it); }
            default: return str(ci.rbegin()[std::ptrdiff_t(n - 1 - x)]);
          }
        }
        return q % 2 ? str(i.front()) + str(i.back()) : str(*i.begin()) + str(*std::prev(i.end()));
      default: break;
    }
  } else {
    constexpr bool U = UQ[N];
    typedef std::decay_t<typename I::key_type> K;
    V kv = mk(g.a);
    const K k = i.key_extractor()(kv);
    switch (op) {
      case O_KINS: {
        // the order of equivalent elements in this and the other ordered indices is up to the hint: give one without influence
        auto hint = [&] {
          if constexpr (VF_CFG != 0) return i.end();
          else return at(i, g.b % (n + 1));
        };
        auto r1 = [&](auto p) { return rs(p); };
        switch (q % 11) {
          case 0: if constexpr (CPY) { const V v = mk(g.a); return r1(i.insert(f % 2 ? v : own(c, v))); } [[fallthrough]];
          case 1: return r1(i.insert(mk(g.a)));
          case 2: return r1(i.emplace(ARGS(g.a)));
          case 3: if constexpr (CPY) { const V v = mk(g.a); i.insert(hint(), f % 2 ? v : own(c, v)); return {}; } [[fallthrough]];
          case 4: i.insert(hint(), mk(g.a)); return {};
          case 5: i.emplace_hint(hint(), ARGS(g.a)); return {};
          case 6: if constexpr (CPY) { V v = mk(g.a); i.insert(&v, &v + 1); return {}; } [[fallthrough]];
          case 7: if constexpr (CPY) { i.insert({mk(g.a)}); return {}; } [[fallthrough]];
          case 8: { C t; IX<N>& ti = t.template get<N>(); auto nh = ti.extract(ti.insert(mk(g.a)).first); i.insert(hint(), std::move(nh)); return {}; }
          case 9: { C t; IX<N>& ti = t.template get<N>(); auto r = i.insert(ti.extract(ti.insert(mk(g.a)).first)); auto r2 = std::move(r); return str(*r2.position) + (r2.inserted ? "+" : "-"); }
          default: { C t; IX<N>& ti = t.template get<N>(); ti.insert(mk(g.a)); auto r = i.merge(ti, ti.begin()); return r.second ? str(*r.first) + "+" : Res(); }
        }
      }
      case O_KRANGE: {
        std::vector<uint32_t> s; Rng r(g.a); for (int x = int(g.c % 6); x--;) s.push_back(uint32_t(r.next()));
        if constexpr (!CPY) { for (auto x : s) { if (q % 2) i.emplace(ARGS(x)); else i.insert(mk(x)); } return {}; }
        else {
          std::vector<V> v = vals(s);
          switch (q % 5) {
            case 0: i.insert(v.begin(), v.end()); break;
            case 1: { std::list<V> l(v.begin(), v.end()); i.insert(l.begin(), l.end()); break; }
            case 2: { InIt a{&s, 0}, b{&s, s.size()}; i.insert(a, b); break; }
            case 3: for (auto& x : v) i.insert(x); break;
            default: if (s.size() == 3) i.insert({v[0], v[1], v[2]}); else i.insert(v.data(), v.data() + v.size());
          }
          return {};
        }
      }
      case O_KERASE:
        switch (q % 4) {
          case 0: { auto w = i.find(k); if (f % 2 && w != i.end()) return std::to_string(i.erase(i.key_extractor()(*w))); return std::to_string(i.erase(k)); }
          case 1: { auto r = i.equal_range(k); auto x = std::distance(r.first, r.second); i.erase(r.first, r.second); return std::to_string(x); }
          case 2: { int x = 0; for (auto it = i.find(k); it != i.end(); it = i.find(k)) { i.erase(it); ++x; } return std::to_string(x); }
          default: { int x = 0; while (i.contains(k)) { i.extract(i.find(k)); ++x; } return std::to_string(x); }
        }
      case O_IERASE: {
        if (!n) return {};
        auto& li = c.template get<LI>();
        if constexpr (isHsh<I>::value) { // the same element in both containers
          auto it = i.iterator_to(*at(li, g.a % n));
          switch (q % 3) { case 0: i.erase(it); break; case 1: i.extract(it); break; default: i.erase(it, std::next(it)); }
          return {};
        } else {
          auto it = at(i, g.a % n);
          auto nx = std::next(it);
          switch (q % 3) {
            case 0: { auto r = i.erase(it); if (r != nx) VF_FAIL("erase returned a wrong iterator"); break; }
            case 1: i.extract(it); break;
            default: { auto r = i.erase(it, nx); if (r != nx) VF_FAIL("range erase returned a wrong iterator"); }
          }
          return nx == i.end() ? "end" : str(*nx);
        }
      }
      case O_LOOK: {
        // every form and every type of key must agree on one container
        std::vector<const V*> e;
        for (auto it = ci.begin(); it != ci.end(); ++it) if (ci.key_extractor()(*it) == k) e.push_back(&*it);
        auto chk = [&](const auto& a, auto... pr) {
          auto r = ci.equal_range(a, pr...);
          std::vector<const V*> w;
          for (auto it = r.first; it != r.second; ++it) w.push_back(&*it);
          if (w != e) VF_FAIL("equal_range of key of ", str(kv), " finds ", w.size(), " elements, expected ", e.size());
          if (ci.count(a, pr...) != e.size()) VF_FAIL("count is ", ci.count(a, pr...), ", expected ", e.size());
          if (ci.contains(a, pr...) != !e.empty()) VF_FAIL("contains");
          auto it = ci.find(a, pr...);
          if (e.empty() ? it != ci.end() : it == ci.end() || !(ci.key_extractor()(*it) == k)) VF_FAIL("find");
          if constexpr (isOrd<I>::value) {
            if (ci.lower_bound(a, pr...) != r.first || ci.upper_bound(a, pr...) != r.second) VF_FAIL("lower/upper_bound disagree with equal_range");
            if constexpr (isRnk<I>::value) {
              auto rr = ci.equal_range_rank(a, pr...);
              if (rr.first != ci.rank(r.first) || rr.second != ci.rank(r.second) || ci.lower_bound_rank(a, pr...) != rr.first || ci.upper_bound_rank(a, pr...) != rr.second) VF_FAIL("ranks disagree with positions");
              if (ci.find_rank(a, pr...) != ci.rank(it)) VF_FAIL("find_rank disagrees with find");
            }
          }
        };
        alts(k, [&](const auto& a) { chk(a); });
#if VF_CFG == 2
        if constexpr (isHsh<I>::value) { altsT(k, [&](const auto& a) { chk(a, SH(), SE()); chk(a, ci.hash_function(), ci.key_eq()); chk(a); }); }
        else { altsT(k, [&](const auto& a) { chk(a, std::less<>()); }); if constexpr (N == 1) { chk(std::string_view(k)); altsT(k, [&](const auto& a) { chk(a, ci.key_comp()); }); } }
#else
        if constexpr (isHsh<I>::value) chk(k, ci.hash_function(), ci.key_eq());
        else { chk(k, ci.key_comp()); if constexpr (std::is_integral_v<K>) { auto kc = ci.key_comp(); alts(k, [&](const auto& a) { chk(a, [&](auto x, auto y) { return kc(K(x), K(y)); }); }); } }
#endif
        if (e.size() > 1) VF_HIT("lookup with several equivalent elements in all forms");
        if (e.empty()) VF_HIT("lookup of an absent key in all forms");
        return std::to_string(e.size());
      }
      case O_KMERGE:
        if constexpr (isHsh<I>::value) while (d.size() > 1) d.template get<LI>().pop_back();  // the order of a hashed source is unspecified
        switch (q % 5) {
          case 0: i.merge(j); break;
          case 1: i.merge(std::move(j)); break;
          case 2: i.merge(j, j.begin(), j.end()); break;
          case 3: for (auto it = j.begin(); it != j.end();) { auto nx = std::next(it); if (g.b % 2) i.merge(j, it); else i.merge(std::move(j), it); it = nx; } break;
          default: if constexpr (isOrd<I>::value && U) { for (auto it = j.begin(); it != j.end();) { auto nx = std::next(it); auto r = i.merge(j, it); if (r.second && &*r.first != &*i.find(i.key_extractor()(*r.first))) VF_FAIL("merge returned a wrong iterator"); it = nx; } } else i.merge(std::move(j), j.begin(), j.end());
        }
        return {};
      case O_RANGE:
        if constexpr (isOrd<I>::value) {
          V hv = mk(g.b); K h = i.key_extractor()(hv), l = k;
          auto kc = i.key_comp();
          if (kc(h, l)) std::swap(h, l);
          auto out = [&](auto r) { return seq(ci, r.first, r.second); };
          int w = int(g.c % 4);
          auto ge = [&](const K& x) { return !kc(x, l); }; auto gt = [&](const K& x) { return kc(l, x); };
          auto le = [&](const K& x) { return !kc(h, x); }; auto lt = [&](const K& x) { return kc(x, h); };
          if (w == 1 && !kc(l, h)) w = 0;
          switch (q % 3) {
            case 0: return out(w == 0 ? ci.range(ge, le) : w == 1 ? ci.range(gt, lt) : w == 2 ? ci.range(bmi::unbounded, le) : ci.range(gt, bmi::unbounded));
            case 1: return out(w == 0 ? std::make_pair(ci.lower_bound(l), ci.upper_bound(h)) : w == 1 ? std::make_pair(ci.upper_bound(l), ci.lower_bound(h)) : w == 2 ? std::make_pair(ci.begin(), ci.upper_bound(h)) : std::make_pair(ci.upper_bound(l), ci.end()));
            default: {
              std::string s; for (auto it = ci.begin(); it != ci.end(); ++it) { const K x = ci.key_extractor()(*it); if (w == 0 ? ge(x) && le(x) : w == 1 ? gt(x) && lt(x) : w == 2 ? le(x) : gt(x)) s += str(*it) + ","; }
              if constexpr (isRnk<I>::value) { auto a = w == 0 ? ci.range(ge, le) : w == 1 ? ci.range(gt, lt) : w == 2 ? ci.range(bmi::unbounded, le) : ci.range(gt, bmi::unbounded); auto b = w == 0 ? ci.range_rank(ge, le) : w == 1 ? ci.range_rank(gt, lt) : w == 2 ? ci.range_rank(bmi::unbounded, le) : ci.range_rank(gt, bmi::unbounded); if (ci.rank(a.first) != b.first || ci.rank(a.second) != b.second) VF_FAIL("range_rank disagrees with range"); }
              return s;
            }
          }
        }
        return {};
      case O_POS:
        if constexpr (isRnk<I>::value) {
          std::size_t x = g.a % (n + 2);
          switch (q % 3) {
            case 0: { auto it = ci.nth(x); return it == ci.end() ? "end" : str(*it); }
            case 1: return x >= n ? "end" : str(*std::next(ci.begin(), std::ptrdiff_t(x)));
            default: { auto it = x >= n ? ci.end() : at(ci, x); if (ci.rank(it) != std::min(x, n)) VF_FAIL("rank"); return it == ci.end() ? "end" : str(*it); }
          }
        }
        return {};
      default: break;
    }
  }
  switch (op) {
    case O_MODIFY: {
      if (!n) return {};
      // the same element in both containers: by position in a list
      auto& li = c.template get<LI>();
      auto lit = at(li, g.b % n);
      auto it = bmi::project<N>(c, lit);
      const std::string was = str(*it);
      auto mod = [&](V& v) { assignTo(v, g.a); };
      if (g.c % 2) {  // kept or erased
        switch (q % 3) {
          case 0: return i.modify(it, mod) ? "+" : "-";
          case 1: return li.modify(lit, mod) ? "+" : "-";
          default: { auto o = bmi::project<(N + 1) % NI>(c, it); return bmi::get<(N + 1) % NI>(c).modify(o, mod) ? "+" : "-"; }
        }
      }
      V nv = mk(g.a);
      std::optional<V> old;
      switch (q % 4) {  // changed or left alone
        case 0: if constexpr (CPY) { return i.replace(it, f % 2 ? nv : own(c, nv)) ? "+" : "-"; } [[fallthrough]];
        case 1: return i.replace(it, std::move(nv)) ? "+" : "-";
        case 2: { bool b = i.modify(it, [&](V& v) { old.emplace(std::move(v)); V t = mk(g.a); v = std::move(t); }, [&](V& v) { v = std::move(*old); }); return b ? "+" : "-"; }
        default: { auto o = bmi::project<(N + 2) % NI>(c, it); return bmi::get<(N + 2) % NI>(c).replace(o, mk(g.a)) ? "+" : "-"; }
      }
    }
    case O_COPY:
      if constexpr (CPY) {
        C t;
        switch (q % 7) {
          case 0: { C z(c); t.swap(z); break; }
          case 1: { C z(c, c.get_allocator()); t = z; break; }
          case 2: t = c; break;
          case 3: { C z(c); t = std::move(z); break; }
          case 4: { C z(c); C y(std::move(z)); if (!z.empty()) VF_FAIL("moved-from container is not empty"); swap(t, y); break; }
          case 5: { C z(c); C y(std::move(z), c.get_allocator()); t.template get<N>().swap(y.template get<N>()); break; }
          default: { C z(c); t = c; z = t; t.clear(); t = std::move(z); }
        }
        if (digest(t) != digest(c)) VF_FAIL("copy differs: ", digest(t), " of ", digest(c));
        if (!(t == c) || t != c) VF_FAIL("copy is not equal");
      } else {
        std::string s = digest(c);
        if (q % 2) { C z(std::move(c)); if (!c.empty()) VF_FAIL("moved-from container is not empty"); c = std::move(z); } else { C z; z = std::move(c); C y; swap(y, z); c.swap(y); }
        if (digest(c) != s) VF_FAIL("moved container differs: ", digest(c), " from ", s);
      }
      return {};
    case O_CLEAR:
      if (g.a % 3) return {};
      switch (q % 5) {
        case 0: c.clear(); break;
        case 1: i.clear(); break;
        case 2: i.erase(i.begin(), i.end()); break;
        case 3: c = C(); break;
        default: while (!i.empty()) i.erase(i.begin());
      }
      return {};
    case O_CMP: {
      const I& cj = cix<N>(d, f / 11);
      if constexpr (isHsh<I>::value) { if (!(ci == ci) || ci != ci) VF_FAIL("not equal to itself"); if ((ci == cj) != !(ci != cj) || (ci == cj) != (cj == ci)) VF_FAIL("equality is inconsistent"); return (ci == cj) ? "=" : "!"; }
      else {
        bool e = ci == cj, l = ci < cj, g2 = ci > cj;
        if (e != std::equal(ci.begin(), ci.end(), cj.begin(), cj.end())) VF_FAIL("== of indices");
        if (l != std::lexicographical_compare(ci.begin(), ci.end(), cj.begin(), cj.end()) || g2 != (cj < ci) || (ci <= cj) == g2 || (ci >= cj) == l || (ci != cj) == e) VF_FAIL("relational operators of indices");
        return std::string(e ? "=" : "!") + (l ? "<" : "") + (g2 ? ">" : "");
      }
    }
    case O_PROJ: {
      if (!n) return {};
      auto it = at(ci, g.a % n);
      auto t = [&](auto x) {
        constexpr int X = decltype(x)::value;
        auto a = bmi::project<X>(c, it); auto b = c.template project<T<X>>(it); auto e = static_cast<const C&>(c).template project<X>(it); auto h = bmi::project<T<X>>(static_cast<const C&>(c), it);
        if (&*a != &*it || !(a == b) || !(b == e) || !(e == h) || a != cix<X>(c, f).iterator_to(*it)) VF_FAIL("projection to index ", X);
        if (bmi::project<N>(c, a) != it) VF_FAIL("projection back from index ", X);
        if (bmi::project<X>(c, ci.end()) != cix<X>(c, f).end()) VF_FAIL("projection of end");
      };
      t(std::integral_constant<int, 0>()); t(std::integral_constant<int, 1>()); t(std::integral_constant<int, 2>()); t(std::integral_constant<int, 3>()); t(std::integral_constant<int, 4>());
      return {};
    }
    case O_ITER: {
      std::vector<const V*> a, b;
      for (const V& v : i) a.push_back(&v);
      auto same = [&](const char* w) { if (a != b) VF_FAIL("traversal by ", w, " differs"); b.clear(); };
      for (auto it = ci.begin(); it != ci.end(); it++) b.push_back(&*it);
      same("const iterators");
      for (auto it = i.cbegin(), e = i.cend(); it != e; ++it) b.push_back(it.operator->());
      same("cbegin");
      if constexpr (!isHsh<I>::value) {
        for (auto it = i.rbegin(); it != i.rend(); ++it) b.push_back(&*it);
        std::reverse(b.begin(), b.end()); same("rbegin");
        for (auto it = ci.crbegin(); it != ci.crend(); ++it) b.push_back(&*it);
        std::reverse(b.begin(), b.end()); same("crbegin");
        for (auto it = i.end(); it != i.begin();) b.push_back(&*--it);
        std::reverse(b.begin(), b.end()); same("decrement");
      } else {
        std::size_t tot = 0;
        for (std::size_t x = 0; x < i.bucket_count(); ++x) {
          std::vector<const V*> u, v, w;
          for (auto it = i.begin(x); it != i.end(x); ++it) u.push_back(&*it);
          for (auto it = ci.begin(x); it != ci.end(x); ++it) v.push_back(&*it);
          for (auto it = i.cbegin(x); it != i.cend(x); it++) w.push_back(&*it);
          if (u != v || v != w || u.size() != i.bucket_size(x)) VF_FAIL("local iterators disagree");
          for (auto p : u) if (i.bucket(i.key_extractor()(*p)) != x || &*i.local_iterator_to(*p) != p || &*ci.local_iterator_to(*p) != p) VF_FAIL("bucket of an element");
          tot += u.size();
        }
        if (tot != n) VF_FAIL("buckets hold ", tot, " elements of ", n);
        if (i.bucket_count() > i.max_bucket_count()) VF_FAIL("more buckets than max_bucket_count");
      }
      if (i.size() != n || ci.empty() != (n == 0) || i.max_size() < n || std::size_t(std::distance(ci.begin(), ci.end())) != n) VF_FAIL("size");
      (void)i.get_allocator();
      return {};
    }
    case O_NODE: {
      if (!n) return {};
      auto& li = c.template get<LI>();
      std::size_t p = g.b % n;
      auto lit = at(li, p), nx = std::next(lit);
      const V* ad = &*lit;
      typename C::node_type nh;
      switch (q % 4) {
        case 0: nh = li.extract(lit); break;
        case 1: { typename C::node_type t(i.extract(bmi::project<N>(c, lit))); nh = std::move(t); break; }
        case 2: { auto t = i.extract(bmi::project<N>(c, lit)); nh.swap(t); if (!t.empty()) VF_FAIL("swap of handles"); break; }
        default: { auto t = li.extract(lit); swap(nh, t); }
      }
      if (nh.empty() || !nh || &nh.value() != ad || c.size() != n - 1) VF_FAIL("extracted handle");
      if (q % 3 == 0) { auto r = li.insert(nx, std::move(nh)); if (!r.inserted || &*r.position != ad) VF_FAIL("reinsertion"); }
      else if (q % 3 == 1) { typename C::node_type t; t = std::move(nh); if (nh) VF_FAIL("moved-from handle is not empty"); auto r0 = li.insert(nx, std::move(t)); auto r = std::move(r0); if (!r.inserted || !r.node.empty()) VF_FAIL("reinsertion"); }
      else li.insert(nx, std::move(nh.value()));
      return {};
    }
    case O_SWAP:
      switch (q % 4) {
        case 0: c.swap(d); break;
        case 1: i.swap(j); break;
        case 2: swap(c, d); break;
        default: { C t(std::move(c)); c = std::move(d); d = std::move(t); }
      }
      return {};
    default: break;
  }
  return {};
}

static Case gen(Rng& r, int) {
  Case c;
  c.P = {0};
  int n = 10 + int(r.below(70));
  for (int i = 0; i < n; ++i) {
    Op o;
    o.k = r.chance(2, 5) ? (r.chance(1, 2) ? O_PUSH : O_KINS) : r.below(O_N);
    o.a[0] = r.below(1000); o.a[1] = r.below(100000); o.a[2] = r.below(100000); o.a[3] = r.below(4096); o.a[4] = r.below(1u << 20);
    c.ops.push_back(o);
  }
  return c;
}
static std::string show(const Case& c) { std::string s; for (auto& o : c.ops) s += cat(oname[o.k % O_N], " [index ", (o.a[0] / 2) % NI, (o.a[0] & 1) ? " second" : "", ", forms ", o.a[1] % 97, "/", o.a[2] % 97, "]; "); return s; }
static void run(const Case& cs) {
  C x[2], y[2];
  for (std::size_t k = 0; k < cs.ops.size(); ++k) {
    const Op& o = cs.ops[k];
    int op = int(o.k % O_N), w = int(o.a[0] & 1);
    uint32_t f1 = o.a[1], f2 = o.a[2];
    Args g{o.a[3], o.a[4], o.a[4] / 7};
    pick(o.a[0] / 2, [&](auto n) {
      constexpr int N = decltype(n)::value;
      std::string before = digest(x[w]);
      if (op == O_KINS && isLst<IX<N>>()) op = O_PUSH;
      if (op == O_PUSH && !isLst<IX<N>>()) op = O_KINS;
      Res a = exec<N>(x[w], x[1 - w], op, f1, g), b = exec<N>(y[w], y[1 - w], op, f2, g);
      if (a && b && *a != *b) VF_FAIL(oname[op], " (index ", N, "): forms ", f1 % 97, " and ", f2 % 97, " report ", *a, " and ", *b, " on ", before);
      for (int q = 0; q < 2; ++q) {
        std::string p = digest(x[q]), r = digest(y[q]);
        if (p != r) VF_FAIL(oname[op], " (index ", N, "): forms ", f1 % 97, " and ", f2 % 97, " give ", p, " and ", r, q == w ? " from " : " (other container); first was ", before);
      }
      ++stats().feat[oname[op]];
      if (before != digest(x[w]) && f1 % 97 != f2 % 97) VF_HIT("state changed in two forms");
    });
  }
}
}  // namespace vf
int main(int argc, char** argv) {
  vf::Harness h;
  h.name = VF_NAME;
  h.gen = vf::gen;
  h.run = vf::run;
  h.show = vf::show;
  h.nontrivial_threshold = 3;
  return vf::worker_main(argc, argv, h);
}
