// One build variant of a generated history: executes the operations and reports a digest per
// operation (or its text). Written in the common subset of C++98 and later; built as a shared
// object with hidden symbols so that variants do not share template instantiations.
//   TR_FANCY 1: user-defined allocator pointer;  TR_MOVEONLY 1: elements cannot be copied
//   TR_FUN 0 plain, 1 final, 2 function objects with state, 3 std ones;  TR_SER 1: serialization
#ifndef TR_FANCY
#define TR_FANCY 0
#endif
#ifndef TR_MOVEONLY
#define TR_MOVEONLY 0
#endif
#ifndef TR_FUN
#define TR_FUN 0
#endif
#ifndef TR_SER
#define TR_SER 0
#endif
#ifndef TR_MINAL
#define TR_MINAL 0  // 1: a minimal C++11 allocator, 2: std::pmr::polymorphic_allocator, 3: minimal, not assignable
#endif
#ifndef TR_ALIGN
#define TR_ALIGN 0  // alignment of the elements, if not the natural one
#endif
#ifndef TR_AMP
#define TR_AMP 0  // 1: elements overload operator&
#endif
#include <cstdio>
#include <cstdlib>
#ifdef BOOST_MULTI_INDEX_ENABLE_SAFE_MODE
#define BOOST_MULTI_INDEX_SAFE_MODE_ASSERT(e, c) do { if (!(e)) { fprintf(stderr, "VF-FAIL: safe mode reports an error on valid use: %s\n", #e); _Exit(78); } } while (0)
#endif
#ifdef BOOST_MULTI_INDEX_ENABLE_INVARIANT_CHECKING
#define BOOST_MULTI_INDEX_INVARIANT_ASSERT(e) do { if (!(e)) { fprintf(stderr, "VF-FAIL: invariant checking reports an error on valid use: %s\n", #e); _Exit(78); } } while (0)
#endif
#if TR_SER
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#else
#define BOOST_MULTI_INDEX_DISABLE_SERIALIZATION
#endif
#include <boost/multi_index_container.hpp>
#include <boost/multi_index/composite_key.hpp>
#include <boost/multi_index/global_fun.hpp>
#include <boost/multi_index/hashed_index.hpp>
#include <boost/multi_index/identity.hpp>
#include <boost/multi_index/mem_fun.hpp>
#include <boost/multi_index/member.hpp>
#include <boost/multi_index/ordered_index.hpp>
#include <boost/multi_index/random_access_index.hpp>
#include <boost/multi_index/ranked_index.hpp>
#include <boost/multi_index/sequenced_index.hpp>
#include <boost/move/utility_core.hpp>
#include <boost/tuple/tuple.hpp>
#include <boost/ref.hpp>
#include <algorithm>
#include <functional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#if TR_MINAL == 2
#include <memory_resource>
#endif
#if TR_FANCY
#include "fancy.hpp"
#endif
#if TR_FUN == 1
#define TR_FINAL final
#else
#define TR_FINAL
#endif
namespace {
namespace bmi = boost::multi_index;
typedef unsigned long long u64;

struct Src { int a, b, c, id; };  // elements can be constructed from this
#if TR_ALIGN
struct alignas(TR_ALIGN) E {
#else
struct E {
#endif
  int a, b, c, id;
  E() : a(0), b(0), c(0), id(-1) {}
  E(int a_, int b_, int c_, int i) : a(a_), b(b_), c(c_), id(i) {}
  E(const Src& s) : a(s.a), b(s.b), c(s.c), id(s.id) {}
#if TR_MOVEONLY
  E(const E&) = delete;
  E& operator=(const E&) = delete;
  E(E&& x) : a(x.a), b(x.b), c(x.c), id(x.id) { x.a = x.b = x.c = -77; x.id = -77; }
  E& operator=(E&& x) { a = x.a; b = x.b; c = x.c; id = x.id; if (this != &x) { x.a = x.b = x.c = -77; x.id = -77; } return *this; }
#endif
#if TR_AMP  // an element whose address can only be taken with addressof
  E* operator&() { return 0; }
  const E* operator&() const { return 0; }
#endif
  int getb() const { return b; }
  int& refb() { return b; }
#if TR_SER
  template <class Ar> void serialize(Ar& ar, unsigned) { ar & a & b & c & id; }
#endif
};
inline bool operator==(const E& x, const E& y) { return x.a == y.a && x.b == y.b && x.c == y.c; }
inline bool operator<(const E& x, const E& y) { return x.b != y.b ? x.b < y.b : x.a < y.a; }
inline int getc_(const E& e) { return e.c; }
#if TR_MOVEONLY
#define MV(x) boost::move(x)
#else
#define MV(x) static_cast<const E&>(x)
#endif

#if TR_FUN == 3
typedef std::less<int> Less;
typedef std::equal_to<int> Equal;
#else
struct Less TR_FINAL {
#if TR_FUN == 2
  int pad, one; Less() : pad(3), one(1) {}
  bool operator()(int x, int y) const { return x * one < y; }
#else
  bool operator()(int x, int y) const { return x < y; }
#endif
};
struct Equal TR_FINAL {
#if TR_FUN == 2
  char pad; Equal() : pad(0) {}
  bool operator()(int x, int y) const { return x + pad == y; }
#else
  bool operator()(int x, int y) const { return x == y; }
#endif
};
#endif
struct Hash TR_FINAL {
#if TR_FUN == 2
  long pad[2]; Hash() { pad[0] = pad[1] = 7; }
#endif
  std::size_t operator()(int x) const { return std::size_t((unsigned(x) * 2654435761u >> 7) % 1021u); }
};
struct CHash {  // hash of a composite key
  template <class T> std::size_t operator()(const T& t) const { return h(boost::tuples::get<0>(t), boost::tuples::get<1>(t)); }
  static std::size_t h(int x, int y) { return Hash()(x) * 31u + Hash()(y); }
};

template <class T> struct Alloc0 {
#if TR_FANCY
  typedef T value_type;
  typedef vf::FP<T> pointer;
  typedef vf::FP<const T> const_pointer;
  typedef vf::FP<void> void_pointer;
  typedef vf::FP<const void> const_void_pointer;
  typedef std::size_t size_type;
  typedef std::ptrdiff_t difference_type;
  template <class U> struct rebind { typedef Alloc0<U> other; };
  Alloc0() {}
  template <class U> Alloc0(const Alloc0<U>&) {}
  pointer allocate(std::size_t n) { return pointer(static_cast<T*>(::operator new(n * sizeof(T)))); }
  void deallocate(pointer p, std::size_t) { ::operator delete(p.p); }
  friend bool operator==(const Alloc0&, const Alloc0&) { return true; }
  friend bool operator!=(const Alloc0&, const Alloc0&) { return false; }
#endif
};
#if TR_MINAL == 1 || TR_MINAL == 3
template <class T> struct MinAl {
  typedef T value_type;
#if TR_MINAL == 3
  MinAl() {}
  MinAl(const MinAl&) = default;
  MinAl& operator=(const MinAl&) = delete;
#else
  MinAl() = default;
#endif
  template <class U> MinAl(const MinAl<U>&) {}
  T* allocate(std::size_t n) { return static_cast<T*>(::operator new(n * sizeof(T))); }
  void deallocate(T* p, std::size_t) { ::operator delete(p); }
};
template <class T, class U> bool operator==(const MinAl<T>&, const MinAl<U>&) { return true; }
template <class T, class U> bool operator!=(const MinAl<T>&, const MinAl<U>&) { return false; }
#endif
#if TR_FANCY
typedef Alloc0<E> Al;
#elif TR_MINAL == 1 || TR_MINAL == 3
typedef MinAl<E> Al;
#elif TR_MINAL == 2
typedef std::pmr::polymorphic_allocator<E> Al;
#else
typedef std::allocator<E> Al;
#endif

// kinds of indices
struct keyed {}; struct ord : keyed {}; struct rnk : ord {}; struct hsh : keyed {}; struct lst {}; struct sq : lst {}; struct ra : lst {};
template <class K, int M> struct Kd { typedef K tag; };  // M: which member is the key, 3: composite (b,c)

typedef bmi::member<E, int, &E::a> KA;
typedef bmi::const_mem_fun<E, int, &E::getb> KB;
typedef bmi::global_fun<const E&, int, &getc_> KC;
typedef bmi::composite_key<E, bmi::member<E, int, &E::b>, KC> KBC;
typedef bmi::composite_key_compare<Less, std::greater<int> > CBC;
typedef bmi::composite_key_hash<Hash, Hash> HBC;

template <int T> struct Conf;
#define VF_CONF(n, ...)
template <> struct Conf<0> {
  enum { N = 3 };
  typedef bmi::multi_index_container<E, bmi::indexed_by<bmi::ordered_unique<KA, Less>, bmi::hashed_non_unique<KB, Hash, Equal>, bmi::sequenced<> >, Al> C;
};
template <> struct Conf<1> {
  enum { N = 3 };
  typedef bmi::multi_index_container<E, bmi::indexed_by<bmi::hashed_unique<KA, Hash, Equal>, bmi::ordered_non_unique<KC, Less>, bmi::random_access<> >, Al> C;
};
template <> struct Conf<2> {
  enum { N = 3 };
  typedef bmi::multi_index_container<E, bmi::indexed_by<bmi::ranked_non_unique<KB, Less>, bmi::ranked_unique<KA, Less>, bmi::hashed_non_unique<KC, Hash, Equal> >, Al> C;
};
template <> struct Conf<3> {
  enum { N = 4 };
  typedef bmi::multi_index_container<E, bmi::indexed_by<bmi::random_access<>, bmi::ordered_non_unique<KBC, CBC>, bmi::hashed_unique<KA, Hash, Equal>, bmi::sequenced<> >, Al> C;
};
template <> struct Conf<4> {
  enum { N = 3 };
  typedef bmi::multi_index_container<E, bmi::indexed_by<bmi::sequenced<>, bmi::hashed_non_unique<KBC, HBC>, bmi::ordered_unique<bmi::composite_key<E, KB, KA> > >, Al> C;
};
template <int T, int I> struct Ix;
#define VF_IX(T, I, K, M) template <> struct Ix<T, I> { typedef K tag; enum { m = M }; };
VF_IX(0, 0, ord, 0) VF_IX(0, 1, hsh, 1) VF_IX(0, 2, sq, 9)
VF_IX(1, 0, hsh, 0) VF_IX(1, 1, ord, 2) VF_IX(1, 2, ra, 9)
VF_IX(2, 0, rnk, 1) VF_IX(2, 1, rnk, 0) VF_IX(2, 2, hsh, 2)
VF_IX(3, 0, ra, 9) VF_IX(3, 1, ord, 3) VF_IX(3, 2, hsh, 0) VF_IX(3, 3, sq, 9)
VF_IX(4, 0, sq, 9) VF_IX(4, 1, hsh, 3) VF_IX(4, 2, ord, 4)

// the key for lookups
template <int M> struct MkKey;
template <> struct MkKey<0> { typedef int type; static int mk(const E& e) { return e.a; } };
template <> struct MkKey<1> { typedef int type; static int mk(const E& e) { return e.b; } };
template <> struct MkKey<2> { typedef int type; static int mk(const E& e) { return e.c; } };
template <> struct MkKey<3> { typedef boost::tuple<int, int> type; static type mk(const E& e) { return type(e.b, e.c); } };
template <> struct MkKey<4> { typedef boost::tuple<int, int> type; static type mk(const E& e) { return type(e.b, e.a); } };
template <> struct MkKey<9> { typedef int type; static int mk(const E&) { return 0; } };

struct Log {
  u64 h;
  std::string* text;
  Log() : h(1469598103934665603ull), text(0) {}
  void num(long x) { h = (h ^ u64(x)) * 1099511628211ull; h ^= h >> 29; if (text) { char b[32]; sprintf(b, "%ld ", x); *text += b; } }
  void word(const char* s) { if (text) *text += s; num(long(s[0]) * 131 + s[1]); }
};
struct Cnt { long n; };
struct ModAll { E v; ModAll(int a, int b, int c, int id) : v(a, b, c, id) {} ModAll(const ModAll& x) : v(x.v.a, x.v.b, x.v.c, x.v.id) {} void operator()(E& e) const { e.a = v.a; e.b = v.b; e.c = v.c; } };
struct ModInt { int v; explicit ModInt(int x) : v(x) {} void operator()(int& k) const { k = v; } };
struct Lower { int v; explicit Lower(int x) : v(x) {} bool operator()(int k) const { return k >= v; } };
struct Upper { int v; explicit Upper(int x) : v(x) {} bool operator()(int k) const { return k <= v; } };
struct LessA { bool operator()(const E& x, const E& y) const { return x.a / 3 < y.a / 3; } };
struct LessB { bool operator()(const E& x, const E& y) const { return x.b < y.b; } };
struct EqB { bool operator()(const E& x, const E& y) const { return x.b / 2 == y.b / 2; } };
struct IdMod { int m; explicit IdMod(int k) : m(k) {} bool operator()(const E& e) const { return e.id % m == 0; } };

typedef void (*ArchOut)(void*, const char*, unsigned long);
struct Env {
  Log L;
  int nextId, da, db, dc;
  bool exc;
  const char* const* archIn; int nArchIn, archNo;
  ArchOut archOut; void* archCtx;
};

template <int T> struct Run {
  typedef typename Conf<T>::C C;
  enum { N = Conf<T>::N };
  Env& v;
  C x, y;
  explicit Run(Env& e) : v(e) {}
  struct Op { unsigned k, a[5]; };

  E mk(unsigned s, unsigned t) { return E(int(s % unsigned(v.da)), int(t % unsigned(v.db)), int((s / 7 + t / 5) % unsigned(v.dc)), v.nextId++); }

  // ---- dumps
  template <class X> static typename X::iterator nth(X& ix, unsigned k) { typename X::iterator it = ix.begin(); while (k--) ++it; return it; }
  template <class X> void place(X& ix, typename X::iterator it) { if (it == ix.end()) v.L.num(-1); else v.L.num(it->id); }
  template <class X> void dumpX(X& ix, keyed) { for (typename X::iterator i = ix.begin(); i != ix.end(); ++i) v.L.num(i->id); }
  template <class X> void dumpX(X& ix, hsh) {
    for (typename X::iterator i = ix.begin(); i != ix.end(); ++i) v.L.num(i->id);
    v.L.num(long(ix.bucket_count()));
    for (unsigned long b = 0; b < ix.bucket_count(); b += 5) { for (typename X::local_iterator i = ix.begin(b); i != ix.end(b); ++i) v.L.num(i->id); }
  }
  template <class X> void dumpX(X& ix, rnk) {
    long r = 0;
    for (typename X::iterator i = ix.begin(); i != ix.end(); ++i, ++r) { v.L.num(i->id); if (long(ix.rank(i)) != r || ix.nth(std::size_t(r)) != i) v.L.word("rank!"); }
  }
  template <class X> void dumpX(X& ix, lst) { for (typename X::iterator i = ix.begin(); i != ix.end(); ++i) v.L.num(i->id); for (typename X::reverse_iterator i = ix.rbegin(); i != ix.rend(); ++i) v.L.num(i->a); }
  template <int I> void dumpI(C& c, boost::mpl::true_) {
    v.L.word("| ");
    dumpX(c.template get<I>(), typename Ix<T, I>::tag());
    dumpI<I + 1>(c, boost::mpl::bool_<(I + 1 < N)>());
  }
  template <int I> void dumpI(C&, boost::mpl::false_) {}
  void dump(C& c) {
    v.L.word("\n   size "); v.L.num(long(c.size()));
    dumpI<0>(c, boost::mpl::true_());
    typename C::iterator i = c.begin();
    if (i != c.end()) { v.L.num(i->b); v.L.num(i->c); }
    for (; i != c.end(); ++i) v.L.num(i->a * 10007 + i->b * 101 + i->c);
  }

  // ---- insertion
  template <class X> void ins(X& ix, const Op& o, keyed) {
    E e = mk(o.a[2], o.a[3]);
    switch (o.a[4] % 4) {
      case 0: { std::pair<typename X::iterator, bool> p = ix.insert(MV(e)); v.L.num(p.second); place(ix, p.first); break; }
      case 1: { std::pair<typename X::iterator, bool> p = ix.emplace(e.a, e.b, e.c, e.id); v.L.num(p.second); place(ix, p.first); break; }
      case 2: place(ix, ix.insert(nth(ix, unsigned(o.a[1] % (ix.size() + 1))), MV(e))); break;
      default: place(ix, ix.emplace_hint(nth(ix, unsigned(o.a[1] % (ix.size() + 1))), e.a, e.b, e.c, e.id));
    }
  }
  template <class X> void ins(X& ix, const Op& o, lst) {
    E e = mk(o.a[2], o.a[3]);
    std::pair<typename X::iterator, bool> p;
    switch (o.a[4] % 5) {
      case 0: p = ix.push_back(MV(e)); break;
      case 1: p = ix.push_front(MV(e)); break;
      case 2: p = ix.insert(nth(ix, unsigned(o.a[1] % (ix.size() + 1))), MV(e)); break;
      case 3: p = ix.emplace(nth(ix, unsigned(o.a[1] % (ix.size() + 1))), e.a, e.b, e.c, e.id); break;
      default: p = ix.emplace_back(e.a, e.b, e.c, e.id);
    }
    v.L.num(p.second); place(ix, p.first);
  }
  template <class X, class It> void insRange(X& ix, It f, It l, unsigned, keyed) { ix.insert(f, l); }
  template <class X, class It> void insRange(X& ix, It f, It l, unsigned p, lst) { ix.insert(nth(ix, unsigned(p % (ix.size() + 1))), f, l); }
  template <class X, class Tag> void bulk(X& ix, const Op& o, unsigned n, Tag tag) {
#if TR_MOVEONLY
    std::vector<Src> w;
#else
    std::vector<E> w;
#endif
    for (unsigned i = 0; i < n; ++i) { E e = mk(o.a[2] + i * (o.a[4] % 13), o.a[3] + i * i); Src q = {e.a, e.b, e.c, e.id}; w.push_back(q); }
    insRange(ix, w.begin(), w.end(), o.a[1], tag);
  }

  // ---- erasure
  template <class X, class Tag> void era(X& ix, const Op& o, Tag) {
    if (ix.empty()) return;
    place(ix, ix.erase(nth(ix, unsigned(o.a[1] % ix.size()))));
  }
  template <class X> void eraKey(X& ix, int k, const Op& o, keyed) { if (o.a[4] % 3) v.L.num(long(ix.erase(k))); else eraRange(ix, o); }
  template <class X> void eraKey(X& ix, const boost::tuple<int, int>& k, const Op& o, keyed) {
    if (o.a[4] % 3 == 0) { eraRange(ix, o); return; }
    std::pair<typename X::iterator, typename X::iterator> p = ix.equal_range(k);
    place(ix, ix.erase(p.first, p.second));
  }
  template <class X, class Key> void eraKey(X& ix, const Key&, const Op& o, lst) { if (!ix.empty() && o.a[4] % 3 == 0) ix.pop_back(); else if (!ix.empty() && o.a[4] % 3 == 1) ix.pop_front(); else eraRange(ix, o); }
  template <class X> void eraRange(X& ix, const Op& o) {
    unsigned n = unsigned(ix.size()), f = n ? unsigned(o.a[1] % (n + 1)) : 0, l = f + unsigned(o.a[2] % 5);
    if (l > n) l = n;
    place(ix, ix.erase(nth(ix, f), nth(ix, l)));
  }

  // ---- lookup
  template <class X, class P> void rangeOut(X& ix, const P& p) { place(ix, p.first); place(ix, p.second); }
  template <class X, class Key> void look(X& ix, const Key& k, const Op&, keyed) {
    place(ix, ix.find(k)); v.L.num(long(ix.count(k))); v.L.num(ix.contains(k)); rangeOut(ix, ix.equal_range(k));
  }
  template <class X, class Key> void look(X& ix, const Key& k, const Op& o, ord) {
    look(ix, k, o, keyed());
    place(ix, ix.lower_bound(k)); place(ix, ix.upper_bound(k));
    bounds(ix, k, o);
  }
  template <class X> void bounds(X& ix, int k, const Op& o) {
    rangeOut(ix, ix.range(Lower(k), Upper(k + int(o.a[4] % 9) - 2)));
    rangeOut(ix, ix.range(bmi::unbounded, Upper(k)));
    rangeOut(ix, ix.range(Lower(k), bmi::unbounded));
  }
  template <class X> void bounds(X& ix, const boost::tuple<int, int>& k, const Op&) {
    int p = boost::tuples::get<0>(k);
    place(ix, ix.find(boost::make_tuple(p))); v.L.num(long(ix.count(boost::make_tuple(p)))); rangeOut(ix, ix.equal_range(boost::make_tuple(p)));
    v.L.num(long(ix.count(p)));
    if (!ix.empty()) {
      typename X::key_from_value kx = ix.key_extractor();
      v.L.num(kx(*ix.begin()) == k); v.L.num(k < kx(*ix.begin())); v.L.num(kx(*ix.begin()) < kx(*nth(ix, unsigned(ix.size() - 1))));
    }
  }
  template <class X, class Key> void look(X& ix, const Key& k, const Op& o, rnk) {
    look(ix, k, o, ord());
    v.L.num(long(ix.find_rank(k))); v.L.num(long(ix.lower_bound_rank(k))); v.L.num(long(ix.upper_bound_rank(k)));
    v.L.num(long(ix.equal_range_rank(k).first)); v.L.num(long(ix.equal_range_rank(k).second));
    v.L.num(long(ix.range_rank(Lower(k), Upper(k + 3)).second));
  }
  template <class X> void look(X& ix, int k, const Op& o, hsh) { look(ix, k, o, keyed()); v.L.num(long(ix.bucket_size(ix.bucket(k)))); v.L.num(long(ix.bucket(k))); }
  template <class X> void look(X& ix, const boost::tuple<int, int>& k, const Op& o, hsh) { look(ix, k, o, keyed()); }
  template <class X, class Key> void look(X& ix, const Key&, const Op& o, lst) {
    if (!ix.empty()) { v.L.num(ix.front().id); v.L.num(ix.back().id); }
    lookL(ix, o, static_cast<typename std::vector<int>*>(0));
  }
  template <class X> void lookL(X& ix, const Op& o, void*) { v.L.num(long(ix.size())); idx(ix, o, typename X::iterator()); }
  template <class X, class It> void idx(X&, const Op&, It) {}
  // ---- random access only
  template <class X> void raLook(X& ix, const Op& o) {
    unsigned n = unsigned(ix.size());
    if (n) {
      unsigned i = o.a[1] % n, j = o.a[2] % n;
      v.L.num(ix[i].id);
      typename X::iterator p = ix.begin() + long(i), q = ix.begin() + long(j);
      v.L.num(long(q - p)); v.L.num(p < q); v.L.num((p + (q - p))->id); v.L.num(p[long(j) - long(i)].id);
    }
    if (n) v.L.num(ix.at(o.a[3] % n).id);
#ifndef TR_NOEXC
    if (v.exc) try { v.L.num(ix.at(o.a[3] % (n + 3)).id); } catch (const std::out_of_range&) { v.L.word("out of range "); }
#endif
  }

  // ---- modification
  template <class X, class Tag> void repl(X& ix, const Op& o, Tag) {
    if (ix.empty()) return;
    typename X::iterator it = nth(ix, unsigned(o.a[1] % ix.size()));
    int id = it->id;
    E e = mk(o.a[2], o.a[3]);
    e.id = id;
    if (o.a[4] % 3 == 0) { e.b = it->b; e.c = it->c; }
    v.L.num(ix.replace(it, MV(e)));
  }
  template <class X> void modi(X& ix, const Op& o) {
    if (ix.empty()) return;
    typename X::iterator it = nth(ix, unsigned(o.a[1] % ix.size()));
    E e = mk(o.a[2], o.a[3]);
    if (o.a[4] % 3 == 0) e.a = it->a;
    ModAll m(e.a, e.b, e.c, 0), back(it->a, it->b, it->c, 0);
    if (o.a[4] / 3 % 2) v.L.num(ix.modify(it, m)); else v.L.num(ix.modify(it, m, back));
  }
  template <class X> void modKey(X& ix, const Op& o) {  // index keyed on a member
    if (ix.empty()) return;
    typename X::iterator it = nth(ix, unsigned(o.a[1] % ix.size()));
    int old = it->a;
    if (o.a[4] % 2) v.L.num(ix.modify_key(it, ModInt(int(o.a[2] % unsigned(v.da))), ModInt(old))); else v.L.num(ix.modify_key(it, ModInt(int(o.a[2] % unsigned(v.da)))));
  }

  // ---- hashing policy, list operations, capacity
  template <class X> void policy(X&, const Op&, keyed) {}
  template <class X> void policy(X& ix, const Op& o, hsh) {
    switch (o.a[1] % 3) {
      case 0: ix.rehash(o.a[2] % 400); break;
      case 1: ix.reserve(o.a[2] % 300); break;
      default: ix.max_load_factor(0.25f + float(o.a[2] % 8) * 0.25f);
    }
    v.L.num(long(ix.bucket_count())); v.L.num(long(ix.load_factor() * 1024)); v.L.num(long(ix.max_load_factor() * 1024));
  }
  template <class X> void policy(X& ix, const Op& o, lst) { listOp(ix, o); }
  template <class X> void listOp(X& ix, const Op& o) {
    unsigned n = unsigned(ix.size());
    switch (o.a[1] % 9) {
      case 0: ix.sort(LessA()); break;
      case 1: ix.sort(LessB()); break;
      case 2: ix.reverse(); break;
      case 3: ix.unique(EqB()); break;
      case 4: ix.remove_if(IdMod(3 + int(o.a[2] % 9))); break;
      case 5: if (n) ix.relocate(nth(ix, o.a[2] % (n + 1)), nth(ix, o.a[3] % n)); break;
      case 6: if (n) {
        unsigned f = o.a[2] % n, l = f + 1 + o.a[3] % (n - f), p = f && o.a[4] % 2 ? o.a[4] / 2 % f : l + o.a[4] / 2 % (n - l + 1);
        ix.relocate(nth(ix, p), nth(ix, f), nth(ix, l));
      } break;
      case 7: {
        std::vector<boost::reference_wrapper<const E> > w;
        for (typename X::iterator i = ix.begin(); i != ix.end(); ++i) w.push_back(boost::cref(*i));
        for (unsigned i = n; i > 1; --i) std::swap(w[i - 1], w[(o.a[2] / i + i * i) % i]);
        ix.rearrange(w.begin());
        break;
      }
      default: ix.unique();
    }
  }

  // ---- transfers, nodes
  template <class X> void xfer(X& ix, X& jx, const Op& o, keyed) {
    switch (o.a[1] % 3) {
      case 0: ix.merge(jx); break;
      case 1: if (!jx.empty()) v.L.num(ix.merge(jx, nth(jx, unsigned(o.a[2] % jx.size()))).second); break;
      default: if (!jx.empty()) { unsigned n = unsigned(jx.size()), f = o.a[2] % n, l = f + o.a[3] % (n - f + 1); ix.merge(jx, nth(jx, f), nth(jx, l)); }
    }
  }
  template <class X> void xfer(X& ix, X& jx, const Op& o, lst) {
    unsigned n = unsigned(jx.size()), p = unsigned(o.a[4] % (ix.size() + 1));
    switch (o.a[1] % 4) {
      case 0: ix.splice(nth(ix, p), jx); break;
      case 1: if (n) ix.splice(nth(ix, p), jx, nth(jx, o.a[2] % n)); break;
      case 2: if (n) { unsigned f = o.a[2] % n, l = f + o.a[3] % (n - f + 1); ix.splice(nth(ix, p), jx, nth(jx, f), nth(jx, l)); } break;
      default: ix.sort(LessB()); jx.sort(LessB()); ix.merge(jx, LessB());
    }
  }
  template <class X> void node(X& ix, X& jx, const Op& o, keyed) {
    if (ix.empty()) return;
    typename X::node_type nh = ix.extract(nth(ix, unsigned(o.a[1] % ix.size())));
    v.L.num(nh.value().id);
    if (o.a[2] % 3 == 0) nh.value().c = int(o.a[3] % unsigned(v.dc));
    if (o.a[4] % 4 == 0) return;
    if (o.a[4] % 4 == 1) { place(jx, jx.insert(nth(jx, unsigned(o.a[3] % (jx.size() + 1))), boost::move(nh))); v.L.num(nh.empty()); return; }
    typename X::insert_return_type r = jx.insert(boost::move(nh));
    v.L.num(r.inserted); place(jx, r.position); v.L.num(r.node.empty());
  }
  template <class X> void node(X& ix, X& jx, const Op& o, lst) {
    if (ix.empty()) return;
    typename X::node_type nh = ix.extract(nth(ix, unsigned(o.a[1] % ix.size())));
    v.L.num(nh.value().id);
    if (o.a[4] % 4 == 0) return;
    typename X::insert_return_type r = jx.insert(nth(jx, unsigned(o.a[3] % (jx.size() + 1))), boost::move(nh));
    v.L.num(r.inserted); place(jx, r.position); v.L.num(r.node.empty());
  }
  template <class X> void cmp(X& ix, X& jx, keyed) { v.L.num(ix == jx); v.L.num(ix != jx); }
  template <class X> void cmp(X& ix, X& jx, ord) { cmp2(ix, jx); }
  template <class X> void cmp(X& ix, X& jx, lst) { cmp2(ix, jx); }
  template <class X> void cmp2(X& ix, X& jx) { v.L.num(ix == jx); v.L.num(ix < jx); v.L.num(ix <= jx); v.L.num(ix > jx); v.L.num(ix != jx); v.L.num(ix >= jx); }
  template <class X> void cmp(X& ix, X& jx, hsh) { v.L.num(ix == jx); v.L.num(ix != jx); }

  void copies(const Op& o) {
    switch (o.a[1] % 6) {
#if !TR_MOVEONLY
      case 0: { C z(x); dump(z); y.swap(z); break; }
      case 1: y = x; break;
      case 2: { C z(x); x = boost::move(y); y = boost::move(z); break; }
#endif
      case 3: x.swap(y); break;
      case 4: { C z(boost::move(x)); x = boost::move(y); y = boost::move(z); break; }
      case 5: { C z; z.swap(y); break; }
      default: break;
    }
  }
  void ser(const Op&) {
#if TR_SER
    std::ostringstream os;
    { boost::archive::text_oarchive oa(os); const C& cx = x; oa << cx; }
    std::string s = os.str();
    if (v.archOut) v.archOut(v.archCtx, s.data(), (unsigned long)s.size());
    if (v.archNo < v.nArchIn) s = v.archIn[v.archNo];
    ++v.archNo;
    std::istringstream is(s);
    boost::archive::text_iarchive ia(is);
    ia >> y;
#endif
  }

  template <int I> void opI(const Op& o, boost::mpl::true_) {
    if (int(o.a[0] / 2 % N) != I) { opI<I + 1>(o, boost::mpl::bool_<(I + 1 < N)>()); return; }
    typename boost::multi_index::nth_index<C, I>::type &ix = x.template get<I>(), &jx = y.template get<I>();
    typedef typename Ix<T, I>::tag tag;
    typedef MkKey<Ix<T, I>::m> MK;
    switch (o.k) {
      case 0: ins(ix, o, tag()); break;
      case 1: bulk(ix, o, 2 + o.a[1] % 9, tag()); break;
      case 2: era(ix, o, tag()); break;
      case 3: { E e = mk(o.a[2], o.a[3]); eraKey(ix, MK::mk(e), o, tag()); break; }
      case 4: { E e = mk(o.a[2], o.a[3]); look(ix, MK::mk(e), o, tag()); lookRA(ix, o, tag()); break; }
      case 5: repl(ix, o, tag()); break;
      case 6: modi(ix, o); break;
      case 7: policy(ix, o, tag()); break;
      case 8: xfer(ix, jx, o, tag()); break;
      case 9: copies(o); break;
      case 10: node(ix, jx, o, tag()); break;
      case 11: cmp(ix, jx, tag()); break;
      case 12: ser(o); break;
      case 13: bulk(ix, o, 25 + o.a[1] % 70, tag()); break;
      case 14: mk_(ix, o, boost::mpl::bool_<Ix<T, I>::m == 0>()); break;
      case 15: capacity(ix, o, tag()); break;
      default: x.swap(y);
    }
  }
  template <int I> void opI(const Op&, boost::mpl::false_) {}
  template <class X> void mk_(X& ix, const Op& o, boost::mpl::true_) { modKey(ix, o); }
  template <class X> void mk_(X& ix, const Op& o, boost::mpl::false_) { modi(ix, o); }
  template <class X, class Tag> void lookRA(X&, const Op&, Tag) {}
  template <class X> void lookRA(X& ix, const Op& o, ra) { raLook(ix, o); }
  template <class X, class Tag> void capacity(X& ix, const Op&, Tag) { ix.clear(); }
  template <class X> void capacity(X& ix, const Op& o, ra) { if (o.a[1] % 2) ix.reserve(o.a[2] % 200); else ix.shrink_to_fit(); v.L.num(long(ix.capacity())); }

  void run(const unsigned* ops, int n, u64* digests, int want, std::string* text) {
    for (int i = 0; i < n; ++i) {
      Op o;
      o.k = ops[i * 6];
      for (int q = 0; q < 5; ++q) o.a[q] = ops[i * 6 + 1 + q];
      v.L.text = i == want ? text : 0;
      opI<0>(o, boost::mpl::true_());
      dump(x);
      dump(y);
      digests[i] = v.L.h;
    }
  }
};
}  // namespace

#ifdef TR_NOEXC
#include <boost/assert/source_location.hpp>
namespace boost {
BOOST_NORETURN void throw_exception(const std::exception&) { abort(); }
BOOST_NORETURN void throw_exception(const std::exception&, const boost::source_location&) { abort(); }
}
#endif
// 1: serialization, 2: elements are not copied, 4: no exceptions
extern "C" __attribute__((visibility("default"))) int vf_caps() {
  int c = TR_SER;
#if TR_MOVEONLY
  c |= 2;
#endif
#ifdef TR_NOEXC
  c |= 4;
#endif
  return c;
}
extern "C" __attribute__((visibility("default"))) int vf_trace(const unsigned* P, const unsigned* ops, int n, u64* digests, int want, std::string* text,
                                                                const char* const* archIn, int nArchIn, void (*archOut)(void*, const char*, unsigned long), void* ctx) {
  Env e;
  e.nextId = 1;
  e.da = int(P[1]) + 1; e.db = int(P[2]) + 1; e.dc = int(P[3]) + 1;
  e.exc = (P[4] & 1) != 0;
  e.archIn = archIn; e.nArchIn = nArchIn; e.archNo = 0; e.archOut = archOut; e.archCtx = ctx;
  switch (P[0] % 5) {
    case 0: { Run<0> r(e); r.run(ops, n, digests, want, text); break; }
    case 1: { Run<1> r(e); r.run(ops, n, digests, want, text); break; }
    case 2: { Run<2> r(e); r.run(ops, n, digests, want, text); break; }
    case 3: { Run<3> r(e); r.run(ops, n, digests, want, text); break; }
    default: { Run<4> r(e); r.run(ops, n, digests, want, text); break; }
  }
  return 0;
}
