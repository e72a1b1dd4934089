// Key extractors: every predefined extractor against every documented form of access
// (object, const object, reference_wrapper, chains of raw/smart pointers and iterators),
// and containers of pointers against containers keyed on the pointee.
#include "core.hpp"
#include <memory>
#include <list>
#include <map>
#include <cstddef>
#define BOOST_MULTI_INDEX_DISABLE_SERIALIZATION
#include <boost/multi_index_container.hpp>
#include <boost/multi_index/composite_key.hpp>
#include <boost/multi_index/global_fun.hpp>
#include <boost/multi_index/hashed_index.hpp>
#include <boost/multi_index/identity.hpp>
#include <boost/multi_index/key.hpp>
#include <boost/multi_index/mem_fun.hpp>
#include <boost/multi_index/member.hpp>
#include <boost/multi_index/ordered_index.hpp>
#include <boost/multi_index/ranked_index.hpp>
#include <boost/multi_index/sequenced_index.hpp>
#include <boost/multi_index/random_access_index.hpp>
#include <boost/ref.hpp>
#include <boost/tuple/tuple.hpp>
namespace vf {
namespace bmi = boost::multi_index;
struct Pad { int pad = 0x5a5a; virtual ~Pad() {} };
struct Base {
  int x = 0;
  Base() {}
  Base(const Base& b) : x(b.x) { ++copies(); }  // extraction is not to copy (and slice) the object
  static int& copies() { static int n = 0; return n; }
  virtual ~Base() {}
  virtual int vb() const { return -1; }
  virtual int vbn() { return -2; }
  virtual const int& vbr() const { static int n = -3; return n; }
  int bx() const { return x + 1000; } int bxn() { return x + 1500; } int bxq() const noexcept { return x + 1700; } };
struct V : Pad, Base {
  int id = 0, a = 0; const int k; std::string s; int copies = 0;
  V(int i, int a_, int k_) : id(i), a(a_), k(k_), s("s" + std::to_string(a_)) { x = a_ * 3; }
  V(const V&) = delete;
  // overload sets that can be told apart
  int f() { return a + 1; }
  int f() const { return a + 2; }
  int f() volatile { return a + 3; }
  int f() const volatile { return a + 4; }
  int g() & { return a + 11; }
  int g() const& { return a + 12; }
  int g() volatile& { return a + 13; }
  int g() const volatile& { return a + 14; }
  int h() noexcept { return a + 21; }
  int hc() const noexcept { return a + 22; }
  int hv() volatile noexcept { return a + 23; }
  int hcv() const volatile noexcept { return a + 24; }
  int hr() & noexcept { return a + 25; }
  int hcr() const& noexcept { return a + 26; }
  int& ra() { return a; }
  const int& rca() const { return a; }
  const std::string& str() const { return s; }
  std::string sval() const { return s; }
  int vb() const override { return x + 1800; }
  int vbn() override { return x + 1900; }
  const int& vbr() const override { return x; }
  static int sf(const V& v) { return v.a + 31; }
  static int sfn(V& v) { return v.a + 32; }
};
inline int gc(const V& v) { return v.a + 41; }
inline int gn(V& v) { return v.a + 42; }
inline int& gr(V& v) { return v.a; }
inline const int& gcr(const V& v) { return v.a; }
inline int gx(const V& v) noexcept { return v.a + 43; }
inline int gbasev(const Base& b) { return b.vb(); }
inline int gbasen(Base& b) { return b.vbn(); }
inline int gbase(const Base& b) { return b.x + 44; }
struct P { int a, b; };  // copyable, for by-value functions and member_offset
inline int pv(P p) { return p.a * 7 + p.b; }
inline int pcv(const P p) { return p.a * 9 + p.b; }

// a smart pointer of one's own, and one whose * yields a proxy-free const reference
template <class T> struct Smart { T* p; T& operator*() const { return *p; } };
template <class T> struct Deep { T v; T& operator*() { return v; } const T& operator*() const { return v; } };

// forms giving const access; pointers to const are for extractors that do not write
template <bool Chains = true, class T, class F> void cforms(T& v, F f) {
  const T& cv = v;
  const T* cp = &v;
  f("const object", cv, v);
  f("reference_wrapper<const>", boost::cref(v), v);
  if constexpr (Chains) {
  f("const*", cp, v);
  f("const* const", static_cast<const T* const&>(cp), v);
  f("const**", &cp, v);
  std::shared_ptr<const T> sp(&v, [](const T*) {});
  f("shared_ptr<const>", sp, v);
  f("const shared_ptr<const>*", static_cast<const std::shared_ptr<const T>*>(&sp), v);
  std::unique_ptr<const T*> up(new const T*(cp));
  f("unique_ptr<const*>", up, v);
  f("unique_ptr<const*>*", &up, v);
  std::vector<const T*> vec(3, nullptr); vec[1] = cp;
  f("iterator to const*", vec.begin() + 1, v);
  f("const_iterator to const*", vec.cbegin() + 1, v);
  std::list<std::shared_ptr<const T>> li(1, sp);
  f("list iterator to shared_ptr<const>", li.begin(), v);
  f("own smart pointer", Smart<const T>{cp}, v);
  Deep<Smart<const T>> d{{cp}};
  f("chain of own smart pointers", d, v);
  Deep<Deep<Smart<const T>>> dd{{{cp}}};
  f("longer chain", static_cast<const Deep<Deep<Smart<const T>>>&>(dd), v);
  auto rw = boost::cref(v);
  f("pointer to reference_wrapper<const>", &rw, v);
  }
}
template <class T, class F> void forms(T& v, F f) {  // forms giving read/write access
  f("object", v, v);
  f("reference_wrapper", boost::ref(v), v);
  T* p = &v; T** pp = &p; T*** ppp = &pp;
  f("*", p, v);
  f("* const", static_cast<T* const&>(p), v);
  f("**", pp, v);
  f("***", ppp, v);
  f("* const*", static_cast<T* const*>(pp), v);
  std::shared_ptr<T> sp(&v, [](T*) {});
  f("shared_ptr", sp, v);
  f("const shared_ptr", static_cast<const std::shared_ptr<T>&>(sp), v);
  f("shared_ptr*", &sp, v);
  std::unique_ptr<std::shared_ptr<T>> usp(new std::shared_ptr<T>(sp));
  f("unique_ptr<shared_ptr>", usp, v);
  std::vector<T*> vec(3, nullptr); vec[2] = p;
  f("iterator to *", vec.begin() + 2, v);
  f("const_iterator to *", vec.cbegin() + 2, v);
  f("own smart pointer", Smart<T>{p}, v);
  Deep<Smart<T>> d{{p}};
  f("chain of own smart pointers", d, v);
  auto rw = boost::ref(v);
  f("pointer to reference_wrapper", &rw, v);
}
struct Form { static std::string& cur() { static std::string s; return s; } };

// value-returning extractors
template <class E, class T, class R> void rvalC(const char* w, T& v, const R& expect) {
  E e;
  cforms(v, [&](const char* fm, auto&& x, T&) { if (!(e(x) == expect)) VF_FAIL(w, " through ", fm, ": wrong key"); VF_FEAT("extraction, const access"); });
  forms(v, [&](const char* fm, auto&& x, T&) { if (!(e(x) == expect)) VF_FAIL(w, " through ", fm, ": wrong key"); VF_FEAT("extraction, read/write access"); });
}
template <class E, class T, class R> void rvalN(const char* w, T& v, const R& expect) {
  E e;
  forms(v, [&](const char* fm, auto&& x, T&) { if (!(e(x) == expect)) VF_FAIL(w, " through ", fm, ": wrong key"); VF_FEAT("extraction, read/write access"); });
}
// reference-returning extractors: CR is what const access must yield, NR read/write access
template <class CR, class NR, class E, class T, class O> void refs(const char* w, T& v, const O* obj) {
  E e;
  cforms<std::is_same<CR, NR>::value>(v, [&](const char* fm, auto&& x, T&) {
    static_assert(std::is_same<decltype(e(x)), CR>::value, "const access yields another type");
    auto&& r = e(x);
    if (static_cast<const void*>(&r) != static_cast<const void*>(obj)) VF_FAIL(w, " through ", fm, ": not a reference to the designated part");
    VF_FEAT("reference extraction, const access");
  });
  forms(v, [&](const char* fm, auto&& x, T&) {
    auto&& r = e(x);
    if (static_cast<const void*>(&r) != static_cast<const void*>(obj)) VF_FAIL(w, " through ", fm, ": not a reference to the designated part");
    static_assert(std::is_convertible<decltype(e(x)), NR>::value, "read/write access yields another type");
    VF_FEAT("reference extraction, read/write access");
  });
}
template <class NR, class E, class T, class O> void refsN(const char* w, T& v, const O* obj) {
  E e;
  forms(v, [&](const char* fm, auto&& x, T&) {
    static_assert(std::is_same<decltype(e(x)), NR>::value, "access yields another type");
    auto&& r = e(x);
    if (static_cast<const void*>(&r) != static_cast<const void*>(obj)) VF_FAIL(w, " through ", fm, ": not a reference to the designated part");
  });
}
// extractors of a base class applied to objects of the derived class
template <class E, class R> void derived(const char* w, V& v, const R& expect) {
  E e;
  auto one = [&](const char* fm, auto&& x) { if (!(e(x) == expect)) VF_FAIL(w, " through ", fm, ": wrong key"); VF_FEAT("extraction, from a derived object"); };
  V* p = &v; V** pp = &p;
  std::shared_ptr<V> sp(&v, [](V*) {});
  one("derived object", v); one("derived*", p); one("derived**", pp); one("shared_ptr<derived>", sp); one("shared_ptr<derived>*", &sp);
  one("own smart pointer to derived", Smart<V>{p});
}
// an extractor must not accept constant objects it could modify
template <class E, class X, class = void> struct accepts : std::false_type {};
template <class E, class X> struct accepts<E, X, std::void_t<decltype(std::declval<const E&>()(std::declval<X>()))>> : std::true_type {};

inline void extractAll(V& v) {
  typedef const int& ci;
  typedef int& i;
  refs<ci, i, bmi::member<V, int, &V::a>>("member", v, &v.a);
  refs<ci, ci, bmi::member<V, const int, &V::k>>("const member", v, &v.k);
  refs<const std::string&, std::string&, bmi::member<V, std::string, &V::s>>("string member", v, &v.s);
  refs<ci, i, bmi::key<&V::a>>("key<member>", v, &v.a);
  refs<ci, ci, bmi::key<&V::k>>("key<const member>", v, &v.k);
  refs<const V&, V&, bmi::identity<V>>("identity", v, &v);
  refs<const V&, const V&, bmi::identity<const V>>("const identity", v, &v);
  // an inherited member, through the derived object
  Base& b = v;
  refs<ci, i, bmi::key<&V::x>>("key<inherited member>", b, &v.x);
  refs<ci, i, bmi::member<Base, int, &Base::x>>("member of base", b, &v.x);
  derived<bmi::key<&V::x>>("key<inherited member>", v, v.x);
  derived<bmi::member<Base, int, &Base::x>>("member of base", v, v.x);
  if (&bmi::member<Base, int, &Base::x>()(v) != &v.x) VF_FAIL("member of base: not a reference to the member");

  rvalN<bmi::mem_fun<V, int, &V::f>>("mem_fun", v, v.a + 1);
  rvalC<bmi::const_mem_fun<V, int, &V::f>>("const_mem_fun", v, v.a + 2);
  rvalN<bmi::volatile_mem_fun<V, int, &V::f>>("volatile_mem_fun", v, v.a + 3);
  rvalC<bmi::cv_mem_fun<V, int, &V::f>>("cv_mem_fun", v, v.a + 4);
  rvalN<bmi::ref_mem_fun<V, int, &V::g>>("ref_mem_fun", v, v.a + 11);
  rvalC<bmi::cref_mem_fun<V, int, &V::g>>("cref_mem_fun", v, v.a + 12);
  rvalN<bmi::vref_mem_fun<V, int, &V::g>>("vref_mem_fun", v, v.a + 13);
  rvalC<bmi::cvref_mem_fun<V, int, &V::g>>("cvref_mem_fun", v, v.a + 14);
  rvalN<bmi::key<&V::h>>("key<mem_fun noexcept>", v, v.a + 21);
  rvalC<bmi::key<&V::hc>>("key<const mem_fun noexcept>", v, v.a + 22);
  rvalN<bmi::key<&V::hv>>("key<volatile mem_fun noexcept>", v, v.a + 23);
  rvalC<bmi::key<&V::hcv>>("key<const volatile mem_fun noexcept>", v, v.a + 24);
  rvalN<bmi::key<&V::hr>>("key<mem_fun & noexcept>", v, v.a + 25);
  rvalC<bmi::key<&V::hcr>>("key<const mem_fun & noexcept>", v, v.a + 26);
  rvalC<bmi::key<static_cast<int (V::*)() const>(&V::f)>>("key<const mem_fun>", v, v.a + 2);
  rvalN<bmi::key<static_cast<int (V::*)()>(&V::f)>>("key<mem_fun>", v, v.a + 1);
  rvalN<bmi::key<static_cast<int (V::*)() volatile>(&V::f)>>("key<volatile mem_fun>", v, v.a + 3);
  rvalC<bmi::key<static_cast<int (V::*)() const volatile>(&V::f)>>("key<cv mem_fun>", v, v.a + 4);
  rvalN<bmi::key<static_cast<int (V::*)() &>(&V::g)>>("key<mem_fun &>", v, v.a + 11);
  rvalC<bmi::key<static_cast<int (V::*)() const&>(&V::g)>>("key<const mem_fun &>", v, v.a + 12);
  rvalN<bmi::key<static_cast<int (V::*)() volatile&>(&V::g)>>("key<volatile mem_fun &>", v, v.a + 13);
  rvalC<bmi::key<static_cast<int (V::*)() const volatile&>(&V::g)>>("key<cv mem_fun &>", v, v.a + 14);
  rvalC<bmi::const_mem_fun_explicit<V, int, int (V::*)() const, &V::f>>("const_mem_fun_explicit", v, v.a + 2);
  rvalN<bmi::mem_fun_explicit<V, int, int (V::*)(), &V::f>>("mem_fun_explicit", v, v.a + 1);
  refsN<i, bmi::mem_fun_explicit<V, int&, int& (V::*)(), &V::ra>>("mem_fun_explicit int&", v, &v.a);
  rvalC<BOOST_MULTI_INDEX_CONST_MEM_FUN(V, int, f)>("BOOST_MULTI_INDEX_CONST_MEM_FUN", v, v.a + 2);
  rvalN<BOOST_MULTI_INDEX_MEM_FUN(V, int, f)>("BOOST_MULTI_INDEX_MEM_FUN", v, v.a + 1);
  rvalC<bmi::const_mem_fun<V, std::string, &V::sval>>("const_mem_fun by value", v, v.s);
  refs<const std::string&, const std::string&, bmi::const_mem_fun<V, const std::string&, &V::str>>("const_mem_fun by reference", v, &v.s);
  refs<ci, ci, bmi::const_mem_fun<V, const int&, &V::rca>>("const_mem_fun int const&", v, &v.a);
  refsN<i, bmi::mem_fun<V, int&, &V::ra>>("mem_fun int&", v, &v.a);
  refsN<i, bmi::key<&V::ra>>("key<mem_fun int&>", v, &v.a);
  rvalC<bmi::const_mem_fun<Base, int, &Base::bx>>("const_mem_fun of base", b, v.x + 1000); derived<bmi::const_mem_fun<Base, int, &Base::bx>>("const_mem_fun of base", v, v.x + 1000);
  rvalN<bmi::mem_fun<Base, int, &Base::bxn>>("mem_fun of base", b, v.x + 1500); derived<bmi::mem_fun<Base, int, &Base::bxn>>("mem_fun of base", v, v.x + 1500);
  rvalC<bmi::key<&V::bxq>>("key<inherited mem_fun>", b, v.x + 1700); derived<bmi::key<&V::bxq>>("key<inherited mem_fun>", v, v.x + 1700);

  rvalC<bmi::global_fun<const V&, int, &gc>>("global_fun const&", v, v.a + 41);
  rvalN<bmi::global_fun<V&, int, &gn>>("global_fun &", v, v.a + 42);
  rvalC<bmi::global_fun<const V&, int, &V::sf>>("static member const&", v, v.a + 31);
  rvalN<bmi::global_fun<V&, int, &V::sfn>>("static member &", v, v.a + 32);
  rvalC<bmi::key<&gx>>("key<global noexcept>", v, v.a + 43);
  rvalC<bmi::key<&gc>>("key<global>", v, v.a + 41);
  rvalC<bmi::const_mem_fun<Base, int, &Base::vb>>("virtual const_mem_fun of base", b, v.x + 1800); derived<bmi::const_mem_fun<Base, int, &Base::vb>>("virtual const_mem_fun of base", v, v.x + 1800);
  rvalN<bmi::mem_fun<Base, int, &Base::vbn>>("virtual mem_fun of base", b, v.x + 1900); derived<bmi::mem_fun<Base, int, &Base::vbn>>("virtual mem_fun of base", v, v.x + 1900);
  rvalC<bmi::key<&Base::vb>>("key<virtual mem_fun of base>", b, v.x + 1800);
  rvalC<bmi::global_fun<const Base&, int, &gbasev>>("global_fun calling a virtual of base", b, v.x + 1800); derived<bmi::global_fun<const Base&, int, &gbasev>>("global_fun calling a virtual of base", v, v.x + 1800);
  rvalN<bmi::global_fun<Base&, int, &gbasen>>("global_fun calling a virtual of base", b, v.x + 1900);
  if (Base::copies()) VF_FAIL("extraction copied the object");
  rvalC<bmi::global_fun<const Base&, int, &gbase>>("global_fun of base", b, v.x + 44); derived<bmi::global_fun<const Base&, int, &gbase>>("global_fun of base", v, v.x + 44);
  refsN<i, bmi::global_fun<V&, int&, &gr>>("global_fun int&(&)", v, &v.a);
  refs<ci, ci, bmi::global_fun<const V&, const int&, &gcr>>("global_fun const int&(const&)", v, &v.a);

  static_assert(!accepts<bmi::mem_fun<V, int&, &V::ra>, const V&>::value, "mem_fun accepts a constant object");
  static_assert(!accepts<bmi::mem_fun<V, int, &V::f>, const V&>::value, "mem_fun accepts a constant object");
  static_assert(!accepts<bmi::mem_fun<V, int, &V::f>, boost::reference_wrapper<const V>>::value || true, "");
  static_assert(!accepts<bmi::global_fun<V&, int, &gn>, const V&>::value, "global_fun(V&) accepts a constant object");

  // composite: every component is taken from the same object
  bmi::key<&V::a, &V::rca, &gx, &V::x> ck;
  cforms<>(v, [&](const char* fm, auto&& x, V&) { if (!(ck(x) == std::make_tuple(v.a, v.a, v.a + 43, v.x))) VF_FAIL("composite key<> through ", fm, ": wrong key"); });
}
inline void extractP(P& p) {
  rvalC<bmi::global_fun<P, int, &pv>>("global_fun by value", p, p.a * 7 + p.b);
  rvalC<bmi::key<&pv>>("key<global by value>", p, p.a * 7 + p.b);
  refs<const int&, int&, bmi::member<P, int, &P::b>>("member of aggregate", p, &p.b);
  refs<const int&, int&, bmi::member_offset<P, int, offsetof(P, b)>>("member_offset", p, &p.b);
  refs<const int&, const int&, bmi::member_offset<P, const int, offsetof(P, b)>>("const member_offset", p, &p.b);
  refs<const int&, int&, BOOST_MULTI_INDEX_MEMBER(P, int, a)>("BOOST_MULTI_INDEX_MEMBER", p, &p.a);
  int n = p.a;
  refs<const int&, int&, bmi::identity<int>>("identity<int>", n, &n);
  refs<const int&, const int&, bmi::identity<const int>>("identity<const int>", n, &n);
}

// ------------------------------------------------------------ containers of pointers
template <class Ptr> struct How;
template <> struct How<V*> { static V* make(V* p, V**) { return p; } static V* get(V* p) { return p; } static constexpr bool copy = true; };
template <> struct How<V**> { static V** make(V*, V** pp) { return pp; } static V* get(V** p) { return *p; } static constexpr bool copy = true; };
template <> struct How<std::shared_ptr<V>> { static std::shared_ptr<V> make(V* p, V**) { return std::shared_ptr<V>(p, [](V*) {}); } static V* get(const std::shared_ptr<V>& p) { return p.get(); } static constexpr bool copy = true; };
struct NoDel { void operator()(V*) const {} };
template <> struct How<std::unique_ptr<V, NoDel>> { static std::unique_ptr<V, NoDel> make(V* p, V**) { return std::unique_ptr<V, NoDel>(p); } static V* get(const std::unique_ptr<V, NoDel>& p) { return p.get(); } static constexpr bool copy = false; };
template <> struct How<boost::reference_wrapper<V>> { static boost::reference_wrapper<V> make(V* p, V**) { return boost::reference_wrapper<V>(*p); } static V* get(const boost::reference_wrapper<V>& p) { return p.get_pointer(); } static constexpr bool copy = true; };
template <> struct How<Smart<V>> { static Smart<V> make(V* p, V**) { return Smart<V>{p}; } static V* get(const Smart<V>& p) { return p.p; } static constexpr bool copy = true; };

template <class Ptr> struct PC {
  typedef bmi::multi_index_container<Ptr, bmi::indexed_by<
    bmi::ordered_unique<bmi::member<V, int, &V::id>>,
    bmi::ordered_non_unique<bmi::member<V, int, &V::a>>,
    bmi::hashed_non_unique<bmi::const_mem_fun<V, const int&, &V::rca>>,
    bmi::ranked_non_unique<bmi::composite_key<V, bmi::member<Base, int, &Base::x>, bmi::global_fun<const V&, int, &gx>>>,
    bmi::ordered_non_unique<bmi::mem_fun<V, int&, &V::ra>, std::greater<int>>,
    bmi::random_access<>>> C;
  static void check(const char* w, C& c, const std::vector<V*>& in) {
    if (c.size() != in.size()) VF_FAIL(w, ": size() is wrong");
    auto seq = [&](auto& ix, auto keyOf, const char* what) {
      std::vector<V*> g;
      for (auto& p : ix) g.push_back(How<Ptr>::get(p));
      for (std::size_t i = 1; i < g.size(); ++i) if (keyOf(g[i]) < keyOf(g[i - 1])) VF_FAIL(w, ": ", what, " index is not sorted by the pointee's key");
      std::sort(g.begin(), g.end());
      auto e = in; std::sort(e.begin(), e.end());
      if (g != e) VF_FAIL(w, ": ", what, " index shows the wrong pointees");
    };
    seq(c.template get<0>(), [](V* v) { return v->id; }, "id");
    seq(c.template get<1>(), [](V* v) { return v->a; }, "member");
    seq(c.template get<2>(), [](V*) { return 0; }, "hashed");
    seq(c.template get<3>(), [](V* v) { return std::make_pair(v->x, v->a); }, "composite");
    seq(c.template get<4>(), [](V* v) { return -v->a; }, "mem_fun");
    for (V* v : in) {
      auto it = c.template get<0>().find(v->id);
      if (it == c.template get<0>().end() || How<Ptr>::get(*it) != v) VF_FAIL(w, ": lookup by the pointee's key fails");
      std::size_t n = 0, m = 0;
      for (V* u : in) { n += u->a == v->a; m += u->a == v->a && u->x == v->x; }
      if (c.template get<1>().count(v->a) != n || c.template get<2>().count(v->a) != n || c.template get<4>().count(v->a) != n) VF_FAIL(w, ": count by the pointee's key is wrong");
      if (c.template get<3>().count(std::make_tuple(v->x, v->a + 43)) != m) VF_FAIL(w, ": count by composite key of the pointee is wrong");
    }
  }
  static void run(const Case& cs) {
    Rng r(cs.p(0));
    int dom = int(cs.p(1)) % 20 + 1, n = 24;
    std::vector<std::unique_ptr<V>> pool;
    std::vector<V*> raw;
    for (int i = 0; i < n; ++i) { pool.emplace_back(new V(int(r.below(uint32_t(n))), int(r.below(uint32_t(dom))), i)); pool.back()->x = int(r.below(3)); raw.push_back(pool.back().get()); }
    std::vector<V*> slots = raw;  // for V**
    C c;
    std::vector<V*> in;
    for (auto& o : cs.ops) {
      V* v = raw[o.a[0] % raw.size()];
      auto cur = std::find(in.begin(), in.end(), v);
      switch (o.k) {
        case 0: case 1: {
          if (cur != in.end()) break;
          bool clash = false;
          for (V* u : in) if (u->id == v->id) clash = true;
          bool ok = c.insert(How<Ptr>::make(v, &slots[o.a[0] % raw.size()])).second;
          if (ok == clash) VF_FAIL("insertion of a pointer ", ok ? "accepted with a clashing key" : "refused without a clash");
          if (ok) in.push_back(v);
          break;
        }
        case 2: {
          std::size_t e = 0;
          for (V* u : in) e += u->id == v->id;
          if (c.template get<0>().erase(v->id) != e) VF_FAIL("erase by the pointee's key is wrong");
          in.erase(std::remove_if(in.begin(), in.end(), [&](V* u) { return u->id == v->id; }), in.end());
          break;
        }
        case 3: {  // in-place change through the read/write extractor
          if (cur == in.end()) break;
          int na = int(o.a[2] % uint32_t(dom)), old = v->a;
          bool ok;
          if (o.a[3] % 2) ok = c.template get<1>().modify_key(c.template project<1>(c.template get<0>().find(v->id)), [&](int& k) { if (&k != &v->a) VF_FAIL("modify_key does not pass the designated part"); k = na; });
          else ok = c.template get<4>().modify_key(c.template project<4>(c.template get<0>().find(v->id)), [&](int& k) { if (&k != &v->a) VF_FAIL("modify_key does not pass the designated part"); k = na; }, [&](int& k) { k = old; });
          if (!ok || v->a != na) VF_FAIL("modify_key of the pointee's key did not take effect");
          if (na != old) VF_HIT("key of a pointee modified");
          break;
        }
        case 4: {  // clash and rollback
          if (cur == in.end()) break;
          int ni = int(o.a[2] % uint32_t(n)), old = v->id;
          bool clash = false;
          for (V* u : in) if (u != v && u->id == ni) clash = true;
          bool ok = c.template get<0>().modify_key(c.template get<0>().find(v->id), [&](int& k) { k = ni; }, [&](int& k) { k = old; });
          if (ok == clash || v->id != (clash ? old : ni)) VF_FAIL("modify_key with rollback of the pointee's key is wrong");
          if (clash) VF_HIT("modify_key of a pointee rolled back");
          break;
        }
        case 5: {
          if (cur == in.end()) break;
          int na = int(o.a[2] % uint32_t(dom)), nx = int(o.a[3] % 3);
          auto it = c.template get<2>().begin();
          while (How<Ptr>::get(*it) != v) ++it;
          if (!c.template get<2>().modify(it, [&](Ptr& p) { V* q = How<Ptr>::get(p); q->a = na; q->x = nx; })) VF_FAIL("modify of a pointee refused");
          VF_HIT("pointee modified");
          break;
        }
        case 6: {
          if (cur == in.end()) break;
          // through the hashed index, whose key is read-only: erase by key
          std::size_t e = 0;
          int a = v->a;
          for (V* u : in) e += u->a == a;
          if (o.a[4] % 4) break;
          if (c.template get<2>().erase(a) != e) VF_FAIL("hashed erase by the pointee's key is wrong");
          in.erase(std::remove_if(in.begin(), in.end(), [&](V* u) { return u->a == a; }), in.end());
          if (e > 1) VF_HIT("several pointees erased by key");
          break;
        }
        default: extractAll(*v); { P p{v->a, v->x}; extractP(p); }
      }
      check(opname(o.k), c, in);
    }
  }
  static const char* opname(uint32_t k) { static const char* n[] = {"insert", "insert", "erase", "modify_key", "modify_key with rollback", "modify", "hashed erase", "extract"}; return n[std::min(k, 7u)]; }
};
static void runCase(const Case& c) {
  switch (c.p(2) % 6) {
    case 0: PC<V*>::run(c); break;
    case 1: PC<V**>::run(c); break;
    case 2: PC<std::shared_ptr<V>>::run(c); break;
    case 3: PC<std::unique_ptr<V, NoDel>>::run(c); break;
    case 4: PC<boost::reference_wrapper<V>>::run(c); break;
    default: PC<Smart<V>>::run(c); break;
  }
}
static Case gen(Rng& r, int size) {
  Case c;
  c.P = {uint32_t(r.next() & 0xffffff), r.below(3) ? r.below(5) : r.below(20), r.below(6)};
  int n = 10 + int(r.below(uint32_t(15 + size / 3)));
  static const uint32_t w[] = {0, 0, 0, 0, 0, 2, 3, 3, 3, 4, 4, 5, 5, 6, 7};
  for (int i = 0; i < n; ++i) { Op o; o.k = i < 6 ? 0 : w[r.below(15)]; for (auto& a : o.a) a = uint32_t(r.next() & 0xffffff); c.ops.push_back(o); }
  return c;
}
static std::string show(const Case& c) {
  static const char* p[] = {"V*", "V**", "shared_ptr", "unique_ptr", "reference_wrapper", "own smart pointer"};
  std::string s = cat("container of ", p[c.p(2) % 6], ":");
  for (auto& o : c.ops) s += cat(" ", PC<V*>::opname(o.k), "(", o.a[0] % 24, ",", o.a[2] % 24, ")");
  return s;
}
}
int main(int argc, char** argv) {
  vf::Harness h;
  h.name = VF_NAME; h.gen = vf::gen; h.show = vf::show; h.run = vf::runCase; h.nontrivial_threshold = 2;
  return vf::worker_main(argc, argv, h);
}
