// Serialization beyond the machine: long histories of rearrangement (index_saver/index_matcher at
// size), versioned element types with constructor data, nested containers, shared elements, pointers
// to elements and to their parts, iterators of every kind (in safe mode as well), five archive
// formats, archives of earlier versions of the container.
#include "core.hpp"
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/polymorphic_text_iarchive.hpp>
#include <boost/archive/polymorphic_text_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/text_wiarchive.hpp>
#include <boost/archive/text_woarchive.hpp>
#include <boost/archive/xml_iarchive.hpp>
#include <boost/archive/xml_oarchive.hpp>
#include <boost/serialization/nvp.hpp>
#include <boost/serialization/shared_ptr.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/vector.hpp>
#include <boost/serialization/version.hpp>
#include <boost/tuple/tuple.hpp>
#include <sstream>
#ifdef VF_SAFE
#define BOOST_MULTI_INDEX_ENABLE_SAFE_MODE
#define BOOST_MULTI_INDEX_ENABLE_INVARIANT_CHECKING
#endif
#include <boost/multi_index_container.hpp>
#include <boost/multi_index/hashed_index.hpp>
#include <boost/multi_index/identity.hpp>
#include <boost/multi_index/member.hpp>
#include <boost/multi_index/ordered_index.hpp>
#include <boost/multi_index/random_access_index.hpp>
#include <boost/multi_index/ranked_index.hpp>
#include <boost/multi_index/sequenced_index.hpp>
namespace vf {
namespace bmi = boost::multi_index;
namespace bs = boost::serialization;
using bs::make_nvp;

typedef bmi::multi_index_container<int, bmi::indexed_by<bmi::sequenced<>, bmi::hashed_non_unique<bmi::identity<int>>, bmi::ranked_non_unique<bmi::identity<int>>>> Inner;
struct Sub {
  int v;
  template <class A> void serialize(A& a, unsigned) { a & bs::make_nvp("v", v); }
};
struct Elem {
  int id, key;
  std::string s;
  Sub sub;
  Inner in;
  int ctorKey;  // as given by load_construct_data
  explicit Elem(int i, int k = 0) : id(i), key(k), s("k" + std::to_string(k % 3)), sub{i * 3 + 1}, ctorKey(k) { for (int x = 0; x < (i % 7 == 0 ? i % 4 : 0); ++x) in.push_back(x & 1 ? k : i); }
  bool operator==(const Elem& x) const { return id == x.id && key == x.key && s == x.s && sub.v == x.sub.v && in == x.in; }
  template <class A> void serialize(A& a, unsigned v) {
    if (v != 5) VF_FAIL("element archived in version 5 loaded in version ", v);
    a & make_nvp("id", id); a & make_nvp("key", key); a & make_nvp("s", s); a & make_nvp("sub", sub); a & make_nvp("in", in);
  }
};
// an element version with which the container was archived, 5 or 0 (archives without it)
static unsigned& wantVersion() { static unsigned v = 5; return v; }
}  // namespace vf
BOOST_CLASS_VERSION(vf::Elem, 5)
namespace boost { namespace serialization {
template <class A> void save_construct_data(A& a, const vf::Elem* e, unsigned v) {
  if (v != 5) VF_FAIL("constructor data saved for version ", v);
  a << make_nvp("ctorkey", e->key);
}
template <class A> void load_construct_data(A& a, vf::Elem* e, unsigned v) {
  if (v != vf::wantVersion()) VF_FAIL("constructor data loaded for version ", v, " of version ", vf::wantVersion());
  int k = -1;
  if (v >= 3) a >> make_nvp("ctorkey", k);
  ::new (static_cast<void*>(e)) vf::Elem(-1, k);
}
}}
namespace vf {
template <class P> struct Sh {  // hash with a state
  unsigned m;
  explicit Sh(unsigned x = 1) : m(x) {}
  std::size_t operator()(const P& v) const { return m == 0 ? 7 : m == 1 ? boost::hash<P>()(v) : boost::hash<P>()(v) % m; }
};
template <class E, class M, M Elem::*PM> struct Get {
  typedef M result_type;
  const M& operator()(const E& e) const { return ref(e).*PM; }
  static const Elem& ref(const Elem& e) { return e; }
  static const Elem& ref(const boost::shared_ptr<Elem>& e) { return *e; }
};
#if VF_CFG == 0
typedef Elem V;
typedef Get<V, int, &Elem::id> KI; typedef Get<V, int, &Elem::key> KK; typedef Get<V, std::string, &Elem::s> KS;
typedef bmi::indexed_by<bmi::sequenced<>, bmi::random_access<>, bmi::ordered_non_unique<KK>, bmi::hashed_non_unique<KK, Sh<int>>, bmi::ranked_unique<KI>> IB;
enum { N_IX = 5, LIST = 0 };
#elif VF_CFG == 1
typedef Elem V;
typedef Get<V, int, &Elem::id> KI; typedef Get<V, int, &Elem::key> KK; typedef Get<V, std::string, &Elem::s> KS;
typedef bmi::indexed_by<bmi::hashed_unique<KI, Sh<int>>, bmi::ranked_non_unique<KK>, bmi::random_access<>, bmi::ordered_non_unique<KS>, bmi::hashed_non_unique<KS, Sh<std::string>>> IB;
enum { N_IX = 5, LIST = 2 };
#else
typedef boost::shared_ptr<Elem> V;
typedef Get<V, int, &Elem::id> KI; typedef Get<V, int, &Elem::key> KK; typedef Get<V, std::string, &Elem::s> KS;
typedef bmi::indexed_by<bmi::ordered_non_unique<KK, std::greater<int>>, bmi::sequenced<>, bmi::hashed_unique<KI, Sh<int>>, bmi::random_access<>, bmi::ranked_non_unique<KS>> IB;
enum { N_IX = 5, LIST = 1 };
#endif
typedef bmi::multi_index_container<V, IB> C;
template <int N> using IX = typename bmi::nth_index<C, N>::type;
static const Elem& el(const Elem& e) { return e; }
static const Elem& el(const boost::shared_ptr<Elem>& e) { return *e; }
template <class X, class = void> struct isHsh : std::false_type {};
template <class X> struct isHsh<X, std::void_t<decltype(std::declval<const X&>().bucket_count())>> : std::true_type {};
template <class F> void each(F&& f) {
  f(std::integral_constant<int, 0>()); f(std::integral_constant<int, 1>()); f(std::integral_constant<int, 2>()); f(std::integral_constant<int, 3>()); f(std::integral_constant<int, 4>());
}
template <class H> H hash(unsigned m) { if constexpr (std::is_constructible_v<H, unsigned>) return H(m); else return H(); }
template <std::size_t... N> typename C::ctor_args_list args(unsigned m, std::index_sequence<N...>) {
  auto one = [&](auto n) -> typename bmi::nth_index<C, decltype(n)::value>::type::ctor_args {
    typedef IX<decltype(n)::value> I;
    if constexpr (isHsh<I>::value) return typename I::ctor_args(0, typename I::key_from_value(), typename I::hasher(m), typename I::key_equal());
    else return typename I::ctor_args();
  };
  return boost::tuple<typename bmi::nth_index<C, int(N)>::type::ctor_args...>(one(std::integral_constant<int, int(N)>())...);
}
static C make(unsigned m) { return C(args(m, std::make_index_sequence<N_IX>())); }
#if VF_CFG == 2
static V mkv(int id, int key) { return boost::make_shared<Elem>(id, key); }
#else
static V mkv(int id, int key) { return Elem(id, key); }
#endif

enum { B_PUSH, B_PUSHMID, B_ROTATE, B_SHUFFLE, B_SORT, B_REVERSE, B_RELOC, B_BLOCK, B_KEY, B_ERASE, B_HINT, B_REHASH, B_SWAPPAIRS, B_NKIND };
static const char* bname[] = {"append", "insert at random", "rotate", "shuffle a range", "sort by key", "reverse", "relocate elements", "relocate a block", "change keys", "erase", "hinted insertion", "rehash", "swap neighbours"};
static void build(C& c, const Op& o, int& next) {
  auto& l = c.template get<LIST>();
  Rng r(o.a[4] + 1);
  std::size_t n = l.size();
  int cnt = 1 + int(o.a[0] % 4 == 0 ? o.a[1] % 300 : o.a[1] % 8), dom = 1 + int(o.a[2] % 40);
  auto at = [&](std::size_t p) { auto it = l.begin(); std::advance(it, std::ptrdiff_t(p)); return it; };
  auto arrange = [&](auto&& f) { std::vector<boost::reference_wrapper<const V>> v; for (auto& x : l) v.push_back(boost::cref(x)); f(v); l.rearrange(v.begin()); };
  switch (o.k % B_NKIND) {
    case B_PUSH: for (int i = 0; i < cnt; ++i) l.push_back(mkv(next++, int(r.below(dom)))); break;
    case B_PUSHMID: for (int i = 0; i < cnt; ++i) l.insert(at(r.below(l.size() + 1)), mkv(next++, int(r.below(dom)))); break;
    case B_ROTATE: if (n) l.relocate(l.end(), l.begin(), at(r.below(n))); break;
    case B_SHUFFLE: if (n) arrange([&](auto& v) { std::size_t a = r.below(n), b = std::min(n, a + 1 + o.a[3] % 200); for (std::size_t i = b - 1; i > a; --i) std::swap(v[i], v[a + r.below(i - a + 1)]); }); break;
    case B_SORT: l.sort([&](const V& x, const V& y) { return el(x).key < el(y).key; }); break;
    case B_REVERSE: l.reverse(); break;
    case B_RELOC: for (int i = 0; i < cnt && n; ++i) { auto a = at(r.below(n + 1)), b = at(r.below(n)); if (a != b) l.relocate(a, b); } break;
    case B_BLOCK: if (n) { std::size_t a = r.below(n), b = a + r.below(n - a + 1), p = r.below(n + 1); if (p < a || p >= b) l.relocate(at(p), at(a), at(b)); } break;
    case B_KEY:
      for (int i = 0; i < cnt && n; ++i) {
        auto it = at(r.below(n)); int k = int(r.below(dom)), id = el(*it).id;
        auto nv = mkv(id, k);
        if (!l.replace(it, nv)) VF_FAIL("replacement by the same identity refused");
      }
      break;
    case B_ERASE: if (o.a[3] % 2) cnt = std::min(cnt, 5); for (int i = 0; i < cnt && l.size() > 1; ++i) l.erase(at(r.below(l.size()))); break;
    case B_HINT: for (int i = 0; i < cnt; ++i) { V v = mkv(next++, int(r.below(dom))); auto p = at(r.below(l.size() + 1)); auto it = bmi::project<(LIST + 1) % N_IX>(c, p); if constexpr (VF_CFG == 0) c.template get<2>().insert(bmi::project<2>(c, it), v); else if constexpr (VF_CFG == 1) c.template get<1>().insert(bmi::project<1>(c, it), v); else c.template get<0>().insert(bmi::project<0>(c, it), v); } break;
    case B_REHASH: each([&](auto x) { constexpr int N = decltype(x)::value; if constexpr (isHsh<IX<N>>::value) c.template get<N>().rehash(o.a[3] % 500); }); break;
    case B_SWAPPAIRS: arrange([&](auto& v) { for (std::size_t i = 0; i + 1 < v.size(); i += 2) if (r.chance(1, 2)) std::swap(v[i], v[i + 1]); }); break;
  }
}
template <int N> void sameIndex(const C& a, const C& b, const char* w) {
  auto& i = a.template get<N>(); auto& j = b.template get<N>();
  if (i.size() != j.size()) VF_FAIL(w, ": ", j.size(), " elements restored of ", i.size());
  if constexpr (isHsh<IX<N>>::value) {
    for (auto& x : i) {
      auto r = j.equal_range(i.key_extractor()(x));
      std::size_t k = 0, e = i.count(i.key_extractor()(x)), f = 0;
      for (auto it = r.first; it != r.second; ++it, ++k) f += el(*it) == el(x);
      if (k != e || f != 1) VF_FAIL(w, ": index ", N, " holds ", k, " elements equivalent to ", el(x).id, ", expected ", e, " (", f, " equal to it)");
    }
    if (std::size_t(std::distance(j.begin(), j.end())) != i.size()) VF_FAIL(w, ": traversal of index ", N);
  } else {
    auto it = i.begin(); auto jt = j.begin();
    for (std::size_t k = 0; it != i.end(); ++it, ++jt, ++k) {
      if (jt == j.end()) VF_FAIL(w, ": index ", N, " ends early");
      if (!(el(*it) == el(*jt))) VF_FAIL(w, ": index ", N, ", position ", k, " of ", i.size(), ": element ", el(*jt).id, " restored where ", el(*it).id, " was");
    }
    if (jt != j.end()) VF_FAIL(w, ": index ", N, " is longer");
    auto q = j.end();
    for (auto p = i.end(); p != i.begin();) { --p; --q; if (el(*p).id != el(*q).id) VF_FAIL(w, ": index ", N, " backwards"); }
  }
}
static void same(const C& a, const C& b, const char* w) { each([&](auto x) { sameIndex<decltype(x)::value>(a, b, w); }); }

// makes an archive (XML) of class version v of the container out of one of the present version
static std::string legacy(std::string s, int v, bool oldIt) {
  // values: <value_version class_id=... .../> appears once per container type; containers other than
  // the outermost keep their version, so only the first is rewritten
  std::size_t p = s.find("<c class_id"), q = s.find('>', p);
  std::string head = s.substr(p, q - p), h2 = head;
  std::size_t w = h2.find("version=\"4\"");
  if (p == std::string::npos || w == std::string::npos) VF_FAIL("unexpected archive ", head);
  h2.replace(w, 11, "version=\"" + std::to_string(v) + "\"");
  s.replace(p, head.size(), h2);
  if (v < 2) {
    p = s.find("<value_version class_id=\""); q = s.find("</value_version>", p);
    int id = std::atoi(s.c_str() + p + 25);
    s.erase(p, q + 16 - p);
    if (VF_CFG != 2) for (p = 0; (p = s.find("<ctorkey>", p)) != std::string::npos;) { q = s.find("</ctorkey>", p); s.erase(p, q + 10 - p); }
    std::string o;
    for (p = 0; p < s.size();) {
      static const char* at[] = {"class_id=\"", "class_id_reference=\""};
      bool done = false;
      for (auto a : at) if (s.compare(p, std::strlen(a), a) == 0) {
        p += std::strlen(a);
        int k = std::atoi(s.c_str() + p);
        o += a; o += std::to_string(k > id ? k - 1 : k);
        while (s[p] == '-' || std::isdigit((unsigned char)s[p])) ++p;
        done = true;
        break;
      }
      if (!done) o += s[p++];
    }
    s = o;
  }
  if (oldIt) {  // iterators of hashed indices contained a pointer to the bucket array
    for (p = 0; (p = s.find("<hit", p)) != std::string::npos;) {
      q = s.find('>', p);
      std::string a = s.substr(p, q - p), b = a;
      w = b.find("version=\"1\"");
      if (w != std::string::npos) { b.replace(w, 11, "version=\"0\""); s.replace(p, a.size(), b); }
      q = s.find("</hit", p);
      const char* add = "<pointer class_id=\"-1\"></pointer>\n";
      s.insert(q, add);
      p = s.find("</hit", p) + 4;
    }
  }
  return s;
}

template <int N> using It = typename IX<N>::iterator;
struct Iters {
  std::tuple<std::vector<It<0>>, std::vector<It<1>>, std::vector<It<2>>, std::vector<It<3>>, std::vector<It<4>>> its;
  template <class A> void io(A& a) {
    each([&](auto x) {
      constexpr int N = decltype(x)::value;
      const char* nm = isHsh<IX<N>>::value ? "hit" : "it";
      for (auto& it : std::get<N>(its)) a & make_nvp(nm, it);
    });
  }
};
template <class I, bool H = isHsh<I>::value> struct Locals { template <class A> void io(A&) {} std::vector<int> v; };
template <class I> struct Locals<I, true> {
  std::vector<typename I::local_iterator> v;
  template <class A> void io(A& a) { for (auto& it : v) a & make_nvp("local", it); }
};
static bool ptrsToo() { return VF_CFG != 2; }

template <class OA, class IA, class SS> void roundTrip(const Case& cs, const C& c, const C& d, int fmt) {
  Rng r(cs.p(3) + 77);
  const int lv = fmt == 2 ? int(cs.p(2) % 6) : 4;        // container version of the archive
  const bool old = lv < 4, oldIt = old && r.chance(1, 2);
  SS ss;
  Iters is;
  std::vector<Elem*> ep; std::vector<Sub*> sp;
  std::vector<int> eid;
  std::vector<std::vector<int>> iid(N_IX);
  std::tuple<Locals<IX<0>>, Locals<IX<1>>, Locals<IX<2>>, Locals<IX<3>>, Locals<IX<4>>> loc;
  std::vector<std::vector<std::pair<int, std::size_t>>> lid(N_IX);
  each([&](auto x) {
    constexpr int N = decltype(x)::value;
    auto& i = const_cast<C&>(c).template get<N>();
    int k = int(cs.p(4) % 6);
    for (int q = 0; q < k; ++q) { auto it = i.begin(); std::size_t p = r.below(i.size() + 1); std::advance(it, p); std::get<N>(is.its).push_back(it); iid[N].push_back(it == i.end() ? -1 : el(*it).id); }
    if constexpr (isHsh<IX<N>>::value) if (!old) for (int q = 0; q < k; ++q) {
      std::size_t b = r.below(i.bucket_count());
      auto it = i.begin(b); std::size_t z = i.bucket_size(b), p = r.below(z + 1);
      std::advance(it, std::ptrdiff_t(p));
      std::get<N>(loc).v.push_back(it);
      lid[N].push_back({p == z ? -1 : el(*it).id, b});
    }
  });
  if (ptrsToo()) for (auto& x : c) if (r.chance(1, 5) && ep.size() < 20) { ep.push_back(const_cast<Elem*>(&el(x))); sp.push_back(const_cast<Sub*>(&el(x).sub)); eid.push_back(el(x).id); }
  const bool two = cs.p(4) % 2 && lv >= 2;
  {
    OA oa(ss);
    const C& cc = c; const C& dd = d;
    oa << make_nvp("c", cc);
    is.io(oa);
    for (auto p : ep) oa << make_nvp("e", p);
    for (auto p : sp) oa << make_nvp("sub", p);
    if (two) oa << make_nvp("d", dd);
    each([&](auto x) { std::get<decltype(x)::value>(loc).io(oa); });
    is.io(oa);
  }
  C c2 = make(unsigned(r.below(4))), d2 = make(unsigned(r.below(4)));
  int next = 1000000;
  if (cs.p(1) % 3) for (int q = 0; q < 3; ++q) { Op o; o.k = q; o.a[0] = 1; o.a[1] = 5; o.a[2] = 3; o.a[4] = q; build(c2, o, next); }
  Iters js; std::vector<Elem*> fp(ep.size()), gp; std::vector<Sub*> tp(sp.size());
  Iters ks;
  decltype(loc) loc2;
  each([&](auto x) {
    constexpr int N = decltype(x)::value;
    // loaded over singular iterators and over ones into some container
    std::get<N>(js.its).resize(std::get<N>(is.its).size(), r.chance(1, 2) ? It<N>() : d2.template get<N>().end());
    std::get<N>(ks.its).resize(std::get<N>(is.its).size(), c2.template get<N>().begin() == c2.template get<N>().end() ? It<N>() : It<N>());
    if constexpr (isHsh<IX<N>>::value) std::get<N>(loc2).v.resize(std::get<N>(loc).v.size());
  });
  if constexpr (std::is_same_v<SS, std::stringstream>) if (old) {
    ss.str(legacy(ss.str(), lv, oldIt));
    wantVersion() = lv < 2 && VF_CFG != 2 ? 0 : 5;
    VF_HIT("archive of an earlier version loaded");
  }
  {
    IA ia(ss);
    ia >> make_nvp("c", c2);
    js.io(ia);
    for (auto& p : fp) ia >> make_nvp("e", p);
    for (auto& p : tp) ia >> make_nvp("sub", p);
    if (two) ia >> make_nvp("d", d2);
    each([&](auto x) { std::get<decltype(x)::value>(loc2).io(ia); });
    ks.io(ia);
    wantVersion() = 5;
  }
  same(c, c2, "restored container");
  if (two) same(d, d2, "second restored container");
  if (lv >= 2) for (auto& x : c2) if (el(x).ctorKey != el(x).key && VF_CFG != 2) VF_FAIL("constructor data of element ", el(x).id);
  each([&](auto x) {
    constexpr int N = decltype(x)::value;
    auto& i = c2.template get<N>();
    for (int q = 0; q < 2; ++q) for (std::size_t k = 0; k < iid[N].size(); ++k) {
      auto it = std::get<N>((q ? ks : js).its)[k];
      if (iid[N][k] == -1) { if (it != i.end()) VF_FAIL("iterator to the end of index ", N, " is restored elsewhere"); }
      else {
        if (it == i.end() || el(*it).id != iid[N][k]) VF_FAIL("iterator of index ", N, " to element ", iid[N][k], " is restored elsewhere");
        if (it != i.iterator_to(*it)) VF_FAIL("restored iterator of index ", N, " is not that of its element");
        auto nx = it; ++nx; 
        if (std::distance(i.begin(), it) + 1 + std::distance(nx, i.end()) != std::ptrdiff_t(i.size())) VF_FAIL("traversal from a restored iterator of index ", N);
      }
    }
    if constexpr (isHsh<IX<N>>::value) for (std::size_t k = 0; k < lid[N].size(); ++k) {
      auto it = std::get<N>(loc2).v[k];
      if (lid[N][k].first == -1) {
        for (std::size_t b = 0; b < i.bucket_count(); ++b) if (it != i.end(b)) VF_FAIL("local end iterator is restored elsewhere");
      } else if (el(*it).id != lid[N][k].first) VF_FAIL("local iterator is restored elsewhere");
      else if (it != i.local_iterator_to(*it)) VF_FAIL("local iterator is not that of its element");
    }
  });
  auto& l = c2.template get<LIST>();
  for (std::size_t k = 0; k < fp.size(); ++k) {
    if constexpr (VF_CFG != 2) {
      const V* e = nullptr;
      for (auto& x : l) if (el(x).id == eid[k]) e = &x;
      if (fp[k] != &el(*e)) VF_FAIL("pointer to element ", eid[k], " does not point into the restored container");
      if (tp[k] != &el(*e).sub) VF_FAIL("pointer to a part of element ", eid[k], " does not point into the restored container");
      VF_FEAT("pointer to an element restored");
    }
  }
#if VF_CFG == 2
  if (two) {
    std::size_t shared = 0;
    for (auto& x : c.template get<2>()) { auto f = d.template get<2>().find(el(x).id); auto g = c2.template get<2>().find(el(x).id), h = d2.template get<2>().find(el(x).id); if (f != d.template get<2>().end() && f->get() == x.get()) { ++shared; if (g->get() != h->get()) VF_FAIL("element ", el(x).id, " is no longer shared"); } }
    if (shared) VF_HIT("shared elements restored");
  }
#endif
  // the restored container works
  for (int q = 0; q < 4; ++q) { Op o; o.k = int(r.below(B_NKIND)); o.a[0] = 1; for (int z = 1; z < 5; ++z) o.a[z] = r.below(1000); int n2 = 2000000 + q * 1000; build(c2, o, n2); }
  each([&](auto x) {
    constexpr int N = decltype(x)::value;
    auto& i = c2.template get<N>();
    if constexpr (isHsh<IX<N>>::value) { for (auto& v : i) if (!i.count(i.key_extractor()(v))) VF_FAIL("element not found after loading"); }
    else if (std::size_t(std::distance(i.begin(), i.end())) != c2.size()) VF_FAIL("traversal after loading");
  });
  if (c.size() > 30) VF_HIT("container of more than 30 elements restored");
  if (cs.p(4) % 6) VF_FEAT("iterators restored");
}

static Case gen(Rng& r, int) {
  Case c;
  c.P = {uint32_t(r.below(12)), uint32_t(r.below(6)), uint32_t(r.below(1000)), uint32_t(r.below(1u << 20)), uint32_t(r.below(1000))};
  int n = 1 + int(r.below(14));
  for (int i = 0; i < n; ++i) {
    Op o;
    o.k = i == 0 ? B_PUSH : r.chance(1, 4) ? B_PUSH : int(r.below(B_NKIND));
    o.a[0] = r.below(16); for (int z = 1; z < 4; ++z) o.a[z] = r.below(1000);
    o.a[4] = r.below(1u << 20);
    c.ops.push_back(o);
  }
  return c;
}
static const char* fname[] = {"text", "binary", "XML", "wide text", "polymorphic text"};
static int fmtOf(const Case& c) { static const int f[] = {0, 0, 1, 1, 2, 2, 2, 2, 3, 4, 1, 0}; return f[c.p(0) % 12]; }
static std::string show(const Case& c) { std::string s = cat(fname[fmtOf(c)], ", version ", fmtOf(c) == 2 && c.p(2) % 6 < 4 ? c.p(2) % 6 : 4, ": "); for (auto& o : c.ops) s += cat(bname[o.k % B_NKIND], "; "); return s; }
static void run(const Case& cs) {
  wantVersion() = 5;
  Rng r(cs.p(3));
  C c = make(unsigned(r.below(4))), d = make(1);
  int next = 0;
  for (std::size_t k = 0; k < cs.ops.size(); ++k) {
    build(c, cs.ops[k], next);
    ++stats().feat[bname[cs.ops[k].k % B_NKIND]];
    if (k == cs.ops.size() / 2) d = c;
  }
  if (VF_CFG != 2) { Op o{}; o.k = B_SHUFFLE; o.a[3] = 5; build(d, o, next); }
  switch (fmtOf(cs)) {
    case 0: roundTrip<boost::archive::text_oarchive, boost::archive::text_iarchive, std::stringstream>(cs, c, d, 0); break;
    case 1: roundTrip<boost::archive::binary_oarchive, boost::archive::binary_iarchive, std::stringstream>(cs, c, d, 1); break;
    case 2: roundTrip<boost::archive::xml_oarchive, boost::archive::xml_iarchive, std::stringstream>(cs, c, d, 2); break;
    case 3: roundTrip<boost::archive::text_woarchive, boost::archive::text_wiarchive, std::wstringstream>(cs, c, d, 3); break;
    default: roundTrip<boost::archive::polymorphic_text_oarchive, boost::archive::polymorphic_text_iarchive, std::stringstream>(cs, c, d, 4);
  }
  VF_FEAT(fname[fmtOf(cs)]);
}
}  // namespace vf
int main(int argc, char** argv) {
  vf::Harness h;
  h.name = VF_NAME;
  h.gen = vf::gen;
  h.run = vf::run;
  h.show = vf::show;
  h.nontrivial_threshold = 1;
  return vf::worker_main(argc, argv, h);
}
