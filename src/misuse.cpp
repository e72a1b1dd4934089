// Safe mode as a judge of valid and invalid calls.  Three containers (two allocators)
// are driven by random calls whose iterator arguments are freely valid, past-the-end,
// of another container, stale (element erased, container destroyed) or singular.  The
// oracle computes from the documented preconditions which error codes apply: none ->
// the call must go through; some -> one of them must be reported and no container may
// have changed.  Kept iterators are re-checked after every call: those whose element
// lives (also after swap, move and transfer) must work, the others must be reported.
#include "core.hpp"
#include <memory>
#include <boost/multi_index/safe_mode_errors.hpp>
namespace vf { struct SafeErr { int code; }; }
#define BOOST_MULTI_INDEX_ENABLE_SAFE_MODE
#define BOOST_MULTI_INDEX_SAFE_MODE_ASSERT(expr, code) do { if (!(expr)) throw ::vf::SafeErr{int(boost::multi_index::code)}; } while (0)
#define BOOST_MULTI_INDEX_DISABLE_SERIALIZATION
#include <boost/multi_index_container.hpp>
#include <boost/multi_index/hashed_index.hpp>
#include <boost/multi_index/ordered_index.hpp>
#include <boost/multi_index/random_access_index.hpp>
#include <boost/multi_index/ranked_index.hpp>
#include <boost/multi_index/sequenced_index.hpp>
#include <boost/multi_index/member.hpp>
namespace vf {
namespace bmi = boost::multi_index;
namespace sm = boost::multi_index::safe_mode;

struct Item {
  static long& counter() { static long c = 0; return c; }
  int id, a;
  long uid;
  explicit Item(int i = 0, int a_ = 0) : id(i), a(a_), uid(++counter()) {}
#ifdef VF_MOVEONLY
  Item(const Item&) = delete;
  Item& operator=(const Item&) = delete;
#else
  Item(const Item& x) : id(x.id), a(x.a), uid(++counter()) {}
  Item& operator=(const Item& x) { id = x.id; a = x.a; return *this; }
#endif
  Item(Item&& x) : id(x.id), a(x.a), uid(++counter()) {}
  Item& operator=(Item&& x) { id = x.id; a = x.a; return *this; }
};
template <class T> struct SA {
  typedef T value_type;
  int tag;
  explicit SA(int t = 0) : tag(t) {}
  template <class U> SA(const SA<U>& x) : tag(x.tag) {}
  T* allocate(std::size_t n) { return static_cast<T*>(::operator new(n * sizeof(T))); }
  void deallocate(T* p, std::size_t) { ::operator delete(p); }
  template <class U> bool operator==(const SA<U>& x) const { return tag == x.tag; }
  template <class U> bool operator!=(const SA<U>& x) const { return tag != x.tag; }
};
enum Kind { OU, ON, RN, HU, HN, SQ, RA };
typedef bmi::member<Item, int, &Item::id> KI;
typedef bmi::member<Item, int, &Item::a> KA;
template <Kind> struct Spec;
template <> struct Spec<OU> { typedef bmi::ordered_unique<KI> type; };
template <> struct Spec<ON> { typedef bmi::ordered_non_unique<KA> type; };
template <> struct Spec<RN> { typedef bmi::ranked_non_unique<KA> type; };
template <> struct Spec<HU> { typedef bmi::hashed_unique<KI> type; };
template <> struct Spec<HN> { typedef bmi::hashed_non_unique<KA> type; };
template <> struct Spec<SQ> { typedef bmi::sequenced<> type; };
template <> struct Spec<RA> { typedef bmi::random_access<> type; };
template <Kind... K> struct IL {
  static constexpr Kind kind[sizeof...(K)] = {K...};
  static constexpr int N = sizeof...(K);
  typedef bmi::indexed_by<typename Spec<K>::type...> type;
};
typedef VF_LIST IXL;
typedef bmi::multi_index_container<Item, IXL::type, SA<Item>> C;
const int N = IXL::N, NS = 3;
constexpr bool lst(Kind k) { return k == SQ || k == RA; }
constexpr bool hsh(Kind k) { return k == HU || k == HN; }

typedef std::set<int> Codes;
static const char* codeName(int c) {
  static const char* n[] = {"invalid_iterator", "not_dereferenceable_iterator", "not_incrementable_iterator", "not_decrementable_iterator", "not_owner", "not_same_owner", "invalid_range", "inside_range", "out_of_bounds", "same_container", "unequal_allocators"};
  return c >= 0 && c < 11 ? n[c] : "?";
}
static std::string names(const Codes& c) { std::string s; for (int x : c) s += std::string(s.empty() ? "" : " or ") + codeName(x); return s; }

template <int I> using Ix = typename bmi::nth_index<C, I>::type;
template <int I> struct Kept {
  std::unique_ptr<typename Ix<I>::iterator> ip;
  long uid;      // 0: past the end of `slot`
  int slot;      // for past-the-end; -1: never valid / stale
};
// an iterator argument, with what the oracle knows about it
template <int I> struct Arg {
  typename Ix<I>::iterator it;
  int slot = -1;            // -1: invalid
  std::size_t pos = 0, n = 0;
  Arg(const typename Ix<I>::iterator& x) : it(x) {}
  bool ok() const { return slot >= 0; }
  bool end() const { return ok() && pos == n; }
};

struct M {
  std::unique_ptr<C> c[NS];
  int tag[NS];
  std::vector<std::array<long, 3>> snap[NS][N];
  std::map<long, int> alive;  // uid -> slot
  template <int... I> static auto kt(std::integer_sequence<int, I...>) -> std::tuple<std::vector<Kept<I>>...>;
  decltype(kt(std::make_integer_sequence<int, N>())) K;
  Rng r{1};
  int dom;
  std::string what;

  template <class F> static void withI(int i, F f) { withI_<0>(i, f); }
  template <int I, class F> static void withI_(int i, F& f) {
    if constexpr (I < N) { if (i == I) f(std::integral_constant<int, I>()); else withI_<I + 1>(i, f); }
  }
  template <int I = 0, class F> static void eachI(F f) { if constexpr (I < N) { f(std::integral_constant<int, I>()); eachI<I + 1>(f); } }

  std::vector<std::array<long, 3>> seq(int s, int i) {
    std::vector<std::array<long, 3>> v;
    withI(i, [&](auto Ic) { for (auto& x : c[s]->get<decltype(Ic)::value>()) v.push_back({x.uid, x.id, x.a}); });
    return v;
  }
  void resync() {
    alive.clear();
    for (int s = 0; s < NS; ++s) {
      for (int i = 0; i < N; ++i) {
        snap[s][i] = seq(s, i);
        if (snap[s][i].size() != c[s]->size()) VF_FAIL(what, ": index ", i, " shows ", snap[s][i].size(), " elements, size() is ", c[s]->size());
      }
      for (auto& x : snap[s][0]) alive[x[0]] = s;
    }
  }
  void unchanged() {
    for (int s = 0; s < NS; ++s) for (int i = 0; i < N; ++i)
      if (seq(s, i) != snap[s][i]) VF_FAIL(what, " was reported but changed container ", s, ", index ", i);
  }
  int slotOf(long uid) const { auto i = alive.find(uid); return i == alive.end() ? -1 : i->second; }
  std::size_t posOf(int s, int i, long uid) const { std::size_t p = 0; for (auto& x : snap[s][i]) { if (x[0] == uid) return p; ++p; } return p; }

  // re-checks the kept iterators
  void kept() {
    eachI([&](auto Ic) {
      constexpr int I = decltype(Ic)::value;
      for (auto& k : std::get<I>(K)) {
        bool threw = false; int code = -1; long got = 0;
        int s = k.uid ? slotOf(k.uid) : k.slot;
        try {
          if (s >= 0) {
            if (*k.ip != (k.uid ? c[s]->template get<I>().iterator_to(**k.ip) : c[s]->template get<I>().end())) VF_FAIL("after ", what, ": kept iterator of index ", I, " differs from a fresh one");
            if (k.uid) got = (**k.ip).uid;
          }
          else got = (**k.ip).uid;
        }
        catch (const SafeErr& e) { threw = true; code = e.code; }
        if (s >= 0) {
          if (threw) VF_FAIL("after ", what, ": a valid kept iterator of index ", I, " is reported as ", codeName(code));
          if (got != k.uid) VF_FAIL("after ", what, ": a kept iterator of index ", I, " designates another element");
          VF_FEAT("kept valid iterator accepted");
        }
        else {
          if (!threw || code != sm::invalid_iterator) VF_FAIL("after ", what, ": a stale kept iterator of index ", I, threw ? std::string(" is reported as ") + codeName(code) : std::string(" is accepted"));
          VF_FEAT("kept stale iterator reported");
        }
      }
    });
  }
  void dropEnds() {
    eachI([&](auto Ic) { for (auto& k : std::get<decltype(Ic)::value>(K)) if (!k.uid) { k.ip.reset(new typename Ix<decltype(Ic)::value>::iterator()); k.slot = -1; } });
  }

  template <int I> typename Ix<I>::iterator at(int s, std::size_t p) {
    auto& ix = c[s]->template get<I>();
    auto it = ix.begin();
    for (; p; --p) ++it;
    return it;
  }
  // an iterator of index I, mostly into slot s
  template <int I> Arg<I> pick(int s) {
    auto& ks = std::get<I>(K);
    int w = int(r.below(20));
    if (w >= 16 && w < 19 && !ks.empty()) {
      auto& k = ks[r.below(uint32_t(ks.size()))];
      Arg<I> a(*k.ip);
      a.slot = k.uid ? slotOf(k.uid) : k.slot;
      if (a.ok()) { a.n = snap[a.slot][I].size(); a.pos = k.uid ? posOf(a.slot, I, k.uid) : a.n; }
      return a;
    }
    if (w == 19) return Arg<I>(typename Ix<I>::iterator());
    int t = w < 13 ? s : int(r.below(NS));
    std::size_t n = snap[t][I].size(), p = w < 3 || n == 0 ? n : r.below(uint32_t(n));
    if (w == 3) p = 0;
    Arg<I> a(at<I>(t, p));
    a.slot = t; a.pos = p; a.n = n;
    return a;
  }
  template <class A> static void valid(Codes& c, const A& a) { if (!a.ok()) c.insert(sm::invalid_iterator); }
  template <class A> static void deref(Codes& c, const A& a) { valid(c, a); if (a.end()) c.insert(sm::not_dereferenceable_iterator); }
  template <class A> static void owner(Codes& c, const A& a, int s) { valid(c, a); if (a.ok() && a.slot != s) c.insert(sm::not_owner); }
  template <class A> static void at_(Codes& c, const A& a, int s) { deref(c, a); owner(c, a, s); }
  template <class A> static void range(Codes& c, const A& f, const A& l, int s) {
    owner(c, f, s); owner(c, l, s);
    if (f.ok() && l.ok() && (f.slot != l.slot || f.pos > l.pos)) { c.insert(sm::invalid_range); if (f.slot != l.slot) c.insert(sm::not_same_owner); }
  }
  template <class F> void attempt(const char* w, const Codes& codes, F f) {
    what = w;
    if (!codes.empty()) what += " (expected report: " + names(codes) + ")";
    try { f(); }
    catch (const SafeErr& e) {
      if (codes.empty()) VF_FAIL("valid use of ", w, " is reported as ", codeName(e.code));
      if (!codes.count(e.code)) VF_FAIL(what, " is reported as ", codeName(e.code));
      unchanged();
      kept();
      { std::string n = std::string("reported ") + codeName(e.code); VF_HIT("misuse reported"); ++stats().feat[n]; }
      return;
    }
    if (!codes.empty()) VF_FAIL(what, " is not reported");
    resync();
    kept();
    VF_FEAT("valid call accepted");
  }
  Item item() { return Item(int(r.below(uint32_t(dom))), int(r.below(uint32_t(dom / 2 + 1)))); }

  template <int I> void step(const Op& o, int s) {
    constexpr Kind k = IXL::kind[I];
    auto& ix = c[s]->template get<I>();
    const auto& cix = ix;
    int t = int(o.a[3] % NS);
    auto& jx = c[t]->template get<I>();
    bool eqal = tag[s] == tag[t];
    (void)cix; (void)jx; (void)eqal;
#ifdef VF_MOVEONLY
    bool xfer_bad = t != s && !eqal;
#else
    // lists fall back on copy and erasure
    bool xfer_bad = t != s && !eqal && !lst(k);
#endif
    Codes e;
    switch (o.k) {
      case 0: {
        auto a = pick<I>(s); deref(e, a);
        if (r.chance(1, 2)) attempt("*it", e, [&] { volatile int x = (*a.it).id; (void)x; });
        else attempt("it->", e, [&] { volatile int x = a.it->id; (void)x; });
        break;
      }
      case 1: {
        auto a = pick<I>(s); valid(e, a);
        int h = int(r.below(hsh(k) ? 2 : 4));
        if (h < 2 && a.end()) e.insert(sm::not_incrementable_iterator);
        if (h >= 2 && a.ok() && a.pos == 0) e.insert(sm::not_decrementable_iterator);
        switch (h) {
          case 0: attempt("++it", e, [&] { ++a.it; }); break;
          case 1: attempt("it++", e, [&] { a.it++; }); break;
          default: if constexpr (!hsh(k)) { if (h == 2) attempt("--it", e, [&] { --a.it; }); else attempt("it--", e, [&] { a.it--; }); }
        }
        break;
      }
      case 2: {
        auto a = pick<I>(s), b = pick<I>(s); valid(e, a); valid(e, b);
        if (a.ok() && b.ok() && a.slot != b.slot) e.insert(sm::not_same_owner);
        bool q = false;
        attempt("it==it", e, [&] { q = a.it == b.it; });
        if (e.empty() && q != (a.pos == b.pos)) VF_FAIL("iterator comparison is wrong");
        break;
      }
      case 3: {
        auto a = pick<I>(s), b = pick<I>(s); valid(e, a);
        attempt("iterator assignment", e, [&] { b.it = a.it; });
        break;
      }
      case 4: { auto a = pick<I>(s); at_(e, a, s); attempt("erase(it)", e, [&] { ix.erase(a.it); }); break; }
      case 5: {
        auto f = pick<I>(s), l = pick<I>(s); range(e, f, l, s);
        attempt("erase(first,last)", e, [&] { ix.erase(f.it, l.it); });
        break;
      }
      case 6: {
        auto a = pick<I>(s); at_(e, a, s);
        Item v = item();
#ifndef VF_MOVEONLY
        if (r.chance(1, 2)) { attempt("replace(it,const&)", e, [&] { ix.replace(a.it, v); }); break; }
#endif
        attempt("replace(it,&&)", e, [&] { ix.replace(a.it, std::move(v)); });
        break;
      }
      case 7: {
        auto a = pick<I>(s); at_(e, a, s);
        Item v = item(); int i0 = 0, a0 = 0; bool ran = false;
        auto mod = [&](Item& x) { ran = true; i0 = x.id; a0 = x.a; x.id = v.id; x.a = v.a; };
        auto back = [&](Item& x) { x.id = i0; x.a = a0; };
        if constexpr (!lst(k)) {
          int w = int(r.below(4));
          auto mk = [&](int& x) { ran = true; i0 = x; x = v.id; };
          auto bk = [&](int& x) { x = i0; };
          if (w == 0) attempt("modify_key(it,f)", e, [&] { ix.modify_key(a.it, mk); });
          else if (w == 1) attempt("modify_key(it,f,back)", e, [&] { ix.modify_key(a.it, mk, bk); });
          else if (w == 2) attempt("modify(it,f)", e, [&] { ix.modify(a.it, mod); });
          else attempt("modify(it,f,back)", e, [&] { ix.modify(a.it, mod, back); });
        }
        else if (r.chance(1, 2)) attempt("modify(it,f)", e, [&] { ix.modify(a.it, mod); });
        else attempt("modify(it,f,back)", e, [&] { ix.modify(a.it, mod, back); });
        if (!e.empty() && ran) VF_FAIL("modifier was called on a misused iterator");
        break;
      }
      case 8: {
        auto a = pick<I>(s); at_(e, a, s);
        attempt("extract(it)", e, [&] { typename C::node_type n = ix.extract(a.it); if (e.empty() && n.empty()) VF_FAIL("extract returned an empty handle"); });
        break;
      }
      case 9: {  // hinted / positional insertion
        auto a = pick<I>(s); owner(e, a, s);
        Item v = item();
        int id = v.id, aa = v.a;
        switch (int w = int(r.below(4))) {
          case 0: if constexpr (lst(k)) attempt("emplace(pos)", e, [&] { ix.emplace(a.it, id, aa); }); else attempt("emplace_hint(pos)", e, [&] { ix.emplace_hint(a.it, id, aa); }); break;
          case 1:
#ifndef VF_MOVEONLY
            attempt("insert(pos,const&)", e, [&] { ix.insert(a.it, v); }); break;
#endif
          case 2: attempt("insert(pos,&&)", e, [&] { ix.insert(a.it, std::move(v)); }); break;
          default: {
            (void)w;
            C tmp((typename C::ctor_args_list()), SA<Item>(tag[t]));
            bool empty = r.chance(1, 6);
            typename C::node_type n;
            if (!empty) { insertTo(tmp, std::move(v)); n = bmi::get<0>(tmp).extract(bmi::get<0>(tmp).begin()); if (!eqal) e.insert(sm::unequal_allocators); }
            attempt("insert(pos,node)", e, [&] { ix.insert(a.it, std::move(n)); });
            if (!e.empty() && !empty && n.empty()) VF_FAIL("a reported node insertion consumed the node");
          }
        }
        break;
      }
      case 10: {  // node insertion without position
        if constexpr (!lst(k)) {
          C tmp((typename C::ctor_args_list()), SA<Item>(tag[t]));
          insertTo(tmp, item());
          typename C::node_type n = bmi::get<0>(tmp).extract(bmi::get<0>(tmp).begin());
          if (!eqal) e.insert(sm::unequal_allocators);
          attempt("insert(node)", e, [&] { ix.insert(std::move(n)); });
          if (!e.empty() && n.empty()) VF_FAIL("a reported node insertion consumed the node");
        }
        else {
          bool emp = ix.empty();
          if (emp) e.insert(k == RA ? sm::out_of_bounds : sm::not_dereferenceable_iterator);
          Codes p; if (emp) { p = {sm::not_dereferenceable_iterator, sm::not_decrementable_iterator, sm::out_of_bounds}; }
          switch (r.below(4)) {
            case 0: attempt("front()", p, [&] { volatile int x = ix.front().id; (void)x; }); break;
            case 1: attempt("back()", p, [&] { volatile int x = ix.back().id; (void)x; }); break;
            case 2: attempt("pop_front()", p, [&] { ix.pop_front(); }); break;
            default: attempt("pop_back()", p, [&] { ix.pop_back(); }); break;
          }
        }
        break;
      }
      case 11: {  // project
        auto a = pick<I>(int(o.a[2] % NS)); owner(e, a, s);
        withI(int(o.a[4] % N), [&](auto Jc) {
          constexpr int J = decltype(Jc)::value;
          const C& cc = *c[s];
          const long* u = nullptr; (void)u;
          long got = -1;
          std::size_t n = snap[s][0].size();
          auto chk = [&](auto it, auto end) { got = it == end ? 0 : (*it).uid; };
          switch (r.below(4)) {
            case 0: attempt("project", e, [&] { chk(c[s]->template project<J>(a.it), c[s]->template get<J>().end()); }); break;
            case 1: attempt("const project", e, [&] { chk(cc.template project<J>(a.it), cc.template get<J>().end()); }); break;
            case 2: attempt("multi_index::project", e, [&] { chk(bmi::project<J>(*c[s], a.it), c[s]->template get<J>().end()); }); break;
            default: attempt("const multi_index::project", e, [&] { chk(bmi::project<J>(cc, a.it), cc.template get<J>().end()); }); break;
          }
          if (e.empty() && got != (a.pos == n ? 0 : snap[s][I][a.pos][0])) VF_FAIL("project designates another element");
        });
        break;
      }
      case 12: {  // whole-container transfer, range copies
        if constexpr (lst(k)) {
          auto p = pick<I>(s); owner(e, p, s);
          bool same = t == s;
          if (same && p.ok() && p.slot == s && p.pos != p.n) e.insert(sm::inside_range);
          if (xfer_bad && !snap[t][I].empty()) e.insert(sm::unequal_allocators);
          if (xfer_bad && snap[t][I].empty()) break;  // whether an empty transfer is reported is not stated
          attempt("splice(pos,x)", e, [&] { ix.splice(p.it, jx); });
        }
        else {
          if (xfer_bad && snap[t][I].empty()) break;
          if (xfer_bad) e.insert(sm::unequal_allocators);
          attempt("merge(x)", e, [&] { ix.merge(jx); });
        }
        break;
      }
      case 13: {
        if constexpr (lst(k)) {
          auto p = pick<I>(s); auto i = pick<I>(t); owner(e, p, s); at_(e, i, t);
          if (xfer_bad) e.insert(sm::unequal_allocators);
          attempt("splice(pos,x,i)", e, [&] { ix.splice(p.it, jx, i.it); });
        }
        else {
          auto i = pick<I>(t); at_(e, i, t);
          if (xfer_bad) e.insert(sm::unequal_allocators);
          attempt("merge(x,i)", e, [&] { ix.merge(jx, i.it); });
        }
        break;
      }
      case 14: {
        auto f = pick<I>(t), l = pick<I>(t); range(e, f, l, t);
        bool empty = e.empty() && f.pos == l.pos;
        if (xfer_bad && empty) break;
        if constexpr (lst(k)) {
          auto p = pick<I>(s); owner(e, p, s);
          if (s == t && f.ok() && l.ok() && p.ok() && p.slot == t && f.slot == t && l.slot == t && p.pos >= f.pos && p.pos < l.pos) e.insert(sm::inside_range);
          if (xfer_bad) e.insert(sm::unequal_allocators);
          attempt("splice(pos,x,first,last)", e, [&] { ix.splice(p.it, jx, f.it, l.it); });
        }
        else {
          if (xfer_bad) e.insert(sm::unequal_allocators);
          attempt("merge(x,first,last)", e, [&] { ix.merge(jx, f.it, l.it); });
        }
        break;
      }
      case 15: {
        if constexpr (lst(k)) {
          auto p = pick<I>(s); owner(e, p, s);
          if (r.chance(1, 2)) { auto i = pick<I>(s); at_(e, i, s); attempt("relocate(pos,i)", e, [&] { ix.relocate(p.it, i.it); }); }
          else {
            auto f = pick<I>(s), l = pick<I>(s); range(e, f, l, s);
            if (p.ok() && f.ok() && l.ok() && p.slot == f.slot && f.slot == l.slot && p.pos >= f.pos && p.pos < l.pos) e.insert(sm::inside_range);
            attempt("relocate(pos,first,last)", e, [&] { ix.relocate(p.it, f.it, l.it); });
          }
        }
        break;
      }
      case 16: {
        if constexpr (lst(k)) {
#ifndef VF_MOVEONLY
          auto p = pick<I>(s); owner(e, p, s);
          std::vector<Item> v; for (int q = 1 + int(r.below(3)); q--;) v.push_back(item());
          switch (r.below(3)) {
            case 0: attempt("insert(pos,n,x)", e, [&] { ix.insert(p.it, v.size(), v[0]); }); break;
            case 1: attempt("insert(pos,first,last)", e, [&] { ix.insert(p.it, v.begin(), v.end()); }); break;
            default: { std::initializer_list<Item> il = {v[0], v.back()}; attempt("insert(pos,list)", e, [&] { ix.insert(p.it, il); }); }
          }
#endif
        }
        break;
      }
      case 17: {
        if constexpr (k == RA) {
          std::size_t n = ix.size();
          auto a = pick<I>(s); valid(e, a);
          long d = long(r.below(uint32_t(2 * n + 5))) - long(n) - 2;
          auto bounds = [&](long m) { long q = long(a.pos) + m; if (a.ok() && (q < 0 || q > long(a.n))) e.insert(sm::out_of_bounds); };
          switch (r.below(7)) {
            case 0: bounds(d); attempt("it+=n", e, [&] { a.it += d; }); break;
            case 1: bounds(-d); attempt("it-=n", e, [&] { a.it -= d; }); break;
            case 2: bounds(d); attempt("it+n", e, [&] { auto x = a.it + d; (void)x; }); break;
            case 3: {
              auto b = pick<I>(s); valid(e, b); if (a.ok() && b.ok() && a.slot != b.slot) e.insert(sm::not_same_owner);
              long q = 0;
              attempt("it-it", e, [&] { q = a.it - b.it; });
              if (e.empty() && q != long(a.pos) - long(b.pos)) VF_FAIL("iterator difference is wrong");
              break;
            }
            case 4: {
              auto b = pick<I>(s); valid(e, b); if (a.ok() && b.ok() && a.slot != b.slot) e.insert(sm::not_same_owner);
              bool q = false;
              attempt("it<it", e, [&] { q = a.it < b.it; });
              if (e.empty() && q != (a.pos < b.pos)) VF_FAIL("iterator ordering is wrong");
              break;
            }
            case 5: { std::size_t q = r.below(uint32_t(n + 3)); Codes z; if (q >= n) z.insert(sm::out_of_bounds); attempt("operator[]", z, [&] { volatile int x = cix[q].id; (void)x; }); break; }
            default: {
              long q = long(a.pos) + d;
              if (a.ok() && (q < 0 || q > long(a.n))) e.insert(sm::out_of_bounds);
              if (a.ok() && q == long(a.n)) e.insert(sm::not_dereferenceable_iterator);
              attempt("it[n]", e, [&] { volatile int x = a.it[d].id; (void)x; });
            }
          }
        }
        break;
      }
      case 18: {  // keep an iterator
        auto& v = std::get<I>(K);
        std::size_t n = snap[s][I].size(), p = r.below(uint32_t(n + (n ? 0 : 1)));
        if (r.chance(1, 8)) p = n;
        Kept<I> x{std::make_unique<typename Ix<I>::iterator>(at<I>(s, p)), p < n ? snap[s][I][p][0] : 0, s};
        if (v.size() < 6) v.push_back(std::move(x)); else v[r.below(6)] = std::move(x);
        break;
      }
      case 19: case 20: {
        what = "insert";
        insertTo(*c[s], item());
        resync(); kept();
        break;
      }
      case 21: what = "clear()"; if (r.chance(1, 3)) { ix.clear(); resync(); kept(); } break;
      case 22: {
        if (t == s || !eqal) break;
        dropEnds();
        what = "swap";
        if (r.chance(1, 2)) c[s]->swap(*c[t]); else ix.swap(jx);
        resync(); kept();
        VF_FEAT("swap");
        break;
      }
      case 23: {
        if (t == s) break;
        dropEnds();
        if (r.chance(1, 2)) { what = "move construction"; std::unique_ptr<C> n(new C(std::move(*c[s]))); c[s].swap(n); n.reset(); }
        else {
          bool kill = r.chance(1, 2);
          what = kill ? "destruction" : "move assignment";
          if (kill) c[s].reset(new C(typename C::ctor_args_list(), SA<Item>(tag[s])));
          else if (eqal) *c[s] = std::move(*c[t]);
        }
        resync(); kept();
        VF_FEAT("move or destruction");
        break;
      }
      case 24: {
#ifndef VF_MOVEONLY
        dropEnds();
        what = "copy assignment";
        *c[s] = *c[t];
        resync(); kept();
#endif
        break;
      }
    }
  }
  template <class CC> static void insertTo(CC& x, Item v) {
    if constexpr (lst(IXL::kind[0])) bmi::get<0>(x).push_back(std::move(v)); else bmi::get<0>(x).insert(std::move(v));
  }
  void run(const Case& cs) {
    dom = int(cs.p(0)) + 1;
    for (int s = 0; s < NS; ++s) { tag[s] = cs.p(1) % 2 ? 0 : s == 2; c[s].reset(new C(typename C::ctor_args_list(), SA<Item>(tag[s]))); }
    resync();
    for (auto& o : cs.ops) {
      r = Rng(o.a[4] * 977u + o.a[2]);
      int s = int(o.a[0] % NS);
      withI(int(o.a[1] % N), [&](auto Ic) { step<decltype(Ic)::value>(o, s); });
    }
  }
};
static const char* opn[] = {"deref", "step", "compare", "assign", "erase", "eraserange", "replace", "modify", "extract", "insertpos", "insertnode/front", "project", "splice/merge", "splice1/merge1", "spliceR/mergeR", "relocate", "insertmany", "arith", "keep", "insert", "insert", "clear", "swap", "move", "copyassign"};
static Case gen(Rng& r, int size) {
  Case c;
  static const int w[] = {3, 3, 3, 3, 3, 3, 3, 4, 3, 6, 3, 4, 3, 4, 4, 5, 3, 5, 9, 10, 10, 1, 2, 3, 1};
  std::vector<uint32_t> wheel;
  for (uint32_t i = 0; i < 25; ++i) for (int k = 0; k < w[i]; ++k) wheel.push_back(i);
  c.P = {4 + r.below(r.below(3) ? 12 : 60), r.below(2)};
  int n = 10 + int(r.below(uint32_t(20 + size / 2)));
  for (int i = 0; i < n; ++i) {
    Op o;
    for (auto& a : o.a) a = uint32_t(r.next() & 0xffffff);
    o.k = i < 8 ? 19 : wheel[r.below(uint32_t(wheel.size()))];
    c.ops.push_back(o);
  }
  return c;
}
static std::string show(const Case& c) {
  std::string s = cat("misuse ", VF_NAME, " dom=", c.p(0) + 1, c.p(1) % 2 ? " equal allocators" : " third container with another allocator", ":");
  for (auto& o : c.ops) s += cat(" ", o.k < 25 ? opn[o.k] : "?", "(c", o.a[0] % NS, ",i", o.a[1] % N, ",c", o.a[3] % NS, ")");
  return s;
}
static void runCase(const Case& c) {
  M* m = new M;
  m->run(c);
  // kept iterators outlive the containers: they must become stale
  m->what = "destruction of all containers";
  for (auto& x : m->c) x.reset();
  m->alive.clear();
  m->eachI([&](auto Ic) { for (auto& k : std::get<decltype(Ic)::value>(m->K)) k.slot = -1; });
  m->kept();
  delete m;
}
}
int main(int argc, char** argv) {
  vf::Harness h;
  h.name = VF_NAME; h.gen = vf::gen; h.run = vf::runCase; h.show = vf::show; h.nontrivial_threshold = 3;
  return vf::worker_main(argc, argv, h);
}
