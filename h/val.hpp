// Instrumented element, function objects and allocator.
#ifndef VF_VAL_HPP
#define VF_VAL_HPP
#include "core.hpp"
#include "fancy.hpp"
#include <cstddef>
#include <iterator>
#include <memory>
#include <type_traits>
#include <unordered_map>

namespace vf {

// ------------------------------------------------------------------ counters
struct Counters {
  long live = 0;           // live Val objects
  long alive_alloc = 0;    // live allocator objects
  uint64_t ctor = 0, copy = 0, move = 0, dtor = 0, assign = 0, massign = 0;
  uint64_t cmp = 0, hash = 0, eq = 0, key = 0, alloc = 0, dealloc = 0;
  uint64_t aconstruct = 0, adestroy = 0;  // element objects made / destroyed through the allocator
};
inline Counters& cnt() { static Counters c; return c; }

// ------------------------------------------------------------------ element
struct TagBase { int destroyed = 0; };  // the oracle's record of one element object
enum : unsigned { MAGIC_LIVE = 0x51A11FEu, MAGIC_DEAD = 0xDEADBEEFu, MAGIC_MOVED = 0x51A11FEu };
#ifndef VF_ALIGN
#define VF_ALIGN 8
#endif
struct alignas(VF_ALIGN) Val {
  int id = 0, a = 0, b = 0, c = 0;
  unsigned magic = MAGIC_LIVE;
  mutable struct TagBase* tag = nullptr;  // used by the oracle to recognise the object; never copied
  Val() : id(default_id()++) { al(); fp(F_CTOR); ++cnt().ctor; ++cnt().live; }
  static int& default_id() { static int d = -1000000; return d; }
  explicit Val(int i) : id(i) { al(); fp(F_CTOR); ++cnt().ctor; ++cnt().live; }
  Val(int i, int a_, int b_, int c_) : id(i), a(a_), b(b_), c(c_) { al(); fp(F_CTOR); ++cnt().ctor; ++cnt().live; }
  Val(const Val& x) : id(x.id), a(x.a), b(x.b), c(x.c) { al(); x.chk(); fp(F_COPY); ++cnt().copy; ++cnt().live; }
  Val(Val&& x) : id(x.id), a(x.a), b(x.b), c(x.c) { al(); x.chk(); fp(F_MOVE); ++cnt().move; ++cnt().live; }
  ~Val() { chk(); magic = MAGIC_DEAD; if (tag) ++tag->destroyed; ++cnt().dtor; --cnt().live; }
  Val& operator=(const Val& x) { chk(); x.chk(); fp(F_ASSIGN); ++cnt().assign; id = x.id; a = x.a; b = x.b; c = x.c; return *this; }
  Val& operator=(Val&& x) { chk(); x.chk(); fp(F_ASSIGN); ++cnt().massign; id = x.id; a = x.a; b = x.b; c = x.c; return *this; }
  void al() const { if (reinterpret_cast<std::uintptr_t>(this) % VF_ALIGN) fail_("element constructed at a misaligned address"); }
  void chk() const { if (magic != MAGIC_LIVE) fail_("use of a destroyed or overwritten element object"); }
  int geta() const { return a; }
  int getb() const { return b; }
  int getc() const { return c; }
};
inline bool operator==(const Val& x, const Val& y) { fp(F_EQ); return x.a == y.a && x.b == y.b && x.c == y.c; }
inline bool operator!=(const Val& x, const Val& y) { return !(x == y); }
inline bool operator<(const Val& x, const Val& y) { fp(F_CMP); return x.a < y.a; }  // coarser than ==: stability is visible
inline int glob_a(const Val& v) { return v.a; }
inline int glob_b(const Val& v) { return v.b; }
inline int glob_c(const Val& v) { return v.c; }
template <int S> int& fld(Val& v) { if constexpr (S == 0) return v.a; else if constexpr (S == 1) return v.b; else return v.c; }
template <int S> const int& fld(const Val& v) { if constexpr (S == 0) return v.a; else if constexpr (S == 1) return v.b; else return v.c; }

// key extractor: counted, may throw, read/write
template <int S> struct KX {
  typedef int result_type;
  const int& operator()(const Val& v) const { v.chk(); fp(F_KEY); ++cnt().key; return fld<S>(v); }
  int& operator()(Val& v) const { v.chk(); return fld<S>(v); }
};

// compatible keys
struct CK { int v; };        // same granularity as the key
struct CoarseK { int v; };   // matches keys whose class/4 equals v: selects a range of classes

// comparison: class of k is k/coarse, direction may be reversed; run-time state
struct Cmp {
  int desc = 0, coarse = 1;
  Cmp() {}
  Cmp(int d, int c) : desc(d), coarse(c) {}
  bool lt(int x, int y) const { fp(F_CMP); ++cnt().cmp; return desc ? y < x : x < y; }
  bool operator()(int x, int y) const { return lt(x / coarse, y / coarse); }
  bool operator()(int x, CK y) const { return lt(x / coarse, y.v / coarse); }
  bool operator()(CK x, int y) const { return lt(x.v / coarse, y / coarse); }
  bool operator()(int x, CoarseK y) const { return lt(x / coarse / 4, y.v); }
  bool operator()(CoarseK x, int y) const { return lt(x.v, y / coarse / 4); }
};
// a compatible comparison object of another type, for the two-argument lookups
struct CompatCmp {
  Cmp c;
  bool operator()(int x, long y) const { return c(x, int(y)); }
  bool operator()(long x, int y) const { return c(int(x), y); }
};
struct Hsh {
  int coarse = 1, mode = 0;
  Hsh() {}
  Hsh(int c, int m) : coarse(c), mode(m) {}
  std::size_t h(int k) const {
    fp(F_HASH); ++cnt().hash;
    k /= coarse;
    switch (mode) {
      case 0: return std::size_t(k);
      case 1: return std::size_t(k) % 3;
      case 2: return 7;
      case 3: return std::size_t(k) * 0x9E3779B97F4A7C15ull;
      default: return std::size_t(k) / 2;
    }
  }
  std::size_t operator()(int k) const { return h(k); }
  std::size_t operator()(CK k) const { return h(k.v); }
};
struct Eq {
  int coarse = 1;
  Eq() {}
  explicit Eq(int c) : coarse(c) {}
  bool e(int x, int y) const { fp(F_EQ); ++cnt().eq; return x / coarse == y / coarse; }
  bool operator()(int x, int y) const { return e(x, y); }
  bool operator()(int x, CK y) const { return e(x, y.v); }
  bool operator()(CK x, int y) const { return e(x.v, y); }
};
struct CompatHash { Hsh h; std::size_t operator()(long k) const { return h.h(int(k)); } };
struct CompatEq {
  Eq q;
  bool operator()(long x, int y) const { return q.e(int(x), y); }
  bool operator()(int x, long y) const { return q.e(x, int(y)); }
};

// ------------------------------------------------------------------ allocator
// Ledger of blocks: who allocated what.
struct Ledger {
  struct B { std::size_t bytes; int id; const void* type; };
  std::unordered_map<void*, B> m;
  uint64_t blocks = 0;
  std::map<int, long> per_id;
};
inline Ledger& ledger() { static Ledger l; return l; }
inline bool& fail_soft() { static bool b = false; return b; }

// TR: propagation traits, bit0 copy-assign, bit1 move-assign, bit2 swap; bit3: stateless (always equal),
// bit4: cannot be assigned (as std::pmr::polymorphic_allocator), bit5: not default constructible
struct Foreign { int id; void chk() const {} };
template <class T, int TR = 0, bool FANCY = false> struct TA {
  typedef T value_type;
  typedef typename std::conditional<FANCY, FP<T>, T*>::type pointer;
  typedef typename std::conditional<FANCY, FP<const T>, const T*>::type const_pointer;
  typedef typename std::conditional<FANCY, FP<void>, void*>::type void_pointer;
  typedef typename std::conditional<FANCY, FP<const void>, const void*>::type const_void_pointer;
  typedef std::size_t size_type;
  typedef std::ptrdiff_t difference_type;
  template <class U> struct rebind { typedef TA<U, TR, FANCY> other; };
  typedef std::integral_constant<bool, (TR & 1) != 0> propagate_on_container_copy_assignment;
  typedef std::integral_constant<bool, (TR & 2) != 0> propagate_on_container_move_assignment;
  typedef std::integral_constant<bool, (TR & 4) != 0> propagate_on_container_swap;
  typedef std::integral_constant<bool, (TR & 8) != 0> is_always_equal;
  int id;
  unsigned magic = MAGIC_LIVE;
  template <int X = TR, typename std::enable_if<!(X & 32), int>::type = 0> TA() : id(0) { ++cnt().alive_alloc; }
  explicit TA(int i) : id(i) { ++cnt().alive_alloc; }
  template <class U> TA(const TA<U, TR, FANCY>& x) : id(x.id) { x.chk(); ++cnt().alive_alloc; }
  TA(const TA& x) : id(x.id) { x.chk(); ++cnt().alive_alloc; }
  TA& operator=(const typename std::conditional<(TR & 16) != 0, Foreign, TA>::type& x) { chk(); x.chk(); id = x.id; return *this; }
  TA& operator=(const typename std::conditional<(TR & 16) != 0, TA, Foreign>::type& x) = delete;
  ~TA() { chk(); magic = MAGIC_DEAD; --cnt().alive_alloc; }
  void chk() const { if (magic != MAGIC_LIVE) fail_late("use of an allocator object not constructed or already destroyed"); }
  pointer allocate(std::size_t n) {
    fp(F_ALLOC); ++cnt().alloc;
    T* p;
    if constexpr (alignof(T) > 16) p = static_cast<T*>(::operator new(n * sizeof(T), std::align_val_t(alignof(T)))); else p = static_cast<T*>(::operator new(n * sizeof(T)));
    ledger().m[p] = Ledger::B{n * sizeof(T), id, nullptr};
    ++ledger().blocks; ++ledger().per_id[id];
    return pointer(p);
  }
  void deallocate(pointer pp, std::size_t n) {
    T* p = raw(pp);
    ++cnt().dealloc;
    auto it = ledger().m.find(p);
    if (it == ledger().m.end()) fail_late("deallocate of a block not owned by any allocator (double free or foreign block)");
    else {
      if (it->second.bytes != n * sizeof(T)) fail_late(cat("deallocate with size ", n * sizeof(T), " of a block allocated with size ", it->second.bytes));
      if (!(TR & 8) && it->second.id != id) fail_late(cat("block allocated by allocator #", it->second.id, " returned to unequal allocator #", id));
      --ledger().per_id[it->second.id];
      ledger().m.erase(it);
      if constexpr (alignof(T) > 16) ::operator delete(p, std::align_val_t(alignof(T))); else ::operator delete(p);
    }
  }
  template <class U, class... A> void construct(U* p, A&&... a) { ::new ((void*)p) U(std::forward<A>(a)...); if (std::is_same<U, Val>::value) ++cnt().aconstruct; }
  template <class U> void destroy(U* p) { p->~U(); if (std::is_same<U, Val>::value) ++cnt().adestroy; }
  static T* raw(T* p) { return p; }
  static T* raw(const FP<T>& p) { return p.p; }
  // deallocate runs inside noexcept code: remember the message, report at the next check
  static void fail_late(const std::string& m);
  friend bool operator==(const TA& x, const TA& y) { return (TR & 8) || x.id == y.id; }
  friend bool operator!=(const TA& x, const TA& y) { return !(x == y); }
};
inline std::string& late_failure() { static std::string s; return s; }
template <class T, int TR, bool F> void TA<T, TR, F>::fail_late(const std::string& m) { if (late_failure().empty()) late_failure() = m; }
inline void check_late() { if (!late_failure().empty()) { std::string s = late_failure(); late_failure().clear(); fail_(s); } }

}  // namespace vf
#endif
