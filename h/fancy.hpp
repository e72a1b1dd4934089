// A user-defined ("fancy") allocator pointer; C++11. Counts dereferences.
#ifndef VF_FANCY_HPP
#define VF_FANCY_HPP
#include <cstddef>
#include <cstdint>
#include <iterator>
#include <memory>
#include <type_traits>
namespace vf {
inline uint64_t& fancySteps() { static uint64_t n = 0; return n; }  // nodes visited through fancy pointers
template <class T> struct FP;
template <class T> struct fp_ref { typedef T& type; };
template <> struct fp_ref<void> { typedef void type; };
template <> struct fp_ref<const void> { typedef void type; };

template <class T> struct FP {
  typedef T element_type;
  typedef std::ptrdiff_t difference_type;
  typedef typename std::remove_cv<T>::type value_type;
  typedef T* pointer_raw;
  typedef FP pointer;
  typedef typename fp_ref<T>::type reference;
  typedef std::random_access_iterator_tag iterator_category;
  template <class U> using rebind = FP<U>;
  T* p;
  FP() : p(nullptr) {}
  FP(T* q) : p(q) {}
  template <class U, typename std::enable_if<std::is_convertible<U*, T*>::value, int>::type = 0> FP(const FP<U>& x) : p(x.p) {}
  template <class U, typename std::enable_if<!std::is_convertible<U*, T*>::value, int>::type = 0,
            typename std::enable_if<std::is_void<U>::value || std::is_base_of<typename std::remove_cv<U>::type, typename std::remove_cv<T>::type>::value, char>::type = 0>
  explicit FP(const FP<U>& x) : p(static_cast<T*>(const_cast<typename std::remove_const<U>::type*>(x.p))) {}
  template <class U = T> typename fp_ref<U>::type operator*() const { ++fancySteps(); return *p; }
  T* operator->() const { ++fancySteps(); return p; }
  template <class U = T> typename fp_ref<U>::type operator[](difference_type n) const { return p[n]; }
  explicit operator bool() const { return p != nullptr; }
  bool operator!() const { return p == nullptr; }
  FP& operator++() { ++p; return *this; }
  FP operator++(int) { FP r(*this); ++p; return r; }
  FP& operator--() { --p; return *this; }
  FP operator--(int) { FP r(*this); --p; return r; }
  FP& operator+=(difference_type n) { p += n; return *this; }
  FP& operator-=(difference_type n) { p -= n; return *this; }
  friend FP operator+(FP x, difference_type n) { x += n; return x; }
  friend FP operator+(difference_type n, FP x) { x += n; return x; }
  friend FP operator-(FP x, difference_type n) { x -= n; return x; }
  friend difference_type operator-(const FP& x, const FP& y) { return x.p - y.p; }
  friend bool operator==(const FP& x, const FP& y) { return x.p == y.p; }
  friend bool operator!=(const FP& x, const FP& y) { return x.p != y.p; }
  friend bool operator<(const FP& x, const FP& y) { return x.p < y.p; }
  friend bool operator>(const FP& x, const FP& y) { return x.p > y.p; }
  friend bool operator<=(const FP& x, const FP& y) { return x.p <= y.p; }
  friend bool operator>=(const FP& x, const FP& y) { return x.p >= y.p; }
  template <class U = T> static FP pointer_to(typename fp_ref<U>::type x) { return FP(std::addressof(x)); }
};

}
#endif
