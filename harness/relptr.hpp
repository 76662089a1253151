// A self-relative pointer: stores the distance to its target, so a region holding pointers and targets can be moved by copying its bytes.
#ifndef VF_RELPTR_HPP
#define VF_RELPTR_HPP
#include <cstddef>
#include <cstdint>
#include <iterator>
#include <type_traits>
namespace vf {
template <class T> class rel_ptr {
   std::intptr_t off_; // 1: null (never the distance of an aligned target)
   template <class U> friend class rel_ptr;
   void set(const volatile void *p) { off_ = p ? std::intptr_t(p) - std::intptr_t(this) : 1; }
   public:
   typedef T element_type; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef rel_ptr pointer;
   typedef typename std::conditional<std::is_void<T>::value, char, T>::type base_type_;
   typedef base_type_ &reference;
   typedef std::random_access_iterator_tag iterator_category;
   template <class U> struct rebind { typedef rel_ptr<U> other; };
   rel_ptr() : off_(1) {}
   rel_ptr(std::nullptr_t) : off_(1) {}
   explicit rel_ptr(T *p) { set(p); }
   rel_ptr(const rel_ptr &o) { set(o.get()); }
   template <class U, class = typename std::enable_if<std::is_convertible<U *, T *>::value>::type> rel_ptr(const rel_ptr<U> &o) { set(static_cast<T *>(o.get())); }
   rel_ptr &operator=(const rel_ptr &o) { set(o.get()); return *this; }
   rel_ptr &operator=(std::nullptr_t) { off_ = 1; return *this; }
   T *get() const { return off_ == 1 ? nullptr : reinterpret_cast<T *>(std::intptr_t(this) + off_); }
   T *operator->() const { return get(); }
   reference operator*() const { return *get(); }
   reference operator[](std::ptrdiff_t i) const { return get()[i]; }
   explicit operator bool() const { return off_ != 1; }
   bool operator!() const { return off_ == 1; }
   template <class U = T> static typename std::enable_if<!std::is_void<U>::value, rel_ptr>::type pointer_to(U &r) { return rel_ptr(&r); }
   template <class U> static rel_ptr static_cast_from(const rel_ptr<U> &u) { return rel_ptr(static_cast<T *>(u.get())); }
   template <class U> static rel_ptr const_cast_from(const rel_ptr<U> &u) { return rel_ptr(const_cast<T *>(u.get())); }
   template <class U> static rel_ptr dynamic_cast_from(const rel_ptr<U> &u) { return rel_ptr(dynamic_cast<T *>(u.get())); }
   rel_ptr &operator++() { set(get() + 1); return *this; }
   rel_ptr operator++(int) { rel_ptr r(*this); ++*this; return r; }
   rel_ptr &operator--() { set(get() - 1); return *this; }
   rel_ptr operator--(int) { rel_ptr r(*this); --*this; return r; }
   rel_ptr &operator+=(std::ptrdiff_t n) { set(get() + n); return *this; }
   rel_ptr &operator-=(std::ptrdiff_t n) { set(get() - n); return *this; }
   friend rel_ptr operator+(const rel_ptr &a, std::ptrdiff_t n) { return rel_ptr(a.get() + n); }
   friend rel_ptr operator+(std::ptrdiff_t n, const rel_ptr &a) { return rel_ptr(a.get() + n); }
   friend rel_ptr operator-(const rel_ptr &a, std::ptrdiff_t n) { return rel_ptr(a.get() - n); }
   friend std::ptrdiff_t operator-(const rel_ptr &a, const rel_ptr &b) { return a.get() - b.get(); }
   friend bool operator==(const rel_ptr &a, const rel_ptr &b) { return a.get() == b.get(); }
   friend bool operator!=(const rel_ptr &a, const rel_ptr &b) { return a.get() != b.get(); }
   friend bool operator<(const rel_ptr &a, const rel_ptr &b) { return a.get() < b.get(); }
   friend bool operator<=(const rel_ptr &a, const rel_ptr &b) { return a.get() <= b.get(); }
   friend bool operator>(const rel_ptr &a, const rel_ptr &b) { return a.get() > b.get(); }
   friend bool operator>=(const rel_ptr &a, const rel_ptr &b) { return a.get() >= b.get(); }
   friend bool operator==(const rel_ptr &a, std::nullptr_t) { return !a; }
   friend bool operator!=(const rel_ptr &a, std::nullptr_t) { return !!a; }
};
template <class T> inline T *to_raw_pointer(const rel_ptr<T> &p) { return p.get(); }
} // namespace vf
#endif
