// Element pool, models and guards shared by the container drivers.
#ifndef VF_COMMON_HPP
#define VF_COMMON_HPP
#include "vf.hpp"
#include <boost/intrusive/intrusive_fwd.hpp>
#include <boost/intrusive/pointer_traits.hpp>

#ifndef VF_PROP
#define VF_PROP 0
#endif
// the free swap found by argument-dependent lookup only
namespace vf_adl { template <class T> void swp(T &a, T &b) { swap(a, b); } }
namespace vf {
constexpr int PROP = VF_PROP;
// which oracles and operation families a property's run uses
constexpr bool F_HOOK = PROP == 8 || PROP == 9 || PROP == 0;                 // hook state after every operation
constexpr bool F_LIFE = PROP == 10 || PROP == 0;                             // lifecycle, allocation and disposal accounting
constexpr bool F_ITER = PROP == 14 || PROP == 0;                             // saved iterators
constexpr bool F_WALK = PROP == 1 || PROP == 2 || PROP == 3 || PROP == 6 || PROP == 17; // iterator algebra now and then
constexpr bool F_POISON = PROP == 18 || PROP == 10 || PROP == 0;             // uninvolved memory poisoned during operations
constexpr bool F_CHECK = PROP == 18 || PROP == 0;                            // library self checks
constexpr bool F_UNLINK = PROP == 9 || PROP == 0;                            // auto-unlink operations
constexpr bool F_MISUSE = PROP == 8;                                         // misuse must assert
constexpr bool F_VALUE = PROP == 8 || PROP == 9 || PROP == 17;              // elements copied and assigned while linked
constexpr bool F_XFER = PROP == 15;                                          // more swap/move/splice/merge
constexpr bool F_CLONE = PROP == 11;
constexpr bool F_FAULT = PROP == 12;
constexpr bool F_DISPOSE = PROP == 10;

struct Life { long ctor = 0, copy = 0, assign = 0, dtor = 0; };
inline Life &life() { static Life l; return l; }

// payload of every element
struct Payload {
   int v;        // key
   int id;       // unique identity in the pool
   int aux;      // priority etc.
   Payload() : v(0), id(-1), aux(0) { ++life().ctor; }
   Payload(const Payload &o) : v(o.v), id(o.id), aux(o.aux) { ++life().copy; }
   Payload &operator=(const Payload &o) { v = o.v; id = o.id; aux = o.aux; ++life().assign; return *this; }
   ~Payload() { ++life().dtor; v = -777; id = -777; }
};
template <class A, class B> inline bool key_less(const A &a, const B &b) { return a.v < b.v; }

// functors: every call ticks the fault injector
struct Less {
   template <class A, class B> bool operator()(const A &a, const B &b) const { tick(); return a.v < b.v; }
};
struct EqualV {
   template <class A, class B> bool operator()(const A &a, const B &b) const { tick(); return a.v == b.v; }
};

template <class P> inline auto raw(const P &p) -> decltype(&*p) { return &*p; }

// A pool of individually allocated elements (each in its own heap block, so ASan red zones separate them).
template <class E> struct Pool {
   std::vector<E *> e;
   std::vector<void *> mem;
   Pool() {}
   void grow(std::size_t n) {
      while (e.size() < n) {
         void *m = ::operator new(bytes());
         E *p = new (m) E();
         p->id = int(e.size());
         e.push_back(p); mem.push_back(m);
      }
   }
   static std::size_t bytes() { return (sizeof(E) + 7) & ~std::size_t(7); }
   void poison(int id) { VF_POISON(mem[id], bytes()); }
   void unpoison(int id) { VF_UNPOISON(mem[id], bytes()); }
   void unpoison_all() { for (std::size_t i = 0; i < e.size(); ++i) unpoison(int(i)); }
   // for elements whose hook was left dangling by design (normal link mode): rebuild, keeping the key
   void reset_keep(int id) { int v = e[id]->v, aux = e[id]->aux; reset(id); e[id]->v = v; e[id]->aux = aux; }
   // destroy and build again in place
   void reset(int id) { e[id]->~E(); new (mem[id]) E(); e[id]->id = id; }
   // destroys every element; call after the containers are gone
   void free_all() {
      for (std::size_t i = 0; i < e.size(); ++i) { unpoison(int(i)); e[i]->~E(); ::operator delete(mem[i]); }
      e.clear(); mem.clear();
   }
   E &operator[](int id) { return *e[id]; }
};

inline std::uint64_t hash_ids(const std::vector<int> &v, std::uint64_t h = 1469598103934665603ull) {
   for (int x : v) h = (h ^ std::uint64_t(x + 1)) * 1099511628211ull;
   return h;
}
inline std::string show(const std::vector<int> &v) {
   std::string o; for (std::size_t i = 0; i < v.size() && i < 40; ++i) write_str(o, "%s%d", i ? "," : "", v[i]);
   return o;
}

inline bool operator<(const Payload &a, const Payload &b) { tick(); return a.v < b.v; }
inline bool operator==(const Payload &a, const Payload &b) { tick(); return a.v == b.v; }

// value traits over user nodes have no destructor of their own, hence no check there
template <class C, class = void> struct dtor_checked : std::true_type {};
template <class C> struct dtor_checked<C, std::void_t<typename C::no_dtor_check>> : std::false_type {};

// Monitor base for two containers (plus a recycle container) over one pool of elements.
template <class Cfg> struct DriverBase {
   typedef typename Cfg::elem E;
   typedef typename Cfg::container L;
   Pool<E> pool;
   Rng *rng = nullptr;
   std::vector<int> disposed;       // ids in disposal order
   bool disposer_poisons = false;
   std::vector<int> poisoned_by_disposer;
   Life life0; long alloc0 = 0;

   struct Disposer {
      DriverBase *d;
      template <class P> void operator()(const P &p) const { d->on_dispose(raw(p)); }
   };
   Disposer disposer() { disposed.clear(); disposer_poisons = F_POISON && rng->chance(2, 3); return Disposer{this}; }
   void on_dispose(E *e) {
      int id = e->id;
      VF_REQ(id >= 0 && id < int(pool.e.size()) && pool.e[id] == e, "dispose-bad-element");
      for (int x : disposed) VF_REQ(x != id, "disposed-twice");
      if (Cfg::safe && (F_HOOK || F_LIFE)) VF_REQ(!Cfg::linked(*e), "disposed-while-linked");
      disposed.push_back(id);
      count("disposals");
      if (disposer_poisons) { pool.poison(id); poisoned_by_disposer.push_back(id); }
   }
   void after_dispose(std::vector<int> expect, const char *key = "disposal-set") {
      for (int id : poisoned_by_disposer) pool.unpoison(id);
      poisoned_by_disposer.clear(); disposer_poisons = false;
      std::vector<int> got = disposed;
      std::sort(got.begin(), got.end()); std::sort(expect.begin(), expect.end());
      if (got != expect) fail(key, "%s: disposed {%s}, expected {%s}", M().phase, show(got).c_str(), show(expect).c_str());
      disposed.clear();
   }
   // Copying, moving and assigning elements: membership is never copied and never broken.
   void do_hook_values() {
      int a = int(rng->below(pool.e.size())), b = int(rng->below(pool.e.size())), kind = int(rng->below(7));
      E &x = *pool.e[a], &y = *pool.e[b]; const bool la = Cfg::linked(x), lb = Cfg::linked(y); const int v = x.v, id = x.id, aux = x.aux;
      op("hook_value", kind, a, b);
      switch (kind) {
      case 0: { E t(static_cast<const E &>(x)); VF_REQ(!Cfg::linked(t), "copy-is-linked"); break; }
      case 1: { E t(std::move(x)); VF_REQ(!Cfg::linked(t), "copy-is-linked"); break; }
      case 2: { E t; x = t; VF_REQ(!Cfg::linked(t), "assign-linked-source"); break; }
      case 3: x = static_cast<const E &>(y); break;
      case 4: { E *self = &x; x = *self; break; }
      case 5: { E t; t = static_cast<const E &>(x); VF_REQ(!Cfg::linked(t), "assign-copies-membership"); break; }
      case 6: x = std::move(y); break;
      }
      x.v = v; x.id = id; x.aux = aux;
      VF_REQ(Cfg::linked(x) == la && Cfg::linked(y) == lb, "assign-changes-membership");
      count(la ? "hook-values-linked" : "hook-values-unlinked");
   }
   // life accounting around an operation
   void life_begin() { if (F_LIFE) { life0 = life(); alloc0 = allocs(); } }
   void life_end(long copies = 0) {
      if (F_LIFE) {
         VF_REQ(life().ctor == life0.ctor && life().copy == life0.copy + copies && life().assign == life0.assign && life().dtor == life0.dtor, "element-lifecycle");
         (void)alloc0;
      }
   }
};

// iterator algebra over a known sequence of elements: every way of moving, comparing, converting and dereferencing an iterator
namespace it {
template <class I, class V> void same(const I &i, V *e) { VF_REQ(std::addressof(*i) == e && i->id == e->id, "iterator-deref"); }
template <bool Dflt = true, class I, class V> void forward(I b, I e, const std::vector<V *> &s) {
   typedef std::iterator_traits<I> T;
   static_assert(std::is_convertible<typename T::iterator_category, std::forward_iterator_tag>::value, "");
   VF_REQ(std::size_t(std::distance(b, e)) == s.size(), "iterator-distance");
   I i(b), j(e); j = b; I dflt = [&] { if constexpr (Dflt) return I(); else return e; }(); I alt = e;
   for (std::size_t n = 0; n < s.size(); ++n) {
      VF_REQ(i == j && !(i != j) && i != e && !(i == e), "iterator-equality"); same(i, s[n]);
      I keep(i); I old = i++; VF_REQ(old == keep && old == j, "post-increment-result"); same(old, s[n]);
      I &r = ++j; VF_REQ(&r == &j && i == j, "pre-increment-result"); VF_REQ(i != keep, "increment-moves");
      alt = i; VF_REQ(alt == i, "iterator-assign"); alt = keep; same(alt, s[n]); dflt = alt; VF_REQ(dflt == keep, "iterator-assign"); ++dflt; VF_REQ(dflt == i, "iterator-assign-increment"); dflt = dflt; VF_REQ(dflt == i, "iterator-self-assign");
   }
   VF_REQ(i == e && j == e, "iterator-end");
}
template <class I, class V> void backward(I b, I e, const std::vector<V *> &s) {
   static_assert(std::is_convertible<typename std::iterator_traits<I>::iterator_category, std::bidirectional_iterator_tag>::value, "");
   I i(e), j(e);
   for (std::size_t n = s.size(); n-- > 0; ) {
      I keep(i); I old = i--; VF_REQ(old == keep && i != keep, "post-decrement-result"); same(i, s[n]);
      I &r = --j; VF_REQ(&r == &j && j == i, "pre-decrement-result");
      I f(i); ++f; VF_REQ(f == keep, "decrement-increment"); I g(i); g++; VF_REQ(g == keep, "decrement-post-increment");
   }
   VF_REQ(i == b && j == b, "iterator-begin");
}
template <class It, class CIt> void mixed(It i, CIt c) {
   VF_REQ(CIt(i) == c && c == CIt(i) && i == c && c == i && !(i != c) && !(c != i), "mixed-equality"); CIt x; x = i; VF_REQ(x == c, "const-assign");
   static_assert(!std::is_convertible<CIt, It>::value || std::is_same<CIt, It>::value, "");
}
template <class C, class V> void container(C &c, const std::vector<V *> &s) {
   typedef typename C::iterator It; typedef typename C::const_iterator CIt; const C &k = c;
   static_assert(std::is_same<typename std::iterator_traits<CIt>::reference, typename C::const_reference>::value && std::is_same<typename std::iterator_traits<It>::reference, typename C::reference>::value, "");
   std::vector<const V *> cs(s.begin(), s.end());
   forward(c.begin(), c.end(), s); forward(k.begin(), k.end(), cs); forward(c.cbegin(), c.cend(), cs);
   It i = c.begin(); CIt j = k.cbegin(); for (std::size_t n = 0; n <= s.size(); ++n) { mixed(i, j); if (n < s.size()) { ++i; j++; } }
   VF_REQ(k.begin() == c.cbegin() && k.end() == c.cend() && c.end() == k.end(), "const-ends");
   count("iterator-walks", 3);
}
template <class C, class V> void reversible(C &c, const std::vector<V *> &s) {
   const C &k = c; std::vector<const V *> cs(s.begin(), s.end());
   std::vector<V *> r(s.rbegin(), s.rend()); std::vector<const V *> cr(r.begin(), r.end());
   backward(c.begin(), c.end(), s); backward(k.begin(), k.end(), cs); backward(c.cbegin(), c.cend(), cs);
   forward(c.rbegin(), c.rend(), r); forward(k.rbegin(), k.rend(), cr); forward(c.crbegin(), c.crend(), cr);
   backward(c.rbegin(), c.rend(), r); backward(k.crbegin(), k.crend(), cr);
   VF_REQ(c.rbegin().base() == c.end() && c.rend().base() == c.begin() && k.crbegin().base() == k.cend(), "reverse-base");
   count("iterator-walks", 8);
}
}
} // namespace vf
#endif

