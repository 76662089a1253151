// Const operations write nothing; distinct containers are independent.
// CFG selects a container configuration. Without VF_THREADS: container, buckets and elements live in an arena that is write-protected while const operations run.
// With VF_THREADS (built with ThreadSanitizer): several threads read shared const containers while each of them modifies containers of its own over adjacent elements.
#include "vf.hpp"
#include "relptr.hpp"
#include <boost/intrusive/list.hpp>
#include <boost/intrusive/slist.hpp>
#include <boost/intrusive/set.hpp>
#include <boost/intrusive/avl_set.hpp>
#include <boost/intrusive/bs_set.hpp>
#include <boost/intrusive/splay_set.hpp>
#include <boost/intrusive/sg_set.hpp>
#include <boost/intrusive/treap_set.hpp>
#include <boost/intrusive/unordered_set.hpp>
#include <boost/intrusive/any_hook.hpp>
#include <sys/mman.h>
#include <sched.h>
#include <atomic>
#include <thread>
namespace bi = boost::intrusive; using vf::Rng;
#ifndef CFG
#define CFG 0
#endif
#ifdef VF_THREADS
#define THR 1
#else
#define THR 0
#endif
// ---------------------------------------------------------------- observation
#if THR
static std::atomic<unsigned long> g_ticket{0}; static const int MAXEV = 4096; static unsigned char g_order[MAXEV]; static std::atomic<int> g_active{0};
static thread_local int t_id = 0; static thread_local Rng t_rng(1); static thread_local bool t_delay = false;
inline void delay() { if (t_delay) { unsigned x = unsigned(t_rng.below(64)); if (x == 0) sched_yield(); else if (x == 1) for (volatile int i = 0; i < 300; ++i) {} } }
#else
inline void delay() {}
#endif
struct Sink { std::uint64_t h = 1469598103934665603ull; long n = 0, overlap = 0; const char *last = "";
   void ph(const char *name) { ++n; last = name;
#if THR
      unsigned long t = g_ticket.fetch_add(1, std::memory_order_relaxed); if (t < MAXEV) reinterpret_cast<std::atomic<unsigned char> *>(g_order)[t].store((unsigned char)t_id, std::memory_order_relaxed);
      if (g_active.load(std::memory_order_relaxed) > 1) ++overlap; delay();
#else
      vf::phase(name); vf::count(name);
#endif
   }
   void put(std::uint64_t v) { h = (h ^ v) * 1099511628211ull; h ^= h >> 29; } };
// ---------------------------------------------------------------- elements
struct By { template <class A, class B> bool operator()(const A &a, const B &b) const { delay(); return k(a) < k(b); } template <class T> static auto k(const T &t) -> decltype(t.v) { return t.v; } static int k(int i) { return i; } long pad = 3; };
struct Pri { template <class A, class B> bool operator()(const A &a, const B &b) const { delay(); return k(a) < k(b); } template <class T> static auto k(const T &t) -> decltype(t.p) { return t.p; } static int k(int i) { return i; } };
struct Ha { template <class A> std::size_t operator()(const A &a) const { delay(); return std::size_t(By::k(a)) * 0x9E3779B97F4A7C15ull >> 7; } };
struct Eq { template <class A, class B> bool operator()(const A &a, const B &b) const { delay(); return By::k(a) == By::k(b); } };
struct Pay { int v = 0, id = -1, p = 0; friend bool operator<(const Pay &a, const Pay &b) { return a.v < b.v; } friend bool operator==(const Pay &a, const Pay &b) { return a.v == b.v; } friend bool operator>(const Pay &a, const Pay &b) { return b.v < a.v; }
   friend std::size_t hash_value(const Pay &a) { return Ha()(a); } friend bool priority_order(const Pay &a, const Pay &b) { return a.p < b.p; } };
typedef bi::void_pointer<vf::rel_ptr<void>> RelV; using bi::link_mode; using bi::safe_link; using bi::normal_link; using bi::auto_unlink; using bi::constant_time_size;
template <class H> struct EB : H, Pay {};            // base hook first: a write past an element hits the next one
template <class H> struct EM : Pay { H h; };
#define B_(name, ...) typedef EB<__VA_ARGS__> E; typedef bi::base_hook<__VA_ARGS__> HO; static const char *const NAME = name;
#define M_(name, ...) typedef __VA_ARGS__ HK; typedef EM<HK> E; typedef bi::member_hook<E, HK, &E::h> HO; static const char *const NAME = name;
// FAM 0 list, 1 slist, 2 tree, 3 unordered ; KD tree kind: 0 plain 1 splay 2 sg 3 treap
#define F_(fam, kd, uni, safe, dbl) static const int FAM = fam, KD = kd; static const bool UNI = uni, SAFE = safe, LINEAR = dbl;
#if CFG == 0
B_("list base", bi::list_base_hook<>) typedef bi::list<E, HO> C; F_(0, 0, 0, 1, 0)
#elif CFG == 1
M_("list member normal nocts", bi::list_member_hook<link_mode<normal_link>>) typedef bi::list<E, HO, constant_time_size<false>> C; F_(0, 0, 0, 0, 0)
#elif CFG == 2
B_("list any rel_ptr", bi::any_base_hook<RelV>) typedef bi::list<E, bi::any_to_list_hook<HO>> C; F_(0, 0, 0, 1, 0)
#elif CFG == 3
B_("slist base", bi::slist_base_hook<>) typedef bi::slist<E, HO> C; F_(1, 0, 0, 1, 0)
#elif CFG == 4
M_("slist member linear cache_last", bi::slist_member_hook<>) typedef bi::slist<E, HO, bi::linear<true>, bi::cache_last<true>> C; F_(1, 0, 0, 0, 1)
#elif CFG == 5
B_("slist base rel_ptr linear nocts", bi::slist_base_hook<RelV>) typedef bi::slist<E, HO, bi::linear<true>, constant_time_size<false>> C; F_(1, 0, 0, 0, 1)
#elif CFG == 6
B_("slist base cache_last", bi::slist_base_hook<>) typedef bi::slist<E, HO, bi::cache_last<true>> C; F_(1, 0, 0, 1, 0)
#elif CFG == 7
B_("multiset base", bi::set_base_hook<>) typedef bi::multiset<E, HO, bi::compare<By>> C; F_(2, 0, 0, 1, 0)
#elif CFG == 8
M_("set member optimize_size nocts", bi::set_member_hook<bi::optimize_size<true>, link_mode<auto_unlink>>) typedef bi::set<E, HO, bi::compare<By>, constant_time_size<false>> C; F_(2, 0, 1, 1, 0)
#elif CFG == 9
B_("avl_set base optimize_size", bi::avl_set_base_hook<bi::optimize_size<true>>) typedef bi::avl_set<E, HO, bi::compare<By>> C; F_(2, 0, 1, 1, 0)
#elif CFG == 10
M_("avl_multiset member rel_ptr", bi::avl_set_member_hook<RelV>) typedef bi::avl_multiset<E, HO, bi::compare<By>> C; F_(2, 0, 0, 1, 0)
#elif CFG == 11
B_("bs_multiset base", bi::bs_set_base_hook<>) typedef bi::bs_multiset<E, HO, bi::compare<By>> C; F_(2, 0, 0, 1, 0)
#elif CFG == 12
B_("splay_multiset base", bi::bs_set_base_hook<>) typedef bi::splay_multiset<E, HO, bi::compare<By>> C; F_(2, 1, 0, 1, 0)
#elif CFG == 13
M_("splay_set member nocts normal", bi::bs_set_member_hook<link_mode<normal_link>>) typedef bi::splay_set<E, HO, bi::compare<By>, constant_time_size<false>> C; F_(2, 1, 1, 0, 0)
#elif CFG == 14
B_("sg_multiset base", bi::bs_set_base_hook<>) typedef bi::sg_multiset<E, HO, bi::compare<By>> C; F_(2, 2, 0, 1, 0)
#elif CFG == 15
M_("sg_set member integer alpha", bi::bs_set_member_hook<>) typedef bi::sg_set<E, HO, bi::compare<By>, bi::floating_point<false>> C; F_(2, 2, 1, 1, 0)
#elif CFG == 16
B_("treap_multiset base", bi::bs_set_base_hook<>) typedef bi::treap_multiset<E, HO, bi::compare<By>, bi::priority<Pri>> C; F_(2, 3, 0, 1, 0)
#elif CFG == 17
M_("treap_set member nocts normal", bi::bs_set_member_hook<link_mode<normal_link>>) typedef bi::treap_set<E, HO, bi::compare<By>, bi::priority<Pri>, constant_time_size<false>> C; F_(2, 3, 1, 0, 0)
#elif CFG == 18
B_("unordered_set base", bi::unordered_set_base_hook<>) typedef bi::unordered_set<E, HO, bi::hash<Ha>, bi::equal<Eq>> C; F_(3, 0, 1, 1, 0)
#elif CFG == 19
M_("unordered_multiset member optimize_multikey nocts", bi::unordered_set_member_hook<bi::optimize_multikey<true>>) typedef bi::unordered_multiset<E, HO, bi::hash<Ha>, bi::equal<Eq>, constant_time_size<false>> C; F_(3, 0, 0, 1, 0)
#elif CFG == 20
B_("unordered_multiset base store_hash compare_hash power_2 optimize_multikey", bi::unordered_set_base_hook<bi::store_hash<true>, bi::optimize_multikey<true>>) typedef bi::unordered_multiset<E, HO, bi::hash<Ha>, bi::equal<Eq>, bi::compare_hash<true>, bi::power_2_buckets<true>> C; F_(3, 0, 0, 1, 0)
#define NBS {1, 2, 4, 8}
#elif CFG == 21
B_("unordered_set base incremental cache_begin", bi::unordered_set_base_hook<bi::store_hash<true>>) typedef bi::unordered_set<E, HO, bi::hash<Ha>, bi::equal<Eq>, bi::incremental<true>, bi::cache_begin<true>> C; F_(3, 0, 1, 1, 0)
#define NBS {1, 2, 4, 8}
#elif CFG == 22
B_("unordered_multiset base linear_buckets cache_begin", bi::unordered_set_base_hook<>) typedef bi::unordered_multiset<E, HO, bi::hash<Ha>, bi::equal<Eq>, bi::linear_buckets<true>, bi::cache_begin<true>> C; F_(3, 0, 0, 0, 1)
#elif CFG == 23
B_("unordered_set base linear_buckets store_hash", bi::unordered_set_base_hook<bi::store_hash<true>>) typedef bi::unordered_set<E, HO, bi::hash<Ha>, bi::equal<Eq>, bi::linear_buckets<true>> C; F_(3, 0, 1, 0, 1)
#elif CFG == 24
B_("unordered_multiset base fastmod", bi::unordered_set_base_hook<bi::store_hash<true>>) typedef bi::unordered_multiset<E, HO, bi::hash<Ha>, bi::equal<Eq>, bi::fastmod_buckets<true>> C; F_(3, 0, 0, 1, 0)
#define NBS {3, 7, 3, 7}
#elif CFG == 25
B_("unordered_multiset any rel_ptr", bi::any_base_hook<RelV>) typedef bi::unordered_multiset<E, bi::any_to_unordered_set_hook<HO>, bi::hash<Ha>, bi::equal<Eq>> C; F_(3, 0, 0, 1, 0)
#elif CFG == 26
M_("unordered_set member auto-unlink nocts", bi::unordered_set_member_hook<link_mode<auto_unlink>>) typedef bi::unordered_set<E, HO, bi::hash<Ha>, bi::equal<Eq>, constant_time_size<false>> C; F_(3, 0, 1, 1, 0)
#elif CFG == 27
M_("avl_set any member", bi::any_member_hook<>) typedef bi::avl_set<E, bi::any_to_avl_set_hook<HO>, bi::compare<By>> C; F_(2, 0, 1, 1, 0)
#endif
#ifndef NBS
#define NBS {1, 3, 5, 8}
#endif
static const int NB = 8, N = 24; static const int nbs[4] = NBS;
// linked state of an element whose hook keeps it
template <class T> auto linked(const T &e, int) -> decltype(e.is_linked()) { return e.is_linked(); }
template <class T> auto linked(const T &e, long) -> decltype(e.h.is_linked()) { return e.h.is_linked(); }
template <class C_, int F> struct Box { C_ c; };
template <class C_> struct Box<C_, 3> { typename C_::bucket_type a[2][NB + 1]; C_ c; int cur; typedef typename C_::bucket_traits BT;
   BT bt(int which, int n) { return BT(bi::pointer_traits<typename C_::bucket_ptr>::pointer_to(a[which][0]), n + (LINEAR ? 1 : 0)); } Box() : c(bt(0, nbs[2])), cur(0) {} };
typedef Box<C, FAM> BoxC;
typedef C::iterator It; typedef C::const_iterator CIt;
template <class I> int idof(const C &c, I i) { return i == c.end() ? -1 : i->id; }
// heap of elements used by clones
struct Heap { std::vector<E *> all, fr; E *get(const E &o) { E *e; if (fr.empty()) { e = new E(); all.push_back(e); } else { e = fr.back(); fr.pop_back(); } e->v = o.v; e->id = o.id; e->p = o.p; return e; } ~Heap() { for (E *e : all) delete e; } };
struct Cloner { Heap *h; E *operator()(const E &o) const { delay(); return h->get(o); } }; struct Disp { Heap *h; template <class P> void operator()(P p) const { h->fr.push_back(&*p); } };
// ---------------------------------------------------------------- every operation available on const containers
template <class C_> struct Reads {
   static void common(const C_ &c, const C_ &d, Sink &s, Rng &r, std::vector<const E *> &in) {
      typedef typename C_::const_iterator I;
      s.ph("empty"); s.put(c.empty()); s.ph("size"); s.put(c.size());
      s.ph("iterate"); in.clear(); for (I i = c.begin(); i != c.end(); ++i) { s.put(i->id); in.push_back(&*i); VF_REQ(in.size() <= std::size_t(N), "endless"); }
      s.ph("citerate"); for (I i = c.cbegin(), e = c.cend(); i != e;) { I o = i++; s.put((*o).v); I copy(o); copy = i; s.put(copy == e); }
      s.ph("std-distance"); s.put(std::uint64_t(std::distance(c.begin(), c.end())));
      s.ph("equal"); s.put(c == d); s.put(c != d); s.put(c == c);
      s.ph("swap-const-iterators"); { I a = c.begin(), b = c.end(); std::swap(a, b); s.put(a == b); }
      if (!in.empty()) { const E &e = *in[r.below(in.size())]; s.ph("iterator_to"); I i = c.iterator_to(e); s.put(i->id); ++i; s.put(idof(c, i)); if constexpr (SAFE) { s.ph("is_linked"); s.put(linked(e, 0)); } }
   }
   static void bidir(const C_ &c, Sink &s) { s.ph("reverse-iterate"); for (auto i = c.rbegin(); i != c.rend(); ++i) s.put(i->id); s.ph("creverse-iterate"); for (auto i = c.crbegin(), e = c.crend(); i != e; i++) s.put(i->v);
      s.ph("decrement"); auto i = c.end(); for (auto b = c.begin(); i != b;) { --i; s.put(i->id); } }
   static void run(const C_ &c, const C_ &d, Sink &s, Rng &r, BoxC &own, Heap &h) {
      std::vector<const E *> in; common(c, d, s, r, in); int k = int(r.below(16)) - 1, k2 = k + int(r.below(5));
      if constexpr (FAM <= 2) { s.ph("less"); s.put(c < d); s.put(c > d); s.put(c <= d); s.put(c >= d); if constexpr (FAM != 1 || !LINEAR) { s.ph("container_from_end_iterator"); s.put(&C_::container_from_end_iterator(c.end()) == &c); } s.ph("check"); c.check(); }
      if constexpr (FAM == 0) { bidir(c, s); if (in.size()) { s.ph("front"); s.put(c.front().id); s.ph("back"); s.put(c.back().id); s.ph("s_iterator_to"); s.put(C_::s_iterator_to(*in[0])->id); } }
      if constexpr (FAM == 1) {
         s.ph("before_begin"); { auto i = c.before_begin(); ++i; s.put(idof(c, i)); i = c.cbefore_begin(); ++i; s.put(i == c.begin()); }
         if (in.size()) { s.ph("front"); s.put(c.front().id); s.ph("s_iterator_to"); s.put(C_::s_iterator_to(*in[0])->id); auto i = c.begin(); for (std::size_t q = r.below(in.size() + 1); q; --q) ++i; s.ph("previous"); auto p = c.previous(i); s.put(p == c.before_begin() ? -1 : p->id); if (i != c.begin()) { p = c.previous(c.begin(), i); s.put(p->id); } }
         if constexpr (C_::cache_last) { s.ph("last"); s.put(c.last() == c.clast()); if (in.size()) { s.put(c.last()->id); s.ph("back"); s.put(c.back().id); } }
      }
      if constexpr (FAM == 2) {
         bidir(c, s); E key; key.v = k; E key2; key2.v = k2;
         s.ph("find"); s.put(idof(c, c.find(key))); s.put(idof(c, c.find(k, By()))); s.ph("count"); s.put(c.count(key)); s.put(c.count(k, By()));
         s.ph("lower_bound"); s.put(idof(c, c.lower_bound(key))); s.put(idof(c, c.lower_bound(k, By()))); s.ph("upper_bound"); s.put(idof(c, c.upper_bound(key))); s.put(idof(c, c.upper_bound(k, By())));
         s.ph("equal_range"); { auto p = c.equal_range(key); s.put(idof(c, p.first)); s.put(idof(c, p.second)); p = c.equal_range(k, By()); s.put(idof(c, p.first)); s.put(idof(c, p.second)); }
         s.ph("bounded_range"); { auto p = c.bounded_range(key, key2, true, k == k2 || r.chance(1, 2)); s.put(idof(c, p.first)); s.put(idof(c, p.second)); p = c.bounded_range(k, k2, By(), k == k2 || r.chance(1, 2), true); s.put(idof(c, p.first)); s.put(idof(c, p.second)); }
         s.ph("key_comp"); { E a, b; a.v = k; b.v = k2; s.put(c.key_comp()(a, b)); s.put(c.value_comp()(a, b)); } s.ph("root"); s.put(in.size() ? c.root()->id : -1); s.put(c.croot() == c.root());
         if (in.size()) { auto i = c.begin(); for (std::size_t q = r.below(in.size() + 1); q; --q) ++i; s.ph("container_from_iterator"); s.put(&C_::container_from_iterator(i) == &c); s.ph("s_iterator_to"); s.put(C_::s_iterator_to(*in[0])->id);
            s.ph("subtree-links"); auto t = c.root(); for (;;) { auto l = t; l.go_left(); if (l == decltype(l)() || !l.pointed_node()) break; t = l; } s.put(t->id); }
         if constexpr (KD == 2) { s.ph("balance_factor"); s.put(std::uint64_t(c.balance_factor() * 1000)); }
         if constexpr (KD == 3) { s.ph("top"); s.put(idof(c, c.top())); s.put(idof(c, c.ctop())); s.ph("priority_comp"); E a, b; a.p = k; b.p = k2; s.put(c.priority_comp()(a, b)); s.ph("rtop"); s.put(in.size() ? std::distance(c.rtop(), c.rend()) : 0); s.put(in.size() ? std::distance(c.crtop(), c.crend()) : 0); }
      }
      if constexpr (FAM == 3) {
         E key; key.v = k; s.ph("find"); s.put(idof(c, c.find(key))); s.put(idof(c, c.find(k, Ha(), Eq()))); s.ph("count"); s.put(c.count(key)); s.put(c.count(k, Ha(), Eq()));
         s.ph("equal_range"); { auto p = c.equal_range(key); s.put(idof(c, p.first)); s.put(idof(c, p.second)); for (auto i = p.first; i != p.second; ++i) s.put(i->id); p = c.equal_range(k, Ha(), Eq()); s.put(idof(c, p.first)); }
         s.ph("bucket"); std::size_t b = c.bucket(key); s.put(b); s.put(c.bucket(k, Ha())); s.ph("bucket_count"); std::size_t n = c.bucket_count(); s.put(n); s.ph("bucket_pointer"); s.put(c.bucket_pointer() == c.bucket_pointer());
         s.ph("bucket_size"); for (std::size_t q = 0; q < n; ++q) s.put(c.bucket_size(q)); s.ph("bucket-iterate"); for (std::size_t q = 0; q < n; ++q) { for (auto i = c.begin(q); i != c.end(q); ++i) s.put(i->id); for (auto i = c.cbegin(q); i != c.cend(q); i++) s.put(i->v); }
         s.ph("hash_function"); s.put(c.hash_function()(k)); s.ph("key_eq"); s.put(c.key_eq()(k, k2)); s.ph("split_count"); if constexpr (C_::incremental) s.put(c.split_count()); s.ph("check"); c.check();
         if (in.size()) { const E &e = *in[r.below(in.size())]; s.ph("local_iterator_to"); s.put(c.local_iterator_to(e)->id); s.ph("s_local_iterator_to"); s.put(C_::s_local_iterator_to(e)->id); auto i = c.local_iterator_to(e); ++i; s.put(i == c.end(c.bucket(e)) ? -1 : i->id); }
      }
      s.ph("clone_from-const"); own.c.clone_from(c, Cloner{&h}, Disp{&h}); s.put(own.c.size()); { std::uint64_t sum = 0; for (const E &e : own.c) sum += std::uint64_t(e.v * 31 + e.id) * 7919; s.put(sum); } own.c.clear_and_dispose(Disp{&h});
      if constexpr (FAM == 2) { E sp; sp.v = -5; s.ph("const-source-of-conversion"); CIt x = c.begin(); s.put(idof(c, x)); }
   }
};
// ---------------------------------------------------------------- modifying histories on containers owned by one thread
typedef std::vector<int> Model; // sequence for lists (order), multiset of ids for the others
template <class C> struct OwnerT {
   typedef Box<C, FAM> BoxC; BoxC *b[2]; E *e[N]; int ne; Model m[2]; int bn[2]; long steps = 0;
   const char *bad = nullptr; void req(bool ok, const char *w) { if (!ok && !bad) bad = w; }
   E &el(int i) { return *e[i]; } int freeid(Rng &r) { int s = int(r.below(ne)); for (int t = 0; t < ne; ++t) { int i = (s + t) % ne; bool u = false; for (auto &x : m) for (int y : x) u |= y == i; if (!u) return i; } return -1; }
   bool has(const Model &x, int v) { for (int i : x) if (e[i]->v == v) return true; return false; } void rm(Model &x, int i) { x.erase(std::find(x.begin(), x.end(), i)); }
   void erase_if(Model &x, int v) { x.erase(std::remove_if(x.begin(), x.end(), [&](int i) { return e[i]->v == v; }), x.end()); }
   int loc(E &x) { return x.id; }
   void step(Rng &r, Sink &s) {
      ++steps; int k = int(r.below(2)); C &a = b[k]->c, &o = b[1 - k]->c; Model &x = m[k], &y = m[1 - k]; int id = freeid(r), v = int(r.below(12)); std::size_t q = x.empty() ? 0 : r.below(x.size()); int w = int(r.below(13));
      if constexpr (FAM == 0 || FAM == 1) {
         switch (w) {
         case 0: case 1: s.ph("w-push_front"); if (id >= 0) { a.push_front(el(id)); x.insert(x.begin(), id); } break;
         case 2: s.ph("w-insert"); if (id >= 0) { auto i = a.begin(); std::advance(i, q); a.insert(i, el(id)); x.insert(x.begin() + q, id); } break;
         case 3: case 4: s.ph("w-erase"); if (x.size()) { auto i = a.begin(); std::advance(i, q); a.erase(i); x.erase(x.begin() + q); } break;
         case 5: s.ph("w-pop_front"); if (x.size()) { a.pop_front(); x.erase(x.begin()); } break;
         case 6: s.ph("w-sort"); a.sort(By()); std::stable_sort(x.begin(), x.end(), [&](int i, int j) { return e[i]->v < e[j]->v; }); break;
         case 7: s.ph("w-reverse"); a.reverse(); std::reverse(x.begin(), x.end()); break;
         case 8: s.ph("w-swap"); a.swap(o); x.swap(y); break;
         case 9: s.ph("w-splice"); if constexpr (FAM == 0) a.splice(a.begin(), o); else a.splice_after(a.before_begin(), o); x.insert(x.begin(), y.begin(), y.end()); y.clear(); break;
         case 10: s.ph("w-remove_if"); a.remove_if([v](const E &t) { return t.v == v; }); erase_if(x, v); break;
         case 11: s.ph("w-merge"); a.sort(By()); o.sort(By()); { auto l = [&](int i, int j) { return e[i]->v < e[j]->v; }; std::stable_sort(x.begin(), x.end(), l); std::stable_sort(y.begin(), y.end(), l); Model z; std::merge(x.begin(), x.end(), y.begin(), y.end(), std::back_inserter(z), l); a.merge(o, By()); x = z; y.clear(); } break;
         default: s.ph("w-clear"); if (r.chance(1, 4)) { a.clear(); x.clear(); } break;
         }
      } else if constexpr (FAM == 2) {
         switch (w) {
         case 0: case 1: case 2: s.ph("w-insert"); if (id >= 0) { if constexpr (UNI) { bool n = a.insert(el(id)).second; req(n == !has(x, e[id]->v), "insert"); if (n) x.push_back(id); } else { a.insert(el(id)); x.push_back(id); } } break;
         case 3: s.ph("w-insert-hint"); if (id >= 0 && (!UNI || !has(x, e[id]->v))) { a.insert(a.lower_bound(v, By()), el(id)); x.push_back(id); } break;
         case 4: case 5: s.ph("w-erase"); if (x.size()) { int d = x[q]; a.erase(a.iterator_to(el(d))); rm(x, d); } break;
         case 6: s.ph("w-erase-key"); a.erase(v, By()); erase_if(x, v); break;
         case 7: s.ph("w-find"); { auto i = a.find(v, By()); req((i != a.end()) == has(x, v), "find"); } break;
         case 8: s.ph("w-swap"); a.swap(o); x.swap(y); break;
         case 9: s.ph("w-merge"); a.merge(o); { Model left; for (int i : y) if (UNI && has(x, e[i]->v)) left.push_back(i); else x.push_back(i); y = left; } break;
         case 10: s.ph("w-replace_node"); if (x.size() && id >= 0 && KD != 3 && e[id]->v == e[x[q]]->v) { a.replace_node(a.iterator_to(el(x[q])), el(id)); x[q] = id; } break;
         case 11: s.ph("w-rebalance"); if constexpr (KD == 2) a.rebalance(); else if constexpr (KD == 1) { if (x.size()) a.splay_up(a.iterator_to(el(x[q]))); } else if (x.size()) { auto i = a.begin(); x.erase(std::find(x.begin(), x.end(), loc(*i))); a.erase(i); } break;
         default: s.ph("w-clear"); if (r.chance(1, 4)) { a.clear(); x.clear(); } break;
         }
      } else {
         switch (w) {
         case 0: case 1: case 2: case 3: s.ph("w-insert"); if (id >= 0) { if constexpr (UNI) { bool n = a.insert(el(id)).second; req(n == !has(x, e[id]->v), "insert"); if (n) x.push_back(id); } else { a.insert(el(id)); x.push_back(id); } } break;
         case 4: case 5: s.ph("w-erase"); if (x.size()) { int d = x[q]; a.erase(a.iterator_to(el(d))); rm(x, d); } break;
         case 6: s.ph("w-erase-key"); a.erase(v, Ha(), Eq()); erase_if(x, v); break;
         case 7: s.ph("w-find"); { auto i = a.find(v, Ha(), Eq()); req((i != a.end()) == has(x, v), "find"); } break;
         case 8: s.ph("w-swap"); a.swap(o); x.swap(y); std::swap(b[0]->cur, b[1]->cur); swapped ^= true; break;
         case 9: case 10: s.ph("w-rehash"); { BoxC &own = *b[swapped ? 1 - k : k]; int to = b[k]->cur ^ 1; int n = nbs[r.below(4)]; a.rehash(own.bt(to, n)); b[k]->cur = to; } break;
         case 11: s.ph("w-incremental"); if constexpr (C::incremental) { bool g = r.chance(1, 2); s.put(a.incremental_rehash(g)); } break;
         default: s.ph("w-clear"); if (r.chance(1, 4)) { a.clear(); x.clear(); } break;
         }
      }
      if (steps % 4 == 0) verify();
   }
   bool swapped = false;
   void verify() { for (int k = 0; k < 2; ++k) { Model g; int n = 0; for (const E &t : b[k]->c) { g.push_back(t.id); if (++n > N + 2) break; } Model w = m[k]; if (FAM == 0 || FAM == 1) req(g == w, "contents");
         else { if constexpr (FAM == 2) for (std::size_t i = 1; i < g.size(); ++i) req(e[g[i - 1]]->v <= e[g[i]]->v, "order"); std::sort(g.begin(), g.end()); std::sort(w.begin(), w.end()); req(g == w, "contents"); } req(b[k]->c.size() == m[k].size(), "size"); b[k]->c.check(); } }
   void clear() { for (int k = 0; k < 2; ++k) b[k]->c.clear(); }
   void init(BoxC *p, E *first, std::ptrdiff_t stride, int n, Rng &r, int range) { b[0] = p; b[1] = p + 1; ne = n; for (int i = 0; i < n; ++i) { e[i] = first + i * stride; e[i]->id = i; e[i]->v = int(r.below(range)); e[i]->p = int(r.below(40)); } }
};
typedef OwnerT<C> Owner;
#if !THR
static char *g_arena; static const std::size_t ASZ = 64 * 1024;
static void prot(int p) { if (mprotect(g_arena, ASZ, p)) { std::perror("mprotect"); std::_Exit(3); } }
static void run(Rng &r) {
   if (!g_arena) { g_arena = static_cast<char *>(mmap(nullptr, ASZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0)); if (g_arena == MAP_FAILED) { std::perror("mmap"); std::_Exit(3); } }
   std::memset(g_arena, 0xa5, ASZ); char *p = g_arena; auto take = [&](std::size_t n) { p = reinterpret_cast<char *>((std::uintptr_t(p) + 63) / 64 * 64); char *q = p; p += n; if (p > g_arena + ASZ) { std::fprintf(stderr, "arena too small\n"); std::_Exit(3); } return q; };
   E *es = reinterpret_cast<E *>(take(sizeof(E) * N)); for (int i = 0; i < N; ++i) new (es + i) E(); BoxC *bx = reinterpret_cast<BoxC *>(take(sizeof(BoxC) * 2)); for (int k = 0; k < 2; ++k) new (bx + k) BoxC();
   Heap h; BoxC *outside = new BoxC(); Owner o; int n = r.chance(1, 6) ? int(r.below(3)) : 1 + int(r.below(N)); if (n < 1) n = 1; o.init(bx, es, 1, n, r, r.chance(1, 3) ? 3 : 12); Sink ws;
   int rounds = 2 + int(r.below(4));
   for (int t = 0; t < rounds; ++t) {
      int st = t ? 1 + int(r.below(6)) : int(r.below(n * 3)); for (int i = 0; i < st; ++i) o.step(r, ws); o.verify(); if (o.bad) vf::fail(o.bad, "history broke %s before any const operation", o.bad);
      std::uint64_t seed = r.next(); std::uint64_t base = 0;
      for (int pass = 0; pass < 3; ++pass) { // plain, protected, plain: same results each time
         Rng rr(seed); Sink s; if (pass == 1) { vf::op("protect", t, long(o.m[0].size()), long(o.m[1].size()), long(seed & 0xffff)); prot(PROT_READ); }
         Reads<C>::run(bx[0].c, bx[1].c, s, rr, *outside, h); Reads<C>::run(bx[1].c, bx[0].c, s, rr, *outside, h); Reads<C>::run(bx[1].c, bx[1].c, s, rr, *outside, h);
         if (pass == 1) { prot(PROT_READ | PROT_WRITE); vf::count("protected-const-operations", s.n); vf::digest(s.h); } if (pass == 0) base = s.h; else if (s.h != base) vf::fail("const-result", "repeating the const operations gave different results"); }
      o.verify(); if (o.bad) vf::fail(o.bad, "const operations changed %s", o.bad);
   }
   o.clear(); delete outside; for (int k = 0; k < 2; ++k) bx[k].~BoxC(); for (int i = 0; i < N; ++i) es[i].~E();
}
#else
static const int T = 4;
static void run(Rng &r) {
   // shared containers, then per-thread pairs, all adjacent; elements of the threads interleaved
   static const int K = 10; struct World { E sh[N]; E own[T * K]; BoxC bx[2 + 2 * T]; }; World *w = new World();
   Owner shared; shared.init(w->bx, w->sh, 1, N, r, r.chance(1, 3) ? 3 : 12); Sink ss; int st = int(r.below(N * 3)); for (int i = 0; i < st; ++i) shared.step(r, ss);
   Owner ow[T]; for (int t = 0; t < T; ++t) ow[t].init(w->bx + 2 + 2 * t, w->own + t, T, K, r, 8);
   g_ticket.store(0); std::uint64_t seeds[T], rseed = r.next(); for (auto &x : seeds) x = r.next(); Sink res[T], tot[T]; std::atomic<int> go{0}; int steps = 12 + int(r.below(16)); unsigned sched = unsigned(r.below(4)); std::thread th[T];
   for (int t = 0; t < T; ++t) th[t] = std::thread([&, t] {
      t_id = t; t_rng = Rng(seeds[t] ^ 77); t_delay = sched != 0; Rng me(seeds[t]); Heap h; BoxC *out = new BoxC(); go.fetch_add(1, std::memory_order_relaxed); while (go.load(std::memory_order_relaxed) < T) sched_yield(); g_active.fetch_add(1, std::memory_order_relaxed);
      for (int i = 0; i < steps; ++i) { bool rd = sched == 1 ? true : sched == 2 ? false : me.chance(1, 3); if (rd) { Rng rr(rseed + i % 3); Sink s; Reads<C>::run(w->bx[i & 1].c, w->bx[1 - (i & 1)].c, s, rr, *out, h); tot[t].n += s.n; tot[t].overlap += s.overlap; res[t].put(s.h ^ unsigned(i % 6)); /* order-independent of others */ if (i < 6) tot[t].put(0); }
         else { Sink s; ow[t].step(me, s); tot[t].n += s.n; tot[t].overlap += s.overlap; } }
      g_active.fetch_sub(1, std::memory_order_relaxed); delete out; });
   for (auto &x : th) x.join();
   unsigned long n = g_ticket.load(); std::uint64_t hh = 1469598103934665603ull; for (unsigned long i = 0; i < n && i < MAXEV; ++i) hh = (hh ^ g_order[i]) * 1099511628211ull;
   long ops = 0, ov = 0; for (auto &x : tot) { ops += x.n; ov += x.overlap; }
   vf::op("build", long(shared.m[0].size()), long(shared.m[1].size())); vf::op("threads", T, ops, ov); vf::op("interleaving", long(hh >> 20)); vf::digest(hh); vf::count("concurrent-operations", ops); vf::count("operations-while-others-active", ov);
   for (int t = 0; t < T; ++t) { ow[t].verify(); if (ow[t].bad) vf::fail(ow[t].bad, "thread %d's own containers: %s differ from its own history", t, ow[t].bad); }
   if (sched == 1) for (int t = 1; t < T; ++t) if (res[t].h != res[0].h) vf::fail("const-result", "threads %d and 0 read different results from the same const containers", t);
   shared.verify(); if (shared.bad) vf::fail(shared.bad, "shared const containers changed: %s", shared.bad);
   shared.clear(); for (auto &x : ow) x.clear(); delete w;
}
#endif
int main(int argc, char **argv) { static std::string nm = std::string(NAME) + (THR ? " threads" : " protected"); return vf::main_loop(argc, argv, nm.c_str(), 500, 5000, run, THR ? 60 : 20); }
