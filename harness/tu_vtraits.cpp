// Stateful value traits: every container has its own element array and its own node array beside it. Contents and traits must travel together
// through swap and move, and a clone is made of elements and nodes of the destination only.
// CFG 0-2 list, 3-6 slist, 7-12 trees (rb avl bs splay sg treap), 13-18 the same kinds without constant_time_size / unique, 19-24 unordered
#ifndef CFG
#define CFG 0
#endif
#include "common.hpp"
#include <boost/intrusive/set.hpp>
#include <boost/intrusive/avl_set.hpp>
#include <boost/intrusive/bs_set.hpp>
#include <boost/intrusive/splay_set.hpp>
#include <boost/intrusive/sg_set.hpp>
#include <boost/intrusive/treap_set.hpp>
#include <boost/intrusive/unordered_set.hpp>
#include <boost/intrusive/list.hpp>
#include <boost/intrusive/slist.hpp>
#include <algorithm>
#include <memory>
#include <optional>
using namespace vf;
namespace bi = boost::intrusive;
struct E { int v, id; };
inline bool operator<(const E &a, const E &b) { return a.v < b.v; }
inline bool operator==(const E &a, const E &b) { return a.v == b.v; }
inline bool priority_order(const E &a, const E &b) { return unsigned(a.v) * 40503u % 977 < unsigned(b.v) * 40503u % 977; }
struct Ha { std::size_t operator()(const E &e) const { return std::size_t(e.v) * 3; } std::size_t operator()(int k) const { return std::size_t(k) * 3; } };
struct Eq { bool operator()(const E &a, const E &b) const { return a.v == b.v; } bool operator()(int a, const E &b) const { return a == b.v; } bool operator()(const E &a, int b) const { return a.v == b; } };
struct Lt { bool operator()(int a, const E &b) const { return a < b.v; } bool operator()(const E &a, int b) const { return a.v < b; } };
#define LISTF (CFG < 3)
#define SLISTF (CFG >= 3 && CFG < 7)
#define TREEF (CFG >= 7 && CFG < 19)
#define HASHF (CFG >= 19)
#define UNIQ ((CFG >= 13 && CFG < 19) || CFG == 20 || CFG == 23)
#define TK ((CFG - 7) % 6)
#if LISTF
typedef bi::list_node_traits<void *> NT;
#elif SLISTF
typedef bi::slist_node_traits<void *> NT;
#elif TREEF
#if TK == 0
typedef bi::rbtree_node_traits<void *, (CFG >= 13)> NT;
#elif TK == 1
typedef bi::avltree_node_traits<void *, (CFG >= 13)> NT;
#else
typedef bi::tree_node_traits<void *> NT;
#endif
#else
typedef bi::unordered_node_traits<void *, (CFG == 19 || CFG == 21 || CFG == 23), (CFG == 19 || CFG == 22)> NT;
#endif
static const int N = 64;
struct Store { std::unique_ptr<E[]> els; std::unique_ptr<NT::node[]> nodes; Store() : els(new E[N]), nodes(new NT::node[N]()) {} };
struct VT { typedef NT node_traits; typedef NT::node node; typedef NT::node_ptr node_ptr; typedef NT::const_node_ptr const_node_ptr; typedef E value_type; typedef E *pointer; typedef const E *const_pointer; typedef E &reference; typedef const E &const_reference;
   static const bi::link_mode_type link_mode = CFG % 2 ? bi::normal_link : bi::safe_link;
   E *e; NT::node *n;
   explicit VT(Store *s = nullptr) : e(s ? s->els.get() : nullptr), n(s ? s->nodes.get() : nullptr) {}
   std::ptrdiff_t ix(const E &v) const { std::ptrdiff_t i = &v - e; if (&v < e || &v >= e + N) fail("foreign-element", "the value traits of a container were asked for the node of an element of another container"); return i; }
   std::ptrdiff_t nx(const_node_ptr p) const { std::ptrdiff_t i = p - n; if (p < n || p >= n + N) fail("foreign-node", "the value traits of a container were asked for the element of a node of another container"); return i; }
   node_ptr to_node_ptr(E &v) const { return n + ix(v); } const_node_ptr to_node_ptr(const E &v) const { return n + ix(v); }
   pointer to_value_ptr(node_ptr p) const { return e + nx(p); } const_pointer to_value_ptr(const_node_ptr p) const { return e + nx(p); } };
#define VTO bi::value_traits<VT>
#define CTS bi::constant_time_size<(CFG % 3 != 1)>
#if LISTF
typedef bi::list<E, VTO, CTS> C;
#elif CFG == 3
typedef bi::slist<E, VTO> C;
#elif CFG == 4
typedef bi::slist<E, VTO, CTS, bi::cache_last<true>> C;
#elif CFG == 5
typedef bi::slist<E, VTO, bi::linear<true>> C;
#elif CFG == 6
typedef bi::slist<E, VTO, bi::linear<true>, bi::cache_last<true>> C;
#elif CFG == 7
typedef bi::multiset<E, VTO> C;
#elif CFG == 8
typedef bi::avl_multiset<E, VTO> C;
#elif CFG == 9
typedef bi::bs_multiset<E, VTO> C;
#elif CFG == 10
typedef bi::splay_multiset<E, VTO> C;
#elif CFG == 11
typedef bi::sg_multiset<E, VTO> C;
#elif CFG == 12
typedef bi::treap_multiset<E, VTO> C;
#elif CFG == 13
typedef bi::set<E, VTO, bi::constant_time_size<false>> C;
#elif CFG == 14
typedef bi::avl_set<E, VTO, bi::constant_time_size<false>> C;
#elif CFG == 15
typedef bi::bs_set<E, VTO, bi::constant_time_size<false>> C;
#elif CFG == 16
typedef bi::splay_set<E, VTO, bi::constant_time_size<false>> C;
#elif CFG == 17
typedef bi::sg_set<E, VTO, bi::floating_point<false>> C;
#elif CFG == 18
typedef bi::treap_set<E, VTO, bi::constant_time_size<false>> C;
#elif CFG == 19
typedef bi::unordered_multiset<E, VTO, bi::hash<Ha>, bi::equal<Eq>, bi::cache_begin<true>> C;
#elif CFG == 20
typedef bi::unordered_set<E, VTO, bi::hash<Ha>, bi::equal<Eq>> C;
#elif CFG == 21
typedef bi::unordered_multiset<E, VTO, bi::hash<Ha>, bi::equal<Eq>, bi::power_2_buckets<true>, bi::compare_hash<true>> C;
#elif CFG == 22
typedef bi::unordered_multiset<E, VTO, bi::hash<Ha>, bi::equal<Eq>, bi::constant_time_size<false>, bi::cache_begin<true>> C;
#elif CFG == 23
typedef bi::unordered_set<E, VTO, bi::hash<Ha>, bi::equal<Eq>, bi::incremental<true>, bi::cache_begin<true>> C;
#else
typedef bi::unordered_multiset<E, VTO, bi::hash<Ha>, bi::equal<Eq>, bi::fastmod_buckets<true>> C;
#endif
template <class T> struct D { // a template, so that if constexpr discards
   typedef typename T::iterator It; typedef typename T::const_iterator CIt;
   struct Side { T *c; int st; std::vector<int> m; };
   Store s[2]; Side d[2]; Rng &r; std::vector<std::vector<char>> bufs; typedef int Bucket;
   explicit D(Rng &rr) : r(rr) {
      for (int k = 0; k < 2; ++k) { for (int i = 0; i < N; ++i) { s[k].els[i].id = k * 1000 + i; s[k].els[i].v = int(r.below(r.s & 16 ? 8 : 24)); } d[k].st = k; d[k].c = make(&s[k]); }
   }
   ~D() { for (auto &x : d) { x.c->clear(); delete x.c; } }
#if HASHF
   typename T::bucket_traits fresh() { static const int sizes[] = {1, 2, 4, 8, 16, 32}; std::size_t n; if (CFG == 24) n = T::suggested_upper_bucket_count(std::size_t(r.below(30)) + 1); else n = CFG == 21 || CFG == 23 ? sizes[r.below(6)] : 1 + r.below(24); if (CFG == 23 && n < 2) n = 2;
      bufs.emplace_back(sizeof(typename T::bucket_type) * n + 64); char *p = bufs.back().data(); p += (64 - reinterpret_cast<std::uintptr_t>(p) % 64) % 64; auto *b = reinterpret_cast<typename T::bucket_type *>(p); for (std::size_t i = 0; i < n; ++i) new (b + i) typename T::bucket_type(); return typename T::bucket_traits(b, n); }
#endif
   T *make(Store *st) {
#if HASHF
      return new T(fresh(), Ha(), Eq(), VT(st));
#elif TREEF && TK == 5
      return new T(typename T::key_compare(), typename T::priority_compare(), VT(st));
#elif TREEF
      return new T(typename T::key_compare(), VT(st));
#else
      return new T(VT(st));
#endif
   }
   E &el(const Side &x, int i) { return s[x.st].els[i]; }
   int free_el(const Side &x) { int i = int(r.below(N)); for (int t = 0; t < N; ++t, i = (i + 1) % N) if (std::find(x.m.begin(), x.m.end(), i) == x.m.end()) return i; return -1; }
   bool has(const Side &x, int v) { for (int i : x.m) if (el(x, i).v == v) return true; return false; }
   template <class L> std::vector<int> walk(const Side &x, L &c) { std::vector<int> o; for (auto &e : c) { if (&e < &s[x.st].els[0] || &e >= &s[x.st].els[0] + N) fail("foreign", "an element outside the container's own array is iterated"); o.push_back(int(&e - &s[x.st].els[0])); if (o.size() > std::size_t(N)) fail("walk", "endless iteration"); } return o; }
   void verify() {
      for (auto &x : d) { auto w = walk(x, *x.c), cw = walk(x, const_cast<const T &>(*x.c)), m = x.m; VF_REQ(w == cw, "const-walk"); if (HASHF) { std::sort(w.begin(), w.end()); std::sort(m.begin(), m.end()); }
         VF_REQ(w == m, "contents"); VF_REQ(x.c->size() == m.size() && x.c->empty() == m.empty(), "size");
#if LISTF || TREEF
         std::vector<int> b; for (auto i = x.c->rbegin(); i != x.c->rend(); ++i) b.push_back(int(&*i - &s[x.st].els[0])); std::reverse(b.begin(), b.end()); VF_REQ(b == m, "reverse");
#endif
         if (!m.empty()) { int i = m[r.below(m.size())]; It it = x.c->iterator_to(el(x, i)); VF_REQ(&*it == &el(x, i) && it.operator->() == &el(x, i), "iterator_to"); }
#if TREEF
         int k = int(r.below(26)); auto f = x.c->find(k, Lt()); VF_REQ(has(x, k) == (f != x.c->end()) && (f == x.c->end() || f->v == k), "find"); auto lb = x.c->lower_bound(k, Lt()); int less = 0; for (int i : m) less += el(x, i).v < k; VF_REQ(std::distance(x.c->begin(), lb) == less, "lower_bound");
#elif HASHF
         int k = int(r.below(26)); auto f = x.c->find(k, Ha(), Eq()); VF_REQ(has(x, k) == (f != x.c->end()) && (f == x.c->end() || f->v == k), "find"); std::size_t n = 0; for (int i : m) n += el(x, i).v == k; VF_REQ(x.c->count(k, Ha(), Eq()) == n, "count");
#elif CFG == 4 || CFG == 6
         if (!m.empty()) VF_REQ(&x.c->back() == &el(x, m.back()), "back");
#endif
         count("elements-verified", m.size()); }
      std::vector<int> a, b; for (int i : d[0].m) a.push_back(el(d[0], i).v); for (int i : d[1].m) b.push_back(el(d[1], i).v); if (HASHF) { std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); }
      VF_REQ((*d[0].c == *d[1].c) == (a == b), "equal");
#if !HASHF
      VF_REQ((*d[0].c < *d[1].c) == (a < b), "less");
#endif
      digest(d[0].m.size() * 64 + d[1].m.size());
   }
   void insert(Side &x) { int i = free_el(x); if (i < 0 || x.m.size() > 24) return; E &e = el(x, i); op("insert", i, e.v);
#if LISTF || SLISTF
      if (r.chance(1, 2)) { x.c->push_front(e); x.m.insert(x.m.begin(), i); } else { std::size_t p = r.below(x.m.size() + 1); auto it = x.c->begin(); std::advance(it, p); x.c->insert(it, e); x.m.insert(x.m.begin() + p, i); }
#else
      if (UNIQ) { bool had = has(x, e.v); bool in = ins(*x.c, e); VF_REQ(in == !had, "unique-insert"); if (!in) return; } else ins(*x.c, e);
      if (HASHF) x.m.push_back(i); else x.m.insert(std::upper_bound(x.m.begin(), x.m.end(), i, [&](int p, int q) { return el(x, p).v < el(x, q).v; }), i);
#endif
   }
   template <class L> static bool ins(L &c, E &e) { if constexpr (UNIQ) return c.insert(e).second; else { c.insert(e); return true; } }
   void erase(Side &x) { if (x.m.empty()) return; std::size_t p = r.below(x.m.size()); int i = x.m[p]; E &e = el(x, i); op("erase", i, e.v); E *got = nullptr;
      if (r.chance(1, 3)) { int v = e.v; std::vector<int> gone, want; for (int j : x.m) if (el(x, j).v == v) want.push_back(j); auto dis = [&](E *q) { gone.push_back(int(q - &s[x.st].els[0])); };
#if TREEF
         x.c->erase_and_dispose(v, Lt(), dis);
#elif HASHF
         x.c->erase_and_dispose(v, Ha(), Eq(), dis);
#else
         x.c->remove_and_dispose_if([&](const E &q) { return q.v == v; }, dis);
#endif
         std::sort(gone.begin(), gone.end()); std::sort(want.begin(), want.end()); VF_REQ(gone == want, "disposed"); std::vector<int> rest; for (int j : x.m) if (el(x, j).v != v) rest.push_back(j); x.m = rest; return; }
      x.c->erase_and_dispose(x.c->iterator_to(e), [&](E *q) { got = q; }); VF_REQ(got == &e, "disposed"); x.m.erase(x.m.begin() + p); }
   void clone(int from, bool rv) { Side &x = d[from], &y = d[1 - from]; op("clone", from); std::vector<int> old = y.m, made, gone; int fuse = r.chance(1, 4) ? int(r.below(x.m.size() + 1)) : -1; std::size_t seen = 0; std::vector<const E *> src; for (auto &e : const_cast<const T &>(*x.c)) src.push_back(&e);
      std::vector<char> srcseen(N, 0); auto mk = [&](const E &e) -> E * { if (std::find(src.begin(), src.end(), &e) == src.end()) fail("clone-source", "the cloner was given something that is not an element of the source"); ++srcseen[&e - &s[x.st].els[0]]; if (int(seen++) == fuse) throw 7; int i = 0; while (std::find(old.begin(), old.end(), i) != old.end() || std::find(made.begin(), made.end(), i) != made.end()) ++i; s[y.st].els[i].v = e.v; made.push_back(i); return &s[y.st].els[i]; };
      auto dis = [&](E *q) { std::ptrdiff_t i = q - &s[y.st].els[0]; if (i < 0 || i >= N) fail("clone-dispose", "the disposer was given something that is not an element of the destination"); gone.push_back(int(i)); };
      bool thrown = false; try { (void)rv; y.c->clone_from(*x.c, mk, dis); } catch (int) { thrown = true; }
      VF_REQ(thrown == (fuse >= 0 && fuse < int(src.size())), "clone-throw");
      std::vector<int> want = old; if (thrown) want.insert(want.end(), made.begin(), made.end()); std::sort(want.begin(), want.end()); std::sort(gone.begin(), gone.end()); VF_REQ(gone == want, "clone-disposed");
      if (thrown) y.m.clear(); else { VF_REQ(made.size() == src.size(), "clone-count"); for (char c : srcseen) VF_REQ(c <= 1, "cloned-twice"); y.m = walk(y, *y.c); std::vector<int> a, b; for (int i : x.m) a.push_back(el(x, i).v); for (int i : y.m) b.push_back(el(y, i).v); if (HASHF) { std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); } VF_REQ(a == b, "clone-values"); count("clones"); } }
   void step() {
      switch (r.below(14)) {
      case 0: case 1: case 2: case 3: insert(d[0]); break;
      case 4: case 5: insert(d[1]); break;
      case 6: erase(d[r.below(2)]); break;
      case 7: { bool fr = r.chance(1, 2); op(fr ? "free_swap" : "swap"); if (fr) { using std::swap; swap(*d[0].c, *d[1].c); } else d[0].c->swap(*d[1].c); exch(); break; }
      case 8: { op("move_assign"); *d[0].c = boost::move(*d[1].c); exch_any(); break; }
      case 9: { int k = int(r.below(2)); op("move_construct", k); T *t = new T(boost::move(*d[k].c)); delete d[k].c; d[k].c = t; count("moves"); break; }
      case 10: { op("swap_temp"); int k = int(r.below(2)); T t(boost::move(*d[k].c)); *d[k].c = boost::move(t); count("moves"); break; }
      case 11: { int k = int(r.below(2)); if (r.chance(1, 2)) clone(k, false); else clone_rv(k); break; }
      case 12: { Side &x = d[r.below(2)]; if (r.chance(1, 3)) { op("clear"); x.c->clear(); x.m.clear(); } break; }
      default: { Side &x = d[r.below(2)]; (void)x;
#if LISTF || SLISTF
         if (r.chance(1, 2)) { op("sort"); x.c->sort(); std::stable_sort(x.m.begin(), x.m.end(), [&](int p, int q) { return el(x, p).v < el(x, q).v; }); } else { op("reverse"); x.c->reverse(); std::reverse(x.m.begin(), x.m.end()); }
#elif HASHF
         op("rehash"); x.c->rehash(fresh());
#elif TK == 2 || TK == 4
         op("rebalance"); x.c->rebalance();
#endif
         break; } }
      verify();
   }
   void exch() { std::swap(d[0].st, d[1].st); std::swap(d[0].m, d[1].m); count("swaps"); }
   void exch_any() { exch(); } // move assignment exchanges the contents
   void clone_rv(int from) { Side &x = d[from], &y = d[1 - from]; op("clone_rvalue", from); std::vector<int> old = y.m, made; std::size_t gone = 0;
      auto mk = [&](E &e) -> E * { if (&e < &s[x.st].els[0] || &e >= &s[x.st].els[0] + N) fail("clone-source", "the cloner was given something that is not an element of the source"); int i = 0; while (std::find(old.begin(), old.end(), i) != old.end() || std::find(made.begin(), made.end(), i) != made.end()) ++i; s[y.st].els[i].v = e.v; made.push_back(i); return &s[y.st].els[i]; };
      y.c->clone_from(boost::move(*x.c), mk, [&](E *) { ++gone; }); VF_REQ(gone == old.size(), "clone-disposed"); y.m = walk(y, *y.c); std::vector<int> a, b; for (int i : x.m) a.push_back(el(x, i).v); for (int i : y.m) b.push_back(el(y, i).v); if (HASHF) { std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); } VF_REQ(a == b, "clone-values"); count("clones"); }
};
static void run(Rng &r) { D<C> d(r); int n = r.range(10, 80); for (int i = 0; i < n; ++i) d.step(); }
int main(int argc, char **argv) { return vf::main_loop(argc, argv, "stateful value traits", 400, 8000, run); }
