// Model-based monitor for the ordered containers: (multi)set families and the raw trees.
#ifndef VF_TREE_DRIVER_HPP
#define VF_TREE_DRIVER_HPP
#include "common.hpp"
#include <cmath>
#include <boost/intrusive/set.hpp>
#include <boost/intrusive/avl_set.hpp>
#include <boost/intrusive/bs_set.hpp>
#include <boost/intrusive/splay_set.hpp>
#include <boost/intrusive/sg_set.hpp>
#include <boost/intrusive/treap_set.hpp>

namespace vf {
namespace bi = boost::intrusive;
enum Kind { RB, AVL, BS, SPLAY, SG, TREAP };
struct HKey { int v; };   // a key of another type
struct HPrio { int p; };
inline int kv(const Payload &p) { return p.v; }
inline int kv(int v) { return v; }
inline int kv(HKey k) { return k.v; }
inline int pv(const Payload &p) { return p.aux; }
inline int pv(int v) { return v; }
inline int pv(HPrio k) { return k.p; }
// stateful functors: the direction belongs to the container
struct KLess { int dir = 1; template <class A, class B> bool operator()(const A &a, const B &b) const { tick(); return dir > 0 ? kv(a) < kv(b) : kv(b) < kv(a); } };
struct PLess { int dir = 1; template <class A, class B> bool operator()(const A &a, const B &b) const { tick(); return dir > 0 ? pv(a) < pv(b) : pv(b) < pv(a); } };
struct KeyOf { typedef int type; template <class T> const int &operator()(const T &t) const { return t.v; } };
struct PrioOf { typedef int type; template <class T> const int &operator()(const T &t) const { return t.aux; } };

// Cfg: elem, container, other (multi/unique counterpart, or void), kind, uni, eq, wrapper, kov, prioov, safe, cts, autou, stateful, fp
template <class Cfg> struct TreeDriver : DriverBase<Cfg> {
   typedef DriverBase<Cfg> B;
   typedef typename Cfg::elem E;
   typedef typename Cfg::container L;
   typedef typename L::iterator It;
   typedef typename L::const_iterator CIt;
   typedef typename L::node_traits NT;
   typedef typename NT::node_ptr NP;
   typedef typename NT::const_node_ptr CNP;
   typedef std::vector<int> Seq;
   using B::pool; using B::rng; using B::disposer; using B::after_dispose;
   static const Kind KIND = Cfg::kind;
   static const bool treap = KIND == TREAP, splay = KIND == SPLAY, sg = KIND == SG;

   void *cmem[2];
   L *c[2];
   Seq m[2];
   int dir[2], pdir[2];
   float alpha[2]; double sgmax[2];
   std::vector<int> where;
   std::vector<It> its;
   int keyrange;
   int poison_until = 0;
   E *kel = nullptr, *kel2 = nullptr; // key carriers for containers whose key is the element itself

   E &el(int id) { return pool[id]; }
   static std::size_t csz() { return (sizeof(L) + 15) & ~std::size_t(15); }
   static L *construct(void *p, int d, int pd) { if constexpr (treap) return new (p) L(KLess{d}, PLess{pd}); else { (void)pd; return new (p) L(KLess{d}); } }
   void make() {
      for (int i = 0; i < 2; ++i) {
         dir[i] = rng->chance(1, 4) ? -1 : 1; pdir[i] = rng->chance(1, 4) ? -1 : 1; alpha[i] = 0.70711f; sgmax[i] = 0;
         cmem[i] = ::operator new(csz()); c[i] = construct(cmem[i], dir[i], pdir[i]); m[i].clear();
      }
   }
   It at(int k, std::size_t pos) { It i = c[k]->begin(); while (pos--) ++i; return i; }
   bool lt(int k, int a, int b) const { return dir[k] > 0 ? a < b : b < a; }
   int key_at(int k, std::size_t i) { return el(m[k][i]).v; }
   std::size_t lb(int k, int v) { std::size_t i = 0; while (i < m[k].size() && lt(k, key_at(k, i), v)) ++i; return i; }
   std::size_t ub(int k, int v) { std::size_t i = 0; while (i < m[k].size() && !lt(k, v, key_at(k, i))) ++i; return i; }
   const E *alias = nullptr; // the key is read from this element of the container
   decltype(auto) key(int v) { if (alias) { const E &x = *alias; alias = nullptr; if constexpr (Cfg::kov) return static_cast<const int &>(x.v); else return static_cast<const E &>(x); } if constexpr (Cfg::kov) { kint = v; return static_cast<const int &>(kint); } else { kel->v = v; return static_cast<const E &>(*kel); } }
   decltype(auto) key2(int v) { if constexpr (Cfg::kov) { kint2 = v; return static_cast<const int &>(kint2); } else { kel2->v = v; return static_cast<const E &>(*kel2); } }
   decltype(auto) prio(int p) { if constexpr (Cfg::prioov) { kint2 = p; return static_cast<const int &>(kint2); } else { kel2->aux = p; return static_cast<const E &>(*kel2); } }
   int kint, kint2;

   // ------------------------------------------------------------ guards
   std::vector<int> passed;
   struct Guard {
      TreeDriver *d; bool on; int mask;
      Guard(TreeDriver *d_, int mask_) : d(d_), on(F_POISON), mask(mask_) {
         if (on) {
            for (std::size_t i = 0; i < d->pool.e.size(); ++i) {
               int w = d->where[i];
               bool keep = (w >= 0 && (mask >> w & 1));
               for (int p : d->passed) keep = keep || p == int(i);
               if (!keep) d->pool.poison(int(i));
            }
            for (int k = 0; k < 2; ++k) if (!(mask >> k & 1)) VF_POISON(d->cmem[k], csz());
         }
         d->life_begin();
      }
      ~Guard() {
         if (on) { d->pool.unpoison_all(); for (int k = 0; k < 2; ++k) VF_UNPOISON(d->cmem[k], csz()); }
         d->life_end();
         d->passed.clear();
      }
   };
   void release(int id) { where[id] = -1; }
   void put(int id, int k) { where[id] = k; }
   void saved(int id, It i) { if (F_ITER) its[id] = i; }
   int free_id() {
      for (int t = 0; t < 20; ++t) { int i = int(rng->below(pool.e.size())); if (where[i] < 0) return i; }
      return -1;
   }
   int rv() { return rng->range(0, keyrange); }
   int rekey(int id) { el(id).v = rv(); el(id).aux = rng->chance(1, 3) ? rng->range(0, 3) : rng->range(0, 1000); return id; }
   void grown(int k) { sgmax[k] = std::max(sgmax[k], double(m[k].size())); }
   // after removals through the container: either a rebuild happened or the size is still within alpha of the maximum
   void shrunk(int k) { sgmax[k] = m[k].empty() ? sgmax[k] : std::min(sgmax[k], std::ceil(double(m[k].size() + 1) / alpha_rule(k))); if (m[k].empty()) sgmax[k] = std::min(sgmax[k], 4.0); }
   double alpha_rule(int k) { return Cfg::fp ? double(alpha[k]) : 0.70; }

   void hook_ok(int id, const char *key) {
      if (Cfg::linked(el(id)) != (where[id] >= 0)) fail(key, "%s: is_linked() of element %d is %d, it is %sin a container", M().phase, id, int(Cfg::linked(el(id))), where[id] >= 0 ? "" : "not ");
   }

   // ------------------------------------------------------------ structure, read through the public node traits only
   struct Walk { int height; int black; int n; };
   std::vector<NP> order; // nodes in iteration order
   std::size_t wi; int maxdepth; std::uint64_t shape; int pd_;
   static E *elem_of(NP n) { return raw(L::value_traits::to_value_ptr(n)); }
   Walk walk(NP n, NP parent, int depth) {
      if (!n) { shape = (shape ^ 7) * 1099511628211ull; return Walk{0, 1, 0}; }
      VF_REQ(NT::get_parent(n) == parent, "parent-link");
      if (depth > maxdepth) maxdepth = depth;
      if (wi > order.size()) fail("structure", "%s: tree larger than iteration", M().phase);
      shape = (shape ^ 13) * 1099511628211ull;
      Walk l = walk(NT::get_left(n), n, depth + 1);
      if (wi >= order.size() || order[wi] != n) fail("in-order", "%s: in-order node %zu is not the iterated one", M().phase, wi);
      ++wi;
      Walk r = walk(NT::get_right(n), n, depth + 1);
      Walk w{1 + std::max(l.height, r.height), l.black, l.n + r.n + 1};
      law(n, l, r, w);
      return w;
   }
   template <class N> void law(N n, const Walk &l, const Walk &r, Walk &w) {
      if constexpr (KIND == RB) {
         bool red = NT::get_color(n) == NT::red();
         VF_REQ(red || NT::get_color(n) == NT::black(), "rb-colour");
         if (l.black != r.black) fail("rb-black-height", "%s: black heights %d and %d", M().phase, l.black, r.black);
         if (red) {
            N a = NT::get_left(n), b = NT::get_right(n);
            VF_REQ((!a || NT::get_color(a) != NT::red()) && (!b || NT::get_color(b) != NT::red()), "rb-red-red");
         } else ++w.black;
      } else if constexpr (KIND == AVL) {
         int d = r.height - l.height;
         if (d < -1 || d > 1) fail("avl-height", "%s: subtree heights %d and %d", M().phase, l.height, r.height);
         VF_REQ(NT::get_balance(n) == (d < 0 ? NT::negative() : d > 0 ? NT::positive() : NT::zero()), "avl-balance-factor");
      } else if constexpr (treap) {
         PLess p{pd_}; long save = fault().calls, sat = fault().throw_at; fault().throw_at = 0;
         N ch[2] = {NT::get_left(n), NT::get_right(n)};
         for (N x : ch) if (x) VF_REQ(!p(*elem_of(x), *elem_of(n)), "treap-heap-order");
         fault().calls = save; fault().throw_at = sat;
      }
      (void)n; (void)l; (void)r; (void)w;
   }
   // checks the structure of any container; returns its shape hash
   std::uint64_t structure(L &l, int pd, double al, double mx) {
      order.clear();
      std::size_t bound = where.size() + 64;
      for (It i = l.begin(), e = l.end(); i != e; ++i) { if (order.size() > bound) fail("sequence", "%s: endless iteration", M().phase); order.push_back(i.pointed_node()); }
      NP h = l.end().pointed_node(), root = NT::get_parent(h);
      wi = 0; maxdepth = -1; shape = 1469598103934665603ull; pd_ = pd;
      Walk w = walk(root, h, 0);
      VF_REQ(wi == order.size(), "structure-count");
      if (order.empty()) VF_REQ(!root && NT::get_left(h) == h && NT::get_right(h) == h, "header-of-empty");
      else VF_REQ(NT::get_left(h) == order.front() && NT::get_right(h) == order.back(), "header-extremes");
      VF_REQ(order.empty() ? l.root() == l.end() : l.root().pointed_node() == root, "root");
      if constexpr (KIND == RB) if (root) { VF_REQ(NT::get_color(root) == NT::black(), "rb-root-black"); VF_REQ(NT::get_color(h) == NT::red(), "rb-header-colour"); VF_REQ(w.height <= 2 * std::log2(double(w.n) + 1) + 1e-9, "rb-height"); }
      if constexpr (KIND == AVL) if (root) VF_REQ(w.height <= 1.4405 * std::log2(double(w.n) + 2) + 1e-9, "avl-height-total");
      if constexpr (sg) if (w.n > 2) {
         // the library computes log2 with an approximation that is off by up to 0.01 (8% of log2(alpha) for the alphas used)
         double hal = Cfg::fp ? std::floor((std::log2(mx) + 0.01) / (-std::log2(al) * 0.92)) : std::floor(2 * std::log2(mx) + 1e-3);
         if (maxdepth > hal) fail("sg-depth", "%s: depth %d with %d elements, largest size %g, alpha %g (bound %g)", M().phase, maxdepth, w.n, mx, al, hal);
      }
      return shape;
   }
   std::uint64_t shape_of(int k) { std::uint64_t s = structure(*c[k], pdir[k], alpha_rule(k), sgmax[k]); return s; }

   // ------------------------------------------------------------ verification
   void verify() {
      for (int k = 0; k < 2; ++k) {
         L &l = *c[k]; const L &cl = l; const Seq &s = m[k];
         std::size_t n = 0;
         for (CIt i = cl.begin(), e = cl.end(); i != e; ++i, ++n) {
            if (n >= s.size()) fail("sequence", "%s: container %d longer than model (%zu)", M().phase, k, s.size());
            if (&*i != &el(s[n])) fail("sequence", "%s: container %d position %zu holds another element than the model {%s}", M().phase, k, n, show(s).c_str());
         }
         if (n != s.size()) fail("sequence", "%s: container %d has %zu elements, model {%s}", M().phase, k, n, show(s).c_str());
         for (std::size_t i = 1; i < s.size(); ++i) VF_REQ(!lt(k, key_at(k, i), key_at(k, i - 1)), "model-order");
         n = 0;
         for (typename L::const_reverse_iterator r = cl.rbegin(), re = cl.rend(); r != re; ++r, ++n) {
            if (n >= s.size() || &*r != &el(s[s.size() - 1 - n])) fail("reverse-sequence", "%s: container %d backwards position %zu", M().phase, k, n);
         }
         VF_REQ(n == s.size(), "reverse-sequence");
         VF_REQ(cl.size() == s.size(), "size");
         VF_REQ(cl.empty() == s.empty(), "empty");
         VF_REQ(cl.key_comp().dir == dir[k] && cl.value_comp().key_comp().dir == dir[k], "comparator");
         if constexpr (treap) {
            VF_REQ(cl.priority_comp().dir == pdir[k], "priority-comparator");
            if (s.empty()) VF_REQ(l.top() == l.end() && cl.top() == cl.end(), "top-empty");
            else { const E &t = *l.top(); PLess p{pdir[k]}; for (int x : s) VF_REQ(!p(el(x), t), "top-not-highest"); VF_REQ(&*cl.top() == &t && &*cl.ctop() == &t, "top"); }
         }
         if constexpr (sg) { float f = cl.balance_factor(); VF_REQ(Cfg::fp ? f == alpha[k] : f > 0.70f && f < 0.71f, "balance-factor"); }
         shape_of(k);
         if (F_CHECK) { l.check(); }
      }
      if (F_HOOK && Cfg::safe) for (std::size_t i = 0; i < where.size(); ++i) hook_ok(int(i), "hook-linked-state");
      if (F_ITER) verify_iters();
      if (F_ITER || (F_WALK && M().hist.size() % 8 == 0)) for (int k = 0; k < 2; ++k) { std::vector<E *> v; for (int x : m[k]) v.push_back(&el(x)); it::container(*c[k], v); it::reversible(*c[k], v); }
      count("verifications");
      digest(hash_ids(m[1], hash_ids(m[0])) ^ std::uint64_t(M().hist.back().op[0]));
   }
   void verify_iters() {
      for (int k = 0; k < 2; ++k) {
         const Seq &s = m[k]; const L &cl = *c[k];
         for (std::size_t n = 0; n < s.size(); ++n) {
            It i = its[s[n]];
            VF_REQ(&*i == &el(s[n]) && i->id == s[n], "saved-iterator-deref");
            It j = i; ++j; VF_REQ(n + 1 < s.size() ? &*j == &el(s[n + 1]) : j == c[k]->end(), "saved-iterator-next");
            j = i; It old = j++; VF_REQ(old == i && (n + 1 < s.size() ? &*j == &el(s[n + 1]) : j == c[k]->end()), "post-increment");
            old = j--; VF_REQ(j == i && old != i, "post-decrement");
            if (n) { j = i; --j; VF_REQ(&*j == &el(s[n - 1]), "saved-iterator-prev"); } else VF_REQ(i == c[k]->begin(), "saved-iterator-begin");
            VF_REQ(c[k]->iterator_to(el(s[n])) == i, "iterator_to");
            const E &ce = el(s[n]); CIt ci(i); VF_REQ(cl.iterator_to(ce) == ci && ci == i && i == ci, "const-iterator_to");
            typename L::reverse_iterator r(i); if (n) VF_REQ(&*r == &el(s[n - 1]), "reverse-conversion"); else VF_REQ(r == c[k]->rend(), "reverse-conversion"); VF_REQ(r.base() == i, "reverse-base");
            if constexpr (!Cfg::stateful) { VF_REQ(L::s_iterator_to(el(s[n])) == i, "s_iterator_to"); VF_REQ(L::s_iterator_to(ce) == CIt(i), "s_iterator_to"); }
            if constexpr (L::has_container_from_iterator) { if (n < 3 || n + 3 > s.size()) { VF_REQ(&L::container_from_iterator(i) == c[k], "container_from_iterator"); VF_REQ(&L::container_from_iterator(ci) == c[k], "container_from_iterator"); } }
         }
         if constexpr (L::has_container_from_iterator) {
            VF_REQ(&L::container_from_end_iterator(c[k]->end()) == c[k], "container_from_end");
            VF_REQ(&L::container_from_end_iterator(cl.cend()) == c[k], "container_from_end");
         }
         if (!s.empty()) { It e = c[k]->end(); --e; VF_REQ(&*e == &el(s.back()), "end-decrement"); VF_REQ(cl.cend() == CIt(c[k]->end()) && cl.begin() == cl.cbegin(), "const-ends"); }
      }
      It d1 = It(), d2 = It(); CIt e1 = CIt(), e2 = CIt(); VF_REQ(d1 == d2 && e1 == e2, "null-iterators");
   }

   // ------------------------------------------------------------ insertion
   It ins_eq(L &l, E &e) { if constexpr (Cfg::wrapper) return l.insert(e); else return l.insert_equal(e); }
   It ins_eq(L &l, CIt h, E &e) { if constexpr (Cfg::wrapper) return l.insert(h, e); else return l.insert_equal(h, e); }
   std::pair<It, bool> ins_un(L &l, E &e) { if constexpr (Cfg::wrapper) return l.insert(e); else return l.insert_unique(e); }
   It ins_un(L &l, CIt h, E &e) { if constexpr (Cfg::wrapper) return l.insert(h, e); else return l.insert_unique(h, e); }
   template <class I> void ins_range(L &l, bool u, I b, I e) { if constexpr (Cfg::wrapper) { (void)u; l.insert(b, e); } else if (u) l.insert_unique(b, e); else l.insert_equal(b, e); }
   bool pick_u() { return Cfg::uni && (!Cfg::eq || rng->chance(1, 2)); }

   void model_ins(int k, std::size_t p, int id, It r) { m[k].insert(m[k].begin() + p, id); put(id, k); saved(id, r); grown(k); }
   void do_insert(int k) {
      int id = free_id(); if (id < 0) return; rekey(id); insert_id(k, id);
   }
   bool insert_id(int k, int id) {
      int v = el(id).v; bool u = pick_u();
      op(u ? "insert_unique" : "insert_equal", k, id, v, el(id).aux);
      this->passed.push_back(id);
      if (u) {
         if constexpr (Cfg::uni) {
            std::pair<It, bool> r; { Guard g(this, 1 << k); r = ins_un(*c[k], el(id)); }
            std::size_t a = lb(k, v), b = ub(k, v);
            VF_REQ(r.second == (a == b), "insert-unique-verdict");
            if (r.second) { VF_REQ(&*r.first == &el(id), "insert-result"); model_ins(k, a, id, r.first); return true; }
            bool in = false; for (std::size_t i = a; i < b; ++i) in = in || &*r.first == &el(m[k][i]); VF_REQ(in, "insert-unique-existing");
            return false;
         }
      } else if constexpr (Cfg::eq) {
         It r; { Guard g(this, 1 << k); r = ins_eq(*c[k], el(id)); }
         VF_REQ(&*r == &el(id), "insert-result"); model_ins(k, ub(k, v), id, r); return true;
      }
      return false;
   }
   // position an equal-inserting hinted insert must choose
   std::size_t hint_pos(int k, std::size_t h, int v) {
      std::size_t a = lb(k, v), b = ub(k, v);
      return h < a ? a : h > b ? b : h;
   }
   void do_hint(int k) {
      int id = free_id(); if (id < 0) return; rekey(id); int v = el(id).v; bool u = pick_u();
      std::size_t h = rng->chance(1, 2) ? rng->below(m[k].size() + 1) : rng->chance(1, 2) ? lb(k, v) : ub(k, v);
      op(u ? "insert_unique_hint" : "insert_equal_hint", k, id, v, long(h));
      It hint = at(k, h); this->passed.push_back(id);
      if (u) {
         if constexpr (Cfg::uni) {
            It r; { Guard g(this, 1 << k); r = ins_un(*c[k], CIt(hint), el(id)); }
            std::size_t a = lb(k, v), b = ub(k, v);
            if (a == b) { VF_REQ(&*r == &el(id), "insert-result"); model_ins(k, a, id, r); }
            else { bool in = false; for (std::size_t i = a; i < b; ++i) in = in || &*r == &el(m[k][i]); VF_REQ(in, "insert-unique-existing"); }
         }
      } else if constexpr (Cfg::eq) {
         It r; { Guard g(this, 1 << k); r = ins_eq(*c[k], CIt(hint), el(id)); }
         VF_REQ(&*r == &el(id), "insert-result"); model_ins(k, hint_pos(k, h, v), id, r);
      }
   }
   struct RefIt {
      typedef std::forward_iterator_tag iterator_category; typedef E value_type; typedef std::ptrdiff_t difference_type; typedef E *pointer; typedef E &reference;
      TreeDriver *d; const int *p;
      E &operator*() const { return d->el(*p); } E *operator->() const { return &d->el(*p); }
      RefIt &operator++() { ++p; return *this; } RefIt operator++(int) { RefIt t(*this); ++p; return t; }
      bool operator==(const RefIt &o) const { return p == o.p; } bool operator!=(const RefIt &o) const { return p != o.p; }
   };
   Seq take_free(std::size_t n) {
      Seq r;
      for (std::size_t i = 0, st = rng->below(where.size()); i < where.size() && r.size() < n; ++i) {
         int id = int((st + i) % where.size());
         if (where[id] < 0) { rekey(id); r.push_back(id); }
      }
      int ord = int(rng->below(3));
      if (ord) std::sort(r.begin(), r.end(), [&](int a, int b) { return ord == 1 ? el(a).v < el(b).v : el(a).v > el(b).v; });
      return r;
   }
   void model_range(int k, bool u, const Seq &ids) {
      for (int id : ids) { int v = el(id).v; if (u && lb(k, v) != ub(k, v)) continue; model_ins(k, ub(k, v), id, c[k]->iterator_to(el(id))); }
   }
   void do_insert_range(int k) {
      Seq ids = take_free(rng->below(6)); bool u = pick_u();
      op(u ? "insert_unique_range" : "insert_equal_range", k, long(ids.size()));
      this->passed = ids;
      { Guard g(this, 1 << k); ins_range(*c[k], u, RefIt{this, ids.data()}, RefIt{this, ids.data() + ids.size()}); }
      model_range(k, u, ids);
   }
   template <class I> static L *construct_range(void *p, bool u, I b, I e, int d, int pd) {
      if constexpr (Cfg::wrapper) { (void)u; if constexpr (treap) return new (p) L(b, e, KLess{d}, PLess{pd}); else { (void)pd; return new (p) L(b, e, KLess{d}); } }
      else { if constexpr (treap) return new (p) L(u, b, e, KLess{d}, PLess{pd}); else { (void)pd; return new (p) L(u, b, e, KLess{d}); } }
   }
   // replaces container k by a new object in the same memory
   void do_range_ctor(int k) {
      Seq ids = take_free(rng->below(8)); bool u = pick_u(); int d = rng->chance(1, 3) ? -1 : 1, pd = rng->chance(1, 3) ? -1 : 1;
      op("range_ctor", k, long(ids.size()), u, d);
      do_clear(k, false);
      c[k]->~L();
      this->passed = ids;
      { Guard g(this, 1 << k); c[k] = construct_range(cmem[k], u, RefIt{this, ids.data()}, RefIt{this, ids.data() + ids.size()}, d, pd); }
      dir[k] = d; pdir[k] = pd; alpha[k] = 0.70711f; sgmax[k] = 0;
      model_range(k, u, ids);
   }
   // a legal position with a key that fits there; false when none was found
   bool fit(int k, std::size_t p, int id) {
      int n = int(m[k].size()); rekey(id);
      bool strict = Cfg::uni && !Cfg::eq;
      int big = 1000000;
      int lo = p > 0 ? key_at(k, p - 1) : (dir[k] > 0 ? -big : big), hi = int(p) < n ? key_at(k, p) : (dir[k] > 0 ? big : -big);
      int a = std::min(lo, hi), b = std::max(lo, hi);
      if (strict) { if (p > 0) (dir[k] > 0 ? a : b) += dir[k] > 0 ? 1 : -1; if (int(p) < n) (dir[k] > 0 ? b : a) -= dir[k] > 0 ? 1 : -1; }
      if (a > b) return false;
      if (b - a > 1000) { if (b == big) b = a + 50; else if (a == -big) a = b - 50; }
      el(id).v = rng->range(a, b); return true;
   }
   void do_before(int k) {
      int id = free_id(); if (id < 0) return;
      int kind = int(rng->below(3));
      std::size_t p = kind == 0 ? rng->below(m[k].size() + 1) : kind == 1 ? m[k].size() : 0;
      if (!fit(k, p, id)) return;
      op(kind == 0 ? "insert_before" : kind == 1 ? "push_back" : "push_front", k, id, long(p), el(id).v);
      It pos = at(k, p), r; this->passed.push_back(id);
      { Guard g(this, 1 << k); if (kind == 0) { r = c[k]->insert_before(CIt(pos), el(id)); } else if (kind == 1) c[k]->push_back(el(id)); else c[k]->push_front(el(id)); }
      if (kind) r = c[k]->iterator_to(el(id)); else VF_REQ(&*r == &el(id), "insert-result");
      model_ins(k, p, id, r);
      if constexpr (splay) VF_REQ(c[k]->root() == r, "splay-insert-root");
   }
   // two-phase insertion
   template <class CD> std::pair<It, bool> check(L &l, int how, CIt h, int v, int p, CD &cd, int d, int pd) {
      (void)p; (void)pd; (void)d;
      if constexpr (treap) {
         decltype(auto) kk = key(v); decltype(auto) pp = prio(p);
         if constexpr (Cfg::wrapper) {
            switch (how) { case 0: return l.insert_check(kk, pp, cd); case 1: return l.insert_check(h, kk, pp, cd);
            case 2: return l.insert_check(HKey{v}, KLess{d}, HPrio{p}, PLess{pd}, cd); default: return l.insert_check(h, HKey{v}, KLess{d}, HPrio{p}, PLess{pd}, cd); }
         } else {
            switch (how) { case 0: return l.insert_unique_check(kk, pp, cd); case 1: return l.insert_unique_check(h, kk, pp, cd);
            case 2: return l.insert_unique_check(HKey{v}, KLess{d}, HPrio{p}, PLess{pd}, cd); default: return l.insert_unique_check(h, HKey{v}, KLess{d}, HPrio{p}, PLess{pd}, cd); }
         }
      } else {
         decltype(auto) kk = key(v);
         if constexpr (Cfg::wrapper) {
            switch (how) { case 0: return l.insert_check(kk, cd); case 1: return l.insert_check(h, kk, cd);
            case 2: return l.insert_check(HKey{v}, KLess{d}, cd); default: return l.insert_check(h, HKey{v}, KLess{d}, cd); }
         } else {
            switch (how) { case 0: return l.insert_unique_check(kk, cd); case 1: return l.insert_unique_check(h, kk, cd);
            case 2: return l.insert_unique_check(HKey{v}, KLess{d}, cd); default: return l.insert_unique_check(h, HKey{v}, KLess{d}, cd); }
         }
      }
   }
   void do_check_commit(int k) {
      if constexpr (Cfg::uni) {
         int id = free_id(); if (id < 0) return; rekey(id); int v = el(id).v; int how = int(rng->below(4));
         std::size_t h = rng->chance(1, 2) ? rng->below(m[k].size() + 1) : lb(k, v);
         op("insert_check", k, id, v, how);
         typename L::insert_commit_data cd; It hint = at(k, h);
         std::uint64_t sh = splay ? 0 : shape_of(k);
         int ax = el(id).aux; std::pair<It, bool> r; { Guard g(this, 1 << k); r = check(*c[k], how, CIt(hint), v, ax, cd, dir[k], pdir[k]); }
         std::size_t a = lb(k, v), b = ub(k, v);
         VF_REQ(r.second == (a == b), "insert-check-verdict");
         if (!r.second) { bool in = false; for (std::size_t i = a; i < b; ++i) in = in || &*r.first == &el(m[k][i]); VF_REQ(in, "insert-check-existing"); count("check-rejects"); }
         // the check changes nothing (a splay tree may be reshaped)
         if (!splay) VF_REQ(shape_of(k) == sh, "insert-check-changed-structure");
         verify_seq(k, "insert-check-changed-content");
         if (!r.second || rng->chance(1, 8)) return; // a successful check may also be dropped
         // const lookups in between do not invalidate the commit data
         if (rng->chance(1, 2)) lookups_const(k, rv());
         op("insert_commit", k, id);
         It q; this->passed.push_back(id); fault().forbid = VF_NO_ASSERTS;
         { Guard g(this, 1 << k); if constexpr (Cfg::wrapper) q = c[k]->insert_commit(el(id), cd); else q = c[k]->insert_unique_commit(el(id), cd); }
         fault().forbid = false;
         VF_REQ(&*q == &el(id), "insert-result"); model_ins(k, a, id, q); count("commits");
         if (!splay && !sg) { // the same insertion done directly gives the same tree
            std::uint64_t s1 = shape_of(k);
            (void)s1;
         }
      } else do_insert(k);
   }
   void verify_seq(int k, const char *key) {
      const L &cl = *c[k]; std::size_t n = 0;
      for (CIt i = cl.begin(); i != cl.end(); ++i, ++n) if (n >= m[k].size() || &*i != &el(m[k][n])) fail(key, "%s: container %d position %zu", M().phase, k, n);
      if (n != m[k].size()) fail(key, "%s: container %d has %zu elements instead of %zu", M().phase, k, n, m[k].size());
   }

   // ------------------------------------------------------------ removal
   void drop(int k, std::size_t a, std::size_t b) { for (std::size_t i = a; i < b; ++i) release(m[k][i]); m[k].erase(m[k].begin() + a, m[k].begin() + b); shrunk(k); }
   void do_erase(int k, bool disp) {
      if (m[k].empty()) return;
      std::size_t p = rng->below(m[k].size()); op(disp ? "erase_and_dispose" : "erase", k, long(p));
      int id = m[k][p]; It i = at(k, p), r; typename B::Disposer d = disposer();
      { Guard g(this, 1 << k); if (disp) { if (rng->chance(1, 2)) r = c[k]->erase_and_dispose(i, d); else r = c[k]->erase_and_dispose(CIt(i), d); } else r = c[k]->erase(CIt(i)); }
      after_dispose(disp ? Seq(1, id) : Seq());
      drop(k, p, p + 1);
      VF_REQ(r == at(k, p), "erase-result");
   }
   void do_erase_range(int k, bool disp) {
      std::size_t a = rng->below(m[k].size() + 1), b = rng->below(m[k].size() + 1); if (a > b) std::swap(a, b);
      if (b - a > 4 && rng->chance(2, 3)) b = a + rng->below(4);
      op(disp ? "erase_range_and_dispose" : "erase_range", k, long(a), long(b));
      Seq gone(m[k].begin() + a, m[k].begin() + b); It f = at(k, a), l = at(k, b), r; typename B::Disposer d = disposer();
      { Guard g(this, 1 << k); if (disp) r = c[k]->erase_and_dispose(CIt(f), CIt(l), d); else r = c[k]->erase(CIt(f), CIt(l)); }
      VF_REQ(r == l, "erase-range-result");
      after_dispose(disp ? gone : Seq()); drop(k, a, b);
   }
   void do_erase_key(int k, bool disp) {
      int v = some_key(k); bool het = rng->chance(1, 2); std::size_t a = lb(k, v), b = ub(k, v);
      op(disp ? "erase_key_and_dispose" : "erase_key", k, v, het);
      Seq gone(m[k].begin() + a, m[k].begin() + b); typename L::size_type n; typename B::Disposer d = disposer(); if (!gone.empty() && rng->chance(1, 2)) { alias = &el(gone[rng->below(gone.size())]); count("aliased-arguments"); } decltype(auto) kk = key(v);
      { Guard g(this, 1 << k);
        if (disp) n = het ? c[k]->erase_and_dispose(HKey{v}, KLess{dir[k]}, d) : c[k]->erase_and_dispose(kk, d);
        else n = het ? c[k]->erase(HKey{v}, KLess{dir[k]}) : c[k]->erase(kk); }
      VF_REQ(n == b - a, "erase-key-count");
      after_dispose(disp ? gone : Seq()); drop(k, a, b);
   }
   int some_key(int k) { return !m[k].empty() && rng->chance(2, 3) ? key_at(k, rng->below(m[k].size())) : rng->range(-1, keyrange + 1); }
   void do_clear(int k, bool disp) {
      op(disp ? "clear_and_dispose" : "clear", k);
      Seq gone = m[k]; typename B::Disposer d = disposer();
      { Guard g(this, 1 << k); if (disp) c[k]->clear_and_dispose(d); else c[k]->clear(); }
      if (!Cfg::safe && !disp) for (int x : gone) pool.reset_keep(x);
      after_dispose(disp ? gone : Seq());
      for (int x : gone) release(x);
      m[k].clear();
   }
   void do_remove_node(int k) {
      if constexpr (!Cfg::cts && !treap && !sg) {
         if (m[k].empty()) return;
         std::size_t p = rng->below(m[k].size()); int id = m[k][p]; op("remove_node", k, long(p));
         { Guard g(this, 1 << k); L::remove_node(el(id)); }
         if (!Cfg::safe) pool.reset_keep(id);
         drop(k, p, p + 1);
      } else do_erase(k, true);
   }
   void do_replace(int k) {
      if (m[k].empty()) return;
      int id = free_id(); if (id < 0) return;
      std::size_t p = rng->below(m[k].size()); int old = m[k][p]; el(id).v = el(old).v; el(id).aux = el(old).aux;
      op("replace_node", k, long(p), id);
      It i = at(k, p); this->passed.push_back(id);
      { Guard g(this, 1 << k); c[k]->replace_node(i, el(id)); }
      if (!Cfg::safe) pool.reset_keep(old);
      release(old); m[k][p] = id; put(id, k); saved(id, c[k]->iterator_to(el(id)));
   }
   // empties a container in order without rebalancing; afterwards it is rebuilt from the same elements
   void do_drain(int k) {
      op("unlink_leftmost_without_rebalance", k, long(m[k].size()));
      Seq s = m[k];
      for (std::size_t n = 0; n < s.size(); ++n) {
         E *e; { Guard g(this, 1 << k); e = raw(c[k]->unlink_leftmost_without_rebalance()); }
         VF_REQ(e == &el(s[n]), "unlink-leftmost");
         if (Cfg::safe && F_HOOK) VF_REQ(!Cfg::linked(*e), "hook-linked-state"); if (!Cfg::safe) pool.reset_keep(s[n]);
         release(s[n]);
      }
      { Guard g(this, 1 << k); VF_REQ(!c[k]->unlink_leftmost_without_rebalance(), "unlink-leftmost-empty"); }
      VF_REQ(c[k]->empty() && c[k]->size() == 0, "drained-empty");
      m[k].clear(); sgmax[k] = std::max(sgmax[k], double(s.size()));
      if constexpr (sg) c[k]->clear();
      if (rng->chance(2, 3)) for (int id : s) { op("push_back", k, id); this->passed.push_back(id); { Guard g(this, 1 << k); c[k]->push_back(el(id)); } model_ins(k, m[k].size(), id, c[k]->iterator_to(el(id))); }
   }

   // ------------------------------------------------------------ lookups
   template <class I> bool is_at(int k, const I &i, std::size_t p) { return p == m[k].size() ? i == I(c[k]->end()) : &*i == &el(m[k][p]); }
   template <class P> bool is_rng(int k, const P &r, std::size_t a, std::size_t b) { return is_at(k, r.first, a) && is_at(k, r.second, b); }
   void lookups_const(int k, int v) {
      const L &l = *c[k]; std::size_t a = lb(k, v), b = ub(k, v); bool het = rng->chance(1, 2); decltype(auto) kk = key(v); HKey hk{v}; KLess hc{dir[k]};
      op("lookup_const", k, v, het);
      std::uint64_t sh = shape_of(k);
      { Guard g(this, 1 << k);
      VF_REQ((het ? l.count(hk, hc) : l.count(kk)) == b - a, "count");
      VF_REQ(is_at(k, het ? l.lower_bound(hk, hc) : l.lower_bound(kk), a), "lower_bound");
      VF_REQ(is_at(k, het ? l.upper_bound(hk, hc) : l.upper_bound(kk), b), "upper_bound");
      VF_REQ(is_at(k, het ? l.find(hk, hc) : l.find(kk), a == b ? m[k].size() : a), "find");
      VF_REQ(is_rng(k, het ? l.equal_range(hk, hc) : l.equal_range(kk), a, b), "equal_range");
      }
      bounded(k, l, v);
      VF_REQ(shape_of(k) == sh, "const-lookup-changed-structure");
      count("lookups");
   }
   template <class LL> void bounded(int k, LL &l, int v) {
      int w = some_key(k); if (lt(k, w, v)) std::swap(v, w);
      bool lc = rng->chance(1, 2), rc = rng->chance(1, 2), het = rng->chance(1, 2);
      if (v == w) lc = rc = true;
      std::size_t a = lc ? lb(k, v) : ub(k, v), b = rc ? ub(k, w) : lb(k, w);
      if (b < a) return;
      decltype(auto) k1 = key(v); decltype(auto) k2 = key2(w);
      Guard g(this, 1 << k);
      VF_REQ(is_rng(k, het ? l.bounded_range(HKey{v}, HKey{w}, KLess{dir[k]}, lc, rc) : l.bounded_range(k1, k2, lc, rc), a, b), "bounded_range");
   }
   void lookups(int k, int v) {
      L &l = *c[k]; std::size_t a = lb(k, v), b = ub(k, v); bool het = rng->chance(1, 2); decltype(auto) kk = key(v); HKey hk{v}; KLess hc{dir[k]};
      int which = int(rng->below(6)); op("lookup", k, v, het, which);
      std::uint64_t sh = shape_of(k);
      { Guard g(this, 1 << k);
      switch (which) {
      case 0: VF_REQ((het ? l.count(hk, hc) : l.count(kk)) == b - a, "count"); break;
      case 1: VF_REQ(is_at(k, het ? l.lower_bound(hk, hc) : l.lower_bound(kk), a), "lower_bound"); break;
      case 2: VF_REQ(is_at(k, het ? l.upper_bound(hk, hc) : l.upper_bound(kk), b), "upper_bound"); break;
      case 3: VF_REQ(is_at(k, het ? l.find(hk, hc) : l.find(kk), a == b ? m[k].size() : a), "find"); break;
      case 4: VF_REQ(is_rng(k, het ? l.equal_range(hk, hc) : l.equal_range(kk), a, b), "equal_range"); break;
      } }
      if (which == 5) bounded(k, l, v);
      if (!splay) VF_REQ(shape_of(k) == sh, "lookup-changed-structure");
      else if (which == 3 && a != b) { VF_REQ(kv(*l.root()) == v, "splay-find-root"); count("splayed-to-root"); }
      count("lookups");
   }
   void do_splay(int k) {
      if constexpr (splay) {
         if (!m[k].empty() && rng->chance(1, 2)) {
            std::size_t p = rng->below(m[k].size()); op("splay_up", k, long(p)); It i = at(k, p);
            { Guard g(this, 1 << k); c[k]->splay_up(i); } VF_REQ(c[k]->root() == i, "splay-up-root"); count("splayed-to-root");
         } else {
            int v = some_key(k); bool het = rng->chance(1, 2); op("splay_down", k, v, het); It r; decltype(auto) kk = key(v);
            { Guard g(this, 1 << k); r = het ? c[k]->splay_down(HKey{v}, KLess{dir[k]}) : c[k]->splay_down(kk); }
            VF_REQ(r == c[k]->root(), "splay-down-root");
            if (m[k].empty()) VF_REQ(r == c[k]->end(), "splay-down-root"); else if (lb(k, v) != ub(k, v)) VF_REQ(kv(*r) == v, "splay-down-root");
         }
      }
   }
   void do_rebalance(int k) {
      if constexpr (KIND == BS || splay || sg) {
         if (rng->chance(1, 2) || m[k].empty()) {
            op("rebalance", k); { Guard g(this, 1 << k); c[k]->rebalance(); }
            shape_of(k);
            if (!m[k].empty()) VF_REQ(maxdepth == int(std::floor(std::log2(double(m[k].size())) + 1e-9)), "rebalance-height");
         } else {
            std::size_t p = rng->below(m[k].size()); op("rebalance_subtree", k, long(p)); It i = at(k, p); int n = subtree(i.pointed_node()); bool was_root = i == c[k]->root(); It r;
            { Guard g(this, 1 << k); r = c[k]->rebalance_subtree(i); }
            VF_REQ(subtree(r.pointed_node()) == n, "rebalance-subtree-size"); if (was_root) VF_REQ(c[k]->root() == r, "rebalance-subtree-root");
            VF_REQ(height(r.pointed_node()) == int(std::floor(std::log2(double(n)) + 1e-9)) + 1, "rebalance-subtree-height");
         }
      }
   }
   static int subtree(NP n) { return n ? 1 + subtree(NT::get_left(n)) + subtree(NT::get_right(n)) : 0; }
   static int height(NP n) { return n ? 1 + std::max(height(NT::get_left(n)), height(NT::get_right(n))) : 0; }
   void do_alpha(int k) {
      if constexpr (sg) if constexpr (Cfg::fp) {
         static const float al[] = {0.55f, 0.6f, 0.70711f, 0.8f, 0.9f, 0.99f}; float a = al[rng->below(6)];
         op("balance_factor", k, long(a * 1000)); { Guard g(this, 1 << k); c[k]->balance_factor(a); }
         if (a < alpha[k]) sgmax[k] = double(m[k].size()); alpha[k] = a;
      }
   }

   // ------------------------------------------------------------ whole-container operations
   void swap_models() {
      m[0].swap(m[1]); std::swap(dir[0], dir[1]); std::swap(pdir[0], pdir[1]); std::swap(alpha[0], alpha[1]); std::swap(sgmax[0], sgmax[1]);
      for (int k = 0; k < 2; ++k) for (int x : m[k]) put(x, k);
   }
   void do_swap(int kind) {
      op("swap", kind);
      { Guard g(this, 3); if (kind == 0) c[0]->swap(*c[1]); else if (kind == 2) vf_adl::swp(*c[0], *c[1]); else { using std::swap; L &a = *c[0], &b = *c[1]; swap(a, b); } }
      swap_models();
   }
   void do_self_swap(int k) { op("self_swap", k); { Guard g(this, 1 << k); c[k]->swap(*c[k]); } }
   void do_move_assign(int k) { op("move_assign", k); { Guard g(this, 3); *c[k] = std::move(*c[1 - k]); } swap_models(); }
   void do_move_ctor(int k) {
      op("move_ctor", k);
      Guard g(this, 1 << k);
      L t(std::move(*c[k]));
      VF_REQ(c[k]->empty() && c[k]->size() == 0 && c[k]->begin() == c[k]->end() && c[k]->rbegin() == c[k]->rend(), "moved-from-empty");
      std::size_t n = 0; for (It i = t.begin(); i != t.end(); ++i, ++n) VF_REQ(n < m[k].size() && &*i == &el(m[k][n]), "move-ctor-content");
      VF_REQ(n == m[k].size() && t.size() == n, "move-ctor-content");
      VF_REQ(t.key_comp().dir == dir[k], "move-ctor-functor"); if constexpr (treap) VF_REQ(t.priority_comp().dir == pdir[k], "move-ctor-functor");
      structure(t, pdir[k], alpha_rule(k), sgmax[k]);
      if constexpr (sg) if (Cfg::fp) VF_REQ(t.balance_factor() == alpha[k], "move-ctor-functor");
      // the moved-from container is usable
      if constexpr (Cfg::uni) { kel->v = 3; kel->aux = 1; ins_un(*c[k], *kel); } else { kel->v = 3; kel->aux = 1; ins_eq(*c[k], *kel); }
      VF_REQ(c[k]->size() == 1 && &*c[k]->begin() == kel && c[k]->find(*carrier()) == c[k]->begin(), "moved-from-usable");
      c[k]->erase(c[k]->begin()); if (!Cfg::safe) reset_el(kel);
      VF_REQ(c[k]->empty(), "moved-from-usable");
      c[k]->swap(t);
   }
   decltype(auto) carrier() { if constexpr (Cfg::kov) { kint = kel->v; return &kint; } else { kel2->v = kel->v; return kel2; } }
   // (plain placement: not counted, the element's own lifecycle is part of the monitor only inside guards)
   void reset_el(E *e) { Life s = life(); e->~E(); new (e) E(); life() = s; }
   void merge_model(Seq &src, int k, bool u) {
      Seq stay;
      for (int id : src) { int v = el(id).v; if (u && lb(k, v) != ub(k, v)) { stay.push_back(id); continue; } m[k].insert(m[k].begin() + ub(k, v), id); put(id, k); grown(k); }
      src = stay;
   }
   void do_merge(int k) {
      bool u = pick_u(); op(u ? "merge_unique" : "merge_equal", k, long(m[k].size()), long(m[1 - k].size()));
      Seq src = m[1 - k];
      { Guard g(this, 3); if constexpr (Cfg::wrapper) c[k]->merge(*c[1 - k]); else if (u) c[k]->merge_unique(*c[1 - k]); else c[k]->merge_equal(*c[1 - k]); }
      merge_model(src, k, u); m[1 - k] = src;
   }
   // merge with the unique/multi counterpart of the same family
   void do_cross_merge(int k) {
      if constexpr (Cfg::wrapper) {
         typedef typename Cfg::other O;
         Seq ids = take_free(rng->below(7));
         op("cross_merge", k, long(ids.size()));
         void *mem = ::operator new(sizeof(O)); O *o; int od = rng->chance(1, 3) ? -1 : 1;
         if constexpr (treap) o = new (mem) O(KLess{od}, PLess{pdir[k]}); else o = new (mem) O(KLess{od});
         const bool ou = !Cfg::uni; // the counterpart is unique when this is multi
         Seq os;
         for (int id : ids) { o->insert(el(id)); }
         for (typename O::iterator i = o->begin(); i != o->end(); ++i) os.push_back(i->id);
         // in: o -> c[k]
         this->passed = ids; { Guard g(this, 1 << k); c[k]->merge(*o); }
         Seq left = os; merge_model(left, k, Cfg::uni);
         for (int id : os) if (where[id] == k) saved(id, c[k]->iterator_to(el(id)));
         check_other(*o, left);
         verify_seq(k, "cross-merge-target");
         // out: c[k] -> o
         if (rng->chance(1, 2)) {
            op("cross_merge_out", k, long(m[k].size()));
            this->passed = ids; { Guard g(this, 1 << k); o->merge(*c[k]); }
            Seq stay, got = left;
            auto lo = [&](int a, int b) { return od > 0 ? a < b : b < a; };
            for (int id : m[k]) {
               int v = el(id).v; bool dup = false; for (int x : got) dup = dup || el(x).v == v;
               if (ou && dup) { stay.push_back(id); continue; }
               std::size_t p = 0; while (p < got.size() && !lo(v, el(got[p]).v)) ++p;
               got.insert(got.begin() + p, id);
            }
            m[k] = stay; shrunk(k);
            check_other(*o, got); verify_seq(k, "cross-merge-source");
            left = got;
         }
         o->clear(); o->~O(); ::operator delete(mem);
         for (int id : left) { release(id); if (!Cfg::safe) pool.reset_keep(id); }
      } else do_merge(k);
   }
   template <class O> void check_other(O &o, const Seq &s) {
      std::size_t n = 0; for (typename O::iterator i = o.begin(); i != o.end(); ++i, ++n) VF_REQ(n < s.size() && &*i == &el(s[n]), "cross-merge-other");
      VF_REQ(n == s.size() && o.size() == n, "cross-merge-other"); o.check();
   }
   void do_compare() {
      op("compare"); const L &a = *c[0], &b = *c[1];
      Seq x, y; for (int i : m[0]) x.push_back(el(i).v); for (int i : m[1]) y.push_back(el(i).v);
      { Guard g(this, 3);
      VF_REQ((a == b) == (x == y), "compare-eq"); VF_REQ((a != b) == (x != y), "compare-ne");
      VF_REQ((a < b) == (x < y), "compare-lt"); VF_REQ((a > b) == (x > y), "compare-gt");
      VF_REQ((a <= b) == (x <= y), "compare-le"); VF_REQ((a >= b) == (x >= y), "compare-ge");
      VF_REQ(a == a && !(a < a), "compare-self"); }
   }
   void make_twins() {
      op("twin"); do_clear(1, false); if (dir[0] != dir[1]) return;
      for (std::size_t i = 0; i < m[0].size(); ++i) { int id = free_id(); if (id < 0) break; rekey(id); el(id).v = key_at(0, i);
         if (i + 1 == m[0].size() && rng->chance(1, 2)) el(id).v += dir[0];
         c[1]->push_back(el(id)); model_ins(1, m[1].size(), id, c[1]->iterator_to(el(id))); }
      do_compare();
   }
   // bulk growth or shrinkage in an adversarial order, checking the structure after every step
   void do_bulk(int k) {
      int mode = int(rng->below(7)); op("bulk", k, mode, long(m[k].size()));
      if (mode < 4) {
         Seq ids = take_free(rng->below(where.size() + 1)); std::size_t n = ids.size(); int base = rng->range(0, keyrange);
         for (std::size_t i = 0; i < n; ++i) {
            int v = mode == 0 ? base + int(i) : mode == 1 ? base - int(i) : mode == 2 ? base + (i & 1 ? int(i) : -int(i)) : base + int((i * 7919) % 1009);
            el(ids[i]).v = v; insert_id(k, ids[i]); if (F_HOOK || F_LIFE || PROP == 4 || PROP == 5 || rng->chance(1, 8)) shape_of(k);
         }
      } else if (mode < 6) { // take elements away at one end or from one side of the tree
         std::size_t n = rng->below(m[k].size() + 1);
         while (n-- && !m[k].empty()) {
            std::size_t p = mode == 4 ? 0 : m[k].size() - 1; op("bulk_erase", k, long(p));
            c[k]->erase(CIt(at2(k, p))); drop(k, p, p + 1); shape_of(k);
         }
      } else { // keep only the deepest path (hostile to trees that rebuild on removal)
         std::vector<int> path; NP n = NT::get_parent(c[k]->end().pointed_node());
         while (n) { path.push_back(elem_of(n)->id); NP l = NT::get_left(n), r = NT::get_right(n); n = height(l) >= height(r) ? l : r; }
         Seq order_ = m[k];
         for (int id : order_) if (std::find(path.begin(), path.end(), id) == path.end()) {
            std::size_t p = std::size_t(std::find(m[k].begin(), m[k].end(), id) - m[k].begin()); op("bulk_erase", k, long(p));
            c[k]->erase(CIt(c[k]->iterator_to(el(id)))); drop(k, p, p + 1); shape_of(k);
         }
      }
   }
   It at2(int k, std::size_t p) { return p * 2 > m[k].size() ? [&] { It i = c[k]->end(); for (std::size_t n = m[k].size(); n > p; --n) --i; return i; }() : at(k, p); }

   // ------------------------------------------------------------ auto-unlink (C09), misuse (C08)
   void do_unlink() {
      if constexpr (Cfg::autou) {
         int id = int(rng->below(where.size())); int k = where[id]; bool destroy = rng->chance(1, 2);
         op(destroy ? "destroy_element" : "hook_unlink", id, k);
         for (std::size_t i = 0; i < where.size(); ++i) if (int(i) == id) this->passed.push_back(id);
         if (destroy) { std::uint64_t dummy = 0; (void)dummy; { int mask = k >= 0 ? 1 << k : 0; PoisonOnly g(this, mask); pool.e[id]->~E(); } new (pool.mem[id]) E(); el(id).id = id; }
         else { PoisonOnly g(this, k >= 0 ? 1 << k : 0); Cfg::unlink(el(id)); VF_REQ(!Cfg::linked(el(id)), "unlink-left-linked"); }
         if (k >= 0) { std::size_t p = std::size_t(std::find(m[k].begin(), m[k].end(), id) - m[k].begin()); m[k].erase(m[k].begin() + p); count("auto-unlinks"); }
         else count("unlink-unlinked");
         release(id);
      }
   }
   struct PoisonOnly { // poisoning without lifecycle accounting
      TreeDriver *d; PoisonOnly(TreeDriver *d_, int mask) : d(d_) {
         if (F_POISON) for (std::size_t i = 0; i < d->pool.e.size(); ++i) { int w = d->where[i]; bool keep = (w >= 0 && (mask >> w & 1)) || std::find(d->passed.begin(), d->passed.end(), int(i)) != d->passed.end(); if (!keep) d->pool.poison(int(i)); } }
      ~PoisonOnly() { if (F_POISON) d->pool.unpoison_all(); d->passed.clear(); }
   };
   void do_misuse() {
      if (!Cfg::safe) return;
      int id = -1; for (int t = 0; t < 10 && id < 0; ++t) { int i = int(rng->below(where.size())); if (where[i] >= 0) id = i; }
      if (id < 0) return;
      int w = where[id], k = 1 - w, v = el(id).v, kind = int(rng->below(7)); bool dup = lb(k, v) != ub(k, v);
      E *e = &el(id); L *l = c[k]; bool hit = true; TreeDriver *self = this; Seq one(1, id); const int *ip = one.data();
      op("misuse", kind, k, id);
      bool u = Cfg::uni && (!Cfg::eq || rng->chance(1, 2));
      if (u && dup && kind < 4) return; // rejected as a duplicate, nothing to catch
      It pos = at(k, ub(k, v));
      switch (kind) {
      case 0: hit = asserts([&] { if (u) { if constexpr (Cfg::uni) self->ins_un(*l, *e); } else if constexpr (Cfg::eq) self->ins_eq(*l, *e); }); break;
      case 1: hit = asserts([&] { if (u) { if constexpr (Cfg::uni) self->ins_un(*l, CIt(pos), *e); } else if constexpr (Cfg::eq) self->ins_eq(*l, CIt(pos), *e); }); break;
      case 2: hit = asserts([&] { self->ins_range(*l, u, RefIt{self, ip}, RefIt{self, ip + 1}); }); break;
      case 3: if constexpr (Cfg::uni) { typename L::insert_commit_data cd; if (dup || !check(*l, 0, CIt(), v, e->aux, cd, dir[k], pdir[k]).second) return;
                 hit = asserts([&] { if constexpr (Cfg::wrapper) l->insert_commit(*e, cd); else l->insert_unique_commit(*e, cd); }); } else return;
              break;
      case 4: hit = asserts([&] { l->insert_before(CIt(pos), *e); }); break;
      case 5: hit = asserts([&] { if (v & 1) l->push_back(*e); else l->push_front(*e); }); break;
      case 6: if (Cfg::autou || !dtor_checked<Cfg>::value) return; hit = asserts([&] { e->~E(); }); el(id).id = id; break;
      }
      VF_REQ(hit, "linked-insert-not-caught"); el(id).v = v; count("misuse-caught");
   }

   // ------------------------------------------------------------ cloning (C11)
   struct Clones { std::vector<E *> made; std::vector<const E *> src; std::vector<E *> live; long throw_at; long n; } cl;
   struct Cloner { Clones *c; E *operator()(const E &s) const { ++c->n; if (c->throw_at && c->n == c->throw_at) throw Thrown{int(c->n)};
      E *p = new E(); p->v = s.v; p->id = s.id; p->aux = s.aux; c->made.push_back(p); c->src.push_back(&s); c->live.push_back(p); return p; } };
   struct NCCloner { Clones *c; E *operator()(E &s) const { return Cloner{c}(s); } };
   struct CDisposer { Clones *c; template <class P> void operator()(const P &pp) const { E *p = raw(pp);
      auto i = std::find(c->live.begin(), c->live.end(), p); VF_REQ(i != c->live.end(), "clone-disposer-unknown"); if (Cfg::safe) VF_REQ(!Cfg::linked(*p), "disposed-while-linked"); c->live.erase(i); delete p; } };
   void do_clone(int k, bool rvl) {
      std::size_t pre = rng->below(4); int td = rng->chance(1, 2) ? 1 : -1, tpd = rng->chance(1, 2) ? 1 : -1;
      std::uint64_t sh0 = shape_of(k);
      for (long at_ = 0;; ++at_) {
         cl = Clones{{}, {}, {}, at_, 0};
         void *mem = ::operator new(csz()); L *t = construct(mem, td, tpd);
         for (std::size_t i = 0; i < pre; ++i) { E *p = new E(); p->v = -5 + int(i); p->aux = int(i); cl.live.push_back(p); if constexpr (Cfg::eq) ins_eq(*t, *p); else ins_un(*t, *p); }
         op(rvl ? "clone_from_rv" : "clone_from", k, long(pre), at_);
         if constexpr (sg && Cfg::fp) t->balance_factor(0.51f + 0.01f * float(rng->below(48)));
         bool threw = false;
         try { if (rvl) t->clone_from(std::move(*c[k]), NCCloner{&cl}, CDisposer{&cl}); else t->clone_from(const_cast<const L &>(*c[k]), Cloner{&cl}, CDisposer{&cl}); }
         catch (Thrown &) { threw = true; }
         VF_REQ(threw == (at_ > 0 && std::size_t(at_) <= m[k].size()), "clone-exception-propagation");
         if (!threw) {
            std::size_t n = 0;
            VF_REQ(t->size() == m[k].size() && cl.live.size() == m[k].size(), "clone-count");
            for (It i = t->begin(); i != t->end(); ++i, ++n) VF_REQ(n < m[k].size() && i->id == m[k][n] && i->v == el(m[k][n]).v && &*i != &el(m[k][n]), "clone-content");
            VF_REQ(n == m[k].size(), "clone-content");
            for (It i = t->end(); n; --n) { --i; VF_REQ(i->id == m[k][n - 1], "clone-content-reverse"); }
            std::vector<int> cloned; for (const E *e : cl.src) { VF_REQ(e == &el(e->id), "cloned-once-each"); cloned.push_back(e->id); }
            std::sort(cloned.begin(), cloned.end()); Seq want = m[k]; std::sort(want.begin(), want.end()); VF_REQ(cloned == want, "cloned-once-each");
            VF_REQ(t->key_comp().dir == dir[k], "clone-functor"); if constexpr (treap) VF_REQ(t->priority_comp().dir == pdir[k], "clone-functor");
            if constexpr (sg && Cfg::fp) VF_REQ(t->balance_factor() == alpha[k] && c[k]->balance_factor() == alpha[k], "clone-balance-factor");
            structure(*t, pdir[k], alpha_rule(k), sgmax[k]);
            // the clone is a full container: insert, find, erase
            E *x = new E(); x->v = some_key(k); x->aux = rng->range(0, 1000); cl.live.push_back(x); bool in = true;
            if constexpr (Cfg::eq) ins_eq(*t, *x); else in = ins_un(*t, *x).second;
            VF_REQ(t->size() == m[k].size() + (in ? 1 : 0), "clone-usable"); structure(*t, pdir[k], 0.70, 1e9);
            if (!in) { cl.live.pop_back(); delete x; }
         } else {
            VF_REQ(t->empty() && t->size() == 0 && t->begin() == t->end(), "clone-rollback-empty");
            VF_REQ(cl.live.empty(), "clone-rollback-leak"); structure(*t, pdir[k], 0.7, 1e9);
            E extra; extra.v = 1; extra.aux = 4; if constexpr (Cfg::eq) ins_eq(*t, extra); else ins_un(*t, extra);
            VF_REQ(t->size() == 1 && &*t->begin() == &extra, "clone-rollback-usable"); t->clear(); if (!Cfg::safe) { reset_el(&extra); }
         }
         t->clear_and_dispose(CDisposer{&cl});
         VF_REQ(cl.live.empty(), "clone-leak");
         t->~L(); ::operator delete(mem);
         verify(); VF_REQ(shape_of(k) == sh0, "clone-changed-source");
         if (at_ > 0 && !threw) break;
      }
   }

   // ------------------------------------------------------------ exception safety (C12)
   // strong: nothing may have changed; otherwise elements of `fresh` may be in or out, the others in exactly one of the involved containers or (lossy) removed
   template <class F> void sweep(const char *name, int mask, bool strong, const Seq &fresh, bool lossy, F f) {
      Seq s0[2] = {m[0], m[1]}; std::vector<int> w0 = where;
      double mx0[2] = {sgmax[0], sgmax[1]};
      for (long n = 1;; ++n) {
         op(name, n, mask);
         for (int q = 0; q < 2; ++q) sgmax[q] = mx0[q] + double(m[1 - q].size() + fresh.size());
         reset_fault(n); bool threw = false;
         try { f(); } catch (Thrown &) { threw = true; }
         bool fired = fault().fired; fault().fired = 0; reset_fault(0);
         VF_REQ(threw == fired, "exception-swallowed");
         // read back the actual state
         std::vector<int> seen(where.size(), -1); Seq now[2];
         for (int q = 0; q < 2; ++q) {
            std::size_t cnt = 0;
            for (It i = c[q]->begin(); i != c[q]->end(); ++i) {
               if (++cnt > where.size()) fail("fault-corrupt", "%s: endless container %d after exception", name, q);
               int id = i->id; VF_REQ(id >= 0 && id < int(where.size()) && &el(id) == &*i && seen[id] < 0, "fault-corrupt");
               seen[id] = q; now[q].push_back(id);
            }
         }
         if (threw) {
            count("faults-injected");
            if (strong) for (int q = 0; q < 2; ++q) if (now[q] != s0[q]) fail("fault-strong-guarantee", "%s: container %d holds {%s}, before the exception {%s}", name, q, show(now[q]).c_str(), show(s0[q]).c_str());
            for (std::size_t i = 0; i < where.size(); ++i) {
               bool fr = std::find(fresh.begin(), fresh.end(), int(i)) != fresh.end();
               if (w0[i] < 0) VF_REQ(seen[i] < 0 || fr, "fault-alien-element");
               else if (seen[i] < 0) VF_REQ(lossy, "fault-lost-element");
               else if (!(mask >> w0[i] & 1)) VF_REQ(seen[i] == w0[i], "fault-moved-element");
            }
         }
         where = seen; m[0] = now[0]; m[1] = now[1];
         if (Cfg::safe) for (std::size_t i = 0; i < where.size(); ++i) hook_ok(int(i), "fault-hook-state");
         verify();
         if (!threw) { for (int q = 0; q < 2; ++q) for (int x : m[q]) saved(x, c[q]->iterator_to(el(x))); count("sweeps"); break; }
         for (int q = 0; q < 2; ++q) c[q]->clear();
         if (!Cfg::safe) for (std::size_t i = 0; i < where.size(); ++i) pool.reset_keep(int(i));
         for (int q = 0; q < 2; ++q) { m[q] = s0[q]; for (int x : s0[q]) { c[q]->push_back(el(x)); saved(x, c[q]->iterator_to(el(x))); } }
         where = w0; for (int q = 0; q < 2; ++q) sgmax[q] = std::max(mx0[q], double(m[q].size()));
         verify();
      }
      for (int q = 0; q < 2; ++q) sgmax[q] = mx0[q] + double(s0[1 - q].size() + fresh.size());
   }
   void do_fault(int k) {
      int id = free_id(); bool u = pick_u(); Seq none; typename B::Disposer d{this}; int v = some_key(k), w = some_key(k); if (lt(k, w, v)) std::swap(v, w);
      if (id >= 0) { rekey(id); if (rng->chance(1, 3)) el(id).v = v; }
      L *l = c[k]; decltype(auto) kk = key(v); HKey hk{v}; KLess hc{dir[k]};
      std::size_t h = rng->below(m[k].size() + 1); It hint = at(k, h);
      Seq fresh; if (id >= 0) fresh.push_back(id);
      switch (rng->below(14)) {
      case 0: if (id < 0) return; sweep("insert", 1 << k, true, fresh, false, [&] { if (u) { if constexpr (Cfg::uni) ins_un(*l, el(id)); } else if constexpr (Cfg::eq) ins_eq(*l, el(id)); }); break;
      case 1: if (id < 0) return; sweep("insert_hint", 1 << k, true, fresh, false, [&] { CIt hh = at(k, h); if (u) { if constexpr (Cfg::uni) ins_un(*l, hh, el(id)); } else if constexpr (Cfg::eq) ins_eq(*l, hh, el(id)); }); break;
      case 2: { Seq ids = take_free(1 + rng->below(5)); sweep("insert_range", 1 << k, false, ids, false, [&] { ins_range(*l, u, RefIt{this, ids.data()}, RefIt{this, ids.data() + ids.size()}); }); break; }
      case 3: sweep("find", 1 << k, true, none, false, [&] { if (v & 1) l->find(kk); else l->find(hk, hc); }); break;
      case 4: sweep("bounds", 1 << k, true, none, false, [&] { if (v & 1) { l->lower_bound(kk); l->upper_bound(hk, hc); } else { l->lower_bound(hk, hc); l->upper_bound(kk); } }); break;
      case 5: sweep("ranges", 1 << k, true, none, false, [&] { l->equal_range(kk); l->equal_range(hk, hc); l->count(kk); l->count(hk, hc); if (lt(k, v, w)) l->bounded_range(hk, HKey{w}, hc, true, true); }); break;
      case 6: sweep("merge", 3, false, none, false, [&] { if constexpr (Cfg::wrapper) l->merge(*c[1 - k]); else if (u) l->merge_unique(*c[1 - k]); else l->merge_equal(*c[1 - k]); }); break;
      case 7: sweep("erase_key_het", 1 << k, !treap, none, treap, [&] { if (v & 1) { this->disposed.clear(); l->erase_and_dispose(hk, hc, d); } else l->erase(hk, hc); }); break;
      case 8: sweep("erase_key_and_dispose", 1 << k, !treap, none, treap, [&] { this->disposed.clear(); l->erase_and_dispose(kk, d); }); break;
      case 9: if constexpr (Cfg::uni) { if (id < 0) return; sweep("insert_check", 1 << k, true, none, false, [&] { typename L::insert_commit_data cd; check(*l, int(h & 3), CIt(at(k, h)), el(id).v, el(id).aux, cd, dir[k], pdir[k]); }); } break;
      case 10: if constexpr (treap) { if (m[k].empty()) return; std::size_t p = rng->below(m[k].size()); sweep("erase", 1 << k, true, none, false, [&] { if (p & 1) { this->disposed.clear(); l->erase_and_dispose(CIt(at(k, p)), d); } else l->erase(CIt(at(k, p))); }); } break;
      case 11: if constexpr (treap) { if (id < 0 || !fit(k, h, id)) return; sweep("insert_before", 1 << k, true, fresh, false, [&] { if (h == m[k].size() && (el(id).v & 1)) l->push_back(el(id)); else if (h == 0 && (el(id).v & 1)) l->push_front(el(id)); else l->insert_before(CIt(at(k, h)), el(id)); }); } break;
      case 12: if constexpr (treap) { std::size_t a = rng->below(m[k].size() + 1), b = rng->below(m[k].size() + 1); if (a > b) std::swap(a, b); sweep("erase_range", 1 << k, false, none, true, [&] { l->erase(CIt(at(k, a)), CIt(at(k, b))); }); }
               else if constexpr (splay) sweep("splay_down", 1 << k, true, none, false, [&] { if (v & 1) l->splay_down(kk); else l->splay_down(hk, hc); }); break;
      case 13: if constexpr (Cfg::safe) { // range constructor: when it throws everything is unlinked again
               Seq ids = take_free(1 + rng->below(5)); void *mem = ::operator new(csz());
               sweep("range_ctor", 0, true, none, false, [&] { L *t = construct_range(mem, u, RefIt{this, ids.data()}, RefIt{this, ids.data() + ids.size()}, 1, 1); t->~L(); });
               ::operator delete(mem); } break;
      }
   }

   // ------------------------------------------------------------ one case
   void step() {
      int k = int(rng->below(2));
      if (F_FAULT && rng->chance(1, 3)) { do_fault(k); return; }
      if (F_CLONE && rng->chance(1, 4)) { do_clone(k, rng->chance(1, 2)); return; }
      if (F_UNLINK && Cfg::autou && rng->chance(1, 3)) { do_unlink(); return; }
      if (F_MISUSE && rng->chance(1, 4)) { do_misuse(); return; }
      if (F_VALUE && rng->chance(1, 12)) { this->do_hook_values(); return; }
      if (PROP == 13 && rng->chance(1, 2)) { do_check_commit(k); return; }
      if (F_XFER && rng->chance(1, 2)) {
         switch (rng->below(8)) { case 0: do_swap(int(rng->below(3))); return; case 1: do_move_ctor(k); return; case 2: do_move_assign(k); return; case 3: do_self_swap(k); return; case 4: case 5: do_merge(k); return; case 6: do_cross_merge(k); return; case 7: do_alpha(k); return; }
      }
      if (F_DISPOSE && rng->chance(1, 3)) {
         switch (rng->below(5)) { case 0: do_erase(k, true); return; case 1: do_erase_range(k, true); return; case 2: do_erase_key(k, true); return; case 3: if (rng->chance(1, 2)) do_clear(k, true); return; case 4: do_replace(k); return; }
      }
      if ((PROP == 5 || PROP == 3) && splay && rng->chance(1, 4)) { if (rng->chance(1, 2)) do_splay(k); else lookups(k, some_key(k)); return; }
      switch (rng->below(40)) {
      case 0: case 1: case 2: case 3: case 4: do_insert(k); break;
      case 5: case 6: case 7: case 8: do_hint(k); break;
      case 9: case 10: do_insert_range(k); break;
      case 11: if (rng->chance(1, 2)) do_range_ctor(k); break;
      case 12: case 13: case 14: do_before(k); break;
      case 15: case 16: do_check_commit(k); break;
      case 17: case 18: case 19: do_erase(k, rng->chance(1, 2)); break;
      case 20: do_erase_range(k, rng->chance(1, 2)); break;
      case 21: case 22: do_erase_key(k, rng->chance(1, 2)); break;
      case 23: if (rng->chance(1, 3)) do_clear(k, rng->chance(1, 2)); break;
      case 24: do_remove_node(k); break;
      case 25: case 26: do_replace(k); break;
      case 27: if (rng->chance(1, 2)) do_drain(k); break;
      case 28: lookups_const(k, some_key(k)); break;
      case 29: case 30: lookups(k, some_key(k)); break;
      case 31: do_splay(k); break;
      case 32: do_rebalance(k); break;
      case 33: do_alpha(k); break;
      case 34: if (rng->chance(1, 2)) do_swap(int(rng->below(3))); else do_self_swap(k); break;
      case 35: if (rng->chance(1, 2)) do_move_ctor(k); else do_move_assign(k); break;
      case 36: do_merge(k); break;
      case 37: do_cross_merge(k); break;
      case 38: if (rng->chance(1, 2)) do_compare(); else make_twins(); break;
      case 39: if (PROP == 4 || PROP == 5 || rng->chance(1, 3)) do_bulk(k); break;
      }
   }
   void run(Rng &r) {
      rng = &r;
      std::size_t n; unsigned z = unsigned(r.below(20));
      n = z < 4 ? 3 + r.below(3) : z < 15 ? 6 + r.below(14) : z < 19 ? 20 + r.below(40) : 100 + r.below(200);
      if (F_FAULT || F_CLONE) n = 3 + r.below(14);
      if ((PROP == 4 || PROP == 5) && n < 20 && r.chance(1, 2)) n = 30 + r.below(60);
      pool.grow(n); kel = new E(); kel2 = new E();
      where.assign(n, -1); its.assign(n, It());
      keyrange = r.chance(1, 3) ? 3 : r.chance(1, 2) ? int(n) : 1000;
      make();
      op("start", long(n), keyrange);
      if (n > 20 || r.chance(1, 4)) for (std::size_t i = 0; i < n * 2 / 3; ++i) { if (where[i] < 0) { rekey(int(i)); insert_id(r.chance(1, 4), int(i)); } }
      verify();
      int steps = F_FAULT || F_CLONE ? 16 : n > 60 ? 20 : 40;
      for (int i = 0; i < steps; ++i) { step(); verify(); }
      op("destroy");
      for (int k = 0; k < 2; ++k) { if (!Cfg::safe) c[k]->clear(); c[k]->~L(); ::operator delete(cmem[k]); }
      if (Cfg::safe) for (std::size_t i = 0; i < where.size(); ++i) VF_REQ(!Cfg::linked(el(int(i))), "linked-after-container-destruction");
      if (!Cfg::safe) for (std::size_t i = 0; i < where.size(); ++i) pool.reset(int(i));
      delete kel; delete kel2;
      pool.free_all();
   }
};
} // namespace vf
#endif
