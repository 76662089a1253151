// check(): silent on intact containers, asserts on damaged ones.  Links, colours, balances, keys, priorities and size counters are
// damaged from outside (through node traits and node algorithms) and an independent validator says whether the container is intact.
// CFG 0-3 list, 4-13 slist, 14-25 trees (kind 0 rb 1 avl 2 bs 3 splay 4 sg 5 treap; size counted or not / compact node)
#ifndef CFG
#define CFG 0
#endif
#include "common.hpp"
#include <boost/intrusive/list.hpp>
#include <boost/intrusive/slist.hpp>
#include <boost/intrusive/set.hpp>
#include <boost/intrusive/avl_set.hpp>
#include <boost/intrusive/bs_set.hpp>
#include <boost/intrusive/splay_set.hpp>
#include <boost/intrusive/sg_set.hpp>
#include <boost/intrusive/treap_set.hpp>
#include <set>
using namespace vf;
namespace bi = boost::intrusive;
struct E;
#define SEQ (CFG < 14)
#define ISLIST (CFG < 4)
#define TK ((CFG - 14) / 2)
#define TV ((CFG - 14) % 2)
static const bool cts = SEQ ? CFG % 2 == 0 : (TV == 0 || TK == 4);
static const bool circ_link = CFG % 4 < 2;   // hook type choice for sequences
#if ISLIST
typedef std::conditional<circ_link, bi::list_base_hook<>, bi::list_base_hook<bi::link_mode<bi::normal_link>>>::type Hook;

#elif SEQ
static const int sv = (CFG - 4) / 2;   // 0 circular 1 circular+cached 2 linear 3 linear+cached 4 circular safe member-like
static const bool linear = sv == 2 || sv == 3, cached = sv == 1 || sv == 3;
typedef bi::slist_base_hook<bi::link_mode<linear || sv == 4 ? bi::normal_link : bi::safe_link>> Hook;
#elif TK == 0
typedef bi::set_base_hook<bi::optimize_size<TV>> Hook;
#elif TK == 1
typedef bi::avl_set_base_hook<bi::optimize_size<TV>> Hook;
#else
typedef bi::bs_set_base_hook<> Hook;
#endif
struct E : Hook { int v = 0, prio = 0, id = -1; };
struct KLess { bool operator()(const E &a, const E &b) const { return a.v < b.v; } };
struct PLess { bool operator()(const E &a, const E &b) const { return a.prio < b.prio; } };
#if ISLIST
typedef bi::list<E, bi::constant_time_size<cts>> C;
#elif SEQ
typedef bi::slist<E, bi::constant_time_size<cts>, bi::linear<linear>, bi::cache_last<cached>> C;
#elif TK == 0
typedef bi::multiset<E, bi::compare<KLess>, bi::constant_time_size<cts>> C;
#elif TK == 1
typedef bi::avl_multiset<E, bi::compare<KLess>, bi::constant_time_size<cts>> C;
#elif TK == 2
typedef bi::bs_multiset<E, bi::compare<KLess>, bi::constant_time_size<cts>> C;
#elif TK == 3
typedef bi::splay_multiset<E, bi::compare<KLess>, bi::constant_time_size<cts>> C;
#elif TK == 4
typedef bi::sg_multiset<E, bi::compare<KLess>, bi::floating_point<TV == 0>> C;
#else
typedef bi::treap_multiset<E, bi::compare<KLess>, bi::priority<PLess>, bi::constant_time_size<cts>> C;
#endif
typedef C::value_traits VT;
typedef C::node_traits T;

typedef T::node_ptr NP;
// erases a node behind the container's back, with the algorithms' own rebalancing where that needs no functor
template <class AA> static void X_erase(NP h, NP n) { if constexpr (TK < 4) AA::erase(h, n); else bi::bstree_algorithms<T>::erase(h, n); }
#if ISLIST || !SEQ
static const bool linear = false, cached = false;
#endif
enum Verdict { bad, good, undecided };
template <class CC> struct D {
   std::vector<std::unique_ptr<E>> el; std::unique_ptr<CC> c; Rng &r; std::size_t counter = 0; std::vector<char> in; NP h;
   typedef typename CC::node_traits NT; typedef typename CC::node_algorithms A;
   NP nd(int i) { return VT::to_node_ptr(*el[i]); }
   NP any(bool null) { std::size_t k = r.below(el.size() + 1 + (null ? 1 : 0)); return k < el.size() ? nd(int(k)) : k == el.size() ? h : NP(); }
   struct S { NP a, b, p; int col, v, prio; bool operator==(const S &o) const { return a == o.a && b == o.b && p == o.p && col == o.col && v == o.v && prio == o.prio; } };
   std::vector<S> snap;
   static int getcol(NP n) {
      (void)n;
      if constexpr (!SEQ && TK == 0) return NT::get_color(n) == NT::red();
      else if constexpr (!SEQ && TK == 1) return NT::get_balance(n) == NT::negative() ? -1 : NT::get_balance(n) == NT::positive();
      else return 0;
   }
   static void setcol(NP n, int x) {
      (void)n; (void)x;
      if constexpr (!SEQ && TK == 0) NT::set_color(n, x ? NT::red() : NT::black());
      else if constexpr (!SEQ && TK == 1) NT::set_balance(n, x < 0 ? NT::negative() : x ? NT::positive() : NT::zero());
   }
   S row(NP n, E *e) {
      S s = S();
      if constexpr (ISLIST) { s.a = NT::get_next(n); s.b = NT::get_previous(n); }
      else if constexpr (SEQ) { s.a = NT::get_next(n); if (cached && !e) s.b = lastp(); }
      else { s.a = NT::get_left(n); s.b = NT::get_right(n); s.p = NT::get_parent(n); s.col = getcol(n); }
      if (e) { s.v = e->v; s.prio = e->prio; }
      return s;
   }
   NP lastp() { if constexpr (SEQ && !ISLIST) { if constexpr (cached) return c->last().pointed_node(); } return NP(); }
   void put(NP n, E *e, const S &s) {
      if constexpr (ISLIST) { NT::set_next(n, s.a); NT::set_previous(n, s.b); }
      else if constexpr (SEQ) NT::set_next(n, s.a);
      else { NT::set_left(n, s.a); NT::set_right(n, s.b); NT::set_parent(n, s.p); setcol(n, s.col); }
      if (e) { e->v = s.v; e->prio = s.prio; }
   }
   std::vector<S> take() { std::vector<S> o; o.push_back(row(h, nullptr)); for (std::size_t i = 0; i < el.size(); ++i) o.push_back(row(nd(int(i)), el[i].get())); return o; }
   void restore() { put(h, nullptr, snap[0]); for (std::size_t i = 0; i < el.size(); ++i) put(nd(int(i)), el[i].get(), snap[i + 1]); }
   E *of(NP n) { for (auto &e : el) if (VT::to_node_ptr(*e) == n) return e.get(); return nullptr; }
   // ---- the validator
   Verdict seq_valid() {
      std::set<const void *> seen; std::size_t n = 0;
      if constexpr (ISLIST) {
         if (!NT::get_next(h) || !NT::get_previous(h)) return bad;
         if ((NT::get_next(h) == h) != (NT::get_previous(h) == h)) return bad;
         for (NP p = h;;) { NP q = NT::get_next(p); if (!q || NT::get_previous(q) != p) return bad; p = q; if (p == h) break; ++n; if (!seen.insert(&*p).second) return bad; }
      } else if constexpr (SEQ) {
         NP e0 = NT::get_next(h);
         if (!e0 && !linear) return bad;
         if (linear ? !e0 : e0 == h) { if (cached && lastp() != h) return undecided; return cts && counter ? bad : good; }
         for (NP p = h;;) {
            NP q = NT::get_next(p);
            if (q == h && linear) return bad;
            if (!q && !linear) return bad;
            if (linear ? !q : q == h) { if (cached && lastp() != p) return bad; break; }
            p = q; ++n; if (!seen.insert(&*p).second) return undecided;
         }
      }
      return cts && n != counter ? bad : good;
   }
   std::set<const void *> seen; std::vector<E *> order; bool wrong, unk;
   int tree_walk(NP n) {   // returns black height or height
      if constexpr (!SEQ) {
      NP l = NT::get_left(n), g = NT::get_right(n); int a = 0, b = 0;
      if (n == h || l == h || g == h || !seen.insert(&*n).second) { unk = true; return 0; }
      if (l) { if (NT::get_parent(l) != n) wrong = true; else a = tree_walk(l); }
      E *e = of(n); order.push_back(e);
      if (g) { if (NT::get_parent(g) != n) wrong = true; else b = tree_walk(g); }
      if (unk) return 0;
      if constexpr (TK == 0) {
         if (a != b) wrong = true;
         if (getcol(n)) { if ((l && getcol(l)) || (g && getcol(g)) || n == NP(NT::get_parent(h))) wrong = true; return a; }
         return a + 1;
      }
      if constexpr (TK == 1) { int d = b - a; if (d < -1 || d > 1 || getcol(n) != d) wrong = true; }
      if constexpr (TK == 5) { if ((l && PLess()(*of(l), *e)) || (g && PLess()(*of(g), *e))) wrong = true; }
      return 1 + (a > b ? a : b);
      }
      return 0;
   }
   Verdict tree_valid() {
      if constexpr (!SEQ) {
         seen.clear(); order.clear(); wrong = unk = false;
         NP root = NT::get_parent(h);
         if (!root) return NT::get_left(h) == h && NT::get_right(h) == h && !(cts && counter) ? good : bad;
         if (root == h) return undecided;
         if (NT::get_parent(root) != h) return bad;
         tree_walk(root);
         if (unk) return undecided;
         if (wrong) return bad;
         for (std::size_t i = 1; i < order.size(); ++i) if (order[i]->v < order[i - 1]->v) return bad;
         if (of(NT::get_left(h)) != order.front() || of(NT::get_right(h)) != order.back()) return bad;
         return cts && order.size() != counter ? bad : good;
      }
      return undecided;
   }
   Verdict valid() { if constexpr (SEQ) return seq_valid(); else return tree_valid(); }
   // ---- damage
   int linked() { std::vector<int> v; for (std::size_t i = 0; i < in.size(); ++i) if (in[i]) v.push_back(int(i)); return v.empty() ? -1 : v[r.below(v.size())]; }
   int loose() { for (std::size_t i = 0; i < in.size(); ++i) if (!in[i]) return int(i); return -1; }
   // a node somewhere in the container (or the header)
   NP spot() { int i = linked(); return i < 0 || r.chance(1, 5) ? h : nd(i); }
   bool intact_so_far = true;
   void damage() {
      int i = linked(), j = linked(), x = loose();
      NP n = spot(), t = any(true);
      if constexpr (ISLIST) {
         switch (r.below(intact_so_far ? 6 : 2)) {
         case 0: op("next", of(n) ? of(n)->id : -2); NT::set_next(n, t); intact_so_far = false; break;
         case 1: op("previous", of(n) ? of(n)->id : -2); NT::set_previous(n, t); intact_so_far = false; break;
         case 2: if (i >= 0 && in[i]) { op("bypass-unlink", i); A::unlink(nd(i)); in[i] = 0; } break;
         case 3: if (x >= 0) { op("bypass-link", x); A::link_before(n, nd(x)); in[x] = 1; } break;
         case 4: if (i >= 0 && j >= 0 && i != j) { op("swap-nodes", i, j); A::swap_nodes(nd(i), nd(j)); } break;
         default: if (i >= 0) { op("self-ring", i); NP p = nd(i), q = NT::get_next(p); if (q != h) { NT::set_next(p, p); NT::set_previous(p, p); intact_so_far = false; } } break;
         }
      } else if constexpr (SEQ) {
         switch (r.below(intact_so_far ? 5 : 1)) {
         case 0: op("next", of(n) ? of(n)->id : -2); NT::set_next(n, t); intact_so_far = false; break;
         case 1: { NP q = NT::get_next(n); if (q && q != h) { op("bypass-unlink", of(q)->id); in[of(q)->id] = 0; A::unlink_after(n); } break; }
         case 2: if (x >= 0) { op("bypass-link", x); A::link_after(n, nd(x)); in[x] = 1; } break;
         case 3: { op("truncate"); NT::set_next(n, linear ? NP() : h); intact_so_far = false; break; }
         case 4: { NP q = NT::get_next(n); if (q && q != h && NT::get_next(q)) { op("skip"); NT::set_next(n, NT::get_next(q)); intact_so_far = false; } break; }
         }
      } else {
         switch (r.below(intact_so_far ? 10 : 6)) {
         case 0: op("left", of(n) ? of(n)->id : -2); NT::set_left(n, t); intact_so_far = false; break;
         case 1: op("right", of(n) ? of(n)->id : -2); NT::set_right(n, t); intact_so_far = false; break;
         case 2: op("parent", of(n) ? of(n)->id : -2); NT::set_parent(n, t); intact_so_far = false; break;
         case 3: if (i >= 0) { int b = getcol(nd(i)), z = TK == 1 ? (b + 1 + int(r.below(2)) + 1) % 3 - 1 : !b; op("colour", i, z); setcol(nd(i), z); if (TK < 2) intact_so_far = false; } break;
         case 4: if (i >= 0) { el[i]->v = r.range(0, 20); op("key", i, el[i]->v); } break;
         case 5: if (i >= 0) { el[i]->prio = r.range(0, 12); op("priority", i, el[i]->prio); } break;
         case 6: if (i >= 0) { op("bypass-unlink", i); X_erase<A>(h, nd(i)); in[i] = 0; } break;
         case 7: if (i >= 0 && j >= 0 && i != j) { op("swap-nodes", i, j); A::swap_nodes(nd(i), nd(j)); } break;
         case 8: if (x >= 0) { op("replace-node", x); if (i >= 0) { el[x]->v = el[i]->v + r.range(-1, 1); A::replace_node(nd(i), nd(x)); in[i] = 0; in[x] = 1; } } break;
         default: { op("leaf", i); for (std::size_t q = 0; q < el.size(); ++q) if (in[q] && !NT::get_left(nd(int(q))) && !NT::get_right(nd(int(q)))) { NP z = nd(int(q)), p = NT::get_parent(z); if (p == h) break; if (NT::get_left(p) == z) { NT::set_left(p, NP()); if (NT::get_left(h) == z) NT::set_left(h, p); } else { NT::set_right(p, NP()); if (NT::get_right(h) == z) NT::set_right(h, p); } intact_so_far = false; break; } break; }
         }
      }
   }
   D(Rng &rr) : r(rr) {}
};
// every node is presented once, after its children, with their results
static std::vector<int> g_visits; static bool g_bad;
#if !SEQ
struct Extra {
   struct return_type { long nodes = 0; const E *top = nullptr; };
   void operator()(T::const_node_ptr n, const return_type &l, const return_type &r, return_type &o) {
      const E &e = *VT::to_value_ptr(n); g_visits.push_back(e.id);
      NP lp = T::get_left(n), rp = T::get_right(n);
      if ((lp ? &*VT::to_value_ptr(lp) : nullptr) != l.top || (rp ? &*VT::to_value_ptr(rp) : nullptr) != r.top || o.nodes) g_bad = true;
      o.nodes = l.nodes + r.nodes + 1; o.top = &e;
   }
};
#endif
template <class DD> static void build(DD &d) {
   auto &c = *d.c; Rng &r = d.r;
   std::size_t n = d.el.size(), k = r.chance(1, 8) ? r.below(3) : r.below(n);
   for (std::size_t i = 0; i < k; ++i) {
      E &e = *d.el[i]; e.v = r.range(0, 20); e.prio = r.range(0, 12); d.in[i] = 1; ++d.counter;
      if constexpr (ISLIST) { if (r.chance(1, 2)) c.push_back(e); else c.push_front(e); }
      else if constexpr (SEQ) { if (i && r.chance(1, 2)) c.insert_after(c.begin(), e); else c.push_front(e); }
      else c.insert(e);
   }
   for (std::size_t m = k ? r.below(k) : 0; m; --m) {   // some erasures
      int i = d.linked(); if (i < 0) break;
      c.erase(c.iterator_to(*d.el[i])); d.in[i] = 0; --d.counter;
   }
   for (std::size_t i = 0; i < n; ++i) if (!d.in[i]) { C::node_algorithms::init(d.nd(int(i))); d.setcol(d.nd(int(i)), 0); }
   if constexpr (!SEQ) d.h = c.end().pointed_node(); else if constexpr (ISLIST) d.h = c.end().pointed_node(); else d.h = c.before_begin().pointed_node();
}
template <class CC> static void one_case(Rng &r) {
   struct DX : D<CC> { using D<CC>::D; } d(r);
   std::size_t n = 2 + r.below(r.chance(1, 4) ? 40 : 9);
   for (std::size_t i = 0; i < n; ++i) { d.el.emplace_back(new E); d.el.back()->id = int(i); }
   d.in.assign(n, 0); d.c.reset(new CC); build(d);
   op("start", long(n), long(d.counter));
   auto check = [&] { return asserts([&] { const_cast<const CC &>(*d.c).check(); }); };
   VF_REQ(!check(), "check-false-alarm");
   d.snap = d.take(); std::vector<char> in0 = d.in;
   VF_REQ(d.valid() == good, "check-container-damaged");
   for (int round = 0; round < 12; ++round) {
      d.intact_so_far = true;
      for (int k = r.chance(2, 3) ? 1 : 2 + int(r.below(2)); k; --k) d.damage();
      Verdict v = d.valid();
      if (v == undecided) count("undecided");
      else {
         auto before = d.take();
         bool fired = check();
         VF_REQ(fired || v == good, "check-missed-damage");
         VF_REQ(!fired || v == bad, "check-false-alarm");
         VF_REQ(before == d.take(), "check-changed-container");
         count(v == good ? "intact-accepted" : "damage-detected");
#if !SEQ
         g_visits.clear(); g_bad = false;
         bool f2 = asserts([&] { const_cast<const CC &>(*d.c).check(Extra()); });
         VF_REQ(f2 == fired, "check-extra-differs");
         if (!f2) {
            VF_REQ(!g_bad, "check-extra-results");
            std::vector<int> e; for (E *q : d.order) e.push_back(q->id);
            std::vector<int> g = g_visits; if (CC::node_traits::get_parent(d.h)) { std::sort(e.begin(), e.end()); std::sort(g.begin(), g.end()); VF_REQ(g == e, "check-extra-visits"); } else VF_REQ(g.empty(), "check-extra-visits");
         }
#endif
      }
      d.restore(); d.in = in0;
      VF_REQ(d.take() == d.snap, "check-restore");
      VF_REQ(!check(), "check-false-alarm");
   }
   d.c->clear();
   VF_REQ(!check(), "check-false-alarm");
}
int main(int argc, char **argv) {
   static char nm[60]; std::snprintf(nm, sizeof nm, "check() of damaged containers %d", CFG);
   return vf::main_loop(argc, argv, nm, 2000, 40000, [](vf::Rng &r) { one_case<C>(r); });
}
