// Work done by tree operations: link accesses are counted by the node traits, comparisons by the functors.
// CFG: kind (0 rb 1 avl 2 bs 3 splay 4 sg 5 treap) + 6 * (constant-time size) + 12 * (safe links)
#include "common.hpp"
#include <boost/intrusive/bstree.hpp>
#include <boost/intrusive/rbtree.hpp>
#include <boost/intrusive/avltree.hpp>
#include <boost/intrusive/splaytree.hpp>
#include <boost/intrusive/sgtree.hpp>
#include <boost/intrusive/treap.hpp>
#include <cmath>
#ifndef CFG
#define CFG 0
#endif
#define KIND (CFG % 6)
#define CT ((CFG / 6) % 2 || KIND == 4)
#define SAFE (CFG / 12)
namespace bi = boost::intrusive; using namespace vf;
static long g_acc, g_prio;
struct N { N *pa = nullptr, *le = nullptr, *ri = nullptr; int bal = 0, v = 0, prio = 0, id = 0; };
struct Tr {
   typedef N node; typedef N *node_ptr; typedef const N *const_node_ptr; typedef int color; typedef int balance;
   static node_ptr get_parent(const_node_ptr n) { ++g_acc; return n->pa; } static void set_parent(node_ptr n, node_ptr x) { ++g_acc; n->pa = x; }
   static node_ptr get_left(const_node_ptr n) { ++g_acc; return n->le; } static void set_left(node_ptr n, node_ptr x) { ++g_acc; n->le = x; }
   static node_ptr get_right(const_node_ptr n) { ++g_acc; return n->ri; } static void set_right(node_ptr n, node_ptr x) { ++g_acc; n->ri = x; }
   static color get_color(const_node_ptr n) { return n->bal; } static void set_color(node_ptr n, color c) { n->bal = c; } static color black() { return 1; } static color red() { return 0; }
   static balance get_balance(const_node_ptr n) { return n->bal; } static void set_balance(node_ptr n, balance b) { n->bal = b; } static balance negative() { return -1; } static balance zero() { return 0; } static balance positive() { return 1; }
};
struct VT { typedef Tr node_traits; typedef N *node_ptr; typedef const N *const_node_ptr; typedef N value_type; typedef N *pointer; typedef const N *const_pointer; typedef N &reference; typedef const N &const_reference;
   static const bi::link_mode_type link_mode = SAFE ? bi::safe_link : bi::normal_link;
   static node_ptr to_node_ptr(N &v) { return &v; } static const_node_ptr to_node_ptr(const N &v) { return &v; } static pointer to_value_ptr(node_ptr n) { return n; } static const_pointer to_value_ptr(const_node_ptr n) { return n; } };
struct Cmp { bool operator()(int a, int b) const { tick(); return a < b; } };
struct PCmp { bool operator()(const N &a, const N &b) const { ++g_prio; return a.prio < b.prio; } };
static bool operator<(const N &a, const N &b) { return a.v < b.v; }
static bool operator==(const N &a, const N &b) { return a.v == b.v; }
struct KV { typedef int type; type operator()(const N &n) const { return n.v; } };
#define OPT N, bi::value_traits<VT>, bi::compare<Cmp>, bi::key_of_value<KV>
#if KIND == 0
typedef bi::rbtree<OPT, bi::constant_time_size<CT>> L;
#elif KIND == 1
typedef bi::avltree<OPT, bi::constant_time_size<CT>> L;
#elif KIND == 2
typedef bi::bstree<OPT, bi::constant_time_size<CT>> L;
#elif KIND == 3
typedef bi::splaytree<OPT, bi::constant_time_size<CT>> L;
#elif KIND == 4
typedef bi::sgtree<OPT> L;
#else
typedef bi::treap<OPT, bi::priority<PCmp>, bi::constant_time_size<CT>> L;
#endif
constexpr bool BAL = KIND == 0 || KIND == 1 || KIND == 4, SPLAY = KIND == 3;
template <class L> struct D {
   typedef typename L::iterator It; typedef typename L::const_iterator CIt;
   Rng &r; std::vector<std::unique_ptr<N>> pool; std::size_t used = 0; L a, b; long na = 0, nb = 0, h = 0;
   D(Rng &rr) : r(rr) {}
   N &fresh(int v) { if (used == pool.size()) pool.emplace_back(new N()); N &n = *pool[used++]; n = N(); n.v = v; n.prio = int(r.next() & 0x3fffffff); return n; }
   static long height(const N *n) { long best = 0; std::vector<std::pair<const N *, long>> st; if (n) st.push_back({n, 1}); while (!st.empty()) { auto [x, d] = st.back(); st.pop_back(); best = std::max(best, d); if (x->le) st.push_back({x->le, d + 1}); if (x->ri) st.push_back({x->ri, d + 1}); } return best; }
   long hof(L &l) { return l.empty() ? 0 : height(&*l.root()); }
   static long lg(long n) { return long(std::ceil(std::log2(double(n + 2)))); }
   template <class F> void cost(const char *what, long clim, long lim, F f) {
      op(what, na, nb, h, long(r.s & 0xffffff)); g_acc = 0; fault().calls = 0; f(); count("costs-measured");
      if (g_acc > lim) fail("cost", "%s: %ld link accesses with %ld and %ld elements (height %ld), bound %ld", what, g_acc, na, nb, h, lim);
      if (fault().calls > clim) fail("calls", "%s: %ld comparisons with %ld and %ld elements (height %ld), bound %ld", what, fault().calls, na, nb, h, clim);
   }
   static constexpr long C = 60; static long lin(long m) { return 26 * m + 80; }
   long one() const { return 48 * h + 200 + (KIND == 4 ? 300 * (na + 1) : 0); } // one insertion or removal with its rebalancing
   long size_of() { static const long s[] = {0, 1, 2, 3, 7, 8, 40, 257, 1000, 2500}; return s[r.below(10)]; }
   void fill(L &l, long n) { // random or sorted order, few or many equal keys
      int mode = int(r.below(KIND == 2 || SPLAY ? 1 : 4)), range = r.chance(1, 4) ? 5 : 100000;
      for (long i = 0; i < n; ++i) { int v = mode == 1 ? int(i) : mode == 2 ? int(n - i) : int(r.below(range)); l.insert_equal(fresh(v)); } }
   void measure() { h = hof(a);
      if (KIND == 0) VF_REQ(h <= 2 * std::log2(double(na + 1)) + 1e-6, "height"); if (KIND == 1) VF_REQ(h <= 1.4405 * std::log2(double(na + 2)), "height"); if (KIND == 5) VF_REQ(h <= 6 * std::log2(double(na + 2)) + 20, "height"); }
   void reset() { used = 0; a.clear(); b.clear(); reset_fault(0); na = size_of(); nb = size_of(); fill(a, na); fill(b, nb); measure(); if (KIND == 4) VF_REQ(h <= 2 * std::log2(double(na + 1)) + 2, "height"); }
   It nth(L &l, long i) { It x = l.begin(); while (i--) ++x; return x; }
   long equals(int k) { long m = 0; for (N &x : a) m += x.v == k; return m; }
   void finish() { long n = 0; for (auto i = a.begin(); i != a.end(); ++i) ++n; VF_REQ(n == na, "cost-size"); a.clear(); b.clear(); }
   void step();
   void splay_sequences();
};
template <class L> void D<L>::step() {
   reset(); const L &ca = a; auto disp = [](N *n) { n->pa = n->le = n->ri = nullptr; };
   long i = na ? long(r.below(na)) : 0, j = na ? i + long(r.below(na - i + 1)) : 0; It p = nth(a, i), q = nth(a, j); int k = na && r.chance(2, 3) ? p->v : int(r.below(100000)); long m = equals(k);
   long sp = SPLAY ? 30 * h + 60 : 0; // a splay walks the whole path
   switch (r.below(27)) {
   case 0: cost("find", h + 1, 8 * h + C, [&] { (void)ca.find(k); }); break;
   case 1: cost("lower_bound", h, 8 * h + C, [&] { (void)ca.lower_bound(k); }); cost("upper_bound", h, 8 * h + C, [&] { (void)ca.upper_bound(k); }); break;
   case 2: cost("equal_range", 2 * h + 2, 16 * h + C, [&] { (void)ca.equal_range(k); }); cost("lower_bound_range", h + 2, 16 * h + C, [&] { (void)ca.lower_bound_range(k); }); break;
   case 3: cost("count", 2 * h + 2, 16 * h + lin(m), [&] { VF_REQ(long(ca.count(k)) == m, "cost-count"); }); break;
   case 4: { int k2 = k + int(r.below(1000)); cost("bounded_range", 2 * h + 3, 16 * h + C, [&] { (void)ca.bounded_range(k, k2, true, r.chance(1, 2)); }); } break;
   case 5: if (!SPLAY) { cost("insert_equal", h + 1, one(), [&] { a.insert_equal(fresh(k)); }); ++na; } break;
   case 6: if (!SPLAY) { cost("insert_unique", h + 1, one(), [&] { if (a.insert_unique(fresh(k)).second) ++na; }); } break;
   case 7: { typename L::insert_commit_data d; if (!SPLAY) { N &x = fresh(k); std::pair<It, bool> res; cost("insert_unique_check", h + 1, 8 * h + C, [&] { if constexpr (KIND == 5) res = a.insert_unique_check(k, x, d); else res = a.insert_unique_check(k, d); }); if (res.second) { cost("insert_unique_commit", 0, one(), [&] { a.insert_unique_commit(x, d); }); ++na; } } } break;
   case 8: { N &x = fresh(na ? p->v : 1); cost("insert_equal_hint", SPLAY ? 2 * h + 6 : 2, SPLAY ? one() + sp : one(), [&] { a.insert_equal(na ? CIt(p) : a.cend(), x); }); ++na; } break; // the hint is right
   case 9: { int kk = na ? a.rbegin()->v + 1 : 1; N &x = fresh(kk); cost("insert_unique_hint", SPLAY ? 2 * h + 6 : 2, SPLAY ? one() + sp : one(), [&] { a.insert_unique(a.cend(), x); }); ++na; } break;
   case 10: { N &x = fresh(na ? p->v : 1); cost("insert_before", 0, one() + sp, [&] { a.insert_before(na ? CIt(p) : a.cend(), x); }); ++na; } break;
   case 11: { N &x = fresh(na ? a.rbegin()->v : 1); cost("push_back", 0, one() + sp, [&] { a.push_back(x); }); ++na; N &y = fresh(a.begin()->v); h = hof(a); cost("push_front", 0, one() + sp + 40, [&] { a.push_front(y); }); ++na; } break;
   case 12: if (na) { cost("erase", 0, one() + sp, [&] { a.erase(CIt(p)); }); --na; } break;
   case 13: { long e = j - i; if (KIND != 4 && KIND != 3) { cost("erase_range", 0, 48 * h + 160 * e + 200, [&] { a.erase(CIt(p), CIt(q)); }); na -= e; } } break;
   case 14: if (KIND != 4 && !SPLAY) { cost("erase_key", 2 * h + 2, 64 * h + 160 * m + 200, [&] { VF_REQ(long(a.erase(k)) == m, "cost-erase"); }); na -= m; } break;
   case 15: { cost("iterate", 0, lin(na), [&] { for (auto &x : ca) (void)x; }); cost("iterate-backwards", 0, lin(na), [&] { for (auto x = ca.rbegin(); x != ca.rend(); ++x) (void)*x; });
      cost("begin-end-root-empty", 0, C, [&] { (void)a.begin(); (void)ca.cbegin(); (void)a.end(); (void)a.rbegin(); (void)a.root(); (void)ca.croot(); VF_REQ(ca.empty() == (na == 0), "cost-empty"); if (na) { (void)a.iterator_to(*p); (void)L::s_iterator_to(*p); } }); } break;
   case 16: cost("size", 0, CT ? 0 : lin(na), [&] { VF_REQ(long(ca.size()) == na, "cost-size"); }); break;
   case 17: cost("swap", 0, 80, [&] { a.swap(b); }); std::swap(na, nb); cost("move-construct", 0, 160, [&] { L t(std::move(a)); a = std::move(t); }); break;
   case 18: cost("clear", 0, SAFE ? lin(na) : C, [&] { a.clear(); }); na = 0; break;
   case 19: cost("clear_and_dispose", 0, lin(na), [&] { a.clear_and_dispose(disp); }); na = 0; break;
   case 20: { std::size_t was = used; cost("clone_from", 0, lin(na + nb) + 10 * nb, [&] { a.clone_from(b, [&](const N &x) { N &y = fresh(x.v); y.prio = x.prio; y.bal = x.bal; return &y; }, disp); }); VF_REQ(long(used - was) == nb, "clone-count"); na = nb; } break;
   case 21: if (!SPLAY && KIND != 4) { long H = std::max(h, hof(b)) + lg(na + nb) + (KIND == 2 ? nb : 8); bool u = r.chance(1, 2); long before = na + nb; cost(u ? "merge_unique" : "merge_equal", nb * (2 * H + 8), nb * (96 * H + 600) + 100, [&] { if (u) a.merge_unique(b); else a.merge_equal(b); });
      na = 0; for (auto x = a.begin(); x != a.end(); ++x) ++na; long rest = 0; for (auto x = b.begin(); x != b.end(); ++x) ++rest; VF_REQ(na + rest == before, "cost-merge"); } break;
   case 22: if (na) { cost("replace_node", 0, C, [&] { N &x = fresh(p->v); x.prio = p->prio; a.replace_node(p, x); }); } break;
   case 23: if constexpr (KIND == 2 || KIND == 3 || KIND == 4) if (na) { long s = 0; for (auto x = a.begin(); x != a.end(); ++x) ++s; if (r.chance(1, 2)) cost("rebalance", 0, 60 * na + 80, [&] { a.rebalance(); }); else { const N *root = &*p; std::vector<const N *> st{root}; s = 0; while (!st.empty()) { const N *x = st.back(); st.pop_back(); ++s; if (x->le) st.push_back(x->le); if (x->ri) st.push_back(x->ri); } cost("rebalance_subtree", 0, 60 * s + 80, [&] { a.rebalance_subtree(p); }); } h = hof(a); } break;
   case 24: { // removing everything from either end, or by iterator in random order: constant on average
      long tot = na; bool front = r.chance(1, 2); if (KIND == 4 || (KIND == 2 && !front)) break; cost(front ? "drain-front" : "drain-back", 0, (SPLAY ? 40 * lg(na) + 60 : 120) * na + 48 * h + 200, [&] { while (tot--) { if (front) a.erase(a.cbegin()); else a.erase(--a.cend()); } }); na = 0; } break;
   case 25: { // sorted range into an empty container: linear
      a.clear(); na = 0; long c = size_of(); std::vector<N> v(c); long x = 0; for (N &e : v) { x += long(r.below(3)) + 1; e.v = int(x); e.prio = int(r.next() & 0x3fffffff); } bool u = r.chance(1, 2); long per = KIND == 4 ? 60 * lg(c) + 100 : KIND == 3 ? 160 : 140;
      cost(u ? "insert_unique_range_sorted" : "insert_equal_range_sorted", SPLAY ? 6 * c : 2 * c, per * c + 100, [&] { if (u) a.insert_unique(v.begin(), v.end()); else a.insert_equal(v.begin(), v.end()); }); na = c; finish(); na = nb = 0; return; }
   default: if (na) { cost("unlink_leftmost", 0, 24 * na + 80, [&] { long t = na; while (t--) { N *x = a.unlink_leftmost_without_rebalance(); VF_REQ(x != nullptr, "cost-unlink"); x->pa = x->le = x->ri = nullptr; } }); na = 0; } break;
   }
   finish();
}
// a whole sequence of operations on a self-adjusting tree (or scapegoat tree): logarithmic on average
template <class L> void D<L>::splay_sequences() {
   used = 0; a.clear(); na = nb = 0; h = 0; reset_fault(0); long n = 200 + long(r.below(2500)); int pattern = int(r.below(6)); long ops = 0, lim = 0; (void)lim;
   op("sequence", n, pattern); g_acc = 0; fault().calls = 0;
   std::vector<int> keys(n); for (long i = 0; i < n; ++i) keys[i] = int(i); if (pattern & 1) r.shuffle(keys); else if (pattern == 4) std::reverse(keys.begin(), keys.end());
   for (int k : keys) { a.insert_equal(fresh(k)); ++ops; }
   if (KIND == 4 && g_acc > n * (45 * lg(n) + 60)) fail("cost", "inserting %ld elements in pattern %d: %ld link accesses, bound %ld", n, pattern, g_acc, n * (45 * lg(n) + 60));
   if constexpr (SPLAY) { // one kind of lookup only
      int what = int(r.below(7)); long o0 = 0; g_acc = 0; fault().calls = 0; op("lookups", what); bool found = true;
      for (int t = r.range(1, 2); t; --t, r.chance(1, 2) ? r.shuffle(keys) : (void)0) for (int k : keys) { ++o0;
         switch (what) {
         case 0: found = a.lower_bound(k)->v == k; break;
         case 1: found = (--a.upper_bound(k))->v == k; break;
         case 2: found = a.equal_range(k).first->v == k; break;
         case 3: found = a.lower_bound_range(k).first->v == k; break;
         case 4: found = a.count(k) == 1; break;
         case 5: found = a.bounded_range(k, k, true, true).first->v == k; break;
         default: found = a.find(k)->v == k; break;
         }
         VF_REQ(found, "cost-lookup"); }
      long l = lg(n), clim = (o0 + n) * (6 * l + 12), alim = (o0 + n) * (40 * l + 100);
      if (fault().calls > clim || g_acc > alim) fail("cost", "%ld lookups of kind %d on %ld elements (pattern %d): %ld comparisons (bound %ld), %ld link accesses (bound %ld)", o0, what, n, pattern, fault().calls, clim, g_acc, alim);
      g_acc = 0; fault().calls = 0; ops = n;
   }
   int rounds = r.range(1, 3); for (int t = 0; t < rounds; ++t) { if (pattern >= 2) r.shuffle(keys); for (int k : keys) { VF_REQ(a.find(k) != a.end() && a.find(k)->v == k, "cost-find"); ops += 2; if constexpr (SPLAY) if (r.chance(1, 4)) { a.lower_bound(k); a.upper_bound(k); ops += 2; } } }
   if (r.chance(1, 2)) { long half = n / 2; for (long i = 0; i < half; ++i) { a.erase(keys[i]); ++ops; } na = n - half; } else na = n;
   long l = lg(n); count("sequence-operations", ops);
   long clim = ops * (SPLAY ? 4 * l + 8 : 3 * l + 8), alim = ops * (SPLAY ? 40 * l + 100 : 60 * l + 300);
   if (fault().calls > clim) fail("calls", "sequence of %ld operations on %ld elements: %ld comparisons, bound %ld", ops, n, fault().calls, clim);
   if (g_acc > alim) fail("cost", "sequence of %ld operations on %ld elements: %ld link accesses, bound %ld", ops, n, g_acc, alim);
   finish();
}
int main(int argc, char **argv) {
   static const char *nm[] = {"rbtree", "avltree", "bstree", "splaytree", "sgtree", "treap"};
   static std::string s = std::string(nm[KIND]) + (CT ? " ct-size" : "") + (SAFE ? " safe links" : " normal links") + " cost";
   return vf::main_loop(argc, argv, s.c_str(), 500, 5000, [](Rng &r) { D<L> d(r); int n = r.range(3, 5); for (int i = 0; i < n; ++i) d.step(); if (KIND >= 3 && r.chance(1, 3)) d.splay_sequences(); });
}
