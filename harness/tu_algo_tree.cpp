// Tree node algorithms on user-defined nodes and traits.  CFG: kind (0 rb 1 avl 2 bs 3 splay 4 sg 5 treap) + 6 * pointer kind.
#include "common.hpp"
#include "relptr.hpp"
#include <boost/intrusive/bstree_algorithms.hpp>
#include <boost/intrusive/rbtree_algorithms.hpp>
#include <boost/intrusive/avltree_algorithms.hpp>
#include <boost/intrusive/splaytree_algorithms.hpp>
#include <boost/intrusive/sgtree_algorithms.hpp>
#include <boost/intrusive/treap_algorithms.hpp>
#include <cmath>
namespace bi = boost::intrusive;
#ifndef CFG
#define CFG 0
#endif
#define KIND (CFG % 6)
#define PK (CFG / 6)
using namespace vf;
struct N;
#if PK == 0
typedef N *NP; typedef const N *CNP;
#else
typedef rel_ptr<N> NP; typedef rel_ptr<const N> CNP;
#endif
struct N { long guard; int bal; NP pa, le, ri; int id, key, prio; };
static long g_acc;
struct Tr {
   typedef N node; typedef NP node_ptr; typedef CNP const_node_ptr;
   static node_ptr get_parent(const_node_ptr n) { ++g_acc; return n->pa; }
   static void set_parent(node_ptr n, node_ptr x) { ++g_acc; n->pa = x; }
   static node_ptr get_left(const_node_ptr n) { ++g_acc; return n->le; }
   static void set_left(node_ptr n, node_ptr x) { ++g_acc; n->le = x; }
   static node_ptr get_right(const_node_ptr n) { ++g_acc; return n->ri; }
   static void set_right(node_ptr n, node_ptr x) { ++g_acc; n->ri = x; }
   typedef int color; typedef int balance;
   static color get_color(const_node_ptr n) { return n->bal; }
   static void set_color(node_ptr n, color c) { n->bal = c; }
   static color black() { return 11; } static color red() { return 22; }
   static balance get_balance(const_node_ptr n) { return n->bal; }
   static void set_balance(node_ptr n, balance b) { n->bal = b; }
   static balance negative() { return -1; } static balance zero() { return 0; } static balance positive() { return 1; }
};
#if KIND == 0
typedef bi::rbtree_algorithms<Tr> A;
#define NAME "rbtree_algorithms"
#elif KIND == 1
typedef bi::avltree_algorithms<Tr> A;
#define NAME "avltree_algorithms"
#elif KIND == 2
typedef bi::bstree_algorithms<Tr> A;
#define NAME "bstree_algorithms"
#elif KIND == 3
typedef bi::splaytree_algorithms<Tr> A;
#define NAME "splaytree_algorithms"
#elif KIND == 4
typedef bi::sgtree_algorithms<Tr> A;
#define NAME "sgtree_algorithms"
#else
typedef bi::treap_algorithms<Tr> A;
#define NAME "treap_algorithms"
#endif
typedef std::vector<int> Seq;
struct Cmp { bool operator()(const CNP &a, const CNP &b) const { tick(); return a->key < b->key; }
   bool operator()(int a, const CNP &b) const { tick(); return a < b->key; } bool operator()(const CNP &a, int b) const { tick(); return a->key < b; } };
struct PCmp { bool operator()(const CNP &a, const CNP &b) const { tick(); return a->prio < b->prio; } };
struct HAlpha { std::size_t operator()(std::size_t n) const { return std::size_t(std::floor(std::log2(double(n)) / 0.5 + 1e-9)); } };
struct AlphaMax { double operator()(std::size_t n) const { return double(n) * 0.70710678; } };
#if KIND == 5
#define PC , PCmp()
#else
#define PC
#endif
#define SGI(t) , t.seq.size(), HAlpha(), t.maxsz
struct Row { N *p, *l, *r; int b; bool operator==(const Row &o) const { return p == o.p && l == o.l && r == o.r && b == o.b; } };
struct T { int h; Seq seq; std::size_t maxsz; };
struct D {
   std::vector<std::unique_ptr<N>> n; T t[2]; Seq loose; Rng *r = nullptr; std::vector<Row> snap; int H0 = 0;
   std::map<const N *, int> ids;
   NP p(int i) { return NP(n[i].get()); }
   CNP cp(int i) { return CNP(n[i].get()); }
   static N *rw(const NP &x) { return x ? &*x : nullptr; }
   int idof(const NP &x) { if (!x) return -1; auto f = ids.find(&*x); if (f == ids.end()) fail("bad-link", "%s: a link leads to no node", M().phase); return f->second; }
   Row row(int i) { return Row{rw(n[i]->pa), rw(n[i]->le), rw(n[i]->ri), n[i]->bal}; }
   int height; long nodes;
   int sub(N *x, N *parent, Seq &out, int depth) { // returns height / black height for rb
      if (!x) return 0;
      if (++nodes > long(n.size())) fail("cycle", "%s: the links form a cycle", M().phase);
      VF_REQ(rw(x->pa) == parent, "parent-link"); height = std::max(height, depth);
      int a = sub(rw(x->le), x, out, depth + 1); out.push_back(idof(NP(x))); int b = sub(rw(x->ri), x, out, depth + 1);
      if (KIND == 0) { VF_REQ(x->bal == Tr::black() || x->bal == Tr::red(), "color"); VF_REQ(a == b, "rb-black-height");
         if (x->bal == Tr::red()) VF_REQ((!x->le || x->le->bal == Tr::black()) && (!x->ri || x->ri->bal == Tr::black()), "rb-red-red"); return a + (x->bal == Tr::black()); }
      if (KIND == 1) { VF_REQ(b - a == x->bal, "avl-balance"); }
      if (KIND == 5) VF_REQ((!x->le || x->le->prio >= x->prio) && (!x->ri || x->ri->prio >= x->prio), "treap-heap");
      return std::max(a, b) + 1;
   }
   void check_tree(T &x) {
      N *h = n[x.h].get(), *root = rw(h->pa); Seq got; height = 0; nodes = 0; sub(root, h, got, 1);
      if (got != x.seq) fail("inorder", "%s: in-order nodes {%s}, expected {%s}", M().phase, show(got).c_str(), show(x.seq).c_str());
      VF_REQ(idof(h->le) == (x.seq.empty() ? x.h : x.seq.front()), "header-leftmost"); VF_REQ(idof(h->ri) == (x.seq.empty() ? x.h : x.seq.back()), "header-rightmost");
      if (KIND == 0 && root) VF_REQ(root->bal == Tr::black(), "rb-root");
      if (KIND == 4 && x.seq.size() > 2) VF_REQ(height - 1 <= int(HAlpha()(x.maxsz)) + 1, "sg-height");
      digest(hash_ids(got, std::uint64_t(height) * 31 + KIND));
   }
   void check() { for (T &x : t) check_tree(x); for (int i : loose) VF_REQ(row(i) == snap[i], "uninvolved-node-changed"); for (auto &u : n) VF_REQ(u->guard == 0x5a5a5a5aL, "node-payload-changed"); count("structures-compared"); }
   void to_loose(int i) { loose.push_back(i); snap[i] = row(i); }
   int take() { std::size_t k = r->below(loose.size()); int x = loose[k]; loose.erase(loose.begin() + k); return x; }
   void bound(const char *what, long lim) { if (PROP == 20 && g_acc > lim) fail("cost", "%s: %ld link accesses, bound %ld", what, g_acc, lim); }
   std::vector<Row> all() { std::vector<Row> v; for (std::size_t i = 0; i < n.size(); ++i) v.push_back(row(int(i))); return v; }
   void expect_relabel(const std::vector<Row> &before, const std::map<N *, N *> &m, const std::vector<int> &skip) { // everything as before with nodes renamed
      auto f = [&](N *q) { auto i = m.find(q); return i == m.end() ? q : i->second; };
      for (std::size_t i = 0; i < n.size(); ++i) {
         if (std::find(skip.begin(), skip.end(), int(i)) != skip.end() || std::find(loose.begin(), loose.end(), int(i)) != loose.end()) continue;
         int dst = ids[f(n[i].get())]; Row e{f(before[i].p), f(before[i].l), f(before[i].r), before[i].b}, g = row(dst);
         if (int(i) >= H0) e.b = g.b;
         if (!(g == e)) fail("position", "%s: node %d does not have the links and balance node %d's position had", M().phase, dst, int(i));
      }
   }
   // model positions
   std::size_t lb(const Seq &s, int k) { std::size_t i = 0; while (i < s.size() && n[s[i]]->key < k) ++i; return i; }
   std::size_t ub(const Seq &s, int k) { std::size_t i = 0; while (i < s.size() && n[s[i]]->key <= k) ++i; return i; }
   std::size_t pos(const Seq &s, int id) { return std::find(s.begin(), s.end(), id) - s.begin(); }
   int at(const T &x, std::size_t i) { return i < x.seq.size() ? x.seq[i] : x.h; }
   void opr(const char *o, long a = -1, long b = -1, long c = -1, long d = -1) { vf::op(o, a, b, c, d); g_acc = 0; fault().calls = 0; }
   void run(Rng &rr) {
      r = &rr; n.clear(); loose.clear(); ids.clear();
      int total = r->range(1, 26); H0 = total;
      for (int i = 0; i < total + 2; ++i) { n.emplace_back(new N()); N *x = n.back().get(); x->guard = 0x5a5a5a5aL; x->id = i; x->key = r->range(0, 12); x->prio = r->range(0, 9); x->bal = KIND == 0 ? Tr::red() : 0; x->pa = x->le = x->ri = NP(); ids[x] = i; }
      snap.resize(n.size()); for (int i = 0; i < total; ++i) to_loose(i);
      for (int i = 0; i < 2; ++i) { t[i] = T{total + i, {}, 0}; A::init_header(p(total + i)); VF_REQ(A::unique(cp(total + i)), "unique-header"); }
      reset_fault(0); int ops = r->range(5, 70); int fill = r->range(0, 3);
      for (int o = 0; o < ops; ++o) { step(fill); check(); }
      n.clear();
   }
   void erased(T &x, int id) { x.seq.erase(x.seq.begin() + pos(x.seq, id)); to_loose(id); }
   void step(int fill) {
      T &x = t[r->below(2)], &y = &x == &t[0] ? t[1] : t[0]; Seq &s = x.seq; NP h = p(x.h); CNP ch = cp(x.h);
      if (!loose.empty() && (s.empty() || r->chance(fill + 1, 8))) { insert(x); return; }
      if (s.empty()) return;
      std::size_t i = r->below(s.size()), j = r->below(s.size()); int a = s[i]; std::size_t before_n = s.size(); (void)before_n;
      switch (r->below(20)) {
      case 0: case 1: {
         bool ul = KIND != 4 && r->chance(1, 2); opr(ul ? "unlink" : "erase", a, long(s.size()));
         if (KIND == 5) reset_fault(0);
#if KIND == 4
         A::erase(h, p(a), s.size(), x.maxsz, AlphaMax());
#elif KIND == 5
         if (ul) A::unlink(p(a), PCmp()); else A::erase(h, p(a), PCmp());
#else
         if (ul) A::unlink(p(a)); else A::erase(h, p(a));
#endif
         erased(x, a); } break;
      case 2: case 3: case 4: { // swap two nodes of the same or of different trees
         bool two = r->chance(1, 3) && !y.seq.empty(); T &z = two ? y : x; if (two) j = r->below(y.seq.size());
         else if (r->chance(1, 2)) { N *q = n[a].get(); N *c[3] = {rw(q->pa), rw(q->le), rw(q->ri)}; for (int tr = 0; tr < 3; ++tr) { N *w = c[(tr + i) % 3]; if (w && ids[w] < H0) { j = pos(s, ids[w]); break; } } if (r->chance(1, 4) && rw(q->pa)) { N *w = rw(q->pa), *sb = rw(w->le) == q ? rw(w->ri) : rw(w->le); if (sb && ids[w] < H0) j = pos(s, ids[sb]); } }
         int b = z.seq[j]; std::vector<Row> bef = all(); bool hdr = r->chance(1, 2); opr(hdr ? "swap_nodes_headers" : "swap_nodes", a, b, two, long(s.size()));
         if (hdr) A::swap_nodes(p(a), h, p(b), p(z.h)); else A::swap_nodes(p(a), p(b));
         if (hdr) bound("swap_nodes", 100);
         expect_relabel(bef, {{n[a].get(), n[b].get()}, {n[b].get(), n[a].get()}}, {});
         std::swap(n[a]->key, n[b]->key); std::swap(n[a]->prio, n[b]->prio); std::swap(x.seq[i], z.seq[j]); } break;
      case 5: case 6: if (!loose.empty()) { int b = take(); n[b]->key = n[a]->key; n[b]->prio = n[a]->prio; std::vector<Row> bef = all(); bool hdr = r->chance(1, 2); opr(hdr ? "replace_node_header" : "replace_node", a, b, long(s.size()));
         if (hdr) A::replace_node(p(a), h, p(b)); else A::replace_node(p(a), p(b));
         if (hdr) bound("replace_node", 60);
         expect_relabel(bef, {{n[a].get(), n[b].get()}}, {b}); s[i] = b; to_loose(a); } break;
      case 7: { opr("swap_tree", long(x.seq.size()), long(y.seq.size())); std::vector<Row> bef = all(); bool self = r->chance(1, 8);
         A::swap_tree(h, self ? h : p(y.h)); bound("swap_tree", 60);
         if (!self) { std::swap(x.seq, y.seq); std::swap(x.maxsz, y.maxsz); for (int k = 0; k < H0; ++k) { Row g = row(k), e = bef[k]; VF_REQ(g.l == e.l && g.r == e.r && g.b == e.b, "swap_tree-node-changed"); } } } break;
      case 8: case 9: search(x); break;
      case 10: { // walks
         opr("walk", long(s.size())); NP q = A::begin_node(ch);
         for (std::size_t k = 0; k < s.size(); ++k) { VF_REQ(idof(q) == s[k], "next_node"); q = A::next_node(q); }
         VF_REQ(idof(q) == x.h && idof(A::end_node(ch)) == x.h, "next_node-end"); bound("walk", 12 * long(s.size()) + 40);
         for (std::size_t k = s.size(); k--;) { q = A::prev_node(q); VF_REQ(idof(q) == s[k], "prev_node"); }
         VF_REQ(A::size(ch) == s.size(), "size"); VF_REQ(idof(A::root_node(ch)) == idof(n[x.h]->pa), "root_node"); VF_REQ(idof(A::get_header(ch)) == x.h, "get_header"); VF_REQ(A::is_header(ch), "is_header"); VF_REQ(!A::unique(ch), "unique");
         for (int e : s) { VF_REQ(idof(A::get_header(cp(e))) == x.h, "get_header"); VF_REQ(!A::is_header(cp(e)), "is_header"); VF_REQ(!A::unique(cp(e)) && !A::inited(cp(e)), "unique");
            int d = 0; for (N *w = rw(n[e]->pa); ids[w] != x.h; w = rw(w->pa)) ++d; VF_REQ(A::depth(cp(e)) == std::size_t(d), "depth"); }
         Seq st; height = 0; nodes = 0; sub(n[a].get(), rw(n[a]->pa), st, 1); VF_REQ(idof(A::minimum(p(a))) == st.front() && idof(A::maximum(p(a))) == st.back(), "minimum");
         if (y.seq.empty()) { CNP ye = cp(y.h); VF_REQ(A::is_header(ye) && A::unique(ye) && idof(A::root_node(ye)) == y.h && idof(A::begin_node(ye)) == y.h && A::size(ye) == 0 && idof(A::get_header(ye)) == y.h, "empty-header"); }
         if (!loose.empty()) { int l = loose[r->below(loose.size())]; A::init(p(l)); VF_REQ(A::inited(cp(l)) && A::unique(cp(l)), "init"); snap[l] = row(l); }
         count("walks"); } break;
      case 11: { // clone x over y
         if (y.seq.empty() && r->chance(1, 3)) { opr("clone_empty", long(s.size())); Seq got; A::clone(cp(y.h), h, [&](const NP &q) -> NP { fail("clone-empty", "cloner called for an empty source"); return q; }, [&](const NP &q) { got.push_back(idof(q)); q->pa = q->le = q->ri = NP(); }); Seq w(s); std::sort(w.begin(), w.end()); std::sort(got.begin(), got.end()); VF_REQ(w == got, "clone-clears"); for (int e : s) to_loose(e); s.clear(); x.maxsz = y.maxsz; count("clones-of-empty"); break; }
         if (s.size() > loose.size() + y.seq.size()) break;
         Seq avail(loose), made, disposed; long budget = r->chance(1, 3) ? long(r->below(s.size() + 1)) : -1; long calls = 0; std::map<int, int> of; std::size_t oldn = y.seq.size(); Seq old = y.seq;
         opr("clone", long(s.size()), long(oldn), budget); std::vector<Row> bef = all(); bool thrown = false;
         auto disp = [&](const NP &q) { int id = idof(q); VF_REQ(std::find(disposed.begin(), disposed.end(), id) == disposed.end() || true, "x"); disposed.push_back(id); avail.push_back(id); n[id]->pa = n[id]->le = n[id]->ri = NP(); };
         auto cl = [&](const NP &q) -> NP { if (calls++ == budget) throw Thrown{1}; int id = avail.back(); avail.pop_back(); int from = idof(q); n[id]->key = n[from]->key; n[id]->prio = n[from]->prio; n[id]->bal = KIND == 0 ? Tr::red() : 0; VF_REQ(!of.count(from), "cloned-twice"); of[from] = id; made.push_back(id); return p(id); };
         // clones come from loose nodes first (those disposed during a rollback may come back)
         try { A::clone(ch, p(y.h), cl, disp); } catch (const Thrown &) { thrown = true; }
         VF_REQ(disposed.size() >= oldn, "clone-clears"); { Seq d1(disposed.begin(), disposed.begin() + oldn), o(old); std::sort(d1.begin(), d1.end()); std::sort(o.begin(), o.end()); VF_REQ(d1 == o, "clone-clears"); }
         for (int e : s) VF_REQ(row(e) == bef[e], "clone-source-changed");
         if (thrown) { Seq d2(disposed.begin() + oldn, disposed.end()); std::sort(d2.begin(), d2.end()); std::sort(made.begin(), made.end()); VF_REQ(d2 == made, "clone-rollback"); y.seq.clear(); count("clone-rollbacks"); }
         else { VF_REQ(disposed.size() == oldn, "clone-disposes"); y.seq.clear(); for (int e : s) y.seq.push_back(of[e]); 
            for (int e : s) { auto mp = [&](N *q) -> N * { return !q ? nullptr : ids[q] == x.h ? n[y.h].get() : n[of[ids[q]]].get(); }; Row g = row(of[e]), w = row(e); if (KIND <= 1) VF_REQ(g.b == w.b, "clone-balance"); VF_REQ(g.p == mp(w.p) && g.l == mp(w.l) && g.r == mp(w.r), "clone-shape"); } }
         y.maxsz = x.maxsz; loose.clear(); for (int id = 0; id < H0; ++id) if (pos(t[0].seq, id) == t[0].seq.size() && pos(t[1].seq, id) == t[1].seq.size()) to_loose(id); } break;
      case 12: { Seq got; if (r->chance(1, 2)) { opr("clear_and_dispose", long(s.size())); A::clear_and_dispose(h, [&](const NP &q) { got.push_back(idof(q)); q->pa = q->le = q->ri = NP(); }); Seq w(s); std::sort(w.begin(), w.end()); std::sort(got.begin(), got.end()); VF_REQ(w == got, "clear_and_dispose"); bound("clear_and_dispose", 24 * long(s.size()) + 20); }
         else { opr("unlink_leftmost", long(s.size())); for (;;) { NP q = A::unlink_leftmost_without_rebalance(h); if (!q) break; got.push_back(idof(q)); q->pa = q->le = q->ri = NP(); if (got.size() > s.size()) break; } VF_REQ(got == s, "unlink_leftmost"); bound("unlink_leftmost", 24 * long(s.size()) + 20); }
         for (int e : s) to_loose(e); s.clear(); x.maxsz = 0; } break;
      case 13: case 14:
#if KIND == 2 || KIND == 3 || KIND == 4
      { bool whole = r->chance(1, 3); Seq st; int root = whole ? idof(n[x.h]->pa) : a; std::vector<Row> bef = all(); N *par = rw(n[root]->pa); nodes = 0; height = 0; sub(n[root].get(), par, st, 1);
         opr(whole ? "rebalance" : "rebalance_subtree", root, long(st.size()), long(s.size()));
         NP nr; if (whole) { A::rebalance(h); nr = n[x.h]->pa; } else nr = A::rebalance_subtree(p(root)); bound("rebalance", 60 * long(st.size()) + 60);
         VF_REQ(rw(nr) && rw(nr->pa) == par, "rebalance-root"); Seq st2; nodes = 0; height = 0; sub(rw(nr), par, st2, 1); VF_REQ(st == st2, "rebalance-order");
         int min_h = 0; for (std::size_t m = st.size(); m; m >>= 1) ++min_h; VF_REQ(height == min_h, "rebalance-height");
         for (int e : s) if (std::find(st.begin(), st.end(), e) == st.end()) { Row g = row(e), w = bef[e]; if (n[e].get() == par) { VF_REQ(g.p == w.p && (w.l == n[root].get() ? g.l == rw(nr) : g.l == w.l) && (w.r == n[root].get() ? g.r == rw(nr) : g.r == w.r), "rebalance-parent"); } else VF_REQ(g == w, "rebalance-outside"); } }
#endif
      break;
      case 15: case 16: { // transfer a from x to y
         bool uni = r->chance(1, 2); opr(uni ? "transfer_unique" : "transfer_equal", a, long(s.size()), long(y.seq.size())); int k = n[a]->key; bool dup = lb(y.seq, k) != ub(y.seq, k), moved = true;
#if KIND == 4
         if (uni) moved = A::transfer_unique(p(y.h), Cmp(), y.seq.size(), y.maxsz, h, p(a), s.size(), x.maxsz, HAlpha(), AlphaMax());
         else A::transfer_equal(p(y.h), Cmp(), y.seq.size(), y.maxsz, h, p(a), s.size(), x.maxsz, HAlpha(), AlphaMax());
#elif KIND == 5
         if (uni) moved = A::transfer_unique(p(y.h), Cmp(), PCmp(), h, p(a)); else A::transfer_equal(p(y.h), Cmp(), PCmp(), h, p(a));
#else
         if (uni) moved = A::transfer_unique(p(y.h), Cmp(), h, p(a)); else A::transfer_equal(p(y.h), Cmp(), h, p(a));
#endif
         VF_REQ(moved == (!uni || !dup), "transfer-result"); if (moved) { s.erase(s.begin() + i); y.seq.insert(y.seq.begin() + ub(y.seq, k), a); } } break;
      case 17: case 18:
#if KIND == 3
      { if (r->chance(1, 2)) { bool hd = r->chance(1, 8); opr("splay_up", hd ? x.h : a); A::splay_up(hd ? h : p(a), h); VF_REQ(idof(n[x.h]->pa) == (hd ? s.back() : a), "splay_up-root"); }
         else { int k = r->range(-1, 13); bool f = false; bool ex = lb(s, k) != ub(s, k); opr("splay_down", k); NP q = A::splay_down(h, k, Cmp(), &f); VF_REQ(f == ex, "splay_down-found"); VF_REQ(idof(q) == idof(n[x.h]->pa), "splay_down-root"); if (ex) VF_REQ(n[idof(q)]->key == k, "splay_down-key"); } }
#endif
      break;
      default: insert(x); break;
      }
   }
   void search(T &x) {
      Seq &s = x.seq; int k = r->range(-1, 13), k2 = k + r->range(0, 4); std::size_t l = lb(s, k), u = ub(s, k); bool lc = r->chance(1, 2), rc = r->chance(1, 2); if (k == k2 && !lc && !rc) lc = true;
      std::size_t bf = lc ? lb(s, k) : ub(s, k), bl = rc ? ub(s, k2) : lb(s, k2);
      auto body = [&](auto h) {
         VF_REQ(idof(A::find(h, k, Cmp())) == (l == u ? x.h : at(x, l)), "find"); VF_REQ(idof(A::lower_bound(h, k, Cmp())) == at(x, l), "lower_bound"); VF_REQ(idof(A::upper_bound(h, k, Cmp())) == at(x, u), "upper_bound");
         auto e = A::equal_range(h, k, Cmp()); VF_REQ(idof(e.first) == at(x, l) && idof(e.second) == at(x, u), "equal_range");
         auto lr = A::lower_bound_range(h, k, Cmp()); VF_REQ(idof(lr.first) == at(x, l) && idof(lr.second) == at(x, l == u ? l : l + 1), "lower_bound_range");
         VF_REQ(A::count(h, k, Cmp()) == u - l, "count");
         auto b = A::bounded_range(h, k, k2, Cmp(), lc, rc); if (bf <= bl) VF_REQ(idof(b.first) == at(x, bf) && idof(b.second) == at(x, bl), "bounded_range"); };
      if (KIND == 3 && r->chance(1, 2)) { opr("search_mutable", k, long(s.size())); body(p(x.h)); }
      else { opr("search", k, long(s.size())); std::vector<Row> bef = all(); body(cp(x.h)); std::vector<Row> aft = all(); VF_REQ(bef == aft, "search-wrote"); }
   }
   void insert(T &x) {
      if (loose.empty()) return; Seq &s = x.seq; int b = take(); int k = r->range(0, 12); N *nb = n[b].get(); nb->key = k; nb->prio = r->range(0, 9); NP h = p(x.h); std::size_t exp = std::size_t(-1); std::vector<Row> bef = all(); NP ret; std::size_t hint = r->below(s.size() + 1);
      int v = int(r->below(9));
#if KIND == 4
#define X(...) __VA_ARGS__ SGI(x)
#elif KIND == 5
#define X(...) __VA_ARGS__ , PCmp()
#else
#define X(...) __VA_ARGS__
#endif
      bool ins = true;
      switch (v) {
      case 0: case 1: opr("insert_equal_upper_bound", b, k, long(s.size())); exp = ub(s, k); ret = A::insert_equal_upper_bound(X(h, p(b), Cmp())); break;
      case 2: opr("insert_equal_lower_bound", b, k, long(s.size())); exp = lb(s, k); ret = A::insert_equal_lower_bound(X(h, p(b), Cmp())); break;
      case 3: case 4: { if (r->chance(1, 2)) { k = hint < s.size() ? n[s[hint]]->key : s.empty() ? 5 : n[s.back()]->key; nb->key = k; } bool ok = (hint == s.size() || k <= n[s[hint]]->key) && (hint == 0 || n[s[hint - 1]]->key <= k);
         opr("insert_equal_hint", b, k, long(hint), long(s.size())); if (ok) exp = hint; ret = A::insert_equal(X(h, p(at(x, hint)), p(b), Cmp())); if (ok && PROP == 20) VF_REQ(fault().calls <= 2 || KIND == 3 || KIND == 5, "hint-comparisons"); } break;
      case 5: case 6: { A::insert_commit_data cd; bool hh = v == 6; opr(hh ? "insert_unique_check_hint" : "insert_unique_check", b, k, long(hint), long(s.size())); std::size_t l = lb(s, k); bool dup = l != ub(s, k); std::vector<Row> b2 = all();
#if KIND == 5
         struct PK_ { int v; }; auto pc = [&](const CNP &a, const CNP &c) { tick(); return a->prio < c->prio; };
         std::pair<NP, bool> q = hh ? A::insert_unique_check(cp(x.h), p(at(x, hint)), k, Cmp(), cp(b), pc, cd) : A::insert_unique_check(cp(x.h), k, Cmp(), cp(b), pc, cd);
#elif KIND == 3
         std::pair<NP, bool> q = hh ? A::insert_unique_check(h, p(at(x, hint)), k, Cmp(), cd) : A::insert_unique_check(h, k, Cmp(), cd);
#else
         std::pair<NP, bool> q = hh ? A::insert_unique_check(cp(x.h), p(at(x, hint)), k, Cmp(), cd) : A::insert_unique_check(cp(x.h), k, Cmp(), cd);
#endif
         VF_REQ(q.second == !dup, "insert-check"); if (KIND != 3) { std::vector<Row> b3 = all(); VF_REQ(b2 == b3, "insert-check-wrote"); }
         if (dup) { VF_REQ(idof(q.first) >= 0 && idof(q.first) < H0 && n[idof(q.first)]->key == k, "insert-check-equivalent"); ins = false; break; }
         fault().forbid = true; g_acc = 0;
#if KIND == 4
         A::insert_unique_commit(h, p(b), cd SGI(x));
#else
         A::insert_unique_commit(h, p(b), cd);
         if (KIND == 1 || KIND == 0 || KIND == 2) bound("insert_unique_commit", 40 * long(std::log2(double(s.size() + 2))) + 60);
#endif
         fault().forbid = false; exp = l; ret = p(b); } break;
      case 7: { nb->key = hint < s.size() ? n[s[hint]]->key : s.empty() ? k : n[s.back()]->key + (r->chance(1, 2)); if (nb->key > 12) nb->key = 12; if (hint == s.size() && !s.empty() && nb->key < n[s.back()]->key) nb->key = n[s.back()]->key;
         opr("insert_before", b, long(hint), long(s.size())); exp = hint; ret = A::insert_before(X(h, p(at(x, hint)), p(b))); } break;
      default: { bool back = r->chance(1, 2); nb->key = s.empty() ? k : back ? n[s.back()]->key : n[s.front()]->key; opr(back ? "push_back" : "push_front", b, long(s.size())); exp = back ? s.size() : 0; if (back) A::push_back(X(h, p(b))); else A::push_front(X(h, p(b))); ret = p(b); if (KIND == 3) VF_REQ(idof(n[x.h]->pa) == b, "push-splays"); } break;
      }
#undef X
      if (!ins) { to_loose(b); return; }
      VF_REQ(idof(ret) == b, "insert-result");
      if (KIND == 3 && v == 7) VF_REQ(idof(n[x.h]->pa) == b, "insert_before-splays");
      if (exp == std::size_t(-1)) { // hint not usable: anywhere in order, near the equals
         Seq got; nodes = 0; height = 0; sub(rw(n[x.h]->pa), n[x.h].get(), got, 1); exp = pos(got, b); VF_REQ(exp < got.size(), "insert-lost"); VF_REQ(exp >= lb(s, nb->key) && exp <= ub(s, nb->key), "insert-order");
         if (hint < lb(s, nb->key)) VF_REQ(exp == lb(s, nb->key), "hint-nearest"); else if (hint > ub(s, nb->key)) VF_REQ(exp == ub(s, nb->key), "hint-nearest");
      }
      s.insert(s.begin() + exp, b);
      if (KIND == 2) { // plain binary tree: a new leaf, nothing else moves
         N *par = rw(nb->pa); VF_REQ(!nb->le && !nb->ri, "bst-leaf");
         for (int e = 0; e < H0; ++e) { if (e == b) continue; Row g = row(e), w = bef[e]; if (n[e].get() == par) VF_REQ(g.p == w.p && ((g.l == nb && !w.l && g.r == w.r) || (g.r == nb && !w.r && g.l == w.l)), "bst-parent"); else VF_REQ(g == w, "bst-insert-moved"); }
      }
   }
};
int main(int argc, char **argv) {
   return vf::main_loop(argc, argv, PK ? NAME " relative pointers" : NAME " raw pointers", 1000, 20000, [](vf::Rng &r) { D d; d.run(r); });
}
