// Node algorithms of lists on user-defined nodes and traits.  CFG: shape (0 circular list, 1 circular slist, 2 linear slist) + 3 * pointer kind.
#include "common.hpp"
#include "relptr.hpp"
#include <boost/intrusive/circular_list_algorithms.hpp>
#include <boost/intrusive/circular_slist_algorithms.hpp>
#include <boost/intrusive/linear_slist_algorithms.hpp>
namespace bi = boost::intrusive;
#ifndef CFG
#define CFG 0
#endif
#define SHAPE (CFG % 3)
#define PK (CFG / 3)
using namespace vf;
struct N;
#if PK == 0
typedef N *NP; typedef const N *CNP;
#else
typedef rel_ptr<N> NP; typedef rel_ptr<const N> CNP;
#endif
struct N { long guard; NP nx, pv; int id; };
static long g_reads, g_writes;
static void opr(const char *o, long a = -1, long b = -1, long c = -1, long d = -1) { vf::op(o, a, b, c, d); g_reads = g_writes = 0; }
struct Tr {
   typedef N node; typedef NP node_ptr; typedef CNP const_node_ptr;
   static node_ptr get_next(const_node_ptr n) { ++g_reads; return n->nx; }
   static void set_next(node_ptr n, node_ptr x) { ++g_writes; n->nx = x; }
   static node_ptr get_previous(const_node_ptr n) { ++g_reads; return n->pv; }
   static void set_previous(node_ptr n, node_ptr x) { ++g_writes; n->pv = x; }
};
#if SHAPE == 0
typedef bi::circular_list_algorithms<Tr> A;
#define NAME "circular_list_algorithms"
#elif SHAPE == 1
typedef bi::circular_slist_algorithms<Tr> A;
#define NAME "circular_slist_algorithms"
#else
typedef bi::linear_slist_algorithms<Tr> A;
#define NAME "linear_slist_algorithms"
#endif
static const bool DBL = SHAPE == 0, CIRC = SHAPE != 2;
typedef std::vector<int> Seq;
struct D {
   std::vector<std::unique_ptr<N>> n; std::vector<Seq> g; // groups: rings (cyclic) or chains (first node is the anchor)
   std::vector<int> loose; // in no group; their links must not be touched
   std::vector<std::pair<N *, N *>> snap; Rng *r = nullptr;
   NP p(int i) { return NP(n[i].get()); }
   CNP cp(int i) { return CNP(n[i].get()); }
   static N *raw_(const NP &x) { return x ? &*x : nullptr; }
   int idof(const NP &x) { N *q = raw_(x); if (!q) return -1; for (auto &u : n) if (u.get() == q) return q->id; fail("bad-link", "%s: a link leads to no node", M().phase); }
   void take_snap() { for (int i : loose) snap[i] = {raw_(n[i]->nx), raw_(n[i]->pv)}; }
   void check() {
      std::vector<char> seen(n.size(), 0);
      for (Seq &s : g) {
         std::size_t k = s.size();
         for (std::size_t i = 0; i < k; ++i) {
            seen[s[i]] = 1;
            int en = i + 1 < k ? s[i + 1] : (CIRC ? s[0] : -1);
            int gn = idof(n[s[i]]->nx);
            if (gn != en) fail("next-link", "%s: node %d is followed by %d, expected %d (structure %s)", M().phase, s[i], gn, en, show(s).c_str());
            if (DBL) { int ep = i ? s[i - 1] : s[k - 1], gp = idof(n[s[i]]->pv); if (gp != ep) fail("prev-link", "%s: node %d is preceded by %d, expected %d", M().phase, s[i], gp, ep); }
         }
      }
      for (int i : loose) VF_REQ(!seen[i] && raw_(n[i]->nx) == snap[i].first && raw_(n[i]->pv) == snap[i].second, "uninvolved-node-changed");
      for (auto &u : n) VF_REQ(u->guard == 0x5a5a5a5aL, "node-payload-changed");
      std::uint64_t h = CIRC; for (Seq &s : g) h = hash_ids(s, h * 31 + 7); digest(h);
      count("structures-compared");
   }
   void drop_empty() { for (std::size_t i = 0; i < g.size();) if (g[i].empty()) g.erase(g.begin() + i); else ++i; }
   bool take_loose(int &x) { if (loose.empty()) return false; std::size_t k = r->below(loose.size()); x = loose[k]; loose.erase(loose.begin() + k); return true; }
   void to_loose(int x) { loose.push_back(x); snap[x] = {raw_(n[x]->nx), raw_(n[x]->pv)}; }
   void rot(Seq &s, std::size_t k) { std::rotate(s.begin(), s.begin() + k, s.end()); }
   void bound(const char *what, long lim) { if (PROP == 20 && g_reads + g_writes > lim) fail("cost", "%s: %ld link accesses, bound %ld", what, g_reads + g_writes, lim); g_reads = g_writes = 0; }
   // ring/chain number and position
   void pick(std::size_t &gi, std::size_t &pi) { gi = r->below(g.size()); pi = r->below(g[gi].size()); }
   void run(Rng &rr) {
      r = &rr; n.clear(); g.clear(); loose.clear();
      int total = r->range(1, 14);
      for (int i = 0; i < total; ++i) { n.emplace_back(new N()); n[i]->guard = 0x5a5a5a5aL; n[i]->id = i; n[i]->nx = NP(); n[i]->pv = NP(); loose.push_back(i); }
      snap.resize(total); take_snap();
      int ops = r->range(5, 60);
      for (int o = 0; o < ops; ++o) { step(); drop_empty(); check(); }
      n.clear();
   }
   void step() {
      std::size_t gi, pi, gj, pj; int x;
      if (g.empty() || r->chance(1, 8)) {
         if (!take_loose(x)) { if (g.empty()) return; }
         else {
            opr("init_header", x); A::init_header(p(x)); g.push_back({x});
            VF_REQ(A::is_empty(cp(x)), "is_empty"); VF_REQ(A::unique(cp(x)), "unique"); VF_REQ(A::count(cp(x)) == 1, "count-of-empty");
            bound("init_header", 12);
            return;
         }
      }
      pick(gi, pi); Seq &s = g[gi]; std::size_t k = s.size();
      if (CIRC && r->chance(1, 2)) { rot(s, r->below(k)); }
      switch (r->below(22)) {
      case 0: case 1: if (take_loose(x)) { opr("link_after", s[pi], x); g_reads = g_writes = 0; A::link_after(p(s[pi]), p(x)); bound("link_after", 12); s.insert(s.begin() + pi + 1, x); } break;
      case 2: case 3:
#if SHAPE != 2
         if (take_loose(x)) { opr("link_before", s[pi], x); g_reads = g_writes = 0; A::link_before(p(s[pi]), p(x)); bound("link_before", DBL ? 12 : 4 * long(k) + 12); s.insert(s.begin() + pi, x); }
#endif
         break;
      case 4: {
#if SHAPE == 0
         opr("unlink", s[pi]); int nx = s[(pi + 1) % k], me = s[pi]; g_reads = g_writes = 0; NP q = A::unlink(p(me)); bound("unlink", 12);
         VF_REQ(idof(q) == nx, "unlink-result"); s.erase(s.begin() + pi); to_loose(me);
#elif SHAPE == 1
         if (r->chance(1, 4) && !loose.empty()) { take_loose(x); A::init(p(x)); opr("unlink_inited", x); A::unlink(p(x)); VF_REQ(A::inited(cp(x)), "unlink-of-inited"); to_loose(x); break; }
         opr("unlink", s[pi]); int me = s[pi]; A::unlink(p(me)); bound("unlink", 4 * long(k) + 12); s.erase(s.begin() + pi); to_loose(me);
#endif
      } break;
      case 5: // range unlink [b,e) or (b,e)
#if SHAPE == 0
      { if (CIRC) rot(s, pi); std::size_t m = r->below(k); // [s0, sm)
         opr("unlink_range", s[0], s[m]); A::unlink(p(s[0]), p(s[m])); bound("unlink_range", 12);
         for (std::size_t i = 0; i < m; ++i) to_loose(s[i]); s.erase(s.begin(), s.begin() + m); }
#else
      { std::size_t b = CIRC ? 0 : pi; if (CIRC) rot(s, pi);
         if (r->chance(1, 2)) { // the node after b
            if (b + 1 >= k && !CIRC) break;
            opr("unlink_after", s[b]); std::size_t v = b + 1 < k ? b + 1 : 0; A::unlink_after(p(s[b])); bound("unlink_after", 12);
            if (v == b) break; // only node: stays alone
            to_loose(s[v]); s.erase(s.begin() + v);
         } else { // (b, e)
            std::size_t e = b + 1 + r->below(k - b); // k: the past-the-end position
            opr("unlink_after_range", s[b], e < k ? s[e] : -1);
            NP ep = e < k ? p(s[e]) : CIRC ? p(s[0]) : NP();
            A::unlink_after(p(s[b]), ep); bound("unlink_after_range", 12);
            for (std::size_t i = b + 1; i < e; ++i) to_loose(s[i]); s.erase(s.begin() + b + 1, s.begin() + e);
         } }
#endif
         break;
      case 6: case 7: case 8:
#if SHAPE == 0
         swap_ring();
#elif SHAPE == 1
         swap_ring();
#else
         { // trailing nodes of two chains
            pick(gj, pj); if (gj == gi) break; opr("swap_trailing_nodes", s[pi], g[gj][pj]); g_reads = g_writes = 0;
            A::swap_trailing_nodes(p(s[pi]), p(g[gj][pj])); bound("swap_trailing_nodes", 12);
            Seq t1(s.begin() + pi + 1, s.end()), t2(g[gj].begin() + pj + 1, g[gj].end());
            s.resize(pi + 1); g[gj].resize(pj + 1); s.insert(s.end(), t2.begin(), t2.end()); g[gj].insert(g[gj].end(), t1.begin(), t1.end()); }
#endif
         break;
      case 9: case 10: case 11: transfer(); break;
      case 12:
#if SHAPE == 2
         { // reverses a list given by its first node
            bool sub = pi > 0; std::size_t from = sub ? pi : 0; opr("reverse", s[from]); g_reads = g_writes = 0;
            NP f = A::reverse(p(s[from])); bound("reverse", 12 * long(k) + 12);
            std::reverse(s.begin() + from, s.end()); VF_REQ(idof(f) == s[from], "reverse-result");
            if (sub) Tr::set_next(p(s[from - 1]), f);
            NP nul = A::reverse(NP()); VF_REQ(!nul, "reverse-of-null"); }
#else
         { rot(s, pi); opr("reverse", s[0], k); g_reads = g_writes = 0; A::reverse(p(s[0])); bound("reverse", 20 * long(k) + 12); std::reverse(s.begin() + 1, s.end()); }
#endif
         break;
      case 13: case 14: case 15: shift(); break;
      case 16: { opr("count", k); VF_REQ(A::count(cp(s[CIRC ? pi : 0])) == k, "count"); VF_REQ(A::count(cp(s[pi])) == (CIRC ? k : k - pi), "count");
         std::size_t b = r->below(k), e = r->below(k); if (!CIRC && b > e) std::swap(b, e);
         g_reads = g_writes = 0; VF_REQ(dist(s[b], s[e]) == (e + k - b) % k, "distance"); bound("distance", 2 * long(k) + 4);
         VF_REQ(A::unique(cp(s[pi])) == (CIRC ? k == 1 : pi + 1 == k), "unique"); VF_REQ(A::is_empty(cp(s[pi])) == (CIRC ? k == 1 : pi + 1 == k), "is_empty"); 
         VF_REQ(A::inited(cp(s[pi])) == (!CIRC && pi + 1 == k), "inited");
         if (!loose.empty()) { x = loose[r->below(loose.size())]; A::init(p(x)); VF_REQ(A::inited(cp(x)) && A::unique(cp(x)), "inited"); snap[x] = {raw_(n[x]->nx), raw_(n[x]->pv)};
            VF_REQ(!n[x]->nx && (!DBL || !n[x]->pv), "init");
#if SHAPE != 0
            A::set_sentinel(p(x)); VF_REQ(A::is_sentinel(cp(x)) && !A::is_empty(cp(x)), "sentinel"); snap[x] = {raw_(n[x]->nx), raw_(n[x]->pv)};
            A::init_header(p(x)); VF_REQ(!A::is_sentinel(cp(x)) && A::is_empty(cp(x)), "sentinel"); snap[x] = {raw_(n[x]->nx), raw_(n[x]->pv)};
#endif
         } } break;
      case 17:
#if SHAPE != 0
         { std::size_t b = r->below(k), e = r->below(k); if (!CIRC && b >= e) break; opr("get_previous_node", s[b], s[e]);
            // the first node examined is the one after b
            VF_REQ(idof(A::get_previous_node(p(s[b]), p(s[e]))) == s[(e + k - 1) % k], "previous-node");
            VF_REQ(idof(A::end_node(cp(s[0]))) == (CIRC ? s[0] : -1), "end_node");
#if SHAPE == 1
            VF_REQ(idof(A::get_previous_node(p(s[e]))) == s[(e + k - 1) % k], "previous-node");
            VF_REQ(idof(A::get_previous_previous_node(p(s[e]))) == s[(e + 2 * k - 2) % k], "previous-previous-node");
            VF_REQ(idof(A::get_previous_previous_node(p(s[b]), p(s[e]))) == s[(e + 2 * k - 2) % k], "previous-previous-node");
#else
            VF_REQ(idof(A::get_previous_node(p(s[b]), NP())) == s[k - 1], "previous-node");
#endif
         }
#endif
         break;
      case 18: case 19: partition(); break;
      case 20:
#if SHAPE != 0
         { if (CIRC) rot(s, pi); opr("detach_and_dispose", s[0], k); Seq disp; std::size_t c = A::detach_and_dispose(p(s[0]), [&](const NP &q) { disp.push_back(idof(q)); q->nx = NP(); });
            VF_REQ(disp == Seq(s.begin() + 1, s.end()) && c == k - 1, "detach_and_dispose"); for (std::size_t i = 1; i < k; ++i) to_loose(s[i]); s.resize(1); }
#endif
         break;
      case 21:
#if SHAPE != 0
         { if (CIRC) rot(s, pi); std::size_t b = CIRC ? 0 : pi, e = b + 1 + r->below(k - b); opr("unlink_after_and_dispose", s[b], e < k ? s[e] : -1);
            Seq disp; std::size_t c = A::unlink_after_and_dispose(p(s[b]), e < k ? p(s[e]) : CIRC ? p(s[0]) : NP(), [&](const NP &q) { disp.push_back(idof(q)); q->nx = NP(); });
            VF_REQ(disp == Seq(s.begin() + b + 1, s.begin() + e) && c == e - b - 1, "unlink_after_and_dispose"); for (std::size_t i = b + 1; i < e; ++i) to_loose(s[i]); s.erase(s.begin() + b + 1, s.begin() + e); }
#endif
         break;
      }
   }
   std::size_t dist(int a, int b) {
      return A::distance(cp(a), cp(b));
   }
#if SHAPE != 2
   void swap_ring() {
      std::size_t gi, pi, gj, pj; pick(gi, pi); pick(gj, pj);
      if (r->chance(1, 3)) { gj = gi; pj = (pi + (r->chance(1, 2) ? 1 : g[gi].size() - 1)) % g[gi].size(); } // adjacent
      if (r->chance(1, 5) && !loose.empty()) { // a node in a ring with one that was only initialised
         int x; take_loose(x); A::init(p(x)); int y = g[gi][pi];
         opr("swap_nodes_inited", y, x, g[gi].size()); bool first = r->chance(1, 2);
         if (first) A::swap_nodes(p(x), p(y)); else A::swap_nodes(p(y), p(x));
         g[gi][pi] = x; VF_REQ(A::inited(cp(y)), "swap-with-inited"); to_loose(y); return;
      }
      int a = g[gi][pi], b = g[gj][pj]; opr("swap_nodes", a, b, gi == gj, long(g[gi].size())); g_reads = g_writes = 0;
      A::swap_nodes(p(a), p(b)); bound("swap_nodes", DBL ? 60 : 60 + 4 * long(g[gi].size() + g[gj].size()));
      std::swap(g[gi][pi], g[gj][pj]);
   }
#endif
   void transfer() {
      std::size_t gi, pi, gj, pj; pick(gi, pi); pick(gj, pj); Seq &s = g[gi], &t = g[gj];
      g_reads = g_writes = 0;
#if SHAPE == 0
      if (r->chance(1, 3)) { // single node: i before p
         if (s.size() == 1 && gi != gj) return; // a list without its header is not transferred
         int i = s[pi], q = t[pj]; opr("transfer_one", q, i, gi == gj); A::transfer(p(q), p(i)); bound("transfer", 20);
         if (i == q) return;
         // removed from its ring, inserted before q
         s.erase(s.begin() + pi); std::size_t at = std::find(t.begin(), t.end(), q) - t.begin(); t.insert(t.begin() + at, i); return;
      }
      // [b,e) of ring s before p; in the same ring p is outside the range
      rot(s, pi); std::size_t k = s.size(), m = r->below(k); Seq mv(s.begin(), s.begin() + m); int b = s[0], e = s[m], q;
      if (gi == gj) { if (m == 0) q = s[r->below(k)]; else { q = s[r->chance(1, 8) ? 0 : m + r->below(k - m)]; } } else q = t[pj % t.size()];
      opr("transfer_range", q, b, e, gi == gj); A::transfer(p(q), p(b), p(e)); bound("transfer", 24);
      if (m == 0 || q == b) return;
      s.erase(s.begin(), s.begin() + m); { std::size_t at = std::find(t.begin(), t.end(), q) - t.begin(); t.insert(t.begin() + at, mv.begin(), mv.end()); }
#else
      if (r->chance(1, 3) && gi != gj) { // everything after the head of another list
         if (CIRC) rot(t, pj); opr("transfer_after_all", s[pi], t[0]); A::transfer_after(p(s[pi]), p(t[0])); bound("transfer_after_all", 4 * long(s.size() + t.size()) + 20);
         s.insert(s.begin() + pi + 1, t.begin() + 1, t.end()); t.resize(1); return;
      }
      // (b,e] of t after p of s
      std::size_t k = t.size(), b0 = CIRC ? 0 : r->below(k); if (CIRC) rot(t, pj); std::size_t m = b0 + r->below(k - b0); Seq mv(t.begin() + b0 + 1, t.begin() + m + 1); int b = t[b0], e = t[m], q;
      if (gi == gj) { // p outside (b,e] or equal to b or e
         std::vector<int> ok(t.begin(), t.begin() + b0 + 1); ok.insert(ok.end(), t.begin() + m, t.end()); q = ok[r->below(ok.size())]; } else q = s[pi % s.size()];
      opr("transfer_after", q, b, e, gi == gj); A::transfer_after(p(q), p(b), p(e)); bound("transfer_after", 16);
      if (b == e || q == b || q == e) return;
      t.erase(t.begin() + b0 + 1, t.begin() + m + 1); { std::size_t at = std::find(s.begin(), s.end(), q) - s.begin(); s.insert(s.begin() + at + 1, mv.begin(), mv.end()); }
#endif
   }
   void shift() {
      std::size_t gi, pi; pick(gi, pi); Seq &s = g[gi]; std::size_t k = s.size(); std::size_t m = r->below(r->chance(1, 4) ? 3 * k + 2 : k + 1); bool back = r->chance(1, 2);
      if (r->chance(1, 6)) m = k - 1;
      g_reads = g_writes = 0;
#if SHAPE == 0
      rot(s, pi); opr(back ? "move_backwards" : "move_forward", s[0], long(m), long(k));
      if (back) A::move_backwards(p(s[0]), m); else A::move_forward(p(s[0]), m);
      bound("move", 4 * long(m + k) + 20);
      if (k > 2) { std::size_t sh = m % (k - 1); if (!back) sh = (k - 1 - sh) % (k - 1); std::rotate(s.begin() + 1, s.begin() + 1 + sh, s.end()); }
#elif SHAPE == 1
      rot(s, pi); opr(back ? "move_backwards" : "move_forward", s[0], long(m), long(k));
      NP res = back ? A::move_backwards(p(s[0]), m) : A::move_forward(p(s[0]), m);
      bound("move", 8 * long(m + k) + 20);
      std::size_t sh = 0; if (k > 2) { sh = m % (k - 1); if (!back) sh = (k - 1 - sh) % (k - 1); std::rotate(s.begin() + 1, s.begin() + 1 + sh, s.end()); }
      if (sh) VF_REQ(idof(res) == s[k - 1], "move-result"); else VF_REQ(!res, "move-result");
#else
      opr(back ? "move_first_n_backwards" : "move_first_n_forward", s[pi], long(m), long(k - pi)); std::size_t c = k - pi; // list of c nodes starting at s[pi]
      A::node_pair res = back ? A::move_first_n_backwards(p(s[pi]), m) : A::move_first_n_forward(p(s[pi]), m);
      bound("move", 8 * long(m + c) + 20);
      std::size_t sh = m % c; if (!back) sh = (c - sh) % c; std::rotate(s.begin() + pi, s.begin() + pi + sh, s.end());
      if (sh) { VF_REQ(idof(res.first) == s[pi] && idof(res.second) == s[k - 1], "move-result"); if (pi) Tr::set_next(p(s[pi - 1]), res.first); }
      else VF_REQ(!res.first && !res.second, "move-result");
#endif
   }
   void partition() {
      std::size_t gi, pi; pick(gi, pi); Seq &s = g[gi]; if (CIRC) rot(s, pi); std::size_t k = s.size();
      std::uint64_t mask = r->next() & (r->chance(1, 4) ? r->next() : ~0ull) ; if (r->chance(1, 8)) mask = 0; if (r->chance(1, 8)) mask = ~0ull;
      // the list is s[0] (anchor) followed by the elements; partition the elements [from,to)
      std::size_t from = 1 + r->below(k), to = from + r->below(k - from + 1); if (from > k) return;
      bool thr = r->chance(1, 6); long lim = thr ? long(r->below(to - from + 1)) : -1; long calls = 0;
      auto pred = [&](const CNP &q) { if (calls++ == lim) throw Thrown{1}; return bool(mask >> (q->id % 60) & 1); };
      A::stable_partition_info info; Seq yes, no; for (std::size_t i = from; i < to; ++i) (mask >> (s[i] % 60) & 1 ? yes : no).push_back(s[i]);
      opr("stable_partition", long(from), long(to), long(k), lim); bool threw = false;
      NP e = to < k ? p(s[to]) : CIRC ? p(s[0]) : NP();
      try {
#if SHAPE == 0
         A::stable_partition(from < k ? p(s[from]) : p(s[0]), e, pred, info);
#else
         A::stable_partition(p(s[from - 1]), e, pred, info);
#endif
      } catch (const Thrown &) { threw = true; }
      if (threw) { // every node is still in the list exactly once: adopt the order found
         count("partition-throws"); Seq now{s[0]}; NP q = Tr::get_next(p(s[0])); while (q && idof(q) != s[0]) { now.push_back(idof(q)); if (now.size() > k) fail("partition-throw", "list has a cycle"); q = Tr::get_next(q); }
         Seq a(now), b(s); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); VF_REQ(a == b, "partition-throw"); 
         VF_REQ(std::equal(s.begin(), s.begin() + from, now.begin()) && std::equal(s.begin() + to, s.end(), now.begin() + to), "partition-throw-outside");
         s = now; return; }
      VF_REQ(calls == long(to - from), "partition-predicate-calls");
      VF_REQ(info.num_1st_partition == yes.size() && info.num_2nd_partition == no.size(), "partition-counts");
      VF_REQ(idof(info.beg_2st_partition) == (no.empty() ? idof(e) : no[0]), "partition-second-begin");
      std::copy(yes.begin(), yes.end(), s.begin() + from); std::copy(no.begin(), no.end(), s.begin() + from + yes.size());
   }
};
int main(int argc, char **argv) {
   return vf::main_loop(argc, argv, PK ? NAME " relative pointers" : NAME " raw pointers", 1000, 20000, [](vf::Rng &r) { D d; d.run(r); });
}
