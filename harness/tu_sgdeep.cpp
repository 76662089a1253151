// Scapegoat trees at the limit: trees as deep as the rule allows are grown by ordered insertions, then thinned around their deepest path (the removals that leave the tree deepest for its size),
// grown again below the deepest element, and so on. The depth is compared with the documented law for the largest size since the last rebuild.
// CFG 0: multiset, fixed alpha  1: multiset, alpha chosen at run time  2: set, fixed alpha, also erasing ranges and keys  3: set, run-time alpha, also erasing ranges and keys
#ifndef CFG
#define CFG 0
#endif
#include "common.hpp"
#include <boost/intrusive/sg_set.hpp>
#include <cmath>
#include <memory>
using namespace vf;
namespace bi = boost::intrusive;
struct E : bi::bs_set_base_hook<> { int v, id; };
static bool operator<(const E &a, const E &b) { return a.v < b.v; }
#if CFG >= 2
typedef bi::sg_set<E, bi::floating_point<(CFG & 1) != 0>> T;
#else
typedef bi::sg_multiset<E, bi::floating_point<(CFG & 1) != 0>> T;
#endif
struct By { bool operator()(const E &a, int b) const { return a.v < b; } bool operator()(int a, const E &b) const { return a < b.v; } };
typedef T::node_traits NT; typedef NT::node_ptr NP;
static E *el(NP n) { return T::value_traits::to_value_ptr(n); }
struct Deep { int depth = -1, n = 0; NP at = NP(); };
static void look(NP x, NP up, int d, Deep &o, std::vector<std::pair<int, E *>> &all) {
   for (; x; ) {
      VF_REQ(NT::get_parent(x) == up, "parent-link"); if (d > 4000) fail("structure", "%s: endless", M().phase);
      ++o.n; all.push_back({d, el(x)}); if (d > o.depth) { o.depth = d; o.at = x; }
      look(NT::get_left(x), x, d + 1, o, all); up = x; x = NT::get_right(x); ++d;
   }
}
static void run(Rng &r) {
   int cap = r.range(8, 300); std::unique_ptr<E[]> pool(new E[cap]); std::vector<char> in(cap, 0); for (int i = 0; i < cap; ++i) { pool[i].id = i; pool[i].v = 0; }
   std::unique_ptr<T> own(new T); float alpha = 0.70711f; double mx = 0; std::size_t n = 0; int rounds = r.range(1, 5), serial = 0;
#if CFG & 1
   static const float al[] = {0.55f, 0.6f, 0.65f, 0.70711f, 0.75f, 0.8f, 0.9f}; alpha = al[r.below(7)]; own->balance_factor(alpha); const double rule = alpha;
#else
   const double rule = 0.70;
#endif
   Deep o; std::vector<std::pair<int, E *>> all;
   auto check = [&] {
      all.clear(); o = Deep(); NP h = own->end().pointed_node(), root = NT::get_parent(h); look(root, h, 0, o, all);
      VF_REQ(std::size_t(o.n) == n && own->size() == n, "count"); count("depth-checks", 1);
      if (n > 2) { double hal = CFG & 1 ? std::floor((std::log2(mx) + 0.01) / (-std::log2(double(alpha)) * 0.96)) : std::floor(std::log2(mx) / -std::log2(double(alpha)) + 1e-3);
         if (o.depth > hal) fail("sg-depth", "%s: depth %d with %zu elements, largest size at most %g, alpha %g (bound %g)", M().phase, o.depth, n, mx, double(alpha), hal);
         if (o.depth == hal) count("depth-at-bound", 1); digest(std::uint64_t(o.depth) * 4096 + n); } };
   auto grew = [&] { ++n; mx = std::max(mx, double(n)); check(); };
   auto shrank = [&] { mx = n ? std::min(mx, std::ceil(double(n + 1) / rule)) : std::min(mx, 4.0); check(); };
   // via: 0 plain, 1 hint, 2 checked and committed, 3 positional at the front or back, 4 positional before an iterator, 5 hint at the wrong end
   auto put = [&](int i, int v, int via, bool back) { E &x = pool[i]; x.v = v; T::iterator pos = back != (via == 5) ? own->end() : own->begin(); if (via == 5) via = 1;
      if (via == 3) { if (back) own->push_back(x); else own->push_front(x); }
      else if (via == 4) own->insert_before(pos, x);
#if CFG >= 2
      else if (via == 2) { T::insert_commit_data d; if (!own->insert_check(v, By(), d).second) { VF_REQ(!x.is_linked(), "refused-linked"); check(); return; } own->insert_commit(x, d); }
      else if (via == 1) { if (&*own->insert(pos, x) != &x) { VF_REQ(!x.is_linked(), "refused-linked"); check(); return; } }
      else if (!own->insert(x).second) { VF_REQ(!x.is_linked(), "refused-linked"); check(); return; }
#else
      else if (via == 1) own->insert(pos, x);
      else own->insert(x);
#endif
      in[i] = 1; grew(); };
   for (int round = 0; round < rounds; ++round) {
      int how = int(r.below(6)); op("grow", how, alpha * 1000); M().phase = "grow"; int lo = 0, hi = 1 << 20, via = how < 2 ? int(r.below(6)) : r.chance(1, 4) ? 5 : how == 4 ? int(r.below(3)) : 2 * int(r.below(2)); long stop = long(r.below(cap)) + 1;
      for (int i = 0; i < cap && stop; ++i) if (!in[i]) { --stop; ++serial; int v;
         switch (how) { case 0: v = own->empty() ? 0 : own->rbegin()->v + 1; break; case 1: v = own->empty() ? 0 : own->begin()->v - 1; break; case 2: v = int(r.below(1 << 20)); break;
            case 3: v = serial & 1 ? ++lo : --hi; break; // zigzag
            case 4: v = o.at ? el(o.at)->v + (CFG >= 2 ? r.range(-1, 1) : 0) : 0; break; // next to the deepest element
            default: v = (serial & 1 ? 1 : -1) * serial; break; }
         put(i, v, via, how != 1); }
      int mv = int(r.below(10)); M().phase = "whole"; // the limits belong to the elements and go where they go
      if (mv == 0) { op("move"); own.reset(new T(std::move(*own))); check(); }
      if (mv == 1) { op("swap"); std::unique_ptr<T> u(new T); u->swap(*own); own.swap(u); check(); }
      if (mv == 2) { op("move-assign"); std::unique_ptr<T> u(new T); *u = std::move(*own); own.swap(u); check(); }
      if (mv == 3 || mv == 4) { op("clone"); std::unique_ptr<E[]> np(new E[cap]); for (int i = 0; i < cap; ++i) { np[i].v = pool[i].v; np[i].id = i; } std::unique_ptr<T> u(new T); if (r.chance(1, 2)) for (int i = 0; i < cap; ++i) if (!in[i] && r.chance(1, 2)) u->insert(np[i]);
         u->clone_from(*own, [&](const E &e) { return &np[e.id]; }, [](E *) { }); own->clear(); pool.swap(np); own.swap(u); check(); u.reset(); }
      if (mv >= 5 && mv <= 7) { op("merge"); T u; std::size_t k = 0; for (int i = 0; i < cap; ++i) if (!in[i] && r.chance(2, 3)) { ++serial; pool[i].v = how == 1 ? -serial : serial; u.insert(pool[i]); if (pool[i].is_linked()) { in[i] = 1; ++k; } } own->merge(u); for (E &e : u) { in[e.id] = 0; --k; } VF_REQ(CFG >= 2 || u.empty(), "merge-rest"); u.clear(); n += k; mx = std::max(mx, double(n)); check(); }
      op("thin"); M().phase = "thin"; long left = r.chance(1, 4) ? 0 : long(r.below(n + 1)); int skip = int(r.below(3));
      while (long(n) > left) {
         // the shallowest removable element that is not on the deepest path
         std::vector<char> path(cap, 0); for (NP x = o.at, h = own->end().pointed_node(); x && x != h; x = NT::get_parent(x)) path[el(x)->id] = 1;
         E *best = nullptr; int bd = 1 << 30, seen = 0; for (auto &p : all) if (!path[p.second->id]) { int k = skip == 0 ? p.first : skip == 1 ? -p.first : int(r.below(1000)); ++seen; if (!best || k < bd) { best = p.second; bd = k; } }
         if (!best) { if (r.chance(1, 2)) break; best = el(o.at); }
#if CFG >= 2
         if (r.chance(1, 6)) { op("erase-key", best->v); int v = best->v; std::vector<E *> gone; for (auto &p : all) if (p.second->v == v) gone.push_back(p.second); VF_REQ(own->erase(*best) == gone.size(), "erase-count"); n -= gone.size(); for (E *g : gone) { in[g->id] = 0; VF_REQ(!g->is_linked(), "still-linked"); } shrank(); continue; }
         if (r.chance(1, 6)) { T::iterator b = own->iterator_to(*best), e = b; int k = 0; std::vector<E *> gone; while (e != own->end() && k++ < 4) { gone.push_back(&*e); ++e; } op("erase-range", k); own->erase(b, e); n -= gone.size(); for (E *g : gone) { in[g->id] = 0; VF_REQ(!g->is_linked(), "still-linked"); } shrank(); continue; }
#endif
         op("erase", best->v); own->erase(own->iterator_to(*best)); in[best->id] = 0; --n; VF_REQ(!best->is_linked(), "still-linked"); shrank();
         if (r.chance(1, 10)) { for (int i = 0; i < cap; ++i) if (!in[i]) { op("regrow"); put(i, o.at ? el(o.at)->v + (CFG >= 2 ? 1 : 0) : 0, 0, true); break; } }
      }
      M().phase = "order"; int last = -(1 << 30); std::size_t w = 0; for (E &e : *own) { VF_REQ(e.v >= last, "order"); last = e.v; ++w; } VF_REQ(w == n, "order-count");
   }
   own->clear();
}
int main(int argc, char **argv) { return vf::main_loop(argc, argv, (std::string("deep scapegoat trees, ") + (CFG & 1 ? "run-time" : "fixed") + " alpha").c_str(), 12, 150, run); }
