// Large populations: the containers are compared with sorted vectors and maps of up to a few hundred thousand elements (counters, heights, bucket counts and merge passes that small cases never reach).
// CFG 0: list  1: slist (cache_last)  2: slist (linear)  3: bs  4: rb  5: avl  6: splay  7: scapegoat  8: scapegoat with a balance factor  9: treap
// CFG 10: hash, primes  11: hash, powers of two, cached begin  12: incremental, stored hash  13: fastmod, multikey, stored hash
#ifndef CFG
#define CFG 0
#endif
#include "common.hpp"
#include <boost/intrusive/list.hpp>
#include <boost/intrusive/slist.hpp>
#include <boost/intrusive/set.hpp>
#include <boost/intrusive/bs_set.hpp>
#include <boost/intrusive/avl_set.hpp>
#include <boost/intrusive/splay_set.hpp>
#include <boost/intrusive/sg_set.hpp>
#include <boost/intrusive/treap_set.hpp>
#include <boost/intrusive/unordered_set.hpp>
#include <algorithm>
#include <cmath>
#include <memory>
#include <unordered_map>
using namespace vf;
namespace bi = boost::intrusive;
typedef std::vector<int> V;
#define EQ(a, b, key) do { if (!((a) == (b))) fail(key, "%s: %s differs from %s with %ld elements", M().phase, #a, #b, long(n)); } while (0)
static long pick(Rng &r) { static const long s[] = {255, 256, 257, 1023, 4096, 5000, 16385, 32768, 65535, 65536, 65537, 70000, 131072, 140000, 200003}; return s[r.below(15)]; }
#if CFG < 3
typedef bi::list_base_hook<> LH; typedef bi::slist_base_hook<> SH;
struct E : LH, SH { int v, id; };
#if CFG == 0
typedef bi::list<E> L;
#elif CFG == 1
typedef bi::slist<E, bi::cache_last<true>> L;
#else
typedef bi::slist<E, bi::linear<true>, bi::constant_time_size<false>> L;
#endif
struct By { bool operator()(const E &a, const E &b) const { return a.v < b.v; } };
static const char *const NAME[] = {"list", "slist cache_last", "slist linear"};
static void run(Rng &r) {
   long n = pick(r); std::vector<E> e(n), f(n); int range = r.chance(1, 3) ? 50 : r.chance(1, 2) ? int(n) : 1 << 30; V ref, rf; L a, b;
   for (long i = 0; i < n; ++i) { e[i].v = int(r.below(range)); e[i].id = int(i); f[i].v = int(r.below(range)); f[i].id = int(n + i); }
   auto by = [&](int x, int y) { return (x < n ? e[x].v : f[x - n].v) < (y < n ? e[y].v : f[y - n].v); };
   auto val = [&](int x) { return x < n ? e[x].v : f[x - n].v; };
   auto ids = [&](L &l) { V w; for (auto &x : l) { w.push_back(x.id); if (long(w.size()) > 2 * n) fail("walk", "%s: endless", M().phase); } count("elements-verified", long(w.size())); return w; };
   auto same = [&](L &l, const V &x) { V w = ids(l); EQ(w, x, "order"); VF_REQ(l.size() == x.size() && l.empty() == x.empty(), "size"); if (!x.empty()) { VF_REQ(l.front().id == x.front(), "front");
#if CFG == 0
      VF_REQ(l.back().id == x.back(), "back"); V rv; for (auto i = l.rbegin(); i != l.rend(); ++i) rv.push_back(i->id); std::reverse(rv.begin(), rv.end()); EQ(rv, x, "backward-order");
#elif CFG == 1
      VF_REQ(l.back().id == x.back(), "back");
#endif
      } digest(x.size() * 31 + (x.empty() ? 0 : unsigned(x[x.size() / 2]))); };
   op("fill", n, range);
   for (long i = n; i--;) { a.push_front(e[i]); b.push_front(f[i]); } for (long i = 0; i < n; ++i) { ref.push_back(int(i)); rf.push_back(int(n + i)); }
   M().phase = "fill"; same(a, ref);
   int how = int(r.below(4)); // presorted runs, reversed and organ-pipe inputs
   if (how) { op("pattern", how); a.clear(); V p(ref); if (how == 1) std::stable_sort(p.begin(), p.end(), by); else if (how == 2) { std::stable_sort(p.begin(), p.end(), by); std::reverse(p.begin(), p.end()); } else { std::stable_sort(p.begin(), p.begin() + n / 2, by); std::stable_sort(p.begin() + n / 2, p.end(), by); } for (long i = n; i--;) a.push_front(e[p[i]]); ref = p; }
   op("sort"); M().phase = "sort"; a.sort(By()); std::stable_sort(ref.begin(), ref.end(), by); same(a, ref); b.sort(By()); std::stable_sort(rf.begin(), rf.end(), by);
   op("merge"); M().phase = "merge"; a.merge(b, By()); V m; std::merge(ref.begin(), ref.end(), rf.begin(), rf.end(), std::back_inserter(m), by); same(a, m); same(b, V()); ref = m;
   op("reverse"); M().phase = "reverse"; a.reverse(); std::reverse(ref.begin(), ref.end()); same(a, ref);
   op("remove_if"); M().phase = "remove_if"; int md = r.range(2, 5); a.remove_if([&](const E &x) { return x.v % md == 0; }); ref.erase(std::remove_if(ref.begin(), ref.end(), [&](int x) { return val(x) % md == 0; }), ref.end()); same(a, ref);
   op("unique"); M().phase = "unique"; a.unique([](const E &x, const E &y) { return x.v == y.v; }); ref.erase(std::unique(ref.begin(), ref.end(), [&](int x, int y) { return val(x) == val(y); }), ref.end()); same(a, ref);
   if (!ref.empty()) { long k = long(r.below(ref.size() + 2)); op("shift_forward", k); M().phase = "shift"; a.shift_forward(k); std::rotate(ref.begin(), ref.begin() + k % long(ref.size()), ref.end()); same(a, ref);
      k = long(r.below(ref.size() + 2)); op("shift_backwards", k); a.shift_backwards(k); std::rotate(ref.begin(), ref.end() - k % long(ref.size()), ref.end()); same(a, ref); }
   op("clear"); M().phase = "clear"; a.clear(); b.clear(); same(a, V()); for (auto &x : e) if (x.LH::is_linked() || x.SH::is_linked()) fail("still-linked", "after clear"); }
#elif CFG < 10
typedef bi::set_base_hook<> RH; typedef bi::avl_set_base_hook<> AH; typedef bi::bs_set_base_hook<> BH;
struct E;
struct E : RH, AH, BH { int v, id; unsigned p; };
inline bool operator<(const E &a, const E &b) { return a.v < b.v; }
inline bool priority_order(const E &a, const E &b) { return a.p < b.p; }
#if CFG == 3
typedef bi::bs_multiset<E> T;
#elif CFG == 4
typedef bi::multiset<E> T;
#elif CFG == 5
typedef bi::avl_multiset<E> T;
#elif CFG == 6
typedef bi::splay_multiset<E> T;
#elif CFG == 7
typedef bi::sg_multiset<E, bi::floating_point<false>> T;
#elif CFG == 8
typedef bi::sg_multiset<E> T;
#else
typedef bi::treap_multiset<E> T;
#endif
static const char *const NAME[] = {"bs_multiset", "multiset", "avl_multiset", "splay_multiset", "sg_multiset", "sg_multiset balance factor", "treap_multiset"};
typedef T::node_traits NT; typedef T::value_traits VT;
static void run(Rng &r) {
   long n = pick(r); if (n > 70000) n /= 2; int range = r.chance(1, 4) ? 300 : r.chance(1, 2) ? int(n) : 1 << 30; int pat = CFG == 3 ? 0 : int(r.below(4)); std::vector<E> e(2 * n); T a, b; V ref; float alpha = 0.70711f;
   auto same = [&](T &t, const V &x) { V w; for (auto &y : t) { w.push_back(y.id); if (long(w.size()) > 2 * n) fail("walk", "%s: endless", M().phase); } count("elements-verified", long(w.size())); EQ(w, x, "order"); VF_REQ(t.size() == x.size() && t.empty() == x.empty(), "size"); if (x.empty()) return;
      VF_REQ(t.begin()->id == x.front() && t.rbegin()->id == x.back(), "ends"); V rv; for (auto i = t.rbegin(); i != t.rend(); ++i) rv.push_back(i->id); std::reverse(rv.begin(), rv.end()); EQ(rv, x, "backward-order");
      digest(x.size() * 31 + unsigned(x[x.size() / 2])); };
   // height, colour or balance, heap order and links, from the nodes themselves, without recursion
   auto shape = [&](T &t, double bound) { if (t.empty()) return; auto root = VT::to_node_ptr(*t.root()); long dmax = 0, seen = 0, bh = -1; std::vector<std::pair<decltype(root), std::pair<long, long>>> st; st.push_back({root, {1, 0}}); std::unordered_map<const void *, int> hs;
      while (!st.empty()) { auto x = st.back(); st.pop_back(); ++seen; long d = x.second.first, k = x.second.second; dmax = std::max(dmax, d); auto l = NT::get_left(x.first), q = NT::get_right(x.first); if ((l && NT::get_parent(l) != x.first) || (q && NT::get_parent(q) != x.first)) fail("parent-link", "%s with %ld elements", M().phase, n);
#if CFG == 4
         bool red = NT::get_color(x.first) == NT::red(); k += !red; if (red && ((l && NT::get_color(l) == NT::red()) || (q && NT::get_color(q) == NT::red()))) fail("red-red", "%s with %ld elements", M().phase, n);
         if (!l || !q) { if (bh < 0) bh = k; else if (bh != k) fail("black-height", "%s with %ld elements", M().phase, n); }
#elif CFG == 9
         auto pr = [](decltype(root) z) { return VT::to_value_ptr(z)->p; }; if ((l && pr(l) < pr(x.first)) || (q && pr(q) < pr(x.first))) fail("heap-order", "%s with %ld elements", M().phase, n);
#endif
         if (l) st.push_back({l, {d + 1, k}}); if (q) st.push_back({q, {d + 1, k}}); if (seen > 2 * n) fail("structure", "%s: endless", M().phase); }
      (void)bh; if (seen != long(t.size())) fail("structure", "%s: %ld nodes for %ld elements", M().phase, seen, long(t.size())); if (bound > 0 && double(dmax) > bound) fail("height", "%s: height %ld with %ld elements, bound %g", M().phase, dmax, seen, bound); count("nodes-checked", seen); };
   auto bound = [&](double m) { (void)m;
#if CFG == 4
      return 2 * std::log2(m + 1) + 1;
#elif CFG == 5
      return 1.4405 * std::log2(m + 2) + 1;
#elif CFG == 7 || CFG == 8
      return std::log(std::max(m, 1.0)) / std::log(1 / alpha) + 2;
#else
      return 0.0;
#endif
   };
#if CFG == 8
   alpha = r.chance(1, 2) ? 0.6f : 0.8f; a.balance_factor(alpha); b.balance_factor(alpha);
#endif
   op("fill", n, range, pat); M().phase = "fill"; V keys(2 * n); for (auto &k : keys) k = int(r.below(range)); if (pat == 1) std::sort(keys.begin(), keys.end()); if (pat == 2) std::sort(keys.rbegin(), keys.rend()); if (pat == 3) { std::sort(keys.begin(), keys.end()); V z; for (long i = 0, j = 2 * n - 1; i <= j; ++i, --j) { z.push_back(keys[i]); if (i < j) z.push_back(keys[j]); } keys = z; }
   for (long i = 0; i < 2 * n; ++i) { e[i].v = keys[i]; e[i].id = int(i); e[i].p = unsigned(r.next()) >> 8; }
   auto by = [&](int x, int y) { return e[x].v < e[y].v; };
   for (long i = 0; i < n; ++i) { a.insert(e[i]); ref.push_back(int(i)); } std::stable_sort(ref.begin(), ref.end(), by); same(a, ref); shape(a, bound(double(n)));
   op("lookups"); M().phase = "lookups"; for (int q = 0; q < 600; ++q) { E k; k.v = r.chance(1, 2) ? e[r.below(n)].v : int(r.below(range)); k.id = -1; auto lo = std::lower_bound(ref.begin(), ref.end(), k.v, [&](int x, int v) { return e[x].v < v; }), up = std::upper_bound(ref.begin(), ref.end(), k.v, [&](int v, int x) { return v < e[x].v; });
      auto gl = a.lower_bound(k), gu = a.upper_bound(k); if ((gl == a.end()) != (lo == ref.end()) || (lo != ref.end() && gl->id != *lo)) fail("lower_bound", "key %d", k.v); if ((gu == a.end()) != (up == ref.end()) || (up != ref.end() && gu->id != *up)) fail("upper_bound", "key %d", k.v); if (q % 20 == 0) VF_REQ(long(a.count(k)) == up - lo, "count"); VF_REQ((a.find(k) != a.end()) == (lo != up), "find"); }
   same(a, ref);
   op("erase-half"); M().phase = "erase"; { V order(ref); r.shuffle(order); long cut = long(r.below(order.size())); std::vector<char> dead(2 * n, 0); for (long i = 0; i < cut; ++i) { a.erase(a.iterator_to(e[order[i]])); dead[order[i]] = 1; if (e[order[i]].RH::is_linked() || e[order[i]].AH::is_linked() || e[order[i]].BH::is_linked()) fail("still-linked", "after erase"); } ref.erase(std::remove_if(ref.begin(), ref.end(), [&](int x) { return dead[x]; }), ref.end()); }
   same(a, ref); shape(a, bound(CFG == 7 || CFG == 8 ? double(n) : double(ref.size())));
   op("second"); M().phase = "second"; V rb; for (long i = n; i < 2 * n; ++i) { b.insert(b.end(), e[i]); rb.push_back(int(i)); } { std::vector<std::pair<int, int>> x; for (auto &y : b) x.push_back({y.v, y.id}); if (long(x.size()) != n) fail("hinted-insert", "%ld of %ld elements", long(x.size()), n); for (long i = 1; i < n; ++i) if (x[i].first < x[i - 1].first) fail("hinted-insert", "not sorted"); rb.clear(); for (auto &y : x) rb.push_back(y.second); } shape(b, bound(double(n)));
   op("merge"); M().phase = "merge"; if (CFG != 8 || r.chance(1, 2)) { a.merge(b); V m; std::merge(ref.begin(), ref.end(), rb.begin(), rb.end(), std::back_inserter(m), by); ref = m; rb.clear(); same(b, V()); } same(a, ref); shape(a, bound(CFG == 7 || CFG == 8 ? 2 * double(n) : double(ref.size())));
   if (CFG == 3 || CFG == 6 || CFG == 7 || CFG == 8) { op("rebalance"); M().phase = "rebalance"; a.rebalance(); same(a, ref); shape(a, std::floor(std::log2(double(ref.size()) + 0.5)) + 1.5); }
   op("clone"); M().phase = "clone"; { std::vector<E> c(ref.size()); std::size_t used = 0; T t; t.clone_from(a, [&](const E &x) { E &y = c[used++]; y.v = x.v; y.id = x.id; y.p = x.p; return &y; }, [](E *) { fail("disposed", "clone"); }); VF_REQ(used == ref.size(), "clones"); same(t, ref); shape(t, bound(2 * double(n))); t.clear(); same(t, V()); }
   op("erase-range"); M().phase = "erase-range"; if (!ref.empty()) { std::size_t i = r.below(ref.size()), j = i + r.below(ref.size() - i + 1); auto f = a.iterator_to(e[ref[i]]); auto l = j == ref.size() ? a.end() : a.iterator_to(e[ref[j]]); a.erase(f, l); ref.erase(ref.begin() + long(i), ref.begin() + long(j)); same(a, ref); shape(a, bound(2 * double(n))); }
   op("clear"); long dis = 0; M().phase = "clear"; a.clear_and_dispose([&](E *x) { ++dis; if (x->RH::is_linked() || x->AH::is_linked() || x->BH::is_linked()) fail("still-linked", "in the disposer"); }); VF_REQ(dis == long(ref.size()), "disposed"); same(a, V()); b.clear(); }
#else
typedef bi::unordered_set_base_hook<bi::store_hash<(CFG == 12 || CFG == 13)>, bi::optimize_multikey<(CFG == 13)>> UH;
struct E : UH { int v, id; };
inline bool operator==(const E &a, const E &b) { return a.v == b.v; }
static long hmul = 1;
struct Ha { std::size_t operator()(const E &e) const { return std::size_t(e.v) * std::size_t(hmul); } };
#if CFG == 10
typedef bi::unordered_multiset<E, bi::base_hook<UH>, bi::hash<Ha>> H;
#elif CFG == 11
typedef bi::unordered_multiset<E, bi::base_hook<UH>, bi::hash<Ha>, bi::power_2_buckets<true>, bi::cache_begin<true>> H;
#elif CFG == 12
typedef bi::unordered_multiset<E, bi::base_hook<UH>, bi::hash<Ha>, bi::power_2_buckets<true>, bi::incremental<true>> H;
#else
typedef bi::unordered_multiset<E, bi::base_hook<UH>, bi::hash<Ha>, bi::fastmod_buckets<true>> H;
#endif
static const char *const NAME[] = {"primes", "power of two, cache", "incremental", "fastmod, multikey"};
static void run(Rng &r) {
   long n = pick(r); int range = r.chance(1, 4) ? int(n / 40) + 2 : r.chance(1, 2) ? int(n) : 1 << 30; hmul = r.chance(1, 2) ? 1 : r.chance(1, 2) ? 0x9E3779B97F4A7C15l : 1000003; std::vector<E> e(n); std::vector<char> in(n, 0); std::unordered_map<int, long> cnt; long total = 0;
   std::vector<std::unique_ptr<H::bucket_type[]>> bufs; std::vector<std::size_t> sizes;
   auto buckets = [&](long want) { std::size_t s;
#if CFG == 10 || CFG == 13
      s = H::suggested_upper_bucket_count(std::size_t(want)); if (CFG == 10 && r.chance(1, 3)) s = std::size_t(want);
#else
      s = 2; while (long(s) < want) s *= 2;
#endif
      bufs.emplace_back(new H::bucket_type[s]); return H::bucket_traits(bufs.back().get(), s); };
   auto verify = [&](H &h, bool deep) { std::unordered_map<int, long> m; long w = 0; const E *p = nullptr; std::unordered_map<int, char> closed; std::vector<char> s(n, 0); for (auto &x : h) { if (s[x.id]++) fail("twice", "%s", M().phase); if (!in[x.id]) fail("stranger", "%s", M().phase); if (p && p->v != x.v && closed[x.v]) fail("equal-not-adjacent", "%s", M().phase); closed[x.v] = 1; ++m[x.v]; p = &x; if (++w > n) fail("walk", "%s: endless", M().phase); }
      if (w != total || long(h.size()) != total || h.empty() != (total == 0)) fail("size", "%s: %ld walked, size %ld, expected %ld", M().phase, w, long(h.size()), total); count("elements-verified", w); digest(std::uint64_t(w) * 64 + h.bucket_count());
      if (!deep) return; long bt = 0; std::size_t bc = h.bucket_count(); for (std::size_t b = 0; b < bc; ++b) for (auto i = h.begin(b); i != h.end(b); ++i) { ++bt; if (h.bucket(*i) != b) fail("bucket", "%s", M().phase); } VF_REQ(bt == total, "buckets-total");
      for (int q = 0; q < 500; ++q) { E k; k.v = r.chance(1, 2) ? e[r.below(n)].v : int(r.below(range)); long c = cnt.count(k.v) ? cnt[k.v] : 0; VF_REQ((h.find(k) != h.end()) == (c > 0), "find"); VF_REQ(long(h.count(k)) == c, "count"); auto er = h.equal_range(k); VF_REQ(std::distance(er.first, er.second) == c, "equal_range"); } };
   for (long i = 0; i < n; ++i) { e[i].v = int(r.below(range)); e[i].id = int(i); }
   long b0 = r.chance(1, 2) ? n : r.chance(1, 2) ? n / 3 + 1 : 2 * n; op("fill", n, range, b0); M().phase = "fill"; H h(buckets(b0), Ha()); for (long i = 0; i < n; ++i) { h.insert(e[i]); in[i] = 1; ++cnt[e[i].v]; ++total; } verify(h, true);
   long b1 = r.chance(1, 2) ? n * 2 : n / 2 + 1; op("rehash", b1); M().phase = "rehash"; h.rehash(buckets(b1)); verify(h, true);
   op("full_rehash"); M().phase = "full_rehash"; h.full_rehash(); verify(h, false);
#if CFG == 12
   op("incremental"); M().phase = "incremental"; { bool grow = r.chance(1, 2); long k = long(r.below(5000)); if (!grow) for (long i = 0; i < k; ++i) h.incremental_rehash(false); else { std::size_t c = h.bucket_count(); if (h.incremental_rehash(buckets(long(c) * 2))) { for (long i = 0; i < k; ++i) h.incremental_rehash(true); } } verify(h, true); }
#endif
   op("erase"); M().phase = "erase"; { long cut = long(r.below(n)); V o(n); for (long i = 0; i < n; ++i) o[i] = int(i); r.shuffle(o); for (long i = 0; i < cut; ++i) { int x = o[i]; if (!in[x]) continue; if (r.chance(1, 8)) { long c = cnt[e[x].v]; VF_REQ(long(h.erase(e[x])) == c, "erase-count"); if (c == 1) in[x] = 0; else for (long j = 0; j < n; ++j) if (e[j].v == e[x].v) in[j] = 0; total -= c; cnt.erase(e[x].v); if (c > 1 && r.chance(1, 2)) break; } else { h.erase(h.iterator_to(e[x])); in[x] = 0; --total; if (!--cnt[e[x].v]) cnt.erase(e[x].v); } if (e[x].is_linked()) fail("still-linked", "after erase"); } verify(h, true); }
   op("clone"); M().phase = "clone"; { std::vector<E> c(total ? total : 1); std::size_t used = 0; H t(buckets(r.chance(1, 2) ? long(h.bucket_count()) : total / 2 + 3), Ha()); t.clone_from(h, [&](const E &x) { E &y = c[used++]; y.v = x.v; y.id = x.id; return &y; }, [](E *) { fail("disposed", "clone"); }); verify(t, true); VF_REQ(t == h, "clone-equal"); t.clear(); }
   op("clear"); M().phase = "clear"; long dis = 0; h.clear_and_dispose([&](E *) { ++dis; }); VF_REQ(dis == total, "disposed"); for (auto &x : e) if (x.is_linked()) fail("still-linked", "after clear"); VF_REQ(h.begin() == h.end() && h.empty(), "empty"); }
#endif
#if CFG < 3
#define NM NAME[CFG]
#elif CFG < 10
#define NM NAME[CFG - 3]
#else
#define NM NAME[CFG - 10]
#endif
int main(int argc, char **argv) { return vf::main_loop(argc, argv, (std::string("large ") + NM).c_str(), 12, 150, run); }
