// Many containers of every kind over the same elements, each through its own hook: every operation on one of them must leave the others alone and give
// what a model gives. CFG 0: raw pointers, all hook and value-traits kinds. CFG 1: self-relative pointers; the whole region with elements, containers and
// bucket arrays is relocated by copying its bytes. CFG 2, 3: the same two in lock-step: every container of one family gets the same history and must answer alike.
#ifndef CFG
#define CFG 0
#endif
#define REL (CFG % 2)
#define LOCK (CFG / 2)
#include "common.hpp"
#include "relptr.hpp"
#include <boost/intrusive/any_hook.hpp>
#include <boost/intrusive/list.hpp>
#include <boost/intrusive/slist.hpp>
#include <boost/intrusive/set.hpp>
#include <boost/intrusive/avl_set.hpp>
#include <boost/intrusive/bs_set.hpp>
#include <boost/intrusive/sg_set.hpp>
#include <boost/intrusive/splay_set.hpp>
#include <boost/intrusive/treap_set.hpp>
#include <boost/intrusive/unordered_set.hpp>
#include <boost/intrusive/derivation_value_traits.hpp>
#include <boost/intrusive/member_value_traits.hpp>
#include <functional>
#include <map>
namespace bi = boost::intrusive; using namespace vf; typedef std::vector<int> Seq;
#if REL
typedef bi::void_pointer<rel_ptr<void>> VP; typedef rel_ptr<void> VPT;
#else
typedef bi::void_pointer<void *> VP; typedef void *VPT;
#endif
typedef bi::link_mode<bi::safe_link> SL; typedef bi::link_mode<bi::normal_link> NL;
template <int> struct T;
typedef bi::list_base_hook<VP, SL> HL0; typedef bi::list_base_hook<VP, bi::tag<T<1>>, NL> HL1; typedef bi::list_member_hook<VP, SL> HLm;
typedef bi::slist_base_hook<VP, SL> HS0; typedef bi::slist_base_hook<VP, bi::tag<T<1>>, NL> HS1; typedef bi::slist_member_hook<VP, SL> HSm;
typedef bi::set_base_hook<VP, SL> HR0; typedef bi::set_base_hook<VP, bi::tag<T<1>>, bi::optimize_size<true>, SL> HR1; typedef bi::set_member_hook<VP, NL> HRm; typedef bi::set_member_hook<VP, SL, bi::optimize_size<true>> HRo;
typedef bi::avl_set_base_hook<VP, SL> HA0; typedef bi::avl_set_base_hook<VP, bi::tag<T<1>>, bi::optimize_size<true>, SL> HA1; typedef bi::avl_set_member_hook<VP, SL> HAm;
typedef bi::bs_set_base_hook<VP, SL> HB0; typedef bi::bs_set_base_hook<VP, bi::tag<T<1>>, SL> HB1; typedef bi::bs_set_base_hook<VP, bi::tag<T<2>>, SL> HB2; typedef bi::bs_set_member_hook<VP, SL> HBm; typedef bi::bs_set_member_hook<VP, NL> HBn;
typedef bi::unordered_set_base_hook<VP, SL> HU0; typedef bi::unordered_set_base_hook<VP, bi::tag<T<1>>, bi::store_hash<true>, SL> HU1; typedef bi::unordered_set_base_hook<VP, bi::tag<T<2>>, bi::optimize_multikey<true>, SL> HU2; typedef bi::unordered_set_member_hook<VP, bi::store_hash<true>, bi::optimize_multikey<true>, SL> HUm;
typedef bi::any_base_hook<VP, SL, bi::tag<T<1>>> HY0; typedef bi::any_member_hook<VP, SL> HYm;
struct E : HL0, HS0, HR0, HA0, HB0, HU0, HY0, HL1, HS1, HR1, HA1, HB1, HU1, HB2, HU2 {
   int v = 0, w = 0, id = -1; char c1; HLm lm; char c2; HSm sm; short c3; HRm rm; HRo ro; char c4; HAm am; HBm bm; HBn bn; char c5; HUm um; HYm ym; struct In { char c; HLm fl; } in; int tail = 0x5eed;
};
struct ByV { bool operator()(const E &a, const E &b) const { return a.v < b.v; } bool operator()(const E &a, int b) const { return a.v < b; } bool operator()(int a, const E &b) const { return a < b.v; } };
struct ByW { bool operator()(const E &a, const E &b) const { return a.w < b.w; } bool operator()(const E &a, int b) const { return a.w < b; } bool operator()(int a, const E &b) const { return a < b.w; } };
struct Pr { bool operator()(const E &a, const E &b) const { return a.id * 7 % 11 < b.id * 7 % 11; } };
struct HaV { std::size_t operator()(const E &e) const { return std::size_t(e.v) * 2654435761u; } std::size_t operator()(int v) const { return std::size_t(v) * 2654435761u; } };
struct EqV { bool operator()(const E &a, const E &b) const { return a.v == b.v; } bool operator()(int a, const E &b) const { return a == b.v; } bool operator()(const E &a, int b) const { return a.v == b; } };
static const int N = 28; static const std::size_t NBK = 16;
// ---- the region: elements first, then containers, bucket arrays and external nodes
static char *g_base = nullptr; static std::size_t g_used = 0; static const std::size_t REGION = 1 << 16;
static std::size_t take(std::size_t n) { g_used = (g_used + 31) & ~std::size_t(31); std::size_t o = g_used; g_used += n + 32; VF_REQ(g_used <= REGION, "region"); return o; }
static E &el(int id) { return reinterpret_cast<E *>(g_base)[id]; }
struct LaneBase {
   std::string name; int fam = 0; bool byw = false, uni = false, shared = false; Seq m[2]; std::vector<int> *where = nullptr, own; int me = 0; std::vector<long> trace; std::vector<std::size_t> places;
   virtual ~LaneBase() {} virtual void build() = 0; virtual void step(Rng &) = 0; virtual void verify(bool full) = 0; virtual void destroy() = 0;
   int key(int id) const { return byw ? el(id).w : el(id).v; }
   bool isfree(int id) const { return (*where)[id] < 0; }
   void put(int id, int k) { (*where)[id] = me * 2 + k; } void drop(int id) { (*where)[id] = -1; }
   int freeid(Rng &r) { for (int t = 0; t < 12; ++t) { int i = int(r.below(N)); if (isfree(i)) return i; } return -1; }
   void note(long x) { trace.push_back(x); }
};
template <class L> struct Lane : LaneBase {
   typedef typename L::iterator It; typedef typename L::const_iterator CIt;
   L &c(int k) { return *reinterpret_cast<L *>(g_base + places[k]); } const L &cc(int k) { return c(k); }
   std::function<bool(const E &)> lf; std::function<void(E &, E &)> sf;
   template <class... A> void mk(int k, A &&... a) { places.push_back(take(sizeof(L))); new (g_base + places[k]) L(std::forward<A>(a)...); }
   std::function<void(Lane &, int)> maker;
   void build() override { places.clear(); for (int k = 0; k < 2; ++k) maker(*this, k); }
   void destroy() override { for (int k = 0; k < 2; ++k) { c(k).clear(); for (int i : m[k]) drop(i); m[k].clear(); } hooks(); for (int k = 0; k < 2; ++k) c(k).~L(); }
   void hooks() { if (lf) for (int i = 0; i < N; ++i) { bool in = (*where)[i] >= 0; if (lf(el(i)) != in) fail("hook-state", "%s: is_linked of element %d is %d, it is %sin a container", name.c_str(), i, int(lf(el(i))), in ? "" : "not "); } }
   void base_verify(int k) {
      Seq got; int guard = 0; for (CIt i = cc(k).begin(), e = cc(k).end(); i != e; ++i) { if (++guard > 2 * N) fail("endless", "%s: iteration does not end", name.c_str()); got.push_back(i->id); if (&*i != &el(i->id)) fail("stray", "%s: iterator denotes something else than an element", name.c_str()); }
      Seq want = m[k]; if (fam >= 3) { std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); }
      if (got != want) fail("contents", "%s container %d: {%s}, expected {%s}", name.c_str(), k, show(got).c_str(), show(want).c_str());
      VF_REQ(cc(k).size() == want.size() && cc(k).empty() == want.empty(), "size");
   }
   void verify(bool) override { for (int k = 0; k < 2; ++k) base_verify(k); hooks(); for (int i = 0; i < N; ++i) VF_REQ(el(i).tail == 0x5eed && el(i).id == i, "payload-changed"); }
   It at(int k, std::size_t i) { It r = c(k).begin(); while (i--) ++r; return r; }
};
// ------------------------------------------------------------------ sequences
template <class La> void swap_positions(La &l, Rng &r, int k, std::function<bool(int, int)> ok);
template <class L, bool DBL> struct SeqLane : Lane<L> {
   using Lane<L>::m; using Lane<L>::c; using Lane<L>::name; using Lane<L>::note; using Lane<L>::at; typedef typename L::iterator It; typedef typename L::const_iterator CIt;
   SeqLane() { this->fam = 0; }
   void step(Rng &r) override {
      int k = int(r.below(2)); L &a = c(k), &b = c(1 - k); Seq &x = m[k], &y = m[1 - k]; int op_ = int(r.below(20)); op("seq", this->me, op_, k, long(x.size()));
      std::size_t p = r.below(x.size() + 1), q = x.size() ? r.below(x.size()) : 0; int id = this->freeid(r);
      switch (op_) {
      case 0: case 1: case 2: if (id >= 0) { It i = a.insert(CIt(at(k, p)), el(id)); note(i->id); x.insert(x.begin() + p, id); this->put(id, k); } break;
      case 3: case 4: if (id >= 0) { a.push_front(el(id)); x.insert(x.begin(), id); this->put(id, k); } break;
      case 5: case 6: if (x.size()) { It i = a.erase(CIt(at(k, q))); note(i == a.end() ? -1 : i->id); this->drop(x[q]); x.erase(x.begin() + q); } break;
      case 7: if (x.size()) { note(a.front().id); a.pop_front(); this->drop(x[0]); x.erase(x.begin()); } break;
      case 8: a.reverse(); std::reverse(x.begin(), x.end()); break;
      case 9: a.sort(ByV()); std::stable_sort(x.begin(), x.end(), [](int i, int j) { return el(i).v < el(j).v; }); break;
      case 10: a.splice(CIt(at(k, p)), b); x.insert(x.begin() + p, y.begin(), y.end()); for (int i : y) this->put(i, k); y.clear(); break;
      case 11: if (y.size()) { std::size_t s = r.below(y.size()); a.splice(CIt(at(k, p)), b, CIt(at(1 - k, s))); this->put(y[s], k); x.insert(x.begin() + p, y[s]); y.erase(y.begin() + s); } break;
      case 12: { int v = int(r.below(4)); a.remove_if([v](const E &e) { return e.v % 4 == v; }); Seq z; for (int i : x) if (el(i).v % 4 == v) this->drop(i); else z.push_back(i); x = z; } break;
      case 13: a.swap(b); x.swap(y); for (int i : x) this->put(i, k); for (int i : y) this->put(i, 1 - k); break;
      case 14: a.sort(ByW()); b.sort(ByW()); std::stable_sort(x.begin(), x.end(), [](int i, int j) { return el(i).w < el(j).w; }); std::stable_sort(y.begin(), y.end(), [](int i, int j) { return el(i).w < el(j).w; }); a.merge(b, ByW()); { Seq z; std::merge(x.begin(), x.end(), y.begin(), y.end(), std::back_inserter(z), [](int i, int j) { return el(i).w < el(j).w; }); x = z; y.clear(); for (int i : x) this->put(i, k); } break;
      case 15: if (x.size()) { It i = a.iterator_to(el(x[q])); note(i->id); ++i; note(i == a.end() ? -1 : i->id); note(int(q + 1 == x.size()) == int(i == a.end())); } break;
      case 16: { std::size_t e = p + r.below(x.size() - p + 1); a.erase(CIt(at(k, p)), CIt(at(k, e))); for (std::size_t t = p; t < e; ++t) this->drop(x[t]); x.erase(x.begin() + p, x.begin() + e); } break;
      case 17: { std::size_t n = r.below(x.size() + 2); a.shift_forward(n); if (x.size()) std::rotate(x.begin(), x.begin() + n % x.size(), x.end()); } break;
      case 18: this->hook_swap(r, k, [](int, int) { return true; }); break;
      default: if (r.chance(1, 4)) { a.clear(); for (int i : x) this->drop(i); x.clear(); } break;
      }
   }
   void hook_swap(Rng &r, int k, std::function<bool(int, int)> ok) { swap_positions(*this, r, k, ok); }
   void verify(bool full) override { Lane<L>::verify(full); for (int k = 0; k < 2; ++k) { if constexpr (DBL) { Seq rv; for (auto i = this->cc(k).rbegin(); i != this->cc(k).rend(); ++i) rv.push_back(i->id); std::reverse(rv.begin(), rv.end()); if (rv != m[k]) fail("reverse-contents", "%s container %d backwards: {%s}, expected {%s}", name.c_str(), k, show(rv).c_str(), show(m[k]).c_str()); } } }
};
// exchanging hooks exchanges positions, also with an element of the other container or of none
template <class La> void swap_positions(La &l, Rng &r, int k, std::function<bool(int, int)> ok) {
   if (!l.sf || l.m[k].empty()) return; std::size_t q = r.below(l.m[k].size()); int a = l.m[k][q], b = int(r.below(N)); for (int t = 0; t < N && (b == a || !ok(a, b)); ++t) b = (b + 1) % N; int wb = (*l.where)[b]; if (b == a || !ok(a, b) || (wb < 0 && !l.lf)) return; if (wb >= 0 && wb / 2 != l.me) return; // busy elsewhere through a shared hook
   op("hook_swap", l.me, a, b, wb); count("hook-swaps"); l.sf(el(a), el(b)); l.m[k][q] = -2; if (wb >= 0) { Seq &y = l.m[wb % 2]; *std::find(y.begin(), y.end(), b) = a; } *std::find(l.m[k].begin(), l.m[k].end(), -2) = b;
   if (wb >= 0) l.put(a, wb % 2); else l.drop(a); l.put(b, k);
}
// ------------------------------------------------------------------ ordered containers
template <class L, bool UNI, bool BYW, bool SG, bool TREAP> struct TreeLane : Lane<L> {
   using Lane<L>::m; using Lane<L>::c; using Lane<L>::name; using Lane<L>::note; using Lane<L>::at; using Lane<L>::key; typedef typename L::iterator It; typedef typename L::const_iterator CIt;
   typedef typename std::conditional<BYW, ByW, ByV>::type Cmp;
   TreeLane() { this->fam = UNI ? 1 : 2; this->uni = UNI; this->byw = BYW; }
   std::size_t lb(const Seq &x, int v) { std::size_t i = 0; while (i < x.size() && key(x[i]) < v) ++i; return i; } std::size_t ub(const Seq &x, int v) { std::size_t i = 0; while (i < x.size() && key(x[i]) <= v) ++i; return i; }
   void insert(int k, int id, bool hint, Rng &r) {
      L &a = c(k); Seq &x = m[k]; int v = key(id); std::size_t l = lb(x, v), u = ub(x, v);
      if constexpr (UNI) { bool isnew = l == u; if (hint) { It i = a.insert(CIt(at(k, r.below(x.size() + 1))), el(id)); note(i->id); VF_REQ(i->id == (isnew ? id : x[l]), "insert-hint"); } else { auto pr = a.insert(el(id)); note(pr.second); note(pr.first->id); VF_REQ(pr.second == isnew, "insert"); } if (isnew) { x.insert(x.begin() + l, id); this->put(id, k); } }
      else { std::size_t pos = u; if (hint) { std::size_t h = r.below(x.size() + 1); pos = h >= u ? u : h <= l ? l : h; a.insert(CIt(at(k, h)), el(id)); } else a.insert(el(id)); x.insert(x.begin() + pos, id); this->put(id, k); }
   }
   void step(Rng &r) override {
      int k = int(r.below(2)); L &a = c(k), &b = c(1 - k); Seq &x = m[k], &y = m[1 - k]; int op_ = int(r.below(18)); op("tree", this->me, op_, k, long(x.size()));
      std::size_t q = x.size() ? r.below(x.size()) : 0; int id = this->freeid(r), v = int(r.below(12)); std::size_t l = lb(x, v), u = ub(x, v);
      switch (op_) {
      case 0: case 1: case 2: case 3: if (id >= 0) insert(k, id, false, r); break;
      case 4: if (id >= 0) insert(k, id, true, r); break;
      case 5: case 6: if (x.size()) { It i = a.erase(CIt(at(k, q))); note(i == a.end() ? -1 : i->id); this->drop(x[q]); x.erase(x.begin() + q); } break;
      case 7: { std::size_t n = a.erase(v, Cmp()); note(long(n)); VF_REQ(n == u - l, "erase-key"); for (std::size_t t = l; t < u; ++t) this->drop(x[t]); x.erase(x.begin() + l, x.begin() + u); } break;
      case 8: { It i = a.find(v, Cmp()); note(i == a.end() ? -1 : key(i->id)); VF_REQ((i == a.end()) == (l == u), "find"); note(long(a.count(v, Cmp()))); VF_REQ(a.count(v, Cmp()) == u - l, "count"); } break;
      case 9: { It i = a.lower_bound(v, Cmp()), j = a.upper_bound(v, Cmp()); note(i == a.end() ? -1 : i->id); note(j == a.end() ? -1 : j->id); VF_REQ((i == a.end() ? -1 : i->id) == (l < x.size() ? x[l] : -1) && (j == a.end() ? -1 : j->id) == (u < x.size() ? x[u] : -1), "bounds"); } break;
      case 10: { a.swap(b); x.swap(y); for (int i : x) this->put(i, k); for (int i : y) this->put(i, 1 - k); } break;
      case 11: if (x.size()) { It i = a.iterator_to(el(x[q])); note(i->id); ++i; note(i == a.end() ? -1 : i->id); VF_REQ((i == a.end() ? -1 : i->id) == (q + 1 < x.size() ? x[q + 1] : -1), "iterator_to"); } break;
      case 12: if (x.size() && id >= 0 && !LOCK) { int o = x[q]; if (key(o) == key(id) && !TREAP) { a.replace_node(at(k, q), el(id)); x[q] = id; this->drop(o); this->put(id, k); note(id); count("replaced"); } } break;
      case 13: { a.merge(b); Seq left; for (int i : y) { std::size_t l2 = lb(x, key(i)), u2 = ub(x, key(i)); if (UNI && l2 != u2) left.push_back(i); else { x.insert(x.begin() + u2, i); this->put(i, k); } } y = left; } break;
      case 14: if (x.size()) { note(a.begin()->id); note(a.rbegin()->id); if constexpr (!SG && !LOCK) { for (int i : Seq(x)) { E *f = raw(a.unlink_leftmost_without_rebalance()); VF_REQ(f && f->id == i, "unlink_leftmost"); this->drop(i); } x.clear(); VF_REQ(!a.unlink_leftmost_without_rebalance(), "unlink_leftmost-empty"); } } break;
      case 15: swap_positions(*this, r, k, [this](int i, int j) { return key(i) == key(j) && !TREAP; }); break;
      case 16: { std::size_t e = q + (x.size() ? r.below(x.size() - q + 1) : 0); a.erase(CIt(at(k, q)), CIt(at(k, e))); for (std::size_t t = q; t < e; ++t) this->drop(x[t]); x.erase(x.begin() + q, x.begin() + e); } break;
      default: if (r.chance(1, 4)) { a.clear(); for (int i : x) this->drop(i); x.clear(); } break;
      }
   }
   void verify(bool full) override { Lane<L>::verify(full); for (int k = 0; k < 2; ++k) { Seq rv; for (auto i = this->cc(k).rbegin(); i != this->cc(k).rend(); ++i) rv.push_back(i->id); std::reverse(rv.begin(), rv.end()); if (rv != m[k]) fail("reverse-contents", "%s container %d backwards: {%s}, expected {%s}", name.c_str(), k, show(rv).c_str(), show(m[k]).c_str()); if (full) this->cc(k).check(); } }
};
// ------------------------------------------------------------------ unordered containers
template <class L, bool UNI> struct HashLane : Lane<L> {
   using Lane<L>::m; using Lane<L>::c; using Lane<L>::name; using Lane<L>::note; using Lane<L>::key; typedef typename L::iterator It; typedef typename L::const_iterator CIt; typedef typename L::bucket_type B; typedef typename L::bucket_traits BT; typedef typename L::bucket_ptr BP;
   std::size_t bk[4]; std::size_t bn[2]; int cur[2]; // bucket arrays: two per container
   HashLane() { this->fam = UNI ? 4 : 3; this->uni = UNI; }
   B *bp(int i) { return reinterpret_cast<B *>(g_base + bk[i]); }
   BP mkp(B *b) { return bi::pointer_traits<BP>::pointer_to(*b); }
   void build() override { this->places.clear(); for (int i = 0; i < 4; ++i) { bk[i] = take(sizeof(B) * NBK); for (std::size_t j = 0; j < NBK; ++j) new (bp(i) + j) B(); } for (int k = 0; k < 2; ++k) { bn[k] = 7; cur[k] = 2 * k; BT t(mkp(bp(2 * k)), 7); if (mkfn) mkfn(*this, k, t); else this->mk(k, t); } }
   std::function<void(HashLane &, int, BT)> mkfn;
   void destroy() override { Lane<L>::destroy(); for (int i = 0; i < 4; ++i) for (std::size_t j = 0; j < NBK; ++j) bp(i)[j].~B(); }
   std::size_t cnt(const Seq &x, int v) { std::size_t n = 0; for (int i : x) n += key(i) == v; return n; }
   It at(int k, int id) { for (It i = c(k).begin(); i != c(k).end(); ++i) if (i->id == id) return i; fail("lost", "%s lost element %d", name.c_str(), id); return It(); }
   void rm(Seq &x, int id) { x.erase(std::find(x.begin(), x.end(), id)); this->drop(id); }
   void step(Rng &r) override {
      int k = int(r.below(2)); L &a = c(k), &b = c(1 - k); Seq &x = m[k], &y = m[1 - k]; int op_ = int(r.below(15)); op("hash", this->me, op_, k, long(x.size()));
      std::size_t q = x.size() ? r.below(x.size()) : 0; int id = this->freeid(r), v = int(r.below(12));
      switch (op_) {
      case 0: case 1: case 2: case 3: if (id >= 0) { if constexpr (UNI) { auto p = a.insert(el(id)); note(p.second); VF_REQ(p.second == !cnt(x, key(id)), "insert"); if (p.second) { x.push_back(id); this->put(id, k); } else VF_REQ(key(p.first->id) == key(id), "insert-blocker"); } else { It i = a.insert(el(id)); VF_REQ(i->id == id, "insert"); x.push_back(id); this->put(id, k); } } break;
      case 4: case 5: if (x.size()) { int o = x[q]; a.erase(CIt(at(k, o))); rm(x, o); } break;
      case 6: { std::size_t n = a.erase(v, HaV(), EqV()); note(long(n)); VF_REQ(n == cnt(x, v), "erase-key"); Seq o = x; for (int i : o) if (key(i) == v) rm(x, i); } break;
      case 7: { It i = a.find(v, HaV(), EqV()); note(i == a.end() ? -1 : key(i->id)); VF_REQ((i == a.end()) == !cnt(x, v), "find"); note(long(a.count(v, HaV(), EqV()))); VF_REQ(a.count(v, HaV(), EqV()) == cnt(x, v), "count"); } break;
      case 8: { auto p = a.equal_range(v, HaV(), EqV()); std::size_t n = 0; for (It i = p.first; i != p.second; ++i) { VF_REQ(key(i->id) == v && n < std::size_t(N), "equal_range"); ++n; } VF_REQ(n == cnt(x, v), "equal_range"); } break;
      case 9: { a.swap(b); x.swap(y); std::swap(bn[0], bn[1]); std::swap(cur[0], cur[1]); for (int i : x) this->put(i, k); for (int i : y) this->put(i, 1 - k); } break;
      case 10: case 11: { std::size_t n = 1 + r.below(NBK); bool same = r.chance(1, 4); int to = same ? cur[k] : cur[k] ^ 1; if (same) n = 1 + r.below(NBK); a.rehash(BT(mkp(bp(to)), n)); cur[k] = to; bn[k] = n; note(long(a.bucket_count())); VF_REQ(a.bucket_count() == n, "rehash"); count("rehashes"); } break;
      case 12: if (x.size()) { It i = a.iterator_to(el(x[q])); VF_REQ(i->id == x[q], "iterator_to"); std::size_t bu = a.bucket(v, HaV()); std::size_t n = 0; for (auto j = a.begin(bu); j != a.end(bu); ++j) { ++n; VF_REQ(n <= std::size_t(N), "bucket-endless"); } VF_REQ(n == a.bucket_size(bu), "bucket_size"); } break;
      case 13: swap_positions(*this, r, k, [this](int i, int j) { return key(i) == key(j); }); break;
      default: if (r.chance(1, 4)) { a.clear(); for (int i : x) this->drop(i); x.clear(); } break;
      }
   }
   void verify(bool full) override { Lane<L>::verify(full); for (int k = 0; k < 2; ++k) { std::size_t n = 0; for (std::size_t j = 0; j < bn[k]; ++j) { for (auto i = this->cc(k).begin(j); i != this->cc(k).end(j); ++i) { VF_REQ(this->cc(k).bucket(key(i->id), HaV()) == j, "wrong-bucket"); ++n; VF_REQ(n <= std::size_t(N), "bucket-endless"); } } VF_REQ(n == m[k].size(), "bucket-sizes");
      if (full) for (int i : m[k]) { It f = this->c(k).find(key(i), HaV(), EqV()); VF_REQ(f != this->c(k).end() && key(f->id) == key(i), "find-present"); auto p = this->c(k).equal_range(key(i), HaV(), EqV()); std::size_t e = 0; for (It j = p.first; j != p.second; ++j) { VF_REQ(key(j->id) == key(i), "range-key"); ++e; } VF_REQ(e == cnt(m[k], key(i)), "range-size"); } } }
};
// ------------------------------------------------------------------ lanes
static std::vector<std::unique_ptr<LaneBase>> lanes; static std::vector<int> any0, anym;
template <class La> La &add(const char *n) { La *l = new La(); l->name = n; l->me = int(lanes.size()); l->own.assign(N, -1); l->where = &l->own; if constexpr (!La::hash_) l->maker = [](Lane<typename La::container_> &x, int k) { x.mk(k); }; lanes.emplace_back(l); return *l; }
template <class L, bool D> struct SeqL : SeqLane<L, D> { typedef L container_; static const bool hash_ = false; };
template <class L, bool U, bool W = false, bool SG = false, bool TR = false> struct TreeL : TreeLane<L, U, W, SG, TR> { typedef L container_; static const bool hash_ = false; };
template <class L, bool U> struct HashL : HashLane<L, U> { typedef L container_; static const bool hash_ = true; };
template <class H, class La> La &hk(La &l, bool swaps = true) {
   if constexpr (H::hooktags::link_mode != bi::normal_link) l.lf = [](const E &e) { return static_cast<const H &>(e).is_linked(); };
   if (swaps && !LOCK) l.sf = [](E &a, E &b) { static_cast<H &>(a).swap_nodes(static_cast<H &>(b)); }; return l; }
template <class H, H E::*P, class La> La &hm(La &l, bool swaps = true) {
   if constexpr (H::hooktags::link_mode != bi::normal_link) l.lf = [](const E &e) { return (e.*P).is_linked(); };
   if (swaps && !LOCK) l.sf = [](E &a, E &b) { (a.*P).swap_nodes(b.*P); }; return l; }
template <class La> void sh(La &l, std::vector<int> &w, bool member) { l.where = &w; l.shared = true; if (member) l.lf = [](const E &e) { return e.ym.is_linked(); }; else l.lf = [](const E &e) { return static_cast<const HY0 &>(e).is_linked(); }; }
#define BH(h) bi::base_hook<h>
#define MH(h, p) bi::member_hook<E, h, &E::p>
struct FunL { typedef HLm hook_type; typedef bi::pointer_rebind<VPT, HLm>::type hook_ptr; typedef bi::pointer_rebind<VPT, const HLm>::type const_hook_ptr; typedef E value_type; typedef bi::pointer_rebind<VPT, E>::type pointer; typedef bi::pointer_rebind<VPT, const E>::type const_pointer;
   static std::ptrdiff_t off() { return reinterpret_cast<char *>(&el(0).in.fl) - reinterpret_cast<char *>(&el(0)); }
   static hook_ptr to_hook_ptr(E &v) { return bi::pointer_traits<hook_ptr>::pointer_to(v.in.fl); } static const_hook_ptr to_hook_ptr(const E &v) { return bi::pointer_traits<const_hook_ptr>::pointer_to(v.in.fl); }
   static pointer to_value_ptr(hook_ptr n) { return bi::pointer_traits<pointer>::pointer_to(*reinterpret_cast<E *>(reinterpret_cast<char *>(raw(n)) - off())); } static const_pointer to_value_ptr(const_hook_ptr n) { return bi::pointer_traits<const_pointer>::pointer_to(*reinterpret_cast<const E *>(reinterpret_cast<const char *>(raw(n)) - off())); } };
// stateful value traits: the nodes live in an array beside the elements
template <class NT, int WHICH> struct Ext { typedef NT node_traits; typedef typename NT::node node; typedef typename NT::node_ptr node_ptr; typedef typename NT::const_node_ptr const_node_ptr; typedef E value_type; typedef typename bi::pointer_rebind<VPT, E>::type pointer; typedef typename bi::pointer_rebind<VPT, const E>::type const_pointer; typedef E &reference; typedef const E &const_reference; static const bi::link_mode_type link_mode = bi::normal_link;
   typename bi::pointer_rebind<VPT, E>::type els; node_ptr nodes; typedef bi::pointer_traits<node_ptr> NP; typedef bi::pointer_traits<const_node_ptr> CNP; typedef bi::pointer_traits<pointer> PP; typedef bi::pointer_traits<const_pointer> CPP;
   explicit Ext(E *e = nullptr, node *n = nullptr) : els(), nodes() { if (e) { els = PP::pointer_to(*e); nodes = NP::pointer_to(*n); } }
   node_ptr to_node_ptr(E &v) const { return NP::pointer_to(raw(nodes)[&v - raw(els)]); } const_node_ptr to_node_ptr(const E &v) const { return CNP::pointer_to(raw(nodes)[&v - raw(els)]); }
   pointer to_value_ptr(node_ptr n) const { return PP::pointer_to(raw(els)[raw(n) - raw(nodes)]); } const_pointer to_value_ptr(const_node_ptr n) const { return CPP::pointer_to(raw(els)[raw(n) - raw(nodes)]); } };
template <class X> struct ext_store { static std::size_t off; }; template <class X> std::size_t ext_store<X>::off = 0;
template <class X> X mkext(int k) { typedef typename X::node Nd; if (k == 0) { ext_store<X>::off = take(sizeof(Nd) * N); for (int i = 0; i < N; ++i) new (reinterpret_cast<Nd *>(g_base + ext_store<X>::off) + i) Nd(); } return X(&el(0), reinterpret_cast<Nd *>(g_base + ext_store<X>::off)); }
template <class X, class La> void ext_seq(La &l) { l.maker = [](Lane<typename La::container_> &x, int k) { X t(mkext<X>(k)); x.mk(k, t); }; }
template <class X, class La> void ext_tree(La &l) { l.maker = [](Lane<typename La::container_> &x, int k) { X t(mkext<X>(k)); x.mk(k, typename La::container_::key_compare(), t); }; }
template <class X, class La> void ext_hash(La &l) { l.mkfn = [](auto &x, int k, typename La::container_::bucket_traits b) { X t(mkext<X>(k)); x.mk(k, b, HaV(), EqV(), t); }; }
#define HOPT bi::hash<HaV>, bi::equal<EqV>
template <class H> using any_list = bi::any_to_list_hook<H>;
static void make_lanes() {
   lanes.clear(); any0.assign(N, -1); anym.assign(N, -1);
   hk<HL0>(add<SeqL<bi::list<E, BH(HL0)>, true>>("list base"));
   hk<HL1>(add<SeqL<bi::list<E, BH(HL1), bi::constant_time_size<false>>, true>>("list tagged base normal"));
   hm<HLm, &E::lm>(add<SeqL<bi::list<E, MH(HLm, lm)>, true>>("list member"));
   add<SeqL<bi::list<E, bi::function_hook<FunL>>, true>>("list function hook").lf = [](const E &e) { return e.in.fl.is_linked(); };
   typedef Ext<bi::list_node_traits<VPT>, 0> XL; ext_seq<XL>(add<SeqL<bi::list<E, bi::value_traits<XL>>, true>>("list external nodes"));
   hk<HS0>(add<SeqL<bi::slist<E, BH(HS0)>, false>>("slist base"));
   hk<HS1>(add<SeqL<bi::slist<E, BH(HS1), bi::cache_last<true>, bi::linear<true>>, false>>("slist tagged base linear cache_last"), false);
   hm<HSm, &E::sm>(add<SeqL<bi::slist<E, MH(HSm, sm), bi::constant_time_size<false>, bi::cache_last<true>>, false>>("slist member cache_last"), false);
   typedef Ext<bi::slist_node_traits<VPT>, 1> XS; ext_seq<XS>(add<SeqL<bi::slist<E, bi::value_traits<XS>>, false>>("slist external nodes"));
   hk<HR0>(add<TreeL<bi::multiset<E, BH(HR0), bi::compare<ByV>>, false>>("multiset base"));
   hk<HR1>(add<TreeL<bi::set<E, BH(HR1), bi::compare<ByV>>, true>>("set tagged base optimize_size"));
   hm<HRm, &E::rm>(add<TreeL<bi::multiset<E, MH(HRm, rm), bi::compare<ByW>, bi::constant_time_size<false>>, false, true>>("multiset member normal by w"));
   hm<HRo, &E::ro>(add<TreeL<bi::multiset<E, MH(HRo, ro), bi::compare<ByV>>, false>>("multiset member optimize_size"));
   typedef Ext<bi::rbtree_node_traits<VPT>, 2> XR; ext_tree<XR>(add<TreeL<bi::multiset<E, bi::value_traits<XR>, bi::compare<ByV>>, false>>("multiset external nodes"));
   hk<HA0>(add<TreeL<bi::avl_multiset<E, BH(HA0), bi::compare<ByV>>, false>>("avl_multiset base"));
   hk<HA1>(add<TreeL<bi::avl_multiset<E, BH(HA1), bi::compare<ByV>, bi::constant_time_size<false>>, false>>("avl_multiset tagged base optimize_size"));
   hm<HAm, &E::am>(add<TreeL<bi::avl_set<E, MH(HAm, am), bi::compare<ByV>>, true>>("avl_set member"));
   typedef Ext<bi::avltree_node_traits<VPT>, 3> XA; ext_tree<XA>(add<TreeL<bi::avl_set<E, bi::value_traits<XA>, bi::compare<ByV>>, true>>("avl_set external nodes"));
   hk<HB0>(add<TreeL<bi::bs_multiset<E, BH(HB0), bi::compare<ByV>>, false>>("bs_multiset base"));
   hk<HB1>(add<TreeL<bi::splay_multiset<E, BH(HB1), bi::compare<ByV>>, false>>("splay_multiset tagged base"));
   hk<HB2>(add<TreeL<bi::treap_multiset<E, BH(HB2), bi::compare<ByV>, bi::priority<Pr>>, false, false, false, true>>("treap_multiset tagged base"), false);
   hm<HBm, &E::bm>(add<TreeL<bi::sg_multiset<E, MH(HBm, bm), bi::compare<ByV>>, false, false, true>>("sg_multiset member"));
   hm<HBn, &E::bn>(add<TreeL<bi::treap_set<E, MH(HBn, bn), bi::compare<ByV>, bi::priority<Pr>>, true, false, false, true>>("treap_set member normal"), false);
   typedef Ext<bi::tree_node_traits<VPT>, 4> XB; ext_tree<XB>(add<TreeL<bi::splay_set<E, bi::value_traits<XB>, bi::compare<ByV>>, true>>("splay_set external nodes"));
   hk<HU0>(add<HashL<bi::unordered_multiset<E, BH(HU0), HOPT>, false>>("unordered_multiset base"));
   hk<HU1>(add<HashL<bi::unordered_set<E, BH(HU1), HOPT, bi::cache_begin<true>>, true>>("unordered_set tagged base store_hash"));
   hk<HU2>(add<HashL<bi::unordered_multiset<E, BH(HU2), HOPT, bi::constant_time_size<false>>, false>>("unordered_multiset tagged base optimize_multikey"));
   hm<HUm, &E::um>(add<HashL<bi::unordered_multiset<E, MH(HUm, um), HOPT>, false>>("unordered_multiset member store_hash optimize_multikey"));
   typedef Ext<bi::unordered_node_traits<VPT, true, true>, 5> XU; ext_hash<XU>(add<HashL<bi::unordered_multiset<E, bi::value_traits<XU>, HOPT>, false>>("unordered_multiset external nodes"));
   // several kinds of container share one any hook: an element is in at most one of them at a time
   sh(add<SeqL<bi::list<E, bi::any_to_list_hook<BH(HY0)>>, true>>("any base list"), any0, false);
   sh(add<SeqL<bi::slist<E, bi::any_to_slist_hook<BH(HY0)>>, false>>("any base slist"), any0, false);
   sh(add<TreeL<bi::multiset<E, bi::any_to_set_hook<BH(HY0)>, bi::compare<ByV>>, false>>("any base multiset"), any0, false);
   sh(add<TreeL<bi::avl_set<E, bi::any_to_avl_set_hook<BH(HY0)>, bi::compare<ByV>>, true>>("any base avl_set"), any0, false);
   sh(add<TreeL<bi::treap_multiset<E, bi::any_to_bs_set_hook<BH(HY0)>, bi::compare<ByV>, bi::priority<Pr>>, false, false, false, true>>("any base treap_multiset"), any0, false);
   sh(add<HashL<bi::unordered_multiset<E, bi::any_to_unordered_set_hook<BH(HY0)>, HOPT>, false>>("any base unordered_multiset"), any0, false);
   sh(add<SeqL<bi::list<E, bi::any_to_list_hook<MH(HYm, ym)>>, true>>("any member list"), anym, true);
   sh(add<TreeL<bi::avl_multiset<E, bi::any_to_avl_set_hook<MH(HYm, ym)>, bi::compare<ByW>>, false, true>>("any member avl_multiset by w"), anym, true);
   sh(add<TreeL<bi::sg_set<E, bi::any_to_bs_set_hook<MH(HYm, ym)>, bi::compare<ByV>>, true, false, true>>("any member sg_set"), anym, true);
   sh(add<HashL<bi::unordered_set<E, bi::any_to_unordered_set_hook<MH(HYm, ym)>, HOPT>, true>>("any member unordered_set"), anym, true);
}
static char *new_region() { void *p = nullptr; if (posix_memalign(&p, 64, REGION)) std::abort(); std::memset(p, 0xa5, REGION); return static_cast<char *>(p); }
static void relocate() { char *n = new_region(); std::memcpy(n, g_base, REGION); std::memset(g_base, 0xcd, REGION); std::free(g_base); g_base = n; count("relocations"); }
static void run(Rng &r) {
   if (lanes.empty()) make_lanes();
   g_base = new_region(); g_used = sizeof(E) * N; int range = r.chance(1, 3) ? 3 : 12;
   for (int i = 0; i < N; ++i) { new (g_base + sizeof(E) * i) E(); el(i).id = i; el(i).v = int(r.below(range)); el(i).w = int(r.below(8)); }
   any0.assign(N, -1); anym.assign(N, -1);
   for (auto &l : lanes) { l->m[0].clear(); l->m[1].clear(); l->own.assign(N, -1); l->trace.clear(); l->build(); }
   int steps = LOCK ? r.range(10, 60) : r.range(100, 500);
   for (int s = 0; s < steps; ++s) {
      if (LOCK) {
         std::uint64_t sd = r.s ^ (0x9e3779b97f4a7c15ull * (s + 1)); r.below(2);
         std::map<std::pair<int, bool>, LaneBase *> lead;
         for (auto &l : lanes) if (!l->shared) { Rng rr(sd); l->step(rr); if (s % 8 == 7 || s + 1 == steps) l->verify(true);
            LaneBase *&f = lead[std::make_pair(l->fam, l->byw)]; if (!f) f = l.get(); else { if (f->trace != l->trace) fail("kinds-differ", "%s answers differently from %s on the same history", l->name.c_str(), f->name.c_str()); count("lockstep-comparisons"); } }
         for (auto &l : lanes) l->trace.clear();
      } else { auto &l = lanes[r.below(lanes.size())]; l->trace.clear(); l->step(r); l->verify(r.chance(1, 3)); if (r.chance(1, 12)) for (auto &o : lanes) o->verify(false); }
      if (REL && r.chance(1, 15)) { op("relocate", s); relocate(); for (auto &l : lanes) l->verify(true); }
      if (r.chance(1, 20)) { int a = int(r.below(N)), b = int(r.below(N)); op("copy_element", a, b); E t(el(a)); VF_REQ(!t.HL0::is_linked() && !t.HY0::is_linked() && !t.um.is_linked(), "copy-linked"); int v = el(a).v, w = el(a).w; el(a) = el(b); el(a).v = v; el(a).w = w; el(a).id = a; count("element-copies"); }
   }
   for (auto &l : lanes) l->verify(true);
   for (auto &l : lanes) { l->destroy(); }
   for (int i = 0; i < N; ++i) el(i).~E();
   std::free(g_base); g_base = nullptr;
}
int main(int argc, char **argv) { return vf::main_loop(argc, argv, REL ? (LOCK ? "all kinds rel_ptr lock-step" : "multi-index rel_ptr relocated") : (LOCK ? "all kinds raw lock-step" : "multi-index raw"), 200, 4000, run); }
