// How hooks and containers are embedded in user types.
// CFG 0: hooks in bases and members of a class hierarchy with virtual bases, virtual functions and several sub-objects of one hook kind; elements are of two derived types.
// CFG 1: recursive types: every node is an element of some container and has a list, slist, set and unordered set of its own kind as members.
// CFG 2-5: user-defined bucket traits (array owned by the traits' owner, count from a table, static array) for unordered containers.
#ifndef CFG
#define CFG 0
#endif
#include "common.hpp"
#include <boost/intrusive/list.hpp>
#include <boost/intrusive/slist.hpp>
#include <boost/intrusive/set.hpp>
#include <boost/intrusive/avl_set.hpp>
#include <boost/intrusive/splay_set.hpp>
#include <boost/intrusive/sg_set.hpp>
#include <boost/intrusive/treap_set.hpp>
#include <boost/intrusive/unordered_set.hpp>
#include <algorithm>
#include <memory>
#include <map>
using namespace vf;
namespace bi = boost::intrusive;
#if CFG == 0
struct T1; struct T2; struct T3;
struct VB1 { long pad[3]; int v; VB1() : v(0) {} virtual ~VB1() {} virtual int val() const { return v; } };
struct VB2 { char c[5]; virtual ~VB2() {} };
struct Plain { short s[3]; bi::list_member_hook<> plain_hook; bi::set_member_hook<bi::optimize_size<true>> plain_set; };
struct NV : virtual VB1, virtual VB2 { int dummy[7]; };
struct E : NV, bi::list_base_hook<>, virtual Plain, bi::list_base_hook<bi::tag<T1>>, bi::slist_base_hook<bi::tag<T2>>, bi::set_base_hook<bi::optimize_size<true>>, bi::avl_set_base_hook<>, bi::bs_set_base_hook<>, bi::unordered_set_base_hook<bi::store_hash<true>> {
   int key; bi::list_member_hook<> mh; char gap; bi::slist_member_hook<> msh; bi::set_member_hook<> mset; bi::unordered_set_member_hook<> mus; virtual int kind() const { return 0; } };
struct D1 : E { int extra[3]; int kind() const override { return 1; } };
struct D2 : virtual VB2, D1 { char more[9]; int kind() const override { return 2; } };
inline bool operator<(const E &a, const E &b) { return a.key < b.key; }
inline bool operator==(const E &a, const E &b) { return a.key == b.key; }
inline bool priority_order(const E &a, const E &b) { return a.v < b.v; }
struct Ha { std::size_t operator()(const E &e) const { return std::size_t(e.key) * 7; } };
static const int N = 24;
struct LaneBase { const char *nm; std::vector<int> m; virtual ~LaneBase() {} virtual void ins(E &e, int i, std::vector<std::unique_ptr<E>> &) = 0; virtual void del(E &e) = 0; virtual void take(Rng &) {} virtual std::vector<E *> walk() = 0; virtual bool at(E &e) = 0; virtual void mv() = 0; virtual bool sorted() const { return true; } };
template <class L, bool SEQ> struct Lane : LaneBase { std::unique_ptr<L> l{new L};
   void ins(E &e, int i, std::vector<std::unique_ptr<E>> &p) override { if constexpr (SEQ) { l->push_front(e); m.insert(m.begin(), i); } else { l->insert(e); m.insert(std::upper_bound(m.begin(), m.end(), i, [&](int a, int b) { return p[a]->key < p[b]->key; }), i); } }
   void del(E &e) override { l->erase(l->iterator_to(e)); }
   std::vector<E *> walk() override { std::vector<E *> r; for (auto &e : *l) { r.push_back(&e); if (r.size() > 2 * N) fail("walk", "%s: endless", nm); } VF_REQ(l->size() == r.size(), "size"); return r; }
   bool at(E &e) override { return &*l->iterator_to(e) == &e && &*L::s_iterator_to(e) == &e && l->iterator_to(e).operator->() == &e; }
   void mv() override { std::unique_ptr<L> n(new L(boost::move(*l))); l = std::move(n); } };
template <class H> struct HLane : LaneBase { std::vector<typename H::bucket_type> b{8}; H l{typename H::bucket_traits(b.data(), 8)};
   ~HLane() { l.clear(); }
   void ins(E &e, int i, std::vector<std::unique_ptr<E>> &) override { l.insert(e); m.push_back(i); } void del(E &e) override { l.erase(l.iterator_to(e)); }
   std::vector<E *> walk() override { std::vector<E *> r; for (auto &e : l) { r.push_back(&e); if (r.size() > 2 * N) fail("walk", "%s: endless", nm); } return r; }
   bool at(E &e) override { return &*l.iterator_to(e) == &e && l.find(e)->key == e.key; } void mv() override {} bool sorted() const override { return false; } };
static void run(Rng &r) {
   std::vector<std::unique_ptr<E>> p; for (int i = 0; i < N; ++i) { unsigned k = unsigned(r.below(3)); p.emplace_back(k == 0 ? new E : k == 1 ? new D1 : new D2); p[i]->key = int(r.below(12)); p[i]->v = int(r.below(9)); }
   std::vector<std::unique_ptr<LaneBase>> ls;
#define A_(n, ...) { typedef __VA_ARGS__ X; auto *q = new X; q->nm = n; ls.emplace_back(q); }
   A_("list base", Lane<bi::list<E>, true>) A_("list tagged base", Lane<bi::list<E, bi::base_hook<bi::list_base_hook<bi::tag<T1>>>>, true>) A_("list member", Lane<bi::list<E, bi::member_hook<E, bi::list_member_hook<>, &E::mh>, bi::constant_time_size<false>>, true>)
   A_("slist tagged base", Lane<bi::slist<E, bi::base_hook<bi::slist_base_hook<bi::tag<T2>>>, bi::cache_last<true>>, true>) A_("slist member", Lane<bi::slist<E, bi::member_hook<E, bi::slist_member_hook<>, &E::msh>, bi::linear<true>, bi::constant_time_size<false>>, true>)
   A_("multiset base optimize_size", Lane<bi::multiset<E, bi::base_hook<bi::set_base_hook<bi::optimize_size<true>>>>, false>) A_("multiset member", Lane<bi::multiset<E, bi::member_hook<E, bi::set_member_hook<>, &E::mset>>, false>)
   A_("avl_multiset base", Lane<bi::avl_multiset<E>, false>)
   switch (r.below(3)) { case 0: A_("splay_multiset base", Lane<bi::splay_multiset<E, bi::base_hook<bi::bs_set_base_hook<>>>, false>) break; case 1: A_("sg_multiset base", Lane<bi::sg_multiset<E, bi::base_hook<bi::bs_set_base_hook<>>>, false>) break; default: A_("treap_multiset base", Lane<bi::treap_multiset<E, bi::base_hook<bi::bs_set_base_hook<>>>, false>) }
   A_("unordered_multiset base", HLane<bi::unordered_multiset<E, bi::base_hook<bi::unordered_set_base_hook<bi::store_hash<true>>>, bi::hash<Ha>>>) A_("unordered_multiset member", HLane<bi::unordered_multiset<E, bi::member_hook<E, bi::unordered_set_member_hook<>, &E::mus>, bi::hash<Ha>>>)
   int steps = r.range(40, 160);
   for (int s = 0; s < steps; ++s) { std::size_t li = r.below(ls.size()); LaneBase &l = *ls[li]; int i = int(r.below(N)); auto at = std::find(l.m.begin(), l.m.end(), i);
      if (r.chance(1, 12)) { op("move", long(li)); l.mv(); } else if (at == l.m.end()) { op("insert", long(li), i, p[i]->kind()); l.ins(*p[i], i, p); } else { op("erase", long(li), i); l.m.erase(at); l.del(*p[i]); }
      if (r.chance(1, 25)) { int v = int(r.below(9)); op("virtual-write", i); if (std::string(ls[8]->nm).find("treap") == std::string::npos) p[i]->v = v; VF_REQ(p[i]->val() == p[i]->v, "virtual-base"); }
      for (auto &q : ls) { auto w = q->walk(); std::vector<E *> e; for (int j : q->m) e.push_back(p[j].get()); if (!q->sorted()) { std::sort(w.begin(), w.end()); std::sort(e.begin(), e.end()); } if (w != e) fail("contents", "%s does not hold the expected elements", q->nm); for (int j : q->m) if (!q->at(*p[j])) fail("iterator_to", "%s: iterator from element %d", q->nm, j); digest(q->m.size()); }
      count("elements-verified", long(ls.size())); }
   ls.clear(); }
#elif CFG == 1
struct Nd; struct Ha { std::size_t operator()(const Nd &) const; };
typedef bi::list_base_hook<> LH; typedef bi::slist_base_hook<> SH; typedef bi::set_base_hook<> RH; typedef bi::unordered_set_base_hook<> UH; typedef bi::bs_set_base_hook<> BH;
typedef bi::unordered_set<Nd, bi::base_hook<UH>, bi::hash<Ha>> US;
struct Nd : LH, SH, RH, UH, BH { int id; Nd *up; int how; US::bucket_type bk[3]; bi::list<Nd, bi::base_hook<LH>> lc; bi::slist<Nd, bi::base_hook<SH>, bi::cache_last<true>> sc; bi::multiset<Nd, bi::base_hook<RH>> rc; US uc; bi::treap_multiset<Nd, bi::base_hook<BH>> tc; bi::list_member_hook<bi::link_mode<bi::auto_unlink>> ah; bi::list<Nd, bi::member_hook<Nd, bi::list_member_hook<bi::link_mode<bi::auto_unlink>>, &Nd::ah>, bi::constant_time_size<false>> ac;
   explicit Nd(int i) : id(i), up(nullptr), how(0), uc(US::bucket_traits(bk, 3)) {} };
std::size_t Ha::operator()(const Nd &n) const { return std::size_t(n.id) * 5; }
inline bool operator<(const Nd &a, const Nd &b) { return a.id < b.id; }
inline bool operator==(const Nd &a, const Nd &b) { return a.id == b.id; }
inline bool priority_order(const Nd &a, const Nd &b) { return a.id * 37 % 11 < b.id * 37 % 11; }
static const int N = 20, WAYS = 6;
static std::unique_ptr<Nd> nd[N];
static void detach(Nd &n) { if (!n.up) return; Nd &u = *n.up; switch (n.how) { case 0: u.lc.erase(u.lc.iterator_to(n)); break; case 1: u.sc.erase(u.sc.iterator_to(n)); break; case 2: u.rc.erase(u.rc.iterator_to(n)); break; case 3: u.uc.erase(u.uc.iterator_to(n)); break; case 4: u.tc.erase(u.tc.iterator_to(n)); break; default: n.ah.unlink(); } n.up = nullptr; }
static void attach(Nd &n, Nd &u, int how) { n.up = &u; n.how = how; switch (how) { case 0: u.lc.push_back(n); break; case 1: u.sc.push_back(n); break; case 2: u.rc.insert(n); break; case 3: u.uc.insert(n); break; case 4: u.tc.insert(n); break; default: u.ac.push_front(n); } }
static bool below(Nd *a, Nd *root) { for (; a; a = a->up) if (a == root) return true; return false; }
static void run(Rng &r) {
   for (int i = 0; i < N; ++i) nd[i].reset(new Nd(i)); std::map<std::pair<int, int>, std::vector<int>> kids; auto gone = [&](int i) { if (!nd[i]->up) return; auto &k = kids[{nd[i]->up->id, nd[i]->how}]; k.erase(std::find(k.begin(), k.end(), i)); };
   int steps = r.range(40, 160);
   for (int s = 0; s < steps; ++s) {
      int a = int(r.below(N)), b = int(r.below(N)), how = int(r.below(WAYS));
      switch (r.below(8)) {
      case 0: case 1: case 2: case 3: case 4: if (below(nd[b].get(), nd[a].get())) break; op("attach", a, b, how); gone(a); detach(*nd[a]); attach(*nd[a], *nd[b], how); { auto &k = kids[{b, how}]; if (how == 5) k.insert(k.begin(), a); else k.push_back(a); } break;
      case 5: op("detach", a); gone(a); detach(*nd[a]); break;
      case 6: { // all children of one kind move to another node, whose subtree does not contain them
         if (a == b || below(nd[b].get(), nd[a].get())) break; op("give_children", a, b, how); auto &ka = kids[{a, how}], &kb = kids[{b, how}]; for (int c : ka) nd[c]->up = nd[b].get();
         switch (how) { case 0: nd[b]->lc.splice(nd[b]->lc.end(), nd[a]->lc); break; case 1: nd[b]->sc.splice_after(nd[b]->sc.empty() ? nd[b]->sc.before_begin() : nd[b]->sc.last(), nd[a]->sc); break; case 2: nd[b]->rc.merge(nd[a]->rc); break;
         case 3: for (int c : ka) { nd[a]->uc.erase(nd[a]->uc.iterator_to(*nd[c])); nd[b]->uc.insert(*nd[c]); } break; case 4: nd[b]->tc.merge(nd[a]->tc); break; default: nd[b]->ac.splice(nd[b]->ac.end(), nd[a]->ac); }
         kb.insert(kb.end(), ka.begin(), ka.end()); ka.clear(); count("subtree-moves"); } break;
      case 7: if (nd[a]->up || below(nd[b].get(), nd[a].get())) break; // a root and another node exchange their children of one kind; the swap takes whole subtrees
         if (below(nd[a].get(), nd[b].get())) break; op("swap_children", a, b, how); switch (how) { case 0: nd[a]->lc.swap(nd[b]->lc); break; case 1: nd[a]->sc.swap(nd[b]->sc); break; case 2: nd[a]->rc.swap(nd[b]->rc); break; case 4: nd[a]->tc.swap(nd[b]->tc); break; case 5: nd[a]->ac.swap(nd[b]->ac); break; default: continue; }
         for (int c : kids[{a, how}]) nd[c]->up = nd[b].get(); for (int c : kids[{b, how}]) nd[c]->up = nd[a].get(); std::swap(kids[{a, how}], kids[{b, how}]); break;
      }
      for (int i = 0; i < N; ++i) for (int h = 0; h < WAYS; ++h) { std::vector<int> w, e = kids[{i, h}]; auto add = [&](const Nd &n) { w.push_back(n.id); if (w.size() > N) fail("walk", "endless"); }; Nd &n = *nd[i];
         switch (h) { case 0: for (auto &c : n.lc) add(c); VF_REQ(n.lc.size() == e.size(), "size"); break; case 1: for (auto &c : n.sc) add(c); VF_REQ(n.sc.size() == e.size(), "size"); break; case 2: for (auto &c : n.rc) add(c); VF_REQ(n.rc.size() == e.size(), "size"); break; case 3: for (auto &c : n.uc) add(c); VF_REQ(n.uc.size() == e.size(), "size"); break; case 4: for (auto &c : n.tc) add(c); VF_REQ(n.tc.size() == e.size(), "size"); break; default: for (auto &c : n.ac) add(c); VF_REQ(n.ac.empty() == e.empty(), "size"); }
         if (h == 2 || h == 4) std::sort(e.begin(), e.end()); if (h == 3) { std::sort(w.begin(), w.end()); std::sort(e.begin(), e.end()); } if (w != e) fail("children", "node %d has the wrong children of kind %d", i, h); digest(e.size() + 8 * h); }
      count("nodes-verified", N); }
   for (int i = 0; i < N; ++i) { nd[i]->lc.clear(); nd[i]->sc.clear(); nd[i]->rc.clear(); nd[i]->uc.clear(); nd[i]->tc.clear(); } for (int i = 0; i < N; ++i) nd[i].reset(); }
#else
struct E : bi::unordered_set_base_hook<bi::store_hash<(CFG % 2 == 0)>, bi::optimize_multikey<(CFG == 3)>>, Payload { E() {} };
inline bool operator==(const E &a, const E &b) { return a.v == b.v; }
struct Ha { std::size_t operator()(const E &e) const { return std::size_t(e.v) * 3; } };
typedef bi::unordered_bucket<bi::base_hook<bi::unordered_set_base_hook<bi::store_hash<(CFG % 2 == 0)>, bi::optimize_multikey<(CFG == 3)>>>>::type Bk;
#if CFG == 2 // count is a constant of the type
struct BT { Bk *p; explicit BT(Bk *q = nullptr) : p(q) {} Bk *bucket_begin() const { return p; } std::size_t bucket_count() const { return 16; } };
static BT fresh(Rng &, std::vector<std::unique_ptr<Bk[]>> &v) { v.emplace_back(new Bk[16]); return BT(v.back().get()); }
typedef bi::unordered_multiset<E, bi::hash<Ha>, bi::bucket_traits<BT>, bi::power_2_buckets<true>> C;
#elif CFG == 3 // count as an exponent, no default constructor
struct BT { Bk *p; unsigned char lg; BT(Bk *q, unsigned l) : p(q), lg((unsigned char)l) {} Bk *bucket_begin() const { return p; } std::size_t bucket_count() const { return std::size_t(1) << lg; } };
static BT fresh(Rng &r, std::vector<std::unique_ptr<Bk[]>> &v) { unsigned l = unsigned(r.below(7)); v.emplace_back(new Bk[std::size_t(1) << l]); return BT(v.back().get(), l); }
typedef bi::unordered_multiset<E, bi::hash<Ha>, bi::bucket_traits<BT>, bi::power_2_buckets<true>, bi::cache_begin<true>> C;
#elif CFG == 4 // pointer to a descriptor shared by copies
struct Desc { Bk *p; std::size_t n; }; struct BT { Desc *d; explicit BT(Desc *q) : d(q) {} Bk *bucket_begin() const { return d->p; } std::size_t bucket_count() const { return d->n; } };
static std::vector<std::unique_ptr<Desc>> descs; static BT fresh(Rng &r, std::vector<std::unique_ptr<Bk[]>> &v) { std::size_t n = 1 + r.below(30); v.emplace_back(new Bk[n]); descs.emplace_back(new Desc{v.back().get(), n}); return BT(descs.back().get()); }
typedef bi::unordered_multiset<E, bi::hash<Ha>, bi::bucket_traits<BT>, bi::constant_time_size<false>> C;
#else // first and last pointers, incremental
struct BT { Bk *f, *l; BT(Bk *a, Bk *b) : f(a), l(b) {} Bk *bucket_begin() const { return f; } std::size_t bucket_count() const { return std::size_t(l - f); } };
static BT fresh(Rng &r, std::vector<std::unique_ptr<Bk[]>> &v) { std::size_t n = std::size_t(2) << r.below(6); v.emplace_back(new Bk[n]); return BT(v.back().get(), v.back().get() + n); }
typedef bi::unordered_multiset<E, bi::hash<Ha>, bi::bucket_traits<BT>, bi::incremental<true>, bi::cache_begin<true>> C;
#endif
static void run(Rng &r) { static const int N = 40; std::vector<std::unique_ptr<Bk[]>> bufs; std::vector<E> el(N); for (auto &e : el) e.v = int(r.below(14)); std::vector<int> in[2]; std::vector<int> where(N, -1);
   std::unique_ptr<C> c[2]; for (auto &x : c) x.reset(new C(fresh(r, bufs), Ha())); int steps = r.range(30, 120);
   for (int s = 0; s < steps; ++s) { int k = int(r.below(2)), i = int(r.below(N));
      switch (r.below(10)) {
      default: if (where[i] < 0) { op("insert", k, i, el[i].v); c[k]->insert(el[i]); where[i] = k; } else { op("erase", i); C &x = *c[where[i]]; x.erase(x.iterator_to(el[i])); where[i] = -1; } break;
      case 5: op("rehash", k); c[k]->rehash(fresh(r, bufs)); count("rehashes"); break;
      case 6: op("swap"); c[0]->swap(*c[1]); for (int &w : where) if (w >= 0) w = 1 - w; break;
      case 7: if (CFG == 2 || CFG == 4) break; // moved-from traits of these kinds still refer to the array, and the moved-from container's destructor empties it: recorded as C15-move-user-bucket-traits
         { op("move", k); C *n = new C(boost::move(*c[k])); c[k].reset(n); } break;
      case 8: { op("erase_key", k, el[i].v); std::size_t n = c[k]->erase(el[i]), w = 0; for (int j = 0; j < N; ++j) if (where[j] == k && el[j].v == el[i].v) { where[j] = -1; ++w; } VF_REQ(n == w, "erase-count"); } break;
      case 9:
#if CFG == 5
         { bool g = r.chance(1, 2); op("incremental_rehash", k, g); c[k]->incremental_rehash(g); } break;
#else
         op("full_rehash", k); c[k]->full_rehash(); break;
#endif
      }
      for (int q = 0; q < 2; ++q) { std::vector<int> w, e; for (auto &x : *c[q]) { w.push_back(int(&x - &el[0])); if (w.size() > std::size_t(N)) fail("walk", "endless"); } std::vector<int> ord; for (int j : w) ord.push_back(el[j].v); std::vector<int> runs(ord); runs.erase(std::unique(runs.begin(), runs.end()), runs.end()); std::size_t nr = runs.size(); std::sort(runs.begin(), runs.end()); runs.erase(std::unique(runs.begin(), runs.end()), runs.end()); VF_REQ(nr == runs.size(), "equal-not-adjacent");
         std::sort(w.begin(), w.end()); for (int j = 0; j < N; ++j) if (where[j] == q) e.push_back(j); VF_REQ(w == e, "contents"); VF_REQ(c[q]->size() == e.size() && c[q]->empty() == e.empty(), "size"); VF_REQ(c[q]->bucket_pointer() == c[q]->bucket_pointer() && c[q]->bucket_count() >= 1, "buckets");
         std::size_t tot = 0; for (std::size_t b = 0; b < c[q]->bucket_count(); ++b) { std::size_t n = 0; for (auto l = c[q]->begin(b); l != c[q]->end(b); ++l, ++n) VF_REQ(c[q]->bucket(*l) == b, "bucket"); VF_REQ(n == c[q]->bucket_size(b), "bucket_size"); tot += n; } VF_REQ(tot == e.size(), "buckets-total");
         int v = el[r.below(N)].v; E key; key.v = v; std::size_t n = 0; for (int j : e) n += el[j].v == v; VF_REQ(c[q]->count(key) == n && (c[q]->find(key) != c[q]->end()) == (n > 0), "find"); digest(e.size() * 64 + c[q]->bucket_count()); count("elements-verified", long(e.size())); } }
   for (auto &x : c) { x->clear(); x.reset(); } }
#endif
int main(int argc, char **argv) { static const char *const n[] = {"virtual bases and derived elements", "recursive containers", "bucket traits: constant count", "bucket traits: exponent", "bucket traits: shared descriptor", "bucket traits: range, incremental"}; return vf::main_loop(argc, argv, n[CFG], 400, 8000, run); }
