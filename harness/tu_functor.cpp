// Containers whose functors are plain function pointers (nothing to derive from): contents and functors must travel together.
// CFG 0-5 tree kinds (multiset), 6-11 the same with an extracted key (set), 12 unordered_multiset, 13 unordered_set with extracted key, 14 list, 15 slist
#ifndef CFG
#define CFG 0
#endif
#include "common.hpp"
#include <boost/intrusive/set.hpp>
#include <boost/intrusive/avl_set.hpp>
#include <boost/intrusive/bs_set.hpp>
#include <boost/intrusive/splay_set.hpp>
#include <boost/intrusive/sg_set.hpp>
#include <boost/intrusive/treap_set.hpp>
#include <boost/intrusive/unordered_set.hpp>
#include <boost/intrusive/list.hpp>
#include <boost/intrusive/slist.hpp>
#include <optional>
using namespace vf;
namespace bi = boost::intrusive;
#define TREEKIND (CFG % 6)
#define KOVB (CFG >= 6 && CFG != 12)
struct E;
#if CFG < 12
#if TREEKIND == 0
typedef bi::set_base_hook<> Hook;
#define MS bi::multiset
#define SS bi::set
#elif TREEKIND == 1
typedef bi::avl_set_base_hook<> Hook;
#define MS bi::avl_multiset
#define SS bi::avl_set
#else
typedef bi::bs_set_base_hook<> Hook;
#if TREEKIND == 2
#define MS bi::bs_multiset
#define SS bi::bs_set
#elif TREEKIND == 3
#define MS bi::splay_multiset
#define SS bi::splay_set
#elif TREEKIND == 4
#define MS bi::sg_multiset
#define SS bi::sg_set
#else
#define MS bi::treap_multiset
#define SS bi::treap_set
#endif
#endif
#elif CFG < 14
typedef bi::unordered_set_base_hook<> Hook;
#elif CFG == 14
typedef bi::list_base_hook<> Hook;
#else
typedef bi::slist_base_hook<> Hook;
#endif
struct E : Hook, Payload { E() {} explicit E(int x) { v = x; } };
struct KeyOf { typedef int type; const int &operator()(const E &e) const { return e.v; } };
#if KOVB
typedef int Key; static int kof(const int &k) { return k; }
#else
typedef E Key; static int kof(const E &e) { return e.v; }
#endif
typedef bool (*Cmp)(const Key &, const Key &);
static bool cmp_lt(const Key &a, const Key &b) { return kof(a) < kof(b); }
static bool cmp_gt(const Key &a, const Key &b) { return kof(b) < kof(a); }
static bool cmp_half(const Key &a, const Key &b) { return kof(a) / 2 < kof(b) / 2; }
static Cmp cmps[3] = {&cmp_lt, &cmp_gt, &cmp_half};
typedef bool (*Pri)(const E &, const E &);
static bool pri_lt(const E &a, const E &b) { return a.aux < b.aux; }
static bool pri_gt(const E &a, const E &b) { return b.aux < a.aux; }
static Pri pris[2] = {&pri_lt, &pri_gt};
typedef std::size_t (*Hsh)(const Key &);
static std::size_t hsh_id(const Key &k) { return std::size_t(kof(k)); }
static std::size_t hsh_mul(const Key &k) { return std::size_t(kof(k)) * 0x9e3779b97f4a7c15ull; }
static Hsh hshs[2] = {&hsh_id, &hsh_mul};
typedef bool (*Eql)(const Key &, const Key &);
static bool eql_v(const Key &a, const Key &b) { return kof(a) == kof(b); }
static bool eql_w(const Key &a, const Key &b) { return !(kof(a) < kof(b)) && !(kof(b) < kof(a)); }
static Eql eqls[2] = {&eql_v, &eql_w};
static std::vector<E *> made; static long disposed_n = 0;
static E *clone_fn(const E &e) { E *p = new E(e.v); p->id = e.id; p->aux = e.aux; made.push_back(p); return p; }
static void dispose_fn(E *e) { VF_REQ(!e->is_linked(), "disposed-while-linked"); auto i = std::find(made.begin(), made.end(), e); if (i != made.end()) { made.erase(i); delete e; } ++disposed_n; }
static Pool<E> *pool_; static Rng *R; static std::vector<int> m[2], where;
static E &el(int id) { return *pool_->e[id]; }
static int freeid() { for (int t = 0; t < 12; ++t) { int i = int(R->below(where.size())); if (where[i] < 0) return i; } return -1; }

#if CFG < 12
#if CFG < 6
#define KOPT
static const bool uni = false;
#define SEL MS
#else
#define KOPT , bi::key_of_value<KeyOf>
static const bool uni = true;
#define SEL SS
#endif
#if TREEKIND == 5
typedef SEL<E, bi::compare<Cmp>, bi::priority<Pri> KOPT> S;
#else
typedef SEL<E, bi::compare<Cmp> KOPT> S;
#endif
static std::optional<S> c[2]; static int cf[2], pf[2];
static int keyv; static E *keye;
static const Key &key(int v) {
#if KOVB
   keyv = v; return keyv;
#else
   keye->v = v; return *keye;
#endif
}
static bool kl(int k, int a, int b) { static E x, y; x.v = a; y.v = b;
#if KOVB
   return cmps[cf[k]](x.v, y.v);
#else
   return cmps[cf[k]](x, y);
#endif
}
static std::size_t lb(int k, int v) { std::size_t i = 0; while (i < m[k].size() && kl(k, el(m[k][i]).v, v)) ++i; return i; }
static std::size_t ub(int k, int v) { std::size_t i = 0; while (i < m[k].size() && !kl(k, v, el(m[k][i]).v)) ++i; return i; }
static void build(int k) {
#if TREEKIND == 5
   c[k].emplace(cmps[cf[k]], pris[pf[k]]);
#else
   c[k].emplace(cmps[cf[k]]);
#endif
}
static void verify_one(S &s, const std::vector<int> &w, Cmp f, Pri p, bool ids) {
   std::size_t n = 0; for (const E &e : const_cast<const S &>(s)) { VF_REQ(n < w.size() && (ids ? e.id == w[n] : e.v == el(w[n]).v), "functor-sequence"); ++n; }
   VF_REQ(n == w.size() && s.size() == n && s.empty() == !n, "functor-size"); VF_REQ(s.key_comp() == f, "functor-comparator"); s.check();
#if TREEKIND == 5
   VF_REQ(s.priority_comp() == p, "functor-priority"); if (n) for (int x : w) VF_REQ(!p(el(x), *s.top()), "functor-top");
#endif
   (void)p;
}
static void verify() { for (int k = 0; k < 2; ++k) verify_one(*c[k], m[k], cmps[cf[k]], pris[pf[k]], true); count("verifications"); }
static void ins(int k) {
   int id = freeid(); if (id < 0) return; el(id).v = R->range(0, 12); el(id).aux = R->range(0, 9); int v = el(id).v; bool dup = lb(k, v) != ub(k, v); std::size_t p = ub(k, v);
   bool hint = R->chance(1, 3); op(hint ? "insert_end_hint" : "insert", k, id, v);
#if CFG >= 6
   if (hint) { S::iterator i = c[k]->insert(c[k]->cend(), el(id)); VF_REQ(dup ? i->id == m[k][lb(k, v)] : &*i == &el(id), "functor-insert"); }
   else { auto r = c[k]->insert(el(id)); VF_REQ(r.second == !dup && r.first->id == (dup ? m[k][lb(k, v)] : id), "functor-insert"); }
   if (dup) return;
#else
   (void)dup; S::iterator i = hint ? c[k]->insert(c[k]->cend(), el(id)) : c[k]->insert(el(id)); VF_REQ(&*i == &el(id), "functor-insert");
#endif
   m[k].insert(m[k].begin() + p, id); where[id] = k;
}
static void step() {
   int k = int(R->below(2));
   switch (R->below(14)) {
   default: ins(k); break;
   case 5: { int v = R->range(0, 12); op("erase_key", k, v); std::size_t a = lb(k, v), b = ub(k, v); VF_REQ(c[k]->erase(key(v)) == b - a, "functor-erase"); for (std::size_t i = a; i < b; ++i) where[m[k][i]] = -1; m[k].erase(m[k].begin() + a, m[k].begin() + b); break; }
   case 6: { int v = R->range(0, 12); op("erase_key_and_dispose", k, v); std::size_t a = lb(k, v), b = ub(k, v); disposed_n = 0; VF_REQ(c[k]->erase_and_dispose(key(v), &dispose_fn) == b - a && disposed_n == long(b - a), "functor-erase"); for (std::size_t i = a; i < b; ++i) where[m[k][i]] = -1; m[k].erase(m[k].begin() + a, m[k].begin() + b); break; }
   case 7: { int v = R->range(0, 12); op("lookup", k, v); std::size_t a = lb(k, v), b = ub(k, v); S &s = *c[k]; VF_REQ((s.find(key(v)) == s.end()) == (a == b), "functor-find"); if (a != b) VF_REQ(lb(k, s.find(key(v))->v) == a, "functor-find"); VF_REQ(s.count(key(v)) == b - a, "functor-count");
      auto l = s.lower_bound(key(v)), u = s.upper_bound(key(v)); VF_REQ(a == m[k].size() ? l == s.end() : l->id == m[k][a], "functor-lower"); VF_REQ(b == m[k].size() ? u == s.end() : u->id == m[k][b], "functor-upper");
      // another function for the same call
      if (cf[k] != 2) { auto x = s.find(key(v), cmps[cf[k]]); VF_REQ((x == s.end()) == (a == b), "functor-find-other"); } break; }
   case 8: op("swap"); if (R->chance(1, 2)) c[0]->swap(*c[1]); else vf_adl::swp(*c[0], *c[1]); m[0].swap(m[1]); std::swap(cf[0], cf[1]); std::swap(pf[0], pf[1]); for (int i = 0; i < 2; ++i) for (int x : m[i]) where[x] = i; break;
   case 9: { op("move_construct", k); { S t(std::move(*c[k])); verify_one(t, m[k], cmps[cf[k]], pris[pf[k]], true); VF_REQ(c[k]->empty(), "functor-moved-from"); c[k].reset(); c[k].emplace(std::move(t)); } break; }
   case 10: op("move_assign", k); *c[k] = std::move(*c[1 - k]); m[0].swap(m[1]); std::swap(cf[0], cf[1]); std::swap(pf[0], pf[1]); for (int i = 0; i < 2; ++i) for (int x : m[i]) where[x] = i; break;
   case 11: { op("clone", k);
#if TREEKIND == 5
      S t(cmps[R->below(3)], pris[R->below(2)]);
#else
      S t(cmps[R->below(3)]);
#endif
      for (int i = 0; i < 3; ++i) t.insert(*clone_fn(E(i * 5)));
      t.clone_from(const_cast<const S &>(*c[k]), &clone_fn, &dispose_fn); verify_one(t, m[k], cmps[cf[k]], pris[pf[k]], true); t.clear_and_dispose(&dispose_fn); VF_REQ(made.empty(), "functor-clone-leak"); break; }
   case 12: { op("rebuild", k); for (int x : m[k]) where[x] = -1; m[k].clear(); c[k]->clear(); c[k].reset(); cf[k] = int(R->below(3)); pf[k] = int(R->below(2)); build(k); break; }
   case 13: { op("merge", k); std::vector<int> src = m[1 - k], keep; for (int x : src) { int v = el(x).v; if (uni && lb(k, v) != ub(k, v)) { keep.push_back(x); continue; } m[k].insert(m[k].begin() + ub(k, v), x); where[x] = k; } m[1 - k] = keep; c[k]->merge(*c[1 - k]); break; }
   }
   verify();
}
static void begin() { keye = new E; for (int k = 0; k < 2; ++k) { cf[k] = int(R->below(3)); pf[k] = int(R->below(2)); build(k); } }
static void finish() { for (int k = 0; k < 2; ++k) { c[k]->clear(); c[k].reset(); } delete keye; }
#elif CFG < 14
#if CFG == 12
typedef bi::unordered_multiset<E, bi::hash<Hsh>, bi::equal<Eql>> S; static const bool uni = false;
#else
typedef bi::unordered_set<E, bi::hash<Hsh>, bi::equal<Eql>, bi::key_of_value<KeyOf>, bi::constant_time_size<false>> S; static const bool uni = true;
#endif
static std::optional<S> c[2]; static int hf[2], ef[2]; static std::vector<S::bucket_type> bk[2]; static std::size_t nb[2];
static int keyv; static E *keye;
static const Key &key(int v) {
#if KOVB
   keyv = v; return keyv;
#else
   keye->v = v; return *keye;
#endif
}
static std::size_t cnt(int k, int v) { std::size_t n = 0; for (int x : m[k]) n += el(x).v == v; return n; }
static void build(int k) { nb[k] = 1 + R->below(13); std::vector<S::bucket_type>(nb[k]).swap(bk[k]); c[k].emplace(S::bucket_traits(bk[k].data(), nb[k]), hshs[hf[k]], eqls[ef[k]]); }
static void verify_one(S &s, std::vector<int> w, Hsh h, Eql e) {
   std::vector<int> g; for (const E &x : const_cast<const S &>(s)) g.push_back(x.id); std::sort(g.begin(), g.end()); std::sort(w.begin(), w.end());
   VF_REQ(g == w && s.size() == g.size() && s.empty() == g.empty(), "functor-sequence"); VF_REQ(s.hash_function() == h && s.key_eq() == e, "functor-identity"); s.check();
   for (int x : w) { auto i = s.find(key(el(x).v)); VF_REQ(i != s.end() && i->v == el(x).v, "functor-find"); }
}
static void verify() { for (int k = 0; k < 2; ++k) verify_one(*c[k], m[k], hshs[hf[k]], eqls[ef[k]]); count("verifications"); }
static void swp() { m[0].swap(m[1]); std::swap(hf[0], hf[1]); std::swap(ef[0], ef[1]); bk[0].swap(bk[1]); std::swap(nb[0], nb[1]); for (int i = 0; i < 2; ++i) for (int x : m[i]) where[x] = i; }
static void step() {
   int k = int(R->below(2));
   switch (R->below(13)) {
   default: { int id = freeid(); if (id < 0) break; int v = el(id).v = R->range(0, 12); bool dup = uni && cnt(k, v); op("insert", k, id, v);
#if CFG == 13
      auto r = c[k]->insert(el(id)); VF_REQ(r.second == !dup && r.first->v == v, "functor-insert");
#else
      c[k]->insert(el(id));
#endif
      if (!dup) { m[k].push_back(id); where[id] = k; } break; }
   case 5: case 6: { int v = R->range(0, 12); op("erase_key", k, v); std::size_t n = cnt(k, v); disposed_n = 0; VF_REQ((R->chance(1, 2) ? c[k]->erase(key(v)) : c[k]->erase_and_dispose(key(v), &dispose_fn)) == n && (disposed_n == 0 || disposed_n == long(n)), "functor-erase"); for (int x : m[k]) if (el(x).v == v) where[x] = -1; m[k].erase(std::remove_if(m[k].begin(), m[k].end(), [&](int x) { return where[x] < 0; }), m[k].end()); break; }
   case 7: { int v = R->range(0, 12); op("count", k, v); VF_REQ(c[k]->count(key(v)) == cnt(k, v) && (c[k]->find(key(v), hshs[hf[k]], eqls[1]) == c[k]->end()) == !cnt(k, v), "functor-count"); break; }
   case 8: op("swap"); c[0]->swap(*c[1]); swp(); break;
   case 9: { op("move_construct", k); S t(std::move(*c[k])); verify_one(t, m[k], hshs[hf[k]], eqls[ef[k]]); c[k].reset(); c[k].emplace(std::move(t)); break; }
   case 10: op("move_assign", k); *c[k] = std::move(*c[1 - k]); swp(); break;
   case 11: { op("clone", k); std::vector<S::bucket_type> b2(1 + R->below(17)); S t(S::bucket_traits(b2.data(), b2.size()), hshs[R->below(2)], eqls[R->below(2)]); for (int i = 0; i < 3; ++i) t.insert(*clone_fn(E(i * 5)));
      t.clone_from(const_cast<const S &>(*c[k]), &clone_fn, &dispose_fn); verify_one(t, m[k], hshs[hf[k]], eqls[ef[k]]); t.clear_and_dispose(&dispose_fn); VF_REQ(made.empty(), "functor-clone-leak"); break; }
   case 12: { op("rehash", k); std::vector<S::bucket_type> b2(1 + R->below(29)); c[k]->rehash(S::bucket_traits(b2.data(), b2.size())); bk[k].swap(b2); nb[k] = bk[k].size(); break; }
   }
   verify();
}
static void begin() { keye = new E; for (int k = 0; k < 2; ++k) { hf[k] = int(R->below(2)); ef[k] = int(R->below(2)); build(k); } }
static void finish() { for (int k = 0; k < 2; ++k) { c[k]->clear(); c[k].reset(); } delete keye; }
#else
#if CFG == 14
typedef bi::list<E> S;
#else
typedef bi::slist<E, bi::cache_last<true>> S;
#endif
static S *c[2];
typedef bool (*EP)(const E &, const E &); typedef bool (*UP)(const E &);
static bool e_lt(const E &a, const E &b) { return a.v < b.v; }
static bool e_gt(const E &a, const E &b) { return b.v < a.v; }
static bool e_same(const E &a, const E &b) { return a.v / 2 == b.v / 2; }
static bool e_odd(const E &a) { return a.v & 1; }
static bool e_small(const E &a) { return a.v < 4; }
static void verify() { for (int k = 0; k < 2; ++k) { std::size_t n = 0; for (const E &e : const_cast<const S &>(*c[k])) { VF_REQ(n < m[k].size() && e.id == m[k][n], "functor-sequence"); ++n; } VF_REQ(n == m[k].size() && c[k]->size() == n, "functor-size"); if (n) VF_REQ(c[k]->back().id == m[k][n - 1], "functor-back"); } count("verifications"); }
template <class F> static void drop(int k, F f) { std::vector<int> r; for (int x : m[k]) if (f(x)) where[x] = -1; else r.push_back(x); m[k].swap(r); }
static void step() {
   int k = int(R->below(2)); EP lt = R->chance(1, 2) ? &e_lt : &e_gt; UP p = R->chance(1, 2) ? &e_odd : &e_small; auto ml = [&](int a, int b) { return lt(el(a), el(b)); };
   switch (R->below(9)) {
   default: { int id = freeid(); if (id < 0) break; el(id).v = R->range(0, 9); op("push_back", k, id, el(id).v); c[k]->push_back(el(id)); m[k].push_back(id); where[id] = k; break; }
   case 4: op("sort", k); c[k]->sort(lt); std::stable_sort(m[k].begin(), m[k].end(), ml); break;
   case 5: { op("merge", k); for (int q = 0; q < 2; ++q) { c[q]->sort(lt); std::stable_sort(m[q].begin(), m[q].end(), ml); } c[k]->merge(*c[1 - k], lt); std::vector<int> r; std::merge(m[k].begin(), m[k].end(), m[1 - k].begin(), m[1 - k].end(), std::back_inserter(r), ml); m[k] = r; m[1 - k].clear(); for (int x : r) where[x] = k; break; }
   case 6: { op("remove_if", k); disposed_n = 0; std::size_t n = m[k].size(); bool d = R->chance(1, 2); if (d) c[k]->remove_and_dispose_if(p, &dispose_fn); else c[k]->remove_if(p); drop(k, [&](int x) { return p(el(x)); }); VF_REQ(!d || disposed_n == long(n - m[k].size()), "functor-disposals"); break; }
   case 7: { op("unique", k); bool d = R->chance(1, 2); disposed_n = 0; std::vector<int> r; for (int x : m[k]) if (!r.empty() && e_same(el(r.back()), el(x))) where[x] = -1; else r.push_back(x); std::size_t g = m[k].size() - r.size(); m[k] = r; if (d) c[k]->unique_and_dispose(&e_same, &dispose_fn); else c[k]->unique(&e_same); VF_REQ(!d || disposed_n == long(g), "functor-disposals"); break; }
   case 8: { op("clone", k); S t; for (int i = 0; i < 3; ++i) t.push_front(*clone_fn(E(i))); t.clone_from(const_cast<const S &>(*c[k]), &clone_fn, &dispose_fn); std::size_t n = 0; for (E &e : t) { VF_REQ(n < m[k].size() && e.id == m[k][n], "functor-clone"); ++n; } VF_REQ(n == m[k].size() && made.size() == n, "functor-clone"); t.clear_and_dispose(&dispose_fn); VF_REQ(made.empty(), "functor-clone-leak"); break; }
   }
   verify();
}
static void begin() { for (int k = 0; k < 2; ++k) c[k] = new S; }
static void finish() { for (int k = 0; k < 2; ++k) { c[k]->clear(); delete c[k]; } }
#endif
int main(int argc, char **argv) {
   static char nm[60]; std::snprintf(nm, sizeof nm, "function pointer functors %d", CFG);
   return vf::main_loop(argc, argv, nm, 1500, 30000, [](vf::Rng &r) {
      R = &r; Pool<E> p; pool_ = &p; p.grow(4 + r.below(26)); where.assign(p.e.size(), -1); m[0].clear(); m[1].clear(); begin(); op("start", long(p.e.size()));
      for (int n = 10 + int(r.below(50)); n; --n) step();
      finish(); p.free_all();
   });
}
