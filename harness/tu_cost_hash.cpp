// Work done by unordered containers: link accesses are counted by user-defined node traits, hasher and equality calls by the functors.
#include "common.hpp"
#include <boost/intrusive/unordered_set.hpp>
#ifndef CFG
#define CFG 0
#endif
namespace bi = boost::intrusive; using namespace vf; typedef std::size_t sz;
//                 UNI ST MU CA CT LIN P2 INC FM SAFE
#if CFG == 0
#define P_ CF<     1,  0, 0, 0, 1, 0,  0, 0,  0, 0>
#elif CFG == 1
#define P_ CF<     0,  1, 1, 1, 1, 0,  0, 0,  0, 1>
#elif CFG == 2
#define P_ CF<     0,  0, 0, 0, 0, 0,  1, 0,  0, 1>
#elif CFG == 3
#define P_ CF<     0,  0, 1, 1, 0, 0,  1, 1,  0, 0>
#elif CFG == 4
#define P_ CF<     1,  1, 0, 1, 1, 1,  0, 0,  0, 0>
#elif CFG == 5
#define P_ CF<     0,  1, 0, 0, 0, 1,  1, 0,  0, 0>
#elif CFG == 6
#define P_ CF<     1,  0, 0, 1, 0, 0,  0, 0,  1, 1>
#elif CFG == 7
#define P_ CF<     0,  1, 1, 0, 1, 0,  1, 1,  0, 1>
#elif CFG == 8
#define P_ CF<     0,  0, 1, 0, 0, 0,  0, 0,  1, 0>
#else
#define P_ CF<     0,  1, 0, 1, 1, 0,  1, 1,  0, 0>
#endif
template <bool U, bool S, bool M, bool C, bool T, bool L, bool P, bool I, bool F, bool Sa> struct CF { static const bool uni = U, store = S, multi = M, cache = C, ct = T, lin = L, p2 = P, inc = I, fm = F, safe = Sa; };
typedef P_ Cf;
static long g_acc, g_hash, g_eq; static bool g_forbid;
struct SN { SN *nx; };
struct UN : SN { UN *pg = nullptr; sz h = 0; int v = 0, id = 0; UN() { nx = nullptr; } };
struct ST { typedef SN node; typedef SN *node_ptr; typedef const SN *const_node_ptr; static SN *get_next(const SN *n) { ++g_acc; return n->nx; } static void set_next(SN *n, SN *x) { ++g_acc; n->nx = x; } };
struct UT { typedef ST reduced_slist_node_traits; typedef UN node; typedef UN *node_ptr; typedef const UN *const_node_ptr; static const bool store_hash = Cf::store, optimize_multikey = Cf::multi;
   static UN *get_next(const UN *n) { ++g_acc; return static_cast<UN *>(n->nx); } static void set_next(UN *n, UN *x) { ++g_acc; n->nx = x; }
   static UN *get_prev_in_group(const UN *n) { ++g_acc; return n->pg; } static void set_prev_in_group(UN *n, UN *x) { ++g_acc; n->pg = x; }
   static sz get_hash(const UN *n) { return n->h; } static void set_hash(UN *n, sz h) { n->h = h; } };
struct VT { typedef UT node_traits; typedef UN *node_ptr; typedef const UN *const_node_ptr; typedef UN value_type; typedef UN *pointer; typedef const UN *const_pointer; typedef UN &reference; typedef const UN &const_reference;
   static const bi::link_mode_type link_mode = Cf::safe ? bi::safe_link : bi::normal_link;
   static UN *to_node_ptr(UN &v) { return &v; } static const UN *to_node_ptr(const UN &v) { return &v; } static UN *to_value_ptr(UN *n) { return n; } static const UN *to_value_ptr(const UN *n) { return n; } };
static unsigned g_mul = 1;
static sz hv(int v) { return sz(v) * g_mul; }
struct Ha { sz operator()(const UN &e) const { ++g_hash; return hv(e.v); } sz operator()(int v) const { ++g_hash; return hv(v); } };
struct Eq { bool operator()(const UN &a, const UN &b) const { ++g_eq; return a.v == b.v; } bool operator()(int a, int b) const { ++g_eq; return a == b; } bool operator()(int a, const UN &b) const { ++g_eq; return a == b.v; } bool operator()(const UN &a, int b) const { ++g_eq; return a.v == b; } };
struct KV { typedef int type; const int &operator()(const UN &x) const { return x.v; } };
#define OPTS UN, bi::value_traits<VT>, bi::key_of_value<KV>, bi::hash<Ha>, bi::equal<Eq>, bi::constant_time_size<Cf::ct>, bi::cache_begin<Cf::cache>, bi::linear_buckets<Cf::lin>, bi::power_2_buckets<Cf::p2>, bi::incremental<Cf::inc>, bi::fastmod_buckets<Cf::fm>
typedef std::conditional<Cf::uni, bi::unordered_set<OPTS>, bi::unordered_multiset<OPTS>>::type Cont;
template <class L> struct D {
   typedef typename L::iterator It; typedef typename L::bucket_type B; typedef typename L::bucket_traits BT;
   Rng &r; std::vector<std::unique_ptr<UN>> pool; sz used = 0; std::vector<B> ba, bb, bc; std::unique_ptr<L> a, b; long na = 0, nb = 0, bka = 0, bkb = 0;
   std::vector<std::vector<int>> model; // bucket -> keys of a
   D(Rng &rr) : r(rr) {}
   UN &fresh(int v) { if (used == pool.size()) pool.emplace_back(new UN()); UN &n = *pool[used++]; n = UN(); n.v = v; n.id = int(used); return n; }
   long bsize() { static const long q[] = {1, 2, 7, 53, 389, 1543, 6151}; static const long p[] = {1, 2, 8, 64, 256, 2048, 8192}; long k = long(r.below(7)); if (Cf::fm) return long(bi::prime_fmod_size::size(r.below(9))); if (Cf::inc && k == 0) k = 1; return Cf::p2 ? p[k] : q[k]; }
   long size_of() { static const long s[] = {0, 1, 2, 5, 20, 100, 700, 2000}; return s[r.below(8)]; }
   long fill(L &l, long n, int range) { long c = 0; for (long i = 0; i < n; ++i) { UN &x = fresh(int(r.below(range))); if constexpr (Cf::uni) c += l.insert(x).second; else { l.insert(x); ++c; } } return c; }
   void reset() {
      a.reset(); b.reset(); used = 0; g_mul = r.chance(1, 4) ? 1 : r.chance(1, 3) ? 64 : 2654435761u; bka = bsize(); bkb = bsize(); ba.assign(bka + OV, B()); bb.assign(bkb + OV, B()); a.reset(new L(BT(ba.data(), bka + OV))); b.reset(new L(BT(bb.data(), bkb + OV)));
      int range = r.chance(1, 2) ? 100000 : r.range(1, 60); na = fill(*a, size_of(), range); nb = fill(*b, size_of(), range);
   }
   long elems_in_bucket(int v) { long n = 0; sz k = sz(a->bucket(v)); for (auto i = a->begin(k), e = a->end(k); i != e; ++i) ++n; return n; }
   long groups_in_bucket(int v) { long n = 0; sz k = sz(a->bucket(v)); bool f = true; int pv = 0; for (auto i = a->begin(k), e = a->end(k); i != e; ++i) { n += f || i->v != pv; f = false; pv = i->v; } return n; }
   long hash_equal(int v) { long n = 0; sz k = sz(a->bucket(v)); bool f = true; int pv = 0; for (auto i = a->begin(k), e = a->end(k); i != e; ++i) { if (hv(i->v) == hv(v)) n += Cf::multi ? (f || i->v != pv) : 1; f = false; pv = i->v; } return n; }
   template <class F> void cost(const char *what, long hlim, long elim, long lim, F f) {
      op(what, na, nb, bka, long(r.s & 0xffffff)); g_acc = g_hash = g_eq = 0; f(); count("costs-measured");
      if (g_acc > lim) fail("cost", "%s: %ld link accesses with %ld and %ld elements in %ld buckets, bound %ld", what, g_acc, na, nb, bka, lim);
      if (g_hash > hlim) fail("hash-calls", "%s: %ld hasher calls with %ld and %ld elements in %ld buckets, bound %ld", what, g_hash, na, nb, bka, hlim);
      if (g_eq > elim) fail("equal-calls", "%s: %ld equality calls with %ld and %ld elements in %ld buckets, bound %ld", what, g_eq, na, nb, bka, elim);
   }
   static constexpr long C = 60, OV = Cf::lin; static long lin(long m) { return 10 * m + 60; }
   void finish() { long n = 0; for (auto i = a->begin(); i != a->end(); ++i) ++n; VF_REQ(n == na, "cost-size"); a->clear(); b->clear(); a.reset(); b.reset(); }
   void step();
};
template <class L> void D<L>::step() {
   reset(); const L &ca = *a; auto disp = [](UN *n) { n->nx = nullptr; n->pg = nullptr; };
   long i = na ? long(r.below(na)) : 0; It p = a->begin(); for (long t = i; t--;) ++p; int k = na && r.chance(2, 3) ? p->v : int(r.below(100000));
   long Lb = elems_in_bucket(k), G = Cf::multi ? groups_in_bucket(k) : Lb, E = Cf::store && false ? hash_equal(k) : G, m = 0; for (auto &x : *a) m += x.v == k; long H1 = 1;
   long scan = 4 * bka; long W = Cf::multi ? 8 * G + C : lin(Lb); // search within a bucket
   switch (r.below(24)) {
   case 0: cost("find", H1, E, W, [&] { (void)ca.find(k); }); break;
   case 1: cost("count", H1, E + (Cf::multi ? 0 : m), W + 8 * m, [&] { VF_REQ(long(ca.count(k)) == m, "cost-count"); }); break;
   case 2: cost("equal_range", H1, E + m + 1, W + 8 * m + scan, [&] { (void)ca.equal_range(k); }); break;
   case 3: { UN &x = fresh(k); cost("insert", H1, E, W, [&] { if constexpr (Cf::uni) na += a->insert(x).second; else { a->insert(x); ++na; } }); } break;
   case 4: if constexpr (Cf::uni) { typename L::insert_commit_data d; bool ok = false; cost("insert_check", H1, E, W, [&] { ok = a->insert_check(k, d).second; }); if (ok) { UN &x = fresh(k); bool fast = r.chance(1, 2); cost(fast ? "insert_fast_commit" : "insert_commit", 0, 0, C, [&] { if (fast) a->insert_fast_commit(x, d); else a->insert_commit(x, d); }); ++na; } } break;
   case 5: case 6: if (na) { Lb = elems_in_bucket(p->v); long G2 = groups_in_bucket(p->v), m2 = 0; for (auto &x : *a) m2 += x.v == p->v; long w = Cf::multi ? 8 * (G2 + m2) + C : lin(Lb); bool first = Cf::cache && a->bucket(p->v) == a->bucket(a->begin()->v); cost("erase", Cf::store ? 0 : 1, 0, w + 20 + (first ? scan : 0), [&] { a->erase(p); }); --na; } break;
   case 7: { long e = na - i ? long(r.below(na - i + 1)) : 0; It q = p; for (long t = e; t--;) ++q; cost("erase_range", Cf::store ? 0 : 2 * e + 2, 0, lin(e) + 4 * scan + 4 * lin(Lb + 1) + 10 * na, [&] { a->erase(p, q); }); na -= e; } break;
   case 8: { cost("erase_key", H1, E + (Cf::multi ? 1 : m + 1), W + 12 * m + 20 + (Cf::cache ? scan : 0), [&] { VF_REQ(long(a->erase(k)) == m, "cost-erase"); }); na -= m; } break;
   case 9: cost("begin", 0, 0, Cf::cache ? C : C + scan, [&] { (void)a->begin(); (void)ca.cbegin(); }); break;
   case 10: cost("end-empty", 0, 0, Cf::cache || Cf::ct ? C : C + scan, [&] { (void)a->end(); VF_REQ(ca.empty() == (na == 0), "cost-empty"); }); break;
   case 11: cost("size", 0, 0, Cf::ct ? 0 : lin(na) + scan, [&] { VF_REQ(long(ca.size()) == na, "cost-size"); }); break;
   case 12: cost("iterate", 0, 0, lin(na) + scan, [&] { for (auto &x : ca) (void)x; }); break;
   case 13: cost("swap", 0, 0, C, [&] { a->swap(*b); }); std::swap(na, nb); std::swap(bka, bkb); break;
   case 14: cost("clear", 0, 0, Cf::safe ? lin(na) + 2 * scan : C + 2 * scan, [&] { a->clear(); }); na = 0; break;
   case 15: cost("clear_and_dispose", 0, 0, lin(na) + 2 * scan, [&] { a->clear_and_dispose(disp); }); na = 0; break;
   case 16: { sz was = used; cost("clone_from", 2 * nb, Cf::multi ? 2 * nb : 0, 2 * lin(na + nb) + 8 * (bka + bkb), [&] { a->clone_from(*b, [&](const UN &x) { UN &y = fresh(x.v); return &y; }, disp); }); VF_REQ(long(used - was) == nb, "clone-count"); na = nb; } break;
   case 17: case 18: { long nk = bsize(); bc.assign(nk + OV, B()); bool full = r.chance(1, 4); long groups = na; if (Cf::multi) { groups = 0; for (long q = 0; q < bka; ++q) { bool f = true; int pv = 0; for (auto x = a->begin(sz(q)), e = a->end(sz(q)); x != e; ++x) { groups += f || x->v != pv; f = false; pv = x->v; } } }
      if (full) cost("full_rehash", 2 * (Cf::multi ? groups : na), 0, 2 * lin(na) + 12 * bka, [&] { a->full_rehash(); }); else { cost("rehash", Cf::store ? 0 : groups, 0, 2 * lin(na) + 8 * (bka + nk), [&] { a->rehash(BT(bc.data(), nk + OV)); }); ba.swap(bc); bka = nk; } } break;
   case 19: if constexpr (Cf::inc) for (int t = 0; t < 6; ++t) { bool g = r.chance(3, 4); long sp = long(a->split_count()); long from = g ? sp - bka / 2 : sp - 1; long Ln = 0; if (g ? sp < bka : sp > bka / 2) for (auto x = a->begin(sz(from)), e = a->end(sz(from)); x != e; ++x) ++Ln;
      if (!g && sp > bka / 2) for (auto x = a->begin(sz(from - bka / 2)), e = a->end(sz(from - bka / 2)); x != e; ++x) ++Ln;
      cost("incremental_rehash", Cf::store ? 0 : Ln, 0, 2 * lin(Ln) + (Cf::cache ? scan : 0), [&] { a->incremental_rehash(g); }); } break;
   case 20: if (na) cost("iterator_to", Cf::store || !Cf::lin ? 0 : 2, 0, C, [&] { VF_REQ(a->iterator_to(*p) == p, "cost-iterator_to"); VF_REQ(&*a->local_iterator_to(*p) == &*p, "cost-iterator_to"); }); break;
   case 21: { sz q = r.below(bka); long e = 0; for (auto x = a->begin(q), z = a->end(q); x != z; ++x) ++e; cost("bucket_size", 0, 0, lin(e), [&] { VF_REQ(long(a->bucket_size(q)) == e, "cost-bucket_size"); }); cost("bucket-begin-end", 0, 0, C, [&] { (void)a->begin(q); (void)a->end(q); (void)a->bucket_count(); (void)a->bucket_pointer(); }); } break;
   case 22: cost("bucket", 1, 0, C, [&] { (void)a->bucket(k); }); break;
   default: cost("move-construct", 0, 0, 3 * C, [&] { L t(std::move(*a)); VF_REQ(t.bucket_count() == sz(bka), "cost-move"); t.swap(*a); }); break;
   }
   finish();
}
int main(int argc, char **argv) {
   static char nm[200]; std::snprintf(nm, sizeof nm, "unordered_%sset cost%s%s%s%s%s%s%s%s%s", Cf::uni ? "" : "multi", Cf::store ? " store_hash" : "", Cf::multi ? " optimize_multikey" : "", Cf::cache ? " cache_begin" : "", Cf::ct ? " ct-size" : "", Cf::lin ? " linear_buckets" : "", Cf::p2 ? " power_2" : "", Cf::inc ? " incremental" : "", Cf::fm ? " fastmod" : "", Cf::safe ? " safe" : " normal");
   return vf::main_loop(argc, argv, nm, 500, 5000, [](Rng &r) { D<Cont> d(r); int n = r.range(3, 6); for (int i = 0; i < n; ++i) d.step(); });
}
