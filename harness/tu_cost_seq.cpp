// Work done by list and slist operations: link accesses are counted by the node traits, predicate calls by the functors.
// CFG % 8: 0 list ct-size, 1 list, 2 slist circular ct-size, 3 slist circular cache_last ct-size, 4 slist linear, 5 slist linear cache_last, 6 slist circular cache_last, 7 slist circular;  CFG / 8: 0 normal links, 1 safe links
#include "common.hpp"
#include <boost/intrusive/list.hpp>
#include <boost/intrusive/slist.hpp>
#include <cmath>
#ifndef CFG
#define CFG 0
#endif
#define K8 (CFG % 8)
#define SAFE (CFG / 8)
namespace bi = boost::intrusive; using namespace vf;
static long g_acc;
struct N { N *nx = nullptr, *pv = nullptr; int v = 0, id = 0; };
static bool operator<(const N &a, const N &b) { tick(); return a.v < b.v; }
static bool operator==(const N &a, const N &b) { tick(); return a.v == b.v; }
struct Tr {
   typedef N node; typedef N *node_ptr; typedef const N *const_node_ptr;
   static node_ptr get_next(const_node_ptr n) { ++g_acc; return n->nx; } static void set_next(node_ptr n, node_ptr x) { ++g_acc; n->nx = x; }
   static node_ptr get_previous(const_node_ptr n) { ++g_acc; return n->pv; } static void set_previous(node_ptr n, node_ptr x) { ++g_acc; n->pv = x; }
};
struct VT { typedef Tr node_traits; typedef N *node_ptr; typedef const N *const_node_ptr; typedef N value_type; typedef N *pointer; typedef const N *const_pointer; typedef N &reference; typedef const N &const_reference;
   static const bi::link_mode_type link_mode = SAFE ? bi::safe_link : bi::normal_link;
   static node_ptr to_node_ptr(N &v) { return &v; } static const_node_ptr to_node_ptr(const N &v) { return &v; } static pointer to_value_ptr(node_ptr n) { return n; } static const_pointer to_value_ptr(const_node_ptr n) { return n; } };
constexpr bool LIST = K8 < 2, CT = K8 == 0 || K8 == 2 || K8 == 3, CACHE = K8 == 3 || K8 == 5 || K8 == 6, LINEAR = K8 == 4 || K8 == 5;
#if K8 < 2
typedef bi::list<N, bi::value_traits<VT>, bi::constant_time_size<CT>> L;
#else
typedef bi::slist<N, bi::value_traits<VT>, bi::constant_time_size<CT>, bi::cache_last<CACHE>, bi::linear<LINEAR>> L;
#endif
template <class L> struct D {
   typedef typename L::iterator It;
   Rng &r; std::vector<std::unique_ptr<N>> pool; std::size_t used = 0; L a, b; long na = 0, nb = 0;
   D(Rng &rr) : r(rr) {}
   N &fresh() { if (used == pool.size()) pool.emplace_back(new N()); N &n = *pool[used++]; n.nx = n.pv = nullptr; n.v = int(r.below(1 + r.below(2000))); n.id = int(used); return n; }
   void fill(L &l, long n, bool sorted) { std::vector<int> v; l.clear(); std::vector<N *> e; for (long i = 0; i < n; ++i) e.push_back(&fresh()); if (sorted) { for (N *x : e) v.push_back(x->v); std::sort(v.begin(), v.end()); std::reverse(v.begin(), v.end()); } for (std::size_t i = 0; i < e.size(); ++i) { if (sorted) e[i]->v = v[i]; l.push_front(*e[i]); } }
   // run f and require at most lim link accesses
   template <class F> void cost(const char *what, long lim, F f) {
      op(what, na, nb, long(r.s & 0xffffff)); g_acc = 0; fault().calls = 0; f(); count("costs-measured");
      if (g_acc > lim) fail("cost", "%s: %ld link accesses with %ld and %ld elements, bound %ld", what, g_acc, na, nb, lim);
   }
   template <class F> void calls(const char *what, long lo, long hi, long lim, F f) { cost(what, lim, f); if (fault().calls < lo || fault().calls > hi) fail("calls", "%s: %ld functor calls with %ld and %ld elements, documented %ld..%ld", what, fault().calls, na, nb, lo, hi); }
   static constexpr long C = 40; static long lin(long m) { return 14 * m + 60; }
   It at(L &l, long i) { It x = l.begin(); while (i--) ++x; return x; }
   long size_of() { static const long s[] = {0, 1, 2, 3, 7, 8, 40, 257, 1500, 4000}; return s[r.below(10)]; }
   void step();
   void reset(bool sorted = false) { used = 0; a.clear(); b.clear(); na = size_of(); nb = size_of(); fill(a, na, sorted); fill(b, nb, sorted); reset_fault(0); }
   void finish() { VF_REQ(long(std::distance(a.begin(), a.end())) == na, "cost-size"); VF_REQ(long(std::distance(b.begin(), b.end())) == nb, "cost-size"); a.clear(); b.clear(); }
};
template <class L> void D<L>::step() {
   int o = int(r.below(32)); reset(o >= 22 && o <= 23);
   long i = na ? long(r.below(na)) : 0, j = na ? i + long(r.below(na - i + 1)) : 0; It p = at(a, i), q = at(a, j), pe = r.chance(1, 2) ? a.end() : p;
   const L &ca = a; long nlog = long(double(na) * (std::log2(double(na + 1)) + 2)) + 4; (void)pe; (void)q;
   auto disp = [](N *n) { n->nx = n->pv = nullptr; };
   switch (o) {
   case 0: cost("push_front", C, [&] { a.push_front(fresh()); }); ++na; break;
   case 1: if constexpr (LIST || CACHE) { cost("push_back", C, [&] { a.push_back(fresh()); }); ++na; } break;
   case 2: if (na) { cost("pop_front", C, [&] { a.pop_front(); }); --na; } break;
   case 3: if constexpr (LIST) if (na) { cost("pop_back", C, [&] { a.pop_back(); }); --na; } break;
   case 4: cost("size", CT ? 0 : lin(na), [&] { VF_REQ(long(ca.size()) == na, "cost-size"); }); break;
   case 5: cost("begin-end-empty", C, [&] { VF_REQ(ca.empty() == (na == 0), "cost-empty"); (void)a.begin(); (void)a.end(); (void)ca.cbegin(); (void)ca.cend(); if (na) { (void)a.front(); if constexpr (LIST || CACHE) (void)a.back(); if constexpr (!LIST && CACHE) (void)a.last(); } }); break;
   case 6: cost("swap", LIST || CACHE || LINEAR ? 2 * C : lin(na + nb), [&] { a.swap(b); }); std::swap(na, nb); break;
   case 7: { long k = na ? long(r.below(na + 3)) : 0; cost("shift_forward", LIST ? lin(k) : lin(na + k), [&] { a.shift_forward(k); }); } break;
   case 8: { long k = na ? long(r.below(na + 3)) : 0; cost("shift_backwards", LIST ? lin(k) : lin(na + k), [&] { a.shift_backwards(k); }); } break;
   case 9: if constexpr (LIST) { cost("insert", C, [&] { a.insert(pe, fresh()); }); ++na; } else { It w = na ? p : a.before_begin(); cost("insert_after", C, [&] { a.insert_after(w, fresh()); }); ++na; } break;
   case 10: if constexpr (LIST) { if (na) { cost("erase", C, [&] { a.erase(p); }); --na; } } else if (na > i + 1) { cost("erase_after", C, [&] { a.erase_after(p); }); --na; } break;
   case 11: if constexpr (LIST) { cost("erase_range", SAFE || CT ? lin(j - i) : C, [&] { a.erase(p, q); }); na -= j - i; } else if (j > i) { cost("erase_after_range", SAFE || CT ? lin(j - i) : C, [&] { a.erase_after(p, q); }); na -= j - i - 1; } break;
   case 12: if constexpr (LIST) { cost("erase_range_n", SAFE ? lin(j - i) : C, [&] { a.erase(p, q, j - i); }); na -= j - i; } else if (j > i) { cost("erase_after_range_n", SAFE ? lin(j - i) : C, [&] { a.erase_after(p, q, j - i - 1); }); na -= j - i - 1; } break;
   case 13: cost("clear", SAFE ? lin(na) : C, [&] { a.clear(); }); na = 0; break;
   case 14: cost("clear_and_dispose", lin(na), [&] { a.clear_and_dispose(disp); }); na = 0; break;
   case 15: { std::size_t was = used; cost("clone_from", lin(na + nb), [&] { a.clone_from(b, [&](const N &x) { N &y = fresh(); y.v = x.v; return &y; }, disp); }); VF_REQ(long(used - was) == nb, "clone-count"); na = nb; } break;
   case 16: if constexpr (LIST) cost("splice_all", C, [&] { a.splice(pe, b); }); else { It w = na && r.chance(1, 2) ? p : a.before_begin(); cost("splice_after_all", CACHE ? C : lin(nb), [&] { a.splice_after(w, b); }); } na += nb; nb = 0; break;
   case 17: if (nb) { long k = long(r.below(nb)); It e = at(b, k); if constexpr (LIST) { cost("splice_one", C, [&] { a.splice(pe, b, e); }); ++na; --nb; } else if (k + 1 < nb) { It w = na ? p : a.before_begin(); cost("splice_after_one", C, [&] { a.splice_after(w, b, e); }); ++na; --nb; } } break;
   case 18: case 19: if (nb) { long k = long(r.below(nb)), m = k + long(r.below(nb - k)); bool n = o == 19; It f = at(b, k), e = at(b, m); if constexpr (LIST) { if (n) cost("splice_range_n", C, [&] { a.splice(pe, b, f, e, m - k); }); else cost("splice_range", CT ? lin(m - k) : C, [&] { a.splice(pe, b, f, e); }); na += m - k; nb -= m - k; }
      else { It w = na ? p : a.before_begin(); if (n) cost("splice_after_range_n", C, [&] { a.splice_after(w, b, f, e, m - k); }); else cost("splice_after_range", CT ? lin(m - k) : C, [&] { a.splice_after(w, b, f, e); }); na += m - k; nb -= m - k; } } break;
   case 20: calls("sort", 0, nlog, 40 * nlog + 800, [&] { a.sort(); }); break;
   case 21: calls("sort_pred", 0, nlog, 40 * nlog + 800, [&] { a.sort([](const N &x, const N &y) { tick(); return x.v > y.v; }); }); break;
   case 22: calls("merge", 0, na + nb ? na + nb - 1 : 0, lin(na + nb), [&] { a.merge(b); }); na += nb; nb = 0; break;
   case 23: calls("merge_pred", 0, na + nb ? na + nb - 1 : 0, lin(na + nb), [&] { a.merge(b, [](const N &x, const N &y) { tick(); return x.v < y.v; }); }); na += nb; nb = 0; break;
   case 24: cost("reverse", lin(na), [&] { a.reverse(); }); break;
   case 25: { N key; key.v = na ? p->v : 1; long m = 0; for (N &x : a) m += x.v == key.v; calls("remove", na, na, lin(na), [&] { if (r.chance(1, 2)) a.remove(key); else a.remove_and_dispose(key, disp); }); na -= m; } break;
   case 26: { long m = 0; for (N &x : a) m += x.v % 3 == 0; auto pr = [](const N &x) { tick(); return x.v % 3 == 0; }; calls("remove_if", na, na, lin(na), [&] { if (r.chance(1, 2)) a.remove_if(pr); else a.remove_and_dispose_if(pr, disp); }); na -= m; } break;
   case 27: { long m = 0; int pv = 0; bool first = true; for (N &x : a) { if (!first && x.v == pv) ++m; pv = x.v; first = false; } calls("unique", na ? na - 1 : 0, na ? na - 1 : 0, lin(na), [&] { if (r.chance(1, 2)) a.unique(); else a.unique_and_dispose(disp); }); na -= m; } break;
   case 28: { long m = long(r.below(300)); std::vector<N> v(m); cost("insert_range", lin(m), [&] { if constexpr (LIST) a.insert(pe, v.begin(), v.end()); else a.insert_after(na ? p : a.before_begin(), v.begin(), v.end()); }); na += m; finish(); v.clear(); na = nb = 0; return; }
   case 29: { long m = long(r.below(300)); std::vector<N> v(m); cost("assign", lin(m + na), [&] { a.assign(v.begin(), v.end()); }); na = m; finish(); v.clear(); na = nb = 0; return; }
   case 30: if (na) { cost("iterator_to", C, [&] { VF_REQ(a.iterator_to(*p) == p && ca.iterator_to(*p) == typename L::const_iterator(p) && L::s_iterator_to(*p) == p, "cost-iterator_to"); }); if constexpr (!LIST) { cost("previous", lin(i), [&] { (void)a.previous(p); }); if constexpr (CACHE) cost("previous_end", C, [&] { (void)a.previous(a.end()); }); cost("insert", lin(i), [&] { a.insert(p, fresh()); }); ++na; cost("erase", lin(i + 1), [&] { a.erase(p); }); --na; 
            if constexpr (CACHE) { cost("insert_end", C, [&] { a.insert(a.end(), fresh()); }); ++na; } } else cost("traverse", lin(na), [&] { for (auto &x : ca) (void)x; for (auto x = ca.rbegin(); x != ca.rend(); ++x) (void)*x; }); } break;
   default: cost("move-construct", LIST || CACHE || LINEAR ? 4 * C : lin(na), [&] { L t(std::move(a)); VF_REQ(na == 0 || !t.empty(), "cost-move"); a = std::move(t); }); break;
   }
   finish();
}
int main(int argc, char **argv) {
   static const char *nm[] = {"list ct-size", "list", "slist ct-size", "slist cache_last ct-size", "slist linear", "slist linear cache_last", "slist cache_last", "slist"};
   static std::string s = std::string(nm[K8]) + (SAFE ? " safe links" : " normal links") + " cost";
   return vf::main_loop(argc, argv, s.c_str(), 1000, 20000, [](Rng &r) { D<L> d(r); int n = r.range(3, 8); for (int i = 0; i < n; ++i) d.step(); });
}
