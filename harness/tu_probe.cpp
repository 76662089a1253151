// Probes for the recorded findings: each replays one specific input against the real code and says whether it still fails that way.
#include "vf.hpp"
#include <boost/intrusive/slist.hpp>
#include <boost/intrusive/unordered_set.hpp>
#include <boost/intrusive/treap_set.hpp>
#include <boost/intrusive/bs_set_hook.hpp>
#include <boost/intrusive/bs_set.hpp>
#include <cstdio>
#include <vector>
#include <string>
#ifndef CFG
#define CFG 0
#endif
namespace bi = boost::intrusive;
static int evals = 0;
static void finding(const char *id, int state, const char *what) { std::printf("FINDING\t%s\t%s\t%s\n", id, state == 0 ? "absent" : state == 1 ? "present" : "other", what); ++evals; }

template <class Hook> struct TE : Hook { int v, p; TE(int v_ = 0, int p_ = 0) : v(v_), p(p_) {} };
template <class E> struct KL { bool operator()(const E &a, const E &b) const { return a.v < b.v; } };
template <class E> struct PL { bool operator()(const E &a, const E &b) const { return a.p < b.p; } };
// number of elements that precede their parent in priority order
template <class T> int violations(T &t) {
   typedef typename T::node_traits NT; typedef typename T::value_traits VT; int bad = 0;
   for (auto i = t.begin(); i != t.end(); ++i) { auto n = VT::to_node_ptr(*i); auto l = NT::get_left(n), r = NT::get_right(n); if (l && VT::to_value_ptr(l)->p < i->p) ++bad; if (r && VT::to_value_ptr(r)->p < i->p) ++bad; }
   return bad;
}
int main() {
   std::printf("CONFIG\tprobe %d\n", CFG);
#if CFG == 0 || CFG == 1
   // keys 1..7, priorities chosen so that removing the root with a plain tree erasure lifts its in-order successor over a smaller priority
   {
      typedef bi::bs_set_base_hook<bi::link_mode<CFG == 0 ? bi::safe_link : bi::auto_unlink>> H; typedef TE<H> E;
      typedef bi::treap_multiset<E, bi::base_hook<H>, bi::compare<KL<E>>, bi::priority<PL<E>>, bi::constant_time_size<false>> T;
      E e[7]; int pr[7] = {3, 2, 4, 1, 6, 5, 7}; T t;
      for (int i = 0; i < 7; ++i) { e[i].v = i + 1; e[i].p = pr[i]; t.insert(e[i]); }
      bool ok0 = violations(t) == 0 && &*t.top() == &e[3];
#if CFG == 0
      T::remove_node(e[3]);
      const char *id = "C05-treap-remove_node";
#else
      e[3].unlink();
      const char *id = "C09-treap-auto-unlink";
#endif
      int want[6] = {1, 2, 3, 5, 6, 7}, n = 0; bool order = true; for (auto i = t.begin(); i != t.end() && n < 7; ++i, ++n) order = order && n < 6 && i->v == want[n];
      int bad = violations(t);
      finding(id, !ok0 || !order || n != 6 || e[3].is_linked() ? 2 : bad ? 1 : 0, "heap order after removing the top of a seven-element treap without its priority functor");
      t.clear();
   }
#elif CFG == 2
   {
      typedef bi::slist_base_hook<bi::link_mode<bi::safe_link>> H; typedef TE<H> E;
      typedef bi::slist<E, bi::base_hook<H>, bi::linear<true>> L;
      E a(1), b(2); L l; l.push_front(b); l.push_front(a);
      bool al = a.is_linked(), bl = b.is_linked(); l.clear();
      finding("C08-linear-last", !al || a.is_linked() || b.is_linked() ? 2 : bl ? 0 : 1, "is_linked() of the last of two elements of a linear slist");
   }
   {
      typedef bi::unordered_set_base_hook<bi::link_mode<bi::safe_link>> H; typedef TE<H> E;
      struct Ha { std::size_t operator()(const E &x) const { return std::size_t(x.v); } }; struct Eq { bool operator()(const E &x, const E &y) const { return x.v == y.v; } };
      typedef bi::unordered_set<E, bi::base_hook<H>, bi::linear_buckets<true>, bi::hash<Ha>, bi::equal<Eq>> L;
      L::bucket_type bk[5]; E a(1); L l(L::bucket_traits(bk, 5)); l.insert(a); bool al = a.is_linked(); l.clear();
      finding("C08-linear-buckets-last", a.is_linked() ? 2 : al ? 0 : 1, "is_linked() of the only element of a bucket of an unordered_set with linear buckets");
   }
#elif CFG == 3
   {
      typedef bi::unordered_set_base_hook<> H; typedef TE<H> E;
      struct Ha { std::size_t operator()(const E &x) const { return std::size_t(x.v); } }; struct Eq { bool operator()(const E &x, const E &y) const { return x.v == y.v; } };
      typedef bi::unordered_set<E, bi::base_hook<H>, bi::hash<Ha>, bi::equal<Eq>> C;
      typedef bi::unordered_set<E, bi::base_hook<H>, bi::hash<Ha>, bi::equal<Eq>, bi::fastmod_buckets<true>> F;
      std::vector<std::size_t> l; for (std::size_t i = 0; i < 64; ++i) { l.push_back(bi::prime_fmod_size::size(i)); if (bi::prime_fmod_size::lower_size_index(std::size_t(-1)) == i) break; }
      int lo = 0, up = 0; // bits: 1 documented answers only, 2 the recorded wrong side, 4 anything else
      auto one = [&](std::size_t n) {
         std::size_t ge = l.back(), gt = l.back(), le = l.front(); for (std::size_t i = l.size(); i--;) { if (l[i] >= n) ge = l[i]; if (l[i] > n) gt = l[i]; } for (std::size_t x : l) if (x <= n) le = x;
         for (int f = 0; f < 2; ++f) { std::size_t u = f ? F::suggested_upper_bucket_count(n) : C::suggested_upper_bucket_count(n), w = f ? F::suggested_lower_bucket_count(n) : C::suggested_lower_bucket_count(n);
            if (ge != gt) up |= u == ge ? 1 : u == gt ? 2 : 4; else if (u != ge) up |= 4;
            if (le != ge) lo |= w == le ? 1 : w == ge ? 2 : 4; else if (w != le) lo |= 4; }
         ++evals; };
      for (std::size_t x : l) for (int d = -2; d <= 2; ++d) one(x + std::size_t(d));
      for (std::size_t n = 0; n < 3000; ++n) one(n);
      for (int k = 0; k < 64; ++k) { one((std::size_t(1) << k) - 1); one(std::size_t(1) << k); one((std::size_t(1) << k) + 1); one(std::size_t(-1) >> k); }
      finding("C21-suggested-upper", up == 1 ? 0 : up == 2 ? 1 : 2, "suggested_upper_bucket_count of a count that is itself available");
      finding("C21-suggested-lower", lo == 1 ? 0 : lo == 2 ? 1 : 2, "suggested_lower_bucket_count of a request between two available counts");
      typedef bi::unordered_set<E, bi::base_hook<H>, bi::hash<Ha>, bi::equal<Eq>, bi::power_2_buckets<true>> P2;
      typedef bi::unordered_set<E, bi::base_hook<H>, bi::hash<Ha>, bi::equal<Eq>, bi::power_2_buckets<true>, bi::incremental<true>> IN;
      int p2 = 0; for (std::size_t n = 1; n < 3000; ++n) { std::size_t v[4] = {P2::suggested_upper_bucket_count(n), P2::suggested_lower_bucket_count(n), IN::suggested_upper_bucket_count(n), IN::suggested_lower_bucket_count(n)};
         std::size_t w[2] = {C::suggested_upper_bucket_count(n), C::suggested_lower_bucket_count(n)}; for (int i = 0; i < 4; ++i) { bool pow = !(v[i] & (v[i] - 1)), side = i & 1 ? v[i] <= n : v[i] >= n; p2 |= v[i] == w[i & 1] ? 2 : pow && side ? 1 : 4; } }
      finding("C21-suggested-power-of-two", p2 == 1 ? 0 : p2 == 2 ? 1 : 2, "suggested bucket counts of power_2_buckets and incremental containers");
   }
#elif CFG == 4
   {
      // the bucket traits of the manual's example: a pointer and a constant, copied by its move constructor
      typedef bi::unordered_set_base_hook<> H; typedef TE<H> E; typedef bi::base_hook<H> O;
      typedef bi::unordered_bucket<O>::type B; typedef bi::unordered_bucket_ptr<O>::type BP;
      struct BT { BP p; BT(BP q) : p(q) {} BP bucket_begin() const { return p; } std::size_t bucket_count() const { return 10; } };
      struct Ha { std::size_t operator()(const E &x) const { return std::size_t(x.v); } }; struct Eq { bool operator()(const E &x, const E &y) const { return x.v == y.v; } };
      typedef bi::unordered_multiset<E, O, bi::bucket_traits<BT>, bi::hash<Ha>, bi::equal<Eq>, bi::constant_time_size<false>> C;
      B bk[10]; E e[3]; C *a = new C(BT(bk)); for (int i = 0; i < 3; ++i) { e[i].v = i * 4; a->insert(e[i]); }
      C b(boost::move(*a)); std::size_t n0 = b.size(); delete a;
      int in = 0, linked = 0; for (auto &x : b) { in += &x == &e[x.v / 4]; } for (auto &x : e) linked += x.is_linked();
      finding("C15-move-user-bucket-traits", n0 != 3 ? 2 : in == 3 && linked == 3 ? 0 : in == 0 && linked == 0 ? 1 : 2, "elements left in the target of a move after the source is destroyed");
      b.clear();
   }
#endif
   std::printf("EVALS\t%d\nDISTINCT\t%d\nSTATES\t%d\nDONE\n", evals, evals, evals);
}
