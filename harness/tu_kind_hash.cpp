// The unordered monitors over every hook kind. CFG = kind + 16 * option set
#ifndef CFG
#define CFG 0
#endif
#define HKIND (CFG % 16)
#define OSET (CFG / 16)
#include "hash_driver.hpp"
#include "kinds.hpp"
using namespace vf;
// any hooks always store the hash and group links
#if HKIND == 3 || HKIND == 4 || HKIND == 8 || HKIND == 10
#define STORE true
#define MULTI true
#else
#define STORE (OSET % 2 == 1)
#define MULTI (OSET >= 2)
#endif
struct HashFam { template <class... O> using base = bi::unordered_set_base_hook<O..., bi::store_hash<STORE>, bi::optimize_multikey<MULTI>>; template <class... O> using member = bi::unordered_set_member_hook<O..., bi::store_hash<STORE>, bi::optimize_multikey<MULTI>>; template <class H> struct any : bi::any_to_unordered_set_hook<H> {}; template <class V> using traits = bi::unordered_node_traits<V, STORE, MULTI>;
   template <class N> static bool node_linked(const N &n) { return n.next_ && n.next_ != &n; } };
typedef Hooked<HashFam, HKIND> K; typedef K::E E;
#define UNI (OSET == 0)
#if HKIND == 5
#define NODTOR typedef void no_dtor_check;
#else
#define NODTOR
#endif
struct C { NODTOR typedef E elem; static const bool uni = UNI, wrapper = true, kov = false, safe = K::safe, autou = HKIND >= 11, cts = HKIND < 11 && OSET != 2, cache = HKIND < 11 && OSET >= 1, store = STORE, multi = MULTI, p2 = OSET == 1, incr = false, linear = false, fastmod = OSET == 3, cmph = false;
#define OPTS K::opt, bi::hash<HHash>, bi::equal<HEq>, bi::constant_time_size<cts>, bi::cache_begin<cache>, bi::power_2_buckets<p2>, bi::fastmod_buckets<fastmod>
#if UNI
   typedef bi::unordered_set<E, OPTS> container;
#else
   typedef bi::unordered_multiset<E, OPTS> container;
#endif
   static bool linked(const E &e) { return K::linked(e); } template <class X, class KX = K> static void unlink(X &e) { if constexpr (HKIND >= 11) KX::unlink(e); } };
int main(int argc, char **argv) {
   static char nm[120]; std::snprintf(nm, sizeof nm, "%s options %d%s%s %s", UNI ? "unordered_set" : "unordered_multiset", OSET, STORE ? " store_hash" : "", MULTI ? " optimize_multikey" : "", kind_names[HKIND]);
   return vf::main_loop(argc, argv, nm, 1500, 30000, [](vf::Rng &r) { vf::HashDriver<C> d; d.run(r); });
}
