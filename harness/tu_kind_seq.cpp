// The list and slist monitors over every hook kind. CFG = kind + 16 * family (0 list, 1 slist circular, 2 slist circular cache_last, 3 slist linear where safe links allow)
#ifndef CFG
#define CFG 0
#endif
#define KIND (CFG % 16)
#define FAMNO (CFG / 16)
#include "list_driver.hpp"
#include "kinds.hpp"
using namespace vf;
struct ListFam { template <class... O> using base = bi::list_base_hook<O...>; template <class... O> using member = bi::list_member_hook<O...>; template <class H> struct any : bi::any_to_list_hook<H> {}; template <class V> using traits = bi::list_node_traits<V>; template <class N> static bool node_linked(const N &n) { return n.next_ && n.next_ != &n; } };
struct SlistFam { template <class... O> using base = bi::slist_base_hook<O...>; template <class... O> using member = bi::slist_member_hook<O...>; template <class H> struct any : bi::any_to_slist_hook<H> {}; template <class V> using traits = bi::slist_node_traits<V>; template <class N> static bool node_linked(const N &n) { return n.next_ && n.next_ != &n; } };
#if FAMNO == 0
typedef ListFam F;
#else
typedef SlistFam F;
#endif
typedef Hooked<F, KIND> K; typedef K::E E;
#if KIND == 9
#define HOLD , bi::header_holder_type<HeapHolder<K::H::hooktags::node_traits::node_ptr>>
#else
#define HOLD
#endif
#if KIND == 5
#define NODTOR typedef void no_dtor_check;
#else
#define NODTOR
#endif
struct C { NODTOR typedef E elem; static const bool safe = K::safe, cts = KIND < 11 && KIND % 2 == 0, autou = KIND >= 11, stateful = false, slist = FAMNO != 0, last = FAMNO >= 2, linear = FAMNO == 3;
#if FAMNO == 0
   typedef bi::list<E, K::opt, bi::constant_time_size<cts> HOLD> container;
#else
   typedef bi::slist<E, K::opt, bi::constant_time_size<cts>, bi::cache_last<last>, bi::linear<linear> HOLD> container;
#endif
   static bool linked(const E &e) { return K::linked(e); } template <class X, class KX = K> static void unlink(X &e) { if constexpr (KIND >= 11) KX::unlink(e); } };
int main(int argc, char **argv) {
   static char nm[100]; std::snprintf(nm, sizeof nm, "%s%s%s %s", FAMNO ? "slist" : "list", C::last ? " cache_last" : "", C::linear ? " linear" : "", kind_names[KIND]);
   return vf::main_loop(argc, argv, nm, 1500, 30000, [](vf::Rng &r) { vf::ListDriver<C> d; d.run(r); });
}
