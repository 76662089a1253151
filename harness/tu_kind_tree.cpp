// The tree monitors over every hook kind. CFG = kind + 16 * tree (0 rb 1 avl 2 bs 3 splay 4 sg 5 treap)
#ifndef CFG
#define CFG 0
#endif
#define HKIND (CFG % 16)
#define KINDNO (CFG / 16)
#include "tree_driver.hpp"
#include "kinds.hpp"
using namespace vf;
#if KINDNO == 0
#define HB bi::set_base_hook
#define HM bi::set_member_hook
#define HANY bi::any_to_set_hook
#define NTR bi::rbtree_node_traits
#define SETC bi::set
#define MSETC bi::multiset
#define TREE_NAME "rb"
#elif KINDNO == 1
#define HB bi::avl_set_base_hook
#define HM bi::avl_set_member_hook
#define HANY bi::any_to_avl_set_hook
#define NTR bi::avltree_node_traits
#define SETC bi::avl_set
#define MSETC bi::avl_multiset
#define TREE_NAME "avl"
#else
#define HB bi::bs_set_base_hook
#define HM bi::bs_set_member_hook
#define HANY bi::any_to_bs_set_hook
#define NTR bi::tree_node_traits
#if KINDNO == 2
#define SETC bi::bs_set
#define MSETC bi::bs_multiset
#define TREE_NAME "bs"
#elif KINDNO == 3
#define SETC bi::splay_set
#define MSETC bi::splay_multiset
#define TREE_NAME "splay"
#elif KINDNO == 4
#define SETC bi::sg_set
#define MSETC bi::sg_multiset
#define TREE_NAME "sg"
#else
#define SETC bi::treap_set
#define MSETC bi::treap_multiset
#define TREE_NAME "treap"
#endif
#endif
#if KINDNO == 5
#define PRIO , bi::priority<PLess>
#else
#define PRIO
#endif
#if KINDNO == 4
#define CTSOPT
#else
#define CTSOPT , bi::constant_time_size<HKIND < 11 && HKIND % 2 == 0>
#endif
struct TreeFam { template <class... O> using base = HB<O...>; template <class... O> using member = HM<O...>; template <class H> struct any : HANY<H> {};
#if KINDNO < 2
   template <class V> using traits = NTR<V, HKIND == 6>;
#else
   template <class V> using traits = NTR<V>;
#endif
   template <class N> static bool node_linked(const N &n) { return n.parent_ != nullptr; } };
typedef Hooked<TreeFam, HKIND> K; typedef K::E E;
#if HKIND == 9
#define HOLD , bi::header_holder_type<HeapHolder<K::H::hooktags::node_traits::node_ptr>>
#else
#define HOLD
#endif
#define OPTS K::opt, bi::compare<KLess> CTSOPT PRIO HOLD
#define UNI (HKIND % 3 == 0)
#if HKIND == 5
#define NODTOR typedef void no_dtor_check;
#else
#define NODTOR
#endif
struct C { NODTOR typedef E elem; static const Kind kind = Kind(KINDNO);
#if UNI
   typedef SETC<E, OPTS> container; typedef MSETC<E, OPTS> other;
#else
   typedef MSETC<E, OPTS> container; typedef SETC<E, OPTS> other;
#endif
   static const bool uni = UNI, eq = !UNI, wrapper = true, kov = false, prioov = false, safe = K::safe, cts = (HKIND < 11 && HKIND % 2 == 0) || KINDNO == 4, autou = HKIND >= 11, stateful = false, fp = true;
   static bool linked(const E &e) { return K::linked(e); } template <class X, class KX = K> static void unlink(X &e) { if constexpr (HKIND >= 11) KX::unlink(e); } };
int main(int argc, char **argv) {
   static char nm[100]; std::snprintf(nm, sizeof nm, "%s %s %s", TREE_NAME, UNI ? "set" : "multiset", kind_names[HKIND]);
   return vf::main_loop(argc, argv, nm, 1500, 30000, [](vf::Rng &r) { vf::TreeDriver<C> d; d.run(r); });
}
