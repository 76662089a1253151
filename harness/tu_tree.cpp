// CFG = kind * 4 + variant.  Variants: 0 set (base hook, safe), 1 multiset (member hook, normal link), 2 raw tree with key_of_value (base hook, safe),
// 3 multiset with auto-unlink hooks (kinds that support it) or a second set flavour.
#include "tree_driver.hpp"
namespace bi = boost::intrusive;
#ifndef CFG
#define CFG 0
#endif
// CFG >= 1000: any combination of options, in mixed radix after the kind (6): type (set, multiset, plain tree), link mode (3), member hook, key_of_value, constant-time size, optimize_size, priority_of_value, floating point
#if CFG >= 1000
#define Y_ ((CFG - 1000) / 6)
#define KINDNO ((CFG - 1000) % 6)
#define VAR 9
#define TYPEV (Y_ % 3)
#define LMV bi::link_mode_type(Y_ / 3 % 3)
#define BIT(k) ((Y_ / 9 >> k & 1) != 0)
#else
#define KINDNO (CFG / 4)
#define VAR (CFG % 4)
#define BIT(k) 0
#endif
using namespace vf;
#if KINDNO == 0
#define HB bi::set_base_hook
#define HM bi::set_member_hook
#define SETC bi::set
#define MSETC bi::multiset
#define RAWC bi::rbtree
#define KN "rb"
#elif KINDNO == 1
#define HB bi::avl_set_base_hook
#define HM bi::avl_set_member_hook
#define SETC bi::avl_set
#define MSETC bi::avl_multiset
#define RAWC bi::avltree
#define KN "avl"
#else
#define HB bi::bs_set_base_hook
#define HM bi::bs_set_member_hook
#if KINDNO == 2
#define SETC bi::bs_set
#define MSETC bi::bs_multiset
#define RAWC bi::bstree
#define KN "bs"
#elif KINDNO == 3
#define SETC bi::splay_set
#define MSETC bi::splay_multiset
#define RAWC bi::splaytree
#define KN "splay"
#elif KINDNO == 4
#define SETC bi::sg_set
#define MSETC bi::sg_multiset
#define RAWC bi::sgtree
#define KN "sg"
#else
#define SETC bi::treap_set
#define MSETC bi::treap_multiset
#define RAWC bi::treap
#define KN "treap"
#endif
#endif
#if KINDNO == 4
#define CTSOPT(b)
#else
#define CTSOPT(b) , bi::constant_time_size<b>
#endif
#if KINDNO == 5
#define PRIO , bi::priority<PLess>
#else
#define PRIO
#endif
#if KINDNO == 5 && (VAR == 2 || (VAR == 9 && BIT(4)))
#define PRIOOV , bi::priority_of_value<PrioOf>
#define PRIOOVB true
#else
#define PRIOOV
#define PRIOOVB false
#endif

#if VAR == 9
#if KINDNO < 2
#define HKO , bi::optimize_size<BIT(3)>
#else
#define HKO
#endif
#if BIT(0)
struct E : Payload { HM<bi::link_mode<LMV> HKO> h; long pad; };
#define HOPT bi::member_hook<E, HM<bi::link_mode<LMV> HKO>, &E::h>
#else
struct E : Payload, HB<bi::link_mode<LMV> HKO> {};
#define HOPT bi::base_hook<HB<bi::link_mode<LMV> HKO>>
#endif
#if BIT(1)
#define KOVO , bi::key_of_value<KeyOf>
#else
#define KOVO
#endif
#if KINDNO == 4
#define FPO , bi::floating_point<BIT(5)>
#else
#define FPO
#endif
#define OPTS HOPT, bi::compare<KLess> KOVO CTSOPT(BIT(2)) PRIO PRIOOV FPO
#if TYPEV == 0
typedef SETC<E, OPTS> Main; typedef MSETC<E, OPTS> Other;
#elif TYPEV == 1
typedef MSETC<E, OPTS> Main; typedef SETC<E, OPTS> Other;
#else
typedef RAWC<E, OPTS> Main; typedef void Other;
#endif
#define LM LMV
#define ISUNI (TYPEV != 1)
#define ISEQ (TYPEV != 0)
#define CTSV (KINDNO == 4 || BIT(2))
#define STR2(x) #x
#define STR(x) STR2(x)
#define VN " options " STR(CFG)
#elif VAR == 0
struct E : Payload, HB<bi::link_mode<bi::safe_link>
#if KINDNO < 2
   , bi::optimize_size<true>
#endif
   > {};
#define OPTS bi::compare<KLess> CTSOPT(true) PRIO
typedef SETC<E, OPTS> Main; typedef MSETC<E, OPTS> Other;
#define LM bi::safe_link
#define ISUNI true
#define ISEQ false
#define CTSV true
#define VN " set base safe cts"
#elif VAR == 1
struct E : Payload { long pad; HM<bi::link_mode<bi::normal_link>> h; };
#define OPTS bi::member_hook<E, HM<bi::link_mode<bi::normal_link>>, &E::h>, bi::compare<KLess> CTSOPT(false) PRIO
typedef MSETC<E, OPTS> Main; typedef SETC<E, OPTS> Other;
#define LM bi::normal_link
#define ISUNI false
#define ISEQ true
#define CTSV (KINDNO == 4)
#define VN " multiset member normal nocts"
#elif VAR == 2
struct E : Payload, HB<bi::link_mode<bi::safe_link>> {};
#define OPTS bi::key_of_value<KeyOf>, bi::compare<KLess> CTSOPT(false), bi::size_type<unsigned> PRIO PRIOOV
#if KINDNO == 4
typedef RAWC<E, bi::key_of_value<KeyOf>, bi::compare<KLess>, bi::floating_point<false>> Main;
#else
typedef RAWC<E, OPTS> Main;
#endif
typedef void Other;
#define LM bi::safe_link
#define ISUNI true
#define ISEQ true
#define CTSV (KINDNO == 4)
#define VN " tree key_of_value safe nocts"
#else
#if KINDNO == 4 || KINDNO == 5
#define LM3 bi::safe_link
#else
#define LM3 bi::auto_unlink
#endif
struct E : Payload { HM<bi::link_mode<LM3>> h; long pad; };
#define OPTS bi::member_hook<E, HM<bi::link_mode<LM3>>, &E::h>, bi::compare<KLess> CTSOPT(false) PRIO
typedef MSETC<E, OPTS> Main; typedef SETC<E, OPTS> Other;
#define LM LM3
#define ISUNI false
#define ISEQ true
#define CTSV (KINDNO == 4)
#if KINDNO == 4 || KINDNO == 5
#define VN " multiset member safe nocts"
#else
#define VN " multiset member auto nocts"
#endif
#endif
#if VAR == 9
#define VAR9(x) (x)
#else
#define VAR9(x) false
#endif
struct C {
   typedef E elem; typedef Main container; typedef Other other;
   static const Kind kind = Kind(KINDNO);
   static const bool uni = ISUNI, eq = ISEQ, wrapper = VAR == 9 ? VAR9(TYPEV != 2) : VAR != 2, kov = VAR == 9 ? VAR9(BIT(1)) : VAR == 2, prioov = PRIOOVB, safe = LM != bi::normal_link, cts = CTSV, autou = LM == bi::auto_unlink, stateful = false, fp = VAR == 9 ? VAR9(BIT(5)) : VAR != 2;
#if VAR == 0 || VAR == 2 || (VAR == 9 && !BIT(0))
   static bool linked(const E &e) { if constexpr (safe) return e.is_linked(); else return false; }
   static void unlink(E &e) { if constexpr (autou) e.unlink(); }
#else
   static bool linked(const E &e) { if constexpr (safe) return e.h.is_linked(); else return false; }
   static void unlink(E &e) { if constexpr (autou) e.h.unlink(); }
#endif
};
#ifndef QC
#define QC 1500
#endif
int main(int argc, char **argv) {
   return vf::main_loop(argc, argv, KN VN, QC, QC * 20, [](vf::Rng &r) { vf::TreeDriver<C> d; d.run(r); });
}
