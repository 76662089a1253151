// CFG selects one configuration of the unordered containers.
#include "hash_driver.hpp"
namespace bi = boost::intrusive;
#ifndef CFG
#define CFG 0
#endif
using namespace vf;
// KIND: 0 set, 1 multiset, 2 raw hashtable (multi) ; HK: hook options ; OP: container options
#define SAFE bi::link_mode<bi::safe_link>
#define NORM bi::link_mode<bi::normal_link>
#define AUTO bi::link_mode<bi::auto_unlink>
#define FLAGS(cts_, cache_, store_, multi_, p2_, incr_, linear_, fast_, cmph_) static const bool cts = cts_, cache = cache_, store = store_, multi = multi_, p2 = p2_, incr = incr_, linear = linear_, fastmod = fast_, cmph = cmph_;
#define CTS(b) bi::constant_time_size<b>
#define CB(b) bi::cache_begin<b>
#define SH(b) bi::store_hash<b>
#define OM(b) bi::optimize_multikey<b>
#define P2 bi::power_2_buckets<true>
#define INC bi::incremental<true>
#define LIN bi::linear_buckets<true>
#define FM bi::fastmod_buckets<true>
#define CH bi::compare_hash<true>
#define MEMB 0
#define KOV 0
#define LMODE SAFE
#define RAWT 0
#if CFG >= 1000
// any combination of options: 1 unique, 2 store_hash, 4 optimize_multikey, 8 cache_begin, 16/32/48 power of two/incremental/fastmod, 64 linear, 128 constant-time size, 256 key_of_value, 512 plain hashtable, 1024 member hook, 2048 compare_hash, 4096 * link mode
#define X(b) (((CFG - 1000) & (b)) != 0)
#define XI ((CFG - 1000) >> 4 & 3)
#define UNI ((CFG - 1000) & 1)
#undef MEMB
#define MEMB ((CFG - 1000) & 1024)
#undef KOV
#define KOV ((CFG - 1000) & 256)
#undef RAWT
#define RAWT ((CFG - 1000) & 512)
#undef LMODE
#define LMODE bi::link_mode<bi::link_mode_type((CFG - 1000) >> 12 & 3)>
#define HOOKOPT SH(X(2)), OM(X(4))
#define COPT CTS(X(128)), CB(X(8)), bi::power_2_buckets<XI == 1 || XI == 2>, bi::incremental<XI == 2>, bi::fastmod_buckets<XI == 3>, bi::linear_buckets<X(64)>, bi::compare_hash<X(2048)>
#define FL FLAGS(X(128), X(8), X(2), X(4) && !X(1), XI == 1 || XI == 2, XI == 2, X(64), XI == 3, X(2048))
#define STR2(x) #x
#define STR(x) STR2(x)
#define NAME "hash options " STR(CFG)
#elif CFG == 0
#define UNI 1
#define HOOKOPT SH(false)
#define COPT CTS(true)
#define FL FLAGS(true, false, false, false, false, false, false, false, false)
#define NAME "uset base safe"
#elif CFG == 1
#define UNI 0
#define HOOKOPT SH(true), OM(true)
#define COPT CTS(true), CB(true)
#define FL FLAGS(true, true, true, true, false, false, false, false, false)
#define NAME "umultiset base safe store_hash optimize_multikey cache_begin"
#elif CFG == 2
#define UNI 1
#define HOOKOPT SH(true)
#define COPT CTS(true), CB(true), LIN
#define FL FLAGS(true, true, true, false, false, false, true, false, false)
#define NAME "uset base safe store_hash cache_begin linear"
#elif CFG == 3
#define UNI 0
#undef MEMB
#define MEMB 1
#undef LMODE
#define LMODE NORM
#define HOOKOPT SH(true), OM(true)
#define COPT CTS(false)
#define FL FLAGS(false, false, true, true, false, false, false, false, false)
#define NAME "umultiset member normal store_hash optimize_multikey nocts"
#elif CFG == 4
#define UNI 0
#define HOOKOPT OM(true)
#define COPT CTS(true), CB(true), INC
#define FL FLAGS(true, true, false, true, true, true, false, false, false)
#define NAME "umultiset base safe optimize_multikey cache_begin incremental"
#elif CFG == 5
#define UNI 1
#undef MEMB
#define MEMB 1
#define HOOKOPT SH(true)
#define COPT CTS(true), P2, CH
#define FL FLAGS(true, false, true, false, true, false, false, false, true)
#define NAME "uset member safe store_hash compare_hash power_2"
#elif CFG == 6
#define UNI 1
#define HOOKOPT SH(false)
#define COPT CTS(false), CB(true), FM
#define FL FLAGS(false, true, false, false, false, false, false, true, false)
#define NAME "uset base safe cache_begin fastmod nocts"
#elif CFG == 7
#define UNI 0
#define HOOKOPT SH(true), OM(true)
#define COPT CTS(true), LIN, FM, CH
#define FL FLAGS(true, false, true, true, false, false, true, true, true)
#define NAME "umultiset base safe store_hash optimize_multikey linear fastmod compare_hash"
#elif CFG == 8
#define UNI 0
#undef LMODE
#define LMODE AUTO
#define HOOKOPT SH(false)
#define COPT CTS(false)
#define FL FLAGS(false, false, false, false, false, false, false, false, false)
#define NAME "umultiset base auto-unlink"
#elif CFG == 9
#define UNI 0
#undef LMODE
#define LMODE AUTO
#undef MEMB
#define MEMB 1
#define HOOKOPT OM(true)
#define COPT CTS(false), P2
#define FL FLAGS(false, false, false, true, true, false, false, false, false)
#define NAME "umultiset member auto-unlink optimize_multikey power_2"
#elif CFG == 10
#define UNI 1
#undef LMODE
#define LMODE NORM
#define HOOKOPT SH(true)
#define COPT CTS(false), INC
#define FL FLAGS(false, false, true, false, true, true, false, false, false)
#define NAME "uset base normal store_hash incremental nocts"
#elif CFG == 11
#define UNI 0
#undef KOV
#define KOV 1
#undef RAWT
#define RAWT 1
#define HOOKOPT SH(false)
#define COPT CTS(true), P2, CB(true)
#define FL FLAGS(true, true, false, false, true, false, false, false, false)
#define NAME "hashtable (equal) base safe key_of_value power_2 cache_begin"
#elif CFG == 12
#define UNI 0
#define HOOKOPT SH(false)
#define COPT CTS(false), CB(true), LIN
#define FL FLAGS(false, true, false, false, false, false, true, false, false)
#define NAME "umultiset base safe cache_begin linear nocts"
#elif CFG == 13
#define UNI 1
#undef LMODE
#define LMODE AUTO
#define HOOKOPT SH(true)
#define COPT CTS(false), FM
#define FL FLAGS(false, false, true, false, false, false, false, true, false)
#define NAME "uset base auto-unlink store_hash fastmod"
#elif CFG == 14
#define UNI 0
#undef LMODE
#define LMODE NORM
#define HOOKOPT SH(true), OM(true)
#define COPT CTS(true), CB(true), LIN, INC
#define FL FLAGS(true, true, true, true, true, true, true, false, false)
#define NAME "umultiset base normal store_hash optimize_multikey cache_begin linear incremental"
#elif CFG == 15
#define UNI 1
#undef KOV
#define KOV 1
#undef RAWT
#define RAWT 1
#undef MEMB
#define MEMB 1
#define HOOKOPT SH(true)
#define COPT CTS(true), INC, CB(true), CH
#define FL FLAGS(true, true, true, false, true, true, false, false, true)
#define NAME "hashtable (unique) member safe key_of_value incremental compare_hash cache_begin"
#elif CFG == 16
#define UNI 0
#define HOOKOPT OM(true)
#define COPT CTS(true), bi::size_type<unsigned short>
#define FL FLAGS(true, false, false, true, false, false, false, false, false)
#define NAME "umultiset base safe optimize_multikey"
#else
#define UNI 0
#define HOOKOPT OM(true)
#define COPT CTS(true), LIN, CB(true), FM
#define FL FLAGS(true, true, false, true, false, false, true, true, false)
#define NAME "umultiset base safe optimize_multikey linear cache_begin fastmod"
#endif
#if MEMB
typedef bi::unordered_set_member_hook<LMODE, HOOKOPT> Hk;
struct E : Payload { long pad; Hk h; };
#define BASEOPT bi::member_hook<E, Hk, &E::h>
#else
struct E : Payload, bi::unordered_set_base_hook<LMODE, HOOKOPT> {};
#define BASEOPT bi::base_hook<bi::unordered_set_base_hook<LMODE, HOOKOPT>>
#endif
#if KOV
#define KOVOPT , bi::key_of_value<KeyOf>
#else
#define KOVOPT
#endif
#define ALLOPT BASEOPT, bi::hash<HHash>, bi::equal<HEq>, COPT KOVOPT
#if RAWT
typedef bi::hashtable<E, ALLOPT> Main;
#elif UNI
typedef bi::unordered_set<E, ALLOPT> Main;
#else
typedef bi::unordered_multiset<E, ALLOPT> Main;
#endif
struct C {
   typedef E elem; typedef Main container;
   FL
   static const bool uni = UNI, wrapper = !RAWT, kov = KOV;
   static const bool safe = !std::is_same<LMODE, NORM>::value, autou = std::is_same<LMODE, AUTO>::value;
#if MEMB
   static bool linked(const E &e) { if constexpr (safe) return e.h.is_linked(); else return false; }
   static void unlink(E &e) { if constexpr (autou) e.h.unlink(); }
#else
   static bool linked(const E &e) { if constexpr (safe) return e.is_linked(); else return false; }
   static void unlink(E &e) { if constexpr (autou) e.unlink(); }
#endif
};
int main(int argc, char **argv) {
   return vf::main_loop(argc, argv, NAME, 1500, 30000, [](vf::Rng &r) { vf::HashDriver<C> d; d.run(r); });
}
