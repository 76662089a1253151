#include "list_driver.hpp"
namespace bi = boost::intrusive;
#ifndef CFG
#define CFG 0
#endif
struct TagX;
template <bi::link_mode_type LM> struct EB : bi::slist_base_hook<bi::link_mode<LM>>, vf::Payload {};
template <bi::link_mode_type LM> struct EM : vf::Payload { long pad; bi::slist_member_hook<bi::link_mode<LM>> h; };
template <class EE, class LL, bi::link_mode_type LM, bool CTS> struct CfgBase {
   typedef EE elem; typedef LL container; static const bool safe = LM != bi::normal_link, cts = CTS, autou = LM == bi::auto_unlink, stateful = false, slist = true;
};
template <bi::link_mode_type LM, bool CTS, bool LIN, bool LAST> struct CB : CfgBase<EB<LM>, bi::slist<EB<LM>, bi::constant_time_size<CTS>, bi::linear<LIN>, bi::cache_last<LAST>>, LM, CTS> {
   static const bool linear = LIN, last = LAST;
   static bool linked(const EB<LM> &e) { if constexpr (LM != bi::normal_link) return e.is_linked(); else return false; }
   static void unlink(EB<LM> &e) { if constexpr (LM == bi::auto_unlink) e.unlink(); }
};
template <bi::link_mode_type LM, bool CTS, bool LIN, bool LAST> struct CM : CfgBase<EM<LM>, bi::slist<EM<LM>, bi::member_hook<EM<LM>, bi::slist_member_hook<bi::link_mode<LM>>, &EM<LM>::h>, bi::constant_time_size<CTS>, bi::linear<LIN>, bi::cache_last<LAST>, bi::size_type<unsigned short>>, LM, CTS> {
   static const bool linear = LIN, last = LAST;
   static bool linked(const EM<LM> &e) { if constexpr (LM != bi::normal_link) return e.h.is_linked(); else return false; }
   static void unlink(EM<LM> &e) { if constexpr (LM == bi::auto_unlink) e.h.unlink(); }
};
#if CFG == 0
typedef CB<bi::safe_link, true, false, false> C;
#define NAME "slist base safe cts circular"
#elif CFG == 1
typedef CB<bi::safe_link, false, false, true> C;
#define NAME "slist base safe nocts circular cache_last"
#elif CFG == 2
typedef CB<bi::normal_link, true, true, false> C;
#define NAME "slist base normal cts linear"
#elif CFG == 3
typedef CM<bi::normal_link, false, true, true> C;
#define NAME "slist member normal nocts linear cache_last"
#elif CFG == 4
typedef CM<bi::normal_link, true, false, true> C;
#define NAME "slist member normal cts circular cache_last"
#elif CFG == 5
typedef CB<bi::auto_unlink, false, false, false> C;
#define NAME "slist base auto nocts circular"
#elif CFG == 6
typedef CM<bi::safe_link, true, false, true> C;
#define NAME "slist member safe cts circular cache_last"
#elif CFG == 7
typedef CM<bi::normal_link, false, true, false> C;
#define NAME "slist member normal nocts linear"
#elif CFG == 8
typedef CB<bi::safe_link, true, true, true> C;
#define NAME "slist base safe cts linear cache_last"
#endif
#ifndef QC
#define QC 1500
#endif
int main(int argc, char **argv) {
   return vf::main_loop(argc, argv, NAME, QC, QC * 20, [](vf::Rng &r) { vf::ListDriver<C> d; d.run(r); });
}
