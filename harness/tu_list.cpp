#include "list_driver.hpp"
namespace bi = boost::intrusive;
#ifndef CFG
#define CFG 0
#endif
struct TagX;
template <bi::link_mode_type LM> struct EB : bi::list_base_hook<bi::link_mode<LM>>, vf::Payload {};
template <bi::link_mode_type LM> struct EM : vf::Payload { long pad; bi::list_member_hook<bi::link_mode<LM>> h; };
template <class EE, class LL, bi::link_mode_type LM, bool CTS> struct CfgBase {
   typedef EE elem; typedef LL container; static const bool safe = LM != bi::normal_link, cts = CTS, autou = LM == bi::auto_unlink, stateful = false, slist = false, last = false, linear = false;
};
template <bi::link_mode_type LM, bool CTS> struct CB : CfgBase<EB<LM>, bi::list<EB<LM>, bi::constant_time_size<CTS>>, LM, CTS> {
   static bool linked(const EB<LM> &e) { if constexpr (LM != bi::normal_link) return e.is_linked(); else return false; }
   static void unlink(EB<LM> &e) { if constexpr (LM == bi::auto_unlink) e.unlink(); }
};
template <bi::link_mode_type LM, bool CTS> struct CM : CfgBase<EM<LM>, bi::list<EM<LM>, bi::member_hook<EM<LM>, bi::list_member_hook<bi::link_mode<LM>>, &EM<LM>::h>, bi::constant_time_size<CTS>, bi::size_type<unsigned short>>, LM, CTS> {
   static bool linked(const EM<LM> &e) { if constexpr (LM != bi::normal_link) return e.h.is_linked(); else return false; }
   static void unlink(EM<LM> &e) { if constexpr (LM == bi::auto_unlink) e.h.unlink(); }
};
#if CFG == 0
typedef CB<bi::safe_link, true> C; 
#define NAME "list base safe cts"
#elif CFG == 1
typedef CB<bi::normal_link, false> C;
#define NAME "list base normal nocts"
#elif CFG == 2
typedef CB<bi::auto_unlink, false> C;
#define NAME "list base auto nocts"
#elif CFG == 3
typedef CM<bi::safe_link, false> C;
#define NAME "list member safe nocts"
#elif CFG == 4
typedef CM<bi::normal_link, true> C;
#define NAME "list member normal cts"
#elif CFG == 5
typedef CM<bi::auto_unlink, false> C;
#define NAME "list member auto nocts"
#endif
#ifndef QC
#define QC 1500
#endif
int main(int argc, char **argv) {
   return vf::main_loop(argc, argv, NAME, QC, QC * 20, [](vf::Rng &r) { vf::ListDriver<C> d; d.run(r); });
}
