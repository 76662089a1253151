// Every way to hook an element: KIND selects hook, pointer and value-traits kind, FAM the container family.
//  0 base rel_ptr safe      1 member rel_ptr normal   2 function hook safe      3 any base tagged safe   4 any member normal
//  5 derivation traits safe 6 member traits normal    7 several base hooks, tagged, safe   8 any base rel_ptr safe
//  9 function hook rel_ptr, heap header node, safe   10 any member rel_ptr safe
#ifndef VF_KINDS_HPP
#define VF_KINDS_HPP
#include "common.hpp"
#include "relptr.hpp"
#include <boost/intrusive/any_hook.hpp>
#include <boost/intrusive/derivation_value_traits.hpp>
#include <boost/intrusive/member_value_traits.hpp>
#include <boost/intrusive/trivial_value_traits.hpp>
namespace bi = boost::intrusive;
namespace vf {
struct TA; struct TB; struct TC;
typedef bi::void_pointer<rel_ptr<void>> RelV;
static const char *const kind_names[] = {"base rel_ptr", "member rel_ptr", "function hook", "any base", "any member", "derivation_value_traits", "member_value_traits", "tagged base among several", "any base rel_ptr", "function hook rel_ptr heap header", "any member rel_ptr", "base rel_ptr auto-unlink", "member rel_ptr auto-unlink", "function hook auto-unlink"};
// Node: fill the node's links so that it looks unlinked (node_algorithms::init)
template <class Fam, int KIND_> struct Hooked;
template <class Fam> struct Hooked<Fam, 0> { typedef typename Fam::template base<bi::link_mode<bi::safe_link>, RelV> H; struct E : H, Payload {}; typedef bi::base_hook<H> opt; static const bool safe = true; static bool linked(const E &e) { return e.is_linked(); } };
template <class Fam> struct Hooked<Fam, 1> { typedef typename Fam::template member<bi::link_mode<bi::normal_link>, RelV> H; struct E : Payload { long pad; H h; }; typedef bi::member_hook<E, H, &E::h> opt; static const bool safe = false; static bool linked(const E &) { return false; } };
template <class H_, class E_> struct Fun { typedef H_ hook_type; typedef hook_type *hook_ptr; typedef const hook_type *const_hook_ptr; typedef E_ value_type; typedef value_type *pointer; typedef const value_type *const_pointer;
   static hook_ptr to_hook_ptr(value_type &v) { return &v.box.h; } static const_hook_ptr to_hook_ptr(const value_type &v) { return &v.box.h; }
   static pointer to_value_ptr(hook_ptr n) { return reinterpret_cast<pointer>(reinterpret_cast<char *>(n) - value_type::offset()); } static const_pointer to_value_ptr(const_hook_ptr n) { return reinterpret_cast<const_pointer>(reinterpret_cast<const char *>(n) - value_type::offset()); } };
template <class H_, class E_> struct FunRel { typedef H_ hook_type; typedef rel_ptr<hook_type> hook_ptr; typedef rel_ptr<const hook_type> const_hook_ptr; typedef E_ value_type; typedef rel_ptr<value_type> pointer; typedef rel_ptr<const value_type> const_pointer;
   static hook_ptr to_hook_ptr(value_type &v) { return hook_ptr(&v.box.h); } static const_hook_ptr to_hook_ptr(const value_type &v) { return const_hook_ptr(&v.box.h); }
   static pointer to_value_ptr(hook_ptr n) { return pointer(reinterpret_cast<value_type *>(reinterpret_cast<char *>(n.get()) - value_type::offset())); } static const_pointer to_value_ptr(const_hook_ptr n) { return const_pointer(reinterpret_cast<const value_type *>(reinterpret_cast<const char *>(n.get()) - value_type::offset())); } };
template <class H_> struct EFun : Payload { long pad; struct Box { int x; H_ h; } box; static std::ptrdiff_t offset() { alignas(EFun) static char b[sizeof(EFun)]; EFun *p = reinterpret_cast<EFun *>(b); return reinterpret_cast<char *>(&p->box.h) - b; } };
template <class Fam> struct Hooked<Fam, 2> { typedef typename Fam::template member<bi::link_mode<bi::safe_link>> H; typedef EFun<H> E; typedef bi::function_hook<Fun<H, E>> opt; static const bool safe = true; static bool linked(const E &e) { return e.box.h.is_linked(); } };
template <class Fam> struct Hooked<Fam, 3> { typedef bi::any_base_hook<bi::tag<TA>, bi::link_mode<bi::safe_link>> H; struct E : Payload, H {}; typedef typename Fam::template any<bi::base_hook<H>> opt; static const bool safe = true; static bool linked(const E &e) { return e.is_linked(); } };
template <class Fam> struct Hooked<Fam, 4> { typedef bi::any_member_hook<bi::link_mode<bi::normal_link>> H; struct E : Payload { H h; }; typedef typename Fam::template any<bi::member_hook<E, H, &E::h>> opt; static const bool safe = false; static bool linked(const E &) { return false; } };
template <class Node> struct INode : Node { static void zero(Node &n) { std::memset(static_cast<void *>(&n), 0, sizeof n); } INode() { zero(*this); } INode(const INode &) { zero(*this); } INode &operator=(const INode &) { return *this; } bool off() const { Node z; zero(z); return !std::memcmp(static_cast<const void *>(&z), static_cast<const void *>(static_cast<const Node *>(this)), Fam_bytes()); } static std::size_t Fam_bytes() { return sizeof(void *); } };
template <class Fam> struct Hooked<Fam, 5> { typedef typename Fam::template traits<void *> NT; typedef INode<typename NT::node> N; struct E : Payload, N {}; struct VT { };
   struct Traits { typedef NT node_traits; typedef typename NT::node_ptr node_ptr; typedef typename NT::const_node_ptr const_node_ptr; };
   typedef bi::value_traits<bi::derivation_value_traits<E, NT, bi::safe_link>> opt; static const bool safe = true; static bool linked(const E &e) { return Fam::node_linked(static_cast<const typename NT::node &>(e)); } };
template <class Fam> struct Hooked<Fam, 6> { typedef typename Fam::template traits<void *> NT; typedef typename NT::node N; struct E : Payload { long pad; N n; E() { INode<N>::zero(n); } E(const E &o) : Payload(o) { INode<N>::zero(n); } E &operator=(const E &o) { Payload::operator=(o); return *this; } }; typedef bi::value_traits<bi::member_value_traits<E, NT, &E::n, bi::normal_link>> opt; static const bool safe = false; static bool linked(const E &) { return false; } };
template <class Fam> struct Hooked<Fam, 7> { typedef typename Fam::template base<bi::tag<TA>> H1; typedef typename Fam::template base<bi::tag<TB>, bi::link_mode<bi::safe_link>> H; typedef typename Fam::template base<bi::tag<TC>, bi::link_mode<bi::normal_link>> H3; struct E : H1, Payload, H3, H {}; typedef bi::base_hook<H> opt; static const bool safe = true; static bool linked(const E &e) { return e.H::is_linked(); } };
template <class Fam> struct Hooked<Fam, 8> { typedef bi::any_base_hook<bi::link_mode<bi::safe_link>, RelV> H; struct E : H, Payload {}; typedef typename Fam::template any<bi::base_hook<H>> opt; static const bool safe = true; static bool linked(const E &e) { return e.is_linked(); } };
template <class Fam> struct Hooked<Fam, 9> { typedef typename Fam::template member<bi::link_mode<bi::safe_link>, RelV> H; typedef EFun<H> E; typedef bi::function_hook<FunRel<H, E>> opt; static const bool safe = true; static bool linked(const E &e) { return e.box.h.is_linked(); } };
template <class Fam> struct Hooked<Fam, 10> { typedef bi::any_member_hook<bi::link_mode<bi::safe_link>, RelV> H; struct E : Payload { long pad; H h; }; typedef typename Fam::template any<bi::member_hook<E, H, &E::h>> opt; static const bool safe = true; static bool linked(const E &e) { return e.h.is_linked(); } };
// auto-unlink hooks behind relative pointers (any hooks do not offer the mode): 11 base 12 member 13 function hook
template <class Fam> struct Hooked<Fam, 11> { typedef typename Fam::template base<bi::link_mode<bi::auto_unlink>, RelV, bi::tag<TA>> H; struct E : H, Payload {}; typedef bi::base_hook<H> opt; static const bool safe = true; static bool linked(const E &e) { return e.H::is_linked(); } static void unlink(E &e) { e.H::unlink(); } };
template <class Fam> struct Hooked<Fam, 12> { typedef typename Fam::template member<bi::link_mode<bi::auto_unlink>, RelV> H; struct E : Payload { long pad; H h; }; typedef bi::member_hook<E, H, &E::h> opt; static const bool safe = true; static bool linked(const E &e) { return e.h.is_linked(); } static void unlink(E &e) { e.h.unlink(); } };
template <class Fam> struct Hooked<Fam, 13> { typedef typename Fam::template member<bi::link_mode<bi::auto_unlink>> H; typedef EFun<H> E; typedef bi::function_hook<Fun<H, E>> opt; static const bool safe = true; static bool linked(const E &e) { return e.box.h.is_linked(); } static void unlink(E &e) { e.box.h.unlink(); } };
template <class NodePtr> class HeapHolder { // the header node lives in its own heap block
   typedef typename bi::pointer_traits<NodePtr>::element_type Node; typedef typename bi::pointer_traits<NodePtr>::template rebind_pointer<const Node>::type CNodePtr; Node *n_;
   public: HeapHolder() : n_(new Node()) {} HeapHolder(const HeapHolder &) = delete; HeapHolder &operator=(const HeapHolder &) = delete; ~HeapHolder() { delete n_; }
   CNodePtr get_node() const { return bi::pointer_traits<CNodePtr>::pointer_to(*n_); } NodePtr get_node() { return bi::pointer_traits<NodePtr>::pointer_to(*n_); } };
} // namespace vf
#endif
