// Arithmetic monitors: bucket counts, bucket choice, integer helpers, pointer bits, member-to-parent arithmetic.
// CFG 0 integer helpers, 1 fast modulus and suggested counts, 2 bucket choice of real containers, 3 pointer bits / parents / hashing
#include "common.hpp"
#include "relptr.hpp"
#include <boost/intrusive/unordered_set.hpp>
#include <boost/intrusive/sg_set.hpp>
#include <boost/intrusive/parent_from_member.hpp>
#include <boost/intrusive/detail/math.hpp>
#include <boost/intrusive/pointer_plus_bits.hpp>
#include <cmath>
#include <limits>
#ifndef CFG
#define CFG 0
#endif
namespace bi = boost::intrusive; namespace bd = boost::intrusive::detail;
using namespace vf;
typedef std::size_t sz; typedef unsigned __int128 u128;
// a value near a boundary or anywhere, of any magnitude
static sz interesting(Rng &r) {
   switch (r.below(5)) {
   case 0: return sz(r.next() >> r.below(64));
   case 1: { unsigned k = unsigned(r.below(64)); return (sz(1) << k) + sz(r.range(-3, 3)); }
   case 2: return sz(0) - r.below(6);
   case 3: return r.below(70);
   default: { sz a = sz(1) << r.below(64), b = sz(1) << r.below(64); return r.chance(1, 2) ? a | b : a - b; }
   }
}
#if CFG == 0
static int ref_log2(sz x) { int n = -1; while (x) { x >>= 1; ++n; } return n; }
template <sz N> static void one_static() {
   VF_REQ(bool(bd::static_is_pow2<N>::value) == ((N & (N - 1)) == 0), "static_is_pow2");
   int z = 0; if (N) while (!((N >> z) & 1)) ++z; VF_REQ(bd::ls_zeros<N>::value == sz(N ? z : 0), "ls_zeros");
   VF_REQ((bi::max_pointer_plus_bits<void *, N ? N : 1>::value) == sz(N ? z : 0), "max_pointer_plus_bits");
   VF_REQ((bi::max_pointer_plus_bits<vf::rel_ptr<void>, N ? N : 1>::value) == 0, "max_pointer_plus_bits-fancy");
}
template <sz... N> static void statics(std::index_sequence<N...>) { (one_static<N>(), ...); (one_static<(sz(1) << N)>(), ...); (one_static<(sz(1) << N) + (sz(1) << (N / 2))>(), ...); }
static void run(Rng &r) {
   if (M().case_no % 64 == 0) { op("static-helpers"); statics(std::make_index_sequence<64>()); count("static-helper-values", 192); }
   for (int i = 0; i < 64; ++i) {
      sz x = interesting(r); if (!x) x = 1; op("integer-helpers", long(x), i & 3);
      int f = ref_log2(x); bool p2 = x == sz(1) << f;
      VF_REQ(bd::floor_log2(x) == sz(f), "floor_log2");
      VF_REQ(bd::is_pow2(x) == p2, "is_pow2");
      VF_REQ(bd::ceil_log2(x) == sz(p2 ? f : f + 1), "ceil_log2");
      VF_REQ(bd::previous_or_equal_pow2(x) == sz(1) << f, "previous_or_equal_pow2");
      if (p2 || f < 63) VF_REQ(bd::ceil_pow2(x) == (p2 ? x : sz(1) << (f + 1)), "ceil_pow2");
      // floor(2*log2(x)) exactly
      u128 sq = u128(x) * x; int two = -1; while (sq) { sq >>= 1; ++two; }
      VF_REQ(bd::calculate_h_sqrt2(x) == sz(two), "calculate_h_sqrt2"); VF_REQ(bd::h_alpha_sqrt2_t()(x) == sz(two), "h_alpha_sqrt2");
      { sz e = r.below(64); sz v = bd::sqrt2_pow_2xplus1(e); u128 want = u128(1) << (2 * e); // v is the least integer above sqrt(2)^(2e+1): (v-1)^2 < 2^(2e+1) < v^2
        u128 two_e1_half = want; VF_REQ((u128(v) * v) / 2 >= two_e1_half && (u128(v - 1) * (v - 1)) / 2 < two_e1_half, "sqrt2_pow_2xplus1"); }
      { sz m = bd::alpha_0_75_by_max_size_t()(x); sz exact = sz(u128(x) * 3 / 4); VF_REQ(x <= sz(-1) / 3 ? m == exact : (m <= exact && exact - m < 4), "alpha_0_75"); }
      { float y = float(double(x)); double want = std::log2(double(y)), got = bd::fast_log2(y); VF_REQ(std::fabs(want - got) < 0.02, "fast_log2"); }
      count("values-compared", 10);
   }
}
#elif CFG == 1
typedef bi::prime_fmod_size P;
static std::vector<sz> L;
struct EL : bi::unordered_set_base_hook<> { int v; friend std::size_t hash_value(const EL &e) { return std::size_t(e.v); } friend bool operator==(const EL &a, const EL &b) { return a.v == b.v; } };
template <class Size, bool Fast> struct SC { typedef bi::unordered_set<EL, bi::size_type<Size>, bi::fastmod_buckets<Fast>, bi::constant_time_size<true>> C; typedef bi::unordered_multiset<EL, bi::size_type<Size>, bi::fastmod_buckets<Fast>, bi::cache_begin<true>> MC; };
// a suggestion must come from the list (or be the largest value size_type can hold), on the documented side or - recorded finding - the other
template <class Size, bool Fast> static void check_suggest(sz n_) {
   Size n = Size(n_); sz mx = sz(Size(-1)); std::vector<sz> l; for (sz x : L) if (x <= mx) l.push_back(x);
   sz top = l.back(), cap = L.back() > mx && !Fast ? mx : top; // plain containers may use the largest representable count
   sz up = SC<Size, Fast>::C::suggested_upper_bucket_count(n), lo = SC<Size, Fast>::C::suggested_lower_bucket_count(n);
   VF_REQ((up == SC<Size, Fast>::MC::suggested_upper_bucket_count(n) && lo == SC<Size, Fast>::MC::suggested_lower_bucket_count(n)), "suggested-set-multiset");
   sz ge = cap, gt = cap, le = l.front(); for (std::size_t i = l.size(); i--;) { if (l[i] >= n) ge = l[i]; if (l[i] > n) gt = l[i]; } for (sz x : l) if (x <= n) le = x;
   bool u_ok = up == ge || up == gt || (n >= cap && up == top), l_ok = lo == le || lo == ge || (n >= cap && lo == top);
   if (!u_ok) fail("suggested_upper_bucket_count", "suggested_upper_bucket_count(%zu) == %zu with %d-bit size_type", sz(n), up, int(sizeof(Size) * 8));
   if (!l_ok) fail("suggested_lower_bucket_count", "suggested_lower_bucket_count(%zu) == %zu with %d-bit size_type", sz(n), lo, int(sizeof(Size) * 8));
   if (Fast) VF_REQ(std::find(l.begin(), l.end(), up) != l.end() && std::find(l.begin(), l.end(), lo) != l.end(), "suggested-unusable");
   count("suggestions-compared", 2);
}
static void run(Rng &r) {
   if (L.empty()) { // the list of supported counts, through the index interface
      std::size_t i = 0; sz prev = 0; for (; i < 64; ++i) { sz s = P::size(i); VF_REQ(s > prev, "count-list-order"); if (i > 1) VF_REQ(double(s) / double(prev) < 2.6, "count-list-gap"); L.push_back(prev = s); if (P::upper_size_index(prev) == i && i > 8) break; }
      VF_REQ(L.size() >= 20 && L.front() >= 1, "count-list"); VF_REQ(P::lower_size_index(sz(-1)) == L.size() - 1 && P::upper_size_index(sz(-1)) == L.size() - 1, "count-list-last");
   }
   for (int i = 0; i < 32; ++i) {
      sz idx = r.below(L.size()), d = L[idx], h;
      switch (r.below(4)) { case 0: h = interesting(r); break; case 1: h = r.next(); break; case 2: h = d * r.below(sz(0xffffffffu) / (d > 0xffffffffu ? 1 : d) + 1) + sz(r.range(-2, 2)); break; default: h = (interesting(r) << 32) | (0xffffffffu - r.below(5)); }
      op("position", long(idx), long(h), i & 3); sz got = P::position(h, idx);
      sz want = d < (sz(1) << 32) ? sz(std::uint32_t(std::uint32_t(h) + std::uint32_t(h >> 32))) % d : h % d;
      if (got != want || got >= d) fail("fastmod", "position(%zu, index %zu of count %zu) == %zu, expected %zu", h, idx, d, got, want);
      VF_REQ(P::lower_size_index(d) == idx, "lower_size_index"); count("positions-compared");
      sz n = r.chance(1, 2) ? L[r.below(L.size())] + sz(r.range(-2, 2)) : interesting(r);
      op("suggested", long(n));
      check_suggest<sz, false>(n); check_suggest<sz, true>(n); check_suggest<unsigned, false>(n); check_suggest<unsigned, true>(n); check_suggest<unsigned short, false>(n); check_suggest<unsigned short, true>(n); check_suggest<unsigned char, false>(n); check_suggest<unsigned char, true>(n);
   }
}
#elif CFG == 2
static sz g_hash;
struct EL : bi::unordered_set_base_hook<bi::store_hash<true>> { sz h = 0; friend bool operator==(const EL &a, const EL &b) { return a.h == b.h; } };
struct HH { sz operator()(const EL &e) const { return e.h; } sz operator()(const sz &h) const { return h; } };
struct KE { bool operator()(sz a, const EL &b) const { return a == b.h; } bool operator()(const EL &a, sz b) const { return a.h == b; } };
enum { PLAIN, POW2, INCR, FAST };
template <int K, class Size> static void containers(Rng &r, std::vector<sz> &fast) {
   typedef bi::unordered_multiset<EL, bi::hash<HH>, bi::size_type<Size>, bi::power_2_buckets<(K == POW2 || K == INCR)>, bi::incremental<(K == INCR)>, bi::fastmod_buckets<(K == FAST)>, bi::constant_time_size<false>> C;
   sz lim = sizeof(Size) == 1 ? 200 : 3000; sz n;
   if (K == PLAIN) n = 1 + r.below(lim); else if (K == FAST) { do n = fast[r.below(fast.size())]; while (n > lim); } else n = sz(2) << r.below(sizeof(Size) == 1 ? 6 : 10);
   std::vector<typename C::bucket_type> b(n); std::vector<EL> e(8); C c(typename C::bucket_traits(b.data(), n));
   op(K == PLAIN ? "plain" : K == POW2 ? "power-of-two" : K == INCR ? "incremental" : "fastmod", long(n), sizeof(Size), long(r.s & 0xffff));
   VF_REQ(sz(c.bucket_count()) == n, "bucket_count");
   sz split = K == INCR ? n / 2 : n; if (K == INCR) VF_REQ(sz(c.split_count()) == split, "split_count");
   for (int step = 0; step < 12; ++step) {
      if constexpr (K == INCR) if (r.chance(1, 2)) { bool g = r.chance(3, 4); bool ok = c.incremental_rehash(g); VF_REQ(ok == (g ? split < n : split > n / 2), "incremental_rehash"); if (ok) split += g ? 1 : sz(-1); VF_REQ(sz(c.split_count()) == split, "split_count"); }
      for (int i = 0; i < 12; ++i) {
         sz h = r.chance(1, 3) ? n * r.below(sz(-1) / n) + sz(r.range(-2, 2)) : interesting(r), want;
         if (K == PLAIN) want = h % n; else if (K == FAST) want = sz(std::uint32_t(std::uint32_t(h) + std::uint32_t(h >> 32))) % n; else { want = h & (n - 1); if (K == INCR && want >= split) want -= n / 2; }
         EL x; x.h = h; sz got = sz(c.bucket(x)), got2 = sz(c.bucket(h, HH()));
         if (got != want || got2 != want || got >= n) fail("bucket", "bucket of hash %zu among %zu buckets (split %zu) is %zu, expected %zu", h, n, split, got, want);
         count("bucket-choices-compared");
      }
   }
   for (EL &x : e) { x.h = interesting(r); c.insert(x); }
   if (K == FAST || K == PLAIN) { sz m; if (K == PLAIN) m = 1 + r.below(lim); else do m = fast[r.below(fast.size())]; while (m > lim); std::vector<typename C::bucket_type> b2(m); c.rehash(typename C::bucket_traits(b2.data(), m)); b.swap(b2); n = m; split = n; }
   for (EL &x : e) { sz k = sz(c.bucket(x)); bool here = false; for (auto i = c.begin(typename C::size_type(k)); i != c.end(typename C::size_type(k)); ++i) here = here || &*i == &x; VF_REQ(here, "element-not-in-its-bucket"); }
   c.clear();
}
static void run(Rng &r) {
   static std::vector<sz> fast; if (fast.empty()) for (sz i = 0; i < 12; ++i) fast.push_back(bi::prime_fmod_size::size(i));
   for (int k = 0; k < 4; ++k) switch (r.below(8)) {
   case 0: containers<PLAIN, sz>(r, fast); break; case 1: containers<POW2, sz>(r, fast); break; case 2: containers<INCR, sz>(r, fast); break; case 3: containers<FAST, sz>(r, fast); break;
   case 4: containers<PLAIN, unsigned short>(r, fast); break; case 5: containers<POW2, unsigned short>(r, fast); break; case 6: containers<INCR, unsigned>(r, fast); break; default: containers<FAST, unsigned char>(r, fast); break; }
}
#else
template <int N> struct alignas(N) Al { char c[N]; };
template <class T, sz Bits> static void bits(Rng &r, T *base, sz n) {
   typedef bi::pointer_plus_bits<T *, Bits> P; const sz mask = (sz(1) << Bits) - 1;
   T *p = nullptr, *cur = nullptr; sz b = 0; P::set_pointer(p, nullptr); P::set_bits(p, 0);
   VF_REQ(P::get_pointer(p) == nullptr && P::get_bits(p) == 0, "bits-null");
   for (int i = 0; i < 24; ++i) {
      switch (r.below(3)) { case 0: cur = r.chance(1, 8) ? nullptr : base + r.below(n); P::set_pointer(p, cur); op("set_pointer", long(Bits), long(cur ? cur - base : -1)); break;
      case 1: b = r.below(mask + 1); P::set_bits(p, b); op("set_bits", long(Bits), long(b)); break;
      default: { T *q = p; VF_REQ(P::get_pointer(q) == cur && P::get_bits(q) == b, "bits-copy"); p = q; } }
      if (P::get_pointer(p) != cur || P::get_bits(p) != b) fail("pointer_plus_bits", "%d bits: pointer %p bits %zu read back as %p, %zu", int(Bits), (void *)cur, b, (void *)P::get_pointer(p), P::get_bits(p));
      count("packed-pointers-compared");
   }
}
struct B0 { char pad0[3]; int x; virtual ~B0() {} virtual int f() { return 0; } };
struct M1 { short a, b; };
struct S0 : B0, M1 { double d; char c; M1 m; M1 arr[5]; int last; };
struct Pod { char c; char big[70001]; char m; long after; };
struct Empty {}; struct WithEmpty : Empty { Empty e; int k; };
template <class Pa, class Me> static void parent(Pa *objs, sz n, Me Pa::*pm, Rng &r) {
   Pa *o = objs + r.below(n); Me *m = &(o->*pm); const Me *cm = m; op("parent", long(o - objs), long((char *)m - (char *)o), sizeof(Pa));
   VF_REQ(bi::get_parent_from_member<Pa>(m, pm) == o && bi::get_parent_from_member<Pa>(cm, pm) == o, "get_parent_from_member");
   VF_REQ(bd::parent_from_member<Pa>(m, pm) == o && bd::parent_from_member<Pa>(cm, pm) == o, "parent_from_member"); VF_REQ(bd::offset_from_pointer_to_member(pm) == (char *)m - (char *)o, "offset_from_pointer_to_member");
   count("parents-compared");
}
enum E1 { e_a, e_b = 77 }; enum class E2 : unsigned short { a = 3, b = 60000 };
template <class T> static sz hv(T v) { return bi::detail::internal_hash_functor<T>()(v); }
template <class T> static void integral(Rng &r) { T v = T(interesting(r)); op("hash", long(v), sizeof(T)); VF_REQ(hv<T>(v) == sz(v), "hash-integral"); }
static void run(Rng &r) {
   static std::vector<Al<2>> a2(33); static std::vector<Al<4>> a4(33); static std::vector<Al<8>> a8(33); static std::vector<Al<16>> a16(33); static Al<64> a64[9]; static Al<256> a256[5];
   bits<Al<2>, 1>(r, a2.data(), 33); bits<Al<4>, 1>(r, a4.data(), 33); bits<Al<4>, 2>(r, a4.data(), 33); bits<Al<8>, 1>(r, a8.data(), 33); bits<Al<8>, 2>(r, a8.data(), 33); bits<Al<8>, 3>(r, a8.data(), 33);
   bits<Al<16>, 4>(r, a16.data(), 33); bits<Al<64>, 6>(r, a64, 9); bits<Al<256>, 8>(r, a256, 5); bits<const Al<8>, 2>(r, a8.data(), 33);
   static S0 so[7]; static Pod pod[3]; static WithEmpty we[4];
   parent(so, 7, &S0::d, r); parent(so, 7, &S0::c, r); parent(so, 7, &S0::m, r); parent(so, 7, &S0::arr, r); parent(so, 7, &S0::last, r); parent(pod, 3, &Pod::c, r); parent(pod, 3, &Pod::m, r); parent(pod, 3, &Pod::after, r); parent(we, 4, &WithEmpty::k, r); parent<S0, short>(so, 7, &S0::b, r); parent<S0, int>(so, 7, &S0::x, r);
   integral<char>(r); integral<signed char>(r); integral<unsigned char>(r); integral<short>(r); integral<unsigned short>(r); integral<int>(r); integral<unsigned>(r); integral<long>(r); integral<unsigned long>(r); integral<long long>(r); integral<unsigned long long>(r); integral<bool>(r); integral<wchar_t>(r);
   VF_REQ(bd::hash_value(e_b) == 77 && bd::hash_value(E2::b) == 60000, "hash-enum");
   { double d; sz w = r.next(); std::memcpy(&d, &w, 8); if (!std::isnan(d)) VF_REQ(hv<double>(d) == (d == 0 ? 0 : w), "hash-double"); VF_REQ(hv<double>(0.0) == hv<double>(-0.0), "hash-zero"); }
   { float f; unsigned w = unsigned(r.next()); std::memcpy(&f, &w, 4); if (!std::isnan(f)) VF_REQ(hv<float>(f) == (f == 0 ? 0 : w), "hash-float"); VF_REQ(hv<float>(0.0f) == hv<float>(-0.0f), "hash-zero"); }
   { long double d = std::ldexp((long double)(long long)r.next(), r.range(-300, 300)); alignas(16) char x[16], y[16]; std::memset(x, 0xff, 16); std::memset(y, 0x11, 16); std::memcpy(x, &d, 10); std::memcpy(y, &d, 10); long double p, q; std::memcpy(&p, x, 16); std::memcpy(&q, y, 16);
     op("hash-long-double", long(r.s >> 20)); VF_REQ(hv<long double>(p) == hv<long double>(q), "hash-long-double"); VF_REQ(hv<long double>(0.0L) == hv<long double>(-0.0L), "hash-zero"); }
   { const void *p = &a8[r.below(33)]; sz x = sz(p); VF_REQ(bd::hash_value(p) == x + (x >> 3), "hash-pointer"); }
   count("hashes-compared", 20);
}
#endif
int main(int argc, char **argv) {
   const char *names[] = {"integer helpers", "fast modulus and suggested counts", "bucket choice", "pointer bits, parents and hashes"};
   return vf::main_loop(argc, argv, names[CFG], 1000, 20000, run);
}
