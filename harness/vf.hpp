// Common monitoring machinery for the Boost.Intrusive runtime monitors.
#ifndef VF_HPP
#define VF_HPP
#ifdef VF_NOASSERT
#define BOOST_DISABLE_ASSERTS
#define VF_NO_ASSERTS true
#else
#define VF_NO_ASSERTS false
#ifndef BOOST_ENABLE_ASSERT_HANDLER
#define BOOST_ENABLE_ASSERT_HANDLER
#endif
#endif
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <unordered_set>
#include <unordered_map>
#include <algorithm>
#include <functional>
#include <utility>
#include <memory>
#include <type_traits>
#include <csetjmp>
#include <csignal>
#include <exception>
#include <sys/time.h>
#include <unistd.h>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VF_ASAN 1
#endif
#if __has_feature(thread_sanitizer)
#define VF_TSAN 1
#endif
#endif
#if defined(__SANITIZE_ADDRESS__)
#define VF_ASAN 1
#endif
#if defined(__SANITIZE_THREAD__)
#define VF_TSAN 1
#endif
#ifdef VF_ASAN
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#define VF_POISON(p, n) __asan_poison_memory_region((p), (n))
#define VF_UNPOISON(p, n) __asan_unpoison_memory_region((p), (n))
#else
#define VF_POISON(p, n) ((void)(p), (void)(n))
#define VF_UNPOISON(p, n) ((void)(p), (void)(n))
#endif

namespace vf {

// ---------------------------------------------------------------- rng
struct Rng {
   std::uint64_t s;
   explicit Rng(std::uint64_t x = 1) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next(); }
   std::uint64_t next() {
      std::uint64_t z = (s += 0x9E3779B97F4A7C15ull);
      z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
      z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
      return z ^ (z >> 31);
   }
   // [0,n)
   std::size_t below(std::size_t n) { return n ? std::size_t(next() % n) : 0; }
   int range(int a, int b) { return a + int(below(std::size_t(b - a + 1))); }
   bool chance(unsigned num, unsigned den) { return below(den) < num; }
   template <class V> void shuffle(V &v) { for (std::size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[below(i)]); }
};

// ---------------------------------------------------------------- global monitor state
struct HistEntry { const char *op; long a, b, c, d; };
struct Monitor {
   const char *config = "?";
   std::uint64_t seed = 1;
   long case_no = -1;
   long cases = 0, only_case = -1;
   bool thorough = false;
   std::vector<HistEntry> hist;
   std::unordered_map<const char *, long> stats; // op counters and events (keyed by literal, merged by text on output)
   std::unordered_set<std::uint64_t> digests; // distinct non-trivial observed states/histories
   std::unordered_set<std::uint64_t> case_digests;
   std::uint64_t case_digest = 0;
   long evaluations = 0;
   long distinct = 0;
   std::vector<std::string> samples;
   bool failed = false;
   // expected-assertion capture
   bool expect_assert = false;
   jmp_buf assert_jmp;
   char assert_expr[256];
   // phase (a short label telling which monitor/operation is running)
   const char *phase = "start";
};
inline Monitor &M() { static Monitor m; return m; }
inline void phase(const char *p) { M().phase = p; }

inline void op(const char *name, long a = -1, long b = -1, long c = -1, long d = -1) {
   Monitor &m = M();
   m.phase = name;
   ++m.stats[name];
   m.hist.push_back(HistEntry{name, a, b, c, d});
   std::uint64_t h = m.case_digest;
   for (const char *p = name; *p; ++p) h = (h ^ (unsigned char)*p) * 1099511628211ull;
   h = (h ^ std::uint64_t(a)) * 1099511628211ull; h = (h ^ std::uint64_t(b)) * 1099511628211ull;
   h = (h ^ std::uint64_t(c)) * 1099511628211ull;
   m.case_digest = h;
}
inline void count(const char *name, long n = 1) { M().stats[name] += n; }
inline void digest(std::uint64_t h) { M().digests.insert(h); }

inline void write_str(std::string &o, const char *fmt, ...) {
   char buf[512]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap); o += buf;
}
inline std::string history(std::size_t last = 60) {
   Monitor &m = M(); std::string o;
   std::size_t n = m.hist.size(), i = n > last ? n - last : 0;
   if (i) write_str(o, "...(%zu earlier) ", i);
   for (; i < n; ++i) {
      const HistEntry &e = m.hist[i];
      write_str(o, "%s", e.op);
      if (e.a != -1 || e.b != -1 || e.c != -1 || e.d != -1) {
         write_str(o, "(%ld", e.a);
         if (e.b != -1 || e.c != -1 || e.d != -1) write_str(o, ",%ld", e.b);
         if (e.c != -1 || e.d != -1) write_str(o, ",%ld", e.c);
         if (e.d != -1) write_str(o, ",%ld", e.d);
         o += ")";
      }
      o += "; ";
   }
   return o;
}
inline void emit_fail(const char *key, const char *detail) {
   Monitor &m = M();
   if (m.failed) return;
   m.failed = true;
   std::fflush(stdout);
   std::string h = history();
   // one line, parsed by the runner
   std::string d(detail); for (char &c : d) if (c == '\n') c = ' ';
   std::printf("\nFAIL\tkey=%s\tconfig=%s\tseed=%llu\tcase=%ld\tdetail=%s\thistory=%s\n", key, m.config,
               (unsigned long long)m.seed, m.case_no, d.c_str(), h.c_str());
   std::fflush(stdout);
}
[[noreturn]] inline void fail(const char *key, const char *fmt, ...) {
   char buf[1024]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
   std::string k(key); 
   emit_fail(k.c_str(), buf);
   std::_Exit(9);
}
#define VF_STR2(x) #x
#define VF_STR(x) VF_STR2(x)
#define VF_CHECK(cond, key, ...) do { if (!(cond)) ::vf::fail((key), "[" #cond "] after " __VA_ARGS__); } while (0)
// short form: the last operation is in the history anyway
#define VF_REQ(cond, key) do { if (!(cond)) ::vf::fail((key), "%s [%s] at %s:%d", ::vf::M().phase, #cond, std::strrchr(__FILE__,'/')?std::strrchr(__FILE__,'/')+1:__FILE__, __LINE__); } while (0)

// ---------------------------------------------------------------- fatal conditions
inline void death_callback() { emit_fail("sanitizer", M().phase); }
inline void on_signal(int sig) {
   char b[128];
   if (sig == SIGVTALRM) { std::snprintf(b, sizeof b, "%s did not finish: case used more CPU time than the bound", M().phase); emit_fail("hang", b); std::_Exit(9); }
   std::snprintf(b, sizeof b, "signal %d in %s", sig, M().phase);
   emit_fail(sig == SIGABRT ? "abort" : "crash", b);
   std::_Exit(9);
}
inline void on_terminate() { emit_fail("terminate", M().phase); std::_Exit(9); }
inline void arm_watchdog(int secs) {
   struct itimerval t; std::memset(&t, 0, sizeof t); t.it_value.tv_sec = secs; setitimer(ITIMER_VIRTUAL, &t, 0);
}
inline void on_assert(const char *expr, const char *func, const char *file, long line) {
   Monitor &m = M();
   if (m.expect_assert) { std::snprintf(m.assert_expr, sizeof m.assert_expr, "%s", expr); longjmp(m.assert_jmp, 1); }
   char b[700]; const char *f = std::strrchr(file, '/');
   std::snprintf(b, sizeof b, "library assertion (%s) at %s:%ld during %s", expr, f ? f + 1 : file, line, m.phase);
   (void)func;
   emit_fail("assert", b);
   std::_Exit(9);
}
// runs f; returns true when a library assertion fired (f is abandoned at that point)
template <class F> inline bool asserts(F f) {
   Monitor &m = M();
   m.expect_assert = true;
   if (setjmp(m.assert_jmp) == 0) { f(); m.expect_assert = false; return false; }
   m.expect_assert = false;
   return true;
}

// ---------------------------------------------------------------- fault injection / functor accounting
struct Thrown { int k; };
struct Fault {
   long calls = 0;       // functor calls since reset
   long throw_at = 0;    // 0: never
   bool forbid = false;  // calls are not allowed at all
   long fired = 0;
};
inline Fault &fault() { static Fault f; return f; }
inline void tick() {
   Fault &f = fault();
   ++f.calls;
   if (f.forbid) fail("functor-called", "a user functor was called where none may be (%s)", M().phase);
   if (f.throw_at && f.calls == f.throw_at) { ++f.fired; throw Thrown{int(f.calls)}; }
}
inline void reset_fault(long at = 0) { fault().calls = 0; fault().throw_at = at; }

// ---------------------------------------------------------------- allocation accounting
inline long &allocs() { static long n = 0; return n; }

// ---------------------------------------------------------------- main loop
// run(rng) executes one case
inline int main_loop(int argc, char **argv, const char *config, long quick_cases, long thorough_cases, const std::function<void(Rng &)> &run,
                     int cpu_secs = 20) {
   Monitor &m = M();
   m.config = config;
   m.cases = quick_cases;
   double scale = 1.0;
   for (int i = 1; i < argc; ++i) {
      std::string a(argv[i]);
      auto val = [&]() -> const char * { return i + 1 < argc ? argv[++i] : "0"; };
      if (a == "--seed") m.seed = std::strtoull(val(), 0, 10);
      else if (a == "--thorough") { m.thorough = true; m.cases = thorough_cases; }
      else if (a == "--cases") m.cases = std::atol(val());
      else if (a == "--scale") scale = std::atof(val());
      else if (a == "--case") m.only_case = std::atol(val());
   }
   m.cases = long(double(m.cases) * scale);
   if (m.cases < 1) m.cases = 1;
   std::set_terminate(on_terminate);
   std::signal(SIGVTALRM, on_signal);
   std::signal(SIGABRT, on_signal);
#ifdef VF_ASAN
   __sanitizer_set_death_callback(death_callback);
#else
   std::signal(SIGSEGV, on_signal); std::signal(SIGBUS, on_signal); std::signal(SIGFPE, on_signal); std::signal(SIGILL, on_signal);
#endif
   long first = 0, last = m.cases;
   if (m.only_case >= 0) { first = m.only_case; last = first + 1; }
   for (long c = first; c < last; ++c) {
      m.case_no = c;
      m.hist.clear();
      m.case_digest = 1469598103934665603ull;
      Rng rng(m.seed * 1000003ull + std::uint64_t(c) * 7919ull + 17);
      arm_watchdog(cpu_secs);
      run(rng);
      ++m.evaluations;
      if (m.hist.size() >= 3) m.case_digests.insert(m.case_digest);
      if (c < 2 || (m.cases > 10 && c == m.cases - 1)) m.samples.push_back(history(25));
   }
   arm_watchdog(0);
   std::printf("CONFIG\t%s\n", config);
   std::printf("EVALS\t%ld\n", m.evaluations);
   std::printf("DISTINCT\t%zu\n", m.case_digests.size());
   std::printf("STATES\t%zu\n", m.digests.size());
   std::map<std::string, long> merged;
   for (auto &p : m.stats) merged[p.first] += p.second;
   for (auto &p : merged) std::printf("STAT\t%s\t%ld\n", p.first.c_str(), p.second);
   for (auto &s : m.samples) std::printf("SAMPLE\t%s\n", s.substr(0, 900).c_str());
   std::printf("DONE\n");
   std::fflush(stdout);
   std::_Exit(0);
}

} // namespace vf

namespace boost {
inline void assertion_failed(char const *expr, char const *function, char const *file, long line) { vf::on_assert(expr, function, file, line); }
inline void assertion_failed_msg(char const *expr, char const *, char const *function, char const *file, long line) { vf::on_assert(expr, function, file, line); }
}

#ifdef VF_COUNT_ALLOCS
void *operator new(std::size_t n) { ++vf::allocs(); void *p = std::malloc(n ? n : 1); if (!p) std::abort(); return p; }
void *operator new[](std::size_t n) { ++vf::allocs(); void *p = std::malloc(n ? n : 1); if (!p) std::abort(); return p; }
void operator delete(void *p) noexcept { std::free(p); }
void operator delete[](void *p) noexcept { std::free(p); }
void operator delete(void *p, std::size_t) noexcept { std::free(p); }
void operator delete[](void *p, std::size_t) noexcept { std::free(p); }
#endif
#endif
