// Model-based monitor for the unordered containers.
#ifndef VF_HASH_DRIVER_HPP
#define VF_HASH_DRIVER_HPP
#include "common.hpp"
#include <boost/intrusive/unordered_set.hpp>

namespace vf {
namespace bi = boost::intrusive;
constexpr bool F_COST = PROP == 20;
struct HKey { int v; };   // a key of another type
inline int kv(const Payload &p) { return p.v; }
inline int kv(int v) { return v; }
inline int kv(HKey k) { return k.v; }

// Functors are identified by an index into this table: what a container computes with is observable state that must travel with it.
struct Fn { int mode, shift; std::size_t salt; };
inline Fn *fns() { static Fn t[64]; return t; }
inline int cls(int f, int v) { return v >> fns()[f].shift; }
inline std::size_t hash_of(int f, int v) {
   const Fn &n = fns()[f]; std::size_t c = std::size_t(long(cls(f, v))), h;
   switch (n.mode) {
   case 0: h = c; break;
   case 1: h = (c + 1) * 0x9E3779B97F4A7C15ull; break;
   case 2: h = c % 3; break;
   case 3: h = 7; break;
   case 4: h = std::size_t(-1) - c; break;
   case 5: h = c << 32 | (c * 5 & 0xff); break;
   case 6: h = c * 16; break;
   default: h = c % 5 * 0x100000001ull; break;
   }
   return h + n.salt;
}
inline long &hash_calls() { static long n = 0; return n; }
inline long &eq_calls() { static long n = 0; return n; }
struct HHash { int f = 0; template <class K> std::size_t operator()(const K &k) const { ++hash_calls(); tick(); return hash_of(f, kv(k)); } };
struct HEq { int f = 0; template <class A, class B> bool operator()(const A &a, const B &b) const { ++eq_calls(); tick(); return cls(f, kv(a)) == cls(f, kv(b)); } };
struct KeyOf { typedef int type; template <class T> const int &operator()(const T &t) const { return t.v; } };

// Cfg: elem, container, uni, eqm (insert allows duplicates), wrapper, kov, safe, cts, autou, cache, store, multi (optimize_multikey), p2, incr, linear, fastmod, cmph, other
template <class Cfg> struct HashDriver : DriverBase<Cfg> {
   typedef DriverBase<Cfg> B;
   typedef typename Cfg::elem E;
   typedef typename Cfg::container L;
   typedef typename L::iterator It;
   typedef typename L::const_iterator CIt;
   typedef typename L::local_iterator LIt;
   typedef typename L::const_local_iterator CLIt;
   typedef typename L::bucket_type BT;
   typedef typename L::bucket_traits BTr;
   typedef std::vector<int> Seq;
   using B::pool; using B::rng; using B::disposer; using B::after_dispose;
   static const bool optm = Cfg::multi && !Cfg::uni;

   void *cmem[2];
   L *c[2];
   Seq m[2];
   int fn[2];
   struct Buckets { BT *p = nullptr; std::size_t cap = 0; } bk[2]; // cap: constructed buckets, including the sentinel's place
   std::size_t nb[2];    // usable bucket count
   std::size_t split[2]; // incremental only
   std::vector<int> where;
   std::vector<It> its;
   std::vector<char> itok;
   int keyrange, nextfn = 0;
   bool wide = false; // a few cases use large bucket arrays and many elements
   E *kel = nullptr, *kel2 = nullptr;
   int kint, kint2;

   E &el(int id) { return pool[id]; }
   static std::size_t csz() { return (sizeof(L) + 15) & ~std::size_t(15); }
   const E *alias = nullptr; // the key is read from this element of the container
   decltype(auto) key(int v) { if (alias) { const E &x = *alias; alias = nullptr; if constexpr (Cfg::kov) return static_cast<const int &>(x.v); else return static_cast<const E &>(x); } if constexpr (Cfg::kov) { kint = v; return static_cast<const int &>(kint); } else { kel->v = v; return static_cast<const E &>(*kel); } }
   // ------------------------------------------------------------ bucket arrays
   static const std::size_t over = L::bucket_overhead;
   static BTr bt(BT *p, std::size_t n) { return BTr(L_bp(p), n + over); }
   static typename L::bucket_ptr L_bp(BT *p) { return typename L::bucket_ptr(p); }
   std::size_t pick_n() {
      if (Cfg::fastmod) { static const std::size_t pr[] = {3, 7, 11, 17, 29, 53, 97, 193, 389, 769, 1543}; return pr[rng->below(wide ? 11 : 7)]; }
      if (Cfg::p2 || Cfg::incr) return std::size_t(1) << rng->below(wide ? 11 : 7);
      if (wide && rng->chance(1, 2)) return 100 + rng->below(900);
      return rng->chance(1, 3) ? std::size_t(1) << rng->below(6) : 1 + rng->below(40);
   }
   static Buckets new_buckets(std::size_t cap) { Buckets b; b.cap = cap; b.p = static_cast<BT *>(::operator new(cap * sizeof(BT))); std::memset(static_cast<void *>(b.p), 0xA5, cap * sizeof(BT)); for (std::size_t i = 0; i < cap; ++i) new (b.p + i) BT; return b; }
   static void free_buckets(Buckets &b) { VF_UNPOISON(b.p, b.cap * sizeof(BT)); for (std::size_t i = 0; i < b.cap; ++i) b.p[i].~BT(); ::operator delete(b.p); b.p = nullptr; b.cap = 0; }
   // everything past the part in use is off limits
   void fence(int k) { VF_UNPOISON(bk[k].p, bk[k].cap * sizeof(BT)); VF_POISON(bk[k].p + nb[k] + over, (bk[k].cap - nb[k] - over) * sizeof(BT)); }
   int new_fn() { int f = nextfn++; if (nextfn >= 60) nextfn = 0; VF_REQ(f != fn[0] && f != fn[1], "internal-fn");
      fns()[f] = Fn{rng->chance(1, 2) ? int(rng->below(2)) : int(rng->below(8)), rng->chance(1, 4) ? 1 : 0, rng->chance(1, 4) ? std::size_t(rng->below(100)) : 0}; return f; }
   void make() {
      fn[0] = fn[1] = -1;
      for (int k = 0; k < 2; ++k) {
         nb[k] = pick_n(); bk[k] = new_buckets(nb[k] + over + (rng->chance(1, 2) ? rng->below(70) : 0)); fn[k] = new_fn(); fence(k);
         cmem[k] = ::operator new(csz()); c[k] = new (cmem[k]) L(bt(bk[k].p, nb[k]), HHash{fn[k]}, HEq{fn[k]}); split[k] = nb[k] / 2; m[k].clear();
      }
   }
   bool same(int k, int a, int b) { return cls(fn[k], a) == cls(fn[k], b); }
   std::size_t cnt(int k, int v) { std::size_t n = 0; for (int x : m[k]) n += same(k, el(x).v, v); return n; }
   std::size_t bucket_of(int k, int v) {
      std::size_t h = hash_of(fn[k], v);
      if (Cfg::fastmod) return std::size_t(std::uint32_t(std::uint32_t(h) + std::uint32_t(h >> 32))) % nb[k];
      if (Cfg::incr) { std::size_t b = h & (nb[k] - 1); return b >= split[k] ? b - nb[k] / 2 : b; }
      if (Cfg::p2) return h & (nb[k] - 1);
      return h % nb[k];
   }
   It at(int k, std::size_t pos) { It i = c[k]->begin(); while (pos--) ++i; return i; }
   Seq order(int k) { Seq s; for (CIt i = c[k]->cbegin(), e = c[k]->cend(); i != e; ++i) { if (s.size() > pool.e.size()) fail("endless-iteration", "%s: container %d", M().phase, k); s.push_back(i->id); } return s; }

   // ------------------------------------------------------------ guards
   std::vector<int> passed;
   void poison_on(int mask) {
      for (std::size_t i = 0; i < pool.e.size(); ++i) { int w = where[i]; bool keep = (w >= 0 && (mask >> w & 1)) || std::find(passed.begin(), passed.end(), int(i)) != passed.end(); if (!keep) pool.poison(int(i)); }
      for (int k = 0; k < 2; ++k) if (!(mask >> k & 1)) { VF_POISON(cmem[k], csz()); VF_POISON(bk[k].p, bk[k].cap * sizeof(BT)); }
   }
   void poison_off() { pool.unpoison_all(); for (int k = 0; k < 2; ++k) { VF_UNPOISON(cmem[k], csz()); fence(k); } passed.clear(); }
   struct Guard {
      HashDriver *d; Guard(HashDriver *d_, int mask) : d(d_) { if (F_POISON) d->poison_on(mask); d->life_begin(); }
      ~Guard() { d->life_end(); if (F_POISON) d->poison_off(); else d->passed.clear(); }
   };
   struct PoisonOnly { HashDriver *d; PoisonOnly(HashDriver *d_, int mask) : d(d_) { if (F_POISON) d->poison_on(mask); } ~PoisonOnly() { if (F_POISON) d->poison_off(); d->passed.clear(); } };
   // no hasher call allowed in scope
   struct NoHash { long h; const char *key; NoHash(const char *k) : h(hash_calls()), key(k) {} ~NoHash() { if (hash_calls() != h) fail(key, "%s: %ld hasher calls", M().phase, hash_calls() - h); } };
   void release(int id) { where[id] = -1; itok[id] = 0; }
   void put(int id, int k) { where[id] = k; }
   void saved(int id, It i) { if (F_ITER) { its[id] = i; itok[id] = 1; } }
   void resave(int k) { if (F_ITER) for (int x : m[k]) { its[x] = c[k]->iterator_to(el(x)); itok[x] = 1; } }
   int free_id() { for (int t = 0; t < 20; ++t) { int i = int(rng->below(pool.e.size())); if (where[i] < 0) return i; } return -1; }
   int rv() { return rng->range(0, keyrange); }
   void rekey(int id) { el(id).v = rv(); el(id).aux = rng->range(0, 5); }
   int some_key(int k) { return !m[k].empty() && rng->chance(2, 3) ? el(m[k][rng->below(m[k].size())]).v : rng->range(-1, keyrange + 2); }
   int probe_key(int k, Rng &r) { return !m[k].empty() && r.chance(2, 3) ? el(m[k][r.below(m[k].size())]).v : r.range(-1, keyrange + 2); }
   void hook_ok(int id, const char *key) {
      bool in = where[id] >= 0, l = Cfg::linked(el(id));
      if (Cfg::linear ? (l && !in) : l != in) fail(key, "%s: is_linked() of element %d is %d, it is %sin a container", M().phase, id, int(l), in ? "" : "not ");
   }

   // ------------------------------------------------------------ observation
   void verify() { for (int k = 0; k < 2; ++k) verify(k);
      if (Cfg::safe && F_HOOK) for (std::size_t i = 0; i < where.size(); ++i) hook_ok(int(i), "hook-linked-state"); }
   std::vector<int> mark;
   void verify(int k) {
      const L &cl = *c[k]; const Seq &s = m[k];
      VF_REQ(cl.size() == s.size(), "size"); VF_REQ(cl.empty() == s.empty(), "empty");
      VF_REQ((cl.begin() == cl.end()) == s.empty(), "begin-end-empty");
      VF_REQ(cl.bucket_count() == nb[k] && raw(cl.bucket_pointer()) == bk[k].p, "bucket-array");
      VF_REQ(cl.hash_function().f == fn[k] && cl.key_eq().f == fn[k], "functor-identity");
      if constexpr (Cfg::incr) VF_REQ(c[k]->split_count() == split[k], "split-count");
      // whole iteration: each element once, equal elements adjacent
      mark.assign(where.size(), 0); std::size_t n = 0; Seq seq;
      for (CIt i = cl.begin(), e = cl.end(); i != e; ++i, ++n) {
         if (n >= s.size()) fail("iteration", "%s: container %d iterates more than its %zu elements", M().phase, k, s.size());
         int id = i->id; VF_REQ(id >= 0 && id < int(where.size()) && &el(id) == &*i, "iteration-alien"); VF_REQ(where[id] == k, "iteration-foreign"); VF_REQ(!mark[id], "iteration-repeated"); mark[id] = 1; seq.push_back(id);
      }
      if (n != s.size()) fail("iteration", "%s: container %d iterates %zu of %zu elements", M().phase, k, n, s.size());
      for (std::size_t i = 0; i < n; ++i) for (std::size_t j = i + 2; j < n; ++j) if (same(k, el(seq[i]).v, el(seq[j]).v) && !same(k, el(seq[j - 1]).v, el(seq[j]).v)) fail("adjacency", "%s: container %d: equal elements %d and %d are not adjacent", M().phase, k, seq[i], seq[j]);
      // buckets
      std::size_t tot = 0; Seq bseq; long h0 = fault().calls; (void)h0;
      for (std::size_t b = 0; b < nb[k]; ++b) {
         std::size_t w = 0; typename L::size_type bb = typename L::size_type(b);
         for (CLIt i = cl.begin(bb), e = cl.end(bb); i != e; ++i, ++w) {
            if (tot + w >= s.size()) fail("bucket-iteration", "%s: container %d bucket %zu", M().phase, k, b);
            int id = i->id; VF_REQ(id >= 0 && id < int(where.size()) && &el(id) == &*i && where[id] == k && mark[id] == 1, "bucket-element"); mark[id] = 2; bseq.push_back(id);
            if (bucket_of(k, el(id).v) != b) fail("wrong-bucket", "%s: container %d: element %d (key %d) is in bucket %zu, its key maps to %zu", M().phase, k, id, el(id).v, b, bucket_of(k, el(id).v));
            if constexpr (Cfg::store) VF_REQ(L::node_traits::get_hash(L::value_traits::to_node_ptr(el(id))) == hash_of(fn[k], el(id).v), "stored-hash");
         }
         VF_REQ(cl.bucket_size(bb) == w, "bucket-size");
         if (w && (F_ITER || (F_WALK && M().hist.size() % 8 == 0))) {
            std::vector<E *> v; std::vector<const E *> cv; for (std::size_t q = tot; q < tot + w; ++q) { v.push_back(&el(bseq[q])); cv.push_back(v.back()); }
            L &ml = *c[k]; it::forward<false>(ml.begin(bb), ml.end(bb), v); it::forward<false>(cl.begin(bb), cl.end(bb), cv); it::forward<false>(cl.cbegin(bb), cl.cend(bb), cv);
            LIt li = ml.begin(bb); CLIt ci = cl.begin(bb); VF_REQ(&*li == &*ci, "local-mixed");
         }
         tot += w;
      }
      VF_REQ(tot == s.size(), "bucket-total"); VF_REQ(bseq == seq, "bucket-order");
      digest(hash_ids(seq, nb[k] * 31 + split[k]));
      if (F_ITER || (F_WALK && M().hist.size() % 8 == 0)) { std::vector<E *> v; for (int x : seq) v.push_back(&el(x)); it::container(*c[k], v); }
      // lookups
      Rng r2 = Rng(std::uint64_t(M().hist.size()) * 977 + std::uint64_t(k)); // does not disturb the history's own choices
      for (int t = 0; t < 3; ++t) lookup(k, probe_key(k, r2), r2.chance(1, 2), r2.chance(1, 2));
      if (F_ITER) {
         for (std::size_t i = 0; i < n; ++i) {
            int id = seq[i]; It q = c[k]->iterator_to(el(id)); CIt cq = cl.iterator_to(static_cast<const E &>(el(id)));
            VF_REQ(&*q == &el(id) && raw(q.operator->()) == &el(id) && cq == CIt(q) && cq == q, "iterator_to");
            It nx = q; ++nx; CIt p = cq++; VF_REQ(p == q && cq == nx, "iterator-increment"); VF_REQ(i + 1 == n ? nx == c[k]->end() : &*nx == &el(seq[i + 1]), "iterator-neighbour");
            LIt lq = c[k]->local_iterator_to(el(id)); CLIt clq = cl.local_iterator_to(static_cast<const E &>(el(id))); LIt sl = L::s_local_iterator_to(el(id)); CLIt scl = L::s_local_iterator_to(static_cast<const E &>(el(id)));
            VF_REQ(&*lq == &el(id) && &*clq == &el(id) && lq == sl && clq == scl && &*sl == &el(id), "local_iterator_to");
            ++lq; std::size_t b = bucket_of(k, el(id).v); bool last = i + 1 == n || bucket_of(k, el(seq[i + 1]).v) != b;
            VF_REQ(last ? lq == c[k]->end(typename L::size_type(b)) : &*lq == &el(seq[i + 1]), "local-neighbour");
            if (itok[id]) { VF_REQ(its[id] == q && &*its[id] == &el(id), "saved-iterator"); It z = its[id]; ++z; VF_REQ(z == nx, "saved-iterator-neighbour"); }
         }
         It d1 = It(), d2 = It(); VF_REQ(d1 == d2, "null-iterators"); It mb = c[k]->begin(); VF_REQ(CIt(mb) == cl.cbegin() && CIt(c[k]->end()) == cl.cend(), "const-ends");
      }
   }
   template <class I> bool at_class(int k, const I &i, std::size_t n, int v) { if (!n) return i == I(c[k]->end()); return i != I(c[k]->end()) && i->id >= 0 && i->id < int(where.size()) && &el(i->id) == &*i && where[i->id] == k && same(k, i->v, v); }
   template <class LL, class P> void check_range(int k, LL &l, const P &r, std::size_t n, int v) {
      if (!n) { VF_REQ(r.first == l.end() && r.second == l.end(), "equal_range-absent"); return; }
      std::size_t w = 0; auto i = r.first;
      for (; i != r.second; ++i) { if (w >= n) fail("equal_range", "%s: container %d key %d: more than %zu elements", M().phase, k, v, n); VF_REQ(at_class(k, i, 1, v), "equal_range-content"); ++w; }
      VF_REQ(w == n, "equal_range-count");
      i = r.second;
      if (i != l.end()) { VF_REQ(i->id >= 0 && i->id < int(where.size()) && where[i->id] == k && !same(k, i->v, v), "equal_range-end"); // the past-the-range iterator keeps iterating
         std::size_t g = 0; for (; i != l.end(); ++i) if (++g > m[k].size()) fail("equal_range-end", "%s: endless", M().phase); }
   }
   void lookup(int k, int v, bool het, bool cst) {
      L &l = *c[k]; const L &cl = l; std::size_t n = cnt(k, v); decltype(auto) kk = key(v); HKey hk{v}; HHash hf{fn[k]}; HEq ef{fn[k]};
      M().phase = "lookup"; std::size_t bn = bucket_of(k, v); std::size_t bs = l.bucket_size(typename L::size_type(bn));
      long h0 = hash_calls(), e0 = eq_calls();
      if (cst) {
         VF_REQ(at_class(k, het ? cl.find(hk, hf, ef) : cl.find(kk), n, v), "find");
         if (F_COST) { cost("cost-find", h0, e0, 1, bs); }
         VF_REQ((het ? cl.count(hk, hf, ef) : cl.count(kk)) == n, "count");
         if (het) check_range(k, cl, cl.equal_range(hk, hf, ef), n, v); else check_range(k, cl, cl.equal_range(kk), n, v);
      } else {
         VF_REQ(at_class(k, het ? l.find(hk, hf, ef) : l.find(kk), n, v), "find");
         if (F_COST) { cost("cost-find", h0, e0, 1, bs); }
         VF_REQ((het ? l.count(hk, hf, ef) : l.count(kk)) == n, "count");
         if (het) check_range(k, l, l.equal_range(hk, hf, ef), n, v); else check_range(k, l, l.equal_range(kk), n, v);
      }
      VF_REQ((het ? cl.bucket(hk, hf) : cl.bucket(kk)) == bn, "bucket");
      count("lookups");
   }
   // hash and equality calls since (h0, e0); with stored hashes compared, equality is only asked for equal hashes; groups count once with optimize_multikey
   void cost(const char *key, long h0, long e0, long hmax, std::size_t bs, long extra_groups = 0) {
      (void)extra_groups;
      long h = hash_calls() - h0, e = eq_calls() - e0;
      if (h > hmax) fail(key, "%s: %ld hasher calls, at most %ld expected", M().phase, h, hmax);
      if (e > long(bs)) fail(key, "%s: %ld equality calls in a bucket of %zu", M().phase, e, bs);
      count("cost-checks");
   }

   // ------------------------------------------------------------ insertion
   It ins_eq(L &l, E &e) { if constexpr (Cfg::wrapper) return l.insert(e); else return l.insert_equal(e); }
   std::pair<It, bool> ins_un(L &l, E &e) { if constexpr (Cfg::wrapper) return l.insert(e); else return l.insert_unique(e); }
   template <class I> void ins_range(L &l, bool u, I b, I e) { if constexpr (Cfg::wrapper) { (void)u; l.insert(b, e); } else if (u) l.insert_unique(b, e); else l.insert_equal(b, e); }
   void model_ins(int k, int id, It r) { m[k].push_back(id); put(id, k); saved(id, r); }
   void do_insert(int k) { int id = free_id(); if (id < 0) return; rekey(id); insert_id(k, id); }
   void insert_id(int k, int id) {
      int v = el(id).v; std::size_t n = cnt(k, v); op(Cfg::uni ? "insert_unique" : "insert_equal", k, id, v); passed.push_back(id);
      std::size_t bs = c[k]->bucket_size(typename L::size_type(bucket_of(k, v))); long h0 = hash_calls(), e0 = eq_calls();
      if constexpr (Cfg::uni) {
         std::pair<It, bool> r; { Guard g(this, 1 << k); r = ins_un(*c[k], el(id)); }
         VF_REQ(r.second == (n == 0), "insert-unique-verdict");
         if (r.second) { VF_REQ(&*r.first == &el(id), "insert-result"); model_ins(k, id, r.first); } else VF_REQ(at_class(k, r.first, 1, v), "insert-unique-existing");
      } else { It r; { Guard g(this, 1 << k); r = ins_eq(*c[k], el(id)); } VF_REQ(&*r == &el(id), "insert-result"); model_ins(k, id, r); }
      if (F_COST) cost("cost-insert", h0, e0, 1, bs);
   }
   struct RefIt {
      typedef std::forward_iterator_tag iterator_category; typedef E value_type; typedef std::ptrdiff_t difference_type; typedef E *pointer; typedef E &reference;
      HashDriver *d; const int *p;
      E &operator*() const { return d->el(*p); } E *operator->() const { return &d->el(*p); }
      RefIt &operator++() { ++p; return *this; } RefIt operator++(int) { RefIt t(*this); ++p; return t; }
      bool operator==(const RefIt &o) const { return p == o.p; } bool operator!=(const RefIt &o) const { return p != o.p; }
   };
   Seq take_free(std::size_t n) { Seq r; for (std::size_t i = 0, st = rng->below(where.size()); i < where.size() && r.size() < n; ++i) { int id = int((st + i) % where.size()); if (where[id] < 0) { rekey(id); r.push_back(id); } } return r; }
   void model_range(int k, const Seq &ids) { for (int id : ids) { if (Cfg::uni && cnt(k, el(id).v)) continue; m[k].push_back(id); put(id, k); } for (int id : ids) if (where[id] == k) saved(id, c[k]->iterator_to(el(id))); }
   void do_insert_range(int k) {
      Seq ids = take_free(rng->below(6)); op("insert_range", k, long(ids.size())); passed = ids;
      { Guard g(this, 1 << k); ins_range(*c[k], Cfg::uni, RefIt{this, ids.data()}, RefIt{this, ids.data() + ids.size()}); }
      model_range(k, ids);
   }
   template <class I> L *construct_range(void *p, I b, I e, const BTr &t, int f) { if constexpr (Cfg::wrapper) return new (p) L(b, e, t, HHash{f}, HEq{f}); else { L *l = new (p) L(t, HHash{f}, HEq{f}); ins_range(*l, Cfg::uni, b, e); return l; } }
   void do_range_ctor(int k) {
      Seq ids = take_free(rng->below(8)); op("range_ctor", k, long(ids.size()));
      do_clear(k, false); c[k]->~L(); int f = -1; do { fn[k] = -1; f = nextfn; if (f == fn[0] || f == fn[1]) { ++nextfn; if (nextfn >= 60) nextfn = 0; continue; } f = new_fn(); break; } while (true);
      passed = ids; { Guard g(this, 1 << k); c[k] = construct_range(cmem[k], RefIt{this, ids.data()}, RefIt{this, ids.data() + ids.size()}, bt(bk[k].p, nb[k]), f); }
      fn[k] = f; split[k] = nb[k] / 2; model_range(k, ids);
   }
   // two-phase
   void do_check_commit(int k) {
      if constexpr (Cfg::uni) {
         int id = free_id(); if (id < 0) return; rekey(id); int v = el(id).v; bool het = rng->chance(1, 2), fast = rng->chance(1, 2); std::size_t n = cnt(k, v);
         op("insert_check", k, id, v, het); typename L::insert_commit_data cd; Seq before = order(k); std::pair<It, bool> r; decltype(auto) kk = key(v);
         { Guard g(this, 1 << k);
           if constexpr (Cfg::wrapper) r = het ? c[k]->insert_check(HKey{v}, HHash{fn[k]}, HEq{fn[k]}, cd) : c[k]->insert_check(kk, cd);
           else r = het ? c[k]->insert_unique_check(HKey{v}, HHash{fn[k]}, HEq{fn[k]}, cd) : c[k]->insert_unique_check(kk, cd); }
         VF_REQ(r.second == (n == 0), "insert-check-verdict");
         if (!r.second) { VF_REQ(at_class(k, r.first, 1, v), "insert-check-existing"); count("check-rejects"); }
         VF_REQ(order(k) == before, "insert-check-changed-content"); verify(k);
         if (!r.second || rng->chance(1, 8)) return;
         bool re = false;
         if (rng->chance(1, 3)) { lookup(k, rv(), het, true); }
         if (!fast && rng->chance(1, 3)) { do_rehash(k); re = true; } // the slow commit's data outlives a rehash
         op(fast ? "insert_fast_commit" : "insert_commit", k, id, re); It q; passed.push_back(id); fault().forbid = true;
         { Guard g(this, 1 << k);
           if constexpr (Cfg::wrapper) q = fast ? c[k]->insert_fast_commit(el(id), cd) : c[k]->insert_commit(el(id), cd);
           else q = fast ? c[k]->insert_unique_fast_commit(el(id), cd) : c[k]->insert_unique_commit(el(id), cd); }
         fault().forbid = false; VF_REQ(&*q == &el(id), "insert-result"); model_ins(k, id, q); count("commits");
      } else do_insert(k);
   }

   // ------------------------------------------------------------ removal
   void drop(int k, int id) { release(id); m[k].erase(std::find(m[k].begin(), m[k].end(), id)); }
   void do_erase(int k, bool disp) {
      if (m[k].empty()) return; std::size_t p = rng->below(m[k].size()); op(disp ? "erase_and_dispose" : "erase", k, long(p));
      It i = at(k, p); int id = i->id; typename B::Disposer d = disposer(); fault().forbid = true;
      { Guard g(this, 1 << k); if (disp) c[k]->erase_and_dispose(CIt(i), d); else c[k]->erase(CIt(i)); }
      fault().forbid = false; after_dispose(disp ? Seq(1, id) : Seq()); drop(k, id);
   }
   void do_erase_range(int k, bool disp) {
      std::size_t a = rng->below(m[k].size() + 1), b = rng->below(m[k].size() + 1); if (a > b) std::swap(a, b);
      if (b - a > 5 && rng->chance(1, 2)) b = a + rng->below(5);
      op(disp ? "erase_range_and_dispose" : "erase_range", k, long(a), long(b)); Seq o = order(k); Seq gone(o.begin() + long(a), o.begin() + long(b)); It f = at(k, a), l = at(k, b); typename B::Disposer d = disposer(); fault().forbid = true;
      { Guard g(this, 1 << k); if (disp) c[k]->erase_and_dispose(CIt(f), CIt(l), d); else c[k]->erase(CIt(f), CIt(l)); }
      fault().forbid = false; after_dispose(disp ? gone : Seq()); for (int x : gone) drop(k, x);
      Seq o2 = order(k); o.erase(o.begin() + long(a), o.begin() + long(b)); VF_REQ(o == o2, "erase-range-rest");
   }
   void do_erase_key(int k, bool disp) {
      int v = some_key(k); bool het = rng->chance(1, 2); op(disp ? "erase_key_and_dispose" : "erase_key", k, v, het); Seq gone; for (int x : m[k]) if (same(k, el(x).v, v)) gone.push_back(x);
      typename L::size_type n; typename B::Disposer d = disposer(); if (!gone.empty() && rng->chance(1, 2)) { alias = &el(gone[rng->below(gone.size())]); count("aliased-arguments"); } decltype(auto) kk = key(v); std::size_t bs = c[k]->bucket_size(typename L::size_type(bucket_of(k, v))); long h0 = hash_calls(), e0 = eq_calls();
      { Guard g(this, 1 << k); if (disp) n = het ? c[k]->erase_and_dispose(HKey{v}, HHash{fn[k]}, HEq{fn[k]}, d) : c[k]->erase_and_dispose(kk, d); else n = het ? c[k]->erase(HKey{v}, HHash{fn[k]}, HEq{fn[k]}) : c[k]->erase(kk); }
      if (F_COST) cost("cost-erase-key", h0, e0, 1, bs);
      VF_REQ(n == gone.size(), "erase-key-count"); after_dispose(disp ? gone : Seq()); for (int x : gone) drop(k, x);
   }
   void do_clear(int k, bool disp) {
      op(disp ? "clear_and_dispose" : "clear", k); Seq gone = m[k]; typename B::Disposer d = disposer(); fault().forbid = true;
      { Guard g(this, 1 << k); if (disp) c[k]->clear_and_dispose(d); else c[k]->clear(); }
      fault().forbid = false; if (!Cfg::safe && !disp) for (int x : gone) pool.reset_keep(x);
      after_dispose(disp ? gone : Seq()); for (int x : gone) release(x); m[k].clear();
   }

   // ------------------------------------------------------------ rehashing
   void invalidate(int k) { for (int x : m[k]) itok[x] = 0; }
   void do_rehash(int k) {
      std::size_t n = pick_n(); if (rng->chance(1, 3) && !Cfg::fastmod) n = rng->chance(1, 2) ? nb[k] * 2 : std::max<std::size_t>(1, nb[k] / 2); if (n > (wide ? 2000u : 200u)) n = nb[k]; if (rng->chance(1, 8)) n = nb[k];
      bool reuse = n + over <= bk[k].cap && rng->chance(1, 2);
      op(reuse ? "rehash_same_memory" : "rehash", k, long(n), long(nb[k])); Buckets nw = reuse ? bk[k] : new_buckets(n + over + (rng->chance(1, 2) ? rng->below(70) : 0));
      if (reuse) { std::size_t mx = std::max(n, nb[k]) + over; VF_UNPOISON(bk[k].p, mx * sizeof(BT)); }
      long h0 = hash_calls(); std::size_t groups = 0; { Seq o = order(k); for (std::size_t i = 0; i < o.size(); ++i) groups += i == 0 || !same(k, el(o[i - 1]).v, el(o[i]).v); }
      std::size_t onb = nb[k]; if (reuse) nb[k] = std::max(n, nb[k]); // what the guard may leave open
      { BTr t = bt(nw.p, n); if (F_POISON && !reuse) VF_POISON(nw.p + n + over, (nw.cap - n - over) * sizeof(BT)); Guard g(this, 1 << k); c[k]->rehash(t); }
      nb[k] = onb;
      if (Cfg::store) { if (hash_calls() != h0) fail("rehash-stored-hash", "rehash called the hasher %ld times although hashes are stored", hash_calls() - h0); }
      else if (F_COST && !reuse && hash_calls() - h0 > long(optm ? groups : m[k].size())) fail("cost-rehash", "rehash of %zu elements in %zu groups called the hasher %ld times", m[k].size(), groups, hash_calls() - h0);
      if (!reuse) { poison_free(k); bk[k] = nw; }
      nb[k] = n; split[k] = n; fence(k); invalidate(k); count("rehashes");
   }
   void poison_free(int k) { free_buckets(bk[k]); }
   void do_full_rehash(int k) {
      op("full_rehash", k, long(m[k].size()));
      if (rng->chance(3, 4)) fns()[fn[k]].salt += 1 + rng->below(1000); // the functor's results change, equality does not
      { Guard g(this, 1 << k); c[k]->full_rehash(); }
      split[k] = nb[k]; invalidate(k); count("full-rehashes");
   }
   void do_incremental(int k) {
      if constexpr (Cfg::incr) {
         if (rng->chance(2, 3)) {
            bool grow = rng->chance(1, 2); int reps = rng->range(1, 1 + int(nb[k]));
            for (int i = 0; i < reps; ++i) {
               op(grow ? "incremental_grow" : "incremental_shrink", k, long(split[k]), long(nb[k]));
               bool want = grow ? split[k] < nb[k] : split[k] > nb[k] / 2, got; Seq before = m[k];
               { Guard g(this, 1 << k); got = grow && rng->chance(1, 2) ? c[k]->incremental_rehash() : c[k]->incremental_rehash(grow); }
               VF_REQ(got == want, "incremental-result");
               if (got) { split[k] += grow ? 1 : std::size_t(-1); count("incremental-steps"); }
               invalidate(k); verify(k);
            }
         } else {
            int how = int(rng->below(8)); std::size_t n = how < 3 ? nb[k] * 2 : how < 6 ? nb[k] / 2 : pick_n(); if (n < 1) n = 1; if (n > 256) n = 64;
            bool want = (n / 2 == nb[k] && split[k] >= nb[k]) || (n / 2 != nb[k] && n == nb[k] / 2 && split[k] <= n);
            bool reuse = n + over <= bk[k].cap && rng->chance(1, 2); op(reuse ? "incremental_buckets_same_memory" : "incremental_buckets", k, long(n), long(nb[k]), long(split[k]));
            Buckets nw = reuse ? bk[k] : new_buckets(n + over); std::size_t onb = nb[k]; if (reuse) { nb[k] = std::max(n, nb[k]); VF_UNPOISON(bk[k].p, (nb[k] + over) * sizeof(BT)); }
            bool got; fault().forbid = true; { BTr t = bt(nw.p, n); Guard g(this, 1 << k); got = c[k]->incremental_rehash(t); } fault().forbid = false; nb[k] = onb;
            VF_REQ(got == want, "incremental-buckets-result");
            if (got) { if (!reuse) { free_buckets(bk[k]); bk[k] = nw; } nb[k] = n; invalidate(k); count("incremental-buckets"); }
            else if (!reuse) free_buckets(nw);
            fence(k);
         }
      } else do_rehash(k);
   }

   // ------------------------------------------------------------ whole containers
   void swap_models() { m[0].swap(m[1]); std::swap(fn[0], fn[1]); std::swap(bk[0], bk[1]); std::swap(nb[0], nb[1]); std::swap(split[0], split[1]); for (int k = 0; k < 2; ++k) { for (int x : m[k]) put(x, k); invalidate(k); } }
   void do_swap(int kind) { op("swap", kind); { Guard g(this, 3); if (kind == 0) c[0]->swap(*c[1]); else { using std::swap; L &a = *c[0], &b = *c[1]; swap(a, b); } } swap_models(); }
   void do_move_assign(int k) { op("move_assign", k); { Guard g(this, 3); *c[k] = std::move(*c[1 - k]); } swap_models(); }
   void do_move_ctor(int k) {
      op("move_ctor", k);
      void *nm = ::operator new(csz()); Seq before = order(k);
      { Guard g(this, 1 << k); L *t = new (nm) L(std::move(*c[k]));
        if (Cfg::cts) VF_REQ(c[k]->empty() && c[k]->size() == 0, "moved-from-empty");
        // the source may be destroyed, refilled by swap or by assignment
        switch (rng->below(3)) {
        case 0: c[k]->~L(); VF_POISON(cmem[k], csz()); ::operator delete((VF_UNPOISON(cmem[k], csz()), cmem[k])); cmem[k] = nm; c[k] = t; nm = nullptr; break;
        case 1: c[k]->swap(*t); t->~L(); break;
        case 2: *c[k] = std::move(*t); t->~L(); break;
        } }
      if (nm) ::operator delete(nm);
      VF_REQ(order(k) == before, "move-ctor-order"); invalidate(k);
   }
   bool model_equal() { Seq x, y; for (int i : m[0]) x.push_back(el(i).v); for (int i : m[1]) y.push_back(el(i).v); std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); return x == y; }
   void do_compare() {
      op("compare"); const L &a = *c[0], &b = *c[1];
      Seq x, y; for (int i : order(0)) x.push_back(el(i).v); for (int i : order(1)) y.push_back(el(i).v);
      Guard g(this, 3);
      if (fns()[fn[0]].shift == fns()[fn[1]].shift) { bool e = model_equal(); VF_REQ((a == b) == e, "compare-eq"); VF_REQ((b == a) == e, "compare-eq"); VF_REQ((a != b) == !e, "compare-ne"); count(e ? "compare-equal" : "compare-different"); }
      VF_REQ((a < b) == (x < y) && (a > b) == (x > y) && (a <= b) == (x <= y) && (a >= b) == (x >= y), "compare-order"); VF_REQ(a == a && !(a != a), "compare-self");
   }
   void make_twins() {
      do_clear(1, false); op("twin"); if (fns()[fn[0]].shift != fns()[fn[1]].shift) return;
      Seq o = m[0]; rng->shuffle(o); bool spoil = rng->chance(1, 2);
      for (std::size_t i = 0; i < o.size(); ++i) { int id = free_id(); if (id < 0) break; rekey(id); el(id).v = el(o[i]).v;
         if (i + 1 == o.size() && spoil) { if (rng->chance(1, 3)) break; el(id).v = rng->chance(1, 2) ? el(id).v ^ 1 : rv(); } insert_id(1, id); }
      verify(); do_compare();
   }

   // ------------------------------------------------------------ auto-unlink, misuse
   void do_unlink() {
      if constexpr (Cfg::autou) {
         int id = int(rng->below(where.size())); int k = where[id]; bool destroy = rng->chance(1, 2); op(destroy ? "destroy_element" : "hook_unlink", id, k); passed.push_back(id); Seq o; if (k >= 0) o = order(k);
         if (destroy) { { PoisonOnly g(this, k >= 0 ? 1 << k : 0); pool.e[id]->~E(); } new (pool.mem[id]) E(); el(id).id = id; }
         else { PoisonOnly g(this, k >= 0 ? 1 << k : 0); Cfg::unlink(el(id)); VF_REQ(!Cfg::linked(el(id)), "unlink-left-linked"); }
         if (k >= 0) { drop(k, id); o.erase(std::find(o.begin(), o.end(), id)); VF_REQ(order(k) == o, "unlink-order"); count("auto-unlinks"); } else count("unlink-unlinked");
      }
   }
   void do_misuse() {
      if (!Cfg::safe || Cfg::linear) return;
      int id = -1; for (int t = 0; t < 10 && id < 0; ++t) { int i = int(rng->below(where.size())); if (where[i] >= 0) id = i; } if (id < 0) return;
      int k = 1 - where[id], v = el(id).v, kind = int(rng->below(4)); bool dup = cnt(k, v) != 0; if (Cfg::uni && dup && kind < 3) return;
      E *e = &el(id); L *l = c[k]; bool hit = true; HashDriver *self = this; Seq one(1, id); const int *ip = one.data(); Seq o = order(1 - k); op("misuse", kind, k, id);
      switch (kind) {
      case 0: hit = asserts([&] { if constexpr (Cfg::uni) self->ins_un(*l, *e); else self->ins_eq(*l, *e); }); break;
      case 1: hit = asserts([&] { self->ins_range(*l, Cfg::uni, RefIt{self, ip}, RefIt{self, ip + 1}); }); break;
      case 2: if constexpr (Cfg::uni) { typename L::insert_commit_data cd; if constexpr (Cfg::wrapper) { l->insert_check(key(v), cd); hit = asserts([&] { if (v & 1) l->insert_commit(*e, cd); else l->insert_fast_commit(*e, cd); }); } else { l->insert_unique_check(key(v), cd); hit = asserts([&] { if (v & 1) l->insert_unique_commit(*e, cd); else l->insert_unique_fast_commit(*e, cd); }); } } else return; break;
      case 3: if (Cfg::autou || !dtor_checked<Cfg>::value) return; hit = asserts([&] { e->~E(); }); el(id).id = id; el(id).v = v; break;
      }
      VF_REQ(hit, "linked-insert-not-caught"); count("misuse-caught");
      misuse_repair(k, o, 1 - k);
   }
   // the assertion fires before anything is damaged; only the target's size counter, hash field and cached first bucket may already be updated
   void misuse_repair(int k, const Seq &o, int src) {
      VF_REQ(order(src) == o, "misuse-damaged-source");
      if constexpr (Cfg::store) { Seq t = m[src]; for (int x : t) if (L::node_traits::get_hash(L::value_traits::to_node_ptr(el(x))) != hash_of(fn[src], el(x).v)) { c[src]->full_rehash(); split[src] = nb[src]; invalidate(src); break; } }
      Seq keep = m[k]; c[k]->clear(); if (!Cfg::safe) return; Seq s = keep; m[k].clear(); for (int x : s) release(x); verify();
      for (int x : s) insert_id(k, x);
   }

   // ------------------------------------------------------------ cloning (C11)
   struct Clones { std::vector<E *> made; std::vector<const E *> src; std::vector<E *> live; long throw_at; long n; } cl;
   struct Cloner { Clones *c; E *operator()(const E &s) const { ++c->n; if (c->throw_at && c->n == c->throw_at) throw Thrown{int(c->n)}; E *p = new E(); p->v = s.v; p->id = s.id; p->aux = s.aux; c->made.push_back(p); c->src.push_back(&s); c->live.push_back(p); return p; } };
   struct NCCloner { Clones *c; E *operator()(E &s) const { return Cloner{c}(s); } };
   struct CDisposer { Clones *c; template <class P> void operator()(const P &pp) const { E *p = raw(pp); auto i = std::find(c->live.begin(), c->live.end(), p); VF_REQ(i != c->live.end(), "clone-disposer-unknown"); if (Cfg::safe) VF_REQ(!Cfg::linked(*p), "disposed-while-linked"); c->live.erase(i); delete p; } };
   // structure of a container outside the model
   void structure(L &t, std::size_t n, int f, const char *key) {
      std::size_t w = 0, bt_ = 0; std::vector<int> ks;
      for (It i = t.begin(); i != t.end(); ++i, ++w) { if (w >= n) fail(key, "%s: iterates more than %zu elements", M().phase, n); ks.push_back(i->v); }
      if (w != n || t.size() != n || t.empty() != (n == 0)) fail(key, "%s: iterates %zu of %zu elements, size() %zu", M().phase, w, n, std::size_t(t.size()));
      for (std::size_t i = 0; i < ks.size(); ++i) for (std::size_t j = i + 2; j < ks.size(); ++j) if (cls(f, ks[i]) == cls(f, ks[j]) && cls(f, ks[j - 1]) != cls(f, ks[j])) fail(key, "%s: equal elements not adjacent", M().phase);
      for (std::size_t b = 0; b < t.bucket_count(); ++b) for (LIt i = t.begin(typename L::size_type(b)); i != t.end(typename L::size_type(b)); ++i) { if (++bt_ > n) fail(key, "%s: bucket iteration", M().phase); if (t.bucket(keyof(*i)) != b) fail(key, "%s: key %d in bucket %zu, maps to %zu", M().phase, i->v, b, std::size_t(t.bucket(keyof(*i)))); }
      if (bt_ != n) fail(key, "%s: buckets hold %zu of %zu", M().phase, bt_, n);
      for (int v : ks) { std::size_t q = 0; for (int x : ks) q += cls(f, x) == cls(f, v); decltype(auto) kk = key_(v); if (t.count(kk) != q || t.find(kk) == t.end()) fail(key, "%s: count(%d) is %zu, should be %zu", M().phase, v, std::size_t(t.count(kk)), q);
         auto r = t.equal_range(kk); std::size_t z = 0; for (auto i = r.first; i != r.second; ++i) if (++z > q) fail(key, "%s: equal_range(%d)", M().phase, v); if (z != q) fail(key, "%s: equal_range(%d)", M().phase, v); }
   }
   decltype(auto) key_(int v) { return key(v); }
   decltype(auto) keyof(E &e) { if constexpr (Cfg::kov) return static_cast<const int &>(e.v); else return static_cast<const E &>(e); }
   void do_clone(int k, bool rvl) {
      std::size_t pre = rng->below(4), dn = rng->chance(1, 3) ? nb[k] : pick_n(); if (!Cfg::fastmod && !Cfg::p2 && !Cfg::incr && rng->chance(1, 3)) { for (std::size_t d = 2; d < 6; ++d) if (nb[k] % d == 0) { dn = nb[k] / d; break; } }
      int tf = 62; fns()[tf] = Fn{int(rng->below(8)), 0, rng->below(3)}; bool hfault = F_FAULT;
      Seq so = order(k);
      for (long at_ = 0;; ++at_) {
         cl = Clones{{}, {}, {}, hfault ? 0 : at_, 0};
         Buckets b = new_buckets(dn + over); void *mem = ::operator new(csz()); L *t = new (mem) L(bt(b.p, dn), HHash{tf}, HEq{tf});
         for (std::size_t i = 0; i < pre; ++i) { E *p = new E(); p->v = 100000 + int(i); cl.live.push_back(p); if constexpr (Cfg::uni) ins_un(*t, *p); else ins_eq(*t, *p); }
         op(rvl ? "clone_from_rv" : "clone_from", k, long(dn), at_, long(nb[k])); bool threw = false; if (hfault) { reset_fault(at_); }
         try { if (rvl) t->clone_from(std::move(*c[k]), NCCloner{&cl}, CDisposer{&cl}); else t->clone_from(const_cast<const L &>(*c[k]), Cloner{&cl}, CDisposer{&cl}); } catch (Thrown &) { threw = true; }
         bool fired = fault().fired; if (hfault) { fault().fired = 0; reset_fault(0); VF_REQ(threw == fired, "exception-swallowed"); } else VF_REQ(threw == (at_ > 0 && std::size_t(at_) <= m[k].size()), "clone-exception-propagation");
         if (!threw) {
            VF_REQ(t->size() == m[k].size() && cl.live.size() == m[k].size(), "clone-count");
            VF_REQ(t->hash_function().f == fn[k] && t->key_eq().f == fn[k], "clone-functor"); VF_REQ(t->bucket_count() == dn && raw(t->bucket_pointer()) == b.p, "clone-buckets");
            Seq ids; for (It i = t->begin(); i != t->end(); ++i) { if (ids.size() >= so.size()) fail("clone-content", "%s", M().phase); VF_REQ(i->v == el(i->id).v && &*i != &el(i->id), "clone-content"); ids.push_back(i->id); }
            Seq a = ids, w = so; std::sort(a.begin(), a.end()); std::sort(w.begin(), w.end()); VF_REQ(a == w, "clone-content");
            std::vector<int> cloned; for (const E *e : cl.src) { VF_REQ(e == &el(e->id), "cloned-once-each"); cloned.push_back(e->id); } std::sort(cloned.begin(), cloned.end()); VF_REQ(cloned == w, "cloned-once-each");
            structure(*t, m[k].size(), fn[k], "clone-structure");
            E *x = new E(); x->v = some_key(k); x->id = 0; cl.live.push_back(x); bool in = true; if constexpr (Cfg::uni) in = ins_un(*t, *x).second; else ins_eq(*t, *x); VF_REQ(t->size() == m[k].size() + (in ? 1 : 0), "clone-usable");
            structure(*t, t->size(), fn[k], "clone-usable"); if (!in) { cl.live.pop_back(); delete x; }
            if (t->size()) { int v = t->begin()->v; std::size_t n = t->count(key_(v)); VF_REQ(t->erase_and_dispose(key_(v), CDisposer{&cl}) == n, "clone-usable"); structure(*t, cl.live.size(), fn[k], "clone-usable"); }
            count("clones");
         } else {
            int f = t->hash_function().f; VF_REQ(f == t->key_eq().f && (f == tf || f == fn[k]), "clone-rollback-functor");
            if (!hfault) VF_REQ(t->empty() && cl.live.empty(), "clone-rollback-leak");
            structure(*t, cl.live.size(), f, "clone-rollback-structure");
            E extra; extra.v = 1; extra.id = 0; if constexpr (Cfg::uni) { if (ins_un(*t, extra).second) t->erase(t->iterator_to(extra)); } else { ins_eq(*t, extra); t->erase(t->iterator_to(extra)); } if (!Cfg::safe) { Life s = life(); extra.~E(); new (&extra) E(); life() = s; }
            structure(*t, cl.live.size(), f, "clone-rollback-usable"); count("clone-rollbacks");
         }
         t->clear_and_dispose(CDisposer{&cl}); VF_REQ(cl.live.empty(), "clone-leak"); structure(*t, 0, fn[k], "clone-cleared");
         t->~L(); ::operator delete(mem); free_buckets(b); verify(k); VF_REQ(order(k) == so, "clone-changed-source");
         if (at_ > 0 && !threw) break;
      }
   }

   // ------------------------------------------------------------ exception safety (C12)
   template <class F> void sweep(const char *name, int k, bool strong, const Seq &fresh, bool lossy, F f) {
      Seq s0 = order(k), m0 = m[k]; std::size_t split0 = split[k];
      for (long n = 1;; ++n) {
         op(name, n, k); reset_fault(n); bool threw = false;
         try { f(); } catch (Thrown &) { threw = true; }
         bool fired = fault().fired; fault().fired = 0; reset_fault(0); VF_REQ(threw == fired, "exception-swallowed");
         std::vector<char> seen(where.size(), 0); Seq now;
         for (It i = c[k]->begin(); i != c[k]->end(); ++i) { int id = i->id; if (now.size() > where.size()) fail("fault-corrupt", "%s: endless container", name); VF_REQ(id >= 0 && id < int(where.size()) && &el(id) == &*i && !seen[id] && where[id] != 1 - k, "fault-corrupt"); seen[id] = 1; now.push_back(id); }
         if (threw) { count("faults-injected");
            if (strong && now != s0) fail("fault-strong-guarantee", "%s: container holds {%s}, before the exception {%s}", name, show(now).c_str(), show(s0).c_str());
            for (int x : s0) VF_REQ(seen[x] || lossy, "fault-lost-element");
            for (int x : now) VF_REQ(std::find(s0.begin(), s0.end(), x) != s0.end() || std::find(fresh.begin(), fresh.end(), x) != fresh.end(), "fault-alien-element"); }
         for (int x : m[k]) release(x); m[k] = now; for (int x : now) put(x, k);
         if constexpr (Cfg::incr) split[k] = c[k]->split_count();
         if (Cfg::safe) for (std::size_t i = 0; i < where.size(); ++i) hook_ok(int(i), "fault-hook-state");
         verify(k);
         if (!threw) { count("sweeps"); break; }
         c[k]->clear(); if (!Cfg::safe) for (std::size_t i = 0; i < where.size(); ++i) if (where[i] != 1 - k) pool.reset_keep(int(i));
         for (int x : m[k]) release(x); m[k].clear(); verify(k); for (int x : m0) insert_id(k, x); s0 = order(k); (void)split0; verify(k);
      }
   }
   void do_fault(int k) {
      int id = free_id(); Seq none, fresh; int v = some_key(k); if (id >= 0) { rekey(id); if (rng->chance(1, 3)) el(id).v = v; fresh.push_back(id); } L *l = c[k]; decltype(auto) kk = key(v); HKey hk{v}; HHash hf{fn[k]}; HEq ef{fn[k]}; typename B::Disposer d{this};
      switch (rng->below(12)) {
      case 0: case 1: if (id < 0) return; sweep("insert", k, true, fresh, false, [&] { if constexpr (Cfg::uni) ins_un(*l, el(id)); else ins_eq(*l, el(id)); }); break;
      case 2: { Seq ids = take_free(1 + rng->below(5)); sweep("insert_range", k, false, ids, false, [&] { ins_range(*l, Cfg::uni, RefIt{this, ids.data()}, RefIt{this, ids.data() + ids.size()}); }); break; }
      case 3: sweep("find", k, true, none, false, [&] { l->find(kk); l->find(hk, hf, ef); }); break;
      case 4: sweep("count", k, true, none, false, [&] { l->count(kk); l->count(hk, hf, ef); l->equal_range(kk); l->equal_range(hk, hf, ef); l->bucket(hk, hf); }); break;
      case 5: sweep("erase_key", k, false, none, false, [&] { l->erase(kk); }); break;
      case 6: sweep("erase_key_het", k, false, none, false, [&] { this->disposed.clear(); l->erase_and_dispose(hk, hf, ef, d); }); break;
      case 7: if constexpr (Cfg::uni) { if (id < 0) return; sweep("insert_check", k, true, none, false, [&] { typename L::insert_commit_data cd; if constexpr (Cfg::wrapper) l->insert_check(hk, hf, ef, cd); else l->insert_unique_check(hk, hf, ef, cd); }); } break;
      case 8: { std::size_t n = pick_n(); sweep("rehash", k, false, none, true, [&] { Buckets nw = new_buckets(n + over); try { l->rehash(bt(nw.p, n)); } catch (...) { free_buckets(nw); throw; } free_buckets(bk[k]); bk[k] = nw; nb[k] = n; split[k] = n; }); break; }
      case 9: sweep("full_rehash", k, false, none, true, [&] { l->full_rehash(); }); break;
      case 10: if constexpr (Cfg::incr) sweep("incremental_rehash", k, false, none, false, [&] { l->incremental_rehash(true); }); break;
      case 11: do_clone(k, rng->chance(1, 2)); break;
      }
      invalidate(k);
   }

   // ------------------------------------------------------------ one case
   void step() {
      int k = int(rng->below(2));
      if (F_FAULT && rng->chance(1, 3)) { do_fault(k); return; }
      if (F_CLONE && rng->chance(1, 4)) { do_clone(k, rng->chance(1, 2)); return; }
      if (F_UNLINK && Cfg::autou && rng->chance(1, 3)) { do_unlink(); return; }
      if (F_MISUSE && rng->chance(1, 4)) { do_misuse(); return; }
      if (F_VALUE && rng->chance(1, 12)) { this->do_hook_values(); return; }
      if (PROP == 13 && rng->chance(1, 2)) { do_check_commit(k); return; }
      if (PROP == 7 && rng->chance(1, 2)) { switch (rng->below(4)) { case 0: do_rehash(k); return; case 1: do_full_rehash(k); return; default: do_incremental(k); return; } }
      if (F_XFER && rng->chance(1, 2)) { switch (rng->below(4)) { case 0: do_swap(int(rng->below(2))); return; case 1: do_move_ctor(k); return; case 2: do_move_assign(k); return; case 3: op("self_swap", k); { Guard g(this, 1 << k); c[k]->swap(*c[k]); } return; } }
      if (F_DISPOSE && rng->chance(1, 3)) { switch (rng->below(4)) { case 0: do_erase(k, true); return; case 1: do_erase_range(k, true); return; case 2: do_erase_key(k, true); return; case 3: if (rng->chance(1, 2)) do_clear(k, true); return; } }
      switch (rng->below(32)) {
      case 0: case 1: case 2: case 3: case 4: case 5: case 6: do_insert(k); break;
      case 7: case 8: case 9: do_insert_range(k); break;
      case 10: if (rng->chance(1, 2)) do_range_ctor(k); break;
      case 11: case 12: do_check_commit(k); break;
      case 13: case 14: case 15: do_erase(k, rng->chance(1, 2)); break;
      case 16: case 17: do_erase_range(k, rng->chance(1, 2)); break;
      case 18: case 19: do_erase_key(k, rng->chance(1, 2)); break;
      case 20: if (rng->chance(1, 3)) do_clear(k, rng->chance(1, 2)); break;
      case 21: case 22: do_rehash(k); break;
      case 23: do_full_rehash(k); break;
      case 24: case 25: do_incremental(k); break;
      case 26: if (rng->chance(1, 2)) do_swap(int(rng->below(2))); else do_move_assign(k); break;
      case 27: do_move_ctor(k); break;
      case 28: do_compare(); break;
      case 29: make_twins(); break;
      case 30: if (Cfg::autou) do_unlink(); else do_insert(k); break;
      case 31: do_insert_range(k); break;
      }
   }
   void run(Rng &r) {
      rng = &r; nextfn = 0; std::size_t n; unsigned z = unsigned(r.below(20)); n = z < 4 ? 3 + r.below(3) : z < 16 ? 6 + r.below(14) : 20 + r.below(40);
      if (F_FAULT || F_CLONE) n = 3 + r.below(14);
      wide = r.chance(1, 30); if (wide && !F_FAULT) { n = 60 + r.below(240); count("wide-cases"); }
      pool.grow(n); kel = new E(); kel2 = new E(); where.assign(n, -1); its.assign(n, It()); itok.assign(n, 0);
      keyrange = r.chance(1, 3) ? 2 : r.chance(1, 2) ? int(n) : 1000;
      make(); op("start", long(n), keyrange, long(nb[0]), long(nb[1]));
      if (n > 20 || r.chance(1, 3)) for (std::size_t i = 0; i < n * 2 / 3; ++i) if (where[i] < 0) { rekey(int(i)); insert_id(r.chance(1, 4), int(i)); }
      verify();
      int steps = F_FAULT || F_CLONE ? 16 : n > 20 ? 25 : 40;
      for (int i = 0; i < steps; ++i) { step(); verify(); }
      op("destroy");
      for (int k = 0; k < 2; ++k) { c[k]->~L(); ::operator delete(cmem[k]); free_buckets(bk[k]); }
      if (Cfg::safe) for (std::size_t i = 0; i < where.size(); ++i) VF_REQ(!Cfg::linked(el(int(i))), "linked-after-container-destruction");
      if (!Cfg::safe) for (std::size_t i = 0; i < where.size(); ++i) pool.reset(int(i));
      delete kel; delete kel2; pool.free_all();
   }
};
} // namespace vf
#endif
