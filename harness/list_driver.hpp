// Model-based monitor for boost::intrusive::list and boost::intrusive::slist (Cfg::slist).
#ifndef VF_LIST_DRIVER_HPP
#define VF_LIST_DRIVER_HPP
#include "common.hpp"
#include <boost/intrusive/list.hpp>
#include <boost/intrusive/slist.hpp>

namespace vf {
namespace bi = boost::intrusive;

// Cfg: elem, container, safe, cts, autou, linked(e), unlink(e), name
template <class Cfg> struct ListDriver : DriverBase<Cfg> {
   typedef DriverBase<Cfg> B;
   typedef typename Cfg::elem E;
   typedef typename Cfg::container L;
   typedef typename L::iterator It;
   typedef typename L::const_iterator CIt;
   typedef std::vector<int> Seq;
   using B::pool; using B::rng; using B::disposer; using B::after_dispose;

   void *cmem[2];
   L *c[2];
   Seq m[2];
   std::vector<int> where;  // -1 free, 0/1 container
   std::vector<It> its;     // saved iterators (F_ITER)
   int keyrange;

   E &el(int id) { return pool[id]; }
   static std::size_t csz() { return (sizeof(L) + 15) & ~std::size_t(15); }
   void make() { for (int i = 0; i < 2; ++i) { cmem[i] = ::operator new(csz()); c[i] = new (cmem[i]) L(); m[i].clear(); } }
   It at(int k, std::size_t pos) { It i = c[k]->begin(); while (pos--) ++i; return i; }

   // ------------------------------------------------------------ guards
   std::vector<int> passed;
   struct Guard {
      ListDriver *d; bool on; int mask;
      Guard(ListDriver *d_, int mask_) : d(d_), on(F_POISON), mask(mask_) {
         if (on) {
            for (std::size_t i = 0; i < d->pool.e.size(); ++i) {
               int w = d->where[i];
               bool keep = (w >= 0 && (mask >> w & 1));
               for (int p : d->passed) keep = keep || p == int(i);
               if (!keep) d->pool.poison(int(i));
            }
            for (int k = 0; k < 2; ++k) if (!(mask >> k & 1)) VF_POISON(d->cmem[k], csz());
         }
         d->life_begin();
      }
      ~Guard() {
         if (on) { d->pool.unpoison_all(); for (int k = 0; k < 2; ++k) VF_UNPOISON(d->cmem[k], csz()); }
         d->life_end();
         d->passed.clear();
      }
   };
   void release(int id) { where[id] = -1; }
   void put(int id, int k) { where[id] = k; }
   void saved(int id, It i) { if (F_ITER) its[id] = i; (void)id; (void)i; }

   int free_id() {
      for (int t = 0; t < 20; ++t) { int i = int(rng->below(pool.e.size())); if (where[i] < 0) return i; }
      return -1;
   }
   int rekey(int id) { el(id).v = rng->range(0, keyrange); return id; }

   // In a linear slist the null link of the last element reads as "not linked" (known finding C08-linear-last, probed
   // separately), so that element is left out here.
   void hook_ok(int id, const char *key) {
      if (Cfg::linear && where[id] >= 0 && m[where[id]].back() == id) return;
      if (Cfg::linked(el(id)) != (where[id] >= 0)) fail(key, "%s: is_linked() of element %d is %d, it is %sin a container", M().phase, id, int(Cfg::linked(el(id))), where[id] >= 0 ? "" : "not ");
   }
   // ------------------------------------------------------------ verification
   void verify() {
      for (int k = 0; k < 2; ++k) {
         L &l = *c[k]; const L &cl = l; const Seq &s = m[k];
         std::size_t n = 0;
         for (CIt i = cl.begin(), e = cl.end(); i != e; ++i, ++n) {
            if (n >= s.size()) fail("sequence", "%s: list %d longer than model (%zu)", M().phase, k, s.size());
            if (&*i != &el(s[n])) fail("sequence", "%s: list %d position %zu holds another element than the model {%s}", M().phase, k, n, show(s).c_str());
         }
         if (n != s.size()) fail("sequence", "%s: list %d has %zu elements, model {%s}", M().phase, k, n, show(s).c_str());
         if constexpr (!Cfg::slist) {
         typename L::reverse_iterator r = l.rbegin(), re = l.rend();
         for (n = 0; r != re; ++r, ++n) {
            if (n >= s.size()) fail("reverse-sequence", "%s: list %d longer backwards", M().phase, k);
            if (&*r != &el(s[s.size() - 1 - n])) fail("reverse-sequence", "%s: list %d backwards position %zu", M().phase, k, n);
         }
         VF_REQ(n == s.size(), "reverse-sequence");
         } else slist_verify(k);
         VF_REQ(cl.size() == s.size(), "size");
         VF_REQ(cl.empty() == s.empty(), "empty");
         if (!s.empty()) {
            VF_REQ(&l.front() == &el(s.front()) && &cl.front() == &el(s.front()), "front");
            if constexpr (!Cfg::slist) VF_REQ(&l.back() == &el(s.back()) && &cl.back() == &el(s.back()), "back");
         }
         if (F_CHECK) l.check();
      }
      if (F_HOOK && Cfg::safe)
         for (std::size_t i = 0; i < where.size(); ++i)
            hook_ok(int(i), "hook-linked-state");
      if (F_ITER) verify_iters();
      if (F_ITER || (F_WALK && M().hist.size() % 8 == 0)) for (int k = 0; k < 2; ++k) { std::vector<E *> v; for (int x : m[k]) v.push_back(&el(x)); it::container(*c[k], v); if constexpr (!Cfg::slist) it::reversible(*c[k], v); }
      count("verifications");
      digest(hash_ids(m[1], hash_ids(m[0])) ^ std::uint64_t(M().hist.back().op[0]));
   }
   void verify_iters() {
      for (int k = 0; k < 2; ++k) {
         const Seq &s = m[k];
         for (std::size_t n = 0; n < s.size(); ++n) {
            It i = its[s[n]];
            VF_REQ(&*i == &el(s[n]), "saved-iterator-deref");
            It j = i; ++j;
            VF_REQ(n + 1 < s.size() ? &*j == &el(s[n + 1]) : j == c[k]->end(), "saved-iterator-next");
            j = i;
            if (n) { if constexpr (!Cfg::slist) --j; else j = c[k]->previous(j); VF_REQ(&*j == &el(s[n - 1]), "saved-iterator-prev"); }
            else { VF_REQ(i == c[k]->begin(), "saved-iterator-begin"); if constexpr (Cfg::slist) VF_REQ(c[k]->previous(j) == c[k]->before_begin(), "previous-of-first"); }
            VF_REQ(c[k]->iterator_to(el(s[n])) == i, "iterator_to");
            const L &cl = *c[k]; const E &ce = el(s[n]);
            CIt ci(i); VF_REQ(cl.iterator_to(ce) == ci && ci == i && i == ci, "const-iterator_to");
            s_iter(std::integral_constant<bool, !Cfg::stateful>(), s[n], i);
         }
         cfe(std::integral_constant<bool, L::has_container_from_iterator && !Cfg::linear>(), k);
      }
      It d1 = It(), d2 = It(); CIt e1 = CIt(), e2 = CIt();
      VF_REQ(d1 == d2 && e1 == e2, "null-iterators");
   }
   void s_iter(std::true_type, int id, It i) { VF_REQ(L::s_iterator_to(el(id)) == i, "s_iterator_to"); const E &ce = el(id); VF_REQ(L::s_iterator_to(ce) == CIt(i), "s_iterator_to"); }
   void s_iter(std::false_type, int, It) {}
   void cfe(std::true_type, int k) {
      VF_REQ(&L::container_from_end_iterator(c[k]->end()) == c[k], "container_from_end");
      VF_REQ(&L::container_from_end_iterator(c[k]->cend()) == c[k], "container_from_end");
   }
   void cfe(std::false_type, int) {}
   void slist_verify(int k) {
      L &l = *c[k]; const L &cl = l; const Seq &s = m[k];
      It bb = l.before_begin(); It nx = bb; ++nx; VF_REQ(nx == l.begin(), "before_begin-next");
      VF_REQ(cl.cbefore_begin() == CIt(bb) && cl.before_begin() == CIt(bb), "before_begin");
      std::size_t probe = s.empty() ? 0 : rng->below(s.size() + 1);
      It p = at(k, probe), q = l.previous(p);
      if (probe == 0) VF_REQ(q == bb, "previous"); else VF_REQ(&*q == &el(s[probe - 1]), "previous");
      CIt cp(p); VF_REQ(cl.previous(cp) == CIt(q), "const-previous");
      if (probe) { std::size_t from = rng->below(probe); It f = at(k, from); VF_REQ(l.previous(CIt(f), p) == q && cl.previous(CIt(f), CIt(p)) == CIt(q), "previous-from"); }
      if constexpr (Cfg::last) {
         if (s.empty()) VF_REQ(l.last() == bb || l.last() == l.end(), "last-empty");
         else { VF_REQ(&*l.last() == &el(s.back()) && &*cl.last() == &el(s.back()) && cl.clast() == CIt(l.last()), "last"); VF_REQ(&l.back() == &el(s.back()) && &cl.back() == &el(s.back()), "back"); }
      }
   }
   // appends without going through the operation under test's model
   void append(int k, int id) {
      if constexpr (!Cfg::slist || Cfg::last) c[k]->push_back(el(id));
      else { It i = c[k]->before_begin(), n = i; ++n; while (n != c[k]->end()) { i = n; ++n; } c[k]->insert_after(i, el(id)); }
   }

   // ------------------------------------------------------------ building blocks of models
   static void erase_at(Seq &s, std::size_t a, std::size_t b) { s.erase(s.begin() + a, s.begin() + b); }
   void model_merge(Seq &a, Seq &b) {
      Seq r; std::size_t i = 0, j = 0;
      while (i < a.size() || j < b.size()) {
         if (j == b.size() || (i < a.size() && !(el(b[j]).v < el(a[i]).v))) r.push_back(a[i++]); else r.push_back(b[j++]);
      }
      a.swap(r); b.clear();
   }
   void model_sort(Seq &s) { std::stable_sort(s.begin(), s.end(), [&](int x, int y) { return el(x).v < el(y).v; }); }
   bool sorted(const Seq &s) { for (std::size_t i = 1; i < s.size(); ++i) if (el(s[i]).v < el(s[i - 1]).v) return false; return true; }
   template <class F> Seq model_remove(Seq &s, F pred) {
      Seq keep, gone; for (int x : s) (pred(x) ? gone : keep).push_back(x);
      s.swap(keep); for (int x : gone) release(x); return gone;
   }
   template <class F> Seq model_unique(Seq &s, F eq) {
      Seq keep, gone;
      for (int x : s) if (!keep.empty() && eq(keep.back(), x)) gone.push_back(x); else keep.push_back(x);
      s.swap(keep); for (int x : gone) release(x); return gone;
   }
   struct RemPred { int mod, rem; template <class T> bool operator()(const T &x) const { tick(); return ((x.v % mod) + mod) % mod == rem; } };
   struct NearPred { int d; template <class T> bool operator()(const T &a, const T &b) const { tick(); return std::abs(a.v - b.v) <= d; } };
   bool rem_model(RemPred p, int id) { return ((el(id).v % p.mod) + p.mod) % p.mod == p.rem; }

   // ------------------------------------------------------------ operations
   std::size_t rpos(int k) { return rng->below(m[k].size() + 1); }
   void do_push(int k, bool back) {
      if constexpr (Cfg::slist && !Cfg::last) back = false;
      int id = free_id(); if (id < 0) return; rekey(id);
      op(back ? "push_back" : "push_front", k, id, el(id).v);
      this->passed.push_back(id);
      { Guard g(this, 1 << k); if (back) { if constexpr (!Cfg::slist || Cfg::last) c[k]->push_back(el(id)); } else c[k]->push_front(el(id)); }
      m[k].insert(back ? m[k].end() : m[k].begin(), id); put(id, k);
      saved(id, c[k]->iterator_to(el(id)));
   }
   void do_insert(int k) {
      int id = free_id(); if (id < 0) return; rekey(id);
      std::size_t p = rpos(k); op("insert", k, id, long(p), el(id).v);
      It r, pos = at(k, p);
      this->passed.push_back(id);
      { Guard g(this, 1 << k); r = c[k]->insert(CIt(pos), el(id)); }
      VF_REQ(&*r == &el(id), "insert-result");
      m[k].insert(m[k].begin() + p, id); put(id, k); saved(id, r);
   }
   struct RefIt { // input-style iterator over pool elements
      typedef std::forward_iterator_tag iterator_category; typedef E value_type; typedef std::ptrdiff_t difference_type; typedef E *pointer; typedef E &reference;
      ListDriver *d; const int *p;
      E &operator*() const { return d->el(*p); } E *operator->() const { return &d->el(*p); }
      RefIt &operator++() { ++p; return *this; } RefIt operator++(int) { RefIt t(*this); ++p; return t; }
      bool operator==(const RefIt &o) const { return p == o.p; } bool operator!=(const RefIt &o) const { return p != o.p; }
   };
   Seq take_free(std::size_t n) {
      Seq r;
      for (std::size_t i = 0, st = rng->below(where.size()); i < where.size() && r.size() < n; ++i) {
         int id = int((st + i * 7) % where.size());
         if (where[id] < 0 && std::find(r.begin(), r.end(), id) == r.end()) { rekey(id); r.push_back(id); }
      }
      return r;
   }
   void do_insert_range(int k) {
      Seq ids = take_free(rng->below(5)); std::size_t p = rpos(k);
      op("insert_range", k, long(ids.size()), long(p));
      It pos = at(k, p); this->passed = ids;
      { Guard g(this, 1 << k); c[k]->insert(CIt(pos), RefIt{this, ids.data()}, RefIt{this, ids.data() + ids.size()}); }
      m[k].insert(m[k].begin() + p, ids.begin(), ids.end());
      for (int id : ids) { put(id, k); saved(id, c[k]->iterator_to(el(id))); }
   }
   void do_assign(int k, bool disp) {
      Seq ids = take_free(rng->below(5));
      op(disp ? "dispose_and_assign" : "assign", k, long(ids.size()));
      Seq old = m[k]; this->passed = ids;
      { typename B::Disposer d = disposer();
        { Guard g(this, 1 << k);
          if (disp) c[k]->dispose_and_assign(d, RefIt{this, ids.data()}, RefIt{this, ids.data() + ids.size()});
          else c[k]->assign(RefIt{this, ids.data()}, RefIt{this, ids.data() + ids.size()}); }
        after_dispose(disp ? old : Seq()); }
      for (int x : old) release(x);
      m[k] = ids; for (int id : ids) { put(id, k); saved(id, c[k]->iterator_to(el(id))); }
   }
   void do_range_ctor(int k) {
      Seq ids = take_free(rng->below(6)); op("range_ctor", k, long(ids.size()));
      { // build a new list from a range, then swap it in; the old content is cleared by the destructor (safe) or clear()
         Seq old = m[k];
         this->passed = ids;
         { Guard g(this, 1 << k);
           L t(RefIt{this, ids.data()}, RefIt{this, ids.data() + ids.size()});
           VF_REQ(t.size() == ids.size(), "range-ctor-size");
           c[k]->swap(t); if (!Cfg::safe || rng->chance(1, 2)) t.clear(); }
         for (int x : old) release(x);
         m[k] = ids; for (int id : ids) { put(id, k); saved(id, c[k]->iterator_to(el(id))); }
      }
   }
   void do_pop(int k, bool back, bool disp) {
      if constexpr (Cfg::slist) back = false;
      if (m[k].empty()) return;
      op(back ? (disp ? "pop_back_and_dispose" : "pop_back") : (disp ? "pop_front_and_dispose" : "pop_front"), k);
      int id = back ? m[k].back() : m[k].front();
      typename B::Disposer d = disposer();
      { Guard g(this, 1 << k);
        if (back) { if constexpr (!Cfg::slist) { if (disp) c[k]->pop_back_and_dispose(d); else c[k]->pop_back(); } }
        else { if (disp) c[k]->pop_front_and_dispose(d); else c[k]->pop_front(); } }
      after_dispose(disp ? Seq(1, id) : Seq());
      if (back) m[k].pop_back(); else m[k].erase(m[k].begin());
      release(id);
   }
   void do_erase(int k, bool disp) {
      if (m[k].empty()) return;
      std::size_t p = rng->below(m[k].size()); op(disp ? "erase_and_dispose" : "erase", k, long(p));
      int id = m[k][p]; It i = at(k, p), r;
      typename B::Disposer d = disposer();
      { Guard g(this, 1 << k); if (disp) { if (rng->chance(1, 2)) r = c[k]->erase_and_dispose(i, d); else r = c[k]->erase_and_dispose(CIt(i), d); } else r = c[k]->erase(CIt(i)); }
      after_dispose(disp ? Seq(1, id) : Seq());
      erase_at(m[k], p, p + 1); release(id);
      VF_REQ(r == at(k, p), "erase-result");
   }
   void do_erase_range(int k, int kind) {
      std::size_t a = rpos(k), b = rpos(k); if (a > b) std::swap(a, b);
      op(kind == 0 ? "erase_range" : kind == 1 ? "erase_range_n" : "erase_range_and_dispose", k, long(a), long(b));
      Seq gone(m[k].begin() + a, m[k].begin() + b);
      It f = at(k, a), l = at(k, b), r;
      typename B::Disposer d = disposer();
      { Guard g(this, 1 << k);
        if (kind == 0) r = c[k]->erase(CIt(f), CIt(l));
        else if (kind == 1) r = c[k]->erase(CIt(f), CIt(l), typename L::size_type(b - a));
        else r = c[k]->erase_and_dispose(CIt(f), CIt(l), d); }
      after_dispose(kind == 2 ? gone : Seq());
      erase_at(m[k], a, b); for (int x : gone) release(x);
      VF_REQ(r == at(k, a), "erase-range-result");
   }
   void do_clear(int k, bool disp) {
      op(disp ? "clear_and_dispose" : "clear", k);
      Seq gone = m[k]; typename B::Disposer d = disposer();
      { Guard g(this, 1 << k); if (disp) c[k]->clear_and_dispose(d); else c[k]->clear(); }
      after_dispose(disp ? gone : Seq());
      m[k].clear(); for (int x : gone) release(x);
   }
   void do_swap(int kind) {
      op("swap", kind);
      { Guard g(this, 3); if (kind == 0) c[0]->swap(*c[1]); else if (kind == 2) vf_adl::swp(*c[0], *c[1]); else { using std::swap; L &a = *c[0], &b = *c[1]; swap(a, b); } }
      m[0].swap(m[1]); for (int k = 0; k < 2; ++k) for (int x : m[k]) put(x, k);
   }
   void do_self_swap(int k) { op("self_swap", k); { Guard g(this, 1 << k); c[k]->swap(*c[k]); } }
   void do_move_ctor(int k) {
      op("move_ctor", k);
      { Guard g(this, 1 << k);
        L t(std::move(*c[k]));
        VF_REQ(c[k]->empty() && c[k]->size() == 0 && c[k]->begin() == c[k]->end(), "moved-from-empty");
        std::size_t n = 0; for (It i = t.begin(); i != t.end(); ++i, ++n) { VF_REQ(n < m[k].size() && &*i == &el(m[k][n]), "move-ctor-content"); }
        VF_REQ(n == m[k].size() && t.size() == n, "move-ctor-content");
        c[k]->swap(t); }
   }
   void do_move_assign(int k) { // c[k] = move(c[1-k])
      op("move_assign", k);
      { Guard g(this, 3); *c[k] = std::move(*c[1 - k]); }
      // the moved-from container holds either nothing or the target's former elements, in order (both are documented as valid states)
      Seq &dst = m[k], &src = m[1 - k];
      Seq old = dst; dst = src;
      if (c[1 - k]->empty() && !old.empty()) { for (int x : old) release(x); src.clear(); if (Cfg::safe && F_HOOK) for (int x : old) VF_REQ(!Cfg::linked(el(x)), "hook-linked-state"); }
      else src = old;
      for (int q = 0; q < 2; ++q) for (int x : m[q]) put(x, q);
   }
   void do_shift(int k, bool fwd) {
      std::size_t n = m[k].size(), s = rng->below(2 * n + 3);
      op(fwd ? "shift_forward" : "shift_backwards", k, long(s));
      { Guard g(this, 1 << k); if (fwd) { if (s == 1) c[k]->shift_forward(); else c[k]->shift_forward(s); } else { if (s == 1) c[k]->shift_backwards(); else c[k]->shift_backwards(s); } }
      if (n) { s %= n; // forward: the second element becomes the first; backwards: the last becomes the first
         if (fwd) std::rotate(m[k].begin(), m[k].begin() + s, m[k].end());
         else std::rotate(m[k].begin(), m[k].begin() + (n - s) % n, m[k].end()); }
   }
   void do_splice_all(int k) {
      int o = 1 - k; std::size_t p = rpos(k); op("splice_all", k, long(p));
      It pos = at(k, p);
      { Guard g(this, 3); c[k]->splice(CIt(pos), *c[o]); }
      m[k].insert(m[k].begin() + p, m[o].begin(), m[o].end()); for (int x : m[o]) put(x, k); m[o].clear();
   }
   void do_splice_one(int k, int o) {
      if (m[o].empty()) return;
      std::size_t p = rpos(k), q = rng->below(m[o].size()); op("splice_one", k, o, long(p), long(q));
      It pos = at(k, p), x = at(o, q); int id = m[o][q];
      { Guard g(this, (1 << k) | (1 << o)); c[k]->splice(CIt(pos), *c[o], CIt(x)); }
      if (k == o) { Seq s; bool placed = false;
         for (std::size_t i = 0; i <= m[k].size(); ++i) { if (i == p) { s.push_back(id); placed = true; } if (i < m[k].size() && i != q) s.push_back(m[k][i]); }
         (void)placed; m[k] = s; }
      else { m[o].erase(m[o].begin() + q); m[k].insert(m[k].begin() + p, id); put(id, k); }
   }
   void do_splice_range(int k, int o, bool withn) {
      std::size_t a = rpos(o), b = rpos(o); if (a > b) std::swap(a, b);
      std::size_t p = rpos(k);
      if (k == o && p > a && p < b) p = b; // p must not be inside [a,b)
      op(withn ? "splice_range_n" : "splice_range", k * 2 + o, long(p), long(a), long(b));
      It pos = at(k, p), f = at(o, a), l = at(o, b); Seq mv(m[o].begin() + a, m[o].begin() + b);
      { Guard g(this, (1 << k) | (1 << o)); if (withn) c[k]->splice(CIt(pos), *c[o], CIt(f), CIt(l), typename L::size_type(b - a)); else c[k]->splice(CIt(pos), *c[o], CIt(f), CIt(l)); }
      if (k == o) { Seq s; for (std::size_t i = 0; i <= m[k].size(); ++i) { if (i == p) s.insert(s.end(), mv.begin(), mv.end()); if (i < m[k].size() && !(i >= a && i < b)) s.push_back(m[k][i]); } m[k] = s; }
      else { erase_at(m[o], a, b); m[k].insert(m[k].begin() + p, mv.begin(), mv.end()); for (int x : mv) put(x, k); }
   }
   void do_sort(int k, int kind) {
      op("sort", k, kind);
      { Guard g(this, 1 << k); if (kind == 0) c[k]->sort(); else if (kind == 1) c[k]->sort(Less()); else c[k]->sort([](const E &a, const E &b) { return a.v > b.v; }); }
      if (kind < 2) model_sort(m[k]); else std::stable_sort(m[k].begin(), m[k].end(), [&](int x, int y) { return el(x).v > el(y).v; });
   }
   void do_merge(int k, int kind) {
      for (int q = 0; q < 2; ++q) if (!sorted(m[q])) do_sort(q, 0);
      op("merge", k, kind);
      { Guard g(this, 3); if (kind == 0) c[k]->merge(*c[1 - k]); else c[k]->merge(*c[1 - k], Less()); }
      model_merge(m[k], m[1 - k]); for (int x : m[k]) put(x, k);
   }
   void do_reverse(int k) { op("reverse", k); { Guard g(this, 1 << k); c[k]->reverse(); } std::reverse(m[k].begin(), m[k].end()); }
   void do_remove(int k, bool disp) {
      int v = rng->range(0, keyrange); op(disp ? "remove_and_dispose" : "remove", k, v);
      E val; val.v = v; val.id = 1000000;
      typename B::Disposer d = disposer();
      // the value may be one of the elements that are removed
      const E *arg = &val; if (rng->chance(1, 2)) for (int x : m[k]) if (el(x).v == v) { arg = &el(x); count("aliased-arguments"); if (rng->chance(1, 2)) break; }
      { Guard g(this, 1 << k); if (disp) c[k]->remove_and_dispose(*arg, d); else c[k]->remove(*arg); }
      Seq gone = model_remove(m[k], [&](int x) { return el(x).v == v; });
      after_dispose(disp ? gone : Seq());
   }
   void do_remove_if(int k, bool disp) {
      RemPred p{rng->range(1, 4), 0}; p.rem = int(rng->below(std::size_t(p.mod))); op(disp ? "remove_and_dispose_if" : "remove_if", k, p.mod, p.rem);
      typename B::Disposer d = disposer();
      { Guard g(this, 1 << k); if (disp) c[k]->remove_and_dispose_if(p, d); else c[k]->remove_if(p); }
      Seq gone = model_remove(m[k], [&](int x) { return rem_model(p, x); });
      after_dispose(disp ? gone : Seq());
   }
   void do_unique(int k, int kind) {
      static const char *const n[] = {"unique", "unique_pred", "unique_and_dispose", "unique_and_dispose_pred"};
      op(n[kind], k);
      if (rng->chance(1, 2) && !sorted(m[k])) { c[k]->sort(); model_sort(m[k]); }
      typename B::Disposer d = disposer(); NearPred np{rng->range(0, 2)};
      { Guard g(this, 1 << k);
        if (kind == 0) c[k]->unique(); else if (kind == 1) c[k]->unique(np); else if (kind == 2) c[k]->unique_and_dispose(d); else c[k]->unique_and_dispose(np, d); }
      int dist = (kind & 1) ? np.d : 0;
      Seq gone = model_unique(m[k], [&](int a, int b) { return std::abs(el(a).v - el(b).v) <= dist; });
      after_dispose(kind >= 2 ? gone : Seq());
   }
   void do_compare() {
      op("compare");
      const L &a = *c[0], &b = *c[1];
      Seq x, y; for (int i : m[0]) x.push_back(el(i).v); for (int i : m[1]) y.push_back(el(i).v);
      { Guard g(this, 3);
      VF_REQ((a == b) == (x == y), "compare-eq"); VF_REQ((a != b) == (x != y), "compare-ne");
      VF_REQ((a < b) == (x < y), "compare-lt"); VF_REQ((a > b) == (x > y), "compare-gt");
      VF_REQ((a <= b) == (x <= y), "compare-le"); VF_REQ((a >= b) == (x >= y), "compare-ge");
      VF_REQ(a == a && !(a < a), "compare-self"); }
   }
   void make_twins() { // make contents equal by key so that comparisons see long common prefixes
      op("twin");
      do_clear(1, false);
      for (std::size_t i = 0; i < m[0].size(); ++i) { int id = free_id(); if (id < 0) break; el(id).v = el(m[0][i]).v; append(1, id); m[1].push_back(id); put(id, 1); saved(id, c[1]->iterator_to(el(id))); }
      if (!m[1].empty() && rng->chance(1, 2)) { int id = m[1][rng->below(m[1].size())]; el(id).v += rng->range(-1, 1); }
      do_compare();
   }
   // ------------------------------------------------------------ slist-only operations; position -1+1 = before_begin
   It bat(int k, std::size_t p) { It i = c[k]->before_begin(); while (p--) ++i; return i; } // predecessor of position p
   void do_insert_after(int k) {
      int id = free_id(); if (id < 0) return; rekey(id); std::size_t p = rpos(k); op("insert_after", k, id, long(p), el(id).v);
      It r, pos = bat(k, p); this->passed.push_back(id);
      { Guard g(this, 1 << k); r = c[k]->insert_after(CIt(pos), el(id)); }
      VF_REQ(&*r == &el(id), "insert-result");
      m[k].insert(m[k].begin() + p, id); put(id, k); saved(id, r);
   }
   void do_insert_after_range(int k) {
      Seq ids = take_free(rng->below(5)); std::size_t p = rpos(k); op("insert_after_range", k, long(ids.size()), long(p));
      It pos = bat(k, p); this->passed = ids;
      { Guard g(this, 1 << k); c[k]->insert_after(CIt(pos), RefIt{this, ids.data()}, RefIt{this, ids.data() + ids.size()}); }
      m[k].insert(m[k].begin() + p, ids.begin(), ids.end()); for (int id : ids) { put(id, k); saved(id, c[k]->iterator_to(el(id))); }
   }
   void do_erase_after(int k, bool disp) {
      if (m[k].empty()) return;
      std::size_t p = rng->below(m[k].size()); op(disp ? "erase_after_and_dispose" : "erase_after", k, long(p));
      int id = m[k][p]; It r, prev = bat(k, p); typename B::Disposer d = disposer();
      { Guard g(this, 1 << k); r = disp ? c[k]->erase_after_and_dispose(CIt(prev), d) : c[k]->erase_after(CIt(prev)); }
      after_dispose(disp ? Seq(1, id) : Seq()); erase_at(m[k], p, p + 1); release(id);
      VF_REQ(r == at(k, p), "erase-after-result");
   }
   void do_erase_after_range(int k, int kind) {
      std::size_t a = rpos(k), b = rpos(k); if (a > b) std::swap(a, b);
      op(kind == 0 ? "erase_after_range" : kind == 1 ? "erase_after_range_n" : "erase_after_range_and_dispose", k, long(a), long(b));
      Seq gone(m[k].begin() + a, m[k].begin() + b); It bf = bat(k, a), l = at(k, b), r; typename B::Disposer d = disposer();
      { Guard g(this, 1 << k);
        if (kind == 0) r = c[k]->erase_after(CIt(bf), CIt(l)); else if (kind == 1) r = c[k]->erase_after(CIt(bf), CIt(l), typename L::size_type(b - a)); else r = c[k]->erase_after_and_dispose(CIt(bf), CIt(l), d); }
      after_dispose(kind == 2 ? gone : Seq()); erase_at(m[k], a, b); for (int x : gone) release(x);
      VF_REQ(r == at(k, b - (b - a)), "erase-after-range-result");
   }
   void do_splice_after_all(int k, bool useprev) {
      int o = 1 - k; std::size_t p = rpos(k); op(useprev ? "splice_all_l" : "splice_after_all", k, long(p));
      It pos = useprev ? at(k, p) : bat(k, p); CIt last; bool wantl = rng->chance(1, 2);
      CIt prevpos = CIt(bat(k, p)); bool was_empty = m[k].empty();
      { Guard g(this, 3); if (useprev) c[k]->splice(CIt(pos), *c[o], wantl ? &last : 0); else c[k]->splice_after(CIt(pos), *c[o], wantl ? &last : 0); }
      int lastid = m[o].empty() ? -1 : m[o].back();
      m[k].insert(m[k].begin() + p, m[o].begin(), m[o].end()); for (int x : m[o]) put(x, k); m[o].clear();
      if (wantl) { if (lastid >= 0) VF_REQ(last == CIt(c[k]->iterator_to(el(lastid))), "splice-last-result"); else VF_REQ(last == prevpos, "splice-last-result-empty"); }
      (void)was_empty;
   }
   void do_splice_after_range(int k, int o, int kind) {
      std::size_t a = rng->below(m[o].size() + 1), b = rng->below(m[o].size() + 1); if (a > b) std::swap(a, b);
      if (kind == 2) { if (m[o].empty()) return; a = rng->below(m[o].size()); b = a + 1; }
      if (a == b && !m[o].empty() && kind == 0) { if (b < m[o].size()) ++b; else --a; } // (before_f, before_l] is documented as non-empty except with an explicit n
      if (a == m[o].size()) return; // ++before_f != x.end()
      std::size_t p = rpos(k);
      if (k == o && p > a && p < b) p = rng->chance(1, 2) ? a : b;
      op(kind == 0 ? "splice_after_range" : kind == 1 ? "splice_after_range_n" : "splice_after_one", k * 2 + o, long(p), long(a), long(b));
      It pos = bat(k, p), bf = bat(o, a), bl = bat(o, b); Seq mv(m[o].begin() + a, m[o].begin() + b);
      { Guard g(this, (1 << k) | (1 << o));
        if (kind == 0) c[k]->splice_after(CIt(pos), *c[o], CIt(bf), CIt(bl));
        else if (kind == 1) c[k]->splice_after(CIt(pos), *c[o], CIt(bf), CIt(bl), typename L::size_type(b - a));
        else c[k]->splice_after(CIt(pos), *c[o], CIt(bf)); }
      if (k == o) { Seq s; for (std::size_t i = 0; i <= m[k].size(); ++i) { if (i == p) s.insert(s.end(), mv.begin(), mv.end()); if (i < m[k].size() && !(i >= a && i < b)) s.push_back(m[k][i]); } m[k] = s; }
      else { erase_at(m[o], a, b); m[k].insert(m[k].begin() + p, mv.begin(), mv.end()); for (int x : mv) put(x, k); }
   }
   // takes over a chain of nodes that the caller linked through the node traits
   void do_incorporate(int k) {
      Seq ids = take_free(rng->below(4)); if (ids.empty()) return;
      typedef typename L::node_traits NT; typedef typename L::node_ptr NP; std::vector<NP> n;
      for (int x : ids) n.push_back(L::value_traits::to_node_ptr(el(x)));
      std::size_t p = rpos(k); bool counted = rng->chance(1, 2); op(counted ? "incorporate_after_n" : "incorporate_after", k, long(ids.size()), long(p));
      for (std::size_t i = 0; i + 1 < n.size(); ++i) NT::set_next(n[i], n[i + 1]);
      It pos = bat(k, p); this->passed = ids;
      { Guard g(this, 1 << k); if (counted) c[k]->incorporate_after(CIt(pos), n.front(), n.back(), typename L::size_type(n.size())); else c[k]->incorporate_after(CIt(pos), n.front(), n.back()); }
      m[k].insert(m[k].begin() + p, ids.begin(), ids.end()); for (int id : ids) { put(id, k); saved(id, c[k]->iterator_to(el(id))); }
   }
   void do_merge_l(int k) {
      for (int q = 0; q < 2; ++q) if (!sorted(m[q])) do_sort(q, 0);
      op("merge_l", k); CIt last; int lastid = m[1 - k].empty() ? -1 : m[1 - k].back();
      { Guard g(this, 3); c[k]->merge(*c[1 - k], Less(), &last); }
      model_merge(m[k], m[1 - k]); for (int x : m[k]) put(x, k);
      if (lastid >= 0) VF_REQ(last == CIt(c[k]->iterator_to(el(lastid))), "merge-last-result"); else VF_REQ(last == c[k]->cend(), "merge-last-result-empty");
   }
   void slist_step(int k) {
      switch (rng->below(11)) {
      case 10: do_incorporate(k); break;
      case 0: case 1: do_insert_after(k); break; case 2: do_insert_after_range(k); break;
      case 3: do_erase_after(k, rng->chance(1, 2)); break; case 4: do_erase_after_range(k, int(rng->below(3))); break;
      case 5: do_splice_after_all(k, rng->chance(1, 2)); break;
      case 6: case 7: case 8: do_splice_after_range(k, int(rng->below(2)), int(rng->below(3))); break;
      case 9: do_merge_l(k); break;
      }
   }
   // ---- auto-unlink
   void do_unlink(std::true_type) {
      int id = int(rng->below(where.size())); int w = where[id]; bool destroy = rng->chance(1, 2);
      op(destroy ? "destroy_element" : "unlink_hook", id, w);
      if (destroy) pool.reset(id); else Cfg::unlink(el(id));
      if (w >= 0) { m[w].erase(std::find(m[w].begin(), m[w].end(), id)); release(id); }
      VF_REQ(!Cfg::linked(el(id)), "unlinked-after-unlink");
   }
   void do_unlink(std::false_type) {}
   // ---- misuse
   void do_misuse() {
      if (!Cfg::safe) return;
      int k = int(rng->below(2)); int w = int(rng->below(2)); if (m[w].empty()) return;
      int id = m[w][rng->below(m[w].size())]; int kind = int(rng->below(5));
      if (Cfg::linear && m[w].back() == id) return; // see hook_ok
      op("misuse", kind, k, id);
      It pos = at(k, rpos(k)); bool hit = false; L *l = c[k]; E *e = &el(id); ListDriver *self = this; Seq one(1, id);
      const int *ip = one.data();
      switch (kind) {
      case 0: hit = asserts([&] { if constexpr (!Cfg::slist || Cfg::last) l->push_back(*e); else l->insert_after(l->before_begin(), *e); }); break;
      case 1: hit = asserts([&] { l->push_front(*e); }); break;
      case 2: hit = asserts([&] { l->insert(CIt(pos), *e); }); break;
      case 3: hit = asserts([&] { l->insert(CIt(pos), RefIt{self, ip}, RefIt{self, ip + 1}); }); break;
      case 4: if (Cfg::autou || !dtor_checked<Cfg>::value) { hit = true; break; }
              hit = asserts([&] { e->~E(); }); // the assertion fires in the hook destructor; payload may already be gone
              el(id).id = id; break;
      }
      VF_REQ(hit, "linked-insert-not-caught");
      count("misuse-caught");
   }

   // ------------------------------------------------------------ cloning (C11)
   struct Clones {
      ListDriver *d; std::vector<E *> made; std::vector<const E *> src; std::vector<E *> live; long throw_at; long n;
   } cl;
   struct Cloner { Clones *c; E *operator()(const E &s) const { ++c->n; if (c->throw_at && c->n == c->throw_at) throw Thrown{int(c->n)};
      E *p = new E(); p->v = s.v; p->id = s.id; c->made.push_back(p); c->src.push_back(&s); c->live.push_back(p); return p; } };
   struct CDisposer { Clones *c; template <class P> void operator()(const P &pp) const { E *p = raw(pp);
      auto i = std::find(c->live.begin(), c->live.end(), p); VF_REQ(i != c->live.end(), "clone-disposer-unknown"); if (Cfg::safe) VF_REQ(!Cfg::linked(*p), "disposed-while-linked"); c->live.erase(i); delete p; } };
   void do_clone(int k, bool rv) {
      // target: a separate list already holding `pre` clone-owned elements
      std::size_t pre = rng->below(4);
      for (long at = 0;; ++at) { // at==0: no failure; then fail at each call in turn
         cl = Clones{this, {}, {}, {}, at, 0};
         L *t = new L();
         for (std::size_t i = 0; i < pre; ++i) { E *p = new E(); p->v = -5; cl.live.push_back(p); t->push_front(*p); }
         op(rv ? "clone_from_rv" : "clone_from", k, long(pre), at);
         bool threw = false;
         try { if (rv) t->clone_from(std::move(*c[k]), NCCloner{&cl}, CDisposer{&cl}); else t->clone_from(const_cast<const L &>(*c[k]), Cloner{&cl}, CDisposer{&cl}); }
         catch (Thrown &) { threw = true; }
         VF_REQ(threw == (at > 0 && std::size_t(at) <= m[k].size()), "clone-exception-propagation");
         if (!threw) {
            std::size_t n = 0;
            VF_REQ(t->size() == m[k].size() && cl.live.size() == m[k].size(), "clone-count");
            for (It i = t->begin(); i != t->end(); ++i, ++n) VF_REQ(n < m[k].size() && i->id == m[k][n] && i->v == el(m[k][n]).v && &*i == cl.made[n], "clone-content");
            VF_REQ(n == m[k].size(), "clone-content");
            if constexpr (!Cfg::slist) { std::size_t r = n; for (It i = t->end(); r; ) { --i; --r; VF_REQ(&*i == cl.made[r], "clone-content-reverse"); } }
            if constexpr (Cfg::slist && Cfg::last) if (n) VF_REQ(&t->back() == cl.made[n - 1], "clone-content-last");
            VF_REQ(cl.src.size() == m[k].size(), "cloned-once-each");
            for (std::size_t i = 0; i < n; ++i) VF_REQ(cl.src[i] == &el(m[k][i]), "cloned-once-each");
         } else {
            VF_REQ(t->empty() && t->size() == 0 && t->begin() == t->end(), "clone-rollback-empty");
            VF_REQ(cl.live.empty(), "clone-rollback-leak");
            E extra; t->push_front(extra); VF_REQ(t->size() == 1 && &t->front() == &extra, "clone-rollback-usable");
            if constexpr (!Cfg::slist || Cfg::last) { E e2; t->push_back(e2); VF_REQ(t->size() == 2 && &t->back() == &e2 && &t->front() == &extra, "clone-rollback-usable"); t->clear(); } else t->clear();
         }
         t->clear_and_dispose(CDisposer{&cl});
         VF_REQ(cl.live.empty(), "clone-leak");
         delete t;
         verify();
         if (at > 0 && !threw) break;
      }
   }
   struct NCCloner { Clones *c; E *operator()(E &s) const { return Cloner{c}(s); } };

   // ------------------------------------------------------------ exception safety (C12)
   // Runs f with a failure at every functor call in turn; `lost` tells which elements may have left the containers.
   template <class F, class G> void sweep(const char *name, int mask, F f, G may_leave) {
      Seq s0[2] = {m[0], m[1]}; std::vector<int> w0 = where;
      for (long k = 1;; ++k) {
         op(name, k, mask);
         reset_fault(k); bool threw = false;
         try { f(); } catch (Thrown &) { threw = true; }
         bool fired = fault().fired; fault().fired = 0; reset_fault(0);
         VF_REQ(threw == fired, "exception-swallowed");
         if (!threw) { count("sweeps"); break; }
         count("faults-injected");
         // read back the actual state
         std::vector<int> seen(where.size(), -1); Seq now[2];
         for (int q = 0; q < 2; ++q) {
            std::size_t n = 0;
            for (It i = c[q]->begin(); i != c[q]->end(); ++i) {
               if (++n > where.size()) fail("fault-corrupt", "%s: endless list %d after exception", name, q);
               int id = i->id; VF_REQ(id >= 0 && id < int(where.size()) && &el(id) == &*i && seen[id] < 0, "fault-corrupt");
               seen[id] = q; now[q].push_back(id);
            }
         }
         for (std::size_t i = 0; i < where.size(); ++i) {
            if (w0[i] < 0) VF_REQ(seen[i] < 0, "fault-alien-element");
            else if (seen[i] < 0) VF_REQ(may_leave(int(i)), "fault-lost-element");
            else if (!(mask >> w0[i] & 1)) VF_REQ(seen[i] == w0[i], "fault-moved-element");
            where[i] = seen[i];
         }
         m[0] = now[0]; m[1] = now[1];
         if (Cfg::safe) for (std::size_t i = 0; i < where.size(); ++i) hook_ok(int(i), "fault-hook-state");
         verify(); // sizes, reverse order, ends
         // put everything back
         for (int q = 0; q < 2; ++q) c[q]->clear();
         if (!Cfg::safe) for (std::size_t i = 0; i < where.size(); ++i) pool.reset_keep(int(i));
         for (int q = 0; q < 2; ++q) { m[q] = s0[q]; for (int x : s0[q]) append(q, x); }
         where = w0;
         verify();
      }
      // completed without a failure: take the result as is
      for (int q = 0; q < 2; ++q) { m[q].clear(); for (It i = c[q]->begin(); i != c[q]->end(); ++i) m[q].push_back(i->id); }
      for (std::size_t i = 0; i < where.size(); ++i) where[i] = -1;
      for (int q = 0; q < 2; ++q) for (int x : m[q]) where[x] = q;
      verify();
   }
   void do_fault(int k) {
      auto none = [](int) { return false; };
      int v = rng->range(0, keyrange); E val; val.v = v;
      RemPred p{rng->range(1, 4), 0}; NearPred np{rng->range(0, 2)};
      Seq s = m[k];
      auto dupkey = [&](int x) { return where[x] == -1 || std::count_if(s.begin(), s.end(), [&](int y) { return std::abs(el(y).v - el(x).v) <= np.d; }) > 1; };
      typename B::Disposer d{this};
      switch (rng->below(11)) {
      case 0: sweep("sort", 1 << k, [&] { c[k]->sort(); }, [](int) { return true; }); break;
      case 1: sweep("sort_pred", 1 << k, [&] { c[k]->sort(Less()); }, [](int) { return true; }); break;
      case 2: for (int q = 0; q < 2; ++q) if (!sorted(m[q])) do_sort(q, 0);
              sweep("merge", 3, [&] { c[k]->merge(*c[1 - k]); }, none); break;
      case 3: for (int q = 0; q < 2; ++q) if (!sorted(m[q])) do_sort(q, 0);
              sweep("merge_pred", 3, [&] { c[k]->merge(*c[1 - k], Less()); }, none); break;
      case 4: sweep("remove_if", 1 << k, [&] { c[k]->remove_if(p); }, [&](int x) { return rem_model(p, x); }); break;
      case 5: sweep("remove_and_dispose_if", 1 << k, [&] { this->disposed.clear(); c[k]->remove_and_dispose_if(p, d); }, [&](int x) { return rem_model(p, x); }); break;
      case 6: sweep("remove", 1 << k, [&] { c[k]->remove(val); }, [&](int x) { return el(x).v == v; }); break;
      case 7: sweep("remove_and_dispose", 1 << k, [&] { this->disposed.clear(); c[k]->remove_and_dispose(val, d); }, [&](int x) { return el(x).v == v; }); break;
      case 8: np.d = 0; sweep("unique", 1 << k, [&] { c[k]->unique(); }, dupkey); break;
      case 9: sweep("unique_pred", 1 << k, [&] { c[k]->unique(np); }, dupkey); break;
      case 10: sweep("unique_and_dispose", 1 << k, [&] { this->disposed.clear(); c[k]->unique_and_dispose(np, d); }, dupkey); break;
      }
   }

   // ------------------------------------------------------------ one case
   void step() {
      int k = int(rng->below(2));
      typedef std::integral_constant<bool, Cfg::autou> can_unlink;
      if (F_FAULT && rng->chance(1, 4)) { do_fault(k); return; }
      if (F_CLONE && rng->chance(1, 4)) { do_clone(k, rng->chance(1, 2)); return; }
      if (F_UNLINK && Cfg::autou && rng->chance(PROP == 9 ? 1 : 1, 3)) { do_unlink(can_unlink()); return; }
      if (F_MISUSE && rng->chance(1, 4)) { do_misuse(); return; }
      if (F_VALUE && rng->chance(1, 12)) { this->do_hook_values(); return; }
      if constexpr (Cfg::slist) { if (rng->chance(1, 3)) { slist_step(k); return; } }
      if (F_XFER && rng->chance(1, 2)) {
         switch (rng->below(9)) {
         case 0: do_swap(int(rng->below(3))); return; case 1: do_move_ctor(k); return; case 2: do_move_assign(k); return;
         case 3: do_splice_all(k); return; case 4: do_splice_one(k, int(rng->below(2))); return; case 5: case 6: do_splice_range(k, int(rng->below(2)), rng->chance(1, 2)); return;
         case 7: do_merge(k, int(rng->below(2))); return; case 8: do_self_swap(k); return;
         }
      }
      if (F_DISPOSE && rng->chance(1, 3)) {
         switch (rng->below(8)) {
         case 0: do_pop(k, rng->chance(1, 2), true); return; case 1: do_erase(k, true); return; case 2: do_erase_range(k, 2); return; case 3: do_clear(k, true); return;
         case 4: do_remove(k, true); return; case 5: do_remove_if(k, true); return; case 6: do_unique(k, rng->range(2, 3)); return; case 7: do_assign(k, true); return;
         }
      }
      switch (rng->below(40)) {
      case 0: case 1: case 2: case 3: do_push(k, true); break;
      case 4: case 5: do_push(k, false); break;
      case 6: case 7: case 8: do_insert(k); break;
      case 9: case 10: do_insert_range(k); break;
      case 11: do_assign(k, rng->chance(1, 2)); break;
      case 12: do_range_ctor(k); break;
      case 13: do_pop(k, rng->chance(1, 2), rng->chance(1, 2)); break;
      case 14: case 15: do_erase(k, rng->chance(1, 2)); break;
      case 16: case 17: do_erase_range(k, int(rng->below(3))); break;
      case 18: if (rng->chance(1, 3)) do_clear(k, rng->chance(1, 2)); break;
      case 19: do_swap(int(rng->below(3))); break;
      case 20: do_move_ctor(k); break;
      case 21: do_move_assign(k); break;
      case 22: do_shift(k, rng->chance(1, 2)); break;
      case 23: do_splice_all(k); break;
      case 24: case 25: do_splice_one(k, int(rng->below(2))); break;
      case 26: case 27: case 28: do_splice_range(k, int(rng->below(2)), rng->chance(1, 2)); break;
      case 29: case 30: do_sort(k, int(rng->below(3))); break;
      case 31: case 32: do_merge(k, int(rng->below(2))); break;
      case 33: do_reverse(k); break;
      case 34: do_remove(k, rng->chance(1, 2)); break;
      case 35: do_remove_if(k, rng->chance(1, 2)); break;
      case 36: do_unique(k, int(rng->below(4))); break;
      case 37: make_twins(); break;
      case 38: if (rng->chance(1, 2)) do_compare(); else make_twins(); break;
      case 39: do_self_swap(k); break;
      }
   }
   void run(Rng &r) {
      rng = &r;
      std::size_t n; unsigned z = unsigned(r.below(20));
      n = z < 4 ? 3 + r.below(3) : z < 16 ? 6 + r.below(14) : z < 19 ? 20 + r.below(40) : 100 + r.below(200);
      if (F_FAULT || F_CLONE) n = 3 + r.below(12);
      pool.grow(n);
      where.assign(n, -1); its.assign(n, It());
      keyrange = r.chance(1, 3) ? 3 : r.chance(1, 2) ? int(n) : 1000;
      make();
      if (n > 20) for (std::size_t i = 0; i < n * 3 / 4; ++i) { int id = int(i); rekey(id); int k = r.chance(1, 4); append(k, id); m[k].push_back(id); put(id, k); saved(id, c[k]->iterator_to(el(id))); }
      op("start", long(n), keyrange);
      verify();
      int steps = F_FAULT || F_CLONE ? 16 : n > 20 ? 25 : 40;
      for (int i = 0; i < steps; ++i) { step(); verify(); }
      // destruction: safe-mode containers unlink what they hold, others are cleared first
      op("destroy");
      for (int k = 0; k < 2; ++k) {
         if (!Cfg::safe) c[k]->clear();
         c[k]->~L(); ::operator delete(cmem[k]);
      }
      if (Cfg::safe) for (std::size_t i = 0; i < where.size(); ++i) VF_REQ(!Cfg::linked(el(int(i))), "linked-after-container-destruction");
      pool.free_all();
   }
};
} // namespace vf
#endif
