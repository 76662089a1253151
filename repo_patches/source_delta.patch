From 070195dce17c8a1c6dab092f77bbc4e7b30dffaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:37 +0000
Subject: [PATCH 01/42] fix: list/slist remove() and remove_and_dispose() must
 let a throwing operator== propagate, as documented

---
 include/boost/intrusive/list.hpp  | 4 ++--
 include/boost/intrusive/slist.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/intrusive/list.hpp b/include/boost/intrusive/list.hpp
index 9871d97..2d2429a 100644
--- a/include/boost/intrusive/list.hpp
+++ b/include/boost/intrusive/list.hpp
@@ -1116,7 +1116,7 @@ class list_impl
    //!
    //! <b>Note</b>: The relative order of elements that are not removed is unchanged,
    //!   and iterators to elements that are not removed remain valid.
-   void remove(const_reference value) BOOST_NOEXCEPT
+   void remove(const_reference value)
    {  this->remove_if(detail::equal_to_value<const_reference>(value));  }
 
    //! <b>Requires</b>: Disposer::operator()(pointer) shouldn't throw.
@@ -1131,7 +1131,7 @@ class list_impl
    //! <b>Note</b>: The relative order of elements that are not removed is unchanged,
    //!   and iterators to elements that are not removed remain valid.
    template<class Disposer>
-   void remove_and_dispose(const_reference value, Disposer disposer) BOOST_NOEXCEPT
+   void remove_and_dispose(const_reference value, Disposer disposer)
    {  this->remove_and_dispose_if(detail::equal_to_value<const_reference>(value), disposer);  }
 
    //! <b>Effects</b>: Removes all the elements for which a specified
diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index f39e7df..42abd20 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -1590,7 +1590,7 @@ class slist_impl
    //! <b>Note</b>: The relative order of elements that are not removed is unchanged,
    //!   and iterators to elements that are not removed remain valid. This function is
    //!   linear time: it performs exactly size() comparisons for equality.
-   void remove(const_reference value) BOOST_NOEXCEPT
+   void remove(const_reference value)
    {  this->remove_if(detail::equal_to_value<const_reference>(value));  }
 
    //! <b>Requires</b>: Disposer::operator()(pointer) shouldn't throw.
@@ -1605,7 +1605,7 @@ class slist_impl
    //! <b>Note</b>: The relative order of elements that are not removed is unchanged,
    //!   and iterators to elements that are not removed remain valid.
    template<class Disposer>
-   void remove_and_dispose(const_reference value, Disposer disposer) BOOST_NOEXCEPT
+   void remove_and_dispose(const_reference value, Disposer disposer)
    {  this->remove_and_dispose_if(detail::equal_to_value<const_reference>(value), disposer);  }
 
    //! <b>Effects</b>: Removes all the elements for which a specified
-- 
2.43.0


From fa30d9b767be2bef5f9f39f9deb8ad79cc0c03f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:37 +0000
Subject: [PATCH 02/42] fix: slist const last() and clast() do not compile

---
 include/boost/intrusive/slist.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index 42abd20..8de656f 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -639,7 +639,7 @@ class slist_impl
    {
       //This function shall not be used if cache_last is not true
       BOOST_INTRUSIVE_INVARIANT_ASSERT(cache_last);
-      return const_iterator (this->get_last_node(), this->priv_value_traits_ptr());
+      return const_iterator (detail::uncast(this->get_last_node()), this->priv_value_traits_ptr());
    }
 
    //! <b>Effects</b>: Returns a const_iterator to the last element contained in the list.
@@ -650,7 +650,7 @@ class slist_impl
    //!
    //! <b>Note</b>: This function is present only if cached_last<> option is true.
    inline const_iterator clast() const BOOST_NOEXCEPT
-   { return const_iterator(this->get_last_node(), this->priv_value_traits_ptr()); }
+   { return const_iterator(detail::uncast(this->get_last_node()), this->priv_value_traits_ptr()); }
 
    //! <b>Precondition</b>: end_iterator must be a valid end iterator
    //!   of slist.
-- 
2.43.0


From 08ac52b38904e2366836610567ebb5f14fa3649b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:37 +0000
Subject: [PATCH 03/42] fix: slist clone_from(rvalue) does not compile

---
 include/boost/intrusive/slist.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index 8de656f..4e10f4c 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -791,7 +791,7 @@ class slist_impl
       this->clear_and_dispose(disposer);
       detail::exception_disposer<slist_impl, Disposer>
          rollback(*this, disposer);
-      iterator prev(this->cbefore_begin());
+      iterator prev(this->before_begin());
       iterator b(src.begin()), e(src.end());
       for(; b != e; ++b){
          prev = this->insert_after(prev, *cloner(*b));
-- 
2.43.0


From 61745b2602dd1c4862c13c28f4c520051dcfd835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:37 +0000
Subject: [PATCH 04/42] fix: slist dispose_and_assign does not compile

---
 include/boost/intrusive/slist.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index 4e10f4c..162bc45 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -1227,7 +1227,7 @@ class slist_impl
    void dispose_and_assign(Disposer disposer, Iterator b, Iterator e)
    {
       this->clear_and_dispose(disposer);
-      this->insert_after(this->cbefore_begin(), b, e, disposer);
+      this->insert_after(this->cbefore_begin(), b, e);
    }
 
    //! <b>Requires</b>: prev must point to an element contained by this list or
-- 
2.43.0


From a57fa22fcc181e7e23b22adc7a8518c023b72524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:37 +0000
Subject: [PATCH 05/42] fix: slist unique_and_dispose(Disposer) does not
 compile

---
 include/boost/intrusive/slist.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index 162bc45..984d19d 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -1703,7 +1703,7 @@ class slist_impl
    //!   and iterators to elements that are not removed remain valid.
    template<class Disposer>
    void unique_and_dispose(Disposer disposer)
-   {  this->unique(value_equal<value_type>(), disposer);  }
+   {  this->unique_and_dispose(value_equal<value_type>(), disposer);  }
 
    //! <b>Requires</b>: Disposer::operator()(pointer) shouldn't throw.
    //!
-- 
2.43.0


From d9bc601e4b8d5b305f9b0a2cd67fdd3a325fdcaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:08 +0000
Subject: [PATCH 06/42] fix: slist with cache_last keeps a stale last node
 after a self splice_after that moves the tail

---
 include/boost/intrusive/slist.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index 984d19d..38bc640 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -1993,7 +1993,8 @@ class slist_impl
          if(prev_pos_n == this->get_last_node()){
             this->set_last_node(before_l_n);
          }
-         if(&x != this && node_traits::get_next(before_l_n) == x.get_end_node()){
+         if((&x != this || (prev_pos_n != before_f_n && prev_pos_n != before_l_n)) &&
+            node_traits::get_next(before_l_n) == x.get_end_node()){
             x.set_last_node(before_f_n);
          }
       }
-- 
2.43.0


From 693db876fa7a4eacb14e5d23568b7fb62b931183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:08 +0000
Subject: [PATCH 07/42] fix: slist::sort dereferences null on an empty linear
 slist

---
 include/boost/intrusive/slist.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index 38bc640..051a7a2 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -1440,7 +1440,7 @@ class slist_impl
    template<class Predicate>
    void sort(Predicate p)
    {
-      if (node_traits::get_next(node_traits::get_next(this->get_root_node()))
+      if (!this->empty() && node_traits::get_next(node_traits::get_next(this->get_root_node()))
          != this->get_root_node()) {
 
          slist_impl carry(this->priv_value_traits());
-- 
2.43.0


From d448628a97ac735e613639e10c7616aa30b8a668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:08 +0000
Subject: [PATCH 08/42] fix: slist::check() asserts on an empty linear slist

---
 include/boost/intrusive/slist.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index 051a7a2..cb0d345 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -1928,9 +1928,9 @@ class slist_impl
    void check() const
    {
       const_node_ptr header_ptr = get_root_node();
-      // header's next is never null
-      BOOST_INTRUSIVE_INVARIANT_ASSERT(node_traits::get_next(header_ptr));
-      if (node_traits::get_next(header_ptr) == header_ptr)
+      // header's next is null only in an empty linear list
+      BOOST_INTRUSIVE_INVARIANT_ASSERT(linear || node_traits::get_next(header_ptr));
+      if (node_traits::get_next(header_ptr) == this->get_end_node())
       {
          BOOST_INTRUSIVE_INVARIANT_ASSERT(!constant_time_size || this->priv_size_traits().get_size() == 0);
          return;
-- 
2.43.0


From 1677e85e704f5fceb4b2292cddbc1d709432572e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:08 +0000
Subject: [PATCH 09/42] fix: circular_slist_algorithms::swap_nodes loses a node
 when the nodes are adjacent

---
 .../boost/intrusive/circular_slist_algorithms.hpp   | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/boost/intrusive/circular_slist_algorithms.hpp b/include/boost/intrusive/circular_slist_algorithms.hpp
index bc4beaa..d43ed31 100644
--- a/include/boost/intrusive/circular_slist_algorithms.hpp
+++ b/include/boost/intrusive/circular_slist_algorithms.hpp
@@ -300,11 +300,20 @@ class circular_slist_algorithms
       const bool this_empty  = this_next == this_node;
       const bool other_empty = other_next == other_node;
 
+      //Obtain previous nodes before any link is modified: nodes can be adjacent
+      node_ptr other_prev = node_ptr();
+      node_ptr this_prev  = node_ptr();
       if(!(other_null || other_empty)){
-         NodeTraits::set_next(this_next == other_node ? other_node : get_previous_node(other_node), this_node );
+         other_prev = this_next == other_node ? other_node : get_previous_node(other_node);
       }
       if(!(this_null | this_empty)){
-         NodeTraits::set_next(other_next == this_node ? this_node  : get_previous_node(this_node), other_node );
+         this_prev = other_next == this_node ? this_node  : get_previous_node(this_node);
+      }
+      if(!(other_null || other_empty)){
+         NodeTraits::set_next(other_prev, this_node );
+      }
+      if(!(this_null | this_empty)){
+         NodeTraits::set_next(this_prev, other_node );
       }
       NodeTraits::set_next(this_node,  other_empty ? this_node  : (other_next == this_node ? other_node : other_next) );
       NodeTraits::set_next(other_node, this_empty  ? other_node : (this_next == other_node ? this_node :  this_next ) );
-- 
2.43.0


From 5f24618eb3024dcfb41442f75ee000fa0848121c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:25 +0000
Subject: [PATCH 10/42] fix: slist::sort dereferences null in linear lists when
 the last merge had nothing to transfer

---
 include/boost/intrusive/slist.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index cb0d345..d03867b 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -1474,7 +1474,7 @@ class slist_impl
          for (int i = 1; i < fill; ++i)
             counter[i].merge(counter[i-1], p, &last_inserted);
          --fill;
-         const_iterator last_element(counter[fill].previous(last_inserted, counter[fill].end()));
+         const_iterator last_element(counter[fill].previous(counter[fill].cend()));
          BOOST_IF_CONSTEXPR(constant_time_size){
             this->splice_after( cbefore_begin(), counter[fill], counter[fill].cbefore_begin()
                               , last_element, counter[fill].size());
-- 
2.43.0


From b9a76aa9f29af5873a553cee65b333db7ee1440d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:51 +0000
Subject: [PATCH 11/42] fix: treap positional inserts and erasures must let a
 throwing priority functor propagate, as documented

---
 include/boost/intrusive/treap.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/boost/intrusive/treap.hpp b/include/boost/intrusive/treap.hpp
index 4d8c916..0514fc1 100644
--- a/include/boost/intrusive/treap.hpp
+++ b/include/boost/intrusive/treap.hpp
@@ -777,7 +777,7 @@ class treap_impl
    //! the successor of "value" container ordering invariant will be broken.
    //! This is a low-level function to be used only for performance reasons
    //! by advanced users.
-   iterator insert_before(const_iterator pos, reference value) BOOST_NOEXCEPT
+   iterator insert_before(const_iterator pos, reference value)
    {
       node_ptr to_insert(this->get_value_traits().to_node_ptr(value));
       BOOST_INTRUSIVE_SAFE_HOOK_DEFAULT_ASSERT(!safemode_or_autounlink || node_algorithms::unique(to_insert));
@@ -807,7 +807,7 @@ class treap_impl
    //!   This function is slightly more efficient than using "insert_before".
    //!   This is a low-level function to be used only for performance reasons
    //!   by advanced users.
-   void push_back(reference value) BOOST_NOEXCEPT
+   void push_back(reference value)
    {
       node_ptr to_insert(this->get_value_traits().to_node_ptr(value));
       BOOST_INTRUSIVE_SAFE_HOOK_DEFAULT_ASSERT(!safemode_or_autounlink || node_algorithms::unique(to_insert));
@@ -830,7 +830,7 @@ class treap_impl
    //!   This function is slightly more efficient than using "insert_before".
    //!   This is a low-level function to be used only for performance reasons
    //!   by advanced users.
-   void push_front(reference value) BOOST_NOEXCEPT
+   void push_front(reference value)
    {
       node_ptr to_insert(this->get_value_traits().to_node_ptr(value));
       BOOST_INTRUSIVE_SAFE_HOOK_DEFAULT_ASSERT(!safemode_or_autounlink || node_algorithms::unique(to_insert));
@@ -847,7 +847,7 @@ class treap_impl
    //!
    //! <b>Note</b>: Invalidates the iterators (but not the references)
    //!    to the erased elements. No destructors are called.
-   iterator erase(const_iterator i) BOOST_NOEXCEPT
+   iterator erase(const_iterator i)
    {
       const_iterator ret(i);
       ++ret;
@@ -870,7 +870,7 @@ class treap_impl
    //!
    //! <b>Note</b>: Invalidates the iterators (but not the references)
    //!    to the erased elements. No destructors are called.
-   iterator erase(const_iterator b, const_iterator e) BOOST_NOEXCEPT
+   iterator erase(const_iterator b, const_iterator e)
    {  size_type n;   return private_erase(b, e, n);   }
 
    //! <b>Effects</b>: Erases all the elements with the given value.
@@ -921,7 +921,7 @@ class treap_impl
    //! <b>Note</b>: Invalidates the iterators
    //!    to the erased elements.
    template<class Disposer>
-   iterator erase_and_dispose(const_iterator i, Disposer disposer) BOOST_NOEXCEPT
+   iterator erase_and_dispose(const_iterator i, Disposer disposer)
    {
       node_ptr to_erase(i.pointed_node());
       iterator ret(this->erase(i));
@@ -931,7 +931,7 @@ class treap_impl
 
    #if !defined(BOOST_INTRUSIVE_DOXYGEN_INVOKED)
    template<class Disposer>
-   iterator erase_and_dispose(iterator i, Disposer disposer) BOOST_NOEXCEPT
+   iterator erase_and_dispose(iterator i, Disposer disposer)
    {  return this->erase_and_dispose(const_iterator(i), disposer);   }
    #endif
 
@@ -948,7 +948,7 @@ class treap_impl
    //! <b>Note</b>: Invalidates the iterators
    //!    to the erased elements.
    template<class Disposer>
-   iterator erase_and_dispose(const_iterator b, const_iterator e, Disposer disposer) BOOST_NOEXCEPT
+   iterator erase_and_dispose(const_iterator b, const_iterator e, Disposer disposer)
    {  size_type n;   return private_erase(b, e, n, disposer);   }
 
    //! <b>Requires</b>: Disposer::operator()(pointer) shouldn't throw.
-- 
2.43.0


From 5ceb5c7a7391021597e604d4aab4b7b60fee4fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:51 +0000
Subject: [PATCH 12/42] fix: sgtree move assignment must swap the balance
 settings with the nodes

---
 include/boost/intrusive/sgtree.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/boost/intrusive/sgtree.hpp b/include/boost/intrusive/sgtree.hpp
index aaee165..efe1331 100644
--- a/include/boost/intrusive/sgtree.hpp
+++ b/include/boost/intrusive/sgtree.hpp
@@ -316,10 +316,7 @@ class sgtree_impl
 
    //! @copydoc ::boost::intrusive::bstree::operator=(bstree &&)
    sgtree_impl& operator=(BOOST_RV_REF(sgtree_impl) x)
-   {
-      this->get_alpha_traits() = x.get_alpha_traits();
-      return static_cast<sgtree_impl&>(tree_type::operator=(BOOST_MOVE_BASE(tree_type, x)));
-   }
+   {  this->swap(x); return *this;  }
 
    /// @cond
    private:
-- 
2.43.0


From 7367c042eb9ce8ff600610f0a28bcf35ce2ccc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:51 +0000
Subject: [PATCH 13/42] fix: splaytree::splay_down does not compile with a
 user-supplied comparator or an extracted key

---
 include/boost/intrusive/splaytree.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/boost/intrusive/splaytree.hpp b/include/boost/intrusive/splaytree.hpp
index e25647c..983228e 100644
--- a/include/boost/intrusive/splaytree.hpp
+++ b/include/boost/intrusive/splaytree.hpp
@@ -496,9 +496,7 @@ class splaytree_impl
    template<class KeyType, class KeyTypeKeyCompare>
    iterator splay_down(const KeyType &key, KeyTypeKeyCompare comp)
    {
-      detail::key_nodeptr_comp<value_compare, value_traits>
-         key_node_comp(comp, &this->get_value_traits());
-      node_ptr r = node_algorithms::splay_down(tree_type::header_ptr(), key, key_node_comp);
+      node_ptr r = node_algorithms::splay_down(tree_type::header_ptr(), key, this->key_node_comp(comp));
       return iterator(r, this->priv_value_traits_ptr());
    }
 
-- 
2.43.0


From 8e217712b4f57ccb5a1911689fac76135f91ab12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:51 +0000
Subject: [PATCH 14/42] fix: tree clone_from must copy the predicate when the
 source is empty too

---
 include/boost/intrusive/bstree.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/boost/intrusive/bstree.hpp b/include/boost/intrusive/bstree.hpp
index 8196d36..55d2577 100644
--- a/include/boost/intrusive/bstree.hpp
+++ b/include/boost/intrusive/bstree.hpp
@@ -1010,6 +1010,9 @@ class bstree_impl
          this->get_comp() = src.get_comp();
          rollback.release();
       }
+      else{
+         this->get_comp() = src.get_comp();
+      }
    }
 
    //! <b>Requires</b>: Disposer::operator()(pointer) shouldn't throw.
@@ -1045,6 +1048,9 @@ class bstree_impl
          this->get_comp() = src.get_comp();
          rollback.release();
       }
+      else{
+         this->get_comp() = src.get_comp();
+      }
    }
 
    //! <b>Requires</b>: value must be an lvalue
-- 
2.43.0


From 79ea6cc81732b5a85deab8d1b4b227ea66dc940e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:06 +0000
Subject: [PATCH 15/42] fix: declare bs_multiset_impl and splay_multiset_impl
 in namespace boost::intrusive so that set/multiset merge compiles

---
 include/boost/intrusive/bs_set.hpp    | 6 +++---
 include/boost/intrusive/splay_set.hpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/boost/intrusive/bs_set.hpp b/include/boost/intrusive/bs_set.hpp
index c3275dd..314d8d4 100644
--- a/include/boost/intrusive/bs_set.hpp
+++ b/include/boost/intrusive/bs_set.hpp
@@ -22,14 +22,14 @@
 #  pragma once
 #endif
 
+namespace boost {
+namespace intrusive {
+
 #if !defined(BOOST_INTRUSIVE_DOXYGEN_INVOKED)
 template<class ValueTraits, class VoidOrKeyOfValue, class Compare, class SizeType, bool ConstantTimeSize, typename HeaderHolder>
 class bs_multiset_impl;
 #endif
 
-namespace boost {
-namespace intrusive {
-
 //! The class template bs_set is an intrusive container, that mimics most of
 //! the interface of std::set as described in the C++ standard.
 //!
diff --git a/include/boost/intrusive/splay_set.hpp b/include/boost/intrusive/splay_set.hpp
index f11424a..9d05206 100644
--- a/include/boost/intrusive/splay_set.hpp
+++ b/include/boost/intrusive/splay_set.hpp
@@ -22,14 +22,14 @@
 #  pragma once
 #endif
 
+namespace boost {
+namespace intrusive {
+
 #if !defined(BOOST_INTRUSIVE_DOXYGEN_INVOKED)
 template<class ValueTraits, class VoidOrKeyOfValue, class Compare, class SizeType, bool ConstantTimeSize, typename HeaderHolder>
 class splay_multiset_impl;
 #endif
 
-namespace boost {
-namespace intrusive {
-
 //! The class template splay_set is an intrusive container, that mimics most of
 //! the interface of std::set as described in the C++ standard.
 //!
-- 
2.43.0


From 377370b968e92fbe9ba73ce862c85a9908a87f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:06 +0000
Subject: [PATCH 16/42] fix: treap merge erases from the source with the
 source's priority comparison

---
 include/boost/intrusive/treap.hpp            |  6 ++++--
 include/boost/intrusive/treap_algorithms.hpp | 20 ++++++++++++++++++--
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/include/boost/intrusive/treap.hpp b/include/boost/intrusive/treap.hpp
index 0514fc1..f56547d 100644
--- a/include/boost/intrusive/treap.hpp
+++ b/include/boost/intrusive/treap.hpp
@@ -1049,7 +1049,8 @@ class treap_impl
 
          if( node_algorithms::transfer_unique
                ( this->header_ptr(), this->key_node_comp(this->key_comp())
-               , this->prio_node_prio_comp(this->priv_pcomp()), source.header_ptr(), p) ){
+               , this->prio_node_prio_comp(this->priv_pcomp()), source.header_ptr()
+               , source.prio_node_prio_comp(source.priority_comp()), p) ){
             this->sz_traits().increment();
             source.sz_traits().decrement();
          }
@@ -1074,7 +1075,8 @@ class treap_impl
          it = node_algorithms::next_node(it);
          node_algorithms::transfer_equal
             ( this->header_ptr(), this->key_node_comp(this->key_comp())
-            , this->prio_node_prio_comp(this->priv_pcomp()), source.header_ptr(), p);
+            , this->prio_node_prio_comp(this->priv_pcomp()), source.header_ptr()
+               , source.prio_node_prio_comp(source.priority_comp()), p);
          this->sz_traits().increment();
          source.sz_traits().decrement();
       }
diff --git a/include/boost/intrusive/treap_algorithms.hpp b/include/boost/intrusive/treap_algorithms.hpp
index 8c836c5..9f883bb 100644
--- a/include/boost/intrusive/treap_algorithms.hpp
+++ b/include/boost/intrusive/treap_algorithms.hpp
@@ -578,11 +578,19 @@ class treap_algorithms
    template<class NodePtrCompare, class PrioNodePtrPrioCompare>
    static bool transfer_unique
       (node_ptr header1, NodePtrCompare comp, PrioNodePtrPrioCompare pcomp, node_ptr header2, node_ptr z)
+   {  return transfer_unique(header1, comp, pcomp, header2, pcomp, z);  }
+
+   //! <b>Effects</b>: Same as the previous overload, but the priorities of the tree
+   //!   "header2" are ordered by "pcomp2".
+   template<class NodePtrCompare, class PrioNodePtrPrioCompare, class PrioNodePtrPrioCompare2>
+   static bool transfer_unique
+      (node_ptr header1, NodePtrCompare comp, PrioNodePtrPrioCompare pcomp
+      ,node_ptr header2, PrioNodePtrPrioCompare2 pcomp2, node_ptr z)
    {
       insert_commit_data commit_data;
       bool const transferable = insert_unique_check(header1, z, comp, z, pcomp, commit_data).second;
       if(transferable){
-         erase(header2, z, pcomp);
+         erase(header2, z, pcomp2);
          insert_unique_commit(header1, z, commit_data);         
       }
       return transferable;
@@ -592,11 +600,19 @@ class treap_algorithms
    template<class NodePtrCompare, class PrioNodePtrPrioCompare>
    static void transfer_equal
       (node_ptr header1, NodePtrCompare comp, PrioNodePtrPrioCompare pcomp, node_ptr header2, node_ptr z)
+   {  transfer_equal(header1, comp, pcomp, header2, pcomp, z);  }
+
+   //! <b>Effects</b>: Same as the previous overload, but the priorities of the tree
+   //!   "header2" are ordered by "pcomp2".
+   template<class NodePtrCompare, class PrioNodePtrPrioCompare, class PrioNodePtrPrioCompare2>
+   static void transfer_equal
+      (node_ptr header1, NodePtrCompare comp, PrioNodePtrPrioCompare pcomp
+      ,node_ptr header2, PrioNodePtrPrioCompare2 pcomp2, node_ptr z)
    {
       insert_commit_data commit_data;
       bstree_algo::insert_equal_upper_bound_check(header1, z, comp, commit_data);
       rebalance_after_insertion_check(header1, commit_data.node, z, pcomp, commit_data.rotations);
-      rebalance_for_erasure(header2, z, pcomp);
+      rebalance_for_erasure(header2, z, pcomp2);
       bstree_algo::erase(header2, z);
       bstree_algo::insert_unique_commit(header1, z, commit_data);
       rotate_up_n(header1, z, commit_data.rotations);
-- 
2.43.0


From 2fbb0f724c8ee1f5a56c863b54f9644f548a5c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:19 +0000
Subject: [PATCH 17/42] fix: clone_subtree tracks the rightmost clone correctly
 when inner right children exist

---
 include/boost/intrusive/bstree_algorithms.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/intrusive/bstree_algorithms.hpp b/include/boost/intrusive/bstree_algorithms.hpp
index 45e6b18..4c3822e 100644
--- a/include/boost/intrusive/bstree_algorithms.hpp
+++ b/include/boost/intrusive/bstree_algorithms.hpp
@@ -1972,7 +1972,7 @@ class bstree_algorithms : public bstree_algorithms_base<NodeTraits>
                NodeTraits::set_parent(insertion_point, temp);
                NodeTraits::set_left  (temp, insertion_point);
                //Update leftmost
-               if(rightmost == target_sub_root)
+               if(temp == leftmost)
                   leftmost = insertion_point;
             }
             //Then clone right nodes
@@ -1988,7 +1988,8 @@ class bstree_algorithms : public bstree_algorithms_base<NodeTraits>
                NodeTraits::set_parent(insertion_point, temp);
                NodeTraits::set_right (temp, insertion_point);
                //Update rightmost
-               rightmost = insertion_point;
+               if(temp == rightmost)
+                  rightmost = insertion_point;
             }
             //If not, go up
             else if(current == source_root){
-- 
2.43.0


From a86557c5b9212d522376fa3b879f90dd4165d010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:40 +0000
Subject: [PATCH 18/42] fix: unordered operator== skips elements after each
 group and ignores the sizes without constant_time_size

---
 include/boost/intrusive/hashtable.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index 3e1293b..2b5ea68 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -3741,14 +3741,14 @@ class hashtable_impl
    friend bool operator==(const hashtable_impl &x, const hashtable_impl &y)
    {
       //Taken from N3068
-      if(constant_time_size && x.size() != y.size()){
+      if(x.size() != y.size()){
          return false;
       }
 
       if (boost::intrusive::iterator_udistance(x.begin(), x.end()) != x.size())
          return false;
          
-      for (const_iterator ix = x.cbegin(), ex = x.cend(); ix != ex; ++ix){
+      for (const_iterator ix = x.cbegin(), ex = x.cend(); ix != ex; ){
          std::pair<const_iterator, const_iterator> eqx(x.equal_range(key_of_value()(*ix))),
                                                    eqy(y.equal_range(key_of_value()(*ix)));
          if (boost::intrusive::iterator_distance(eqx.first, eqx.second) !=
-- 
2.43.0


From ac66871ed858b2d1d06869ef1c2c3c143d41e06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:32 +0000
Subject: [PATCH 19/42] fix: rehash must transfer whole optimize_multikey
 groups

---
 include/boost/intrusive/hashtable.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index 2b5ea68..1a9271e 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -3888,7 +3888,16 @@ class hashtable_impl
 
                //If the target bucket is new, transfer the whole group
                siterator last = i;
-               (priv_go_to_last_in_group)(i, optimize_multikey_t());
+               (priv_go_to_last_in_group)(last, optimize_multikey_t());
+
+               //The rest of the group shares the recalculated hash
+               if(store_hash && do_full_rehash){
+                  for(siterator j = i; j != last; ){
+                     ++j;
+                     node_functions_t::store_hash
+                        (this->priv_value_to_node_ptr(this->priv_value_from_siterator(j)), hash_value, store_hash_t());
+                  }
+               }
 
                if(same_buffer && new_n == n){
                   before_i = last;
-- 
2.43.0


From f02acabbedfaec2ce68dbd3ef364441717c8e506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:20 +0000
Subject: [PATCH 20/42] fix: unordered_set operator== reports a subset as equal
 without constant_time_size

---
 include/boost/intrusive/unordered_set.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/unordered_set.hpp b/include/boost/intrusive/unordered_set.hpp
index c53ec52..5494e33 100644
--- a/include/boost/intrusive/unordered_set.hpp
+++ b/include/boost/intrusive/unordered_set.hpp
@@ -386,7 +386,7 @@ class unordered_set_impl
 
    friend bool operator==(const unordered_set_impl &x, const unordered_set_impl &y)
    {
-      if(table_type::constant_time_size && x.size() != y.size()){
+      if(x.size() != y.size()){
          return false;
       }
       //Find each element of x in y
-- 
2.43.0


From 9b6bbc6c8406835eb926f5a02aa22d62c8c0bcb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:22 +0000
Subject: [PATCH 21/42] fix: rehash to fewer buckets caches an empty first
 bucket

---
 include/boost/intrusive/hashtable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index 1a9271e..6aedb50 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -3911,7 +3911,7 @@ class hashtable_impl
          else{
             const size_type new_n = (size_type)hash_to_bucket_split<power_2_buckets, incremental>
                                        (n, new_bucket_count, split, fastmod_buckets_t());
-            if(cache_begin && new_n < new_first_bucket_num)
+            if(cache_begin && new_n < new_first_bucket_num && !slist_node_algorithms::is_empty(old_bucket.get_node_ptr()))
                new_first_bucket_num = new_n;
             bucket_type &new_b = new_buckets[difference_type(new_n)];
             siterator last = this->priv_get_last(old_bucket, optimize_multikey_t());
-- 
2.43.0


From 82f0e8fdc9e22e62d3b3e6de780b065592252703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:22 +0000
Subject: [PATCH 22/42] fix: erasing a range inside an optimize_multikey group
 links the group to an erased node

---
 include/boost/intrusive/hashtable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index 6aedb50..cf34011 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -1146,7 +1146,7 @@ struct bucket_plus_vtraits
                if(nf == group2) {   //Both first and last in the same group
                                     //so join group1 and group2
                   node_ptr const end1 = group_traits::get_next(group1);
-                  node_ptr const end2 = group_traits::get_next(group2);
+                  node_ptr const end2 = group_traits::get_next(nl);
                   group_traits::set_next(group1, end2);
                   group_traits::set_next(nl, end1);
                }
-- 
2.43.0


From b137182351f37744512005df27b0c341644880ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:58 +0000
Subject: [PATCH 23/42] fix: incremental_rehash(false) caches an empty first
 bucket

---
 include/boost/intrusive/hashtable.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index cf34011..da7ea8f 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -3638,7 +3638,8 @@ class hashtable_impl
          bucket_type &source_bucket = this->priv_bucket(split_idx-1u);
          slist_node_algorithms::transfer_after(target_bucket.get_node_ptr(), source_bucket.get_node_ptr());
          this->dec_split_count();
-         this->priv_insertion_update_cache(target_bucket_num);
+         if(!slist_node_algorithms::is_empty(target_bucket.get_node_ptr()))
+            this->priv_insertion_update_cache(target_bucket_num);
       }
       return ret;
    }
-- 
2.43.0


From 2551fc5e695e708b88021f75fec36ef477aed281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:42 +0000
Subject: [PATCH 24/42] fix: incremental_rehash(bucket_traits) leaves a stale
 cached begin in an empty container

---
 include/boost/intrusive/hashtable.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index da7ea8f..0ded092 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -3696,9 +3696,12 @@ class hashtable_impl
             slist_node_ptr old_bucket_node_ptr = old_buckets[difference_type(n)].get_node_ptr();
             slist_node_algorithms::transfer_after(new_bucket_nodeptr, old_bucket_node_ptr);
          }
-         //Reset cache to safe position
-         this->priv_set_cache_bucket_num(ini_n);
       }
+      //Reset cache to safe position
+      if(ini_n == old_bucket_count)
+         this->priv_init_cache();
+      else
+         this->priv_set_cache_bucket_num(ini_n);
 
       this->priv_set_sentinel_bucket();
       return true;
-- 
2.43.0


From 7f46d44968ecb646f7dfec1dcdc3191e97a479bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:23 +0000
Subject: [PATCH 25/42] fix: unordered equal_range leaves the second iterator's
 bucket uninitialized

---
 include/boost/intrusive/hashtable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index 0ded092..18c9fee 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -4192,7 +4192,7 @@ class hashtable_impl
          r.bucket_first = r.bucket_second = this->priv_invalid_bucket_ptr();
       }
       else if (to_return.second != this->priv_end_sit()) {
-         r.bucket_first = this->priv_bucket_ptr(n_bucket);
+         r.bucket_first = r.bucket_second = this->priv_bucket_ptr(n_bucket);
       }
       else{
          r.bucket_first = this->priv_bucket_ptr(n_bucket);
-- 
2.43.0


From 4a302ca210aa2237a647b8b5a596674c6b3bd736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:23 +0000
Subject: [PATCH 26/42] fix: unordered clone_from rollback misses clones and
 reads past the bucket array when the bucket counts differ

---
 include/boost/intrusive/hashtable.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index 18c9fee..2bcbbd4 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -4000,11 +4000,7 @@ class hashtable_impl
       const size_type src_bucket_count = src.bucket_count();
       const size_type dst_bucket_count = this->bucket_count();
       size_type constructed = 0;
-      typedef typename internal_type::template typeof_node_disposer<Disposer>::type NodeDisposer;
-      NodeDisposer node_disp(disposer, &this->priv_value_traits());
-
-      exception_bucket_disposer<bucket_type, slist_node_algorithms, NodeDisposer, size_type>
-         rollback(this->priv_bucket(0), node_disp, constructed);
+      detail::exception_disposer<hashtable_impl, Disposer> rollback(*this, disposer);
       //Now insert the remaining ones using the modulo trick
       for( //"constructed" already initialized
          ; constructed < src_bucket_count
-- 
2.43.0


From 573c9b29e50008c7ae387db2c57786aeb54023e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:23 +0000
Subject: [PATCH 27/42] fix: unordered clone_from corrupts the bucket mapping
 of fastmod containers

---
 include/boost/intrusive/hashtable.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index 2bcbbd4..e1aaf6d 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -4021,7 +4021,6 @@ class hashtable_impl
       this->priv_equal()  = src.priv_equal();
       rollback.release();
       this->priv_size_count(src.priv_size_count());
-      this->split_count(dst_bucket_count);
       this->priv_set_cache_bucket_num(0u);
       this->priv_erasure_update_cache();
    }
-- 
2.43.0


From 44392e8789dfdbdfb39b486de708005274e9f45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:23 +0000
Subject: [PATCH 28/42] fix: unordered clone_from must always copy the
 functors, before cloning

---
 include/boost/intrusive/hashtable.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index e1aaf6d..ce72cec 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -3937,6 +3937,8 @@ class hashtable_impl
    void priv_clone_from(MaybeConstHashtableImpl &src, Cloner cloner, Disposer disposer)
    {
       this->clear_and_dispose(disposer);
+      this->priv_hasher() = src.priv_hasher();
+      this->priv_equal()  = src.priv_equal();
       if(!constant_time_size || !src.empty()){
          const size_type src_bucket_count = src.bucket_count();
          const size_type dst_bucket_count = this->bucket_count();
@@ -4017,8 +4019,6 @@ class hashtable_impl
                (new_n, r, this->priv_stored_hash(b, store_hash_t()), cloner);
          }
       }
-      this->priv_hasher() = src.priv_hasher();
-      this->priv_equal()  = src.priv_equal();
       rollback.release();
       this->priv_size_count(src.priv_size_count());
       this->priv_set_cache_bucket_num(0u);
-- 
2.43.0


From 3784c7f3d88ef9229006f381b29d2e21d0554ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:54 +0000
Subject: [PATCH 29/42] fix: a throwing rehash must restore the sentinel of
 linear buckets

---
 include/boost/intrusive/hashtable.hpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index ce72cec..a4b1f78 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -3809,6 +3809,21 @@ class hashtable_impl
       }
    }
 
+   struct sentinel_bucket_restorer
+   {
+      explicit sentinel_bucket_restorer(const hashtable_impl &cont)
+         :  cont_(cont)
+      {}
+
+      ~sentinel_bucket_restorer()
+      {  cont_.priv_set_sentinel_bucket();   }
+
+      private:
+      sentinel_bucket_restorer(const sentinel_bucket_restorer &);
+      sentinel_bucket_restorer &operator=(const sentinel_bucket_restorer &);
+      const hashtable_impl &cont_;
+   };
+
    void priv_rehash_impl(const bucket_traits &new_bucket_traits, bool do_full_rehash)
    {
       const std::size_t nbc             = new_bucket_traits.bucket_count() - bucket_overhead;
@@ -3840,6 +3855,10 @@ class hashtable_impl
       if (!do_full_rehash)
          this->priv_initialize_new_buckets(old_buckets, old_bucket_count, new_buckets, new_bucket_count);
 
+      //The sentinel must be in place when leaving, even if something goes wrong.
+      sentinel_bucket_restorer sentinel_restorer(*this);
+      (void)sentinel_restorer;
+
       //Anti-exception stuff: they destroy the elements if something goes wrong.
       //If the source and destination buckets are the same, the second rollback function
       //is harmless, because all elements have been already unlinked and destroyed
@@ -3927,7 +3946,6 @@ class hashtable_impl
       this->split_count(split);
       if(&new_bucket_traits != &this->priv_bucket_traits())
          this->priv_bucket_traits() = new_bucket_traits;
-      this->priv_set_sentinel_bucket();
       this->priv_set_cache_bucket_num(new_first_bucket_num);
       rollback1.release();
       rollback2.release();
-- 
2.43.0


From dc6d4855d355eb48c1cb45ab85243c005e6b7936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:59 +0000
Subject: [PATCH 30/42] fix: splaytree_algorithms::count: qualify next_node

The mutable overload of count called next_node unqualified; it is a member of
a dependent base class, so the documented function never compiled.
---
 include/boost/intrusive/splaytree_algorithms.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/splaytree_algorithms.hpp b/include/boost/intrusive/splaytree_algorithms.hpp
index bef440a..28008ee 100644
--- a/include/boost/intrusive/splaytree_algorithms.hpp
+++ b/include/boost/intrusive/splaytree_algorithms.hpp
@@ -299,7 +299,7 @@ class splaytree_algorithms
       std::size_t n = 0;
       while(ret.first != ret.second){
          ++n;
-         ret.first = next_node(ret.first);
+         ret.first = bstree_algo::next_node(ret.first);
       }
       return n;
    }
-- 
2.43.0


From 43f83bca6a44ba288218c9e0b1c20b46e432a7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:55 +0000
Subject: [PATCH 31/42] fix: fastmod suggested bucket counts must fit size_type

With size_type<> narrower than size_t, a suggestion that does not fit was
truncated to an unrelated, unsupported count (e.g. 389 -> 133 for 8 bits).
---
 include/boost/intrusive/hashtable.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index a4b1f78..a86465f 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -2093,6 +2093,9 @@ struct hashdata_internal
    {
       BOOST_IF_CONSTEXPR(fastmod_buckets){
          std::size_t s = prime_fmod_size::upper_size_index(n);
+         //Avoid counts that can't be represented by size_type
+         while(prime_fmod_size::size(s) > std::size_t(SizeType(-1)))
+            --s;
          return static_cast<SizeType>(prime_fmod_size::size(s));
       }
       else{
@@ -2104,6 +2107,9 @@ struct hashdata_internal
    {
       BOOST_IF_CONSTEXPR(fastmod_buckets){
          std::size_t s = prime_fmod_size::lower_size_index(n);
+         //Avoid counts that can't be represented by size_type
+         while(prime_fmod_size::size(s) > std::size_t(SizeType(-1)))
+            --s;
          return static_cast<SizeType>(prime_fmod_size::size(s));
       }
       else{
-- 
2.43.0


From 0933341e2715ff40992be21824448b76e3e80b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:28 +0000
Subject: [PATCH 32/42] fix: list and slist merge compare some pairs of
 elements twice

merge documents at most size() + x.size() - 1 comparisons. After moving a run,
the element that ended it was compared again with the same element of x, and
slist also compared every moved element again.
---
 include/boost/intrusive/list.hpp  | 2 ++
 include/boost/intrusive/slist.hpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/boost/intrusive/list.hpp b/include/boost/intrusive/list.hpp
index 2d2429a..490e29e 100644
--- a/include/boost/intrusive/list.hpp
+++ b/include/boost/intrusive/list.hpp
@@ -1093,6 +1093,8 @@ class list_impl
                ++ix; ++n;
             } while(ix != ex && p(*ix, *b));
             this->splice(b, x, x.begin(), ix, n);
+            //*b was already compared with the next element of x
+            ++b;
          }
       }
    }
diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index d03867b..c3acc0c 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -1547,6 +1547,8 @@ class slist_impl
             } while(++(ibx_next = ibx) != ex && p(*ibx_next, *bb_next));
             this->splice_after(bb, x, x.before_begin(), ibx, n);
             if(l) *l = ibx;
+            //Transferred elements and *bb_next were already compared
+            bb = bb_next;
          }
       }
    }
-- 
2.43.0


From 1af872d8b4e86df4bb014a077fd8093bde84af1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:50 +0000
Subject: [PATCH 33/42] fix: function hooks must not need implicit raw pointer
 conversions

Smart pointers are only required to work with pointer_traits, and pointer_to is
the way to get one from a reference; fhtraits converted raw pointers implicitly.
---
 include/boost/intrusive/detail/hook_traits.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/intrusive/detail/hook_traits.hpp b/include/boost/intrusive/detail/hook_traits.hpp
index bc51cde..49f6f60 100644
--- a/include/boost/intrusive/detail/hook_traits.hpp
+++ b/include/boost/intrusive/detail/hook_traits.hpp
@@ -165,10 +165,10 @@ struct fhtraits
    static const link_mode_type link_mode = hook_type::hooktags::link_mode;
 
    inline static node_ptr to_node_ptr(reference value)
-   {  return static_cast<node*>(boost::movelib::to_raw_pointer(Functor::to_hook_ptr(value)));  }
+   {  return pointer_traits<node_ptr>::pointer_to(static_cast<node&>(*Functor::to_hook_ptr(value)));  }
 
    inline static const_node_ptr to_node_ptr(const_reference value)
-   {  return static_cast<const node*>(boost::movelib::to_raw_pointer(Functor::to_hook_ptr(value)));  }
+   {  return pointer_traits<const_node_ptr>::pointer_to(static_cast<const node&>(*Functor::to_hook_ptr(value)));  }
 
    inline static pointer to_value_ptr(node_ptr n)
    {  return Functor::to_value_ptr(to_hook_ptr(n));  }
@@ -178,10 +178,10 @@ struct fhtraits
 
    private:
    inline static hook_ptr to_hook_ptr(node_ptr n)
-   {  return hook_ptr(&*static_cast<hook_type*>(&*n));  }
+   {  return pointer_traits<hook_ptr>::pointer_to(static_cast<hook_type&>(*n));  }
 
    inline static const_hook_ptr to_hook_ptr(const_node_ptr n)
-   {  return const_hook_ptr(&*static_cast<const hook_type*>(&*n));  }
+   {  return pointer_traits<const_hook_ptr>::pointer_to(static_cast<const hook_type&>(*n));  }
 };
 
 
-- 
2.43.0


From ea9ae791299d1438f5641b7ff76b90e9a97eae9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:43 +0000
Subject: [PATCH 34/42] fix: assigning an iterator must assign its value traits
 pointer

With stateful value traits, list, slist and tree iterators kept the pointer to the
value traits they were constructed with (or none at all), so that dereferencing
the assigned iterator used the wrong traits; slist::merge itself was affected.
---
 include/boost/intrusive/detail/list_iterator.hpp  | 2 +-
 include/boost/intrusive/detail/slist_iterator.hpp | 2 +-
 include/boost/intrusive/detail/tree_iterator.hpp  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/intrusive/detail/list_iterator.hpp b/include/boost/intrusive/detail/list_iterator.hpp
index 0a10e84..3e8bb3b 100644
--- a/include/boost/intrusive/detail/list_iterator.hpp
+++ b/include/boost/intrusive/detail/list_iterator.hpp
@@ -76,7 +76,7 @@ class list_iterator
    {}
 
    inline list_iterator &operator=(const list_iterator &other)
-   {  members_.nodeptr_ = other.members_.nodeptr_;  return *this;  }
+   {  members_ = other.members_;  return *this;  }
 
    inline node_ptr pointed_node() const
    { return members_.nodeptr_; }
diff --git a/include/boost/intrusive/detail/slist_iterator.hpp b/include/boost/intrusive/detail/slist_iterator.hpp
index 64387c4..002454f 100644
--- a/include/boost/intrusive/detail/slist_iterator.hpp
+++ b/include/boost/intrusive/detail/slist_iterator.hpp
@@ -82,7 +82,7 @@ class slist_iterator
    {}
 
    inline slist_iterator &operator=(const slist_iterator &other)
-   {  members_.nodeptr_ = other.members_.nodeptr_;  return *this;  }
+   {  members_ = other.members_;  return *this;  }
 
    inline node_ptr pointed_node() const
    { return members_.nodeptr_; }
diff --git a/include/boost/intrusive/detail/tree_iterator.hpp b/include/boost/intrusive/detail/tree_iterator.hpp
index f97cecb..a47bf1c 100644
--- a/include/boost/intrusive/detail/tree_iterator.hpp
+++ b/include/boost/intrusive/detail/tree_iterator.hpp
@@ -84,7 +84,7 @@ class tree_iterator
    {}
 
    inline tree_iterator &operator=(const tree_iterator &other)
-   {  members_.nodeptr_ = other.members_.nodeptr_;  return *this;  }
+   {  members_ = other.members_;  return *this;  }
 
    inline tree_iterator &operator=(node_ptr nodeptr)
    {  members_.nodeptr_ = nodeptr;  return *this;  }
-- 
2.43.0


From a0f88f878ad21e8d46d6b461ffa53ffb704d5390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:45 +0000
Subject: [PATCH 35/42] fix: swap_nodes of unordered hooks must swap group
 links and stored hashes

---
 .../boost/intrusive/unordered_set_hook.hpp    | 42 ++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/include/boost/intrusive/unordered_set_hook.hpp b/include/boost/intrusive/unordered_set_hook.hpp
index e0c306a..8cf0efb 100644
--- a/include/boost/intrusive/unordered_set_hook.hpp
+++ b/include/boost/intrusive/unordered_set_hook.hpp
@@ -115,6 +115,28 @@ struct unordered_group_adapter
    {  NodeTraits::set_prev_in_group(n, next);   }
 };
 
+//Swaps the hash values stored in two nodes, if nodes store them
+template<class NodeTraits>
+struct uset_stored_hash
+{
+   inline static void swap(typename NodeTraits::node_ptr, typename NodeTraits::node_ptr) BOOST_NOEXCEPT
+   {}
+};
+
+template<class VoidPointer, bool OptimizeMultiKey>
+struct uset_stored_hash< unordered_node_traits<VoidPointer, true, OptimizeMultiKey> >
+{
+   typedef unordered_node_traits<VoidPointer, true, OptimizeMultiKey> node_traits;
+   typedef typename node_traits::node_ptr                             node_ptr;
+
+   inline static void swap(node_ptr a, node_ptr b) BOOST_NOEXCEPT
+   {
+      const std::size_t h = node_traits::get_hash(a);
+      node_traits::set_hash(a, node_traits::get_hash(b));
+      node_traits::set_hash(b, h);
+   }
+};
+
 template<class NodeTraits>
 struct unordered_algorithms
    : public circular_slist_algorithms<NodeTraits>
@@ -144,12 +166,30 @@ struct unordered_algorithms
       base_type::unlink(n);
       group_algorithms::unlink(n);
    }
+
+   inline static void swap_nodes(typename base_type::node_ptr a, typename base_type::node_ptr b) BOOST_NOEXCEPT
+   {
+      //The group link of a node that left a container can be stale
+      if(base_type::inited(a))
+         group_algorithms::init(a);
+      if(base_type::inited(b))
+         group_algorithms::init(b);
+      base_type::swap_nodes(a, b);
+      group_algorithms::swap_nodes(a, b);
+      uset_stored_hash<NodeTraits>::swap(a, b);
+   }
 };
 
 //Class to avoid defining the same algo as a circular list, as hooks would be ambiguous between them
 template<class Algo>
 struct uset_algo_wrapper : public Algo
-{};
+{
+   inline static void swap_nodes(typename Algo::node_ptr a, typename Algo::node_ptr b) BOOST_NOEXCEPT
+   {
+      Algo::swap_nodes(a, b);
+      uset_stored_hash<typename Algo::node_traits>::swap(a, b);
+   }
+};
 
 template<class VoidPointer, bool StoreHash, bool OptimizeMultiKey>
 struct get_uset_node_traits
-- 
2.43.0


From 143cd451e4f8b5c24e27bfddea5d56b0227f9dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:17 +0000
Subject: [PATCH 36/42] fix: slist incorporate_after(prev_pos, f, before_l)
 does not compile with constant_time_size

---
 include/boost/intrusive/slist.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index c3acc0c..4b28a9f 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -1882,7 +1882,7 @@ class slist_impl
    void incorporate_after(const_iterator prev_pos, node_ptr f, node_ptr before_l) BOOST_NOEXCEPT
    {
       BOOST_IF_CONSTEXPR(constant_time_size)
-         this->incorporate_after(prev_pos, f, before_l, node_algorithms::distance(f.pointed_node(), before_l.pointed_node())+1);
+         this->incorporate_after(prev_pos, f, before_l, node_algorithms::distance(f, before_l)+1);
       else
          this->priv_incorporate_after(prev_pos.pointed_node(), f, before_l);
    }
-- 
2.43.0


From 82a1ae65f6b51131c44f3570c6a5e64ceddc83ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:17 +0000
Subject: [PATCH 37/42] fix: ordered containers do not compile with function
 pointer comparators

---
 include/boost/intrusive/bstree.hpp                    | 2 +-
 include/boost/intrusive/detail/tree_value_compare.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/intrusive/bstree.hpp b/include/boost/intrusive/bstree.hpp
index 55d2577..0cde4dc 100644
--- a/include/boost/intrusive/bstree.hpp
+++ b/include/boost/intrusive/bstree.hpp
@@ -734,7 +734,7 @@ class bstree_impl
    //!   move constructor throws (this does not happen with predefined Boost.Intrusive hooks)
    //!   or the move constructor of the comparison objet throws.
    bstree_impl(BOOST_RV_REF(bstree_impl) x)
-      : data_type(::boost::move(x.get_comp()), ::boost::move(x.get_value_traits()))
+      : data_type(::boost::move(x.get_comp().get()), ::boost::move(x.get_value_traits()))
    {
       this->swap(x);
    }
diff --git a/include/boost/intrusive/detail/tree_value_compare.hpp b/include/boost/intrusive/detail/tree_value_compare.hpp
index d8b88f6..370d938 100644
--- a/include/boost/intrusive/detail/tree_value_compare.hpp
+++ b/include/boost/intrusive/detail/tree_value_compare.hpp
@@ -78,7 +78,7 @@ struct tree_value_compare
    {  this->base_t::get() = x;   return *this;  }
 
    inline const key_compare &key_comp() const
-   {  return static_cast<const key_compare &>(*this);  }
+   {  return this->base_t::get();  }
 
    inline Ret operator()(const key_type &key) const
    {  return this->key_comp()(key);   }
@@ -156,7 +156,7 @@ struct tree_value_compare<ValuePtr, KeyCompare, KeyOfValue, Ret, true>
    {  this->base_t::get() = x;   return *this;  }
 
    inline const key_compare &key_comp() const
-   {  return static_cast<const key_compare &>(*this);  }
+   {  return this->base_t::get();  }
 
    inline Ret operator()(const key_type &key) const
    {  return this->key_comp()(key);   }
-- 
2.43.0


From c3617efd6353d33207d1e8fc97890e2cdae07ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:17 +0000
Subject: [PATCH 38/42] fix: free swap of treap and sgtree containers does not
 exchange the priority comparator or the balance factor

---
 include/boost/intrusive/sgtree.hpp | 5 +++--
 include/boost/intrusive/treap.hpp  | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/boost/intrusive/sgtree.hpp b/include/boost/intrusive/sgtree.hpp
index efe1331..576420e 100644
--- a/include/boost/intrusive/sgtree.hpp
+++ b/include/boost/intrusive/sgtree.hpp
@@ -886,10 +886,11 @@ class sgtree_impl
 
    friend bool operator>=(const sgtree_impl &x, const sgtree_impl &y);
 
-   friend void swap(sgtree_impl &x, sgtree_impl &y);
-
    #endif   //#ifdef BOOST_INTRUSIVE_DOXYGEN_INVOKED
 
+   friend void swap(sgtree_impl &x, sgtree_impl &y)
+   {  x.swap(y);  }
+
    //! <b>Returns</b>: The balance factor (alpha) used in this tree
    //!
    //! <b>Throws</b>: Nothing.
diff --git a/include/boost/intrusive/treap.hpp b/include/boost/intrusive/treap.hpp
index f56547d..fba2139 100644
--- a/include/boost/intrusive/treap.hpp
+++ b/include/boost/intrusive/treap.hpp
@@ -1216,10 +1216,11 @@ class treap_impl
 
    friend bool operator>=(const treap_impl &x, const treap_impl &y);
 
-   friend void swap(treap_impl &x, treap_impl &y);
-
    #endif   //#ifdef BOOST_INTRUSIVE_DOXYGEN_INVOKED
 
+   friend void swap(treap_impl &x, treap_impl &y)
+   {  x.swap(y);  }
+
    /// @cond
    private:
    template<class Disposer>
-- 
2.43.0


From 598eeb90cd483f3c8edd3fb8cea0b9b86ed2de59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:54 +0000
Subject: [PATCH 39/42] fix: swap and move assignment of lists and ordered
 containers must exchange stateful value traits

---
 include/boost/intrusive/bstree.hpp | 2 ++
 include/boost/intrusive/list.hpp   | 3 +++
 include/boost/intrusive/slist.hpp  | 3 +++
 3 files changed, 8 insertions(+)

diff --git a/include/boost/intrusive/bstree.hpp b/include/boost/intrusive/bstree.hpp
index 0cde4dc..e94fbb7 100644
--- a/include/boost/intrusive/bstree.hpp
+++ b/include/boost/intrusive/bstree.hpp
@@ -976,6 +976,8 @@ class bstree_impl
       //This can throw
       ::boost::adl_move_swap(this->get_comp(), other.get_comp());
       //These can't throw
+      //Stateful value traits must follow the nodes
+      ::boost::adl_move_swap(this->get_value_traits(), other.get_value_traits());
       node_algorithms::swap_tree(this->header_ptr(), node_ptr(other.header_ptr()));
       this->sz_traits().swap(other.sz_traits());
    }
diff --git a/include/boost/intrusive/list.hpp b/include/boost/intrusive/list.hpp
index 490e29e..ecf523f 100644
--- a/include/boost/intrusive/list.hpp
+++ b/include/boost/intrusive/list.hpp
@@ -37,6 +37,7 @@
 #include <boost/intrusive/detail/algorithm.hpp>
 
 #include <boost/move/utility_core.hpp>
+#include <boost/move/adl_move_swap.hpp>
 
 #include <boost/intrusive/detail/value_functors.hpp>
 #include <cstddef>   //std::size_t, etc.
@@ -549,6 +550,8 @@ class list_impl
    //! <b>Note</b>: Does not affect the validity of iterators and references.
    void swap(list_impl& other) BOOST_NOEXCEPT
    {
+      //Stateful value traits must follow the nodes
+      ::boost::adl_move_swap(this->priv_value_traits(), other.priv_value_traits());
       node_algorithms::swap_nodes(this->get_root_node(), other.get_root_node());
       this->priv_size_traits().swap(other.priv_size_traits());
    }
diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index 4b28a9f..c1d162e 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -41,6 +41,7 @@
 #include <boost/intrusive/detail/node_cloner_disposer.hpp>
 
 #include <boost/move/utility_core.hpp>
+#include <boost/move/adl_move_swap.hpp>
 
 #include <cstddef>   //std::size_t
 
@@ -710,6 +711,8 @@ class slist_impl
    //! <b>Note</b>: Does not affect the validity of iterators and references.
    void swap(slist_impl& other)
    {
+      //Stateful value traits must follow the nodes
+      ::boost::adl_move_swap(this->priv_value_traits(), other.priv_value_traits());
       BOOST_IF_CONSTEXPR(cache_last){
          priv_swap_cache_last(this, &other);
       }
-- 
2.43.0


From 562da2865ec9eb9de4e56961a65684460c56a44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:18 +0000
Subject: [PATCH 40/42] fix: cloning an ordered container must use the value
 traits of the source for its nodes

---
 include/boost/intrusive/bstree.hpp                      | 4 ++--
 include/boost/intrusive/detail/node_cloner_disposer.hpp | 8 +++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/boost/intrusive/bstree.hpp b/include/boost/intrusive/bstree.hpp
index e94fbb7..23e8456 100644
--- a/include/boost/intrusive/bstree.hpp
+++ b/include/boost/intrusive/bstree.hpp
@@ -1006,7 +1006,7 @@ class bstree_impl
          node_algorithms::clone
             (src.header_ptr()
             ,this->header_ptr()
-            ,detail::node_cloner <Cloner,    value_traits, AlgoType>(cloner,   &this->get_value_traits())
+            ,detail::node_cloner <Cloner,    value_traits, AlgoType>(cloner,   &src.get_value_traits(), &this->get_value_traits())
             ,detail::node_disposer<Disposer, value_traits, AlgoType>(disposer, &this->get_value_traits()));
          this->sz_traits().set_size(src.sz_traits().get_size());
          this->get_comp() = src.get_comp();
@@ -1044,7 +1044,7 @@ class bstree_impl
          node_algorithms::clone
             (src.header_ptr()
             ,this->header_ptr()
-            ,detail::node_cloner <Cloner,    value_traits, AlgoType, false>(cloner,   &this->get_value_traits())
+            ,detail::node_cloner <Cloner,    value_traits, AlgoType, false>(cloner,   &src.get_value_traits(), &this->get_value_traits())
             ,detail::node_disposer<Disposer, value_traits, AlgoType>(disposer, &this->get_value_traits()));
          this->sz_traits().set_size(src.sz_traits().get_size());
          this->get_comp() = src.get_comp();
diff --git a/include/boost/intrusive/detail/node_cloner_disposer.hpp b/include/boost/intrusive/detail/node_cloner_disposer.hpp
index a836699..168e9a6 100644
--- a/include/boost/intrusive/detail/node_cloner_disposer.hpp
+++ b/include/boost/intrusive/detail/node_cloner_disposer.hpp
@@ -54,20 +54,22 @@ struct node_cloner
       <const_pointer>::reference                            const_reference;
    typedef typename if_c<IsConst, const_reference, reference>::type reference_type;
 
-   node_cloner(F f, const ValueTraits *traits)
-      :  base_t(f), traits_(traits)
+   //The source and the target might have different (stateful) value traits
+   node_cloner(F f, const ValueTraits *src_traits, const ValueTraits *traits)
+      :  base_t(f), src_traits_(src_traits), traits_(traits)
    {}
 
    // tree-based containers use this method, which is proxy-reference friendly
    inline node_ptr operator()(node_ptr p)
    {
-      reference_type v = *traits_->to_value_ptr(p);
+      reference_type v = *src_traits_->to_value_ptr(p);
       node_ptr n = traits_->to_node_ptr(*base_t::get()(v));
       //Cloned node must be in default mode if the linking mode requires it
       BOOST_INTRUSIVE_SAFE_HOOK_DEFAULT_ASSERT(!safemode_or_autounlink || node_algorithms::unique(n));
       return n;
    }
 
+   const ValueTraits * const src_traits_;
    const ValueTraits * const traits_;
 };
 
-- 
2.43.0


From 4c38fb6d394955b0da3202fd77abcb4fab67bb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:34 +0000
Subject: [PATCH 41/42] fix: cloning an unordered container must use the value
 traits of the source for its nodes

---
 include/boost/intrusive/hashtable.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index a86465f..1a6b673 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -3989,7 +3989,7 @@ class hashtable_impl
             for(; b != e; ++b){
                //No need to check for duplicates and insert it in the first position
                //as this is an unordered container. So use minimal insertion code
-               std::size_t const hash_to_store = this->priv_stored_or_compute_hash(*b, store_hash_t());
+               std::size_t const hash_to_store = src.priv_stored_or_compute_hash(*b, store_hash_t());
                size_type const bucket_number = this->priv_hash_to_nbucket(hash_to_store);
                typedef typename detail::if_c
                   <detail::is_const<MaybeConstHashtableImpl>::value, const_reference, reference>::type reference_type;
@@ -4038,7 +4038,7 @@ class hashtable_impl
          for( siterator b(this->priv_bucket_lbegin(src_b)), e(this->priv_bucket_lend(src_b)); b != e; ++b){
             typedef typename detail::if_c
                <detail::is_const<MaybeConstHashtableImpl>::value, const_reference, reference>::type reference_type;
-            reference_type r = this->priv_value_from_siterator(b);
+            reference_type r = src.priv_value_from_siterator(b);
             this->priv_clone_front_in_bucket<reference_type>
                (new_n, r, this->priv_stored_hash(b, store_hash_t()), cloner);
          }
-- 
2.43.0


From 126a1091b686db5d7ca1c69344818262b38f9d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:24 +0000
Subject: [PATCH 42/42] fix: tree algorithms: cloning an empty tree must leave
 the target header empty

---
 include/boost/intrusive/bstree_algorithms.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/boost/intrusive/bstree_algorithms.hpp b/include/boost/intrusive/bstree_algorithms.hpp
index 4c3822e..df3705e 100644
--- a/include/boost/intrusive/bstree_algorithms.hpp
+++ b/include/boost/intrusive/bstree_algorithms.hpp
@@ -1304,6 +1304,11 @@ class bstree_algorithms : public bstree_algorithms_base<NodeTraits>
          clear_and_dispose(target_header, disposer);
       }
 
+      //Nothing to clone: the target header is already that of an empty tree
+      if(unique(source_header)){
+         return;
+      }
+
       node_ptr leftmost, rightmost;
       node_ptr new_root = clone_subtree
          (source_header, target_header, cloner, disposer, leftmost, rightmost);
-- 
2.43.0

