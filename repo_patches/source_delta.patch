From 5708e8c11ebd578ebc24b627d1ef482b7a6c31bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:53 +0000
Subject: [PATCH 01/38] fix: slist::last() const and clast() did not compile
 (const node pointer passed to the iterator)

---
 include/boost/intrusive/slist.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index f39e7df..148aa4a 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -639,7 +639,7 @@ class slist_impl
    {
       //This function shall not be used if cache_last is not true
       BOOST_INTRUSIVE_INVARIANT_ASSERT(cache_last);
-      return const_iterator (this->get_last_node(), this->priv_value_traits_ptr());
+      return const_iterator (detail::uncast(this->get_last_node()), this->priv_value_traits_ptr());
    }
 
    //! <b>Effects</b>: Returns a const_iterator to the last element contained in the list.
@@ -650,7 +650,7 @@ class slist_impl
    //!
    //! <b>Note</b>: This function is present only if cached_last<> option is true.
    inline const_iterator clast() const BOOST_NOEXCEPT
-   { return const_iterator(this->get_last_node(), this->priv_value_traits_ptr()); }
+   { return const_iterator(detail::uncast(this->get_last_node()), this->priv_value_traits_ptr()); }
 
    //! <b>Precondition</b>: end_iterator must be a valid end iterator
    //!   of slist.
-- 
2.43.0


From 3b235318be85cd4ba821c56e011b7af121b76ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:53 +0000
Subject: [PATCH 02/38] fix: slist::dispose_and_assign did not compile (no
 insert_after overload takes a disposer)

---
 include/boost/intrusive/slist.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index 148aa4a..dc59ceb 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -1227,7 +1227,7 @@ class slist_impl
    void dispose_and_assign(Disposer disposer, Iterator b, Iterator e)
    {
       this->clear_and_dispose(disposer);
-      this->insert_after(this->cbefore_begin(), b, e, disposer);
+      this->insert_after(this->cbefore_begin(), b, e);
    }
 
    //! <b>Requires</b>: prev must point to an element contained by this list or
-- 
2.43.0


From 3a56030a25f6041152e48e17359ba1fb05efe73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:53 +0000
Subject: [PATCH 03/38] fix: slist::clone_from(rvalue) did not compile
 (const_iterator to iterator conversion)

---
 include/boost/intrusive/slist.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index dc59ceb..67dfa86 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -791,7 +791,7 @@ class slist_impl
       this->clear_and_dispose(disposer);
       detail::exception_disposer<slist_impl, Disposer>
          rollback(*this, disposer);
-      iterator prev(this->cbefore_begin());
+      iterator prev(this->before_begin());
       iterator b(src.begin()), e(src.end());
       for(; b != e; ++b){
          prev = this->insert_after(prev, *cloner(*b));
-- 
2.43.0


From eb540f6ec49d7708b33a1049aa8ea6237b838630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:53 +0000
Subject: [PATCH 04/38] fix: slist::unique_and_dispose(disposer) did not
 compile (called a non-existent unique overload)

---
 include/boost/intrusive/slist.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index 67dfa86..f9c30d4 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -1703,7 +1703,7 @@ class slist_impl
    //!   and iterators to elements that are not removed remain valid.
    template<class Disposer>
    void unique_and_dispose(Disposer disposer)
-   {  this->unique(value_equal<value_type>(), disposer);  }
+   {  this->unique_and_dispose(value_equal<value_type>(), disposer);  }
 
    //! <b>Requires</b>: Disposer::operator()(pointer) shouldn't throw.
    //!
-- 
2.43.0


From 02fca9aaac3e42d87a0c3b4149cc936b501d4977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:53 +0000
Subject: [PATCH 05/38] fix: slist::sort dereferenced a null pointer on an
 empty linear slist

---
 include/boost/intrusive/slist.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index f9c30d4..90f9e4e 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -1440,7 +1440,7 @@ class slist_impl
    template<class Predicate>
    void sort(Predicate p)
    {
-      if (node_traits::get_next(node_traits::get_next(this->get_root_node()))
+      if (!this->empty() && node_traits::get_next(node_traits::get_next(this->get_root_node()))
          != this->get_root_node()) {
 
          slist_impl carry(this->priv_value_traits());
-- 
2.43.0


From 1d73368ad4dd95f9087f8d6ad53ba7c9e0561483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:35 +0000
Subject: [PATCH 06/38] fix: slist::check asserted on an empty linear slist

---
 include/boost/intrusive/slist.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index 90f9e4e..29ff065 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -1928,8 +1928,8 @@ class slist_impl
    void check() const
    {
       const_node_ptr header_ptr = get_root_node();
-      // header's next is never null
-      BOOST_INTRUSIVE_INVARIANT_ASSERT(node_traits::get_next(header_ptr));
+      // header's next is never null (except in an empty linear list)
+      BOOST_INTRUSIVE_INVARIANT_ASSERT(linear || node_traits::get_next(header_ptr));
       if (node_traits::get_next(header_ptr) == header_ptr)
       {
          BOOST_INTRUSIVE_INVARIANT_ASSERT(!constant_time_size || this->priv_size_traits().get_size() == 0);
-- 
2.43.0


From 8a189f599195db20f30b6eaf33dfcc1c57bdd753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:35 +0000
Subject: [PATCH 07/38] fix: list/slist remove and remove_and_dispose
 terminated when operator== threw (documented basic guarantee)

---
 include/boost/intrusive/list.hpp  | 4 ++--
 include/boost/intrusive/slist.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/intrusive/list.hpp b/include/boost/intrusive/list.hpp
index 9871d97..2d2429a 100644
--- a/include/boost/intrusive/list.hpp
+++ b/include/boost/intrusive/list.hpp
@@ -1116,7 +1116,7 @@ class list_impl
    //!
    //! <b>Note</b>: The relative order of elements that are not removed is unchanged,
    //!   and iterators to elements that are not removed remain valid.
-   void remove(const_reference value) BOOST_NOEXCEPT
+   void remove(const_reference value)
    {  this->remove_if(detail::equal_to_value<const_reference>(value));  }
 
    //! <b>Requires</b>: Disposer::operator()(pointer) shouldn't throw.
@@ -1131,7 +1131,7 @@ class list_impl
    //! <b>Note</b>: The relative order of elements that are not removed is unchanged,
    //!   and iterators to elements that are not removed remain valid.
    template<class Disposer>
-   void remove_and_dispose(const_reference value, Disposer disposer) BOOST_NOEXCEPT
+   void remove_and_dispose(const_reference value, Disposer disposer)
    {  this->remove_and_dispose_if(detail::equal_to_value<const_reference>(value), disposer);  }
 
    //! <b>Effects</b>: Removes all the elements for which a specified
diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index 29ff065..db62d8f 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -1590,7 +1590,7 @@ class slist_impl
    //! <b>Note</b>: The relative order of elements that are not removed is unchanged,
    //!   and iterators to elements that are not removed remain valid. This function is
    //!   linear time: it performs exactly size() comparisons for equality.
-   void remove(const_reference value) BOOST_NOEXCEPT
+   void remove(const_reference value)
    {  this->remove_if(detail::equal_to_value<const_reference>(value));  }
 
    //! <b>Requires</b>: Disposer::operator()(pointer) shouldn't throw.
@@ -1605,7 +1605,7 @@ class slist_impl
    //! <b>Note</b>: The relative order of elements that are not removed is unchanged,
    //!   and iterators to elements that are not removed remain valid.
    template<class Disposer>
-   void remove_and_dispose(const_reference value, Disposer disposer) BOOST_NOEXCEPT
+   void remove_and_dispose(const_reference value, Disposer disposer)
    {  this->remove_and_dispose_if(detail::equal_to_value<const_reference>(value), disposer);  }
 
    //! <b>Effects</b>: Removes all the elements for which a specified
-- 
2.43.0


From 88ce18a36f9560e0ed52aea42184f86232e591b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:35 +0000
Subject: [PATCH 08/38] fix: slist::incorporate_after did not compile with
 constant-time size

---
 include/boost/intrusive/slist.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index db62d8f..2793f9e 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -1880,7 +1880,7 @@ class slist_impl
    void incorporate_after(const_iterator prev_pos, node_ptr f, node_ptr before_l) BOOST_NOEXCEPT
    {
       BOOST_IF_CONSTEXPR(constant_time_size)
-         this->incorporate_after(prev_pos, f, before_l, node_algorithms::distance(f.pointed_node(), before_l.pointed_node())+1);
+         this->incorporate_after(prev_pos, f, before_l, node_algorithms::distance(f, before_l)+1);
       else
          this->priv_incorporate_after(prev_pos.pointed_node(), f, before_l);
    }
-- 
2.43.0


From 9386660781564f79d3765fb1c8fb84a54cf2edc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:21 +0000
Subject: [PATCH 09/38] fix: slist::sort dereferenced a null pointer on linear
 lists when the last merged counter was empty (e.g. 2 elements)

---
 include/boost/intrusive/slist.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index 2793f9e..d80c108 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -1474,6 +1474,10 @@ class slist_impl
          for (int i = 1; i < fill; ++i)
             counter[i].merge(counter[i-1], p, &last_inserted);
          --fill;
+         //merge assigns end() when there is nothing to merge, and in a linear
+         //list no element can be reached from that position
+         if(last_inserted == counter[fill].cend())
+            last_inserted = counter[fill].cbefore_begin();
          const_iterator last_element(counter[fill].previous(last_inserted, counter[fill].end()));
          BOOST_IF_CONSTEXPR(constant_time_size){
             this->splice_after( cbefore_begin(), counter[fill], counter[fill].cbefore_begin()
-- 
2.43.0


From 459f7b5eba6e57b2199307532aa191550afdec8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:21 +0000
Subject: [PATCH 10/38] fix: slist::splice_after left a stale cached last
 element when moving the tail inside the same list

---
 include/boost/intrusive/slist.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index d80c108..35f262d 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -1993,11 +1993,12 @@ class slist_impl
    private:
    void priv_splice_after(node_ptr prev_pos_n, slist_impl &x, node_ptr before_f_n, node_ptr before_l_n)
    {
-      if (cache_last && (before_f_n != before_l_n)){
+      //If the position is any end of the range (same list), nothing is moved
+      if (cache_last && (before_f_n != before_l_n) && (prev_pos_n != before_f_n) && (prev_pos_n != before_l_n)){
          if(prev_pos_n == this->get_last_node()){
             this->set_last_node(before_l_n);
          }
-         if(&x != this && node_traits::get_next(before_l_n) == x.get_end_node()){
+         if(node_traits::get_next(before_l_n) == x.get_end_node()){
             x.set_last_node(before_f_n);
          }
       }
-- 
2.43.0


From c7fefd750c8260b0e81c0435bba237e2e3f8550a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:21 +0000
Subject: [PATCH 11/38] fix: circular_slist_algorithms::swap_nodes lost the
 rest of the ring when other_node followed this_node

---
 .../boost/intrusive/circular_slist_algorithms.hpp    | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/boost/intrusive/circular_slist_algorithms.hpp b/include/boost/intrusive/circular_slist_algorithms.hpp
index bc4beaa..609f34c 100644
--- a/include/boost/intrusive/circular_slist_algorithms.hpp
+++ b/include/boost/intrusive/circular_slist_algorithms.hpp
@@ -300,11 +300,17 @@ class circular_slist_algorithms
       const bool this_empty  = this_next == this_node;
       const bool other_empty = other_next == other_node;
 
+      //Find the previous nodes before changing any link, as the search needs intact rings
+      const node_ptr other_prev = (other_null || other_empty) ? node_ptr()
+         : (this_next == other_node ? other_node : get_previous_node(other_node));
+      const node_ptr this_prev  = (this_null || this_empty) ? node_ptr()
+         : (other_next == this_node ? this_node  : get_previous_node(this_node));
+
       if(!(other_null || other_empty)){
-         NodeTraits::set_next(this_next == other_node ? other_node : get_previous_node(other_node), this_node );
+         NodeTraits::set_next(other_prev, this_node );
       }
-      if(!(this_null | this_empty)){
-         NodeTraits::set_next(other_next == this_node ? this_node  : get_previous_node(this_node), other_node );
+      if(!(this_null || this_empty)){
+         NodeTraits::set_next(this_prev, other_node );
       }
       NodeTraits::set_next(this_node,  other_empty ? this_node  : (other_next == this_node ? other_node : other_next) );
       NodeTraits::set_next(other_node, this_empty  ? other_node : (this_next == other_node ? this_node :  this_next ) );
-- 
2.43.0


From 3520eaa7f4af2b99549c50be9f825951a971ad2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:18 +0000
Subject: [PATCH 12/38] fix: bstree::erase(key) terminated when the comparison
 functor threw (noexcept around a user functor)

---
 include/boost/intrusive/bstree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/bstree.hpp b/include/boost/intrusive/bstree.hpp
index 8196d36..8bec4e9 100644
--- a/include/boost/intrusive/bstree.hpp
+++ b/include/boost/intrusive/bstree.hpp
@@ -1444,7 +1444,7 @@ class bstree_impl
    //!
    //! <b>Note</b>: Invalidates the iterators (but not the references)
    //!    to the erased elements. No destructors are called.
-   size_type erase(const key_type &key) BOOST_NOEXCEPT
+   size_type erase(const key_type &key)
    {  return this->erase(key, this->key_comp());   }
 
    //! <b>Requires</b>: key is a value such that `*this` is partitioned with respect to
-- 
2.43.0


From 4f84b00f60bd69bafcb0b6379c9bf6d2107038ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:27 +0000
Subject: [PATCH 13/38] fix: treap insert_before/push_back/push_front/erase
 terminated when the priority functor threw (documented strong guarantee)

---
 include/boost/intrusive/treap.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/boost/intrusive/treap.hpp b/include/boost/intrusive/treap.hpp
index 4d8c916..0514fc1 100644
--- a/include/boost/intrusive/treap.hpp
+++ b/include/boost/intrusive/treap.hpp
@@ -777,7 +777,7 @@ class treap_impl
    //! the successor of "value" container ordering invariant will be broken.
    //! This is a low-level function to be used only for performance reasons
    //! by advanced users.
-   iterator insert_before(const_iterator pos, reference value) BOOST_NOEXCEPT
+   iterator insert_before(const_iterator pos, reference value)
    {
       node_ptr to_insert(this->get_value_traits().to_node_ptr(value));
       BOOST_INTRUSIVE_SAFE_HOOK_DEFAULT_ASSERT(!safemode_or_autounlink || node_algorithms::unique(to_insert));
@@ -807,7 +807,7 @@ class treap_impl
    //!   This function is slightly more efficient than using "insert_before".
    //!   This is a low-level function to be used only for performance reasons
    //!   by advanced users.
-   void push_back(reference value) BOOST_NOEXCEPT
+   void push_back(reference value)
    {
       node_ptr to_insert(this->get_value_traits().to_node_ptr(value));
       BOOST_INTRUSIVE_SAFE_HOOK_DEFAULT_ASSERT(!safemode_or_autounlink || node_algorithms::unique(to_insert));
@@ -830,7 +830,7 @@ class treap_impl
    //!   This function is slightly more efficient than using "insert_before".
    //!   This is a low-level function to be used only for performance reasons
    //!   by advanced users.
-   void push_front(reference value) BOOST_NOEXCEPT
+   void push_front(reference value)
    {
       node_ptr to_insert(this->get_value_traits().to_node_ptr(value));
       BOOST_INTRUSIVE_SAFE_HOOK_DEFAULT_ASSERT(!safemode_or_autounlink || node_algorithms::unique(to_insert));
@@ -847,7 +847,7 @@ class treap_impl
    //!
    //! <b>Note</b>: Invalidates the iterators (but not the references)
    //!    to the erased elements. No destructors are called.
-   iterator erase(const_iterator i) BOOST_NOEXCEPT
+   iterator erase(const_iterator i)
    {
       const_iterator ret(i);
       ++ret;
@@ -870,7 +870,7 @@ class treap_impl
    //!
    //! <b>Note</b>: Invalidates the iterators (but not the references)
    //!    to the erased elements. No destructors are called.
-   iterator erase(const_iterator b, const_iterator e) BOOST_NOEXCEPT
+   iterator erase(const_iterator b, const_iterator e)
    {  size_type n;   return private_erase(b, e, n);   }
 
    //! <b>Effects</b>: Erases all the elements with the given value.
@@ -921,7 +921,7 @@ class treap_impl
    //! <b>Note</b>: Invalidates the iterators
    //!    to the erased elements.
    template<class Disposer>
-   iterator erase_and_dispose(const_iterator i, Disposer disposer) BOOST_NOEXCEPT
+   iterator erase_and_dispose(const_iterator i, Disposer disposer)
    {
       node_ptr to_erase(i.pointed_node());
       iterator ret(this->erase(i));
@@ -931,7 +931,7 @@ class treap_impl
 
    #if !defined(BOOST_INTRUSIVE_DOXYGEN_INVOKED)
    template<class Disposer>
-   iterator erase_and_dispose(iterator i, Disposer disposer) BOOST_NOEXCEPT
+   iterator erase_and_dispose(iterator i, Disposer disposer)
    {  return this->erase_and_dispose(const_iterator(i), disposer);   }
    #endif
 
@@ -948,7 +948,7 @@ class treap_impl
    //! <b>Note</b>: Invalidates the iterators
    //!    to the erased elements.
    template<class Disposer>
-   iterator erase_and_dispose(const_iterator b, const_iterator e, Disposer disposer) BOOST_NOEXCEPT
+   iterator erase_and_dispose(const_iterator b, const_iterator e, Disposer disposer)
    {  size_type n;   return private_erase(b, e, n, disposer);   }
 
    //! <b>Requires</b>: Disposer::operator()(pointer) shouldn't throw.
-- 
2.43.0


From 232c6cbee29be14c66e879e4bec7c63dc19101b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:33 +0000
Subject: [PATCH 14/38] fix: splaytree::splay_down did not compile (wrong
 comparison adaptor)

---
 include/boost/intrusive/splaytree.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/boost/intrusive/splaytree.hpp b/include/boost/intrusive/splaytree.hpp
index e25647c..983228e 100644
--- a/include/boost/intrusive/splaytree.hpp
+++ b/include/boost/intrusive/splaytree.hpp
@@ -496,9 +496,7 @@ class splaytree_impl
    template<class KeyType, class KeyTypeKeyCompare>
    iterator splay_down(const KeyType &key, KeyTypeKeyCompare comp)
    {
-      detail::key_nodeptr_comp<value_compare, value_traits>
-         key_node_comp(comp, &this->get_value_traits());
-      node_ptr r = node_algorithms::splay_down(tree_type::header_ptr(), key, key_node_comp);
+      node_ptr r = node_algorithms::splay_down(tree_type::header_ptr(), key, this->key_node_comp(comp));
       return iterator(r, this->priv_value_traits_ptr());
    }
 
-- 
2.43.0


From a43775f9f19302a282d9f7e13d7c241e8b27d268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:38 +0000
Subject: [PATCH 15/38] fix: bs_set::merge(bs_multiset&) and
 splay_set::merge(splay_multiset&) did not compile (multiset declared in the
 global namespace)

---
 include/boost/intrusive/bs_set.hpp    | 6 +++---
 include/boost/intrusive/splay_set.hpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/boost/intrusive/bs_set.hpp b/include/boost/intrusive/bs_set.hpp
index c3275dd..314d8d4 100644
--- a/include/boost/intrusive/bs_set.hpp
+++ b/include/boost/intrusive/bs_set.hpp
@@ -22,14 +22,14 @@
 #  pragma once
 #endif
 
+namespace boost {
+namespace intrusive {
+
 #if !defined(BOOST_INTRUSIVE_DOXYGEN_INVOKED)
 template<class ValueTraits, class VoidOrKeyOfValue, class Compare, class SizeType, bool ConstantTimeSize, typename HeaderHolder>
 class bs_multiset_impl;
 #endif
 
-namespace boost {
-namespace intrusive {
-
 //! The class template bs_set is an intrusive container, that mimics most of
 //! the interface of std::set as described in the C++ standard.
 //!
diff --git a/include/boost/intrusive/splay_set.hpp b/include/boost/intrusive/splay_set.hpp
index f11424a..9d05206 100644
--- a/include/boost/intrusive/splay_set.hpp
+++ b/include/boost/intrusive/splay_set.hpp
@@ -22,14 +22,14 @@
 #  pragma once
 #endif
 
+namespace boost {
+namespace intrusive {
+
 #if !defined(BOOST_INTRUSIVE_DOXYGEN_INVOKED)
 template<class ValueTraits, class VoidOrKeyOfValue, class Compare, class SizeType, bool ConstantTimeSize, typename HeaderHolder>
 class splay_multiset_impl;
 #endif
 
-namespace boost {
-namespace intrusive {
-
 //! The class template splay_set is an intrusive container, that mimics most of
 //! the interface of std::set as described in the C++ standard.
 //!
-- 
2.43.0


From 9bd6203c468c037e67272981907cbdce69eceea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:15 +0000
Subject: [PATCH 16/38] fix: bstree clone_from set the cached rightmost (and
 with it end()-1) to a wrong node on unbalanced trees

---
 include/boost/intrusive/bstree_algorithms.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/intrusive/bstree_algorithms.hpp b/include/boost/intrusive/bstree_algorithms.hpp
index 45e6b18..613440b 100644
--- a/include/boost/intrusive/bstree_algorithms.hpp
+++ b/include/boost/intrusive/bstree_algorithms.hpp
@@ -1972,7 +1972,7 @@ class bstree_algorithms : public bstree_algorithms_base<NodeTraits>
                NodeTraits::set_parent(insertion_point, temp);
                NodeTraits::set_left  (temp, insertion_point);
                //Update leftmost
-               if(rightmost == target_sub_root)
+               if(leftmost == temp)
                   leftmost = insertion_point;
             }
             //Then clone right nodes
@@ -1988,7 +1988,8 @@ class bstree_algorithms : public bstree_algorithms_base<NodeTraits>
                NodeTraits::set_parent(insertion_point, temp);
                NodeTraits::set_right (temp, insertion_point);
                //Update rightmost
-               rightmost = insertion_point;
+               if(rightmost == temp)
+                  rightmost = insertion_point;
             }
             //If not, go up
             else if(current == source_root){
-- 
2.43.0


From 7ce16257bc241434fd310a039692381cec9cc576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:58 +0000
Subject: [PATCH 17/38] fix: sgtree move assignment left the source with a
 balance factor and maximum size that do not belong to its new contents

---
 include/boost/intrusive/sgtree.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/boost/intrusive/sgtree.hpp b/include/boost/intrusive/sgtree.hpp
index aaee165..efe1331 100644
--- a/include/boost/intrusive/sgtree.hpp
+++ b/include/boost/intrusive/sgtree.hpp
@@ -316,10 +316,7 @@ class sgtree_impl
 
    //! @copydoc ::boost::intrusive::bstree::operator=(bstree &&)
    sgtree_impl& operator=(BOOST_RV_REF(sgtree_impl) x)
-   {
-      this->get_alpha_traits() = x.get_alpha_traits();
-      return static_cast<sgtree_impl&>(tree_type::operator=(BOOST_MOVE_BASE(tree_type, x)));
-   }
+   {  this->swap(x); return *this;  }
 
    /// @cond
    private:
-- 
2.43.0


From 161c203618ce644e9d689697ed4ddf43889ad267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:58 +0000
Subject: [PATCH 18/38] fix: non-member swap of sgtree and treap containers
 sliced to bstree's and left alpha/maximum size and the priority comparison
 behind

---
 include/boost/intrusive/sgtree.hpp | 5 +++--
 include/boost/intrusive/treap.hpp  | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/boost/intrusive/sgtree.hpp b/include/boost/intrusive/sgtree.hpp
index efe1331..576420e 100644
--- a/include/boost/intrusive/sgtree.hpp
+++ b/include/boost/intrusive/sgtree.hpp
@@ -886,10 +886,11 @@ class sgtree_impl
 
    friend bool operator>=(const sgtree_impl &x, const sgtree_impl &y);
 
-   friend void swap(sgtree_impl &x, sgtree_impl &y);
-
    #endif   //#ifdef BOOST_INTRUSIVE_DOXYGEN_INVOKED
 
+   friend void swap(sgtree_impl &x, sgtree_impl &y)
+   {  x.swap(y);  }
+
    //! <b>Returns</b>: The balance factor (alpha) used in this tree
    //!
    //! <b>Throws</b>: Nothing.
diff --git a/include/boost/intrusive/treap.hpp b/include/boost/intrusive/treap.hpp
index 0514fc1..afd9067 100644
--- a/include/boost/intrusive/treap.hpp
+++ b/include/boost/intrusive/treap.hpp
@@ -1214,10 +1214,11 @@ class treap_impl
 
    friend bool operator>=(const treap_impl &x, const treap_impl &y);
 
-   friend void swap(treap_impl &x, treap_impl &y);
-
    #endif   //#ifdef BOOST_INTRUSIVE_DOXYGEN_INVOKED
 
+   friend void swap(treap_impl &x, treap_impl &y)
+   {  x.swap(y);  }
+
    /// @cond
    private:
    template<class Disposer>
-- 
2.43.0


From 34f670a8ada1c40b1397330a83eee7ed4a43c0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:23 +0000
Subject: [PATCH 19/38] fix: hashtable operator== skipped groups, advanced past
 the end and ignored the size of the second operand without constant-time size

---
 include/boost/intrusive/hashtable.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index 3e1293b..0209161 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -3741,14 +3741,11 @@ class hashtable_impl
    friend bool operator==(const hashtable_impl &x, const hashtable_impl &y)
    {
       //Taken from N3068
-      if(constant_time_size && x.size() != y.size()){
+      if(x.size() != y.size()){
          return false;
       }
 
-      if (boost::intrusive::iterator_udistance(x.begin(), x.end()) != x.size())
-         return false;
-         
-      for (const_iterator ix = x.cbegin(), ex = x.cend(); ix != ex; ++ix){
+      for (const_iterator ix = x.cbegin(), ex = x.cend(); ix != ex; ){
          std::pair<const_iterator, const_iterator> eqx(x.equal_range(key_of_value()(*ix))),
                                                    eqy(y.equal_range(key_of_value()(*ix)));
          if (boost::intrusive::iterator_distance(eqx.first, eqx.second) !=
-- 
2.43.0


From 6b29ec485b157cbd9b12c5d7e9b1d23f006984ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:23 +0000
Subject: [PATCH 20/38] fix: unordered_set operator== without constant-time
 size was true for a proper subset

---
 include/boost/intrusive/unordered_set.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/unordered_set.hpp b/include/boost/intrusive/unordered_set.hpp
index c53ec52..5494e33 100644
--- a/include/boost/intrusive/unordered_set.hpp
+++ b/include/boost/intrusive/unordered_set.hpp
@@ -386,7 +386,7 @@ class unordered_set_impl
 
    friend bool operator==(const unordered_set_impl &x, const unordered_set_impl &y)
    {
-      if(table_type::constant_time_size && x.size() != y.size()){
+      if(x.size() != y.size()){
          return false;
       }
       //Find each element of x in y
-- 
2.43.0


From 65c4493213db172c4fd0d07644876242b2e58c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:23 +0000
Subject: [PATCH 21/38] fix: rehash moved the elements of an optimize_multikey
 group one by one, which reversed them and broke the group links

---
 include/boost/intrusive/hashtable.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index 0209161..fae4bd2 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -3885,7 +3885,18 @@ class hashtable_impl
 
                //If the target bucket is new, transfer the whole group
                siterator last = i;
-               (priv_go_to_last_in_group)(i, optimize_multikey_t());
+               (priv_go_to_last_in_group)(last, optimize_multikey_t());
+
+               //The rest of the group has the same hash
+               BOOST_IF_CONSTEXPR(optimize_multikey && store_hash){
+                  if(do_full_rehash){
+                     while(i != last){
+                        ++i;
+                        node_functions_t::store_hash
+                           (this->priv_value_to_node_ptr(this->priv_value_from_siterator(i)), hash_value, store_hash_t());
+                     }
+                  }
+               }
 
                if(same_buffer && new_n == n){
                   before_i = last;
-- 
2.43.0


From 801b02c1fc052b3ac059e8025d341e7f93bce8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:23 +0000
Subject: [PATCH 22/38] fix: an exception in a structural hashtable clone_from
 leaked cloned elements, left a wrong size and could dispose past the bucket
 array

---
 include/boost/intrusive/hashtable.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index fae4bd2..31992c1 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -3995,11 +3995,7 @@ class hashtable_impl
       const size_type src_bucket_count = src.bucket_count();
       const size_type dst_bucket_count = this->bucket_count();
       size_type constructed = 0;
-      typedef typename internal_type::template typeof_node_disposer<Disposer>::type NodeDisposer;
-      NodeDisposer node_disp(disposer, &this->priv_value_traits());
-
-      exception_bucket_disposer<bucket_type, slist_node_algorithms, NodeDisposer, size_type>
-         rollback(this->priv_bucket(0), node_disp, constructed);
+      detail::exception_disposer<hashtable_impl, Disposer> rollback(*this, disposer);
       //Now insert the remaining ones using the modulo trick
       for( //"constructed" already initialized
          ; constructed < src_bucket_count
-- 
2.43.0


From 69ba96b73f1d45cf83d9e2f61ff92f4aac4e3207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:23 +0000
Subject: [PATCH 23/38] fix: a structural hashtable clone_from left a split
 count that is not a prime index with fastmod_buckets

---
 include/boost/intrusive/hashtable.hpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index 31992c1..1e8a6db 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -4015,10 +4015,6 @@ class hashtable_impl
       this->priv_hasher() = src.priv_hasher();
       this->priv_equal()  = src.priv_equal();
       rollback.release();
-      this->priv_size_count(src.priv_size_count());
-      this->split_count(dst_bucket_count);
-      this->priv_set_cache_bucket_num(0u);
-      this->priv_erasure_update_cache();
    }
 
    iterator priv_insert_equal_after_find(reference value, size_type bucket_num, std::size_t hash_value, siterator prev, bool const next_is_in_group)
-- 
2.43.0


From 98ac2b5560049118d2f41a1e3603fd659737d031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:23 +0000
Subject: [PATCH 24/38] fix: hashtable clone_from did not copy the hash
 function and the equality predicate unless it was structural

---
 include/boost/intrusive/hashtable.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index 1e8a6db..5b9c8a5 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -3932,6 +3932,9 @@ class hashtable_impl
    void priv_clone_from(MaybeConstHashtableImpl &src, Cloner cloner, Disposer disposer)
    {
       this->clear_and_dispose(disposer);
+      //The hash function and the equality predicate are copied from the source
+      this->priv_hasher() = src.priv_hasher();
+      this->priv_equal()  = src.priv_equal();
       if(!constant_time_size || !src.empty()){
          const size_type src_bucket_count = src.bucket_count();
          const size_type dst_bucket_count = this->bucket_count();
@@ -4012,8 +4015,6 @@ class hashtable_impl
                (new_n, r, this->priv_stored_hash(b, store_hash_t()), cloner);
          }
       }
-      this->priv_hasher() = src.priv_hasher();
-      this->priv_equal()  = src.priv_equal();
       rollback.release();
    }
 
-- 
2.43.0


From 081086125c0205b9c47fd02ab74bd28902a4aa11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:23 +0000
Subject: [PATCH 25/38] fix: an exception in rehash left a linear_buckets
 container without its sentinel bucket

---
 include/boost/intrusive/hashtable.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index 5b9c8a5..5742b8f 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -3802,6 +3802,14 @@ class hashtable_impl
       }
    }
 
+   struct sentinel_restorer
+   {
+      const hashtable_impl &cont_;
+
+      ~sentinel_restorer()
+      {  cont_.priv_set_sentinel_bucket();  }
+   };
+
    void priv_rehash_impl(const bucket_traits &new_bucket_traits, bool do_full_rehash)
    {
       const std::size_t nbc             = new_bucket_traits.bucket_count() - bucket_overhead;
@@ -3833,6 +3841,10 @@ class hashtable_impl
       if (!do_full_rehash)
          this->priv_initialize_new_buckets(old_buckets, old_bucket_count, new_buckets, new_bucket_count);
 
+      //The sentinel must be there again on exit, also if something goes wrong
+      sentinel_restorer const restorer = { *this };
+      (void)restorer;
+
       //Anti-exception stuff: they destroy the elements if something goes wrong.
       //If the source and destination buckets are the same, the second rollback function
       //is harmless, because all elements have been already unlinked and destroyed
@@ -3922,7 +3934,6 @@ class hashtable_impl
       this->split_count(split);
       if(&new_bucket_traits != &this->priv_bucket_traits())
          this->priv_bucket_traits() = new_bucket_traits;
-      this->priv_set_sentinel_bucket();
       this->priv_set_cache_bucket_num(new_first_bucket_num);
       rollback1.release();
       rollback2.release();
-- 
2.43.0


From 3e9259cfd06e4233b1d1ef81ee0fdc57c7e6b821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:23 +0000
Subject: [PATCH 26/38] fix: incremental_rehash(false) made cache_begin point
 to an empty bucket when both buckets were empty

---
 include/boost/intrusive/hashtable.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index 5742b8f..446dff0 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -3638,7 +3638,8 @@ class hashtable_impl
          bucket_type &source_bucket = this->priv_bucket(split_idx-1u);
          slist_node_algorithms::transfer_after(target_bucket.get_node_ptr(), source_bucket.get_node_ptr());
          this->dec_split_count();
-         this->priv_insertion_update_cache(target_bucket_num);
+         if(!this->priv_bucket_empty(target_bucket_num))
+            this->priv_insertion_update_cache(target_bucket_num);
       }
       return ret;
    }
-- 
2.43.0


From d1f53f13eab83db889974264e6dd2c5d042c467d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:23 +0000
Subject: [PATCH 27/38] fix: incremental_rehash(bucket_traits) left the cached
 begin of an empty container in the wrong place

---
 include/boost/intrusive/hashtable.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index 446dff0..2f4734b 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -3696,9 +3696,10 @@ class hashtable_impl
             slist_node_ptr old_bucket_node_ptr = old_buckets[difference_type(n)].get_node_ptr();
             slist_node_algorithms::transfer_after(new_bucket_nodeptr, old_bucket_node_ptr);
          }
-         //Reset cache to safe position
-         this->priv_set_cache_bucket_num(ini_n);
       }
+      //Reset cache to its position in the new array. In an empty container it was the end of the old one
+      this->priv_set_cache_bucket_num(ini_n < new_bucket_count ? ini_n : new_bucket_count);
+      this->priv_erasure_update_cache();
 
       this->priv_set_sentinel_bucket();
       return true;
-- 
2.43.0


From b7a8ad900910600903cc1ae747feaf7e9bbf1b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:23 +0000
Subject: [PATCH 28/38] fix: incremental_rehash with a single bucket
 transferred the bucket to itself

---
 include/boost/intrusive/hashtable.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index 2f4734b..3b7977f 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -3599,7 +3599,16 @@ class hashtable_impl
       const std::size_t bucket_cnt = this->bucket_count();
       bool ret = false;
 
-      if(grow){
+      if(bucket_cnt == 1u){
+         //Both halves are the same bucket, nothing to move
+         if((ret = grow ? split_idx == 0u : split_idx != 0u)){
+            if(grow)
+               this->inc_split_count();
+            else
+               this->dec_split_count();
+         }
+      }
+      else if(grow){
          //Test if the split variable can be changed
          if((ret = split_idx < bucket_cnt)){
             const std::size_t bucket_to_rehash = split_idx - bucket_cnt/2u;
-- 
2.43.0


From 29742cc96736ad47f3dc0a39f436881e98d01e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:22 +0000
Subject: [PATCH 29/38] fix: rehash to a divisor of the bucket count made
 cache_begin point to an empty bucket

---
 include/boost/intrusive/hashtable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index 3b7977f..a99b43c 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -3933,7 +3933,7 @@ class hashtable_impl
          else{
             const size_type new_n = (size_type)hash_to_bucket_split<power_2_buckets, incremental>
                                        (n, new_bucket_count, split, fastmod_buckets_t());
-            if(cache_begin && new_n < new_first_bucket_num)
+            if(cache_begin && new_n < new_first_bucket_num && !slist_node_algorithms::is_empty(old_bucket.get_node_ptr()))
                new_first_bucket_num = new_n;
             bucket_type &new_b = new_buckets[difference_type(new_n)];
             siterator last = this->priv_get_last(old_bucket, optimize_multikey_t());
-- 
2.43.0


From 31cafafba46e2d426950485f7fde749e7504dfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:27 +0000
Subject: [PATCH 30/38] fix: erasing a range inside an optimize_multikey group
 linked the remaining group to an erased node

---
 include/boost/intrusive/hashtable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index a99b43c..b8e6f3f 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -1146,7 +1146,7 @@ struct bucket_plus_vtraits
                if(nf == group2) {   //Both first and last in the same group
                                     //so join group1 and group2
                   node_ptr const end1 = group_traits::get_next(group1);
-                  node_ptr const end2 = group_traits::get_next(group2);
+                  node_ptr const end2 = group_traits::get_next(nl);
                   group_traits::set_next(group1, end2);
                   group_traits::set_next(nl, end1);
                }
-- 
2.43.0


From 8f96afe054fc2682299b3f64e122a10c951c4421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:36 +0000
Subject: [PATCH 31/38] fix: an exception in incremental_rehash separated
 equivalent elements

---
 include/boost/intrusive/hashtable.hpp | 40 +++++++++++++++++++--------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index b8e6f3f..68ed0f5 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -734,6 +734,7 @@ class incremental_rehash_rollback
    private:
    typedef BucketType   bucket_type;
    typedef SplitTraits  split_traits;
+   typedef typename SlistNodeAlgorithms::node_ptr slist_node_ptr;
 
    incremental_rehash_rollback();
    incremental_rehash_rollback & operator=(const incremental_rehash_rollback &);
@@ -742,26 +743,43 @@ class incremental_rehash_rollback
    public:
    incremental_rehash_rollback
       (bucket_type &source_bucket, bucket_type &destiny_bucket, split_traits &split_tr)
-      :  source_bucket_(source_bucket),  destiny_bucket_(destiny_bucket)
-      ,  split_traits_(split_tr),  released_(false)
+      :  last_kept_(destiny_bucket.get_node_ptr()),  last_moved_(source_bucket.get_node_ptr())
+      ,  source_bucket_(source_bucket),  split_traits_(split_tr),  released_(false)
    {}
 
+   //! The nodes up to n stay in the old bucket
+   inline void keep(const slist_node_ptr &n)
+   {  last_kept_ = n;   }
+
+   //! The nodes up to n leave the old bucket, maintaining their order
+   inline void move(const slist_node_ptr &n)
+   {
+      SlistNodeAlgorithms::transfer_after(last_moved_, last_kept_, n);
+      last_moved_ = n;
+   }
+
+   //! Last node that stays in the old bucket
+   inline slist_node_ptr last_kept() const
+   {  return last_kept_;   }
+
    inline void release()
    {  released_ = true; }
 
    ~incremental_rehash_rollback()
    {
       if(!released_){
-         //If an exception is thrown, just put all moved nodes back in the old bucket
+         //If an exception is thrown, just put all moved nodes back in the old bucket, before
+         //the node that was being processed so that equivalent nodes are still adjacent,
          //and move back the split mark.
-         SlistNodeAlgorithms::transfer_after(destiny_bucket_.get_node_ptr(), source_bucket_.get_node_ptr());
+         SlistNodeAlgorithms::transfer_after(last_kept_, source_bucket_.get_node_ptr());
          split_traits_.decrement();
       }
    }
 
    private:
+   slist_node_ptr last_kept_;
+   slist_node_ptr last_moved_;
    bucket_type &source_bucket_;
-   bucket_type &destiny_bucket_;
    split_traits &split_traits_;
    bool released_;
 };
@@ -3620,21 +3638,19 @@ class hashtable_impl
             //elements are moved back to the original one.
             incremental_rehash_rollback<bucket_type, split_traits, slist_node_algorithms> rollback
                ( this->priv_bucket(split_idx), old_bucket, this->priv_split_traits());
-            siterator before_i(old_bucket.get_node_ptr());
-            siterator i(before_i); ++i;
-            siterator end_sit = linear_buckets ? siterator() : before_i;
-            for( ; i != end_sit; i = before_i, ++i){
+            siterator i(old_bucket.get_node_ptr());
+            siterator end_sit = linear_buckets ? siterator() : i;
+            for( ++i; i != end_sit; i = siterator(rollback.last_kept()), ++i){
                const value_type &v = this->priv_value_from_siterator(i);
                const std::size_t hash_value = this->priv_stored_or_compute_hash(v, store_hash_t());
                const std::size_t new_n = this->priv_hash_to_nbucket(hash_value);
                siterator last = i;
                (priv_go_to_last_in_group)(last, optimize_multikey_t());
                if(new_n == bucket_to_rehash){
-                  before_i = last;
+                  rollback.keep(last.pointed_node());
                }
                else{
-                  bucket_type &new_b = this->priv_bucket(new_n);
-                  slist_node_algorithms::transfer_after(new_b.get_node_ptr(), before_i.pointed_node(), last.pointed_node());
+                  rollback.move(last.pointed_node());
                }
             }
             rollback.release();
-- 
2.43.0


From f54ccab3261f84777eca79532903580bc2b7b235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:19 +0000
Subject: [PATCH 32/38] fix: fastmod_buckets suggested bucket counts that do
 not fit in a narrow size_type

---
 include/boost/intrusive/hashtable.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index 68ed0f5..34b58f1 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -2111,6 +2111,10 @@ struct hashdata_internal
    {
       BOOST_IF_CONSTEXPR(fastmod_buckets){
          std::size_t s = prime_fmod_size::upper_size_index(n);
+         //Only sizes representable in size_type can be used with fastmod_buckets
+         while (prime_fmod_size::size(s) > std::size_t(SizeType(-1))) {
+            --s;
+         }
          return static_cast<SizeType>(prime_fmod_size::size(s));
       }
       else{
@@ -2122,6 +2126,10 @@ struct hashdata_internal
    {
       BOOST_IF_CONSTEXPR(fastmod_buckets){
          std::size_t s = prime_fmod_size::lower_size_index(n);
+         //Only sizes representable in size_type can be used with fastmod_buckets
+         while (prime_fmod_size::size(s) > std::size_t(SizeType(-1))) {
+            --s;
+         }
          return static_cast<SizeType>(prime_fmod_size::size(s));
       }
       else{
-- 
2.43.0


From 0869ac574926a6e2ac9a7316c9f710aa4202e644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:25 +0000
Subject: [PATCH 33/38] fix: circular_list_algorithms::transfer of the only
 node of a list corrupted both lists

---
 include/boost/intrusive/circular_list_algorithms.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/intrusive/circular_list_algorithms.hpp b/include/boost/intrusive/circular_list_algorithms.hpp
index 2c99aa0..7ee11c3 100644
--- a/include/boost/intrusive/circular_list_algorithms.hpp
+++ b/include/boost/intrusive/circular_list_algorithms.hpp
@@ -292,12 +292,13 @@ class circular_list_algorithms
       if(n != p && i != p){
          node_ptr prev_p(NodeTraits::get_previous(p));
          node_ptr prev_i(NodeTraits::get_previous(i));
+         //Unlink "i" first, it might be the only node of its list
+         NodeTraits::set_previous(n, prev_i);
+         NodeTraits::set_next(prev_i, n);
          NodeTraits::set_next(prev_p, i);
          NodeTraits::set_previous(i, prev_p);
          NodeTraits::set_next(i, p);
          NodeTraits::set_previous(p, i);
-         NodeTraits::set_previous(n, prev_i);
-         NodeTraits::set_next(prev_i, n);
 
       }
    }
-- 
2.43.0


From 2524f174ad60cfd5e7e03682f88475aa00f7b9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:21 +0000
Subject: [PATCH 34/38] fix: splaytree_algorithms::count with splaying did not
 compile

---
 include/boost/intrusive/splaytree_algorithms.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/splaytree_algorithms.hpp b/include/boost/intrusive/splaytree_algorithms.hpp
index bef440a..28008ee 100644
--- a/include/boost/intrusive/splaytree_algorithms.hpp
+++ b/include/boost/intrusive/splaytree_algorithms.hpp
@@ -299,7 +299,7 @@ class splaytree_algorithms
       std::size_t n = 0;
       while(ret.first != ret.second){
          ++n;
-         ret.first = next_node(ret.first);
+         ret.first = bstree_algo::next_node(ret.first);
       }
       return n;
    }
-- 
2.43.0


From ba699ddaa00d11cc10a1f06460fe10c8c25f6add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:21 +0000
Subject: [PATCH 35/38] fix: bstree_algorithms::clone of an empty tree
 corrupted the target header

---
 include/boost/intrusive/bstree_algorithms.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/intrusive/bstree_algorithms.hpp b/include/boost/intrusive/bstree_algorithms.hpp
index 613440b..487ba15 100644
--- a/include/boost/intrusive/bstree_algorithms.hpp
+++ b/include/boost/intrusive/bstree_algorithms.hpp
@@ -1938,10 +1938,10 @@ class bstree_algorithms : public bstree_algorithms_base<NodeTraits>
       , node_ptr &leftmost_out, node_ptr &rightmost_out
       )
    {
-      node_ptr target_sub_root = target_parent;
+      node_ptr target_sub_root = node_ptr();
       node_ptr source_root = NodeTraits::get_parent(source_parent);
       if(!source_root){
-         leftmost_out = rightmost_out = source_root;
+         leftmost_out = rightmost_out = target_parent;
       }
       else{
          //We'll calculate leftmost and rightmost nodes while iterating
-- 
2.43.0


From 122388396dab908ca2184f1541d860e920c2d2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:56 +0000
Subject: [PATCH 36/38] fix: list::merge and slist::merge exceeded the
 documented number of comparisons

---
 include/boost/intrusive/list.hpp  | 2 ++
 include/boost/intrusive/slist.hpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/boost/intrusive/list.hpp b/include/boost/intrusive/list.hpp
index 2d2429a..86e03fb 100644
--- a/include/boost/intrusive/list.hpp
+++ b/include/boost/intrusive/list.hpp
@@ -1093,6 +1093,8 @@ class list_impl
                ++ix; ++n;
             } while(ix != ex && p(*ix, *b));
             this->splice(b, x, x.begin(), ix, n);
+            //The next element of x (if any) is not less than *b
+            ++b;
          }
       }
    }
diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index 35f262d..5911165 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -1550,6 +1550,8 @@ class slist_impl
                ibx = ibx_next; ++n;
             } while(++(ibx_next = ibx) != ex && p(*ibx_next, *bb_next));
             this->splice_after(bb, x, x.before_begin(), ibx, n);
+            //The next element of x (if any) is not less than *bb_next
+            bb = bb_next;
             if(l) *l = ibx;
          }
       }
-- 
2.43.0


From 6c46228ed8cc18330078aebf695b6cb0144da6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:09 +0000
Subject: [PATCH 37/38] fix: equal_range returned a second iterator without
 bucket with linear_buckets

---
 include/boost/intrusive/hashtable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index 34b58f1..fefd2f5 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -4226,7 +4226,7 @@ class hashtable_impl
          r.bucket_first = r.bucket_second = this->priv_invalid_bucket_ptr();
       }
       else if (to_return.second != this->priv_end_sit()) {
-         r.bucket_first = this->priv_bucket_ptr(n_bucket);
+         r.bucket_first = r.bucket_second = this->priv_bucket_ptr(n_bucket);
       }
       else{
          r.bucket_first = this->priv_bucket_ptr(n_bucket);
-- 
2.43.0


From d8254e72e41c5d68c9624d6642e5296e1c0200f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:48 +0000
Subject: [PATCH 38/38] fix: assigning iterators of containers with stateful
 value traits kept the old value traits

---
 include/boost/intrusive/detail/list_iterator.hpp  | 2 +-
 include/boost/intrusive/detail/slist_iterator.hpp | 2 +-
 include/boost/intrusive/detail/tree_iterator.hpp  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/intrusive/detail/list_iterator.hpp b/include/boost/intrusive/detail/list_iterator.hpp
index 0a10e84..3e8bb3b 100644
--- a/include/boost/intrusive/detail/list_iterator.hpp
+++ b/include/boost/intrusive/detail/list_iterator.hpp
@@ -76,7 +76,7 @@ class list_iterator
    {}
 
    inline list_iterator &operator=(const list_iterator &other)
-   {  members_.nodeptr_ = other.members_.nodeptr_;  return *this;  }
+   {  members_ = other.members_;  return *this;  }
 
    inline node_ptr pointed_node() const
    { return members_.nodeptr_; }
diff --git a/include/boost/intrusive/detail/slist_iterator.hpp b/include/boost/intrusive/detail/slist_iterator.hpp
index 64387c4..002454f 100644
--- a/include/boost/intrusive/detail/slist_iterator.hpp
+++ b/include/boost/intrusive/detail/slist_iterator.hpp
@@ -82,7 +82,7 @@ class slist_iterator
    {}
 
    inline slist_iterator &operator=(const slist_iterator &other)
-   {  members_.nodeptr_ = other.members_.nodeptr_;  return *this;  }
+   {  members_ = other.members_;  return *this;  }
 
    inline node_ptr pointed_node() const
    { return members_.nodeptr_; }
diff --git a/include/boost/intrusive/detail/tree_iterator.hpp b/include/boost/intrusive/detail/tree_iterator.hpp
index f97cecb..a47bf1c 100644
--- a/include/boost/intrusive/detail/tree_iterator.hpp
+++ b/include/boost/intrusive/detail/tree_iterator.hpp
@@ -84,7 +84,7 @@ class tree_iterator
    {}
 
    inline tree_iterator &operator=(const tree_iterator &other)
-   {  members_.nodeptr_ = other.members_.nodeptr_;  return *this;  }
+   {  members_ = other.members_;  return *this;  }
 
    inline tree_iterator &operator=(node_ptr nodeptr)
    {  members_.nodeptr_ = nodeptr;  return *this;  }
-- 
2.43.0

