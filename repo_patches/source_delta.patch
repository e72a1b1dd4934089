From e876093f29a523bd72c176428a3677ac201b8ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:04 +0000
Subject: [PATCH 01/12] fix: make sequenced_index::sort stable

The carry holds elements that come after those of counter[i], but was passed
as the first list to collate, so equivalent elements ended up reversed.
---
 include/boost/multi_index/detail/seq_index_ops.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/boost/multi_index/detail/seq_index_ops.hpp b/include/boost/multi_index/detail/seq_index_ops.hpp
index b12cc32..7ced559 100644
--- a/include/boost/multi_index/detail/seq_index_ops.hpp
+++ b/include/boost/multi_index/detail/seq_index_ops.hpp
@@ -160,7 +160,14 @@ void sequenced_index_sort(Node* header,Compare comp)
       impl_type::relink(carry.next(),header->next());
       std::size_t i=0;
       while(i<fill&&counter[i].next()!=static_cast<impl_pointer>(&counter[i])){
-        sequenced_index_collate<Node>(&carry,&counter[i++],comp);
+        /* counter[i] holds elements preceding those of carry, so it must go
+         * first for the sorting to be stable.
+         */
+
+        sequenced_index_collate<Node>(&counter[i],&carry,comp);
+        impl_type::swap(
+          static_cast<impl_pointer>(&carry),
+          static_cast<impl_pointer>(&counter[i++]));
       }
       impl_type::swap(
         static_cast<impl_pointer>(&carry),
-- 
2.43.0


From f0e0a7bc27af663a37b08bf5d38b627011130dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:07 +0000
Subject: [PATCH 02/12] fix: allocate hashed/random access index arrays with
 the container's own allocator

The copy and do_not_copy constructors of hashed_index and random_access_index
used the source's allocator for their bucket and pointer arrays, so with
unequal allocators memory was taken from, and after a swap returned to, the
wrong one.
---
 include/boost/multi_index/hashed_index.hpp        | 4 ++--
 include/boost/multi_index/random_access_index.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/multi_index/hashed_index.hpp b/include/boost/multi_index/hashed_index.hpp
index 5100d3c..72deff6 100644
--- a/include/boost/multi_index/hashed_index.hpp
+++ b/include/boost/multi_index/hashed_index.hpp
@@ -770,7 +770,7 @@ BOOST_MULTI_INDEX_PROTECTED_IF_MEMBER_TEMPLATE_FRIENDS:
     key(x.key),
     hash_(x.hash_),
     eq_(x.eq_),
-    buckets(x.get_allocator(),header()->impl(),x.buckets.size()),
+    buckets(this->get_allocator(),header()->impl(),x.buckets.size()),
     mlf(x.mlf),
     max_load(x.max_load)
 
@@ -791,7 +791,7 @@ BOOST_MULTI_INDEX_PROTECTED_IF_MEMBER_TEMPLATE_FRIENDS:
     key(x.key),
     hash_(x.hash_),
     eq_(x.eq_),
-    buckets(x.get_allocator(),header()->impl(),0),
+    buckets(this->get_allocator(),header()->impl(),0),
     mlf(1.0f)
 
 #if defined(BOOST_MULTI_INDEX_ENABLE_SAFE_MODE)
diff --git a/include/boost/multi_index/random_access_index.hpp b/include/boost/multi_index/random_access_index.hpp
index 96b4565..a86fb6d 100644
--- a/include/boost/multi_index/random_access_index.hpp
+++ b/include/boost/multi_index/random_access_index.hpp
@@ -766,7 +766,7 @@ BOOST_MULTI_INDEX_PROTECTED_IF_MEMBER_TEMPLATE_FRIENDS:
 
   random_access_index(const random_access_index<SuperMeta,TagList>& x):
     super(x),
-    ptrs(x.get_allocator(),header()->impl(),x.size())
+    ptrs(this->get_allocator(),header()->impl(),x.size())
 
 #if defined(BOOST_MULTI_INDEX_ENABLE_SAFE_MODE)
     ,safe(*this)
@@ -780,7 +780,7 @@ BOOST_MULTI_INDEX_PROTECTED_IF_MEMBER_TEMPLATE_FRIENDS:
   random_access_index(
     const random_access_index<SuperMeta,TagList>& x,do_not_copy_elements_tag):
     super(x,do_not_copy_elements_tag()),
-    ptrs(x.get_allocator(),header()->impl(),0)
+    ptrs(this->get_allocator(),header()->impl(),0)
 
 #if defined(BOOST_MULTI_INDEX_ENABLE_SAFE_MODE)
     ,safe(*this)
-- 
2.43.0


From ad19d995e0e5756ed5b5fd564714130f1d18cf57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:00 +0000
Subject: [PATCH 03/12] fix: do not dereference the null pointer of an empty
 buffer in random access merge

With an empty index no space is allocated and &*out dereferenced a null
(possibly fancy) pointer.
---
 include/boost/multi_index/detail/rnd_index_ops.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/multi_index/detail/rnd_index_ops.hpp b/include/boost/multi_index/detail/rnd_index_ops.hpp
index f5e76e4..ce88e26 100644
--- a/include/boost/multi_index/detail/rnd_index_ops.hpp
+++ b/include/boost/multi_index/detail/rnd_index_ops.hpp
@@ -89,6 +89,8 @@ void random_access_index_inplace_merge(
   typedef typename Node::impl_pointer     impl_pointer;
   typedef typename Node::impl_ptr_pointer impl_ptr_pointer;
 
+  if(ptrs.size()<=1)return; /* no space allocated, null spc.data() if empty */
+
   auto_space<impl_pointer,Allocator> spc(al,ptrs.size());
 
   impl_ptr_pointer first0=ptrs.begin(),
-- 
2.43.0


From 84aeb7726318850cc8cb689ca8c1deae3a383bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:26 +0000
Subject: [PATCH 04/12] fix: keep the element when modify with rollback is
 undone after an exception

When re-seating the modified element threw and back(e) restored it, the
rethrow was caught by the handler meant for exceptions of back and the element
was erased in spite of the documented strong guarantee (or erased twice if
check_rollback_ had failed).
---
 include/boost/multi_index_container.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/multi_index_container.hpp b/include/boost/multi_index_container.hpp
index 8ac43fc..be369d6 100644
--- a/include/boost/multi_index_container.hpp
+++ b/include/boost/multi_index_container.hpp
@@ -1074,16 +1074,18 @@ BOOST_MULTI_INDEX_PROTECTED_IF_MEMBER_TEMPLATE_FRIENDS:
       b=super::modify_rollback_(x);
     }
     BOOST_CATCH(...){
+      bool rolled_back;
       BOOST_TRY{
         back_(const_cast<value_type&>(x->value()));
-        if(!super::check_rollback_(x))this->erase_(x);
-        BOOST_RETHROW;
+        rolled_back=super::check_rollback_(x);
       }
       BOOST_CATCH(...){
         this->erase_(x);
         BOOST_RETHROW;
       }
       BOOST_CATCH_END
+      if(!rolled_back)this->erase_(x);
+      BOOST_RETHROW;
     }
     BOOST_CATCH_END
 
-- 
2.43.0


From 679e5baaa9f7a5badf5d5f444b1f19b2cb1d19ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:07 +0000
Subject: [PATCH 05/12] fix: rethrow exceptions in sequenced_index range splice
 between containers

The handler relinked the elements transferred so far but swallowed the
exception.
---
 include/boost/multi_index/sequenced_index.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/multi_index/sequenced_index.hpp b/include/boost/multi_index/sequenced_index.hpp
index 770a6ce..3ea6f5f 100644
--- a/include/boost/multi_index/sequenced_index.hpp
+++ b/include/boost/multi_index/sequenced_index.hpp
@@ -1110,6 +1110,7 @@ private:
       BOOST_CATCH(...){
         ++first_to_relink;
         relink(position.get_node(),first_to_relink.get_node(),header());
+        BOOST_RETHROW;
       }
       BOOST_CATCH_END
       ++first_to_relink;
-- 
2.43.0


From 3dda15ef170ec8da1f2d2c719ac17f438efc1326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:56 +0000
Subject: [PATCH 06/12] fix: splicing between two random access indices of a
 container did not compile

The node pointer was converted to the node implementation type by an
implicit derived-to-base conversion, which is ambiguous when the
container has more than one random access index.
---
 include/boost/multi_index/random_access_index.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/multi_index/random_access_index.hpp b/include/boost/multi_index/random_access_index.hpp
index a86fb6d..268ed67 100644
--- a/include/boost/multi_index/random_access_index.hpp
+++ b/include/boost/multi_index/random_access_index.hpp
@@ -1157,7 +1157,7 @@ private:
     /* relink [first, last) */
 
     for(Iterator it=first;it!=last;++it,++pp){
-      *pp=static_cast<index_node_type*>(it.get_node());
+      *pp=static_cast<index_node_type*>(it.get_node())->impl();
       (*pp)->up()=pp;
     }
   }
-- 
2.43.0


From c4fece2599ab082f5567b73db49f1d355c441780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:13 +0000
Subject: [PATCH 07/12] fix: check the position in range insertion of sequenced
 and random access indices

Safe mode did not check the position passed to insert(position,first,last),
unlike all other positional insertion functions.
---
 include/boost/multi_index/random_access_index.hpp | 2 ++
 include/boost/multi_index/sequenced_index.hpp     | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/boost/multi_index/random_access_index.hpp b/include/boost/multi_index/random_access_index.hpp
index 268ed67..c4130eb 100644
--- a/include/boost/multi_index/random_access_index.hpp
+++ b/include/boost/multi_index/random_access_index.hpp
@@ -1045,6 +1045,8 @@ private:
   void insert_iter(
     iterator position,InputIterator first,InputIterator last,mpl::true_)
   {
+    BOOST_MULTI_INDEX_CHECK_VALID_ITERATOR(position);
+    BOOST_MULTI_INDEX_CHECK_IS_OWNER(position,*this);
     BOOST_MULTI_INDEX_RND_INDEX_CHECK_INVARIANT;
     size_type s=0;
     BOOST_TRY{
diff --git a/include/boost/multi_index/sequenced_index.hpp b/include/boost/multi_index/sequenced_index.hpp
index 3ea6f5f..41bf2ae 100644
--- a/include/boost/multi_index/sequenced_index.hpp
+++ b/include/boost/multi_index/sequenced_index.hpp
@@ -973,6 +973,8 @@ private:
   void insert_iter(
     iterator position,InputIterator first,InputIterator last,mpl::true_)
   {
+    BOOST_MULTI_INDEX_CHECK_VALID_ITERATOR(position);
+    BOOST_MULTI_INDEX_CHECK_IS_OWNER(position,*this);
     BOOST_MULTI_INDEX_SEQ_INDEX_CHECK_INVARIANT;
     for(;first!=last;++first){
       std::pair<final_node_type*,bool> p=
-- 
2.43.0


From a90af99a572053f856314b47f6f0a8c174583d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:06 +0000
Subject: [PATCH 08/12] fix: move assignment and allocator-extended move
 construction did not compile in C++03

---
 include/boost/multi_index/detail/copy_map.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/boost/multi_index/detail/copy_map.hpp b/include/boost/multi_index/detail/copy_map.hpp
index 4e79697..c7f7467 100644
--- a/include/boost/multi_index/detail/copy_map.hpp
+++ b/include/boost/multi_index/detail/copy_map.hpp
@@ -20,6 +20,7 @@
 #include <boost/core/noncopyable.hpp>
 #include <boost/move/core.hpp>
 #include <boost/move/utility_core.hpp>
+#include <boost/mpl/if.hpp>
 #include <boost/multi_index/detail/allocator_traits.hpp>
 #include <boost/multi_index/detail/auto_space.hpp>
 #include <boost/multi_index/detail/raw_ptr.hpp>
@@ -65,8 +66,17 @@ struct copy_map_value_copier
 
 struct copy_map_value_mover
 {
+#if !defined(BOOST_NO_CXX11_RVALUE_REFERENCES)
   template<typename Value>
-  BOOST_RV_REF(Value) operator()(Value& x)const{return boost::move(x);}
+  Value&& operator()(Value& x)const{return boost::move(x);}
+#else
+  /* boost::move(x) is a plain Value& if Value has no move emulation */
+
+  template<typename Value>
+  typename mpl::if_c<
+    has_move_emulation_enabled<Value>::value,rv<Value>,Value
+  >::type& operator()(Value& x)const{return boost::move(x);}
+#endif
 };
 
 template <typename Node,typename Allocator>
-- 
2.43.0


From 55a315b470a00d9a35fcd704c951b09da3cd7b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:08 +0000
Subject: [PATCH 09/12] fix: pass arguments to random access unique's predicate
 in the documented order

---
 include/boost/multi_index/detail/rnd_index_ops.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/multi_index/detail/rnd_index_ops.hpp b/include/boost/multi_index/detail/rnd_index_ops.hpp
index ce88e26..01e644a 100644
--- a/include/boost/multi_index/detail/rnd_index_ops.hpp
+++ b/include/boost/multi_index/detail/rnd_index_ops.hpp
@@ -64,8 +64,8 @@ Node* random_access_index_unique(
   if(first!=last){
     for(;++first!=last;){
       if(!binary_pred(
-           const_cast<const value_type&>(Node::from_impl(*res)->value()),
-           const_cast<const value_type&>(Node::from_impl(*first)->value()))){
+           const_cast<const value_type&>(Node::from_impl(*first)->value()),
+           const_cast<const value_type&>(Node::from_impl(*res)->value()))){
         ++res;
         if(first!=res){
           std::swap(*first,*res);
-- 
2.43.0


From 03f809673fe26c172e26f89fa38b53c4d1125418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:17 +0000
Subject: [PATCH 10/12] fix: take the address of elements with addressof in
 rearrange

---
 include/boost/multi_index/random_access_index.hpp | 3 ++-
 include/boost/multi_index/sequenced_index.hpp     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/multi_index/random_access_index.hpp b/include/boost/multi_index/random_access_index.hpp
index c4130eb..e17abe0 100644
--- a/include/boost/multi_index/random_access_index.hpp
+++ b/include/boost/multi_index/random_access_index.hpp
@@ -743,7 +743,8 @@ public:
     for(node_impl_ptr_pointer p0=ptrs.begin(),p0_end=ptrs.end();
         p0!=p0_end;++first,++p0){
       const value_type& v1=*first;
-      node_impl_ptr_pointer p1=node_from_value<index_node_type>(&v1)->up();
+      node_impl_ptr_pointer p1=node_from_value<index_node_type>(
+        boost::addressof(v1))->up();
 
       std::swap(*p0,*p1);
       (*p0)->up()=p0;
diff --git a/include/boost/multi_index/sequenced_index.hpp b/include/boost/multi_index/sequenced_index.hpp
index 41bf2ae..228dfda 100644
--- a/include/boost/multi_index/sequenced_index.hpp
+++ b/include/boost/multi_index/sequenced_index.hpp
@@ -663,7 +663,8 @@ public:
     index_node_type* pos=header();
     for(size_type s=size();s--;){
       const value_type& v=*first++;
-      relink(pos,node_from_value<index_node_type>(&v));
+      relink(pos,node_from_value<index_node_type>(
+        boost::addressof(v)));
     }
   }
 
-- 
2.43.0


From c0da92c908dcc377c0f6d02fec6612eadc7b926c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:53 +0000
Subject: [PATCH 11/12] fix: copy assignment swapped allocators that do not
 propagate

With propagate_on_container_copy_assignment false the temporary copy is made
with this container's own allocator, so there is nothing to swap; swapping
regardless required such allocators to be assignable, which they need not be
(std::pmr::polymorphic_allocator is not).
---
 include/boost/multi_index_container.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/boost/multi_index_container.hpp b/include/boost/multi_index_container.hpp
index be369d6..35d94cb 100644
--- a/include/boost/multi_index_container.hpp
+++ b/include/boost/multi_index_container.hpp
@@ -352,7 +352,11 @@ public:
       x,
       node_alloc_traits::propagate_on_container_copy_assignment::value?
         x.get_allocator():this->get_allocator());
-    swap_(y,boost::true_type() /* swap_allocators */);
+    swap_(
+      y,
+      boost::integral_constant<
+        bool,
+        node_alloc_traits::propagate_on_container_copy_assignment::value>());
     return *this;
   }
 #endif
@@ -364,7 +368,11 @@ public:
       x,
       node_alloc_traits::propagate_on_container_copy_assignment::value?
         x.get_allocator():this->get_allocator());
-    swap_(y,boost::true_type() /* swap_allocators */);
+    swap_(
+      y,
+      boost::integral_constant<
+        bool,
+        node_alloc_traits::propagate_on_container_copy_assignment::value>());
     return *this;
   }
 
-- 
2.43.0


From 5773eab208579de8f1912c8486fe8f8cc78e7e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:53 +0000
Subject: [PATCH 12/12] fix: move assignment and node handles required
 assignable allocators before C++17

Without if constexpr, move assignment of containers and move assignment
and swap of node handles instantiated the swap or the assignment of
allocators that do not propagate.
---
 .../boost/multi_index/detail/node_handle.hpp  | 35 +++++++++++--------
 include/boost/multi_index_container.hpp       |  6 +++-
 2 files changed, 26 insertions(+), 15 deletions(-)

diff --git a/include/boost/multi_index/detail/node_handle.hpp b/include/boost/multi_index/detail/node_handle.hpp
index d25c73b..f75fefb 100644
--- a/include/boost/multi_index/detail/node_handle.hpp
+++ b/include/boost/multi_index/detail/node_handle.hpp
@@ -23,6 +23,7 @@
 #include <boost/multi_index/detail/allocator_traits.hpp>
 #include <boost/type_traits/aligned_storage.hpp>
 #include <boost/type_traits/alignment_of.hpp> 
+#include <boost/type_traits/integral_constant.hpp>
 #include <new>
 
 #if !defined(BOOST_NO_SFINAE)
@@ -40,8 +41,6 @@ namespace detail{
 /* Node handle template class following [container.node] specs.
  */
 
-#include <boost/multi_index/detail/define_if_constexpr_macro.hpp>
-
 template<typename Node,typename Allocator>
 class node_handle
 {
@@ -78,10 +77,11 @@ public:
       if(!empty()){
         delete_node();
         if(!x.empty()){
-          BOOST_MULTI_INDEX_IF_CONSTEXPR(
-            alloc_traits::propagate_on_container_move_assignment::value){
-            move_assign_allocator(boost::move(x));
-          }
+          move_assign_allocator(
+            boost::move(x),
+            boost::integral_constant<
+              bool,
+              alloc_traits::propagate_on_container_move_assignment::value>());
           x.destroy_allocator();
         }
         else{
@@ -120,11 +120,10 @@ public:
   {
     if(!empty()){
       if(!x.empty()){
-        BOOST_MULTI_INDEX_IF_CONSTEXPR(
-          alloc_traits::propagate_on_container_swap::value){
-          using std::swap;
-          swap(*allocator_ptr(),*x.allocator_ptr());
-        }
+        swap_allocator(
+          x,
+          boost::integral_constant<
+            bool,alloc_traits::propagate_on_container_swap::value>());
       }
       else{
         x.move_construct_allocator(boost::move(*this));
@@ -183,11 +182,21 @@ private:
       allocator_type(boost::move(*x.allocator_ptr()));
   }
 
-  void move_assign_allocator(BOOST_RV_REF(node_handle) x)
+  void move_assign_allocator(BOOST_RV_REF(node_handle) x,boost::true_type)
   {
     *allocator_ptr()=boost::move(*x.allocator_ptr());
   }
 
+  void move_assign_allocator(BOOST_RV_REF(node_handle),boost::false_type){}
+
+  void swap_allocator(node_handle& x,boost::true_type)
+  {
+    using std::swap;
+    swap(*allocator_ptr(),*x.allocator_ptr());
+  }
+
+  void swap_allocator(node_handle&,boost::false_type){}
+
   void destroy_allocator(){allocator_ptr()->~allocator_type();}
 
   void delete_node()
@@ -210,8 +219,6 @@ private:
   >::type                               space;
 };
 
-#include <boost/multi_index/detail/undef_if_constexpr_macro.hpp>
-
 /* node handle insert return type template class following
  * [container.insert.return] specs.
  */
diff --git a/include/boost/multi_index_container.hpp b/include/boost/multi_index_container.hpp
index 35d94cb..44a77f5 100644
--- a/include/boost/multi_index_container.hpp
+++ b/include/boost/multi_index_container.hpp
@@ -383,7 +383,11 @@ public:
 
     BOOST_MULTI_INDEX_IF_CONSTEXPR(
       node_alloc_traits::propagate_on_container_move_assignment::value){
-      swap_(x,boost::true_type() /* swap_allocators */);
+      swap_(
+        x,
+        boost::integral_constant<
+          bool,
+          node_alloc_traits::propagate_on_container_move_assignment::value>());
     }
     else if(this->get_allocator()==x.get_allocator()){
       swap_(x,boost::false_type() /* swap_allocators */);
-- 
2.43.0

