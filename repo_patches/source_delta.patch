From 7041788255474b4c22d1eb993c5cb7c5b15e711c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:42 +0000
Subject: [PATCH 01/58] fix: list::clear left head_.prev pointing at the last
 deleted node

---
 ttl/list.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ttl/list.hpp b/ttl/list.hpp
index 565cdc5..9a4b4a6 100644
--- a/ttl/list.hpp
+++ b/ttl/list.hpp
@@ -404,6 +404,7 @@ namespace ttl
          head_.next = head_.next->next;
          delete p;
       }
+      head_.init();
    }
    template<typename T>
    typename list<T>::iterator list<T>::erase(const_iterator pos, const_iterator last)
-- 
2.43.0


From ee220975c6da8135f1d4758fc4cbe069d0fd9885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:42 +0000
Subject: [PATCH 02/58] fix: list::resize(0) left the list unchanged

---
 ttl/list.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ttl/list.hpp b/ttl/list.hpp
index 9a4b4a6..489fc2b 100644
--- a/ttl/list.hpp
+++ b/ttl/list.hpp
@@ -360,6 +360,8 @@ namespace ttl
    template<typename T>
    void list<T>::resize(size_type newsize)
    {
+      if (!newsize)
+         clear();
       size_type siz = 0;
       list_node *p;
       for (p = head_.next; p != &head_; p = p->next)
@@ -379,6 +381,8 @@ namespace ttl
    template<typename T>
    void list<T>::resize(size_type newsize, const T &value)
    {
+      if (!newsize)
+         clear();
       size_type siz = 0;
       list_node *p;
       for (p = head_.next; p != &head_; p = p->next)
-- 
2.43.0


From 6c1fa71a407b6237c5a5c6ab521faf498934560f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:42 +0000
Subject: [PATCH 03/58] fix: list::splice of an empty range, or of a range
 before its own end, corrupted the ring

---
 ttl/list.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/list.hpp b/ttl/list.hpp
index 489fc2b..29b3973 100644
--- a/ttl/list.hpp
+++ b/ttl/list.hpp
@@ -35,6 +35,8 @@ namespace ttl
 
       void splice(list_node *first, list_node *last)
       {
+         if (first == last || this == last)
+            return;
          last->prev->next = this;
          first->prev->next = last;
          this->prev->next = first;
-- 
2.43.0


From 9f3c6e11b9975fb57e9ed0cff0b388546efbe01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:42 +0000
Subject: [PATCH 04/58] fix: list::swap of two empty lists linked the first one
 to the second

---
 ttl/list.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/list.hpp b/ttl/list.hpp
index 29b3973..f88235a 100644
--- a/ttl/list.hpp
+++ b/ttl/list.hpp
@@ -78,6 +78,8 @@ namespace ttl
                t = a, a = b, b = t; // swap
             }
          }
+         else if (b == b->next)
+            return;
          a->prev = b->prev;
          a->next = b->next;
          b->prev->next = b->next->prev = a;
-- 
2.43.0


From 4cb6de0c8a351d39c3d88ce49c91c22dbd3db272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:42 +0000
Subject: [PATCH 05/58] fix: list self-assignment lost the contents

---
 ttl/list.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/list.hpp b/ttl/list.hpp
index f88235a..8372449 100644
--- a/ttl/list.hpp
+++ b/ttl/list.hpp
@@ -213,6 +213,8 @@ namespace ttl
 
       list &operator=(const list &other)
       {
+         if (this == &other)
+            return *this;
          clear();
          insert(begin(), other.cbegin(), other.cend());
          return *this;
-- 
2.43.0


From 08b6a83255461f2ef2a8848547abafceabcb6da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:42 +0000
Subject: [PATCH 06/58] fix: list::merge with itself corrupted the ring

---
 ttl/list.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ttl/list.hpp b/ttl/list.hpp
index 8372449..b1b1d54 100644
--- a/ttl/list.hpp
+++ b/ttl/list.hpp
@@ -480,6 +480,8 @@ namespace ttl
    template<typename T>
    void list<T>::merge(list &other) // merge sorted lists
    {
+      if (this == &other)
+         return;
       list_node *o = other.head_.next;
       for (list_node *i = head_.next; o != &other.head_ && i != &head_;)
       {
@@ -501,6 +503,8 @@ namespace ttl
    template<typename Compare>
    void list<T>::merge(list &other, Compare cmp)
    {
+      if (this == &other)
+         return;
       list_node *o = other.head_.next;
       for (list_node *i = head_.next; o != &other.head_ && i != &head_;)
       {
-- 
2.43.0


From e981b4cc5166a7ff789a6588a75d8c79d80e1cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:42 +0000
Subject: [PATCH 07/58] fix: list::remove of a value stored in the list used it
 after deleting it

---
 ttl/list.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ttl/list.hpp b/ttl/list.hpp
index b1b1d54..99e5b69 100644
--- a/ttl/list.hpp
+++ b/ttl/list.hpp
@@ -432,12 +432,17 @@ namespace ttl
    template<typename T>
    void list<T>::remove(const T &value)
    {
+      node *own = 0; // value may be an element of this list: delete its node last
       for (list_node *p = head_.next, *n = p->next; p != &head_; p = n, n = n->next)
          if (static_cast<const node *>(p)->value == value)
          {
             p->unlink();
-            delete static_cast<node *>(p);
+            if (&static_cast<node *>(p)->value == &value)
+               own = static_cast<node *>(p);
+            else
+               delete static_cast<node *>(p);
          }
+      delete own;
    }
    template<typename T>
    template<typename Predicate>
-- 
2.43.0


From acaa6783ad134bfc9580e2dfed45210ca018d236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:43 +0000
Subject: [PATCH 08/58] fix: list::erase of an empty range erased the elements
 up to the header and the header itself

---
 ttl/list.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/list.hpp b/ttl/list.hpp
index 99e5b69..2b8e870 100644
--- a/ttl/list.hpp
+++ b/ttl/list.hpp
@@ -420,6 +420,8 @@ namespace ttl
    typename list<T>::iterator list<T>::erase(const_iterator pos, const_iterator last)
    {
       list_node *p = const_cast<list_node *>(pos.head_);
+      if (p == last.head_)
+         return iterator(p);
       while (p->next != last.head_)
       {
          node *next = static_cast<node *>(p->next);
-- 
2.43.0


From a04366982f00b1327f94cb109a7484eaf00f1263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:59 +0000
Subject: [PATCH 09/58] fix: splicing the element at pos after itself linked
 the node to itself

---
 ttl/slist_node.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/slist_node.hpp b/ttl/slist_node.hpp
index 1c9b74a..19aef9f 100644
--- a/ttl/slist_node.hpp
+++ b/ttl/slist_node.hpp
@@ -30,6 +30,8 @@ namespace ttl
       void splice_after(slist_node *o)
       {
          slist_node *n = o->next;
+         if (n == this)
+            return;
          o->next = n->next;
          n->next = next;
          next = n;
-- 
2.43.0


From 1163319e9f7b74779a8e85d3c4388dff8eea7784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:59 +0000
Subject: [PATCH 10/58] fix: slist_node::splice_after of an empty range walked
 past its end and lost the rest of the list

---
 ttl/slist_node.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/slist_node.hpp b/ttl/slist_node.hpp
index 19aef9f..3435390 100644
--- a/ttl/slist_node.hpp
+++ b/ttl/slist_node.hpp
@@ -38,6 +38,8 @@ namespace ttl
       }
       void splice_after(slist_node *f, slist_node *l)
       {
+         if (f == this || f->next == l)
+            return;
          slist_node *n = next;
          next = f->next;
          slist_node *o = f;
-- 
2.43.0


From cba6cbda9445a41c3e10fd33096b3492c6d705a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:59 +0000
Subject: [PATCH 11/58] fix: forward_list self-assignment lost the contents

---
 ttl/forward_list.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/forward_list.hpp b/ttl/forward_list.hpp
index df44e9a..86615ac 100644
--- a/ttl/forward_list.hpp
+++ b/ttl/forward_list.hpp
@@ -108,6 +108,8 @@ namespace ttl
 
       forward_list &operator=(const forward_list &other)
       {
+         if (this == &other)
+            return *this;
          clear();
          insert_after(cbefore_begin(), other.cbegin(), other.cend());
          return *this;
-- 
2.43.0


From 042bde2fedb0887bc7ec191ee1ea5c7d2949cd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:59 +0000
Subject: [PATCH 12/58] fix: backward_list self-assignment lost the contents

---
 ttl/backward_list.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/backward_list.hpp b/ttl/backward_list.hpp
index f46213f..d70acf2 100644
--- a/ttl/backward_list.hpp
+++ b/ttl/backward_list.hpp
@@ -120,6 +120,8 @@ namespace ttl
 
       backward_list &operator=(const backward_list &other)
       {
+         if (this == &other)
+            return *this;
          clear();
          insert_after(cbefore_begin(), other.cbegin(), other.cend());
          return *this;
-- 
2.43.0


From 2243796ebf128341f75ab47d3eed90ba19360d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:59 +0000
Subject: [PATCH 13/58] fix: lazy_queue self-assignment lost the contents

---
 ttl/lazy_queue.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/lazy_queue.hpp b/ttl/lazy_queue.hpp
index 446ccec..b9712cb 100644
--- a/ttl/lazy_queue.hpp
+++ b/ttl/lazy_queue.hpp
@@ -144,6 +144,8 @@ namespace ttl
 
       lazy_queue &operator=(const lazy_queue &other)
       {
+         if (this == &other)
+            return *this;
          clear();
          insert_after(cbefore_begin(), other.cbegin(), other.cend());
          return *this;
-- 
2.43.0


From aacd7dc15b38c4ccb2d46bc7f9ca21ef7fe5d28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:59 +0000
Subject: [PATCH 14/58] fix: backward_list::insert_after of a range at the end
 left the tail before the inserted elements

---
 ttl/backward_list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/backward_list.hpp b/ttl/backward_list.hpp
index d70acf2..d308309 100644
--- a/ttl/backward_list.hpp
+++ b/ttl/backward_list.hpp
@@ -268,7 +268,7 @@ namespace ttl
       for ( ; first != last; ++first)
          p = p->insert_after(new node(*first));
       if (pn == tail_)
-         tail_ = pn;
+         tail_ = p;
    }
    template<typename T>
    void backward_list<T>::clear()
-- 
2.43.0


From f236bc2cb74e1c42167b088d3a79b15a5c07738c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:00 +0000
Subject: [PATCH 15/58] fix: backward_list::pop_front of the last element left
 the tail pointing at the deleted node

---
 ttl/backward_list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/backward_list.hpp b/ttl/backward_list.hpp
index d308309..ba290f3 100644
--- a/ttl/backward_list.hpp
+++ b/ttl/backward_list.hpp
@@ -175,7 +175,7 @@ namespace ttl
       void pop_front()
       {
          delete static_cast<node *>(head_.unlink_next());
-         if (empty())
+         if (!head_.next)
             tail_ = &head_;
       }
 
-- 
2.43.0


From 2c4edae61e0c0627e378b45bd67fc5cdd81af29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:00 +0000
Subject: [PATCH 16/58] fix: backward_list::swap with an empty list left the
 tail pointing at the head of the other list

---
 ttl/backward_list.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ttl/backward_list.hpp b/ttl/backward_list.hpp
index ba290f3..517ad34 100644
--- a/ttl/backward_list.hpp
+++ b/ttl/backward_list.hpp
@@ -221,6 +221,10 @@ namespace ttl
       {
          ttl::swap(head_.next, other.head_.next);
          ttl::swap(tail_, other.tail_);
+         if (!head_.next)
+            tail_ = &head_;
+         if (!other.head_.next)
+            other.tail_ = &other.head_;
       }
 
       void clear();
-- 
2.43.0


From 07bfb53299ec2768dc5521a56096857be949734c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:00 +0000
Subject: [PATCH 17/58] fix: lazy_queue::swap with an empty queue left the tail
 pointing at the head of the other queue

---
 ttl/lazy_queue.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ttl/lazy_queue.hpp b/ttl/lazy_queue.hpp
index b9712cb..a995462 100644
--- a/ttl/lazy_queue.hpp
+++ b/ttl/lazy_queue.hpp
@@ -209,6 +209,10 @@ namespace ttl
       {
          ttl::swap(head_.next, other.head_.next);
          ttl::swap(tail_, other.tail_);
+         if (!head_.next)
+            tail_ = &head_;
+         if (!other.head_.next)
+            other.tail_ = &other.head_;
       }
 
       void clear();
-- 
2.43.0


From 52e381d571efdc2e013373f393a2aeb34240323a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:00 +0000
Subject: [PATCH 18/58] fix: backward_list::reverse of an empty list set a null
 tail

---
 ttl/backward_list.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ttl/backward_list.hpp b/ttl/backward_list.hpp
index 517ad34..bedfefe 100644
--- a/ttl/backward_list.hpp
+++ b/ttl/backward_list.hpp
@@ -294,7 +294,8 @@ namespace ttl
    template<typename T>
    void backward_list<T>::reverse()
    {
-      tail_ = head_.next;
+      if (head_.next)
+         tail_ = head_.next;
       head_.reverse();
    }
 #if TODO
-- 
2.43.0


From 3192486f35ee6c1e5ea11f895b115ac7bea0e410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:00 +0000
Subject: [PATCH 19/58] fix: lazy_queue::cleanup destroyed the elements of the
 pooled nodes a second time

---
 ttl/lazy_queue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/lazy_queue.hpp b/ttl/lazy_queue.hpp
index a995462..ecbf7ff 100644
--- a/ttl/lazy_queue.hpp
+++ b/ttl/lazy_queue.hpp
@@ -139,7 +139,7 @@ namespace ttl
       void cleanup()
       {
          while (dead_.next)
-            ::delete(static_cast<node *>(dead_.unlink_next()));
+            ::operator delete(static_cast<node *>(dead_.unlink_next()));
       }
 
       lazy_queue &operator=(const lazy_queue &other)
-- 
2.43.0


From a5536324372bb676dfb7a9faeb92e8b5da38d871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:13 +0000
Subject: [PATCH 20/58] fix: vector::erase of an empty range copied the
 following elements onto themselves and destroyed them

---
 ttl/vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/vector.hpp b/ttl/vector.hpp
index fc42799..07f9490 100644
--- a/ttl/vector.hpp
+++ b/ttl/vector.hpp
@@ -305,6 +305,8 @@ namespace ttl
    {
       difference_type off = first - begin();
       difference_type lastoff = last - begin();
+      if (off == lastoff)
+         return begin() + off;
       for (T *f = elements_ + off, *l = elements_ + lastoff; f != l;)
          (--l)->~T();
       T *o = elements_ + off;
-- 
2.43.0


From fc1a5d6696927c523d4dd943caebfa891372b0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:13 +0000
Subject: [PATCH 21/58] fix: vector self-assignment emptied the vector

---
 ttl/vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/vector.hpp b/ttl/vector.hpp
index 07f9490..0df31bc 100644
--- a/ttl/vector.hpp
+++ b/ttl/vector.hpp
@@ -208,6 +208,8 @@ namespace ttl
    template<typename T>
    vector<T> &vector<T>::operator=(const vector &other)
    {
+      if (this == &other)
+         return *this;
       clear();
       reserve(other.capacity());
       for (const_iterator i = other.cbegin(); i != other.cend(); ++i)
-- 
2.43.0


From 2dfc9fb43a580db0bd0e3542c016a430c04accad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:13 +0000
Subject: [PATCH 22/58] fix: vector::insert of an own element read it after it
 was moved and destroyed

---
 ttl/vector.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ttl/vector.hpp b/ttl/vector.hpp
index 0df31bc..c0ac18c 100644
--- a/ttl/vector.hpp
+++ b/ttl/vector.hpp
@@ -121,13 +121,15 @@ namespace ttl
 
       iterator insert(const_iterator pos, size_type n, const value_type &x)
       {
-         vc_counter_args args(x);
+         const value_type value(x); // x may be an element of this vector
+         vc_counter_args args(value);
          return insert_values(pos, n, &ttl::vector<T>::vc_counter, args);
       }
 
       iterator insert(const_iterator pos, const value_type &x)
       {
-         vc_counter_args args(x);
+         const value_type value(x); // x may be an element of this vector
+         vc_counter_args args(value);
          return insert_values(pos, 1, &ttl::vector<T>::vc_counter, args);
       }
 
-- 
2.43.0


From adde96b9b807a2af680392f392e865380554df7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:13 +0000
Subject: [PATCH 23/58] fix: fixed_vector::erase of an empty range copied the
 following elements onto themselves and destroyed them

---
 ttl/fixed_vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/fixed_vector.hpp b/ttl/fixed_vector.hpp
index 61099fe..b5f991c 100644
--- a/ttl/fixed_vector.hpp
+++ b/ttl/fixed_vector.hpp
@@ -264,6 +264,8 @@ namespace ttl
    {
       difference_type off = first - begin();
       difference_type lastoff = last - begin();
+      if (off == lastoff)
+         return begin() + off;
       for (T *f = elements() + off, *l = elements() + lastoff; f != l;)
          (--l)->~T();
       T *o = elements() + off;
-- 
2.43.0


From d139773e4382c3c93c756ac58cbe3c4563ccbe0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:13 +0000
Subject: [PATCH 24/58] fix: fixed_vector self-assignment emptied the
 fixed_vector

---
 ttl/fixed_vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/fixed_vector.hpp b/ttl/fixed_vector.hpp
index b5f991c..eead4e3 100644
--- a/ttl/fixed_vector.hpp
+++ b/ttl/fixed_vector.hpp
@@ -167,6 +167,8 @@ namespace ttl
    template<typename T, const unsigned int N>
    fixed_vector<T,N> &fixed_vector<T,N>::operator=(const fixed_vector &other)
    {
+      if (this == &other)
+         return *this;
       clear();
       for (const_iterator i = other.cbegin(); i != other.cend(); ++i)
          ::new(last_++) T(*i);
-- 
2.43.0


From bcab4fb310e923ffc75c1ae31eabe0fab7831b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:13 +0000
Subject: [PATCH 25/58] fix: fixed_vector::swap with a smaller fixed_vector
 swapped raw storage

---
 ttl/fixed_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/fixed_vector.hpp b/ttl/fixed_vector.hpp
index eead4e3..5121493 100644
--- a/ttl/fixed_vector.hpp
+++ b/ttl/fixed_vector.hpp
@@ -286,7 +286,7 @@ namespace ttl
       const bool this_a = this->size() < x.size();
       fixed_vector &a = this_a ? *this: x;
       fixed_vector &b = this_a ? x: *this;
-      size_type minsiz = this_a ? a.size(): b.size();
+      size_type minsiz = a.size();
       ttl::swap_ranges(a.elements(), a.elements() + minsiz, b.elements());
       T *e = b.elements() + minsiz;
       while (e < b.last_)
-- 
2.43.0


From cb47dc8a7303c61928e9b2c90e8531913ac3417c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:13 +0000
Subject: [PATCH 26/58] fix: fixed_vector::insert of an own element read it
 after it was moved and destroyed

---
 ttl/fixed_vector.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ttl/fixed_vector.hpp b/ttl/fixed_vector.hpp
index 5121493..d907f03 100644
--- a/ttl/fixed_vector.hpp
+++ b/ttl/fixed_vector.hpp
@@ -200,6 +200,7 @@ namespace ttl
    template<typename T, const unsigned int N>
    typename fixed_vector<T,N>::iterator fixed_vector<T,N>::insert(const_iterator pos, size_type n, const value_type &x)
    {
+      const value_type value(x); // x may be an element of this fixed_vector
       difference_type dist = pos - cbegin();
       if (n)
       {
@@ -218,12 +219,12 @@ namespace ttl
                i->~T();
             }
             for (o = p; n-- && o < end_of_elements();)
-               ::new(o++) T(x);
+               ::new(o++) T(value);
          }
          else
          {
             for (o = last_; n-- && !full(); )
-               ::new(last_++) T(x);
+               ::new(last_++) T(value);
          }
       }
       return begin() + dist;
-- 
2.43.0


From a07dd9b1f146464a200684c26d10cafadf6d8079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:38 +0000
Subject: [PATCH 27/58] fix: search_n with a predicate tests the first
 candidate with the predicate

---
 ttl/algorithm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/algorithm.hpp b/ttl/algorithm.hpp
index 290cf8d..e62372a 100644
--- a/ttl/algorithm.hpp
+++ b/ttl/algorithm.hpp
@@ -135,7 +135,7 @@ namespace ttl
 
       for(; first != last; ++first)
       {
-         if (*first == value)
+         if (pred(*first, value))
          {
             ForwardIt candidate = first;
             for (Size c = 1;; ++c)
-- 
2.43.0


From b5286181fe63016d40db04b8e69f93ee003c547a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:38 +0000
Subject: [PATCH 28/58] fix: min returns its first argument when the two are
 equivalent

---
 ttl/algorithm.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ttl/algorithm.hpp b/ttl/algorithm.hpp
index e62372a..e310f2d 100644
--- a/ttl/algorithm.hpp
+++ b/ttl/algorithm.hpp
@@ -660,13 +660,13 @@ namespace ttl
    template<class T>
    inline ttl_constexpr const T &min(const T &a, const T &b)
    {
-      return a < b ? a: b;
+      return b < a ? b: a;
    }
 
    template<class T, class Compare>
    inline ttl_constexpr const T &min(const T &a, const T &b, Compare comp)
    {
-      return comp(a, b) ? a: b;
+      return comp(b, a) ? b: a;
    }
 
    template<class T>
-- 
2.43.0


From 2408a892238208e432babbbbd8fd70d4fb28581b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:13 +0000
Subject: [PATCH 29/58] fix: sorted_vector_map::count was inverted

---
 ttl/sorted_vector_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/sorted_vector_map.hpp b/ttl/sorted_vector_map.hpp
index 487b685..592a00a 100644
--- a/ttl/sorted_vector_map.hpp
+++ b/ttl/sorted_vector_map.hpp
@@ -158,7 +158,7 @@ namespace ttl
       iterator find(const KT &key);
       const_iterator find(const KT &key) const;
 
-      size_type count(const KT &key) const { return find(key) == cend(); }
+      size_type count(const KT &key) const { return find(key) != cend(); }
 
       ttl::pair<iterator,iterator> equal_range(const KT &key)
       {
-- 
2.43.0


From cd2146f499eec969e73bebef66d5e7d2e10c7bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:13 +0000
Subject: [PATCH 30/58] fix: sorted_vector_map::equal_range of an absent key
 returned the end instead of its position

---
 ttl/sorted_vector_map.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ttl/sorted_vector_map.hpp b/ttl/sorted_vector_map.hpp
index 592a00a..a05b5f0 100644
--- a/ttl/sorted_vector_map.hpp
+++ b/ttl/sorted_vector_map.hpp
@@ -162,17 +162,17 @@ namespace ttl
 
       ttl::pair<iterator,iterator> equal_range(const KT &key)
       {
-         iterator i1 = find(key);
+         iterator i1 = lower_bound(key);
          iterator i2 = i1;
-         if (i2 != end())
+         if (i2 != end() && i2->first == key)
             ++i2;
          return ttl::make_pair(i1, i2);
       }
       ttl::pair<const_iterator,const_iterator> equal_range(const KT &key) const
       {
-         const_iterator i1 = find(key);
+         const_iterator i1 = lower_bound(key);
          const_iterator i2 = i1;
-         if (i2 != cend())
+         if (i2 != cend() && i2->first == key)
             ++i2;
          return ttl::make_pair(i1, i2);
       }
-- 
2.43.0


From b175ef9804a70e5308305c67ef21724ae8678290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:29 +0000
Subject: [PATCH 31/58] fix: sorted_vector_map::insert into a full map with one
 slot wrote past the slots

---
 ttl/sorted_vector_map.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ttl/sorted_vector_map.hpp b/ttl/sorted_vector_map.hpp
index a05b5f0..7f9497f 100644
--- a/ttl/sorted_vector_map.hpp
+++ b/ttl/sorted_vector_map.hpp
@@ -280,8 +280,8 @@ namespace ttl
          value_type **i;
          size_type newcapacity = end_of_elements_ - elements_;
          newcapacity += newcapacity/2; // temporarily funny...
-         if (!newcapacity)
-            newcapacity = 2;
+         if (newcapacity < 2)
+            newcapacity = 2; // a capacity of 1 does not grow by its half
          value_type **newelements = o = new value_type *[newcapacity];
          for (i = elements_; i != pos.ptr_;)
             *o++ = *i++;
-- 
2.43.0


From b80ae1fdcefb6ff81a5a909c5ced2516024b2345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:33 +0000
Subject: [PATCH 32/58] fix: vector_map::count never returned for a key that is
 present

---
 ttl/vector_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/vector_map.hpp b/ttl/vector_map.hpp
index 711b91d..6b692da 100644
--- a/ttl/vector_map.hpp
+++ b/ttl/vector_map.hpp
@@ -69,7 +69,7 @@ namespace ttl
       size_type count(const KT &key) const
       {
          size_type n = 0;
-         for (const_iterator i = begin(); (i = find_key(i, key)) != end();)
+         for (const_iterator i = begin(); (i = find_key(i, key)) != end(); ++i)
             ++n;
          return n;
       }
-- 
2.43.0


From 7252dcf0160092383e235d8dc47ddababceaf108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:13 +0000
Subject: [PATCH 33/58] fix: bitset::set(pos, false) clears the bit

---
 ttl/bitset.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ttl/bitset.hpp b/ttl/bitset.hpp
index 9f95580..21be03d 100644
--- a/ttl/bitset.hpp
+++ b/ttl/bitset.hpp
@@ -123,9 +123,7 @@ namespace ttl
       }
       bitset<N> &set(ttl::size_t pos, bool value)
       {
-         const slot_type mask = (slot_type)value << bits_bit(pos);
-         *bits_slot(pos) = (*bits_slot(pos) & ~mask) | mask;
-         return *this;
+         return value ? set(pos): reset(pos);
       }
 
       bitset<N> &reset()
-- 
2.43.0


From 70e21999c56310d318b0693e15dcd4a169364c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:13 +0000
Subject: [PATCH 34/58] fix: bitset::reference copy assignment keeps the other
 bits of the word

---
 ttl/bitset.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ttl/bitset.hpp b/ttl/bitset.hpp
index 21be03d..2d1018d 100644
--- a/ttl/bitset.hpp
+++ b/ttl/bitset.hpp
@@ -71,8 +71,7 @@ namespace ttl
          ~reference() {}
          reference& operator=(const reference &other)
          {
-            *bits_ = (*bits_ & mask_) | (-other.operator bool() & mask_);
-            return *this;
+            return operator=(other.operator bool());
          }
          operator bool() const { return (*bits_ & mask_) != 0; }
          bool operator~() const { return (*bits_ & mask_) == 0; }
-- 
2.43.0


From dbe5baf35206781e1d229fa053733219a94381c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:13 +0000
Subject: [PATCH 35/58] fix: bitset assignment from a smaller bitset ignores
 the bits past its size

---
 ttl/bitset.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/bitset.hpp b/ttl/bitset.hpp
index 2d1018d..72bdbbc 100644
--- a/ttl/bitset.hpp
+++ b/ttl/bitset.hpp
@@ -281,6 +281,8 @@ namespace ttl
       const ttl::size_t n = N < M ? capacity()/(sizeof(slot_type) * CHAR_BIT): other.capacity()/(sizeof(slot_type) * CHAR_BIT);
       for (i = 0; i < n; ++i)
          bits_[i] = other.slot(i);
+      if (M < N && n && other.capacity() != M)
+         bits_[n - 1] &= other.last_bits();
       for ( ; i < sizeof(bits_)/sizeof(*bits_); ++i)
          bits_[i] = 0;
       return *this;
-- 
2.43.0


From 86bdfde17cd75255826f2e19b5d550aa4824f490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:13 +0000
Subject: [PATCH 36/58] fix: bitset string constructor stops at the size of the
 bitset

---
 ttl/bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/bitset.hpp b/ttl/bitset.hpp
index 72bdbbc..fddfebe 100644
--- a/ttl/bitset.hpp
+++ b/ttl/bitset.hpp
@@ -195,7 +195,7 @@ namespace ttl
    bitset<N>::bitset(const char *bits, ttl::size_t n, char zero, char one)
    {
       ttl::size_t i;
-      for (i = 0; i < n; ++i)
+      for (i = 0; i < n && i < N; ++i)
          if (!(bits[i] == zero || bits[i] == one))
             break;
       for (ttl::size_t s = i / (sizeof(slot_type) * CHAR_BIT); s < sizeof(bits_)/sizeof(*bits_); ++s)
-- 
2.43.0


From f01534d6fae8d45f30bbc67697b90af9170cee65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:13 +0000
Subject: [PATCH 37/58] fix: bitset<0> integer constructors do not write past
 the object

---
 ttl/bitset.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ttl/bitset.hpp b/ttl/bitset.hpp
index fddfebe..4735d33 100644
--- a/ttl/bitset.hpp
+++ b/ttl/bitset.hpp
@@ -166,7 +166,8 @@ namespace ttl
    template<ttl::size_t N>
    inline bitset<N>::bitset(unsigned long bits)
    {
-      bits_[0] = bits;
+      if (N)
+         bits_[0] = bits;
       for (unsigned i = 1; i < sizeof(bits_)/sizeof(*bits_); ++i)
          bits_[i] = 0;
    }
@@ -180,7 +181,8 @@ namespace ttl
          bits >>= sizeof(slot_type) * CHAR_BIT;
       }
 #else
-      bits_[0] = bits;
+      if (N)
+         bits_[0] = bits;
       for (unsigned i = 1; i < sizeof(bits_)/sizeof(*bits_); ++i)
          bits_[i] = 0;
 #endif
-- 
2.43.0


From 5d7d62fd93eeca293e5ac9d138554044402e776d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:13 +0000
Subject: [PATCH 38/58] fix: bitset::reference to a position past the size
 touches no memory

---
 ttl/bitset.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ttl/bitset.hpp b/ttl/bitset.hpp
index 4735d33..fb759c5 100644
--- a/ttl/bitset.hpp
+++ b/ttl/bitset.hpp
@@ -65,7 +65,8 @@ namespace ttl
       public:
          reference& operator=(bool v)
          {
-            *bits_ = (*bits_ & ~mask_) | (-v & mask_);
+            if (mask_)
+               *bits_ = (*bits_ & ~mask_) | (-v & mask_);
             return *this;
          }
          ~reference() {}
@@ -73,9 +74,9 @@ namespace ttl
          {
             return operator=(other.operator bool());
          }
-         operator bool() const { return (*bits_ & mask_) != 0; }
-         bool operator~() const { return (*bits_ & mask_) == 0; }
-         reference &flip() { *bits_ ^= mask_; return *this; }
+         operator bool() const { return mask_ && (*bits_ & mask_) != 0; }
+         bool operator~() const { return !mask_ || (*bits_ & mask_) == 0; }
+         reference &flip() { if (mask_) *bits_ ^= mask_; return *this; }
       };
 
       bool operator[](ttl::size_t pos) const
-- 
2.43.0


From 271ce6bd74975a707c3b8583bc643ccee41c4c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:49 +0000
Subject: [PATCH 39/58] fix: is_const and is_volatile accept rvalue reference
 types

---
 ttl/type_traits.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ttl/type_traits.hpp b/ttl/type_traits.hpp
index 08ca210..9b8e754 100644
--- a/ttl/type_traits.hpp
+++ b/ttl/type_traits.hpp
@@ -48,6 +48,9 @@ namespace ttl
    template<typename T> struct is_const: is_const_value<T*> {};
    // is_const is false because T is const, not the reference to T.
    template<typename T> struct is_const<T&>: false_type{};
+#if __cplusplus >= 201103L // C++11
+   template<typename T> struct is_const<T&&>: false_type{};
+#endif
 
    // is_volatile<T>::value == true if and only if T has volatile-qualification.
    template<typename T> struct is_volatile_value: false_type {};
@@ -56,6 +59,9 @@ namespace ttl
    template<typename T> struct is_volatile: is_volatile_value<T*> {};
    // is_const is false because T is const, not the reference to T.
    template <typename T> struct is_volatile<T&>: false_type {};
+#if __cplusplus >= 201103L // C++11
+   template <typename T> struct is_volatile<T&&>: false_type {};
+#endif
 
     // is_signed<T>::value == true if and only if T is one of the following types:
     template<class T> struct is_signed: integral_constant<bool,
-- 
2.43.0


From 948aff42525c5989d86ba0cee9114e8e7d720022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:49 +0000
Subject: [PATCH 40/58] fix: upper_bound and equal_range of map and set with an
 absent key

lower_bound already designates the first greater element when the key is
absent: do not skip it.
---
 ttl/map.hpp | 16 ++++++++--------
 ttl/set.hpp | 16 ++++++++--------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/ttl/map.hpp b/ttl/map.hpp
index 1a52ced..59de695 100644
--- a/ttl/map.hpp
+++ b/ttl/map.hpp
@@ -274,17 +274,17 @@ namespace ttl
    typename map<KT,T,Compare>::iterator map<KT,T,Compare>::upper_bound(const KT &key)
    {
       node_type *lo = rbtree_.lower_bound(key);
-      if (lo == rbtree_.end())
-         return end();
-      return iterator(static_cast<node_type *>(rbtree_base::next_node(lo)));
+      if (lo != rbtree_.end() && !Compare()(key, lo->data.first))
+         lo = static_cast<node_type *>(rbtree_base::next_node(lo));
+      return iterator(lo);
    }
    template<typename KT, typename T, typename Compare>
    typename map<KT,T,Compare>::const_iterator map<KT,T,Compare>::upper_bound(const KT &key) const
    {
       const node_type *lo = rbtree_.lower_bound(key);
-      if (lo == rbtree_.end())
-         return end();
-      return const_iterator(static_cast<const node_type *>(rbtree_base::next_node(lo)));
+      if (lo != rbtree_.end() && !Compare()(key, lo->data.first))
+         lo = static_cast<const node_type *>(rbtree_base::next_node(lo));
+      return const_iterator(lo);
    }
 
    template<typename KT, typename T, typename Compare>
@@ -293,7 +293,7 @@ namespace ttl
    {
       node_type *lo = rbtree_.lower_bound(key);
       node_type *up = lo;
-      if (lo != rbtree_.end())
+      if (lo != rbtree_.end() && !Compare()(key, lo->data.first))
          up = static_cast<node_type *>(rbtree_base::next_node(lo));
       return pair<iterator, iterator>(iterator(lo), iterator(up));
    }
@@ -303,7 +303,7 @@ namespace ttl
    {
       const node_type *lo = rbtree_.lower_bound(key);
       const node_type *up = lo;
-      if (lo != rbtree_.end())
+      if (lo != rbtree_.end() && !Compare()(key, lo->data.first))
          up = static_cast<const node_type *>(rbtree_base::next_node(lo));
       return pair<const_iterator, const_iterator>(const_iterator(lo), const_iterator(up));
    }
diff --git a/ttl/set.hpp b/ttl/set.hpp
index a989355..20be56c 100644
--- a/ttl/set.hpp
+++ b/ttl/set.hpp
@@ -251,17 +251,17 @@ namespace ttl
    typename set<KT,Compare>::iterator set<KT,Compare>::upper_bound(const KT &key)
    {
       node_type *lo = rbtree_.lower_bound(key);
-      if (lo == rbtree_.end())
-         return end();
-      return iterator(static_cast<node_type *>(rbtree_base::next_node(lo)));
+      if (lo != rbtree_.end() && !Compare()(key, lo->data))
+         lo = static_cast<node_type *>(rbtree_base::next_node(lo));
+      return iterator(lo);
    }
    template<typename KT, typename Compare>
    typename set<KT,Compare>::const_iterator set<KT,Compare>::upper_bound(const KT &key) const
    {
       const node_type *lo = rbtree_.lower_bound(key);
-      if (lo == rbtree_.end())
-         return end();
-      return const_iterator(static_cast<const node_type *>(rbtree_base::next_node(lo)));
+      if (lo != rbtree_.end() && !Compare()(key, lo->data))
+         lo = static_cast<const node_type *>(rbtree_base::next_node(lo));
+      return const_iterator(lo);
    }
 
    template<typename KT, typename Compare>
@@ -270,7 +270,7 @@ namespace ttl
    {
       node_type *lo = rbtree_.lower_bound(key);
       node_type *up = lo;
-      if (lo != rbtree_.end())
+      if (lo != rbtree_.end() && !Compare()(key, lo->data))
          up = static_cast<node_type *>(rbtree_base::next_node(lo));
       return pair<iterator, iterator>(iterator(lo), iterator(up));
    }
@@ -280,7 +280,7 @@ namespace ttl
    {
       const node_type *lo = rbtree_.lower_bound(key);
       const node_type *up = lo;
-      if (lo != rbtree_.end())
+      if (lo != rbtree_.end() && !Compare()(key, lo->data))
          up = static_cast<const node_type *>(rbtree_base::next_node(lo));
       return pair<const_iterator, const_iterator>(const_iterator(lo), const_iterator(up));
    }
-- 
2.43.0


From 4ed64afa858a27850410acf0736c1182decca84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:02 +0000
Subject: [PATCH 41/58] fix: self-assignment of map, set and rbtree keeps the
 elements

---
 ttl/map.hpp    | 2 ++
 ttl/rbtree.hpp | 2 ++
 ttl/set.hpp    | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/ttl/map.hpp b/ttl/map.hpp
index 59de695..e008594 100644
--- a/ttl/map.hpp
+++ b/ttl/map.hpp
@@ -181,6 +181,8 @@ namespace ttl
 
       map &operator=(const map &other)
       {
+         if (this == &other)
+            return *this;
          clear();
          rbtree_.assign(other.rbtree_);
          return *this;
diff --git a/ttl/rbtree.hpp b/ttl/rbtree.hpp
index addb86a..bc51f25 100644
--- a/ttl/rbtree.hpp
+++ b/ttl/rbtree.hpp
@@ -332,6 +332,8 @@ namespace ttl
    template <class K, class KV, class KeyOfValue, class Compare>
    void rbtree<K,KV,KeyOfValue,Compare>::assign(const rbtree &other)
    {
+      if (this == &other)
+         return;
       if (root_())
          clear();
       const node *otherroot = other.get_root();
diff --git a/ttl/set.hpp b/ttl/set.hpp
index 20be56c..b469525 100644
--- a/ttl/set.hpp
+++ b/ttl/set.hpp
@@ -169,6 +169,8 @@ namespace ttl
 
       set &operator=(const set &other)
       {
+         if (this == &other)
+            return *this;
          clear();
          rbtree_.assign(other.rbtree_);
          return *this;
-- 
2.43.0


From 5b5f0078a3fac28242bdb180d0cd7cc4f91a08d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:02 +0000
Subject: [PATCH 42/58] fix: rbtree::count counts the equal keys on both sides
 of a match

---
 ttl/rbtree.hpp | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/ttl/rbtree.hpp b/ttl/rbtree.hpp
index bc51f25..cb6a81d 100644
--- a/ttl/rbtree.hpp
+++ b/ttl/rbtree.hpp
@@ -352,20 +352,10 @@ namespace ttl
    template <class K, class KV, class KeyOfValue, class Compare>
    size_t rbtree<K,KV,KeyOfValue,Compare>::count(const K &key) const
    {
-      const rbnode *n = root_();
+      const rbnode *last = upper_bound(key);
       size_t c = 0;
-      while (n)
-      {
-         const K &nkey = keyof_(static_cast<const node *>(n)->data);
-         if (is_less_(nkey, key))
-            n = n->right;
-         else
-         {
-            if (nkey == key)
-               ++c;
-            n = n->left;
-         }
-      }
+      for (const rbnode *n = lower_bound(key); n != last; n = next_node(n))
+         ++c;
       return c;
    }
 
-- 
2.43.0


From d18557a6531f553ce7666ee1d3196f9fdc79c46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:07 +0000
Subject: [PATCH 43/58] fix: rbtree::remove with equal keys does not lose nodes

---
 ttl/rbtree.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ttl/rbtree.hpp b/ttl/rbtree.hpp
index cb6a81d..2476ece 100644
--- a/ttl/rbtree.hpp
+++ b/ttl/rbtree.hpp
@@ -482,12 +482,12 @@ namespace ttl
                *root = 0;
                break;
             }
-            if ((*root)->right && !is_red((*root)->right) && !is_red((*root)->right->left))
-            {
-               *root = move_right(*root);
-               isless = is_less_(key, keyof_(static_cast<const node *>(*root)->data));
-            }
-            if (key == keyof_(static_cast<const node *>(*root)->data))
+            rbnode *pivot = *root;
+            if (pivot->right && !is_red(pivot->right) && !is_red(pivot->right->left))
+               *root = move_right(pivot);
+            // after a rotation continue with the pivot, even if the keys are equal
+            if (*root == pivot &&
+                key == keyof_(static_cast<const node *>(*root)->data))
             {
                rbnode *orphan = delete_min(&(*root)->right);
                orphan->color = (*root)->color;
-- 
2.43.0


From 874b7e9a85cd9e32bf27165e2754c9d7464a9db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:08 +0000
Subject: [PATCH 44/58] fix: ttl_countof with the countof macro defined

---
 ttl/utility.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/utility.hpp b/ttl/utility.hpp
index 70697f4..619850f 100644
--- a/ttl/utility.hpp
+++ b/ttl/utility.hpp
@@ -16,7 +16,7 @@ namespace ttl
 #ifndef countof
 #define countof(a) ttl::countof(a)
 #endif
-#define ttl_countof(a) ttl::countof(a)
+#define ttl_countof(a) (ttl::countof)(a)
 #else
    template<typename T, unsigned int N> char (&_char_array_ref(const T (&)[N]))[N];
 #ifndef countof
-- 
2.43.0


From 683e7df924afb0d50f3c2eebf45850e084b8b88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:19 +0000
Subject: [PATCH 45/58] fix: the alternative list_node::swap of two empty lists

---
 ttl/list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/list.hpp b/ttl/list.hpp
index 2b8e870..d4549f5 100644
--- a/ttl/list.hpp
+++ b/ttl/list.hpp
@@ -107,7 +107,7 @@ namespace ttl
             else
                halfswap(b, a);
          }
-         else
+         else if (b != b->next)
             halfswap(a, b);
       }
 #endif
-- 
2.43.0


From 4152ca843773661a25e7e316ced17b62ce67637b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:50 +0000
Subject: [PATCH 46/58] fix: the storage of fixed_vector is aligned for its
 elements

---
 ttl/fixed_vector.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ttl/fixed_vector.hpp b/ttl/fixed_vector.hpp
index d907f03..5656d6d 100644
--- a/ttl/fixed_vector.hpp
+++ b/ttl/fixed_vector.hpp
@@ -34,7 +34,13 @@ namespace ttl
       typedef ttl::ptrdiff_t difference_type;
 
    private:
+#if __cplusplus >= 201103L // C++11
+      union { alignas(T) char b[sizeof(T)]; } bytes_[N];
+#elif defined(__GNUC__)
+      union { char b[sizeof(T)] __attribute__((__aligned__(__alignof__(T)))); } bytes_[N];
+#else
       union { char b[sizeof(T)]; } bytes_[N];
+#endif
       T *last_;
       T *elements() const { return (T *)bytes_; }
       T *end_of_elements() const { return (T *)(bytes_ + N); }
-- 
2.43.0


From d84765ec871f3490d6736e125c6acf90b017382c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:54 +0000
Subject: [PATCH 47/58] fix: list::resize value-initialises the new elements

---
 ttl/list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/list.hpp b/ttl/list.hpp
index d4549f5..da46897 100644
--- a/ttl/list.hpp
+++ b/ttl/list.hpp
@@ -128,7 +128,7 @@ namespace ttl
       struct node: list_node
       {
          T value;
-         node() {}
+         node(): value() {}
          node(const T &v): value(v) {}
       };
       list_node head_;
-- 
2.43.0


From 56267c3195c02044999df1a5ff68cc1e035d54de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:14 +0000
Subject: [PATCH 48/58] fix: vector::reserve within the capacity keeps the
 storage

---
 ttl/vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/vector.hpp b/ttl/vector.hpp
index c0ac18c..9cfe5d2 100644
--- a/ttl/vector.hpp
+++ b/ttl/vector.hpp
@@ -238,7 +238,7 @@ namespace ttl
    template<typename T>
    void vector<T>::reserve(size_type n)
    {
-      if (elements_ + n < end_of_elements_)
+      if (n <= capacity())
          return;
       T *newelements = static_cast<T *>(::operator new(n * sizeof(T)));
       T *o = newelements, *i = elements_;
-- 
2.43.0


From 15e281fe18184b4ba699ec3f00b77c8acd480bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:17 +0000
Subject: [PATCH 49/58] fix: rbtree.hpp includes what it needs

---
 ttl/rbtree.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/rbtree.hpp b/ttl/rbtree.hpp
index 2476ece..4fe1134 100644
--- a/ttl/rbtree.hpp
+++ b/ttl/rbtree.hpp
@@ -9,6 +9,8 @@
 #ifndef _TINY_TEMPLATE_LIBRARY_RBTREE_HPP_
 #define _TINY_TEMPLATE_LIBRARY_RBTREE_HPP_ 1
 
+#include "types.hpp"
+
 namespace ttl
 {
    template<typename T1, typename T2> struct pair;
-- 
2.43.0


From d9b8b963a090b1875cbe0d1a67d33e442e8caa7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:17 +0000
Subject: [PATCH 50/58] fix: forward_list.hpp declares the swap it uses

---
 ttl/forward_list.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/forward_list.hpp b/ttl/forward_list.hpp
index 86615ac..0b51925 100644
--- a/ttl/forward_list.hpp
+++ b/ttl/forward_list.hpp
@@ -12,6 +12,8 @@
 
 namespace ttl
 {
+   template<typename T> void swap(T &, T &);
+
    template<typename T>
    class forward_list
    {
-- 
2.43.0


From 0dcbac49a5fc8cdab1a23f4cd8d4a4257adf3fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:17 +0000
Subject: [PATCH 51/58] fix: map.hpp declares the equal it uses

---
 ttl/map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/map.hpp b/ttl/map.hpp
index e008594..903d541 100644
--- a/ttl/map.hpp
+++ b/ttl/map.hpp
@@ -311,7 +311,7 @@ namespace ttl
    }
 
    template<class InputIt1, class InputIt2>
-   bool equal(InputIt1, InputIt1, InputIt2);
+   bool equal(InputIt1, InputIt1, InputIt2, InputIt2);
 
    template <typename KT, typename T, typename Compare>
    bool operator==(const map<KT,T,Compare> &a, const map<KT,T,Compare> &b)
-- 
2.43.0


From ab9285fecfe658c0fe890e6a8542b1a10f4336d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:03 +0000
Subject: [PATCH 52/58] fix: algorithm.hpp declares the swap it uses

---
 ttl/algorithm.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ttl/algorithm.hpp b/ttl/algorithm.hpp
index e310f2d..28f2e7a 100644
--- a/ttl/algorithm.hpp
+++ b/ttl/algorithm.hpp
@@ -17,6 +17,7 @@ namespace ttl
 #else
 #define ttl_constexpr
 #endif
+   template<typename T> void swap(T &, T &);
    template<class T1, class T2> struct pair;
    template<class T1, class T2> pair<T1,T2> make_pair(T1, T2);
 #if __cplusplus >= 201103L // C++11
-- 
2.43.0


From 88881da1804e0515eb4da208e2055eb5ada508d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:57 +0000
Subject: [PATCH 53/58] fix: reference and pointer types of the map, set and
 sorted_vector_map iterators

---
 ttl/map.hpp               | 6 +++---
 ttl/set.hpp               | 6 +++---
 ttl/sorted_vector_map.hpp | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/ttl/map.hpp b/ttl/map.hpp
index 903d541..92bb40e 100644
--- a/ttl/map.hpp
+++ b/ttl/map.hpp
@@ -57,7 +57,7 @@ namespace ttl
          typedef map<KT,T,Compare>::value_type value_type;
          typedef ttl::ptrdiff_t difference_type;
          typedef value_type *pointer;
-         typedef value_type *reference;
+         typedef value_type &reference;
 
          value_type &operator*() const { return ptr_->data; }
          value_type *operator->() const { return &ptr_->data; }
@@ -97,8 +97,8 @@ namespace ttl
       public:
          typedef map<KT,T,Compare>::value_type value_type;
          typedef ttl::ptrdiff_t difference_type;
-         typedef value_type *pointer;
-         typedef value_type *reference;
+         typedef const value_type *pointer;
+         typedef const value_type &reference;
 
          const value_type &operator*() const { return ptr_->data; }
          const value_type *operator->() const { return &ptr_->data; }
diff --git a/ttl/set.hpp b/ttl/set.hpp
index b469525..eaa1c50 100644
--- a/ttl/set.hpp
+++ b/ttl/set.hpp
@@ -45,7 +45,7 @@ namespace ttl
          typedef set<KT,Compare>::value_type value_type;
          typedef ttl::ptrdiff_t difference_type;
          typedef value_type *pointer;
-         typedef value_type *reference;
+         typedef value_type &reference;
 
          value_type &operator*() const { return ptr_->data; }
          value_type *operator->() const { return &ptr_->data; }
@@ -85,8 +85,8 @@ namespace ttl
       public:
          typedef set<KT,Compare>::value_type value_type;
          typedef ttl::ptrdiff_t difference_type;
-         typedef value_type *pointer;
-         typedef value_type *reference;
+         typedef const value_type *pointer;
+         typedef const value_type &reference;
 
          const value_type &operator*() const { return ptr_->data; }
          const value_type *operator->() const { return &ptr_->data; }
diff --git a/ttl/sorted_vector_map.hpp b/ttl/sorted_vector_map.hpp
index 7f9497f..eb1ad67 100644
--- a/ttl/sorted_vector_map.hpp
+++ b/ttl/sorted_vector_map.hpp
@@ -41,7 +41,7 @@ namespace ttl
          typedef sorted_vector_map<KT,T,Compare>::value_type value_type;
          typedef ttl::ptrdiff_t difference_type;
          typedef value_type *pointer;
-         typedef value_type *reference;
+         typedef value_type &reference;
 
          value_type &operator*() const { return **ptr_; }
          value_type *operator->() const { return *ptr_; }
@@ -65,8 +65,8 @@ namespace ttl
       public:
          typedef sorted_vector_map<KT,T,Compare>::value_type value_type;
          typedef ttl::ptrdiff_t difference_type;
-         typedef value_type *pointer;
-         typedef value_type *reference;
+         typedef const value_type *pointer;
+         typedef const value_type &reference;
 
          const value_type &operator*() const { return **ptr_; }
          const value_type *operator->() const { return *ptr_; }
-- 
2.43.0


From ce495df6620d8c5cc0d464a61c908dc96df46cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:57 +0000
Subject: [PATCH 54/58] fix: swap_ranges returns an iterator of the second
 range

---
 ttl/algorithm.hpp    | 2 +-
 ttl/array.hpp        | 2 +-
 ttl/fixed_vector.hpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ttl/algorithm.hpp b/ttl/algorithm.hpp
index 28f2e7a..31811e1 100644
--- a/ttl/algorithm.hpp
+++ b/ttl/algorithm.hpp
@@ -305,7 +305,7 @@ namespace ttl
    }
 
    template<class iterator1, class iterator2>
-   inline iterator1 swap_ranges(iterator1 first1, iterator1 last1, iterator2 first2)
+   inline iterator2 swap_ranges(iterator1 first1, iterator1 last1, iterator2 first2)
    {
       for (; first1 != last1; ++first1, ++first2)
          iter_swap(first1, first2);
diff --git a/ttl/array.hpp b/ttl/array.hpp
index ec34191..46b2939 100644
--- a/ttl/array.hpp
+++ b/ttl/array.hpp
@@ -12,7 +12,7 @@
 namespace ttl
 {
    template<class InputIt1, class InputIt2> bool equal(InputIt1, InputIt1, InputIt2, InputIt2);
-   template<class iterator1, class iterator2> iterator1 swap_ranges(iterator1, iterator1, iterator2);
+   template<class iterator1, class iterator2> iterator2 swap_ranges(iterator1, iterator1, iterator2);
    template<typename iterator, typename size_type, typename value_type> iterator fill_n(iterator, size_type count, const value_type &);
 
    template<typename T, const ttl::size_t N>
diff --git a/ttl/fixed_vector.hpp b/ttl/fixed_vector.hpp
index 5656d6d..4783d1f 100644
--- a/ttl/fixed_vector.hpp
+++ b/ttl/fixed_vector.hpp
@@ -17,7 +17,7 @@ namespace ttl
    template<class ForwardIt, class T> pair<ForwardIt,ForwardIt> equal_range(ForwardIt, ForwardIt, const T &);
    template<class InputIt1, class InputIt2> bool equal(InputIt1, InputIt1, InputIt2, InputIt2);
    template<typename T> void swap(T &, T &);
-   template<class iterator1, class iterator2> iterator1 swap_ranges(iterator1, iterator1, iterator2);
+   template<class iterator1, class iterator2> iterator2 swap_ranges(iterator1, iterator1, iterator2);
 
    template<typename T, const unsigned int N>
    class fixed_vector
-- 
2.43.0


From 5d0a425239d9b0f8bcd4881877285eb40ba708b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:05 +0000
Subject: [PATCH 55/58] fix: vector and fixed_vector construct elements that
 have an operator new of their own

---
 ttl/fixed_vector.hpp | 6 +++---
 ttl/vector.hpp       | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ttl/fixed_vector.hpp b/ttl/fixed_vector.hpp
index 4783d1f..d38aace 100644
--- a/ttl/fixed_vector.hpp
+++ b/ttl/fixed_vector.hpp
@@ -66,7 +66,7 @@ namespace ttl
       {
          clear();
          for (; first != last && !full(); ++first)
-            new(last_++) T(*first);
+            ::new(last_++) T(*first);
       }
 
       iterator       begin() { return elements(); }
@@ -116,7 +116,7 @@ namespace ttl
       void push_back(const value_type &x)
       {
          if (!full())
-            new(last_++) T(x);
+            ::new(last_++) T(x);
       }
 
       void pop_back()
@@ -297,7 +297,7 @@ namespace ttl
       ttl::swap_ranges(a.elements(), a.elements() + minsiz, b.elements());
       T *e = b.elements() + minsiz;
       while (e < b.last_)
-         new (a.last_++) T(*e++);
+         ::new (a.last_++) T(*e++);
       b.last_ = b.elements() + minsiz;
       while (e > b.last_)
          (--e)->~T();
diff --git a/ttl/vector.hpp b/ttl/vector.hpp
index 9cfe5d2..2376230 100644
--- a/ttl/vector.hpp
+++ b/ttl/vector.hpp
@@ -143,7 +143,7 @@ namespace ttl
       void push_back(const value_type &x)
       {
          if (last_ < end_of_elements_)
-            new(last_++) T(x);
+            ::new(last_++) T(x);
          else
             insert(end(), (size_type)1, x);
       }
-- 
2.43.0


From 99e9d4940fd7215ba53a743de3bed4c02522f2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:29 +0000
Subject: [PATCH 56/58] fix: resize(n, value) of vector and fixed_vector does
 not need a default constructor

---
 ttl/fixed_vector.hpp | 2 +-
 ttl/vector.hpp       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ttl/fixed_vector.hpp b/ttl/fixed_vector.hpp
index d38aace..2c06672 100644
--- a/ttl/fixed_vector.hpp
+++ b/ttl/fixed_vector.hpp
@@ -87,7 +87,7 @@ namespace ttl
       void resize(size_type new_size, const value_type &x)
       {
          if (new_size < size())
-            resize(new_size);
+            erase(begin() + new_size, end());
          else
             insert(end(), new_size - size(), x);
       }
diff --git a/ttl/vector.hpp b/ttl/vector.hpp
index 2376230..1ae9192 100644
--- a/ttl/vector.hpp
+++ b/ttl/vector.hpp
@@ -101,7 +101,7 @@ namespace ttl
       void resize(size_type new_size, const value_type &x)
       {
          if (new_size < size())
-            resize(new_size);
+            erase(begin() + new_size, end());
          else
             insert(end(), new_size - size(), x);
       }
-- 
2.43.0


From f4685760573328368ce546c183f2aae8c66a5437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:13 +0000
Subject: [PATCH 57/58] fix: lower_bound and upper_bound work on ranges longer
 than INT_MAX

---
 ttl/algorithm.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/ttl/algorithm.hpp b/ttl/algorithm.hpp
index 31811e1..9c42415 100644
--- a/ttl/algorithm.hpp
+++ b/ttl/algorithm.hpp
@@ -503,9 +503,9 @@ namespace ttl
    template<class ForwardIt, class T>
    ForwardIt lower_bound(ForwardIt first, ForwardIt last, const T &value)
    {
-      for (int count = last - first; count > 0;)
+      for (ttl::ptrdiff_t count = last - first; count > 0;)
       {
-         int step = count / 2;
+         const ttl::ptrdiff_t step = count / 2;
          ForwardIt it = first;
          it = first + step;
          if (*it < value)
@@ -522,9 +522,9 @@ namespace ttl
    template<class ForwardIt, class T, class Compare>
    ForwardIt lower_bound(ForwardIt first, ForwardIt last, const T &value, Compare comp)
    {
-      for (int count = last - first; count > 0;)
+      for (ttl::ptrdiff_t count = last - first; count > 0;)
       {
-         int step = count / 2;
+         const ttl::ptrdiff_t step = count / 2;
          ForwardIt it = first;
          it += step;
          if (comp(*it, value))
@@ -541,9 +541,9 @@ namespace ttl
    template<class ForwardIt, class T>
    ForwardIt upper_bound(ForwardIt first, ForwardIt last, const T &value)
    {
-      for (int count = last - first; count > 0;)
+      for (ttl::ptrdiff_t count = last - first; count > 0;)
       {
-         int step = count / 2;
+         const ttl::ptrdiff_t step = count / 2;
          ForwardIt it = first;
          it += step;
          if (!(value < *it))
@@ -560,9 +560,9 @@ namespace ttl
    template<class ForwardIt, class T, class Compare>
    ForwardIt upper_bound(ForwardIt first, ForwardIt last, const T &value, Compare comp)
    {
-      for (int count = last - first; count > 0;)
+      for (ttl::ptrdiff_t count = last - first; count > 0;)
       {
-         int step = count / 2;
+         const ttl::ptrdiff_t step = count / 2;
          ForwardIt it = first;
          it += step;
          if (!comp(value, *it))
-- 
2.43.0


From 6763efc4b4fe0f0b9a5105c8a6cc7fd6f15abea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:17 +0000
Subject: [PATCH 58/58] fix: sorted_vector_map indexes its elements by
 size_type

---
 ttl/sorted_vector_map.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/ttl/sorted_vector_map.hpp b/ttl/sorted_vector_map.hpp
index eb1ad67..46e9b2a 100644
--- a/ttl/sorted_vector_map.hpp
+++ b/ttl/sorted_vector_map.hpp
@@ -218,7 +218,7 @@ namespace ttl
       value_type **elements_, **last_, **end_of_elements_;
       iterator insert_before(iterator, const value_type &);
       iterator find_insert_pos(const KT &key) const;
-      pair<unsigned, bool> bsearch(const KT &key) const;
+      pair<size_type, bool> bsearch(const KT &key) const;
    };
 
    template<typename KT, typename T, typename Compare>
@@ -232,42 +232,42 @@ namespace ttl
    }
 
    template<typename KT, typename T, typename Compare>
-   pair<unsigned, bool>
+   pair<typename sorted_vector_map<KT,T,Compare>::size_type, bool>
    sorted_vector_map<KT,T,Compare>::bsearch(const KT &key) const
    {
       Compare comp;
-      unsigned L = 0, H = size();
+      size_type L = 0, H = size();
       while (L < H) {
-         unsigned m = L + (H - L) / 2;
+         size_type m = L + (H - L) / 2;
          if (elements_[m]->first == key)
-            return pair<unsigned, bool>(m, true);
+            return pair<size_type, bool>(m, true);
          if (comp(elements_[m]->first, key))
             L = m + 1;
          else
             H = m;
       }
-      return pair<unsigned, bool>(L, false);
+      return pair<size_type, bool>(L, false);
    }
 
    template<typename KT, typename T, typename Compare>
    typename sorted_vector_map<KT,T,Compare>::iterator
    sorted_vector_map<KT,T,Compare>::find(const KT &key)
    {
-      pair<unsigned, bool> re = bsearch(key);
+      pair<size_type, bool> re = bsearch(key);
       return re.second ? iterator(elements_ + re.first): end();
    }
    template<typename KT, typename T, typename Compare>
    typename sorted_vector_map<KT,T,Compare>::const_iterator
    sorted_vector_map<KT,T,Compare>::find(const KT &key) const
    {
-      pair<unsigned, bool> re = bsearch(key);
+      pair<size_type, bool> re = bsearch(key);
       return re.second ? const_iterator(elements_ + re.first): end();
    }
    template<typename KT, typename T, typename Compare>
    typename sorted_vector_map<KT,T,Compare>::iterator
    sorted_vector_map<KT,T,Compare>::find_insert_pos(const KT &key) const
    {
-      pair<unsigned, bool> re = bsearch(key);
+      pair<size_type, bool> re = bsearch(key);
       return elements_ + re.first;
    }
    template<typename KT, typename T, typename Compare>
-- 
2.43.0

