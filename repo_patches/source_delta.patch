From 3b4323003c3febc3a921c3578a3a071b7afdbee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:59 +0000
Subject: [PATCH 01/34] fix: vector move assignment takes the allocator along
 with the storage

---
 nestl/implementation/vector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index 2dcbdb8..2bc4bfe 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -648,6 +648,7 @@ void vector<T, A>::move_assign(const std::true_type& /* true_val */, vector&& ot
 {
 	const vector destroyContentAtExit(std::move(*this));
 
+    m_allocator = std::move(other.m_allocator);
     this->swap_data(other);
 }
 
-- 
2.43.0


From 8ceeab6b756403a9d5c1af798240439a536fd88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:59 +0000
Subject: [PATCH 02/34] fix: vector::clear calls an existing overload of
 destroy

---
 nestl/implementation/vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index 2bc4bfe..a2a3d3f 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -553,7 +553,7 @@ vector<T, A>::shrink_to_fit_nothrow(OperationError& err) NESTL_NOEXCEPT_SPEC
 template <typename T, typename A>
 void vector<T, A>::clear() NESTL_NOEXCEPT_SPEC
 {
-    nestl::detail::destroy(m_allocator, m_start, m_finish);
+    nestl::detail::destroy(m_start, m_finish);
     m_finish = m_start;
 }
 
-- 
2.43.0


From f0196753db1e759a76879291856463a833ea3475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:59 +0000
Subject: [PATCH 03/34] fix: vector range insert compiles and returns a valid
 iterator for an empty range

---
 nestl/implementation/vector.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index a2a3d3f..5df9d88 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -744,13 +744,13 @@ template <typename OperationError, typename InputIterator>
 typename vector<T, A>::iterator
 vector<T, A>::insert_range(OperationError& err, const_iterator pos, InputIterator first, InputIterator last) NESTL_NOEXCEPT_SPEC
 {
-    NESTL_ASSERT(pos >= m_start);
-    NESTL_ASSERT(pos <= m_finish);
+    assert(pos >= m_start);
+    assert(pos <= m_finish);
 
     /// we should calculate offset before possible reallocation
     size_t offset = pos - m_start;
 
-    iterator res;
+    iterator res = m_start + offset;
     for ( ; first != last; ++first, ++offset)
     {
         const_iterator newPos = m_start + offset;
-- 
2.43.0


From 35e3764398fad1f2433f1a4deda957149d093d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:59 +0000
Subject: [PATCH 04/34] fix: a failed vector insert does not leave a destroyed
 element inside the vector

---
 nestl/implementation/vector.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index 5df9d88..54bf3d9 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -723,6 +723,12 @@ vector<T, A>::insert_value(OperationError& err, const_iterator pos, Args&& ... a
         nestl::class_operations::construct(err, val, *oldLocation);
         if (err)
         {
+            // [val + 1; m_finish + 1) is already shifted, do not leave a hole in the middle
+            if (val != m_finish)
+            {
+                nestl::detail::destroy(val + 1, m_finish + 1);
+                m_finish = val;
+            }
             return end();
         }
         nestl::detail::destroy(oldLocation, val);
@@ -732,6 +738,11 @@ vector<T, A>::insert_value(OperationError& err, const_iterator pos, Args&& ... a
 	nestl::class_operations::construct(err, first, std::forward<Args>(args) ...);
     if (err)
     {
+        if (first != m_finish)
+        {
+            nestl::detail::destroy(first + 1, m_finish + 1);
+            m_finish = first;
+        }
         return end();
     }
 
-- 
2.43.0


From b1ac9b3819795756491d9371eb5659249600d7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:59 +0000
Subject: [PATCH 05/34] fix: vector may insert or resize with a copy of its own
 element

---
 nestl/implementation/vector.hpp | 45 +++++++++++++++++++++++++++++++--
 1 file changed, 43 insertions(+), 2 deletions(-)

diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index 54bf3d9..0c5e997 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -3,6 +3,7 @@
 
 #include <nestl/config.hpp>
 
+#include <nestl/alignment.hpp>
 #include <nestl/allocator.hpp>
 #include <nestl/allocator_traits.hpp>
 #include <nestl/algorithm.hpp>
@@ -176,6 +177,8 @@ private:
 
     void swap_data(vector& other) NESTL_NOEXCEPT_SPEC;
 
+    bool is_own_element(const_reference value) const NESTL_NOEXCEPT_SPEC;
+
     void move_assign(const std::true_type& /* true_val */, vector&& other) NESTL_NOEXCEPT_SPEC;
 
     template <typename OperationError, typename InputIterator>
@@ -562,7 +565,22 @@ template <typename OperationError>
 typename vector<T, A>::iterator
 vector<T, A>::insert_nothrow(OperationError& err, const_iterator pos, const value_type& value) NESTL_NOEXCEPT_SPEC
 {
-    return insert_value(err, pos, value);
+    if (!is_own_element(value))
+    {
+        return insert_value(err, pos, value);
+    }
+
+    // value will be moved or destroyed by the insertion itself
+    nestl::aligned_buffer<value_type> storage;
+    nestl::class_operations::construct(err, storage.ptr(), value);
+    if (err)
+    {
+        return end();
+    }
+    value_type* storageEnd = storage.ptr() + 1;
+    nestl::detail::destruction_scoped_guard<value_type*> guard(storage.ptr(), storageEnd);
+
+    return insert_value(err, pos, *storage.ptr());
 }
 
 template <typename T, typename A>
@@ -623,7 +641,23 @@ template <typename OperationError>
 void
 vector<T, A>::resize_nothrow(OperationError& err, size_type count, const value_type& value) NESTL_NOEXCEPT_SPEC
 {
-    do_resize(err, count, value);
+    if (!is_own_element(value))
+    {
+        do_resize(err, count, value);
+        return;
+    }
+
+    // value may be destroyed by the reallocation
+    nestl::aligned_buffer<value_type> storage;
+    nestl::class_operations::construct(err, storage.ptr(), value);
+    if (err)
+    {
+        return;
+    }
+    value_type* storageEnd = storage.ptr() + 1;
+    nestl::detail::destruction_scoped_guard<value_type*> guard(storage.ptr(), storageEnd);
+
+    do_resize(err, count, *storage.ptr());
 }
 
 template <typename T, typename A>
@@ -643,6 +677,13 @@ void vector<T, A>::swap_data(vector& other) NESTL_NOEXCEPT_SPEC
 	std::swap(this->m_end_of_storage, other.m_end_of_storage);
 }
 
+template <typename T, typename A>
+bool vector<T, A>::is_own_element(const_reference value) const NESTL_NOEXCEPT_SPEC
+{
+    const value_type* ptr = std::addressof(value);
+    return (ptr >= m_start) && (ptr < m_finish);
+}
+
 template <typename T, typename A>
 void vector<T, A>::move_assign(const std::true_type& /* true_val */, vector&& other) NESTL_NOEXCEPT_SPEC
 {
-- 
2.43.0


From ad10befca6d37f12ab7584ce5112ee57264c68fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:59 +0000
Subject: [PATCH 06/34] fix: vector::max_size is counted in elements, so too
 big reserve is reported

---
 nestl/implementation/vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index 0c5e997..6332bf0 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -510,7 +510,7 @@ template <typename T, typename A>
 typename vector<T, A>::size_type
 vector<T, A>::max_size() const NESTL_NOEXCEPT_SPEC
 {
-    return std::numeric_limits<size_type>::max();
+    return std::numeric_limits<size_type>::max() / sizeof(value_type);
 }
 
 template <typename T, typename A>
-- 
2.43.0


From 8ecc02a685c325b2e054ea05704708543a9057f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:59 +0000
Subject: [PATCH 07/34] fix: allocator reports requests whose byte size
 overflows

---
 nestl/allocator.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nestl/allocator.hpp b/nestl/allocator.hpp
index f225311..849c377 100644
--- a/nestl/allocator.hpp
+++ b/nestl/allocator.hpp
@@ -51,6 +51,12 @@ public:
     template<typename OperationError>
     pointer allocate(OperationError& err, size_type n, const void* /* hint */ = 0) NESTL_NOEXCEPT_SPEC
     {
+        if (n > std::numeric_limits<size_type>::max() / sizeof(value_type))
+        {
+            build_bad_alloc(err);
+            return nullptr;
+        }
+
         pointer res = static_cast<pointer>(::operator new(n * sizeof(value_type), std::nothrow));
         if (res == nullptr)
         {
-- 
2.43.0


From f4848ee6d3c969c5b912036fc2cea8715576bd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:59 +0000
Subject: [PATCH 08/34] fix: vector two-phase initialization hook has the
 expected name

---
 nestl/implementation/vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index 6332bf0..2d4c6c5 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -217,7 +217,7 @@ struct two_phase_initializator<nestl::impl::vector<T, Allocator>>
     typedef nestl::impl::vector<T, Allocator> vector_t;
 
     template <typename OperationError>
-    static void construct(OperationError& err, vector_t& defaultConstructed, const vector_t& other) NESTL_NOEXCEPT_SPEC
+    static void init(OperationError& err, vector_t& defaultConstructed, const vector_t& other) NESTL_NOEXCEPT_SPEC
     {
         defaultConstructed.copy_nothrow(err, other);
     }
-- 
2.43.0


From 6a0e70fcfe23874dd7bec03820fb3267cdbedd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:40 +0000
Subject: [PATCH 09/34] fix: vector assignment keeps the allocator of the
 vector

---
 nestl/implementation/vector.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index 2d4c6c5..6e719c7 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -314,7 +314,12 @@ template <typename OperationError>
 void
 vector<T, A>::assign_nothrow(OperationError& err, size_type n, const_reference val) NESTL_NOEXCEPT_SPEC
 {
-    vector tmp; tmp.swap(*this);
+    // old content must outlive the operation, because source range may refer to it
+    pointer oldStart = m_start;
+    pointer oldFinish = m_finish;
+    nestl::detail::deallocation_scoped_guard<pointer, allocator_type> deallocationGuard(m_allocator, oldStart, capacity());
+    nestl::detail::destruction_scoped_guard<pointer> destructionGuard(oldStart, oldFinish);
+    m_start = m_finish = m_end_of_storage = 0;
 
     assert(empty());
 
@@ -340,7 +345,12 @@ template <typename OperationError, typename InputIterator>
 void
 vector<T, A>::assign_nothrow(OperationError& err, InputIterator first, InputIterator last) NESTL_NOEXCEPT_SPEC
 {
-    vector tmp; tmp.swap(*this);
+    // old content must outlive the operation, because source range may refer to it
+    pointer oldStart = m_start;
+    pointer oldFinish = m_finish;
+    nestl::detail::deallocation_scoped_guard<pointer, allocator_type> deallocationGuard(m_allocator, oldStart, capacity());
+    nestl::detail::destruction_scoped_guard<pointer> destructionGuard(oldStart, oldFinish);
+    m_start = m_finish = m_end_of_storage = 0;
 
     assign_iterator(err, typename std::iterator_traits<InputIterator>::iterator_category(), first, last);
 }
-- 
2.43.0


From b3a5aa2acb2d801700eb74b5dfa25003d029bb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:15 +0000
Subject: [PATCH 10/34] fix: list range erase compiles

---
 nestl/implementation/list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nestl/implementation/list.hpp b/nestl/implementation/list.hpp
index e66632b..c3d4e33 100644
--- a/nestl/implementation/list.hpp
+++ b/nestl/implementation/list.hpp
@@ -991,7 +991,7 @@ list<T, A>::erase(const_iterator first, const_iterator last) NESTL_NOEXCEPT_SPEC
         first = erase(first);
     }
 
-    return last.get_list_node();
+    return iterator(last.get_list_node());
 }
 
 template <typename T, typename A>
-- 
2.43.0


From d2eb39089d2e1469bbf2c6a07abcd0157e38986f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:15 +0000
Subject: [PATCH 11/34] fix: list::max_size does not require allocator to
 provide it

---
 nestl/implementation/list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nestl/implementation/list.hpp b/nestl/implementation/list.hpp
index c3d4e33..e062f3d 100644
--- a/nestl/implementation/list.hpp
+++ b/nestl/implementation/list.hpp
@@ -886,7 +886,7 @@ template <typename T, typename A>
 typename list<T, A>::size_type
 list<T, A>::max_size() const NESTL_NOEXCEPT_SPEC
 {
-    return m_node_allocator.max_size();
+    return std::numeric_limits<size_type>::max() / sizeof(node_type);
 }
 
 
-- 
2.43.0


From f4812df8090543ff05330977f310303c8f4831fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:15 +0000
Subject: [PATCH 12/34] fix: list::swap exchanges allocators together with
 nodes

---
 nestl/implementation/list.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nestl/implementation/list.hpp b/nestl/implementation/list.hpp
index e062f3d..664d6b7 100644
--- a/nestl/implementation/list.hpp
+++ b/nestl/implementation/list.hpp
@@ -1061,6 +1061,7 @@ template <typename T, typename A>
 void
 list<T, A>::swap(list& other) NESTL_NOEXCEPT_SPEC
 {
+    std::swap(m_node_allocator, other.m_node_allocator);
     swap_data(other);
 }
 
@@ -1205,10 +1206,10 @@ list<T, A>::sort(Compare comp) NESTL_NOEXCEPT_SPEC
             for(counter = &tmp[0]; counter != fill && !counter->empty(); ++counter)
             {
                 counter->merge(carry, comp);
-                carry.swap(*counter);
+                carry.swap_data(*counter);
             }
 
-            carry.swap(*counter);
+            carry.swap_data(*counter);
             if (counter == fill)
             {
                 ++fill;
@@ -1220,7 +1221,7 @@ list<T, A>::sort(Compare comp) NESTL_NOEXCEPT_SPEC
         {
             counter->merge(*(counter - 1), comp);
         }
-        swap( *(fill - 1) );
+        swap_data( *(fill - 1) );
     }
 }
 
-- 
2.43.0


From bc475831007d6df2ad1e94c5f2480adccb5c586d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:15 +0000
Subject: [PATCH 13/34] fix: list assignment releases old nodes with the
 allocator of the list

---
 nestl/implementation/list.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/nestl/implementation/list.hpp b/nestl/implementation/list.hpp
index 664d6b7..2c4ad0d 100644
--- a/nestl/implementation/list.hpp
+++ b/nestl/implementation/list.hpp
@@ -716,18 +716,21 @@ template <typename OperationError>
 void
 list<T, A>::assign_nothrow(OperationError& err, size_type n, const_reference val) NESTL_NOEXCEPT_SPEC
 {
-    list tmp; tmp.swap(*this);
+    // old content must outlive the operation, because val may refer to it
+    const_iterator oldLast = --cend();
 
     while (n > 0)
     {
         push_back_nothrow(err, val);
         if (err)
         {
-            return;
+            break;
         }
 
         --n;
     }
+
+    erase(cbegin(), ++oldLast);
 }
 
 
@@ -736,18 +739,21 @@ template <typename OperationError, typename InputIterator>
 void
 list<T, A>::assign_nothrow(OperationError& err, InputIterator first, InputIterator last) NESTL_NOEXCEPT_SPEC
 {
-    list tmp; tmp.swap(*this);
+    // old content must outlive the operation, because source range may refer to it
+    const_iterator oldLast = --cend();
 
     while (first != last)
     {
         push_back_nothrow(err, *first);
         if (err)
         {
-            return;
+            break;
         }
 
         ++first;
     }
+
+    erase(cbegin(), ++oldLast);
 }
 
 template <typename T, typename A>
-- 
2.43.0


From 14f1f57b7ab8fe5b962aff0ab1d9ff1077d9d965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:15 +0000
Subject: [PATCH 14/34] fix: list move assignment compiles and takes the
 allocator along with the nodes

---
 nestl/implementation/list.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nestl/implementation/list.hpp b/nestl/implementation/list.hpp
index 2c4ad0d..f15caf4 100644
--- a/nestl/implementation/list.hpp
+++ b/nestl/implementation/list.hpp
@@ -698,7 +698,7 @@ typename list<T, A>::allocator_type list<T, A>::get_allocator() const NESTL_NOEX
 template <typename T, typename A>
 list<T, A>& list<T, A>::operator=(list&& other) NESTL_NOEXCEPT_SPEC
 {
-    this->move_assign(typename nestl::allocator_traits<node_allocator_type>::propagate_on_container_move_assignment(), other);
+    this->move_assign(typename nestl::allocator_traits<node_allocator_type>::propagate_on_container_move_assignment(), std::move(other));
 
     return *this;
 }
@@ -1271,6 +1271,7 @@ void
 list<T, A>::move_assign(const std::true_type& /* true_val */, list&& other) NESTL_NOEXCEPT_SPEC
 {
     const list tmp(std::move(*this));
+    m_node_allocator = std::move(other.m_node_allocator);
     this->swap_data(other);
 }
 
-- 
2.43.0


From 5edef5596581132445356f38003bf9d415518caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:15 +0000
Subject: [PATCH 15/34] fix: throwing list move assignment compiles

---
 nestl/has_exceptions/list.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nestl/has_exceptions/list.hpp b/nestl/has_exceptions/list.hpp
index 71bb59e..f6ecf1d 100644
--- a/nestl/has_exceptions/list.hpp
+++ b/nestl/has_exceptions/list.hpp
@@ -43,7 +43,9 @@ public:
 
     list& operator=(list&& other) NESTL_NOEXCEPT_SPEC
     {
-        return base_t::operator=(other);
+        base_t::operator=(std::move(other));
+
+        return *this;
     }
 
     list(const list& other)
-- 
2.43.0


From 10f9156d2d1421141bff6c3e96f2ae1664100363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:15 +0000
Subject: [PATCH 16/34] fix: throwing list copy constructor uses the allocator
 of the source as vector does

---
 nestl/has_exceptions/list.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nestl/has_exceptions/list.hpp b/nestl/has_exceptions/list.hpp
index f6ecf1d..f41cc86 100644
--- a/nestl/has_exceptions/list.hpp
+++ b/nestl/has_exceptions/list.hpp
@@ -49,6 +49,7 @@ public:
     }
 
     list(const list& other)
+        : base_t(other.get_allocator())
     {
         default_operation_error err;
         this->copy_nothrow(err, other);
-- 
2.43.0


From c47727e7f7439dbd1496e3b910f472a321e74a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:15 +0000
Subject: [PATCH 17/34] fix: list range insert keeps the order of the source
 range

---
 nestl/implementation/list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nestl/implementation/list.hpp b/nestl/implementation/list.hpp
index f15caf4..d398ce8 100644
--- a/nestl/implementation/list.hpp
+++ b/nestl/implementation/list.hpp
@@ -944,7 +944,7 @@ list<T, A>::insert_nothrow(OperationError& err, const_iterator pos, InputIterato
 {
     while (first != last)
     {
-        pos = insert_nothrow(err, pos, *first);
+        insert_nothrow(err, pos, *first);
         if (err)
         {
             return;
-- 
2.43.0


From 0e4913237112f4f14e42479659811f198025a344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:15 +0000
Subject: [PATCH 18/34] fix: list splice of a range in front of its own end is
 a no-op

---
 nestl/implementation/list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nestl/implementation/list.hpp b/nestl/implementation/list.hpp
index d398ce8..bcffcc1 100644
--- a/nestl/implementation/list.hpp
+++ b/nestl/implementation/list.hpp
@@ -1176,7 +1176,7 @@ template <typename T, typename A>
 void
 list<T, A>::splice(const_iterator pos, list&& /* other */, const_iterator first, const_iterator last) NESTL_NOEXCEPT_SPEC
 {
-    if (first != last)
+    if ((first != last) && (pos != last))
     {
         this->transfer(pos, first, last);
     }
-- 
2.43.0


From ff7a07f9a30f1414e5ef41454d22b6257e92d70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:48 +0000
Subject: [PATCH 19/34] fix: copying a list to itself is a no-op

---
 nestl/implementation/list.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nestl/implementation/list.hpp b/nestl/implementation/list.hpp
index bcffcc1..f817687 100644
--- a/nestl/implementation/list.hpp
+++ b/nestl/implementation/list.hpp
@@ -708,7 +708,10 @@ template <typename OperationError>
 void
 list<T, A>::copy_nothrow(OperationError& err, const list& other) NESTL_NOEXCEPT_SPEC
 {
-    assign_nothrow(err, other.cbegin(), other.cend());
+    if (this != &other)
+    {
+        assign_nothrow(err, other.cbegin(), other.cend());
+    }
 }
 
 template <typename T, typename A>
-- 
2.43.0


From b1d620e9abe95add9f843ae76403c76c2327615d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:48 +0000
Subject: [PATCH 20/34] fix: set move assignment compiles

---
 .../implementation/detail/red_black_tree.hpp  | 22 ++++++++-----------
 nestl/implementation/set.hpp                  | 13 +++--------
 2 files changed, 12 insertions(+), 23 deletions(-)

diff --git a/nestl/implementation/detail/red_black_tree.hpp b/nestl/implementation/detail/red_black_tree.hpp
index d5128a7..24c3536 100644
--- a/nestl/implementation/detail/red_black_tree.hpp
+++ b/nestl/implementation/detail/red_black_tree.hpp
@@ -1265,7 +1265,7 @@ public:
     bool
     __rb_verify() const NESTL_NOEXCEPT_SPEC;
 
-    bool
+    void
     m_move_assign(rb_tree& other) NESTL_NOEXCEPT_SPEC;
 
 private:
@@ -1381,24 +1381,20 @@ rb_tree<Key, Val, KeyOfValue, Compare, Alloc>::m_move_data(rb_tree& x, std::fals
 }
 
 template<typename Key, typename Val, typename KeyOfValue, typename Compare, typename Alloc>
-bool
+void
 rb_tree<Key, Val, KeyOfValue, Compare, Alloc>::m_move_assign(rb_tree& x) NESTL_NOEXCEPT_SPEC
 {
+    static_assert(node_allocator_traits::propagate_on_container_move_assignment::value,
+                  "move assignment requires an allocator which propagates on move assignment");
+
     m_impl.m_key_compare = x.m_impl.m_key_compare;
 
-    if (node_allocator_traits::_S_propagate_on_move_assign()
-        || node_allocator_traits::_S_always_equal()
-        || m_get_node_allocator() == x.m_get_node_allocator())
+    clear();
+    if (x.m_root() != 0)
     {
-        clear();
-        if (x.m_root() != 0)
-        {
-            m_move_data(x, std::true_type());
-        }
-        nestl::detail::alloc_on_move(m_get_node_allocator(), x.m_get_node_allocator());
-        return true;
+        m_move_data(x, std::true_type());
     }
-    return false;
+    nestl::detail::alloc_on_move(m_get_node_allocator(), x.m_get_node_allocator());
 }
 
 
diff --git a/nestl/implementation/set.hpp b/nestl/implementation/set.hpp
index 7e5667f..8cbec74 100644
--- a/nestl/implementation/set.hpp
+++ b/nestl/implementation/set.hpp
@@ -171,16 +171,9 @@ template <typename T, typename C, typename A>
 set<T, C, A>&
 set<T, C, A>::operator=(set&& other) NESTL_NOEXCEPT_SPEC
 {
-    if (!m_impl.m_move_assign(other.m_impl))
-    {
-        // The rvalue's allocator cannot be moved and is not equal,
-        // so we need to individually move each element.
-        clear();
-        insert(std::make_move_iterator(other.m_impl.begin()),
-               std::make_move_iterator(other.m_impl.end()));
-        other.clear();
-      }
-        return *this;
+    m_impl.m_move_assign(other.m_impl);
+
+    return *this;
 }
 
 template <typename T, typename C, typename A>
-- 
2.43.0


From ccb2f901adf4c055b5be6ad4d583b190f4658d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:48 +0000
Subject: [PATCH 21/34] fix: set copy compiles

---
 nestl/allocator_traits.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nestl/allocator_traits.hpp b/nestl/allocator_traits.hpp
index a0bff5e..6a6f841 100644
--- a/nestl/allocator_traits.hpp
+++ b/nestl/allocator_traits.hpp
@@ -26,6 +26,9 @@ struct allocator_traits
 	NESTL_SELECT_NESTED_TYPE(Allocator, propagate_on_container_move_assignment, std::false_type);
     typedef nestl_nested_type_propagate_on_container_move_assignment propagate_on_container_move_assignment;
 
+	NESTL_SELECT_NESTED_TYPE(Allocator, propagate_on_container_copy_assignment, std::false_type);
+    typedef nestl_nested_type_propagate_on_container_copy_assignment propagate_on_container_copy_assignment;
+
 	NESTL_SELECT_NESTED_TYPE(Allocator, size_type, std::size_t);
     typedef nestl_nested_type_size_type               size_type;
 
-- 
2.43.0


From 89d2008dfa9f58aaf95cbb115f0573411bf95e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:48 +0000
Subject: [PATCH 22/34] fix: set::crbegin and set::crend compile

---
 nestl/implementation/set.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nestl/implementation/set.hpp b/nestl/implementation/set.hpp
index 8cbec74..4e746d5 100644
--- a/nestl/implementation/set.hpp
+++ b/nestl/implementation/set.hpp
@@ -246,7 +246,7 @@ template <typename T, typename C, typename A>
 typename set<T, C, A>::const_reverse_iterator
 set<T, C, A>::crbegin() const NESTL_NOEXCEPT_SPEC
 {
-    return m_impl.crbegin();
+    return m_impl.rbegin();
 }
 
 template <typename T, typename C, typename A>
@@ -267,7 +267,7 @@ template <typename T, typename C, typename A>
 typename set<T, C, A>::const_reverse_iterator
 set<T, C, A>::crend() const NESTL_NOEXCEPT_SPEC
 {
-    return m_impl.crend();
+    return m_impl.rend();
 }
 
 
-- 
2.43.0


From 253d4de12bb713cd43d245597ae86f6c17797d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:48 +0000
Subject: [PATCH 23/34] fix: set::max_size does not require allocator to
 provide it

---
 nestl/implementation/detail/red_black_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nestl/implementation/detail/red_black_tree.hpp b/nestl/implementation/detail/red_black_tree.hpp
index 24c3536..5bc695c 100644
--- a/nestl/implementation/detail/red_black_tree.hpp
+++ b/nestl/implementation/detail/red_black_tree.hpp
@@ -1133,7 +1133,7 @@ public:
 
     size_type
     max_size() const NESTL_NOEXCEPT_SPEC
-    { return node_allocator_traits::max_size(m_get_node_allocator()); }
+    { return std::numeric_limits<size_type>::max() / sizeof(rb_tree_node<Val>); }
 
     void
     swap(rb_tree& t) NESTL_NOEXCEPT_SPEC;
-- 
2.43.0


From 39fcb04d1b413daa8a5deafefebf5d288f67c8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:48 +0000
Subject: [PATCH 24/34] fix: elements of set cannot be modified via iterator

---
 nestl/implementation/set.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nestl/implementation/set.hpp b/nestl/implementation/set.hpp
index 4e746d5..fe87c5b 100644
--- a/nestl/implementation/set.hpp
+++ b/nestl/implementation/set.hpp
@@ -55,9 +55,10 @@ public:
 
 
 
-    typedef typename impl_type::iterator                                            iterator;
+    // elements of the set must not be modified in place
+    typedef typename impl_type::const_iterator                                      iterator;
     typedef typename impl_type::const_iterator                                      const_iterator;
-    typedef typename impl_type::reverse_iterator                                    reverse_iterator;
+    typedef typename impl_type::const_reverse_iterator                              reverse_iterator;
     typedef typename impl_type::const_reverse_iterator                              const_reverse_iterator;
 
     typedef std::pair<iterator, bool>                                               iterator_with_flag;
-- 
2.43.0


From 0facd89e70bca5c17faca362be4973c82d9624a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:48 +0000
Subject: [PATCH 25/34] fix: assignability is checked for lvalue, so scalars
 may be assigned

---
 nestl/has_exceptions/detail/class_operations.hpp | 4 ++--
 nestl/no_exceptions/detail/class_operations.hpp  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/nestl/has_exceptions/detail/class_operations.hpp b/nestl/has_exceptions/detail/class_operations.hpp
index d64da3f..fe7b017 100644
--- a/nestl/has_exceptions/detail/class_operations.hpp
+++ b/nestl/has_exceptions/detail/class_operations.hpp
@@ -43,7 +43,7 @@ struct class_operations_helper
 
     template <typename T, typename OperationError, typename Y>
     static
-        typename std::enable_if<std::is_nothrow_assignable<T, Y>::value>::type
+        typename std::enable_if<std::is_nothrow_assignable<T&, Y>::value>::type
         assign(OperationError& /* err */, T& dest, Y&& src) NESTL_NOEXCEPT_SPEC
     {
         dest = std::forward<Y>(src);
@@ -51,7 +51,7 @@ struct class_operations_helper
 
     template <typename T, typename OperationError, typename Y>
     static
-    typename std::enable_if<!std::is_nothrow_assignable<T, Y>::value>::type
+    typename std::enable_if<!std::is_nothrow_assignable<T&, Y>::value>::type
     assign(OperationError& err, T& dest, Y&& src) NESTL_NOEXCEPT_SPEC
     {
         try
diff --git a/nestl/no_exceptions/detail/class_operations.hpp b/nestl/no_exceptions/detail/class_operations.hpp
index 5189649..b3165e7 100644
--- a/nestl/no_exceptions/detail/class_operations.hpp
+++ b/nestl/no_exceptions/detail/class_operations.hpp
@@ -27,7 +27,7 @@ struct class_operations_helper
 
     template <typename T, typename OperationError, typename Y>
     static
-    typename std::enable_if<std::is_nothrow_assignable<T, Y>::value>::type
+    typename std::enable_if<std::is_nothrow_assignable<T&, Y>::value>::type
     assign(OperationError& /* err */, T& dest, Y&& src) NESTL_NOEXCEPT_SPEC
     {
         dest = std::forward<Y>(src);
-- 
2.43.0


From f7c019a93da497637a29de41d3da005edf3721a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:18 +0000
Subject: [PATCH 26/34] fix: weak_ptr move assignment leaves source empty

---
 nestl/implementation/shared_ptr.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nestl/implementation/shared_ptr.hpp b/nestl/implementation/shared_ptr.hpp
index 3d9e9a6..e504358 100644
--- a/nestl/implementation/shared_ptr.hpp
+++ b/nestl/implementation/shared_ptr.hpp
@@ -312,6 +312,9 @@ public:
         m_ptr = other.m_ptr;
         m_refcount = other.m_refcount;
 
+        other.m_ptr = 0;
+        other.m_refcount = 0;
+
         return *this;
     }
 
-- 
2.43.0


From 1e154c16a285efa925c5c84e21614c9ca63ce5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:18 +0000
Subject: [PATCH 27/34] fix: locking of an expired weak_ptr returns empty
 pointer

---
 nestl/implementation/shared_ptr.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nestl/implementation/shared_ptr.hpp b/nestl/implementation/shared_ptr.hpp
index e504358..6c7ea5b 100644
--- a/nestl/implementation/shared_ptr.hpp
+++ b/nestl/implementation/shared_ptr.hpp
@@ -335,6 +335,11 @@ public:
 
     shared_ptr<T> lock()
     {
+        if (expired())
+        {
+            return shared_ptr<T>();
+        }
+
         return shared_ptr<T>(m_ptr, m_refcount);
     }
 
-- 
2.43.0


From cb537299877fdfc42d9628bf1404fec59d7a86d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:18 +0000
Subject: [PATCH 28/34] fix: weak_ptr assignment acquires new reference before
 it drops the old one

---
 nestl/implementation/shared_ptr.hpp | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/nestl/implementation/shared_ptr.hpp b/nestl/implementation/shared_ptr.hpp
index 6c7ea5b..aa8be25 100644
--- a/nestl/implementation/shared_ptr.hpp
+++ b/nestl/implementation/shared_ptr.hpp
@@ -273,10 +273,7 @@ public:
 
     weak_ptr& operator=(const shared_ptr<T>& other) NESTL_NOEXCEPT_SPEC
     {
-        if (m_refcount)
-        {
-            m_refcount->weak_release();
-        }
+        const weak_ptr tmp(std::move(*this));
 
         m_ptr = other.m_ptr;
         m_refcount = other.m_refcount;
@@ -290,16 +287,16 @@ public:
 
     weak_ptr& operator=(const weak_ptr& other) NESTL_NOEXCEPT_SPEC
     {
-        if (m_refcount)
+        if (&other != this)
         {
-            m_refcount->weak_release();
-        }
+            const weak_ptr tmp(std::move(*this));
 
-        m_ptr = other.m_ptr;
-        m_refcount = other.m_refcount;
-        if (m_refcount)
-        {
-            m_refcount->weak_add_ref();
+            m_ptr = other.m_ptr;
+            m_refcount = other.m_refcount;
+            if (m_refcount)
+            {
+                m_refcount->weak_add_ref();
+            }
         }
 
         return *this;
-- 
2.43.0


From 699d4824c44c4a8bdffeabef43089796b120c75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:18 +0000
Subject: [PATCH 29/34] fix: shared_ptr move assignment releases old value
 after taking the new one

---
 nestl/implementation/shared_ptr.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/nestl/implementation/shared_ptr.hpp b/nestl/implementation/shared_ptr.hpp
index aa8be25..2061677 100644
--- a/nestl/implementation/shared_ptr.hpp
+++ b/nestl/implementation/shared_ptr.hpp
@@ -446,16 +446,18 @@ template <typename T>
 template <typename Y>
 shared_ptr<T>& shared_ptr<T>::operator=(shared_ptr<Y>&& other) NESTL_NOEXCEPT_SPEC
 {
-    {
-        const shared_ptr tmp(std::move(*this));
-    }
-    
-    m_ptr = other.m_ptr;
+    // other may belong to the object owned by *this, so old value must be released at the end
+    element_type* ptr = other.m_ptr;
     other.m_ptr = nullptr;
 
-    m_refcount = other.m_refcount;
+    shared_count_base* refcount = other.m_refcount;
     other.m_refcount = nullptr;
 
+    const shared_ptr tmp(std::move(*this));
+
+    m_ptr = ptr;
+    m_refcount = refcount;
+
     return *this;
 }
 
-- 
2.43.0


From d5b3dfc4a8cfcb9fb2a46f07881dacf047262562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:18 +0000
Subject: [PATCH 30/34] fix: shared counter survives weak references held by
 the destroyed value

---
 nestl/implementation/shared_ptr.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/nestl/implementation/shared_ptr.hpp b/nestl/implementation/shared_ptr.hpp
index 2061677..d8da24e 100644
--- a/nestl/implementation/shared_ptr.hpp
+++ b/nestl/implementation/shared_ptr.hpp
@@ -50,11 +50,10 @@ public:
         --m_use_count;
         if (m_use_count == 0)
         {
+            // value may hold weak references to itself, so keep counter until value is destroyed
+            weak_add_ref();
             destroy_value();
-            if (m_weak_use_count == 0)
-            {
-                destroy_self();
-            }
+            weak_release();
         }
     }
 
-- 
2.43.0


From 3c66ac0066e7a8bdd054890ceeb9ca67beea83db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:18 +0000
Subject: [PATCH 31/34] fix: make_shared_a_nothrow uses the given allocator

---
 nestl/implementation/shared_ptr.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nestl/implementation/shared_ptr.hpp b/nestl/implementation/shared_ptr.hpp
index d8da24e..8648592 100644
--- a/nestl/implementation/shared_ptr.hpp
+++ b/nestl/implementation/shared_ptr.hpp
@@ -507,12 +507,12 @@ bool shared_ptr<T>::unique() const NESTL_NOEXCEPT_SPEC
 }
 
 template <typename T, typename OperationError, typename Allocator, typename ... Args>
-shared_ptr<T> make_shared_a_nothrow(OperationError& err, Allocator& /* alloc */, Args&& ... args)
+shared_ptr<T> make_shared_a_nothrow(OperationError& err, Allocator& alloc, Args&& ... args)
 {
     static_assert(sizeof(T), "T must be complete type");
     typedef type_stored_by_value<T, Allocator> shared_count_t;
     typedef typename shared_count_t::allocator_type SharedCountAllocator;
-    SharedCountAllocator sharedCountAlloc;
+    SharedCountAllocator sharedCountAlloc(alloc);
 
     shared_count_t* ptr = allocator_traits<SharedCountAllocator>::allocate(err, sharedCountAlloc, 1);
     if (err)
-- 
2.43.0


From 991e86c2ab4ef3a1ef07a45f30c32a24cea37a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:18 +0000
Subject: [PATCH 32/34] fix: control block is destroyed when construction of
 the value fails

---
 nestl/implementation/shared_ptr.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nestl/implementation/shared_ptr.hpp b/nestl/implementation/shared_ptr.hpp
index 8648592..17642ec 100644
--- a/nestl/implementation/shared_ptr.hpp
+++ b/nestl/implementation/shared_ptr.hpp
@@ -530,6 +530,7 @@ shared_ptr<T> make_shared_a_nothrow(OperationError& err, Allocator& alloc, Args&
     ptr->initialize(err, std::forward<Args>(args) ...);
     if (err)
     {
+        nestl::detail::destroy(ptr);
         return {nullptr};
     }
 
-- 
2.43.0


From f4f882e3cc6ef860f04c3c5b57bef072d20071b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:28 +0000
Subject: [PATCH 33/34] fix: class operations header compiles with clang when
 exceptions are disabled

---
 nestl/has_exceptions/detail/class_operations.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nestl/has_exceptions/detail/class_operations.hpp b/nestl/has_exceptions/detail/class_operations.hpp
index fe7b017..aaca7ed 100644
--- a/nestl/has_exceptions/detail/class_operations.hpp
+++ b/nestl/has_exceptions/detail/class_operations.hpp
@@ -24,6 +24,7 @@ struct class_operations_helper
         ::new(static_cast<void*>(ptr)) T(std::forward<Args>(args)...);
     }
 
+#if NESTL_HAS_EXCEPTIONS
     template <typename T, typename OperationError, typename ... Args>
     static
     typename std::enable_if<!std::is_nothrow_constructible<T, Args...>::value>::type
@@ -38,6 +39,7 @@ struct class_operations_helper
             from_exception_ptr(err, std::current_exception());
         }
     }
+#endif /* NESTL_HAS_EXCEPTIONS */
 
 
 
@@ -49,6 +51,7 @@ struct class_operations_helper
         dest = std::forward<Y>(src);
     }
 
+#if NESTL_HAS_EXCEPTIONS
     template <typename T, typename OperationError, typename Y>
     static
     typename std::enable_if<!std::is_nothrow_assignable<T&, Y>::value>::type
@@ -63,6 +66,7 @@ struct class_operations_helper
             from_exception_ptr(err, std::current_exception());
         }
     }
+#endif /* NESTL_HAS_EXCEPTIONS */
 };
 
 } // namespace detail
-- 
2.43.0


From dcd1d4ea3fce87413c63d8ba0a9205218e12f86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:06 +0000
Subject: [PATCH 34/34] fix: vector resize within the capacity keeps the
 storage

---
 nestl/implementation/vector.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index 6e719c7..1484e45 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -838,10 +838,13 @@ vector<T, A>::do_resize(OperationError& err, size_type count, Args&& ... args) N
     }
     else
     {
-        grow(err, count);
-        if (err)
+        if (count > capacity())
         {
-            return;
+            grow(err, count);
+            if (err)
+            {
+                return;
+            }
         }
 
         while (m_finish < m_start + count)
-- 
2.43.0

