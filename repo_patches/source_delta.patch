From 0b33c46d7bc03aeb0af2a4e2d7d9fff03b8ae164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:42 +0000
Subject: [PATCH 01/49] fix: small_vector: inserting an empty range must not
 touch the elements

---
 include/itlib/small_vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/itlib/small_vector.hpp b/include/itlib/small_vector.hpp
index 30992db..1b7086d 100644
--- a/include/itlib/small_vector.hpp
+++ b/include/itlib/small_vector.hpp
@@ -762,6 +762,8 @@ private:
 
         I_ITLIB_SMALL_VECTOR_OUT_OF_RANGE_IF(position < m_begin || position > m_end);
 
+        if (num == 0) return position; // nothing to make room for
+
         const auto s = size();
         const auto cdr = choose_data(s + num);
 
-- 
2.43.0


From 923259bbffafe805c2666f1c95ffa52efd8eb0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:42 +0000
Subject: [PATCH 02/49] fix: small_vector: erasing an empty range must not
 destroy and rebuild elements

---
 include/itlib/small_vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/itlib/small_vector.hpp b/include/itlib/small_vector.hpp
index 1b7086d..1524b7b 100644
--- a/include/itlib/small_vector.hpp
+++ b/include/itlib/small_vector.hpp
@@ -827,6 +827,8 @@ private:
 
         I_ITLIB_SMALL_VECTOR_OUT_OF_RANGE_IF(position < m_begin || position > m_end || position + num > m_end);
 
+        if (num == 0) return position; // nothing to remove
+
         const auto s = size();
         if (s - num == 0)
         {
-- 
2.43.0


From 738249534ef54bce339dee4469e01dbb2d8aaedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:42 +0000
Subject: [PATCH 03/49] fix: small_vector: shrink_to_fit and revert_to_static
 with size equal to the static capacity

---
 include/itlib/small_vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/itlib/small_vector.hpp b/include/itlib/small_vector.hpp
index 1524b7b..ff38066 100644
--- a/include/itlib/small_vector.hpp
+++ b/include/itlib/small_vector.hpp
@@ -512,14 +512,14 @@ public:
     {
         const auto s = size();
 
-        if (s == m_capacity) return false; // we're at max
         if (is_static()) return false; // can't shrink static buf
+        if (s == m_capacity && s > StaticCapacity) return false; // we're at max
 
         auto old_begin = m_begin;
         auto old_end = m_end;
         auto old_cap = m_capacity;
 
-        if (s < StaticCapacity)
+        if (s <= StaticCapacity)
         {
             // revert to static capacity
             m_begin = m_end = static_begin_ptr();
-- 
2.43.0


From 34cd1bb5520a9018318a1abd6d12cda8dc42a363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:42 +0000
Subject: [PATCH 04/49] fix: small_vector: failed allocation in assignment
 destroyed elements twice

---
 include/itlib/small_vector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/itlib/small_vector.hpp b/include/itlib/small_vector.hpp
index ff38066..6c62edc 100644
--- a/include/itlib/small_vector.hpp
+++ b/include/itlib/small_vector.hpp
@@ -728,6 +728,7 @@ private:
         {
             atraits::destroy(get_alloc(), p);
         }
+        m_end = m_begin; // so elements are not destroyed again if a subsequent allocation throws
     }
 
     void take_impl(small_vector& v)
-- 
2.43.0


From 5a934769d096524b66a1a86982c43b8c3f455b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:42 +0000
Subject: [PATCH 05/49] fix: small_vector: adding elements must not discard
 reserved capacity

---
 include/itlib/small_vector.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/itlib/small_vector.hpp b/include/itlib/small_vector.hpp
index 6c62edc..7c8753e 100644
--- a/include/itlib/small_vector.hpp
+++ b/include/itlib/small_vector.hpp
@@ -712,6 +712,11 @@ public:
     }
 
 private:
+    struct choose_data_result {
+        T* ptr;
+        size_t cap;
+    };
+
     const T* static_begin_ptr() const
     {
         return reinterpret_cast<const_pointer>(m_static_data + 0);
@@ -766,7 +771,9 @@ private:
         if (num == 0) return position; // nothing to make room for
 
         const auto s = size();
-        const auto cdr = choose_data(s + num);
+
+        // don't revert to static when growing: the capacity may have been reserved
+        const auto cdr = s + num > m_capacity ? choose_data(s + num) : choose_data_result{m_begin, m_capacity};
 
         if (cdr.ptr == m_begin)
         {
@@ -954,10 +961,6 @@ private:
         m_capacity = cdr.cap;
     }
 
-    struct choose_data_result {
-        T* ptr;
-        size_t cap;
-    };
     choose_data_result choose_data(size_t desired_capacity)
     {
         choose_data_result ret = {m_begin, m_capacity};
-- 
2.43.0


From 5cef9e8c23c0eb5798d596f4eb84d3ecff68e4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:42 +0000
Subject: [PATCH 06/49] fix: small_vector: max_size did not compile

---
 include/itlib/small_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/small_vector.hpp b/include/itlib/small_vector.hpp
index 7c8753e..b4198c8 100644
--- a/include/itlib/small_vector.hpp
+++ b/include/itlib/small_vector.hpp
@@ -466,7 +466,7 @@ public:
 
     size_t max_size() const noexcept
     {
-        return atraits::max_size();
+        return atraits::max_size(get_alloc());
     }
 
     void reserve(size_type new_cap)
-- 
2.43.0


From 4b0e83dd8d20f70e1a23eba45c9a75eaf64bfa0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:23 +0000
Subject: [PATCH 07/49] fix: small_vector: arguments which refer to own
 elements were used after being moved

---
 include/itlib/small_vector.hpp | 52 +++++++++++++++++++++++++++++++---
 1 file changed, 48 insertions(+), 4 deletions(-)

diff --git a/include/itlib/small_vector.hpp b/include/itlib/small_vector.hpp
index b4198c8..3b61883 100644
--- a/include/itlib/small_vector.hpp
+++ b/include/itlib/small_vector.hpp
@@ -154,6 +154,7 @@
 
 #include <type_traits>
 #include <cstddef>
+#include <cstdint>
 #include <memory>
 
 #define ITLIB_SMALL_VECTOR_ERROR_HANDLING_NONE  0
@@ -582,6 +583,7 @@ public:
 
     iterator insert(const_iterator position, const value_type& val)
     {
+        if (is_own(val)) return insert(position, value_type(val)); // growing may move val away
         auto pos = grow_at(position, 1);
         atraits::construct(get_alloc(), pos, val);
         return pos;
@@ -596,12 +598,13 @@ public:
 
     iterator insert(const_iterator position, size_type count, const value_type& val)
     {
-        auto pos = grow_at(position, count);
-        for (size_type i = 0; i < count; ++i)
+        if (is_own(val))
         {
-            atraits::construct(get_alloc(), pos + i, val);
+            // growing may move val away
+            const value_type copy(val);
+            return insert_fill(position, count, copy);
         }
-        return pos;
+        return insert_fill(position, count, val);
     }
 
     template <typename InputIterator, typename = decltype(*std::declval<InputIterator>())>
@@ -631,6 +634,7 @@ public:
     template<typename... Args>
     iterator emplace(const_iterator position, Args&&... args)
     {
+        if (is_own(args...)) return insert(position, value_type(std::forward<Args>(args)...)); // growing may move args away
         auto pos = grow_at(position, 1);
         atraits::construct(get_alloc(), pos, std::forward<Args>(args)...);
         return pos;
@@ -649,6 +653,7 @@ public:
 
     void push_back(const_reference val)
     {
+        if (is_own(val)) return push_back(value_type(val)); // growing may move val away
         auto pos = grow_at(m_end, 1);
         atraits::construct(get_alloc(), pos, val);
     }
@@ -662,6 +667,11 @@ public:
     template<typename... Args>
     reference emplace_back(Args&&... args)
     {
+        if (is_own(args...))
+        {
+            push_back(value_type(std::forward<Args>(args)...)); // growing may move args away
+            return back();
+        }
         auto pos = grow_at(m_end, 1);
         atraits::construct(get_alloc(), pos, std::forward<Args>(args)...);
         return *pos;
@@ -673,6 +683,18 @@ public:
     }
 
     void resize(size_type n, const value_type& v)
+    {
+        if (is_own(v))
+        {
+            // growing may move v away
+            const value_type copy(v);
+            return resize_fill(n, copy);
+        }
+        resize_fill(n, v);
+    }
+
+private:
+    void resize_fill(size_type n, const value_type& v)
     {
         reserve(n);
 
@@ -689,6 +711,28 @@ public:
         }
     }
 
+    iterator insert_fill(const_iterator position, size_type count, const value_type& val)
+    {
+        auto pos = grow_at(position, count);
+        for (size_type i = 0; i < count; ++i)
+        {
+            atraits::construct(get_alloc(), pos + i, val);
+        }
+        return pos;
+    }
+
+    // check whether any of the arguments is (a part of) an element of this vector
+    bool is_own() const { return false; }
+
+    template <typename Arg, typename... Args>
+    bool is_own(const Arg& arg, const Args&... args) const
+    {
+        const auto a = reinterpret_cast<uintptr_t>(std::addressof(arg));
+        return (a >= reinterpret_cast<uintptr_t>(m_begin) && a < reinterpret_cast<uintptr_t>(m_end)) || is_own(args...);
+    }
+
+public:
+
     void resize(size_type n)
     {
         reserve(n);
-- 
2.43.0


From 8386b24f7a01bc92e6160830f144ad360c96407c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:28 +0000
Subject: [PATCH 08/49] fix: static_vector: erasing an empty range destroyed
 and rebuilt the elements from themselves

---
 include/itlib/static_vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/itlib/static_vector.hpp b/include/itlib/static_vector.hpp
index bf36868..58cd82a 100644
--- a/include/itlib/static_vector.hpp
+++ b/include/itlib/static_vector.hpp
@@ -646,6 +646,8 @@ private:
         auto position = const_cast<T*>(cp);
 
         const auto s = size();
+        if (num == 0) return position;
+
         if (s - num == 0)
         {
             clear();
-- 
2.43.0


From cce2afacd101319886a98bf43c88d56920f007bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:28 +0000
Subject: [PATCH 09/49] fix: static_vector: insert of a huge count wrapped
 around the capacity check

---
 include/itlib/static_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/static_vector.hpp b/include/itlib/static_vector.hpp
index 58cd82a..076e277 100644
--- a/include/itlib/static_vector.hpp
+++ b/include/itlib/static_vector.hpp
@@ -622,7 +622,7 @@ private:
     }
 
     T* grow_at(const T* cp, size_t by) {
-        I_ITLIB_STATIC_VECTOR_OUT_OF_RANGE_IF(size() + by > Capacity);
+        I_ITLIB_STATIC_VECTOR_OUT_OF_RANGE_IF(by > Capacity - size());
         I_ITLIB_STATIC_VECTOR_BOUNDS_CHECK_ITER(cp);
 
         auto position = const_cast<T*>(cp);
-- 
2.43.0


From c286b6afce47ee504adc141acc6f1c4ca752c73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:28 +0000
Subject: [PATCH 10/49] fix: static_vector: insert and emplace used own
 elements after moving them

---
 include/itlib/static_vector.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/itlib/static_vector.hpp b/include/itlib/static_vector.hpp
index 076e277..c10f6b6 100644
--- a/include/itlib/static_vector.hpp
+++ b/include/itlib/static_vector.hpp
@@ -463,8 +463,9 @@ public:
 
     iterator insert(const_iterator position, const value_type& val)
     {
+        T copy(val); // val may be an element of this
         auto pos = grow_at(position, 1);
-        ::new (pos) T(val);
+        ::new (pos) T(std::move(copy));
         return pos;
     }
 
@@ -477,10 +478,11 @@ public:
 
     iterator insert(const_iterator position, size_type count, const value_type& val)
     {
+        const T copy(val); // val may be an element of this
         auto pos = grow_at(position, count);
         for (size_type i = 0; i < count; ++i)
         {
-            ::new (pos + i) T(val);
+            ::new (pos + i) T(copy);
         }
         return pos;
     }
@@ -512,8 +514,9 @@ public:
     template<typename... Args>
     iterator emplace(const_iterator position, Args&&... args)
     {
+        T elem(std::forward<Args>(args)...); // args may refer to elements of this
         auto pos = grow_at(position, 1);
-        ::new (pos) T(std::forward<Args>(args)...);
+        ::new (pos) T(std::move(elem));
         return pos;
     }
 
-- 
2.43.0


From 3cf2b2f1929930aec81f433692c0a7fa9d2f8648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:28 +0000
Subject: [PATCH 11/49] fix: pod_vector: resize with value wrote past the end
 of the buffer

---
 include/itlib/pod_vector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/itlib/pod_vector.hpp b/include/itlib/pod_vector.hpp
index bfe8674..df123fb 100644
--- a/include/itlib/pod_vector.hpp
+++ b/include/itlib/pod_vector.hpp
@@ -606,8 +606,9 @@ public:
 
     bool resize(size_type n, const value_type& val)
     {
+        const value_type copy = val; // val may be an element of this
         bool ret = reserve(n);
-        fill(m_end, n, val);
+        if (n > size()) fill(m_end, n - size(), copy);
         m_end = m_begin + n;
         return ret;
     }
-- 
2.43.0


From ce3117feaf57ac45b3cefe2fc8b9dea12eb84d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:28 +0000
Subject: [PATCH 12/49] fix: pod_vector: insert and push_back used own elements
 after moving or freeing them

---
 include/itlib/pod_vector.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/itlib/pod_vector.hpp b/include/itlib/pod_vector.hpp
index df123fb..21cd310 100644
--- a/include/itlib/pod_vector.hpp
+++ b/include/itlib/pod_vector.hpp
@@ -537,15 +537,17 @@ public:
 
     iterator insert(const_iterator position, const value_type& val)
     {
+        const value_type copy = val; // val may be an element of this
         auto pos = grow_at(position, 1);
-        *pos = val;
+        *pos = copy;
         return pos;
     }
 
     iterator insert(const_iterator position, size_type count, const value_type& val)
     {
+        const value_type copy = val; // val may be an element of this
         auto pos = grow_at(position, count);
-        fill(pos, count, val);
+        fill(pos, count, copy);
         return pos;
     }
 
@@ -590,7 +592,8 @@ public:
 
     reference push_back(const_reference val)
     {
-        return emplace_back() = val;
+        const value_type copy = val; // val may be an element of this
+        return emplace_back() = copy;
     }
 
     // for compatibility
-- 
2.43.0


From 74034527e3ac51e51577d26cbb91f20004fbaab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:52 +0000
Subject: [PATCH 13/49] fix: pod_vector: expanding a recast buffer in place
 could request too few bytes

---
 include/itlib/pod_vector.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/itlib/pod_vector.hpp b/include/itlib/pod_vector.hpp
index 21cd310..380153a 100644
--- a/include/itlib/pod_vector.hpp
+++ b/include/itlib/pod_vector.hpp
@@ -875,7 +875,9 @@ private:
         else
         {
             auto ptr = real_addr(m_begin);
-            if (!Alloc::expand(ptr, e2b(num_elements) + alignof(value_type))) return false;
+            // the offset may be bigger than our alignment if the buffer was taken from a vector of another type
+            const size_t offset = reinterpret_cast<uint8_t*>(m_begin) - reinterpret_cast<uint8_t*>(ptr);
+            if (!Alloc::expand(ptr, e2b(num_elements) + (std::max)(offset, alignof(value_type)))) return false;
         }
 
         m_capacity = num_elements;
-- 
2.43.0


From b9f9e3b8494cf9ab2b853696b2c8f1eae2c953ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:28 +0000
Subject: [PATCH 14/49] fix: atomic_shared_ptr_storage: failed compare_exchange
 released the expected object under the spinlock

---
 include/itlib/atomic_shared_ptr_storage.hpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/include/itlib/atomic_shared_ptr_storage.hpp b/include/itlib/atomic_shared_ptr_storage.hpp
index b59a038..b40ccaa 100644
--- a/include/itlib/atomic_shared_ptr_storage.hpp
+++ b/include/itlib/atomic_shared_ptr_storage.hpp
@@ -119,15 +119,18 @@ public:
 
     // have _strong to match atomic<shared_ptr>
     bool compare_exchange_strong(sptr& expect, sptr ptr) noexcept {
-        asps_spinlock::lock_guard _l(m_spinlock);
-        if (m_ptr == expect) {
-            m_ptr.swap(ptr);
-            return true;
-        }
-        else {
-            expect = m_ptr;
-            return false;
+        sptr cur;
+        {
+            asps_spinlock::lock_guard _l(m_spinlock);
+            if (m_ptr == expect) {
+                m_ptr.swap(ptr);
+                return true;
+            }
+            cur = m_ptr;
         }
+        // release the old value of expect outside of the lock: its deleter may use this storage
+        expect = std::move(cur);
+        return false;
     }
 };
 #if defined(_MSC_VER)
-- 
2.43.0


From 3b06f0110caa5a07150e0a2021c17c61e5c8daa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:20 +0000
Subject: [PATCH 15/49] fix: data_mutex: an accessor unlocked a mutex which it
 failed to lock

---
 include/itlib/data_mutex.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/itlib/data_mutex.hpp b/include/itlib/data_mutex.hpp
index 60ffbfe..ae96e2a 100644
--- a/include/itlib/data_mutex.hpp
+++ b/include/itlib/data_mutex.hpp
@@ -76,8 +76,7 @@ public:
     protected:
         Mutex& m_mutex;
         CT* m_data;
-        lock_base_t(Mutex& mutex, CT& data) : m_mutex(mutex), m_data(&data) {}
-        lock_base_t(Mutex& mutex) : m_mutex(mutex) {}
+        lock_base_t(Mutex& mutex) : m_mutex(mutex), m_data(nullptr) {}
         ~lock_base_t() = default;
         lock_base_t(const lock_base_t&) = delete;
         lock_base_t& operator=(const lock_base_t&) = delete;
@@ -101,8 +100,9 @@ public:
     };
 
     struct unique_lock_t : public unique_lock_base_t<T> {
-        explicit unique_lock_t(data_mutex& dm) : unique_lock_base_t<T>(dm.m_mutex, dm.m_data) {
+        explicit unique_lock_t(data_mutex& dm) : unique_lock_base_t<T>(dm.m_mutex) {
             this->m_mutex.lock();
+            this->m_data = &dm.m_data; // only after the lock was acquired
         }
     };
 
@@ -115,8 +115,9 @@ public:
     };
 
     struct const_unique_lock_t : public unique_lock_base_t<const T> {
-        explicit const_unique_lock_t(const data_mutex& dm) : unique_lock_base_t<const T>(dm.m_mutex, dm.m_data) {
+        explicit const_unique_lock_t(const data_mutex& dm) : unique_lock_base_t<const T>(dm.m_mutex) {
             this->m_mutex.lock();
+            this->m_data = &dm.m_data; // only after the lock was acquired
         }
     };
 
@@ -136,8 +137,9 @@ public:
     };
 
     struct shared_lock_t : public shared_lock_base_t {
-        explicit shared_lock_t(const data_mutex& dm) : shared_lock_base_t(dm.m_mutex, dm.m_data) {
+        explicit shared_lock_t(const data_mutex& dm) : shared_lock_base_t(dm.m_mutex) {
             this->m_mutex.lock_shared();
+            this->m_data = &dm.m_data; // only after the lock was acquired
         }
     };
 
-- 
2.43.0


From cca88cf5e4b79a8e3de01dee5d381a63147a53a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:21 +0000
Subject: [PATCH 16/49] fix: flat_map: construction from a range kept an
 arbitrary one of several equivalent elements

---
 include/itlib/flat_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/flat_map.hpp b/include/itlib/flat_map.hpp
index f2a7d79..d4fddeb 100644
--- a/include/itlib/flat_map.hpp
+++ b/include/itlib/flat_map.hpp
@@ -169,7 +169,7 @@ public:
         : pair_compare(comp)
         , m_container(std::move(container))
     {
-        std::sort(m_container.begin(), m_container.end(), cmp());
+        std::stable_sort(m_container.begin(), m_container.end(), cmp()); // of equivalent elements the first one is kept
         auto new_end = std::unique(m_container.begin(), m_container.end(), [this](const value_type& a, const value_type& b) {
             return !cmp()(a, b) && !cmp()(b, a);
         });
-- 
2.43.0


From 1b086cb817761d3685040b5668cfe98109a5bdc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:21 +0000
Subject: [PATCH 17/49] fix: flat_set: construction from a range kept an
 arbitrary one of several equivalent elements

---
 include/itlib/flat_set.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/flat_set.hpp b/include/itlib/flat_set.hpp
index 53f03a6..8225f47 100644
--- a/include/itlib/flat_set.hpp
+++ b/include/itlib/flat_set.hpp
@@ -135,7 +135,7 @@ public:
         : Compare(comp)
         , m_container(std::move(container))
     {
-        std::sort(m_container.begin(), m_container.end(), cmp());
+        std::stable_sort(m_container.begin(), m_container.end(), cmp()); // of equivalent elements the first one is kept
         auto new_end = std::unique(m_container.begin(), m_container.end(), [this](const value_type& a, const value_type& b) -> bool {
             return !cmp()(a, b) && !cmp()(b, a);
         });
-- 
2.43.0


From db55f4b8945ca3786423cbe7002ba25f786161f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:12 +0000
Subject: [PATCH 18/49] fix: transparent_umap: overloads for foreign keys were
 never enabled and hinted try_emplace did not return an iterator

---
 include/itlib/transparent_umap.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/itlib/transparent_umap.hpp b/include/itlib/transparent_umap.hpp
index a69436f..f0cbc80 100644
--- a/include/itlib/transparent_umap.hpp
+++ b/include/itlib/transparent_umap.hpp
@@ -83,13 +83,17 @@ public:
 
     // enable if transparent
     template <typename K, typename R>
-    using enable_if_tr = std::enable_if_t<tumimpl::is_transparent<K>, R>;
+    using enable_if_tr = std::enable_if_t<
+        tumimpl::is_transparent<Hash> && tumimpl::is_transparent<KeyEqual>
+        && !std::is_void_v<K> // (always true) makes the condition dependent on K
+        , R
+    >;
 
     // enable if transparent and convertible
     template <typename K, typename R>
     using enable_if_tr_c = std::enable_if_t<
-        tumimpl::is_transparent<K>
-        && std::is_convertible_v<Key, K>
+        tumimpl::is_transparent<Hash> && tumimpl::is_transparent<KeyEqual>
+        && std::is_constructible_v<Key, K>
         // but not iterators
         && !std::is_convertible_v<K, iterator>
         && !std::is_convertible_v<K, const_iterator>
@@ -106,10 +110,10 @@ public:
     }
 
     template <typename K, typename... Args>
-    enable_if_tr<K, std::pair<iterator, bool>> try_emplace(const_iterator hint, K&& key, Args&&... args) {
+    enable_if_tr<K, iterator> try_emplace(const_iterator hint, K&& key, Args&&... args) {
         // what does the hint even mean?
         auto f = this->find(key);
-        if (f != this->end()) return { f, false };
+        if (f != this->end()) return f;
         return this->emplace_hint(hint, std::forward<K>(key), T(std::forward<Args>(args)...));
     }
 
-- 
2.43.0


From 0dedc562a63a43c9eb0b8d18e6b506e2abf1e325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:50 +0000
Subject: [PATCH 19/49] fix: dynamic_bitset: all() was always false for bitsets
 of whole 8 or 16 bit words

---
 include/itlib/dynamic_bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/dynamic_bitset.hpp b/include/itlib/dynamic_bitset.hpp
index ee84748..c915ea4 100644
--- a/include/itlib/dynamic_bitset.hpp
+++ b/include/itlib/dynamic_bitset.hpp
@@ -199,7 +199,7 @@ public:
         auto endit = it + m_size / bits_per_word;
         for (; it != endit; ++it)
         {
-            if (*it != ~word_type(0)) return false;
+            if (*it != word_type(~word_type(0))) return false;
         }
         if (endit != m_buf.end())
         {
-- 
2.43.0


From 9ada6881afd0f0907ea333d93c07cc0f0ef1a69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:03 +0000
Subject: [PATCH 20/49] fix: dynamic_bitset: copy() lost bits of the last
 partial word when they span two words of the source

---
 include/itlib/dynamic_bitset.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/itlib/dynamic_bitset.hpp b/include/itlib/dynamic_bitset.hpp
index c915ea4..6e6fa60 100644
--- a/include/itlib/dynamic_bitset.hpp
+++ b/include/itlib/dynamic_bitset.hpp
@@ -400,7 +400,13 @@ public:
 
         // now what remains is some bits from source that need to be splicet onto our last element
         const auto rpad = to.index % bits_per_word;
-        m_buf[own_windex] = ((src[src_windex] >> pad) & (word_mask(rpad) - 1)) | (m_buf[own_windex] & ~(word_mask(rpad) - 1));
+        word_type tail = src[src_windex] >> pad;
+        if (pad + rpad > bits_per_word)
+        {
+            // the remaining bits continue in the next element of the source
+            tail |= src[src_windex + 1] << (bits_per_word - pad);
+        }
+        m_buf[own_windex] = (tail & (word_mask(rpad) - 1)) | (m_buf[own_windex] & ~(word_mask(rpad) - 1));
     }
 
     // static ops
-- 
2.43.0


From fbcddaa63aad04264317c0442551167b891f9e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:20 +0000
Subject: [PATCH 21/49] fix: any, pmr_allocator: the headers could not be
 included twice

---
 include/itlib/any.hpp           | 1 +
 include/itlib/pmr_allocator.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/itlib/any.hpp b/include/itlib/any.hpp
index 90994d3..69b7afa 100644
--- a/include/itlib/any.hpp
+++ b/include/itlib/any.hpp
@@ -50,6 +50,7 @@
 // You can find unit tests in the official repo:
 // https://github.com/iboB/itlib/blob/master/test/
 //
+#pragma once
 #include <new>
 #include <cstdint>
 #include <cstdlib>
diff --git a/include/itlib/pmr_allocator.hpp b/include/itlib/pmr_allocator.hpp
index 33efd0f..4a30f7f 100644
--- a/include/itlib/pmr_allocator.hpp
+++ b/include/itlib/pmr_allocator.hpp
@@ -46,6 +46,7 @@
 // You can find unit tests in the official repo:
 // https://github.com/iboB/itlib/blob/master/test/
 //
+#pragma once
 #include <memory_resource>
 #include <cstddef>
 
-- 
2.43.0


From ad3eece9287e1bb571360648323bb7d83aa0dfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:20 +0000
Subject: [PATCH 22/49] fix: any: copies from an any with another allocator
 type did not compile

---
 include/itlib/any.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/itlib/any.hpp b/include/itlib/any.hpp
index 69b7afa..df613ea 100644
--- a/include/itlib/any.hpp
+++ b/include/itlib/any.hpp
@@ -143,6 +143,7 @@ struct is_any<any<Alloc>> : public std::true_type {};
 template <typename Alloc = anyimpl::default_allocator>
 class any : private /*EBO*/ Alloc {
     anyimpl::obj_block* m_block = nullptr;
+    template <typename> friend class any;
 public:
     using allocator_type = Alloc;
 
-- 
2.43.0


From 0c884c2327d588d04ef8a536ec919854ad4bc18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:20 +0000
Subject: [PATCH 23/49] fix: any: construction and assignment from an lvalue
 stored a reference to it

---
 include/itlib/any.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/itlib/any.hpp b/include/itlib/any.hpp
index df613ea..ee72989 100644
--- a/include/itlib/any.hpp
+++ b/include/itlib/any.hpp
@@ -175,15 +175,15 @@ public:
     // only enable these if T is not another any
     template <typename T, typename std::enable_if<!anyimpl::is_any<typename std::decay<T>::type>::value, int>::type = 0>
     any(T&& t) {
-        emplace<T>(std::forward<T>(t));
+        emplace<typename std::decay<T>::type>(std::forward<T>(t));
     }
     template <typename T, typename std::enable_if<!anyimpl::is_any<typename std::decay<T>::type>::value, int>::type = 0>
     any(std::allocator_arg_t, const Alloc& a, T&& t) : Alloc(a) {
-        emplace<T>(std::forward<T>(t));
+        emplace<typename std::decay<T>::type>(std::forward<T>(t));
     }
     template <typename T, typename std::enable_if<!anyimpl::is_any<typename std::decay<T>::type>::value, int>::type = 0>
     any& operator=(T&& t) {
-        emplace<T>(std::forward<T>(t));
+        emplace<typename std::decay<T>::type>(std::forward<T>(t));
         return *this;
     }
 
-- 
2.43.0


From 557c408a6fc64b88bb0220049ef640f971e35aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:20 +0000
Subject: [PATCH 24/49] fix: any: construction from a non-const or temporary
 allocator stored the allocator as a value

---
 include/itlib/any.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/itlib/any.hpp b/include/itlib/any.hpp
index ee72989..3750699 100644
--- a/include/itlib/any.hpp
+++ b/include/itlib/any.hpp
@@ -173,7 +173,8 @@ public:
     }
 
     // only enable these if T is not another any
-    template <typename T, typename std::enable_if<!anyimpl::is_any<typename std::decay<T>::type>::value, int>::type = 0>
+    // ... or the allocator
+    template <typename T, typename std::enable_if<!anyimpl::is_any<typename std::decay<T>::type>::value && !std::is_same<typename std::decay<T>::type, Alloc>::value, int>::type = 0>
     any(T&& t) {
         emplace<typename std::decay<T>::type>(std::forward<T>(t));
     }
-- 
2.43.0


From 4648d22f9fe8abde1f1457d83060e02c51739896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:20 +0000
Subject: [PATCH 25/49] fix: any: assignment from itself or from a part of its
 own value used destroyed objects

---
 include/itlib/any.hpp | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/include/itlib/any.hpp b/include/itlib/any.hpp
index 3750699..d8064e6 100644
--- a/include/itlib/any.hpp
+++ b/include/itlib/any.hpp
@@ -156,9 +156,11 @@ public:
     }
     any& operator=(any&& o) noexcept {
         if (&o == this) return *this; // prevent self usurp
-        reset();
-        m_block = o.m_block;
+        // take the value first, as o may be a part of the current one
+        auto block = o.m_block;
         o.m_block = nullptr;
+        reset();
+        m_block = block;
         return *this;
     }
 
@@ -168,6 +170,7 @@ public:
     }
     any(const any& o) : any(o, Alloc{}) {}
     any& operator=(const any& o) {
+        if (&o == this) return *this;
         copy_from(o);
         return *this;
     }
@@ -184,7 +187,9 @@ public:
     }
     template <typename T, typename std::enable_if<!anyimpl::is_any<typename std::decay<T>::type>::value, int>::type = 0>
     any& operator=(T&& t) {
-        emplace<typename std::decay<T>::type>(std::forward<T>(t));
+        // create the new value first, as t may be a part of the current one
+        any tmp(std::allocator_arg, *this, std::forward<T>(t));
+        std::swap(m_block, tmp.m_block);
         return *this;
     }
 
@@ -238,18 +243,22 @@ public:
 
     template <typename OAlloc>
     void copy_from(const any<OAlloc>& o) {
-        reset();
-        if (!o.has_value()) return;
-        m_block = static_cast<anyimpl::obj_block*>(Alloc::allocate_bytes(o.m_block->size, o.m_block->alignment));
-        try {
-            o.m_block->clone_to(m_block);
-            m_block->size = o.m_block->size;
-            m_block->alignment = o.m_block->alignment;
-        }
-        catch (...) {
-            free_block(o.m_block->size, o.m_block->alignment);
-            throw;
+        // create the copy first, as o may be a part of the current value
+        anyimpl::obj_block* block = nullptr;
+        if (o.has_value()) {
+            block = static_cast<anyimpl::obj_block*>(Alloc::allocate_bytes(o.m_block->size, o.m_block->alignment));
+            try {
+                o.m_block->clone_to(block);
+                block->size = o.m_block->size;
+                block->alignment = o.m_block->alignment;
+            }
+            catch (...) {
+                Alloc::deallocate_bytes(block, o.m_block->size, o.m_block->alignment);
+                throw;
+            }
         }
+        reset();
+        m_block = block;
     }
 
     const std::type_info& type() const noexcept {
-- 
2.43.0


From 8ec715e6ced3b4a60d40d324d18ce4eef8402e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:09 +0000
Subject: [PATCH 26/49] fix: any: move assignment from an any with an unequal
 allocator returned the block to the wrong allocator

---
 include/itlib/any.hpp | 46 ++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 45 insertions(+), 1 deletion(-)

diff --git a/include/itlib/any.hpp b/include/itlib/any.hpp
index d8064e6..e165219 100644
--- a/include/itlib/any.hpp
+++ b/include/itlib/any.hpp
@@ -94,6 +94,7 @@ struct obj_block {
     virtual void* data() noexcept = 0;
 
     virtual void clone_to(obj_block* buf) const = 0;
+    virtual void move_to(obj_block* buf) = 0;
 
     virtual const std::type_info& type() const noexcept = 0;
 };
@@ -127,6 +128,20 @@ struct obj_block_for final : public obj_block {
         do_clone_to<>(buf);
     }
 
+    template <typename U = T, typename std::enable_if<!std::is_move_constructible<U>::value, int>::type = 0>
+    [[noreturn]] void do_move_to(obj_block*) {
+        throw std::bad_cast();
+    }
+
+    template <typename U = T, typename std::enable_if<std::is_move_constructible<U>::value, int>::type = 0>
+    void do_move_to(obj_block* buf) {
+        new (buf) obj_block_for(std::move(m_data));
+    }
+
+    virtual void move_to(obj_block* buf) override {
+        do_move_to<>(buf);
+    }
+
     virtual const std::type_info& type() const noexcept override {
         return typeid(T);
     }
@@ -154,8 +169,13 @@ public:
     any(any&& o) noexcept : Alloc(o), m_block(o.m_block) {
         o.m_block = nullptr;
     }
-    any& operator=(any&& o) noexcept {
+    any& operator=(any&& o) noexcept(std::is_empty<Alloc>::value) {
         if (&o == this) return *this; // prevent self usurp
+        if (!has_alloc_of(o, std::is_empty<Alloc>{})) {
+            // our allocator can't free the block of o: move the value to a new one
+            move_from(o);
+            return *this;
+        }
         // take the value first, as o may be a part of the current one
         auto block = o.m_block;
         o.m_block = nullptr;
@@ -267,6 +287,30 @@ public:
     }
 
 private:
+    bool has_alloc_of(const any&, std::true_type) const noexcept { return true; }
+    bool has_alloc_of(const any& o, std::false_type) const noexcept {
+        return static_cast<const Alloc&>(*this) == static_cast<const Alloc&>(o);
+    }
+
+    void move_from(any& o) {
+        anyimpl::obj_block* block = nullptr;
+        if (o.m_block) {
+            block = static_cast<anyimpl::obj_block*>(Alloc::allocate_bytes(o.m_block->size, o.m_block->alignment));
+            try {
+                o.m_block->move_to(block);
+                block->size = o.m_block->size;
+                block->alignment = o.m_block->alignment;
+            }
+            catch (...) {
+                Alloc::deallocate_bytes(block, o.m_block->size, o.m_block->alignment);
+                throw;
+            }
+        }
+        o.reset();
+        reset();
+        m_block = block;
+    }
+
     void free_block(size_t size, size_t alignment) noexcept {
         Alloc::deallocate_bytes(m_block, size, alignment);
         m_block = nullptr;
-- 
2.43.0


From 1b252922c5cf5d08dab9ae0d896c4ed60cb4bef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:30 +0000
Subject: [PATCH 27/49] fix: pmr_allocator: containers with this allocator
 could not be copied

---
 include/itlib/pmr_allocator.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/itlib/pmr_allocator.hpp b/include/itlib/pmr_allocator.hpp
index 4a30f7f..b082e75 100644
--- a/include/itlib/pmr_allocator.hpp
+++ b/include/itlib/pmr_allocator.hpp
@@ -60,6 +60,9 @@ public:
 
     using super::polymorphic_allocator;
 
+    // the one from super doesn't return a pmr_allocator
+    pmr_allocator select_on_container_copy_construction() const { return pmr_allocator(); }
+
     // leave this to the standard implementation if available
 #if __cplusplus < 202000L
     using super::resource;
-- 
2.43.0


From 24b46e1a4e273151422e20fb1b95f3296c244f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:17 +0000
Subject: [PATCH 28/49] fix: pmr_allocator: allocate_object of a huge count
 wrapped around to a small allocation

---
 include/itlib/pmr_allocator.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/itlib/pmr_allocator.hpp b/include/itlib/pmr_allocator.hpp
index b082e75..d0fdfc6 100644
--- a/include/itlib/pmr_allocator.hpp
+++ b/include/itlib/pmr_allocator.hpp
@@ -49,6 +49,7 @@
 #pragma once
 #include <memory_resource>
 #include <cstddef>
+#include <new>
 
 namespace itlib {
 
@@ -77,6 +78,7 @@ public:
 
     template <class U>
     [[nodiscard]] U* allocate_object(std::size_t n = 1) {
+        if (n > std::size_t(-1) / sizeof(U)) throw std::bad_array_new_length();
         return static_cast<U*>(allocate_bytes(n * sizeof(U), alignof(U)));
     }
 
-- 
2.43.0


From c541252baee5eab30944fa483d457cbcb4bb6f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:24 +0000
Subject: [PATCH 29/49] fix: expected: an lvalue given to unexpected() was
 moved from

---
 include/itlib/expected.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/itlib/expected.hpp b/include/itlib/expected.hpp
index 3685445..beffe5e 100644
--- a/include/itlib/expected.hpp
+++ b/include/itlib/expected.hpp
@@ -183,7 +183,7 @@ public:
     expected(T&& t) : m_value(std::forward<T>(t)), m_has_value(true) {}
 
     template <typename E2>
-    expected(unexpected_t<E2>&& u) : m_error(std::move(u.m_error)), m_has_value(false) {}
+    expected(unexpected_t<E2>&& u) : m_error(std::forward<E2>(u.m_error)), m_has_value(false) {}
 
     expected(unexpected_t<void>) : m_error(), m_has_value(false) {}
 
@@ -316,7 +316,7 @@ public:
     expected(T& t) : m_value(&t) {}
 
     template <typename E2>
-    expected(unexpected_t<E2>&& u) : m_value(nullptr), m_error(std::move(u.m_error)) {}
+    expected(unexpected_t<E2>&& u) : m_value(nullptr), m_error(std::forward<E2>(u.m_error)) {}
 
     expected(unexpected_t<void>) : m_value(nullptr), m_error() {}
 
@@ -416,7 +416,7 @@ public:
     expected() : m_has_value(true) {}
 
     template <typename E2>
-    expected(unexpected_t<E2>&& u) : m_error(std::move(u.m_error)), m_has_value(false) {}
+    expected(unexpected_t<E2>&& u) : m_error(std::forward<E2>(u.m_error)), m_has_value(false) {}
 
     expected(unexpected_t<void>) : m_error(), m_has_value(false) {}
 
-- 
2.43.0


From e964bac07d8f41251c207a215446f52d92933a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:38 +0000
Subject: [PATCH 30/49] fix: expected<void, E>: assignment between two values
 assigned the error which was not there

---
 include/itlib/expected.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/expected.hpp b/include/itlib/expected.hpp
index beffe5e..c9b3980 100644
--- a/include/itlib/expected.hpp
+++ b/include/itlib/expected.hpp
@@ -446,7 +446,7 @@ public:
             m_has_value = true;
             m_error.~E();
         }
-        else
+        else if (!m_has_value)
         {
             m_error = std::move(other.m_error);
         }
-- 
2.43.0


From 322d14a1fcada409a0ebdcdd5cab911e63839acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:52 +0000
Subject: [PATCH 31/49] fix: expected<T, void>: a copy assignment whose
 constructor throws pretended to have a value

---
 include/itlib/expected.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/expected.hpp b/include/itlib/expected.hpp
index c9b3980..2e6bb0d 100644
--- a/include/itlib/expected.hpp
+++ b/include/itlib/expected.hpp
@@ -528,8 +528,8 @@ public:
         }
         else if (!m_has_value && other.has_value())
         {
-            m_has_value = true;
             ::new (&m_value) T(other.m_value);
+            m_has_value = true;
         }
         return *this;
     }
-- 
2.43.0


From 4d77d5a422ae5559a99cd7145b3fbd9c1495aac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:10 +0000
Subject: [PATCH 32/49] fix: generator: a move assignment to itself destroyed
 the coroutine and kept the handle

---
 include/itlib/generator.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/itlib/generator.hpp b/include/itlib/generator.hpp
index 0cead31..2ad3248 100644
--- a/include/itlib/generator.hpp
+++ b/include/itlib/generator.hpp
@@ -152,6 +152,7 @@ public:
     generator(generator&& other) noexcept : m_handle(std::exchange(other.m_handle, nullptr)) {}
 
     generator& operator=(generator&& other) noexcept {
+        if (this == &other) return *this;
         if (m_handle) m_handle.destroy();
         m_handle = std::exchange(other.m_handle, nullptr);
         return *this;
-- 
2.43.0


From 214ab13e595f97aed5e800e2eb3275a637a8f85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:42 +0000
Subject: [PATCH 33/49] fix: generator: iterating a finished generator resumed
 a finished coroutine

---
 include/itlib/generator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/generator.hpp b/include/itlib/generator.hpp
index 2ad3248..8739c45 100644
--- a/include/itlib/generator.hpp
+++ b/include/itlib/generator.hpp
@@ -217,7 +217,7 @@ public:
     };
 
     pseudo_iterator begin() {
-        safe_resume(m_handle);
+        if (!done()) safe_resume(m_handle);
         return pseudo_iterator{m_handle};
     }
 
-- 
2.43.0


From 6cb2564f24bcb50033dfdcbd04f62bb3145020dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:46 +0000
Subject: [PATCH 34/49] fix: mem_ostreambuf: get_container did not compile with
 small_vector

---
 include/itlib/mem_streambuf.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/itlib/mem_streambuf.hpp b/include/itlib/mem_streambuf.hpp
index 4e8a83c..668ab83 100644
--- a/include/itlib/mem_streambuf.hpp
+++ b/include/itlib/mem_streambuf.hpp
@@ -91,6 +91,7 @@
 #include <streambuf>
 #include <cstring>
 #include <cassert>
+#include <utility>
 
 namespace itlib
 {
@@ -129,7 +130,7 @@ public:
     {
         Container ret;
         auto size = this->poff();
-        ret.swap(m_data);
+        std::swap(ret, m_data);
         this->setp(nullptr, nullptr);
         ret.resize(size);
         return ret;
-- 
2.43.0


From f6ab129e7c480e455b677eccaf88a61be32276b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:46 +0000
Subject: [PATCH 35/49] fix: mem_ostreambuf: writing after get_container
 crashed with containers whose data() is not null when empty

---
 include/itlib/mem_streambuf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/mem_streambuf.hpp b/include/itlib/mem_streambuf.hpp
index 668ab83..22855f8 100644
--- a/include/itlib/mem_streambuf.hpp
+++ b/include/itlib/mem_streambuf.hpp
@@ -131,7 +131,7 @@ public:
         Container ret;
         auto size = this->poff();
         std::swap(ret, m_data);
-        this->setp(nullptr, nullptr);
+        this->setp(m_data.data(), m_data.data());
         ret.resize(size);
         return ret;
     }
-- 
2.43.0


From ae0e9366e40362582465991a77ea07da3dc988d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:46 +0000
Subject: [PATCH 36/49] fix: mem_istreambuf: a seek out of range moved outside
 of the buffer

---
 include/itlib/mem_streambuf.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/itlib/mem_streambuf.hpp b/include/itlib/mem_streambuf.hpp
index 22855f8..ebeaf16 100644
--- a/include/itlib/mem_streambuf.hpp
+++ b/include/itlib/mem_streambuf.hpp
@@ -241,7 +241,9 @@ public:
 private:
     pos_type seekpos(pos_type sp, std::ios_base::openmode) override
     {
-        this->setg(this->eback(), this->eback() + sp, this->egptr());
+        const auto off = off_type(sp);
+        if (off < 0 || off > off_type(size())) return pos_type(off_type(-1));
+        this->setg(this->eback(), this->eback() + off, this->egptr());
         return sp;
     }
 
-- 
2.43.0


From d3f34f7613396203f5e3986a16e070f3ba9e6d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:44 +0000
Subject: [PATCH 37/49] fix: mem_ostreambuf: a seek out of range moved outside
 of the container

---
 include/itlib/mem_streambuf.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/itlib/mem_streambuf.hpp b/include/itlib/mem_streambuf.hpp
index ebeaf16..e0c80de 100644
--- a/include/itlib/mem_streambuf.hpp
+++ b/include/itlib/mem_streambuf.hpp
@@ -175,7 +175,9 @@ private:
 
     pos_type seekpos(pos_type sp, std::ios_base::openmode) override
     {
-        this->setp(m_data.data() + int(sp), m_data.data() + m_data.size());
+        const auto off = off_type(sp);
+        if (off < 0 || off > off_type(m_data.size())) return pos_type(off_type(-1));
+        this->setp(m_data.data() + off, m_data.data() + m_data.size());
         return sp;
     }
 
-- 
2.43.0


From 7e1bfcdb40da080d6b151013d8f9e6be1fffe025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:44 +0000
Subject: [PATCH 38/49] fix: mem_ostreambuf: data was lost after a seek back
 and seeks from the end included the unused capacity

---
 include/itlib/mem_streambuf.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/itlib/mem_streambuf.hpp b/include/itlib/mem_streambuf.hpp
index e0c80de..8df5045 100644
--- a/include/itlib/mem_streambuf.hpp
+++ b/include/itlib/mem_streambuf.hpp
@@ -101,6 +101,7 @@ class mem_ostreambuf final : public std::basic_streambuf<typename Container::val
 {
 private:
     Container m_data;
+    size_t m_end = 0; // end of the data written before the last seek
     static_assert(std::is_trivial<typename Container::value_type>::value, "mem ostream must be of pod type");
     using super = std::basic_streambuf<typename Container::value_type>;
 public:
@@ -129,7 +130,8 @@ public:
     Container get_container()
     {
         Container ret;
-        auto size = this->poff();
+        auto size = this->data_end();
+        m_end = 0;
         std::swap(ret, m_data);
         this->setp(m_data.data(), m_data.data());
         ret.resize(size);
@@ -139,6 +141,7 @@ public:
     void clear()
     {
         m_data.clear();
+        m_end = 0;
         this->setp(m_data.data(), m_data.data());
     }
 
@@ -177,6 +180,7 @@ private:
     {
         const auto off = off_type(sp);
         if (off < 0 || off > off_type(m_data.size())) return pos_type(off_type(-1));
+        m_end = data_end();
         this->setp(m_data.data() + off, m_data.data() + m_data.size());
         return sp;
     }
@@ -185,12 +189,19 @@ private:
     {
         if (way == std::ios_base::cur) return seekpos(poff() + off, std::ios_base::out);
         if (way == std::ios_base::beg) return seekpos(off, std::ios_base::out);
-        if (way == std::ios_base::end) return seekpos(m_data.size() + off, std::ios_base::out);
+        if (way == std::ios_base::end) return seekpos(data_end() + off, std::ios_base::out);
         return super::traits_type::eof();
     }
 
 private:
 
+    // after a seek back the data ends after the put position
+    size_t data_end() const
+    {
+        auto off = poff();
+        return off > m_end ? off : m_end;
+    }
+
     void cap_resize_by(size_t by)
     {
         auto off = poff();
-- 
2.43.0


From d8c178090009561aa0c92009bbeef0b4bccc3b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:46 +0000
Subject: [PATCH 39/49] fix: redirect_rstream: the position was not restored
 after a failed read, and streams with exceptions terminated the program

---
 include/itlib/rstream.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/itlib/rstream.hpp b/include/itlib/rstream.hpp
index 997e51c..3f9ac52 100644
--- a/include/itlib/rstream.hpp
+++ b/include/itlib/rstream.hpp
@@ -124,7 +124,17 @@ public:
 
     ~basic_redirect_rstream()
     {
-        this->m_in.seekg(m_restore);
+        if (m_restore == std::streampos(std::streamoff(-1))) return; // there was nothing to restore from the start
+        if (this->m_in.fail())
+        {
+            // seekg doesn't work on failed streams
+            // keep the error state, so it can be inspected by the owner of the stream
+            this->m_in.rdbuf()->pubseekpos(m_restore, std::ios_base::in);
+        }
+        else
+        {
+            this->m_in.seekg(m_restore);
+        }
     }
 private:
     std::streampos m_restore;
-- 
2.43.0


From 0d3c37ce15bfc300f6a2dfb7b5de16311e4e281c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:26 +0000
Subject: [PATCH 40/49] fix: stride_span: the difference of an iterator and a
 later one was a huge positive number

---
 include/itlib/stride_span.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/stride_span.hpp b/include/itlib/stride_span.hpp
index 998b3d8..69ecfb4 100644
--- a/include/itlib/stride_span.hpp
+++ b/include/itlib/stride_span.hpp
@@ -213,7 +213,7 @@ public:
         t_iterator& operator-=(const ptrdiff_t diff) noexcept { p -= diff * stride; return *this; }
         t_iterator operator+(const ptrdiff_t diff) const noexcept { return t_iterator(p + stride * diff, stride); }
         t_iterator operator-(const ptrdiff_t diff) const noexcept { return t_iterator(p - stride * diff, stride); }
-        ptrdiff_t operator-(const t_iterator& other) const noexcept { return (p - other.p) / stride; }
+        ptrdiff_t operator-(const t_iterator& other) const noexcept { return (p - other.p) / ptrdiff_t(stride); }
         bool operator==(const t_iterator& other) const noexcept { return p == other.p; }
         bool operator!=(const t_iterator& other) const noexcept { return p != other.p; }
         bool operator<(const t_iterator& other) const noexcept { return p < other.p; }
-- 
2.43.0


From f04054eee46010379e52fa763695a95586af837c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:26 +0000
Subject: [PATCH 41/49] fix: poly_span: the difference of an iterator and a
 later one was a huge positive number

---
 include/itlib/poly_span.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/poly_span.hpp b/include/itlib/poly_span.hpp
index e48b4f3..d712c5f 100644
--- a/include/itlib/poly_span.hpp
+++ b/include/itlib/poly_span.hpp
@@ -227,7 +227,7 @@ public:
         t_iterator& operator-=(const ptrdiff_t diff) noexcept { p -= diff * stride; return *this; }
         t_iterator operator+(const ptrdiff_t diff) const noexcept { return t_iterator(p + stride * diff, stride, poly_func); }
         t_iterator operator-(const ptrdiff_t diff) const noexcept { return t_iterator(p - stride * diff, stride, poly_func); }
-        ptrdiff_t operator-(const t_iterator& other) const noexcept { return (p - other.p) / stride; }
+        ptrdiff_t operator-(const t_iterator& other) const noexcept { return (p - other.p) / ptrdiff_t(stride); }
         bool operator==(const t_iterator& other) const noexcept { return p == other.p; }
         bool operator!=(const t_iterator& other) const noexcept { return p != other.p; }
         bool operator<(const t_iterator& other) const noexcept { return p < other.p; }
-- 
2.43.0


From 9e11297ab4c22d56aab3aeaa72d2f4397c0bd1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:12 +0000
Subject: [PATCH 42/49] fix: span: subspan with a huge offset and last with
 more than size() elements reached outside of the span

---
 include/itlib/span.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/span.hpp b/include/itlib/span.hpp
index 8b10def..0b81b55 100644
--- a/include/itlib/span.hpp
+++ b/include/itlib/span.hpp
@@ -265,7 +265,7 @@ public:
     // slicing
     span subspan(size_t off, size_t count = size_t(-1)) const noexcept
     {
-        if (m_begin + off > m_end) return span(m_end, 0);
+        if (off > size()) return span(m_end, size_t(0));
         auto newSize = size() - off;
         if (count > newSize) count = newSize;
         return span(m_begin + off, count);
-- 
2.43.0


From c91d011cee1fec5447d9dfef79defc23f074d055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:56 +0000
Subject: [PATCH 43/49] fix: strftime with an empty result

---
 include/itlib/time_t.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/itlib/time_t.hpp b/include/itlib/time_t.hpp
index ee8dd6c..6379262 100644
--- a/include/itlib/time_t.hpp
+++ b/include/itlib/time_t.hpp
@@ -167,11 +167,14 @@ private:
 
 inline std::string strftime(const char* format, const std::tm& tm)
 {
+    // std::strftime returns zero both when the buffer is too small and when the result is empty
+    // append a character to the format so that only the former is possible
+    const std::string nonEmptyFormat = std::string(format) + ' ';
     std::string ret;
     ret.resize(128);
     size_t len;
-    while ((len = std::strftime(&ret.front(), ret.size(), format, &tm)) == 0) ret.resize(2 * ret.size());
-    ret.resize(len);
+    while ((len = std::strftime(&ret.front(), ret.size(), nonEmptyFormat.c_str(), &tm)) == 0) ret.resize(2 * ret.size());
+    ret.resize(len - 1);
     return ret;
 }
 
-- 
2.43.0


From 28f4bee449b1bcff7d5cfc0cd02a068db6eb3feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:16 +0000
Subject: [PATCH 44/49] fix: sentry: C++11 make_sentry with an lvalue function
 object did not compile

---
 include/itlib/sentry.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/sentry.hpp b/include/itlib/sentry.hpp
index ccd9458..116755e 100644
--- a/include/itlib/sentry.hpp
+++ b/include/itlib/sentry.hpp
@@ -106,7 +106,7 @@ public:
     ~sentry() { m_func(); }
 #else
     sentry(sentry&& other) noexcept
-        : m_func(std::move(other.m_func))
+        : m_func(std::forward<Func>(other.m_func))
         , m_has_func(other.m_has_func)
     {
         other.m_has_func = false;
-- 
2.43.0


From 2ebbe9da4b1f7261e54cb9b16b0570375e7ffbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:33 +0000
Subject: [PATCH 45/49] fix: throw_ex terminated when used, with the exception
 caught, in a destructor which runs during stack unwinding

---
 include/itlib/throw_ex.hpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/itlib/throw_ex.hpp b/include/itlib/throw_ex.hpp
index fe2e2da..5e523a7 100644
--- a/include/itlib/throw_ex.hpp
+++ b/include/itlib/throw_ex.hpp
@@ -42,6 +42,7 @@
 // https://github.com/iboB/itlib/blob/master/test/
 //
 #pragma once
+#include <exception>
 #include <sstream>
 
 #if defined(_MSC_VER)
@@ -54,14 +55,20 @@ namespace itlib {
 template <typename Exception>
 class throw_ex {
     std::ostringstream out;
-public:
-    throw_ex() = default;
-    [[noreturn]] ~throw_ex() noexcept(false) {
+    // exceptions which were already in flight when this object was created don't prevent it from throwing
+    // (it may be used by a destructor, invoked during stack unwinding, which handles its own exceptions)
+    const int uncaught_on_enter = uncaught();
+    static int uncaught() noexcept {
 #if __cplusplus >= 201700
-        if (std::uncaught_exceptions())
+        return std::uncaught_exceptions();
 #else
-        if (std::uncaught_exception())
+        return std::uncaught_exception();
 #endif
+    }
+public:
+    throw_ex() = default;
+    [[noreturn]] ~throw_ex() noexcept(false) {
+        if (uncaught() > uncaught_on_enter)
             std::terminate(); // should never happen but helps us avoid warnings
         throw Exception(out.str());
     }
-- 
2.43.0


From 4d21dec3b603fc1ea31b8b66b660e8ecdb9b7c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:10 +0000
Subject: [PATCH 46/49] fix: small_vector: an exception while constructing an
 element left elements which were not constructed in the vector or leaked

---
 include/itlib/small_vector.hpp | 203 ++++++++++++++++++++++-----------
 1 file changed, 136 insertions(+), 67 deletions(-)

diff --git a/include/itlib/small_vector.hpp b/include/itlib/small_vector.hpp
index 3b61883..cfb0919 100644
--- a/include/itlib/small_vector.hpp
+++ b/include/itlib/small_vector.hpp
@@ -584,16 +584,16 @@ public:
     iterator insert(const_iterator position, const value_type& val)
     {
         if (is_own(val)) return insert(position, value_type(val)); // growing may move val away
-        auto pos = grow_at(position, 1);
-        atraits::construct(get_alloc(), pos, val);
-        return pos;
+        hole h(*this, position, 1);
+        h.construct(val);
+        return h.begin();
     }
 
     iterator insert(const_iterator position, value_type&& val)
     {
-        auto pos = grow_at(position, 1);
-        atraits::construct(get_alloc(), pos, std::move(val));
-        return pos;
+        hole h(*this, position, 1);
+        h.construct(std::move(val));
+        return h.begin();
     }
 
     iterator insert(const_iterator position, size_type count, const value_type& val)
@@ -610,34 +610,31 @@ public:
     template <typename InputIterator, typename = decltype(*std::declval<InputIterator>())>
     iterator insert(const_iterator position, InputIterator first, InputIterator last)
     {
-        auto pos = grow_at(position, last - first);
-        auto np = pos;
-        for (auto p = first; p != last; ++p, ++np)
+        hole h(*this, position, last - first);
+        for (auto p = first; p != last; ++p)
         {
-            atraits::construct(get_alloc(), np, *p);
+            h.construct(*p);
         }
-        return pos;
+        return h.begin();
     }
 
     iterator insert(const_iterator position, std::initializer_list<T> ilist)
     {
-        auto pos = grow_at(position, ilist.size());
-        size_type i = 0;
+        hole h(*this, position, ilist.size());
         for (auto& elem : ilist)
         {
-            atraits::construct(get_alloc(), pos + i, std::move(elem));
-            ++i;
+            h.construct(std::move(elem));
         }
-        return pos;
+        return h.begin();
     }
 
     template<typename... Args>
     iterator emplace(const_iterator position, Args&&... args)
     {
         if (is_own(args...)) return insert(position, value_type(std::forward<Args>(args)...)); // growing may move args away
-        auto pos = grow_at(position, 1);
-        atraits::construct(get_alloc(), pos, std::forward<Args>(args)...);
-        return pos;
+        hole h(*this, position, 1);
+        h.construct(std::forward<Args>(args)...);
+        return h.begin();
     }
 
     iterator erase(const_iterator position)
@@ -654,14 +651,14 @@ public:
     void push_back(const_reference val)
     {
         if (is_own(val)) return push_back(value_type(val)); // growing may move val away
-        auto pos = grow_at(m_end, 1);
-        atraits::construct(get_alloc(), pos, val);
+        hole h(*this, m_end, 1);
+        h.construct(val);
     }
 
     void push_back(T&& val)
     {
-        auto pos = grow_at(m_end, 1);
-        atraits::construct(get_alloc(), pos, std::move(val));
+        hole h(*this, m_end, 1);
+        h.construct(std::move(val));
     }
 
     template<typename... Args>
@@ -672,9 +669,9 @@ public:
             push_back(value_type(std::forward<Args>(args)...)); // growing may move args away
             return back();
         }
-        auto pos = grow_at(m_end, 1);
-        atraits::construct(get_alloc(), pos, std::forward<Args>(args)...);
-        return *pos;
+        hole h(*this, m_end, 1);
+        h.construct(std::forward<Args>(args)...);
+        return *h.begin();
     }
 
     void pop_back()
@@ -707,18 +704,19 @@ private:
 
         while (new_end > m_end)
         {
-            atraits::construct(get_alloc(), m_end++, v);
+            atraits::construct(get_alloc(), m_end, v);
+            ++m_end; // only after the construction, as it may throw
         }
     }
 
     iterator insert_fill(const_iterator position, size_type count, const value_type& val)
     {
-        auto pos = grow_at(position, count);
+        hole h(*this, position, count);
         for (size_type i = 0; i < count; ++i)
         {
-            atraits::construct(get_alloc(), pos + i, val);
+            h.construct(val);
         }
-        return pos;
+        return h.begin();
     }
 
     // check whether any of the arguments is (a part of) an element of this vector
@@ -746,7 +744,8 @@ public:
 
         while (new_end > m_end)
         {
-            atraits::construct(get_alloc(), m_end++);
+            atraits::construct(get_alloc(), m_end);
+            ++m_end; // only after the construction, as it may throw
         }
     }
 
@@ -873,6 +872,53 @@ private:
         }
     }
 
+    // a hole left by grow_at to be filled with elements
+    // if the construction of one throws, the hole is closed
+    class hole
+    {
+        small_vector& m_vec;
+        T* const m_first;
+        T* const m_last;
+        T* m_cur; // the first one which is not constructed
+    public:
+        hole(small_vector& vec, const T* position, size_t num)
+            : m_vec(vec)
+            , m_first(vec.grow_at(position, num))
+            , m_last(m_first + num)
+            , m_cur(m_first)
+        {}
+
+        hole(const hole&) = delete;
+        hole& operator=(const hole&) = delete;
+
+        ~hole()
+        {
+            if (m_cur == m_last) return; // filled
+
+            while (m_cur != m_first)
+            {
+                atraits::destroy(m_vec.get_alloc(), --m_cur);
+            }
+
+            for (auto p = m_last; p != m_vec.m_end; ++p, ++m_cur)
+            {
+                atraits::construct(m_vec.get_alloc(), m_cur, std::move(*p));
+                atraits::destroy(m_vec.get_alloc(), p);
+            }
+
+            m_vec.m_end = m_cur;
+        }
+
+        T* begin() const { return m_first; }
+
+        template <typename... Args>
+        void construct(Args&&... args)
+        {
+            atraits::construct(m_vec.get_alloc(), m_cur, std::forward<Args>(args)...);
+            ++m_cur;
+        }
+    };
+
     T* shrink_at(const T* cp, size_t num)
     {
         auto position = const_cast<T*>(cp);
@@ -943,66 +989,89 @@ private:
         return position;
     }
 
-    void assign_fill(size_type count, const T& value)
+    // the (potentially new) buffer for the elements assigned to an empty vector
+    // if the construction of one throws, the vector remains empty
+    class assign_buffer
     {
-        const auto cdr = choose_data(count);
+        small_vector& m_vec;
+        choose_data_result m_data;
+        T* m_cur;
+    public:
+        assign_buffer(small_vector& vec, size_t count)
+            : m_vec(vec)
+            , m_data(vec.choose_data(count))
+            , m_cur(m_data.ptr)
+        {}
 
-        m_end = cdr.ptr;
-        for (size_t i=0; i<count; ++i)
+        assign_buffer(const assign_buffer&) = delete;
+        assign_buffer& operator=(const assign_buffer&) = delete;
+
+        ~assign_buffer()
         {
-            atraits::construct(get_alloc(), m_end, value);
-            ++m_end;
+            if (!m_data.ptr) return; // committed
+
+            while (m_cur != m_data.ptr)
+            {
+                atraits::destroy(m_vec.get_alloc(), --m_cur);
+            }
+
+            if (m_data.ptr != m_vec.m_begin && m_data.ptr != m_vec.static_begin_ptr())
+            {
+                atraits::deallocate(m_vec.get_alloc(), m_data.ptr, m_data.cap);
+            }
         }
 
-        if (!is_static() && m_begin != cdr.ptr)
+        template <typename Arg>
+        void construct(Arg&& arg)
         {
-            atraits::deallocate(get_alloc(), m_begin, m_capacity);
+            atraits::construct(m_vec.get_alloc(), m_cur, std::forward<Arg>(arg));
+            ++m_cur;
         }
 
-        m_begin = cdr.ptr;
-        m_capacity = cdr.cap;
+        void commit()
+        {
+            if (!m_vec.is_static() && m_vec.m_begin != m_data.ptr)
+            {
+                atraits::deallocate(m_vec.get_alloc(), m_vec.m_begin, m_vec.m_capacity);
+            }
+
+            m_vec.m_begin = m_data.ptr;
+            m_vec.m_end = m_cur;
+            m_vec.m_capacity = m_data.cap;
+            m_data.ptr = nullptr;
+        }
+    };
+
+    void assign_fill(size_type count, const T& value)
+    {
+        assign_buffer buf(*this, count);
+        for (size_t i=0; i<count; ++i)
+        {
+            buf.construct(value);
+        }
+        buf.commit();
     }
 
     template <class InputIterator>
     void assign_copy(InputIterator first, InputIterator last)
     {
-        const auto cdr = choose_data(last - first);
-
-        m_end = cdr.ptr;
+        assign_buffer buf(*this, last - first);
         for (auto p = first; p != last; ++p)
         {
-            atraits::construct(get_alloc(), m_end, *p);
-            ++m_end;
+            buf.construct(*p);
         }
-
-        if (!is_static() && m_begin != cdr.ptr)
-        {
-            atraits::deallocate(get_alloc(), m_begin, m_capacity);
-        }
-
-        m_begin = cdr.ptr;
-        m_capacity = cdr.cap;
+        buf.commit();
     }
 
     template <class InputIterator>
     void assign_move(InputIterator first, InputIterator last)
     {
-        const auto cdr = choose_data(last - first);
-
-        m_end = cdr.ptr;
+        assign_buffer buf(*this, last - first);
         for (auto p = first; p != last; ++p)
         {
-            atraits::construct(get_alloc(), m_end, std::move(*p));
-            ++m_end;
+            buf.construct(std::move(*p));
         }
-
-        if (!is_static() && m_begin != cdr.ptr)
-        {
-            atraits::deallocate(get_alloc(), m_begin, m_capacity);
-        }
-
-        m_begin = cdr.ptr;
-        m_capacity = cdr.cap;
+        buf.commit();
     }
 
     choose_data_result choose_data(size_t desired_capacity)
-- 
2.43.0


From d234106f1cd9e80aba1e43899a174375f7e4052d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:10 +0000
Subject: [PATCH 47/49] fix: static_vector: an exception while constructing an
 element left elements which were not constructed in the vector or leaked

---
 include/itlib/static_vector.hpp | 94 +++++++++++++++++++++++++--------
 1 file changed, 72 insertions(+), 22 deletions(-)

diff --git a/include/itlib/static_vector.hpp b/include/itlib/static_vector.hpp
index c10f6b6..3af74d5 100644
--- a/include/itlib/static_vector.hpp
+++ b/include/itlib/static_vector.hpp
@@ -185,27 +185,32 @@ public:
     static_vector(allocator_type) {}
 
     explicit static_vector(size_t count, allocator_type = {})
+        : static_vector()
     {
         resize(count);
     }
 
     static_vector(size_t count, const T& value, allocator_type = {})
+        : static_vector()
     {
         assign_impl_val(count, value);
     }
 
     template <class InputIterator, typename = decltype(*std::declval<InputIterator>())>
     static_vector(InputIterator first, InputIterator last, allocator_type = {})
+        : static_vector()
     {
         assign_impl_iter(first, last);
     }
 
     static_vector(std::initializer_list<T> l, allocator_type = {})
+        : static_vector()
     {
         assign_impl_ilist(l);
     }
 
     static_vector(const static_vector& v)
+        : static_vector() // delegate, so that the elements are destroyed if the copy of one throws
     {
         for (const auto& i : v)
         {
@@ -215,6 +220,7 @@ public:
 
     template <size_t CapacityB>
     static_vector(const static_vector<T, CapacityB>& v)
+        : static_vector()
     {
         I_ITLIB_STATIC_VECTOR_OUT_OF_RANGE_IF(v.size() > Capacity);
 
@@ -464,60 +470,57 @@ public:
     iterator insert(const_iterator position, const value_type& val)
     {
         T copy(val); // val may be an element of this
-        auto pos = grow_at(position, 1);
-        ::new (pos) T(std::move(copy));
-        return pos;
+        hole h(*this, position, 1);
+        h.construct(std::move(copy));
+        return h.begin();
     }
 
     iterator insert(const_iterator position, value_type&& val)
     {
-        auto pos = grow_at(position, 1);
-        ::new (pos) T(std::move(val));
-        return pos;
+        hole h(*this, position, 1);
+        h.construct(std::move(val));
+        return h.begin();
     }
 
     iterator insert(const_iterator position, size_type count, const value_type& val)
     {
         const T copy(val); // val may be an element of this
-        auto pos = grow_at(position, count);
+        hole h(*this, position, count);
         for (size_type i = 0; i < count; ++i)
         {
-            ::new (pos + i) T(copy);
+            h.construct(copy);
         }
-        return pos;
+        return h.begin();
     }
 
     template <typename InputIterator, typename = decltype(*std::declval<InputIterator>())>
     iterator insert(const_iterator position, InputIterator first, InputIterator last)
     {
-        auto pos = grow_at(position, last - first);
-        auto np = pos;
-        for (auto p = first; p != last; ++p, ++np)
+        hole h(*this, position, last - first);
+        for (auto p = first; p != last; ++p)
         {
-            ::new (np) T(*p);
+            h.construct(*p);
         }
-        return pos;
+        return h.begin();
     }
 
     iterator insert(const_iterator position, std::initializer_list<T> ilist)
     {
-        auto pos = grow_at(position, ilist.size());
-        size_type i = 0;
+        hole h(*this, position, ilist.size());
         for (auto& elem : ilist)
         {
-            ::new (pos + i) T(std::move(elem));
-            ++i;
+            h.construct(std::move(elem));
         }
-        return pos;
+        return h.begin();
     }
 
     template<typename... Args>
     iterator emplace(const_iterator position, Args&&... args)
     {
         T elem(std::forward<Args>(args)...); // args may refer to elements of this
-        auto pos = grow_at(position, 1);
-        ::new (pos) T(std::move(elem));
-        return pos;
+        hole h(*this, position, 1);
+        h.construct(std::move(elem));
+        return h.begin();
     }
 
     iterator erase(const_iterator position)
@@ -641,6 +644,53 @@ private:
         return position;
     }
 
+    // a hole left by grow_at to be filled with elements
+    // if the construction of one throws, the hole is closed
+    class hole
+    {
+        static_vector& m_vec;
+        T* const m_first;
+        T* const m_last;
+        T* m_cur; // the first one which is not constructed
+    public:
+        hole(static_vector& vec, const T* position, size_t num)
+            : m_vec(vec)
+            , m_first(vec.grow_at(position, num))
+            , m_last(m_first + num)
+            , m_cur(m_first)
+        {}
+
+        hole(const hole&) = delete;
+        hole& operator=(const hole&) = delete;
+
+        ~hole()
+        {
+            if (m_cur == m_last) return; // filled
+
+            while (m_cur != m_first)
+            {
+                (--m_cur)->~T();
+            }
+
+            for (auto p = m_last; p != m_vec.end(); ++p, ++m_cur)
+            {
+                ::new (m_cur) T(std::move(*p));
+                p->~T();
+            }
+
+            m_vec.m_size = m_cur - m_vec.data();
+        }
+
+        T* begin() const { return m_first; }
+
+        template <typename Arg>
+        void construct(Arg&& arg)
+        {
+            ::new (m_cur) T(std::forward<Arg>(arg));
+            ++m_cur;
+        }
+    };
+
     T* shrink_at(const T* cp, size_t num)
     {
         I_ITLIB_STATIC_VECTOR_OUT_OF_RANGE_IF(num > size());
-- 
2.43.0


From ef3f6c2a67cf39e86887a96db22ae6082da71f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:48 +0000
Subject: [PATCH 48/49] fix: dynamic_bitset: a failed allocation in resize,
 push_back or append left a size larger than the buffer

---
 include/itlib/dynamic_bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/dynamic_bitset.hpp b/include/itlib/dynamic_bitset.hpp
index 6e6fa60..6afe53c 100644
--- a/include/itlib/dynamic_bitset.hpp
+++ b/include/itlib/dynamic_bitset.hpp
@@ -260,8 +260,8 @@ public:
             // clear the tail of the buf with zeroes in case they remain from previous ops
             m_buf.back() &= word_mask(pad) - 1;
         }
-        m_size = size;
         m_buf.resize(word_size(size));
+        m_size = size; // only after the buffer, as its allocation may throw
     }
     void push_back(bool b)
     {
-- 
2.43.0


From 30cbd08172d01be27f31dc410970d84df987f02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:13 +0000
Subject: [PATCH 49/49] fix: mem_ostreambuf: a block write of more than INT_MAX
 elements, or of more than 65535 char16_t, moved the put position wrongly

---
 include/itlib/mem_streambuf.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/itlib/mem_streambuf.hpp b/include/itlib/mem_streambuf.hpp
index 8df5045..e692aef 100644
--- a/include/itlib/mem_streambuf.hpp
+++ b/include/itlib/mem_streambuf.hpp
@@ -171,7 +171,8 @@ private:
         }
 
         memcpy(this->pptr(), s, num * sizeof(char_type));
-        this->pbump(int_type(num));
+        // not pbump, as num may not fit the int it takes
+        this->setp(this->pptr() + num, this->epptr());
 
         return num;
     }
-- 
2.43.0

