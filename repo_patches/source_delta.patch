From 2780a1895a15ef54848721cf3e0921d72bde8b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:25 +0000
Subject: [PATCH 01/31] fix: destroy moved-from elements when stdb_vector
 relocates by move

---
 container/stdb_vector.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index 072e086..fc23ddb 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -215,6 +215,7 @@ template <typename T>
     } else if constexpr (std::is_move_constructible_v<T>) {
         for (; src != src_end; ++src, ++dst) {
             new (dst) T(std::move(*src));
+            src->~T();
         }
         return dst;
     } else {
@@ -240,9 +241,10 @@ template <typename T>
     } else if constexpr (std::is_move_constructible_v<T>) {
         // do not support throwable move constructor.
         static_assert(std::is_nothrow_move_constructible_v<T>);
-        // call move constructor
+        // call move constructor and dstr
         for (; src != src_end; ++src, ++dst) {
             new (dst) T(std::move(*src));
+            src->~T();
         }
 
     } else {
@@ -498,8 +500,9 @@ class core
             // do not support throwable move constructor.
             static_assert(std::is_nothrow_move_constructible_v<T>);
             // backward move
-            for (T* src_end = _finish - 1; src_end >= src;) [[likely]] {
-                new (dst_end--) T(std::move(*(src_end--)));
+            for (T* src_end = _finish - 1; src_end >= src; --dst_end, --src_end) [[likely]] {
+                new (dst_end) T(std::move(*src_end));
+                src_end->~T();
             }
         } else {
             // backward copy
@@ -1043,6 +1046,7 @@ class stdb_vector : public core<T>
                 if (*src != value) {
                     if (dst != src) {
                         new (dst) T(std::move(*src));
+                        src->~T();
                     }
                     ++dst;
                 }
@@ -1113,6 +1117,7 @@ class stdb_vector : public core<T>
                 if (!pred(*src)) {
                     if (dst != src) {
                         new (dst) T(std::move(*src));
+                        src->~T();
                     }
                     ++dst;
                 }
-- 
2.43.0


From b700465f2062fae6acd2e406486f7ca99ccb361b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:36 +0000
Subject: [PATCH 02/31] fix: get_writebuffer must keep room for the existing
 elements

---
 container/stdb_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index fc23ddb..c47d2aa 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -910,7 +910,7 @@ class stdb_vector : public core<T>
     [[nodiscard, gnu::always_inline]] auto get_writebuffer(size_type buf_size) -> std::span<T> {
         if constexpr (safety == Safety::Safe) {
             if (buf_size + this->_finish > this->_edge) {
-                this->realloc_with_old_data(compute_new_capacity(buf_size));
+                this->realloc_with_old_data(compute_new_capacity(this->size() + buf_size));
             }
         }
         auto buf = std::span<T>(this->_finish, buf_size);
-- 
2.43.0


From 5b04415138d46c610e281b88b56ab5fc9f5d91f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:44 +0000
Subject: [PATCH 03/31] fix: stdb_vector::assign of an empty range or zero
 count

---
 container/stdb_vector.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index c47d2aa..ffd11e6 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -608,7 +608,9 @@ class stdb_vector : public core<T>
         }
         this->_finish = this->_start + count;
         // construct data with value
-        construct_range_with_cref(this->_start, this->_finish, value);
+        if (count > 0) [[likely]] {
+            construct_range_with_cref(this->_start, this->_finish, value);
+        }
     }
 
     template <std::forward_iterator Iterator>
@@ -628,8 +630,8 @@ class stdb_vector : public core<T>
             this->destroy();
             if (count > 0) [[likely]] {
                 copy_from_iterator(this->_start, first, last);
-                this->_finish = this->_start + count;
             }
+            this->_finish = this->_start + count;
         }
     }
 
-- 
2.43.0


From a5fbe6c954386253ecb48d8306019ca13ae25bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:05 +0000
Subject: [PATCH 04/31] fix: stdb_vector stays valid when an allocation fails

---
 container/stdb_vector.hpp | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index ffd11e6..a34a3be 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -257,6 +257,19 @@ template <typename T>
     }
 }
 
+/*
+ * allocate raw memory for cap elements, if failed (or the size in bytes is not representable), throw std::bad_alloc.
+ */
+template <typename T>
+[[nodiscard]] inline auto allocate_elements(std::size_t cap) -> T* {
+    if (cap <= kFastVectorMaxSize / sizeof(T)) [[likely]] {
+        if (auto* buf = static_cast<T*>(std::malloc(cap * sizeof(T))); buf != nullptr) [[likely]] {
+            return buf;
+        }
+    }
+    throw std::bad_alloc();
+}
+
 /*
  * realloc memory, if failed, throw std::bad_alloc, then move the old memory to new memory.
  * if new_size < old_size, the extra elements will be destroyed.
@@ -269,13 +282,10 @@ auto realloc_with_move(T*& __restrict__ ptr, std::size_t old_size, std::size_t n
     // after shrink_to_fit with zero size, the ptr may be nullptr.
     if (ptr == nullptr) {
         Assert(old_size == 0, "ptr is nullptr, but old_size is not zero");
-        return ptr = static_cast<T*>(std::malloc(new_size * sizeof(T)));
+        return ptr = allocate_elements<T>(new_size);
     }
     Assert(new_size > 0, "new_size should be larger than zero");
-    auto new_ptr = static_cast<T*>(std::malloc(new_size * sizeof(T)));
-    if (new_ptr == nullptr) [[unlikely]] {
-        throw std::bad_alloc();
-    }
+    auto* new_ptr = allocate_elements<T>(new_size);
     T* new_finish = move_range_without_overlap(new_ptr, ptr, ptr + std::min(old_size, new_size));
     std::free(ptr);
     ptr = new_ptr;
@@ -305,11 +315,8 @@ class core
    public:
     [[gnu::always_inline]] void allocate(size_type cap) {
         Assert(cap > 0, "allocate cap should be larger than zero");
-        if (_start = static_cast<T*>(std::malloc(cap * sizeof(T))); _start != nullptr) [[likely]] {
-            _edge = _start + cap;
-        } else {
-            throw std::bad_alloc();
-        }
+        _start = allocate_elements<T>(cap);
+        _edge = _start + cap;
     }
 
     core() : _start(nullptr), _finish(nullptr), _edge(nullptr) {}
@@ -353,6 +360,8 @@ class core
             destroy_range(_start, _finish);
             // free old memory
             std::free(_start);
+            // do not refer to the old memory any more, allocate may throw
+            _start = _finish = _edge = nullptr;
             // allocate new memory
             allocate(new_size);
             // copy data
@@ -453,6 +462,8 @@ class core
 
     [[gnu::always_inline]] auto realloc_drop_old_data(size_type new_cap) -> T* {
         this->~core();
+        // do not refer to the old memory any more, allocate may throw
+        _start = _finish = _edge = nullptr;
         allocate(new_cap);
         return _start;
     }
-- 
2.43.0


From 85c8e7e37a74deb48833ba1c347ee65311306fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:27 +0000
Subject: [PATCH 05/31] fix: stdb_vector insert/emplace/resize accept a
 reference to an own element

---
 container/stdb_vector.hpp | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index a34a3be..824c489 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -1199,13 +1199,15 @@ class stdb_vector : public core<T>
     constexpr void resize(size_type count, const_reference value) {
         // no checking count == _size, because very unlikely, and it's not a big deal
         if (count > this->size()) {
+            // value may be an element of this vector, keep a copy of it across the reallocation.
+            const T value_copy(value);
             if (count > this->capacity()) {
                 this->realloc_with_old_data(count);
             }
             // destroy the elements that are not needed anymore
             auto* old_end = this->_finish;
             this->_finish = this->_start + count;
-            construct_range_with_cref(old_end, this->_finish, value);
+            construct_range_with_cref(old_end, this->_finish, value_copy);
         } else {
             // destroy the elements that are not needed anymore
             auto* old_end = this->_finish;
@@ -1219,6 +1221,8 @@ class stdb_vector : public core<T>
     template <Safety safety = Safety::Safe>
     constexpr auto insert(const_iterator pos, const_reference value) -> iterator {
         Assert(pos >= cbegin() && pos <= cend(), "pos should be in [begin(), end())");
+        // value may be an element of this vector, keep a copy of it before any element is moved.
+        const T value_copy(value);
         T* pos_ptr = (T*)get_ptr_from_iter(pos);  // NOLINT
         if constexpr (safety == Safety::Safe) {
             if (this->full()) [[unlikely]] {
@@ -1230,7 +1234,7 @@ class stdb_vector : public core<T>
         Assert(not this->full(), "insert should not be called with full vector");
         // insert value to the end pos
         if (pos_ptr == this->_finish) [[unlikely]] {
-            copy_cref(this->_finish++, value);
+            copy_cref(this->_finish++, value_copy);
             return iterator(pos_ptr);
         }
         // move all elements after pos to the right, with backward direction, because have overlap
@@ -1239,7 +1243,7 @@ class stdb_vector : public core<T>
         } else {
             this->move_forward(pos_ptr + 1, pos_ptr);
         }
-        copy_cref(pos_ptr, value);
+        copy_cref(pos_ptr, value_copy);
         ++this->_finish;
         return iterator(pos_ptr);
     }
@@ -1277,6 +1281,8 @@ class stdb_vector : public core<T>
         Assert(count > 0, "count should be larger than 0");
         Assert(pos >= cbegin() && pos <= cend(), "pos should be in [begin(), end())");
         auto size = this->size();
+        // value may be an element of this vector, keep a copy of it before any element is moved.
+        const T value_copy(value);
         T* pos_ptr = (T*)get_ptr_from_iter(pos);  // NOLINT
         if constexpr (safety == Safety::Safe) {
             if (size + count > this->capacity()) [[unlikely]] {
@@ -1293,7 +1299,7 @@ class stdb_vector : public core<T>
         } else {
             this->move_backward(pos_ptr + count, pos_ptr);
         }
-        construct_range_with_cref(pos_ptr, pos_ptr + count, value);
+        construct_range_with_cref(pos_ptr, pos_ptr + count, value_copy);
         this->_finish += count;
         return iterator(pos_ptr);
     }
@@ -1338,6 +1344,8 @@ class stdb_vector : public core<T>
 
     template <Safety safety = Safety::Safe, typename... Args>
     constexpr auto emplace(iterator pos, Args&&... args) -> iterator {
+        // args may refer to an element of this vector, build the new element before any element is moved.
+        T new_element(std::forward<Args>(args)...);
         T* pos_ptr = get_ptr_from_iter(pos);
         if constexpr (safety == Safety::Safe) {
             if (this->full()) [[unlikely]] {
@@ -1349,7 +1357,7 @@ class stdb_vector : public core<T>
         }
         Assert(not this->full(), "emplace should not be called with full vector");
         if (pos_ptr == this->_finish) [[unlikely]] {
-            new (this->_finish++) T(std::forward<Args>(args)...);
+            construct_from_temporary(this->_finish++, new_element);
             return iterator(pos_ptr);
         }
         if (pos_ptr < this->_finish - 1) [[likely]] {
@@ -1357,13 +1365,15 @@ class stdb_vector : public core<T>
         } else {
             this->move_forward(pos_ptr + 1, pos_ptr);
         }
-        new (pos_ptr) T(std::forward<Args>(args)...);
+        construct_from_temporary(pos_ptr, new_element);
         ++this->_finish;
         return iterator(pos_ptr);
     }
 
     template <Safety safety = Safety::Safe, typename... Args>
     constexpr auto emplace(size_type pos, Args&&... args) -> iterator {
+        // args may refer to an element of this vector, build the new element before any element is moved.
+        T new_element(std::forward<Args>(args)...);
         if constexpr (safety == Safety::Safe) {
             if (this->full()) [[unlikely]] {
                 reserve(compute_next_capacity());
@@ -1373,7 +1383,7 @@ class stdb_vector : public core<T>
         T* pos_ptr = this->_start + pos;
 
         if (pos_ptr == this->_finish) [[unlikely]] {
-            new (this->_finish++) T(std::forward<Args>(args)...);
+            construct_from_temporary(this->_finish++, new_element);
             return iterator(pos_ptr);
         }
         if (pos_ptr < this->_finish - 1) [[likely]] {
@@ -1381,12 +1391,20 @@ class stdb_vector : public core<T>
         } else {
             this->move_forward(pos_ptr + 1, pos_ptr);
         }
-        new (pos_ptr) T(std::forward<Args>(args)...);
+        construct_from_temporary(pos_ptr, new_element);
         ++this->_finish;
         return iterator(pos_ptr);
     }
 
    private:
+    static void construct_from_temporary(T* ptr, T& temporary) {
+        if constexpr (std::is_move_constructible_v<T>) {
+            new (ptr) T(std::move(temporary));
+        } else {
+            new (ptr) T(static_cast<const T&>(temporary));
+        }
+    }
+
     [[nodiscard, gnu::always_inline]] inline auto compute_new_capacity(size_type new_size) const -> size_type {
         Assert(new_size > capacity(), "new_size should larger than old cap, or no need to compute new cap");
         if (auto next_capacity = compute_next_capacity(); next_capacity > new_size) {
-- 
2.43.0


From d954c4ae867209b3b30d60da67b044c5a52ecd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:15 +0000
Subject: [PATCH 06/31] fix: string insert accepts a range of the string itself

---
 string/string.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/string/string.hpp b/string/string.hpp
index c15d40f..725381d 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -2047,6 +2047,15 @@ inline auto basic_string<E, T, A, S>::insertImpl(const_iterator i, FwdIterator s
     auto n = std::distance(s1, s2);
     Assert(n >= 0, "insert input range is invalid");
 
+    if constexpr (std::is_same<FwdIterator, iterator>::value || std::is_same<FwdIterator, const_iterator>::value) {
+        // the source may be a part of this string, which is about to move
+        std::less_equal<const value_type*> le{};
+        if (n > 0 && le(cbegin(), s1) && le(s2, cend())) {
+            const basic_string temp(s1, size_type(n), get_allocator());
+            return insertImpl(i, temp.cbegin(), temp.cend(), std::forward_iterator_tag());
+        }
+    }
+
     auto oldSize = size();
     store_.expandNoinit(size_t(n), /* expGrowth = */ true);
     auto b = begin();
-- 
2.43.0


From 5d12f73316469fb565fc3dd7f8eb25e2b006b5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:42 +0000
Subject: [PATCH 07/31] fix: string stays valid when realloc fails; copying
 does not terminate on allocation failure

---
 string/string.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/string/string.hpp b/string/string.hpp
index 725381d..df75b33 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -103,7 +103,7 @@ inline auto checkedMalloc(size_t size) -> void* {
 inline auto checkedRealloc(void* ptr, size_t size) -> void* {
     auto* new_ptr = realloc(ptr, size);
     if (new_ptr == nullptr) {
-        free(ptr);
+        // the old block is still owned by the caller
         throw std::bad_alloc();
     }
     return new_ptr;
@@ -330,7 +330,7 @@ class string_core
 
     explicit string_core(const std::allocator<Char>& /*noused*/) noexcept { reset(); }
 
-    string_core(const string_core& rhs) noexcept {
+    string_core(const string_core& rhs) {
         Assert(&rhs != this, "self copy is not allowed");
         // make sure all copy occur in same thread, or from a unshared string
         // if rhs is a unshared string, set the cpu_ to current thread_id
@@ -708,7 +708,7 @@ class string_core
     }
 
     void copySmall(const string_core& /*rhs*/) noexcept;
-    void copyMedium(const string_core& /*rhs*/) noexcept;
+    void copyMedium(const string_core& /*rhs*/);
     void copyLarge(const string_core& /*rhs*/) noexcept;
 
     void initSmall(const Char* data, size_t size) noexcept;
@@ -744,7 +744,7 @@ inline void string_core<Char>::copySmall(const string_core& rhs) noexcept {
 }
 
 template <class Char>
-void string_core<Char>::copyMedium(const string_core& rhs) noexcept {
+void string_core<Char>::copyMedium(const string_core& rhs) {
     // Medium strings are copied eagerly. Don't forget to allocate
     // one extra Char for the null terminator.
     //    auto const allocSize = goodMallocSize((1 + rhs.ml_.size_) * sizeof(Char));
-- 
2.43.0


From 86658935b2c85f87a195eaba7b640614a3d2c2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:32 +0000
Subject: [PATCH 08/31] fix: string members that may unshare are not noexcept

---
 string/string.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/string/string.hpp b/string/string.hpp
index df75b33..cfbe274 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -443,7 +443,7 @@ class string_core
 
     [[nodiscard]] auto data() noexcept -> Char* { return c_str(); }
 
-    auto mutableData() noexcept -> Char* {
+    auto mutableData() -> Char* {
         switch (category()) {
             case Category::isSmall:
                 return small_;
@@ -1219,25 +1219,25 @@ class basic_string
     operator std::basic_string_view<value_type, traits_type>() const noexcept { return {data(), size()}; }
 
     // C++11 21.4.3 iterators:
-    auto begin() noexcept -> iterator { return store_.mutableData(); }
+    auto begin() -> iterator { return store_.mutableData(); }
 
     [[nodiscard]] auto begin() const noexcept -> const_iterator { return store_.data(); }
 
     [[nodiscard]] auto cbegin() const noexcept -> const_iterator { return begin(); }
 
-    auto end() noexcept -> iterator { return store_.mutableData() + store_.size(); }
+    auto end() -> iterator { return store_.mutableData() + store_.size(); }
 
     [[nodiscard]] auto end() const noexcept -> const_iterator { return store_.data() + store_.size(); }
 
     [[nodiscard]] auto cend() const noexcept -> const_iterator { return end(); }
 
-    auto rbegin() noexcept -> reverse_iterator { return reverse_iterator(end()); }
+    auto rbegin() -> reverse_iterator { return reverse_iterator(end()); }
 
     [[nodiscard]] auto rbegin() const noexcept -> const_reverse_iterator { return const_reverse_iterator(end()); }
 
     [[nodiscard]] auto crbegin() const noexcept -> const_reverse_iterator { return rbegin(); }
 
-    auto rend() noexcept -> reverse_iterator { return reverse_iterator(begin()); }
+    auto rend() -> reverse_iterator { return reverse_iterator(begin()); }
 
     [[nodiscard]] auto rend() const noexcept -> const_reverse_iterator { return const_reverse_iterator(begin()); }
 
@@ -1251,13 +1251,13 @@ class basic_string
         // Should be begin()[size() - 1], but that branches twice
         return *(end() - 1);
     }
-    auto front() noexcept -> value_type& { return *begin(); }
-    auto back() noexcept -> value_type& {
+    auto front() -> value_type& { return *begin(); }
+    auto back() -> value_type& {
         Assert(!empty(), "back() called on empty string");
         // Should be begin()[size() - 1], but that branches twice
         return *(end() - 1);
     }
-    void pop_back() noexcept {
+    void pop_back() {
         Assert(!empty(), "pop_back() called on empty string");
         store_.shrink(1);
     }
@@ -1296,7 +1296,7 @@ class basic_string
     // C++11 21.4.5 element access:
     auto operator[](size_type pos) const noexcept -> const_reference { return *(begin() + pos); }
 
-    auto operator[](size_type pos) noexcept -> reference { return *(begin() + pos); }
+    auto operator[](size_type pos) -> reference { return *(begin() + pos); }
 
     [[nodiscard]] auto at(size_type n) const -> const_reference {
         enforce<std::out_of_range>(n < size(), "");
-- 
2.43.0


From 68ba6c14a7d9926f17f03985f71d635a498791e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:23 +0000
Subject: [PATCH 09/31] fix: string growth refuses a size that cannot be
 represented

---
 string/arena_string.hpp | 3 +++
 string/string.hpp       | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/string/arena_string.hpp b/string/arena_string.hpp
index 011e18b..528958d 100644
--- a/string/arena_string.hpp
+++ b/string/arena_string.hpp
@@ -788,6 +788,9 @@ template <class Char>
 inline auto arena_string_core<Char>::expandNoinit(const size_t delta, bool expGrowth) -> Char* {
     // Strategy is simple: make room, then change size
     Assert(capacity() >= size(), "arena_string_core expandNoinit failed, capacity should ge than size");
+    if (delta > std::numeric_limits<size_t>::max() - size()) [[unlikely]] {
+        throw(std::length_error(""));
+    }
     size_t oldSz = 0;
     size_t newSz = 0;
     if (category() == Category::isSmall) {
diff --git a/string/string.hpp b/string/string.hpp
index cfbe274..1fd4860 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -951,6 +951,9 @@ inline auto string_core<Char>::expandNoinit(const size_t delta, bool expGrowth,
                                             bool disableSSO /* = FBSTRING_DISABLE_SSO */) -> Char* {
     // Strategy is simple: make room, then change size
     Assert(capacity() >= size(), "expandNoinit should make sure new capacity >= size()");
+    if (delta > std::numeric_limits<size_t>::max() - size()) [[unlikely]] {
+        throw(std::length_error(""));
+    }
     size_t oldSz = 0;
     size_t newSz = 0;
     if (category() == Category::isSmall) {
-- 
2.43.0


From 9d52fc19f33da09de9d389da6b01ab5067c77edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:01 +0000
Subject: [PATCH 10/31] fix: contains(string_view) ignored the length of the
 view

---
 string/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string/string.hpp b/string/string.hpp
index 1fd4860..dce4cdd 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -1610,7 +1610,7 @@ class basic_string
     }
 
     [[nodiscard]] auto contains(std::basic_string_view<value_type> str) const noexcept -> bool {
-        return find(str.data()) != basic_string::npos;
+        return find(str.data(), 0, str.size()) != basic_string::npos;
     }
 
     [[nodiscard]] auto contains(const basic_string& str) const noexcept -> bool {
-- 
2.43.0


From a66d1a2ca420db081979efa33e2cf0db7cd165a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:01 +0000
Subject: [PATCH 11/31] fix: std::to_string(string) stopped at the first null
 character

---
 string/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string/string.hpp b/string/string.hpp
index dce4cdd..325e8cc 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -2783,7 +2783,7 @@ struct formatter<stdb::memory::string> : formatter<string_view>
 namespace std {
 
 [[gnu::always_inline, nodiscard]] inline auto to_string(const ::stdb::memory::string& str) noexcept -> std::string {
-    return {str.data()};
+    return {str.data(), str.size()};
 }
 
 }  // namespace std
-- 
2.43.0


From e53194e9e2fe96e7fc9cb2faecc0b13e059d7a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:01 +0000
Subject: [PATCH 12/31] fix: operator<< truncated the length of the text to 32
 bits

---
 string/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string/string.hpp b/string/string.hpp
index 325e8cc..ff62ae4 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -2577,7 +2577,7 @@ inline auto operator<<(
     // MSVC doesn't define __ostream_insert
     os.write(str.data(), static_cast<streamsize>(str.size()));
 #else
-    std::__ostream_insert(os, str.data(), int32_t(str.size()));
+    std::__ostream_insert(os, str.data(), static_cast<std::streamsize>(str.size()));
 #endif
     return os;
 }
-- 
2.43.0


From 86d86af30ae56da7f83cf8e52f0c7597832dcac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:11 +0000
Subject: [PATCH 13/31] fix: operator>> kept the field width for the next
 extraction

---
 string/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string/string.hpp b/string/string.hpp
index ff62ae4..2f76954 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -2531,7 +2531,6 @@ inline auto operator>>(
         for (auto got = is.rdbuf()->sgetc(); extracted != static_cast<size_t>(n); ++extracted) {
             if (got == T::eof()) {
                 err |= _istream_type::eofbit;
-                is.width(0);
                 break;
             }
             if (isspace(got)) {
@@ -2540,6 +2539,7 @@ inline auto operator>>(
             str.push_back(got);
             got = is.rdbuf()->snextc();
         }
+        is.width(0);
     }
     if (!extracted) {
         err |= _istream_type::failbit;
-- 
2.43.0


From b583c54461604a91c1cf15b61fe63aea71e143e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:43 +0000
Subject: [PATCH 14/31] fix: a new block has room for the alignment of its
 first allocation

---
 arena/arena.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arena/arena.cc b/arena/arena.cc
index d3ba154..29d0d5b 100644
--- a/arena/arena.cc
+++ b/arena/arena.cc
@@ -139,7 +139,8 @@ void Arena::Block::Reset() noexcept {
 auto Arena::allocateAligned(uint64_t bytes, uint64_t alignment) noexcept -> char* {
     uint64_t needed = align_size(bytes);
     if (need_create_new_block(needed, alignment)) [[unlikely]] {
-        Block* curr = newBlock(needed, _last_block);
+        // the start of the free space may have to be moved forward to reach the alignment.
+        Block* curr = newBlock(needed + (alignment - kByteSize), _last_block);
         if (curr != nullptr) [[likely]] {
             _last_block = curr;
         } else {
-- 
2.43.0


From 6dee41bdeeb5ecbb4b702d353e739170b8713c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:00 +0000
Subject: [PATCH 15/31] fix: allocations whose size overflows return nullptr

---
 arena/arena.cc  | 4 ++++
 arena/arena.hpp | 1 +
 2 files changed, 5 insertions(+)

diff --git a/arena/arena.cc b/arena/arena.cc
index 29d0d5b..f08fbfd 100644
--- a/arena/arena.cc
+++ b/arena/arena.cc
@@ -137,6 +137,10 @@ void Arena::Block::Reset() noexcept {
  * if return nullptr means failure
  */
 auto Arena::allocateAligned(uint64_t bytes, uint64_t alignment) noexcept -> char* {
+    // a size near the end of the uint64_t range can not be satisfied, and would wrap in the calculations below.
+    if (bytes > std::numeric_limits<uint64_t>::max() / 2) [[unlikely]] {
+        return nullptr;
+    }
     uint64_t needed = align_size(bytes);
     if (need_create_new_block(needed, alignment)) [[unlikely]] {
         // the start of the free space may have to be moved forward to reach the alignment.
diff --git a/arena/arena.hpp b/arena/arena.hpp
index d4e12e6..a010893 100644
--- a/arena/arena.hpp
+++ b/arena/arena.hpp
@@ -458,6 +458,7 @@ class Arena
               "is {}, sizeof T is {}",
               num, TYPENAME(T), sizeof(T));
             _options.logger_func(output_message);
+            return nullptr;
         }
         const uint64_t size = sizeof(T) * num;
         char* ptr = allocateAligned(size);
-- 
2.43.0


From bd1f9d5902dd5c7f0fe9972c24a67d1dca5a105f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:26 +0000
Subject: [PATCH 16/31] fix: a moved arena rebinds its memory resource and is
 destroyed once for the hooks

---
 arena/arena.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/arena/arena.hpp b/arena/arena.hpp
index a010893..656ffc3 100644
--- a/arena/arena.hpp
+++ b/arena/arena.hpp
@@ -159,7 +159,17 @@ class Arena
           _last_block(std::exchange(other._last_block, nullptr)),
           _resource(std::exchange(other._resource, nullptr)),
           _cookie(std::exchange(other._cookie, nullptr)),
-          _space_allocated(std::exchange(other._space_allocated, 0)) {}
+          _space_allocated(std::exchange(other._space_allocated, 0)) {
+        // the resource serves the arena that owns it.
+        if (_resource != nullptr) [[likely]] {
+            _resource->set_arena(this);
+        }
+        // the moved-from arena has given its cookie away, its end must not be reported.
+        other._options.on_arena_reset = nullptr;
+        other._options.on_arena_allocation = nullptr;
+        other._options.on_arena_newblock = nullptr;
+        other._options.on_arena_destruction = nullptr;
+    }
     auto operator=(Arena&&) noexcept -> Arena& = delete;
 
     /*
@@ -325,6 +335,7 @@ class Arena
             Assert(arena != nullptr, "memory_resource should make sure arena is not nullptr");
         };  // NOLINT
         [[nodiscard]] auto get_arena() const -> Arena* { return _arena; }
+        void set_arena(Arena* arena) noexcept { _arena = arena; }
 
        protected:
         auto do_allocate(size_t bytes, size_t alignment) noexcept -> void* override {
-- 
2.43.0


From 518ed799423f4a9321451d51e5f61375bbb27567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:40 +0000
Subject: [PATCH 17/31] fix: Create destroys the object when its destructor can
 not be registered

---
 arena/arena.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arena/arena.hpp b/arena/arena.hpp
index 656ffc3..84ec6af 100644
--- a/arena/arena.hpp
+++ b/arena/arena.hpp
@@ -444,6 +444,10 @@ class Arena
             Construct<T>(ptr, *this, std::forward<Args>(args)...);
             T* result = reinterpret_cast<T*>(ptr);
             if (!RegisterDestructor<T>(result)) [[unlikely]] {
+                // nobody else will destroy the object.
+                if constexpr (!ArenaHelper<T>::is_destructor_skippable::value) {
+                    arena_destruct_object<T>(result);
+                }
                 return nullptr;
             }
             if (_options.on_arena_allocation != nullptr) [[likely]] {
-- 
2.43.0


From de9d626d7d85cd60cab30a33fae56db245e629ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:17 +0000
Subject: [PATCH 18/31] fix: Reset and SpaceRemains of an arena without a block

---
 arena/arena.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/arena/arena.hpp b/arena/arena.hpp
index 84ec6af..16b72d5 100644
--- a/arena/arena.hpp
+++ b/arena/arena.hpp
@@ -412,6 +412,10 @@ class Arena
         }
         // reset all internal status.
         uint64_t reset_size = _space_allocated;
+        if (_last_block == nullptr) [[unlikely]] {
+            // nothing was allocated yet.
+            return reset_size;
+        }
         _space_allocated = _last_block->size();
         _last_block->Reset();
         return reset_size;
@@ -429,7 +433,7 @@ class Arena
      * caller can use is function to test whether the Arena will allocate a new block.
      */
     [[nodiscard, gnu::always_inline]] inline auto SpaceRemains() const noexcept -> uint64_t {
-        return _last_block->remain();
+        return _last_block == nullptr ? 0 : _last_block->remain();
     }
 
     /*
@@ -664,7 +668,9 @@ class Arena
             _options.block_dealloc(curr);
             curr = prev;
         }
-        Assert(curr != nullptr, "curr should not be nullptr");
+        if (curr == nullptr) [[unlikely]] {
+            return 0;
+        }
         // add the curr blk remain to result
         remain_size += curr->remain();
         // reset the last_block_ to the first block
-- 
2.43.0


From 26e1a78f6907647074b51114857fdd2d54b73a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:58 +0000
Subject: [PATCH 19/31] fix: GlobalArenaMetrics::string() divides by zero
 before anything was counted

---
 arena/metrics.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/arena/metrics.hpp b/arena/metrics.hpp
index 2a66f49..5563c59 100644
--- a/arena/metrics.hpp
+++ b/arena/metrics.hpp
@@ -143,17 +143,21 @@ struct GlobalArenaMetrics
           space_wasted, space_resettled);
 
         constexpr uint64_t kPercentMagic = 100UL;
+        // nothing counted yet means 0%
+        auto percent = [](uint64_t part, uint64_t total) -> uint64_t {
+            return total == 0 ? 0 : part * kPercentMagic / total;
+        };
         for (uint64_t i = 0, count = 0; i < kAllocBucketSize; i++) {
             count += alloc_size_bucket_counter.at(i);
             // count < alloc_count
-            str += fmt::format("\n  le={}: {}%", alloc_size_bucket.at(i), count * kPercentMagic / alloc_count);
+            str += fmt::format("\n  le={}: {}%", alloc_size_bucket.at(i), percent(count, alloc_count));
         }
 
         str += "\nLifetime distribution:";
         for (uint64_t i = 0, count = 0; i < kLifetimeBucketSize; i++) {
             count += destruct_lifetime_bucket_counter.at(i);
             str += fmt::format("\n  le={}ms: {}", destruct_lifetime_bucket.at(i).count(),
-                               (count * kPercentMagic) / destruct_count);
+                               percent(count, destruct_count));
         }
 
         str += "\nArena Location/AllocSize:";  // TODO(longqimin): re-evaluate str.reserve size
-- 
2.43.0


From 134876082b2296ff858f83f3135c0b2405623dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:58 +0000
Subject: [PATCH 20/31] fix: threads reporting their arena metrics race on the
 shared table of allocation places

---
 arena/metrics.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/arena/metrics.hpp b/arena/metrics.hpp
index 5563c59..041f862 100644
--- a/arena/metrics.hpp
+++ b/arena/metrics.hpp
@@ -41,6 +41,7 @@
 #include <compare>        // for operator<=, strong_ordering
 #include <cstdint>        // for uint64_t, uint32_t
 #include <memory>         // for allocator, unique_ptr
+#include <mutex>          // for mutex, lock_guard
 #include <string>         // for string, char_traits, hash
 #include <typeinfo>       // for type_info
 #include <unordered_map>  // for unordered_map, operator==
@@ -103,6 +104,7 @@ struct GlobalArenaMetrics
     // atomic<uint64_t> destruct_lifetime_bucket_counter[kLifetimeBucketSize] = {0};
     std::array<atomic<uint64_t>, kLifetimeBucketSize> destruct_lifetime_bucket_counter{0};
     std::unordered_map<std::string, atomic<uint64_t>> arena_alloc_counter = {};  // arena identified by init() location
+    mutable std::mutex arena_alloc_mutex;  // threads reporting at the same time may insert into arena_alloc_counter
 
     void reset() {  // lockless and races for metric-data is acceptable
         init_count.store(0, std::memory_order::relaxed);
@@ -120,6 +122,7 @@ struct GlobalArenaMetrics
         for (auto& counter : destruct_lifetime_bucket_counter) {
             counter.store(0, std::memory_order::relaxed);
         }
+        const std::lock_guard<std::mutex> lock(arena_alloc_mutex);
         for (auto& [key, counter] : arena_alloc_counter) {
             counter.store(0, std::memory_order::relaxed);
         }
@@ -161,6 +164,7 @@ struct GlobalArenaMetrics
         }
 
         str += "\nArena Location/AllocSize:";  // TODO(longqimin): re-evaluate str.reserve size
+        const std::lock_guard<std::mutex> lock(arena_alloc_mutex);
         for (const auto& [loc, counter] : arena_alloc_counter) {
             str += fmt::format("\n  {}: {}", loc, counter);
         }
@@ -253,6 +257,7 @@ struct LocalArenaMetrics
             global_arena_metrics.destruct_lifetime_bucket_counter.at(i).fetch_add(
               destruct_lifetime_bucket_counter.at(i), std::memory_order::relaxed);
         }
+        const std::lock_guard<std::mutex> lock(global_arena_metrics.arena_alloc_mutex);
         for (const auto& [loc, count] : arena_alloc_counter) {
             global_arena_metrics.arena_alloc_counter[loc].fetch_add(count, std::memory_order::relaxed);
         }
-- 
2.43.0


From a0bff5efa9dab40ba4b5159f7dacbb94876e8c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:10 +0000
Subject: [PATCH 21/31] fix: replacing with own text and assigning a character
 to a shared arena string leave the arena

---
 string/string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/string/string.hpp b/string/string.hpp
index 2f76954..4952610 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -1801,7 +1801,7 @@ inline auto basic_string<E, T, A, S>::operator=(value_type c) -> basic_string<E,
     if (empty()) {
         store_.expandNoinit(1);
     } else if (store_.isShared()) {
-        basic_string(1, c).swap(*this);
+        basic_string(1, c, get_allocator()).swap(*this);
         return *this;
     } else {
         store_.shrink(size() - 1);
@@ -2129,7 +2129,7 @@ inline auto basic_string<E, T, A, S>::replaceAliased(iterator i1, iterator i2, F
         return false;
     }
     // Aliased replace, copy to new string
-    basic_string temp;
+    basic_string temp(get_allocator());
     temp.reserve(size() - size_t(i2 - i1) + size_t(std::distance(s1, s2)));
     temp.append(begin(), i1).append(s1, s2).append(i2, end());
     swap(temp);
-- 
2.43.0


From c384a87610983e9dbfb080445e7e05e5c48ba28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:10 +0000
Subject: [PATCH 22/31] fix: += of a view on an arena string builds a temporary
 without arena

---
 string/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string/string.hpp b/string/string.hpp
index 4952610..07dd8db 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -1314,7 +1314,7 @@ class basic_string
     // C++11 21.4.6 modifiers:
     auto operator+=(const basic_string& str) -> basic_string& { return append(str); }
 
-    auto operator+=(std::basic_string_view<value_type> str) -> basic_string& { return append(str); }
+    auto operator+=(std::basic_string_view<value_type> str) -> basic_string& { return append(str.data(), str.size()); }
 
     auto operator+=(const value_type* s) -> basic_string& { return append(s); }
 
-- 
2.43.0


From df9d8280c91c6924eecdc6054f07b67b1271614c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:10 +0000
Subject: [PATCH 23/31] fix: swapping arena strings of different arenas
 exchanges the texts but not the arenas

---
 string/arena_string.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/string/arena_string.hpp b/string/arena_string.hpp
index 528958d..00e4090 100644
--- a/string/arena_string.hpp
+++ b/string/arena_string.hpp
@@ -187,6 +187,12 @@ class arena_string_core
         auto const t = ml_;  // NOLINT
         ml_ = rhs.ml_;       // NOLINT
         rhs.ml_ = t;         // NOLINT
+        // the texts stay in the arena they were allocated from
+        const pmr::polymorphic_allocator<Char> tmp = allocator_;
+        std::destroy_at(&allocator_);
+        std::construct_at(&allocator_, rhs.allocator_);
+        std::destroy_at(&rhs.allocator_);
+        std::construct_at(&rhs.allocator_, tmp);
 #if not defined(NDEBUG) && defined(CROSS_THREAD_CHECKING)
         std::swap(cpu_, rhs.cpu_);
 #endif
-- 
2.43.0


From 4ff60a7e28b628528dd630536b2ccae6bf2288be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:36 +0000
Subject: [PATCH 24/31] fix: the memory resource of an arena returns null
 instead of throwing bad_alloc

---
 arena/arena.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/arena/arena.hpp b/arena/arena.hpp
index 16b72d5..6e1c781 100644
--- a/arena/arena.hpp
+++ b/arena/arena.hpp
@@ -338,8 +338,12 @@ class Arena
         void set_arena(Arena* arena) noexcept { _arena = arena; }
 
        protected:
-        auto do_allocate(size_t bytes, size_t alignment) noexcept -> void* override {
-            return reinterpret_cast<char*>(_arena->allocateAligned(bytes, std::max(kByteSize, alignment)));
+        auto do_allocate(size_t bytes, size_t alignment) -> void* override {
+            // a memory resource must not return null
+            if (auto* rst = _arena->allocateAligned(bytes, std::max(kByteSize, alignment)); rst != nullptr) [[likely]] {
+                return rst;
+            }
+            throw std::bad_alloc();
         }
 
         void do_deallocate([[maybe_unused]] void* /*unused*/, [[maybe_unused]] size_t /*unused*/,
-- 
2.43.0


From 1724bca515a7d1e3624735024f2a6ba538a0747e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:08 +0000
Subject: [PATCH 25/31] fix: check the prefix and set the long prefix in the
 constructor with a conflict handler

---
 optparse/optparse.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/optparse/optparse.cc b/optparse/optparse.cc
index 1437a65..3a6d255 100644
--- a/optparse/optparse.cc
+++ b/optparse/optparse.cc
@@ -98,8 +98,9 @@ OptionParser::OptionParser(char prefix) : _prefix(prefix) {
 
 OptionParser::OptionParser(stdb::optparse::ConflictHandler handler) : _conflict_handler(handler) {}
 
-OptionParser::OptionParser(char prefix, stdb::optparse::ConflictHandler handler)
-    : _prefix{prefix}, _conflict_handler{handler} {}
+OptionParser::OptionParser(char prefix, stdb::optparse::ConflictHandler handler) : OptionParser(prefix) {
+    _conflict_handler = handler;
+}
 
 auto OptionParser::extract_option_type(const string& opt) const -> OptionType {
     if (opt.size() > 2 and opt.substr(0, 2) == _long_prefix) {
-- 
2.43.0


From 1cbf2e70f91cab1302a2608d93c52e4fd8e4fa17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:08 +0000
Subject: [PATCH 26/31] fix: leave the option parser unchanged when an option
 is refused

---
 optparse/optparse.cc | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/optparse/optparse.cc b/optparse/optparse.cc
index 3a6d255..8a40147 100644
--- a/optparse/optparse.cc
+++ b/optparse/optparse.cc
@@ -125,24 +125,33 @@ auto OptionParser::extract_arg_type(const string& arg) const -> OptionType {
 }
 
 auto OptionParser::add_option(stdb::optparse::Option option) -> Option& {
-    _options.emplace_back(std::move(option));
-    // register all names for the option.
-    for (const auto& name : _options.back().names()) {
+    // check all names before anything is registered, so that a refused option leaves the parser unchanged.
+    const auto& names = option.names();
+    for (auto it = names.begin(); it != names.end(); ++it) {
+        const auto& name = *it;
         auto type = extract_option_type(name);
-        if (type == OptionType::ShortOpt) {
-            if (_conflict_handler == ConflictHandler::Error and _short_option_map.contains(name)) {
+        if (type == OptionType::InvalidOpt) {
+            throw std::logic_error(fmt::format("Invalid option name: {}", name));
+        }
+        if (_conflict_handler == ConflictHandler::Error) {
+            auto repeated = std::find(names.begin(), it, name) != it;
+            if (type == OptionType::ShortOpt and (repeated or _short_option_map.contains(name))) {
                 throw std::logic_error(fmt::format("Short option {} is already registered", name));
             }
-            // if the ConflictHandler is Replace, we will replace the old option with the new one.
-            _short_option_map[name] = _options.size() - 1;
-        } else if (type == OptionType::LongOpt) {
-            if (_conflict_handler == ConflictHandler::Error and _long_option_map.contains(name)) {
+            if (type == OptionType::LongOpt and (repeated or _long_option_map.contains(name))) {
                 throw std::logic_error(fmt::format("Long option {} is already registered", name));
             }
-            // if the ConflictHandler is Replace, we will replace the old option with the new one.
-            _long_option_map[name] = _options.size() - 1;
+        }
+    }
+
+    _options.emplace_back(std::move(option));
+    // register all names for the option.
+    // if the ConflictHandler is Replace, we will replace the old option with the new one.
+    for (const auto& name : _options.back().names()) {
+        if (extract_option_type(name) == OptionType::ShortOpt) {
+            _short_option_map[name] = _options.size() - 1;
         } else {
-            throw std::logic_error(fmt::format("Invalid option name: {}", name));
+            _long_option_map[name] = _options.size() - 1;
         }
     }
 
-- 
2.43.0


From 68a4dbfb414911aeabd2a239e0febb9234025de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:08 +0000
Subject: [PATCH 27/31] fix: do not return an uninitialized value for an empty
 argument

---
 optparse/optparse.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optparse/optparse.cc b/optparse/optparse.cc
index 8a40147..800e931 100644
--- a/optparse/optparse.cc
+++ b/optparse/optparse.cc
@@ -285,7 +285,7 @@ concept OptValue = std::is_same_v<T, bool> or std::is_same_v<T, int32_t> or std:
 
 template <OptValue T>
 auto parse_string(const string& str) -> T {
-    T val;
+    T val{};
     std::stringstream sst(str.data());
     sst >> val;
     return val;
-- 
2.43.0


From 21aa1442b4402549edadb041cd1d51ee87eb623e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:08 +0000
Subject: [PATCH 28/31] fix: a counted option is set by the user, its default
 is not used

---
 optparse/optparse.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/optparse/optparse.hpp b/optparse/optparse.hpp
index c5f3533..a90ba7d 100644
--- a/optparse/optparse.hpp
+++ b/optparse/optparse.hpp
@@ -105,6 +105,7 @@ class ValueStore
         } else {
             _values[key] = std::get<int>(vit->second) + 1;
         }
+        _usr_set.insert(key);
     }
 
     template <typename T>
-- 
2.43.0


From 22801079a1956def9d63393d90d7f0b7e588007b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:08 +0000
Subject: [PATCH 29/31] fix: options of a copied or moved parser are validated
 by that parser

---
 optparse/optparse.cc  | 8 +++++---
 optparse/optparse.hpp | 1 +
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/optparse/optparse.cc b/optparse/optparse.cc
index 800e931..3dbf6d3 100644
--- a/optparse/optparse.cc
+++ b/optparse/optparse.cc
@@ -72,11 +72,13 @@ inline auto split(std::string_view str, std::string_view delimiter, bool skip_em
     return tokens;
 }
 
-auto Option::validate() -> bool {
+auto Option::validate() -> bool { return validate(_parser); }
+
+auto Option::validate(const OptionParser& parser) -> bool {
     // if _dest is empty, we will use the first long option name as the _dest.
     if (_dest.empty()) {
         for (const auto& nnn : _names) {
-            if (_parser.extract_option_type(nnn) == OptionType::LongOpt) {
+            if (parser.extract_option_type(nnn) == OptionType::LongOpt) {
                 _dest = nnn.substr(2);
                 break;
             }
@@ -229,7 +231,7 @@ auto OptionParser::parse_args(vector<stdb::optparse::string> args, const char**
     // once parse args, clear all invalid_args
     _invalid_args.clear();
     for (auto& opt : _options) {
-        if (not opt.validate()) {
+        if (not opt.validate(*this)) {
             throw std::logic_error(fmt::format("incomplete option: {}", opt.names().front()));
         }
     }
diff --git a/optparse/optparse.hpp b/optparse/optparse.hpp
index a90ba7d..da68e30 100644
--- a/optparse/optparse.hpp
+++ b/optparse/optparse.hpp
@@ -185,6 +185,7 @@ class Option
     Option(const OptionParser& opp, vector<string> names) : _parser(opp), _names(std::move(names)) {}
 
     auto validate() -> bool;
+    auto validate(const OptionParser& parser) -> bool;
 
     [[nodiscard]] inline auto names() const -> const vector<string>& { return _names; }
 
-- 
2.43.0


From 41de5c28ebab067eddcfbdc24f266c62eed3d575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:08 +0000
Subject: [PATCH 30/31] fix: parsing keeps the version that was set

---
 optparse/optparse.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/optparse/optparse.cc b/optparse/optparse.cc
index 3dbf6d3..f7d0f84 100644
--- a/optparse/optparse.cc
+++ b/optparse/optparse.cc
@@ -197,7 +197,9 @@ auto OptionParser::add_usage_option(string usage_msg) -> void {
 }
 
 auto OptionParser::add_version_option(stdb::optparse::string version_msg) -> void {
-    _version = std::move(version_msg);
+    if (not version_msg.empty()) {
+        _version = std::move(version_msg);
+    }
     auto short_version_name = fmt::format("{}v", _prefix);
     auto long_version_name = fmt::format("{}version", _long_prefix);
     if (not _short_option_map.contains(short_version_name) and not _long_option_map.contains(long_version_name)) {
-- 
2.43.0


From 8cdd56d9f579ae0c3107c6b803f7d81e41b03ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:37 +0000
Subject: [PATCH 31/31] fix: the help of a parser without options dereferences
 the end of an empty list

---
 optparse/optparse.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optparse/optparse.cc b/optparse/optparse.cc
index f7d0f84..ecd70e6 100644
--- a/optparse/optparse.cc
+++ b/optparse/optparse.cc
@@ -622,7 +622,7 @@ auto OptionParser::format_help() -> string {
       std::max_element(line_and_helps.begin(), line_and_helps.end(),
                        [](auto& lhs, auto& rhs) -> bool { return rhs.first.size() > lhs.first.size(); });
 
-    const auto align_size = max_line->first.size() + 1;
+    const auto align_size = line_and_helps.empty() ? size_t{0} : max_line->first.size() + 1;
     auto content = fmt::format("{} \n options: \n", format_usage());
     for (const auto& [line, help] : line_and_helps) {
         const int space_width = align_size - line.size();
-- 
2.43.0

