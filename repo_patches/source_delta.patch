From f8a7555bd26455018bd847ed43ece7f97653570b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:39:24 +0000
Subject: [PATCH 01/13] fix: keep cx_queue consistent when an element copy or
 move throws

push() and pop() advanced the indices and the size before the element was
assigned or moved.  When that assignment threw, the queue was left with a
phantom element, or with an index one past the storage.  Update the indices
and the size only after the element operation has succeeded.
---
 include/stdx/cx_queue.hpp | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/include/stdx/cx_queue.hpp b/include/stdx/cx_queue.hpp
index 3401836..cf62893 100644
--- a/include/stdx/cx_queue.hpp
+++ b/include/stdx/cx_queue.hpp
@@ -38,6 +38,11 @@ class cx_queue {
     std::size_t pop_index{};
     std::size_t current_size{};
 
+    [[nodiscard]] constexpr static auto next_index(std::size_t index)
+        -> std::size_t {
+        return index + 1 == N ? 0 : index + 1;
+    }
+
   public:
     using value_type = T;
     using size_type = std::size_t;
@@ -83,27 +88,25 @@ class cx_queue {
 
     constexpr auto push(value_type const &value) LIFETIMEBOUND -> reference {
         OverflowPolicy::check_push(current_size, N);
-        if (++push_index == N) {
-            push_index = 0;
-        }
+        auto const index = next_index(push_index);
+        storage[index] = value;
+        push_index = index;
         ++current_size;
-        return storage[push_index] = value;
+        return storage[index];
     }
     constexpr auto push(value_type &&value) LIFETIMEBOUND -> reference {
         OverflowPolicy::check_push(current_size, N);
-        if (++push_index == N) {
-            push_index = 0;
-        }
+        auto const index = next_index(push_index);
+        storage[index] = std::move(value);
+        push_index = index;
         ++current_size;
-        return storage[push_index] = std::move(value);
+        return storage[index];
     }
 
     [[nodiscard]] constexpr auto pop() -> value_type {
         OverflowPolicy::check_pop(current_size);
-        auto entry = std::move(storage[pop_index++]);
-        if (pop_index == N) {
-            pop_index = 0;
-        }
+        auto entry = std::move(storage[pop_index]);
+        pop_index = next_index(pop_index);
         --current_size;
         return entry;
     }
-- 
2.43.0


From a951e3cff004a59800f33e9351e5ec2da48fa22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:43:06 +0000
Subject: [PATCH 02/13] fix: construct cx_vector reverse iterators explicitly

rbegin(), rend(), crbegin() and crend() returned a plain pointer where a
reverse_iterator is required.  That constructor is explicit, so any use of
these functions failed to compile.
---
 include/stdx/cx_vector.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/stdx/cx_vector.hpp b/include/stdx/cx_vector.hpp
index ef1bf2d..0d8814e 100644
--- a/include/stdx/cx_vector.hpp
+++ b/include/stdx/cx_vector.hpp
@@ -58,27 +58,27 @@ template <typename T, std::size_t N> class cx_vector {
     }
 
     [[nodiscard]] constexpr auto rbegin() LIFETIMEBOUND -> reverse_iterator {
-        return end();
+        return reverse_iterator{end()};
     }
     [[nodiscard]] constexpr auto rbegin() const LIFETIMEBOUND
         -> const_reverse_iterator {
-        return end();
+        return const_reverse_iterator{end()};
     }
     [[nodiscard]] constexpr auto crbegin() const LIFETIMEBOUND
         -> const_reverse_iterator {
-        return cend();
+        return const_reverse_iterator{cend()};
     }
 
     [[nodiscard]] constexpr auto rend() LIFETIMEBOUND -> reverse_iterator {
-        return begin();
+        return reverse_iterator{begin()};
     }
     [[nodiscard]] constexpr auto rend() const LIFETIMEBOUND
         -> const_reverse_iterator {
-        return begin();
+        return const_reverse_iterator{begin()};
     }
     [[nodiscard]] constexpr auto crend() const LIFETIMEBOUND
         -> const_reverse_iterator {
-        return cbegin();
+        return const_reverse_iterator{cbegin()};
     }
 
     [[nodiscard]] constexpr auto front() LIFETIMEBOUND -> reference {
-- 
2.43.0


From 8b7d292a51256341a367bf683ba737e9431c78b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:44:51 +0000
Subject: [PATCH 03/13] fix: keep cx_vector unchanged when an element copy
 throws

push_back() counted the new element before it was assigned, and pop_back()
dropped the last element before it was copied out.  When the copy threw, the
vector gained a phantom element or lost a real one.  Change the size only
after the element operation has succeeded.
---
 include/stdx/cx_vector.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/stdx/cx_vector.hpp b/include/stdx/cx_vector.hpp
index 0d8814e..20a2171 100644
--- a/include/stdx/cx_vector.hpp
+++ b/include/stdx/cx_vector.hpp
@@ -129,14 +129,18 @@ template <typename T, std::size_t N> class cx_vector {
 
     constexpr auto push_back(value_type const &value) LIFETIMEBOUND
         -> reference {
-        return storage[current_size++] = value;
+        storage[current_size] = value;
+        return storage[current_size++];
     }
     constexpr auto push_back(value_type &&value) LIFETIMEBOUND -> reference {
-        return storage[current_size++] = std::move(value);
+        storage[current_size] = std::move(value);
+        return storage[current_size++];
     }
 
     [[nodiscard]] constexpr auto pop_back() -> value_type {
-        return storage[--current_size];
+        auto entry = std::move(storage[current_size - 1]);
+        --current_size;
+        return entry;
     }
 
   private:
-- 
2.43.0


From c670d2836fe8c076c6c98b8821799683b3221d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:45:45 +0000
Subject: [PATCH 04/13] fix: keep cx_set and cx_map unchanged when an element
 copy throws

Insertion counted the new entry before it was assigned, and erase() and
pop_back() dropped the last entry before it was copied to its new place.
When the copy threw, an entry appeared, vanished or was left half replaced.
Move entries instead of copying them where they change place, and change the
size only after the element operation has succeeded.
---
 include/stdx/cx_map.hpp | 11 ++++++++---
 include/stdx/cx_set.hpp | 16 ++++++++++++----
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/include/stdx/cx_map.hpp b/include/stdx/cx_map.hpp
index 2ffbbf4..aa56d66 100644
--- a/include/stdx/cx_map.hpp
+++ b/include/stdx/cx_map.hpp
@@ -9,6 +9,7 @@
 #include <cstddef>
 #include <iterator>
 #include <type_traits>
+#include <utility>
 
 namespace stdx {
 inline namespace v1 {
@@ -78,7 +79,9 @@ template <typename Key, typename Value, std::size_t N> class cx_map {
     constexpr auto clear() -> void { current_size = 0; }
 
     [[nodiscard]] constexpr auto pop_back() -> value_type {
-        return storage[--current_size];
+        auto entry = std::move(storage[current_size - 1]);
+        --current_size;
+        return entry;
     }
 
     [[nodiscard]] constexpr auto get(key_type const &key) LIFETIMEBOUND
@@ -117,7 +120,8 @@ template <typename Key, typename Value, std::size_t N> class cx_map {
                 return false;
             }
         }
-        storage[current_size++] = {key, value};
+        storage[current_size] = {key, value};
+        ++current_size;
         return true;
     }
     constexpr auto put(key_type const &key, mapped_type const &value) -> bool {
@@ -127,7 +131,8 @@ template <typename Key, typename Value, std::size_t N> class cx_map {
     constexpr auto erase(key_type const &key) -> size_type {
         for (auto &v : *this) {
             if (v.key == key) {
-                v = storage[--current_size];
+                v = std::move(storage[current_size - 1]);
+                --current_size;
                 return 1u;
             }
         }
diff --git a/include/stdx/cx_set.hpp b/include/stdx/cx_set.hpp
index 914d86f..77397be 100644
--- a/include/stdx/cx_set.hpp
+++ b/include/stdx/cx_set.hpp
@@ -5,7 +5,10 @@
 #include <stdx/cx_map.hpp>
 #include <stdx/iterator.hpp>
 
+#include <array>
 #include <cstddef>
+#include <iterator>
+#include <utility>
 
 namespace stdx {
 inline namespace v1 {
@@ -67,21 +70,24 @@ template <typename Key, std::size_t N> class cx_set {
         if (contains(key)) {
             return false;
         }
-        storage[current_size++] = key;
+        storage[current_size] = key;
+        ++current_size;
         return true;
     }
     constexpr auto insert(key_type &&key) -> bool {
         if (contains(key)) {
             return false;
         }
-        storage[current_size++] = std::move(key);
+        storage[current_size] = std::move(key);
+        ++current_size;
         return true;
     }
 
     constexpr auto erase(key_type const &key) -> size_type {
         for (auto &k : *this) {
             if (k == key) {
-                k = storage[--current_size];
+                k = std::move(storage[current_size - 1]);
+                --current_size;
                 return 1u;
             }
         }
@@ -101,7 +107,9 @@ template <typename Key, std::size_t N> class cx_set {
     constexpr auto clear() -> void { current_size = 0; }
 
     [[nodiscard]] constexpr auto pop_back() -> key_type {
-        return storage[--current_size];
+        auto entry = std::move(storage[current_size - 1]);
+        --current_size;
+        return entry;
     }
 };
 
-- 
2.43.0


From 5458654500e27fb9396c6d7f360a443fb136394b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:48:24 +0000
Subject: [PATCH 05/13] fix: terminate an intrusive_list when inserting at its
 end

insert() at end() left the next pointer of the inserted node unchanged.  With
the unchecked node policy that pointer can hold a stale value, and the list
then ran on into unrelated nodes.
---
 include/stdx/intrusive_list.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/stdx/intrusive_list.hpp b/include/stdx/intrusive_list.hpp
index 2f8ccd4..8cff599 100644
--- a/include/stdx/intrusive_list.hpp
+++ b/include/stdx/intrusive_list.hpp
@@ -91,6 +91,7 @@ class intrusive_list {
             n->prev = p->prev;
             p->prev = n;
         } else {
+            n->next = nullptr;
             n->prev = tail;
             tail = n;
         }
-- 
2.43.0


From c3d36c16b4b3aa09c519c84130efeed554621f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:51:17 +0000
Subject: [PATCH 06/13] fix: leave optional empty when emplace throws

emplace() destroyed the current value and then constructed the new one.  When
that constructor threw, the optional kept a destroyed object, which was later
read and destroyed again.  Put the empty marker back in that case.
---
 include/stdx/optional.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/stdx/optional.hpp b/include/stdx/optional.hpp
index a8bb172..2942a30 100644
--- a/include/stdx/optional.hpp
+++ b/include/stdx/optional.hpp
@@ -98,6 +98,16 @@ template <typename T, typename TS = tombstone_traits<T>> class optional {
     using check_specialization_t [[maybe_unused]] = decltype(traits());
     T val{traits()};
 
+    // makes the optional empty if constructing a new value throws
+    struct empty_guard {
+        T *target;
+        constexpr ~empty_guard() {
+            if (target != nullptr) {
+                new (target) T(traits());
+            }
+        }
+    };
+
   public:
     using value_type = T;
 
@@ -186,7 +196,9 @@ template <typename T, typename TS = tombstone_traits<T>> class optional {
     template <typename... Args>
     constexpr auto emplace(Args &&...args) LIFETIMEBOUND -> value_type & {
         val.~value_type();
+        auto guard = empty_guard{std::addressof(val)};
         new (std::addressof(val)) value_type(std::forward<Args>(args)...);
+        guard.target = nullptr;
         return value();
     }
 
-- 
2.43.0


From 561b2475fde0a25a47130f341619f240920f8e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:55:02 +0000
Subject: [PATCH 07/13] fix: call the library's own for_each_n from
 for_each_butlastn

For iterators associated with namespace std, such as those of std::vector, the
unqualified call picked std::for_each_n.  The result then lacked the returned
function, and initial_medial_final did not compile for such ranges.
---
 include/stdx/algorithm.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stdx/algorithm.hpp b/include/stdx/algorithm.hpp
index d2ccb99..926783a 100644
--- a/include/stdx/algorithm.hpp
+++ b/include/stdx/algorithm.hpp
@@ -93,7 +93,8 @@ constexpr auto for_each_butlastn(std::random_access_iterator_tag, RandIt first,
                                  RandIt last, N n, Operation op,
                                  RandItN... first_n) {
     auto const sz = std::distance(first, last);
-    return for_each_n(first, sz - static_cast<decltype(sz)>(n), op, first_n...);
+    return stdx::for_each_n(first, sz - static_cast<decltype(sz)>(n), op,
+                            first_n...);
 }
 } // namespace detail
 
-- 
2.43.0


From 8564922931c776a3a42b0ee37037cd4f70d37e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:03:33 +0000
Subject: [PATCH 08/13] fix: index type_bitset operations by the deduplicated
 type list

---
 include/stdx/bitset.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/stdx/bitset.hpp b/include/stdx/bitset.hpp
index a48b7d9..b4370ef 100644
--- a/include/stdx/bitset.hpp
+++ b/include/stdx/bitset.hpp
@@ -607,24 +607,24 @@ template <typename... Ts> class type_bitset {
 
     template <typename... Us>
     constexpr auto set(bool value = true) LIFETIMEBOUND -> type_bitset & {
-        static_assert((... and (detail::index_of<Us, type_list<Ts...>> < N)),
+        static_assert((... and (detail::index_of<Us, list_t> < N)),
                       "Type not found in bitset");
         if constexpr (sizeof...(Us) == 0) {
             bs.set();
         } else {
-            (bs.set(detail::index_of<Us, type_list<Ts...>>, value), ...);
+            (bs.set(detail::index_of<Us, list_t>, value), ...);
         }
         return *this;
     }
 
     template <typename... Us>
     constexpr auto reset() LIFETIMEBOUND -> type_bitset & {
-        static_assert((... and (detail::index_of<Us, type_list<Ts...>> < N)),
+        static_assert((... and (detail::index_of<Us, list_t> < N)),
                       "Type not found in bitset");
         if constexpr (sizeof...(Us) == 0) {
             bs.reset();
         } else {
-            (bs.reset(detail::index_of<Us, type_list<Ts...>>), ...);
+            (bs.reset(detail::index_of<Us, list_t>), ...);
         }
         return *this;
     }
@@ -636,12 +636,12 @@ template <typename... Ts> class type_bitset {
 
     template <typename... Us>
     constexpr auto flip() LIFETIMEBOUND -> type_bitset & {
-        static_assert((... and (detail::index_of<Us, type_list<Ts...>> < N)),
+        static_assert((... and (detail::index_of<Us, list_t> < N)),
                       "Type not found in bitset");
         if constexpr (sizeof...(Us) == 0) {
             bs.flip();
         } else {
-            (bs.flip(detail::index_of<Us, type_list<Ts...>>), ...);
+            (bs.flip(detail::index_of<Us, list_t>), ...);
         }
         return *this;
     }
-- 
2.43.0


From edc7ab363f48594e9f636ee6d83f755dd7ea1338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:03:54 +0000
Subject: [PATCH 09/13] fix: shift a bitset by its capacity or more

---
 include/stdx/bitset.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/stdx/bitset.hpp b/include/stdx/bitset.hpp
index b4370ef..bde65f4 100644
--- a/include/stdx/bitset.hpp
+++ b/include/stdx/bitset.hpp
@@ -441,6 +441,9 @@ class bitset {
 
     constexpr auto operator<<=(std::size_t pos) LIFETIMEBOUND->bitset & {
         if constexpr (N != 0) {
+            if (pos >= N) {
+                return reset();
+            }
             auto dst = storage_size - 1;
             auto const start = dst - (pos / storage_elem_size);
             pos %= storage_elem_size;
@@ -469,6 +472,9 @@ class bitset {
 
     constexpr auto operator>>=(std::size_t pos) LIFETIMEBOUND->bitset & {
         if constexpr (N != 0) {
+            if (pos >= N) {
+                return reset();
+            }
             auto dst = std::size_t{};
             auto const start = pos / storage_elem_size;
             pos %= storage_elem_size;
-- 
2.43.0


From ff8695f9d210dba507e589039d7467ac4e152d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:04:20 +0000
Subject: [PATCH 10/13] fix: walk a zero-capacity bitset without touching its
 storage

---
 include/stdx/bitset.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/stdx/bitset.hpp b/include/stdx/bitset.hpp
index bde65f4..25cb34d 100644
--- a/include/stdx/bitset.hpp
+++ b/include/stdx/bitset.hpp
@@ -147,14 +147,16 @@ class bitset {
 
     template <detail::bit_spec Spec, typename F>
     constexpr auto for_each(F &&f) const -> F {
-        std::size_t idx = 0;
-        for (auto i = std::size_t{}; i < storage_size - 1; ++i) {
-            Spec::template fn<bit, iter_arg_t,
-                              std::numeric_limits<elem_t>::max()>(storage[i],
-                                                                  idx, f);
-            idx += std::numeric_limits<elem_t>::digits;
+        if constexpr (N != 0) {
+            std::size_t idx = 0;
+            for (auto i = std::size_t{}; i < storage_size - 1; ++i) {
+                Spec::template fn<bit, iter_arg_t,
+                                  std::numeric_limits<elem_t>::max()>(
+                    storage[i], idx, f);
+                idx += std::numeric_limits<elem_t>::digits;
+            }
+            Spec::template fn<bit, iter_arg_t, lastmask>(highbits(), idx, f);
         }
-        Spec::template fn<bit, iter_arg_t, lastmask>(highbits(), idx, f);
         return std::forward<F>(f);
     }
 
-- 
2.43.0


From da5a47f05db565c9eb278b10493674eb01762fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:04:41 +0000
Subject: [PATCH 11/13] fix: never leave bits beyond the capacity of a bitset
 set

---
 include/stdx/bitset.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/stdx/bitset.hpp b/include/stdx/bitset.hpp
index 25cb34d..d86f1dc 100644
--- a/include/stdx/bitset.hpp
+++ b/include/stdx/bitset.hpp
@@ -88,6 +88,13 @@ class bitset {
         return storage.back() & lastmask;
     }
 
+    // every operation leaves the bits beyond N unset
+    constexpr auto trim() -> void {
+        if constexpr (N != 0) {
+            storage.back() &= lastmask;
+        }
+    }
+
     [[nodiscard]] constexpr static auto indices(std::size_t pos) {
         struct locator {
             std::size_t index;
@@ -185,7 +192,7 @@ class bitset {
   public:
     constexpr bitset() = default;
     constexpr explicit bitset(std::uint64_t value) {
-        if constexpr (std::is_same_v<elem_t, std::uint64_t>) {
+        if constexpr (N != 0 and std::is_same_v<elem_t, std::uint64_t>) {
             storage[0] = value;
         } else {
             for (auto &elem : storage) {
@@ -196,6 +203,7 @@ class bitset {
                 value >>= storage_elem_size;
             }
         }
+        trim();
     }
 
     template <typename... Bs>
@@ -325,6 +333,7 @@ class bitset {
         for (auto &elem : storage) {
             elem = allbits;
         }
+        trim();
         return *this;
     }
 
@@ -373,6 +382,7 @@ class bitset {
         for (auto &elem : storage) {
             elem ^= allbits;
         }
+        trim();
         return *this;
     }
 
@@ -419,6 +429,7 @@ class bitset {
         for (auto i = std::size_t{}; i < storage_size; ++i) {
             result.storage[i] = static_cast<elem_t>(~storage[i]);
         }
+        result.trim();
         return result;
     }
 
@@ -468,6 +479,7 @@ class bitset {
             while (dst > std::size_t{}) {
                 storage[--dst] = 0;
             }
+            trim();
         }
         return *this;
     }
-- 
2.43.0


From 010fea0e7cd0d0f4ad6b52fdfd9f7128db700a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:05:00 +0000
Subject: [PATCH 12/13] fix: make updating an empty range of a bitset do
 nothing

---
 include/stdx/bitset.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/stdx/bitset.hpp b/include/stdx/bitset.hpp
index d86f1dc..1634683 100644
--- a/include/stdx/bitset.hpp
+++ b/include/stdx/bitset.hpp
@@ -326,6 +326,9 @@ class bitset {
         -> bitset & {
         auto const l = to_underlying(lsb);
         auto const length = to_underlying(len);
+        if (length == 0) {
+            return *this;
+        }
         return set(lsb, static_cast<msb_t>(l + length - 1), value);
     }
 
-- 
2.43.0


From 0dfdd529ae3c246178c50092706d9ac92fe69c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:03:33 +0000
Subject: [PATCH 13/13] fix: do not move an element repeatedly when building a
 product of copies

cartesian_product_copy forwarded each element of an expiring tuple once per
combination, so all but one combination received a moved-from element.
An element is now moved only when it is used exactly once.
---
 include/stdx/tuple_algorithms.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/stdx/tuple_algorithms.hpp b/include/stdx/tuple_algorithms.hpp
index be86d1f..76a5705 100644
--- a/include/stdx/tuple_algorithms.hpp
+++ b/include/stdx/tuple_algorithms.hpp
@@ -442,8 +442,12 @@ template <tuplelike... Ts> constexpr auto cartesian_product_copy(Ts &&...ts) {
                                                         Elems &&...elems) {
                 [[maybe_unused]] auto const prepend = [&]<typename E>(E &&e) {
                     return c.apply([&](auto... subs) {
-                        return make_tuple(
-                            tuple_cat(make_tuple(std::forward<E>(e)), subs)...);
+                        // e can be moved from only if it is used only once
+                        using elem_t =
+                            std::conditional_t<sizeof...(subs) == 1, E,
+                                               E const &>;
+                        return make_tuple(tuple_cat(
+                            make_tuple(std::forward<elem_t>(e)), subs)...);
                     });
                 };
                 return tuple_cat(prepend(std::forward<Elems>(elems))...);
-- 
2.43.0

