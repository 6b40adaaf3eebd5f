From 24cbcc7c763c433cbd72c988672b8adf6fe60600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:25 +0000
Subject: [PATCH 01/25] fix: make every header self-contained

---
 sources/include/utils/cartesian_product.h | 2 ++
 sources/include/utils/common.h            | 5 +++++
 sources/include/utils/details/cxz.h       | 2 ++
 sources/include/utils/fast_pimpl.h        | 2 ++
 sources/include/utils/memory/allocator.h  | 3 +++
 sources/include/utils/memory/memory.h     | 2 ++
 sources/include/utils/timer.h             | 3 +++
 sources/include/utils/value_list.h        | 2 ++
 8 files changed, 21 insertions(+)

diff --git a/sources/include/utils/cartesian_product.h b/sources/include/utils/cartesian_product.h
index 563c628..f8fb21a 100644
--- a/sources/include/utils/cartesian_product.h
+++ b/sources/include/utils/cartesian_product.h
@@ -1,6 +1,8 @@
 #ifndef utils_cartesian_product_h
 #define utils_cartesian_product_h
 
+#include <cstddef>
+
 namespace utils
 {
 template <typename... Ts>
diff --git a/sources/include/utils/common.h b/sources/include/utils/common.h
index 45589ff..6950218 100644
--- a/sources/include/utils/common.h
+++ b/sources/include/utils/common.h
@@ -1,18 +1,23 @@
 #ifndef utils_common_h
 #define utils_common_h
 
+#include <algorithm>
 #include <array>
 #include <cassert>
 #include <climits>
 #include <cstdarg>
+#include <cstddef>
+#include <cstdint>
 #include <cstdio>
 #include <cstdlib>
 #include <cstring>
 #include <functional>
+#include <initializer_list>
 #include <limits>
 #include <string_view>
 #include <tuple>
 #include <type_traits>
+#include <utility>
 
 #include "value_list.h"
 
diff --git a/sources/include/utils/details/cxz.h b/sources/include/utils/details/cxz.h
index f477c96..14a4fa7 100644
--- a/sources/include/utils/details/cxz.h
+++ b/sources/include/utils/details/cxz.h
@@ -1,6 +1,8 @@
 #ifndef utils_details_cxz_h
 #define utils_details_cxz_h
 
+#include <type_traits>
+
 namespace utils
 {
 namespace details
diff --git a/sources/include/utils/fast_pimpl.h b/sources/include/utils/fast_pimpl.h
index 6514c47..61dbf26 100644
--- a/sources/include/utils/fast_pimpl.h
+++ b/sources/include/utils/fast_pimpl.h
@@ -1,8 +1,10 @@
 #ifndef utils_fast_pimpl_h
 #define utils_fast_pimpl_h
 
+#include <cstddef>
 #include <new>
 #include <type_traits>
+#include <utility>
 
 namespace utils
 {
diff --git a/sources/include/utils/memory/allocator.h b/sources/include/utils/memory/allocator.h
index c783925..b170935 100644
--- a/sources/include/utils/memory/allocator.h
+++ b/sources/include/utils/memory/allocator.h
@@ -1,7 +1,10 @@
 #ifndef utils_allocator_h
 #define utils_allocator_h
 
+#include <cstddef>
+#include <new>
 #include <type_traits>
+#include <utility>
 
 #include "memory.h"
 
diff --git a/sources/include/utils/memory/memory.h b/sources/include/utils/memory/memory.h
index 8daca9f..7bcd368 100644
--- a/sources/include/utils/memory/memory.h
+++ b/sources/include/utils/memory/memory.h
@@ -5,7 +5,9 @@
 
 #include <algorithm>
 #include <atomic>
+#include <cassert>
 #include <cstddef>
+#include <cstdint>
 #include <cstdlib>
 #include <cstring>
 #include <functional>
diff --git a/sources/include/utils/timer.h b/sources/include/utils/timer.h
index 002ea87..01134a2 100644
--- a/sources/include/utils/timer.h
+++ b/sources/include/utils/timer.h
@@ -2,6 +2,9 @@
 #define utils_timer_h
 
 #include <chrono>
+#include <cstddef>
+#include <functional>
+#include <new>
 #include <type_traits>
 #include <utility>
 
diff --git a/sources/include/utils/value_list.h b/sources/include/utils/value_list.h
index 5247db4..2aea0fd 100644
--- a/sources/include/utils/value_list.h
+++ b/sources/include/utils/value_list.h
@@ -1,9 +1,11 @@
 #ifndef utils_value_list_h
 #define utils_value_list_h
 
+#include <algorithm>
 #include <cstddef>
 #include <tuple>
 #include <type_traits>
+#include <utility>
 
 #include "type_list.h"
 
-- 
2.43.0


From ec6749df873df109d600b11c69ce03e49a50cad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:25 +0000
Subject: [PATCH 02/25] fix: div must not squeeze unsigned 64-bit operands into
 long long

---
 sources/include/utils/common.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sources/include/utils/common.h b/sources/include/utils/common.h
index 6950218..6d3d556 100644
--- a/sources/include/utils/common.h
+++ b/sources/include/utils/common.h
@@ -596,7 +596,10 @@ constexpr decltype(auto) div(T aNumerator, U aDenominator) noexcept
     static_assert(std::is_integral_v<T>);
     static_assert(std::is_integral_v<U>);
     using type = std::common_type_t<remove_cvref_t<T>, remove_cvref_t<U>>;
-    if (__builtin_is_constant_evaluated())
+    using types_with_builtin_impl = type_list<int, long, long long>;
+    using common_t = std::common_type_t<type, int, long, long long>;
+    if (!types_with_builtin_impl::contains_v<common_t> ||
+        __builtin_is_constant_evaluated())
     {
         return div_t<type>{static_cast<type>(static_cast<type>(aNumerator) /
                                              static_cast<type>(aDenominator)),
@@ -605,8 +608,6 @@ constexpr decltype(auto) div(T aNumerator, U aDenominator) noexcept
     }
     else
     {
-        using types_with_builtin_impl = type_list<int, long, long long>;
-        using common_t = std::common_type_t<type, int, long, long long>;
         using work_t =
             std::conditional_t<types_with_builtin_impl::contains_v<common_t>,
                                common_t, long long>;
-- 
2.43.0


From ee92ea2f0e2b4dff7efee3d17289db9725c5e5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:25 +0000
Subject: [PATCH 03/25] fix: make_array must copy its value into every element

---
 sources/include/utils/common.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sources/include/utils/common.h b/sources/include/utils/common.h
index 6d3d556..0ab5239 100644
--- a/sources/include/utils/common.h
+++ b/sources/include/utils/common.h
@@ -183,7 +183,7 @@ template <typename T, std::size_t... I>
 constexpr std::array<T, sizeof...(I)> make_array_with_value_impl(
     [[maybe_unused]] T aValue, std::index_sequence<I...>) noexcept
 {
-    return {make_element_for_index<T, I>(std::move(aValue))...};
+    return {make_element_for_index<const T&, I>(aValue)...};
 }
 
 template <std::size_t... I>
@@ -332,8 +332,7 @@ constexpr decltype(auto) sv_to_array(const std::string_view aSV) noexcept
 template <typename T, std::size_t N>
 constexpr std::array<T, N> make_zero_array()
 {
-    return details::make_array_with_value_impl<T>(
-        T{}, std::make_index_sequence<N>{});
+    return std::array<T, N>{};
 }
 
 template <class T, std::size_t N>
-- 
2.43.0


From be31c330b7924e2919867443d62deadc202d359d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:25 +0000
Subject: [PATCH 04/25] fix: compute alignments above 2^30 in std::size_t

---
 sources/include/utils/common.h                 | 2 +-
 sources/include/utils/memory/simple_resource.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/include/utils/common.h b/sources/include/utils/common.h
index 0ab5239..4eff72e 100644
--- a/sources/include/utils/common.h
+++ b/sources/include/utils/common.h
@@ -427,7 +427,7 @@ constexpr std::size_t max_alignment_inside_block(
     const std::size_t msb = bits_count(value) - 1;
 
     // 2. return 2^msb
-    const std::size_t max_alignment = 1 << msb;
+    const std::size_t max_alignment = std::size_t{1} << msb;
 
     return max_alignment;
     ;
diff --git a/sources/include/utils/memory/simple_resource.h b/sources/include/utils/memory/simple_resource.h
index 995d026..dda21b8 100644
--- a/sources/include/utils/memory/simple_resource.h
+++ b/sources/include/utils/memory/simple_resource.h
@@ -295,7 +295,7 @@ class simple_resource : public memory_resource
         if (data_)
         {
             const std::size_t kBufferAlignment =
-                1 << ctz(reinterpret_cast<uintptr_t>(data_));
+                std::size_t{1} << ctz(reinterpret_cast<uintptr_t>(data_));
             if (aAlignment <= max_alignment_inside_block(
                                   kBufferAlignment, block_count_ * BlockSize))
             {
-- 
2.43.0


From 485c93fdcd7dae301339f6796e3d461bfd510641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:25 +0000
Subject: [PATCH 05/25] fix: constant evaluated memmove must handle dst inside
 src

---
 sources/include/utils/memory/memory.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/sources/include/utils/memory/memory.h b/sources/include/utils/memory/memory.h
index 7bcd368..1882a90 100644
--- a/sources/include/utils/memory/memory.h
+++ b/sources/include/utils/memory/memory.h
@@ -100,6 +100,22 @@ constexpr std::byte *memmove(std::byte *aDst, const std::byte *aSrc,
         {
             return aDst;
         }
+        bool dst_inside_src = false;
+        for (std::size_t i = 1; i < aCount; ++i)
+        {
+            if (aDst == aSrc + i)
+            {
+                dst_inside_src = true;
+            }
+        }
+        if (dst_inside_src)
+        {
+            for (std::size_t i = aCount; i > 0; --i)
+            {
+                *(aDst + i - 1) = *(aSrc + i - 1);
+            }
+            return aDst;
+        }
         for (std::size_t i = 0; i < aCount; ++i)
         {
             *(aDst + i) = *(aSrc + i);
-- 
2.43.0


From 34dd6759dfdde21806ffb68b94d6a5c0f82a228e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:25 +0000
Subject: [PATCH 06/25] fix: stores of secure_zero_memory must not be optimized
 out

---
 sources/include/utils/memory/memory.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sources/include/utils/memory/memory.h b/sources/include/utils/memory/memory.h
index 1882a90..64c834b 100644
--- a/sources/include/utils/memory/memory.h
+++ b/sources/include/utils/memory/memory.h
@@ -68,7 +68,12 @@ inline constexpr void secure_zero_memory(std::byte *aPtr,
 #ifdef __STDC_LIB_EXT1__
         sysops::memory::ops::memset_s(aPtr, aSize, '\0', aSize);
 #else
-        handmade_zero_mem(aPtr, aSize);
+        // volatile: these stores must survive even when the buffer is dead
+        volatile std::byte *buf = aPtr;
+        for (std::size_t i = 0; i < aSize; ++i)
+        {
+            *(buf + i) = std::byte{};
+        }
 #endif
 #endif
     }
-- 
2.43.0


From a1c2995b76bd26274665db79421b4a91786163a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:25 +0000
Subject: [PATCH 07/25] fix: one system and one null memory resource per
 program

---
 sources/include/utils/memory/memory.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sources/include/utils/memory/memory.h b/sources/include/utils/memory/memory.h
index 64c834b..100439b 100644
--- a/sources/include/utils/memory/memory.h
+++ b/sources/include/utils/memory/memory.h
@@ -241,8 +241,8 @@ class memory_resource
     deallocate_t deallocate_{};
 };
 
-static memory_resource *system_memory_resource() noexcept;
-static memory_resource *null_memory_resource() noexcept;
+inline memory_resource *system_memory_resource() noexcept;
+inline memory_resource *null_memory_resource() noexcept;
 
 namespace details
 {
@@ -309,13 +309,13 @@ class null_memory_resource : public memory_resource
 };
 }  // namespace details
 
-[[maybe_unused]] static memory_resource *system_memory_resource() noexcept
+inline memory_resource *system_memory_resource() noexcept
 {
     static details::system_memory_resource r;
     return &r;
 }
 
-[[maybe_unused]] static memory_resource *null_memory_resource() noexcept
+inline memory_resource *null_memory_resource() noexcept
 {
     static details::null_memory_resource r;
     return &r;
-- 
2.43.0


From bd8e0e2640b72b418e8b1f8ab24d38ab048ebb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:25 +0000
Subject: [PATCH 08/25] fix: allocator must forward constructor arguments

---
 sources/include/utils/memory/allocator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/include/utils/memory/allocator.h b/sources/include/utils/memory/allocator.h
index b170935..eb8c6f0 100644
--- a/sources/include/utils/memory/allocator.h
+++ b/sources/include/utils/memory/allocator.h
@@ -40,7 +40,7 @@ class allocator
     template <typename U, typename... Args>
     void construct(U* aPtr, Args&&... aArgs) noexcept
     {
-        new (aPtr) U(std::forward<T>(aArgs)...);
+        new (aPtr) U(std::forward<Args>(aArgs)...);
     }
 
     [[nodiscard]] void* allocate_bytes(
@@ -71,7 +71,7 @@ class allocator
         U* ptr = this->allocate_object<U>();
         if (ptr)
         {
-            this->construct(ptr, aArgs...);
+            this->construct(ptr, std::forward<CtorArgs>(aArgs)...);
         }
         return ptr;
     }
-- 
2.43.0


From 5d8cd8d17b80b27e7004250949ff2a05a1160db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:25 +0000
Subject: [PATCH 09/25] fix: convert and compare allocators of different types

---
 sources/include/utils/memory/allocator.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sources/include/utils/memory/allocator.h b/sources/include/utils/memory/allocator.h
index eb8c6f0..3328c6b 100644
--- a/sources/include/utils/memory/allocator.h
+++ b/sources/include/utils/memory/allocator.h
@@ -23,7 +23,8 @@ class allocator
     allocator& operator=(const allocator&) = delete;
 
     template <typename U>
-    allocator(const allocator<U>& aOther) noexcept : resource_(aOther.resource_)
+    allocator(const allocator<U>& aOther) noexcept
+        : resource_(aOther.resource())
     {
     }
 
@@ -107,7 +108,7 @@ class allocator
 template <class T1, class T2>
 bool operator==(const allocator<T1>& aLhs, const allocator<T2>& aRhs) noexcept
 {
-    return *aLhs.resource_ == *aRhs.resource_;
+    return *aLhs.resource() == *aRhs.resource();
 }
 
 template <class T1, class T2>
-- 
2.43.0


From 8408db602062bed9bb5e6017d772c6ea9e5e3cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:25 +0000
Subject: [PATCH 10/25] fix: allocator must refuse counts whose byte size
 overflows

---
 sources/include/utils/memory/allocator.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sources/include/utils/memory/allocator.h b/sources/include/utils/memory/allocator.h
index 3328c6b..bb8bc51 100644
--- a/sources/include/utils/memory/allocator.h
+++ b/sources/include/utils/memory/allocator.h
@@ -2,6 +2,7 @@
 #define utils_allocator_h
 
 #include <cstddef>
+#include <limits>
 #include <new>
 #include <type_traits>
 #include <utility>
@@ -32,6 +33,10 @@ class allocator
 
     [[nodiscard]] T* allocate(std::size_t aCount) noexcept
     {
+        if (aCount > std::numeric_limits<std::size_t>::max() / sizeof(T))
+        {
+            return nullptr;
+        }
         return static_cast<T*>(
             resource_->allocate(aCount * sizeof(T), alignof(T)));
     }
@@ -56,6 +61,10 @@ class allocator
     template <typename U>
     [[nodiscard]] U* allocate_object(std::size_t aCount = 1) noexcept
     {
+        if (aCount > std::numeric_limits<std::size_t>::max() / sizeof(U))
+        {
+            return nullptr;
+        }
         return static_cast<U*>(allocate_bytes(aCount * sizeof(U), alignof(U)));
     }
 
-- 
2.43.0


From 898ca844be44836d66d850bdc334e7e31317398f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:25 +0000
Subject: [PATCH 11/25] fix: monotonic_buffer_resource must not wrap around on
 huge sizes

---
 sources/include/utils/memory/monotonic_buffer_resource.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sources/include/utils/memory/monotonic_buffer_resource.h b/sources/include/utils/memory/monotonic_buffer_resource.h
index 33f5368..e8adc4e 100644
--- a/sources/include/utils/memory/monotonic_buffer_resource.h
+++ b/sources/include/utils/memory/monotonic_buffer_resource.h
@@ -72,10 +72,11 @@ class monotonic_buffer_resource : public memory_resource
         if (data_)
         {
             const auto skip = skip_to_align(next_, aAlignment);
-            std::byte *supposed_result = next_ + skip;
-            if (std::less_equal<std::byte *>{}(supposed_result + aSize,
-                                               data_ + size_))
+            const auto available =
+                static_cast<std::size_t>(data_ + size_ - next_);
+            if ((skip <= available) && (aSize <= available - skip))
             {
+                std::byte *supposed_result = next_ + skip;
                 next_ = supposed_result + aSize;
                 pointer = supposed_result;
             }
-- 
2.43.0


From cd879f5dc50c1cac356cb85aa2ce7b2270d3ae96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:25 +0000
Subject: [PATCH 12/25] fix: simple_resource must visit every region, not only
 0 and 1

---
 sources/include/utils/memory/simple_resource.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sources/include/utils/memory/simple_resource.h b/sources/include/utils/memory/simple_resource.h
index dda21b8..a215d47 100644
--- a/sources/include/utils/memory/simple_resource.h
+++ b/sources/include/utils/memory/simple_resource.h
@@ -214,7 +214,7 @@ class simple_resource : public memory_resource
     void release() noexcept
     {
         apply([this](BIndex aIndex) noexcept -> bool { return in_use(aIndex); },
-              [this](BIndex aIndex) mutable noexcept -> bool
+              [this](BIndex aIndex) mutable noexcept -> BIndex
               { return at(deallocate_blocks(aIndex)).next_index(); });
     }
 
@@ -302,7 +302,7 @@ class simple_resource : public memory_resource
                 apply([this](BIndex aIndex) noexcept -> bool
                       { return not in_use(aIndex); },
                       [this, &pointer, aAlignment,
-                       aSize](BIndex aIndex) mutable noexcept -> bool
+                       aSize](BIndex aIndex) mutable noexcept -> BIndex
                       {
                           const auto block_size = block_size_in_bytes(aIndex);
                           std::byte *const block_pointer =
@@ -391,7 +391,7 @@ class simple_resource : public memory_resource
 
     template <typename Predicate, typename Action>
     std::enable_if_t<std::is_nothrow_invocable_r_v<bool, Predicate, BIndex> &&
-                     std::is_nothrow_invocable_r_v<bool, Action, BIndex>>
+                     std::is_nothrow_invocable_r_v<BIndex, Action, BIndex>>
     apply(Predicate &&aPredicate, Action &&aAction) noexcept
     {
         BIndex i = 0;
-- 
2.43.0


From 1abed6d8cc68dece8df6409bf9f8985ac101cfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:25 +0000
Subject: [PATCH 13/25] fix: simple_resource must not take the block after the
 allocation

---
 sources/include/utils/memory/simple_resource.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/include/utils/memory/simple_resource.h b/sources/include/utils/memory/simple_resource.h
index a215d47..2a4ec66 100644
--- a/sources/include/utils/memory/simple_resource.h
+++ b/sources/include/utils/memory/simple_resource.h
@@ -413,7 +413,7 @@ class simple_resource : public memory_resource
                          std::size_t aSize) noexcept
     {
         const BIndex first = pointer_to_block_index(aPtr);
-        const BIndex last = pointer_to_block_index(aPtr + aSize);
+        const BIndex last = pointer_to_block_index(aPtr + aSize - 1);
         const BIndex after_free = at(aFreeRegion).next_index();
         const BIndex last_of_free =
             after_free ? after_free - 1 : static_cast<BIndex>(block_count_ - 1);
-- 
2.43.0


From 11f71ac1e0b7d9111538693be1bce47ee2e54784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:25 +0000
Subject: [PATCH 14/25] fix: simple_resource must not wrap around on huge sizes

---
 sources/include/utils/memory/simple_resource.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sources/include/utils/memory/simple_resource.h b/sources/include/utils/memory/simple_resource.h
index 2a4ec66..d2b2f9d 100644
--- a/sources/include/utils/memory/simple_resource.h
+++ b/sources/include/utils/memory/simple_resource.h
@@ -309,7 +309,8 @@ class simple_resource : public memory_resource
                               block_index_to_pointer(aIndex);
                           const auto skip =
                               skip_to_align(block_pointer, aAlignment);
-                          if (skip + aSize <= block_size)
+                          if ((skip <= block_size) &&
+                              (aSize <= block_size - skip))
                           {
                               pointer = block_pointer + skip;
                               allocate_blocks(aIndex, pointer, aSize);
-- 
2.43.0


From 9720c641f1eb381ceb67d48252d36004a2234d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:25 +0000
Subject: [PATCH 15/25] fix: simple_resource must ask upstream for block
 aligned memory

---
 sources/include/utils/memory/simple_resource.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/include/utils/memory/simple_resource.h b/sources/include/utils/memory/simple_resource.h
index d2b2f9d..1f0f7c6 100644
--- a/sources/include/utils/memory/simple_resource.h
+++ b/sources/include/utils/memory/simple_resource.h
@@ -323,8 +323,8 @@ class simple_resource : public memory_resource
 
         if (!pointer && upstream_)
         {
-            pointer = static_cast<std::byte *>(
-                upstream_->allocate(aSize, aAlignment));
+            pointer = static_cast<std::byte *>(upstream_->allocate(
+                aSize, std::max(aAlignment, BlockSize)));
         }
 
         assert(is_aligned(pointer, BlockSize));
-- 
2.43.0


From 9e6148f690d5a67a9470fc82ab1fb953a3cedcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:25 +0000
Subject: [PATCH 16/25] fix: simple_resource without blocks has no free region
 to visit

---
 sources/include/utils/memory/simple_resource.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sources/include/utils/memory/simple_resource.h b/sources/include/utils/memory/simple_resource.h
index 1f0f7c6..b342da7 100644
--- a/sources/include/utils/memory/simple_resource.h
+++ b/sources/include/utils/memory/simple_resource.h
@@ -213,6 +213,10 @@ class simple_resource : public memory_resource
 
     void release() noexcept
     {
+        if (!block_count_)
+        {
+            return;
+        }
         apply([this](BIndex aIndex) noexcept -> bool { return in_use(aIndex); },
               [this](BIndex aIndex) mutable noexcept -> BIndex
               { return at(deallocate_blocks(aIndex)).next_index(); });
@@ -277,6 +281,7 @@ class simple_resource : public memory_resource
         , block_count_(
               std::min(std::get<1>(aOriginAndBlockCount), MaxBlockCount))
         , upstream_(aUpstream)
+        , free_count_(block_count_ ? 1 : 0)
     {
     }
 
-- 
2.43.0


From 9b238eaef72bbba36d920b158eaaa831e4020911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:25 +0000
Subject: [PATCH 17/25] fix: print std::size_t values of simple_resource with
 %zu

---
 sources/include/utils/memory/simple_resource.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sources/include/utils/memory/simple_resource.h b/sources/include/utils/memory/simple_resource.h
index b342da7..fcfecee 100644
--- a/sources/include/utils/memory/simple_resource.h
+++ b/sources/include/utils/memory/simple_resource.h
@@ -169,7 +169,7 @@ class simple_resource : public memory_resource
     ~simple_resource() override
     {
         UTILS_ABORT_IF(busy_count_,
-                       "\nreason: simple_resource is being destroyed while %d "
+                       "\nreason: simple_resource is being destroyed while %zu "
                        "of its regions "
                        "are in use.",
                        busy_count_);
@@ -347,7 +347,7 @@ class simple_resource : public memory_resource
         UTILS_ABORT_IF(
             !is_aligned(aPtr, BlockSize),
             "\nreason: pointer(%p) which is being deallocated must be aligned "
-            "at least as one block size(%d)",
+            "at least as one block size(%zu)",
             aPtr, BlockSize);
 
         if ((aPtr >= static_cast<void *>(data_)) &&
@@ -382,9 +382,9 @@ class simple_resource : public memory_resource
     {
         assert(aIndex < block_count_);
         UTILS_ABORT_IF(not in_use(aIndex),
-                       "\nreason: trying to deallocate block(%d) that was not "
+                       "\nreason: trying to deallocate block(%zu) that was not "
                        "marked as allocated",
-                       aIndex);
+                       static_cast<std::size_t>(aIndex));
 
         reset_in_use(aIndex);
         assert(busy_count_ > 0);
-- 
2.43.0


From 06dd2eec5dbfc0596089a8f77d9542d3ebfb0737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:25 +0000
Subject: [PATCH 18/25] fix: timer must reject callbacks that can not be moved
 as bytes

---
 sources/include/utils/timer.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sources/include/utils/timer.h b/sources/include/utils/timer.h
index 01134a2..cebddfe 100644
--- a/sources/include/utils/timer.h
+++ b/sources/include/utils/timer.h
@@ -102,6 +102,8 @@ class timer
         using callback_ref_t = typename impl::callback_ref_t;
         static_assert(alignof(stored_callback_t) <= MaxCallbackAlignment);
         static_assert(sizeof(stored_callback_t) <= MaxCallbackSize);
+        static_assert(std::is_trivially_copyable_v<stored_callback_t>,
+                      "timer moves its callback as raw bytes");
         static_assert(std::is_invocable_r_v<void, FinishCallback, duration>);
         if constexpr (std::is_same_v<FinishCallback, callback_ref_t>)
         {
-- 
2.43.0


From e5c4a315210481016e4040141992b11cdf1c9842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:01 +0000
Subject: [PATCH 19/25] fix: div must convert its operands to the common type
 first

---
 sources/include/utils/common.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sources/include/utils/common.h b/sources/include/utils/common.h
index 4eff72e..a195cf4 100644
--- a/sources/include/utils/common.h
+++ b/sources/include/utils/common.h
@@ -611,8 +611,9 @@ constexpr decltype(auto) div(T aNumerator, U aDenominator) noexcept
             std::conditional_t<types_with_builtin_impl::contains_v<common_t>,
                                common_t, long long>;
 
-        const auto result = std::div(static_cast<work_t>(aNumerator),
-                                     static_cast<work_t>(aDenominator));
+        const auto result =
+            std::div(static_cast<work_t>(static_cast<type>(aNumerator)),
+                     static_cast<work_t>(static_cast<type>(aDenominator)));
         return div_t<type>{static_cast<type>(result.quot),
                            static_cast<type>(result.rem)};
     }
-- 
2.43.0


From 9df4e42e83da44c77ad2b3d9b608d38964664d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:13 +0000
Subject: [PATCH 20/25] fix: values_in_range must reach the last value of its
 type

---
 sources/include/utils/common.h | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/sources/include/utils/common.h b/sources/include/utils/common.h
index a195cf4..0d2838b 100644
--- a/sources/include/utils/common.h
+++ b/sources/include/utils/common.h
@@ -710,13 +710,15 @@ struct values_in_range
 {
    private:
     using SeqT = std::common_type_t<decltype(First), decltype(Last)>;
-    using Indices = shifted_sequence_t<
-        std::make_integer_sequence<SeqT, static_cast<SeqT>(Last + 1 - First)>,
-        static_cast<SeqT>(First)>;
-
-    template <auto... I>
-    static value_list<I...> values_in_range_impl(
-        std::integer_sequence<SeqT, I...>) noexcept;
+    // counted in std::size_t, Last + 1 may not be a value of SeqT
+    using Indices = std::make_index_sequence<static_cast<std::size_t>(Last) -
+                                             static_cast<std::size_t>(First) +
+                                             1>;
+
+    template <std::size_t... I>
+    static value_list<static_cast<SeqT>(static_cast<std::size_t>(First) +
+                                        I)...>
+        values_in_range_impl(std::index_sequence<I...>) noexcept;
 
    public:
     using type = decltype(values_in_range_impl(Indices{}));
-- 
2.43.0


From 158e96a541e1389f329218df83772b585d12f225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:30 +0000
Subject: [PATCH 21/25] fix: make_array_from_range must accept the greatest
 value of its type as the end

---
 sources/include/utils/common.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/sources/include/utils/common.h b/sources/include/utils/common.h
index 0d2838b..ceaf31b 100644
--- a/sources/include/utils/common.h
+++ b/sources/include/utils/common.h
@@ -293,25 +293,25 @@ constexpr auto make_array_from_range() noexcept
     static_assert(is_valid_range_v<kMin, kMax, Step, CommonT>,
                   "Invalid range arguments.");
 
+    // the value that follows the last one may not be a value of the type
     auto step_count = [](auto aBegin, auto aEnd, auto aStep) constexpr
     {
-        std::size_t count{};
-        while (aBegin <= aEnd)
-        {
-            ++count;
-            aBegin += aStep;
-        }
-        return count;
+        return aBegin == aEnd ? std::size_t{1}
+                              : (static_cast<std::size_t>(aEnd) -
+                                 static_cast<std::size_t>(aBegin)) /
+                                        static_cast<std::size_t>(aStep) +
+                                    1;
     };
 
     constexpr auto kCount = step_count(kMin, kMax, Step);
 
     std::array<CommonT, kCount> result{};
     auto currentValue = Begin;
-    for (auto& v: result)
+    result[0] = CommonT{currentValue};
+    for (std::size_t i = 1; i < kCount; ++i)
     {
-        v = CommonT{currentValue};
         currentValue = currentValue + Step;
+        result[i] = CommonT{currentValue};
     }
     return result;
 }
-- 
2.43.0


From 849c5d260574da1a15bdc2536263c2edbac65fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:36 +0000
Subject: [PATCH 22/25] fix: has_padding must accept aggregates without members

---
 sources/include/utils/padding_checker.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sources/include/utils/padding_checker.h b/sources/include/utils/padding_checker.h
index 9855444..81f11b2 100644
--- a/sources/include/utils/padding_checker.h
+++ b/sources/include/utils/padding_checker.h
@@ -17,9 +17,10 @@ struct sum_size_of_all_members;
 template <typename T, std::size_t... I>
 std::integral_constant<
     std::size_t,
-    (... + sum_size_of_all_members<
-               pfr::tuple_element_t<I, T>,
-               std::is_aggregate_v<pfr::tuple_element_t<I, T>>>::value)>
+    (std::size_t{} + ... +
+     sum_size_of_all_members<
+         pfr::tuple_element_t<I, T>,
+         std::is_aggregate_v<pfr::tuple_element_t<I, T>>>::value)>
     sum(std::index_sequence<I...>);
 
 template <typename T, bool IsAggregate>
-- 
2.43.0


From 1b21407a8986e371ec414896bca9af0b78bd3185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:36 +0000
Subject: [PATCH 23/25] fix: is_uint and is_uint_or_byte must look through
 cv-qualifiers

---
 sources/include/utils/common.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sources/include/utils/common.h b/sources/include/utils/common.h
index ceaf31b..1e377c6 100644
--- a/sources/include/utils/common.h
+++ b/sources/include/utils/common.h
@@ -70,7 +70,7 @@ namespace utils
 template <typename T>
 struct is_uint
     : std::conjunction<std::is_unsigned<T>,
-                       std::negation<std::is_same<T, bool>>>
+                       std::negation<std::is_same<std::remove_cv_t<T>, bool>>>
 {
 };
 
@@ -79,7 +79,8 @@ inline constexpr bool is_uint_v = is_uint<T>::value;
 
 template <typename T>
 struct is_uint_or_byte
-    : std::disjunction<is_uint<T>, std::is_same<T, std::byte>>
+    : std::disjunction<is_uint<T>,
+                       std::is_same<std::remove_cv_t<T>, std::byte>>
 {
 };
 
-- 
2.43.0


From 0abc98d73fd6a52198229118ca24258ef9c1f9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:08 +0000
Subject: [PATCH 24/25] fix: memory resources must not be copy-assignable

---
 sources/include/utils/memory/memory.h                    | 2 ++
 sources/include/utils/memory/monotonic_buffer_resource.h | 2 ++
 sources/include/utils/memory/simple_resource.h           | 1 +
 3 files changed, 5 insertions(+)

diff --git a/sources/include/utils/memory/memory.h b/sources/include/utils/memory/memory.h
index 100439b..1539eb5 100644
--- a/sources/include/utils/memory/memory.h
+++ b/sources/include/utils/memory/memory.h
@@ -253,6 +253,7 @@ class system_memory_resource : public memory_resource
 {
    public:
     system_memory_resource(const system_memory_resource &) = delete;
+    system_memory_resource &operator=(const system_memory_resource &) = delete;
 
     bool is_equal(const memory_resource &aOther) const noexcept override
     {
@@ -283,6 +284,7 @@ class null_memory_resource : public memory_resource
 {
    public:
     null_memory_resource(const null_memory_resource &) = delete;
+    null_memory_resource &operator=(const null_memory_resource &) = delete;
 
     bool is_equal(const memory_resource &aOther) const noexcept override
     {
diff --git a/sources/include/utils/memory/monotonic_buffer_resource.h b/sources/include/utils/memory/monotonic_buffer_resource.h
index e8adc4e..eda452f 100644
--- a/sources/include/utils/memory/monotonic_buffer_resource.h
+++ b/sources/include/utils/memory/monotonic_buffer_resource.h
@@ -15,6 +15,8 @@ class monotonic_buffer_resource : public memory_resource
 
    public:
     monotonic_buffer_resource(const monotonic_buffer_resource &) = delete;
+    monotonic_buffer_resource &operator=(const monotonic_buffer_resource &) =
+        delete;
     monotonic_buffer_resource(std::byte *const aBuffer, const std::size_t aSize,
                               memory_resource *aUpstream) noexcept
         : memory_resource(
diff --git a/sources/include/utils/memory/simple_resource.h b/sources/include/utils/memory/simple_resource.h
index fcfecee..c514f9d 100644
--- a/sources/include/utils/memory/simple_resource.h
+++ b/sources/include/utils/memory/simple_resource.h
@@ -176,6 +176,7 @@ class simple_resource : public memory_resource
     }
 
     simple_resource(const simple_resource &) = delete;
+    simple_resource &operator=(const simple_resource &) = delete;
     simple_resource() noexcept = delete;
     simple_resource(std::byte *const aBuffer, const std::size_t aSize,
                     memory_resource *aUpstream) noexcept
-- 
2.43.0


From 835f5793b531e8ddb4c03f756c963793aaca03b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:04 +0000
Subject: [PATCH 25/25] fix: let exceptions of element copies out of the array
 builders

---
 sources/include/utils/common.h | 39 ++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/sources/include/utils/common.h b/sources/include/utils/common.h
index 1e377c6..0b8046c 100644
--- a/sources/include/utils/common.h
+++ b/sources/include/utils/common.h
@@ -143,11 +143,17 @@ inline constexpr std::size_t std_array_sizes_sum = (0 + ... +
 
 namespace details
 {
+// elements are copied or moved out of the arrays, then moved along
+template <typename... Arrays>
+inline constexpr bool is_nothrow_concatenable = std::conjunction_v<
+    std::is_nothrow_constructible<std::decay_t<Arrays>, Arrays>...,
+    std::is_nothrow_move_constructible<std::decay_t<Arrays>>...>;
+
 template <typename A1, typename A2, std::size_t... i1, std::size_t... i2,
           typename = std::enable_if_t<is_same_data_std_arrays<A1, A2>>>
-static constexpr auto concatenate_2_arrays(A1&& aArray1, A2&& aArray2,
-                                           std::index_sequence<i1...>,
-                                           std::index_sequence<i2...>) noexcept
+static constexpr auto concatenate_2_arrays(
+    A1&& aArray1, A2&& aArray2, std::index_sequence<i1...>,
+    std::index_sequence<i2...>) noexcept(is_nothrow_concatenable<A1, A2>)
     -> std::array<std_array_data_t<A1>, std_array_sizes_sum<A1, A2>>
 {
     return {std::get<i1>(std::forward<A1>(aArray1))...,
@@ -161,8 +167,9 @@ constexpr decltype(auto) concatenate_arrays(T&& aArray) noexcept
 }
 
 template <typename A1, typename A2, typename... RestArrays>
-constexpr auto concatenate_arrays(A1&& aArray1, A2&& aArray2,
-                                  RestArrays&&... aArrays) noexcept
+constexpr auto
+concatenate_arrays(A1&& aArray1, A2&& aArray2, RestArrays&&... aArrays) noexcept(
+    is_nothrow_concatenable<A1, A2, RestArrays...>)
     -> std::array<std_array_data_t<A1>,
                   std_array_sizes_sum<A1, A2, RestArrays...>>
 {
@@ -182,7 +189,8 @@ constexpr decltype(auto) make_element_for_index(T&& aValue) noexcept
 
 template <typename T, std::size_t... I>
 constexpr std::array<T, sizeof...(I)> make_array_with_value_impl(
-    [[maybe_unused]] T aValue, std::index_sequence<I...>) noexcept
+    [[maybe_unused]] T aValue,
+    std::index_sequence<I...>) noexcept(std::is_nothrow_copy_constructible_v<T>)
 {
     return {make_element_for_index<const T&, I>(aValue)...};
 }
@@ -215,8 +223,9 @@ constexpr auto make_num_bits_table() noexcept
 }  // namespace details
 
 template <typename Array, typename... RestArrays>
-constexpr auto concatenate_arrays(Array&& aArray,
-                                  RestArrays&&... aArrays) noexcept
+constexpr auto
+concatenate_arrays(Array&& aArray, RestArrays&&... aArrays) noexcept(
+    details::is_nothrow_concatenable<Array, RestArrays...>)
     -> std::array<std_array_data_t<Array>,
                   std_array_sizes_sum<Array, RestArrays...>>
 {
@@ -246,9 +255,16 @@ constexpr auto make_array(T aValue = {})
 
 namespace details
 {
+template <typename ValueType, typename CharT>
+inline constexpr bool is_nothrow_from_char =
+    noexcept(static_cast<ValueType>(std::declval<const CharT&>())) &&
+    std::is_nothrow_move_constructible_v<ValueType>;
+
 template <typename ValueType, typename CharT, typename Traits, std::size_t... I>
-constexpr auto make_array_from_sv(std::basic_string_view<CharT, Traits> aSV,
-                                  std::index_sequence<I...>) noexcept
+constexpr auto make_array_from_sv(
+    std::basic_string_view<CharT, Traits> aSV,
+    std::index_sequence<
+        I...>) noexcept(is_nothrow_from_char<ValueType, CharT>)
 {
     if constexpr (sizeof...(I))
     {
@@ -262,7 +278,8 @@ constexpr auto make_array_from_sv(std::basic_string_view<CharT, Traits> aSV,
 }  // namespace details
 
 template <std::size_t N, typename ValueType, typename CharT, typename Traits>
-constexpr auto make_array(std::basic_string_view<CharT, Traits> aSV) noexcept
+constexpr auto make_array(std::basic_string_view<CharT, Traits> aSV) noexcept(
+    details::is_nothrow_from_char<ValueType, CharT>)
 {
     assert(N <= aSV.size());
     return details::make_array_from_sv<ValueType>(
-- 
2.43.0

