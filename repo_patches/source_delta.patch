From 6bb62788833b45ce08ca9981a9765377b7a25796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:33 +0000
Subject: [PATCH 01/10] fix: do not run the alignment prologue past the end of
 short ranges

With prefer_aligned(), a range that ends before the first aligned address made
the prologue access (and for_each/transform modify) elements behind the end of
the range, and the remaining count underflow. Skip the prologue in that case;
the epilogue then starts at an unaligned address.
---
 vir/simd_execution.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/vir/simd_execution.h b/vir/simd_execution.h
index 383307b..706906f 100644
--- a/vir/simd_execution.h
+++ b/vir/simd_execution.h
@@ -595,6 +595,10 @@ case0:
                 return;
               const auto misaligned_by_elements = misaligned_by_bytes / sizeof(T);
               const auto to_process = max_misalignment - misaligned_by_elements;
+              if (to_process > remaining)
+                // No aligned address inside the range. remaining < size, i.e. only the epilogue
+                // (which must not assume alignment) will execute.
+                return;
               if constexpr (use_aligned_loadstore)
                 do_prologue(max_misalignment, to_process);
               else if (remaining * sizeof(T) > 4000
@@ -797,7 +801,8 @@ case0:
                 if (leftover)
                   {
                     simd_transform_epilogue<V1, OutV, std::iter_value_t<It2>...>(
-                      op, leftover, last1, d_first, flags, std::to_address(first2)...);
+                      op, leftover, last1, d_first, stdx::element_aligned,
+                      std::to_address(first2)...);
                     d_first += leftover;
                   }
               }
@@ -1080,7 +1085,8 @@ case0:
               {
                 // leftover > 0 by construction
                 return simd_transform_reduce_epilogue<lo_size>(
-                         acc1, first1, leftover, reduce_op, transform_op, flags, first2...);
+                         acc1, first1, leftover, reduce_op, transform_op, stdx::element_aligned,
+                         first2...);
               }
             else
               unreachable();
@@ -1167,7 +1173,8 @@ case0:
 
           if constexpr (not assume_matching_size and size > 1)
             if (leftover)
-              detail::simd_for_each_epilogue<V, write_back>(fun, leftover, last, flags);
+              detail::simd_for_each_epilogue<V, write_back>(fun, leftover, last,
+                                                            stdx::element_aligned);
         }
     }
 
-- 
2.43.0


From de63f686aa6ccccca1cec3e48bcc4f05b7f4fd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:34 +0000
Subject: [PATCH 02/10] fix: transform_reduce when the prologue consumes the
 whole range

If the range ends exactly at the first aligned address the epilogue was called
with zero leftover elements and ran into unreachable().
---
 vir/simd_execution.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vir/simd_execution.h b/vir/simd_execution.h
index 706906f..5c69eef 100644
--- a/vir/simd_execution.h
+++ b/vir/simd_execution.h
@@ -991,6 +991,9 @@ case0:
                          acc1, first1, to_process, reduce_op, transform_op, first2...);
               }, first1, first2...);
 
+            if (distance == 0) // everything was processed in the prologue
+              return acc1[0];
+
             const auto leftover = distance % size;
 
             constexpr int lo_size = std::bit_ceil(unsigned(size)) / 2;
-- 
2.43.0


From b6a651f7947a2555b0d7c110e53c167a6a469296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:34 +0000
Subject: [PATCH 03/10] fix: constant-evaluated for_each visits the last
 element only once

With a SIMD width of 2 and an even number of elements the epilogue was called
with zero leftover elements and processed the last element again.
---
 vir/simd_execution.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vir/simd_execution.h b/vir/simd_execution.h
index 5c69eef..6b6583f 100644
--- a/vir/simd_execution.h
+++ b/vir/simd_execution.h
@@ -1144,8 +1144,9 @@ case0:
                                                         stdx::element_aligned, detail::no_unroll);
 
           if constexpr (size > 1)
-            detail::simd_for_each_epilogue<V, write_back>(fun, distance % size, last,
-                                                          stdx::element_aligned);
+            if (distance % size)
+              detail::simd_for_each_epilogue<V, write_back>(fun, distance % size, last,
+                                                            stdx::element_aligned);
         }
       else
         {
-- 
2.43.0


From 1f13c47ab1df906fd4e73f53ccccb504669acd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:21 +0000
Subject: [PATCH 04/10] fix: load three-float structs with 8 lanes in order

The unordered load is inconsistent with operator[], with copy_to (for_each
shuffled the elements of the range) and with the order of all other ranges
(transform stored results in the wrong place).
---
 vir/simdize.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vir/simdize.h b/vir/simdize.h
index a3b7ecd..06576c1 100644
--- a/vir/simdize.h
+++ b/vir/simdize.h
@@ -667,7 +667,7 @@ namespace vir
 		      // c = [b5 c5 a6 b6 c6 a7 b7 c7] 233 = 121+112
 
 		      using v8sf [[gnu::vector_size(32)]] = float;
-		      if constexpr (true) // allow_unordered
+		      if constexpr (false) // allow_unordered (requires a matching store)
 			{
 			  v8sf x0, x1, x2, a0, b0, c0;
 			  std::memcpy(&x0, byte_ptr +  0, 32);
-- 
2.43.0


From d507ac804d299c8bf6ddfaf087a3dbf98ca2df2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:27 +0000
Subject: [PATCH 05/10] fix: precondition failures trap by default as
 documented

The default of VIR_CHECK_PRECONDITIONS was defined after its first use in invoke_ub, so that
without an explicit -DVIR_CHECK_PRECONDITIONS a run-time failure invoked undefined behaviour
instead of trapping.
---
 vir/simd.h | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/vir/simd.h b/vir/simd.h
index 5f2d6a8..26817fe 100644
--- a/vir/simd.h
+++ b/vir/simd.h
@@ -37,6 +37,23 @@
 #endif
 #endif
 
+/* VIR_CHECK_PRECONDITIONS:
+ * 0: Compile-time warning, invoke UB on run-time failure.
+ * 1: Compile-time   error, invoke UB on run-time failure.
+ * 2: Compile-time warning, trap on run-time failure.
+ * 3: Compile-time   error, trap on run-time failure.
+ * 4: Compile-time warning, print error and abort on run-time failure.
+ * 5: Compile-time   error, print error and abort on run-time failure.
+ */
+
+#ifndef VIR_CHECK_PRECONDITIONS
+#define VIR_CHECK_PRECONDITIONS 3
+#endif
+
+#if VIR_CHECK_PRECONDITIONS > 5 or VIR_CHECK_PRECONDITIONS < 0
+#warning "Invalid value for VIR_CHECK_PRECONDITIONS."
+#endif
+
 namespace vir::detail
 {
   [[noreturn]] VIR_GNU_COLD VIR_ALWAYS_INLINE void
@@ -83,23 +100,6 @@ namespace vir::detail
 #define VIR_SIMD_TOSTRING(x) VIR_SIMD_TOSTRING_IMPL(x)
 #define VIR_SIMD_LOC __FILE__ ":" VIR_SIMD_TOSTRING(__LINE__) ": "
 
-/* VIR_CHECK_PRECONDITIONS:
- * 0: Compile-time warning, invoke UB on run-time failure.
- * 1: Compile-time   error, invoke UB on run-time failure.
- * 2: Compile-time warning, trap on run-time failure.
- * 3: Compile-time   error, trap on run-time failure.
- * 4: Compile-time warning, print error and abort on run-time failure.
- * 5: Compile-time   error, print error and abort on run-time failure.
- */
-
-#ifndef VIR_CHECK_PRECONDITIONS
-#define VIR_CHECK_PRECONDITIONS 3
-#endif
-
-#if VIR_CHECK_PRECONDITIONS > 5 or VIR_CHECK_PRECONDITIONS < 0
-#warning "Invalid value for VIR_CHECK_PRECONDITIONS."
-#endif
-
 #ifdef __GNUC__
 #define VIR_PRETTY_FUNCTION_ __PRETTY_FUNCTION__
 #else
-- 
2.43.0


From 6b2fcd446085d2fb4728b7fef2b12c8e9b12d3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:33 +0000
Subject: [PATCH 06/10] fix: load and store std::tuple elements by index, not
 by memory order

---
 vir/simdize.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/vir/simdize.h b/vir/simdize.h
index 06576c1..3ae28fb 100644
--- a/vir/simdize.h
+++ b/vir/simdize.h
@@ -97,6 +97,16 @@ namespace vir
       }
 #endif
 
+    /** \internal
+     * True if the members of \p T are known to be stored in the order of their index. std::tuple
+     * does not guarantee this (e.g. libstdc++ stores the elements in reverse order).
+     */
+    template <typename T>
+      inline constexpr bool members_in_index_order = std::is_aggregate_v<T>;
+
+    template <typename T1, typename T2>
+      inline constexpr bool members_in_index_order<std::pair<T1, T2>> = true;
+
     template <typename T, int N>
       struct simdize_impl
       { using type = T; };
@@ -583,7 +593,8 @@ namespace vir
 #if VIR_HAVE_WORKING_SHUFFLEVECTOR
 	if (not std::is_constant_evaluated())
 	  if constexpr (N > 1 and sizeof(T) * N == sizeof(base_type) and _flat_member_count >= 2
-			  and std::has_single_bit(unsigned(N)))
+			  and std::has_single_bit(unsigned(N))
+			  and detail::members_in_index_order<T>)
 	    {
 	      const std::byte* byte_ptr = reinterpret_cast<const std::byte*>(addr);
 	      // struct_size_v == 2 doesn't need anything, the fallback works fine, unless
@@ -819,7 +830,8 @@ namespace vir
 	  if (not std::is_constant_evaluated())
 	    if constexpr (N > 2 and _flat_member_count >= 2
 			    and sizeof(T) * N == sizeof(base_type)
-			    and std::has_single_bit(unsigned(N)))
+			    and std::has_single_bit(unsigned(N))
+			    and detail::members_in_index_order<T>)
 	      {
 		using V0 = detail::flat_element_t<0, tuple_type>;
 		//using V1 = detail::flat_element_t<1, tuple_type>;
-- 
2.43.0


From 22a92716ffa0a714067d0423c5b754b4fb4b1b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:01 +0000
Subject: [PATCH 07/10] fix: include <cstdio> for printing precondition
 failures

---
 vir/simd.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vir/simd.h b/vir/simd.h
index 26817fe..e9b375f 100644
--- a/vir/simd.h
+++ b/vir/simd.h
@@ -18,6 +18,7 @@
 
 #include "simd_version.h"
 
+#include <cstdio> // std::fprintf
 #include <cstdlib> // std::abort
 
 #if __has_include (<experimental/simd>) && !defined VIR_DISABLE_STDX_SIMD \
-- 
2.43.0


From 9906db4e312544f0e7f396c220e8311e7e04b942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:01 +0000
Subject: [PATCH 08/10] fix: masked load constructor of the scalar simd_mask

---
 vir/simd.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vir/simd.h b/vir/simd.h
index e9b375f..dc91692 100644
--- a/vir/simd.h
+++ b/vir/simd.h
@@ -666,7 +666,7 @@ namespace vir::stdx
       template <typename Flags>
         constexpr
         simd_mask(const value_type* mem, simd_mask k, Flags)
-        : data(k ? mem[0] : false)
+        : data(k.data ? mem[0] : false)
         {}
 
       // loads [simd_mask.load]
-- 
2.43.0


From 6c7bce26b66420dae9edddcae013c37210973081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:19 +0000
Subject: [PATCH 09/10] fix: fake_modify/fake_read of the fallback simd changed
 values or did not compile

---
 vir/simd_benchmarking.h | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/vir/simd_benchmarking.h b/vir/simd_benchmarking.h
index 2f66795..9035de0 100644
--- a/vir/simd_benchmarking.h
+++ b/vir/simd_benchmarking.h
@@ -38,11 +38,8 @@ namespace vir
 	  else
 	    fake_modify_one(d);
 #else
-	  // assuming vir::stdx::simd implementation
-	  if constexpr (sizeof(x) < 16)
-	    asm volatile("" : "+g"(x));
-	  else
-	    asm volatile("" : "+" VIR_SIMD_REG "g,m"(x));
+	  // assuming vir::stdx::simd implementation: a class type, which must stay in memory
+	  asm volatile("" : "+m"(x));
 #endif
 	}
       else if constexpr (sizeof(x) >= 16)
@@ -75,11 +72,8 @@ namespace vir
 	  else
 	    fake_read_one(d);
 #else
-	  // assuming vir::stdx::simd implementation
-	  if constexpr (sizeof(x) < 16)
-	    asm volatile("" ::"g"(x));
-	  else
-	    asm volatile("" ::VIR_SIMD_REG "g,m"(x));
+	  // assuming vir::stdx::simd implementation: a class type, which must stay in memory
+	  asm volatile("" ::"m"(x));
 #endif
 	}
       else if constexpr (sizeof(x) >= 16)
-- 
2.43.0


From 1ddba8122dce751ab65836b501164a8207c6c678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:21 +0000
Subject: [PATCH 10/10] fix: do not use the precondition expression as part of
 the printf format string

'distance % size == 0' contains the conversion specification '% s', for which no argument is passed.
---
 vir/simd.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/vir/simd.h b/vir/simd.h
index dc91692..caf297b 100644
--- a/vir/simd.h
+++ b/vir/simd.h
@@ -135,8 +135,8 @@ namespace vir::detail
         { vir::detail::trap(); }();                                                         \
     else if (__builtin_expect(not precondition_result, false))                              \
       vir::detail::invoke_ub(                                                               \
-        VIR_SIMD_LOC "precondition failure in '%s': " msg " ('" #expr "' does not hold)\n", \
-        VIR_PRETTY_FUNCTION_);                                                              \
+        VIR_SIMD_LOC "precondition failure in '%s': " msg " ('%s' does not hold)\n",        \
+        VIR_PRETTY_FUNCTION_, #expr);                                                       \
   } while(false)
 
 #define vir_simd_precondition_vaargs(expr, msg, ...)                                        \
@@ -149,8 +149,8 @@ namespace vir::detail
         { vir::detail::trap(); }();                                                         \
     else if (__builtin_expect(not precondition_result, false))                              \
       vir::detail::invoke_ub(                                                               \
-        VIR_SIMD_LOC "precondition failure in '%s': " msg " ('" #expr "' does not hold)\n", \
-        VIR_PRETTY_FUNCTION_, __VA_ARGS__);                                                 \
+        VIR_SIMD_LOC "precondition failure in '%s': " msg " ('%s' does not hold)\n",        \
+        VIR_PRETTY_FUNCTION_, __VA_ARGS__, #expr);                                          \
   } while(false)
 
 #else
@@ -159,8 +159,8 @@ namespace vir::detail
     const bool precondition_result = bool(expr);                                            \
     if (not precondition_result) [[unlikely]]                                               \
       vir::detail::invoke_ub(                                                               \
-        VIR_SIMD_LOC "precondition failure in '%s': " msg " ('" #expr "' does not hold)\n", \
-        VIR_PRETTY_FUNCTION_);                                                              \
+        VIR_SIMD_LOC "precondition failure in '%s': " msg " ('%s' does not hold)\n",        \
+        VIR_PRETTY_FUNCTION_, #expr);                                                       \
   } while(false)
 
 #define vir_simd_precondition_vaargs(expr, msg, ...)                                        \
@@ -168,8 +168,8 @@ namespace vir::detail
     const bool precondition_result = bool(expr);                                            \
     if (not precondition_result) [[unlikely]]                                               \
       vir::detail::invoke_ub(                                                               \
-        VIR_SIMD_LOC "precondition failure in '%s': " msg " ('" #expr "' does not hold)\n", \
-        VIR_PRETTY_FUNCTION_, __VA_ARGS__);                                                 \
+        VIR_SIMD_LOC "precondition failure in '%s': " msg " ('%s' does not hold)\n",        \
+        VIR_PRETTY_FUNCTION_, __VA_ARGS__, #expr);                                          \
   } while(false)
 
 #endif
-- 
2.43.0

