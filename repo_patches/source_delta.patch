From 0f6c21e0b55b5d6278cbf88cac2a09c9637b7994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:56 +0000
Subject: [PATCH 01/24] fix: make batched group actions correct when applied in
 place

The loops read the input through a reference (and a restrict pointer) after
the output had been partially written, so the documented in == out usage
corrupted its own input when the compiler did not happen to keep the loads
in registers.
---
 public/klein/detail/x86/x86_sandwich.hpp      | 26 +++++-----
 .../klein/detail/x86/x86_sandwich_cxx11.inl   | 50 +++++++++----------
 2 files changed, 38 insertions(+), 38 deletions(-)

diff --git a/public/klein/detail/x86/x86_sandwich.hpp b/public/klein/detail/x86/x86_sandwich.hpp
index 0475525..11c963a 100644
--- a/public/klein/detail/x86/x86_sandwich.hpp
+++ b/public/klein/detail/x86/x86_sandwich.hpp
@@ -252,7 +252,7 @@ namespace detail
     //
     // Note: in and out are permitted to alias iff a == out.
     template <bool Variadic, bool Translate, bool InputP2>
-    KLN_INLINE void KLN_VEC_CALL swMM(__m128 const* KLN_RESTRICT in,
+    KLN_INLINE void KLN_VEC_CALL swMM(__m128 const* in,
                                       __m128 const& KLN_RESTRICT b,
                                       [[maybe_unused]] __m128 const* KLN_RESTRICT c,
                                       __m128* out,
@@ -364,9 +364,9 @@ namespace detail
         constexpr size_t stride = InputP2 ? 2 : 1;
         for (size_t i = 0; i != limit; ++i)
         {
-            __m128 const& p1_in = in[stride * i]; // a
-            __m128 p1_in_xzwy   = KLN_SWIZZLE(p1_in, 1, 3, 2, 0);
-            __m128 p1_in_xwyz   = KLN_SWIZZLE(p1_in, 2, 1, 3, 0);
+            __m128 p1_in      = in[stride * i]; // a
+            __m128 p1_in_xzwy = KLN_SWIZZLE(p1_in, 1, 3, 2, 0);
+            __m128 p1_in_xwyz = KLN_SWIZZLE(p1_in, 2, 1, 3, 0);
 
             __m128& p1_out = out[stride * i];
 
@@ -376,9 +376,9 @@ namespace detail
 
             if constexpr (InputP2)
             {
-                __m128 const& p2_in = in[2 * i + 1]; // d
-                __m128& p2_out      = out[2 * i + 1];
-                p2_out              = _mm_mul_ps(tmp, p2_in);
+                __m128 p2_in   = in[2 * i + 1]; // d
+                __m128& p2_out = out[2 * i + 1];
+                p2_out         = _mm_mul_ps(tmp, p2_in);
                 p2_out              = _mm_add_ps(
                     p2_out, _mm_mul_ps(tmp2, KLN_SWIZZLE(p2_in, 1, 3, 2, 0)));
                 p2_out = _mm_add_ps(
@@ -405,7 +405,7 @@ namespace detail
     // If Variadic is true, a and out must point to a contiguous block of memory
     // equivalent to __m128[count]
     template <bool Variadic = false, bool Translate = true>
-    KLN_INLINE void KLN_VEC_CALL sw012(__m128 const* KLN_RESTRICT a,
+    KLN_INLINE void KLN_VEC_CALL sw012(__m128 const* a,
                                        __m128 b,
                                        [[maybe_unused]] __m128 const* KLN_RESTRICT c,
                                        __m128* out,
@@ -497,8 +497,7 @@ namespace detail
         for (size_t i = 0; i != limit; ++i)
         {
             // Compute the lower block for components e1, e2, and e3
-            __m128& p = out[i];
-            p         = _mm_mul_ps(tmp1, KLN_SWIZZLE(a[i], 1, 3, 2, 0));
+            __m128 p = _mm_mul_ps(tmp1, KLN_SWIZZLE(a[i], 1, 3, 2, 0));
             p = _mm_add_ps(p, _mm_mul_ps(tmp2, KLN_SWIZZLE(a[i], 2, 1, 3, 0)));
             p = _mm_add_ps(p, _mm_mul_ps(tmp3, a[i]));
 
@@ -507,12 +506,13 @@ namespace detail
                 __m128 tmp5 = hi_dp(tmp4, a[i]);
                 p           = _mm_add_ps(p, tmp5);
             }
+            out[i] = p;
         }
     }
 
     // Apply a motor to a point
     template <bool Variadic, bool Translate>
-    KLN_INLINE void KLN_VEC_CALL sw312(__m128 const* KLN_RESTRICT a,
+    KLN_INLINE void KLN_VEC_CALL sw312(__m128 const* a,
                                        __m128 b,
                                        [[maybe_unused]] __m128 const* KLN_RESTRICT c,
                                        __m128* out,
@@ -584,8 +584,7 @@ namespace detail
         size_t limit = Variadic ? count : 1;
         for (size_t i = 0; i != limit; ++i)
         {
-            __m128& p = out[i];
-            p         = _mm_mul_ps(tmp1, KLN_SWIZZLE(a[i], 2, 1, 3, 0));
+            __m128 p = _mm_mul_ps(tmp1, KLN_SWIZZLE(a[i], 2, 1, 3, 0));
             p = _mm_add_ps(p, _mm_mul_ps(tmp2, KLN_SWIZZLE(a[i], 1, 3, 2, 0)));
             p = _mm_add_ps(p, _mm_mul_ps(tmp3, a[i]));
 
@@ -594,6 +593,7 @@ namespace detail
                 p = _mm_add_ps(
                     p, _mm_mul_ps(tmp4, KLN_SWIZZLE(a[i], 0, 0, 0, 0)));
             }
+            out[i] = p;
         }
     }
 #else
diff --git a/public/klein/detail/x86/x86_sandwich_cxx11.inl b/public/klein/detail/x86/x86_sandwich_cxx11.inl
index 48231e9..2cf639a 100644
--- a/public/klein/detail/x86/x86_sandwich_cxx11.inl
+++ b/public/klein/detail/x86/x86_sandwich_cxx11.inl
@@ -1,14 +1,14 @@
 // Implementation file for C++11 compatibility
 
 template <bool Variadic, bool Translate, bool InputP2>
-KLN_INLINE void KLN_VEC_CALL swMM(__m128 const* KLN_RESTRICT in,
+KLN_INLINE void KLN_VEC_CALL swMM(__m128 const* in,
                                   __m128 const& KLN_RESTRICT b,
                                   __m128 const* KLN_RESTRICT c,
                                   __m128* out,
                                   size_t count = 0) noexcept;
 
 template <>
-KLN_INLINE void KLN_VEC_CALL swMM<true, true, true>(__m128 const* KLN_RESTRICT in,
+KLN_INLINE void KLN_VEC_CALL swMM<true, true, true>(__m128 const* in,
                                                     __m128 const& KLN_RESTRICT b,
                                                     __m128 const* KLN_RESTRICT c,
                                                     __m128* out,
@@ -65,7 +65,7 @@ KLN_INLINE void KLN_VEC_CALL swMM<true, true, true>(__m128 const* KLN_RESTRICT i
 
     for (size_t i = 0; i != count; ++i)
     {
-        __m128 const& p1_in = in[2 * i]; // a
+        __m128 p1_in        = in[2 * i]; // a
         __m128 p1_in_xzwy   = KLN_SWIZZLE(p1_in, 1, 3, 2, 0);
         __m128 p1_in_xwyz   = KLN_SWIZZLE(p1_in, 2, 1, 3, 0);
 
@@ -75,7 +75,7 @@ KLN_INLINE void KLN_VEC_CALL swMM<true, true, true>(__m128 const* KLN_RESTRICT i
         p1_out = _mm_add_ps(p1_out, _mm_mul_ps(tmp2, p1_in_xzwy));
         p1_out = _mm_add_ps(p1_out, _mm_mul_ps(tmp3, p1_in_xwyz));
 
-        __m128 const& p2_in = in[2 * i + 1]; // d
+        __m128 p2_in        = in[2 * i + 1]; // d
         __m128& p2_out      = out[2 * i + 1];
         p2_out              = _mm_mul_ps(tmp, p2_in);
         p2_out              = _mm_add_ps(
@@ -90,7 +90,7 @@ KLN_INLINE void KLN_VEC_CALL swMM<true, true, true>(__m128 const* KLN_RESTRICT i
 }
 
 template <>
-KLN_INLINE void KLN_VEC_CALL swMM<true, true, false>(__m128 const* KLN_RESTRICT in,
+KLN_INLINE void KLN_VEC_CALL swMM<true, true, false>(__m128 const* in,
                                                      __m128 const& KLN_RESTRICT b,
                                                      __m128 const* KLN_RESTRICT c,
                                                      __m128* out,
@@ -147,7 +147,7 @@ KLN_INLINE void KLN_VEC_CALL swMM<true, true, false>(__m128 const* KLN_RESTRICT
 
     for (size_t i = 0; i != count; ++i)
     {
-        __m128 const& p1_in = in[i]; // a
+        __m128 p1_in        = in[i]; // a
         __m128 p1_in_xzwy   = KLN_SWIZZLE(p1_in, 1, 3, 2, 0);
         __m128 p1_in_xwyz   = KLN_SWIZZLE(p1_in, 2, 1, 3, 0);
 
@@ -165,7 +165,7 @@ KLN_INLINE void KLN_VEC_CALL swMM<true, true, false>(__m128 const* KLN_RESTRICT
 }
 
 template <>
-KLN_INLINE void KLN_VEC_CALL swMM<true, false, true>(__m128 const* KLN_RESTRICT in,
+KLN_INLINE void KLN_VEC_CALL swMM<true, false, true>(__m128 const* in,
                                                      __m128 const& KLN_RESTRICT b,
                                                      __m128 const* KLN_RESTRICT c,
                                                      __m128* out,
@@ -196,7 +196,7 @@ KLN_INLINE void KLN_VEC_CALL swMM<true, false, true>(__m128 const* KLN_RESTRICT
 
     for (size_t i = 0; i != count; ++i)
     {
-        __m128 const& p1_in = in[2 * i]; // a
+        __m128 p1_in        = in[2 * i]; // a
         __m128 p1_in_xzwy   = KLN_SWIZZLE(p1_in, 1, 3, 2, 0);
         __m128 p1_in_xwyz   = KLN_SWIZZLE(p1_in, 2, 1, 3, 0);
 
@@ -206,7 +206,7 @@ KLN_INLINE void KLN_VEC_CALL swMM<true, false, true>(__m128 const* KLN_RESTRICT
         p1_out = _mm_add_ps(p1_out, _mm_mul_ps(tmp2, p1_in_xzwy));
         p1_out = _mm_add_ps(p1_out, _mm_mul_ps(tmp3, p1_in_xwyz));
 
-        __m128 const& p2_in = in[2 * i + 1]; // d
+        __m128 p2_in        = in[2 * i + 1]; // d
         __m128& p2_out      = out[2 * i + 1];
         p2_out              = _mm_mul_ps(tmp, p2_in);
         p2_out              = _mm_add_ps(
@@ -218,7 +218,7 @@ KLN_INLINE void KLN_VEC_CALL swMM<true, false, true>(__m128 const* KLN_RESTRICT
 
 template <>
 KLN_INLINE void KLN_VEC_CALL
-swMM<true, false, false>(__m128 const* KLN_RESTRICT in,
+swMM<true, false, false>(__m128 const* in,
                          __m128 const& KLN_RESTRICT b,
                          __m128 const* KLN_RESTRICT c,
                          __m128* out,
@@ -249,7 +249,7 @@ swMM<true, false, false>(__m128 const* KLN_RESTRICT in,
 
     for (size_t i = 0; i != count; ++i)
     {
-        __m128 const& p1_in = in[i]; // a
+        __m128 p1_in        = in[i]; // a
         __m128 p1_in_xzwy   = KLN_SWIZZLE(p1_in, 1, 3, 2, 0);
         __m128 p1_in_xwyz   = KLN_SWIZZLE(p1_in, 2, 1, 3, 0);
 
@@ -502,14 +502,14 @@ swMM<false, false, false>(__m128 const* KLN_RESTRICT in,
 }
 
 template <bool Variadic, bool Translate>
-KLN_INLINE void KLN_VEC_CALL sw012(__m128 const* KLN_RESTRICT a,
+KLN_INLINE void KLN_VEC_CALL sw012(__m128 const* a,
                                    __m128 b,
                                    __m128 const* KLN_RESTRICT c,
                                    __m128* out,
                                    size_t count = 0) noexcept;
 
 template <>
-KLN_INLINE void KLN_VEC_CALL sw012<true, true>(__m128 const* KLN_RESTRICT a,
+KLN_INLINE void KLN_VEC_CALL sw012<true, true>(__m128 const* a,
                                                __m128 b,
                                                __m128 const* KLN_RESTRICT c,
                                                __m128* out,
@@ -548,18 +548,18 @@ KLN_INLINE void KLN_VEC_CALL sw012<true, true>(__m128 const* KLN_RESTRICT a,
     for (size_t i = 0; i != count; ++i)
     {
         // Compute the lower block for components e1, e2, and e3
-        __m128& p = out[i];
-        p         = _mm_mul_ps(tmp1, KLN_SWIZZLE(a[i], 1, 3, 2, 0));
+        __m128 p = _mm_mul_ps(tmp1, KLN_SWIZZLE(a[i], 1, 3, 2, 0));
         p = _mm_add_ps(p, _mm_mul_ps(tmp2, KLN_SWIZZLE(a[i], 2, 1, 3, 0)));
         p = _mm_add_ps(p, _mm_mul_ps(tmp3, a[i]));
 
         __m128 tmp5 = hi_dp(tmp4, a[i]);
         p           = _mm_add_ps(p, tmp5);
+        out[i] = p;
     }
 }
 
 template <>
-KLN_INLINE void KLN_VEC_CALL sw012<true, false>(__m128 const* KLN_RESTRICT a,
+KLN_INLINE void KLN_VEC_CALL sw012<true, false>(__m128 const* a,
                                                 __m128 b,
                                                 __m128 const* KLN_RESTRICT c,
                                                 __m128* out,
@@ -592,10 +592,10 @@ KLN_INLINE void KLN_VEC_CALL sw012<true, false>(__m128 const* KLN_RESTRICT a,
     for (size_t i = 0; i != count; ++i)
     {
         // Compute the lower block for components e1, e2, and e3
-        __m128& p = out[i];
-        p         = _mm_mul_ps(tmp1, KLN_SWIZZLE(a[i], 1, 3, 2, 0));
+        __m128 p = _mm_mul_ps(tmp1, KLN_SWIZZLE(a[i], 1, 3, 2, 0));
         p = _mm_add_ps(p, _mm_mul_ps(tmp2, KLN_SWIZZLE(a[i], 2, 1, 3, 0)));
         p = _mm_add_ps(p, _mm_mul_ps(tmp3, a[i]));
+        out[i] = p;
     }
 }
 
@@ -685,14 +685,14 @@ KLN_INLINE void KLN_VEC_CALL sw012<false, false>(__m128 const* KLN_RESTRICT a,
 }
 
 template <bool Variadic, bool Translate>
-KLN_INLINE void KLN_VEC_CALL sw312(__m128 const* KLN_RESTRICT a,
+KLN_INLINE void KLN_VEC_CALL sw312(__m128 const* a,
                                    __m128 b,
                                    __m128 const* KLN_RESTRICT c,
                                    __m128* out,
                                    size_t count = 0) noexcept;
 
 template <>
-KLN_INLINE void KLN_VEC_CALL sw312<true, true>(__m128 const* KLN_RESTRICT a,
+KLN_INLINE void KLN_VEC_CALL sw312<true, true>(__m128 const* a,
                                                __m128 b,
                                                __m128 const* KLN_RESTRICT c,
                                                __m128* out,
@@ -728,17 +728,17 @@ KLN_INLINE void KLN_VEC_CALL sw312<true, true>(__m128 const* KLN_RESTRICT a,
 
     for (size_t i = 0; i != count; ++i)
     {
-        __m128& p = out[i];
-        p         = _mm_mul_ps(tmp1, KLN_SWIZZLE(a[i], 2, 1, 3, 0));
+        __m128 p = _mm_mul_ps(tmp1, KLN_SWIZZLE(a[i], 2, 1, 3, 0));
         p = _mm_add_ps(p, _mm_mul_ps(tmp2, KLN_SWIZZLE(a[i], 1, 3, 2, 0)));
         p = _mm_add_ps(p, _mm_mul_ps(tmp3, a[i]));
 
         p = _mm_add_ps(p, _mm_mul_ps(tmp4, KLN_SWIZZLE(a[i], 0, 0, 0, 0)));
+        out[i] = p;
     }
 }
 
 template <>
-KLN_INLINE void KLN_VEC_CALL sw312<true, false>(__m128 const* KLN_RESTRICT a,
+KLN_INLINE void KLN_VEC_CALL sw312<true, false>(__m128 const* a,
                                                 __m128 b,
                                                 __m128 const* KLN_RESTRICT c,
                                                 __m128* out,
@@ -768,10 +768,10 @@ KLN_INLINE void KLN_VEC_CALL sw312<true, false>(__m128 const* KLN_RESTRICT a,
 
     for (size_t i = 0; i != count; ++i)
     {
-        __m128& p = out[i];
-        p         = _mm_mul_ps(tmp1, KLN_SWIZZLE(a[i], 2, 1, 3, 0));
+        __m128 p = _mm_mul_ps(tmp1, KLN_SWIZZLE(a[i], 2, 1, 3, 0));
         p = _mm_add_ps(p, _mm_mul_ps(tmp2, KLN_SWIZZLE(a[i], 1, 3, 2, 0)));
         p = _mm_add_ps(p, _mm_mul_ps(tmp3, a[i]));
+        out[i] = p;
     }
 }
 
-- 
2.43.0


From 9ec3f7a55a17fba0ef2036c8a168c5b1acc263c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:56 +0000
Subject: [PATCH 02/24] fix: normalizing a plane must not move it

The e0 coefficient was left unscaled (SSE4.1) or scaled by 1 + 1/|n| (SSE3)
while the normal was divided by its length, which displaced the plane.
---
 public/klein/plane.hpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/public/klein/plane.hpp b/public/klein/plane.hpp
index 83271e2..2576875 100644
--- a/public/klein/plane.hpp
+++ b/public/klein/plane.hpp
@@ -65,12 +65,7 @@ public:
     void normalize() noexcept
     {
         __m128 inv_norm = detail::rsqrt_nr1(detail::hi_dp_bc(p0_, p0_));
-#ifdef KLEIN_SSE_4_1
-        inv_norm = _mm_blend_ps(inv_norm, _mm_set_ss(1.f), 1);
-#else
-        inv_norm = _mm_add_ps(inv_norm, _mm_set_ss(1.f));
-#endif
-        p0_ = _mm_mul_ps(inv_norm, p0_);
+        p0_             = _mm_mul_ps(inv_norm, p0_);
     }
 
     /// Return a normalized copy of this plane.
-- 
2.43.0


From d1ccf76100efa6af29f8670770e89d7c8706e2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:56 +0000
Subject: [PATCH 03/24] fix: include the scalar part in the norm used to invert
 a rotor

---
 public/klein/rotor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/public/klein/rotor.hpp b/public/klein/rotor.hpp
index 1ec3559..c8abf84 100644
--- a/public/klein/rotor.hpp
+++ b/public/klein/rotor.hpp
@@ -139,7 +139,7 @@ public:
 
     void invert() noexcept
     {
-        __m128 inv_norm = detail::rsqrt_nr1(detail::hi_dp_bc(p1_, p1_));
+        __m128 inv_norm = detail::rsqrt_nr1(detail::dp_bc(p1_, p1_));
         p1_             = _mm_mul_ps(p1_, inv_norm);
         p1_             = _mm_mul_ps(p1_, inv_norm);
         p1_             = _mm_xor_ps(_mm_set_ps(-0.f, -0.f, -0.f, 0.f), p1_);
-- 
2.43.0


From 2f8f5df43ba426fd5a777a5283a8420105837cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:56 +0000
Subject: [PATCH 04/24] fix: assigning a translator to a motor must set the
 scalar part to one

---
 public/klein/motor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/public/klein/motor.hpp b/public/klein/motor.hpp
index e4a60f4..4d9c4fb 100644
--- a/public/klein/motor.hpp
+++ b/public/klein/motor.hpp
@@ -127,7 +127,7 @@ public:
 
     motor& KLN_VEC_CALL operator=(translator t) noexcept
     {
-        p1_ = _mm_setzero_ps();
+        p1_ = _mm_set_ss(1.f);
         p2_ = t.p2_;
         return *this;
     }
-- 
2.43.0


From 8bcd36e5c7e44e704e3c0b7dd2a53f87e5681c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:56 +0000
Subject: [PATCH 05/24] fix: initialize the translation column of rotor
 matrices

---
 public/klein/detail/x86/x86_matrix.hpp       | 4 ++++
 public/klein/detail/x86/x86_matrix_cxx11.inl | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/public/klein/detail/x86/x86_matrix.hpp b/public/klein/detail/x86/x86_matrix.hpp
index d68fdd5..9c0c4e5 100644
--- a/public/klein/detail/x86/x86_matrix.hpp
+++ b/public/klein/detail/x86/x86_matrix.hpp
@@ -118,6 +118,10 @@ KLN_INLINE void KLN_VEC_CALL mat4x4_12(__m128 b,
         tmp = _mm_mul_ps(KLN_SWIZZLE(b, 0, 1, 3, 2), KLN_SWIZZLE(*c, 0, 2, 1, 3));
         c3 = _mm_mul_ps(_mm_set_ps(0.f, 2.f, 2.f, 2.f), _mm_sub_ps(tmp, c3));
     }
+    else
+    {
+        c3 = _mm_setzero_ps();
+    }
     if constexpr (Normalized)
     {
 #    ifdef KLEIN_SSE_4_1
diff --git a/public/klein/detail/x86/x86_matrix_cxx11.inl b/public/klein/detail/x86/x86_matrix_cxx11.inl
index 0f1e1f8..173e259 100644
--- a/public/klein/detail/x86/x86_matrix_cxx11.inl
+++ b/public/klein/detail/x86/x86_matrix_cxx11.inl
@@ -144,6 +144,7 @@ KLN_INLINE void KLN_VEC_CALL mat4x4_12<false, true>(__m128 b,
     c2 = _mm_add_ps(c2, _mm_set_ps(0.f, b3_2 - b1_2, 0.f, 0.f));
 
     __m128& c3 = out[3];
+    c3         = _mm_setzero_ps();
 #ifdef KLEIN_SSE_4_1
     c3 = _mm_blend_ps(c3, _mm_set_ps(1.f, 0.f, 0.f, 0.f), 0b1000);
 #else
@@ -187,6 +188,7 @@ KLN_INLINE void KLN_VEC_CALL mat4x4_12<false, false>(__m128 b,
     c2 = _mm_add_ps(c2, _mm_set_ps(0.f, b3_2 - b1_2, 0.f, 0.f));
 
     __m128& c3 = out[3];
+    c3         = _mm_setzero_ps();
 #ifdef KLEIN_SSE_4_1
     c3 = _mm_blend_ps(
         c3, _mm_set_ps(b0_2 + b1_2 + b2_2 + b3_2, 0.f, 0.f, 0.f), 0b1000);
-- 
2.43.0


From dda5efaf6965048fb08714f5b8b9174db135bb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:56 +0000
Subject: [PATCH 06/24] fix: detect gimbal lock from the sine of the pitch in
 as_euler_angles

The test expression belonged to another Euler convention, so e.g. a pure
yaw of 90 degrees was reported as a pitch of 90 degrees.
---
 public/klein/rotor.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/public/klein/rotor.hpp b/public/klein/rotor.hpp
index c8abf84..59ebb80 100644
--- a/public/klein/rotor.hpp
+++ b/public/klein/rotor.hpp
@@ -203,7 +203,7 @@ public:
         euler_angles ea;
         float buf[4];
         store(buf);
-        float test = buf[1] * buf[2] + buf[3] * buf[0];
+        float test = buf[0] * buf[2] - buf[1] * buf[3];
 
         if (test > 0.4999f)
         {
@@ -214,7 +214,7 @@ public:
         }
         else if (test < -0.4999f)
         {
-            ea.roll  = -2.f * std::atan2(buf[1], buf[0]);
+            ea.roll  = 2.f * std::atan2(buf[1], buf[0]);
             ea.pitch = -pi_2;
             ea.yaw   = 0.f;
             return ea;
-- 
2.43.0


From 7f13a1f031e67139ad1245dc0ddb07efd55dd151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:22 +0000
Subject: [PATCH 07/24] fix: store() must accept buffers of any alignment

The loads are unaligned and no alignment is documented for the float arrays,
but the stores faulted unless the buffer was 16-byte aligned.
---
 public/klein/line.hpp  | 2 +-
 public/klein/point.hpp | 2 +-
 public/klein/rotor.hpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/public/klein/line.hpp b/public/klein/line.hpp
index 55f24f1..6dc9ee9 100644
--- a/public/klein/line.hpp
+++ b/public/klein/line.hpp
@@ -342,7 +342,7 @@ public:
     /// Store m128 contents into an array of 4 floats
     void store(float* buf) const noexcept
     {
-        _mm_store_ps(buf, p1_);
+        _mm_storeu_ps(buf, p1_);
     }
 
     [[nodiscard]] float e12() const noexcept
diff --git a/public/klein/point.hpp b/public/klein/point.hpp
index 4542a98..5b93630 100644
--- a/public/klein/point.hpp
+++ b/public/klein/point.hpp
@@ -51,7 +51,7 @@ public:
     /// Store m128 contents into an array of 4 floats
     void store(float* data) const noexcept
     {
-        _mm_store_ps(data, p3_);
+        _mm_storeu_ps(data, p3_);
     }
 
     /// Normalize this point (division is done via rcpps with an additional
diff --git a/public/klein/rotor.hpp b/public/klein/rotor.hpp
index 59ebb80..c610d4c 100644
--- a/public/klein/rotor.hpp
+++ b/public/klein/rotor.hpp
@@ -393,7 +393,7 @@ public:
     /// Store m128 contents into an array of 4 floats
     void store(float* buf) const noexcept
     {
-        _mm_store_ps(buf, p1_);
+        _mm_storeu_ps(buf, p1_);
     }
 
     [[nodiscard]] float scalar() const noexcept
-- 
2.43.0


From 1edcda17d7b745fc9a30ae87c8130da2bdc95783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:22 +0000
Subject: [PATCH 08/24] fix: exponential and logarithm of vanishing and small
 rotations

exp of a zero branch and log of an identity (or nearly identity) rotor
produced NaN, and acos lost all precision for small angles.
---
 public/klein/exp_log.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/public/klein/exp_log.hpp b/public/klein/exp_log.hpp
index 44e6a1d..0276bec 100644
--- a/public/klein/exp_log.hpp
+++ b/public/klein/exp_log.hpp
@@ -90,12 +90,14 @@ namespace kln
 {
     float cos_ang;
     _mm_store_ss(&cos_ang, r.p1_);
-    float ang     = std::acos(cos_ang);
-    float sin_ang = std::sin(ang);
+    float sin_ang;
+    _mm_store_ss(&sin_ang, detail::hi_dp(r.p1_, r.p1_));
+    sin_ang = std::sqrt(sin_ang);
+    // ang / sin(ang) tends to 1 as the rotation vanishes
+    float scale = sin_ang > 0.f ? std::atan2(sin_ang, cos_ang) / sin_ang : 1.f;
 
     branch out;
-    out.p1_ = _mm_mul_ps(r.p1_, detail::rcp_nr1(_mm_set1_ps(sin_ang)));
-    out.p1_ = _mm_mul_ps(out.p1_, _mm_set1_ps(ang));
+    out.p1_ = _mm_mul_ps(r.p1_, _mm_set1_ps(scale));
 #ifdef KLEIN_SSE_4_1
     out.p1_ = _mm_blend_ps(out.p1_, _mm_setzero_ps(), 1);
 #else
@@ -109,9 +111,11 @@ namespace kln
 {
     // Compute the rotor angle
     float ang;
-    _mm_store_ss(&ang, detail::sqrt_nr1(detail::hi_dp(b.p1_, b.p1_)));
+    _mm_store_ss(&ang, detail::hi_dp(b.p1_, b.p1_));
+    ang           = std::sqrt(ang);
     float cos_ang = std::cos(ang);
-    float sin_ang = std::sin(ang) / ang;
+    // sin(ang) / ang tends to 1 as the rotation vanishes
+    float sin_ang = ang > 0.f ? std::sin(ang) / ang : 1.f;
 
     rotor out;
     out.p1_ = _mm_mul_ps(_mm_set1_ps(sin_ang), b.p1_);
-- 
2.43.0


From b9c917140e3f5807087e5e1bd76dd9b1258784b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:22 +0000
Subject: [PATCH 09/24] fix: logarithm of motors that rotate by half a turn

For a scalar part near zero the angle was recovered from the translation
terms, which is undefined without translation along the axis and has the
wrong sign when that translation is negative.
---
 public/klein/detail/x86/x86_exp_log.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/public/klein/detail/x86/x86_exp_log.hpp b/public/klein/detail/x86/x86_exp_log.hpp
index 4775933..805341a 100644
--- a/public/klein/detail/x86/x86_exp_log.hpp
+++ b/public/klein/detail/x86/x86_exp_log.hpp
@@ -194,9 +194,8 @@ namespace detail
         // s_scalar = sinu
         // t_scalar = v cosu
 
-        bool p_zero = std::abs(p) < 1e-6;
-        float u = p_zero ? std::atan2(-q, t_scalar) : std::atan2(s_scalar, p);
-        float v = p_zero ? -q / s_scalar : t_scalar / p;
+        float u = std::atan2(s_scalar, p);
+        float v = std::abs(p) < s_scalar ? -q / s_scalar : t_scalar / p;
 
         // Now, (u + v e0123) * n when exponentiated will give us the motor, so
         // (u + v e0123) * n is the logarithm. To proceed, we need to compute
-- 
2.43.0


From c0a4aa7f059a44a0b587d4400a7ef10304ffb6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:28 +0000
Subject: [PATCH 10/24] fix: exponential and logarithm of motors with almost no
 rotation

---
 public/klein/detail/x86/x86_exp_log.hpp | 36 ++++++++++++-------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/public/klein/detail/x86/x86_exp_log.hpp b/public/klein/detail/x86/x86_exp_log.hpp
index 805341a..c6f8a2b 100644
--- a/public/klein/detail/x86/x86_exp_log.hpp
+++ b/public/klein/detail/x86/x86_exp_log.hpp
@@ -35,15 +35,19 @@ namespace detail
         // the differences between the Taylor expansion of exp(ab) and
         // exp(a)exp(b)).
 
-        // Check if the bivector we're exponentiating is ideal
-        int mask = _mm_movemask_ps(_mm_cmpeq_ps(a, _mm_setzero_ps()));
+        // Broadcast dot(a, a) ignoring the scalar component to all components
+        // of a2
+        __m128 a2 = hi_dp_bc(a, a);
+        __m128 ab = hi_dp_bc(a, b);
 
-        if (mask == 0xf)
+        // Check if the bivector we're exponentiating is ideal, or so close to
+        // it that the divisions by powers of its real norm would overflow
+        if (_mm_cvtss_f32(a2) < 1e-20f)
         {
             // When exponentiating an ideal line, the terms past the linear
             // term in the Taylor series expansion vanishes
-            p1_out = _mm_set_ss(1.f);
-            p2_out = b;
+            p1_out = _mm_add_ss(a, _mm_set_ss(1.f));
+            p2_out = _mm_add_ss(b, ab);
             return;
         }
 
@@ -58,11 +62,6 @@ namespace detail
         //
         // (a1^2 + a2^2 + a3^2) - 2(a1 b1 + a2 b2 + a3 b3) e0123
 
-        // Broadcast dot(a, a) ignoring the scalar component to all components
-        // of a2
-        __m128 a2 = hi_dp_bc(a, a);
-        __m128 ab = hi_dp_bc(a, b);
-
         // Next, we need the sqrt of that quantity. Since e0123 squares to 0,
         // this has a closed form solution.
         //
@@ -156,20 +155,19 @@ namespace detail
         __m128 bv_mask = _mm_set_ps(1.f, 1.f, 1.f, 0.f);
         __m128 a       = _mm_mul_ps(bv_mask, p1);
 
-        // Early out if we're taking the log of a motor without any rotation
-        int mask = _mm_movemask_ps(_mm_cmpeq_ps(a, _mm_setzero_ps()));
+        // Next, we need to compute the norm as in the exponential.
+        __m128 a2 = hi_dp_bc(a, a);
+        __m128 b  = _mm_mul_ps(bv_mask, p2);
 
-        if (mask == 0xf)
+        // Early out if we're taking the log of a motor without any rotation (or
+        // so little that the divisions by powers of the norm would overflow)
+        if (_mm_cvtss_f32(a2) < 1e-20f)
         {
-            p1_out = _mm_setzero_ps();
-            p2_out = p2;
+            p1_out = a;
+            p2_out = b;
             return;
         }
 
-        __m128 b = _mm_mul_ps(bv_mask, p2);
-
-        // Next, we need to compute the norm as in the exponential.
-        __m128 a2          = hi_dp_bc(a, a);
         __m128 ab          = hi_dp_bc(a, b);
         __m128 a2_sqrt_rcp = detail::rsqrt_nr1(a2);
         __m128 s           = _mm_mul_ps(a2, a2_sqrt_rcp);
-- 
2.43.0


From 1a89b7e00b8de6fa49bef3488f49a83d554304ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:02 +0000
Subject: [PATCH 11/24] fix: do not overrun the buffer when tokenizing a long
 number

---
 sym/parser.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/sym/parser.cpp b/sym/parser.cpp
index 56b2b64..e8af54f 100644
--- a/sym/parser.cpp
+++ b/sym/parser.cpp
@@ -67,14 +67,15 @@ static float tokenize_number(std::string::const_iterator& it,
 
     for (auto tmp = it; tmp != end; ++tmp)
     {
-        if (buf_size > 32)
-        {
-            throw std::runtime_error(
-                "Number with greater than 32 digits encountered");
-        }
-
         if (std::isdigit(*tmp) || *tmp == '.')
         {
+            // Leave room for the null terminator
+            if (buf_size == sizeof(buf) - 1)
+            {
+                throw std::runtime_error(
+                    "Number with greater than 31 digits encountered");
+            }
+
             buf[buf_size++] = *tmp;
         }
         else
-- 
2.43.0


From 32e077908dc244a4f5f1ffb51304f0459864e076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:04 +0000
Subject: [PATCH 12/24] fix: reject basis indices outside of the algebra

---
 sym/parser.cpp | 8 +++++++-
 sym/parser.hpp | 2 +-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/sym/parser.cpp b/sym/parser.cpp
index e8af54f..bcc1ae9 100644
--- a/sym/parser.cpp
+++ b/sym/parser.cpp
@@ -109,7 +109,13 @@ static element tokenize_element(std::string::const_iterator& it,
     {
         if (std::isdigit(*it))
         {
-            uint8_t bit = *it - '0';
+            uint32_t bit = *it - '0';
+
+            if (((1u << bit) & algebra_.pss()) == 0)
+            {
+                throw std::runtime_error(
+                    "Basis index exceeds the dimension of the algebra");
+            }
 
             if ((out.value & (1 << bit)) > 0)
             {
diff --git a/sym/parser.hpp b/sym/parser.hpp
index e437112..2009fc5 100644
--- a/sym/parser.hpp
+++ b/sym/parser.hpp
@@ -23,7 +23,7 @@ struct identifier
 
 struct element
 {
-    uint8_t value;
+    uint32_t value;
     bool negative;
 };
 
-- 
2.43.0


From 75b94dea034f523c1981adaee84a01138409a69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:05 +0000
Subject: [PATCH 13/24] fix: terminate on trailing identifiers and unknown
 characters

---
 sym/parser.cpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/sym/parser.cpp b/sym/parser.cpp
index bcc1ae9..3816963 100644
--- a/sym/parser.cpp
+++ b/sym/parser.cpp
@@ -206,18 +206,19 @@ std::vector<token> tokenize(std::string const& input, algebra const& algebra_)
             t.type = token_type::number;
             t.num  = tokenize_number(it, input.end());
         }
-        else if (it != input.end() - 1)
+        else if (c == 'e' && it != input.end() - 1 && std::isdigit(*(it + 1)))
         {
-            if (c == 'e' && std::isdigit(*(it + 1)))
-            {
-                t.type = token_type::element;
-                t.e    = tokenize_element(it, input.end(), algebra_);
-            }
-            else
-            {
-                t.type = token_type::identifier;
-                t.id   = tokenize_identifier(it, input.end());
-            }
+            t.type = token_type::element;
+            t.e    = tokenize_element(it, input.end(), algebra_);
+        }
+        else if (std::isalnum(c))
+        {
+            t.type = token_type::identifier;
+            t.id   = tokenize_identifier(it, input.end());
+        }
+        else
+        {
+            throw std::runtime_error("Unexpected character encountered");
         }
         out.emplace_back(t);
     }
-- 
2.43.0


From dcf04c56bb7f2b99342df2cb708640171799cbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:06 +0000
Subject: [PATCH 14/24] fix: reject trailing tokens instead of dropping part of
 an expression

---
 sym/parser.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sym/parser.cpp b/sym/parser.cpp
index 3816963..e3b6c36 100644
--- a/sym/parser.cpp
+++ b/sym/parser.cpp
@@ -446,6 +446,11 @@ mv parse(std::string const& input, algebra const& algebra_)
 {
     std::vector<token> tokens = tokenize(input, algebra_);
 
-    auto it = tokens.cbegin();
-    return parse_expr(it, tokens.cend(), algebra_);
+    auto it   = tokens.cbegin();
+    mv result = parse_expr(it, tokens.cend(), algebra_);
+    if (it->type != token_type::eof)
+    {
+        throw std::runtime_error("Unexpected token after expression");
+    }
+    return result;
 }
\ No newline at end of file
-- 
2.43.0


From e6b536aa6f4feb05c2c1a3999c82abbbf1a6b8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:07 +0000
Subject: [PATCH 15/24] fix: evaluate shell lines that contain decimal points

---
 sym/repl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sym/repl.cpp b/sym/repl.cpp
index 8415174..3c5528f 100644
--- a/sym/repl.cpp
+++ b/sym/repl.cpp
@@ -32,14 +32,14 @@ void repl::run()
             {
                 continue;
             }
-            else if (c == '#')
+            else if (!should_parse && c == '#')
             {
                 // Lines that begin with a # are comments
                 // Echo them in the output
                 std::cout << line;
                 break;
             }
-            else if (c == '.')
+            else if (!should_parse && c == '.')
             {
                 // Lines that start with a . are commands
                 issue_command = true;
-- 
2.43.0


From 2eced2d1e1dc56d0805ab811807f8a73deaa900e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:21 +0000
Subject: [PATCH 16/24] fix: print constant terms whose value is one or minus
 one

---
 sym/poly.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sym/poly.cpp b/sym/poly.cpp
index 9a1a606..3c79750 100644
--- a/sym/poly.cpp
+++ b/sym/poly.cpp
@@ -271,6 +271,12 @@ operator<<(std::ostream& os,
 std::ostream& operator<<(std::ostream& os,
                          std::map<mon, float>::const_iterator const& it) noexcept
 {
+    if (it->first.factors.empty())
+    {
+        // A constant term has no variables to carry an implicit coefficient
+        return os << it->second;
+    }
+
     if (it->second == -1.f)
     {
         os << '-';
@@ -280,11 +286,6 @@ std::ostream& operator<<(std::ostream& os,
         os << it->second;
     }
 
-    if (it->first.factors.empty())
-    {
-        return os;
-    }
-
     auto factor = it->first.factors.cbegin();
     os << factor;
     ++factor;
-- 
2.43.0


From c699d1cee29d8d6e35680da7f4e6881a57e13382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:22 +0000
Subject: [PATCH 17/24] fix: multiply basis elements of algebras with more than
 eight dimensions

---
 sym/ga.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sym/ga.cpp b/sym/ga.cpp
index 4700893..9265548 100644
--- a/sym/ga.cpp
+++ b/sym/ga.cpp
@@ -42,10 +42,10 @@ int32_t algebra::mul(uint32_t lhs, uint32_t rhs) const noexcept
 
     for (uint32_t i = 0; i != dim_; ++i)
     {
-        uint8_t index = dim_ - i - 1;
-        uint8_t bit   = 1 << index;
-        bool lhs_e    = (lhs & bit) > 0;
-        bool rhs_e    = (rhs & bit) > 0;
+        uint32_t index = dim_ - i - 1;
+        uint32_t bit   = 1u << index;
+        bool lhs_e     = (lhs & bit) > 0;
+        bool rhs_e     = (rhs & bit) > 0;
 
         if (lhs_e)
         {
-- 
2.43.0


From 2662fc9a304ef1687558d8b14ce007e5ee677525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:26 +0000
Subject: [PATCH 18/24] fix: the norm of a plane through nothing but infinity
 is zero, not NaN

---
 public/klein/plane.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/public/klein/plane.hpp b/public/klein/plane.hpp
index 2576875..62839ea 100644
--- a/public/klein/plane.hpp
+++ b/public/klein/plane.hpp
@@ -5,6 +5,7 @@
 
 #include "line.hpp"
 #include "point.hpp"
+#include <cmath>
 
 namespace kln
 {
@@ -85,8 +86,8 @@ public:
     [[nodiscard]] float norm() const noexcept
     {
         float out;
-        _mm_store_ss(&out, detail::sqrt_nr1(detail::hi_dp(p0_, p0_)));
-        return out;
+        _mm_store_ss(&out, detail::hi_dp(p0_, p0_));
+        return std::sqrt(out);
     }
 
     void invert() noexcept
-- 
2.43.0


From d8b82bdd86171a2597f6f826a78189821423e963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:50 +0000
Subject: [PATCH 19/24] fix: do not exchange e23 and e12 in the product of two
 lines

---
 public/klein/detail/x86/x86_geometric_product.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/public/klein/detail/x86/x86_geometric_product.hpp b/public/klein/detail/x86/x86_geometric_product.hpp
index e7de92e..67f235e 100644
--- a/public/klein/detail/x86/x86_geometric_product.hpp
+++ b/public/klein/detail/x86/x86_geometric_product.hpp
@@ -280,11 +280,11 @@ namespace detail
         __m128& p1 = *out;
         __m128& p2 = *(out + 1);
 
-        p1 = _mm_mul_ps(KLN_SWIZZLE(a, 3, 1, 2, 1), KLN_SWIZZLE(b, 2, 3, 1, 1));
+        p1 = _mm_mul_ps(KLN_SWIZZLE(a, 2, 1, 3, 1), KLN_SWIZZLE(b, 1, 3, 2, 1));
         p1 = _mm_xor_ps(p1, flip);
         p1 = _mm_sub_ps(
             p1,
-            _mm_mul_ps(KLN_SWIZZLE(a, 2, 3, 1, 3), KLN_SWIZZLE(b, 3, 1, 2, 3)));
+            _mm_mul_ps(KLN_SWIZZLE(a, 1, 3, 2, 3), KLN_SWIZZLE(b, 2, 1, 3, 3)));
         __m128 a2 = _mm_unpackhi_ps(a, a);
         __m128 b2 = _mm_unpackhi_ps(b, b);
         p1        = _mm_sub_ss(p1, _mm_mul_ss(a2, b2));
-- 
2.43.0


From f255c3bdab8edcba83e684ffe96aea3b92e20a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:51 +0000
Subject: [PATCH 20/24] fix: reject expressions nested too deeply instead of
 exhausting the stack

---
 sym/parser.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/sym/parser.cpp b/sym/parser.cpp
index e3b6c36..6210b37 100644
--- a/sym/parser.cpp
+++ b/sym/parser.cpp
@@ -442,10 +442,31 @@ static mv parse_expr(std::vector<token>::const_iterator& it,
     return out;
 }
 
+// Parsing recurses into every open parenthesis
+static constexpr size_t max_depth = 512;
+
 mv parse(std::string const& input, algebra const& algebra_)
 {
     std::vector<token> tokens = tokenize(input, algebra_);
 
+    size_t depth = 0;
+    for (auto&& t : tokens)
+    {
+        if (t.type != token_type::delimiter)
+        {
+            continue;
+        }
+
+        if (t.delimiter == ')')
+        {
+            depth -= depth > 0 ? 1 : 0;
+        }
+        else if (++depth > max_depth)
+        {
+            throw std::runtime_error("Expression is nested too deeply");
+        }
+    }
+
     auto it   = tokens.cbegin();
     mv result = parse_expr(it, tokens.cend(), algebra_);
     if (it->type != token_type::eof)
-- 
2.43.0


From edf7bb1525012937b660752e53456468d3185533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:39 +0000
Subject: [PATCH 21/24] fix: adding or subtracting a multivector or polynomial
 to or from itself

---
 sym/ga.cpp   | 12 ++++++++++++
 sym/poly.cpp |  6 ++++++
 2 files changed, 18 insertions(+)

diff --git a/sym/ga.cpp b/sym/ga.cpp
index 9265548..1fe6dde 100644
--- a/sym/ga.cpp
+++ b/sym/ga.cpp
@@ -278,6 +278,12 @@ mv& mv::operator~() && noexcept
 
 mv& mv::operator+=(mv const& other) noexcept
 {
+    if (this == &other)
+    {
+        // Terms that cancel are erased, so iterate over a copy
+        return *this += mv{other};
+    }
+
     for (auto&& [e, p] : other.terms)
     {
         push(e, p);
@@ -288,6 +294,12 @@ mv& mv::operator+=(mv const& other) noexcept
 
 mv& mv::operator-=(mv const& other) noexcept
 {
+    if (this == &other)
+    {
+        // Terms that cancel are erased, so iterate over a copy
+        return *this -= mv{other};
+    }
+
     for (auto&& [e, p] : other.terms)
     {
         push(e, -p);
diff --git a/sym/poly.cpp b/sym/poly.cpp
index 3c79750..73a6d0a 100644
--- a/sym/poly.cpp
+++ b/sym/poly.cpp
@@ -192,6 +192,12 @@ poly& poly::operator-() && noexcept
 
 poly& poly::operator+=(poly const& other) noexcept
 {
+    if (this == &other)
+    {
+        // Terms that cancel are erased, so iterate over a copy
+        return *this += poly{other};
+    }
+
     for (auto&& [m, f] : other.terms)
     {
         auto it = terms.find(m);
-- 
2.43.0


From e0e80cca09d8f86befc0cff7c468e166b309b2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:27 +0000
Subject: [PATCH 22/24] fix: print every basis index that can be written

---
 sym/ga.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sym/ga.cpp b/sym/ga.cpp
index 1fe6dde..6c9cb87 100644
--- a/sym/ga.cpp
+++ b/sym/ga.cpp
@@ -516,7 +516,7 @@ std::ostream& operator<<(std::ostream& os,
 
     os << " e";
 
-    for (size_t i = 0; i != 9; ++i)
+    for (size_t i = 0; i != 10; ++i)
     {
         if ((it->first & (1 << i)) > 0)
         {
-- 
2.43.0


From 43bdeebf7e215fb0c35ca8b6cd6ce5ec24dc5a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:09 +0000
Subject: [PATCH 23/24] fix: a term with a zero coefficient is not kept

---
 sym/ga.cpp   | 5 +++++
 sym/poly.cpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/sym/ga.cpp b/sym/ga.cpp
index 6c9cb87..a0032ec 100644
--- a/sym/ga.cpp
+++ b/sym/ga.cpp
@@ -214,6 +214,11 @@ mv::mv(algebra const& a) noexcept
 
 mv& mv::push(uint32_t e, poly const& p) noexcept
 {
+    if (p.terms.empty())
+    {
+        return *this;
+    }
+
     auto it = terms.find(e);
     if (it == terms.end())
     {
diff --git a/sym/poly.cpp b/sym/poly.cpp
index 73a6d0a..852ea94 100644
--- a/sym/poly.cpp
+++ b/sym/poly.cpp
@@ -150,6 +150,11 @@ mon operator*(mon const& lhs, mon const& rhs) noexcept
 
 poly& poly::push(mon const& m, float f) noexcept
 {
+    if (f == 0.f)
+    {
+        return *this;
+    }
+
     auto it = terms.find(m);
     if (it == terms.end())
     {
-- 
2.43.0


From d2f57a25b0a9aad91169c7428c54b707a901e25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:56 +0000
Subject: [PATCH 24/24] fix: do not leave the stream in hexadecimal after
 printing a basis element

---
 sym/parser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sym/parser.cpp b/sym/parser.cpp
index 6210b37..6b8af0a 100644
--- a/sym/parser.cpp
+++ b/sym/parser.cpp
@@ -19,7 +19,10 @@ std::ostream& operator<<(std::ostream& os, element const& el)
     {
         os << '-';
     }
+    // Do not leave the stream in hexadecimal
+    std::ios_base::fmtflags flags = os.flags();
     os << "e[0x" << std::hex << static_cast<int>(el.value) << ']';
+    os.flags(flags);
     return os;
 }
 
-- 
2.43.0

