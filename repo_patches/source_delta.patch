From ed771df7c270652753a22d1d72b5589af944af48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:02 +0000
Subject: [PATCH 01/27] fix: vst4_u8/vst4_u32 store the fourth register at
 element 4i+3

---
 neon_sim.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 0e015e7..74eb61e 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -1112,7 +1112,7 @@ void vst4_u8(uint8_t* ptr, uint8x8x4_t val)
         ptr[4 * i + 0] = val.val[0].val[i];
         ptr[4 * i + 1] = val.val[1].val[i];
         ptr[4 * i + 2] = val.val[2].val[i];
-        ptr[4 * i + 4] = val.val[3].val[i];
+        ptr[4 * i + 3] = val.val[3].val[i];
     }
 }
 void vst4_u16(uint16_t* ptr, uint16x4x4_t val)
@@ -1132,7 +1132,7 @@ void vst4_u32(uint32_t* ptr, uint32x2x4_t val)
         ptr[4 * i + 0] = val.val[0].val[i];
         ptr[4 * i + 1] = val.val[1].val[i];
         ptr[4 * i + 2] = val.val[2].val[i];
-        ptr[4 * i + 2] = val.val[3].val[i];
+        ptr[4 * i + 3] = val.val[3].val[i];
     }
 }
 
-- 
2.43.0


From af073d1cd6851578d0bed5abe60492b56dc43c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:06 +0000
Subject: [PATCH 02/27] fix: vaddhn_high_{s32,u32,s64,u64} keep the high half
 of the sum

---
 neon_sim.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 74eb61e..d615983 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -1513,7 +1513,7 @@ int16x8_t vaddhn_high_s32(int16x4_t r, int32x4_t a, int32x4_t b)
     for (int i = 0; i < 4; i++)
         ret.val[i] = r.val[i];
     for (int i = 0; i < 4; i++)
-        ret.val[i + 4] = (int16_t)((a.val[i] + b.val[i]) >> 4);
+        ret.val[i + 4] = (int16_t)((a.val[i] + b.val[i]) >> 16);
     return ret;
 }
 
@@ -1523,7 +1523,7 @@ int32x4_t vaddhn_high_s64(int32x2_t r, int64x2_t a, int64x2_t b)
     for (int i = 0; i < 2; i++)
         ret.val[i] = r.val[i];
     for (int i = 0; i < 2; i++)
-        ret.val[i + 2] = (int32_t)((a.val[i] + b.val[i]) >> 2);
+        ret.val[i + 2] = (int32_t)((a.val[i] + b.val[i]) >> 32);
     return ret;
 }
 
@@ -1543,7 +1543,7 @@ uint16x8_t vaddhn_high_u32(uint16x4_t r, uint32x4_t a, uint32x4_t b)
     for (int i = 0; i < 4; i++)
         ret.val[i] = r.val[i];
     for (int i = 0; i < 4; i++)
-        ret.val[i + 4] = (uint16_t)((a.val[i] + b.val[i]) >> 4);
+        ret.val[i + 4] = (uint16_t)((a.val[i] + b.val[i]) >> 16);
     return ret;
 }
 
@@ -1553,7 +1553,7 @@ uint32x4_t vaddhn_high_u64(uint32x2_t r, uint64x2_t a, uint64x2_t b)
     for (int i = 0; i < 2; i++)
         ret.val[i] = r.val[i];
     for (int i = 0; i < 2; i++)
-        ret.val[i + 2] = (uint32_t)((a.val[i] + b.val[i]) >> 2);
+        ret.val[i + 2] = (uint32_t)((a.val[i] + b.val[i]) >> 32);
     return ret;
 }
 #endif // __aarch64__
-- 
2.43.0


From 6b81cdc07469ff44593a1fbdf17e575ed6e9bd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:11 +0000
Subject: [PATCH 03/27] fix: define vmaxq/vminq for unsigned lanes with
 unsigned vector types as declared

---
 neon_sim.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index d615983..b321c77 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -1239,9 +1239,9 @@ int32x4_t vmaxq_s32(int32x4_t N, int32x4_t M)
     return D;
 }
 
-int8x16_t vmaxq_u8(int8x16_t N, int8x16_t M)
+uint8x16_t vmaxq_u8(uint8x16_t N, uint8x16_t M)
 {
-    int8x16_t D;
+    uint8x16_t D;
     for (int i = 0; i < 16; i++)
     {
         D.val[i] = N.val[i] > M.val[i] ? N.val[i] : M.val[i];
@@ -1249,9 +1249,9 @@ int8x16_t vmaxq_u8(int8x16_t N, int8x16_t M)
     return D;
 }
 
-int16x8_t vmaxq_u16(int16x8_t N, int16x8_t M)
+uint16x8_t vmaxq_u16(uint16x8_t N, uint16x8_t M)
 {
-    int16x8_t D;
+    uint16x8_t D;
     for (int i = 0; i < 8; i++)
     {
         D.val[i] = N.val[i] > M.val[i] ? N.val[i] : M.val[i];
@@ -1259,9 +1259,9 @@ int16x8_t vmaxq_u16(int16x8_t N, int16x8_t M)
     return D;
 }
 
-int32x4_t vmaxq_u32(int32x4_t N, int32x4_t M)
+uint32x4_t vmaxq_u32(uint32x4_t N, uint32x4_t M)
 {
-    int32x4_t D;
+    uint32x4_t D;
     for (int i = 0; i < 4; i++)
     {
         D.val[i] = N.val[i] > M.val[i] ? N.val[i] : M.val[i];
@@ -3683,9 +3683,9 @@ int32x4_t vminq_s32(int32x4_t N, int32x4_t M)
     return D;
 }
 
-int8x16_t vminq_u8(int8x16_t N, int8x16_t M)
+uint8x16_t vminq_u8(uint8x16_t N, uint8x16_t M)
 {
-    int8x16_t D;
+    uint8x16_t D;
     for (int i = 0; i < 16; i++)
     {
         D.val[i] = N.val[i] < M.val[i] ? N.val[i] : M.val[i];
@@ -3693,9 +3693,9 @@ int8x16_t vminq_u8(int8x16_t N, int8x16_t M)
     return D;
 }
 
-int16x8_t vminq_u16(int16x8_t N, int16x8_t M)
+uint16x8_t vminq_u16(uint16x8_t N, uint16x8_t M)
 {
-    int16x8_t D;
+    uint16x8_t D;
     for (int i = 0; i < 8; i++)
     {
         D.val[i] = N.val[i] < M.val[i] ? N.val[i] : M.val[i];
@@ -3703,9 +3703,9 @@ int16x8_t vminq_u16(int16x8_t N, int16x8_t M)
     return D;
 }
 
-int32x4_t vminq_u32(int32x4_t N, int32x4_t M)
+uint32x4_t vminq_u32(uint32x4_t N, uint32x4_t M)
 {
-    int32x4_t D;
+    uint32x4_t D;
     for (int i = 0; i < 4; i++)
     {
         D.val[i] = N.val[i] < M.val[i] ? N.val[i] : M.val[i];
-- 
2.43.0


From d53704da821dbc6cc081f66674e44f3978052d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:16 +0000
Subject: [PATCH 04/27] fix: define vld2_s32, veor_u32, vsub_f64, vsubl_s32 and
 vsubl_u32 as the header declares them

---
 neon_sim.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index b321c77..11af75f 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -233,7 +233,7 @@ uint32x2x2_t vld2_u32(uint32_t const* ptr)
     }
     return r;
 }
-int32x2x2_t vld_s32(int32_t const* ptr)
+int32x2x2_t vld2_s32(int32_t const* ptr)
 {
     int32x2x2_t r;
     for (int i = 0; i < 2; i++)
@@ -1869,7 +1869,7 @@ float32x2_t vsub_f32(float32x2_t N, float32x2_t M)
     return D;
 }
 
-float64x1_t vsub_f32(float64x1_t N, float64x1_t M)
+float64x1_t vsub_f64(float64x1_t N, float64x1_t M)
 {
     float64x1_t D;
     for (size_t i = 0; i < 1; i++)
@@ -2256,7 +2256,7 @@ int32x4_t vsubl_s16(int16x4_t N, int16x4_t M)
     return D;
 }
 
-int64x2_t vsubl_s32(int32x4_t N, int32x2_t M)
+int64x2_t vsubl_s32(int32x2_t N, int32x2_t M)
 {
     int64x2_t D;
     for (size_t i = 0; i < 2; i++)
@@ -2286,7 +2286,7 @@ uint32x4_t vsubl_u16(uint16x4_t N, uint16x4_t M)
     return D;
 }
 
-uint64x2_t vsubl_u32(uint32x4_t N, uint32x2_t M)
+uint64x2_t vsubl_u32(uint32x2_t N, uint32x2_t M)
 {
     uint64x2_t D;
     for (size_t i = 0; i < 2; i++)
@@ -5317,7 +5317,7 @@ uint16x4_t veor_u16(uint16x4_t a, uint16x4_t b)
     return r;
 }
 
-uint32x2_t ver_u32(uint32x2_t a, uint32x2_t b)
+uint32x2_t veor_u32(uint32x2_t a, uint32x2_t b)
 {
     uint32x2_t r;
     for (int i = 0; i < 2; i++)
-- 
2.43.0


From 9635a55987eb54479c10cef82cf621efb066d2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:19 +0000
Subject: [PATCH 05/27] fix: name vsubhn_{s32,s64,u32,u64} as declared and keep
 the high half of the difference

---
 neon_sim.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 11af75f..49588e3 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -1974,22 +1974,22 @@ int8x8_t vsubhn_s16(int16x8_t N, int16x8_t M)
     return D;
 }
 
-int16x4_t vsubn_s32(int32x4_t N, int32x4_t M)
+int16x4_t vsubhn_s32(int32x4_t N, int32x4_t M)
 {
     int16x4_t D;
     for (size_t i = 0; i < 4; i++)
     {
-        D.val[i] = (N.val[i] - M.val[i]) >> 8;
+        D.val[i] = (N.val[i] - M.val[i]) >> 16;
     }
     return D;
 }
 
-int32x2_t vsubn_s64(int64x2_t N, int64x2_t M)
+int32x2_t vsubhn_s64(int64x2_t N, int64x2_t M)
 {
     int32x2_t D;
     for (size_t i = 0; i < 2; i++)
     {
-        D.val[i] = (N.val[i] - M.val[i]) >> 8;
+        D.val[i] = (N.val[i] - M.val[i]) >> 32;
     }
     return D;
 }
@@ -2004,22 +2004,22 @@ uint8x8_t vsubhn_u16(uint16x8_t N, uint16x8_t M)
     return D;
 }
 
-uint16x4_t vsubn_u32(uint32x4_t N, uint32x4_t M)
+uint16x4_t vsubhn_u32(uint32x4_t N, uint32x4_t M)
 {
     uint16x4_t D;
     for (size_t i = 0; i < 4; i++)
     {
-        D.val[i] = (N.val[i] - M.val[i]) >> 8;
+        D.val[i] = (N.val[i] - M.val[i]) >> 16;
     }
     return D;
 }
 
-uint32x2_t vsubn_u64(uint64x2_t N, uint64x2_t M)
+uint32x2_t vsubhn_u64(uint64x2_t N, uint64x2_t M)
 {
     uint32x2_t D;
     for (size_t i = 0; i < 2; i++)
     {
-        D.val[i] = (N.val[i] - M.val[i]) >> 8;
+        D.val[i] = (N.val[i] - M.val[i]) >> 32;
     }
     return D;
 }
-- 
2.43.0


From a44d1111165022be5da9ef23c496d2534da6e6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:31 +0000
Subject: [PATCH 06/27] fix: vhsub/vhsubq on 32-bit lanes halve the exact
 difference

---
 neon_sim.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 49588e3..e468de5 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -2050,7 +2050,7 @@ int32x2_t vhsub_s32(int32x2_t N, int32x2_t M)
     int32x2_t D;
     for (int i = 0; i < 2; i++)
     {
-        D.val[i] = (N.val[i] - M.val[i]) >> 1;
+        D.val[i] = ((int64_t)N.val[i] - M.val[i]) >> 1;
     }
     return D;
 }
@@ -2080,7 +2080,7 @@ uint32x2_t vhsub_u32(uint32x2_t N, uint32x2_t M)
     uint32x2_t D;
     for (int i = 0; i < 2; i++)
     {
-        D.val[i] = (N.val[i] - M.val[i]) >> 1;
+        D.val[i] = ((int64_t)N.val[i] - M.val[i]) >> 1;
     }
     return D;
 }
@@ -2111,7 +2111,7 @@ int32x4_t vhsubq_s32(int32x4_t N, int32x4_t M)
     int32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = (N.val[i] - M.val[i]) >> 1;
+        D.val[i] = ((int64_t)N.val[i] - M.val[i]) >> 1;
     }
     return D;
 }
@@ -2141,7 +2141,7 @@ uint32x4_t vhsubq_u32(uint32x4_t N, uint32x4_t M)
     uint32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = (N.val[i] - M.val[i]) >> 1;
+        D.val[i] = ((int64_t)N.val[i] - M.val[i]) >> 1;
     }
     return D;
 }
-- 
2.43.0


From 936fbf38682666244b76efe02e6389dc52c93332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:33 +0000
Subject: [PATCH 07/27] fix: vqsub/vqsubq on 64-bit lanes compute in integers
 instead of double

---
 neon_sim.cpp | 44 ++++++++++----------------------------------
 1 file changed, 10 insertions(+), 34 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index e468de5..adfd93e 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -2218,18 +2218,18 @@ int64x1_t vqsub_s64(int64x1_t N, int64x1_t M)
     int64x1_t D;
     for (size_t i = 0; i < 1; i++)
     {
-        double temp = (double)N.val[i] - (double)M.val[i];
-        if (temp > (double)(INT64_MAX))
+        const int64_t n = N.val[i], m = M.val[i];
+        if (m < 0 && n > INT64_MAX + m)
         {
             D.val[i] = INT64_MAX;
         }
-        else if (temp < INT64_MIN)
+        else if (m > 0 && n < INT64_MIN + m)
         {
             D.val[i] = INT64_MIN;
         }
         else
         {
-            D.val[i] = temp;
+            D.val[i] = n - m;
         }
     }
     return D;
@@ -2428,19 +2428,7 @@ uint64x1_t vqsub_u64(uint64x1_t N, uint64x1_t M)
     uint64x1_t D;
     for (size_t i = 0; i < 1; i++)
     {
-        double temp = (double)N.val[i] - (double)M.val[i];
-        if (temp > (double)(UINT64_MAX))
-        {
-            D.val[i] = UINT64_MAX;
-        }
-        else if (temp < 0)
-        {
-            D.val[i] = 0;
-        }
-        else
-        {
-            D.val[i] = temp;
-        }
+        D.val[i] = N.val[i] > M.val[i] ? N.val[i] - M.val[i] : 0;
     }
     return D;
 }
@@ -2517,18 +2505,18 @@ int64x2_t vqsubq_s64(int64x2_t N, int64x2_t M)
     int64x2_t D;
     for (size_t i = 0; i < 2; i++)
     {
-        double temp = (double)N.val[i] - (double)M.val[i];
-        if (temp > (double)(INT64_MAX))
+        const int64_t n = N.val[i], m = M.val[i];
+        if (m < 0 && n > INT64_MAX + m)
         {
             D.val[i] = INT64_MAX;
         }
-        else if (temp < INT64_MIN)
+        else if (m > 0 && n < INT64_MIN + m)
         {
             D.val[i] = INT64_MIN;
         }
         else
         {
-            D.val[i] = temp;
+            D.val[i] = n - m;
         }
     }
     return D;
@@ -2605,19 +2593,7 @@ uint64x2_t vqsubq_u64(uint64x2_t N, uint64x2_t M)
     uint64x2_t D;
     for (size_t i = 0; i < 2; i++)
     {
-        double temp = (double)N.val[i] - (double)M.val[i];
-        if (temp > (double)(UINT64_MAX))
-        {
-            D.val[i] = UINT64_MAX;
-        }
-        else if (temp < 0)
-        {
-            D.val[i] = 0;
-        }
-        else
-        {
-            D.val[i] = temp;
-        }
+        D.val[i] = N.val[i] > M.val[i] ? N.val[i] - M.val[i] : 0;
     }
     return D;
 }
-- 
2.43.0


From 0b0ea1f27a1b91af86ef6f6b32aacb3323fdc954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:36 +0000
Subject: [PATCH 08/27] fix: vrsubhn on 64-bit lanes adds +2^31 as the rounding
 constant

---
 neon_sim.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index adfd93e..62781eb 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -2626,7 +2626,7 @@ int32x2_t vrsubhn_s64(int64x2_t N, int64x2_t M)
 {
     int32x2_t D;
     const int64_t shift = 32;
-    const int64_t delta = (1 << (shift - 1));
+    const int64_t delta = ((int64_t)1 << (shift - 1));
     for (int i = 0; i < 2; i++)
     {
         D.val[i] = (N.val[i] - M.val[i] + delta) >> shift;
@@ -2662,7 +2662,7 @@ uint32x2_t vrsubhn_u64(uint64x2_t N, uint64x2_t M)
 {
     uint32x2_t D;
     const uint64_t shift = 32;
-    const uint64_t delta = (1 << (shift - 1));
+    const uint64_t delta = ((uint64_t)1 << (shift - 1));
     for (int i = 0; i < 2; i++)
     {
         D.val[i] = (N.val[i] - M.val[i] + delta) >> shift;
-- 
2.43.0


From fb9a318611dc489474380d99f8a07948c2a56e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:38 +0000
Subject: [PATCH 09/27] fix: vmull/vmull_n/vmlal/vmlsl on 32-bit lanes form the
 64-bit product

---
 neon_sim.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 62781eb..a7927a3 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -2947,7 +2947,7 @@ uint64x2_t vmull_u32(uint32x2_t a, uint32x2_t b)
     uint64x2_t r;
     for (int i = 0; i < 2; i++)
     {
-        r.val[i] =  a.val[i] * b.val[i];
+        r.val[i] =  (uint64_t)a.val[i] * b.val[i];
     }
     return r;
 }
@@ -2975,7 +2975,7 @@ int64x2_t vmull_s32(int32x2_t a, int32x2_t b)
     int64x2_t r;
     for (int i = 0; i < 2; i++)
     {
-        r.val[i] =  a.val[i] * b.val[i];
+        r.val[i] =  (int64_t)a.val[i] * b.val[i];
     }
     return r;
 }
@@ -2996,7 +2996,7 @@ int64x2_t vmull_n_s32(int32x2_t N, int32_t M)
     int64x2_t D;
     for (int i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] * M;
+        D.val[i] = (int64_t)N.val[i] * M;
     }
     return D;
 }
@@ -3016,7 +3016,7 @@ uint64x2_t vmull_n_u32(uint32x2_t N, uint32_t M)
     uint64x2_t D;
     for (int i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] * M;
+        D.val[i] = (uint64_t)N.val[i] * M;
     }
     return D;
 }
@@ -3066,7 +3066,7 @@ int64x2_t vmlal_s32(int64x2_t N, int32x2_t M, int32x2_t P)
     int64x2_t D;
     for (int i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] + (M.val[i] * P.val[i]);
+        D.val[i] = N.val[i] + ((int64_t)M.val[i] * P.val[i]);
     }
     return D;
 }
@@ -3096,7 +3096,7 @@ uint64x2_t vmlal_u32(uint64x2_t N, uint32x2_t M, uint32x2_t P)
     uint64x2_t D;
     for (int i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] + (M.val[i] * P.val[i]);
+        D.val[i] = N.val[i] + ((uint64_t)M.val[i] * P.val[i]);
     }
     return D;
 }
@@ -3127,7 +3127,7 @@ int64x2_t vmlsl_s32(int64x2_t N, int32x2_t M, int32x2_t P)
     int64x2_t D;
     for (int i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] - (M.val[i] * P.val[i]);
+        D.val[i] = N.val[i] - ((int64_t)M.val[i] * P.val[i]);
     }
     return D;
 }
@@ -3157,7 +3157,7 @@ uint64x2_t vmlsl_u32(uint64x2_t N, uint32x2_t M, uint32x2_t P)
     uint64x2_t D;
     for (int i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] - (M.val[i] * P.val[i]);
+        D.val[i] = N.val[i] - ((uint64_t)M.val[i] * P.val[i]);
     }
     return D;
 }
-- 
2.43.0


From 89b5daaa6b25cea6989a5c9f2034c73bb278e8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:41 +0000
Subject: [PATCH 10/27] fix: vaddl_high on 32-bit lanes adds in 64 bits

---
 neon_sim.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index a7927a3..0346c5c 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -1697,7 +1697,7 @@ int64x2_t vaddl_high_s32(int32x4_t a, int32x4_t b)
     const int ofs = 4 / 2;
     for (int i = 0; i < 2; i++)
     {
-        r.val[i] =  a.val[ofs + i] + b.val[ofs + i];
+        r.val[i] =  (int64_t)a.val[ofs + i] + b.val[ofs + i];
     }
     return r;
 }
@@ -1730,7 +1730,7 @@ uint64x2_t vaddl_high_u32(uint32x4_t a, uint32x4_t b)
     const int ofs = 4 / 2;
     for (int i = 0; i < 2; i++)
     {
-        r.val[i] =  a.val[ofs + i] + b.val[ofs + i];
+        r.val[i] =  (uint64_t)a.val[ofs + i] + b.val[ofs + i];
     }
     return r;
 }
-- 
2.43.0


From 775d1672e7e59a8d29c12c3139c6118e74e3ba61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:44 +0000
Subject: [PATCH 11/27] fix: vbslq_f32 selects bit by bit

---
 neon_sim.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 0346c5c..8cc33e7 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -3721,7 +3721,11 @@ float32x4_t vbslq_f32(uint32x4_t mask, float32x4_t a, float32x4_t b)
     float32x4_t r;
     for (int i = 0; i < 4; i++)
     {
-        r.val[i] =  mask.val[i] ? a.val[i] : b.val[i];
+        uint32_t x, y;
+        memcpy(&x, &a.val[i], sizeof(x));
+        memcpy(&y, &b.val[i], sizeof(y));
+        const uint32_t bits = (mask.val[i] & x) | (~mask.val[i] & y);
+        memcpy(&r.val[i], &bits, sizeof(bits));
     }
     return r;
 }
-- 
2.43.0


From 7799842b5491edf7db006be2b64f1ea37ab47eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:46 +0000
Subject: [PATCH 12/27] fix: float vmaxq/vminq/vpmax/vpmin propagate NaN and
 order signed zeros

---
 neon_sim.cpp | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 8cc33e7..940548b 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -9,6 +9,25 @@
 #include <algorithm>
 #include <string>
 
+// NaN if either operand is NaN; +0 is greater than -0
+static float neon_max_f32(float a, float b)
+{
+    if (a != a || b != b)
+        return a + b;
+    if (a == b)
+        return signbit(a) ? b : a;
+    return a > b ? a : b;
+}
+
+static float neon_min_f32(float a, float b)
+{
+    if (a != a || b != b)
+        return a + b;
+    if (a == b)
+        return signbit(a) ? a : b;
+    return a < b ? a : b;
+}
+
 ////// Load
 // vld1
 uint8x8_t vld1_u8(uint8_t const* ptr)
@@ -1274,7 +1293,7 @@ float32x4_t vmaxq_f32(float32x4_t N, float32x4_t M)
     float32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] > M.val[i] ? N.val[i] : M.val[i];
+        D.val[i] = neon_max_f32(N.val[i], M.val[i]);
     }
     return D;
 }
@@ -3554,16 +3573,16 @@ uint8x8_t vget_high_u8(uint8x16_t a)
 float32x2_t vpmax_f32(float32x2_t a, float32x2_t b)
 {
     float32x2_t r;
-    r.val[0] = a.val[0] > a.val[1] ? a.val[0] : a.val[1];
-    r.val[1] = b.val[0] > b.val[1] ? b.val[0] : b.val[1];
+    r.val[0] = neon_max_f32(a.val[0], a.val[1]);
+    r.val[1] = neon_max_f32(b.val[0], b.val[1]);
     return r;
 }
 
 float32x2_t vpmin_f32(float32x2_t a, float32x2_t b)
 {
     float32x2_t r;
-    r.val[0] = a.val[0] < a.val[1] ? a.val[0] : a.val[1];
-    r.val[1] = b.val[0] < b.val[1] ? b.val[0] : b.val[1];
+    r.val[0] = neon_min_f32(a.val[0], a.val[1]);
+    r.val[1] = neon_min_f32(b.val[0], b.val[1]);
     return r;
 }
 
@@ -3694,7 +3713,7 @@ float32x4_t vminq_f32(float32x4_t N, float32x4_t M)
     float32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] < M.val[i] ? N.val[i] : M.val[i];
+        D.val[i] = neon_min_f32(N.val[i], M.val[i]);
     }
     return D;
 }
-- 
2.43.0


From 4a06788b15fed1c8cccd158db722140621e855fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:49 +0000
Subject: [PATCH 13/27] fix: float to integer conversions saturate, and
 vcvtnq_s32_f32 rounds to nearest even

---
 neon_sim.cpp | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 940548b..20c70bc 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -28,6 +28,27 @@ static float neon_min_f32(float a, float b)
     return a < b ? a : b;
 }
 
+// toward zero, saturating; NaN gives 0
+static int32_t neon_cvt_s32_f32(float v)
+{
+    if (v != v)
+        return 0;
+    if (v >= 2147483648.0f)
+        return INT32_MAX;
+    if (v < -2147483648.0f)
+        return INT32_MIN;
+    return (int32_t)v;
+}
+
+static uint32_t neon_cvt_u32_f32(float v)
+{
+    if (!(v > 0.0f))
+        return 0;
+    if (v >= 4294967296.0f)
+        return UINT32_MAX;
+    return (uint32_t)v;
+}
+
 ////// Load
 // vld1
 uint8x8_t vld1_u8(uint8_t const* ptr)
@@ -4229,7 +4250,7 @@ int32x4_t vcvtq_s32_f32(float32x4_t a)
     int32x4_t r;
     for (int i = 0; i < 4; i++)
     {
-        r.val[i] =  a.val[i];
+        r.val[i] =  neon_cvt_s32_f32(a.val[i]);
     }
     return r;
 }
@@ -4239,7 +4260,7 @@ uint32x4_t vcvtq_u32_f32(float32x4_t a)
     uint32x4_t r;
     for (int i = 0; i < 4; i++)
     {
-        r.val[i] =  a.val[i];
+        r.val[i] =  neon_cvt_u32_f32(a.val[i]);
     }
     return r;
 }
@@ -4249,7 +4270,7 @@ int32x4_t vcvtnq_s32_f32(float32x4_t a)
     int32x4_t r;
     for (int i = 0; i < 4; i++)
     {
-        r.val[i] =  a.val[i];
+        r.val[i] =  neon_cvt_s32_f32(nearbyintf(a.val[i]));
     }
     return r;
 }
-- 
2.43.0


From 015590e133db714b7f263cd748797e17009b9a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:26 +0000
Subject: [PATCH 14/27] fix: vshr_n_u16 accepts shifts up to 16

---
 neon_sim.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 20c70bc..4641af6 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -3789,9 +3789,9 @@ int8x8_t vshrn_n_s16(int16x8_t a, const int n)
 
 uint16x4_t vshr_n_u16(uint16x4_t v, const int n)
 {
-    if (n < 1 || n > 8)
+    if (n < 1 || n > 16)
     {
-        fprintf(stderr, "%s: param n not in range [1, 8]\n", __FUNCTION__);
+        fprintf(stderr, "%s: param n not in range [1, 16]\n", __FUNCTION__);
         abort();
     }
 
-- 
2.43.0


From 9da300da7818130b3ef2f8351c6ac4b6648db0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:29 +0000
Subject: [PATCH 15/27] fix: vqshrun_n_s32/s64 write their result and do not
 round

---
 neon_sim.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 4641af6..fd1437a 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -3919,7 +3919,7 @@ uint16x4_t vqshrun_n_s32(int32x4_t v, const int n)
     uint16x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        int32_t temp = (v.val[i] + (1 << (n - 1))) >> n;
+        int32_t temp = v.val[i] >> n;
         if (temp > UINT16_MAX)
         {
             temp = UINT16_MAX;
@@ -3928,6 +3928,7 @@ uint16x4_t vqshrun_n_s32(int32x4_t v, const int n)
         {
             temp = 0;
         }
+        D.val[i] = temp;
     }
     return D;
 }
@@ -3943,7 +3944,7 @@ uint32x2_t vqshrun_n_s64(int64x2_t v, const int n)
     uint32x2_t D;
     for (int i = 0; i < 2; i++)
     {
-        int64_t temp = (v.val[i] + (1 << (n - 1))) >> n;
+        int64_t temp = v.val[i] >> n;
         if (temp > UINT32_MAX)
         {
             temp = UINT32_MAX;
@@ -3952,6 +3953,7 @@ uint32x2_t vqshrun_n_s64(int64x2_t v, const int n)
         {
             temp = 0;
         }
+        D.val[i] = temp;
     }
     return D;
 }
-- 
2.43.0


From 00f8829194b2f1328a86cf4d1621891b1220bdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:32 +0000
Subject: [PATCH 16/27] fix: vqshrn_n_s64 saturates before narrowing

---
 neon_sim.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index fd1437a..8f73fbe 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -6045,7 +6045,7 @@ int32x2_t vqshrn_n_s64(int64x2_t a, const int n)
     int32x2_t r;
     for (int i = 0; i < 2; i++)
     {
-        r.val[i] =  std::min<int32_t>(std::max<int64_t>(a.val[i] >> n, INT32_MIN), INT32_MAX);
+        r.val[i] =  std::min<int64_t>(std::max<int64_t>(a.val[i] >> n, INT32_MIN), INT32_MAX);
     }
     return r;
 }
-- 
2.43.0


From 9e50ceba5c179650792f0df046620dd85e43d15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:34 +0000
Subject: [PATCH 17/27] fix: vsraq_n_s32 adds to the unshifted accumulator,
 modulo 2^32, for shifts up to 32

---
 neon_sim.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 8f73fbe..c3f77ed 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -3998,7 +3998,7 @@ int32x4_t vsraq_n_s32(int32x4_t a, int32x4_t b, const int n)
     int32x4_t r;
     for (int i = 0; i < 4; i++)
     {
-        r.val[i] =  (a.val[i] >> n) + (b.val[i] >> n);
+        r.val[i] =  (uint32_t)a.val[i] + (uint32_t)((int64_t)b.val[i] >> n);
     }
     return r;
 }
-- 
2.43.0


From 92cb4eab78ab2d418d7c077270fd8a6d2113743a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:38 +0000
Subject: [PATCH 18/27] fix: vqtbl1_u8 returns 0 for indices outside the table

---
 neon_sim.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index c3f77ed..97c3f51 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -4757,7 +4757,7 @@ uint8x8_t vqtbl1_u8(uint8x16_t t, uint8x8_t idx)
     uint8x8_t r;
     for (int i = 0; i < 8; i++)
     {
-        r.val[i] =  t.val[idx.val[i]];
+        r.val[i] =  idx.val[i] < 16 ? t.val[idx.val[i]] : 0;
     }
     return r;
 }
-- 
2.43.0


From 8c26d71620a689668d6ad2c680d6ce32798fec49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:41 +0000
Subject: [PATCH 19/27] fix: vrev32_s8 stays inside its 8 lanes; vrev64q_s8/s16
 reverse both halves

---
 neon_sim.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 97c3f51..15f8183 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -5688,7 +5688,7 @@ uint8x16_t vrev16q_u8(uint8x16_t vec)
 int8x8_t vrev32_s8(int8x8_t vec)
 {
     int8x8_t r;
-    for (int i = 0; i < 16; i += 4)
+    for (int i = 0; i < 8; i += 4)
     {
         r.val[i + 0] = vec.val[i + 3];
         r.val[i + 1] = vec.val[i + 2];
@@ -5880,7 +5880,7 @@ float32x2_t vrev64_f32(float32x2_t vec)
 int8x16_t vrev64q_s8(int8x16_t vec)
 {
     int8x16_t r;
-    for (int i = 0; i < 8; i += 8)
+    for (int i = 0; i < 16; i += 8)
     {
         r.val[i + 0] = vec.val[i + 7];
         r.val[i + 1] = vec.val[i + 6];
@@ -5897,7 +5897,7 @@ int8x16_t vrev64q_s8(int8x16_t vec)
 int16x8_t vrev64q_s16(int16x8_t vec)
 {
     int16x8_t r;
-    for (int i = 0; i < 4; i += 4)
+    for (int i = 0; i < 8; i += 4)
     {
         r.val[i + 0] = vec.val[i + 3];
         r.val[i + 1] = vec.val[i + 2];
-- 
2.43.0


From 2b700da8a19ff2ee5d0355bbddd61077609b1495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:44 +0000
Subject: [PATCH 20/27] fix: vrecpeq_f32 handles zero, infinity, NaN and
 subnormal operands and results

---
 neon_sim.cpp | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 15f8183..343f6e5 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -4315,10 +4315,34 @@ uint32_t RecipEstimate(uint32_t a)
 float FPRecipEstimate(float operand)
 {
     float_parts parts{operand};
-    parts.exp = 253 - parts.exp;
+    if (parts.exp == 0xff) // NaN, infinity
+    {
+        return parts.fraction ? NAN : copysignf(0.0f, operand);
+    }
+    if (parts.exp == 0 && parts.fraction < (1u << 21)) // zero, or the reciprocal overflows
+    {
+        return copysignf(INFINITY, operand);
+    }
+    int exp = parts.exp;
+    if (exp == 0) // subnormal: normalize
+    {
+        parts.fraction <<= 1;
+        if (!(parts.fraction & (1u << 23)))
+        {
+            parts.fraction <<= 1;
+            exp = -1;
+        }
+    }
+    exp = 253 - exp;
     uint32_t scaled = 0x100 | ((parts.fraction >> 15) & 0xFF);
     uint32_t estimate = RecipEstimate(scaled);
     parts.fraction = (estimate & 0xff) << 15;
+    if (exp <= 0) // subnormal result
+    {
+        parts.fraction = ((1u << 23) | parts.fraction) >> (1 - exp);
+        exp = 0;
+    }
+    parts.exp = exp;
     return float(parts);
 }
 
-- 
2.43.0


From ec136a57b77f7aa13a8c2e61812b7003dc3938c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:47 +0000
Subject: [PATCH 21/27] fix: vrecpsq_f32 takes infinity times zero as zero

---
 neon_sim.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 343f6e5..c45472c 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -4392,6 +4392,11 @@ float32x4_t vrecpsq_f32(float32x4_t a, float32x4_t b)
     float32x4_t r;
     for (int i = 0; i < 4; i++)
     {
+        if ((isinf(a.val[i]) && b.val[i] == 0) || (a.val[i] == 0 && isinf(b.val[i])))
+        {
+            r.val[i] = 2.0f;
+            continue;
+        }
         r.val[i] =  2.0 - (a.val[i] * b.val[i]);
     }
     return r;
-- 
2.43.0


From 5d3291042b7c029511f1521b6009a385d5840a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:50 +0000
Subject: [PATCH 22/27] fix: lane loads, stores and vget(q)_lane reject lanes
 outside the vector

---
 neon_sim.cpp | 65 ++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 65 insertions(+)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index c45472c..d72c38b 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -677,6 +677,11 @@ float32x4_t vld1q_dup_f32(float32_t const* ptr)
 
 int8x8_t vld1_lane_s8(int8_t const* ptr, int8x8_t src, const int lane)
 {
+    if (lane < 0 || lane > 7)
+    {
+        fprintf(stderr, "%s: param lane not in range [0, 7]\n", __FUNCTION__);
+        abort();
+    }
     int8x8_t r;
     for (int i = 0; i < 8; i++)
     {
@@ -688,6 +693,11 @@ int8x8_t vld1_lane_s8(int8_t const* ptr, int8x8_t src, const int lane)
 
 uint8x8_t vld1_lane_u8(uint8_t const* ptr, uint8x8_t src, const int lane)
 {
+    if (lane < 0 || lane > 7)
+    {
+        fprintf(stderr, "%s: param lane not in range [0, 7]\n", __FUNCTION__);
+        abort();
+    }
     uint8x8_t r;
     for (int i = 0; i < 8; i++)
     {
@@ -1242,6 +1252,11 @@ void vst4q_u32(uint32_t* ptr, uint32x4x4_t val)
 // vst4q_lane
 void vst4q_lane_f32(float32_t* ptr, float32x4x4_t val, const int lane)
 {
+    if (lane < 0 || lane > 3)
+    {
+        fprintf(stderr, "%s: param lane not in range [0, 3]\n", __FUNCTION__);
+        abort();
+    }
     for (int i = 0; i < 4; i++)
     {
         ptr[i] = val.val[i].val[lane];
@@ -3609,6 +3624,11 @@ float32x2_t vpmin_f32(float32x2_t a, float32x2_t b)
 
 float32_t vget_lane_f32(float32x2_t v, const int lane)
 {
+    if (lane < 0 || lane > 1)
+    {
+        fprintf(stderr, "%s: param lane not in range [0, 1]\n", __FUNCTION__);
+        abort();
+    }
     return v.val[lane];
 }
 
@@ -3625,46 +3645,91 @@ float32_t vgetq_lane_f32(float32x4_t v, int lane)
 // vgetq_lane_type
 uint8_t vgetq_lane_u8(uint8x16_t v, const int lane)
 {
+    if (lane < 0 || lane > 15)
+    {
+        fprintf(stderr, "%s: param lane not in range [0, 15]\n", __FUNCTION__);
+        abort();
+    }
     return v.val[lane];
 }
 
 uint16_t vgetq_lane_u16(uint16x8_t v, const int lane)
 {
+    if (lane < 0 || lane > 7)
+    {
+        fprintf(stderr, "%s: param lane not in range [0, 7]\n", __FUNCTION__);
+        abort();
+    }
     return v.val[lane];
 }
 
 uint32_t vgetq_lane_u32(uint32x4_t v, const int lane)
 {
+    if (lane < 0 || lane > 3)
+    {
+        fprintf(stderr, "%s: param lane not in range [0, 3]\n", __FUNCTION__);
+        abort();
+    }
     return v.val[lane];
 }
 
 uint64_t vgetq_lane_u64(uint64x2_t v, const int lane)
 {
+    if (lane < 0 || lane > 1)
+    {
+        fprintf(stderr, "%s: param lane not in range [0, 1]\n", __FUNCTION__);
+        abort();
+    }
     return v.val[lane];
 }
 
 int8_t vgetq_lane_s8(int8x16_t v, const int lane)
 {
+    if (lane < 0 || lane > 15)
+    {
+        fprintf(stderr, "%s: param lane not in range [0, 15]\n", __FUNCTION__);
+        abort();
+    }
     return v.val[lane];
 }
 
 int16_t vgetq_lane_s16(int16x8_t v, const int lane)
 {
+    if (lane < 0 || lane > 7)
+    {
+        fprintf(stderr, "%s: param lane not in range [0, 7]\n", __FUNCTION__);
+        abort();
+    }
     return v.val[lane];
 }
 
 int32_t vgetq_lane_s32(int32x4_t v, const int lane)
 {
+    if (lane < 0 || lane > 3)
+    {
+        fprintf(stderr, "%s: param lane not in range [0, 3]\n", __FUNCTION__);
+        abort();
+    }
     return v.val[lane];
 }
 
 int64_t vgetq_lane_s64(int64x2_t v, const int lane)
 {
+    if (lane < 0 || lane > 1)
+    {
+        fprintf(stderr, "%s: param lane not in range [0, 1]\n", __FUNCTION__);
+        abort();
+    }
     return v.val[lane];
 }
 
 float64_t vgetq_lane_f64(float64x2_t v, const int lane)
 {
+    if (lane < 0 || lane > 1)
+    {
+        fprintf(stderr, "%s: param lane not in range [0, 1]\n", __FUNCTION__);
+        abort();
+    }
     return v.val[lane];
 }
 
-- 
2.43.0


From 289ac73d50f8e44fa63af06cbc8ea12d510a9f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:53 +0000
Subject: [PATCH 23/27] fix: shifts by an immediate reject amounts outside the
 legal range

---
 neon_sim.cpp | 50 ++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 50 insertions(+)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index d72c38b..d12e2f0 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -4049,6 +4049,11 @@ uint8x8_t vqrshrun_n_s16(int16x8_t v, const int n)
 
 uint8x8_t vrshrn_n_u16(uint16x8_t a, const int n)
 {
+    if (n < 1 || n > 8)
+    {
+        fprintf(stderr, "%s: param n not in range [1, 8]\n", __FUNCTION__);
+        abort();
+    }
     uint8x8_t r;
     const int delta = (1 << (n - 1));
     for (int i = 0; i < 8; i++)
@@ -4060,6 +4065,11 @@ uint8x8_t vrshrn_n_u16(uint16x8_t a, const int n)
 
 int32x4_t vsraq_n_s32(int32x4_t a, int32x4_t b, const int n)
 {
+    if (n < 1 || n > 32)
+    {
+        fprintf(stderr, "%s: param n not in range [1, 32]\n", __FUNCTION__);
+        abort();
+    }
     int32x4_t r;
     for (int i = 0; i < 4; i++)
     {
@@ -4071,6 +4081,11 @@ int32x4_t vsraq_n_s32(int32x4_t a, int32x4_t b, const int n)
 // shift left
 int32x4_t vshlq_n_s32(int32x4_t M, const int n)
 {
+    if (n < 0 || n > 31)
+    {
+        fprintf(stderr, "%s: param n not in range [0, 31]\n", __FUNCTION__);
+        abort();
+    }
     int32x4_t D;
     for (int i = 0; i < 4; i++)
     {
@@ -4081,6 +4096,11 @@ int32x4_t vshlq_n_s32(int32x4_t M, const int n)
 
 uint16x8_t vshll_n_u8(uint8x8_t a, const int n)
 {
+    if (n < 0 || n > 8)
+    {
+        fprintf(stderr, "%s: param n not in range [0, 8]\n", __FUNCTION__);
+        abort();
+    }
     uint16x8_t r;
     for (int i = 0; i < 8; i++)
     {
@@ -6116,6 +6136,11 @@ float64x2_t vdivq_f64(float64x2_t a, float64x2_t b)
 // saturated shift right and narrow
 int8x8_t vqshrn_n_s16(int16x8_t a, const int n)
 {
+    if (n < 1 || n > 8)
+    {
+        fprintf(stderr, "%s: param n not in range [1, 8]\n", __FUNCTION__);
+        abort();
+    }
     int8x8_t r;
     for (int i = 0; i < 8; i++)
     {
@@ -6126,6 +6151,11 @@ int8x8_t vqshrn_n_s16(int16x8_t a, const int n)
 
 int16x4_t vqshrn_n_s32(int32x4_t a, const int n)
 {
+    if (n < 1 || n > 16)
+    {
+        fprintf(stderr, "%s: param n not in range [1, 16]\n", __FUNCTION__);
+        abort();
+    }
     int16x4_t r;
     for (int i = 0; i < 4; i++)
     {
@@ -6136,6 +6166,11 @@ int16x4_t vqshrn_n_s32(int32x4_t a, const int n)
 
 int32x2_t vqshrn_n_s64(int64x2_t a, const int n)
 {
+    if (n < 1 || n > 32)
+    {
+        fprintf(stderr, "%s: param n not in range [1, 32]\n", __FUNCTION__);
+        abort();
+    }
     int32x2_t r;
     for (int i = 0; i < 2; i++)
     {
@@ -6146,6 +6181,11 @@ int32x2_t vqshrn_n_s64(int64x2_t a, const int n)
 
 uint8x8_t vqshrn_n_u16(uint16x8_t a, const int n)
 {
+    if (n < 1 || n > 8)
+    {
+        fprintf(stderr, "%s: param n not in range [1, 8]\n", __FUNCTION__);
+        abort();
+    }
     uint8x8_t r;
     for (int i = 0; i < 8; i++)
     {
@@ -6156,6 +6196,11 @@ uint8x8_t vqshrn_n_u16(uint16x8_t a, const int n)
 
 uint16x4_t vqshrn_n_u32(uint32x4_t a, const int n)
 {
+    if (n < 1 || n > 16)
+    {
+        fprintf(stderr, "%s: param n not in range [1, 16]\n", __FUNCTION__);
+        abort();
+    }
     uint16x4_t r;
     for (int i = 0; i < 4; i++)
     {
@@ -6166,6 +6211,11 @@ uint16x4_t vqshrn_n_u32(uint32x4_t a, const int n)
 
 uint32x2_t vqshrn_n_u64(uint64x2_t a, const int n)
 {
+    if (n < 1 || n > 32)
+    {
+        fprintf(stderr, "%s: param n not in range [1, 32]\n", __FUNCTION__);
+        abort();
+    }
     uint32x2_t r;
     for (int i = 0; i < 2; i++)
     {
-- 
2.43.0


From b4b6eca374a355cc787ed70c4190ff2e9bf7373a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:36 +0000
Subject: [PATCH 24/27] fix: vadd/vsub on 32- and 64-bit signed lanes wrap
 without signed overflow

---
 neon_sim.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index d12e2f0..b4a36fc 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -1362,7 +1362,7 @@ int32x2_t vadd_s32(int32x2_t N, int32x2_t M)
     int32x2_t D;
     for (size_t i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] + M.val[i];
+        D.val[i] = (uint32_t)N.val[i] + M.val[i];
     }
     return D;
 }
@@ -1370,7 +1370,7 @@ int32x2_t vadd_s32(int32x2_t N, int32x2_t M)
 int64x1_t vadd_s64(int64x1_t N, int64x1_t M)
 {
     int64x1_t D;
-    D.val[0] = N.val[0] + M.val[0];
+    D.val[0] = (uint64_t)N.val[0] + M.val[0];
     return D;
 }
 
@@ -1640,7 +1640,7 @@ int32x4_t vaddq_s32(int32x4_t N, int32x4_t M)
     int32x4_t D;
     for (size_t i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] + M.val[i];
+        D.val[i] = (uint32_t)N.val[i] + M.val[i];
     }
     return D;
 }
@@ -1650,7 +1650,7 @@ int64x2_t vaddq_s64(int64x2_t N, int64x2_t M)
     int64x2_t D;
     for (size_t i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] + M.val[i];
+        D.val[i] = (uint64_t)N.val[i] + M.val[i];
     }
     return D;
 }
@@ -1864,7 +1864,7 @@ int32x2_t vsub_s32(int32x2_t N, int32x2_t M)
     int32x2_t D;
     for (size_t i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] - M.val[i];
+        D.val[i] = (uint32_t)N.val[i] - M.val[i];
     }
     return D;
 }
@@ -1873,7 +1873,7 @@ int64x1_t vsub_s64(int64x1_t N, int64x1_t M)
     int64x1_t D;
     for (size_t i = 0; i < 1; i++)
     {
-        D.val[i] = N.val[i] - M.val[i];
+        D.val[i] = (uint64_t)N.val[i] - M.val[i];
     }
     return D;
 }
@@ -1958,7 +1958,7 @@ int32x4_t vsubq_s32(int32x4_t N, int32x4_t M)
     int32x4_t D;
     for (size_t i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] - M.val[i];
+        D.val[i] = (uint32_t)N.val[i] - M.val[i];
     }
     return D;
 }
@@ -1967,7 +1967,7 @@ int64x2_t vsubq_s64(int64x2_t N, int64x2_t M)
     int64x2_t D;
     for (size_t i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] - M.val[i];
+        D.val[i] = (uint64_t)N.val[i] - M.val[i];
     }
     return D;
 }
-- 
2.43.0


From 093bc929671f890169cac6a1c2a99f0963bbff21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:40 +0000
Subject: [PATCH 25/27] fix: vaddw/vsubw on signed lanes wrap without signed
 overflow

---
 neon_sim.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index b4a36fc..f42a0cd 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -1437,7 +1437,7 @@ int32x4_t vaddw_s16(int32x4_t a, int16x4_t b)
     int32x4_t r;
     for (int i = 0; i < 4; i++)
     {
-        r.val[i] =  a.val[i] + b.val[i];
+        r.val[i] =  (uint32_t)a.val[i] + b.val[i];
     }
     return r;
 }
@@ -1447,7 +1447,7 @@ int64x2_t vaddw_s32(int64x2_t a, int32x2_t b)
     int64x2_t r;
     for (int i = 0; i < 2; i++)
     {
-        r.val[i] =  a.val[i] + b.val[i];
+        r.val[i] =  (uint64_t)a.val[i] + b.val[i];
     }
     return r;
 }
@@ -1500,7 +1500,7 @@ int32x4_t vaddw_high_s16(int32x4_t a, int16x8_t b)
     const int ofs = 4;
     for (int i = 0; i < 4; i++)
     {
-        r.val[i] =  a.val[i] + b.val[ofs + i];
+        r.val[i] =  (uint32_t)a.val[i] + b.val[ofs + i];
     }
     return r;
 }
@@ -1511,7 +1511,7 @@ int64x2_t vaddw_high_s32(int64x2_t a, int32x4_t b)
     const int ofs = 2;
     for (int i = 0; i < 2; i++)
     {
-        r.val[i] =  a.val[i] + b.val[ofs + i];
+        r.val[i] =  (uint64_t)a.val[i] + b.val[ofs + i];
     }
     return r;
 }
@@ -2367,7 +2367,7 @@ int32x4_t vsubw_s16(int32x4_t N, int16x4_t M)
     int32x4_t D;
     for (size_t i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] - (int32_t)(M.val[i]);
+        D.val[i] = (uint32_t)N.val[i] - (int32_t)(M.val[i]);
     }
     return D;
 }
@@ -2377,7 +2377,7 @@ int64x2_t vsubw_s32(int64x2_t N, int32x2_t M)
     int64x2_t D;
     for (size_t i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] - (int64_t)(M.val[i]);
+        D.val[i] = (uint64_t)N.val[i] - (int64_t)(M.val[i]);
     }
     return D;
 }
-- 
2.43.0


From d4ab3638bdf3557923edf1c26fbcdc11f146618a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:43 +0000
Subject: [PATCH 26/27] fix: vaddhn_high/vsubhn/vrsubhn on signed lanes wrap
 without signed overflow

---
 neon_sim.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index f42a0cd..3dc4606 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -1568,7 +1568,7 @@ int16x8_t vaddhn_high_s32(int16x4_t r, int32x4_t a, int32x4_t b)
     for (int i = 0; i < 4; i++)
         ret.val[i] = r.val[i];
     for (int i = 0; i < 4; i++)
-        ret.val[i + 4] = (int16_t)((a.val[i] + b.val[i]) >> 16);
+        ret.val[i + 4] = (int16_t)(((uint32_t)a.val[i] + b.val[i]) >> 16);
     return ret;
 }
 
@@ -1578,7 +1578,7 @@ int32x4_t vaddhn_high_s64(int32x2_t r, int64x2_t a, int64x2_t b)
     for (int i = 0; i < 2; i++)
         ret.val[i] = r.val[i];
     for (int i = 0; i < 2; i++)
-        ret.val[i + 2] = (int32_t)((a.val[i] + b.val[i]) >> 32);
+        ret.val[i + 2] = (int32_t)(((uint64_t)a.val[i] + b.val[i]) >> 32);
     return ret;
 }
 
@@ -2034,7 +2034,7 @@ int16x4_t vsubhn_s32(int32x4_t N, int32x4_t M)
     int16x4_t D;
     for (size_t i = 0; i < 4; i++)
     {
-        D.val[i] = (N.val[i] - M.val[i]) >> 16;
+        D.val[i] = ((uint32_t)N.val[i] - M.val[i]) >> 16;
     }
     return D;
 }
@@ -2044,7 +2044,7 @@ int32x2_t vsubhn_s64(int64x2_t N, int64x2_t M)
     int32x2_t D;
     for (size_t i = 0; i < 2; i++)
     {
-        D.val[i] = (N.val[i] - M.val[i]) >> 32;
+        D.val[i] = ((uint64_t)N.val[i] - M.val[i]) >> 32;
     }
     return D;
 }
@@ -2672,7 +2672,7 @@ int16x4_t vrsubhn_s32(int32x4_t N, int32x4_t M)
     const int32_t delta = (1 << (shift - 1));
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = (N.val[i] - M.val[i] + delta) >> shift;
+        D.val[i] = ((uint32_t)N.val[i] - M.val[i] + delta) >> shift;
     }
     return D;
 }
@@ -2684,7 +2684,7 @@ int32x2_t vrsubhn_s64(int64x2_t N, int64x2_t M)
     const int64_t delta = ((int64_t)1 << (shift - 1));
     for (int i = 0; i < 2; i++)
     {
-        D.val[i] = (N.val[i] - M.val[i] + delta) >> shift;
+        D.val[i] = ((uint64_t)N.val[i] - M.val[i] + delta) >> shift;
     }
     return D;
 }
-- 
2.43.0


From 5098f533bc3397c15b54eec323b7af389ab91c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:46 +0000
Subject: [PATCH 27/27] fix: multiplies and vshlq_n_s32 wrap without signed
 overflow

---
 neon_sim.cpp | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 3dc4606..0acf9f7 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -2751,7 +2751,7 @@ int32x2_t vmul_s32(int32x2_t N, int32x2_t M)
     int32x2_t D;
     for (int i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] * M.val[i];
+        D.val[i] = (uint32_t)N.val[i] * M.val[i];
     }
     return D;
 }
@@ -2771,7 +2771,7 @@ uint16x4_t vmul_u16(uint16x4_t N, uint16x4_t M)
     uint16x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] * M.val[i];
+        D.val[i] = (uint32_t)N.val[i] * M.val[i];
     }
     return D;
 }
@@ -2810,7 +2810,7 @@ int32x4_t vmulq_s32(int32x4_t N, int32x4_t M)
     int32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] * M.val[i];
+        D.val[i] = (uint32_t)N.val[i] * M.val[i];
     }
     return D;
 }
@@ -2828,7 +2828,7 @@ uint16x8_t vmulq_u16(uint16x8_t N, uint16x8_t M)
     uint16x8_t D;
     for (int i = 0; i < 8; i++)
     {
-        D.val[i] = N.val[i] * M.val[i];
+        D.val[i] = (uint32_t)N.val[i] * M.val[i];
     }
     return D;
 }
@@ -2868,7 +2868,7 @@ int32x2_t vmul_n_s32(int32x2_t N, int32_t M)
     int32x2_t D;
     for (int i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] * M;
+        D.val[i] = (uint32_t)N.val[i] * M;
     }
     return D;
 }
@@ -2878,7 +2878,7 @@ uint16x4_t vmul_n_u16(uint16x4_t N, uint16_t M)
     uint16x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] * M;
+        D.val[i] = (uint32_t)N.val[i] * M;
     }
     return D;
 }
@@ -2931,7 +2931,7 @@ int32x4_t vmulq_n_s32(int32x4_t N, int32_t M)
     int32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] * M;
+        D.val[i] = (uint32_t)N.val[i] * M;
     }
     return D;
 }
@@ -2941,7 +2941,7 @@ uint16x8_t vmulq_n_u16(uint16x8_t N, uint16_t M)
     uint16x8_t D;
     for (int i = 0; i < 8; i++)
     {
-        D.val[i] = N.val[i] * M;
+        D.val[i] = (uint32_t)N.val[i] * M;
     }
     return D;
 }
@@ -2993,7 +2993,7 @@ uint32x4_t vmull_u16(uint16x4_t a, uint16x4_t b)
     uint32x4_t r;
     for (int i = 0; i < 4; i++)
     {
-        r.val[i] =  a.val[i] * b.val[i];
+        r.val[i] =  (uint32_t)a.val[i] * b.val[i];
     }
     return r;
 }
@@ -3061,7 +3061,7 @@ uint32x4_t vmull_n_u16(uint16x4_t N, uint16_t M)
     uint32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] * M;
+        D.val[i] = (uint32_t)N.val[i] * M;
     }
     return D;
 }
@@ -3111,7 +3111,7 @@ int32x4_t vmlal_s16(int32x4_t N, int16x4_t M, int16x4_t P)
     int32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] + (M.val[i] * P.val[i]);
+        D.val[i] = (uint32_t)N.val[i] + (M.val[i] * P.val[i]);
     }
     return D;
 }
@@ -3121,7 +3121,7 @@ int64x2_t vmlal_s32(int64x2_t N, int32x2_t M, int32x2_t P)
     int64x2_t D;
     for (int i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] + ((int64_t)M.val[i] * P.val[i]);
+        D.val[i] = (uint64_t)N.val[i] + ((int64_t)M.val[i] * P.val[i]);
     }
     return D;
 }
@@ -3141,7 +3141,7 @@ uint32x4_t vmlal_u16(uint32x4_t N, uint16x4_t M, uint16x4_t P)
     uint32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] + (M.val[i] * P.val[i]);
+        D.val[i] = N.val[i] + ((uint32_t)M.val[i] * P.val[i]);
     }
     return D;
 }
@@ -3172,7 +3172,7 @@ int32x4_t vmlsl_s16(int32x4_t N, int16x4_t M, int16x4_t P)
     int32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] - (M.val[i] * P.val[i]);
+        D.val[i] = (uint32_t)N.val[i] - (M.val[i] * P.val[i]);
     }
     return D;
 }
@@ -3182,7 +3182,7 @@ int64x2_t vmlsl_s32(int64x2_t N, int32x2_t M, int32x2_t P)
     int64x2_t D;
     for (int i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] - ((int64_t)M.val[i] * P.val[i]);
+        D.val[i] = (uint64_t)N.val[i] - ((int64_t)M.val[i] * P.val[i]);
     }
     return D;
 }
@@ -3202,7 +3202,7 @@ uint32x4_t vmlsl_u16(uint32x4_t N, uint16x4_t M, uint16x4_t P)
     uint32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] - (M.val[i] * P.val[i]);
+        D.val[i] = N.val[i] - ((uint32_t)M.val[i] * P.val[i]);
     }
     return D;
 }
@@ -3243,7 +3243,7 @@ int32x4_t vmlaq_s32(int32x4_t N, int32x4_t M, int32x4_t P)
     int32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] + M.val[i] * P.val[i];
+        D.val[i] = (uint32_t)N.val[i] + (uint32_t)M.val[i] * P.val[i];
     }
     return D;
 }
@@ -3263,7 +3263,7 @@ uint16x8_t vmlaq_u16(uint16x8_t N, uint16x8_t M, uint16x8_t P)
     uint16x8_t D;
     for (int i = 0; i < 8; i++)
     {
-        D.val[i] = N.val[i] + M.val[i] * P.val[i];
+        D.val[i] = N.val[i] + (uint32_t)M.val[i] * P.val[i];
     }
     return D;
 }
@@ -4089,7 +4089,7 @@ int32x4_t vshlq_n_s32(int32x4_t M, const int n)
     int32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = M.val[i] << n;
+        D.val[i] = (uint32_t)M.val[i] << n;
     }
     return D;
 }
-- 
2.43.0

