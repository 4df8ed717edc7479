From 965ce9e57fb1c0c7776ffd069dd0b68fa540327f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:04:17 +0000
Subject: [PATCH 1/4] fix: keep the bits shifted out of the product as the
 sticky bit in fma

When the addend dominates, the product is shifted right before the addition.
The sticky bit was taken from the already shifted low half, so the bits shifted
out were lost and sums next to a tie were rounded the wrong way (f64 and f128).
Example in f64 bit patterns: fma(c88dbfbbf89369b9, cd8135ef6c36d419,
d980000000000000) gave d980000000000000, the correct result is d97fffffffffffff.
---
 libm/src/math/generic/fma.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libm/src/math/generic/fma.rs b/libm/src/math/generic/fma.rs
index aaf459d..54feb3d 100644
--- a/libm/src/math/generic/fma.rs
+++ b/libm/src/math/generic/fma.rs
@@ -70,10 +70,10 @@ where
             if d == 0 {
                 // Exactly `sbits`, nothing to do
             } else if d < sbits {
-                // Remaining shift fits within `sbits`. Leave `z` in place, shift `x * y`
-                rlo = (rhi << (sbits - d)) | (rlo >> d);
-                // Set the sticky bit
-                rlo |= IntTy::<F>::from((rlo << (sbits - d)) != zero);
+                // Remaining shift fits within `sbits`. Leave `z` in place, shift `x * y`. Bits that
+                // get shifted out only set the sticky bit.
+                let sticky = IntTy::<F>::from((rlo << (sbits - d)) != zero);
+                rlo = (rhi << (sbits - d)) | (rlo >> d) | sticky;
                 rhi = rhi >> d;
             } else {
                 // `z`'s magnitude is enough that `x * y` is irrelevant. It was nonzero, so set
-- 
2.43.0


From 4966611debc074c303a395e701924924796f3249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:06:28 +0000
Subject: [PATCH 2/4] fix: avoid double rounding of subnormal results in fmaf

The f64 sum is corrected only if it is halfway between two normal f32 values.
Subnormal results keep fewer bits, so their halfway cases were missed.
Example in f32 bit patterns: fmaf(0513d940, 2edda1d0, 80800000) gave 80800000,
the correct result is 807fffff.
---
 libm/src/math/generic/fma_wide.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libm/src/math/generic/fma_wide.rs b/libm/src/math/generic/fma_wide.rs
index e7d5406..16ae138 100644
--- a/libm/src/math/generic/fma_wide.rs
+++ b/libm/src/math/generic/fma_wide.rs
@@ -27,9 +27,15 @@ where
     let excess_prec = ui & ((one << prec_diff) - one);
     let halfway = one << (prec_diff - 1);
 
+    // If the narrowed result is subnormal it keeps fewer bits, so any even significand may turn
+    // out to be a halfway case.
+    let min_normal_exp = (B::EXP_BIAS as i32 + F::EXP_MIN) as u32;
+    let is_halfway =
+        excess_prec == halfway || (re < min_normal_exp && ui & one == IntTy::<B>::ZERO);
+
     // Common case: the larger precision is fine if...
     // This is not a halfway case
-    if excess_prec != halfway
+    if !is_halfway
         // Or the result is NaN
         || re == B::EXP_SAT
         // Or the result is exact
-- 
2.43.0


From 92029c1df7b00aacd33721edd147ded5182ae8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:25:23 +0000
Subject: [PATCH 3/4] fix: require operating system support for AVX state
 before selecting FMA4

FMA4 instructions are VEX encoded. They raise an invalid opcode fault unless the
operating system has enabled the AVX register state, so the feature bit alone is
not enough to select them.
---
 libm/src/math/arch/x86/detect.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libm/src/math/arch/x86/detect.rs b/libm/src/math/arch/x86/detect.rs
index 983818b..a6a71c4 100644
--- a/libm/src/math/arch/x86/detect.rs
+++ b/libm/src/math/arch/x86/detect.rs
@@ -119,6 +119,7 @@ fn load_x86_features() -> Flags {
 
     // `XSAVE` and `AVX` support:
     let cpu_xsave = proc_info_ecx.test_nth(26);
+    let mut os_avx_support = false;
     if cpu_xsave {
         // 0. Here the CPU supports `XSAVE`.
 
@@ -147,7 +148,7 @@ fn load_x86_features() -> Flags {
             // This is safe because the CPU supports `xsave` and the OS has set `osxsave`.
             let xcr0 = unsafe { _xgetbv(0) };
             // Test `XCR0.SSE[1]` and `XCR0.AVX[2]` with the mask `0b110 == 6`:
-            let os_avx_support = xcr0 & 6 == 6;
+            os_avx_support = xcr0 & 6 == 6;
             // Test `XCR0.AVX-512[7:5]` with the mask `0b1110_0000 == 0xe0`:
             let os_avx512_support = xcr0 & 0xe0 == 0xe0;
 
@@ -190,7 +191,11 @@ fn load_x86_features() -> Flags {
     // http://lkml.kernel.org/r/5ce86123a7b9dad925ac583d88d2f921040e859b.1538583282.git.puwen@hygon.cn
     if vendor_id == *b"AuthenticAMD" || vendor_id == *b"HygonGenuine" {
         // These features are available on AMD arch CPUs:
-        enable(extended_proc_info_ecx, 16, cpu_flags::FMA4);
+        //
+        // FMA4 instructions are VEX encoded, they fault unless the OS enabled AVX state.
+        if os_avx_support {
+            enable(extended_proc_info_ecx, 16, cpu_flags::FMA4);
+        }
     }
 
     value
-- 
2.43.0


From b314bde30e05f6f544cd422f4ce3f5c7bb2fa177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:47:45 +0000
Subject: [PATCH 4/4] fix: keep huge exponents of hexadecimal float literals
 from overflowing

---
 libm/src/math/support/hex_float.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/libm/src/math/support/hex_float.rs b/libm/src/math/support/hex_float.rs
index 607ba79..f0e97dd 100644
--- a/libm/src/math/support/hex_float.rs
+++ b/libm/src/math/support/hex_float.rs
@@ -123,6 +123,14 @@ const fn parse_finite(
         Ok(Parsed { sig, exp }) => (sig, exp),
     };
 
+    // Any nonzero value this large overflows and any value this small is less than half
+    // of the least subnormal, so the exponent can be limited to keep it from overflowing.
+    if exp > max_msb + 1 {
+        exp = max_msb + 1;
+    } else if exp < min_lsb - 130 {
+        exp = min_lsb - 130;
+    }
+
     let mut round_bits = sig.ilog2() as i32 - sig_bits as i32;
 
     // Round at least up to min_lsb
@@ -291,8 +299,7 @@ const fn parse_hex(mut b: &[u8]) -> Result<Parsed, HexFloatParseError> {
             None => return Err(HexFloatParseError("expected decimal digit")),
         };
         some_digits = true;
-        pexp = pexp.saturating_mul(10);
-        pexp += digit as u32;
+        pexp = pexp.saturating_mul(10).saturating_add(digit as u32);
     }
 
     if !some_digits {
-- 
2.43.0

