From ece2da953ec65267f1a468aa44fcc5b8c900be5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:57 +0000
Subject: [PATCH 01/10] fix: keep the sticky bit of the product in generic fma

When z is much larger than x * y, the product is shifted right to align with
z. The sticky bit was computed from the already shifted low word, so the bits
that were shifted out did not count. A product slightly above half an ulp of z
was then treated as an exact tie.
---
 libm/src/math/generic/fma.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/libm/src/math/generic/fma.rs b/libm/src/math/generic/fma.rs
index aaf459d..803f6db 100644
--- a/libm/src/math/generic/fma.rs
+++ b/libm/src/math/generic/fma.rs
@@ -71,9 +71,8 @@ where
                 // Exactly `sbits`, nothing to do
             } else if d < sbits {
                 // Remaining shift fits within `sbits`. Leave `z` in place, shift `x * y`
-                rlo = (rhi << (sbits - d)) | (rlo >> d);
-                // Set the sticky bit
-                rlo |= IntTy::<F>::from((rlo << (sbits - d)) != zero);
+                let sticky = IntTy::<F>::from((rlo << (sbits - d)) != zero);
+                rlo = (rhi << (sbits - d)) | (rlo >> d) | sticky;
                 rhi = rhi >> d;
             } else {
                 // `z`'s magnitude is enough that `x * y` is irrelevant. It was nonzero, so set
-- 
2.43.0


From 12704825be412125c05f4c0e73bbbd54b18f2a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:57 +0000
Subject: [PATCH 02/10] fix: round subnormal results of fma_wide only once

The result in the wider type is nudged away from a halfway point before it is
narrowed, but the halfway point was only looked for at the position it has for
normal results. Subnormal results could be rounded twice.
---
 libm/src/math/generic/fma_wide.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libm/src/math/generic/fma_wide.rs b/libm/src/math/generic/fma_wide.rs
index e7d5406..3f73a97 100644
--- a/libm/src/math/generic/fma_wide.rs
+++ b/libm/src/math/generic/fma_wide.rs
@@ -28,8 +28,10 @@ where
     let halfway = one << (prec_diff - 1);
 
     // Common case: the larger precision is fine if...
-    // This is not a halfway case
-    if excess_prec != halfway
+    // This is not a halfway case. The halfway point of subnormal results is elsewhere, but never
+    // at an odd value.
+    if (excess_prec != halfway && re >= (B::EXP_BIAS as i32 + F::EXP_MIN) as u32)
+        || ui & one == one
         // Or the result is NaN
         || re == B::EXP_SAT
         // Or the result is exact
-- 
2.43.0


From db4d4c3f2e10c001cbda02884abe68d28ea6e974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:57 +0000
Subject: [PATCH 03/10] fix: avoid overflow panic in hypot with overflow checks

The differences are meant to be taken modulo 2^64, as in the original C code.
Inputs that need the exact fallback could panic in debug builds.
---
 libm/src/math/hypot.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libm/src/math/hypot.rs b/libm/src/math/hypot.rs
index e8bd44c..4328c96 100644
--- a/libm/src/math/hypot.rs
+++ b/libm/src/math/hypot.rs
@@ -202,7 +202,7 @@ fn as_hypot_hard(x: f64, y: f64, flag: FExcept) -> f64 {
         rm += 1 + (rm >= (1u64 << 53)) as u64;
         let tm: u64 = rm << k;
         let rm2: u64 = tm.wrapping_mul(tm);
-        d = m2 as i64 - rm2 as i64;
+        d = m2.wrapping_sub(rm2) as i64;
 
         if d <= 0 {
             break;
@@ -213,7 +213,7 @@ fn as_hypot_hard(x: f64, y: f64, flag: FExcept) -> f64 {
         set_flags(flag);
     } else if op == om {
         let tm: u64 = (rm << k) - (1 << (k - (rm <= (1u64 << 53)) as i32));
-        d = m2 as i64 - (tm.wrapping_mul(tm)) as i64;
+        d = m2.wrapping_sub(tm.wrapping_mul(tm)) as i64;
 
         if d == 0 {
             cold_path();
-- 
2.43.0


From 0310edff0fec7ec32d6f5c74e321529774fb091e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:06:06 +0000
Subject: [PATCH 04/10] fix: saturate hexadecimal float exponents while reading
 their digits

The multiplication by ten saturated but the following addition of the digit
did not. Exponents of 2^32 and more panicked with overflow checks and wrapped
to a small exponent without them, so 0x1p4294967296 was read as 1.0.
---
 libm/src/math/support/hex_float.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/libm/src/math/support/hex_float.rs b/libm/src/math/support/hex_float.rs
index 607ba79..f68a185 100644
--- a/libm/src/math/support/hex_float.rs
+++ b/libm/src/math/support/hex_float.rs
@@ -291,8 +291,7 @@ const fn parse_hex(mut b: &[u8]) -> Result<Parsed, HexFloatParseError> {
             None => return Err(HexFloatParseError("expected decimal digit")),
         };
         some_digits = true;
-        pexp = pexp.saturating_mul(10);
-        pexp += digit as u32;
+        pexp = pexp.saturating_mul(10).saturating_add(digit as u32);
     }
 
     if !some_digits {
-- 
2.43.0


From 90159e701635d3128341580b4119fac4fddbdae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:07:21 +0000
Subject: [PATCH 05/10] fix: report overflow for hexadecimal floats with
 enormous exponents

Adding the rounding adjustment to a saturated exponent overflowed, and the
exponent field was shifted without checking that it fits, which dropped its
high bits for 128-bit formats: 0x1p65536 was read as 1.0 with status OK.
---
 libm/src/math/support/hex_float.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/libm/src/math/support/hex_float.rs b/libm/src/math/support/hex_float.rs
index f68a185..cc799e3 100644
--- a/libm/src/math/support/hex_float.rs
+++ b/libm/src/math/support/hex_float.rs
@@ -112,6 +112,8 @@ const fn parse_finite(
     sig_bits: u32,
     rounding_mode: Round,
 ) -> Result<(u128, Status), HexFloatParseError> {
+    const MAX_EXP: i32 = 1 << 30;
+
     let exp_bits: u32 = bits - sig_bits - 1;
     let max_msb: i32 = (1 << (exp_bits - 1)) - 1;
     // The exponent of one ULP in the subnormals
@@ -120,6 +122,10 @@ const fn parse_finite(
     let (mut sig, mut exp) = match parse_hex(b) {
         Err(e) => return Err(e),
         Ok(Parsed { sig: 0, .. }) => return Ok((0, Status::OK)),
+        // Saturated far beyond any supported exponent range so that the adjustments below cannot
+        // overflow.
+        Ok(Parsed { sig, exp }) if exp > MAX_EXP => (sig, MAX_EXP),
+        Ok(Parsed { sig, exp }) if exp < -MAX_EXP => (sig, -MAX_EXP),
         Ok(Parsed { sig, exp }) => (sig, exp),
     };
 
@@ -154,7 +160,11 @@ const fn parse_finite(
     // The parsed value is X = sig * 2^exp
     // Expressed as a multiple U of the smallest subnormal value:
     // X = U * 2^min_lsb, so U = sig * 2^(exp-min_lsb)
-    let uexp = (exp - min_lsb) as u128;
+    let mut uexp = (exp - min_lsb) as u128;
+    if uexp >> exp_bits != 0 {
+        // Certain to overflow, don't let the shift drop any of the high bits.
+        uexp = 1 << exp_bits;
+    }
     let uexp = uexp << sig_bits;
 
     // Note that it is possible for the exponent bits to equal 2 here
-- 
2.43.0


From 72a34f210d76eb9ee85f984acb882c7fc45296a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:07:26 +0000
Subject: [PATCH 06/10] fix: do not report a NaN passed to rint as an inexact
 result

The status was derived from res == x, which is false for NaN. ceil, floor and
trunc already report OK there.
---
 libm/src/math/generic/rint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libm/src/math/generic/rint.rs b/libm/src/math/generic/rint.rs
index aa3d94e..2ab5d0c 100644
--- a/libm/src/math/generic/rint.rs
+++ b/libm/src/math/generic/rint.rs
@@ -41,7 +41,7 @@ pub fn rint_status<F: Float>(x: F) -> FpResult<F> {
         }
     };
 
-    let status = if res == x {
+    let status = if res == x || x.is_nan() {
         Status::OK
     } else {
         Status::INEXACT
-- 
2.43.0


From 6b2751c489850f421b8c02b59231de7ee0ea42cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:43:10 +0000
Subject: [PATCH 07/10] fix: powf underflow and overflow cut-off for bases just
 below one

For |y| > 2^27 any x below 0x3f7ffff8 was taken to overflow or underflow.
That is only true when |1-x| is at least 13 * 2^-24: for example
powf(0x3f7ffff7, 2^27 + 16) is about 5e-32 but returned zero.
---
 libm/src/math/powf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libm/src/math/powf.rs b/libm/src/math/powf.rs
index 17772ae..2bfa186 100644
--- a/libm/src/math/powf.rs
+++ b/libm/src/math/powf.rs
@@ -181,7 +181,7 @@ pub fn powf(x: f32, y: f32) -> f32 {
     if iy > 0x4d000000 {
         /* if |y| > 2**27 */
         /* over/underflow if x is not close to one */
-        if ix < 0x3f7ffff8 {
+        if ix < 0x3f7ffff4 {
             return if hy < 0 {
                 sn * HUGE * HUGE
             } else {
-- 
2.43.0


From a23562a781cb30ec50f24e359eb84b90ba4cb365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:43:10 +0000
Subject: [PATCH 08/10] fix: loss of accuracy in pow for |y| > 2^31 and bases
 close to one

The product IVLN2_H * t was assumed to be exact, but t = ax - 1 can have
32 significant bits and IVLN2_H has 23.  The rounding error is multiplied
by y and reached hundreds of ULP, e.g. pow(0x3fefffffbfffffff, 2.3e9).
Split t so that the leading product is exact.
---
 libm/src/math/pow.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libm/src/math/pow.rs b/libm/src/math/pow.rs
index 87eaab3..548916c 100644
--- a/libm/src/math/pow.rs
+++ b/libm/src/math/pow.rs
@@ -257,8 +257,9 @@ pub fn pow(x: f64, y: f64) -> f64 {
         log(x) by x-x^2/2+x^3/3-x^4/4 */
         let t: f64 = ax - 1.0; /* t has 20 trailing zeros */
         let w: f64 = (t * t) * (0.5 - t * (0.3333333333333333333333 - t * 0.25));
-        let u: f64 = IVLN2_H * t; /* ivln2_h has 21 sig. bits */
-        let v: f64 = t * IVLN2_L - w * IVLN2;
+        let t_h: f64 = with_set_low_word(t, 0);
+        let u: f64 = IVLN2_H * t_h; /* exact: ivln2_h has 23 sig. bits, t_h 21 */
+        let v: f64 = IVLN2_H * (t - t_h) + (t * IVLN2_L - w * IVLN2);
         t1 = with_set_low_word(u + v, 0);
         t2 = v - (t1 - u);
     } else {
-- 
2.43.0


From 4c07a7313a020ea78dd14ab20a9ee84007d7ac17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:14:41 +0000
Subject: [PATCH 09/10] fix: report FMA4 only when the OS saves AVX state

FMA4 instructions are VEX-encoded and raise an invalid-opcode exception
unless the operating system has enabled the AVX state, as FMA ones do.
On an AMD processor with FMA4 under such a system fma and fmaf crashed.
---
 libm/src/math/arch/x86/detect.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libm/src/math/arch/x86/detect.rs b/libm/src/math/arch/x86/detect.rs
index 983818b..5fa6944 100644
--- a/libm/src/math/arch/x86/detect.rs
+++ b/libm/src/math/arch/x86/detect.rs
@@ -118,6 +118,7 @@ fn load_x86_features() -> Flags {
     enable(extended_features_eax_leaf_1, 31, cpu_flags::MOVRS);
 
     // `XSAVE` and `AVX` support:
+    let mut os_avx_support = false;
     let cpu_xsave = proc_info_ecx.test_nth(26);
     if cpu_xsave {
         // 0. Here the CPU supports `XSAVE`.
@@ -147,7 +148,7 @@ fn load_x86_features() -> Flags {
             // This is safe because the CPU supports `xsave` and the OS has set `osxsave`.
             let xcr0 = unsafe { _xgetbv(0) };
             // Test `XCR0.SSE[1]` and `XCR0.AVX[2]` with the mask `0b110 == 6`:
-            let os_avx_support = xcr0 & 6 == 6;
+            os_avx_support = xcr0 & 6 == 6;
             // Test `XCR0.AVX-512[7:5]` with the mask `0b1110_0000 == 0xe0`:
             let os_avx512_support = xcr0 & 0xe0 == 0xe0;
 
@@ -188,7 +189,9 @@ fn load_x86_features() -> Flags {
     // (AMD64 Architecture Programmer's Manual, Appendix E).
     // Related Hygon kernel patch can be found on
     // http://lkml.kernel.org/r/5ce86123a7b9dad925ac583d88d2f921040e859b.1538583282.git.puwen@hygon.cn
-    if vendor_id == *b"AuthenticAMD" || vendor_id == *b"HygonGenuine" {
+    //
+    // FMA4 instructions are VEX-encoded, so like FMA they need the OS to support AVX state.
+    if os_avx_support && (vendor_id == *b"AuthenticAMD" || vendor_id == *b"HygonGenuine") {
         // These features are available on AMD arch CPUs:
         enable(extended_proc_info_ecx, 16, cpu_flags::FMA4);
     }
-- 
2.43.0


From fdeb5378791d04c50b3b989bbbe1b11373cd7a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:29:28 +0000
Subject: [PATCH 10/10] fix: keep registers intact when the x86 UEFI stack
 probe is called with a small frame

The return address was moved below the new frame before the saved
registers were popped. With a frame of 4 to 15 bytes, which dynamic
stack allocation can request, it landed on a saved register, so ebp,
ecx or edx came back with another value.
---
 compiler-builtins/src/probestack.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/compiler-builtins/src/probestack.rs b/compiler-builtins/src/probestack.rs
index c4a2eeb..56960bb 100644
--- a/compiler-builtins/src/probestack.rs
+++ b/compiler-builtins/src/probestack.rs
@@ -189,7 +189,6 @@ pub unsafe extern "custom" fn __rust_probestack() {
             mov    ebp, esp
             .cfi_def_cfa_register ebp
             push   ecx
-            push   edx
             mov    ecx, eax
 
             cmp    ecx, 0x1000
@@ -204,16 +203,18 @@ pub unsafe extern "custom" fn __rust_probestack() {
         3:
             sub    esp, ecx
             test   dword ptr [esp + 8], esp
-            mov    edx, dword ptr [ebp + 4]
-            mov    dword ptr [esp + 12], edx
             add    esp, eax
-            pop    edx
             pop    ecx
             leave
-
-            sub   esp, eax
             .cfi_def_cfa_register esp
             .cfi_adjust_cfa_offset -4
+
+            // Allocate the frame and return. The return address is only moved once
+            // the saved registers are restored, since for a frame smaller than the
+            // save area it would otherwise overwrite one of them.
+            lea    esp, [esp + 4]
+            sub    esp, eax
+            push   dword ptr [esp + eax - 4]
             ret
             .cfi_endproc
         ",
-- 
2.43.0

