From 88280c117c3697e82e0c92d2f7b0db7dc0787384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:53 +0000
Subject: [PATCH 1/7] fix: x86: cfg_has_atomic_cas is false when
 compare_exchange is unavailable (no_cmpxchg)

---
 src/arch/cfgs/x86.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/arch/cfgs/x86.rs b/src/arch/cfgs/x86.rs
index bb374de..9222941 100644
--- a/src/arch/cfgs/x86.rs
+++ b/src/arch/cfgs/x86.rs
@@ -78,11 +78,24 @@ macro_rules! cfg_has_atomic_128 {
 macro_rules! cfg_no_atomic_128 {
     ($($tt:tt)*) => {};
 }
+// See x86.rs: compare_exchange is not available on 80386, which has no CMPXCHG instruction.
+#[cfg(not(all(target_arch = "x86", atomic_maybe_uninit_no_cmpxchg)))]
 #[macro_export]
 macro_rules! cfg_has_atomic_cas {
     ($($tt:tt)*) => { $($tt)* };
 }
+#[cfg(not(all(target_arch = "x86", atomic_maybe_uninit_no_cmpxchg)))]
 #[macro_export]
 macro_rules! cfg_no_atomic_cas {
     ($($tt:tt)*) => {};
 }
+#[cfg(all(target_arch = "x86", atomic_maybe_uninit_no_cmpxchg))]
+#[macro_export]
+macro_rules! cfg_has_atomic_cas {
+    ($($tt:tt)*) => {};
+}
+#[cfg(all(target_arch = "x86", atomic_maybe_uninit_no_cmpxchg))]
+#[macro_export]
+macro_rules! cfg_no_atomic_cas {
+    ($($tt:tt)*) => { $($tt)* };
+}
-- 
2.43.0


From 9d1165c4e48531df12fcb47313e9aef26e1c004b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:20 +0000
Subject: [PATCH 2/7] fix: riscv64: sign-extend old in 32-bit compare_exchange

lr.w sign-extends the loaded value, and the comparison is on the full
64-bit register, but the upper bits of the register holding a 32-bit
inline-asm input are undefined. compare_exchange could therefore fail
although the value is equal (e.g. old = (x: u64) as u32).
---
 src/arch/riscv.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/arch/riscv.rs b/src/arch/riscv.rs
index a7392e2..a48baa5 100644
--- a/src/arch/riscv.rs
+++ b/src/arch/riscv.rs
@@ -205,6 +205,11 @@ macro_rules! atomic_swap {
 #[rustfmt::skip]
 macro_rules! atomic {
     ($ty:ident, $size:tt) => {
+        atomic!($ty, $size, "");
+    };
+    // $old_ext: sign-extends `old` in the same way as lr.w does, if the value is smaller than the register.
+    // (The upper bits of the register of a smaller input are undefined.)
+    ($ty:ident, $size:tt, $old_ext:tt) => {
         atomic_load_store!($ty, $size);
         atomic_swap!($ty, $size);
         #[cfg(any(target_feature = "a", atomic_maybe_uninit_target_feature = "a"))]
@@ -227,6 +232,7 @@ macro_rules! atomic {
                     macro_rules! cmpxchg {
                         ($acquire:tt, $release:tt) => {
                             asm!(
+                                $old_ext,                                                     // old = sign_extend(old)
                                 "2:", // 'retry:
                                     concat!("lr.", $size, $acquire, " {out}, 0({dst})"),      // atomic { out = *dst; RS = dst }
                                     "bne {out}, {old}, 3f",                                   // if out != old { jump 'cmp-fail }
@@ -236,7 +242,7 @@ macro_rules! atomic {
                                 "xor {r}, {out}, {old}",                                      // r = out ^ old
                                 "seqz {r}, {r}",                                              // if r == 0 { r = 1 } else { r = 0 }
                                 dst = in(reg) ptr_reg!(dst),
-                                old = in(reg) old,
+                                old = inout(reg) old => _,
                                 new = in(reg) new,
                                 out = out(reg) out,
                                 r = out(reg) r,
@@ -370,9 +376,15 @@ atomic_sub_word!(i8, "b");
 atomic_sub_word!(u8, "b");
 atomic_sub_word!(i16, "h");
 atomic_sub_word!(u16, "h");
+#[cfg(target_arch = "riscv32")]
 atomic!(i32, "w");
+#[cfg(target_arch = "riscv32")]
 atomic!(u32, "w");
 #[cfg(target_arch = "riscv64")]
+atomic!(i32, "w", "sext.w {old}, {old}");
+#[cfg(target_arch = "riscv64")]
+atomic!(u32, "w", "sext.w {old}, {old}");
+#[cfg(target_arch = "riscv64")]
 atomic!(i64, "d");
 #[cfg(target_arch = "riscv64")]
 atomic!(u64, "d");
-- 
2.43.0


From 8347844906d12e7a6150e23ba594bcaa4f80a3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:20 +0000
Subject: [PATCH 3/7] fix: loongarch64: sign-extend old in 32-bit
 compare_exchange

ll.w sign-extends the loaded value, and the comparison is on the full
64-bit register, but the upper bits of the register holding a 32-bit
inline-asm input are undefined. compare_exchange could therefore fail
although the value is equal.
---
 src/arch/loongarch.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/arch/loongarch.rs b/src/arch/loongarch.rs
index e8fe47f..1987b8a 100644
--- a/src/arch/loongarch.rs
+++ b/src/arch/loongarch.rs
@@ -61,6 +61,11 @@ macro_rules! atomic_load {
 
 macro_rules! atomic {
     ($ty:ident, $size:tt) => {
+        atomic!($ty, $size, "");
+    };
+    // $old_ext: sign-extends `old` in the same way as ll.w does, if the value is smaller than the register.
+    // (The upper bits of the register of a smaller input are undefined.)
+    ($ty:ident, $size:tt, $old_ext:tt) => {
         atomic_load!($ty, $size);
         impl AtomicStore for $ty {
             #[inline]
@@ -137,6 +142,7 @@ macro_rules! atomic {
                     macro_rules! cmpxchg {
                         ($failure_fence:tt) => {
                             asm!(
+                                $old_ext,                                      // old = sign_extend(old)
                                 "2:", // 'retry:
                                     concat!("ll.", $size, " {out}, {dst}, 0"), // atomic { out = *dst; LL = dst }
                                     "bne {out}, {old}, 3f",                    // if out != old { jump 'cmp-fail }
@@ -149,7 +155,7 @@ macro_rules! atomic {
                                     "move {tmp}, $zero",                       // tmp = 0
                                 "4:", // 'success:
                                 dst = in(reg) ptr_reg!(dst),
-                                old = in(reg) old,
+                                old = inout(reg) old => _,
                                 new = in(reg) new,
                                 out = out(reg) out,
                                 tmp = out(reg) r,
@@ -314,9 +320,15 @@ atomic_sub_word!(i8, "b");
 atomic_sub_word!(u8, "b");
 atomic_sub_word!(i16, "h");
 atomic_sub_word!(u16, "h");
+#[cfg(not(target_arch = "loongarch64"))]
 atomic!(i32, "w");
+#[cfg(not(target_arch = "loongarch64"))]
 atomic!(u32, "w");
 #[cfg(target_arch = "loongarch64")]
+atomic!(i32, "w", "addi.w {old}, {old}, 0");
+#[cfg(target_arch = "loongarch64")]
+atomic!(u32, "w", "addi.w {old}, {old}, 0");
+#[cfg(target_arch = "loongarch64")]
 atomic!(i64, "d");
 #[cfg(target_arch = "loongarch64")]
 atomic!(u64, "d");
-- 
2.43.0


From d305c2bd1121a35920e9ff3f20479b19c721b5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:23 +0000
Subject: [PATCH 4/7] fix: arm: do not use Armv8 instructions on Armv7 when
 rustc reports target_feature "v8m"

---
 build.rs               | 2 +-
 src/arch/mod.rs        | 6 ++++--
 src/arch_legacy/mod.rs | 6 ++++--
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/build.rs b/build.rs
index a6d5cbf..fee4f81 100644
--- a/build.rs
+++ b/build.rs
@@ -30,7 +30,7 @@ fn main() {
 
     if version.minor >= 80 {
         println!(
-            r#"cargo:rustc-check-cfg=cfg(target_feature,values("x87","v8m","fast-serialization","isa-68020"))"#
+            r#"cargo:rustc-check-cfg=cfg(target_feature,values("x87","v8m","acquire-release","fast-serialization","isa-68020"))"#
         );
 
         // Custom cfgs set by build script. Not public API.
diff --git a/src/arch/mod.rs b/src/arch/mod.rs
index 7ad4b26..31bf0ff 100644
--- a/src/arch/mod.rs
+++ b/src/arch/mod.rs
@@ -58,13 +58,15 @@ mod unsupported;
 
 #[cfg(any(target_arch = "aarch64", all(target_arch = "arm64ec", not(atomic_maybe_uninit_no_asm))))]
 mod aarch64;
+// Recent rustc also enables target_feature "v8m" on Armv7 (LLVM treats Armv6T2+ as a superset of Armv8-M
+// Baseline, except for instructions added in Armv8), so checking "v8m" alone is not enough to use LDA/STL.
 #[cfg(target_arch = "arm")]
 #[cfg(all(
     any(target_feature = "v6", atomic_maybe_uninit_target_feature = "v6"),
     not(any(
         target_feature = "v8",
         atomic_maybe_uninit_target_feature = "v8",
-        target_feature = "v8m",
+        all(target_feature = "v8m", target_feature = "acquire-release"),
         atomic_maybe_uninit_target_feature = "v8m",
     )),
 ))]
@@ -79,7 +81,7 @@ mod arm_linux;
 #[cfg(any(
     target_feature = "v8",
     atomic_maybe_uninit_target_feature = "v8",
-    target_feature = "v8m",
+    all(target_feature = "v8m", target_feature = "acquire-release"),
     atomic_maybe_uninit_target_feature = "v8m",
 ))]
 mod armv8;
diff --git a/src/arch_legacy/mod.rs b/src/arch_legacy/mod.rs
index 7713b0e..867621d 100644
--- a/src/arch_legacy/mod.rs
+++ b/src/arch_legacy/mod.rs
@@ -26,13 +26,15 @@ mod unsupported;
 
 #[cfg(target_arch = "aarch64")]
 mod aarch64;
+// Recent rustc also enables target_feature "v8m" on Armv7 (LLVM treats Armv6T2+ as a superset of Armv8-M
+// Baseline, except for instructions added in Armv8), so checking "v8m" alone is not enough to use LDA/STL.
 #[cfg(target_arch = "arm")]
 #[cfg(all(
     any(target_feature = "v6", atomic_maybe_uninit_target_feature = "v6"),
     not(any(
         target_feature = "v8",
         atomic_maybe_uninit_target_feature = "v8",
-        target_feature = "v8m",
+        all(target_feature = "v8m", target_feature = "acquire-release"),
         atomic_maybe_uninit_target_feature = "v8m",
     )),
 ))]
@@ -47,7 +49,7 @@ mod arm_linux;
 #[cfg(any(
     target_feature = "v8",
     atomic_maybe_uninit_target_feature = "v8",
-    target_feature = "v8m",
+    all(target_feature = "v8m", target_feature = "acquire-release"),
     atomic_maybe_uninit_target_feature = "v8m",
 ))]
 mod armv8;
-- 
2.43.0


From 715ad71e9c73dcf4025a0ab1f6a824f094768725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:14 +0000
Subject: [PATCH 5/7] fix: m68k: seq sets all bits of r on success of
 compare_exchange

Scc sets the destination byte to all ones when the condition is true, so
assert_unchecked(r == 0 || r == 1) was undefined behavior on every
successful compare_exchange.
---
 src/arch/m68k.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arch/m68k.rs b/src/arch/m68k.rs
index 23511d5..6aa117d 100644
--- a/src/arch/m68k.rs
+++ b/src/arch/m68k.rs
@@ -109,7 +109,7 @@ macro_rules! atomic {
                     let r: u8;
                     asm!(
                         concat!("cas.", $size, " {out}, {new}, ({dst})"), // atomic { if *dst == out { cc.Z = 1; *dst = new } else { cc.Z = 0; out = *dst } }
-                        "seq {r}",                                        // r = cc.Z
+                        "seq {r}",                                        // r = if cc.Z { !0 } else { 0 }
                         dst = in(reg_addr) ptr_reg!(dst),
                         new = in(reg_data) new,
                         out = inout(reg_data) old => out,
@@ -117,7 +117,7 @@ macro_rules! atomic {
                         // Do not use `preserves_flags` because CAS modifies N, Z, V, and C bits in the condition codes.
                         options(nostack),
                     );
-                    crate::utils::assert_unchecked(r == 0 || r == 1); // may help remove extra test
+                    crate::utils::assert_unchecked(r == 0 || r == u8::MAX); // may help remove extra test
                     (out, r != 0)
                 }
             }
-- 
2.43.0


From 856ab64271068c8d08ee0c67c573fc5902ddb03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:12 +0000
Subject: [PATCH 6/7] fix: x86 (legacy): compare_exchange clobbers all of ecx,
 not only cl

---
 src/arch_legacy/x86.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/arch_legacy/x86.rs b/src/arch_legacy/x86.rs
index bf1b920..9959bdd 100644
--- a/src/arch_legacy/x86.rs
+++ b/src/arch_legacy/x86.rs
@@ -186,7 +186,7 @@ macro_rules! atomic {
                 //
                 // Refs: https://www.felixcloutier.com/x86/cmpxchg
                 unsafe {
-                    let mut r: u8;
+                    let mut r: u32;
                     // compare_exchange is always SeqCst.
                     asm!(
                         // load from old/new to $cmpxchg_cmp_reg/$tmp_new_reg
@@ -205,11 +205,13 @@ macro_rules! atomic {
                         old = in(reg) old,
                         new = in(reg) new,
                         out = in(reg) out_ptr,
-                        out("cl") r,
+                        // $tmp_new_reg may be wider than cl, so the whole register is an output.
+                        out("ecx") r,
                         out($cmpxchg_cmp_reg) _,
                         // Do not use `preserves_flags` because CMPXCHG modifies the ZF flag.
                         options(nostack),
                     );
+                    let r = r as u8;
                     crate::utils::assert_unchecked(r == 0 || r == 1); // may help remove extra test
                     (out, r != 0)
                 }
-- 
2.43.0


From 896c15c01444fd4a0b1a17e6b24392465f23ac86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:54 +0000
Subject: [PATCH 7/7] fix: s390x: load the halves of the initial value in the
 right order in 128-bit swap

---
 src/arch/s390x.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arch/s390x.rs b/src/arch/s390x.rs
index 1d6b5ef..0aca271 100644
--- a/src/arch/s390x.rs
+++ b/src/arch/s390x.rs
@@ -357,8 +357,8 @@ macro_rules! atomic128 {
                 unsafe {
                     // atomic swap is always SeqCst.
                     asm!(
-                        "lg %r0, 8({dst})",             // atomic { r0 = *dst.add(8) }
-                        "lg %r1, 0({dst})",             // atomic { r1 = *dst }
+                        "lg %r0, 0({dst})",             // atomic { r0 = *dst }
+                        "lg %r1, 8({dst})",             // atomic { r1 = *dst.add(8) }
                         "2:", // 'retry:
                             "cdsg %r0, %r12, 0({dst})", // atomic { if *dst == r0:r1 { cc = 0; *dst = r12:r13 } else { cc = 1; r0:r1 = *dst } }
                             "jl 2b",                    // if cc == 1 { jump 'retry }
-- 
2.43.0

