From 73c6e54d57311b222d090beb087750cb85eb8271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:00:25 +0000
Subject: [PATCH 01/19] fix: drop the closure when its thunk cannot be created

---
 src/bare_closure.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/bare_closure.rs b/src/bare_closure.rs
index 5cd6772..edf35b6 100644
--- a/src/bare_closure.rs
+++ b/src/bare_closure.rs
@@ -60,6 +60,16 @@ use crate::{
     traits::{Any, FnMutThunk, FnOnceThunk, FnPtr, FnThunk, ToBoxedDyn},
 };
 
+/// Owns a closure that is not part of a wrapper yet, so that failing to create its thunk frees it.
+struct StorageGuard<S: ?Sized>(*mut S);
+
+impl<S: ?Sized> Drop for StorageGuard<S> {
+    fn drop(&mut self) {
+        // SAFETY: the pointer was produced by `Box::into_raw` and no thunk refers to it
+        drop(unsafe { Box::from_raw(self.0) })
+    }
+}
+
 #[cfg(not(feature = "coverage"))]
 #[doc(hidden)]
 #[macro_export]
@@ -593,6 +603,8 @@ macro_rules! bare_closure_impl {
                 (CC, F): $trait_ident<B>,
             {
                 let storage = Box::into_raw(F::to_boxed_unsize(fun));
+                // Frees the closure if creating the thunk fails
+                let guard = StorageGuard(storage);
 
                 // SAFETY:
                 // - thunk_template pointer obtained from the correct source
@@ -604,6 +616,7 @@ macro_rules! bare_closure_impl {
                         jit_alloc
                     )?
                 };
+                core::mem::forget(guard);
                 Ok(Self {
                     untyped: $erased_ty_name {
                         thunk,
@@ -665,6 +678,8 @@ macro_rules! bare_closure_impl {
             {
                 // SAFETY: All implementors of `Fn*Thunk` are #[repr(transparent)] with the closure
                 let storage = Box::into_raw(T::to_boxed_unsize(thunk));
+                // Frees the closure if creating the thunk fails
+                let guard = StorageGuard(storage);
 
                 // SAFETY:
                 // - thunk_template pointer obtained from the correct source
@@ -677,6 +692,7 @@ macro_rules! bare_closure_impl {
                         jit_alloc
                     )?
                 };
+                core::mem::forget(guard);
                 Ok(Self {
                     untyped: $erased_ty_name {
                         thunk,
-- 
2.43.0


From 809f51dc0edda74cb97566afff455859e8751e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:58:45 +0000
Subject: [PATCH 02/19] fix: sign-extend the full 21-bit immediate of AArch64
 ADR/ADRP

---
 src/safe_jit/arm_util/encoding_aarch64.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/safe_jit/arm_util/encoding_aarch64.rs b/src/safe_jit/arm_util/encoding_aarch64.rs
index 167531e..0d6541d 100644
--- a/src/safe_jit/arm_util/encoding_aarch64.rs
+++ b/src/safe_jit/arm_util/encoding_aarch64.rs
@@ -104,7 +104,7 @@ impl Adr {
 
     pub fn target_pc(&self, pc: usize) -> usize {
         let unsigned_imm = self.imm_hi() << 2 | self.imm_lo();
-        let signed_imm = ((unsigned_imm << 12) as i32 >> 12) as isize;
+        let signed_imm = ((unsigned_imm << 11) as i32 >> 11) as isize;
 
         if self.is_adrp() {
             (pc & !0xFFF).wrapping_add_signed(signed_imm * 0x1000)
-- 
2.43.0


From 7422350a55ad5a5ca313e07507e546a987f590cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:58:45 +0000
Subject: [PATCH 03/19] fix: refuse to relocate AArch64 SIMD literal loads and
 BC.cond

---
 src/safe_jit/aarch64.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/safe_jit/aarch64.rs b/src/safe_jit/aarch64.rs
index 3c60a6e..1d8496a 100644
--- a/src/safe_jit/aarch64.rs
+++ b/src/safe_jit/aarch64.rs
@@ -74,6 +74,10 @@ pub fn try_reloc_thunk_template<'a>(
                 return Err(JitError::UnsupportedInstruction);
             }
         }
+        // SIMD&FP literal loads and BC.cond depend on the PC but are in none of the groups below
+        else if instr_u32 & 0x3F00_0000 == 0x1C00_0000 || instr_u32 & 0xFF00_0010 == 0x5400_0010 {
+            return Err(JitError::UnsupportedInstruction);
+        }
         else if has_unsupported_insn_group(cs.insn_detail(&instr).unwrap().groups()) {
             return Err(JitError::UnsupportedInstruction);
         }
-- 
2.43.0


From 4a1f8f18e342a84d8820f5a1acb4a436c63219b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:58:45 +0000
Subject: [PATCH 04/19] fix: honour the offset direction of Thumb literal loads

---
 src/safe_jit/arm_util/encoding_thumb.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/safe_jit/arm_util/encoding_thumb.rs b/src/safe_jit/arm_util/encoding_thumb.rs
index ed9cfb6..7e02f84 100644
--- a/src/safe_jit/arm_util/encoding_thumb.rs
+++ b/src/safe_jit/arm_util/encoding_thumb.rs
@@ -166,11 +166,14 @@ impl LoadImm {
         let pc = effective_pc(instr_pc);
         match self {
             Self::LdrLitT1(ldr) => Some(pc + ldr.imm() as usize * 4),
-            Self::LdrW(ldr) if ldr.rn() == 0b1111 => Some(pc + ldr.imm() as usize),
+            Self::LdrW(ldr) if ldr.rn() == 0b1111 => {
+                let imm = if ldr.u() == 1 { ldr.imm() as isize } else { -(ldr.imm() as isize) };
+                Some(pc.wrapping_add_signed(imm))
+            }
             Self::LdrT(ldr) if ldr.rn() == 0b1111 => Some(pc + ldr.imm() as usize),
             Self::LdrD(ldr) if ldr.rn() == 0b1111 => {
                 let imm = if ldr.u() == 1 { ldr.imm() as isize } else { -(ldr.imm() as isize) };
-                Some(pc.wrapping_sub_signed(imm * 4))
+                Some(pc.wrapping_add_signed(imm * 4))
             }
             _ => None,
         }
-- 
2.43.0


From a54c54fab4980f539f0305734f55af4f9b5a6dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:58:45 +0000
Subject: [PATCH 05/19] fix: recognise the wide encodings of Thumb ADR

---
 src/safe_jit/arm_util/encoding_thumb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/safe_jit/arm_util/encoding_thumb.rs b/src/safe_jit/arm_util/encoding_thumb.rs
index 7e02f84..db666be 100644
--- a/src/safe_jit/arm_util/encoding_thumb.rs
+++ b/src/safe_jit/arm_util/encoding_thumb.rs
@@ -250,7 +250,7 @@ impl Adr {
             }
 
             let ins = AdrT23::from_raw(raw);
-            (ins.s1() != ins.s2()).then_some(Self::T23(ins))
+            (ins.s1() == ins.s2()).then_some(Self::T23(ins))
         }
     }
 
-- 
2.43.0


From 4f8a6af0bbdd3dc72f6a685dca663af2ecfd3977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:58:45 +0000
Subject: [PATCH 06/19] fix: relocate the 16-bit Thumb ADR instead of copying
 it

---
 src/safe_jit/arm.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/safe_jit/arm.rs b/src/safe_jit/arm.rs
index 8e3e2d4..3188fba 100644
--- a/src/safe_jit/arm.rs
+++ b/src/safe_jit/arm.rs
@@ -63,8 +63,9 @@ pub fn try_reloc_thunk_template<'a>(
             return Err(JitError::UnsupportedInstruction);
         }
         // if the instruction doesn't read the PC, we don't care about it at this point.
-        // it's OK to relocate it.
-        if !detail.regs_read().iter().any(|r| r.0 as u32 == ArmReg::ARM_REG_PC) {
+        // it's OK to relocate it. (the disassembler doesn't list the PC as read by the 16-bit ADR)
+        let adr = Adr::try_from_raw(instr.bytes());
+        if adr.is_none() && !detail.regs_read().iter().any(|r| r.0 as u32 == ArmReg::ARM_REG_PC) {
             continue;
         }
         // We don't support relocating instructions that conditionally read the PC.
@@ -73,7 +74,7 @@ pub fn try_reloc_thunk_template<'a>(
         }
 
         // ADR reg, label => LDR reg, =label_address
-        if let Some(adr) = Adr::try_from_raw(instr.bytes()) {
+        if let Some(adr) = adr {
             new_magic_offset += 4 - instr.len();
 
             // allocate space for a new LDR
-- 
2.43.0


From e641cc7ca70f760736bc33a173b9fa4ccf092bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:58:45 +0000
Subject: [PATCH 07/19] fix: refuse ARM branches that are conditional, backward
 or leave the thunk

---
 src/safe_jit/arm.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/safe_jit/arm.rs b/src/safe_jit/arm.rs
index 3188fba..46e4f9c 100644
--- a/src/safe_jit/arm.rs
+++ b/src/safe_jit/arm.rs
@@ -51,10 +51,14 @@ pub fn try_reloc_thunk_template<'a>(
                 unreachable!()
             };
             let target = target as usize;
-            if (pc..thunk_template_end).contains(&target) {
+            // follow unconditional forward branches that stay within the thunk
+            if arm_detail.cc() == ArmCC::ARM_CC_AL
+                && (instr_pc + instr.len()..thunk_template_end).contains(&target)
+            {
                 disasm_iter.reset(&thunk_template[target - pc..], target as u64);
                 continue;
             }
+            return Err(JitError::UnsupportedInstruction);
         }
         // error on other instruction writing to PC or from unsupported groups
         else if detail.regs_write().iter().any(|r| r.0 as u32 == ArmReg::ARM_REG_PC)
-- 
2.43.0


From beb2da770887813ab84126a95fef084b64092c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:58:45 +0000
Subject: [PATCH 08/19] fix: do not treat the register offset of an A32 load as
 an immediate

---
 src/safe_jit/arm_util/encoding_arm.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/safe_jit/arm_util/encoding_arm.rs b/src/safe_jit/arm_util/encoding_arm.rs
index 44822cb..7a2ad37 100644
--- a/src/safe_jit/arm_util/encoding_arm.rs
+++ b/src/safe_jit/arm_util/encoding_arm.rs
@@ -62,7 +62,8 @@ bitflags! {
         imm set_imm: 0..12,
         rt set_rt: 12..16,
         rn set_rn: 16..20,
-        u set_u: 23..24
+        u set_u: 23..24,
+        reg_offset: 25..26
     }
 
     /// Operands for extra load instructions with immediates
@@ -73,6 +74,7 @@ bitflags! {
         imm_hi set_imm_hi: 8..12,
         rt set_rt: 12..16,
         rn set_rn: 16..20,
+        imm_offset: 22..23,
         u set_u: 23..24
     }
 }
@@ -110,8 +112,10 @@ impl LoadImm {
     pub fn target_pc(&self, instr_pc: usize) -> Option<usize> {
         let pc = effective_pc(instr_pc);
         let (u, imm) = match self {
-            Self::WB(ins) if ins.rn() == 0b1111 => (ins.u(), ins.imm()),
-            Self::Ex(ins) if ins.rn() == 0b1111 => (ins.u(), ins.imm_hi() << 4 | ins.imm_lo()),
+            Self::WB(ins) if ins.rn() == 0b1111 && ins.reg_offset() == 0 => (ins.u(), ins.imm()),
+            Self::Ex(ins) if ins.rn() == 0b1111 && ins.imm_offset() == 1 => {
+                (ins.u(), ins.imm_hi() << 4 | ins.imm_lo())
+            }
             _ => return None,
         };
         Some(if u == 1 { pc + imm as usize } else { pc - imm as usize })
-- 
2.43.0


From 93ce22db8ca01fa5707e7997edcf39a58c339515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:58:45 +0000
Subject: [PATCH 09/19] fix: compute Thumb literal offsets from the alignment
 of the relocated code

---
 src/safe_jit/arm.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/safe_jit/arm.rs b/src/safe_jit/arm.rs
index 46e4f9c..f9e4981 100644
--- a/src/safe_jit/arm.rs
+++ b/src/safe_jit/arm.rs
@@ -131,9 +131,11 @@ pub fn try_reloc_thunk_template<'a>(
 
         // write the absolute addresses to the literal pool and emit LDR instructions
         // referring to them.
+        // only the magic offset is known to be pointer-aligned in the relocated thunk.
+        let base = (pc + magic_offset).wrapping_sub(new_magic_offset);
         for (instr_offset, reg, addr) in extra_ldrs {
-            let addr_pc = pc + new_bytes.len();
-            let ldr = LdrImm::new_lit(pc + instr_offset, reg, addr_pc)?;
+            let addr_pc = base.wrapping_add(new_bytes.len());
+            let ldr = LdrImm::new_lit(base.wrapping_add(instr_offset), reg, addr_pc)?;
 
             new_bytes.extend_from_slice(&addr.to_ne_bytes());
             new_bytes[instr_offset..instr_offset + 4].copy_from_slice(&ldr.bytes());
-- 
2.43.0


From 7a0ba3150fe7c3aa51a4149396d62b64a89e1704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:58:45 +0000
Subject: [PATCH 10/19] fix: reject signed operands that need one bit more than
 their field

---
 src/safe_jit/arm_util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/safe_jit/arm_util.rs b/src/safe_jit/arm_util.rs
index 9954ce0..3f57174 100644
--- a/src/safe_jit/arm_util.rs
+++ b/src/safe_jit/arm_util.rs
@@ -246,7 +246,7 @@ macro_rules! bitflags_field {
                 const SIZE_MASK: $t = ((1u128 << SIZE) - 1) as $t;
                 const MASK: $t = SIZE_MASK << ($start as u32);
 
-                let extra_bits = val >> SIZE;
+                let extra_bits = val >> (SIZE - 1);
                 if extra_bits != -1 && extra_bits != 0 {
                     return Err(())
                 }
-- 
2.43.0


From d7a83adce0b66c49ba1e3d31c4c285113aa7dc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:58:45 +0000
Subject: [PATCH 11/19] fix: refuse to resize x86-64 instructions that a
 conditional branch spans

---
 src/safe_jit/x86_64.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/safe_jit/x86_64.rs b/src/safe_jit/x86_64.rs
index fe9e237..5a07ae5 100644
--- a/src/safe_jit/x86_64.rs
+++ b/src/safe_jit/x86_64.rs
@@ -21,6 +21,7 @@ pub fn try_reloc_thunk_template<'a>(
     let mut instruction = Instruction::default();
 
     let mut max_jcc_offset = 0;
+    let mut jccs = Vec::new();
     let mut num_ip_rel_reloc = 0;
     let mut thunk_asm_offset = None;
 
@@ -40,6 +41,7 @@ pub fn try_reloc_thunk_template<'a>(
             FlowControl::ConditionalBranch if instruction.is_jcc_short_or_near() => {
                 let offset = instruction.near_branch_target().wrapping_sub(ip);
                 max_jcc_offset = max_jcc_offset.max(offset);
+                jccs.push((instruction.ip(), instruction.near_branch_target()));
             }
             _ => return Err(JitError::UnsupportedInstruction),
         };
@@ -72,6 +74,16 @@ pub fn try_reloc_thunk_template<'a>(
         });
     }
 
+    // Make sure no instruction that will be resized lies between a JCC and its target
+    if instructions.iter().any(|&(instr, needs_reloc)| {
+        needs_reloc
+            && jccs.iter().any(|&(jcc, target)| {
+                instr.ip() >= jcc.min(target) && instr.ip() < jcc.max(target)
+            })
+    }) {
+        return Err(JitError::UnsupportedControlFlow);
+    }
+
     // go through the instructions backwards and track the last visible read/write
     // operation on general purpose registers
     //
-- 
2.43.0


From b8cc7f29bd57a34c9c9ec48e41348efba3892a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:58:45 +0000
Subject: [PATCH 12/19] fix: do not reuse registers whose overwrite may be
 skipped by a branch

---
 src/safe_jit/x86_64.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/safe_jit/x86_64.rs b/src/safe_jit/x86_64.rs
index 5a07ae5..e60e685 100644
--- a/src/safe_jit/x86_64.rs
+++ b/src/safe_jit/x86_64.rs
@@ -101,11 +101,25 @@ pub fn try_reloc_thunk_template<'a>(
     let cl_read_reg = decoder.decode().op0_register();
 
     let mut gpr_ops = [GprOp::None; 16];
-    gpr_ops[cl_read_reg as usize - Register::RAX as usize] = GprOp::Write(instruction.len());
+    gpr_ops[cl_read_reg as usize - Register::RAX as usize] = GprOp::Write(instructions.len());
 
     let mut info_factory = InstructionInfoFactory::new();
     let mut chosen_registers = Vec::with_capacity(num_ip_rel_reloc);
     for (i, &(instr, needs_reloc)) in instructions.iter().enumerate().rev() {
+        // writes that a forward branch skips don't clobber a register on every path
+        if instr.is_jcc_short_or_near() {
+            for op in gpr_ops.iter_mut() {
+                if let GprOp::Write(w) = *op {
+                    let skipped = |&(write, _): &(Instruction, bool)| {
+                        write.ip() < instr.near_branch_target()
+                    };
+                    if instructions.get(w).is_some_and(skipped) {
+                        *op = GprOp::None;
+                    }
+                }
+            }
+        }
+
         let info = info_factory.info_options(&instr, InstructionInfoOptions::NO_MEMORY_USAGE);
         for used_gpr in info.used_registers().iter().filter(|u| u.register().is_gpr()) {
             let full_register = used_gpr.register().full_register();
-- 
2.43.0


From 31dd849595f509d1492bf222c70e73a6929e5197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:58:45 +0000
Subject: [PATCH 13/19] fix: accept x86-64 operands located before the thunk

---
 src/safe_jit/x86_64.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/safe_jit/x86_64.rs b/src/safe_jit/x86_64.rs
index e60e685..9b0cd6b 100644
--- a/src/safe_jit/x86_64.rs
+++ b/src/safe_jit/x86_64.rs
@@ -49,7 +49,7 @@ pub fn try_reloc_thunk_template<'a>(
         let needs_reloc = instruction.is_ip_rel_memory_operand();
         if needs_reloc {
             let closure_ptr_offset = magic_offset.wrapping_add_signed(consts::CLOSURE_ADDR_OFFSET);
-            if (instruction.memory_displacement64() - ip) as usize == closure_ptr_offset {
+            if instruction.memory_displacement64().wrapping_sub(ip) as usize == closure_ptr_offset {
                 thunk_asm_offset = Some(decoder.position() - instruction.len());
                 break;
             }
-- 
2.43.0


From b6425f78afa9dc93559d51da3431e4febc07f119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:18:39 +0000
Subject: [PATCH 14/19] fix: do not make thunks more Send or Sync than their
 closure

---
 src/thunk_factory.rs | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/thunk_factory.rs b/src/thunk_factory.rs
index 1abd653..457b2fc 100644
--- a/src/thunk_factory.rs
+++ b/src/thunk_factory.rs
@@ -1,6 +1,8 @@
 //! Provides factory functions for creating [`FnThunk`] implementations from a closure while
 //! preserving its [Sync]/[Send]ness.
 
+use core::marker::PhantomData;
+
 use crate::traits::{FnMutThunk, FnOnceThunk, FnPtr, FnThunk, PackedFn, PackedFnMut, PackedFnOnce};
 
 // SAFETY: Using the `SendSyncWrapper` type below is only unsound if `FnPtr::make_thunk` and friends
@@ -28,7 +30,7 @@ where
     F: Send + for<'x, 'y, 'z> PackedFnOnce<'x, 'y, 'z, B>,
 {
     let thunk = B::make_once_thunk(fun);
-    SendSyncWrapper(thunk)
+    SendSyncWrapper::<_, F>(thunk, PhantomData)
 }
 
 /// Creates a [Sync] [`FnOnceThunk`] implementation from a closure taking the same arguments as
@@ -39,7 +41,7 @@ where
     F: Sync + for<'x, 'y, 'z> PackedFnOnce<'x, 'y, 'z, B>,
 {
     let thunk = B::make_once_thunk(fun);
-    SendSyncWrapper(thunk)
+    SendSyncWrapper::<_, F>(thunk, PhantomData)
 }
 
 /// Creates a [Send] and [Sync] [`FnOnceThunk`] implementation from a closure taking the same
@@ -50,7 +52,7 @@ where
     F: Send + Sync + for<'x, 'y, 'z> PackedFnOnce<'x, 'y, 'z, B>,
 {
     let thunk = B::make_once_thunk(fun);
-    SendSyncWrapper(thunk)
+    SendSyncWrapper::<_, F>(thunk, PhantomData)
 }
 
 /// Creates a [`FnMutThunk`] implementation from a closure taking the same arguments as this
@@ -73,7 +75,7 @@ where
     F: Send + for<'x, 'y, 'z> PackedFnMut<'x, 'y, 'z, B>,
 {
     let thunk = B::make_mut_thunk(fun);
-    SendSyncWrapper(thunk)
+    SendSyncWrapper::<_, F>(thunk, PhantomData)
 }
 
 /// Creates a [Sync] [`FnMutThunk`] implementation from a closure taking the same arguments as
@@ -84,7 +86,7 @@ where
     F: Sync + for<'x, 'y, 'z> PackedFnMut<'x, 'y, 'z, B>,
 {
     let thunk = B::make_mut_thunk(fun);
-    SendSyncWrapper(thunk)
+    SendSyncWrapper::<_, F>(thunk, PhantomData)
 }
 
 /// Creates a [Send] and [Sync] [`FnMutThunk`] implementation from a closure taking the same
@@ -95,7 +97,7 @@ where
     F: Send + Sync + for<'x, 'y, 'z> PackedFnMut<'x, 'y, 'z, B>,
 {
     let thunk = B::make_mut_thunk(fun);
-    SendSyncWrapper(thunk)
+    SendSyncWrapper::<_, F>(thunk, PhantomData)
 }
 
 /// Creates a [`FnThunk`] implementation from a closure taking the same arguments as this
@@ -117,7 +119,7 @@ where
     F: Send + for<'x, 'y, 'z> PackedFn<'x, 'y, 'z, B>,
 {
     let thunk = B::make_thunk(fun);
-    SendSyncWrapper(thunk)
+    SendSyncWrapper::<_, F>(thunk, PhantomData)
 }
 
 /// Creates a [Sync] [`FnThunk`] implementation from a closure taking the same arguments as
@@ -128,7 +130,7 @@ where
     F: Sync + for<'x, 'y, 'z> PackedFn<'x, 'y, 'z, B>,
 {
     let thunk = B::make_thunk(fun);
-    SendSyncWrapper(thunk)
+    SendSyncWrapper::<_, F>(thunk, PhantomData)
 }
 
 /// Creates a [Send] and [Sync] [`FnThunk`] implementation from a closure taking the same
@@ -139,14 +141,15 @@ where
     F: Send + Sync + for<'x, 'y, 'z> PackedFn<'x, 'y, 'z, B>,
 {
     let thunk = B::make_thunk(fun);
-    SendSyncWrapper(thunk)
+    SendSyncWrapper::<_, F>(thunk, PhantomData)
 }
 
+/// Gives the thunk `T` exactly the [Send]/[Sync]ness of the closure `F` it was made from.
 #[repr(transparent)]
-struct SendSyncWrapper<T>(T);
-unsafe impl<T> Send for SendSyncWrapper<T> {}
-unsafe impl<T> Sync for SendSyncWrapper<T> {}
-unsafe impl<B: FnPtr, T: FnOnceThunk<B>> FnOnceThunk<B> for SendSyncWrapper<T> {
+struct SendSyncWrapper<T, F>(T, PhantomData<F>);
+unsafe impl<T, F: Send> Send for SendSyncWrapper<T, F> {}
+unsafe impl<T, F: Sync> Sync for SendSyncWrapper<T, F> {}
+unsafe impl<B: FnPtr, T: FnOnceThunk<B>, F> FnOnceThunk<B> for SendSyncWrapper<T, F> {
     const THUNK_TEMPLATE_ONCE: *const u8 = T::THUNK_TEMPLATE_ONCE;
     unsafe fn call_once<'a, 'b, 'c>(
         self,
@@ -155,7 +158,7 @@ unsafe impl<B: FnPtr, T: FnOnceThunk<B>> FnOnceThunk<B> for SendSyncWrapper<T> {
         self.0.call_once(args)
     }
 }
-unsafe impl<B: FnPtr, T: FnMutThunk<B>> FnMutThunk<B> for SendSyncWrapper<T> {
+unsafe impl<B: FnPtr, T: FnMutThunk<B>, F> FnMutThunk<B> for SendSyncWrapper<T, F> {
     const THUNK_TEMPLATE_MUT: *const u8 = T::THUNK_TEMPLATE_MUT;
     unsafe fn call_mut<'a, 'b, 'c>(
         &mut self,
@@ -164,7 +167,7 @@ unsafe impl<B: FnPtr, T: FnMutThunk<B>> FnMutThunk<B> for SendSyncWrapper<T> {
         self.0.call_mut(args)
     }
 }
-unsafe impl<B: FnPtr, T: FnThunk<B>> FnThunk<B> for SendSyncWrapper<T> {
+unsafe impl<B: FnPtr, T: FnThunk<B>, F> FnThunk<B> for SendSyncWrapper<T, F> {
     const THUNK_TEMPLATE: *const u8 = T::THUNK_TEMPLATE;
     unsafe fn call<'a, 'b, 'c>(
         &self,
-- 
2.43.0


From d1e464768b21c6fc4c163c9b166db4af884298e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:18:39 +0000
Subject: [PATCH 15/19] fix: do not require Send closures in
 thunk_factory::make_once

---
 src/thunk_factory.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thunk_factory.rs b/src/thunk_factory.rs
index 457b2fc..ddfcbbb 100644
--- a/src/thunk_factory.rs
+++ b/src/thunk_factory.rs
@@ -17,7 +17,7 @@ use crate::traits::{FnMutThunk, FnOnceThunk, FnPtr, FnThunk, PackedFn, PackedFnM
 #[inline(always)]
 pub fn make_once<B: FnPtr, F>(fun: F) -> impl FnOnceThunk<B>
 where
-    F: Send + for<'x, 'y, 'z> PackedFnOnce<'x, 'y, 'z, B>,
+    F: for<'x, 'y, 'z> PackedFnOnce<'x, 'y, 'z, B>,
 {
     B::make_once_thunk(fun)
 }
-- 
2.43.0


From 8c0b6e35a02da5dec7abcb958101ffdd7bdce09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:18:39 +0000
Subject: [PATCH 16/19] fix: keep the typed wrapper layout without a global
 allocator

---
 src/bare_closure.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bare_closure.rs b/src/bare_closure.rs
index edf35b6..1261411 100644
--- a/src/bare_closure.rs
+++ b/src/bare_closure.rs
@@ -481,6 +481,7 @@ macro_rules! bare_closure_impl {
         ///   combinations of [`Send`] and [`Sync`] marker types.
         /// - `A`: The [`JitAlloc`] implementation used to allocate and free executable memory.
         #[allow(dead_code)]
+        #[repr(transparent)]
         pub struct $ty_name<B: FnPtr, S: ?Sized, A: JitAlloc> {
             untyped: $erased_ty_name<S, A>,
             phantom: PhantomData<B>,
-- 
2.43.0


From 3dd350bbe63c5a8f65d681fd0910226ba7b69c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:18:39 +0000
Subject: [PATCH 17/19] fix: reject C variadic functions in bare_hrtb

---
 proc_macros/src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/proc_macros/src/lib.rs b/proc_macros/src/lib.rs
index 44ace28..023519c 100644
--- a/proc_macros/src/lib.rs
+++ b/proc_macros/src/lib.rs
@@ -30,6 +30,13 @@ impl syn::parse::Parse for MacroInput {
                     }
                 }
 
+                if let Some(variadic) = &bare_fn.variadic {
+                    return Err(syn::Error::new_spanned(
+                        variadic,
+                        "C variadic functions are not supported",
+                    ));
+                }
+
                 // Check that bare_fn has no implicit lifetimes
                 struct HasImplicitBoundLt(Vec<pm2::Span>);
                 impl<'a> Visit<'a> for HasImplicitBoundLt {
-- 
2.43.0


From df158dd2d1edca5c4874e5705c4d8174716d9235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:19:06 +0000
Subject: [PATCH 18/19] fix: fail instead of aborting when the thread-local
 allocator is gone

---
 src/jit_alloc.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/jit_alloc.rs b/src/jit_alloc.rs
index 6109db5..c529f6e 100644
--- a/src/jit_alloc.rs
+++ b/src/jit_alloc.rs
@@ -188,14 +188,18 @@ mod default_jit_alloc {
 
         impl JitAlloc for ThreadJitAlloc {
             fn alloc(&self, size: usize) -> Result<(*const u8, *mut u8), JitAllocError> {
+                // the allocator may already be gone if the thread is exiting
                 THREAD_JIT_ALLOC
-                    .with(|a| unsafe { &mut *a.get() }.alloc(size))
+                    .try_with(|a| unsafe { &mut *a.get() }.alloc(size))
+                    .map_err(|_| JitAllocError)?
                     .map_err(|_| JitAllocError)
             }
 
             unsafe fn release(&self, rx_ptr: *const u8) -> Result<(), JitAllocError> {
+                // the allocator may already be gone if the thread is exiting
                 THREAD_JIT_ALLOC
-                    .with(|a| unsafe { &mut *a.get() }.release(rx_ptr))
+                    .try_with(|a| unsafe { &mut *a.get() }.release(rx_ptr))
+                    .map_err(|_| JitAllocError)?
                     .map_err(|_| JitAllocError)
             }
 
-- 
2.43.0


From b4882c149f996c7b16d20f5dffbeaa007c2b598d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:15:12 +0000
Subject: [PATCH 19/19] fix: report underscore lifetimes of references in
 bare_hrtb

A reference with the lifetime '_ inside a nested function type, such as
for<'a> fn(&'a u8, fn(&'_ u8)), was accepted although every other unnamed
lifetime is rejected.
---
 proc_macros/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/proc_macros/src/lib.rs b/proc_macros/src/lib.rs
index 023519c..c0b15d7 100644
--- a/proc_macros/src/lib.rs
+++ b/proc_macros/src/lib.rs
@@ -48,6 +48,7 @@ impl syn::parse::Parse for MacroInput {
 
                     fn visit_type_reference(&mut self, i: &'a syn::TypeReference) {
                         match i.lifetime {
+                            Some(ref lt) if lt.ident == "_" => self.0.push(lt.span()),
                             Some(_) => self.visit_type(&i.elem),
                             None => self.0.push(i.and_token.span),
                         }
-- 
2.43.0

