From dda6c107be57b53d578c7e1e54e804cb93083105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:41 +0000
Subject: [PATCH 01/29] fix: wrap addresses of word loads at the top of memory

---
 runner/src/state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runner/src/state.rs b/runner/src/state.rs
index 06d1d93..7753755 100644
--- a/runner/src/state.rs
+++ b/runner/src/state.rs
@@ -396,7 +396,7 @@ impl<F: RichField> State<F> {
         const WORD_SIZE: usize = 4;
         let mut bytes = [0_u8; WORD_SIZE];
         for (i, byte) in (0_u32..).zip(bytes.iter_mut()) {
-            *byte = self.load_u8(addr + i);
+            *byte = self.load_u8(addr.wrapping_add(i));
         }
         u32::from_le_bytes(bytes)
     }
-- 
2.43.0


From d10af50d9ea7d0a44e59cccfcf96d0eb5c0d0583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:41 +0000
Subject: [PATCH 02/29] fix: wrap message addresses of panic and trace ecalls

---
 runner/src/ecall.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/runner/src/ecall.rs b/runner/src/ecall.rs
index afef451..23f9ab3 100644
--- a/runner/src/ecall.rs
+++ b/runner/src/ecall.rs
@@ -103,8 +103,8 @@ impl<F: RichField> State<F> {
         let msg_ptr = self.get_register_value(REG_A1);
         let msg_len = self.get_register_value(REG_A2);
         let mut msg_vec = vec![];
-        for addr in msg_ptr..(msg_ptr + msg_len) {
-            msg_vec.push(self.load_u8(addr));
+        for i in 0..msg_len {
+            msg_vec.push(self.load_u8(msg_ptr.wrapping_add(i)));
         }
         panic!(
             "VM panicked with msg: {}",
@@ -120,8 +120,8 @@ impl<F: RichField> State<F> {
         let msg_ptr = self.get_register_value(REG_A1);
         let msg_len = self.get_register_value(REG_A2);
         let mut msg_vec = vec![];
-        for addr in msg_ptr..(msg_ptr + msg_len) {
-            msg_vec.push(self.load_u8(addr));
+        for i in 0..msg_len {
+            msg_vec.push(self.load_u8(msg_ptr.wrapping_add(i)));
         }
         log::debug!(
             "VM TRACE LOG: {}",
-- 
2.43.0


From b40020cab36c872cad226575ff800310a7c6d9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:41 +0000
Subject: [PATCH 03/29] fix: wrap input addresses of the poseidon2 ecall

---
 runner/src/poseidon2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runner/src/poseidon2.rs b/runner/src/poseidon2.rs
index c87cfea..23ad7ae 100644
--- a/runner/src/poseidon2.rs
+++ b/runner/src/poseidon2.rs
@@ -89,7 +89,7 @@ impl<F: RichField> State<F> {
         let input_len = self.get_register_value(REG_A2);
         let output_ptr = self.get_register_value(REG_A3);
         let input: Vec<F> = (0..input_len)
-            .map(|i| F::from_canonical_u8(self.load_u8(input_ptr + i)))
+            .map(|i| F::from_canonical_u8(self.load_u8(input_ptr.wrapping_add(i))))
             .collect();
         let (hash, sponge_data) =
             hash_n_to_m_no_pad::<F, Poseidon2Permutation<F>>(input.as_slice());
-- 
2.43.0


From c7f22cc4332b94d5d9f1b65491040df0a79ca36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:16 +0000
Subject: [PATCH 04/29] fix: decode the topmost word of memory without
 overflowing its address

---
 runner/src/code.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runner/src/code.rs b/runner/src/code.rs
index 8b57b3e..a81f18c 100644
--- a/runner/src/code.rs
+++ b/runner/src/code.rs
@@ -39,8 +39,8 @@ impl From<&HashMap<u32, u8>> for Code {
         fn load_u32(m: &HashMap<u32, u8>, addr: u32) -> u32 {
             const WORD_SIZE: usize = 4;
             let mut bytes = [0_u8; WORD_SIZE];
-            for (i, byte) in (addr..).zip(bytes.iter_mut()) {
-                *byte = m.get(&i).copied().unwrap_or_default();
+            for (i, byte) in (0_u32..).zip(bytes.iter_mut()) {
+                *byte = m.get(&addr.wrapping_add(i)).copied().unwrap_or_default();
             }
             u32::from_le_bytes(bytes)
         }
-- 
2.43.0


From 93b4aa07488dd6d880228ff19f97d01e70d28dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:32 +0000
Subject: [PATCH 05/29] fix: load RWX segments into rw_memory, as the loader
 documents

---
 runner/src/elf.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/runner/src/elf.rs b/runner/src/elf.rs
index 8818314..b280d36 100644
--- a/runner/src/elf.rs
+++ b/runner/src/elf.rs
@@ -170,7 +170,10 @@ impl Program {
         ));
 
         let rw_memory = Data(Program::extract_elf_data(
-            |flags, _| flags == elf::abi::PF_R | elf::abi::PF_W,
+            |flags, _| {
+                (flags & elf::abi::PF_R == elf::abi::PF_R)
+                    && (flags & elf::abi::PF_W == elf::abi::PF_W)
+            },
             input,
             &segments,
         ));
-- 
2.43.0


From 388c8682ed401ace94002c16af899333368acb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:35 +0000
Subject: [PATCH 06/29] fix: only load PT_LOAD segments of an ELF into memory

---
 runner/src/elf.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runner/src/elf.rs b/runner/src/elf.rs
index b280d36..83336ef 100644
--- a/runner/src/elf.rs
+++ b/runner/src/elf.rs
@@ -203,6 +203,7 @@ impl Program {
     ) -> HashMap<u32, u8> {
         segments
             .iter()
+            .filter(|program_header| program_header.p_type == elf::abi::PT_LOAD)
             .filter(|program_header| check_program_flags(program_header.p_flags, program_header))
             .map(|program_header| -> anyhow::Result<_> {
                 let file_size: usize = program_header.p_filesz.try_into()?;
-- 
2.43.0


From 9d048d66bbf4d5e538d14faea8b36f90b80f574f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:49 +0000
Subject: [PATCH 07/29] fix: merkleize addresses that differ in their topmost
 bit

---
 sdk/src/common/merkle.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sdk/src/common/merkle.rs b/sdk/src/common/merkle.rs
index 7c80e3e..5f5afbf 100644
--- a/sdk/src/common/merkle.rs
+++ b/sdk/src/common/merkle.rs
@@ -23,10 +23,10 @@ fn merkleize_step(hashes: &mut Vec<(u64, Poseidon2Hash)>, height_incr: u32) -> u
 
     hashes.entries(.., |e| {
         let Some(mut left) = e.remove() else { return };
-        left.0 >>= height_incr;
+        left.0 = left.0.checked_shr(height_incr).unwrap_or_default();
 
         while let Some(mut right) = e.remove() {
-            right.0 >>= height_incr;
+            right.0 = right.0.checked_shr(height_incr).unwrap_or_default();
 
             // Combine the two items and insert the result
             if left.0 == right.0 {
@@ -38,7 +38,7 @@ fn merkleize_step(hashes: &mut Vec<(u64, Poseidon2Hash)>, height_incr: u32) -> u
                 // Make sure to get a new left item
                 let Some(next) = e.remove() else { return };
                 right = next;
-                right.0 >>= height_incr;
+                right.0 = right.0.checked_shr(height_incr).unwrap_or_default();
             } else {
                 let Ok(_) = e.try_insert_outside(left) else {
                     unreachable!()
-- 
2.43.0


From 4153bba6bbf2cdefbffc9b0cfd3abce3523c66e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:52 +0000
Subject: [PATCH 08/29] fix: short reads of an input tape fill only the start
 of the buffer

---
 sdk/src/mozakvm/inputtape.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdk/src/mozakvm/inputtape.rs b/sdk/src/mozakvm/inputtape.rs
index 17b979f..0b7feb4 100644
--- a/sdk/src/mozakvm/inputtape.rs
+++ b/sdk/src/mozakvm/inputtape.rs
@@ -65,7 +65,8 @@ impl std::io::Read for RandomAccessEcallTape {
         };
 
         // Populate partial buf from newly fetched bytes via `ECALL`
-        buf[populatable_from_internal_buf..].clone_from_slice(&self.internal_buf[old_len..]);
+        buf[populatable_from_internal_buf..serviced_bytes]
+            .clone_from_slice(&self.internal_buf[old_len..]);
         self.read_offset += serviced_bytes;
 
         Ok(serviced_bytes)
-- 
2.43.0


From 405780728b40dd9139c143b92e79af679047dcfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:39 +0000
Subject: [PATCH 09/29] fix: constrain the cubes the poseidon2 table uses in
 its S-boxes

---
 circuits/src/poseidon2/stark.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/circuits/src/poseidon2/stark.rs b/circuits/src/poseidon2/stark.rs
index 9d3f240..eeb8a22 100644
--- a/circuits/src/poseidon2/stark.rs
+++ b/circuits/src/poseidon2/stark.rs
@@ -33,9 +33,14 @@ where
 }
 
 // degree: 3
-fn sbox_p<'a, V>(x: &mut Expr<'a, V>, x_qube: &Expr<'a, V>)
-where
+fn sbox_p<'a, V>(
+    constraints: &mut ConstraintBuilder<Expr<'a, V>>,
+    x: &mut Expr<'a, V>,
+    x_qube: &Expr<'a, V>,
+) where
     V: Copy, {
+    // `x_qube` is a column the prover picks, so it has to be tied to `x^3`.
+    constraints.always(*x * *x * *x - *x_qube);
     *x *= *x_qube * *x_qube;
 }
 
@@ -150,6 +155,7 @@ fn generate_constraints<'a, V: Copy, U: Poseidon2>(
         add_rc::<V, U, STATE_SIZE>(&mut state, r);
         for (i, item) in state.iter_mut().enumerate() {
             sbox_p(
+                &mut constraints,
                 item,
                 &lv.s_box_input_qube_first_full_rounds[r * STATE_SIZE + i],
             );
@@ -164,7 +170,11 @@ fn generate_constraints<'a, V: Copy, U: Poseidon2>(
     // partial rounds
     for i in 0..ROUNDS_P {
         state[0] += from_u64(<U as Poseidon2>::RC12_MID[i]);
-        sbox_p(&mut state[0], &lv.s_box_input_qube_partial_rounds[i]);
+        sbox_p(
+            &mut constraints,
+            &mut state[0],
+            &lv.s_box_input_qube_partial_rounds[i],
+        );
         matmul_internal12::<V, U, STATE_SIZE>(&mut state);
         constraints.always(state[0] - lv.state0_after_partial_rounds[i]);
         state[0] = lv.state0_after_partial_rounds[i];
@@ -182,6 +192,7 @@ fn generate_constraints<'a, V: Copy, U: Poseidon2>(
         add_rc::<V, U, STATE_SIZE>(&mut state, r);
         for (j, item) in state.iter_mut().enumerate() {
             sbox_p(
+                &mut constraints,
                 item,
                 &lv.s_box_input_qube_second_full_rounds[i * STATE_SIZE + j],
             );
-- 
2.43.0


From 514e2977d9b1cfec0f5840632555ae41d4e467c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:39 +0000
Subject: [PATCH 10/29] fix: look up the xor gadget of SB and SH in the xor
 table

---
 circuits/src/cpu/columns.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuits/src/cpu/columns.rs b/circuits/src/cpu/columns.rs
index a41ff47..433357b 100644
--- a/circuits/src/cpu/columns.rs
+++ b/circuits/src/cpu/columns.rs
@@ -411,7 +411,7 @@ pub fn lookup_for_storage_tables() -> TableWithTypedOutput<StorageDeviceCtl<Colu
 impl<T: core::ops::Add<Output = T>> OpSelectors<T> {
     #[must_use]
     pub fn ops_that_use_xor(self) -> T {
-        self.xor + self.or + self.and + self.srl + self.sll + self.sra
+        self.xor + self.or + self.and + self.srl + self.sll + self.sra + self.sb + self.sh
     }
 
     pub fn ops_that_shift(self) -> T { self.sll + self.srl + self.sra }
-- 
2.43.0


From 00a2e578ac306d5cb4928fa196856c9e1d617bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:53 +0000
Subject: [PATCH 11/29] fix: tie the buffer address of event tape ecalls to the
 register file

---
 circuits/src/storage_device/columns.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/circuits/src/storage_device/columns.rs b/circuits/src/storage_device/columns.rs
index 281531b..1bfa94c 100644
--- a/circuits/src/storage_device/columns.rs
+++ b/circuits/src/storage_device/columns.rs
@@ -8,8 +8,9 @@ use crate::cross_table_lookup::{Column, ColumnWithTypedInput};
 use crate::memory::columns::MemoryCtl;
 use crate::register::RegisterCtl;
 use crate::stark::mozak_stark::{
-    CallTapeTable, CastListCommitmentTapeTable, EventsCommitmentTapeTable, SelfProgIdTapeTable,
-    StorageDevicePrivateTable, StorageDevicePublicTable, TableKind, TableWithTypedOutput,
+    CallTapeTable, CastListCommitmentTapeTable, EventTapeTable, EventsCommitmentTapeTable,
+    SelfProgIdTapeTable, StorageDevicePrivateTable, StorageDevicePublicTable, TableKind,
+    TableWithTypedOutput,
 };
 use crate::tape_commitments::columns::TapeCommitmentCTL;
 
@@ -109,6 +110,7 @@ pub fn register_looking() -> Vec<TableWithTypedOutput<RegisterCtl<Column>>> {
         StorageDevicePrivateTable::new(data, COL_MAP.ops.is_storage_device),
         StorageDevicePublicTable::new(data, COL_MAP.ops.is_storage_device),
         CallTapeTable::new(data, COL_MAP.ops.is_storage_device),
+        EventTapeTable::new(data, COL_MAP.ops.is_storage_device),
         EventsCommitmentTapeTable::new(data, COL_MAP.ops.is_storage_device),
         CastListCommitmentTapeTable::new(data, COL_MAP.ops.is_storage_device),
         SelfProgIdTapeTable::new(data, COL_MAP.ops.is_storage_device),
-- 
2.43.0


From 02634596af3a63a61b54a248f2d3575cc3e46656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:53 +0000
Subject: [PATCH 12/29] fix: range check the comparison of taken BLTU branches

---
 circuits/src/stark/mozak_stark.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/circuits/src/stark/mozak_stark.rs b/circuits/src/stark/mozak_stark.rs
index 847534a..b32cd8b 100644
--- a/circuits/src/stark/mozak_stark.rs
+++ b/circuits/src/stark/mozak_stark.rs
@@ -708,6 +708,7 @@ impl Lookups for RangecheckTable {
             memory::columns::rangecheck_looking(),
             cpu::columns::rangecheck_looking(),
             ops::add::columns::rangecheck_looking(),
+            ops::blt_taken::columns::rangecheck_looking(),
             register,
         ]
         .collect();
-- 
2.43.0


From 4d223c745de2ce2cf8579ca950b74769eed1ffa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:53 +0000
Subject: [PATCH 13/29] fix: only treat i32::MIN / -1 as the overflowing
 division

---
 circuits/src/cpu/generation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuits/src/cpu/generation.rs b/circuits/src/cpu/generation.rs
index 7f4f2a8..c44749b 100644
--- a/circuits/src/cpu/generation.rs
+++ b/circuits/src/cpu/generation.rs
@@ -276,7 +276,7 @@ fn generate_div_row<F: RichField>(row: &mut CpuState<F>, inst: &Instruction, aux
         row.quotient_value = from_u32(quotient_full_range as u32);
         row.quotient_sign = F::from_bool(quotient_full_range.is_negative());
         row.skip_check_quotient_sign = F::from_bool(quotient_full_range == 0);
-        if dividend_full_range == -2 ^ 31 && divisor_full_range == -1 {
+        if dividend_full_range == i64::from(i32::MIN) && divisor_full_range == -1 {
             // Special case for dividend == -2^31, divisor == -1:
             // quotient_sign == 1 (quotient = -2^31).
             row.skip_check_quotient_sign = F::ONE;
-- 
2.43.0


From e9ca150220f0a2cd88c503c654e45cc4cc9ad1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:01 +0000
Subject: [PATCH 14/29] fix: tie the sign bit of LB and LH to the loaded value

---
 circuits/src/cpu/columns.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/circuits/src/cpu/columns.rs b/circuits/src/cpu/columns.rs
index 433357b..c40415d 100644
--- a/circuits/src/cpu/columns.rs
+++ b/circuits/src/cpu/columns.rs
@@ -321,8 +321,18 @@ pub fn rangecheck_looking() -> Vec<TableWithTypedOutput<RangeCheckCtl<Column>>>
             CPU.op2_value - CPU.op2_sign_bit * (1 << 32) + CPU.inst.is_op2_signed * (1 << 31),
             CPU.inst.is_op2_signed,
         ),
-        (CPU.dst_value - CPU.dst_sign_bit * 0xFFFF_FF00, ops.lb),
-        (CPU.dst_value - CPU.dst_sign_bit * 0xFFFF_0000, ops.lh),
+        // The same for the sign bit of a loaded value, which is scaled up so that its top bit is
+        // the top bit of a u32.
+        (
+            CPU.mem_value_raw * (1 << 24) - CPU.dst_sign_bit * (1 << 32)
+                + CPU.inst.is_dst_signed * (1 << 31),
+            ops.lb,
+        ),
+        (
+            CPU.mem_value_raw * (1 << 16) - CPU.dst_sign_bit * (1 << 32)
+                + CPU.inst.is_dst_signed * (1 << 31),
+            ops.lh,
+        ),
     ]
     .into_iter()
     .map(|(columns, filter)| CpuTable::new(RangeCheckCtl(columns), filter))
-- 
2.43.0


From d0b397b9e7a5843de23f28051c0ad20638440bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:36 +0000
Subject: [PATCH 15/29] fix: batch verifier checks the shape of every table's
 openings

The openings of all batched tables of a size are concatenated before the opening
argument is checked, so a prover could present a table's quotient openings as
openings of running sums and no quotient identity was checked at all.
---
 circuits/src/stark/batch_verifier.rs | 12 +++++++++++-
 circuits/src/stark/verifier.rs       | 28 ++++++++++++++++++++--------
 2 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/circuits/src/stark/batch_verifier.rs b/circuits/src/stark/batch_verifier.rs
index 182d048..bcd83ea 100644
--- a/circuits/src/stark/batch_verifier.rs
+++ b/circuits/src/stark/batch_verifier.rs
@@ -22,7 +22,9 @@ use crate::stark::batch_prover::{
 use crate::stark::permutation::challenge::GrandProductChallengeTrait;
 use crate::stark::proof::{BatchProof, StarkProof, StarkProofChallenges};
 use crate::stark::prover::get_program_id;
-use crate::stark::verifier::{verify_quotient_polynomials, verify_stark_proof_with_challenges};
+use crate::stark::verifier::{
+    validate_openings_shape, verify_quotient_polynomials, verify_stark_proof_with_challenges,
+};
 
 #[allow(clippy::too_many_lines)]
 pub fn batch_verify_proof<F, C, const D: usize>(
@@ -143,6 +145,14 @@ where
         } else {
             // Verifying quotient polynomials of the batched stark proof (for all starks but
             // public starks). Batched FRI proof for the openings to be done later.
+            // The openings of all tables are concatenated there, so make sure that every
+            // table opens exactly what it has to.
+            validate_openings_shape(
+                stark,
+                &all_proof.proofs[kind].openings,
+                config,
+                ctl_vars_per_table[kind].len(),
+            )?;
             verify_quotient_polynomials(
                 stark,
                 degree_bits[kind],
diff --git a/circuits/src/stark/verifier.rs b/circuits/src/stark/verifier.rs
index 6aade2c..171239e 100644
--- a/circuits/src/stark/verifier.rs
+++ b/circuits/src/stark/verifier.rs
@@ -242,6 +242,26 @@ where
         opening_proof: _,
     } = proof;
 
+    let degree_bits = proof.recover_degree_bits(config);
+    let fri_params = config.fri_params(degree_bits);
+    let cap_height = fri_params.config.cap_height;
+
+    ensure!(trace_cap.height() == cap_height);
+    ensure!(ctl_zs_cap.height() == cap_height);
+    ensure!(quotient_polys_cap.height() == cap_height);
+
+    validate_openings_shape(stark, openings, config, num_ctl_zs)
+}
+
+pub(crate) fn validate_openings_shape<F, S, const D: usize>(
+    stark: &S,
+    openings: &StarkOpeningSet<F, D>,
+    config: &StarkConfig,
+    num_ctl_zs: usize,
+) -> anyhow::Result<()>
+where
+    F: RichField + Extendable<D>,
+    S: Stark<F, D>, {
     let StarkOpeningSet {
         local_values,
         next_values,
@@ -251,14 +271,6 @@ where
         quotient_polys,
     } = openings;
 
-    let degree_bits = proof.recover_degree_bits(config);
-    let fri_params = config.fri_params(degree_bits);
-    let cap_height = fri_params.config.cap_height;
-
-    ensure!(trace_cap.height() == cap_height);
-    ensure!(ctl_zs_cap.height() == cap_height);
-    ensure!(quotient_polys_cap.height() == cap_height);
-
     ensure!(local_values.len() == S::COLUMNS);
     ensure!(next_values.len() == S::COLUMNS);
     ensure!(ctl_zs.len() == num_ctl_zs);
-- 
2.43.0


From 127dfa16aa0ba8dc22f5b1743a42231fff136ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:39 +0000
Subject: [PATCH 16/29] fix: reading the guest input tape after seeking past
 the bytes fetched so far

---
 sdk/src/mozakvm/inputtape.rs | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/sdk/src/mozakvm/inputtape.rs b/sdk/src/mozakvm/inputtape.rs
index 0b7feb4..2b134ea 100644
--- a/sdk/src/mozakvm/inputtape.rs
+++ b/sdk/src/mozakvm/inputtape.rs
@@ -36,22 +36,13 @@ impl std::io::Read for RandomAccessEcallTape {
 
         // In cases where `Seek` was used, we may be reading from
         // `internal_buf` as we may have previously "consumed" those
-        // bytes already from the `ECALL` mechanism.
-        let mut populatable_from_internal_buf = self.internal_buf.len() - self.read_offset;
-        if serviced_bytes < populatable_from_internal_buf {
-            populatable_from_internal_buf = serviced_bytes;
-        }
-
-        // These are the actual bytes we get from doing an `ECALL`
-        let remaining_from_ecall = serviced_bytes - populatable_from_internal_buf;
-
-        // Populate partial buf from `internal_buf`
-        buf[..populatable_from_internal_buf].clone_from_slice(
-            &self.internal_buf
-                [self.read_offset..(self.read_offset + populatable_from_internal_buf)],
-        );
-
+        // bytes already from the `ECALL` mechanism, or have skipped
+        // over bytes which are yet to be fetched. Only the bytes not in
+        // `internal_buf` so far come from doing an `ECALL`.
+        let end_offset = self.read_offset + serviced_bytes;
         let old_len = self.internal_buf.len();
+        let remaining_from_ecall = end_offset.saturating_sub(old_len);
+
         self.internal_buf.resize(old_len + remaining_from_ecall, 0);
 
         // TODO: maybe move out this function into `ecall.rs` somehow?
@@ -64,9 +55,8 @@ impl std::io::Read for RandomAccessEcallTape {
             );
         };
 
-        // Populate partial buf from newly fetched bytes via `ECALL`
-        buf[populatable_from_internal_buf..serviced_bytes]
-            .clone_from_slice(&self.internal_buf[old_len..]);
+        // Populate buf, now that all of its bytes are in `internal_buf`
+        buf[..serviced_bytes].clone_from_slice(&self.internal_buf[self.read_offset..end_offset]);
         self.read_offset += serviced_bytes;
 
         Ok(serviced_bytes)
-- 
2.43.0


From abc6163bcf5364d1e4d2ea22ef9332d98c1cebcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:40 +0000
Subject: [PATCH 17/29] fix: seeking in the guest input tape follows
 std::io::Seek

---
 sdk/src/mozakvm/inputtape.rs | 35 ++++++++++++-----------------------
 1 file changed, 12 insertions(+), 23 deletions(-)

diff --git a/sdk/src/mozakvm/inputtape.rs b/sdk/src/mozakvm/inputtape.rs
index 2b134ea..feb46aa 100644
--- a/sdk/src/mozakvm/inputtape.rs
+++ b/sdk/src/mozakvm/inputtape.rs
@@ -66,29 +66,18 @@ impl std::io::Read for RandomAccessEcallTape {
 #[cfg(feature = "stdread")]
 impl std::io::Seek for RandomAccessEcallTape {
     fn seek(&mut self, pos: std::io::SeekFrom) -> std::io::Result<u64> {
-        match pos {
-            std::io::SeekFrom::Start(x) =>
-                if x >= self.size_hint.try_into().unwrap() {
-                    self.read_offset = self.size_hint - 1;
-                } else {
-                    self.read_offset = usize::try_from(x).unwrap();
-                },
-            std::io::SeekFrom::End(x) =>
-                if x >= self.size_hint.try_into().unwrap() {
-                    self.read_offset = 0;
-                } else {
-                    self.read_offset = self.size_hint - usize::try_from(x).unwrap() - 1;
-                },
-            std::io::SeekFrom::Current(x) => {
-                if x + i64::try_from(self.read_offset).unwrap()
-                    >= self.size_hint.try_into().unwrap()
-                {
-                    self.read_offset = self.size_hint - 1;
-                } else {
-                    self.read_offset += usize::try_from(x).unwrap();
-                }
-            }
-        }
+        let (base, offset) = match pos {
+            std::io::SeekFrom::Start(x) => (x, 0),
+            std::io::SeekFrom::End(x) => (self.size_hint as u64, x),
+            std::io::SeekFrom::Current(x) => (self.read_offset as u64, x),
+        };
+        let position = base
+            .checked_add_signed(offset)
+            .ok_or(std::io::ErrorKind::InvalidInput)?;
+        // There is nothing to read past the end of the tape
+        self.read_offset = usize::try_from(position)
+            .unwrap_or(usize::MAX)
+            .min(self.size_hint);
         Ok(self.read_offset as u64)
     }
 }
-- 
2.43.0


From 281a2c8a03b65d641a0f65638c248f25b92b7b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:48 +0000
Subject: [PATCH 18/29] fix: match_delta binds the old owner of writes and the
 new data of ensures

---
 recproofs/src/circuits/match_delta.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/recproofs/src/circuits/match_delta.rs b/recproofs/src/circuits/match_delta.rs
index 4b29dee..66ce6d5 100644
--- a/recproofs/src/circuits/match_delta.rs
+++ b/recproofs/src/circuits/match_delta.rs
@@ -180,6 +180,10 @@ where
         builder.connect(compare_delta_targets.object_flags, acc_flags);
         let acc_flags = SplitFlags::split(&mut builder, acc_flags);
         let has_owner = builder.is_nonzero(acc_flags.owner);
+        // Writes are also only allowed by the old owner
+        let has_old_owner = builder.or(acc_flags.write, has_owner);
+        // New data is claimed by ensures just as much as by writes
+        let has_new_data = builder.is_nonzero(acc_flags.new_data);
         // old owner
         {
             let acc_old_owner = accumulate_event_circuit
@@ -190,7 +194,7 @@ where
             maybe_connect(
                 &mut builder,
                 compare_delta_targets.old_owner,
-                has_owner,
+                has_old_owner,
                 acc_old_owner,
             );
         }
@@ -232,7 +236,7 @@ where
             maybe_connect(
                 &mut builder,
                 compare_delta_targets.new_data,
-                acc_flags.write,
+                has_new_data,
                 acc_new_data,
             );
         }
-- 
2.43.0


From 72dda3ce6d22e3d117f0dfffb68f64699579891d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:31 +0000
Subject: [PATCH 19/29] fix: embedded recursive proofs are bound to the
 verifier they are checked with

---
 recproofs/src/circuits/match_delta.rs         |  9 +++++++++
 recproofs/src/circuits/merge/embed.rs         |  7 +++++++
 recproofs/src/circuits/verify_block/core.rs   | 14 ++++++++++++++
 recproofs/src/circuits/verify_program/core.rs |  9 +++++++++
 recproofs/src/circuits/verify_tx/core.rs      |  7 +++++++
 5 files changed, 46 insertions(+)

diff --git a/recproofs/src/circuits/match_delta.rs b/recproofs/src/circuits/match_delta.rs
index 66ce6d5..f9907c2 100644
--- a/recproofs/src/circuits/match_delta.rs
+++ b/recproofs/src/circuits/match_delta.rs
@@ -153,6 +153,15 @@ where
             &verifier,
             &accumulate_event_circuit.circuit.common,
         );
+        // Make sure the proof's recursion was bound to this very circuit
+        {
+            let acc_verifier = accumulate_event_circuit
+                .unbounded
+                .indices
+                .verifier
+                .get_target(&targets.accumulate_event.public_inputs);
+            builder.connect_verifier_data(&acc_verifier, &verifier);
+        }
         // event hash
         {
             let acc_event_hash = accumulate_event_circuit
diff --git a/recproofs/src/circuits/merge/embed.rs b/recproofs/src/circuits/merge/embed.rs
index 2371701..98fde3f 100644
--- a/recproofs/src/circuits/merge/embed.rs
+++ b/recproofs/src/circuits/merge/embed.rs
@@ -147,6 +147,13 @@ impl SubCircuitInputs {
         let proof = builder.add_virtual_proof_with_pis(&circuit.common);
         let verifier = builder.constant_verifier_data(&circuit.verifier_only);
         builder.verify_proof::<C>(&proof, &verifier, &circuit.common);
+        // Make sure the proof's recursion was bound to this very circuit
+        let proof_verifier = mc
+            .unbounded
+            .indices
+            .verifier
+            .get_target(&proof.public_inputs);
+        builder.connect_verifier_data(&proof_verifier, &verifier);
 
         let a_present = mc.merge.indices.a_present.get_target(&proof.public_inputs);
         let b_present = mc.merge.indices.b_present.get_target(&proof.public_inputs);
diff --git a/recproofs/src/circuits/verify_block/core.rs b/recproofs/src/circuits/verify_block/core.rs
index de46523..17b9080 100644
--- a/recproofs/src/circuits/verify_block/core.rs
+++ b/recproofs/src/circuits/verify_block/core.rs
@@ -277,6 +277,13 @@ impl<const D: usize> TxVerifierTargets<D> {
         let proof = builder.add_virtual_proof_with_pis(&circuit.common);
         let verifier = builder.constant_verifier_data(&circuit.verifier_only);
         builder.verify_proof::<C>(&proof, &verifier, &circuit.common);
+        // Make sure the proof's recursion was bound to this very circuit
+        let proof_verifier = tx
+            .unbounded
+            .indices
+            .verifier
+            .get_target(&proof.public_inputs);
+        builder.connect_verifier_data(&proof_verifier, &verifier);
 
         let events_present = tx
             .events
@@ -345,6 +352,13 @@ impl<const D: usize> MatchDeltaVerifierTargets<D> {
         let proof = builder.add_virtual_proof_with_pis(&circuit.common);
         let verifier = builder.constant_verifier_data(&circuit.verifier_only);
         builder.verify_proof::<C>(&proof, &verifier, &circuit.common);
+        // Make sure the proof's recursion was bound to this very circuit
+        let proof_verifier = md
+            .unbounded
+            .indices
+            .verifier
+            .get_target(&proof.public_inputs);
+        builder.connect_verifier_data(&proof_verifier, &verifier);
 
         let event_root = md
             .event_hash
diff --git a/recproofs/src/circuits/verify_program/core.rs b/recproofs/src/circuits/verify_program/core.rs
index 8fceda9..bb887a7 100644
--- a/recproofs/src/circuits/verify_program/core.rs
+++ b/recproofs/src/circuits/verify_program/core.rs
@@ -207,6 +207,15 @@ impl<C: GenericConfig<D>, const D: usize> EventRootVerifierTargets<C, D> {
 
         let verifier = select_verifier(builder, events_present, &real_verifier, &zero_verifier);
         builder.verify_proof::<C>(&event_root_proof, &verifier, &circuit.common);
+        // Make sure a real proof's recursion was bound to this very circuit
+        let proof_verifier = event_root_circuit
+            .unbounded
+            .indices
+            .verifier
+            .get_target(&event_root_proof.public_inputs);
+        let expected_verifier =
+            select_verifier(builder, events_present, &real_verifier, &proof_verifier);
+        builder.connect_verifier_data(&proof_verifier, &expected_verifier);
 
         let event_owner = event_root_circuit
             .event_owner
diff --git a/recproofs/src/circuits/verify_tx/core.rs b/recproofs/src/circuits/verify_tx/core.rs
index e32114b..df4a995 100644
--- a/recproofs/src/circuits/verify_tx/core.rs
+++ b/recproofs/src/circuits/verify_tx/core.rs
@@ -39,6 +39,13 @@ impl<const D: usize> ProgramSetVerifierTargets<D> {
         let verifier = builder.constant_verifier_data(&circuit.verifier_only);
 
         builder.verify_proof::<C>(&program_set_proof, &verifier, &circuit.common);
+        // Make sure the proof's recursion was bound to this very circuit
+        let proof_verifier = program
+            .unbounded
+            .indices
+            .verifier
+            .get_target(&program_set_proof.public_inputs);
+        builder.connect_verifier_data(&proof_verifier, &verifier);
 
         let events_present = program
             .events
-- 
2.43.0


From 7d87fe1ad15cb063e3d488cf215c95777c7ef595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:37 +0000
Subject: [PATCH 20/29] fix: recalculate state branches next to pruned ones
 when a block is finalized

---
 node/src/block_proposer/state.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/node/src/block_proposer/state.rs b/node/src/block_proposer/state.rs
index 5406091..7a98e11 100644
--- a/node/src/block_proposer/state.rs
+++ b/node/src/block_proposer/state.rs
@@ -63,6 +63,7 @@ enum LeafKind {
 }
 
 enum FinalizeOutcome {
+    Empty,
     Prune,
     Recalc,
     NoOp,
@@ -73,9 +74,13 @@ impl Add for FinalizeOutcome {
 
     fn add(self, rhs: Self) -> Self::Output {
         match (self, rhs) {
-            (Self::Recalc, _) | (_, Self::Recalc) => Self::Recalc,
+            // What remains next to something pruned has to be recalculated
+            (Self::Recalc, _)
+            | (_, Self::Recalc)
+            | (Self::Prune, Self::NoOp)
+            | (Self::NoOp, Self::Prune) => Self::Recalc,
             (Self::NoOp, _) | (_, Self::NoOp) => Self::NoOp,
-            (Self::Prune, Self::Prune) => Self::Prune,
+            (Self::Empty | Self::Prune, Self::Empty | Self::Prune) => Self::Prune,
         }
     }
 }
@@ -465,7 +470,12 @@ impl AuxStateData {
     }
 
     fn finalize(&self, root: &mut SparseMerkleBranch) {
-        self.finalize_branch(root, BranchAddress::root(root.height));
+        // The root is never removed, even if everything below it was
+        if let FinalizeOutcome::Prune =
+            self.finalize_branch(root, BranchAddress::root(root.height))
+        {
+            self.recalc_branch_helper(root);
+        }
     }
 
     fn finalize_branch(
@@ -484,7 +494,7 @@ impl AuxStateData {
             }
             outcome
         } else {
-            FinalizeOutcome::Prune
+            FinalizeOutcome::Empty
         };
 
         let right_outcome = if let Some(mut right) = branch.right.take() {
@@ -498,7 +508,7 @@ impl AuxStateData {
             }
             outcome
         } else {
-            FinalizeOutcome::Prune
+            FinalizeOutcome::Empty
         };
 
         let outcome = left_outcome + right_outcome;
-- 
2.43.0


From d376a93e29a3fc8384a08bc64ffb577c25a6e407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:37 +0000
Subject: [PATCH 21/29] fix: match proofs need when the old object was last
 updated

---
 node/src/block_proposer/matches.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node/src/block_proposer/matches.rs b/node/src/block_proposer/matches.rs
index 9dca78b..ee3eb95 100644
--- a/node/src/block_proposer/matches.rs
+++ b/node/src/block_proposer/matches.rs
@@ -182,7 +182,7 @@ impl<'a> Matches<'a> {
                 let (old, new) = objs(addr);
                 let val = LeafWitnessValue {
                     block_height,
-                    last_updated: new.last_updated.to_canonical_u64(),
+                    last_updated: old.last_updated.to_canonical_u64(),
                     old_owner: old.constraint_owner,
                     new_owner: new.constraint_owner,
                     old_data: old.data,
-- 
2.43.0


From 33e6cf9e24b1bf6672dc5f18c3eb39b0348be7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:02 +0000
Subject: [PATCH 22/29] fix: branch addresses can lie 64 levels above an event

---
 node/src/block_proposer.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/node/src/block_proposer.rs b/node/src/block_proposer.rs
index 74f3bf8..3c1d3de 100644
--- a/node/src/block_proposer.rs
+++ b/node/src/block_proposer.rs
@@ -182,7 +182,11 @@ impl BranchAddress {
     /// If we've reached the bottom, return an `Address` instead
     #[must_use]
     pub fn parent(mut self, n: usize) -> Self {
-        self.addr.0 >>= n;
+        // A parent far enough up has no address bits left
+        self.addr.0 = u32::try_from(n)
+            .ok()
+            .and_then(|n| self.addr.0.checked_shr(n))
+            .unwrap_or_default();
         self.height += n;
         self
     }
@@ -220,7 +224,7 @@ impl BranchAddress {
 
         // Check if child actually descends from parent
         let delta = parent.height - child.height;
-        let child_addr = child.addr.0 >> delta;
+        let child_addr = child.parent(delta).addr.0;
         match (child_addr.cmp(&parent.addr.0), lhs_is_parent) {
             (Ordering::Less, false) | (Ordering::Greater, true) =>
                 return BranchAddressComparison::RightCousin,
@@ -229,8 +233,13 @@ impl BranchAddress {
             (Ordering::Equal, _) => {}
         }
 
-        let addr = Address(child.addr.0 & ((1 << delta) - 1));
-        match (addr.next(delta - 1).1, lhs_is_parent) {
+        // The last bit not shared with the parent is the direction from it
+        let dir = if (child.addr.0 >> (delta - 1)) & 1 == 0 {
+            Dir::Left
+        } else {
+            Dir::Right
+        };
+        match (dir, lhs_is_parent) {
             (Dir::Left, true) => BranchAddressComparison::LeftChild,
             (Dir::Right, true) => BranchAddressComparison::RightChild,
             (Dir::Left, false) => BranchAddressComparison::LeftParent,
-- 
2.43.0


From 47448cdaeefc28b04be1c82784d57c550099333a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:18 +0000
Subject: [PATCH 23/29] fix: find a cast member by its path in the tree it was
 put in

---
 node/src/block_proposer.rs              |  2 +-
 node/src/block_proposer/transactions.rs | 22 ++++++++++++++++++++--
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/node/src/block_proposer.rs b/node/src/block_proposer.rs
index 3c1d3de..c085dea 100644
--- a/node/src/block_proposer.rs
+++ b/node/src/block_proposer.rs
@@ -74,7 +74,7 @@ where
         + BitAndAssign,
 {
     pub fn path(addr: T, bits: usize) -> Option<Self> {
-        (bits != 0).then_some(Self {
+        (bits != 0).then(|| Self {
             height: bits - 1,
             addr,
         })
diff --git a/node/src/block_proposer/transactions.rs b/node/src/block_proposer/transactions.rs
index 377001d..e0bf38a 100644
--- a/node/src/block_proposer/transactions.rs
+++ b/node/src/block_proposer/transactions.rs
@@ -446,6 +446,25 @@ impl AuxTransactionData {
     }
 }
 
+/// The path of leaf `index` in the tree `reduce_tree` builds from `count` leaves
+fn cast_path(mut index: usize, mut count: usize) -> Option<AddressPath<usize>> {
+    let (mut addr, mut bits) = (0, 0);
+    while count > 1 {
+        // The left subtree is as large as a full tree can be
+        let mid = count.next_power_of_two() / 2;
+        addr <<= 1;
+        bits += 1;
+        if index < mid {
+            count = mid;
+        } else {
+            addr |= 1;
+            index -= mid;
+            count -= mid;
+        }
+    }
+    AddressPath::path(addr, bits)
+}
+
 pub struct TransactionAccumulator<'a> {
     aux: &'a AuxTransactionData,
     ongoing_tx: HashMap<OngoingTxKey, OngoingTx>,
@@ -691,10 +710,9 @@ impl<'a> TransactionAccumulator<'a> {
                 v.insert(OngoingTx { nodes })
             }
             Entry::Occupied(mut o) => {
-                let bits = usize::BITS - cast_list.len().leading_zeros();
                 self.aux.insert_program(
                     &mut o.get_mut().nodes,
-                    AddressPath::path(cast_index, bits as usize),
+                    cast_path(cast_index, cast_list.len()),
                     event_tree,
                     proof,
                 )?;
-- 
2.43.0


From db8e45ed84922fe2b649663525c1d6bb5e14d457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:55 +0000
Subject: [PATCH 24/29] fix: merge several events of one address in the
 proposer's event tree

---
 node/src/block_proposer/transactions.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/node/src/block_proposer/transactions.rs b/node/src/block_proposer/transactions.rs
index e0bf38a..cddbaba 100644
--- a/node/src/block_proposer/transactions.rs
+++ b/node/src/block_proposer/transactions.rs
@@ -303,24 +303,34 @@ impl AuxTransactionData {
             | (
                 EventNode::Leaf { .. },
                 EventNode::Branch { .. },
-                Equal | LeftSibling | RightSibling | LeftChild | RightChild,
+                LeftChild | RightChild,
             )
             // LHS-Branch below RHS-Leaf
             | (
                 EventNode::Branch { .. },
                 EventNode::Leaf { .. },
-                Equal | LeftSibling | RightSibling | LeftParent | RightParent,
+                LeftParent | RightParent,
             ) => unreachable!(),
 
             // Simple merges
-            // LHS-Leaf equal to RHS-Leaf
-            (left @ EventNode::Leaf { .. }, right @ EventNode::Leaf { .. }, Equal)
+            // LHS-Leaf equal to RHS
+            (left @ EventNode::Leaf { .. }, right, Equal)
+            // LHS equal to RHS-Leaf
+            | (left, right @ EventNode::Leaf { .. }, Equal)
             // LHS to the left of RHS
             | (left, right, RightSibling | RightCousin) => {
                 let (proof, event) = self.simple_merge(left, right);
                 (Either::Left(Cow::Owned(proof)), event)
             }
 
+            // LHS-Branch equal to RHS-Branch, both of the events of a single address
+            (left @ EventNode::Branch { .. }, right @ EventNode::Branch { .. }, Equal)
+                if left.address().height == 0 =>
+            {
+                let (proof, event) = self.simple_merge(left, right);
+                (Either::Left(Cow::Owned(proof)), event)
+            }
+
             // Simple reverse merges
             // LHS to the right of RHS
             (left, right, LeftCousin | LeftSibling) => {
-- 
2.43.0


From 8bd245e448ca260f26eaeb538b465aaab35078ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:06 +0000
Subject: [PATCH 25/29] fix: order state addresses as the event tree does

---
 sdk/src/common/types/state_address.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/sdk/src/common/types/state_address.rs b/sdk/src/common/types/state_address.rs
index 83fe02a..02c9fe0 100644
--- a/sdk/src/common/types/state_address.rs
+++ b/sdk/src/common/types/state_address.rs
@@ -10,8 +10,6 @@ pub const STATE_TREE_DEPTH: usize = 8;
     Hash,
     PartialEq,
     Eq,
-    PartialOrd,
-    Ord,
     rkyv::Archive,
     rkyv::Serialize,
     rkyv::Deserialize,
@@ -25,6 +23,17 @@ pub struct StateAddress(
     pub  [u8; STATE_TREE_DEPTH],
 );
 
+/// Addresses are ordered as the numbers they are in the state tree
+impl Ord for StateAddress {
+    fn cmp(&self, other: &Self) -> core::cmp::Ordering {
+        u64::from_le_bytes(self.0).cmp(&u64::from_le_bytes(other.0))
+    }
+}
+
+impl PartialOrd for StateAddress {
+    fn partial_cmp(&self, other: &Self) -> Option<core::cmp::Ordering> { Some(self.cmp(other)) }
+}
+
 impl std::ops::Deref for StateAddress {
     type Target = [u8; STATE_TREE_DEPTH];
 
-- 
2.43.0


From da2300d8f0b6e742c4f169d8b9adc78502bcdd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:30 +0000
Subject: [PATCH 26/29] fix: accumulate a program's events of one address in
 the shape of its event tree

---
 node/src/block_proposer/matches.rs | 40 +++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/node/src/block_proposer/matches.rs b/node/src/block_proposer/matches.rs
index ee3eb95..7fc611d 100644
--- a/node/src/block_proposer/matches.rs
+++ b/node/src/block_proposer/matches.rs
@@ -10,7 +10,9 @@ use mozak_sdk::common::types::{CanonicalEvent, ProgramIdentifier};
 use plonky2::field::types::PrimeField64;
 use plonky2::plonk::circuit_data::CircuitConfig;
 
-use super::{convert_event, reduce_tree_by_address, Address, BranchAddress, OngoingTxKey};
+use super::{
+    convert_event, reduce_tree, reduce_tree_by_address, Address, BranchAddress, OngoingTxKey,
+};
 use crate::{C, D, F};
 
 type AccumulateLeafCircuit = accumulate_delta::LeafCircuit<F, C, D>;
@@ -88,32 +90,46 @@ impl<'a> Matches<'a> {
         id: &ProgramIdentifier,
         events: &[CanonicalEvent],
     ) {
-        let accum = self.ongoing_accum.entry(key).or_default();
-        for event in events {
-            use std::collections::hash_map::Entry;
+        let acc_branch = &self.aux.accumulate_branch_circuit;
 
+        let mut proofs = BTreeMap::<Address, Vec<AccumulateProof>>::new();
+        for event in events {
             let event = convert_event(id, event);
             let proof = self
                 .aux
                 .accumulate_leaf_circuit
                 .prove(
-                    &self.aux.accumulate_branch_circuit,
+                    acc_branch,
                     event.address,
                     event.owner,
                     event.ty,
                     event.value,
                 )
                 .unwrap();
-            match accum.events.entry(Address(event.address)) {
+            proofs
+                .entry(Address(event.address))
+                .or_default()
+                .push(Either::Left(proof));
+        }
+
+        let accum = self.ongoing_accum.entry(key).or_default();
+        for (addr, proofs) in proofs {
+            use std::collections::hash_map::Entry;
+
+            // The same shape as the program's event tree
+            let proof = reduce_tree(
+                proofs,
+                |x| x,
+                |x| x,
+                |l, r| Either::Right(acc_branch.prove(&l, &r).unwrap()),
+            )
+            .unwrap();
+            match accum.events.entry(addr) {
                 Entry::Vacant(v) => {
-                    v.insert(Either::Left(proof));
+                    v.insert(proof);
                 }
                 Entry::Occupied(mut o) => {
-                    let proof = self
-                        .aux
-                        .accumulate_branch_circuit
-                        .prove(o.get(), &proof)
-                        .unwrap();
+                    let proof = acc_branch.prove(o.get(), &proof).unwrap();
                     *o.get_mut() = Either::Right(proof);
                 }
             }
-- 
2.43.0


From d065841fdcfa726ab16c05e0f7dec45ee8b6e970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:30 +0000
Subject: [PATCH 27/29] fix: refuse program proofs of another transaction
 before they are merged

---
 node/src/block_proposer/transactions.rs | 30 ++++++++++++++-----------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/node/src/block_proposer/transactions.rs b/node/src/block_proposer/transactions.rs
index cddbaba..f1dc004 100644
--- a/node/src/block_proposer/transactions.rs
+++ b/node/src/block_proposer/transactions.rs
@@ -630,8 +630,18 @@ impl<'a> TransactionAccumulator<'a> {
         );
         let event_tree = event_tree.map(|x| x.1);
 
+        let cast_root = reduce_tree(
+            cast_list.iter().map(|p| p.0),
+            |x| x,
+            |x| x,
+            Poseidon2Hash::two_to_one,
+        )
+        .unwrap()
+        .to_u64s()
+        .map(F::from_canonical_u64);
+
         // Delay the proof calculation
-        let proof = || {
+        let proof = || -> Result<ProgramLeafProof> {
             let event_branch = &self.aux.event_branch_circuit;
             let events = events
                 .map(|e| {
@@ -657,24 +667,18 @@ impl<'a> TransactionAccumulator<'a> {
                 }
             };
 
-            self.aux.program_leaf_circuit.prove(
+            let proof = self.aux.program_leaf_circuit.prove(
                 &self.aux.program_branch_circuit,
                 program_verifier,
                 program_proof,
                 event_root_proof,
-            )
+            )?;
+            if proof.cast_root() != cast_root || proof.call_list() != call_tape {
+                bail!("program {cast_index} was proven for another transaction");
+            }
+            Ok(proof)
         };
 
-        let cast_root = reduce_tree(
-            cast_list.iter().map(|p| p.0),
-            |x| x,
-            |x| x,
-            Poseidon2Hash::two_to_one,
-        )
-        .unwrap()
-        .to_u64s()
-        .map(F::from_canonical_u64);
-
         let key = OngoingTxKey {
             cast_root,
             call_tape,
-- 
2.43.0


From e87efba503b14f6aeb2b181bcbeb8d8919195d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:27 +0000
Subject: [PATCH 28/29] fix: signatures: the public key of a SHA-256 or Keccak
 signer is the hash itself

hash_private_key took the digest through four Goldilocks elements; a digest
with a 64-bit word of at least p came back as other bytes, which the
signature circuit does not accept as the key's hash.
---
 signatures/src/zk_friendly/keccak256.rs | 10 ++++------
 signatures/src/zk_friendly/poseidon.rs  |  7 +++----
 signatures/src/zk_friendly/sha256.rs    | 10 ++++------
 signatures/src/zk_friendly/sig.rs       |  2 +-
 4 files changed, 12 insertions(+), 17 deletions(-)

diff --git a/signatures/src/zk_friendly/keccak256.rs b/signatures/src/zk_friendly/keccak256.rs
index eb41b61..b251dc9 100644
--- a/signatures/src/zk_friendly/keccak256.rs
+++ b/signatures/src/zk_friendly/keccak256.rs
@@ -1,12 +1,11 @@
 use std::marker::PhantomData;
 
 use plonky2::field::extension::Extendable;
-use plonky2::field::goldilocks_field::GoldilocksField;
-use plonky2::hash::hash_types::{HashOut, RichField};
+use plonky2::hash::hash_types::RichField;
 use plonky2::iop::target::Target;
 use plonky2::iop::witness::PartialWitness;
 use plonky2::plonk::circuit_builder::CircuitBuilder;
-use plonky2::plonk::config::{GenericConfig, GenericHashOut};
+use plonky2::plonk::config::GenericConfig;
 use plonky2::plonk::proof::ProofWithPublicInputs;
 use plonky2_crypto::hash::keccak256::{CircuitBuilderHashKeccak, WitnessHashKeccak, KECCAK256_R};
 use plonky2_crypto::hash::CircuitBuilderHash;
@@ -63,11 +62,10 @@ where
         (private_key_target_u8, public_key_target_u8)
     }
 
-    fn hash_private_key(private_key: &PrivateKey) -> HashOut<GoldilocksField> {
+    fn hash_private_key(private_key: &PrivateKey) -> PublicKey {
         let mut hasher = Keccak256::new();
         hasher.update(private_key.get_limbs());
-        let result = hasher.finalize();
-        HashOut::from_bytes(&result)
+        PublicKey::new(hasher.finalize().into())
     }
 }
 test_sig!(ZkSigKeccak256Signer);
diff --git a/signatures/src/zk_friendly/poseidon.rs b/signatures/src/zk_friendly/poseidon.rs
index b69cbe7..9cf099f 100644
--- a/signatures/src/zk_friendly/poseidon.rs
+++ b/signatures/src/zk_friendly/poseidon.rs
@@ -1,8 +1,7 @@
 use std::marker::PhantomData;
 
 use plonky2::field::extension::Extendable;
-use plonky2::field::goldilocks_field::GoldilocksField;
-use plonky2::hash::hash_types::{HashOut, RichField};
+use plonky2::hash::hash_types::RichField;
 use plonky2::hash::poseidon::PoseidonHash;
 use plonky2::iop::target::Target;
 use plonky2::iop::witness::PartialWitness;
@@ -44,8 +43,8 @@ where
         (private_key_target, public_key_target)
     }
 
-    fn hash_private_key(private_key: &PrivateKey) -> HashOut<GoldilocksField> {
-        PoseidonHash::hash_or_noop(&private_key.get_limbs_field())
+    fn hash_private_key(private_key: &PrivateKey) -> PublicKey {
+        PoseidonHash::hash_or_noop(&private_key.get_limbs_field()).into()
     }
 }
 
diff --git a/signatures/src/zk_friendly/sha256.rs b/signatures/src/zk_friendly/sha256.rs
index 2cce9a0..cee3eab 100644
--- a/signatures/src/zk_friendly/sha256.rs
+++ b/signatures/src/zk_friendly/sha256.rs
@@ -1,12 +1,11 @@
 use std::marker::PhantomData;
 
 use plonky2::field::extension::Extendable;
-use plonky2::field::goldilocks_field::GoldilocksField;
-use plonky2::hash::hash_types::{HashOut, RichField};
+use plonky2::hash::hash_types::RichField;
 use plonky2::iop::target::Target;
 use plonky2::iop::witness::PartialWitness;
 use plonky2::plonk::circuit_builder::CircuitBuilder;
-use plonky2::plonk::config::{GenericConfig, GenericHashOut};
+use plonky2::plonk::config::GenericConfig;
 use plonky2::plonk::proof::ProofWithPublicInputs;
 use plonky2_crypto::hash::sha256::{CircuitBuilderHashSha2, WitnessHashSha2};
 use plonky2_crypto::hash::CircuitBuilderHash;
@@ -64,11 +63,10 @@ where
         (private_key_target_u8, public_key_target_u8)
     }
 
-    fn hash_private_key(private_key: &PrivateKey) -> HashOut<GoldilocksField> {
+    fn hash_private_key(private_key: &PrivateKey) -> PublicKey {
         let mut hasher = Sha256::new();
         hasher.update(private_key.get_limbs());
-        let result = hasher.finalize();
-        HashOut::from_bytes(&result)
+        PublicKey::new(hasher.finalize().into())
     }
 }
 test_sig!(ZkSigSha256Signer);
diff --git a/signatures/src/zk_friendly/sig.rs b/signatures/src/zk_friendly/sig.rs
index dd44bb2..872b147 100644
--- a/signatures/src/zk_friendly/sig.rs
+++ b/signatures/src/zk_friendly/sig.rs
@@ -57,7 +57,7 @@ where
     F: RichField + Extendable<D>,
     C: GenericConfig<D, F = F>, {
     type Sig: From<ProofWithPublicInputs<F, C, D>> + Into<ProofWithPublicInputs<F, C, D>>;
-    fn hash_private_key(private_key: &PrivateKey) -> HashOut<GoldilocksField>;
+    fn hash_private_key(private_key: &PrivateKey) -> PublicKey;
     fn hash_circuit(
         witness: &mut PartialWitness<F>,
         builder: &mut CircuitBuilder<F, D>,
-- 
2.43.0


From d467d5a79e2a42968343b225513c29d80ad12b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:51 +0000
Subject: [PATCH 29/29] fix: shrink a recursive proof by wrapping the last
 circuit, not the first again

---
 circuits/src/stark/recursive_verifier.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/circuits/src/stark/recursive_verifier.rs b/circuits/src/stark/recursive_verifier.rs
index a127163..bb4aaeb 100644
--- a/circuits/src/stark/recursive_verifier.rs
+++ b/circuits/src/stark/recursive_verifier.rs
@@ -1053,7 +1053,11 @@ where
     last_degree_bits = shrunk_degree_bits;
 
     while last_degree_bits > target_degree_bits {
-        shrink_circuit = PlonkWrapperCircuit::new(verifier_only, common, shrink_config.clone());
+        shrink_circuit = PlonkWrapperCircuit::new(
+            &shrink_circuit.circuit.verifier_only,
+            &shrink_circuit.circuit.common,
+            shrink_config.clone(),
+        );
         let shrunk_degree_bits = shrink_circuit.circuit.common.degree_bits();
         info!("shrinking circuit from degree bits {last_degree_bits} to {shrunk_degree_bits}",);
         assert!(
-- 
2.43.0

