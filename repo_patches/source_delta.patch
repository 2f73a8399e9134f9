From 459de3bb47b1d7237e293a0c8c897ed7375ee3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:53 +0000
Subject: [PATCH 01/46] fix: load writable segments that are also executable
 into rw memory

The comment below promises that RWX segments show up in ro_code and
rw_memory, but the exact flag comparison dropped their data altogether.
---
 runner/src/elf.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/runner/src/elf.rs b/runner/src/elf.rs
index 8818314..b280d36 100644
--- a/runner/src/elf.rs
+++ b/runner/src/elf.rs
@@ -170,7 +170,10 @@ impl Program {
         ));
 
         let rw_memory = Data(Program::extract_elf_data(
-            |flags, _| flags == elf::abi::PF_R | elf::abi::PF_W,
+            |flags, _| {
+                (flags & elf::abi::PF_R == elf::abi::PF_R)
+                    && (flags & elf::abi::PF_W == elf::abi::PF_W)
+            },
             input,
             &segments,
         ));
-- 
2.43.0


From ba3c934367175071812a729ffb704a094638cf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:53 +0000
Subject: [PATCH 02/46] fix: load only PT_LOAD segments

Headers such as PT_RISCV_ATTRIBUTES describe bytes that are not part of
the memory image; they were mapped (read-only) at address 0.
---
 runner/src/elf.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runner/src/elf.rs b/runner/src/elf.rs
index b280d36..83336ef 100644
--- a/runner/src/elf.rs
+++ b/runner/src/elf.rs
@@ -203,6 +203,7 @@ impl Program {
     ) -> HashMap<u32, u8> {
         segments
             .iter()
+            .filter(|program_header| program_header.p_type == elf::abi::PT_LOAD)
             .filter(|program_header| check_program_flags(program_header.p_flags, program_header))
             .map(|program_header| -> anyhow::Result<_> {
                 let file_size: usize = program_header.p_filesz.try_into()?;
-- 
2.43.0


From d9869f5c24dd5333669ee3204f3e604adb5f9cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:53 +0000
Subject: [PATCH 03/46] fix: report ELF segments outside of the file or address
 space as errors

They used to panic while slicing or counting addresses, as did valid
images that reach the very last byte of the address space.
---
 runner/src/code.rs |  2 +-
 runner/src/elf.rs  | 24 +++++++++++++++++-------
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/runner/src/code.rs b/runner/src/code.rs
index 8b57b3e..9fc0728 100644
--- a/runner/src/code.rs
+++ b/runner/src/code.rs
@@ -39,7 +39,7 @@ impl From<&HashMap<u32, u8>> for Code {
         fn load_u32(m: &HashMap<u32, u8>, addr: u32) -> u32 {
             const WORD_SIZE: usize = 4;
             let mut bytes = [0_u8; WORD_SIZE];
-            for (i, byte) in (addr..).zip(bytes.iter_mut()) {
+            for (i, byte) in (addr..=u32::MAX).zip(bytes.iter_mut()) {
                 *byte = m.get(&i).copied().unwrap_or_default();
             }
             u32::from_le_bytes(bytes)
diff --git a/runner/src/elf.rs b/runner/src/elf.rs
index 83336ef..424cbb0 100644
--- a/runner/src/elf.rs
+++ b/runner/src/elf.rs
@@ -49,7 +49,7 @@ impl From<HashMap<u32, u32>> for Program {
         }
         let image: HashMap<u32, u8> = image
             .iter()
-            .flat_map(move |(k, v)| (*k..).zip(v.to_le_bytes()))
+            .flat_map(move |(k, v)| (*k..=u32::MAX).zip(v.to_le_bytes()))
             .collect::<HashMap<u32, u8>>();
         Self {
             entry_point: 0_u32,
@@ -80,11 +80,7 @@ impl From<HashMap<u32, u32>> for Data {
         Data(
             image
                 .iter()
-                .flat_map(move |(k, v)| {
-                    (u64::from(*k)..)
-                        .map(|k| u32::try_from(k).unwrap())
-                        .zip(v.to_le_bytes())
-                })
+                .flat_map(move |(k, v)| (0..).map(|i| k.wrapping_add(i)).zip(v.to_le_bytes()))
                 .collect(),
         )
     }
@@ -152,6 +148,20 @@ impl Program {
             .segments()
             .ok_or_else(|| anyhow!("Missing segment table"))?;
         ensure!(segments.len() <= 256, "Too many program headers");
+        for ph in segments.iter().filter(|ph| ph.p_type == elf::abi::PT_LOAD) {
+            ensure!(
+                ph.p_offset
+                    .checked_add(ph.p_filesz)
+                    .is_some_and(|end| end <= input.len() as u64),
+                "Segment data outside of the ELF file"
+            );
+            ensure!(
+                ph.p_vaddr
+                    .checked_add(max(ph.p_filesz, ph.p_memsz))
+                    .is_some_and(|end| end <= 1 << 32),
+                "Segment outside of the 32-bit address space"
+            );
+        }
         Ok((elf, entry_point, segments))
     }
 
@@ -213,7 +223,7 @@ impl Program {
 
                 let min_size = min(file_size, mem_size);
                 let max_size = max(file_size, mem_size);
-                Ok((vaddr..).zip(
+                Ok((vaddr..=u32::MAX).zip(
                     chain!(&input[offset..][..min_size], repeat(&0u8))
                         .take(max_size)
                         .copied(),
-- 
2.43.0


From f59e6d9cbfb89681cc1f9b196c4234672c2bc146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:07 +0000
Subject: [PATCH 04/46] fix: let ecall buffers wrap around the end of the
 address space

Loads, stores, tape reads and the recorded addresses of the poseidon2
ecall already wrap; reading its input, or a panic or trace message, across
0xffff_ffff overflowed instead.
---
 runner/src/ecall.rs     | 8 ++++----
 runner/src/poseidon2.rs | 2 +-
 runner/src/state.rs     | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/runner/src/ecall.rs b/runner/src/ecall.rs
index afef451..23f9ab3 100644
--- a/runner/src/ecall.rs
+++ b/runner/src/ecall.rs
@@ -103,8 +103,8 @@ impl<F: RichField> State<F> {
         let msg_ptr = self.get_register_value(REG_A1);
         let msg_len = self.get_register_value(REG_A2);
         let mut msg_vec = vec![];
-        for addr in msg_ptr..(msg_ptr + msg_len) {
-            msg_vec.push(self.load_u8(addr));
+        for i in 0..msg_len {
+            msg_vec.push(self.load_u8(msg_ptr.wrapping_add(i)));
         }
         panic!(
             "VM panicked with msg: {}",
@@ -120,8 +120,8 @@ impl<F: RichField> State<F> {
         let msg_ptr = self.get_register_value(REG_A1);
         let msg_len = self.get_register_value(REG_A2);
         let mut msg_vec = vec![];
-        for addr in msg_ptr..(msg_ptr + msg_len) {
-            msg_vec.push(self.load_u8(addr));
+        for i in 0..msg_len {
+            msg_vec.push(self.load_u8(msg_ptr.wrapping_add(i)));
         }
         log::debug!(
             "VM TRACE LOG: {}",
diff --git a/runner/src/poseidon2.rs b/runner/src/poseidon2.rs
index c87cfea..23ad7ae 100644
--- a/runner/src/poseidon2.rs
+++ b/runner/src/poseidon2.rs
@@ -89,7 +89,7 @@ impl<F: RichField> State<F> {
         let input_len = self.get_register_value(REG_A2);
         let output_ptr = self.get_register_value(REG_A3);
         let input: Vec<F> = (0..input_len)
-            .map(|i| F::from_canonical_u8(self.load_u8(input_ptr + i)))
+            .map(|i| F::from_canonical_u8(self.load_u8(input_ptr.wrapping_add(i))))
             .collect();
         let (hash, sponge_data) =
             hash_n_to_m_no_pad::<F, Poseidon2Permutation<F>>(input.as_slice());
diff --git a/runner/src/state.rs b/runner/src/state.rs
index 06d1d93..7753755 100644
--- a/runner/src/state.rs
+++ b/runner/src/state.rs
@@ -396,7 +396,7 @@ impl<F: RichField> State<F> {
         const WORD_SIZE: usize = 4;
         let mut bytes = [0_u8; WORD_SIZE];
         for (i, byte) in (0_u32..).zip(bytes.iter_mut()) {
-            *byte = self.load_u8(addr + i);
+            *byte = self.load_u8(addr.wrapping_add(i));
         }
         u32::from_le_bytes(bytes)
     }
-- 
2.43.0


From 680929366757f590300273a9326d79e50e8d1c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:56 +0000
Subject: [PATCH 05/46] fix: merkleize addresses that differ in their top bit

---
 sdk/src/common/merkle.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sdk/src/common/merkle.rs b/sdk/src/common/merkle.rs
index 7c80e3e..a708c48 100644
--- a/sdk/src/common/merkle.rs
+++ b/sdk/src/common/merkle.rs
@@ -17,16 +17,20 @@ pub fn merkleize(mut hashes_with_addr: Vec<(u64, Poseidon2Hash)>) -> Poseidon2Ha
     hashes_with_addr.first().map(|x| x.1).unwrap_or_default()
 }
 
+// Address of the node `height` levels above the one with address `addr`.
+// The root of the tree is 64 levels above its leaves.
+fn ancestor(addr: u64, height: u32) -> u64 { addr.checked_shr(height).unwrap_or(0) }
+
 // Merkles all the closest relatives once, returns the next merge increment
 fn merkleize_step(hashes: &mut Vec<(u64, Poseidon2Hash)>, height_incr: u32) -> u32 {
     let mut next_height_incr = u32::MAX;
 
     hashes.entries(.., |e| {
         let Some(mut left) = e.remove() else { return };
-        left.0 >>= height_incr;
+        left.0 = ancestor(left.0, height_incr);
 
         while let Some(mut right) = e.remove() {
-            right.0 >>= height_incr;
+            right.0 = ancestor(right.0, height_incr);
 
             // Combine the two items and insert the result
             if left.0 == right.0 {
@@ -38,7 +42,7 @@ fn merkleize_step(hashes: &mut Vec<(u64, Poseidon2Hash)>, height_incr: u32) -> u
                 // Make sure to get a new left item
                 let Some(next) = e.remove() else { return };
                 right = next;
-                right.0 >>= height_incr;
+                right.0 = ancestor(right.0, height_incr);
             } else {
                 let Ok(_) = e.try_insert_outside(left) else {
                     unreachable!()
-- 
2.43.0


From 582578ccd619d4ae0c3c960baa0bff1b363c2ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:36 +0000
Subject: [PATCH 06/46] fix: skip calls between other programs when a guest
 sends

---
 sdk/src/mozakvm/calltape.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/sdk/src/mozakvm/calltape.rs b/sdk/src/mozakvm/calltape.rs
index e1d175a..da729ea 100644
--- a/sdk/src/mozakvm/calltape.rs
+++ b/sdk/src/mozakvm/calltape.rs
@@ -18,6 +18,18 @@ impl CallTape {
     fn is_casted_actor(&self, actor: &ProgramIdentifier) -> bool {
         &ProgramIdentifier::default() == actor || self.cast_list.contains(actor)
     }
+
+    /// Moves on to the next message which we sent, or which is for us
+    fn skip_messages_of_others(&mut self) {
+        while let Some(zcd_cpcmsg) = self.reader.unwrap().get(self.index) {
+            let [caller, callee]: [ProgramIdentifier; 2] = [&zcd_cpcmsg.caller, &zcd_cpcmsg.callee]
+                .map(|id| id.deserialize(Strategy::<_, Panic>::wrap(&mut ())).unwrap());
+            if [caller, callee].contains(&self.self_prog_id) {
+                break;
+            }
+            self.index += 1;
+        }
+    }
 }
 
 impl SelfIdentify for CallTape {
@@ -38,7 +50,11 @@ impl Call for CallTape {
         R: CallReturn,
         <A as rkyv::Archive>::Archived: Deserialize<A, Strategy<(), Panic>>,
         <R as rkyv::Archive>::Archived: Deserialize<R, Strategy<(), Panic>>, {
-        // Ensure we aren't validating past the length of the event tape
+        // Messages between other programs, e.g. further calls made on behalf
+        // of an earlier call of ours, are none of our business
+        self.skip_messages_of_others();
+
+        // Ensure we aren't validating past the length of the call tape
         assert!(self.index < self.reader.as_ref().unwrap().len());
 
         let zcd_cpcmsg = &self.reader.unwrap()[self.index];
-- 
2.43.0


From 7ab1b69595f4849cfce2eddd066584419b4843e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:36 +0000
Subject: [PATCH 07/46] fix: refuse calls on the tape which the guest never
 sent

---
 sdk/src/mozakvm/calltape.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/sdk/src/mozakvm/calltape.rs b/sdk/src/mozakvm/calltape.rs
index da729ea..4cc5245 100644
--- a/sdk/src/mozakvm/calltape.rs
+++ b/sdk/src/mozakvm/calltape.rs
@@ -109,6 +109,16 @@ impl Call for CallTape {
             // Mark this as "processed" regardless of what happens next.
             self.index += 1;
 
+            // First, ensure that we are not the caller: `send` takes every
+            // message of ours, so we never sent this one. That includes calls
+            // to ourselves. (Even if they are possible w.r.t. self-calling
+            // extension, the `caller` field would remain distinct)
+            let caller: ProgramIdentifier = zcd_cpcmsg
+                .caller
+                .deserialize(Strategy::<_, Panic>::wrap(&mut ()))
+                .unwrap();
+            assert!(caller != self.self_prog_id);
+
             // Well, once we are sure that we were not the caller, we can
             // either be a callee in which case we process and send information
             // back or we continue searching.
@@ -118,15 +128,6 @@ impl Call for CallTape {
                 .unwrap();
 
             if self.self_prog_id == callee {
-                // First, ensure that we are not the caller, no-one can call
-                // themselves. (Even if they can w.r.t. self-calling extension,
-                // the `caller` field would remain distinct)
-                let caller: ProgramIdentifier = zcd_cpcmsg
-                    .caller
-                    .deserialize(Strategy::<_, Panic>::wrap(&mut ()))
-                    .unwrap();
-                assert!(caller != self.self_prog_id);
-
                 // Before accepting, make sure that caller was a part of castlist
                 assert!(self.is_casted_actor(&caller));
 
-- 
2.43.0


From 0ca2ddad03714f8b8e990b6abaa4ebb5afdd7567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:11 +0000
Subject: [PATCH 08/46] fix: let reads of an input tape end at the end of the
 tape

---
 sdk/src/mozakvm/inputtape.rs | 59 +++++++++++++++---------------------
 1 file changed, 24 insertions(+), 35 deletions(-)

diff --git a/sdk/src/mozakvm/inputtape.rs b/sdk/src/mozakvm/inputtape.rs
index 17b979f..0a41081 100644
--- a/sdk/src/mozakvm/inputtape.rs
+++ b/sdk/src/mozakvm/inputtape.rs
@@ -25,48 +25,37 @@ impl std::io::Read for RandomAccessEcallTape {
     fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
         // While we want the whole buffer to be filled, it may
         // not be possible due to us reaching the end of tape
-        // at times. Hence `required_bytes` encodes the desired
-        // request, while `serviced_bytes` encode the actual
+        // at times. Hence `serviced_bytes` encodes the actual
         // serviced len.
-        let required_bytes = buf.len();
-        let mut serviced_bytes = required_bytes;
-        if (self.read_offset + required_bytes) > self.size_hint {
-            serviced_bytes = self.size_hint - self.read_offset;
+        let serviced_bytes = buf
+            .len()
+            .min(self.size_hint.saturating_sub(self.read_offset));
+        if serviced_bytes == 0 {
+            return Ok(0);
         }
+        let read_end = self.read_offset + serviced_bytes;
 
         // In cases where `Seek` was used, we may be reading from
         // `internal_buf` as we may have previously "consumed" those
-        // bytes already from the `ECALL` mechanism.
-        let mut populatable_from_internal_buf = self.internal_buf.len() - self.read_offset;
-        if serviced_bytes < populatable_from_internal_buf {
-            populatable_from_internal_buf = serviced_bytes;
+        // bytes already from the `ECALL` mechanism. Anything beyond
+        // those, up to the end of this read, we get by doing an `ECALL`
+        let old_len = self.internal_buf.len();
+        if read_end > old_len {
+            self.internal_buf.resize(read_end, 0);
+
+            // TODO: maybe move out this function into `ecall.rs` somehow?
+            unsafe {
+                core::arch::asm!(
+                    "ecall",
+                    in ("a0") self.ecall_id,
+                    in ("a1") self.internal_buf.as_mut_ptr().add(old_len),
+                    in ("a2") read_end - old_len,
+                );
+            };
         }
 
-        // These are the actual bytes we get from doing an `ECALL`
-        let remaining_from_ecall = serviced_bytes - populatable_from_internal_buf;
-
-        // Populate partial buf from `internal_buf`
-        buf[..populatable_from_internal_buf].clone_from_slice(
-            &self.internal_buf
-                [self.read_offset..(self.read_offset + populatable_from_internal_buf)],
-        );
-
-        let old_len = self.internal_buf.len();
-        self.internal_buf.resize(old_len + remaining_from_ecall, 0);
-
-        // TODO: maybe move out this function into `ecall.rs` somehow?
-        unsafe {
-            core::arch::asm!(
-                "ecall",
-                in ("a0") self.ecall_id,
-                in ("a1") self.internal_buf.as_mut_ptr().add(old_len),
-                in ("a2") remaining_from_ecall,
-            );
-        };
-
-        // Populate partial buf from newly fetched bytes via `ECALL`
-        buf[populatable_from_internal_buf..].clone_from_slice(&self.internal_buf[old_len..]);
-        self.read_offset += serviced_bytes;
+        buf[..serviced_bytes].copy_from_slice(&self.internal_buf[self.read_offset..read_end]);
+        self.read_offset = read_end;
 
         Ok(serviced_bytes)
     }
-- 
2.43.0


From bc63e081296c43412f2d5ff2e587d31c660e2302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:25 +0000
Subject: [PATCH 09/46] fix: seek in an input tape like in a file

---
 sdk/src/mozakvm/inputtape.rs | 34 +++++++++++-----------------------
 1 file changed, 11 insertions(+), 23 deletions(-)

diff --git a/sdk/src/mozakvm/inputtape.rs b/sdk/src/mozakvm/inputtape.rs
index 0a41081..0e3297d 100644
--- a/sdk/src/mozakvm/inputtape.rs
+++ b/sdk/src/mozakvm/inputtape.rs
@@ -64,29 +64,17 @@ impl std::io::Read for RandomAccessEcallTape {
 #[cfg(feature = "stdread")]
 impl std::io::Seek for RandomAccessEcallTape {
     fn seek(&mut self, pos: std::io::SeekFrom) -> std::io::Result<u64> {
-        match pos {
-            std::io::SeekFrom::Start(x) =>
-                if x >= self.size_hint.try_into().unwrap() {
-                    self.read_offset = self.size_hint - 1;
-                } else {
-                    self.read_offset = usize::try_from(x).unwrap();
-                },
-            std::io::SeekFrom::End(x) =>
-                if x >= self.size_hint.try_into().unwrap() {
-                    self.read_offset = 0;
-                } else {
-                    self.read_offset = self.size_hint - usize::try_from(x).unwrap() - 1;
-                },
-            std::io::SeekFrom::Current(x) => {
-                if x + i64::try_from(self.read_offset).unwrap()
-                    >= self.size_hint.try_into().unwrap()
-                {
-                    self.read_offset = self.size_hint - 1;
-                } else {
-                    self.read_offset += usize::try_from(x).unwrap();
-                }
-            }
-        }
+        let (base, offset) = match pos {
+            std::io::SeekFrom::Start(x) => (x, 0),
+            std::io::SeekFrom::End(x) => (self.size_hint as u64, x),
+            std::io::SeekFrom::Current(x) => (self.read_offset as u64, x),
+        };
+        // Like with files, positions past the end are fine: there is nothing
+        // to read there.
+        self.read_offset = base
+            .checked_add_signed(offset)
+            .and_then(|x| usize::try_from(x).ok())
+            .ok_or(std::io::ErrorKind::InvalidInput)?;
         Ok(self.read_offset as u64)
     }
 }
-- 
2.43.0


From 6c26720c9226f4c850d0f1c9b5317d402861801f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:57 +0000
Subject: [PATCH 10/46] fix: fail heap allocations which do not fit below the
 stack

---
 sdk/src/core/alloc.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/sdk/src/core/alloc.rs b/sdk/src/core/alloc.rs
index 6398a98..21a8863 100644
--- a/sdk/src/core/alloc.rs
+++ b/sdk/src/core/alloc.rs
@@ -24,12 +24,19 @@ pub extern "C" fn alloc_aligned(bytes: usize, align: usize) -> *mut u8 {
     }
 
     let offset = heap_pos & (align - 1);
-    if offset != 0 {
-        heap_pos += align - offset;
-    }
-
-    let ptr = heap_pos as *mut u8;
-    heap_pos += bytes;
+    let padding = if offset == 0 { 0 } else { align - offset };
+
+    // The heap grows towards the stack: refuse what does not fit in between.
+    let stack_pos: usize;
+    unsafe { core::arch::asm!("mv {}, sp", out(reg) stack_pos, options(nomem, nostack)) };
+    let start = heap_pos.checked_add(padding);
+    let end = start.and_then(|start| start.checked_add(bytes));
+    let (Some(start), Some(end)) = (start, end.filter(|end| *end <= stack_pos)) else {
+        return core::ptr::null_mut();
+    };
+
+    let ptr = start as *mut u8;
+    heap_pos = end;
 
     unsafe { HEAP_POS = heap_pos };
     ptr
-- 
2.43.0


From 5667c88a38e7dd6bb235637fee5d0defdfb0c9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:10 +0000
Subject: [PATCH 11/46] fix: do not hold on to the call tape while a native
 call is resolved

---
 sdk/src/common/system.rs   | 19 ++++++++++++++
 sdk/src/native/calltape.rs | 51 ++++++++++++++++++++++++++++----------
 2 files changed, 57 insertions(+), 13 deletions(-)

diff --git a/sdk/src/common/system.rs b/sdk/src/common/system.rs
index c771a39..39291c2 100644
--- a/sdk/src/common/system.rs
+++ b/sdk/src/common/system.rs
@@ -186,11 +186,30 @@ where
     R: CallReturn,
     <A as rkyv::Archive>::Archived: Deserialize<A, Strategy<(), Panic>>,
     <R as rkyv::Archive>::Archived: Deserialize<R, Strategy<(), Panic>>, {
+    #[cfg(target_os = "mozakvm")]
     unsafe {
         SYSTEM_TAPE
             .call_tape
             .send(recipient_program, argument, resolver)
     }
+
+    // `resolver` may itself use `SYSTEM_TAPE`, so we cannot hold on to any part
+    // of it in the meantime.
+    #[cfg(not(target_os = "mozakvm"))]
+    {
+        let inserted_idx = unsafe {
+            SYSTEM_TAPE
+                .call_tape
+                .begin_call(recipient_program, &argument)
+        };
+        let resolved_value = resolver(argument);
+        unsafe {
+            SYSTEM_TAPE
+                .call_tape
+                .end_call(inserted_idx, &resolved_value);
+        }
+        resolved_value
+    }
 }
 
 #[cfg(target_os = "mozakvm")]
diff --git a/sdk/src/native/calltape.rs b/sdk/src/native/calltape.rs
index 540f1f8..9d9b6f0 100644
--- a/sdk/src/native/calltape.rs
+++ b/sdk/src/native/calltape.rs
@@ -29,23 +29,22 @@ impl SelfIdentify for CallTape {
     fn get_self_identity(&self) -> ProgramIdentifier { self.identity_stack.borrow().top_identity() }
 }
 
-impl Call for CallTape {
-    fn send<A, R>(
+impl CallTape {
+    /// Puts a call of `recipient_program` on the tape, and enters the context
+    /// of `recipient_program`. Returns where on the tape the call is, for
+    /// [`Self::end_call`].
+    pub(crate) fn begin_call<A>(
         &mut self,
         recipient_program: ProgramIdentifier,
-        argument: A,
-        resolver: impl Fn(A) -> R,
-    ) -> R
+        argument: &A,
+    ) -> usize
     where
-        A: CallArgument + PartialEq,
-        R: CallReturn,
-        <A as rkyv::Archive>::Archived: Deserialize<A, Strategy<(), Panic>>,
-        <R as rkyv::Archive>::Archived: Deserialize<R, Strategy<(), Panic>>, {
+        A: CallArgument, {
         // Create a skeletal `CrossProgramCall` to be resolved via "resolver"
         let msg = CrossProgramCall {
             caller: self.get_self_identity(),
             callee: recipient_program,
-            argument: rkyv::to_bytes::<_, 256, _>(&argument).unwrap().into(),
+            argument: rkyv::to_bytes::<_, 256, _>(argument).unwrap().into(),
             return_: RawMessage::default(), // Unfilled: we have to still resolve it
         };
 
@@ -57,12 +56,38 @@ impl Call for CallTape {
         // and... insert
         self.writer.push(msg);
 
-        // resolve the return value and add to where message was
         self.set_self_identity(recipient_program);
-        let resolved_value = resolver(argument);
+        inserted_idx
+    }
+
+    /// Adds the return value of the call which [`Self::begin_call`] put at
+    /// `inserted_idx`, and leaves its context.
+    pub(crate) fn end_call<R>(&mut self, inserted_idx: usize, resolved_value: &R)
+    where
+        R: CallReturn, {
         self.writer[inserted_idx].return_ =
-            rkyv::to_bytes::<_, 256, _>(&resolved_value).unwrap().into();
+            rkyv::to_bytes::<_, 256, _>(resolved_value).unwrap().into();
         self.identity_stack.borrow_mut().rm_identity();
+    }
+}
+
+impl Call for CallTape {
+    fn send<A, R>(
+        &mut self,
+        recipient_program: ProgramIdentifier,
+        argument: A,
+        resolver: impl Fn(A) -> R,
+    ) -> R
+    where
+        A: CallArgument + PartialEq,
+        R: CallReturn,
+        <A as rkyv::Archive>::Archived: Deserialize<A, Strategy<(), Panic>>,
+        <R as rkyv::Archive>::Archived: Deserialize<R, Strategy<(), Panic>>, {
+        let inserted_idx = self.begin_call(recipient_program, &argument);
+
+        // resolve the return value and add to where message was
+        let resolved_value = resolver(argument);
+        self.end_call(inserted_idx, &resolved_value);
 
         resolved_value
     }
-- 
2.43.0


From 4eb0fc45021860df55119e06d978798235d415ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:41 +0000
Subject: [PATCH 12/46] fix: order addresses as the numbers that merkleize
 takes them for

---
 sdk/src/common/types/state_address.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/sdk/src/common/types/state_address.rs b/sdk/src/common/types/state_address.rs
index 83fe02a..5cee635 100644
--- a/sdk/src/common/types/state_address.rs
+++ b/sdk/src/common/types/state_address.rs
@@ -10,8 +10,6 @@ pub const STATE_TREE_DEPTH: usize = 8;
     Hash,
     PartialEq,
     Eq,
-    PartialOrd,
-    Ord,
     rkyv::Archive,
     rkyv::Serialize,
     rkyv::Deserialize,
@@ -25,6 +23,18 @@ pub struct StateAddress(
     pub  [u8; STATE_TREE_DEPTH],
 );
 
+/// Addresses are ordered the way they are laid out in the state tree and in
+/// merklized events, where they are little-endian numbers.
+impl Ord for StateAddress {
+    fn cmp(&self, other: &Self) -> core::cmp::Ordering {
+        u64::from_le_bytes(self.0).cmp(&u64::from_le_bytes(other.0))
+    }
+}
+
+impl PartialOrd for StateAddress {
+    fn partial_cmp(&self, other: &Self) -> Option<core::cmp::Ordering> { Some(self.cmp(other)) }
+}
+
 impl std::ops::Deref for StateAddress {
     type Target = [u8; STATE_TREE_DEPTH];
 
-- 
2.43.0


From e11918d0312540a67c9ce1d9c5371eccbf4701c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:01 +0000
Subject: [PATCH 13/46] fix: serialize calls and tapes which need more than 256
 bytes of scratch

---
 cli/src/runner.rs        | 4 ++--
 sdk/src/common/traits.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cli/src/runner.rs b/cli/src/runner.rs
index 25df3cb..e489500 100644
--- a/cli/src/runner.rs
+++ b/cli/src/runner.rs
@@ -17,7 +17,7 @@ use mozak_sdk::common::types::{
 use plonky2::field::extension::Extendable;
 use plonky2::hash::hash_types::RichField;
 use plonky2::plonk::config::{AlgebraicHasher, GenericConfig};
-use rkyv::rancor::{Panic, Strategy};
+use rkyv::rancor::{Failure, Strategy};
 use rkyv::ser::AllocSerializer;
 use starky::config::StarkConfig;
 
@@ -114,7 +114,7 @@ pub fn raw_tapes_from_system_tape<F: std::io::Read>(
     {
         fn serialise<T>(tape: &T, dgb_string: &str) -> Vec<u8>
         where
-            T: rkyv::Archive + rkyv::Serialize<Strategy<AllocSerializer<256>, Panic>>, {
+            T: rkyv::Archive + rkyv::Serialize<Strategy<AllocSerializer<256>, Failure>>, {
             let tape_bytes = rkyv::to_bytes::<_, 256, _>(tape).unwrap().into();
             length_prefixed_bytes(tape_bytes, dgb_string)
         }
diff --git a/sdk/src/common/traits.rs b/sdk/src/common/traits.rs
index 3bc0c67..0448e03 100644
--- a/sdk/src/common/traits.rs
+++ b/sdk/src/common/traits.rs
@@ -1,4 +1,4 @@
-use rkyv::rancor::{Panic, Strategy};
+use rkyv::rancor::{Failure, Panic, Strategy};
 use rkyv::ser::allocator::{AllocationTracker, GlobalAllocator};
 use rkyv::ser::{AllocSerializer, Composite};
 use rkyv::util::AlignedVec;
@@ -8,7 +8,7 @@ use crate::common::types::{Event, ProgramIdentifier};
 
 pub trait RkyvSerializable = rkyv::Serialize<
         Strategy<Composite<AlignedVec, AllocationTracker<GlobalAllocator>, Panic>, Panic>,
-    > + Serialize<Strategy<AllocSerializer<256>, Panic>>;
+    > + Serialize<Strategy<AllocSerializer<256>, Failure>>;
 pub trait CallArgument = Sized + RkyvSerializable;
 pub trait CallReturn = ?Sized + Clone + Default + RkyvSerializable + Archive;
 
-- 
2.43.0


From c32030612b792008bf66162dfebb05db2ef14e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:49 +0000
Subject: [PATCH 14/46] fix: trap when a program aborts instead of running into
 the code that follows

---
 runner/src/decode.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/runner/src/decode.rs b/runner/src/decode.rs
index b0c64c4..f9911c2 100644
--- a/runner/src/decode.rs
+++ b/runner/src/decode.rs
@@ -237,6 +237,9 @@ pub fn decode_instruction(pc: u32, word: u32) -> Result<Instruction, DecodingErr
             // For RISC-V this would be EBREAK,
             // but so far we implemented it as a no-op.
             (0x0, 0x1) => nop,
+            // Writing to a read-only CSR is illegal, and aborting programs (and so std programs
+            // that panic) rely on that: their `unimp` is `csrrw x0, cycle, x0`.
+            (0x1 | 0x5, csr) if csr >> 10 == 0b11 => return default(),
             // For RISC-V this would be (Op::CSRRW, itype),
             // but so far we implemented it as a no-op.
             (0x1, _) => nop,
-- 
2.43.0


From c7597f84f02a6c678f117f8a2807504d73f8efb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:59 +0000
Subject: [PATCH 15/46] fix: access archives in guests only where they are
 aligned

---
 sdk/src/common/system.rs    | 33 +++++++++++++++++++++------------
 sdk/src/mozakvm/calltape.rs | 37 +++++++++++++++++--------------------
 2 files changed, 38 insertions(+), 32 deletions(-)

diff --git a/sdk/src/common/system.rs b/sdk/src/common/system.rs
index 39291c2..0c72f8b 100644
--- a/sdk/src/common/system.rs
+++ b/sdk/src/common/system.rs
@@ -9,6 +9,9 @@ use {
     crate::core::ecall::{
         call_tape_read, event_tape_read, ioread_private, ioread_public, self_prog_id_tape_read,
     },
+    core::mem::size_of,
+    rkyv::util::AlignedVec,
+    rkyv::vec::ArchivedVec,
     std::collections::BTreeSet,
 };
 #[cfg(not(target_os = "mozakvm"))]
@@ -88,6 +91,22 @@ pub(crate) static mut SYSTEM_TAPE: Lazy<SystemTape> = Lazy::new(|| {
     }
 });
 
+#[cfg(target_os = "mozakvm")]
+/// Reads a length-prefixed, rkyv-serialized vector via ECALLs.
+///
+/// The returned (and deliberately leaked) buffer is aligned such that the
+/// vector can be accessed in place. Without a tape, that's an empty vector,
+/// which is all zeroes.
+fn read_archive(tape_read: fn(&mut [u8])) -> &'static [u8] {
+    let mut len_bytes = [0; 4];
+    tape_read(&mut len_bytes);
+    let len: usize = u32::from_le_bytes(len_bytes).try_into().unwrap();
+    let buf: &'static mut AlignedVec = Box::leak(Box::new(AlignedVec::new()));
+    buf.resize(len.max(size_of::<ArchivedVec<u64>>()), 0);
+    tape_read(&mut buf[..len]);
+    buf
+}
+
 #[cfg(target_os = "mozakvm")]
 /// Populates a `MozakVM` [`CallTapeType`] via ECALLs.
 ///
@@ -98,12 +117,7 @@ pub(crate) static mut SYSTEM_TAPE: Lazy<SystemTape> = Lazy::new(|| {
 /// This function deliberately leaks the backing buffer for the storage of the
 /// returned call tape.
 fn populate_call_tape(self_prog_id: ProgramIdentifier) -> CallTapeType {
-    let mut len_bytes = [0; 4];
-    call_tape_read(&mut len_bytes);
-    let len: usize = u32::from_le_bytes(len_bytes).try_into().unwrap();
-    let buf: &'static mut Vec<u8> = Box::leak(Box::new(vec![0; len]));
-    call_tape_read(buf);
-
+    let buf = read_archive(call_tape_read);
     let archived_cpc_messages = unsafe { rkyv::access_unchecked::<Vec<CrossProgramCall>>(buf) };
 
     let cast_list: Vec<ProgramIdentifier> = archived_cpc_messages
@@ -134,12 +148,7 @@ fn populate_call_tape(self_prog_id: ProgramIdentifier) -> CallTapeType {
 /// This function deliberately leaks the backing buffer for the storage of the
 /// returned event tape.
 fn populate_event_tape(self_prog_id: ProgramIdentifier) -> EventTapeType {
-    let mut len_bytes = [0; 4];
-    event_tape_read(&mut len_bytes);
-    let len: usize = u32::from_le_bytes(len_bytes).try_into().unwrap();
-    let buf: &'static mut Vec<u8> = Box::leak(Box::new(vec![0; len]));
-    event_tape_read(buf);
-
+    let buf = read_archive(event_tape_read);
     let canonical_ordered_temporal_hints =
         unsafe { rkyv::access_unchecked::<Vec<CanonicalOrderedTemporalHints>>(buf) };
     EventTapeType {
diff --git a/sdk/src/mozakvm/calltape.rs b/sdk/src/mozakvm/calltape.rs
index 4cc5245..e9a8254 100644
--- a/sdk/src/mozakvm/calltape.rs
+++ b/sdk/src/mozakvm/calltape.rs
@@ -1,9 +1,22 @@
 use rkyv::rancor::{Panic, Strategy};
+use rkyv::util::AlignedVec;
 use rkyv::{Archive, Deserialize};
 
 use crate::common::traits::{Call, CallArgument, CallReturn, SelfIdentify};
 use crate::common::types::{CrossProgramCall, ProgramIdentifier};
 
+/// Deserializes a message, which may stand anywhere on the tape, but can only
+/// be accessed where it is aligned
+fn from_message<T>(message: &[u8]) -> T
+where
+    T: Archive,
+    T::Archived: Deserialize<T, Strategy<(), Panic>>, {
+    let mut aligned = AlignedVec::with_capacity(message.len());
+    aligned.extend_from_slice(message);
+    let archived = unsafe { rkyv::access_unchecked::<T>(&aligned) };
+    archived.deserialize(Strategy::wrap(&mut ())).unwrap()
+}
+
 /// Represents the `CallTape` under `mozak-vm`
 #[derive(Default, Clone)]
 pub struct CallTape {
@@ -68,13 +81,7 @@ impl Call for CallTape {
         assert!(self.is_casted_actor(&recipient_program));
 
         // Deserialize the `arguments` seen on the tape, and assert
-        let zcd_args = unsafe { rkyv::access_unchecked::<A>(&cpcmsg.argument.0[..]) };
-        let deserialized_args =
-            <<A as Archive>::Archived as Deserialize<A, Strategy<(), Panic>>>::deserialize(
-                zcd_args,
-                Strategy::wrap(&mut ()),
-            )
-            .unwrap();
+        let deserialized_args: A = from_message(&cpcmsg.argument.0);
         assert!(deserialized_args == argument);
 
         // Ensure we mark this index as "read"
@@ -83,12 +90,7 @@ impl Call for CallTape {
         // Return the claimed return value as seen on the tape
         // It remains that specific program's prerogative to ensure
         // that the return value used here is according to expectation
-        let zcd_ret = unsafe { rkyv::access_unchecked::<R>(&cpcmsg.return_.0[..]) };
-        <<R as Archive>::Archived as Deserialize<R, Strategy<(), Panic>>>::deserialize(
-            zcd_ret,
-            Strategy::wrap(&mut ()),
-        )
-        .unwrap()
+        from_message(&cpcmsg.return_.0)
     }
 
     #[allow(clippy::similar_names)]
@@ -131,13 +133,8 @@ impl Call for CallTape {
                 // Before accepting, make sure that caller was a part of castlist
                 assert!(self.is_casted_actor(&caller));
 
-                let archived_args =
-                    unsafe { rkyv::access_unchecked::<A>(zcd_cpcmsg.argument.0.as_slice()) };
-                let args: A = archived_args.deserialize(Strategy::wrap(&mut ())).unwrap();
-
-                let archived_ret =
-                    unsafe { rkyv::access_unchecked::<R>(zcd_cpcmsg.return_.0.as_slice()) };
-                let ret: R = archived_ret.deserialize(Strategy::wrap(&mut ())).unwrap();
+                let args: A = from_message(zcd_cpcmsg.argument.0.as_slice());
+                let ret: R = from_message(zcd_cpcmsg.return_.0.as_slice());
 
                 return Some((caller, args, ret));
             }
-- 
2.43.0


From aa3202f61c7fe03fe9c1e62717e41deb3cd60874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:09 +0000
Subject: [PATCH 16/46] Read access to the cross-table lookups for runtime
 monitors (cfg mozak_verif)

---
 circuits/src/stark/mozak_stark.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/circuits/src/stark/mozak_stark.rs b/circuits/src/stark/mozak_stark.rs
index 847534a..da172f0 100644
--- a/circuits/src/stark/mozak_stark.rs
+++ b/circuits/src/stark/mozak_stark.rs
@@ -535,6 +535,14 @@ impl<Row: IntoIterator<Item = Column>> TableWithTypedOutput<Row> {
     }
 }
 
+/// Read access for runtime monitors.
+#[cfg(mozak_verif)]
+impl<Row> TableWithTypedOutput<Row> {
+    pub fn verif_parts(&self) -> (TableKind, &Row, &Column) {
+        (self.kind, &self.columns, &self.filter_column)
+    }
+}
+
 impl<Row> TableWithTypedOutput<Row> {
     pub fn new(kind: TableKind, columns: Row, filter_column: Column) -> Self {
         Self {
-- 
2.43.0


From 99d16ffb22a43022ba9f3b188743a057d773702e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:03 +0000
Subject: [PATCH 17/46] fix: the quotient sign's special case is for -2^31 /
 -1, not for the dividend -2 ^ 31 (which is -31)

---
 circuits/src/cpu/generation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuits/src/cpu/generation.rs b/circuits/src/cpu/generation.rs
index 7f4f2a8..c44749b 100644
--- a/circuits/src/cpu/generation.rs
+++ b/circuits/src/cpu/generation.rs
@@ -276,7 +276,7 @@ fn generate_div_row<F: RichField>(row: &mut CpuState<F>, inst: &Instruction, aux
         row.quotient_value = from_u32(quotient_full_range as u32);
         row.quotient_sign = F::from_bool(quotient_full_range.is_negative());
         row.skip_check_quotient_sign = F::from_bool(quotient_full_range == 0);
-        if dividend_full_range == -2 ^ 31 && divisor_full_range == -1 {
+        if dividend_full_range == i64::from(i32::MIN) && divisor_full_range == -1 {
             // Special case for dividend == -2^31, divisor == -1:
             // quotient_sign == 1 (quotient = -2^31).
             row.skip_check_quotient_sign = F::ONE;
-- 
2.43.0


From d357b098324d026401ffa57ef0d2d184250634cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:03 +0000
Subject: [PATCH 18/46] fix: hashing the last bytes of the address space
 overflowed in trace generation

---
 circuits/src/poseidon2_sponge/generation.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/circuits/src/poseidon2_sponge/generation.rs b/circuits/src/poseidon2_sponge/generation.rs
index 2f97532..0d4a5fb 100644
--- a/circuits/src/poseidon2_sponge/generation.rs
+++ b/circuits/src/poseidon2_sponge/generation.rs
@@ -40,7 +40,8 @@ fn unroll_sponge_data<F: RichField>(row: &Row<F>) -> Vec<Poseidon2Sponge<F>> {
             output: sponge_datum.output,
             gen_output: sponge_datum.gen_output,
         });
-        input_addr += rate_size;
+        // (The address after the last chunk may be just past the end of memory.)
+        input_addr = input_addr.wrapping_add(rate_size);
         input_len -= rate_size;
     }
 
-- 
2.43.0


From 84afa2daac98dbbffb1e2a06039daf66962e9e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:04 +0000
Subject: [PATCH 19/46] fix: an empty tape read followed by a non-empty one
 could not be proven

---
 circuits/src/storage_device/stark.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/circuits/src/storage_device/stark.rs b/circuits/src/storage_device/stark.rs
index 6ed9de2..fe667ca 100644
--- a/circuits/src/storage_device/stark.rs
+++ b/circuits/src/storage_device/stark.rs
@@ -71,8 +71,13 @@ fn generate_constraints<'a, T: Copy>(
     //  2) if nv.is_storage_device() == 1: lv.size == 0
 
     // If lv.is_storage_device() == 1 && nv.size != 0:
-    //      nv.is_lv_and_nv_are_memory_rows == 1
-    constraints.always(lv.ops.is_storage_device * nv.size * (nv.is_lv_and_nv_are_memory_rows - 1));
+    //      nv.is_lv_and_nv_are_memory_rows == 1,
+    // unless nv starts the next storage device operation (then lv.size == 0)
+    constraints.always(
+        lv.ops.is_storage_device
+            * nv.size
+            * (nv.is_lv_and_nv_are_memory_rows + nv.ops.is_storage_device - 1),
+    );
 
     constraints
 }
-- 
2.43.0


From bf0c49f85550f8eec5abd8e69c7aed487be9aa6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:05 +0000
Subject: [PATCH 20/46] fix: range-check the difference of taken BLTU branches

---
 circuits/src/stark/mozak_stark.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/circuits/src/stark/mozak_stark.rs b/circuits/src/stark/mozak_stark.rs
index da172f0..5384841 100644
--- a/circuits/src/stark/mozak_stark.rs
+++ b/circuits/src/stark/mozak_stark.rs
@@ -716,6 +716,7 @@ impl Lookups for RangecheckTable {
             memory::columns::rangecheck_looking(),
             cpu::columns::rangecheck_looking(),
             ops::add::columns::rangecheck_looking(),
+            ops::blt_taken::columns::rangecheck_looking(),
             register,
         ]
         .collect();
-- 
2.43.0


From 46d9cf2daabe8deffa992aced754f7dc44484ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:05 +0000
Subject: [PATCH 21/46] fix: bind the event tape's buffer address to register
 a1, as for the other tapes

---
 circuits/src/storage_device/columns.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/circuits/src/storage_device/columns.rs b/circuits/src/storage_device/columns.rs
index 281531b..1bfa94c 100644
--- a/circuits/src/storage_device/columns.rs
+++ b/circuits/src/storage_device/columns.rs
@@ -8,8 +8,9 @@ use crate::cross_table_lookup::{Column, ColumnWithTypedInput};
 use crate::memory::columns::MemoryCtl;
 use crate::register::RegisterCtl;
 use crate::stark::mozak_stark::{
-    CallTapeTable, CastListCommitmentTapeTable, EventsCommitmentTapeTable, SelfProgIdTapeTable,
-    StorageDevicePrivateTable, StorageDevicePublicTable, TableKind, TableWithTypedOutput,
+    CallTapeTable, CastListCommitmentTapeTable, EventTapeTable, EventsCommitmentTapeTable,
+    SelfProgIdTapeTable, StorageDevicePrivateTable, StorageDevicePublicTable, TableKind,
+    TableWithTypedOutput,
 };
 use crate::tape_commitments::columns::TapeCommitmentCTL;
 
@@ -109,6 +110,7 @@ pub fn register_looking() -> Vec<TableWithTypedOutput<RegisterCtl<Column>>> {
         StorageDevicePrivateTable::new(data, COL_MAP.ops.is_storage_device),
         StorageDevicePublicTable::new(data, COL_MAP.ops.is_storage_device),
         CallTapeTable::new(data, COL_MAP.ops.is_storage_device),
+        EventTapeTable::new(data, COL_MAP.ops.is_storage_device),
         EventsCommitmentTapeTable::new(data, COL_MAP.ops.is_storage_device),
         CastListCommitmentTapeTable::new(data, COL_MAP.ops.is_storage_device),
         SelfProgIdTapeTable::new(data, COL_MAP.ops.is_storage_device),
-- 
2.43.0


From 422529880a59c6edefcec0e745e1b44572b98341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:23 +0000
Subject: [PATCH 22/46] fix: verifiers check the shape of a proof before using
 it

A proof with missing or superfluous openings, cap entries or query rounds
made the verifiers panic (missing openings are unwrapped, the degree is
read off the first query round, caps of odd sizes have no height) instead
of rejecting it.
---
 circuits/src/stark/batch_verifier.rs | 16 ++++-
 circuits/src/stark/verifier.rs       | 93 +++++++++++++++++++++-------
 2 files changed, 87 insertions(+), 22 deletions(-)

diff --git a/circuits/src/stark/batch_verifier.rs b/circuits/src/stark/batch_verifier.rs
index 182d048..145336a 100644
--- a/circuits/src/stark/batch_verifier.rs
+++ b/circuits/src/stark/batch_verifier.rs
@@ -22,7 +22,10 @@ use crate::stark::batch_prover::{
 use crate::stark::permutation::challenge::GrandProductChallengeTrait;
 use crate::stark::proof::{BatchProof, StarkProof, StarkProofChallenges};
 use crate::stark::prover::get_program_id;
-use crate::stark::verifier::{verify_quotient_polynomials, verify_stark_proof_with_challenges};
+use crate::stark::verifier::{
+    num_zs, validate_caps_shape, validate_openings_shape, validate_proof_shape,
+    verify_quotient_polynomials, verify_stark_proof_with_challenges,
+};
 
 #[allow(clippy::too_many_lines)]
 pub fn batch_verify_proof<F, C, const D: usize>(
@@ -38,6 +41,17 @@ where
     <C as GenericConfig<D>>::Hasher: AlgebraicHasher<F>, {
     debug!("Starting Batch Verify");
 
+    all_starks!(mozak_stark, |stark, kind| {
+        let proof = &all_proof.proofs[kind];
+        let num_zs = num_zs(mozak_stark, kind, config);
+        if public_table_kinds.contains(&kind) {
+            validate_proof_shape(stark, proof, config, num_zs)?;
+        } else {
+            validate_openings_shape(stark, &proof.openings, config, num_zs)?;
+        }
+    });
+    validate_caps_shape(&all_proof.batch_stark_proof, config)?;
+
     let sorted_degree_bits = sort_degree_bits(public_table_kinds, degree_bits);
 
     let mut challenger = Challenger::<F, C::Hasher>::new();
diff --git a/circuits/src/stark/verifier.rs b/circuits/src/stark/verifier.rs
index 6aade2c..818e93c 100644
--- a/circuits/src/stark/verifier.rs
+++ b/circuits/src/stark/verifier.rs
@@ -16,8 +16,10 @@ use starky::stark::{LookupConfig, Stark};
 
 use super::mozak_stark::{all_starks, MozakStark, TableKind, TableKindSetBuilder};
 use super::proof::AllProof;
-use crate::cross_table_lookup::{verify_cross_table_lookups_and_public_sub_tables, CtlCheckVars};
-use crate::public_sub_table::reduce_public_sub_tables_values;
+use crate::cross_table_lookup::{
+    verify_cross_table_lookups_and_public_sub_tables, CrossTableLookup, CtlCheckVars,
+};
+use crate::public_sub_table::{reduce_public_sub_tables_values, PublicSubTable};
 use crate::stark::poly::eval_vanishing_poly;
 use crate::stark::proof::{AllProofChallenges, StarkOpeningSet, StarkProof, StarkProofChallenges};
 use crate::stark::prover::get_program_id;
@@ -34,6 +36,15 @@ where
     <C as GenericConfig<D>>::Hasher: AlgebraicHasher<F>, {
     debug!("Starting Verify");
 
+    all_starks!(mozak_stark, |stark, kind| {
+        validate_proof_shape(
+            stark,
+            &all_proof.proofs[kind],
+            config,
+            num_zs(mozak_stark, kind, config),
+        )?;
+    });
+
     let AllProofChallenges {
         stark_challenges,
         ctl_challenges,
@@ -182,7 +193,6 @@ pub(crate) fn verify_stark_proof_with_challenges<
 ) -> Result<()>
 where
 {
-    validate_proof_shape(stark, proof, config, ctl_vars.len())?;
     let degree_bits = proof.recover_degree_bits(config);
     verify_quotient_polynomials(
         stark,
@@ -222,7 +232,10 @@ where
     Ok(())
 }
 
-fn validate_proof_shape<F, C, S, const D: usize>(
+/// Checks everything about the shape of a proof that its use relies on, before
+/// any of it is used. The shape of the opening proof beyond that is checked in
+/// the FRI verifier (see `validate_fri_proof_shape`).
+pub(crate) fn validate_proof_shape<F, C, S, const D: usize>(
     stark: &S,
     proof: &StarkProof<F, C, D>,
     config: &StarkConfig,
@@ -232,16 +245,48 @@ where
     F: RichField + Extendable<D>,
     C: GenericConfig<D, F = F>,
     S: Stark<F, D>, {
-    let StarkProof {
-        trace_cap,
-        ctl_zs_cap,
-        quotient_polys_cap,
-        openings,
-        // The shape of the opening proof will be checked in the FRI verifier (see
-        // validate_fri_proof_shape), so we ignore it here.
-        opening_proof: _,
-    } = proof;
+    let first_path = proof
+        .opening_proof
+        .query_round_proofs
+        .first()
+        .and_then(|round| round.initial_trees_proof.evals_proofs.first())
+        .map(|(_, path)| path.siblings.len());
+    // The length of the first path determines the degree, see
+    // `recover_degree_bits`.
+    ensure!(first_path.is_some_and(|len| {
+        (config.fri_config.rate_bits..=F::TWO_ADICITY)
+            .contains(&(config.fri_config.cap_height + len))
+    }));
+
+    validate_caps_shape(proof, config)?;
+    validate_openings_shape(stark, &proof.openings, config, num_ctl_zs)
+}
 
+pub(crate) fn validate_caps_shape<F, C, const D: usize>(
+    proof: &StarkProof<F, C, D>,
+    config: &StarkConfig,
+) -> anyhow::Result<()>
+where
+    F: RichField + Extendable<D>,
+    C: GenericConfig<D, F = F>, {
+    let cap_len = 1 << config.fri_config.cap_height;
+
+    ensure!(proof.trace_cap.len() == cap_len);
+    ensure!(proof.ctl_zs_cap.len() == cap_len);
+    ensure!(proof.quotient_polys_cap.len() == cap_len);
+
+    Ok(())
+}
+
+pub(crate) fn validate_openings_shape<F, S, const D: usize>(
+    stark: &S,
+    openings: &StarkOpeningSet<F, D>,
+    config: &StarkConfig,
+    num_ctl_zs: usize,
+) -> anyhow::Result<()>
+where
+    F: RichField + Extendable<D>,
+    S: Stark<F, D>, {
     let StarkOpeningSet {
         local_values,
         next_values,
@@ -251,14 +296,6 @@ where
         quotient_polys,
     } = openings;
 
-    let degree_bits = proof.recover_degree_bits(config);
-    let fri_params = config.fri_params(degree_bits);
-    let cap_height = fri_params.config.cap_height;
-
-    ensure!(trace_cap.height() == cap_height);
-    ensure!(ctl_zs_cap.height() == cap_height);
-    ensure!(quotient_polys_cap.height() == cap_height);
-
     ensure!(local_values.len() == S::COLUMNS);
     ensure!(next_values.len() == S::COLUMNS);
     ensure!(ctl_zs.len() == num_ctl_zs);
@@ -269,6 +306,20 @@ where
     Ok(())
 }
 
+/// Number of `Z` polynomials a table has for cross-table lookups and public
+/// sub-tables.
+pub(crate) fn num_zs<F: RichField + Extendable<D>, const D: usize>(
+    mozak_stark: &MozakStark<F, D>,
+    kind: TableKind,
+    config: &StarkConfig,
+) -> usize {
+    CrossTableLookup::num_ctl_zs(
+        &mozak_stark.cross_table_lookups,
+        kind,
+        config.num_challenges,
+    ) + PublicSubTable::num_zs(&mozak_stark.public_sub_tables, kind, config.num_challenges)
+}
+
 /// Evaluate the Lagrange polynomials `L_0` and `L_(n-1)` at a point `x`.
 /// `L_0(x) = (x^n - 1)/(n * (x - 1))`
 /// `L_(n-1)(x) = (x^n - 1)/(n * (g * x - 1))`, with `g` the first element of
-- 
2.43.0


From 4ed1ef92b4a6a5d9d61da8d9276bdc53c6547f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:08 +0000
Subject: [PATCH 23/46] fix: public sub-tables fix the order and the number of
 their rows

The argument for a public sub-table is about the multiset of its rows, and
the rows of the two tape commitments were single bytes: any permutation of
the bytes of a commitment was accepted.  The position of a row is now part
of the argument; the public values stay as they are.  The verifiers check
that there are values for exactly the declared rows and columns.
---
 circuits/src/public_sub_table.rs         | 51 +++++++++++++++++++++---
 circuits/src/stark/batch_verifier.rs     |  8 +++-
 circuits/src/stark/verifier.rs           |  8 +++-
 circuits/src/tape_commitments/columns.rs | 10 ++++-
 4 files changed, 67 insertions(+), 10 deletions(-)

diff --git a/circuits/src/public_sub_table.rs b/circuits/src/public_sub_table.rs
index 9d901a1..c4cd560 100644
--- a/circuits/src/public_sub_table.rs
+++ b/circuits/src/public_sub_table.rs
@@ -11,6 +11,7 @@
 //! CTL to `combine`, since the procedure is preceded by commitment to trace
 //! polynomials already
 #![allow(clippy::module_name_repetitions)]
+use anyhow::{ensure, Result};
 use itertools::{iproduct, Itertools};
 use plonky2::field::extension::Extendable;
 use plonky2::field::polynomial::PolynomialValues;
@@ -27,13 +28,18 @@ use crate::stark::permutation::challenge::{GrandProductChallenge, GrandProductCh
 /// Specifies a Subtable with `table.columns` and `table.filter_column`
 /// which the prover wants to make public. We include `num_rows` since
 /// it cannot be computed from `table` alone.
+///
+/// The last column of `table.columns` is the position of a row in the
+/// Subtable. It is what gives the values their order: the arguments below are
+/// about multisets of rows. Since positions are known to the verifier, they are
+/// not part of `PublicSubTableValues`.
 #[derive(Clone, Debug)]
 pub struct PublicSubTable {
     pub table: Table,
     pub num_rows: usize,
 }
 /// Actual values, as field elements, of the entries
-/// of `PublicSubTable`
+/// of `PublicSubTable`, in order and without their positions
 pub type PublicSubTableValues<F> = Vec<Vec<F>>;
 /// Plonky2 target version of `PublicSubTableValuesTarget`
 pub type PublicSubTableValuesTarget = Vec<Vec<Target>>;
@@ -47,6 +53,9 @@ impl PublicSubTable {
             * num_challenges
     }
 
+    /// Number of public values in a row, that is without its position.
+    fn num_values(&self) -> usize { self.table.columns.len() - 1 }
+
     /// Get `PublicSubTableValues` corresponding to `self`
     #[must_use]
     pub fn get_values<F: Field>(
@@ -68,7 +77,7 @@ impl PublicSubTable {
             .map(F::from_noncanonical_i64);
         let columns_if_filter_at_i = |i| -> Option<Vec<F>> {
             filter.eval_table(trace_table, i).is_one().then_some(
-                columns
+                columns[..self.num_values()]
                     .iter()
                     .map(|column| column.eval_table(trace_table, i))
                     .collect_vec(),
@@ -107,7 +116,7 @@ impl PublicSubTable {
     ) -> PublicSubTableValuesTarget {
         (0..self.num_rows)
             .map(|_| {
-                (0..self.table.columns.len())
+                (0..self.num_values())
                     .map(|_| builder.add_virtual_target())
                     .collect_vec()
             })
@@ -142,6 +151,29 @@ pub fn public_sub_table_data_and_values<F: RichField, const D: usize>(
     )
 }
 
+/// Checks that there are values for exactly the cells of the public sub-tables.
+///
+/// # Errors
+/// Errors if there are missing or superfluous values.
+pub fn validate_public_sub_table_values<F>(
+    public_sub_tables: &[PublicSubTable],
+    public_sub_table_values: &TableKindArray<Vec<PublicSubTableValues<F>>>,
+) -> Result<()> {
+    all_kind!(|kind| {
+        let sub_tables = public_sub_tables
+            .iter()
+            .filter(|sub_table| sub_table.table.kind == kind)
+            .collect_vec();
+        let values = &public_sub_table_values[kind];
+        ensure!(values.len() == sub_tables.len());
+        for (sub_table, values) in sub_tables.iter().zip(values) {
+            ensure!(values.len() == sub_table.num_rows);
+            ensure!(values.iter().all(|row| row.len() == sub_table.num_values()));
+        }
+    });
+    Ok(())
+}
+
 /// For each `PublicSubTableValues`, returns the compressed value
 /// created according to each `challenge`
 #[must_use]
@@ -160,7 +192,11 @@ pub fn reduce_public_sub_tables_values<F: Field>(
                     .map(|sub_table| {
                         sub_table
                             .iter()
-                            .map(|row| challenge.combine(row).inverse())
+                            .enumerate()
+                            .map(|(position, row)| {
+                                let position = F::from_canonical_usize(position);
+                                challenge.combine(row.iter().chain([&position])).inverse()
+                            })
                             .sum()
                     })
                     .collect_vec()
@@ -176,8 +212,11 @@ pub fn reduce_public_sub_table_targets<F: RichField + Extendable<D>, const D: us
 ) -> Target {
     let all_targets = targets
         .iter()
-        .map(|row| {
-            let mut combined = reduce_with_powers_circuit(builder, row, challenge.beta);
+        .enumerate()
+        .map(|(position, row)| {
+            let position = builder.constant(F::from_canonical_usize(position));
+            let row = row.iter().copied().chain([position]).collect_vec();
+            let mut combined = reduce_with_powers_circuit(builder, &row, challenge.beta);
             combined = builder.add(combined, challenge.gamma);
             builder.inverse(combined)
         })
diff --git a/circuits/src/stark/batch_verifier.rs b/circuits/src/stark/batch_verifier.rs
index 145336a..13e150e 100644
--- a/circuits/src/stark/batch_verifier.rs
+++ b/circuits/src/stark/batch_verifier.rs
@@ -15,7 +15,9 @@ use super::mozak_stark::{
     all_kind, all_starks, MozakStark, TableKind, TableKindArray, TableKindSetBuilder,
 };
 use crate::cross_table_lookup::{verify_cross_table_lookups_and_public_sub_tables, CtlCheckVars};
-use crate::public_sub_table::reduce_public_sub_tables_values;
+use crate::public_sub_table::{
+    reduce_public_sub_tables_values, validate_public_sub_table_values,
+};
 use crate::stark::batch_prover::{
     batch_fri_instances, batch_reduction_arity_bits, sort_degree_bits,
 };
@@ -51,6 +53,10 @@ where
         }
     });
     validate_caps_shape(&all_proof.batch_stark_proof, config)?;
+    validate_public_sub_table_values(
+        &mozak_stark.public_sub_tables,
+        &all_proof.public_sub_table_values,
+    )?;
 
     let sorted_degree_bits = sort_degree_bits(public_table_kinds, degree_bits);
 
diff --git a/circuits/src/stark/verifier.rs b/circuits/src/stark/verifier.rs
index 818e93c..5c749bc 100644
--- a/circuits/src/stark/verifier.rs
+++ b/circuits/src/stark/verifier.rs
@@ -19,7 +19,9 @@ use super::proof::AllProof;
 use crate::cross_table_lookup::{
     verify_cross_table_lookups_and_public_sub_tables, CrossTableLookup, CtlCheckVars,
 };
-use crate::public_sub_table::{reduce_public_sub_tables_values, PublicSubTable};
+use crate::public_sub_table::{
+    reduce_public_sub_tables_values, validate_public_sub_table_values, PublicSubTable,
+};
 use crate::stark::poly::eval_vanishing_poly;
 use crate::stark::proof::{AllProofChallenges, StarkOpeningSet, StarkProof, StarkProofChallenges};
 use crate::stark::prover::get_program_id;
@@ -44,6 +46,10 @@ where
             num_zs(mozak_stark, kind, config),
         )?;
     });
+    validate_public_sub_table_values(
+        &mozak_stark.public_sub_tables,
+        &all_proof.public_sub_table_values,
+    )?;
 
     let AllProofChallenges {
         stark_challenges,
diff --git a/circuits/src/tape_commitments/columns.rs b/circuits/src/tape_commitments/columns.rs
index 0b63820..6288e58 100644
--- a/circuits/src/tape_commitments/columns.rs
+++ b/circuits/src/tape_commitments/columns.rs
@@ -66,7 +66,10 @@ pub fn lookup_for_event_tape_commitment() -> TableWithTypedOutput<TapeCommitment
 pub fn make_event_commitment_tape_public() -> PublicSubTable {
     PublicSubTable {
         table: TapeCommitmentsTable::new(
-            vec![TAPE_COMMITMENTS.commitment_byte_row.byte],
+            vec![
+                TAPE_COMMITMENTS.commitment_byte_row.byte,
+                TAPE_COMMITMENTS.commitment_byte_row.index,
+            ],
             TAPE_COMMITMENTS.is_event_commitment_tape_row,
         ),
         num_rows: DIGEST_BYTES,
@@ -77,7 +80,10 @@ pub fn make_event_commitment_tape_public() -> PublicSubTable {
 pub fn make_castlist_commitment_tape_public() -> PublicSubTable {
     PublicSubTable {
         table: TapeCommitmentsTable::new(
-            vec![TAPE_COMMITMENTS.commitment_byte_row.byte],
+            vec![
+                TAPE_COMMITMENTS.commitment_byte_row.byte,
+                TAPE_COMMITMENTS.commitment_byte_row.index,
+            ],
             TAPE_COMMITMENTS.is_castlist_commitment_tape_row,
         ),
         num_rows: DIGEST_BYTES,
-- 
2.43.0


From 5c4610548b2cf6b34a59384bf8261ca8944c5e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:42 +0000
Subject: [PATCH 24/46] fix: challenges depend on the public values

The provers and verifiers drew the challenges for the lookup arguments
from the trace commitments alone ("TODO: Observe public values"), so the
rows of public sub-tables (the event and cast list commitments) could be
chosen after the challenges were known, such that the sums the verifier
compares come out right: any execution proved any commitment.
---
 circuits/src/public_sub_table.rs         | 66 ++++++++++++++++--------
 circuits/src/stark/batch_prover.rs       | 17 +++---
 circuits/src/stark/batch_verifier.rs     |  7 ++-
 circuits/src/stark/proof.rs              |  7 ++-
 circuits/src/stark/prover.rs             | 17 +++---
 circuits/src/stark/recursive_verifier.rs | 53 ++++++++++++++-----
 6 files changed, 113 insertions(+), 54 deletions(-)

diff --git a/circuits/src/public_sub_table.rs b/circuits/src/public_sub_table.rs
index c4cd560..c21ae19 100644
--- a/circuits/src/public_sub_table.rs
+++ b/circuits/src/public_sub_table.rs
@@ -12,7 +12,7 @@
 //! polynomials already
 #![allow(clippy::module_name_repetitions)]
 use anyhow::{ensure, Result};
-use itertools::{iproduct, Itertools};
+use itertools::{chain, iproduct, Itertools};
 use plonky2::field::extension::Extendable;
 use plonky2::field::polynomial::PolynomialValues;
 use plonky2::field::types::Field;
@@ -22,7 +22,7 @@ use plonky2::plonk::circuit_builder::CircuitBuilder;
 use plonky2::plonk::plonk_common::reduce_with_powers_circuit;
 
 use crate::cross_table_lookup::{partial_sums, CtlData, CtlZData};
-use crate::stark::mozak_stark::{all_kind, Table, TableKind, TableKindArray};
+use crate::stark::mozak_stark::{all_kind, PublicInputs, Table, TableKind, TableKindArray};
 use crate::stark::permutation::challenge::{GrandProductChallenge, GrandProductChallengeSet};
 
 /// Specifies a Subtable with `table.columns` and `table.filter_column`
@@ -125,30 +125,50 @@ impl PublicSubTable {
 }
 
 #[must_use]
-#[allow(clippy::module_name_repetitions)]
-pub fn public_sub_table_data_and_values<F: RichField, const D: usize>(
+pub fn public_sub_table_data<F: RichField, const D: usize>(
     trace_poly_values: &TableKindArray<Vec<PolynomialValues<F>>>,
     public_sub_tables: &[PublicSubTable],
     ctl_challenges: &GrandProductChallengeSet<F>,
-) -> (
-    TableKindArray<CtlData<F>>,
-    TableKindArray<Vec<PublicSubTableValues<F>>>,
-) {
+) -> TableKindArray<CtlData<F>> {
     let mut public_sub_table_data_per_table = all_kind!(|_kind| CtlData::default());
-    let mut public_sub_table_values_per_table = all_kind!(|_kind| Vec::default());
     for (&challenge, public_sub_table) in iproduct!(&ctl_challenges.challenges, public_sub_tables) {
         public_sub_table_data_per_table[public_sub_table.table.kind]
             .zs_columns
             .push(public_sub_table.get_ctlz_data(trace_poly_values, challenge));
     }
+    public_sub_table_data_per_table
+}
+
+#[must_use]
+pub fn public_sub_table_values<F: RichField>(
+    trace_poly_values: &TableKindArray<Vec<PolynomialValues<F>>>,
+    public_sub_tables: &[PublicSubTable],
+) -> TableKindArray<Vec<PublicSubTableValues<F>>> {
+    let mut public_sub_table_values_per_table = all_kind!(|_kind| Vec::default());
     for public_sub_table in public_sub_tables {
         public_sub_table_values_per_table[public_sub_table.table.kind]
             .push(public_sub_table.get_values(trace_poly_values));
     }
-    (
-        public_sub_table_data_per_table,
-        public_sub_table_values_per_table,
+    public_sub_table_values_per_table
+}
+
+/// Everything public about an execution, in the order it is observed by the
+/// challenger. This has to happen before any challenges are drawn: otherwise
+/// the public values can be chosen to suit the challenges.
+pub(crate) fn public_values<T: Copy>(
+    public_inputs: &PublicInputs<T>,
+    public_sub_table_values: &TableKindArray<Vec<Vec<Vec<T>>>>,
+) -> Vec<T> {
+    chain!(
+        [public_inputs.entry_point],
+        public_sub_table_values
+            .into_iter()
+            .flatten()
+            .flatten()
+            .flatten()
+            .copied()
     )
+    .collect_vec()
 }
 
 /// Checks that there are values for exactly the cells of the public sub-tables.
@@ -224,20 +244,25 @@ pub fn reduce_public_sub_table_targets<F: RichField + Extendable<D>, const D: us
     builder.add_many(all_targets)
 }
 
-pub fn public_sub_table_values_and_reduced_targets<F: RichField + Extendable<D>, const D: usize>(
+#[must_use]
+pub fn public_sub_table_values_targets<F: RichField + Extendable<D>, const D: usize>(
     builder: &mut CircuitBuilder<F, D>,
     public_sub_tables: &[PublicSubTable],
-    ctl_challenges: &GrandProductChallengeSet<Target>,
-) -> (
-    TableKindArray<Vec<PublicSubTableValuesTarget>>,
-    TableKindArray<Vec<Target>>,
-) {
+) -> TableKindArray<Vec<PublicSubTableValuesTarget>> {
     let mut public_sub_table_values_targets = TableKindArray::<Vec<_>>::default();
     for public_sub_table in public_sub_tables {
         let targets = public_sub_table.to_targets(builder);
         public_sub_table_values_targets[public_sub_table.table.kind].push(targets);
     }
+    public_sub_table_values_targets
+}
 
+pub fn reduced_public_sub_tables_targets<F: RichField + Extendable<D>, const D: usize>(
+    builder: &mut CircuitBuilder<F, D>,
+    public_sub_tables: &[PublicSubTable],
+    public_sub_table_values_targets: &TableKindArray<Vec<PublicSubTableValuesTarget>>,
+    ctl_challenges: &GrandProductChallengeSet<Target>,
+) -> TableKindArray<Vec<Target>> {
     let mut reduced_public_sub_table_targets = TableKindArray::<Vec<_>>::default();
 
     for challenge in &ctl_challenges.challenges {
@@ -252,8 +277,5 @@ pub fn public_sub_table_values_and_reduced_targets<F: RichField + Extendable<D>,
                 .push(reduce_public_sub_table_targets(builder, challenge, targets));
         }
     }
-    (
-        public_sub_table_values_targets,
-        reduced_public_sub_table_targets,
-    )
+    reduced_public_sub_table_targets
 }
diff --git a/circuits/src/stark/batch_prover.rs b/circuits/src/stark/batch_prover.rs
index 7902312..b2150b1 100644
--- a/circuits/src/stark/batch_prover.rs
+++ b/circuits/src/stark/batch_prover.rs
@@ -37,7 +37,7 @@ use super::proof::{BatchProof, StarkOpeningSet, StarkProof};
 use crate::cross_table_lookup::ctl_utils::debug_ctl;
 use crate::cross_table_lookup::{cross_table_lookup_data, CtlData};
 use crate::generation::{debug_traces, generate_traces};
-use crate::public_sub_table::public_sub_table_data_and_values;
+use crate::public_sub_table::{public_sub_table_data, public_sub_table_values, public_values};
 use crate::stark::mozak_stark::{all_kind, all_starks, PublicInputs};
 use crate::stark::permutation::challenge::GrandProductChallengeTrait;
 use crate::stark::poly::compute_quotient_polys;
@@ -445,6 +445,10 @@ where
     let bmt_trace_cap = batch_trace_commitments.batch_merkle_tree.cap.clone();
     challenger.observe_cap(&bmt_trace_cap);
 
+    let public_sub_table_values =
+        public_sub_table_values(&traces_poly_values, &mozak_stark.public_sub_tables);
+    challenger.observe_elements(&public_values(&public_inputs, &public_sub_table_values));
+
     let ctl_challenges = challenger.get_grand_product_challenge_set(config.num_challenges);
     let ctl_data_per_table = timed!(
         timing,
@@ -456,12 +460,11 @@ where
         )
     );
 
-    let (public_sub_table_data_per_table, public_sub_table_values) =
-        public_sub_table_data_and_values::<F, D>(
-            &traces_poly_values,
-            &mozak_stark.public_sub_tables,
-            &ctl_challenges,
-        );
+    let public_sub_table_data_per_table = public_sub_table_data::<F, D>(
+        &traces_poly_values,
+        &mozak_stark.public_sub_tables,
+        &ctl_challenges,
+    );
 
     let (proofs, batch_stark_proof) = batch_prove_with_commitments(
         mozak_stark,
diff --git a/circuits/src/stark/batch_verifier.rs b/circuits/src/stark/batch_verifier.rs
index 13e150e..b1d2bc7 100644
--- a/circuits/src/stark/batch_verifier.rs
+++ b/circuits/src/stark/batch_verifier.rs
@@ -16,7 +16,7 @@ use super::mozak_stark::{
 };
 use crate::cross_table_lookup::{verify_cross_table_lookups_and_public_sub_tables, CtlCheckVars};
 use crate::public_sub_table::{
-    reduce_public_sub_tables_values, validate_public_sub_table_values,
+    public_values, reduce_public_sub_tables_values, validate_public_sub_table_values,
 };
 use crate::stark::batch_prover::{
     batch_fri_instances, batch_reduction_arity_bits, sort_degree_bits,
@@ -67,7 +67,10 @@ where
     }
     challenger.observe_cap(&all_proof.batch_stark_proof.trace_cap);
 
-    // TODO: Observe public values.
+    challenger.observe_elements(&public_values(
+        &all_proof.public_inputs,
+        &all_proof.public_sub_table_values,
+    ));
 
     let ctl_challenges = challenger.get_grand_product_challenge_set(config.num_challenges);
 
diff --git a/circuits/src/stark/proof.rs b/circuits/src/stark/proof.rs
index bcbca47..41ad31d 100644
--- a/circuits/src/stark/proof.rs
+++ b/circuits/src/stark/proof.rs
@@ -21,7 +21,7 @@ use serde::{Deserialize, Serialize};
 use starky::config::StarkConfig;
 
 use super::mozak_stark::{all_kind, PublicInputs, TableKind, TableKindArray};
-use crate::public_sub_table::PublicSubTableValues;
+use crate::public_sub_table::{public_values, PublicSubTableValues};
 use crate::stark::permutation::challenge::{GrandProductChallengeSet, GrandProductChallengeTrait};
 
 #[allow(clippy::module_name_repetitions)]
@@ -397,7 +397,10 @@ impl<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize> A
             challenger.observe_cap(&proof.trace_cap);
         }
 
-        // TODO: Observe public values.
+        challenger.observe_elements(&public_values(
+            &self.public_inputs,
+            &self.public_sub_table_values,
+        ));
 
         let ctl_challenges = challenger.get_grand_product_challenge_set(config.num_challenges);
         challenger.compact();
diff --git a/circuits/src/stark/prover.rs b/circuits/src/stark/prover.rs
index e1a7362..05458cb 100644
--- a/circuits/src/stark/prover.rs
+++ b/circuits/src/stark/prover.rs
@@ -33,7 +33,7 @@ use super::proof::{AllProof, StarkOpeningSet, StarkProof};
 use crate::cross_table_lookup::ctl_utils::debug_ctl;
 use crate::cross_table_lookup::{cross_table_lookup_data, CtlData};
 use crate::generation::{debug_traces, generate_traces};
-use crate::public_sub_table::public_sub_table_data_and_values;
+use crate::public_sub_table::{public_sub_table_data, public_sub_table_values, public_values};
 use crate::stark::mozak_stark::PublicInputs;
 use crate::stark::permutation::challenge::GrandProductChallengeTrait;
 use crate::stark::poly::compute_quotient_polys;
@@ -141,6 +141,10 @@ where
         challenger.observe_cap(cap);
     }
 
+    let public_sub_table_values =
+        public_sub_table_values(traces_poly_values, &mozak_stark.public_sub_tables);
+    challenger.observe_elements(&public_values(&public_inputs, &public_sub_table_values));
+
     let ctl_challenges = challenger.get_grand_product_challenge_set(config.num_challenges);
     let ctl_data_per_table = timed!(
         timing,
@@ -152,12 +156,11 @@ where
         )
     );
 
-    let (public_sub_table_data_per_table, public_sub_table_values) =
-        public_sub_table_data_and_values::<F, D>(
-            traces_poly_values,
-            &mozak_stark.public_sub_tables,
-            &ctl_challenges,
-        );
+    let public_sub_table_data_per_table = public_sub_table_data::<F, D>(
+        traces_poly_values,
+        &mozak_stark.public_sub_tables,
+        &ctl_challenges,
+    );
 
     let proofs = timed!(
         timing,
diff --git a/circuits/src/stark/recursive_verifier.rs b/circuits/src/stark/recursive_verifier.rs
index a127163..b0e289c 100644
--- a/circuits/src/stark/recursive_verifier.rs
+++ b/circuits/src/stark/recursive_verifier.rs
@@ -37,12 +37,13 @@ use crate::cross_table_lookup::{
     verify_cross_table_lookups_and_public_sub_table_circuit, CrossTableLookup, CtlCheckVarsTarget,
 };
 use crate::public_sub_table::{
-    public_sub_table_values_and_reduced_targets, PublicSubTable, PublicSubTableValuesTarget,
+    public_sub_table_values_targets, public_values, reduced_public_sub_tables_targets,
+    PublicSubTable, PublicSubTableValuesTarget,
 };
 use crate::stark::batch_prover::{
     batch_fri_instances_target, batch_reduction_arity_bits, sort_degree_bits,
 };
-use crate::stark::mozak_stark::{MozakStark, TableKind};
+use crate::stark::mozak_stark::{MozakStark, PublicInputs, TableKind};
 use crate::stark::permutation::challenge::get_grand_product_challenge_set_target;
 use crate::stark::poly::eval_vanishing_poly_circuit;
 use crate::stark::proof::{
@@ -254,6 +255,16 @@ where
     }
 }
 
+fn public_inputs_target<const D: usize>(
+    stark_proof_with_pis_target: &TableKindArray<StarkProofWithPublicInputsTarget<D>>,
+) -> PublicInputs<Target> {
+    stark_proof_with_pis_target[TableKind::CpuSkeleton]
+        .public_inputs
+        .iter()
+        .copied()
+        .collect()
+}
+
 fn get_num_columns<F: RichField + Extendable<D>, S: Stark<F, D>, const D: usize>(
     _stark: &S,
 ) -> usize {
@@ -338,18 +349,25 @@ where
     }
     challenger.observe_cap(&batch_stark_proof_target.trace_cap);
 
+    let public_sub_table_values_targets =
+        public_sub_table_values_targets(&mut builder, &mozak_stark.public_sub_tables);
+    challenger.observe_elements(&public_values(
+        &public_inputs_target(&stark_proof_with_pis_target),
+        &public_sub_table_values_targets,
+    ));
+
     let ctl_challenges = get_grand_product_challenge_set_target(
         &mut builder,
         &mut challenger,
         inner_config.num_challenges,
     );
 
-    let (public_sub_table_values_targets, reduced_public_sub_table_targets) =
-        public_sub_table_values_and_reduced_targets(
-            &mut builder,
-            &mozak_stark.public_sub_tables,
-            &ctl_challenges,
-        );
+    let reduced_public_sub_table_targets = reduced_public_sub_tables_targets(
+        &mut builder,
+        &mozak_stark.public_sub_tables,
+        &public_sub_table_values_targets,
+        &ctl_challenges,
+    );
 
     verify_cross_table_lookups_and_public_sub_table_circuit(
         &mut builder,
@@ -599,18 +617,25 @@ where
         challenger.observe_cap(&pi.proof.trace_cap);
     }
 
+    let public_sub_table_values_targets =
+        public_sub_table_values_targets(&mut builder, &mozak_stark.public_sub_tables);
+    challenger.observe_elements(&public_values(
+        &public_inputs_target(&stark_proof_with_pis_target),
+        &public_sub_table_values_targets,
+    ));
+
     let ctl_challenges = get_grand_product_challenge_set_target(
         &mut builder,
         &mut challenger,
         inner_config.num_challenges,
     );
 
-    let (public_sub_table_values_targets, reduced_public_sub_table_targets) =
-        public_sub_table_values_and_reduced_targets(
-            &mut builder,
-            &mozak_stark.public_sub_tables,
-            &ctl_challenges,
-        );
+    let reduced_public_sub_table_targets = reduced_public_sub_tables_targets(
+        &mut builder,
+        &mozak_stark.public_sub_tables,
+        &public_sub_table_values_targets,
+        &ctl_challenges,
+    );
 
     verify_cross_table_lookups_and_public_sub_table_circuit(
         &mut builder,
-- 
2.43.0


From 4b16be8cbe5f23d97825bb895767ccfff674cd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:24 +0000
Subject: [PATCH 25/46] fix: stores write and loads read exactly the memory
 value

The stored value of SW and the loaded value of LW were not tied to the register,
and the AND that truncates the stored value of SB and SH was not looked up.
---
 circuits/src/cpu/columns.rs | 2 +-
 circuits/src/cpu/memory.rs  | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/circuits/src/cpu/columns.rs b/circuits/src/cpu/columns.rs
index a41ff47..433357b 100644
--- a/circuits/src/cpu/columns.rs
+++ b/circuits/src/cpu/columns.rs
@@ -411,7 +411,7 @@ pub fn lookup_for_storage_tables() -> TableWithTypedOutput<StorageDeviceCtl<Colu
 impl<T: core::ops::Add<Output = T>> OpSelectors<T> {
     #[must_use]
     pub fn ops_that_use_xor(self) -> T {
-        self.xor + self.or + self.and + self.srl + self.sll + self.sra
+        self.xor + self.or + self.and + self.srl + self.sll + self.sra + self.sb + self.sh
     }
 
     pub fn ops_that_shift(self) -> T { self.sll + self.srl + self.sra }
diff --git a/circuits/src/cpu/memory.rs b/circuits/src/cpu/memory.rs
index a47622d..445ebc0 100644
--- a/circuits/src/cpu/memory.rs
+++ b/circuits/src/cpu/memory.rs
@@ -35,6 +35,10 @@ pub(crate) fn signed_constraints<'a, P: Copy>(
     cb.always(
         (lv.inst.ops.sb + lv.inst.ops.sh) * (and_gadget.doubled_output - 2 * lv.mem_value_raw),
     );
+
+    // SW stores the whole RS1 register, LW loads the whole word.
+    cb.always(lv.inst.ops.sw * (lv.mem_value_raw - lv.op1_value));
+    cb.always(lv.inst.ops.lw * (lv.dst_value - lv.mem_value_raw));
 }
 
 pub(crate) fn constraints<'a, P: Copy>(
-- 
2.43.0


From 559b9a4178f1e3b09cc06f7df5b352eeeecde69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:52 +0000
Subject: [PATCH 26/46] fix: the program table tells all instructions apart

All fields of an instruction were added up into one column, without the sign of the
destination (so LB was LBU and LH was LHU), and the fields of the CPU row are not
range checked, so that other fields with the same sum were accepted.
---
 circuits/src/cpu/columns.rs       | 30 +++++--------------
 circuits/src/ops/add/mod.rs       | 35 ++++++----------------
 circuits/src/ops/blt_taken/mod.rs | 35 ++++++----------------
 circuits/src/program/columns.rs   | 49 +++++++++++++------------------
 4 files changed, 47 insertions(+), 102 deletions(-)

diff --git a/circuits/src/cpu/columns.rs b/circuits/src/cpu/columns.rs
index 433357b..729cc1c 100644
--- a/circuits/src/cpu/columns.rs
+++ b/circuits/src/cpu/columns.rs
@@ -436,28 +436,14 @@ pub fn lookup_for_program_rom() -> TableWithTypedOutput<ProgramRom<Column>> {
     CpuTable::new(
         ProgramRom {
             pc: inst.pc,
-            // Combine columns into a single column.
-            // - ops: This is an internal opcode, not the opcode from RISC-V, and can fit within 5
-            //   bits.
-            // - is_op1_signed and is_op2_signed: These fields occupy 1 bit each.
-            // - rs1_select, rs2_select, and rd_select: These fields require 5 bits each.
-            // - imm_value: This field requires 32 bits.
-            // Therefore, the total bit requirement is 5 * 6 + 32 = 62 bits, which is less than the
-            // size of the Goldilocks field.
-            // Note: The imm_value field, having more than 5 bits, must be positioned as the last
-            // column in the list to ensure the correct functioning of 'reduce_with_powers'.
-            inst_data: ColumnWithTypedInput::reduce_with_powers(
-                [
-                    ColumnWithTypedInput::ascending_sum(inst.ops),
-                    inst.is_op1_signed,
-                    inst.is_op2_signed,
-                    inst.rs1_selected,
-                    inst.rs2_selected,
-                    inst.rd_selected,
-                    inst.imm_value,
-                ],
-                1 << 5,
-            ),
+            op: ColumnWithTypedInput::ascending_sum(inst.ops),
+            is_op1_signed: inst.is_op1_signed,
+            is_op2_signed: inst.is_op2_signed,
+            is_dst_signed: inst.is_dst_signed,
+            rs1_selected: inst.rs1_selected,
+            rs2_selected: inst.rs2_selected,
+            rd_selected: inst.rd_selected,
+            imm_value: inst.imm_value,
         },
         CPU.is_running(),
     )
diff --git a/circuits/src/ops/add/mod.rs b/circuits/src/ops/add/mod.rs
index 2d9a71c..71ba82a 100644
--- a/circuits/src/ops/add/mod.rs
+++ b/circuits/src/ops/add/mod.rs
@@ -107,32 +107,15 @@ pub mod columns {
         AddTable::new(
             ProgramRom {
                 pc: inst.pc,
-                // Combine columns into a single column.
-                // - ops: This is an internal opcode, not the opcode from RISC-V, and can fit within
-                //   5 bits.
-                // - is_op1_signed and is_op2_signed: These fields occupy 1 bit each.
-                // - rs1_select, rs2_select, and rd_select: These fields require 5 bits each.
-                // - imm_value: This field requires 32 bits.
-                // Therefore, the total bit requirement is 5 * 6 + 32 = 62 bits, which is less than
-                // the size of the Goldilocks field.
-                // Note: The imm_value field, having more than 5 bits, must be positioned as the
-                // last column in the list to ensure the correct functioning of
-                // 'reduce_with_powers'.
-                inst_data: ColumnWithTypedInput::reduce_with_powers(
-                    [
-                        // TODO: don't hard-code ADD like this.
-                        ColumnWithTypedInput::constant(0),
-                        // TODO: use a struct here to name the components, and make IntoIterator,
-                        // like we do with our stark tables.
-                        ColumnWithTypedInput::constant(0),
-                        ColumnWithTypedInput::constant(0),
-                        inst.rs1_selected,
-                        inst.rs2_selected,
-                        inst.rd_selected,
-                        inst.imm_value,
-                    ],
-                    1 << 5,
-                ),
+                // TODO: don't hard-code ADD like this.
+                op: ColumnWithTypedInput::constant(0),
+                is_op1_signed: ColumnWithTypedInput::constant(0),
+                is_op2_signed: ColumnWithTypedInput::constant(0),
+                is_dst_signed: ColumnWithTypedInput::constant(0),
+                rs1_selected: inst.rs1_selected,
+                rs2_selected: inst.rs2_selected,
+                rd_selected: inst.rd_selected,
+                imm_value: inst.imm_value,
             },
             ADD.is_running,
         )
diff --git a/circuits/src/ops/blt_taken/mod.rs b/circuits/src/ops/blt_taken/mod.rs
index 1b931a0..d258c87 100644
--- a/circuits/src/ops/blt_taken/mod.rs
+++ b/circuits/src/ops/blt_taken/mod.rs
@@ -99,32 +99,15 @@ pub mod columns {
         BltTakenTable::new(
             ProgramRom {
                 pc: inst.pc,
-                // Combine columns into a single column.
-                // - ops: This is an internal opcode, not the opcode from RISC-V, and can fit within
-                //   5 bits.
-                // - is_op1_signed and is_op2_signed: These fields occupy 1 bit each.
-                // - rs1_select, rs2_select, and rd_select: These fields require 5 bits each.
-                // - imm_value: This field requires 32 bits.
-                // Therefore, the total bit requirement is 5 * 6 + 32 = 62 bits, which is less than
-                // the size of the Goldilocks field.
-                // Note: The imm_value field, having more than 5 bits, must be positioned as the
-                // last column in the list to ensure the correct functioning of
-                // 'reduce_with_powers'.
-                inst_data: ColumnWithTypedInput::reduce_with_powers(
-                    [
-                        // TODO: don't hard-code BLTU like this.
-                        ColumnWithTypedInput::constant(blt),
-                        // TODO: use a struct here to name the components, and make IntoIterator,
-                        // like we do with our stark tables.
-                        ColumnWithTypedInput::constant(0),
-                        ColumnWithTypedInput::constant(0),
-                        inst.rs1_selected,
-                        inst.rs2_selected,
-                        ColumnWithTypedInput::constant(0),
-                        inst.imm_value,
-                    ],
-                    1 << 5,
-                ),
+                // TODO: don't hard-code BLTU like this.
+                op: ColumnWithTypedInput::constant(blt),
+                is_op1_signed: ColumnWithTypedInput::constant(0),
+                is_op2_signed: ColumnWithTypedInput::constant(0),
+                is_dst_signed: ColumnWithTypedInput::constant(0),
+                rs1_selected: inst.rs1_selected,
+                rs2_selected: inst.rs2_selected,
+                rd_selected: ColumnWithTypedInput::constant(0),
+                imm_value: inst.imm_value,
             },
             COL_MAP.is_running,
         )
diff --git a/circuits/src/program/columns.rs b/circuits/src/program/columns.rs
index 52ddd76..9dde8a1 100644
--- a/circuits/src/program/columns.rs
+++ b/circuits/src/program/columns.rs
@@ -1,4 +1,3 @@
-use itertools::izip;
 use plonky2::hash::hash_types::RichField;
 
 use crate::columns_view::{columns_view_impl, make_col_map, NumberOfColumns};
@@ -17,39 +16,33 @@ pub struct ProgramRom<T> {
     // Design doc for CPU <> Program cross-table-lookup:
     // https://www.notion.so/0xmozak/Cross-Table-Lookup-bbe98d9471114c36a278f0c491f203e5#c3876d13c1f94b7ab154ea1f8b908181
     pub pc: T,
-    /// `inst_data` include:
-    /// - ops: This is an internal opcode, not the opcode from RISC-V
-    /// - `is_op1_signed` and `is_op2_signed`
-    /// - `rs1_select`, `rs2_select`, and `rd_select`
-    /// - `imm_value`
-    pub inst_data: T,
+    /// Everything about the instruction has its own column: combining them
+    /// into one would let a prover claim another instruction by choosing
+    /// values outside of the range of a field.
+    ///
+    /// This is an internal opcode, not the opcode from RISC-V
+    pub op: T,
+    pub is_op1_signed: T,
+    pub is_op2_signed: T,
+    pub is_dst_signed: T,
+    pub rs1_selected: T,
+    pub rs2_selected: T,
+    pub rd_selected: T,
+    pub imm_value: T,
 }
 
 impl<F: RichField> From<Instruction<F>> for ProgramRom<F> {
     fn from(inst: Instruction<F>) -> Self {
-        pub fn reduce_with_powers<F: RichField, I: IntoIterator<Item = F>>(
-            terms: I,
-            alpha: u64,
-        ) -> F {
-            izip!((0..).map(|i| F::from_canonical_u64(alpha.pow(i))), terms)
-                .map(|(base, val)| base * val)
-                .sum()
-        }
-
         Self {
             pc: inst.pc,
-            inst_data: reduce_with_powers(
-                [
-                    ascending_sum(inst.ops),
-                    inst.is_op1_signed,
-                    inst.is_op2_signed,
-                    inst.rs1_selected,
-                    inst.rs2_selected,
-                    inst.rd_selected,
-                    inst.imm_value,
-                ],
-                1 << 5,
-            ),
+            op: ascending_sum(inst.ops),
+            is_op1_signed: inst.is_op1_signed,
+            is_op2_signed: inst.is_op2_signed,
+            is_dst_signed: inst.is_dst_signed,
+            rs1_selected: inst.rs1_selected,
+            rs2_selected: inst.rs2_selected,
+            rd_selected: inst.rd_selected,
+            imm_value: inst.imm_value,
         }
     }
 }
-- 
2.43.0


From 350217f17dd6c323eaffe3aa70ec76a3c6e04b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:59 +0000
Subject: [PATCH 27/46] fix: out of range limbs can't cancel each other out

---
 circuits/src/rangecheck/columns.rs    |  2 +
 circuits/src/rangecheck/generation.rs | 25 +++++---
 circuits/src/rangecheck/stark.rs      | 85 +++++++++++++++++++++++++--
 3 files changed, 101 insertions(+), 11 deletions(-)

diff --git a/circuits/src/rangecheck/columns.rs b/circuits/src/rangecheck/columns.rs
index 7f78192..8150f79 100644
--- a/circuits/src/rangecheck/columns.rs
+++ b/circuits/src/rangecheck/columns.rs
@@ -9,6 +9,8 @@ pub struct RangeCheckColumnsView<T> {
     /// checked.
     pub limbs: [T; 4],
     pub multiplicity: T,
+    /// The bits of the multiplicity, to show that it is small.
+    pub multiplicity_bits: [T; 32],
 }
 columns_view_impl!(RangeCheckColumnsView);
 make_col_map!(RangeCheckColumnsView);
diff --git a/circuits/src/rangecheck/generation.rs b/circuits/src/rangecheck/generation.rs
index d13a88f..e289336 100644
--- a/circuits/src/rangecheck/generation.rs
+++ b/circuits/src/rangecheck/generation.rs
@@ -18,6 +18,13 @@ pub fn limbs_from_u32<F: RichField>(value: u32) -> [F; 4] {
     value.to_le_bytes().map(F::from_canonical_u8)
 }
 
+/// Decomposes a multiplicity into bits.
+fn bits_from_multiplicity<F: RichField>(multiplicity: F) -> [F; 32] {
+    let multiplicity = u32::try_from(multiplicity.to_canonical_u64())
+        .expect("Values should be range checked less than 2^32 times");
+    std::array::from_fn(|i| F::from_bool((multiplicity >> i) & 1 == 1))
+}
+
 /// extract the values with multiplicities
 pub fn extract_with_mul<F: RichField, Row>(trace: &[Row], looking_table: &Table) -> Vec<(F, F)>
 where
@@ -76,13 +83,17 @@ pub(crate) fn generate_rangecheck_trace<F: RichField>(
             .into_iter()
             // Sorting just for determinism:
             .sorted_by_key(|(v, _)| v.to_noncanonical_u64())
-            .map(|(v, multiplicity)| RangeCheckColumnsView {
-                multiplicity: multiplicity.into_iter().sum(),
-                limbs: limbs_from_u32(v.to_noncanonical_u64().try_into().unwrap_or_else(|_| {
-                    panic!(
-                        "We can only rangecheck values that actually fit in u32, but got: {v:#x?}"
-                    )
-                })),
+            .map(|(v, multiplicity)| {
+                let multiplicity = multiplicity.into_iter().sum();
+                RangeCheckColumnsView {
+                    multiplicity,
+                    multiplicity_bits: bits_from_multiplicity(multiplicity),
+                    limbs: limbs_from_u32(v.to_noncanonical_u64().try_into().unwrap_or_else(|_| {
+                        panic!(
+                            "We can only rangecheck values that actually fit in u32, but got: {v:#x?}"
+                        )
+                    })),
+                }
             })
             .collect(),
     )
diff --git a/circuits/src/rangecheck/stark.rs b/circuits/src/rangecheck/stark.rs
index da9d186..459ff02 100644
--- a/circuits/src/rangecheck/stark.rs
+++ b/circuits/src/rangecheck/stark.rs
@@ -1,10 +1,87 @@
+use std::marker::PhantomData;
+
+use expr::{Expr, ExprBuilder, StarkFrameTyped};
+use mozak_circuits_derive::StarkNameDisplay;
+use plonky2::field::extension::{Extendable, FieldExtension};
+use plonky2::field::packed::PackedField;
+use plonky2::hash::hash_types::RichField;
+use plonky2::iop::ext_target::ExtensionTarget;
+use plonky2::plonk::circuit_builder::CircuitBuilder;
+use starky::constraint_consumer::{ConstraintConsumer, RecursiveConstraintConsumer};
+use starky::evaluation_frame::StarkFrame;
+use starky::stark::Stark;
+
 use super::columns::RangeCheckColumnsView;
-use crate::columns_view::NumberOfColumns;
-use crate::unstark::Unstark;
+use crate::columns_view::{HasNamedColumns, NumberOfColumns};
+use crate::expr::{build_ext, build_packed, ConstraintBuilder};
+use crate::unstark::NoColumns;
 
+#[derive(Copy, Clone, Default, StarkNameDisplay)]
 #[allow(clippy::module_name_repetitions)]
-pub type RangeCheckStark<F, const D: usize> =
-    Unstark<F, D, RangeCheckColumnsView<F>, { RangeCheckColumnsView::<()>::NUMBER_OF_COLUMNS }>;
+pub struct RangeCheckStark<F, const D: usize> {
+    pub _f: PhantomData<F>,
+}
+
+impl<F, const D: usize> HasNamedColumns for RangeCheckStark<F, D> {
+    type Columns = RangeCheckColumnsView<F>;
+}
+
+const COLUMNS: usize = RangeCheckColumnsView::<()>::NUMBER_OF_COLUMNS;
+const PUBLIC_INPUTS: usize = 0;
+
+fn generate_constraints<'a, T: Copy>(
+    vars: &StarkFrameTyped<RangeCheckColumnsView<Expr<'a, T>>, NoColumns<Expr<'a, T>>>,
+) -> ConstraintBuilder<Expr<'a, T>> {
+    let lv = vars.local_values;
+    let mut constraints = ConstraintBuilder::default();
+
+    // The multiplicity doubles as the filter for looking up the limbs.  If it could
+    // be any field element, then rows whose limbs don't fit in a byte could cancel
+    // each other out.  As it is smaller than 2^32, the sum over all the rows with a
+    // given limb can not wrap around, and is only 0 when all of the summands are.
+    for bit in lv.multiplicity_bits {
+        constraints.always(bit.is_binary());
+    }
+    constraints
+        .always(lv.multiplicity - Expr::reduce_with_powers(lv.multiplicity_bits, 2));
+
+    constraints
+}
+
+impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for RangeCheckStark<F, D> {
+    type EvaluationFrame<FE, P, const D2: usize> = StarkFrame<P, P::Scalar, COLUMNS, PUBLIC_INPUTS>
+
+    where
+        FE: FieldExtension<D2, BaseField = F>,
+        P: PackedField<Scalar = FE>;
+    type EvaluationFrameTarget =
+        StarkFrame<ExtensionTarget<D>, ExtensionTarget<D>, COLUMNS, PUBLIC_INPUTS>;
+
+    fn eval_packed_generic<FE, P, const D2: usize>(
+        &self,
+        vars: &Self::EvaluationFrame<FE, P, D2>,
+        consumer: &mut ConstraintConsumer<P>,
+    ) where
+        FE: FieldExtension<D2, BaseField = F>,
+        P: PackedField<Scalar = FE>, {
+        let eb = ExprBuilder::default();
+        let constraints = generate_constraints(&eb.to_typed_starkframe(vars));
+        build_packed(constraints, consumer);
+    }
+
+    fn eval_ext_circuit(
+        &self,
+        builder: &mut CircuitBuilder<F, D>,
+        vars: &Self::EvaluationFrameTarget,
+        consumer: &mut RecursiveConstraintConsumer<F, D>,
+    ) {
+        let eb = ExprBuilder::default();
+        let constraints = generate_constraints(&eb.to_typed_starkframe(vars));
+        build_ext(constraints, builder, consumer);
+    }
+
+    fn constraint_degree(&self) -> usize { 3 }
+}
 
 #[cfg(test)]
 mod tests {
-- 
2.43.0


From c05182bd44da0343285a9e3cb51e6da3c28f285a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:59 +0000
Subject: [PATCH 28/46] fix: rows of Add and BltTaken can't cancel each other
 out

---
 circuits/src/ops/add/stark.rs       |  3 ++
 circuits/src/ops/blt_taken/stark.rs | 78 +++++++++++++++++++++++++++--
 2 files changed, 77 insertions(+), 4 deletions(-)

diff --git a/circuits/src/ops/add/stark.rs b/circuits/src/ops/add/stark.rs
index f4a19e9..6c9e9c5 100644
--- a/circuits/src/ops/add/stark.rs
+++ b/circuits/src/ops/add/stark.rs
@@ -42,6 +42,9 @@ fn generate_constraints<'a, T: Copy, U>(
     // even for a malicious prover.
     constraints.always((lv.dst_value - added) * (lv.dst_value - wrapped));
 
+    // Rows of multiplicity other than 0 or 1 could cancel each other out.
+    constraints.always(lv.is_running.is_binary());
+
     constraints
 }
 
diff --git a/circuits/src/ops/blt_taken/stark.rs b/circuits/src/ops/blt_taken/stark.rs
index 15f6b8e..661e10b 100644
--- a/circuits/src/ops/blt_taken/stark.rs
+++ b/circuits/src/ops/blt_taken/stark.rs
@@ -1,7 +1,77 @@
+use std::marker::PhantomData;
+
+use expr::{Expr, ExprBuilder, StarkFrameTyped};
+use mozak_circuits_derive::StarkNameDisplay;
+use plonky2::field::extension::{Extendable, FieldExtension};
+use plonky2::field::packed::PackedField;
+use plonky2::hash::hash_types::RichField;
+use plonky2::iop::ext_target::ExtensionTarget;
+use plonky2::plonk::circuit_builder::CircuitBuilder;
+use starky::constraint_consumer::{ConstraintConsumer, RecursiveConstraintConsumer};
+use starky::evaluation_frame::StarkFrame;
+use starky::stark::Stark;
+
 use super::columns::BltTaken;
-use crate::columns_view::NumberOfColumns;
-use crate::unstark::Unstark;
+use crate::columns_view::{HasNamedColumns, NumberOfColumns};
+use crate::expr::{build_ext, build_packed, ConstraintBuilder};
+use crate::unstark::NoColumns;
 
+#[derive(Copy, Clone, Default, StarkNameDisplay)]
 #[allow(clippy::module_name_repetitions)]
-pub type BltTakenStark<F, const D: usize> =
-    Unstark<F, D, BltTaken<F>, { BltTaken::<()>::NUMBER_OF_COLUMNS }>;
+pub struct BltTakenStark<F, const D: usize> {
+    pub _f: PhantomData<F>,
+}
+
+impl<F, const D: usize> HasNamedColumns for BltTakenStark<F, D> {
+    type Columns = BltTaken<F>;
+}
+
+const COLUMNS: usize = BltTaken::<()>::NUMBER_OF_COLUMNS;
+const PUBLIC_INPUTS: usize = 0;
+
+fn generate_constraints<'a, T: Copy>(
+    vars: &StarkFrameTyped<BltTaken<Expr<'a, T>>, NoColumns<Expr<'a, T>>>,
+) -> ConstraintBuilder<Expr<'a, T>> {
+    let lv = vars.local_values;
+    let mut constraints = ConstraintBuilder::default();
+
+    // Rows of multiplicity other than 0 or 1 could cancel each other out.
+    constraints.always(lv.is_running.is_binary());
+
+    constraints
+}
+
+impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for BltTakenStark<F, D> {
+    type EvaluationFrame<FE, P, const D2: usize> = StarkFrame<P, P::Scalar, COLUMNS, PUBLIC_INPUTS>
+
+    where
+        FE: FieldExtension<D2, BaseField = F>,
+        P: PackedField<Scalar = FE>;
+    type EvaluationFrameTarget =
+        StarkFrame<ExtensionTarget<D>, ExtensionTarget<D>, COLUMNS, PUBLIC_INPUTS>;
+
+    fn eval_packed_generic<FE, P, const D2: usize>(
+        &self,
+        vars: &Self::EvaluationFrame<FE, P, D2>,
+        consumer: &mut ConstraintConsumer<P>,
+    ) where
+        FE: FieldExtension<D2, BaseField = F>,
+        P: PackedField<Scalar = FE>, {
+        let eb = ExprBuilder::default();
+        let constraints = generate_constraints(&eb.to_typed_starkframe(vars));
+        build_packed(constraints, consumer);
+    }
+
+    fn eval_ext_circuit(
+        &self,
+        builder: &mut CircuitBuilder<F, D>,
+        vars: &Self::EvaluationFrameTarget,
+        consumer: &mut RecursiveConstraintConsumer<F, D>,
+    ) {
+        let eb = ExprBuilder::default();
+        let constraints = generate_constraints(&eb.to_typed_starkframe(vars));
+        build_ext(constraints, builder, consumer);
+    }
+
+    fn constraint_degree(&self) -> usize { 3 }
+}
-- 
2.43.0


From 084f006a83adc1d05c17f1cad0c4e0744c8c4b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:59 +0000
Subject: [PATCH 29/46] fix: signed loads extend the sign of the loaded value

---
 circuits/src/cpu/columns.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/circuits/src/cpu/columns.rs b/circuits/src/cpu/columns.rs
index 729cc1c..cb82b3d 100644
--- a/circuits/src/cpu/columns.rs
+++ b/circuits/src/cpu/columns.rs
@@ -321,8 +321,17 @@ pub fn rangecheck_looking() -> Vec<TableWithTypedOutput<RangeCheckCtl<Column>>>
             CPU.op2_value - CPU.op2_sign_bit * (1 << 32) + CPU.inst.is_op2_signed * (1 << 31),
             CPU.inst.is_op2_signed,
         ),
-        (CPU.dst_value - CPU.dst_sign_bit * 0xFFFF_FF00, ops.lb),
-        (CPU.dst_value - CPU.dst_sign_bit * 0xFFFF_0000, ops.lh),
+        // For the loaded value we also have to shift the narrow values to the top.
+        (
+            (CPU.mem_value_raw - CPU.dst_sign_bit * (1 << 8) + CPU.inst.is_dst_signed * (1 << 7))
+                * (1 << 24),
+            ops.lb,
+        ),
+        (
+            (CPU.mem_value_raw - CPU.dst_sign_bit * (1 << 16) + CPU.inst.is_dst_signed * (1 << 15))
+                * (1 << 16),
+            ops.lh,
+        ),
     ]
     .into_iter()
     .map(|(columns, filter)| CpuTable::new(RangeCheckCtl(columns), filter))
-- 
2.43.0


From ee9e798d25bb23ff354bc7d7ff18307237b8b5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:59 +0000
Subject: [PATCH 30/46] fix: the difference behind SLT is range checked

---
 circuits/src/cpu/columns.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuits/src/cpu/columns.rs b/circuits/src/cpu/columns.rs
index cb82b3d..2d3ad13 100644
--- a/circuits/src/cpu/columns.rs
+++ b/circuits/src/cpu/columns.rs
@@ -307,7 +307,7 @@ pub fn rangecheck_looking() -> Vec<TableWithTypedOutput<RangeCheckCtl<Column>>>
         (CPU.remainder_slack, divs),
         (CPU.dst_value, ops.add + ops.sub + ops.jalr),
         (CPU.inst.pc, ops.jalr),
-        (CPU.abs_diff, ops.bge + ops.blt),
+        (CPU.abs_diff, ops.bge + ops.blt + ops.slt),
         (CPU.product_high_limb, muls),
         (CPU.product_low_limb, muls),
         // apply range constraints for the sign bits of each operand
-- 
2.43.0


From a1312166387261e1959769034406427c974603da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:38 +0000
Subject: [PATCH 31/46] fix: storage devices write all of their bytes to
 consecutive addresses

---
 circuits/src/storage_device/stark.rs | 55 +++++++++++-----------------
 1 file changed, 21 insertions(+), 34 deletions(-)

diff --git a/circuits/src/storage_device/stark.rs b/circuits/src/storage_device/stark.rs
index fe667ca..42a271a 100644
--- a/circuits/src/storage_device/stark.rs
+++ b/circuits/src/storage_device/stark.rs
@@ -41,43 +41,30 @@ fn generate_constraints<'a, T: Copy>(
     constraints.always(lv.ops.is_storage_device.is_binary());
     constraints.always(lv.is_executed().is_binary());
 
-    // If nv.is_storage_device() == 1: lv.size == 0, also forces the last row to be
-    // size == 0 ! This constraints ensures loop unrolling was done correctly
-    constraints.always(nv.ops.is_storage_device * lv.size);
-    // If lv.is_lv_and_nv_are_memory_rows == 1:
-    //    nv.address == lv.address + 1 (wrapped)
-    //    nv.size == lv.size - 1 (not-wrapped)
+    // Every storage device operation is one is_storage_device row, with the number
+    // of bytes as its size, followed by one is_memory_store row for each of the
+    // bytes, whose sizes count the bytes that are still to come.
+
+    // Memory rows only come after a row of the same operation.
+    constraints.first_row(lv.ops.is_memory_store);
+    constraints.transition(nv.ops.is_memory_store * (1 - lv.is_executed()));
+    constraints.transition(nv.ops.is_memory_store * (nv.clk - lv.clk));
+    constraints.transition(nv.ops.is_memory_store * (nv.size - (lv.size - 1)));
+    // The first memory row has the address of the operation,
+    constraints
+        .transition(lv.ops.is_storage_device * nv.ops.is_memory_store * (nv.addr - lv.addr));
+    // and the address goes up by one (wrapped) from one memory row to the next.
+    constraints.always(
+        lv.is_lv_and_nv_are_memory_rows - lv.ops.is_memory_store * nv.ops.is_memory_store,
+    );
     let added = lv.addr + 1;
     let wrapped = added - (1 << 32);
-    // nv.address == lv.address + 1 (wrapped)
     constraints.always(lv.is_lv_and_nv_are_memory_rows * (nv.addr - added) * (nv.addr - wrapped));
-    // nv.size == lv.size - 1 (not-wrapped)
-    constraints.transition(nv.is_lv_and_nv_are_memory_rows * (nv.size - (lv.size - 1)));
-    // Edge cases:
-    //  a) - storage_device with size = 0: <-- this case is solved since CTL from
-    // CPU        a.1) is_lv_and_nv_are_memory_rows = 0 (no memory rows
-    // inserted)  b) - storage_device with size = 1: <-- this case needs to be
-    // solved separately        b.1) is_lv_and_nv_are_memory_rows = 0 (only one
-    // memory row inserted) To solve case-b:
-    // If lv.is_storage_device() == 1 && lv.size != 0:
-    //      lv.addr == nv.addr       <-- next row address must be the same !!!
-    //      lv.size === nv.size - 1  <-- next row size is decreased
-    constraints.transition(lv.ops.is_storage_device * lv.size * (nv.addr - lv.addr));
-    constraints.transition(lv.ops.is_storage_device * lv.size * (nv.size - (lv.size - 1)));
-    // If lv.is_storage_device() == 1 && lv.size == 0:
-    //      nv.is_memory() == 0 <-- next op can be only io - since size == 0
-    // This one is ensured by:
-    //  1) is_binary(storage_device or memory)
-    //  2) if nv.is_storage_device() == 1: lv.size == 0
-
-    // If lv.is_storage_device() == 1 && nv.size != 0:
-    //      nv.is_lv_and_nv_are_memory_rows == 1,
-    // unless nv starts the next storage device operation (then lv.size == 0)
-    constraints.always(
-        lv.ops.is_storage_device
-            * nv.size
-            * (nv.is_lv_and_nv_are_memory_rows + nv.ops.is_storage_device - 1),
-    );
+
+    // There are memory rows until no bytes are left.  And then there are no more of
+    // them: the sizes can't count all the way down from -1.
+    constraints.transition(lv.is_executed() * lv.size * (1 - nv.ops.is_memory_store));
+    constraints.last_row(lv.is_executed() * lv.size);
 
     constraints
 }
-- 
2.43.0


From 1c254fa7cb03bc36453d3b44ee59ec32faafd2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:57 +0000
Subject: [PATCH 32/46] fix: storage devices give no more bytes than asked for

---
 circuits/src/cpu/columns.rs    | 33 +++++++++++++++++++++++++++------
 circuits/src/cpu/generation.rs |  3 ++-
 2 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/circuits/src/cpu/columns.rs b/circuits/src/cpu/columns.rs
index 2d3ad13..9f51739 100644
--- a/circuits/src/cpu/columns.rs
+++ b/circuits/src/cpu/columns.rs
@@ -2,6 +2,7 @@ use core::iter::Sum;
 use core::ops::{Add, Mul, Sub};
 
 use mozak_runner::instruction::Op;
+use mozak_sdk::core::reg_abi::REG_A2;
 
 use crate::bitshift::columns::Bitshift;
 use crate::columns_view::{columns_view_impl, make_col_map};
@@ -241,6 +242,8 @@ pub struct CpuState<T> {
     pub mem_addr: T,
     pub io_addr: T,
     pub io_size: T,
+    /// How many bytes the program asked a storage device for
+    pub io_requested: T,
 
     pub ecall_selectors: EcallSelectors<T>,
 }
@@ -332,6 +335,11 @@ pub fn rangecheck_looking() -> Vec<TableWithTypedOutput<RangeCheckCtl<Column>>>
                 * (1 << 16),
             ops.lh,
         ),
+        // storage devices don't give more bytes than asked for
+        (
+            CPU.io_requested - CPU.io_size,
+            storage_selectors().iter().sum(),
+        ),
     ]
     .into_iter()
     .map(|(columns, filter)| CpuTable::new(RangeCheckCtl(columns), filter))
@@ -393,11 +401,8 @@ pub fn lookup_for_fullword_memory() -> TableWithTypedOutput<MemoryCtl<Column>> {
     )
 }
 
-/// Column containing the data to be matched against `StorageDevice` starks.
-/// [`CpuTable`](crate::cross_table_lookup::CpuTable).
-#[must_use]
-pub fn lookup_for_storage_tables() -> TableWithTypedOutput<StorageDeviceCtl<Column>> {
-    let storage = [
+fn storage_selectors() -> [ColumnWithTypedInput<CpuState<i64>>; 7] {
+    [
         CPU.ecall_selectors.is_private_tape,
         CPU.ecall_selectors.is_public_tape,
         CPU.ecall_selectors.is_call_tape,
@@ -405,7 +410,14 @@ pub fn lookup_for_storage_tables() -> TableWithTypedOutput<StorageDeviceCtl<Colu
         CPU.ecall_selectors.is_events_commitment_tape,
         CPU.ecall_selectors.is_cast_list_commitment_tape,
         CPU.ecall_selectors.is_self_prog_id_tape,
-    ];
+    ]
+}
+
+/// Column containing the data to be matched against `StorageDevice` starks.
+/// [`CpuTable`](crate::cross_table_lookup::CpuTable).
+#[must_use]
+pub fn lookup_for_storage_tables() -> TableWithTypedOutput<StorageDeviceCtl<Column>> {
+    let storage = storage_selectors();
     CpuTable::new(
         StorageDeviceCtl {
             op: ColumnWithTypedInput::ascending_sum(storage),
@@ -499,6 +511,15 @@ pub fn register_looking() -> Vec<TableWithTypedOutput<RegisterCtl<Column>>> {
             },
             CPU.is_running(),
         ),
+        CpuTable::new(
+            RegisterCtl {
+                clk: CPU.clk,
+                op: is_read,
+                addr: ColumnWithTypedInput::constant(i64::from(REG_A2)),
+                value: CPU.io_requested,
+            },
+            storage_selectors().iter().sum(),
+        ),
     ]
 }
 
diff --git a/circuits/src/cpu/generation.rs b/circuits/src/cpu/generation.rs
index c44749b..5f7b489 100644
--- a/circuits/src/cpu/generation.rs
+++ b/circuits/src/cpu/generation.rs
@@ -5,7 +5,7 @@ use mozak_runner::instruction::{Instruction, Op};
 use mozak_runner::state::{Aux, State, StorageDeviceEntry, StorageDeviceOpcode};
 use mozak_runner::vm::{ExecutionRecord, Row};
 use mozak_sdk::core::ecall;
-use mozak_sdk::core::reg_abi::REG_A0;
+use mozak_sdk::core::reg_abi::{REG_A0, REG_A2};
 use plonky2::hash::hash_types::RichField;
 
 use crate::bitshift::columns::Bitshift;
@@ -105,6 +105,7 @@ pub fn generate_cpu_trace<F: RichField>(record: &ExecutionRecord<F>) -> Vec<CpuS
             mem_value_raw: from_u32(aux.mem.unwrap_or_default().raw_value),
             io_addr: F::from_canonical_u32(io.addr),
             io_size: F::from_canonical_usize(io.data.len()),
+            io_requested: from_u32(state.get_register_value(REG_A2)),
             ecall_selectors: EcallSelectors {
                 is_poseidon2: F::from_bool(aux.poseidon2.is_some()),
                 is_private_tape: F::from_bool(matches!(
-- 
2.43.0


From 59cd6f4ef404ea63a962b2dca7ca629a67eb37bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:07 +0000
Subject: [PATCH 33/46] fix: registers start with 32 bit values

---
 circuits/src/register/generation.rs   | 10 +++-
 circuits/src/register/init/columns.rs |  3 +
 circuits/src/register/init/stark.rs   | 81 +++++++++++++++++++++++++--
 3 files changed, 87 insertions(+), 7 deletions(-)

diff --git a/circuits/src/register/generation.rs b/circuits/src/register/generation.rs
index 696f29c..d6f4c8c 100644
--- a/circuits/src/register/generation.rs
+++ b/circuits/src/register/generation.rs
@@ -163,9 +163,13 @@ pub fn generate_register_init_trace<F: RichField>(
 
     pad_trace_with_last(
         (1..32)
-            .map(|i| RegisterInit {
-                reg_addr: F::from_canonical_u8(i),
-                value: F::from_canonical_u32(first_state.get_register_value(i)),
+            .map(|i| {
+                let value = first_state.get_register_value(i);
+                RegisterInit {
+                    reg_addr: F::from_canonical_u8(i),
+                    value: F::from_canonical_u32(value),
+                    value_bits: std::array::from_fn(|bit| F::from_bool((value >> bit) & 1 == 1)),
+                }
             })
             .collect(),
     )
diff --git a/circuits/src/register/init/columns.rs b/circuits/src/register/init/columns.rs
index a548062..06dd27f 100644
--- a/circuits/src/register/init/columns.rs
+++ b/circuits/src/register/init/columns.rs
@@ -16,6 +16,9 @@ pub struct RegisterInit<T> {
 
     /// Value of the register.
     pub value: T,
+
+    /// The bits of the value, to show that it fits in a register.
+    pub value_bits: [T; 32],
 }
 
 #[must_use]
diff --git a/circuits/src/register/init/stark.rs b/circuits/src/register/init/stark.rs
index 0f4e497..3dd394d 100644
--- a/circuits/src/register/init/stark.rs
+++ b/circuits/src/register/init/stark.rs
@@ -1,10 +1,83 @@
+use std::marker::PhantomData;
+
+use expr::{Expr, ExprBuilder, StarkFrameTyped};
+use mozak_circuits_derive::StarkNameDisplay;
+use plonky2::field::extension::{Extendable, FieldExtension};
+use plonky2::field::packed::PackedField;
+use plonky2::hash::hash_types::RichField;
+use plonky2::iop::ext_target::ExtensionTarget;
+use plonky2::plonk::circuit_builder::CircuitBuilder;
+use starky::constraint_consumer::{ConstraintConsumer, RecursiveConstraintConsumer};
+use starky::evaluation_frame::StarkFrame;
+use starky::stark::Stark;
+
 use super::columns::RegisterInit;
-use crate::columns_view::NumberOfColumns;
-use crate::unstark::Unstark;
+use crate::columns_view::{HasNamedColumns, NumberOfColumns};
+use crate::expr::{build_ext, build_packed, ConstraintBuilder};
+use crate::unstark::NoColumns;
 
 /// For sanity check, we can constrain the register address column to be in
 /// a running sum from 0..=31, but since this fixed table is known to
 /// both prover and verifier, we do not need to do so here.
+#[derive(Copy, Clone, Default, StarkNameDisplay)]
 #[allow(clippy::module_name_repetitions)]
-pub type RegisterInitStark<F, const D: usize> =
-    Unstark<F, D, RegisterInit<F>, { RegisterInit::<()>::NUMBER_OF_COLUMNS }>;
+pub struct RegisterInitStark<F, const D: usize> {
+    pub _f: PhantomData<F>,
+}
+
+impl<F, const D: usize> HasNamedColumns for RegisterInitStark<F, D> {
+    type Columns = RegisterInit<F>;
+}
+
+const COLUMNS: usize = RegisterInit::<()>::NUMBER_OF_COLUMNS;
+const PUBLIC_INPUTS: usize = 0;
+
+fn generate_constraints<'a, T: Copy>(
+    vars: &StarkFrameTyped<RegisterInit<Expr<'a, T>>, NoColumns<Expr<'a, T>>>,
+) -> ConstraintBuilder<Expr<'a, T>> {
+    let lv = vars.local_values;
+    let mut constraints = ConstraintBuilder::default();
+
+    // Registers hold values of 32 bits.
+    for bit in lv.value_bits {
+        constraints.always(bit.is_binary());
+    }
+    constraints.always(lv.value - Expr::reduce_with_powers(lv.value_bits, 2));
+
+    constraints
+}
+
+impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for RegisterInitStark<F, D> {
+    type EvaluationFrame<FE, P, const D2: usize> = StarkFrame<P, P::Scalar, COLUMNS, PUBLIC_INPUTS>
+
+    where
+        FE: FieldExtension<D2, BaseField = F>,
+        P: PackedField<Scalar = FE>;
+    type EvaluationFrameTarget =
+        StarkFrame<ExtensionTarget<D>, ExtensionTarget<D>, COLUMNS, PUBLIC_INPUTS>;
+
+    fn eval_packed_generic<FE, P, const D2: usize>(
+        &self,
+        vars: &Self::EvaluationFrame<FE, P, D2>,
+        consumer: &mut ConstraintConsumer<P>,
+    ) where
+        FE: FieldExtension<D2, BaseField = F>,
+        P: PackedField<Scalar = FE>, {
+        let eb = ExprBuilder::default();
+        let constraints = generate_constraints(&eb.to_typed_starkframe(vars));
+        build_packed(constraints, consumer);
+    }
+
+    fn eval_ext_circuit(
+        &self,
+        builder: &mut CircuitBuilder<F, D>,
+        vars: &Self::EvaluationFrameTarget,
+        consumer: &mut RecursiveConstraintConsumer<F, D>,
+    ) {
+        let eb = ExprBuilder::default();
+        let constraints = generate_constraints(&eb.to_typed_starkframe(vars));
+        build_ext(constraints, builder, consumer);
+    }
+
+    fn constraint_degree(&self) -> usize { 3 }
+}
-- 
2.43.0


From d0a7cda9b7bf8b6f8c2f4833999d19d657b3a6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:44 +0000
Subject: [PATCH 34/46] fix: digest tapes are read in full

---
 circuits/src/cpu/columns.rs | 13 +++++++++++++
 circuits/src/cpu/ecall.rs   |  7 +++++++
 2 files changed, 20 insertions(+)

diff --git a/circuits/src/cpu/columns.rs b/circuits/src/cpu/columns.rs
index 9f51739..77bd043 100644
--- a/circuits/src/cpu/columns.rs
+++ b/circuits/src/cpu/columns.rs
@@ -2,6 +2,7 @@ use core::iter::Sum;
 use core::ops::{Add, Mul, Sub};
 
 use mozak_runner::instruction::Op;
+use mozak_sdk::core::constants::DIGEST_BYTES;
 use mozak_sdk::core::reg_abi::REG_A2;
 
 use crate::bitshift::columns::Bitshift;
@@ -165,6 +166,13 @@ pub struct EcallSelectors<T> {
     pub is_self_prog_id_tape: T,
 }
 
+impl<T: Copy + Add<Output = T>> EcallSelectors<T> {
+    /// Tapes that hold a digest
+    pub fn is_digest_tape(&self) -> T {
+        self.is_events_commitment_tape + self.is_cast_list_commitment_tape + self.is_self_prog_id_tape
+    }
+}
+
 make_col_map!(CpuState);
 columns_view_impl!(CpuState);
 /// Represents the State of the CPU, which is also a row of the trace
@@ -340,6 +348,11 @@ pub fn rangecheck_looking() -> Vec<TableWithTypedOutput<RangeCheckCtl<Column>>>
             CPU.io_requested - CPU.io_size,
             storage_selectors().iter().sum(),
         ),
+        // these tapes hold a digest
+        (
+            ColumnWithTypedInput::constant(i64::try_from(DIGEST_BYTES).unwrap()) - CPU.io_size,
+            CPU.ecall_selectors.is_digest_tape(),
+        ),
     ]
     .into_iter()
     .map(|(columns, filter)| CpuTable::new(RangeCheckCtl(columns), filter))
diff --git a/circuits/src/cpu/ecall.rs b/circuits/src/cpu/ecall.rs
index 2bb38b3..9e8b2df 100644
--- a/circuits/src/cpu/ecall.rs
+++ b/circuits/src/cpu/ecall.rs
@@ -2,6 +2,7 @@
 //! 'ECALL'.
 
 use expr::Expr;
+use mozak_sdk::core::constants::DIGEST_BYTES;
 use mozak_sdk::core::ecall;
 
 use super::columns::CpuState;
@@ -44,6 +45,12 @@ pub(crate) fn storage_device_constraints<'a, P: Copy>(
         lv.ecall_selectors.is_self_prog_id_tape
             * (lv.op1_value - i64::from(ecall::SELF_PROG_ID_TAPE)),
     );
+    // These tapes always give all of their digest, unless asked for less.
+    cb.always(
+        ecalls.is_digest_tape()
+            * (lv.io_size - lv.io_requested)
+            * (lv.io_size - i64::try_from(DIGEST_BYTES).unwrap()),
+    );
 }
 
 pub(crate) fn poseidon2_constraints<'a, P: Copy>(
-- 
2.43.0


From e4f711b13d24ee16e473253f36db91cd0a1f4eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:58 +0000
Subject: [PATCH 35/46] HOOK: state root proof readable under cfg(mozak_verif)

---
 node/src/block_proposer/state.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/node/src/block_proposer/state.rs b/node/src/block_proposer/state.rs
index 5406091..745a997 100644
--- a/node/src/block_proposer/state.rs
+++ b/node/src/block_proposer/state.rs
@@ -600,6 +600,13 @@ impl<'a> State<'a> {
     }
 }
 
+#[cfg(mozak_verif)]
+impl State<'_> {
+    /// The proof at the root of the tree
+    #[must_use]
+    pub fn verif_proof(&self) -> &BranchProof { &self.root.proof }
+}
+
 #[cfg(test)]
 pub mod test {
     use super::{AuxStateData, BranchProof, Operation, State};
-- 
2.43.0


From 26b48561a63cf688ee88155d6510dd23be591bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:29 +0000
Subject: [PATCH 36/46] fix: finalizing the state tree recalculates branches
 that lost a child

---
 node/src/block_proposer/state.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/node/src/block_proposer/state.rs b/node/src/block_proposer/state.rs
index 745a997..3f2206b 100644
--- a/node/src/block_proposer/state.rs
+++ b/node/src/block_proposer/state.rs
@@ -465,7 +465,12 @@ impl AuxStateData {
     }
 
     fn finalize(&self, root: &mut SparseMerkleBranch) {
-        self.finalize_branch(root, BranchAddress::root(root.height));
+        let outcome = self.finalize_branch(root, BranchAddress::root(root.height));
+
+        // The root is never pruned, it is merely empty
+        if let FinalizeOutcome::Prune = outcome {
+            self.recalc_branch_helper(root);
+        }
     }
 
     fn finalize_branch(
@@ -473,6 +478,8 @@ impl AuxStateData {
         branch: &mut SparseMerkleBranch,
         addr: BranchAddress,
     ) -> FinalizeOutcome {
+        let children = usize::from(branch.left.is_some()) + usize::from(branch.right.is_some());
+
         let left_outcome = if let Some(mut left) = branch.left.take() {
             let outcome = match (&mut *left, addr.child(Dir::Left)) {
                 (SparseMerkleNode::Branch(branch), Ok(addr)) => self.finalize_branch(branch, addr),
@@ -501,7 +508,13 @@ impl AuxStateData {
             FinalizeOutcome::Prune
         };
 
-        let outcome = left_outcome + right_outcome;
+        let remaining = usize::from(branch.left.is_some()) + usize::from(branch.right.is_some());
+        let mut outcome = left_outcome + right_outcome;
+
+        // A pruned child leaves its sibling untouched, but not this branch
+        if matches!(outcome, FinalizeOutcome::NoOp) && remaining != children {
+            outcome = FinalizeOutcome::Recalc;
+        }
 
         if let FinalizeOutcome::Recalc = outcome {
             self.recalc_branch_helper(branch);
-- 
2.43.0


From c3c3ec132ec5d8fb0bda171b6e0d51faa9a43d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:16 +0000
Subject: [PATCH 37/46] fix: programs of a cast list find their place whatever
 its length

---
 node/src/block_proposer/transactions.rs | 56 ++++++++++---------------
 1 file changed, 23 insertions(+), 33 deletions(-)

diff --git a/node/src/block_proposer/transactions.rs b/node/src/block_proposer/transactions.rs
index 377001d..6d0c44d 100644
--- a/node/src/block_proposer/transactions.rs
+++ b/node/src/block_proposer/transactions.rs
@@ -18,8 +18,7 @@ use plonky2::plonk::config::Hasher;
 use plonky2::plonk::proof::ProofWithPublicInputs;
 
 use super::{
-    convert_event, reduce_tree, reduce_tree_by_address, AddressPath, BranchAddress, Dir,
-    OngoingTxKey,
+    convert_event, reduce_tree, reduce_tree_by_address, BranchAddress, OngoingTxKey,
 };
 use crate::block_proposer::BranchAddressComparison;
 use crate::{C, D, F};
@@ -118,11 +117,12 @@ impl AuxTransactionData {
     fn insert_program(
         &self,
         node: &mut OngoingTxNode,
-        call_address: Option<AddressPath<usize>>,
+        call_index: usize,
+        call_count: usize,
         events: Option<EventNode>,
         proof: impl FnOnce() -> Result<ProgramLeafProof>,
     ) -> Result<()> {
-        if let Some(n) = self.insert_program_helper(node, call_address, events, proof)? {
+        if let Some(n) = self.insert_program_helper(node, call_index, call_count, events, proof)? {
             *node = n;
         }
         Ok(())
@@ -131,21 +131,26 @@ impl AuxTransactionData {
     fn insert_program_helper(
         &self,
         node: &mut OngoingTxNode,
-        call_address: Option<AddressPath<usize>>,
+        call_index: usize,
+        call_count: usize,
         events: Option<EventNode>,
         proof: impl FnOnce() -> Result<ProgramLeafProof>,
     ) -> Result<Option<OngoingTxNode>> {
         let program_branch = &self.program_branch_circuit;
-        let new_node = match (node, call_address) {
-            (
-                OngoingTxNode::Unprocessed(UnprocessedTxNode::Branch { left, right }),
-                Some(call_address),
-            ) => {
-                let (call_address, next_node) = match call_address.next() {
-                    (call_address, Dir::Left) => (call_address, left.as_mut()),
-                    (call_address, Dir::Right) => (call_address, right.as_mut()),
+        let new_node = match node {
+            OngoingTxNode::Unprocessed(UnprocessedTxNode::Branch { left, right }) => {
+                // `reduce_tree` fills the left side with the largest power of two
+                let left_count = call_count.next_power_of_two() / 2;
+                let (call_index, call_count, next_node) = if call_index < left_count {
+                    (call_index, left_count, left.as_mut())
+                } else {
+                    (
+                        call_index - left_count,
+                        call_count - left_count,
+                        right.as_mut(),
+                    )
                 };
-                self.insert_program(next_node, call_address, events, proof)?;
+                self.insert_program(next_node, call_index, call_count, events, proof)?;
 
                 match (left.as_mut(), right.as_mut()) {
                     (OngoingTxNode::Processed(l), OngoingTxNode::Processed(r)) => {
@@ -161,28 +166,13 @@ impl AuxTransactionData {
                 }
             }
 
-            (OngoingTxNode::Unprocessed(UnprocessedTxNode::Leaf(_pid)), None) =>
-                Some(OngoingTxNode::Processed(ProcessedTxNode::Leaf {
-                    events,
-                    proof: proof()?,
-                })),
-            (OngoingTxNode::Unprocessed(UnprocessedTxNode::Leaf(_)), Some(call_address))
-                if call_address.is_zero() =>
+            OngoingTxNode::Unprocessed(UnprocessedTxNode::Leaf(_pid)) =>
                 Some(OngoingTxNode::Processed(ProcessedTxNode::Leaf {
                     events,
                     proof: proof()?,
                 })),
 
-            (OngoingTxNode::Processed(_), _) => bail!("duplicate proof detected"),
-
-            (OngoingTxNode::Unprocessed(UnprocessedTxNode::Branch { .. }), None) => {
-                println!("mango");
-                unreachable!()
-            }
-            (OngoingTxNode::Unprocessed(UnprocessedTxNode::Leaf(_)), Some(_)) => {
-                println!("apple");
-                unreachable!()
-            }
+            OngoingTxNode::Processed(_) => bail!("duplicate proof detected"),
         };
 
         Ok(new_node)
@@ -691,10 +681,10 @@ impl<'a> TransactionAccumulator<'a> {
                 v.insert(OngoingTx { nodes })
             }
             Entry::Occupied(mut o) => {
-                let bits = usize::BITS - cast_list.len().leading_zeros();
                 self.aux.insert_program(
                     &mut o.get_mut().nodes,
-                    AddressPath::path(cast_index, bits as usize),
+                    cast_index,
+                    cast_list.len(),
                     event_tree,
                     proof,
                 )?;
-- 
2.43.0


From 1e2a37790d0894c427ba13d4091f4fbb63fb6aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:16 +0000
Subject: [PATCH 38/46] fix: branch addresses reach up to the root of the whole
 address space

---
 node/src/block_proposer.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/node/src/block_proposer.rs b/node/src/block_proposer.rs
index 74f3bf8..4c340ff 100644
--- a/node/src/block_proposer.rs
+++ b/node/src/block_proposer.rs
@@ -182,7 +182,8 @@ impl BranchAddress {
     /// If we've reached the bottom, return an `Address` instead
     #[must_use]
     pub fn parent(mut self, n: usize) -> Self {
-        self.addr.0 >>= n;
+        // Moving past the top of the address space leaves no bits
+        self.addr.0 = u32::try_from(n).map_or(0, |n| self.addr.0.checked_shr(n).unwrap_or(0));
         self.height += n;
         self
     }
@@ -220,7 +221,7 @@ impl BranchAddress {
 
         // Check if child actually descends from parent
         let delta = parent.height - child.height;
-        let child_addr = child.addr.0 >> delta;
+        let child_addr = child.parent(delta).addr.0;
         match (child_addr.cmp(&parent.addr.0), lhs_is_parent) {
             (Ordering::Less, false) | (Ordering::Greater, true) =>
                 return BranchAddressComparison::RightCousin,
@@ -229,7 +230,7 @@ impl BranchAddress {
             (Ordering::Equal, _) => {}
         }
 
-        let addr = Address(child.addr.0 & ((1 << delta) - 1));
+        let addr = Address(child.addr.0 & (u64::MAX >> (u64::BITS as usize - delta)));
         match (addr.next(delta - 1).1, lhs_is_parent) {
             (Dir::Left, true) => BranchAddressComparison::LeftChild,
             (Dir::Right, true) => BranchAddressComparison::RightChild,
-- 
2.43.0


From 6f611343179a96131f6ebf6c1e24618366a6aa41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:32 +0000
Subject: [PATCH 39/46] fix: one event merges with several of the same or a
 neighbouring address

---
 node/src/block_proposer/transactions.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/node/src/block_proposer/transactions.rs b/node/src/block_proposer/transactions.rs
index 6d0c44d..dd5368e 100644
--- a/node/src/block_proposer/transactions.rs
+++ b/node/src/block_proposer/transactions.rs
@@ -293,18 +293,21 @@ impl AuxTransactionData {
             | (
                 EventNode::Leaf { .. },
                 EventNode::Branch { .. },
-                Equal | LeftSibling | RightSibling | LeftChild | RightChild,
+                LeftChild | RightChild,
             )
             // LHS-Branch below RHS-Leaf
             | (
                 EventNode::Branch { .. },
                 EventNode::Leaf { .. },
-                Equal | LeftSibling | RightSibling | LeftParent | RightParent,
+                LeftParent | RightParent,
             ) => unreachable!(),
 
             // Simple merges
             // LHS-Leaf equal to RHS-Leaf
             (left @ EventNode::Leaf { .. }, right @ EventNode::Leaf { .. }, Equal)
+            // One event on one side, several events of the same address on the other
+            | (left @ EventNode::Leaf { .. }, right @ EventNode::Branch { .. }, Equal)
+            | (left @ EventNode::Branch { .. }, right @ EventNode::Leaf { .. }, Equal)
             // LHS to the left of RHS
             | (left, right, RightSibling | RightCousin) => {
                 let (proof, event) = self.simple_merge(left, right);
-- 
2.43.0


From 6226442229801a037e62edcd991288e58606ef22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:57 +0000
Subject: [PATCH 40/46] fix: writes and credit changes are up to the object's
 owner

---
 .../src/circuits/accumulate_delta/core.rs     | 56 +++++++++++++++----
 recproofs/src/circuits/match_delta.rs         |  8 ++-
 2 files changed, 53 insertions(+), 11 deletions(-)

diff --git a/recproofs/src/circuits/accumulate_delta/core.rs b/recproofs/src/circuits/accumulate_delta/core.rs
index d1d4a3d..13a9ce7 100644
--- a/recproofs/src/circuits/accumulate_delta/core.rs
+++ b/recproofs/src/circuits/accumulate_delta/core.rs
@@ -126,6 +126,21 @@ impl SplitFlags {
             take_owner: flags[EventFlags::TakeOwnerFlag.index()],
         }
     }
+
+    /// Whether the old owner is known, as it is for anything that mutates the
+    /// object. Credit changes have no flag, so go by the delta itself.
+    pub fn has_old_owner<F, const D: usize>(
+        &self,
+        builder: &mut CircuitBuilder<F, D>,
+        credit_delta: Target,
+    ) -> BoolTarget
+    where
+        F: RichField + Extendable<D>, {
+        let has_owner = builder.is_nonzero(self.owner);
+        let has_credits = builder.is_nonzero(credit_delta);
+        let mutates = builder.or(self.write, has_credits);
+        builder.or(mutates, has_owner)
+    }
 }
 
 impl SubCircuitInputs {
@@ -461,8 +476,8 @@ impl SubCircuitInputs {
         let right_has_new_data = builder.is_nonzero(right_flags.new_data);
         let left_has_owner = builder.is_nonzero(left_flags.owner);
         let right_has_owner = builder.is_nonzero(right_flags.owner);
-        let left_has_old_owner = builder.or(left_flags.write, left_has_owner);
-        let right_has_old_owner = builder.or(right_flags.write, right_has_owner);
+        let left_has_old_owner = left_flags.has_old_owner(builder, left.credit_delta);
+        let right_has_old_owner = right_flags.has_old_owner(builder, right.credit_delta);
 
         // Enforce restrictions on all the object fields
         maybe_connect(builder, self.old_owner, left_has_old_owner, left.old_owner);
@@ -566,7 +581,23 @@ fn merge_branch_helper<F: RichField, W>(
     flags: impl Into<BitFlags<EventFlags>>,
 ) -> [F; 4] {
     let flags = flags.into();
-    match (l_flags.intersects(flags), r_flags.intersects(flags)) {
+    merge_present(
+        l,
+        l_flags.intersects(flags),
+        r,
+        r_flags.intersects(flags),
+        f,
+    )
+}
+
+fn merge_present<F: RichField, W>(
+    l: W,
+    l_present: bool,
+    r: W,
+    r_present: bool,
+    f: impl Fn(W) -> [F; 4],
+) -> [F; 4] {
+    match (l_present, r_present) {
         (false, false) => [F::ZERO; 4],
         (true, false) => f(l),
         (false, true) => f(r),
@@ -592,7 +623,13 @@ impl<F: RichField> BranchWitnessValue<F> {
         Self {
             address: left.address,
             object_flags: left.object_flags | right.object_flags,
-            old_owner: merge_branch(&left, &right, |c| c.old_owner, old_owner),
+            old_owner: merge_present(
+                &left,
+                left.object_flags.intersects(old_owner) || left.credit_delta != 0,
+                &right,
+                right.object_flags.intersects(old_owner) || right.credit_delta != 0,
+                |c| c.old_owner,
+            ),
             new_owner: merge_branch(&left, &right, |c| c.new_owner, new_owner),
             old_data: merge_branch(&left, &right, |c| c.old_data, old_data),
             new_data: merge_branch(&left, &right, |c| c.new_data, new_data),
@@ -690,13 +727,14 @@ impl BranchSubCircuit {
         let new_data = EventFlags::WriteFlag | EventFlags::EnsureFlag;
 
         // Get the object fields based on the flags
-        let old_owner = merge_branch_helper(
+        let left_credits = indices.credit_delta.get_field(left_inputs);
+        let right_credits = indices.credit_delta.get_field(right_inputs);
+        let old_owner = merge_present(
             left_inputs,
-            left_flags,
+            left_flags.intersects(old_owner) || left_credits.is_nonzero(),
             right_inputs,
-            right_flags,
+            right_flags.intersects(old_owner) || right_credits.is_nonzero(),
             |inputs| indices.old_owner.get_field(inputs),
-            old_owner,
         );
         let new_owner = merge_branch_helper(
             left_inputs,
@@ -730,8 +768,6 @@ impl BranchSubCircuit {
         witness.set_target_arr(&targets.new_data, &new_data);
 
         // Handle the credits
-        let left_credits = indices.credit_delta.get_field(left_inputs);
-        let right_credits = indices.credit_delta.get_field(right_inputs);
         let credits = left_credits + right_credits;
         witness.set_target(targets.credit_delta, credits);
 
diff --git a/recproofs/src/circuits/match_delta.rs b/recproofs/src/circuits/match_delta.rs
index 4b29dee..fdbe98f 100644
--- a/recproofs/src/circuits/match_delta.rs
+++ b/recproofs/src/circuits/match_delta.rs
@@ -182,6 +182,12 @@ where
         let has_owner = builder.is_nonzero(acc_flags.owner);
         // old owner
         {
+            let acc_credit_delta = accumulate_event_circuit
+                .partial_state
+                .indices
+                .credit_delta
+                .get_target(&targets.accumulate_event.public_inputs);
+            let has_old_owner = acc_flags.has_old_owner(&mut builder, acc_credit_delta);
             let acc_old_owner = accumulate_event_circuit
                 .partial_state
                 .indices
@@ -190,7 +196,7 @@ where
             maybe_connect(
                 &mut builder,
                 compare_delta_targets.old_owner,
-                has_owner,
+                has_old_owner,
                 acc_old_owner,
             );
         }
-- 
2.43.0


From 4f55209bb781fcfe1982dc9f39d702c128346fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:58 +0000
Subject: [PATCH 41/46] fix: ensured data is matched with the new object

---
 recproofs/src/circuits/match_delta.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/recproofs/src/circuits/match_delta.rs b/recproofs/src/circuits/match_delta.rs
index fdbe98f..5e54cdb 100644
--- a/recproofs/src/circuits/match_delta.rs
+++ b/recproofs/src/circuits/match_delta.rs
@@ -230,6 +230,7 @@ where
         }
         // new data
         {
+            let has_new_data = builder.is_nonzero(acc_flags.new_data);
             let acc_new_data = accumulate_event_circuit
                 .partial_state
                 .indices
@@ -238,7 +239,7 @@ where
             maybe_connect(
                 &mut builder,
                 compare_delta_targets.new_data,
-                acc_flags.write,
+                has_new_data,
                 acc_new_data,
             );
         }
-- 
2.43.0


From e93ab9c23a56a0358c375b4a506083eb34ad1597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:37 +0000
Subject: [PATCH 42/46] fix: credits never drop below zero

---
 recproofs/src/circuits/match_delta/core.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/recproofs/src/circuits/match_delta/core.rs b/recproofs/src/circuits/match_delta/core.rs
index 69a3aa2..50c10a3 100644
--- a/recproofs/src/circuits/match_delta/core.rs
+++ b/recproofs/src/circuits/match_delta/core.rs
@@ -14,6 +14,9 @@ use plonky2::plonk::proof::ProofWithPublicInputsTarget;
 
 use crate::{are_equal, are_zero, zero_if, EventFlags};
 
+// Objects hold less than 2^62 credits
+const MAX_CREDITS: usize = 62;
+
 #[derive(Copy, Clone, PartialEq, Eq, Debug)]
 pub struct PublicIndices {}
 
@@ -96,6 +99,9 @@ impl SubCircuitInputs {
             )
         };
 
+        // Credits never drop below zero, which would wrap to a huge amount
+        builder.range_check(new_credits, MAX_CREDITS);
+
         let credits_unchanged = builder.is_equal(old_credits, new_credits);
         let credits_updated = builder.not(credits_unchanged);
 
-- 
2.43.0


From 842b8584391d4ce90b8680c0c34a77447c8146d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:12 +0000
Subject: [PATCH 43/46] fix: recursive proofs are held to the circuits they are
 expected from

---
 recproofs/src/circuits/accumulate_delta.rs    |  6 +++++-
 recproofs/src/circuits/build_event_root.rs    |  6 +++++-
 recproofs/src/circuits/match_delta.rs         | 10 +++++++++-
 recproofs/src/circuits/merge.rs               |  6 +++++-
 recproofs/src/circuits/merge/embed.rs         |  3 +++
 recproofs/src/circuits/verify_block.rs        |  6 +++++-
 recproofs/src/circuits/verify_block/core.rs   |  6 ++++++
 recproofs/src/circuits/verify_program.rs      |  6 +++++-
 recproofs/src/circuits/verify_program/core.rs | 10 ++++++++++
 recproofs/src/circuits/verify_tx.rs           |  6 +++++-
 recproofs/src/circuits/verify_tx/core.rs      |  4 ++++
 recproofs/src/subcircuits/unbounded.rs        | 15 +++++++++++++++
 12 files changed, 77 insertions(+), 7 deletions(-)

diff --git a/recproofs/src/circuits/accumulate_delta.rs b/recproofs/src/circuits/accumulate_delta.rs
index f9d4b5e..d06999e 100644
--- a/recproofs/src/circuits/accumulate_delta.rs
+++ b/recproofs/src/circuits/accumulate_delta.rs
@@ -2,7 +2,7 @@
 
 use std::marker::PhantomData;
 
-use anyhow::Result;
+use anyhow::{ensure, Result};
 use enumflags2::BitFlags;
 use plonky2::field::extension::Extendable;
 use plonky2::hash::hash_types::{HashOut, RichField};
@@ -331,6 +331,10 @@ where
     }
 
     pub fn verify(&self, proof: BranchProof<F, C, D>) -> Result<()> {
+        ensure!(
+            proof.verifier() == self.circuit.verifier_only,
+            "Proof recurses through another circuit"
+        );
         self.circuit.verify(proof.proof)
     }
 }
diff --git a/recproofs/src/circuits/build_event_root.rs b/recproofs/src/circuits/build_event_root.rs
index b362638..60f90ff 100644
--- a/recproofs/src/circuits/build_event_root.rs
+++ b/recproofs/src/circuits/build_event_root.rs
@@ -2,7 +2,7 @@
 
 use std::marker::PhantomData;
 
-use anyhow::Result;
+use anyhow::{ensure, Result};
 use plonky2::field::extension::Extendable;
 use plonky2::hash::hash_types::{HashOut, RichField};
 use plonky2::iop::target::Target;
@@ -396,6 +396,10 @@ where
     }
 
     pub fn verify(&self, proof: BranchProof<F, C, D>) -> Result<()> {
+        ensure!(
+            proof.verifier() == self.circuit.verifier_only,
+            "Proof recurses through another circuit"
+        );
         self.circuit.verify(proof.proof)
     }
 }
diff --git a/recproofs/src/circuits/match_delta.rs b/recproofs/src/circuits/match_delta.rs
index 5e54cdb..05f4063 100644
--- a/recproofs/src/circuits/match_delta.rs
+++ b/recproofs/src/circuits/match_delta.rs
@@ -3,7 +3,7 @@
 
 use std::marker::PhantomData;
 
-use anyhow::Result;
+use anyhow::{ensure, Result};
 use plonky2::field::extension::Extendable;
 use plonky2::hash::hash_types::{HashOut, RichField};
 use plonky2::iop::witness::{PartialWitness, WitnessWrite};
@@ -153,6 +153,10 @@ where
             &verifier,
             &accumulate_event_circuit.circuit.common,
         );
+        accumulate_event_circuit
+            .unbounded
+            .indices
+            .connect_verifier(&mut builder, &targets.accumulate_event, &verifier);
         // event hash
         {
             let acc_event_hash = accumulate_event_circuit
@@ -490,6 +494,10 @@ where
     }
 
     pub fn verify(&self, proof: BranchProof<F, C, D>) -> Result<()> {
+        ensure!(
+            proof.verifier() == self.circuit.verifier_only,
+            "Proof recurses through another circuit"
+        );
         self.circuit.verify(proof.proof)
     }
 }
diff --git a/recproofs/src/circuits/merge.rs b/recproofs/src/circuits/merge.rs
index ce7490b..1893f57 100644
--- a/recproofs/src/circuits/merge.rs
+++ b/recproofs/src/circuits/merge.rs
@@ -8,7 +8,7 @@
 
 use std::marker::PhantomData;
 
-use anyhow::Result;
+use anyhow::{ensure, Result};
 use plonky2::field::extension::Extendable;
 use plonky2::hash::hash_types::{HashOut, RichField};
 use plonky2::iop::witness::PartialWitness;
@@ -270,6 +270,10 @@ where
     }
 
     pub fn verify(&self, proof: BranchProof<F, C, D>) -> Result<()> {
+        ensure!(
+            proof.verifier() == self.circuit.verifier_only,
+            "Proof recurses through another circuit"
+        );
         self.circuit.verify(proof.proof)
     }
 }
diff --git a/recproofs/src/circuits/merge/embed.rs b/recproofs/src/circuits/merge/embed.rs
index 2371701..7f08b45 100644
--- a/recproofs/src/circuits/merge/embed.rs
+++ b/recproofs/src/circuits/merge/embed.rs
@@ -147,6 +147,9 @@ impl SubCircuitInputs {
         let proof = builder.add_virtual_proof_with_pis(&circuit.common);
         let verifier = builder.constant_verifier_data(&circuit.verifier_only);
         builder.verify_proof::<C>(&proof, &verifier, &circuit.common);
+        mc.unbounded
+            .indices
+            .connect_verifier(builder, &proof, &verifier);
 
         let a_present = mc.merge.indices.a_present.get_target(&proof.public_inputs);
         let b_present = mc.merge.indices.b_present.get_target(&proof.public_inputs);
diff --git a/recproofs/src/circuits/verify_block.rs b/recproofs/src/circuits/verify_block.rs
index 8a67225..5b79d45 100644
--- a/recproofs/src/circuits/verify_block.rs
+++ b/recproofs/src/circuits/verify_block.rs
@@ -2,7 +2,7 @@
 
 use std::marker::PhantomData;
 
-use anyhow::Result;
+use anyhow::{ensure, Result};
 use itertools::Either;
 use plonky2::field::extension::Extendable;
 use plonky2::hash::hash_types::{HashOut, RichField};
@@ -356,6 +356,10 @@ where
     }
 
     pub fn verify(&self, proof: BlockProof<F, C, D>) -> Result<()> {
+        ensure!(
+            proof.verifier() == self.circuit.verifier_only,
+            "Proof recurses through another circuit"
+        );
         self.circuit.verify(proof.proof)
     }
 }
diff --git a/recproofs/src/circuits/verify_block/core.rs b/recproofs/src/circuits/verify_block/core.rs
index de46523..d8820bc 100644
--- a/recproofs/src/circuits/verify_block/core.rs
+++ b/recproofs/src/circuits/verify_block/core.rs
@@ -277,6 +277,9 @@ impl<const D: usize> TxVerifierTargets<D> {
         let proof = builder.add_virtual_proof_with_pis(&circuit.common);
         let verifier = builder.constant_verifier_data(&circuit.verifier_only);
         builder.verify_proof::<C>(&proof, &verifier, &circuit.common);
+        tx.unbounded
+            .indices
+            .connect_verifier(builder, &proof, &verifier);
 
         let events_present = tx
             .events
@@ -345,6 +348,9 @@ impl<const D: usize> MatchDeltaVerifierTargets<D> {
         let proof = builder.add_virtual_proof_with_pis(&circuit.common);
         let verifier = builder.constant_verifier_data(&circuit.verifier_only);
         builder.verify_proof::<C>(&proof, &verifier, &circuit.common);
+        md.unbounded
+            .indices
+            .connect_verifier(builder, &proof, &verifier);
 
         let event_root = md
             .event_hash
diff --git a/recproofs/src/circuits/verify_program.rs b/recproofs/src/circuits/verify_program.rs
index 601e711..2bd49d2 100644
--- a/recproofs/src/circuits/verify_program.rs
+++ b/recproofs/src/circuits/verify_program.rs
@@ -2,7 +2,7 @@
 
 use std::marker::PhantomData;
 
-use anyhow::Result;
+use anyhow::{ensure, Result};
 use plonky2::field::extension::Extendable;
 use plonky2::hash::hash_types::{HashOut, RichField, NUM_HASH_OUT_ELTS};
 use plonky2::iop::witness::PartialWitness;
@@ -426,6 +426,10 @@ where
     }
 
     pub fn verify(&self, proof: BranchProof<F, C, D>) -> Result<()> {
+        ensure!(
+            proof.verifier() == self.circuit.verifier_only,
+            "Proof recurses through another circuit"
+        );
         self.circuit.verify(proof.proof)
     }
 }
diff --git a/recproofs/src/circuits/verify_program/core.rs b/recproofs/src/circuits/verify_program/core.rs
index 8fceda9..df178f1 100644
--- a/recproofs/src/circuits/verify_program/core.rs
+++ b/recproofs/src/circuits/verify_program/core.rs
@@ -208,6 +208,16 @@ impl<C: GenericConfig<D>, const D: usize> EventRootVerifierTargets<C, D> {
         let verifier = select_verifier(builder, events_present, &real_verifier, &zero_verifier);
         builder.verify_proof::<C>(&event_root_proof, &verifier, &circuit.common);
 
+        // A present proof is bound to the real circuit all the way down
+        let named_verifier = event_root_circuit
+            .unbounded
+            .indices
+            .verifier
+            .get_target(&event_root_proof.public_inputs);
+        let named_verifier =
+            select_verifier(builder, events_present, &named_verifier, &real_verifier);
+        builder.connect_verifier_data(&named_verifier, &real_verifier);
+
         let event_owner = event_root_circuit
             .event_owner
             .indices
diff --git a/recproofs/src/circuits/verify_tx.rs b/recproofs/src/circuits/verify_tx.rs
index 5330e82..803359f 100644
--- a/recproofs/src/circuits/verify_tx.rs
+++ b/recproofs/src/circuits/verify_tx.rs
@@ -2,7 +2,7 @@
 
 use std::marker::PhantomData;
 
-use anyhow::Result;
+use anyhow::{ensure, Result};
 use plonky2::field::extension::Extendable;
 use plonky2::hash::hash_types::{HashOut, RichField};
 use plonky2::iop::witness::PartialWitness;
@@ -256,6 +256,10 @@ where
     }
 
     pub fn verify(&self, proof: BranchProof<F, C, D>) -> Result<()> {
+        ensure!(
+            proof.verifier() == self.circuit.verifier_only,
+            "Proof recurses through another circuit"
+        );
         self.circuit.verify(proof.proof)
     }
 }
diff --git a/recproofs/src/circuits/verify_tx/core.rs b/recproofs/src/circuits/verify_tx/core.rs
index e32114b..406f9af 100644
--- a/recproofs/src/circuits/verify_tx/core.rs
+++ b/recproofs/src/circuits/verify_tx/core.rs
@@ -39,6 +39,10 @@ impl<const D: usize> ProgramSetVerifierTargets<D> {
         let verifier = builder.constant_verifier_data(&circuit.verifier_only);
 
         builder.verify_proof::<C>(&program_set_proof, &verifier, &circuit.common);
+        program
+            .unbounded
+            .indices
+            .connect_verifier(builder, &program_set_proof, &verifier);
 
         let events_present = program
             .events
diff --git a/recproofs/src/subcircuits/unbounded.rs b/recproofs/src/subcircuits/unbounded.rs
index 4dd03ba..14a91f8 100644
--- a/recproofs/src/subcircuits/unbounded.rs
+++ b/recproofs/src/subcircuits/unbounded.rs
@@ -26,6 +26,21 @@ pub struct PublicIndices {
     pub verifier: VerifierCircuitTargetIndex,
 }
 
+impl PublicIndices {
+    /// Ensure that everything below `proof` was verified as part of the same
+    /// tree. A proof is free to name any verifier for its own recursion, so
+    /// whoever accepts a proof from outside must check this.
+    pub fn connect_verifier<F: RichField + Extendable<D>, const D: usize>(
+        &self,
+        builder: &mut CircuitBuilder<F, D>,
+        proof: &ProofWithPublicInputsTarget<D>,
+        verifier: &VerifierCircuitTarget,
+    ) {
+        let named = self.verifier.get_target(&proof.public_inputs);
+        builder.connect_verifier_data(&named, verifier);
+    }
+}
+
 pub struct SubCircuitInputs {
     pub verifier: VerifierCircuitTarget,
 }
-- 
2.43.0


From 003576ca5d4ab221630156aad17dd32832ccc400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:13 +0000
Subject: [PATCH 44/46] fix: deltas are matched with when the old object was
 last updated

---
 node/src/block_proposer/matches.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node/src/block_proposer/matches.rs b/node/src/block_proposer/matches.rs
index 9dca78b..ee3eb95 100644
--- a/node/src/block_proposer/matches.rs
+++ b/node/src/block_proposer/matches.rs
@@ -182,7 +182,7 @@ impl<'a> Matches<'a> {
                 let (old, new) = objs(addr);
                 let val = LeafWitnessValue {
                     block_height,
-                    last_updated: new.last_updated.to_canonical_u64(),
+                    last_updated: old.last_updated.to_canonical_u64(),
                     old_owner: old.constraint_owner,
                     new_owner: new.constraint_owner,
                     old_data: old.data,
-- 
2.43.0


From b693f083aa403e3f1922714c7622b220687be61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:07 +0000
Subject: [PATCH 45/46] fix: proofs of other transactions are refused on
 arrival

---
 node/src/block_proposer/transactions.rs | 37 ++++++++++++++++---------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/node/src/block_proposer/transactions.rs b/node/src/block_proposer/transactions.rs
index dd5368e..8f3e13f 100644
--- a/node/src/block_proposer/transactions.rs
+++ b/node/src/block_proposer/transactions.rs
@@ -2,7 +2,7 @@ use std::borrow::Cow;
 use std::cmp::Ordering;
 use std::ops::Deref;
 
-use anyhow::{bail, Result};
+use anyhow::{bail, ensure, Result};
 use hashbrown::hash_map::Entry;
 use hashbrown::HashMap;
 use itertools::{merge_join_by, Either, EitherOrBoth};
@@ -571,6 +571,16 @@ impl<'a> TransactionAccumulator<'a> {
             );
         };
 
+        let cast_root = reduce_tree(
+            cast_list.iter().map(|p| p.0),
+            |x| x,
+            |x| x,
+            Poseidon2Hash::two_to_one,
+        )
+        .unwrap()
+        .to_u64s()
+        .map(F::from_canonical_u64);
+
         let events = events.iter().map(|e| convert_event(id, e));
 
         let event_tree = events
@@ -621,23 +631,24 @@ impl<'a> TransactionAccumulator<'a> {
                 }
             };
 
-            self.aux.program_leaf_circuit.prove(
+            let proof = self.aux.program_leaf_circuit.prove(
                 &self.aux.program_branch_circuit,
                 program_verifier,
                 program_proof,
                 event_root_proof,
-            )
-        };
+            )?;
 
-        let cast_root = reduce_tree(
-            cast_list.iter().map(|p| p.0),
-            |x| x,
-            |x| x,
-            Poseidon2Hash::two_to_one,
-        )
-        .unwrap()
-        .to_u64s()
-        .map(F::from_canonical_u64);
+            // A part of some other transaction would spoil this one
+            let program_id = id.0.to_u64s().map(F::from_noncanonical_u64);
+            ensure!(
+                proof.program_id().elements == program_id,
+                "proof of another program"
+            );
+            ensure!(proof.call_list() == call_tape, "proof of another call tape");
+            ensure!(proof.cast_root() == cast_root, "proof of another cast list");
+
+            Ok(proof)
+        };
 
         let key = OngoingTxKey {
             cast_root,
-- 
2.43.0


From 521184647b5c33d4612269b50fc6b743122e05ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:57 +0000
Subject: [PATCH 46/46] fix: bytes of a field element are those of its
 canonical value

---
 recproofs/src/lib.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/recproofs/src/lib.rs b/recproofs/src/lib.rs
index 529dee6..52aa8e4 100644
--- a/recproofs/src/lib.rs
+++ b/recproofs/src/lib.rs
@@ -522,7 +522,7 @@ fn split_bytes<F: RichField + Extendable<D>, const D: usize>(
     builder: &mut CircuitBuilder<F, D>,
     mut source: Target,
 ) -> [Target; 8] {
-    [(); 8]
+    let bytes: [Target; 8] = [(); 8]
         .into_iter_fixed()
         .enumerate()
         .map(|(i, ())| {
@@ -534,7 +534,23 @@ fn split_bytes<F: RichField + Extendable<D>, const D: usize>(
                 lo
             }
         })
-        .collect()
+        .collect();
+
+    // Small values also have a representation offset by the order of the field,
+    // `2^64 - 2^32 + 1`. So if the high half is all ones, the low half must be zero.
+    let zero = builder.zero();
+    let base = F::from_canonical_u64(1 << 8);
+    let [low, high] = [&bytes[..4], &bytes[4..]].map(|half| {
+        half.iter()
+            .rev()
+            .fold(zero, |acc, byte| builder.mul_const_add(base, acc, *byte))
+    });
+    let all_ones = builder.constant(F::from_canonical_u64(u64::from(u32::MAX)));
+    let high_is_max = builder.is_equal(high, all_ones);
+    let low_if_max = builder.mul(high_is_max.target, low);
+    builder.assert_zero(low_if_max);
+
+    bytes
 }
 
 fn byte_wise_hash<F: RichField + Extendable<D>, const D: usize>(
-- 
2.43.0

