From ad17714c740d2981d0f1ddfae8ec5078524a2dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:26 +0000
Subject: [PATCH 01/17] fix: report the stack when RETURN/REVERT operands are
 constant

With inspect_stack, the constant-operand peephole for RETURN and REVERT left
without storing the stack and its length, so callers saw a stale stack.
---
 crates/revmc-codegen/src/compiler/translate/peephole.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/revmc-codegen/src/compiler/translate/peephole.rs b/crates/revmc-codegen/src/compiler/translate/peephole.rs
index a407dcb..8ee836e 100644
--- a/crates/revmc-codegen/src/compiler/translate/peephole.rs
+++ b/crates/revmc-codegen/src/compiler/translate/peephole.rs
@@ -328,6 +328,7 @@ impl<'a, B: Backend> FunctionCx<'a, B> {
             let ir_const = self.bcx.iconst(self.i8_type, ir as i64);
             let offset = self.bcx.iconst(self.isize_type, offset as i64);
             let len = self.bcx.iconst(self.isize_type, len as i64);
+            self.sync_diverging_stack_effect();
             let _ = self.call_builtin(Builtin::DoReturnCC, &[self.ecx, offset, len, ir_const]);
             self.bcx.unreachable();
             true
-- 
2.43.0


From f31c0b16b5b5ed11218043bea48028834ee107bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:26 +0000
Subject: [PATCH 02/17] fix: use the memory operands of LOG1..LOG4 in memory
 analysis

The memory-size analysis took topics for offset and length, so a later access
could skip its memory expansion (and its gas), or resize to the wrong size.
---
 crates/revmc-codegen/src/bytecode/mod.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/crates/revmc-codegen/src/bytecode/mod.rs b/crates/revmc-codegen/src/bytecode/mod.rs
index 2b8c5e8..114d16f 100644
--- a/crates/revmc-codegen/src/bytecode/mod.rs
+++ b/crates/revmc-codegen/src/bytecode/mod.rs
@@ -710,7 +710,7 @@ impl<'a> Bytecode<'a> {
         let operand =
             |depth| self.const_operand(inst, depth).and_then(|value| u64::try_from(value).ok());
         match data.opcode {
-            op::KECCAK256 | op::RETURN | op::REVERT | op::LOG0 => {
+            op::KECCAK256 | op::RETURN | op::REVERT | op::LOG0..=op::LOG4 => {
                 [Some((operand(0), operand(1))), None]
             }
             op::MLOAD | op::MSTORE => [Some((operand(0), Some(32))), None],
@@ -723,10 +723,6 @@ impl<'a> Bytecode<'a> {
                 Some((operand(0).zip(operand(1)).map(|(dst, src)| dst.max(src)), operand(2))),
                 None,
             ],
-            op::LOG1 => [Some((operand(1), operand(2))), None],
-            op::LOG2 => [Some((operand(2), operand(3))), None],
-            op::LOG3 => [Some((operand(3), operand(4))), None],
-            op::LOG4 => [Some((operand(4), operand(5))), None],
             op::CREATE | op::CREATE2 => [Some((operand(1), operand(2))), None],
             op::CALL | op::CALLCODE => {
                 [Some((operand(3), operand(4))), Some((operand(5), operand(6)))]
-- 
2.43.0


From e600341947f6c616235308aa539c8af008287050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:26 +0000
Subject: [PATCH 03/17] fix: compile PUSH after an invalid EIP-8024 immediate

Constant analysis stops at an instruction with an invalid immediate, and
translation of a following PUSH in the same block panicked.
---
 crates/revmc-codegen/src/bytecode/mod.rs           | 1 -
 crates/revmc-codegen/src/compiler/translate/mod.rs | 6 +++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/revmc-codegen/src/bytecode/mod.rs b/crates/revmc-codegen/src/bytecode/mod.rs
index 114d16f..ce7dd8c 100644
--- a/crates/revmc-codegen/src/bytecode/mod.rs
+++ b/crates/revmc-codegen/src/bytecode/mod.rs
@@ -619,7 +619,6 @@ impl<'a> Bytecode<'a> {
 
     /// Returns the value of a PUSH instruction, right-padding truncated EOF immediates with zeros
     /// per EVM spec.
-    #[cfg(test)]
     pub(crate) fn get_push_value(&self, data: &InstData) -> U256 {
         debug_assert!(matches!(data.opcode, op::PUSH0..=op::PUSH32));
         data.imm().get(&self.u256_interner.borrow())
diff --git a/crates/revmc-codegen/src/compiler/translate/mod.rs b/crates/revmc-codegen/src/compiler/translate/mod.rs
index 13f2bb1..8cff3f2 100644
--- a/crates/revmc-codegen/src/compiler/translate/mod.rs
+++ b/crates/revmc-codegen/src/compiler/translate/mod.rs
@@ -1093,7 +1093,11 @@ impl<'a, B: Backend> FunctionCx<'a, B> {
             }
 
             op::PUSH0..=op::PUSH32 => {
-                unreachable!("handled in const_output");
+                // Usually handled in `const_output`; not when analysis did not reach this
+                // instruction, e.g. after an invalid EIP-8024 immediate.
+                let value = self.bytecode.get_push_value(data);
+                let value = self.bcx.iconst_256(value);
+                self.push(value);
             }
 
             op::DUP1..=op::DUP16 => self.dup((opcode - op::DUP1 + 1) as usize),
-- 
2.43.0


From 45fd262fdb093fd0b75cd8c4c2dde025927fb8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:26 +0000
Subject: [PATCH 04/17] fix: EIP-8024 immediates that are PUSH opcodes mask
 jump destinations

Jump destination analysis is not affected by DUPN/SWAPN/EXCHANGE: their
immediate byte is an instruction of its own to it. Only 0x5b was handled; with
PUSH1..PUSH32 in that position, bytes of push data were valid jump targets.
---
 crates/revmc-codegen/src/bytecode/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/revmc-codegen/src/bytecode/mod.rs b/crates/revmc-codegen/src/bytecode/mod.rs
index ce7dd8c..35c10ad 100644
--- a/crates/revmc-codegen/src/bytecode/mod.rs
+++ b/crates/revmc-codegen/src/bytecode/mod.rs
@@ -304,12 +304,13 @@ impl<'a> Bytecode<'a> {
 
             // EIP-8024: JUMPDEST analysis is unchanged by DUPN/SWAPN/EXCHANGE. Their
             // immediate byte is NOT masked, so 0x5b in that position is a valid jump
-            // target. When the immediate is 0x5b, rewind the iterator so it is re-yielded
-            // and processed as a normal JUMPDEST by the loop.
+            // target, and a PUSH opcode in that position masks the bytes that follow it.
+            // In both cases rewind the iterator so that the byte is re-yielded and
+            // processed as a normal instruction by the loop.
             if matches!(opcode, op::DUPN | op::SWAPN | op::EXCHANGE)
                 && !info.is_unknown()
                 && !info.is_disabled()
-                && immediate == Some(&[op::JUMPDEST])
+                && matches!(immediate, Some(&[op::JUMPDEST | op::PUSH1..=op::PUSH32]))
             {
                 // SAFETY: we just consumed the 1-byte immediate.
                 unsafe { iter.rewind(1) };
-- 
2.43.0


From fa46c43b4cc015369bd9b94eeebedbaf177a173d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:12 +0000
Subject: [PATCH 05/17] fix: make the block deduplication fingerprint
 unambiguous

---
 crates/revmc-codegen/src/bytecode/passes/dedup.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/crates/revmc-codegen/src/bytecode/passes/dedup.rs b/crates/revmc-codegen/src/bytecode/passes/dedup.rs
index ac0d70d..4a124b4 100644
--- a/crates/revmc-codegen/src/bytecode/passes/dedup.rs
+++ b/crates/revmc-codegen/src/bytecode/passes/dedup.rs
@@ -203,11 +203,9 @@ fn block_fingerprint(insts: &IndexVec<Inst, InstData>, block: &BlockData) -> Sma
         let data = &insts[i];
         buf.push(data.opcode);
         if data.imm_len() > 0 {
-            let mut imm = &data.data.to_ne_bytes()[..];
-            while let [0, rest @ ..] = imm {
-                imm = rest;
-            }
-            buf.extend_from_slice(imm);
+            // Fixed width, so that the encoding is unambiguous: a shorter immediate followed by
+            // other opcodes must not look like a longer immediate.
+            buf.extend_from_slice(&data.data.to_ne_bytes());
         }
     }
     buf
-- 
2.43.0


From 668cdfe98d1f05ee8077740af5ab38c1d33b5700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:39 +0000
Subject: [PATCH 06/17] fix: recompile a contract whose earlier code is still
 in use

A program removed by a clear or an eviction stays linked while a caller holds
it, and compiling the contract again on the same worker failed with a duplicate
symbol.
---
 crates/revmc-runtime/src/runtime/backend.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/revmc-runtime/src/runtime/backend.rs b/crates/revmc-runtime/src/runtime/backend.rs
index b827df4..fb3873c 100644
--- a/crates/revmc-runtime/src/runtime/backend.rs
+++ b/crates/revmc-runtime/src/runtime/backend.rs
@@ -23,6 +23,7 @@ use dashmap::DashMap;
 use quanta::Instant;
 use std::{
     ffi::CString,
+    fmt::Write,
     mem,
     ops::ControlFlow,
     sync::{Arc, atomic::Ordering},
@@ -356,7 +357,13 @@ impl BackendState {
             CompilationKind::Jit => self.tuning.jit_opt_level,
             CompilationKind::Aot => self.tuning.aot_opt_level,
         };
-        let symbol = format!("{prefix}_{:x}_{:?}", key.code_hash, key.spec_id);
+        let mut symbol = format!("{prefix}_{:x}_{:?}", key.code_hash, key.spec_id);
+        if kind == CompilationKind::Jit {
+            // The code of an earlier compilation of this key stays linked in the worker's JITDylib
+            // while callers hold on to it, so its symbol name cannot be used again.
+            let n = self.inner.stats.compilations_dispatched.load(Ordering::Relaxed);
+            let _ = write!(symbol, "_{n}");
+        }
         let job = CompileJob {
             kind,
             key,
-- 
2.43.0


From e311a8542a00625900c1c449e7aed50c4f3f763d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:39 +0000
Subject: [PATCH 07/17] fix: stale compilation results leave the current
 generation alone

A result from before a clear dropped the entry and woke the waiters of a newer
request for the same contract, and was never counted, so that the number of
pending jobs stayed too high forever.
---
 crates/revmc-runtime/src/runtime/backend.rs | 31 ++++++++++++---------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/crates/revmc-runtime/src/runtime/backend.rs b/crates/revmc-runtime/src/runtime/backend.rs
index fb3873c..ca43e06 100644
--- a/crates/revmc-runtime/src/runtime/backend.rs
+++ b/crates/revmc-runtime/src/runtime/backend.rs
@@ -501,6 +501,24 @@ impl BackendState {
     fn handle_worker_result(&mut self, result: WorkerResult) {
         self.pending_jobs = self.pending_jobs.saturating_sub(1);
 
+        // Discard stale results from a previous generation (e.g. after clear).
+        // The entry of the key, if any, belongs to the current generation.
+        if result.generation != self.generation {
+            debug!(
+                code_hash = %result.key.code_hash,
+                result_gen = result.generation,
+                current_gen = self.generation,
+                "discarding stale worker result",
+            );
+            let counter = match &result.outcome {
+                Ok(_) => &self.inner.stats.compilations_succeeded,
+                Err(_) => &self.inner.stats.compilations_failed,
+            };
+            counter.fetch_add(1, Ordering::Relaxed);
+            result.sync_notifier.notify();
+            return;
+        }
+
         // Drain pending notifiers from the entry before processing.
         let pending_notifiers = self
             .entries
@@ -515,19 +533,6 @@ impl BackendState {
             }
         };
 
-        // Discard stale results from a previous generation (e.g. after clear).
-        if result.generation != self.generation {
-            debug!(
-                code_hash = %result.key.code_hash,
-                result_gen = result.generation,
-                current_gen = self.generation,
-                "discarding stale worker result",
-            );
-            self.entries.remove(&result.key);
-            notify();
-            return;
-        }
-
         let kind = result.kind;
         let success = result.outcome.is_ok();
 
-- 
2.43.0


From 031a32272c18c5e745ec205bd5b12fea2abf37c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:59 +0000
Subject: [PATCH 08/17] fix: do not queue commands for a backend that has not
 started

Nothing drains the bounded command channel before the backend thread runs, so
clearing (or requesting compilations when the start fails) blocked forever once
the channel was full.
---
 crates/revmc-runtime/src/runtime/mod.rs | 26 ++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/crates/revmc-runtime/src/runtime/mod.rs b/crates/revmc-runtime/src/runtime/mod.rs
index d44e5b5..21a74b7 100644
--- a/crates/revmc-runtime/src/runtime/mod.rs
+++ b/crates/revmc-runtime/src/runtime/mod.rs
@@ -288,7 +288,10 @@ impl JitBackend {
     ///
     /// Blocks if the command channel is full to guarantee delivery.
     pub fn compile_jit(&self, req: LookupRequest) {
-        let _ = self.ensure_started();
+        if let Err(err) = self.ensure_started() {
+            error!(%err, "failed to start JIT backend");
+            return;
+        }
         let cmd = Command::CompileJit(CompileJitRequest {
             key: req.key,
             bytecode: req.code,
@@ -327,7 +330,10 @@ impl JitBackend {
     ///
     /// Blocks if the command channel is full to guarantee delivery.
     pub fn prepare_aot_batch(&self, reqs: Vec<AotRequest>) {
-        let _ = self.ensure_started();
+        if let Err(err) = self.ensure_started() {
+            error!(%err, "failed to start JIT backend");
+            return;
+        }
         let owned: Vec<PrepareAotRequest> = reqs
             .into_iter()
             .map(|r| PrepareAotRequest {
@@ -344,17 +350,27 @@ impl JitBackend {
     /// All compiled programs are removed from the map. Active references
     /// held by callers remain valid until dropped.
     pub fn clear_resident(&self) {
-        let _ = self.inner.tx.send(Command::ClearResident);
+        self.send_clear(Command::ClearResident);
     }
 
     /// Clears persisted artifacts from the artifact store.
     pub fn clear_persisted(&self) {
-        let _ = self.inner.tx.send(Command::ClearPersisted);
+        self.send_clear(Command::ClearPersisted);
     }
 
     /// Clears both the resident map and persisted artifacts.
     pub fn clear_all(&self) {
-        let _ = self.inner.tx.send(Command::ClearAll);
+        self.send_clear(Command::ClearAll);
+    }
+
+    /// Sends a clear command, starting the backend thread first: without it nothing drains the
+    /// bounded command channel, and a send would block forever once it is full.
+    fn send_clear(&self, command: Command) {
+        if let Err(err) = self.ensure_started() {
+            error!(%err, "failed to start JIT backend");
+            return;
+        }
+        let _ = self.inner.tx.send(command);
     }
 
     /// Returns whether the runtime is enabled.
-- 
2.43.0


From df81404b55f6998911e65dd92f20c8551d802936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:59 +0000
Subject: [PATCH 09/17] fix: replace stored dylibs instead of writing into them

Overwriting in place truncates a file that a loaded program may be mapped from.
---
 crates/revmc-runtime/src/runtime/storage.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/revmc-runtime/src/runtime/storage.rs b/crates/revmc-runtime/src/runtime/storage.rs
index 5b85f30..3225622 100644
--- a/crates/revmc-runtime/src/runtime/storage.rs
+++ b/crates/revmc-runtime/src/runtime/storage.rs
@@ -4,7 +4,7 @@ use crate::{OptimizationLevel, eyre};
 use alloy_primitives::B256;
 use dashmap::DashMap;
 use revm_primitives::hardfork::SpecId;
-use std::{fs, path::PathBuf};
+use std::{fs, io::Write, path::PathBuf};
 
 /// Runtime cache key: the minimal identity for a compiled program at runtime.
 #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
@@ -142,7 +142,10 @@ impl ArtifactStore for RuntimeArtifactStore {
         dylib_bytes: &[u8],
     ) -> eyre::Result<()> {
         let path = self.artifact_path(key);
-        fs::write(&path, dylib_bytes)?;
+        // Replace the file instead of writing into it: a program may be running from its mapping.
+        let mut file = tempfile::NamedTempFile::new_in(self.dir.path())?;
+        file.write_all(dylib_bytes)?;
+        file.persist(&path)?;
         self.artifacts
             .insert(key.clone(), StoredArtifact { manifest: manifest.clone(), dylib_path: path });
         Ok(())
-- 
2.43.0


From b7a555061f799eceb6a0fb6f1b166864211042b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:51 +0000
Subject: [PATCH 10/17] fix: reap a JIT helper that exits before it is
 initialized

Every attempt to start such a helper left a zombie process behind.
---
 crates/revmc-runtime/src/runtime/out_of_process.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/revmc-runtime/src/runtime/out_of_process.rs b/crates/revmc-runtime/src/runtime/out_of_process.rs
index 25e8e2c..f9f6b1d 100644
--- a/crates/revmc-runtime/src/runtime/out_of_process.rs
+++ b/crates/revmc-runtime/src/runtime/out_of_process.rs
@@ -202,8 +202,12 @@ impl HelperProcessInner {
 
         let mut child = command.spawn().map_err(|e| format!("failed to spawn JIT helper: {e}"))?;
         let mut stdin = BufWriter::new(child.stdin.take().ok_or("helper stdin unavailable")?);
-        write_init(&mut stdin, &init).map_err(|e| format!("failed to write helper init: {e}"))?;
-        stdin.flush().map_err(|e| format!("failed to flush helper init: {e}"))?;
+        if let Err(e) = write_init(&mut stdin, &init).and_then(|()| stdin.flush()) {
+            // The helper exited already; reap it.
+            kill_helper(&mut child);
+            let _ = child.wait();
+            return Err(format!("failed to write helper init: {e}"));
+        }
         let stdout = child.stdout.take().ok_or("helper stdout unavailable")?;
         let pending = PendingResponses::default();
         let pending_pauses = PendingPauses::default();
-- 
2.43.0


From 5eeaa42689ade5074864021ed37a16ec5ad596da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:51 +0000
Subject: [PATCH 11/17] fix: eviction keeps entries with a compilation in
 flight

A contract can become resident from the artifact store while a JIT job for it is
running; evicting it dropped the waiters of that job, whose synchronous requests
then failed.
---
 crates/revmc-runtime/src/runtime/backend.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/revmc-runtime/src/runtime/backend.rs b/crates/revmc-runtime/src/runtime/backend.rs
index ca43e06..5dc9b9f 100644
--- a/crates/revmc-runtime/src/runtime/backend.rs
+++ b/crates/revmc-runtime/src/runtime/backend.rs
@@ -498,6 +498,14 @@ impl BackendState {
         self.resident_meta.remove(key);
     }
 
+    /// Forgets the key's hotness. An entry with a job in flight stays until its result arrives:
+    /// sync callers may be waiting on it.
+    fn remove_cold_entry(&mut self, key: &RuntimeCacheKey) {
+        if self.entries.get(key).is_some_and(|entry| entry.phase == EntryPhase::Cold) {
+            self.entries.remove(key);
+        }
+    }
+
     fn handle_worker_result(&mut self, result: WorkerResult) {
         self.pending_jobs = self.pending_jobs.saturating_sub(1);
 
@@ -756,7 +764,7 @@ impl BackendState {
                     "evicting idle entry",
                 );
                 self.remove_resident(key);
-                self.entries.remove(key);
+                self.remove_cold_entry(key);
                 self.inner.stats.evictions.fetch_add(1, Ordering::Relaxed);
             }
         }
@@ -796,7 +804,7 @@ impl BackendState {
                     "evicting entry to stay within memory budget",
                 );
                 self.remove_resident(&key);
-                self.entries.remove(&key);
+                self.remove_cold_entry(&key);
                 self.inner.stats.evictions.fetch_add(1, Ordering::Relaxed);
             }
         }
-- 
2.43.0


From 2b4b03165266823cb0cdfcad5f82d702326fd60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:57 +0000
Subject: [PATCH 12/17] fix: encode EXCHANGE pairs whose second index is above
 16

---
 crates/revmc-codegen/src/bytecode/opcode.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/crates/revmc-codegen/src/bytecode/opcode.rs b/crates/revmc-codegen/src/bytecode/opcode.rs
index 6237bc6..25c2bf2 100644
--- a/crates/revmc-codegen/src/bytecode/opcode.rs
+++ b/crates/revmc-codegen/src/bytecode/opcode.rs
@@ -258,12 +258,8 @@ pub fn encode_pair(n: u8, m: u8) -> Option<u8> {
     };
 
     // Case 1: q < r → n = q+1, m = r+1.
-    if n < m {
-        try_k(n - 1, m - 1)
-    } else {
-        // Case 2: q >= r → n = r+1, m = 29-q.
-        if let Some(q) = 29u8.checked_sub(m) { try_k(q, n - 1) } else { None }
-    }
+    // Case 2: q >= r → n = r+1, m = 29-q.
+    try_k(n - 1, m - 1).or_else(|| try_k(29u8.checked_sub(m)?, n - 1))
 }
 
 /// Returns a string representation of the given bytecode.
-- 
2.43.0


From 1e735519779bc0454a6a0ef9f5bb5859149f6a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:42 +0000
Subject: [PATCH 13/17] fix: keep other threads from relying on builtins that
 are not defined yet

---
 crates/revmc-llvm/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/revmc-llvm/src/lib.rs b/crates/revmc-llvm/src/lib.rs
index 1257eb0..1c03848 100644
--- a/crates/revmc-llvm/src/lib.rs
+++ b/crates/revmc-llvm/src/lib.rs
@@ -334,13 +334,14 @@ impl GlobalOrcJit {
                 )
             })
             .collect();
-        drop(defined);
         if !new_syms.is_empty()
             && let Err((e, _)) =
                 self.builtins_jd.define(orc::MaterializationUnit::absolute_symbols(new_syms))
         {
             error!("failed to define builtins: {e}");
         }
+        // Only now may other threads rely on these symbols being defined.
+        drop(defined);
     }
 
     fn gc(&self) {
-- 
2.43.0


From 08d9bbfa93d3055afc7b8ef48db0631e9f304535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:38 +0000
Subject: [PATCH 14/17] fix: statetest-diff runs the JIT it compares with the
 interpreter

The backend was created with the default configuration, in which compilation is
disabled: every lookup answered Interpret(Disabled) and the tool compared the
interpreter with itself, so it could not report a mismatch.
---
 crates/revmc-cli/src/cmd/statetest_diff.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/revmc-cli/src/cmd/statetest_diff.rs b/crates/revmc-cli/src/cmd/statetest_diff.rs
index bd4cc71..15e7ea6 100644
--- a/crates/revmc-cli/src/cmd/statetest_diff.rs
+++ b/crates/revmc-cli/src/cmd/statetest_diff.rs
@@ -44,6 +44,7 @@ impl StatetestDiffArgs {
 
         let cpus = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(1);
         let backend = JitBackend::new(RuntimeConfig {
+            enabled: true,
             blocking: true,
             tuning: RuntimeTuning { jit_worker_count: cpus, ..Default::default() },
             ..Default::default()
-- 
2.43.0


From a5cf796e0993021d8d6c8ee17f4877b12a90a015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:10 +0000
Subject: [PATCH 15/17] fix: revmc run --aot writes its files for every kind of
 input

The output directory was derived from the raw input: an absolute path replaced
it ("File exists"), long inline code exceeded the file name limit, and with
-o it did not match the dump directory that had been created.
---
 crates/revmc-cli/src/cmd/run.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/revmc-cli/src/cmd/run.rs b/crates/revmc-cli/src/cmd/run.rs
index 6f4e9d2..fd22b7c 100644
--- a/crates/revmc-cli/src/cmd/run.rs
+++ b/crates/revmc-cli/src/cmd/run.rs
@@ -148,7 +148,12 @@ impl RunArgs {
         };
 
         let name = bench_entry.name;
-        let default_aot_dir = || std::env::temp_dir().join("revmc-cli").join(&bench_name);
+        // Inputs can be paths or arbitrarily long, so inline code is identified by its hash.
+        let aot_name = match name {
+            "custom" => format!("custom-{}", keccak256(fixture_entry_bytecode(&bench_entry))),
+            name => name.to_string(),
+        };
+        let default_aot_dir = || std::env::temp_dir().join("revmc-cli").join(&aot_name);
         let mut aot_dir = None;
         let mut pending_jit = None;
 
@@ -199,8 +204,8 @@ impl RunArgs {
 
             // Finalize the module (verify + optimize + dump IR/asm).
             if self.aot {
-                let out_dir = if let Some(out_dir) = compiler.out_dir() {
-                    out_dir.join(&bench_name)
+                let out_dir = if let Some(dump_dir) = compiler.dump_dir() {
+                    dump_dir
                 } else {
                     let dir = default_aot_dir();
                     std::fs::create_dir_all(&dir)?;
-- 
2.43.0


From 3e0042121ffccbdce9d50c720363c3442e6fef17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:48 +0000
Subject: [PATCH 16/17] fix: revmc run --load uses the library for the contract
 it was compiled from

The one function in the library was registered for every contract of the
fixture, so other contracts ran the entry point's code.
---
 crates/revmc-cli/src/fixture.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/crates/revmc-cli/src/fixture.rs b/crates/revmc-cli/src/fixture.rs
index a87903a..913399e 100644
--- a/crates/revmc-cli/src/fixture.rs
+++ b/crates/revmc-cli/src/fixture.rs
@@ -4,7 +4,9 @@ use revm_context::{BlockEnv, CfgEnv, Context, Journal, TxEnv};
 use revm_context_interface::result::ResultAndState;
 use revm_database::{CacheDB, EmptyDB};
 use revm_handler::{ExecuteEvm, MainBuilder, MainnetEvm};
-use revm_primitives::{Address, B256, B256Map, Bytes, StorageKeyMap, StorageValue, TxKind, U256};
+use revm_primitives::{
+    Address, B256, B256Map, Bytes, StorageKeyMap, StorageValue, TxKind, U256, keccak256,
+};
 use revm_state::AccountInfo;
 use revmc::{
     Backend, EvmCompiler, EvmLlvmBackend, RawEvmCompilerFn, primitives::hardfork::SpecId,
@@ -193,7 +195,7 @@ impl PreparedBench {
 
     /// Load a benchmark from a pre-compiled shared library instead of JIT-compiling.
     ///
-    /// The `symbol_name` is looked up in the library for each non-empty contract bytecode.
+    /// The function `symbol_name` of the library is used for the entry-point contract.
     /// The caller must keep `_lib` alive as long as the returned `PreparedBench` is used.
     pub fn load_from_library(
         bench: &Bench,
@@ -205,16 +207,11 @@ impl PreparedBench {
         let (accounts, block, cfg, tx) = Self::parse_fixture(bench);
 
         let lib = unsafe { libloading::Library::new(lib_path) }.expect("failed to load library");
+        let f: libloading::Symbol<'_, revmc::EvmCompilerFn> =
+            unsafe { lib.get(symbol_name.as_bytes()) }.expect("symbol not found in library");
+        // The library holds the entry-point contract only; the others are interpreted.
         let mut functions = B256Map::default();
-        let mut seen = HashSet::new();
-        for acct in &accounts {
-            if acct.bytecode.is_empty() || !seen.insert(acct.code_hash) {
-                continue;
-            }
-            let f: libloading::Symbol<'_, revmc::EvmCompilerFn> =
-                unsafe { lib.get(symbol_name.as_bytes()) }.expect("symbol not found in library");
-            functions.insert(acct.code_hash, (*f).into_inner());
-        }
+        functions.insert(keccak256(fixture_entry_bytecode(bench)), (*f).into_inner());
 
         (
             Self {
-- 
2.43.0


From 584a2d25daab8ec1993ed0b8de36a246a19cb2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:02 +0000
Subject: [PATCH 17/17] fix: stack contents are kept when a return ends an
 inspected function

The stack arguments were noalias, so before a noreturn builtin LLVM took stores
to them for dead where the other paths overwrite them: with inspect_stack and
without gas metering the caller saw an earlier value.
---
 crates/revmc-codegen/src/compiler/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/revmc-codegen/src/compiler/mod.rs b/crates/revmc-codegen/src/compiler/mod.rs
index efc5657..6f8692e 100644
--- a/crates/revmc-codegen/src/compiler/mod.rs
+++ b/crates/revmc-codegen/src/compiler/mod.rs
@@ -696,7 +696,10 @@ impl<B: Backend> EvmCompiler<B> {
 
         // Pointer argument attributes.
         for &(i, size, align) in ptr_attrs {
-            let attrs = default_attrs::for_sized_ref((size, align));
+            // `noreturn` builtins end the function early, and the caller then observes the stack.
+            let observed = config.inspect_stack && i > 0;
+            let attrs = default_attrs::for_sized_ref((size, align))
+                .filter(|attr| !(observed && matches!(attr, Attribute::NoAlias)));
             for attr in attrs {
                 let loc = FunctionAttributeLocation::Param(i as _);
                 bcx.add_function_attribute(None, attr, loc);
-- 
2.43.0

