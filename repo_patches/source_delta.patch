From 54889b571af5617e18ed66385217b35dd7d60906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:45 +0000
Subject: [PATCH] fix: mark the committing and finalizing validator writable in
 the instruction builders

Commit debits the validator (deposit and rent) and finalize refunds it, so the
built instructions only worked when the validator happened to be the fee payer.
---
 src/instruction_builder/commit_state.rs             | 2 +-
 src/instruction_builder/commit_state_from_buffer.rs | 2 +-
 src/instruction_builder/finalize.rs                 | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/instruction_builder/commit_state.rs b/src/instruction_builder/commit_state.rs
index b6f5ce0..8e044ea 100644
--- a/src/instruction_builder/commit_state.rs
+++ b/src/instruction_builder/commit_state.rs
@@ -30,7 +30,7 @@ pub fn commit_state(
     Instruction {
         program_id: crate::id(),
         accounts: vec![
-            AccountMeta::new_readonly(validator, true),
+            AccountMeta::new(validator, true),
             AccountMeta::new_readonly(delegated_account, false),
             AccountMeta::new(commit_state_pda, false),
             AccountMeta::new(commit_record_pda, false),
diff --git a/src/instruction_builder/commit_state_from_buffer.rs b/src/instruction_builder/commit_state_from_buffer.rs
index dc93230..56c913f 100644
--- a/src/instruction_builder/commit_state_from_buffer.rs
+++ b/src/instruction_builder/commit_state_from_buffer.rs
@@ -31,7 +31,7 @@ pub fn commit_state_from_buffer(
     Instruction {
         program_id: crate::id(),
         accounts: vec![
-            AccountMeta::new_readonly(validator, true),
+            AccountMeta::new(validator, true),
             AccountMeta::new_readonly(delegated_account, false),
             AccountMeta::new(commit_state_pda, false),
             AccountMeta::new(commit_record_pda, false),
diff --git a/src/instruction_builder/finalize.rs b/src/instruction_builder/finalize.rs
index 38226dd..23cbe2a 100644
--- a/src/instruction_builder/finalize.rs
+++ b/src/instruction_builder/finalize.rs
@@ -21,7 +21,7 @@ pub fn finalize(validator: Pubkey, delegated_account: Pubkey) -> Instruction {
     Instruction {
         program_id: crate::id(),
         accounts: vec![
-            AccountMeta::new_readonly(validator, true),
+            AccountMeta::new(validator, true),
             AccountMeta::new(delegated_account, false),
             AccountMeta::new(commit_state_pda, false),
             AccountMeta::new(commit_record_pda, false),
-- 
2.43.0

