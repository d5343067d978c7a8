From c27565cf1a93d278952d5317a93a2cdfeced3bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:57 +0000
Subject: [PATCH] fix: bind revealed seals to the cells at their own positions

The set of reported auth tokens was only required to be a subset of the
operation-defined ones, so definitions could be swapped between outputs,
repeated for several of them, or given for outputs which do not exist.
---
 src/verify.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/verify.rs b/src/verify.rs
index 350954c..4420fb0 100644
--- a/src/verify.rs
+++ b/src/verify.rs
@@ -183,7 +183,16 @@ pub trait ContractVerify<Seal: RgbSeal>: ContractApi<Seal> {
                 .collect::<BTreeSet<_>>();
             // It is a subset and not an equal set since some seals might be unknown to us:
             // we know their commitment auth token but do not know the definition.
-            if !reported.is_subset(&defined) {
+            // Each of the reported seals must match the cell at its own position: otherwise the seals of
+            // different cells may be swapped, or one of the definitions re-used for several cells.
+            let is_valid = block.defined_seals.iter().all(|(pos, seal)| {
+                block
+                    .operation
+                    .destructible_out
+                    .get(*pos as usize)
+                    .is_some_and(|cell| cell.auth == seal.auth_token())
+            });
+            if !is_valid {
                 let sources = block
                     .defined_seals
                     .iter()
-- 
2.43.0

