From e4764793bc442b09faa34e91246e0e75fb9e9c0f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:33:08 +0000
Subject: [PATCH] fix: bind each reported seal definition to the cell it is
 reported for

The check compared the *sets* of authentication tokens of the reported seals and
of the operation outputs, ignoring the cell position a definition is reported
for. A consignment could thus report a definition committed to by one output of
the operation at the position of another output (or at a position which is not
an output at all), and spend somebody else's cell by closing its own seal.

Check that each reported definition matches the authentication token of the
destructible output at the very same position.
---
 src/verify.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/verify.rs b/src/verify.rs
index 350954c..8b40c5b 100644
--- a/src/verify.rs
+++ b/src/verify.rs
@@ -181,9 +181,18 @@ pub trait ContractVerify<Seal: RgbSeal>: ContractApi<Seal> {
                 .values()
                 .map(|seal| seal.auth_token())
                 .collect::<BTreeSet<_>>();
-            // It is a subset and not an equal set since some seals might be unknown to us:
-            // we know their commitment auth token but do not know the definition.
-            if !reported.is_subset(&defined) {
+            // Some seals might be unknown to us: we know their commitment auth token but do not know the
+            // definition. However, each of the reported seals must be a definition for the very same
+            // destructible cell it is reported for (and not just for any other cell of the operation).
+            let mismatch = block.defined_seals.iter().any(|(pos, seal)| {
+                block
+                    .operation
+                    .destructible_out
+                    .get(*pos as usize)
+                    .map(|cell| cell.auth)
+                    != Some(seal.auth_token())
+            });
+            if mismatch {
                 let sources = block
                     .defined_seals
                     .iter()
-- 
2.43.0

