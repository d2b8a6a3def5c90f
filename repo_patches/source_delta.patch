From 6ed6e9a44e1f04cb2c5d1d8598a186866d343de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:55 +0000
Subject: [PATCH 1/3] fix: validate the outputs of bonding circuits

Synthesis writes a circuit's outputs and enforces a constraint on each, so a
bonding circuit that outputs the ONE wire (or whose output serialization uses
gates) was accepted although bonding circuits must not.
---
 crates/ragu_circuits/src/staging/bonding.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/ragu_circuits/src/staging/bonding.rs b/crates/ragu_circuits/src/staging/bonding.rs
index 7d7968b..367704d 100644
--- a/crates/ragu_circuits/src/staging/bonding.rs
+++ b/crates/ragu_circuits/src/staging/bonding.rs
@@ -25,8 +25,9 @@ use ragu_core::{
     drivers::{Driver, DriverTypes, LinearExpression},
     maybe::Empty,
 };
+use ragu_primitives::{Element, GadgetExt as _};
 
-use alloc::boxed::Box;
+use alloc::{boxed::Box, vec::Vec};
 
 use crate::{
     BondingObject, Circuit, CircuitObject, SegmentRecord,
@@ -65,7 +66,16 @@ where
     {
         // Validate: run synthesis with a driver that rejects mul/gate and ONE usage.
         let mut validator = BondingValidator::<F>::new();
-        self.witness(&mut validator, Empty)?;
+        let output = self.witness(&mut validator, Empty)?.into_output();
+
+        // Synthesis also writes the outputs and enforces a constraint on each
+        // of them, to which the same restrictions apply.
+        let mut outputs: Vec<Element<'_, BondingValidator<F>>> = Vec::new();
+        output.write(&mut validator, &mut outputs)?;
+        for output in &outputs {
+            validator.enforce_zero(|lc| lc.add_term(output.wire(), Coeff::<F>::One))?;
+        }
+
         if let Some(msg) = validator.error {
             return Err(ragu_core::Error::InvalidWitness(msg.into()));
         }
-- 
2.43.0


From ab31ff3163a31a98226dcd28235bc2f0fb9cb1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:01 +0000
Subject: [PATCH 2/3] ragu_pcd: guarded access for the verification harness
 (--cfg ragu_mc)

---
 crates/ragu_pcd/src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/ragu_pcd/src/lib.rs b/crates/ragu_pcd/src/lib.rs
index df42d56..c431d22 100644
--- a/crates/ragu_pcd/src/lib.rs
+++ b/crates/ragu_pcd/src/lib.rs
@@ -274,3 +274,12 @@ impl<C: Cycle, R: Rank, const HEADER_SIZE: usize> Application<'_, C, R, HEADER_S
         .map(|(pcd, ())| pcd)
     }
 }
+
+/// Access to private items for the external verification harness, compiled
+/// only with `--cfg ragu_mc`.
+#[cfg(ragu_mc)]
+#[doc(hidden)]
+#[allow(missing_docs)]
+pub mod mc {
+    include!(env!("RAGU_MC_PCD"));
+}
-- 
2.43.0


From 833bce8e76b6bfbdbdf47a857ef9307c1c38b55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:31 +0000
Subject: [PATCH 3/3] fix: refuse header suffixes that wrap into the internal
 ones

---
 crates/ragu_pcd/src/header.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/ragu_pcd/src/header.rs b/crates/ragu_pcd/src/header.rs
index 50a5fe0..33272d4 100644
--- a/crates/ragu_pcd/src/header.rs
+++ b/crates/ragu_pcd/src/header.rs
@@ -38,7 +38,17 @@ pub struct Suffix {
 
 impl Suffix {
     /// Creates a new application-defined [`Header`] suffix.
+    ///
+    /// # Panics
+    ///
+    /// Panics if the suffix is too large to be offset past the suffixes
+    /// reserved for internal use.
     pub const fn new(value: usize) -> Self {
+        assert!(
+            value <= usize::MAX - NUM_INTERNAL_SUFFIXES as usize,
+            "application header suffix is too large"
+        );
+
         Suffix {
             suffix: HeaderSuffix::Application(value),
         }
-- 
2.43.0

