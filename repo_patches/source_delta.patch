From fccf7d077f8a227ac39a0fa3be9bddeaa7f0107e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:26 +0000
Subject: [PATCH 1/3] fix: a sub-operation is available from the version that
 introduced it on

---
 src/definitions/opcode_trait.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/definitions/opcode_trait.rs b/src/definitions/opcode_trait.rs
index a71ee48..b7c5e2f 100644
--- a/src/definitions/opcode_trait.rs
+++ b/src/definitions/opcode_trait.rs
@@ -90,7 +90,7 @@ pub trait OpcodeVariantProps: Sized + 'static + Send + Sync {
     fn minimal_version(&self) -> ISAVersion;
     fn max_variant_idx_for_version(version: ISAVersion) -> usize;
     fn is_available_for_version(&self, version: ISAVersion) -> bool {
-        self.minimal_version() >= version
+        self.minimal_version() <= version
     }
     fn is_added_in_version(&self, version: ISAVersion) -> bool {
         self.minimal_version() == version
-- 
2.43.0


From 651d3f75bdf174264bf5ef53eddc24a6decd7e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:26 +0000
Subject: [PATCH 2/3] fix: PtrOpcode's maximal variant index is that of Shrink

---
 src/definitions/ptr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/definitions/ptr.rs b/src/definitions/ptr.rs
index 609ba64..7fb899d 100644
--- a/src/definitions/ptr.rs
+++ b/src/definitions/ptr.rs
@@ -65,7 +65,7 @@ impl OpcodeProps for PtrOpcode {
         }
     }
     fn max_variant_idx(&self, _version: ISAVersion) -> usize {
-        PtrOpcode::Pack.variant_index()
+        PtrOpcode::Shrink.variant_index()
     }
     fn input_operands(&self, _version: ISAVersion) -> Vec<Operand> {
         vec![
-- 
2.43.0


From 86104f6eb0b9d7753f1073671c53e0dad4f57309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:26 +0000
Subject: [PATCH 3/3] fix: the default opcode variant is the encodable no-op

---
 src/definitions/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/definitions/mod.rs b/src/definitions/mod.rs
index bcb8041..791e9d6 100644
--- a/src/definitions/mod.rs
+++ b/src/definitions/mod.rs
@@ -166,8 +166,8 @@ impl std::default::Default for OpcodeVariant {
     fn default() -> Self {
         OpcodeVariant {
             opcode: Opcode::Nop(NopOpcode),
-            src0_operand_type: Operand::RegOnly,
-            dst0_operand_type: Operand::RegOnly,
+            src0_operand_type: Operand::Full(ImmMemHandlerFlags::UseRegOnly),
+            dst0_operand_type: Operand::Full(ImmMemHandlerFlags::UseRegOnly),
             flags: [false; NUM_NON_EXCLUSIVE_FLAGS],
         }
     }
-- 
2.43.0

