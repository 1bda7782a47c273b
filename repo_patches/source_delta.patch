From 70d778ff93f1a4559b3ce0788e06142f66f0a128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:38 +0000
Subject: [PATCH 1/2] fix: PtrOpcode::max_variant_idx must be the index of the
 last sub-variant (Shrink)

The declared maximum was left at Pack (2) when Shrink (3) was added, and
disagreed with PtrOpcode::max_variant_idx_for_version.
---
 src/definitions/ptr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/definitions/ptr.rs b/src/definitions/ptr.rs
index 609ba64..7fb899d 100644
--- a/src/definitions/ptr.rs
+++ b/src/definitions/ptr.rs
@@ -65,7 +65,7 @@ impl OpcodeProps for PtrOpcode {
         }
     }
     fn max_variant_idx(&self, _version: ISAVersion) -> usize {
-        PtrOpcode::Pack.variant_index()
+        PtrOpcode::Shrink.variant_index()
     }
     fn input_operands(&self, _version: ISAVersion) -> Vec<Operand> {
         vec![
-- 
2.43.0


From d17c6c582d64a6353945eab0494a23efd0df0ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:38 +0000
Subject: [PATCH 2/2] fix: a sub-variant is available in every version from its
 minimal one on

is_available_for_version compared the wrong way round, so
variants_for_version was empty for every version after the first.
---
 src/definitions/opcode_trait.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/definitions/opcode_trait.rs b/src/definitions/opcode_trait.rs
index a71ee48..b7c5e2f 100644
--- a/src/definitions/opcode_trait.rs
+++ b/src/definitions/opcode_trait.rs
@@ -90,7 +90,7 @@ pub trait OpcodeVariantProps: Sized + 'static + Send + Sync {
     fn minimal_version(&self) -> ISAVersion;
     fn max_variant_idx_for_version(version: ISAVersion) -> usize;
     fn is_available_for_version(&self, version: ISAVersion) -> bool {
-        self.minimal_version() >= version
+        self.minimal_version() <= version
     }
     fn is_added_in_version(&self, version: ISAVersion) -> bool {
         self.minimal_version() == version
-- 
2.43.0

