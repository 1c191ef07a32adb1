From 2ee623c3f9c82bd9dcf9fb7bad740d7016a1541e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:18 +0000
Subject: [PATCH 01/18] fix: don't panic on unknown level types in extended
 topology (leaf 0x0B/0x1F)

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 36fabf0..eadf4cf 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4433,7 +4433,8 @@ impl ExtendedTopologyLevel {
             3 => TopologyType::Module,
             4 => TopologyType::Tile,
             5 => TopologyType::Die,
-            _ => unreachable!(),
+            // All other values are reserved.
+            _ => TopologyType::Invalid,
         }
     }
 
-- 
2.43.0


From 1d2b71fefb89f014d88a8783a10eb4bcc46194be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:18 +0000
Subject: [PATCH 02/18] fix: don't overflow in FeatureInfo::family_id for large
 extended families

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index eadf4cf..a29e1c8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1965,7 +1965,8 @@ impl FeatureInfo {
         if just_use_base {
             base_family_id
         } else {
-            base_family_id + extended_family_id
+            // `Family[7:0]` is an 8-bit sum (ExtFamily can be up to 0xff).
+            base_family_id.wrapping_add(extended_family_id)
         }
     }
 
-- 
2.43.0


From 3b7e6d8d24ae28a450d2f38b2982b881e137e784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:18 +0000
Subject: [PATCH 03/18] fix: don't overflow in CacheParameter::sets for ecx =
 0xffff_ffff

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index a29e1c8..12458d4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2834,7 +2834,7 @@ impl CacheParameter {
     /// # Platforms
     /// ✅ AMD ✅ Intel
     pub fn sets(&self) -> usize {
-        (self.ecx + 1) as usize
+        self.ecx as usize + 1
     }
 
     /// Write-Back Invalidate/Invalidate (Bit 0)
-- 
2.43.0


From a3a8375534cf5814adefd7f1a6c3e8e443ce4d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:18 +0000
Subject: [PATCH 04/18] fix: SoC vendor attribute iterator returns sub-leaves
 4..=MaxSOCID_Index and terminates

---
 src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 12458d4..9b2b592 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -5853,7 +5853,7 @@ impl<R: CpuIdReader> SoCVendorInfo<R> {
             Some(SoCVendorAttributesIter {
                 read: self.read.clone(),
                 count: self.eax,
-                current: 3,
+                current: 4,
             })
         } else {
             None
@@ -5897,8 +5897,9 @@ impl<R: CpuIdReader> Iterator for SoCVendorAttributesIter<R> {
         if self.current > self.count {
             return None;
         }
-        self.count += 1;
-        Some(self.read.cpuid2(EAX_SOC_VENDOR_INFO, self.count))
+        let res = self.read.cpuid2(EAX_SOC_VENDOR_INFO, self.current);
+        self.current += 1;
+        Some(res)
     }
 }
 
-- 
2.43.0


From d435e285840e4c74a29c52ea5ea2b2564a5264f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:18 +0000
Subject: [PATCH 05/18] fix: keep MAWAU bits of leaf 0x7 so mawau_value() is
 not always 0

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9b2b592..aed8dbf 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4132,7 +4132,8 @@ bitflags! {
         /// Bit 16: Supports 57-bit linear addresses and five-level paging if 1.
         const LA57 = 1 << 16;
 
-        // Bits 21 - 17: The value of MAWAU used by the BNDLDX and BNDSTX instructions in 64-bit mode
+        /// Bits 21 - 17: The value of MAWAU used by the BNDLDX and BNDSTX instructions in 64-bit mode
+        const MAWAU = 0b11111 << 17;
 
         /// Bit 22: RDPID. RDPID and IA32_TSC_AUX are available if 1.
         const RDPID = 1 << 22;
-- 
2.43.0


From ef4432492a65bbce0938a9bb2837e00d69de302a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:18 +0000
Subject: [PATCH 06/18] fix: an unknown leaf 0x2 descriptor no longer hides the
 descriptors after it

---
 src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index aed8dbf..f15c14e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1246,7 +1246,9 @@ impl Iterator for CacheInfoIter {
             }
         }
 
-        None
+        // Skip descriptors we don't know about, others may follow.
+        self.current += 1;
+        self.next()
     }
 }
 
-- 
2.43.0


From 917f5461721c1bbceebefc069fc8a370fcb25010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:18 +0000
Subject: [PATCH 07/18] fix: ignore reserved registers (bit 31 set) of leaf 0x2

---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index f15c14e..bce5311 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1226,6 +1226,12 @@ impl Iterator for CacheInfoIter {
             _ => unreachable!(),
         };
 
+        if is_bit_set!(reg, 31) {
+            // The register is reserved, it contains no valid descriptors.
+            self.current += 1;
+            return self.next();
+        }
+
         let byte = match byte_index {
             0 => reg,
             1 => reg >> 8,
-- 
2.43.0


From 8e5a1815237701733cf29381d357ea1ece3688a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:31 +0000
Subject: [PATCH 08/18] fix: add descriptors 0x1D, 0x64, 0xA0, 0xC4 to
 CACHE_INFO_TABLE

---
 src/lib.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index bce5311..8734bb0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1435,7 +1435,7 @@ impl fmt::Display for CacheInfo {
 }
 
 /// This table is taken from Intel manual (Section CPUID instruction).
-pub const CACHE_INFO_TABLE: [CacheInfo; 108] = [
+pub const CACHE_INFO_TABLE: [CacheInfo; 112] = [
     CacheInfo {
         num: 0x00,
         typ: CacheInfoType::General,
@@ -1492,6 +1492,10 @@ pub const CACHE_INFO_TABLE: [CacheInfo; 108] = [
         num: 0x0E,
         typ: CacheInfoType::Cache,
     },
+    CacheInfo {
+        num: 0x1D,
+        typ: CacheInfoType::Cache,
+    },
     CacheInfo {
         num: 0x21,
         typ: CacheInfoType::Cache,
@@ -1644,6 +1648,10 @@ pub const CACHE_INFO_TABLE: [CacheInfo; 108] = [
         num: 0x63,
         typ: CacheInfoType::TLB,
     },
+    CacheInfo {
+        num: 0x64,
+        typ: CacheInfoType::TLB,
+    },
     CacheInfo {
         num: 0x66,
         typ: CacheInfoType::Cache,
@@ -1744,6 +1752,10 @@ pub const CACHE_INFO_TABLE: [CacheInfo; 108] = [
         num: 0x87,
         typ: CacheInfoType::Cache,
     },
+    CacheInfo {
+        num: 0xA0,
+        typ: CacheInfoType::DTLB,
+    },
     CacheInfo {
         num: 0xB0,
         typ: CacheInfoType::TLB,
@@ -1788,6 +1800,10 @@ pub const CACHE_INFO_TABLE: [CacheInfo; 108] = [
         num: 0xC2,
         typ: CacheInfoType::DTLB,
     },
+    CacheInfo {
+        num: 0xC4,
+        typ: CacheInfoType::DTLB,
+    },
     CacheInfo {
         num: 0xCA,
         typ: CacheInfoType::STLB,
-- 
2.43.0


From 4ccae5477de87b9a6ae8287b6c9cf687ce2b54f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:31 +0000
Subject: [PATCH 09/18] fix: leaf 0x2 descriptors 0x6A-0x6D are TLBs, not
 caches

---
 src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8734bb0..7e0e0c1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1666,19 +1666,19 @@ pub const CACHE_INFO_TABLE: [CacheInfo; 112] = [
     },
     CacheInfo {
         num: 0x6A,
-        typ: CacheInfoType::Cache,
+        typ: CacheInfoType::TLB,
     },
     CacheInfo {
         num: 0x6B,
-        typ: CacheInfoType::Cache,
+        typ: CacheInfoType::DTLB,
     },
     CacheInfo {
         num: 0x6C,
-        typ: CacheInfoType::Cache,
+        typ: CacheInfoType::DTLB,
     },
     CacheInfo {
         num: 0x6D,
-        typ: CacheInfoType::Cache,
+        typ: CacheInfoType::DTLB,
     },
     CacheInfo {
         num: 0x70,
-- 
2.43.0


From a36b346ffc15136b53c8c80c0f8dd785fa3ef3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:32 +0000
Subject: [PATCH 10/18] fix: iterating leaf 0x17/0x18 ends if the maximum
 sub-leaf is u32::MAX

---
 src/lib.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7e0e0c1..e243057 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -5658,7 +5658,8 @@ impl fmt::Debug for ProcessorFrequencyInfo {
 #[derive(Clone)]
 pub struct DatIter<R: CpuIdReader> {
     read: R,
-    current: u32,
+    /// Next sub-leaf (wider than a sub-leaf index, so it can go past a `count` of `u32::MAX`).
+    current: u64,
     count: u32,
 }
 
@@ -5669,13 +5670,14 @@ impl<R: CpuIdReader> Iterator for DatIter<R> {
     fn next(&mut self) -> Option<DatInfo> {
         loop {
             // Sub-leaf index n is invalid if n exceeds the value that sub-leaf 0 returns in EAX
-            if self.current > self.count {
+            if self.current > u64::from(self.count) {
                 return None;
             }
 
-            let res = self
-                .read
-                .cpuid2(EAX_DETERMINISTIC_ADDRESS_TRANSLATION_INFO, self.current);
+            let res = self.read.cpuid2(
+                EAX_DETERMINISTIC_ADDRESS_TRANSLATION_INFO,
+                self.current as u32,
+            );
             self.current += 1;
 
             // A sub-leaf index is also invalid if EDX[4:0] returns 0.
@@ -5902,7 +5904,8 @@ impl<R: CpuIdReader> fmt::Debug for SoCVendorInfo<R> {
 pub struct SoCVendorAttributesIter<R: CpuIdReader> {
     read: R,
     count: u32,
-    current: u32,
+    /// Next sub-leaf (wider than a sub-leaf index, so it can go past a `count` of `u32::MAX`).
+    current: u64,
 }
 
 impl<R: CpuIdReader> fmt::Debug for SoCVendorAttributesIter<R> {
@@ -5919,10 +5922,10 @@ impl<R: CpuIdReader> Iterator for SoCVendorAttributesIter<R> {
 
     /// Iterate over all SoC vendor specific attributes.
     fn next(&mut self) -> Option<CpuIdResult> {
-        if self.current > self.count {
+        if self.current > u64::from(self.count) {
             return None;
         }
-        let res = self.read.cpuid2(EAX_SOC_VENDOR_INFO, self.current);
+        let res = self.read.cpuid2(EAX_SOC_VENDOR_INFO, self.current as u32);
         self.current += 1;
         Some(res)
     }
-- 
2.43.0


From bcb4385fc793012e333179f22b062b11f5b5926f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:32 +0000
Subject: [PATCH 11/18] fix: don't overflow in
 ProcessorTopologyInfo::threads_per_core

---
 src/extended.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extended.rs b/src/extended.rs
index d79df32..231a821 100644
--- a/src/extended.rs
+++ b/src/extended.rs
@@ -1723,7 +1723,7 @@ impl ProcessorTopologyInfo {
     /// # Note
     /// `Threads per Core` means `Cores per Compute Unit` if AMD Family 15h-16h Processors.
     pub fn threads_per_core(&self) -> u8 {
-        get_bits(self.ebx, 8, 15) as u8 + 1
+        (get_bits(self.ebx, 8, 15) as u8).saturating_add(1)
     }
 
     /// Node ID
-- 
2.43.0


From ce97759e8b62885b6f99f516ac57286fb60d4962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:32 +0000
Subject: [PATCH 12/18] fix: don't overflow when displaying the size of a cache

---
 src/display.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/display.rs b/src/display.rs
index 7ff6d3d..9dd41fa 100644
--- a/src/display.rs
+++ b/src/display.rs
@@ -372,10 +372,10 @@ pub fn markdown<R: crate::CpuIdReader>(cpuid: crate::CpuId<R>) {
         for cache in iter {
             print_subtitle(&skin, format!("L{} Cache:", cache.level()).as_str());
 
-            let size = (cache.associativity()
-                * cache.physical_line_partitions()
-                * cache.coherency_line_size()
-                * cache.sets()) as u64;
+            let size = (cache.associativity() as u64)
+                .saturating_mul(cache.physical_line_partitions() as u64)
+                .saturating_mul(cache.coherency_line_size() as u64)
+                .saturating_mul(cache.sets() as u64);
 
             table2(
                 &skin,
-- 
2.43.0


From 0d5375eb0604641f373a270b6b158d44b2db4fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:32 +0000
Subject: [PATCH 13/18] fix: display AMX_INT8 support instead of AMX_TILE

---
 src/display.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/display.rs b/src/display.rs
index 9dd41fa..ccb9912 100644
--- a/src/display.rs
+++ b/src/display.rs
@@ -545,7 +545,7 @@ pub fn markdown<R: crate::CpuIdReader>(cpuid: crate::CpuId<R>) {
                 RowGen::tuple("AMX_TILE: Tile Architecture support", info.has_amx_tile()),
                 RowGen::tuple(
                     "AMX_INT8: Tile Computational Operation on 8-bit integers",
-                    info.has_amx_tile(),
+                    info.has_amx_int8(),
                 ),
                 RowGen::tuple(
                     "AVX512DQ: double & quadword instructions",
-- 
2.43.0


From 3a71938154c2290d2891cd9bd11d34f1a71c6182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:32 +0000
Subject: [PATCH 14/18] fix: raw dump includes the last leaf of every range

---
 src/display.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/display.rs b/src/display.rs
index ccb9912..d2dadcd 100644
--- a/src/display.rs
+++ b/src/display.rs
@@ -11,18 +11,18 @@ pub fn raw<R: crate::CpuIdReader>(cpuid: R) {
     let _leafs_with_subleafs = &[0x04, 0x0d, 0x0f, 0x10, 0x12];
 
     let max_leafs = cpuid.cpuid1(0x0).eax;
-    for idx in 0..max_leafs {
+    for idx in 0..=max_leafs {
         let res = cpuid.cpuid1(idx);
         println!("({:#x}, {:#x}) => {:?}", idx, 0x0, res);
     }
 
     let max_hypervisor_leafs = cpuid.cpuid1(0x4000_0000).eax;
-    for idx in 0x4000_0000..max_hypervisor_leafs {
+    for idx in 0x4000_0000..=max_hypervisor_leafs {
         println!("({:#x}, {:#x}) => {:?}", idx, 0x0, cpuid.cpuid1(idx));
     }
 
     let max_extended_leafs = cpuid.cpuid1(0x8000_0000).eax;
-    for idx in 0x8000_0000..max_extended_leafs {
+    for idx in 0x8000_0000..=max_extended_leafs {
         println!("({:#x}, {:#x}) => {:?}", idx, 0x0, cpuid.cpuid1(idx));
     }
 }
-- 
2.43.0


From d636b161ba352ae500bae5a51633139c2ce17db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:36 +0000
Subject: [PATCH 15/18] fix: leaf 0x7 features of sub-leaf 1 are only reported
 if the sub-leaf exists

---
 src/lib.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index e243057..3c55f76 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -520,7 +520,17 @@ impl<R: CpuIdReader> CpuId<R> {
     pub fn get_extended_feature_info(&self) -> Option<ExtendedFeatures> {
         if self.leaf_is_supported(EAX_STRUCTURED_EXTENDED_FEATURE_INFO) {
             let res = self.read.cpuid1(EAX_STRUCTURED_EXTENDED_FEATURE_INFO);
-            let res1 = self.read.cpuid2(EAX_STRUCTURED_EXTENDED_FEATURE_INFO, 1);
+            // Sub-leaf 1 exists if sub-leaf 0 reports a maximum sub-leaf >= 1 in EAX.
+            let res1 = if res.eax >= 1 {
+                self.read.cpuid2(EAX_STRUCTURED_EXTENDED_FEATURE_INFO, 1)
+            } else {
+                CpuIdResult {
+                    eax: 0,
+                    ebx: 0,
+                    ecx: 0,
+                    edx: 0,
+                }
+            };
             Some(ExtendedFeatures {
                 _eax: res.eax,
                 ebx: ExtendedFeaturesEbx::from_bits_truncate(res.ebx),
-- 
2.43.0


From 569e624ef61722fa427587b4c9c9072e22bb4534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:00 +0000
Subject: [PATCH 16/18] fix: sub-leaf counters of iterators no longer overflow

---
 src/extended.rs |  2 +-
 src/lib.rs      | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/extended.rs b/src/extended.rs
index 231a821..e3da335 100644
--- a/src/extended.rs
+++ b/src/extended.rs
@@ -2507,7 +2507,7 @@ impl<R: CpuIdReader> Iterator for ExtendedCpuTopologyIter<R> {
 
     fn next(&mut self) -> Option<ExtendedCpuTopologyLevel> {
         let res = self.read.cpuid2(EAX_EXTENDED_CPU_TOPOLOGY, self.level);
-        self.level += 1;
+        self.level = self.level.checked_add(1)?;
 
         let ect = ExtendedCpuTopologyLevel::new(res);
         if ect.level_type() == HierarchyLevelType::Reserved {
diff --git a/src/lib.rs b/src/lib.rs
index 3c55f76..5304ebb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2725,7 +2725,7 @@ impl<R: CpuIdReader> Iterator for CacheParametersIter<R> {
             CacheType::Null => None,
             CacheType::Reserved => None,
             _ => {
-                self.current += 1;
+                self.current = self.current.checked_add(1)?;
                 Some(cp)
             }
         }
@@ -4522,7 +4522,7 @@ impl<R: CpuIdReader> Iterator for ExtendedTopologyIter<R> {
         } else {
             self.read.cpuid2(EAX_EXTENDED_TOPOLOGY_INFO, self.level)
         };
-        self.level += 1;
+        self.level = self.level.checked_add(1)?;
 
         let et = ExtendedTopologyLevel {
             eax: res.eax,
@@ -4806,10 +4806,10 @@ impl<R: CpuIdReader> Iterator for ExtendedStateIter<R> {
     type Item = ExtendedState;
 
     fn next(&mut self) -> Option<ExtendedState> {
-        self.level += 1;
-        if self.level > 31 {
+        if self.level >= 31 {
             return None;
         }
+        self.level += 1;
 
         let bit = 1 << self.level;
         if (self.supported_xcr0 & bit > 0) || (self.supported_xss & bit > 0) {
@@ -5375,7 +5375,7 @@ impl<R: CpuIdReader> Iterator for SgxSectionIter<R> {
 
     fn next(&mut self) -> Option<SgxSectionInfo> {
         let res = self.read.cpuid2(EAX_SGX, self.current);
-        self.current += 1;
+        self.current = self.current.checked_add(1)?;
         match get_bits(res.eax, 0, 3) {
             0b0001 => Some(SgxSectionInfo::Epc(EpcSection {
                 eax: res.eax,
-- 
2.43.0


From 28ada1fd946c3596db2e73642272742ef67828f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:27 +0000
Subject: [PATCH 17/18] fix: don't overflow in CacheParameter::sets on 32-bit
 x86

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5304ebb..7cabdd6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2868,7 +2868,7 @@ impl CacheParameter {
     /// # Platforms
     /// ✅ AMD ✅ Intel
     pub fn sets(&self) -> usize {
-        self.ecx as usize + 1
+        (self.ecx as usize).saturating_add(1)
     }
 
     /// Write-Back Invalidate/Invalidate (Bit 0)
-- 
2.43.0


From 683064ade2b2d3004ba1d97092c0fef333ffc96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:06 +0000
Subject: [PATCH 18/18] fix: decode strings on big-endian targets

---
 src/extended.rs |  5 ++++-
 src/lib.rs      | 38 ++++++++++++++++++++++++++++++--------
 2 files changed, 34 insertions(+), 9 deletions(-)

diff --git a/src/extended.rs b/src/extended.rs
index e3da335..03b50f6 100644
--- a/src/extended.rs
+++ b/src/extended.rs
@@ -447,7 +447,10 @@ pub struct ProcessorBrandString {
 
 impl ProcessorBrandString {
     pub(crate) fn new(data: [CpuIdResult; 3]) -> Self {
-        Self { data }
+        // The memory of `data` has to read as the text.
+        Self {
+            data: data.map(|r| r.to_le()),
+        }
     }
 
     /// Return the processor brand string as a rust string.
diff --git a/src/lib.rs b/src/lib.rs
index 7cabdd6..a6f2bb8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -200,9 +200,9 @@ enum Vendor {
 impl Vendor {
     fn from_vendor_leaf(res: CpuIdResult) -> Self {
         let vi = VendorInfo {
-            ebx: res.ebx,
-            ecx: res.ecx,
-            edx: res.edx,
+            ebx: res.ebx.to_le(),
+            ecx: res.ecx.to_le(),
+            edx: res.edx.to_le(),
         };
 
         match vi.as_str() {
@@ -269,6 +269,16 @@ impl CpuIdResult {
     pub fn all_zero(&self) -> bool {
         self.eax == 0 && self.ebx == 0 && self.ecx == 0 && self.edx == 0
     }
+
+    /// The registers in little-endian byte order, in which their memory reads as text.
+    fn to_le(self) -> Self {
+        CpuIdResult {
+            eax: self.eax.to_le(),
+            ebx: self.ebx.to_le(),
+            ecx: self.ecx.to_le(),
+            edx: self.edx.to_le(),
+        }
+    }
 }
 
 impl Debug for CpuIdResult {
@@ -384,9 +394,9 @@ impl<R: CpuIdReader> CpuId<R> {
         if self.leaf_is_supported(EAX_VENDOR_INFO) {
             let res = self.read.cpuid1(EAX_VENDOR_INFO);
             Some(VendorInfo {
-                ebx: res.ebx,
-                ecx: res.ecx,
-                edx: res.edx,
+                ebx: res.ebx.to_le(),
+                ecx: res.ecx.to_le(),
+                edx: res.edx.to_le(),
             })
         } else {
             None
@@ -5879,7 +5889,9 @@ impl<R: CpuIdReader> SoCVendorInfo<R> {
             let r1 = self.read.cpuid2(EAX_SOC_VENDOR_INFO, 1);
             let r2 = self.read.cpuid2(EAX_SOC_VENDOR_INFO, 2);
             let r3 = self.read.cpuid2(EAX_SOC_VENDOR_INFO, 3);
-            Some(SoCVendorBrand { data: [r1, r2, r3] })
+            Some(SoCVendorBrand {
+                data: [r1.to_le(), r2.to_le(), r3.to_le()],
+            })
         } else {
             None
         }
@@ -5942,9 +5954,10 @@ impl<R: CpuIdReader> Iterator for SoCVendorAttributesIter<R> {
 }
 
 /// A vendor brand string as queried from the cpuid leaf.
-#[derive(Debug, PartialEq, Eq)]
+#[derive(PartialEq, Eq)]
 #[repr(C)]
 pub struct SoCVendorBrand {
+    /// Little-endian registers, so that their memory reads as the text.
     data: [CpuIdResult; 3],
 }
 
@@ -5968,6 +5981,15 @@ impl SoCVendorBrand {
     }
 }
 
+impl fmt::Debug for SoCVendorBrand {
+    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
+        let [r1, r2, r3] = self.data;
+        f.debug_struct("SoCVendorBrand")
+            .field("data", &[r1.to_le(), r2.to_le(), r3.to_le()])
+            .finish()
+    }
+}
+
 impl fmt::Display for SoCVendorBrand {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         write!(f, "{}", self.as_str())
-- 
2.43.0

