From 24ccb2861a2c04113be0e3cb4d690302a96e5992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:23 +0000
Subject: [PATCH 01/30] fix: reject Base64 integers that do not fit instead of
 silently wrapping

---
 src/cesr/core/util.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/cesr/core/util.rs b/src/cesr/core/util.rs
index 40fee97..4593ad6 100644
--- a/src/cesr/core/util.rs
+++ b/src/cesr/core/util.rs
@@ -146,7 +146,11 @@ pub fn b64_to_u32(b64: &str) -> Result<u32> {
     let mut out: u32 = 0;
 
     for c in b64.chars() {
-        out = (out << 6) + (b64_char_to_index(c)? as u32);
+        let i = b64_char_to_index(c)? as u32;
+        if out > u32::MAX >> 6 {
+            return err!(Error::Conversion(format!("base64 integer too large: {b64}")));
+        }
+        out = (out << 6) + i;
     }
 
     Ok(out)
@@ -156,7 +160,11 @@ pub fn b64_to_u64(b64: &str) -> Result<u64> {
     let mut out: u64 = 0;
 
     for c in b64.chars() {
-        out = (out << 6) + (b64_char_to_index(c)? as u64);
+        let i = b64_char_to_index(c)? as u64;
+        if out > u64::MAX >> 6 {
+            return err!(Error::Conversion(format!("base64 integer too large: {b64}")));
+        }
+        out = (out << 6) + i;
     }
 
     Ok(out)
-- 
2.43.0


From fd996d1dfb2a50346bd9fb6cf57c5d326ebd419f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:35 +0000
Subject: [PATCH 02/30] fix: Matter parsing rejects hostile material instead of
 panicking or accepting base64 padding

---
 src/cesr/core/matter/mod.rs | 38 ++++++++++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/src/cesr/core/matter/mod.rs b/src/cesr/core/matter/mod.rs
index fe9f663..1945c8d 100644
--- a/src/cesr/core/matter/mod.rs
+++ b/src/cesr/core/matter/mod.rs
@@ -329,8 +329,12 @@ pub trait Matter: Default {
             )));
         }
 
-        // bounds already checked
-        let hard = &qb64[..hs];
+        // length already checked, but the material may not be sliceable here
+        let hard = if let Some(hard) = qb64.get(..hs) {
+            hard
+        } else {
+            return err!(Error::UnknownSizage(qb64.to_string()));
+        };
         let szg = tables::sizage(hard)?;
         let cs = szg.hs + szg.ss;
 
@@ -349,7 +353,11 @@ pub trait Matter: Default {
                     qb64.len(),
                 )));
             }
-            let soft = &qb64[szg.hs as usize..cs as usize];
+            let soft = if let Some(soft) = qb64.get(szg.hs as usize..cs as usize) {
+                soft
+            } else {
+                return err!(Error::ParseQb64(qb64.to_string()));
+            };
             let size = util::b64_to_u32(soft)?;
             ((size * 4) + cs, size)
         } else {
@@ -363,7 +371,11 @@ pub trait Matter: Default {
             )));
         }
 
-        let trim = &qb64[..fs as usize];
+        let trim = if let Some(trim) = qb64.get(..fs as usize) {
+            trim
+        } else {
+            return err!(Error::ParseQb64(qb64.to_string()));
+        };
         let ps = cs % 4;
         let pbs = 2 * if ps != 0 { ps } else { szg.ls };
 
@@ -373,6 +385,10 @@ pub trait Matter: Default {
             // decode base to leave pre-padded raw
             let mut paw = Vec::<u8>::new();
             b64_engine::URL_SAFE.decode_vec(&buf, &mut paw)?;
+            // base64 padding characters are not part of qualified material
+            if paw.len() != buf.len() * 3 / 4 {
+                return err!(Error::ParseQb64(qb64.to_string()));
+            }
             buf.zeroize();
 
             let mut pi: i32 = 0;
@@ -390,7 +406,12 @@ pub trait Matter: Default {
             raw
         } else {
             let mut paw = Vec::<u8>::new();
-            b64_engine::URL_SAFE.decode_vec(&trim[cs as usize..], &mut paw)?;
+            let buf = &trim[cs as usize..];
+            b64_engine::URL_SAFE.decode_vec(buf, &mut paw)?;
+            // base64 padding characters are not part of qualified material, lead bytes are
+            if paw.len() != buf.len() * 3 / 4 || paw.len() < szg.ls as usize {
+                return err!(Error::ParseQb64(qb64.to_string()));
+            }
 
             let mut li: u32 = 0;
             for b in &paw[..szg.ls as usize] {
@@ -466,6 +487,13 @@ pub trait Matter: Default {
             )));
         }
 
+        if bfs < bcs + szg.ls {
+            return err!(Error::Shortage(format!(
+                "insufficient material for lead bytes: bfs = {bfs}, bcs = {bcs}, ls = {}",
+                szg.ls,
+            )));
+        }
+
         let mut trim = qb2[..bfs as usize].to_vec();
         let ps = cs % 4;
         let pbs = 2 * if ps != 0 { ps } else { szg.ls };
-- 
2.43.0


From 4d3faa751e96c6d8397aeea338b2aaf1f6864e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:06 +0000
Subject: [PATCH 03/30] fix: Matter constructor rejects unknown variable codes
 and never panics on short ones

---
 src/cesr/core/matter/mod.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/cesr/core/matter/mod.rs b/src/cesr/core/matter/mod.rs
index 1945c8d..c543d72 100644
--- a/src/cesr/core/matter/mod.rs
+++ b/src/cesr/core/matter/mod.rs
@@ -64,12 +64,14 @@ pub trait Matter: Default {
                     if size < 64_u32.pow(2) {
                         let hs = 2;
                         let s = tables::SMALL_VRZ_DEX[ls as usize];
-                        code = format!("{s}{}", &code[1..hs as usize]);
+                        let hard = code.get(1..hs as usize).unwrap_or_default();
+                        code = format!("{s}{hard}");
                     } else if size < 64_u32.pow(4) {
                         let hs = 4;
                         let s = tables::LARGE_VRZ_DEX[ls as usize];
 
-                        code = format!("{s}{}{}", &"AAAA"[0..hs as usize - 2], &code[1..2]);
+                        let hard = code.get(1..2).unwrap_or_default();
+                        code = format!("{s}{}{hard}", &"AAAA"[0..hs as usize - 2]);
                     } else {
                         return err!(Error::InvalidVarRawSize(format!(
                             "unsupported raw size: code = '{code}'",
@@ -79,7 +81,8 @@ pub trait Matter: Default {
                     if size < 64_u32.pow(4) {
                         let hs = 4;
                         let s = tables::LARGE_VRZ_DEX[ls as usize];
-                        code = format!("{s}{}", &code[1..hs as usize]);
+                        let hard = code.get(1..hs as usize).unwrap_or_default();
+                        code = format!("{s}{hard}");
                     } else {
                         return err!(Error::InvalidVarRawSize(format!(
                             "unsupported raw size: code = '{code}'",
@@ -93,6 +96,9 @@ pub trait Matter: Default {
                     )));
                 }
 
+                // material under a code that is not in the tables could not be qualified
+                tables::sizage(&code)?;
+
                 rize
             } else {
                 tables::raw_size(&code)?
@@ -225,7 +231,7 @@ pub trait Matter: Default {
             let both = code;
             let cs = both.len();
 
-            if (cs % 4) as u32 != ps as u32 - szg.ls {
+            if (cs % 4) as u32 + szg.ls != ps as u32 {
                 return err!(Error::InvalidCodeSize(format!(
                     "invalid code for converted raw pad size: code = '{both}', pad size = {ps}",
                 )));
-- 
2.43.0


From c1034cee27e6b59c6699699fb81cee669169046b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:44 +0000
Subject: [PATCH 04/30] fix: indexed material keeps its indices and raw size
 consistent with its code

---
 src/cesr/core/indexer/mod.rs | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/cesr/core/indexer/mod.rs b/src/cesr/core/indexer/mod.rs
index d6f5e97..3de1fb3 100644
--- a/src/cesr/core/indexer/mod.rs
+++ b/src/cesr/core/indexer/mod.rs
@@ -98,12 +98,15 @@ pub trait Indexer: Default {
             )));
         }
 
-        if BothSigCodex::has_code(code) {
-            if ondex.is_none() {
-                // when not provided make ondex match index
-                ondex = Some(index);
-            }
-        } else if let Some(o) = ondex {
+        if ondex.is_none()
+            && (BothSigCodex::has_code(code)
+                || (szg.os == 0 && !CurrentSigCodex::has_code(code)))
+        {
+            // when not provided make ondex match index
+            ondex = Some(index);
+        }
+
+        if let Some(o) = ondex {
             if o != index && szg.os == 0 {
                 return err!(Error::InvalidVarIndex(format!(
                     "Non matching ondex '{o}' and index '{index}' for code = '{code}'."
@@ -131,7 +134,7 @@ pub trait Indexer: Default {
             fs = (index * 4) + cs
         }
 
-        let rize = (fs - cs) * 3 / 4;
+        let rize = (fs - cs) * 3 / 4 - szg.ls;
         if raw.len() < rize as usize {
             return err!(Error::Shortage(format!(
                 "insufficient raw material: raw size = '{}', rize = '{rize}'",
@@ -256,7 +259,7 @@ pub trait Indexer: Default {
             )));
         }
 
-        if (cs % 4) != (ps as u32 - szg.ls) {
+        if (cs % 4) + szg.ls != ps as u32 {
             return err!(Error::InvalidCodeSize(format!(
                 "Invalid code={both} for converted raw pad size={ps}."
             )));
@@ -293,13 +296,13 @@ pub trait Indexer: Default {
         let cs = szg.hs + szg.ss;
         let ms = szg.ss - szg.os;
 
-        if index > 64_u32.pow(szg.ss) - 1 {
+        if index > 64_u32.pow(ms) - 1 {
             return err!(Error::InvalidVarIndex(format!(
                 "Invalid index = '{index}' for code = '{code}'."
             )));
         }
 
-        if szg.os == 1 && ondex > 64_u32.pow(szg.os) - 1 {
+        if szg.os > 0 && ondex > 64_u32.pow(szg.os) - 1 {
             return err!(Error::InvalidVarIndex(format!(
                 "Invalid ondex = '{ondex}' for os = '{}' and code = '{code}'.",
                 szg.os
@@ -342,7 +345,7 @@ pub trait Indexer: Default {
             )));
         }
 
-        if (cs % 4) != (ps as u32 - szg.ls) {
+        if (cs % 4) + szg.ls != ps as u32 {
             return err!(Error::InvalidCodeSize(format!(
                 "Invalid code = '{both}' for converted raw pad size = '{ps}'.",
             )));
-- 
2.43.0


From 6b415e2853ee60f23a21149f6a2dd3712cba74d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:44 +0000
Subject: [PATCH 05/30] fix: indexed parsing rejects hostile material instead
 of panicking and skips lead bytes

---
 src/cesr/core/indexer/mod.rs | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/cesr/core/indexer/mod.rs b/src/cesr/core/indexer/mod.rs
index 3de1fb3..ee03499 100644
--- a/src/cesr/core/indexer/mod.rs
+++ b/src/cesr/core/indexer/mod.rs
@@ -397,7 +397,12 @@ pub trait Indexer: Default {
             )));
         }
 
-        let hard = &qb64[..hs];
+        // length already checked, but the material may not be sliceable here
+        let hard = if let Some(hard) = qb64.get(..hs) {
+            hard
+        } else {
+            return err!(Error::UnknownSizage(qb64.to_string()));
+        };
         let szg = tables::sizage(hard)?;
 
         // both hard + soft code size
@@ -411,8 +416,15 @@ pub trait Indexer: Default {
             )));
         }
 
-        let index = util::b64_to_u32(&qb64[hs..(hs + ms as usize)])?;
-        let odx = &qb64[(hs + ms as usize)..(hs + (ms + szg.os) as usize)];
+        let (idx, odx) = if let (Some(idx), Some(odx)) = (
+            qb64.get(hs..(hs + ms as usize)),
+            qb64.get((hs + ms as usize)..(hs + (ms + szg.os) as usize)),
+        ) {
+            (idx, odx)
+        } else {
+            return err!(Error::ParseQb64(qb64.to_string()));
+        };
+        let index = util::b64_to_u32(idx)?;
 
         let mut ondex: Option<u32> = None;
         if CurrentSigCodex::has_code(hard) {
@@ -461,7 +473,11 @@ pub trait Indexer: Default {
             )));
         }
 
-        let qb64 = &qb64[..fs as usize];
+        let qb64 = if let Some(qb64) = qb64.get(..fs as usize) {
+            qb64
+        } else {
+            return err!(Error::ParseQb64(qb64.to_string()));
+        };
         let ps = cs % 4;
         let pbs = 2 * if ps != 0 { ps } else { szg.ls };
 
@@ -470,7 +486,11 @@ pub trait Indexer: Default {
             buf.push_str(&qb64[(cs as usize)..]);
 
             let mut paw = Vec::<u8>::new();
-            base64::engine::general_purpose::URL_SAFE.decode_vec(buf, &mut paw)?;
+            base64::engine::general_purpose::URL_SAFE.decode_vec(&buf, &mut paw)?;
+            // base64 padding characters are not part of qualified material
+            if paw.len() != buf.len() * 3 / 4 {
+                return err!(Error::ParseQb64(qb64.to_string()));
+            }
 
             let mut pi: i32 = 0;
             for b in &paw[..ps as usize] {
@@ -486,6 +506,10 @@ pub trait Indexer: Default {
             let buf = &qb64[cs as usize..];
             let mut paw = Vec::<u8>::new();
             base64::engine::general_purpose::URL_SAFE.decode_vec(buf, &mut paw)?;
+            // base64 padding characters are not part of qualified material, lead bytes are
+            if paw.len() != buf.len() * 3 / 4 || paw.len() < szg.ls as usize {
+                return err!(Error::ParseQb64(qb64.to_string()));
+            }
 
             let mut li: u32 = 0;
             for b in &paw[..szg.ls as usize] {
@@ -500,7 +524,7 @@ pub trait Indexer: Default {
                 }
             }
 
-            paw[ps as usize..].to_owned()
+            paw[szg.ls as usize..].to_owned()
         };
 
         self.set_code(hard);
-- 
2.43.0


From 8a82c26499a71e63fc43d0b708b768156136637c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:44 +0000
Subject: [PATCH 06/30] fix: counter parsing rejects hostile text instead of
 panicking

---
 src/cesr/core/counter/mod.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/cesr/core/counter/mod.rs b/src/cesr/core/counter/mod.rs
index b94ef26..9a7fb76 100644
--- a/src/cesr/core/counter/mod.rs
+++ b/src/cesr/core/counter/mod.rs
@@ -217,8 +217,12 @@ impl Counter {
             return err!(Error::EmptyMaterial("empty qb64".to_string()));
         }
 
-        // we validated there will be a char here, above.
-        let first = &qb64[..2];
+        // the material may be too short, or not sliceable here
+        let first = if let Some(first) = qb64.get(..2) {
+            first
+        } else {
+            return err!(Error::UnknownHardage(qb64.to_string()));
+        };
 
         let hs = tables::hardage(first)? as usize;
         if qb64.len() < hs {
@@ -228,8 +232,12 @@ impl Counter {
             )));
         }
 
-        // bounds already checked
-        let hard = &qb64[..hs];
+        // length already checked, but the material may not be sliceable here
+        let hard = if let Some(hard) = qb64.get(..hs) {
+            hard
+        } else {
+            return err!(Error::UnknownSizage(qb64.to_string()));
+        };
         let szg = tables::sizage(hard)?;
         let cs = szg.hs + szg.ss;
 
@@ -240,7 +248,11 @@ impl Counter {
             )));
         }
 
-        let count_b64 = &qb64[szg.hs as usize..cs as usize];
+        let count_b64 = if let Some(count_b64) = qb64.get(szg.hs as usize..cs as usize) {
+            count_b64
+        } else {
+            return err!(Error::ParseQb64(qb64.to_string()));
+        };
         let count = util::b64_to_u64(count_b64)? as u32;
 
         self.code = hard.to_string();
-- 
2.43.0


From cefeb2512189e8a148020b9f3cb98fa0d4f253d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:45 +0000
Subject: [PATCH 07/30] verif hook: internals re-exported under cfg
 keride_verif

---
 src/cesr/mod.rs | 60 +++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 60 insertions(+)

diff --git a/src/cesr/mod.rs b/src/cesr/mod.rs
index 7abae96..8d1ee26 100644
--- a/src/cesr/mod.rs
+++ b/src/cesr/mod.rs
@@ -21,3 +21,63 @@ pub use crate::cesr::core::{
     tholder::Tholder,
     verfer::Verfer,
 };
+
+/// Internals the verification machinery calls directly, built with `--cfg keride_verif` only.
+#[allow(unexpected_cfgs)]
+#[cfg(keride_verif)]
+pub mod verif {
+    pub use crate::cesr::core::util;
+
+    use crate::cesr::core::{
+        common, counter::tables as counter, indexer::tables as indexer, matter::tables as matter,
+    };
+    use crate::{data::Value, error::Result};
+
+    pub fn matter_sizage(code: &str) -> Result<[u32; 4]> {
+        matter::sizage(code).map(|s| [s.hs, s.ss, s.fs, s.ls])
+    }
+
+    pub fn matter_hardage(c: char) -> Result<u32> {
+        matter::hardage(c)
+    }
+
+    pub fn matter_bardage(b: u8) -> Result<u32> {
+        matter::bardage(b)
+    }
+
+    pub fn matter_raw_size(code: &str) -> Result<u32> {
+        matter::raw_size(code)
+    }
+
+    pub fn indexer_sizage(code: &str) -> Result<[u32; 5]> {
+        indexer::sizage(code).map(|s| [s.hs, s.ss, s.os, s.fs, s.ls])
+    }
+
+    pub fn indexer_hardage(c: char) -> Result<u32> {
+        indexer::hardage(c)
+    }
+
+    pub fn indexer_bardage(b: u8) -> Result<u32> {
+        indexer::bardage(b)
+    }
+
+    pub fn counter_sizage(code: &str) -> Result<[u32; 4]> {
+        counter::sizage(code).map(|s| [s.hs, s.ss, s.fs, s.ls])
+    }
+
+    pub fn counter_hardage(s: &str) -> Result<u32> {
+        counter::hardage(s)
+    }
+
+    pub fn counter_bardage(b: &[u8]) -> Result<u32> {
+        counter::bardage(b)
+    }
+
+    pub fn dumps(ked: &Value, kind: Option<&str>) -> Result<Vec<u8>> {
+        common::dumps(ked, kind)
+    }
+
+    pub fn loads(raw: &[u8], size: Option<u32>, kind: Option<&str>) -> Result<Value> {
+        common::loads(raw, size, kind)
+    }
+}
-- 
2.43.0


From dfd8a78642e9671dad442ab119f687de262f5458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:42 +0000
Subject: [PATCH 08/30] fix: Number refuses material whose derivation code is
 not a number code

---
 src/cesr/core/number.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cesr/core/number.rs b/src/cesr/core/number.rs
index d5a27f9..0e2c484 100644
--- a/src/cesr/core/number.rs
+++ b/src/cesr/core/number.rs
@@ -90,6 +90,7 @@ impl Number {
             Matter::new(Some(code), raw, qb64b, qb64, qb2)?
         };
 
+        validate_code(&number.code())?;
         Ok(number)
     }
 
-- 
2.43.0


From 5b1517132c0b1a43fecaeead7f08279b5f2bdba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:42 +0000
Subject: [PATCH 09/30] fix: Salter refuses material whose derivation code is
 not a salt code

---
 src/cesr/core/salter.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cesr/core/salter.rs b/src/cesr/core/salter.rs
index e8984a2..2aa4ad7 100644
--- a/src/cesr/core/salter.rs
+++ b/src/cesr/core/salter.rs
@@ -55,6 +55,7 @@ impl Salter {
                 Matter::new(Some(code), raw, qb64b, qb64, qb2)?
             };
 
+        validate_code(&salter.code())?;
         salter.tier = tier.unwrap_or(Tierage::low).to_string();
         Ok(salter)
     }
-- 
2.43.0


From 47c14c73e6265cd865625450f08d21e00de09485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:37 +0000
Subject: [PATCH 10/30] fix: Dater refuses date-times longer than the fixed
 size instead of truncating them

---
 src/cesr/core/dater.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cesr/core/dater.rs b/src/cesr/core/dater.rs
index b4f1cc6..e74c68b 100644
--- a/src/cesr/core/dater.rs
+++ b/src/cesr/core/dater.rs
@@ -54,6 +54,10 @@ impl Dater {
         let dater: Self = if raw.is_none() && qb64b.is_none() && qb64.is_none() && qb2.is_none() {
             let b64 = if let Some(dts) = dts { iso_8601_to_b64(dts) } else { now_as_b64() };
             let qb64 = format!("{}{}", matter::Codex::DateTime, &b64);
+            // characters beyond the fixed size would silently be dropped
+            if qb64.len() > matter::sizage(matter::Codex::DateTime)?.fs as usize {
+                return err!(Error::Value(format!("date-time too long: dts = '{b64}'")));
+            }
             Matter::new(code, raw, qb64b, Some(&qb64), qb2)?
         } else {
             Matter::new(code, raw, qb64b, qb64, qb2)?
-- 
2.43.0


From 801b94d0c3e589d67e707d2142afbd73db081083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:57 +0000
Subject: [PATCH 11/30] fix: Prefixer refuses material whose derivation code is
 not a prefix code

---
 src/prefexing/prefixer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/prefexing/prefixer.rs b/src/prefexing/prefixer.rs
index ed1ce86..de69308 100644
--- a/src/prefexing/prefixer.rs
+++ b/src/prefexing/prefixer.rs
@@ -304,6 +304,8 @@ impl Prefixer {
             Matter::new(Some(&code), Some(&raw), None, None, None)?
         };
 
+        validate_code(&prefixer.code())?;
+
         Ok(prefixer)
     }
 
-- 
2.43.0


From d8b2c89924350f57de504bb03add6b84a6b5f74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:32 +0000
Subject: [PATCH 12/30] fix: JSON integers above i64::MAX and floats written
 without a point are read instead of panicking

---
 src/data.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/data.rs b/src/data.rs
index b96be4d..f179133 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -16,7 +16,7 @@ pub type Object = IndexMap<String, Value>;
 #[derive(Debug, PartialEq, Clone)]
 pub struct Number {
     f: f64,
-    i: i64,
+    i: i128,
     float: bool,
 }
 
@@ -26,9 +26,15 @@ impl From<f64> for Number {
     }
 }
 
+impl From<u64> for Number {
+    fn from(i: u64) -> Self {
+        Self { f: 0.0, i: i.into(), float: false }
+    }
+}
+
 impl From<i64> for Number {
     fn from(i: i64) -> Self {
-        Self { f: 0.0, i, float: false }
+        Self { f: 0.0, i: i.into(), float: false }
     }
 }
 
@@ -67,7 +73,7 @@ impl Value {
                     ));
                 }
 
-                Ok(number.i)
+                Ok(i64::try_from(number.i)?)
             }
             _ => err!(CESRError::Conversion("cannot convert to integer".to_string())),
         }
@@ -284,10 +290,12 @@ impl From<&JsonValue> for Value {
             JsonValue::Null => Self::Null,
             JsonValue::Bool(b) => Self::Boolean(*b),
             JsonValue::Number(n) => {
-                if n.to_string().contains('.') {
-                    Self::Number(Number::from(n.as_f64().unwrap()))
+                if let Some(i) = n.as_i64() {
+                    Self::Number(Number::from(i))
+                } else if let Some(u) = n.as_u64() {
+                    Self::Number(Number::from(u))
                 } else {
-                    Self::Number(Number::from(n.as_i64().unwrap()))
+                    Self::Number(Number::from(n.as_f64().unwrap()))
                 }
             }
             JsonValue::String(s) => Self::String(s.clone()),
@@ -338,7 +346,7 @@ impl TryFrom<&Value> for i64 {
         match v {
             Value::Number(n) => {
                 if !n.float {
-                    Ok(n.i)
+                    Ok(i64::try_from(n.i)?)
                 } else {
                     Ok(n.f as i64)
                 }
-- 
2.43.0


From 86d8d1953eb92b06bf5ee171c389fc5b085a2948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:13 +0000
Subject: [PATCH 13/30] fix: Prefixer accepts empty next, witness and anchor
 lists, and a missing ilk is an error

---
 src/prefexing/prefixer.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/prefexing/prefixer.rs b/src/prefexing/prefixer.rs
index de69308..45a2e5e 100644
--- a/src/prefexing/prefixer.rs
+++ b/src/prefexing/prefixer.rs
@@ -58,6 +58,10 @@ fn derive(ked: &Value, code: &str) -> Result<(Vec<u8>, String)> {
     const ILKS: &[&str] = &[Ilkage::icp, Ilkage::dip, Ilkage::vcp];
 
     let label = Ids::t;
+    if !ked.to_map()?.contains_key(label) {
+        return err!(Error::Value("missing ilk for prefix derivation".to_string()));
+    }
+
     let ilk = ked[label].to_string()?;
     if !ILKS.contains(&ilk.as_str()) {
         return err!(Error::Value(format!("non-incepting ilk {ilk} found for prefix derivation")));
@@ -87,6 +91,15 @@ fn derive(ked: &Value, code: &str) -> Result<(Vec<u8>, String)> {
     }
 }
 
+// these fields are usually lists, but a single string is tolerated
+fn is_empty(field: &Value) -> Result<bool> {
+    if let Value::Array(array) = field {
+        return Ok(array.is_empty());
+    }
+
+    Ok(field.to_string()?.is_empty())
+}
+
 fn derive_nontransferable(ked: &Value, code: &str) -> Result<(Vec<u8>, String)> {
     let ked = ked.clone();
     let map = ked.to_map()?;
@@ -112,17 +125,17 @@ fn derive_nontransferable(ked: &Value, code: &str) -> Result<(Vec<u8>, String)>
     }
 
     let label = Ids::n;
-    if map.contains_key(label) && !ked[label].to_string()?.is_empty() {
+    if map.contains_key(label) && !is_empty(&ked[label])? {
         return err!(Error::Derivation("non-empty nxt for transferable derivation".to_string()));
     }
 
     let label = Ids::b;
-    if map.contains_key(label) && !ked[label].to_string()?.is_empty() {
+    if map.contains_key(label) && !is_empty(&ked[label])? {
         return err!(Error::Derivation("non-empty 'b' for transferable derivation".to_string()));
     }
 
     let label = Ids::a;
-    if map.contains_key(label) && !ked[label].to_string()?.is_empty() {
+    if map.contains_key(label) && !is_empty(&ked[label])? {
         return err!(Error::Derivation("non-empty 'a' for transferable derivation".to_string()));
     }
 
@@ -334,6 +347,10 @@ impl Prefixer {
 
         let prefixed = prefixed.unwrap_or(false);
         let label = Ids::t;
+        if !ked.to_map()?.contains_key(label) {
+            return err!(Error::Value("missing ilk for prefix verification".to_string()));
+        }
+
         let ilk = ked[label].to_string()?;
         if !ILKS.contains(&ilk.as_str()) {
             return err!(Error::Value(format!(
-- 
2.43.0


From 54b3e126b53a0b42e33d737db2be08cd231102b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:25 +0000
Subject: [PATCH 14/30] fix: versify refuses versions and sizes that do not fit
 in a version string

---
 src/cesr/core/common.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/cesr/core/common.rs b/src/cesr/core/common.rs
index bac8701..c7ffeaa 100644
--- a/src/cesr/core/common.rs
+++ b/src/cesr/core/common.rs
@@ -233,6 +233,18 @@ pub fn versify(
         return err!(Error::Validation(format!("invalid serialization kind {kind}")));
     }
 
+    if version.major > 0xf || version.minor > 0xf {
+        return err!(Error::Validation(format!(
+            "version {major}.{minor} does not fit in a version string",
+            major = version.major,
+            minor = version.minor
+        )));
+    }
+
+    if size > 0xffffff {
+        return err!(Error::Validation(format!("size {size} does not fit in a version string")));
+    }
+
     Ok(format!(
         "{ident}{major:01x}{minor:01x}{kind}{size:06x}_",
         major = version.major,
-- 
2.43.0


From 087fcc460f06fdf62de90b309ff1fd6900eb8621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:37 +0000
Subject: [PATCH 15/30] fix: sizeify refuses an event whose first version
 string is not its version field

---
 src/cesr/core/common.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cesr/core/common.rs b/src/cesr/core/common.rs
index c7ffeaa..9979801 100644
--- a/src/cesr/core/common.rs
+++ b/src/cesr/core/common.rs
@@ -211,6 +211,12 @@ pub fn sizeify(ked: &Value, kind: Option<&str>) -> Result<SizeifyResult> {
     let mut ked = ked.clone();
     ked["v"] = dat!(&vs);
 
+    if raw != dumps(&ked, Some(&kind))? {
+        return err!(Error::Value(format!(
+            "first version string in raw = {raw:?} is not the version field"
+        )));
+    }
+
     Ok(SizeifyResult { raw, ident: result.ident, kind, ked, version: result.version })
 }
 
-- 
2.43.0


From cc8cd360a1a42f8a28e864ef3e99d6d1f0652947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:47 +0000
Subject: [PATCH 16/30] fix: truncated events, events without an identifier and
 multi-byte pretty cuts are errors, not panics

---
 src/cesr/core/common.rs | 10 +++++++++-
 src/cesr/core/sadder.rs | 20 ++++++++++++++++----
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/cesr/core/common.rs b/src/cesr/core/common.rs
index 9979801..df57c4d 100644
--- a/src/cesr/core/common.rs
+++ b/src/cesr/core/common.rs
@@ -262,10 +262,18 @@ pub(crate) fn loads(raw: &[u8], size: Option<u32>, kind: Option<&str>) -> Result
     let kind = kind.unwrap_or(Serialage::JSON);
 
     if let Some(size) = size {
+        let size = size as usize;
+        if raw.len() < size {
+            return err!(Error::Value(format!(
+                "need {size} bytes to load, have {bytes}",
+                bytes = raw.len()
+            )));
+        }
+
         match kind {
             Serialage::JSON => {
                 let v: serde_json::Value =
-                    serde_json::from_str(&String::from_utf8(raw[..(size as usize)].to_vec())?)?;
+                    serde_json::from_str(&String::from_utf8(raw[..size].to_vec())?)?;
                 Ok(Value::from(&v))
             }
             _ => err!(Error::Validation(format!("invalid serialization kind {kind}"))),
diff --git a/src/cesr/core/sadder.rs b/src/cesr/core/sadder.rs
index ea3018a..54163df 100644
--- a/src/cesr/core/sadder.rs
+++ b/src/cesr/core/sadder.rs
@@ -56,6 +56,14 @@ fn exhale(ked: &Value, kind: Option<&str>) -> Result<ExhaleResult> {
     })
 }
 
+fn said(ked: &Value) -> Result<String> {
+    if !ked.to_map()?.contains_key(Ids::d) {
+        return err!(Error::Value("missing self-addressing identifier".to_string()));
+    }
+
+    ked[Ids::d].to_string()
+}
+
 pub trait Sadder: Default + Clone {
     fn code(&self) -> String;
     fn raw(&self) -> Vec<u8>;
@@ -114,7 +122,7 @@ pub trait Sadder: Default + Clone {
             None,
             None,
             None,
-            Some(&result.ked[Ids::d].to_string()?),
+            Some(&said(&result.ked)?),
             None,
         )?);
 
@@ -144,7 +152,7 @@ pub trait Sadder: Default + Clone {
             None,
             None,
             None,
-            Some(&result.ked[Ids::d].to_string()?),
+            Some(&said(&result.ked)?),
             None,
         )?);
 
@@ -174,7 +182,7 @@ pub trait Sadder: Default + Clone {
             None,
             None,
             None,
-            Some(&result.ked[Ids::d].to_string()?),
+            Some(&said(&result.ked)?),
             None,
         )?);
 
@@ -199,8 +207,12 @@ pub trait Sadder: Default + Clone {
         let v: serde_json::Value = serde_json::from_str(&self.ked().to_json()?)?;
         match serde_json::to_string_pretty(&v) {
             Ok(s) => {
-                let size = size.unwrap_or(1024);
+                let mut size = size.unwrap_or(1024);
                 if s.len() > size {
+                    while !s.is_char_boundary(size) {
+                        size -= 1;
+                    }
+
                     Ok(s[..size].to_string())
                 } else {
                     Ok(s)
-- 
2.43.0


From bd24419a49ff10c68814f8d67a1c7d5b5e12168e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:00 +0000
Subject: [PATCH 17/30] fix: sniff ignores whatever follows the version string

---
 src/cesr/core/common.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cesr/core/common.rs b/src/cesr/core/common.rs
index df57c4d..776da35 100644
--- a/src/cesr/core/common.rs
+++ b/src/cesr/core/common.rs
@@ -309,7 +309,11 @@ pub fn sniff(raw: &[u8]) -> Result<SniffResult> {
         )));
     }
 
-    let raw = &String::from_utf8(raw.to_vec())?;
+    // what follows may be another message or binary attachments
+    let raw = &raw[..MINIMUM_SNIFF_SIZE]
+        .iter()
+        .map(|b| if b.is_ascii() { *b as char } else { '?' })
+        .collect::<String>();
     let start = match REVER.shortest_match(raw) {
         Some(m) => m - VERSION_FULL_SIZE,
         None => return err!(Error::Value(format!("invalid version string in raw = {raw:?}"))),
-- 
2.43.0


From 93e7d887cb1765c24e82238f79f1dfcefc55cd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:35 +0000
Subject: [PATCH 18/30] fix: Tholder refuses weights with a zero denominator or
 more than one separator

---
 src/cesr/core/tholder.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cesr/core/tholder.rs b/src/cesr/core/tholder.rs
index c3dfdfc..9281654 100644
--- a/src/cesr/core/tholder.rs
+++ b/src/cesr/core/tholder.rs
@@ -37,7 +37,9 @@ fn values_to_rationals(value: &Value) -> Result<Vec<Vec<Rational32>>> {
         for weight in _clause {
             let weight = weight.to_string()?;
             let parts: Vec<&str> = weight.split(separator).collect();
-            if parts.len() != 2 {
+            if parts.len() > 2 {
+                return err!(Error::Value(format!("invalid weight {weight}")));
+            } else if parts.len() != 2 {
                 // must be 0 or 1
                 if parts[0] == "0" {
                     clause.push(Rational32::new(0, 1));
@@ -52,6 +54,9 @@ fn values_to_rationals(value: &Value) -> Result<Vec<Vec<Rational32>>> {
                 if numer < 0 || denom < 0 {
                     return err!(Error::Value("negative weights do not make sense".to_string()));
                 }
+                if denom == 0 {
+                    return err!(Error::Value(format!("weight {numer}/{denom} is undefined")));
+                }
                 if numer > denom {
                     return err!(Error::Value(format!("weight {numer}/{denom} > 1")));
                 }
-- 
2.43.0


From 1a37b78ed5b4c8003d84bb6b2d82a4b6392a4b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:48 +0000
Subject: [PATCH 19/30] fix: Tholder weight sums that do not fit are errors
 instead of wrapping

---
 src/cesr/core/tholder.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/cesr/core/tholder.rs b/src/cesr/core/tholder.rs
index 9281654..cf15f60 100644
--- a/src/cesr/core/tholder.rs
+++ b/src/cesr/core/tholder.rs
@@ -9,7 +9,7 @@ use crate::{
 };
 
 use lazy_static::lazy_static;
-use num_rational::Rational32;
+use num_rational::{Rational32, Rational64};
 
 #[derive(Debug, Clone, PartialEq)]
 pub struct Tholder {
@@ -26,6 +26,16 @@ impl Default for Tholder {
     }
 }
 
+// i32 addition of fractions overflows silently in release builds, so add in i64 and narrow
+fn checked_sum(a: &Rational32, b: &Rational32) -> Result<Rational32> {
+    let numer = i64::from(*a.numer()) * i64::from(*b.denom())
+        + i64::from(*b.numer()) * i64::from(*a.denom());
+    let denom = i64::from(*a.denom()) * i64::from(*b.denom());
+    let sum = Rational64::new(numer, denom);
+
+    Ok(Rational32::new(i32::try_from(*sum.numer())?, i32::try_from(*sum.denom())?))
+}
+
 fn values_to_rationals(value: &Value) -> Result<Vec<Vec<Rational32>>> {
     let threshold = value.to_vec()?;
     let separator = "/";
@@ -70,7 +80,7 @@ fn values_to_rationals(value: &Value) -> Result<Vec<Vec<Rational32>>> {
         let mut sum = Rational32::new(0, 1);
 
         for weight in clause {
-            sum += weight;
+            sum = checked_sum(&sum, weight)?;
         }
 
         if sum < Rational32::new(1, 1) {
@@ -239,7 +249,7 @@ impl Tholder {
             let mut cw = Rational32::new(0, 1);
             for weight in clause {
                 if sats[wio] {
-                    cw += weight;
+                    cw = checked_sum(&cw, &weight)?;
                 }
                 wio += 1;
             }
-- 
2.43.0


From e114a799305899415eea94a8ad846808689b3fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:00 +0000
Subject: [PATCH 20/30] fix: Tholder counts repeated indices once and ignores
 indices out of range

---
 src/cesr/core/tholder.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cesr/core/tholder.rs b/src/cesr/core/tholder.rs
index cf15f60..e2c1f58 100644
--- a/src/cesr/core/tholder.rs
+++ b/src/cesr/core/tholder.rs
@@ -221,6 +221,10 @@ impl Tholder {
     fn satisfy_numeric(&self, indices: &[u32]) -> Result<bool> {
         let thold = self.thold().to_i64()?;
 
+        let mut indices = indices.to_vec();
+        indices.sort();
+        indices.dedup();
+
         if thold > 0 && indices.len() >= thold as usize {
             return Ok(true);
         }
@@ -239,7 +243,9 @@ impl Tholder {
 
         let mut sats = vec![false; self.size() as usize];
         for index in indices {
-            sats[index as usize] = true
+            if let Some(sat) = sats.get_mut(index as usize) {
+                *sat = true;
+            }
         }
 
         let clauses = values_to_rationals(&self.thold())?;
-- 
2.43.0


From 3d6026a85ab61311dcfba34174d700b5a81b95e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:13 +0000
Subject: [PATCH 21/30] fix: Tholder refuses empty weight lists and truncated
 qualified thresholds

---
 src/cesr/core/tholder.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/cesr/core/tholder.rs b/src/cesr/core/tholder.rs
index e2c1f58..11209b1 100644
--- a/src/cesr/core/tholder.rs
+++ b/src/cesr/core/tholder.rs
@@ -287,7 +287,10 @@ impl Tholder {
         let limen = String::from_utf8(limen.to_vec())?;
 
         let hs = matter::hardage(limen.chars().next().unwrap())? as usize;
-        let code = &limen[..hs];
+        let code = match limen.get(..hs) {
+            Some(code) => code,
+            None => return err!(Error::Value(format!("limen {limen} is shorter than its code"))),
+        };
 
         if number::Codex::has_code(code) {
             let number = Number::new(None, None, None, None, None, Some(&limen), None)?;
@@ -383,6 +386,10 @@ impl Tholder {
 
     fn process_weighted(&mut self, thold: &Value) -> Result<()> {
         let threshold = &values_to_rationals(thold)?;
+        if threshold.is_empty() {
+            return err!(Error::Value(format!("empty weight list = {t}", t = thold.to_json()?)));
+        }
+
         let mut size = 0;
         for clause in threshold {
             size += clause.len() as u32;
-- 
2.43.0


From 2c20eb660804532d2be4bff69f9446a40473fcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:46 +0000
Subject: [PATCH 22/30] fix: Pather compares and strips whole path components

---
 src/pathing/pather.rs | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/pathing/pather.rs b/src/pathing/pather.rs
index 71a5cbe..f26ecc8 100644
--- a/src/pathing/pather.rs
+++ b/src/pathing/pather.rs
@@ -134,26 +134,21 @@ impl Pather {
     }
 
     pub fn strip(&self, root: &Self) -> Result<Self> {
-        let mut root_path = root.path()?.to_vec()?;
-        let mut path = self.path()?.to_vec()?;
-
-        let hashmap: std::collections::HashMap<String, usize> =
-            path.iter().enumerate().map(|(x, y)| (y.to_string().unwrap(), x)).collect();
-
-        if root_path.len() > path.len() {
+        if !self.starts_with(root)? {
             return Ok(self.clone());
         }
 
-        root_path.reverse();
-        for p in root_path {
-            path.remove(hashmap[&p.to_string()?]);
-        }
+        let root_path = root.path()?.to_vec()?;
+        let path = self.path()?.to_vec()?;
 
-        Pather::new_with_path(&dat!(path.as_slice()))
+        Pather::new_with_path(&dat!(&path[root_path.len()..]))
     }
 
     pub fn starts_with(&self, path: &Self) -> Result<bool> {
-        Ok(self.bext()?.starts_with(&path.bext()?))
+        let root = path.path()?.to_vec()?;
+        let path = self.path()?.to_vec()?;
+
+        Ok(path.starts_with(&root))
     }
 
     pub fn resolve(&self, sad: &Value) -> Result<Value> {
-- 
2.43.0


From 215be218a373572cf30236459aa0147aee93c7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:57 +0000
Subject: [PATCH 23/30] fix: Pather refuses components that its separator
 cannot delimit

---
 src/pathing/pather.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pathing/pather.rs b/src/pathing/pather.rs
index f26ecc8..8329ac2 100644
--- a/src/pathing/pather.rs
+++ b/src/pathing/pather.rs
@@ -185,6 +185,10 @@ impl Pather {
                 return err!(Error::Value("invalid base64".to_string()));
             }
 
+            if p.is_empty() || p.contains('-') {
+                return err!(Error::Value(format!("invalid path component '{p}'")));
+            }
+
             vath.push(p);
         }
 
-- 
2.43.0


From 67db3d732244bfe70025e7ca10fd47f4a5cf2213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:21 +0000
Subject: [PATCH 24/30] fix: SaltyCreator stretches with the requested tier and
 refuses a bad salt

---
 src/signify/creating.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/signify/creating.rs b/src/signify/creating.rs
index 5b4c116..76c8f22 100644
--- a/src/signify/creating.rs
+++ b/src/signify/creating.rs
@@ -54,9 +54,15 @@ impl SaltyCreator {
         if let Some(s) = salter {
             salty_creator.salter = s;
         } else {
-            salty_creator.salter = Salter::new(tier, None, None, None, salt, None).unwrap();
+            salty_creator.salter = Salter::new(tier, None, None, None, salt, None)?;
         }
 
+        // an explicit tier overrides the tier of the salt
+        salty_creator.tier = match tier {
+            Some(tier) => tier.to_string(),
+            None => salty_creator.salter.tier(),
+        };
+
         Ok(salty_creator)
     }
 
-- 
2.43.0


From 4a629d83ce728853a9b654ee78e90694e0866764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:35 +0000
Subject: [PATCH 25/30] fix: SaltyCreator key positions past u16::MAX do not
 wrap around

---
 src/signify/creating.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/signify/creating.rs b/src/signify/creating.rs
index 76c8f22..1051e55 100644
--- a/src/signify/creating.rs
+++ b/src/signify/creating.rs
@@ -109,7 +109,7 @@ impl SaltyCreator {
 
         let mut signers = vec![];
         for (i, c) in codes.iter().enumerate() {
-            let path = format!("{}{:x}{:x}", stem, &ridx, kidx + i as u16);
+            let path = format!("{}{:x}{:x}", stem, &ridx, u32::from(kidx) + i as u32);
             signers.push(
                 self.salter
                     .signer(Some(c), Some(transferable), Some(&path), Some(&self.tier), Some(temp))
-- 
2.43.0


From 67da06ede6d7785267be90827b87436cd15fdac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:33 +0000
Subject: [PATCH 26/30] fix: Saider keeps the order of the remaining fields
 when it leaves out ignored ones

---
 src/cesr/core/saider.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cesr/core/saider.rs b/src/cesr/core/saider.rs
index 272cc74..edefc30 100644
--- a/src/cesr/core/saider.rs
+++ b/src/cesr/core/saider.rs
@@ -76,7 +76,7 @@ fn derive(
     let mut map = sad.to_map()?;
     for key in ignore.unwrap_or(&[]) {
         if map.contains_key(*key) {
-            map.remove(*key);
+            map.shift_remove(*key);
         }
     }
     let ser = dat!(&map);
-- 
2.43.0


From 9f30351bf14da22bb3abd32ea3a2a135a39f0442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:35 +0000
Subject: [PATCH 27/30] fix: Saider verification of something without the
 identifier fails instead of panicking

---
 src/cesr/core/saider.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cesr/core/saider.rs b/src/cesr/core/saider.rs
index edefc30..9701216 100644
--- a/src/cesr/core/saider.rs
+++ b/src/cesr/core/saider.rs
@@ -61,6 +61,7 @@ fn derive(
     validate_code(code)?;
 
     let szg = matter::sizage(code)?;
+    sad.to_map()?;
     let mut sad = sad.clone();
 
     sad[label] = dat!(&String::from_utf8(vec![DUMMY; szg.fs as usize])?);
@@ -233,7 +234,9 @@ impl Saider {
             return Ok(false);
         }
 
-        if prefixed && sad[label].to_string()? != self.qb64()? {
+        if prefixed
+            && (!sad.to_map()?.contains_key(label) || sad[label].to_string()? != self.qb64()?)
+        {
             return Ok(false);
         }
 
-- 
2.43.0


From 2dcaaee47c0b12c16a161dc7ded0d46fc51a9415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:52 +0000
Subject: [PATCH 28/30] fix: event and credential accessors report a missing
 field instead of panicking

---
 src/cesr/core/creder.rs | 16 ++++++++++++++--
 src/cesr/core/serder.rs | 17 +++++++++++++++++
 2 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/cesr/core/creder.rs b/src/cesr/core/creder.rs
index c95215e..3b3cf28 100644
--- a/src/cesr/core/creder.rs
+++ b/src/cesr/core/creder.rs
@@ -57,11 +57,23 @@ impl Creder {
     }
 
     pub fn issuer(&self) -> Result<String> {
-        self.ked()[Ids::i].to_string()
+        let map = self.ked().to_map()?;
+
+        if !map.contains_key(Ids::i) {
+            return err!(Error::Value("missing issuer".to_string()));
+        }
+
+        map[Ids::i].to_string()
     }
 
     pub fn schema(&self) -> Result<String> {
-        self.ked()[Ids::s].to_string()
+        let map = self.ked().to_map()?;
+
+        if !map.contains_key(Ids::s) {
+            return err!(Error::Value("missing schema".to_string()));
+        }
+
+        map[Ids::s].to_string()
     }
 
     pub fn subject(&self) -> Value {
diff --git a/src/cesr/core/serder.rs b/src/cesr/core/serder.rs
index 75445f1..9bae6e5 100644
--- a/src/cesr/core/serder.rs
+++ b/src/cesr/core/serder.rs
@@ -131,7 +131,12 @@ impl Serder {
     }
 
     pub fn sner(&self) -> Result<Number> {
+        let map = self.ked.to_map()?;
+
         let label = Ids::s;
+        if !map.contains_key(label) {
+            return err!(Error::Validation("missing sequence number".to_string()));
+        }
 
         Number::new(None, Some(&self.ked[label].to_string()?), None, None, None, None, None)
     }
@@ -172,7 +177,13 @@ impl Serder {
     }
 
     pub fn pre(&self) -> Result<String> {
+        let map = self.ked.to_map()?;
+
         let label = Ids::i;
+        if !map.contains_key(label) {
+            return err!(Error::Validation("missing identifier prefix".to_string()));
+        }
+
         self.ked[label].to_string()
     }
 
@@ -183,7 +194,13 @@ impl Serder {
     pub fn est(&self) -> Result<bool> {
         const ILKS: &[&str] = &[Ilkage::icp, Ilkage::rot, Ilkage::dip, Ilkage::drt];
 
+        let map = self.ked.to_map()?;
+
         let label = Ids::t;
+        if !map.contains_key(label) {
+            return err!(Error::Validation("missing message type".to_string()));
+        }
+
         let ilk = self.ked[label].to_string()?;
 
         Ok(ILKS.contains(&ilk.as_str()))
-- 
2.43.0


From 20c248aa6961897b198ff05431d526ac3dec467d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:19 +0000
Subject: [PATCH 29/30] fix: ECDSA secp256r1 non-transferable keys said they
 were transferable

---
 src/cesr/core/matter/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cesr/core/matter/mod.rs b/src/cesr/core/matter/mod.rs
index c543d72..fa3d44e 100644
--- a/src/cesr/core/matter/mod.rs
+++ b/src/cesr/core/matter/mod.rs
@@ -177,8 +177,12 @@ pub trait Matter: Default {
     }
 
     fn transferable(&self) -> bool {
-        const CODES: &[&str] =
-            &[tables::Codex::Ed25519N, tables::Codex::ECDSA_256k1N, tables::Codex::Ed448N];
+        const CODES: &[&str] = &[
+            tables::Codex::Ed25519N,
+            tables::Codex::ECDSA_256k1N,
+            tables::Codex::ECDSA_256r1N,
+            tables::Codex::Ed448N,
+        ];
 
         !CODES.contains(&self.code().as_str())
     }
-- 
2.43.0


From 597be0d067eeeddc4a2f983ecd9a38d622b8f7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:07 +0000
Subject: [PATCH 30/30] verif hook: messages, receipts and random runs callable
 under cfg keride_verif

---
 src/messaging.rs        | 20 ++++++++++++++++++++
 src/receipting.rs       | 17 +++++++++++++++++
 src/signify/creating.rs | 16 ++++++++++++++++
 3 files changed, 53 insertions(+)

diff --git a/src/messaging.rs b/src/messaging.rs
index 6fd5a7c..ece027d 100644
--- a/src/messaging.rs
+++ b/src/messaging.rs
@@ -64,3 +64,23 @@ fn messagize(
 
     Ok(message + &atc)
 }
+
+/// For the verification machinery, built with `--cfg keride_verif` only.
+#[allow(unexpected_cfgs)]
+#[cfg(keride_verif)]
+pub mod verif {
+    use super::*;
+
+    /// The seal is given as identifier, sequence number, digest and last flag.
+    pub fn messagize(
+        serder: &Serder,
+        sigers: Option<&[Siger]>,
+        seal: Option<(&str, &str, &str, Option<bool>)>,
+        wigers: Option<&[Siger]>,
+        cigars: Option<&[Cigar]>,
+    ) -> Result<String> {
+        let seal = seal.map(|(i, s, d, last)| Seal::new(i, s, d, last));
+        super::messagize(serder, sigers, seal.as_ref(), wigers, cigars)
+    }
+}
+
diff --git a/src/receipting.rs b/src/receipting.rs
index 64d7792..a91f5f9 100644
--- a/src/receipting.rs
+++ b/src/receipting.rs
@@ -33,3 +33,20 @@ fn receipt(
 
     Serder::new_with_ked(&ked, None, None)
 }
+
+/// For the verification machinery, built with `--cfg keride_verif` only.
+#[allow(unexpected_cfgs)]
+#[cfg(keride_verif)]
+pub mod verif {
+    use super::*;
+
+    pub fn receipt(
+        pre: &str,
+        sn: u128,
+        said: &str,
+        version: Option<&Version>,
+        kind: Option<&str>,
+    ) -> Result<Serder> {
+        super::receipt(pre, sn, said, version, kind)
+    }
+}
diff --git a/src/signify/creating.rs b/src/signify/creating.rs
index 1051e55..9ec2168 100644
--- a/src/signify/creating.rs
+++ b/src/signify/creating.rs
@@ -162,6 +162,22 @@ impl RandyCreator {
     }
 }
 
+/// For the verification machinery, built with `--cfg keride_verif` only.
+#[allow(unexpected_cfgs)]
+#[cfg(keride_verif)]
+pub mod verif {
+    use super::*;
+
+    pub fn randy(
+        codes: Option<Vec<&str>>,
+        count: Option<u16>,
+        code: Option<&str>,
+        transferable: Option<bool>,
+    ) -> Vec<Signer> {
+        RandyCreator::new().create(codes, count, code, transferable)
+    }
+}
+
 #[cfg(test)]
 mod test {
     use crate::cesr::{
-- 
2.43.0

