From f1310f2cf34ce22f88d75a919af32e2826f49421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:01 +0000
Subject: [PATCH 1/8] fix: carry into the next trit when incrementing a trit
 slice

TritSliceMutT::inc never advanced past the first trit, so 2 was followed by 1
and the value never carried nor wrapped.
---
 src/trits/slice.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/trits/slice.rs b/src/trits/slice.rs
index 52e4b6d..aa07f3b 100644
--- a/src/trits/slice.rs
+++ b/src/trits/slice.rs
@@ -644,13 +644,14 @@ where
     }
 
     /// Increment trits in the range `[d..n)` as integer.
-    pub fn inc(self) -> bool {
+    pub fn inc(mut self) -> bool {
         while !self.is_empty() {
             let t = (1 + self.as_const().get_trit()) % 3;
             self.put_trit(t);
             if 0 != t {
                 return true;
             }
+            self = self.drop(1);
         }
         false
     }
-- 
2.43.0


From e6102691e61e3341ffc19b936fff72abfe7ef289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:01 +0000
Subject: [PATCH 2/8] fix: compare the other slice's own offset in is_same

Slices of one buffer at different offsets were taken to point to the same trit,
so encr/decr between two non-overlapping pieces of one container produced
garbage.
---
 src/trits/slice.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trits/slice.rs b/src/trits/slice.rs
index aa07f3b..5154717 100644
--- a/src/trits/slice.rs
+++ b/src/trits/slice.rs
@@ -257,7 +257,7 @@ where
     /// Check whether `x` slice points to the same trit in memory as `self`.
     pub fn is_same(self, x: Self) -> bool {
         unsafe {
-            true && self.p.add(self.r.d / TW::SIZE) == x.p.add(self.r.d / TW::SIZE)
+            true && self.p.add(self.r.d / TW::SIZE) == x.p.add(x.r.d / TW::SIZE)
                 && (self.r.d % TW::SIZE) == (x.r.d % TW::SIZE)
         }
         //self.p == x.p && self.r.d == x.r.d //&& self.r.n == x.r.n
@@ -670,7 +670,7 @@ where
     /// Check whether `x` slice points to the same trit in memory as `self`.
     pub fn is_same(self, x: Self) -> bool {
         unsafe {
-            true && self.p.add(self.r.d / TW::SIZE) == x.p.add(self.r.d / TW::SIZE)
+            true && self.p.add(self.r.d / TW::SIZE) == x.p.add(x.r.d / TW::SIZE)
                 && (self.r.d % TW::SIZE) == (x.r.d % TW::SIZE)
         }
         //self.p == x.p && self.r.d == x.r.d //&& self.r.n == x.r.n
-- 
2.43.0


From 6c511443853dcb54a79cb4323979fbb217a3df8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:01 +0000
Subject: [PATCH 3/8] fix: check the announced size of trytes before allocating
 them

A malformed size field made unwrap allocate up to 6*10^18 trits and abort.
---
 src/pb3/typ/trytes.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pb3/typ/trytes.rs b/src/pb3/typ/trytes.rs
index d36fe38..922ffbe 100644
--- a/src/pb3/typ/trytes.rs
+++ b/src/pb3/typ/trytes.rs
@@ -87,6 +87,8 @@ pub fn wrap_absorb_trytes(x: &Trits, s: &mut Spongos, b: &mut TritSliceMut) {
 
 pub fn unwrap_absorb_trytes(s: &mut Spongos, b: &mut TritSlice) -> Result<Trits> {
     let n = Size::unwrap_absorb_sized(s, b)?;
+    // Check the size before allocating, it can't be trusted.
+    guard(n.0 <= b.size() / 3, Err::Eof)?;
     let mut x = Trits::zero(n.0 * 3);
     unwrap_absorb_trits(x.slice_mut(), s, b)?;
     Ok(x)
@@ -100,6 +102,8 @@ pub fn wrap_mask_trytes(x: &Trits, s: &mut Spongos, b: &mut TritSliceMut) {
 
 pub fn unwrap_mask_trytes(s: &mut Spongos, b: &mut TritSlice) -> Result<Trits> {
     let n = Size::unwrap_mask_sized(s, b)?;
+    // Check the size before allocating, it can't be trusted.
+    guard(n.0 <= b.size() / 3, Err::Eof)?;
     let mut x = Trits::zero(n.0 * 3);
     unwrap_mask_trits(x.slice_mut(), s, b)?;
     Ok(x)
-- 
2.43.0


From 951da7f3c7fab57e34f5bc5887bd97fe9e6c1924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:01 +0000
Subject: [PATCH 4/8] fix: report end of buffer when unwrapping a masked
 integer field

The buffer was advanced past its end (panic, or out-of-bounds read without
debug assertions).
---
 src/pb3/typ/trint.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pb3/typ/trint.rs b/src/pb3/typ/trint.rs
index db47c90..3da507d 100644
--- a/src/pb3/typ/trint.rs
+++ b/src/pb3/typ/trint.rs
@@ -63,6 +63,7 @@ where
     /// `decr` codeword into a temp buffer and `decode` value.
     fn unwrap_mask_sized(s: &mut Spongos, b: &mut TritSlice) -> Result<Self> {
         let n = Self::sizeof();
+        guard(n <= b.size(), Err::Eof)?;
         let mut t = trits::Trits::zero(n);
         s.decr(b.advance(n), t.slice_mut());
         Self::decode_sized(&mut t.slice())
-- 
2.43.0


From 4e3b0284a51fea0ea4b2c78fb42dbf8948bbdfe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:19 +0000
Subject: [PATCH 5/8] fix: check the buffer size before skipping foreign keys
 in a keyload

A truncated or malformed keyload advanced the buffer past its end (panic, or
out-of-bounds reads without debug assertions).
---
 src/app/channel/msg/keyload.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/app/channel/msg/keyload.rs b/src/app/channel/msg/keyload.rs
index dde8a3a..72fb479 100644
--- a/src/app/channel/msg/keyload.rs
+++ b/src/app/channel/msg/keyload.rs
@@ -176,11 +176,13 @@ pub fn unwrap(
                 key.unwrap_mask(&mut fork, b)?;
                 key_found = true;
             } else {
+                guard(pb3::sizeof_ntrytes(81) <= b.size(), Err::Eof)?;
                 b.advance(pb3::sizeof_ntrytes(81));
             }
         }
 
         let sizeof_keyloadpsk = pb3::sizeof_ntrytes(27) + pb3::sizeof_ntrytes(81);
+        guard(psks_count.0 - n <= b.size() / sizeof_keyloadpsk, Err::Eof)?;
         b.advance((psks_count.0 - n) * sizeof_keyloadpsk);
     }
 
@@ -201,11 +203,13 @@ pub fn unwrap(
                 pb3::ntrukem::unwrap_ntrukem(key.slice_mut(), ntrusk, &mut fork, b)?;
                 key_found = true;
             } else {
+                guard(pb3::ntrukem::sizeof_ntrukem() <= b.size(), Err::Eof)?;
                 b.advance(pb3::ntrukem::sizeof_ntrukem());
             }
         }
 
         let sizeof_keyloadntru = pb3::sizeof_ntrytes(27) + pb3::ntrukem::sizeof_ntrukem();
+        guard(ntrus_count.0 - n <= b.size() / sizeof_keyloadntru, Err::Eof)?;
         b.advance((ntrus_count.0 - n) * sizeof_keyloadntru);
     }
 
-- 
2.43.0


From 0a3740c36e4572d3cd02654d838c3bb990944998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:24 +0000
Subject: [PATCH 6/8] fix: keep the root of a complete Merkle tree after its
 last key

PrivateKey::public_key panicked once the keys were exhausted.
---
 src/mss/mtcomplete.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/mss/mtcomplete.rs b/src/mss/mtcomplete.rs
index 9f1dfff..1ba7824 100644
--- a/src/mss/mtcomplete.rs
+++ b/src/mss/mtcomplete.rs
@@ -80,14 +80,17 @@ where
         }
 
         if self.skn == max_skn(self.height) {
-            self.nodes = Vec::new();
+            // No more apaths, only the root -- the last node -- is still needed.
+            let root = self.root().clone();
+            self.nodes = vec![root];
         }
 
         self.skn != max_skn(self.height)
     }
 
     fn root(&self) -> &H {
-        self.node(0, 0)
+        // The root is always the last node.
+        &self.nodes[self.nodes.len() - 1]
     }
 
     /// MT height.
@@ -117,7 +120,7 @@ where
     }
 
     fn load(height: Height, skn: Idx, nodes: Vec<H>) -> Option<Self> {
-        if skn == max_skn(height) && nodes.is_empty() {
+        if skn == max_skn(height) && 1 == nodes.len() {
         } else if skn < max_skn(height) && tree_size(height) == nodes.len() {
         } else {
             return None;
-- 
2.43.0


From 2ed3b4a82db4b20f6507aa8a2f87815a89a53fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:44 +0000
Subject: [PATCH 7/8] Hook: construct AppInst and MsgId from outside (cfg
 verif_hooks)

---
 src/app/core/mod.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/app/core/mod.rs b/src/app/core/mod.rs
index 60f47bf..d733c3c 100644
--- a/src/app/core/mod.rs
+++ b/src/app/core/mod.rs
@@ -37,4 +37,19 @@ impl Hash for MsgId {
     }
 }
 
+/// Construction of identifiers for outside verification harnesses.
+#[cfg(verif_hooks)]
+impl AppInst {
+    pub fn verif_new(id: Trits) -> Self {
+        AppInst { id }
+    }
+}
+
+#[cfg(verif_hooks)]
+impl MsgId {
+    pub fn verif_new(id: Trits) -> Self {
+        MsgId { id }
+    }
+}
+
 pub mod msg;
-- 
2.43.0


From 6733598ad1fd8dff205d082eb3139977b88e7949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:44 +0000
Subject: [PATCH 8/8] fix: keep the constant coefficient reduced when adding
 one

---
 src/poly.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/poly.rs b/src/poly.rs
index 107ed0e..120d2d8 100644
--- a/src/poly.rs
+++ b/src/poly.rs
@@ -167,7 +167,7 @@ impl Poly {
         }
     }
     pub fn small3_add1(&mut self) {
-        self.coeffs[0] += COEFF_ONE;
+        self.coeffs[0] = coeff_add(self.coeffs[0], COEFF_ONE);
     }
     pub fn small_mul3(&mut self) {
         for i in 0..N {
-- 
2.43.0

