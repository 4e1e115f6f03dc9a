From 670c3b50eca87311c5d5b648d0a8e346ae52c79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:43 +0000
Subject: [PATCH 01/13] verif: guarded hooks (cfg iota_mam_verif) for the
 permutation symbol and identifier constructors

---
 src/app/core/mod.rs | 16 ++++++++++++++++
 src/troika.rs       |  6 ++++++
 2 files changed, 22 insertions(+)

diff --git a/src/app/core/mod.rs b/src/app/core/mod.rs
index 60f47bf..7715cc0 100644
--- a/src/app/core/mod.rs
+++ b/src/app/core/mod.rs
@@ -18,6 +18,22 @@ pub struct MsgId {
     pub(crate) id: Trits,
 }
 
+/// Verification hook: identifiers are otherwise only built inside the crate.
+#[cfg(iota_mam_verif)]
+impl AppInst {
+    pub fn verif_new(id: Trits) -> Self {
+        AppInst { id }
+    }
+}
+
+/// Verification hook: identifiers are otherwise only built inside the crate.
+#[cfg(iota_mam_verif)]
+impl MsgId {
+    pub fn verif_new(id: Trits) -> Self {
+        MsgId { id }
+    }
+}
+
 impl Absorb for MsgId {
     fn wrap_absorb(&self, s: &mut Spongos, b: &mut TritSliceMut) {
         assert_eq!(MSGID_SIZE, self.id.size());
diff --git a/src/troika.rs b/src/troika.rs
index 90dd80b..99e8373 100644
--- a/src/troika.rs
+++ b/src/troika.rs
@@ -435,6 +435,12 @@ impl Troika {
     }
 
     //#[inline]
+    // Verification hook: keeps the permutation a separate, recognizable function.
+    #[cfg_attr(
+        iota_mam_verif,
+        inline(never),
+        export_name = "iota_mam_verif_troika_permutation"
+    )]
     pub fn permutation(&mut self) {
         for round in 0..NUM_ROUNDS {
             self.sub_trytes();
-- 
2.43.0


From 6d4db7aea9b66986aa6b9053e9203a690a8c95a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:34 +0000
Subject: [PATCH 02/13] fix: balanced remainder of i32 values close to the
 limits overflowed

---
 src/trits/util.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/trits/util.rs b/src/trits/util.rs
index 88bba7f..e138a3c 100644
--- a/src/trits/util.rs
+++ b/src/trits/util.rs
@@ -1,12 +1,18 @@
 use super::defs::*;
 
-/// `std::i32::MIN + (m-1)/2 < t && t < std::i32::MAX - (m-1)/2`.
+/// Balanced remainder `r` and quotient `q` of `t`: `t == q * m + r` and `-(m-1)/2 <= r <= (m-1)/2`
+/// for odd `m`. No intermediate value overflows for any `t`.
 fn mods_i32(t: i32, m: i32) -> (i32, i32) {
-    //TODO: Simplify to avoid triple division (third division is in `q`).
-    let r = (((t % m) + m + (m - 1) / 2) % m) - (m - 1) / 2;
-    //TODO: Deal with overflows of `i32` type.
-    let q = (t - r) / m;
-    (r, q)
+    let h = (m - 1) / 2;
+    let r = t % m;
+    let q = t / m;
+    if h < r {
+        (r - m, q + 1)
+    } else if r < -h {
+        (r + m, q - 1)
+    } else {
+        (r, q)
+    }
 }
 
 /// Remainder `r` and quotient `q` of `t` `mods 3^1` where
-- 
2.43.0


From 975a71b2b9c49350dd47ae32a926827bf289f799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:34 +0000
Subject: [PATCH 03/13] fix: TritSliceMut::inc did not propagate the carry to
 the next trit

---
 src/trits/slice.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/trits/slice.rs b/src/trits/slice.rs
index 52e4b6d..aa07f3b 100644
--- a/src/trits/slice.rs
+++ b/src/trits/slice.rs
@@ -644,13 +644,14 @@ where
     }
 
     /// Increment trits in the range `[d..n)` as integer.
-    pub fn inc(self) -> bool {
+    pub fn inc(mut self) -> bool {
         while !self.is_empty() {
             let t = (1 + self.as_const().get_trit()) % 3;
             self.put_trit(t);
             if 0 != t {
                 return true;
             }
+            self = self.drop(1);
         }
         false
     }
-- 
2.43.0


From d5ec702f586f8b7f0354fc66ad15969bd92a3063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:34 +0000
Subject: [PATCH 04/13] fix: is_same compared the window offset of self with
 itself

---
 src/trits/slice.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trits/slice.rs b/src/trits/slice.rs
index aa07f3b..5154717 100644
--- a/src/trits/slice.rs
+++ b/src/trits/slice.rs
@@ -257,7 +257,7 @@ where
     /// Check whether `x` slice points to the same trit in memory as `self`.
     pub fn is_same(self, x: Self) -> bool {
         unsafe {
-            true && self.p.add(self.r.d / TW::SIZE) == x.p.add(self.r.d / TW::SIZE)
+            true && self.p.add(self.r.d / TW::SIZE) == x.p.add(x.r.d / TW::SIZE)
                 && (self.r.d % TW::SIZE) == (x.r.d % TW::SIZE)
         }
         //self.p == x.p && self.r.d == x.r.d //&& self.r.n == x.r.n
@@ -670,7 +670,7 @@ where
     /// Check whether `x` slice points to the same trit in memory as `self`.
     pub fn is_same(self, x: Self) -> bool {
         unsafe {
-            true && self.p.add(self.r.d / TW::SIZE) == x.p.add(self.r.d / TW::SIZE)
+            true && self.p.add(self.r.d / TW::SIZE) == x.p.add(x.r.d / TW::SIZE)
                 && (self.r.d % TW::SIZE) == (x.r.d % TW::SIZE)
         }
         //self.p == x.p && self.r.d == x.r.d //&& self.r.n == x.r.n
-- 
2.43.0


From 851c7e1bf5a40e7157ffca62e2d06d486b2ef69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:24 +0000
Subject: [PATCH 05/13] verif: guarded step hook in the Troika permutation (cfg
 iota_mam_verif)

---
 src/troika.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/troika.rs b/src/troika.rs
index 99e8373..6a3be82 100644
--- a/src/troika.rs
+++ b/src/troika.rs
@@ -383,6 +383,18 @@ const FROUND_CONSTANTS: [[T27; COLUMNS]; NUM_ROUNDS] = [
     ],
 ];
 
+/// Verification hook: called at the start of every round (stage 0) and before the column
+/// parity (stage 1).
+#[cfg(iota_mam_verif)]
+pub static mut VERIF_STEP: Option<fn(&mut Troika, usize, usize)> = None;
+
+#[cfg(iota_mam_verif)]
+fn verif_step(t: &mut Troika, round: usize, stage: usize) {
+    if let Some(f) = unsafe { VERIF_STEP } {
+        f(t, round, stage)
+    }
+}
+
 #[derive(Clone, Copy)]
 pub struct Troika {
     state: [T27; SLICESIZE], //TODO: use [[T27; 3]; 9]? or [[T27; 9]; 3]?
@@ -443,9 +455,13 @@ impl Troika {
     )]
     pub fn permutation(&mut self) {
         for round in 0..NUM_ROUNDS {
+            #[cfg(iota_mam_verif)]
+            verif_step(self, round, 0);
             self.sub_trytes();
             self.shift_rows();
             self.shift_lanes();
+            #[cfg(iota_mam_verif)]
+            verif_step(self, round, 1);
             self.add_column_parity();
             self.add_round_constant(round);
         }
-- 
2.43.0


From 4245b06dcd70b81dd1d180d45cb55aadebdb67a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:36 +0000
Subject: [PATCH 06/13] fix: unwrapping a masked integer from a truncated
 buffer panicked instead of failing with Eof

---
 src/pb3/typ/trint.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pb3/typ/trint.rs b/src/pb3/typ/trint.rs
index db47c90..3da507d 100644
--- a/src/pb3/typ/trint.rs
+++ b/src/pb3/typ/trint.rs
@@ -63,6 +63,7 @@ where
     /// `decr` codeword into a temp buffer and `decode` value.
     fn unwrap_mask_sized(s: &mut Spongos, b: &mut TritSlice) -> Result<Self> {
         let n = Self::sizeof();
+        guard(n <= b.size(), Err::Eof)?;
         let mut t = trits::Trits::zero(n);
         s.decr(b.advance(n), t.slice_mut());
         Self::decode_sized(&mut t.slice())
-- 
2.43.0


From 4e24f0e2d3aaaf270e303bd5b0d2a1cb62fb7fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:36 +0000
Subject: [PATCH 07/13] fix: tryte array fields allocated the declared length
 before checking it against the data

---
 src/pb3/typ/trytes.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pb3/typ/trytes.rs b/src/pb3/typ/trytes.rs
index d36fe38..4e54c05 100644
--- a/src/pb3/typ/trytes.rs
+++ b/src/pb3/typ/trytes.rs
@@ -87,6 +87,7 @@ pub fn wrap_absorb_trytes(x: &Trits, s: &mut Spongos, b: &mut TritSliceMut) {
 
 pub fn unwrap_absorb_trytes(s: &mut Spongos, b: &mut TritSlice) -> Result<Trits> {
     let n = Size::unwrap_absorb_sized(s, b)?;
+    guard(n.0 <= b.size() / 3, Err::Eof)?;
     let mut x = Trits::zero(n.0 * 3);
     unwrap_absorb_trits(x.slice_mut(), s, b)?;
     Ok(x)
@@ -100,6 +101,7 @@ pub fn wrap_mask_trytes(x: &Trits, s: &mut Spongos, b: &mut TritSliceMut) {
 
 pub fn unwrap_mask_trytes(s: &mut Spongos, b: &mut TritSlice) -> Result<Trits> {
     let n = Size::unwrap_mask_sized(s, b)?;
+    guard(n.0 <= b.size() / 3, Err::Eof)?;
     let mut x = Trits::zero(n.0 * 3);
     unwrap_mask_trits(x.slice_mut(), s, b)?;
     Ok(x)
-- 
2.43.0


From 01977d867e284bb72ba0ec58a6e43382e39c2fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:14 +0000
Subject: [PATCH 08/13] verif: guarded hooks (cfg iota_mam_verif) for the hash
 functions and repeated hashing

---
 src/spongos.rs | 12 ++++++++++++
 src/wots.rs    |  8 ++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/spongos.rs b/src/spongos.rs
index 426a2e2..2957839 100644
--- a/src/spongos.rs
+++ b/src/spongos.rs
@@ -303,8 +303,16 @@ pub fn init() -> Spongos {
     Spongos::init()
 }
 
+/// Verification hook: stands in for the hash functions when set.
+#[cfg(iota_mam_verif)]
+pub static mut VERIF_HASH: Option<fn(&[TritSlice], TritSliceMut)> = None;
+
 /// Hash (one piece of) data with Spongos.
 pub fn hash_data(x: TritSlice, y: TritSliceMut) {
+    #[cfg(iota_mam_verif)]
+    if let Some(f) = unsafe { VERIF_HASH } {
+        return f(&[x], y);
+    }
     let mut s = Spongos::init();
     s.absorb(x);
     s.commit();
@@ -313,6 +321,10 @@ pub fn hash_data(x: TritSlice, y: TritSliceMut) {
 
 /// Hash a concatenation of pieces of data with Spongos.
 pub fn hash_datas(xs: &[TritSlice], y: TritSliceMut) {
+    #[cfg(iota_mam_verif)]
+    if let Some(f) = unsafe { VERIF_HASH } {
+        return f(xs, y);
+    }
     let mut s = Spongos::init();
     for x in xs {
         s.absorb(*x);
diff --git a/src/wots.rs b/src/wots.rs
index cb09229..7a2bdb2 100644
--- a/src/wots.rs
+++ b/src/wots.rs
@@ -25,8 +25,16 @@ pub const HASH_SIZE: usize = 234;
 pub const SIG_SIZE: usize = SK_SIZE;
 pub const SIGNATURE_SIZE: usize = SIG_SIZE;
 
+/// Verification hook: stands in for repeated hashing when set.
+#[cfg(iota_mam_verif)]
+pub static mut VERIF_REHASH: Option<fn(usize, TritSliceMut)> = None;
+
 /// h := hash_data^n(h)
 fn rehash_data(n: usize, h: TritSliceMut) {
+    #[cfg(iota_mam_verif)]
+    if let Some(f) = unsafe { VERIF_REHASH } {
+        return f(n, h);
+    }
     for _ in 0..n {
         hash_data(h.as_const(), h);
     }
-- 
2.43.0


From dce90cbe370d3e03750d9557169b1b8d6cce79f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:42 +0000
Subject: [PATCH 09/13] fix: the root of a complete Merkle tree was lost when
 the keys ran out

---
 src/mss/mtcomplete.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/mss/mtcomplete.rs b/src/mss/mtcomplete.rs
index 9f1dfff..fd6e137 100644
--- a/src/mss/mtcomplete.rs
+++ b/src/mss/mtcomplete.rs
@@ -80,14 +80,16 @@ where
         }
 
         if self.skn == max_skn(self.height) {
-            self.nodes = Vec::new();
+            // All the keys are used up, only the root is needed.
+            self.nodes = self.nodes.split_off(self.nodes.len() - 1);
         }
 
         self.skn != max_skn(self.height)
     }
 
     fn root(&self) -> &H {
-        self.node(0, 0)
+        // The root is the last node, also when all the keys are used up.
+        &self.nodes[self.nodes.len() - 1]
     }
 
     /// MT height.
@@ -117,7 +119,7 @@ where
     }
 
     fn load(height: Height, skn: Idx, nodes: Vec<H>) -> Option<Self> {
-        if skn == max_skn(height) && nodes.is_empty() {
+        if skn == max_skn(height) && 1 == nodes.len() {
         } else if skn < max_skn(height) && tree_size(height) == nodes.len() {
         } else {
             return None;
-- 
2.43.0


From 2e140d79ea49abd815f6f36985f04ce5ad64eea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:45 +0000
Subject: [PATCH 10/13] fix: loading a Merkle tree of an impossible height
 overflowed instead of failing

---
 src/mss/mt.rs          | 3 +++
 src/mss/mtcomplete.rs  | 4 ++++
 src/mss/mttraversal.rs | 4 ++++
 3 files changed, 11 insertions(+)

diff --git a/src/mss/mt.rs b/src/mss/mt.rs
index b827b5f..0e63cff 100644
--- a/src/mss/mt.rs
+++ b/src/mss/mt.rs
@@ -9,6 +9,9 @@ pub type Height = usize;
 /// Type of leaf/node indices within a tree level `d`: `0..max_skn(d)`.
 pub type Idx = usize;
 
+/// Heights above have sizes that don't fit `Idx`.
+pub const MAX_HEIGHT: Height = 0usize.leading_zeros() as Height - 2;
+
 /// Secret key (leaf) count in a full binary tree of height `d`.
 pub fn max_skn(d: Height) -> Idx {
     1 << d
diff --git a/src/mss/mtcomplete.rs b/src/mss/mtcomplete.rs
index fd6e137..9a0584e 100644
--- a/src/mss/mtcomplete.rs
+++ b/src/mss/mtcomplete.rs
@@ -119,6 +119,10 @@ where
     }
 
     fn load(height: Height, skn: Idx, nodes: Vec<H>) -> Option<Self> {
+        if height > MAX_HEIGHT {
+            return None;
+        }
+
         if skn == max_skn(height) && 1 == nodes.len() {
         } else if skn < max_skn(height) && tree_size(height) == nodes.len() {
         } else {
diff --git a/src/mss/mttraversal.rs b/src/mss/mttraversal.rs
index 85654c4..42f3265 100644
--- a/src/mss/mttraversal.rs
+++ b/src/mss/mttraversal.rs
@@ -313,6 +313,10 @@ where
     }
 
     fn load(height: Height, skn: Idx, nodes: Vec<H>) -> Option<Self> {
+        if height > MAX_HEIGHT {
+            return None;
+        }
+
         if skn == max_skn(height) {
             if 1 != nodes.len() {
                 return None;
-- 
2.43.0


From 0e36275b546dbed25855788b03938a23b3d6514b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:45 +0000
Subject: [PATCH 11/13] verif: the hash hook covers hash_data only

---
 src/spongos.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/spongos.rs b/src/spongos.rs
index 2957839..179796b 100644
--- a/src/spongos.rs
+++ b/src/spongos.rs
@@ -303,15 +303,15 @@ pub fn init() -> Spongos {
     Spongos::init()
 }
 
-/// Verification hook: stands in for the hash functions when set.
+/// Verification hook: stands in for `hash_data` when set.
 #[cfg(iota_mam_verif)]
-pub static mut VERIF_HASH: Option<fn(&[TritSlice], TritSliceMut)> = None;
+pub static mut VERIF_HASH: Option<fn(TritSlice, TritSliceMut)> = None;
 
 /// Hash (one piece of) data with Spongos.
 pub fn hash_data(x: TritSlice, y: TritSliceMut) {
     #[cfg(iota_mam_verif)]
     if let Some(f) = unsafe { VERIF_HASH } {
-        return f(&[x], y);
+        return f(x, y);
     }
     let mut s = Spongos::init();
     s.absorb(x);
@@ -321,10 +321,6 @@ pub fn hash_data(x: TritSlice, y: TritSliceMut) {
 
 /// Hash a concatenation of pieces of data with Spongos.
 pub fn hash_datas(xs: &[TritSlice], y: TritSliceMut) {
-    #[cfg(iota_mam_verif)]
-    if let Some(f) = unsafe { VERIF_HASH } {
-        return f(xs, y);
-    }
     let mut s = Spongos::init();
     for x in xs {
         s.absorb(*x);
-- 
2.43.0


From 89f6d58ca10d1c47a5796059768e0cb497322c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:42 +0000
Subject: [PATCH 12/13] fix: recovering a public key with a hash of a wrong
 size panicked instead of failing

---
 src/mss/mss.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mss/mss.rs b/src/mss/mss.rs
index 314e45e..201ebee 100644
--- a/src/mss/mss.rs
+++ b/src/mss/mss.rs
@@ -275,7 +275,7 @@ fn recover_apk(
 pub fn recover(apk: TritSliceMut, hash: TritSlice, mut sig: TritSlice) -> Option<usize> {
     assert_eq!(apk.size(), PK_SIZE);
 
-    if SKN_SIZE <= sig.size() {
+    if HASH_SIZE == hash.size() && SKN_SIZE <= sig.size() {
         let (d, skn) = parse_skn(sig.advance(SKN_SIZE))?;
         let n = apath_size(d as usize);
         if wots::SIG_SIZE + n <= sig.size() {
-- 
2.43.0


From 9b6c78902d7e1853b372261852905d8b352b4e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:46 +0000
Subject: [PATCH 13/13] fix: unwrapping a truncated keyload panicked instead of
 failing with Eof

---
 src/app/channel/msg/keyload.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/app/channel/msg/keyload.rs b/src/app/channel/msg/keyload.rs
index dde8a3a..c435a02 100644
--- a/src/app/channel/msg/keyload.rs
+++ b/src/app/channel/msg/keyload.rs
@@ -176,12 +176,12 @@ pub fn unwrap(
                 key.unwrap_mask(&mut fork, b)?;
                 key_found = true;
             } else {
-                b.advance(pb3::sizeof_ntrytes(81));
+                skip_items(1, pb3::sizeof_ntrytes(81), b)?;
             }
         }
 
         let sizeof_keyloadpsk = pb3::sizeof_ntrytes(27) + pb3::sizeof_ntrytes(81);
-        b.advance((psks_count.0 - n) * sizeof_keyloadpsk);
+        skip_items(psks_count.0 - n, sizeof_keyloadpsk, b)?;
     }
 
     {
@@ -201,12 +201,12 @@ pub fn unwrap(
                 pb3::ntrukem::unwrap_ntrukem(key.slice_mut(), ntrusk, &mut fork, b)?;
                 key_found = true;
             } else {
-                b.advance(pb3::ntrukem::sizeof_ntrukem());
+                skip_items(1, pb3::ntrukem::sizeof_ntrukem(), b)?;
             }
         }
 
         let sizeof_keyloadntru = pb3::sizeof_ntrytes(27) + pb3::ntrukem::sizeof_ntrukem();
-        b.advance((ntrus_count.0 - n) * sizeof_keyloadntru);
+        skip_items(ntrus_count.0 - n, sizeof_keyloadntru, b)?;
     }
 
     guard(key_found, Err::KeyNotFound)?;
@@ -215,6 +215,13 @@ pub fn unwrap(
     Ok(())
 }
 
+/// Skip `n` encoded items of `size` trits each.
+fn skip_items(n: usize, size: usize, b: &mut TritSlice) -> Result<()> {
+    guard(n <= b.size() / size, Err::Eof)?;
+    b.advance(n * size);
+    Ok(())
+}
+
 #[cfg(test)]
 mod test {
     use super::*;
-- 
2.43.0

