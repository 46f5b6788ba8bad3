From 01982a9c0e9aaa7888a333bb7b53285bfce1c95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:19 +0000
Subject: [PATCH 1/4] Add verification hooks behind cfg(lyra2_verif)

---
 src/lib.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index a330a71..6f1cdac 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,4 @@
+#![allow(unexpected_cfgs)]
 mod bmw;
 mod cubehash;
 mod lyra2mod;
@@ -7,3 +8,21 @@ pub mod lyra2z;
 pub mod lyra2re;
 pub mod lyra2rev2;
 pub mod lyra2rev3;
+
+/// Access to the private stages for the verification harness.
+/// Only built with `RUSTFLAGS="--cfg lyra2_verif"`.
+#[cfg(lyra2_verif)]
+#[doc(hidden)]
+pub mod verif_hooks {
+    pub fn cubehash256(block: Vec<u8>) -> Vec<u8> {
+        crate::cubehash::sum(block)
+    }
+
+    pub fn bmw256(message: Vec<u8>) -> Vec<u8> {
+        crate::bmw::sum(message)
+    }
+
+    pub fn lyra2mod(k: u64, pwd: Vec<u8>, salt: Vec<u8>, t: u64, r: u64, c: u64) -> Vec<u8> {
+        crate::lyra2mod::lyra2mod(k, pwd, salt, t, r, c)
+    }
+}
-- 
2.43.0


From 804e172ed011b7a8dfe2f3d5f09d40be976d8a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:40 +0000
Subject: [PATCH 2/4] fix: keys longer than one 96-byte sponge block no longer
 panic

---
 src/lyra2.rs        | 3 ++-
 src/lyra2mod/mod.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lyra2.rs b/src/lyra2.rs
index c70339f..8519528 100644
--- a/src/lyra2.rs
+++ b/src/lyra2.rs
@@ -155,7 +155,8 @@ fn squeeze(mut state: [u64; 16], output_size: u64) -> Vec<u8> {
             tmp.extend_from_slice(&state[_i as usize].to_le_bytes());
         }
         //be care in case of len(out[i:])<len(tmp)
-        out[..output_size as usize].clone_from_slice(&tmp[..output_size as usize]);
+        let len = tmp.len().min(output_size as usize);
+        out[..len].clone_from_slice(&tmp[..len]);
         state = blake2b_lyra(state);
     }
     out
diff --git a/src/lyra2mod/mod.rs b/src/lyra2mod/mod.rs
index cc7d36c..277a859 100644
--- a/src/lyra2mod/mod.rs
+++ b/src/lyra2mod/mod.rs
@@ -152,7 +152,8 @@ fn squeeze(mut state: [u64; 16], output_size: u64) -> Vec<u8> {
             tmp.extend_from_slice(&state[_i as usize].to_le_bytes());
         }
         //be care in case of len(out[i:])<len(tmp)
-        out[..output_size as usize].clone_from_slice(&tmp[..output_size as usize]);
+        let len = tmp.len().min(output_size as usize);
+        out[..len].clone_from_slice(&tmp[..len]);
         state = blake2b_lyra(state);
     }
     out
-- 
2.43.0


From 4100bbe9f6f12a7ffa2481591448ed1b3bcc9238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:09 +0000
Subject: [PATCH 3/4] fix: matrix sizes that overflow panic in every build

n_rows * n_cols * 12 was computed in wrapping i64 arithmetic in release
builds: for example n_rows = 2^63 + 4 (n_cols = 1) allocated a four-row
matrix, skipped the filling loop and returned a key, while a build with
overflow checks panicked.
---
 src/lyra2.rs        | 10 ++++++++--
 src/lyra2mod/mod.rs | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/lyra2.rs b/src/lyra2.rs
index 8519528..fc17ceb 100644
--- a/src/lyra2.rs
+++ b/src/lyra2.rs
@@ -270,8 +270,14 @@ pub fn lyra2(
     //========== Initializing the Memory Matrix and pointers to it =============//
     //Tries to allocate enough space for the whole memory matrix
 
-    let row_len_int64: i64 = BLOCKLENINT64 * n_cols as i64;
-    let mut _i: i64 = n_rows as i64 * row_len_int64;
+    let row_len_int64: i64 = i64::try_from(n_cols)
+        .ok()
+        .and_then(|n| n.checked_mul(BLOCKLENINT64))
+        .expect("memory matrix too large");
+    let mut _i: i64 = i64::try_from(n_rows)
+        .ok()
+        .and_then(|n| n.checked_mul(row_len_int64))
+        .expect("memory matrix too large");
     let mut whole_matrix: Vec<u64> = vec![0; _i as usize];
     whole_matrix.resize(_i as usize, 0);
 
diff --git a/src/lyra2mod/mod.rs b/src/lyra2mod/mod.rs
index 277a859..5fca517 100644
--- a/src/lyra2mod/mod.rs
+++ b/src/lyra2mod/mod.rs
@@ -247,8 +247,14 @@ pub fn lyra2mod(
     //========== Initializing the Memory Matrix and pointers to it =============//
     //Tries to allocate enough space for the whole memory matrix
 
-    let row_len_int64: i64 = BLOCKLENINT64 * n_cols as i64;
-    let mut _i: i64 = n_rows as i64 * row_len_int64;
+    let row_len_int64: i64 = i64::try_from(n_cols)
+        .ok()
+        .and_then(|n| n.checked_mul(BLOCKLENINT64))
+        .expect("memory matrix too large");
+    let mut _i: i64 = i64::try_from(n_rows)
+        .ok()
+        .and_then(|n| n.checked_mul(row_len_int64))
+        .expect("memory matrix too large");
     let mut whole_matrix: Vec<u64> = vec![0; _i as usize];
     whole_matrix.resize(_i as usize, 0);
 
-- 
2.43.0


From 9a97fbe186abef1c939531ecf6a030c375aeb982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:55 +0000
Subject: [PATCH 4/4] fix: key lengths that 32-bit machines cannot address
 panic instead of being cut

squeeze allocated output_size as usize bytes: where usize has 32 bits,
lyra2(2^63 + 5, ...) returned five zero bytes, and other lengths of 2^32
or more filled the memory before they panicked.
---
 src/lyra2.rs        | 2 +-
 src/lyra2mod/mod.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lyra2.rs b/src/lyra2.rs
index fc17ceb..3eee071 100644
--- a/src/lyra2.rs
+++ b/src/lyra2.rs
@@ -147,7 +147,7 @@ fn reduced_blake2b_lyra(mut v: [u64; 16]) -> [u64; 16] {
  */
 fn squeeze(mut state: [u64; 16], output_size: u64) -> Vec<u8> {
     let mut tmp = vec![];
-    let mut out = vec![0; output_size as usize];
+    let mut out = vec![0; usize::try_from(output_size).expect("key too long")];
     let mut _j = 0;
     let jmax = output_size as i64 / BLOCKLENBYTES + 1;
     for _j in 0..jmax {
diff --git a/src/lyra2mod/mod.rs b/src/lyra2mod/mod.rs
index 5fca517..8302829 100644
--- a/src/lyra2mod/mod.rs
+++ b/src/lyra2mod/mod.rs
@@ -144,7 +144,7 @@ fn reduced_blake2b_lyra(mut v: [u64; 16]) -> [u64; 16] {
  */
 fn squeeze(mut state: [u64; 16], output_size: u64) -> Vec<u8> {
     let mut tmp = vec![];
-    let mut out = vec![0; output_size as usize];
+    let mut out = vec![0; usize::try_from(output_size).expect("key too long")];
     let mut _j = 0;
     let jmax = output_size as i64 / BLOCKLENBYTES + 1;
     for _j in 0..jmax {
-- 
2.43.0

