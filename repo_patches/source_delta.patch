From e10a5baa770b0f4554835b0918322a752249f350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:44 +0000
Subject: [PATCH 1/4] fix: reject PKCS7 padding of length zero

A padding byte of 0 is not a valid PKCS7 padding (RFC 5652 section 6.3: the
padding value is between 1 and the block size), but Unpad::flush accepted it and
returned the whole block as data.
---
 src/pkcs7.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pkcs7.rs b/src/pkcs7.rs
index eb50bb2..090af7a 100644
--- a/src/pkcs7.rs
+++ b/src/pkcs7.rs
@@ -125,7 +125,7 @@ impl Unpad {
         }
 
         let len = self.storage[self.storage.len() - 1];
-        if len > (self.block_size as u8) {
+        if len == 0 || len > (self.block_size as u8) {
             return Err(UnpadError::InvalidPadding);
         }
         let pad_off: usize = self.block_size - usize::from(len);
-- 
2.43.0


From f74280203c6f27a69fcef6caae9f361d9db57900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:55 +0000
Subject: [PATCH 2/4] fix: report ciphertext that ends inside a block

Decipher::flush only looked at the decrypted blocks, so trailing ciphertext
bytes that do not fill a block were silently dropped instead of being reported
as UnfinishedBlock.
---
 src/aes_cbc.rs | 5 +++++
 src/pkcs7.rs   | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/src/aes_cbc.rs b/src/aes_cbc.rs
index 7cde4d3..e7dda8a 100644
--- a/src/aes_cbc.rs
+++ b/src/aes_cbc.rs
@@ -215,6 +215,11 @@ impl Decipher {
 
     /// Decrypt and return final cleartext data
     pub fn flush(&mut self) -> Result<Vec<u8>, DecipherError> {
+        // Ciphertext must end at the block boundary
+        if !self.buffer.is_empty() {
+            return Err(DecipherError::PKCS7(pkcs7::UnpadError::UnfinishedBlock));
+        }
+
         match self.unpad.flush() {
             Err(err) => Err(DecipherError::PKCS7(err)),
             Ok(block) => Ok(block),
diff --git a/src/pkcs7.rs b/src/pkcs7.rs
index 090af7a..d6f5144 100644
--- a/src/pkcs7.rs
+++ b/src/pkcs7.rs
@@ -40,6 +40,10 @@ impl Pad {
         Some(head)
     }
 
+    pub fn is_empty(&self) -> bool {
+        self.storage.is_empty()
+    }
+
     pub fn flush(&mut self) -> Vec<u8> {
         let len = self.block_size - self.storage.len();
         while self.storage.len() < self.block_size {
-- 
2.43.0


From 52a93b81e1e115ea3719f504a7c6354af94a6b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:09 +0000
Subject: [PATCH 3/4] fix: reject scrypt cost parameter N = 1

N must be larger than 1 (RFC 7914 section 2, the documentation of Scrypt::new
and the message of NIsTooSmall), but derive() accepted N = 1.
---
 src/scrypt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scrypt.rs b/src/scrypt.rs
index 3629c7e..a27a27e 100644
--- a/src/scrypt.rs
+++ b/src/scrypt.rs
@@ -231,7 +231,7 @@ impl Scrypt {
             return Err(ScryptError::RIsTooSmall);
         }
 
-        if self.n < 1 {
+        if self.n < 2 {
             return Err(ScryptError::NIsTooSmall);
         }
 
-- 
2.43.0


From d11ee257d3c563546227177c79701be5f556ba66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:19 +0000
Subject: [PATCH 4/4] fix: mix every block in salsa20()

The documentation allows inputs whose length is any multiple of BLOCK_SIZE, but
only the first block was mixed and the rest of the output was left untouched.
---
 src/salsa20.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/salsa20.rs b/src/salsa20.rs
index 1ccde8b..6b7dc0a 100644
--- a/src/salsa20.rs
+++ b/src/salsa20.rs
@@ -162,6 +162,12 @@ fn littleendian_inv(x: u32, y: &mut [u8]) {
 /// ```
 ///
 pub fn salsa20(input: &[u8], rounds: usize, output: &mut [u8]) {
+    for (block, out) in input.chunks(BLOCK_SIZE).zip(output.chunks_mut(BLOCK_SIZE)) {
+        salsa20_block(block, rounds, out);
+    }
+}
+
+fn salsa20_block(input: &[u8], rounds: usize, output: &mut [u8]) {
     //
     // In short: Salsa20(x) = x + doubleround^10(x), where each 4-byte sequence is
     // viewed as a word in little-endian form.
-- 
2.43.0

