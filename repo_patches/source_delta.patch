From 9f288270d5d685d1dfca560865c4001e5932c318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:03 +0000
Subject: [PATCH 01/84] fix: ChaCha20 left the last block unencrypted for
 multiples of 64 bytes

---
 anothertls/src/crypto/chacha20/cipher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anothertls/src/crypto/chacha20/cipher.rs b/anothertls/src/crypto/chacha20/cipher.rs
index 007c158..c3cec3e 100644
--- a/anothertls/src/crypto/chacha20/cipher.rs
+++ b/anothertls/src/crypto/chacha20/cipher.rs
@@ -97,7 +97,7 @@ impl ChaCha20 {
             current_block.set_counter((counter + j) as u32);
             let key_stream = current_block.get_block();
             let mut count = key_stream.len();
-            if (j * 64) + 64 >= input.len() {
+            if (j * 64) + 64 > input.len() {
                 count = input.len() % 64;
             }
             for i in 0..count {
-- 
2.43.0


From 9f453b383483d117cfac849cf8970c034be5428e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:03 +0000
Subject: [PATCH 02/84] fix: HMAC-SHA384 hashed keys of 65 to 128 bytes,
 shorter than its block

---
 anothertls/src/hash/hmac.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anothertls/src/hash/hmac.rs b/anothertls/src/hash/hmac.rs
index a88ea8d..1304f07 100644
--- a/anothertls/src/hash/hmac.rs
+++ b/anothertls/src/hash/hmac.rs
@@ -38,7 +38,7 @@ impl<'a> Hmac<'a> {
 
         let hashed_key;
 
-        let key = if self.key.len() > 64 {
+        let key = if self.key.len() > size {
             hashed_key = match self.hash {
                 HashType::SHA256 => sha256(self.key),
                 HashType::SHA384 => sha384(self.key),
-- 
2.43.0


From 9806417512374a9e91ab43ae260789f9d1f0bd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:23 +0000
Subject: [PATCH 03/84] fix: ChaCha20 and Poly1305 counted blocks in f32 and
 lost the end of inputs over 16 MiB

---
 anothertls/src/crypto/chacha20/cipher.rs   | 2 +-
 anothertls/src/crypto/chacha20/poly1305.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/anothertls/src/crypto/chacha20/cipher.rs b/anothertls/src/crypto/chacha20/cipher.rs
index c3cec3e..b35b705 100644
--- a/anothertls/src/crypto/chacha20/cipher.rs
+++ b/anothertls/src/crypto/chacha20/cipher.rs
@@ -91,7 +91,7 @@ impl ChaCha20 {
     pub fn encrypt(input: &[u8], key: &[u8], iv: &[u8], counter: usize) -> Option<Vec<u8>> {
         let mut output = input.to_vec();
         let chacha20 = ChaCha20Block::init(key, iv, 0);
-        let blocks_len = (input.len() as f32 / 64.0).ceil() as usize;
+        let blocks_len = (input.len() + 63) / 64;
         for j in 0..blocks_len {
             let mut current_block = chacha20.clone()?;
             current_block.set_counter((counter + j) as u32);
diff --git a/anothertls/src/crypto/chacha20/poly1305.rs b/anothertls/src/crypto/chacha20/poly1305.rs
index 16bf986..9ad69ac 100644
--- a/anothertls/src/crypto/chacha20/poly1305.rs
+++ b/anothertls/src/crypto/chacha20/poly1305.rs
@@ -29,7 +29,7 @@ impl Poly1305 {
         let mut a = ibig!(0);
         let p = ibig!(_3fffffffffffffffffffffffffffffffb base 16);
 
-        for i in 1..=(msg.len() as f32 / 16.0).ceil() as usize {
+        for i in 1..=(msg.len() + 15) / 16 {
             let n = if i * 16 > msg.len() {
                 let mut buf = vec![];
                 buf.extend_from_slice(&msg[(i - 1) * 16..]);
-- 
2.43.0


From cc3d38c23eef784ee2da1ea76da6e6dfcf107023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:12 +0000
Subject: [PATCH 04/84] fix: AES-GCM carried the 32-bit block counter into the
 IV part for nonces other than 96 bits

---
 anothertls/src/crypto/aes/gcm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anothertls/src/crypto/aes/gcm.rs b/anothertls/src/crypto/aes/gcm.rs
index 90ddb61..33bfc5c 100644
--- a/anothertls/src/crypto/aes/gcm.rs
+++ b/anothertls/src/crypto/aes/gcm.rs
@@ -90,7 +90,7 @@ impl Gcm {
             counter = (counter + 1) % 0x100000000; // 2^32
 
             let Yi = if (iv.len() * 8) != 96 {
-                Yi + counter
+                (Yi & !0xFFFFFFFF) | (Yi.wrapping_add(counter) & 0xFFFFFFFF)
             } else {
                 (Yi & !0xFFFFFFFF) | counter
             };
-- 
2.43.0


From 7c9f69a56f72cee77cd01a3021ec92b136380af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:51 +0000
Subject: [PATCH 05/84] fix: X25519 values starting with a zero byte were
 shifted by a byte

---
 anothertls/src/crypto/ellipticcurve/math.rs | 2 +-
 anothertls/src/net/key_schedule.rs          | 2 +-
 anothertls/src/utils/bytes.rs               | 5 ++++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/anothertls/src/crypto/ellipticcurve/math.rs b/anothertls/src/crypto/ellipticcurve/math.rs
index 0a94613..a189190 100644
--- a/anothertls/src/crypto/ellipticcurve/math.rs
+++ b/anothertls/src/crypto/ellipticcurve/math.rs
@@ -99,7 +99,7 @@ pub fn multiply(p: &Point, n: IBig, curve: &Curve) -> Point {
     match curve.equation {
         Equation::Montgomery => {
             let a = bytes::ibig_to_32bytes(n, bytes::ByteOrder::Big);
-            let x = bytes::ibig_to_32bytes(p.x.clone(), bytes::ByteOrder::Big);
+            let x = bytes::ibig_to_32bytes(p.x.clone(), bytes::ByteOrder::Little);
             let res = curve25519::scalarmult(x, &a);
             Point {
                 x: bytes::to_ibig_be(&res),
diff --git a/anothertls/src/net/key_schedule.rs b/anothertls/src/net/key_schedule.rs
index 8c5d5c7..66e262e 100644
--- a/anothertls/src/net/key_schedule.rs
+++ b/anothertls/src/net/key_schedule.rs
@@ -135,7 +135,7 @@ impl KeySchedule {
             return Err(TlsError::HandshakeFailure);
         }
 
-        let client_public_key = bytes::to_ibig_be(&key_share_entry.opaque);
+        let client_public_key = bytes::to_ibig_le(&key_share_entry.opaque);
         let client_public_key = Point::new(client_public_key, ibig!(0));
 
         let server_private_key = private_key.secret.clone();
diff --git a/anothertls/src/utils/bytes.rs b/anothertls/src/utils/bytes.rs
index 3a56cb9..9a65700 100644
--- a/anothertls/src/utils/bytes.rs
+++ b/anothertls/src/utils/bytes.rs
@@ -33,13 +33,16 @@ pub fn ibig_to_vec(num: IBig, order: ByteOrder) -> Vec<u8> {
     }
 }
 pub fn ibig_to_32bytes(num: IBig, order: ByteOrder) -> [u8; 32] {
+    let big = order == ByteOrder::Big;
     let b = ibig_to_vec(num, order);
     let mut c = [0; 32];
+    // ibig_to_vec omits the leading zeros of the number
+    let start = if big { 32_usize.saturating_sub(b.len()) } else { 0 };
     for (i, d) in b.iter().enumerate() {
         if i >= 32 {
             break;
         }
-        c[i] = *d;
+        c[start + i] = *d;
     }
     c
 }
-- 
2.43.0


From 93b859ee782545b433a0f83de513c1a3dcf9d7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:51 +0000
Subject: [PATCH 06/84] fix: X25519 key shares of a wrong length were accepted

---
 anothertls/src/net/key_schedule.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/anothertls/src/net/key_schedule.rs b/anothertls/src/net/key_schedule.rs
index 66e262e..60bf39d 100644
--- a/anothertls/src/net/key_schedule.rs
+++ b/anothertls/src/net/key_schedule.rs
@@ -135,6 +135,10 @@ impl KeySchedule {
             return Err(TlsError::HandshakeFailure);
         }
 
+        if key_share_entry.opaque.len() != 32 {
+            return Err(TlsError::IllegalParameter);
+        }
+
         let client_public_key = bytes::to_ibig_le(&key_share_entry.opaque);
         let client_public_key = Point::new(client_public_key, ibig!(0));
 
-- 
2.43.0


From 476cbcfe346285095b58523a86eb9420438b8b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:51 +0000
Subject: [PATCH 07/84] fix: an all-zero X25519 shared secret was accepted

---
 anothertls/src/net/key_schedule.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/anothertls/src/net/key_schedule.rs b/anothertls/src/net/key_schedule.rs
index 60bf39d..0d83fd4 100644
--- a/anothertls/src/net/key_schedule.rs
+++ b/anothertls/src/net/key_schedule.rs
@@ -147,6 +147,10 @@ impl KeySchedule {
 
         let shared_secret = math::multiply(&client_public_key, server_private_key, curve);
         let shared_secret = bytes::ibig_to_32bytes(shared_secret.x, bytes::ByteOrder::Big);
+        // 7.4.2. MUST check whether the computed shared secret is the all-zero value
+        if shared_secret == [0; 32] {
+            return Err(TlsError::IllegalParameter);
+        }
 
         match Self::do_key_schedule(tshash.get_type(), &tshash.finalize(), &shared_secret) {
             Some(keys) => Ok(keys),
-- 
2.43.0


From f1a9a2d23a7949aa8f9288443f51e11e64359afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:59 +0000
Subject: [PATCH 08/84] fix: ECDSA used all bits of digests longer than the
 group order

---
 anothertls/src/crypto/ellipticcurve/ecdsa.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/anothertls/src/crypto/ellipticcurve/ecdsa.rs b/anothertls/src/crypto/ellipticcurve/ecdsa.rs
index 3b2a95e..043c21c 100644
--- a/anothertls/src/crypto/ellipticcurve/ecdsa.rs
+++ b/anothertls/src/crypto/ellipticcurve/ecdsa.rs
@@ -10,6 +10,11 @@ use crate::rand::{RngCore, SeedableRng, SimpleRng, URandomRng};
 
 use super::{math, Point, PrivateKey, PublicKey, Signature};
 
+/// FIPS 186-4 6.4: only the leftmost bits of the digest are used, as many as n has (256 for P-256)
+fn digest_to_int(digest: &[u8]) -> IBig {
+    bytes::to_ibig_be(&digest[..digest.len().min(32)])
+}
+
 pub struct Ecdsa {
     rng: Box<dyn RngCore<IBig>>,
 }
@@ -33,7 +38,7 @@ impl Ecdsa {
         privkey: &PrivateKey,
         hashed_message: &[u8],
     ) -> Result<Signature, String> {
-        let msg = bytes::to_ibig_be(hashed_message);
+        let msg = digest_to_int(hashed_message);
         let curve = privkey.curve.clone();
         let d = privkey.secret.clone();
 
@@ -92,7 +97,7 @@ impl Ecdsa {
             return false;
         }
 
-        let z = bytes::to_ibig_be(hashed_message);
+        let z = digest_to_int(hashed_message);
         let curve = pub_key.curve;
 
         let s_inv = math::inv(&sign.s, &curve.n);
-- 
2.43.0


From b1ac5238a2e9269972b6151a4bc0a618d5c25577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:00 +0000
Subject: [PATCH 09/84] fix: DER headers were read past the end of the input,
 and contents could reach past it

---
 anothertls/src/utils/der.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/anothertls/src/utils/der.rs b/anothertls/src/utils/der.rs
index a1083f3..ed74902 100644
--- a/anothertls/src/utils/der.rs
+++ b/anothertls/src/utils/der.rs
@@ -74,28 +74,34 @@ impl DerType {
 }
 
 pub fn der_parse(consumed: &mut usize, data: &[u8]) -> Result<(usize, EncodedForm), ParseError> {
-    let der_type = match DerType::from_u8(data[*consumed]) {
+    let tag = *data.get(*consumed).ok_or(ParseError::DerParseType)?;
+    let der_type = match DerType::from_u8(tag) {
         Some(a) => a,
         None => return Err(ParseError::DerParseType),
     };
     *consumed += 1;
-    let size = get_len(data, consumed);
-    if size > data.len() {
+    let size = get_len(data, consumed).ok_or(ParseError::DerParseLen)?;
+    if size > data.len() - *consumed {
         return Err(ParseError::DerParseLen);
     }
     Ok((size, der_type))
 }
 
-fn get_len(len: &[u8], consumed: &mut usize) -> usize {
+fn get_len(len: &[u8], consumed: &mut usize) -> Option<usize> {
     let size;
-    if len[*consumed] >> 7 & 1 == 1 {
-        let consume_len = len[*consumed] & 0x7F;
+    let first = *len.get(*consumed)?;
+    if first >> 7 & 1 == 1 {
+        let consume_len = (first & 0x7F) as usize;
         *consumed += 1;
-        size = bytes::to_u128_be_fill(&len[*consumed..*consumed + consume_len as usize]) as usize;
-        *consumed += consume_len as usize;
+        // the indefinite form is no DER
+        if consume_len == 0 || consume_len > 8 {
+            return None;
+        }
+        size = bytes::to_u128_be_fill(len.get(*consumed..*consumed + consume_len)?) as usize;
+        *consumed += consume_len;
     } else {
-        size = len[*consumed] as usize;
+        size = first as usize;
         *consumed += 1;
     }
-    size
+    Some(size)
 }
-- 
2.43.0


From a366ee7b385083ef22bebbb004079b416f5b4b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:03 +0000
Subject: [PATCH 10/84] fix: ECDSA signatures with a short r or s were not
 encoded as DER

---
 anothertls/src/crypto/ellipticcurve/signature.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/anothertls/src/crypto/ellipticcurve/signature.rs b/anothertls/src/crypto/ellipticcurve/signature.rs
index e903fc5..37f09e1 100644
--- a/anothertls/src/crypto/ellipticcurve/signature.rs
+++ b/anothertls/src/crypto/ellipticcurve/signature.rs
@@ -60,8 +60,9 @@ impl Signature {
 
     pub fn to_der(&self) -> Vec<u8> {
         // https://www.rfc-editor.org/rfc/rfc3279#page-7
-        let s = bytes::ibig_to_32bytes(self.s.clone(), bytes::ByteOrder::Big);
-        let r = bytes::ibig_to_32bytes(self.r.clone(), bytes::ByteOrder::Big);
+        // a DER INTEGER has no superfluous leading zeros
+        let s = bytes::ibig_to_vec(self.s.clone(), bytes::ByteOrder::Big);
+        let r = bytes::ibig_to_vec(self.r.clone(), bytes::ByteOrder::Big);
 
         let integer_type = 0x02;
         let sequence_type = 0x30;
-- 
2.43.0


From 90f72bc197681a20c27ac1b2919c61364c454117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:03 +0000
Subject: [PATCH 11/84] fix: ECDSA signatures were read from DER without
 checking types, lengths and the form of the numbers

---
 .../src/crypto/ellipticcurve/signature.rs     | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/anothertls/src/crypto/ellipticcurve/signature.rs b/anothertls/src/crypto/ellipticcurve/signature.rs
index 37f09e1..a4208ba 100644
--- a/anothertls/src/crypto/ellipticcurve/signature.rs
+++ b/anothertls/src/crypto/ellipticcurve/signature.rs
@@ -26,9 +26,10 @@ impl Signature {
         let mut r = None;
         let mut s = None;
         let mut consumed = 0;
+        let mut end = buf.len();
 
         for i in 0..3 {
-            let (size, der_type) = match der::der_parse(&mut consumed, buf) {
+            let (size, der_type) = match der::der_parse(&mut consumed, &buf[..end]) {
                 Ok(e) => e,
                 Err(e) => {
                     log::debug!("Error parsing Signature: {e:?}");
@@ -40,8 +41,20 @@ impl Signature {
                 if der_type != EncodedForm::Constructed(DerType::Sequence) {
                     return Err(TlsError::BadCertificate);
                 }
+                end = consumed + size;
             } else {
-                let int = bytes::to_ibig_be(&buf[consumed..consumed + size]);
+                let raw = &buf[consumed..consumed + size];
+                // a positive number in its shortest form
+                let valid = match *raw {
+                    [] => false,
+                    [0] => true,
+                    [0, second, ..] => second >= 0x80,
+                    [first, ..] => first < 0x80,
+                };
+                if der_type != EncodedForm::Primitive(DerType::Integer) || !valid {
+                    return Err(TlsError::BadCertificate);
+                }
+                let int = bytes::to_ibig_be(raw);
                 consumed += size;
                 if r.is_none() {
                     r = Some(int);
@@ -51,7 +64,7 @@ impl Signature {
             }
         }
 
-        if s.is_none() {
+        if s.is_none() || consumed != end {
             return Err(TlsError::BadCertificate);
         }
 
-- 
2.43.0


From 98768b33136b7bce88c26420d778e29a5a43ef9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:02 +0000
Subject: [PATCH 12/84] fix: DER tags of other classes were taken for the
 universal ones

---
 anothertls/src/utils/der.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/anothertls/src/utils/der.rs b/anothertls/src/utils/der.rs
index ed74902..5ce9c9d 100644
--- a/anothertls/src/utils/der.rs
+++ b/anothertls/src/utils/der.rs
@@ -38,7 +38,10 @@ impl DerType {
         let content = tag & 0x1F;
         let der_type = if (tag >> 6 & 0x3) == 0x2 {
             // Context-specific
-            DerType::ContextSpecific(tag & 0xf)
+            DerType::ContextSpecific(content)
+        } else if tag >> 6 != 0 {
+            // Application and private classes are other types
+            return None;
         } else {
             match content {
                 0x02 => DerType::Integer,
-- 
2.43.0


From 7b2b692a7d366685101819133cf0f5695dc0fbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:33 +0000
Subject: [PATCH 13/84] hook: choose a record sequence number (cfg verif_hooks)

---
 anothertls/src/net/key_schedule.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/anothertls/src/net/key_schedule.rs b/anothertls/src/net/key_schedule.rs
index 0d83fd4..60ec0ba 100644
--- a/anothertls/src/net/key_schedule.rs
+++ b/anothertls/src/net/key_schedule.rs
@@ -48,6 +48,11 @@ impl Key {
             sequence_number: 0,
         })
     }
+    /// Lets a check start at any record of a long session.
+    #[cfg(verif_hooks)]
+    pub fn set_sequence_number(&mut self, n: u64) {
+        self.sequence_number = n as _;
+    }
     pub fn get_per_record_nonce(&mut self) -> Vec<u8> {
         // 5.3.  Per-Record Nonce
         let mut out = self.iv.to_vec();
-- 
2.43.0


From eb7cf008b796674be1db265d77732f2ba3c7f686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:34 +0000
Subject: [PATCH 14/84] fix: a record cut short was read past the end of the
 buffer

---
 anothertls/src/net/record.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anothertls/src/net/record.rs b/anothertls/src/net/record.rs
index a4c9736..63b3ed7 100644
--- a/anothertls/src/net/record.rs
+++ b/anothertls/src/net/record.rs
@@ -85,7 +85,7 @@ impl<'a> Record<'a> {
         let content_type = RecordType::new(buf[0])?;
         let version = ((buf[1] as u16) << 8) | buf[2] as u16;
         let len = (((buf[3] as u16) << 8) | buf[4] as u16) as usize;
-        if buf.len() < (2 + len) {
+        if buf.len() < (5 + len) {
             return Err(TlsError::DecodeError);
         }
         let consumed = 5 + len;
-- 
2.43.0


From bef36bd16bd85d36f5072d7bd0b955aeb06866f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:34 +0000
Subject: [PATCH 15/84] fix: protected records shorter than a tag panicked, and
 other outer types were accepted as protected records

---
 anothertls/src/net/record.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/anothertls/src/net/record.rs b/anothertls/src/net/record.rs
index 63b3ed7..6727e51 100644
--- a/anothertls/src/net/record.rs
+++ b/anothertls/src/net/record.rs
@@ -205,6 +205,13 @@ impl RecordPayloadProtection {
             &mut self.handshake_keys
         };
 
+        // 5.2. Protected records have the outer type application_data
+        if record.content_type != RecordType::ApplicationData {
+            return Err(TlsError::UnexpectedMessage);
+        }
+        if record.fraqment.len() < 16 {
+            return Err(TlsError::DecodeError);
+        }
         let ciphertext = &record.fraqment.as_ref()[..record.fraqment.len() - 16]; // 1 = Inner ContentType
         let ahead = &record.fraqment.as_ref()[ciphertext.len()..];
 
-- 
2.43.0


From 8cabae3bf8fb900cc20b0fd647bbeb4da25b6400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:34 +0000
Subject: [PATCH 16/84] fix: protected records without a content type were
 accepted

---
 anothertls/src/net/record.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/anothertls/src/net/record.rs b/anothertls/src/net/record.rs
index 6727e51..55b8cc1 100644
--- a/anothertls/src/net/record.rs
+++ b/anothertls/src/net/record.rs
@@ -242,6 +242,9 @@ impl RecordPayloadProtection {
                 break;
             }
         }
+        if content_type == RecordType::Invalid {
+            return Err(TlsError::UnexpectedMessage);
+        }
 
         Ok((content_type, plaintext[..record_len].to_vec()))
     }
-- 
2.43.0


From 8a51fd1ab1128dfcba0db10205e2c1b70a2184e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:22 +0000
Subject: [PATCH 17/84] fix: malformed UTCTime values were read as other
 instants or panicked

---
 anothertls/src/utils/x509.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/anothertls/src/utils/x509.rs b/anothertls/src/utils/x509.rs
index fca8476..8ad9fe6 100644
--- a/anothertls/src/utils/x509.rs
+++ b/anothertls/src/utils/x509.rs
@@ -46,7 +46,9 @@ pub struct UtcTime {
 
 impl UtcTime {
     fn from_utc_timestamp(t: &str) -> Option<UtcTime> {
-        if t.len() < 12 {
+        // YYMMDDHHMMSSZ is the only form RFC 5280 allows
+        let b = t.as_bytes();
+        if b.len() != 13 || b[12] != b'Z' || !b[..12].iter().all(u8::is_ascii_digit) {
             return None;
         }
         let (mut year, month, day, hour, minute, second) = (
@@ -62,6 +64,18 @@ impl UtcTime {
         } else {
             year += 1900;
         }
+        let days_in_month = match month {
+            4 | 6 | 9 | 11 => 30,
+            2 if year % 4 == 0 => 29, // there is no other exception from 1950 to 2049
+            2 => 28,
+            _ => 31,
+        };
+        if !(1..=12).contains(&month) || !(1..=days_in_month).contains(&day) {
+            return None;
+        }
+        if hour > 23 || minute > 59 || second > 59 {
+            return None;
+        }
         Some(UtcTime {
             year,
             month,
-- 
2.43.0


From 8fc54d54dbf9abd844797794ca1e4289b32b451c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:22 +0000
Subject: [PATCH 18/84] fix: times before 1970 underflowed, and leap days were
 not counted after February of their year

---
 anothertls/src/utils/x509.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/anothertls/src/utils/x509.rs b/anothertls/src/utils/x509.rs
index 8ad9fe6..5865286 100644
--- a/anothertls/src/utils/x509.rs
+++ b/anothertls/src/utils/x509.rs
@@ -85,21 +85,24 @@ impl UtcTime {
             second,
         })
     }
-    pub fn get_unix_timestamp(&self) -> u64 {
-        let days_since_year_start = [0_u64, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334];
-        let year = self.year as u64;
+    pub fn get_unix_timestamp(&self) -> i64 {
+        let days_since_year_start = [0_i64, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334];
+        let year = self.year as i64;
 
-        let leap_years =
-            ((year - 1) - 1968) / 4 - ((year - 1) - 1900) / 100 + ((year - 1) - 1600) / 400;
+        let leap_years = (year - 1) / 4 - (year - 1) / 100 + (year - 1) / 400 - 477;
         let mut days = (year - 1970) * 365 + leap_years;
         days += days_since_year_start[(self.month - 1) as usize];
-        days += (self.day - 1) as u64;
+        // the leap day of the year itself
+        if self.month > 2 && year % 4 == 0 && (year % 100 != 0 || year % 400 == 0) {
+            days += 1;
+        }
+        days += (self.day - 1) as i64;
 
         let mut res = 0;
         res += days * 86400;
-        res += ((self.hour) as u64) * 3600;
-        res += ((self.minute) as u64) * 60;
-        res += (self.second) as u64;
+        res += ((self.hour) as i64) * 3600;
+        res += ((self.minute) as i64) * 60;
+        res += (self.second) as i64;
         res
     }
 }
@@ -130,7 +133,7 @@ impl Validity {
         let since_the_epoch = current_time
             .duration_since(UNIX_EPOCH)
             .expect("Time went backwards");
-        let current = since_the_epoch.as_secs();
+        let current = since_the_epoch.as_secs() as i64;
 
         if let Some(not_before) = self.not_before.as_ref() {
             if current < not_before.get_unix_timestamp() {
-- 
2.43.0


From 627343798ec0a7488dfe22dc037decd36bba1b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:31 +0000
Subject: [PATCH 19/84] fix: certificates without a public key or signature
 algorithm panicked, and one without validity times was valid at any time

---
 anothertls/src/utils/x509.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/anothertls/src/utils/x509.rs b/anothertls/src/utils/x509.rs
index 5865286..e0bc70f 100644
--- a/anothertls/src/utils/x509.rs
+++ b/anothertls/src/utils/x509.rs
@@ -211,7 +211,7 @@ impl SubjectPublicKeyInfoBuilder {
         }
     }
     fn build(self) -> Result<SubjectPublicKeyInfo, ParseError> {
-        if self.algorithm.is_none() {
+        if self.algorithm.is_none() || self.subject_public_key.is_none() {
             return Err(ParseError::SubjectPublicKeyInfo);
         }
         Ok(SubjectPublicKeyInfo {
@@ -343,6 +343,9 @@ impl TBSCertificateBuilder {
         if self.serial_number.is_none() || self.signature.is_none() {
             return Err(ParseError::TBSBuilder);
         }
+        if self.validity.not_before.is_none() || self.validity.not_after.is_none() {
+            return Err(ParseError::TBSBuilder);
+        }
         Ok(TBSCertificate {
             version: self.version,
             serial_number: self.serial_number.as_ref().unwrap().clone(),
@@ -444,7 +447,7 @@ impl X509Builder {
         Ok(X509 {
             tbs_certificate: self.tbs_certificate.build()?,
             tbs_certificate_size: self.tbs_certificate_size,
-            signature_algorithm: self.signature_algorithm.unwrap(),
+            signature_algorithm: self.signature_algorithm.ok_or(ParseError::Algorithms)?,
             signature,
         })
     }
-- 
2.43.0


From e12e28787604b091bea0cc1ca166436735019b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:31 +0000
Subject: [PATCH 20/84] fix: reading a compressed, short or long public key of
 a certificate panicked

---
 anothertls/src/utils/x509.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/anothertls/src/utils/x509.rs b/anothertls/src/utils/x509.rs
index e0bc70f..04c10e9 100644
--- a/anothertls/src/utils/x509.rs
+++ b/anothertls/src/utils/x509.rs
@@ -409,8 +409,9 @@ impl X509 {
             .subject_public_key
             .as_slice();
 
-        if pubkey[0] != 0x4 {
-            todo!("Handle compressed points");
+        // TODO: Handle compressed points
+        if pubkey.len() != 65 || pubkey[0] != 0x4 {
+            return None;
         }
 
         let x = bytes::to_ibig_be(&pubkey[1..33]);
-- 
2.43.0


From d52e6d9ce8ef490199b56cb0ca7a65c56b3392b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:31 +0000
Subject: [PATCH 21/84] fix: unexpected DER types and short versions in
 certificates panicked

---
 anothertls/src/utils/x509.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/anothertls/src/utils/x509.rs b/anothertls/src/utils/x509.rs
index 04c10e9..6a81105 100644
--- a/anothertls/src/utils/x509.rs
+++ b/anothertls/src/utils/x509.rs
@@ -505,6 +505,10 @@ fn parse(
             DerType::ContextSpecific(tag) => {
                 match tag {
                     0x00 => {
+                        // [0] { INTEGER }
+                        if body.len() != 3 || body[..2] != [0x02, 0x01] {
+                            return Err(ParseError::Version);
+                        }
                         res.tbs_certificate.version = Some(Version::parse(&body[2..])?);
                     }
                     0x03 => log::fixme!("TODO: certificate extenstions"),
@@ -517,7 +521,8 @@ fn parse(
                 // *consumed += size;
             }
             _ => {
-                todo!("cons={cons:?}");
+                log::error!("not yet implemented: cons={cons:?}");
+                return Err(ParseError::NotYetImplemented);
             }
         },
         EncodedForm::Primitive(prim) => match prim {
@@ -588,10 +593,6 @@ fn parse(
                 }
                 *consumed += size;
             }
-            DerType::OctetString => {
-                *consumed += size;
-                todo!("GOT OctetString");
-            }
             DerType::UTCTime => {
                 let timestamp = match String::from_utf8(body.to_vec()) {
                     Ok(e) => e,
@@ -634,9 +635,6 @@ fn parse(
                     *consumed += size;
                 }
             }
-            DerType::Null => {
-                todo!("Null");
-            }
             _ => {
                 log::error!("not yet implemented: prim={prim:?}");
                 return Err(ParseError::NotYetImplemented);
-- 
2.43.0


From 6c499a8f069100369fe64a2a14b0e711143a1d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:31 +0000
Subject: [PATCH 22/84] fix: parts of a certificate after the signed ones could
 replace its validity, names and key, and the signed bytes were cut wrongly
 for certificates under 260 bytes

---
 anothertls/src/net/handshake/certificate.rs |   5 +-
 anothertls/src/utils/x509.rs                | 102 +++++++++++---------
 2 files changed, 60 insertions(+), 47 deletions(-)

diff --git a/anothertls/src/net/handshake/certificate.rs b/anothertls/src/net/handshake/certificate.rs
index 0b2c8e3..ba68ede 100644
--- a/anothertls/src/net/handshake/certificate.rs
+++ b/anothertls/src/net/handshake/certificate.rs
@@ -188,7 +188,10 @@ impl Certificate {
             None => return Err(TlsError::DecryptError),
         };
 
-        let context = &other.raw[4..4 + other_x509.tbs_certificate_size];
+        let context = match &other_x509.tbs_certificate.raw_data {
+            Some(e) => e,
+            None => return Err(TlsError::InternalError),
+        };
 
         let hash = sha256(context);
 
diff --git a/anothertls/src/utils/x509.rs b/anothertls/src/utils/x509.rs
index 6a81105..f8cd077 100644
--- a/anothertls/src/utils/x509.rs
+++ b/anothertls/src/utils/x509.rs
@@ -377,7 +377,45 @@ impl X509 {
         let mut res = X509Builder::new();
         let mut consumed = 0;
         log::debug!("Start parsing X509 certificate");
+        // Certificate  ::=  SEQUENCE  { tbsCertificate, signatureAlgorithm, signatureValue }
+        let (size, der) = der_parse(&mut consumed, data)?;
+        if der != EncodedForm::Constructed(DerType::Sequence) || consumed + size != data.len() {
+            return Err(ParseError::DerParseLen);
+        }
+
+        let start = consumed;
         parse(&mut res, ParsingState::Init, data, &mut consumed)?;
+        res.tbs_certificate_size = consumed - start;
+        res.tbs_certificate.raw_data = Some(data[start..consumed].to_vec());
+
+        // what follows is not signed and must not change anything of the tbsCertificate
+        let (size, der) = der_parse(&mut consumed, data)?;
+        let end = consumed + size;
+        let (oid_size, oid_der) = der_parse(&mut consumed, &data[..end])?;
+        if der != EncodedForm::Constructed(DerType::Sequence)
+            || oid_der != EncodedForm::Primitive(DerType::ObjectIdentifier)
+        {
+            return Err(ParseError::Algorithms);
+        }
+        let oji = parse_object_identifier(&data[consumed..consumed + oid_size])?;
+        res.signature_algorithm = Some(Algorithms::new(&oji)?);
+        // the ECDSA algorithms have no parameters
+        if consumed + oid_size != end && oji.starts_with("ecdsa") {
+            return Err(ParseError::Algorithms);
+        }
+        consumed = end;
+
+        let (size, der) = der_parse(&mut consumed, data)?;
+        if der != EncodedForm::Primitive(DerType::BitString)
+            || consumed + size != data.len()
+            || data.get(consumed) != Some(&0)
+        {
+            return Err(ParseError::DerParseLen);
+        }
+        res.signature = match Signature::from_der(&data[consumed + 1..]) {
+            Ok((signature, n)) if n == size - 1 => Some(signature),
+            _ => None,
+        };
         res.build()
     }
     pub fn get_public_key(&self) -> Option<PublicKey> {
@@ -424,7 +462,8 @@ pub struct X509Builder {
     tbs_certificate: TBSCertificateBuilder,
     tbs_certificate_size: usize,
     signature_algorithm: Option<Algorithms>,
-    signature: (Option<IBig>, Option<IBig>),
+    signature: Option<Signature>,
+    depth: usize,
 }
 impl X509Builder {
     fn new() -> X509Builder {
@@ -432,24 +471,16 @@ impl X509Builder {
             tbs_certificate: TBSCertificateBuilder::new(),
             tbs_certificate_size: 0,
             signature_algorithm: None,
-            signature: (None, None),
+            signature: None,
+            depth: 0,
         }
     }
     fn build(self) -> Result<X509, ParseError> {
-        let mut signature = None;
-
-        if self.signature.0.is_some() && self.signature.1.is_some() {
-            signature = Some(Signature::new(
-                self.signature.1.unwrap(),
-                self.signature.0.unwrap(),
-            ));
-        }
-
         Ok(X509 {
             tbs_certificate: self.tbs_certificate.build()?,
             tbs_certificate_size: self.tbs_certificate_size,
             signature_algorithm: self.signature_algorithm.ok_or(ParseError::Algorithms)?,
-            signature,
+            signature: self.signature,
         })
     }
 }
@@ -457,7 +488,6 @@ impl X509Builder {
 #[derive(PartialEq, Debug, Clone)]
 enum ParsingState {
     Init,
-    InBitString,
     InSet,
 }
 
@@ -492,11 +522,6 @@ fn parse(
     match der {
         EncodedForm::Constructed(cons) => match cons {
             DerType::Sequence => {
-                if res.tbs_certificate_size == 0 {
-                    res.tbs_certificate_size = 1; // Size of tbs_certificate + signature_algorithm + signature
-                } else if res.tbs_certificate_size == 1 {
-                    res.tbs_certificate_size = size + 4;
-                }
                 let size_should = size + *consumed;
                 while size_should > *consumed {
                     parse(res, state.clone(), data, consumed)?;
@@ -531,10 +556,6 @@ fn parse(
                 *consumed += size;
                 if res.tbs_certificate.serial_number.is_none() {
                     res.tbs_certificate.serial_number = Some(int);
-                } else if res.signature.0.is_none() {
-                    res.signature.0 = Some(int);
-                } else {
-                    res.signature.1 = Some(int);
                 }
             }
             DerType::ObjectIdentifier => match state {
@@ -574,12 +595,9 @@ fn parse(
                             .as_mut()
                             .unwrap()
                             .parameters = Some(oji);
-                    } else if res.signature_algorithm.is_none() {
-                        res.signature_algorithm = Some(Algorithms::new(&oji)?);
                     }
                     *consumed += size;
                 }
-                _ => todo!("ObjectIdentifier {state:?}"),
             },
             DerType::PrintableString | DerType::UTF8String => {
                 let string = match String::from_utf8(body.to_vec()) {
@@ -610,30 +628,22 @@ fn parse(
                 *consumed += size;
             }
             DerType::BitString => {
-                if data[*consumed + 1] == 0x30 {
-                    *consumed += 1;
-                    let size_should = size + *consumed - 1;
-                    while size_should > *consumed {
-                        parse(res, ParsingState::InBitString, data, consumed)?;
-                    }
-                } else {
-                    let number_of_unused_bits = data[*consumed];
-                    if number_of_unused_bits != 0 {
-                        todo!("Number of unused bits is not 0");
-                    }
+                // Number of unused bits, which only keys have here
+                if body.first() != Some(&0) || state != ParsingState::Init {
+                    return Err(ParseError::NotYetImplemented);
+                }
 
-                    if res
-                        .tbs_certificate
+                if res
+                    .tbs_certificate
+                    .subject_public_key_info
+                    .subject_public_key
+                    .is_none()
+                {
+                    res.tbs_certificate
                         .subject_public_key_info
-                        .subject_public_key
-                        .is_none()
-                    {
-                        res.tbs_certificate
-                            .subject_public_key_info
-                            .subject_public_key = Some(BitString(body[1..].to_vec()));
-                    }
-                    *consumed += size;
+                        .subject_public_key = Some(BitString(body[1..].to_vec()));
                 }
+                *consumed += size;
             }
             _ => {
                 log::error!("not yet implemented: prim={prim:?}");
-- 
2.43.0


From fef7a0a6012aff6a5aca5bd98d64be92e065fa84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:31 +0000
Subject: [PATCH 23/84] fix: elements of a certificate could reach past their
 parent, and names with several values in one set were refused

---
 anothertls/src/utils/x509.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/anothertls/src/utils/x509.rs b/anothertls/src/utils/x509.rs
index f8cd077..3da576b 100644
--- a/anothertls/src/utils/x509.rs
+++ b/anothertls/src/utils/x509.rs
@@ -524,7 +524,7 @@ fn parse(
             DerType::Sequence => {
                 let size_should = size + *consumed;
                 while size_should > *consumed {
-                    parse(res, state.clone(), data, consumed)?;
+                    parse(res, state.clone(), &data[..size_should], consumed)?;
                 }
             }
             DerType::ContextSpecific(tag) => {
@@ -542,8 +542,10 @@ fn parse(
                 *consumed += size;
             }
             DerType::Set => {
-                parse(res, ParsingState::InSet, data, consumed)?;
-                // *consumed += size;
+                let size_should = size + *consumed;
+                while size_should > *consumed {
+                    parse(res, ParsingState::InSet, &data[..size_should], consumed)?;
+                }
             }
             _ => {
                 log::error!("not yet implemented: cons={cons:?}");
-- 
2.43.0


From a9938144a1542a6c81e0e34b80d0cb649c8aa35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:31 +0000
Subject: [PATCH 24/84] fix: deeply nested certificates overflowed the stack

---
 anothertls/src/utils/x509.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/anothertls/src/utils/x509.rs b/anothertls/src/utils/x509.rs
index 3da576b..4a0e3f1 100644
--- a/anothertls/src/utils/x509.rs
+++ b/anothertls/src/utils/x509.rs
@@ -519,6 +519,12 @@ fn parse(
     let (size, der) = der_parse(consumed, data)?;
     let body = &data[*consumed..*consumed + size];
 
+    // no part of a certificate that is read nests deeper
+    if res.depth > 16 {
+        return Err(ParseError::NotYetImplemented);
+    }
+    res.depth += 1;
+
     match der {
         EncodedForm::Constructed(cons) => match cons {
             DerType::Sequence => {
@@ -653,6 +659,7 @@ fn parse(
             }
         },
     }
+    res.depth -= 1;
     Ok(())
 }
 
-- 
2.43.0


From cb31ce63d6983219fb26309f1566fba903a72c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:31 +0000
Subject: [PATCH 25/84] fix: empty and negative serial numbers were read as
 other numbers

---
 anothertls/src/utils/x509.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/anothertls/src/utils/x509.rs b/anothertls/src/utils/x509.rs
index 4a0e3f1..63110e8 100644
--- a/anothertls/src/utils/x509.rs
+++ b/anothertls/src/utils/x509.rs
@@ -560,6 +560,10 @@ fn parse(
         },
         EncodedForm::Primitive(prim) => match prim {
             DerType::Integer => {
+                // bodies are not empty and numbers not negative
+                if body.first().map_or(true, |b| b & 0x80 != 0) {
+                    return Err(ParseError::TBSBuilder);
+                }
                 let int = bytes::to_ibig_be(body);
                 *consumed += size;
                 if res.tbs_certificate.serial_number.is_none() {
-- 
2.43.0


From 07a02f102f529174fe8fdf3eeec260cb8e15da91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:31 +0000
Subject: [PATCH 26/84] fix: object identifiers with zero arcs could be read as
 known ones

---
 anothertls/src/utils/x509.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/anothertls/src/utils/x509.rs b/anothertls/src/utils/x509.rs
index 63110e8..2e676a7 100644
--- a/anothertls/src/utils/x509.rs
+++ b/anothertls/src/utils/x509.rs
@@ -221,7 +221,11 @@ impl SubjectPublicKeyInfoBuilder {
     }
 }
 fn parse_object_identifier(id: &[u8]) -> Result<String, ParseError> {
-    let id = bytes::to_u128_be_fill(id);
+    // every known identifier is short and has its first byte set
+    let id = match id {
+        [1..=255, ..] if id.len() <= 16 => bytes::to_u128_be_fill(id),
+        _ => 0,
+    };
     Ok(match id {
         0x550406 => "countryName".to_string(),
         0x550408 => "stateOrProvinceName".to_string(),
-- 
2.43.0


From c46e7c17b95c4fe062f47683ff63cdf56fdcddbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:31 +0000
Subject: [PATCH 27/84] fix: checking against a CA with an unsupported public
 key panicked

---
 anothertls/src/net/handshake/certificate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anothertls/src/net/handshake/certificate.rs b/anothertls/src/net/handshake/certificate.rs
index ba68ede..eb7c9c7 100644
--- a/anothertls/src/net/handshake/certificate.rs
+++ b/anothertls/src/net/handshake/certificate.rs
@@ -180,7 +180,7 @@ impl Certificate {
             .as_ref()
             .unwrap()
             .get_public_key()
-            .expect("CA for client certificate has no public key");
+            .ok_or(TlsError::UnsupportedCertificate)?;
 
         let other_x509 = other.x509.as_ref().unwrap();
         let signature = match &other_x509.signature {
-- 
2.43.0


From 504c96a7890edd7a96315c11e96698e2345c6f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:31 +0000
Subject: [PATCH 28/84] fix: the signature of a certificate was always checked
 with SHA-256, whatever its algorithm

---
 anothertls/src/net/handshake/certificate.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/anothertls/src/net/handshake/certificate.rs b/anothertls/src/net/handshake/certificate.rs
index eb7c9c7..fadf7a9 100644
--- a/anothertls/src/net/handshake/certificate.rs
+++ b/anothertls/src/net/handshake/certificate.rs
@@ -5,12 +5,16 @@
 
 use crate::{
     crypto::ellipticcurve::{Ecdsa, PrivateKey, Signature},
-    hash::{sha256, TranscriptHash},
+    hash::{sha256, sha384, TranscriptHash},
     net::{
         alert::TlsError,
         extensions::{ServerExtension, ServerExtensions, SignatureAlgorithms, SignatureScheme},
     },
-    utils::{bytes, log, pem::get_pem_content_from_file, x509::X509},
+    utils::{
+        bytes, log,
+        pem::get_pem_content_from_file,
+        x509::{Algorithms, X509},
+    },
 };
 
 pub struct Certificate {
@@ -193,7 +197,14 @@ impl Certificate {
             None => return Err(TlsError::InternalError),
         };
 
-        let hash = sha256(context);
+        if other_x509.tbs_certificate.signature.algorithm != other_x509.signature_algorithm {
+            return Err(TlsError::DecryptError);
+        }
+        let hash = match other_x509.signature_algorithm {
+            Algorithms::EcdsaWithSha256 => sha256(context).to_vec(),
+            Algorithms::EcdsaWithSha384 => sha384(context).to_vec(),
+            _ => return Err(TlsError::DecryptError),
+        };
 
         if Ecdsa::verify(ca_public_key, signature, &hash) {
             return Ok(());
-- 
2.43.0


From a616a396f14472dc1aa82c5be6d027db7e9646b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:31 +0000
Subject: [PATCH 29/84] fix: DER lengths in other than the shortest form were
 accepted

---
 anothertls/src/utils/der.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/anothertls/src/utils/der.rs b/anothertls/src/utils/der.rs
index 5ce9c9d..8c1af08 100644
--- a/anothertls/src/utils/der.rs
+++ b/anothertls/src/utils/der.rs
@@ -101,6 +101,10 @@ fn get_len(len: &[u8], consumed: &mut usize) -> Option<usize> {
             return None;
         }
         size = bytes::to_u128_be_fill(len.get(*consumed..*consumed + consume_len)?) as usize;
+        // the shortest form is the only one
+        if size < 128 || len[*consumed] == 0 {
+            return None;
+        }
         *consumed += consume_len;
     } else {
         size = first as usize;
-- 
2.43.0


From 4b2c51779ac52038a01afc25a9e7f022305f6048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:32 +0000
Subject: [PATCH 30/84] fix: a PEM file with a malformed certificate panicked

---
 anothertls/src/net/handshake/certificate.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/anothertls/src/net/handshake/certificate.rs b/anothertls/src/net/handshake/certificate.rs
index fadf7a9..e1f4966 100644
--- a/anothertls/src/net/handshake/certificate.rs
+++ b/anothertls/src/net/handshake/certificate.rs
@@ -38,10 +38,7 @@ impl Certificate {
     pub fn from_pem_x509(filepath: String) -> Option<Self> {
         let raw = get_pem_content_from_file(filepath)?;
         // TODO: check if cert using the available algos
-        Some(
-            Certificate::from_raw_x509(raw.get("CERTIFICATE")?.to_vec())
-                .expect("Provided client certificate is not a valid x509 certificate."),
-        )
+        Certificate::from_raw_x509(raw.get("CERTIFICATE")?.to_vec()).ok()
     }
 
     pub fn from_pem(filepath: String) -> Option<Self> {
-- 
2.43.0


From d67dc3b6bcabf22ddd4772ffb251d81332115f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:29 +0000
Subject: [PATCH 31/84] fix: base64 with characters outside the alphabet or
 padding in the middle panicked or was decoded to something

---
 anothertls/src/utils/base64.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/anothertls/src/utils/base64.rs b/anothertls/src/utils/base64.rs
index f20426a..49bf79c 100644
--- a/anothertls/src/utils/base64.rs
+++ b/anothertls/src/utils/base64.rs
@@ -51,6 +51,12 @@ pub fn decode(input: &str) -> Option<Vec<u8>> {
         return None;
     }
 
+    // padding is at the end only, everything else of the alphabet
+    let data = input.trim_end_matches('=');
+    if len - data.len() > 2 || !data.bytes().all(|c| CHARS.as_bytes().contains(&c)) {
+        return None;
+    }
+
     let mut tmp = [0u8; 4];
 
     let mut reverse_characters = [0u8; 'z' as usize + 1];
-- 
2.43.0


From 0d9fcc7e2b15d3f5fff810ee54fe5d322abcc700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:29 +0000
Subject: [PATCH 32/84] fix: a short BEGIN line in a PEM file panicked

---
 anothertls/src/utils/pem.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/anothertls/src/utils/pem.rs b/anothertls/src/utils/pem.rs
index dc00b21..385bc1f 100644
--- a/anothertls/src/utils/pem.rs
+++ b/anothertls/src/utils/pem.rs
@@ -37,7 +37,10 @@ pub fn get_pem_content_from_file(filepath: String) -> Option<HashMap<String, Vec
             }
             PemState::End | PemState::Start => {
                 if line.starts_with("-----BEGIN") {
-                    current_title = line[11..(line.len() - 5)].to_string();
+                    current_title = line
+                        .strip_prefix("-----BEGIN ")?
+                        .strip_suffix("-----")?
+                        .to_string();
                     state = PemState::InContent;
                 }
             }
-- 
2.43.0


From d9335fb50a0013a1fd183de87154415ba97deac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:30 +0000
Subject: [PATCH 33/84] fix: PEM files with CRLF line ends or trailing blanks
 could not be read

---
 anothertls/src/utils/pem.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/anothertls/src/utils/pem.rs b/anothertls/src/utils/pem.rs
index 385bc1f..9ebef02 100644
--- a/anothertls/src/utils/pem.rs
+++ b/anothertls/src/utils/pem.rs
@@ -23,7 +23,8 @@ pub fn get_pem_content_from_file(filepath: String) -> Option<HashMap<String, Vec
     let mut state = PemState::Start;
     let mut current_title = String::new();
     let mut current_content = String::new();
-    for line in pem.split('\n') {
+    for line in pem.split(['\n', '\r']) {
+        let line = line.trim();
         match state {
             PemState::InContent => {
                 if line.starts_with("-----END") {
-- 
2.43.0


From 0148aa983e86dce2cc0afa8bb5b3103aeb3f2adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:30 +0000
Subject: [PATCH 34/84] fix: short private keys panicked, and keys of other
 types, curves or out of range were loaded as P-256 keys

---
 .../src/crypto/ellipticcurve/privatekey.rs    | 24 +++++++++++++++----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/anothertls/src/crypto/ellipticcurve/privatekey.rs b/anothertls/src/crypto/ellipticcurve/privatekey.rs
index d2fe4ff..8747f23 100644
--- a/anothertls/src/crypto/ellipticcurve/privatekey.rs
+++ b/anothertls/src/crypto/ellipticcurve/privatekey.rs
@@ -19,12 +19,26 @@ impl PrivateKey {
     pub fn from_pem(filepath: String) -> Option<PrivateKey> {
         let raw = get_pem_content_from_file(filepath)?;
         let secret = raw.get("EC PRIVATE KEY")?;
+        // RFC 5915: SEQUENCE { version 1, privateKey OCTET STRING, [0] parameters, [1] publicKey }
+        if secret.len() < 39
+            || secret[0] != 0x30
+            || secret[1] as usize != secret.len() - 2
+            || secret[2..7] != [0x02, 0x01, 0x01, 0x04, 0x20]
+        {
+            return None;
+        }
+        const PRIME256V1: [u8; 12] = [
+            0xa0, 0x0a, 0x06, 0x08, 0x2a, 0x86, 0x48, 0xce, 0x3d, 0x03, 0x01, 0x07,
+        ];
+        if secret.get(39) == Some(&0xa0) && !secret[39..].starts_with(&PRIME256V1) {
+            return None;
+        }
         let secret = bytes::to_ibig_be(&secret[7..39]);
-        // FIXME: PARSE ASN1 OID
-        Some(PrivateKey {
-            curve: Curve::secp256r1(),
-            secret,
-        })
+        let curve = Curve::secp256r1();
+        if secret == IBig::from(0) || secret >= curve.n {
+            return None;
+        }
+        Some(PrivateKey { curve, secret })
     }
     pub fn get_public_key(&self) -> PublicKey {
         let point = math::multiply(&self.curve.g, self.secret.clone(), &self.curve);
-- 
2.43.0


From 8c446231cadfc3b67ebf89484ae836a05e878fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:30 +0000
Subject: [PATCH 35/84] fix: asking for more than 100 random bytes panicked

---
 anothertls/src/rand/urandom.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/anothertls/src/rand/urandom.rs b/anothertls/src/rand/urandom.rs
index a2c14b3..c5297ae 100644
--- a/anothertls/src/rand/urandom.rs
+++ b/anothertls/src/rand/urandom.rs
@@ -48,7 +48,11 @@ impl RngCore<IBig> for URandomRng {
         self.next() % (max - min.clone()) + min
     }
     fn bytes(&mut self, size: usize) -> Vec<u8> {
-        let rand_bytes = self.read_from_urandom();
-        rand_bytes[..size].to_owned()
+        let mut res = vec![];
+        while res.len() < size {
+            res.extend_from_slice(&self.read_from_urandom());
+        }
+        res.truncate(size);
+        res
     }
 }
-- 
2.43.0


From 912b3dc2afcd527bd71ed3f51bcd4f2ad475d40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:30 +0000
Subject: [PATCH 36/84] fix: the simple generator returned no bytes, and never
 returned when asked for none

---
 anothertls/src/rand/simplerng.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/anothertls/src/rand/simplerng.rs b/anothertls/src/rand/simplerng.rs
index aaf7624..833393b 100644
--- a/anothertls/src/rand/simplerng.rs
+++ b/anothertls/src/rand/simplerng.rs
@@ -32,7 +32,7 @@ impl RngCore<u32> for SimpleRng<u32> {
     }
     fn bytes(&mut self, size: usize) -> Vec<u8> {
         let mut res = vec![];
-        while res.len() >= size {
+        while res.len() < size {
             res.push(self.next() as u8)
         }
         res
@@ -61,12 +61,13 @@ impl RngCore<IBig> for SimpleRng<IBig> {
     }
     fn bytes(&mut self, size: usize) -> Vec<u8> {
         let mut res = vec![];
-        while res.len() >= size {
+        while res.len() < size {
             res.extend_from_slice(&bytes::ibig_to_32bytes(
                 self.next(),
                 bytes::ByteOrder::Little,
             ));
         }
+        res.truncate(size);
         res
     }
 }
-- 
2.43.0


From deca134fb4c75183ea08c53f37f230eb55e565f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:32 +0000
Subject: [PATCH 37/84] fix: BadRecordMac was sent as close_notify and read as
 a decode error

---
 anothertls/src/net/alert.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/anothertls/src/net/alert.rs b/anothertls/src/net/alert.rs
index a190ec7..d18bd94 100644
--- a/anothertls/src/net/alert.rs
+++ b/anothertls/src/net/alert.rs
@@ -49,6 +49,7 @@ impl TlsError {
         match code {
             0 => TlsError::CloseNotify,
             10 => TlsError::UnexpectedMessage,
+            20 => TlsError::BadRecordMac,
             40 => TlsError::HandshakeFailure,
             42 => TlsError::BadCertificate,
             43 => TlsError::UnsupportedCertificate,
@@ -78,6 +79,7 @@ impl TlsError {
         match self {
             TlsError::CloseNotify => 0,
             TlsError::UnexpectedMessage => 10,
+            TlsError::BadRecordMac => 20,
             TlsError::HandshakeFailure => 40,
             TlsError::BadCertificate => 42,
             TlsError::UnsupportedCertificate => 43,
-- 
2.43.0


From 1f564f2f39e2b1af4adbbf02ca2f55704a6c773b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:32 +0000
Subject: [PATCH 38/84] fix: alerts without a value of their own were reported
 as decode errors or broken pipes

---
 anothertls/src/net/alert.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/anothertls/src/net/alert.rs b/anothertls/src/net/alert.rs
index d18bd94..30a69c7 100644
--- a/anothertls/src/net/alert.rs
+++ b/anothertls/src/net/alert.rs
@@ -67,10 +67,8 @@ impl TlsError {
             109 => TlsError::MissingExtension,
             112 => TlsError::UnrecognizedName,
             116 => TlsError::CertificateRequired,
-            250 => TlsError::NotOfficial,
-            253 => TlsError::NotOfficial, // GotAlert has an associated value that we can't match here
-            254 => TlsError::BrokenPipe,
-            _ => TlsError::DecodeError,
+            // alerts without a value of their own
+            _ => TlsError::GotAlert(code),
         }
     }
 
-- 
2.43.0


From 0ad284180da51b07c7bba5250b5d35d003664056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:32 +0000
Subject: [PATCH 39/84] fix: a handshake message cut short panicked

---
 anothertls/src/net/handshake/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/anothertls/src/net/handshake/mod.rs b/anothertls/src/net/handshake/mod.rs
index a36218d..cc40cdc 100644
--- a/anothertls/src/net/handshake/mod.rs
+++ b/anothertls/src/net/handshake/mod.rs
@@ -63,6 +63,9 @@ impl<'a> Handshake<'a> {
         };
 
         let len = (((buf[1] as u32) << 16) | ((buf[2] as u32) << 8) | buf[3] as u32) as usize;
+        if buf.len() < len + 4 {
+            return Err(TlsError::DecodeError);
+        }
         Ok(Handshake {
             handshake_type,
             fraqment: &buf[4..(len + 4)],
-- 
2.43.0


From bbe7e0449d7d0c94a46d05c0cadbf7d7945a9519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:32 +0000
Subject: [PATCH 40/84] fix: extensions were read past their end and past the
 end of the message, and skipped ones were read again

---
 .../src/net/extensions/certificate_request.rs | 22 ++++--------
 anothertls/src/net/extensions/client.rs       | 36 ++++++++-----------
 anothertls/src/net/extensions/mod.rs          |  2 +-
 anothertls/src/net/extensions/server.rs       | 32 +++++++----------
 anothertls/src/net/extensions/shared.rs       | 17 +++++++++
 5 files changed, 51 insertions(+), 58 deletions(-)

diff --git a/anothertls/src/net/extensions/certificate_request.rs b/anothertls/src/net/extensions/certificate_request.rs
index 4d67eaa..96e15b5 100644
--- a/anothertls/src/net/extensions/certificate_request.rs
+++ b/anothertls/src/net/extensions/certificate_request.rs
@@ -5,9 +5,8 @@
 
 use crate::net::alert::TlsError;
 use crate::net::extensions::{
-    Extension, ExtensionType, ExtensionWrapper, Extensions, SignatureAlgorithms,
+    split_extensions, Extension, ExtensionType, ExtensionWrapper, Extensions, SignatureAlgorithms,
 };
-use crate::utils::bytes;
 
 pub enum CertificateRequestExtension {
     SignatureAlgorithms(SignatureAlgorithms),
@@ -24,30 +23,23 @@ pub type CertificateRequestExtensions = Extensions<CertificateRequestExtension>;
 
 impl CertificateRequestExtensions {
     pub fn from_request(buf: &[u8]) -> Result<CertificateRequestExtensions, TlsError> {
-        let mut consumed = 0;
         let mut extensions = Self::new();
         extensions.set_is_client();
 
-        while consumed < buf.len() {
-            let extension_type = bytes::to_u16(&buf[consumed..consumed + 2]);
-            let extension_type = ExtensionType::new(extension_type);
-            let size = bytes::to_u16(&buf[consumed + 2..consumed + 4]) as usize;
-            consumed += 4;
-            if extension_type.is_none() {
-                consumed += size;
-                continue;
-            }
-            let extension_type = extension_type.unwrap();
+        for (extension_type, content) in split_extensions(buf)? {
+            let extension_type = match ExtensionType::new(extension_type) {
+                Some(e) => e,
+                None => continue,
+            };
 
             let extension = match extension_type {
                 ExtensionType::SignatureAlgorithms => {
                     CertificateRequestExtension::SignatureAlgorithms(
-                        SignatureAlgorithms::client_parse(&buf[consumed..])?,
+                        SignatureAlgorithms::client_parse(content)?,
                     )
                 }
                 _ => continue,
             };
-            consumed += size;
             extensions.push(extension);
         }
         Ok(extensions)
diff --git a/anothertls/src/net/extensions/client.rs b/anothertls/src/net/extensions/client.rs
index f1362a5..054acc5 100644
--- a/anothertls/src/net/extensions/client.rs
+++ b/anothertls/src/net/extensions/client.rs
@@ -5,10 +5,9 @@
 
 use crate::net::alert::TlsError;
 use crate::net::extensions::{
-    Extension, ExtensionType, ExtensionWrapper, Extensions, KeyShare, ServerName,
+    split_extensions, Extension, ExtensionType, ExtensionWrapper, Extensions, KeyShare, ServerName,
     SignatureAlgorithms, SupportedGroups, SupportedVersions,
 };
-use crate::utils::bytes;
 
 pub type ClientExtensions = Extensions<ClientExtension>;
 
@@ -34,36 +33,29 @@ impl ExtensionWrapper for ClientExtension {
 }
 impl ClientExtension {
     pub fn from_client_hello(buf: &[u8]) -> Result<ClientExtensions, TlsError> {
-        let mut consumed = 0;
         let mut extensions = ClientExtensions::new();
 
-        while consumed < buf.len() {
-            let extension_type = bytes::to_u16(&buf[consumed..consumed + 2]);
-            let extension_type = ExtensionType::new(extension_type);
-            let size = bytes::to_u16(&buf[consumed + 2..consumed + 4]) as usize;
-            consumed += 4;
-            if extension_type.is_none() {
-                consumed += size;
-                continue;
-            }
-            let extension_type = extension_type.unwrap();
+        for (extension_type, content) in split_extensions(buf)? {
+            let extension_type = match ExtensionType::new(extension_type) {
+                Some(e) => e,
+                None => continue,
+            };
 
             let extension = match extension_type {
-                ExtensionType::ServerName => ClientExtension::ServerName(ServerName::server_parse(
-                    &buf[consumed..consumed + size],
-                )?),
-                ExtensionType::KeyShare => ClientExtension::KeyShare(KeyShare::server_parse(
-                    &buf[consumed..consumed + size],
-                )?),
+                ExtensionType::ServerName => {
+                    ClientExtension::ServerName(ServerName::server_parse(content)?)
+                }
+                ExtensionType::KeyShare => {
+                    ClientExtension::KeyShare(KeyShare::server_parse(content)?)
+                }
                 ExtensionType::SupportedVersions => ClientExtension::SupportedVersion(
-                    SupportedVersions::server_parse(&buf[consumed..])?,
+                    SupportedVersions::server_parse(content)?,
                 ),
                 ExtensionType::SignatureAlgorithms => ClientExtension::SignatureAlgorithms(
-                    SignatureAlgorithms::server_parse(&buf[consumed..])?,
+                    SignatureAlgorithms::server_parse(content)?,
                 ),
                 ExtensionType::SupportedGroups => continue,
             };
-            consumed += size;
             extensions.push(extension);
         }
         Ok(extensions)
diff --git a/anothertls/src/net/extensions/mod.rs b/anothertls/src/net/extensions/mod.rs
index 7143857..044f8f5 100644
--- a/anothertls/src/net/extensions/mod.rs
+++ b/anothertls/src/net/extensions/mod.rs
@@ -11,7 +11,7 @@ pub mod shared;
 pub use certificate_request::CertificateRequestExtensions;
 pub use client::{ClientExtension, ClientExtensions};
 pub use server::{ServerExtension, ServerExtensions};
-pub use shared::{Extension, ExtensionWrapper, Extensions};
+pub use shared::{split_extensions, Extension, ExtensionWrapper, Extensions};
 
 // Extensions
 pub mod key_share;
diff --git a/anothertls/src/net/extensions/server.rs b/anothertls/src/net/extensions/server.rs
index dab9dca..6a63881 100644
--- a/anothertls/src/net/extensions/server.rs
+++ b/anothertls/src/net/extensions/server.rs
@@ -6,10 +6,9 @@
 // use crate::utils::x509::Extensions;
 use crate::net::alert::TlsError;
 use crate::net::extensions::{
-    Extension, ExtensionType, ExtensionWrapper, Extensions, KeyShare, SignatureAlgorithms,
-    SupportedVersions,
+    split_extensions, Extension, ExtensionType, ExtensionWrapper, Extensions, KeyShare,
+    SignatureAlgorithms, SupportedVersions,
 };
-use crate::utils::bytes;
 
 pub enum ServerExtension {
     SupportedVersions(SupportedVersions),
@@ -31,34 +30,27 @@ pub type ServerExtensions = Extensions<ServerExtension>;
 
 impl ServerExtensions {
     pub fn from_server_hello(buf: &[u8]) -> Result<ServerExtensions, TlsError> {
-        let mut consumed = 0;
         let mut extensions = ServerExtensions::new();
         extensions.set_is_client();
 
-        while consumed < buf.len() {
-            let extension_type = bytes::to_u16(&buf[consumed..consumed + 2]);
-            let extension_type = ExtensionType::new(extension_type);
-            let size = bytes::to_u16(&buf[consumed + 2..consumed + 4]) as usize;
-            consumed += 4;
-            if extension_type.is_none() {
-                consumed += size;
-                continue;
-            }
-            let extension_type = extension_type.unwrap();
+        for (extension_type, content) in split_extensions(buf)? {
+            let extension_type = match ExtensionType::new(extension_type) {
+                Some(e) => e,
+                None => continue,
+            };
 
             let extension = match extension_type {
-                ExtensionType::KeyShare => ServerExtension::KeyShare(KeyShare::client_parse(
-                    &buf[consumed..consumed + size],
-                )?),
+                ExtensionType::KeyShare => {
+                    ServerExtension::KeyShare(KeyShare::client_parse(content)?)
+                }
                 ExtensionType::SupportedVersions => ServerExtension::SupportedVersions(
-                    SupportedVersions::client_parse(&buf[consumed..])?,
+                    SupportedVersions::client_parse(content)?,
                 ),
                 ExtensionType::SignatureAlgorithms => ServerExtension::SignatureAlgorithms(
-                    SignatureAlgorithms::client_parse(&buf[consumed..])?,
+                    SignatureAlgorithms::client_parse(content)?,
                 ), // ExtensionType::SupportedGroups => continue, // TODO
                 _ => continue, // ExtensionType::PSKKeyExchangeMode => continue, // TODO
             };
-            consumed += size;
             extensions.push(extension);
         }
         Ok(extensions)
diff --git a/anothertls/src/net/extensions/shared.rs b/anothertls/src/net/extensions/shared.rs
index dc1e7fd..80f620e 100644
--- a/anothertls/src/net/extensions/shared.rs
+++ b/anothertls/src/net/extensions/shared.rs
@@ -4,6 +4,7 @@
  */
 
 use crate::net::alert::TlsError;
+use crate::utils::bytes;
 
 pub trait Extension {
     fn server_parse(buf: &[u8]) -> Result<Self, TlsError>
@@ -73,6 +74,22 @@ impl<T: ExtensionWrapper> Default for Extensions<T> {
     }
 }
 
+/// Splits an extension block into the types and contents of its extensions
+pub fn split_extensions(mut buf: &[u8]) -> Result<Vec<(u16, &[u8])>, TlsError> {
+    let mut extensions: Vec<(u16, &[u8])> = vec![];
+    while !buf.is_empty() {
+        if buf.len() < 4 {
+            return Err(TlsError::DecodeError);
+        }
+        let extension_type = bytes::to_u16(&buf[..2]);
+        let size = bytes::to_u16(&buf[2..4]) as usize;
+        let content = buf.get(4..4 + size).ok_or(TlsError::DecodeError)?;
+        extensions.push((extension_type, content));
+        buf = &buf[4 + size..];
+    }
+    Ok(extensions)
+}
+
 #[derive(PartialEq, Debug)]
 pub enum ExtensionType {
     ServerName = 0x00,
-- 
2.43.0


From fbc1453a2f3c2e496dae168ff91e2e85df2b95c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:32 +0000
Subject: [PATCH 41/84] fix: a ClientHello with two key_share extensions was
 answered with two of them

---
 anothertls/src/net/extensions/shared.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/anothertls/src/net/extensions/shared.rs b/anothertls/src/net/extensions/shared.rs
index 80f620e..37385c8 100644
--- a/anothertls/src/net/extensions/shared.rs
+++ b/anothertls/src/net/extensions/shared.rs
@@ -84,6 +84,10 @@ pub fn split_extensions(mut buf: &[u8]) -> Result<Vec<(u16, &[u8])>, TlsError> {
         let extension_type = bytes::to_u16(&buf[..2]);
         let size = bytes::to_u16(&buf[2..4]) as usize;
         let content = buf.get(4..4 + size).ok_or(TlsError::DecodeError)?;
+        // 4.2. There MUST NOT be more than one extension of the same type
+        if extensions.iter().any(|e| e.0 == extension_type) {
+            return Err(TlsError::IllegalParameter);
+        }
         extensions.push((extension_type, content));
         buf = &buf[4 + size..];
     }
-- 
2.43.0


From b3ece9909c142e4bd5efe097a0216b4d156bd98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:33 +0000
Subject: [PATCH 42/84] fix: key shares of unknown groups ended the handshake
 or hid the shares after them, and malformed ones panicked

---
 anothertls/src/net/extensions/key_share.rs | 56 ++++++++++++----------
 1 file changed, 32 insertions(+), 24 deletions(-)

diff --git a/anothertls/src/net/extensions/key_share.rs b/anothertls/src/net/extensions/key_share.rs
index b7ec5ab..9828f86 100644
--- a/anothertls/src/net/extensions/key_share.rs
+++ b/anothertls/src/net/extensions/key_share.rs
@@ -19,19 +19,23 @@ impl KeyShareEntry {
     pub fn new(group: NamedGroup, opaque: Vec<u8>) -> KeyShareEntry {
         KeyShareEntry { group, opaque }
     }
-    fn parse(buf: &[u8]) -> Result<(usize, KeyShareEntry), TlsError> {
-        let group = bytes::to_u16(buf);
-        let group = match NamedGroup::new(group) {
-            Some(x) => x,
-            None => return Err(TlsError::IllegalParameter),
-        };
-        let public_key_len = bytes::to_u16(&buf[2..]);
+    /// The entry is None if the group is unknown
+    fn parse(buf: &[u8]) -> Result<(usize, Option<KeyShareEntry>), TlsError> {
+        if buf.len() < 4 {
+            return Err(TlsError::DecodeError);
+        }
+        let public_key_len = bytes::to_u16(&buf[2..]) as usize;
+        let opaque = buf
+            .get(4..public_key_len + 4)
+            .ok_or(TlsError::DecodeError)?
+            .to_vec();
+        if opaque.is_empty() {
+            return Err(TlsError::DecodeError);
+        }
+        let group = NamedGroup::new(bytes::to_u16(buf));
         Ok((
-            4 + public_key_len as usize,
-            KeyShareEntry {
-                group,
-                opaque: (buf[4..(public_key_len + 4) as usize]).to_vec(),
-            },
+            4 + public_key_len,
+            group.map(|group| KeyShareEntry { group, opaque }),
         ))
     }
     fn as_bytes(&self) -> Vec<u8> {
@@ -57,22 +61,26 @@ impl KeyShare {
     }
     fn parse(buf: &[u8], is_client: bool) -> Result<Self, TlsError> {
         let mut entries = vec![];
-        let mut len = 0;
         let mut consumed = 0;
-        if !is_client {
-            len = bytes::to_u16(buf) as usize;
-            consumed += 2;
+        if is_client {
+            // the server sends exactly one entry
+            let (used, entry) = KeyShareEntry::parse(buf)?;
+            if used != buf.len() {
+                return Err(TlsError::DecodeError);
+            }
+            entries.push(entry.ok_or(TlsError::IllegalParameter)?);
+            return Ok(KeyShare(entries));
         }
-        loop {
+        if buf.len() < 2 || bytes::to_u16(buf) as usize != buf.len() - 2 {
+            return Err(TlsError::DecodeError);
+        }
+        consumed += 2;
+        while consumed < buf.len() {
             let (used, entry) = KeyShareEntry::parse(&buf[consumed..])?;
-            if used <= 7 {
-                break;
-            }
-            entries.push(entry);
             consumed += used;
-            // len is for server 0, so it should always break here
-            if consumed >= len {
-                break;
+            // unknown groups are ignored
+            if let Some(entry) = entry {
+                entries.push(entry);
             }
         }
         Ok(KeyShare(entries))
-- 
2.43.0


From b4a40d188b0f39ae942c03d6fbcef3bf21963331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:33 +0000
Subject: [PATCH 43/84] fix: malformed supported_versions extensions panicked

---
 .../src/net/extensions/supported_versions.rs      | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/anothertls/src/net/extensions/supported_versions.rs b/anothertls/src/net/extensions/supported_versions.rs
index 8ce7fd1..77ab6f5 100644
--- a/anothertls/src/net/extensions/supported_versions.rs
+++ b/anothertls/src/net/extensions/supported_versions.rs
@@ -34,12 +34,12 @@ impl Extension for SupportedVersions {
     where
         Self: Sized,
     {
-        let len = buf[0] as usize;
-        if len % 2 == 0 {
-            for i in (1..len + 1).step_by(2) {
-                if bytes::to_u16(&buf[i..(i + 2)]) == 0x0304 {
-                    return Ok(SupportedVersions::new(true));
-                }
+        if buf.is_empty() || buf[0] as usize != buf.len() - 1 || buf[0] % 2 != 0 {
+            return Err(TlsError::DecodeError);
+        }
+        for i in (1..buf.len()).step_by(2) {
+            if bytes::to_u16(&buf[i..(i + 2)]) == 0x0304 {
+                return Ok(SupportedVersions::new(true));
             }
         }
         Ok(SupportedVersions::new(false))
@@ -48,6 +48,9 @@ impl Extension for SupportedVersions {
     where
         Self: Sized,
     {
+        if buf.len() != 2 {
+            return Err(TlsError::DecodeError);
+        }
         if bytes::to_u16(&buf[0..2]) == 0x0304 {
             return Ok(SupportedVersions::new(true));
         }
-- 
2.43.0


From d2a191f7a9b783270f069c7c09397d4b74a42e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:34 +0000
Subject: [PATCH 44/84] fix: malformed server_name extensions panicked

---
 anothertls/src/net/extensions/server_name.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/anothertls/src/net/extensions/server_name.rs b/anothertls/src/net/extensions/server_name.rs
index 6b524aa..7892b77 100644
--- a/anothertls/src/net/extensions/server_name.rs
+++ b/anothertls/src/net/extensions/server_name.rs
@@ -41,10 +41,16 @@ impl Extension for ServerName {
     where
         Self: Sized,
     {
+        if buf.len() < 2 || bytes::to_u16(buf) as usize != buf.len() - 2 {
+            return Err(TlsError::DecodeError);
+        }
         let server_name_list_len = bytes::to_u16(buf);
         let mut consumed = 2;
         let mut server_name = String::new();
         if server_name_list_len > 0 {
+            if server_name_list_len < 3 {
+                return Err(TlsError::DecodeError);
+            }
             let name_type = buf[consumed];
             consumed += 1;
             if name_type != 0 {
@@ -52,11 +58,13 @@ impl Extension for ServerName {
             }
             let server_name_len = bytes::to_u16(&buf[consumed..]) as usize;
             consumed += 2;
-            server_name =
-                match String::from_utf8(buf[consumed..server_name_len + consumed].to_vec()) {
-                    Ok(a) => a,
-                    Err(_) => return Err(TlsError::DecodeError),
-                };
+            let server_name_raw = buf
+                .get(consumed..server_name_len + consumed)
+                .ok_or(TlsError::DecodeError)?;
+            server_name = match String::from_utf8(server_name_raw.to_vec()) {
+                Ok(a) => a,
+                Err(_) => return Err(TlsError::DecodeError),
+            };
         }
         Ok(ServerName(server_name))
     }
-- 
2.43.0


From f0546e117deae370ad01393f894a55a55a4781f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:34 +0000
Subject: [PATCH 45/84] fix: signature_algorithms lost its last scheme, and
 malformed ones panicked

---
 anothertls/src/net/extensions/signature_algorithm.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/anothertls/src/net/extensions/signature_algorithm.rs b/anothertls/src/net/extensions/signature_algorithm.rs
index eb8a90d..6e39ebe 100644
--- a/anothertls/src/net/extensions/signature_algorithm.rs
+++ b/anothertls/src/net/extensions/signature_algorithm.rs
@@ -96,12 +96,14 @@ impl Extension for SignatureAlgorithms {
     where
         Self: Sized,
     {
-        let len = bytes::to_u16(buf) as usize;
         let mut out = vec![];
-        if len % 2 == 0 {
-            for i in (2..len).step_by(2) {
-                let tes = bytes::to_u16(&buf[i..(i + 2)]);
-                out.push(SignatureScheme::new(tes)?);
+        if buf.len() < 2 || buf.len() % 2 != 0 || bytes::to_u16(buf) as usize != buf.len() - 2 {
+            return Err(TlsError::DecodeError);
+        }
+        for i in (2..buf.len()).step_by(2) {
+            // unknown schemes are ignored
+            if let Ok(scheme) = SignatureScheme::new(bytes::to_u16(&buf[i..(i + 2)])) {
+                out.push(scheme);
             }
         }
         Ok(SignatureAlgorithms(out))
-- 
2.43.0


From c292954a49d56d58e097635c1a2d5e64f9e4550a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:18 +0000
Subject: [PATCH 46/84] fix: malformed ClientHellos panicked, and session ids
 of other than 32 bytes were read as 32 bytes

---
 anothertls/src/net/client/client_hello.rs | 26 +++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/anothertls/src/net/client/client_hello.rs b/anothertls/src/net/client/client_hello.rs
index ddb9232..acc0de6 100644
--- a/anothertls/src/net/client/client_hello.rs
+++ b/anothertls/src/net/client/client_hello.rs
@@ -83,21 +83,30 @@ impl<'a> ClientHello<'a> {
         }
 
         let random = buf[2..34].try_into().unwrap();
-        let session_id_length = buf[34];
+        let session_id_length = buf[34] as usize;
         let mut consumed = 35;
         let mut legacy_session_id_echo = None;
 
+        if session_id_length > 32 {
+            return Err(TlsError::DecodeError);
+        }
         if session_id_length != 0 {
-            consumed += 32;
-            legacy_session_id_echo = Some(&buf[35..(35 + 32)]);
+            consumed += session_id_length;
+            legacy_session_id_echo = Some(
+                buf.get(35..(35 + session_id_length))
+                    .ok_or(TlsError::DecodeError)?,
+            );
         }
 
         // Cipher Suites
+        if buf.len() < consumed + 2 {
+            return Err(TlsError::DecodeError);
+        }
         let cipher_suites_len = ((buf[consumed] as u16) << 8) | (buf[consumed + 1] as u16);
+        consumed += 2;
         if cipher_suites_len % 2 != 0 || buf.len() < (consumed + cipher_suites_len as usize) {
             return Err(TlsError::IllegalParameter);
         }
-        consumed += 2;
         let mut cipher_suites = vec![];
         log::debug!("Clients CipherSuites:");
         for i in (consumed..(consumed + cipher_suites_len as usize)).step_by(2) {
@@ -112,10 +121,19 @@ impl<'a> ClientHello<'a> {
 
         // Compression Methode
         // TLS 1.3 no longer allows compression
+        if buf.len() < consumed + 4 {
+            return Err(TlsError::DecodeError);
+        }
+        if buf[consumed..consumed + 2] != [0x01, 0x00] {
+            return Err(TlsError::IllegalParameter);
+        }
         consumed += 2;
 
         let extensions_len = ((buf[consumed] as usize) << 8) | (buf[consumed + 1] as usize);
         consumed += 2;
+        if buf.len() != consumed + extensions_len {
+            return Err(TlsError::DecodeError);
+        }
 
         let extensions =
             ClientExtension::from_client_hello(&buf[consumed..(consumed + extensions_len)])?;
-- 
2.43.0


From b738cd8f1177feac64d794023f6e9e52dcaf0a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:19 +0000
Subject: [PATCH 47/84] fix: the server used the first key share of the client
 also when it chose another one

---
 anothertls/src/net/client/client_hello.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/anothertls/src/net/client/client_hello.rs b/anothertls/src/net/client/client_hello.rs
index acc0de6..337299d 100644
--- a/anothertls/src/net/client/client_hello.rs
+++ b/anothertls/src/net/client/client_hello.rs
@@ -8,7 +8,7 @@ use crate::{
     crypto::CipherSuite,
     net::{
         alert::TlsError,
-        extensions::{ClientExtension, ClientExtensions, KeyShareEntry},
+        extensions::{ClientExtension, ClientExtensions, KeyShareEntry, NamedGroup},
     },
     utils::log,
 };
@@ -149,9 +149,9 @@ impl<'a> ClientHello<'a> {
     pub fn get_public_key_share(&self) -> Option<&KeyShareEntry> {
         for ext in self.extensions.as_vec().iter() {
             if let ClientExtension::KeyShare(key_share) = ext {
-                if !key_share.0.is_empty() {
-                    return Some(&key_share.0[0]);
-                }
+                // the server supports only this group
+                let mut entries = key_share.0.iter();
+                return entries.find(|kse| kse.group == NamedGroup::X25519);
             }
         }
         None
-- 
2.43.0


From ce20adfba248f1c096206bbca6d8e651d55f9dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:19 +0000
Subject: [PATCH 48/84] fix: malformed ServerHellos panicked, and session ids
 of other than 32 bytes were read as 32 bytes

---
 anothertls/src/net/server/server_hello.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/anothertls/src/net/server/server_hello.rs b/anothertls/src/net/server/server_hello.rs
index 581e7c4..f1591ed 100644
--- a/anothertls/src/net/server/server_hello.rs
+++ b/anothertls/src/net/server/server_hello.rs
@@ -37,22 +37,31 @@ impl<'a> ServerHello<'a> {
         }
 
         let random: [u8; 32] = buf[2..34].try_into().unwrap();
-        let session_id_length = buf[34];
+        let session_id_length = buf[34] as usize;
         let mut consumed = 35;
         let mut legacy_session_id_echo = None;
 
+        if session_id_length > 32 || buf.len() < 35 + session_id_length + 5 {
+            return Err(TlsError::DecodeError);
+        }
         if session_id_length != 0 {
-            consumed += 32;
-            legacy_session_id_echo = Some(&buf[35..(35 + 32)]);
+            consumed += session_id_length;
+            legacy_session_id_echo = Some(&buf[35..(35 + session_id_length)]);
         }
 
         let cipher_suite =
             CipherSuite::new(((buf[consumed] as u16) << 8) | (buf[consumed + 1] as u16))?;
 
+        if buf[consumed + 2] != 0x00 {
+            return Err(TlsError::IllegalParameter);
+        }
         consumed += 3; // CipherSuite + Compression Method
 
         let extensions_len = ((buf[consumed] as usize) << 8) | (buf[consumed + 1] as usize);
         consumed += 2;
+        if buf.len() != consumed + extensions_len {
+            return Err(TlsError::DecodeError);
+        }
 
         let extensions =
             ServerExtensions::from_server_hello(&buf[consumed..(consumed + extensions_len)])?;
-- 
2.43.0


From a262c0d127c137cc554259ec05867258a9778d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:20 +0000
Subject: [PATCH 49/84] fix: a P-256 key share made the server panic

---
 anothertls/src/net/server/server_hello.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/anothertls/src/net/server/server_hello.rs b/anothertls/src/net/server/server_hello.rs
index f1591ed..117e338 100644
--- a/anothertls/src/net/server/server_hello.rs
+++ b/anothertls/src/net/server/server_hello.rs
@@ -131,10 +131,7 @@ impl<'a> ServerHello<'a> {
                                 named_group = Some(NamedGroup::X25519);
                                 break;
                             }
-                            NamedGroup::Secp256r1 => {
-                                todo!("Add support for secp256 key exchange");
-                                // named_group = Some(NamedGroup::Secp256r1);
-                            }
+                            // TODO: Add support for secp256 key exchange
                             _ => {}
                         }
                     }
-- 
2.43.0


From 837ad9f9304868496492553f7f26392f27842a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:20 +0000
Subject: [PATCH 50/84] fix: clients that did not offer TLS 1.3 were answered
 with it

---
 anothertls/src/net/server/server_hello.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/anothertls/src/net/server/server_hello.rs b/anothertls/src/net/server/server_hello.rs
index 117e338..3be94cb 100644
--- a/anothertls/src/net/server/server_hello.rs
+++ b/anothertls/src/net/server/server_hello.rs
@@ -106,12 +106,15 @@ impl<'a> ServerHello<'a> {
         //     random[(32 - 8) + i] = *b;
         // }
 
+        let mut tls13_is_supported = false;
+
         for ext in client_hello.extensions.as_vec().iter() {
             match ext {
                 ClientExtension::SupportedVersion(version) => {
                     if !version.is_tls13_supported() {
                         return Err(TlsError::InsufficientSecurity);
                     }
+                    tls13_is_supported = true;
                 }
                 ClientExtension::KeyShare(key_share) => {
                     for key in key_share.0.iter() {
@@ -159,6 +162,10 @@ impl<'a> ServerHello<'a> {
             }
         }
 
+        if !tls13_is_supported {
+            return Err(TlsError::ProtocolVersion);
+        }
+
         if named_group.is_none() {
             log::error!("No supported group -> Hello Retry Request");
             return Err(TlsError::InsufficientSecurity);
-- 
2.43.0


From 565bc62f7f06416f9e7b09c9314a97da34e6ae03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:21 +0000
Subject: [PATCH 51/84] fix: the client did not check the session id the server
 echoes

---
 anothertls/src/net/client/connection.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/anothertls/src/net/client/connection.rs b/anothertls/src/net/client/connection.rs
index 6109c45..5eb44b1 100644
--- a/anothertls/src/net/client/connection.rs
+++ b/anothertls/src/net/client/connection.rs
@@ -62,6 +62,7 @@ pub struct ClientHandshake<'a> {
     server_cert: Option<Certificate>,
     client_hello_bytes: Option<Vec<u8>>,
     client_hello_random: Option<Vec<u8>>,
+    session_id: Option<Vec<u8>>,
 }
 
 impl<'a> ClientHandshake<'a> {
@@ -82,6 +83,7 @@ impl<'a> ClientHandshake<'a> {
             private_key,
             client_hello_bytes: None,
             client_hello_random: None,
+            session_id: None,
         }
     }
 
@@ -194,6 +196,7 @@ impl<'a> ClientHandshake<'a> {
             Handshake::to_bytes(HandshakeType::ClientHello, client_hello.as_bytes()?);
 
         self.client_hello_random = Some(random);
+        self.session_id = Some(session_id);
         self.client_hello_bytes = Some(handshake_raw);
 
         let record = Record::new(
@@ -252,6 +255,10 @@ impl<'a> ClientHandshake<'a> {
 
         let server_hello = ServerHello::from_raw(handshake.fraqment)?;
 
+        if server_hello.legacy_session_id_echo != self.session_id.as_deref() {
+            return Err(TlsError::IllegalParameter);
+        }
+
         let mut tshash = server_hello.cipher_suite.get_tshash()?;
 
         tshash.update(self.client_hello_bytes.as_ref().unwrap());
-- 
2.43.0


From 5c03f78a03c1ff648de576f6020487770d5c790e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:22 +0000
Subject: [PATCH 52/84] fix: the client took a HelloRetryRequest for a
 ServerHello

---
 anothertls/src/net/client/connection.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/anothertls/src/net/client/connection.rs b/anothertls/src/net/client/connection.rs
index 5eb44b1..f7bd438 100644
--- a/anothertls/src/net/client/connection.rs
+++ b/anothertls/src/net/client/connection.rs
@@ -4,7 +4,7 @@
  */
 
 use crate::crypto::ellipticcurve::{Curve, PrivateKey, Signature};
-use crate::hash::TranscriptHash;
+use crate::hash::{sha256, TranscriptHash};
 use crate::net::alert::TlsError;
 use crate::net::client::{ClientConfig, ClientHello};
 use crate::net::extensions::{
@@ -255,6 +255,11 @@ impl<'a> ClientHandshake<'a> {
 
         let server_hello = ServerHello::from_raw(handshake.fraqment)?;
 
+        // 4.1.3. the random of a HelloRetryRequest, which is not supported yet
+        if server_hello.random == sha256(b"HelloRetryRequest")[..] {
+            return Err(TlsError::HandshakeFailure);
+        }
+
         if server_hello.legacy_session_id_echo != self.session_id.as_deref() {
             return Err(TlsError::IllegalParameter);
         }
-- 
2.43.0


From 0fd9fe91ed883528b8fa945409bc77d198c02363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:05 +0000
Subject: [PATCH 53/84] fix: malformed Certificate messages panicked

---
 anothertls/src/net/handshake/certificate.rs | 35 ++++++++++++++-------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/anothertls/src/net/handshake/certificate.rs b/anothertls/src/net/handshake/certificate.rs
index e1f4966..11a90f6 100644
--- a/anothertls/src/net/handshake/certificate.rs
+++ b/anothertls/src/net/handshake/certificate.rs
@@ -52,13 +52,18 @@ impl Certificate {
 
     pub fn from_hello(buf: &[u8]) -> Result<Vec<Certificate>, TlsError> {
         let mut consumed = 1;
-        let cert_request_context_len = buf[0] as usize;
+        let cert_request_context_len = *buf.first().ok_or(TlsError::DecodeError)? as usize;
 
         consumed += cert_request_context_len;
 
-        let certs_len = bytes::to_u128_be_fill(&buf[consumed..consumed + 3]) as usize;
+        let certs_len = Certificate::get_bytes(buf, consumed, 3)?;
+        let certs_len = bytes::to_u128_be_fill(certs_len) as usize;
         consumed += 3;
 
+        if buf.len() != consumed + certs_len {
+            return Err(TlsError::DecodeError);
+        }
+
         if certs_len == 0 {
             log::debug!("Client send no certificate!");
             return Err(TlsError::CertificateRequired);
@@ -68,18 +73,25 @@ impl Certificate {
 
         let prev_len = consumed;
 
-        #[allow(clippy::never_loop)]
         while certs_len > (consumed - prev_len) {
-            let cert_len = bytes::to_u128_be_fill(&buf[consumed..consumed + 3]) as usize;
+            let cert_len =
+                bytes::to_u128_be_fill(Certificate::get_bytes(buf, consumed, 3)?) as usize;
             consumed += 3;
-            let cert = Certificate::from_raw_x509(buf[consumed..consumed + cert_len].to_vec())?;
+            let cert_raw = Certificate::get_bytes(buf, consumed, cert_len)?;
             consumed += cert_len;
-            let cert_ext_len = bytes::to_u16(&buf[consumed..consumed + 2]);
+            let cert_ext_len = bytes::to_u16(Certificate::get_bytes(buf, consumed, 2)?) as usize;
             consumed += 2;
             if cert_ext_len > 0 {
                 log::error!("Certificate has Extensions");
-                consumed += cert_ext_len as usize;
+                Certificate::get_bytes(buf, consumed, cert_ext_len)?;
+                consumed += cert_ext_len;
+            }
+
+            if !certs.is_empty() {
+                log::error!("More then one certificate. NOT YET IMPLEMENTED, so ignoring them!");
+                continue;
             }
+            let cert = Certificate::from_raw_x509(cert_raw.to_vec())?;
 
             if !cert
                 .x509
@@ -102,16 +114,15 @@ impl Certificate {
             log::debug!("   issuer: {issuer}");
 
             certs.push(cert);
-
-            if certs_len > (consumed - prev_len) {
-                log::error!("More then one certificate. NOT YET IMPLEMENTED, so ignoring them!");
-                break;
-            }
         }
 
         Ok(certs)
     }
 
+    fn get_bytes(buf: &[u8], start: usize, len: usize) -> Result<&[u8], TlsError> {
+        buf.get(start..start + len).ok_or(TlsError::DecodeError)
+    }
+
     pub fn get_certificate_request(&self, random: &[u8]) -> Vec<u8> {
         let mut extensions = ServerExtensions::new();
         let algs = SignatureAlgorithms::new(SignatureScheme::ecdsa_secp256r1_sha256);
-- 
2.43.0


From 2c36955cd6019ac56c26ce8b9c8ddbf314410b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:06 +0000
Subject: [PATCH 54/84] fix: short CertificateVerify messages panicked

---
 anothertls/src/net/client/connection.rs | 3 +++
 anothertls/src/net/server/connection.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/anothertls/src/net/client/connection.rs b/anothertls/src/net/client/connection.rs
index f7bd438..44da87d 100644
--- a/anothertls/src/net/client/connection.rs
+++ b/anothertls/src/net/client/connection.rs
@@ -413,6 +413,9 @@ impl<'a> ClientHandshake<'a> {
 
         log::debug!("--> ServerCertificateVerify");
 
+        if handshake.fraqment.len() < 4 {
+            return Err(TlsError::DecodeError);
+        }
         let algo = SignatureScheme::new(bytes::to_u16(&handshake.fraqment[0..2]))?;
 
         let mut consumed = 4; // algo and len
diff --git a/anothertls/src/net/server/connection.rs b/anothertls/src/net/server/connection.rs
index 119853c..321eb2d 100644
--- a/anothertls/src/net/server/connection.rs
+++ b/anothertls/src/net/server/connection.rs
@@ -394,6 +394,9 @@ impl<'a> ServerHandshake<'a> {
 
         log::debug!("--> ClientCertificateVerify");
 
+        if handshake.fraqment.len() < 4 {
+            return Err(TlsError::DecodeError);
+        }
         let algo = SignatureScheme::new(bytes::to_u16(&handshake.fraqment[0..2]))?;
 
         let mut consumed = 4; // algo and len
-- 
2.43.0


From 386f27ce1b63bc95d1f6f5f6157cdc5f9aeadc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:07 +0000
Subject: [PATCH 55/84] fix: a CertificateVerify with another signature scheme
 panicked

---
 anothertls/src/net/client/connection.rs | 3 ++-
 anothertls/src/net/server/connection.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/anothertls/src/net/client/connection.rs b/anothertls/src/net/client/connection.rs
index 44da87d..7c1fb7c 100644
--- a/anothertls/src/net/client/connection.rs
+++ b/anothertls/src/net/client/connection.rs
@@ -440,7 +440,8 @@ impl<'a> ClientHandshake<'a> {
                     return Ok(());
                 }
             }
-            e => todo!("SignatureScheme {e:?} for server cert not implemented yet"),
+            // this scheme was not offered
+            _ => return Err(TlsError::IllegalParameter),
         }
 
         self.tshash.as_mut().unwrap().update(handshake.as_bytes());
diff --git a/anothertls/src/net/server/connection.rs b/anothertls/src/net/server/connection.rs
index 321eb2d..0dc4e49 100644
--- a/anothertls/src/net/server/connection.rs
+++ b/anothertls/src/net/server/connection.rs
@@ -422,7 +422,8 @@ impl<'a> ServerHandshake<'a> {
                     return Ok(());
                 }
             }
-            e => todo!("SignatureScheme {e:?} for client cert not implemented yet"),
+            // this scheme was not offered
+            _ => return Err(TlsError::IllegalParameter),
         }
 
         let sign_len = bytes::to_u16(&handshake.fraqment[2..4]) as usize;
-- 
2.43.0


From 9b1907c73c272ac177f7efc2cc4077ba7050a47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:07 +0000
Subject: [PATCH 56/84] fix: bytes after the signature of a CertificateVerify
 were ignored

---
 anothertls/src/net/client/connection.rs | 2 +-
 anothertls/src/net/server/connection.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/anothertls/src/net/client/connection.rs b/anothertls/src/net/client/connection.rs
index 7c1fb7c..cdc7cb7 100644
--- a/anothertls/src/net/client/connection.rs
+++ b/anothertls/src/net/client/connection.rs
@@ -447,7 +447,7 @@ impl<'a> ClientHandshake<'a> {
         self.tshash.as_mut().unwrap().update(handshake.as_bytes());
 
         let sign_len = bytes::to_u16(&handshake.fraqment[2..4]) as usize;
-        if sign_len != consumed - 4 {
+        if sign_len != consumed - 4 || consumed != handshake.fraqment.len() {
             self.state = ClientHsState::FinishWithError(TlsError::BadCertificate);
             return Ok(());
         }
diff --git a/anothertls/src/net/server/connection.rs b/anothertls/src/net/server/connection.rs
index 0dc4e49..929abca 100644
--- a/anothertls/src/net/server/connection.rs
+++ b/anothertls/src/net/server/connection.rs
@@ -427,7 +427,7 @@ impl<'a> ServerHandshake<'a> {
         }
 
         let sign_len = bytes::to_u16(&handshake.fraqment[2..4]) as usize;
-        if sign_len != consumed - 4 {
+        if sign_len != consumed - 4 || consumed != handshake.fraqment.len() {
             self.state = ServerHsState::FinishWithError(TlsError::BadCertificate);
             return Ok(());
         }
-- 
2.43.0


From a48dfb769502c1306c5ce262cb02ca81b8806006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:08 +0000
Subject: [PATCH 57/84] fix: a client Certificate with a cut request context
 panicked

---
 anothertls/src/net/server/connection.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/anothertls/src/net/server/connection.rs b/anothertls/src/net/server/connection.rs
index 929abca..713f72e 100644
--- a/anothertls/src/net/server/connection.rs
+++ b/anothertls/src/net/server/connection.rs
@@ -341,8 +341,14 @@ impl<'a> ServerHandshake<'a> {
 
         log::debug!("--> ClientCertificate");
 
-        let cert_request_context_len = handshake.fraqment[0] as usize;
-        let cert_request_context = &handshake.fraqment[1..cert_request_context_len + 1];
+        let cert_request_context_len = match handshake.fraqment.first() {
+            Some(len) => *len as usize,
+            None => return Err(TlsError::DecodeError),
+        };
+        let cert_request_context = handshake
+            .fraqment
+            .get(1..cert_request_context_len + 1)
+            .ok_or(TlsError::DecodeError)?;
 
         if cert_request_context != self.certificate_request_context.as_ref().unwrap() {
             return Err(TlsError::HandshakeFailure);
-- 
2.43.0


From 71a22fa4c0b6f3b84cd61fcbdb01866b8721d8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:08 +0000
Subject: [PATCH 58/84] fix: a server Certificate with a request context was
 accepted

---
 anothertls/src/net/client/connection.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/anothertls/src/net/client/connection.rs b/anothertls/src/net/client/connection.rs
index cdc7cb7..0cbfe1f 100644
--- a/anothertls/src/net/client/connection.rs
+++ b/anothertls/src/net/client/connection.rs
@@ -365,6 +365,11 @@ impl<'a> ClientHandshake<'a> {
             return Err(TlsError::UnexpectedMessage);
         }
 
+        // 4.4.2. the context is empty in case of server authentication
+        if handshake.fraqment.first() != Some(&0) {
+            return Err(TlsError::IllegalParameter);
+        }
+
         log::debug!("--> ServerCertificate");
         self.tshash.as_mut().unwrap().update(handshake.as_bytes());
 
-- 
2.43.0


From c0bec7c203909653f53759a1a32d81318dc481fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:09 +0000
Subject: [PATCH 59/84] fix: the Certificate of a client without a certificate
 was malformed

---
 anothertls/src/net/client/connection.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anothertls/src/net/client/connection.rs b/anothertls/src/net/client/connection.rs
index 0cbfe1f..fc49980 100644
--- a/anothertls/src/net/client/connection.rs
+++ b/anothertls/src/net/client/connection.rs
@@ -538,8 +538,8 @@ impl<'a> ClientHandshake<'a> {
         if let Some(client_cert) = self.config.client_cert.as_ref() {
             response.extend_from_slice(&client_cert.get_certificate_for_handshake(vec![]));
         } else {
-            log::fixme!("Check if this works");
-            response.extend_from_slice(&[0x00, 0x00, 0x00, 0x02, 0x00, 0x00]);
+            // an empty list of certificates
+            response.extend_from_slice(&[0x00, 0x00, 0x00]);
         }
 
         let handshake_raw = Handshake::to_bytes(HandshakeType::Certificate, response);
-- 
2.43.0


From ad9fc0cb8f4f62694d8818562bd0d6b995bb950b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:09 +0000
Subject: [PATCH 60/84] fix: malformed CertificateRequests panicked or were
 ignored

---
 anothertls/src/net/client/connection.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/anothertls/src/net/client/connection.rs b/anothertls/src/net/client/connection.rs
index fc49980..e2542c2 100644
--- a/anothertls/src/net/client/connection.rs
+++ b/anothertls/src/net/client/connection.rs
@@ -521,8 +521,11 @@ impl<'a> ClientHandshake<'a> {
     pub fn handle_certificate_request(&mut self) -> Result<(), TlsError> {
         let request = self.certificate_request.as_ref().unwrap();
 
+        let context_len = *request.first().ok_or(TlsError::DecodeError)? as usize;
+        if request.len() < context_len + 3 {
+            return Err(TlsError::DecodeError);
+        }
         let mut response: Vec<u8> = vec![request[0]];
-        let context_len = request[0] as usize;
 
         let mut consumed = 1;
         if context_len > 0 {
@@ -532,8 +535,10 @@ impl<'a> ClientHandshake<'a> {
 
         let ext_len = bytes::to_u16(&request[consumed..]) as usize;
         consumed += 2;
-        let _extensions =
-            CertificateRequestExtensions::from_request(&request[consumed..consumed + ext_len]);
+        if request.len() != consumed + ext_len {
+            return Err(TlsError::DecodeError);
+        }
+        let _extensions = CertificateRequestExtensions::from_request(&request[consumed..])?;
 
         if let Some(client_cert) = self.config.client_cert.as_ref() {
             response.extend_from_slice(&client_cert.get_certificate_for_handshake(vec![]));
-- 
2.43.0


From c9e5126cddd18a1f534c93ac23ae333c14619984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:10 +0000
Subject: [PATCH 61/84] fix: a second CertificateRequest was accepted

---
 anothertls/src/net/client/connection.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/anothertls/src/net/client/connection.rs b/anothertls/src/net/client/connection.rs
index e2542c2..25c5b3f 100644
--- a/anothertls/src/net/client/connection.rs
+++ b/anothertls/src/net/client/connection.rs
@@ -326,7 +326,10 @@ impl<'a> ClientHandshake<'a> {
             match self.state {
                 ClientHsState::EncryptedExtensions => self.handle_encrypted_extension(handshake)?,
                 ClientHsState::ServerCertificate | ClientHsState::ClientCertificateRequest => {
-                    if handshake.handshake_type == HandshakeType::CertificateRequest {
+                    // at most one CertificateRequest, before the Certificate
+                    if handshake.handshake_type == HandshakeType::CertificateRequest
+                        && self.state == ClientHsState::ClientCertificateRequest
+                    {
                         log::debug!("--> CertificateRequest");
                         self.certificate_request = Some(handshake.fraqment.to_vec());
                         self.tshash.as_mut().unwrap().update(handshake.as_bytes());
-- 
2.43.0


From d5995f6b8abb98abcb654f0d2c5b2b3b962d5588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:10 +0000
Subject: [PATCH 62/84] fix: alerts of other than two bytes panicked or were
 read as alerts

---
 anothertls/src/net/client/connection.rs | 6 ++++++
 anothertls/src/net/server/connection.rs | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/anothertls/src/net/client/connection.rs b/anothertls/src/net/client/connection.rs
index 25c5b3f..ec36d41 100644
--- a/anothertls/src/net/client/connection.rs
+++ b/anothertls/src/net/client/connection.rs
@@ -218,6 +218,9 @@ impl<'a> ClientHandshake<'a> {
                 return Ok(());
             }
             RecordType::Alert => {
+                if record.fraqment.len() != 2 {
+                    return Err(TlsError::DecodeError);
+                }
                 let alert_code = record.fraqment.as_ref()[1];
                 let alert = TlsError::new(alert_code);
                 log::debug!("--> Alert {alert:?}");
@@ -312,6 +315,9 @@ impl<'a> ClientHandshake<'a> {
 
         if record.content_type != RecordType::Handshake {
             if record.content_type == RecordType::Alert {
+                if record.fraqment.len() != 2 {
+                    return Err(TlsError::DecodeError);
+                }
                 return Err(TlsError::GotAlert(record.fraqment.as_ref()[1]));
             }
             return Err(TlsError::UnexpectedMessage);
diff --git a/anothertls/src/net/server/connection.rs b/anothertls/src/net/server/connection.rs
index 713f72e..13f318d 100644
--- a/anothertls/src/net/server/connection.rs
+++ b/anothertls/src/net/server/connection.rs
@@ -132,6 +132,9 @@ impl<'a> ServerHandshake<'a> {
                 return Ok(());
             }
             RecordType::Alert => {
+                if record.fraqment.len() != 2 {
+                    return Err(TlsError::DecodeError);
+                }
                 let alert_code = record.fraqment.as_ref()[1];
                 let alert = TlsError::new(alert_code);
                 log::debug!("--> Alert {alert:?}");
@@ -305,6 +308,9 @@ impl<'a> ServerHandshake<'a> {
             || (self.config.client_cert_ca.is_some() && self.certificate_request_context.is_none())
         {
             if record.content_type == RecordType::Alert {
+                if record.fraqment.len() != 2 {
+                    return Err(TlsError::DecodeError);
+                }
                 return Err(TlsError::GotAlert(record.fraqment.as_ref()[1]));
             }
             return Err(TlsError::UnexpectedMessage);
-- 
2.43.0


From b77a17ce73a82753465507be025361f8cc866150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:11 +0000
Subject: [PATCH 63/84] fix: change_cipher_spec records with other contents
 were accepted

---
 anothertls/src/net/client/connection.rs | 3 +++
 anothertls/src/net/server/connection.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/anothertls/src/net/client/connection.rs b/anothertls/src/net/client/connection.rs
index ec36d41..f597714 100644
--- a/anothertls/src/net/client/connection.rs
+++ b/anothertls/src/net/client/connection.rs
@@ -212,6 +212,9 @@ impl<'a> ClientHandshake<'a> {
         match record.content_type {
             RecordType::ChangeCipherSpec => {
                 log::debug!("--> ChangeCipherSpec");
+                if record.fraqment.as_ref() != [0x01] {
+                    return Err(TlsError::UnexpectedMessage);
+                }
                 if self.state == ClientHsState::ServerHello {
                     return Err(TlsError::UnexpectedMessage);
                 }
diff --git a/anothertls/src/net/server/connection.rs b/anothertls/src/net/server/connection.rs
index 13f318d..15359a8 100644
--- a/anothertls/src/net/server/connection.rs
+++ b/anothertls/src/net/server/connection.rs
@@ -126,6 +126,9 @@ impl<'a> ServerHandshake<'a> {
         match record.content_type {
             RecordType::ChangeCipherSpec => {
                 log::debug!("--> ChangeCipherSpec");
+                if record.fraqment.as_ref() != [0x01] {
+                    return Err(TlsError::UnexpectedMessage);
+                }
                 if self.state == ServerHsState::ClientHello {
                     return Err(TlsError::UnexpectedMessage);
                 }
-- 
2.43.0


From 0be4e83f7fbcc8a04a17a2fc4e4ed6eeb7ba86ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:09 +0000
Subject: [PATCH 64/84] fix: records split over or sharing TCP segments with
 others ended the handshake or were lost

---
 anothertls/src/net/client/connection.rs | 40 ++-----------------------
 anothertls/src/net/server/connection.rs | 12 ++------
 anothertls/src/net/stream.rs            | 34 ++++++++++++++-------
 3 files changed, 29 insertions(+), 57 deletions(-)

diff --git a/anothertls/src/net/client/connection.rs b/anothertls/src/net/client/connection.rs
index f597714..28c4502 100644
--- a/anothertls/src/net/client/connection.rs
+++ b/anothertls/src/net/client/connection.rs
@@ -104,44 +104,10 @@ impl<'a> ClientHandshake<'a> {
         self.send_client_hello()?;
         log::debug!("<-- ClientHello");
 
-        let mut defragmented = Vec::with_capacity(2048);
-        let mut rxbuf = [0; 2048];
-
         while self.state != ClientHsState::Ready {
-            let n = self.stream.tcp_read(&mut rxbuf)?;
-
-            if n == 0 {
-                log::error!("Got empty tcp");
-                return Err(TlsError::BrokenPipe);
-            }
-
-            let mut offset = 0;
-
-            if !defragmented.is_empty() {
-                defragmented.extend_from_slice(&rxbuf[..n]);
-            }
-
-            while offset < n || !defragmented.is_empty() {
-                let record_buf = if defragmented.is_empty() {
-                    &rxbuf[offset..n]
-                } else {
-                    &defragmented[offset..]
-                };
-
-                if let Ok((consumed, record)) = Record::from_raw(record_buf) {
-                    self.handle_handshake_record(record)?;
-                    offset += consumed;
-                    if offset == defragmented.len() {
-                        defragmented.clear();
-                        break;
-                    }
-                } else {
-                    if defragmented.is_empty() {
-                        defragmented.extend_from_slice(&rxbuf[offset..n]);
-                    }
-                    break;
-                }
-            }
+            let record_raw = self.stream.read_record()?;
+            let (_consumed, record) = Record::from_raw(&record_raw)?;
+            self.handle_handshake_record(record)?;
 
             // send server handshake records to the client
             self.stream.flush()?;
diff --git a/anothertls/src/net/server/connection.rs b/anothertls/src/net/server/connection.rs
index 15359a8..88c5d00 100644
--- a/anothertls/src/net/server/connection.rs
+++ b/anothertls/src/net/server/connection.rs
@@ -106,16 +106,10 @@ impl<'a> ServerHandshake<'a> {
     }
 
     fn do_handshake(&mut self) -> Result<(), TlsError> {
-        let mut rx_buf: [u8; 4096] = [0; 4096];
-
         while self.state != ServerHsState::Ready {
-            let n = self.stream.tcp_read(&mut rx_buf)?;
-            let mut consumed_total = 0;
-            while consumed_total < n {
-                let (consumed, record) = Record::from_raw(&rx_buf[consumed_total..n])?;
-                consumed_total += consumed;
-                self.handle_handshake_record(record)?;
-            }
+            let record_raw = self.stream.read_record()?;
+            let (_consumed, record) = Record::from_raw(&record_raw)?;
+            self.handle_handshake_record(record)?;
             // send server handshake records to the client
             self.stream.flush()?;
         }
diff --git a/anothertls/src/net/stream.rs b/anothertls/src/net/stream.rs
index 1e126f7..8055530 100644
--- a/anothertls/src/net/stream.rs
+++ b/anothertls/src/net/stream.rs
@@ -5,7 +5,7 @@
 
 use crate::net::alert::{AlertLevel, TlsError};
 use crate::net::record::{Record, RecordPayloadProtection, RecordType, Value};
-use crate::utils::log;
+use crate::utils::{bytes, log};
 
 use core::result::Result;
 use std::io::{Read, Write};
@@ -15,6 +15,8 @@ pub struct TlsStream {
     stream: TcpStream,
     pub protection: Option<RecordPayloadProtection>,
     buffer: Vec<u8>,
+    /// Received bytes not yet handled
+    rx_buffer: Vec<u8>,
 }
 
 impl TlsStream {
@@ -23,6 +25,7 @@ impl TlsStream {
             stream,
             protection: None,
             buffer: Vec::with_capacity(2048),
+            rx_buffer: Vec::with_capacity(2048),
         }
     }
 
@@ -74,6 +77,23 @@ impl TlsStream {
         }
     }
 
+    /// Read exactly one TLS record (with its header) from the TCP socket. It can arrive in
+    /// several parts, and what follows it is kept for the next call.
+    pub fn read_record(&mut self) -> Result<Vec<u8>, TlsError> {
+        loop {
+            if self.rx_buffer.len() >= 5 {
+                RecordType::new(self.rx_buffer[0])?;
+                let len = 5 + bytes::to_u16(&self.rx_buffer[3..5]) as usize;
+                if self.rx_buffer.len() >= len {
+                    return Ok(self.rx_buffer.drain(..len).collect());
+                }
+            }
+            let mut buf: [u8; 4096] = [0; 4096];
+            let n = self.tcp_read(&mut buf)?;
+            self.rx_buffer.extend_from_slice(&buf[..n]);
+        }
+    }
+
     /// Write an TLS Alert message
     pub fn write_alert(&mut self, err: TlsError) -> Result<(), TlsError> {
         let data = vec![AlertLevel::get_from_error(err) as u8, err.as_u8()];
@@ -95,19 +115,11 @@ impl TlsStream {
 
     /// Read from the TLS stream.
     pub fn tls_read<'b>(&'b mut self, buf: &'b mut [u8]) -> Result<usize, TlsError> {
-        let mut rx_buf: [u8; 4096] = [0; 4096];
-
-        let n = self.tcp_read(&mut rx_buf)?;
-
-        let (_consumed, mut record) = Record::from_raw(&rx_buf[..n])?;
+        let record_raw = self.read_record()?;
+        let (_consumed, mut record) = Record::from_raw(&record_raw)?;
 
         log::debug!("--> EncryptedData");
 
-        if record.len != record.fraqment.len() {
-            // create internal buffer to store the decrypted TLS packages
-            todo!("Problem, when multiple TLS packages in one TCP package");
-        }
-
         if let Some(protection) = self.protection.as_mut() {
             let (typ, data) = protection.decrypt(record)?;
             record = Record::new(typ, Value::Owned(data));
-- 
2.43.0


From 12030a203ddcd86d175f2372e75b23284ab0445d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:09 +0000
Subject: [PATCH 65/84] fix: reading a record into a smaller buffer panicked

---
 anothertls/src/net/stream.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/anothertls/src/net/stream.rs b/anothertls/src/net/stream.rs
index 8055530..b2b2959 100644
--- a/anothertls/src/net/stream.rs
+++ b/anothertls/src/net/stream.rs
@@ -17,6 +17,8 @@ pub struct TlsStream {
     buffer: Vec<u8>,
     /// Received bytes not yet handled
     rx_buffer: Vec<u8>,
+    /// Received data that did not fit into the buffer of the reader
+    plaintext: Vec<u8>,
 }
 
 impl TlsStream {
@@ -26,6 +28,7 @@ impl TlsStream {
             protection: None,
             buffer: Vec::with_capacity(2048),
             rx_buffer: Vec::with_capacity(2048),
+            plaintext: vec![],
         }
     }
 
@@ -115,6 +118,10 @@ impl TlsStream {
 
     /// Read from the TLS stream.
     pub fn tls_read<'b>(&'b mut self, buf: &'b mut [u8]) -> Result<usize, TlsError> {
+        if !self.plaintext.is_empty() {
+            return Ok(self.take_plaintext(buf));
+        }
+
         let record_raw = self.read_record()?;
         let (_consumed, mut record) = Record::from_raw(&record_raw)?;
 
@@ -131,15 +138,16 @@ impl TlsStream {
             return Err(TlsError::UnexpectedMessage);
         }
 
-        if record.len > buf.len() {
-            todo!("Handle records bigger than the buf.len()");
-        }
+        self.plaintext.extend_from_slice(record.fraqment.as_ref());
+        Ok(self.take_plaintext(buf))
+    }
 
-        for (i, b) in record.fraqment.as_ref().iter().enumerate() {
-            buf[i] = *b;
+    fn take_plaintext(&mut self, buf: &mut [u8]) -> usize {
+        let n = buf.len().min(self.plaintext.len());
+        for (i, b) in self.plaintext.drain(..n).enumerate() {
+            buf[i] = b;
         }
-
-        Ok(record.fraqment.len())
+        n
     }
 
     /// Write to the TLS stream.
-- 
2.43.0


From 182fabce1337af223acdcffc9b4d8dfa22de741a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:10 +0000
Subject: [PATCH 66/84] fix: alerts on an established connection were reported
 as unexpected messages

---
 anothertls/src/net/stream.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/anothertls/src/net/stream.rs b/anothertls/src/net/stream.rs
index b2b2959..8dfa4a8 100644
--- a/anothertls/src/net/stream.rs
+++ b/anothertls/src/net/stream.rs
@@ -130,6 +130,12 @@ impl TlsStream {
         if let Some(protection) = self.protection.as_mut() {
             let (typ, data) = protection.decrypt(record)?;
             record = Record::new(typ, Value::Owned(data));
+            if record.content_type == RecordType::Alert {
+                if record.fraqment.len() != 2 {
+                    return Err(TlsError::DecodeError);
+                }
+                return Err(TlsError::new(record.fraqment.as_ref()[1]));
+            }
             if record.content_type != RecordType::ApplicationData {
                 log::error!("Not yet implemented: Handle handshake messages");
                 return Err(TlsError::UnexpectedMessage);
-- 
2.43.0


From 6f742c5f36d8988c378bab6afa636977f64a0364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:10 +0000
Subject: [PATCH 67/84] fix: writes and handshake messages over 16 KiB were
 sent in one record, with a wrong length over 64 KiB

---
 anothertls/src/net/stream.rs | 40 +++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/anothertls/src/net/stream.rs b/anothertls/src/net/stream.rs
index 8dfa4a8..447a120 100644
--- a/anothertls/src/net/stream.rs
+++ b/anothertls/src/net/stream.rs
@@ -36,20 +36,28 @@ impl TlsStream {
     /// This is useful in the handshake process, where multiple
     /// TLS records are send to the client.
     pub fn write_record(&mut self, typ: RecordType, data: &[u8]) -> Result<(), TlsError> {
-        let record = Record::new(typ, Value::Ref(data));
+        let mut rest = data;
+        loop {
+            // 5.1. The length of a record MUST NOT exceed 2^14 bytes
+            let (fragment, next) = rest.split_at(rest.len().min(1 << 14));
+            let record = Record::new(typ, Value::Ref(fragment));
+
+            if let Some(protect) = self.protection.as_mut() {
+                self.buffer.append(&mut protect.encrypt(record)?);
+            } else {
+                self.buffer.append(&mut record.as_bytes());
+            }
 
-        if let Some(protect) = self.protection.as_mut() {
-            self.buffer.append(&mut protect.encrypt(record)?);
-        } else {
-            self.buffer.append(&mut record.as_bytes());
-        }
+            // TODO: Find a smart value
+            if self.buffer.len() >= 2048 {
+                self.flush()?;
+            }
 
-        // TODO: Find a smart value
-        if self.buffer.len() >= 2048 {
-            self.flush()?;
+            rest = next;
+            if rest.is_empty() {
+                return Ok(());
+            }
         }
-
-        Ok(())
     }
 
     pub fn flush(&mut self) -> Result<(), TlsError> {
@@ -164,15 +172,9 @@ impl TlsStream {
             return Err(TlsError::InternalError);
         }
 
-        let record = Record::new(RecordType::ApplicationData, Value::Ref(src));
-        let record = self.protection.as_mut().unwrap().encrypt(record)?;
-
         log::debug!("<-- EncryptedData");
-        if self.stream.write_all(&record).is_err() {
-            return Err(TlsError::BrokenPipe);
-        };
-
-        Ok(())
+        self.write_record(RecordType::ApplicationData, src)?;
+        self.flush()
     }
 }
 
-- 
2.43.0


From 5bcdcfa5db45a23dbb6ea557022b8ba0898de4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:11 +0000
Subject: [PATCH 68/84] fix: a ClientHello could be sent in part, or in a
 record over the size limit

---
 anothertls/src/net/client/connection.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/anothertls/src/net/client/connection.rs b/anothertls/src/net/client/connection.rs
index 28c4502..e6b51dd 100644
--- a/anothertls/src/net/client/connection.rs
+++ b/anothertls/src/net/client/connection.rs
@@ -14,7 +14,7 @@ use crate::net::extensions::{
 use crate::net::handshake::{
     get_finished_handshake, get_verify_data_for_finished, Certificate, Handshake, HandshakeType,
 };
-use crate::net::record::{Record, RecordPayloadProtection, RecordType, Value};
+use crate::net::record::{Record, RecordPayloadProtection, RecordType};
 use crate::net::server::ServerHello;
 use crate::net::{KeySchedule, TlsStream};
 use crate::rand::{RngCore, URandomRng};
@@ -165,13 +165,11 @@ impl<'a> ClientHandshake<'a> {
         self.session_id = Some(session_id);
         self.client_hello_bytes = Some(handshake_raw);
 
-        let record = Record::new(
+        self.stream.write_record(
             RecordType::Handshake,
-            Value::Ref(self.client_hello_bytes.as_ref().unwrap()),
-        );
-
-        self.stream.tcp_write(&record.as_bytes())?;
-        Ok(())
+            self.client_hello_bytes.as_ref().unwrap(),
+        )?;
+        self.stream.flush()
     }
 
     fn handle_handshake_record(&mut self, record: Record) -> Result<(), TlsError> {
-- 
2.43.0


From 10cf73081a754dd715ed60b7ad48d3e0a4343ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:11 +0000
Subject: [PATCH 69/84] fix: an alert could overtake records written before it

---
 anothertls/src/net/stream.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/anothertls/src/net/stream.rs b/anothertls/src/net/stream.rs
index 447a120..769ba4e 100644
--- a/anothertls/src/net/stream.rs
+++ b/anothertls/src/net/stream.rs
@@ -117,11 +117,9 @@ impl TlsStream {
             record.as_bytes()
         };
 
-        if self.stream.write_all(&record_raw).is_err() {
-            return Err(TlsError::BrokenPipe);
-        };
-
-        Ok(())
+        // records still in the buffer come first
+        self.buffer.extend_from_slice(&record_raw);
+        self.flush()
     }
 
     /// Read from the TLS stream.
-- 
2.43.0


From 067e4263c85f2fa74819a20d5a3b7acbfb4bc30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:26 +0000
Subject: [PATCH 70/84] fix: handshake messages split over records, or sharing
 one, ended the handshake or were cut

---
 anothertls/src/net/client/connection.rs | 35 +++++++++----
 anothertls/src/net/server/connection.rs | 70 +++++++++++++++----------
 anothertls/src/net/stream.rs            | 37 +++++++++++++
 3 files changed, 104 insertions(+), 38 deletions(-)

diff --git a/anothertls/src/net/client/connection.rs b/anothertls/src/net/client/connection.rs
index e6b51dd..fcd1ca2 100644
--- a/anothertls/src/net/client/connection.rs
+++ b/anothertls/src/net/client/connection.rs
@@ -173,6 +173,12 @@ impl<'a> ClientHandshake<'a> {
     }
 
     fn handle_handshake_record(&mut self, record: Record) -> Result<(), TlsError> {
+        // 5.1. There MUST NOT be any other records between the parts of a handshake message
+        if !self.stream.is_handshake_empty()
+            && record.content_type == RecordType::ChangeCipherSpec
+        {
+            return Err(TlsError::UnexpectedMessage);
+        }
         match record.content_type {
             RecordType::ChangeCipherSpec => {
                 log::debug!("--> ChangeCipherSpec");
@@ -201,7 +207,14 @@ impl<'a> ClientHandshake<'a> {
                     if record.content_type != RecordType::Handshake {
                         return Err(TlsError::UnexpectedMessage);
                     }
-                    self.handle_server_hello(record)?;
+                    self.stream.push_handshake(record.fraqment.as_ref())?;
+                    if let Some(message) = self.stream.pop_handshake()? {
+                        // 5.1. Handshake messages MUST NOT span key changes
+                        if !self.stream.is_handshake_empty() {
+                            return Err(TlsError::UnexpectedMessage);
+                        }
+                        self.handle_server_hello(Handshake::from_raw(&message)?)?;
+                    }
                 }
                 ClientHsState::EncryptedExtensions
                 | ClientHsState::ClientCertificateRequest
@@ -216,9 +229,7 @@ impl<'a> ClientHandshake<'a> {
         }
         Ok(())
     }
-    pub fn handle_server_hello(&mut self, record: Record) -> Result<(), TlsError> {
-        let handshake = Handshake::from_raw(record.fraqment.as_ref())?;
-
+    pub fn handle_server_hello(&mut self, handshake: Handshake) -> Result<(), TlsError> {
         if handshake.handshake_type != HandshakeType::ServerHello {
             return Err(TlsError::UnexpectedMessage);
         }
@@ -239,7 +250,7 @@ impl<'a> ClientHandshake<'a> {
         tshash.update(self.client_hello_bytes.as_ref().unwrap());
 
         log::debug!("--> ServerHello");
-        tshash.update(record.fraqment.as_ref());
+        tshash.update(handshake.as_bytes());
 
         let key_share_entry = match server_hello.get_public_key_share() {
             Some(kse) => kse,
@@ -290,11 +301,17 @@ impl<'a> ClientHandshake<'a> {
             return Err(TlsError::UnexpectedMessage);
         }
 
-        let mut consumed = 0;
+        self.stream.push_handshake(record.fraqment.as_ref())?;
+
+        while let Some(message) = self.stream.pop_handshake()? {
+            let handshake = Handshake::from_raw(&message)?;
 
-        while consumed < record.fraqment.len() {
-            let handshake = Handshake::from_raw(&record.fraqment.as_ref()[consumed..])?;
-            consumed += handshake.as_bytes().len();
+            // 5.1. Handshake messages MUST NOT span key changes
+            if handshake.handshake_type == HandshakeType::Finished
+                && !self.stream.is_handshake_empty()
+            {
+                return Err(TlsError::UnexpectedMessage);
+            }
 
             match self.state {
                 ClientHsState::EncryptedExtensions => self.handle_encrypted_extension(handshake)?,
diff --git a/anothertls/src/net/server/connection.rs b/anothertls/src/net/server/connection.rs
index 88c5d00..b40a2f7 100644
--- a/anothertls/src/net/server/connection.rs
+++ b/anothertls/src/net/server/connection.rs
@@ -117,6 +117,12 @@ impl<'a> ServerHandshake<'a> {
     }
 
     fn handle_handshake_record(&mut self, record: Record) -> Result<(), TlsError> {
+        // 5.1. There MUST NOT be any other records between the parts of a handshake message
+        if !self.stream.is_handshake_empty()
+            && record.content_type == RecordType::ChangeCipherSpec
+        {
+            return Err(TlsError::UnexpectedMessage);
+        }
         match record.content_type {
             RecordType::ChangeCipherSpec => {
                 log::debug!("--> ChangeCipherSpec");
@@ -145,7 +151,14 @@ impl<'a> ServerHandshake<'a> {
                     if record.content_type != RecordType::Handshake {
                         return Err(TlsError::UnexpectedMessage);
                     }
-                    self.handle_client_hello(record)?;
+                    self.stream.push_handshake(record.fraqment.as_ref())?;
+                    if let Some(message) = self.stream.pop_handshake()? {
+                        // 5.1. Handshake messages MUST NOT span key changes
+                        if !self.stream.is_handshake_empty() {
+                            return Err(TlsError::UnexpectedMessage);
+                        }
+                        self.handle_client_hello(Handshake::from_raw(&message)?)?;
+                    }
                 }
                 ServerHsState::ClientCertificate
                 | ServerHsState::ClientCertificateVerify
@@ -158,9 +171,7 @@ impl<'a> ServerHandshake<'a> {
         }
         Ok(())
     }
-    fn handle_client_hello(&mut self, record: Record) -> Result<(), TlsError> {
-        let handshake = Handshake::from_raw(record.fraqment.as_ref())?;
-
+    fn handle_client_hello(&mut self, handshake: Handshake) -> Result<(), TlsError> {
         if handshake.handshake_type != HandshakeType::ClientHello {
             return Err(TlsError::UnexpectedMessage);
         }
@@ -173,7 +184,7 @@ impl<'a> ServerHandshake<'a> {
 
         let mut tshash = server_hello.cipher_suite.get_tshash()?;
         // Add ClientHello
-        tshash.update(record.fraqment.as_ref());
+        tshash.update(handshake.as_bytes());
 
         // -- ServerHello --
         let handshake_raw =
@@ -313,22 +324,33 @@ impl<'a> ServerHandshake<'a> {
             return Err(TlsError::UnexpectedMessage);
         }
 
-        match self.state {
-            ServerHsState::ClientCertificate => self.handle_client_certificate(record)?,
-            ServerHsState::ClientCertificateVerify => {
-                self.handle_client_certificate_verify(record)?
+        self.stream.push_handshake(record.fraqment.as_ref())?;
+
+        while let Some(message) = self.stream.pop_handshake()? {
+            let handshake = Handshake::from_raw(&message)?;
+
+            // 5.1. Handshake messages MUST NOT span key changes
+            if handshake.handshake_type == HandshakeType::Finished
+                && !self.stream.is_handshake_empty()
+            {
+                return Err(TlsError::UnexpectedMessage);
             }
-            ServerHsState::ClientFinished | ServerHsState::FinishWithError(_) => {
-                self.handle_client_finish(record)?
+
+            match self.state {
+                ServerHsState::ClientCertificate => self.handle_client_certificate(handshake)?,
+                ServerHsState::ClientCertificateVerify => {
+                    self.handle_client_certificate_verify(handshake)?
+                }
+                ServerHsState::ClientFinished | ServerHsState::FinishWithError(_) => {
+                    self.handle_client_finish(handshake)?
+                }
+                _ => (),
             }
-            _ => (),
         }
         Ok(())
     }
 
-    pub fn handle_client_certificate(&mut self, record: Record) -> Result<(), TlsError> {
-        let handshake = Handshake::from_raw(record.fraqment.as_ref())?;
-
+    pub fn handle_client_certificate(&mut self, handshake: Handshake) -> Result<(), TlsError> {
         if handshake.handshake_type != HandshakeType::Certificate
             || self.config.client_cert_ca.is_none()
         {
@@ -337,10 +359,7 @@ impl<'a> ServerHandshake<'a> {
 
         self.tshash_clienthello_serverfinished = Some((*self.tshash.as_ref().unwrap()).clone());
 
-        self.tshash
-            .as_mut()
-            .unwrap()
-            .update(record.fraqment.as_ref());
+        self.tshash.as_mut().unwrap().update(handshake.as_bytes());
 
         log::debug!("--> ClientCertificate");
 
@@ -392,9 +411,7 @@ impl<'a> ServerHandshake<'a> {
         Ok(())
     }
 
-    pub fn handle_client_certificate_verify(&mut self, record: Record) -> Result<(), TlsError> {
-        let handshake = Handshake::from_raw(record.fraqment.as_ref())?;
-
+    pub fn handle_client_certificate_verify(&mut self, handshake: Handshake) -> Result<(), TlsError> {
         if handshake.handshake_type != HandshakeType::CertificateVerify
             || self.client_cert.is_none()
         {
@@ -441,17 +458,12 @@ impl<'a> ServerHandshake<'a> {
             return Ok(());
         }
 
-        self.tshash
-            .as_mut()
-            .unwrap()
-            .update(record.fraqment.as_ref());
+        self.tshash.as_mut().unwrap().update(handshake.as_bytes());
 
         self.state = ServerHsState::ClientFinished;
         Ok(())
     }
-    pub fn handle_client_finish(&mut self, record: Record) -> Result<(), TlsError> {
-        let handshake = Handshake::from_raw(record.fraqment.as_ref())?;
-
+    pub fn handle_client_finish(&mut self, handshake: Handshake) -> Result<(), TlsError> {
         if handshake.handshake_type != HandshakeType::Finished {
             if let ServerHsState::FinishWithError(_) = self.state {
                 // When error in Certificate, then CertificateVerify will follow
diff --git a/anothertls/src/net/stream.rs b/anothertls/src/net/stream.rs
index 769ba4e..9eb7f76 100644
--- a/anothertls/src/net/stream.rs
+++ b/anothertls/src/net/stream.rs
@@ -11,6 +11,9 @@ use core::result::Result;
 use std::io::{Read, Write};
 use std::net::TcpStream;
 
+/// Longer handshake messages are refused
+const MAX_HANDSHAKE_LEN: usize = 1 << 17;
+
 pub struct TlsStream {
     stream: TcpStream,
     pub protection: Option<RecordPayloadProtection>,
@@ -19,6 +22,8 @@ pub struct TlsStream {
     rx_buffer: Vec<u8>,
     /// Received data that did not fit into the buffer of the reader
     plaintext: Vec<u8>,
+    /// Received parts of handshake messages
+    handshake: Vec<u8>,
 }
 
 impl TlsStream {
@@ -29,6 +34,7 @@ impl TlsStream {
             buffer: Vec::with_capacity(2048),
             rx_buffer: Vec::with_capacity(2048),
             plaintext: vec![],
+            handshake: vec![],
         }
     }
 
@@ -105,6 +111,37 @@ impl TlsStream {
         }
     }
 
+    /// Add the content of a handshake record
+    pub fn push_handshake(&mut self, fragment: &[u8]) -> Result<(), TlsError> {
+        // 5.1. Zero-length fragments of Handshake types MUST NOT be sent
+        if fragment.is_empty() {
+            return Err(TlsError::UnexpectedMessage);
+        }
+        self.handshake.extend_from_slice(fragment);
+        Ok(())
+    }
+
+    /// The next complete handshake message. Messages can be split over several records, and a
+    /// record can hold several messages.
+    pub fn pop_handshake(&mut self) -> Result<Option<Vec<u8>>, TlsError> {
+        if self.handshake.len() < 4 {
+            return Ok(None);
+        }
+        let len = 4 + bytes::to_u128_be_fill(&self.handshake[1..4]) as usize;
+        if len > MAX_HANDSHAKE_LEN {
+            return Err(TlsError::DecodeError);
+        }
+        if self.handshake.len() < len {
+            return Ok(None);
+        }
+        Ok(Some(self.handshake.drain(..len).collect()))
+    }
+
+    /// No part of a handshake message is waiting for the rest or to be handled
+    pub fn is_handshake_empty(&self) -> bool {
+        self.handshake.is_empty()
+    }
+
     /// Write an TLS Alert message
     pub fn write_alert(&mut self, err: TlsError) -> Result<(), TlsError> {
         let data = vec![AlertLevel::get_from_error(err) as u8, err.as_u8()];
-- 
2.43.0


From 94b8fc3dc17a5b7420f2c2422198e38aea7dac97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:26 +0000
Subject: [PATCH 71/84] fix: the client refused a change_cipher_spec record
 before the ServerHello

---
 anothertls/src/net/client/connection.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/anothertls/src/net/client/connection.rs b/anothertls/src/net/client/connection.rs
index fcd1ca2..620b78e 100644
--- a/anothertls/src/net/client/connection.rs
+++ b/anothertls/src/net/client/connection.rs
@@ -185,9 +185,7 @@ impl<'a> ClientHandshake<'a> {
                 if record.fraqment.as_ref() != [0x01] {
                     return Err(TlsError::UnexpectedMessage);
                 }
-                if self.state == ClientHsState::ServerHello {
-                    return Err(TlsError::UnexpectedMessage);
-                }
+                // 5. it can arrive at any time after the ClientHello was sent
                 return Ok(());
             }
             RecordType::Alert => {
-- 
2.43.0


From 8e8ca74eea5e6ff36c329b59a84ff358d110cd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:27 +0000
Subject: [PATCH 72/84] fix: session tickets of the server made reading fail

---
 anothertls/src/net/stream.rs | 61 ++++++++++++++++++++++++++----------
 1 file changed, 44 insertions(+), 17 deletions(-)

diff --git a/anothertls/src/net/stream.rs b/anothertls/src/net/stream.rs
index 9eb7f76..cdab84b 100644
--- a/anothertls/src/net/stream.rs
+++ b/anothertls/src/net/stream.rs
@@ -4,6 +4,7 @@
  */
 
 use crate::net::alert::{AlertLevel, TlsError};
+use crate::net::handshake::{Handshake, HandshakeType};
 use crate::net::record::{Record, RecordPayloadProtection, RecordType, Value};
 use crate::utils::{bytes, log};
 
@@ -165,30 +166,56 @@ impl TlsStream {
             return Ok(self.take_plaintext(buf));
         }
 
-        let record_raw = self.read_record()?;
-        let (_consumed, mut record) = Record::from_raw(&record_raw)?;
-
-        log::debug!("--> EncryptedData");
+        self.read_plaintext()?;
+        Ok(self.take_plaintext(buf))
+    }
 
-        if let Some(protection) = self.protection.as_mut() {
-            let (typ, data) = protection.decrypt(record)?;
-            record = Record::new(typ, Value::Owned(data));
-            if record.content_type == RecordType::Alert {
-                if record.fraqment.len() != 2 {
-                    return Err(TlsError::DecodeError);
+    fn read_plaintext(&mut self) -> Result<(), TlsError> {
+        loop {
+            let record_raw = self.read_record()?;
+            let (_consumed, mut record) = Record::from_raw(&record_raw)?;
+
+            log::debug!("--> EncryptedData");
+
+            if let Some(protection) = self.protection.as_mut() {
+                let is_client = protection.is_client;
+                let (typ, data) = protection.decrypt(record)?;
+                record = Record::new(typ, Value::Owned(data));
+                if record.content_type == RecordType::Alert {
+                    if record.fraqment.len() != 2 {
+                        return Err(TlsError::DecodeError);
+                    }
+                    return Err(TlsError::new(record.fraqment.as_ref()[1]));
                 }
-                return Err(TlsError::new(record.fraqment.as_ref()[1]));
+                if record.content_type == RecordType::Handshake && is_client {
+                    self.handle_post_handshake(record.fraqment.as_ref())?;
+                    continue;
+                }
+                if record.content_type != RecordType::ApplicationData || !self.is_handshake_empty()
+                {
+                    log::error!("Not yet implemented: Handle handshake messages");
+                    return Err(TlsError::UnexpectedMessage);
+                }
+            } else if record.content_type != RecordType::Handshake {
+                return Err(TlsError::UnexpectedMessage);
             }
-            if record.content_type != RecordType::ApplicationData {
+
+            self.plaintext.extend_from_slice(record.fraqment.as_ref());
+            return Ok(());
+        }
+    }
+
+    /// Session resumption is not supported, so tickets of the server are ignored.
+    fn handle_post_handshake(&mut self, fragment: &[u8]) -> Result<(), TlsError> {
+        self.push_handshake(fragment)?;
+        while let Some(message) = self.pop_handshake()? {
+            if Handshake::from_raw(&message)?.handshake_type != HandshakeType::NewSessionTicket {
                 log::error!("Not yet implemented: Handle handshake messages");
                 return Err(TlsError::UnexpectedMessage);
             }
-        } else if record.content_type != RecordType::Handshake {
-            return Err(TlsError::UnexpectedMessage);
+            log::debug!("--> NewSessionTicket");
         }
-
-        self.plaintext.extend_from_slice(record.fraqment.as_ref());
-        Ok(self.take_plaintext(buf))
+        Ok(())
     }
 
     fn take_plaintext(&mut self, buf: &mut [u8]) -> usize {
-- 
2.43.0


From a43c794b2df154710b6cd28107ea769e275bd63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:28 +0000
Subject: [PATCH 73/84] fix: reading went on after a refused record, leaving
 out its data

---
 anothertls/src/net/stream.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/anothertls/src/net/stream.rs b/anothertls/src/net/stream.rs
index cdab84b..692aa33 100644
--- a/anothertls/src/net/stream.rs
+++ b/anothertls/src/net/stream.rs
@@ -25,6 +25,8 @@ pub struct TlsStream {
     plaintext: Vec<u8>,
     /// Received parts of handshake messages
     handshake: Vec<u8>,
+    /// Why no more data can be read
+    read_error: Option<TlsError>,
 }
 
 impl TlsStream {
@@ -36,6 +38,7 @@ impl TlsStream {
             rx_buffer: Vec::with_capacity(2048),
             plaintext: vec![],
             handshake: vec![],
+            read_error: None,
         }
     }
 
@@ -166,7 +169,16 @@ impl TlsStream {
             return Ok(self.take_plaintext(buf));
         }
 
-        self.read_plaintext()?;
+        // nothing is delivered after a record that was refused, or after the end of the data
+        if let Some(err) = self.read_error {
+            return Err(err);
+        }
+        if let Err(err) = self.read_plaintext() {
+            if err != TlsError::BrokenPipe {
+                self.read_error = Some(err);
+            }
+            return Err(err);
+        }
         Ok(self.take_plaintext(buf))
     }
 
-- 
2.43.0


From 8f6962f5ca4eca288e9a7e16d0dcd1ab5c810f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:28 +0000
Subject: [PATCH 74/84] fix: alerts of the server about the flight of the
 client were sent under the handshake keys

---
 anothertls/src/net/record.rs            |  5 ++++-
 anothertls/src/net/server/connection.rs | 18 ++++++------------
 2 files changed, 10 insertions(+), 13 deletions(-)

diff --git a/anothertls/src/net/record.rs b/anothertls/src/net/record.rs
index 55b8cc1..fdef40d 100644
--- a/anothertls/src/net/record.rs
+++ b/anothertls/src/net/record.rs
@@ -120,6 +120,8 @@ pub struct RecordPayloadProtection {
     pub handshake_keys: WriteKeys,
     pub is_client: bool,
     pub application_keys: Option<WriteKeys>,
+    /// The peer sends its Finished after this side began to use the application keys
+    pub peer_uses_handshake_keys: bool,
 }
 
 impl RecordPayloadProtection {
@@ -132,6 +134,7 @@ impl RecordPayloadProtection {
             handshake_keys: WriteKeys::handshake_keys(&key_schedule, cipher.get_cipher_suite())?,
             // FIMXE: use application_keys
             application_keys: None,
+            peer_uses_handshake_keys: false,
             cipher,
             // application_keys: WriteKeys::handshake_keys(&key_schedule)?,
             key_schedule,
@@ -199,7 +202,7 @@ impl RecordPayloadProtection {
 
     /// Returns Vec instead of a Record because of the borrow checker <3
     pub fn decrypt(&mut self, record: Record) -> Result<(RecordType, Vec<u8>), TlsError> {
-        let keys = if self.application_keys.is_some() {
+        let keys = if self.application_keys.is_some() && !self.peer_uses_handshake_keys {
             self.application_keys.as_mut().unwrap()
         } else {
             &mut self.handshake_keys
diff --git a/anothertls/src/net/server/connection.rs b/anothertls/src/net/server/connection.rs
index b40a2f7..b2bbbe9 100644
--- a/anothertls/src/net/server/connection.rs
+++ b/anothertls/src/net/server/connection.rs
@@ -71,7 +71,6 @@ struct ServerHandshake<'a> {
     certificate_request_context: Option<Vec<u8>>,
     rng: Box<dyn RngCore<IBig>>,
     tshash: Option<Box<dyn TranscriptHash>>,
-    tshash_clienthello_serverfinished: Option<Box<dyn TranscriptHash>>,
 }
 
 impl<'a> ServerHandshake<'a> {
@@ -88,7 +87,6 @@ impl<'a> ServerHandshake<'a> {
                 PRNG::URandom => Box::new(URandomRng::new()),
             },
             tshash: None,
-            tshash_clienthello_serverfinished: None,
         }
     }
     pub fn do_handshake_with_error(&mut self) -> Result<(), TlsError> {
@@ -297,6 +295,11 @@ impl<'a> ServerHandshake<'a> {
             .write_record(RecordType::Handshake, &handshake_raw)?;
         log::debug!("<-- ServerFinished");
 
+        // Derive-Secret: ClientHello..server Finished
+        let protection = self.stream.protection.as_mut().unwrap();
+        protection.generate_application_keys(tshash.as_ref())?;
+        protection.peer_uses_handshake_keys = true;
+
         self.state = if self.config.client_cert_ca.is_some() {
             ServerHsState::ClientCertificate
         } else {
@@ -357,8 +360,6 @@ impl<'a> ServerHandshake<'a> {
             return Err(TlsError::UnexpectedMessage);
         }
 
-        self.tshash_clienthello_serverfinished = Some((*self.tshash.as_ref().unwrap()).clone());
-
         self.tshash.as_mut().unwrap().update(handshake.as_bytes());
 
         log::debug!("--> ClientCertificate");
@@ -486,14 +487,7 @@ impl<'a> ServerHandshake<'a> {
             return Err(TlsError::DecryptError);
         }
 
-        // Derive-Secret: ClientHello..server Finished
-        let tshash = if self.tshash_clienthello_serverfinished.is_some() {
-            self.tshash_clienthello_serverfinished.as_mut().unwrap()
-        } else {
-            self.tshash.as_mut().unwrap()
-        };
-
-        protection.generate_application_keys(tshash.as_ref())?;
+        protection.peer_uses_handshake_keys = false;
 
         if let Some(k) = &self.keylog {
             k.append_from_record_payload_protection(protection);
-- 
2.43.0


From c7523e1c3575a8f64dfb224b340707319b949e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:03 +0000
Subject: [PATCH 75/84] fix: an empty server name, or one over 64 KiB, was
 accepted and sent as a malformed extension

---
 anothertls/src/net/client/config.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/anothertls/src/net/client/config.rs b/anothertls/src/net/client/config.rs
index ffa1da5..4c75e57 100644
--- a/anothertls/src/net/client/config.rs
+++ b/anothertls/src/net/client/config.rs
@@ -71,6 +71,12 @@ impl ClientConfigBuilder {
         if self.client_cert.is_some() && self.client_key.is_none() {
             panic!("No private key was set for the client certificate.")
         }
+        if let Some(server_name) = self.server_name.as_ref() {
+            // RFC 6066: a DNS hostname
+            if server_name.is_empty() || server_name.len() > 255 {
+                return Err("The server name is empty or too long.".to_string());
+            }
+        }
         Ok(ClientConfig {
             keylog: self.keylog,
             server_name: self.server_name,
-- 
2.43.0


From 458bca8a1f40d45a0b647b7a08fb9e315c4161e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:14 +0000
Subject: [PATCH 76/84] fix: key log lines of concurrent sessions sharing a
 file were mixed

---
 anothertls/src/utils/keylog.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/anothertls/src/utils/keylog.rs b/anothertls/src/utils/keylog.rs
index 9d07c2e..3128e4a 100644
--- a/anothertls/src/utils/keylog.rs
+++ b/anothertls/src/utils/keylog.rs
@@ -74,7 +74,8 @@ impl KeyLog {
             .open(&self.filepath)
             .unwrap_or_else(|_| panic!("Couldn't open or create keylog file {}", self.filepath));
 
-        if let Err(e) = writeln!(file, "{}", content) {
+        // in one write, so that lines of concurrent sessions don't mix
+        if let Err(e) = file.write_all((content + "\n").as_bytes()) {
             eprintln!("Couldn't write to file: {}", e);
         }
     }
-- 
2.43.0


From c66a447773d6824861affae9aa070ab782e848b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:52 +0000
Subject: [PATCH 77/84] fix: the codes of decode_error and decrypt_error were
 exchanged

---
 anothertls/src/net/alert.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/anothertls/src/net/alert.rs b/anothertls/src/net/alert.rs
index 30a69c7..70aee3e 100644
--- a/anothertls/src/net/alert.rs
+++ b/anothertls/src/net/alert.rs
@@ -30,8 +30,8 @@ pub enum TlsError {
     IllegalParameter = 47,
     UnknownCa = 48,
     AccessDenied = 49,
-    DecryptError = 50,
-    DecodeError = 51,
+    DecodeError = 50,
+    DecryptError = 51,
     ProtocolVersion = 70,
     InsufficientSecurity = 71,
     InternalError = 80,
@@ -59,8 +59,8 @@ impl TlsError {
             47 => TlsError::IllegalParameter,
             48 => TlsError::UnknownCa,
             49 => TlsError::AccessDenied,
-            50 => TlsError::DecryptError,
-            51 => TlsError::DecodeError,
+            50 => TlsError::DecodeError,
+            51 => TlsError::DecryptError,
             70 => TlsError::ProtocolVersion,
             71 => TlsError::InsufficientSecurity,
             80 => TlsError::InternalError,
@@ -87,8 +87,8 @@ impl TlsError {
             TlsError::IllegalParameter => 47,
             TlsError::UnknownCa => 48,
             TlsError::AccessDenied => 49,
-            TlsError::DecryptError => 50,
-            TlsError::DecodeError => 51,
+            TlsError::DecodeError => 50,
+            TlsError::DecryptError => 51,
             TlsError::ProtocolVersion => 70,
             TlsError::InsufficientSecurity => 71,
             TlsError::InternalError => 80,
-- 
2.43.0


From dd6f7e9a24ad433451a4bd8b77dee16a4e514f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:33 +0000
Subject: [PATCH 78/84] fix: a system call that a signal interrupted ended the
 session

---
 anothertls/src/net/stream.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/anothertls/src/net/stream.rs b/anothertls/src/net/stream.rs
index 692aa33..ea44b32 100644
--- a/anothertls/src/net/stream.rs
+++ b/anothertls/src/net/stream.rs
@@ -9,7 +9,7 @@ use crate::net::record::{Record, RecordPayloadProtection, RecordType, Value};
 use crate::utils::{bytes, log};
 
 use core::result::Result;
-use std::io::{Read, Write};
+use std::io::{ErrorKind, Read, Write};
 use std::net::TcpStream;
 
 /// Longer handshake messages are refused
@@ -92,7 +92,12 @@ impl TlsStream {
 
     /// Read directly from the TCP socket
     pub fn tcp_read<'b>(&'b mut self, buf: &'b mut [u8]) -> Result<usize, TlsError> {
-        match self.stream.read(buf) {
+        let mut n = self.stream.read(buf);
+        // a signal came before the data
+        while matches!(&n, Err(e) if e.kind() == ErrorKind::Interrupted) {
+            n = self.stream.read(buf);
+        }
+        match n {
             Ok(n) if n != 0 => Ok(n),
             _ => Err(TlsError::BrokenPipe),
         }
-- 
2.43.0


From 91804f93d572354f634d80f517df39b47b1dd211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:34 +0000
Subject: [PATCH 79/84] fix: EncryptedExtensions of any content were accepted

---
 anothertls/src/net/client/connection.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/anothertls/src/net/client/connection.rs b/anothertls/src/net/client/connection.rs
index 620b78e..0a90735 100644
--- a/anothertls/src/net/client/connection.rs
+++ b/anothertls/src/net/client/connection.rs
@@ -8,8 +8,9 @@ use crate::hash::{sha256, TranscriptHash};
 use crate::net::alert::TlsError;
 use crate::net::client::{ClientConfig, ClientHello};
 use crate::net::extensions::{
-    CertificateRequestExtensions, ClientExtension, KeyShare, KeyShareEntry, NamedGroup, ServerName,
-    SignatureAlgorithms, SignatureScheme, SupportedGroups, SupportedVersions,
+    split_extensions, CertificateRequestExtensions, ClientExtension, KeyShare, KeyShareEntry,
+    NamedGroup, ServerName, SignatureAlgorithms, SignatureScheme, SupportedGroups,
+    SupportedVersions,
 };
 use crate::net::handshake::{
     get_finished_handshake, get_verify_data_for_finished, Certificate, Handshake, HandshakeType,
@@ -345,6 +346,14 @@ impl<'a> ClientHandshake<'a> {
         log::debug!("--> EncryptedExtensions");
         self.tshash.as_mut().unwrap().update(handshake.as_bytes());
 
+        // a list of extensions and nothing else
+        let extensions = handshake
+            .fraqment
+            .get(2..)
+            .filter(|e| e.len() == bytes::to_u16(handshake.fraqment) as usize)
+            .ok_or(TlsError::DecodeError)?;
+        split_extensions(extensions)?;
+
         log::fixme!("TODO: Handle EncryptedExtensions");
 
         self.state = ClientHsState::ClientCertificateRequest;
-- 
2.43.0


From 811aaefc9cec6a9228f75d06c9ca5e288960a432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:00 +0000
Subject: [PATCH 80/84] fix: refuse a server name extension that is not one
 well-formed name

---
 anothertls/src/net/extensions/server_name.rs | 30 ++++++--------------
 1 file changed, 9 insertions(+), 21 deletions(-)

diff --git a/anothertls/src/net/extensions/server_name.rs b/anothertls/src/net/extensions/server_name.rs
index 7892b77..dd7eb4d 100644
--- a/anothertls/src/net/extensions/server_name.rs
+++ b/anothertls/src/net/extensions/server_name.rs
@@ -44,28 +44,16 @@ impl Extension for ServerName {
         if buf.len() < 2 || bytes::to_u16(buf) as usize != buf.len() - 2 {
             return Err(TlsError::DecodeError);
         }
-        let server_name_list_len = bytes::to_u16(buf);
-        let mut consumed = 2;
-        let mut server_name = String::new();
-        if server_name_list_len > 0 {
-            if server_name_list_len < 3 {
-                return Err(TlsError::DecodeError);
-            }
-            let name_type = buf[consumed];
-            consumed += 1;
-            if name_type != 0 {
-                return Err(TlsError::DecodeError);
-            }
-            let server_name_len = bytes::to_u16(&buf[consumed..]) as usize;
-            consumed += 2;
-            let server_name_raw = buf
-                .get(consumed..server_name_len + consumed)
-                .ok_or(TlsError::DecodeError)?;
-            server_name = match String::from_utf8(server_name_raw.to_vec()) {
-                Ok(a) => a,
-                Err(_) => return Err(TlsError::DecodeError),
-            };
+        // one entry: a name type, and a host name of at least one byte
+        if buf.len() < 6 || buf[2] != 0 {
+            return Err(TlsError::DecodeError);
+        }
+        let server_name_len = bytes::to_u16(&buf[3..]) as usize;
+        if server_name_len != buf.len() - 5 {
+            return Err(TlsError::DecodeError);
         }
+        let server_name =
+            String::from_utf8(buf[5..].to_vec()).map_err(|_| TlsError::DecodeError)?;
         Ok(ServerName(server_name))
     }
 }
-- 
2.43.0


From 3da4b25dfcccd6c113ba0fa18149d989d0f39960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:15 +0000
Subject: [PATCH 81/84] fix: A write after a failed one sent parts of earlier
 records again

---
 anothertls/src/net/stream.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/anothertls/src/net/stream.rs b/anothertls/src/net/stream.rs
index ea44b32..3fe7f75 100644
--- a/anothertls/src/net/stream.rs
+++ b/anothertls/src/net/stream.rs
@@ -25,6 +25,8 @@ pub struct TlsStream {
     plaintext: Vec<u8>,
     /// Received parts of handshake messages
     handshake: Vec<u8>,
+    /// An unknown part of the records was sent, so nothing can follow
+    write_failed: bool,
     /// Why no more data can be read
     read_error: Option<TlsError>,
 }
@@ -38,6 +40,7 @@ impl TlsStream {
             rx_buffer: Vec::with_capacity(2048),
             plaintext: vec![],
             handshake: vec![],
+            write_failed: false,
             read_error: None,
         }
     }
@@ -71,10 +74,13 @@ impl TlsStream {
     }
 
     pub fn flush(&mut self) -> Result<(), TlsError> {
-        if self.stream.write_all(&self.buffer).is_err() {
-            return Err(TlsError::BrokenPipe);
+        if !self.write_failed && self.stream.write_all(&self.buffer).is_err() {
+            self.write_failed = true;
         };
         self.buffer.clear();
+        if self.write_failed {
+            return Err(TlsError::BrokenPipe);
+        }
         Ok(())
     }
 
-- 
2.43.0


From a7f2df2fe288484116b4c42e55b0b0edc06a2be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:18 +0000
Subject: [PATCH 82/84] fix: The log level could not be set with any variable
 of the environment not valid unicode

---
 anothertls/src/utils/log.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/anothertls/src/utils/log.rs b/anothertls/src/utils/log.rs
index 18c4579..3f2fb76 100644
--- a/anothertls/src/utils/log.rs
+++ b/anothertls/src/utils/log.rs
@@ -21,15 +21,13 @@ pub fn check_log_level(level: LogLevel) -> bool {
 }
 
 pub fn init() {
-    for (key, value) in env::vars() {
-        if key == "RUST_LOG" {
-            match value.to_lowercase().as_str() {
-                "debug" => unsafe { LOG_LEVEL = LogLevel::Debug },
-                "error" => unsafe { LOG_LEVEL = LogLevel::Error },
-                "fixme" => unsafe { LOG_LEVEL = LogLevel::Fixme },
-                _ => (),
-            }
-            break;
+    // env::vars would panic if any variable is not valid unicode
+    if let Ok(value) = env::var("RUST_LOG") {
+        match value.to_lowercase().as_str() {
+            "debug" => unsafe { LOG_LEVEL = LogLevel::Debug },
+            "error" => unsafe { LOG_LEVEL = LogLevel::Error },
+            "fixme" => unsafe { LOG_LEVEL = LogLevel::Fixme },
+            _ => (),
         }
     }
 }
-- 
2.43.0


From 09713aeb6ccce8195f92f6acab82184cdf960a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:29 +0000
Subject: [PATCH 83/84] fix: A public key that is no point of the curve was
 reported on stdout with logging off

---
 anothertls/src/crypto/ellipticcurve/ecdsa.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/anothertls/src/crypto/ellipticcurve/ecdsa.rs b/anothertls/src/crypto/ellipticcurve/ecdsa.rs
index 043c21c..9e56a0d 100644
--- a/anothertls/src/crypto/ellipticcurve/ecdsa.rs
+++ b/anothertls/src/crypto/ellipticcurve/ecdsa.rs
@@ -83,7 +83,6 @@ impl Ecdsa {
         }
         // 2.
         if !pub_key.curve.contains(&pub_key.point) {
-            println!("not containes");
             return false;
         }
         // 3. n * pub_key.point == 0
-- 
2.43.0


From de71a08079e91e32ed3e490d16552e5e16a7ccff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:48 +0000
Subject: [PATCH 84/84] fix: a time elsewhere in a certificate replaced its
 notAfter, and one with a single time could be valid

---
 anothertls/src/utils/x509.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/anothertls/src/utils/x509.rs b/anothertls/src/utils/x509.rs
index 2e676a7..76b2a71 100644
--- a/anothertls/src/utils/x509.rs
+++ b/anothertls/src/utils/x509.rs
@@ -628,6 +628,14 @@ fn parse(
                 *consumed += size;
             }
             DerType::UTCTime => {
+                // there are two times, both in the validity
+                let tbs = &res.tbs_certificate;
+                if state != ParsingState::Init
+                    || tbs.validity.not_after.is_some()
+                    || tbs.subject_public_key_info.algorithm.is_some()
+                {
+                    return Err(ParseError::TimeStamp);
+                }
                 let timestamp = match String::from_utf8(body.to_vec()) {
                     Ok(e) => e,
                     Err(_) => return Err(ParseError::UTF8StringTimestamp),
-- 
2.43.0

