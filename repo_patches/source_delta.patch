From a0fbf8ca028ec2739f58dea41cce312456896b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:30 +0000
Subject: [PATCH 01/14] fix: Hash384/Hash512 to words no longer panics

---
 src/sha/hash.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sha/hash.rs b/src/sha/hash.rs
index d914300..18c1f38 100644
--- a/src/sha/hash.rs
+++ b/src/sha/hash.rs
@@ -124,7 +124,7 @@ fn bytes_to_u32s<const B: usize, const W: usize>(bytes: [u8; B]) -> [u32; W] {
 
 fn bytes_to_u64s<const B: usize, const W: usize>(bytes: [u8; B]) -> [u64; W] {
     let mut words = [0; W];
-    for (i, chunk) in bytes.chunks_exact(4).enumerate() {
+    for (i, chunk) in bytes.chunks_exact(8).enumerate() {
         let chunk = <[u8; 8]>::try_from(chunk).unwrap();
         words[i] = u64::from_be_bytes(chunk);
     }
-- 
2.43.0


From 78abd24c76412b7eb14a1cdc41abaa260f55aec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:54 +0000
Subject: [PATCH 02/14] fix: RC5 accepts an empty key

---
 src/rc/rc5.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rc/rc5.rs b/src/rc/rc5.rs
index a6aa350..7c175da 100644
--- a/src/rc/rc5.rs
+++ b/src/rc/rc5.rs
@@ -16,13 +16,16 @@ impl RC5 {
     }
 
     fn expand_key(key: &[u8], r: u8) -> Vec<u32> {
-        let c = key.len().div_ceil(4);
+        let c = key.len().div_ceil(4).max(1);
         let mut l: Vec<u32> = Vec::with_capacity(c);
         for chunk in key.chunks(4) {
             let mut word = [0_u8; 4];
             word[..chunk.len()].copy_from_slice(chunk);
             l.push(u32::from_le_bytes(word));
         }
+        if l.is_empty() {
+            l.push(0); // an empty key is a single zero word
+        }
 
         let t = 2 * (r as usize + 1);
         let mut s: Vec<u32> = Vec::with_capacity(t);
-- 
2.43.0


From 5dcd60a9a924ae75f95b414dc5d152702c89314a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:20 +0000
Subject: [PATCH 03/14] fix: BigUint remainder by zero panics instead of
 returning a number

---
 src/big/uint.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/big/uint.rs b/src/big/uint.rs
index 0019e9a..88ad68b 100644
--- a/src/big/uint.rs
+++ b/src/big/uint.rs
@@ -233,6 +233,11 @@ impl Sub<&BigUint> for BigUint {
 
 impl RemAssign<&BigUint> for BigUint {
     fn rem_assign(&mut self, rhs: &BigUint) {
+        assert!(
+            !rhs.bytes.is_empty(),
+            "attempt to calculate the remainder with a divisor of zero"
+        );
+
         if rhs.bits_used() > self.bits_used() {
             return;
         }
-- 
2.43.0


From d1db73156b1064f75cf7b87b040dfdbbc8180ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:44 +0000
Subject: [PATCH 04/14] fix: BigUint subtraction panics on underflow instead of
 wrapping

---
 src/big/uint.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/big/uint.rs b/src/big/uint.rs
index 88ad68b..6b1908b 100644
--- a/src/big/uint.rs
+++ b/src/big/uint.rs
@@ -196,6 +196,8 @@ impl PartialOrd for BigUint {
 
 impl SubAssign<&BigUint> for BigUint {
     fn sub_assign(&mut self, rhs: &BigUint) {
+        assert!(*rhs <= *self, "attempt to subtract with overflow");
+
         let curr_bits_used = self.bits_used();
 
         // ensure there is enough space for the upcoming addition
-- 
2.43.0


From 5c506e036b67bc41bcb9a4d1c4841ad0efc0344d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:09 +0000
Subject: [PATCH 05/14] fix: shifting a zero BigUint left keeps it canonical

---
 src/big/uint.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/big/uint.rs b/src/big/uint.rs
index 6b1908b..e269ca2 100644
--- a/src/big/uint.rs
+++ b/src/big/uint.rs
@@ -260,6 +260,10 @@ impl RemAssign<&BigUint> for BigUint {
 
 impl ShlAssign<u32> for BigUint {
     fn shl_assign(&mut self, mut rhs: u32) {
+        if self.bytes.is_empty() {
+            return; // zero stays zero, without any trailing zero bytes
+        }
+
         let steps = rhs / 8; // save whole bytes for later
         rhs -= steps * 8;
 
-- 
2.43.0


From c052d1a827fe621d622ccd98ab22971f19f79271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:36 +0000
Subject: [PATCH 06/14] fix: shifting a BigUint right by more than its length
 gives zero

---
 src/big/uint.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/big/uint.rs b/src/big/uint.rs
index e269ca2..822298d 100644
--- a/src/big/uint.rs
+++ b/src/big/uint.rs
@@ -292,7 +292,8 @@ impl ShrAssign<u32> for BigUint {
         if rhs >= 8 {
             let steps = rhs / 8;
 
-            self.bytes.splice(0..steps as usize, []);
+            let removed = (steps as usize).min(self.bytes.len());
+            self.bytes.splice(0..removed, []);
 
             rhs -= steps * 8;
         }
-- 
2.43.0


From 8917665736c59169afcc901ca842c1f7b7db2210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:04 +0000
Subject: [PATCH 07/14] fix: PKCS#7 unpadding rejects padding that is zero or
 inconsistent

---
 src/pad.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pad.rs b/src/pad.rs
index 0c654da..35e20fb 100644
--- a/src/pad.rs
+++ b/src/pad.rs
@@ -44,10 +44,17 @@ impl<const N: usize> PkcsPadding<N> {
 
     pub fn unpad(&self, block: Block<N>) -> usize {
         let amt = block[N-1];
+        if amt == 0 {
+            panic!("padding byte is zero");
+        }
         if amt as usize > N {
             panic!("padding byte is too big");
         }
-        N - amt as usize
+        let len = N - amt as usize;
+        if block[len..].iter().any(|&b| b != amt) {
+            panic!("padding bytes are not all equal");
+        }
+        len
     }
 }
 
-- 
2.43.0


From c50087a606977007b3c85f978219fd4af200b184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:34 +0000
Subject: [PATCH 08/14] fix: bit unpadding rejects non-zero bytes after the
 marker

---
 src/pad.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pad.rs b/src/pad.rs
index 35e20fb..73276ef 100644
--- a/src/pad.rs
+++ b/src/pad.rs
@@ -17,7 +17,8 @@ impl<const N: usize> BitPadding<N> {
     pub fn unpad(&self, last_block: Block<N>) -> (Block<N>, usize) {
         let len = last_block
             .iter()
-            .rposition(|&b| b == 0x80)
+            .rposition(|&b| b != 0)
+            .filter(|&i| last_block[i] == 0x80)
             .expect("missing marker byte (0x80)");
         let mut block = last_block;
         block[len..].fill(0);
-- 
2.43.0


From 12db0a3f4b1a6de2b3d366f41753b723e113edda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:44 +0000
Subject: [PATCH 09/14] fix: RSA key creation refuses primes whose product does
 not fit in 128 bits

---
 src/rsa/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rsa/mod.rs b/src/rsa/mod.rs
index 5a94121..3a4aada 100644
--- a/src/rsa/mod.rs
+++ b/src/rsa/mod.rs
@@ -45,7 +45,9 @@ pub fn create_keys(p: BigUint, q: BigUint, e: BigUint) -> (PrivateKey, PublicKey
     let q: u128 = q.as_u128().unwrap();
     let e: u128 = e.as_u128().unwrap();
 
-    let n = p * q;
+    let n = p
+        .checked_mul(q)
+        .expect("the product of the primes must fit in 128 bits");
 
     let l = lcm(p - 1, q - 1);
     let d = inverse(e, l).unwrap();
-- 
2.43.0


From 9c7ca6580bba741eadf3159c185ecabf2084617c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:38 +0000
Subject: [PATCH 10/14] fix: ASN.1 lengths that are truncated or too big are
 errors

---
 src/pem/asn1.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/pem/asn1.rs b/src/pem/asn1.rs
index 21e7255..18cadb5 100644
--- a/src/pem/asn1.rs
+++ b/src/pem/asn1.rs
@@ -16,12 +16,16 @@ impl Asn1 {
         let tag = bytes[0];
         let (rest, length) = if bytes[1] & 0x80 != 0 {
             let length_bytes = (bytes[1] & !0x80) as usize;
-            let mut length = 0u128.to_be_bytes();
-            length[(16 - length_bytes)..].copy_from_slice(&bytes[2..(2 + length_bytes)]);
-            (
-                &bytes[(2 + length_bytes)..],
-                <u128>::from_be_bytes(length) as usize,
-            )
+            let Some((length, rest)) = bytes[2..].split_at_checked(length_bytes) else {
+                return Err(format!("tag ({tag}) had too few length bytes"));
+            };
+            let length = length
+                .iter()
+                .try_fold(0_usize, |length, &b| {
+                    length.checked_mul(256)?.checked_add(b as usize)
+                })
+                .ok_or_else(|| format!("tag ({tag}) had a too big length"))?;
+            (rest, length)
         } else {
             (&bytes[2..], bytes[1] as usize)
         };
-- 
2.43.0


From f211fcacad839212bdcf943eac8e2e56667c22a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:02 +0000
Subject: [PATCH 11/14] fix: an ASN.1 bit string without content is an error

---
 src/pem/asn1.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pem/asn1.rs b/src/pem/asn1.rs
index 18cadb5..2c1000b 100644
--- a/src/pem/asn1.rs
+++ b/src/pem/asn1.rs
@@ -40,7 +40,12 @@ impl Asn1 {
         let asn1 = match tag {
             0x02 => Asn1::Integer(rest[..length].to_owned()),
             0x04 => Asn1::OctetString(rest[..length].to_owned()),
-            0x03 => Asn1::BitString(rest[1..length].to_owned(), rest[0]),
+            0x03 => {
+                let Some((&unused_bits, bits)) = rest[..length].split_first() else {
+                    return Err("bit string had no unused bits byte".to_string());
+                };
+                Asn1::BitString(bits.to_owned(), unused_bits)
+            }
             0x05 => Asn1::Null,
             0x06 => Asn1::ObjectIdentifier(rest[..length].to_owned()),
             0x30 => {
-- 
2.43.0


From 6603d21c6afb59f2d3fa05ea240899de5425b789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:30 +0000
Subject: [PATCH 12/14] fix: deeply nested ASN.1 is an error instead of a stack
 overflow

---
 src/pem/asn1.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pem/asn1.rs b/src/pem/asn1.rs
index 2c1000b..faabd1f 100644
--- a/src/pem/asn1.rs
+++ b/src/pem/asn1.rs
@@ -8,8 +8,14 @@ pub enum Asn1 {
     Sequence(Vec<Asn1>),
 }
 
+/// How deeply sequences may be nested, to not overflow the stack on malicious input
+const MAX_DEPTH: usize = 128;
+
 impl Asn1 {
-    fn parse_from_bytes(bytes: &[u8]) -> Result<(Asn1, &[u8]), String> {
+    fn parse_from_bytes(bytes: &[u8], depth: usize) -> Result<(Asn1, &[u8]), String> {
+        if depth > MAX_DEPTH {
+            return Err("too deeply nested".to_string());
+        }
         if bytes.len() <= 1 {
             return Err("tag had no length".to_string());
         }
@@ -52,7 +58,7 @@ impl Asn1 {
                 let mut left = &*rest[..length].to_owned();
                 let mut elements = Vec::new();
                 while !left.is_empty() {
-                    let (asn1, rest) = Asn1::parse_from_bytes(left).map_err(|e| format!("failed to parse sequence: {}", e))?;
+                    let (asn1, rest) = Asn1::parse_from_bytes(left, depth + 1).map_err(|e| format!("failed to parse sequence: {}", e))?;
                     elements.push(asn1);
                     left = rest;
                 }
@@ -69,7 +75,7 @@ impl TryFrom<&[u8]> for Asn1 {
     type Error = String;
 
     fn try_from(bytes: &[u8]) -> Result<Self, Self::Error> {
-        let (asn1, left) = Asn1::parse_from_bytes(bytes)?;
+        let (asn1, left) = Asn1::parse_from_bytes(bytes, 1)?;
 
         if !left.is_empty() {
             return Err("extra bytes at the end".to_string());
-- 
2.43.0


From e5d265c935141da1dea2211c53901af9235b6834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:58 +0000
Subject: [PATCH 13/14] fix: OAEP decoding of a wrongly sized message is an
 error

---
 src/rsa/oaep.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rsa/oaep.rs b/src/rsa/oaep.rs
index 0df957d..f1f696a 100644
--- a/src/rsa/oaep.rs
+++ b/src/rsa/oaep.rs
@@ -57,6 +57,9 @@ where
         encoded_message: &[u8],
         n_len: usize,
     ) -> Result<Vec<u8>, &'static str> {
+        if encoded_message.len() != n_len || n_len < 2 * N + 2 {
+            return Err("encoded message has the wrong length");
+        }
         if encoded_message[0] != 0 {
             return Err("first byte is not 0");
         }
-- 
2.43.0


From 9e781e15a9c5efa6e75cf85fc7ff01eff4ddb1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:24 +0000
Subject: [PATCH 14/14] fix: RSA ciphertexts have the length of the modulus

---
 src/rsa/mod.rs | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/rsa/mod.rs b/src/rsa/mod.rs
index 3a4aada..45a76c3 100644
--- a/src/rsa/mod.rs
+++ b/src/rsa/mod.rs
@@ -121,17 +121,14 @@ impl TryFrom<PEM> for PublicKey {
 
 impl RsaEncryption {
     pub fn encrypt_message(&self, plaintext: &[u8], padding: impl PaddingScheme) -> Vec<u8> {
-        let m = padding.encode(
-            b"",
-            plaintext,
-            (self.modulo.bits_used() - 1) as usize / 8 + 1,
-        );
+        let n_len = self.modulo_len();
+        let m = padding.encode(b"", plaintext, n_len);
         let m = BigUint::from_be_bytes(m);
         assert!(
             m < self.modulo,
             "the padding scheme did not put a zero as the first byte"
         );
-        self.encrypt(m).to_be_bytes()
+        to_be_bytes_padded(&self.encrypt(m), n_len)
     }
 
     pub fn encrypt(&self, m: BigUint) -> BigUint {
@@ -139,13 +136,11 @@ impl RsaEncryption {
     }
 
     pub fn decrypt_message(&self, ciphertext: &[u8], padding: impl PaddingScheme) -> Vec<u8> {
-        let mut m: Vec<u8> = std::iter::repeat_n(0, ciphertext.len()).collect();
-        let d = self.decrypt(BigUint::from_be_bytes(ciphertext));
-        let dec = d.to_be_bytes();
-        let start = m.len() - dec.len();
-        m[start..].copy_from_slice(&dec);
+        let n_len = self.modulo_len();
+        let m = self.decrypt(BigUint::from_be_bytes(ciphertext));
+        let m = to_be_bytes_padded(&m, n_len);
 
-        padding.decode(b"", &m, m.len()).unwrap()
+        padding.decode(b"", &m, n_len).unwrap()
     }
 
     pub fn decrypt(&self, c: BigUint) -> BigUint {
@@ -153,6 +148,20 @@ impl RsaEncryption {
     }
 }
 
+impl RsaEncryption {
+    /// The number of bytes in the modulus
+    fn modulo_len(&self) -> usize {
+        (self.modulo.bits_used() - 1) as usize / 8 + 1
+    }
+}
+
+fn to_be_bytes_padded(num: &BigUint, len: usize) -> Vec<u8> {
+    let bytes = num.to_be_bytes();
+    let mut padded = vec![0; len - bytes.len()];
+    padded.extend_from_slice(&bytes);
+    padded
+}
+
 fn mul_mod(a: &BigUint, b: &BigUint, m: &BigUint) -> BigUint {
     let mut r = BigUint::from(0);
     let mut a = a.clone();
-- 
2.43.0

