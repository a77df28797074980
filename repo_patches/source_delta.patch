From 76c2fc0736948aadcac308f92b376dd2b40f8006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:57 +0000
Subject: [PATCH 1/8] fix: compare the top limb in field equality

decaf_equal ignored limb 15, so two field elements differing by a multiple
of 2^420 compared equal: verification could decode a public key or R that
is not on the curve, and accept a wrong verification equation.
---
 src/bignumber.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bignumber.rs b/src/bignumber.rs
index e2b1d23..2bbc34d 100644
--- a/src/bignumber.rs
+++ b/src/bignumber.rs
@@ -536,6 +536,7 @@ pub fn decaf_equal(n: &BigNumber, x: &BigNumber) -> Word {
     ret |= y[12];
     ret |= y[13];
     ret |= y[14];
+    ret |= y[15];
 
     is_zero_mask(ret)
 }
-- 
2.43.0


From 43375b22598bd7e0a5ea0883036a9ec78524c407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:00 +0000
Subject: [PATCH 2/8] fix: accept a field element in an encoding exactly when
 it is below the modulus

The borrow chain used a modulus written for another radix, so encodings of
y >= p were accepted as aliases of y - p, and about one canonical encoding
in 2^34 was rejected.
---
 src/bignumber.rs   | 4 +---
 src/constants32.rs | 4 ++--
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/bignumber.rs b/src/bignumber.rs
index 2bbc34d..a9e509b 100644
--- a/src/bignumber.rs
+++ b/src/bignumber.rs
@@ -628,9 +628,7 @@ pub fn dsa_like_deserialize(input: &[u8], mask: usize) -> (BigNumber, Word) {
         }
         fill -= RADIX;
         buffer >>= RADIX;
-        // TODO CHECK SCARRY NOT SURE IF CORRECT
-        scarry = ((u32::wrapping_sub(u32::wrapping_add(scarry as Word, n[i]), MODULUS[i]) >> 8) * 4)
-            as Sdword;
+        scarry = (scarry + n[i] as Sdword - MODULUS[i] as Sdword) >> RADIX;
     }
 
     (
diff --git a/src/constants32.rs b/src/constants32.rs
index b1fbaa3..29e753e 100644
--- a/src/constants32.rs
+++ b/src/constants32.rs
@@ -63,6 +63,6 @@ pub const SCALAR_ZERO: [Word; SCALAR_WORDS] = [
     0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
 ];
 pub const MODULUS: BigNumber = [
-    0xffffff, 0xffffffff, 0xffffff, 0xffffffff, 0xffffff, 0xffffffff, 0xffffff, 0xffffffff,
-    0xfffffe, 0xffffffff, 0xffffff, 0xffffffff, 0xffffff, 0xffffffff, 0xffffff, 0xffffffff,
+    0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff,
+    0xffffffe, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff,
 ];
-- 
2.43.0


From a567ce81be72e61ebd60781afb832039bb8d4d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:03 +0000
Subject: [PATCH 3/8] fix: reject an encoded point with x = 0 and the sign bit
 set

RFC 8032 section 5.2.3 step 4: such an encoding does not decode. It was
accepted as a second encoding of the points (0, 1) and (0, -1).
---
 src/extended_point.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/extended_point.rs b/src/extended_point.rs
index 72b1d08..c56dc90 100644
--- a/src/extended_point.rs
+++ b/src/extended_point.rs
@@ -535,6 +535,8 @@ pub fn eddsa_like_decode(src_org: &[u8]) -> Result<TwistedExtendedPoint, Libgold
     p.x = mul(&p.z, &p.t);
     p.t = isr(&p.x);
     p.x = mul(&p.t, &p.z);
+    // x = 0 has no odd representative, so its sign bit must be clear
+    succ &= !(decaf_equal(&p.x, &BIG_ZERO) & low);
     p.x = decaf_cond_negate(&p.x, &(!(low_bit(&p.x)) ^ low));
     p.z = BIG_ONE;
 
-- 
2.43.0


From cca466d76fbe6a3b4ca12ed57df14356f25e63e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:06 +0000
Subject: [PATCH 4/8] fix: return an error for a signature that is too short
 instead of panicking

---
 src/eddsa.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eddsa.rs b/src/eddsa.rs
index 0580513..c52009e 100644
--- a/src/eddsa.rs
+++ b/src/eddsa.rs
@@ -56,6 +56,9 @@ pub fn dsa_verify(pubkey: &[u8], sig: &[u8], message: &[u8]) -> Result<bool, Lib
     let scalar_four: Scalar = [4, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0];
     let mut p2 = p.clone();
     p2 = p2.point_scalar_mul(&scalar_four);
+    if sig.len() < 114 {
+        return Err(LibgoldilockErrors::InvalidSignatureLengthError);
+    }
     let mut sig1: [u8; 57] = [0; 57];
     let mut sig2: [u8; 57] = [0; 57];
 
-- 
2.43.0


From 92f031f86e8aa237f7d7e76299548722c5e1ef7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:10 +0000
Subject: [PATCH 5/8] fix: reject a signature whose S is not below the group
 order

S was reduced modulo the order, so anyone could turn a valid signature
into other valid signatures of the same message by adding the order to S.
---
 src/eddsa.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/eddsa.rs b/src/eddsa.rs
index c52009e..bac5967 100644
--- a/src/eddsa.rs
+++ b/src/eddsa.rs
@@ -5,7 +5,7 @@ use sha3::{
 
 use crate::{
     extended_point::{eddsa_like_decode, TwistedExtendedPoint},
-    scalar::{decode_long, sub, Scalar},
+    scalar::{decode_long, encode, sub, Scalar},
 };
 
 use crate::errors::LibgoldilockErrors;
@@ -98,6 +98,10 @@ pub fn dsa_verify(pubkey: &[u8], sig: &[u8], message: &[u8]) -> Result<bool, Lib
     challenge_scalar = sub(&scalar_zero, &challenge_scalar);
 
     let responce_scalar = decode_long(&sig2);
+    // S must be below the group order, i.e. already reduced (RFC 8032, 5.2.7)
+    if encode(&responce_scalar) != sig2 {
+        return Err(LibgoldilockErrors::DecodeSignatureError);
+    }
 
     let pk = p2.point_double_scalamul_non_secret(&responce_scalar, &challenge_scalar);
 
-- 
2.43.0


From 9e655bd51611b6e24c17e5faf6138d20674ae51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:13 +0000
Subject: [PATCH 6/8] fix: bind the verification challenge to the public key as
 given

The challenge hashed a re-encoding of the decoded key, which drops its
small-order part, so a signature verified under three further public keys
(A plus a point of order 2 or 4) besides the signer's.
---
 src/eddsa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eddsa.rs b/src/eddsa.rs
index bac5967..bfd58d4 100644
--- a/src/eddsa.rs
+++ b/src/eddsa.rs
@@ -90,7 +90,7 @@ pub fn dsa_verify(pubkey: &[u8], sig: &[u8], message: &[u8]) -> Result<bool, Lib
 
     let mut challenge: [u8; 114] = [0; 114];
     let mut h = sig1.to_vec();
-    h.append(&mut p.eddsa_like_encode().to_vec());
+    h.append(&mut pubkey.to_vec());
     h.append(&mut message.to_vec());
     hash_with_dom(&mut h, &mut challenge);
 
-- 
2.43.0


From 4a46ee71e9a0ac8f6d57fcb906520bf6c1ed35b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:35 +0000
Subject: [PATCH 7/8] fix: report a malformed key while deserializing as an
 error instead of panicking

---
 src/lib.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 70536b6..3a2222e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -184,7 +184,9 @@ impl<'de> Deserialize<'de> for SigningKey {
     {
         if deserializer.is_human_readable() {
             let s = String::deserialize(deserializer)?;
-            Ok(SigningKey::from_str(&s))
+            let mut key: [u8; 57] = [0; 57];
+            hex::decode_to_slice(&s, &mut key).map_err(de::Error::custom)?;
+            Ok(SigningKey::from_slice(&key))
         } else {
             Err(de::Error::custom("Expected a string"))
         }
@@ -208,7 +210,9 @@ impl<'de> Deserialize<'de> for SecretKey {
     {
         if deserializer.is_human_readable() {
             let s = String::deserialize(deserializer)?;
-            Ok(SecretKey::from_str(&s))
+            let mut key: [u8; 57] = [0; 57];
+            hex::decode_to_slice(&s, &mut key).map_err(de::Error::custom)?;
+            Ok(SecretKey { key })
         } else {
             Err(de::Error::custom("Expected a string"))
         }
@@ -232,7 +236,9 @@ impl<'de> Deserialize<'de> for VerifyingKey {
     {
         if deserializer.is_human_readable() {
             let s = String::deserialize(deserializer)?;
-            Ok(VerifyingKey::from_str(&s))
+            let mut key: [u8; 57] = [0; 57];
+            hex::decode_to_slice(&s, &mut key).map_err(de::Error::custom)?;
+            Ok(VerifyingKey { key })
         } else {
             Err(de::Error::custom("Expected a string"))
         }
-- 
2.43.0


From 6d3c4d64d7932cab1460b5b81d703ce0260c2404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:44 +0000
Subject: [PATCH 8/8] hooks: expose the internal arithmetic under --cfg
 ed448_verif

---
 src/lib.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 3a2222e..98fbc6b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,4 +1,5 @@
 #![allow(clippy::should_implement_trait)]
+#![allow(unexpected_cfgs)]
 mod bignumber;
 mod constants32;
 mod decaf_combs_32;
@@ -11,6 +12,21 @@ mod karatsuba_32;
 mod karatsuba_square_32;
 mod scalar;
 
+/// The internal arithmetic, for the conformance checks only: absent unless the
+/// crate is built with `--cfg ed448_verif`.
+#[cfg(ed448_verif)]
+pub mod verif_hooks {
+    pub mod bignumber {
+        pub use crate::bignumber::*;
+    }
+    pub mod scalar {
+        pub use crate::scalar::*;
+    }
+    pub mod extended_point {
+        pub use crate::extended_point::*;
+    }
+}
+
 use crate::errors::LibgoldilockErrors;
 use goldilocks::{ed448_derive_public, ed448_sign, hex_to_private_key};
 use rand::{CryptoRng, Rng};
-- 
2.43.0

