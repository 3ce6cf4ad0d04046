From 4d295c033db6114f4a81de04a652cdd92612b12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:52 +0000
Subject: [PATCH 1/7] fix: hash the info of PoprfServer::evaluate(_, None) like
 an empty info

Every other POPRF entry point treats a missing info as empty bytes. evaluate
skipped the info frame of the Finalize hash input instead, so its output never
matched what clients compute for the same key, input and (absent) info.
---
 src/poprf.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/poprf.rs b/src/poprf.rs
index a0fd531..fd4b0b6 100644
--- a/src/poprf.rs
+++ b/src/poprf.rs
@@ -418,7 +418,10 @@ where
 
         let issued_element = CS::Group::serialize_elem(evaluated_element);
 
-        server_evaluate_hash_input::<CS>(input, info, issued_element)
+        // None for info is treated the same as empty bytes
+        let info = info.unwrap_or_default();
+
+        server_evaluate_hash_input::<CS>(input, Some(info), issued_element)
     }
 
     /// Retrieves the server's public key
-- 
2.43.0


From e8cfa02d2fcd2eb8e8c362671af18d87b711d8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:17 +0000
Subject: [PATCH 2/7] fix: return Error::Batch from
 PoprfServer::batch_blind_evaluate for oversized batches

The alloc convenience wrapper unwrapped the Error::Batch of the finish step, so a
batch of more than u16::MAX elements panicked the server instead of returning the
error that the VOPRF counterpart returns.
---
 src/poprf.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/poprf.rs b/src/poprf.rs
index fd4b0b6..b256889 100644
--- a/src/poprf.rs
+++ b/src/poprf.rs
@@ -285,6 +285,8 @@ where
     /// # Errors
     /// - [`Error::Info`] if the `info` is longer than `u16::MAX`.
     /// - [`Error::Protocol`] if the protocol fails and can't be completed.
+    /// - [`Error::Batch`] if the number of `blinded_elements` is longer than
+    ///   [`u16::MAX`].
     #[cfg(feature = "alloc")]
     pub fn batch_blind_evaluate<'a, R: RngCore + CryptoRng, IE>(
         &self,
@@ -304,15 +306,13 @@ where
 
         let prepared_evaluation_elements: Vec<_> = prepared_evaluation_elements.collect();
 
-        // This can't fail because we know the size of the inputs.
         let PoprfServerBatchEvaluateFinishResult { messages, proof } =
             Self::batch_blind_evaluate_finish::<_, _, Vec<_>>(
                 rng,
                 blinded_elements.into_iter(),
                 &prepared_evaluation_elements,
                 &prepared_tweak,
-            )
-            .unwrap();
+            )?;
 
         let messages: Vec<_> = messages.collect();
 
-- 
2.43.0


From 441a1fa3111baaa1cbdb854997da662bc2a7149f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:59 +0000
Subject: [PATCH 3/7] fix: reject a VoprfClient::batch_finalize whose number of
 inputs does not match

Surplus inputs, or surplus clients and messages, were silently dropped by the zip,
so the caller received fewer outputs than inputs. PoprfClient::batch_finalize
already returns Error::Batch in this case.
---
 src/voprf.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/voprf.rs b/src/voprf.rs
index 9871952..699c1c2 100644
--- a/src/voprf.rs
+++ b/src/voprf.rs
@@ -155,8 +155,8 @@ where
     /// and [EvaluationElement] pairs
     ///
     /// # Errors
-    /// - [`Error::Batch`] if the number of `clients` and `messages` don't match
-    ///   or is longer then [`u16::MAX`].
+    /// - [`Error::Batch`] if the number of `inputs`, `clients` and `messages`
+    ///   don't match or is longer then [`u16::MAX`].
     /// - [`Error::ProofVerification`] if the `proof` failed to verify.
     ///
     /// The resulting messages can each fail individually with [`Error::Input`]
@@ -179,7 +179,13 @@ where
         <&'a IM as IntoIterator>::IntoIter: ExactSizeIterator,
     {
         let unblinded_elements = verifiable_unblind(clients, messages, pk, proof)?;
-        let inputs_and_unblinded_elements = inputs.into_iter().zip(unblinded_elements);
+        let inputs = inputs.into_iter();
+
+        if inputs.len() != unblinded_elements.len() {
+            return Err(Error::Batch);
+        }
+
+        let inputs_and_unblinded_elements = inputs.zip(unblinded_elements);
         Ok(finalize_after_unblind::<CS, _, _>(
             inputs_and_unblinded_elements,
         ))
-- 
2.43.0


From c29fb9bb6d2cf58ba2887cf0dda887f4769bbb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:00 +0000
Subject: [PATCH 4/7] fix: reject an input that hashes to the identity in Blind

RFC 9497 requires Blind to raise InvalidInputError for such an input. The server's
evaluate already refuses it with Error::Input, but blind sent the identity element
(which no peer can deserialize) and carried on.
---
 src/common.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/common.rs b/src/common.rs
index f790edd..e0be1ec 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -444,6 +444,14 @@ where
         IsLess<U256> + IsLessOrEqual<<CS::Hash as BlockSizeUser>::BlockSize>,
 {
     let hashed_point = hash_to_group::<CS>(input, mode)?;
+
+    // https://www.rfc-editor.org/rfc/rfc9497#section-3.3.1
+    // if inputElement == G.Identity():
+    //   raise InvalidInputError
+    if CS::Group::is_identity_elem(hashed_point).into() {
+        return Err(Error::Input);
+    }
+
     Ok(hashed_point * blind)
 }
 
-- 
2.43.0


From 000c07f2c069ce3a90c28a7d0f767ebc99c03fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:00 +0000
Subject: [PATCH 5/7] fix: reject an input longer than u16::MAX in Blind

blind is documented to return Error::Input for such an input, but accepted it; the
failure surfaced only in finalize, after a complete interaction with the server.
---
 src/common.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/common.rs b/src/common.rs
index e0be1ec..c6dcb45 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -443,6 +443,10 @@ where
     <CS::Hash as OutputSizeUser>::OutputSize:
         IsLess<U256> + IsLessOrEqual<<CS::Hash as BlockSizeUser>::BlockSize>,
 {
+    // The output hash frames the input with a 2-byte length, so `finalize`
+    // can't succeed for a longer input.
+    i2osp_2(input.len()).map_err(|_| Error::Input)?;
+
     let hashed_point = hash_to_group::<CS>(input, mode)?;
 
     // https://www.rfc-editor.org/rfc/rfc9497#section-3.3.1
-- 
2.43.0


From 9349bc024e636d9d29fd654d808b3ba8eb14c75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:38 +0000
Subject: [PATCH 6/7] fix: only accept the compressed encoding of NIST curve
 elements

deserialize_elem also accepted the uncompressed and the compact SEC1 encoding (tag
5), so one element had several encodings that the peer would accept.
---
 src/group/elliptic_curve.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/group/elliptic_curve.rs b/src/group/elliptic_curve.rs
index e74b1c2..4f55188 100644
--- a/src/group/elliptic_curve.rs
+++ b/src/group/elliptic_curve.rs
@@ -10,7 +10,7 @@ use digest::core_api::BlockSizeUser;
 use digest::{FixedOutput, HashMarker};
 use elliptic_curve::group::cofactor::CofactorGroup;
 use elliptic_curve::hash2curve::{ExpandMsgXmd, FromOkm, GroupDigest};
-use elliptic_curve::sec1::{FromEncodedPoint, ModulusSize, ToEncodedPoint};
+use elliptic_curve::sec1::{EncodedPoint, FromEncodedPoint, ModulusSize, ToEncodedPoint};
 use elliptic_curve::{
     AffinePoint, Field, FieldBytesSize, Group as _, ProjectivePoint, PublicKey, Scalar, SecretKey,
 };
@@ -74,9 +74,14 @@ where
     }
 
     fn deserialize_elem(element_bits: &[u8]) -> Result<Self::Elem> {
-        PublicKey::<Self>::from_sec1_bytes(element_bits)
-            .map(|public_key| public_key.to_projective())
-            .map_err(|_| Error::Deserialization)
+        // `SerializeElement()` is the compressed SEC1 encoding, don't accept
+        // any of the other SEC1 encodings of the same element.
+        EncodedPoint::<Self>::from_bytes(element_bits)
+            .ok()
+            .filter(|point| point.is_compressed())
+            .and_then(|point| Option::from(PublicKey::<Self>::from_encoded_point(&point)))
+            .map(|public_key: PublicKey<Self>| public_key.to_projective())
+            .ok_or(Error::Deserialization)
     }
 
     fn random_scalar<R: RngCore + CryptoRng>(rng: &mut R) -> Self::Scalar {
-- 
2.43.0


From 92ffbdc2eb97b20e1b8afbb0b252e0469cf4ae0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:09 +0000
Subject: [PATCH 7/7] fix: reject truncated NIST curve scalars

deserialize_scalar left-padded slices of 24 or more bytes instead of requiring the
fixed length, so a truncated private key was silently turned into another key.
---
 src/group/elliptic_curve.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/group/elliptic_curve.rs b/src/group/elliptic_curve.rs
index 4f55188..322bbd7 100644
--- a/src/group/elliptic_curve.rs
+++ b/src/group/elliptic_curve.rs
@@ -14,7 +14,7 @@ use elliptic_curve::sec1::{EncodedPoint, FromEncodedPoint, ModulusSize, ToEncode
 use elliptic_curve::{
     AffinePoint, Field, FieldBytesSize, Group as _, ProjectivePoint, PublicKey, Scalar, SecretKey,
 };
-use generic_array::typenum::{IsLess, IsLessOrEqual, U256};
+use generic_array::typenum::{IsLess, IsLessOrEqual, Unsigned, U256};
 use generic_array::GenericArray;
 use rand_core::{CryptoRng, RngCore};
 
@@ -106,6 +106,11 @@ where
     }
 
     fn deserialize_scalar(scalar_bits: &[u8]) -> Result<Self::Scalar> {
+        // `SecretKey::from_slice()` left-pads shorter slices.
+        if scalar_bits.len() != FieldBytesSize::<Self>::USIZE {
+            return Err(Error::Deserialization);
+        }
+
         SecretKey::<Self>::from_slice(scalar_bits)
             .map(|secret_key| *secret_key.to_nonzero_scalar())
             .map_err(|_| Error::Deserialization)
-- 
2.43.0

