From 80e5cdea743d25a547e1c2a189c661bc2b6dd1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:55 +0000
Subject: [PATCH 01/25] verif hooks: cfg(verif_hooks)-guarded module for
 external runtime monitors

---
 src/lib.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 83ff5c3..14f5b29 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -12,6 +12,7 @@
     unused_qualifications
 )]
 #![cfg_attr(not(test), warn(clippy::unwrap_used, clippy::indexing_slicing))]
+#![allow(unexpected_cfgs)] // `verif_hooks`
 
 /*!
 ## Features
@@ -25,6 +26,10 @@
 
 extern crate alloc;
 
+#[cfg(verif_hooks)]
+#[macro_use]
+extern crate std;
+
 mod curve;
 mod entities;
 mod paillier;
@@ -68,3 +73,12 @@ pub use curve::{DeriveChildKey, PublicTweakable, SecretTweakable};
 #[doc(hidden)]
 // Hack to expose internals for benchmarking purposes
 pub mod private_benches;
+
+/// Access to crate internals for external runtime monitors.
+/// Only present with `--cfg verif_hooks`; the file to include is named by `SYNEDRION_VERIF_HOOKS`.
+#[cfg(verif_hooks)]
+#[allow(missing_docs, warnings, clippy::all)]
+#[doc(hidden)]
+pub mod verif_hooks {
+    include!(env!("SYNEDRION_VERIF_HOOKS"));
+}
-- 
2.43.0


From 54cde23e402bca813e33a6a491d0732c1385b7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:47 +0000
Subject: [PATCH 02/25] fix: SecretSigned::new_positive must refuse values
 above the declared bound

---
 src/uint/secret_signed.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/uint/secret_signed.rs b/src/uint/secret_signed.rs
index 5334729..bff6735 100644
--- a/src/uint/secret_signed.rs
+++ b/src/uint/secret_signed.rs
@@ -33,10 +33,12 @@ where
 
     /// Creates a signed value from an unsigned one in constant time, assuming that it encodes a
     /// positive value treated as two's complement.
+    ///
+    /// Returns `None` if the requested bound is too large, or if `value` is actually larger than the bound.
     pub fn new_positive(value: Secret<T>, bound: u32) -> CtOption<Self> {
         let in_bound = {
             let c1 = Choice::from((bound < T::BITS) as u8);
-            let c2 = Choice::from((value.expose_secret().bits() < T::BITS) as u8);
+            let c2 = Choice::from((value.expose_secret().bits() <= bound) as u8);
             c1 & c2
         };
         let new_positive = Self::new_from_unsigned_unchecked(value, bound);
-- 
2.43.0


From 4d64de51792d010b781d297f35b06e49338c4c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:18 +0000
Subject: [PATCH 03/25] fix: hash-derived invertible residues must be below the
 modulus

---
 src/paillier/rsa.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/paillier/rsa.rs b/src/paillier/rsa.rs
index ef0e5be..a3430ba 100644
--- a/src/paillier/rsa.rs
+++ b/src/paillier/rsa.rs
@@ -309,7 +309,8 @@ impl<P: PaillierParams> PublicModulus<P> {
         let modulus_bits = self.modulus().bits_vartime();
         loop {
             let r = P::Uint::from_xof_reader(reader, modulus_bits);
-            if r.is_invertible(&self.modulus.0) {
+            // `r` has as many bits as the modulus, so it can still exceed it
+            if r < *self.modulus() && r.is_invertible(&self.modulus.0) {
                 return r;
             }
         }
-- 
2.43.0


From ba83155dff6eab5550450ce3f44a684c202d3e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:49 +0000
Subject: [PATCH 04/25] fix: the point at infinity must have a serialized form

---
 src/curve/arithmetic.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/curve/arithmetic.rs b/src/curve/arithmetic.rs
index ac8d77c..114c0d6 100644
--- a/src/curve/arithmetic.rs
+++ b/src/curve/arithmetic.rs
@@ -265,6 +265,13 @@ where
     }
 
     pub(crate) fn try_from_compressed_bytes(bytes: &[u8]) -> Result<Self, String> {
+        // The fixed-size representation of the point at infinity, see `to_compressed_array()`.
+        if bytes.len() == <FieldBytesSize<P::Curve> as ModulusSize>::CompressedPointSize::to_usize()
+            && bytes.iter().all(|byte| *byte == 0)
+        {
+            return Ok(Self::identity());
+        }
+
         let ep = EncodedPoint::<P::Curve>::from_bytes(bytes).map_err(|err| format!("{err}"))?;
 
         // Unwrap CtOption into Option
@@ -277,9 +284,13 @@ where
     pub(crate) fn to_compressed_array(
         self,
     ) -> GenericArray<u8, <FieldBytesSize<P::Curve> as ModulusSize>::CompressedPointSize> {
-        GenericArray::from_exact_iter(
-            self.0.to_affine().to_encoded_point(true).as_bytes().iter().cloned(),
-        ).expect("An AffinePoint is composed of elements of the correct size and their slice repr fits in the `CompressedPointSize`-sized array.")
+        // SEC1 encodes the point at infinity as a single zero byte, so it is padded with zeros here.
+        let mut array = GenericArray::default();
+        let encoded = self.0.to_affine().to_encoded_point(true);
+        for (byte, encoded_byte) in array.iter_mut().zip(encoded.as_bytes()) {
+            *byte = *encoded_byte;
+        }
+        array
     }
 
     pub(crate) fn to_backend(self) -> <P::Curve as CurveArithmetic>::ProjectivePoint {
-- 
2.43.0


From 08a4c22ce15dc87b5e6d3dc3461d590f461cf643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:06 +0000
Subject: [PATCH 05/25] fix: even and zero moduli must be rejected at
 deserialization

---
 src/paillier/rsa.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/paillier/rsa.rs b/src/paillier/rsa.rs
index a3430ba..bf63774 100644
--- a/src/paillier/rsa.rs
+++ b/src/paillier/rsa.rs
@@ -5,14 +5,14 @@ use crypto_primes::{
 };
 use digest::XofReader;
 use rand_core::CryptoRngCore;
-use serde::{Deserialize, Serialize};
+use serde::{de::Error, Deserialize, Deserializer, Serialize};
 
 use super::params::PaillierParams;
 use crate::{
     tools::Secret,
     uint::{
-        Extendable, FromXofReader, IsInvertible, MulWide, PublicSigned, PublicUint, SecretSigned, SecretUnsigned,
-        ToMontgomery,
+        BoxedEncoding, Extendable, FromXofReader, IsInvertible, MulWide, PublicSigned, PublicUint, SecretSigned,
+        SecretUnsigned, ToMontgomery,
     },
 };
 
@@ -227,7 +227,24 @@ impl<P: PaillierParams> SecretPrimes<P> {
 ///
 /// Suitable for serialization or transmission.
 #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
-pub(crate) struct PublicModulusWire<P: PaillierParams>(PublicUint<P::Uint>);
+pub(crate) struct PublicModulusWire<P: PaillierParams>(
+    #[serde(deserialize_with = "deserialize_modulus")] PublicUint<P::Uint>,
+);
+
+/// Deserializes an RSA modulus, rejecting even numbers (including zero),
+/// since no arithmetic can be set up for those.
+fn deserialize_modulus<'de, D, T>(deserializer: D) -> Result<PublicUint<T>, D::Error>
+where
+    D: Deserializer<'de>,
+    T: Integer + BoxedEncoding,
+{
+    let modulus = PublicUint::<T>::deserialize(deserializer)?;
+    if bool::from(modulus.is_odd()) {
+        Ok(modulus)
+    } else {
+        Err(D::Error::custom("The modulus must be odd"))
+    }
+}
 
 impl<P: PaillierParams> PublicModulusWire<P> {
     fn new(primes: &SecretPrimesWire<P>) -> Self {
-- 
2.43.0


From 3d9c57d2218e4b62ebee4dd364cd9f30823a515a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:42 +0000
Subject: [PATCH 06/25] fix: verification of prm and mod proofs must require
 all the repetitions

---
 src/zk/mod_.rs | 4 ++++
 src/zk/prm.rs  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/zk/mod_.rs b/src/zk/mod_.rs
index 3b7d597..0a925ad 100644
--- a/src/zk/mod_.rs
+++ b/src/zk/mod_.rs
@@ -142,6 +142,10 @@ impl<P: SchemeParams> ModProof<P> {
             return false;
         }
 
+        if challenge.0.len() != self.proof.len() {
+            return false;
+        }
+
         let mut reader = Hasher::<P::Digest>::new_with_dst(b"P_mod RNG")
             // commitments
             .chain(&self.commitment)
diff --git a/src/zk/prm.rs b/src/zk/prm.rs
index 31e907b..246aa7c 100644
--- a/src/zk/prm.rs
+++ b/src/zk/prm.rs
@@ -110,6 +110,10 @@ impl<P: SchemeParams> PrmProof<P> {
             return false;
         }
 
+        if challenge.0.bits().len() != self.commitment.0.len() || challenge.0.bits().len() != self.proof.len() {
+            return false;
+        }
+
         for ((e, z), a) in challenge
             .0
             .bits()
-- 
2.43.0


From 140bc99e69e610cdb0c285a7d26a6dbd310c0b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:46 +0000
Subject: [PATCH 07/25] fix: dec proof must not panic for a single party

---
 src/zk/dec.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zk/dec.rs b/src/zk/dec.rs
index cb92ac8..4fac6f3 100644
--- a/src/zk/dec.rs
+++ b/src/zk/dec.rs
@@ -100,7 +100,7 @@ impl<P: SchemeParams> DecProof<P> {
 
         // DEVIATION FROM THE PAPER.
         // The expected range of `y` is extended, see the comment for `DecSecretInputs::y`.
-        let ceil_log2_num_parties = (public.num_parties - 1).ilog2() + 1;
+        let ceil_log2_num_parties = public.num_parties.next_power_of_two().ilog2();
         let y_bound = P::LP_BOUND + P::EPS_BOUND + 1 + ceil_log2_num_parties;
         secret.y.assert_exponent_range(y_bound);
 
@@ -254,7 +254,7 @@ impl<P: SchemeParams> DecProof<P> {
 
             // DEVIATION FROM THE PAPER.
             // The expected range of `y` is extended, see the comment for `DecSecretInputs::y`.
-            let ceil_log2_num_parties = (public.num_parties - 1).ilog2() + 1;
+            let ceil_log2_num_parties = public.num_parties.next_power_of_two().ilog2();
             if !element
                 .w
                 .is_in_exponent_range(P::LP_BOUND + P::EPS_BOUND + 1 + ceil_log2_num_parties + P::EPS_BOUND)
-- 
2.43.0


From 2c0e42e3f45b4970141b12942b34a10034d483c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:15 +0000
Subject: [PATCH 08/25] fix: ZK proof verification must reject non-invertible
 ring elements

---
 src/paillier/encryption.rs    | 16 +++++++++++++++-
 src/paillier/ring_pedersen.rs | 12 +++++++++++-
 src/zk/aff_g.rs               | 18 ++++++++++++++++--
 src/zk/aff_g_star.rs          | 10 ++++++++++
 src/zk/dec.rs                 | 10 ++++++++++
 src/zk/enc_elg.rs             | 12 +++++++++++-
 src/zk/fac.rs                 | 12 ++++++++++++
 src/zk/prm.rs                 |  4 ++++
 8 files changed, 89 insertions(+), 5 deletions(-)

diff --git a/src/paillier/encryption.rs b/src/paillier/encryption.rs
index 70b88f9..4b4c6d4 100644
--- a/src/paillier/encryption.rs
+++ b/src/paillier/encryption.rs
@@ -17,13 +17,22 @@ use super::{
 };
 use crate::{
     tools::Secret,
-    uint::{Exponentiable, Extendable, PublicSigned, PublicUint, SecretSigned, SecretUnsigned, ToMontgomery},
+    uint::{
+        Exponentiable, Extendable, IsInvertible, PublicSigned, PublicUint, SecretSigned, SecretUnsigned, ToMontgomery,
+    },
 };
 
 /// A public randomizer-like quantity used in ZK proofs.
 #[derive(Debug, Clone, Serialize, Deserialize)]
 pub(crate) struct MaskedRandomizer<P: PaillierParams>(PublicUint<P::Uint>);
 
+impl<P: PaillierParams> MaskedRandomizer<P> {
+    /// Returns `true` if the value belongs to $\mathbb{Z}_N^*$.
+    pub fn is_invertible(&self, pk: &PublicKeyPaillier<P>) -> bool {
+        self.0.is_invertible(pk.modulus())
+    }
+}
+
 /// A ciphertext randomizer (an invertible element of $\mathbb{Z}_N$).
 #[derive(Debug, Clone)]
 pub(crate) struct Randomizer<P: PaillierParams> {
@@ -94,6 +103,11 @@ impl<P: PaillierParams> Ciphertext<P> {
         &self.pk
     }
 
+    /// Returns `true` if the ciphertext belongs to $\mathbb{Z}_{N^2}^*$.
+    pub fn is_invertible(&self) -> bool {
+        self.ciphertext.invert().is_some().into()
+    }
+
     /// Encrypts the plaintext with the provided randomizer.
     fn new_with_randomizer_inner(
         pk: &PublicKeyPaillier<P>,
diff --git a/src/paillier/ring_pedersen.rs b/src/paillier/ring_pedersen.rs
index 66b2a78..057c570 100644
--- a/src/paillier/ring_pedersen.rs
+++ b/src/paillier/ring_pedersen.rs
@@ -1,7 +1,7 @@
 /// Implements the Definition 3.3 from the CGGMP'21 paper and related operations.
 use core::ops::Mul;
 
-use crypto_bigint::{modular::Retrieve, Integer, Monty, NonZero, RandomMod, ShrVartime};
+use crypto_bigint::{modular::Retrieve, Integer, Invert, Monty, NonZero, RandomMod, ShrVartime};
 use rand_core::CryptoRngCore;
 use serde::{Deserialize, Serialize};
 
@@ -124,6 +124,11 @@ impl<P: PaillierParams> RPParams<P> {
         self.modulus.monty_params_mod_n()
     }
 
+    /// Returns `true` if both bases belong to $\mathbb{Z}_{\hat{N}}^*$.
+    pub fn bases_are_invertible(&self) -> bool {
+        (self.base_randomizer.invert().is_some() & self.base_value.invert().is_some()).into()
+    }
+
     /// Creates a commitment for a secret `value` with a secret `randomizer`.
     pub fn commit<V, R>(&self, value: &V, randomizer: &R) -> RPCommitment<P>
     where
@@ -195,6 +200,11 @@ impl<P: PaillierParams> RPCommitment<P> {
         RPCommitmentWire(self.0.retrieve().into())
     }
 
+    /// Returns `true` if the commitment belongs to $\mathbb{Z}_{\hat{N}}^*$.
+    pub fn is_invertible(&self) -> bool {
+        self.0.invert().is_some().into()
+    }
+
     /// Raise to the power of `exponent`.
     pub fn pow<V>(&self, exponent: &V) -> Self
     where
diff --git a/src/zk/aff_g.rs b/src/zk/aff_g.rs
index 5c1c246..95bc50f 100644
--- a/src/zk/aff_g.rs
+++ b/src/zk/aff_g.rs
@@ -211,6 +211,22 @@ impl<P: SchemeParams> AffGProof<P> {
             return false;
         }
 
+        // All the elements must belong to the corresponding multiplicative groups
+        // (otherwise the equations below may be satisfied trivially, or may not make sense at all).
+        let cap_s = self.cap_s.to_precomputed(setup);
+        let cap_t = self.cap_t.to_precomputed(setup);
+        if !public.cap_c.is_invertible()
+            || !public.cap_d.is_invertible()
+            || !public.cap_y.is_invertible()
+            || !self.w.is_invertible(public.pk0)
+            || !self.w_y.is_invertible(public.pk1)
+            || !setup.bases_are_invertible()
+            || !cap_s.is_invertible()
+            || !cap_t.is_invertible()
+        {
+            return false;
+        }
+
         // C (*) z_1 (+) enc_0(z_2, w) == A (+) D (*) e
         if public.cap_c * &self.z1 + Ciphertext::new_public_with_randomizer(public.pk0, &self.z2, &self.w)
             != public.cap_d * &e + self.cap_a.to_precomputed(public.pk0)
@@ -236,14 +252,12 @@ impl<P: SchemeParams> AffGProof<P> {
 
         // s^{z_1} t^{z_3} == E S^e \mod \hat{N}
         let cap_e = self.cap_e.to_precomputed(setup);
-        let cap_s = self.cap_s.to_precomputed(setup);
         if setup.commit(&self.z1, &self.z3) != &cap_e * &cap_s.pow(&e) {
             return false;
         }
 
         // s^{z_2} t^{z_4} == F T^e \mod \hat{N}
         let cap_f = self.cap_f.to_precomputed(setup);
-        let cap_t = self.cap_t.to_precomputed(setup);
         if setup.commit(&self.z2, &self.z4) != &cap_f * &cap_t.pow(&e) {
             return false;
         }
diff --git a/src/zk/aff_g_star.rs b/src/zk/aff_g_star.rs
index 697c616..5bc217a 100644
--- a/src/zk/aff_g_star.rs
+++ b/src/zk/aff_g_star.rs
@@ -201,6 +201,12 @@ impl<P: SchemeParams> AffGStarProof<P> {
             return false;
         }
 
+        // All the elements must belong to the corresponding multiplicative groups
+        // (otherwise the equations below may be satisfied trivially, or may not make sense at all).
+        if !public.cap_c.is_invertible() || !public.cap_d.is_invertible() || !public.cap_y.is_invertible() {
+            return false;
+        }
+
         for ((e_bit, commitment), element) in e
             .bits()
             .iter()
@@ -218,6 +224,10 @@ impl<P: SchemeParams> AffGStarProof<P> {
                 return false;
             }
 
+            if !element.w.is_invertible(public.pk0) || !element.lambda.is_invertible(public.pk1) {
+                return false;
+            }
+
             // C (*) z_j (+) enc_0(z^\prime_j, w_j) == A_j (+) D_j (*) e_j
             let cap_a = commitment.cap_a.to_precomputed(public.pk0);
             let lhs = public.cap_c * &element.z
diff --git a/src/zk/dec.rs b/src/zk/dec.rs
index 4fac6f3..1ebae27 100644
--- a/src/zk/dec.rs
+++ b/src/zk/dec.rs
@@ -206,6 +206,12 @@ impl<P: SchemeParams> DecProof<P> {
             return false;
         }
 
+        // All the elements must belong to the corresponding multiplicative groups
+        // (otherwise the equations below may be satisfied trivially, or may not make sense at all).
+        if !public.cap_k.is_invertible() || !public.cap_d.is_invertible() {
+            return false;
+        }
+
         for ((e_bit, commitment), element) in e
             .bits()
             .iter()
@@ -213,6 +219,10 @@ impl<P: SchemeParams> DecProof<P> {
             .zip(self.commitments.iter())
             .zip(self.elements.iter())
         {
+            if !element.nu.is_invertible(public.pk0) {
+                return false;
+            }
+
             // enc(w_j, \nu_j) (+) K (*) (-z_j) == A_j (+) D (*) e_j
             let cap_a = commitment.cap_a.to_precomputed(public.pk0);
             let lhs = Ciphertext::new_public_wide_with_randomizer(public.pk0, &element.w, &element.nu)
diff --git a/src/zk/enc_elg.rs b/src/zk/enc_elg.rs
index 94fc985..90804e8 100644
--- a/src/zk/enc_elg.rs
+++ b/src/zk/enc_elg.rs
@@ -161,6 +161,17 @@ impl<P: SchemeParams> EncElgProof<P> {
             return false;
         }
 
+        // All the elements must belong to the corresponding multiplicative groups
+        // (otherwise the equations below may be satisfied trivially, or may not make sense at all).
+        let cap_s = self.cap_s.to_precomputed(setup);
+        if !public.cap_c.is_invertible()
+            || !self.z2.is_invertible(public.pk0)
+            || !setup.bases_are_invertible()
+            || !cap_s.is_invertible()
+        {
+            return false;
+        }
+
         // enc_0(z_1, z_2) == D (+) C (*) e
         let c = Ciphertext::new_public_with_randomizer(public.pk0, &self.z1, &self.z2);
         let cap_d = self.cap_d.to_precomputed(public.pk0);
@@ -181,7 +192,6 @@ impl<P: SchemeParams> EncElgProof<P> {
 
         // s^{z_1} t^{z_3} == T S^e \mod \hat{N}
         let cap_t = self.cap_t.to_precomputed(setup);
-        let cap_s = self.cap_s.to_precomputed(setup);
         if setup.commit(&self.z1, &self.z3) != &cap_t * &cap_s.pow(&e_signed) {
             return false;
         }
diff --git a/src/zk/fac.rs b/src/zk/fac.rs
index f755b11..306c8d6 100644
--- a/src/zk/fac.rs
+++ b/src/zk/fac.rs
@@ -180,12 +180,21 @@ impl<P: SchemeParams> FacProof<P> {
             return false;
         }
 
+        // All the elements must belong to the corresponding multiplicative groups
+        // (otherwise the equations below may be satisfied trivially, or may not make sense at all).
+        if !setup.bases_are_invertible() {
+            return false;
+        }
+
         // R = s^{N_0}
         let cap_r = &setup.commit_zero_randomizer(&pk0.modulus_signed());
 
         // s^{z_1} t^{w_1} == A P^e \mod \hat{N}
         let cap_a = self.cap_a.to_precomputed(setup);
         let cap_p = self.cap_p.to_precomputed(setup);
+        if !cap_p.is_invertible() {
+            return false;
+        }
         if setup.commit(&self.z1, &self.w1) != &cap_a * &cap_p.pow(&e) {
             return false;
         }
@@ -193,6 +202,9 @@ impl<P: SchemeParams> FacProof<P> {
         // s^{z_2} t^{w_2} == B Q^e \mod \hat{N}
         let cap_b = self.cap_b.to_precomputed(setup);
         let cap_q = self.cap_q.to_precomputed(setup);
+        if !cap_q.is_invertible() {
+            return false;
+        }
         if setup.commit(&self.z2, &self.w2) != &cap_b * &cap_q.pow(&e) {
             return false;
         }
diff --git a/src/zk/prm.rs b/src/zk/prm.rs
index 246aa7c..9aad838 100644
--- a/src/zk/prm.rs
+++ b/src/zk/prm.rs
@@ -114,6 +114,10 @@ impl<P: SchemeParams> PrmProof<P> {
             return false;
         }
 
+        if !setup.bases_are_invertible() {
+            return false;
+        }
+
         for ((e, z), a) in challenge
             .0
             .bits()
-- 
2.43.0


From c635b1b9baa9921d661dab0c75b29d174db979c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:30 +0000
Subject: [PATCH 09/25] fix: keep the secret primes out of the debug output of
 SecretKeyPaillier

---
 src/paillier/keys.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/paillier/keys.rs b/src/paillier/keys.rs
index e7b2c70..5451df3 100644
--- a/src/paillier/keys.rs
+++ b/src/paillier/keys.rs
@@ -47,7 +47,8 @@ impl<P: PaillierParams> SecretKeyPaillierWire<P> {
     }
 }
 
-#[derive(Debug, Clone)]
+#[derive(Clone)]
+#[derive_where::derive_where(Debug)]
 pub(crate) struct SecretKeyPaillier<P: PaillierParams> {
     /// The secret primes with some precomputed constants,
     primes: SecretPrimes<P>,
@@ -60,9 +61,12 @@ pub(crate) struct SecretKeyPaillier<P: PaillierParams> {
     // $u$ such that $u = -1 \mod p$ and $u = 1 \mod q$. Used for sampling of non-square residues.
     nonsquare_sampling_constant: Secret<<P::Uint as Integer>::Monty>,
     // TODO (#162): these should be secret, but they are not zeroizable.
+    // They contain the primes, so they must not show up in the debug output.
     /// Montgomery parameters for operations modulo $p$.
+    #[derive_where(skip(Debug))]
     monty_params_mod_p: <<P::HalfUint as Integer>::Monty as Monty>::Params,
     /// Montgomery parameters for operations modulo $q$.
+    #[derive_where(skip(Debug))]
     monty_params_mod_q: <<P::HalfUint as Integer>::Monty as Monty>::Params,
     /// The precomputed public key
     public_key: PublicKeyPaillier<P>,
-- 
2.43.0


From 2bc1656a622547dccb391b8f59b30b5d35f9b6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:06 +0000
Subject: [PATCH 10/25] fix: do not leak the size of a secret integer when
 shortening it

---
 src/uint/traits.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/uint/traits.rs b/src/uint/traits.rs
index 557944a..ab7508b 100644
--- a/src/uint/traits.rs
+++ b/src/uint/traits.rs
@@ -155,7 +155,10 @@ impl<const L: usize, const W: usize> Extendable<Uint<W>> for Uint<L> {
             }
         }
 
-        if value.bits_vartime() > Uint::<L>::BITS {
+        // `value` may be secret, so its exact size must not affect the control flow,
+        // only whether the high part of it is non-zero.
+        let hi = value.as_limbs()[L..].iter().fold(Limb::ZERO, |acc, limb| acc | *limb);
+        if hi != Limb::ZERO {
             return None;
         }
 
-- 
2.43.0


From 0a963b614e1f4d047b4024f01fc62a830925c872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:49 +0000
Subject: [PATCH 11/25] fix: key resharing must work with the threshold 1 and
 reject polynomials of a wrong length

Evaluating a public polynomial with one coefficient panicked, so resharing to
the new threshold 1 always failed, and a peer could crash the new holders by
sending an empty or one-element polynomial. Longer or shorter polynomials
changed the effective threshold.
---
 src/protocols/key_resharing.rs | 6 ++++++
 src/tools/sss.rs               | 7 ++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/protocols/key_resharing.rs b/src/protocols/key_resharing.rs
index 2a55759..dbd61eb 100644
--- a/src/protocols/key_resharing.rs
+++ b/src/protocols/key_resharing.rs
@@ -77,6 +77,8 @@ pub enum KeyResharingError {
     UnexpectedSender,
     /// Mismatch of the subshare
     SubshareMismatch,
+    /// The number of coefficients in the public polynomial is different from the new threshold
+    WrongPolynomialLength,
 }
 
 impl<I> ProtocolError<I> for KeyResharingError {
@@ -348,6 +350,10 @@ impl<P: SchemeParams, I: PartyId> Round<I> for Round1<P, I> {
 
         if let Some(new_holder) = self.new_holder.as_ref() {
             if new_holder.inputs.old_holders.contains(from) {
+                if echo_broadcast.public_polynomial.len() != self.new_threshold {
+                    return Err(ReceiveError::protocol(KeyResharingError::WrongPolynomialLength));
+                }
+
                 let my_share_id = self.new_share_ids.get(&self.my_id).ok_or(LocalError::new(format!(
                     "my_id={:?} is missing from the new_share_ids",
                     &self.my_id
diff --git a/src/tools/sss.rs b/src/tools/sss.rs
index 62dc040..9676b98 100644
--- a/src/tools/sss.rs
+++ b/src/tools/sss.rs
@@ -39,7 +39,7 @@ where
     Coef: Copy + Add<Coef, Output = Coef> + for<'a> Mul<&'a Scalar<P>, Output = Coef> + Clone,
     P: SchemeParams,
 {
-    assert!(coeffs.len() > 1, "Expected coefficients to be non-empty");
+    assert!(!coeffs.is_empty(), "Expected coefficients to be non-empty");
     // Evaluate in reverse to save on multiplications.
     // Basically: a0 + a1 x + a2 x^2 + a3 x^3 == (((a3 x) + a2) x + a1) x + a0
 
@@ -98,6 +98,11 @@ where
         evaluate_polynomial(&self.0, &x.0)
     }
 
+    /// The number of coefficients.
+    pub fn len(&self) -> usize {
+        self.0.len()
+    }
+
     pub fn coeff0(&self) -> Result<&Point<P>, LocalError> {
         self.0
             .first()
-- 
2.43.0


From 648955af6c4b3af88290716c68a5cb299842b426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:14 +0000
Subject: [PATCH 12/25] fix: the evidence for a failed \hat{psi} proof uses the
 share of the accused party

The protocol verifies the proof against the sender's public share; the evidence used the share of the
party the proof was made for, so the genuine proof of an honest party did not verify.
---
 src/protocols/interactive_signing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocols/interactive_signing.rs b/src/protocols/interactive_signing.rs
index 5a69056..400e034 100644
--- a/src/protocols/interactive_signing.rs
+++ b/src/protocols/interactive_signing.rs
@@ -494,7 +494,7 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                     .normal_broadcast
                     .deserialize::<Round2NormalBroadcast<P, Id>>(format)?;
 
-                let cap_x = associated_data.shares.as_map().try_get("shares", failed_for)?;
+                let cap_x = associated_data.shares.as_map().try_get("shares", guilty_party)?;
 
                 let failed_for_aux = &associated_data.aux.as_map().try_get("aux infos", failed_for)?;
                 let guilty_party_aux = &associated_data.aux.as_map().try_get("aux infos", guilty_party)?;
-- 
2.43.0


From a469b9440d655e155694e7c8e7fcf4a96e4c72cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:15 +0000
Subject: [PATCH 13/25] fix: the evidence for a failed Round 3 elog proof uses
 the combined Gamma

The protocol verifies the proof against the sum of all parties' Gamma; the evidence used the accused
party's only, so the genuine proof of an honest party did not verify.
---
 src/protocols/interactive_signing.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/protocols/interactive_signing.rs b/src/protocols/interactive_signing.rs
index 400e034..d2554ae 100644
--- a/src/protocols/interactive_signing.rs
+++ b/src/protocols/interactive_signing.rs
@@ -298,7 +298,7 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                     ]
                     .into(),
                 ),
-                None,
+                Some([2.into()].into()),
             ),
             Error::R4InvalidSignatureShare => RequiredMessages::new(
                 RequiredMessageParts::normal_broadcast(),
@@ -558,6 +558,9 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                     .get_round(1)?
                     .echo_broadcast
                     .deserialize::<Round1EchoBroadcast<P>>(format)?;
+                let r2_ebs = combined_echos
+                    .get_round(2)?
+                    .deserialize_all::<Round2EchoBroadcast<P, Id>>(format)?;
                 let r2_eb = previous_messages
                     .get_round(2)?
                     .echo_broadcast
@@ -567,13 +570,15 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                     .deserialize::<Round3NormalBroadcast<P>>(format)?;
                 let aux = (&epid, guilty_party);
 
+                let cap_gamma_combined = r2_eb.cap_gamma + r2_ebs.values().map(|eb| eb.cap_gamma).sum();
+
                 verify_that(!r3_nb.psi_prime.verify(
                     ElogPublicInputs {
                         cap_l: &r1_eb.cap_a1,
                         cap_m: &r1_eb.cap_a2,
                         cap_x: &r1_eb.cap_y,
                         cap_y: &r3_nb.cap_delta,
-                        h: &r2_eb.cap_gamma,
+                        h: &cap_gamma_combined,
                     },
                     &aux,
                 ))
-- 
2.43.0


From f0bc9a05b3763e59faa310b1c6fbe83fb051edc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:15 +0000
Subject: [PATCH 14/25] fix: the evidence for a failed enc-elg proof uses the
 setup of the party that received it

The proofs are made for the receiver's ring-Pedersen setup. The evidence verified them against the setup
of the accused party, so the genuine proof of an honest party did not verify.
---
 src/protocols/interactive_signing.rs | 42 ++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/src/protocols/interactive_signing.rs b/src/protocols/interactive_signing.rs
index d2554ae..238deb7 100644
--- a/src/protocols/interactive_signing.rs
+++ b/src/protocols/interactive_signing.rs
@@ -135,8 +135,8 @@ impl<P, Id: Debug> Display for InteractiveSigningError<P, Id> {
             f,
             "{}",
             match self.error {
-                Error::R1EncElg0Failed => "Round 1: failed to verify `\\psi^0` (`П^{enc-elg}` proof).",
-                Error::R1EncElg1Failed => "Round 1: failed to verify `\\psi^1` (`П^{enc-elg}` proof).",
+                Error::R1EncElg0Failed { .. } => "Round 1: failed to verify `\\psi^0` (`П^{enc-elg}` proof).",
+                Error::R1EncElg1Failed { .. } => "Round 1: failed to verify `\\psi^1` (`П^{enc-elg}` proof).",
                 Error::R2WrongIdsD => "Round 2: wrong IDs in `D` map.",
                 Error::R2WrongIdsF => "Round 2: wrong IDs in `F` map.",
                 Error::R2WrongIdsPsi => "Round 2: wrong IDs in `\\psi` map (`П^{aff-g}` proofs for `D`).",
@@ -160,8 +160,14 @@ impl<P, Id: Debug> Display for InteractiveSigningError<P, Id> {
 /// Possible verifiable errors of the InteractiveSigning protocol.
 #[derive(Debug, Clone, Serialize, Deserialize)]
 enum Error<Id> {
-    R1EncElg0Failed,
-    R1EncElg1Failed,
+    R1EncElg0Failed {
+        /// The index $i$ of the node that produced the evidence.
+        reported_by: Id,
+    },
+    R1EncElg1Failed {
+        /// The index $i$ of the node that produced the evidence.
+        reported_by: Id,
+    },
     R2WrongIdsD,
     R2WrongIdsF,
     R2WrongIdsPsi,
@@ -265,10 +271,10 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
 
     fn required_messages(&self) -> RequiredMessages {
         match self.error {
-            Error::R1EncElg0Failed => {
+            Error::R1EncElg0Failed { .. } => {
                 RequiredMessages::new(RequiredMessageParts::echo_broadcast().and_direct_message(), None, None)
             }
-            Error::R1EncElg1Failed => {
+            Error::R1EncElg1Failed { .. } => {
                 RequiredMessages::new(RequiredMessageParts::echo_broadcast().and_direct_message(), None, None)
             }
             Error::R2WrongIdsD => RequiredMessages::new(RequiredMessageParts::normal_broadcast(), None, None),
@@ -363,13 +369,14 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
         let epid = Epid::new::<P, Id>(shared_randomness, associated_data);
 
         match &self.error {
-            Error::R1EncElg0Failed => {
+            Error::R1EncElg0Failed { reported_by } => {
                 let r1_dm = message.direct_message.deserialize::<Round1DirectMessage<P>>(format)?;
                 let r1_eb = message.echo_broadcast.deserialize::<Round1EchoBroadcast<P>>(format)?;
 
                 let public_aux = &associated_data.aux.as_map().try_get("aux infos", guilty_party)?;
+                let reported_by_aux = &associated_data.aux.as_map().try_get("aux infos", reported_by)?;
                 let pk = public_aux.paillier_pk.clone().into_precomputed();
-                let rp = public_aux.rp_params.to_precomputed();
+                let rp = reported_by_aux.rp_params.to_precomputed();
 
                 let aux = (&epid, guilty_party);
 
@@ -385,13 +392,14 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                     &aux,
                 ))
             }
-            Error::R1EncElg1Failed => {
+            Error::R1EncElg1Failed { reported_by } => {
                 let r1_dm = message.direct_message.deserialize::<Round1DirectMessage<P>>(format)?;
                 let r1_eb = message.echo_broadcast.deserialize::<Round1EchoBroadcast<P>>(format)?;
 
                 let public_aux = &associated_data.aux.as_map().try_get("aux infos", guilty_party)?;
+                let reported_by_aux = &associated_data.aux.as_map().try_get("aux infos", reported_by)?;
                 let pk = public_aux.paillier_pk.clone().into_precomputed();
-                let rp = public_aux.rp_params.to_precomputed();
+                let rp = reported_by_aux.rp_params.to_precomputed();
 
                 let aux = (&epid, guilty_party);
 
@@ -1240,7 +1248,12 @@ impl<P: SchemeParams, Id: PartyId> Round<Id> for Round1<P, Id> {
             &public_aux.rp_params,
             &aux,
         ) {
-            return Err(ReceiveError::protocol(Error::R1EncElg0Failed.into()));
+            return Err(ReceiveError::protocol(
+                Error::R1EncElg0Failed {
+                    reported_by: self.context.my_id.clone(),
+                }
+                .into(),
+            ));
         }
 
         if !direct_message.psi1.verify(
@@ -1254,7 +1267,12 @@ impl<P: SchemeParams, Id: PartyId> Round<Id> for Round1<P, Id> {
             &public_aux.rp_params,
             &aux,
         ) {
-            return Err(ReceiveError::protocol(Error::R1EncElg1Failed.into()));
+            return Err(ReceiveError::protocol(
+                Error::R1EncElg1Failed {
+                    reported_by: self.context.my_id.clone(),
+                }
+                .into(),
+            ));
         }
 
         Ok(Payload::new(Round1Payload::<P> {
-- 
2.43.0


From bd72f4c491b87311fd7b60b0479209a8f3cd7781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:15 +0000
Subject: [PATCH 15/25] fix: the evidence for wrong IDs in Rounds 5 and 6 reads
 the echo broadcast

The proof maps are in the echo broadcast; the normal broadcast is empty in these rounds, and the evidence
was always rejected.
---
 src/protocols/interactive_signing.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/protocols/interactive_signing.rs b/src/protocols/interactive_signing.rs
index 238deb7..f5e4f21 100644
--- a/src/protocols/interactive_signing.rs
+++ b/src/protocols/interactive_signing.rs
@@ -702,8 +702,8 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
             }
             Error::R5WrongIdsPsi => {
                 // TODO (#188): currently unreachable from tests
-                let r5_nb = message
-                    .normal_broadcast
+                let r5_eb = message
+                    .echo_broadcast
                     .deserialize::<Round5EchoBroadcast<P, Id>>(format)?;
                 let expected_ids = associated_data
                     .aux
@@ -711,7 +711,7 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                     .keys()
                     .collect::<BTreeSet<_>>()
                     .without(&guilty_party);
-                verify_that(r5_nb.psis.keys().collect::<BTreeSet<_>>() != expected_ids)
+                verify_that(r5_eb.psis.keys().collect::<BTreeSet<_>>() != expected_ids)
             }
             Error::R5AffGStarFailed { failed_for } => {
                 // TODO (#188): currently unreachable from tests
@@ -854,8 +854,8 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
             }
             Error::R6WrongIdsPsi => {
                 // TODO (#188): currently unreachable from tests
-                let r6_nb = message
-                    .normal_broadcast
+                let r6_eb = message
+                    .echo_broadcast
                     .deserialize::<Round6EchoBroadcast<P, Id>>(format)?;
                 let expected_ids = associated_data
                     .aux
@@ -863,7 +863,7 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                     .keys()
                     .collect::<BTreeSet<_>>()
                     .without(&guilty_party);
-                verify_that(r6_nb.hat_psis.keys().collect::<BTreeSet<_>>() != expected_ids)
+                verify_that(r6_eb.hat_psis.keys().collect::<BTreeSet<_>>() != expected_ids)
             }
             Error::R6AffGStarFailed { failed_for } => {
                 // TODO (#188): currently unreachable from tests
-- 
2.43.0


From 6bf859dc1e3dce6121f583b17b8240485ff537a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:16 +0000
Subject: [PATCH 16/25] fix: the evidence for failed aff-g* proofs uses the
 inputs which the protocol verifies

The keys, the two ciphertexts and the share were mixed up: judging the evidence panicked, and in Round 6
the required messages were not requested at all.
---
 src/protocols/interactive_signing.rs | 44 +++++++++++++---------------
 1 file changed, 20 insertions(+), 24 deletions(-)

diff --git a/src/protocols/interactive_signing.rs b/src/protocols/interactive_signing.rs
index f5e4f21..5a18d7d 100644
--- a/src/protocols/interactive_signing.rs
+++ b/src/protocols/interactive_signing.rs
@@ -333,7 +333,7 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
             Error::R5AffGStarFailed { .. } => RequiredMessages::new(
                 RequiredMessageParts::echo_broadcast(),
                 Some([(2.into(), RequiredMessageParts::echo_broadcast().and_normal_broadcast())].into()),
-                Some([1.into(), 2.into()].into()),
+                Some([1.into()].into()),
             ),
             Error::R6DecFailed => RequiredMessages::new(
                 RequiredMessageParts::echo_broadcast(),
@@ -350,8 +350,8 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
             Error::R6WrongIdsPsi => RequiredMessages::new(RequiredMessageParts::echo_broadcast(), None, None),
             Error::R6AffGStarFailed { .. } => RequiredMessages::new(
                 RequiredMessageParts::echo_broadcast(),
-                None,
-                Some([1.into(), 2.into()].into()),
+                Some([(2.into(), RequiredMessageParts::echo_broadcast().and_normal_broadcast())].into()),
+                Some([1.into()].into()),
             ),
         }
     }
@@ -718,9 +718,6 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                 let r1_ebs = combined_echos
                     .get_round(1)?
                     .deserialize_all::<Round1EchoBroadcast<P>>(format)?;
-                let r2_ebs = combined_echos
-                    .get_round(2)?
-                    .deserialize_all::<Round2EchoBroadcast<P, Id>>(format)?;
                 let r2_nb = previous_messages
                     .get_round(2)?
                     .normal_broadcast
@@ -753,20 +750,19 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                     .try_get("Round 1 echo broadcasts", failed_for)?
                     .cap_k
                     .to_precomputed(&failed_for_pk);
-                let cap_f = r2_ebs
-                    .try_get("Round 2 echo broadcasts", failed_for)?
+                let cap_f = r2_eb
                     .cap_fs
-                    .try_get("`F` map", guilty_party)?
+                    .try_get("`F` map", failed_for)?
                     .to_precomputed(&guilty_party_pk);
 
                 let psi = r5_eb.psis.try_get("`\\{psi}` map", failed_for)?;
 
                 verify_that(!psi.verify(
                     AffGStarPublicInputs {
-                        pk0: &guilty_party_pk,
-                        pk1: &failed_for_pk,
-                        cap_c: &cap_d,
-                        cap_d: &cap_k,
+                        pk0: &failed_for_pk,
+                        pk1: &guilty_party_pk,
+                        cap_c: &cap_k,
+                        cap_d: &cap_d,
                         cap_y: &cap_f,
                         cap_x: &r2_eb.cap_gamma,
                     },
@@ -870,13 +866,14 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                 let r1_ebs = combined_echos
                     .get_round(1)?
                     .deserialize_all::<Round1EchoBroadcast<P>>(format)?;
-                let r2_ebs = combined_echos
-                    .get_round(2)?
-                    .deserialize_all::<Round2EchoBroadcast<P, Id>>(format)?;
                 let r2_nb = previous_messages
                     .get_round(2)?
                     .normal_broadcast
                     .deserialize::<Round2NormalBroadcast<P, Id>>(format)?;
+                let r2_eb = previous_messages
+                    .get_round(2)?
+                    .echo_broadcast
+                    .deserialize::<Round2EchoBroadcast<P, Id>>(format)?;
                 let r6_eb = message
                     .echo_broadcast
                     .deserialize::<Round6EchoBroadcast<P, Id>>(format)?;
@@ -889,7 +886,7 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                 let guilty_party_pk = guilty_party_aux.paillier_pk.clone().into_precomputed();
                 let aux = (&epid, guilty_party);
 
-                let cap_x = associated_data.shares.as_map().try_get("shares", failed_for)?;
+                let cap_x = associated_data.shares.as_map().try_get("shares", guilty_party)?;
 
                 // l = failed_for
                 // j = guilty_party
@@ -903,20 +900,19 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                     .try_get("Round 1 echo broadcasts", failed_for)?
                     .cap_k
                     .to_precomputed(&failed_for_pk);
-                let hat_cap_f = r2_ebs
-                    .try_get("Round 2 echo broadcasts", failed_for)?
+                let hat_cap_f = r2_eb
                     .hat_cap_fs
-                    .try_get("`\\hat{F}` map", guilty_party)?
+                    .try_get("`\\hat{F}` map", failed_for)?
                     .to_precomputed(&guilty_party_pk);
 
                 let hat_psi = r6_eb.hat_psis.try_get("`\\hat{\\psi}` map", failed_for)?;
 
                 verify_that(!hat_psi.verify(
                     AffGStarPublicInputs {
-                        pk0: &guilty_party_pk,
-                        pk1: &failed_for_pk,
-                        cap_c: &hat_cap_d,
-                        cap_d: &cap_k,
+                        pk0: &failed_for_pk,
+                        pk1: &guilty_party_pk,
+                        cap_c: &cap_k,
+                        cap_d: &hat_cap_d,
                         cap_y: &hat_cap_f,
                         cap_x,
                     },
-- 
2.43.0


From 78bcc778c2be598d31e0297b64ef8dbafcf3db25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:16 +0000
Subject: [PATCH 17/25] fix: check the IDs of the \hat{D}, \hat{F} and
 \hat{psi} maps in Round 2

Only the maps without hats were checked. A map with missing or unknown IDs made the receiver fail with an
internal error which named nobody.
---
 src/protocols/interactive_signing.rs | 58 ++++++++++++++++++++++++++++
 1 file changed, 58 insertions(+)

diff --git a/src/protocols/interactive_signing.rs b/src/protocols/interactive_signing.rs
index 5a18d7d..fb9b927 100644
--- a/src/protocols/interactive_signing.rs
+++ b/src/protocols/interactive_signing.rs
@@ -140,6 +140,10 @@ impl<P, Id: Debug> Display for InteractiveSigningError<P, Id> {
                 Error::R2WrongIdsD => "Round 2: wrong IDs in `D` map.",
                 Error::R2WrongIdsF => "Round 2: wrong IDs in `F` map.",
                 Error::R2WrongIdsPsi => "Round 2: wrong IDs in `\\psi` map (`П^{aff-g}` proofs for `D`).",
+                Error::R2WrongIdsHatD => "Round 2: wrong IDs in `\\hat{D}` map.",
+                Error::R2WrongIdsHatF => "Round 2: wrong IDs in `\\hat{F}` map.",
+                Error::R2WrongIdsHatPsi =>
+                    "Round 2: wrong IDs in `\\hat{psi}` map (`П^{aff-g}` proofs for `\\hat{D}`).",
                 Error::R2AffGPsiFailed { .. } => "Round 2: failed to verify `\\psi` (`П^{aff-g}` proof for `D`).",
                 Error::R2AffGHatPsiFailed { .. } =>
                     "Round 2: failed to verify `\\hat{psi}` (`П^{aff-g}` proof for `\\hat{D}`).",
@@ -171,6 +175,9 @@ enum Error<Id> {
     R2WrongIdsD,
     R2WrongIdsF,
     R2WrongIdsPsi,
+    R2WrongIdsHatD,
+    R2WrongIdsHatF,
+    R2WrongIdsHatPsi,
     R2AffGPsiFailed {
         /// The index $k$ for which the verification of $\psi_{k,j}$ failed
         /// (where $j$ is the index of the guilty party).
@@ -280,6 +287,9 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
             Error::R2WrongIdsD => RequiredMessages::new(RequiredMessageParts::normal_broadcast(), None, None),
             Error::R2WrongIdsF => RequiredMessages::new(RequiredMessageParts::echo_broadcast(), None, None),
             Error::R2WrongIdsPsi => RequiredMessages::new(RequiredMessageParts::normal_broadcast(), None, None),
+            Error::R2WrongIdsHatD => RequiredMessages::new(RequiredMessageParts::normal_broadcast(), None, None),
+            Error::R2WrongIdsHatF => RequiredMessages::new(RequiredMessageParts::echo_broadcast(), None, None),
+            Error::R2WrongIdsHatPsi => RequiredMessages::new(RequiredMessageParts::normal_broadcast(), None, None),
             Error::R2AffGPsiFailed { .. } => RequiredMessages::new(
                 RequiredMessageParts::echo_broadcast().and_normal_broadcast(),
                 None,
@@ -451,6 +461,42 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                     .without(&guilty_party);
                 verify_that(r2_nb.psis.keys().collect::<BTreeSet<_>>() != expected_ids)
             }
+            Error::R2WrongIdsHatD => {
+                let r2_nb = message
+                    .normal_broadcast
+                    .deserialize::<Round2NormalBroadcast<P, Id>>(format)?;
+                let expected_ids = associated_data
+                    .aux
+                    .as_map()
+                    .keys()
+                    .collect::<BTreeSet<_>>()
+                    .without(&guilty_party);
+                verify_that(r2_nb.hat_cap_ds.keys().collect::<BTreeSet<_>>() != expected_ids)
+            }
+            Error::R2WrongIdsHatF => {
+                let r2_eb = message
+                    .echo_broadcast
+                    .deserialize::<Round2EchoBroadcast<P, Id>>(format)?;
+                let expected_ids = associated_data
+                    .aux
+                    .as_map()
+                    .keys()
+                    .collect::<BTreeSet<_>>()
+                    .without(&guilty_party);
+                verify_that(r2_eb.hat_cap_fs.keys().collect::<BTreeSet<_>>() != expected_ids)
+            }
+            Error::R2WrongIdsHatPsi => {
+                let r2_nb = message
+                    .normal_broadcast
+                    .deserialize::<Round2NormalBroadcast<P, Id>>(format)?;
+                let expected_ids = associated_data
+                    .aux
+                    .as_map()
+                    .keys()
+                    .collect::<BTreeSet<_>>()
+                    .without(&guilty_party);
+                verify_that(r2_nb.hat_psis.keys().collect::<BTreeSet<_>>() != expected_ids)
+            }
             Error::R2AffGPsiFailed { failed_for } => {
                 let r1_eb = combined_echos
                     .get_round(1)?
@@ -1588,6 +1634,18 @@ impl<P: SchemeParams, Id: PartyId> Round<Id> for Round2<P, Id> {
             return Err(ReceiveError::protocol(Error::R2WrongIdsPsi.into()));
         }
 
+        if normal_broadcast.hat_cap_ds.keys().cloned().collect::<BTreeSet<_>>() != expected_ids {
+            return Err(ReceiveError::protocol(Error::R2WrongIdsHatD.into()));
+        }
+
+        if echo_broadcast.hat_cap_fs.keys().cloned().collect::<BTreeSet<_>>() != expected_ids {
+            return Err(ReceiveError::protocol(Error::R2WrongIdsHatF.into()));
+        }
+
+        if normal_broadcast.hat_psis.keys().cloned().collect::<BTreeSet<_>>() != expected_ids {
+            return Err(ReceiveError::protocol(Error::R2WrongIdsHatPsi.into()));
+        }
+
         let sender_payload = self.r1_payloads.safe_get("Round 1 payloads", from)?;
 
         let mut cap_ds = BTreeMap::new();
-- 
2.43.0


From b38badb1c6a465d882747d5bdcb84c4cd9576e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:42 +0000
Subject: [PATCH 18/25] fix: reject `rho` of a wrong length in KeyInit instead
 of panicking

---
 src/protocols/key_init.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/protocols/key_init.rs b/src/protocols/key_init.rs
index f494d57..9940faf 100644
--- a/src/protocols/key_init.rs
+++ b/src/protocols/key_init.rs
@@ -107,6 +107,8 @@ impl<P: SchemeParams> From<Error> for KeyInitError<P> {
 enum Error {
     /// Round 2: the previously sent hash does not match the public data.
     R2HashMismatch,
+    /// Round 2: `rho` has a wrong length.
+    R2WrongRhoLength,
     /// Round 3: failed to verify `П^{{sch}}`.
     R3InvalidSchProof,
 }
@@ -128,6 +130,7 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for KeyInitError<P> {
                 Some([(1.into(), RequiredMessageParts::echo_broadcast())].into()),
                 None,
             ),
+            Error::R2WrongRhoLength => RequiredMessages::new(RequiredMessageParts::echo_broadcast(), None, None),
             Error::R3InvalidSchProof => RequiredMessages::new(
                 RequiredMessageParts::normal_broadcast(),
                 Some([(2.into(), RequiredMessageParts::echo_broadcast().and_normal_broadcast())].into()),
@@ -166,6 +169,10 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for KeyInitError<P> {
                 };
                 verify_that(data.hash(&sid, guilty_party) != r1_eb.cap_v)
             }
+            Error::R2WrongRhoLength => {
+                let r2_eb = message.echo_broadcast.deserialize::<Round2EchoBroadcast>(format)?;
+                verify_that(r2_eb.rho.bits().len() != P::SECURITY_PARAMETER)
+            }
             Error::R3InvalidSchProof => {
                 let r2_ebs = combined_echos
                     .get_round(2)?
@@ -184,6 +191,11 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for KeyInitError<P> {
 
                 let mut rho = r2_eb.rho;
                 for message in r2_ebs.values() {
+                    if message.rho.bits().len() != rho.bits().len() {
+                        return Err(ProtocolValidationError::InvalidEvidence(
+                            "The lengths of `rho` do not match".into(),
+                        ));
+                    }
                     rho ^= &message.rho;
                 }
 
@@ -448,6 +460,10 @@ impl<P: SchemeParams, Id: PartyId> Round<Id> for Round2<P, Id> {
             return Err(ReceiveError::protocol(Error::R2HashMismatch.into()));
         }
 
+        if data.rho.bits().len() != P::SECURITY_PARAMETER {
+            return Err(ReceiveError::protocol(Error::R2WrongRhoLength.into()));
+        }
+
         Ok(Payload::new(Round2Payload {
             cap_x: data.cap_x,
             rho: data.rho,
-- 
2.43.0


From 2904d185abfeb26c147b7fa713cb87ccf5f50a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:42 +0000
Subject: [PATCH 19/25] fix: reject `rid` of a wrong length in AuxGen and
 KeyRefresh instead of panicking

---
 src/protocols/aux_gen.rs     | 16 ++++++++++++++++
 src/protocols/key_refresh.rs | 18 ++++++++++++++++++
 2 files changed, 34 insertions(+)

diff --git a/src/protocols/aux_gen.rs b/src/protocols/aux_gen.rs
index b2c75f6..78794e8 100644
--- a/src/protocols/aux_gen.rs
+++ b/src/protocols/aux_gen.rs
@@ -107,6 +107,7 @@ impl<P, Id: PartyId> Display for AuxGenError<P, Id> {
             "{}",
             match self.error {
                 Error::R2HashMismatch => "Round 2: the previously sent hash does not match the public data.",
+                Error::R2WrongRidLength => "Round 2: `rid` has a wrong length.",
                 Error::R2PaillierModulusTooSmall => "Round 2: Paillier modulus is too small.",
                 Error::R2RPModulusTooSmall => "Round 2: ring-Pedersent modulus is too small.",
                 Error::R2PrmFailed => "Round 2: `П^{prm}` verification failed.",
@@ -121,6 +122,7 @@ impl<P, Id: PartyId> Display for AuxGenError<P, Id> {
 #[derive(Debug, Clone, Serialize, Deserialize)]
 enum Error<Id> {
     R2HashMismatch,
+    R2WrongRidLength,
     R2PaillierModulusTooSmall,
     R2RPModulusTooSmall,
     R2PrmFailed,
@@ -146,6 +148,11 @@ fn reconstruct_rid<P: SchemeParams, Id: PartyId>(
         .deserialize::<Round2EchoBroadcast<P>>(format)?;
     let mut rid_combined = r2_eb.rid;
     for message in r2_ebs.values() {
+        if message.rid.bits().len() != rid_combined.bits().len() {
+            return Err(ProtocolValidationError::InvalidEvidence(
+                "The lengths of `rid` do not match".into(),
+            ));
+        }
         rid_combined ^= &message.rid;
     }
     Ok(rid_combined)
@@ -168,6 +175,7 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for AuxGenError<P, Id> {
                 Some([(1.into(), RequiredMessageParts::echo_broadcast())].into()),
                 None,
             ),
+            Error::R2WrongRidLength => RequiredMessages::new(RequiredMessageParts::echo_broadcast(), None, None),
             Error::R2PaillierModulusTooSmall => {
                 RequiredMessages::new(RequiredMessageParts::normal_broadcast(), None, None)
             }
@@ -222,6 +230,10 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for AuxGenError<P, Id> {
                 };
                 verify_that(data.hash(&sid, guilty_party) != r1_eb.cap_v)
             }
+            Error::R2WrongRidLength => {
+                let r2_eb = message.echo_broadcast.deserialize::<Round2EchoBroadcast<P>>(format)?;
+                verify_that(r2_eb.rid.bits().len() != P::SECURITY_PARAMETER)
+            }
             Error::R2PaillierModulusTooSmall => {
                 let r2_nb = message
                     .normal_broadcast
@@ -552,6 +564,10 @@ impl<P: SchemeParams, Id: PartyId> Round<Id> for Round2<P, Id> {
             return Err(ReceiveError::protocol(Error::R2HashMismatch.into()));
         }
 
+        if data.rid.bits().len() != P::SECURITY_PARAMETER {
+            return Err(ReceiveError::protocol(Error::R2WrongRidLength.into()));
+        }
+
         if data.paillier_pk.modulus().bits_vartime() < <P::Paillier as PaillierParams>::MODULUS_BITS - 2 {
             return Err(ReceiveError::protocol(Error::R2PaillierModulusTooSmall.into()));
         }
diff --git a/src/protocols/key_refresh.rs b/src/protocols/key_refresh.rs
index adc6ba7..3630bf4 100644
--- a/src/protocols/key_refresh.rs
+++ b/src/protocols/key_refresh.rs
@@ -126,6 +126,7 @@ where
             "{}",
             match self.error {
                 Error::R2HashMismatch => "Round 2: the previously sent hash does not match the public data.",
+                Error::R2WrongRidLength => "Round 2: `rid` has a wrong length.",
                 Error::R2WrongIdsX => "Round 2: wrong IDs in public shares map.",
                 Error::R2WrongIdsY => "Round 2: wrong IDs in Elgamal keys map.",
                 Error::R2WrongIdsA => "Round 2: wrong IDs in Schnorr commitments map.",
@@ -153,6 +154,7 @@ where
     P: SchemeParams,
 {
     R2HashMismatch,
+    R2WrongRidLength,
     R2WrongIdsX,
     R2WrongIdsY,
     R2WrongIdsA,
@@ -194,6 +196,11 @@ fn reconstruct_rid<P: SchemeParams, Id: PartyId>(
         .deserialize::<Round2EchoBroadcast<P, Id>>(format)?;
     let mut rid_combined = r2_eb.rid;
     for message in r2_ebs.values() {
+        if message.rid.bits().len() != rid_combined.bits().len() {
+            return Err(ProtocolValidationError::InvalidEvidence(
+                "The lengths of `rid` do not match".into(),
+            ));
+        }
         rid_combined ^= &message.rid;
     }
     Ok(rid_combined)
@@ -216,6 +223,7 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for KeyRefreshError<P, Id>
                 Some([(1.into(), RequiredMessageParts::echo_broadcast())].into()),
                 None,
             ),
+            Error::R2WrongRidLength => RequiredMessages::new(RequiredMessageParts::echo_broadcast(), None, None),
             Error::R2WrongIdsX => RequiredMessages::new(RequiredMessageParts::normal_broadcast(), None, None),
             Error::R2WrongIdsY => RequiredMessages::new(RequiredMessageParts::echo_broadcast(), None, None),
             Error::R2WrongIdsA => RequiredMessages::new(RequiredMessageParts::normal_broadcast(), None, None),
@@ -290,6 +298,12 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for KeyRefreshError<P, Id>
                 };
                 verify_that(data.hash(&sid, guilty_party) != r1_eb.cap_v)
             }
+            Error::R2WrongRidLength => {
+                let r2_eb = message
+                    .echo_broadcast
+                    .deserialize::<Round2EchoBroadcast<P, Id>>(format)?;
+                verify_that(r2_eb.rid.bits().len() != P::SECURITY_PARAMETER)
+            }
             Error::R2WrongIdsX => {
                 let r2_nb = message
                     .normal_broadcast
@@ -766,6 +780,10 @@ impl<P: SchemeParams, Id: PartyId> Round<Id> for Round2<P, Id> {
             return Err(ReceiveError::protocol(Error::R2HashMismatch.into()));
         }
 
+        if data.rid.bits().len() != P::SECURITY_PARAMETER {
+            return Err(ReceiveError::protocol(Error::R2WrongRidLength.into()));
+        }
+
         if data.cap_xs.keys().cloned().collect::<BTreeSet<_>>() != self.context.all_ids {
             return Err(ReceiveError::protocol(Error::R2WrongIdsX.into()));
         }
-- 
2.43.0


From e55e3f483d01a29fefb73a22c42ec37cbde62fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:47 +0000
Subject: [PATCH 20/25] fix: checking the evidence of KeyResharing must not
 panic

---
 src/protocols/key_resharing.rs | 43 ++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/src/protocols/key_resharing.rs b/src/protocols/key_resharing.rs
index dbd61eb..fcdf0bc 100644
--- a/src/protocols/key_resharing.rs
+++ b/src/protocols/key_resharing.rs
@@ -20,8 +20,8 @@ use ecdsa::VerifyingKey;
 use manul::protocol::{
     Artifact, BoxedFormat, BoxedRound, CommunicationInfo, DirectMessage, EchoBroadcast, EchoRoundParticipation,
     EntryPoint, FinalizeOutcome, LocalError, MessageValidationError, NormalBroadcast, PartyId, Payload, Protocol,
-    ProtocolError, ProtocolMessage, ProtocolMessagePart, ProtocolValidationError, ReceiveError, RequiredMessages,
-    Round, RoundId, TransitionInfo,
+    ProtocolError, ProtocolMessage, ProtocolMessagePart, ProtocolValidationError, ReceiveError, RequiredMessageParts,
+    RequiredMessages, Round, RoundId, TransitionInfo,
 };
 use rand_core::CryptoRngCore;
 use serde::{Deserialize, Serialize};
@@ -46,27 +46,36 @@ impl<P: SchemeParams, I: PartyId> Protocol<I> for KeyResharingProtocol<P, I> {
     type ProtocolError = KeyResharingError;
 
     fn verify_direct_message_is_invalid(
-        _format: &BoxedFormat,
-        _round_id: &RoundId,
-        _message: &DirectMessage,
+        format: &BoxedFormat,
+        round_id: &RoundId,
+        message: &DirectMessage,
     ) -> Result<(), MessageValidationError> {
-        unimplemented!()
+        match round_id {
+            r if r == &1 => message.verify_is_not::<Round1DirectMessage<P>>(format),
+            _ => Err(MessageValidationError::InvalidEvidence("Invalid round number".into())),
+        }
     }
 
     fn verify_echo_broadcast_is_invalid(
-        _format: &BoxedFormat,
-        _round_id: &RoundId,
-        _message: &EchoBroadcast,
+        format: &BoxedFormat,
+        round_id: &RoundId,
+        message: &EchoBroadcast,
     ) -> Result<(), MessageValidationError> {
-        unimplemented!()
+        match round_id {
+            r if r == &1 => message.verify_is_not::<Round1BroadcastMessage<P>>(format),
+            _ => Err(MessageValidationError::InvalidEvidence("Invalid round number".into())),
+        }
     }
 
     fn verify_normal_broadcast_is_invalid(
         _format: &BoxedFormat,
-        _round_id: &RoundId,
-        _message: &NormalBroadcast,
+        round_id: &RoundId,
+        message: &NormalBroadcast,
     ) -> Result<(), MessageValidationError> {
-        unimplemented!()
+        match round_id {
+            r if r == &1 => message.verify_is_some(),
+            _ => Err(MessageValidationError::InvalidEvidence("Invalid round number".into())),
+        }
     }
 }
 
@@ -85,7 +94,7 @@ impl<I> ProtocolError<I> for KeyResharingError {
     type AssociatedData = ();
 
     fn required_messages(&self) -> RequiredMessages {
-        unimplemented!()
+        RequiredMessages::new(RequiredMessageParts::echo_broadcast().and_direct_message(), None, None)
     }
 
     fn verify_messages_constitute_error(
@@ -98,7 +107,11 @@ impl<I> ProtocolError<I> for KeyResharingError {
         _previous_messages: BTreeMap<RoundId, ProtocolMessage>,
         _combined_echos: BTreeMap<RoundId, BTreeMap<I, EchoBroadcast>>,
     ) -> Result<(), ProtocolValidationError> {
-        unimplemented!()
+        // TODO (#113): what a third party would need to check these errors (the lists of holders, the new threshold,
+        // and the share ID of the reporting party) is not a part of the associated data or of the signed messages.
+        Err(ProtocolValidationError::InvalidEvidence(format!(
+            "The messages are not sufficient to prove the error: {self}"
+        )))
     }
 }
 
-- 
2.43.0


From a57560a997a15a4b7da7490317706e33a312f6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:47 +0000
Subject: [PATCH 21/25] fix: a wrong old share in KeyResharing must not panic
 the receiving party

---
 src/protocols/key_resharing.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/protocols/key_resharing.rs b/src/protocols/key_resharing.rs
index fcdf0bc..452c793 100644
--- a/src/protocols/key_resharing.rs
+++ b/src/protocols/key_resharing.rs
@@ -444,7 +444,9 @@ impl<P: SchemeParams, I: PartyId> Round<I> for Round1<P, I> {
             // TODO (#113): this is unattributable.
             // Should we add an enum variant to `FinalizeError`?
             // or take the public shares as an input (assuming the nodes published those previously)
-            panic!("Invalid shares");
+            return Err(LocalError::new(
+                "The old public shares do not correspond to the expected verifying key",
+            ));
         }
 
         // Assemble the new share.
-- 
2.43.0


From 3157239233781249b8a1ddea77efe7d60669f2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:47 +0000
Subject: [PATCH 22/25] fix: KeyResharing must not accept repeated IDs of old
 shares

---
 src/protocols/key_resharing.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/protocols/key_resharing.rs b/src/protocols/key_resharing.rs
index 452c793..5743a4a 100644
--- a/src/protocols/key_resharing.rs
+++ b/src/protocols/key_resharing.rs
@@ -431,6 +431,11 @@ impl<P: SchemeParams, I: PartyId> Round<I> for Round1<P, I> {
             .map(|payload| payload.old_share_id)
             .collect::<Vec<_>>();
 
+        // Without this the interpolation below would not be using all the shares that were checked.
+        if old_share_ids.iter().collect::<BTreeSet<_>>().len() != old_share_ids.len() {
+            return Err(LocalError::new("Several old holders use the same share ID"));
+        }
+
         let vkey = payloads
             .values()
             .map(|payload| {
-- 
2.43.0


From 7a5721455429ba369463096cdfc8401bd1bfa4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:31 +0000
Subject: [PATCH 23/25] fix: session identifiers of different sets of IDs must
 be different

---
 src/entities/internal.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/entities/internal.rs b/src/entities/internal.rs
index 3ac2c98..17258a7 100644
--- a/src/entities/internal.rs
+++ b/src/entities/internal.rs
@@ -1,4 +1,4 @@
-use alloc::collections::BTreeSet;
+use alloc::{collections::BTreeSet, vec::Vec};
 
 use manul::protocol::PartyId;
 use serde::{Deserialize, Serialize};
@@ -18,7 +18,17 @@ impl Sid {
     pub fn new<P: SchemeParams, Id: PartyId>(shared_randomness: &[u8], ids: &BTreeSet<Id>) -> Self {
         let digest = Hasher::<P::Digest>::new_with_dst(b"SID");
         let digest = chain_scheme_params::<P, _>(digest);
-        let digest = digest.chain(&shared_randomness).chain(&ids);
+        // The serialized IDs may have variable length (e.g. strings), so each one is hashed on its own
+        // to prevent different sets of IDs from having the same concatenation.
+        let id_hashes = ids
+            .iter()
+            .map(|id| {
+                Hasher::<P::Digest>::new_with_dst(b"SID party ID")
+                    .chain(id)
+                    .finalize(P::SECURITY_BITS)
+            })
+            .collect::<Vec<_>>();
+        let digest = digest.chain(&shared_randomness).chain(&id_hashes);
 
         Self(digest.finalize(P::SECURITY_BITS))
     }
-- 
2.43.0


From 3244d85488c52456f9488bfecf6d731c194bc59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:23 +0000
Subject: [PATCH 24/25] fix: refuse a zero threshold and conversions of
 anything but threshold many shares with the owner's

---
 src/entities/threshold.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/entities/threshold.rs b/src/entities/threshold.rs
index bf49165..68675f7 100644
--- a/src/entities/threshold.rs
+++ b/src/entities/threshold.rs
@@ -67,9 +67,9 @@ where
         threshold: usize,
         signing_key: Option<&SigningKey<P::Curve>>,
     ) -> Result<BTreeMap<I, Self>, LocalError> {
-        if threshold > ids.len() {
+        if threshold == 0 || threshold > ids.len() {
             return Err(LocalError::new(format!(
-                "Invalid threshold ({threshold}). Must be smaller than {}",
+                "Invalid threshold ({threshold}). Must be between 1 and {}",
                 ids.len()
             )));
         }
@@ -143,8 +143,19 @@ where
     /// (for the `t` share indices supplied as `share_ids`)
     /// that can be used in the presigning/signing protocols.
     pub fn to_key_share(&self, ids: &BTreeSet<I>) -> Result<KeyShare<P, I>, LocalError> {
-        debug_assert!(ids.len() == self.threshold as usize);
-        debug_assert!(ids.iter().any(|id| id == &self.owner));
+        if ids.len() != self.threshold as usize {
+            return Err(LocalError::new(format!(
+                "Invalid number of share indices ({}). Must be equal to the threshold ({})",
+                ids.len(),
+                self.threshold
+            )));
+        }
+        if !ids.contains(&self.owner) {
+            return Err(LocalError::new(format!(
+                "owner={:?} is missing in the given share indices",
+                self.owner
+            )));
+        }
 
         let owner_share_id = self
             .share_ids
-- 
2.43.0


From 5d0e507631d23202128e626697d66b8ff76f9947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:23 +0000
Subject: [PATCH 25/25] fix: refuse resharing inputs of another party and
 unusable thresholds

---
 src/protocols/key_resharing.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/protocols/key_resharing.rs b/src/protocols/key_resharing.rs
index 5743a4a..20b591d 100644
--- a/src/protocols/key_resharing.rs
+++ b/src/protocols/key_resharing.rs
@@ -199,6 +199,29 @@ where
             return Err(LocalError::new("Either old holder or new holder data must be provided"));
         };
 
+        if self.new_threshold == 0 || self.new_threshold > self.new_holders.len() {
+            return Err(LocalError::new(format!(
+                "Invalid new threshold ({}). Must be between 1 and {}",
+                self.new_threshold,
+                self.new_holders.len()
+            )));
+        }
+
+        if let Some(old_holder) = self.old_holder.as_ref() {
+            if &old_holder.key_share.owner != id {
+                return Err(LocalError::new(format!(
+                    "ID mismatch between the old holder ({id:?}) and the owner of the key share ({:?})",
+                    old_holder.key_share.owner
+                )));
+            }
+        }
+
+        if self.new_holder.is_some() && !self.new_holders.contains(id) {
+            return Err(LocalError::new(format!(
+                "The new holder {id:?} is missing in the set of new holders"
+            )));
+        }
+
         let message_destinations = if self.old_holder.is_some() {
             // It is possible that a party is both an old holder and a new holder.
             // This will be processed separately.
-- 
2.43.0

