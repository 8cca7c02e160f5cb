From b1bc282e4d0fcac7c5a19dbdc8820527d8f0f0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:22 +0000
Subject: [PATCH 1/9] fix: GIPA verification rejects a proof with the wrong
 number of rounds instead of doing 2^rounds work and panicking

---
 ip_proofs/src/gipa.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ip_proofs/src/gipa.rs b/ip_proofs/src/gipa.rs
index fceb9dd..6f599b2 100644
--- a/ip_proofs/src/gipa.rs
+++ b/ip_proofs/src/gipa.rs
@@ -369,6 +369,13 @@ where
         // Calculate base commitment keys
         let (ck_a, ck_b, _) = ck;
         assert!(ck_a.len().is_power_of_two());
+        // The number of rounds is chosen by the prover: check it before doing 2^rounds work
+        if transcript.len() != ck_a.len().trailing_zeros() as usize {
+            return Err(Box::new(InnerProductArgumentError::MessageLengthInvalid(
+                transcript.len(),
+                ck_a.len().trailing_zeros() as usize,
+            )));
+        }
 
         let mut ck_a_agg_challenge_exponents = vec![LMC::Scalar::one()];
         let mut ck_b_agg_challenge_exponents = vec![LMC::Scalar::one()];
-- 
2.43.0


From 8579a41837895ad6438a4c37fe1bc67019b96af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:22 +0000
Subject: [PATCH 2/9] fix: TIPA proving and verification with zero rounds no
 longer panic on the empty transcript

---
 ip_proofs/src/tipa/mod.rs                       | 4 ++--
 ip_proofs/src/tipa/structured_scalar_message.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ip_proofs/src/tipa/mod.rs b/ip_proofs/src/tipa/mod.rs
index d1731ec..f06bb32 100644
--- a/ip_proofs/src/tipa/mod.rs
+++ b/ip_proofs/src/tipa/mod.rs
@@ -198,7 +198,7 @@ where
             hash_input.extend_from_slice(&counter_nonce.to_be_bytes()[..]);
             transcript
                 .first()
-                .unwrap()
+                .unwrap_or(&Default::default())
                 .serialize_uncompressed(&mut hash_input)?;
             ck_a_final.serialize_uncompressed(&mut hash_input)?;
             ck_b_final.serialize_uncompressed(&mut hash_input)?;
@@ -261,7 +261,7 @@ where
             hash_input.extend_from_slice(&counter_nonce.to_be_bytes()[..]);
             transcript
                 .first()
-                .unwrap()
+                .unwrap_or(&Default::default())
                 .serialize_uncompressed(&mut hash_input)?;
             ck_a_final.serialize_uncompressed(&mut hash_input)?;
             ck_b_final.serialize_uncompressed(&mut hash_input)?;
diff --git a/ip_proofs/src/tipa/structured_scalar_message.rs b/ip_proofs/src/tipa/structured_scalar_message.rs
index fe1ebf9..9d84c89 100644
--- a/ip_proofs/src/tipa/structured_scalar_message.rs
+++ b/ip_proofs/src/tipa/structured_scalar_message.rs
@@ -241,7 +241,7 @@ where
             hash_input.extend_from_slice(&counter_nonce.to_be_bytes()[..]);
             transcript
                 .first()
-                .unwrap()
+                .unwrap_or(&Default::default())
                 .serialize_uncompressed(&mut hash_input)?;
             ck_a_final.serialize_uncompressed(&mut hash_input)?;
             if let Some(c) = LMC::Scalar::from_random_bytes(&D::digest(&hash_input)) {
@@ -292,7 +292,7 @@ where
             hash_input.extend_from_slice(&counter_nonce.to_be_bytes()[..]);
             transcript
                 .first()
-                .unwrap()
+                .unwrap_or(&Default::default())
                 .serialize_uncompressed(&mut hash_input)?;
             ck_a_final.serialize_uncompressed(&mut hash_input)?;
             if let Some(c) = LMC::Scalar::from_random_bytes(&D::digest(&hash_input)) {
-- 
2.43.0


From 622db65a06f90b72cf85240852c746e6df543d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:22 +0000
Subject: [PATCH 3/9] fix: aggregate verification checks the length of every
 public input vector, not only the first

---
 ip_proofs/src/applications/groth16_aggregation.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ip_proofs/src/applications/groth16_aggregation.rs b/ip_proofs/src/applications/groth16_aggregation.rs
index 91b2592..ff7cf6e 100644
--- a/ip_proofs/src/applications/groth16_aggregation.rs
+++ b/ip_proofs/src/applications/groth16_aggregation.rs
@@ -209,7 +209,10 @@ where
         / &(r.clone() - &<P::ScalarField>::one());
     let p1 = P::pairing(P::G1::from(vk.alpha_g1) * r_sum, vk.beta_g2);
 
-    assert_eq!(vk.gamma_abc_g1.len(), public_inputs[0].len() + 1);
+    assert!(!public_inputs.is_empty());
+    for inputs in public_inputs.iter() {
+        assert_eq!(vk.gamma_abc_g1.len(), inputs.len() + 1);
+    }
     let r_vec = structured_scalar_power(public_inputs.len(), &r);
     let mut g_ic = P::G1::from(vk.gamma_abc_g1[0]) * r_sum;
     for (i, b) in vk.gamma_abc_g1.iter().skip(1).enumerate() {
-- 
2.43.0


From f7025ce1ea6435b5430225aac6306fd8aeb1a3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:22 +0000
Subject: [PATCH 4/9] fix: univariate commitments reject polynomials above the
 supported degree instead of truncating them

---
 ip_proofs/src/applications/poly_commit/mod.rs         | 1 +
 ip_proofs/src/applications/poly_commit/transparent.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/ip_proofs/src/applications/poly_commit/mod.rs b/ip_proofs/src/applications/poly_commit/mod.rs
index 0b045d0..6fbb7f1 100644
--- a/ip_proofs/src/applications/poly_commit/mod.rs
+++ b/ip_proofs/src/applications/poly_commit/mod.rs
@@ -308,6 +308,7 @@ impl<P: Pairing, D: Digest> UnivariatePolynomialCommitment<P, D> {
         polynomial: &UnivariatePolynomial<P::ScalarField>,
     ) -> BivariatePolynomial<P::ScalarField> {
         let (x_degree, y_degree) = bivariate_degrees;
+        assert!((x_degree + 1) * (y_degree + 1) >= polynomial.coeffs.len());
         let default_zero = vec![P::ScalarField::zero()];
         let mut coeff_iter = polynomial
             .coeffs
diff --git a/ip_proofs/src/applications/poly_commit/transparent.rs b/ip_proofs/src/applications/poly_commit/transparent.rs
index edd1935..69acf80 100644
--- a/ip_proofs/src/applications/poly_commit/transparent.rs
+++ b/ip_proofs/src/applications/poly_commit/transparent.rs
@@ -237,6 +237,7 @@ impl<P: Pairing, D: Digest> UnivariatePolynomialCommitment<P, D> {
         polynomial: &UnivariatePolynomial<P::ScalarField>,
     ) -> BivariatePolynomial<P::ScalarField> {
         let (x_degree, y_degree) = bivariate_degrees;
+        assert!((x_degree + 1) * (y_degree + 1) >= polynomial.coeffs.len());
         let default_zero = vec![P::ScalarField::zero()];
         let mut coeff_iter = polynomial
             .coeffs
-- 
2.43.0


From 58301be36b96134dceddbb506c8b574fac7329c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:22 +0000
Subject: [PATCH 5/9] fix: opening a bivariate polynomial rejects y-polynomials
 above the supported degree instead of truncating them

---
 ip_proofs/src/applications/poly_commit/mod.rs         | 1 +
 ip_proofs/src/applications/poly_commit/transparent.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/ip_proofs/src/applications/poly_commit/mod.rs b/ip_proofs/src/applications/poly_commit/mod.rs
index 6fbb7f1..dca8b19 100644
--- a/ip_proofs/src/applications/poly_commit/mod.rs
+++ b/ip_proofs/src/applications/poly_commit/mod.rs
@@ -223,6 +223,7 @@ impl<P: Pairing, D: Digest> BivariatePolynomialCommitment<P, D> {
             .take(ck_1.len())
             .map(|y_polynomial| {
                 let mut c = y_polynomial.coeffs.to_vec();
+                assert!(kzg_srs.len() >= c.len());
                 c.resize(kzg_srs.len(), <P::ScalarField>::zero());
                 c
             })
diff --git a/ip_proofs/src/applications/poly_commit/transparent.rs b/ip_proofs/src/applications/poly_commit/transparent.rs
index 69acf80..569ac5b 100644
--- a/ip_proofs/src/applications/poly_commit/transparent.rs
+++ b/ip_proofs/src/applications/poly_commit/transparent.rs
@@ -146,6 +146,7 @@ impl<P: Pairing, D: Digest> BivariatePolynomialCommitment<P, D> {
             .take(second_tier_ck.len())
             .map(|y_polynomial| {
                 let mut c = y_polynomial.coeffs.to_vec();
+                assert!(first_tier_ck.len() >= c.len());
                 c.resize(first_tier_ck.len(), <P::ScalarField>::zero());
                 c
             })
-- 
2.43.0


From 0a0b6d08807ca0911acba24824146fb479b6c7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:22 +0000
Subject: [PATCH 6/9] fix: univariate commitments support degree 0 instead of
 dividing by zero

---
 ip_proofs/src/applications/poly_commit/mod.rs         | 2 +-
 ip_proofs/src/applications/poly_commit/transparent.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ip_proofs/src/applications/poly_commit/mod.rs b/ip_proofs/src/applications/poly_commit/mod.rs
index dca8b19..144f4b5 100644
--- a/ip_proofs/src/applications/poly_commit/mod.rs
+++ b/ip_proofs/src/applications/poly_commit/mod.rs
@@ -294,7 +294,7 @@ impl<P: Pairing, D: Digest> UnivariatePolynomialCommitment<P, D> {
         //(((univariate_degree + 1) as f64).sqrt().ceil() as usize).next_power_of_two() - 1;
         let sqrt = (((univariate_degree + 1) as f64).sqrt().ceil() as usize).next_power_of_two();
         // Skew split between bivariate degrees to account for KZG being less expensive than MIPP
-        let skew_factor = if sqrt >= 32 { 16_usize } else { sqrt / 2 };
+        let skew_factor = if sqrt >= 32 { 16_usize } else { (sqrt / 2).max(1) };
         (sqrt / skew_factor - 1, sqrt * skew_factor - 1)
     }
 
diff --git a/ip_proofs/src/applications/poly_commit/transparent.rs b/ip_proofs/src/applications/poly_commit/transparent.rs
index 569ac5b..f6f7488 100644
--- a/ip_proofs/src/applications/poly_commit/transparent.rs
+++ b/ip_proofs/src/applications/poly_commit/transparent.rs
@@ -223,7 +223,7 @@ impl<P: Pairing, D: Digest> UnivariatePolynomialCommitment<P, D> {
         //(((univariate_degree + 1) as f64).sqrt().ceil() as usize).next_power_of_two() - 1;
         let sqrt = (((univariate_degree + 1) as f64).sqrt().ceil() as usize).next_power_of_two();
         // Skew split between bivariate degrees to account for scalar IPA being less expensive than MIPP
-        let skew_factor = if sqrt >= 8 { 4_usize } else { sqrt / 2 };
+        let skew_factor = if sqrt >= 8 { 4_usize } else { (sqrt / 2).max(1) };
         (sqrt / skew_factor - 1, sqrt * skew_factor - 1)
     }
 
-- 
2.43.0


From 4f6042262f9118882493f673721b3842c0d72bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:22 +0000
Subject: [PATCH 7/9] fix: SIPP verification returns an error for a proof with
 the wrong number of rounds instead of panicking

---
 sipp/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sipp/src/lib.rs b/sipp/src/lib.rs
index fa47091..f67c489 100644
--- a/sipp/src/lib.rs
+++ b/sipp/src/lib.rs
@@ -120,7 +120,9 @@ where
         assert_eq!(length, b.len());
         // Ensure there are the correct number of proof elements
         let proof_len = proof.gt_elems.len();
-        assert_eq!(proof_len as f32, f32::log2(length as f32));
+        if proof_len != length.trailing_zeros() as usize {
+            return Err(());
+        }
 
         // TODO(psi): should we also input a succinct bilinear group description to the rng?
         let mut rng = {
-- 
2.43.0


From e75d68fe808274ff045ca2e45b823b68cba531b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:22 +0000
Subject: [PATCH 8/9] fix: SIPP rejects a coefficient vector or operand of
 different length instead of truncating to the shorter one

---
 sipp/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sipp/src/lib.rs b/sipp/src/lib.rs
index f67c489..835fdc8 100644
--- a/sipp/src/lib.rs
+++ b/sipp/src/lib.rs
@@ -46,6 +46,7 @@ where
         value: PairingOutput<E>,
     ) -> Result<Proof<E>, ()> {
         assert_eq!(a.len(), b.len());
+        assert_eq!(a.len(), r.len());
         // Ensure the order of the input vectors is a power of 2
         assert_eq!(a.len().count_ones(), 1);
         let mut length = a.len();
@@ -118,6 +119,7 @@ where
         assert_eq!(length.count_ones(), 1);
         assert!(length >= 2);
         assert_eq!(length, b.len());
+        assert_eq!(length, r.len());
         // Ensure there are the correct number of proof elements
         let proof_len = proof.gt_elems.len();
         if proof_len != length.trailing_zeros() as usize {
@@ -188,6 +190,8 @@ pub fn product_of_pairings_with_coeffs<E: Pairing>(
     b: &[E::G2Affine],
     r: &[E::ScalarField],
 ) -> PairingOutput<E> {
+    assert_eq!(a.len(), b.len());
+    assert_eq!(a.len(), r.len());
     let a = a
         .into_par_iter()
         .zip(r)
-- 
2.43.0


From f3213c2ba128a8d842513181ab80405b001b07a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:59 +0000
Subject: [PATCH 9/9] fix: cfg_multi_pairing returns None for unequal lengths
 instead of ignoring the tail of the longer input

---
 inner_products/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/inner_products/src/lib.rs b/inner_products/src/lib.rs
index 6fabc06..badab65 100644
--- a/inner_products/src/lib.rs
+++ b/inner_products/src/lib.rs
@@ -75,6 +75,11 @@ impl<P: Pairing> InnerProduct for PairingInnerProduct<P> {
 
 /// Equivalent to `P::multi_pairing`, but with more parallelism (if enabled)
 pub fn cfg_multi_pairing<P: Pairing>(left: &[P::G1], right: &[P::G2]) -> Option<PairingOutput<P>> {
+    // The chunks below are zipped, which would silently ignore the tail of the longer input
+    if left.len() != right.len() {
+        return None;
+    }
+
     // We make the input affine, then convert to prepared. We do this for speed, since the
     // conversion from projective to prepared always goes through affine.
     let aff_left = P::G1::normalize_batch(left);
-- 
2.43.0

