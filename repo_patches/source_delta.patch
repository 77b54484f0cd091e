From 372a9c5730933373359d5b6b2e584aa5e1d2e8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:56 +0000
Subject: [PATCH 1/6] fix: g1_lincomb and g2_lincomb return None when the
 lengths differ

---
 cryptography/bls12_381/src/lincomb.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cryptography/bls12_381/src/lincomb.rs b/cryptography/bls12_381/src/lincomb.rs
index fcd5160..c6cdfba 100644
--- a/cryptography/bls12_381/src/lincomb.rs
+++ b/cryptography/bls12_381/src/lincomb.rs
@@ -51,6 +51,10 @@ pub fn g2_lincomb_unsafe(points: &[G2Point], scalars: &[Scalar]) -> Option<G2Pro
 ///
 /// It filters out any points that are the identity.
 pub fn g1_lincomb(points: &[G1Point], scalars: &[Scalar]) -> Option<G1Projective> {
+    // Check before zipping; `zip` would silently truncate to the shorter slice.
+    if points.len() != scalars.len() {
+        return None;
+    }
     let (points_filtered, scalars_filtered): (Vec<_>, Vec<_>) = points
         .iter()
         .zip(scalars)
@@ -72,6 +76,10 @@ pub fn g1_lincomb(points: &[G1Point], scalars: &[Scalar]) -> Option<G1Projective
 ///
 /// It filters out any points that are the identity.
 pub fn g2_lincomb(points: &[G2Point], scalars: &[Scalar]) -> Option<G2Projective> {
+    // Check before zipping; `zip` would silently truncate to the shorter slice.
+    if points.len() != scalars.len() {
+        return None;
+    }
     let (points_filtered, scalars_filtered): (Vec<_>, Vec<_>) = points
         .iter()
         .zip(scalars)
-- 
2.43.0


From 6d51f1ef157a76c8103fbd80b2fc922a976c7ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:56 +0000
Subject: [PATCH 2/6] fix: poly_mul no longer underflows when both polynomials
 are empty

---
 cryptography/polynomial/src/poly_coeff.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cryptography/polynomial/src/poly_coeff.rs b/cryptography/polynomial/src/poly_coeff.rs
index e0cf8b5..76b7d78 100644
--- a/cryptography/polynomial/src/poly_coeff.rs
+++ b/cryptography/polynomial/src/poly_coeff.rs
@@ -52,6 +52,10 @@ pub fn poly_eval(poly: &PolyCoeff, value: &Scalar) -> Scalar {
 /// For two polynomials, `f(x)` and `g(x)`, this method computes
 /// the result of `f(x) * g(x)` and returns the result.
 pub fn poly_mul(a: PolyCoeff, b: PolyCoeff) -> PolyCoeff {
+    // The zero polynomial can be represented as an empty list of coefficients.
+    if a.is_empty() || b.is_empty() {
+        return Vec::new();
+    }
     let mut result = vec![Scalar::ZERO; a.len() + b.len() - 1];
     for (i, a_coeff) in a.iter().enumerate() {
         for (j, b_coeff) in b.iter().enumerate() {
-- 
2.43.0


From f8959b22c7a91278048052cc6d80902551bfdc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:56 +0000
Subject: [PATCH 3/6] fix: recover_evaluations_in_domain_order returns None for
 empty cosets

---
 cryptography/kzg_multi_open/src/fk20/cosets.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cryptography/kzg_multi_open/src/fk20/cosets.rs b/cryptography/kzg_multi_open/src/fk20/cosets.rs
index 8558c93..9716c51 100644
--- a/cryptography/kzg_multi_open/src/fk20/cosets.rs
+++ b/cryptography/kzg_multi_open/src/fk20/cosets.rs
@@ -117,6 +117,10 @@ pub fn recover_evaluations_in_domain_order(
 
     // Check that each coset has the same size
     let coset_len = coset_evaluations[0].len();
+    // An empty coset does not determine which domain it belongs to.
+    if coset_len == 0 {
+        return None;
+    }
     let same_len = coset_evaluations
         .iter()
         .all(|coset| coset.len() == coset_len);
-- 
2.43.0


From 4d8f1155ce56f0977d3c02198302a149c6427334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:55 +0000
Subject: [PATCH 4/6] fix: FK20Prover uses only the first polynomial_bound
 elements of a longer commitment key

---
 cryptography/kzg_multi_open/src/fk20/prover.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cryptography/kzg_multi_open/src/fk20/prover.rs b/cryptography/kzg_multi_open/src/fk20/prover.rs
index 1158112..efe8a6d 100644
--- a/cryptography/kzg_multi_open/src/fk20/prover.rs
+++ b/cryptography/kzg_multi_open/src/fk20/prover.rs
@@ -82,10 +82,12 @@ impl FK20Prover {
         // KZG polynomial commitment scheme for opening a polynomial at a single point
         // does not require all of the coefficients of the polynomial to compute
         // the quotient polynomial.
-        let srs_truncated: Vec<_> = commit_key
-            .g1s
-            .clone()
-            .into_iter()
+        //
+        // The commitment key may hold more elements than the polynomial has coefficients,
+        // only the first `polynomial_bound` of them are used.
+        let srs_truncated: Vec<_> = commit_key.g1s[..polynomial_bound]
+            .iter()
+            .copied()
             .rev()
             .skip(points_per_proof)
             .collect();
-- 
2.43.0


From 820d6d6fadf1d7ee2b5ed83949a1cd9b567c7d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:14 +0000
Subject: [PATCH 5/6] fix: ifft_g1_take_n accepts taking every element of the
 domain

---
 cryptography/polynomial/src/domain.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cryptography/polynomial/src/domain.rs b/cryptography/polynomial/src/domain.rs
index 167b4b0..2f24a01 100644
--- a/cryptography/polynomial/src/domain.rs
+++ b/cryptography/polynomial/src/domain.rs
@@ -171,7 +171,7 @@ impl Domain {
         // Truncate the result if a value of `n` was supplied.
         let mut ifft_g1 = match n {
             Some(num_to_take) => {
-                assert!(num_to_take < points.len());
+                assert!(num_to_take <= points.len());
                 points[0..num_to_take].to_vec()
             }
             None => points,
-- 
2.43.0


From 9180973a501eb5c8935e644f6a58d8a2c030ab39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:21 +0000
Subject: [PATCH 6/6] fix: Node binding rejects cell indices that are not u64
 values

A negative BigInt aborted the process (a panic across the C boundary) and a
BigInt of 2^64 or more was truncated, so verification could succeed for an
index that does not exist.
---
 bindings/node/src/lib.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/bindings/node/src/lib.rs b/bindings/node/src/lib.rs
index c55e897..c534146 100644
--- a/bindings/node/src/lib.rs
+++ b/bindings/node/src/lib.rs
@@ -161,7 +161,10 @@ impl DASContextJs {
     cell_indices: Vec<BigInt>,
     cells: Vec<Uint8Array>,
   ) -> Result<CellsAndProofs> {
-    let cell_indices: Vec<_> = cell_indices.into_iter().map(bigint_to_u64).collect();
+    let cell_indices: Vec<_> = cell_indices
+      .into_iter()
+      .map(bigint_to_u64)
+      .collect::<Result<_>>()?;
     let cells: Vec<_> = cells.iter().map(|cell| cell.as_ref()).collect();
 
     let ctx = &self.inner;
@@ -212,7 +215,10 @@ impl DASContextJs {
     cells: Vec<Uint8Array>,
     proofs: Vec<Uint8Array>,
   ) -> Result<bool> {
-    let cell_indices: Vec<_> = cell_indices.into_iter().map(bigint_to_u64).collect();
+    let cell_indices: Vec<_> = cell_indices
+      .into_iter()
+      .map(bigint_to_u64)
+      .collect::<Result<_>>()?;
 
     let commitments: Vec<_> = commitments
       .iter()
@@ -253,10 +259,15 @@ impl DASContextJs {
 }
 
 // We use bigint because u64 cannot be used as an argument, see : https://napi.rs/docs/concepts/values.en#bigint
-fn bigint_to_u64(value: BigInt) -> u64 {
-  let (signed, value_u128, _) = value.get_u128();
-  assert!(!signed, "value should be an unsigned integer");
-  value_u128 as u64
+//
+// Values that do not fit into a u64 (negative or too large) are rejected with an error.
+fn bigint_to_u64(value: BigInt) -> Result<u64> {
+  match value.get_u64() {
+    (_, value_u64, true) => Ok(value_u64),
+    _ => Err(Error::from_reason(
+      "value should be an unsigned 64 bit integer",
+    )),
+  }
 }
 
 /// Convert a slice into a reference to an array
-- 
2.43.0

