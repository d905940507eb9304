From cd346ebf9f090363d8b9f3d0b377e66f64ea075d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:34 +0000
Subject: [PATCH 01/16] fix: place vector commitments so that no two committed
 points meet at op_degree

A commitment contributes to l and r at the same power of x. With
op_degree = 2 + 2 * floor(#comm / 2) a vector commitment sat at power 0 (or
two of them at powers summing to op_degree), so components along H of A_O or
of a vector commitment cancelled against it and the gate equations of the
first dim gates were not enforced.
---
 bulletproofs/src/r1cs/mod.rs      |   5 ++
 bulletproofs/src/r1cs/prover.rs   | 102 +++++++++---------------------
 bulletproofs/src/r1cs/verifier.rs |   4 +-
 bulletproofs/src/util.rs          |   6 +-
 4 files changed, 41 insertions(+), 76 deletions(-)

diff --git a/bulletproofs/src/r1cs/mod.rs b/bulletproofs/src/r1cs/mod.rs
index 18b93b8..ea4e430 100644
--- a/bulletproofs/src/r1cs/mod.rs
+++ b/bulletproofs/src/r1cs/mod.rs
@@ -16,6 +16,11 @@ pub use self::verifier::{batch_verify, VerificationTuple, Verifier};
 
 pub use crate::errors::R1CSError;
 
+/// The powers (in l, in r) whose products make up the coefficient at `op_deg`:
+/// first (aL, aR), then (aO, wO), then (com_j, Wc_j) for each vector commitment.
+///
+/// With op_deg = 2 + 2 * #vector commitments, the committed vectors all lie strictly above op_deg / 2, so
+/// that no two commitments (other than A_I with itself) can contribute to the coefficient together.
 fn op_splits(op_deg: usize) -> Vec<(usize, usize)> {
     debug_assert_eq!(op_deg % 2, 0);
     let mid = op_deg / 2;
diff --git a/bulletproofs/src/r1cs/prover.rs b/bulletproofs/src/r1cs/prover.rs
index 694fd1f..cddad3b 100644
--- a/bulletproofs/src/r1cs/prover.rs
+++ b/bulletproofs/src/r1cs/prover.rs
@@ -514,8 +514,8 @@ impl<'g, T: BorrowMut<Transcript>, C: AffineRepr> Prover<'g, T, C> {
         // number of commitments
         let ncomm = self.secrets.vec_open.len();
 
-        // op_degree = 2 + 2 * floor(#comm / 2)
-        let op_degree = 2 + 2 * (ncomm / 2);
+        // op_degree = 2 + 2 * #comm, see `op_splits`
+        let op_degree = 2 + 2 * ncomm;
 
         let ops = op_splits(op_degree);
         let veccom_ops = &ops[2..];
@@ -856,21 +856,19 @@ impl<'g, T: BorrowMut<Transcript>, C: AffineRepr> Prover<'g, T, C> {
 
         let mid_degree = op_degree / 2;
 
-        // 1 comm => op_degree = 2
-        // 2 comm => op_degree = 4
-        // 3 comm => op_degree = 4
-        // 4 comm => op_degree = 6
-        // 5 comm => op_degree = 6
+        // 1 comm => op_degree = 4
+        // 2 comm => op_degree = 6
+        // 3 comm => op_degree = 8
         // etc.
-        // op_degree = 2 + 2 * floor(#comm / 2)
+        // op_degree = 2 + 2 * #comm
 
         for (i, (sl, sr)) in sLsR.enumerate() {
             debug_assert!(i < self.secrets.a_L.len());
 
-            // The first (original) op_degree is 2, which permits a single vector commitment:
+            // Without vector commitments op_degree is 2:
             //
             // Left:
-            // 0 : com1
+            // 0 : -
             // 1 : aL + wR
             // 2 : aO
             // 3 : sL
@@ -878,77 +876,35 @@ impl<'g, T: BorrowMut<Transcript>, C: AffineRepr> Prover<'g, T, C> {
             // Right:
             // 0 : Wo
             // 1 : aR + wL
-            // 2 : Wc1
+            // 2 : -
             // 3 : sR
             //
-            // Since a_L and a_R must be at the same power, only even op_degrees are possible :(
-            // Hence the next valid op_degree is 4, which permits up to 3 vector commitments:
+            // A committed point contributes to both polynomials at the same power: its components
+            // along G end up in l and those along H (which only a dishonest prover uses for a_O and
+            // for vector commitments) in r. The powers of two commitments must therefore never sum
+            // to op_degree, except for that of A_I with itself. Hence all vector commitments are
+            // placed strictly above op_degree / 2 and every one of them raises op_degree by two.
+            // For two vector commitments:
             //
             // Left:
-            // 0 : com1
-            // 1 : com2
-            // 2 : aL
-            // 3 : aO
-            // 4 : com3
-            // 5 : sL
-            //
-            // Right:
-            // 0 : Wc3
-            // 1 : Wo
-            // 2 : aR
-            // 3 : Wc2
-            // 4 : Wc1
-            // 5 : sR
-            //
-            // The next valid op_degree is 6, this permits up to 5 vector commitments:
-            //
-            // Left:
-            // 0 : com1
-            // 1 : com2
-            // 2 : com3
-            // 3 : aL
-            // 4 : aO
-            // 5 : com4
-            // 6 : com5
+            // 0 : -
+            // 1 : -
+            // 2 : -
+            // 3 : aL + wR
+            // 4 : com2
+            // 5 : com1
+            // 6 : aO
             // 7 : sL
             //
             // Right:
-            // 0 : Wc5
-            // 1 : Wc4
-            // 2 : Wo
-            // 3 : aR
-            // 4 : Wc3
-            // 5 : Wc2
-            // 6 : Wc1
-            // 7 : sR
-            //
-            // Note that the x^0, x^1 term is zero.
-            // For every additional commitment r_poly degree increases by 2,
-            // but the number of zero terms increase by 1
-            //
-            // The op_degree is 6, the total degree is 11.
-            //
-            // Left:
-            // 1 : com1
-            // 2 : com2
-            // 3 : com3
-            // 4 : aL
-            // 5 : aO
+            // 0 : Wo
+            // 1 : Wc1
+            // 2 : Wc2
+            // 3 : aR + wL
+            // 4 : -
+            // 5 : -
             // 6 : -
-            // 7 : -
-            // 8 : -
-            // 9 : sL
-            //
-            // Right:
-            // 3 : Wo
-            // 4 : aR
-            // 5 : Wc3
-            // 6 : Wc2
-            // 7 : Wc1
-            // 8 : -
-            // 9 : sR
-            //
-            // op_degree is 8
+            // 7 : sR
 
             // l_poly.0 = 0
 
diff --git a/bulletproofs/src/r1cs/verifier.rs b/bulletproofs/src/r1cs/verifier.rs
index 5682805..23cd922 100644
--- a/bulletproofs/src/r1cs/verifier.rs
+++ b/bulletproofs/src/r1cs/verifier.rs
@@ -486,8 +486,8 @@ impl<T: BorrowMut<Transcript>, C: AffineRepr> Verifier<T, C> {
         // number of commitments
         let ncomm = self.vec_comms.len();
 
-        // op_degree = 2 + 2 * floor(#comm / 2)
-        let op_degree = 2 + 2 * (ncomm / 2);
+        // op_degree = 2 + 2 * #comm, see `op_splits`
+        let op_degree = 2 + 2 * ncomm;
         let t_poly_deg = 2 * (op_degree + 1);
         let ops = op_splits(op_degree);
 
diff --git a/bulletproofs/src/util.rs b/bulletproofs/src/util.rs
index f3f1c91..72a4116 100644
--- a/bulletproofs/src/util.rs
+++ b/bulletproofs/src/util.rs
@@ -20,11 +20,15 @@ pub struct VecPoly1<F: Field>(pub Vec<F>, pub Vec<F>);
 #[derive(ZeroizeOnDrop)]
 pub struct VecPoly3<F: Field>(pub Vec<F>, pub Vec<F>, pub Vec<F>, pub Vec<F>);
 
-pub const T_LABELS: [&[u8]; 41] = [
+pub const T_LABELS: [&[u8]; 75] = [
     b"T_0", b"T_1", b"T_2", b"T_3", b"T_4", b"T_5", b"T_6", b"T_7", b"T_8", b"T_9", b"T_10",
     b"T_11", b"T_12", b"T_13", b"T_14", b"T_15", b"T_16", b"T_17", b"T_18", b"T_19", b"T_20",
     b"T_21", b"T_22", b"T_23", b"T_24", b"T_25", b"T_26", b"T_27", b"T_28", b"T_29", b"T_30",
     b"T_31", b"T_32", b"T_33", b"T_34", b"T_35", b"T_36", b"T_37", b"T_38", b"T_39", b"T_40",
+    b"T_41", b"T_42", b"T_43", b"T_44", b"T_45", b"T_46", b"T_47", b"T_48", b"T_49", b"T_50",
+    b"T_51", b"T_52", b"T_53", b"T_54", b"T_55", b"T_56", b"T_57", b"T_58", b"T_59", b"T_60",
+    b"T_61", b"T_62", b"T_63", b"T_64", b"T_65", b"T_66", b"T_67", b"T_68", b"T_69", b"T_70",
+    b"T_71", b"T_72", b"T_73", b"T_74",
 ];
 
 /// The general case for Vector CP.
-- 
2.43.0


From cf1171aae8cade37edc55faba3d8837f7a6ca722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:35 +0000
Subject: [PATCH 02/16] fix: reject inner product proofs whose L and R vectors
 differ in length

A shorter R made the verifier index out of bounds; a longer one shifted the
points of the final multiscalar multiplication against their scalars and
left the extra points outside of the transcript.
---
 bulletproofs/src/inner_product_proof.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bulletproofs/src/inner_product_proof.rs b/bulletproofs/src/inner_product_proof.rs
index 7089839..99c4aa1 100644
--- a/bulletproofs/src/inner_product_proof.rs
+++ b/bulletproofs/src/inner_product_proof.rs
@@ -257,7 +257,7 @@ impl<C: AffineRepr> InnerProductProof<C> {
             return Err(ProofError::VerificationError);
         }
 
-        if n != (1 << lg_n) {
+        if n != (1 << lg_n) || self.R_vec.len() != lg_n {
             return Err(ProofError::VerificationError);
         }
 
-- 
2.43.0


From 0cfa8cee300b8aa0d4964cc272e9cbeaa13f9ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:36 +0000
Subject: [PATCH 03/16] fix: return an error for proofs of the wrong shape

The number of T commitments, the absent T commitment and absent second
phase commitments were only checked by debug assertions: malformed proofs
made the verifier panic or were accepted with unused parts.
---
 bulletproofs/src/r1cs/proof.rs    |  2 +-
 bulletproofs/src/r1cs/verifier.rs | 17 +++++++++--------
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/bulletproofs/src/r1cs/proof.rs b/bulletproofs/src/r1cs/proof.rs
index 7f416ca..09d7902 100644
--- a/bulletproofs/src/r1cs/proof.rs
+++ b/bulletproofs/src/r1cs/proof.rs
@@ -56,7 +56,7 @@ pub struct R1CSProof<C: AffineRepr> {
 }
 
 impl<C: AffineRepr> R1CSProof<C> {
-    fn missing_phase2_commitments(&self) -> bool {
+    pub(super) fn missing_phase2_commitments(&self) -> bool {
         self.A_I2.is_zero() && self.A_O2.is_zero() && self.S2.is_zero()
     }
 
diff --git a/bulletproofs/src/r1cs/verifier.rs b/bulletproofs/src/r1cs/verifier.rs
index 23cd922..57fcdb2 100644
--- a/bulletproofs/src/r1cs/verifier.rs
+++ b/bulletproofs/src/r1cs/verifier.rs
@@ -502,7 +502,15 @@ impl<T: BorrowMut<Transcript>, C: AffineRepr> Verifier<T, C> {
         let op_aO = ops[1];
         let op_vec = &ops[2..];
 
-        debug_assert_eq!(t_poly_deg + 1, proof.T.len());
+        // The proof may be attacker controlled: check its shape before using it.
+        if proof.T.len() != t_poly_deg + 1 || !proof.T[op_degree].is_zero() {
+            return Err(R1CSError::VerificationError);
+        }
+
+        // There are no second phase multipliers in circuits with vector commitments.
+        if ncomm > 0 && !proof.missing_phase2_commitments() {
+            return Err(R1CSError::VerificationError);
+        }
 
         transcript.validate_and_append_point(b"A_I1", &proof.A_I1)?;
         transcript.validate_and_append_point(b"A_O1", &proof.A_O1)?;
@@ -653,9 +661,6 @@ impl<T: BorrowMut<Transcript>, C: AffineRepr> Verifier<T, C> {
             }
         }
 
-        debug_assert_eq!(proof.T[op_degree], C::zero());
-        debug_assert_eq!(proof.T.len(), t_poly_deg + 1);
-
         // homomorphically evaluate t polynomial at x
         let mut T_points = vec![];
         let mut T_scalars = vec![];
@@ -671,10 +676,6 @@ impl<T: BorrowMut<Transcript>, C: AffineRepr> Verifier<T, C> {
             T_scalars.push(rxs[d]);
         }
 
-        debug_assert!(ncomm == 0 || proof.A_I2 == C::zero());
-        debug_assert!(ncomm == 0 || proof.A_O2 == C::zero());
-        debug_assert!(ncomm == 0 || proof.S2 == C::zero());
-
         let xI = xs[op_aLaR.0];
         let xO = xs[op_aO.0];
         let xS = xs[op_degree + 1];
-- 
2.43.0


From c43400e7864569a37ec5ce35113d7f7615a42bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:18 +0000
Subject: [PATCH 04/16] fix: validate all points of a proof nested in a
 container

Vec<R1CSProof> decodes its elements unvalidated and relies on Valid::check,
which accepted everything.
---
 bulletproofs/src/inner_product_proof.rs |  5 ++++-
 bulletproofs/src/r1cs/proof.rs          | 11 ++++++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/bulletproofs/src/inner_product_proof.rs b/bulletproofs/src/inner_product_proof.rs
index 99c4aa1..61c3948 100644
--- a/bulletproofs/src/inner_product_proof.rs
+++ b/bulletproofs/src/inner_product_proof.rs
@@ -385,7 +385,10 @@ impl<C: AffineRepr> InnerProductProof<C> {
 
 impl<C: AffineRepr> Valid for InnerProductProof<C> {
     fn check(&self) -> Result<(), SerializationError> {
-        Ok(())
+        self.L_vec.check()?;
+        self.R_vec.check()?;
+        self.a.check()?;
+        self.b.check()
     }
 }
 impl<C: AffineRepr> CanonicalDeserialize for InnerProductProof<C> {
diff --git a/bulletproofs/src/r1cs/proof.rs b/bulletproofs/src/r1cs/proof.rs
index 09d7902..241679e 100644
--- a/bulletproofs/src/r1cs/proof.rs
+++ b/bulletproofs/src/r1cs/proof.rs
@@ -128,7 +128,16 @@ impl<C: AffineRepr> CanonicalSerialize for R1CSProof<C> {
 
 impl<C: AffineRepr> Valid for R1CSProof<C> {
     fn check(&self) -> Result<(), SerializationError> {
-        Ok(())
+        for point in [
+            &self.A_I1, &self.A_O1, &self.S1, &self.A_I2, &self.A_O2, &self.S2,
+        ] {
+            point.check()?;
+        }
+        self.T.check()?;
+        self.t_x.check()?;
+        self.t_x_blinding.check()?;
+        self.e_blinding.check()?;
+        self.ipp_proof.check()
     }
 }
 impl<C: AffineRepr> CanonicalDeserialize for R1CSProof<C> {
-- 
2.43.0


From b5d0e9186da51eefdd0692948faaaa5d4f85bf07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:26 +0000
Subject: [PATCH 05/16] fix: batch verification of circuits of different sizes

The scalars of the generators were added position by position although H
starts after as many scalars as the circuit has gates, and the number of
generators was taken from the first circuit. Valid batches of mixed sizes
were rejected and some invalid ones accepted. An empty batch no longer
panics.
---
 bulletproofs/src/r1cs/verifier.rs | 54 +++++++++++++++++--------------
 1 file changed, 29 insertions(+), 25 deletions(-)

diff --git a/bulletproofs/src/r1cs/verifier.rs b/bulletproofs/src/r1cs/verifier.rs
index 57fcdb2..b23d9ad 100644
--- a/bulletproofs/src/r1cs/verifier.rs
+++ b/bulletproofs/src/r1cs/verifier.rs
@@ -736,37 +736,41 @@ pub fn batch_verify<C: AffineRepr>(
     bp_gens: &BulletproofGens<C>,
 ) -> Result<(), R1CSError> {
     let mut rng = rand::thread_rng();
-    let mut ver_iter = verification_tuples.into_iter();
-    let vt = ver_iter.next().unwrap();
-    let (mut proof_points, mut proof_point_scalars, mut linear_combination) = (
-        vt.proof_dependent_points,
-        vt.proof_dependent_scalars,
-        vt.proof_independent_scalars,
-    );
-    let padded_n = (linear_combination.len() - 2) / 2;
 
-    for mut vt in ver_iter {
+    // The circuits may differ in size: the largest one determines the number of generators.
+    let padded_n = verification_tuples
+        .iter()
+        .map(|vt| (vt.proof_independent_scalars.len() - 2) / 2)
+        .max()
+        .unwrap_or(0);
+
+    let mut proof_points = vec![];
+    let mut proof_point_scalars = vec![];
+    // B, B_blinding, G_0, ..., G_{padded_n - 1}, H_0, ..., H_{padded_n - 1}
+    let mut linear_combination = vec![C::ScalarField::zero(); 2 + 2 * padded_n];
+
+    for (i, mut vt) in verification_tuples.into_iter().enumerate() {
         proof_points.append(&mut vt.proof_dependent_points);
 
         // Sample random scalar
-        let random_scalar = C::ScalarField::rand(&mut rng);
+        let random_scalar = if i == 0 {
+            C::ScalarField::one()
+        } else {
+            C::ScalarField::rand(&mut rng)
+        };
 
         // Multiply all scalars
-        let ps = vt
-            .proof_dependent_scalars
-            .into_iter()
-            .map(|s| s * random_scalar);
-        let fps = vt
-            .proof_independent_scalars
-            .into_iter()
-            .map(|s| s * random_scalar);
-
-        proof_point_scalars.append(&mut ps.collect());
-        linear_combination = linear_combination
-            .iter()
-            .zip(fps)
-            .map(|(a, b)| *a + b)
-            .collect()
+        proof_point_scalars.extend(
+            vt.proof_dependent_scalars
+                .into_iter()
+                .map(|s| s * random_scalar),
+        );
+        let n = (vt.proof_independent_scalars.len() - 2) / 2;
+        for (j, s) in vt.proof_independent_scalars.into_iter().enumerate() {
+            // The scalars of H start after all padded_n scalars of G.
+            let position = if j < 2 + n { j } else { j - n + padded_n };
+            linear_combination[position] += s * random_scalar;
+        }
     }
 
     // We are performing a single-party circuit proof, so party index is 0.
-- 
2.43.0


From c4af8f9e645ab60bc30a67a54fd910e71bb8cc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:50 +0000
Subject: [PATCH 06/16] fix: bind the rerandomized sum of a batched level to
 the transcript

---
 relations/src/single_level_select_and_rerandomize.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/relations/src/single_level_select_and_rerandomize.rs b/relations/src/single_level_select_and_rerandomize.rs
index 343128c..7d16b62 100644
--- a/relations/src/single_level_select_and_rerandomize.rs
+++ b/relations/src/single_level_select_and_rerandomize.rs
@@ -141,6 +141,16 @@ pub fn single_level_batched_select_and_rerandomize<
     children_plus_delta: Option<&[Affine<C2>; M]>, // Witnesses of the commitments being selected and rerandomized
     randomness_offset: Option<Fb>, // The scalar used for randomizing, i.e. \sum selected_witnesses + randomness_offset * H = sum_of_rerandomized + M * Delta
 ) {
+    // Add the rerandomised sum to the transcript
+    {
+        let mut bytes = Vec::new();
+        if let Err(e) = sum_of_rerandomized.serialize_compressed(&mut bytes) {
+            panic!("{}", e)
+        }
+        cs.transcript()
+            .append_message(b"sum_of_rerandomized", &bytes);
+    }
+
     // Initialize the accumulated sum of the selected children to dummy values.
     let mut sum_of_selected = PointRepresentation {
         x: Variable::One(PhantomData).into(),
-- 
2.43.0


From c7f9a38cfd851ed3abf825c9166f26ef4add6b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:47 +0000
Subject: [PATCH 07/16] fix: refuse to prove membership of an index outside the
 tree

---
 relations/src/curve_tree_prover.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/relations/src/curve_tree_prover.rs b/relations/src/curve_tree_prover.rs
index 58b0a15..72b9289 100644
--- a/relations/src/curve_tree_prover.rs
+++ b/relations/src/curve_tree_prover.rs
@@ -83,6 +83,17 @@ impl<
         let mut even_internal_nodes: Vec<CurveTreeWitness<L, P0, P1>> = Vec::new();
         let mut odd_internal_nodes: Vec<CurveTreeWitness<L, P1, P0>> = Vec::new();
 
+        let elements = match self {
+            Self::Even(ct) => ct.elements(),
+            Self::Odd(ct) => ct.elements(),
+        };
+        if index >= elements {
+            panic!(
+                "Index out of bounds. Elements: {}, Index: {}",
+                elements, index
+            )
+        }
+
         match self {
             Self::Even(ct) => ct.select_and_rerandomize_prover_witness(
                 index,
-- 
2.43.0


From 4f3c37f49291790e00a7caa8df3468fb6cad7c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:44 +0000
Subject: [PATCH 08/16] fix: reject membership paths that do not end at leaf
 level in release builds

---
 relations/src/batched_curve_tree_verifier.rs | 11 ++++++-----
 relations/src/curve_tree_verifier.rs         | 11 ++++++-----
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/relations/src/batched_curve_tree_verifier.rs b/relations/src/batched_curve_tree_verifier.rs
index 4f5041b..40ed851 100644
--- a/relations/src/batched_curve_tree_verifier.rs
+++ b/relations/src/batched_curve_tree_verifier.rs
@@ -54,6 +54,12 @@ impl<
                 randomized_path.even_commitments = even_commitments_with_root;
             }
         };
+        // The even and odd commitments do not include the selected leaves, their sum should equal the height of the tree.
+        // A path of any other length does not end at the leaves.
+        assert_eq!(
+            self.height(),
+            randomized_path.even_commitments.len() + randomized_path.odd_commitments.len()
+        );
     }
 }
 
@@ -74,11 +80,6 @@ impl<
         parameters: &SelRerandParameters<P0, P1>,
     ) -> [Affine<P0>; M] {
         self.batched_select_and_rerandomize_verification_commitments(&mut randomized_path);
-        // The even and odd commitments do not include the selected leaves, their sum should equal the height of the tree.
-        debug_assert_eq!(
-            self.height(),
-            randomized_path.even_commitments.len() + randomized_path.odd_commitments.len()
-        );
 
         randomized_path.even_verifier_gadget(even_verifier, parameters, self);
         randomized_path.odd_verifier_gadget(odd_verifier, parameters, self);
diff --git a/relations/src/curve_tree_verifier.rs b/relations/src/curve_tree_verifier.rs
index 1402234..03bbebd 100644
--- a/relations/src/curve_tree_verifier.rs
+++ b/relations/src/curve_tree_verifier.rs
@@ -44,6 +44,12 @@ impl<
                 randomized_path.even_commitments = even_commitments_with_root;
             }
         };
+        // The even and odd commitments do not include the selected leaf, their sum should equal the height of the tree.
+        // A path of any other length does not end at a leaf.
+        assert_eq!(
+            self.height(),
+            randomized_path.even_commitments.len() + randomized_path.odd_commitments.len()
+        );
     }
 }
 
@@ -64,11 +70,6 @@ impl<
         parameters: &SelRerandParameters<P0, P1>,
     ) -> Affine<P0> {
         self.select_and_rerandomize_verification_commitments(&mut randomized_path);
-        // The even and odd commitments do not include the selected leaf, their sum should equal the height of the tree.
-        debug_assert_eq!(
-            self.height(),
-            randomized_path.even_commitments.len() + randomized_path.odd_commitments.len()
-        );
 
         randomized_path.even_verifier_gadget(even_verifier, parameters, self);
         randomized_path.odd_verifier_gadget(odd_verifier, parameters, self);
-- 
2.43.0


From b0350eaf450f0c41e67907340263d0748af165c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:11 +0000
Subject: [PATCH 09/16] fix: constrain the first window of the rerandomization
 to its table entry

---
 relations/src/rerandomize.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/relations/src/rerandomize.rs b/relations/src/rerandomize.rs
index eba907c..e7284b0 100644
--- a/relations/src/rerandomize.rs
+++ b/relations/src/rerandomize.rs
@@ -133,7 +133,11 @@ pub fn re_randomize<
         // Allocate coordinates for the accumulated witness
         let acc_i_x_lc: LinearCombination<F> = cs.allocate(acc_i_x).unwrap().into();
         let acc_i_y_lc: LinearCombination<F> = cs.allocate(acc_i_y).unwrap().into();
-        if i > 1 {
+        if i == 1 {
+            // Enforce R_1 = (x_1, y_1)
+            cs.constrain(acc_i_x_lc.clone() - x_table);
+            cs.constrain(acc_i_y_lc.clone() - y_table);
+        } else {
             // Enforce addition constraint:
             // R_i = R_i-1 + (x_i, y_i)
             let prms = CurveAddition {
-- 
2.43.0


From 9fd2f8f870f5816c875fb0214553da2f0ea3d6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:54 +0000
Subject: [PATCH 10/16] fix: check curve membership with the linear coefficient
 A*x

---
 relations/src/curve.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/relations/src/curve.rs b/relations/src/curve.rs
index 194c7c4..e5dfd50 100644
--- a/relations/src/curve.rs
+++ b/relations/src/curve.rs
@@ -11,16 +11,11 @@ pub fn curve_check<F: Field, Cs: ConstraintSystem<F>>(
     b: F,
 ) {
     let (_, _, x_squared) = cs.multiply(x.clone(), x.clone());
-    let (_, _, x_cubed) = cs.multiply(x, x_squared.into());
+    let (_, _, x_cubed) = cs.multiply(x.clone(), x_squared.into());
     let (_, _, y_squared) = cs.multiply(y.clone(), y);
 
-    // x^3 + A*x^2 + B - y^2 = 0
-    cs.constrain(
-        LinearCombination::<F>::from(x_cubed)
-            + LinearCombination::<F>::from(x_squared).scalar_mul(a)
-            + b
-            - y_squared,
-    )
+    // x^3 + A*x + B - y^2 = 0
+    cs.constrain(LinearCombination::<F>::from(x_cubed) + x.scalar_mul(a) + b - y_squared)
 }
 
 /// A point represented by variables corresponding to its affine coordinates and optionally the value of those,
-- 
2.43.0


From 2f080738843f1d288c58b5a4cc8a1ac4626fa5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:01 +0000
Subject: [PATCH 11/16] fix: check additions of the rerandomization whose
 scalars can wrap around

---
 relations/src/rerandomize.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/relations/src/rerandomize.rs b/relations/src/rerandomize.rs
index e7284b0..6a4b8ef 100644
--- a/relations/src/rerandomize.rs
+++ b/relations/src/rerandomize.rs
@@ -71,6 +71,10 @@ pub fn re_randomize<
         }
     };
 
+    // Incomplete addition is sound as long as the scalars of the summands cannot wrap around the group order.
+    // The entries of table i < m stand for scalars below 2^(3 * i + 1), so they can from i = (lambda - 1) / 3.
+    let sum_may_wrap = |i: usize| 3 * i + 1 >= lambda;
+
     let mut blinding_accumulator = Affine::<P>::zero();
     let mut acc_i_minus_1_x_lc: LinearCombination<F> = Variable::One(PhantomData).into();
     let mut acc_i_minus_1_y_lc: LinearCombination<F> = Variable::One(PhantomData).into();
@@ -109,7 +113,7 @@ pub fn re_randomize<
                 } else {
                     None
                 };
-                let x_left_minus_x_right_inv = if i == m {
+                let x_left_minus_x_right_inv = if sum_may_wrap(i) {
                     // compute x_l-x_r inverse for checked addition
                     Some(F::one() / (x_left - x_right))
                 } else {
@@ -149,7 +153,7 @@ pub fn re_randomize<
                 y_o: acc_i_y_lc.clone(),
                 delta,
             };
-            if i == m {
+            if sum_may_wrap(i) {
                 // enforce checked curve addition
                 checked_curve_addition(cs, &prms, x_l_minus_x_r_inv);
             } else {
-- 
2.43.0


From 32d6f06afc6e6c2c4b25008b71724beea3222fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:51 +0000
Subject: [PATCH 12/16] fix: pour verification opened the spent coin with as
 many generators as the tree's branching factor

A coin commits to a value and a tag. With branching factor 1 the verifier panicked, and where the
branching factor exceeds the size of the circuit, honest pours were rejected.
---
 relations/src/coin.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/relations/src/coin.rs b/relations/src/coin.rs
index ade836a..fb9cae8 100644
--- a/relations/src/coin.rs
+++ b/relations/src/coin.rs
@@ -589,7 +589,8 @@ fn verify_spend_even<
     curve_tree: &CurveTree<L, 1, P0, P1>,
 ) -> Variable<P0::ScalarField> {
     commitments.even_verifier_gadget(even_verifier, sr_parameters, curve_tree);
-    let vars = even_verifier.commit_vec(L, commitments.get_rerandomized_leaf());
+    // A coin is a commitment to a value and a tag.
+    let vars = even_verifier.commit_vec(2, commitments.get_rerandomized_leaf());
 
     // enforce equality of tag with hash of public key
     even_verifier.constrain(vars[1] - Coin::<P0, C>::pk_to_scalar(pk));
-- 
2.43.0


From 0abfc5ecea3ea63d920ac8312a942f49d0283e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:48 +0000
Subject: [PATCH 13/16] fix: reject a pour whose signatures do not verify

---
 relations/src/coin.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/relations/src/coin.rs b/relations/src/coin.rs
index fb9cae8..e079024 100644
--- a/relations/src/coin.rs
+++ b/relations/src/coin.rs
@@ -665,7 +665,7 @@ impl<
         pk0: &PublicKey<C>,
         pk1: &PublicKey<C>,
     ) {
-        Schnorr::verify(
+        assert!(Schnorr::verify(
             sig_parameters,
             pk0,
             self.pour_bytes.as_slice(),
@@ -674,8 +674,8 @@ impl<
                 prover_response: self.signature_prover_response_0,
             },
         )
-        .unwrap();
-        Schnorr::verify(
+        .unwrap());
+        assert!(Schnorr::verify(
             sig_parameters,
             pk1,
             self.pour_bytes.as_slice(),
@@ -684,7 +684,7 @@ impl<
                 prover_response: self.signature_prover_response_1,
             },
         )
-        .unwrap();
+        .unwrap());
     }
 }
 
-- 
2.43.0


From 49788c1da7b9e4c354c055cf5ef0f0270bd50d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:58 +0000
Subject: [PATCH 14/16] fix: proofs without a second phase had many encodings

---
 bulletproofs/src/r1cs/proof.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/bulletproofs/src/r1cs/proof.rs b/bulletproofs/src/r1cs/proof.rs
index 241679e..fc0db1f 100644
--- a/bulletproofs/src/r1cs/proof.rs
+++ b/bulletproofs/src/r1cs/proof.rs
@@ -150,16 +150,16 @@ impl<C: AffineRepr> CanonicalDeserialize for R1CSProof<C> {
         let A_O1 = C::deserialize_with_mode(&mut reader, compress, validate)?;
         let S1 = C::deserialize_with_mode(&mut reader, compress, validate)?;
         let flag = u8::deserialize_with_mode(&mut reader, compress, validate)?;
-        let (A_I2, A_O2, S2) = if flag == TWO_PHASE_COMMITMENTS {
-            (
+        let (A_I2, A_O2, S2) = match flag {
+            ONE_PHASE_COMMITMENTS => (C::zero(), C::zero(), C::zero()),
+            TWO_PHASE_COMMITMENTS => (
                 C::deserialize_with_mode(&mut reader, compress, validate)?,
                 C::deserialize_with_mode(&mut reader, compress, validate)?,
                 C::deserialize_with_mode(&mut reader, compress, validate)?,
-            )
-        } else {
-            (C::zero(), C::zero(), C::zero())
+            ),
+            _ => return Err(SerializationError::InvalidData),
         };
-        Ok(Self {
+        let proof = Self {
             A_I1,
             A_O1,
             S1,
@@ -175,6 +175,11 @@ impl<C: AffineRepr> CanonicalDeserialize for R1CSProof<C> {
                 compress,
                 validate,
             )?,
-        })
+        };
+        // A proof without second phase commitments has a single encoding.
+        if flag == TWO_PHASE_COMMITMENTS && proof.missing_phase2_commitments() {
+            return Err(SerializationError::InvalidData);
+        }
+        Ok(proof)
     }
 }
-- 
2.43.0


From b577cd0853b9ace4768098b08840e3cb348585ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:01 +0000
Subject: [PATCH 15/16] fix: decoding paths and pours inside containers skipped
 the validation of their points

---
 relations/src/coin.rs       | 9 ++++++++-
 relations/src/curve_tree.rs | 4 +++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/relations/src/coin.rs b/relations/src/coin.rs
index e079024..712ef57 100644
--- a/relations/src/coin.rs
+++ b/relations/src/coin.rs
@@ -356,7 +356,14 @@ impl<
     > Valid for Pour<L, P0, P1, C>
 {
     fn check(&self) -> Result<(), SerializationError> {
-        Ok(())
+        self.even_proof.check()?;
+        self.odd_proof.check()?;
+        self.randomized_path_0.check()?;
+        self.randomized_path_1.check()?;
+        self.pk0.check()?;
+        self.pk1.check()?;
+        self.minted_coin_commitment_0.check()?;
+        self.minted_coin_commitment_1.check()
     }
 }
 impl<
diff --git a/relations/src/curve_tree.rs b/relations/src/curve_tree.rs
index 2200c70..0acc5dd 100644
--- a/relations/src/curve_tree.rs
+++ b/relations/src/curve_tree.rs
@@ -226,7 +226,9 @@ impl<const L: usize, P0: SWCurveConfig, P1: SWCurveConfig> Valid
     for SelectAndRerandomizePath<L, P0, P1>
 {
     fn check(&self) -> Result<(), SerializationError> {
-        Ok(())
+        self.selected_commitment.check()?;
+        self.odd_commitments.check()?;
+        self.even_commitments.check()
     }
 }
 impl<const L: usize, P0: SWCurveConfig, P1: SWCurveConfig> CanonicalDeserialize
-- 
2.43.0


From 3fee942deeaaabc21c59bb9f5475c1342d02be45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:59 +0000
Subject: [PATCH 16/16] fix: circuits with more than 17 vector commitments
 panicked

The labels of the commitments to the coefficients of t came from a table
of fixed size, so prover and verifier indexed beyond it (for instance for
nine memberships in trees of height 5 in one proof).
---
 bulletproofs/src/r1cs/prover.rs   | 2 +-
 bulletproofs/src/r1cs/verifier.rs | 2 +-
 bulletproofs/src/util.rs          | 7 +++++++
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/bulletproofs/src/r1cs/prover.rs b/bulletproofs/src/r1cs/prover.rs
index cddad3b..2b1f06a 100644
--- a/bulletproofs/src/r1cs/prover.rs
+++ b/bulletproofs/src/r1cs/prover.rs
@@ -978,7 +978,7 @@ impl<'g, T: BorrowMut<Transcript>, C: AffineRepr> Prover<'g, T, C> {
             if d == op_degree {
                 continue;
             }
-            transcript.append_point(util::T_LABELS[d], td);
+            transcript.append_point(util::t_label(d), td);
         }
 
         let u = transcript.challenge_scalar::<C>(b"u");
diff --git a/bulletproofs/src/r1cs/verifier.rs b/bulletproofs/src/r1cs/verifier.rs
index b23d9ad..6d41249 100644
--- a/bulletproofs/src/r1cs/verifier.rs
+++ b/bulletproofs/src/r1cs/verifier.rs
@@ -549,7 +549,7 @@ impl<T: BorrowMut<Transcript>, C: AffineRepr> Verifier<T, C> {
                 continue;
             }
             // println!("{}", &proof.T[d]);
-            transcript.validate_and_append_point(util::T_LABELS[d], &proof.T[d])?;
+            transcript.validate_and_append_point(util::t_label(d), &proof.T[d])?;
         }
 
         let u = transcript.challenge_scalar::<C>(b"u");
diff --git a/bulletproofs/src/util.rs b/bulletproofs/src/util.rs
index 72a4116..03ff0c7 100644
--- a/bulletproofs/src/util.rs
+++ b/bulletproofs/src/util.rs
@@ -31,6 +31,13 @@ pub const T_LABELS: [&[u8]; 75] = [
     b"T_71", b"T_72", b"T_73", b"T_74",
 ];
 
+/// The transcript label of the commitment to the coefficient of degree `d` of t.
+/// The number and order of these commitments are determined by the circuit,
+/// so those beyond the table can share a label.
+pub fn t_label(d: usize) -> &'static [u8] {
+    T_LABELS.get(d).copied().unwrap_or(b"T_d")
+}
+
 /// The general case for Vector CP.
 pub struct VecPoly<F: Field>(Vec<Vec<F>>);
 
-- 
2.43.0

