From fbb8cc2675c0a0d253dd7f67a71e81bb6e6eff30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:30 +0000
Subject: [PATCH 01/14] hooks: read/corrupt access to circuits and witnesses
 for the simulator (cfg curve_trees_sim, off by default)

---
 bulletproofs/src/lib.rs                       |  3 ++
 bulletproofs/src/r1cs/linear_combination.rs   |  3 ++
 .../src/r1cs/linear_combination/sim.rs        |  8 ++++
 bulletproofs/src/r1cs/mod.rs                  |  3 ++
 bulletproofs/src/r1cs/prover.rs               |  3 ++
 bulletproofs/src/r1cs/prover/sim.rs           | 37 +++++++++++++++++++
 bulletproofs/src/r1cs/verifier.rs             |  3 ++
 bulletproofs/src/r1cs/verifier/sim.rs         | 25 +++++++++++++
 8 files changed, 85 insertions(+)
 create mode 100644 bulletproofs/src/r1cs/linear_combination/sim.rs
 create mode 100644 bulletproofs/src/r1cs/prover/sim.rs
 create mode 100644 bulletproofs/src/r1cs/verifier/sim.rs

diff --git a/bulletproofs/src/lib.rs b/bulletproofs/src/lib.rs
index 514b693..d25429b 100644
--- a/bulletproofs/src/lib.rs
+++ b/bulletproofs/src/lib.rs
@@ -1,3 +1,6 @@
+// `curve_trees_sim` guards the hooks of the deterministic simulator; it is never set by default.
+#![allow(unexpected_cfgs)]
+
 extern crate alloc;
 
 mod util;
diff --git a/bulletproofs/src/r1cs/linear_combination.rs b/bulletproofs/src/r1cs/linear_combination.rs
index 8e581aa..cd21167 100644
--- a/bulletproofs/src/r1cs/linear_combination.rs
+++ b/bulletproofs/src/r1cs/linear_combination.rs
@@ -230,3 +230,6 @@ impl<F: Field, S: Into<F>> Mul<S> for LinearCombination<F> {
         self
     }
 }
+
+#[cfg(curve_trees_sim)]
+pub mod sim;
diff --git a/bulletproofs/src/r1cs/linear_combination/sim.rs b/bulletproofs/src/r1cs/linear_combination/sim.rs
new file mode 100644
index 0000000..b6ab546
--- /dev/null
+++ b/bulletproofs/src/r1cs/linear_combination/sim.rs
@@ -0,0 +1,8 @@
+//! Simulator hook (only with `--cfg curve_trees_sim`): read the terms of a linear combination.
+use super::*;
+
+impl<F: Field> LinearCombination<F> {
+    pub fn sim_terms(&self) -> &[(Variable<F>, F)] {
+        &self.terms
+    }
+}
diff --git a/bulletproofs/src/r1cs/mod.rs b/bulletproofs/src/r1cs/mod.rs
index 18b93b8..b7cfee7 100644
--- a/bulletproofs/src/r1cs/mod.rs
+++ b/bulletproofs/src/r1cs/mod.rs
@@ -16,6 +16,9 @@ pub use self::verifier::{batch_verify, VerificationTuple, Verifier};
 
 pub use crate::errors::R1CSError;
 
+#[cfg(curve_trees_sim)]
+pub use self::{prover::sim::SimWitness, verifier::sim::SimCircuit};
+
 fn op_splits(op_deg: usize) -> Vec<(usize, usize)> {
     debug_assert_eq!(op_deg % 2, 0);
     let mid = op_deg / 2;
diff --git a/bulletproofs/src/r1cs/prover.rs b/bulletproofs/src/r1cs/prover.rs
index 694fd1f..3bec013 100644
--- a/bulletproofs/src/r1cs/prover.rs
+++ b/bulletproofs/src/r1cs/prover.rs
@@ -1194,3 +1194,6 @@ impl<'g, T: BorrowMut<Transcript>, C: AffineRepr> Prover<'g, T, C> {
         Ok((proof, self.transcript))
     }
 }
+
+#[cfg(curve_trees_sim)]
+pub mod sim;
diff --git a/bulletproofs/src/r1cs/prover/sim.rs b/bulletproofs/src/r1cs/prover/sim.rs
new file mode 100644
index 0000000..fddaa10
--- /dev/null
+++ b/bulletproofs/src/r1cs/prover/sim.rs
@@ -0,0 +1,37 @@
+//! Simulator hooks (only with `--cfg curve_trees_sim`): let a simulated Byzantine prover look at
+//! and corrupt its own witness before the real proving code runs.  Never part of a normal build.
+use super::*;
+
+/// Everything a prover holds in memory: gate assignments and commitment openings.
+pub struct SimWitness<'a, F: Field> {
+    pub a_l: &'a mut Vec<F>,
+    pub a_r: &'a mut Vec<F>,
+    pub a_o: &'a mut Vec<F>,
+    pub v: &'a mut Vec<F>,
+    pub v_blinding: &'a mut Vec<F>,
+    pub vec_open: &'a mut Vec<(F, Vec<F>)>,
+}
+
+impl<'g, T: BorrowMut<Transcript>, C: AffineRepr> Prover<'g, T, C> {
+    pub fn sim_witness(&mut self) -> SimWitness<'_, C::ScalarField> {
+        let s = &mut self.secrets;
+        SimWitness {
+            a_l: &mut s.a_L,
+            a_r: &mut s.a_R,
+            a_o: &mut s.a_O,
+            v: &mut s.v,
+            v_blinding: &mut s.v_blinding,
+            vec_open: &mut s.vec_open,
+        }
+    }
+
+    pub fn sim_constraints(&self) -> &[LinearCombination<C::ScalarField>] {
+        &self.constraints
+    }
+}
+
+impl<'g, T: BorrowMut<Transcript>, C: AffineRepr> RandomizingProver<'g, T, C> {
+    pub fn sim_prover(&mut self) -> &mut Prover<'g, T, C> {
+        &mut self.prover
+    }
+}
diff --git a/bulletproofs/src/r1cs/verifier.rs b/bulletproofs/src/r1cs/verifier.rs
index 5682805..562593c 100644
--- a/bulletproofs/src/r1cs/verifier.rs
+++ b/bulletproofs/src/r1cs/verifier.rs
@@ -800,3 +800,6 @@ pub fn batch_verify<C: AffineRepr>(
 
     Ok(())
 }
+
+#[cfg(curve_trees_sim)]
+pub mod sim;
diff --git a/bulletproofs/src/r1cs/verifier/sim.rs b/bulletproofs/src/r1cs/verifier/sim.rs
new file mode 100644
index 0000000..823cd58
--- /dev/null
+++ b/bulletproofs/src/r1cs/verifier/sim.rs
@@ -0,0 +1,25 @@
+//! Simulator hooks (only with `--cfg curve_trees_sim`): read-only view of the circuit a verifier
+//! has built, so that a simulated adversary can look for false statements it would accept.
+use super::*;
+
+/// The statement held by a verifier.
+pub struct SimCircuit<'a, C: AffineRepr> {
+    /// number of multiplication gates
+    pub gates: usize,
+    pub constraints: &'a [LinearCombination<C::ScalarField>],
+    /// vector commitments and their dimensions
+    pub vec_comms: &'a [(C, usize)],
+    /// single-value commitments
+    pub comms: &'a [C],
+}
+
+impl<T: BorrowMut<Transcript>, C: AffineRepr> Verifier<T, C> {
+    pub fn sim_circuit(&self) -> SimCircuit<'_, C> {
+        SimCircuit {
+            gates: self.num_vars,
+            constraints: &self.constraints,
+            vec_comms: &self.vec_comms,
+            comms: &self.V,
+        }
+    }
+}
-- 
2.43.0


From 9d1c7d3ec35d38cbcfd7cd222812f5a24ff5d757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:57 +0000
Subject: [PATCH 02/14] hooks: show the second generator family to the
 simulator (cfg curve_trees_sim)

---
 bulletproofs/src/generators.rs     |  3 +++
 bulletproofs/src/generators/sim.rs | 10 ++++++++++
 2 files changed, 13 insertions(+)
 create mode 100644 bulletproofs/src/generators/sim.rs

diff --git a/bulletproofs/src/generators.rs b/bulletproofs/src/generators.rs
index 40f2219..72fca99 100644
--- a/bulletproofs/src/generators.rs
+++ b/bulletproofs/src/generators.rs
@@ -360,3 +360,6 @@ mod tests {
         helper(16, 8);
     }
 }
+
+#[cfg(curve_trees_sim)]
+mod sim;
diff --git a/bulletproofs/src/generators/sim.rs b/bulletproofs/src/generators/sim.rs
new file mode 100644
index 0000000..e7a0057
--- /dev/null
+++ b/bulletproofs/src/generators/sim.rs
@@ -0,0 +1,10 @@
+//! Simulator hook (only with `--cfg curve_trees_sim`): the second generator family, which the
+//! public interface does not show.
+use super::*;
+
+impl<C: AffineRepr> BulletproofGensShare<'_, C> {
+    /// The first `n` generators of the second family.
+    pub fn sim_second_family(&self, n: usize) -> Vec<C> {
+        self.H(n).copied().collect()
+    }
+}
-- 
2.43.0


From 7e1db02b7155e6a41049b965c4d100818dc7a71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:43 +0000
Subject: [PATCH 03/14] fix: reject inner product proofs with a different
 number of L and R points

---
 bulletproofs/src/inner_product_proof.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bulletproofs/src/inner_product_proof.rs b/bulletproofs/src/inner_product_proof.rs
index 7089839..dfac8d0 100644
--- a/bulletproofs/src/inner_product_proof.rs
+++ b/bulletproofs/src/inner_product_proof.rs
@@ -261,6 +261,11 @@ impl<C: AffineRepr> InnerProductProof<C> {
             return Err(ProofError::VerificationError);
         }
 
+        // every round has exactly one L and one R
+        if self.R_vec.len() != lg_n {
+            return Err(ProofError::VerificationError);
+        }
+
         transcript.innerproduct_domain_sep(n as u64);
 
         // 1. Recompute x_k,...,x_1 based on the proof transcript
-- 
2.43.0


From 75382eb814dd7720ece14163e436b8ccd422bc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:00 +0000
Subject: [PATCH 04/14] fix: verifier rejects proofs of the wrong shape instead
 of panicking or ignoring parts of them

---
 bulletproofs/src/r1cs/proof.rs    |  2 +-
 bulletproofs/src/r1cs/verifier.rs | 17 +++++++++--------
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/bulletproofs/src/r1cs/proof.rs b/bulletproofs/src/r1cs/proof.rs
index 7f416ca..09d7902 100644
--- a/bulletproofs/src/r1cs/proof.rs
+++ b/bulletproofs/src/r1cs/proof.rs
@@ -56,7 +56,7 @@ pub struct R1CSProof<C: AffineRepr> {
 }
 
 impl<C: AffineRepr> R1CSProof<C> {
-    fn missing_phase2_commitments(&self) -> bool {
+    pub(super) fn missing_phase2_commitments(&self) -> bool {
         self.A_I2.is_zero() && self.A_O2.is_zero() && self.S2.is_zero()
     }
 
diff --git a/bulletproofs/src/r1cs/verifier.rs b/bulletproofs/src/r1cs/verifier.rs
index 562593c..f36c1c9 100644
--- a/bulletproofs/src/r1cs/verifier.rs
+++ b/bulletproofs/src/r1cs/verifier.rs
@@ -502,7 +502,15 @@ impl<T: BorrowMut<Transcript>, C: AffineRepr> Verifier<T, C> {
         let op_aO = ops[1];
         let op_vec = &ops[2..];
 
-        debug_assert_eq!(t_poly_deg + 1, proof.T.len());
+        // The proof is not trusted to have the right shape:
+        // one commitment per coefficient of t, none for the one that is checked,
+        // and no second phase commitments together with vector commitments.
+        if proof.T.len() != t_poly_deg + 1 || !proof.T[op_degree].is_zero() {
+            return Err(R1CSError::VerificationError);
+        }
+        if ncomm > 0 && !proof.missing_phase2_commitments() {
+            return Err(R1CSError::VerificationError);
+        }
 
         transcript.validate_and_append_point(b"A_I1", &proof.A_I1)?;
         transcript.validate_and_append_point(b"A_O1", &proof.A_O1)?;
@@ -653,9 +661,6 @@ impl<T: BorrowMut<Transcript>, C: AffineRepr> Verifier<T, C> {
             }
         }
 
-        debug_assert_eq!(proof.T[op_degree], C::zero());
-        debug_assert_eq!(proof.T.len(), t_poly_deg + 1);
-
         // homomorphically evaluate t polynomial at x
         let mut T_points = vec![];
         let mut T_scalars = vec![];
@@ -671,10 +676,6 @@ impl<T: BorrowMut<Transcript>, C: AffineRepr> Verifier<T, C> {
             T_scalars.push(rxs[d]);
         }
 
-        debug_assert!(ncomm == 0 || proof.A_I2 == C::zero());
-        debug_assert!(ncomm == 0 || proof.A_O2 == C::zero());
-        debug_assert!(ncomm == 0 || proof.S2 == C::zero());
-
         let xI = xs[op_aLaR.0];
         let xO = xs[op_aO.0];
         let xS = xs[op_degree + 1];
-- 
2.43.0


From c0e741c94800b3f90fa8bf0e5b7092357f009341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:03 +0000
Subject: [PATCH 05/14] fix: reject unknown phase flags and non-canonical
 second phase encodings

---
 bulletproofs/src/r1cs/proof.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bulletproofs/src/r1cs/proof.rs b/bulletproofs/src/r1cs/proof.rs
index 09d7902..8ae439c 100644
--- a/bulletproofs/src/r1cs/proof.rs
+++ b/bulletproofs/src/r1cs/proof.rs
@@ -147,9 +147,15 @@ impl<C: AffineRepr> CanonicalDeserialize for R1CSProof<C> {
                 C::deserialize_with_mode(&mut reader, compress, validate)?,
                 C::deserialize_with_mode(&mut reader, compress, validate)?,
             )
-        } else {
+        } else if flag == ONE_PHASE_COMMITMENTS {
             (C::zero(), C::zero(), C::zero())
+        } else {
+            return Err(SerializationError::InvalidData);
         };
+        // absent second phase commitments have a single encoding
+        if flag == TWO_PHASE_COMMITMENTS && A_I2.is_zero() && A_O2.is_zero() && S2.is_zero() {
+            return Err(SerializationError::InvalidData);
+        }
         Ok(Self {
             A_I1,
             A_O1,
-- 
2.43.0


From 5fb3737a31c3fcd42af38742469e5eb995d69753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:34 +0000
Subject: [PATCH 06/14] fix: reject transactions whose signatures do not verify

---
 relations/src/coin.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/relations/src/coin.rs b/relations/src/coin.rs
index ade836a..c1be616 100644
--- a/relations/src/coin.rs
+++ b/relations/src/coin.rs
@@ -664,7 +664,8 @@ impl<
         pk0: &PublicKey<C>,
         pk1: &PublicKey<C>,
     ) {
-        Schnorr::verify(
+        // `Schnorr::verify` returns `Ok(false)` for a signature that does not match.
+        let valid_0 = Schnorr::verify(
             sig_parameters,
             pk0,
             self.pour_bytes.as_slice(),
@@ -674,7 +675,7 @@ impl<
             },
         )
         .unwrap();
-        Schnorr::verify(
+        let valid_1 = Schnorr::verify(
             sig_parameters,
             pk1,
             self.pour_bytes.as_slice(),
@@ -684,6 +685,7 @@ impl<
             },
         )
         .unwrap();
+        assert!(valid_0 && valid_1, "invalid signature");
     }
 }
 
-- 
2.43.0


From f22a564e058d532c7112eb90188bed9e397b729d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:25 +0000
Subject: [PATCH 07/14] fix: bind the first window of the rerandomization to
 its table lookup

---
 relations/src/rerandomize.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/relations/src/rerandomize.rs b/relations/src/rerandomize.rs
index eba907c..6da38f1 100644
--- a/relations/src/rerandomize.rs
+++ b/relations/src/rerandomize.rs
@@ -133,7 +133,12 @@ pub fn re_randomize<
         // Allocate coordinates for the accumulated witness
         let acc_i_x_lc: LinearCombination<F> = cs.allocate(acc_i_x).unwrap().into();
         let acc_i_y_lc: LinearCombination<F> = cs.allocate(acc_i_y).unwrap().into();
-        if i > 1 {
+        if i == 1 {
+            // The accumulator starts at the first table lookup:
+            // R_1 = (x_1, y_1)
+            cs.constrain(acc_i_x_lc.clone() - x_table);
+            cs.constrain(acc_i_y_lc.clone() - y_table);
+        } else {
             // Enforce addition constraint:
             // R_i = R_i-1 + (x_i, y_i)
             let prms = CurveAddition {
-- 
2.43.0


From 12c413ff0010ea494c107929040e903bbc77a5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:27 +0000
Subject: [PATCH 08/14] fix: check points against the curve equation x^3 + A*x
 + B

---
 relations/src/curve.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/relations/src/curve.rs b/relations/src/curve.rs
index 194c7c4..e5dfd50 100644
--- a/relations/src/curve.rs
+++ b/relations/src/curve.rs
@@ -11,16 +11,11 @@ pub fn curve_check<F: Field, Cs: ConstraintSystem<F>>(
     b: F,
 ) {
     let (_, _, x_squared) = cs.multiply(x.clone(), x.clone());
-    let (_, _, x_cubed) = cs.multiply(x, x_squared.into());
+    let (_, _, x_cubed) = cs.multiply(x.clone(), x_squared.into());
     let (_, _, y_squared) = cs.multiply(y.clone(), y);
 
-    // x^3 + A*x^2 + B - y^2 = 0
-    cs.constrain(
-        LinearCombination::<F>::from(x_cubed)
-            + LinearCombination::<F>::from(x_squared).scalar_mul(a)
-            + b
-            - y_squared,
-    )
+    // x^3 + A*x + B - y^2 = 0
+    cs.constrain(LinearCombination::<F>::from(x_cubed) + x.scalar_mul(a) + b - y_squared)
 }
 
 /// A point represented by variables corresponding to its affine coordinates and optionally the value of those,
-- 
2.43.0


From 78f184d285fa222ef1a17de1c9b915a046d54ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:28 +0000
Subject: [PATCH 09/14] fix: add the rerandomized sum to the transcript in the
 batched gadget

---
 relations/src/single_level_select_and_rerandomize.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/relations/src/single_level_select_and_rerandomize.rs b/relations/src/single_level_select_and_rerandomize.rs
index 343128c..7d16b62 100644
--- a/relations/src/single_level_select_and_rerandomize.rs
+++ b/relations/src/single_level_select_and_rerandomize.rs
@@ -141,6 +141,16 @@ pub fn single_level_batched_select_and_rerandomize<
     children_plus_delta: Option<&[Affine<C2>; M]>, // Witnesses of the commitments being selected and rerandomized
     randomness_offset: Option<Fb>, // The scalar used for randomizing, i.e. \sum selected_witnesses + randomness_offset * H = sum_of_rerandomized + M * Delta
 ) {
+    // Add the rerandomised sum to the transcript
+    {
+        let mut bytes = Vec::new();
+        if let Err(e) = sum_of_rerandomized.serialize_compressed(&mut bytes) {
+            panic!("{}", e)
+        }
+        cs.transcript()
+            .append_message(b"sum_of_rerandomized", &bytes);
+    }
+
     // Initialize the accumulated sum of the selected children to dummy values.
     let mut sum_of_selected = PointRepresentation {
         x: Variable::One(PhantomData).into(),
-- 
2.43.0


From a97542ae23d98dc4b05887c7a0288bef9f1fe8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:30 +0000
Subject: [PATCH 10/14] fix: range proofs over more than 64 bits

---
 relations/src/range_proof.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/relations/src/range_proof.rs b/relations/src/range_proof.rs
index 625b14d..0515ec7 100644
--- a/relations/src/range_proof.rs
+++ b/relations/src/range_proof.rs
@@ -12,7 +12,8 @@ pub fn range_proof<F: Field, CS: ConstraintSystem<F>>(
     for i in 0..n {
         // Create low-level variables and add them to constraints
         let (a, b, o) = cs.allocate_multiplier(v_assignment.map(|q| {
-            let bit: u64 = (q >> i) & 1;
+            // bits beyond those of the assignment are zero
+            let bit: u64 = q.checked_shr(i as u32).unwrap_or(0) & 1;
             ((1 - bit).into(), bit.into())
         }))?;
 
-- 
2.43.0


From 4f4f85ea430860caa21cd920dee85805476a763d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:51 +0000
Subject: [PATCH 11/14] fix: enforce that a membership path reaches the leaves
 of the tree

---
 relations/src/batched_curve_tree_verifier.rs | 10 +++++-----
 relations/src/curve_tree_verifier.rs         | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/relations/src/batched_curve_tree_verifier.rs b/relations/src/batched_curve_tree_verifier.rs
index 4f5041b..aac2e07 100644
--- a/relations/src/batched_curve_tree_verifier.rs
+++ b/relations/src/batched_curve_tree_verifier.rs
@@ -54,6 +54,11 @@ impl<
                 randomized_path.even_commitments = even_commitments_with_root;
             }
         };
+        // The even and odd commitments do not include the selected leaves, their sum should equal the height of the tree.
+        assert_eq!(
+            self.height(),
+            randomized_path.even_commitments.len() + randomized_path.odd_commitments.len()
+        );
     }
 }
 
@@ -74,11 +79,6 @@ impl<
         parameters: &SelRerandParameters<P0, P1>,
     ) -> [Affine<P0>; M] {
         self.batched_select_and_rerandomize_verification_commitments(&mut randomized_path);
-        // The even and odd commitments do not include the selected leaves, their sum should equal the height of the tree.
-        debug_assert_eq!(
-            self.height(),
-            randomized_path.even_commitments.len() + randomized_path.odd_commitments.len()
-        );
 
         randomized_path.even_verifier_gadget(even_verifier, parameters, self);
         randomized_path.odd_verifier_gadget(odd_verifier, parameters, self);
diff --git a/relations/src/curve_tree_verifier.rs b/relations/src/curve_tree_verifier.rs
index 1402234..471526f 100644
--- a/relations/src/curve_tree_verifier.rs
+++ b/relations/src/curve_tree_verifier.rs
@@ -44,6 +44,11 @@ impl<
                 randomized_path.even_commitments = even_commitments_with_root;
             }
         };
+        // The even and odd commitments do not include the selected leaf, their sum should equal the height of the tree.
+        assert_eq!(
+            self.height(),
+            randomized_path.even_commitments.len() + randomized_path.odd_commitments.len()
+        );
     }
 }
 
@@ -64,11 +69,6 @@ impl<
         parameters: &SelRerandParameters<P0, P1>,
     ) -> Affine<P0> {
         self.select_and_rerandomize_verification_commitments(&mut randomized_path);
-        // The even and odd commitments do not include the selected leaf, their sum should equal the height of the tree.
-        debug_assert_eq!(
-            self.height(),
-            randomized_path.even_commitments.len() + randomized_path.odd_commitments.len()
-        );
 
         randomized_path.even_verifier_gadget(even_verifier, parameters, self);
         randomized_path.odd_verifier_gadget(odd_verifier, parameters, self);
-- 
2.43.0


From 360881e19dca147707f1c5b292b4dd2c39d8e47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:34 +0000
Subject: [PATCH 12/14] fix: keep the committed vectors at degrees that do not
 meet in the checked coefficient

---
 bulletproofs/src/r1cs/mod.rs      | 26 +++++----
 bulletproofs/src/r1cs/prover.rs   | 88 +++++++------------------------
 bulletproofs/src/r1cs/verifier.rs |  5 +-
 bulletproofs/src/util.rs          | 12 ++++-
 4 files changed, 48 insertions(+), 83 deletions(-)

diff --git a/bulletproofs/src/r1cs/mod.rs b/bulletproofs/src/r1cs/mod.rs
index b7cfee7..3ec4e8a 100644
--- a/bulletproofs/src/r1cs/mod.rs
+++ b/bulletproofs/src/r1cs/mod.rs
@@ -19,23 +19,31 @@ pub use crate::errors::R1CSError;
 #[cfg(curve_trees_sim)]
 pub use self::{prover::sim::SimWitness, verifier::sim::SimCircuit};
 
+/// The degree of the coefficient of t that the verifier checks, for a given number of vector commitments.
+///
+/// `2 + 2 * #comm` leaves room for every committed vector (and a_O) to sit at a degree of its own
+/// in l such that no two of them add up to the checked degree.
+/// A dishonest prover may commit to components along the generators of r as well.
+/// These land in r at the degree of the commitment in l, and must not meet any other committed
+/// vector in the checked coefficient.
+fn op_degree(ncomm: usize) -> usize {
+    2 + 2 * ncomm
+}
+
+/// Degrees in (l, r) of the products summed up in the checked coefficient:
+/// first that of a_L and a_R, then that of a_O, then those of the vector commitments.
 fn op_splits(op_deg: usize) -> Vec<(usize, usize)> {
     debug_assert_eq!(op_deg % 2, 0);
     let mid = op_deg / 2;
 
     // the first two are special
-    let mut op_splits = Vec::with_capacity(op_deg);
+    let mut op_splits = Vec::with_capacity(mid + 1);
     op_splits.push((mid, mid));
     op_splits.push((op_deg, 0));
 
-    // all other deg splits
-    for r_deg in 1..op_deg + 1 {
-        if r_deg == mid {
-            // already taken
-            continue;
-        }
-        let l_deg = op_deg - r_deg;
-        op_splits.push((l_deg, r_deg));
+    // vector commitments use the remaining degrees of l above mid
+    for r_deg in 1..mid {
+        op_splits.push((op_deg - r_deg, r_deg));
     }
 
     op_splits
diff --git a/bulletproofs/src/r1cs/prover.rs b/bulletproofs/src/r1cs/prover.rs
index 3bec013..d97f52d 100644
--- a/bulletproofs/src/r1cs/prover.rs
+++ b/bulletproofs/src/r1cs/prover.rs
@@ -19,7 +19,7 @@ use crate::inner_product_proof::InnerProductProof;
 use crate::r1cs::Metrics;
 use crate::transcript::TranscriptProtocol;
 
-use super::op_splits;
+use super::{op_degree, op_splits};
 
 /// A [`ConstraintSystem`] implementation for use by the prover.
 ///
@@ -514,8 +514,7 @@ impl<'g, T: BorrowMut<Transcript>, C: AffineRepr> Prover<'g, T, C> {
         // number of commitments
         let ncomm = self.secrets.vec_open.len();
 
-        // op_degree = 2 + 2 * floor(#comm / 2)
-        let op_degree = 2 + 2 * (ncomm / 2);
+        let op_degree = op_degree(ncomm);
 
         let ops = op_splits(op_degree);
         let veccom_ops = &ops[2..];
@@ -856,21 +855,18 @@ impl<'g, T: BorrowMut<Transcript>, C: AffineRepr> Prover<'g, T, C> {
 
         let mid_degree = op_degree / 2;
 
-        // 1 comm => op_degree = 2
-        // 2 comm => op_degree = 4
-        // 3 comm => op_degree = 4
-        // 4 comm => op_degree = 6
-        // 5 comm => op_degree = 6
+        // 0 comm => op_degree = 2
+        // 1 comm => op_degree = 4
+        // 2 comm => op_degree = 6
         // etc.
-        // op_degree = 2 + 2 * floor(#comm / 2)
+        // op_degree = 2 + 2 * #comm
 
         for (i, (sl, sr)) in sLsR.enumerate() {
             debug_assert!(i < self.secrets.a_L.len());
 
-            // The first (original) op_degree is 2, which permits a single vector commitment:
+            // Without vector commitments the (original) op_degree is 2:
             //
             // Left:
-            // 0 : com1
             // 1 : aL + wR
             // 2 : aO
             // 3 : sL
@@ -878,77 +874,29 @@ impl<'g, T: BorrowMut<Transcript>, C: AffineRepr> Prover<'g, T, C> {
             // Right:
             // 0 : Wo
             // 1 : aR + wL
-            // 2 : Wc1
             // 3 : sR
             //
             // Since a_L and a_R must be at the same power, only even op_degrees are possible :(
-            // Hence the next valid op_degree is 4, which permits up to 3 vector commitments:
             //
-            // Left:
-            // 0 : com1
-            // 1 : com2
-            // 2 : aL
-            // 3 : aO
-            // 4 : com3
-            // 5 : sL
-            //
-            // Right:
-            // 0 : Wc3
-            // 1 : Wo
-            // 2 : aR
-            // 3 : Wc2
-            // 4 : Wc1
-            // 5 : sR
-            //
-            // The next valid op_degree is 6, this permits up to 5 vector commitments:
+            // The commitments of a dishonest prover may have components along the generators of the right
+            // vector as well, which end up on the right at the power that the commitment has on the left.
+            // Hence no two committed vectors (possibly the same one twice) may have powers that sum to
+            // op_degree: each takes a power above the middle.
+            // The op_degree for 2 vector commitments is therefore 6:
             //
             // Left:
-            // 0 : com1
-            // 1 : com2
-            // 2 : com3
             // 3 : aL
-            // 4 : aO
-            // 5 : com4
-            // 6 : com5
+            // 4 : com2
+            // 5 : com1
+            // 6 : aO
             // 7 : sL
             //
             // Right:
-            // 0 : Wc5
-            // 1 : Wc4
-            // 2 : Wo
+            // 0 : Wo
+            // 1 : Wc1
+            // 2 : Wc2
             // 3 : aR
-            // 4 : Wc3
-            // 5 : Wc2
-            // 6 : Wc1
             // 7 : sR
-            //
-            // Note that the x^0, x^1 term is zero.
-            // For every additional commitment r_poly degree increases by 2,
-            // but the number of zero terms increase by 1
-            //
-            // The op_degree is 6, the total degree is 11.
-            //
-            // Left:
-            // 1 : com1
-            // 2 : com2
-            // 3 : com3
-            // 4 : aL
-            // 5 : aO
-            // 6 : -
-            // 7 : -
-            // 8 : -
-            // 9 : sL
-            //
-            // Right:
-            // 3 : Wo
-            // 4 : aR
-            // 5 : Wc3
-            // 6 : Wc2
-            // 7 : Wc1
-            // 8 : -
-            // 9 : sR
-            //
-            // op_degree is 8
 
             // l_poly.0 = 0
 
diff --git a/bulletproofs/src/r1cs/verifier.rs b/bulletproofs/src/r1cs/verifier.rs
index f36c1c9..3cd9cee 100644
--- a/bulletproofs/src/r1cs/verifier.rs
+++ b/bulletproofs/src/r1cs/verifier.rs
@@ -18,7 +18,7 @@ use crate::generators::{BulletproofGens, PedersenGens};
 use crate::r1cs::Metrics;
 use crate::transcript::TranscriptProtocol;
 
-use super::op_splits;
+use super::{op_degree, op_splits};
 
 /// A [`ConstraintSystem`] implementation for use by the verifier.
 ///
@@ -486,8 +486,7 @@ impl<T: BorrowMut<Transcript>, C: AffineRepr> Verifier<T, C> {
         // number of commitments
         let ncomm = self.vec_comms.len();
 
-        // op_degree = 2 + 2 * floor(#comm / 2)
-        let op_degree = 2 + 2 * (ncomm / 2);
+        let op_degree = op_degree(ncomm);
         let t_poly_deg = 2 * (op_degree + 1);
         let ops = op_splits(op_degree);
 
diff --git a/bulletproofs/src/util.rs b/bulletproofs/src/util.rs
index f3f1c91..3149cbb 100644
--- a/bulletproofs/src/util.rs
+++ b/bulletproofs/src/util.rs
@@ -20,11 +20,21 @@ pub struct VecPoly1<F: Field>(pub Vec<F>, pub Vec<F>);
 #[derive(ZeroizeOnDrop)]
 pub struct VecPoly3<F: Field>(pub Vec<F>, pub Vec<F>, pub Vec<F>, pub Vec<F>);
 
-pub const T_LABELS: [&[u8]; 41] = [
+pub const T_LABELS: [&[u8]; 131] = [
     b"T_0", b"T_1", b"T_2", b"T_3", b"T_4", b"T_5", b"T_6", b"T_7", b"T_8", b"T_9", b"T_10",
     b"T_11", b"T_12", b"T_13", b"T_14", b"T_15", b"T_16", b"T_17", b"T_18", b"T_19", b"T_20",
     b"T_21", b"T_22", b"T_23", b"T_24", b"T_25", b"T_26", b"T_27", b"T_28", b"T_29", b"T_30",
     b"T_31", b"T_32", b"T_33", b"T_34", b"T_35", b"T_36", b"T_37", b"T_38", b"T_39", b"T_40",
+    b"T_41", b"T_42", b"T_43", b"T_44", b"T_45", b"T_46", b"T_47", b"T_48", b"T_49", b"T_50",
+    b"T_51", b"T_52", b"T_53", b"T_54", b"T_55", b"T_56", b"T_57", b"T_58", b"T_59", b"T_60",
+    b"T_61", b"T_62", b"T_63", b"T_64", b"T_65", b"T_66", b"T_67", b"T_68", b"T_69", b"T_70",
+    b"T_71", b"T_72", b"T_73", b"T_74", b"T_75", b"T_76", b"T_77", b"T_78", b"T_79", b"T_80",
+    b"T_81", b"T_82", b"T_83", b"T_84", b"T_85", b"T_86", b"T_87", b"T_88", b"T_89", b"T_90",
+    b"T_91", b"T_92", b"T_93", b"T_94", b"T_95", b"T_96", b"T_97", b"T_98", b"T_99", b"T_100",
+    b"T_101", b"T_102", b"T_103", b"T_104", b"T_105", b"T_106", b"T_107", b"T_108", b"T_109",
+    b"T_110", b"T_111", b"T_112", b"T_113", b"T_114", b"T_115", b"T_116", b"T_117", b"T_118",
+    b"T_119", b"T_120", b"T_121", b"T_122", b"T_123", b"T_124", b"T_125", b"T_126", b"T_127",
+    b"T_128", b"T_129", b"T_130",
 ];
 
 /// The general case for Vector CP.
-- 
2.43.0


From 3e6a195773290d386656389165726876162df40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:36 +0000
Subject: [PATCH 13/14] fix: batch verification of proofs of different sizes
 and of no proofs

---
 bulletproofs/src/r1cs/verifier.rs | 55 ++++++++++++++++---------------
 1 file changed, 28 insertions(+), 27 deletions(-)

diff --git a/bulletproofs/src/r1cs/verifier.rs b/bulletproofs/src/r1cs/verifier.rs
index 3cd9cee..edac589 100644
--- a/bulletproofs/src/r1cs/verifier.rs
+++ b/bulletproofs/src/r1cs/verifier.rs
@@ -735,37 +735,38 @@ pub fn batch_verify<C: AffineRepr>(
     bp_gens: &BulletproofGens<C>,
 ) -> Result<(), R1CSError> {
     let mut rng = rand::thread_rng();
-    let mut ver_iter = verification_tuples.into_iter();
-    let vt = ver_iter.next().unwrap();
-    let (mut proof_points, mut proof_point_scalars, mut linear_combination) = (
-        vt.proof_dependent_points,
-        vt.proof_dependent_scalars,
-        vt.proof_independent_scalars,
-    );
-    let padded_n = (linear_combination.len() - 2) / 2;
 
-    for mut vt in ver_iter {
-        proof_points.append(&mut vt.proof_dependent_points);
+    // The proofs may be of different sizes
+    let size_of = |vt: &VerificationTuple<C>| (vt.proof_independent_scalars.len() - 2) / 2;
+    let padded_n = match verification_tuples.iter().map(size_of).max() {
+        Some(n) => n,
+        None => return Ok(()), // nothing to verify
+    };
 
-        // Sample random scalar
-        let random_scalar = C::ScalarField::rand(&mut rng);
+    let mut proof_points = Vec::new();
+    let mut proof_point_scalars = Vec::new();
+    // scalars of B, B_blinding, followed by those of the G and of the H generators
+    let mut linear_combination = vec![C::ScalarField::zero(); 2 + 2 * padded_n];
 
-        // Multiply all scalars
-        let ps = vt
-            .proof_dependent_scalars
-            .into_iter()
-            .map(|s| s * random_scalar);
-        let fps = vt
-            .proof_independent_scalars
-            .into_iter()
-            .map(|s| s * random_scalar);
+    for (i, mut vt) in verification_tuples.into_iter().enumerate() {
+        let n = size_of(&vt);
+        proof_points.append(&mut vt.proof_dependent_points);
 
-        proof_point_scalars.append(&mut ps.collect());
-        linear_combination = linear_combination
-            .iter()
-            .zip(fps)
-            .map(|(a, b)| *a + b)
-            .collect()
+        // Multiply all scalars of all but the first by a random scalar
+        let random_scalar = if i == 0 {
+            C::ScalarField::one()
+        } else {
+            C::ScalarField::rand(&mut rng)
+        };
+        proof_point_scalars.extend(
+            vt.proof_dependent_scalars
+                .into_iter()
+                .map(|s| s * random_scalar),
+        );
+        for (k, s) in vt.proof_independent_scalars.into_iter().enumerate() {
+            let position = if k < 2 + n { k } else { k - n + padded_n };
+            linear_combination[position] += s * random_scalar;
+        }
     }
 
     // We are performing a single-party circuit proof, so party index is 0.
-- 
2.43.0


From 57198269a0e1c5e53cad45c02e25c03e26d41f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:22 +0000
Subject: [PATCH 14/14] fix: reject bytes that follow an encoded proof

---
 bulletproofs/src/r1cs/proof.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bulletproofs/src/r1cs/proof.rs b/bulletproofs/src/r1cs/proof.rs
index 8ae439c..2d91eda 100644
--- a/bulletproofs/src/r1cs/proof.rs
+++ b/bulletproofs/src/r1cs/proof.rs
@@ -68,8 +68,13 @@ impl<C: AffineRepr> R1CSProof<C> {
         buf
     }
 
-    pub fn from_bytes(slice: &[u8]) -> Result<R1CSProof<C>, R1CSError> {
-        Self::deserialize_compressed(slice).map_err(|_| R1CSError::FormatError)
+    pub fn from_bytes(mut slice: &[u8]) -> Result<R1CSProof<C>, R1CSError> {
+        let proof = Self::deserialize_compressed(&mut slice).map_err(|_| R1CSError::FormatError)?;
+        // a proof has a single encoding: nothing may follow it
+        if !slice.is_empty() {
+            return Err(R1CSError::FormatError);
+        }
+        Ok(proof)
     }
 }
 
-- 
2.43.0

