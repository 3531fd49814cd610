From d47fd479053f47584a5f956338e6af6a3936c10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:04 +0000
Subject: [PATCH 1/4] Add simulation hooks behind cfg(orchard_sim)

A deterministic simulator needs to run the proving step against a stub
and to check honest statements without producing a full proof. The hooks
expose the circuits of an unproven bundle, let a stub complete the
proving step, and expose the public inputs of an Instance. They are
compiled only with --cfg orchard_sim.
---
 src/builder.rs | 17 +++++++++++++++++
 src/circuit.rs | 15 +++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/src/builder.rs b/src/builder.rs
index 37bdc38..f1c2d37 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -741,6 +741,23 @@ impl<S: InProgressSignatures, V> Bundle<InProgress<Unproven, S>, V> {
     }
 }
 
+/// Simulation hooks. Compiled only with `--cfg orchard_sim`, never in shipped builds.
+#[cfg(orchard_sim)]
+impl<S: InProgressSignatures> InProgress<Unproven, S> {
+    /// The circuits (statements with their witnesses) awaiting a proof.
+    pub fn sim_circuits(&self) -> &[Circuit] {
+        &self.proof.circuits
+    }
+
+    /// Completes the proving step with the given bytes (a stubbed prover).
+    pub fn sim_with_proof(self, proof: Proof) -> InProgress<Proof, S> {
+        InProgress {
+            proof,
+            sigs: self.sigs,
+        }
+    }
+}
+
 /// The parts needed to sign an [`Action`].
 #[derive(Clone, Debug)]
 pub struct SigningParts {
diff --git a/src/circuit.rs b/src/circuit.rs
index 567b606..f7c51bc 100644
--- a/src/circuit.rs
+++ b/src/circuit.rs
@@ -856,6 +856,21 @@ impl Instance {
     }
 }
 
+/// Simulation hooks. Compiled only with `--cfg orchard_sim`, never in shipped builds.
+#[cfg(orchard_sim)]
+impl Instance {
+    /// The size parameter of the Orchard circuit.
+    pub const SIM_K: u32 = K;
+
+    /// The instance columns handed to the proof system for these public inputs.
+    pub fn sim_public_inputs(&self) -> Vec<Vec<vesta::Scalar>> {
+        self.to_halo2_instance()
+            .iter()
+            .map(|column| column.to_vec())
+            .collect()
+    }
+}
+
 /// A proof of the validity of an Orchard [`Bundle`].
 ///
 /// [`Bundle`]: crate::bundle::Bundle
-- 
2.43.0


From cdc30e3e96400ef9511e5760b314530224ec6e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:49 +0000
Subject: [PATCH 2/4] fix: Make value balance overflow checks independent of
 summation order

Partial sums were range-checked at every step, so whether a set of spends
and outputs was accepted depended on how it was shuffled into actions, and
Builder::value_balance could report an overflow for a bundle that builds.
---
 src/builder.rs |  9 +++------
 src/value.rs   | 11 ++++++++---
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index f1c2d37..a1d1eaf 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -531,8 +531,7 @@ impl Builder {
                     .iter()
                     .map(|output| NoteValue::zero() - output.value),
             )
-            .fold(Some(ValueSum::zero()), |acc, note_value| acc? + note_value)
-            .ok_or(OverflowError)?;
+            .sum::<Result<ValueSum, OverflowError>>()?;
         i64::try_from(value_balance).and_then(|i| V::try_from(i).map_err(|_| value::OverflowError))
     }
 
@@ -635,10 +634,8 @@ pub fn bundle<V: TryFrom<i64>>(
     // Determine the value balance for this bundle, ensuring it is valid.
     let value_balance = pre_actions
         .iter()
-        .fold(Some(ValueSum::zero()), |acc, action| {
-            acc? + action.value_sum()
-        })
-        .ok_or(OverflowError)?;
+        .map(|action| action.value_sum())
+        .sum::<Result<ValueSum, OverflowError>>()?;
 
     let result_value_balance: V = i64::try_from(value_balance)
         .map_err(BuildError::ValueSum)
diff --git a/src/value.rs b/src/value.rs
index 9ac440e..9361fed 100644
--- a/src/value.rs
+++ b/src/value.rs
@@ -192,13 +192,18 @@ impl Add for ValueSum {
 
 impl<'a> Sum<&'a ValueSum> for Result<ValueSum, OverflowError> {
     fn sum<I: Iterator<Item = &'a ValueSum>>(iter: I) -> Self {
-        iter.fold(Ok(ValueSum(0)), |acc, v| (acc? + *v).ok_or(OverflowError))
+        iter.copied().sum()
     }
 }
 
 impl Sum<ValueSum> for Result<ValueSum, OverflowError> {
-    fn sum<I: Iterator<Item = ValueSum>>(iter: I) -> Self {
-        iter.fold(Ok(ValueSum(0)), |acc, v| (acc? + v).ok_or(OverflowError))
+    fn sum<I: Iterator<Item = ValueSum>>(mut iter: I) -> Self {
+        // Only the final result has to be in range: whether a sum of values is
+        // representable must not depend on the order in which they are added.
+        iter.try_fold(0i128, |acc, v| acc.checked_add(v.0))
+            .filter(|v| VALUE_SUM_RANGE.contains(v))
+            .map(ValueSum)
+            .ok_or(OverflowError)
     }
 }
 
-- 
2.43.0


From d6aba2cac2b946498e621a676bbb9ce0ada11b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:01 +0000
Subject: [PATCH 3/4] fix: Do not panic on an identity rk when verifying proofs

An action's rk is read from the wire with VerificationKey::try_from, which
accepts the encoding of the identity, but extracting the public inputs
unwrapped the affine coordinates of rk, so that verifying the proof of such
a bundle panicked. Represent the identity as (0, 0), as the circuit does,
and as is done for cv_net.
---
 src/circuit.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/circuit.rs b/src/circuit.rs
index f7c51bc..59d4ebe 100644
--- a/src/circuit.rs
+++ b/src/circuit.rs
@@ -840,14 +840,15 @@ impl Instance {
         instance[CV_NET_Y] = self.cv_net.y();
         instance[NF_OLD] = self.nf_old.0;
 
+        // `rk` comes from the wire, and may encode the identity; the circuit represents
+        // the identity as (0, 0), as is done for `cv_net`.
         let rk = pallas::Point::from_bytes(&self.rk.clone().into())
             .unwrap()
             .to_affine()
-            .coordinates()
-            .unwrap();
+            .coordinates();
 
-        instance[RK_X] = *rk.x();
-        instance[RK_Y] = *rk.y();
+        instance[RK_X] = rk.map(|c| *c.x()).unwrap_or_else(vesta::Scalar::zero);
+        instance[RK_Y] = rk.map(|c| *c.y()).unwrap_or_else(vesta::Scalar::zero);
         instance[CMX] = self.cmx.inner();
         instance[ENABLE_SPEND] = vesta::Scalar::from(u64::from(self.enable_spend));
         instance[ENABLE_OUTPUT] = vesta::Scalar::from(u64::from(self.enable_output));
-- 
2.43.0


From ce752b52f9276fe2d97fea6b9ef875afbb9fb8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:56 +0000
Subject: [PATCH 4/4] Let a simulated prover lie, behind cfg(orchard_sim)

A deterministic simulator needs provers that claim something false. The
hook replaces a private input of a circuit by that of another. It is
compiled only with --cfg orchard_sim.
---
 src/circuit.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/circuit.rs b/src/circuit.rs
index 59d4ebe..388c698 100644
--- a/src/circuit.rs
+++ b/src/circuit.rs
@@ -186,6 +186,28 @@ impl Circuit {
     }
 }
 
+/// Simulation hooks. Compiled only with `--cfg orchard_sim`, never in shipped builds.
+#[cfg(orchard_sim)]
+impl Circuit {
+    /// Replaces the named private input by that of another circuit: a prover that lies
+    /// about it. Returns `false` if there is no such private input.
+    pub fn sim_splice(&mut self, input: &str, from: &Circuit) -> bool {
+        macro_rules! splice {
+            ($($name:ident),*) => {
+                match input {
+                    $(stringify!($name) => self.$name = from.$name.clone(),)*
+                    _ => return false,
+                }
+            };
+        }
+        splice!(
+            path, pos, g_d_old, pk_d_old, v_old, rho_old, psi_old, rcm_old, cm_old, alpha, ak, nk,
+            rivk, g_d_new, pk_d_new, v_new, psi_new, rcm_new, rcv
+        );
+        true
+    }
+}
+
 impl plonk::Circuit<pallas::Base> for Circuit {
     type Config = Config;
     type FloorPlanner = floor_planner::V1;
-- 
2.43.0

