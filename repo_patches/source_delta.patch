From 0c0ff126e2efdb1abc8a1d4df6950f52eb4ecd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:37 +0000
Subject: [PATCH 01/12] fix: multiopen verifier must require one q evaluation
 per opening set

A proof with fewer q evaluations silently dropped whole opening sets (the
zip stops at the shorter side), so their commitments were never checked.
---
 src/multiproof/piop/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/multiproof/piop/mod.rs b/src/multiproof/piop/mod.rs
index 0034221..844ba66 100644
--- a/src/multiproof/piop/mod.rs
+++ b/src/multiproof/piop/mod.rs
@@ -165,6 +165,11 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>, FS: FiatShamirRng>
             oracles.push(oracle)
         }
 
+        // Each opening set needs exactly one q evaluation
+        if proof.q_evals.len() != opening_sets.len() {
+            return Err(Error::OpeningCheckFailed);
+        }
+
         // Max number of oracles in one opening set are all oracles
         let x1_powers: Vec<F> = successors(Some(F::one()), |x1_i| {
             Some(*x1_i * verifier_first_msg.x1)
-- 
2.43.0


From 0b694ce93cc60b70586c8bf710193970534dfe29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:17 +0000
Subject: [PATCH 02/12] fix: bind transcript to public inputs and claimed
 evaluations

Multiopen challenges were squeezed without absorbing any claimed evaluation,
so evaluations could be chosen after x1..x4 were known, and no challenge
depended on the public inputs.
---
 src/turbo_plonk.rs | 49 +++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 44 insertions(+), 5 deletions(-)

diff --git a/src/turbo_plonk.rs b/src/turbo_plonk.rs
index 63470fc..a64ce99 100644
--- a/src/turbo_plonk.rs
+++ b/src/turbo_plonk.rs
@@ -210,7 +210,12 @@ where
         zk_rng: &mut R,
     ) -> Result<TPProof<F, PC>, Error<PC::Error>> {
         let mut fs_rng =
-            FS::initialize(&to_bytes![&Self::PROTOCOL_NAME].unwrap()); // TODO: add &pk.vk, &public oracles to transcript
+            FS::initialize(&to_bytes![&Self::PROTOCOL_NAME].unwrap()); // TODO: add &pk.vk to transcript
+
+        // bind challenges to public inputs
+        for oracle in instance_oracles.iter() {
+            fs_rng.absorb(&to_bytes![oracle.poly.coeffs].unwrap());
+        }
 
         // compute extended evals of each oracle
         for oracle in witness_oracles.iter_mut() {
@@ -411,8 +416,6 @@ where
         let domain = GeneralEvaluationDomain::new(domain_size).unwrap();
         let omegas: Vec<F> = domain.elements().collect();
 
-        // TODO!!!! PUT ALL EVALS IN TRANSCRIPT
-
         // Compute witness evals
         let witness_query_set = PIOPforPolyIdentity::<F, PC>::get_query_set(
             witness_oracles,
@@ -424,7 +427,6 @@ where
         let witness_evals: Vec<F> =
             evaluate_query_set(witness_oracles, &witness_query_set)?;
 
-        // fs_rng.absorb(&to_bytes![witness_evals].unwrap());
         // Compute fixed evals
 
         let fixed_query_set = PIOPforPolyIdentity::<F, PC>::get_query_set(
@@ -505,6 +507,22 @@ where
             .polynomial()
             .evaluate(&verifier_second_msg.xi);
 
+        // Claimed evaluations have to be fixed before multiopen challenges are squeezed
+        fs_rng.absorb(
+            &to_bytes![
+                witness_evals,
+                fixed_oracle_evals,
+                table_oracle_evals,
+                permutation_oracle_evals,
+                q_blind_eval,
+                lookup_evals,
+                lookup_z_evals,
+                z_evals,
+                quotient_chunks_evals
+            ]
+            .unwrap(),
+        );
+
         // Multiopen
         let mut oracles: Vec<&dyn Instantiable<F>> = witness_oracles
             .iter()
@@ -688,7 +706,12 @@ where
         let verifier_init_state = PIOPforPolyIdentity::<F, PC>::init_verifier();
 
         let mut fs_rng =
-            FS::initialize(&to_bytes![&Self::PROTOCOL_NAME].unwrap()); // TODO: add &pk.vk, &public oracles to transcript, fixed evals
+            FS::initialize(&to_bytes![&Self::PROTOCOL_NAME].unwrap()); // TODO: add &pk.vk to transcript
+
+        // bind challenges to public inputs
+        for oracle in instance_oracles.iter() {
+            fs_rng.absorb(&to_bytes![oracle.poly.coeffs].unwrap());
+        }
 
         let witness_oracles_mapping: BTreeMap<String, usize> = witness_oracles
             .iter()
@@ -1267,6 +1290,22 @@ where
 
         oracles.extend_from_slice(preprocessed_oracles.as_slice());
 
+        // Claimed evaluations have to be fixed before multiopen challenges are squeezed
+        fs_rng.absorb(
+            &to_bytes![
+                proof.witness_evals,
+                proof.fixed_oracle_evals,
+                proof.table_oracle_evals,
+                proof.permutation_oracle_evals,
+                proof.q_blind_eval,
+                proof.lookup_evals,
+                proof.lookup_z_evals,
+                proof.z_evals,
+                proof.quotient_chunks_evals
+            ]
+            .unwrap(),
+        );
+
         Multiopen::<F, PC, FS>::verify(
             &vk.verifier_key,
             proof.multiopen_proof,
-- 
2.43.0


From b568e7ccfd7a381dc13a77f9129e3be9705afaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:20 +0000
Subject: [PATCH 03/12] fix: fourth wire of PlonkArith4 is its own oracle

d aliased the third witness and was missing from the returned queries, so the
rotation was never registered and q_4 multiplied c instead of d.
---
 src/vo/precompiled/plonk_arith.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/vo/precompiled/plonk_arith.rs b/src/vo/precompiled/plonk_arith.rs
index a30ed27..c4991b1 100644
--- a/src/vo/precompiled/plonk_arith.rs
+++ b/src/vo/precompiled/plonk_arith.rs
@@ -68,7 +68,7 @@ impl<F: PrimeField> PrecompiledVO<F> for PlonkArith4 {
         let a = VirtualQuery::new(0, Rotation::curr(), OracleType::Witness);
         let b = VirtualQuery::new(1, Rotation::curr(), OracleType::Witness);
         let c = VirtualQuery::new(2, Rotation::curr(), OracleType::Witness);
-        let d = VirtualQuery::new(2, Rotation::curr(), OracleType::Witness);
+        let d = VirtualQuery::new(3, Rotation::curr(), OracleType::Witness);
 
         let plonk_expression = {
             let qm: VirtualExpression<F> = qm.clone().into();
@@ -83,7 +83,7 @@ impl<F: PrimeField> PrecompiledVO<F> for PlonkArith4 {
             let a: VirtualExpression<F> = a.clone().into();
             let b: VirtualExpression<F> = b.clone().into();
             let c: VirtualExpression<F> = c.clone().into();
-            let d: VirtualExpression<F> = d.into();
+            let d: VirtualExpression<F> = d.clone().into();
 
             a.clone() * b.clone() * qm
                 + a * ql
@@ -94,7 +94,10 @@ impl<F: PrimeField> PrecompiledVO<F> for PlonkArith4 {
                 + qc
         };
 
-        (plonk_expression, vec![qm, ql, qr, q4, qo, qc, pi, a, b, c])
+        (
+            plonk_expression,
+            vec![qm, ql, qr, q4, qo, qc, pi, a, b, c, d],
+        )
     }
 }
 
-- 
2.43.0


From 797f0c70efb73e49d2878ebd212d9fc30c0ba523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:23 +0000
Subject: [PATCH 04/12] fix: lookup verifier must honour rotations of instance
 and fixed queries

The prover evaluates them at the rotated row, the verifier always used the
unrotated challenge, so honest proofs with rotated lookups were rejected.
---
 src/lookup/mod.rs | 58 +++++++++++++++++++++++------------------------
 1 file changed, 29 insertions(+), 29 deletions(-)

diff --git a/src/lookup/mod.rs b/src/lookup/mod.rs
index 480075f..143d600 100644
--- a/src/lookup/mod.rs
+++ b/src/lookup/mod.rs
@@ -434,37 +434,37 @@ impl<F: PrimeField> LookupArgument<F> {
         let expression_evals = lookup_expressions.iter().map(|lookup_expr| {
             lookup_expr.evaluate(
                 &Self::ident,
-                &|query| match query.oracle_type {
-                    OracleType::Witness => {
-                        let evaluation_challenge =
-                            query.rotation.compute_evaluation_point(
-                                evaluation_challenge,
-                                omegas,
-                            );
-                        match witness_oracles_mapping.get(&query.label) {
-                            Some(index) => witness_oracles[*index]
-                                .query(&evaluation_challenge),
-                            None => Err(PiopError::MissingWitnessOracle(
-                                query.label.clone(),
-                            )),
+                &|query| {
+                    let evaluation_challenge = query
+                        .rotation
+                        .compute_evaluation_point(evaluation_challenge, omegas);
+                    match query.oracle_type {
+                        OracleType::Witness => {
+                            match witness_oracles_mapping.get(&query.label) {
+                                Some(index) => witness_oracles[*index]
+                                    .query(&evaluation_challenge),
+                                None => Err(PiopError::MissingWitnessOracle(
+                                    query.label.clone(),
+                                )),
+                            }
                         }
-                    }
-                    OracleType::Instance => {
-                        match instance_oracles_mapping.get(&query.label) {
-                            Some(index) => instance_oracles[*index]
-                                .query(&evaluation_challenge),
-                            None => Err(PiopError::MissingInstanceOracle(
-                                query.label.clone(),
-                            )),
+                        OracleType::Instance => {
+                            match instance_oracles_mapping.get(&query.label) {
+                                Some(index) => instance_oracles[*index]
+                                    .query(&evaluation_challenge),
+                                None => Err(PiopError::MissingInstanceOracle(
+                                    query.label.clone(),
+                                )),
+                            }
                         }
-                    }
-                    OracleType::Fixed => {
-                        match fixed_oracles_mapping.get(&query.label) {
-                            Some(index) => fixed_oracles[*index]
-                                .query(&evaluation_challenge),
-                            None => Err(PiopError::MissingFixedOracle(
-                                query.label.clone(),
-                            )),
+                        OracleType::Fixed => {
+                            match fixed_oracles_mapping.get(&query.label) {
+                                Some(index) => fixed_oracles[*index]
+                                    .query(&evaluation_challenge),
+                                None => Err(PiopError::MissingFixedOracle(
+                                    query.label.clone(),
+                                )),
+                            }
                         }
                     }
                 },
-- 
2.43.0


From ef8625af8eb5c7d2df5879ae23363c136368e88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:46 +0000
Subject: [PATCH 05/12] fix: table queries of a lookup are evaluated at their
 rotation

The rotation was registered but then ignored on both sides, so the verifier
asked for an evaluation that had never been claimed.
---
 src/lookup/mod.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/lookup/mod.rs b/src/lookup/mod.rs
index 143d600..b4ed08c 100644
--- a/src/lookup/mod.rs
+++ b/src/lookup/mod.rs
@@ -273,9 +273,11 @@ impl<F: PrimeField> LookupArgument<F> {
                         OracleType::Fixed => {
                             match table_oracles_mapping.get(&table_query.label)
                             {
-                                Some(index) => {
-                                    Ok(table_oracles[*index].evals[i])
-                                }
+                                Some(index) => Ok(table_oracles[*index]
+                                    .query_at_omega_in_original_domain(
+                                        i,
+                                        table_query.rotation,
+                                    )),
                                 None => Err(PiopError::MissingFixedOracle(
                                     table_query.label.clone(),
                                 )),
@@ -313,7 +315,7 @@ impl<F: PrimeField> LookupArgument<F> {
                             match table_oracles_mapping.get(&table_query.label)
                             {
                                 Some(index) => table_oracles[*index]
-                                    .query_in_coset(i, Rotation::curr()),
+                                    .query_in_coset(i, table_query.rotation),
                                 None => Err(PiopError::MissingFixedOracle(
                                     table_query.label.clone(),
                                 )),
@@ -492,6 +494,9 @@ impl<F: PrimeField> LookupArgument<F> {
             table_queries
                 .iter()
                 .map(|table_query| -> Result<F, PiopError> {
+                    let evaluation_challenge = table_query
+                        .rotation
+                        .compute_evaluation_point(evaluation_challenge, omegas);
                     match table_query.oracle_type {
                         OracleType::Witness => {
                             Err(PiopError::WitnessTableNotAllowed(
-- 
2.43.0


From 7cf41f39db44219ec9f57666a32be6a4058424a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:49 +0000
Subject: [PATCH 06/12] fix: lookup constraints get their own powers of alpha

The first lookup constraint reused the last permutation power, so the two
could cancel each other in the batched identity.
---
 src/piop/prover.rs | 6 +++---
 src/turbo_plonk.rs | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/piop/prover.rs b/src/piop/prover.rs
index 0fabd05..9ba5d7d 100644
--- a/src/piop/prover.rs
+++ b/src/piop/prover.rs
@@ -282,12 +282,12 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>> PIOPforPolyIdentity<F, PC> {
             .collect();
 
         // For each lookup argument we need 5 alphas
-        // Again begin with last alpha after permutation argument
+        // Again begin with next of last alpha after permutation argument
         let lookups_begin_with = if let Some(alpha) = permutation_alphas.last()
         {
-            *alpha
+            *alpha * verifier_msg.alpha
         } else {
-            *powers_of_alpha.last().unwrap()
+            permutation_begin_with
         };
 
         let lookup_alphas: Vec<F> =
diff --git a/src/turbo_plonk.rs b/src/turbo_plonk.rs
index a64ce99..fcc11d8 100644
--- a/src/turbo_plonk.rs
+++ b/src/turbo_plonk.rs
@@ -1127,12 +1127,12 @@ where
             .collect();
 
         // For each lookup argument we need 5 alphas
-        // Again begin with last alpha after permutation argument
+        // Again begin with next of last alpha after permutation argument
         let lookups_begin_with = if let Some(alpha) = permutation_alphas.last()
         {
-            *alpha
+            *alpha * verifier_first_msg.alpha
         } else {
-            *powers_of_alpha.last().unwrap()
+            permutation_begin_with
         };
 
         let lookup_alphas: Vec<F> =
-- 
2.43.0


From 32b638451d561959100f2263b481efa36106e023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:24 +0000
Subject: [PATCH 07/12] fix: extended domain must hold every coefficient of the
 quotient

A quotient of degree 2^k needs a domain bigger than 2^k; and constraints of
lower degree than the vanishing polynomial underflowed instead of returning
QuotientTooSmall.
---
 src/indexer.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/indexer.rs b/src/indexer.rs
index 2fd8190..ee1cc50 100644
--- a/src/indexer.rs
+++ b/src/indexer.rs
@@ -92,7 +92,9 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>> Indexer<F, PC> {
             max_degree = max(max_degree, vo_degree?);
         }
 
-        Ok(max_degree - z_h_degree)
+        max_degree
+            .checked_sub(z_h_degree)
+            .ok_or(Error::QuotientTooSmall)
     }
 
     fn compute_zh_evals(
@@ -174,9 +176,10 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>> Indexer<F, PC> {
             z_h.degree(),
         )?;
 
+        // Polynomial of degree d is determined by d + 1 evaluations
         // TODO: we can introduce next power of 2 check here instead of creating domain and then dividing
         let extended_coset_domain =
-            GeneralEvaluationDomain::<F>::new(quotient_degree).unwrap();
+            GeneralEvaluationDomain::<F>::new(quotient_degree + 1).unwrap();
 
         if extended_coset_domain.size() < domain.size() {
             return Err(Error::QuotientTooSmall);
-- 
2.43.0


From c5d2dc53674f25537706f7c02d84af1ddbc35087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:39 +0000
Subject: [PATCH 08/12] fix: rotations wrap around the domain in both
 directions

A negative rotation by a multiple of the domain size indexed one past the
end, and any rotation of at least the domain size indexed past the roots.
---
 src/oracles/rotation.rs | 11 +++++++----
 src/oracles/traits.rs   |  5 +++--
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/oracles/rotation.rs b/src/oracles/rotation.rs
index 4719c56..1926c7d 100644
--- a/src/oracles/rotation.rs
+++ b/src/oracles/rotation.rs
@@ -51,8 +51,10 @@ impl Rotation {
         }
 
         let omega = match self.sign {
-            Sign::Plus => omegas[self.degree],
-            Sign::Minus => omegas[self.degree].inverse().unwrap(),
+            Sign::Plus => omegas[self.degree % omegas.len()],
+            Sign::Minus => {
+                omegas[self.degree % omegas.len()].inverse().unwrap()
+            }
         };
 
         evaluation_point * omega
@@ -69,7 +71,7 @@ impl Rotation {
         } else {
             let (omega, point_label) = match self.sign {
                 Sign::Plus => {
-                    let omega = omegas[self.degree];
+                    let omega = omegas[self.degree % omegas.len()];
                     let point_label = format!(
                         "omega_{}_{}",
                         self.degree, opening_challenge_label
@@ -77,7 +79,8 @@ impl Rotation {
                     (omega, point_label)
                 }
                 Sign::Minus => {
-                    let omega = omegas[self.degree].inverse().unwrap();
+                    let omega =
+                        omegas[self.degree % omegas.len()].inverse().unwrap();
                     let point_label = format!(
                         "omega_-{}_{}",
                         self.degree, opening_challenge_label
diff --git a/src/oracles/traits.rs b/src/oracles/traits.rs
index 74c6943..b94f3ef 100644
--- a/src/oracles/traits.rs
+++ b/src/oracles/traits.rs
@@ -71,7 +71,8 @@ pub trait Instantiable<F: FftField>: ConcreteOracle<F> {
                     let move_from_end = (rotation.degree * scaling_ratio
                         - omega_index)
                         % extended_domain_size;
-                    extended_coset_evals[extended_domain_size - move_from_end]
+                    extended_coset_evals[(extended_domain_size - move_from_end)
+                        % extended_domain_size]
                 }
             }
         };
@@ -99,7 +100,7 @@ pub trait Instantiable<F: FftField>: ConcreteOracle<F> {
                 } else {
                     let move_from_end =
                         (rotation.degree - omega_index) % domain_size;
-                    evals[domain_size - move_from_end]
+                    evals[(domain_size - move_from_end) % domain_size]
                 }
             }
         }
-- 
2.43.0


From c27fbbfa7e74efbeeb0d00019167d9b54e325d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:41 +0000
Subject: [PATCH 09/12] fix: verifier rejects malformed proofs instead of
 panicking

Vector lengths of the proof are attacker controlled; wrong lengths hit
assertions or out of bounds indexing, and the number of quotient chunks was
not checked at all.
---
 src/error.rs               |  2 ++
 src/multiproof/piop/mod.rs |  7 ++--
 src/turbo_plonk.rs         | 65 ++++++++++++++++++--------------------
 3 files changed, 36 insertions(+), 38 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 8de93b6..6571a33 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -15,6 +15,8 @@ pub enum Error<E> {
     PolynomialCommitmentError(E),
     /// Prover sent commitments to more or less chunks of quotient than needed
     WrongNumberOfChunks,
+    /// Prover sent more or less commitments or evaluations than needed
+    MalformedProof,
     /// Non zero over K indentity does not hold
     QuotientNotZero,
     MultiproofError(MultiproofError<E>),
diff --git a/src/multiproof/piop/mod.rs b/src/multiproof/piop/mod.rs
index 844ba66..147fed7 100644
--- a/src/multiproof/piop/mod.rs
+++ b/src/multiproof/piop/mod.rs
@@ -18,6 +18,7 @@ use crate::{
         rotation::Rotation,
         traits::{CommittedOracle, Instantiable},
     },
+    piop::error::Error as PiopError,
     rng::FiatShamirRng,
 };
 
@@ -207,9 +208,9 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>, FS: FiatShamirRng>
                         let prev =
                             q_i_evals_set.insert(evaluation_point, evaluation);
                         if prev.is_some() {
-                            panic!(
-                                "Same evaluation point for different rotations"
-                            )
+                            return Err(
+                                PiopError::RepeatedRotation(*rotation).into()
+                            );
                         }
                     }
 
diff --git a/src/turbo_plonk.rs b/src/turbo_plonk.rs
index fcc11d8..c9cd55d 100644
--- a/src/turbo_plonk.rs
+++ b/src/turbo_plonk.rs
@@ -173,6 +173,15 @@ pub struct TurboPlonk<
     _fs: PhantomData<FS>,
 }
 
+/// Proof is attacker controlled, so its shape has to be checked before indexing
+fn check_len<E>(expected: usize, actual: usize) -> Result<(), Error<E>> {
+    if expected == actual {
+        Ok(())
+    } else {
+        Err(Error::MalformedProof)
+    }
+}
+
 impl<F, PC, FS> PIL<F, PC, FS> for TurboPlonk<F, PC, FS>
 where
     F: PrimeField,
@@ -737,21 +746,14 @@ where
             .map(|(i, oracle)| (oracle.get_label(), i))
             .collect();
 
-        let num_of_quotient_chunks = proof.quotient_chunk_commitments.len();
-        // SKIP FOR NOW
-        // let num_of_quotient_chunks =
-        //     vk.index_info.quotient_degree.next_power_of_two() / domain_size;
+        let num_of_quotient_chunks =
+            vk.index_info.extended_coset_domain.size() / domain_size;
 
-        // if num_of_quotient_chunks != proof.quotient_chunk_commitments.len()
-        //     || num_of_quotient_chunks != proof.quotient_chunks_evaluations.len()
-        // {
-        //     dbg!(
-        //         num_of_quotient_chunks,
-        //         proof.quotient_chunk_commitments.len(),
-        //         proof.quotient_chunks_evaluations.len(),
-        //     );
-        //     return Err(Error::WrongNumberOfChunks);
-        // }
+        if num_of_quotient_chunks != proof.quotient_chunk_commitments.len()
+            || num_of_quotient_chunks != proof.quotient_chunks_evals.len()
+        {
+            return Err(Error::WrongNumberOfChunks);
+        }
 
         // --------------------------------------------------------------------
         // First round
@@ -791,6 +793,7 @@ where
             );
 
         // Map evals to each oracle
+        check_len(witness_oracles.len(), proof.witness_commitments.len())?;
         for (witness_oracle, commitment) in witness_oracles
             .iter_mut()
             .zip(proof.witness_commitments.iter())
@@ -823,7 +826,7 @@ where
             &omegas,
         );
 
-        assert_eq!(query_set.len(), proof.witness_evals.len());
+        check_len(query_set.len(), proof.witness_evals.len())?;
 
         // map claimed evaluations with proper oracles
         for ((poly_label, (_, point)), &evaluation) in
@@ -849,7 +852,7 @@ where
             &omegas,
         );
 
-        assert_eq!(fixed_query_set.len(), proof.fixed_oracle_evals.len());
+        check_len(fixed_query_set.len(), proof.fixed_oracle_evals.len())?;
 
         for ((poly_label, (_, point)), &evaluation) in
             fixed_query_set.iter().zip(proof.fixed_oracle_evals.iter())
@@ -874,7 +877,7 @@ where
             &omegas,
         );
 
-        assert_eq!(table_query_set.len(), proof.table_oracle_evals.len());
+        check_len(table_query_set.len(), proof.table_oracle_evals.len())?;
 
         for ((poly_label, (_, point)), &evaluation) in
             table_query_set.iter().zip(proof.table_oracle_evals.iter())
@@ -893,10 +896,10 @@ where
 
         // Map permutation evals
         // Permutation oracles are opened just in evaluation challenge
-        assert_eq!(
+        check_len(
             preprocessed.permutation_oracles.len(),
-            proof.permutation_oracle_evals.len()
-        );
+            proof.permutation_oracle_evals.len(),
+        )?;
         for (sigma, &eval) in preprocessed
             .permutation_oracles
             .iter_mut()
@@ -923,18 +926,13 @@ where
         let omega_inv = omega.inverse().unwrap();
         let evaluation_challenge = verifier_second_msg.xi;
 
+        let num_of_lookups = vk.index_info.lookups.len();
+        check_len(2 * num_of_lookups, proof.lookup_commitments.len())?;
         let lookup_permuted_oracles_commitments =
             proof.lookup_commitments.chunks(2);
-        assert_eq!(
-            lookup_permuted_oracles_commitments.len(),
-            vk.index_info.lookups.len()
-        );
 
+        check_len(3 * num_of_lookups, proof.lookup_evals.len())?;
         let lookup_permuted_oracles_evals = proof.lookup_evals.chunks(3);
-        assert_eq!(
-            lookup_permuted_oracles_evals.len(),
-            vk.index_info.lookups.len()
-        );
 
         let lookup_polys: Vec<_> = vk
             .index_info
@@ -1004,12 +1002,9 @@ where
             .iter()
             .flat_map(|(_, _, a_prime, s_prime)| vec![a_prime, s_prime]);
 
+        check_len(num_of_lookups, proof.lookup_z_commitments.len())?;
+        check_len(2 * num_of_lookups, proof.lookup_z_evals.len())?;
         let lookup_z_evals_chunks = proof.lookup_z_evals.chunks(2);
-        assert_eq!(
-            proof.lookup_z_commitments.len(),
-            vk.index_info.lookups.len()
-        );
-        assert_eq!(lookup_z_evals_chunks.len(), vk.index_info.lookups.len());
 
         let lookup_z_polys = proof
             .lookup_z_commitments
@@ -1039,7 +1034,7 @@ where
             .index_info
             .permutation_argument
             .number_of_z_polys(oracles_to_copy.len());
-        assert_eq!(num_of_z_polys, proof.z_commitments.len());
+        check_len(num_of_z_polys, proof.z_commitments.len())?;
 
         // Each z is evaluated at: x, wx and w^ux(except the last one)
         let mut z_polys: Vec<_> = proof
@@ -1075,7 +1070,7 @@ where
             &omegas,
         );
 
-        assert_eq!(z_query_set.len(), proof.z_evals.len());
+        check_len(z_query_set.len(), proof.z_evals.len())?;
 
         let z_mapping: BTreeMap<String, usize> = z_polys
             .iter()
-- 
2.43.0


From 799750070527712c369182e1379363d23b747209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:24 +0000
Subject: [PATCH 10/12] fix: open q_blind, permutation and copied oracles
 wherever they are used

Their evaluations at the challenge enter the batched identity, but the
rotation was only opened if the caller happened to register it: a verifier
key without it accepted arbitrary claimed values, and copy constrained wires
that no gate reads at the current row made honest proofs fail.
---
 src/data_structures.rs |  6 +++++-
 src/turbo_plonk.rs     | 20 ++++++++++++++++++++
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/data_structures.rs b/src/data_structures.rs
index c9a11b0..5b3769d 100644
--- a/src/data_structures.rs
+++ b/src/data_structures.rs
@@ -6,7 +6,8 @@ use crate::{
     commitment::HomomorphicCommitment,
     oracles::{
         fixed::{FixedProverOracle, FixedVerifierOracle},
-        traits::Instantiable,
+        rotation::Rotation,
+        traits::{ConcreteOracle, Instantiable},
     },
     permutation::PermutationArgument,
     vo::LookupVirtualOracle,
@@ -80,7 +81,9 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>>
             oracle.compute_extended_evals(&index_info.extended_coset_domain);
         }
 
+        // permutation oracles and q_blind are always opened at evaluation challenge
         for oracle in permutation_oracles.iter_mut() {
+            oracle.register_rotation(Rotation::curr());
             oracle.compute_extended_evals(&index_info.extended_coset_domain);
         }
 
@@ -89,6 +92,7 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>>
         }
 
         let mut q_blind = q_blind.clone();
+        q_blind.register_rotation(Rotation::curr());
         q_blind.compute_extended_evals(&index_info.extended_coset_domain);
 
         Self {
diff --git a/src/turbo_plonk.rs b/src/turbo_plonk.rs
index c9cd55d..7b115af 100644
--- a/src/turbo_plonk.rs
+++ b/src/turbo_plonk.rs
@@ -226,6 +226,13 @@ where
             fs_rng.absorb(&to_bytes![oracle.poly.coeffs].unwrap());
         }
 
+        // oracles included in copy constraints are always opened at evaluation challenge
+        for oracle in witness_oracles.iter_mut() {
+            if oracle.should_permute {
+                oracle.register_rotation(Rotation::curr());
+            }
+        }
+
         // compute extended evals of each oracle
         for oracle in witness_oracles.iter_mut() {
             oracle.compute_extended_evals(
@@ -714,6 +721,19 @@ where
     ) -> Result<(), Error<PC::Error>> {
         let verifier_init_state = PIOPforPolyIdentity::<F, PC>::init_verifier();
 
+        // permutation oracles and q_blind are always opened at evaluation challenge
+        for sigma in preprocessed.permutation_oracles.iter_mut() {
+            sigma.register_rotation(Rotation::curr());
+        }
+        preprocessed.q_blind.register_rotation(Rotation::curr());
+
+        // and so are witness oracles included in copy constraints
+        for oracle in witness_oracles.iter_mut() {
+            if oracle.should_permute {
+                oracle.register_rotation(Rotation::curr());
+            }
+        }
+
         let mut fs_rng =
             FS::initialize(&to_bytes![&Self::PROTOCOL_NAME].unwrap()); // TODO: add &pk.vk to transcript
 
-- 
2.43.0


From 5302e7036618637d0f4549eba1f4d9a594c2bdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:27 +0000
Subject: [PATCH 11/12] hook: verification harness module behind cfg(zok_verif)

---
 src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index af37987..2cd10f7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -35,6 +35,14 @@ mod turbo_plonk;
 
 mod tests;
 
+/// Access to private items for the verification harness, whose sources live
+/// outside of this repository: built only with `--cfg zok_verif`
+#[allow(unexpected_cfgs)]
+#[cfg(zok_verif)]
+pub mod verif_hook {
+    include!(env!("ZOK_VERIF_HOOK"));
+}
+
 pub type PCKeys<F, PC> = (
     <PC as PolynomialCommitment<F, DensePolynomial<F>>>::CommitterKey,
     <PC as PolynomialCommitment<F, DensePolynomial<F>>>::VerifierKey,
-- 
2.43.0


From b1db9fbd3f97e15265a0056dfe57bb5a81376b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:25 +0000
Subject: [PATCH 12/12] fix: inverse vanishing values when the vanishing
 polynomial does not fit the extended domain

coset_fft() works on the coefficients below the size of the domain, so a
vanishing polynomial of that degree (and not X^n - 1) lost its leading
coefficient and the quotient was computed from wrong values.
---
 src/indexer.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/indexer.rs b/src/indexer.rs
index ee1cc50..570a1a3 100644
--- a/src/indexer.rs
+++ b/src/indexer.rs
@@ -125,6 +125,16 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>> Indexer<F, PC> {
             );
             ark_ff::batch_inversion(&mut zh_evals);
             zh_evals
+        } else if z_h.degree() >= extended_coset_domain.size() {
+            // coset_fft() would drop the coefficients that exceed the domain
+            let shift = F::multiplicative_generator();
+            let mut zh_evals: Vec<F> = (0..extended_coset_domain.size())
+                .map(|i| {
+                    z_h.evaluate(&(shift * extended_coset_domain.element(i)))
+                })
+                .collect();
+            ark_ff::batch_inversion(&mut zh_evals);
+            zh_evals
         } else {
             let mut zh_evals = extended_coset_domain.coset_fft(&z_h);
             ark_ff::batch_inversion(&mut zh_evals);
-- 
2.43.0

