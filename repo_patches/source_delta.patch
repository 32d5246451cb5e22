From 55dc500e04c7bd6460c014e6ebfe385ae084fc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:38 +0000
Subject: [PATCH 01/20] fix: build the verifier's DEEP divisors from the AIR's
 frame offsets

The verifier divided by x - z*g^row instead of x - z*g^offset, so honest
proofs of systems whose frame offsets are not 0,1,2,... were rejected.
---
 src/starks/verifier.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/starks/verifier.rs b/src/starks/verifier.rs
index d99d2c9..b29d293 100644
--- a/src/starks/verifier.rs
+++ b/src/starks/verifier.rs
@@ -423,10 +423,13 @@ where
 
                 // DEEP consistency check
                 // Verify that Deep(x) is constructed correctly
-                let mut divisors = (0..proof.trace_ood_frame_evaluations.num_rows())
-                    .map(|row_idx| {
+                let mut divisors = air
+                    .context()
+                    .transition_offsets
+                    .iter()
+                    .map(|offset| {
                         &domain.lde_roots_of_unity_coset[*iota_n]
-                            - &challenges.z * primitive_root.pow(row_idx as u64)
+                            - &challenges.z * primitive_root.pow(*offset as u64)
                     })
                     .collect::<Vec<FieldElement<F>>>();
                 FieldElement::inplace_batch_inverse(&mut divisors);
-- 
2.43.0


From 2d13b767b03862e3c3ce965b49426054e0f30b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:01 +0000
Subject: [PATCH 02/20] fix: enforce the trace openings when verifying the DEEP
 polynomial

The result of checking the trace Merkle paths was computed and dropped, so
a prover could open any value for a committed trace column.
---
 src/starks/verifier.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/starks/verifier.rs b/src/starks/verifier.rs
index b29d293..be91bf4 100644
--- a/src/starks/verifier.rs
+++ b/src/starks/verifier.rs
@@ -408,12 +408,12 @@ where
                 ];
 
                 // Verify openings Open(tⱼ(D_LDE), 𝜐₀)
-                proof
+                result &= proof
                     .lde_trace_merkle_roots
                     .iter()
                     .zip(&deep_poly_opening.lde_trace_merkle_proofs)
                     .zip(lde_trace_evaluations)
-                    .fold(result, |acc, ((merkle_root, merkle_proof), evaluation)| {
+                    .fold(true, |acc, ((merkle_root, merkle_proof), evaluation)| {
                         acc & merkle_proof.verify::<BatchedMerkleTreeBackend<F>>(
                             merkle_root,
                             *iota_n,
-- 
2.43.0


From 29e4acc4529170e12f832b041548110c8cfc50da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:20 +0000
Subject: [PATCH 03/20] fix: reject proofs whose shape differs from the
 protocol's

The verifier zipped prover-supplied lists together, so that missing openings, layers or
authentication paths silently skipped checks, and indexed others without bounds checks.
---
 src/starks/frame.rs    |  5 +++
 src/starks/verifier.rs | 90 ++++++++++++++++++++++++++++++++++++++++--
 2 files changed, 92 insertions(+), 3 deletions(-)

diff --git a/src/starks/frame.rs b/src/starks/frame.rs
index 8c588f7..43a0ed5 100644
--- a/src/starks/frame.rs
+++ b/src/starks/frame.rs
@@ -27,6 +27,11 @@ impl<F: IsFFTField> Frame<F> {
         self.row_width
     }
 
+    /// Whether the frame consists of exactly `num_rows` rows of `num_columns` elements each.
+    pub fn has_dimensions(&self, num_rows: usize, num_columns: usize) -> bool {
+        self.row_width == num_columns && self.data.len() == num_rows * num_columns
+    }
+
     pub fn get_row(&self, row_idx: usize) -> &[FieldElement<F>] {
         let row_offset = row_idx * self.row_width;
         &self.data[row_offset..row_offset + self.row_width]
diff --git a/src/starks/verifier.rs b/src/starks/verifier.rs
index be91bf4..097df55 100644
--- a/src/starks/verifier.rs
+++ b/src/starks/verifier.rs
@@ -23,7 +23,10 @@ use super::{
     domain::Domain,
     fri::fri_decommit::FriDecommitment,
     grinding::hash_transcript_with_int_and_get_leading_zeros,
-    proof::{options::ProofOptions, stark::StarkProof},
+    proof::{
+        options::ProofOptions,
+        stark::{DeepPolynomialOpenings, StarkProof},
+    },
     traits::AIR,
     transcript::{batch_sample_challenges, sample_z_ood, transcript_to_field, transcript_to_usize},
 };
@@ -525,6 +528,80 @@ where
         )
 }
 
+/// Checks that the evaluation domains for the trace length claimed in the proof exist.
+fn trace_length_is_supported<F: IsFFTField>(
+    trace_length: usize,
+    proof_options: &ProofOptions,
+) -> bool {
+    let lde_length = trace_length.checked_mul(proof_options.blowup_factor as usize);
+    trace_length.is_power_of_two()
+        && lde_length.map_or(false, |lde_length| {
+            F::get_primitive_root_of_unity(trace_length.trailing_zeros() as u64).is_ok()
+                && F::get_primitive_root_of_unity(lde_length.trailing_zeros() as u64).is_ok()
+        })
+}
+
+/// Checks that every list of the proof has exactly the length that the protocol prescribes.
+/// The remaining steps of the verification rely on it.
+fn proof_has_expected_shape<F, A>(air: &A, proof: &StarkProof<F>) -> bool
+where
+    F: IsFFTField,
+    A: AIR<Field = F>,
+{
+    let context = air.context();
+    let number_of_queries = air.options().fri_number_of_queries;
+    let root_order = proof.trace_length.trailing_zeros() as usize;
+    let lde_root_order =
+        (proof.trace_length * air.blowup_factor() as usize).trailing_zeros() as usize;
+    let number_of_trace_commitments = if air.number_auxiliary_rap_columns() > 0 {
+        2
+    } else {
+        1
+    };
+    let number_of_fri_layers = root_order.max(1);
+
+    let fri_decommitment_has_expected_shape = |decommitment: &FriDecommitment<F>| {
+        let paths = [
+            &decommitment.layers_auth_paths,
+            &decommitment.layers_auth_paths_sym,
+        ];
+        decommitment.layers_evaluations.len() == number_of_fri_layers
+            && decommitment.layers_evaluations_sym.len() == number_of_fri_layers
+            && paths.iter().all(|layers_auth_paths| {
+                layers_auth_paths.len() == number_of_fri_layers
+                    && layers_auth_paths
+                        .iter()
+                        .enumerate()
+                        .all(|(k, path)| path.merkle_path.len() == lde_root_order - k)
+            })
+    };
+    let opening_has_expected_shape = |opening: &DeepPolynomialOpenings<F>| {
+        opening.lde_trace_evaluations.len() == context.trace_columns
+            && opening.lde_composition_poly_proof.merkle_path.len() == lde_root_order
+            && opening.lde_trace_merkle_proofs.len() == number_of_trace_commitments
+            && opening
+                .lde_trace_merkle_proofs
+                .iter()
+                .all(|path| path.merkle_path.len() == lde_root_order)
+    };
+
+    proof.lde_trace_merkle_roots.len() == number_of_trace_commitments
+        && proof
+            .trace_ood_frame_evaluations
+            .has_dimensions(context.transition_offsets.len(), context.trace_columns)
+        && proof.fri_layers_merkle_roots.len() == number_of_fri_layers
+        && proof.query_list.len() == number_of_queries
+        && proof
+            .query_list
+            .iter()
+            .all(fri_decommitment_has_expected_shape)
+        && proof.deep_poly_openings.len() == number_of_queries
+        && proof
+            .deep_poly_openings
+            .iter()
+            .all(opening_has_expected_shape)
+}
+
 // Reconstruct Deep(\upsilon_0) off the values in the proof
 fn reconstruct_deep_composition_poly_evaluation<F: IsFFTField, A: AIR<Field = F>>(
     proof: &StarkProof<F>,
@@ -569,8 +646,8 @@ where
     A: AIR<Field = F>,
     FieldElement<F>: ByteConversion,
 {
-    // Verify there are enough queries
-    if proof.query_list.len() < proof_options.fri_number_of_queries {
+    if !trace_length_is_supported::<F>(proof.trace_length, proof_options) {
+        error!("Trace length not supported");
         return false;
     }
 
@@ -581,6 +658,13 @@ where
 
     let mut transcript = step_1_transcript_initialization();
     let air = A::new(proof.trace_length, pub_input, proof_options);
+
+    // Verify there are enough queries, openings and layers
+    if !proof_has_expected_shape(&air, proof) {
+        error!("The proof does not have the expected shape");
+        return false;
+    }
+
     let domain = Domain::new(&air);
 
     let challenges =
-- 
2.43.0


From ccb9552fbe6065a98053f62bd2a20726f5bb513c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:56 +0000
Subject: [PATCH 04/20] fix: measure provable security by the blow-up bits and
 reject options below the target

---
 src/starks/proof/options.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/starks/proof/options.rs b/src/starks/proof/options.rs
index b45c128..7e58344 100644
--- a/src/starks/proof/options.rs
+++ b/src/starks/proof/options.rs
@@ -111,10 +111,10 @@ impl ProofOptions {
     ) -> Result<Self, InsecureOptionError> {
         Self::check_field_security::<F>(security_target)?;
 
-        let num_bits_blowup_factor = blowup_factor.leading_zeros() as usize;
+        let num_bits_blowup_factor = blowup_factor.trailing_zeros() as usize;
 
-        if (security_target as usize)
-            < grinding_factor as usize + num_bits_blowup_factor * fri_number_of_queries / 2
+        if security_target as usize
+            > grinding_factor as usize + num_bits_blowup_factor * fri_number_of_queries / 2
         {
             return Err(InsecureOptionError::SecurityBits);
         }
-- 
2.43.0


From 3781b0506672e4dcff846c6b57783bbc88651c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:56 +0000
Subject: [PATCH 05/20] fix: do not wrap around or accept illegal blow-up
 factors when checking option security

---
 src/starks/proof/options.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/starks/proof/options.rs b/src/starks/proof/options.rs
index 7e58344..e8a9d10 100644
--- a/src/starks/proof/options.rs
+++ b/src/starks/proof/options.rs
@@ -83,10 +83,11 @@ impl ProofOptions {
     ) -> Result<Self, InsecureOptionError> {
         Self::check_field_security::<F>(security_target)?;
 
-        let num_bits_blowup_factor = blowup_factor.trailing_zeros() as usize;
+        let query_security_bits =
+            Self::num_bits_blowup_factor(blowup_factor)?.saturating_mul(fri_number_of_queries);
 
-        if security_target as usize
-            >= grinding_factor as usize + num_bits_blowup_factor * fri_number_of_queries - 1
+        if security_target as usize + 1
+            >= query_security_bits.saturating_add(grinding_factor as usize)
         {
             return Err(InsecureOptionError::SecurityBits);
         }
@@ -111,11 +112,10 @@ impl ProofOptions {
     ) -> Result<Self, InsecureOptionError> {
         Self::check_field_security::<F>(security_target)?;
 
-        let num_bits_blowup_factor = blowup_factor.trailing_zeros() as usize;
+        let query_security_bits =
+            Self::num_bits_blowup_factor(blowup_factor)?.saturating_mul(fri_number_of_queries) / 2;
 
-        if security_target as usize
-            > grinding_factor as usize + num_bits_blowup_factor * fri_number_of_queries / 2
-        {
+        if security_target as usize > query_security_bits.saturating_add(grinding_factor as usize) {
             return Err(InsecureOptionError::SecurityBits);
         }
 
@@ -127,6 +127,16 @@ impl ProofOptions {
         })
     }
 
+    /// Number of bits of security each query contributes. The blowup factor has to be a power of
+    /// two greater than one: any other factor does not define a low degree extension.
+    fn num_bits_blowup_factor(blowup_factor: u8) -> Result<usize, InsecureOptionError> {
+        if blowup_factor < 2 || !blowup_factor.is_power_of_two() {
+            return Err(InsecureOptionError::SecurityBits);
+        }
+
+        Ok(blowup_factor.trailing_zeros() as usize)
+    }
+
     fn check_field_security<F: IsPrimeField>(
         security_target: u8,
     ) -> Result<(), InsecureOptionError> {
-- 
2.43.0


From 1d4b98ea130e9c0c07f6765d9e86bf5dcb4b385d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:16 +0000
Subject: [PATCH 06/20] fix: reject trailing bytes and non-canonical field
 elements when decoding proofs

---
 src/starks/frame.rs            | 16 ++++-----
 src/starks/fri/fri_decommit.rs | 22 +++++-------
 src/starks/proof/stark.rs      | 66 ++++++++++------------------------
 src/starks/utils.rs            | 23 ++++++++++++
 4 files changed, 57 insertions(+), 70 deletions(-)

diff --git a/src/starks/frame.rs b/src/starks/frame.rs
index 43a0ed5..122787d 100644
--- a/src/starks/frame.rs
+++ b/src/starks/frame.rs
@@ -5,7 +5,7 @@ use lambdaworks_math::{
     traits::{ByteConversion, Deserializable, Serializable},
 };
 
-use super::trace::TraceTable;
+use super::{trace::TraceTable, utils::deserialize_felt};
 
 #[derive(Clone, Debug, PartialEq)]
 pub struct Frame<F: IsFFTField> {
@@ -140,19 +140,17 @@ where
 
         let mut data = vec![];
         for _ in 0..data_len {
-            let felt = FieldElement::<F>::from_bytes_be(
-                bytes
-                    .get(..felt_len)
-                    .ok_or(DeserializationError::InvalidAmountOfBytes)?,
-            )?;
+            let felt;
+            (felt, bytes) = deserialize_felt(bytes, felt_len)?;
             data.push(felt);
-            bytes = &bytes[felt_len..];
+        }
+
+        if data.is_empty() && felt_len != 0 {
+            return Err(DeserializationError::InvalidAmountOfBytes);
         }
 
         let row_width = usize::from_be_bytes(
             bytes
-                .get(..8)
-                .ok_or(DeserializationError::InvalidAmountOfBytes)?
                 .try_into()
                 .map_err(|_| DeserializationError::InvalidAmountOfBytes)?,
         );
diff --git a/src/starks/fri/fri_decommit.rs b/src/starks/fri/fri_decommit.rs
index 74da883..9574571 100644
--- a/src/starks/fri/fri_decommit.rs
+++ b/src/starks/fri/fri_decommit.rs
@@ -6,7 +6,7 @@ use lambdaworks_math::field::traits::IsField;
 use lambdaworks_math::traits::{ByteConversion, Deserializable, Serializable};
 
 use crate::starks::config::Commitment;
-use crate::starks::utils::{deserialize_proof, serialize_proof};
+use crate::starks::utils::{deserialize_felt, deserialize_proof, serialize_proof};
 
 #[derive(Debug, Clone)]
 pub struct FriDecommitment<F: IsField> {
@@ -91,12 +91,8 @@ where
 
         let mut layers_evaluations_sym = vec![];
         for _ in 0..layers_evaluations_sym_len {
-            let evaluation = FieldElement::<F>::from_bytes_be(
-                bytes
-                    .get(..felt_len)
-                    .ok_or(DeserializationError::InvalidAmountOfBytes)?,
-            )?;
-            bytes = &bytes[felt_len..];
+            let evaluation;
+            (evaluation, bytes) = deserialize_felt(bytes, felt_len)?;
             layers_evaluations_sym.push(evaluation);
         }
 
@@ -111,12 +107,8 @@ where
 
         let mut layers_evaluations = vec![];
         for _ in 0..layer_evaluations_len {
-            let evaluation = FieldElement::<F>::from_bytes_be(
-                bytes
-                    .get(..felt_len)
-                    .ok_or(DeserializationError::InvalidAmountOfBytes)?,
-            )?;
-            bytes = &bytes[felt_len..];
+            let evaluation;
+            (evaluation, bytes) = deserialize_felt(bytes, felt_len)?;
             layers_evaluations.push(evaluation);
         }
 
@@ -136,6 +128,10 @@ where
             layers_auth_paths.push(proof);
         }
 
+        if !bytes.is_empty() {
+            return Err(DeserializationError::InvalidAmountOfBytes);
+        }
+
         Ok(Self {
             layers_auth_paths_sym,
             layers_evaluations_sym,
diff --git a/src/starks/proof/stark.rs b/src/starks/proof/stark.rs
index 89f9c5b..2a5821a 100644
--- a/src/starks/proof/stark.rs
+++ b/src/starks/proof/stark.rs
@@ -9,7 +9,7 @@ use crate::starks::{
     config::Commitment,
     frame::Frame,
     fri::fri_decommit::FriDecommitment,
-    utils::{deserialize_proof, serialize_proof},
+    utils::{deserialize_felt, deserialize_proof, serialize_proof},
 };
 
 use core::mem;
@@ -98,19 +98,11 @@ where
         );
         bytes = &bytes[8..];
 
-        let lde_composition_poly_even_evaluation = FieldElement::from_bytes_be(
-            bytes
-                .get(..felt_len)
-                .ok_or(DeserializationError::InvalidAmountOfBytes)?,
-        )?;
-        bytes = &bytes[felt_len..];
+        let lde_composition_poly_even_evaluation;
+        (lde_composition_poly_even_evaluation, bytes) = deserialize_felt(bytes, felt_len)?;
 
-        let lde_composition_poly_odd_evaluation = FieldElement::from_bytes_be(
-            bytes
-                .get(..felt_len)
-                .ok_or(DeserializationError::InvalidAmountOfBytes)?,
-        )?;
-        bytes = &bytes[felt_len..];
+        let lde_composition_poly_odd_evaluation;
+        (lde_composition_poly_odd_evaluation, bytes) = deserialize_felt(bytes, felt_len)?;
 
         let lde_trace_merkle_proofs_len = usize::from_be_bytes(
             bytes
@@ -139,15 +131,15 @@ where
 
         let mut lde_trace_evaluations = vec![];
         for _ in 0..lde_trace_evaluations_len {
-            let evaluation = FieldElement::from_bytes_be(
-                bytes
-                    .get(..felt_len)
-                    .ok_or(DeserializationError::InvalidAmountOfBytes)?,
-            )?;
-            bytes = &bytes[felt_len..];
+            let evaluation;
+            (evaluation, bytes) = deserialize_felt(bytes, felt_len)?;
             lde_trace_evaluations.push(evaluation);
         }
 
+        if !bytes.is_empty() {
+            return Err(DeserializationError::InvalidAmountOfBytes);
+        }
+
         Ok(DeepPolynomialOpenings {
             lde_composition_poly_proof,
             lde_composition_poly_even_evaluation,
@@ -296,21 +288,11 @@ where
 
         bytes = &bytes[8..];
 
-        let composition_poly_even_ood_evaluation = FieldElement::from_bytes_be(
-            bytes
-                .get(..felt_len)
-                .ok_or(DeserializationError::InvalidAmountOfBytes)?,
-        )?;
-
-        bytes = &bytes[felt_len..];
-
-        let composition_poly_odd_ood_evaluation = FieldElement::from_bytes_be(
-            bytes
-                .get(..felt_len)
-                .ok_or(DeserializationError::InvalidAmountOfBytes)?,
-        )?;
+        let composition_poly_even_ood_evaluation;
+        (composition_poly_even_ood_evaluation, bytes) = deserialize_felt(bytes, felt_len)?;
 
-        bytes = &bytes[felt_len..];
+        let composition_poly_odd_ood_evaluation;
+        (composition_poly_odd_ood_evaluation, bytes) = deserialize_felt(bytes, felt_len)?;
 
         let fri_layers_merkle_roots_len = usize::from_be_bytes(
             bytes
@@ -333,13 +315,8 @@ where
             bytes = &bytes[32..];
         }
 
-        let fri_last_value = FieldElement::from_bytes_be(
-            bytes
-                .get(..felt_len)
-                .ok_or(DeserializationError::InvalidAmountOfBytes)?,
-        )?;
-
-        bytes = &bytes[felt_len..];
+        let fri_last_value;
+        (fri_last_value, bytes) = deserialize_felt(bytes, felt_len)?;
 
         let query_list_len = usize::from_be_bytes(
             bytes
@@ -407,16 +384,9 @@ where
             deep_poly_openings.push(opening);
         }
 
-        // deserialize nonce
-        let start_nonce = bytes
-            .len()
-            .checked_sub(core::mem::size_of::<u64>())
-            .ok_or(DeserializationError::InvalidAmountOfBytes)?;
-
+        // deserialize nonce, which has to be all that is left
         let nonce = u64::from_be_bytes(
             bytes
-                .get(start_nonce..)
-                .ok_or(DeserializationError::InvalidAmountOfBytes)?
                 .try_into()
                 .map_err(|_| DeserializationError::InvalidAmountOfBytes)?,
         );
diff --git a/src/starks/utils.rs b/src/starks/utils.rs
index e195839..13fdfb0 100644
--- a/src/starks/utils.rs
+++ b/src/starks/utils.rs
@@ -1,5 +1,7 @@
 use lambdaworks_crypto::merkle_tree::proof::Proof;
 use lambdaworks_math::errors::DeserializationError;
+use lambdaworks_math::field::{element::FieldElement, traits::IsField};
+use lambdaworks_math::traits::ByteConversion;
 
 use super::config::Commitment;
 
@@ -36,3 +38,24 @@ pub fn deserialize_proof(bytes: &[u8]) -> Result<(Proof<Commitment>, &[u8]), Des
 
     Ok((Proof { merkle_path }, bytes))
 }
+
+/// Reads a field element encoded in `felt_len` bytes and returns it with the remaining bytes.
+/// Fails unless those bytes are exactly the encoding of the element, so that different byte strings
+/// never decode to the same value.
+pub fn deserialize_felt<F>(
+    bytes: &[u8],
+    felt_len: usize,
+) -> Result<(FieldElement<F>, &[u8]), DeserializationError>
+where
+    F: IsField,
+    FieldElement<F>: ByteConversion,
+{
+    let felt_bytes = bytes
+        .get(..felt_len)
+        .ok_or(DeserializationError::InvalidAmountOfBytes)?;
+    let felt = FieldElement::<F>::from_bytes_be(felt_bytes)?;
+    if felt.to_bytes_be() != felt_bytes {
+        return Err(DeserializationError::FieldFromBytesError);
+    }
+    Ok((felt, &bytes[felt_len..]))
+}
-- 
2.43.0


From 56c419d1b38e100c9ea5e6854c453012cddaaa28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:16 +0000
Subject: [PATCH 07/20] fix: serialize decommitments that hold no layer
 evaluations

---
 src/starks/fri/fri_decommit.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/starks/fri/fri_decommit.rs b/src/starks/fri/fri_decommit.rs
index 9574571..80d22af 100644
--- a/src/starks/fri/fri_decommit.rs
+++ b/src/starks/fri/fri_decommit.rs
@@ -27,7 +27,12 @@ where
         for proof in &self.layers_auth_paths_sym {
             bytes.extend(serialize_proof(proof));
         }
-        let felt_len = self.layers_evaluations[0].to_bytes_be().len();
+        let felt_len = self
+            .layers_evaluations
+            .iter()
+            .chain(&self.layers_evaluations_sym)
+            .next()
+            .map_or(0, |evaluation| evaluation.to_bytes_be().len());
         bytes.extend(felt_len.to_be_bytes());
         bytes.extend(self.layers_evaluations_sym.len().to_be_bytes());
         for evaluation in &self.layers_evaluations_sym {
@@ -128,7 +133,8 @@ where
             layers_auth_paths.push(proof);
         }
 
-        if !bytes.is_empty() {
+        let has_evaluations = layers_evaluations_sym_len != 0 || layer_evaluations_len != 0;
+        if !bytes.is_empty() || (!has_evaluations && felt_len != 0) {
             return Err(DeserializationError::InvalidAmountOfBytes);
         }
 
-- 
2.43.0


From e9e4c0f2c6dae2108c7ef2181ea525c4bd1a2dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:24 +0000
Subject: [PATCH 08/20] fix: decode public inputs without panicking on or
 ignoring malformed bytes

---
 src/cairo/air.rs | 75 +++++++++++++++++-------------------------------
 1 file changed, 27 insertions(+), 48 deletions(-)

diff --git a/src/cairo/air.rs b/src/cairo/air.rs
index 75c9bad..06f2c9a 100644
--- a/src/cairo/air.rs
+++ b/src/cairo/air.rs
@@ -19,6 +19,7 @@ use crate::{
         trace::TraceTable,
         traits::AIR,
         transcript::transcript_to_field,
+        utils::deserialize_felt,
         verifier::verify,
     },
     FE,
@@ -289,36 +290,16 @@ impl Deserializable for PublicInputs {
                 .map_err(|_| DeserializationError::InvalidAmountOfBytes)?,
         );
         bytes = &bytes[8..];
-        let pc_init = FE::from_bytes_be(
-            bytes
-                .get(..felt_len)
-                .ok_or(DeserializationError::InvalidAmountOfBytes)?,
-        )?;
-        bytes = &bytes[felt_len..];
-        let ap_init = FE::from_bytes_be(
-            bytes
-                .get(..felt_len)
-                .ok_or(DeserializationError::InvalidAmountOfBytes)?,
-        )?;
-        bytes = &bytes[felt_len..];
-        let fp_init = FE::from_bytes_be(
-            bytes
-                .get(..felt_len)
-                .ok_or(DeserializationError::InvalidAmountOfBytes)?,
-        )?;
-        bytes = &bytes[felt_len..];
-        let pc_final = FE::from_bytes_be(
-            bytes
-                .get(..felt_len)
-                .ok_or(DeserializationError::InvalidAmountOfBytes)?,
-        )?;
-        bytes = &bytes[felt_len..];
-        let ap_final = FE::from_bytes_be(
-            bytes
-                .get(..felt_len)
-                .ok_or(DeserializationError::InvalidAmountOfBytes)?,
-        )?;
-        bytes = &bytes[felt_len..];
+        let pc_init: FE;
+        (pc_init, bytes) = deserialize_felt(bytes, felt_len)?;
+        let ap_init: FE;
+        (ap_init, bytes) = deserialize_felt(bytes, felt_len)?;
+        let fp_init: FE;
+        (fp_init, bytes) = deserialize_felt(bytes, felt_len)?;
+        let pc_final: FE;
+        (pc_final, bytes) = deserialize_felt(bytes, felt_len)?;
+        let ap_final: FE;
+        (ap_final, bytes) = deserialize_felt(bytes, felt_len)?;
 
         if bytes.is_empty() {
             return Err(DeserializationError::InvalidAmountOfBytes);
@@ -331,7 +312,9 @@ impl Deserializable for PublicInputs {
             1 => {
                 bytes = &bytes[1..];
                 let range_check_min = u16::from_be_bytes(
-                    bytes[..2]
+                    bytes
+                        .get(..2)
+                        .ok_or(DeserializationError::InvalidAmountOfBytes)?
                         .try_into()
                         .map_err(|_| DeserializationError::InvalidAmountOfBytes)?,
                 );
@@ -352,7 +335,9 @@ impl Deserializable for PublicInputs {
             1 => {
                 bytes = &bytes[1..];
                 let range_check_max = u16::from_be_bytes(
-                    bytes[..2]
+                    bytes
+                        .get(..2)
+                        .ok_or(DeserializationError::InvalidAmountOfBytes)?
                         .try_into()
                         .map_err(|_| DeserializationError::InvalidAmountOfBytes)?,
                 );
@@ -397,7 +382,9 @@ impl Deserializable for PublicInputs {
                     .map_err(|_| DeserializationError::InvalidAmountOfBytes)?,
             );
             bytes = &bytes[8..];
-            memory_segments.insert(segment_type, start..end);
+            if memory_segments.insert(segment_type, start..end).is_some() {
+                return Err(DeserializationError::FieldFromBytesError);
+            }
         }
 
         let mut public_memory = HashMap::new();
@@ -410,25 +397,17 @@ impl Deserializable for PublicInputs {
         );
         bytes = &bytes[8..];
         for _ in 0..public_memory_length {
-            let address = FE::from_bytes_be(
-                bytes
-                    .get(..felt_len)
-                    .ok_or(DeserializationError::InvalidAmountOfBytes)?,
-            )?;
-            bytes = &bytes[felt_len..];
-            let value = FE::from_bytes_be(
-                bytes
-                    .get(..felt_len)
-                    .ok_or(DeserializationError::InvalidAmountOfBytes)?,
-            )?;
-            bytes = &bytes[felt_len..];
-            public_memory.insert(address, value);
+            let address: FE;
+            (address, bytes) = deserialize_felt(bytes, felt_len)?;
+            let value: FE;
+            (value, bytes) = deserialize_felt(bytes, felt_len)?;
+            if public_memory.insert(address, value).is_some() {
+                return Err(DeserializationError::FieldFromBytesError);
+            }
         }
 
         let num_steps = usize::from_be_bytes(
             bytes
-                .get(0..8)
-                .ok_or(DeserializationError::InvalidAmountOfBytes)?
                 .try_into()
                 .map_err(|_| DeserializationError::InvalidAmountOfBytes)?,
         );
-- 
2.43.0


From 3eb7b942482f8ec31850e95c915933ba329b5e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:39 +0000
Subject: [PATCH 09/20] fix: reject instruction words that do not fit in 63
 bits

---
 src/cairo/decode/instruction_flags.rs | 6 ++++++
 src/cairo/errors.rs                   | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/src/cairo/decode/instruction_flags.rs b/src/cairo/decode/instruction_flags.rs
index da60b3a..384d31b 100644
--- a/src/cairo/decode/instruction_flags.rs
+++ b/src/cairo/decode/instruction_flags.rs
@@ -292,6 +292,12 @@ impl TryFrom<&FE> for CairoInstructionFlags {
     type Error = InstructionDecodingError;
 
     fn try_from(mem_value: &FE) -> Result<Self, Self::Error> {
+        // Instructions are 63 bits long (section 4.4 of the Cairo whitepaper)
+        let bytes = mem_value.to_bytes_be();
+        if bytes[..24].iter().any(|&byte| byte != 0) || bytes[24] >> 7 != 0 {
+            return Err(InstructionDecodingError::InvalidInstructionWord);
+        }
+
         Ok(CairoInstructionFlags {
             opcode: CairoOpcode::try_from(mem_value)?,
             pc_update: PcUpdate::try_from(mem_value)?,
diff --git a/src/cairo/errors.rs b/src/cairo/errors.rs
index c7cf11d..fc3972f 100644
--- a/src/cairo/errors.rs
+++ b/src/cairo/errors.rs
@@ -24,6 +24,8 @@ pub enum InstructionDecodingError {
     InvalidOp0Reg,
     #[error("Invalid dst_reg value")]
     InvalidDstReg,
+    #[error("Instruction word does not fit in 63 bits")]
+    InvalidInstructionWord,
     #[error("Instruction not found in memory")]
     InstructionNotFound,
 }
-- 
2.43.0


From 437750f7660d0796b6e82e612bf6f640997c75d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:58 +0000
Subject: [PATCH 10/20] fix: expect range-check builtin columns only when there
 is a range-check segment

---
 src/cairo/air.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cairo/air.rs b/src/cairo/air.rs
index 06f2c9a..c9ba7cf 100644
--- a/src/cairo/air.rs
+++ b/src/cairo/air.rs
@@ -599,7 +599,9 @@ impl AIR for CairoAIR {
         // layouts functionality. The `has_rc_builtin` boolean should not exist, we will know the
         // layout from the Cairo public inputs directly, and the number of constraints and columns
         // will be enforced through that.
-        let has_rc_builtin = !pub_inputs.memory_segments.is_empty();
+        let has_rc_builtin = pub_inputs
+            .memory_segments
+            .contains_key(&MemorySegment::RangeCheck);
         if has_rc_builtin {
             trace_columns += 8 + 1; // 8 columns for each rc of the range-check builtin values decomposition, 1 for the values
             transition_degrees.push(1); // Range check builtin constraint
-- 
2.43.0


From a787fc912c0f8ee35fe1e94fbb8bbe624aad222b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:33 +0000
Subject: [PATCH 11/20] fix: fill memory holes next to public output cells like
 any other

---
 src/cairo/execution_trace.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/cairo/execution_trace.rs b/src/cairo/execution_trace.rs
index 4a243aa..21cab05 100644
--- a/src/cairo/execution_trace.rs
+++ b/src/cairo/execution_trace.rs
@@ -64,6 +64,8 @@ pub fn build_main_trace(
     let mut address_cols = main_trace
         .get_cols(&[FRAME_PC, FRAME_DST_ADDR, FRAME_OP0_ADDR, FRAME_OP1_ADDR])
         .table;
+    // The public memory takes part in the memory argument too, so its cells are never holes.
+    address_cols.extend(public_input.public_memory.keys());
     address_cols.sort_by_key(|x| x.representative());
 
     let (rc_holes, rc_min, rc_max) = get_rc_holes(&main_trace, &[OFF_DST, OFF_OP0, OFF_OP1]);
@@ -71,7 +73,12 @@ pub fn build_main_trace(
     public_input.range_check_max = Some(rc_max);
     fill_rc_holes(&mut main_trace, rc_holes);
 
-    let mut memory_holes = get_memory_holes(&address_cols, public_input.public_memory.len());
+    let output_len = public_input
+        .memory_segments
+        .get(&MemorySegment::Output)
+        .map_or(0, |range| (range.end - range.start) as usize);
+    let codelen = public_input.public_memory.len() - output_len;
+    let mut memory_holes = get_memory_holes(&address_cols, codelen);
 
     if !memory_holes.is_empty() {
         fill_memory_holes(&mut main_trace, &mut memory_holes);
-- 
2.43.0


From db47c77b6d25e812bdbeb953aac996950f8da88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:56 +0000
Subject: [PATCH 12/20] fix: bind the initial frame pointer to the public
 inputs

---
 src/cairo/air.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cairo/air.rs b/src/cairo/air.rs
index c9ba7cf..5f4c0cd 100644
--- a/src/cairo/air.rs
+++ b/src/cairo/air.rs
@@ -751,7 +751,8 @@ impl AIR for CairoAIR {
     /// These are part of the register constraints.
     ///
     /// Boundary constraints:
-    ///  * ap_0 = fp_0 = ap_i
+    ///  * ap_0 = ap_i
+    ///  * fp_0 = fp_i
     ///  * ap_t = ap_f
     ///  * pc_0 = pc_i
     ///  * pc_t = pc_f
@@ -761,6 +762,7 @@ impl AIR for CairoAIR {
     ) -> BoundaryConstraints<Self::Field> {
         let initial_pc = BoundaryConstraint::new(MEM_A_TRACE_OFFSET, 0, self.pub_inputs.pc_init);
         let initial_ap = BoundaryConstraint::new(MEM_P_TRACE_OFFSET, 0, self.pub_inputs.ap_init);
+        let initial_fp = BoundaryConstraint::new(FRAME_FP, 0, self.pub_inputs.fp_init);
 
         let final_pc = BoundaryConstraint::new(
             MEM_A_TRACE_OFFSET,
@@ -818,6 +820,7 @@ impl AIR for CairoAIR {
         let constraints = vec![
             initial_pc,
             initial_ap,
+            initial_fp,
             final_pc,
             final_ap,
             permutation_final_constraint,
-- 
2.43.0


From 412195c1d3a8eb3bc5f545ed01f4d57cc4f99b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:25 +0000
Subject: [PATCH 13/20] fix: reject Cairo public inputs without range-check
 bounds or with steps outside the trace

---
 src/cairo/air.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cairo/air.rs b/src/cairo/air.rs
index 5f4c0cd..741e9d7 100644
--- a/src/cairo/air.rs
+++ b/src/cairo/air.rs
@@ -1162,6 +1162,15 @@ pub fn verify_cairo_proof(
     pub_input: &PublicInputs,
     proof_options: &ProofOptions,
 ) -> bool {
+    // The public inputs come from an untrusted source: claims that no trace of
+    // this length could back are rejected before building constraints on them.
+    let is_range_check_bounded =
+        pub_input.range_check_min.is_some() && pub_input.range_check_max.is_some();
+    let is_step_in_trace = pub_input.num_steps >= 1 && pub_input.num_steps <= proof.trace_length;
+    if !is_range_check_bounded || !is_step_in_trace {
+        return false;
+    }
+
     verify::<Stark252PrimeField, CairoAIR>(proof, pub_input, proof_options)
 }
 
-- 
2.43.0


From fe83ed57338be3c6175232792549238d2db60abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:54 +0000
Subject: [PATCH 14/20] fix: reject claims about the dummy memory cell at
 address zero

---
 src/cairo/air.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cairo/air.rs b/src/cairo/air.rs
index 741e9d7..fb8d150 100644
--- a/src/cairo/air.rs
+++ b/src/cairo/air.rs
@@ -1167,7 +1167,9 @@ pub fn verify_cairo_proof(
     let is_range_check_bounded =
         pub_input.range_check_min.is_some() && pub_input.range_check_max.is_some();
     let is_step_in_trace = pub_input.num_steps >= 1 && pub_input.num_steps <= proof.trace_length;
-    if !is_range_check_bounded || !is_step_in_trace {
+    // The cell at address zero stands for the dummy accesses, it cannot be claimed.
+    let is_dummy_access_claimed = pub_input.public_memory.contains_key(&FE::zero());
+    if !is_range_check_bounded || !is_step_in_trace || is_dummy_access_claimed {
         return false;
     }
 
-- 
2.43.0


From e0d8339f9d777be5c0e98897d42110841a25dc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:47 +0000
Subject: [PATCH 15/20] fix: never sample an out-of-domain point whose square
 is in the evaluation domain

---
 src/starks/transcript.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/starks/transcript.rs b/src/starks/transcript.rs
index 8343621..9a79a38 100644
--- a/src/starks/transcript.rs
+++ b/src/starks/transcript.rs
@@ -60,7 +60,12 @@ where
 {
     loop {
         let value: FieldElement<F> = transcript_to_field(transcript);
-        if !lde_roots_of_unity_coset.iter().any(|x| x == &value)
+        // The halves of the composition polynomial are opened at `value²`, so the DEEP
+        // polynomial has a pole there too.
+        let value_squared = value.square();
+        if !lde_roots_of_unity_coset
+            .iter()
+            .any(|x| x == &value || x == &value_squared)
             && !trace_roots_of_unity.iter().any(|x| x == &value)
         {
             return value;
-- 
2.43.0


From e9965b3385b970ccedce2babc222302444c1892a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:20 +0000
Subject: [PATCH 16/20] fix: report failures of a Cairo 1 run as errors instead
 of panicking

---
 src/cairo/runner/run.rs | 49 ++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 25 deletions(-)

diff --git a/src/cairo/runner/run.rs b/src/cairo/runner/run.rs
index 22bfc5b..391f410 100644
--- a/src/cairo/runner/run.rs
+++ b/src/cairo/runner/run.rs
@@ -32,6 +32,8 @@ pub enum Error {
     VirtualMachine(#[from] VirtualMachineError),
     #[error(transparent)]
     Trace(#[from] TraceError),
+    #[error("Failed to parse the casm contract")]
+    Json(#[from] serde_json::Error),
 }
 
 /// Indicates the version of the Cairo program.
@@ -100,19 +102,15 @@ pub fn run_program(
             (vm, runner)
         }
         CairoVersion::V1 => {
-            let casm_contract: CasmContractClass = serde_json::from_slice(program_content).unwrap();
-            let program: Program = casm_contract.clone().try_into().unwrap();
-            let mut runner = CairoRunner::new(
-                &(casm_contract.clone().try_into().unwrap()),
-                layout.as_str(),
-                false,
-            )
-            .unwrap();
+            let casm_contract: CasmContractClass = serde_json::from_slice(program_content)?;
+            let program = Program::try_from(casm_contract.clone()).map_err(CairoRunError::from)?;
+            let mut runner =
+                CairoRunner::new(&program, layout.as_str(), false).map_err(CairoRunError::from)?;
             let mut vm = VirtualMachine::new(true);
 
             runner
                 .initialize_function_runner_cairo_1(&mut vm, &[BuiltinName::range_check])
-                .unwrap();
+                .map_err(CairoRunError::from)?;
 
             // Implicit Args
             let syscall_segment = MaybeRelocatable::from(vm.add_memory_segment());
@@ -142,18 +140,21 @@ pub fn run_program(
             let builtin_costs: Vec<MaybeRelocatable> =
                 vec![0.into(), 0.into(), 0.into(), 0.into(), 0.into()];
             let builtin_costs_ptr = vm.add_memory_segment();
-            vm.load_data(builtin_costs_ptr, &builtin_costs).unwrap();
+            vm.load_data(builtin_costs_ptr, &builtin_costs)
+                .map_err(CairoRunError::from)?;
 
             // Load extra data
             let core_program_end_ptr = (runner.program_base.unwrap() + program.data_len()).unwrap();
             let program_extra_data: Vec<MaybeRelocatable> =
                 vec![0x208B7FFF7FFF7FFE.into(), builtin_costs_ptr.into()];
             vm.load_data(core_program_end_ptr, &program_extra_data)
-                .unwrap();
+                .map_err(CairoRunError::from)?;
 
             // Load calldata
             let calldata_start = vm.add_memory_segment();
-            let calldata_end = vm.load_data(calldata_start, &args.to_vec()).unwrap();
+            let calldata_end = vm
+                .load_data(calldata_start, &args.to_vec())
+                .map_err(CairoRunError::from)?;
 
             // Create entrypoint_args
 
@@ -173,19 +174,17 @@ pub fn run_program(
             // We assume entrypoint 0 for only one function
             let mut run_resources = RunResources::default();
 
-            runner
-                .run_from_entrypoint(
-                    0,
-                    &entrypoint_args,
-                    &mut run_resources,
-                    true,
-                    Some(program.data_len() + program_extra_data.len()),
-                    &mut vm,
-                    &mut hint_processor,
-                )
-                .unwrap();
-
-            let _ = runner.relocate(&mut vm, true);
+            runner.run_from_entrypoint(
+                0,
+                &entrypoint_args,
+                &mut run_resources,
+                true,
+                Some(program.data_len() + program_extra_data.len()),
+                &mut vm,
+                &mut hint_processor,
+            )?;
+
+            runner.relocate(&mut vm, true)?;
 
             (vm, runner)
         }
-- 
2.43.0


From 3b1d7eacb315228aba2c2c9d8888c2cd115aaf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:37 +0000
Subject: [PATCH 17/20] fix: report the whole range-check segment when the run
 has no stop pointer

---
 src/cairo/runner/run.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cairo/runner/run.rs b/src/cairo/runner/run.rs
index 391f410..18d8a26 100644
--- a/src/cairo/runner/run.rs
+++ b/src/cairo/runner/run.rs
@@ -216,7 +216,10 @@ pub fn run_program(
         .get_range_check_builtin()
         .map(|builtin| {
             let (idx, stop_offset) = builtin.get_memory_segment_addresses();
-            let stop_offset = stop_offset.unwrap_or_default();
+            // The stop pointer is only known after returning from a Cairo 0 `main`.
+            let stop_offset = stop_offset
+                .or_else(|| vm.get_segment_size(idx))
+                .unwrap_or_default();
             let range_check_base =
                 (0..idx).fold(1, |acc, i| acc + vm.get_segment_size(i).unwrap_or_default());
             let range_check_end = range_check_base + stop_offset;
-- 
2.43.0


From a4de6dd2096f375151a4ef56b1a456595ba9577d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:19 +0000
Subject: [PATCH 18/20] fix: a Fibonacci RAP proof shorter than the claimed
 steps made the verifier panic

---
 src/starks/example/fibonacci_rap.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/starks/example/fibonacci_rap.rs b/src/starks/example/fibonacci_rap.rs
index f782944..5548482 100644
--- a/src/starks/example/fibonacci_rap.rs
+++ b/src/starks/example/fibonacci_rap.rs
@@ -51,7 +51,8 @@ where
         pub_inputs: &Self::PublicInputs,
         proof_options: &ProofOptions,
     ) -> Self {
-        let exemptions = 3 + trace_length - pub_inputs.steps - 1;
+        // A trace shorter than the claimed steps leaves no row exempted.
+        let exemptions = (trace_length + 2).saturating_sub(pub_inputs.steps);
 
         let context = AirContext {
             proof_options: proof_options.clone(),
-- 
2.43.0


From 73de410f929c2896fdd1105505c933e40db65eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:55 +0000
Subject: [PATCH 19/20] Revert "fix: a Fibonacci RAP proof shorter than the
 claimed steps made the verifier panic"

This reverts commit a4de6dd2096f375151a4ef56b1a456595ba9577d.
---
 src/starks/example/fibonacci_rap.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/starks/example/fibonacci_rap.rs b/src/starks/example/fibonacci_rap.rs
index 5548482..f782944 100644
--- a/src/starks/example/fibonacci_rap.rs
+++ b/src/starks/example/fibonacci_rap.rs
@@ -51,8 +51,7 @@ where
         pub_inputs: &Self::PublicInputs,
         proof_options: &ProofOptions,
     ) -> Self {
-        // A trace shorter than the claimed steps leaves no row exempted.
-        let exemptions = (trace_length + 2).saturating_sub(pub_inputs.steps);
+        let exemptions = 3 + trace_length - pub_inputs.steps - 1;
 
         let context = AirContext {
             proof_options: proof_options.clone(),
-- 
2.43.0


From da8376beae37f2170f2432e97f93b4bca3dc297c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:52 +0000
Subject: [PATCH 20/20] fix: check boundary constraints on the current row of
 the frame

---
 src/starks/verifier.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/starks/verifier.rs b/src/starks/verifier.rs
index 097df55..3f97cc8 100644
--- a/src/starks/verifier.rs
+++ b/src/starks/verifier.rs
@@ -228,6 +228,18 @@ fn step_2_verify_claimed_composition_polynomial<F: IsFFTField, A: AIR<Field = F>
     let boundary_term_degree_adjustment = composition_poly_degree_bound - trace_length;
     let number_of_b_constraints = boundary_constraints.constraints.len();
 
+    // Boundary constraints are about the current row, which need not be the first one of the frame.
+    let current_row = air
+        .context()
+        .transition_offsets
+        .iter()
+        .position(|offset| *offset == 0);
+    let current_row = match current_row {
+        Some(row) => row,
+        None if number_of_b_constraints == 0 => 0,
+        None => return false,
+    };
+
     // Following naming conventions from https://www.notamonadtutorial.com/diving-deep-fri/
     let (boundary_c_i_evaluations_num, mut boundary_c_i_evaluations_den): (
         Vec<FieldElement<F>>,
@@ -237,7 +249,8 @@ fn step_2_verify_claimed_composition_polynomial<F: IsFFTField, A: AIR<Field = F>
             let step = boundary_constraints.constraints[index].step;
             let point = &domain.trace_primitive_root.pow(step as u64);
             let trace_idx = boundary_constraints.constraints[index].col;
-            let trace_evaluation = &proof.trace_ood_frame_evaluations.get_row(0)[trace_idx];
+            let trace_evaluation =
+                &proof.trace_ood_frame_evaluations.get_row(current_row)[trace_idx];
             let boundary_zerofier_challenges_z_den = &challenges.z - point;
 
             let boundary_quotient_ood_evaluation_num =
-- 
2.43.0

