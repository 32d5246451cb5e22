use crate::merkle_tree::traits::IsMerkleTreeBackend;
use lambdaworks_math::field::{element::FieldElement, traits::IsField};
use lambdaworks_math::traits::ByteConversion;
use sha3::digest::{generic_array::GenericArray, OutputSizeUser};
use sha3::Digest;
use std::marker::PhantomData;

#[derive(Clone)]
pub struct FieldElementBackend<F, D: Digest, const NUM_BYTES: usize> {
    phantom1: PhantomData<F>,
    phantom2: PhantomData<D>,
}

impl<F, D: Digest, const NUM_BYTES: usize> Default for FieldElementBackend<F, D, NUM_BYTES> {
    fn default() -> Self {
        Self { phantom1: PhantomData, phantom2: PhantomData }
    }
}

impl<F, D: Digest, const NUM_BYTES: usize> IsMerkleTreeBackend for FieldElementBackend<F, D, NUM_BYTES>
where
    F: IsField,
    FieldElement<F>: ByteConversion,
    [u8; NUM_BYTES]: From<GenericArray<u8, <D as OutputSizeUser>::OutputSize>>,
{
    type Node = [u8; NUM_BYTES];
    type Data = FieldElement<F>;

    fn hash_data(input: &FieldElement<F>) -> [u8; NUM_BYTES] {
        let mut hasher = D::new();
        hasher.update(ByteConversion::to_bytes_be(input));
        hasher.finalize().into()
    }
    fn hash_new_parent(left: &[u8; NUM_BYTES], right: &[u8; NUM_BYTES]) -> [u8; NUM_BYTES] {
        let mut hasher = D::new();
        hasher.update(left);
        hasher.update(right);
        hasher.finalize().into()
    }
}
