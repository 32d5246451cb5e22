use crate::field::element::FieldElement;
use crate::field::fields::montgomery_backed_prime_fields::{IsModulus, MontgomeryBackendPrimeField, U256PrimeField};
use crate::field::traits::IsFFTField;
use crate::traits::ByteConversion;
use crate::unsigned_integer::element::{UnsignedInteger, U256};

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash)]
pub struct MontgomeryConfigStark252PrimeField;
impl IsModulus<U256> for MontgomeryConfigStark252PrimeField {
    const MODULUS: U256 =
        U256::from_hex_unchecked("800000000000011000000000000000000000000000000000000000000000001");
}

pub type Stark252PrimeField = U256PrimeField<MontgomeryConfigStark252PrimeField>;

impl IsFFTField for Stark252PrimeField {
    const TWO_ADICITY: u64 = 192;
    const TWO_ADIC_PRIMITVE_ROOT_OF_UNITY: U256 =
        MontgomeryBackendPrimeField::<MontgomeryConfigStark252PrimeField, 4>::to_mont(
            &UnsignedInteger::from_hex_unchecked(
                "5282db87529cfa3f0464519c8b0fa5ad187148e11a61616070024f42f8ef94",
            ),
        );
}

impl FieldElement<Stark252PrimeField> {
    pub fn to_bytes_le(&self) -> [u8; 32] {
        self.representative().to_bytes_le().try_into().unwrap()
    }
    pub fn to_bytes_be(&self) -> [u8; 32] {
        self.representative().to_bytes_be().try_into().unwrap()
    }
    pub fn to_bits_le(&self) -> [bool; 256] {
        let r = self.representative();
        let mut bits = [false; 256];
        for (i, b) in bits.iter_mut().enumerate() {
            *b = (r.limbs[3 - i / 64] >> (i % 64)) & 1 == 1;
        }
        bits
    }
}
