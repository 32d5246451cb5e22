use crate::errors::ByteConversionError;
use crate::field::element::FieldElement;
use crate::field::traits::{IsFFTField, IsField, IsPrimeField};
use crate::traits::ByteConversion;

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct U64PrimeField<const MODULUS: u64>;

pub type F17 = U64PrimeField<17>;
pub type FE17 = FieldElement<F17>;

const fn mulmod(a: u64, b: u64, m: u64) -> u64 {
    ((a as u128 * b as u128) % m as u128) as u64
}
const fn powmod(a: u64, mut e: u64, m: u64) -> u64 {
    let mut r = 1 % m;
    let mut b = a % m;
    while e > 0 {
        if e & 1 == 1 {
            r = mulmod(r, b, m);
        }
        b = mulmod(b, b, m);
        e >>= 1;
    }
    r
}
/// An element of order exactly 2^TWO_ADICITY: g^((p-1)/2^s) for the first quadratic non-residue g.
const fn two_adic_root(m: u64) -> u64 {
    let s = (m - 1).trailing_zeros();
    let odd = (m - 1) >> s;
    let mut g = 2;
    while g < m {
        if powmod(g, (m - 1) / 2, m) == m - 1 {
            return powmod(g, odd, m);
        }
        g += 1;
    }
    1
}

impl<const MODULUS: u64> IsField for U64PrimeField<MODULUS> {
    type BaseType = u64;

    fn add(a: &u64, b: &u64) -> u64 {
        let (s, o) = a.overflowing_add(*b);
        if o || s >= MODULUS { s.wrapping_sub(MODULUS) } else { s }
    }
    fn sub(a: &u64, b: &u64) -> u64 {
        let (s, o) = a.overflowing_sub(*b);
        if o { s.wrapping_add(MODULUS) } else { s }
    }
    fn mul(a: &u64, b: &u64) -> u64 {
        if MODULUS < (1 << 32) { (*a * *b) % MODULUS } else { mulmod(*a, *b, MODULUS) }
    }
    fn inv(a: &u64) -> u64 {
        assert_ne!(*a, 0, "Cannot invert zero element");
        powmod(*a, MODULUS - 2, MODULUS)
    }
    fn zero() -> u64 {
        0
    }
    fn one() -> u64 {
        1
    }
    fn from_u64(x: u64) -> u64 {
        x % MODULUS
    }
    fn from_base_type(x: u64) -> u64 {
        x % MODULUS
    }
}

impl<const MODULUS: u64> IsPrimeField for U64PrimeField<MODULUS> {
    type RepresentativeType = u64;
    fn representative(a: &u64) -> u64 {
        *a
    }
    fn field_bit_size() -> usize {
        64 - (MODULUS - 1).leading_zeros() as usize
    }
}

impl<const MODULUS: u64> IsFFTField for U64PrimeField<MODULUS> {
    const TWO_ADICITY: u64 = (MODULUS - 1).trailing_zeros() as u64;
    const TWO_ADIC_PRIMITVE_ROOT_OF_UNITY: u64 = two_adic_root(MODULUS);
}

/// 8-byte encodings; longer slices are read as one big-endian (little-endian) number mod p.
impl<const MODULUS: u64> ByteConversion for FieldElement<U64PrimeField<MODULUS>> {
    fn to_bytes_be(&self) -> Vec<u8> {
        self.value().to_be_bytes().to_vec()
    }
    fn to_bytes_le(&self) -> Vec<u8> {
        self.value().to_le_bytes().to_vec()
    }
    fn from_bytes_be(bytes: &[u8]) -> Result<Self, ByteConversionError> {
        if bytes.len() < 8 {
            return Err(ByteConversionError::FromBEBytesError);
        }
        let v = bytes.iter().fold(0u64, |acc, b| {
            ((acc as u128 * 256 + *b as u128) % MODULUS as u128) as u64
        });
        Ok(Self::from(v))
    }
    fn from_bytes_le(bytes: &[u8]) -> Result<Self, ByteConversionError> {
        if bytes.len() < 8 {
            return Err(ByteConversionError::FromLEBytesError);
        }
        let v = bytes.iter().rev().fold(0u64, |acc, b| {
            ((acc as u128 * 256 + *b as u128) % MODULUS as u128) as u64
        });
        Ok(Self::from(v))
    }
}
