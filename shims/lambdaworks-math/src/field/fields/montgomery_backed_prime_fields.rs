use crate::errors::ByteConversionError;
use crate::field::element::FieldElement;
use crate::field::traits::{IsField, IsPrimeField};
use crate::traits::ByteConversion;
use crate::unsigned_integer::element::UnsignedInteger;
use std::fmt::Debug;
use std::marker::PhantomData;

pub type U256PrimeField<M> = MontgomeryBackendPrimeField<M, 4>;
pub type U384PrimeField<M> = MontgomeryBackendPrimeField<M, 6>;

pub trait IsModulus<U>: Debug {
    const MODULUS: U;
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash)]
pub struct MontgomeryBackendPrimeField<M, const N: usize> {
    phantom: PhantomData<M>,
}

const fn double_mod<const N: usize>(a: &UnsignedInteger<N>, m: &UnsignedInteger<N>) -> UnsignedInteger<N> {
    let (s, over) = UnsignedInteger::<N>::add(a, a);
    if over || !UnsignedInteger::<N>::const_lt(&s, m) {
        UnsignedInteger::<N>::sub(&s, m).0
    } else {
        s
    }
}

impl<M, const N: usize> MontgomeryBackendPrimeField<M, N>
where
    M: IsModulus<UnsignedInteger<N>>,
{
    const MU: u64 = {
        // -m^{-1} mod 2^64
        let m = M::MODULUS.limbs[N - 1];
        let mut y = 1u64;
        let mut i = 0;
        while i < 6 {
            y = y.wrapping_mul(2u64.wrapping_sub(m.wrapping_mul(y)));
            i += 1;
        }
        y.wrapping_neg()
    };
    const R1: UnsignedInteger<N> = {
        let m = M::MODULUS;
        let mut r = UnsignedInteger::<N>::from_u64(1);
        let mut i = 0;
        while i < 64 * N {
            r = double_mod(&r, &m);
            i += 1;
        }
        r
    };
    const R2: UnsignedInteger<N> = {
        let m = M::MODULUS;
        let mut r = Self::R1;
        let mut i = 0;
        while i < 64 * N {
            r = double_mod(&r, &m);
            i += 1;
        }
        r
    };

    pub const fn mont_mul(a: &UnsignedInteger<N>, b: &UnsignedInteger<N>) -> UnsignedInteger<N> {
        // CIOS, little-endian limb index i -> limbs[N-1-i]
        let m = M::MODULUS;
        let mut t = [0u64; N];
        let mut t_n: u64 = 0;
        let mut i = 0;
        while i < N {
            let bi = b.limbs[N - 1 - i] as u128;
            let mut c: u128 = 0;
            let mut j = 0;
            while j < N {
                let s = t[j] as u128 + a.limbs[N - 1 - j] as u128 * bi + c;
                t[j] = s as u64;
                c = s >> 64;
                j += 1;
            }
            let s = t_n as u128 + c;
            t_n = s as u64;
            let t_n1 = (s >> 64) as u64;
            let q = t[0].wrapping_mul(Self::MU) as u128;
            let mut c = (t[0] as u128 + q * m.limbs[N - 1] as u128) >> 64;
            let mut j = 1;
            while j < N {
                let s = t[j] as u128 + q * m.limbs[N - 1 - j] as u128 + c;
                t[j - 1] = s as u64;
                c = s >> 64;
                j += 1;
            }
            let s = t_n as u128 + c;
            t[N - 1] = s as u64;
            t_n = t_n1 + (s >> 64) as u64;
            i += 1;
        }
        let mut limbs = [0u64; N];
        let mut j = 0;
        while j < N {
            limbs[N - 1 - j] = t[j];
            j += 1;
        }
        let r = UnsignedInteger::<N>::from_limbs(limbs);
        if t_n > 0 || !UnsignedInteger::<N>::const_lt(&r, &m) {
            UnsignedInteger::<N>::sub(&r, &m).0
        } else {
            r
        }
    }

    pub const fn to_mont(a: &UnsignedInteger<N>) -> UnsignedInteger<N> {
        Self::mont_mul(a, &Self::R2)
    }
    pub const fn from_mont(a: &UnsignedInteger<N>) -> UnsignedInteger<N> {
        Self::mont_mul(a, &UnsignedInteger::<N>::from_u64(1))
    }
}

impl<M, const N: usize> IsField for MontgomeryBackendPrimeField<M, N>
where
    M: IsModulus<UnsignedInteger<N>> + Clone + Debug,
{
    type BaseType = UnsignedInteger<N>;

    #[inline(always)]
    fn add(a: &Self::BaseType, b: &Self::BaseType) -> Self::BaseType {
        let (s, over) = UnsignedInteger::<N>::add(a, b);
        if over || !UnsignedInteger::<N>::const_lt(&s, &M::MODULUS) {
            UnsignedInteger::<N>::sub(&s, &M::MODULUS).0
        } else {
            s
        }
    }
    #[inline(always)]
    fn sub(a: &Self::BaseType, b: &Self::BaseType) -> Self::BaseType {
        let (d, borrow) = UnsignedInteger::<N>::sub(a, b);
        if borrow {
            UnsignedInteger::<N>::add(&d, &M::MODULUS).0
        } else {
            d
        }
    }
    #[inline(always)]
    fn mul(a: &Self::BaseType, b: &Self::BaseType) -> Self::BaseType {
        Self::mont_mul(a, b)
    }
    fn inv(a: &Self::BaseType) -> Self::BaseType {
        assert!(*a != UnsignedInteger::<N>::from_u64(0), "Cannot invert zero element");
        let e = UnsignedInteger::<N>::sub(&M::MODULUS, &UnsignedInteger::<N>::from_u64(2)).0;
        Self::pow(a, e)
    }
    fn zero() -> Self::BaseType {
        UnsignedInteger::<N>::from_u64(0)
    }
    fn one() -> Self::BaseType {
        Self::R1
    }
    fn from_u64(x: u64) -> Self::BaseType {
        Self::to_mont(&UnsignedInteger::<N>::from_u64(x))
    }
    fn from_base_type(x: Self::BaseType) -> Self::BaseType {
        Self::to_mont(&x)
    }
}

impl<M, const N: usize> IsPrimeField for MontgomeryBackendPrimeField<M, N>
where
    M: IsModulus<UnsignedInteger<N>> + Clone + Debug,
{
    type RepresentativeType = UnsignedInteger<N>;
    fn representative(a: &Self::BaseType) -> UnsignedInteger<N> {
        Self::from_mont(a)
    }
    fn field_bit_size() -> usize {
        UnsignedInteger::<N>::sub(&M::MODULUS, &UnsignedInteger::<N>::from_u64(1)).0.num_bits()
    }
}

impl<M, const N: usize> ByteConversion for FieldElement<MontgomeryBackendPrimeField<M, N>>
where
    M: IsModulus<UnsignedInteger<N>> + Clone + Debug,
{
    fn to_bytes_be(&self) -> Vec<u8> {
        self.representative().to_bytes_be()
    }
    fn to_bytes_le(&self) -> Vec<u8> {
        self.representative().to_bytes_le()
    }
    fn from_bytes_be(bytes: &[u8]) -> Result<Self, ByteConversionError> {
        Ok(Self::new(UnsignedInteger::from_bytes_be(bytes)?))
    }
    fn from_bytes_le(bytes: &[u8]) -> Result<Self, ByteConversionError> {
        Ok(Self::new(UnsignedInteger::from_bytes_le(bytes)?))
    }
}
