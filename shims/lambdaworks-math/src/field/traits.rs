use super::element::FieldElement;
use crate::fft::errors::FFTError;
use crate::unsigned_integer::traits::IsUnsignedInteger;
use std::fmt::Debug;
use std::hash::Hash;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RootsConfig {
    Natural,
    NaturalInversed,
    BitReverse,
    BitReverseInversed,
}

pub trait IsField: Debug + Clone {
    type BaseType: Clone + Debug + Unpin + Hash + Eq;

    fn add(a: &Self::BaseType, b: &Self::BaseType) -> Self::BaseType;
    fn mul(a: &Self::BaseType, b: &Self::BaseType) -> Self::BaseType;
    fn sub(a: &Self::BaseType, b: &Self::BaseType) -> Self::BaseType;
    fn neg(a: &Self::BaseType) -> Self::BaseType {
        Self::sub(&Self::zero(), a)
    }
    /// Panics on zero, as in the original.
    fn inv(a: &Self::BaseType) -> Self::BaseType;
    fn div(a: &Self::BaseType, b: &Self::BaseType) -> Self::BaseType {
        Self::mul(a, &Self::inv(b))
    }
    fn eq(a: &Self::BaseType, b: &Self::BaseType) -> bool {
        a == b
    }
    fn zero() -> Self::BaseType;
    fn one() -> Self::BaseType;
    fn from_u64(x: u64) -> Self::BaseType;
    fn from_base_type(x: Self::BaseType) -> Self::BaseType;

    fn square(a: &Self::BaseType) -> Self::BaseType {
        Self::mul(a, a)
    }

    fn pow<T: IsUnsignedInteger>(a: &Self::BaseType, mut exponent: T) -> Self::BaseType {
        let zero = T::from(0u16);
        let one = T::from(1u16);
        let mut result = Self::one();
        let mut base = a.clone();
        while exponent != zero {
            if exponent & one == one {
                result = Self::mul(&result, &base);
            }
            exponent >>= 1;
            if exponent != zero {
                base = Self::square(&base);
            }
        }
        result
    }
}

pub trait IsPrimeField: IsField {
    type RepresentativeType: IsUnsignedInteger;

    fn representative(a: &Self::BaseType) -> Self::RepresentativeType;

    fn modulus_minus_one() -> Self::RepresentativeType {
        Self::representative(&Self::neg(&Self::one()))
    }

    fn field_bit_size() -> usize {
        let mut n = 0;
        let zero = Self::RepresentativeType::from(0u16);
        let mut m = Self::modulus_minus_one();
        while m != zero {
            m >>= 1;
            n += 1;
        }
        n
    }
}

pub trait IsFFTField: IsPrimeField {
    const TWO_ADICITY: u64;
    const TWO_ADIC_PRIMITVE_ROOT_OF_UNITY: Self::BaseType;

    fn get_primitive_root_of_unity(order: u64) -> Result<FieldElement<Self>, FFTError> {
        let root = FieldElement::<Self>::from_raw_base(Self::TWO_ADIC_PRIMITVE_ROOT_OF_UNITY.clone());
        if order == 0 {
            return Ok(FieldElement::one());
        }
        if order > Self::TWO_ADICITY {
            return Err(FFTError::RootOfUnityError(order));
        }
        let mut r = root;
        for _ in 0..(Self::TWO_ADICITY - order) {
            r = r.square();
        }
        Ok(r)
    }
}
