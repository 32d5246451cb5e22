use super::traits::{IsField, IsPrimeField};
use crate::errors::{CreationError, DeserializationError};
use crate::traits::{ByteConversion, Deserializable, Serializable};
use crate::unsigned_integer::element::UnsignedInteger;
use crate::unsigned_integer::traits::IsUnsignedInteger;
use std::fmt::{self, Debug, Display};
use std::hash::{Hash, Hasher};
use std::iter::{Product, Sum};
use std::ops::{Add, AddAssign, Div, DivAssign, Mul, MulAssign, Neg, Sub, SubAssign};

pub struct FieldElement<F: IsField> {
    value: F::BaseType,
}

impl<F: IsField> Clone for FieldElement<F> {
    fn clone(&self) -> Self {
        Self { value: self.value.clone() }
    }
}
impl<F: IsField> Copy for FieldElement<F> where F::BaseType: Copy {}
impl<F: IsField> PartialEq for FieldElement<F> {
    fn eq(&self, other: &Self) -> bool {
        F::eq(&self.value, &other.value)
    }
}
impl<F: IsField> Eq for FieldElement<F> {}
impl<F: IsField> Hash for FieldElement<F> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.value.hash(h)
    }
}
impl<F: IsField> Debug for FieldElement<F> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("FieldElement").field("value", &self.value).finish()
    }
}
impl<F: IsPrimeField> Display for FieldElement<F> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.representative())
    }
}
impl<F: IsField> Default for FieldElement<F> {
    fn default() -> Self {
        Self::zero()
    }
}

impl<F: IsField> From<&F::BaseType> for FieldElement<F> {
    fn from(value: &F::BaseType) -> Self {
        Self { value: F::from_base_type(value.clone()) }
    }
}
impl<F: IsField> From<u64> for FieldElement<F> {
    fn from(value: u64) -> Self {
        Self { value: F::from_u64(value) }
    }
}

impl<F: IsField> FieldElement<F> {
    pub fn new(value: F::BaseType) -> Self {
        Self { value: F::from_base_type(value) }
    }
    /// Wraps an already-reduced internal representation.
    pub fn from_raw_base(value: F::BaseType) -> Self {
        Self { value }
    }
    pub fn from_raw(value: &F::BaseType) -> Self {
        Self { value: value.clone() }
    }
    pub fn value(&self) -> &F::BaseType {
        &self.value
    }
    pub fn zero() -> Self {
        Self { value: F::zero() }
    }
    pub fn one() -> Self {
        Self { value: F::one() }
    }
    pub fn inv(&self) -> Self {
        Self { value: F::inv(&self.value) }
    }
    pub fn square(&self) -> Self {
        Self { value: F::square(&self.value) }
    }
    pub fn double(&self) -> Self {
        self + self
    }
    pub fn pow<T: IsUnsignedInteger>(&self, exponent: T) -> Self {
        Self { value: F::pow(&self.value, exponent) }
    }
    /// Batch inverse (Montgomery's trick); panics if any element is zero, as in the original.
    pub fn inplace_batch_inverse(numbers: &mut [Self]) {
        if numbers.is_empty() {
            return;
        }
        let count = numbers.len();
        let mut prod = Vec::with_capacity(count);
        prod.push(numbers[0].clone());
        for i in 1..count {
            let p = &prod[i - 1] * &numbers[i];
            prod.push(p);
        }
        let mut bi_inv = prod[count - 1].inv();
        for i in (1..count).rev() {
            let ai_inv = &bi_inv * &prod[i - 1];
            bi_inv = &bi_inv * &numbers[i];
            numbers[i] = ai_inv;
        }
        numbers[0] = bi_inv;
    }
}

impl<F: IsPrimeField> FieldElement<F> {
    pub fn representative(&self) -> F::RepresentativeType {
        F::representative(&self.value)
    }
}

impl<F: IsField> FieldElement<F> {
    /// Parses hexadecimal digits with an optional 0x prefix.
    pub fn from_hex(hex: &str) -> Result<Self, CreationError> {
        let v = hex.strip_prefix("0x").or(hex.strip_prefix("0X")).unwrap_or(hex);
        if v.is_empty() {
            return Err(CreationError::EmptyString);
        }
        let mut acc = Self::zero();
        let sixteen = Self::from(16u64);
        for c in v.chars() {
            let d = c.to_digit(16).ok_or(CreationError::InvalidHexString)?;
            acc = &acc * &sixteen + Self::from(d as u64);
        }
        Ok(acc)
    }
    pub fn from_hex_unchecked(hex: &str) -> Self {
        Self::from_hex(hex).expect("valid hex")
    }
}

macro_rules! ops {
    ($tr:ident, $f:ident, $tra:ident, $fa:ident) => {
        impl<F: IsField> $tr<&FieldElement<F>> for &FieldElement<F> {
            type Output = FieldElement<F>;
            fn $f(self, rhs: &FieldElement<F>) -> FieldElement<F> {
                #[cfg(feature = "yield")]
                crate::yield_point();
                FieldElement { value: F::$f(&self.value, &rhs.value) }
            }
        }
        impl<F: IsField> $tr<FieldElement<F>> for FieldElement<F> {
            type Output = FieldElement<F>;
            fn $f(self, rhs: FieldElement<F>) -> FieldElement<F> { (&self).$f(&rhs) }
        }
        impl<F: IsField> $tr<&FieldElement<F>> for FieldElement<F> {
            type Output = FieldElement<F>;
            fn $f(self, rhs: &FieldElement<F>) -> FieldElement<F> { (&self).$f(rhs) }
        }
        impl<F: IsField> $tr<FieldElement<F>> for &FieldElement<F> {
            type Output = FieldElement<F>;
            fn $f(self, rhs: FieldElement<F>) -> FieldElement<F> { self.$f(&rhs) }
        }
        impl<F: IsField> $tra<FieldElement<F>> for FieldElement<F> {
            fn $fa(&mut self, rhs: FieldElement<F>) { self.value = F::$f(&self.value, &rhs.value); }
        }
        impl<F: IsField> $tra<&FieldElement<F>> for FieldElement<F> {
            fn $fa(&mut self, rhs: &FieldElement<F>) { self.value = F::$f(&self.value, &rhs.value); }
        }
    };
}
ops!(Add, add, AddAssign, add_assign);
ops!(Sub, sub, SubAssign, sub_assign);
ops!(Mul, mul, MulAssign, mul_assign);
ops!(Div, div, DivAssign, div_assign);

impl<F: IsField> Neg for &FieldElement<F> {
    type Output = FieldElement<F>;
    fn neg(self) -> FieldElement<F> {
        FieldElement { value: F::neg(&self.value) }
    }
}
impl<F: IsField> Neg for FieldElement<F> {
    type Output = FieldElement<F>;
    fn neg(self) -> FieldElement<F> {
        -&self
    }
}
impl<F: IsField> Sum for FieldElement<F> {
    fn sum<I: Iterator<Item = Self>>(iter: I) -> Self {
        iter.fold(Self::zero(), |a, b| a + b)
    }
}
impl<'a, F: IsField> Sum<&'a FieldElement<F>> for FieldElement<F> {
    fn sum<I: Iterator<Item = &'a Self>>(iter: I) -> Self {
        iter.fold(Self::zero(), |a, b| a + b)
    }
}
impl<F: IsField> Product for FieldElement<F> {
    fn product<I: Iterator<Item = Self>>(iter: I) -> Self {
        iter.fold(Self::one(), |a, b| a * b)
    }
}

impl<'a, F: IsField> Product<&'a FieldElement<F>> for FieldElement<F> {
    fn product<I: Iterator<Item = &'a Self>>(iter: I) -> Self {
        iter.fold(Self::one(), |a, b| a * b)
    }
}
impl<F: IsField> Serializable for FieldElement<F>
where
    FieldElement<F>: ByteConversion,
{
    fn serialize(&self) -> Vec<u8> {
        ByteConversion::to_bytes_be(self)
    }
}
impl<F: IsField> Deserializable for FieldElement<F>
where
    FieldElement<F>: ByteConversion,
{
    fn deserialize(bytes: &[u8]) -> Result<Self, DeserializationError> {
        Ok(<Self as ByteConversion>::from_bytes_be(bytes)?)
    }
}

impl<const N: usize, F> From<&FieldElement<F>> for UnsignedInteger<N>
where
    F: IsPrimeField<RepresentativeType = UnsignedInteger<N>>,
{
    fn from(v: &FieldElement<F>) -> Self {
        v.representative()
    }
}
