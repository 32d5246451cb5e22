use super::traits::IsUnsignedInteger;
use crate::errors::{ByteConversionError, CreationError};
use crate::traits::ByteConversion;
use std::fmt::{self, Debug, Display};
use std::ops::{Add, AddAssign, BitAnd, BitOr, BitXor, Mul, MulAssign, Shl, ShlAssign, Shr, ShrAssign, Sub, SubAssign};

pub type U384 = UnsignedInteger<6>;
pub type U256 = UnsignedInteger<4>;

/// Big-endian limbs (limbs[0] is the most significant one).
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct UnsignedInteger<const N: usize> {
    pub limbs: [u64; N],
}

impl<const N: usize> Default for UnsignedInteger<N> {
    fn default() -> Self {
        Self { limbs: [0; N] }
    }
}

impl<const N: usize> UnsignedInteger<N> {
    pub const fn from_limbs(limbs: [u64; N]) -> Self {
        Self { limbs }
    }

    pub const fn from_u64(value: u64) -> Self {
        let mut limbs = [0u64; N];
        limbs[N - 1] = value;
        Self { limbs }
    }

    pub const fn from_u128(value: u128) -> Self {
        let mut limbs = [0u64; N];
        limbs[N - 1] = value as u64;
        if N > 1 {
            limbs[N - 2] = (value >> 64) as u64;
        }
        Self { limbs }
    }

    pub const fn from(value: &str) -> Self {
        Self::from_hex_unchecked(value)
    }

    pub const fn from_hex_unchecked(value: &str) -> Self {
        let b = value.as_bytes();
        let mut start = 0;
        if b.len() > 2 && b[0] == b'0' && (b[1] == b'x' || b[1] == b'X') {
            start = 2;
        }
        let mut limbs = [0u64; N];
        let mut i = b.len();
        let mut pos = 0;
        while i > start {
            i -= 1;
            let c = b[i];
            let d = match c {
                b'0'..=b'9' => c - b'0',
                b'a'..=b'f' => c - b'a' + 10,
                b'A'..=b'F' => c - b'A' + 10,
                _ => panic!("Malformed hex expression."),
            } as u64;
            let limb = pos / 16;
            if limb < N {
                limbs[N - 1 - limb] |= d << ((pos % 16) * 4);
            }
            pos += 1;
        }
        Self { limbs }
    }

    pub fn from_hex(value: &str) -> Result<Self, CreationError> {
        let v = value.strip_prefix("0x").or(value.strip_prefix("0X")).unwrap_or(value);
        if v.is_empty() {
            return Err(CreationError::EmptyString);
        }
        if !v.bytes().all(|c| c.is_ascii_hexdigit()) {
            return Err(CreationError::InvalidHexString);
        }
        Ok(Self::from_hex_unchecked(v))
    }

    pub fn from_dec_str(value: &str) -> Result<Self, CreationError> {
        if value.is_empty() {
            return Err(CreationError::InvalidHexString);
        }
        let mut res = Self::from_u64(0);
        for c in value.bytes() {
            if !c.is_ascii_digit() {
                return Err(CreationError::InvalidHexString);
            }
            res = res.mul_small(10).0;
            res = Self::add(&res, &Self::from_u64((c - b'0') as u64)).0;
        }
        Ok(res)
    }

    pub fn to_hex(&self) -> String {
        let s: String = self.limbs.iter().map(|l| format!("{l:016x}")).collect();
        let t = s.trim_start_matches('0').to_uppercase();
        if t.is_empty() { "0".to_string() } else { t }
    }

    fn mul_small(&self, m: u64) -> (Self, u64) {
        let mut limbs = [0u64; N];
        let mut carry = 0u128;
        for i in (0..N).rev() {
            let t = self.limbs[i] as u128 * m as u128 + carry;
            limbs[i] = t as u64;
            carry = t >> 64;
        }
        (Self { limbs }, carry as u64)
    }

    pub const fn add(a: &Self, b: &Self) -> (Self, bool) {
        let mut limbs = [0u64; N];
        let mut carry = 0u128;
        let mut i = N;
        while i > 0 {
            i -= 1;
            let t = a.limbs[i] as u128 + b.limbs[i] as u128 + carry;
            limbs[i] = t as u64;
            carry = t >> 64;
        }
        (Self { limbs }, carry > 0)
    }

    pub const fn sub(a: &Self, b: &Self) -> (Self, bool) {
        let mut limbs = [0u64; N];
        let mut borrow = false;
        let mut i = N;
        while i > 0 {
            i -= 1;
            let (x, b1) = a.limbs[i].overflowing_sub(b.limbs[i]);
            let (y, b2) = x.overflowing_sub(borrow as u64);
            limbs[i] = y;
            borrow = b1 || b2;
        }
        (Self { limbs }, borrow)
    }

    pub const fn const_lt(a: &Self, b: &Self) -> bool {
        let mut i = 0;
        while i < N {
            if a.limbs[i] != b.limbs[i] {
                return a.limbs[i] < b.limbs[i];
            }
            i += 1;
        }
        false
    }

    pub const fn num_bits(&self) -> usize {
        let mut i = 0;
        while i < N {
            if self.limbs[i] != 0 {
                return (N - i) * 64 - self.limbs[i].leading_zeros() as usize;
            }
            i += 1;
        }
        0
    }
}

impl<const N: usize> From<u128> for UnsignedInteger<N> {
    fn from(v: u128) -> Self {
        Self::from_u128(v)
    }
}
impl<const N: usize> From<u64> for UnsignedInteger<N> {
    fn from(v: u64) -> Self {
        Self::from_u64(v)
    }
}
impl<const N: usize> From<u16> for UnsignedInteger<N> {
    fn from(v: u16) -> Self {
        Self::from_u64(v as u64)
    }
}
impl<const N: usize> From<UnsignedInteger<N>> for u16 {
    fn from(v: UnsignedInteger<N>) -> u16 {
        v.limbs[N - 1] as u16
    }
}
impl<const N: usize> From<&str> for UnsignedInteger<N> {
    fn from(v: &str) -> Self {
        Self::from_hex_unchecked(v)
    }
}

impl<const N: usize> Debug for UnsignedInteger<N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "0x{}", self.to_hex())
    }
}
impl<const N: usize> Display for UnsignedInteger<N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "0x{}", self.to_hex().to_lowercase())
    }
}

impl<const N: usize> Shl<usize> for UnsignedInteger<N> {
    type Output = Self;
    fn shl(self, times: usize) -> Self {
        let mut limbs = [0u64; N];
        let (l, b) = (times / 64, times % 64);
        for i in 0..N {
            let src = i + l;
            if src < N {
                limbs[i] = self.limbs[src] << b;
                if b > 0 && src + 1 < N {
                    limbs[i] |= self.limbs[src + 1] >> (64 - b);
                }
            }
        }
        Self { limbs }
    }
}
impl<const N: usize> Shl<usize> for &UnsignedInteger<N> {
    type Output = UnsignedInteger<N>;
    fn shl(self, times: usize) -> UnsignedInteger<N> {
        *self << times
    }
}
impl<const N: usize> Shr<usize> for UnsignedInteger<N> {
    type Output = Self;
    fn shr(self, times: usize) -> Self {
        let mut limbs = [0u64; N];
        let (l, b) = (times / 64, times % 64);
        for i in 0..N {
            if i >= l {
                let src = i - l;
                limbs[i] = self.limbs[src] >> b;
                if b > 0 && src > 0 {
                    limbs[i] |= self.limbs[src - 1] << (64 - b);
                }
            }
        }
        Self { limbs }
    }
}
impl<const N: usize> Shr<usize> for &UnsignedInteger<N> {
    type Output = UnsignedInteger<N>;
    fn shr(self, times: usize) -> UnsignedInteger<N> {
        *self >> times
    }
}
impl<const N: usize> ShrAssign<usize> for UnsignedInteger<N> {
    fn shr_assign(&mut self, times: usize) {
        *self = *self >> times;
    }
}

macro_rules! bitop {
    ($tr:ident, $f:ident, $op:tt) => {
        impl<const N: usize> $tr for UnsignedInteger<N> {
            type Output = Self;
            fn $f(self, rhs: Self) -> Self {
                let mut limbs = [0u64; N];
                for i in 0..N { limbs[i] = self.limbs[i] $op rhs.limbs[i]; }
                Self { limbs }
            }
        }
        impl<const N: usize> $tr<&UnsignedInteger<N>> for UnsignedInteger<N> {
            type Output = Self;
            fn $f(self, rhs: &Self) -> Self { <Self as $tr>::$f(self, *rhs) }
        }
        impl<const N: usize> $tr<UnsignedInteger<N>> for &UnsignedInteger<N> {
            type Output = UnsignedInteger<N>;
            fn $f(self, rhs: UnsignedInteger<N>) -> UnsignedInteger<N> { <UnsignedInteger<N> as $tr>::$f(*self, rhs) }
        }
        impl<const N: usize> $tr<&UnsignedInteger<N>> for &UnsignedInteger<N> {
            type Output = UnsignedInteger<N>;
            fn $f(self, rhs: &UnsignedInteger<N>) -> UnsignedInteger<N> { <UnsignedInteger<N> as $tr>::$f(*self, *rhs) }
        }
    };
}
bitop!(BitAnd, bitand, &);
bitop!(BitOr, bitor, |);
bitop!(BitXor, bitxor, ^);

macro_rules! arith {
    ($tr:ident, $f:ident, $e:expr) => {
        impl<const N: usize> $tr for UnsignedInteger<N> {
            type Output = Self;
            fn $f(self, rhs: Self) -> Self { let g: fn(&Self, &Self) -> Self = $e; g(&self, &rhs) }
        }
        impl<const N: usize> $tr<&UnsignedInteger<N>> for UnsignedInteger<N> {
            type Output = Self;
            fn $f(self, rhs: &Self) -> Self { <Self as $tr>::$f(self, *rhs) }
        }
        impl<const N: usize> $tr<UnsignedInteger<N>> for &UnsignedInteger<N> {
            type Output = UnsignedInteger<N>;
            fn $f(self, rhs: UnsignedInteger<N>) -> UnsignedInteger<N> { <UnsignedInteger<N> as $tr>::$f(*self, rhs) }
        }
        impl<const N: usize> $tr<&UnsignedInteger<N>> for &UnsignedInteger<N> {
            type Output = UnsignedInteger<N>;
            fn $f(self, rhs: &UnsignedInteger<N>) -> UnsignedInteger<N> { <UnsignedInteger<N> as $tr>::$f(*self, *rhs) }
        }
    };
}
arith!(Add, add, |a, b| { let (r, o) = Self::add(a, b); debug_assert!(!o, "UnsignedInteger addition overflow"); r });
arith!(Sub, sub, |a, b| { let (r, o) = Self::sub(a, b); debug_assert!(!o, "UnsignedInteger subtraction overflow"); r });
arith!(Mul, mul, |a, b| {
    let mut acc = Self::from_u64(0);
    for i in 0..N {
        let (p, _) = a.mul_small(b.limbs[N - 1 - i]);
        acc = Self::add(&acc, &(p << (64 * i))).0;
    }
    acc
});

impl<const N: usize> AddAssign for UnsignedInteger<N> {
    fn add_assign(&mut self, rhs: Self) {
        *self = *self + rhs;
    }
}
impl<const N: usize> SubAssign for UnsignedInteger<N> {
    fn sub_assign(&mut self, rhs: Self) {
        *self = *self - rhs;
    }
}
impl<const N: usize> MulAssign for UnsignedInteger<N> {
    fn mul_assign(&mut self, rhs: Self) {
        *self = *self * rhs;
    }
}
impl<const N: usize> ShlAssign<usize> for UnsignedInteger<N> {
    fn shl_assign(&mut self, times: usize) {
        *self = *self << times;
    }
}

impl<const N: usize> IsUnsignedInteger for UnsignedInteger<N> {}

impl<const N: usize> ByteConversion for UnsignedInteger<N> {
    fn to_bytes_be(&self) -> Vec<u8> {
        self.limbs.iter().flat_map(|l| l.to_be_bytes()).collect()
    }
    fn to_bytes_le(&self) -> Vec<u8> {
        self.limbs.iter().rev().flat_map(|l| l.to_le_bytes()).collect()
    }
    fn from_bytes_be(bytes: &[u8]) -> Result<Self, ByteConversionError> {
        let mut limbs = [0u64; N];
        for (i, l) in limbs.iter_mut().enumerate() {
            let b = bytes.get(i * 8..i * 8 + 8).ok_or(ByteConversionError::FromBEBytesError)?;
            *l = u64::from_be_bytes(b.try_into().unwrap());
        }
        Ok(Self { limbs })
    }
    fn from_bytes_le(bytes: &[u8]) -> Result<Self, ByteConversionError> {
        let mut limbs = [0u64; N];
        for i in 0..N {
            let b = bytes.get(i * 8..i * 8 + 8).ok_or(ByteConversionError::FromLEBytesError)?;
            limbs[N - 1 - i] = u64::from_le_bytes(b.try_into().unwrap());
        }
        Ok(Self { limbs })
    }
}
