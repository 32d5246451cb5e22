//! 2^64 - 2^32 + 1 as a plain u64 prime field.
use crate::field::fields::u64_prime_field::U64PrimeField;
pub type F64 = U64PrimeField<18446744069414584321>;
