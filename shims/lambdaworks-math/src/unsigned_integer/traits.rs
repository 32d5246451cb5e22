use std::fmt::Display;
use std::ops::{BitAnd, Shr, ShrAssign};

pub trait IsUnsignedInteger:
    Shr<usize, Output = Self>
    + ShrAssign<usize>
    + BitAnd<Output = Self>
    + Eq
    + Ord
    + From<u16>
    + Copy
    + Display
{
}

macro_rules! imp { ($($t:ty),*) => { $( impl IsUnsignedInteger for $t {} )* } }
imp!(u16, u32, u64, u128, usize);
