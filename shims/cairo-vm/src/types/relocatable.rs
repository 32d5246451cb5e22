use crate::felt::Felt252;
use std::ops::Add;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct Relocatable {
    pub segment_index: isize,
    pub offset: usize,
}

impl From<(isize, usize)> for Relocatable {
    fn from(v: (isize, usize)) -> Self {
        Relocatable { segment_index: v.0, offset: v.1 }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum MaybeRelocatable {
    RelocatableValue(Relocatable),
    Int(Felt252),
}

impl From<Relocatable> for MaybeRelocatable {
    fn from(v: Relocatable) -> Self {
        MaybeRelocatable::RelocatableValue(v)
    }
}
impl From<&Relocatable> for MaybeRelocatable {
    fn from(v: &Relocatable) -> Self {
        MaybeRelocatable::RelocatableValue(*v)
    }
}
impl From<usize> for MaybeRelocatable {
    fn from(v: usize) -> Self {
        MaybeRelocatable::Int(Felt252::from(v))
    }
}
impl From<Felt252> for MaybeRelocatable {
    fn from(v: Felt252) -> Self {
        MaybeRelocatable::Int(v)
    }
}

#[derive(Debug, Clone, PartialEq, Eq, thiserror::Error)]
#[error("math error: {0}")]
pub struct MathError(pub String);

impl Add<usize> for Relocatable {
    type Output = Result<Relocatable, MathError>;
    fn add(self, rhs: usize) -> Self::Output {
        self.offset
            .checked_add(rhs)
            .map(|offset| Relocatable { offset, ..self })
            .ok_or(MathError("overflow".into()))
    }
}
