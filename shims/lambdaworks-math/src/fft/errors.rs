use thiserror::Error;

#[derive(Debug, Error, Clone, PartialEq, Eq)]
pub enum FFTError {
    #[error("Could not calculate primitive root of unity, order {0}")]
    RootOfUnityError(u64),
    #[error("Input length is {0}, which is not a power of two")]
    InputError(usize),
    #[error("Domain size error")]
    DomainSizeError(usize),
}
