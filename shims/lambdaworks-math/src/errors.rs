use thiserror::Error;

#[derive(Error, Debug, PartialEq, Eq, Clone)]
pub enum ByteConversionError {
    #[error("from_be_bytes failed")]
    FromBEBytesError,
    #[error("from_le_bytes failed")]
    FromLEBytesError,
}

#[derive(Error, Debug, PartialEq, Eq, Clone)]
pub enum CreationError {
    #[error("Not a valid hex string")]
    InvalidHexString,
    #[error("Empty string")]
    EmptyString,
}

#[derive(Error, Debug, PartialEq, Eq, Clone)]
pub enum DeserializationError {
    #[error("Invalid amount of bytes")]
    InvalidAmountOfBytes,
    #[error("Field from bytes error")]
    FieldFromBytesError,
    #[error("Invalid value")]
    InvalidValue,
    #[error("Pointer size error")]
    PointerSizeError,
}

impl From<ByteConversionError> for DeserializationError {
    fn from(_: ByteConversionError) -> Self {
        DeserializationError::FieldFromBytesError
    }
}
