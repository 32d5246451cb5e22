#[derive(Debug, Clone, PartialEq, Eq)]
pub enum FieldError {
    DivisionByZero,
    RootOfUnityError(String, u64),
    InvZeroError,
}
