use std::fmt;
#[derive(Clone, Debug, Eq, Hash, Ord, PartialEq, PartialOrd)]
pub struct ValidationError {
    kind: ValidationErrorKind,
}
impl ValidationError {
    pub fn new(kind: ValidationErrorKind) -> Self { Self { kind } }
    pub fn kind(&self) -> &ValidationErrorKind { &self.kind }
}
#[derive(Clone, Debug, Eq, Hash, Ord, PartialEq, PartialOrd)]
#[non_exhaustive]
pub enum ValidationErrorKind { Empty, NotEnough, InvalidByteAt { byte: u8, at: usize }, Invalid }
impl fmt::Display for ValidationError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "Validation failed: {:?}", self.kind) }
}
impl std::error::Error for ValidationError {}
pub(crate) fn err<T>(k: ValidationErrorKind) -> Result<T, ValidationError> { Err(ValidationError::new(k)) }
