use std::fmt;
use bounded_static::{IntoBoundedStatic, ToBoundedStatic};
/// A wrapper to ensure that secrets are redacted during `Debug`-printing.
#[derive(Clone, Eq, Hash, PartialEq, PartialOrd, Ord)]
pub struct Secret<T>(T);
impl<T> Secret<T> {
    pub fn new(inner: T) -> Self { Self(inner) }
    pub fn declassify(&self) -> &T { &self.0 }
    pub fn into_inner(self) -> T { self.0 }
}
impl<T> From<T> for Secret<T> { fn from(v: T) -> Self { Self(v) } }
impl<T: fmt::Debug> fmt::Debug for Secret<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        #[cfg(not(debug_assertions))]
        return write!(f, "/* REDACTED */");
        #[cfg(debug_assertions)]
        return self.0.fmt(f);
    }
}
impl<T: ToBoundedStatic> ToBoundedStatic for Secret<T> { type Static = Secret<T::Static>; fn to_static(&self) -> Self::Static { Secret(self.0.to_static()) } }
impl<T: IntoBoundedStatic> IntoBoundedStatic for Secret<T> { type Static = Secret<T::Static>; fn into_static(self) -> Self::Static { Secret(self.0.into_static()) } }
