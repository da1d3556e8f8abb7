use std::borrow::Cow;
use std::fmt;

pub use crate::error::{ValidationError, ValidationErrorKind};
use crate::error::err;
use crate::utils::indicators::*;

/// Newtype over `Cow<str>` with a validity rule.
macro_rules! strtype {
    ($name:ident) => {
        #[derive(Clone, Eq, Hash, Ord, PartialEq, PartialOrd)]
        pub struct $name<'a>(pub(crate) Cow<'a, str>);
        impl<'a> fmt::Debug for $name<'a> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, concat!(stringify!($name), "({:?})"), self.0) }
        }
        impl<'a> $name<'a> {
            pub fn inner(&self) -> &str { self.0.as_ref() }
            pub fn into_inner(self) -> Cow<'a, str> { self.0 }
            pub fn unvalidated<C: Into<Cow<'a, str>>>(inner: C) -> Self {
                let inner = inner.into();
                #[cfg(debug_assertions)]
                Self::validate(inner.as_bytes()).unwrap();
                Self(inner)
            }
        }
        impl<'a> TryFrom<&'a [u8]> for $name<'a> {
            type Error = ValidationError;
            fn try_from(value: &'a [u8]) -> Result<Self, Self::Error> {
                Self::validate(value)?;
                match std::str::from_utf8(value) { Ok(s) => Ok(Self(Cow::Borrowed(s))), Err(_) => err(ValidationErrorKind::Invalid) }
            }
        }
        impl<'a> TryFrom<Vec<u8>> for $name<'a> {
            type Error = ValidationError;
            fn try_from(value: Vec<u8>) -> Result<Self, Self::Error> {
                Self::validate(&value)?;
                match String::from_utf8(value) { Ok(s) => Ok(Self(Cow::Owned(s))), Err(_) => err(ValidationErrorKind::Invalid) }
            }
        }
        impl<'a> TryFrom<&'a str> for $name<'a> {
            type Error = ValidationError;
            fn try_from(value: &'a str) -> Result<Self, Self::Error> { Self::validate(value)?; Ok(Self(Cow::Borrowed(value))) }
        }
        impl<'a> TryFrom<String> for $name<'a> {
            type Error = ValidationError;
            fn try_from(value: String) -> Result<Self, Self::Error> { Self::validate(&value)?; Ok(Self(Cow::Owned(value))) }
        }
        impl<'a> TryFrom<Cow<'a, str>> for $name<'a> {
            type Error = ValidationError;
            fn try_from(value: Cow<'a, str>) -> Result<Self, Self::Error> { Self::validate(value.as_bytes())?; Ok(Self(value)) }
        }
        impl<'a> AsRef<str> for $name<'a> { fn as_ref(&self) -> &str { self.0.as_ref() } }
        impl<'a> fmt::Display for $name<'a> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.0) }
        }
        st!($name, this => $name(this.0.into_static()));
    };
}
fn check(value: &[u8], nonempty: bool, ok: impl Fn(u8) -> bool) -> Result<(), ValidationError> {
    if nonempty && value.is_empty() { return err(ValidationErrorKind::Empty); }
    if let Some(at) = value.iter().position(|b| !ok(*b)) {
        return err(ValidationErrorKind::InvalidByteAt { byte: value[at], at });
    }
    Ok(())
}
strtype!(Atom);
impl<'a> Atom<'a> { pub fn validate(v: impl AsRef<[u8]>) -> Result<(), ValidationError> { check(v.as_ref(), true, is_atom_char) } }
strtype!(AtomExt);
impl<'a> AtomExt<'a> { pub fn validate(v: impl AsRef<[u8]>) -> Result<(), ValidationError> { check(v.as_ref(), true, is_astring_char) } }
impl<'a> From<Atom<'a>> for AtomExt<'a> { fn from(v: Atom<'a>) -> Self { Self(v.0) } }
strtype!(Tag);
impl<'a> Tag<'a> { pub fn validate(v: impl AsRef<[u8]>) -> Result<(), ValidationError> { check(v.as_ref(), true, |b| is_astring_char(b) && b != b'+') } }
strtype!(Text);
impl<'a> Text<'a> { pub fn validate(v: impl AsRef<[u8]>) -> Result<(), ValidationError> { check(v.as_ref(), true, is_text_char) } }
strtype!(Quoted);
impl<'a> Quoted<'a> { pub fn validate(v: impl AsRef<[u8]>) -> Result<(), ValidationError> { check(v.as_ref(), false, is_text_char) } }

#[derive(Clone, Copy, Debug, Eq, Hash, Ord, PartialEq, PartialOrd)]
pub struct QuotedChar(char);
impl QuotedChar {
    pub fn validate(input: &char) -> Result<(), ValidationError> {
        if input.is_ascii() && is_text_char(*input as u8) { Ok(()) } else { err(ValidationErrorKind::Invalid) }
    }
    pub fn inner(&self) -> char { self.0 }
    pub fn unvalidated(inner: char) -> Self { Self(inner) }
}
impl TryFrom<char> for QuotedChar {
    type Error = ValidationError;
    fn try_from(value: char) -> Result<Self, Self::Error> { Self::validate(&value)?; Ok(Self(value)) }
}
st_copy!(QuotedChar);

/// Literal mode, i.e., sync or non-sync.
#[derive(Clone, Copy, Debug, Eq, Hash, Ord, PartialEq, PartialOrd)]
pub enum LiteralMode {
    /// A synchronizing literal, i.e., `{<n>}\r\n<data>`.
    Sync,
    /// A non-synchronizing literal, i.e., `{<n>+}\r\n<data>`.
    NonSync,
}
st_copy!(LiteralMode);

#[derive(Clone, Debug, Eq, Hash, Ord, PartialEq, PartialOrd)]
pub struct Literal<'a> { data: Cow<'a, [u8]>, mode: LiteralMode }
impl<'a> Literal<'a> {
    pub fn validate(value: impl AsRef<[u8]>) -> Result<(), ValidationError> { check(value.as_ref(), false, is_char8) }
    pub fn data(&self) -> &[u8] { self.data.as_ref() }
    pub fn mode(&self) -> LiteralMode { self.mode }
    pub fn into_inner(self) -> (Cow<'a, [u8]>, LiteralMode) { (self.data, self.mode) }
    pub fn set_mode(&mut self, mode: LiteralMode) { self.mode = mode }
    pub fn into_sync(mut self) -> Self { self.mode = LiteralMode::Sync; self }
    pub fn into_non_sync(mut self) -> Self { self.mode = LiteralMode::NonSync; self }
    pub fn as_sync(&self) -> Self { self.clone().into_sync() }
    pub fn as_non_sync(&self) -> Self { self.clone().into_non_sync() }
    pub fn unvalidated<D: Into<Cow<'a, [u8]>>>(data: D) -> Self { Self { data: data.into(), mode: LiteralMode::Sync } }
    pub fn unvalidated_non_sync<D: Into<Cow<'a, [u8]>>>(data: D) -> Self { Self { data: data.into(), mode: LiteralMode::NonSync } }
}
impl<'a> TryFrom<&'a [u8]> for Literal<'a> {
    type Error = ValidationError;
    fn try_from(value: &'a [u8]) -> Result<Self, Self::Error> { Self::validate(value)?; Ok(Literal { data: Cow::Borrowed(value), mode: LiteralMode::Sync }) }
}
impl<'a> TryFrom<Vec<u8>> for Literal<'a> {
    type Error = ValidationError;
    fn try_from(value: Vec<u8>) -> Result<Self, Self::Error> { Self::validate(&value)?; Ok(Literal { data: Cow::Owned(value), mode: LiteralMode::Sync }) }
}
impl<'a> TryFrom<&'a str> for Literal<'a> {
    type Error = ValidationError;
    fn try_from(value: &'a str) -> Result<Self, Self::Error> { Self::try_from(value.as_bytes()) }
}
impl<'a> TryFrom<String> for Literal<'a> {
    type Error = ValidationError;
    fn try_from(value: String) -> Result<Self, Self::Error> { Self::try_from(value.into_bytes()) }
}
impl<'a> AsRef<[u8]> for Literal<'a> { fn as_ref(&self) -> &[u8] { &self.data } }
st!(Literal, this => Literal { data: this.data.into_static(), mode: this.mode });

#[derive(Clone, Debug, Eq, Hash, Ord, PartialEq, PartialOrd)]
pub enum IString<'a> { Literal(Literal<'a>), Quoted(Quoted<'a>) }
impl<'a> IString<'a> {
    pub fn into_inner(self) -> Cow<'a, [u8]> {
        match self { Self::Literal(l) => l.data, Self::Quoted(q) => match q.0 { Cow::Borrowed(s) => Cow::Borrowed(s.as_bytes()), Cow::Owned(s) => Cow::Owned(s.into_bytes()) } }
    }
}
impl<'a> AsRef<[u8]> for IString<'a> {
    fn as_ref(&self) -> &[u8] { match self { Self::Literal(l) => l.as_ref(), Self::Quoted(q) => q.0.as_bytes() } }
}
macro_rules! istring_from { ($($t:ty),*) => { $(
    impl<'a> TryFrom<$t> for IString<'a> {
        type Error = ValidationError;
        fn try_from(value: $t) -> Result<Self, Self::Error> {
            if let Ok(q) = Quoted::try_from(value.clone()) { return Ok(IString::Quoted(q)); }
            Ok(IString::Literal(Literal::try_from(value)?))
        }
    }
    impl<'a> TryFrom<$t> for NString<'a> {
        type Error = ValidationError;
        fn try_from(value: $t) -> Result<Self, Self::Error> { Ok(NString(Some(IString::try_from(value)?))) }
    }
    impl<'a> TryFrom<$t> for AString<'a> {
        type Error = ValidationError;
        fn try_from(value: $t) -> Result<Self, Self::Error> {
            if let Ok(a) = AtomExt::try_from(value.clone()) { return Ok(AString::Atom(a)); }
            Ok(AString::String(IString::try_from(value)?))
        }
    }
)* } }
istring_from!(&'a str, String, &'a [u8], Vec<u8>);
impl<'a> From<Literal<'a>> for IString<'a> { fn from(v: Literal<'a>) -> Self { Self::Literal(v) } }
impl<'a> From<Quoted<'a>> for IString<'a> { fn from(v: Quoted<'a>) -> Self { Self::Quoted(v) } }
st!(IString, this => match this { IString::Literal(l) => IString::Literal(l.into_static()), IString::Quoted(q) => IString::Quoted(q.into_static()) });

#[derive(Clone, Debug, Eq, Hash, Ord, PartialEq, PartialOrd)]
pub struct NString<'a>(pub Option<IString<'a>>);
impl<'a> NString<'a> {
    pub const NIL: Self = Self(None);
    pub fn into_option(self) -> Option<Cow<'a, [u8]>> { self.0.map(IString::into_inner) }
}
impl<'a> From<IString<'a>> for NString<'a> { fn from(v: IString<'a>) -> Self { Self(Some(v)) } }
impl<'a> From<Literal<'a>> for NString<'a> { fn from(v: Literal<'a>) -> Self { Self(Some(IString::Literal(v))) } }
impl<'a> From<Quoted<'a>> for NString<'a> { fn from(v: Quoted<'a>) -> Self { Self(Some(IString::Quoted(v))) } }
st!(NString, this => NString(this.0.into_static()));

#[derive(Clone, Debug, Eq, Hash, Ord, PartialEq, PartialOrd)]
pub enum AString<'a> { Atom(AtomExt<'a>), String(IString<'a>) }
impl<'a> From<Atom<'a>> for AString<'a> { fn from(v: Atom<'a>) -> Self { Self::Atom(v.into()) } }
impl<'a> From<AtomExt<'a>> for AString<'a> { fn from(v: AtomExt<'a>) -> Self { Self::Atom(v) } }
impl<'a> From<IString<'a>> for AString<'a> { fn from(v: IString<'a>) -> Self { Self::String(v) } }
impl<'a> From<Literal<'a>> for AString<'a> { fn from(v: Literal<'a>) -> Self { Self::String(IString::Literal(v)) } }
impl<'a> From<Quoted<'a>> for AString<'a> { fn from(v: Quoted<'a>) -> Self { Self::String(IString::Quoted(v)) } }
impl<'a> AsRef<[u8]> for AString<'a> {
    fn as_ref(&self) -> &[u8] { match self { Self::Atom(a) => a.0.as_bytes(), Self::String(s) => s.as_ref() } }
}
st!(AString, this => match this { AString::Atom(l) => AString::Atom(l.into_static()), AString::String(q) => AString::String(q.into_static()) });

#[derive(Clone, Debug, Eq, Hash, Ord, PartialEq, PartialOrd)]
pub enum Charset<'a> { Atom(Atom<'a>), Quoted(Quoted<'a>) }
st!(Charset, this => match this { Charset::Atom(l) => Charset::Atom(l.into_static()), Charset::Quoted(q) => Charset::Quoted(q.into_static()) });

/// A `Vec` containing >= N elements.
macro_rules! vecn { ($name:ident, $n:expr) => {
    #[derive(Clone, Eq, Hash, Ord, PartialEq, PartialOrd)]
    pub struct $name<T>(pub(crate) Vec<T>);
    impl<T: fmt::Debug> fmt::Debug for $name<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.0.fmt(f)?; write!(f, "{}", if $n == 1 { '+' } else { '*' }) }
    }
    impl<T> $name<T> {
        pub fn validate(value: &[T]) -> Result<(), ValidationError> { if value.len() < $n { err(ValidationErrorKind::NotEnough) } else { Ok(()) } }
        pub fn unvalidated(inner: Vec<T>) -> Self { #[cfg(debug_assertions)] Self::validate(&inner).unwrap(); Self(inner) }
        pub fn into_inner(self) -> Vec<T> { self.0 }
    }
    impl<T> TryFrom<Vec<T>> for $name<T> {
        type Error = ValidationError;
        fn try_from(inner: Vec<T>) -> Result<Self, Self::Error> { Self::validate(&inner)?; Ok(Self(inner)) }
    }
    impl<T> IntoIterator for $name<T> { type Item = T; type IntoIter = std::vec::IntoIter<T>; fn into_iter(self) -> Self::IntoIter { self.0.into_iter() } }
    impl<T> AsRef<[T]> for $name<T> { fn as_ref(&self) -> &[T] { &self.0 } }
    impl<T: bounded_static::ToBoundedStatic> bounded_static::ToBoundedStatic for $name<T> {
        type Static = $name<T::Static>;
        fn to_static(&self) -> Self::Static { $name(self.0.iter().map(|t| t.to_static()).collect()) }
    }
    impl<T: bounded_static::IntoBoundedStatic> bounded_static::IntoBoundedStatic for $name<T> {
        type Static = $name<T::Static>;
        fn into_static(self) -> Self::Static { $name(self.0.into_iter().map(|t| t.into_static()).collect()) }
    }
} }
vecn!(Vec1, 1);
vecn!(Vec2, 2);
pub type NonEmptyVec<T> = Vec1<T>;
impl<T> From<T> for Vec1<T> { fn from(value: T) -> Self { Vec1(vec![value]) } }
impl<T> From<(T, T)> for Vec2<T> { fn from((a, b): (T, T)) -> Self { Vec2(vec![a, b]) } }
