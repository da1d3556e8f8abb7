use crate::{core::{AString, IString, Literal, Quoted, ValidationError}, error::ValidationErrorKind};
#[derive(Clone, Debug, Eq, Hash, Ord, PartialEq, PartialOrd)]
pub enum Mailbox<'a> { Inbox, Other(MailboxOther<'a>) }
#[derive(Clone, Debug, Eq, Hash, Ord, PartialEq, PartialOrd)]
pub struct MailboxOther<'a>(AString<'a>);
impl<'a> MailboxOther<'a> {
    pub fn inner(&self) -> &AString<'a> { &self.0 }
    pub fn validate(value: impl AsRef<[u8]>) -> Result<(), ValidationError> {
        if value.as_ref().eq_ignore_ascii_case(b"inbox") { Err(ValidationError::new(ValidationErrorKind::Invalid)) } else { Ok(()) }
    }
}
impl<'a> AsRef<[u8]> for MailboxOther<'a> { fn as_ref(&self) -> &[u8] { self.0.as_ref() } }
impl<'a> TryFrom<AString<'a>> for MailboxOther<'a> { type Error = ValidationError; fn try_from(v: AString<'a>) -> Result<Self, ValidationError> { Self::validate(v.as_ref())?; Ok(Self(v)) } }
impl<'a> From<AString<'a>> for Mailbox<'a> { fn from(v: AString<'a>) -> Self { match MailboxOther::try_from(v) { Ok(o) => Mailbox::Other(o), Err(_) => Mailbox::Inbox } } }
impl<'a> From<Literal<'a>> for Mailbox<'a> { fn from(v: Literal<'a>) -> Self { AString::from(v).into() } }
impl<'a> From<Quoted<'a>> for Mailbox<'a> { fn from(v: Quoted<'a>) -> Self { AString::from(v).into() } }
impl<'a> From<IString<'a>> for Mailbox<'a> { fn from(v: IString<'a>) -> Self { AString::from(v).into() } }
impl<'a> TryFrom<&'a str> for Mailbox<'a> { type Error = ValidationError; fn try_from(v: &'a str) -> Result<Self, ValidationError> { Ok(AString::try_from(v)?.into()) } }
impl<'a> TryFrom<String> for Mailbox<'a> { type Error = ValidationError; fn try_from(v: String) -> Result<Self, ValidationError> { Ok(AString::try_from(v)?.into()) } }
impl<'a> TryFrom<&'a [u8]> for Mailbox<'a> { type Error = ValidationError; fn try_from(v: &'a [u8]) -> Result<Self, ValidationError> { Ok(AString::try_from(v)?.into()) } }
st!(MailboxOther, this => MailboxOther(this.0.into_static()));
st!(Mailbox, this => match this { Mailbox::Inbox => Mailbox::Inbox, Mailbox::Other(o) => Mailbox::Other(o.into_static()) });
/// A mailbox pattern of LIST and LSUB.
#[derive(Clone, Debug, Eq, Hash, Ord, PartialEq, PartialOrd)]
pub enum ListMailbox<'a> { Token(ListCharString<'a>), String(IString<'a>) }
#[derive(Clone, Debug, Eq, Hash, Ord, PartialEq, PartialOrd)]
pub struct ListCharString<'a>(std::borrow::Cow<'a, str>);
impl<'a> ListCharString<'a> { pub fn inner(&self) -> &str { &self.0 } }
impl<'a> TryFrom<&'a [u8]> for ListCharString<'a> {
    type Error = ValidationError;
    fn try_from(v: &'a [u8]) -> Result<Self, ValidationError> {
        if v.is_empty() || !v.iter().all(|b| crate::utils::indicators::is_list_char(*b)) { return Err(ValidationError::new(ValidationErrorKind::Invalid)) }
        Ok(Self(std::borrow::Cow::Borrowed(std::str::from_utf8(v).unwrap())))
    }
}
st!(ListCharString, this => ListCharString(std::borrow::Cow::Owned(this.0.into_owned())));
st!(ListMailbox, this => match this { ListMailbox::Token(t) => ListMailbox::Token(t.into_static()), ListMailbox::String(s) => ListMailbox::String(s.into_static()) });
