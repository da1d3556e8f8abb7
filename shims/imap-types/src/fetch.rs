use std::num::NonZeroU32;
use crate::{core::NString, flag::FlagFetch};
#[derive(Clone, Debug, Eq, Hash, PartialEq)]
pub enum MessageDataItem<'a> { Uid(NonZeroU32), Rfc822(NString<'a>), Rfc822Header(NString<'a>), Rfc822Text(NString<'a>), Rfc822Size(u32), Flags(Vec<FlagFetch<'a>>) }
st!(MessageDataItem, this => match this {
    MessageDataItem::Uid(u) => MessageDataItem::Uid(u), MessageDataItem::Rfc822(n) => MessageDataItem::Rfc822(n.into_static()),
    MessageDataItem::Rfc822Header(n) => MessageDataItem::Rfc822Header(n.into_static()), MessageDataItem::Rfc822Text(n) => MessageDataItem::Rfc822Text(n.into_static()),
    MessageDataItem::Flags(f) => MessageDataItem::Flags(f.into_static()), MessageDataItem::Rfc822Size(s) => MessageDataItem::Rfc822Size(s) });
#[derive(Clone, Copy, Debug, Eq, Hash, Ord, PartialEq, PartialOrd)]
#[non_exhaustive]
pub enum Macro { All, Fast, Full }
/// Names of data items (this stand-in knows no sections of BODY[...]).
#[derive(Clone, Debug, Eq, Hash, PartialEq)]
#[non_exhaustive]
pub enum MessageDataItemName<'a> { Body, BodyStructure, Envelope, Flags, InternalDate, Rfc822, Rfc822Header, Rfc822Size, Rfc822Text, Uid, #[doc(hidden)] Phantom(std::marker::PhantomData<&'a ()>) }
impl MessageDataItemName<'_> {
    pub const ALL: [(&'static str, MessageDataItemName<'static>); 10] = [("BODY", MessageDataItemName::Body), ("BODYSTRUCTURE", MessageDataItemName::BodyStructure), ("ENVELOPE", MessageDataItemName::Envelope), ("FLAGS", MessageDataItemName::Flags), ("INTERNALDATE", MessageDataItemName::InternalDate), ("RFC822", MessageDataItemName::Rfc822), ("RFC822.HEADER", MessageDataItemName::Rfc822Header), ("RFC822.SIZE", MessageDataItemName::Rfc822Size), ("RFC822.TEXT", MessageDataItemName::Rfc822Text), ("UID", MessageDataItemName::Uid)];
    pub fn text(&self) -> &'static str { Self::ALL.iter().find(|(_, i)| format!("{i:?}") == format!("{self:?}")).unwrap().0 }
}
#[derive(Clone, Debug, Eq, Hash, PartialEq)]
pub enum MacroOrMessageDataItemNames<'a> { Macro(Macro), MessageDataItemNames(Vec<MessageDataItemName<'a>>) }
impl From<Macro> for MacroOrMessageDataItemNames<'_> { fn from(m: Macro) -> Self { Self::Macro(m) } }
impl<'a> From<Vec<MessageDataItemName<'a>>> for MacroOrMessageDataItemNames<'a> { fn from(m: Vec<MessageDataItemName<'a>>) -> Self { Self::MessageDataItemNames(m) } }
st_copy!(Macro);
st!(MessageDataItemName, this => match this { MessageDataItemName::Body => MessageDataItemName::Body, x => MessageDataItemName::ALL.iter().find(|(t, _)| *t == x.text()).unwrap().1.clone() });
st!(MacroOrMessageDataItemNames, this => match this { MacroOrMessageDataItemNames::Macro(m) => MacroOrMessageDataItemNames::Macro(m), MacroOrMessageDataItemNames::MessageDataItemNames(v) => MacroOrMessageDataItemNames::MessageDataItemNames(v.into_static()) });
