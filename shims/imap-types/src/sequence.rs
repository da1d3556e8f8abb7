//! Sequence sets.
use std::num::NonZeroU32;
use crate::core::Vec1;
#[derive(Clone, Copy, Debug, Eq, Hash, PartialEq)]
pub enum SeqOrUid { Value(NonZeroU32), Asterisk }
#[derive(Clone, Debug, Eq, Hash, PartialEq)]
pub enum Sequence { Single(SeqOrUid), Range(SeqOrUid, SeqOrUid) }
#[derive(Clone, Debug, Eq, Hash, PartialEq)]
pub struct SequenceSet(pub Vec1<Sequence>);
st_copy!(SeqOrUid, Sequence, SequenceSet);
