use crate::core::Atom;
#[derive(Clone, Debug, Eq, Hash, Ord, PartialEq, PartialOrd)]
pub enum Flag<'a> { Answered, Deleted, Draft, Flagged, Seen, Keyword(Atom<'a>) }
st!(Flag, this => match this { Flag::Answered => Flag::Answered, Flag::Deleted => Flag::Deleted, Flag::Draft => Flag::Draft, Flag::Flagged => Flag::Flagged, Flag::Seen => Flag::Seen, Flag::Keyword(a) => Flag::Keyword(a.into_static()) });
#[derive(Clone, Debug, Eq, Hash, Ord, PartialEq, PartialOrd)]
pub enum FlagPerm<'a> { Flag(Flag<'a>), Asterisk }
st!(FlagPerm, this => match this { FlagPerm::Flag(f) => FlagPerm::Flag(f.into_static()), FlagPerm::Asterisk => FlagPerm::Asterisk });
#[derive(Clone, Debug, Eq, Hash, Ord, PartialEq, PartialOrd)]
pub enum FlagFetch<'a> { Flag(Flag<'a>), Recent }
st!(FlagFetch, this => match this { FlagFetch::Flag(f) => FlagFetch::Flag(f.into_static()), FlagFetch::Recent => FlagFetch::Recent });
#[derive(Clone, Copy, Debug, Eq, Hash, Ord, PartialEq, PartialOrd)]
pub enum StoreType { Replace, Add, Remove }
#[derive(Clone, Copy, Debug, Eq, Hash, Ord, PartialEq, PartialOrd)]
pub enum StoreResponse { Answer, Silent }
st_copy!(StoreType, StoreResponse);
