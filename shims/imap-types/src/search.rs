use crate::{core::{AString, Atom}, sequence::SequenceSet};
/// The criteria for the SEARCH command (the subset this stand-in knows).
#[derive(Clone, Debug, Eq, Hash, PartialEq)]
#[non_exhaustive]
pub enum SearchKey<'a> {
    SequenceSet(SequenceSet), All, Answered, Deleted, Draft, Flagged, New, Old, Recent, Seen, Unanswered, Undeleted, Undraft, Unflagged, Unseen,
    Bcc(AString<'a>), Body(AString<'a>), Cc(AString<'a>), From(AString<'a>), Subject(AString<'a>), Text(AString<'a>), To(AString<'a>), Header(AString<'a>, AString<'a>),
    Keyword(Atom<'a>), Unkeyword(Atom<'a>), Larger(u32), Smaller(u32), Uid(SequenceSet), Not(Box<SearchKey<'a>>), Or(Box<SearchKey<'a>>, Box<SearchKey<'a>>),
}
st!(SearchKey, this => { use SearchKey::*; match this {
    Bcc(a) => Bcc(a.into_static()), Body(a) => Body(a.into_static()), Cc(a) => Cc(a.into_static()), From(a) => From(a.into_static()), Subject(a) => Subject(a.into_static()),
    Text(a) => Text(a.into_static()), To(a) => To(a.into_static()), Header(a, b) => Header(a.into_static(), b.into_static()), Keyword(a) => Keyword(a.into_static()), Unkeyword(a) => Unkeyword(a.into_static()),
    Not(k) => Not(Box::new((*k).into_static())), Or(a, b) => Or(Box::new((*a).into_static()), Box::new((*b).into_static())),
    SequenceSet(s) => SequenceSet(s), Uid(s) => Uid(s), Larger(n) => Larger(n), Smaller(n) => Smaller(n),
    All => All, Answered => Answered, Deleted => Deleted, Draft => Draft, Flagged => Flagged, New => New, Old => Old, Recent => Recent, Seen => Seen,
    Unanswered => Unanswered, Undeleted => Undeleted, Undraft => Undraft, Unflagged => Unflagged, Unseen => Unseen,
} });
