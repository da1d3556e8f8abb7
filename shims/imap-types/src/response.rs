use std::{borrow::Cow, fmt, num::NonZeroU32};
use crate::{
    auth::AuthMechanism,
    core::{AString, Atom, IString, NString, QuotedChar, Tag, Text, Vec1},
    error::{err, ValidationError, ValidationErrorKind},
    extensions::{compress::CompressionAlgorithm, quota::{QuotaGet, Resource}, sort::SortAlgorithm, thread::ThreadingAlgorithm},
    fetch::MessageDataItem,
    flag::{Flag, FlagPerm},
    mailbox::Mailbox,
    status::StatusDataItem,
};

#[derive(Clone, Debug, Eq, Hash, PartialEq)]
pub struct Greeting<'a> { pub kind: GreetingKind, pub code: Option<Code<'a>>, pub text: Text<'a> }
impl<'a> Greeting<'a> {
    pub fn new(kind: GreetingKind, code: Option<Code<'a>>, text: &'a str) -> Result<Self, ValidationError> { Ok(Greeting { kind, code, text: text.try_into()? }) }
    pub fn ok(code: Option<Code<'a>>, text: &'a str) -> Result<Self, ValidationError> { Self::new(GreetingKind::Ok, code, text) }
    pub fn preauth(code: Option<Code<'a>>, text: &'a str) -> Result<Self, ValidationError> { Self::new(GreetingKind::PreAuth, code, text) }
    pub fn bye(code: Option<Code<'a>>, text: &'a str) -> Result<Self, ValidationError> { Self::new(GreetingKind::Bye, code, text) }
}
st!(Greeting, this => Greeting { kind: this.kind, code: this.code.into_static(), text: this.text.into_static() });
#[derive(Clone, Copy, Debug, Eq, Hash, Ord, PartialEq, PartialOrd)]
pub enum GreetingKind { Ok, PreAuth, Bye }
st_copy!(GreetingKind);

#[derive(Clone, Debug, Eq, Hash, PartialEq)]
pub enum Response<'a> { CommandContinuationRequest(CommandContinuationRequest<'a>), Data(Data<'a>), Status(Status<'a>) }
st!(Response, this => match this {
    Response::CommandContinuationRequest(x) => Response::CommandContinuationRequest(x.into_static()),
    Response::Data(x) => Response::Data(x.into_static()), Response::Status(x) => Response::Status(x.into_static()) });

#[derive(Clone, Debug, Eq, Hash, PartialEq)]
pub enum Status<'a> { Untagged(StatusBody<'a>), Tagged(Tagged<'a>), Bye(Bye<'a>) }
#[derive(Clone, Debug, Eq, Hash, PartialEq)]
pub struct StatusBody<'a> { pub kind: StatusKind, pub code: Option<Code<'a>>, pub text: Text<'a> }
#[derive(Clone, Copy, Debug, Eq, Hash, Ord, PartialEq, PartialOrd)]
pub enum StatusKind { Ok, No, Bad }
#[derive(Clone, Debug, Eq, Hash, PartialEq)]
pub struct Tagged<'a> { pub tag: Tag<'a>, pub body: StatusBody<'a> }
#[derive(Clone, Debug, Eq, Hash, PartialEq)]
pub struct Bye<'a> { pub code: Option<Code<'a>>, pub text: Text<'a> }
st_copy!(StatusKind);
st!(StatusBody, this => StatusBody { kind: this.kind, code: this.code.into_static(), text: this.text.into_static() });
st!(Tagged, this => Tagged { tag: this.tag.into_static(), body: this.body.into_static() });
st!(Bye, this => Bye { code: this.code.into_static(), text: this.text.into_static() });
st!(Status, this => match this { Status::Untagged(b) => Status::Untagged(b.into_static()), Status::Tagged(b) => Status::Tagged(b.into_static()), Status::Bye(b) => Status::Bye(b.into_static()) });
impl<'a> Status<'a> {
    pub fn new<T>(tag: Option<Tag<'a>>, kind: StatusKind, code: Option<Code<'a>>, text: T) -> Result<Self, T::Error> where T: TryInto<Text<'a>> {
        let body = StatusBody { kind, code, text: text.try_into()? };
        Ok(match tag { Some(tag) => Self::Tagged(Tagged { tag, body }), None => Self::Untagged(body) })
    }
    pub fn ok<T>(tag: Option<Tag<'a>>, code: Option<Code<'a>>, text: T) -> Result<Self, T::Error> where T: TryInto<Text<'a>> { Self::new(tag, StatusKind::Ok, code, text) }
    pub fn no<T>(tag: Option<Tag<'a>>, code: Option<Code<'a>>, text: T) -> Result<Self, T::Error> where T: TryInto<Text<'a>> { Self::new(tag, StatusKind::No, code, text) }
    pub fn bad<T>(tag: Option<Tag<'a>>, code: Option<Code<'a>>, text: T) -> Result<Self, T::Error> where T: TryInto<Text<'a>> { Self::new(tag, StatusKind::Bad, code, text) }
    pub fn bye<T>(code: Option<Code<'a>>, text: T) -> Result<Self, T::Error> where T: TryInto<Text<'a>> { Ok(Self::Bye(Bye { code, text: text.try_into()? })) }
    pub fn tag(&self) -> Option<&Tag<'a>> { match self { Self::Tagged(Tagged { tag, .. }) => Some(tag), _ => None } }
    pub fn kind(&self) -> Option<StatusKind> { match self { Self::Untagged(b) | Self::Tagged(Tagged { body: b, .. }) => Some(b.kind), Self::Bye(_) => None } }
    pub fn code(&self) -> Option<&Code<'a>> { match self { Self::Untagged(b) | Self::Tagged(Tagged { body: b, .. }) => b.code.as_ref(), Self::Bye(b) => b.code.as_ref() } }
    pub fn text(&self) -> &Text<'a> { match self { Self::Untagged(b) | Self::Tagged(Tagged { body: b, .. }) => &b.text, Self::Bye(b) => &b.text } }
}

#[derive(Clone, Debug, Eq, Hash, PartialEq)]
#[non_exhaustive]
pub enum Data<'a> {
    Capability(Vec1<Capability<'a>>),
    List { items: Vec<Atom<'a>>, delimiter: Option<QuotedChar>, mailbox: Mailbox<'a> },
    Lsub { items: Vec<Atom<'a>>, delimiter: Option<QuotedChar>, mailbox: Mailbox<'a> },
    Search(Vec<NonZeroU32>),
    Flags(Vec<Flag<'a>>),
    Exists(u32),
    Recent(u32),
    Expunge(NonZeroU32),
    Fetch { seq: NonZeroU32, items: Vec1<MessageDataItem<'a>> },
    Enabled { capabilities: Vec<Atom<'a>> },
    Status { mailbox: Mailbox<'a>, items: Cow<'a, [StatusDataItem]> },
    Sort(Vec<NonZeroU32>),
    Quota { root: AString<'a>, quotas: Vec1<QuotaGet<'a>> },
    QuotaRoot { mailbox: Mailbox<'a>, roots: Vec<AString<'a>> },
    Id { parameters: Option<Vec<(IString<'a>, NString<'a>)>> },
}
impl<'a> Data<'a> {
    pub fn capability<C>(caps: C) -> Result<Self, C::Error> where C: TryInto<Vec1<Capability<'a>>> { Ok(Self::Capability(caps.try_into()?)) }
    pub fn expunge(seq: u32) -> Result<Self, std::num::TryFromIntError> { Ok(Self::Expunge(NonZeroU32::try_from(seq)?)) }
}
st!(Data, this => match this {
    Data::Capability(c) => Data::Capability(c.into_static()),
    Data::List { items, delimiter, mailbox } => Data::List { items: items.into_static(), delimiter, mailbox: mailbox.into_static() },
    Data::Lsub { items, delimiter, mailbox } => Data::Lsub { items: items.into_static(), delimiter, mailbox: mailbox.into_static() },
    Data::Search(x) => Data::Search(x), Data::Flags(f) => Data::Flags(f.into_static()), Data::Exists(n) => Data::Exists(n), Data::Recent(n) => Data::Recent(n), Data::Expunge(n) => Data::Expunge(n),
    Data::Fetch { seq, items } => Data::Fetch { seq, items: items.into_static() },
    Data::Status { mailbox, items } => Data::Status { mailbox: mailbox.into_static(), items: Cow::Owned(items.into_owned()) }, Data::Sort(x) => Data::Sort(x),
    Data::Quota { root, quotas } => Data::Quota { root: root.into_static(), quotas: quotas.into_static() }, Data::QuotaRoot { mailbox, roots } => Data::QuotaRoot { mailbox: mailbox.into_static(), roots: roots.into_static() },
    Data::Enabled { capabilities } => Data::Enabled { capabilities: capabilities.into_static() },
    Data::Id { parameters } => Data::Id { parameters: parameters.into_static() } });

/// Command continuation request response.
#[derive(Clone, Debug, Eq, Hash, PartialEq)]
pub enum CommandContinuationRequest<'a> { Basic(CommandContinuationRequestBasic<'a>), Base64(Cow<'a, [u8]>) }
impl<'a> CommandContinuationRequest<'a> {
    pub fn basic<T>(code: Option<Code<'a>>, text: T) -> Result<Self, ContinueError<T::Error>> where T: TryInto<Text<'a>> { Ok(Self::Basic(CommandContinuationRequestBasic::new(code, text)?)) }
    pub fn base64<D: Into<Cow<'a, [u8]>>>(data: D) -> Self { Self::Base64(data.into()) }
}
st!(CommandContinuationRequest, this => match this { CommandContinuationRequest::Basic(b) => CommandContinuationRequest::Basic(b.into_static()), CommandContinuationRequest::Base64(d) => CommandContinuationRequest::Base64(d.into_static()) });
#[derive(Clone, Debug, Eq, Hash, PartialEq)]
pub struct CommandContinuationRequestBasic<'a> { code: Option<Code<'a>>, text: Text<'a> }
impl<'a> CommandContinuationRequestBasic<'a> {
    /// Create a basic command continuation request. Errors when there is no code and the text starts with
    /// `[` or is a valid Base64 string (ambiguous on the wire).
    pub fn new<T>(code: Option<Code<'a>>, text: T) -> Result<Self, ContinueError<T::Error>> where T: TryInto<Text<'a>> {
        let text = text.try_into().map_err(ContinueError::Text)?;
        if code.is_none() && text.as_ref().starts_with('[') { return Err(ContinueError::Ambiguous); }
        if code.is_none() && is_base64(text.as_ref()) { return Err(ContinueError::Ambiguous); }
        Ok(Self { code, text })
    }
    pub fn code(&self) -> Option<&Code<'a>> { self.code.as_ref() }
    pub fn text(&self) -> &Text<'a> { &self.text }
}
fn is_base64(s: &str) -> bool {
    let b = s.as_bytes();
    if b.len() % 4 != 0 { return false; }
    let pad = b.iter().rev().take_while(|c| **c == b'=').count();
    pad <= 2 && b[..b.len() - pad].iter().all(|c| c.is_ascii_alphanumeric() || *c == b'+' || *c == b'/')
}
st!(CommandContinuationRequestBasic, this => CommandContinuationRequestBasic { code: this.code.into_static(), text: this.text.into_static() });
#[derive(Clone, Debug, Eq, Hash, Ord, PartialEq, PartialOrd)]
pub enum ContinueError<T> { Ambiguous, Text(T) }
impl<T: fmt::Debug> fmt::Display for ContinueError<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{self:?}") } }
impl<T: fmt::Debug> std::error::Error for ContinueError<T> {}

#[derive(Clone, Debug, Eq, Hash, PartialEq)]
#[non_exhaustive]
pub enum Code<'a> {
    Alert,
    BadCharset { allowed: Vec<Atom<'a>> },
    Capability(Vec1<Capability<'a>>),
    Parse,
    PermanentFlags(Vec<FlagPerm<'a>>),
    ReadOnly,
    ReadWrite,
    TryCreate,
    UidNext(NonZeroU32),
    UidValidity(NonZeroU32),
    Unseen(NonZeroU32),
    OverQuota,
    TooBig,
    UnknownCte,
    UidNotSticky,
    Other(CodeOther<'a>),
}
impl<'a> Code<'a> {
    pub fn capability<C>(caps: C) -> Result<Self, C::Error> where C: TryInto<Vec1<Capability<'a>>> { Ok(Self::Capability(caps.try_into()?)) }
}
st!(Code, this => { use Code::*; match this {
    Alert => Alert, BadCharset { allowed } => BadCharset { allowed: allowed.into_static() }, Capability(c) => Capability(c.into_static()), Parse => Parse,
    PermanentFlags(f) => PermanentFlags(f.into_static()), ReadOnly => ReadOnly, ReadWrite => ReadWrite, TryCreate => TryCreate,
    UidNext(n) => UidNext(n), UidValidity(n) => UidValidity(n), Unseen(n) => Unseen(n), OverQuota => OverQuota, TooBig => TooBig, UnknownCte => UnknownCte, UidNotSticky => UidNotSticky,
    Other(o) => Other(o.into_static()) } });
/// An (unknown) code.
#[derive(Clone, Debug, Eq, Hash, PartialEq)]
pub struct CodeOther<'a>(Cow<'a, [u8]>);
impl<'a> CodeOther<'a> {
    pub fn validate(value: impl AsRef<[u8]>) -> Result<(), ValidationError> {
        let v = value.as_ref();
        if v.is_empty() { return err(ValidationErrorKind::Empty); }
        if v.iter().any(|b| matches!(b, b'\r' | b'\n' | b']')) { return err(ValidationErrorKind::Invalid); }
        Ok(())
    }
    pub fn unvalidated<D: Into<Cow<'a, [u8]>>>(data: D) -> Self { Self(data.into()) }
    pub fn inner(&self) -> &[u8] { &self.0 }
}
st!(CodeOther, this => CodeOther(this.0.into_static()));

#[derive(Clone, Debug, Eq, Hash, Ord, PartialEq, PartialOrd)]
#[non_exhaustive]
pub enum Capability<'a> {
    Imap4Rev1,
    Auth(AuthMechanism<'a>),
    LoginDisabled,
    StartTls,
    Idle,
    MailboxReferrals,
    LoginReferrals,
    SaslIr,
    Enable,
    Compress { algorithm: CompressionAlgorithm },
    Quota,
    QuotaRes(Resource<'a>),
    QuotaSet,
    LiteralPlus,
    LiteralMinus,
    Move,
    Id,
    Unselect,
    Sort(Option<SortAlgorithm<'a>>),
    Thread(ThreadingAlgorithm<'a>),
    Metadata,
    MetadataServer,
    Binary,
    UidPlus,
    CondStore,
    QResync,
    Utf8(Utf8Kind),
    Namespace,
    Other(CapabilityOther<'a>),
}
#[derive(Clone, Copy, Debug, Eq, Hash, Ord, PartialEq, PartialOrd)]
pub enum Utf8Kind { Accept, Only }
st_copy!(Utf8Kind);
#[derive(Clone, Debug, Eq, Hash, Ord, PartialEq, PartialOrd)]
pub struct CapabilityOther<'a>(Atom<'a>);
impl<'a> CapabilityOther<'a> { pub fn inner(&self) -> &Atom<'a> { &self.0 } }
st!(CapabilityOther, this => CapabilityOther(this.0.into_static()));
st!(Capability, this => { use Capability::*; match this {
    Imap4Rev1 => Imap4Rev1, Auth(a) => Auth(a.into_static()), LoginDisabled => LoginDisabled, StartTls => StartTls, Idle => Idle, MailboxReferrals => MailboxReferrals, LoginReferrals => LoginReferrals,
    SaslIr => SaslIr, Enable => Enable, Compress { algorithm } => Compress { algorithm }, Quota => Quota, QuotaRes(r) => QuotaRes(r.into_static()), QuotaSet => QuotaSet,
    LiteralPlus => LiteralPlus, LiteralMinus => LiteralMinus, Move => Move, Id => Id, Unselect => Unselect, Sort(s) => Sort(s.into_static()), Thread(t) => Thread(t.into_static()),
    Metadata => Metadata, MetadataServer => MetadataServer, Binary => Binary, UidPlus => UidPlus, CondStore => CondStore, QResync => QResync, Utf8(k) => Utf8(k), Namespace => Namespace,
    Other(o) => Other(o.into_static()) } });
impl<'a> From<Atom<'a>> for Capability<'a> {
    fn from(atom: Atom<'a>) -> Self {
        let up = atom.as_ref().to_ascii_uppercase();
        let rest = |s: &str, p: &str| -> Option<String> { s.to_ascii_uppercase().strip_prefix(p).map(|_| s[p.len()..].to_string()) };
        match up.as_str() {
            "IMAP4REV1" => Self::Imap4Rev1, "LOGINDISABLED" => Self::LoginDisabled, "STARTTLS" => Self::StartTls, "IDLE" => Self::Idle,
            "MAILBOX-REFERRALS" => Self::MailboxReferrals, "LOGIN-REFERRALS" => Self::LoginReferrals, "SASL-IR" => Self::SaslIr, "ENABLE" => Self::Enable,
            "COMPRESS=DEFLATE" => Self::Compress { algorithm: CompressionAlgorithm::Deflate },
            "QUOTA" => Self::Quota, "QUOTASET" => Self::QuotaSet, "LITERAL+" => Self::LiteralPlus, "LITERAL-" => Self::LiteralMinus, "MOVE" => Self::Move, "ID" => Self::Id, "UNSELECT" => Self::Unselect,
            "SORT" => Self::Sort(None), "SORT=DISPLAY" => Self::Sort(Some(SortAlgorithm::Display)),
            "THREAD=ORDEREDSUBJECT" => Self::Thread(ThreadingAlgorithm::OrderedSubject), "THREAD=REFERENCES" => Self::Thread(ThreadingAlgorithm::References),
            "METADATA" => Self::Metadata, "METADATA-SERVER" => Self::MetadataServer, "BINARY" => Self::Binary, "UIDPLUS" => Self::UidPlus,
            "CONDSTORE" => Self::CondStore, "QRESYNC" => Self::QResync, "UTF8=ACCEPT" => Self::Utf8(Utf8Kind::Accept), "UTF8=ONLY" => Self::Utf8(Utf8Kind::Only), "NAMESPACE" => Self::Namespace,
            _ => {
                if let Some(m) = rest(atom.as_ref(), "AUTH=") { if let Ok(a) = Atom::try_from(m) { return Self::Auth(a.into()); } }
                if let Some(m) = rest(atom.as_ref(), "QUOTA=RES-") { if let Ok(a) = Atom::try_from(m) { return Self::QuotaRes(a.into()); } }
                if let Some(m) = rest(atom.as_ref(), "THREAD=") { if let Ok(a) = Atom::try_from(m) { return Self::Thread(ThreadingAlgorithm::Other(a)); } }
                Self::Other(CapabilityOther(atom))
            }
        }
    }
}
impl<'a> TryFrom<&'a str> for Capability<'a> { type Error = ValidationError; fn try_from(v: &'a str) -> Result<Self, ValidationError> { Ok(Atom::try_from(v)?.into()) } }
impl<'a> TryFrom<String> for Capability<'a> { type Error = ValidationError; fn try_from(v: String) -> Result<Self, ValidationError> { Ok(Atom::try_from(v)?.into()) } }
impl<'a> TryFrom<&'a [u8]> for Capability<'a> { type Error = ValidationError; fn try_from(v: &'a [u8]) -> Result<Self, ValidationError> { Ok(Atom::try_from(v)?.into()) } }
impl<'a> fmt::Display for Capability<'a> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Self::Imap4Rev1 => f.write_str("IMAP4REV1"), Self::Auth(m) => write!(f, "AUTH={m}"), Self::LoginDisabled => f.write_str("LOGINDISABLED"), Self::StartTls => f.write_str("STARTTLS"),
            Self::Idle => f.write_str("IDLE"), Self::MailboxReferrals => f.write_str("MAILBOX-REFERRALS"), Self::LoginReferrals => f.write_str("LOGIN-REFERRALS"), Self::SaslIr => f.write_str("SASL-IR"),
            Self::Enable => f.write_str("ENABLE"), Self::Compress { .. } => f.write_str("COMPRESS=DEFLATE"), Self::Quota => f.write_str("QUOTA"), Self::QuotaRes(r) => write!(f, "QUOTA=RES-{}", r.as_ref()),
            Self::QuotaSet => f.write_str("QUOTASET"), Self::LiteralPlus => f.write_str("LITERAL+"), Self::LiteralMinus => f.write_str("LITERAL-"), Self::Move => f.write_str("MOVE"), Self::Id => f.write_str("ID"),
            Self::Unselect => f.write_str("UNSELECT"), Self::Sort(None) => f.write_str("SORT"), Self::Sort(Some(SortAlgorithm::Display)) => f.write_str("SORT=DISPLAY"), Self::Sort(Some(SortAlgorithm::Other(a))) => write!(f, "SORT={a}"),
            Self::Thread(ThreadingAlgorithm::OrderedSubject) => f.write_str("THREAD=ORDEREDSUBJECT"), Self::Thread(ThreadingAlgorithm::References) => f.write_str("THREAD=REFERENCES"), Self::Thread(ThreadingAlgorithm::Other(a)) => write!(f, "THREAD={a}"),
            Self::Metadata => f.write_str("METADATA"), Self::MetadataServer => f.write_str("METADATA-SERVER"), Self::Binary => f.write_str("BINARY"), Self::UidPlus => f.write_str("UIDPLUS"),
            Self::CondStore => f.write_str("CONDSTORE"), Self::QResync => f.write_str("QRESYNC"), Self::Utf8(Utf8Kind::Accept) => f.write_str("UTF8=ACCEPT"), Self::Utf8(Utf8Kind::Only) => f.write_str("UTF8=ONLY"), Self::Namespace => f.write_str("NAMESPACE"),
            Self::Other(o) => f.write_str(o.0.as_ref()),
        }
    }
}
#[allow(unused)] fn _u(_: AString) {}
