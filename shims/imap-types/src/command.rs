use std::borrow::Cow;
use crate::{
    auth::AuthMechanism,
    core::{AString, Charset, IString, Literal, NString, Tag, Vec1},
    extensions::{compress::CompressionAlgorithm, enable::CapabilityEnable, quota::QuotaSet},
    fetch::MacroOrMessageDataItemNames,
    flag::{Flag, StoreResponse, StoreType},
    mailbox::{ListMailbox, Mailbox},
    search::SearchKey,
    secret::Secret,
    sequence::SequenceSet,
    status::StatusDataItemName,
};

#[derive(Clone, Debug, Eq, Hash, PartialEq)]
pub struct Command<'a> { pub tag: Tag<'a>, pub body: CommandBody<'a> }
impl<'a> Command<'a> {
    pub fn new<T>(tag: T, body: CommandBody<'a>) -> Result<Self, T::Error> where T: TryInto<Tag<'a>> { Ok(Self { tag: tag.try_into()?, body }) }
    pub fn name(&self) -> &'static str { self.body.name() }
}
st!(Command, this => Command { tag: this.tag.into_static(), body: this.body.into_static() });

#[derive(Clone, Debug, Eq, Hash, PartialEq)]
#[non_exhaustive]
pub enum CommandBody<'a> {
    Capability,
    Noop,
    Logout,
    StartTLS,
    Authenticate { mechanism: AuthMechanism<'a>, initial_response: Option<Secret<Cow<'a, [u8]>>> },
    Login { username: AString<'a>, password: Secret<AString<'a>> },
    Select { mailbox: Mailbox<'a> },
    Unselect,
    Examine { mailbox: Mailbox<'a> },
    Create { mailbox: Mailbox<'a> },
    Delete { mailbox: Mailbox<'a> },
    Rename { from: Mailbox<'a>, to: Mailbox<'a> },
    Subscribe { mailbox: Mailbox<'a> },
    Unsubscribe { mailbox: Mailbox<'a> },
    Append { mailbox: Mailbox<'a>, flags: Vec<Flag<'a>>, message: Literal<'a> },
    Status { mailbox: Mailbox<'a>, item_names: Cow<'a, [StatusDataItemName]> },
    List { reference: Mailbox<'a>, mailbox_wildcard: ListMailbox<'a> },
    Lsub { reference: Mailbox<'a>, mailbox_wildcard: ListMailbox<'a> },
    Search { charset: Option<Charset<'a>>, criteria: Vec1<SearchKey<'a>>, uid: bool },
    Fetch { sequence_set: SequenceSet, macro_or_item_names: MacroOrMessageDataItemNames<'a>, uid: bool },
    Store { sequence_set: SequenceSet, kind: StoreType, response: StoreResponse, flags: Vec<Flag<'a>>, uid: bool },
    Copy { sequence_set: SequenceSet, mailbox: Mailbox<'a>, uid: bool },
    Move { sequence_set: SequenceSet, mailbox: Mailbox<'a>, uid: bool },
    Enable { capabilities: Vec1<CapabilityEnable<'a>> },
    GetQuota { root: AString<'a> },
    GetQuotaRoot { mailbox: Mailbox<'a> },
    SetQuota { root: AString<'a>, quotas: Vec<QuotaSet<'a>> },
    Check,
    Close,
    Expunge,
    Idle,
    Compress { algorithm: CompressionAlgorithm },
    Id { parameters: Option<Vec<(IString<'a>, NString<'a>)>> },
}
impl<'a> CommandBody<'a> {
    pub fn tag<T>(self, tag: T) -> Result<Command<'a>, T::Error> where T: TryInto<Tag<'a>> { Ok(Command { tag: tag.try_into()?, body: self }) }
    pub fn authenticate(mechanism: AuthMechanism<'a>) -> Self { CommandBody::Authenticate { mechanism, initial_response: None } }
    pub fn authenticate_with_ir<I: Into<Cow<'a, [u8]>>>(mechanism: AuthMechanism<'a>, initial_response: I) -> Self {
        CommandBody::Authenticate { mechanism, initial_response: Some(Secret::new(initial_response.into())) }
    }
    pub fn login<U, P>(username: U, password: P) -> Result<Self, LoginError<U::Error, P::Error>>
    where U: TryInto<AString<'a>>, P: TryInto<AString<'a>> {
        Ok(CommandBody::Login {
            username: username.try_into().map_err(LoginError::Username)?,
            password: Secret::new(password.try_into().map_err(LoginError::Password)?),
        })
    }
    pub fn select<M>(mailbox: M) -> Result<Self, M::Error> where M: TryInto<Mailbox<'a>> { Ok(CommandBody::Select { mailbox: mailbox.try_into()? }) }
    pub fn create<M>(mailbox: M) -> Result<Self, M::Error> where M: TryInto<Mailbox<'a>> { Ok(CommandBody::Create { mailbox: mailbox.try_into()? }) }
    pub fn compress(algorithm: CompressionAlgorithm) -> Self { CommandBody::Compress { algorithm } }
    pub fn name(&self) -> &'static str {
        match self {
            Self::Capability => "CAPABILITY", Self::Noop => "NOOP", Self::Logout => "LOGOUT", Self::StartTLS => "STARTTLS",
            Self::Authenticate { .. } => "AUTHENTICATE", Self::Login { .. } => "LOGIN", Self::Select { .. } => "SELECT",
            Self::Unselect => "UNSELECT", Self::Examine { .. } => "EXAMINE", Self::Create { .. } => "CREATE", Self::Delete { .. } => "DELETE",
            Self::Rename { .. } => "RENAME", Self::Subscribe { .. } => "SUBSCRIBE", Self::Unsubscribe { .. } => "UNSUBSCRIBE",
            Self::Append { .. } => "APPEND", Self::Check => "CHECK", Self::Close => "CLOSE", Self::Expunge => "EXPUNGE",
            Self::Status { .. } => "STATUS", Self::List { .. } => "LIST", Self::Lsub { .. } => "LSUB", Self::Search { .. } => "SEARCH", Self::Fetch { .. } => "FETCH", Self::Store { .. } => "STORE",
            Self::Copy { .. } => "COPY", Self::Move { .. } => "MOVE", Self::Enable { .. } => "ENABLE", Self::GetQuota { .. } => "GETQUOTA", Self::GetQuotaRoot { .. } => "GETQUOTAROOT", Self::SetQuota { .. } => "SETQUOTA",
            Self::Idle => "IDLE", Self::Compress { .. } => "COMPRESS", Self::Id { .. } => "ID",
        }
    }
}
#[derive(Clone, Debug, Eq, PartialEq)]
pub enum LoginError<U, P> { Username(U), Password(P) }
impl<U: std::fmt::Debug, P: std::fmt::Debug> std::fmt::Display for LoginError<U, P> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{self:?}") } }
impl<U: std::fmt::Debug, P: std::fmt::Debug> std::error::Error for LoginError<U, P> {}
st!(CommandBody, this => {
    use CommandBody::*;
    match this {
        Capability => Capability, Noop => Noop, Logout => Logout, StartTLS => StartTLS,
        Authenticate { mechanism, initial_response } => Authenticate { mechanism: mechanism.into_static(), initial_response: initial_response.into_static() },
        Login { username, password } => Login { username: username.into_static(), password: password.into_static() },
        Select { mailbox } => Select { mailbox: mailbox.into_static() }, Unselect => Unselect,
        Examine { mailbox } => Examine { mailbox: mailbox.into_static() }, Create { mailbox } => Create { mailbox: mailbox.into_static() },
        Delete { mailbox } => Delete { mailbox: mailbox.into_static() }, Rename { from, to } => Rename { from: from.into_static(), to: to.into_static() },
        Subscribe { mailbox } => Subscribe { mailbox: mailbox.into_static() }, Unsubscribe { mailbox } => Unsubscribe { mailbox: mailbox.into_static() },
        Append { mailbox, flags, message } => Append { mailbox: mailbox.into_static(), flags: flags.into_static(), message: message.into_static() },
        Status { mailbox, item_names } => Status { mailbox: mailbox.into_static(), item_names: Cow::Owned(item_names.into_owned()) },
        List { reference, mailbox_wildcard } => List { reference: reference.into_static(), mailbox_wildcard: mailbox_wildcard.into_static() },
        Lsub { reference, mailbox_wildcard } => Lsub { reference: reference.into_static(), mailbox_wildcard: mailbox_wildcard.into_static() },
        Search { charset, criteria, uid } => Search { charset: charset.into_static(), criteria: criteria.into_static(), uid },
        Fetch { sequence_set, macro_or_item_names, uid } => Fetch { sequence_set, macro_or_item_names: macro_or_item_names.into_static(), uid },
        Store { sequence_set, kind, response, flags, uid } => Store { sequence_set, kind, response, flags: flags.into_static(), uid },
        Copy { sequence_set, mailbox, uid } => Copy { sequence_set, mailbox: mailbox.into_static(), uid },
        Move { sequence_set, mailbox, uid } => Move { sequence_set, mailbox: mailbox.into_static(), uid },
        Enable { capabilities } => Enable { capabilities: capabilities.into_static() },
        GetQuota { root } => GetQuota { root: root.into_static() }, GetQuotaRoot { mailbox } => GetQuotaRoot { mailbox: mailbox.into_static() },
        SetQuota { root, quotas } => SetQuota { root: root.into_static(), quotas: quotas.into_static() },
        Check => Check, Close => Close, Expunge => Expunge, Idle => Idle, Compress { algorithm } => Compress { algorithm },
        Id { parameters } => Id { parameters: parameters.into_static() },
    }
});
