//! Hand-written streaming parsers.
use std::borrow::Cow;
use std::num::NonZeroU32;

use imap_types::{
    auth::{AuthMechanism, AuthenticateData},
    command::{Command, CommandBody},
    core::{AString, Atom, AtomExt, Charset, IString, Literal, LiteralMode, NString, Quoted, QuotedChar, Tag, Text, Vec1},
    extensions::{compress::CompressionAlgorithm, enable::CapabilityEnable, idle::IdleDone, quota::{QuotaGet, QuotaSet}},
    fetch::{Macro, MacroOrMessageDataItemNames, MessageDataItem, MessageDataItemName},
    flag::{Flag, FlagFetch, FlagPerm, StoreResponse, StoreType},
    mailbox::{ListCharString, ListMailbox, Mailbox},
    response::*,
    search::SearchKey,
    secret::Secret,
    sequence::{SeqOrUid, Sequence, SequenceSet},
    status::{StatusDataItem, StatusDataItemName},
    utils::indicators::*,
};

use crate::b64;

#[derive(Clone, Debug, PartialEq)]
pub enum PErr { Failed, Incomplete, Literal { length: u32, mode: LiteralMode } }
type R<T> = Result<T, PErr>;

pub struct P<'a> { input: &'a [u8], pos: usize, tag: Option<Tag<'a>> }

pub fn run<'a, T>(input: &'a [u8], f: impl FnOnce(&mut P<'a>) -> R<T>) -> Result<(&'a [u8], T), (PErr, Option<Tag<'a>>)> {
    let mut p = P { input, pos: 0, tag: None };
    match f(&mut p) { Ok(t) => Ok((&input[p.pos..], t)), Err(e) => Err((e, p.tag)) }
}

impl<'a> P<'a> {
    fn rest(&self) -> &'a [u8] { &self.input[self.pos..] }
    fn peek(&self) -> R<u8> { self.rest().first().copied().ok_or(PErr::Incomplete) }
    fn byte(&mut self, b: u8) -> R<()> { if self.peek()? == b { self.pos += 1; Ok(()) } else { Err(PErr::Failed) } }
    fn sp(&mut self) -> R<()> { self.byte(b' ') }
    /// Case-insensitive keyword (prefix).
    fn kw(&mut self, s: &str) -> R<()> {
        let r = self.rest();
        let n = r.len().min(s.len());
        if !r[..n].eq_ignore_ascii_case(&s.as_bytes()[..n]) { return Err(PErr::Failed); }
        if n < s.len() { return Err(PErr::Incomplete); }
        self.pos += n;
        Ok(())
    }
    fn while1(&mut self, f: impl Fn(u8) -> bool) -> R<&'a [u8]> {
        let r = self.rest();
        match r.iter().position(|b| !f(*b)) {
            None => Err(PErr::Incomplete),
            Some(0) => Err(PErr::Failed),
            Some(n) => { self.pos += n; Ok(&r[..n]) }
        }
    }
    fn crlf(&mut self) -> R<()> {
        match self.peek()? {
            b'\n' => { self.pos += 1; Ok(()) }
            b'\r' => match self.rest().get(1) {
                None => Err(PErr::Incomplete),
                Some(b'\n') => { self.pos += 2; Ok(()) }
                Some(_) => Err(PErr::Failed),
            },
            _ => Err(PErr::Failed),
        }
    }
    fn number(&mut self) -> R<u32> {
        let d = self.while1(|b| b.is_ascii_digit())?;
        std::str::from_utf8(d).unwrap().parse().map_err(|_| PErr::Failed)
    }
    fn nz(&mut self) -> R<NonZeroU32> { NonZeroU32::new(self.number()?).ok_or(PErr::Failed) }
    fn atom(&mut self) -> R<Atom<'a>> { let b = self.while1(is_atom_char)?; Atom::try_from(b).map_err(|_| PErr::Failed) }
    fn tag(&mut self) -> R<Tag<'a>> { let b = self.while1(|b| is_astring_char(b) && b != b'+')?; Tag::try_from(b).map_err(|_| PErr::Failed) }
    fn text(&mut self) -> R<Text<'a>> { let b = self.while1(is_text_char)?; Text::try_from(b).map_err(|_| PErr::Failed) }
    fn quoted(&mut self) -> R<Quoted<'a>> {
        self.byte(b'"')?;
        let mut out: Vec<u8> = vec![];
        let start = self.pos;
        let mut esc = false;
        loop {
            match self.peek()? {
                b'"' => break,
                b'\\' => {
                    esc = true;
                    match self.rest().get(1) { None => return Err(PErr::Incomplete), Some(c @ (b'"' | b'\\')) => { out.push(*c); self.pos += 2; } Some(_) => return Err(PErr::Failed) }
                }
                c if is_any_text_char_except_quoted_specials(c) => { out.push(c); self.pos += 1; }
                _ => return Err(PErr::Failed),
            }
        }
        let raw = &self.input[start..self.pos];
        self.pos += 1;
        if esc { Quoted::try_from(out).map_err(|_| PErr::Failed) } else { Quoted::try_from(raw).map_err(|_| PErr::Failed) }
    }
    fn literal(&mut self) -> R<Literal<'a>> {
        self.byte(b'{')?;
        let length = self.number()?;
        let mode = if self.peek()? == b'+' { self.pos += 1; LiteralMode::NonSync } else { LiteralMode::Sync };
        self.byte(b'}')?;
        self.crlf()?;
        if self.rest().is_empty() { return Err(PErr::Literal { length, mode }); }
        if self.rest().len() < length as usize { return Err(PErr::Incomplete); }
        let data = &self.rest()[..length as usize];
        self.pos += length as usize;
        let l = Literal::try_from(data).map_err(|_| PErr::Failed)?;
        Ok(match mode { LiteralMode::Sync => l, LiteralMode::NonSync => l.into_non_sync() })
    }
    fn istring(&mut self) -> R<IString<'a>> {
        match self.peek()? { b'"' => Ok(self.quoted()?.into()), b'{' => Ok(self.literal()?.into()), _ => Err(PErr::Failed) }
    }
    fn nstring(&mut self) -> R<NString<'a>> {
        match self.peek()? { b'n' | b'N' => { self.kw("NIL")?; Ok(NString(None)) } _ => Ok(NString(Some(self.istring()?))) }
    }
    fn astring(&mut self) -> R<AString<'a>> {
        match self.peek()? {
            b'"' | b'{' => Ok(AString::String(self.istring()?)),
            _ => { let b = self.while1(is_astring_char)?; Ok(AString::Atom(AtomExt::try_from(b).map_err(|_| PErr::Failed)?)) }
        }
    }
    fn mailbox(&mut self) -> R<Mailbox<'a>> { Ok(self.astring()?.into()) }
    fn base64(&mut self) -> R<Vec<u8>> {
        let r = self.rest();
        let n = r.iter().position(|b| !(b.is_ascii_alphanumeric() || matches!(b, b'+' | b'/' | b'='))).ok_or(PErr::Incomplete)?;
        let d = b64::decode(&r[..n]).ok_or(PErr::Failed)?;
        self.pos += n;
        Ok(d)
    }
    fn flag(&mut self) -> R<Flag<'a>> {
        if self.peek()? == b'\\' {
            self.pos += 1;
            let a = self.atom()?;
            return match a.as_ref().to_ascii_lowercase().as_str() { "answered" => Ok(Flag::Answered), "deleted" => Ok(Flag::Deleted), "draft" => Ok(Flag::Draft), "flagged" => Ok(Flag::Flagged), "seen" => Ok(Flag::Seen), _ => Err(PErr::Failed) };
        }
        Ok(Flag::Keyword(self.atom()?))
    }
    fn list<T>(&mut self, mut item: impl FnMut(&mut Self) -> R<T>) -> R<Vec<T>> {
        self.byte(b'(')?;
        let mut out = vec![];
        if self.peek()? == b')' { self.pos += 1; return Ok(out); }
        loop {
            out.push(item(self)?);
            match self.peek()? { b' ' => self.pos += 1, b')' => { self.pos += 1; return Ok(out); } _ => return Err(PErr::Failed) }
        }
    }
    fn id_params(&mut self) -> R<Option<Vec<(IString<'a>, NString<'a>)>>> {
        if self.peek()? == b'(' { Ok(Some(self.list(|p| { let k = p.istring()?; p.sp()?; Ok((k, p.nstring()?)) })?)) } else { self.kw("NIL")?; Ok(None) }
    }
    fn number64(&mut self) -> R<u64> {
        let d = self.while1(|b| b.is_ascii_digit())?;
        std::str::from_utf8(d).unwrap().parse().map_err(|_| PErr::Failed)
    }
    fn seq_or_uid(&mut self) -> R<SeqOrUid> { if self.peek()? == b'*' { self.pos += 1; Ok(SeqOrUid::Asterisk) } else { Ok(SeqOrUid::Value(self.nz()?)) } }
    fn sequence_set(&mut self) -> R<SequenceSet> {
        let mut out = vec![];
        loop {
            let a = self.seq_or_uid()?;
            out.push(if self.peek()? == b':' { self.pos += 1; Sequence::Range(a, self.seq_or_uid()?) } else { Sequence::Single(a) });
            if self.peek()? == b',' { self.pos += 1 } else { break }
        }
        Ok(SequenceSet(Vec1::try_from(out).map_err(|_| PErr::Failed)?))
    }
    fn list_mailbox(&mut self) -> R<ListMailbox<'a>> {
        match self.peek()? {
            b'"' | b'{' => Ok(ListMailbox::String(self.istring()?)),
            _ => { let b = self.while1(is_list_char)?; Ok(ListMailbox::Token(ListCharString::try_from(b).map_err(|_| PErr::Failed)?)) }
        }
    }
    /// One of these words, the longest first.
    fn word(&mut self) -> R<Vec<u8>> { Ok(self.while1(|b| b.is_ascii_alphanumeric() || matches!(b, b'.' | b'-'))?.to_ascii_uppercase()) }
    fn search_key(&mut self, depth: usize) -> R<SearchKey<'a>> {
        use SearchKey::*;
        if depth > 8 { return Err(PErr::Failed) }
        if matches!(self.peek()?, b'0'..=b'9' | b'*') { return Ok(SearchKey::SequenceSet(self.sequence_set()?)) }
        let w = self.word()?;
        Ok(match w.as_slice() {
            b"ALL" => All, b"ANSWERED" => Answered, b"DELETED" => Deleted, b"DRAFT" => Draft, b"FLAGGED" => Flagged, b"NEW" => New, b"OLD" => Old, b"RECENT" => Recent, b"SEEN" => Seen,
            b"UNANSWERED" => Unanswered, b"UNDELETED" => Undeleted, b"UNDRAFT" => Undraft, b"UNFLAGGED" => Unflagged, b"UNSEEN" => Unseen,
            b"BCC" => { self.sp()?; Bcc(self.astring()?) } b"BODY" => { self.sp()?; Body(self.astring()?) } b"CC" => { self.sp()?; Cc(self.astring()?) } b"FROM" => { self.sp()?; From(self.astring()?) }
            b"SUBJECT" => { self.sp()?; Subject(self.astring()?) } b"TEXT" => { self.sp()?; Text(self.astring()?) } b"TO" => { self.sp()?; To(self.astring()?) }
            b"HEADER" => { self.sp()?; let k = self.astring()?; self.sp()?; Header(k, self.astring()?) }
            b"KEYWORD" => { self.sp()?; Keyword(self.atom()?) } b"UNKEYWORD" => { self.sp()?; Unkeyword(self.atom()?) }
            b"LARGER" => { self.sp()?; Larger(self.number()?) } b"SMALLER" => { self.sp()?; Smaller(self.number()?) } b"UID" => { self.sp()?; Uid(self.sequence_set()?) }
            b"NOT" => { self.sp()?; Not(Box::new(self.search_key(depth + 1)?)) }
            b"OR" => { self.sp()?; let a = self.search_key(depth + 1)?; self.sp()?; Or(Box::new(a), Box::new(self.search_key(depth + 1)?)) }
            _ => return Err(PErr::Failed),
        })
    }
    fn item_name(&mut self) -> R<MessageDataItemName<'a>> {
        let w = self.word()?;
        MessageDataItemName::ALL.into_iter().find(|(t, _)| t.as_bytes() == w).map(|(_, i)| i).ok_or(PErr::Failed)
    }
    fn caps(&mut self) -> R<Vec1<Capability<'a>>> {
        let mut out = vec![];
        while self.peek()? == b' ' {
            self.pos += 1;
            out.push(Capability::from(self.atom()?));
        }
        Vec1::try_from(out).map_err(|_| PErr::Failed)
    }
    fn code(&mut self) -> R<Code<'a>> {
        // Work on the bytes up to `]`.
        let r = self.rest();
        let end = r.iter().position(|b| matches!(b, b']' | b'\r' | b'\n')).ok_or(PErr::Incomplete)?;
        if r[end] != b']' || end == 0 { return Err(PErr::Failed); }
        let inner = &r[..end + 1];
        let mut p = P { input: inner, pos: 0, tag: None };
        let known = (|| -> R<Code<'a>> {
            let name = p.while1(|b| is_atom_char(b))?;
            let c = match name.to_ascii_uppercase().as_slice() {
                b"ALERT" => Code::Alert, b"PARSE" => Code::Parse, b"READ-ONLY" => Code::ReadOnly, b"READ-WRITE" => Code::ReadWrite, b"TRYCREATE" => Code::TryCreate,
                b"OVERQUOTA" => Code::OverQuota, b"TOOBIG" => Code::TooBig, b"UNKNOWN-CTE" => Code::UnknownCte, b"UIDNOTSTICKY" => Code::UidNotSticky,
                b"UIDNEXT" => { p.sp()?; Code::UidNext(p.nz()?) } b"UIDVALIDITY" => { p.sp()?; Code::UidValidity(p.nz()?) } b"UNSEEN" => { p.sp()?; Code::Unseen(p.nz()?) }
                b"CAPABILITY" => Code::Capability(p.caps()?),
                b"PERMANENTFLAGS" => { p.sp()?; Code::PermanentFlags(p.list(|p| { if p.rest().starts_with(b"\\*") { p.pos += 2; Ok(FlagPerm::Asterisk) } else { Ok(FlagPerm::Flag(p.flag()?)) } })?) }
                b"BADCHARSET" => { if p.peek()? == b' ' { p.sp()?; Code::BadCharset { allowed: p.list(|p| p.atom())? } } else { Code::BadCharset { allowed: vec![] } } }
                _ => return Err(PErr::Failed),
            };
            if p.pos != end { return Err(PErr::Failed); }
            Ok(c)
        })();
        self.pos += end;
        Ok(known.unwrap_or_else(|_| Code::Other(CodeOther::unvalidated(&r[..end]))))
    }
    fn resp_text(&mut self) -> R<(Option<Code<'a>>, Text<'a>)> {
        if self.peek()? == b'[' {
            self.pos += 1;
            let c = self.code()?;
            self.byte(b']')?;
            self.sp()?;
            return Ok((Some(c), self.text()?));
        }
        Ok((None, self.text()?))
    }
}

pub fn greeting<'a>(p: &mut P<'a>) -> R<Greeting<'a>> {
    p.kw("* ")?;
    let k = p.while1(|b| b.is_ascii_alphabetic())?;
    let kind = match k.to_ascii_uppercase().as_slice() { b"OK" => GreetingKind::Ok, b"PREAUTH" => GreetingKind::PreAuth, b"BYE" => GreetingKind::Bye, _ => return Err(PErr::Failed) };
    p.sp()?;
    let (code, text) = p.resp_text()?;
    p.crlf()?;
    Ok(Greeting { kind, code, text })
}

pub fn command<'a>(p: &mut P<'a>) -> R<Command<'a>> {
    let tag = p.tag()?;
    p.tag = Some(tag.clone());
    p.sp()?;
    let mut name = p.while1(|b| b.is_ascii_alphanumeric())?.to_ascii_uppercase();
    let uid = name == b"UID";
    if uid {
        p.sp()?;
        name = p.while1(|b| b.is_ascii_alphanumeric())?.to_ascii_uppercase();
        if !matches!(name.as_slice(), b"SEARCH" | b"FETCH" | b"STORE" | b"COPY" | b"MOVE") { return Err(PErr::Failed) }
    }
    let body = match name.as_slice() {
        b"CAPABILITY" => CommandBody::Capability, b"NOOP" => CommandBody::Noop, b"LOGOUT" => CommandBody::Logout, b"STARTTLS" => CommandBody::StartTLS,
        b"UNSELECT" => CommandBody::Unselect, b"CHECK" => CommandBody::Check, b"CLOSE" => CommandBody::Close, b"EXPUNGE" => CommandBody::Expunge, b"IDLE" => CommandBody::Idle,
        b"AUTHENTICATE" => {
            p.sp()?;
            let mechanism = AuthMechanism::from(p.atom()?);
            let initial_response = if p.peek()? == b' ' {
                p.sp()?;
                if p.peek()? == b'=' { p.byte(b'=')?; Some(Secret::new(Cow::Owned(vec![]))) } else { let d = p.base64()?; if d.is_empty() { return Err(PErr::Failed); } Some(Secret::new(Cow::Owned(d))) }
            } else { None };
            CommandBody::Authenticate { mechanism, initial_response }
        }
        b"LOGIN" => { p.sp()?; let u = p.astring()?; p.sp()?; let w = p.astring()?; CommandBody::Login { username: u, password: Secret::new(w) } }
        b"SELECT" => { p.sp()?; CommandBody::Select { mailbox: p.mailbox()? } }
        b"EXAMINE" => { p.sp()?; CommandBody::Examine { mailbox: p.mailbox()? } }
        b"CREATE" => { p.sp()?; CommandBody::Create { mailbox: p.mailbox()? } }
        b"DELETE" => { p.sp()?; CommandBody::Delete { mailbox: p.mailbox()? } }
        b"SUBSCRIBE" => { p.sp()?; CommandBody::Subscribe { mailbox: p.mailbox()? } }
        b"UNSUBSCRIBE" => { p.sp()?; CommandBody::Unsubscribe { mailbox: p.mailbox()? } }
        b"RENAME" => { p.sp()?; let from = p.mailbox()?; p.sp()?; CommandBody::Rename { from, to: p.mailbox()? } }
        b"APPEND" => {
            p.sp()?;
            let mailbox = p.mailbox()?;
            p.sp()?;
            let flags = if p.peek()? == b'(' { let f = p.list(|p| p.flag())?; p.sp()?; f } else { vec![] };
            CommandBody::Append { mailbox, flags, message: p.literal()? }
        }
        b"STATUS" => {
            p.sp()?;
            let mailbox = p.mailbox()?;
            p.sp()?;
            let items = p.list(|p| { let w = p.word()?; StatusDataItemName::ALL.into_iter().find(|(t, _)| t.as_bytes() == w).map(|(_, i)| i).ok_or(PErr::Failed) })?;
            CommandBody::Status { mailbox, item_names: Cow::Owned(items) }
        }
        n @ (b"LIST" | b"LSUB") => {
            p.sp()?;
            let reference = p.mailbox()?;
            p.sp()?;
            let mailbox_wildcard = p.list_mailbox()?;
            if n == b"LIST" { CommandBody::List { reference, mailbox_wildcard } } else { CommandBody::Lsub { reference, mailbox_wildcard } }
        }
        b"SEARCH" => {
            p.sp()?;
            let charset = if p.rest().get(..7).is_some_and(|w| w.eq_ignore_ascii_case(b"CHARSET")) { p.kw("CHARSET ")?; let c = if p.peek()? == b'"' { Charset::Quoted(p.quoted()?) } else { Charset::Atom(p.atom()?) }; p.sp()?; Some(c) } else { None };
            let mut keys = vec![p.search_key(0)?];
            while p.peek()? == b' ' { p.sp()?; keys.push(p.search_key(0)?) }
            CommandBody::Search { charset, criteria: Vec1::try_from(keys).map_err(|_| PErr::Failed)?, uid }
        }
        b"FETCH" => {
            p.sp()?;
            let sequence_set = p.sequence_set()?;
            p.sp()?;
            let macro_or_item_names = if p.peek()? == b'(' { MacroOrMessageDataItemNames::MessageDataItemNames(p.list(|p| p.item_name())?) } else {
                let save = p.pos;
                match p.word()?.as_slice() { b"ALL" => Macro::All.into(), b"FAST" => Macro::Fast.into(), b"FULL" => Macro::Full.into(), _ => { p.pos = save; vec![p.item_name()?].into() } }
            };
            CommandBody::Fetch { sequence_set, macro_or_item_names, uid }
        }
        b"STORE" => {
            p.sp()?;
            let sequence_set = p.sequence_set()?;
            p.sp()?;
            let kind = match p.peek()? { b'+' => { p.pos += 1; StoreType::Add } b'-' => { p.pos += 1; StoreType::Remove } _ => StoreType::Replace };
            let response = match p.word()?.as_slice() { b"FLAGS" => StoreResponse::Answer, b"FLAGS.SILENT" => StoreResponse::Silent, _ => return Err(PErr::Failed) };
            p.sp()?;
            CommandBody::Store { sequence_set, kind, response, flags: p.list(|p| p.flag())?, uid }
        }
        n @ (b"COPY" | b"MOVE") => {
            p.sp()?;
            let sequence_set = p.sequence_set()?;
            p.sp()?;
            let mailbox = p.mailbox()?;
            if n == b"COPY" { CommandBody::Copy { sequence_set, mailbox, uid } } else { CommandBody::Move { sequence_set, mailbox, uid } }
        }
        b"ENABLE" => {
            let mut v = vec![];
            while p.peek()? == b' ' { p.sp()?; v.push(CapabilityEnable::from(p.atom()?)) }
            CommandBody::Enable { capabilities: Vec1::try_from(v).map_err(|_| PErr::Failed)? }
        }
        b"GETQUOTA" => { p.sp()?; CommandBody::GetQuota { root: p.astring()? } }
        b"GETQUOTAROOT" => { p.sp()?; CommandBody::GetQuotaRoot { mailbox: p.mailbox()? } }
        b"SETQUOTA" => { p.sp()?; let root = p.astring()?; p.sp()?; CommandBody::SetQuota { root, quotas: p.list(|p| { let resource = p.atom()?.into(); p.sp()?; Ok(QuotaSet { resource, limit: p.number64()? }) })? } }
        b"COMPRESS" => { p.sp()?; p.kw("DEFLATE")?; CommandBody::Compress { algorithm: CompressionAlgorithm::Deflate } }
        b"ID" => { p.sp()?; CommandBody::Id { parameters: p.id_params()? } }
        _ => return Err(PErr::Failed),
    };
    p.crlf()?;
    Ok(Command { tag, body })
}

pub fn authenticate_data<'a>(p: &mut P<'a>) -> R<AuthenticateData<'a>> {
    let d = if p.peek()? == b'*' { p.pos += 1; AuthenticateData::Cancel } else { AuthenticateData::Continue(Secret::new(Cow::Owned(p.base64()?))) };
    p.crlf()?;
    Ok(d)
}
pub fn idle_done(p: &mut P<'_>) -> R<IdleDone> { p.kw("DONE")?; p.crlf()?; Ok(IdleDone) }

fn status_kind(k: &[u8]) -> Option<StatusKind> { match k.to_ascii_uppercase().as_slice() { b"OK" => Some(StatusKind::Ok), b"NO" => Some(StatusKind::No), b"BAD" => Some(StatusKind::Bad), _ => None } }

pub fn response<'a>(p: &mut P<'a>) -> R<Response<'a>> {
    match p.peek()? {
        b'+' => {
            p.pos += 1;
            p.sp()?;
            let save = p.pos;
            // Base64 first (ambiguity rule of imap-codec).
            match p.base64().and_then(|d| p.crlf().map(|_| d)) {
                Ok(d) => return Ok(Response::CommandContinuationRequest(CommandContinuationRequest::Base64(Cow::Owned(d)))),
                Err(PErr::Incomplete) => return Err(PErr::Incomplete),
                Err(_) => p.pos = save,
            }
            let (code, text) = p.resp_text()?;
            p.crlf()?;
            let b = CommandContinuationRequestBasic::new(code, text).map_err(|_: ContinueError<std::convert::Infallible>| PErr::Failed)?;
            Ok(Response::CommandContinuationRequest(CommandContinuationRequest::Basic(b)))
        }
        b'*' => {
            p.pos += 1;
            p.sp()?;
            if p.peek()?.is_ascii_digit() { return numeric(p); }
            let name = p.while1(|b| b.is_ascii_alphanumeric())?;
            if let Some(kind) = status_kind(name) {
                p.sp()?;
                let (code, text) = p.resp_text()?;
                p.crlf()?;
                return Ok(Response::Status(Status::Untagged(StatusBody { kind, code, text })));
            }
            let data = match name.to_ascii_uppercase().as_slice() {
                b"BYE" => { p.sp()?; let (code, text) = p.resp_text()?; p.crlf()?; return Ok(Response::Status(Status::Bye(Bye { code, text }))); }
                b"CAPABILITY" => Data::Capability(p.caps()?),
                n @ (b"LIST" | b"LSUB") => {
                    p.sp()?;
                    let items = p.list(|p| { if p.peek()? == b'\\' { p.pos += 1; } p.atom() })?;
                    p.sp()?;
                    let delimiter = if p.peek()? == b'"' { p.pos += 1; let mut c = p.peek()?; p.pos += 1; if c == b'\\' { c = p.peek()?; p.pos += 1; } p.byte(b'"')?; Some(QuotedChar::try_from(c as char).map_err(|_| PErr::Failed)?) } else { p.kw("NIL")?; None };
                    p.sp()?;
                    let mailbox = p.mailbox()?;
                    if n == b"LIST" { Data::List { items, delimiter, mailbox } } else { Data::Lsub { items, delimiter, mailbox } }
                }
                b"SEARCH" => { let mut v = vec![]; while p.peek()? == b' ' { p.pos += 1; v.push(p.nz()?); } Data::Search(v) }
                b"SORT" => { let mut v = vec![]; while p.peek()? == b' ' { p.pos += 1; v.push(p.nz()?); } Data::Sort(v) }
                b"STATUS" => {
                    p.sp()?;
                    let mailbox = p.mailbox()?;
                    p.sp()?;
                    let items = p.list(|p| {
                        let w = p.word()?;
                        p.sp()?;
                        Ok(match w.as_slice() {
                            b"MESSAGES" => StatusDataItem::Messages(p.number()?), b"RECENT" => StatusDataItem::Recent(p.number()?), b"UIDNEXT" => StatusDataItem::UidNext(p.nz()?), b"UIDVALIDITY" => StatusDataItem::UidValidity(p.nz()?),
                            b"UNSEEN" => StatusDataItem::Unseen(p.number()?), b"DELETED" => StatusDataItem::Deleted(p.number()?), b"DELETED-STORAGE" => StatusDataItem::DeletedStorage(p.number64()?), _ => return Err(PErr::Failed),
                        })
                    })?;
                    Data::Status { mailbox, items: Cow::Owned(items) }
                }
                b"QUOTA" => {
                    p.sp()?;
                    let root = p.astring()?;
                    p.sp()?;
                    let quotas = p.list(|p| { let resource = p.atom()?.into(); p.sp()?; let usage = p.number64()?; p.sp()?; Ok(QuotaGet { resource, usage, limit: p.number64()? }) })?;
                    Data::Quota { root, quotas: Vec1::try_from(quotas).map_err(|_| PErr::Failed)? }
                }
                b"QUOTAROOT" => { p.sp()?; let mailbox = p.mailbox()?; let mut roots = vec![]; while p.peek()? == b' ' { p.pos += 1; roots.push(p.astring()?) } Data::QuotaRoot { mailbox, roots } }
                b"FLAGS" => { p.sp()?; Data::Flags(p.list(|p| p.flag())?) }
                b"ENABLED" => { let mut v = vec![]; while p.peek()? == b' ' { p.pos += 1; v.push(p.atom()?); } Data::Enabled { capabilities: v } }
                b"ID" => { p.sp()?; Data::Id { parameters: p.id_params()? } }
                _ => return Err(PErr::Failed),
            };
            p.crlf()?;
            Ok(Response::Data(data))
        }
        _ => {
            let tag = p.tag()?;
            p.sp()?;
            let k = p.while1(|b| b.is_ascii_alphabetic())?;
            let kind = status_kind(k).ok_or(PErr::Failed)?;
            p.sp()?;
            let (code, text) = p.resp_text()?;
            p.crlf()?;
            Ok(Response::Status(Status::Tagged(Tagged { tag, body: StatusBody { kind, code, text } })))
        }
    }
}
fn numeric<'a>(p: &mut P<'a>) -> R<Response<'a>> {
    let n = p.number()?;
    p.sp()?;
    let name = p.while1(|b| b.is_ascii_alphabetic())?.to_ascii_uppercase();
    let nz = || NonZeroU32::new(n).ok_or(PErr::Failed);
    let data = match name.as_slice() {
        b"EXISTS" => Data::Exists(n), b"RECENT" => Data::Recent(n), b"EXPUNGE" => Data::Expunge(nz()?),
        b"FETCH" => {
            p.sp()?;
            let items = p.list(|p| {
                let k = p.while1(|b| b.is_ascii_alphanumeric() || b == b'.')?.to_ascii_uppercase();
                p.sp()?;
                Ok(match k.as_slice() {
                    b"FLAGS" => MessageDataItem::Flags(p.list(|p| { if p.rest().len() >= 7 && p.rest()[..7].eq_ignore_ascii_case(b"\\Recent") && !p.rest().get(7).is_some_and(|b| is_atom_char(*b)) { p.pos += 7; Ok(FlagFetch::Recent) } else { Ok(FlagFetch::Flag(p.flag()?)) } })?),
                    b"UID" => MessageDataItem::Uid(p.nz()?), b"RFC822" => MessageDataItem::Rfc822(p.nstring()?), b"RFC822.HEADER" => MessageDataItem::Rfc822Header(p.nstring()?),
                    b"RFC822.TEXT" => MessageDataItem::Rfc822Text(p.nstring()?), b"RFC822.SIZE" => MessageDataItem::Rfc822Size(p.number()?), _ => return Err(PErr::Failed),
                })
            })?;
            Data::Fetch { seq: nz()?, items: Vec1::try_from(items).map_err(|_| PErr::Failed)? }
        }
        _ => return Err(PErr::Failed),
    };
    p.crlf()?;
    Ok(Response::Data(data))
}
