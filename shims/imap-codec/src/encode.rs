use std::collections::VecDeque;

use imap_types::{
    auth::AuthenticateData,
    command::{Command, CommandBody},
    core::{AString, Charset, IString, Literal, LiteralMode, NString},
    extensions::idle::IdleDone,
    fetch::{Macro, MacroOrMessageDataItemNames, MessageDataItem},
    flag::{Flag, FlagFetch, FlagPerm, StoreResponse, StoreType},
    mailbox::{ListMailbox, Mailbox},
    response::*,
    search::SearchKey,
    sequence::{SeqOrUid, Sequence, SequenceSet},
    status::{StatusDataItem, StatusDataItemName},
    utils::escape_quoted,
};

use crate::{b64, AuthenticateDataCodec, CommandCodec, GreetingCodec, IdleDoneCodec, ResponseCodec};

/// Encoder.
pub trait Encoder {
    type Message<'a>;
    fn encode(&self, message: &Self::Message<'_>) -> Encoded;
}

/// An encoded message: an iterator over fragments.
#[derive(Clone, Debug)]
pub struct Encoded { items: VecDeque<Fragment> }
impl Encoded {
    /// Dump the (remaining) encoded data without being guided by fragments.
    pub fn dump(self) -> Vec<u8> {
        let mut out = vec![];
        for f in self.items { match f { Fragment::Line { mut data } => out.append(&mut data), Fragment::Literal { mut data, .. } => out.append(&mut data) } }
        out
    }
}
impl Iterator for Encoded { type Item = Fragment; fn next(&mut self) -> Option<Fragment> { self.items.pop_front() } }

/// The intended action of a client or server.
#[derive(Clone, Debug, Eq, PartialEq)]
pub enum Fragment {
    /// A line that is ready to be send.
    Line { data: Vec<u8> },
    /// A literal that may require an action before it should be send.
    Literal { data: Vec<u8>, mode: LiteralMode },
}

#[derive(Default)]
struct Ctx { acc: Vec<u8>, items: VecDeque<Fragment> }
impl Ctx {
    fn s(&mut self, s: &str) { self.acc.extend_from_slice(s.as_bytes()) }
    fn b(&mut self, s: &[u8]) { self.acc.extend_from_slice(s) }
    fn line(&mut self) { self.items.push_back(Fragment::Line { data: std::mem::take(&mut self.acc) }) }
    fn literal(&mut self, l: &Literal) {
        match l.mode() { LiteralMode::Sync => self.s(&format!("{{{}}}\r\n", l.data().len())), LiteralMode::NonSync => self.s(&format!("{{{}+}}\r\n", l.data().len())) }
        self.line();
        self.items.push_back(Fragment::Literal { data: l.data().to_vec(), mode: l.mode() });
    }
    fn istring(&mut self, i: &IString) { match i { IString::Literal(l) => self.literal(l), IString::Quoted(q) => { let e = escape_quoted(q.inner()).into_owned(); self.s(&format!("\"{e}\"")) } } }
    fn nstring(&mut self, n: &NString) { match &n.0 { Some(i) => self.istring(i), None => self.s("NIL") } }
    fn astring(&mut self, a: &AString) { match a { AString::Atom(a) => self.s(a.inner()), AString::String(i) => self.istring(i) } }
    fn mailbox(&mut self, m: &Mailbox) { match m { Mailbox::Inbox => self.s("INBOX"), Mailbox::Other(o) => self.astring(o.inner()) } }
    fn flag(&mut self, f: &Flag) { match f { Flag::Answered => self.s("\\Answered"), Flag::Deleted => self.s("\\Deleted"), Flag::Draft => self.s("\\Draft"), Flag::Flagged => self.s("\\Flagged"), Flag::Seen => self.s("\\Seen"), Flag::Keyword(a) => self.s(a.inner()) } }
    fn list<T>(&mut self, sep: bool, v: &[T], mut f: impl FnMut(&mut Self, &T)) {
        if sep { self.s("("); }
        for (i, x) in v.iter().enumerate() { if i > 0 { self.s(" "); } f(self, x); }
        if sep { self.s(")"); }
    }
    fn seq(&mut self, s: &SequenceSet) {
        let one = |s: &SeqOrUid| match s { SeqOrUid::Value(n) => n.to_string(), SeqOrUid::Asterisk => "*".into() };
        let v: Vec<String> = s.0.as_ref().iter().map(|s| match s { Sequence::Single(a) => one(a), Sequence::Range(a, b) => format!("{}:{}", one(a), one(b)) }).collect();
        self.s(&v.join(","))
    }
    fn uid(&mut self, uid: bool) { if uid { self.s("UID ") } }
    fn list_mailbox(&mut self, m: &ListMailbox) { match m { ListMailbox::Token(t) => self.s(t.inner()), ListMailbox::String(s) => self.istring(s) } }
    fn search(&mut self, k: &SearchKey) {
        use SearchKey::*;
        match k {
            SequenceSet(s) => self.seq(s), Uid(s) => { self.s("UID "); self.seq(s) } Not(k) => { self.s("NOT "); self.search(k) } Or(a, b) => { self.s("OR "); self.search(a); self.s(" "); self.search(b) }
            Header(a, b) => { self.s("HEADER "); self.astring(a); self.s(" "); self.astring(b) } Larger(n) => self.s(&format!("LARGER {n}")), Smaller(n) => self.s(&format!("SMALLER {n}")),
            Keyword(a) => { self.s("KEYWORD "); self.s(a.inner()) } Unkeyword(a) => { self.s("UNKEYWORD "); self.s(a.inner()) }
            Bcc(a) => { self.s("BCC "); self.astring(a) } Body(a) => { self.s("BODY "); self.astring(a) } Cc(a) => { self.s("CC "); self.astring(a) } From(a) => { self.s("FROM "); self.astring(a) }
            Subject(a) => { self.s("SUBJECT "); self.astring(a) } Text(a) => { self.s("TEXT "); self.astring(a) } To(a) => { self.s("TO "); self.astring(a) }
            unit => self.s(&format!("{unit:?}").to_ascii_uppercase()),
        }
    }
    fn id(&mut self, p: &Option<Vec<(IString, NString)>>) { match p { None => self.s("NIL"), Some(v) => self.list(true, v, |c, (k, x)| { c.istring(k); c.s(" "); c.nstring(x); }) } }
    fn code(&mut self, code: &Option<Code>) {
        let Some(code) = code else { return };
        self.s("[");
        match code {
            Code::Alert => self.s("ALERT"), Code::Parse => self.s("PARSE"), Code::ReadOnly => self.s("READ-ONLY"), Code::ReadWrite => self.s("READ-WRITE"), Code::TryCreate => self.s("TRYCREATE"),
            Code::OverQuota => self.s("OVERQUOTA"), Code::TooBig => self.s("TOOBIG"), Code::UnknownCte => self.s("UNKNOWN-CTE"), Code::UidNotSticky => self.s("UIDNOTSTICKY"),
            Code::UidNext(n) => self.s(&format!("UIDNEXT {n}")), Code::UidValidity(n) => self.s(&format!("UIDVALIDITY {n}")), Code::Unseen(n) => self.s(&format!("UNSEEN {n}")),
            Code::Capability(c) => { self.s("CAPABILITY "); self.list(false, c.as_ref(), |x, c| x.s(&c.to_string())) }
            Code::PermanentFlags(f) => { self.s("PERMANENTFLAGS "); self.list(true, f, |x, f| match f { FlagPerm::Flag(f) => x.flag(f), FlagPerm::Asterisk => x.s("\\*") }) }
            Code::BadCharset { allowed } => { self.s("BADCHARSET"); if !allowed.is_empty() { self.s(" "); self.list(true, allowed, |x, a| x.s(a.inner())) } }
            Code::Other(o) => self.b(o.inner()),
            _ => unreachable!(),
        }
        self.s("] ");
    }
    fn status_body(&mut self, b: &StatusBody) {
        self.s(match b.kind { StatusKind::Ok => "OK ", StatusKind::No => "NO ", StatusKind::Bad => "BAD " });
        self.code(&b.code);
        self.s(b.text.inner());
        self.s("\r\n");
    }
    fn done(mut self) -> Encoded { if !self.acc.is_empty() { self.line(); } Encoded { items: self.items } }
}

impl Encoder for GreetingCodec {
    type Message<'a> = Greeting<'a>;
    fn encode(&self, g: &Greeting<'_>) -> Encoded {
        let mut c = Ctx::default();
        c.s(match g.kind { GreetingKind::Ok => "* OK ", GreetingKind::PreAuth => "* PREAUTH ", GreetingKind::Bye => "* BYE " });
        c.code(&g.code);
        c.s(g.text.inner());
        c.s("\r\n");
        c.done()
    }
}
impl Encoder for CommandCodec {
    type Message<'a> = Command<'a>;
    fn encode(&self, m: &Command<'_>) -> Encoded {
        let mut c = Ctx::default();
        c.s(m.tag.inner());
        c.s(" ");
        match &m.body { CommandBody::Search { uid, .. } | CommandBody::Fetch { uid, .. } | CommandBody::Store { uid, .. } | CommandBody::Copy { uid, .. } | CommandBody::Move { uid, .. } => c.uid(*uid), _ => {} }
        c.s(m.body.name());
        match &m.body {
            CommandBody::Status { mailbox, item_names } => { c.s(" "); c.mailbox(mailbox); c.s(" "); c.list(true, item_names, |c, i| c.s(StatusDataItemName::ALL.iter().find(|x| x.1 == *i).unwrap().0)) }
            CommandBody::List { reference, mailbox_wildcard } | CommandBody::Lsub { reference, mailbox_wildcard } => { c.s(" "); c.mailbox(reference); c.s(" "); c.list_mailbox(mailbox_wildcard) }
            CommandBody::Search { charset, criteria, .. } => {
                match charset { Some(Charset::Atom(a)) => { c.s(" CHARSET "); c.s(a.inner()) } Some(Charset::Quoted(q)) => { c.s(" CHARSET "); let e = escape_quoted(q.inner()).into_owned(); c.s(&format!("\"{e}\"")) } None => {} }
                c.s(" ");
                c.list(false, criteria.as_ref(), |c, k| c.search(k))
            }
            CommandBody::Fetch { sequence_set, macro_or_item_names, .. } => {
                c.s(" "); c.seq(sequence_set); c.s(" ");
                match macro_or_item_names { MacroOrMessageDataItemNames::Macro(m) => c.s(match m { Macro::All => "ALL", Macro::Fast => "FAST", Macro::Full => "FULL", _ => unreachable!() }), MacroOrMessageDataItemNames::MessageDataItemNames(v) => c.list(v.len() != 1, v, |c, i| c.s(i.text())) }
            }
            CommandBody::Store { sequence_set, kind, response, flags, .. } => {
                c.s(" "); c.seq(sequence_set);
                c.s(match kind { StoreType::Add => " +FLAGS", StoreType::Remove => " -FLAGS", StoreType::Replace => " FLAGS" });
                c.s(match response { StoreResponse::Answer => " ", StoreResponse::Silent => ".SILENT " });
                c.list(true, flags, |c, f| c.flag(f))
            }
            CommandBody::Copy { sequence_set, mailbox, .. } | CommandBody::Move { sequence_set, mailbox, .. } => { c.s(" "); c.seq(sequence_set); c.s(" "); c.mailbox(mailbox) }
            CommandBody::Enable { capabilities } => { c.s(" "); c.list(false, capabilities.as_ref(), |c, x| c.s(x.as_ref())) }
            CommandBody::GetQuota { root } => { c.s(" "); c.astring(root) }
            CommandBody::GetQuotaRoot { mailbox } => { c.s(" "); c.mailbox(mailbox) }
            CommandBody::SetQuota { root, quotas } => { c.s(" "); c.astring(root); c.s(" "); c.list(true, quotas, |c, q| { c.s(q.resource.as_ref()); c.s(&format!(" {}", q.limit)) }) }
            CommandBody::Authenticate { mechanism, initial_response } => {
                c.s(" ");
                c.s(mechanism.as_ref());
                if let Some(ir) = initial_response { c.s(" "); if ir.declassify().is_empty() { c.s("=") } else { let b = b64::encode(ir.declassify()); c.b(&b) } }
            }
            CommandBody::Login { username, password } => { c.s(" "); c.astring(username); c.s(" "); c.astring(password.declassify()); }
            CommandBody::Select { mailbox } | CommandBody::Examine { mailbox } | CommandBody::Create { mailbox } | CommandBody::Delete { mailbox } | CommandBody::Subscribe { mailbox } | CommandBody::Unsubscribe { mailbox } => { c.s(" "); c.mailbox(mailbox) }
            CommandBody::Rename { from, to } => { c.s(" "); c.mailbox(from); c.s(" "); c.mailbox(to) }
            CommandBody::Append { mailbox, flags, message } => { c.s(" "); c.mailbox(mailbox); c.s(" "); if !flags.is_empty() { c.list(true, flags, |c, f| c.flag(f)); c.s(" "); } c.literal(message) }
            CommandBody::Compress { .. } => c.s(" DEFLATE"),
            CommandBody::Id { parameters } => { c.s(" "); c.id(parameters) }
            _ => {}
        }
        c.s("\r\n");
        c.done()
    }
}
impl Encoder for AuthenticateDataCodec {
    type Message<'a> = AuthenticateData<'a>;
    fn encode(&self, m: &AuthenticateData<'_>) -> Encoded {
        let mut c = Ctx::default();
        match m { AuthenticateData::Continue(d) => { let b = b64::encode(d.declassify()); c.b(&b) } AuthenticateData::Cancel => c.s("*") }
        c.s("\r\n");
        c.done()
    }
}
impl Encoder for IdleDoneCodec {
    type Message<'a> = IdleDone;
    fn encode(&self, _: &IdleDone) -> Encoded { let mut c = Ctx::default(); c.s("DONE\r\n"); c.done() }
}
impl Encoder for ResponseCodec {
    type Message<'a> = Response<'a>;
    fn encode(&self, m: &Response<'_>) -> Encoded {
        let mut c = Ctx::default();
        match m {
            Response::CommandContinuationRequest(CommandContinuationRequest::Basic(b)) => { c.s("+ "); c.code(&b.code().cloned()); c.s(b.text().inner()); c.s("\r\n") }
            Response::CommandContinuationRequest(CommandContinuationRequest::Base64(d)) => { c.s("+ "); let b = b64::encode(d); c.b(&b); c.s("\r\n") }
            Response::Status(Status::Untagged(b)) => { c.s("* "); c.status_body(b) }
            Response::Status(Status::Tagged(t)) => { c.s(t.tag.inner()); c.s(" "); c.status_body(&t.body) }
            Response::Status(Status::Bye(b)) => { c.s("* BYE "); c.code(&b.code); c.s(b.text.inner()); c.s("\r\n") }
            Response::Data(d) => {
                c.s("* ");
                match d {
                    Data::Capability(v) => { c.s("CAPABILITY "); c.list(false, v.as_ref(), |x, v| x.s(&v.to_string())) }
                    Data::List { items, delimiter, mailbox } | Data::Lsub { items, delimiter, mailbox } => {
                        c.s(if matches!(d, Data::List { .. }) { "LIST " } else { "LSUB " });
                        c.list(true, items, |x, a| { x.s("\\"); x.s(a.inner()) });
                        match delimiter { None => c.s(" NIL "), Some(q) => { let e = q.inner(); if e == '"' || e == '\\' { c.s(&format!(" \"\\{e}\" ")) } else { c.s(&format!(" \"{e}\" ")) } } }
                        c.mailbox(mailbox)
                    }
                    Data::Search(v) => { c.s("SEARCH"); for n in v { c.s(&format!(" {n}")) } }
                    Data::Flags(f) => { c.s("FLAGS "); c.list(true, f, |c, f| c.flag(f)) }
                    Data::Exists(n) => c.s(&format!("{n} EXISTS")), Data::Recent(n) => c.s(&format!("{n} RECENT")), Data::Expunge(n) => c.s(&format!("{n} EXPUNGE")),
                    Data::Fetch { seq, items } => {
                        c.s(&format!("{seq} FETCH "));
                        c.list(true, items.as_ref(), |c, i| match i {
                            MessageDataItem::Uid(u) => c.s(&format!("UID {u}")), MessageDataItem::Rfc822(n) => { c.s("RFC822 "); c.nstring(n) }
                            MessageDataItem::Rfc822Header(n) => { c.s("RFC822.HEADER "); c.nstring(n) } MessageDataItem::Rfc822Text(n) => { c.s("RFC822.TEXT "); c.nstring(n) }
                            MessageDataItem::Flags(f) => { c.s("FLAGS "); c.list(true, f, |c, f| match f { FlagFetch::Flag(f) => c.flag(f), FlagFetch::Recent => c.s("\\Recent") }) }
                            MessageDataItem::Rfc822Size(n) => c.s(&format!("RFC822.SIZE {n}")),
                        })
                    }
                    Data::Sort(v) => { c.s("SORT"); for n in v { c.s(&format!(" {n}")) } }
                    Data::Status { mailbox, items } => { c.s("STATUS "); c.mailbox(mailbox); c.s(" "); c.list(true, items, |c, i| { let t = match i { StatusDataItem::Messages(n) => format!("MESSAGES {n}"), StatusDataItem::Recent(n) => format!("RECENT {n}"), StatusDataItem::UidNext(n) => format!("UIDNEXT {n}"), StatusDataItem::UidValidity(n) => format!("UIDVALIDITY {n}"), StatusDataItem::Unseen(n) => format!("UNSEEN {n}"), StatusDataItem::Deleted(n) => format!("DELETED {n}"), StatusDataItem::DeletedStorage(n) => format!("DELETED-STORAGE {n}") }; c.s(&t) }) }
                    Data::Quota { root, quotas } => { c.s("QUOTA "); c.astring(root); c.s(" "); c.list(true, quotas.as_ref(), |c, q| { c.s(q.resource.as_ref()); c.s(&format!(" {} {}", q.usage, q.limit)) }) }
                    Data::QuotaRoot { mailbox, roots } => { c.s("QUOTAROOT "); c.mailbox(mailbox); for r in roots { c.s(" "); c.astring(r) } }
                    Data::Enabled { capabilities } => { c.s("ENABLED"); for a in capabilities { c.s(" "); c.s(a.inner()) } }
                    Data::Id { parameters } => { c.s("ID "); c.id(parameters) }
                    _ => unreachable!(),
                }
                c.s("\r\n")
            }
        }
        c.done()
    }
}
