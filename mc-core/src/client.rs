//! Client laboratory: drives the real `Client` and checks every step against the client model.
use std::collections::{HashSet, VecDeque};
use std::hash::{Hash, Hasher};

use imap_codec::{encode::{Encoder, Fragment}, AuthenticateDataCodec, CommandCodec};
use imap_next::{client::{Client, CommandHandle, Error, Event, Options}, Interrupt, Io, State};
use imap_types::{
    auth::AuthenticateData,
    bounded_static::{IntoBoundedStatic, ToBoundedStatic},
    command::{Command, CommandBody},
    core::{LiteralMode, Tag},
    response::{CommandContinuationRequest, Response, Status, StatusKind, Tagged},
};
use mc_engine::{esc, viol, Ch, Out, Viol};

use crate::refframe::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum SegKind { Line, Sync, NonSync }
#[derive(Clone, Debug)]
struct Seg { data: Vec<u8>, kind: SegKind }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum CurKind { Command, Auth, Idle }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Phase { Await, UserTurn, Pushing }

struct Cur {
    handle: CommandHandle,
    cmd: Command<'static>,
    segs: Vec<Seg>,
    seg: usize,
    off: usize,
    accepted: bool,
    kind: CurKind,
    /// AUTHENTICATE / IDLE: "started" event seen
    started: bool,
    phase: Phase,
    done_set: bool,
}
impl Cur {
    fn all_out(&self) -> bool { self.seg >= self.segs.len() }
    /// Skips over finished segments, stopping in front of a sync literal that was not released.
    fn normalize(&mut self) {
        while self.seg < self.segs.len() && self.off >= self.segs[self.seg].data.len() {
            if self.segs[self.seg].kind == SegKind::Sync && !self.accepted { return; }
            self.accepted = false;
            self.seg += 1;
            self.off = 0;
        }
    }
    fn waits_literal(&self) -> bool { self.seg < self.segs.len() && self.segs[self.seg].kind == SegKind::Sync && self.off == 0 && !self.accepted }
}

enum PendEv { Sent(CommandHandle, Command<'static>), DoneSent(CommandHandle) }

/// More steps than anything here can take.
pub const STEPS: usize = 1_000_000;
/// Model of one client connection.
pub struct ClientSpec {
    relaxed: bool,
    inbuf: Unread,
    pub greeted: bool,
    queue: VecDeque<(CommandHandle, Command<'static>)>,
    cur: Option<Cur>,
    pend: VecDeque<PendEv>,
    handles: HashSet<CommandHandle>,
    resolved: HashSet<CommandHandle>,
    pub nq: usize,
}

fn segs_of(cmd: &Command<'static>) -> Vec<Seg> {
    CommandCodec::default().encode(cmd).map(|f| match f {
        Fragment::Line { data } => Seg { data, kind: SegKind::Line },
        Fragment::Literal { data, mode: LiteralMode::Sync } => Seg { data, kind: SegKind::Sync },
        Fragment::Literal { data, mode: LiteralMode::NonSync } => Seg { data, kind: SegKind::NonSync },
    }).collect()
}

const L: Limits = Limits { relaxed: false, max_msg: None, max_lit: None };

impl ClientSpec {
    pub fn new(relaxed: bool) -> Self {
        ClientSpec { relaxed, inbuf: Unread::default(), greeted: false, queue: VecDeque::new(), cur: None, pend: VecDeque::new(), handles: HashSet::new(), resolved: HashSet::new(), nq: 0 }
    }
    fn lim(&self) -> Limits { Limits { relaxed: self.relaxed, ..L } }
    pub fn fp(&self) -> u64 {
        struct H<'a>(&'a ClientSpec);
        impl Hash for H<'_> {
            fn hash<S: Hasher>(&self, h: &mut S) {
                let s = self.0;
                telling(&s.inbuf, h);
                s.greeted.hash(h);
                s.nq.hash(h);
                s.queue.len().hash(h);
                for (_, c) in s.queue.iter().take(if s.queue.len() > 600 { 2 } else { 600 }) { c.hash(h) }
                if let Some(c) = &s.cur { c.cmd.hash(h); c.seg.hash(h); c.off.hash(h); c.accepted.hash(h); c.started.hash(h); c.phase.hash(h); c.done_set.hash(h); for g in &c.segs[c.seg.min(c.segs.len())..] { g.data.hash(h) } }
                s.pend.len().hash(h);
            }
        }
        mc_engine::fp(&H(self))
    }
    pub fn feed(&mut self, b: &[u8]) { self.inbuf.push(b) }
    pub fn enqueued(&mut self, h: CommandHandle, c: Command<'static>) -> Out {
        if !self.handles.insert(h) { return viol!(["C06", "H01"], "handle-reused", "enqueue_command returned a handle that was already given out: {h:?}"); }
        self.queue.push_back((h, c));
        self.nq += 1;
        Ok(())
    }
    fn head(&self) -> Outcome<Response<'static>> {
        match frame(&self.inbuf, &self.lim(), dec_response).outcome {
            Outcome::Msg(m, n) => Outcome::Msg(m.into_static(), n),
            Outcome::NeedMore => Outcome::NeedMore,
            Outcome::Malformed(n) => Outcome::Malformed(n),
            Outcome::LfOnly(n) => Outcome::LfOnly(n),
            Outcome::TooLong(n) => Outcome::TooLong(n),
            Outcome::LitTooLong { len, tag, sync, size } => Outcome::LitTooLong { len, tag, sync, size },
        }
    }
    fn consume(&mut self, n: usize) { self.inbuf.take(n); }

    fn out_props(c: &Cur) -> Vec<&'static str> {
        match c.kind { CurKind::Command => vec!["C01", "X01"], CurKind::Auth => vec!["C01", "C04", "X01"], CurKind::Idle => vec!["C01", "C05", "X01"] }
    }

    pub fn on_output(&mut self, mut b: &[u8]) -> Out {
        if !self.greeted { return viol!(["C01", "C08"], "output-before-greeting", "bytes sent before the greeting: {:?}", esc(b)); }
        while !b.is_empty() {
            if self.cur.is_none() {
                let Some((handle, cmd)) = self.queue.pop_front() else {
                    return viol!(["C01", "C03", "C04", "C05", "X01"], "extra-bytes", "bytes sent that belong to no enqueued command: {:?}", esc(b));
                };
                let kind = match cmd.body { CommandBody::Authenticate { .. } => CurKind::Auth, CommandBody::Idle => CurKind::Idle, _ => CurKind::Command };
                self.cur = Some(Cur { handle, segs: segs_of(&cmd), cmd, seg: 0, off: 0, accepted: false, kind, started: false, phase: Phase::Pushing, done_set: false });
            }
            // A sync literal needs its own continuation request, in receive order.
            if self.cur.as_ref().unwrap().waits_literal() {
                match self.head() {
                    Outcome::Msg(Response::CommandContinuationRequest(_), n) => { self.consume(n); let c = self.cur.as_mut().unwrap(); c.accepted = true; c.normalize(); }
                    _ => return viol!(["C01", "C02", "C03", "X01"], "literal-not-released", "bytes after a synchronizing literal announcement were sent although the server did not release it: {:?}", esc(b)),
                }
            }
            let c = self.cur.as_mut().unwrap();
            if c.all_out() {
                let p = Self::out_props(c);
                return Err(Viol::new(&p, "unexpected-bytes", format!("bytes sent while the current {:?} has nothing to send: {:?}", c.kind, esc(b))));
            }
            let want = &c.segs[c.seg].data[c.off..];
            let n = want.len().min(b.len());
            if want[..n] != b[..n] {
                let mut p = Self::out_props(c);
                if c.segs[c.seg].kind != SegKind::Line { p.push("C02"); p.push("F04"); }
                p.push("C03");
                // Another command was sent instead: they will not be resolved in order.
                if c.seg == 0 && c.off == 0 && self.queue.iter().any(|(_, q)| { let w = &segs_of(q)[0].data; let n = w.len().min(b.len()); w[..n] == b[..n] }) { p.push("C06"); }
                return Err(Viol::new(&p, "wrong-bytes", format!("wrong bytes on the wire: expected {:?}, got {:?}", esc(want), esc(b))));
            }
            c.off += n;
            b = &b[n..];
            c.normalize();
            if c.all_out() { self.cur_all_out(); }
        }
        Ok(())
    }
    fn cur_all_out(&mut self) {
        let c = self.cur.as_mut().unwrap();
        match c.kind {
            CurKind::Command => { let c = self.cur.take().unwrap(); self.pend.push_back(PendEv::Sent(c.handle, c.cmd)); }
            CurKind::Auth => c.phase = Phase::Await,
            CurKind::Idle => {
                if c.done_set { let c = self.cur.take().unwrap(); self.pend.push_back(PendEv::DoneSent(c.handle)); } else { c.phase = Phase::Await; }
            }
        }
    }
    fn resolve(&mut self, h: CommandHandle) -> Out {
        if !self.resolved.insert(h) { return viol!(["C06"], "resolved-twice", "{h:?} was resolved twice"); }
        Ok(())
    }
    /// Which termination does this status cause for the command being sent?
    fn terminates(&self, s: &Status) -> Option<CurKind> {
        let c = self.cur.as_ref()?;
        let Status::Tagged(Tagged { tag, body }) = s else { return None };
        if *tag != c.cmd.tag { return None; }
        match c.kind {
            CurKind::Command => (c.waits_literal() && body.kind == StatusKind::Bad).then_some(CurKind::Command),
            k => Some(k),
        }
    }
    fn take_status(&mut self, s: &Status<'static>, what: &str, p: &[&'static str]) -> Out {
        match self.head() {
            Outcome::Msg(Response::Status(h), n) if h == *s => { self.consume(n); Ok(()) }
            o => { let mut v = p.to_vec(); v.push("C07"); Err(Viol::new(&v, "wrong-message", format!("{what} reports {s:?} but the next unread server message is {o:?}"))) }
        }
    }
    fn take_ccr(&mut self, r: &CommandContinuationRequest<'static>, what: &str, p: &[&'static str]) -> Out {
        match self.head() {
            Outcome::Msg(Response::CommandContinuationRequest(h), n) if h == *r => { self.consume(n); Ok(()) }
            o => { let mut v = p.to_vec(); v.push("C07"); Err(Viol::new(&v, "wrong-message", format!("{what} reports {r:?} but the next unread server message is {o:?}"))) }
        }
    }
    fn same_handle(&self, h: CommandHandle, p: &[&'static str], what: &str) -> Out {
        match &self.cur {
            Some(c) if c.handle == h => Ok(()),
            _ => { let mut v = p.to_vec(); v.push("C06"); Err(Viol::new(&v, "wrong-handle", format!("{what} carries {h:?}, which is not the command being sent"))) }
        }
    }
    fn same_status(&mut self, status: &Status<'static>, want: CurKind, p: &[&'static str], what: &str) -> Out {
        if self.terminates(status) != Some(want) {
            let mut v = p.to_vec();
            v.push("C06");
            return Err(Viol::new(&v, "wrong-termination", format!("{what} although {status:?} does not end the current command")));
        }
        Ok(())
    }

    pub fn on_event(&mut self, e: &Event) -> Out {
        match e {
            Event::GreetingReceived { greeting } => {
                if self.greeted { return viol!(["C07", "C08"], "second-greeting", "a second greeting event"); }
                match frame(&self.inbuf, &self.lim(), dec_greeting).outcome {
                    Outcome::Msg(m, n) if m == *greeting => { self.consume(n); self.greeted = true; Ok(()) }
                    o => viol!(["C07", "C08"], "wrong-greeting", "greeting event {greeting:?}, but the input is {o:?}"),
                }
            }
            _ if !self.greeted => viol!(["C07", "C08", "C01"], "event-before-greeting", "event before the greeting: {e:?}"),
            Event::CommandSent { handle, command } => match self.pend.pop_front() {
                Some(PendEv::Sent(h, c)) if h == *handle && c == *command => self.resolve(h),
                _ => viol!(["C06"], "wrong-sent", "CommandSent {handle:?} {command:?} does not match the command whose bytes were sent"),
            },
            Event::CommandRejected { handle, command, status } => {
                let p = ["C03"];
                self.same_status(status, CurKind::Command, &p, "CommandRejected")?;
                self.take_status(status, "CommandRejected", &p)?;
                self.same_handle(*handle, &p, "CommandRejected")?;
                if self.cur.as_ref().unwrap().cmd != *command { return viol!(["C03", "C06"], "wrong-command", "CommandRejected carries {command:?}"); }
                self.cur = None;
                self.resolve(*handle)
            }
            Event::AuthenticateStarted { handle } => {
                self.same_handle(*handle, &["C04"], "AuthenticateStarted")?;
                let c = self.cur.as_mut().unwrap();
                if c.kind != CurKind::Auth || c.started || !c.all_out() { return viol!(["C04"], "unexpected-started", "AuthenticateStarted at the wrong time"); }
                c.started = true;
                Ok(())
            }
            Event::AuthenticateContinuationRequestReceived { handle, continuation_request } => {
                self.same_handle(*handle, &["C04"], "AuthenticateContinuationRequestReceived")?;
                self.take_ccr(continuation_request, "AuthenticateContinuationRequestReceived", &["C04"])?;
                let c = self.cur.as_mut().unwrap();
                if c.kind != CurKind::Auth || !c.started || c.phase != Phase::Await { return viol!(["C04"], "unexpected-auth-continuation", "authentication data requested at the wrong time"); }
                c.phase = Phase::UserTurn;
                Ok(())
            }
            Event::AuthenticateStatusReceived { handle, command_authenticate: ca, status } => {
                let p = ["C04"];
                self.same_status(status, CurKind::Auth, &p, "AuthenticateStatusReceived")?;
                self.take_status(status, "AuthenticateStatusReceived", &p)?;
                self.same_handle(*handle, &p, "AuthenticateStatusReceived")?;
                let c = self.cur.take().unwrap();
                let CommandBody::Authenticate { mechanism, initial_response } = &c.cmd.body else { unreachable!() };
                if !c.started || c.cmd.tag != ca.tag || *mechanism != ca.mechanism || *initial_response != ca.initial_response { return viol!(["C04", "C06"], "wrong-command", "AuthenticateStatusReceived carries {ca:?}, expected {:?}", c.cmd); }
                self.resolve(*handle)
            }
            Event::IdleCommandSent { handle } => {
                self.same_handle(*handle, &["C05"], "IdleCommandSent")?;
                let c = self.cur.as_mut().unwrap();
                if c.kind != CurKind::Idle || c.started || !c.all_out() { return viol!(["C05"], "unexpected-started", "IdleCommandSent at the wrong time"); }
                c.started = true;
                Ok(())
            }
            Event::IdleAccepted { handle, continuation_request } => {
                self.same_handle(*handle, &["C05"], "IdleAccepted")?;
                self.take_ccr(continuation_request, "IdleAccepted", &["C05"])?;
                let c = self.cur.as_mut().unwrap();
                if c.kind != CurKind::Idle || !c.started || c.phase != Phase::Await { return viol!(["C05"], "unexpected-idle-accepted", "IdleAccepted at the wrong time"); }
                c.phase = Phase::UserTurn;
                Ok(())
            }
            Event::IdleRejected { handle, status } => {
                let p = ["C05"];
                self.same_status(status, CurKind::Idle, &p, "IdleRejected")?;
                self.take_status(status, "IdleRejected", &p)?;
                self.same_handle(*handle, &p, "IdleRejected")?;
                let c = self.cur.take().unwrap();
                if !c.started { return viol!(["C05"], "rejected-before-sent", "IdleRejected before IdleCommandSent"); }
                self.resolve(*handle)
            }
            Event::IdleDoneSent { handle } => match self.pend.pop_front() {
                Some(PendEv::DoneSent(h)) if h == *handle => self.resolve(h),
                _ => viol!(["C05", "C06"], "wrong-done", "IdleDoneSent {handle:?} at the wrong time"),
            },
            Event::DataReceived { data } => match self.head() {
                Outcome::Msg(Response::Data(d), n) if d == *data => { self.consume(n); Ok(()) }
                o => viol!(["C07", "F04"], "wrong-message", "DataReceived {data:?} but the next unread server message is {o:?}"),
            },
            Event::StatusReceived { status } => {
                match self.terminates(status) {
                    Some(CurKind::Command) => return viol!(["C03", "C06"], "rejection-ignored", "{status:?} rejects the command being sent but was surfaced as an ordinary status"),
                    Some(CurKind::Auth) => return viol!(["C04", "C06"], "auth-end-ignored", "{status:?} ends the AUTHENTICATE exchange but was surfaced as an ordinary status"),
                    Some(CurKind::Idle) => return viol!(["C05", "C06"], "idle-end-ignored", "{status:?} ends the IDLE exchange but was surfaced as an ordinary status"),
                    None => {}
                }
                self.take_status(status, "StatusReceived", &[])
            }
            Event::ContinuationRequestReceived { continuation_request } => {
                self.take_ccr(continuation_request, "ContinuationRequestReceived", &[])?;
                if let Some(c) = &self.cur {
                    if c.waits_literal() { return viol!(["C02", "C07"], "go-ahead-surfaced", "the continuation request that releases a literal was surfaced instead of being used"); }
                    if c.kind == CurKind::Auth && c.phase == Phase::Await { return viol!(["C04"], "auth-continuation-missed", "a request for authentication data was surfaced as an ordinary continuation request"); }
                    if c.kind == CurKind::Idle && c.phase == Phase::Await { return viol!(["C05"], "idle-accept-missed", "the acceptance of IDLE was surfaced as an ordinary continuation request"); }
                }
                Ok(())
            }
        }
    }
    pub fn on_error(&mut self, e: &Error) -> Out {
        let o = if self.greeted { self.head() } else { match frame(&self.inbuf, &self.lim(), dec_greeting).outcome { Outcome::Malformed(n) => Outcome::Malformed(n), Outcome::LfOnly(n) => Outcome::LfOnly(n), Outcome::NeedMore => Outcome::NeedMore, _ => Outcome::TooLong(0) } };
        let (n, d) = match (e, &o) {
            (Error::MalformedMessage { discarded_bytes }, Outcome::Malformed(n)) => (*n, discarded_bytes.declassify()),
            (Error::ExpectedCrlfGotLf { discarded_bytes }, Outcome::LfOnly(n)) => (*n, discarded_bytes.declassify()),
            _ => return viol!(["F02", "F03", "C07"], "wrong-error", "error {e:?} but the next unread input is {o:?}"),
        };
        if self.inbuf[..n] != d[..] { return viol!(["F03"], "wrong-discard", "discarded {:?}, but the offending message is {:?}", esc(d), esc(&self.inbuf[..n])); }
        self.consume(n);
        Ok(())
    }
    /// The client says it can do nothing without more input: check that nothing was withheld.
    pub fn on_need_input(&self) -> Out {
        if !self.greeted {
            return match frame(&self.inbuf, &self.lim(), dec_greeting).outcome {
                Outcome::NeedMore => Ok(()),
                o => viol!(["C07", "C08", "F01"], "withheld", "the client waits for input although {o:?} was received"),
            };
        }
        match self.head() {
            Outcome::NeedMore => {}
            Outcome::Msg(Response::CommandContinuationRequest(_), _) if self.cur.as_ref().is_some_and(|c| c.waits_literal()) => return viol!(["C01", "C02", "L01"], "go-ahead-ignored", "the client waits for input although the literal was released"),
            o => return viol!(["C07", "F01", "F02", "F03", "F04", "L01"], "withheld", "the client waits for input although {o:?} was received"),
        }
        if let Some(e) = self.pend.front() {
            let h = match e { PendEv::Sent(h, _) | PendEv::DoneSent(h) => h };
            return viol!(["C06", "L01"], "sent-event-missing", "all bytes of {h:?} were sent but this was never reported");
        }
        match &self.cur {
            None if !self.queue.is_empty() => viol!(["C01", "C03", "C04", "C05", "C06", "L01", "X01"], "not-sent", "the client waits for input although {} command(s) are still queued", self.queue.len()),
            None => Ok(()),
            Some(c) if c.waits_literal() => Ok(()),
            Some(c) if !c.all_out() => viol!(["C01", "C02", "C04", "C05", "C06", "L01", "X01"], "not-sent", "the client waits for input although {:?} can still be sent", esc(&c.segs[c.seg].data[c.off..])),
            Some(c) if !c.started => viol!(["C04", "C05", "C06"], "started-event-missing", "{:?} was sent but this was never reported", c.handle),
            Some(_) => Ok(()),
        }
    }
    /// A message that was misread or ignored also breaks what should have followed from it.
    fn attribute(&self, mut v: Viol) -> Viol {
        if !matches!(v.key.as_str(), "wrong-error" | "withheld" | "wrong-message") { return v; }
        let mut p: Vec<&'static str> = vec![];
        if !self.greeted { p.push("C08"); }
        else if let Outcome::Msg(m, n) = self.head() {
            p.extend(["C07", "X01"]);
            let raw = &self.inbuf[..n];
            if raw.contains(&b'{') { p.push("F04"); }
            if self.relaxed && raw.windows(2).any(|w| w[1] == b'\n' && w[0] != b'\r') { p.push("F02"); }
            if let Some(c) = &self.cur {
                match (&m, c.kind) {
                    (Response::Data(_), _) => {}
                    (Response::CommandContinuationRequest(_), CurKind::Command) => if c.waits_literal() { p.extend(["C01", "C02", "C06"]) },
                    (Response::Status(s), CurKind::Command) => { if c.waits_literal() { p.push("C03"); } if self.terminates(s).is_some() { p.extend(["C01", "C06"]) } }
                    (_, CurKind::Auth) => p.push("C04"),
                    (_, CurKind::Idle) => p.push("C05"),
                }
            }
        }
        for x in p { if !v.props.contains(&x) { v.props.push(x) } }
        v
    }
    pub fn set_auth(&mut self, d: &AuthenticateData<'static>, r: Result<CommandHandle, AuthenticateData<'static>>) -> Out {
        let ok = self.cur.as_ref().is_some_and(|c| c.kind == CurKind::Auth && c.phase == Phase::UserTurn);
        match r {
            Ok(h) => {
                if !ok { return viol!(["C04"], "auth-data-accepted", "authentication data was accepted although the server did not ask for it"); }
                self.same_handle(h, &["C04"], "set_authenticate_data")?;
                let c = self.cur.as_mut().unwrap();
                c.segs.push(Seg { data: AuthenticateDataCodec::default().encode(d).dump(), kind: SegKind::Line });
                c.phase = Phase::Pushing;
                Ok(())
            }
            Err(b) => {
                if ok { return viol!(["C04"], "auth-data-refused", "authentication data was refused although the server asked for it"); }
                if b != *d { return viol!(["C04"], "auth-data-changed", "refused authentication data was not handed back unchanged"); }
                Ok(())
            }
        }
    }
    pub fn set_done(&mut self, r: Option<CommandHandle>) -> Out {
        let ok = self.cur.as_ref().is_some_and(|c| c.kind == CurKind::Idle && c.phase == Phase::UserTurn);
        match r {
            Some(h) => {
                if !ok { return viol!(["C05"], "done-accepted", "IDLE DONE was accepted although the connection is not idling"); }
                self.same_handle(h, &["C05"], "set_idle_done")?;
                let c = self.cur.as_mut().unwrap();
                c.segs.push(Seg { data: b"DONE\r\n".to_vec(), kind: SegKind::Line });
                c.phase = Phase::Pushing;
                c.done_set = true;
                Ok(())
            }
            None => { if ok { return viol!(["C05"], "done-refused", "IDLE DONE was refused although the connection is idling"); } Ok(()) }
        }
    }
    pub fn cur_kind(&self) -> Option<(String, u8, bool)> {
        self.cur.as_ref().map(|c| (c.cmd.tag.inner().to_string(), match c.kind { CurKind::Command => 0, CurKind::Auth => 1, CurKind::Idle => 2 }, c.phase == Phase::UserTurn))
    }
    pub fn idle(&self) -> bool { self.cur.is_none() && self.queue.is_empty() && self.pend.is_empty() }
    pub fn inbuf_len(&self) -> usize { self.inbuf.len() }
}

/// Real client and model, stepped together.
pub struct ClientLab { pub real: Client, pub spec: ClientSpec }
pub enum Step { Output(Vec<u8>), Event(Event), Error, NeedInput }
impl ClientLab {
    pub fn new(relaxed: bool) -> Self {
        let mut o = Options::default();
        o.crlf_relaxed = relaxed;
        ClientLab { real: Client::new(o), spec: ClientSpec::new(relaxed) }
    }
    pub fn next(&mut self, ch: &mut Ch) -> Result<Step, Viol> {
        let r = self.real.next();
        ch.log(|| match &r { Err(Interrupt::Io(Io::Output(b))) => format!("next->Output({})", esc(b)), r => format!("next->{}", short(&format!("{r:?}"))) });
        let checked = match &r {
            Ok(e) => self.spec.on_event(e),
            Err(Interrupt::Io(Io::Output(b))) => self.spec.on_output(b),
            Err(Interrupt::Io(Io::NeedMoreInput)) => self.spec.on_need_input(),
            Err(Interrupt::Error(e)) => self.spec.on_error(e),
        };
        if let Err(v) = checked { return Err(self.spec.attribute(v)); }
        let s = match r {
            Ok(e) => Step::Event(e),
            Err(Interrupt::Io(Io::Output(b))) => Step::Output(b),
            Err(Interrupt::Io(Io::NeedMoreInput)) => Step::NeedInput,
            Err(Interrupt::Error(_)) => Step::Error,
        };
        ch.step(self.spec.fp());
        Ok(s)
    }
    pub fn drain(&mut self, ch: &mut Ch) -> Result<Vec<Step>, Viol> {
        let mut v = vec![];
        for _ in 0..STEPS { match self.next(ch)? { Step::NeedInput => return Ok(v), s => v.push(s) } }
        viol!(["L01"], "livelock", "the client does not come to rest (a million steps without needing input)")
    }
    pub fn feed(&mut self, b: &[u8], ch: &mut Ch) { ch.log(|| format!("feed({})", esc(b))); self.real.enqueue_input(b); self.spec.feed(b); ch.step(self.spec.fp()); }
    pub fn enqueue(&mut self, c: Command<'static>, ch: &mut Ch) -> Out {
        ch.log(|| format!("enqueue({})", esc(&CommandCodec::default().encode(&c).dump())));
        let h = self.real.enqueue_command(c.clone());
        self.spec.enqueued(h, c)?;
        ch.step(self.spec.fp());
        Ok(())
    }
    pub fn set_auth(&mut self, d: AuthenticateData<'static>, ch: &mut Ch) -> Out {
        let r = self.real.set_authenticate_data(d.clone());
        ch.log(|| format!("set_authenticate_data({d:?})->{r:?}"));
        self.spec.set_auth(&d, r)?;
        ch.step(self.spec.fp());
        Ok(())
    }
    pub fn set_done(&mut self, ch: &mut Ch) -> Out {
        let r = self.real.set_idle_done();
        ch.log(|| format!("set_idle_done->{r:?}"));
        self.spec.set_done(r)?;
        ch.step(self.spec.fp());
        Ok(())
    }
    /// A cooperative peer and user from here on: everything enqueued must get resolved.
    pub fn epilogue(&mut self, ch: &mut Ch) -> Out {
        for _ in 0..5000 {
            self.drain(ch)?;
            if self.spec.inbuf_len() > 0 { self.feed(b"\r\n", ch); continue; }
            if !self.spec.greeted { self.feed(b"* OK hi\r\n", ch); continue; }
            match self.spec.cur_kind() {
                None => break,
                Some((_, 0, _)) => self.feed(b"+ go on\r\n", ch),
                Some((_, 1, true)) => self.set_auth(AuthenticateData::r#continue(b"zz".to_vec()), ch)?,
                Some((tag, 1, false)) => self.feed(format!("{tag} OK fine\r\n").as_bytes(), ch),
                Some((_, _, true)) => self.set_done(ch)?,
                Some((_, _, false)) => self.feed(b"+ idling\r\n", ch),
            }
        }
        self.drain(ch)?;
        if !self.spec.idle() { return viol!(["C01", "C03", "C04", "C05", "C06", "L01"], "wedged", "with a cooperative server the client never finishes sending"); }
        Ok(())
    }
}
pub fn short(s: &str) -> String { if s.len() > 300 { let mut i = 300; while !s.is_char_boundary(i) { i -= 1 } format!("{}...", &s[..i]) } else { s.to_string() } }

// ------------------------------------------------------------------------------------------------

/// Command templates; `tag` is filled in by enqueue order.
pub fn cmd(wire: &str, tag: &str) -> Command<'static> {
    let full = format!("{tag} {wire}\r\n");
    match dec_command(full.as_bytes()) { Dec::Msg(m) => m.to_static(), o => panic!("MC-ENGINE bad template {full:?} {o:?}") }
}
pub fn tag(s: &str) -> Tag<'static> { Tag::try_from(s.to_string()).unwrap() }

#[derive(Clone)]
pub struct ClientCfg {
    pub relaxed: bool,
    /// greeting fed and consumed up front
    pub pre_greet: bool,
    pub cmds: Vec<&'static str>,
    pub max_cmds: usize,
    pub inputs: Vec<&'static [u8]>,
    pub max_inputs: usize,
    pub auth: Vec<AuthenticateData<'static>>,
    pub done: bool,
    /// Next drains until input is needed instead of doing one step.
    pub coarse: bool,
    pub depth: usize,
    pub prune: bool,
    /// most unread input bytes in state-pruned runs
    pub unread: usize,
}
impl Default for ClientCfg {
    fn default() -> Self { ClientCfg { relaxed: false, pre_greet: true, cmds: vec![], max_cmds: 2, inputs: vec![], max_inputs: 99, auth: vec![], done: false, coarse: false, depth: 7, prune: false, unread: 20 } }
}
pub fn client_run(cfg: &ClientCfg, ch: &mut Ch) -> Out {
    let mut lab = ClientLab::new(cfg.relaxed);
    if cfg.pre_greet { lab.feed(b"* OK hi\r\n", ch); lab.next(ch)?; }
    let (mut nc, mut ni) = (0, 0);
    for d in 0..cfg.depth {
        let e = if nc < cfg.max_cmds { cfg.cmds.len() } else { 0 };
        // State-pruned runs bound the unread input, otherwise the space never closes.
        let f = if ni < cfg.max_inputs && !(cfg.prune && lab.spec.inbuf_len() > cfg.unread) { cfg.inputs.len() } else { 0 };
        let a = cfg.auth.len();
        let i = cfg.done as usize;
        if cfg.prune && ch.seen(mc_engine::fp(&(lab.spec.fp(), nc, if cfg.max_inputs < 99 { ni } else { 0 })), (cfg.depth - d) as u32) { return Ok(()); }
        let mut k = ch.choose(1 + e + f + a + i);
        if k == 0 { if cfg.coarse { lab.drain(ch)?; } else { lab.next(ch)?; } continue; }
        k -= 1;
        if k < e { nc += 1; let t = format!("A{nc}"); lab.enqueue(cmd(cfg.cmds[k], &t), ch)?; continue; }
        k -= e;
        if k < f { ni += 1; lab.feed(cfg.inputs[k], ch); continue; }
        k -= f;
        if k < a { lab.set_auth(cfg.auth[k].clone(), ch)?; continue; }
        lab.set_done(ch)?;
    }
    lab.epilogue(ch)
}
