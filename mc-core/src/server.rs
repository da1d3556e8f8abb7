//! Server laboratory: drives the real `Server` and checks every step against the server model.
use std::collections::{HashSet, VecDeque};
use std::hash::{Hash, Hasher};

use imap_codec::{encode::Encoder, GreetingCodec, ResponseCodec};
use imap_next::{server::{Error, Event, Options, ResponseHandle, Server}, Interrupt, Io, State};
use imap_types::{
    bounded_static::IntoBoundedStatic,
    command::{Command, CommandBody},
    response::{CommandContinuationRequest, Data, Greeting, Response, Status},
};
use mc_engine::{esc, viol, Ch, Out, Viol};

use crate::client::{short, STEPS};
use crate::refframe::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Mode { Command, Auth, IdleAccept, IdleDone }

enum Sent { Greeting, Response(ResponseHandle, Response<'static>), Internal }

#[derive(Clone, Debug)]
pub struct SrvOpts { pub relaxed: bool, pub max_cmd: u32, pub max_lit: u32, pub accept: String, pub reject: String }
impl Default for SrvOpts { fn default() -> Self { SrvOpts { relaxed: false, max_cmd: 1000, max_lit: 500, accept: "Go ahead!".into(), reject: "Too big!".into() } } }
impl SrvOpts {
    pub fn real(&self) -> Options {
        let mut o = Options::default();
        o.crlf_relaxed = self.relaxed;
        o.max_command_size = self.max_cmd;
        o.max_literal_size = self.max_lit;
        o.set_literal_accept_text(self.accept.clone()).expect("MC-ENGINE accept text");
        o.set_literal_reject_text(self.reject.clone()).expect("MC-ENGINE reject text");
        o
    }
}

#[derive(Debug)]
enum In { NeedMore, Command(Command<'static>, usize), Auth(imap_types::auth::AuthenticateData<'static>, usize), Done(usize), Malformed(usize), LfOnly(usize), TooLong(usize), LitTooLong { len: usize, tag: String, sync: bool, size: u32 } }

pub struct ServerSpec {
    o: SrvOpts,
    inbuf: Unread,
    pub mode: Mode,
    greeting: Greeting<'static>,
    greeting_out: bool,
    outq: VecDeque<(ResponseHandle, Response<'static>)>,
    internal: VecDeque<Vec<u8>>,
    acked: usize,
    cur_out: Option<(Vec<u8>, Sent)>,
    sent: VecDeque<Sent>,
    handles: HashSet<ResponseHandle>,
    /// Bytes of a refused non-synchronizing literal that must not be interpreted.
    pub tainted: u64,
    /// Messages received so far (for composition checks).
    pub received: Vec<Command<'static>>,
}

fn conv<'a, M: 'a, R>(o: Outcome<M>, f: impl FnOnce(M, usize) -> R, g: impl FnOnce(Outcome<()>) -> R) -> R {
    match o {
        Outcome::Msg(m, n) => f(m, n),
        Outcome::NeedMore => g(Outcome::NeedMore),
        Outcome::Malformed(n) => g(Outcome::Malformed(n)),
        Outcome::LfOnly(n) => g(Outcome::LfOnly(n)),
        Outcome::TooLong(n) => g(Outcome::TooLong(n)),
        Outcome::LitTooLong { len, tag, sync, size } => g(Outcome::LitTooLong { len, tag, sync, size }),
    }
}
fn other(o: Outcome<()>) -> In {
    match o {
        Outcome::NeedMore | Outcome::Msg(..) => In::NeedMore,
        Outcome::Malformed(n) => In::Malformed(n),
        Outcome::LfOnly(n) => In::LfOnly(n),
        Outcome::TooLong(n) => In::TooLong(n),
        Outcome::LitTooLong { len, tag, sync, size } => In::LitTooLong { len, tag, sync, size },
    }
}

impl ServerSpec {
    pub fn new(o: SrvOpts, greeting: Greeting<'static>) -> Self {
        ServerSpec { o, inbuf: Unread::default(), mode: Mode::Command, greeting, greeting_out: false, outq: VecDeque::new(), internal: VecDeque::new(), acked: 0, cur_out: None, sent: VecDeque::new(), handles: HashSet::new(), tainted: 0, received: vec![] }
    }
    pub fn fp(&self) -> u64 {
        struct H<'a>(&'a ServerSpec);
        impl Hash for H<'_> {
            fn hash<S: Hasher>(&self, h: &mut S) {
                let s = self.0;
                telling(&s.inbuf, h); s.mode.hash(h); s.greeting_out.hash(h); s.acked.hash(h); s.sent.len().hash(h); s.internal.len().hash(h); for b in s.internal.iter().take(600) { b.hash(h) }
                s.outq.len().hash(h);
                for (_, r) in s.outq.iter().take(if s.outq.len() > 600 { 2 } else { 600 }) { ResponseCodec::default().encode(r).dump().hash(h) }
                s.cur_out.as_ref().map(|(b, _)| b).hash(h);
                s.tainted.hash(h);
                s.received.len().hash(h);
            }
        }
        mc_engine::fp(&H(self))
    }
    fn lim(&self) -> Limits { Limits { relaxed: self.o.relaxed, max_msg: Some(self.o.max_cmd as usize), max_lit: Some(self.o.max_lit) } }
    fn head(&self) -> (In, usize) {
        let l = self.lim();
        match self.mode {
            Mode::IdleAccept => (In::NeedMore, 0),
            Mode::Command => {
                let f = frame(&self.inbuf, &l, dec_command);
                let n = f.accepts.iter().filter(|s| **s).count();
                (conv(f.outcome, |m, n| In::Command(m.into_static(), n), other), n)
            }
            Mode::Auth => (conv(frame(&self.inbuf, &l, dec_auth).outcome, |m, n| In::Auth(m.into_static(), n), other), 0),
            Mode::IdleDone => (conv(frame(&self.inbuf, &l, dec_idle).outcome, |_, n| In::Done(n), other), 0),
        }
    }
    fn consume(&mut self, n: usize) { self.inbuf.take(n); self.tainted = self.tainted.saturating_sub(n as u64); }
    fn message_done(&mut self, n: usize, syncs: usize) -> Out {
        if self.acked != syncs { return viol!(["S02"], "go-ahead-missing", "message {:?} was consumed after {} go-ahead(s) although it has {} accepted synchronizing literal(s)", esc(&self.inbuf[..n]), self.acked, syncs); }
        self.acked = 0;
        self.consume(n);
        Ok(())
    }
    pub fn feed(&mut self, b: &[u8]) { self.inbuf.push(b) }
    pub fn enqueued(&mut self, h: ResponseHandle, r: Response<'static>) -> Out {
        if !self.handles.insert(h) { return viol!(["S01", "H01"], "handle-reused", "a response handle was given out twice: {h:?}"); }
        self.outq.push_back((h, r));
        Ok(())
    }
    pub fn on_output(&mut self, mut b: &[u8]) -> Out {
        while !b.is_empty() {
            if self.cur_out.is_none() {
                if !self.greeting_out {
                    self.greeting_out = true;
                    self.cur_out = Some((GreetingCodec::default().encode(&self.greeting).dump(), Sent::Greeting));
                } else {
                    let syncs = self.head().1;
                    let mut cand: Vec<(Vec<u8>, u8)> = vec![];
                    if let Some(i) = self.internal.front() { cand.push((i.clone(), 0)); }
                    else if syncs > self.acked { cand.push((format!("+ {}\r\n", self.o.accept).into_bytes(), 1)); }
                    if let Some((_, r)) = self.outq.front() { cand.push((ResponseCodec::default().encode(r).dump(), 2)); }
                    let hit = cand.iter().find(|(e, _)| { let n = e.len().min(b.len()); e[..n] == b[..n] }).cloned();
                    match hit {
                        Some((e, 0)) => { self.internal.pop_front(); self.cur_out = Some((e, Sent::Internal)) }
                        Some((e, 1)) => { self.acked += 1; self.cur_out = Some((e, Sent::Internal)) }
                        Some((e, _)) => { let (h, r) = self.outq.pop_front().unwrap(); self.cur_out = Some((e, Sent::Response(h, r))) }
                        None => {
                            let want: Vec<String> = cand.iter().map(|c| esc(&c.0)).collect();
                            let (mut p, k) = match (&self.internal.is_empty(), syncs > self.acked, self.outq.is_empty()) {
                                (true, false, true) => (vec!["S01", "S02", "S03", "X01"], "unexpected-output"),
                                (false, ..) => (vec!["S01", "S03", "X01"], "wrong-output"),
                                (_, true, _) => (vec!["S01", "S02", "X01"], "wrong-output"),
                                _ => (vec!["S01", "S02", "X01"], "wrong-output"),
                            };
                            if b.starts_with(b"+") && !p.contains(&"S02") { p.push("S02"); }
                            if self.mode == Mode::Auth { p.push("S05") }
                            if matches!(self.mode, Mode::IdleAccept | Mode::IdleDone) { p.push("S06") }
                            return Err(Viol::new(&p, k, format!("the server sent {:?}, but what may be sent now is {want:?}", esc(b))));
                        }
                    }
                }
            }
            let (rest, _) = self.cur_out.as_mut().unwrap();
            let n = rest.len().min(b.len());
            if rest[..n] != b[..n] { return viol!(["S01", "X01"], "wrong-output", "the server sent {:?} instead of {:?}", esc(b), esc(rest)); }
            rest.drain(..n);
            b = &b[n..];
            if rest.is_empty() {
                let (_, s) = self.cur_out.take().unwrap();
                if !matches!(s, Sent::Internal) { self.sent.push_back(s); }
            }
        }
        Ok(())
    }
    pub fn on_event(&mut self, e: &Event) -> Out {
        match e {
            Event::GreetingSent { greeting } => match self.sent.pop_front() {
                Some(Sent::Greeting) if *greeting == self.greeting => Ok(()),
                _ => viol!(["S01"], "wrong-sent", "GreetingSent at the wrong time or with the wrong greeting"),
            },
            Event::ResponseSent { handle, response } => match self.sent.pop_front() {
                Some(Sent::Response(h, r)) if h == *handle && r == *response => Ok(()),
                Some(Sent::Response(h, r)) => viol!(["S01"], "wrong-sent", "ResponseSent {handle:?} {response:?} but {h:?} {r:?} was sent"),
                _ => viol!(["S01"], "wrong-sent", "ResponseSent {handle:?} {response:?} although no such response was sent completely"),
            },
            _ => {
                let (h, syncs) = self.head();
                if self.tainted > 0 { return viol!(["S03"], "nonsync-oversize-payload-parsed", "bytes of a refused non-synchronizing literal were interpreted: {e:?}"); }
                let p: Vec<&'static str> = match self.mode { Mode::Command => vec!["F01", "F03", "F04", "S02", "S03", "S04", "S05", "S06", "S07", "X01"], Mode::Auth => vec!["F01", "F03", "S05", "S07"], _ => vec!["F01", "F03", "S06", "S07"] };
                match (e, h) {
                    (Event::CommandReceived { command }, In::Command(c, n)) if *command == c && !matches!(c.body, CommandBody::Authenticate { .. } | CommandBody::Idle) => {
                        self.received.push(c);
                        self.message_done(n, syncs)
                    }
                    (Event::CommandAuthenticateReceived { command_authenticate: ca }, In::Command(c, n)) => {
                        match &c.body {
                            CommandBody::Authenticate { mechanism, initial_response } if c.tag == ca.tag && *mechanism == ca.mechanism && *initial_response == ca.initial_response => {}
                            _ => return viol!(["S05", "S07", "X01"], "wrong-message", "CommandAuthenticateReceived {ca:?}, received {c:?}"),
                        }
                        self.message_done(n, syncs)?;
                        self.received.push(c);
                        self.mode = Mode::Auth;
                        Ok(())
                    }
                    (Event::IdleCommandReceived { tag }, In::Command(c, n)) if c.tag == *tag && c.body == CommandBody::Idle => {
                        self.message_done(n, syncs)?;
                        self.received.push(c);
                        self.mode = Mode::IdleAccept;
                        Ok(())
                    }
                    (Event::AuthenticateDataReceived { authenticate_data }, In::Auth(d, n)) if d == *authenticate_data => self.message_done(n, 0),
                    (Event::IdleDoneReceived, In::Done(n)) => { self.message_done(n, 0)?; self.mode = Mode::Command; Ok(()) }
                    (_, h) => Err(Viol::new(&p, "wrong-message", format!("event {} in mode {:?}, but the next unread input is {}", short(&format!("{e:?}")), self.mode, short(&format!("{h:?}"))))),
                }
            }
        }
    }
    pub fn on_error(&mut self, e: &Error) -> Out {
        let (h, syncs) = self.head();
        let (n, d) = match (e, &h) {
            (Error::MalformedMessage { discarded_bytes }, In::Malformed(n)) => (*n, discarded_bytes.declassify()),
            (Error::ExpectedCrlfGotLf { discarded_bytes }, In::LfOnly(n)) => (*n, discarded_bytes.declassify()),
            (Error::CommandTooLong { discarded_bytes }, In::TooLong(n)) => (*n, discarded_bytes.declassify()),
            (Error::LiteralTooLong { discarded_bytes }, In::LitTooLong { len, .. }) => (*len, discarded_bytes.declassify()),
            _ => {
                let p: &[&'static str] = match (e, &h) {
                    (Error::LiteralTooLong { .. }, _) | (_, In::LitTooLong { .. }) => &["S03", "F03"],
                    (Error::CommandTooLong { .. }, _) | (_, In::TooLong(_)) => &["S04", "F03"],
                    (Error::ExpectedCrlfGotLf { .. }, _) | (_, In::LfOnly(_)) => &["F02", "F03"],
                    _ => match self.mode { Mode::Auth => &["F03", "S05", "F04", "X01"], Mode::Command => &["F03", "F04", "S02", "S03", "S05", "S06", "X01"], _ => &["F03", "S06", "F04"] },
                };
                return Err(Viol::new(p, "wrong-error", format!("error {e} in mode {:?}, but the next unread input is {}", self.mode, short(&format!("{h:?}")))));
            }
        };
        if self.inbuf[..n] != d[..] {
            let p: &[&'static str] = match e { Error::LiteralTooLong { .. } => &["F03", "S03"], Error::CommandTooLong { .. } => &["F03", "S04"], _ => &["F03"] };
            return Err(Viol::new(p, "wrong-discard", format!("discarded {:?}, but the offending message is {:?}", esc(d), esc(&self.inbuf[..n]))));
        }
        self.message_done(n, syncs)?;
        if let In::LitTooLong { tag, sync, size, .. } = h {
            if sync { self.internal.push_back(format!("{tag} BAD {}\r\n", self.o.reject).into_bytes()) } else { self.tainted = size as u64 }
        }
        Ok(())
    }
    /// A message that was misread or ignored also breaks what should have followed from it.
    fn attribute(&self, mut v: Viol) -> Viol {
        if !matches!(v.key.as_str(), "wrong-error" | "withheld" | "wrong-message") { return v; }
        let mut p: Vec<&'static str> = vec![];
        let (h, syncs) = self.head();
        match self.mode { Mode::Auth => p.push("S05"), Mode::IdleAccept | Mode::IdleDone => p.push("S06"), _ => {} }
        if syncs > 0 { p.push("S02"); }
        let mut wellformed = |n: usize| {
            p.extend(["X01", "S07"]);
            let raw = &self.inbuf[..n];
            if raw.contains(&b'{') { p.push("F04"); }
            if self.o.relaxed && raw.windows(2).any(|w| w[1] == b'\n' && w[0] != b'\r') { p.push("F02"); }
        };
        match &h {
            In::Command(c, n) => { wellformed(*n); match c.body { CommandBody::Authenticate { .. } => p.push("S05"), CommandBody::Idle => p.push("S06"), _ => {} } }
            In::Auth(_, n) | In::Done(n) => wellformed(*n),
            In::LitTooLong { .. } => p.push("S03"),
            In::TooLong(_) => p.push("S04"),
            In::LfOnly(_) => p.push("F02"),
            In::Malformed(_) => p.push("F03"),
            In::NeedMore => {}
        }
        for x in p { if !v.props.contains(&x) { v.props.push(x) } }
        v
    }
    pub fn on_need_input(&self) -> Out {
        if !self.greeting_out { return viol!(["S01", "L01", "X01"], "greeting-missing", "the server waits for input without having sent the greeting"); }
        if self.cur_out.is_some() { return viol!(["S01", "L01", "X01"], "partial-output", "the server waits for input in the middle of a response"); }
        if !self.internal.is_empty() { return viol!(["S03", "L01", "X01"], "rejection-missing", "the server waits for input without having refused the oversized literal"); }
        if let Some((h, _)) = self.outq.front() {
            let mut p = vec!["S01", "L01", "X01"];
            if self.mode == Mode::Auth { p.push("S05") }
            return Err(Viol::new(&p, "not-sent", format!("the server waits for input although {h:?} is still queued")));
        }
        if !self.sent.is_empty() { return viol!(["S01"], "sent-event-missing", "a response was sent but never reported"); }
        let (h, syncs) = self.head();
        if syncs > self.acked { return viol!(["S02", "L01", "X01"], "go-ahead-missing", "the server waits for a synchronizing literal without having asked for it"); }
        if self.acked > syncs { return viol!(["S02"], "go-ahead-extra", "more go-aheads than literals"); }
        match h {
            In::NeedMore => Ok(()),
            In::LitTooLong { .. } => viol!(["S03", "F01"], "withheld", "the server waits for input although an oversized literal was announced"),
            In::TooLong(_) => viol!(["S04", "F01"], "withheld", "the server waits for input although the size limit is reached"),
            In::LfOnly(_) => viol!(["F02", "F01"], "withheld", "the server waits for input although a bad line ending was received"),
            h => {
                let mut p = vec!["F01", "F02", "F03", "F04", "L01", "S07", "X01"];
                match self.mode { Mode::Auth => p.push("S05"), Mode::IdleDone => p.push("S06"), _ => { p.push("S05"); p.push("S06"); p.push("S04") } }
                Err(Viol::new(&p, "withheld", format!("the server waits for input although {h:?} was received")))
            }
        }
    }
    fn reply<T: PartialEq + std::fmt::Debug>(&mut self, prop: &'static str, want: bool, what: &str, arg: &T, r: Result<ResponseHandle, T>, resp: Response<'static>, next: Option<Mode>) -> Out {
        match r {
            Ok(h) => {
                if !want { return Err(Viol::new(&[prop], "accepted-out-of-state", format!("{what} was accepted in mode {:?}", self.mode))); }
                if let Some(m) = next { self.mode = m; }
                self.enqueued(h, resp)
            }
            Err(x) => {
                if want { return Err(Viol::new(&[prop], "refused", format!("{what} was refused in mode {:?}", self.mode))); }
                if x != *arg { return Err(Viol::new(&[prop], "argument-changed", format!("{what} was refused but handed back {x:?} instead of {arg:?}"))); }
                Ok(())
            }
        }
    }
    pub fn quiet(&self) -> bool { self.greeting_out && self.outq.is_empty() && self.internal.is_empty() && self.sent.is_empty() && self.cur_out.is_none() }
    pub fn inbuf_len(&self) -> usize { self.inbuf.len() }
    pub fn outq_len(&self) -> usize { self.outq.len() }
    pub fn is_tainted(&self) -> bool { self.tainted > 0 }
}

#[derive(Clone, Debug)]
pub enum Reply { AuthContinue(CommandContinuationRequest<'static>), AuthFinish(Status<'static>), IdleAccept(CommandContinuationRequest<'static>), IdleReject(Status<'static>) }

pub enum SStep { Output(Vec<u8>), Event(Event), Error(Error), NeedInput }
pub struct ServerLab { pub real: Server, pub spec: ServerSpec }
impl ServerLab {
    pub fn new(o: SrvOpts) -> Self { Self::with_greeting(o, greeting("* OK ready\r\n")) }
    pub fn with_greeting(o: SrvOpts, g: Greeting<'static>) -> Self {
        ServerLab { real: Server::new(o.real(), g.clone()), spec: ServerSpec::new(o, g) }
    }
    pub fn next(&mut self, ch: &mut Ch) -> Result<SStep, Viol> {
        let r = self.real.next();
        ch.log(|| match &r { Err(Interrupt::Io(Io::Output(b))) => format!("next->Output({})", esc(b)), r => format!("next->{}", short(&format!("{r:?}"))) });
        let checked = match &r {
            Ok(e) => self.spec.on_event(e),
            Err(Interrupt::Io(Io::Output(b))) => self.spec.on_output(b),
            Err(Interrupt::Io(Io::NeedMoreInput)) => self.spec.on_need_input(),
            Err(Interrupt::Error(e)) => self.spec.on_error(e),
        };
        if let Err(v) = checked { return Err(self.spec.attribute(v)); }
        let s = match r {
            Ok(e) => SStep::Event(e),
            Err(Interrupt::Io(Io::Output(b))) => SStep::Output(b),
            Err(Interrupt::Io(Io::NeedMoreInput)) => SStep::NeedInput,
            Err(Interrupt::Error(e)) => SStep::Error(e),
        };
        ch.step(self.spec.fp());
        Ok(s)
    }
    pub fn drain(&mut self, ch: &mut Ch) -> Result<Vec<SStep>, Viol> {
        let mut v = vec![];
        for _ in 0..STEPS { match self.next(ch)? { SStep::NeedInput => return Ok(v), s => v.push(s) } }
        viol!(["L01"], "livelock", "the server does not come to rest (a million steps without needing input)")
    }
    pub fn feed(&mut self, b: &[u8], ch: &mut Ch) { ch.log(|| format!("feed({})", esc(b))); self.real.enqueue_input(b); self.spec.feed(b); ch.step(self.spec.fp()); }
    pub fn enqueue(&mut self, r: Response<'static>, ch: &mut Ch) -> Out {
        ch.log(|| format!("enqueue({})", esc(&ResponseCodec::default().encode(&r).dump())));
        let h = match r.clone() {
            Response::Data(d) => self.real.enqueue_data(d),
            Response::Status(s) => self.real.enqueue_status(s),
            Response::CommandContinuationRequest(c) => self.real.enqueue_continuation_request(c),
        };
        self.spec.enqueued(h, r)?;
        ch.step(self.spec.fp());
        Ok(())
    }
    pub fn reply(&mut self, r: &Reply, ch: &mut Ch) -> Out {
        let m = self.spec.mode;
        ch.log(|| format!("{r:?} in {m:?}"));
        match r.clone() {
            Reply::AuthContinue(c) => { let x = self.real.authenticate_continue(c.clone()); self.spec.reply("S05", m == Mode::Auth, "authenticate_continue", &c, x, Response::CommandContinuationRequest(c.clone()), None)? }
            Reply::AuthFinish(s) => { let x = self.real.authenticate_finish(s.clone()); self.spec.reply("S05", m == Mode::Auth, "authenticate_finish", &s, x, Response::Status(s.clone()), Some(Mode::Command))? }
            Reply::IdleAccept(c) => { let x = self.real.idle_accept(c.clone()); self.spec.reply("S06", m == Mode::IdleAccept, "idle_accept", &c, x, Response::CommandContinuationRequest(c.clone()), Some(Mode::IdleDone))? }
            Reply::IdleReject(s) => { let x = self.real.idle_reject(s.clone()); self.spec.reply("S06", m == Mode::IdleAccept, "idle_reject", &s, x, Response::Status(s.clone()), Some(Mode::Command))? }
        }
        ch.step(self.spec.fp());
        Ok(())
    }
    /// A cooperative client and user from here on: the server must return to processing commands.
    pub fn epilogue(&mut self, ch: &mut Ch) -> Out {
        for _ in 0..5000 {
            self.drain(ch)?;
            match self.spec.mode {
                Mode::IdleAccept => { self.reply(&Reply::IdleReject(status("Z1 NO no\r\n")), ch)?; continue }
                _ if self.spec.inbuf_len() > 0 => { self.feed(b"\r\n", ch); continue }
                Mode::IdleDone => self.feed(b"DONE\r\n", ch),
                Mode::Auth => self.reply(&Reply::AuthFinish(status("Z2 OK yes\r\n")), ch)?,
                Mode::Command => break,
            }
        }
        self.drain(ch)?;
        let n = self.spec.received.len();
        self.feed(b"Z9 NOOP\r\n", ch);
        self.drain(ch)?;
        if !self.spec.is_tainted() && self.spec.received.len() != n + 1 { return viol!(["L01", "F03", "S07"], "wedged", "with a cooperative client the server does not return to processing commands (mode {:?})", self.spec.mode); }
        Ok(())
    }
}
pub fn greeting(s: &str) -> Greeting<'static> { match dec_greeting(s.as_bytes()) { Dec::Msg(m) => m.into_static(), _ => panic!("MC-ENGINE greeting {s:?}") } }
pub fn response(s: &str) -> Response<'static> { match dec_response(s.as_bytes()) { Dec::Msg(m) => m.into_static(), o => panic!("MC-ENGINE response {s:?} {o:?}") } }
pub fn status(s: &str) -> Status<'static> { match response(s) { Response::Status(x) => x, _ => panic!("MC-ENGINE status {s:?}") } }
pub fn ccr(s: &str) -> CommandContinuationRequest<'static> { match response(s) { Response::CommandContinuationRequest(x) => x, _ => panic!("MC-ENGINE ccr {s:?}") } }
pub fn data(s: &str) -> Data<'static> { match response(s) { Response::Data(x) => x, _ => panic!("MC-ENGINE data {s:?}") } }

#[derive(Clone)]
pub struct ServerCfg {
    pub opts: SrvOpts,
    /// greeting sent and reported up front
    pub pre_greet: bool,
    pub inputs: Vec<&'static [u8]>,
    pub max_inputs: usize,
    pub responses: Vec<&'static str>,
    pub max_responses: usize,
    pub replies: Vec<Reply>,
    pub coarse: bool,
    pub depth: usize,
    pub prune: bool,
    /// most unread input bytes in state-pruned runs
    pub unread: usize,
}
impl Default for ServerCfg { fn default() -> Self { ServerCfg { opts: SrvOpts::default(), pre_greet: true, inputs: vec![], max_inputs: 99, responses: vec![], max_responses: 99, replies: vec![], coarse: false, depth: 7, prune: false, unread: 20 } } }
pub fn server_run(cfg: &ServerCfg, ch: &mut Ch) -> Out {
    let mut lab = ServerLab::new(cfg.opts.clone());
    if cfg.pre_greet { lab.next(ch)?; lab.next(ch)?; }
    let (mut ni, mut nr) = (0, 0);
    for d in 0..cfg.depth {
        // State-pruned runs bound the unread input, otherwise the space never closes.
        let f = if ni < cfg.max_inputs && !(cfg.prune && lab.spec.inbuf_len() > cfg.unread) { cfg.inputs.len() } else { 0 };
        let e = if nr < cfg.max_responses && !(cfg.prune && lab.spec.outq_len() > 1) { cfg.responses.len() } else { 0 };
        let a = cfg.replies.len();
        if cfg.prune && ch.seen(mc_engine::fp(&(lab.spec.fp(), if cfg.max_inputs < 99 { ni } else { 0 }, if cfg.max_responses < 99 { nr } else { 0 })), (cfg.depth - d) as u32) { return Ok(()); }
        let mut k = ch.choose(1 + f + e + a);
        if k == 0 { if cfg.coarse { lab.drain(ch)?; } else { lab.next(ch)?; } continue; }
        k -= 1;
        if k < f { ni += 1; lab.feed(cfg.inputs[k], ch); continue; }
        k -= f;
        if k < e { nr += 1; lab.enqueue(response(cfg.responses[k]), ch)?; continue; }
        k -= e;
        lab.reply(&cfg.replies[k], ch)?;
    }
    lab.epilogue(ch)
}
