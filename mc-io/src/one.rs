//! One stream, one scripted state, and an environment that may do anything at any point.
use std::future::Future;
use std::io::ErrorKind;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

use imap_next::stream::{Error, Stream};
use mc_engine::{esc, fp, Ch, Out, Viol};
use rustls::Connection;
use simrt::{End, Policy};
use tokio::net::TcpStream;

use crate::script::*;
use crate::tls::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault { Fin, ReadErr, WriteErr, WriteZero, CloseNotify, CloseNotifyFin, Corrupt, Garbage, Alert, ReadErrOf(ErrorKind), WriteErrOf(ErrorKind) }
#[derive(Clone, Debug)]
pub struct One {
    pub tls: Option<TlsCfg>,
    /// bytes of the peer's ciphertext that arrive with the end of the handshake
    pub tail: usize,
    /// what the peer sends
    pub input: Vec<u8>,
    /// what the state sends, in order; enqueued at any time
    pub outputs: Vec<Vec<u8>>,
    /// enqueue all outputs at the start
    pub preload: bool,
    pub echo: bool,
    pub depth: usize,
    /// how many bytes one delivery brings (0 = all that is left)
    pub deliver: Vec<usize>,
    /// how much room one grant adds (0 = unlimited)
    pub credit: Vec<usize>,
    pub cap0: usize,
    /// lets so many bytes pass one by one, in both directions, polling in between
    pub drip: Vec<usize>,
    pub cancel: bool,
    pub flush: bool,
    pub faults: Vec<Fault>,
    /// the first fault happens only after everything was delivered
    pub policy: Policy,
    pub props: &'static [&'static str],
}
impl One {
    pub fn new(props: &'static [&'static str]) -> Self {
        One { tls: None, tail: 0, input: vec![], outputs: vec![], preload: true, echo: false, depth: 6, deliver: vec![0, 1], credit: vec![0, 1], cap0: 0, drip: vec![], cancel: false, flush: false, faults: vec![], policy: Policy { select: true, bounded: false, ..Policy::none() }, props }
    }
}

struct Flag(AtomicBool);
impl Wake for Flag { fn wake(self: Arc<Self>) { self.0.store(true, Ordering::SeqCst) } }
type NextOut = Result<Result<Ev, Bad>, ErrKind>;
#[derive(Clone, Debug, PartialEq)]
enum ErrKind { Closed, Io(ErrorKind), Tls(String) }
fn conv<E>(e: Error<E>) -> Result<E, ErrKind> { match e { Error::Closed => Err(ErrKind::Closed), Error::Io(e) => Err(ErrKind::Io(e.kind())), Error::Tls(e) => Err(ErrKind::Tls(e.to_string())), Error::State(s) => Ok(s) } }
enum Done { Next(NextOut), Flush(Result<(), ErrKind>) }
type Fut = Pin<Box<dyn Future<Output = Done>>>;

struct Lab {
    // Dropped first: it borrows the stream.
    fut: Option<Fut>,
    flushing: bool,
    polled: bool,
    stream: Box<Stream>,
    flag: Arc<Flag>,
    st: Script,
    end: End,
    peer: Option<Connection>,
    /// peer bytes not delivered yet
    queue: Vec<u8>,
    pos: usize,
    /// (wire end, plaintext end) per record; plain: none
    marks: Vec<(usize, usize)>,
    early: usize,
    input: Vec<u8>,
    seen_wire: usize,
    /// the peer gave up and reads no more
    deaf: bool,
    got: Vec<u8>,
    granted: usize,
    returned: usize,
    /// prefixes already compared
    ok_out: usize,
    ok_in: usize,
    fault: Option<Fault>,
    /// an error or closure was reported
    over: Option<ErrKind>,
    props: &'static [&'static str],
}
macro_rules! bad { ($s:expr, $key:expr, $($a:tt)*) => { Err(Viol::new($s.props, $key, format!($($a)*))) } }

macro_rules! close { ($s:expr, $key:expr, $($a:tt)*) => { Err(Viol::new(if $s.peer.is_some() { &["T04", "T07"] } else { &["T04"] }, $key, format!($($a)*))) } }

impl Lab {
    fn delivered_plain(&self) -> usize {
        if self.peer.is_none() { return self.pos; }
        let wire = self.early + self.pos;
        self.marks.iter().take_while(|m| m.0 <= wire).last().map(|m| m.1).unwrap_or(0)
    }
    /// No record was delivered partially.
    fn at_boundary(&self) -> bool { let w = self.early + self.pos; w == 0 || self.marks.iter().any(|m| m.0 == w) }
    fn start(&mut self, flush: bool) {
        let p: *mut Stream = &mut *self.stream;
        // The future never outlives the stream and is the only user of it while it exists.
        let s: &'static mut Stream = unsafe { &mut *p };
        let st = self.st.clone();
        self.fut = Some(if flush { Box::pin(async move { Done::Flush(s.flush().await.map_err(|e| match conv(e) { Err(k) => k, Ok(n) => match n {} })) }) }
        else { Box::pin(async move { Done::Next(match s.next(st).await { Ok(e) => Ok(Ok(e)), Err(e) => conv(e).map(Err) }) }) });
        self.flushing = flush;
        self.polled = false;
        self.flag.0.store(true, Ordering::SeqCst);
    }
    fn woken(&self) -> bool { self.flag.0.load(Ordering::SeqCst) }
    fn room(&self) -> usize { let p = self.end.rx.lock().unwrap(); p.cap.saturating_sub(p.buf.len()) }
    fn look_at_wire(&mut self) -> Out {
        let new: Vec<u8> = { let p = self.end.rx.lock().unwrap(); let n = self.seen_wire; let (a, b) = p.buf.as_slices(); if n < a.len() { [&a[n..], b].concat() } else { b[n - a.len()..].to_vec() } };
        self.seen_wire += new.len();
        if self.deaf { return Ok(()); }
        match &mut self.peer {
            None => self.got.extend(new),
            Some(c) => { let mut out = vec![]; if let Err(e) = feed(c, &new, &mut out) { return bad!(self, "tls-stream-broken", "the peer cannot decrypt what the stream sent: {e}"); } self.got.extend(out) }
        }
        let s = self.st.0.lock().unwrap();
        let same = self.got.len() <= s.produced.len() && s.produced[self.ok_out..self.got.len()] == self.got[self.ok_out..];
        self.ok_out = self.got.len();
        if !same { return bad!(self, "wire-differs", "the peer got {} but the state produced {}", esc(&self.got), esc(&s.produced)); }
        Ok(())
    }
    fn deliver(&mut self, n: usize) { let n = if n == 0 { self.queue.len() - self.pos } else { n.min(self.queue.len() - self.pos) }; let b = self.queue[self.pos..self.pos + n].to_vec(); self.pos += n; self.end.push(&b); simrt::log(|| format!("peer delivers {n} bytes")) }
    fn grant(&mut self, n: usize) { self.granted = if n == 0 { usize::MAX / 2 } else { self.granted.saturating_add(n) }; let g = self.granted; self.end.set_cap(g); simrt::log(|| format!("room for {n} more bytes")) }
    fn fault(&mut self, f: Fault) {
        simrt::log(|| format!("{f:?}"));
        self.fault = Some(f);
        match f {
            Fault::Fin => self.end.shutdown(),
            Fault::ReadErr => self.end.fail_reads(ErrorKind::ConnectionReset),
            Fault::WriteErr => self.end.fail_writes(ErrorKind::BrokenPipe),
            Fault::WriteZero => self.end.refuse_writes(),
            Fault::CloseNotify | Fault::CloseNotifyFin => {
                let c = self.peer.as_mut().unwrap();
                c.send_close_notify();
                let b = drain(c);
                self.end.push(&b);
                if f == Fault::CloseNotifyFin { self.end.shutdown() }
            }
            Fault::ReadErrOf(k) => self.end.fail_reads(k),
            Fault::WriteErrOf(k) => self.end.fail_writes(k),
            // Something that is no TLS record.
            Fault::Garbage => self.end.push(b"* OK plain text\r\n* OK plain text\r\n"),
            // The peer gives up: it was made to believe that it got garbage.
            Fault::Alert => { let c = self.peer.as_mut().unwrap(); let mut out = vec![]; let _ = feed(c, &[23, 3, 3, 0, 32].into_iter().chain([0xaa; 32]).collect::<Vec<_>>(), &mut out); let b = drain(c); assert!(!b.is_empty(), "MC-ENGINE: no alert"); self.end.push(&b); self.deaf = true }
            Fault::Corrupt => { let mut b = vec![23, 3, 3, 0, 32]; b.extend([0xaa; 32]); self.end.push(&b) }
        }
    }
    fn check_input(&mut self) -> Out {
        let s = self.st.0.lock().unwrap();
        let same = s.consumed.len() <= self.input.len() && s.consumed[self.ok_in..] == self.input[self.ok_in..s.consumed.len()];
        self.ok_in = s.consumed.len();
        if !same { return bad!(self, "input-differs", "the state was given {} but the peer sent {}", esc(&s.consumed), esc(&self.input)); }
        if s.consumed.len() > self.delivered_plain() { return bad!(self, "input-invented", "the state was given {} bytes but only {} arrived", s.consumed.len(), self.delivered_plain()); }
        Ok(())
    }
    fn poll(&mut self) -> Out {
        self.flag.0.store(false, Ordering::SeqCst);
        self.polled = true;
        let w = Waker::from(self.flag.clone());
        let mut cx = Context::from_waker(&w);
        let r = self.fut.as_mut().unwrap().as_mut().poll(&mut cx);
        self.look_at_wire()?;
        self.check_input()?;
        let (count, last) = { let s = self.st.0.lock().unwrap(); (s.emitted.len(), s.emitted.last().cloned()) };
        match r {
            Poll::Pending => {
                simrt::log(|| "pending".into());
                if count != self.returned { return bad!(self, "event-kept", "the state emitted {:?} but the stream went on waiting", last); }
                if !self.woken() { self.quiescent()?; }
            }
            Poll::Ready(d) => {
                self.fut = None;
                match d {
                    Done::Flush(Ok(())) => {
                        simrt::log(|| "flushed".into());
                        let p = self.st.0.lock().unwrap().produced.len();
                        if !self.deaf && self.got.len() != p { return bad!(self, "flush-incomplete", "flush returned but the peer only got {} of {p} bytes", self.got.len()); }
                    }
                    Done::Flush(Err(k)) => { simrt::log(|| format!("flush: {k:?}")); self.ended(k)? }
                    Done::Next(Ok(ev)) => {
                        simrt::log(|| format!("returned {ev:?}"));
                        if count != self.returned + 1 { return bad!(self, "event-lost", "the state emitted {} events, the stream returned {}", count, self.returned + 1); }
                        if last.as_ref() != Some(&ev) { return bad!(self, "event-changed", "the state emitted {:?}, the stream returned {ev:?}", last); }
                        self.returned += 1;
                    }
                    Done::Next(Err(k)) => {
                        simrt::log(|| format!("error {k:?}"));
                        if count != self.returned { return bad!(self, "event-lost", "the state emitted {:?} but the stream returned {k:?}", last); }
                        self.ended(k)?
                    }
                }
            }
        }
        Ok(())
    }
    /// An error was reported: is it the right one and was everything delivered before?
    fn ended(&mut self, k: ErrKind) -> Out {
        let Some(f) = self.fault else { return bad!(self, "unexpected-error", "the stream reports {k:?} though nothing failed"); };
        let write_fault = matches!(f, Fault::WriteErr | Fault::WriteErrOf(_) | Fault::WriteZero);
        let ok = match f {
            Fault::Fin | Fault::WriteZero | Fault::CloseNotify | Fault::CloseNotifyFin => k == ErrKind::Closed || (self.peer.is_some() && !write_fault),
            Fault::ReadErr => k == ErrKind::Io(ErrorKind::ConnectionReset),
            Fault::WriteErr => k == ErrKind::Io(ErrorKind::BrokenPipe),
            Fault::ReadErrOf(e) | Fault::WriteErrOf(e) => k == ErrKind::Io(e),
            Fault::Corrupt | Fault::Garbage | Fault::Alert => matches!(k, ErrKind::Tls(_) | ErrKind::Io(_)),
        };
        if !ok { return close!(self, "wrong-error", "after {f:?} the stream reports {k:?}"); }
        let s = self.st.0.lock().unwrap();
        // A failed write does not say that everything readable was read; all other ends do.
        if !write_fault && !self.flushing {
            if s.consumed.len() != self.delivered_plain() { return close!(self, "lost-before-close", "{k:?} was reported though {} of {} received bytes were not delivered", self.delivered_plain() - s.consumed.len(), self.delivered_plain()); }
        }
        if !self.flushing {
            let want = lines(&s.consumed);
            let have = s.emitted.iter().filter(|e| !matches!(e, Ok(Ev::Sent(_)))).count();
            if have != want { return close!(self, "lost-event-before-close", "{k:?} was reported before all {want} received messages were returned as events ({have} were)"); }
        }
        drop(s);
        self.over = Some(k);
        Ok(())
    }
    /// The pending operation waits: nothing it could do must be left.
    fn quiescent(&mut self) -> Out {
        if !self.flushing {
            let unread = self.end.unread();
            if unread > 0 { return bad!(self, "does-not-read", "the stream waits although {unread} received bytes can be read"); }
            let (c, d) = (self.st.0.lock().unwrap().consumed.len(), self.delivered_plain());
            if c != d { return bad!(self, "input-kept", "the stream waits but gave the state only {c} of {d} received bytes"); }
        }
        let p = self.st.0.lock().unwrap().produced.len();
        if !self.deaf && self.room() > 0 && self.got.len() < p { return bad!(self, "does-not-write", "the stream waits although the peer can take more and {} bytes are unsent", p - self.got.len()); }
        match self.fault {
            Some(Fault::WriteErr | Fault::WriteErrOf(_) | Fault::WriteZero) if self.got.len() < p => close!(self, "error-not-reported", "the stream waits after {:?} with unsent output", self.fault),
            Some(Fault::WriteErr | Fault::WriteErrOf(_) | Fault::WriteZero) => Ok(()),
            Some(f) if !self.flushing => close!(self, "close-not-reported", "the stream waits for ever after {f:?}"),
            _ => Ok(()),
        }
    }
}

pub fn run(o: &One, ch: &mut Ch) -> Out {
    let _g = simrt::begin(ch, Policy::none());
    let (local, end) = simrt::pair(1 << 24);
    let st = Script::default();
    st.0.lock().unwrap().echo = o.echo;
    let (stream, peer, queue, marks, early) = match o.tls {
        None => (Stream::insecure(TcpStream::from_end(local)), None, o.input.clone(), vec![], 0),
        Some(cfg) => { let h = establish(cfg, local, &end, &o.input, o.tail); (h.stream, Some(h.peer), h.cipher, h.marks, h.early) }
    };
    let base = end.pending();
    assert!(base == 0, "MC-ENGINE: wire not empty after the handshake");
    end.set_cap(o.cap0);
    let mut l = Lab { fut: None, flushing: false, polled: false, stream: Box::new(stream), flag: Arc::new(Flag(AtomicBool::new(false))), st, end, peer, queue, pos: 0, marks, early, input: o.input.clone(), seen_wire: 0, deaf: false, got: vec![], granted: o.cap0, returned: 0, ok_out: 0, ok_in: 0, fault: None, over: None, props: o.props };
    simrt::set_policy(o.policy);
    let mut outs = o.outputs.clone();
    outs.reverse();
    if o.preload { while let Some(x) = outs.pop() { l.st.0.lock().unwrap().outq.push_back(x) } }
    #[derive(Clone, Copy)]
    enum A { Poll, Next, Flush, Deliver(usize), Grant(usize), Drip(usize), Cancel, Enqueue, Fault(Fault), Settle }
    for _ in 0..o.depth {
        let mut acts = vec![];
        if l.fut.is_some() { if l.woken() { acts.push(A::Poll) } } else if l.over.is_none() { acts.push(A::Next); if o.flush { acts.push(A::Flush) } }
        if l.pos < l.queue.len() && l.fault.is_none() { for d in &o.deliver { if *d == 0 || *d < l.queue.len() - l.pos { acts.push(A::Deliver(*d)) } } }
        if l.granted < usize::MAX / 2 { for c in &o.credit { acts.push(A::Grant(*c)) } }
        if l.fut.is_some() && l.fault.is_none() { for n in &o.drip { acts.push(A::Drip(*n)) } }
        if o.cancel && l.fut.is_some() && l.polled { acts.push(A::Cancel) }
        if l.fut.is_none() && !outs.is_empty() { acts.push(A::Enqueue) }
        if l.fault.is_none() && l.over.is_none() { for f in &o.faults { if match f { Fault::CloseNotify | Fault::CloseNotifyFin => l.pos == l.queue.len(), Fault::Corrupt | Fault::Garbage => l.at_boundary(), Fault::Alert => l.pos == l.queue.len(), _ => true } { acts.push(A::Fault(*f)) } } }
        if acts.is_empty() { break; }
        acts.push(A::Settle);
        match acts[simrt::choose(acts.len())] {
            A::Poll => l.poll()?,
            A::Next => { l.start(false); l.poll()? }
            A::Flush => { l.start(true); l.poll()? }
            A::Deliver(n) => l.deliver(n),
            A::Grant(n) => l.grant(n),
            A::Drip(n) => for _ in 0..n { if l.fut.is_none() { break; } if l.pos < l.queue.len() { l.deliver(1) } l.grant(1); if l.woken() { l.poll()? } },
            A::Cancel => { simrt::log(|| "cancel".into()); l.fut = None; l.look_at_wire()?; l.check_input()? }
            A::Enqueue => { let x = outs.pop().unwrap(); simrt::log(|| "enqueue output".into()); l.st.0.lock().unwrap().outq.push_back(x) }
            A::Fault(f) => l.fault(f),
            A::Settle => break,
        }
        simrt::step(fp(&(l.pos, l.got.len(), l.returned, l.granted, l.fut.is_some(), l.flushing, l.woken(), outs.len(), l.fault.map(|f| format!("{f:?}")), l.st.0.lock().unwrap().consumed.len())));
    }
    // Let everything that can happen happen; the default environment from here on.
    simrt::log(|| "settle".into());
    simrt::set_policy(Policy::none());
    if l.fut.is_none() { while let Some(x) = outs.pop() { l.st.0.lock().unwrap().outq.push_back(x) } }
    if l.fault.is_none() { l.deliver(0) }
    l.grant(0);
    for i in 0.. {
        if i > 200_000 { return bad!(l, "livelock", "the stream never comes to rest"); }
        if l.over.is_some() { break; }
        if l.fut.is_none() { l.start(false) }
        if !l.woken() { if l.flushing { return bad!(l, "flush-hangs", "flush waits although the peer takes everything"); } break; }
        l.poll()?;
    }
    if l.over.is_none() {
        let s = l.st.0.lock().unwrap();
        if !s.outq.is_empty() || (!l.deaf && s.produced != l.got) { return bad!(l, "output-incomplete", "at rest the peer got {} of {} bytes", l.got.len(), s.produced.len()); }
        let want: Vec<u8> = if l.fault.is_none() { l.input.clone() } else { l.input[..l.delivered_plain()].to_vec() };
        if s.consumed != want { return bad!(l, "input-incomplete", "at rest the state was given {} of {} bytes", s.consumed.len(), want.len()); }
    } else {
        // The end stays reported.
        for _ in 0..2 {
            l.start(false);
            l.poll()?;
            let mut n = 0;
            while l.fut.is_some() && l.woken() && n < 100 { l.poll()?; n += 1 }
            if l.fut.is_some() && !matches!(l.fault, Some(Fault::WriteErr | Fault::WriteErrOf(_) | Fault::WriteZero)) { return close!(l, "close-forgotten", "after {:?} was reported the stream waits for ever", l.over); }
            l.fut = None;
        }
    }
    Ok(())
}
