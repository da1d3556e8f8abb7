//! A scripted protocol state: emits outputs and line events, and records everything it is given.
use std::collections::VecDeque;
use std::sync::{Arc, Mutex};

use imap_next::{Interrupt, Io, State};

#[derive(Clone, Debug, PartialEq)]
pub enum Ev { Sent(usize), Line(Vec<u8>) }
#[derive(Clone, Debug, PartialEq)]
pub struct Bad(pub Vec<u8>);

#[derive(Default)]
pub struct Inner {
    pub outq: VecDeque<Vec<u8>>,
    awaiting_sent: bool,
    pub sent: usize,
    inbuf: Vec<u8>,
    /// taken and looked at so far
    at: usize,
    scanned: usize,
    /// all bytes ever handed to the state
    pub consumed: Vec<u8>,
    /// all bytes handed out for sending
    pub produced: Vec<u8>,
    /// everything `next` returned that the driver must pass on
    pub emitted: Vec<Result<Ev, Bad>>,
    /// every line makes the state send `E<line>`
    pub echo: bool,
}
#[derive(Clone, Default)]
pub struct Script(pub Arc<Mutex<Inner>>);
impl State for Script {
    type Event = Ev;
    type Error = Bad;
    fn enqueue_input(&mut self, b: &[u8]) { let mut s = self.0.lock().unwrap(); s.inbuf.extend(b); s.consumed.extend(b) }
    fn next(&mut self) -> Result<Ev, Interrupt<Bad>> {
        let mut s = self.0.lock().unwrap();
        if s.awaiting_sent { s.awaiting_sent = false; s.sent += 1; let e = Ev::Sent(s.sent); s.emitted.push(Ok(e.clone())); return Ok(e); }
        if let Some(o) = s.outq.pop_front() { s.produced.extend(&o); s.awaiting_sent = true; return Err(Interrupt::Io(Io::Output(o))); }
        let n = s.inbuf[s.scanned..].iter().position(|c| *c == b'\n');
        s.scanned = match n { Some(n) => s.scanned + n + 1, None => s.inbuf.len() };
        if n.is_some() {
            let l: Vec<u8> = s.inbuf[s.at..s.scanned].to_vec();
            s.at = s.scanned;
            if l[0] == b'!' { s.emitted.push(Err(Bad(l.clone()))); return Err(Interrupt::Error(Bad(l))); }
            if s.echo { let mut o = b"E".to_vec(); o.extend(&l); s.outq.push_back(o) }
            s.emitted.push(Ok(Ev::Line(l.clone())));
            return Ok(Ev::Line(l));
        }
        Err(Interrupt::Io(Io::NeedMoreInput))
    }
}
/// Number of complete lines in `b`.
pub fn lines(b: &[u8]) -> usize { b.iter().filter(|c| **c == b'\n').count() }
