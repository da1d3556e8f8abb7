//! Byte streams delivered under every segmentation, to real endpoints with an automatic user.
use imap_next::{client, server};
use imap_types::{auth::AuthenticateData, response::Response};
use mc_engine::{esc, viol, Ch, Out, Viol};

use crate::client::*;
use crate::server::*;

#[derive(Clone, Debug)]
pub enum Ep {
    /// server options
    Server(SrvOpts),
    /// (relaxed, preparation)
    Client(bool, Prep),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Prep { Fresh, Greeted, SyncLiteral, TwoLiterals, Auth, Idle, Idling }

pub enum Lab { S(ServerLab), C(ClientLab) }
pub struct Run { pub lab: Lab, pub transcript: Vec<String> }

fn push_out(t: &mut Vec<String>, b: &[u8]) {
    // Consecutive outputs are merged: how output is chunked is not observable.
    if let Some(l) = t.last_mut() { if let Some(r) = l.strip_prefix("out ") { *l = format!("out {r}{}", esc(b)); return; } }
    t.push(format!("out {}", esc(b)));
}

impl Run {
    pub fn new(ep: &Ep, ch: &mut Ch) -> Result<Self, Viol> {
        Ok(match ep {
            Ep::Server(o) => { let mut l = ServerLab::new(o.clone()); l.next(ch)?; l.next(ch)?; Run { lab: Lab::S(l), transcript: vec![] } }
            Ep::Client(relaxed, prep) => {
                let mut l = ClientLab::new(*relaxed);
                if *prep != Prep::Fresh { l.feed(b"* OK hi\r\n", ch); l.next(ch)?; }
                match prep {
                    Prep::Fresh | Prep::Greeted => {}
                    Prep::SyncLiteral => { l.enqueue(cmd("LOGIN {3}\r\nabc x", "A1"), ch)?; l.enqueue(cmd("NOOP", "A2"), ch)?; }
                    Prep::TwoLiterals => { l.enqueue(cmd("LOGIN {3}\r\na\r\n {2+}\r\nxy", "A1"), ch)?; l.enqueue(cmd("LOGIN {1}\r\na {2}\r\nxy", "A2"), ch)?; }
                    Prep::Auth => l.enqueue(cmd("AUTHENTICATE PLAIN", "A1"), ch)?,
                    Prep::Idle | Prep::Idling => l.enqueue(cmd("IDLE", "A1"), ch)?,
                }
                l.drain(ch)?;
                if *prep == Prep::Idling { l.feed(b"+ idling\r\n", ch); l.drain(ch)?; }
                Run { lab: Lab::C(l), transcript: vec![] }
            }
        })
    }
    pub fn feed(&mut self, b: &[u8], ch: &mut Ch) { match &mut self.lab { Lab::S(l) => l.feed(b, ch), Lab::C(l) => l.feed(b, ch) } }
    /// One step plus the automatic user's reaction. False: waits for input.
    pub fn step(&mut self, ch: &mut Ch) -> Result<bool, Viol> {
        match &mut self.lab {
            Lab::S(l) => match l.next(ch)? {
                SStep::NeedInput => return Ok(false),
                SStep::Output(b) => push_out(&mut self.transcript, &b),
                SStep::Error(e) => self.transcript.push(format!("err {e:?}")),
                SStep::Event(e) => {
                    if !matches!(e, server::Event::ResponseSent { .. }) { self.transcript.push(format!("ev {e:?}")); }
                    match e {
                        server::Event::CommandReceived { command } => l.enqueue(response(&format!("{} OK done\r\n", command.tag.inner())), ch)?,
                        server::Event::CommandAuthenticateReceived { .. } => l.reply(&Reply::AuthContinue(ccr("+ go on\r\n")), ch)?,
                        server::Event::AuthenticateDataReceived { authenticate_data } => l.reply(&Reply::AuthFinish(status(if matches!(authenticate_data, AuthenticateData::Cancel) { "A1 BAD cancelled\r\n" } else { "A1 OK fine\r\n" })), ch)?,
                        server::Event::IdleCommandReceived { .. } => l.reply(&Reply::IdleAccept(ccr("+ idling\r\n")), ch)?,
                        server::Event::IdleDoneReceived => l.enqueue(response("A1 OK idle over\r\n"), ch)?,
                        _ => {}
                    }
                }
            },
            Lab::C(l) => match l.next(ch)? {
                Step::NeedInput => return Ok(false),
                Step::Output(b) => push_out(&mut self.transcript, &b),
                Step::Error => self.transcript.push("err".into()),
                Step::Event(e) => {
                    let s = format!("ev {e:?}");
                    // handles differ from run to run
                    self.transcript.push(strip_handles(&s));
                    match e {
                        client::Event::AuthenticateContinuationRequestReceived { .. } => l.set_auth(AuthenticateData::r#continue(b"secret".to_vec()), ch)?,
                        client::Event::IdleAccepted { .. } => l.set_done(ch)?,
                        _ => {}
                    }
                }
            },
        }
        Ok(true)
    }
    pub fn drain(&mut self, ch: &mut Ch) -> Out {
        for _ in 0..crate::client::STEPS { if !self.step(ch)? { return Ok(()); } }
        viol!(["L01"], "livelock", "the endpoint does not come to rest")
    }
    pub fn epilogue(&mut self, ch: &mut Ch) -> Out { match &mut self.lab { Lab::S(l) => l.epilogue(ch), Lab::C(l) => l.epilogue(ch) } }
    pub fn enqueue_noise(&mut self, ch: &mut Ch) -> Out {
        match &mut self.lab { Lab::S(l) => l.enqueue(Response::Data(data("* 7 EXISTS\r\n")), ch), Lab::C(l) => l.enqueue(cmd("NOOP", "N1"), ch) }
    }
}
fn strip_handles(s: &str) -> String {
    let mut o = String::new();
    let mut r = s;
    while let Some(i) = r.find("CommandHandle(") { o.push_str(&r[..i]); let e = r[i..].find(')').unwrap_or(0); r = &r[i + e + 1..]; }
    o.push_str(r);
    o
}

/// How a stream is delivered.
#[derive(Clone, Copy, Debug)]
pub enum Cuts { UpTo(usize), Bytewise }

pub fn seg_run(ep: &Ep, stream: &[u8], cuts: Cuts, ch: &mut Ch) -> Out {
    // Reference transcript: everything in one delivery.
    let mut base = Run::new(ep, &mut Ch::replay(vec![]))?;
    {
        let mut quiet = Ch::replay(vec![]);
        base.feed(stream, &mut quiet);
        base.drain(&mut quiet)?;
    }
    let mut pos = vec![];
    match cuts {
        Cuts::UpTo(k) => {
            let mut from = 0;
            for _ in 0..k {
                // 0: no further cut
                let left = stream.len().saturating_sub(from + 1);
                let c = ch.choose(left + 1);
                if c == 0 { break; }
                from += c;
                pos.push(from);
            }
        }
        Cuts::Bytewise => pos = (1..stream.len()).collect(),
    }
    // 0: come to rest after each delivery; 1: poll only at the end; 2: a single step after each
    let poll = ch.choose(3);
    pos.push(stream.len());
    let mut run = Run::new(ep, ch)?;
    // The stream was processed correctly in one piece, so whatever goes wrong now is due to the pieces.
    let pieces = |mut v: Viol| { if !v.props.contains(&"F01") { v.props.push("F01"); } v };
    let mut a = 0;
    for p in pos {
        run.feed(&stream[a..p], ch);
        a = p;
        match poll { 0 => run.drain(ch).map_err(pieces)?, 2 => { run.step(ch).map_err(pieces)?; } _ => {} }
    }
    run.drain(ch).map_err(pieces)?;
    if run.transcript != base.transcript {
        let i = run.transcript.iter().zip(&base.transcript).position(|(a, b)| a != b).unwrap_or(run.transcript.len().min(base.transcript.len()));
        return viol!(["F01"], "segmentation-dependent", "delivered in pieces the stream {:?} gives {:?} at step {i}, in one piece it gives {:?}", esc(stream), run.transcript.get(i), base.transcript.get(i));
    }
    run.epilogue(ch)
}

/// All sequences of tokens, polled or not after each.
pub fn token_run(ep: &Ep, pre: &[u8], tokens: &[&[u8]], depth: usize, noise: bool, prune: bool, ch: &mut Ch) -> Out {
    let mut run = Run::new(ep, ch)?;
    if !pre.is_empty() { run.feed(pre, ch); run.drain(ch)?; }
    let mut noised = !noise;
    let mut polled = true;
    for d in 0..depth {
        if prune {
            let (f, unread) = match &run.lab { Lab::S(l) => (l.spec.fp(), l.spec.inbuf_len()), Lab::C(l) => (l.spec.fp(), l.spec.inbuf_len()) };
            if unread > 30 { break; }
            if ch.seen(mc_engine::fp(&(f, noised, polled)), (depth - d) as u32) { return Ok(()); }
        }
        let k = ch.choose(tokens.len() * 2 + 1 + !noised as usize);
        if k == 0 { break; }
        if k == tokens.len() * 2 + 1 { noised = true; run.enqueue_noise(ch)?; continue; }
        let t = (k - 1) / 2;
        run.feed(tokens[t], ch);
        polled = (k - 1) % 2 == 1;
        if polled { run.drain(ch)?; }
    }
    run.drain(ch)?;
    run.epilogue(ch)
}
