//! Arbitrary messages in arbitrary order from both sides, well-formed or not.
use mc_engine::{esc, fp, Ch, Out, Viol};
use simrt::{ConnectPolicy, Policy};

use crate::env::{self, Svc};
use crate::wire::{Cert, Wire};

#[derive(Clone, Copy, PartialEq)]
pub enum Tok<'a> { C(&'a [u8]), S(&'a [u8]), CEnd(End), SEnd(End) }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum End { Fin, Drop, Reset }
use Tok::*;
impl std::fmt::Debug for Tok<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { match self { C(b) => write!(f, "client:{:?}", esc(b)), S(b) => write!(f, "server:{:?}", esc(b)), CEnd(e) => write!(f, "client-{e:?}"), SEnd(e) => write!(f, "server-{e:?}") } }
}

pub const TOKENS: [Tok<'static>; 54] = [
    C(b"a NOOP\r\n"), C(b"b LOGIN {3}\r\n"), C(b"abc"), C(b" x\r\n"), C(b"c LOGIN {3+}\r\nabc d\r\n"), C(b"a IDLE\r\n"), C(b"DONE\r\n"), C(b"b AUTHENTICATE PLAIN\r\n"), C(b"b AUTHENTICATE PLAIN AAAA\r\n"), C(b"dGVzdA==\r\n"), C(b"*\r\n"),
    C(b"c LOGIN {30000000}\r\n"), C(b"c LOGIN {30000000+}\r\n"), C(b"\r\n"), C(b"x NOOP\n"), C(b"\xff\xfe\r\n"), C(b"a CAPABILITY\r\nb NOOP\r\n"), C(b"a STARTTLS\r\n"), C(b"a COMPRESS DEFLATE\r\n"), C(b"a LOGIN {99999999999999999999}\r\n"), C(b"a LOGOUT\r\n"), C(b"x"),
    S(b"* OK x\r\n"), S(b"* PREAUTH x\r\n"), S(b"+ \r\n"), S(b"+ go\r\n"), S(b"+ [CAPABILITY STARTTLS] x\r\n"), S(b"a OK x\r\n"), S(b"a NO x\r\n"), S(b"a BAD x\r\n"), S(b"b OK [CAPABILITY X] x\r\n"), S(b"b BAD [ALERT] x\r\n"), S(b"b NO x\r\n"), S(b"* BAD x\r\n"),
    S(b"* BYE x\r\n"), S(b"* 1 EXISTS\r\n"), S(b"* 1 FETCH (RFC822 {3}\r\nabc)\r\n"), S(b"* 1 FETCH (RFC822 {3}\r\n"), S(b"* CAPABILITY X\r\n"), S(b"z OK x\r\n"), S(b"garbage\r\n"), S(b"\r\n"), S(b"* OK x\n"), S(b"\xff\xfe\r\n"), S(b"+\r\n"), S(b"* 1 EXISTS\r\na OK x\r\n+ \r\n"),
    S(b"* 1 FETCH (RFC822 {4000000000}\r\n"), S(b"*"),
    CEnd(End::Fin), CEnd(End::Drop), CEnd(End::Reset), SEnd(End::Fin), SEnd(End::Drop), SEnd(End::Reset),
];
/// What happened before.
pub const PROLOGUES: [(&str, &[Tok<'static>]); 16] = [
    ("greeted", &[S(b"* OK hi\r\n")]),
    ("authenticate sent", &[S(b"* OK hi\r\n"), C(b"b AUTHENTICATE PLAIN\r\n")]),
    ("authenticate continued", &[S(b"* OK hi\r\n"), C(b"b AUTHENTICATE PLAIN\r\n"), S(b"+ \r\n")]),
    ("authenticate answered", &[S(b"* OK hi\r\n"), C(b"b AUTHENTICATE PLAIN\r\n"), S(b"+ \r\n"), C(b"dGVzdA==\r\n")]),
    ("idle sent", &[S(b"* OK hi\r\n"), C(b"a IDLE\r\n")]),
    ("idling", &[S(b"* OK hi\r\n"), C(b"a IDLE\r\n"), S(b"+ idle\r\n")]),
    ("idle done", &[S(b"* OK hi\r\n"), C(b"a IDLE\r\n"), S(b"+ idle\r\n"), C(b"DONE\r\n")]),
    ("inside a literal", &[S(b"* OK hi\r\n"), C(b"b LOGIN {3}\r\n")]),
    ("literal announced", &[S(b"* OK hi\r\n"), C(b"b LOGIN {3}\r\n"), C(b"abc"), C(b" x\r\n")]),
    ("authenticate behind a literal", &[S(b"* OK hi\r\n"), C(b"b LOGIN {3}\r\n"), C(b"abc"), C(b" x\r\n"), C(b"b AUTHENTICATE PLAIN\r\n")]),
    ("idle behind a literal", &[S(b"* OK hi\r\n"), C(b"b LOGIN {3}\r\n"), C(b"abc"), C(b" x\r\n"), C(b"a IDLE\r\n")]),
    ("idle behind idle", &[S(b"* OK hi\r\n"), C(b"a IDLE\r\n"), S(b"+ idle\r\n"), C(b"DONE\r\n"), C(b"a IDLE\r\n")]),
    ("authenticate after refused literal", &[S(b"* OK hi\r\n"), C(b"b LOGIN {3}\r\n"), C(b"abc"), C(b" x\r\n"), C(b"b AUTHENTICATE PLAIN\r\n"), S(b"b BAD x\r\n")]),
    ("command in flight", &[S(b"* OK hi\r\n"), C(b"a NOOP\r\n")]),
    ("preauth, continuation", &[S(b"* PREAUTH hi\r\n"), S(b"+ go\r\n")]),
    ("connected", &[]),
];
pub fn run(ch: &mut Ch, prologue: usize, depth: usize, together: bool, tls: bool) -> Out { session(ch, PROLOGUES[prologue].1, depth, together, tls, None) }
/// What one side has to have received at the end, unless the session may end and did.
struct Probe<'a> { server: bool, last: &'a [u8], may_end: bool }
/// One message with one thing wrong: a byte more, less or changed, anywhere in it.
pub fn typo(ch: &mut Ch, all: &[String], server: bool, prologue: usize, tls: bool) -> Out {
    const B: &[u8] = b"\r\n 0{}+\"\\()*[]=A\0\x7f\xff";
    let mut m = all[ch.choose_big(all.len())].clone().into_bytes();
    if m.len() > 120 { return Ok(()) }
    let i = ch.choose(m.len());
    match ch.choose(2 * B.len() + 3) {
        0 => { m.remove(i); }
        1 => { if i + 1 == m.len() || m[i] == m[i + 1] { return Ok(()) } m.swap(i, i + 1) }
        2 => { let b = m[i]; m.insert(i, b) }
        k if k < 3 + B.len() => { let b = B[k - 3]; if m[i] == b { return Ok(()) } m[i] = b }
        k => m.insert(i, B[k - 3 - B.len()]),
    }
    m.extend(b"\r\n");
    let (last, up): (&[u8], _) = if server { (b"* 77 EXISTS\r\n", String::new()) } else { (b"zz NOOP\r\n", String::from_utf8_lossy(&m).to_uppercase()) };
    m.extend(last);
    // What follows may belong to a literal or an exchange.
    let sure = (if server { prologue == 13 } else { prologue == 0 }) && !m.contains(&b'{') && !up.contains("IDLE") && !up.contains("AUTHENTICATE");
    let mut past = PROLOGUES[prologue].1.to_vec();
    past.push(if server { S(&m) } else { C(&m) });
    session(ch, &past, 0, false, tls, sure.then_some(Probe { server, last, may_end: false }))
}
/// A command that exceeds every limit of the proxy is discarded, and the session goes on.
pub fn too_long(ch: &mut Ch, tls: bool) -> Out {
    const MAX: usize = 26 << 20;
    let m = match ch.choose(5) {
        0 => [&b"b LOGIN "[..], &vec![b'x'; MAX], b"\r\n"].concat(),
        1 => [&b"b LOGIN {26214400+}\r\n"[..], &vec![b'x'; 26_214_400], b" ", &vec![b'y'; 70_000], b"\r\n"].concat(),
        2 => [&b"b LOGIN {26214400}\r\n"[..], &vec![b'\n'; 26_214_400], b" {70000+}\r\n", &vec![b'y'; 70_000], b"\r\n"].concat(),
        3 => [&b"b AUTHENTICATE PLAIN "[..], &vec![b'A'; MAX], b"\r\n"].concat(),
        _ => vec![b'\0'; MAX].into_iter().chain(*b"\r\n").collect(),
    };
    session(ch, &[S(b"* OK hi\r\n"), C(&m), C(b"zz NOOP\r\n")], 0, false, tls, Some(Probe { server: false, last: b"zz NOOP\r\n", may_end: false }))
}
/// Lines of AUTHENTICATE or IDLE before, with and after the server's turns: forwarded, or the session ends.
pub fn turns(ch: &mut Ch, lines: &[&[u8]], plus: usize, tls: bool) -> Out {
    let mut past = vec![S(b"* OK hi\r\n")];
    let (mut i, mut n) = (0, 0);
    while i < lines.len() || n < plus {
        if n == plus || i < lines.len() && ch.choose(2) == 0 { past.push(C(lines[i])); i += 1 } else { past.push(S([&b"+ \r\n"[..], b"+ Zm9v\r\n"][n % 2])); n += 1 }
    }
    let all = lines.concat();
    // An IDLE goes on only with a turn of the server after it arrived.
    let idles = lines.iter().filter(|l| l.ends_with(b"IDLE\r\n")).count();
    for _ in 0..idles { past.push(S(b"+ idling\r\n")) }
    let together = idles == 0 && ch.choose(2) == 1;
    session(ch, &past, 0, together, tls, Some(Probe { server: false, last: &all, may_end: true }))
}
fn session(ch: &mut Ch, before: &[Tok], depth: usize, together: bool, tls: bool, probe: Option<Probe>) -> Out {
    let _g = simrt::begin(ch, Policy::none());
    // The program formats every log line.
    tracing_subscriber::verbose(true);
    let svc = Svc::new(tls, tls);
    let up = svc.upstream();
    simrt::upstream(&up, ConnectPolicy::Accept);
    env::start(&[svc]);
    let idle_tasks = simrt::live_tasks();
    let connect = || -> Result<(Wire, Wire), Viol> {
        let Some(end) = simrt::dial(env::BIND, 1 << 20) else { return Err(Viol::new(&[], "not-listening", "the service does not listen")) };
        let mut c = if tls { Wire::tls_client(end, "imap.test") } else { Wire::plain(end) };
        let mut s = None;
        for _ in 0..12 { env::settle(); c.pump(usize::MAX); if s.is_none() { s = simrt::accepted(&up).map(|e| if tls { Wire::tls_server(e, Cert::GoodChain) } else { Wire::plain(e) }) } if let Some(s) = &mut s { s.pump(usize::MAX) } }
        match s { Some(s) => Ok((c, s)), None => Err(Viol::new(&["P05", "P08"], "no-session", "a client connected but the proxy does not connect to the server")) }
    };
    let (mut c, mut s) = connect()?;
    let mut past: Vec<Tok> = before.to_vec();
    let (mut greeted, n0) = (!past.is_empty(), past.len());
    let rest = |c: &mut Wire, s: &mut Wire| for _ in 0..8 { env::settle(); c.pump(usize::MAX); s.pump(usize::MAX); if simrt::ready().is_empty() { break } };
    let (mut c_end, mut s_end) = (false, false);
    let mut i = 0;
    loop {
        let t = if i < past.len() { past[i] } else if i < n0 + depth {
            // The order of tokens after a side ended does not matter for that side.
            let t = TOKENS[simrt::choose(TOKENS.len())];
            match t { C(_) | CEnd(_) if c_end => return Ok(()), S(_) | SEnd(_) if s_end => return Ok(()), _ => {} }
            past.push(t);
            t
        } else { break };
        simrt::log(|| match t { C(b) => format!("client {}", esc(b)), S(b) => format!("server {}", esc(b)), x => format!("{x:?}") });
        match t {
            C(b) => c.send(b),
            S(b) => { greeted |= b.starts_with(b"* ") && !b.starts_with(b"* 1") && !b.starts_with(b"* C"); s.send(b) }
            CEnd(e) => { c_end = true; end(&mut c, e) }
            SEnd(e) => { s_end = true; end(&mut s, e) }
        }
        i += 1;
        if !together || i <= n0 { rest(&mut c, &mut s) }
        simrt::step(fp(&(c.raw.len(), s.raw.len(), c.closed(), s.closed(), simrt::live_tasks(), c.rx.len(), s.rx.len())));
        if let Some(p) = simrt::panics().first() { return panic(p, &past) }
    }
    rest(&mut c, &mut s);
    if let Some(Probe { server, last, may_end }) = probe {
        let ended = c.closed() || s.closed();
        if !(may_end && ended) {
        let what = past.iter().map(|t| format!("{t:?}")).collect::<Vec<_>>().join(" ");
        if ended { return Err(Viol::new(&["P05"], "ended", format!("the session ended after {what}"))) }
        if !(if server { &c.rx } else { &s.rx }).ends_with(last) { return Err(Viol::new(&["P05", if server { "P02" } else { "P01" }], "dropped-too-much", format!("{} was not forwarded after {what}", esc(last)))) }
        }
    }
    let over = |c: &Wire, s: &Wire| c.closed() || s.closed();
    if !over(&c, &s) && !c_end && !s_end {
        // Nobody closed and the session lives: closing either side has to end it.
        match simrt::choose(4) {
            0 if greeted => { c_end = true; end(&mut c, End::Fin) }
            1 if greeted => { c_end = true; end(&mut c, End::Reset) }
            2 => { s_end = true; end(&mut s, End::Fin) }
            3 => { s_end = true; end(&mut s, End::Reset) }
            _ => return Ok(()),
        }
    }
    // A client's end is noticed once the server's greeting arrived.
    if c_end && !s_end && !greeted { end(&mut s, End::Fin) }
    for _ in 0..50 { rest(&mut c, &mut s); if simrt::ready().is_empty() && !simrt::advance_time() { break } }
    if let Some(p) = simrt::panics().first() { return panic(p, &past) }
    let what = past.iter().map(|t| format!("{t:?}")).collect::<Vec<_>>().join(" ");
    if !c.closed() { return Err(Viol::new(&["P05"], "client-left-open", format!("one side is closed, the client's connection stays open after {what}"))) }
    if !s.closed() { return Err(Viol::new(&["P05"], "server-left-open", format!("one side is closed, the server's connection stays open after {what}"))) }
    if simrt::live_tasks() != idle_tasks { return Err(Viol::new(&["P05"], "task-left", format!("{} tasks remain after the session, {idle_tasks} were there before", simrt::live_tasks()))) }
    // The service goes on.
    let (mut c, mut s) = connect()?;
    s.send(b"* OK again\r\n");
    rest(&mut c, &mut s);
    c.send(b"q NOOP\r\n");
    rest(&mut c, &mut s);
    if c.rx != b"* OK again\r\n" || s.rx != b"q NOOP\r\n" { return Err(Viol::new(&["P05", "P08"], "next-session-broken", format!("after {what} the next session does not work: the client got {}, the server {}", esc(&c.rx), esc(&s.rx)))) }
    if let Some(p) = simrt::panics().first() { return panic(p, &past) }
    Ok(())
}
fn panic(p: &str, past: &[Tok]) -> Out { Err(Viol::new(&["P05"], format!("panic:{}", mc_engine::panic_key(p)), format!("the session task panicked: {p} after {}", past.iter().map(|t| format!("{t:?}")).collect::<Vec<_>>().join(" ")))) }
fn end(w: &mut Wire, e: End) { match e { End::Fin => w.fin(), End::Drop => w.drop_end(), End::Reset => w.reset() } }
