//! One session: a scripted client and a scripted server around the real proxy.
use mc_engine::{esc, fp, Ch, Out, Viol};
use simrt::{ConnectPolicy, Policy};

use crate::caps;
use crate::env::{self, Svc};
use crate::lists::Who;
use crate::wire::{Cert, Units, Wire};

#[derive(Clone, Debug, PartialEq)]
pub enum When {
    Now,
    /// this many complete messages arrived
    Units(usize),
    /// this many continuation requests arrived (client)
    Plus(usize),
    /// a message with this prefix arrived
    Has(&'static str),
    /// a synchronizing literal waits for a decision (server)
    Asked,
    /// the proxy closed this connection
    Closed,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Act {
    /// Bytes of messages that the other side has to get.
    Send(Vec<u8>),
    /// Bytes the other side must not get.
    Noise(Vec<u8>),
    GoAhead(Vec<u8>),
    /// Refuses the announced literal.
    Refuse(Vec<u8>),
    Fin,
    Drop,
    Reset,
}
#[derive(Clone, Debug)]
pub struct Item(pub When, pub Act);

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rest {
    /// the session is alive, everything was delivered
    Open,
    /// the session ended; what was sent before reached: (server, client)
    Ended { to_server: bool, to_client: bool },
}
#[derive(Clone, Debug)]
pub struct Spec {
    pub bind_tls: bool,
    pub connect_tls: bool,
    pub client: Vec<Item>,
    pub server: Vec<Item>,
    /// server messages that may come at any time after the greeting
    pub unsolicited: Vec<Vec<u8>>,
    /// proxy-made statuses the client gets (prefix)
    pub own: Vec<&'static str>,
    pub cap: usize,
    /// peers take only this many bytes at a time (0: they always take everything)
    pub slow: usize,
    /// this side does not read at all (needs `slow`)
    pub deaf: Option<Who>,
    pub base: usize,
    pub policy: Policy,
    pub rest: Rest,
    pub verbose: bool,
    pub prop: &'static str,
}
impl Spec {
    pub fn new(prop: &'static str) -> Self {
        Spec { bind_tls: false, connect_tls: false, client: vec![], server: vec![], unsolicited: vec![], own: vec![], cap: 1 << 20, slow: 0, deaf: None, base: 0, policy: Policy::none(), rest: Rest::Open, verbose: false, prop }
    }
}
/// Which direction is affected.
#[derive(Clone, Copy)]
enum Side { Server, Client, Both }
#[derive(Clone, Debug)]
enum Exp { Exact(Vec<u8>), Bad { tag: Vec<u8>, not: Vec<u8> } }

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Move { Run(usize), Client, Server, Unsolicited, ReadC, ReadS }

struct S<'a> {
    o: &'a Spec,
    c: Wire, s: Option<Wire>,
    cu: Units, su: Units,
    ci: usize, si: usize, ui: usize,
    /// complete messages the client sent
    sent: Units, sent_bytes: Vec<u8>, headers: usize,
    expect: Vec<Exp>, matched: usize, seen: usize, own_plus: usize, own: usize, refused: Vec<usize>, checked: usize,
    up: String,
    /// The other direction went wrong: it is not looked at any more.
    other: Option<Viol>, skip: [bool; 2],
}
fn is_plus(u: &[u8]) -> bool { u.starts_with(b"+") }
impl S<'_> {
    fn bad(&self, side: Side, k: &str, m: String) -> Out {
        let p = match (self.o.prop, side) { ("P01", Side::Client) => "P02", ("P02" | "P03", Side::Server) => "P01", ("P03", Side::Client) if !m.contains("CAPABILITY") => "P02", (p, _) => p };
        Err(Viol::new(&[p], k, m))
    }
    fn met(&self, w: &When, client: bool) -> bool {
        let (u, wire) = if client { (&self.cu, Some(&self.c)) } else { (&self.su, self.s.as_ref()) };
        let Some(wire) = wire else { return false };
        if !wire.secure() { return false }
        match w {
            When::Now => client || self.s.is_some(),
            When::Units(n) => u.units.len() >= *n,
            When::Plus(n) => u.units.iter().filter(|u| is_plus(u)).count() >= *n,
            When::Has(p) => u.units.iter().any(|u| u.starts_with(p.as_bytes())),
            When::Asked => u.asking.is_some(),
            When::Closed => wire.closed(),
        }
    }
    fn moves(&self) -> Vec<Move> {
        let run: Vec<Move> = simrt::ready().into_iter().map(Move::Run).collect();
        let mut cl = vec![]; let mut sv = vec![]; let mut rd = vec![];
        if self.o.client.get(self.ci).is_some_and(|i| self.met(&i.0, true)) { cl.push(Move::Client) }
        if self.o.server.get(self.si).is_some_and(|i| self.met(&i.0, false)) { sv.push(Move::Server) }
        if self.si > 0 && self.ui < self.o.unsolicited.len() && !self.s.as_ref().unwrap().done { sv.push(Move::Unsolicited) }
        if self.o.slow > 0 {
            if self.o.deaf != Some(Who::Client) && self.c.pending() > 0 { rd.push(Move::ReadC) }
            if self.o.deaf != Some(Who::Server) && self.s.as_ref().is_some_and(|s| s.pending() > 0) { rd.push(Move::ReadS) }
        }
        let order: [&[Move]; 4] = match self.o.base {
            0 => [&run, &rd, &cl, &sv],
            1 => [&run, &rd, &sv, &cl],
            2 => [&cl, &run, &sv, &rd],
            3 => [&cl, &sv, &run, &rd],
            4 => [&sv, &run, &cl, &rd],
            _ => [&sv, &cl, &run, &rd],
        };
        order.concat()
    }
    fn perform(&mut self, m: Move) {
        match m {
            Move::Run(i) => simrt::run_task(i),
            Move::ReadC => self.c.pump(self.o.slow),
            Move::ReadS => self.s.as_mut().unwrap().pump(self.o.slow),
            Move::Client => {
                let a = self.o.client[self.ci].1.clone();
                self.ci += 1;
                match a {
                    Act::Send(b) => {
                        self.sent_bytes.extend(&b);
                        let mut all = std::mem::take(&mut self.sent_bytes);
                        self.sent.feed(&all);
                        if b.ends_with(b"\n") { let line = &b[b[..b.len() - 1].iter().rposition(|c| *c == b'\n').map_or(0, |i| i + 1)..]; if crate::wire::announced(line).is_some_and(|x| x.1) { self.headers += 1 } }
                        std::mem::swap(&mut self.sent_bytes, &mut all);
                        self.c.send(&b)
                    }
                    Act::Noise(b) => self.c.send(&b),
                    Act::Fin => self.c.fin(),
                    Act::Drop => self.c.drop_end(),
                    Act::Reset => self.c.reset(),
                    x => panic!("MC-ENGINE: client cannot {x:?}"),
                }
            }
            Move::Server => {
                let a = self.o.server[self.si].1.clone();
                self.si += 1;
                let s = self.s.as_mut().unwrap();
                match a {
                    Act::Send(b) => { for u in split(&b) { self.expect.push(Exp::Exact(caps::expected(std::str::from_utf8(&u).expect("MC-ENGINE: text")).into_bytes())) } s.send(&b) }
                    Act::Noise(b) => s.send(&b),
                    Act::GoAhead(b) => { self.su.go_ahead(); s.send(&b) }
                    Act::Refuse(b) => {
                        let p = self.su.refuse();
                        self.refused.push(self.su.units.len() - 1);
                        let tag = p.split(|c| *c == b' ').next().unwrap().to_vec();
                        let mut full = tag.clone();
                        full.extend(b" BAD ");
                        full.extend(&b);
                        full.extend(b"\r\n");
                        self.expect.push(if b.starts_with(b"[ALERT]") { Exp::Exact(full.clone()) } else { Exp::Bad { tag, not: b } });
                        s.send(&full)
                    }
                    Act::Fin => s.fin(),
                    Act::Drop => s.drop_end(),
                    Act::Reset => s.reset(),
                }
            }
            Move::Unsolicited => {
                let b = self.o.unsolicited[self.ui].clone();
                self.ui += 1;
                self.expect.push(Exp::Exact(caps::expected(std::str::from_utf8(&b).unwrap()).into_bytes()));
                self.s.as_mut().unwrap().send(&b)
            }
        }
        if self.s.is_none() {
            if let Some(e) = simrt::accepted(&self.up) { e.set_cap(self.o.cap); self.s = Some(if self.o.connect_tls { Wire::tls_server(e, Cert::GoodChain) } else { Wire::plain(e) }) }
        }
        if self.o.slow == 0 { self.c.pump(usize::MAX); if let Some(s) = &mut self.s { s.pump(usize::MAX) } }
        self.cu.feed(&self.c.rx);
        if let Some(s) = &self.s { self.su.feed(&s.rx) }
    }
    /// What arrived so far is what it has to be.
    fn check(&mut self) -> Out {
        for (k, f) in [Self::check_client as fn(&mut Self) -> Out, Self::check_server].into_iter().enumerate() {
            if self.skip[k] { continue }
            match f(self) {
                Err(v) if !v.props.is_empty() && !v.props.iter().any(|p| *p == self.o.prop) => { self.skip[k] = true; self.other.get_or_insert(v); }
                r => r?,
            }
        }
        if let Some(p) = simrt::panics().first() { return Err(Viol::new(&[], format!("panic:{p}"), format!("panic: {p}"))); }
        Ok(())
    }
    fn check_client(&mut self) -> Out {
        while self.seen < self.cu.units.len() {
            let u = self.cu.units[self.seen].clone();
            self.seen += 1;
            let hit = match self.expect.get(self.matched) {
                Some(Exp::Exact(e)) => *e == u,
                Some(Exp::Bad { tag, not }) => { let mut p = tag.clone(); p.extend(b" BAD "); u.starts_with(&p) && u.get(p.len()) != Some(&b'[') && u[p.len()..].strip_suffix(b"\r\n") != Some(not) }
                None => false,
            };
            if hit { self.matched += 1; continue }
            if is_plus(&u) && self.own_plus < self.headers { self.own_plus += 1; continue }
            if self.own < self.o.own.len() && u.starts_with(self.o.own[self.own].as_bytes()) { self.own += 1; continue }
            let want = match self.expect.get(self.matched) { Some(Exp::Exact(e)) => esc(e), Some(Exp::Bad { tag, .. }) => format!("{} BAD (proxy's text, no code)", esc(tag)), None => "nothing".into() };
            return self.bad(Side::Client, "client-got-wrong-message", format!("the client got {} instead of {want}", esc(&u)));
        }
        Ok(())
    }
    fn check_server(&mut self) -> Out {
        for k in self.checked..self.su.units.len() {
            let u = &self.su.units[k];
            let ok = match self.sent.units.get(k) { Some(w) => w == u || (self.refused.contains(&k) && w.starts_with(u)), None => false };
            if !ok { return self.bad(Side::Server, "server-got-wrong-message", format!("the server got {} instead of {}", esc(u), self.sent.units.get(k).map(|w| esc(w)).unwrap_or("nothing".into()))); }
        }
        self.checked = self.su.units.len();
        if let Some(s) = &self.s {
            let (p, r) = self.su.rest(&s.rx);
            let mut all = p;
            all.extend(r);
            if !all.is_empty() {
                let n = self.su.units.len();
                let none = vec![];
                let w = self.sent.units.get(n).unwrap_or(&none);
                if !w.starts_with(&all) { return self.bad(Side::Server, "server-got-wrong-message", format!("the server got {} of message {n}, which is {}", esc(&all), esc(w))); }
            }
        }
        Ok(())
    }
    fn all_to_server(&self) -> bool { self.skip[1] || self.su.units.len() == self.sent.units.len() }
    fn all_to_client(&self) -> bool { self.skip[0] || self.matched == self.expect.len() }
}
/// Splits server output into messages.
pub fn split(b: &[u8]) -> Vec<Vec<u8>> {
    let mut u = Units::default();
    u.feed(b);
    if !u.partial.is_empty() || u.units.concat() != b { panic!("MC-ENGINE: incomplete message {}", esc(b)) }
    u.units
}
pub fn run(o: &Spec, ch: &mut Ch) -> Out {
    let _g = simrt::begin(ch, Policy::none());
    tracing_subscriber::verbose(o.verbose);
    let svc = Svc::new(o.bind_tls, o.connect_tls);
    let up = svc.upstream();
    simrt::upstream(&up, ConnectPolicy::Accept);
    env::start(&[svc]);
    let Some(end) = simrt::dial(env::BIND, 1 << 20) else { return Err(Viol::new(&[], "not-listening", "the service does not listen")) };
    end.set_cap(o.cap);
    let c = if o.bind_tls { Wire::tls_client(end, "imap.test") } else { Wire::plain(end) };
    let mut s = S { o, c, s: None, cu: Units::default(), su: Units { ask: true, ..Default::default() }, ci: 0, si: 0, ui: 0, sent: Units::default(), sent_bytes: vec![], headers: 0, expect: vec![], matched: 0, seen: 0, own_plus: 0, own: 0, refused: vec![], checked: 0, up, other: None, skip: [false; 2] };
    simrt::set_policy(o.policy);
    let mut n = 0;
    loop {
        s.check()?;
        let m = s.moves();
        if m.is_empty() {
            // A peer that reads slowly must not make the proxy wait forever, a silent one may.
            if o.rest != Rest::Open && simrt::advance_time() { continue }
            break
        }
        let k = simrt::choose_dev(m.len());
        simrt::log(|| match m[k] { Move::Client => format!("client {:?}", o.client[s.ci].1), Move::Server => format!("server {:?}", o.server[s.si].1), x => format!("{x:?}") });
        s.perform(m[k]);
        simrt::step(fp(&(m[k], s.ci, s.si, s.ui, s.cu.units.len(), s.su.units.len(), s.c.raw.len(), s.s.as_ref().map(|s| s.raw.len()), simrt::ready())));
        n += 1;
        if n > 50_000 { return s.bad(Side::Both, "livelock", "the session never comes to rest".into()); }
    }
    let open = !s.c.closed() && s.s.as_ref().is_some_and(|s| !s.closed());
    match o.rest {
        Rest::Open => {
            if !open { return s.bad(Side::Both, "session-ended", "the session ended although nobody closed it".into()) }
            if !s.all_to_server() { return s.bad(Side::Server, "not-delivered-to-server", format!("{} of {} messages reached the server: {} is missing", s.su.units.len(), s.sent.units.len(), esc(&s.sent.units[s.su.units.len()]))) }
            if !s.all_to_client() { return s.bad(Side::Client, "not-delivered-to-client", format!("{} of {} messages reached the client", s.matched, s.expect.len())) }
            if s.ci < o.client.len() { return s.bad(Side::Both, "client-stalled", format!("the client waits forever to do {:?}", o.client[s.ci])) }
            if s.si < o.server.len() { return s.bad(Side::Both, "server-stalled", format!("the server waits forever to do {:?}", o.server[s.si])) }
            if !s.skip[0] && s.own_plus != s.headers { return s.bad(Side::Server, "go-ahead-missing", format!("{} of {} synchronizing literals of the client were released", s.own_plus, s.headers)) }
            if !s.skip[0] && s.own != o.own.len() { return s.bad(Side::Client, "own-status-missing", format!("the client did not get {}", o.own[s.own])) }
        }
        Rest::Ended { to_server, to_client } => {
            if simrt::now().as_secs() > 86_400 { return s.bad(Side::Both, "ends-too-late", format!("the session ended only {:?} after one side had closed", simrt::now())) }
            if to_server && !s.all_to_server() { return s.bad(Side::Both, "lost-on-close-to-server", format!("only {} of {} messages the client sent before closing reached the server", s.su.units.len(), s.sent.units.len())) }
            if to_client && !s.all_to_client() { return s.bad(Side::Both, "lost-on-close-to-client", format!("only {} of {} messages the server sent before closing reached the client", s.matched, s.expect.len())) }
            if !s.c.closed() { return s.bad(Side::Both, "client-left-open", "the session is over but the client's connection stays open".into()) }
            if s.s.as_ref().is_some_and(|s| !s.closed()) { return s.bad(Side::Both, "server-left-open", "the session is over but the server's connection stays open".into()) }
        }
    }
    s.other.map_or(Ok(()), Err)
}
