//! Encryption (P06) and several clients of one proxy (P08).
use mc_engine::{esc, fp, Ch, Out, Viol};
use simrt::{ConnectPolicy, Policy};

use crate::env::{self, Svc};
use crate::wire::{Cert, Wire};

/// Only TLS records.
fn framed(raw: &[u8]) -> bool {
    let mut b = raw;
    while !b.is_empty() {
        if !(20..=23).contains(&b[0]) || b.get(1).is_some_and(|v| *v != 3) { return false }
        if b.len() < 5 { return true }
        let n = 5 + usize::from(b[3]) * 256 + usize::from(b[4]);
        b = &b[n.min(b.len())..];
    }
    true
}
fn find(b: &[u8], t: &[u8]) -> bool { b.windows(t.len()).any(|w| w == t) }
/// Runs all tasks until nothing happens, in an order the exploration chooses.
fn rest(ws: &mut [&mut Wire]) {
    let mut n = 0;
    loop {
        let r = simrt::ready();
        if r.is_empty() {
            let before: usize = ws.iter().map(|w| w.raw.len() + w.unread()).sum();
            for w in ws.iter_mut() { w.pump(usize::MAX) }
            let after: usize = ws.iter().map(|w| w.raw.len() + w.unread()).sum();
            if simrt::ready().is_empty() && before == after { return }
            continue;
        }
        let k = simrt::choose_dev(r.len());
        simrt::run_task(r[k]);
        simrt::step(fp(&(r, k, ws.iter().map(|w| (w.raw.len(), w.unread())).collect::<Vec<_>>())));
        n += 1;
        if n > 20_000 { panic!("the proxy never comes to rest") }
    }
}
fn dial(bind: &str) -> Result<simrt::End, Viol> { simrt::dial(bind, 1 << 20).ok_or_else(|| Viol::new(&[], "not-listening", "the service does not listen")) }
fn panics() -> Out { match simrt::panics().first() { Some(p) => Err(Viol::new(&[], format!("panic:{}", mc_engine::panic_key(p)), format!("panic: {p}"))), None => Ok(()) } }

// ---- P06 ----------------------------------------------------------------------------------------
pub const IDENTITIES: [&str; 17] = ["good", "no chain file", "no key file", "empty chain", "empty key", "two keys", "other key", "garbage chain", "garbage key", "key as chain", "chain as key", "chain is a directory", "broken key before the key", "broken key after the key", "chain broken at its end", "chain cut off", "key cut off"];
fn identity(k: usize) -> (String, String) {
    let (chain, key) = (include_str!("../../pki/goodchain.pem"), include_str!("../../pki/good.key"));
    let other = include_str!("../../pki/direct.key");
    let c = env::file("i-chain.pem", chain);
    let y = env::file("i-key.pem", key);
    let gone = format!("{}/gone.pem", env::dir().display());
    let cut = |s: &str| s.replacen("-----\nM", "-----\n!!", 1);
    match k {
        0 => (c, y), 1 => (gone, y), 2 => (c, gone), 3 => (env::file("i-empty.pem", ""), y), 4 => (c, env::file("i-empty.pem", "")), 5 => (c, env::file("i-two.pem", &format!("{key}\n{other}"))),
        6 => (c, env::file("i-other.pem", other)), 7 => (env::file("i-badchain.pem", &cut(chain)), y), 8 => (c, env::file("i-badkey.pem", &cut(key))), 9 => (y.clone(), y), 10 => (c.clone(), c),
        12 => (c, env::file("i-brokenfirst.pem", &format!("{}\n{key}", cut(other)))), 13 => (c, env::file("i-brokenlast.pem", &format!("{key}\n{}", cut(other)))),
        14 => (env::file("i-brokenend.pem", &{ let i = chain.rfind("-----BEGIN").unwrap(); format!("{}{}", &chain[..i], cut(&chain[i..])) }), y),
        15 => (env::file("i-cutchain.pem", &chain[..chain.rfind("-----END").unwrap() - 40]), y), 16 => (c, env::file("i-cutkey.pem", &key[..key.rfind("-----END").unwrap() - 20])),
        _ => (env::dir().display().to_string(), y),
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cl {
    /// does what the service's configuration says
    Right,
    /// sends IMAP in plain text to a TLS service
    Plain(&'static [u8]),
    /// a plain-text line before the handshake
    PlainFirst,
    /// part of the handshake, then the connection ends
    Partial(usize),
    /// plain text in the middle of the session
    PlainLater,
    /// a changed byte in the middle of the session
    Tampered,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Sv { Tls(Cert), Plain(&'static [u8]), CloseAtOnce, CloseLater, PlainLater, Tampered }
#[derive(Clone, Debug)]
pub struct Enc { pub bind_tls: bool, pub identity: usize, pub connect_tls: bool, pub host: &'static str, pub cl: Cl, pub sv: Sv, pub policy: Policy, pub early: bool }
fn host_ok(cert: Cert, host: &str) -> bool {
    match cert {
        Cert::GoodChain | Cert::Direct => ["imap.test", "localhost", "127.0.0.1"].contains(&host.to_ascii_lowercase().as_str()),
        Cert::WrongName => host == "evil.test",
        _ => false,
    }
}
/// Sends the encryption of `t` with its last byte changed.
fn tampered(w: &mut Wire, t: &[u8]) { w.hold(); w.send(t); let mut b = w.release(); if let Some(l) = b.last_mut() { *l ^= 1 } w.send_raw(&b) }
pub fn encryption(o: &Enc, ch: &mut Ch) -> Out {
    let bad = |k: &str, m: String| -> Out { Err(Viol::new(&["P06"], k, m)) };
    let _g = simrt::begin(ch, Policy::none());
    let mut svc = Svc::new(o.bind_tls, o.connect_tls);
    if o.bind_tls { svc.bind_tls = Some(identity(o.identity)) }
    svc.connect_host = o.host.into();
    let up = svc.upstream();
    simrt::upstream(&up, ConnectPolicy::Accept);
    env::start(&[svc]);
    let idle = simrt::live_tasks();
    simrt::set_policy(o.policy);
    let end = dial(env::BIND)?;
    let mut c = match (o.bind_tls, o.cl) {
        (true, Cl::Right | Cl::PlainLater | Cl::Tampered) => Wire::tls_client(end, "imap.test"),
        (true, Cl::PlainFirst) => { end.push(b"a NOOP\r\n"); Wire::tls_client(end, "imap.test") }
        (true, Cl::Partial(n)) => {
            let (a, b) = simrt::pair(1 << 20);
            let _w = Wire::tls_client(a, "imap.test");
            let hello = b.take_all();
            let mut w = Wire::plain(end);
            w.send(&hello[..n.min(hello.len())]);
            w.fin();
            w
        }
        _ => Wire::plain(end),
    };
    if let Cl::Plain(t) = o.cl { c.send(t) }
    // A client may send its first command before the greeting.
    if o.early && o.cl == Cl::Right { c.send(b"a NOOP\r\n") }
    let mut s: Option<Wire> = None;
    let mut greeted = false;
    for _ in 0..20 {
        match &mut s { Some(s) => rest(&mut [&mut c, s]), None => rest(&mut [&mut c]) }
        if s.is_none() {
            if let Some(e) = simrt::accepted(&up) {
                s = Some(match o.sv {
                    _ if !o.connect_tls => Wire::plain(e),
                    Sv::Tls(x) => Wire::tls_server(e, x),
                    Sv::Plain(t) => { let mut w = Wire::plain(e); w.send(t); w }
                    Sv::CloseAtOnce => { let mut w = Wire::plain(e); w.fin(); w }
                    _ => Wire::tls_server(e, Cert::GoodChain),
                });
            }
        }
        if let Some(s) = &mut s {
            if o.sv == Sv::CloseLater && !s.raw.is_empty() && !s.done { s.send_raw(&[]); s.drop_end(); }
            if !greeted && s.secure() && !s.done && !matches!(o.sv, Sv::Plain(_)) { greeted = true; s.send(b"* OK secret\r\n") }
        }
    }
    panics()?;
    let client_ok = match (o.bind_tls, o.cl) { (false, _) => true, (true, Cl::Right | Cl::PlainLater | Cl::Tampered) => o.identity == 0, _ => false };
    let server_ok = !o.connect_tls || match o.sv { Sv::Tls(x) => host_ok(x, o.host), Sv::PlainLater | Sv::Tampered => true, _ => false };
    // Nothing outside TLS, whatever happened.
    if o.bind_tls && !framed(&c.raw) { return bad("plain-to-client", format!("the client of a TLS service got {}", esc(&c.raw))) }
    if let (true, Some(s)) = (o.connect_tls, &s) { if !framed(&s.raw) { return bad("plain-to-server", format!("a TLS server got {}", esc(&s.raw))) } }
    if o.bind_tls && o.cl == Cl::Right && o.identity == 0 && (c.tls_err.is_some() || !c.secure()) && server_ok { return bad("no-tls-with-client", format!("the client cannot establish TLS (chain incomplete?): {:?}", c.tls_err)) }
    if !client_ok || !server_ok {
        if !c.rx.is_empty() && !(o.bind_tls && matches!(o.cl, Cl::Plain(_) | Cl::Partial(_))) { return bad("greeting-leaked", format!("the client got {} although the configured encryption could not be established", esc(&c.rx))) }
        if find(&c.raw, b"OK secret") { return bad("greeting-leaked", "the client got the greeting in plain text".into()) }
        if let Some(s) = &s { if (o.connect_tls && matches!(o.sv, Sv::Tls(_)) || !o.connect_tls) && !s.rx.is_empty() || find(&s.raw, b"NOOP") { return bad("command-leaked", format!("the server got {} although the configured encryption could not be established", esc(&s.rx))) } }
        if !c.closed() { return bad("left-open-to-client", "the handshake failed but the client's connection stays open".into()) }
        if s.as_ref().is_some_and(|s| !s.closed()) { return bad("left-open-to-server", "the handshake failed but the server's connection stays open".into()) }
        if simrt::live_tasks() != idle { return bad("task-left", "the session's task goes on after the handshake failed".into()) }
        return Ok(())
    }
    // The session works.
    let Some(mut s) = s else { return bad("no-server", "the proxy does not connect to the server".into()) };
    if !o.early { c.send(b"a NOOP\r\n"); }
    rest(&mut [&mut c, &mut s]);
    if c.rx != b"* OK secret\r\n" || s.rx != b"a NOOP\r\n" { return bad("session-broken", format!("with valid encryption the client got {} and the server {} (tls: {:?} {:?})", esc(&c.rx), esc(&s.rx), c.tls_err, s.tls_err)) }
    if o.bind_tls && !(framed(&c.raw) && !find(&c.raw, b"secret")) { return bad("plain-to-client", "the greeting is readable on the wire".into()) }
    if o.connect_tls && !(framed(&s.raw) && !find(&s.raw, b"NOOP")) { return bad("plain-to-server", "the command is readable on the wire".into()) }
    let (n, m) = (c.rx.len(), s.rx.len());
    match o.cl { Cl::PlainLater => c.send_raw(b"b CAPABILITY\r\n"), Cl::Tampered => tampered(&mut c, b"b CAPABILITY\r\n"), _ => {} }
    match o.sv { Sv::PlainLater => s.send_raw(b"* 1 EXISTS\r\n"), Sv::Tampered => tampered(&mut s, b"* 1 EXISTS\r\n"), _ => {} }
    rest(&mut [&mut c, &mut s]);
    panics()?;
    if c.rx.len() != n { return bad("forged-to-client", format!("the client got {}, which did not come through the server's TLS", esc(&c.rx[n..]))) }
    if s.rx.len() != m { return bad("forged-to-server", format!("the server got {}, which did not come through the client's TLS", esc(&s.rx[m..]))) }
    if !framed(&c.raw) && o.bind_tls || !framed(&s.raw) && o.connect_tls { return bad("plain-after-failure", "plain text after the TLS connection failed".into()) }
    if matches!(o.cl, Cl::PlainLater | Cl::Tampered) && o.bind_tls || matches!(o.sv, Sv::PlainLater | Sv::Tampered) && o.connect_tls {
        while simrt::advance_time() { rest(&mut [&mut c, &mut s]) }
        if !c.closed() || !s.closed() { return bad("left-open", "the session goes on after its TLS connection failed".into()) }
    }
    Ok(())
}

// ---- P08 ----------------------------------------------------------------------------------------
/// What a client does, step by step.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Step { Dial, DialTls, Hello(usize), Raw(&'static [u8]), Send(&'static [u8]), Flood, Deaf, Fin, Drop, Reset, FailAccept(std::io::ErrorKind) }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Up { Normal, Refuse, Hang, Silent, Garbage, Close, Reset, Malformed, UntrustedTls }
#[derive(Clone, Debug)]
pub struct Crowd { pub bind_tls: bool, pub connect_tls: bool, pub bad: Vec<Vec<Step>>, pub up: Up, pub policy: Policy, pub services: usize, pub broken: bool }
struct Pair { c: Wire, s: Option<Wire> }
fn serve(up: &str, tls: bool) -> Option<Wire> { simrt::accepted(up).map(|e| if tls { Wire::tls_server(e, Cert::GoodChain) } else { Wire::plain(e) }) }
pub fn crowd(o: &Crowd, ch: &mut Ch) -> Out {
    let bad = |k: &str, m: String| -> Out { Err(Viol::new(&["P08"], k, m)) };
    let _g = simrt::begin(ch, Policy::none());
    let mut svcs = vec![];
    for k in 0..o.services {
        let mut s = Svc::new(o.bind_tls, o.connect_tls);
        s.name = format!("s{k}");
        s.bind = format!("127.0.0.1:{}", 1143 + k);
        s.connect_port = 1 + k as u16;
        svcs.push(s);
    }
    // With two services clients misbehave at the first, good clients use the last.
    let (evil, good) = (svcs[0].clone(), svcs[o.services - 1].clone());
    if o.broken { svcs.insert(0, Svc { name: "broken".into(), bind: "127.0.0.1:1199".into(), ..evil.clone() }); simrt::refuse_binds(vec!["127.0.0.1:1199".into()]) } else { simrt::refuse_binds(vec![]) }
    for s in &svcs { simrt::upstream(&s.upstream(), ConnectPolicy::Accept) }
    env::start(&svcs);
    simrt::set_policy(o.policy);
    let mut others: Vec<Pair> = vec![];
    let pump = |others: &mut Vec<Pair>, mine: &mut [&mut Wire]| {
        let mut v: Vec<&mut Wire> = others.iter_mut().flat_map(|p| std::iter::once(&mut p.c).chain(p.s.as_mut())).filter(|w| !w.deaf).collect();
        v.extend(mine.iter_mut().map(|w| &mut **w));
        rest(&mut v);
    };
    // A client that behaves, from connecting to its first answer.
    let fresh = |others: &mut Vec<Pair>, svc: &Svc, when: &str| -> Result<(Wire, Wire), Viol> {
        let end = dial(&svc.bind).map_err(|_| Viol::new(&["P08"], "not-listening", format!("{when}: the service does not listen any more")))?;
        let mut c = if o.bind_tls { Wire::tls_client(end, "imap.test") } else { Wire::plain(end) };
        let mut s = None;
        for _ in 0..8 { match &mut s { Some(s) => pump(others, &mut [&mut c, s]), None => pump(others, &mut [&mut c]) } if s.is_none() { s = serve(&svc.upstream(), o.connect_tls) } }
        let Some(mut s) = s else { return Err(Viol::new(&["P08"], "not-served", format!("{when}: a new client is not connected to the server"))) };
        s.send(b"* OK hello\r\n");
        for _ in 0..3 { pump(others, &mut [&mut c, &mut s]) }
        if c.rx != b"* OK hello\r\n" { return Err(Viol::new(&["P08"], "not-served", format!("{when}: a new client got {} instead of the greeting", esc(&c.rx)))) }
        Ok((c, s))
    };
    let talk = |others: &mut Vec<Pair>, p: &mut (Wire, Wire), when: &str| -> Out {
        let (n, m) = (p.0.rx.len(), p.1.rx.len());
        p.0.send(b"g NOOP\r\n");
        pump(others, &mut [&mut p.0, &mut p.1]);
        if &p.1.rx[m..] != b"g NOOP\r\n" { return Err(Viol::new(&["P08"], "session-disturbed", format!("{when}: the command of another client arrives as {}", esc(&p.1.rx[m..])))) }
        p.1.send(b"g OK done\r\n");
        pump(others, &mut [&mut p.0, &mut p.1]);
        if &p.0.rx[n..] != b"g OK done\r\n" { return Err(Viol::new(&["P08"], "session-disturbed", format!("{when}: another client got {} instead of its answer", esc(&p.0.rx[n..])))) }
        Ok(())
    };
    // Everybody else comes to rest; their server sessions are set up.
    let absorb = |others: &mut Vec<Pair>, first: &mut (Wire, Wire)| for _ in 0..3 {
        pump(others, &mut [&mut first.0, &mut first.1]);
        while let Some(k) = others.iter().position(|p| p.s.is_none()) {
            let Some(e) = simrt::accepted(&evil.upstream()) else { break };
            let tls = o.connect_tls;
            others[k].s = Some(match o.up {
                Up::UntrustedTls if tls => Wire::tls_server(e, Cert::Untrusted),
                Up::Normal | Up::Malformed | Up::UntrustedTls => { let mut w = if tls { Wire::tls_server(e, Cert::GoodChain) } else { Wire::plain(e) }; w.greet = true; w }
                Up::Garbage => { let mut w = Wire::plain(e); w.send_raw(b"\x16\x03\x01\xff\xffgarbage\r\nmore\r\n"); w }
                Up::Close => { let mut w = Wire::plain(e); w.fin(); w }
                Up::Reset => { let mut w = Wire::plain(e); w.reset(); w }
                _ => Wire::plain(e),
            });
        }
        for s in others.iter_mut().filter_map(|p| p.s.as_mut()) { if s.greet && s.secure() { s.greet = false; s.send(if o.up == Up::Malformed { b"* NOTHING\r\n" } else { b"* OK bad\r\n" }); if o.up == Up::Normal { s.send(&b"* 1 EXISTS\r\n".repeat(6)) } } }
    };
    let mut first = fresh(&mut others, &good, "before anything happened")?;
    let all: Vec<(usize, Step)> = o.bad.iter().enumerate().flat_map(|(i, v)| v.iter().map(move |s| (i, *s))).collect();
    let stop = if o.bad.len() > 4 { [all.len() / 2, all.len()][simrt::choose(2)] } else { simrt::choose(all.len() + 1) };
    let policy = match o.up { Up::Refuse => ConnectPolicy::Refuse, Up::Hang => ConnectPolicy::Hang, _ => ConnectPolicy::Accept };
    simrt::upstream(&evil.upstream(), policy);
    let mut cur: Vec<Option<usize>> = vec![None; o.bad.len()];
    for (n, (i, st)) in all.iter().enumerate() {
        if n == stop {
            // In the middle of it others come and go on.
            let when = format!("while a client is at {:?}", all[..n].iter().map(|x| x.1).take(8).collect::<Vec<_>>());
            absorb(&mut others, &mut first);
            talk(&mut others, &mut first, &when)?;
            simrt::upstream(&evil.upstream(), ConnectPolicy::Accept);
            let mut f = fresh(&mut others, &good, &when)?;
            talk(&mut others, &mut f, &when)?;
            simrt::upstream(&evil.upstream(), policy);
            others.push(Pair { c: f.0, s: Some(f.1) });
        }
        simrt::log(|| format!("client {i}: {st:?}"));
        let w = cur[*i].map(|k| &mut others[k].c);
        match (*st, w) {
            (Step::Dial, _) => { let e = dial(&evil.bind)?; cur[*i] = Some(others.len()); others.push(Pair { c: Wire::plain(e), s: None }) }
            (Step::DialTls, _) => { let e = dial(&evil.bind)?; cur[*i] = Some(others.len()); others.push(Pair { c: Wire::tls_client(e, "imap.test"), s: None }) }
            (Step::FailAccept(k), _) => simrt::fail_accept(&evil.bind, k),
            (Step::Hello(n), Some(w)) => { let (a, b) = simrt::pair(1 << 20); let _w = Wire::tls_client(a, "imap.test"); let h = b.take_all(); w.send_raw(&h[..n.min(h.len() - 1)]) }
            (Step::Raw(b), Some(w)) => w.send_raw(b),
            (Step::Send(b), Some(w)) => w.send(b),
            (Step::Flood, Some(w)) => w.send(&b"f CAPABILITY\r\n".repeat(if o.bad.len() > 1 { 20 } else { 12 })),
            (Step::Deaf, Some(w)) => { w.deaf = true; if let Some(e) = &w.end { e.set_cap(10) } }
            (Step::Fin, Some(w)) => w.fin(),
            (Step::Drop, Some(w)) => w.drop_end(),
            (Step::Reset, Some(w)) => w.reset(),
            _ => {}
        }
        // Usually everything happens before the next step; sometimes nothing does.
        if simrt::choose_dev(2) == 1 { continue }
        absorb(&mut others, &mut first);
    }
    simrt::upstream(&evil.upstream(), ConnectPolicy::Accept);
    absorb(&mut others, &mut first);
    talk(&mut others, &mut first, "at the end")?;
    let mut f = fresh(&mut others, &good, "at the end")?;
    talk(&mut others, &mut f, "at the end")?;
    if o.services > 1 { absorb(&mut others, &mut first); while simrt::accepted(&evil.upstream()).is_some() {} let mut f = fresh(&mut others, &evil, "at the end, on the same service")?; talk(&mut others, &mut f, "at the end, on the same service")?; }
    for _ in 0..4 { if !simrt::advance_time() { break } pump(&mut others, &mut [&mut first.0, &mut first.1]) }
    talk(&mut others, &mut first, "later")?;
    if let Some(p) = simrt::panics().first() { return bad("panic", format!("panic: {p}")) }
    Ok(())
}
