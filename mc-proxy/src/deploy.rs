//! What the running program binds and connects to (P07, P10).
use mc_engine::{Ch, Out, Viol};
use simrt::{ConnectPolicy, Policy};

use crate::env;
use crate::wire::{Cert, Wire};

struct Svc { bind_tls: bool, connect_tls: bool, bind: String, connect: String }
/// Many services on ports of their own.
pub fn many(p: &'static str, n: usize, ch: &mut Ch) -> Out {
    let form = ch.choose(3);
    let (mut text, mut svcs) = (String::new(), vec![]);
    for i in 0..n {
        let (bind, connect) = (format!("127.0.0.1:{}", 2000 + i), match form { 0 => format!("imap.test:{}", 5000 + i), 1 => "imap.test:143".into(), _ => format!("host{i}.test:{}", 60000 - 7 * i) });
        let w = |a: &str| { let (h, p) = a.rsplit_once(':').unwrap(); format!("encryption = \"Insecure\"\nhost = \"{h}\"\nport = {p}\n") };
        text.push_str(&format!("[[services]]\nname = \"service {i}\"\n[services.bind]\n{}[services.connect]\n{}", w(&bind), w(&connect)));
        svcs.push(Svc { bind_tls: false, connect_tls: false, bind, connect });
    }
    check(p, ch, text, svcs)
}
/// `n` services; the fewer there are, the more each varies.
pub fn run(p: &'static str, n: usize, ch: &mut Ch) -> Out {
    const BIND: [&str; 5] = ["127.0.0.1", "localhost", "0.0.0.0", "[::1]", "host.test"];
    const CONNECT: [&str; 4] = ["imap.test", "localhost", "127.0.0.1", "other.test"];
    const PORTS: [Option<u16>; 6] = [None, Some(1143), Some(143), Some(993), Some(65535), Some(1)];
    let (mut text, mut svcs) = (String::new(), vec![]);
    for i in 0..n {
        let (bind_tls, connect_tls) = (ch.choose(2) == 1, ch.choose(2) == 1);
        let (bh, chost) = if n == 1 { (BIND[ch.choose(5)], CONNECT[ch.choose(4)]) } else { (BIND[i], CONNECT[i % 3]) };
        let (bp, cp) = (PORTS[ch.choose(if n == 1 { 6 } else { 2 })], PORTS[ch.choose(if n == 1 { 6 } else if n == 2 { 4 } else { 2 })]);
        let port = |p: Option<u16>| p.map_or(String::new(), |p| format!("port = {p}\n"));
        let enc = |t: bool| if t { "Tls" } else { "Insecure" };
        text.push_str(&format!("[[services]]\nname = \"service {i}\"\n[services.bind]\nencryption = \"{}\"\nhost = \"{bh}\"\n{}", enc(bind_tls), port(bp)));
        if bind_tls { text.push_str(&format!("identity = {{ type = \"CertificateChainAndLeafKey\", certificate_chain_path = \"{}\", leaf_key_path = \"{}\" }}\n", env::file("chain.pem", include_str!("../../pki/goodchain.pem")), env::file("key.pem", include_str!("../../pki/good.key")))) }
        text.push_str(&format!("[services.connect]\n{}encryption = \"{}\"\nhost = \"{chost}\"\n", port(cp), enc(connect_tls)));
        let default = |t: bool| if t { 993 } else { 143 };
        svcs.push(Svc { bind_tls, connect_tls, bind: format!("{bh}:{}", bp.unwrap_or(default(bind_tls))), connect: format!("{chost}:{}", cp.unwrap_or(default(connect_tls))) });
    }
    check(p, ch, text, svcs)
}
fn check(p: &'static str, ch: &mut Ch, text: String, svcs: Vec<Svc>) -> Out {
    // The proxy must not connect to itself.
    if svcs.iter().any(|s| svcs.iter().any(|t| t.bind == s.connect)) { return Ok(()) }
    let _g = simrt::begin(ch, Policy::none());
    let bad = |k: &str, m: String| Err(Viol::new(&[p], k, format!("{m}; the configuration was\n{text}")));
    for s in &svcs { simrt::upstream(&s.connect, ConnectPolicy::Accept) }
    env::start_text(&text);
    if let Some(p) = simrt::panics().first() { return bad("refused", format!("the program does not start: {p}")) }
    let mut want: Vec<String> = svcs.iter().map(|s| s.bind.clone()).collect();
    let mut got = simrt::bound_addrs();
    want.sort();
    got.sort();
    if got != want { return bad("bound", format!("the services listen on {got:?} instead of {want:?}")) }
    let mut before = 0;
    for s in &svcs {
        let Some(end) = simrt::dial(&s.bind, 1 << 20) else { return bad("bound", format!("nothing listens on {}", s.bind)) };
        let mut c = if s.bind_tls { Wire::tls_client(end, "imap.test") } else { Wire::plain(end) };
        let mut u: Option<Wire> = None;
        for _ in 0..10 {
            env::settle();
            c.pump(usize::MAX);
            if u.is_none() { u = simrt::accepted(&s.connect).map(|e| { let mut w = if s.connect_tls { Wire::tls_server(e, Cert::GoodChain) } else { Wire::plain(e) }; if !s.connect_tls || s.connect.starts_with("other") { w.send(b"* OK hi\r\n") } w }) }
            if let Some(u) = &mut u { u.pump(usize::MAX); if s.connect_tls && u.rx.is_empty() && u.secure() && !u.greet { u.greet = true; u.send(b"* OK hi\r\n") } }
        }
        let all = simrt::all_attempts();
        let total: usize = all.iter().map(|a| a.1).sum();
        if u.is_none() || total != before + 1 { return bad("connected", format!("a client of {} made the proxy connect to {all:?} instead of {}", s.bind, s.connect)) }
        before = total;
        // No certificate of the test CA names other.test.
        let trusted = !(s.connect_tls && s.connect.starts_with("other"));
        if trusted && c.rx != b"* OK hi\r\n" { return bad("encryption", format!("the client of {} got {:?} instead of the greeting of {}", s.bind, String::from_utf8_lossy(&c.rx), s.connect)) }
        if !trusted && !c.rx.is_empty() { return bad("encryption", format!("the client of {} got {:?} of a server that is not {}", s.bind, String::from_utf8_lossy(&c.rx), s.connect)) }
        simrt::step(mc_engine::fp(&(&s.bind, &s.connect, s.bind_tls, s.connect_tls)));
    }
    Ok(())
}
