//! Exploration of the real proxy program: its main task, service loop and sessions run inside the
//! simulated runtime; scripted clients and servers talk to it over simulated connections.
mod caps;
mod catalog;
mod deploy;
mod env;
mod lists;
mod multi;
mod script;
mod sess;
mod soup;
mod wide;
mod wire;

use lists::Who;
use mc_engine::Scenario;
use script::{C, V};
use sess::{Act, Rest, Spec, When};
use simrt::Policy;
use wire::{Cert, CERTS};

pub const PROPS: [&str; 10] = ["P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10"];
const SEL: Policy = Policy { select: true, ..Policy::none() };
const ALL: Policy = Policy::all();

/// Conversations that both sides of the proxy have to understand.
fn conversations() -> Vec<(&'static str, C, V, Vec<&'static str>)> {
    let data = "* 2 EXISTS\r\n";
    let fetch = "* 1 FETCH (RFC822 {5}\r\na\r\nbc)\r\n";
    vec![
        ("pipelined commands", C::new().cmd("a NOOP\r\n").cmd("b CAPABILITY\r\n").cmd("c SELECT INBOX\r\n").cmd("d LOGOUT\r\n"),
            V::ok().after(1).send("a OK x\r\n").after(2).send("* CAPABILITY IMAP4REV1 IDLE\r\n").send("b OK y\r\n").after(3).send("* FLAGS (\\Seen)\r\n").send("c NO [ALERT] z\r\n").after(4).send("* BYE bye\r\n").send("d OK w\r\n"), vec![data]),
        ("one after the other", C::greeted().cmd("a LOGIN u p\r\n").tagged("a ").cmd("b SELECT \"x y\"\r\n").tagged("b ").cmd("c NOOP\r\n"),
            V::ok().after(1).send("a OK in\r\n").after(2).send("* 3 EXISTS\r\n* 0 RECENT\r\n").send("b OK [READ-WRITE] y\r\n").after(3).send(fetch).send("c BAD z\r\n"), vec!["* OK still here\r\n"]),
        ("literals", C::new().cmd("a LOGIN {3}\r\nabc {2}\r\nde\r\n").cmd("b NOOP\r\n"),
            V::ok().go().go().after(1).send("a OK x\r\n").after(2).send("b OK y\r\n"), vec![data]),
        ("non-synchronizing literals", C::new().cmd("a LOGIN {3+}\r\nabc {2+}\r\nde\r\n").cmd("b CREATE {4+}\r\nINBX\r\n").cmd("c NOOP\r\n"),
            V::ok().after(1).send("a OK x\r\n").after(2).send("b OK y\r\n").after(3).send("c OK z\r\n"), vec![fetch]),
        ("mixed literals", C::new().cmd("a NOOP\r\n").cmd("b RENAME {1+}\r\nx {0}\r\n\r\n").cmd("c APPEND INBOX (\\Seen) {6}\r\nA B\r\nC\r\n").cmd("d NOOP\r\n"),
            V::ok().after(1).send("a OK x\r\n").go().after(2).send("b OK y\r\n").go().after(3).send("c OK z\r\n").after(4).send("d OK w\r\n"), vec![data]),
        ("authenticate", C::greeted().cmd("a AUTHENTICATE PLAIN\r\n").answer("dGVzdA==\r\n").tagged("a ").cmd("b NOOP\r\n"),
            V::ok().after(1).send("+ \r\n").after(2).send("a OK in\r\n").after(3).send("b OK y\r\n"), vec![data]),
        ("authenticate with initial response", C::greeted().cmd("a AUTHENTICATE PLAIN dGVzdA==\r\n").tagged("a ").cmd("b LOGIN {1}\r\nx y\r\n"),
            V::ok().after(1).send("a OK [CAPABILITY IMAP4REV1] in\r\n").go().after(2).send("b OK y\r\n"), vec![data]),
        ("authenticate in steps", C::greeted().cmd("a AUTHENTICATE LOGIN\r\n").answer("dQ==\r\n").answer("cA==\r\n").tagged("a ").cmd("b NOOP\r\n"),
            V::ok().after(1).send("+ VXNlcg==\r\n").after(2).send("+ Pass?\r\n").after(3).send("a NO out\r\n").after(4).send("b OK y\r\n"), vec![data]),
        ("authenticate cancelled", C::greeted().cmd("a AUTHENTICATE SCRAM-SHA-1 =\r\n").answer("*\r\n").tagged("a ").cmd("b AUTHENTICATE PLAIN\r\n").answer("AA==\r\n"),
            V::ok().after(1).send("+ YQ==\r\n").after(2).send("a BAD cancelled\r\n").after(3).send("+ \r\n").after(4).send("b OK y\r\n"), vec![data]),
        ("authenticate refused at once", C::greeted().cmd("a AUTHENTICATE X\r\n").tagged("a ").cmd("b NOOP\r\n"),
            V::ok().after(1).send("a NO no\r\n").after(2).send("b OK y\r\n"), vec![data]),
        ("idle", C::greeted().cmd("a IDLE\r\n").answer("DONE\r\n").tagged("a ").cmd("b NOOP\r\n"),
            V::ok().after(1).send("+ idling\r\n").send("* 4 EXISTS\r\n").after(2).send("a OK done\r\n").after(3).send("b OK y\r\n"), vec![data]),
        ("idle behind other commands", C::new().cmd("a NOOP\r\n").cmd("b LOGIN {1}\r\nx y\r\n").cmd("c IDLE\r\n").at(When::Plus(2)).act(Act::Send(b"DONE\r\n".to_vec())).cmd("d NOOP\r\n"),
            V::ok().after(1).send("a OK x\r\n").go().after(2).send("b OK y\r\n").after(3).send("+ aWRsZQ==\r\n").after(4).send("c OK done\r\n").after(5).send("d OK y\r\n"), vec![data]),
        ("idle refused", C::greeted().cmd("a IDLE\r\n").tagged("a ").cmd("b IDLE\r\n").tagged("b ").cmd("c NOOP\r\n"),
            V::ok().after(1).send("a NO no\r\n").after(2).send("b BAD what\r\n").after(3).send("c OK y\r\n"), vec![data]),
        ("idle twice", C::greeted().cmd("a IDLE\r\n").answer("DONE\r\n").cmd("b IDLE\r\n").answer("DONE\r\n").cmd("c NOOP\r\n"),
            V::new("* PREAUTH hi\r\n").after(1).send("+ one\r\n").after(2).send("a OK done\r\n").after(3).send("+ two\r\n").after(4).send("b OK done\r\n").after(5).send("c OK z\r\n"), vec![data]),
    ]
}
/// The proxy refuses the announced literal itself.
fn too_large(p: &'static str) -> Spec {
    Spec {
        client: C::new().cmd("a NOOP\r\n").act(Act::Noise(b"b LOGIN {30000000}\r\n".to_vec())).tagged("b BAD").cmd("c LOGIN {1}\r\nx y\r\n").v,
        server: V::ok().after(1).send("a OK x\r\n").go().after(2).send("c OK y\r\n").v, own: vec!["b BAD "], ..Spec::new(p)
    }
}
struct List(Vec<Scenario>);
impl List {
    fn gen(&mut self, name: impl Into<String>, base: usize, f: impl Fn(&mut mc_engine::Ch) -> Option<Spec> + Send + Sync + 'static) {
        self.0.push(Scenario::new(name, move |ch| match f(ch) { Some(o) => sess::run(&Spec { base: if base == 0 { o.base } else { base }, ..o }, ch), None => Ok(()) }))
    }
    fn add(&mut self, name: impl Into<String>, dev: u32, o: Spec) { self.0.push(Scenario::new(name, move |ch| sess::run(&o, ch)).dev(dev)) }
}
fn big(n: usize) -> String { (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect() }
fn turns(v: &mut Vec<Scenario>) {
    let all: [&'static [&'static [u8]]; 7] = [
        &[b"a AUTHENTICATE PLAIN\r\n", b"dGVzdA==\r\n"], &[b"a AUTHENTICATE PLAIN\r\n", b"dGVzdA==\r\n", b"\r\n"], &[b"a AUTHENTICATE PLAIN =\r\n", b"AA==\r\n", b"*\r\n", b"AQ==\r\n"], &[b"z NOOP\r\n", b"a AUTHENTICATE X-ANY\r\n", b"*\r\n"],
        &[b"a IDLE\r\n", b"DONE\r\n"], &[b"a IDLE\r\n", b"DONE\r\n", b"b NOOP\r\n", b"b IDLE\r\n", b"DONE\r\n"], &[b"a IDLE\r\n", b"DONE\r\n", b"b AUTHENTICATE PLAIN\r\n", b"AA==\r\n"],
    ];
    for (k, lines) in all.into_iter().enumerate() { for plus in 2..5 { for tls in [false, true] {
        v.push(Scenario::new(format!("turns {k}, {plus} of the server, tls {tls}"), move |ch| soup::turns(ch, lines, plus, tls)));
    } } }
}
fn scenarios(p: &'static str, thorough: bool) -> Vec<Scenario> {
    let mut v = List(vec![]);
    let t = thorough as u32;
    wide(&mut v, p, thorough);
    match p {
        "P01" | "P02" => {
            for (n, c, s, u) in conversations() {
                let mk = || Spec { client: c.v.clone(), server: s.v.clone(), unsolicited: u.iter().map(|x| x.as_bytes().to_vec()).collect(), ..Spec::new(p) };
                for base in 0..6 { v.add(format!("{n}, order {base}"), 2 + t, Spec { base, policy: SEL, ..mk() }); }
                v.add(format!("{n}, partial reads and writes"), 1 + t, Spec { policy: ALL, ..mk() });
                v.add(format!("{n}, slow peers"), 1 + t, Spec { cap: 7, slow: 5, base: 2, policy: SEL, ..mk() });
                for (b, c) in [(true, false), (false, true), (true, true)] { v.add(format!("{n}, tls {b} {c}"), 1, Spec { bind_tls: b, connect_tls: c, base: 3, policy: SEL, ..mk() }); }
            }
            let (all, plus, greets) = (mc_engine::kinds::responses(), mc_engine::kinds::continuations(), mc_engine::kinds::greetings());
            for base in [0, 3, 4] {
                v.gen(format!("any two commands, order {base}"), base, move |ch| Some(catalog::commands(p, 2, ch)));
                let a = all.clone();
                v.gen(format!("any two responses, order {base}"), base, move |ch| Some(catalog::any_responses(p, 2, &a, ch)));
                let (q, g) = (plus.clone(), greets.clone());
                v.gen(format!("any answer to any command, order {base}"), base, move |ch| Some(catalog::answers(p, &g, &q, ch)));
                let a = all.clone();
                v.gen(format!("any response while any command is handled, order {base}"), base, move |ch| catalog::inside(p, &a, ch));
            }
            if p == "P01" { turns(&mut v.0) }
            if thorough { v.gen("any three commands", 0, move |ch| Some(catalog::commands(p, 3, ch))) }
            v.add("literal the proxy refuses", 2 + t, Spec { policy: SEL, ..too_large(p) });
            let l = big(40_000);
            for tls in [false, true] {
                let o = Spec { bind_tls: tls, connect_tls: tls, client: C::new().cmd(&format!("a APPEND x {{40000}}\r\n{l}\r\n")).cmd(&format!("b LOGIN {{40000+}}\r\n{l} x\r\n")).v,
                    server: V::ok().go().after(1).send("a OK x\r\n").after(2).send(&format!("* 1 FETCH (RFC822 {{40000}}\r\n{l})\r\n")).send("b OK y\r\n").v, cap: 5000, slow: 3000, policy: SEL, ..Spec::new(p) };
                v.add(format!("large messages, tls {tls}"), 1, o.clone());
                v.add(format!("large messages, other order, tls {tls}"), 1, Spec { base: 3, ..o });
            }
        }
        "P03" => {
            for (at, name) in lists::PLACES.iter().enumerate() {
                v.0.push(Scenario::new(format!("{name}, all lists of up to {} capabilities", 2 + t), move |ch| { let l = lists::caplist(ch, 2 + t as usize); sess::run(&lists::place(p, at, &l), ch) }));
                for base in [0, 3, 4] { v.add(format!("{name}, order {base}"), 2 + t, Spec { base, policy: SEL, ..lists::place(p, at, "STARTTLS IDLE X-UNKNOWN AUTH=PLAIN") }); }
                v.add(format!("{name}, partial"), 1 + t, Spec { policy: ALL, ..lists::place(p, at, "STARTTLS") });
                v.add(format!("{name}, tls"), 1, Spec { bind_tls: true, connect_tls: true, policy: SEL, ..lists::place(p, at, "IMAP4REV1 LOGINDISABLED AUTH=SCRAM-SHA-256-PLUS ID") });
            }
        }
        "P04" => {
            for at in 0..lists::REFUSED {
                for (i, text) in lists::REFUSALS.iter().enumerate() {
                    for base in 0..6 { v.add(format!("place {at}, refusal {i}, order {base}"), if i < 2 { 2 + t } else { 1 + t }, Spec { base, policy: SEL, ..lists::refused(p, at, text) }); }
                }
                v.add(format!("place {at}, partial"), 1 + t, Spec { policy: ALL, ..lists::refused(p, at, "no") });
                v.add(format!("place {at}, slow"), 1 + t, Spec { cap: 7, slow: 5, base: 2, policy: SEL, ..lists::refused(p, at, "no") });
                v.add(format!("place {at}, tls"), 1, Spec { bind_tls: true, connect_tls: true, policy: SEL, ..lists::refused(p, at, "[ALERT] x") });
            }
        }
        "P09" => {
            let closing = |both: bool| lists::simple(p).into_iter().map(|x| (x, true)).chain(lists::releasing(p).into_iter().map(|x| (x, both))).collect::<Vec<_>>();
            for ((n, o), both) in closing(false) {
                let mut cuts: Vec<(String, Spec)> = vec![];
                for (who, len) in [(Who::Client, o.client.len()), (Who::Server, o.server.len())] {
                    if who == Who::Client && !both { continue }
                    for k in 0..=len {
                        cuts.push((format!("{n}, {who:?} ends after {k}"), lists::cut(&o, who, k, b"", Act::Fin)));
                        for how in [Act::Drop, Act::Reset] { cuts.push((format!("{n}, {who:?} {how:?} after {k}"), lists::cut(&o, who, k, b"", how))); }
                        let tails: [&[u8]; 2] = if who == Who::Client { [b"x NOO", b"x LOGIN {3+}\r\nab"] } else { [b"* 3 EXI", b"* 1 FETCH (RFC822 {9}\r\nab"] };
                        for (i, t) in tails.iter().enumerate() { cuts.push((format!("{n}, {who:?} ends after {k} and an incomplete message {i}"), lists::cut(&o, who, k, t, Act::Fin))); }
                    }
                }
                for (n, o) in cuts {
                    for base in 0..6 { v.add(format!("{n}, order {base}"), 1 + t, Spec { base, policy: SEL, ..o.clone() }); }
                    v.add(format!("{n}, partial"), 1 + t, Spec { policy: ALL, ..o.clone() });
                    v.add(format!("{n}, slow"), 1 + t, Spec { cap: 7, slow: 5, base: 3, policy: SEL, ..o.clone() });
                    for (b, c) in [(true, false), (false, true), (true, true)] { v.add(format!("{n}, tls {b} {c}"), t, Spec { bind_tls: b, connect_tls: c, base: 4, policy: SEL, ..o.clone() }); }
                }
            }
            // A side that does not read gets nothing, but must not hold up the session's end or the other side.
            for base in 0..6 {
                    let many = "* 1 EXISTS\r\n".repeat(6);
                    let noops = (0..6).fold(C::greeted(), |c, i| c.cmd(&format!("a{i} NOOP\r\n")));
                    let ended = |to_server, to_client| Rest::Ended { to_server, to_client };
                    let m = |c: &C, s: V, deaf, rest| Spec { client: c.v.clone(), server: s.v, cap: 20, slow: 50, deaf: Some(deaf), base, policy: SEL, rest, ..Spec::new(p) };
                    let d = 2 + t;
                    v.add(format!("client does not read, server ends, order {base}"), d, m(&C::new(), V::ok().send(&many).act(Act::Fin), Who::Client, ended(false, false)));
                    v.add(format!("client does not read, client ends, order {base}"), d, m(&C::new().cmd("a NOOP\r\n").cmd("b NOOP\r\n").act(Act::Fin), V::ok().send(&many), Who::Client, ended(true, false)));
                    v.add(format!("server does not read, client ends, order {base}"), d, m(&noops.clone().act(Act::Fin), V::ok(), Who::Server, ended(false, false)));
                    v.add(format!("server does not read, server ends, order {base}"), d, m(&noops, V::ok().send(&many).act(Act::Fin), Who::Server, ended(false, true)));
            }
        }
        "P05" => {
            use mc_engine::kinds::*;
            turns(&mut v.0);
            for tls in [false, true].into_iter().take(1 + t as usize) { v.0.push(Scenario::new(format!("a command that exceeds every limit, tls {tls}"), move |ch| soup::too_long(ch, tls))); }
            let cmds: Vec<String> = COMMANDS.iter().map(|c| format!("b {}\r\n", c.strip_suffix(" refused").unwrap_or(c))).collect();
            let answers: Vec<String> = ["dGVzdA==\r\n", "*\r\n", "DONE\r\n"].map(String::from).to_vec();
            v.0.push(Scenario::new("a command with a mistake", move |ch| soup::typo(ch, &cmds, false, 0, false)));
            v.0.push(Scenario::new("a response with a mistake", move |ch| soup::typo(ch, &responses().into_iter().step_by(if t == 0 { 3 } else { 1 }).collect::<Vec<_>>(), true, 13, false)));
            v.0.push(Scenario::new("a greeting with a mistake", move |ch| soup::typo(ch, &greetings().into_iter().step_by(if t == 0 { 3 } else { 1 }).collect::<Vec<_>>(), true, 15, false)));
            for k in [2, 3, 4, 5, 6, 7, 8] {
                let n = soup::PROLOGUES[k].0;
                let a = answers.clone();
                v.0.push(Scenario::new(format!("an answer with a mistake, {n}"), move |ch| soup::typo(ch, &a, false, k, false)));
                let r: Vec<String> = ["a OK x\r\n", "b NO [ALERT] x\r\n", "+ go\r\n", "* 1 EXISTS\r\n"].map(String::from).to_vec();
                v.0.push(Scenario::new(format!("an answer of the server with a mistake, {n}"), move |ch| soup::typo(ch, &r, true, k, false)));
            }
            for (k, (n, _)) in soup::PROLOGUES.iter().enumerate() {
                for together in [false, true] {
                    v.0.push(Scenario::new(format!("{n}, any {} messages, {}", 2 + t, if together { "at once" } else { "one by one" }), move |ch| soup::run(ch, k, 2 + t as usize, together, false)));
                }
                v.0.push(Scenario::new(format!("{n}, any message over tls"), move |ch| soup::run(ch, k, 1 + t as usize, false, true)));
            }
            for base in 0..6 { v.add(format!("literal the proxy refuses, order {base}"), 2 + t, Spec { base, policy: SEL, ..too_large(p) }); }
            for (n, c, s, _) in conversations() {
                for base in [0, 3, 4] {
                    let o = Spec { client: c.v.clone(), server: s.v.clone(), base, ..Spec::new(p) };
                    v.0.push(Scenario::new(format!("{n}, a malformed message anywhere, order {base}"), move |ch| match lists::noisy(&o, ch) { Some(o) => sess::run(&o, ch), None => Ok(()) }).dev(1 + t));
                }
            }
        }
        "P06" => {
            use multi::*;
            let base = Enc { bind_tls: true, identity: 0, connect_tls: true, host: "imap.test", cl: Cl::Right, sv: Sv::Tls(Cert::GoodChain), policy: SEL, early: false };
            let mut all: Vec<(String, Enc)> = vec![];
            for bind_tls in [false, true] { for early in [false, true] {
                for connect_tls in [false, true] { for host in ["imap.test", "IMAP.TEST", "localhost", "127.0.0.1", "evil.test", "other.test", "10.0.0.1", "bad host", "imap.test.evil.test", "test", "xn--a..b", "[::1]", "*.test", "-"] { for cert in CERTS {
                    all.push((format!("tls {bind_tls} {connect_tls}, early {early}, host {host}, server {cert:?}"), Enc { bind_tls, connect_tls, host, sv: Sv::Tls(cert), early, ..base.clone() }));
                } } }
                for sv in [Sv::Plain(b"* OK secret\r\n"), Sv::Plain(b"* OK secret\r\na OK done\r\n"), Sv::Plain(b""), Sv::Plain(b"\x15\x03\x03\x00\x02\x02\x28"), Sv::Plain(b"\x16\x03\x03\xff\xff"), Sv::CloseAtOnce, Sv::CloseLater, Sv::PlainLater, Sv::Tampered] {
                    // A silent server is waited for.
                    if sv == Sv::Plain(b"") || sv == Sv::Plain(b"\x16\x03\x03\xff\xff") { continue }
                    all.push((format!("tls {bind_tls} true, early {early}, server {sv:?}"), Enc { bind_tls, sv, early, ..base.clone() }));
                }
            } }
            for connect_tls in [false, true] {
                for identity in 0..IDENTITIES.len() {
                    for cl in [Cl::Right, Cl::Plain(b"a NOOP\r\n")] { all.push((format!("identity {}, client {cl:?}, server tls {connect_tls}", IDENTITIES[identity]), Enc { identity, cl, connect_tls, ..base.clone() })); }
                }
                let plain: [&'static [u8]; 8] = [b"a NOOP\r\n", b"a NOOP\r\nb NOOP\r\n", b"a LOGIN {3+}\r\nabc d\r\n", b"\r\n", b"\x16\x03\x01\x00\x08a NOOP\r\n", b"\x17\x03\x03\x00\x08a NOOP\r\n", b"a STARTTLS\r\n", b"\x80\x2e\x01\x00\x02 NOOP\r\n"];
                for t in plain { all.push((format!("client sends plain {:?}, server tls {connect_tls}", String::from_utf8_lossy(t)), Enc { cl: Cl::Plain(t), connect_tls, ..base.clone() })); }
                for cl in [Cl::PlainFirst, Cl::Partial(0), Cl::Partial(1), Cl::Partial(5), Cl::Partial(40), Cl::Partial(100_000), Cl::PlainLater, Cl::Tampered] { all.push((format!("client {cl:?}, server tls {connect_tls}"), Enc { cl, connect_tls, ..base.clone() })); }
            }
            // Hosts next to the names in the certificate.
            let mut near: Vec<(&'static str, Cert)> = vec![];
            for (name, cert) in [("imap.test", Cert::GoodChain), ("localhost", Cert::GoodChain), ("127.0.0.1", Cert::GoodChain), ("evil.test", Cert::WrongName)] {
                let mut v: Vec<String> = ["www.", "mail.", "imap.", "a.b.", "*.", "xn--", ".", "imap://", "x@", "0", "1", "-", "_"].iter().map(|p| format!("{p}{name}")).collect();
                v.extend([".com", ".test", ".localdomain", "..", ":993", "/", "%", ".1", "-", "_", " "].iter().map(|p| format!("{name}{p}")));
                for i in 0..name.len() {
                    v.push(format!("{}{}", &name[..i], &name[i + 1..]));
                    v.push(format!("{}{}", &name[i..], &name[..i]));
                    v.push(name[i..].into());
                    v.push(name[..i].into());
                    for b in ["0", "1", "9", "a", "m", "t", "z", ".", "-", "_", "*"] { v.push(format!("{}{b}{}", &name[..i], &name[i..])); v.push(format!("{}{b}{}", &name[..i], &name[i + 1..])) }
                }
                v.sort();
                v.dedup();
                near.extend(v.into_iter().filter(|h| !h.is_empty() && !["imap.test", "localhost", "127.0.0.1", "evil.test"].contains(&h.trim_end_matches('.'))).map(|h| (&*h.leak(), cert)));
            }
            for early in [false, true] {
                let (near, base) = (near.clone(), base.clone());
                v.0.push(Scenario::new(format!("almost the certificate's host, early {early}"), move |ch| { let (host, cert) = near[ch.choose_big(near.len())]; encryption(&Enc { host, sv: Sv::Tls(cert), early, ..base.clone() }, ch) }).dev(t));
            }
            for (n, o) in all {
                let q = o.clone();
                v.0.push(Scenario::new(n.clone(), move |ch| encryption(&q, ch)).dev(2 + t));
                let q = Enc { policy: ALL, ..o };
                v.0.push(Scenario::new(format!("{n}, partial"), move |ch| encryption(&q, ch)).dev(1 + t));
            }
        }
        "P07" | "P10" => {
            v.0.push(Scenario::new("one running service", move |ch| deploy::run(p, 1, ch)));
            for n in [9, 17, 33, 64, 100, 257, 300] { v.0.push(Scenario::new(format!("{n} running services"), move |ch| deploy::many(p, n, ch))); }
            v.0.push(Scenario::new("two running services", move |ch| deploy::run(p, 2, ch)));
            v.0.push(Scenario::new(format!("{} running services", 3 + t), move |ch| deploy::run(p, 3 + t as usize, ch)));
        }
        "P08" => {
            use multi::*;
            use std::io::ErrorKind::*;
            use Step::*;
            let base = Crowd { bind_tls: false, connect_tls: false, bad: vec![], up: Up::Normal, policy: SEL, services: 1, broken: false };
            let plain: Vec<Vec<Step>> = vec![
                vec![Dial], vec![Dial, Fin], vec![Dial, Drop], vec![Dial, Reset], vec![Dial, Send(b"a NOO"), Fin], vec![Dial, Send(b"\xff\r\n\r\nx\n"), Send(b"a NOOP\r\n"), Reset], vec![Dial, Deaf, Flood], vec![Dial, Flood, Drop],
                vec![Dial, Send(b"a AUTHENTICATE PLAIN\r\n"), Send(b"!!\r\n"), Drop], vec![Dial, Send(b"a IDLE\r\n"), Send(b"x\r\n")], vec![Dial, Send(b"a LOGIN {3}\r\n"), Fin], vec![FailAccept(ConnectionAborted)], vec![FailAccept(Other), FailAccept(ConnectionReset), Dial],
            ];
            let tls: Vec<Vec<Step>> = vec![
                vec![Dial], vec![Dial, Hello(10)], vec![Dial, Hello(5)], vec![Dial, Hello(100_000)], vec![Dial, Hello(10), Fin], vec![Dial, Hello(10), Drop], vec![Dial, Hello(10), Reset], vec![Dial, Raw(b"a NOOP\r\n")], vec![Dial, Raw(b"\x16\x03\x01\xff\xff")], vec![Dial, Fin], vec![Dial, Drop],
                vec![Dial, Reset], vec![DialTls], vec![DialTls, Fin], vec![DialTls, Drop], vec![DialTls, Reset], vec![DialTls, Raw(b"garbage garbage")], vec![DialTls, Send(b"a NOO"), Drop], vec![DialTls, Send(b"\xff\r\n"), Send(b"a NOOP\r\n"), Reset], vec![DialTls, Deaf, Flood], vec![FailAccept(ConnectionAborted), Dial],
            ];
            let mut all: Vec<(String, Crowd)> = vec![];
            for (bind_tls, list) in [(false, &plain), (true, &tls)] {
                for bad in list { for connect_tls in [false, true] { for services in [1, 2] {
                    all.push((format!("a client does {bad:?}, tls {bind_tls} {connect_tls}, {services} services"), Crowd { bind_tls, connect_tls, bad: vec![bad.clone()], services, ..base.clone() }));
                } } }
                for (i, a) in list.iter().enumerate() { for b in &list[i..] { all.push((format!("clients do {a:?} and {b:?}, tls {bind_tls}"), Crowd { bind_tls, bad: vec![a.clone(), b.clone()], ..base.clone() })); } }
                for up in [Up::Refuse, Up::Hang, Up::Silent, Up::Garbage, Up::Close, Up::Reset, Up::Malformed, Up::UntrustedTls] { for connect_tls in [false, true] { for services in [1, 2] {
                    let d = if bind_tls { DialTls } else { Dial };
                    for bad in [vec![d], vec![d, Send(b"a NOOP\r\n")], vec![d, Fin], vec![d, Drop]] {
                        all.push((format!("server {up:?}, a client does {bad:?}, tls {bind_tls} {connect_tls}, {services} services"), Crowd { bind_tls, connect_tls, bad: vec![bad], up, services, ..base.clone() }));
                    }
                } } }
                all.push((format!("a service cannot bind, tls {bind_tls}"), Crowd { bind_tls, broken: true, bad: vec![vec![Dial]], ..base.clone() }));
            }
            // Many of them.
            for (bind_tls, list) in [(false, plain.clone()), (true, tls.clone())] {
                let (base, sizes) = (base.clone(), if t > 0 { vec![9, 17, 33, 66, 130, 260, 520] } else { vec![9, 66, 260] });
                v.0.push(Scenario::new(format!("many clients do the same, tls {bind_tls}"), move |ch| {
                    let i = ch.choose(list.len());
                    let n = sizes[ch.choose(sizes.len())];
                    crowd(&Crowd { bind_tls, connect_tls: i % 2 == 1, bad: vec![list[i].clone(); n], policy: Policy::none(), ..base.clone() }, ch)
                }));
            }
            for (n, o) in all {
                let two = o.bad.len() > 1;
                let q = o.clone();
                v.0.push(Scenario::new(n.clone(), move |ch| crowd(&q, ch)).dev(if two { t } else { 1 + t }));
                if !two { let q = Crowd { policy: ALL, ..o }; v.0.push(Scenario::new(format!("{n}, partial"), move |ch| crowd(&q, ch)).dev(t)); }
            }
        }
        _ => {}
    }
    v.0
}
/// Long and large conversations.
fn wide(v: &mut List, p: &'static str, thorough: bool) {
    use wide::*;
    let n = counts(thorough);
    let many = |v: &mut List, name: &str, f: fn(&'static str, usize, &mut mc_engine::Ch) -> Option<Spec>| {
        let n = n.clone();
        v.gen(name, 0, move |ch| { let k = n[ch.choose(n.len())]; let o = f(p, k, ch)?; Some(shape(o, k, ch)) });
    };
    match p {
        "P01" | "P02" => {
            many(v, "many commands", queue);
            many(v, "many responses", burst);
            many(v, "many rounds", dialog);
            v.gen("any tag", 0, move |ch| tagged(p, ch));
            v.gen("any number", 0, move |ch| numbers(p, ch));
            v.gen("any text", 0, move |ch| said(p, ch));
            v.gen("any argument", 0, move |ch| arguments(p, ch));
            let z = sizes(if thorough { 23 } else { 20 });
            v.gen("large messages", 0, move |ch| { let k = z[ch.choose(z.len())]; let o = large(p, k, ch.choose(LARGE))?; Some(shape(o, k, ch)) });
        }
        "P03" => {
            let m = n.clone();
            v.gen("long lists", 0, move |ch| { let at = ch.choose(lists::PLACES.len()); let k = m[ch.choose(m.len())]; Some(caps(p, at, k, ch)) });
            v.gen("any text", 0, move |ch| said(p, ch));
            many(v, "many announcements", |p, n, ch| Some(caps_again(p, n, ch)));
        }
        "P04" => {
            v.gen("any text", 0, move |ch| refused_text(p, ch));
            many(v, "many refusals", |p, n, ch| Some(refusals(p, n, ch)));
            for base in [0, 3, 4] { v.gen(format!("any command refused, order {base}"), base, move |ch| refused_kinds(p, ch)); }
        }
        "P05" => many(v, "much rubbish", rubbish),
        "P09" => { let m = n.clone(); v.gen("the client says rubbish at the end", 0, move |ch| { let k = m[ch.choose(m.len())]; rubbish_at_end(p, k, ch) }); let m = n.clone(); v.gen("much on its way", 0, move |ch| { let k = m[ch.choose(m.len())]; ends(p, k, ch) }); }
        _ => {}
    }
}
/// A host has limited memory: nothing a peer merely announces may be allocated.
struct Limited;
unsafe impl std::alloc::GlobalAlloc for Limited {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { if l.size() > 1 << 30 { std::ptr::null_mut() } else { std::alloc::System.alloc(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { std::alloc::System.dealloc(p, l) }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 { if l.size() > 1 << 30 { std::ptr::null_mut() } else { std::alloc::System.alloc_zeroed(l) } }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 { if n > 1 << 30 { std::ptr::null_mut() } else { std::alloc::System.realloc(p, l, n) } }
}
#[global_allocator]
static LIMITED: Limited = Limited;
extern "C" { fn dup(fd: i32) -> i32; fn dup2(a: i32, b: i32) -> i32; }
fn main() {
    // The proxy prints its services; keep that out of the check's output.
    unsafe {
        use std::os::fd::{AsRawFd, FromRawFd};
        let keep = dup(1);
        let null = std::fs::OpenOptions::new().write(true).open("/dev/null").unwrap();
        dup2(null.as_raw_fd(), 1);
        mc_engine::output(std::fs::File::from_raw_fd(keep));
    }
    let a = mc_engine::args();
    let Some(prop) = PROPS.iter().find(|p| **p == a.prop).copied() else { eprintln!("usage: mc-proxy <{}>", PROPS.join("|")); std::process::exit(2) };
    mc_engine::cleanup(env::cleanup);
    let scenarios = scenarios(prop, a.tier == "thorough");
    let assumptions = vec![
        "The proxy program runs unchanged (its main function, service loop and sessions); sockets, tasks, time and the branch order of select! are simulated (simrt). TLS is the real rustls with the ring provider; the operating system's trust store is replaced by one test CA.".to_string(),
        "imap-codec, imap-types, tokio-rustls, argh, colored, rustls-pemfile, rustls-native-certs and tracing-subscriber are stand-ins with the same interface.".to_string(),
        "Bounds: the conversations, orders and deviation budgets named by the scenarios.".to_string(),
    ];
    mc_engine::drive(a, mc_engine::Check { prop, scenarios, assumptions })
}
