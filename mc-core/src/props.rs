//! Which explorations decide which property, and within which bounds.
use imap_types::auth::AuthenticateData;
use mc_engine::Scenario;

use crate::client::*;
use crate::compose::*;
use crate::seg::*;
use crate::server::*;

pub const PROPS: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "F01", "F02", "F03", "F04", "S01", "S02", "S03", "S04", "S05", "S06", "S07", "X01", "L01"];

fn ad(b: &[u8]) -> AuthenticateData<'static> { AuthenticateData::r#continue(b.to_vec()) }

/// Full tree to `full`, single-step; full tree with coarse polling to `coarse`; state-pruned to `deep`.
fn client(v: &mut Vec<Scenario>, name: &str, base: ClientCfg, full: usize, coarse: usize, deep: usize) {
    let c = ClientCfg { depth: full, ..base.clone() };
    v.push(Scenario::new(format!("{name}/all-histories-{full}"), move |ch| client_run(&c, ch)));
    let c = ClientCfg { depth: coarse, coarse: true, ..base.clone() };
    v.push(Scenario::new(format!("{name}/all-histories-rest-{coarse}"), move |ch| client_run(&c, ch)));
    let c = ClientCfg { depth: deep, prune: true, ..base.clone() };
    let deep = deep.max(16) + if thorough() { 8 } else { 0 }; let c = ClientCfg { depth: deep, unread: if thorough() { 40 } else { 20 }, ..c };
    v.push(Scenario::new(format!("{name}/states-{deep}"), move |ch| client_run(&c, ch)));
}
fn server(v: &mut Vec<Scenario>, name: &str, base: ServerCfg, full: usize, coarse: usize, deep: usize) {
    let c = ServerCfg { depth: full, ..base.clone() };
    v.push(Scenario::new(format!("{name}/all-histories-{full}"), move |ch| server_run(&c, ch)));
    let c = ServerCfg { depth: coarse, coarse: true, ..base.clone() };
    v.push(Scenario::new(format!("{name}/all-histories-rest-{coarse}"), move |ch| server_run(&c, ch)));
    let c = ServerCfg { depth: deep, prune: true, ..base.clone() };
    let deep = deep.max(10) + if thorough() { 6 } else { 0 }; let c = ServerCfg { depth: deep, unread: if thorough() { 32 } else { 20 }, ..c };
    v.push(Scenario::new(format!("{name}/states-{deep}"), move |ch| server_run(&c, ch)));
}
fn segs(v: &mut Vec<Scenario>, name: &str, ep: Ep, streams: Vec<Vec<u8>>, k: usize) {
    let e = ep.clone();
    let st = streams.clone();
    v.push(Scenario::new(format!("{name}/cuts-{k}"), move |ch| { let i = ch.choose(st.len()); seg_run(&e, &st[i], Cuts::UpTo(k), ch) }));
    v.push(Scenario::new(format!("{name}/bytewise"), move |ch| { let i = ch.choose(streams.len()); seg_run(&ep, &streams[i], Cuts::Bytewise, ch) }));
}
fn tokens(v: &mut Vec<Scenario>, name: &str, ep: Ep, pres: &'static [&'static [u8]], toks: &'static [&'static [u8]], depth: usize, prune: bool) {
    v.push(Scenario::new(format!("{name}/{}-{depth}", if prune { "states" } else { "all-strings" }), move |ch| { let i = ch.choose(pres.len()); token_run(&ep, pres[i], toks, depth, true, prune, ch) }));
}
fn thorough() -> bool { THOROUGH.load(std::sync::atomic::Ordering::Relaxed) }
static THOROUGH: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
fn b(s: &str) -> Vec<u8> { s.as_bytes().to_vec() }

const PLUS: &[u8] = b"+ go on\r\n";
const EXISTS: &[u8] = b"* 1 EXISTS\r\n";

const SERVER_PRES: &[&[u8]] = &[b"", b"A1 AUTHENTICATE PLAIN\r\n", b"A1 IDLE\r\n", b"A1 LOGIN {3}\r\n"];
const SERVER_TOKENS: &[&[u8]] = &[b"\n", b"\r", b"\r\n", b"A2 NOOP\r\n", b"A3 LOGIN ", b"{2}\r\n", b"{2+}\r\n", b"a", b" ", b"DONE", b"*", b"\0"];
const CLIENT_PRES: &[&[u8]] = &[b""];
const CLIENT_TOKENS: &[&[u8]] = &[b"\n", b"\r", b"\r\n", b"* 1 EXISTS\r\n", b"* 1 FETCH (RFC822 ", b"{2}\r\n", b"a", b")", b"+ ", b"A1 OK x\r\n", b"A1 BAD x\r\n", b"\0"];

fn small() -> SrvOpts { SrvOpts { max_cmd: 60, max_lit: 10, ..SrvOpts::default() } }
fn small_relaxed() -> SrvOpts { SrvOpts { relaxed: true, ..small() } }

fn server_streams() -> Vec<Vec<u8>> {
    [
        "A1 NOOP\r\nA2 CAPABILITY\r\n",
        "A1 LOGIN {3}\r\nabc {2+}\r\nxy\r\nA2 NOOP\r\n",
        "A1 LOGIN {2}\r\n\r\n {1}\r\n\n\r\nA2 NOOP\r\n",
        "bogus\r\nA1 NOOP\r\nA2 NOOP\nA3 NOOP\r\n",
        "\r\n\nA1 NOOP\r\r\nA2 NOOP\r\n",
        "A1 AUTHENTICATE PLAIN\r\nAHgA\r\nA2 NOOP\r\n",
        "A1 AUTHENTICATE PLAIN\r\n*\r\n!!\r\nA2 NOOP\r\n",
        "A1 IDLE\r\nDONE\r\nA2 NOOP\r\n",
        "A1 IDLE\r\nFOO\r\nDONE\nDONE\r\nA2 NOOP\r\n",
        "A1 LOGIN {11}\r\nA2 LOGIN {10}\r\n0123456789 x\r\nA3 NOOP\r\n",
        "A1 LOGIN {1}\r\na {99}\r\nA2 NOOP\r\n",
        "A1 LOGIN x 3456789012345678901234567890123456789012345678901234567890123\r\nA2 NOOP\r\n",
        "A1 LOGIN x {0}\r\n\r\nA2 LOGIN {0+}\r\n {0+}\r\n\r\n",
    ].iter().map(|s| b(s)).collect()
}
fn client_streams() -> Vec<Vec<u8>> {
    [
        "* 3 EXISTS\r\nA1 OK done\r\n",
        "+ go on\r\n* 3 EXISTS\r\n+ more\r\nA1 OK done\r\n",
        "* 1 FETCH (RFC822 {5}\r\nab\r\nc RFC822.TEXT {0}\r\n)\r\n* 3 EXISTS\r\n",
        "* 1 FETCH (RFC822 {4}\r\n\r\n\r\n)\r\n+ go on\r\nA1 OK x\r\n",
        "bogus\r\n* 3 EXISTS\n* 4 EXISTS\r\n",
        "A1 BAD no\r\n* BYE bye\r\n+ x\r\n",
        "* 3 EXISTS\r\r\n\r\n\n* OK [ALERT] hey\r\n",
    ].iter().map(|s| b(s)).collect()
}
fn fresh_streams() -> Vec<Vec<u8>> {
    ["* OK hi\r\n* 3 EXISTS\r\nA1 OK done\r\n", "* OK h\n* OK hi\r\n+ x\r\n", "nonsense\r\n* PREAUTH hi\r\n* BYE x\r\n", "* BYE no\r\n"].iter().map(|s| b(s)).collect()
}
const PREPS: &[Prep] = &[Prep::Greeted, Prep::SyncLiteral, Prep::TwoLiterals, Prep::Auth, Prep::Idle, Prep::Idling];

/// All line-ending variants of a message: every CRLF of the text becomes CRLF or LF.
fn eol_variants(s: &str) -> Vec<Vec<u8>> {
    let parts: Vec<&str> = s.split("\r\n").collect();
    let n = parts.len() - 1;
    (0..(1usize << n)).map(|m| {
        let mut o = String::new();
        for (i, p) in parts.iter().enumerate() { o.push_str(p); if i < n { o.push_str(if m >> i & 1 == 1 { "\n" } else { "\r\n" }) } }
        o.into_bytes()
    }).collect()
}
/// All strings over `alphabet` up to length `n`.
fn strings(alphabet: &[u8], n: usize) -> Vec<Vec<u8>> {
    let mut all = vec![vec![]];
    let mut cur = vec![vec![]];
    for _ in 0..n {
        cur = cur.iter().flat_map(|p: &Vec<u8>| alphabet.iter().map(move |c| { let mut q = p.clone(); q.push(*c); q })).collect();
        all.extend(cur.clone());
    }
    all
}
fn lit(payload: &[u8], plus: bool) -> Vec<u8> { let mut o = format!("{{{}{}}}\r\n", payload.len(), if plus { "+" } else { "" }).into_bytes(); o.extend_from_slice(payload); o }
fn cat(p: &[&[u8]]) -> Vec<u8> { p.concat() }

pub fn scenarios(prop: &str, thorough: bool) -> Vec<Scenario> {
    let mut v = vec![];
    THOROUGH.store(thorough, std::sync::atomic::Ordering::Relaxed);
    let t = thorough as usize;
    match prop {
        "C01" => {
            client(&mut v, "mixed", ClientCfg { cmds: vec!["NOOP", "LOGIN {1}\r\na {2+}\r\nxy", "LOGIN {2+}\r\nab {1}\r\nc", "AUTHENTICATE PLAIN", "IDLE"], inputs: vec![PLUS, b"A1 BAD no\r\n", b"A1 OK fine\r\n", EXISTS], auth: vec![ad(b"zz")], done: true, max_cmds: 3, ..Default::default() }, 6 + t, 6, 9 + 2 * t);
            client(&mut v, "literals", ClientCfg { cmds: vec!["NOOP", "LOGIN {1}\r\na {1}\r\nb", "LOGIN {0}\r\n {0+}\r\n"], inputs: vec![PLUS, b"A1 BAD no\r\n"], max_cmds: 4, ..Default::default() }, 8 + t, 8 + t, 14 + 4 * t);
            client(&mut v, "early", ClientCfg { pre_greet: false, cmds: vec!["NOOP", "LOGIN {1}\r\na x", "IDLE"], inputs: vec![b"* OK hi\r\n", PLUS, b"A1 BAD no\r\n"], done: true, max_cmds: 3, ..Default::default() }, 7 + t, 7 + t, 11 + 2 * t);
        }
        "C02" => {
            client(&mut v, "literals", ClientCfg { cmds: vec!["LOGIN {1}\r\na {2}\r\nbc", "LOGIN {3}\r\n\r\n+ {2+}\r\nxy", "LOGIN {1+}\r\na {1+}\r\nb", "NOOP"], inputs: vec![PLUS, b"+ \r\n", EXISTS, b"A1 OK x\r\n"], max_cmds: 3, ..Default::default() }, 7 + t, 7 + t, 11 + 2 * t);
            client(&mut v, "only-plus", ClientCfg { cmds: vec!["LOGIN {1}\r\na {1}\r\nb", "LOGIN {0}\r\n {0}\r\n"], inputs: vec![PLUS], max_cmds: 4, ..Default::default() }, 11 + t, 10 + t, 18);
            client(&mut v, "after-others", ClientCfg { cmds: vec!["LOGIN {1}\r\na x", "AUTHENTICATE PLAIN", "IDLE"], inputs: vec![PLUS, b"A1 OK x\r\n", b"A2 OK x\r\n"], auth: vec![ad(b"zz")], done: true, max_cmds: 3, ..Default::default() }, 6 + t, 7 + t, 11 + 2 * t);
            for p in [Prep::SyncLiteral, Prep::TwoLiterals] { segs(&mut v, &format!("cut-{p:?}"), Ep::Client(false, p), client_streams(), 1 + t) }
        }
        "C03" => {
            client(&mut v, "statuses", ClientCfg { cmds: vec!["LOGIN {1}\r\na {1}\r\nb", "NOOP", "LOGIN {1+}\r\na {1}\r\nb"], inputs: vec![b"A1 BAD no\r\n", b"A1 NO no\r\n", b"A1 OK fine\r\n", b"A2 BAD no\r\n", b"* BAD no\r\n", b"* BYE no\r\n", PLUS], max_cmds: 2, ..Default::default() }, 6 + t, 6 + t, 10 + 2 * t);
            client(&mut v, "reject-queue", ClientCfg { cmds: vec!["LOGIN {1}\r\na {1}\r\nb", "NOOP", "CREATE {2}\r\nzz"], inputs: vec![b"A1 BAD no\r\n", b"A2 BAD [ALERT] no\r\n", b"A3 BAD no\r\n", PLUS], max_cmds: 3, ..Default::default() }, 7 + t, 7 + t, 12 + 2 * t);
            for p in [Prep::SyncLiteral, Prep::TwoLiterals] { segs(&mut v, &format!("cut-{p:?}"), Ep::Client(false, p), vec![b("A1 BAD no\r\n+ go\r\nA2 OK x\r\n"), b("* BAD x\r\nA1 NO x\r\nA2 BAD x\r\n+ go\r\n"), b("A1 BAD a\r\nA1 BAD b\r\n")], 2 + t) }
        }
        "C04" => {
            client(&mut v, "auth", ClientCfg { cmds: vec!["AUTHENTICATE PLAIN", "NOOP", "AUTHENTICATE PLAIN AGEAYg=="], inputs: vec![b"+ \r\n", b"+ Y2hhbGxlbmdl\r\n", b"A1 OK x\r\n", b"A1 NO x\r\n", b"A1 BAD x\r\n", b"A2 OK x\r\n", b"* OK x\r\n"], auth: vec![ad(b"zz"), ad(b""), AuthenticateData::Cancel], max_cmds: 2, ..Default::default() }, 5 + t, 6, 8 + t);
            client(&mut v, "turns", ClientCfg { cmds: vec!["AUTHENTICATE PLAIN", "NOOP"], inputs: vec![b"+ \r\n", b"A1 OK x\r\n", b"A1 NO x\r\n"], auth: vec![ad(b"zz")], done: true, max_cmds: 3, ..Default::default() }, 7 + t, 7 + t, 13 + 2 * t);
            client(&mut v, "others", ClientCfg { cmds: vec!["AUTHENTICATE PLAIN", "LOGIN {1}\r\na x", "IDLE"], inputs: vec![PLUS, b"A1 OK x\r\n", b"A2 OK x\r\n"], auth: vec![ad(b"zz")], done: true, max_cmds: 3, ..Default::default() }, 7 + t, 7 + t, 11 + 2 * t);
            segs(&mut v, "cut", Ep::Client(false, Prep::Auth), vec![b("+ \r\n+ eHg=\r\nA1 OK x\r\n* 1 EXISTS\r\n"), b("A1 NO x\r\n+ x\r\n"), b("* OK x\r\nA2 OK x\r\n+ go\r\nA1 BAD x\r\n")], 2 + t);
        }
        "C05" => {
            client(&mut v, "idle", ClientCfg { cmds: vec!["IDLE", "NOOP"], inputs: vec![PLUS, b"A1 OK x\r\n", b"A1 NO x\r\n", b"A1 BAD x\r\n", b"A2 OK x\r\n", b"* 1 EXISTS\r\n"], done: true, max_cmds: 3, ..Default::default() }, 6 + t, 6 + t, 10 + 2 * t);
            client(&mut v, "turns", ClientCfg { cmds: vec!["IDLE", "NOOP"], inputs: vec![PLUS, b"A1 NO x\r\n"], done: true, max_cmds: 4, ..Default::default() }, 8 + t, 8 + t, 16 + 2 * t);
            client(&mut v, "others", ClientCfg { cmds: vec!["IDLE", "LOGIN {1}\r\na x", "AUTHENTICATE PLAIN"], inputs: vec![PLUS, b"A1 OK x\r\n", b"A2 OK x\r\n"], auth: vec![ad(b"zz")], done: true, max_cmds: 3, ..Default::default() }, 7 + t, 7 + t, 11 + 2 * t);
            for p in [Prep::Idle, Prep::Idling] { segs(&mut v, &format!("cut-{p:?}"), Ep::Client(false, p), vec![b("+ idling\r\n* 1 EXISTS\r\nA1 OK x\r\n"), b("A1 NO x\r\n+ x\r\n"), b("* OK x\r\n+ a\r\n+ b\r\n")], 2 + t) }
        }
        "C06" => {
            client(&mut v, "mixed", ClientCfg { cmds: vec!["NOOP", "LOGIN {1}\r\na {1}\r\nb", "AUTHENTICATE PLAIN", "IDLE"], inputs: vec![PLUS, b"A1 BAD no\r\n", b"A2 OK x\r\n", b"A1 OK x\r\n"], auth: vec![ad(b"zz")], done: true, max_cmds: 3, ..Default::default() }, 6 + t, 6 + t, 10 + 2 * t);
            client(&mut v, "same-commands", ClientCfg { cmds: vec!["NOOP", "LOGIN {1}\r\na x"], inputs: vec![PLUS, b"A1 BAD no\r\n", b"A2 BAD no\r\n"], max_cmds: 5, ..Default::default() }, 8 + t, 8 + t, 14 + 2 * t);
            client(&mut v, "early", ClientCfg { pre_greet: false, cmds: vec!["NOOP", "IDLE", "AUTHENTICATE PLAIN"], inputs: vec![b"* OK hi\r\n", b"A1 NO x\r\n", b"A2 NO x\r\n"], done: true, max_cmds: 3, ..Default::default() }, 7 + t, 7 + t, 11 + 2 * t);
        }
        "C07" => {
            client(&mut v, "messages", ClientCfg { cmds: vec!["LOGIN {1}\r\na x", "AUTHENTICATE PLAIN", "IDLE"], inputs: vec![EXISTS, b"* OK [ALERT] x\r\n", b"A1 OK x\r\n", PLUS, b"* 1 FETCH (RFC822 {2}\r\n+ ", b")\r\n", b"bogus\r\n", b"* 2 EXISTS\r\n* 3 EXISTS\r\n+ x\r\n"], auth: vec![ad(b"zz")], done: true, max_cmds: 2, ..Default::default() }, 5 + t, 6, 8 + t);
            client(&mut v, "continuations", ClientCfg { cmds: vec!["LOGIN {1}\r\na {1}\r\nb", "NOOP"], inputs: vec![PLUS, b"+ a\r\n+ b\r\n+ c\r\n", EXISTS], max_cmds: 3, ..Default::default() }, 8 + t, 7 + t, 12 + 2 * t);
            for p in PREPS { segs(&mut v, &format!("cut-{p:?}"), Ep::Client(false, *p), client_streams(), 1 + t) }
        }
        "C08" => {
            client(&mut v, "greeting", ClientCfg { pre_greet: false, cmds: vec!["NOOP", "LOGIN {1}\r\na x", "IDLE", "AUTHENTICATE PLAIN"], inputs: vec![b"* OK hi\r\n", b"* BYE hi\r\n", b"bogus\r\n", b"* OK hi\n", b"* PREAUTH hi\r\n* 1 EXISTS\r\n", b"* OK [CAPABILITY IMAP4REV1] h", b"i\r\n", PLUS], done: true, auth: vec![ad(b"zz")], max_cmds: 2, ..Default::default() }, 5 + t, 6, 8 + t);
            client(&mut v, "greeting-small", ClientCfg { pre_greet: false, cmds: vec!["NOOP"], inputs: vec![b"* OK hi\r\n", b"bogus\r\n", b"A1 OK x\r\n"], max_cmds: 3, ..Default::default() }, 9, 8 + t, 14);
            for r in [false, true] { segs(&mut v, &format!("cut-relaxed-{r}"), Ep::Client(r, Prep::Fresh), fresh_streams(), 3) }
        }
        "F01" => {
            segs(&mut v, "server", Ep::Server(small()), server_streams(), 2 + t);
            segs(&mut v, "server-relaxed", Ep::Server(small_relaxed()), server_streams(), 2 + t);
            for p in PREPS { segs(&mut v, &format!("client-{p:?}"), Ep::Client(false, *p), client_streams(), 2 + t) }
            segs(&mut v, "client-relaxed", Ep::Client(true, Prep::Greeted), client_streams(), 2 + t);
            segs(&mut v, "client-fresh", Ep::Client(false, Prep::Fresh), fresh_streams(), 3);
            segs(&mut v, "server-4", Ep::Server(small()), vec![b("A1 LOGIN {1}\r\na {1+}\r\nb\r\n"), b("A1 IDLE\r\nDONE\r\n"), b("x\nA1 NOOP\r\n")], 4);
        }
        "F02" => {
            let msgs = ["A1 NOOP\r\n", "A1 LOGIN {1}\r\nx {2}\r\n\r\n\r\nA2 NOOP\r\n", "A1 AUTHENTICATE PLAIN\r\nAHgA\r\nA2 NOOP\r\n", "A1 IDLE\r\nDONE\r\nA2 NOOP\r\n", "A1 LOGIN {1+}\r\n\n {1+}\r\n\r\r\n"];
            let st: Vec<Vec<u8>> = msgs.iter().flat_map(|m| eol_variants(m)).collect();
            segs(&mut v, "server", Ep::Server(small()), st.clone(), 2);
            segs(&mut v, "server-relaxed", Ep::Server(small_relaxed()), st, 2);
            let msgs = ["* 1 EXISTS\r\nA1 OK x\r\n", "* 1 FETCH (RFC822 {1}\r\nx RFC822.TEXT {2}\r\n\r\n)\r\n", "+ x\r\nA1 BAD x\r\n"];
            let st: Vec<Vec<u8>> = msgs.iter().flat_map(|m| eol_variants(m)).collect();
            for r in [false, true] {
                for p in [Prep::Greeted, Prep::SyncLiteral, Prep::Auth] { segs(&mut v, &format!("client-relaxed-{r}-{p:?}"), Ep::Client(r, p), st.clone(), 2) }
                let g: Vec<Vec<u8>> = ["* OK hi\r\n* 1 EXISTS\r\n", "* BYE x\r\n"].iter().flat_map(|m| eol_variants(m)).collect();
                segs(&mut v, &format!("client-relaxed-{r}-greeting"), Ep::Client(r, Prep::Fresh), g, 2);
            }
            let n = 7 + t;
            for (nm, o) in [("strict", small()), ("relaxed", small_relaxed())] {
                let st: Vec<Vec<u8>> = strings(b"\r\na", n);
                segs(&mut v, &format!("server-crlf-strings-{n}-{nm}"), Ep::Server(o), st, 1);
            }
            for r in [false, true] { segs(&mut v, &format!("client-crlf-strings-{n}-relaxed-{r}"), Ep::Client(r, Prep::Greeted), strings(b"\r\na", n), 1) }
            const T: &[&[u8]] = &[b"\n", b"\r", b"\r\n", b"A2 NOOP", b"A3 LOGIN {1}", b"A4 LOGIN {1+}"];
            tokens(&mut v, "server-tokens", Ep::Server(small()), SERVER_PRES, T, 4 + t, false);
            tokens(&mut v, "server-tokens-relaxed", Ep::Server(small_relaxed()), SERVER_PRES, T, 4 + t, false);
        }
        "F03" => {
            const T: &[&[u8]] = &[b"bogus\r\n", b"A2 NOOP\r\n", b"A3 LOGIN {1}\r\nx y\r\n", b"A4 LOGIN {2}\r\n\r\n(\r\n", b"\n", b"A5 NO", b"AHgA\r\n", b"DONE\r\n", b"{1}\r\n"];
            tokens(&mut v, "server", Ep::Server(small()), SERVER_PRES, T, 4 + t, false);
            tokens(&mut v, "server", Ep::Server(small()), SERVER_PRES, T, 7 + t, true);
            tokens(&mut v, "server-relaxed", Ep::Server(small_relaxed()), SERVER_PRES, T, 4 + t, false);
            const C: &[&[u8]] = &[b"bogus\r\n", b"* 1 EXISTS\r\n", b"* 1 FETCH (RFC822 {1}\r\nx)\r\n", b"* 1 FETCH (RFC822 {2}\r\n\r\n!\r\n", b"\n", b"+ x\r\n", b"A1 BAD x\r\n", b"* O"];
            for p in PREPS { tokens(&mut v, &format!("client-{p:?}"), Ep::Client(false, *p), CLIENT_PRES, C, 4 + t, false) }
            const G: &[&[u8]] = &[b"bogus\r\n", b"* OK hi\r\n", b"\n", b"* 1 EXISTS\r\n", b"* B", b"YE x\r\n"];
            tokens(&mut v, "client-fresh", Ep::Client(false, Prep::Fresh), CLIENT_PRES, G, 5 + t, false);
        }
        "F04" => {
            let hostile = strings(b"\r\n{}1+\0 A", 3 + t);
            let mut st = vec![];
            for p in &hostile { for plus in [false, true] {
                st.push(cat(&[b"A1 LOGIN ", &lit(p, plus), b" x\r\nA2 NOOP\r\n"]));
                if p.len() < 3 { st.push(cat(&[b"A1 LOGIN ", &lit(b"u", !plus), b" ", &lit(p, plus), b"\r\nA2 NOOP\r\n"])); }
            } }
            let big = SrvOpts { max_cmd: 100, max_lit: 40, ..small() };
            let n = st.len();
            let e = Ep::Server(big.clone());
            let s2 = st.clone();
            v.push(Scenario::new(format!("server/{n}-payloads-one-cut"), move |ch| { let i = ch.choose_big(s2.len()); seg_run(&e, &s2[i], Cuts::UpTo(1), ch) }));
            let special: Vec<Vec<u8>> = [&b"A9 NOOP\r\n"[..], b"\r\n\r\nDONE\r\n", b"{5}\r\n", b"{5+}\r\nabcde\r\n", b"A1 LOGIN {1}\r\n", b"\0\xff\x80\r"].iter().flat_map(|p| [false, true].map(|plus| cat(&[b"A1 LOGIN ", &lit(p, plus), b" ", &lit(p, !plus), b"\r\nA2 NOOP\r\n"]))).collect();
            segs(&mut v, "server-commands-inside", Ep::Server(big), special, 2);
            let mut st = vec![];
            for p in &hostile { st.push(cat(&[b"* 1 FETCH (RFC822 ", &lit(p, false), b" RFC822.TEXT ", &lit(p, false), b")\r\n* 1 EXISTS\r\n"])); }
            let n = st.len();
            let s2 = st.clone();
            v.push(Scenario::new(format!("client/{n}-payloads-one-cut"), move |ch| { let i = ch.choose_big(s2.len()); seg_run(&Ep::Client(false, Prep::SyncLiteral), &s2[i], Cuts::UpTo(1), ch) }));
            let special: Vec<Vec<u8>> = [&b"+ go\r\n"[..], b"A1 BAD x\r\n", b"* BYE\r\n)\r\n", b"{7}\r\n"].iter().map(|p| cat(&[b"* 1 FETCH (RFC822 ", &lit(p, false), b")\r\nA1 OK x\r\n"])).collect();
            for p in PREPS { segs(&mut v, &format!("client-commands-inside-{p:?}"), Ep::Client(false, *p), special.clone(), 2) }
            // Long literals, delivered in a few odd cuts.
            let mut long = vec![];
            for n in [127usize, 128, 1000, 1023, 1024, 4096, 8191, 8192, 65536, 100_000] { let p: Vec<u8> = (0..n).map(|i| b"\r\nA1 {3}"[i % 8]).collect(); long.push(p); }
            v.push(Scenario::new("long-payloads", move |ch| {
                let p = &long[ch.choose(long.len())];
                let (ep, s) = match ch.choose(3) {
                    0 => (Ep::Server(SrvOpts { max_cmd: 300_000, max_lit: 100_000, ..small() }), cat(&[b"A1 LOGIN ", &lit(p, false), b" x\r\nA2 NOOP\r\n"])),
                    1 => (Ep::Server(SrvOpts { max_cmd: 300_000, max_lit: 100_000, ..small() }), cat(&[b"A1 LOGIN ", &lit(p, true), b" x\r\nA2 NOOP\r\n"])),
                    _ => (Ep::Client(false, Prep::Greeted), cat(&[b"* 1 FETCH (RFC822 ", &lit(p, false), b")\r\n* 1 EXISTS\r\n"])),
                };
                let mut run = Run::new(&ep, ch)?;
                let cuts = [s.len(), s.len() / 2, 20, 1000.min(s.len()), s.len() - 15];
                let c = cuts[ch.choose(cuts.len())];
                for piece in [&s[..c], &s[c..]] { run.feed(piece, ch); if ch.choose(2) == 1 { run.drain(ch)?; } }
                run.drain(ch)?;
                if run.transcript.iter().filter(|l| l.starts_with("ev ")).count() != 2 { return mc_engine::viol!(["F04"], "long-literal-lost", "a long literal was not received"); }
                run.epilogue(ch)
            }));
        }
        "S01" => {
            let resp = vec!["* 1 EXISTS\r\n", "A7 OK x\r\n", "+ hello\r\n", "* 1 FETCH (RFC822 {3}\r\na\r\n)\r\n"];
            server(&mut v, "mixed", ServerCfg { pre_greet: false, responses: resp.clone(), inputs: vec![b"A1 NOOP\r\n", b"A2 LOGIN {1}\r\n", b"a x\r\n", b"A3 LOGIN {501}\r\n", b"bogus\r\n"], ..Default::default() }, 6 + t, 6 + t, 8 + t);
            server(&mut v, "modes", ServerCfg { responses: vec!["* 1 EXISTS\r\n", "A7 NO x\r\n"], inputs: vec![b"A1 AUTHENTICATE PLAIN\r\n", b"AHgA\r\n", b"A2 IDLE\r\n", b"DONE\r\n"], replies: vec![Reply::AuthContinue(ccr("+ m\r\n")), Reply::AuthFinish(status("A1 OK z\r\n")), Reply::IdleAccept(ccr("+ i\r\n")), Reply::IdleReject(status("A2 NO z\r\n"))], ..Default::default() }, 6 + t, 6 + t, 8 + t);
            server(&mut v, "responses", ServerCfg { pre_greet: false, responses: vec!["* 1 EXISTS\r\n", "A7 OK x\r\n", "+ hello\r\n"], inputs: vec![b"A1 NOOP\r\n"], ..Default::default() }, 8 + t, 7 + t, 10 + t);
            let gs = ["* OK ready\r\n", "* PREAUTH [CAPABILITY IMAP4REV1 IDLE] yo\r\n", "* BYE [ALERT] no\r\n"];
            v.push(Scenario::new("greetings", move |ch| {
                let mut l = ServerLab::with_greeting(SrvOpts::default(), greeting(gs[ch.choose(gs.len())]));
                for _ in 0..3 { match ch.choose(4) { 0 => { l.next(ch)?; } 1 => l.feed(b"A1 NOOP\r\n", ch), 2 => l.enqueue(response("* 1 EXISTS\r\n"), ch)?, _ => { l.drain(ch)?; } } }
                l.epilogue(ch)
            }));
        }
        "S02" => {
            server(&mut v, "literals", ServerCfg { opts: small(), inputs: vec![b"A1 LOGIN {1}\r\n", b"A2 LOGIN {1+}\r\n", b"a", b" {2}\r\n", b" {2+}\r\n", b"bc\r\n", b"\r\n"], responses: vec!["* 1 EXISTS\r\n", "+ hello\r\n"], max_responses: 2, ..Default::default() }, 6 + t, 6 + t, 8 + t);
            let mut st = vec![];
            for a in [false, true] { for c in [false, true] { for (p, q) in [("a", "b"), ("", ""), ("\r\n", "+ x"), ("0123456789", "z")] { st.push(cat(&[b"A1 LOGIN ", &lit(p.as_bytes(), a), b" ", &lit(q.as_bytes(), c), b"\r\nA2 LOGIN ", &lit(q.as_bytes(), c), b" x\r\nA3 NOOP\r\n"])); } } }
            for pay in ["", "m"] { st.push(cat(&[b"A1 CREATE ", &lit(pay.as_bytes(), false), b"\r\nA2 CREATE ", &lit(b"q", true), b"\r\n"])); }
            let ep = Ep::Server(SrvOpts { max_cmd: 100, ..small() });
            segs(&mut v, "streams", ep, st, 2);
            tokens(&mut v, "tokens", Ep::Server(small()), SERVER_PRES, &[b"A3 LOGIN {1}\r\n", b"A4 LOGIN {1+}\r\n", b"x", b" {1}\r\n", b" {0+}\r\n", b" {0}\r\n", b"\r\n"], 5 + t, false);
            // The configured texts.
            let texts = ["Go ahead!", "...", "OK", "AAAA", "[x] y", "", "a\rb", "yes, \"please\" {1}", "+", "ü"];
            v.push(Scenario::new("texts", move |ch| {
                let mut o = imap_next::server::Options::default();
                let mut spec = SrvOpts { max_cmd: o.max_command_size, max_lit: 5, accept: o.literal_accept_text().inner().to_string(), reject: o.literal_reject_text().inner().to_string(), relaxed: false };
                o.max_literal_size = 5;
                for _ in 0..2 {
                    let which = ch.choose(2);
                    let txt = texts[ch.choose(texts.len())];
                    let ok = imap_types::response::CommandContinuationRequestBasic::new(None, txt).is_ok();
                    let r = if which == 0 { o.set_literal_accept_text(txt.to_string()) } else { o.set_literal_reject_text(txt.to_string()) };
                    if r != if ok { Ok(()) } else { Err(txt.to_string()) } { return mc_engine::viol!(["S02", "S03"], "text-setter", "setting the literal text {txt:?} gave {r:?}"); }
                    if ok { if which == 0 { spec.accept = txt.into() } else { spec.reject = txt.into() } }
                    if o.literal_accept_text().inner() != spec.accept || o.literal_reject_text().inner() != spec.reject { return mc_engine::viol!(["S02", "S03"], "text-getter", "configured texts read back as {:?} and {:?}", o.literal_accept_text(), o.literal_reject_text()); }
                }
                let g = greeting("* OK ready\r\n");
                let mut l = ServerLab { real: imap_next::server::Server::new(o, g.clone()), spec: ServerSpec::new(spec, g) };
                l.drain(ch)?;
                l.feed(b"A1 LOGIN {5}\r\n", ch);
                l.drain(ch)?;
                l.feed(b"abcde {6}\r\n", ch);
                l.drain(ch)?;
                l.feed(b"A2 LOGIN {9}\r\n", ch);
                l.drain(ch)?;
                l.epilogue(ch)
            }));
        }
        "S03" => {
            let mut st = vec![];
            for n in [0usize, 1, 9, 10, 11, 12, 99, 65_536, 4_294_967_295] {
                let ann = format!("{{{n}}}\r\n");
                let pay: Vec<u8> = if n <= 10 { vec![b'p'; n] } else { vec![] };
                let tail: &[u8] = if n <= 10 { b" x\r\n" } else { b"" };
                st.push(cat(&[b"A1 LOGIN ", ann.as_bytes(), &pay, tail, b"A2 NOOP\r\n"]));
                st.push(cat(&[b"A1 LOGIN {1}\r\na ", ann.as_bytes(), &pay, if n <= 10 { b"\r\n" } else { b"" }, b"A2 NOOP\r\n"]));
                st.push(cat(&[b"B7 CREATE ", ann.as_bytes(), &pay, if n <= 10 { b"\r\n" } else { b"" }, b"C8 LOGIN {11}\r\nA2 NOOP\r\n"]));
                if n <= 10 { let ann = format!("{{{n}+}}\r\n"); st.push(cat(&[b"A1 LOGIN ", ann.as_bytes(), &pay, b" x\r\nA2 NOOP\r\n"])); }
            }
            segs(&mut v, "sizes", Ep::Server(small()), st, 2);
            server(&mut v, "histories", ServerCfg { opts: small(), inputs: vec![b"A1 LOGIN {11}\r\n", b"A2 LOGIN {1}\r\n", b"a {11}\r\n", b"A3 LOGIN {10}\r\n", b"0123456789 x\r\n", b"A4 NOOP\r\n"], responses: vec!["* 1 EXISTS\r\n"], max_responses: 2, ..Default::default() }, 6 + t, 6 + t, 8 + t);
            // A refused non-synchronizing literal: whatever the client sends as payload is payload.
            let pays: Vec<Vec<u8>> = vec![b"ppppppppppp".to_vec(), b"A9 NOOP\r\nxx".to_vec(), b"xxxxxxxxxxx\r\nA9 LOGOUT\r\n".to_vec(), b"\r\nA9 DELETE a\r\n".to_vec(), b"A9 LOGIN {3+}\r\nabc x\r\n".to_vec(), b"\n\n\n\n\n\n\n\n\n\n\n".to_vec()];
            v.push(Scenario::new("nonsync-oversize", move |ch| {
                let p = &pays[ch.choose(pays.len())];
                let first = ch.choose(2) == 0;
                let s = if first { cat(&[b"A1 LOGIN ", &lit(p, true), b" x\r\n"]) } else { cat(&[b"A1 LOGIN {1+}\r\na ", &lit(p, true), b"\r\n"]) };
                let cut = 1 + ch.choose(s.len() - 1);
                let mut l = ServerLab::new(small());
                l.drain(ch)?;
                l.feed(&s[..cut], ch);
                if ch.choose(2) == 1 { l.drain(ch)?; }
                l.feed(&s[cut..], ch);
                l.drain(ch)?;
                Ok(())
            }));
        }
        "S04" => {
            let lim = 40usize;
            let mut st: Vec<Vec<u8>> = vec![];
            for d in 0..=6usize {
                let n = lim - 3 + d;
                let pad = |pre: &[u8], post: &[u8]| { let k = n - pre.len() - post.len(); cat(&[pre, &vec![b'q'; k], post]) };
                let after = b"A9 NOOP\r\n";
                st.push(cat(&[&pad(b"A1 LOGIN x ", b"\r\n"), after]));
                // inside a literal payload
                for plus in ["", "+"] {
                    let k = n - 10 - 6 - plus.len() - 2 - 2;
                    let s = cat(&[format!("A1 CREATE {{{k}{plus}}}\r\n").as_bytes(), &vec![b'q'; k], b"\r\n"]);
                    st.push(cat(&[&s, after]));
                    // line after the literal
                    let pre = format!("A1 LOGIN {{2{plus}}}\r\nab ");
                    st.push(cat(&[&pad(pre.as_bytes(), b"\r\n"), after]));
                    // literal larger than the whole limit
                    st.push(cat(&[format!("A1 CREATE {{{n}{plus}}}\r\n").as_bytes(), &vec![b'q'; n], b"\r\n", after]));
                }
                st.push(cat(&[&pad(b"", b"\r\n"), after]));
                st.push(cat(&[&pad(b"A1 LOGIN x ", b"\n"), after]));
                st.push(cat(&[b"A1 AUTHENTICATE PLAIN\r\n", &vec![b'A'; (n - 2) / 4 * 4], b"\r\n", after]));
                st.push(cat(&[b"A1 AUTHENTICATE PLAIN\r\n", &vec![b'A'; n - 2], b"\r\n", after]));
                st.push(cat(&[b"A1 IDLE\r\n", &vec![b'D'; n - 2], b"\r\nDONE\r\n", after]));
                st.push(vec![b'z'; n]);
                st.push(vec![b'z'; 3 * n]);
            }
            for relaxed in [false, true] { segs(&mut v, &format!("sizes-relaxed-{relaxed}"), Ep::Server(SrvOpts { relaxed, max_cmd: lim as u32, max_lit: 100, ..small() }), st.clone(), 1 + t) }
            let few: Vec<Vec<u8>> = st.iter().filter(|s| s.len() < 56).cloned().collect();
            segs(&mut v, "sizes-two-cuts", Ep::Server(SrvOpts { max_cmd: lim as u32, max_lit: 100, ..small() }), few, 2);
            const T: &[&[u8]] = &[b"A1 LOGIN ", b"qqqqqqq", b"\r\n", b"{3}\r\n", b"{9+}\r\n", b"A2 NOOP\r\n"];
            tokens(&mut v, "tokens", Ep::Server(SrvOpts { max_cmd: 16, max_lit: 100, ..small() }), &[b"", b"A IDLE\r\n"], T, 5 + t, false);
        }
        "S05" => {
            let reps = vec![Reply::AuthContinue(ccr("+ bW9yZQ==\r\n")), Reply::AuthFinish(status("A1 OK z\r\n")), Reply::AuthFinish(status("A1 NO z\r\n")), Reply::IdleAccept(ccr("+ i\r\n")), Reply::IdleReject(status("A2 NO z\r\n"))];
            server(&mut v, "auth", ServerCfg { inputs: vec![b"A1 AUTHENTICATE PLAIN\r\n", b"AHgA\r\n", b"*\r\n", b"A2 NOOP\r\n", b"\r\n", b"A3 IDLE\r\n"], responses: vec!["* 1 EXISTS\r\n"], max_responses: 1, replies: reps.clone(), ..Default::default() }, 5 + t, 6, 8 + t);
            server(&mut v, "turns", ServerCfg { inputs: vec![b"A1 AUTHENTICATE PLAIN AHgA\r\n", b"AHgA\r\n", b"A2 NO", b"OP\r\n"], replies: reps[..2].to_vec(), ..Default::default() }, 7 + t, 7 + t, 10 + t);
            server(&mut v, "literal", ServerCfg { inputs: vec![b"A1 AUTHENTICATE PLAIN\r\n", b"A2 LOGIN {1}\r\n", b"a x\r\n"], replies: reps[..4].to_vec(), ..Default::default() }, 7 + t, 7, 9 + t);
            segs(&mut v, "cut", Ep::Server(small()), vec![b("A1 AUTHENTICATE PLAIN\r\nAHgA\r\nA2 NOOP\r\n"), b("A1 AUTHENTICATE PLAIN AHgA\r\n*\r\nA2 NOOP\r\n"), b("A1 AUTHENTICATE PLAIN\r\n\r\nA2 AUTHENTICATE LOGIN\r\nAHgA\r\nA3 NOOP\r\n")], 2 + t);
        }
        "S06" => {
            let reps = vec![Reply::IdleAccept(ccr("+ i\r\n")), Reply::IdleReject(status("A1 NO z\r\n")), Reply::AuthContinue(ccr("+ bW9yZQ==\r\n")), Reply::AuthFinish(status("A2 OK z\r\n"))];
            server(&mut v, "idle", ServerCfg { inputs: vec![b"A1 IDLE\r\n", b"DONE\r\n", b"A2 NOOP\r\n", b"A3 AUTHENTICATE PLAIN\r\n", b"\r\n"], responses: vec!["* 1 EXISTS\r\n"], max_responses: 1, replies: reps.clone(), ..Default::default() }, 6 + t, 6, 8 + t);
            server(&mut v, "turns", ServerCfg { inputs: vec![b"A1 IDLE\r\n", b"DO", b"NE\r\n", b"A2 NOOP\r\n"], replies: reps[..2].to_vec(), ..Default::default() }, 7 + t, 7 + t, 10 + t);
            server(&mut v, "pipelined", ServerCfg { inputs: vec![b"A1 IDLE\r\nDONE\r\nA2 NOOP\r\n", b"A3 IDLE\r\nA4 NOOP\r\n", b"A5 LOGIN {1}\r\nx y\r\n"], replies: reps[..2].to_vec(), ..Default::default() }, 7 + t, 7 + t, 9 + t);
            segs(&mut v, "cut", Ep::Server(small()), vec![b("A1 IDLE\r\nDONE\r\nA2 NOOP\r\n"), b("A1 IDLE\r\ndone\r\nA2 IDLE\r\nDONE\r\n"), b("A1 IDLE\r\nA9 NOOP\r\nDONE\r\nA2 NOOP\r\n")], 2 + t);
        }
        "S07" => {
            let reps = vec![Reply::AuthContinue(ccr("+ bW9yZQ==\r\n")), Reply::AuthFinish(status("A1 OK z\r\n")), Reply::IdleAccept(ccr("+ i\r\n")), Reply::IdleReject(status("A2 NO z\r\n"))];
            server(&mut v, "messages", ServerCfg { opts: small(), inputs: vec![b"A1 NOOP\r\n", b"A2 LOGIN {1}\r\n", b"a {1+}\r\nb\r\n", b"bogus\r\n", b"A3 IDLE\r\nDONE\r\n", b"A4 NOOP\r\nA5 CREATE {2+}\r\n\r\n\r\nA6 NO", b"OP\r\n"], responses: vec!["* 1 EXISTS\r\n"], max_responses: 1, replies: reps[2..].to_vec(), ..Default::default() }, 5 + t, 6, 8 + t);
            server(&mut v, "same-messages", ServerCfg { opts: small(), inputs: vec![b"A1 NOOP\r\n", b"A1 NOOP\r\nA1 NOOP\r\n", b"A1 LOGIN {11}\r\n"], responses: vec!["A1 OK x\r\n"], max_responses: 2, ..Default::default() }, 7 + t, 7 + t, 10 + t);
            server(&mut v, "modes", ServerCfg { opts: small(), inputs: vec![b"A1 AUTHENTICATE PLAIN\r\n", b"AHgA\r\n", b"A2 IDLE\r\n", b"DONE\r\n", b"A4 NOOP\r\n"], replies: reps, ..Default::default() }, 5 + t, 6, 8 + t);
            segs(&mut v, "streams", Ep::Server(small()), server_streams(), 2 + t);
            server(&mut v, "before-greeting", ServerCfg { pre_greet: false, opts: small(), inputs: vec![b"A1 NOOP\r\n", b"A2 IDLE\r\n", b"A3 LOGIN {1}\r\n", b"a x\r\n"], responses: vec!["* 1 EXISTS\r\n"], max_responses: 1, ..Default::default() }, 6 + t, 6, 8 + t);
        }
        "X01" => {
            let base = Script { opts: small(), cmds: vec![], unsolicited: vec![], sizes: vec![0], idle_accept: true, auth_rounds: 1, prune: true, fixed: false };
            let all = |v: &mut Vec<Scenario>, n: &str, s: Script| { let k = s.clone(); v.push(Scenario::new(n.to_string(), move |ch| compose_run(&k, ch))); };
            all(&mut v, "literals", Script { cmds: vec!["LOGIN {1}\r\na {2+}\r\nbc", "NOOP", "CREATE {3}\r\n\r\n "], unsolicited: vec!["* 1 EXISTS\r\n"], sizes: vec![0, 1, 5], ..base.clone() });
            all(&mut v, "auth", Script { cmds: vec!["AUTHENTICATE PLAIN", "NOOP", "LOGIN {1}\r\na x"], unsolicited: vec!["* 1 EXISTS\r\n"], sizes: vec![0, 3], auth_rounds: 2, ..base.clone() });
            all(&mut v, "auth-ir", Script { cmds: vec!["AUTHENTICATE PLAIN AHgA", "IDLE"], unsolicited: vec!["* 1 FETCH (RFC822 {2}\r\n\r\n)\r\n"], sizes: vec![0, 3], auth_rounds: 0, ..base.clone() });
            all(&mut v, "idle", Script { cmds: vec!["IDLE", "NOOP", "LOGIN {1}\r\na x"], unsolicited: vec!["* 1 EXISTS\r\n", "* 2 EXISTS\r\n"], sizes: vec![0, 2], ..base.clone() });
            all(&mut v, "idle-rejected", Script { cmds: vec!["IDLE", "LOGIN {1}\r\na x", "IDLE"], unsolicited: vec!["* 1 EXISTS\r\n"], sizes: vec![0, 2], idle_accept: false, ..base.clone() });
            all(&mut v, "oversize", Script { cmds: vec!["LOGIN {11}\r\n0123456789a x", "NOOP", "LOGIN {1}\r\na {12}\r\n0123456789ab", "CREATE {10}\r\n0123456789"], unsolicited: vec!["* 1 EXISTS\r\n"], sizes: vec![0, 7], ..base.clone() });
            all(&mut v, "all-schedules-unpruned", Script { cmds: vec!["LOGIN {1}\r\na x"], prune: false, ..base.clone() });
            if thorough {
                all(&mut v, "all-schedules-unpruned-idle", Script { cmds: vec!["IDLE"], prune: false, ..base.clone() });
                all(&mut v, "all-schedules-unpruned-auth", Script { cmds: vec!["AUTHENTICATE PLAIN"], prune: false, auth_rounds: 0, ..base.clone() });
                all(&mut v, "long", Script { cmds: vec!["LOGIN {1}\r\na {2+}\r\nbc", "AUTHENTICATE PLAIN", "CREATE {3}\r\n\r\n ", "IDLE", "NOOP", "LOGIN {11}\r\n0123456789a x"], unsolicited: vec!["* 1 EXISTS\r\n", "* 1 FETCH (RFC822 {2}\r\n\r\n)\r\n"], sizes: vec![0, 1], ..base.clone() });
                all(&mut v, "all-schedules-unpruned-2", Script { cmds: vec!["LOGIN {1}\r\na {1}\r\nb"], unsolicited: vec!["* 1 EXISTS\r\n"], prune: false, ..base.clone() });
                all(&mut v, "all-schedules-unpruned-3", Script { cmds: vec!["LOGIN {1}\r\na x", "IDLE"], prune: false, ..base });
            }
        }
        "L01" => {
            tokens(&mut v, "server", Ep::Server(small()), SERVER_PRES, SERVER_TOKENS, 4 + t, false);
            tokens(&mut v, "server-relaxed", Ep::Server(small_relaxed()), SERVER_PRES, SERVER_TOKENS, 4 + t, false);
            tokens(&mut v, "server", Ep::Server(small()), SERVER_PRES, SERVER_TOKENS, 5, true);
            for p in PREPS { tokens(&mut v, &format!("client-{p:?}"), Ep::Client(false, *p), CLIENT_PRES, CLIENT_TOKENS, 4 + t, false) }
            tokens(&mut v, "client-fresh", Ep::Client(true, Prep::Fresh), CLIENT_PRES, &[b"* OK hi\r\n", b"* ", b"\n", b"BYE x\r\n", b"\r\n", b"+ x\r\n", b"\xff", b"* 1 FETCH (RFC822 {1}\r\n"], 5 + t, false);
            let st = strings(b"\r\n *+a{1}0", 5 + t);
            let n = st.len();
            let s2 = st.clone();
            v.push(Scenario::new(format!("server/{n}-strings"), move |ch| { let i = ch.choose_big(s2.len()); seg_run(&Ep::Server(small()), &s2[i], Cuts::UpTo(0), ch) }));
            v.push(Scenario::new(format!("client/{n}-strings"), move |ch| { let i = ch.choose_big(st.len()); seg_run(&Ep::Client(false, Prep::SyncLiteral), &st[i], Cuts::UpTo(0), ch) }));
            client(&mut v, "client", ClientCfg { pre_greet: false, cmds: vec!["NOOP", "LOGIN {1}\r\na x", "AUTHENTICATE PLAIN", "IDLE"], inputs: vec![b"* OK hi\r\n", PLUS, b"A1 BAD no\r\n", b"A1 OK x\r\n", b"x\r\n"], auth: vec![ad(b"zz")], done: true, max_cmds: 3, ..Default::default() }, 5 + t, 6, 8 + t);
            server(&mut v, "server", ServerCfg { pre_greet: false, opts: small(), inputs: vec![b"A1 LOGIN {1}\r\n", b"a x\r\n", b"A2 AUTHENTICATE PLAIN\r\n", b"A3 IDLE\r\n", b"DONE\r\n", b"A4 LOGIN {11}\r\n"], responses: vec!["* 1 EXISTS\r\n"], max_responses: 2, replies: vec![Reply::AuthContinue(ccr("+ m\r\n")), Reply::AuthFinish(status("A1 OK z\r\n")), Reply::IdleAccept(ccr("+ i\r\n")), Reply::IdleReject(status("A2 NO z\r\n"))], ..Default::default() }, 5 + t, 6, 8 + t);
        }
        _ => panic!("unknown property {prop}"),
    }
    v
}
