//! Every kind of message, and conversations that are long or large.
//!
//! The other scenarios explore all short histories over a few small messages; these follow few
//! schedules, but with every message kind the codec knows, queues and exchanges of hundreds of
//! messages, and messages of up to several megabytes (every size next to a power of two).
use imap_types::auth::AuthenticateData;
use mc_engine::{kinds::*, Ch, Out, Scenario, Viol};

use crate::client::*;
use crate::compose::*;
use crate::refframe::*;
use crate::seg::*;
use crate::server::*;

pub const COUNTS: [usize; 17] = [3, 4, 8, 9, 16, 17, 32, 33, 64, 65, 100, 128, 129, 255, 256, 257, 300];
/// Counts for few, cheap schedules.
const MANY: [usize; 12] = [512, 513, 1000, 1024, 1025, 2049, 4097, 10_001, 32_769, 65_536, 65_537, 70_000];
pub fn sizes(max: usize) -> Vec<usize> {
    let mut v = vec![0, 1, 2, 3, 100, 1000, 1460, 10_000, 100_000, 1_000_000];
    let mut p = 4;
    while p <= max { v.extend([p - 1, p, p + 1]); p *= 2; }
    v.retain(|n| *n <= max + 1);
    v.sort();
    v.dedup();
    v
}
fn wire(k: usize) -> (&'static str, bool) { match COMMANDS[k].strip_suffix(" refused") { Some(t) => (t, true), None => (COMMANDS[k], false) } }
fn add(v: &mut Vec<Scenario>, name: impl Into<String>, dev: u32, f: impl Fn(&mut Ch) -> Out + Send + Sync + 'static) { v.push(Scenario::new(name, f).dev(dev)) }
fn lost(p: &[&'static str], msg: String) -> Out { Err(Viol::new(p, "wedged", msg)) }

/// Answers the client until it is at rest. Every answer may deviate from the friendly one.
fn serve(lab: &mut ClientLab, rounds: usize, ch: &mut Ch) -> Out { serve_n(lab, rounds, 20_000, ch) }
fn serve_n(lab: &mut ClientLab, rounds: usize, limit: usize, ch: &mut Ch) -> Out {
    let mut left = rounds;
    for _ in 0..limit {
        lab.drain(ch)?;
        let Some((tag, kind, turn)) = lab.spec.cur_kind() else { return Ok(()) };
        match (kind, turn) {
            (0, _) => { let s: &[&str] = [&["+ go on\r\n"][..], &["T BAD no\r\n"], &["T NO no\r\n", "+ \r\n"], &["* BAD x\r\n", "Z9 BAD x\r\n", "+ AA==\r\n"], &["T OK [ALERT] x\r\n", "T BAD [ALERT] x\r\n"], &["* 1 FETCH (RFC822 {3}\r\n+ \r)\r\n", "+ +\r\n"]][ch.choose_dev(6)]; for l in s { lab.feed(l.replace("T ", &format!("{tag} ")).as_bytes(), ch) } }
            (1, true) => { let d = match ch.choose_dev(4) { 0 => AuthenticateData::r#continue(b"zz".to_vec()), 1 => AuthenticateData::r#continue(vec![]), 2 => AuthenticateData::Cancel, _ => AuthenticateData::r#continue((0..=255).collect::<Vec<u8>>()) }; lab.set_auth(d, ch)? }
            (1, false) if left > 0 => { left -= 1; lab.feed([&b"+ \r\n"[..], b"+ Zm9vYmFy\r\n", b"+ say something\r\n", b"* OK x\r\n+ x\r\n"][ch.choose_dev(4)], ch) }
            (1, false) => { left = rounds; lab.feed(format!("{tag} {} x\r\n", ["OK", "NO", "BAD", "OK [CAPABILITY IMAP4REV1]"][ch.choose_dev(4)]).as_bytes(), ch) }
            (_, true) => match ch.choose_dev(3) { 0 => lab.set_done(ch)?, 1 => lab.feed(format!("* 5 EXISTS\r\n{tag} OK over\r\n").as_bytes(), ch), _ => { lab.feed(b"+ again\r\n* 1 EXPUNGE\r\n", ch); lab.drain(ch)?; lab.set_done(ch)? } },
            _ => match ch.choose_dev(3) { 0 => lab.feed(b"+ idling\r\n", ch), 1 => lab.feed(format!("{tag} NO never\r\n").as_bytes(), ch), _ => lab.feed(format!("{tag} BAD never\r\n").as_bytes(), ch) },
        }
    }
    lost(&["C06", "L01"], "the client never comes to rest although everything is answered".into())
}
fn fresh(lab: &mut ClientLab, ch: &mut Ch) -> Out { lab.feed(b"* OK hi\r\n", ch); lab.drain(ch).map(|_| ()) }
fn finish(lab: &mut ClientLab, ch: &mut Ch) -> Out { if lab.spec.idle() { Ok(()) } else { lab.epilogue(ch) } }

/// Any commands of any kind; `dev` answers deviate.
fn client_kinds(n: usize, ch: &mut Ch) -> Out {
    let mut lab = ClientLab::new(false);
    // 0: enqueued before the greeting, 1: after it, 2: each when the previous one is through
    let when = ch.choose(3);
    if when > 0 { fresh(&mut lab, ch)? }
    for i in 0..n {
        let k = ch.choose(COMMANDS.len());
        lab.enqueue(cmd(wire(k).0, &["A1", "x.2", "C3"][i]), ch)?;
        if when == 2 { serve(&mut lab, 1, ch)? }
    }
    if when == 0 { lab.drain(ch)?; fresh(&mut lab, ch)? }
    serve(&mut lab, 1, ch)?;
    finish(&mut lab, ch)
}
/// A long queue: `n` commands of one kind or of all kinds in turn.
fn client_queue(ch: &mut Ch) -> Out {
    let n = COUNTS[ch.choose(COUNTS.len())];
    let mut lab = ClientLab::new(false);
    let when = ch.choose(3);
    if when > 0 { fresh(&mut lab, ch)? }
    // one kind throughout, one kind at one place among NOOPs, or all kinds
    let k = ch.choose(COMMANDS.len() * 2 + 1);
    let one = if k < COMMANDS.len() { None } else { Some(n - 1) };
    for i in 0..n {
        let w = if k == COMMANDS.len() * 2 { i % COMMANDS.len() } else if one.is_none() || one == Some(i) { k % COMMANDS.len() } else { 0 };
        lab.enqueue(cmd(wire(w).0, &format!("A{i}")), ch)?;
        if when == 2 && i % 2 == 1 { serve(&mut lab, 1, ch)? }
    }
    if when == 0 { fresh(&mut lab, ch)? }
    serve(&mut lab, 1, ch)?;
    finish(&mut lab, ch)
}
/// Tens of thousands of commands: all at once, or one after the other.
fn client_very_long(ch: &mut Ch) -> Out {
    let n = MANY[ch.choose(MANY.len())];
    let step = [n, 1, 100][ch.choose(3)];
    let mix: &[&str] = [&["NOOP"][..], &["NOOP", "LOGIN {1}\r\na x", "IDLE", "AUTHENTICATE PLAIN", "LOGIN {1+}\r\na x"]][ch.choose(2)];
    let mut lab = ClientLab::new(false);
    fresh(&mut lab, ch)?;
    for i in 0..n {
        lab.enqueue(cmd(mix[i % mix.len()], &format!("A{i}")), ch)?;
        if (i + 1) % step == 0 { serve_n(&mut lab, 1, 8 * n + 100, ch)? }
    }
    serve_n(&mut lab, 1, 8 * n + 100, ch)?;
    finish(&mut lab, ch)
}
/// Tens of thousands of messages for the client.
fn client_very_many(ch: &mut Ch) -> Out {
    let n = MANY[ch.choose(MANY.len())];
    let mut r = start([0, 2][ch.choose(2)], ch)?;
    const ALL: [&[u8]; 5] = [b"* 1 EXISTS\r\n", b"* 2 FETCH (RFC822 {2}\r\n\r\n)\r\n", b"bogus\r\n", b"A9 NO x\r\n", b"\n"];
    let what = [&ALL[..1], &ALL][ch.choose(2)];
    let step = [n, 1, 100][ch.choose(3)];
    let all: Vec<&[u8]> = (0..n).map(|i| what[i % what.len()]).collect();
    for c in all.chunks(step) { r.feed(&c.concat(), ch); r.drain(ch)?; }
    r.epilogue(ch)
}
/// A long pipeline for a server whose limits are much smaller than the pipeline.
fn server_pipeline(counts: &[usize], ch: &mut Ch) -> Out {
    let n = counts[ch.choose(counts.len())];
    let o = [opts(10, 64), opts(30, 1000), opts(200, 5000), big()][ch.choose(4)].clone();
    let what = ch.choose(5);
    let step = [n, 1, 100][ch.choose(3)];
    let mut r = Run::new(&Ep::Server(o), ch)?;
    let mut s = vec![];
    for i in 0..n {
        let t = format!("A{i}");
        match if what == 4 { i % 4 } else { what } {
            0 => s.extend(tagged(0, &t)),
            1 => s.extend(format!("{t} LOGIN {{1}}\r\na {{2+}}\r\n\r\n\r\n").bytes()),
            2 => s.extend(format!("{t} IDLE\r\nDONE\r\n").bytes()),
            _ => s.extend([b"bogus\r\n"[..].to_vec(), format!("{t} NOOP\n").into_bytes()][i % 2].iter()),
        }
        if (i + 1) % step == 0 { r.feed(&s, ch); s.clear(); r.drain(ch)?; }
    }
    r.feed(&s, ch);
    r.drain(ch)?;
    r.epilogue(ch)
}
/// Tens of thousands of responses.
fn server_very_long(ch: &mut Ch) -> Out {
    let n = MANY[ch.choose(MANY.len())];
    let step = [n, 1, 100][ch.choose(3)];
    let what: &[&str] = [&["* 1 EXISTS\r\n"][..], &["* 1 EXISTS\r\n", "A7 OK x\r\n", "+ x\r\n", "* BAD x\r\n"]][ch.choose(2)];
    let mut l = ServerLab::new(SrvOpts::default());
    for i in 0..n {
        l.enqueue(response(what[i % what.len()]), ch)?;
        if (i + 1) % step == 0 { l.drain(ch)?; }
    }
    l.feed(b"A1 LOGIN {1}\r\na x\r\n", ch);
    l.drain(ch)?;
    l.epilogue(ch)
}
fn blob(n: usize) -> Vec<u8> { (0..n).map(|i| b"ab\r\nA1 BAD {3}\r\n+ x"[(i + i / 97) % 19]).collect() }
fn text(n: usize) -> Vec<u8> { (0..n).map(|i| b'a' + (i % 26) as u8).collect() }
fn lit(n: usize, plus: bool) -> Vec<u8> { let mut o = format!("{{{n}{}}}\r\n", if plus { "+" } else { "" }).into_bytes(); o.extend(blob(n)); o }
fn quoted(n: usize) -> Vec<u8> { [&b"\""[..], &text(n), b"\""].concat() }
fn raw_cmd(w: &[u8]) -> imap_types::command::Command<'static> { use imap_types::bounded_static::IntoBoundedStatic; match dec_command(w) { Dec::Msg(m) => m.into_static(), o => panic!("MC-ENGINE bad template {:?} {o:?}", mc_engine::esc(&w[..w.len().min(80)])) } }
/// Commands with an argument of any size. With the tag and CRLF.
fn sized(shape: usize, n: usize, tag: &str) -> Vec<u8> {
    let t = tag.as_bytes();
    match shape {
        0 => [t, b" LOGIN ", &lit(n, false), b" x\r\n"].concat(),
        1 => [t, b" LOGIN ", &lit(n, true), b" x\r\n"].concat(),
        2 => [t, b" LOGIN x ", &lit(n, false), b"\r\n"].concat(),
        3 => [t, b" LOGIN ", &lit(n, true), b" ", &lit(n, false), b"\r\n"].concat(),
        4 => [t, b" LOGIN ", &lit(n, false), b" ", &lit(n, true), b"\r\n"].concat(),
        5 => [t, b" APPEND INBOX (\\Seen) ", &lit(n, false), b"\r\n"].concat(),
        6 => [t, b" APPEND INBOX ", &lit(n, true), b"\r\n"].concat(),
        7 => [t, b" LOGIN ", &quoted(n), b" ", &quoted(2), b"\r\n"].concat(),
        _ => [t, b" CREATE ", &quoted(n), b"\r\n"].concat(),
    }
}
const SHAPES: usize = 9;
fn client_sizes(max: usize, ch: &mut Ch) -> Out {
    let s = sizes(max);
    let n = s[ch.choose(s.len())];
    let shape = ch.choose(SHAPES);
    let mut lab = ClientLab::new(false);
    fresh(&mut lab, ch)?;
    lab.enqueue(cmd("NOOP", "A0"), ch)?;
    lab.enqueue(raw_cmd(&sized(shape, n, "A1")), ch)?;
    lab.enqueue(cmd("LOGIN {2}\r\nab {1+}\r\nx", "A2"), ch)?;
    serve(&mut lab, 1, ch)?;
    finish(&mut lab, ch)
}
/// A command with many literals, some of them refused.
fn client_many_literals(ch: &mut Ch) -> Out {
    let n = COUNTS[ch.choose(COUNTS.len())];
    let pat = ch.choose(4);
    let mut lab = ClientLab::new(false);
    fresh(&mut lab, ch)?;
    lab.enqueue(raw_cmd(&many_literals(n, pat, "A1")), ch)?;
    lab.enqueue(cmd("NOOP", "A2"), ch)?;
    // which go-ahead is a refusal? (n: none)
    let r = ch.choose(5);
    let at = [n, 0, 1, n / 2, n - 1][r];
    let together = ch.choose(2) == 1;
    let mut i = 0;
    loop {
        if !together || i == 0 { lab.drain(ch)?; }
        if i > n || !matches!(lab.spec.cur_kind(), Some((_, 0, _))) { break }
        if i == at { lab.feed(b"A1 BAD no\r\n", ch); lab.drain(ch)?; break }
        lab.feed(b"+ go\r\n", ch);
        i += 1;
        if i == n { break }
    }
    lab.drain(ch)?;
    finish(&mut lab, ch)
}
/// 0: all synchronizing, 1: alternating, 2: alternating the other way, 3: every third.
fn many_literals(n: usize, pat: usize, tag: &str) -> Vec<u8> {
    let mut o = format!("{tag} ID (").into_bytes();
    let n = n + n % 2;
    for i in 0..n {
        if i > 0 { o.push(b' ') }
        let plus = match pat { 0 => false, 1 => i % 2 == 0, 2 => i % 2 == 1, _ => i % 3 != 0 };
        o.extend(lit(i % 5, plus));
    }
    o.extend(b")\r\n");
    o
}
/// Long AUTHENTICATE and IDLE exchanges, many of them, data of any size.
fn client_dialogs(max: usize, ch: &mut Ch) -> Out {
    let mut lab = ClientLab::new(false);
    fresh(&mut lab, ch)?;
    match ch.choose(4) {
        0 => {
            let n = COUNTS[ch.choose(COUNTS.len())];
            lab.enqueue(cmd("AUTHENTICATE PLAIN", "A1"), ch)?;
            lab.enqueue(cmd("NOOP", "A2"), ch)?;
            serve(&mut lab, n, ch)?;
        }
        1 => {
            let s = sizes(max);
            let n = s[ch.choose(s.len())];
            lab.enqueue(cmd("AUTHENTICATE PLAIN", "A1"), ch)?;
            lab.drain(ch)?;
            for _ in 0..2 {
                lab.feed(&[&b"+ "[..], b64(&blob(n)).as_bytes(), b"\r\n"].concat(), ch);
                lab.drain(ch)?;
                lab.set_auth(AuthenticateData::r#continue(blob(n)), ch)?;
                lab.drain(ch)?;
            }
            // initial responses
            lab.feed(b"A1 OK x\r\n", ch);
            lab.drain(ch)?;
            let ir = b64(&blob(n));
            lab.enqueue(raw_cmd(format!("A2 AUTHENTICATE PLAIN {}\r\n", if ir.is_empty() { "=" } else { &ir }).as_bytes()), ch)?;
            serve(&mut lab, 1, ch)?;
        }
        2 => {
            let n = COUNTS[ch.choose(COUNTS.len())];
            for i in 0..n { lab.enqueue(cmd(["IDLE", "AUTHENTICATE PLAIN", "NOOP", "LOGIN {1}\r\na x"][i % 4], &format!("A{i}")), ch)?; if i % 3 == 0 { serve(&mut lab, 1, ch)? } }
            serve(&mut lab, 2, ch)?;
        }
        _ => {
            // many messages while idling
            let n = COUNTS[ch.choose(COUNTS.len())];
            lab.enqueue(cmd("IDLE", "A1"), ch)?;
            lab.enqueue(cmd("NOOP", "A2"), ch)?;
            lab.feed(b"+ idling\r\n", ch);
            let each = ch.choose(2) == 0;
            for i in 0..n { lab.feed([&b"* 1 EXISTS\r\n"[..], b"+ x\r\n", b"* OK still here\r\n", b"A9 OK x\r\n"][i % 4], ch); if each { lab.drain(ch)?; } }
            lab.drain(ch)?;
            serve(&mut lab, 1, ch)?;
        }
    }
    finish(&mut lab, ch)
}
fn b64(d: &[u8]) -> String {
    const T: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = String::new();
    for c in d.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 { o.push(if i <= c.len() { T[(n >> (18 - 6 * i)) as usize & 63] as char } else { '=' }) }
    }
    o
}
const PREPS: [Prep; 6] = [Prep::Greeted, Prep::SyncLiteral, Prep::TwoLiterals, Prep::Auth, Prep::Idle, Prep::Idling];
fn start(i: usize, ch: &mut Ch) -> Result<Run, Viol> { Run::new(&Ep::Client(false, PREPS[i]), ch) }
/// Tags that differ from the command's tag, however little, mean nothing.
fn client_tags(kinds: &[&'static str], ch: &mut Ch) -> Out {
    let long = "Tag".repeat(100);
    let own = ["A1", "aB1", "x.2", "q", "10", &long][ch.choose(6)];
    let swap: String = own.chars().map(|c| if c.is_ascii_uppercase() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() }).collect();
    let others = [own.to_string(), own.to_lowercase(), own.to_uppercase(), swap, format!("{own}1"), format!("0{own}"), own[..own.len() - 1].to_string(), own[1..].to_string(), format!("{own}."), "*".to_string(), "A2".to_string(), own.replace('1', "01"), own.chars().rev().collect()];
    let mut lab = ClientLab::new(false);
    fresh(&mut lab, ch)?;
    lab.enqueue(cmd(kinds[ch.choose(kinds.len())], own), ch)?;
    lab.enqueue(cmd("NOOP", "A2"), ch)?;
    lab.drain(ch)?;
    // before or after the first continuation request
    if ch.choose(2) == 1 { lab.feed(b"+ \r\n", ch); lab.drain(ch)?; }
    for _ in 0..2 {
        let t = &others[ch.choose(others.len())];
        if t.is_empty() { continue }
        let k = ["BAD x", "NO x", "OK x", "BAD [ALERT] x"][ch.choose(4)];
        lab.feed(format!("{t} {k}\r\n").as_bytes(), ch);
        lab.drain(ch)?;
    }
    serve(&mut lab, 1, ch)?;
    finish(&mut lab, ch)
}
/// Any messages of any kind in any state of the client.
fn client_messages(all: &[String], second: &[String], ch: &mut Ch) -> Out {
    let mut r = start(ch.choose(PREPS.len()), ch)?;
    let a = &all[ch.choose(all.len())];
    let b = ch.choose(second.len() + 1);
    let together = ch.choose(2) == 1;
    r.feed(a.as_bytes(), ch);
    if !together { r.drain(ch)? }
    if b > 0 { r.feed(second[b - 1].as_bytes(), ch) }
    r.drain(ch)?;
    r.epilogue(ch)
}
/// Any status that carries the command's tag.
fn client_ends(kinds: &[&'static str], ch: &mut Ch) -> Out {
    let mut lab = ClientLab::new(false);
    fresh(&mut lab, ch)?;
    lab.enqueue(cmd(kinds[ch.choose(kinds.len())], "A1"), ch)?;
    lab.enqueue(cmd("NOOP", "A2"), ch)?;
    lab.drain(ch)?;
    let plus = ch.choose(4);
    if plus > 0 { lab.feed(b"+ \r\n", ch); lab.drain(ch)?; }
    if plus > 1 { match lab.spec.cur_kind() { Some((_, 1, true)) => lab.set_auth(AuthenticateData::r#continue(b"zz".to_vec()), ch)?, Some((_, 2, _)) if plus == 2 => { lab.set_done(ch)?; lab.drain(ch)? ; } _ => {} } }
    if plus > 2 { lab.drain(ch)?; }
    let k = ["OK", "NO", "BAD"][ch.choose(3)];
    let c = CODES[ch.choose(CODES.len())];
    let t = ["x", "a {3} [ALERT] text] \"quoted", "+ OK"][ch.choose(3)];
    lab.feed(format!("A1 {k} {c}{t}\r\n").as_bytes(), ch);
    lab.drain(ch)?;
    serve(&mut lab, 1, ch)?;
    finish(&mut lab, ch)
}
/// Messages of exactly `n` bytes, cut around every line end and every literal end.
fn edges(n: usize, shape: usize, server: bool) -> Option<Vec<u8>> {
    let fill = |pre: &[u8], post: &[u8]| -> Option<Vec<u8>> { let k = n.checked_sub(pre.len() + post.len()).filter(|k| *k > 0)?; Some([pre, &text(k), post].concat()) };
    let literal = |pre: &str, plus: &str, post: &[u8]| -> Option<Vec<u8>> {
        // the payload takes what is left
        for d in 1..8 { let k = n.checked_sub(pre.len() + 4 + plus.len() + d + post.len())?; if k.to_string().len() == d { return Some([format!("{pre}{{{k}{plus}}}\r\n").as_bytes(), &blob(k), post].concat()) } }
        None
    };
    match (server, shape) {
        (true, 0) => fill(b"A1 CREATE ", b"\r\n"),
        (true, 1) => literal("A1 CREATE ", "", b"\r\n"),
        (true, 2) => literal("A1 CREATE ", "+", b"\r\n"),
        (true, 3) => fill(b"A1 LOGIN {2}\r\n\r\n ", b"\r\n"),
        (true, 4) => fill(b"", b"\r\n"),
        (true, _) => fill(b"A1 CREATE ", b"\n"),
        (_, 0) => fill(b"* OK ", b"\r\n"),
        (_, 1) => literal("* 1 FETCH (RFC822 ", "", b")\r\n"),
        (_, 2) => fill(b"* 1 FETCH (RFC822 {2}\r\n\r\n RFC822.TEXT \"", b"\")\r\n"),
        (_, 3) => fill(b"A9 NO ", b"\r\n"),
        (_, 4) => fill(b"", b"\r\n"),
        _ => fill(b"* OK ", b"\n"),
    }
}
fn cut_at_edges(max: usize, server: bool, ch: &mut Ch) -> Out {
    let sz = sizes(max);
    let n = sz[ch.choose(sz.len())];
    let before = ch.choose(3);
    let Some(m) = edges(n, ch.choose(6), server) else { return Ok(()) };
    let pre: &[u8] = match (before, server) { (0, _) => b"", (1, true) => b"A0 NOOP\r\n", (1, false) => b"* 1 EXISTS\r\n", (_, true) => b"A0 IDLE\r\nDONE\r\n", _ => b"\r\n" };
    let s = [pre, &m, if server { b"A2 NOOP\r\n" } else { b"* 1 EXISTS\r\n" }].concat();
    // two lines start the message, three end the stream
    let lf: Vec<usize> = (0..s.len()).filter(|i| s[*i] == b'\n').collect();
    let mut cuts: Vec<usize> = lf.iter().take(4).chain(lf.iter().rev().take(3)).flat_map(|i| [i.saturating_sub(1), *i, i + 1, i + 2]).chain([pre.len() + 1, n, n.saturating_sub(1), n + 1]).chain([n / 3, n / 2, n / 2 + 1, n - n / 4, n.saturating_sub(7), n.saturating_sub(20), n.saturating_sub(67)].map(|c| pre.len() + c)).filter(|c| *c > 0 && *c < s.len()).collect();
    cuts.sort();
    cuts.dedup();
    let mut r = Run::new(&if server { Ep::Server(big()) } else { Ep::Client(false, Prep::TwoLiterals) }, ch)?;
    let a = ch.choose(cuts.len() + 1);
    if a == cuts.len() { r.feed(&s, ch); r.drain(ch)? } else {
        r.feed(&s[..cuts[a]], ch);
        r.drain(ch)?;
        let b = a + ch.choose(cuts.len() - a);
        if b > a { r.feed(&s[cuts[a]..cuts[b]], ch); r.drain(ch)? }
        r.feed(&s[cuts[b]..], ch);
        r.drain(ch)?;
    }
    r.epilogue(ch)
}
/// Literals of the largest announced sizes, which never arrive completely.
fn server_huge(ch: &mut Ch) -> Out {
    let n = [u32::MAX, u32::MAX - 1, u32::MAX - 20, 1 << 31, (1 << 31) - 1][ch.choose(5)];
    let p = ["", "+"][ch.choose(2)];
    let mut l = ServerLab::new(SrvOpts { max_cmd: [u32::MAX, 1000][ch.choose(2)], max_lit: u32::MAX, ..SrvOpts::default() });
    l.drain(ch)?;
    l.feed(format!("A1 LOGIN {{{n}{p}}}\r\n").as_bytes(), ch);
    l.drain(ch)?;
    for _ in 0..3 { l.feed(&blob(900), ch); l.drain(ch)?; }
    Ok(())
}
/// A message of any kind while several commands are on their way.
fn client_messages_among_queue(all: &[String], kinds: &[&'static str], ch: &mut Ch) -> Out {
    let mut lab = ClientLab::new(false);
    fresh(&mut lab, ch)?;
    let k = ch.choose(kinds.len());
    let at = ch.choose(4);
    let m = &all[ch.choose(all.len())];
    for i in 0..3 { lab.enqueue(cmd(kinds[(k + i) % kinds.len()], &format!("A{i}")), ch)?; }
    if at == 0 { lab.feed(m.as_bytes(), ch); }
    lab.drain(ch)?;
    if at == 1 { lab.feed(m.as_bytes(), ch); lab.drain(ch)?; }
    if at > 1 { lab.feed(b"+ \r\n", ch); if at == 3 { lab.drain(ch)?; } lab.feed(m.as_bytes(), ch); lab.drain(ch)?; }
    serve(&mut lab, 1, ch)?;
    finish(&mut lab, ch)
}
/// What is no greeting.
const NO_GREETINGS: [&str; 22] = ["* NOPE hi\r\n", "* OK\r\n", "* OK \r\n", "* \r\n", "*\r\n", "\r\n", "+ go\r\n", "+\r\n", "* BAD x\r\n", "* NO x\r\n", "A1 OK x\r\n", "A1 BAD x\r\n", "* CAPABILITY IMAP4REV1\r\n", "* 1 EXISTS\r\n", "* 1 FETCH (RFC822 {3}\r\n", "* OK hi\n", "OK hi\r\n", " * OK hi\r\n", "**OK hi\r\n", "* BYEBYE x\r\n", "* PREAUTHx y\r\n", "* OK [ALERT hi\r\n"];
fn client_no_greetings(n: usize, gs: &[String], ch: &mut Ch) -> Out {
    let mut lab = ClientLab::new(ch.choose(2) == 1);
    if ch.choose(2) == 1 { lab.enqueue(cmd(["NOOP", "LOGIN {1}\r\na x", "IDLE"][ch.choose(3)], "A1"), ch)?; }
    let each = ch.choose(2) == 0;
    for _ in 0..n { let k = ch.choose(NO_GREETINGS.len()); lab.feed(NO_GREETINGS[k].as_bytes(), ch); if each { lab.drain(ch)?; } }
    lab.drain(ch)?;
    lab.feed(gs[ch.choose(gs.len())].as_bytes(), ch);
    lab.drain(ch)?;
    lab.epilogue(ch)
}
fn client_greetings(gs: &[String], ch: &mut Ch) -> Out {
    let mut lab = ClientLab::new(ch.choose(2) == 1);
    let k = ch.choose(COMMANDS.len() + 1);
    if k > 0 { lab.enqueue(cmd(wire(k - 1).0, "A1"), ch)?; }
    lab.drain(ch)?;
    let g = &gs[ch.choose(gs.len())];
    let rest: &[u8] = [&b""[..], b"* 1 EXISTS\r\n", b"A1 OK x\r\n+ y\r\n", b"* OK again\r\n"][ch.choose(4)];
    match ch.choose(2) {
        0 => lab.feed(&[g.as_bytes(), rest].concat(), ch),
        _ => { lab.feed(g.as_bytes(), ch); lab.drain(ch)?; lab.feed(rest, ch) }
    }
    lab.drain(ch)?;
    lab.epilogue(ch)
}
/// Many messages at once, and messages of any size in pieces of any size.
fn client_bulk(max: usize, ch: &mut Ch) -> Out {
    let mut r = start(ch.choose(PREPS.len()), ch)?;
    if ch.choose(2) == 0 {
        let n = COUNTS[ch.choose(COUNTS.len())];
        let what = ch.choose(6);
        let mut s = vec![];
        for i in 0..n { s.extend_from_slice(match what { 0 => b"* 1 EXISTS\r\n", 1 => b"+ x\r\n", 2 => b"bogus\r\n", 3 => b"* 1 FETCH (RFC822 {2}\r\n\r\n)\r\n", 4 => b"A9 BAD x\r\n", _ => [&b"* 1 EXISTS\r\n"[..], b"bogus\r\n", b"\n", b"+ x\r\n", b"* OK [ALERT] x\r\n", b"Q NO x\r\n"][i % 6] }) }
        pieces(&mut r, &s, ch)?;
    } else {
        let sz = sizes(max);
        let n = sz[ch.choose(sz.len())];
        let s = match ch.choose(6) {
            0 => [&b"* 1 FETCH (RFC822 "[..], &lit(n, false), b")\r\n"].concat(),
            1 => [&b"* 1 FETCH (RFC822 "[..], &lit(n, false), b" RFC822.TEXT ", &lit(n, false), b" UID 7)\r\n"].concat(),
            2 => [&b"* OK "[..], &text(n + 1), b"\r\n"].concat(),
            3 => [&b"* SEARCH"[..], &b" 12".repeat(n / 3), b"\r\n"].concat(),
            4 => [&text(n)[..], b"!\r\n"].concat(),
            _ => [&b"* LIST () NIL "[..], &quoted(n), b"\r\n"].concat(),
        };
        pieces(&mut r, &[&s[..], b"* 1 EXISTS\r\n"].concat(), ch)?;
    }
    r.epilogue(ch)
}
/// Delivers in pieces of one size.
fn pieces(r: &mut Run, s: &[u8], ch: &mut Ch) -> Out {
    const P: [usize; 8] = [0, 1, 7, 512, 1460, 4096, 8192, 65_536];
    let p = P[ch.choose(P.len())];
    // Messages are looked at again for every piece.
    let p = if p == 0 { s.len().max(1) } else { p.max(s.len() / if s.len() > 200_000 { 60 } else { 200 }) };
    for c in s.chunks(p) { r.feed(c, ch); r.drain(ch)?; }
    r.drain(ch)
}
/// A large message in few large pieces.
fn large_pieces(max: usize, server: bool, ch: &mut Ch) -> Out {
    let sz: Vec<usize> = sizes(max).into_iter().filter(|n| *n > 1000).collect();
    let n = sz[ch.choose(sz.len())];
    let before = ch.choose(2);
    let Some(m) = edges(n, ch.choose(6), server) else { return Ok(()) };
    let (one, last): (&[u8], &[u8]) = if server { (b"A0 NOOP\r\n", b"A2 NOOP\r\n") } else { (b"* 1 EXISTS\r\n", b"+ x\r\n") };
    let s = [if before == 0 { &b""[..] } else { one }, &m, last].concat();
    let mut r = Run::new(&if server { Ep::Server(big()) } else { Ep::Client(false, Prep::TwoLiterals) }, ch)?;
    let l = s.len();
    let cuts = match ch.choose(12) { 0 => vec![l / 2], 1 => vec![l / 3, l / 3 * 2], 2 => vec![l / 4, l / 2, l / 4 * 3], 3 => vec![l / 8, l / 4], 4 => vec![l / 4 * 3], 5 => vec![l / 5, l / 5 * 2, l / 5 * 3, l / 5 * 4], 6 => vec![10, l / 2], 7 => vec![l / 2, l - 10], 8 => vec![l / 2, l / 2 + 1], 9 => vec![l.saturating_sub(65_536)], 10 => vec![65_536.min(l)], _ => vec![65_535.min(l), 65_537.min(l)] };
    let mut at = 0;
    for c in cuts.iter().chain([&l]) { r.feed(&s[at..*c], ch); r.drain(ch)?; at = *c; }
    r.epilogue(ch)
}
fn big() -> SrvOpts { SrvOpts { max_cmd: 64_000_000, max_lit: 32_000_000, ..SrvOpts::default() } }
fn opts(lit: u32, cmd: u32) -> SrvOpts { SrvOpts { max_cmd: cmd, max_lit: lit, ..SrvOpts::default() } }

fn tagged(k: usize, tag: &str) -> Vec<u8> { format!("{tag} {}\r\n", wire(k).0).into_bytes() }
/// What a client sends around a command of this kind.
fn with_answers(k: usize, tag: &str) -> Vec<u8> {
    let mut s = tagged(k, tag);
    if wire(k).0 == "IDLE" { s.extend(b"DONE\r\n") }
    if wire(k).0.starts_with("AUTH") { s.extend(b"dGVzdA==\r\n") }
    s
}
/// Any commands of any kind, received in one or two pieces.
fn server_kinds(n: usize, o: &SrvOpts, ch: &mut Ch) -> Out {
    let mut s = vec![];
    for i in 0..n { s.extend(with_answers(ch.choose(COMMANDS.len()), ["A1", "x.2", "C3"][i])) }
    let mut r = Run::new(&Ep::Server(o.clone()), ch)?;
    match ch.choose(3) {
        0 => { r.feed(&s, ch); r.drain(ch)? }
        1 => for b in s.chunks(1) { r.feed(b, ch); r.drain(ch)? },
        _ => { r.feed(&s[..s.len() / 2], ch); r.drain(ch)?; r.feed(&s[s.len() / 2..], ch); r.drain(ch)? }
    }
    r.epilogue(ch)
}
/// Any responses of any kind around a command with a literal.
fn server_responses(all: &[String], second: &[String], ch: &mut Ch) -> Out {
    let mut l = ServerLab::new(SrvOpts::default());
    let a = response(&all[ch.choose(all.len())]);
    let b = ch.choose(second.len() + 1);
    let order = ch.choose(4);
    if order != 1 { l.drain(ch)?; }
    l.enqueue(a, ch)?;
    if order == 2 { l.feed(b"A1 LOGIN {1}\r\n", ch); l.next(ch)?; }
    if order == 3 { l.next(ch)?; l.feed(b"A1 LOGIN {501}\r\n", ch) }
    if b > 0 { l.enqueue(response(&second[b - 1]), ch)? }
    l.drain(ch)?;
    if order == 2 { l.feed(b"a x\r\n", ch) }
    l.drain(ch)?;
    l.epilogue(ch)
}
fn server_bulk(max: usize, ch: &mut Ch) -> Out {
    let mut r = Run::new(&Ep::Server(big()), ch)?;
    if ch.choose(2) == 0 {
        let n = COUNTS[ch.choose(COUNTS.len())];
        let what = ch.choose(8);
        let mut s = vec![];
        for i in 0..n {
            let t = format!("A{i}");
            match what {
                0 => s.extend(tagged(0, &t)),
                1 => s.extend(format!("{t} LOGIN {{1}}\r\na {{2}}\r\n\r\n\r\n").bytes()),
                2 => s.extend(b"bogus\r\n"),
                3 => s.extend(format!("{t} IDLE\r\nDONE\r\n").bytes()),
                4 => s.extend(format!("{t} AUTHENTICATE PLAIN\r\nAHgA\r\n").bytes()),
                5 => s.extend(format!("{t} LOGIN {{1}}\r\na {{99999999}}\r\n").bytes()),
                6 => s.extend(format!("{t} NOOP\n").bytes()),
                _ => s.extend(with_answers(i % COMMANDS.len(), &t)),
            }
        }
        pieces(&mut r, &s, ch)?;
    } else {
        let sz = sizes(max);
        let n = sz[ch.choose(sz.len())];
        let s = match ch.choose(SHAPES + 3) {
            k if k < SHAPES => sized(k, n, "A1"),
            k if k == SHAPES => [&text(n)[..], b"!\r\n"].concat(),
            k if k == SHAPES + 1 => [b"A1 AUTHENTICATE PLAIN\r\n", b64(&blob(n)).as_bytes(), b"\r\n"].concat(),
            _ => [&b"A1 IDLE\r\n"[..], &text(n), b"\r\nDONE\r\n"].concat(),
        };
        pieces(&mut r, &[&s[..], b"A2 NOOP\r\n"].concat(), ch)?;
    }
    r.epilogue(ch)
}
/// Messages with one thing wrong: a byte more, less or changed, or two swapped, anywhere in them.
fn typos(ep: &Ep, all: &[(Vec<u8>, Vec<u8>)], ch: &mut Ch) -> Out {
    const B: &[u8] = b"\r\n 09{}+\"\\()*%[]=-.,/Az\0\x7f\xff";
    let (pre, m) = &all[ch.choose_big(all.len())];
    let mut m = m.clone();
    let i = ch.choose_big(m.len());
    match ch.choose(2 * B.len() + 5) {
        0 => { m.remove(i); }
        1 => { if i + 1 == m.len() || m[i] == m[i + 1] { return Ok(()) } m.swap(i, i + 1) }
        2 => { let b = m[i]; m.insert(i, b) }
        3 => { m.drain(i..(i + 2).min(m.len())); }
        4 => { if !m[i].is_ascii_alphabetic() { return Ok(()) } m[i] ^= 0x20 }
        k if k < 5 + B.len() => { let b = B[k - 5]; if m[i] == b { return Ok(()) } m[i] = b }
        k => m.insert(i, B[k - 5 - B.len()]),
    }
    let mut r = Run::new(ep, ch)?;
    r.feed(pre, ch);
    r.drain(ch)?;
    let last: &[u8] = if matches!(ep, Ep::Server(_)) { b"\r\nA9 NOOP\r\n" } else { b"\r\n* 7 EXISTS\r\n" };
    match ch.choose(2) { 0 => r.feed(&[&m[..], last].concat(), ch), _ => { r.feed(&m, ch); r.drain(ch)?; r.feed(last, ch) } }
    r.drain(ch)?;
    r.epilogue(ch)
}
fn server_typos(v: &mut Vec<Scenario>, relaxed: bool, modes: &[&str]) {
    let p = |a: &str, b: &[u8]| (a.as_bytes().to_vec(), b.to_vec());
    for m in modes {
        let all: Vec<(Vec<u8>, Vec<u8>)> = match *m {
            "command" => (0..COMMANDS.len()).map(|k| p("", &with_answers(k, "A1"))).collect(),
            "auth" => ["AHgA\r\n", "*\r\n", "\r\n", "dGVzdA==\r\n", "YWI=\r\n"].iter().map(|d| p("A1 AUTHENTICATE PLAIN\r\n", d.as_bytes())).collect(),
            _ => ["DONE\r\n", "done\r\n"].iter().map(|d| p("A1 IDLE\r\n", d.as_bytes())).collect(),
        };
        let ep = Ep::Server(SrvOpts { relaxed, ..opts(30, 300) });
        add(v, format!("server-{m}-typos-relaxed-{relaxed}"), 0, move |ch| typos(&ep, &all, ch));
    }
}
fn client_typos(v: &mut Vec<Scenario>, preps: &[Prep]) {
    for prep in preps {
        let all: Vec<(Vec<u8>, Vec<u8>)> = if *prep == Prep::Fresh { greetings().iter().map(|g| (vec![], g.clone().into_bytes())).collect() }
            else { response_streams().into_iter().map(|s| (vec![], s)).chain([&b"+ idling\r\n"[..], b"A1 OK done\r\n", b"A1 BAD [ALERT] no\r\n", b"A1 NO x\r\n"].iter().map(|s| (vec![], s.to_vec()))).collect() };
        let ep = Ep::Client(false, *prep);
        add(v, format!("client-{prep:?}-typos"), 0, move |ch| typos(&ep, &all, ch));
    }
}
/// The size limit is next to the size of the command.
fn around_limit(ch: &mut Ch) -> Out {
    let s = with_answers(ch.choose(COMMANDS.len()), "A1");
    let d = ch.choose(7);
    let o = opts(1000, (s.len() + d).saturating_sub(3).max(9) as u32);
    let mut r = Run::new(&Ep::Server(o), ch)?;
    let s = [&s[..], b"A2 NOOP\r\nA3 LOGIN {1}\r\nx y\r\n"].concat();
    pieces(&mut r, &s, ch)?;
    r.epilogue(ch)
}
/// Many or large responses.
fn server_queue(max: usize, all: &[String], ch: &mut Ch) -> Out {
    let mut l = ServerLab::new(big());
    if ch.choose(2) == 1 { l.drain(ch)?; }
    if ch.choose(2) == 0 {
        let n = COUNTS[ch.choose(COUNTS.len())];
        let what = ch.choose(4);
        let every = [0, 2, 7][ch.choose(3)];
        for i in 0..n {
            let r = match what { 0 => "* 1 EXISTS\r\n", 1 => "A7 OK x\r\n", 2 => "+ x\r\n", _ => &all[i % all.len()] };
            l.enqueue(response(r), ch)?;
            if every > 0 && i % every == 0 { l.next(ch)?; }
            if every == 7 && i % 5 == 0 { l.feed(format!("A{i} LOGIN {{1}}\r\na {{1+}}\r\nb\r\n").as_bytes(), ch) }
        }
    } else {
        let sz = sizes(max);
        let n = sz[ch.choose(sz.len())];
        let s = match ch.choose(5) {
            0 => [&b"* 1 FETCH (RFC822 "[..], &lit(n, false), b")\r\n"].concat(),
            1 => [&b"* 1 FETCH (RFC822 "[..], &lit(n, true), b" RFC822.TEXT ", &lit(n, false), b" UID 7)\r\n"].concat(),
            2 => [&b"* OK "[..], &text(n + 1), b"\r\n"].concat(),
            3 => [&b"+ "[..], &text(n), b" x\r\n"].concat(),
            _ => [&b"* LIST () NIL "[..], &quoted(n), b"\r\n"].concat(),
        };
        for _ in 0..2 { l.enqueue(match dec_response(&s) { Dec::Msg(m) => imap_types::bounded_static::IntoBoundedStatic::into_static(m), _ => panic!("MC-ENGINE response") }, ch)?; }
        l.feed(b"A1 LOGIN {1}\r\na x\r\n", ch);
    }
    l.drain(ch)?;
    l.epilogue(ch)
}
/// Literal and command limits of any magnitude, and commands around them.
fn server_limits(max: usize, literal: bool, ch: &mut Ch) -> Out {
    let sz: Vec<usize> = sizes(max).into_iter().filter(|n| *n >= 60).collect();
    let lim = sz[ch.choose(sz.len())];
    let d = ch.choose(5);
    let (o, s) = if literal {
        let o = opts(lim as u32, u32::MAX);
        let n = lim + d - 2;
        let shape = ch.choose(4);
        let mut s = match shape { 0 => format!("A1 LOGIN {{{n}}}\r\n"), 1 => format!("A1 LOGIN {{3}}\r\nabc {{{n}}}\r\n"), 2 => format!("A1 APPEND x (\\Seen) {{{n}}}\r\n"), _ => format!("A1 CREATE {{{n}+}}\r\n") }.into_bytes();
        if n <= lim { s.extend(blob(n)); s.extend_from_slice(if shape == 0 { b" x\r\n" } else { b"\r\n" }) }
        else if shape == 3 { return Ok(()) }
        (o, s)
    } else {
        let n = lim + d - 2;
        let body = n.saturating_sub(20);
        let fill = |pre: &[u8]| { let k = n - pre.len() - 2; [pre, &text(k), b"\r\n"].concat() };
        let s = match ch.choose(7) {
            0 => fill(b"A1 LOGIN x "),
            1 => fill(b"A1 CREATE {3+}\r\nabc\r\nA2 LOGIN x "),
            2 => { let k = n - 14 - (body - 20).to_string().len(); let _ = k; let mut p = format!("A1 LOGIN {{{}+}}\r\n", body - 20).into_bytes(); p.extend(blob(body - 20)); p.push(b' '); let k = n - p.len() - 2; p.extend(text(k)); p.extend(b"\r\n"); p }
            3 => [&b"A1 AUTHENTICATE PLAIN\r\n"[..], &vec![b'A'; n - 2], b"\r\n"].concat(),
            4 => [&b"A1 IDLE\r\n"[..], &vec![b'D'; n - 2], b"\r\nDONE\r\n"].concat(),
            5 => vec![b'z'; n],
            _ => [&b"A1 CREATE "[..], format!("{{{}}}\r\n", n).as_bytes(), &text(n), b"\r\n"].concat(),
        };
        (opts(max as u32 * 2, lim as u32), s)
    };
    let mut r = Run::new(&Ep::Server(o), ch)?;
    pieces(&mut r, &[&s[..], b"A9 NOOP\r\n"].concat(), ch)?;
    r.epilogue(ch)
}
/// Any answer to AUTHENTICATE or IDLE, and initial responses and authentication data of any size.
fn server_replies(sts: &[String], ccs: &[String], ch: &mut Ch) -> Out {
    let mut l = ServerLab::new(big());
    l.drain(ch)?;
    let ok = ch.choose_big(sts.len() * 2 + ccs.len());
    let st = |i: usize| status(&sts[i % sts.len()]);
    let cc = |i: usize| ccr(&ccs[i % ccs.len()]);
    let early = ch.choose(2) == 1;
    if ch.choose(2) == 0 {
        l.feed(if early { b"A1 AUTHENTICATE PLAIN\r\nAHgA\r\nA2 NOOP\r\n" } else { b"A1 AUTHENTICATE PLAIN\r\n" }, ch);
        l.drain(ch)?;
        if ok < ccs.len() { l.reply(&Reply::AuthContinue(cc(ok)), ch)? } else { l.reply(&Reply::AuthFinish(st(ok - ccs.len())), ch)? }
        if !early { l.feed(b"AHgA\r\nA2 NOOP\r\n", ch) }
        l.drain(ch)?;
        l.reply(&Reply::IdleReject(st(ok)), ch)?;
        l.reply(&Reply::AuthFinish(st(ok)), ch)?;
    } else {
        l.feed(if early { b"A1 IDLE\r\nDONE\r\nA2 NOOP\r\n" } else { b"A1 IDLE\r\n" }, ch);
        l.drain(ch)?;
        if ok < ccs.len() { l.reply(&Reply::IdleAccept(cc(ok)), ch)? } else { l.reply(&Reply::IdleReject(st(ok - ccs.len())), ch)? }
        if !early { l.feed(b"DONE\r\nA2 NOOP\r\n", ch) }
        l.drain(ch)?;
        l.reply(&Reply::AuthContinue(cc(ok)), ch)?;
        l.reply(&Reply::IdleReject(st(ok)), ch)?;
    }
    l.drain(ch)?;
    l.epilogue(ch)
}
fn server_auth_sizes(max: usize, ch: &mut Ch) -> Out {
    let sz = sizes(max);
    let n = sz[ch.choose(sz.len())];
    let ir = b64(&blob(n));
    let mech = ["PLAIN", "LOGIN", "XOAUTH2", "SCRAM-SHA-256", "X-OTHER"][ch.choose(5)];
    let mut l = ServerLab::new(big());
    l.drain(ch)?;
    let s = match ch.choose(3) { 0 => format!("A1 AUTHENTICATE {mech} {}\r\n", if ir.is_empty() { "=" } else { &ir }), 1 => format!("A1 AUTHENTICATE {mech}\r\n{ir}\r\n"), _ => format!("A1 AUTHENTICATE {mech} AAAA\r\n{ir}\r\n*\r\n{ir}\r\n") };
    l.feed(s.as_bytes(), ch);
    l.drain(ch)?;
    l.reply(&Reply::AuthContinue(ccr("+ \r\n")), ch)?;
    l.feed(b"AHgA\r\n", ch);
    l.drain(ch)?;
    l.reply(&Reply::AuthFinish(status("A1 OK z\r\n")), ch)?;
    l.epilogue(ch)
}
/// A literal larger than the limit is refused whatever its size, the limit and its place.
fn server_announcements(ch: &mut Ch) -> Out {
    let sz: Vec<u64> = { let mut v: Vec<u64> = (0..=32).flat_map(|k| { let p = 1u64 << k; [p - 1, p, p + 1, p + p / 2] }).chain([10, 100, 999, 1_000_000, 99_999_999]).filter(|n| *n <= u32::MAX as u64).collect(); v.sort(); v.dedup(); v };
    let lim = sz[ch.choose(sz.len())];
    let n = sz[ch.choose_big(sz.len())];
    if n <= lim { return Ok(()) }
    let plus = ch.choose(2) == 1;
    let p = if plus { "+" } else { "" };
    let s = match ch.choose(6) { 5 => format!("{}.x LOGIN {{{n}{p}}}\r\n", "Tag".repeat(40)), 0 => format!("A1 LOGIN {{{n}{p}}}\r\n"), 1 => format!("tag.2 LOGIN {{0}}\r\n {{{n}{p}}}\r\n"), 2 => format!("A1 APPEND x (\\Seen) {{{n}{p}}}\r\n"), 3 => format!("Z9 CREATE {{{n}{p}}}\r\n"), _ => format!("A2 NOOP\r\nA1 LOGIN {{0+}}\r\n {{{n}{p}}}\r\n") };
    let mut l = ServerLab::new(opts(lim as u32, u32::MAX));
    l.drain(ch)?;
    let busy = ch.choose(2) == 1;
    if busy { for _ in 0..3 { l.enqueue(response("* 1 EXISTS\r\n"), ch)? } }
    l.feed(s.as_bytes(), ch);
    l.drain(ch)?;
    if !plus { l.feed(b"A7 NOOP\r\n", ch); l.drain(ch)?; l.epilogue(ch)? }
    Ok(())
}
/// Any AUTHENTICATE or IDLE exchange, repeated.
fn server_dialogs(ch: &mut Ch) -> Out {
    let mut l = ServerLab::new(big());
    l.drain(ch)?;
    let n = COUNTS[ch.choose(COUNTS.len())];
    match ch.choose(4) {
        0 => {
            l.feed(b"A1 AUTHENTICATE X-ANY\r\n", ch);
            l.drain(ch)?;
            for i in 0..n { l.reply(&Reply::AuthContinue(ccr(["+ \r\n", "+ Zm9v\r\n", "+ text\r\n"][i % 3])), ch)?; l.drain(ch)?; l.feed([&b"AHgA\r\n"[..], b"\r\n", b"*\r\n", b"!!\r\n"][i % 4], ch); l.drain(ch)?; }
            l.reply(&Reply::IdleAccept(ccr("+ i\r\n")), ch)?;
            l.reply(&Reply::AuthFinish(status("A1 OK z\r\n")), ch)?;
            l.reply(&Reply::AuthFinish(status("A1 OK z\r\n")), ch)?;
        }
        1 => for i in 0..n {
            l.feed(format!("A{i} IDLE\r\n").as_bytes(), ch);
            l.drain(ch)?;
            l.reply(&Reply::AuthContinue(ccr("+ \r\n")), ch)?;
            if i % 3 == 2 { l.reply(&Reply::IdleReject(status(&format!("A{i} NO z\r\n"))), ch)? } else { l.reply(&Reply::IdleAccept(ccr("+ i\r\n")), ch)?; l.enqueue(response("* 1 EXISTS\r\n"), ch)?; l.feed(b"DONE\r\n", ch) }
            l.reply(&Reply::IdleAccept(ccr("+ again\r\n")), ch)?;
            l.drain(ch)?;
        },
        2 => {
            // everything else arrives while the user has not answered yet
            l.feed(b"A1 IDLE\r\n", ch);
            l.drain(ch)?;
            for i in 0..n { l.feed(format!("A{i} NOOP\r\n").as_bytes(), ch); l.drain(ch)?; }
            l.reply(&Reply::IdleReject(status("A1 NO z\r\n")), ch)?;
        }
        _ => for i in 0..n {
            l.feed(format!("A{i} AUTHENTICATE PLAIN\r\nAHgA\r\nB{i} NOOP\r\n").as_bytes(), ch);
            l.drain(ch)?;
            l.reply(&Reply::AuthFinish(status(&format!("A{i} OK z\r\n"))), ch)?;
            if i % 2 == 0 { l.drain(ch)?; }
        },
    }
    l.drain(ch)?;
    l.epilogue(ch)
}

fn streams(all: Vec<Vec<u8>>, ep: Ep, cuts: Cuts) -> impl Fn(&mut Ch) -> Out + Send + Sync { move |ch| { let i = ch.choose_big(all.len()); seg_run(&ep, &all[i], cuts, ch) } }
fn command_streams() -> Vec<Vec<u8>> { (0..COMMANDS.len()).map(|k| [&with_answers(k, "A1")[..], b"A2 NOOP\r\n"].concat()).collect() }
fn response_streams() -> Vec<Vec<u8>> { responses().iter().map(|r| format!("{r}* 1 EXISTS\r\n").into_bytes()).collect() }
/// Every line end of every message as CRLF or LF.
fn eols(all: Vec<Vec<u8>>) -> Vec<Vec<u8>> {
    let mut v = vec![];
    for s in all {
        let at: Vec<usize> = (0..s.len() - 1).filter(|i| &s[*i..*i + 2] == b"\r\n").collect();
        if at.len() > 7 { continue }
        for m in 1..1usize << at.len() { v.push((0..s.len()).filter(|i| !at.iter().enumerate().any(|(b, p)| m >> b & 1 == 1 && p == i)).map(|i| s[i]).collect()); }
    }
    v
}
fn compose(v: &mut Vec<Scenario>, thorough: bool) {
    let base = Script { opts: SrvOpts { max_cmd: 64_000_000, max_lit: 6, ..SrvOpts::default() }, cmds: vec![], unsolicited: vec![], sizes: vec![0], idle_accept: true, auth_rounds: 1, prune: false, fixed: true };
    let all: Vec<&'static str> = responses().into_iter().filter(|r| !r.starts_with("+ ")).map(|r| &*Box::leak(r.into_boxed_str())).collect();
    let (b, a) = (base.clone(), all.clone());
    let n = 2 + thorough as usize;
    add(v, format!("any-{n}-commands"), 0, move |ch| {
        let mut s = b.clone();
        for _ in 0..n { s.cmds.push(wire(ch.choose(COMMANDS.len())).0) }
        s.sizes = vec![[0, 1, 5][ch.choose(3)]];
        s.idle_accept = ch.choose(2) == 0;
        s.unsolicited.push("* 1 EXISTS\r\n");
        compose_run(&s, ch)
    });
    let b = base.clone();
    add(v, "any-response-any-command", 0, move |ch| {
        let mut s = b.clone();
        s.cmds = vec![wire(ch.choose(COMMANDS.len())).0, "NOOP"];
        let i = ch.choose(a.len());
        s.unsolicited = vec![a[i], a[(i * 7 + 3) % a.len()]];
        s.sizes = vec![[0, 3][ch.choose(2)]];
        compose_run(&s, ch)
    });
    let many: Vec<&'static str> = (0..600).map(|i| wire(i % COMMANDS.len()).0).collect();
    let b = base.clone();
    add(v, "long", 0, move |ch| {
        let n = COUNTS[ch.choose(COUNTS.len())];
        let mut s = b.clone();
        let k = ch.choose(COMMANDS.len() + 1);
        s.cmds = if k == 0 { many[..n].to_vec() } else { vec![wire(k - 1).0; n] };
        s.unsolicited = (0..n).map(|i| all[i % all.len()]).collect();
        s.sizes = vec![[0, 100][ch.choose(2)]];
        s.auth_rounds = ch.choose(2);
        compose_run(&s, ch)
    });
    let sz = sizes(if thorough { 1 << 22 } else { 1 << 17 });
    let big: Vec<(usize, &'static str, &'static str)> = sz.iter().flat_map(|n| (0..SHAPES).map(move |k| {
        let s = sized(k, *n, "X");
        let c = String::from_utf8(s[2..s.len() - 2].to_vec()).unwrap();
        let r = [&b"* 1 FETCH (RFC822 "[..], &lit(*n, false), b")\r\n"].concat();
        (*n, &*Box::leak(c.into_boxed_str()), &*Box::leak(String::from_utf8(r).unwrap().into_boxed_str()))
    })).collect();
    add(v, "large", 0, move |ch| {
        let (n, c, r) = big[ch.choose(big.len())];
        let mut s = base.clone();
        s.opts.max_lit = [32_000_000, n as u32, n.saturating_sub(1) as u32][ch.choose(3)];
        if c.contains("+}\r\n") && n > s.opts.max_lit as usize { return Ok(()) }
        s.cmds = vec![c, "NOOP"];
        s.unsolicited = vec![r, "* 1 EXISTS\r\n"];
        s.sizes = vec![[0, (n / 50).max(1000)][ch.choose(2)]];
        compose_run(&s, ch)
    });
}

pub fn scenarios(prop: &str, thorough: bool, v: &mut Vec<Scenario>) {
    let t = thorough as usize;
    let max = if thorough { 1 << 24 } else { 1 << 20 };
    let small = if thorough { 1 << 18 } else { 1 << 14 };
    let mid = if thorough { 1 << 20 } else { 1 << 17 };
    let d = 1 + t as u32;
    match prop {
        "C01" | "C02" | "C03" | "C06" => {
            add(v, "any-two-commands", d, |ch| client_kinds(2, ch));
            if thorough || prop == "C01" { add(v, "any-three-commands", 0, |ch| client_kinds(3, ch)); }
            add(v, "long-queues", t as u32, client_queue);
            add(v, "very-long", 0, client_very_long);
            add(v, "sizes", t as u32, move |ch| client_sizes(max, ch));
            add(v, "many-literals", 0, client_many_literals);
            let all = responses();
            add(v, "any-message-among-queued-commands", 0, move |ch| client_messages_among_queue(&all, &["LOGIN {1}\r\na {1}\r\nb", "NOOP", "IDLE", "AUTHENTICATE PLAIN", "LOGIN {1}\r\na {1+}\r\nb"], ch));
            add(v, "any-ending", 0, move |ch| client_ends(&["LOGIN {1}\r\na {1}\r\nb", "AUTHENTICATE PLAIN", "IDLE", "AUTHENTICATE PLAIN ="], ch));
            if prop != "C01" { add(v, "other-tags", 0, |ch| client_tags(&["LOGIN {1}\r\na x", "LOGIN {1}\r\na {1}\r\nb", "CREATE {0}\r\n"], ch)); }
        }
        "C04" | "C05" => {
            add(v, "any-two-commands", d, |ch| client_kinds(2, ch));
            add(v, "long-dialogs", 1, move |ch| client_dialogs(mid, ch));
            let all = responses();
            add(v, "any-message-among-queued-commands", 0, move |ch| client_messages_among_queue(&all, &["AUTHENTICATE PLAIN", "NOOP", "IDLE", "LOGIN {1}\r\na x"], ch));
            let kind: &'static [&'static str] = if prop == "C04" { &["AUTHENTICATE PLAIN", "AUTHENTICATE X-ANY dGVzdA=="] } else { &["IDLE"] };
            add(v, "other-tags", 0, move |ch| client_tags(kind, ch));
            add(v, "any-ending", 0, move |ch| client_ends(kind, ch));
        }
        "C07" => {
            add(v, "client-cut-at-edges", 0, move |ch| cut_at_edges(small, false, ch));
            let all = responses();
            let second: Vec<String> = if thorough { all.clone() } else { all.iter().step_by(3).cloned().collect() };
            add(v, "any-two-messages", 0, move |ch| client_messages(&all, &second, ch));
            add(v, "bulk", 0, move |ch| client_bulk(mid, ch));
            add(v, "large-pieces", 0, move |ch| large_pieces(max, false, ch));
            add(v, "very-many", 0, client_very_many);
            client_typos(v, &[Prep::Greeted, Prep::SyncLiteral, Prep::Auth, Prep::Idle]);
        }
        "C08" => {
            let gs = greetings();
            let g: Vec<String> = gs.iter().step_by(5).cloned().collect();
            add(v, "no-greeting-first", 0, move |ch| client_no_greetings(1 + t, &g, ch));
            add(v, "no-greetings-first", 0, move |ch| client_no_greetings(2 + t, &["* OK hi\r\n".into(), "* PREAUTH [ALERT] hi\r\n".into()], ch));
            add(v, "any-greeting", 0, move |ch| client_greetings(&gs, ch));
            add(v, "any-command-early", 0, |ch| client_kinds(2, ch));
            client_typos(v, &[Prep::Fresh]);
            add(v, "long-queues", 0, client_queue);
        }
        "F01" => {
            add(v, "client-cut-at-edges", 0, move |ch| cut_at_edges(small, false, ch));
            add(v, "server-cut-at-edges", 0, move |ch| cut_at_edges(small, true, ch));
            add(v, "server-any-command-cut", 0, streams(command_streams(), Ep::Server(big()), Cuts::UpTo(1 + t)));
            add(v, "server-any-command-bytewise", 0, streams(command_streams(), Ep::Server(big()), Cuts::Bytewise));
            add(v, "client-any-response-cut", 0, streams(response_streams(), Ep::Client(false, Prep::TwoLiterals), Cuts::UpTo(1 + t)));
            add(v, "client-any-response-bytewise", 0, streams(response_streams(), Ep::Client(false, Prep::Greeted), Cuts::Bytewise));
            add(v, "client-any-greeting-cut", 0, streams(greetings().iter().map(|g| format!("{g}* 1 EXISTS\r\n").into_bytes()).collect(), Ep::Client(false, Prep::Fresh), Cuts::UpTo(1 + t)));
            add(v, "client-bulk", 0, move |ch| client_bulk(mid, ch));
            add(v, "server-bulk", 0, move |ch| server_bulk(mid, ch));
            add(v, "client-large-pieces", 0, move |ch| large_pieces(max, false, ch));
            add(v, "server-large-pieces", 0, move |ch| large_pieces(max, true, ch));
            add(v, "server-pipeline-small-limits", 0, |ch| server_pipeline(&COUNTS, ch));
        }
        "F02" => {
            server_typos(v, true, &["command", "auth", "idle"]);
            for relaxed in [false, true] {
                add(v, format!("server-any-command-any-line-ends-relaxed-{relaxed}"), 0, streams(eols(command_streams()), Ep::Server(SrvOpts { relaxed, ..big() }), Cuts::UpTo(1)));
                add(v, format!("client-any-response-any-line-ends-relaxed-{relaxed}"), 0, streams(eols(response_streams()), Ep::Client(relaxed, Prep::SyncLiteral), Cuts::UpTo(1)));
                add(v, format!("client-any-greeting-any-line-ends-relaxed-{relaxed}"), 0, streams(eols(greetings().iter().map(|g| format!("{g}* 1 EXISTS\r\n").into_bytes()).collect()), Ep::Client(relaxed, Prep::Fresh), Cuts::UpTo(1)));
            }
        }
        "F03" | "F04" => {
            add(v, "client-cut-at-edges", 0, move |ch| cut_at_edges(small, false, ch));
            add(v, "server-cut-at-edges", 0, move |ch| cut_at_edges(small, true, ch));
            add(v, "client-bulk", 0, move |ch| client_bulk(max, ch));
            add(v, "server-bulk", 0, move |ch| server_bulk(max, ch));
            add(v, "server-any-three-commands", 0, |ch| server_kinds(3, &big(), ch));
            if prop == "F03" {
                add(v, "server-any-command-around-limit", 0, around_limit);
                add(v, "server-limits", 0, move |ch| server_limits(small, false, ch));
                add(v, "server-pipeline-small-limits", 0, |ch| server_pipeline(&COUNTS, ch));
                server_typos(v, false, &["command", "auth", "idle"]);
                client_typos(v, &[Prep::Fresh, Prep::Greeted, Prep::TwoLiterals]);
            }
        }
        "S01" => {
            let all = responses();
            let second: Vec<String> = if thorough { all.clone() } else { all.iter().step_by(3).cloned().collect() };
            let a = all.clone();
            add(v, "any-two-responses", 0, move |ch| server_responses(&a, &second, ch));
            add(v, "queues", 0, move |ch| server_queue(max, &all, ch));
            add(v, "very-long", 0, server_very_long);
            let gs = greetings();
            add(v, "any-greeting", 0, move |ch| { let mut l = ServerLab::with_greeting(SrvOpts::default(), greeting(&gs[ch.choose(gs.len())])); if ch.choose(2) == 1 { l.enqueue(response("* 1 EXISTS\r\n"), ch)?; l.feed(b"A1 LOGIN {1}\r\n", ch) } l.drain(ch)?; l.epilogue(ch) });
        }
        "S02" => {
            add(v, "cut-at-edges", 0, move |ch| cut_at_edges(small, true, ch));
            add(v, "any-two-commands", 0, |ch| server_kinds(2, &big(), ch));
            add(v, "bulk", 0, move |ch| server_bulk(mid, ch));
            add(v, "many-literals", 0, |ch| { let mut r = Run::new(&Ep::Server(big()), ch)?; let s = [&many_literals(COUNTS[ch.choose(COUNTS.len())], ch.choose(4), "A1")[..], b"A2 NOOP\r\n"].concat(); pieces(&mut r, &s, ch)?; r.epilogue(ch) });
        }
        "S03" => {
            // Small limits meet the literals of every kind of command.
            add(v, "any-two-commands-small-limit", 0, |ch| { let l = ch.choose(9) as u32; server_kinds(2, &opts(l, 100_000), ch) });
            add(v, "limits", 0, move |ch| server_limits(max, true, ch));
            add(v, "announcements", 0, server_announcements);
        }
        "S04" => {
            add(v, "any-command-around-limit", 0, around_limit);
            add(v, "limits", 0, move |ch| server_limits(max, false, ch));
            add(v, "pipeline-small-limits", 0, |ch| server_pipeline(&COUNTS, ch));
        }
        "S05" | "S06" => {
            add(v, "any-two-commands", 0, |ch| server_kinds(2, &big(), ch));
            add(v, "long-dialogs", 0, server_dialogs);
            let sts: Vec<String> = responses().into_iter().filter(|r| !r.starts_with('+') && ["OK ", "NO ", "BAD ", "BYE "].iter().any(|k| r.split_once(' ').unwrap().1.starts_with(k))).collect();
            let ccs = continuations();
            add(v, "any-reply", 0, move |ch| server_replies(&sts, &ccs, ch));
            server_typos(v, false, if prop == "S05" { &["auth"] } else { &["idle"] });
            if prop == "S05" { add(v, "sizes", 0, move |ch| server_auth_sizes(mid, ch)) }
        }
        "S07" => {
            add(v, "cut-at-edges", 0, move |ch| cut_at_edges(small, true, ch));
            add(v, "any-three-commands", 0, |ch| server_kinds(3, &big(), ch));
            add(v, "bulk", 0, move |ch| server_bulk(max, ch));
            add(v, "large-pieces", 0, move |ch| large_pieces(max, true, ch));
            add(v, "long-dialogs", 0, server_dialogs);
            add(v, "pipeline-small-limits", 0, |ch| server_pipeline(&COUNTS, ch));
            add(v, "very-long-pipeline", 0, |ch| server_pipeline(&MANY, ch));
        }
        "X01" => compose(v, thorough),
        "L01" => {
            add(v, "client-cut-at-edges", 0, move |ch| cut_at_edges(small, false, ch));
            add(v, "server-cut-at-edges", 0, move |ch| cut_at_edges(small, true, ch));
            add(v, "server-huge-literals", 0, server_huge);
            add(v, "client-large-pieces", 0, move |ch| large_pieces(mid, false, ch));
            add(v, "server-large-pieces", 0, move |ch| large_pieces(mid, true, ch));
            let all = responses();
            add(v, "server-queues", 0, move |ch| server_queue(mid, &all, ch));
            add(v, "client-bulk", 0, move |ch| client_bulk(mid, ch));
            add(v, "server-bulk", 0, move |ch| server_bulk(mid, ch));
            add(v, "client-any-two-commands", 1, |ch| client_kinds(2, ch));
            add(v, "client-long-queues", 0, client_queue);
            add(v, "client-long-dialogs", 0, move |ch| client_dialogs(mid, ch));
            add(v, "server-long-dialogs", 0, server_dialogs);
            add(v, "server-any-two-commands", 0, |ch| server_kinds(2, &opts(3, 30), ch));
            add(v, "client-very-long", 0, client_very_long);
            add(v, "client-very-many", 0, client_very_many);
            add(v, "server-very-long", 0, server_very_long);
            add(v, "server-very-long-pipeline", 0, |ch| server_pipeline(&MANY, ch));
        }
        _ => {}
    }
}
