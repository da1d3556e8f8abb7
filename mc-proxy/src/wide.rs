//! Long and large conversations: many messages, many steps, messages of every size next to a power of two.
use mc_engine::Ch;

use crate::lists::Who;
use crate::script::{C, V};
use crate::sess::{Act, Rest, Spec, When};
use mc_engine::kinds::*;

pub fn counts(big: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (1..=20).collect();
    v.extend([31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300]);
    if big { v.extend([511, 512, 513, 1000, 1025]) }
    v
}
pub fn sizes(max: u32) -> Vec<usize> { (3..=max).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1]).chain([0, 1, 2, 3, 10, 100, 1000, 10_000, 50_000]).collect() }
fn text(n: usize) -> String { (0..n).map(|i| (b'a' + (i % 26 + i / 26 % 7) as u8 % 26) as char).collect() }
/// Payload with line ends and braces.
fn payload(n: usize) -> String { (0..n).map(|i| match i % 37 { 30 => '\r', 31 => '\n', 32 => '{', 33 => '}', _ => (b'a' + (i % 26) as u8) as char }).collect() }

/// `n` commands of one kind; the client sends everything at once or waits for each answer; the server answers at once or at the end.
pub fn queue(p: &'static str, n: usize, ch: &mut Ch) -> Option<Spec> {
    let wait = ch.choose(2) == 1;
    let late = ch.choose(2) == 1;
    let kind = ch.choose(6);
    if wait && late { return None }
    let (mut c, mut v) = (C::greeted(), V::ok());
    let (mut units, mut back) = (0, 1);
    let mut answers = vec![];
    for i in 0..n {
        let t = match kind {
            0 => format!("a{i} NOOP\r\n"),
            1 => format!("a{i} CREATE \"box {i}\"\r\n"),
            2 => format!("a{i} CREATE {{{}}}\r\n{}\r\n", 1 + i % 9, text(1 + i % 9)),
            3 => format!("a{i} LOGIN {{{}+}}\r\n{} x{i}\r\n", i % 5, text(i % 5)),
            // the same bytes every time
            4 => "a NOOP\r\n".into(),
            _ => format!("a{i} {}\r\n", ["NOOP", "CAPABILITY", "SELECT x", "CHECK", "EXPUNGE", "LOGOUT"][i % 6]),
        };
        if wait && i > 0 { c = c.at(When::Units(back)) }
        c = c.cmd(&t);
        if kind == 2 { v = v.go(); if wait { back += 1 } }
        units += 1;
        let tag = t.split(' ').next().unwrap();
        let a = format!("{tag} OK {i}\r\n");
        if late { answers.push(a) } else { v = v.after(units).send(&a) }
        back += 1;
    }
    if late { v = v.after(units); for a in answers { v = v.send(&a) } }
    Some(Spec { client: c.v, server: v.v, ..Spec::new(p) })
}
/// `n` responses of one kind in a row, before, while and after a command is handled.
pub fn burst(p: &'static str, n: usize, ch: &mut Ch) -> Option<Spec> {
    let kind = ch.choose(6);
    let at = ch.choose(4);
    let together = ch.choose(2) == 1;
    let all: Vec<String> = (0..n).map(|i| match kind {
        0 => format!("* {i} EXISTS\r\n"),
        1 => format!("* {} EXPUNGE\r\n", i + 1),
        2 => format!("* {} FETCH (RFC822 {{{}}}\r\n{})\r\n", i + 1, i % 50, payload(i % 50)),
        3 => format!("* OK [ALERT] {i}\r\n"),
        4 => "* 1 EXISTS\r\n".into(),
        _ => format!("* LIST () \"/\" box{i}\r\n"),
    }).collect();
    let (mut c, mut v) = (C::greeted(), V::ok());
    let put = |mut v: V| { if together { v = v.send(&all.concat()) } else { for a in &all { v = v.send(a) } } v };
    match at {
        0 => { v = put(v); c = c.cmd("a NOOP\r\n"); v = v.after(1).send("a OK x\r\n") }
        1 => { c = c.cmd("a NOOP\r\n"); v = put(v.after(1)).send("a OK x\r\n") }
        2 => { c = c.cmd("a LOGIN {1}\r\nx y\r\n"); v = put(v.at(When::Asked)).go().after(1).send("a OK x\r\n") }
        _ => { c = c.cmd("a IDLE\r\n").answer("DONE\r\n").at(When::Has("a ")).cmd("b NOOP\r\n"); v = put(v.after(1).send("+ idle\r\n")).after(2).send("a OK x\r\n").after(3).send("b OK y\r\n") }
    }
    Some(Spec { client: c.v, server: v.v, ..Spec::new(p) })
}
/// `n` rounds of a dialog.
pub fn dialog(p: &'static str, n: usize, ch: &mut Ch) -> Option<Spec> {
    let (mut c, mut v) = (C::greeted(), V::ok());
    let (mut up, mut down) = (0, 1);
    match ch.choose(5) {
        // one AUTHENTICATE with many challenges
        0 => {
            c = c.cmd("a AUTHENTICATE X-MANY\r\n");
            up += 1;
            for i in 0..n { v = v.after(up).send(&format!("+ {}\r\n", b64(&text(i % 40 + 1)))); c = c.answer(&format!("{}\r\n", b64(&text(i % 31 + 1)))); up += 1; }
            v = v.after(up).send("a OK in\r\n");
            down += n + 1;
            c = c.at(When::Units(down)).cmd("b NOOP\r\n");
            v = v.after(up + 1).send("b OK x\r\n");
        }
        // many AUTHENTICATEs
        1 => for i in 0..n {
            c = c.at(When::Units(down)).cmd(&format!("a{i} AUTHENTICATE PLAIN\r\n")).answer("dGVzdA==\r\n");
            v = v.after(up + 1).send("+ \r\n").after(up + 2).send(&format!("a{i} NO again\r\n"));
            up += 2; down += 2;
        },
        // many IDLEs
        2 => for i in 0..n {
            c = c.at(When::Units(down)).cmd(&format!("a{i} IDLE\r\n")).answer("DONE\r\n");
            v = v.after(up + 1).send("+ idle\r\n").send("* 1 EXISTS\r\n").after(up + 2).send(&format!("a{i} OK done\r\n"));
            up += 2; down += 3;
        },
        // many refused IDLEs
        3 => for i in 0..n {
            c = c.at(When::Units(down)).cmd(&format!("a{i} IDLE\r\n"));
            v = v.after(up + 1).send(&format!("a{i} NO not now\r\n"));
            up += 1; down += 1;
        },
        // one command with many literals
        _ => {
            if n > 50 { return None }
            let mut t = "a ID (".to_string();
            for i in 0..2 * n { if i > 0 { t.push(' ') } t += &format!("{{{}{}}}\r\n{}", i % 4, if i % 3 == 0 { "+" } else { "" }, text(i % 4)); }
            t += ")\r\n";
            let k = literals(&t);
            c = c.cmd(&t).cmd("b NOOP\r\n");
            for _ in 0..k { v = v.go() }
            v = v.after(1).send("a OK x\r\n").after(2).send("b OK x\r\n");
        }
    }
    Some(Spec { client: c.v, server: v.v, ..Spec::new(p) })
}
pub fn b64(s: &str) -> String {
    const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    s.as_bytes().chunks(3).map(|c| {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        (0..4).map(|i| if i <= c.len() { A[(n >> (18 - 6 * i) & 63) as usize] as char } else { '=' }).collect::<String>()
    }).collect()
}
pub fn tags() -> Vec<String> {
    let mut v: Vec<String> = (1..=20).chain([23, 24, 25, 31, 32, 33, 39, 40, 41, 47, 48, 49, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1024]).map(|n| (0..n).map(|i| (b'a' + (i * 7 % 26) as u8) as char).collect()).collect();
    v.extend(["0", "1", "00", "4294967296", "18446744073709551616", "A1", "a.1", "1.2.abcdefgh", ".", "-", "_", "]", "[", "}", "!", "#", "$", "&", "'", ",", "/", ":", ";", "<", "=", ">", "?", "@", "^", "`", "|", "~", "a}", "a]", "OK", "BYE", "NIL", "DONE", "IDLE", "NOOP", "ok", "idle", "LOGIN", "AUTHENTICATE", "FETCH", "UID", "tag", "TAG"].map(String::from));
    v
}
/// Every kind of exchange under any tag.
pub fn tagged(p: &'static str, ch: &mut Ch) -> Option<Spec> {
    let all = tags();
    let t = &all[ch.choose(all.len())];
    let (g, done) = (C::greeted, |k: usize| V::ok().after(k));
    let ok = format!("{t} OK x\r\n");
    let last = "zz NOOP\r\n";
    let (c, v) = match ch.choose(14) {
        0 => (g().cmd(&format!("{t} NOOP\r\n")).cmd(last), done(1).send(&ok).after(2).send("zz OK x\r\n")),
        1 => (g().cmd(&format!("{t} CAPABILITY\r\n")).cmd(last), done(1).send("* CAPABILITY IMAP4REV1\r\n").send(&ok).after(2).send("zz OK x\r\n")),
        2 => (g().cmd(&format!("{t} LOGIN {{1}}\r\nx y\r\n")).cmd(last), V::ok().go().after(1).send(&ok).after(2).send("zz OK x\r\n")),
        3 => (g().cmd(&format!("{t} LOGIN {{1+}}\r\nx y\r\n")).cmd(last), done(1).send(&format!("{t} NO [ALERT] x\r\n")).after(2).send("zz OK x\r\n")),
        4 => (g().cmd(&format!("{t} LOGIN {{1}}\r\nx y\r\n")).cmd(last), V::ok().refuse("no").after(2).send("zz OK x\r\n")),
        5 => (g().cmd(&format!("{t} AUTHENTICATE PLAIN\r\n")).answer("dGVzdA==\r\n").at(When::Units(3)).cmd(last), done(1).send("+ \r\n").after(2).send(&ok).after(3).send("zz OK x\r\n")),
        6 => (g().cmd(&format!("{t} AUTHENTICATE PLAIN dGVzdA==\r\n")).at(When::Units(2)).cmd(last), done(1).send(&ok).after(2).send("zz OK x\r\n")),
        7 => (g().cmd(&format!("{t} AUTHENTICATE PLAIN\r\n")).at(When::Units(2)).cmd(last), done(1).send(&format!("{t} NO x\r\n")).after(2).send("zz OK x\r\n")),
        8 => (g().cmd(&format!("{t} IDLE\r\n")).answer("DONE\r\n").at(When::Units(4)).cmd(last), done(1).send("+ idle\r\n").send("* 1 EXISTS\r\n").after(2).send(&ok).after(3).send("zz OK x\r\n")),
        9 => (g().cmd(&format!("{t} IDLE\r\n")).at(When::Units(2)).cmd(last), done(1).send(&format!("{t} BAD x\r\n")).after(2).send("zz OK x\r\n")),
        10 => (g().cmd(&format!("{t} LOGOUT\r\n")), done(1).send("* BYE x\r\n").send(&ok)),
        11 => (g().cmd(&format!("{t} SELECT x\r\n")).cmd(&format!("{t} SELECT y\r\n")), done(1).send(&format!("{t} BAD x\r\n")).after(2).send(&format!("{t} OK [READ-ONLY] x\r\n"))),
        // answers to commands that nobody sent
        12 => (g().cmd("a NOOP\r\n"), done(1).send(&ok).send(&format!("{t} BAD [CAPABILITY IMAP4REV1] x\r\n")).send("a OK y\r\n")),
        _ => (g().cmd(&format!("{t} APPEND x {{3+}}\r\nabc\r\n")).cmd(&format!("{t}{t} STARTTLS\r\n")), done(1).send(&ok).after(2).send(&format!("{t}{t} NO x\r\n"))),
    };
    let o = Spec { client: c.v, server: v.v, ..Spec::new(p) };
    Some(match ch.choose(2) { 0 => o, _ => Spec { base: 4, ..o } })
}
/// Texts with every character, at the ends and between others, and of many lengths.
pub fn texts(n: usize) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for b in (1u8..128).filter(|b| *b != b'\r' && *b != b'\n') { let b = b as char; v.extend([format!("{b}"), format!("{b}x"), format!("x{b}"), format!("x{b}y{b}{b}z")]) }
    v.extend(sizes(n as u32).into_iter().filter(|n| *n > 0).map(text));
    v.extend(["[ALERT] x", "x [ALERT] y", "{3}", "{3+}", "x {3}", "[x", "x]", "]", "] x", "[] x", "[[x] y] z", "a OK x", "* 1 EXISTS", "+ x", "=", "==", "AAAA", "%s %d \\n", "\\r\\n", "<b>&amp;", "  x  ", "\t", "x\ty"].map(String::from));
    v
}
/// What a server says in any text, wherever it can say something.
pub fn said(p: &'static str, ch: &mut Ch) -> Option<Spec> {
    let all = texts(12);
    let t = &all[ch.choose(all.len())];
    let code = ["", "[ALERT] ", "[CAPABILITY STARTTLS IDLE] ", "[UIDNEXT 1] "][ch.choose(4)];
    // this is a code, then
    if code.is_empty() && t.starts_with('[') { return None }
    let line = format!("{code}{t}");
    let (g, done) = (C::greeted, |k: usize| V::ok().after(k));
    let last = "zz NOOP\r\n";
    let (c, v) = match ch.choose(12) {
        0 => (g().cmd("a NOOP\r\n"), V::new(&format!("* OK {line}\r\n")).after(1).send("a OK x\r\n")),
        1 => (g().cmd("a NOOP\r\n"), V::new(&format!("* PREAUTH {line}\r\n")).after(1).send("a OK x\r\n")),
        2 => (g(), V::new(&format!("* BYE {line}\r\n"))),
        3 => (g().cmd("a NOOP\r\n"), V::ok().send(&format!("* OK {line}\r\n* NO {line}\r\n* BAD {line}\r\n* BYE {line}\r\n")).after(1).send(&format!("a OK {line}\r\n"))),
        4 => (g().cmd("a NOOP\r\n").cmd(last), done(1).send(&format!("a NO {line}\r\n")).after(2).send(&format!("zz BAD {line}\r\n"))),
        5 if !code.is_empty() || (t.len() < 2000 && !t.bytes().all(|b| b.is_ascii_alphanumeric() || b"+/=".contains(&b))) => (g().cmd("a NOOP\r\n"), V::ok().send(&format!("+ {line}\r\n")).after(1).send("a OK x\r\n")),
        6 => (g().cmd("a AUTHENTICATE PLAIN\r\n").answer("AAAA\r\n").at(When::Units(3)).cmd(last), done(1).send(&format!("+ {line}~\r\n")).after(2).send(&format!("a OK {line}\r\n")).after(3).send("zz OK x\r\n")),
        7 => (g().cmd("a AUTHENTICATE PLAIN\r\n").at(When::Units(2)).cmd(last), done(1).send(&format!("a NO {line}\r\n")).after(2).send("zz OK x\r\n")),
        8 => (g().cmd("a IDLE\r\n").answer("DONE\r\n").at(When::Units(3)).cmd(last), done(1).send(&format!("+ {line}~\r\n")).after(2).send(&format!("a OK {line}\r\n")).after(3).send("zz OK x\r\n")),
        9 => (g().cmd("a IDLE\r\n").at(When::Units(2)).cmd(last), done(1).send(&format!("a NO {line}\r\n")).after(2).send("zz OK x\r\n")),
        10 => (g().cmd("a LOGIN {1}\r\nx {1}\r\ny\r\n").cmd(last), V::ok().go().go().after(1).send(&format!("a BAD {line}\r\n")).after(2).send("zz OK x\r\n")),
        11 => return Some(refused_with(p, &line)),
        _ => return None,
    };
    Some(Spec { client: c.v, server: v.v, ..Spec::new(p) })
}
fn refused_with(p: &'static str, line: &str) -> Spec {
    let c = C::new().cmd("a LOGIN {1}\r\nx {1}\r\ny\r\n").cmd("b CREATE {1}\r\nx\r\n").cmd("zz NOOP\r\n");
    let v = V::ok().go().refuse(line).refuse(line).after(3).send("zz OK x\r\n");
    Spec { client: c.v, server: v.v, ..Spec::new(p) }
}
/// A literal is refused with any text.
pub fn refused_text(p: &'static str, ch: &mut Ch) -> Option<Spec> {
    let all = texts(16);
    let t = &all[ch.choose(all.len())];
    let code = ["", "[ALERT] ", "[CAPABILITY STARTTLS IDLE] ", "[UIDNEXT 1] ", "[PARSE] ", "[ALERTX] ", "[X ALERT] "][ch.choose(7)];
    if code.is_empty() && t.starts_with('[') { return None }
    Some(refused_with(p, &format!("{code}{t}")))
}
/// Arguments with every character.
pub fn arguments(p: &'static str, ch: &mut Ch) -> Option<Spec> {
    let mut all = texts(12);
    all.push(String::new());
    all.extend((0x80u32..0x800).step_by(31).chain(0x80..0xc0).map(|c| format!("x{}", char::from_u32(c).unwrap())));
    all.extend(["\r", "\n", "\r\n", "x\r\n", "\r\nx", "x\r\ny NOOP\r\n", "\n\n"].map(String::from));
    let t = &all[ch.choose(all.len())];
    // reads like an announcement of the client
    if crate::wire::announced(format!("{t}\r\n").as_bytes()).is_some() { return None }
    let plain = t.bytes().all(|b| b < 0x80 && b != b'\r' && b != b'\n');
    let atom = plain && !t.is_empty() && t.bytes().all(|b| b > 0x20 && b < 0x7f && !b"(){%*\"\\".contains(&b));
    let quoted = format!("\"{}\"", t.replace('\\', "\\\\").replace('"', "\\\""));
    let n = t.len();
    let (g, done) = (C::greeted, |k: usize| V::ok().after(k));
    let last = "zz NOOP\r\n";
    let (c, v) = match ch.choose(9) {
        0 if plain => (g().cmd(&format!("a LOGIN {quoted} {quoted}\r\n")), done(1)),
        1 => (g().cmd(&format!("a LOGIN {{{n}+}}\r\n{t} {{{n}+}}\r\n{t}\r\n")), done(1)),
        2 => (g().cmd(&format!("a LOGIN {{{n}}}\r\n{t} {{{n}}}\r\n{t}\r\n")), V::ok().go().go().after(1)),
        3 if atom && !t.eq_ignore_ascii_case("inbox") => (g().cmd(&format!("a RENAME {t} {t}\r\n")), done(1)),
        4 => (g().cmd(&format!("a APPEND x {{{n}}}\r\n{t}\r\n")), V::ok().go().after(1)),
        5 => (g().cmd(&format!("a ID (\"k\" {{{n}+}}\r\n{t} \"v\" NIL)\r\n")), done(1)),
        6 => {
            let c = g().cmd("a AUTHENTICATE PLAIN\r\n").answer(&format!("{}\r\n", b64(t))).at(When::Units(3)).cmd(last);
            return Some(Spec { client: c.v, server: done(1).send(&format!("+ {}\r\n", b64(t))).after(2).send("a OK x\r\n").after(3).send("zz OK x\r\n").v, ..Spec::new(p) });
        }
        7 => {
            let ir = if t.is_empty() { "=".into() } else { b64(t) };
            let c = g().cmd(&format!("a AUTHENTICATE PLAIN {ir}\r\n")).at(When::Units(2)).cmd(last);
            return Some(Spec { client: c.v, server: done(1).send("a OK x\r\n").after(2).send("zz OK x\r\n").v, ..Spec::new(p) });
        }
        // the same in what a server sends
        8 => {
            let mut v = done(1).send(&format!("* 1 FETCH (RFC822 {{{n}}}\r\n{t} RFC822.TEXT {{{n}}}\r\n{t})\r\n"));
            if plain { v = v.send(&format!("* LIST () \"/\" {quoted}\r\n* ID ({quoted} {quoted})\r\n")) }
            if atom && !t.eq_ignore_ascii_case("inbox") { v = v.send(&format!("* LIST () NIL {t}\r\n")) }
            return Some(Spec { client: g().cmd("a NOOP\r\n").v, server: v.send("a OK x\r\n").v, ..Spec::new(p) });
        }
        _ => return None,
    };
    let v = v.send("a OK x\r\n").after(2).send("zz OK x\r\n");
    Some(Spec { client: c.cmd(last).v, server: v.v, ..Spec::new(p) })
}
/// Numbers of every size wherever a message contains one.
pub fn numbers(p: &'static str, ch: &mut Ch) -> Option<Spec> {
    let mut all: Vec<u32> = (0..=20).chain((5..32).flat_map(|k| [(1u32 << k) - 1, 1 << k, (1 << k) + 1])).chain([100, 1000, 1_000_000, 999_999_999, 1_000_000_000, 4_000_000_000, u32::MAX - 1, u32::MAX]).collect();
    all.sort(); all.dedup();
    let n = all[ch.choose(all.len())];
    let d = match ch.choose(13) {
        0 => format!("* {n} EXISTS\r\n"),
        1 => format!("* {n} RECENT\r\n"),
        // zero is none
        _ if n == 0 => return None,
        2 => format!("* {n} EXPUNGE\r\n"),
        3 => format!("* {n} FETCH (UID 7)\r\n"),
        4 => format!("* 1 FETCH (UID {n})\r\n"),
        5 => format!("* 1 FETCH (RFC822.SIZE {n})\r\n"),
        6 => format!("* SEARCH {n} 1 {n}\r\n"),
        7 => format!("* OK [UIDNEXT {n}] x\r\n"),
        8 => format!("* OK [UIDVALIDITY {n}] x\r\n"),
        9 => format!("* NO [UNSEEN {n}] x\r\n"),
        10 => format!("a BAD [UIDNEXT {n}] x\r\n"),
        11 => format!("* OK {n}\r\n"),
        _ => format!("* OK [APPENDUID {n} {n}] x\r\n"),
    };
    let c = C::greeted().cmd("a NOOP\r\n").cmd("b NOOP\r\n");
    let v = V::ok().send(&d).after(1).send(&d).send("a OK x\r\n").after(2).send("b OK x\r\n");
    Some(Spec { client: c.v, server: v.v, ..Spec::new(p) })
}
/// The server ends while the client sends malformed lines and reads slowly.
pub fn rubbish_at_end(p: &'static str, n: usize, ch: &mut Ch) -> Option<Spec> {
    let (mut c, mut v) = (C::greeted(), V::ok());
    let m = 1 + ch.choose(3);
    for i in 0..n { v = v.send(&format!("* {i} EXISTS\r\n")) }
    v = v.act(Act::Fin);
    // each after some more of what the server said has arrived
    for i in 0..m { c = c.at(When::Units(1 + (i + 1) * n / (m + 1))).noise([&b"bogus\r\n"[..], b"bogus\r\nbogus\r\n", b"\xff\r\na LOGIN x\r\na NOOP\n", b"x\r\nx\r\nx\r\nx\r\nx\r\n"][ch.choose(4)]) }
    let o = Spec { client: c.v, server: v.v, rest: Rest::Ended { to_server: false, to_client: true }, ..Spec::new(p) };
    Some(match ch.choose(3) { 0 => Spec { cap: 20, slow: 10, ..o }, 1 => Spec { cap: 50, slow: 50, base: 3, ..o }, _ => Spec { cap: 30, slow: 5, base: 4, ..o } })
}
pub const LARGE: usize = 13;
/// One message of `n` bytes in each role.
pub fn large(p: &'static str, n: usize, role: usize) -> Option<Spec> {
    let (c, v) = match role {
        0 => (C::greeted().cmd(&format!("a CREATE {{{n}+}}\r\n{}\r\n", payload(n))).cmd("b NOOP\r\n"), V::ok().after(1).send("a OK x\r\n").after(2).send("b OK x\r\n")),
        1 => (C::greeted().cmd(&format!("a APPEND x {{{n}}}\r\n{}\r\n", payload(n))).cmd("b NOOP\r\n"), V::ok().go().after(1).send("a OK x\r\n").after(2).send("b OK x\r\n")),
        2 => (C::greeted().cmd(&format!("a CREATE \"{} \"\r\n", text(n))).cmd("b NOOP\r\n"), V::ok().after(1).send("a OK x\r\n").after(2).send("b OK x\r\n")),
        3 if n > 0 => (C::greeted().cmd(&format!("{} NOOP\r\n", text(n))).cmd("b NOOP\r\n"), V::ok().after(1).send(&format!("{} OK x\r\n", text(n))).after(2).send("b OK x\r\n")),
        4 => (C::greeted().cmd("a NOOP\r\n"), V::ok().after(1).send(&format!("* 1 FETCH (RFC822 {{{n}}}\r\n{})\r\n* 2 EXISTS\r\n", payload(n))).send("a OK x\r\n")),
        5 if n > 0 => (C::greeted().cmd("a NOOP\r\n"), V::ok().after(1).send(&format!("* OK {}\r\n* 2 EXISTS\r\n", text(n))).send("a OK x\r\n")),
        6 if n > 0 => (C::greeted().cmd("a NOOP\r\n"), V::new(&format!("* OK {}\r\n", text(n))).after(1).send("a OK x\r\n")),
        7 if n > 0 => (C::greeted().cmd(&format!("a AUTHENTICATE X {}\r\n", b64(&text(n)))).at(When::Units(2)).cmd("b NOOP\r\n"), V::ok().after(1).send("a OK x\r\n").after(2).send("b OK x\r\n")),
        8 if n > 0 => (C::greeted().cmd("a AUTHENTICATE X\r\n").answer(&format!("{}\r\n", b64(&text(n)))).at(When::Units(3)).cmd("b NOOP\r\n"), V::ok().after(1).send("+ \r\n").after(2).send("a OK x\r\n").after(3).send("b OK x\r\n")),
        9 if n > 0 => (C::greeted().cmd("a AUTHENTICATE X\r\n").answer("QQ==\r\n").at(When::Units(3)).cmd("b NOOP\r\n"), V::ok().after(1).send(&format!("+ {}\r\n", b64(&text(n)))).after(2).send("a OK x\r\n").after(3).send("b OK x\r\n")),
        10 if n > 0 => (C::greeted().cmd("a IDLE\r\n").answer("DONE\r\n").at(When::Units(3)).cmd("b NOOP\r\n"), V::ok().after(1).send(&format!("+ {}~\r\n", text(n))).after(2).send("a OK x\r\n").after(3).send("b OK x\r\n")),
        11 if n > 0 => (C::greeted().cmd("a NOOP\r\n"), V::ok().after(1).send(&format!("* SEARCH{}\r\n", (0..n.min(100_000)).map(|i| format!(" {}", i + 1)).collect::<String>())).send("a OK x\r\n")),
        12 if n > 0 => (C::greeted().cmd("a NOOP\r\n"), V::ok().after(1).send(&format!("a NO [ALERT] {}\r\n", text(n)))),
        _ => return None,
    };
    Some(Spec { client: c.v, server: v.v, ..Spec::new(p) })
}
/// Ways the peers and the transport behave.
pub fn shape(o: Spec, n: usize, ch: &mut Ch) -> Spec {
    let step = (n / 5).max(7);
    match ch.choose(4) {
        0 => o,
        1 => Spec { base: 3, ..o },
        2 => Spec { base: 4, cap: step, slow: step, ..o },
        _ => Spec { base: 3, bind_tls: true, connect_tls: true, ..o },
    }
}
/// Capability lists that are long, or repeated.
pub fn caps(p: &'static str, at: usize, n: usize, ch: &mut Ch) -> Spec {
    let list = match ch.choose(4) {
        0 => (0..n).map(|i| if i + 1 == n { "STARTTLS" } else { "IDLE" }).collect::<Vec<_>>().join(" "),
        1 => (0..n).map(|i| crate::lists::CAPS[i % crate::lists::CAPS.len()]).collect::<Vec<_>>().join(" "),
        2 => (0..n).map(|i| if i == 0 { "STARTTLS".to_string() } else { format!("X-CAP-{i}") }).collect::<Vec<_>>().join(" "),
        _ => format!("IDLE X-{} ID", text(n)),
    };
    crate::lists::place(p, at, &list)
}
/// The capabilities are announced again and again.
pub fn caps_again(p: &'static str, n: usize, ch: &mut Ch) -> Spec {
    let form = ch.choose(4);
    let (c, mut v) = (C::greeted().cmd("a NOOP\r\n"), V::ok());
    for i in 0..n {
        let l = crate::lists::CAPS[i % crate::lists::CAPS.len()];
        v = v.send(&match form { 0 => format!("* CAPABILITY IMAP4REV1 {l} X{i}\r\n"), 1 => format!("* OK [CAPABILITY {l}] x\r\n"), 2 => format!("+ [CAPABILITY {l} IDLE] x\r\n"), _ => format!("* CAPABILITY {l}\r\n") });
    }
    Spec { client: c.v, server: v.after(1).send("a OK x\r\n").v, ..Spec::new(p) }
}
/// Many refused literals, or one among many commands.
pub fn refusals(p: &'static str, n: usize, ch: &mut Ch) -> Spec {
    let (mut c, mut v, form) = (C::new(), V::ok(), ch.choose(5));
    let text_of = ["no", "[ALERT] full", "[UIDNEXT 3] x"][ch.choose(3)];
    match form {
        // all are refused
        0 => { for i in 0..n { c = c.cmd(&format!("a{i} CREATE {{2}}\r\nxy\r\n")); v = v.refuse(text_of) } c = c.cmd("z NOOP\r\n"); v = v.after(n + 1).send("z OK x\r\n") }
        // every other one
        1 => { for i in 0..n { c = c.cmd(&format!("a{i} CREATE {{2}}\r\nxy\r\n")); if i % 2 == 0 { v = v.refuse(text_of) } else { v = v.go().after(i + 1).send(&format!("a{i} OK x\r\n")) } } }
        // the last of many commands
        2 => { for i in 0..n { c = c.cmd(&format!("a{i} NOOP\r\n")) } c = c.cmd("y LOGIN {1}\r\nx y\r\n").cmd("z NOOP\r\n"); v = v.refuse(text_of).after(n + 2).send("z OK x\r\n") }
        // the first of many commands
        3 => { c = c.cmd("y LOGIN {1}\r\nx y\r\n"); for i in 0..n { c = c.cmd(&format!("a{i} NOOP\r\n")) } v = v.refuse(text_of).after(n + 1).send("z OK x\r\n") }
        // a large one
        _ => { c = c.cmd(&format!("y APPEND x {{{}}}\r\n{}\r\n", n * 97, payload(n * 97))).cmd("z NOOP\r\n"); v = v.refuse(text_of).after(2).send("z OK x\r\n") }
    }
    Spec { client: c.v, server: v.v, ..Spec::new(p) }
}
/// Every command that the client can send with a refused literal.
pub fn refused_kinds(p: &'static str, ch: &mut Ch) -> Option<Spec> {
    let k = ch.choose(COMMANDS.len());
    let full = format!("a {}\r\n", COMMANDS[k]);
    let n = literals(&full);
    if n == 0 { return None }
    let at = ch.choose(n);
    let text_of = crate::lists::REFUSALS[ch.choose(crate::lists::REFUSALS.len())];
    let c = C::greeted().cmd(&full).cmd("b NOOP\r\n");
    let mut v = V::ok();
    for _ in 0..at { v = v.go() }
    v = v.refuse(text_of).after(2).send("b OK y\r\n");
    Some(Spec { client: c.v, server: v.v, ..Spec::new(p) })
}
/// Much is on its way when one side ends the conversation.
pub fn ends(p: &'static str, n: usize, ch: &mut Ch) -> Option<Spec> {
    let slow = ch.choose(3);
    let who = [Who::Client, Who::Server][ch.choose(2)];
    let form = ch.choose(4);
    let (mut c, mut v) = (C::greeted(), V::ok());
    match (who, form) {
        // many messages
        (Who::Client, 0) => for i in 0..n { c = c.cmd(&format!("a{i} NOOP\r\n")) },
        (Who::Server, 0) => for i in 0..n { v = v.send(&format!("* {i} EXISTS\r\n")) },
        // one large message
        (Who::Client, 1) => c = c.cmd(&format!("a CREATE {{{}+}}\r\n{}\r\n", n * 97, payload(n * 97))).cmd("b NOOP\r\n"),
        (Who::Server, 1) => v = v.send(&format!("* 1 FETCH (RFC822 {{{}}}\r\n{})\r\n", n * 97, payload(n * 97))).send("* 1 EXISTS\r\n"),
        // malformed ones among them
        (Who::Client, 2) => for i in 0..n { c = c.cmd(&format!("a{i} NOOP\r\n")); if i % 3 == 1 { c = c.noise(b"bogus\r\n") } },
        (Who::Server, 2) => for i in 0..n { v = v.send(&format!("* {i} EXISTS\r\n")); if i % 3 == 1 { v = v.noise(b"bogus\r\n") } },
        // the other side has sent much, too
        (Who::Client, _) => { for i in 0..n { c = c.cmd(&format!("a{i} NOOP\r\n")) } if slow > 0 { return None } for i in 0..n { v = v.send(&format!("* {i} EXISTS\r\n")) } }
        (Who::Server, _) => { for i in 0..n { v = v.send(&format!("* {i} EXISTS\r\n")) } for i in 0..n { c = c.cmd(&format!("a{i} NOOP\r\n")) } }
    }
    let rest = match who { Who::Client => { c = c.act(Act::Fin); Rest::Ended { to_server: true, to_client: false } } Who::Server => { v = v.act(Act::Fin); Rest::Ended { to_server: false, to_client: true } } };
    let o = Spec { client: c.v, server: v.v, rest, ..Spec::new(p) };
    Some(match slow { 0 => o, 1 => Spec { cap: 50, slow: 40, base: 3, ..o }, _ => Spec { cap: 3000, slow: 3000, base: 4, ..o } })
}
/// Malformed messages, many or large.
pub fn rubbish(p: &'static str, n: usize, ch: &mut Ch) -> Option<Spec> {
    let (mut c, mut v, form) = (C::greeted(), V::ok(), ch.choose(6));
    match form {
        0 => for _ in 0..n { c = c.noise(b"bogus\r\n") },
        1 => for _ in 0..n { v = v.noise(b"bogus\r\n") },
        2 => c = c.noise(format!("{}\r\n", text(n * 97)).as_bytes()),
        3 => v = v.noise(format!("{}\r\n", text(n * 97)).as_bytes()),
        4 => v = v.noise(format!("* 1 FETCH (RFC822 {{{}}}\r\n{} x(\r\n", n * 97, payload(n * 97)).as_bytes()),
        _ => c = c.noise(format!("a CREATE {{{}+}}\r\n{} x(\r\n", n * 97, payload(n * 97)).as_bytes()),
    }
    c = c.cmd("a NOOP\r\n");
    v = v.after(1).send("a OK x\r\n");
    Some(Spec { client: c.v, server: v.v, ..Spec::new(p) })
}
