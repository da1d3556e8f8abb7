//! Scenarios of capability filtering, refused literals, malformed input and closing.
use mc_engine::Ch;

use crate::script::{C, V};
use crate::sess::{Act, Item, Rest, Spec, When};

pub const CAPS: [&str; 38] = [
    "IMAP4REV1", "AUTH=PLAIN", "AUTH=LOGIN", "AUTH=XOAUTH2", "AUTH=SCRAM-SHA-1", "AUTH=SCRAM-SHA-1-PLUS", "AUTH=SCRAM-SHA-256", "AUTH=SCRAM-SHA-256-PLUS", "AUTH=X-FOO", "LOGINDISABLED", "STARTTLS", "IDLE",
    "MAILBOX-REFERRALS", "LOGIN-REFERRALS", "SASL-IR", "ENABLE", "COMPRESS=DEFLATE", "QUOTA", "QUOTA=RES-STORAGE", "QUOTASET", "LITERAL+", "LITERAL-", "MOVE", "ID", "UNSELECT", "SORT", "SORT=DISPLAY", "THREAD=REFERENCES",
    "METADATA", "METADATA-SERVER", "BINARY", "UIDPLUS", "CONDSTORE", "QRESYNC", "UTF8=ACCEPT", "UTF8=ONLY", "NAMESPACE", "X-UNKNOWN",
];
/// Places where a server can announce capabilities.
pub const PLACES: [&str; 24] = [
    "greeting", "preauth greeting", "bye greeting", "capability response", "unsolicited capability response", "untagged ok", "untagged no", "untagged bad", "bye", "tagged ok", "tagged no", "tagged bad",
    "unsolicited continuation", "authenticate continuation", "second authenticate continuation", "authenticate ok", "authenticate no", "authenticate bad", "idle continuation", "data while idling", "status while idling", "idle ok", "idle no", "literal go-ahead",
];
pub fn place(p: &'static str, at: usize, list: &str) -> Spec {
    let code = format!("[CAPABILITY {list}]");
    let data = format!("* CAPABILITY {list}\r\n");
    let noop = || C::greeted().cmd("a NOOP\r\n");
    let auth = || C::greeted().cmd("a AUTHENTICATE PLAIN\r\n").answer("dGVzdA==\r\n").tagged("a ").cmd("b NOOP\r\n");
    let idle = || C::greeted().cmd("a IDLE\r\n").answer("DONE\r\n").tagged("a ").cmd("b NOOP\r\n");
    let vauth = |s: &str| V::ok().after(1).send("+ \r\n").after(2).send(&format!("a {s} {code} text\r\n")).after(3).send("b OK y\r\n");
    let vidle = |a: &str, mid: &str, z: &str| V::ok().after(1).send(a).send(mid).after(2).send(z).after(3).send("b OK y\r\n");
    let plain = |s: String| V::ok().after(1).send(&s).send("a OK z\r\n");
    let tagged = |s: &str| V::ok().after(1).send(&format!("a {s} {code} text\r\n"));
    let (c, s) = match at {
        0 => (noop(), V::new(&format!("* OK {code} hello\r\n")).after(1).send("a OK z\r\n")),
        1 => (noop(), V::new(&format!("* PREAUTH {code} hello\r\n")).after(1).send("a OK z\r\n")),
        2 => (noop(), V::new(&format!("* BYE {code} hello\r\n")).after(1).send("a OK z\r\n")),
        3 => (C::greeted().cmd("a CAPABILITY\r\n"), plain(data)),
        4 => (noop(), V::ok().send(&data).after(1).send("a OK z\r\n").send(&data)),
        5 => (noop(), plain(format!("* OK {code} text\r\n"))),
        6 => (noop(), plain(format!("* NO {code} text\r\n"))),
        7 => (noop(), plain(format!("* BAD {code} text\r\n"))),
        8 => (noop(), plain(format!("* BYE {code} text\r\n"))),
        9 => (noop(), tagged("OK")),
        10 => (noop(), tagged("NO")),
        11 => (noop(), tagged("BAD")),
        12 => (noop(), plain(format!("+ {code} text\r\n"))),
        13 => (auth(), V::ok().after(1).send(&format!("+ {code} text\r\n")).after(2).send("a OK x\r\n").after(3).send("b OK y\r\n")),
        14 => (C::greeted().cmd("a AUTHENTICATE LOGIN\r\n").answer("dQ==\r\n").answer("cA==\r\n").tagged("a ").cmd("b NOOP\r\n"), V::ok().after(1).send("+ VXNlcg==\r\n").after(2).send(&format!("+ {code} text\r\n")).after(3).send("a OK x\r\n").after(4).send("b OK y\r\n")),
        15 => (auth(), vauth("OK")),
        16 => (auth(), vauth("NO")),
        17 => (auth(), vauth("BAD")),
        18 => (idle(), vidle(&format!("+ {code} text\r\n"), "* 1 EXISTS\r\n", "a OK done\r\n")),
        19 => (idle(), vidle("+ idling\r\n", &data, "a OK done\r\n")),
        20 => (idle(), vidle("+ idling\r\n", &format!("* OK {code} text\r\n"), "a OK done\r\n")),
        21 => (idle(), vidle("+ idling\r\n", "* 1 EXISTS\r\n", &format!("a OK {code} done\r\n"))),
        22 => (C::greeted().cmd("a IDLE\r\n").tagged("a ").cmd("b NOOP\r\n"), V::ok().after(1).send(&format!("a NO {code} text\r\n")).after(2).send("b OK y\r\n")),
        23 => (C::greeted().cmd("a LOGIN {1}\r\nx y\r\n").tagged("a ").cmd("b NOOP\r\n"), V::ok().go_with(&format!("+ {code} text\r\n")).after(1).send("a OK y\r\n").after(2).send("b OK y\r\n")),
        _ => unreachable!(),
    };
    Spec { client: c.v, server: s.v, ..Spec::new(p) }
}
/// Any list of one capability, or two, or three with one in the middle.
pub fn caplist(ch: &mut Ch, n: usize) -> String {
    let k = 1 + ch.choose(n);
    (0..k).map(|_| CAPS[ch.choose(CAPS.len())]).collect::<Vec<_>>().join(" ")
}

/// What a server may say when it refuses a literal.
pub const REFUSALS: [&str; 9] = ["no", "[ALERT] Quota exceeded", "[READ-ONLY] not here", "[TRYCREATE] missing", "[CAPABILITY IMAP4REV1 IDLE STARTTLS] caps", "[PARSE] x", "[UIDNEXT 3] x", "[OTHER] x", "a OK x"];
/// Where in the client's conversation the refused literal is.
pub fn refused(p: &'static str, at: usize, text: &str) -> Spec {
    let (c, s) = match at {
        // alone, and the next command works
        0 => (C::new().cmd("a LOGIN {1}\r\nx y\r\n").cmd("b NOOP\r\n"), V::ok().refuse(text).after(2).send("b OK y\r\n")),
        // first of two literals
        1 => (C::new().cmd("a LOGIN {1}\r\nx {2}\r\nyz\r\n").cmd("b LOGIN {1}\r\nx y\r\n"), V::ok().refuse(text).go().after(2).send("b OK y\r\n")),
        // second of two literals
        2 => (C::new().cmd("a LOGIN {1}\r\nx {2}\r\nyz\r\n").cmd("b LOGIN {1}\r\nx y\r\n"), V::ok().go().refuse(text).go().after(2).send("b OK y\r\n")),
        // between commands in flight
        3 => (C::new().cmd("a NOOP\r\n").cmd("b CREATE {4}\r\nabcd\r\n").cmd("c NOOP\r\n"), V::ok().refuse(text).after(3).send("c OK z\r\n").send("a OK x\r\n")),
        // several in a row
        4 => (C::new().cmd("a CREATE {4}\r\nabcd\r\n").cmd("b CREATE {2}\r\nab\r\n").cmd("c CREATE {1}\r\na\r\n"), V::ok().refuse(text).send("* 1 EXISTS\r\n").refuse(text).go().after(3).send("c OK z\r\n")),
        // before AUTHENTICATE
        5 => (C::new().cmd("a LOGIN {1}\r\nx y\r\n").tagged("a ").cmd("b AUTHENTICATE PLAIN\r\n").at(When::Plus(2)).act(Act::Send(b"dGVzdA==\r\n".to_vec())), V::ok().refuse(text).after(2).send("+ \r\n").after(3).send("b OK y\r\n")),
        // before IDLE
        6 => (C::new().cmd("a LOGIN {1}\r\nx y\r\n").cmd("b IDLE\r\n").at(When::Plus(2)).act(Act::Send(b"DONE\r\n".to_vec())).cmd("c NOOP\r\n"), V::ok().refuse(text).after(2).send("+ idle\r\n").after(3).send("b OK y\r\n").after(4).send("c OK\x20x\r\n")),
        // mixed with a literal that needs no answer
        7 => (C::new().cmd("a LOGIN {1+}\r\nx {2}\r\nyz\r\n").cmd("b LOGIN {1+}\r\nx y\r\n"), V::ok().refuse(text).after(2).send("b OK y\r\n")),
        // the client uses the same tag again
        8 => (C::new().cmd("a LOGIN {1}\r\nx y\r\n").cmd("a CREATE {1}\r\nx\r\n").cmd("a NOOP\r\n"), V::ok().go().refuse(text).after(3).send("a OK y\r\n")),
        // APPEND
        9 => (C::new().cmd("a APPEND INBOX (\\Seen) {6}\r\nA B\r\nC\r\n").cmd("b NOOP\r\n"), V::ok().refuse(text).after(2).send("b OK y\r\n")),
        // data before the refusal
        10 => (C::new().cmd("a SELECT {1}\r\nx\r\n").cmd("b NOOP\r\n"), V::ok().at(When::Asked).send("* 2 EXISTS\r\n* OK wait\r\n").refuse(text).send("* 3 EXISTS\r\n").after(2).send("b OK y\r\n")),
        _ => unreachable!(),
    };
    Spec { client: c.v, server: s.v, ..Spec::new(p) }
}
pub const REFUSED: usize = 11;

/// Client lines that are no message.
pub const BAD_CLIENT: [&[u8]; 12] = [b"\r\n", b"x\r\n", b"a NOOP\n", b"\xff\xfe\r\n", b"a LOGIN x\r\n", b"* NOOP\r\n", b"a LOGIN {5\r\n", b"\0\0\r\n", b"a FOO {3}x\r\n", b"+ \r\n", b"a  NOOP\r\n", b"a LOGIN {1+}\r\nx\r\n"];
/// Server lines that are no message.
pub const BAD_SERVER: [&[u8]; 13] = [b"\r\n", b"x\r\n", b"* OK\n", b"* OK x\n", b"* 7 EXISTS\n", b"+ x\n", b"\xff\xfe\r\n", b"* x EXISTS\r\n", b"* 1 FETCH (RFC822 {1}\r\nx(\r\n", b"* FLAGS\r\n", b"a LOGIN x y\r\n", b"* CAPABILITY\r\n", b"* 99999999999999999999 EXISTS\r\n"];
/// Adds one malformed message to a conversation at every possible place (client side).
pub fn noisy(o: &Spec, ch: &mut Ch) -> Option<Spec> {
    let mut o = o.clone();
    if ch.choose(2) == 0 {
        let k = ch.choose(o.client.len() + 1);
        // Only where the client can send a new command: not inside a literal, and no answer is outstanding.
        if k > 0 { if let Act::Send(b) = &o.client[k - 1].1 { if !b.ends_with(b"\n") || crate::wire::announced(last_line(b)).is_some() { return None } } }
        if let Some(Item(When::Plus(_), _)) = o.client.get(k) { return None }
        // While AUTHENTICATE or IDLE is going on, lines have another meaning.
        let mut open = false;
        for (i, Item(w, a)) in o.client.iter().enumerate().take(k + 1) {
            if let When::Has(_) = w { open = false }
            if i < k { if let Act::Send(b) = a { open |= [&b" AUTHENTICATE "[..], b" IDLE\r"].iter().any(|x| b.windows(x.len()).any(|y| y == *x)) } }
        }
        if open { return None }
        o.client.insert(k, Item(When::Now, Act::Noise(BAD_CLIENT[ch.choose(BAD_CLIENT.len())].to_vec())));
        if k + 1 < o.client.len() { let w = std::mem::replace(&mut o.client[k + 1].0, When::Now); o.client[k].0 = w; }
    } else {
        let k = 1 + ch.choose(o.server.len());
        o.server.insert(k, Item(When::Now, Act::Noise(BAD_SERVER[ch.choose(BAD_SERVER.len())].to_vec())));
        if k + 1 < o.server.len() { let w = std::mem::replace(&mut o.server[k + 1].0, When::Now); o.server[k].0 = w; }
    }
    Some(o)
}
fn last_line(b: &[u8]) -> &[u8] { let n = b.len().saturating_sub(1); &b[b[..n].iter().rposition(|c| *c == b'\n').map_or(0, |i| i + 1)..] }

/// Conversations in which no client message waits for an answer of the server.
pub fn simple(p: &'static str) -> Vec<(&'static str, Spec)> {
    let f = |c: C, s: V| Spec { client: c.v, server: s.v, ..Spec::new(p) };
    vec![
        ("commands", f(C::greeted().cmd("a NOOP\r\n").cmd("b SELECT x\r\n").cmd("c LOGOUT\r\n"), V::ok().send("* 1 EXISTS\r\n").after(1).send("a OK x\r\n").send("* 2 EXISTS\r\n* OK hm\r\n").after(2).send("b OK y\r\n").after(3).send("* BYE bye\r\n").send("c OK z\r\n"))),
        ("non-synchronizing literals", f(C::greeted().cmd("a LOGIN {3+}\r\nabc {2+}\r\nde\r\n").cmd("b CREATE {4+}\r\nINBX\r\n"), V::new("* PREAUTH [ALERT] x\r\n").after(1).send("* 1 FETCH (RFC822 {5}\r\na\r\nbc)\r\n").send("a OK x\r\n").after(2).send("b NO y\r\n"))),
        ("idle", f(C::greeted().cmd("a NOOP\r\n").tagged("a ").cmd("b IDLE\r\n").answer("DONE\r\n"), V::ok().after(1).send("a OK x\r\n").after(2).send("+ idling\r\n").send("* 2 EXISTS\r\n").send("* OK hm\r\n").after(3).send("b OK y\r\n"))),
        ("idle refused", f(C::greeted().cmd("b IDLE\r\n").tagged("b ").cmd("c NOOP\r\n"), V::ok().after(1).send("* 2 EXISTS\r\n").send("b NO x\r\n* 3 EXISTS\r\n").after(2).send("c OK y\r\n"))),
        ("authenticate", f(C::greeted().cmd("a AUTHENTICATE LOGIN\r\n").answer("dQ==\r\n").answer("cA==\r\n").tagged("a ").cmd("b NOOP\r\n"), V::ok().after(1).send("+ VXNlcg==\r\n").after(2).send("+ Pass?\r\n").after(3).send("* 1 EXISTS\r\na OK x\r\n").after(4).send("b OK y\r\n"))),
    ]
}
/// Conversations with literals that the server has to release (closing by the server only).
pub fn releasing(p: &'static str) -> Vec<(&'static str, Spec)> {
    let f = |c: C, s: V| Spec { client: c.v, server: s.v, ..Spec::new(p) };
    vec![
        ("literals", f(C::new().cmd("a LOGIN {3}\r\nabc {2}\r\nde\r\n").cmd("b NOOP\r\n"), V::ok().send("* 1 EXISTS\r\n").go().send("* 2 EXISTS\r\n").go().after(1).send("a OK x\r\n").after(2).send("b OK y\r\n"))),
        ("refused literals", f(C::new().cmd("a CREATE {4}\r\nabcd\r\n").cmd("b CREATE {2}\r\nab\r\n"), V::ok().refuse("no").send("* 1 EXISTS\r\n").refuse("[ALERT] full").send("* BYE x\r\n"))),
    ]
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Who { Client, Server }
/// The conversation ends after `k` actions of one side; `tail` is an incomplete message before the end.
pub fn cut(o: &Spec, who: Who, k: usize, tail: &[u8], how: Act) -> Spec {
    let mut o = o.clone();
    let fin = how == Act::Fin;
    let side = match who { Who::Client => &mut o.client, Who::Server => &mut o.server };
    side.truncate(k);
    if !tail.is_empty() { side.push(Item(When::Now, Act::Noise(tail.to_vec()))) }
    match who {
        Who::Client => { o.client.push(Item(When::Now, how)); o.rest = Rest::Ended { to_server: fin, to_client: false } }
        Who::Server => { o.server.push(Item(When::Now, how)); o.rest = Rest::Ended { to_server: false, to_client: fin } }
    }
    o
}
