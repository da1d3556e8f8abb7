//! Conversations made of every kind of message the codec knows.
use mc_engine::Ch;

use crate::script::{C, V};
use crate::sess::Spec;
use mc_engine::kinds::*;

/// Continuation requests and tagged statuses of the conversation.
#[derive(Clone)]
pub struct Voice { pub plus: String, pub kind: &'static str, pub code: &'static str, pub before: Vec<String> }
impl Default for Voice { fn default() -> Self { Voice { plus: "+ go on\r\n".into(), kind: "OK", code: "", before: vec![] } } }

/// The client sends these commands; the server answers each.
pub fn conversation(p: &'static str, greeting: &str, cmds: &[usize], voice: &Voice) -> Spec {
    const TAGS: [(&str, &str); 4] = [("a", "a "), ("B.2", "B.2 "), ("*c"/* never used */, ""), ("d", "d ")];
    let (mut c, mut v, mut units) = (C::greeted(), V::new(greeting), 0);
    for (i, k) in cmds.iter().enumerate() {
        let (tag, wait) = [TAGS[0], TAGS[1], TAGS[3]][i];
        let (text, refused) = match COMMANDS[*k].strip_suffix(" refused") { Some(t) => (t, true), None => (COMMANDS[*k], false) };
        let full = format!("{tag} {text}\r\n");
        let status = format!("{tag} {} {}done\r\n", if refused { "NO" } else { voice.kind }, voice.code);
        let before = |mut v: V| { for b in &voice.before { v = v.send(b) } v };
        let answer = if text == "IDLE" { Some("DONE\r\n") } else if text.starts_with("AUTHENTICATE") { Some("dGVzdA==\r\n") } else { None };
        match answer {
            Some(a) => {
                c = c.cmd(&full);
                units += 1;
                v = v.after(units);
                if !refused { c = c.answer(a); v = before(v.send(&voice.plus)); units += 1; v = v.after(units) }
                v = v.send(&status);
                c = c.tagged(wait);
            }
            None => {
                c = c.cmd(&full);
                for _ in 0..literals(&full) { v = v.go_with(&voice.plus) }
                units += 1;
                v = before(v.after(units)).send(&status);
            }
        }
    }
    Spec { client: c.v, server: v.v, ..Spec::new(p) }
}
pub fn is_dialog(k: usize) -> bool { COMMANDS[k].starts_with("IDLE") || COMMANDS[k].starts_with("AUTH") }
/// Any commands.
pub fn commands(p: &'static str, n: usize, ch: &mut Ch) -> Spec {
    let cmds: Vec<usize> = (0..n).map(|_| ch.choose(COMMANDS.len())).collect();
    conversation(p, "* OK hi\r\n", &cmds, &Voice::default())
}
/// Any responses between a command and its status.
pub fn any_responses(p: &'static str, n: usize, all: &[String], ch: &mut Ch) -> Spec {
    let before: Vec<String> = (0..n).map(|_| all[ch.choose(all.len())].clone()).collect();
    conversation(p, "* OK hi\r\n", &[0], &Voice { before, ..Voice::default() })
}
/// Any greeting, continuation requests and statuses of a command.
pub fn answers(p: &'static str, greets: &[String], plus: &[String], ch: &mut Ch) -> Spec {
    let k = ch.choose(COMMANDS.len());
    let mut voice = Voice::default();
    let mut g = "* OK hi\r\n".to_string();
    match ch.choose(3) {
        0 => { voice.kind = ["OK", "NO", "BAD"][ch.choose(3)]; voice.code = CODES[ch.choose(CODES.len())]; }
        1 => voice.plus = plus[ch.choose(plus.len())].clone(),
        _ => g = greets[ch.choose(greets.len())].clone(),
    }
    conversation(p, &g, &[k, 0], &voice)
}
/// Any response while a dialog goes on.
pub fn inside(p: &'static str, all: &[String], ch: &mut Ch) -> Option<Spec> {
    let k = ch.choose(COMMANDS.len());
    if COMMANDS[k].ends_with("refused") { return None }
    let before = vec![all[ch.choose(all.len())].clone()];
    if before[0].starts_with('+') && is_dialog(k) { return None }
    Some(conversation(p, "* PREAUTH hi\r\n", &[k, 0], &Voice { before, ..Voice::default() }))
}
