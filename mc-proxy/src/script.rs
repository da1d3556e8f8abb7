//! Builders for client and server scripts.
use crate::sess::{Act, Item, When};
use crate::wire::announced;

#[derive(Clone)]
pub struct C { pub v: Vec<Item>, when: When, plus: usize }
impl C {
    pub fn new() -> Self { C { v: vec![], when: When::Now, plus: 0 } }
    /// Waits for the greeting first.
    pub fn greeted() -> Self { C { when: When::Units(1), ..C::new() } }
    fn push(&mut self, a: Act) { let w = std::mem::replace(&mut self.when, When::Now); self.v.push(Item(w, a)) }
    pub fn at(mut self, w: When) -> Self { self.when = w; self }
    /// A command; synchronizing literals wait for the go-ahead.
    pub fn cmd(mut self, text: &str) -> Self {
        let (b, mut from, mut i) = (text.as_bytes(), 0, 0);
        while i < b.len() {
            let e = i + b[i..].iter().position(|c| *c == b'\n').expect("MC-ENGINE: line") + 1;
            match announced(&b[i..e]) {
                Some((n, true)) => { self.push(Act::Send(b[from..e].to_vec())); self.plus += 1; self.when = When::Plus(self.plus); from = e; i = e + n }
                Some((n, false)) => i = e + n,
                None => i = e,
            }
        }
        self.push(Act::Send(b[from..].to_vec()));
        self
    }
    /// A line that answers a continuation request.
    pub fn answer(mut self, text: &str) -> Self { self.plus += 1; self.when = When::Plus(self.plus); self.push(Act::Send(text.into())); self }
    pub fn tagged(self, t: &'static str) -> Self { self.at(When::Has(t)) }
    pub fn noise(mut self, b: &[u8]) -> Self { self.push(Act::Noise(b.into())); self }
    /// An announcement that the proxy itself refuses.
    pub fn act(mut self, a: Act) -> Self { self.push(a); self }
}
#[derive(Clone)]
pub struct V { pub v: Vec<Item>, when: When }
impl V {
    pub fn new(greeting: &str) -> Self { V { v: vec![Item(When::Now, Act::Send(greeting.into()))], when: When::Now } }
    pub fn ok() -> Self { V::new("* OK hi\r\n") }
    fn push(&mut self, a: Act) { let w = std::mem::replace(&mut self.when, When::Now); self.v.push(Item(w, a)) }
    pub fn at(mut self, w: When) -> Self { self.when = w; self }
    pub fn after(self, n: usize) -> Self { self.at(When::Units(n)) }
    pub fn send(mut self, t: &str) -> Self { self.push(Act::Send(t.into())); self }
    pub fn noise(mut self, b: &[u8]) -> Self { self.push(Act::Noise(b.into())); self }
    pub fn go(mut self) -> Self { self.when = When::Asked; self.push(Act::GoAhead(b"+ go\r\n".to_vec())); self }
    pub fn go_with(mut self, t: &str) -> Self { self.when = When::Asked; self.push(Act::GoAhead(t.into())); self }
    pub fn refuse(mut self, t: &str) -> Self { self.when = When::Asked; self.push(Act::Refuse(t.into())); self }
    pub fn act(mut self, a: Act) -> Self { self.push(a); self }
}
