//! Reference interpretation of an IMAP byte stream, written independently of `src/receive.rs`.
//!
//! It is a pure function of the bytes received so far: the message boundaries, the literal
//! announcements that get accepted, and the errors. It therefore does not depend on how the bytes
//! were cut into segments.
use imap_codec::decode::*;
use imap_codec::{AuthenticateDataCodec, CommandCodec, GreetingCodec, IdleDoneCodec, ResponseCodec};
use imap_types::core::LiteralMode;

#[derive(Clone, Debug, PartialEq)]
pub enum Dec<M> { Msg(M), Lit { len: u32, sync: bool, tag: Option<String> }, Bad }

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome<M> {
    NeedMore,
    Msg(M, usize),
    Malformed(usize),
    LfOnly(usize),
    TooLong(usize),
    LitTooLong { len: usize, tag: String, sync: bool, size: u32 },
}
#[derive(Clone, Debug, PartialEq)]
pub struct Framed<M> {
    pub outcome: Outcome<M>,
    /// Sync flags of the literals accepted so far in the current message.
    pub accepts: Vec<bool>,
}

pub struct Limits { pub relaxed: bool, pub max_msg: Option<usize>, pub max_lit: Option<u32> }

pub fn frame<'a, M>(buf: &'a [u8], lim: &Limits, dec: impl Fn(&'a [u8]) -> Dec<M>) -> Framed<M> {
    let cap = lim.max_msg.unwrap_or(usize::MAX);
    let mut accepts = vec![];
    let mut line_start = 0usize;
    let out = loop {
        // Is there a line feed at an index below both the available bytes and the limit?
        let mut i = line_start;
        let lf = loop {
            if i >= buf.len() || i >= cap { break None; }
            if buf[i] == b'\n' { break Some(i); }
            i += 1;
        };
        let Some(lf) = lf else {
            break if buf.len() >= cap { Outcome::TooLong(cap) } else { Outcome::NeedMore };
        };
        let end = lf + 1;
        if !lim.relaxed && (lf == line_start || buf[lf - 1] != b'\r') { break Outcome::LfOnly(end); }
        match dec(&buf[..end]) {
            Dec::Msg(m) => break Outcome::Msg(m, end),
            Dec::Bad => break Outcome::Malformed(end),
            Dec::Lit { len, sync, tag } => {
                if lim.max_lit.is_some_and(|m| len > m) {
                    break Outcome::LitTooLong { len: end, tag: tag.unwrap_or_default(), sync, size: len };
                }
                accepts.push(sync);
                let need = end as u64 + len as u64;
                if need > cap as u64 {
                    break if buf.len() >= cap { Outcome::TooLong(cap) } else { Outcome::NeedMore };
                }
                if (buf.len() as u64) < need { break if buf.len() >= cap { Outcome::TooLong(cap) } else { Outcome::NeedMore }; }
                line_start = need as usize;
            }
        }
    };
    Framed { outcome: out, accepts }
}

pub fn dec_greeting(b: &[u8]) -> Dec<imap_types::response::Greeting<'_>> {
    match GreetingCodec::default().decode(b) { Ok((r, m)) if r.is_empty() => Dec::Msg(m), _ => Dec::Bad }
}
pub fn dec_response(b: &[u8]) -> Dec<imap_types::response::Response<'_>> {
    match ResponseCodec::default().decode(b) {
        Ok((r, m)) if r.is_empty() => Dec::Msg(m),
        Err(ResponseDecodeError::LiteralFound { length }) => Dec::Lit { len: length, sync: false, tag: None },
        _ => Dec::Bad,
    }
}
pub fn dec_command(b: &[u8]) -> Dec<imap_types::command::Command<'_>> {
    match CommandCodec::default().decode(b) {
        Ok((r, m)) if r.is_empty() => Dec::Msg(m),
        Err(CommandDecodeError::LiteralFound { tag, length, mode }) => Dec::Lit { len: length, sync: mode == LiteralMode::Sync, tag: Some(tag.inner().to_string()) },
        _ => Dec::Bad,
    }
}
pub fn dec_auth(b: &[u8]) -> Dec<imap_types::auth::AuthenticateData<'_>> {
    match AuthenticateDataCodec::default().decode(b) { Ok((r, m)) if r.is_empty() => Dec::Msg(m), _ => Dec::Bad }
}
pub fn dec_idle(b: &[u8]) -> Dec<()> {
    match IdleDoneCodec::default().decode(b) { Ok((r, _)) if r.is_empty() => Dec::Msg(()), _ => Dec::Bad }
}

/// Received bytes that were not consumed yet.
#[derive(Clone, Default)]
pub struct Unread { v: Vec<u8>, at: usize }
impl Unread {
    pub fn push(&mut self, b: &[u8]) { self.v.extend_from_slice(b) }
    pub fn take(&mut self, n: usize) {
        assert!(n <= self.len());
        self.at += n;
        if self.at * 2 >= self.v.len() { self.v.drain(..self.at); self.at = 0 }
    }
}
impl std::ops::Deref for Unread { type Target = [u8]; fn deref(&self) -> &[u8] { &self.v[self.at..] } }
/// What of a sequence tells states apart: all of it, unless it is long (long ones occur only in scenarios that don't prune).
pub fn telling<T: std::hash::Hash>(v: &[T], h: &mut impl std::hash::Hasher) {
    use std::hash::Hash;
    v.len().hash(h);
    if v.len() <= 8192 { v.hash(h) } else { v[..64].hash(h); v[v.len() - 64..].hash(h) }
}
