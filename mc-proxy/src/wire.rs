//! Peers of the proxy: one end of a simulated connection, in plain text or with TLS.
use std::io::{Read, Write};
use std::sync::{Arc, OnceLock};

use rustls::pki_types::{pem::PemObject, CertificateDer, PrivateKeyDer, ServerName};
use rustls::{ClientConfig, Connection, RootCertStore, ServerConfig};
use simrt::End;

pub fn client_cfg() -> Arc<ClientConfig> {
    static C: OnceLock<Arc<ClientConfig>> = OnceLock::new();
    C.get_or_init(|| {
        let mut r = RootCertStore::empty();
        r.add(CertificateDer::from_pem_slice(include_bytes!("../../pki/ca.pem")).unwrap()).unwrap();
        let mut c = ClientConfig::builder().with_root_certificates(r).with_no_client_auth();
        c.resumption = rustls::client::Resumption::disabled();
        Arc::new(c)
    }).clone()
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Cert { GoodChain, Direct, NoIntermediate, Untrusted, Expired, WrongName }
pub const CERTS: [Cert; 6] = [Cert::GoodChain, Cert::Direct, Cert::NoIntermediate, Cert::Untrusted, Cert::Expired, Cert::WrongName];
pub fn server_cfg(c: Cert) -> Arc<ServerConfig> {
    static C: [OnceLock<Arc<ServerConfig>>; 6] = [const { OnceLock::new() }; 6];
    C[c as usize].get_or_init(|| {
        macro_rules! f { ($n:literal, $k:literal) => { (&include_bytes!(concat!("../../pki/", $n, ".pem"))[..], &include_bytes!(concat!("../../pki/", $k, ".key"))[..]) } }
        let (pem, key) = match c {
            Cert::GoodChain => f!("goodchain", "good"), Cert::Direct => f!("direct", "direct"), Cert::NoIntermediate => f!("good", "good"),
            Cert::Untrusted => f!("untrusted", "untrusted"), Cert::Expired => f!("expired", "expired"), Cert::WrongName => f!("wrongname", "wrongname"),
        };
        let chain: Vec<_> = CertificateDer::pem_slice_iter(pem).map(|c| c.unwrap()).collect();
        let mut c = ServerConfig::builder().with_no_client_auth().with_single_cert(chain, PrivateKeyDer::from_pem_slice(key).unwrap()).unwrap();
        c.session_storage = Arc::new(rustls::server::NoServerSessionStorage {});
        Arc::new(c)
    }).clone()
}

pub struct Wire {
    pub end: Option<End>,
    tls: Option<Connection>,
    /// plain text received
    pub rx: Vec<u8>,
    /// bytes received as they were on the wire
    pub raw: Vec<u8>,
    pub tls_err: Option<String>,
    /// we sent our last byte
    pub done: bool,
    /// does not read
    pub deaf: bool,
    /// still has to greet
    pub greet: bool,
    held: Option<Vec<u8>>,
}
impl Wire {
    pub fn plain(end: End) -> Self { Wire { end: Some(end), tls: None, rx: vec![], raw: vec![], tls_err: None, done: false, deaf: false, greet: false, held: None } }
    fn with(end: End, mut c: Connection) -> Self { c.set_buffer_limit(None); let mut w = Wire { tls: Some(c), ..Wire::plain(end) }; w.flush(); w }
    pub fn tls_client(end: End, name: &str) -> Self { Self::with(end, rustls::ClientConnection::new(client_cfg(), ServerName::try_from(name.to_string()).unwrap()).unwrap().into()) }
    pub fn tls_server(end: End, cert: Cert) -> Self { Self::with(end, rustls::ServerConnection::new(server_cfg(cert)).unwrap().into()) }
    fn flush(&mut self) {
        let Some(c) = &mut self.tls else { return };
        let mut v = vec![];
        while c.wants_write() { c.write_tls(&mut v).unwrap(); }
        if let Some(h) = &mut self.held { h.extend(v); return }
        if let Some(e) = &self.end { if !v.is_empty() && !self.done { e.push(&v) } }
    }
    /// Receives up to `n` bytes from the wire.
    pub fn pump(&mut self, n: usize) {
        let Some(e) = &self.end else { return };
        let got = e.take(n);
        self.raw.extend(&got);
        match &mut self.tls {
            None => self.rx.extend(got),
            Some(c) => {
                let mut b = &got[..];
                while !b.is_empty() && self.tls_err.is_none() {
                    if c.read_tls(&mut b).is_err() { break }
                    if let Err(e) = c.process_new_packets() { self.tls_err = Some(e.to_string()) }
                    let mut t = [0; 4096];
                    while let Ok(n) = c.reader().read(&mut t) { if n == 0 { break } self.rx.extend(&t[..n]) }
                }
                self.flush();
            }
        }
    }
    pub fn send(&mut self, b: &[u8]) {
        match &mut self.tls {
            None => if let Some(e) = &self.end { e.push(b) },
            Some(c) => { let _ = c.writer().write_all(b); self.flush() }
        }
    }
    /// Keeps what is sent back until `release`.
    pub fn hold(&mut self) { self.held = Some(vec![]) }
    pub fn release(&mut self) -> Vec<u8> { self.held.take().unwrap_or_default() }
    /// Bytes outside TLS.
    pub fn send_raw(&mut self, b: &[u8]) { if let Some(e) = &self.end { e.push(b) } }
    pub fn secure(&self) -> bool { self.tls.as_ref().is_none_or(|c| !c.is_handshaking()) && self.tls_err.is_none() }
    pub fn fin(&mut self) {
        if let Some(c) = &mut self.tls { if !c.is_handshaking() { c.send_close_notify() } }
        self.flush();
        self.done = true;
        if let Some(e) = &self.end { e.shutdown() }
    }
    pub fn reset(&mut self) { self.done = true; if let Some(e) = &self.end { e.fail_reads(std::io::ErrorKind::ConnectionReset); e.fail_writes(std::io::ErrorKind::ConnectionReset) } }
    pub fn drop_end(&mut self) { self.done = true; self.end = None }
    /// Bytes that wait to be taken.
    pub fn pending(&self) -> usize { self.end.as_ref().map_or(0, |e| e.pending()) }
    /// Bytes we sent that the proxy did not take.
    pub fn unread(&self) -> usize { self.end.as_ref().map_or(0, |e| e.unread()) }
    /// The proxy closed this connection completely.
    pub fn closed(&self) -> bool { self.end.as_ref().is_none_or(|e| e.peer_closed() && e.peer_gone()) }
}

/// Splits received bytes into messages; a line that announces a literal continues with it.
#[derive(Default, Clone)]
pub struct Units {
    pub units: Vec<Vec<u8>>,
    pub partial: Vec<u8>,
    pub pos: usize,
    pub literal: usize,
    /// pause after the announcement of a synchronizing literal
    pub ask: bool,
    pub asking: Option<usize>,
}
impl Units {
    pub fn feed(&mut self, all: &[u8]) {
        while self.pos < all.len() && self.asking.is_none() {
            if self.literal > 0 {
                let n = self.literal.min(all.len() - self.pos);
                self.partial.extend(&all[self.pos..self.pos + n]);
                self.pos += n;
                self.literal -= n;
                continue;
            }
            let Some(k) = all[self.pos..].iter().position(|c| *c == b'\n') else { break };
            let line = &all[self.pos..=self.pos + k];
            self.pos += k + 1;
            self.partial.extend(line);
            // the text of a status announces nothing
            match announced(line).filter(|_| self.partial.len() > line.len() || !is_status(line)) {
                Some((n, true)) if self.ask => self.asking = Some(n),
                Some((n, _)) => self.literal = n,
                None => self.units.push(std::mem::take(&mut self.partial)),
            }
        }
    }
    pub fn go_ahead(&mut self) { if let Some(n) = self.asking.take() { self.literal = n } }
    pub fn refuse(&mut self) -> Vec<u8> { self.asking = None; let p = std::mem::take(&mut self.partial); self.units.push(p.clone()); p }
    /// Everything that arrived but is no complete message.
    pub fn rest<'a>(&self, all: &'a [u8]) -> (Vec<u8>, &'a [u8]) { (self.partial.clone(), &all[self.pos..]) }
}
pub use mc_engine::kinds::announced;
fn is_status(line: &[u8]) -> bool {
    let w: Vec<&[u8]> = line.splitn(3, |c| *c == b' ').collect();
    w[0] == b"+" || (w.len() == 3 && [&b"OK"[..], b"NO", b"BAD", b"BYE", b"PREAUTH"].contains(&w[1]))
}
