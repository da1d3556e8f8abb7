//! TLS endpoints: the stream under test gets its connection from a handshake over the simulated
//! socket; the peer is a `rustls` connection owned by the harness.
use std::future::Future;
use std::io::{Read, Write};
use std::sync::{Arc, OnceLock};
use std::task::{Context, Poll, Waker};

use imap_next::stream::Stream;
use rustls::pki_types::{pem::PemObject, CertificateDer, PrivateKeyDer, ServerName};
use rustls::{ClientConfig, Connection, RootCertStore, ServerConfig};
use simrt::End;
use tokio::net::TcpStream;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct TlsCfg {
    pub v13: bool,
    /// the stream under test is the TLS client
    pub client: bool,
    /// largest record the peer sends
    pub frag: usize,
}
fn certs() -> Vec<CertificateDer<'static>> { CertificateDer::pem_slice_iter(include_bytes!("../../pki/goodchain.pem")).map(|c| c.unwrap()).collect() }
static V13: [&rustls::SupportedProtocolVersion; 1] = [&rustls::version::TLS13];
static V12: [&rustls::SupportedProtocolVersion; 1] = [&rustls::version::TLS12];
fn versions(v13: bool) -> &'static [&'static rustls::SupportedProtocolVersion] { if v13 { &V13 } else { &V12 } }
fn server_cfg(v13: bool) -> Arc<ServerConfig> {
    static C: [OnceLock<Arc<ServerConfig>>; 2] = [const { OnceLock::new() }; 2];
    C[v13 as usize].get_or_init(|| {
        let key = PrivateKeyDer::from_pem_slice(include_bytes!("../../pki/good.key")).unwrap();
        let mut c = ServerConfig::builder_with_protocol_versions(versions(v13)).with_no_client_auth().with_single_cert(certs(), key).unwrap();
        c.send_half_rtt_data = true;
        // No resumption: every execution performs the same full handshake.
        c.session_storage = Arc::new(rustls::server::NoServerSessionStorage {});
        Arc::new(c)
    }).clone()
}
fn client_cfg(v13: bool) -> Arc<ClientConfig> {
    static C: [OnceLock<Arc<ClientConfig>>; 2] = [const { OnceLock::new() }; 2];
    C[v13 as usize].get_or_init(|| {
        let mut r = RootCertStore::empty();
        r.add(CertificateDer::from_pem_slice(include_bytes!("../../pki/ca.pem")).unwrap()).unwrap();
        let mut c = ClientConfig::builder_with_protocol_versions(versions(v13)).with_root_certificates(r).with_no_client_auth();
        c.resumption = rustls::client::Resumption::disabled();
        Arc::new(c)
    }).clone()
}
/// Everything the connection wants to send.
pub fn drain(c: &mut Connection) -> Vec<u8> { let mut v = vec![]; while c.wants_write() { c.write_tls(&mut v).unwrap(); } v }
/// Plaintext the peer gets from these ciphertext bytes.
pub fn feed(c: &mut Connection, mut b: &[u8], out: &mut Vec<u8>) -> Result<(), rustls::Error> {
    while !b.is_empty() {
        if c.read_tls(&mut b).is_err() { return Ok(()); }
        c.process_new_packets()?;
        let mut t = [0; 4096];
        while let Ok(n) = c.reader().read(&mut t) { if n == 0 { break } out.extend(&t[..n]) }
    }
    Ok(())
}
/// Ciphertext records for `plain` and, per record, (ciphertext end, plaintext end).
pub fn records(c: &mut Connection, plain: &[u8], frag: usize) -> (Vec<u8>, Vec<(usize, usize)>) {
    let (mut out, mut marks, mut p) = (drain(c), vec![], 0);
    for ch in plain.chunks(frag) { c.writer().write_all(ch).unwrap(); out.extend(drain(c)); p += ch.len(); marks.push((out.len(), p)); }
    (out, marks)
}
pub struct Handshaken { pub stream: Stream, pub peer: Connection, pub cipher: Vec<u8>, pub marks: Vec<(usize, usize)>, pub early: usize }
/// Performs the handshake. The peer sends `plain` as soon as it can; the first `tail` bytes of its
/// ciphertext travel together with the last part of the handshake.
pub fn establish(cfg: TlsCfg, local: End, remote: &End, plain: &[u8], tail: usize) -> Handshaken {
    let tcp = TcpStream::from_end(local);
    let name = ServerName::try_from("imap.test").unwrap();
    let mut peer: Connection = if cfg.client { rustls::ServerConnection::new(server_cfg(cfg.v13)).unwrap().into() } else { rustls::ClientConnection::new(client_cfg(cfg.v13), name.clone()).unwrap().into() };
    peer.set_buffer_limit(None);
    type F = std::pin::Pin<Box<dyn Future<Output = std::io::Result<tokio_rustls::TlsStream<TcpStream>>>>>;
    let mut fut: F = if cfg.client {
        let c = tokio_rustls::TlsConnector::from(client_cfg(cfg.v13));
        Box::pin(async move { c.connect(name, tcp).await.map(Into::into) })
    } else {
        let a = tokio_rustls::TlsAcceptor::from(server_cfg(cfg.v13));
        Box::pin(async move { a.accept(tcp).await.map(Into::into) })
    };
    let mut cx = Context::from_waker(Waker::noop());
    let (mut cipher, mut marks, mut early, mut wrote) = (vec![], vec![], 0, false);
    for _ in 0..20 {
        if let Poll::Ready(r) = fut.as_mut().poll(&mut cx) {
            let got = remote.take_all();
            feed(&mut peer, &got, &mut vec![]).expect("MC-ENGINE: peer handshake");
            if !wrote { (cipher, marks) = records(&mut peer, plain, cfg.frag); }
            let left = cipher[early..].to_vec();
            return Handshaken { stream: Stream::tls(r.expect("MC-ENGINE: handshake of the code under test")), peer, cipher: left, marks, early };
        }
        let got = remote.take_all();
        feed(&mut peer, &got, &mut vec![]).expect("MC-ENGINE: peer handshake");
        let mut flight = drain(&mut peer);
        // May application data follow this flight?
        if !wrote && !flight.is_empty() && tail > 0 && (!peer.is_handshaking() || (cfg.client && cfg.v13)) {
            (cipher, marks) = records(&mut peer, plain, cfg.frag);
            if !cipher.is_empty() { wrote = true; early = tail.min(cipher.len()); flight.extend(&cipher[..early]); }
        }
        if !flight.is_empty() { remote.push(&flight) }
    }
    panic!("MC-ENGINE: handshake does not end")
}
pub async fn accept(e: End, v13: bool) -> Stream { Stream::tls(tokio_rustls::TlsAcceptor::from(server_cfg(v13)).accept(TcpStream::from_end(e)).await.expect("MC-ENGINE: accept").into()) }
pub async fn connect(e: End, v13: bool) -> Stream { Stream::tls(tokio_rustls::TlsConnector::from(client_cfg(v13)).connect(ServerName::try_from("imap.test").unwrap(), TcpStream::from_end(e)).await.expect("MC-ENGINE: connect").into()) }
