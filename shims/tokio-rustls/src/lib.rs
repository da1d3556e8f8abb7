//! Stand-in for `tokio-rustls` (not available offline): the same API around the real `rustls`, with
//! the handshake driven the way the original does it, so whatever application data arrives together
//! with the end of the handshake stays inside the `rustls` connection.
use std::future::Future;
use std::io;
use std::ops::{Deref, DerefMut};
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};

pub use rustls;
use rustls::pki_types::ServerName;
use rustls::{ClientConfig, ClientConnection, ConnectionCommon, ServerConfig, ServerConnection, SideData};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

struct SyncIo<'a, 'b, T>(&'a mut T, &'a mut Context<'b>);
impl<T: AsyncRead + Unpin> io::Read for SyncIo<'_, '_, T> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut b = ReadBuf::new(buf);
        match Pin::new(&mut *self.0).poll_read(self.1, &mut b) { Poll::Ready(Ok(())) => Ok(b.filled().len()), Poll::Ready(Err(e)) => Err(e), Poll::Pending => Err(io::ErrorKind::WouldBlock.into()) }
    }
}
impl<T: AsyncWrite + Unpin> io::Write for SyncIo<'_, '_, T> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        match Pin::new(&mut *self.0).poll_write(self.1, buf) { Poll::Ready(r) => r, Poll::Pending => Err(io::ErrorKind::WouldBlock.into()) }
    }
    fn flush(&mut self) -> io::Result<()> {
        match Pin::new(&mut *self.0).poll_flush(self.1) { Poll::Ready(r) => r, Poll::Pending => Err(io::ErrorKind::WouldBlock.into()) }
    }
}
fn read_io<IO: AsyncRead + AsyncWrite + Unpin, S: SideData>(io: &mut IO, c: &mut ConnectionCommon<S>, cx: &mut Context<'_>) -> Poll<io::Result<usize>> {
    let n = match c.read_tls(&mut SyncIo(io, cx)) { Ok(n) => n, Err(e) if e.kind() == io::ErrorKind::WouldBlock => return Poll::Pending, Err(e) => return Poll::Ready(Err(e)) };
    if let Err(e) = c.process_new_packets() {
        // Last chance to send the alert.
        while c.wants_write() { match write_io(io, c, cx) { Poll::Ready(Ok(n)) if n > 0 => {} _ => break } }
        return Poll::Ready(Err(io::Error::new(io::ErrorKind::InvalidData, e)));
    }
    Poll::Ready(Ok(n))
}
fn write_io<IO: AsyncWrite + Unpin, S: SideData>(io: &mut IO, c: &mut ConnectionCommon<S>, cx: &mut Context<'_>) -> Poll<io::Result<usize>> {
    match c.write_tls(&mut SyncIo(io, cx)) { Ok(n) => Poll::Ready(Ok(n)), Err(e) if e.kind() == io::ErrorKind::WouldBlock => Poll::Pending, Err(e) => Poll::Ready(Err(e)) }
}
fn handshake<IO: AsyncRead + AsyncWrite + Unpin, S: SideData>(io: &mut IO, c: &mut ConnectionCommon<S>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
    let mut eof = false;
    loop {
        let (mut write_block, mut read_block, mut need_flush) = (false, false, false);
        while c.wants_write() {
            match write_io(io, c, cx) {
                Poll::Ready(Ok(0)) => return Poll::Ready(Err(io::ErrorKind::WriteZero.into())),
                Poll::Ready(Ok(_)) => need_flush = true,
                Poll::Pending => { write_block = true; break }
                Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
            }
        }
        if need_flush { match Pin::new(&mut *io).poll_flush(cx) { Poll::Ready(Ok(())) => {} Poll::Ready(Err(e)) => return Poll::Ready(Err(e)), Poll::Pending => write_block = true } }
        while !eof && c.wants_read() {
            match read_io(io, c, cx) {
                Poll::Ready(Ok(0)) => eof = true,
                Poll::Ready(Ok(_)) => {}
                Poll::Pending => { read_block = true; break }
                Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
            }
        }
        return match (eof, c.is_handshaking()) {
            (true, true) => Poll::Ready(Err(io::Error::new(io::ErrorKind::UnexpectedEof, "tls handshake eof"))),
            (_, false) => Poll::Ready(Ok(())),
            (_, true) if write_block || read_block => Poll::Pending,
            (_, true) => continue,
        };
    }
}
async fn finish<IO: AsyncRead + AsyncWrite + Unpin, C, S: SideData>(io: &mut IO, conn: &mut C) -> io::Result<()> where C: DerefMut + Deref<Target = ConnectionCommon<S>> {
    std::future::poll_fn(|cx| handshake(io, conn, cx)).await?;
    // The rest of the handshake output (session tickets) goes out as far as possible.
    std::future::poll_fn(|cx| { while conn.wants_write() { match write_io(io, &mut **conn, cx) { Poll::Ready(Ok(n)) if n > 0 => {} _ => break } } Poll::Ready(()) }).await;
    Ok(())
}

macro_rules! side {
    ($conn:ty) => {
        pub struct TlsStream<IO> { pub(crate) io: IO, pub(crate) session: $conn }
        impl<IO: std::fmt::Debug> std::fmt::Debug for TlsStream<IO> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "TlsStream({:?})", self.io) } }
        impl<IO> TlsStream<IO> {
            pub fn get_ref(&self) -> (&IO, &$conn) { (&self.io, &self.session) }
            pub fn get_mut(&mut self) -> (&mut IO, &mut $conn) { (&mut self.io, &mut self.session) }
            pub fn into_inner(self) -> (IO, $conn) { (self.io, self.session) }
        }
        impl<IO: AsyncRead + AsyncWrite + Unpin> AsyncRead for TlsStream<IO> {
            fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> { let t = self.get_mut(); stream_read(&mut t.io, &mut t.session, cx, buf) }
        }
        impl<IO: AsyncRead + AsyncWrite + Unpin> AsyncWrite for TlsStream<IO> {
            fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> { let t = self.get_mut(); stream_write(&mut t.io, &mut t.session, cx, b) }
            fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> { let t = self.get_mut(); stream_flush(&mut t.io, &mut t.session, cx) }
            fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
                let t = self.get_mut();
                t.session.send_close_notify();
                match stream_flush(&mut t.io, &mut t.session, cx) { Poll::Ready(Ok(())) => Pin::new(&mut t.io).poll_shutdown(cx), o => o }
            }
        }
    };
}
fn stream_read<IO: AsyncRead + AsyncWrite + Unpin, S: SideData>(io: &mut IO, c: &mut ConnectionCommon<S>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
    let (mut pending, mut eof) = (false, false);
    while c.wants_read() && !eof {
        match read_io(io, c, cx) { Poll::Ready(Ok(0)) => eof = true, Poll::Ready(Ok(_)) => {} Poll::Pending => { pending = true; break } Poll::Ready(Err(e)) => return Poll::Ready(Err(e)) }
    }
    let mut tmp = vec![0; buf.remaining()];
    match io::Read::read(&mut c.reader(), &mut tmp) {
        Ok(n) => { buf.put_slice(&tmp[..n]); Poll::Ready(Ok(())) }
        Err(e) if e.kind() == io::ErrorKind::WouldBlock => { if !pending { cx.waker().wake_by_ref() } Poll::Pending }
        Err(e) => Poll::Ready(Err(e)),
    }
}
fn stream_write<IO: AsyncRead + AsyncWrite + Unpin, S: SideData>(io: &mut IO, c: &mut ConnectionCommon<S>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
    let mut pos = 0;
    while pos != b.len() {
        match io::Write::write(&mut c.writer(), &b[pos..]) { Ok(n) => pos += n, Err(e) => return Poll::Ready(Err(e)) }
        let mut blocked = false;
        while c.wants_write() { match write_io(io, c, cx) { Poll::Ready(Ok(0)) | Poll::Pending => { blocked = true; break } Poll::Ready(Ok(_)) => {} Poll::Ready(Err(e)) => return Poll::Ready(Err(e)) } }
        match (pos, blocked) { (0, true) => return Poll::Pending, (n, true) => return Poll::Ready(Ok(n)), _ => {} }
    }
    Poll::Ready(Ok(pos))
}
fn stream_flush<IO: AsyncRead + AsyncWrite + Unpin, S: SideData>(io: &mut IO, c: &mut ConnectionCommon<S>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
    io::Write::flush(&mut c.writer())?;
    while c.wants_write() { match write_io(io, c, cx) { Poll::Ready(Ok(0)) => return Poll::Ready(Err(io::ErrorKind::WriteZero.into())), Poll::Ready(Ok(_)) => {} Poll::Pending => return Poll::Pending, Poll::Ready(Err(e)) => return Poll::Ready(Err(e)) } }
    Pin::new(io).poll_flush(cx)
}
pub mod client { use super::*; side!(ClientConnection); }
pub mod server { use super::*; side!(ServerConnection); }

/// Unified stream of either side.
#[derive(Debug)]
#[allow(clippy::large_enum_variant)]
pub enum TlsStream<IO> { Client(client::TlsStream<IO>), Server(server::TlsStream<IO>) }
impl<IO> From<client::TlsStream<IO>> for TlsStream<IO> { fn from(s: client::TlsStream<IO>) -> Self { TlsStream::Client(s) } }
impl<IO> From<server::TlsStream<IO>> for TlsStream<IO> { fn from(s: server::TlsStream<IO>) -> Self { TlsStream::Server(s) } }
impl<IO: AsyncRead + AsyncWrite + Unpin> AsyncRead for TlsStream<IO> {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> { match self.get_mut() { TlsStream::Client(s) => Pin::new(s).poll_read(cx, buf), TlsStream::Server(s) => Pin::new(s).poll_read(cx, buf) } }
}
impl<IO: AsyncRead + AsyncWrite + Unpin> AsyncWrite for TlsStream<IO> {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> { match self.get_mut() { TlsStream::Client(s) => Pin::new(s).poll_write(cx, b), TlsStream::Server(s) => Pin::new(s).poll_write(cx, b) } }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> { match self.get_mut() { TlsStream::Client(s) => Pin::new(s).poll_flush(cx), TlsStream::Server(s) => Pin::new(s).poll_flush(cx) } }
    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> { match self.get_mut() { TlsStream::Client(s) => Pin::new(s).poll_shutdown(cx), TlsStream::Server(s) => Pin::new(s).poll_shutdown(cx) } }
}

#[derive(Clone)]
pub struct TlsAcceptor { inner: Arc<ServerConfig> }
impl From<Arc<ServerConfig>> for TlsAcceptor { fn from(inner: Arc<ServerConfig>) -> Self { TlsAcceptor { inner } } }
type Boxed<'a, T> = Pin<Box<dyn Future<Output = io::Result<T>> + Send + 'a>>;
/// Handshake as a server.
pub struct Accept<'a, IO>(Boxed<'a, server::TlsStream<IO>>);
impl<IO> Future for Accept<'_, IO> { type Output = io::Result<server::TlsStream<IO>>; fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> { self.0.as_mut().poll(cx) } }
impl TlsAcceptor {
    pub fn accept<'a, IO: AsyncRead + AsyncWrite + Unpin + Send + 'a>(&self, mut io: IO) -> Accept<'a, IO> {
        let session = ServerConnection::new(self.inner.clone());
        Accept(Box::pin(async move {
            let mut session = session.map_err(|e| io::Error::new(io::ErrorKind::Other, e))?;
            finish(&mut io, &mut session).await?;
            Ok(server::TlsStream { io, session })
        }))
    }
    pub fn config(&self) -> &Arc<ServerConfig> { &self.inner }
}
#[derive(Clone)]
pub struct TlsConnector { inner: Arc<ClientConfig> }
impl From<Arc<ClientConfig>> for TlsConnector { fn from(inner: Arc<ClientConfig>) -> Self { TlsConnector { inner } } }
/// Handshake as a client.
pub struct Connect<'a, IO>(Boxed<'a, client::TlsStream<IO>>);
impl<IO> Future for Connect<'_, IO> { type Output = io::Result<client::TlsStream<IO>>; fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> { self.0.as_mut().poll(cx) } }
impl TlsConnector {
    pub fn connect<'a, IO: AsyncRead + AsyncWrite + Unpin + Send + 'a>(&self, domain: ServerName<'static>, mut io: IO) -> Connect<'a, IO> {
        let session = ClientConnection::new(self.inner.clone(), domain);
        Connect(Box::pin(async move {
            let mut session = session.map_err(|e| io::Error::new(io::ErrorKind::Other, e))?;
            finish(&mut io, &mut session).await?;
            Ok(client::TlsStream { io, session })
        }))
    }
    pub fn config(&self) -> &Arc<ClientConfig> { &self.inner }
}
