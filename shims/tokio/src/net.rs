use std::io;
use std::net::SocketAddr;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};

use simrt::End;
use tokio_real::io::{AsyncRead, AsyncWrite, ReadBuf};

/// Anything that names an address.
pub trait ToSocketAddrs { fn name(&self) -> String; }
impl ToSocketAddrs for str { fn name(&self) -> String { self.to_string() } }
impl ToSocketAddrs for String { fn name(&self) -> String { self.clone() } }
impl ToSocketAddrs for SocketAddr { fn name(&self) -> String { self.to_string() } }
impl ToSocketAddrs for (&str, u16) { fn name(&self) -> String { format!("{}:{}", self.0, self.1) } }
impl ToSocketAddrs for (String, u16) { fn name(&self) -> String { format!("{}:{}", self.0, self.1) } }
impl ToSocketAddrs for (std::net::IpAddr, u16) { fn name(&self) -> String { SocketAddr::from(*self).to_string() } }
impl ToSocketAddrs for (std::net::Ipv4Addr, u16) { fn name(&self) -> String { SocketAddr::from(*self).to_string() } }
impl ToSocketAddrs for (std::net::Ipv6Addr, u16) { fn name(&self) -> String { SocketAddr::from(*self).to_string() } }
impl ToSocketAddrs for std::net::SocketAddrV4 { fn name(&self) -> String { self.to_string() } }
impl ToSocketAddrs for std::net::SocketAddrV6 { fn name(&self) -> String { self.to_string() } }
impl ToSocketAddrs for [SocketAddr] { fn name(&self) -> String { self.first().map(|a| a.to_string()).unwrap_or_default() } }
impl<T: ToSocketAddrs + ?Sized> ToSocketAddrs for &T { fn name(&self) -> String { (**self).name() } }

fn valid(name: &str) -> io::Result<()> {
    match name.rsplit_once(':') { Some((h, p)) if !h.is_empty() && p.parse::<u16>().is_ok() => Ok(()), _ => Err(io::Error::new(io::ErrorKind::InvalidInput, "invalid socket address")) }
}

pub struct TcpStream(Arc<End>);
impl std::fmt::Debug for TcpStream { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "TcpStream({})", self.0.peer) } }
fn do_read(e: &End, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
    if buf.remaining() == 0 { return Poll::Ready(Ok(())); }
    match e.poll_read(cx, buf.remaining()) { Poll::Ready(Ok(v)) => { buf.put_slice(&v); Poll::Ready(Ok(())) } Poll::Ready(Err(x)) => Poll::Ready(Err(x)), Poll::Pending => Poll::Pending }
}
impl TcpStream {
    /// Harness: wraps one end of a simulated connection.
    pub fn from_end(e: End) -> Self { TcpStream(Arc::new(e)) }
    pub async fn connect<A: ToSocketAddrs>(a: A) -> io::Result<TcpStream> { let n = a.name(); valid(&n)?; Ok(TcpStream(Arc::new(simrt::connect(n).await?))) }
    pub fn split(&mut self) -> (tcp::ReadHalf<'_>, tcp::WriteHalf<'_>) { (tcp::ReadHalf(&*self), tcp::WriteHalf(&*self)) }
    pub fn into_split(self) -> (tcp::OwnedReadHalf, tcp::OwnedWriteHalf) { (tcp::OwnedReadHalf(self.0.clone()), tcp::OwnedWriteHalf(self.0)) }
    pub fn set_nodelay(&self, _: bool) -> io::Result<()> { Ok(()) }
    pub fn nodelay(&self) -> io::Result<bool> { Ok(true) }
    pub fn set_linger(&self, _: Option<std::time::Duration>) -> io::Result<()> { Ok(()) }
    pub fn set_zero_linger(&self) -> io::Result<()> { Ok(()) }
    pub fn linger(&self) -> io::Result<Option<std::time::Duration>> { Ok(None) }
    pub fn set_ttl(&self, _: u32) -> io::Result<()> { Ok(()) }
    pub fn ttl(&self) -> io::Result<u32> { Ok(64) }
    pub fn take_error(&self) -> io::Result<Option<io::Error>> { Ok(None) }
}
macro_rules! reading {
    ($t:ty, $e:expr) => {
        impl $t {
            pub async fn readable(&self) -> io::Result<()> { std::future::poll_fn(|cx| self.poll_read_ready(cx)).await }
            pub fn poll_read_ready(&self, cx: &mut Context<'_>) -> Poll<io::Result<()>> { let e: &End = $e(self); if e.readable() { Poll::Ready(Ok(())) } else { e.want_read(cx); Poll::Pending } }
            pub fn try_read(&self, b: &mut [u8]) -> io::Result<usize> {
                let e: &End = $e(self);
                let mut cx = Context::from_waker(std::task::Waker::noop());
                match e.poll_read(&mut cx, b.len()) { Poll::Ready(Ok(v)) => { b[..v.len()].copy_from_slice(&v); Ok(v.len()) } Poll::Ready(Err(e)) => Err(e), Poll::Pending => Err(io::ErrorKind::WouldBlock.into()) }
            }
            pub fn try_read_buf<B: bytes::BufMut>(&self, b: &mut B) -> io::Result<usize> {
                // Like the original: what the buffer offers at once.
                let mut tmp = vec![0; b.chunk_mut().len()];
                let n = self.try_read(&mut tmp)?;
                b.put_slice(&tmp[..n]);
                Ok(n)
            }
            pub fn poll_peek(&self, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<usize>> { let e: &End = $e(self); match e.poll_peek(cx, buf.remaining()) { Poll::Ready(Ok(v)) => { buf.put_slice(&v); Poll::Ready(Ok(v.len())) } Poll::Ready(Err(x)) => Poll::Ready(Err(x)), Poll::Pending => Poll::Pending } }
            pub async fn peek(&self, buf: &mut [u8]) -> io::Result<usize> { let mut b = ReadBuf::new(buf); std::future::poll_fn(|cx| self.poll_peek(cx, &mut b)).await }
        }
    };
}
macro_rules! writing {
    ($t:ty, $e:expr) => {
        impl $t {
            pub async fn writable(&self) -> io::Result<()> { std::future::poll_fn(|cx| self.poll_write_ready(cx)).await }
            pub fn poll_write_ready(&self, cx: &mut Context<'_>) -> Poll<io::Result<()>> { let e: &End = $e(self); if e.writable() { Poll::Ready(Ok(())) } else { e.want_write(cx); Poll::Pending } }
            pub fn try_write(&self, b: &[u8]) -> io::Result<usize> { let e: &End = $e(self); let mut cx = Context::from_waker(std::task::Waker::noop()); match e.poll_write(&mut cx, b) { Poll::Ready(r) => r, Poll::Pending => Err(io::ErrorKind::WouldBlock.into()) } }
            pub fn try_write_vectored(&self, b: &[io::IoSlice<'_>]) -> io::Result<usize> { match b.iter().find(|b| !b.is_empty()) { Some(b) => self.try_write(b), None => Ok(0) } }
        }
    };
}
macro_rules! both {
    ($t:ty, $e:expr) => {
        impl $t {
            pub fn peer_addr(&self) -> io::Result<SocketAddr> { let e: &End = $e(self); Ok(e.peer) }
            pub fn local_addr(&self) -> io::Result<SocketAddr> { let e: &End = $e(self); Ok(e.local) }
            pub async fn ready(&self, i: crate::io::Interest) -> io::Result<crate::io::Ready> {
                let e: &End = $e(self);
                std::future::poll_fn(|cx| { let r = crate::io::Ready::of(i.is_readable() && e.readable(), i.is_writable() && e.writable()); if r.is_empty() { if i.is_readable() { e.want_read(cx) } if i.is_writable() { e.want_write(cx) } Poll::Pending } else { Poll::Ready(Ok(r)) } }).await
            }
        }
    };
}
reading!(TcpStream, |s: &TcpStream| unsafe { &*Arc::as_ptr(&s.0) });
writing!(TcpStream, |s: &TcpStream| unsafe { &*Arc::as_ptr(&s.0) });
both!(TcpStream, |s: &TcpStream| unsafe { &*Arc::as_ptr(&s.0) });
impl AsyncRead for TcpStream { fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> { do_read(&self.0, cx, buf) } }
impl AsyncWrite for TcpStream {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> { self.0.poll_write(cx, b) }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Ready(Ok(())) }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { self.0.shutdown(); Poll::Ready(Ok(())) }
}
pub mod tcp {
    use super::*;
    pub struct ReadHalf<'a>(pub(super) &'a TcpStream);
    pub struct WriteHalf<'a>(pub(super) &'a TcpStream);
    pub struct OwnedReadHalf(pub(super) Arc<End>);
    pub struct OwnedWriteHalf(pub(super) Arc<End>);
    impl AsyncRead for ReadHalf<'_> { fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> { do_read(&self.0 .0, cx, buf) } }
    impl AsyncRead for OwnedReadHalf { fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> { do_read(&self.0, cx, buf) } }
    impl AsyncWrite for WriteHalf<'_> {
        fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> { self.0 .0.poll_write(cx, b) }
        fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Ready(Ok(())) }
        fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { self.0 .0.shutdown(); Poll::Ready(Ok(())) }
    }
    impl AsyncWrite for OwnedWriteHalf {
        fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> { self.0.poll_write(cx, b) }
        fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Ready(Ok(())) }
        fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { self.0.shutdown(); Poll::Ready(Ok(())) }
    }
    impl Drop for OwnedWriteHalf { fn drop(&mut self) { self.0.shutdown() } }
    reading!(ReadHalf<'_>, |s: &ReadHalf<'_>| unsafe { &*Arc::as_ptr(&s.0 .0) });
    both!(ReadHalf<'_>, |s: &ReadHalf<'_>| unsafe { &*Arc::as_ptr(&s.0 .0) });
    writing!(WriteHalf<'_>, |s: &WriteHalf<'_>| unsafe { &*Arc::as_ptr(&s.0 .0) });
    both!(WriteHalf<'_>, |s: &WriteHalf<'_>| unsafe { &*Arc::as_ptr(&s.0 .0) });
    reading!(OwnedReadHalf, |s: &OwnedReadHalf| unsafe { &*Arc::as_ptr(&s.0) });
    both!(OwnedReadHalf, |s: &OwnedReadHalf| unsafe { &*Arc::as_ptr(&s.0) });
    writing!(OwnedWriteHalf, |s: &OwnedWriteHalf| unsafe { &*Arc::as_ptr(&s.0) });
    both!(OwnedWriteHalf, |s: &OwnedWriteHalf| unsafe { &*Arc::as_ptr(&s.0) });
    impl AsRef<TcpStream> for ReadHalf<'_> { fn as_ref(&self) -> &TcpStream { self.0 } }
    impl AsRef<TcpStream> for WriteHalf<'_> { fn as_ref(&self) -> &TcpStream { self.0 } }
    impl OwnedReadHalf { pub fn reunite(self, o: OwnedWriteHalf) -> Result<TcpStream, (Self, OwnedWriteHalf)> { if Arc::ptr_eq(&self.0, &o.0) { std::mem::forget(o); Ok(TcpStream(self.0)) } else { Err((self, o)) } } }
    impl OwnedWriteHalf { pub fn reunite(self, o: OwnedReadHalf) -> Result<TcpStream, (Self, OwnedReadHalf)> { match o.reunite(self) { Ok(s) => Ok(s), Err((o, s)) => Err((s, o)) } } pub fn forget(self) { std::mem::forget(self) } }
}

pub struct TcpListener { id: usize, addr: SocketAddr }
impl std::fmt::Debug for TcpListener { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "TcpListener({})", self.addr) } }
impl TcpListener {
    pub async fn bind<A: ToSocketAddrs>(a: A) -> io::Result<TcpListener> { let n = a.name(); valid(&n)?; let (id, addr) = simrt::bind(&n)?; Ok(TcpListener { id, addr }) }
    pub fn local_addr(&self) -> io::Result<SocketAddr> { Ok(self.addr) }
    pub async fn accept(&self) -> io::Result<(TcpStream, SocketAddr)> { let (e, a) = std::future::poll_fn(|cx| simrt::poll_accept(self.id, cx)).await?; Ok((TcpStream(Arc::new(e)), a)) }
}
impl TcpListener {
    pub fn poll_accept(&self, cx: &mut Context<'_>) -> Poll<io::Result<(TcpStream, SocketAddr)>> { simrt::poll_accept(self.id, cx).map_ok(|(e, a)| (TcpStream(Arc::new(e)), a)) }
    pub fn set_ttl(&self, _: u32) -> io::Result<()> { Ok(()) }
    pub fn ttl(&self) -> io::Result<u32> { Ok(64) }
}
/// Name resolution knows literal addresses and `localhost`.
pub async fn lookup_host<A: ToSocketAddrs>(a: A) -> io::Result<std::vec::IntoIter<SocketAddr>> {
    let n = a.name();
    valid(&n)?;
    n.replace("localhost:", "127.0.0.1:").parse::<SocketAddr>().map(|a| vec![a].into_iter()).map_err(|_| io::Error::new(io::ErrorKind::NotFound, "failed to lookup address information"))
}
impl Drop for TcpListener { fn drop(&mut self) { simrt::close_listener(self.id) } }
