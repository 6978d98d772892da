use std::fmt;
use std::io;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, Shutdown, SocketAddr, SocketAddrV4, SocketAddrV6, ToSocketAddrs};
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};

use futures_lite::{future, prelude::*};

use crate::sock::{Lst, Sock};

/// Only literal addresses: there is no name service in the simulation
/// (`localhost` excepted).
pub trait AsyncToSocketAddrs: Sealed {}
pub trait Sealed {
    fn addrs(&self) -> io::Result<Vec<SocketAddr>>;
}
macro_rules! direct {
    ($($t:ty),*) => { $(
        impl AsyncToSocketAddrs for $t {}
        impl Sealed for $t {
            fn addrs(&self) -> io::Result<Vec<SocketAddr>> { Ok(self.to_socket_addrs()?.collect()) }
        }
    )* };
}
direct!(SocketAddr, SocketAddrV4, SocketAddrV6, (IpAddr, u16), (Ipv4Addr, u16), (Ipv6Addr, u16));
fn literal(s: &str) -> io::Result<Vec<SocketAddr>> {
    let t = s.replace("localhost:", "127.0.0.1:");
    t.parse().map(|a| vec![a]).map_err(|_| io::Error::new(io::ErrorKind::InvalidInput, "invalid socket address"))
}
impl AsyncToSocketAddrs for str {}
impl Sealed for str {
    fn addrs(&self) -> io::Result<Vec<SocketAddr>> {
        literal(self)
    }
}
impl AsyncToSocketAddrs for String {}
impl Sealed for String {
    fn addrs(&self) -> io::Result<Vec<SocketAddr>> {
        literal(self)
    }
}
impl AsyncToSocketAddrs for (&str, u16) {}
impl Sealed for (&str, u16) {
    fn addrs(&self) -> io::Result<Vec<SocketAddr>> {
        literal(&format!("{}:{}", self.0, self.1))
    }
}
impl AsyncToSocketAddrs for [SocketAddr] {}
impl Sealed for [SocketAddr] {
    fn addrs(&self) -> io::Result<Vec<SocketAddr>> {
        Ok(self.to_vec())
    }
}
impl<T: AsyncToSocketAddrs + ?Sized> AsyncToSocketAddrs for &T {}
impl<T: Sealed + ?Sized> Sealed for &T {
    fn addrs(&self) -> io::Result<Vec<SocketAddr>> {
        (**self).addrs()
    }
}

pub async fn resolve<A: AsyncToSocketAddrs>(addr: A) -> io::Result<Vec<SocketAddr>> {
    addr.addrs()
}

fn peer() -> SocketAddr {
    SocketAddr::from(([127, 0, 0, 1], 40000))
}

#[derive(Clone)]
pub struct TcpListener {
    inner: Arc<Lst>,
    addr: SocketAddr,
}
impl fmt::Debug for TcpListener {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "TcpListener({})", self.addr)
    }
}
impl TcpListener {
    pub async fn bind<A: AsyncToSocketAddrs>(addr: A) -> io::Result<TcpListener> {
        let mut last = io::Error::new(io::ErrorKind::InvalidInput, "could not resolve to any of the addresses");
        for mut a in addr.addrs()? {
            if a.port() == 0 {
                a.set_port(30000 + simrt::net::count_listeners() as u16);
            }
            match simrt::net::listen(&format!("tcp {}", a), None) {
                Ok(id) => return Ok(TcpListener { inner: Arc::new(Lst(id)), addr: a }),
                Err(e) => last = e,
            }
        }
        Err(last)
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(self.addr)
    }
    pub async fn accept(&self) -> io::Result<(TcpStream, SocketAddr)> {
        let id = self.inner.0;
        let c = future::poll_fn(|cx| simrt::net::poll_accept(id, cx)).await?;
        Ok((TcpStream { inner: Sock::new(c, 1) }, peer()))
    }
    pub fn incoming(&self) -> Incoming<'_> {
        Incoming { listener: self }
    }
    pub fn ttl(&self) -> io::Result<u32> {
        Ok(64)
    }
    pub fn set_ttl(&self, _: u32) -> io::Result<()> {
        Ok(())
    }
}

pub struct Incoming<'a> {
    listener: &'a TcpListener,
}
impl Stream for Incoming<'_> {
    type Item = io::Result<TcpStream>;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        simrt::net::poll_accept(self.listener.inner.0, cx)
            .map(|r| Some(r.map(|c| TcpStream { inner: Sock::new(c, 1) })))
    }
}
impl fmt::Debug for Incoming<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Incoming {{ ... }}")
    }
}

#[derive(Clone)]
pub struct TcpStream {
    inner: Arc<Sock>,
}
impl fmt::Debug for TcpStream {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "TcpStream({}/{})", self.inner.conn, self.inner.side)
    }
}
impl TcpStream {
    pub async fn connect<A: AsyncToSocketAddrs>(addr: A) -> io::Result<TcpStream> {
        let mut last = io::Error::new(io::ErrorKind::InvalidInput, "could not connect to any of the addresses");
        for a in addr.addrs()? {
            match simrt::net::connect(&format!("tcp {}", a), None) {
                Ok(c) => return Ok(TcpStream { inner: Sock::new(c, 0) }),
                Err(e) => last = e,
            }
        }
        Err(last)
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(peer())
    }
    pub fn peer_addr(&self) -> io::Result<SocketAddr> {
        Ok(peer())
    }
    pub fn shutdown(&self, how: Shutdown) -> io::Result<()> {
        self.inner.shutdown(how)
    }
    pub async fn peek(&self, buf: &mut [u8]) -> io::Result<usize> {
        let s = self.inner.clone();
        future::poll_fn(|cx| s.poll_read(cx, buf, true)).await
    }
    pub fn nodelay(&self) -> io::Result<bool> {
        Ok(false)
    }
    pub fn set_nodelay(&self, _: bool) -> io::Result<()> {
        Ok(())
    }
    pub fn ttl(&self) -> io::Result<u32> {
        Ok(64)
    }
    pub fn set_ttl(&self, _: u32) -> io::Result<()> {
        Ok(())
    }
}
impl AsyncRead for TcpStream {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        self.inner.poll_read(cx, buf, false)
    }
}
impl AsyncWrite for TcpStream {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        self.inner.poll_write(cx, buf)
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(self.inner.shutdown(Shutdown::Write))
    }
}
