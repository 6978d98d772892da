//! Unix domain sockets.
use std::fmt;
use std::io;
use std::net::Shutdown;
use std::path::Path;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};

use futures_lite::{future, prelude::*};

use crate::sock::{Lst, Sock};

#[doc(no_inline)]
pub use std::os::unix::net::SocketAddr;

fn some_addr() -> io::Result<SocketAddr> {
    SocketAddr::from_pathname("/sim/unnamed")
}
fn path_str(p: &Path) -> io::Result<&str> {
    // too long for an address
    SocketAddr::from_pathname(p)?;
    p.to_str().ok_or_else(|| io::Error::from_raw_os_error(22))
}

#[derive(Clone)]
pub struct UnixListener {
    inner: Arc<Lst>,
    path: Arc<str>,
}
impl fmt::Debug for UnixListener {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "UnixListener({})", self.path)
    }
}
impl UnixListener {
    pub fn bind<P: AsRef<Path>>(path: P) -> io::Result<UnixListener> {
        let p = path_str(path.as_ref())?;
        let id = simrt::net::listen(p, Some(p))?;
        Ok(UnixListener { inner: Arc::new(Lst(id)), path: p.into() })
    }
    pub async fn accept(&self) -> io::Result<(UnixStream, SocketAddr)> {
        let id = self.inner.0;
        let c = future::poll_fn(|cx| simrt::net::poll_accept(id, cx)).await?;
        Ok((UnixStream { inner: Sock::new(c, 1) }, some_addr()?))
    }
    pub fn incoming(&self) -> Incoming<'_> {
        Incoming { listener: self }
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        SocketAddr::from_pathname(&*self.path)
    }
}

pub struct Incoming<'a> {
    listener: &'a UnixListener,
}
impl Stream for Incoming<'_> {
    type Item = io::Result<UnixStream>;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        simrt::net::poll_accept(self.listener.inner.0, cx)
            .map(|r| Some(r.map(|c| UnixStream { inner: Sock::new(c, 1) })))
    }
}
impl fmt::Debug for Incoming<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Incoming {{ ... }}")
    }
}

#[derive(Clone)]
pub struct UnixStream {
    inner: Arc<Sock>,
}
impl fmt::Debug for UnixStream {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "UnixStream({}/{})", self.inner.conn, self.inner.side)
    }
}
impl UnixStream {
    pub async fn connect<P: AsRef<Path>>(path: P) -> io::Result<UnixStream> {
        let p = path_str(path.as_ref())?;
        let c = simrt::net::connect(p, Some(p))?;
        Ok(UnixStream { inner: Sock::new(c, 0) })
    }
    pub fn pair() -> io::Result<(UnixStream, UnixStream)> {
        let c = simrt::net::pair();
        Ok((UnixStream { inner: Sock::new(c, 0) }, UnixStream { inner: Sock::new(c, 1) }))
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        some_addr()
    }
    pub fn peer_addr(&self) -> io::Result<SocketAddr> {
        some_addr()
    }
    pub fn shutdown(&self, how: Shutdown) -> io::Result<()> {
        self.inner.shutdown(how)
    }
}
impl AsyncRead for UnixStream {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        self.inner.poll_read(cx, buf, false)
    }
}
impl AsyncWrite for UnixStream {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        self.inner.poll_write(cx, buf)
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(self.inner.shutdown(Shutdown::Write))
    }
}
