//! The part of the `async-net` 1.6 API that stream sockets need, over the
//! simulated network of `simrt`.
mod sock;
mod tcp;
pub mod unix;

pub use tcp::{resolve, AsyncToSocketAddrs, Incoming, TcpListener, TcpStream};

#[doc(no_inline)]
pub use std::net::{
    AddrParseError, IpAddr, Ipv4Addr, Ipv6Addr, Shutdown, SocketAddr, SocketAddrV4, SocketAddrV6,
};
