use std::io;
use std::net::Shutdown;
use std::sync::Arc;
use std::task::{Context, Poll};

pub struct Sock {
    pub conn: usize,
    pub side: usize,
}
impl Drop for Sock {
    fn drop(&mut self) {
        if simrt::active() {
            simrt::net::close(self.conn, self.side, false);
        }
    }
}
impl Sock {
    pub fn new(conn: usize, side: usize) -> Arc<Sock> {
        Arc::new(Sock { conn, side })
    }
    pub fn poll_read(&self, cx: &mut Context<'_>, buf: &mut [u8], peek: bool) -> Poll<io::Result<usize>> {
        simrt::net::poll_read(self.conn, self.side, cx, buf, peek)
    }
    pub fn poll_write(&self, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        simrt::net::poll_write(self.conn, self.side, cx, buf)
    }
    pub fn shutdown(&self, how: Shutdown) -> io::Result<()> {
        let how = match how {
            Shutdown::Read => 0,
            Shutdown::Write => 1,
            Shutdown::Both => 2,
        };
        simrt::net::shutdown(self.conn, self.side, how);
        Ok(())
    }
}

pub struct Lst(pub usize);
impl Drop for Lst {
    fn drop(&mut self) {
        if simrt::active() {
            simrt::net::close_listener(self.0);
        }
    }
}
