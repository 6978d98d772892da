//! Simulated stream sockets: in-memory byte pipes whose delivery the scheduler
//! decides. Semantics follow Linux Unix-domain stream sockets.
use crate::*;
use std::io;
use std::task::{Context, Poll};

pub const C2S: usize = 0;
pub const S2C: usize = 1;
/// sides: 0 = the connecting one, 1 = the accepting one
pub type Side = usize;

pub struct Line {
    pub bytes: Vec<u8>,
    pub step: u64,
}

/// Adds bytes to a record of lines.
pub fn note_lines(lines: &mut Vec<Line>, part: &mut Vec<u8>, bytes: &[u8], step: u64) {
    for &b in bytes {
        if b == b'\n' {
            lines.push(Line { bytes: std::mem::take(part), step });
        } else {
            part.push(b);
        }
    }
}

#[derive(Default)]
pub struct Dir {
    pub inflight: VecDeque<u8>,
    pub ready: VecDeque<u8>,
    pub fin: bool,
    pub fin_delivered: bool,
    /// reader gets ECONNRESET after the ready bytes
    pub rst: bool,
    /// nobody will ever read: writes fail with EPIPE
    pub broken: bool,
    pub frozen: bool,
    pub cap: usize,
    pub written: u64,
    pub consumed: u64,
    pub short_writes: u64,
    /// complete lines as written, with the step of the last byte
    pub wlines: Vec<Line>,
    wpart: Vec<u8>,
    /// complete lines as consumed by the reader
    pub rlines: Vec<Line>,
    pub rpart: Vec<u8>,
    read_wakers: Vec<Waker>,
    write_wakers: Vec<Waker>,
    /// step at which the reader saw the end
    pub eof_seen: Option<u64>,
}

pub struct Conn {
    pub dirs: [Dir; 2],
    pub procs: [usize; 2],
    pub closed: [bool; 2],
    pub listener: usize,
    pub accepted: Option<u64>,
    pub created: u64,
    /// a scripted side consumes on delivery unless stalled
    pub raw: [bool; 2],
    pub stalled: [bool; 2],
    pub closed_step: [Option<u64>; 2],
}

pub struct Listener {
    pub key: String,
    pub proc: usize,
    pub backlog: VecDeque<usize>,
    pub open: bool,
    pub errors: VecDeque<i32>,
    wakers: Vec<Waker>,
    pub created: u64,
    pub polled: bool,
    pub ino: (u64, u64),
    pub fd: i32,
    /// scripted: connections are accepted at once, side 1 is scripted
    pub raw: bool,
}

pub struct Net {
    pub conns: Vec<Conn>,
    pub listeners: Vec<Listener>,
    pub connect_errors: VecDeque<i32>,
    pub bind_errors: VecDeque<i32>,
}

impl Net {
    pub fn new() -> Net {
        Net {
            conns: Vec::new(),
            listeners: Vec::new(),
            connect_errors: VecDeque::new(),
            bind_errors: VecDeque::new(),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Act {
    Deliver(usize, usize),
}

fn dir_name(d: usize) -> &'static str {
    if d == C2S {
        ">"
    } else {
        "<"
    }
}

pub fn actions(mut f: impl FnMut(Act)) {
    for (i, c) in sim().net.conns.iter().enumerate() {
        for d in 0..2 {
            let x = &c.dirs[d];
            if !x.frozen && (!x.inflight.is_empty() || (x.fin && !x.fin_delivered)) {
                f(Act::Deliver(i, d));
            }
        }
    }
}

pub fn perform(a: Act) {
    match a {
        Act::Deliver(c, d) => {
            let s = sim();
            let chunking = s.cfg.chunking;
            let len = s.net.conns[c].dirs[d].inflight.len();
            let mut n = len;
            if chunking && len > 1 {
                n = match s.tape.choose_weighted(&[6, 1, 2, 3, 3]) {
                    1 => 1,
                    2 => len / 2,
                    3 => {
                        let p = s.net.conns[c].dirs[d].inflight.iter().position(|b| *b == b'\n');
                        p.map_or(len, |p| p + 1)
                    }
                    4 => {
                        let cap = len.min(4000);
                        1 + s.tape.choose(cap)
                    }
                    _ => len,
                };
                n = n.max(1);
                if n < len {
                    *s.faults.entry("net.split-delivery").or_insert(0) += 1;
                }
            }
            deliver(c, d, n);
        }
    }
}

pub fn deliver(c: usize, d: usize, n: usize) {
    let s = sim();
    mix(0x10_0000 + (c * 2 + d) as u64 + ((n as u64) << 24));
    ev!("net conn{} {} deliver {}", c, dir_name(d), n);
    let dir = &mut s.net.conns[c].dirs[d];
    let moved: Vec<u8> = dir.inflight.drain(..n).collect();
    dir.ready.extend(moved);
    if dir.inflight.is_empty() && dir.fin {
        dir.fin_delivered = true;
    }
    let ws = std::mem::take(&mut dir.read_wakers);
    s.pending_wakes.extend(ws);
    let side = 1 - d;
    if s.net.conns[c].raw[side] && !s.net.conns[c].stalled[side] {
        raw_consume(c, side);
    }
    driver().on_deliver(c, d);
}

/// The scripted side takes everything that has arrived.
pub fn raw_consume(c: usize, side: Side) {
    let s = sim();
    let step = s.step;
    let dir = &mut s.net.conns[c].dirs[rdir(side)];
    let bytes: Vec<u8> = dir.ready.drain(..).collect();
    consume(dir, &bytes, step);
    if dir.fin_delivered && dir.eof_seen.is_none() {
        dir.eof_seen = Some(step);
    }
    let ws = std::mem::take(&mut dir.write_wakers);
    s.pending_wakes.extend(ws);
}

fn consume(dir: &mut Dir, bytes: &[u8], step: u64) {
    dir.consumed += bytes.len() as u64;
    for &b in bytes {
        if b == b'\n' {
            let l = std::mem::take(&mut dir.rpart);
            dir.rlines.push(Line { bytes: l, step });
        } else {
            dir.rpart.push(b);
        }
    }
}

fn produce(dir: &mut Dir, bytes: &[u8], step: u64) {
    dir.written += bytes.len() as u64;
    dir.inflight.extend(bytes.iter());
    for &b in bytes {
        if b == b'\n' {
            let l = std::mem::take(&mut dir.wpart);
            dir.wlines.push(Line { bytes: l, step });
        } else {
            dir.wpart.push(b);
        }
    }
}

pub fn partial_written(c: usize, d: usize) -> &'static [u8] {
    &sim().net.conns[c].dirs[d].wpart
}

fn err(code: i32) -> io::Error {
    io::Error::from_raw_os_error(code)
}

// ---------------------------------------------------------------- sockets

/// Creates a socket inode; the real (never listening) socket behind it lives as
/// long as the simulated one, so that the kernel tells stale sockets from live ones.
fn bind_inode(real: &str) -> Result<((u64, u64), i32), i32> {
    unsafe {
        let fd = raw::syscall6(41, 1, 1 | 0o2000000, 0, 0, 0, 0);
        if fd < 0 {
            return Err(-fd as i32);
        }
        let mut a: libc::sockaddr_un = std::mem::zeroed();
        a.sun_family = 1;
        if real.len() >= a.sun_path.len() {
            raw::close(fd as i32);
            return Err(libc::ENAMETOOLONG);
        }
        for (i, b) in real.bytes().enumerate() {
            a.sun_path[i] = b as libc::c_char;
        }
        let r = raw::syscall6(49, fd as usize, &a as *const _ as usize, 2 + real.len() + 1, 0, 0, 0);
        if r < 0 {
            raw::close(fd as i32);
            return Err(-r as i32);
        }
        inode(real).map(|i| (i, fd as i32)).map_err(|e| {
            raw::close(fd as i32);
            e
        })
    }
}
fn inode(real: &str) -> Result<(u64, u64), i32> {
    use std::os::unix::fs::{FileTypeExt, MetadataExt};
    let m = std::fs::metadata(real).map_err(|e| e.raw_os_error().unwrap_or(libc::EIO))?;
    if !m.file_type().is_socket() {
        return Err(libc::ECONNREFUSED);
    }
    Ok((m.dev(), m.ino()))
}

pub fn count_listeners() -> usize {
    sim().net.listeners.len()
}

/// A connected pair of sockets of the calling process.
pub fn pair() -> usize {
    let _k = kenter();
    let s = sim();
    let proc = s.threads[cur()].proc;
    let id = s.net.conns.len();
    let cap = s.cfg.sock_cap;
    let step = s.step;
    let mk = || Dir { cap, ..Default::default() };
    s.net.conns.push(Conn {
        dirs: [mk(), mk()],
        procs: [proc, proc],
        closed: [false, false],
        listener: usize::MAX,
        accepted: Some(step),
        created: step,
        raw: [false, false],
        stalled: [false, false],
        closed_step: [None, None],
    });
    id
}

pub fn listen(key: &str, unix_path: Option<&str>) -> io::Result<usize> {
    yield_point();
    let _k = kenter();
    let s = sim();
    let proc = s.threads[cur()].proc;
    if let Some(e) = s.net.bind_errors.pop_front() {
        fault("net.bind-error");
        return Err(err(e));
    }
    listen_kernel(key, unix_path, proc, false).map_err(err)
}

pub fn listen_kernel(key: &str, unix_path: Option<&str>, proc: usize, raw: bool) -> Result<usize, i32> {
    let s = sim();
    let id = s.net.listeners.len();
    let mut ino = (0, 0);
    let mut fd = -1;
    if let Some(p) = unix_path {
        let real = fs::translate(p).ok_or(libc::EACCES)?;
        match bind_inode(&real) {
            Ok((i, f)) => {
                ino = i;
                fd = f;
            }
            Err(e) => {
                ev!("bind {}: errno {}", key, e);
                return Err(e);
            }
        }
    } else if s.net.listeners.iter().any(|l| l.open && l.key == key) {
        ev!("bind {}: address in use", key);
        return Err(libc::EADDRINUSE);
    }
    ev!("listener {} at {} by process {}", id, key, proc);
    mix(0x3000 + id as u64);
    s.net.listeners.push(Listener {
        key: key.to_string(),
        proc,
        backlog: VecDeque::new(),
        open: true,
        errors: VecDeque::new(),
        wakers: Vec::new(),
        created: s.step,
        polled: false,
        ino,
        fd,
        raw,
    });
    Ok(id)
}

pub fn resolve(key: &str, unix_path: Option<&str>) -> Result<usize, i32> {
    let s = sim();
    match unix_path {
        Some(p) => {
            let real = fs::translate(p).ok_or(libc::ENOENT)?;
            let i = inode(&real)?;
            s.net.listeners.iter().position(|l| l.open && l.ino == i).ok_or(libc::ECONNREFUSED)
        }
        None => s
            .net
            .listeners
            .iter()
            .position(|l| l.open && l.key == key)
            .ok_or(libc::ECONNREFUSED),
    }
}

pub fn connect_kernel(key: &str, unix_path: Option<&str>, proc: usize, raw_client: bool) -> Result<usize, i32> {
    let lid = match resolve(key, unix_path) {
        Ok(l) => l,
        Err(e) => {
            ev!("connect {} by process {}: errno {}", key, proc, e);
            return Err(e);
        }
    };
    let s = sim();
    let id = s.net.conns.len();
    let cap = s.cfg.sock_cap;
    let mk = || Dir { cap, ..Default::default() };
    s.net.conns.push(Conn {
        dirs: [mk(), mk()],
        procs: [proc, s.net.listeners[lid].proc],
        closed: [false, false],
        listener: lid,
        accepted: None,
        created: s.step,
        raw: [raw_client, false],
        stalled: [false, false],
        closed_step: [None, None],
    });
    if s.net.listeners[lid].raw {
        let step = s.step;
        let c = &mut s.net.conns[id];
        c.accepted = Some(step);
        c.raw[1] = true;
    } else {
        s.net.listeners[lid].backlog.push_back(id);
    }
    let ws = std::mem::take(&mut s.net.listeners[lid].wakers);
    s.pending_wakes.extend(ws);
    ev!("conn{}: process {} connects to listener {}", id, proc, lid);
    mix(0x5000 + id as u64);
    Ok(id)
}

pub fn connect(key: &str, unix_path: Option<&str>) -> io::Result<usize> {
    yield_point();
    let r = {
        let _k = kenter();
        let s = sim();
        let proc = s.threads[cur()].proc;
        match s.net.connect_errors.pop_front() {
            Some(e) => {
                fault("net.connect-error");
                Err(e)
            }
            None => connect_kernel(key, unix_path, proc, false),
        }
    };
    r.map_err(err)
}

pub fn poll_accept(lid: usize, cx: &mut Context<'_>) -> Poll<io::Result<usize>> {
    yield_point();
    let _k = kenter();
    let s = sim();
    let l = &mut s.net.listeners[lid];
    l.polled = true;
    if let Some(e) = l.errors.pop_front() {
        fault("net.accept-error");
        ev!("accept on listener {} fails: errno {}", lid, e);
        return Poll::Ready(Err(err(e)));
    }
    if let Some(c) = l.backlog.pop_front() {
        s.net.conns[c].accepted = Some(s.step);
        ev!("conn{} accepted", c);
        mix(0x6000 + c as u64);
        return Poll::Ready(Ok(c));
    }
    push_waker(&mut l.wakers, cx);
    Poll::Pending
}

fn push_waker(v: &mut Vec<Waker>, cx: &mut Context<'_>) {
    if !v.iter().any(|w| w.will_wake(cx.waker())) {
        v.push(cx.waker().clone());
    }
}

pub fn inject_accept_error(lid: usize, e: i32) {
    let s = sim();
    s.net.listeners[lid].errors.push_back(e);
    let ws = std::mem::take(&mut s.net.listeners[lid].wakers);
    s.pending_wakes.extend(ws);
}

/// direction written by `side`
#[inline]
fn wdir(side: Side) -> usize {
    side
}
#[inline]
fn rdir(side: Side) -> usize {
    1 - side
}

pub fn poll_read(c: usize, side: Side, cx: &mut Context<'_>, buf: &mut [u8], peek: bool) -> Poll<io::Result<usize>> {
    yield_point();
    let _k = kenter();
    let s = sim();
    let step = s.step;
    let short = s.cfg.short_io;
    let d = &mut s.net.conns[c].dirs[rdir(side)];
    if !d.ready.is_empty() && !buf.is_empty() {
        let mut n = buf.len().min(d.ready.len());
        if short && n > 1 {
            n = match s.tape.choose_weighted(&[3, 1, 1]) {
                1 => 1,
                2 => n / 2,
                _ => n,
            };
            if n < buf.len().min(d.ready.len()) {
                *s.faults.entry("net.short-read").or_insert(0) += 1;
            }
        }
        for (i, b) in d.ready.iter().take(n).enumerate() {
            buf[i] = *b;
        }
        if !peek {
            d.ready.drain(..n);
            let bytes = buf[..n].to_vec();
            consume(d, &bytes, step);
            let ws = std::mem::take(&mut d.write_wakers);
            s.pending_wakes.extend(ws);
        }
        return Poll::Ready(Ok(n));
    }
    if buf.is_empty() {
        return Poll::Ready(Ok(0));
    }
    if d.rst && d.inflight.is_empty() {
        d.rst = false;
        d.fin = true;
        d.fin_delivered = true;
        d.eof_seen.get_or_insert(step);
        return Poll::Ready(Err(err(libc::ECONNRESET)));
    }
    if d.fin_delivered {
        d.eof_seen.get_or_insert(step);
        return Poll::Ready(Ok(0));
    }
    push_waker(&mut d.read_wakers, cx);
    Poll::Pending
}

pub fn poll_write(c: usize, side: Side, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
    yield_point();
    let _k = kenter();
    let s = sim();
    let step = s.step;
    let short = s.cfg.short_io;
    let d = &mut s.net.conns[c].dirs[wdir(side)];
    if d.broken {
        *s.faults.entry("net.write-to-closed").or_insert(0) += 1;
        return Poll::Ready(Err(err(libc::EPIPE)));
    }
    if d.fin {
        return Poll::Ready(Err(err(libc::EPIPE)));
    }
    if buf.is_empty() {
        return Poll::Ready(Ok(0));
    }
    let used = d.inflight.len() + d.ready.len();
    if used >= d.cap {
        *s.probes.entry("net.writer-blocked").or_insert(0) += 1;
        push_waker(&mut d.write_wakers, cx);
        return Poll::Pending;
    }
    let mut n = buf.len().min(d.cap - used);
    if n < buf.len() {
        *s.faults.entry("net.short-write-full").or_insert(0) += 1;
    }
    if short && n > 1 {
        let m = match s.tape.choose_weighted(&[3, 1, 1]) {
            1 => 1,
            2 => n / 2,
            _ => n,
        };
        if m < n {
            *s.faults.entry("net.short-write").or_insert(0) += 1;
        }
        n = m;
    }
    produce(d, &buf[..n], step);
    mix(0x20_0000 + (c * 2 + side) as u64 + ((n as u64) << 24));
    if s.cfg.verbose {
        ev!("conn{} side{} writes {} bytes: {:?}", c, side, n, String::from_utf8_lossy(&buf[..n.min(300)]));
    }
    Poll::Ready(Ok(n))
}

fn wake_all(d: &mut Dir, out: &mut Vec<Waker>) {
    out.append(&mut d.read_wakers);
    out.append(&mut d.write_wakers);
}

/// shutdown(2): 1 = write, 0 = read, 2 = both
pub fn shutdown(c: usize, side: Side, how: i32) {
    let _k = kenter();
    let s = sim();
    ev!("conn{} side{} shutdown {}", c, side, how);
    mix(0x7000 + (c * 2 + side) as u64);
    let conn = &mut s.net.conns[c];
    let mut ws = Vec::new();
    if how == 1 || how == 2 {
        let d = &mut conn.dirs[wdir(side)];
        d.fin = true;
        wake_all(d, &mut ws);
    }
    if how == 0 || how == 2 {
        // own reads return end of file at once, the peer's writes fail
        let d = &mut conn.dirs[rdir(side)];
        d.broken = true;
        d.fin = true;
        d.fin_delivered = true;
        d.inflight.clear();
        wake_all(d, &mut ws);
    }
    sim().pending_wakes.extend(ws);
}

/// close(2) of the last handle of one side.
pub fn close(c: usize, side: Side, drop_inflight: bool) {
    let _k = kenter();
    let s = sim();
    let conn = &mut s.net.conns[c];
    if conn.closed[side] {
        return;
    }
    conn.closed[side] = true;
    conn.closed_step[side] = Some(s.step);
    ev!("conn{} side{} closes{}", c, side, if drop_inflight { " (reset)" } else { "" });
    mix(0x7800 + (c * 2 + side) as u64);
    let conn = &mut sim().net.conns[c];
    let mut ws = Vec::new();
    let unread = {
        let d = &mut conn.dirs[rdir(side)];
        let unread = !d.ready.is_empty() || !d.inflight.is_empty();
        d.broken = true;
        d.inflight.clear();
        d.ready.clear();
        d.fin_delivered = true;
        wake_all(d, &mut ws);
        unread
    };
    let d = &mut conn.dirs[wdir(side)];
    d.fin = true;
    if drop_inflight {
        d.inflight.clear();
    }
    if unread || drop_inflight {
        d.rst = true;
        if d.inflight.is_empty() {
            d.fin_delivered = true;
        }
    }
    wake_all(d, &mut ws);
    sim().pending_wakes.extend(ws);
}

pub fn close_listener(lid: usize) {
    let _k = kenter();
    let s = sim();
    if !s.net.listeners[lid].open {
        return;
    }
    s.net.listeners[lid].open = false;
    if s.net.listeners[lid].fd >= 0 {
        raw::close(s.net.listeners[lid].fd);
        s.net.listeners[lid].fd = -1;
    }
    ev!("listener {} closes", lid);
    let backlog: Vec<usize> = s.net.listeners[lid].backlog.drain(..).collect();
    for c in backlog {
        close(c, 1, true);
    }
}

pub fn close_all_of(proc: usize) {
    let n = sim().net.listeners.len();
    for l in 0..n {
        if sim().net.listeners[l].proc == proc {
            close_listener(l);
        }
    }
    let n = sim().net.conns.len();
    for c in 0..n {
        for side in 0..2 {
            let conn = &sim().net.conns[c];
            if conn.procs[side] == proc && !conn.raw[side] {
                close(c, side, false);
            }
        }
    }
}

// ------------------------------------------------------- scripted clients

/// Free room for a scripted client's writes.
pub fn raw_room(c: usize, side: Side) -> usize {
    let d = &sim().net.conns[c].dirs[wdir(side)];
    if d.broken {
        usize::MAX
    } else {
        d.cap.saturating_sub(d.inflight.len() + d.ready.len())
    }
}
pub fn raw_send(c: usize, side: Side, bytes: &[u8]) {
    let s = sim();
    let step = s.step;
    let d = &mut s.net.conns[c].dirs[wdir(side)];
    if d.broken || d.fin {
        return;
    }
    produce(d, bytes, step);
}
