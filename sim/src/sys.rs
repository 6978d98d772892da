//! Interposed libc symbols. Simulated code (and only it) gets the virtual
//! file tree, clock, randomness, threads and processes; everything else falls
//! through to the raw system call.
#![allow(clippy::missing_safety_doc, invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions, unknown_lints)]
use libc::{c_char, c_int, c_void, size_t, ssize_t};
use simrt::fs::{self, Call, Effect};
use simrt::raw::syscall6;
use simrt::*;
use std::ffi::{CStr, CString};
use std::sync::atomic::{AtomicUsize, Ordering};

unsafe fn ret(r: isize) -> isize {
    if r < 0 && r > -4096 {
        *libc::__errno_location() = -r as c_int;
        -1
    } else {
        r
    }
}
unsafe fn fail(e: c_int) -> c_int {
    *libc::__errno_location() = e;
    -1
}
unsafe fn cstr<'a>(p: *const c_char) -> &'a str {
    CStr::from_ptr(p).to_str().unwrap_or("\u{1}invalid")
}
/// Path as the kernel should see it, plus the virtual path if it is ours.
unsafe fn path_in(p: *const c_char) -> (CString, Option<String>) {
    let _k = kenter();
    let s = cstr(p);
    match fs::translate(s) {
        Some(r) => (CString::new(r).unwrap(), Some(s.to_string())),
        None => (CStr::from_ptr(p).to_owned(), None),
    }
}
fn escape(what: &str, p: &str) {
    let _k = kenter();
    ev!("ESCAPE {} {}", what, p);
    sim().fs.escapes.push(format!("{} {}", what, p));
}
/// Runs the fault hook for a path call; Some(errno) = injected failure.
fn hook(call: Call, v: &Option<String>) -> Option<i32> {
    match v {
        Some(v) => match fs::enter(call, v) {
            Some(Effect::Errno(e)) => Some(e),
            _ => None,
        },
        None => None,
    }
}
unsafe fn next_sym(slot: &AtomicUsize, name: &[u8]) -> usize {
    let v = slot.load(Ordering::Relaxed);
    if v != 0 {
        return v;
    }
    let p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const c_char) as usize;
    slot.store(p, Ordering::Relaxed);
    p
}
macro_rules! real {
    ($name:expr, $t:ty) => {{
        static SLOT: AtomicUsize = AtomicUsize::new(0);
        let p = next_sym(&SLOT, concat!($name, "\0").as_bytes());
        std::mem::transmute::<usize, $t>(p)
    }};
}

// ---------------------------------------------------------------- files

const WRITE_FLAGS: c_int = libc::O_WRONLY | libc::O_RDWR | libc::O_CREAT | libc::O_TRUNC | libc::O_APPEND;

unsafe fn do_openat(dir: c_int, path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    let absolute = *path as u8 == b'/';
    if !engaged() || (!absolute && dir != libc::AT_FDCWD) {
        return ret(syscall6(257, dir as usize, path as usize, flags as usize, mode as usize, 0, 0)) as c_int;
    }
    let (real, v) = path_in(path);
    if cstr(path) == "/dev/tty" && my_term().is_some() {
        return fail(libc::ENXIO);
    }
    if v.is_none() && flags & WRITE_FLAGS != 0 {
        let p = cstr(path);
        if p != "/dev/null" && p != "/dev/tty" {
            escape("open", p);
            return fail(libc::EACCES);
        }
    }
    if let Some(e) = hook(Call::Open, &v) {
        return fail(e);
    }
    // a pipe without a writer
    if v.is_some() && flags & (libc::O_NONBLOCK | libc::O_PATH) == 0 && flags & libc::O_ACCMODE != libc::O_RDWR {
        let mut st: libc::stat = std::mem::zeroed();
        if syscall6(4, real.as_ptr() as usize, &mut st as *mut _ as usize, 0, 0, 0, 0) == 0 && st.st_mode & libc::S_IFMT == libc::S_IFIFO {
            ev!("opening a pipe");
            simrt::block(Key::Never, None);
            return fail(libc::EINTR);
        }
    }
    let fd = ret(syscall6(257, dir as usize, real.as_ptr() as usize, flags as usize, mode as usize, 0, 0)) as c_int;
    if fd >= 0 {
        let _k = kenter();
        match v {
            Some(v) => {
                sim().fs.owners.insert(fd, (cur_proc(), v.clone()));
                sim().fs.fds.insert(fd, v);
            }
            None => {
                sim().fs.fds.remove(&fd);
            }
        }
    }
    fd
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    do_openat(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    do_openat(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(dir: c_int, path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    do_openat(dir, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: c_int, path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    do_openat(dir, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if active() {
        let _k = kenter();
        sim().fs.fds.remove(&fd);
        sim().fs.owners.remove(&fd);
        sim().fs.locks.remove(&fd);
    }
    let r = ret(syscall6(3, fd as usize, 0, 0, 0, 0, 0)) as c_int;
    if active() {
        let _k = kenter();
        wake_key(Key::Pipe);
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if !engaged() {
        return ret(raw::flock(fd, op)) as c_int;
    }
    yield_point();
    let path = {
        let _k = kenter();
        sim().fs.fds.get(&fd).cloned()
    };
    if op & libc::LOCK_UN == 0 {
        if let Some(e) = hook(Call::Lock, &path) {
            return fail(e);
        }
    }
    loop {
        {
            let _k = kenter();
            let r = raw::flock(fd, op | libc::LOCK_NB);
            if r != -(libc::EWOULDBLOCK as isize) || op & libc::LOCK_NB != 0 {
                ev!("flock {} {:x} -> {}", fd, op, r);
                let pid = sim().threads[cur()].proc;
                if r == 0 && op & libc::LOCK_UN != 0 {
                    sim().fs.locks.remove(&fd);
                    wake_key(Key::Pipe);
                } else if r == 0 {
                    sim().fs.locks.insert(fd, pid);
                }
                return ret(r) as c_int;
            }
            probe("fs.lock-contended");
        }
        block(Key::Pipe, None);
    }
}
#[no_mangle]
pub unsafe extern "C" fn socket(domain: c_int, kind: c_int, protocol: c_int) -> c_int {
    let fd = ret(syscall6(41, domain as usize, kind as usize, protocol as usize, 0, 0, 0)) as c_int;
    if fd >= 0 && engaged() {
        let _k = kenter();
        sim().fs.owners.insert(fd, (cur_proc(), "a socket".into()));
    }
    fd
}
/// Only the path needs translating: the sockets behind simulated listeners are
/// bound but never listen, everything but a datagram socket is refused.
#[no_mangle]
pub unsafe extern "C" fn connect(fd: c_int, addr: *const libc::sockaddr, len: libc::socklen_t) -> c_int {
    if engaged() && (*addr).sa_family == libc::AF_UNIX as u16 {
        yield_point();
        let a = &*(addr as *const libc::sockaddr_un);
        let (real, v) = path_in(a.sun_path.as_ptr());
        if v.is_none() {
            return fail(libc::ENOENT);
        }
        let mut b: libc::sockaddr_un = std::mem::zeroed();
        b.sun_family = libc::AF_UNIX as u16;
        let bytes = real.as_bytes_with_nul();
        if bytes.len() > b.sun_path.len() {
            return fail(libc::ENAMETOOLONG);
        }
        for (i, c) in bytes.iter().enumerate() {
            b.sun_path[i] = *c as c_char;
        }
        let r = syscall6(42, fd as usize, &b as *const _ as usize, 2 + bytes.len(), 0, 0, 0);
        ev!("probe {} -> {}", v.unwrap(), r);
        return ret(r) as c_int;
    }
    ret(syscall6(42, fd as usize, addr as usize, len as usize, 0, 0, 0)) as c_int
}

/// The simulated network knows one host by name.
#[no_mangle]
pub unsafe extern "C" fn getaddrinfo(node: *const c_char, service: *const c_char, hints: *const libc::addrinfo, res: *mut *mut libc::addrinfo) -> c_int {
    let f = real!("getaddrinfo", unsafe extern "C" fn(*const c_char, *const c_char, *const libc::addrinfo, *mut *mut libc::addrinfo) -> c_int);
    if !engaged() {
        return f(node, service, hints, res);
    }
    yield_point();
    if node.is_null() || cstr(node) != "localhost" {
        return libc::EAI_NONAME;
    }
    let six = libc::calloc(1, std::mem::size_of::<libc::sockaddr_in6>()) as *mut libc::sockaddr_in6;
    (*six).sin6_family = libc::AF_INET6 as u16;
    (*six).sin6_addr.s6_addr[15] = 1;
    let four = libc::calloc(1, std::mem::size_of::<libc::sockaddr_in>()) as *mut libc::sockaddr_in;
    (*four).sin_family = libc::AF_INET as u16;
    (*four).sin_addr.s_addr = u32::from_ne_bytes([127, 0, 0, 1]);
    *res = std::ptr::null_mut();
    for (fam, p, n) in [
        (libc::AF_INET, four as *mut libc::sockaddr, std::mem::size_of::<libc::sockaddr_in>()),
        (libc::AF_INET6, six as *mut libc::sockaddr, std::mem::size_of::<libc::sockaddr_in6>()),
    ] {
        let a = libc::calloc(1, std::mem::size_of::<libc::addrinfo>()) as *mut libc::addrinfo;
        (*a).ai_family = fam;
        (*a).ai_socktype = libc::SOCK_STREAM;
        (*a).ai_addrlen = n as u32;
        (*a).ai_addr = p;
        (*a).ai_next = *res;
        *res = a;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn freeaddrinfo(a: *mut libc::addrinfo) {
    let f = real!("freeaddrinfo", unsafe extern "C" fn(*mut libc::addrinfo));
    if !engaged() {
        return f(a);
    }
    let mut a = a;
    while !a.is_null() {
        let next = (*a).ai_next;
        libc::free((*a).ai_addr as *mut c_void);
        libc::free(a as *mut c_void);
        a = next;
    }
}

unsafe fn read_stdin(buf: *mut u8, n: usize) -> ssize_t {
    let pid = sim().threads[cur()].proc;
    loop {
        {
            let _k = kenter();
            let step = sim().step;
            let p = &mut sim().procs[pid];
            if !p.stdin.is_empty() {
                let m = n.min(p.stdin.len());
                let got: Vec<u8> = p.stdin.drain(..m).collect();
                std::ptr::copy_nonoverlapping(got.as_ptr(), buf, m);
                net::note_lines(&mut p.in_lines, &mut p.in_part, &got, step);
                return m as ssize_t;
            }
            if p.stdin_err != 0 {
                // once, or again and again (a terminal that is gone)
                let e = p.stdin_err;
                p.stdin_err = e.min(0);
                p.in_end.get_or_insert(step);
                return fail(e.abs()) as ssize_t;
            }
            if p.stdin_eof {
                // the rest counts as a line
                if p.in_end.is_none() {
                    p.in_end = Some(step);
                    if !p.in_part.is_empty() {
                        let bytes = std::mem::take(&mut p.in_part);
                        p.in_lines.push(net::Line { bytes, step });
                    }
                }
                return 0;
            }
        }
        block(Key::Stdin(pid), None);
    }
}

unsafe fn write_stdout(buf: *const u8, n: usize) -> ssize_t {
    let pid = sim().threads[cur()].proc;
    loop {
        {
            let _k = kenter();
            let s = sim();
            let bytes = std::slice::from_raw_parts(buf, n);
            if let Some(fd) = s.procs[pid].stdout_fd {
                let r = raw::write(fd, bytes);
                wake_key(Key::Pipe);
                return ret(r);
            }
            let p = &mut s.procs[pid];
            if p.stdout_closed {
                return fail(libc::EPIPE) as ssize_t;
            }
            let room = p.stdout_cap.saturating_sub(p.stdout_pending.len());
            if room > 0 && n > 0 {
                let mut m = n.min(room);
                if s.cfg.short_io && m > 1 && s.tape.choose(4) == 1 {
                    m = 1 + s.tape.choose(m.min(60000));
                    fault("stdout.short-write");
                }
                let s = sim();
                let step = s.step;
                let p = &mut s.procs[pid];
                p.stdout_pending.extend(&bytes[..m]);
                p.stdout_written += m as u64;
                net::note_lines(&mut p.out_lines, &mut p.out_part, &bytes[..m], step);
                p.stdout_last_step = step;
                mix(0x9000 + m as u64);
                ev!("process {} stdout {:?}", pid, String::from_utf8_lossy(&bytes[..m.min(300)]));
                if sim().procs[pid].stdout_cap == usize::MAX {
                    let p = &mut sim().procs[pid];
                    let all: Vec<u8> = p.stdout_pending.drain(..).collect();
                    p.stdout.extend(all);
                }
                return m as ssize_t;
            }
            if n == 0 {
                return 0;
            }
            probe("stdout.writer-blocked");
        }
        block(Key::Stdout(pid), None);
    }
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if engaged() {
        if fd == 0 {
            return read_stdin(buf as *mut u8, n);
        }
        let path = {
            let _k = kenter();
            sim().fs.fds.get(&fd).cloned()
        };
        if let Some(p) = path {
            match fs::enter(Call::Read, &p) {
                Some(Effect::Errno(e)) => return fail(e) as ssize_t,
                Some(Effect::Short(k)) => {
                    return ret(syscall6(0, fd as usize, buf as usize, n.min(k.max(1)), 0, 0, 0))
                }
                None => {}
            }
        } else if raw::is_fifo(fd) {
            yield_point();
            while !raw::poll_in(fd) {
                block(Key::Pipe, None);
            }
        }
    }
    ret(syscall6(0, fd as usize, buf as usize, n, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if engaged() {
        if fd == 1 {
            return write_stdout(buf as *const u8, n);
        }
        if fd == 2 {
            let _k = kenter();
            let b = std::slice::from_raw_parts(buf as *const u8, n);
            ev!("stderr: {:?}", String::from_utf8_lossy(b));
            let pid = sim().threads[cur()].proc;
            sim().procs[pid].stderr.extend_from_slice(b);
            return n as ssize_t;
        }
    }
    ret(syscall6(1, fd as usize, buf as usize, n, 0, 0, 0))
}
// ------------------------------------------------------------- terminals

unsafe fn my_term() -> Option<&'static mut Proc> {
    if !engaged() {
        return None;
    }
    let p = sim().threads[cur()].proc;
    let p = &mut sim().procs[p];
    p.term.map(|_| p)
}
#[no_mangle]
pub unsafe extern "C" fn isatty(fd: c_int) -> c_int {
    if fd >= 0 && fd < 2 && my_term().is_some() {
        return 1;
    }
    let mut t: libc::termios = std::mem::zeroed();
    (syscall6(16, fd as usize, libc::TCGETS as usize, &mut t as *mut _ as usize, 0, 0, 0) == 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, what: libc::c_ulong, arg: usize) -> c_int {
    if fd >= 0 && fd < 2 && what == libc::TIOCGWINSZ {
        if let Some(p) = my_term() {
            let (w, h) = p.term.unwrap();
            *(arg as *mut libc::winsize) = libc::winsize { ws_row: h, ws_col: w, ws_xpixel: 0, ws_ypixel: 0 };
            return 0;
        }
    }
    ret(syscall6(16, fd as usize, what as usize, arg, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn tcgetattr(fd: c_int, out: *mut libc::termios) -> c_int {
    match my_term() {
        Some(p) if fd >= 0 && fd < 2 => {
            *out = std::mem::zeroed();
            if !p.raw_mode {
                (*out).c_lflag = libc::ICANON | libc::ECHO;
            }
            0
        }
        _ => fail(libc::ENOTTY),
    }
}
#[no_mangle]
pub unsafe extern "C" fn tcsetattr(fd: c_int, _: c_int, t: *const libc::termios) -> c_int {
    match my_term() {
        Some(p) if fd >= 0 && fd < 2 => {
            p.raw_mode = (*t).c_lflag & libc::ICANON == 0;
            ev!("terminal raw mode {}", p.raw_mode);
            0
        }
        _ => fail(libc::ENOTTY),
    }
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    if engaged() && (fd == 1 || fd == 2) {
        for i in 0..cnt as usize {
            let v = &*iov.add(i);
            if v.iov_len > 0 {
                return write(fd, v.iov_base, v.iov_len);
            }
        }
        return 0;
    }
    ret(syscall6(20, fd as usize, iov as usize, cnt as usize, 0, 0, 0))
}

#[no_mangle]
pub unsafe extern "C" fn statx(dir: c_int, path: *const c_char, flags: c_int, mask: u32, out: *mut c_void) -> c_int {
    if engaged() && !path.is_null() && *path != 0 && (dir == libc::AT_FDCWD || *path as u8 == b'/') {
        let (real, v) = path_in(path);
        if let Some(e) = hook(Call::Stat, &v) {
            return fail(e);
        }
        return ret(syscall6(332, dir as usize, real.as_ptr() as usize, flags as usize, mask as usize, out as usize, 0)) as c_int;
    }
    ret(syscall6(332, dir as usize, path as usize, flags as usize, mask as usize, out as usize, 0)) as c_int
}
unsafe fn do_stat(nr: i64, path: *const c_char, out: *mut c_void) -> c_int {
    if engaged() {
        let (real, v) = path_in(path);
        if let Some(e) = hook(Call::Stat, &v) {
            return fail(e);
        }
        return ret(syscall6(nr, real.as_ptr() as usize, out as usize, 0, 0, 0, 0)) as c_int;
    }
    ret(syscall6(nr, path as usize, out as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const c_char, out: *mut c_void) -> c_int {
    do_stat(4, path, out)
}
#[no_mangle]
pub unsafe extern "C" fn stat(path: *const c_char, out: *mut c_void) -> c_int {
    do_stat(4, path, out)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(path: *const c_char, out: *mut c_void) -> c_int {
    do_stat(6, path, out)
}
#[no_mangle]
pub unsafe extern "C" fn lstat(path: *const c_char, out: *mut c_void) -> c_int {
    do_stat(6, path, out)
}
#[no_mangle]
pub unsafe extern "C" fn access(path: *const c_char, mode: c_int) -> c_int {
    if engaged() {
        let (real, v) = path_in(path);
        if let Some(e) = hook(Call::Stat, &v) {
            return fail(e);
        }
        return ret(syscall6(21, real.as_ptr() as usize, mode as usize, 0, 0, 0, 0)) as c_int;
    }
    ret(syscall6(21, path as usize, mode as usize, 0, 0, 0, 0)) as c_int
}

/// A call that changes the tree: only inside the scratch directory.
unsafe fn mutate(call: Call, what: &str, nr: i64, path: *const c_char, arg: usize) -> c_int {
    if engaged() {
        let (real, v) = path_in(path);
        if v.is_none() {
            escape(what, cstr(path));
            return fail(libc::EACCES);
        }
        if let Some(e) = hook(call, &v) {
            return fail(e);
        }
        let r = syscall6(nr, real.as_ptr() as usize, arg, 0, 0, 0, 0);
        {
            let _k = kenter();
            ev!("{} {} -> {}", what, v.as_deref().unwrap_or(""), r);
            let step = sim().step;
            let pid = sim().threads[cur()].proc;
            sim().fs.mutations.push((step, pid, what.to_string(), v.unwrap_or_default(), r as i32));
        }
        return ret(r) as c_int;
    }
    ret(syscall6(nr, path as usize, arg, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    mutate(Call::Unlink, "unlink", 87, path, 0)
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(path: *const c_char) -> c_int {
    mutate(Call::Rmdir, "rmdir", 84, path, 0)
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: libc::mode_t) -> c_int {
    mutate(Call::Mkdir, "mkdir", 83, path, mode as usize)
}
#[no_mangle]
pub unsafe extern "C" fn chmod(path: *const c_char, mode: libc::mode_t) -> c_int {
    mutate(Call::Other, "chmod", 90, path, mode as usize)
}
#[no_mangle]
pub unsafe extern "C" fn truncate64(path: *const c_char, len: i64) -> c_int {
    mutate(Call::Other, "truncate", 76, path, len as usize)
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(dir: c_int, path: *const c_char, flags: c_int) -> c_int {
    if engaged() && (dir == libc::AT_FDCWD || *path as u8 == b'/') {
        return if flags & libc::AT_REMOVEDIR != 0 { rmdir(path) } else { unlink(path) };
    }
    ret(syscall6(263, dir as usize, path as usize, flags as usize, 0, 0, 0)) as c_int
}
unsafe fn mutate2(what: &str, nr: i64, a: *const c_char, b: *const c_char, translate_a: bool) -> c_int {
    if engaged() {
        let (ra, va) = path_in(a);
        let (rb, vb) = path_in(b);
        if (translate_a && va.is_none()) || vb.is_none() {
            escape(what, &format!("{} {}", cstr(a), cstr(b)));
            return fail(libc::EACCES);
        }
        if let Some(e) = hook(Call::Other, &vb) {
            return fail(e);
        }
        let r = syscall6(nr, if translate_a { ra.as_ptr() as usize } else { a as usize }, rb.as_ptr() as usize, 0, 0, 0, 0);
        {
            let _k = kenter();
            let step = sim().step;
            let pid = sim().threads[cur()].proc;
            sim().fs.mutations.push((step, pid, what.to_string(), format!("{} {}", cstr(a), cstr(b)), r as i32));
        }
        return ret(r) as c_int;
    }
    ret(syscall6(nr, a as usize, b as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    mutate2("rename", 82, a, b, true)
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    mutate2("link", 86, a, b, true)
}
#[no_mangle]
pub unsafe extern "C" fn symlink(a: *const c_char, b: *const c_char) -> c_int {
    mutate2("symlink", 88, a, b, false)
}

#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const c_char) -> *mut c_void {
    let f = real!("opendir", unsafe extern "C" fn(*const c_char) -> *mut c_void);
    if engaged() {
        let (real, v) = path_in(path);
        if let Some(e) = hook(Call::Opendir, &v) {
            fail(e);
            return std::ptr::null_mut();
        }
        return f(real.as_ptr());
    }
    f(path)
}
#[no_mangle]
pub unsafe extern "C" fn realpath(path: *const c_char, out: *mut c_char) -> *mut c_char {
    let f = real!("realpath", unsafe extern "C" fn(*const c_char, *mut c_char) -> *mut c_char);
    if engaged() {
        let (real, v) = path_in(path);
        if let Some(e) = hook(Call::Stat, &v) {
            fail(e);
            return std::ptr::null_mut();
        }
        let r = f(real.as_ptr(), std::ptr::null_mut());
        if r.is_null() {
            return r;
        }
        let _k = kenter();
        let txt = cstr(r).to_string();
        libc::free(r as *mut c_void);
        let t = CString::new(fs::untranslate(&txt).unwrap_or(txt)).unwrap();
        let n = t.as_bytes_with_nul().len();
        let o = if out.is_null() { libc::malloc(n) as *mut c_char } else { out };
        std::ptr::copy_nonoverlapping(t.as_ptr(), o, n);
        return o;
    }
    f(path, out)
}
#[no_mangle]
pub unsafe extern "C" fn readlink(path: *const c_char, buf: *mut c_char, n: size_t) -> ssize_t {
    if engaged() {
        let (real, _) = path_in(path);
        return ret(syscall6(89, real.as_ptr() as usize, buf as usize, n, 0, 0, 0));
    }
    ret(syscall6(89, path as usize, buf as usize, n, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut c_char, n: size_t) -> *mut c_char {
    if in_sim_thread() {
        let c = b"/sim/work\0";
        if !buf.is_null() && n >= c.len() {
            std::ptr::copy_nonoverlapping(c.as_ptr() as *const c_char, buf, c.len());
            return buf;
        }
        fail(libc::ERANGE);
        return std::ptr::null_mut();
    }
    let f = real!("getcwd", unsafe extern "C" fn(*mut c_char, size_t) -> *mut c_char);
    f(buf, n)
}
#[no_mangle]
pub unsafe extern "C" fn chdir(path: *const c_char) -> c_int {
    if engaged() {
        escape("chdir", cstr(path));
        return fail(libc::EACCES);
    }
    ret(syscall6(80, path as usize, 0, 0, 0, 0, 0)) as c_int
}

// ---------------------------------------------------------------- time, randomness

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    if in_sim_thread() {
        let ns = if id == libc::CLOCK_REALTIME || id == libc::CLOCK_REALTIME_COARSE {
            now_wall()
        } else {
            sim().mono_ns as i64
        };
        (*ts).tv_sec = ns.div_euclid(1_000_000_000);
        (*ts).tv_nsec = ns.rem_euclid(1_000_000_000);
        return 0;
    }
    ret(syscall6(228, id as usize, ts as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn time(out: *mut libc::time_t) -> libc::time_t {
    let mut ts: libc::timespec = std::mem::zeroed();
    clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    if !out.is_null() {
        *out = ts.tv_sec;
    }
    ts.tv_sec
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, _: *mut c_void) -> c_int {
    let mut ts: libc::timespec = std::mem::zeroed();
    clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    (*tv).tv_sec = ts.tv_sec;
    (*tv).tv_usec = ts.tv_nsec / 1000;
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock() -> libc::clock_t {
    if active() {
        return (sim().mono_ns / 1000) as libc::clock_t;
    }
    0
}
fn sim_sleep(ts: *const libc::timespec) -> c_int {
    let d = unsafe { (*ts).tv_sec as u64 * 1_000_000_000 + (*ts).tv_nsec as u64 };
    block(Key::Never, Some(d));
    0
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(ts: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if engaged() {
        return sim_sleep(ts);
    }
    ret(syscall6(35, ts as usize, rem as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: c_int, flags: c_int, ts: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if engaged() {
        if flags & libc::TIMER_ABSTIME != 0 {
            let t = (*ts).tv_sec as u64 * 1_000_000_000 + (*ts).tv_nsec as u64;
            let now = if id == libc::CLOCK_REALTIME { now_wall() as u64 } else { sim().mono_ns };
            block(Key::Never, Some(t.saturating_sub(now)));
            return 0;
        }
        return sim_sleep(ts);
    }
    let r = syscall6(230, id as usize, flags as usize, ts as usize, rem as usize, 0, 0);
    -r as c_int
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if engaged() {
        yield_point();
        return 0;
    }
    ret(syscall6(24, 0, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, flags: u32) -> ssize_t {
    if active() {
        let s = sim();
        for i in 0..n {
            *(buf as *mut u8).add(i) = s.rand.next() as u8;
        }
        return n as ssize_t;
    }
    ret(syscall6(318, buf as usize, n, flags as usize, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> libc::pid_t {
    if in_sim_thread() {
        return 1000 + sim().threads[cur()].proc as libc::pid_t;
    }
    syscall6(39, 0, 0, 0, 0, 0, 0) as libc::pid_t
}

// ---------------------------------------------------------------- threads

#[no_mangle]
pub unsafe extern "C" fn syscall(n: libc::c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> libc::c_long {
    if n == libc::SYS_futex && in_sim_thread() {
        let op = b as c_int & 0x7f;
        match op {
            libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
                if !engaged() {
                    // the harness itself never waits
                    return ret(-(libc::EAGAIN as isize)) as libc::c_long;
                }
                let word = &*(a as *const std::sync::atomic::AtomicU32);
                if word.load(Ordering::SeqCst) != c as u32 {
                    return fail(libc::EAGAIN) as libc::c_long;
                }
                let timeout = if d != 0 {
                    let ts = &*(d as *const libc::timespec);
                    let t = ts.tv_sec as i128 * 1_000_000_000 + ts.tv_nsec as i128;
                    if op == libc::FUTEX_WAIT_BITSET {
                        let now = if b as c_int & libc::FUTEX_CLOCK_REALTIME != 0 { now_wall() as i128 } else { sim().mono_ns as i128 };
                        Some((t - now).max(0) as u64)
                    } else {
                        Some(t.max(0) as u64)
                    }
                } else {
                    None
                };
                if block(Key::Futex(simrt::stdio::futex_key(a)), timeout) {
                    return fail(libc::ETIMEDOUT) as libc::c_long;
                }
                return 0;
            }
            libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
                let r = {
                    let _k = kenter();
                    wake_key_n(Key::Futex(simrt::stdio::futex_key(a)), c)
                };
                if r > 0 {
                    yield_point();
                }
                return r as libc::c_long;
            }
            _ => {}
        }
    }
    if n == libc::SYS_getrandom && active() {
        return getrandom(a as *mut c_void, b, c as u32) as libc::c_long;
    }
    ret(syscall6(n, a, b, c, d, e, f)) as libc::c_long
}

struct Start {
    tid: usize,
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
}
static JOINS: std::sync::Mutex<Vec<(libc::pthread_t, usize)>> = std::sync::Mutex::new(Vec::new());

extern "C" fn trampoline(p: *mut c_void) -> *mut c_void {
    let st = unsafe { Box::from_raw(p as *mut Start) };
    thread_started(st.tid);
    let r = (st.f)(st.arg);
    drop(st);
    thread_exited();
    r
}
#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    out: *mut libc::pthread_t,
    attr: *const libc::pthread_attr_t,
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
) -> c_int {
    type F = unsafe extern "C" fn(
        *mut libc::pthread_t,
        *const libc::pthread_attr_t,
        extern "C" fn(*mut c_void) -> *mut c_void,
        *mut c_void,
    ) -> c_int;
    let real = real!("pthread_create", F);
    if !active() || cur() == usize::MAX {
        return real(out, attr, f, arg);
    }
    let r = {
        let _k = kenter();
        let tid = thread_register();
        let st = Box::new(Start { tid, f, arg });
        let r = real(out, attr, trampoline, Box::into_raw(st) as *mut c_void);
        if r == 0 {
            JOINS.lock().unwrap().push((*out, tid));
            ev!("thread {} created", tid);
        }
        r
    };
    yield_point();
    r
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, out: *mut *mut c_void) -> c_int {
    let real = real!("pthread_join", unsafe extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int);
    if engaged() {
        let tid = {
            let _k = kenter();
            let j = JOINS.lock().unwrap();
            j.iter().rev().find(|x| x.0 == t).map(|x| x.1)
        };
        if let Some(tid) = tid {
            while !matches!(sim().threads[tid].state, TState::Exited) {
                block(Key::Join(tid), None);
            }
        }
    }
    real(t, out)
}

// ---------------------------------------------------------------- processes

#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_adddup2(fa: *mut c_void, from: c_int, to: c_int) -> c_int {
    if engaged() {
        let _k = kenter();
        sim().spawn_dup2.push((cur(), from, to));
        return 0;
    }
    let real = real!("posix_spawn_file_actions_adddup2", unsafe extern "C" fn(*mut c_void, c_int, c_int) -> c_int);
    real(fa, from, to)
}

pub const VPID: i32 = 1000;

unsafe fn do_spawn(pid: *mut libc::pid_t, path: *const c_char, argv: *const *mut c_char) -> c_int {
    let p = cstr(path).to_string();
    let dups: Vec<(i32, i32)> = {
        let _k = kenter();
        let t = cur();
        let v = sim().spawn_dup2.iter().filter(|d| d.0 == t).map(|d| (d.1, d.2)).collect();
        sim().spawn_dup2.retain(|d| d.0 != t);
        v
    };
    let _ = yield_point();
    if let Some(Effect::Errno(e)) = fs::enter(Call::Spawn, &p) {
        return e;
    }
    let _k = kenter();
    let mut args = Vec::new();
    let mut i = 0;
    while !(*argv.add(i)).is_null() {
        args.push(cstr(*argv.add(i)).to_string());
        i += 1;
    }
    match driver().spawn_process(&p, args.clone()) {
        Err(e) => e,
        Ok(f) => {
            let np = spawn_proc(&format!("spawned {}", args[1..].join(" ")), args, f);
            for (from, to) in dups {
                if to == 1 {
                    sim().procs[np].stdout_fd = Some(raw::dup(from));
                }
            }
            sim().procs[np].parent = sim().threads[cur()].proc;
            *pid = VPID + np as i32;
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawnp(
    pid: *mut libc::pid_t,
    path: *const c_char,
    fa: *const c_void,
    attr: *const c_void,
    argv: *const *mut c_char,
    envp: *const *mut c_char,
) -> c_int {
    if engaged() {
        return do_spawn(pid, path, argv);
    }
    type F = unsafe extern "C" fn(
        *mut libc::pid_t,
        *const c_char,
        *const c_void,
        *const c_void,
        *const *mut c_char,
        *const *mut c_char,
    ) -> c_int;
    real!("posix_spawnp", F)(pid, path, fa, attr, argv, envp)
}
#[no_mangle]
pub unsafe extern "C" fn pidfd_spawnp(
    _pid: *mut c_int,
    _path: *const c_char,
    _fa: *const c_void,
    _attr: *const c_void,
    _argv: *const *mut c_char,
    _envp: *const *mut c_char,
) -> c_int {
    libc::ENOSYS
}
#[no_mangle]
pub unsafe extern "C" fn fork() -> libc::pid_t {
    if engaged() {
        // std falls back to this only for options the editor does not use
        return fail(libc::ENOSYS);
    }
    real!("fork", unsafe extern "C" fn() -> libc::pid_t)()
}
#[no_mangle]
pub unsafe extern "C" fn waitpid(pid: libc::pid_t, status: *mut c_int, opts: c_int) -> libc::pid_t {
    if engaged() && pid > VPID {
        let p = (pid - VPID) as usize;
        loop {
            let st = {
                let _k = kenter();
                match sim().procs.get(p) {
                    None => return fail(libc::ECHILD),
                    Some(pr) => pr.state.clone(),
                }
            };
            let code = match st {
                PState::Running => {
                    if opts & libc::WNOHANG != 0 {
                        yield_point();
                        return 0;
                    }
                    block(Key::Proc(p), None);
                    continue;
                }
                PState::Exited(c) => (c & 0xff) << 8,
                PState::Panicked(_) => 101 << 8,
                PState::Killed => 9,
            };
            if !status.is_null() {
                *status = code;
            }
            return pid;
        }
    }
    ret(syscall6(61, pid as usize, status as usize, opts as usize, 0, 0, 0)) as libc::pid_t
}
#[no_mangle]
pub unsafe extern "C" fn kill(pid: libc::pid_t, sig: c_int) -> c_int {
    if engaged() {
        let p = pid - VPID;
        if p > 0 && (p as usize) < sim().procs.len() {
            let _k = kenter();
            if sig != 0 {
                end_proc(p as usize, PState::Killed);
            }
            return 0;
        }
        escape("kill", &pid.to_string());
        return fail(libc::ESRCH);
    }
    ret(syscall6(62, pid as usize, sig as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn exit(code: c_int) -> ! {
    if engaged() {
        proc_exit(code);
    }
    let f = real!("exit", unsafe extern "C" fn(c_int) -> !);
    f(code)
}

// ---------------------------------------------------------------- basic blocks of the code under test

pub static mut EDGES: u32 = 0;
pub static mut HITS: [u8; 1 << 16] = [0; 1 << 16];

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    if start == stop || *start != 0 {
        return;
    }
    while p < stop {
        EDGES += 1;
        *p = EDGES;
        p = p.add(1);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    let g = *guard as usize;
    HITS[g & 0xffff] = 1;
    block_hook();
}
