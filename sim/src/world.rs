//! Carries out a plan inside the simulation and records what can be observed.
use crate::plan::*;
use serde_json::Value;
use simrt::net::{self, C2S, S2C};
use simrt::*;
use std::collections::{BTreeMap, HashMap};

pub const SDIR: &str = "/sim/tmp/ced-sim";
/// Host and port of a session that is an address.
fn address(session: &str) -> Option<(&str, &str)> {
    let (host, port) = session.strip_prefix('@')?.rsplit_once(':')?;
    let four = host.split('.').count() == 4 && host.split('.').all(|n| !n.is_empty() && n.bytes().all(|b| b.is_ascii_digit()));
    let known = host.is_empty() || host == "localhost" || four;
    (known && !port.is_empty() && port.bytes().all(|b| b.is_ascii_digit())).then_some((host, port))
}
pub fn spath(session: &str) -> Option<String> {
    match address(session) {
        Some(_) => None,
        None => Some(format!("{}/{}", SDIR, session)),
    }
}
pub fn skey(session: &str) -> String {
    match address(session) {
        None => format!("{}/{}", SDIR, session),
        Some((host, port)) => format!("tcp {}:{}", if host.is_empty() || host == "localhost" { "127.0.0.1" } else { host }, port),
    }
}

#[derive(Clone, Debug)]
pub struct SentLine {
    pub bytes: Vec<u8>,
    pub phase: usize,
    /// index of the step in its phase
    pub step_idx: usize,
    pub at: u64,
}

#[derive(Default)]
pub struct Client {
    pub session: String,
    pub conn: Option<usize>,
    /// the process whose standard input and output this is
    pub virt: Option<usize>,
    pub connect_errno: i32,
    pub id: Option<String>,
    pub sent: Vec<SentLine>,
    part: Vec<u8>,
    pub closed: Option<(&'static str, u64)>,
    pub responses: usize,
    scanned: usize,
}

impl Client {
    pub fn lines(&self) -> &'static [net::Line] {
        if let Some(p) = self.virt {
            return &sim().procs[p].out_lines;
        }
        match self.conn {
            Some(c) => &sim().net.conns[c].dirs[S2C].rlines,
            None => &[],
        }
    }
    pub fn partial(&self) -> &'static [u8] {
        if let Some(p) = self.virt {
            return &sim().procs[p].out_part;
        }
        match self.conn {
            Some(c) => &sim().net.conns[c].dirs[S2C].rpart,
            None => &[],
        }
    }
    /// bytes sent after the last newline
    pub fn unsent_part(&self) -> &[u8] {
        &self.part
    }
    /// step at which this client saw the end of its connection
    pub fn eof(&self) -> Option<u64> {
        self.conn.and_then(|c| sim().net.conns[c].dirs[S2C].eof_seen)
    }
    /// lines the server has taken off the connection
    pub fn taken(&self) -> &'static [net::Line] {
        if let Some(p) = self.virt {
            return &sim().procs[p].in_lines;
        }
        match self.conn {
            Some(c) => &sim().net.conns[c].dirs[C2S].rlines,
            None => &[],
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Barrier {
    pub step: u64,
    /// received lines per client
    pub seen: BTreeMap<usize, usize>,
    pub stdout: BTreeMap<usize, usize>,
    pub sessions: Vec<String>,
    /// the session directory exists
    pub dir: bool,
    pub up: Vec<String>,
    /// running processes by slot
    pub running: Vec<usize>,
    pub stuck: Vec<String>,
    /// what the running processes hold
    pub held: BTreeMap<usize, Held>,
}

#[derive(Clone, Debug, Default)]
pub struct Held {
    /// connections (server's side) that are not closed
    pub conns: Vec<usize>,
    /// of these: the peer has left, and nothing keeps the end from being seen
    pub dead: Vec<usize>,
    /// open files and sockets
    pub files: Vec<String>,
    pub tasks: i64,
    pub threads: usize,
}

#[derive(Clone, Debug)]
pub struct LibRec {
    pub step: u64,
    pub what: String,
    pub val: Value,
}

pub struct World {
    pub plan: Plan,
    pub phase: usize,
    /// per actor of the current phase: step indices left
    todo: BTreeMap<usize, Vec<usize>>,
    pub clients: BTreeMap<usize, Client>,
    pub slots: BTreeMap<usize, usize>,
    /// sizes of the terminals of programs to be started
    sizes: BTreeMap<usize, (u16, u16)>,
    pub stalled_out: Vec<usize>,
    pub barriers: Vec<Barrier>,
    pub servers: HashMap<String, usize>,
    pub lib: BTreeMap<usize, Vec<LibRec>>,
    pub go: BTreeMap<usize, usize>,
    pub done_ops: Vec<(usize, usize, u64)>,
    /// offset into a partially sent Send
    partial_send: BTreeMap<usize, (usize, Vec<u8>)>,
    pub finished: bool,
    pub spawned: Vec<usize>,
    pub wall_at_barrier: Vec<i64>,
}

pub fn world() -> &'static mut World {
    unsafe { &mut *WORLD }
}
static mut WORLD: *mut World = std::ptr::null_mut();

impl World {
    pub fn install(plan: Plan) -> *mut World {
        let mut w = Box::new(World {
            plan,
            phase: 0,
            todo: BTreeMap::new(),
            clients: BTreeMap::new(),
            slots: BTreeMap::new(),
            sizes: BTreeMap::new(),
            stalled_out: Vec::new(),
            barriers: Vec::new(),
            servers: HashMap::new(),
            lib: BTreeMap::new(),
            go: BTreeMap::new(),
            done_ops: Vec::new(),
            partial_send: BTreeMap::new(),
            finished: false,
            spawned: Vec::new(),
            wall_at_barrier: Vec::new(),
        });
        w.load_phase();
        let p = Box::into_raw(w);
        unsafe { WORLD = p };
        p
    }
    fn load_phase(&mut self) {
        self.todo.clear();
        if let Some(p) = self.plan.phases.get(self.phase) {
            for (i, s) in p.steps.iter().enumerate() {
                self.todo.entry(s.actor).or_default().push(i);
            }
            for v in self.todo.values_mut() {
                v.reverse();
            }
        }
    }
    pub fn client(&self, c: usize) -> Option<&Client> {
        self.clients.get(&c)
    }
    pub fn proc_of(&self, slot: usize) -> Option<&'static Proc> {
        self.slots.get(&slot).map(|p| &sim().procs[*p])
    }
    pub fn stdout(&self, slot: usize) -> &'static [u8] {
        match self.slots.get(&slot) {
            Some(p) => &sim().procs[*p].stdout,
            None => &[],
        }
    }
    /// process serving the session, if any
    pub fn server_proc(&self, session: &str) -> Option<usize> {
        let p = spath(session);
        net::resolve(&skey(session), p.as_deref()).ok().map(|l| sim().net.listeners[l].proc)
    }
    pub fn server_conn(&self, session: &str, n: usize) -> Option<usize> {
        let l = *self.servers.get(session)?;
        sim().net.conns.iter().enumerate().filter(|(_, c)| c.listener == l).map(|(i, _)| i).nth(n)
    }

    fn subst(&self, d: &[u8]) -> Option<Vec<u8>> {
        // $I<k>$ is the identity the server gave to client k
        let mut out = Vec::with_capacity(d.len());
        let mut i = 0;
        while i < d.len() {
            if d[i..].starts_with(b"$I") {
                if let Some(e) = d[i + 2..].iter().position(|b| *b == b'$') {
                    if let Ok(k) = std::str::from_utf8(&d[i + 2..i + 2 + e]).unwrap_or("x").parse::<usize>() {
                        let c = match self.clients.get(&k) {
                            Some(c) => c,
                            None => {
                                out.extend_from_slice(b"99999");
                                i += e + 3;
                                continue;
                            }
                        };
                        match &c.id {
                            Some(id) => out.extend_from_slice(id.as_bytes()),
                            None if c.conn.is_none() || c.eof().is_some() || c.closed.is_some() => {
                                out.extend_from_slice(b"99999")
                            }
                            None => return None,
                        }
                        i += e + 3;
                        continue;
                    }
                }
            }
            out.push(d[i]);
            i += 1;
        }
        Some(out)
    }

    fn enabled(&self, actor: usize, op: &Op) -> bool {
        match op {
            Op::Send { c, data } => match self.clients.get(c) {
                Some(cl) => match cl.conn {
                    Some(conn) => {
                        if cl.closed.is_some() {
                            return true;
                        }
                        if !self.partial_send.contains_key(&actor) && self.subst(&data.0).is_none() {
                            return false;
                        }
                        let d = &sim().net.conns[conn].dirs[C2S];
                        d.fin || d.broken || data.0.is_empty() || net::raw_room(conn, 0) > 0
                    }
                    None => true,
                },
                None => true,
            },
            Op::Sync { c } => match self.clients.get(c) {
                Some(cl) => {
                    cl.conn.is_none() && cl.virt.map_or(true, |p| sim().procs[p].state != PState::Running)
                        || cl.closed.is_some() || cl.eof().is_some() || (cl.responses >= cl.sent.len() && cl.id.is_some())
                }
                None => true,
            },
            Op::WaitUp { session } => self.server_proc(session).is_some(),
            Op::WaitExit { slot } => self.proc_of(*slot).map_or(true, |p| p.state != PState::Running),
            Op::SrvSend { session, n, .. } => match self.server_conn(session, *n) {
                Some(c) => {
                    let d = &sim().net.conns[c].dirs[S2C];
                    d.broken || d.fin || net::raw_room(c, 1) > 0
                }
                None => false,
            },
            Op::SrvClose { session, n, .. } | Op::SrvStall { session, n } | Op::SrvUnstall { session, n } => {
                self.server_conn(session, *n).is_some()
            }
            Op::SrvWait { session, n, lines } => match self.server_conn(session, *n) {
                Some(c) => {
                    let d = &sim().net.conns[c].dirs[C2S];
                    d.rlines.len() >= *lines || d.eof_seen.is_some()
                }
                None => false,
            },
            _ => {
                let _ = actor;
                true
            }
        }
    }

    /// true when the op is finished
    fn exec(&mut self, idx: usize, actor: usize) -> bool {
        let op = self.plan.phases[self.phase].steps[idx].op.clone();
        let step = sim().step;
        ev!("op {:?}", op);
        match op {
            Op::Connect { c, session } => {
                let p = spath(&session);
                let mut cl = Client { session: session.clone(), ..Default::default() };
                match net::connect_kernel(&skey(&session), p.as_deref(), 0, true) {
                    Ok(id) => cl.conn = Some(id),
                    Err(e) => cl.connect_errno = e,
                }
                self.clients.insert(c, cl);
            }
            Op::Send { c, data } => {
                // the identities put in do not change once a part was sent
                let (off, d) = match self.partial_send.remove(&actor) {
                    Some(p) => p,
                    None => match self.subst(&data.0) {
                        Some(d) => (0, d),
                        None => return true,
                    },
                };
                let phase = self.phase;
                if let Some(cl) = self.clients.get_mut(&c) {
                    if let (Some(conn), None) = (cl.conn, cl.closed) {
                        let dir = &sim().net.conns[conn].dirs[C2S];
                        if dir.fin || dir.broken {
                            // the write fails
                            return true;
                        }
                        let room = net::raw_room(conn, 0);
                        let n = room.min(d.len() - off);
                        if off + n < d.len() {
                            fault("net.short-write-full");
                        }
                        let part = &d[off..off + n];
                        for &b in part {
                            if b == b'\n' {
                                let bytes = std::mem::take(&mut cl.part);
                                cl.sent.push(SentLine { bytes, phase, step_idx: idx, at: step });
                            } else {
                                cl.part.push(b);
                            }
                        }
                        net::raw_send(conn, 0, part);
                        if off + n < d.len() {
                            self.partial_send.insert(actor, (off + n, d));
                            return false;
                        }
                    }
                }
            }
            Op::Sync { .. } | Op::WaitUp { .. } | Op::WaitExit { .. } | Op::SrvWait { .. } | Op::Nop => {}
            Op::Close { c } | Op::Reset { c } => {
                let reset = matches!(self.plan.phases[self.phase].steps[idx].op, Op::Reset { .. });
                if let Some(cl) = self.clients.get_mut(&c) {
                    if let Some(conn) = cl.conn {
                        if !matches!(cl.closed, Some(("close", _)) | Some(("reset", _))) {
                            cl.closed = Some((if reset { "reset" } else { "close" }, step));
                            fault(if reset { "net.reset-by-client" } else { "net.close-by-client" });
                            net::close(conn, 0, reset);
                        }
                    }
                }
            }
            Op::HalfClose { c } => {
                if let Some(cl) = self.clients.get_mut(&c) {
                    if let (Some(conn), None) = (cl.conn, cl.closed) {
                        cl.closed = Some(("half", step));
                        fault("net.half-close");
                        net::shutdown(conn, 0, 1);
                    }
                }
            }
            Op::Stall { c } => {
                if let Some(conn) = self.clients.get(&c).and_then(|c| c.conn) {
                    fault("net.reader-stalled");
                    sim().net.conns[conn].stalled[0] = true;
                }
            }
            Op::Unstall { c } => {
                if let Some(conn) = self.clients.get(&c).and_then(|c| c.conn) {
                    if !sim().net.conns[conn].closed[0] {
                        sim().net.conns[conn].stalled[0] = false;
                        net::raw_consume(conn, 0);
                        self.scan(c);
                    }
                }
            }
            Op::Freeze { c, dir } => {
                if let Some(conn) = self.clients.get(&c).and_then(|c| c.conn) {
                    fault("net.delay");
                    sim().net.conns[conn].dirs[dir & 1].frozen = true;
                }
            }
            Op::Thaw { c, dir } => {
                if let Some(conn) = self.clients.get(&c).and_then(|c| c.conn) {
                    sim().net.conns[conn].dirs[dir & 1].frozen = false;
                }
            }
            Op::Start { slot, args } => {
                let mut argv = vec!["/sim/bin/ced".to_string()];
                argv.extend(args.iter().cloned());
                let f = crate::cedbin::entry();
                let p = spawn_proc(&args.join(" "), argv, f);
                self.slots.insert(slot, p);
                if matches!(self.plan.check.as_str(), "C24" | "C25") {
                    sim().procs[p].term = Some(self.sizes.get(&slot).copied().unwrap_or((80, 24)));
                }
                let bridge = |c: &str| c == "C22" && args.iter().any(|a| a == "--mode=json" || a == "json");
                if matches!(self.plan.check.as_str(), "C16" | "C17") && !args.iter().any(|a| a == "--mode=server") || bridge(&self.plan.check) {
                    self.clients.insert(slot, Client { virt: Some(p), ..Default::default() });
                }
            }
            Op::Kill { slot } => {
                if let Some(p) = self.slots.get(&slot) {
                    if sim().procs[*p].state == PState::Running {
                        fault("proc.kill");
                        end_proc(*p, PState::Killed);
                    }
                }
            }
            Op::KillServer { session } => {
                if let Some(p) = self.server_proc(&session) {
                    if p != 0 {
                        fault("proc.kill-server");
                        end_proc(p, PState::Killed);
                    }
                }
            }
            Op::KillNew => {
                if let Some(p) = self.spawned.last() {
                    if sim().procs[*p].state == PState::Running {
                        fault("proc.kill-daemon");
                        end_proc(*p, PState::Killed);
                    }
                }
            }
            Op::Stdin { slot, data } => {
                if let Some(p) = self.slots.get(&slot) {
                    if sim().procs[*p].state != PState::Running || sim().procs[*p].stdin_eof {
                        return true;
                    }
                    sim().procs[*p].stdin.extend(data.0.iter());
                    wake_key(Key::Stdin(*p));
                    let phase = self.phase;
                    if let Some(cl) = self.clients.get_mut(&slot) {
                        for &b in &data.0 {
                            if b == b'\n' {
                                let bytes = std::mem::take(&mut cl.part);
                                cl.sent.push(SentLine { bytes, phase, step_idx: idx, at: step });
                            } else {
                                cl.part.push(b);
                            }
                        }
                    }
                }
            }
            Op::StdinEof { slot } => {
                if let Some(p) = self.slots.get(&slot) {
                    if sim().procs[*p].state != PState::Running || sim().procs[*p].stdin_eof {
                        return true;
                    }
                    sim().procs[*p].stdin_eof = true;
                    wake_key(Key::Stdin(*p));
                    let phase = self.phase;
                    if let Some(cl) = self.clients.get_mut(&slot) {
                        if !cl.part.is_empty() {
                            let bytes = std::mem::take(&mut cl.part);
                            cl.sent.push(SentLine { bytes, phase, step_idx: idx, at: step });
                        }
                    }
                }
            }
            Op::StdinErr { slot, errno } => {
                if let Some(p) = self.slots.get(&slot) {
                    fault("stdin.read-error");
                    sim().procs[*p].stdin_err = errno;
                    wake_key(Key::Stdin(*p));
                }
            }
            Op::OutStall { slot } => {
                if let Some(p) = self.slots.get(&slot) {
                    fault("stdout.reader-stalled");
                    sim().procs[*p].stdout_cap = 4096;
                    self.stalled_out.push(slot);
                }
            }
            Op::OutUnstall { slot } => {
                self.stalled_out.retain(|s| *s != slot);
            }
            Op::OutClose { slot } => {
                if let Some(p) = self.slots.get(&slot) {
                    fault("stdout.closed");
                    sim().procs[*p].stdout_closed = true;
                    wake_key(Key::Stdout(*p));
                }
            }
            Op::Resize { slot, w, h } => {
                self.sizes.insert(slot, (w, h));
                if let Some(p) = self.slots.get(&slot) {
                    let pr = &mut sim().procs[*p];
                    if pr.state == PState::Running && pr.term.is_some() {
                        fault("terminal.resize");
                        pr.term = Some((w, h));
                        pr.resizes.push((pr.stdout_written, w, h, step));
                        // the signal
                        pr.stdin.extend(b"r\n");
                        wake_key(Key::Stdin(*p));
                    }
                }
            }
            Op::Lib { slot, session, calls } => {
                let f = crate::libuser::entry(slot, session.clone(), calls);
                let p = spawn_proc(&format!("library user {}", slot), vec!["libuser".into()], f);
                self.slots.insert(slot, p);
            }
            Op::Ffi { slot, session, rounds, destroy } => {
                let f = crate::libuser::ffi_entry(slot, session.clone(), rounds, destroy);
                let p = spawn_proc(&format!("user {} of the C interface", slot), vec!["cuser".into()], f);
                self.slots.insert(slot, p);
            }
            Op::Go { slot } => {
                *self.go.entry(slot).or_insert(0) += 1;
                wake_key(Key::Stdin(100_000 + slot));
            }
            Op::Listen { session } => {
                if let Some(p) = spath(&session) {
                    let d = fs::translate(&p).unwrap();
                    let _ = std::fs::create_dir_all(std::path::Path::new(&d).parent().unwrap());
                }
                let p = spath(&session);
                if let Ok(l) = net::listen_kernel(&skey(&session), p.as_deref(), 0, true) {
                    self.servers.insert(session, l);
                }
            }
            Op::Unlisten { session } => {
                if let Some(l) = self.servers.get(&session) {
                    net::close_listener(*l);
                }
            }
            Op::SrvSend { session, n, data } => {
                let off = self.partial_send.remove(&actor).map_or(0, |p| p.0);
                if let Some(conn) = self.server_conn(&session, n) {
                    let dir = &sim().net.conns[conn].dirs[S2C];
                    if dir.broken || dir.fin {
                        return true;
                    }
                    let k = net::raw_room(conn, 1).min(data.0.len() - off);
                    net::raw_send(conn, 1, &data.0[off..off + k]);
                    if off + k < data.0.len() {
                        self.partial_send.insert(actor, (off + k, Vec::new()));
                        return false;
                    }
                }
            }
            Op::SrvClose { session, n, reset } => {
                if let Some(conn) = self.server_conn(&session, n) {
                    fault(if reset { "net.reset-by-server" } else { "net.close-by-server" });
                    net::close(conn, 1, reset);
                }
            }
            Op::SrvStall { session, n } => {
                if let Some(conn) = self.server_conn(&session, n) {
                    fault("net.server-stalled");
                    sim().net.conns[conn].stalled[1] = true;
                }
            }
            Op::SrvUnstall { session, n } => {
                if let Some(conn) = self.server_conn(&session, n) {
                    if !sim().net.conns[conn].closed[1] {
                        sim().net.conns[conn].stalled[1] = false;
                        net::raw_consume(conn, 1);
                    }
                }
            }
            Op::WriteFile { path, data, age_ms } => {
                if let Some(real) = fs::translate(&path) {
                    if let Some(d) = std::path::Path::new(&real).parent() {
                        let _ = std::fs::create_dir_all(d);
                    }
                    // writing to a pipe would block
                    if std::fs::metadata(&real).map(|m| !m.is_file()).unwrap_or(false) {
                        if let Ok(p) = std::fs::canonicalize(&real) {
                            let _ = std::fs::remove_file(p);
                        }
                    }
                    let _ = std::fs::write(&real, &data.0);
                    set_mtime(&real, now_wall() - age_ms * 1_000_000);
                }
            }
            Op::Remove { path } => {
                if let Some(real) = fs::translate(&path) {
                    if std::fs::symlink_metadata(&real).map(|m| m.is_dir()).unwrap_or(false) {
                        let _ = std::fs::remove_dir(&real);
                    } else {
                        let _ = std::fs::remove_file(&real);
                    }
                }
            }
            Op::Fifo { path } => {
                if let Some(real) = fs::translate(&path) {
                    let _ = std::fs::remove_file(&real);
                    fault("fs.pipe-in-place-of-a-file");
                    if let Ok(p) = std::ffi::CString::new(real) {
                        unsafe { libc::mkfifo(p.as_ptr(), 0o644) };
                    }
                }
            }
            Op::Mkdir { path } => {
                if let Some(real) = fs::translate(&path) {
                    let _ = std::fs::create_dir_all(&real);
                }
            }
            Op::Symlink { path, target } => {
                if let (Some(real), Some(t)) = (fs::translate(&path), fs::translate(&target)) {
                    let _ = std::os::unix::fs::symlink(t, real);
                }
            }
            Op::Fault { call, path, skip, times, errno, short } => {
                use simrt::fs::{Call, Effect, Fault};
                let (call, name) = match call.as_str() {
                    "open" => (Call::Open, "fs.open-error"),
                    "read" if short > 0 => (Call::Read, "fs.short-read"),
                    "read" => (Call::Read, "fs.read-error"),
                    "stat" => (Call::Stat, "fs.stat-error"),
                    "unlink" => (Call::Unlink, "fs.unlink-error"),
                    "rmdir" => (Call::Rmdir, "fs.rmdir-error"),
                    "mkdir" => (Call::Mkdir, "fs.mkdir-error"),
                    "opendir" => (Call::Opendir, "fs.opendir-error"),
                    "flock" => (Call::Lock, "fs.lock-error"),
                    "spawn" => (Call::Spawn, "proc.spawn-error"),
                    _ => (Call::Other, "fs.other-error"),
                };
                let effect = if short > 0 { Effect::Short(short) } else { Effect::Errno(errno) };
                sim().fs.faults.push(Fault { call, path, skip, times, effect, name });
            }
            Op::ClearFaults => {
                sim().fs.faults.clear();
                sim().net.bind_errors.clear();
                sim().net.connect_errors.clear();
            }
            Op::AcceptErr { session, errno } => {
                let p = spath(&session);
                if let Ok(l) = net::resolve(&skey(&session), p.as_deref()) {
                    net::inject_accept_error(l, errno);
                }
            }
            Op::BindErr { errno } => sim().net.bind_errors.push_back(errno),
            Op::ConnErr { errno } => sim().net.connect_errors.push_back(errno),
            Op::Clock { ms } => {
                fault("clock.jump");
                sim().wall_off_ns += ms * 1_000_000;
            }
        }
        true
    }

    /// Looks at newly received lines: identity and number of responses.
    pub fn scan(&mut self, c: usize) {
        let cl = match self.clients.get_mut(&c) {
            Some(c) => c,
            None => return,
        };
        let lines = cl.lines();
        while cl.scanned < lines.len() {
            let l = &lines[cl.scanned];
            cl.scanned += 1;
            if let Ok(v) = serde_json::from_slice::<Value>(&l.bytes) {
                if v.get("method").is_none() {
                    cl.responses += 1;
                } else if v["method"] == "info" {
                    if let Some(id) = v["params"]["client"].as_str() {
                        if cl.id.is_none() {
                            cl.id = Some(id.to_string());
                        }
                    }
                }
            }
        }
    }

    fn barrier(&mut self) {
        let mut b = Barrier { step: sim().step, ..Default::default() };
        for (k, c) in &self.clients {
            b.seen.insert(*k, c.lines().len());
        }
        for (slot, p) in &self.slots {
            b.stdout.insert(*slot, sim().procs[*p].stdout.len());
            if sim().procs[*p].state == PState::Running {
                b.running.push(*slot);
            }
        }
        if let Some(d) = fs::translate(SDIR) {
            if let Ok(rd) = std::fs::read_dir(d) {
                b.dir = true;
                for e in rd.flatten() {
                    let n = e.file_name().to_string_lossy().to_string();
                    if self.server_proc(&n).is_some() {
                        b.up.push(n.clone());
                    }
                    b.sessions.push(n);
                }
            }
        }
        b.sessions.sort();
        b.up.sort();
        for (i, p) in sim().procs.iter().enumerate().skip(1) {
            if p.state != PState::Running {
                continue;
            }
            let mut h = Held { tasks: p.tasks, ..Default::default() };
            for (n, c) in sim().net.conns.iter().enumerate() {
                if c.procs[1] != i || c.raw[1] || c.closed[1] || c.accepted.is_none() {
                    continue;
                }
                h.conns.push(n);
                let d = &c.dirs[net::C2S];
                let back = &c.dirs[net::S2C];
                if c.closed[0] && !d.frozen && !back.frozen || d.eof_seen.is_some() && !c.stalled[0] && !back.frozen {
                    h.dead.push(n);
                }
            }
            h.files = sim().fs.owners.values().filter(|x| x.0 == i).map(|x| x.1.clone()).collect();
            h.threads = sim().threads.iter().filter(|t| t.proc == i && !matches!(t.state, TState::Exited | TState::Dead)).count();
            b.held.insert(i, h);
        }
        for (actor, v) in &self.todo {
            if let Some(i) = v.last() {
                b.stuck.push(format!("actor {}: {:?}", actor, self.plan.phases[self.phase].steps[*i].op));
            }
        }
        ev!("---- end of phase {} {} {:?}", self.phase, self.plan.phases[self.phase].name, b);
        self.wall_at_barrier.push(now_wall());
        self.barriers.push(b);
    }
}

pub fn set_mtime(real: &str, ns: i64) {
    let g = sim().cfg.mtime_gran_ns.max(1);
    let ns = ns - ns.rem_euclid(g);
    let ts = libc::timespec { tv_sec: ns.div_euclid(1_000_000_000), tv_nsec: ns.rem_euclid(1_000_000_000) };
    let times = [ts, ts];
    let p = std::ffi::CString::new(real).unwrap();
    unsafe {
        libc::utimensat(libc::AT_FDCWD, p.as_ptr(), times.as_ptr(), 0);
    }
}

impl Driver for World {
    fn actions(&mut self, out: &mut Vec<(u64, u32)>) {
        let news: Vec<usize> =
            self.clients.iter().filter(|(_, c)| c.virt.is_some() && c.scanned < c.lines().len()).map(|(k, _)| *k).collect();
        for c in news {
            self.scan(c);
        }
        for (&actor, v) in &self.todo {
            if let Some(&i) = v.last() {
                if self.enabled(actor, &self.plan.phases[self.phase].steps[i].op) {
                    out.push((actor as u64, 1));
                }
            }
        }
        for (slot, p) in &self.slots {
            let pr = &sim().procs[*p];
            if !pr.stdout_pending.is_empty() && !self.stalled_out.contains(slot) {
                out.push((1000 + *slot as u64, 1));
            }
        }
    }
    fn perform(&mut self, a: u64) {
        if a >= 1000 {
            // the reader of a process's standard output takes what there is
            let slot = (a - 1000) as usize;
            let p = self.slots[&slot];
            let pr = &mut sim().procs[p];
            let all: Vec<u8> = pr.stdout_pending.drain(..).collect();
            pr.stdout.extend(all);
            wake_key(Key::Stdout(p));
            return;
        }
        let actor = a as usize;
        let i = *self.todo[&actor].last().unwrap();
        if self.exec(i, actor) {
            self.todo.get_mut(&actor).unwrap().pop();
            self.partial_send.remove(&actor);
            let st = sim().step;
            let ph = self.phase;
            self.done_ops.push((ph, i, st));
        }
    }
    fn quiescent(&mut self) -> DrvResult {
        // no delay lasts for ever
        let mut held = false;
        for c in sim().net.conns.iter_mut() {
            for d in c.dirs.iter_mut() {
                held |= d.frozen && (!d.inflight.is_empty() || d.fin);
                d.frozen = false;
            }
        }
        if held {
            return DrvResult::More;
        }
        self.barrier();
        if std::env::var_os("CEDSIM_STOP_STUCK").is_none() && self.todo.values().any(|v| !v.is_empty()) {
            // something waited for did not happen: the rest of the phase is dropped
            probe("phase-stuck");
        }
        self.phase += 1;
        if self.phase >= self.plan.phases.len() {
            self.finished = true;
            return DrvResult::Done;
        }
        self.partial_send.clear();
        self.load_phase();
        DrvResult::More
    }
    fn spawn_process(&mut self, path: &str, _args: Vec<String>) -> Result<Box<dyn FnOnce() -> i32 + Send>, i32> {
        if path != "/sim/bin/ced" {
            return Err(libc::ENOENT);
        }
        self.spawned.push(sim().procs.len());
        Ok(crate::cedbin::entry())
    }
    fn on_deliver(&mut self, conn: usize, dir: usize) {
        if dir == S2C {
            let c = self.clients.iter().find(|(_, cl)| cl.conn == Some(conn)).map(|(k, _)| *k);
            if let Some(c) = c {
                self.scan(c);
            }
        }
    }
}
