//! Life and death of servers and their sessions.
use super::gen::*;
use super::*;
use crate::plan::Op;
use serde_json::json;
use simrt::net::S2C;
use std::collections::{BTreeMap, BTreeSet};

pub const RULE9: &str = "1-3 sessions in one directory (next to foreign files, directories and an abandoned socket), 1-4 clients each that join, work, quit by request or menu, close, half-close or are reset at any point, also all at once while the same or another session is started; failing unlink, rmdir and readdir; ced --list at the end; non-trivial: a client left while others stayed, and a server ended";
pub const RULE10: &str = "1-4 concurrent starters (library ensure and start, ced --mode=daemon, --mode=server) after a crashed, killed-while-starting, killed-while-ending, running or no earlier server; killed starters and servers, failing spawn, bind, mkdir, open, unlink; then an undisturbed starter; also while the last client of this session or another leaves; non-trivial: at least two starters at once, or a crash or a fault before";

const STRAY: [&str; 3] = ["dir", "note.txt", "old"];

fn ident(c: &Client, upto: u64) -> bool {
    received(c).iter().any(|m| m.at <= upto && matches!(&m.msg, Msg::Notif { method, .. } if method == "info"))
}
/// The server process a client is connected to.
fn server_of(c: &Client) -> Option<usize> {
    c.conn.map(|x| simrt::sim().net.listeners[simrt::sim().net.conns[x].listener].proc)
}
fn ended(p: usize, at: u64) -> bool {
    let p = &simrt::sim().procs[p];
    p.state != PState::Running && p.ended_step <= at
}
/// Server processes and their sessions.
fn server_procs() -> Vec<(usize, String)> {
    let mut v = Vec::new();
    for (i, p) in simrt::sim().procs.iter().enumerate() {
        if p.args.iter().any(|a| a == "--mode=server") {
            if let Some(s) = p.args.iter().find_map(|a| a.strip_prefix("--session=")) {
                // a path denotes the name in the directory
                v.push((i, s.strip_prefix(&format!("{}/", SDIR)).unwrap_or(s).to_string()));
            }
        }
    }
    v
}
fn work(r: &mut Rng, id: i64) -> String {
    let id = json!(id);
    match r.below(7) {
        0 | 1 => req(&id, "edit", Some(json!({"name": BUFS[r.below(3)], "scratch": true}))),
        2 => req(&id, "view", Some(json!("*scratch*"))),
        3 => req(&id, "keys", Some(c01::keys_json(&["j", "l"]))),
        4 => req(&id, "exec", Some(json!("editor:message(tonumber(env.client), 'x')"))),
        5 => req(&id, "menu", Some(json!({"command": "", "search": ""}))),
        _ => req(&id, "view-delete", None),
    }
}

// ------------------------------------------------------------------- C09

struct Ses {
    name: &'static str,
    slot: Option<usize>,
    here: Vec<usize>,
}

/// Requests and the way a client leaves.
fn leave(r: &mut Rng, b: &mut PB, c: usize, next: &mut i64) {
    let mut buf: Vec<u8> = Vec::new();
    for _ in 0..r.below(4) {
        *next += 1;
        buf.extend(work(r, *next).into_bytes());
        buf.push(b'\n');
    }
    *next += 1;
    let id = json!(*next);
    let how = r.below(8);
    match how {
        0 | 1 => buf.extend(req(&id, "quit", None).into_bytes()),
        2 => buf.extend(req(&id, "menu-select", Some(json!({"command": "", "choice": "quit"}))).into_bytes()),
        _ => {}
    }
    if how <= 2 {
        buf.push(b'\n');
        if r.chance(20) {
            *next += 1;
            buf.extend(work(r, *next).into_bytes());
            buf.push(b'\n');
        }
    } else if r.chance(25) {
        buf.extend(b"{\"jsonrpc\":\"2.0\",\"id\":999");
    }
    send_cut(r, b, c, c, &buf);
    if how <= 2 {
        if r.chance(25) {
            b.op(c, if r.chance(50) { Op::Close { c } } else { Op::HalfClose { c } });
        }
        return;
    }
    if r.chance(40) && !buf.ends_with(b"999") {
        b.op(c, Op::Sync { c });
    }
    b.op(
        c,
        match how {
            3 | 4 => Op::Close { c },
            5 => Op::HalfClose { c },
            6 => Op::Reset { c },
            _ => Op::Close { c },
        },
    );
}

pub fn gen9(r: &mut Rng, b: &mut PB, thorough: bool) {
    b.phase("before");
    if r.chance(30) {
        b.op(900, Op::Mkdir { path: format!("{}/dir", SDIR) });
    }
    if r.chance(30) {
        b.op(900, Op::WriteFile { path: format!("{}/note.txt", SDIR), data: "x".into(), age_ms: 5000 });
    }
    let mut slot = 0;
    if r.chance(20) {
        b.op(900, Op::Start { slot: 50, args: vec!["--mode=server".into(), "--session=old".into()] });
        b.op(900, Op::WaitUp { session: "old".into() });
        b.op(900, Op::Kill { slot: 50 });
    }
    let names = ["s", "tt", "u é"];
    let k = r.range(1, 3);
    let mut ses: Vec<Ses> = (0..k).map(|i| Ses { name: names[i], slot: None, here: Vec::new() }).collect();
    let mut clients = 0;
    let mut next = 0i64;
    let phases = r.range(2, if thorough { 9 } else { 5 });
    for ph in 0..phases {
        let mut faulty = false;
        if ph > 0 && r.chance(25) {
            b.phase("faults");
            for _ in 0..r.range(1, 3) {
                let n = ses[r.below(k)].name;
                let (call, path) = match r.below(4) {
                    0 | 1 => ("unlink", format!("ced-sim/{}", n)),
                    2 => ("rmdir", "ced-sim".into()),
                    _ => ("opendir", "ced-sim".into()),
                };
                let errno = *r.pick(&[libc::EACCES, libc::EIO, libc::EROFS, libc::EMFILE]);
                b.op(900, Op::Fault { call: call.into(), path, skip: 0, times: r.range(1, 3) as u32, errno, short: 0 });
            }
            faulty = true;
        }
        b.phase("life");
        for s in ses.iter_mut() {
            let a = 910 + s.name.len();
            if s.slot.is_none() {
                if faulty || !r.chance(75) {
                    continue;
                }
                b.op(a, Op::Start { slot, args: vec!["--mode=server".into(), format!("--session={}", s.name)] });
                b.op(a, Op::WaitUp { session: s.name.into() });
                s.slot = Some(slot);
                slot += 1;
                for _ in 0..r.range(1, 3) {
                    b.op(a, Op::Connect { c: clients, session: s.name.into() });
                    s.here.push(clients);
                    clients += 1;
                }
                continue;
            }
            let all = r.chance(35);
            let mut stay = Vec::new();
            for c in std::mem::take(&mut s.here) {
                if all || r.chance(30) {
                    leave(r, b, c, &mut next);
                } else {
                    let mut buf = Vec::new();
                    for _ in 0..r.below(4) {
                        next += 1;
                        buf.extend(work(r, next).into_bytes());
                        buf.push(b'\n');
                    }
                    send_cut(r, b, c, c, &buf);
                    stay.push(c);
                }
            }
            s.here = stay;
            // others come, some only for a moment
            for _ in 0..r.below(3) {
                let c = clients;
                clients += 1;
                b.op(c, Op::Connect { c, session: s.name.into() });
                if all || r.chance(40) {
                    leave(r, b, c, &mut next);
                } else {
                    s.here.push(c);
                }
            }
            if s.here.is_empty() {
                s.slot = None;
                if !faulty && r.chance(40) {
                    // started again while it ends
                    if r.chance(50) {
                        b.op(a, Op::Nop).op(a, Op::Nop);
                    }
                    b.op(a, Op::Start { slot, args: vec!["--mode=server".into(), format!("--session={}", s.name)] });
                    slot += 1;
                    let c = clients;
                    clients += 1;
                    b.phase("again");
                    b.op(c, Op::Connect { c, session: s.name.into() });
                    s.here.push(c);
                    s.slot = Some(slot - 1);
                    b.phase("life");
                }
            }
        }
        if faulty {
            b.phase("clear");
            b.op(900, Op::ClearFaults);
        }
    }
    if r.chance(60) {
        b.phase("all leave");
        for s in ses.iter_mut() {
            for c in std::mem::take(&mut s.here) {
                leave(r, b, c, &mut next);
            }
        }
    }
    if r.chance(70) {
        b.phase("list");
        b.op(900, Op::Start { slot: 60, args: vec!["--list".into()] });
    }
}

pub fn judge9(w: &mut World) -> Judge {
    no_server_failure(w)?;
    let servers = server_procs();
    let mut doubtful: BTreeSet<String> = BTreeSet::new();
    let mut stray: BTreeSet<String> = BTreeSet::new();
    let mut tried = false;
    let (mut partly, mut over) = (false, false);
    for (i, bar) in w.barriers.iter().enumerate() {
        let at = bar.step;
        for s in &w.plan.phases[i].steps {
            match &s.op {
                Op::Fault { call, path, .. } if call == "unlink" => {
                    doubtful.insert(path.rsplit('/').next().unwrap().into());
                }
                Op::Mkdir { path } | Op::WriteFile { path, .. } => {
                    stray.insert(path.rsplit('/').next().unwrap().into());
                }
                Op::Kill { slot: 50 } if w.slots.contains_key(&50) => {
                    stray.insert("old".into());
                }
                Op::Fault { .. } => tried = true,
                _ => {}
            }
        }
        let mut live: BTreeSet<String> = BTreeSet::new();
        for (p, name) in &servers {
            let proc = &simrt::sim().procs[*p];
            if proc.started_step > at {
                continue;
            }
            let gone = ended(*p, at);
            let mut any = false;
            let mut staying = Vec::new();
            let mut left = false;
            for (k, c) in &w.clients {
                let conn = match c.conn {
                    Some(x) if server_of(c) == Some(*p) && simrt::sim().net.conns[x].created <= at => x,
                    _ => continue,
                };
                any = true;
                let x = &simrt::sim().net.conns[conn];
                let eof = x.dirs[S2C].eof_seen.map_or(false, |e| e <= at) || x.closed_step[1].map_or(false, |e| e <= at);
                let closed = matches!(c.closed, Some((_, t)) if t <= at);
                let quit = quit_by(c, at);
                if closed || quit {
                    left = true;
                    let full = matches!(c.closed, Some(("close", t)) | Some(("reset", t)) if t <= at);
                    if !eof && !full {
                        return bad("not-disconnected", format!("client {} of session {} has left ({}) and is still connected", k, name, if quit { "quit" } else { "end of its stream" }));
                    }
                    continue;
                }
                if ident(c, at) {
                    if eof {
                        return bad("dropped", format!("client {} of session {} had not left, its connection was closed", k, name));
                    }
                    staying.push(*k);
                } else if gone {
                    // came too late
                    left |= eof;
                } else if eof {
                    return bad("dropped", format!("client {} of session {} was turned away while the server goes on", k, name));
                } else {
                    return bad("not-served", format!("client {} is connected to session {} and was told nothing", k, name));
                }
            }
            if gone {
                if !staying.is_empty() {
                    return bad("server-ended", format!("the server of session {} ended ({:?}) while clients {:?} were connected", name, proc.state, staying));
                }
                over |= any;
                if any && proc.state != PState::Exited(0) {
                    return bad("exit-status", format!("the server of session {} ended with {:?} after its last client left", name, proc.state));
                }
                if proc.state == PState::Exited(0) && !any {
                    return bad("server-ended", format!("the server of session {} ended without ever having had a client", name));
                }
            } else if !proc.stdout.is_empty() {
                if any && staying.is_empty() {
                    return bad("not-ended", format!("the last client of session {} has left, its server is still there", name));
                }
                partly |= left && !staying.is_empty();
                live.insert(name.clone());
                if !bar.up.contains(name) {
                    return bad("socket-lost", format!("session {} is being served, its socket is not there (directory: {:?})", name, bar.sessions));
                }
            } else {
                return bad("not-started", format!("a server of session {} is neither ready nor has it ended", name));
            }
        }
        for n in &bar.sessions {
            if !live.contains(n) && !stray.contains(n) && !doubtful.contains(n) {
                return bad("left-behind", format!("session {} has ended and is still in the session directory", n));
            }
        }
        for n in &stray {
            if !bar.sessions.contains(n) {
                return bad("removed-other", format!("{} does not belong to a session that ended and was removed", n));
            }
        }
        if bar.dir && bar.sessions.is_empty() && over && !tried && doubtful.is_empty() {
            return bad("directory-left", "the last session has ended and the empty session directory is still there");
        }
        if w.plan.phases[i].name == "list" {
            if let Some(p) = w.proc_of(60) {
                let out = String::from_utf8_lossy(&p.stdout).to_string();
                let mut l: Vec<&str> = out.lines().collect();
                l.sort();
                let want: Vec<&str> = bar.sessions.iter().map(|s| s.as_str()).collect();
                if p.state != PState::Exited(0) || l != want {
                    return bad("list", format!("ced --list printed {:?} ({:?}), the sessions are {:?}", l, p.state, want));
                }
            }
        }
    }
    for (k, c) in &w.clients {
        if ident(c, u64::MAX) {
            only_messages(*k, &received(c))?;
            responses(*k, c)?;
        }
    }
    Ok(partly && over)
}

/// A request to quit was answered with success by then.
fn quit_by(c: &Client, at: u64) -> bool {
    let resp: Vec<bool> = received(c)
        .iter()
        .filter(|m| m.at <= at)
        .filter_map(|m| if let Msg::Resp { error, .. } = &m.msg { Some(error.is_none()) } else { None })
        .collect();
    c.sent.iter().zip(resp).any(|(l, ok)| ok && c01::quits(&l.bytes))
}

// ------------------------------------------------------------------- C10

const TCP: &str = "@127.0.0.1:7001";

fn server_args(s: &str) -> Vec<String> {
    vec!["--mode=server".into(), format!("--session={}", s)]
}
fn one_fault(r: &mut Rng, s: &str) -> Op {
    let f = |call: &str, path: &str, errno: i32, times: u32, skip: u32| Op::Fault {
        call: call.into(),
        path: path.into(),
        skip,
        times,
        errno,
        short: 0,
    };
    let times = *r.pick(&[1, 1, 2, 50]);
    let skip = *r.pick(&[0, 0, 1, 2]);
    match r.below(9) {
        0 | 1 => f("spawn", "", *r.pick(&[libc::EAGAIN, libc::ENOMEM, libc::ENOENT, libc::EMFILE]), times, skip),
        2 | 3 => Op::BindErr { errno: *r.pick(&[libc::EACCES, libc::ENOSPC, libc::EADDRINUSE, libc::EMFILE, libc::EROFS]) },
        4 => f("mkdir", "ced-sim", *r.pick(&[libc::EACCES, libc::ENOSPC, libc::EROFS]), times, skip),
        5 => f("open", "ced-sim", *r.pick(&[libc::EACCES, libc::EMFILE, libc::ENFILE]), times, skip),
        6 => f("unlink", &format!("ced-sim/{}", s), *r.pick(&[libc::EACCES, libc::EIO]), times, skip),
        7 => f("stat", "ced-sim", *r.pick(&[libc::EACCES, libc::EIO]), times, skip),
        _ => f("flock", "ced-sim", *r.pick(&[libc::EINTR, libc::ENOLCK]), times, skip),
    }
}

pub fn gen10(r: &mut Rng, b: &mut PB, thorough: bool) {
    b.plan.cfg.preempt = 0;
    let tcp = r.chance(8);
    let ses = if tcp { TCP } else { *r.pick(&["s", "s", "u é"]) };
    let mut slot = 0;
    let mut lib = 10;
    let rounds = r.range(1, if thorough { 4 } else { 2 });
    let mut clients = 0usize;
    for round in 0..rounds {
        b.phase("before");
        let mut ending: Option<usize> = None;
        let mut blocked: Vec<String> = Vec::new();
        if round == 0 && !tcp && r.chance(12) {
            // no directory, or no socket can be there
            let at = format!("{}/{}", SDIR, ses);
            b.phase("unusable");
            match r.below(6) {
                0 => {
                    b.op(900, Op::WriteFile { path: SDIR.into(), data: "x".into(), age_ms: 0 });
                    blocked.push(SDIR.into());
                }
                1 => {
                    b.op(900, Op::Symlink { path: SDIR.into(), target: "/sim/tmp/nowhere".into() });
                    blocked.push(SDIR.into());
                }
                2 => {
                    b.op(900, Op::WriteFile { path: at.clone(), data: "x".into(), age_ms: 0 });
                    blocked.push(at);
                }
                3 => {
                    b.op(900, Op::Mkdir { path: at.clone() });
                    blocked.push(at);
                }
                4 => {
                    b.op(900, Op::Mkdir { path: SDIR.into() });
                    b.op(900, Op::Symlink { path: at.clone(), target: "/sim/tmp/nowhere".into() });
                    blocked.push(at);
                }
                _ => {
                    // somewhere else, which does no harm
                    b.plan.phases.last_mut().unwrap().name = "elsewhere".into();
                    b.op(900, Op::Mkdir { path: "/sim/tmp/real".into() });
                    b.op(900, Op::Symlink { path: SDIR.into(), target: "/sim/tmp/real".into() });
                }
            }
            b.phase("before2");
        }
        match if blocked.is_empty() { r.below(10) } else { 0 } {
            0 => {}
            8 | 9 => {
                // a server that ends meanwhile, of this session or another
                let n = if r.chance(60) { "other" } else { ses };
                b.op(900, Op::Start { slot, args: server_args(n) });
                b.op(900, Op::WaitUp { session: n.into() });
                b.op(900, Op::Connect { c: 500 + slot, session: n.into() });
                b.op(900, Op::Sync { c: 500 + slot });
                ending = Some(500 + slot);
                slot += 1;
            }
            1 => {
                b.op(900, Op::Mkdir { path: SDIR.into() });
            }
            2 | 3 => {
                // a crashed server
                b.op(900, Op::Start { slot, args: server_args(ses) });
                b.op(900, Op::WaitUp { session: ses.into() });
                if r.chance(50) {
                    b.op(900, Op::Connect { c: 500 + slot, session: ses.into() });
                }
                b.op(900, Op::KillServer { session: ses.into() });
                slot += 1;
            }
            4 => {
                // killed while it starts
                b.op(900, Op::Start { slot, args: server_args(ses) });
                for _ in 0..r.below(6) {
                    b.op(900, Op::Nop);
                }
                b.op(900, Op::Kill { slot });
                slot += 1;
            }
            5 => {
                // killed while it ends
                b.op(900, Op::Start { slot, args: server_args(ses) });
                b.op(900, Op::WaitUp { session: ses.into() });
                b.phase("ending");
                b.op(900, Op::Connect { c: 500 + slot, session: ses.into() });
                b.op(900, Op::Sync { c: 500 + slot });
                b.op(900, Op::Close { c: 500 + slot });
                for _ in 0..r.below(6) {
                    b.op(900, Op::Nop);
                }
                b.op(900, Op::KillServer { session: ses.into() });
                slot += 1;
            }
            6 => {
                // one that is used
                b.op(900, Op::Start { slot, args: server_args(ses) });
                b.op(900, Op::WaitUp { session: ses.into() });
                b.op(900, Op::Connect { c: clients, session: ses.into() });
                clients += 1;
                slot += 1;
            }
            _ => {
                // another session
                b.op(900, Op::Start { slot, args: server_args("other") });
                b.op(900, Op::WaitUp { session: "other".into() });
                b.op(900, Op::Connect { c: clients, session: "other".into() });
                clients += 1;
                slot += 1;
            }
        }
        let faulty = r.chance(35);
        if faulty {
            b.phase("faults");
            for _ in 0..r.range(1, 3) {
                let f = one_fault(r, ses);
                b.op(900, f);
            }
        }
        b.phase("start");
        if let Some(c) = ending {
            for _ in 0..r.below(4) {
                b.op(401, Op::Nop);
            }
            b.op(401, Op::Close { c });
        }
        let n = r.range(1, if thorough { 5 } else { 4 });
        let mut kill: Vec<usize> = Vec::new();
        for k in 0..n {
            let a = 300 + k;
            if r.chance(20) {
                b.op(a, Op::Nop);
            }
            match r.below(if tcp { 2 } else { 8 }) {
                0 => {
                    b.op(a, Op::Start { slot, args: server_args(ses) });
                    kill.push(slot);
                    slot += 1;
                }
                1 => {
                    let calls = vec![LibCall::StartDaemon, LibCall::Connect];
                    b.op(a, Op::Lib { slot: lib, session: ses.into(), calls });
                    kill.push(lib);
                    lib += 1;
                }
                2 => {
                    b.op(a, Op::Start { slot: lib, args: vec!["--mode=daemon".into(), format!("--session={}", ses)] });
                    kill.push(lib);
                    lib += 1;
                }
                _ => {
                    let calls = vec![LibCall::EnsureSession, LibCall::Connect];
                    b.op(a, Op::Lib { slot: lib, session: ses.into(), calls });
                    kill.push(lib);
                    lib += 1;
                }
            }
        }
        if r.chance(25) {
            for _ in 0..r.below(8) {
                b.op(400, Op::Nop);
            }
            match r.below(3) {
                0 => b.op(400, Op::KillServer { session: ses.into() }),
                1 => b.op(400, Op::KillNew),
                _ => b.op(400, Op::Kill { slot: *r.pick(&kill) }),
            };
        }
        if faulty || !blocked.is_empty() {
            b.phase("clear");
            b.op(900, Op::ClearFaults);
            for path in blocked {
                b.op(900, Op::Remove { path });
            }
        }
        b.phase("again");
        if !tcp {
            let calls = vec![LibCall::EnsureSession, LibCall::Connect];
            b.op(900, Op::Lib { slot: lib, session: ses.into(), calls });
            lib += 1;
            b.phase("join");
        }
        b.op(900, Op::Connect { c: 100 + round, session: ses.into() });
        b.op(900, Op::Send { c: 100 + round, data: (req(&json!(1), "view", Some(json!("*scratch*"))) + "\n").into() });
        if round + 1 < rounds && r.chance(50) {
            b.phase("gone");
            b.op(900, Op::KillServer { session: ses.into() });
        }
    }
}

pub fn judge10(w: &mut World) -> Judge {
    no_server_failure(w)?;
    let servers = server_procs();
    let (mut many, mut hard) = (false, false);
    let mut faulty = false;
    let mut up: BTreeSet<String> = BTreeSet::new();
    let mut promised: BTreeSet<usize> = BTreeSet::new();
    for (i, bar) in w.barriers.iter().enumerate() {
        let at = bar.step;
        let start = if i > 0 { w.barriers[i - 1].step } else { 0 };
        let ph = &w.plan.phases[i];
        let mut kill = false;
        let mut started: Vec<(usize, String, Vec<LibCall>)> = Vec::new();
        // sessions whose last client leaves
        let mut leaving: BTreeSet<String> = BTreeSet::new();
        for s in &ph.steps {
            match &s.op {
                Op::Fault { .. } | Op::BindErr { .. } => faulty = true,
                Op::WriteFile { .. } | Op::Mkdir { .. } | Op::Symlink { .. } if ph.name == "unusable" => faulty = true,
                Op::ClearFaults => faulty = false,
                Op::Kill { .. } | Op::KillServer { .. } | Op::KillNew => kill = true,
                Op::Lib { slot, session, calls } => started.push((*slot, session.clone(), calls.clone())),
                Op::Close { c } => leaving.extend(w.clients.get(c).map(|c| c.session.clone())),
                _ => {}
            }
        }
        up.retain(|s| !leaving.contains(s));
        hard |= kill || faulty;
        many |= ph.name == "start" && ph.steps.iter().filter(|s| matches!(s.op, Op::Lib { .. } | Op::Start { .. })).count() > 1;
        // one server for a session
        let mut live: BTreeMap<String, usize> = BTreeMap::new();
        for (p, name) in &servers {
            let proc = &simrt::sim().procs[*p];
            if proc.started_step > at || ended(*p, at) {
                continue;
            }
            if let Some(o) = live.insert(name.clone(), *p) {
                return bad("two-servers", format!("the processes {} and {} both are servers of session {}", o, p, name));
            }
            let reachable = match w_server_at(name, *p) {
                true => true,
                false => bar.up.contains(name),
            };
            if !reachable && i + 1 == w.barriers.len() {
                return bad("unreachable", format!("the server of session {} runs and cannot be reached (directory: {:?})", name, bar.sessions));
            }
        }
        if kill {
            up.clear();
        }
        for s in &ph.steps {
            if let Op::Connect { c, session } = &s.op {
                if up.contains(session) {
                    promised.insert(*c);
                }
            }
        }
        // nobody is disturbed
        for (k, c) in &w.clients {
            let (conn, p) = match (c.conn, server_of(c)) {
                (Some(x), Some(p)) => (x, p),
                _ => continue,
            };
            let x = &simrt::sim().net.conns[conn];
            if x.created > at || matches!(c.closed, Some((_, t)) if t <= at) {
                continue;
            }
            let eof = x.dirs[S2C].eof_seen.map_or(false, |e| e <= at) || x.closed_step[1].map_or(false, |e| e <= at);
            if eof && simrt::sim().procs[p].state != PState::Killed {
                return bad("disturbed", format!("client {} of session {} was disconnected", k, c.session));
            }
            if !eof && !ident(c, at) {
                return bad("not-served", format!("client {} is connected to session {} and was told nothing", k, c.session));
            }
        }
        for (slot, session, calls) in started {
            let recs = w.lib.get(&slot).cloned().unwrap_or_default();
            let recs: Vec<&LibRec> = recs.iter().filter(|x| x.step <= at).collect();
            let proc = match w.proc_of(slot) {
                Some(p) => p,
                None => continue,
            };
            if proc.state == PState::Killed {
                continue;
            }
            let first = match recs.first() {
                Some(f) => f,
                None => return bad("blocked", format!("starter {} of session {} never got control back from {:?}", slot, session, calls[0])),
            };
            let ok = first.val.get("Err").is_none();
            if ok && !kill && !leaving.contains(&session) {
                up.insert(session.clone());
                let con = recs.iter().any(|x| x.what == "connected");
                if !con {
                    return bad("not-connected", format!("{:?} of session {} reported success to {}, then {:?}", calls[0], session, slot, recs.iter().map(|x| format!("{} {}", x.what, vstr(&x.val))).collect::<Vec<_>>()));
                }
                if !recs.iter().any(|x| x.what == "event" && x.val[0] == "info") {
                    return bad("not-served", format!("{} was told that session {} is there, is connected and was not served", slot, session));
                }
            }
            if !ok && !kill && !faulty && !leaving.contains(&session) && matches!(calls[0], LibCall::EnsureSession) {
                return bad("ensure-failed", format!("{} could not start session {}: {}", slot, session, vstr(&first.val)));
            }
        }
        // daemons started on the command line end with a result
        for s in &ph.steps {
            if let Op::Start { slot, args } = &s.op {
                let p = match w.proc_of(*slot) {
                    Some(p) => p,
                    None => continue,
                };
                if args.iter().any(|a| a == "--mode=daemon") && p.state == PState::Running {
                    return bad("blocked", format!("{} never ended", p.name));
                }
            }
        }
        if ph.name == "start" && !kill && !faulty {
            // somebody was successful
            for s in &ph.steps {
                let name = match &s.op {
                    Op::Lib { session, .. } => session.clone(),
                    Op::Start { args, .. } => match args.iter().find_map(|a| a.strip_prefix("--session=")) {
                        Some(n) => n.to_string(),
                        None => continue,
                    },
                    _ => continue,
                };
                if !live.contains_key(&name) && !leaving.contains(&name) {
                    return bad("none", format!("session {} was started and nothing hindered it, it has no server", name));
                }
            }
        }
        let _ = start;
    }
    for (k, c) in &w.clients {
        let alive = server_of(c).map_or(false, |p| simrt::sim().procs[p].state == PState::Running);
        if *k >= 100 && *k < 500 && c.conn.is_none() && promised.contains(k) {
            return bad("unreachable", format!("client {} could not connect to session {}: errno {}", k, c.session, c.connect_errno));
        }
        if alive {
            responses(*k, c)?;
        }
    }
    Ok(many || hard)
}
/// The process listens at the address of the session.
fn w_server_at(name: &str, p: usize) -> bool {
    simrt::sim().net.listeners.iter().any(|l| l.proc == p && l.open && l.key == skey(name)) && spath(name).is_none()
}
