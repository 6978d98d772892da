//! What a server holds depends on who is connected now.
use super::c01::{good_request, keys_json, quits};
use super::c02::nasty;
use super::*;
use crate::plan::{LibCall, Op};
use serde_json::json;

pub const RULE: &str = "one client that stays and 6 to 60 that come in waves and leave by quit, menu, close, half-close or reset at any byte, idle, working, not reading or in the middle of a line, with failing accepts and failing or unreadable files; at the end of every wave and at the end of the run the open connections, descriptors, tasks and threads of the server are counted; non-trivial: at least five clients had left";

const FILES: [&str; 4] = ["f1", "f2", "sub/f3", "bad"];

fn some_line(r: &mut Rng, id: &Value, c: usize) -> Vec<u8> {
    loop {
        let l = match r.below(10) {
            0..=2 => req(id, "edit", Some(json!({"name": *r.pick(&["f1", "f2", "sub/f3", "bad", "nope", "sub"]), "scratch": false}))).into_bytes(),
            3 => req(id, "keys", Some(keys_json(&["j", "l", "d"]))).into_bytes(),
            4 => req(id, "menu", Some(json!({"command": "open", "search": ""}))).into_bytes(),
            5 => req(id, "menu-select", Some(json!({"command": "open", "choice": *r.pick(&["f1", "f2", "bad", "gone"])}))).into_bytes(),
            6 | 7 => good_request(r, id, c).into_bytes(),
            _ => nasty(r, id, c),
        };
        if l.len() < 4000 && !quits(&l) {
            return l;
        }
    }
}

fn leave(r: &mut Rng, b: &mut PB, c: usize, how: usize) {
    if how <= 1 {
        let l = if how == 0 { req(&json!(7), "quit", None) } else { req(&json!(7), "menu-select", Some(json!({"command": "", "choice": "quit"}))) };
        send_cut(r, b, c, c, (l + "\n").as_bytes());
        if r.chance(30) {
            // it goes on as if nothing was
            let mut l = some_line(r, &json!(8), c);
            l.push(b'\n');
            send_cut(r, b, c, c, &l);
        }
        if r.chance(20) {
            b.op(c, Op::Close { c });
        }
        return;
    }
    if r.chance(25) {
        send_cut(r, b, c, c, b"{\"jsonrpc\":\"2.0\",\"id\":9");
    }
    b.op(
        c,
        match how {
            2 => Op::Close { c },
            3 => Op::HalfClose { c },
            _ => Op::Reset { c },
        },
    );
}

pub fn gen(r: &mut Rng, b: &mut PB, thorough: bool) {
    if r.chance(30) {
        b.plan.cfg.sock_cap = *r.pick(&[300, 700, 4096]);
    }
    b.phase("files");
    b.op(900, Op::WriteFile { path: "/sim/work/f1".into(), data: "one\ntwo\n".into(), age_ms: 5000 });
    b.op(900, Op::WriteFile { path: "/sim/work/f2".into(), data: "x".repeat(r.below(20_000)).as_str().into(), age_ms: 5000 });
    b.op(900, Op::WriteFile { path: "/sim/work/sub/f3".into(), data: "three".into(), age_ms: 5000 });
    b.op(900, Op::WriteFile { path: "/sim/work/bad".into(), data: crate::plan::Data(vec![b'a', 0xff, b'\n']), age_ms: 5000 });
    start_server(b);
    b.phase("base");
    b.op(0, Op::Connect { c: 0, session: S.into() });
    b.op(0, Op::Send { c: 0, data: (req(&json!(1), "edit", Some(json!({"name": "f1", "scratch": false}))) + "\n").into() });
    b.op(0, Op::Sync { c: 0 });
    let usual = if r.chance(60) { Some(r.below(5)) } else { None };
    let usual_idle = r.chance(30);
    let waves = if thorough { r.range(3, 14) } else { r.range(3, 7) };
    let mut next = 1;
    let mut stay: Vec<usize> = Vec::new();
    let mut libs = 500;
    for _ in 0..waves {
        b.phase("wave");
        if r.chance(25) {
            let errno = *r.pick(&[libc::EACCES, libc::EIO, libc::EMFILE, libc::ENOMEM]);
            let f = *r.pick(&FILES);
            b.op(
                901,
                Op::Fault {
                    call: r.pick(&["open", "read", "stat"]).to_string(),
                    path: f.into(),
                    skip: r.below(3) as u32,
                    times: r.range(1, 4) as u32,
                    errno,
                    short: 0,
                },
            );
        }
        if r.chance(20) {
            for _ in 0..r.range(1, 3) {
                b.op(901, Op::AcceptErr { session: S.into(), errno: *r.pick(&[libc::EMFILE, libc::ECONNABORTED, libc::EINTR, libc::ENFILE]) });
            }
        }
        for c in std::mem::take(&mut stay) {
            if r.chance(60) {
                let how = usual.unwrap_or(r.below(5));
                leave(r, b, c, how);
            } else {
                stay.push(c);
            }
        }
        let come = r.range(1, if thorough { 8 } else { 5 });
        for _ in 0..come {
            let c = next;
            next += 1;
            if r.chance(5) {
                let mut calls = vec![LibCall::Connect];
                if r.chance(50) {
                    calls.push(LibCall::Edit { name: "f2".into(), scratch: false });
                }
                calls.push(LibCall::Quit);
                b.op(c, Op::Lib { slot: libs, session: S.into(), calls });
                libs += 1;
                continue;
            }
            b.op(c, Op::Connect { c, session: S.into() });
            if r.chance(15) {
                b.op(c, Op::Stall { c });
            }
            let mut buf = Vec::new();
            let much = r.chance(6);
            if !usual_idle || r.chance(20) {
                for i in 0..r.below(5) {
                    buf.extend(some_line(r, &json!(10 + i), c));
                    buf.push(b'\n');
                }
            }
            if much {
                let n = r.range(20, 150);
                buf.extend(req(&json!(99), "exec", Some(json!(format!("for i = 1, {} do editor:message(tonumber(env.client), 'much ' .. i) end", n)))).into_bytes());
                buf.push(b'\n');
            }
            send_cut(r, b, c, c, &buf);
            if r.chance(25) {
                stay.push(c);
                continue;
            }
            if r.chance(40) {
                // not stalled, or all is small
                b.op(c, Op::Unstall { c });
                b.op(c, Op::Sync { c });
            }
            let how = match usual {
                Some(u) if r.chance(80) => u,
                _ => r.below(5),
            };
            leave(r, b, c, how);
        }
        if r.chance(40) {
            let mut l = some_line(r, &json!(2), 0);
            l.push(b'\n');
            send_cut(r, b, 0, 0, &l);
        }
    }
    b.phase("last");
    b.op(901, Op::ClearFaults);
    for c in stay {
        let how = usual.unwrap_or(r.below(5));
        leave(r, b, c, how);
    }
    b.phase("all");
    for c in 1..next {
        b.op(c, Op::Close { c });
    }
    b.phase("end");
    b.op(0, Op::Send { c: 0, data: (req(&json!("fin"), "edit", Some(json!({"name": "f1", "scratch": false}))) + "\n").into() });
    b.op(0, Op::Sync { c: 0 });
}

pub fn judge(w: &mut World) -> Judge {
    no_server_failure(w)?;
    expect_running(w, 0)?;
    let base = match w.plan.phases.iter().position(|p| p.name == "base") {
        Some(i) if i < w.barriers.len() => i,
        _ => return unclear("no beginning"),
    };
    let srv = match w.slots.get(&0) {
        Some(p) => *p,
        None => return unclear("no server"),
    };
    match w.clients.get(&0) {
        Some(c) if c.conn.is_some() && c.closed.is_none() && !has_quit(c) => {}
        _ => return unclear("nobody stayed"),
    }
    let b0 = match w.barriers[base].held.get(&srv) {
        Some(h) => h.clone(),
        None => return unclear("no server"),
    };
    let net = &simrt::sim().net;
    let name = |x: usize| match w.clients.iter().find(|(_, c)| c.conn == Some(x)) {
        Some((k, _)) => format!("client {}", k),
        None => format!("connection {}", x),
    };
    for (i, b) in w.barriers.iter().enumerate().skip(base + 1) {
        let h = match b.held.get(&srv) {
            Some(h) => h,
            None => continue,
        };
        let ph = &w.plan.phases[i].name;
        if let Some(x) = h.dead.first() {
            return bad("connection-kept", format!("phase {} ({}): the server keeps the connection of {}, which has left", i, ph, name(*x)));
        }
        for f in &h.files {
            let n = |v: &[String]| v.iter().filter(|x| *x == f).count();
            if n(&h.files) > n(&b0.files).max(1) {
                return bad("descriptor-kept", format!("phase {} ({}): the server has {} descriptors of {} open, nothing is being done", i, ph, n(&h.files), f));
            }
        }
    }
    let left = w.clients.iter().filter(|(k, c)| **k != 0 && c.conn.map_or(false, |x| net.conns[x].accepted.is_some() && net.conns[x].closed[0])).count();
    let complete = w.barriers.len() == w.plan.phases.len();
    if let (true, Some(h)) = (complete, w.barriers.last().and_then(|b| b.held.get(&srv))) {
        if h.conns.len() > b0.conns.len() {
            return unclear("not everybody left");
        }
        if h.tasks > b0.tasks + 2 {
            return bad("tasks-kept", format!("with one client connected the server had {} tasks at the beginning and has {} after {} others came and left", b0.tasks, h.tasks, left));
        }
        if h.threads > b0.threads + 1 {
            return bad("threads-kept", format!("with one client connected the server had {} threads at the beginning and has {} after {} others came and left", b0.threads, h.threads, left));
        }
    }
    Ok(left >= 5)
}
