//! Sessions and their names.
use super::*;
use crate::plan::Op;
use simrt::net::S2C;
use std::collections::{BTreeMap, BTreeSet};

pub const RULE: &str = "1-4 sessions at once under different plain names (also ones that look like options, addresses, other names, or differ only in case, blanks or composition) and TCP addresses in several spellings, each started as server, daemon, by the library or by ced --mode=json, several at once; 1-3 further clients of all kinds per session, under any of its spellings; starts under names that can be no session or without a name; servers that are killed and started again; ced --list; non-trivial: two sessions with clients, or a client under another spelling";

const PLAIN: [&str; 40] = [
    "s", "S", "s ", " s", "ss", "a b", "é", "e\u{301}", "日本", "\u{1f680}", "a.sock", ".hidden", "-x", "--list", "--mode=server", "=", "=s", "s=1", "@", "@bar", "@:", "@:x", "@bar:", "@ :80", "x@127.0.0.1:7001",
    "@127.0.0.1", "127.0.0.1:7001", ":7001", "@:7001x", "@:70 ", "v1.2", "a:1", "*", "\\", "'", "\"", "$HOME", "~", "0", "1234567",
];
/// Spellings of the same address.
const TCP: [&[&str]; 6] = [
    &["@127.0.0.1:7001", "@:7001", "@localhost:7001"],
    &["@:70", "@127.0.0.1:70"],
    &["@:8888", "@localhost:8888"],
    &["@10.20.30.40:7002"],
    &["@192.168.1.17:65535"],
    &["@127.0.0.1:7002", "@:7002"],
];
const LONG: &str = "a name that is too long for the address of a socket: a name that is too long for the address of a socket";
const ODD: [&str; 8] = ["", ".", "..", "a/b", "s/", "../x", "x/../s", LONG];

fn word(r: &mut Rng) -> String {
    let n = r.range(1, 6);
    (0..n).map(|_| *r.pick(&["a", "B", "0", "7", "-", "_", ".", ":", "@", " ", "é", "日", "%", "+", ",", "#", "|", "{", "S"])).collect()
}
/// A way to say on the command line under which name to run.
fn args(r: &mut Rng, mode: &str, name: &str) -> Vec<String> {
    let mut v = if r.chance(80) { vec![format!("--mode={}", mode)] } else { vec!["-m".into(), mode.into()] };
    match r.below(6) {
        0 if !name.starts_with('-') && !name.is_empty() => v.extend(["--session".to_string(), name.into()]),
        1 if !name.starts_with('-') && !name.is_empty() => v.extend(["-s".to_string(), name.into()]),
        // the program drops these when they follow its own
        _ if name.starts_with('=') => v.extend(["-s".to_string(), name.into()]),
        2 if !name.is_empty() => v.push(format!("-s{}", name)),
        _ => v.push(format!("--session={}", name)),
    }
    if r.chance(30) {
        let n = if v[0].starts_with("--") { 1 } else { 2 };
        v.rotate_left(n);
    }
    v
}
/// The name used by a program started with such arguments.
pub fn name_in(args: &[String]) -> Option<String> {
    let mut it = args.iter();
    while let Some(a) = it.next() {
        if a == "-m" || a == "--mode" {
            it.next();
        } else if a == "-s" || a == "--session" {
            return it.next().cloned();
        } else if let Some(n) = a.strip_prefix("--session=") {
            return Some(n.into());
        } else if let Some(n) = a.strip_prefix("-s") {
            return Some(n.into());
        }
    }
    None
}
fn mode_in(args: &[String], m: &str) -> bool {
    args.iter().any(|a| a == m || *a == format!("--mode={}", m))
}
fn odd(name: &str) -> bool {
    name.is_empty() || name == "." || name == ".." || name.contains('/') || name == LONG
}

pub fn gen(r: &mut Rng, b: &mut PB, thorough: bool) {
    b.plan.cfg.preempt = 0;
    let mut ses: Vec<Vec<String>> = Vec::new();
    let mut keys: BTreeSet<String> = BTreeSet::new();
    for _ in 0..r.range(1, 4) {
        let s: Vec<String> = match r.below(10) {
            0..=2 => r.pick(&TCP).iter().map(|s| s.to_string()).collect(),
            3 => vec![word(r)],
            _ => vec![r.pick(&PLAIN).to_string()],
        };
        // at most one of the same key
        if odd(&s[0]) || !keys.insert(skey(&s[0])) {
            continue;
        }
        if spath(&s[0]).is_none() && !s[0].starts_with("@:") && !TCP.iter().any(|t| t[0] == s[0]) {
            // no address we know
            continue;
        }
        ses.push(s);
    }
    if ses.is_empty() {
        ses.push(vec!["s".into()]);
    }
    let (mut slot, mut lib, mut cl) = (0, 400, 0);
    let rounds = r.range(1, if thorough { 4 } else { 2 });
    for round in 0..rounds {
        b.phase("start");
        for (i, s) in ses.iter().enumerate() {
            let a = 300 + i;
            if r.chance(30) {
                b.phase("start");
            }
            let n = r.pick(s).clone();
            let tcp = spath(&n).is_none();
            match r.below(if tcp { 3 } else { 6 }) {
                0 => {
                    b.op(a, Op::Start { slot, args: args(r, "server", &n) });
                    slot += 1;
                }
                1 => {
                    b.op(a, Op::Start { slot, args: args(r, "daemon", &n) });
                    slot += 1;
                }
                2 => {
                    b.op(a, Op::Lib { slot: lib, session: n, calls: vec![LibCall::StartDaemon, LibCall::Connect] });
                    lib += 1;
                }
                3 => {
                    b.op(a, Op::Start { slot, args: args(r, "json", &n) });
                    slot += 1;
                }
                _ => {
                    b.op(a, Op::Lib { slot: lib, session: n, calls: vec![LibCall::EnsureSession, LibCall::Connect] });
                    lib += 1;
                }
            }
        }
        if r.chance(25) {
            b.phase("odd");
            let n = r.pick(&ODD).to_string();
            if r.chance(50) {
                b.op(320, Op::Lib { slot: lib, session: n, calls: vec![LibCall::EnsureSession, LibCall::Connect] });
                lib += 1;
            } else {
                let m = *r.pick(&["server", "daemon"]);
                b.op(320, Op::Start { slot, args: args(r, m, &n) });
                slot += 1;
            }
        }
        if r.chance(25) {
            b.phase("own");
            for i in 0..r.range(1, 3) {
                let m = match r.below(3) {
                    0 => "json",
                    1 => "server",
                    _ => "daemon",
                };
                b.op(340 + i, Op::Start { slot, args: vec![format!("--mode={}", m)] });
                slot += 1;
            }
        }
        b.phase("join");
        for s in ses.iter() {
            for _ in 0..r.range(1, 3) {
                let n = r.pick(s).clone();
                match r.below(5) {
                    0 => {
                        b.op(330 + cl, Op::Lib { slot: lib, session: n, calls: vec![LibCall::EnsureSession, LibCall::Connect] });
                        lib += 1;
                    }
                    1 => {
                        b.op(330 + cl, Op::Lib { slot: lib, session: n, calls: vec![LibCall::Connect] });
                        lib += 1;
                    }
                    2 => {
                        b.op(330 + cl, Op::Start { slot, args: args(r, "json", &n) });
                        slot += 1;
                    }
                    _ => {
                        b.op(cl, Op::Connect { c: cl + 200, session: n });
                    }
                }
                cl += 1;
            }
        }
        b.phase("list");
        b.op(900, Op::Start { slot: 600 + round, args: vec![(*r.pick(&["--list", "-l"])).into()] });
        if round + 1 < rounds {
            b.phase("gone");
            for s in &ses {
                b.op(900, Op::KillServer { session: s[0].clone() });
            }
        }
    }
}

fn shown(name: &str) -> String {
    match spath(name) {
        Some(_) => name.into(),
        None => format!("@{}", skey(name).trim_start_matches("tcp ")),
    }
}

pub fn judge(w: &mut World) -> Judge {
    no_server_failure(w)?;
    let s = simrt::sim();
    let conn_of = |p: usize| s.net.conns.iter().position(|c| c.procs[0] == p);
    let mut other_spelling = false;
    let mut met: BTreeMap<String, usize> = BTreeMap::new();
    let mut killed = 0u64;
    for (i, bar) in w.barriers.iter().enumerate() {
        let at = bar.step;
        let ph = &w.plan.phases[i];
        if ph.name == "gone" {
            killed = at;
            continue;
        }
        let start = if i > 0 { w.barriers[i - 1].step } else { 0 };
        // the server every name leads to
        let server = |key: &str| -> Vec<usize> {
            s.net.listeners.iter().filter(|l| l.key == key && l.created <= at && (l.open || s.procs[l.proc].ended_step > at)).map(|l| l.proc).filter(|p| s.procs[*p].state == PState::Running || s.procs[*p].ended_step > at).collect()
        };
        let check = |who: String, name: &str, conn: usize, told: Vec<String>| -> Result<(), Fail> {
            let l = &s.net.listeners[s.net.conns[conn].listener];
            let want = server(&skey(name));
            if want.len() != 1 || want[0] != l.proc {
                return bad("elsewhere", format!("{} of session {:?} is connected to {} (process {}); at that name there are {:?}", who, name, l.key, l.proc, want));
            }
            if told.is_empty() {
                return bad("not-served", format!("{} of session {:?} was told nothing", who, name));
            }
            if told[0] != shown(name) {
                return bad("wrong-name", format!("{} of session {:?} was told that its session is {:?} instead of {:?}", who, name, told[0], shown(name)));
            }
            Ok(())
        };
        let mut hinder = false;
        if ph.name == "own" {
            // each is a session of its own
            let new: Vec<&simrt::net::Listener> =
                s.net.listeners.iter().filter(|l| l.created > start && l.created <= at && l.key.starts_with(SDIR) && (s.procs[l.proc].state == PState::Running || s.procs[l.proc].ended_step > at)).collect();
            if new.len() != ph.steps.len() {
                return bad("not-own", format!("{} programs were started without a session, {} new sessions are there", ph.steps.len(), new.len()));
            }
            for st in &ph.steps {
                if let Op::Start { slot, args } = &st.op {
                    let (pid, p) = (w.slots[slot], &s.procs[w.slots[slot]]);
                    let gone = p.state != PState::Running && p.ended_step <= at;
                    let fine = if mode_in(args, "server") {
                        !gone && new.iter().any(|l| l.proc == pid)
                    } else if mode_in(args, "daemon") {
                        gone && p.state == PState::Exited(0)
                    } else {
                        let told = w.clients.get(slot).map(infos).unwrap_or_default();
                        let l = conn_of(pid).map(|x| &s.net.listeners[s.net.conns[x].listener]);
                        !gone && l.map_or(false, |l| new.iter().any(|n| n.key == l.key) && told.first().map(|t| spath(t)) == Some(Some(l.key.clone())))
                    };
                    if !fine {
                        return bad("not-own", format!("{:?} ({:?}) is not at a session of its own", args, p.state));
                    }
                }
            }
            simrt::probe("without-session");
            continue;
        }
        for st in &ph.steps {
            match &st.op {
                Op::Connect { c, session } => {
                    let cl = &w.clients[c];
                    let told = infos(cl);
                    match cl.conn {
                        Some(x) => check(format!("client {}", c), session, x, told)?,
                        None => return bad("unreachable", format!("client {} could not connect to session {:?}: errno {}", c, session, cl.connect_errno)),
                    }
                    *met.entry(skey(session)).or_default() += 1;
                }
                Op::Lib { slot, session, calls } => {
                    let recs: Vec<LibRec> = w.lib.get(slot).cloned().unwrap_or_default().into_iter().filter(|x| x.step <= at).collect();
                    let ensured = recs.iter().find(|x| x.what == "ensure" || x.what == "start");
                    let ok = ensured.map_or(true, |x| x.val.get("Err").is_none());
                    if ensured.is_none() && calls.len() > 1 {
                        return bad("blocked", format!("the starter of session {:?} never got control back", session));
                    }
                    if odd(session) {
                        hinder |= ok;
                        if ok && !recs.iter().any(|x| x.what == "connected") {
                            return bad("unreachable", format!("{:?} of session {:?} reported success and connecting to it failed", calls[0], session));
                        }
                        continue;
                    }
                    if !ok {
                        return bad("not-started", format!("{:?} of session {:?} failed: {}", calls[0], session, vstr(&ensured.unwrap().val)));
                    }
                    let pid = w.slots[slot];
                    let told: Vec<String> = recs.iter().filter(|x| x.what == "event" && x.val[0] == "info").map(|x| x.val[2].as_str().unwrap_or("").to_string()).collect();
                    match conn_of(pid) {
                        Some(x) => check(format!("library user {}", slot), session, x, told)?,
                        None => return bad("unreachable", format!("library user {} could not connect to session {:?}", slot, session)),
                    }
                    *met.entry(skey(session)).or_default() += 1;
                    other_spelling |= shown(session) != *session;
                }
                Op::Start { slot, args } => {
                    let p = &s.procs[w.slots[slot]];
                    if ph.name == "list" {
                        let out = String::from_utf8_lossy(&p.stdout).to_string();
                        let mut l: Vec<&str> = out.lines().collect();
                        l.sort();
                        let mut want: Vec<String> = s
                            .net
                            .listeners
                            .iter()
                            .filter(|l| s.procs[l.proc].state == PState::Running || s.procs[l.proc].ended_step > at)
                            .filter(|l| l.created <= at)
                            .filter_map(|l| l.key.strip_prefix(&format!("{}/", SDIR)).map(|s| s.to_string()))
                            .filter(|n| !odd(n))
                            .collect();
                        want.sort();
                        let extra: Vec<&str> = l.iter().copied().filter(|n| !want.iter().any(|w| w == n)).collect();
                        let odd_ran = w.plan.phases[..i].iter().any(|p| p.name == "odd");
                        if p.state != PState::Exited(0) || want.iter().any(|n| !l.contains(&n.as_str())) || (!extra.is_empty() && !odd_ran) {
                            return bad("list", format!("ced --list printed {:?} ({:?}), the sessions are {:?}", l, p.state, want));
                        }
                        continue;
                    }
                    let name = match name_in(args) {
                        Some(n) => n,
                        None => continue,
                    };
                    let gone = p.state != PState::Running && p.ended_step <= at;
                    if odd(&name) {
                        if gone && p.state == PState::Exited(0) && !mode_in(args, "daemon") {
                            return bad("odd", format!("{:?} ended successfully", args));
                        }
                        continue;
                    }
                    if mode_in(args, "server") {
                        if gone || server(&skey(&name)) != vec![w.slots[slot]] {
                            return bad("not-started", format!("{:?} should serve {} ({:?}); there are {:?}", args, skey(&name), p.state, server(&skey(&name))));
                        }
                    } else if mode_in(args, "daemon") {
                        if !gone || p.state != PState::Exited(0) || server(&skey(&name)).len() != 1 {
                            return bad("not-started", format!("{:?} should have started a server at {} ({:?}); there are {:?}", args, skey(&name), p.state, server(&skey(&name))));
                        }
                    } else {
                        let told = w.clients.get(slot).map(infos).unwrap_or_default();
                        match conn_of(w.slots[slot]) {
                            Some(x) => check(format!("{:?}", args), &name, x, told)?,
                            None => return bad("unreachable", format!("{:?} ({:?}) did not connect to session {:?}", args, p.state, name)),
                        }
                        *met.entry(skey(&name)).or_default() += 1;
                        other_spelling |= shown(&name) != name;
                    }
                }
                _ => {}
            }
        }
        let _ = (hinder, start);
        // nobody is disturbed by what others do
        for (k, c) in &w.clients {
            if let Some(x) = c.conn {
                let x = &s.net.conns[x];
                if x.created <= at && x.created > killed && (x.dirs[S2C].eof_seen.map_or(false, |e| e <= at) || x.closed_step[1].map_or(false, |e| e <= at)) {
                    return bad("disturbed", format!("client {} of session {:?} was disconnected", k, c.session));
                }
            }
        }
    }
    Ok(met.len() > 1 || other_spelling)
}
fn infos(c: &Client) -> Vec<String> {
    received(c)
        .iter()
        .filter_map(|m| match &m.msg {
            Msg::Notif { method, params } if method == "info" => Some(params["session"].as_str().unwrap_or("").to_string()),
            _ => None,
        })
        .collect()
}
