//! Opening files and reading them again, with outside changes and failing calls.
use super::gen::*;
use super::model::*;
use crate::plan::Op;
use super::*;
use serde_json::json;
use std::collections::BTreeMap;

pub fn rule(id: &str) -> &'static str {
    match id {
        "C07" => "1-3 clients open files (empty, without final newline, large, of multi-byte text, not UTF-8, missing, directories, links, other spellings of a path) through edit requests, the menu and scripts while opens, stats and reads fail, are interrupted or return few bytes; displays must equal the stored text and a failed request must leave the reference state as it was; non-trivial: a successful and a failed opening",
        _ => "1-3 clients edit open files and open them again while the files are changed, rewritten unchanged, removed, restored, replaced by undecodable bytes, with equal lengths and time stamps, clock jumps and failing calls; displays must equal those of the reference, which compares contents; non-trivial: a file opened again after its content was changed",
    }
}

const NAMES: [&str; 5] = ["f1", "notes.txt", "sub/f2", "f é", "big"];

fn content(r: &mut Rng) -> Vec<u8> {
    match r.below(14) {
        0 => Vec::new(),
        1 => b"\n".to_vec(),
        2 => b"\n\n".to_vec(),
        3 => {
            let mut v = text(r, 4).into_bytes();
            let at = r.below(v.len() + 1);
            v.insert(at, *r.pick(&[0xff, 0xc3, 0xe2, 0x80]));
            // an accidental continuation makes it text
            v
        }
        4 => {
            // larger than the buffers of the reader
            let mut s = String::new();
            let n = if r.chance(15) { r.range(9000, 150_000) } else { r.range(500, 9000) };
            while s.len() < n {
                s.push_str(*r.pick(&PIECES));
                if r.chance(10) {
                    s.push('\n');
                }
            }
            s.into_bytes()
        }
        5 => "é".repeat(r.range(1, 40)).into_bytes(),
        6 => {
            let mut s = String::new();
            for i in 0..r.range(20, 400) {
                s.push_str(&format!("{}{}\n", i, if r.chance(20) { *r.pick(&PIECES) } else { "" }));
            }
            s.into_bytes()
        }
        7 => format!("{}{}", *r.pick(&["\u{feff}", "\u{feff}\n", "\u{0}", "\u{c}", "\u{2028}"]), text(r, 4)).into_bytes(),
        _ => text(r, 10).into_bytes(),
    }
}
/// A changed version of a text.
fn changed(r: &mut Rng, old: &[u8]) -> Vec<u8> {
    let t = match String::from_utf8(old.to_vec()) {
        Ok(t) => t,
        Err(_) => return content(r),
    };
    let mut l: Vec<String> = t.split_inclusive('\n').map(String::from).collect();
    let edits = r.range(1, 4);
    for _ in 0..edits {
        l.retain(|x| !x.is_empty());
        let n = l.len();
        match r.below(9) {
            0 | 1 if n > 0 => {
                let i = r.below(n);
                l.remove(i);
            }
            2 | 3 => {
                let i = r.below(n + 1);
                l.insert(i, format!("{}\n", r.pick(&PIECES)));
            }
            4 if n > 0 => {
                let i = r.below(n);
                let cs: Vec<char> = l[i].chars().collect();
                let j = r.below(cs.len());
                let mut c2 = cs.clone();
                if r.chance(50) {
                    c2[j] = *r.pick(&['x', 'é', '日', ' ', '\n']);
                } else {
                    c2.remove(j);
                }
                l[i] = c2.into_iter().collect();
            }
            5 if n > 1 => {
                let (i, j) = (r.below(n), r.below(n));
                l.swap(i, j);
            }
            6 if n > 0 => {
                let i = r.below(n);
                let x = l[i].clone();
                l.insert(i, x);
            }
            7 => {
                // same length, other content
                if let Some(x) = l.iter().position(|x| x.contains('x')) {
                    l[x] = l[x].replacen('x', "y", 1);
                } else if let Some(x) = l.iter().position(|x| x.contains('l')) {
                    l[x] = l[x].replacen('l', "x", 1);
                }
            }
            8 => {
                if let Some(x) = l.last_mut() {
                    if x.ends_with('\n') {
                        x.pop();
                    } else {
                        x.push('\n');
                    }
                }
            }
            _ => {
                l.push(r.pick(&PIECES).to_string());
            }
        }
    }
    if r.chance(8) {
        return content(r);
    }
    l.concat().into_bytes()
}

fn path_of(n: &str) -> String {
    format!("/sim/work/{}", n)
}

fn outside(r: &mut Rng, b: &mut PB, disk: &mut BTreeMap<&'static str, Vec<u8>>, c08: bool) {
    b.phase("outside");
    for _ in 0..r.range(0, 3) {
        let n = *r.pick(&NAMES);
        let age = *r.pick(&[0, 0, 5000, 5000, 3_600_000, -5000]);
        match r.below(10) {
            0 => {
                b.op(900, Op::Remove { path: path_of(n) });
                disk.remove(n);
                continue;
            }
            1 => {
                // only the time stamp
                if let Some(d) = disk.get(n) {
                    b.op(900, Op::WriteFile { path: path_of(n), data: Data(d.clone()), age_ms: age });
                }
                continue;
            }
            3 if r.chance(20) => {
                b.op(900, Op::Fifo { path: path_of(n) });
                disk.insert(n, vec![0xff]);
                continue;
            }
            2 => b.op(900, Op::Clock { ms: *r.pick(&[-86_400_000, -1000, 1000, 3_600_000]) }),
            _ => b,
        };
        let d = match disk.get(n) {
            Some(d) if c08 || r.chance(50) => changed(r, d),
            _ => content(r),
        };
        b.op(900, Op::WriteFile { path: path_of(n), data: Data(d.clone()), age_ms: age });
        disk.insert(n, d);
    }
}
fn arm(r: &mut Rng, b: &mut PB) -> bool {
    if !r.chance(60) {
        return false;
    }
    b.phase("faults");
    for _ in 0..r.range(1, 3) {
        let path = match r.below(3) {
            0 => "/sim/work".to_string() + "/" + *r.pick(&NAMES),
            1 => r.pick(&NAMES).to_string(),
            _ => "f1".into(),
        };
        let (skip, times) = (*r.pick(&[0, 0, 0, 1, 2]), *r.pick(&[1, 1, 2, 5, 100_000]));
        let f = |call: &str, errno: i32, short: usize| Op::Fault { call: call.into(), path: path.clone(), skip, times, errno, short };
        let op = match r.below(9) {
            0 | 1 => f("read", 0, r.range(1, 9)),
            2 => {
                let errno = libc::EINTR;
                Op::Fault { call: "read".into(), path, skip, times: r.range(1, 5) as u32, errno, short: 0 }
            }
            3 | 4 => f("read", *r.pick(&[libc::EIO, libc::EISDIR, libc::ESTALE]), 0),
            5 | 6 => f("open", *r.pick(&[libc::EACCES, libc::EMFILE, libc::ENFILE, libc::ENOENT, libc::EIO]), 0),
            7 => f("stat", *r.pick(&[libc::EACCES, libc::EIO, libc::ENOENT]), 0),
            _ => Op::Fault { call: "open".into(), path, skip, times: r.range(1, 5) as u32, errno: libc::EINTR, short: 0 },
        };
        b.op(900, op);
    }
    true
}

fn file_req(r: &mut Rng, n: usize, id: &Value, c08: bool) -> String {
    let mut name = r.pick(&NAMES).to_string();
    if r.chance(12) {
        name = (*r.pick(&["./f1", "sub/../f1", "/sim/work/f1", "sub", "missing", "no/such", "ln", "pipe", "", ".", "f1/x", "sub/"])).into();
    }
    let w = if c08 { 26 } else { 16 };
    match r.below(w) {
        0..=7 => req(id, "edit", Some(json!({"name": name, "scratch": r.chance(4)}))),
        8 => {
            let s = script(&[Stmt::Call("edit".into(), vec![who(r, n), Arg::Str(name), Arg::Bool(false)])]);
            req(id, "exec", Some(json!(subst(&s, n))))
        }
        9 => req(id, "menu-select", Some(json!({"command": "open", "choice": name}))),
        10 => req(id, "view-delete", None),
        11 => req(id, "view", Some(json!(name))),
        12 => req(id, "view-add", Some(json!(name))),
        13 => req(id, "view-remove", Some(json!(name))),
        14 => req(id, "keys", Some(c01::keys_json(&move_keys(r)))),
        15 => {
            let t = text(r, 3);
            let s = script(&[Stmt::Call("append_to".into(), vec![Arg::Str(name), Arg::Str(t)])]);
            req(id, "exec", Some(json!(s)))
        }
        16..=19 => req(id, "edit", Some(json!({"name": name, "scratch": false}))),
        20 | 21 => {
            let t = text(r, 3);
            let s = script(&[Stmt::Call("append_to".into(), vec![Arg::Str(name), Arg::Str(t)])]);
            req(id, "exec", Some(json!(s)))
        }
        22 => req(id, "keys", Some(c01::keys_json(&["d"]))),
        23 => {
            let mut k = move_keys(r);
            k.push("d");
            req(id, "keys", Some(c01::keys_json(&k)))
        }
        _ => {
            let s = exec_src(r, n, stmt_move, 4);
            req(id, "exec", Some(json!(s)))
        }
    }
}
fn subst(s: &str, n: usize) -> String {
    let mut s = s.to_string();
    for c in 0..n {
        s = s.replace(&format!("{}", 770_000 + c), &format!("$I{}$", c));
    }
    s
}

pub fn gen(id: &str, r: &mut Rng, b: &mut PB, thorough: bool) {
    let c08 = id == "C08";
    b.plan.cfg.mtime_gran_ns = *r.pick(&[1, 1_000_000_000, 2_000_000_000]);
    let mut disk: BTreeMap<&'static str, Vec<u8>> = BTreeMap::new();
    b.phase("files");
    b.op(900, Op::Mkdir { path: "/sim/work/sub".into() });
    for n in NAMES {
        if r.chance(75) {
            let d = content(r);
            b.op(900, Op::WriteFile { path: path_of(n), data: Data(d.clone()), age_ms: 5000 });
            disk.insert(n, d);
        }
    }
    if r.chance(40) {
        b.op(900, Op::Symlink { path: "/sim/work/ln".into(), target: "/sim/work/f1".into() });
    }
    if r.chance(15) {
        b.op(900, Op::Fifo { path: "/sim/work/pipe".into() });
    }
    start_server(b);
    let n = r.range(1, 3);
    b.phase("join");
    for c in 0..n {
        b.op(0, Op::Connect { c, session: S.into() });
    }
    let mut next = vec![0i64; n];
    let rounds = r.range(2, if thorough { 8 } else { 5 });
    for k in 0..rounds {
        let armed = if k > 0 || !c08 { arm(r, b) } else { false };
        b.phase("work");
        let mut budget = 10;
        for c in 0..n {
            let k = r.below(6).min(budget);
            budget -= k;
            let mut buf = Vec::new();
            for _ in 0..k {
                next[c] += 1;
                buf.extend(file_req(r, n, &json!(next[c] * 10 + c as i64), c08).into_bytes());
                buf.push(b'\n');
            }
            send_cut(r, b, c, c, &buf);
        }
        if armed {
            b.phase("clear");
            b.op(900, Op::ClearFaults);
        }
        if r.chance(if c08 { 80 } else { 40 }) {
            outside(r, b, &mut disk, c08);
        }
    }
    // once the causes are gone
    b.phase("after");
    for c in 0..n {
        next[c] += 1;
        let nm = *r.pick(&NAMES);
        let l = req(&json!(next[c] * 10 + c as i64), "edit", Some(json!({"name": nm, "scratch": false})));
        b.op(c, Op::Send { c, data: (l + "\n").into() });
    }
}

pub fn judge(id: &str, w: &mut World) -> Judge {
    no_server_failure(w)?;
    expect_running(w, 0)?;
    explain_run(w, false, |p| files_at(w, p))?;
    let mut good = 0;
    let mut failed = 0;
    for c in w.clients.values() {
        let rs: Vec<bool> = received(c)
            .iter()
            .filter_map(|m| if let Msg::Resp { error, .. } = &m.msg { Some(error.is_none()) } else { None })
            .collect();
        for (l, ok) in c.sent.iter().zip(rs) {
            if let Some(Req::Edit(_, false)) = parse_req(&l.bytes) {
                if ok {
                    good += 1
                } else {
                    failed += 1
                }
            }
        }
    }
    let outside = w.plan.phases.iter().any(|p| p.name == "outside" && !p.steps.is_empty());
    Ok(if id == "C07" { good > 0 && failed > 0 } else { good > 1 && outside })
}
