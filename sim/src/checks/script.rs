//! Scripts run from the command line.
use super::gen::{stmt_bad, stmt_move, stmt_text, text, FILES};
use super::model::*;
use super::*;
use crate::plan::Op;
use std::collections::BTreeMap;

pub const RULE: &str = "script mode with 0-7 scripts (files, standard input, repeated, missing, unreadable, failing, not UTF-8) that record in one shared interpreter that they ran and what the editor looks like, under read errors, short and interrupted reads and standard input in pieces, ended or failing; exit status and what the scripts report through an error message must be what the reference model says; non-trivial: two scripts ran and one reported";
const SLOT: usize = 0;
const ME: i64 = 1;

/// What a script can use to be followed; the first line becomes part of messages.
const DEFS: &str = "R = R or ''; function mark(k) R = R .. k .. ';' end; function dump() local c = editor:get_context(1); local o = {}; for b, ss in pairs(c.selections) do if b ~= '*debug*' and b ~= '*errors*' then for _, s in ipairs(ss) do o[#o + 1] = b .. ':' .. s.anchor.offset .. ':' .. s.cursor.offset .. ':' .. s.text end end end; table.sort(o); R = R .. '[' .. c.view.key .. '/' .. table.concat(o, ',') .. ']' end; function rep() return '<' .. '<' .. (R:gsub('.', function(c) return string.format('%02x', c:byte()) end)) .. '>' .. '>' end";

enum Line {
    Mark(String),
    Dump,
    Report,
    Stmt(Stmt),
}
fn lines(src: &str) -> Option<Vec<Line>> {
    let mut v = Vec::new();
    for l in src.split('\n') {
        if l == DEFS {
            continue;
        }
        if let Some(k) = l.strip_prefix("mark('").and_then(|l| l.strip_suffix("')")) {
            v.push(Line::Mark(k.into()));
        } else if l == "dump()" {
            v.push(Line::Dump);
        } else if l == "error(rep())" {
            v.push(Line::Report);
        } else {
            v.extend(parse_script(l)?.into_iter().map(Line::Stmt));
        }
    }
    Some(v)
}

fn source(r: &mut Rng, k: usize, fails: bool, report: bool) -> String {
    let mut v: Vec<String> = vec!["--".into(), DEFS.into()];
    v.push(format!("mark('{}')", k));
    for _ in 0..r.below(7) {
        let st = match r.below(12) {
            0 if fails => stmt_bad(r, 1),
            1..=5 => stmt_move(r, 1),
            _ => stmt_text(r, 1),
        };
        let s = script(&[st]).replace("770000", &ME.to_string());
        v.push(s);
        if r.chance(25) {
            v.push("dump()".into());
        }
        if r.chance(10) {
            v.push(format!("mark('{}b')", k));
        }
    }
    if r.chance(30) {
        v.push("dump()".into());
    }
    if report {
        if r.chance(70) {
            v.push("dump()".into());
        }
        v.push("error(rep())".into());
    }
    let mut s = v.split_off(1).join("\n");
    s.insert_str(0, "-- a script\n");
    if r.chance(60) {
        s.push('\n');
    }
    s
}

pub fn gen(r: &mut Rng, b: &mut PB, thorough: bool) {
    b.plan.cfg.preempt = *r.pick(&[0, 0, 20]);
    b.plan.cfg.max_steps = b.plan.cfg.max_steps.max(600_000);
    let pool = ["a.lua", "b.lua", "sub/c.lua", "d é.lua", "e.lua"];
    b.phase("files");
    b.op(900, Op::Mkdir { path: "/sim/work/sub".into() });
    for f in FILES {
        if r.chance(50) {
            let t = text(r, 5);
            b.op(900, Op::WriteFile { path: format!("/sim/work/{}", f), data: t.into(), age_ms: 5000 });
        }
    }
    let fails = r.chance(25);
    for (k, f) in pool.iter().enumerate() {
        let rep = fails && r.chance(15);
        let mut s = source(r, k, fails, rep);
        if r.chance(2) {
            s.clear();
        }
        let mut d = s.into_bytes();
        if r.chance(3) {
            d.extend(b"-- \xff\xfe");
        }
        b.op(900, Op::WriteFile { path: format!("/sim/work/{}", f), data: Data(d), age_ms: 5000 });
        let path = format!("/{}", f);
        match r.below(24) {
            0 | 1 => {
                let call = *r.pick(&["open", "read"]);
                b.op(900, Op::Fault { call: call.into(), path, skip: 0, times: 100_000, errno: *r.pick(&[libc::EACCES, libc::EIO, libc::EMFILE]), short: 0 });
            }
            2 => {
                b.op(900, Op::Fault { call: "read".into(), path, skip: 1, times: 1, errno: libc::EIO, short: 0 });
            }
            3..=6 => {
                b.op(900, Op::Fault { call: "read".into(), path, skip: 0, times: 100_000, errno: 0, short: 1 + r.below(40) });
            }
            7 | 8 => {
                let call = *r.pick(&["open", "read"]);
                b.op(900, Op::Fault { call: call.into(), path, skip: r.below(2) as u32, times: 3, errno: libc::EINTR, short: 0 });
            }
            _ => (),
        }
    }
    let s = source(r, 9, false, true);
    b.op(900, Op::WriteFile { path: "/sim/work/report.lua".into(), data: s.into(), age_ms: 5000 });
    let mut args = vec!["--mode=script".to_string()];
    let n = if r.chance(3) { 0 } else { r.range(1, if thorough { 8 } else { 6 }) };
    let mut input = 0;
    for _ in 0..n {
        args.push(match r.below(20) {
            0 => (*r.pick(&["missing.lua", "sub", "sub/none.lua"])).into(),
            1..=3 => {
                input += 1;
                "-".into()
            }
            _ => (*r.pick(&pool)).into(),
        });
    }
    if r.chance(80) {
        args.push("report.lua".into());
        if r.chance(10) {
            args.push((*r.pick(&pool)).into());
        }
    }
    b.phase("run");
    b.op(SLOT, Op::Start { slot: SLOT, args });
    if input > 0 || r.chance(20) {
        let rep = r.chance(10);
        let s = source(r, 7, fails, rep);
        let mut rest = s.as_bytes();
        while !rest.is_empty() {
            let n = if r.chance(30) { rest.len() } else { 1 + r.below(rest.len().min(400)) };
            b.op(SLOT, Op::Stdin { slot: SLOT, data: Data(rest[..n].to_vec()) });
            rest = &rest[n..];
            if r.chance(5) {
                b.op(SLOT, Op::Nop);
            }
        }
        match r.below(20) {
            0 => (),
            1 => {
                b.op(SLOT, Op::Stdin { slot: SLOT, data: Data(vec![0xe9, b'\n']) });
                b.op(SLOT, Op::StdinEof { slot: SLOT });
            }
            2 | 3 => {
                b.op(SLOT, Op::StdinErr { slot: SLOT, errno: *r.pick(&[libc::EIO, -libc::EIO]) });
            }
            _ => {
                b.op(SLOT, Op::StdinEof { slot: SLOT });
            }
        }
    } else {
        b.op(SLOT, Op::StdinEof { slot: SLOT });
    }
}

/// How a run of the program can end.
#[derive(Debug, PartialEq, Clone)]
enum End {
    Good,
    /// a script could not be read
    Unread(String),
    /// a script failed, with the report it made
    Failed(String, Option<String>),
    /// waits for standard input
    Waits,
}
#[derive(Clone)]
struct Way {
    st: St,
    rec: String,
    input: bool,
    ran: usize,
}

fn dumped(st: &St) -> String {
    let cl = &st.clients[&0];
    let mut o: Vec<String> = cl.sels[&cl.view]
        .iter()
        .filter(|(b, _)| !opaque(b))
        .map(|(b, s)| {
            let t = &st.bufs[b].text;
            format!("{}:{}:{}:{}", b, s.anchor, s.cursor, sel_text(t, s))
        })
        .collect();
    o.sort();
    format!("[{}/{}]", cl.view, o.join(","))
}
fn hex(s: &str) -> String {
    s.bytes().map(|b| format!("{:02x}", b)).collect()
}

pub fn judge(w: &mut World) -> Judge {
    no_server_failure(w)?;
    let p = match w.proc_of(SLOT) {
        Some(p) => p,
        None => return unclear("nothing was started"),
    };
    let files = files_at(w, w.plan.phases.len());
    let env = Env { ids: [(0, ME)].into_iter().collect(), files: files.clone(), session: String::new(), track: false };
    let mut input = Vec::new();
    let mut input_end = None;
    for s in w.plan.phases.iter().flat_map(|p| p.steps.iter()) {
        match &s.op {
            Op::Stdin { data, .. } => input.extend_from_slice(&data.0),
            Op::StdinEof { .. } => input_end = input_end.or(Some(true)),
            Op::StdinErr { .. } => input_end = input_end.or(Some(false)),
            _ => (),
        }
    }
    let names: Vec<String> = p.args.iter().skip(1).filter(|a| !a.starts_with("--")).cloned().collect();
    let mut ends: Vec<(End, usize)> = Vec::new();
    let first = apply(&env, &St::new(), 0, &Req::Join).remove(0).st;
    let mut ways = vec![Way { st: first, rec: String::new(), input: false, ran: 0 }];
    for n in &names {
        let mut next = Vec::new();
        for mut way in ways {
            let src = if n == "-" {
                match input_end {
                    // what was there before was read by an earlier one
                    Some(true) if way.input => String::new(),
                    Some(true) => {
                        way.input = true;
                        match String::from_utf8(input.clone()) {
                            Ok(s) => s,
                            Err(_) => {
                                ends.push((End::Unread(n.clone()), way.ran));
                                continue;
                            }
                        }
                    }
                    Some(false) => {
                        ends.push((End::Unread(n.clone()), way.ran));
                        continue;
                    }
                    None => {
                        ends.push((End::Waits, way.ran));
                        continue;
                    }
                }
            } else {
                match files.get(n) {
                    Some(File::Is(s)) => s.clone(),
                    Some(File::Unsure(s)) => {
                        ends.push((End::Unread(n.clone()), way.ran));
                        s.clone()
                    }
                    Some(File::Bad) | None => {
                        ends.push((End::Unread(n.clone()), way.ran));
                        continue;
                    }
                }
            };
            let ls = match lines(&src) {
                Some(l) => l,
                None => return unclear(format!("a script the model does not know: {:?}", src)),
            };
            if ls.iter().any(|l| matches!(l, Line::Stmt(Stmt::Syntax))) {
                ends.push((End::Failed(n.clone(), None), way.ran));
                continue;
            }
            way.ran += 1;
            let mut here = vec![way];
            for l in &ls {
                let mut then = Vec::new();
                for mut way in here {
                    match l {
                        Line::Mark(k) => way.rec += &format!("{};", k),
                        Line::Dump => way.rec += &dumped(&way.st),
                        Line::Report => {
                            ends.push((End::Failed(n.clone(), Some(way.rec.clone())), way.ran));
                            continue;
                        }
                        Line::Stmt(s) => {
                            for o in apply(&env, &way.st, 0, &Req::Exec(vec![s.clone()])) {
                                if o.ok {
                                    then.push(Way { st: o.st, ..way.clone() });
                                } else {
                                    ends.push((End::Failed(n.clone(), None), way.ran));
                                }
                            }
                            continue;
                        }
                    }
                    then.push(way);
                }
                here = then;
            }
            next.extend(here);
        }
        ways = next;
        if ways.len() > 64 {
            return unclear("too many ways");
        }
    }
    for way in &ways {
        ends.push((End::Good, way.ran));
    }
    // what happened
    let err = String::from_utf8_lossy(&p.stderr).into_owned();
    let mut reports: Vec<&str> = Vec::new();
    let mut rest = &err[..];
    while let Some(i) = rest.find("<<") {
        rest = &rest[i + 2..];
        if let Some(e) = rest.find(">>") {
            if rest[..e].bytes().all(|b| b.is_ascii_hexdigit()) {
                reports.push(&rest[..e]);
            }
        }
    }
    let hexes: Vec<&str> = reports.clone();
    let text = |h: &str| {
        let b: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
        String::from_utf8_lossy(&b).into_owned()
    };
    let fits = |e: &End| match e {
        End::Good => p.state == PState::Exited(0) && hexes.is_empty(),
        End::Waits => p.state == PState::Running && hexes.is_empty(),
        End::Unread(_) => matches!(p.state, PState::Exited(c) if c != 0) && hexes.is_empty(),
        End::Failed(n, None) => matches!(p.state, PState::Exited(c) if c != 0) && hexes.is_empty() && err.contains(n.as_str()),
        End::Failed(n, Some(r)) => {
            matches!(p.state, PState::Exited(c) if c != 0) && !hexes.is_empty() && hexes.iter().all(|h| *h == hex(r)) && err.contains(n.as_str())
        }
    };
    match ends.iter().find(|e| fits(&e.0)) {
        Some((e, ran)) => Ok(*ran > 2 && matches!(e, End::Failed(_, Some(_)))),
        None => {
            let kind = match (&ends[0].0, &p.state) {
                (End::Good, PState::Exited(_)) if ends.len() == 1 => "failed",
                (_, PState::Running) => "not-ended",
                (End::Unread(_), PState::Exited(0)) | (End::Failed(..), PState::Exited(0)) if ends.len() == 1 => "not-failed",
                _ => "wrong-outcome",
            };
            let shown: BTreeMap<String, ()> = ends.iter().map(|e| (format!("{:?}", e.0), ())).collect();
            bad(
                kind,
                format!(
                    "scripts {:?} should end with {}; the program is {:?}, it reported {:?}, its messages are {}",
                    names,
                    shown.keys().cloned().collect::<Vec<_>>().join(" or "),
                    p.state,
                    reports.iter().map(|h| text(h)).collect::<Vec<_>>(),
                    show(&p.stderr)
                ),
            )
        }
    }
}
