//! The programs that speak the protocol on standard input and output.
use super::gen::{request, text, Mix, FILES, NONE};
use super::libs::{fact, Fact};
use super::model::*;
use super::*;
use crate::plan::Op;
use serde_json::json;
use simrt::net::{C2S, S2C};

pub fn rule(id: &str) -> &'static str {
    match id {
        "C16" => "the standalone program with 0-4 files (whole, missing, directories, not UTF-8, failing on open or read) reads requests, odd lines and an unterminated rest in any pieces until end of input or a read error, while files change and its output is not read for a while; every line is answered once and in order and everything it told is what the reference model says; non-trivial: two requests answered and a notification caused by one",
        _ => "the bridge between standard input/output and a scripted server (valid, unknown, undecodable messages in any pieces, stalls, closes, resets at any point) or the real server, with well-formed and malformed input lines, end of input, read errors and slow readers of its output; requests on the wire and lines written must be those put in, in order; non-trivial: lines passed in both directions",
    }
}
const OUT: usize = 0;
const BRIDGE: usize = 20;

pub fn gen(id: &str, r: &mut Rng, b: &mut PB, thorough: bool) {
    b.plan.cfg.preempt = *r.pick(&[0, 20, 20, 200]);
    if id == "C16" {
        gen16(r, b, thorough)
    } else {
        gen17(r, b, thorough)
    }
}
pub fn judge(id: &str, w: &mut World) -> Judge {
    if id == "C16" {
        judge16(w)
    } else {
        judge17(w)
    }
}

fn pieces(r: &mut Rng, b: &mut PB, slot: usize, data: &[u8]) {
    let mut rest = data;
    while !rest.is_empty() {
        let n = if r.chance(40) { rest.len() } else { 1 + r.below(rest.len().min(300)) };
        b.op(slot, Op::Stdin { slot, data: Data(rest[..n].to_vec()) });
        rest = &rest[n..];
        if r.chance(5) {
            b.op(slot, Op::Nop);
        }
    }
}

// ------------------------------------------------------------- standalone

const MIX: Mix = Mix {
    scratch: 4,
    file: 6,
    view: 5,
    add: 4,
    remove: 3,
    delete: 4,
    menu: 3,
    select: 3,
    moves: 5,
    modes: 4,
    text: 8,
    emoves: 6,
    fail: 4,
    msg: 6,
    refused: 4,
    quit: 0,
    churn: 0,
    wire: 0,
    files: true,
    ..NONE
};

fn gen16(r: &mut Rng, b: &mut PB, thorough: bool) {
    b.phase("files");
    let mut faults = false;
    let names = ["f1", "notes.txt", "sub/f2", "f é", "sub", "bad", "missing", "pipe"];
    b.op(900, Op::Mkdir { path: "/sim/work/sub".into() });
    for f in FILES {
        if r.chance(80) {
            let max = if r.chance(8) { 900 } else { 8 };
            let t = text(r, max);
            b.op(900, Op::WriteFile { path: format!("/sim/work/{}", f), data: t.into(), age_ms: 5000 });
            if r.chance(10) {
                faults = true;
                let call = *r.pick(&["open", "read"]);
                b.op(
                    900,
                    Op::Fault { call: call.into(), path: format!("/{}", f), skip: 0, times: 100_000, errno: *r.pick(&[libc::EACCES, libc::EIO, libc::EMFILE]), short: 0 },
                );
            } else if r.chance(10) {
                b.op(900, Op::Fault { call: "read".into(), path: format!("/{}", f), skip: 0, times: 100_000, errno: 0, short: 1 + r.below(5) });
            }
        }
    }
    b.op(900, Op::WriteFile { path: "/sim/work/bad".into(), data: Data(b"ab\xff\xfe\n".to_vec()), age_ms: 5000 });
    b.op(900, Op::Fifo { path: "/sim/work/pipe".into() });
    let mut args = vec!["--mode=standalone".to_string()];
    for _ in 0..r.below(5) {
        args.push((*r.pick(&names)).into());
    }
    b.phase("start");
    b.op(900, Op::Start { slot: OUT, args });
    let phases = r.range(1, if thorough { 8 } else { 5 });
    let mut next = 0;
    let mut quit = false;
    for ph in 0..phases {
        if ph > 0 && r.chance(20) {
            b.phase("outside");
            if faults && r.chance(60) {
                faults = false;
                b.op(900, Op::ClearFaults);
            }
            let f = *r.pick(&FILES);
            let t = text(r, 8);
            b.op(900, Op::WriteFile { path: format!("/sim/work/{}", f), data: t.into(), age_ms: -(ph as i64) * 2000 });
        }
        b.phase("work");
        let last = ph + 1 == phases;
        let mut buf: Vec<u8> = Vec::new();
        for _ in 0..r.below(if thorough { 12 } else { 8 }) {
            next += 1;
            let id = match r.below(6) {
                0 => json!(format!("q{}", next)),
                1 => json!(-next),
                _ => json!(next),
            };
            if quit || r.chance(8) {
                // nothing but an answer can be expected
                if quit {
                    buf.extend(c01::good_request(r, &id, 0).into_bytes());
                } else {
                    buf.extend(c01::odd_line(r, &id));
                }
            } else {
                buf.extend(request(r, &MIX, 0, 1, &id).replace("$I0$", "1").into_bytes());
            }
            buf.push(b'\n');
            if last && !quit && r.chance(3) {
                next += 1;
                buf.extend(req(&json!(next), "quit", None).into_bytes());
                buf.push(b'\n');
                quit = true;
            }
            if r.chance(10) {
                pieces(r, b, OUT, &buf);
                buf.clear();
                b.op(OUT, Op::Sync { c: OUT });
            }
        }
        let stall = r.chance(20);
        if stall {
            b.op(901, Op::OutStall { slot: OUT });
        }
        pieces(r, b, OUT, &buf);
        if last {
            let full = req(&json!(next + 1), "view", Some(json!("*scratch*")));
            match r.below(10) {
                0 | 1 => {
                    // an end of input inside of a line
                    let rest = if quit || r.chance(50) { full[..r.range(1, full.len() - 1)].to_string() } else { full };
                    pieces(r, b, OUT, rest.as_bytes());
                    b.op(OUT, Op::StdinEof { slot: OUT });
                }
                2 => {
                    if r.chance(50) {
                        let n = r.range(1, full.len() - 1);
                        pieces(r, b, OUT, full[..n].as_bytes());
                    }
                    b.op(OUT, Op::StdinErr { slot: OUT, errno: *r.pick(&[libc::EIO, -libc::EIO]) });
                }
                _ => {
                    b.op(OUT, Op::StdinEof { slot: OUT });
                }
            }
        }
        if stall {
            if r.chance(50) {
                b.op(901, Op::Nop);
            }
            b.op(901, Op::OutUnstall { slot: OUT });
        }
    }
}

fn judge16(w: &mut World) -> Judge {
    no_server_failure(w)?;
    let c = match w.clients.get(&OUT) {
        Some(c) => c,
        None => return unclear("nothing was started"),
    };
    let p = &simrt::sim().procs[c.virt.unwrap()];
    if w.stalled_out.contains(&OUT) {
        return unclear("the output is never read");
    }
    let ms = received(c);
    only_messages(OUT, &ms)?;
    if !p.out_part.is_empty() {
        return bad("half-line", format!("standard output ends inside of a line: {}", show(&p.out_part)));
    }
    let failed = p.in_end.is_some() && !p.stdin_eof;
    match (&p.state, p.in_end) {
        (PState::Exited(0), Some(_)) => (),
        (PState::Exited(0), None) => return bad("ended-early", "the program ended before its input did"),
        (PState::Running, Some(_)) => return bad("not-ended", "the program goes on after the end of its input"),
        (PState::Running, None) if p.stdin_eof => return bad("not-ended", "the program did not read up to the end of its input"),
        (PState::Running, None) => (),
        (s, _) => return bad("ended-badly", format!("the program ended with {:?}", s)),
    }
    // responses
    let resp: Vec<(&Value, bool)> = ms
        .iter()
        .filter_map(|m| if let Msg::Resp { id, error, .. } = &m.msg { Some((id, error.is_none())) } else { None })
        .collect();
    let rest = failed && !c.unsent_part().is_empty();
    let max = c.sent.len() + rest as usize;
    if resp.len() > max {
        return bad("extra-response", format!("{} lines were put in, {} responses came out", c.sent.len(), resp.len()));
    }
    for (i, l) in c.sent.iter().enumerate() {
        use c01::Want;
        let (id, ok) = match resp.get(i) {
            Some(r) => *r,
            None => return bad("missing-response", format!("line {} of {} was not answered: {}", i, c.sent.len(), show(&l.bytes))),
        };
        let wnt = c01::want(&l.bytes);
        let good = match &wnt {
            Want::Id(x) => x == id,
            Want::ErrId(x) => x == id && !ok,
            Want::NullErr => id.is_null() && !ok,
        };
        if !good {
            return bad("wrong-response", format!("line {} {} expects {:?}, the response is id {} success {}", i, show(&l.bytes), wnt, id, ok));
        }
        if c.taken().get(i).map_or(true, |t| t.bytes != l.bytes) {
            return unclear("the record of the input is not what was put in");
        }
    }
    let e = explain_run(w, true, |p| files_at(w, p))?;
    simrt::probe("standalone-explained");
    let echoes = ms.iter().filter(|m| matches!(&m.msg, Msg::Notif { method, .. } if method != "info")).count();
    Ok(resp.iter().filter(|r| r.1).count() > 1 && echoes > 3 && e.ops > 3)
}

// ----------------------------------------------------------------- bridge

fn gen17(r: &mut Rng, b: &mut PB, thorough: bool) {
    let real = r.chance(25);
    if real {
        start_server(b);
        for c in 0..r.below(2) {
            b.op(c, Op::Connect { c, session: S.into() });
        }
    } else {
        b.phase("listen");
        b.op(900, Op::Listen { session: S.into() });
    }
    b.phase("bridge");
    if r.chance(3) {
        b.op(900, Op::ConnErr { errno: *r.pick(&[libc::ECONNREFUSED, libc::EAGAIN]) });
    }
    b.op(900, Op::Start { slot: BRIDGE, args: vec!["--mode=json".into(), format!("--session={}", S)] });
    let phases = r.range(1, if thorough { 6 } else { 4 });
    let end_in = if r.chance(50) { r.below(phases) } else { phases };
    let mut input = true;
    let mut id = 0;
    let mut k = 0;
    let mut stalled = false;
    for ph in 0..phases {
        b.phase("work");
        if r.chance(15) && !real {
            b.op(903, Op::SrvStall { session: S.into(), n: 0 });
            stalled = true;
            if r.chance(60) {
                b.op(903, Op::SrvUnstall { session: S.into(), n: 0 });
                stalled = false;
            }
        }
        let out_stall = r.chance(20);
        if out_stall {
            b.op(902, Op::OutStall { slot: BRIDGE });
        }
        // input
        if input {
            let mut buf: Vec<u8> = Vec::new();
            for _ in 0..r.below(8) {
                id += 1;
                let rid = match r.below(6) {
                    0 => json!(format!("q{}", id)),
                    1 => json!(-id),
                    2 if !real => Value::Null,
                    _ => json!(id),
                };
                let line: Vec<u8> = if r.chance(25) {
                    c01::odd_line(r, &rid)
                } else if real {
                    let l = c01::good_request(r, &rid, 0);
                    if c01::quits(l.as_bytes()) {
                        continue;
                    }
                    l.into_bytes()
                } else {
                    any_request(r, &rid).into_bytes()
                };
                if real && c01::quits(&line) {
                    continue;
                }
                buf.extend(line);
                buf.push(b'\n');
            }
            let ends = r.chance(20);
            if ends && r.chance(30) {
                let l = any_request(r, &json!(9000));
                buf.extend(if r.chance(40) { l.as_bytes() } else { &l.as_bytes()[..1 + r.below(10)] });
            }
            pieces(r, b, BRIDGE, &buf);
            if ends {
                input = false;
                if r.chance(75) {
                    b.op(BRIDGE, Op::StdinEof { slot: BRIDGE });
                } else {
                    b.op(BRIDGE, Op::StdinErr { slot: BRIDGE, errno: *r.pick(&[libc::EIO, -libc::EIO, libc::EBADF]) });
                }
            }
        }
        // the server
        if real {
            if ph == end_in {
                if r.chance(50) {
                    b.plan.cfg.preempt = 0;
                    b.op(901, Op::KillServer { session: S.into() });
                } else if input {
                    id += 1;
                    pieces(r, b, BRIDGE, format!("{}\n", req(&json!(id), "quit", None)).as_bytes());
                }
            } else if r.chance(50) {
                let q = req(&json!(ph), "exec", Some(json!("editor:append_to('*scratch*', 'text\\n')")));
                b.op(0, Op::Send { c: 0, data: (q + "\n").into() });
            }
        } else {
            let mut buf = Vec::new();
            for _ in 0..r.below(8) {
                k += 1;
                buf.extend(server_line(r, k));
                if r.chance(4) {
                    buf.push(b'\r');
                }
                buf.push(b'\n');
            }
            let ends = ph == end_in;
            if ends && r.chance(40) {
                let m = json!({"jsonrpc": "2.0", "method": "echo", "params": [{"text": "unfinished", "face": "Default"}]}).to_string();
                let m = m.as_bytes();
                buf.extend(if r.chance(30) { m } else { &m[..1 + r.below(m.len() - 1)] });
            }
            let mut rest = &buf[..];
            while !rest.is_empty() {
                let n = if r.chance(40) { rest.len() } else { 1 + r.below(rest.len().min(300)) };
                b.op(901, Op::SrvSend { session: S.into(), n: 0, data: Data(rest[..n].to_vec()) });
                rest = &rest[n..];
            }
            if ends {
                b.op(901, Op::SrvClose { session: S.into(), n: 0, reset: r.chance(35) });
            }
        }
        if out_stall {
            if r.chance(50) {
                b.op(902, Op::Nop);
            }
            b.op(902, Op::OutUnstall { slot: BRIDGE });
        }
    }
    if stalled && r.chance(70) {
        b.phase("last");
        b.op(903, Op::SrvUnstall { session: S.into(), n: 0 });
    }
}
fn any_request(r: &mut Rng, id: &Value) -> String {
    let method = *r.pick(&["edit", "view", "keys", "exec", "other", "", "né", "menu", "quit"]);
    let params = match r.below(8) {
        0 => None,
        1 => Some(Value::Null),
        2 => Some(json!({"name": "dé", "scratch": true, "deep": [[1, -2, 3.5, 1e40], {"a": null, "b": false}]})),
        3 => Some(json!("x".repeat(1 + r.below(9000)))),
        4 => Some(json!(["line\nbreak", "\u{0}\u{1b}", "quote\" \\ /", "\u{2028}\u{1F680}"])),
        5 => Some(json!(i64::MAX)),
        _ => Some(json!(format!("p{}", r.below(1000)))),
    };
    let mut s = req(id, method, params);
    if r.chance(10) {
        // spread and escaped differently
        s = s.replace("\":", "\" : ").replace("/", "\\/");
    }
    if r.chance(5) {
        s = s.replacen('{', "{\"extra\":[1,{}],", 1);
    }
    s
}
fn server_line(r: &mut Rng, k: usize) -> Vec<u8> {
    match r.below(12) {
        0 => json!({"jsonrpc": "2.0", "id": k, "result": null}).to_string().into_bytes(),
        1 => json!({"jsonrpc": "2.0", "id": format!("q{}", k), "result": [1, {"a": null}, -1.5]}).to_string().into_bytes(),
        2 => json!({"jsonrpc": "2.0", "id": k, "error": {"code": -32600, "message": "no \n line", "data": r.pick(&[json!("why"), Value::Null, json!([1])])}}).to_string().into_bytes(),
        3 => json!({"jsonrpc": "2.0", "id": null, "error": {"code": 1, "message": ""}}).to_string().into_bytes(),
        4 => json!({"jsonrpc": "2.0", "method": *r.pick(&["unknown", "", "né"]), "params": {"x": [k, null, "\u{2028}"]}}).to_string().into_bytes(),
        5 => json!({"jsonrpc": "2.0", "method": "echo"}).to_string().into_bytes(),
        6 => json!({"jsonrpc": "2.0", "method": "echo", "params": null}).to_string().into_bytes(),
        7 => json!({"jsonrpc": "2.0", "method": "view", "params": [{"buffer": "b", "lenses": [], "text": "long ".repeat(r.below(3000))}]}).to_string().into_bytes(),
        8 => r.pick(&["", "null", "42", "garbage", "{}", "[]", "{\"method\":\"echo\"}", "\"s\"", "{\"jsonrpc\":\"2.0\",\"id\":[]}", "{\"jsonrpc\":\"2.0\""]).as_bytes().to_vec(),
        9 => b"\xff{\"jsonrpc\":\"2.0\",\"method\":\"echo\"}".to_vec(),
        10 => json!({"jsonrpc": "2.0", "method": "hint", "params": {"text": []}, "more": k}).to_string().into_bytes(),
        _ => json!({"jsonrpc": "2.0", "method": "status", "params": [{"index": k, "text": "日本 \u{0} \" \\ \t"}]}).to_string().into_bytes(),
    }
}

/// Requests and messages without what may be left out.
fn norm(v: &Value) -> Value {
    let mut o = serde_json::Map::new();
    for k in ["jsonrpc", "method", "id", "params", "result", "error"] {
        let x = match v.get(k) {
            Some(x) => x,
            None => continue,
        };
        match k {
            // a method makes it a notification
            "result" | "error" if v["method"].is_string() => continue,
            "params" if x.is_null() => continue,
            "error" if x.is_null() => continue,
            "error" => {
                o.insert(k.into(), json!({"code": x["code"], "message": x["message"], "data": x["data"]}));
                continue;
            }
            _ => (),
        }
        o.insert(k.into(), x.clone());
    }
    Value::Object(o)
}
/// A request line that has to be passed on.
fn well_formed(line: &[u8]) -> Option<Value> {
    let v: Value = serde_json::from_str(std::str::from_utf8(line).ok()?).ok()?;
    let ok = v.is_object()
        && v["jsonrpc"].is_string()
        && v["method"].is_string()
        && match v.get("id") {
            Some(Value::Null) | Some(Value::String(_)) => true,
            Some(Value::Number(n)) => n.as_i64().map_or(false, |n| n as i32 as i64 == n),
            _ => false,
        };
    if !ok {
        return None;
    }
    let mut o = norm(&v);
    // a request has neither
    o.as_object_mut().unwrap().remove("error");
    o.as_object_mut().unwrap().remove("result");
    Some(o)
}

fn judge17(w: &mut World) -> Judge {
    no_server_failure(w)?;
    let c = match w.clients.get(&BRIDGE) {
        Some(c) => c,
        None => return unclear("nothing was started"),
    };
    let pid = c.virt.unwrap();
    let p = &simrt::sim().procs[pid];
    if w.stalled_out.contains(&BRIDGE) {
        return unclear("the output is never read");
    }
    let conn = match simrt::sim().net.conns.iter().rposition(|c| c.procs[0] == pid) {
        Some(c) => c,
        None => {
            let refused = w.plan.phases.iter().any(|p| p.steps.iter().any(|s| matches!(s.op, Op::ConnErr { .. })));
            let there = w.plan.phases.iter().any(|p| p.steps.iter().any(|s| matches!(s.op, Op::Listen { .. } | Op::WaitUp { .. })));
            if !refused && there {
                return bad("not-connected", format!("the bridge did not connect to the server ({:?})", p.state));
            }
            if p.state == PState::Running && there {
                return bad("not-ended", "the bridge could not connect, but goes on");
            }
            return Ok(false);
        }
    };
    let n = &simrt::sim().net.conns[conn];
    let over = n.closed[1] || n.dirs[S2C].fin;
    match &p.state {
        PState::Running if over && n.dirs[S2C].inflight.is_empty() => {
            return bad("not-ended", "the server closed the connection, the bridge goes on");
        }
        PState::Running => (),
        PState::Exited(0) if over => (),
        s if over => return bad("ended-badly", format!("the bridge ended with {:?}", s)),
        s => return bad("ended-early", format!("the bridge ended ({:?}) although the server did not close the connection", s)),
    }

    // from the server to the output
    if !p.out_part.is_empty() {
        return bad("half-line", format!("standard output ends inside of a line: {}", show(&p.out_part)));
    }
    let to_out = &n.dirs[S2C];
    let graceful = over && !to_out.rst;
    if !over && (to_out.rlines.len() < to_out.wlines.len()) || graceful && to_out.eof_seen.is_none() {
        return bad("not-read", format!("the bridge read {} of {} messages", to_out.rlines.len(), to_out.wlines.len()));
    }
    let mut due: Vec<(Value, u64, &[u8])> = Vec::new();
    let mut passed = 0;
    for l in &to_out.rlines {
        let line = if l.bytes.last() == Some(&b'\r') { &l.bytes[..l.bytes.len() - 1] } else { &l.bytes[..] };
        match fact(line) {
            Fact::Undecodable => (),
            f => {
                let v: Value = serde_json::from_slice(line).unwrap();
                if let Fact::Response = f {
                    // an answer has a result or a proper error
                    let e = &v["error"];
                    if !e.is_null() && (!e["code"].is_i64() || !e["message"].is_string()) || e.is_null() && v.get("result").is_none() {
                        return unclear("a response that is neither success nor error");
                    }
                }
                due.push((drop_id(&v), l.step, &l.bytes));
            }
        }
    }
    let rest = over && !to_out.rpart.is_empty();
    for (i, l) in p.out_lines.iter().enumerate() {
        let v: Value = match serde_json::from_slice(&l.bytes) {
            Ok(v) => v,
            Err(e) => return bad("bad-line", format!("line {} of the output is no JSON ({}): {}", i, e, show(&l.bytes))),
        };
        match due.get(i) {
            Some((want, at, line)) => {
                if *want != drop_id(&v) {
                    return bad("wrong-message", format!("message {} {} was passed on as {}", i, show(line), show(&l.bytes)));
                }
                if *at > l.step {
                    return bad("extra-message", format!("line {} of the output was written before its message arrived: {}", i, show(&l.bytes)));
                }
                passed += 1;
            }
            None => {
                let as_rest = rest && i == due.len() && serde_json::from_slice(&to_out.rpart).map_or(false, |x: Value| drop_id(&x) == drop_id(&v));
                if !as_rest {
                    return bad("extra-message", format!("the output has a line no message corresponds to: {}", show(&l.bytes)));
                }
            }
        }
    }
    if p.out_lines.len() < due.len() {
        return bad(
            "lost-message",
            format!("{} messages were received, {} written; first lost: {}", due.len(), p.out_lines.len(), show(due[p.out_lines.len()].2)),
        );
    }

    // from the input to the server
    let wire = &n.dirs[C2S];
    let want: Vec<(Value, &[u8])> = c.sent.iter().filter_map(|l| well_formed(&l.bytes).map(|v| (v, &l.bytes[..]))).collect();
    let lines = if n.procs[1] != 0 && n.procs[1] != pid { &wire.wlines } else { &wire.rlines };
    for (i, l) in lines.iter().enumerate() {
        let v: Value = match serde_json::from_slice(&l.bytes) {
            Ok(v) => v,
            Err(e) => return bad("bad-request", format!("line {} to the server is no JSON ({}): {}", i, e, show(&l.bytes))),
        };
        match want.get(i) {
            Some((x, _)) if *x == norm(&v) => (),
            Some((_, l2)) => return bad("wrong-request", format!("request {} {} was passed on as {}", i, show(l2), show(&l.bytes))),
            // what comes before a read error inside of a line may count as one
            None if i == want.len() && well_formed(c.unsent_part()).map_or(false, |x| x == norm(&v)) => (),
            None => return bad("extra-request", format!("the server was sent a line that was not put in: {}", show(&l.bytes))),
        }
    }
    if !over && !n.stalled[1] {
        if lines.len() < want.len() {
            return bad("lost-request", format!("{} requests were put in, {} passed on; first lost: {}", want.len(), lines.len(), show(want[lines.len()].1)));
        }
        if !wire.rpart.is_empty() {
            return bad("bad-request", format!("the server was sent half a line: {}", show(&wire.rpart)));
        }
    }
    simrt::probe("bridge-judged");
    Ok(passed > 1 && lines.len() > 1)
}
/// A message with a method is a notification, whatever else it contains.
fn drop_id(v: &Value) -> Value {
    let mut o = norm(v);
    if v["method"].is_string() {
        o.as_object_mut().unwrap().remove("id");
    } else {
        o.as_object_mut().unwrap().remove("params");
    }
    o
}
