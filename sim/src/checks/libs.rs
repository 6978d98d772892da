//! Users of the client library in front of a scripted or the real server.
use super::*;
use crate::plan::Op;
use serde_json::json;
use simrt::net::{C2S, S2C};
use std::collections::BTreeSet;

pub fn rule(id: &str) -> &'static str {
    match id {
        "C11" => "a user of the library calls it from one thread and reads events on another (preempted between basic blocks) while a scripted server sends valid, unknown, mistyped and undecodable messages in any pieces, stops reading, closes or resets, or while the real server works with other clients; events and states must equal a fold over the lines consumed, the requests on the wire the calls made; non-trivial: at least five notifications and two requests",
        _ => "menus of 0-6 entries and prompts arrive while the user moves, cancels and confirms, preempted between basic blocks; some merge of the calls and the arrivals must explain every state and every selection on the wire; non-trivial: a selection was sent and a menu arrived after an action",
    }
}

const LIB: usize = 10;

// ------------------------------------------------------------ generation

fn word(r: &mut Rng) -> String {
    (*r.pick(&["a", "word", "two words", "é", "e\u{301}x", "日本", "\u{1f468}\u{200d}\u{1f469}", "", "q\"uo\\te", "tab\there", "line\nbreak", "{}", "\u{0}", "\u{2028}"]))
        .to_string()
}
fn number(r: &mut Rng) -> usize {
    *r.pick(&[127, 128, 200, 255, 256, 300, 32_767, 32_768, 65_535, 65_536, 100_000, 2_147_483_647])
}
pub fn text(r: &mut Rng) -> Value {
    let n = if r.chance(1) { r.range(3, 20) } else { r.below(3) };
    Value::Array(
        (0..n)
            .map(|_| {
                let f = *r.pick(&["Default", "Error", "Match", "Prompt", "Selection"]);
                let t = if r.chance(3) { "long ".repeat(1 + r.below(2500)) } else { word(r) };
                json!({"text": t, "face": f})
            })
            .collect(),
    )
}
fn menu(r: &mut Rng, k: usize) -> Value {
    let n = if r.chance(4) { r.range(7, 40) } else { r.below(7) };
    let mut e: Vec<Value> = (0..n)
        .map(|i| json!({"value": if r.chance(8) { word(r) } else { format!("m{}-{}{}", k, i, word(r)) }, "text": text(r), "description": if r.chance(50) { json!(word(r)) } else { Value::Null }}))
        .collect();
    if n > 0 && r.chance(25) {
        // a prompt offers what was typed
        let i = if r.chance(70) { 0 } else { r.below(n) };
        e[i]["value"] = json!("");
    }
    if r.chance(15) {
        for x in e.iter_mut() {
            x.as_object_mut().unwrap().remove("description");
        }
    }
    let command = if r.chance(40) { (*r.pick(&["", "open", "view_select", "exec", "scratch"])).into() } else { format!("cmd{}", k) };
    let search = match r.below(8) {
        0 => String::new(),
        1 => word(r),
        2 => (*r.pick(&["x", "-", "é", " ", "0"])).into(),
        _ => format!("typed{}{}", k, word(r)),
    };
    json!({"command": command, "title": word(r), "search": search, "entries": e})
}
fn view(r: &mut Rng) -> Value {
    let lens = |r: &mut Rng| json!({"lines": (0..some(r, 4)).map(|_| text(r)).collect::<Vec<_>>(), "first_line_num": if r.chance(80) { r.below(100) } else { number(r) }});
    let item = |r: &mut Rng| json!({"buffer": word(r), "start": r.below(50), "end": if r.chance(80) { r.below(90) } else { number(r) }, "lenses": (0..some(r, 3)).map(|_| lens(r)).collect::<Vec<_>>()});
    Value::Array((0..some(r, 4)).map(|_| item(r)).collect())
}
fn params(r: &mut Rng, m: &str, k: usize) -> Value {
    match m {
        "echo" => text(r),
        "hint" => json!({"text": (0..some(r, 4)).map(|_| text(r)).collect::<Vec<_>>()}),
        "info" => json!({"client": format!("{}", k), "session": word(r), "cwd": word(r)}),
        "menu" => menu(r, k),
        "status" => Value::Array((0..some(r, 4)).map(|i| json!({"index": if r.chance(80) { i as i64 - 1 } else { number(r) as i64 * if r.chance(30) { -1 } else { 1 } }, "text": text(r)})).collect()),
        _ => view(r),
    }
}
const METHODS: [&str; 6] = ["echo", "hint", "info", "menu", "status", "view"];

/// Mostly short.
fn some(r: &mut Rng, n: usize) -> usize {
    if r.chance(3) {
        r.range(n, 30)
    } else {
        r.below(n)
    }
}

/// One line (without its end) of a server, not always a nice one.
pub fn message(r: &mut Rng, k: usize, menus: bool) -> Vec<u8> {
    let kind = r.below(100);
    let m = if menus && r.chance(75) { "menu" } else { METHODS[r.below(6)] };
    if kind < 76 || menus && kind < 90 {
        let mut o = json!({"jsonrpc": "2.0", "method": m, "params": params(r, m, k)});
        if r.chance(5) {
            o["more"] = json!([1, {"x": null}]);
        }
        return o.to_string().into_bytes();
    }
    match r.below(10) {
        0 => json!({"jsonrpc": "2.0", "method": m}).to_string().into_bytes(),
        1 => json!({"jsonrpc": "2.0", "method": m, "params": null}).to_string().into_bytes(),
        2 => {
            let p = [json!(7), json!("text"), json!({"text": 3}), json!([{"text": 3, "face": "Error"}]), json!([{"text": "x", "face": "Nope"}]), json!({"client": 1}), json!([[1]])];
            json!({"jsonrpc": "2.0", "method": m, "params": p[r.below(p.len())]}).to_string().into_bytes()
        }
        3 => json!({"jsonrpc": "2.0", "method": *r.pick(&["", "views", "Echo", "edit", "menu "]), "params": params(r, m, k)}).to_string().into_bytes(),
        4 => json!({"jsonrpc": "2.0", "id": k, "result": null}).to_string().into_bytes(),
        5 => json!({"jsonrpc": "2.0", "id": k, "error": {"code": -3, "message": word(r), "data": word(r)}}).to_string().into_bytes(),
        6 => b"\xff\xfe{\"jsonrpc\"".to_vec(),
        7 => {
            let mut l = json!({"jsonrpc": "2.0", "method": m, "params": params(r, m, k)}).to_string().into_bytes();
            l.truncate(l.len() / 2);
            if std::str::from_utf8(&l).is_err() {
                l = b"{".to_vec();
            }
            l
        }
        8 => r.pick(&["", "null", "42", "garbage", "{}", "[]", "{\"method\":\"echo\"}", "\"s\""]).as_bytes().to_vec(),
        _ => {
            // broken inside of a string
            let mut l = json!({"jsonrpc": "2.0", "method": "echo", "params": [{"text": "AB", "face": "Error"}]}).to_string().into_bytes();
            let i = l.iter().position(|b| *b == b'A').unwrap();
            l[i] = 0xc3;
            l
        }
    }
}

fn key(r: &mut Rng) -> String {
    let k = *r.pick(&["a", "x", "é", ",", "esc", "J", "日", "-", "c", "s"]);
    let m = *r.pick(&["", "", "", "c-", "a-", "s-", "c-a-", "c-s-", "c-a-s-"]);
    format!("{}{}", m, k)
}
fn call(r: &mut Rng, menus: bool) -> LibCall {
    if menus && r.chance(85) {
        return match r.below(11) {
            0..=2 => LibCall::Next,
            3 | 4 => LibCall::Prev,
            5 => LibCall::Cancel,
            6..=8 => LibCall::Select,
            _ => LibCall::State,
        };
    }
    match r.below(12) {
        0 => LibCall::Edit { name: word(r), scratch: r.chance(50) },
        1 => LibCall::Menu { command: word(r), search: word(r) },
        2 | 3 => LibCall::Keys { keys: (0..r.below(4)).map(|_| key(r)).collect() },
        4 | 5 => LibCall::Exec { source: if r.chance(10) { "x".repeat(1 + r.below(9000)) } else { word(r) } },
        6 => LibCall::Next,
        7 => LibCall::Select,
        8 => LibCall::Cancel,
        _ => LibCall::State,
    }
}
fn real_call(r: &mut Rng, menus: bool) -> LibCall {
    if menus && r.chance(80) {
        return match r.below(12) {
            0..=2 => LibCall::Next,
            3 => LibCall::Prev,
            4 => LibCall::Cancel,
            5..=7 => LibCall::Select,
            8..=10 => LibCall::Menu { command: (*r.pick(&["", "", "open", "view", "nope", "view_select", "view_add", "exec", "scratch", "scratch"])).into(), search: (*r.pick(&["", "o", "sc", "zzz", "s", "x"])).into() },
            _ => LibCall::State,
        };
    }
    match r.below(8) {
        0 => LibCall::Edit { name: (*r.pick(&["one", "two"])).into(), scratch: true },
        1 => LibCall::Menu { command: (*r.pick(&["", "open", "view_select"])).into(), search: (*r.pick(&["", "o"])).into() },
        2 | 3 => LibCall::Keys { keys: (0..r.below(4)).map(|_| (*r.pick(&["j", "l", "s-l", "esc", "é", "v"])).to_string()).collect() },
        4 | 5 => LibCall::Exec { source: (*r.pick(&["editor:message(tonumber(env.client), 'hello')", "error('no')", "editor:append_current('text ')"])).into() },
        _ => LibCall::State,
    }
}

pub fn gen(id: &str, r: &mut Rng, b: &mut PB, thorough: bool) {
    let menus = id == "C12";
    b.plan.cfg.preempt = *r.pick(&[0, 20, 20, 200]);
    let real = r.chance(25);
    let phases = r.range(1, if thorough { 6 } else { 4 });
    let mut calls = vec![LibCall::Connect];
    let mut plan: Vec<usize> = Vec::new();
    for _ in 0..phases {
        calls.push(LibCall::Pause);
        let n = if r.chance(2) {
            // a long series
            b.plan.cfg.chunking = false;
            b.plan.cfg.max_steps = 2_000_000;
            r.range(60, 300)
        } else { r.below(if thorough { 14 } else { 9 }) };
        for _ in 0..n {
            let c = if real { real_call(r, menus) } else { call(r, menus) };
            calls.push(c);
        }
        plan.push(n);
    }
    if r.chance(20) {
        calls.push(LibCall::Quit);
    }
    calls.push(LibCall::Pause);
    calls.push(LibCall::State);
    if real {
        start_server(b);
        b.phase("join");
        b.op(900, Op::Lib { slot: LIB, session: S.into(), calls });
        let others = r.below(3);
        for c in 0..others {
            b.op(c, Op::Connect { c, session: S.into() });
            b.op(c, Op::Sync { c });
        }
        let mut id = 0;
        for _ in 0..phases {
            b.phase("work");
            b.op(902, Op::Go { slot: LIB });
            for c in 0..others {
                for _ in 0..r.below(4) {
                    id += 1;
                    let q = match r.below(4) {
                        0 => req(&json!(id), "edit", Some(json!({"name": "one", "scratch": true}))),
                        1 => req(&json!(id), "exec", Some(json!("editor:append_current('more ')"))),
                        2 => req(&json!(id), "view", Some(json!("one"))),
                        _ => req(&json!(id), "keys", Some(c01::keys_json(&["l", "s-l"]))),
                    };
                    send_cut(r, b, c, c, format!("{}\n", q).as_bytes());
                }
            }
            if r.chance(10) {
                b.op(903, Op::KillServer { session: S.into() });
                b.plan.cfg.preempt = 0;
            }
        }
        b.phase("last");
        b.op(902, Op::Go { slot: LIB });
        return;
    }
    b.phase("start");
    b.op(900, Op::Listen { session: S.into() });
    if r.chance(3) {
        b.op(900, Op::ConnErr { errno: *r.pick(&[libc::ECONNREFUSED, libc::EAGAIN]) });
    }
    b.op(900, Op::Lib { slot: LIB, session: S.into(), calls });
    if r.chance(10) {
        // nothing has been asked yet
        let m = message(r, 0, menus);
        let mut m = m;
        m.push(b'\n');
        b.op(901, Op::SrvSend { session: S.into(), n: 0, data: Data(m) });
    }
    let end_in = if r.chance(45) { r.below(phases) } else { phases };
    let mut k = 1;
    for ph in 0..phases {
        b.phase("work");
        b.op(902, Op::Go { slot: LIB });
        if r.chance(15) {
            b.op(903, Op::SrvStall { session: S.into(), n: 0 });
            if r.chance(60) {
                b.op(903, Op::SrvUnstall { session: S.into(), n: 0 });
            }
        }
        let mut buf = Vec::new();
        for _ in 0..r.below(if menus { 5 } else { 8 }) {
            k += 1;
            buf.extend(message(r, k, menus));
            if r.chance(5) {
                buf.push(b'\r');
            }
            buf.push(b'\n');
        }
        let ends = ph == end_in;
        if ends && r.chance(40) {
            let m = json!({"jsonrpc": "2.0", "method": "echo", "params": text(r)}).to_string().into_bytes();
            buf.extend(&m[..1 + r.below(m.len() - 1)]);
        }
        let mut rest = &buf[..];
        while !rest.is_empty() {
            let n = if r.chance(40) { rest.len() } else { 1 + r.below(rest.len().min(300)) };
            b.op(901, Op::SrvSend { session: S.into(), n: 0, data: Data(rest[..n].to_vec()) });
            rest = &rest[n..];
            if r.chance(8) {
                b.op(901, Op::SrvWait { session: S.into(), n: 0, lines: 1 });
            }
        }
        if ends {
            b.op(901, Op::SrvClose { session: S.into(), n: 0, reset: r.chance(40) });
        }
    }
    b.phase("last");
    if r.chance(70) {
        b.op(903, Op::SrvUnstall { session: S.into(), n: 0 });
    }
    b.op(902, Op::Go { slot: LIB });
}

// --------------------------------------------------------------- judging

fn is_text(v: &Value) -> bool {
    v.as_array().map_or(false, |a| {
        a.iter().all(|f| f["text"].is_string() && matches!(f["face"].as_str(), Some("Default" | "Error" | "Match" | "Prompt" | "Selection")))
    })
}
fn all<F: Fn(&Value) -> bool>(v: &Value, f: F) -> bool {
    v.as_array().map_or(false, |a| a.iter().all(f))
}
fn known(m: &str, p: &Value) -> bool {
    match m {
        "echo" => is_text(p),
        "hint" => all(&p["text"], is_text),
        "info" => p["client"].is_string() && p["session"].is_string() && p["cwd"].is_string(),
        "menu" => {
            p["command"].is_string()
                && p["title"].is_string()
                && p["search"].is_string()
                && all(&p["entries"], |e| e["value"].is_string() && is_text(&e["text"]) && (e["description"].is_null() || e["description"].is_string()))
        }
        "status" => all(p, |i| i["index"].is_i64() && is_text(&i["text"])),
        "view" => all(p, |i| {
            i["buffer"].is_string()
                && i["start"].is_u64()
                && i["end"].is_u64()
                && all(&i["lenses"], |l| l["first_line_num"].is_u64() && all(&l["lines"], is_text))
        }),
        _ => false,
    }
}
/// What a line is to the library.
#[derive(Clone, Debug)]
pub enum Fact {
    /// nothing to the state; may be reported as an error
    Other,
    Response,
    Undecodable,
    Known(String, Value),
}
pub fn fact(line: &[u8]) -> Fact {
    let v: Value = match std::str::from_utf8(line).ok().and_then(|s| serde_json::from_str(s).ok()) {
        Some(v) => v,
        None => return Fact::Undecodable,
    };
    if !v.is_object() || !v["jsonrpc"].is_string() {
        return Fact::Undecodable;
    }
    match v["method"].as_str() {
        Some(m) if known(m, &v["params"]) => Fact::Known(m.into(), v["params"].clone()),
        Some(_) => Fact::Other,
        None => match v["id"] {
            Value::Null | Value::String(_) => Fact::Response,
            Value::Number(ref n) if n.as_i64().map_or(false, |n| n as i32 as i64 == n) => Fact::Response,
            _ => Fact::Undecodable,
        },
    }
}
pub fn norm_menu(p: &Value, selected: usize) -> Value {
    let e: Vec<Value> = p["entries"]
        .as_array()
        .unwrap()
        .iter()
        .map(|e| json!({"value": e["value"], "text": norm_text(&e["text"]), "description": e["description"]}))
        .collect();
    json!({"command": p["command"], "title": p["title"], "search": p["search"], "selected": selected, "entries": e})
}
fn norm_text(t: &Value) -> Value {
    Value::Array(t.as_array().unwrap().iter().map(|f| json!({"text": f["text"], "face": f["face"]})).collect())
}
pub fn norm(m: &str, p: &Value) -> Value {
    let map = |v: &Value, f: &dyn Fn(&Value) -> Value| Value::Array(v.as_array().unwrap().iter().map(f).collect());
    match m {
        "echo" => norm_text(p),
        "hint" => json!({"text": map(&p["text"], &norm_text)}),
        "status" => map(p, &|i| json!({"index": i["index"], "text": norm_text(&i["text"])})),
        "view" => map(p, &|i| {
            json!({"buffer": i["buffer"], "start": i["start"], "end": i["end"], "lenses": map(&i["lenses"], &|l| {
                json!({"first_line_num": l["first_line_num"], "lines": map(&l["lines"], &norm_text)})
            })})
        }),
        _ => p.clone(),
    }
}
fn event_of(m: &str, p: &Value) -> Value {
    match m {
        "info" => json!(["info", p["client"], p["session"]]),
        "menu" => json!(["menu", norm_menu(p, 0)]),
        m => json!([m, norm(m, p)]),
    }
}
fn brief(v: &Value) -> String {
    vstr(v)
}

/// Everything but the menu after the first `n` lines.
fn fold(facts: &[Fact], n: usize) -> Value {
    let mut s = json!({"client": "", "session": "", "echo": null, "status": [], "view": []});
    for f in &facts[..n] {
        if let Fact::Known(m, p) = f {
            match m.as_str() {
                "info" => {
                    s["client"] = p["client"].clone();
                    s["session"] = p["session"].clone();
                }
                "menu" => s["echo"] = Value::Null,
                "hint" => {}
                m => s[m] = norm(m, p),
            }
        }
    }
    s
}

fn key_json(k: &str) -> Value {
    let mut s = k;
    let mut has = |p: &str| {
        let h = s.starts_with(p);
        if h {
            s = &s[2..];
        }
        h
    };
    let (c, a, sh) = (has("c-"), has("a-"), has("s-"));
    let key = if s == "esc" { json!("Escape") } else { json!({"Char": s}) };
    json!({"ctrl": c, "alt": a, "shift": sh, "key": key})
}

/// The request a call makes.
fn request_of(c: &Value) -> Option<(&'static str, Value)> {
    Some(match c[0].as_str().unwrap_or("") {
        "quit" => ("quit", Value::Null),
        "edit" => ("edit", json!({"name": c[1], "scratch": c[2]})),
        "menu" => ("menu", json!({"command": c[1], "search": c[2]})),
        "keys" => ("keys", Value::Array(c[1].as_array().unwrap().iter().map(|k| key_json(k.as_str().unwrap())).collect())),
        "exec" => ("exec", c[1].clone()),
        _ => return None,
    })
}

pub struct Wire {
    pub method: String,
    pub params: Value,
}
/// Requests on a connection: whole, well formed, each with an identity of its own.
pub fn wire(conn: usize, who: &str) -> Result<Vec<Wire>, Fail> {
    let mut ids: Vec<Value> = Vec::new();
    let mut out = Vec::new();
    for l in &simrt::sim().net.conns[conn].dirs[C2S].rlines {
        let v: Value = match serde_json::from_slice(&l.bytes) {
            Ok(v) => v,
            Err(e) => return bad("bad-request", format!("{} sent a line that is no JSON ({}): {}", who, e, show(&l.bytes))),
        };
        if v["jsonrpc"] != "2.0" || !v["method"].is_string() || v.get("id").map_or(true, |i| i.is_null()) {
            return bad("bad-request", format!("{} sent a line that is no request: {}", who, show(&l.bytes)));
        }
        if ids.contains(&v["id"]) {
            return bad("id-reused", format!("{} used the id {} twice: {}", who, v["id"], show(&l.bytes)));
        }
        ids.push(v["id"].clone());
        out.push(Wire { method: v["method"].as_str().unwrap().into(), params: v["params"].clone() });
    }
    Ok(out)
}

type Shown = Option<(usize, usize)>;

pub fn judge(id: &str, w: &mut World) -> Judge {
    no_server_failure(w)?;
    let recs = match w.lib.get(&LIB) {
        Some(r) => r.clone(),
        None => return unclear("no library user"),
    };
    let pid = match w.slots.get(&LIB) {
        Some(p) => *p,
        None => return unclear("no library user"),
    };
    // the caller is never blocked
    for (i, b) in w.barriers.iter().enumerate() {
        let last = recs.iter().rev().find(|r| r.step <= b.step && !matches!(r.what.as_str(), "event" | "events-end" | "requests-end" | "event-flood"));
        if let Some(l) = last {
            if l.what != "pause" && l.what != "end" {
                return bad("caller-blocked", format!("at the end of phase {} the caller was still in {} {}", i, l.what, brief(&l.val)));
            }
        }
    }
    if recs.iter().any(|r| r.what == "event-flood") {
        return bad("event-flood", "the event stream goes on and on without anything received");
    }
    if !recs.iter().any(|r| r.what == "connected") {
        return Ok(false);
    }
    let conn = match simrt::sim().net.conns.iter().rposition(|c| c.procs[0] == pid) {
        Some(c) => c,
        None => return unclear("no connection"),
    };
    let c = &simrt::sim().net.conns[conn];
    let lines = &c.dirs[S2C].rlines;
    let mut facts: Vec<Fact> = lines.iter().map(|l| fact(&l.bytes)).collect();
    let over = c.closed[1] || c.dirs[S2C].fin;
    // what came last without the end of its line may count as a line
    let rest = over && !c.dirs[S2C].rpart.is_empty();
    if rest {
        facts.push(fact(&c.dirs[S2C].rpart));
    }
    let mut rest_at = None;
    let events: Vec<&LibRec> = recs.iter().filter(|r| r.what == "event").collect();

    // events
    for (i, e) in events.iter().enumerate() {
        let kind = e.val[0].as_str().unwrap_or("");
        if i >= lines.len() {
            // a rest without end, the failure of the connection
            if over && i - lines.len() < 3 {
                if kind == "err" {
                    continue;
                }
                let as_rest = match facts.last() {
                    Some(Fact::Known(m, p)) => e.val == event_of(m, p),
                    Some(Fact::Undecodable) | None => false,
                    Some(_) => kind == "noop",
                };
                if rest && rest_at.is_none() && as_rest {
                    rest_at = Some(e.step);
                    continue;
                }
            }
            return bad("extra-event", format!("event {} {} corresponds to no message ({} received)", i, brief(&e.val), lines.len()));
        }
        if lines[i].step > e.step {
            return bad("extra-event", format!("event {} {} was reported before its message arrived", i, brief(&e.val)));
        }
        let ok = match &facts[i] {
            Fact::Known(m, p) => e.val == event_of(m, p),
            Fact::Other => kind == "noop" || kind == "err",
            Fact::Response => kind == "noop",
            Fact::Undecodable => kind == "err",
        };
        if !ok {
            return bad("wrong-event", format!("message {} {} was reported as {}", i, show(&lines[i].bytes), brief(&e.val)));
        }
    }
    if events.len() < lines.len() {
        return bad("missing-event", format!("{} messages were received, {} reported; first missing: {}", lines.len(), events.len(), show(&lines[events.len()].bytes)));
    }
    let ended = recs.iter().any(|r| r.what == "events-end");
    if over {
        let told = ended || events.iter().skip(lines.len()).any(|e| e.val[0] == "err");
        if !told {
            return bad("end-unnoticed", "the connection is over, but the event stream neither ended nor reported an error");
        }
    } else {
        if ended {
            return bad("stream-ended", "the event stream ended although the connection is up");
        }
        if !c.dirs[S2C].ready.is_empty() {
            return bad("not-read", format!("{} bytes wait to be read by an idle event stream", c.dirs[S2C].ready.len()));
        }
    }

    // requests and states: some merge of the calls and the messages explains all
    let wire = wire(conn, "the library")?;
    let healthy = !c.closed[1] && !c.dirs[C2S].broken && !c.stalled[1];
    if healthy && !c.dirs[C2S].rpart.is_empty() {
        return bad("bad-request", format!("the library sent an incomplete line: {}", show(&c.dirs[C2S].rpart)));
    }
    let low = |step: u64| match rest_at {
        Some(at) if at < step => facts.len(),
        _ => events.iter().filter(|e| e.step < step).count().min(lines.len()),
    };
    let high = |step: u64| {
        let n = lines.iter().filter(|l| l.step <= step).count();
        if n == lines.len() {
            facts.len()
        } else {
            n
        }
    };
    let folds: Vec<Value> = (0..=facts.len()).map(|n| fold(&facts, n)).collect();
    let shown = |m: &Shown| match m {
        None => Value::Null,
        Some((i, s)) => match &facts[*i] {
            Fact::Known(_, p) => norm_menu(p, *s),
            _ => Value::Null,
        },
    };
    let mut set: BTreeSet<(usize, Shown, usize)> = BTreeSet::new();
    set.insert((0, None, 0));
    let main: Vec<&LibRec> = recs.iter().filter(|r| matches!(r.what.as_str(), "call" | "did" | "state")).collect();
    let mut acted = None;
    let mut mixed = false;
    let mut selections = 0;
    let mut i = 0;
    while i < main.len() {
        let r = main[i];
        let name = r.val[0].as_str().unwrap_or("");
        let req = request_of(&r.val);
        let fin = if req.is_some() {
            r
        } else {
            match main.get(i + 1) {
                Some(x) if x.what != "call" => {
                    i += 1;
                    x
                }
                _ => return bad("caller-blocked", format!("the call {} never returned", name)),
            }
        };
        i += 1;
        if let Some(q) = &req {
            let mut next = BTreeSet::new();
            for (n, m, k) in &set {
                if wire.get(*k).map_or(!healthy, |x| x.method == q.0 && x.params == q.1) {
                    next.insert((*n, *m, k + 1));
                }
            }
            if next.is_empty() {
                let k = set.iter().map(|x| x.2).max().unwrap();
                return bad(
                    "wrong-request",
                    format!("the call {} should be request {} on the wire; there is {}", brief(&r.val), k, wire.get(k).map_or("nothing".into(), |x| format!("{} {}", x.method, brief(&x.params)))),
                );
            }
            set = next;
            continue;
        }
        let (lo, hi) = (low(r.step), high(fin.step));
        let mut next = BTreeSet::new();
        for (n0, m0, k) in &set {
            let mut m = *m0;
            for n in *n0..=hi.max(*n0) {
                if n > *n0 {
                    if let Fact::Known(x, _) = &facts[n - 1] {
                        if x == "menu" {
                            m = Some((n - 1, 0));
                        }
                    }
                }
                if n < lo {
                    continue;
                }
                let len = |i: usize| match &facts[i] {
                    Fact::Known(_, p) => p["entries"].as_array().unwrap().len(),
                    _ => 0,
                };
                match name {
                    "next" => {
                        let m2 = m.map(|(i, s)| (i, if s + 1 < len(i) { s + 1 } else { s }));
                        next.insert((n, m2, *k));
                    }
                    "prev" => {
                        next.insert((n, m.map(|(i, s)| (i, s.saturating_sub(1))), *k));
                    }
                    "cancel" => {
                        next.insert((n, None, *k));
                    }
                    "select" => match m {
                        Some((i, s)) if s < len(i) => {
                            if let Fact::Known(_, p) = &facts[i] {
                                let v = &p["entries"][s]["value"];
                                let choice = if v == "" { &p["search"] } else { v };
                                let want = json!({"command": p["command"], "choice": choice});
                                if wire.get(*k).map_or(!healthy, |x| x.method == "menu-select" && x.params == want) {
                                    next.insert((n, None, k + 1));
                                }
                            }
                        }
                        m => {
                            next.insert((n, m, *k));
                        }
                    },
                    "state" => {
                        let mut s = folds[n].clone();
                        s["menu"] = shown(&m);
                        if s == fin.val {
                            next.insert((n, m, *k));
                        }
                    }
                    _ => {}
                }
            }
        }
        if next.is_empty() {
            let was: Vec<String> = set.iter().take(4).map(|(n, m, k)| format!("{} messages applied, menu {:?}, {} requests made", n, m, k)).collect();
            return bad(
                if name == "state" { "wrong-state" } else { "wrong-selection" },
                format!(
                    "the result of {} (step {}..{}) is explained by no merge of calls and messages {}..{}; {}; before: {:?}; wire: {:?}",
                    name,
                    r.step,
                    fin.step,
                    lo,
                    hi,
                    brief(&fin.val),
                    was,
                    wire.iter().map(|x| format!("{} {}", x.method, brief(&x.params))).collect::<Vec<_>>()
                ),
            );
        }
        set = next;
        if name != "state" {
            if let Some(a) = acted {
                mixed |= facts.iter().zip(lines.iter()).any(|(f, l)| l.step > a && l.step <= r.step && matches!(f, Fact::Known(m, _) if m == "menu"));
            }
            acted = Some(fin.step);
        }
    }
    for x in &wire {
        selections += (x.method == "menu-select") as usize;
    }
    if !set.iter().any(|x| if healthy { x.2 == wire.len() } else { x.2 >= wire.len() }) {
        let k = set.iter().map(|x| x.2).max().unwrap();
        return bad("extra-request", format!("{} requests are explained by the calls, {} are on the wire; then {}", k, wire.len(), wire.get(k).map_or("".into(), |x| format!("{} {}", x.method, brief(&x.params)))));
    }
    let told = facts.iter().filter(|f| matches!(f, Fact::Known(..))).count();
    Ok(if id == "C12" { selections > 0 && mixed } else { told >= 5 && wire.len() >= 2 })
}
