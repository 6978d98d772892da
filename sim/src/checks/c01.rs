use super::*;
use serde_json::json;

pub const RULE: &str = "2-5 clients send pipelined batches of request lines (valid, unknown method, mistyped or missing parameters, missing or odd ids, not JSON, not UTF-8, empty), cut at random byte positions, with random waits, delays on the wire, half-closes and closes; non-trivial: at least 2 clients got responses and at least one malformed line was answered";

/// What a line must be answered with.
#[derive(Debug)]
pub enum Want {
    /// any answer under this id
    Id(Value),
    /// an error under this id
    ErrId(Value),
    NullErr,
}

/// The expectation is recomputed from the bytes, so that it survives minimisation.
pub fn want(line: &[u8]) -> Want {
    let line = if line.last() == Some(&b'\r') { &line[..line.len() - 1] } else { line };
    let v: Value = match serde_json::from_slice(line) {
        Ok(v) => v,
        Err(_) => return Want::NullErr,
    };
    if std::str::from_utf8(line).is_err() {
        return Want::NullErr;
    }
    let o = match v.as_object() {
        Some(o) => o,
        None => return Want::NullErr,
    };
    let id = match o.get("id") {
        Some(Value::String(s)) => Value::String(s.clone()),
        Some(Value::Number(n)) if n.as_i64().map_or(false, |i| i >= i32::MIN as i64 && i <= i32::MAX as i64) => {
            Value::Number(n.clone())
        }
        Some(Value::Null) => Value::Null,
        _ => return Want::NullErr,
    };
    let m = match (o.get("jsonrpc").and_then(|x| x.as_str()), o.get("method").and_then(|x| x.as_str())) {
        (Some(_), Some(m)) => m,
        _ => return Want::NullErr,
    };
    let p = o.get("params");
    let well_typed = match m {
        "quit" | "view-delete" => true,
        "view" | "view-add" | "view-remove" | "exec" => p.map_or(false, |p| p.is_string()),
        // a list of the fields may be taken for the object
        "edit" | "menu" | "menu-select" if p.map_or(false, |p| p.is_array()) => true,
        "edit" => p.map_or(false, |p| p["name"].is_string() && p["scratch"].is_boolean()),
        "menu" => p.map_or(false, |p| p["command"].is_string() && p["search"].is_string()),
        "menu-select" => p.map_or(false, |p| p["command"].is_string() && p["choice"].is_string()),
        "keys" => p.map_or(false, |p| p.is_array()),
        _ => false,
    };
    if well_typed {
        Want::Id(id)
    } else {
        Want::ErrId(id)
    }
}

pub fn key_json(k: &str) -> Value {
    let mut k = k;
    let (mut c, mut a, mut s) = (false, false, false);
    if k.len() > 2 && k.starts_with("c-") {
        c = true;
        k = &k[2..];
    }
    if k.len() > 2 && k.starts_with("a-") {
        a = true;
        k = &k[2..];
    }
    if k.len() > 2 && k.starts_with("s-") {
        s = true;
        k = &k[2..];
    }
    let key = match k {
        "esc" => json!("Escape"),
        "ret" => json!("Enter"),
        "up" => json!("Up"),
        "down" => json!("Down"),
        "left" => json!("Left"),
        "right" => json!("Right"),
        "bkspc" => json!("Backspace"),
        k => json!({"Char": k}),
    };
    json!({"ctrl": c, "alt": a, "shift": s, "key": key})
}
pub fn keys_json(ks: &[&str]) -> Value {
    Value::Array(ks.iter().map(|k| key_json(k)).collect())
}

pub fn good_request(r: &mut Rng, id: &Value, c: usize) -> String {
    let names = ["alpha", "beta", "c{0}", "dé", "*scratch*", "*messages*"];
    match r.below(12) {
        0 | 1 => req(id, "edit", Some(json!({"name": names[r.below(5)], "scratch": true}))),
        2 => req(id, "view", Some(json!(r.pick(&names)))),
        3 => req(id, "view", Some(json!("nowhere"))),
        4 => req(id, "view-add", Some(json!(r.pick(&names)))),
        5 => req(id, "view-remove", Some(json!(r.pick(&names)))),
        6 => req(id, "view-delete", None),
        7 => {
            let m = *r.pick(&["", "view_select", "view_add", "scratch", "exec", "nomenu"]);
            req(id, "menu", Some(json!({"command": m, "search": *r.pick(&["", "a", "view sel", "zz"])})))
        }
        8 => req(id, "menu-select", Some(json!({"command": *r.pick(&["", "nomenu", "scratch"]), "choice": *r.pick(&["view_select", "exec", "none"])}))),
        9 => req(id, "keys", Some(keys_json(&[*r.pick(&["h", "j", "k", "l", "g", "s-l", "i", "esc", "m", "e", "z"])]))),
        10 => req(id, "exec", Some(json!(format!("editor:message(tonumber(env.client), 'm{}')", c)))),
        _ => req(id, "exec", Some(json!(*r.pick(&["error('no')", "x =", "local a = 1", "editor:append_to('alpha', 'text\\n')"])))),
    }
}

/// A line that has the shape of a request and parts of any kind.
pub fn shaped_line(r: &mut Rng, id: &Value) -> Vec<u8> {
    fn val(r: &mut Rng, depth: usize) -> Value {
        match r.below(if depth > 3 { 8 } else { 11 }) {
            0 => Value::Null,
            1 => json!(r.chance(50)),
            2 => json!(r.below(1000)),
            3 => json!(-1.5),
            4 => json!(""),
            5 => json!(*r.pick(&["x", "alpha", "a\nb", "\u{0}", "日本 é\u{301}", "\"\\"])),
            6 => json!({}),
            7 => json!([]),
            8 => Value::Array((0..r.below(4)).map(|_| val(r, depth + 1)).collect()),
            9 => json!({"name": val(r, depth + 1), "scratch": val(r, depth + 1), "command": val(r, depth + 1), "search": val(r, depth + 1), "choice": val(r, depth + 1)}),
            _ => json!({ "key": val(r, depth + 1), "ctrl": val(r, depth + 1) }),
        }
    }
    let mut fields: Vec<(&str, Value)> = Vec::new();
    if !r.chance(5) {
        fields.push(("jsonrpc", if r.chance(95) { json!("2.0") } else { val(r, 2) }));
    }
    if !r.chance(5) {
        let v = match r.below(14) {
            0 => json!(i32::MAX),
            1 => json!(i32::MIN),
            2 => json!(i32::MAX as i64 + 1),
            3 => json!(0),
            4 => json!(""),
            5 => json!("日é\n\"\u{1}"),
            6 => json!("i".repeat(r.range(1, 3000))),
            7 => Value::Null,
            8 => val(r, 2),
            _ => id.clone(),
        };
        fields.push(("id", v));
    }
    if !r.chance(5) {
        let m = match r.below(12) {
            0 => json!(""),
            1 => json!(*r.pick(&[" ", "View", "view ", "edit\n", "view-", "\u{0}", "nosuch", "menu_select"])),
            2 => json!("m".repeat(r.range(1, 20000))),
            3 => val(r, 2),
            _ => json!(*r.pick(&["view", "view-add", "view-remove", "edit", "menu", "menu-select", "keys", "exec"])),
        };
        fields.push(("method", m));
    }
    if !r.chance(15) {
        let p = match fields.last() {
            Some((_, m)) if r.chance(50) => match m.as_str() {
                Some("edit") => json!({"name": "alpha", "scratch": if r.chance(70) { json!(true) } else { val(r, 2) }}),
                Some("menu") => json!({"command": "", "search": val(r, 2)}),
                Some("menu-select") => json!({"command": val(r, 2), "choice": "nochoice"}),
                _ => val(r, 0),
            },
            _ => val(r, 0),
        };
        // only the named files of the scenario may be opened: none here
        let opens = |p: &Value| p.get("scratch").map_or(false, |s| s == &json!(false));
        if !opens(&p) && !p.is_array() || fields.last().map_or(false, |(_, m)| m == "keys") {
            fields.push(("params", p));
        }
    }
    for _ in 0..r.below(3) {
        let (i, j) = (r.below(fields.len().max(1)), r.below(fields.len().max(1)));
        if !fields.is_empty() {
            fields.swap(i, j);
        }
    }
    if r.chance(10) {
        fields.push((*r.pick(&["extra", "x", ""]), val(r, 2)));
    }
    let sp = *r.pick(&["", "", "", " ", "\t "]);
    let body: Vec<String> = fields.iter().map(|(k, v)| format!("{}{}:{}{}", sp, json!(k), sp, v)).collect();
    let mut line = format!("{}{{{}}}{}", sp, body.join(","), sp);
    if r.chance(5) {
        // something after it, or a part of it only
        if r.chance(50) {
            line.push_str(*r.pick(&["x", "{}", "\u{feff}", ","]));
        } else {
            let n = line.char_indices().map(|(i, _)| i).nth(r.below(line.chars().count())).unwrap_or(0);
            line.truncate(n);
        }
    }
    line.into_bytes()
}

pub fn odd_line(r: &mut Rng, id: &Value) -> Vec<u8> {
    if r.chance(35) {
        for _ in 0..8 {
            let l = shaped_line(r, id);
            if !matches!(want(&l), Want::Id(_)) {
                return l;
            }
        }
    }
    match r.below(19) {
        16 => format!("{}{}", "x".repeat(r.below(40)), "日é".repeat(r.range(20, 300))).into_bytes(),
        17 => format!("\"{}{}\"", "x".repeat(r.below(10)), "🚀".repeat(r.range(20, 300))).into_bytes(),
        18 => req(id, &"né".repeat(r.range(20, 200)), Some(json!("ü".repeat(r.below(200))))).into_bytes(),
        0 => req(id, "nosuch", None).into_bytes(),
        1 => req(id, "nosuch", Some(json!({"a": [1, 2]}))).into_bytes(),
        2 => req(id, "edit", Some(json!({"name": 3}))).into_bytes(),
        3 => req(id, "edit", None).into_bytes(),
        4 => req(id, "view", Some(json!(["x"]))).into_bytes(),
        5 => req(id, "keys", Some(json!("h"))).into_bytes(),
        6 => b"not json".to_vec(),
        7 => b"{\"jsonrpc\":\"2.0\",\"method\":\"quit\"}".to_vec(),
        8 => b"{\"jsonrpc\":\"2.0\",\"id\":{},\"method\":\"quit\"}".to_vec(),
        9 => b"".to_vec(),
        10 => b"[]".to_vec(),
        11 => b"{\"jsonrpc\":\"2.0\",\"id\":7,".to_vec(),
        12 => {
            let mut v = b"\xff\xfe bytes ".to_vec();
            v.push(b'a' + r.below(26) as u8);
            v
        }
        13 => {
            let mut v = b"{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"view\",\"params\":\"".to_vec();
            v.extend_from_slice(b"\xc3\x28\"}");
            v
        }
        14 => format!("{{\"jsonrpc\":\"2.0\",\"id\":{},\"params\":[]}}", id).into_bytes(),
        _ => format!("\u{1F37A} \u{0} {}", "x".repeat(r.below(300))).into_bytes(),
    }
}

pub fn gen(r: &mut Rng, b: &mut PB, thorough: bool) {
    start_server(b);
    b.phase("join");
    let n = r.range(2, if thorough { 6 } else { 4 });
    for c in 0..n {
        b.op(c, Op::Connect { c, session: S.into() });
    }
    let phases = r.range(1, if thorough { 4 } else { 2 });
    let mut left = vec![false; n];
    let mut next = vec![0i64; n];
    for ph in 0..phases {
        b.phase("requests");
        for c in 0..n {
            if left[c] {
                continue;
            }
            let mut buf: Vec<u8> = Vec::new();
            let k = r.below(if thorough { 14 } else { 9 });
            for _ in 0..k {
                next[c] += 1;
                let id = match r.below(5) {
                    0 => json!(format!("c{}-{}", c, next[c])),
                    1 => json!(-(next[c] * 10 + c as i64)),
                    _ => json!(next[c] * 10 + c as i64),
                };
                if r.chance(30) {
                    buf.extend(if r.chance(30) { shaped_line(r, &id) } else { odd_line(r, &id) });
                } else {
                    buf.extend(good_request(r, &id, c).into_bytes());
                }
                if r.chance(10) {
                    buf.push(b'\r');
                }
                buf.push(b'\n');
                if r.chance(15) {
                    send_cut(r, b, c, c, &buf);
                    buf.clear();
                    match r.below(4) {
                        0 => b.op(c, Op::Freeze { c, dir: 0 }).op(c, Op::Nop).op(c, Op::Thaw { c, dir: 0 }),
                        1 => b.op(c, Op::Freeze { c, dir: 1 }).op(c, Op::Nop).op(c, Op::Thaw { c, dir: 1 }),
                        _ => b.op(c, Op::Sync { c }),
                    };
                }
            }
            if c > 0 && r.chance(if ph + 1 == phases { 40 } else { 10 }) {
                left[c] = true;
                if r.chance(30) {
                    buf.extend(b"{\"jsonrpc\":\"2.0\",\"id\":999");
                }
                send_cut(r, b, c, c, &buf);
                if r.chance(20) {
                    b.op(c, Op::Sync { c });
                }
                b.op(c, if r.chance(75) { Op::HalfClose { c } } else if r.chance(50) { Op::Close { c } } else { Op::Reset { c } });
            } else {
                send_cut(r, b, c, c, &buf);
            }
        }
    }
    b.phase("end");
    b.op(0, Op::Send { c: 0, data: (req(&json!("last"), "view", Some(json!("*scratch*"))) + "\n").into() });
    b.op(0, Op::Sync { c: 0 });
}

pub fn judge(w: &mut World) -> Judge {
    no_server_failure(w)?;
    expect_running(w, 0)?;
    let mut answered = 0;
    let mut nullerr = 0;
    for (&k, c) in &w.clients {
        if c.conn.is_none() {
            if w.clients.len() > 1 && c.connect_errno != 0 {
                return bad("connect", format!("client {} could not connect: errno {}", k, c.connect_errno));
            }
            continue;
        }
        only_messages(k, &received(c))?;
        let (n, e) = responses(k, c)?;
        answered += (n > 0) as usize;
        nullerr += e;
    }
    Ok(answered >= 2 && nullerr >= 1)
}

pub fn quits(line: &[u8]) -> bool {
    match serde_json::from_slice::<Value>(line) {
        Ok(v) => {
            matches!(want(line), Want::Id(_))
                && (v["method"] == "quit"
                    || (v["method"] == "menu-select" && v["params"]["command"] == "" && v["params"]["choice"] == "quit"))
        }
        _ => false,
    }
}
