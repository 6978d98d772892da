use super::c01::{self, good_request, odd_line};
use super::*;
use serde_json::json;

pub const RULE: &str = "1-3 well-behaved clients work while 1-4 others misbehave: garbage, non-UTF-8, oversized and unterminated lines, deeply nested or mistyped JSON, failing scripts, requests after quitting, close, half-close or reset at random bytes, never reading while causing output, connecting and leaving at once, failing accepts; non-trivial: a faulty party acted, and well-behaved clients were answered in the same phase";

const GOOD: usize = 10;

pub fn nasty(r: &mut Rng, id: &Value, c: usize) -> Vec<u8> {
    match r.below(22) {
        0 => {
            let n = 1 + r.below(4000);
            (0..n).map(|_| (r.below(256) as u8)).filter(|b| *b != b'\n').collect()
        }
        1 => {
            let d = 1 + r.below(400);
            format!("{}{}", "[".repeat(d), "]".repeat(d)).into_bytes()
        }
        2 => {
            let d = 1 + r.below(300);
            format!("{{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"view\",\"params\":{}{}}}", "{\"a\":".repeat(d), "1".to_string() + &"}".repeat(d)).into_bytes()
        }
        3 => format!("{{\"jsonrpc\":\"2.0\",\"id\":99999999999999999999,\"method\":\"quit\"}}").into_bytes(),
        4 => req(id, "keys", Some(json!([{"ctrl": true, "alt": false, "shift": false, "key": {"Char": "é"}}, {"key": "Nope"}]))).into_bytes(),
        5 => req(id, "keys", Some(json!([]))).into_bytes(),
        6 => req(id, "menu", Some(json!({"command": "", "search": *r.pick(&["(", "[", "*", "\\", "(?", "a{999999999}", "\u{0}", "...", "^$", "é"])}))).into_bytes(),
        7 => req(id, "menu-select", Some(json!({"command": *r.pick(&["open", "view_select", "view_delete", "", "nope"]), "choice": *r.pick(&["", "/", "..", "quit ", "\u{0}"])}))).into_bytes(),
        8 => req(id, "exec", Some(json!(*r.pick(&[
            "editor:view(0, 'x')", "editor:edit(9999999, 'a', true)", "editor:message(-1, 'x')", "editor:menu('x', 'y', 'z')",
            "editor:delete_view()", "editor:nosuch()", "editor.x.y = 1", "error({})", "error(nil)", "return nil", "return", "editor:append_to(nil, nil)",
            "local t = setmetatable({}, {__index = function() error('deep') end}); local x = t.a", "editor:status(1, 5)", "string.rep('x', -1)",
            "editor:view(1e300, 'x')", "editor:edit(tonumber(env.client), 'a\\0b', true)", "(function() error('\\255\\254') end)()", "editor:message(tonumber(env.client), '\\255')",
            "x = ", "]]", "\u{0}", "",
        ])))).into_bytes(),
        9 => req(id, "edit", Some(json!({"name": *r.pick(&["", "/", ".", "/nonexistent/x", "a/b/c", "\u{0}", "/sim/work", "~"]), "scratch": r.chance(30)}))).into_bytes(),
        10 => req(id, "edit", Some(json!({"name": "x".repeat(r.below(6000)), "scratch": r.chance(50)}))).into_bytes(),
        11 => req(id, *r.pick(&["view", "view-add", "view-remove"]), Some(json!(*r.pick(&["", "{", "}", "a|b", "*debug*", "*scratch*", "\u{0}", "🍺"])))).into_bytes(),
        12 => req(id, "view-delete", None).into_bytes(),
        13 => req(id, "quit", Some(json!([1]))).into_bytes(),
        14 => {
            let m = "m".repeat(r.below(9000));
            req(id, &m, None).into_bytes()
        }
        15 => req(id, "exec", Some(json!(format!("for i = 1, {} do editor:message(tonumber(env.client), 'noise {}') end", 1 + r.below(60), c)))).into_bytes(),
        16 => req(id, "exec", Some(json!(format!("for i = 1, {} do editor:append_to('*noise*', 'noise\\n') end", 1 + r.below(30))))).into_bytes(),
        17 | 18 => odd_line(r, id),
        _ => good_request(r, id, c).into_bytes(),
    }
}

pub fn gen(r: &mut Rng, b: &mut PB, thorough: bool) {
    if r.chance(40) {
        b.plan.cfg.sock_cap = *r.pick(&[300, 700, 4096]);
    }
    start_server(b);
    b.phase("join");
    let good = r.range(1, 3);
    let bad = r.range(1, if thorough { 4 } else { 3 });
    for c in 0..good {
        b.op(c, Op::Connect { c, session: S.into() });
    }
    let mut next = vec![0i64; good];
    let mut badconn: Vec<usize> = Vec::new();
    let mut conns = GOOD;
    let mut much = false;
    let phases = r.range(1, if thorough { 4 } else { 2 });
    for _ in 0..phases {
        b.phase("chaos");
        for c in 0..good {
            for _ in 0..r.below(5) {
                next[c] += 1;
                let id = json!(next[c] * 10 + c as i64);
                let line = loop {
                    let l = good_request(r, &id, c);
                    if !super::c01::quits(l.as_bytes()) {
                        break l;
                    }
                };
                send_cut(r, b, c, c, (line + "\n").as_bytes());
                if r.chance(30) {
                    b.op(c, Op::Sync { c });
                }
            }
        }
        for k in 0..bad {
            // the faulty actor uses one connection after the other
            let actor = 100 + k;
            for _ in 0..r.range(1, 3) {
                let old = if badconn.is_empty() || r.chance(60) { None } else { Some(*r.pick(&badconn)) };
                let c = match old {
                    Some(c) if c % bad == k => c,
                    _ => {
                        conns += 1;
                        while conns % bad != k {
                            conns += 1;
                        }
                        if r.chance(15) {
                            for _ in 0..r.range(1, 3) {
                                b.op(actor, Op::AcceptErr { session: S.into(), errno: *r.pick(&[libc::EMFILE, libc::ECONNABORTED, libc::EINTR, libc::ENFILE, libc::ENOMEM]) });
                            }
                        }
                        b.op(actor, Op::Connect { c: conns, session: S.into() });
                        badconn.push(conns);
                        conns
                    }
                };
                if r.chance(30) {
                    b.op(actor, Op::Stall { c });
                }
                let mut buf = Vec::new();
                if !much && r.chance(3) {
                    // one request that has very much to tell
                    much = true;
                    let k = *r.pick(&["l", "esc", "a-i"]);
                    let n = r.range(200, 1400);
                    buf.extend(req(&json!(999), "keys", Some(c01::keys_json(&vec![k; n]))).into_bytes());
                    buf.push(b'\n');
                }
                for i in 0..r.below(7) {
                    buf.extend(nasty(r, &json!(1000 + i), c));
                    if r.chance(93) {
                        buf.push(b'\n');
                    }
                }
                if r.chance(12) {
                    buf.extend(req(&json!(1), "quit", None).into_bytes());
                    buf.push(b'\n');
                    for i in 0..r.below(4) {
                        buf.extend(nasty(r, &json!(2000 + i), c));
                        buf.push(b'\n');
                    }
                }
                if r.chance(5) {
                    buf.extend(std::iter::repeat(b'x').take(r.below(70_000)));
                }
                if buf.len() > 1 && r.chance(30) {
                    let n = r.below(buf.len());
                    buf.truncate(n);
                }
                send_cut(r, b, actor, c, &buf);
                match r.below(8) {
                    0 => {
                        b.op(actor, Op::Close { c });
                    }
                    1 | 2 => {
                        b.op(actor, Op::Reset { c });
                    }
                    3 => {
                        b.op(actor, Op::HalfClose { c });
                    }
                    4 => {
                        b.op(actor, Op::Freeze { c, dir: r.below(2) });
                    }
                    5 => {
                        b.op(actor, Op::Unstall { c });
                    }
                    _ => {}
                }
            }
        }
    }
    if much {
        b.plan.cfg.sock_cap = CfgPlan::calm().sock_cap;
        b.plan.cfg.max_steps = 1_000_000;
    }
    // the faults have stopped; what is stalled stays stalled
    b.phase("show");
    for c in 0..good {
        next[c] += 1;
        let id = json!(next[c] * 10 + c as i64);
        let line = req(&id, "edit", Some(json!({"name": "shared", "scratch": true}))) + "\n";
        b.op(c, Op::Send { c, data: line.into() });
        b.op(c, Op::Sync { c });
    }
    b.op(5, Op::Connect { c: 5, session: S.into() });
    b.op(5, Op::Send { c: 5, data: (req(&json!(5), "edit", Some(json!({"name": "shared", "scratch": true}))) + "\n").into() });
    b.phase("append");
    b.op(0, Op::Send { c: 0, data: (req(&json!("fin"), "exec", Some(json!("editor:append_to('shared', 'FIN\\n')"))) + "\n").into() });
    b.op(0, Op::Sync { c: 0 });
}

pub fn judge(w: &mut World) -> Judge {
    no_server_failure(w)?;
    expect_running(w, 0)?;
    let mut answered = 0;
    let mut disturbed = false;
    for (&k, c) in &w.clients {
        if k >= GOOD {
            disturbed |= c.conn.is_some();
            continue;
        }
        if c.conn.is_none() {
            return bad("connect", format!("client {} could not connect: errno {}", k, c.connect_errno));
        }
        let ms = received(c);
        only_messages(k, &ms)?;
        answered += responses(k, c)?.0;
    }
    // still notified: the text appended at the end is shown to everybody who asked for it
    let shown = w.plan.phases.last().map_or(false, |p| p.name == "append")
        && w.clients.get(&0).map_or(false, |c| c.sent.last().map_or(false, |l| l.bytes.windows(3).any(|x| x == b"FIN")));
    if shown {
        for (&k, c) in &w.clients {
            let asked = c.sent.iter().any(|l| w.plan.phases[l.phase].name == "show");
            if k >= GOOD || !asked {
                continue;
            }
            let last = received(c).into_iter().rev().find_map(|m| match m.msg {
                Msg::Notif { method, params } if method == "view" => Some(params),
                _ => None,
            });
            let ok = last.as_ref().map_or(false, |v| v.to_string().contains("FIN"));
            if !ok {
                return bad(
                    "not-notified",
                    format!("client {} displays the buffer 'shared' but was not shown the text appended to it; last view: {}", k, last.map_or("none".into(), |v| vstr(&v))),
                );
            }
        }
    }
    Ok(disturbed && answered > 0)
}
