//! A program that uses the C interface.
use super::libs::{fact, message, norm, norm_menu, text, Fact};
use super::*;
use crate::plan::Op;
use serde_json::json;
use simrt::net::S2C;

pub const RULE: &str = "a program creates a connection through the C interface and takes events until none comes, several times, preempted between basic blocks, while a scripted server sends valid, unknown, mistyped and undecodable messages (with NUL and composed characters) in any pieces, pauses for seconds, closes or resets, or while the real server works with other clients and is killed or quits; what the program read through the accessors must be the messages received, in order; non-trivial: at least four events";

const USER: usize = 10;

pub fn gen(r: &mut Rng, b: &mut PB, thorough: bool) {
    b.plan.cfg.preempt = *r.pick(&[0, 20, 20, 200]);
    let real = r.chance(25);
    let phases = r.range(1, if thorough { 6 } else { 4 });
    let user = Op::Ffi { slot: USER, session: S.into(), rounds: phases + 1, destroy: r.chance(50) };
    if real {
        if r.chance(70) {
            start_server(b);
            b.phase("join");
            b.op(900, user);
        } else {
            // it has to be started by the interface
            b.phase("join");
            b.op(900, user);
            b.op(900, Op::WaitUp { session: S.into() });
        }
        let others = r.below(3);
        if others > 0 {
            b.phase("others");
        }
        for c in 0..others {
            b.op(c, Op::Connect { c, session: S.into() });
            b.op(c, Op::Sync { c });
        }
        let mut id = 0;
        for _ in 0..phases {
            b.phase("work");
            b.op(902, Op::Go { slot: USER });
            for c in 0..others {
                for _ in 0..r.below(4) {
                    id += 1;
                    let q = match r.below(4) {
                        0 => req(&json!(id), "edit", Some(json!({"name": "one", "scratch": true}))),
                        1 => req(&json!(id), "exec", Some(json!("editor:append_to('*scratch*', 'more\\n')"))),
                        2 => req(&json!(id), "exec", Some(json!("editor:message(1, 'hello\\0there')\neditor:message(2, 'é')"))),
                        _ => req(&json!(id), "view", Some(json!("*scratch*"))),
                    };
                    send_cut(r, b, c, c, format!("{}\n", q).as_bytes());
                }
            }
            if r.chance(12) {
                b.op(903, Op::KillServer { session: S.into() });
                b.plan.cfg.preempt = 0;
            }
        }
        b.phase("last");
        b.op(902, Op::Go { slot: USER });
        return;
    }
    b.phase("start");
    b.op(900, Op::Listen { session: S.into() });
    if r.chance(3) {
        b.op(900, Op::ConnErr { errno: *r.pick(&[libc::ECONNREFUSED, libc::EAGAIN]) });
    }
    b.op(900, user);
    let end_in = if r.chance(50) { r.below(phases) } else { phases };
    let mut k = 0;
    for ph in 0..phases {
        b.phase("work");
        if r.chance(80) {
            b.op(902, Op::Go { slot: USER });
        }
        let mut buf = Vec::new();
        for _ in 0..r.below(8) {
            k += 1;
            let menus = r.chance(20);
            buf.extend(message(r, k, menus));
            if r.chance(5) {
                buf.push(b'\r');
            }
            buf.push(b'\n');
        }
        let ends = ph == end_in;
        if ends && r.chance(40) {
            let m = json!({"jsonrpc": "2.0", "method": "echo", "params": text(r)}).to_string().into_bytes();
            buf.extend(&m[..1 + r.below(m.len() - 1)]);
        }
        let mut rest = &buf[..];
        while !rest.is_empty() {
            let n = if r.chance(40) { rest.len() } else { 1 + r.below(rest.len().min(300)) };
            b.op(901, Op::SrvSend { session: S.into(), n: 0, data: Data(rest[..n].to_vec()) });
            rest = &rest[n..];
        }
        if ends {
            b.op(901, Op::SrvClose { session: S.into(), n: 0, reset: r.chance(40) });
        }
    }
    b.phase("last");
    for _ in 0..phases + 1 {
        b.op(902, Op::Go { slot: USER });
    }
}

/// There is no NUL in a C string.
fn c_text(v: &Value) -> Value {
    match v {
        Value::String(s) => json!(s.replace('\0', "\u{fffd}")),
        Value::Array(a) => Value::Array(a.iter().map(c_text).collect()),
        Value::Object(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), c_text(v))).collect()),
        v => v.clone(),
    }
}
/// The event a message is to a C program.
fn event_of(m: &str, p: &Value) -> Option<Value> {
    Some(c_text(&match m {
        "info" => json!(["info", p["client"], p["session"]]),
        "menu" => json!(["menu", norm_menu(p, 0)]),
        "hint" => return None,
        "view" => {
            let mut v = norm(m, p);
            for i in v.as_array_mut().unwrap() {
                for l in i["lenses"].as_array_mut().unwrap() {
                    l.as_object_mut().unwrap().remove("lines");
                }
            }
            json!(["view", v])
        }
        m => json!([m, norm(m, p)]),
    }))
}

pub fn judge(w: &mut World) -> Judge {
    no_server_failure(w)?;
    let recs = match w.lib.get(&USER) {
        Some(r) => r.clone(),
        None => return unclear("no user"),
    };
    let pid = w.slots[&USER];
    for (i, b) in w.barriers.iter().enumerate() {
        if let Some(l) = recs.iter().rev().find(|r| r.step <= b.step) {
            if l.what != "pause" && l.what != "end" {
                return bad("caller-blocked", format!("at the end of phase {} the caller was still in {} {}", i, l.what, vstr(&l.val)));
            }
        }
    }
    let conn = simrt::sim().net.conns.iter().rposition(|c| c.procs[0] == pid);
    if let Some(f) = recs.iter().find(|r| r.what == "create-failed") {
        let refused = w.plan.phases.iter().any(|p| p.steps.iter().any(|s| matches!(s.op, Op::ConnErr { .. })));
        let there = w.plan.phases.iter().any(|p| p.steps.iter().any(|s| matches!(s.op, Op::Listen { .. })));
        if there && !refused {
            return bad("not-connected", format!("no connection could be created: {}", vstr(&f.val)));
        }
        return Ok(false);
    }
    let conn = match conn {
        Some(c) => c,
        None => return bad("not-connected", "a connection was created, but none was made"),
    };
    let c = &simrt::sim().net.conns[conn];
    let lines = &c.dirs[S2C].rlines;
    let over = c.closed[1] || c.dirs[S2C].fin;
    let rest = if over && !c.dirs[S2C].rpart.is_empty() { Some(fact(&c.dirs[S2C].rpart)) } else { None };
    let mut rest_used = false;
    let mut at = 0;
    let mut events = 0;
    let mut told = false;
    // until the user stopped asking
    let mut asked = None;
    for rec in &recs {
        match rec.what.as_str() {
            "nothing" => asked = Some(rec.step),
            "event" => {
                events += 1;
                // what cannot be told is left out
                while at < lines.len() {
                    match fact(&lines[at].bytes) {
                        Fact::Known(m, p) if event_of(&m, &p).is_some() => break,
                        Fact::Undecodable => break,
                        _ => at += 1,
                    }
                }
                let want = match lines.get(at) {
                    Some(l) => match fact(&l.bytes) {
                        Fact::Known(m, p) => event_of(&m, &p),
                        _ => return bad("missing-error", format!("an undecodable message was passed over in silence before {}: {}", vstr(&rec.val), show(&l.bytes))),
                    },
                    None => match (&rest, rest_used) {
                        (Some(Fact::Known(m, p)), false) => {
                            rest_used = true;
                            event_of(m, p)
                        }
                        _ => None,
                    },
                };
                let want = want.map(|mut v| {
                    if rec.val[0] == "menu" && rec.val[1]["entries"].is_null() {
                        // they can't be read in this tree
                        v[1]["entries"] = Value::Null;
                    }
                    v
                });
                if want.as_ref() != Some(&rec.val) {
                    return bad(
                        "wrong-event",
                        format!("event {} was {}, expected {}", events, vstr(&rec.val), want.map_or("none".into(), |w| vstr(&w))),
                    );
                }
                if at < lines.len() {
                    if lines[at].step > rec.step {
                        return bad("extra-event", format!("event {} came before its message: {}", events, vstr(&rec.val)));
                    }
                    at += 1;
                }
            }
            "error" => {
                // the first undecodable or mistyped message before the next event
                let mut k = at;
                while k < lines.len() {
                    match fact(&lines[k].bytes) {
                        Fact::Undecodable => break,
                        Fact::Known(m, p) if event_of(&m, &p).is_some() => {
                            k = lines.len() + 1;
                        }
                        _ => k += 1,
                    }
                }
                if k < lines.len() {
                    at = k + 1;
                } else if k == lines.len() && over {
                    at = k;
                    told = true;
                } else if !lines[at.min(lines.len())..].iter().take_while(|l| !matches!(fact(&l.bytes), Fact::Known(..))).any(|l| matches!(fact(&l.bytes), Fact::Other)) {
                    return bad("extra-error", format!("an error was reported ({}), but nothing was wrong", vstr(&rec.val)));
                }
            }
            _ => (),
        }
    }
    let last = recs.iter().rev().find(|r| matches!(r.what.as_str(), "nothing" | "error" | "event")).map(|r| r.step);
    let full = last.is_some() && (asked == last || told);
    if full {
        let until = asked.unwrap_or(u64::MAX).max(if told { u64::MAX } else { 0 });
        for l in &lines[at.min(lines.len())..] {
            let due = match fact(&l.bytes) {
                Fact::Known(m, p) => event_of(&m, &p).is_some(),
                Fact::Undecodable => true,
                _ => false,
            };
            // it waited for seconds before it gave up
            if due && l.step < until {
                return bad("missing-event", format!("a message was received but not reported: {}", show(&l.bytes)));
            }
        }
        let rounds = w.barriers.last().map_or(0, |b| recs.iter().filter(|r| r.what == "pause" && r.step <= b.step).count());
        let _ = rounds;
        let asked_after = c.dirs[S2C].eof_seen.map_or(false, |e| asked.map_or(true, |a| a > e));
        if over && !told && asked_after {
            return bad("end-unnoticed", "the connection is over, but the program was not told");
        }
        if !over && (c.dirs[S2C].ready.len() > 0) {
            return bad("not-read", "messages wait to be read");
        }
    }
    simrt::probe("c-interface-judged");
    Ok(events >= 4)
}
