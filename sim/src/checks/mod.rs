//! One module per property: how plans are made and how histories are judged.
use crate::hist::*;
use crate::plan::*;
use crate::world::*;
use serde_json::Value;
use simrt::{PState, Rng};

mod c01;
mod c02;
mod cface;
mod files;
mod gen;
mod libs;
mod model;
mod models;
mod names;
mod leak;
mod script;
mod sessions;
mod stdio;
mod term;

pub enum Fail {
    Violation(String, String),
    Inconclusive(String),
}
pub type Judge = Result<bool, Fail>;

pub fn bad<T>(kind: &str, detail: impl Into<String>) -> Result<T, Fail> {
    Err(Fail::Violation(kind.into(), detail.into()))
}
pub fn unclear<T>(d: impl Into<String>) -> Result<T, Fail> {
    Err(Fail::Inconclusive(d.into()))
}

pub struct Info {
    pub rule: &'static str,
    pub real: Vec<&'static str>,
    pub stub: Vec<&'static str>,
    pub assumptions: Vec<&'static str>,
}
const REAL_SERVER: &str = "ced server process: core/src/bin/ced.rs main, server.rs, editor/*, Lua scripts, ced_remote protocol, JSON and transport code (compiled from /repo, basic-block hooks added)";
const REAL_LIB: &str = "client library: ced_remote connection.rs, client.rs, jsonrpc.rs, protocol.rs, transport (compiled from /repo, basic-block hooks added), used by a scripted caller and an event thread; the server is scripted in most runs and real in the others";
const REAL_ALONE: &str = "ced --mode=standalone: main, clients.rs, editor/*, Lua scripts and protocol code with its printing thread (compiled from /repo, basic-block hooks added)";
const REAL_SCRIPT: &str = "ced --mode=script: main, script.rs, editor/*, Lua scripts (compiled from /repo, basic-block hooks added)";
const REAL_TERM: &str = "ced on a terminal: main, ensure_session, tui.rs, connection.rs, client.rs, jsonrpc.rs, transport (compiled from /repo, basic-block hooks added), crossterm's commands, styles and terminal modes (from the registry); the server is scripted in most runs and real in the others";
const STUB_TERM: &str = "crossterm's reader of events (key sequences are not decoded: the simulator names the keys) and the terminal itself (size and mode calls answered by the simulator, output interpreted by a small emulator)";
const REAL_BRIDGE: &str = "ced --mode=json: main, ensure_session, clients.rs, client.rs, jsonrpc.rs, transport, the blocking thread pool (compiled from /repo or the registry, basic-block hooks added to the former); the server is scripted in most runs and real in the others";
const REAL_C: &str = "C interface: remote-ffi/src with ffi.rs generated anew, used by a program that calls the exported functions, and the client library below it; linked statically instead of as a shared object; the server is scripted in most runs and real in the others";
const STUB_NET: &str = "async-net sockets: replaced by an in-memory network whose deliveries, cuts, resets and errors the scheduler decides";
const STUB_EXEC: &str = "async-executor: replaced by an executor whose next task the scheduler chooses";
const STUB_OS: &str = "libc: clocks, randomness, threads, futexes, processes and file calls go through the simulator (files live in a scratch directory on tmpfs)";

pub fn all() -> &'static [&'static str] {
    &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C22", "C24", "C25", "C26"]
}
pub fn gen(id: &str, seed: u64, thorough: bool) -> Option<Plan> {
    let mut r = Rng::new(seed ^ 0x91a7);
    let mut b = PB::new(id, seed);
    b.plan.cfg = rand_cfg(&mut r);
    match id {
        "C01" => c01::gen(&mut r, &mut b, thorough),
        "C02" => c02::gen(&mut r, &mut b, thorough),
        "C03" | "C04" | "C05" | "C06" | "C13" | "C14" | "C15" => models::gen(id, &mut r, &mut b, thorough),
        "C09" => sessions::gen9(&mut r, &mut b, thorough),
        "C10" => sessions::gen10(&mut r, &mut b, thorough),
        "C22" => names::gen(&mut r, &mut b, thorough),
        "C26" => leak::gen(&mut r, &mut b, thorough),
        "C11" | "C12" => libs::gen(id, &mut r, &mut b, thorough),
        "C24" | "C25" => term::gen(id, &mut r, &mut b, thorough),
        "C19" => script::gen(&mut r, &mut b, thorough),
        "C18" => cface::gen(&mut r, &mut b, thorough),
        "C16" | "C17" => stdio::gen(id, &mut r, &mut b, thorough),
        "C07" | "C08" => files::gen(id, &mut r, &mut b, thorough),
        _ => return None,
    }
    // a byte may take several steps where it is passed on one at a time
    let bytes: usize = b
        .plan
        .phases
        .iter()
        .flat_map(|p| &p.steps)
        .map(|s| match &s.op {
            Op::Send { data, .. } | Op::Stdin { data, .. } | Op::SrvSend { data, .. } => data.0.len(),
            _ => 0,
        })
        .sum();
    b.plan.cfg.max_steps += 150 * bytes as u64;
    Some(b.plan)
}
pub fn judge(w: &mut World) -> Judge {
    let id = w.plan.check.clone();
    match id.as_str() {
        "C01" => c01::judge(w),
        "C02" => c02::judge(w),
        "C03" | "C04" | "C05" | "C06" | "C13" | "C14" | "C15" => models::judge(&id, w),
        "C09" => sessions::judge9(w),
        "C10" => sessions::judge10(w),
        "C22" => names::judge(w),
        "C26" => leak::judge(w),
        "C11" | "C12" => libs::judge(&id, w),
        "C24" | "C25" => term::judge(&id, w),
        "C19" => script::judge(w),
        "C18" => cface::judge(w),
        "C16" | "C17" => stdio::judge(&id, w),
        "C07" | "C08" => files::judge(&id, w),
        _ => unclear("no such check"),
    }
}
pub fn info(id: &str) -> Info {
    let rule = match id {
        "C01" => c01::RULE,
        "C02" => c02::RULE,
        "C09" => sessions::RULE9,
        "C10" => sessions::RULE10,
        "C22" => names::RULE,
        "C26" => leak::RULE,
        "C11" | "C12" => libs::rule(id),
        "C24" | "C25" => term::rule(id),
        "C19" => script::RULE,
        "C18" => cface::RULE,
        "C16" | "C17" => stdio::rule(id),
        "C07" | "C08" => files::rule(id),
        id => models::rule(id),
    };
    Info {
        rule,
        real: match id {
            "C11" | "C12" => vec![REAL_LIB, REAL_SERVER],
            "C16" => vec![REAL_ALONE],
            "C24" | "C25" => vec![REAL_TERM, REAL_SERVER],
            "C19" => vec![REAL_SCRIPT],
            "C18" => vec![REAL_C, REAL_SERVER],
            "C17" => vec![REAL_BRIDGE, REAL_SERVER],
            _ => vec![REAL_SERVER],
        },
        stub: match id {
            "C24" | "C25" => vec![STUB_NET, STUB_EXEC, STUB_OS, STUB_TERM],
            _ => vec![STUB_NET, STUB_EXEC, STUB_OS],
        },
        assumptions: vec![
            "a run is bounded: at most 6 parties (12 in some runs) and a few dozen operations (a few hundred in some runs); what needs more is not reached",
            "seeded sampling, not enumeration: a clean run is evidence, not proof",
            "the simulated network and executor behave like async-net and async-executor on Linux",
        ],
    }
}
/// Known findings that concern every run.
pub fn known_always(_id: &str, _m: &str) -> bool {
    false
}

// ------------------------------------------------------------ generation

pub fn rand_cfg(r: &mut Rng) -> CfgPlan {
    let mut c = CfgPlan::default();
    match r.below(5) {
        0 => c = CfgPlan::calm(),
        1 => {
            c.w_cont = 100;
            c.w_net = 4;
            c.w_drv = 2;
        }
        2 => {
            c.w_cont = 5;
            c.w_net = 20;
            c.w_drv = 20;
        }
        3 => {
            c.w_drv = 60;
            c.w_net = 3;
            c.w_cont = 10;
        }
        _ => {}
    }
    c.chunking = r.chance(70);
    c.short_io = r.chance(40);
    c.burst = *r.pick(&[1, 1, 4, 16]);
    c.fifo = r.chance(30);
    c.fs_yield = r.chance(60);
    c.sock_cap = *r.pick(&[200_000, 200_000, 200_000, 4096, 700]);
    c
}

pub const S: &str = "s";

/// Server process in slot 0 and the wait for it.
pub fn start_server(b: &mut PB) {
    b.phase("start");
    b.op(900, Op::Start { slot: 0, args: vec!["--mode=server".into(), format!("--session={}", S)] });
    b.op(900, Op::WaitUp { session: S.into() });
}
/// Cuts a byte stream at random places, as one Send each.
pub fn send_cut(r: &mut Rng, b: &mut PB, actor: usize, c: usize, data: &[u8]) {
    let mut rest = data;
    while !rest.is_empty() {
        let mut n = if r.chance(50) { rest.len() } else { 1 + r.below(rest.len().min(200)) };
        // not inside of the placeholder of an identity
        while n < rest.len() && rest[n.saturating_sub(4)..(n + 3).min(rest.len())].contains(&b'$') {
            n += 1;
        }
        b.op(actor, Op::Send { c, data: Data(rest[..n].to_vec()) });
        rest = &rest[n..];
    }
}

// --------------------------------------------------------------- judging

pub fn running(w: &World, slot: usize) -> bool {
    w.proc_of(slot).map_or(false, |p| p.state == PState::Running)
}
/// The server must not have died of itself.
pub fn no_server_failure(w: &World) -> Result<(), Fail> {
    for p in simrt::sim().procs.iter().skip(1) {
        if let PState::Panicked(m) = &p.state {
            return bad("process-panic", format!("{}: panicked: {}", p.name, m));
        }
        if let Some(m) = p.thread_panics.first() {
            return bad("thread-panic", format!("{}: a thread panicked: {}", p.name, m));
        }
    }
    let _ = w;
    match simrt::sim().end {
        Some("done") => Ok(()),
        Some("step-limit") => bad(
            "no-progress",
            format!("the system was still busy after {} steps although nothing was left to do for long", simrt::sim().step),
        ),
        e => unclear(format!("run ended: {:?}", e)),
    }
}
/// A server runs as long as a client it served is connected.
pub fn expect_running(w: &World, slot: usize) -> Result<(), Fail> {
    match w.proc_of(slot) {
        Some(p) if p.state == PState::Running => Ok(()),
        Some(p) if p.state == PState::Exited(0) => {
            for (k, c) in &w.clients {
                if c.closed.is_none() && c.id.is_some() && !has_quit(c) {
                    return bad("server-ended", format!("{} ended while client {} was connected", p.name, k));
                }
            }
            unclear("no client was left")
        }
        Some(p) => bad("server-ended", format!("{} ended ({:?})", p.name, p.state)),
        None => unclear("no server"),
    }
}
/// A request to quit was answered with success.
pub fn has_quit(c: &Client) -> bool {
    let resp: Vec<bool> = received(c)
        .iter()
        .filter_map(|m| if let Msg::Resp { error, .. } = &m.msg { Some(error.is_none()) } else { None })
        .collect();
    c.sent.iter().zip(resp).any(|(l, ok)| ok && c01::quits(&l.bytes))
}
pub fn vstr(v: &Value) -> String {
    let s = v.to_string();
    if s.len() > 300 {
        s.chars().take(300).collect::<String>() + "..."
    } else {
        s
    }
}
pub fn only_messages(c: usize, ms: &[M]) -> Result<(), Fail> {
    for m in ms {
        if let Msg::Bad(e) = &m.msg {
            return bad("bad-line", format!("client {} received a line that is no complete JSON-RPC message: {}", c, e));
        }
    }
    Ok(())
}

/// Matches the responses a client received with the lines it sent: number of
/// responses and of errors without id.
pub fn responses(k: usize, c: &Client) -> Result<(usize, usize), Fail> {
    use c01::{quits, want, Want};
    let ms = received(c);
    let resp: Vec<&M> = ms.iter().filter(|m| matches!(m.msg, Msg::Resp { .. })).collect();
    let gone = matches!(c.closed, Some(("close", _)) | Some(("reset", _)));
    let half = matches!(c.closed, Some(("half", _)));
    let mut lines: Vec<&[u8]> = c.sent.iter().map(|l| &l.bytes[..]).collect();
    // a quit request ends the conversation
    let mut quit = false;
    let refused = |i: usize| matches!(resp.get(i).map(|m| &m.msg), Some(Msg::Resp { error: Some(_), .. }));
    if let Some(i) = (0..lines.len()).find(|i| quits(lines[*i]) && !refused(*i)) {
        lines.truncate(i + 1);
        quit = true;
    }
    let tail = half && !quit && !c.unsent_part().is_empty();
    let max = lines.len() + tail as usize;
    if c.eof().is_some() && !half && !quit {
        return bad("dropped", format!("the server closed the connection of client {}, which had not left", k));
    }
    if resp.len() > max {
        return bad("extra-response", format!("client {} sent {} lines and received {} responses", k, lines.len(), resp.len()));
    }
    let mut nullerr = 0;
    for (i, m) in resp.iter().enumerate() {
        let (id, err) = match &m.msg {
            Msg::Resp { id, error, .. } => (id, error),
            _ => unreachable!(),
        };
        if i >= lines.len() {
            continue; // the unterminated rest
        }
        let wnt = want(lines[i]);
        let ok = match &wnt {
            Want::Id(x) => x == id,
            Want::ErrId(x) => x == id && err.is_some(),
            Want::NullErr => id.is_null() && err.is_some(),
        };
        if !ok {
            return bad(
                "wrong-response",
                format!("client {}: line {} {} expects {:?}, response {} is id {} error {:?}", k, i, show(lines[i]), wnt, i, id, err),
            );
        }
        nullerr += matches!(wnt, Want::NullErr) as usize;
    }
    if !gone && resp.len() < lines.len() {
        return bad(
            "missing-response",
            format!("client {} sent {} complete lines ({:?}) and received {} responses; first without answer: {}", k, lines.len(), c.closed, resp.len(), show(lines[resp.len()])),
        );
    }
    Ok((resp.len(), nullerr))
}
