//! A user of the client library: one thread makes calls, another reads events.
use crate::plan::LibCall;
use crate::world::{world, LibRec};
use ced_remote::protocol::KeyEvent;
use ced_remote::{Connection, ConnectionEvent, ConnectionState, Session};
use futures_lite::{future, StreamExt};
use serde_json::{json, Value};
use simrt::*;

fn rec(slot: usize, what: &str, val: Value) {
    let _k = kenter();
    ev!("library user {}: {} {}", slot, what, val);
    let step = sim().step;
    world().lib.entry(slot).or_default().push(LibRec { step, what: what.into(), val });
}

fn state_json(s: &ConnectionState) -> Value {
    let _k = kenter();
    json!({
        "client": s.client, "session": s.session,
        "echo": s.echo.as_ref().map(|e| serde_json::to_value(e).unwrap()),
        "status": serde_json::to_value(&s.status).unwrap(),
        "view": serde_json::to_value(&s.view).unwrap(),
        "menu": s.menu.as_ref().map(menu_json),
    })
}
fn menu_json(m: &ced_remote::Menu) -> Value {
    json!({"command": m.command, "title": m.title, "search": m.search, "selected": m.selected,
           "entries": serde_json::to_value(&m.entries).unwrap()})
}
fn event_json(e: &ConnectionEvent) -> Value {
    let _k = kenter();
    match e {
        ConnectionEvent::ConnErr(m) => json!(["err", m]),
        ConnectionEvent::Noop => json!(["noop"]),
        ConnectionEvent::Echo(t) => json!(["echo", t]),
        ConnectionEvent::Hint(h) => json!(["hint", h]),
        ConnectionEvent::Info(a, b) => json!(["info", a, b]),
        ConnectionEvent::Menu(m) => json!(["menu", menu_json(m)]),
        ConnectionEvent::Status(s) => json!(["status", s]),
        ConnectionEvent::View(v) => json!(["view", v]),
        #[allow(unreachable_patterns)]
        _ => json!(["other"]),
    }
}

pub fn entry(slot: usize, session: String, calls: Vec<LibCall>) -> Box<dyn FnOnce() -> i32 + Send> {
    Box::new(move || {
        let session = Session::from_name(&session);
        let mut conn = Connection::new(session.clone());
        let mut paused = 0usize;
        for call in calls {
            match call {
                LibCall::EnsureSession => {
                    let r = ced_remote::ensure_session(&session);
                    rec(slot, "ensure", json!(r.map_err(|e| e.to_string())));
                }
                LibCall::StartDaemon => {
                    let r = ced_remote::start_daemon(&session);
                    rec(slot, "start", json!(r.map(|_| ()).map_err(|e| e.to_string())));
                }
                LibCall::Connect => {
                    let (events, requests) = match future::block_on(conn.connect()) {
                        Ok(r) => r,
                        Err(e) => {
                            rec(slot, "connect-failed", json!(e.to_string()));
                            continue;
                        }
                    };
                    rec(slot, "connected", Value::Null);
                    std::thread::spawn(move || {
                        future::block_on(requests);
                        rec(slot, "requests-end", Value::Null);
                    });
                    std::thread::spawn(move || {
                        let mut events = Box::pin(events);
                        let mut n = 0;
                        while let Some(e) = future::block_on(events.next()) {
                            rec(slot, "event", event_json(&e));
                            n += 1;
                            if n > 20_000 {
                                rec(slot, "event-flood", Value::Null);
                                return;
                            }
                        }
                        rec(slot, "events-end", Value::Null);
                    });
                }
                LibCall::Quit => {
                    rec(slot, "call", json!(["quit"]));
                    conn.quit()
                }
                LibCall::Edit { name, scratch } => {
                    rec(slot, "call", json!(["edit", name, scratch]));
                    conn.edit(name, scratch)
                }
                LibCall::Menu { command, search } => {
                    rec(slot, "call", json!(["menu", command, search]));
                    conn.menu(&command, &search)
                }
                LibCall::Select => {
                    rec(slot, "call", json!(["select"]));
                    conn.menu_select();
                    rec(slot, "did", json!(["select"]));
                }
                LibCall::Next => {
                    rec(slot, "call", json!(["next"]));
                    conn.action_menu_select_next();
                    rec(slot, "did", json!(["next"]));
                }
                LibCall::Prev => {
                    rec(slot, "call", json!(["prev"]));
                    conn.action_menu_select_previous();
                    rec(slot, "did", json!(["prev"]));
                }
                LibCall::Cancel => {
                    rec(slot, "call", json!(["cancel"]));
                    conn.action_menu_cancel();
                    rec(slot, "did", json!(["cancel"]));
                }
                LibCall::Keys { keys } => {
                    let ks: Vec<KeyEvent> = keys.iter().map(|k| KeyEvent::from(k.as_str())).collect();
                    rec(slot, "call", json!(["keys", keys]));
                    conn.keys(ks)
                }
                LibCall::Exec { source } => {
                    rec(slot, "call", json!(["exec", source]));
                    conn.exec(&source)
                }
                LibCall::State => {
                    rec(slot, "call", json!(["state"]));
                    let s = conn.state();
                    rec(slot, "state", state_json(&s));
                }
                LibCall::Pause => {
                    paused += 1;
                    rec(slot, "pause", Value::Null);
                    while world().go.get(&slot).copied().unwrap_or(0) < paused {
                        block(Key::Stdin(100_000 + slot), None);
                    }
                }
            }
        }
        rec(slot, "end", Value::Null);
        // the user stays around (its event thread lives on)
        block(Key::Never, None);
        0
    })
}

#[cfg(not(feature = "cface"))]
pub fn ffi_entry(_: usize, _: String, _: usize, _: bool) -> Box<dyn FnOnce() -> i32 + Send> {
    panic!("built without the C interface")
}

/// A program using the C interface.
#[cfg(feature = "cface")]
pub fn ffi_entry(slot: usize, session: String, rounds: usize, destroy: bool) -> Box<dyn FnOnce() -> i32 + Send> {
    use ffishim::cuser::{Got, User};
    Box::new(move || {
        rec(slot, "call", json!(["create"]));
        let user = match User::create(&session) {
            Ok(u) => u,
            Err(e) => {
                rec(slot, "create-failed", json!(e));
                rec(slot, "end", Value::Null);
                return 0;
            }
        };
        rec(slot, "created", Value::Null);
        let mut errors = 0;
        for paused in 1..=rounds {
            rec(slot, "pause", Value::Null);
            while world().go.get(&slot).copied().unwrap_or(0) < paused {
                block(Key::Stdin(100_000 + slot), None);
            }
            let mut failed = 0;
            loop {
                rec(slot, "call", json!(["next"]));
                match user.next() {
                    Got::Event(e) => {
                        failed = 0;
                        rec(slot, "event", e)
                    }
                    Got::Error(m) => {
                        rec(slot, "error", json!(m));
                        errors += 1;
                        failed += 1;
                        if failed > 12 || errors > 2000 {
                            break;
                        }
                    }
                    Got::Nothing => {
                        rec(slot, "nothing", Value::Null);
                        break;
                    }
                }
            }
        }
        if destroy {
            rec(slot, "call", json!(["destroy"]));
            user.destroy();
        }
        rec(slot, "end", Value::Null);
        block(Key::Never, None);
        0
    })
}
