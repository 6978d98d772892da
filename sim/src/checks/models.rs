//! The checks decided by explaining everything the clients were told with the
//! reference model. They differ in what the workload dwells on.
use super::gen::{mixed, Mix, NONE};
use super::model::*;
use super::*;

fn mix(id: &str) -> Mix {
    match id {
        "C03" => Mix {
            msg: 20,
            modes: 8,
            menu: 6,
            fail: 4,
            refused: 2,
            text: 3,
            emoves: 2,
            moves: 2,
            view: 3,
            scratch: 2,
            add: 2,
            delete: 2,
            select: 2,
            quit: 1,
            churn: 30,
            visits: 15,
            wire: 40,
            files: true,
            ..NONE
        },
        "C04" => Mix {
            scratch: 6,
            file: 6,
            view: 6,
            add: 4,
            remove: 3,
            delete: 5,
            select: 1,
            menu: 1,
            moves: 5,
            text: 16,
            emoves: 6,
            msg: 3,
            quit: 1,
            churn: 30,
            visits: 3,
            files: true,
            ..NONE
        },
        "C05" => Mix { text: 4, moves: 8, emoves: 14, scratch: 1, view: 2, add: 2, msg: 1, delete: 1, remove: 1, churn: 10, story: 25, ..NONE },
        "C06" => Mix {
            scratch: 6,
            file: 2,
            view: 10,
            add: 10,
            remove: 8,
            delete: 8,
            text: 4,
            emoves: 4,
            moves: 2,
            select: 1,
            menu: 1,
            msg: 2,
            fail: 1,
            churn: 20,
            story: 35,
            files: true,
            ..NONE
        },
        "C13" => Mix {
            menu: 16,
            select: 16,
            scratch: 3,
            view: 2,
            add: 2,
            delete: 1,
            text: 2,
            file: 1,
            msg: 1,
            fail: 1,
            files: true,
            ..NONE
        },
        "C14" => Mix { modes: 20, moves: 6, text: 2, fail: 1, msg: 1, churn: 15, ..NONE },
        _ => Mix { fail: 14, msg: 8, text: 5, emoves: 4, modes: 2, view: 1, scratch: 1, refused: 1, churn: 15, files: true, ..NONE },
    }
}

pub fn rule(id: &str) -> &'static str {
    match id {
        "C03" => "2-4 clients cause messages, errors, hints, status lines, menus and views for themselves and each other by numbered requests, with slow readers, delays on the wire, cuts, joins and departures; what each client received must be, in order, exactly what some order of the requests causes for it, and views only reach those concerned; non-trivial: several clients, messages for at least two of them",
        "C04" => "2-4 clients edit, append, reload, select, compose and delete views concurrently, joining and leaving; after every phase the last view each client received must equal the rendering of a reference state reached by some order of the requests; non-trivial: requests of several clients in one phase and a text change",
        "C05" => "2-4 clients move, extend and delete on shared texts of whole and composed characters through keys and scripts; texts and highlights must equal those of the reference editor; non-trivial: several clients and at least one deletion or move",
        "C06" => "2-4 clients add, remove, select and delete views and buffers concurrently; responses and displays must equal those of the reference state; non-trivial: several clients and at least two view operations answered",
        "C13" => "2-4 clients open, search and choose in all menus concurrently while buffers, views and files change; menus must equal those of a reference filter and choices do what the reference does; non-trivial: a menu with entries was received",
        "C14" => "2-4 clients type keys in batches of any size, interleaved; status lines, hints, messages and displays must equal those of the reference; non-trivial: status lines of two clients",
        "C15" => "2-4 clients run scripts that succeed, fail in the middle, do not parse or pass senseless arguments; responses, messages and displays must equal those of the reference; non-trivial: a failing and a successful script",
        _ => "",
    }
}

pub fn gen(id: &str, r: &mut Rng, b: &mut PB, thorough: bool) {
    let m = mix(id);
    mixed(r, b, &m, thorough);
}

pub fn judge(id: &str, w: &mut World) -> Judge {
    no_server_failure(w)?;
    expect_running(w, 0)?;
    let e = explain_run(w, id == "C03", |p| files_at(w, p))?;
    let mut reqs: Vec<(Req, bool)> = Vec::new();
    let mut per: std::collections::BTreeSet<usize> = Default::default();
    for (k, c) in &w.clients {
        let rs: Vec<bool> = received(c)
            .iter()
            .filter_map(|m| if let Msg::Resp { error, .. } = &m.msg { Some(error.is_none()) } else { None })
            .collect();
        for (l, ok) in c.sent.iter().zip(rs) {
            if let Some(q) = parse_req(&l.bytes) {
                reqs.push((q, ok));
                per.insert(*k);
            }
        }
    }
    let ok = |f: &dyn Fn(&Req) -> bool| reqs.iter().filter(|(r, o)| *o && f(r)).count();
    let told = |c: &Client| received(c).iter().any(|m| matches!(&m.msg, Msg::Notif { method, .. } if method == "echo"));
    let interesting = match id {
        "C03" => w.clients.values().filter(|c| told(c)).count() > 1,
        "C04" => ok(&|r| matches!(r, Req::Exec(_) | Req::Edit(..) | Req::Keys(_))) > 0,
        "C05" => ok(&|r| matches!(r, Req::Exec(_) | Req::Keys(_))) > 0,
        "C06" => ok(&|r| matches!(r, Req::View(_) | Req::ViewAdd(_) | Req::ViewRemove(_) | Req::ViewDelete)) > 1,
        "C13" => ok(&|r| matches!(r, Req::Menu(..))) > 0,
        "C14" => ok(&|r| matches!(r, Req::Keys(_))) > 1,
        _ => reqs.iter().any(|(r, o)| !*o && matches!(r, Req::Exec(_))) && ok(&|r| matches!(r, Req::Exec(_))) > 0,
    };
    Ok(per.len() > 1 && e.concurrent && interesting)
}
