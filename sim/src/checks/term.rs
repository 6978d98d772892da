//! The program on a terminal: keys in, requests out (C24), and what the screen
//! shows (C25). The screen is what a small emulator makes of the bytes written.
use super::gen::NONE;
use super::libs::{self, fact, Fact};
use super::*;
use crate::plan::Op;
use serde_json::json;
use simrt::net::{C2S, S2C};
use std::collections::BTreeSet;

pub fn rule(id: &str) -> &'static str {
    match id {
        "C24" => "the program on a terminal of any size with 0-3 files in front of a scripted server (menus, prompts, views, odd and undecodable lines, closes, resets) or the real one with other clients; keys with modifiers, failing reads, changes of the size, a slow terminal, a log file that cannot be opened; some merge of keys and arrivals must explain the requests on the wire, and the terminal must be left as found; non-trivial: two requests by keys, one of them in a menu",
        _ => "the same program while views, echoes, status, hints and menus arrive, keys move in menus and the size changes; at every rest the emulated screen must be what the state told says, for one state the keys allow; non-trivial: three screens compared",
    }
}
const TERM: usize = 30;

// ------------------------------------------------------------ generation

fn long(r: &mut Rng) -> String {
    let n = *r.pick(&[3, 8, 12, 19, 20, 21, 30, 50, 79, 80, 81, 120, 300]);
    (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect()
}
fn word(r: &mut Rng, lg: usize) -> String {
    if r.chance(lg) {
        return long(r);
    }
    (*r.pick(&["a", "word", "two words", "é", "naïve façade", "", "f(x) { }", "100%", "-[x]-", "  ", "0", "\tx", "a\tb\t\tc", CONTROLS])).to_string().replace(CONTROLS, *r.pick(&["\t", "\t", "\r", "two\nlines", "\u{1b}[2Jx", "\u{1b}[7m", "\u{7}", "a\u{1}", "\u{7f}\u{9b}", "1\u{8}2", "\0"]))
}
const CONTROLS: &str = "(controls)";
fn text(r: &mut Rng, lg: usize) -> Value {
    let n = r.below(4);
    Value::Array(
        (0..n)
            .map(|_| {
                let f = *r.pick(&["Default", "Default", "Error", "Match", "Prompt", "Selection", "Selection"]);
                json!({"text": word(r, lg), "face": f})
            })
            .collect(),
    )
}
fn some_text(r: &mut Rng, lg: usize) -> Value {
    json!([{"text": format!("t{}", word(r, lg)), "face": "Default"}])
}
fn menu(r: &mut Rng, k: usize, lg: usize) -> Value {
    let n = *r.pick(&[0, 1, 2, 3, 5, 9, 30]);
    let mut e: Vec<Value> = (0..n)
        .map(|i| {
            let t = if r.chance(70) { json!([{"text": format!("e{}", i), "face": "Default"}, {"text": word(r, lg), "face": "Match"}]) } else { text(r, lg) };
            json!({"value": format!("m{}-{}", k, i), "text": t, "description": if r.chance(30) { json!(word(r, lg)) } else { Value::Null }})
        })
        .collect();
    if n > 0 && r.chance(25) {
        e[0]["value"] = json!("");
    }
    json!({"command": format!("cmd{}", k), "title": word(r, lg), "search": if r.chance(50) { String::new() } else { word(r, lg) }, "entries": e})
}
fn view(r: &mut Rng, lg: usize) -> Value {
    let lens = |r: &mut Rng| json!({"lines": (0..*r.pick(&[0, 1, 2, 3, 6, 30])).map(|_| text(r, lg)).collect::<Vec<_>>(), "first_line_num": r.below(100)});
    let item = |r: &mut Rng| json!({"buffer": word(r, lg), "start": r.below(50), "end": if r.chance(80) { r.below(90) } else { 123_456_789 }, "lenses": (0..*r.pick(&[0, 1, 1, 2, 2, 3, 5])).map(|_| lens(r)).collect::<Vec<_>>()});
    Value::Array((0..*r.pick(&[0, 1, 1, 2, 3, 12])).map(|_| item(r)).collect())
}
fn hint(r: &mut Rng, lg: usize) -> Value {
    let w = *r.pick(&[0, 1, 3, 7, 7, 12, 40]);
    let n = *r.pick(&[0, 1, 2, 3, 3, 4, 20]);
    let even = r.chance(50);
    let line = |r: &mut Rng, i: usize| {
        if even {
            json!([{"text": if i == 0 { format!("╭{}╮", "─".repeat(w)) } else { format!("│{}│", "h".repeat(w)) }, "face": "Default"}])
        } else {
            text(r, lg)
        }
    };
    json!({"text": (0..n).map(|i| line(r, i)).collect::<Vec<_>>()})
}
fn note(m: &str, p: Value) -> Vec<u8> {
    json!({"jsonrpc": "2.0", "method": m, "params": p}).to_string().into_bytes()
}
fn message(r: &mut Rng, k: usize, lg: usize, menus: usize) -> Vec<u8> {
    if r.chance(menus) {
        return note("menu", menu(r, k, lg));
    }
    match r.below(20) {
        0..=4 => note("view", view(r, lg)),
        5..=7 => note("echo", if r.chance(70) { some_text(r, lg) } else { text(r, lg) }),
        8..=10 => note("status", Value::Array((0..r.below(4)).map(|i| json!({"index": i, "text": text(r, lg)})).collect())),
        11..=13 => note("hint", hint(r, lg)),
        14 => note("info", json!({"client": "3", "session": "s", "cwd": "/"})),
        15 => json!({"jsonrpc": "2.0", "id": k, "result": null}).to_string().into_bytes(),
        16 => json!({"jsonrpc": "2.0", "id": k, "error": {"code": -3, "message": "no", "data": null}}).to_string().into_bytes(),
        17 => note(*r.pick(&["unknown", "view", "menu", "echo"]), json!(7)),
        18 => r.pick(&["", "null", "{}", "garbage", "{\"method\":\"echo\"}"]).as_bytes().to_vec(),
        _ => note("menu", menu(r, k, lg)),
    }
}
fn key(r: &mut Rng, menus: bool, real: bool) -> String {
    let c = if menus {
        match r.below(13) {
            0..=2 => "down".to_string(),
            3 => "up".into(),
            12 if r.chance(50) => (*r.pick(&["left", "right", "home", "end", "pgup", "pgdown", "tab", "backtab", "del", "ins", "f1", "null"])).into(),
            4 | 5 => "ret".into(),
            6 => "esc".into(),
            7 => "bkspc".into(),
            _ => format!("'{}", r.pick(&["a", "b", "e", "o", "s", "é", "*"])),
        }
    } else {
        match r.below(16) {
            0 => "esc".into(),
            1 => r.pick(&["ret", "bkspc", "up", "down", "left", "right"]).to_string(),
            2 => r.pick(&["home", "end", "pgup", "pgdown", "tab", "backtab", "del", "ins", "f1", "f12", "null"]).to_string(),
            3 | 4 => return format!("k c '{}", r.pick(&["d", "e", "f", "p", "v", "p", "f", "a"])),
            _ => format!("'{}", r.pick(&["a", "j", "k", "l", "J", "q", "d", "p", "é", "日", "'", " ", "-"])),
        }
    };
    let m = if real { "-" } else { *r.pick(&["-", "-", "-", "-", "s", "a", "ca", "c", "cas"]) };
    // these end it or are meant to fail
    if m.contains('a') && c == "'q" || m.contains('c') && c == "'x" {
        return "k - 'q".into();
    }
    format!("k {} {}", m, c)
}

pub fn gen(id: &str, r: &mut Rng, b: &mut PB, thorough: bool) {
    let _ = NONE;
    let screens = id == "C25";
    b.plan.cfg.max_steps = 400_000;
    let lg = *r.pick(&[0, 5, 5, 15, 40]);
    let wild = r.chance(8);
    let real = r.chance(25);
    let sizes: [(u16, u16); 12] =
        [(80, 24), (80, 24), (20, 5), (20, 5), (33, 12), (10, 3), (200, 50), (40, 2), (9, 9), (1, 1), (0, 0), (3, 1)];
    if real {
        start_server(b);
        let others = r.below(3);
        for c in 0..others {
            b.op(c, Op::Connect { c, session: S.into() });
            b.op(c, Op::Sync { c });
        }
        b.plan.note = json!({"others": others});
    } else {
        b.phase("listen");
        b.op(900, Op::Listen { session: S.into() });
    }
    let others = b.plan.note["others"].as_u64().unwrap_or(0) as usize;
    let mut size = *r.pick(&sizes);
    b.op(900, Op::Resize { slot: TERM, w: size.0, h: size.1 });
    if r.chance(10) {
        b.op(900, Op::Fault { call: "open".into(), path: "/log.txt".into(), skip: *r.pick(&[0, 0, 3, 20]), times: *r.pick(&[1, 100_000]), errno: *r.pick(&[libc::EACCES, libc::ENOSPC, libc::EMFILE]), short: 0 });
    }
    let mut args = vec![format!("--session={}", S)];
    if r.chance(30) {
        args.push("--mode=term".into());
    }
    for _ in 0..r.below(4) {
        args.push(if r.chance(lg) { long(r) } else { (*r.pick(&["f1", "notes.txt", "sub/f2", "f é", "missing", "sub/", "./f1", " x ", "a=b", "日本", "/sim/work/f1", "sub//f2"])).into() });
    }
    if real {
        for f in ["f1", "notes.txt", "sub/f2"] {
            if r.chance(70) {
                let t: String = (0..r.below(40)).map(|_| word(r, lg) + "\n").collect();
                b.op(900, Op::WriteFile { path: format!("/sim/work/{}", f), data: t.into(), age_ms: 5000 });
            }
        }
    }
    b.phase("terminal");
    b.op(900, Op::Start { slot: TERM, args });
    let phases = r.range(1, if thorough { 9 } else { 6 });
    let end_in = if r.chance(50) { r.below(phases) } else { phases };
    let mut k = 0;
    let mut ask = 0;
    let mut in_menu = r.chance(30);
    let deaf = if !real && !screens && r.chance(8) { r.below(phases) } else { phases };
    for ph in 0..phases {
        if ph == deaf {
            // the server does not read any more
            b.phase("deaf");
            b.op(901, Op::SrvStall { session: S.into(), n: 0 });
            for _ in 0..2 {
                b.op(TERM, Op::Stdin { slot: TERM, data: "k - esc\n".into() });
            }
            let n = if r.chance(50) { r.below(5) } else { r.range(20, 60) };
            b.phase("deaf");
            for _ in 0..n {
                b.op(TERM, Op::Stdin { slot: TERM, data: "k - 'j\n".into() });
            }
            if r.chance(40) {
                b.phase("deaf");
            }
            for _ in 0..2 {
                b.op(TERM, Op::Stdin { slot: TERM, data: "k a 'q\n".into() });
                if r.chance(40) {
                    b.phase("deaf");
                }
                if r.chance(20) {
                    b.op(TERM, Op::Stdin { slot: TERM, data: "k - 'j\n".into() });
                }
            }
            return;
        }
        b.phase("work");
        let stall = r.chance(10);
        if stall {
            b.op(902, Op::OutStall { slot: TERM });
        }
        // keys
        for _ in 0..r.below(if screens { 5 } else { 9 }) {
            if r.chance(25) {
                in_menu = !in_menu;
            }
            let l = match r.below(60) {
                0 => "m".to_string(),
                1 if !real => (*r.pick(&["e", "e i", "e o"])).into(),
                2 if !screens => "k a 'q".into(),
                _ => key(r, in_menu, real),
            };
            b.op(TERM, Op::Stdin { slot: TERM, data: (l + "\n").into() });
            if r.chance(5) {
                b.op(TERM, Op::Nop);
            }
        }
        if ph > 0 && r.chance(if screens { 25 } else { 10 }) {
            let next = *r.pick(&sizes);
            size = *r.pick(&[next, next, (next.0, size.1), (size.0, next.1)]);
            b.op(903, Op::Resize { slot: TERM, w: size.0, h: size.1 });
        }
        let ends = ph == end_in;
        if real {
            for c in 0..others {
                for _ in 0..r.below(3) {
                    ask += 1;
                    let q = match r.below(5) {
                        0 => req(&json!(ask), "edit", Some(json!({"name": "one", "scratch": true}))),
                        1 => req(&json!(ask), "exec", Some(json!(format!("editor:append_to('*scratch*', '{}\\n')", word(r, lg).trim())))),
                        2 => req(&json!(ask), "exec", Some(json!(format!("editor:append_to('f1', '{}\\n')", word(r, lg).trim())))),
                        3 => req(&json!(ask), "exec", Some(json!("editor:message(1, 'hello')"))),
                        _ => req(&json!(ask), "exec", Some(json!("editor:message(2, 'hello you')"))),
                    };
                    send_cut(r, b, c, c, format!("{}\n", q).as_bytes());
                }
            }
            if ends && r.chance(50) {
                b.plan.cfg.preempt = 0;
                b.op(901, Op::KillServer { session: S.into() });
            }
        } else {
            let mut buf = Vec::new();
            for _ in 0..r.below(if screens { 7 } else { 5 }) {
                k += 1;
                if wild {
                    buf.extend(libs::message(r, k, false));
                } else {
                    buf.extend(message(r, k, lg, if in_menu { 35 } else { 8 }));
                }
                buf.push(b'\n');
                if r.chance(2) {
                    // more than any queue holds
                    let l = *r.pick(&["status", "status", "view", "hint"]);
                    let p = if l == "hint" { json!({"text": []}) } else { json!([]) };
                    let n = if r.chance(50) { r.range(90, 300) } else { *r.pick(&[32, 64, 100, 100, 128, 200, 256]) };
                    for _ in 0..n {
                        buf.extend(note(l, p.clone()));
                        buf.push(b'\n');
                    }
                    buf.extend(if r.chance(50) { message(r, k, lg, 0) } else { note("hint", hint(r, lg)) });
                    buf.push(b'\n');
                }
            }
            let over = ends && r.chance(60);
            if over && r.chance(40) {
                buf.extend_from_slice(&note("echo", some_text(r, 0))[..1 + r.below(30)]);
            }
            let mut rest = &buf[..];
            while !rest.is_empty() {
                let n = if r.chance(50) { rest.len() } else { 1 + r.below(rest.len().min(400)) };
                b.op(901, Op::SrvSend { session: S.into(), n: 0, data: Data(rest[..n].to_vec()) });
                rest = &rest[n..];
            }
            if over {
                b.op(901, Op::SrvClose { session: S.into(), n: 0, reset: r.chance(30) });
            }
        }
        if ends && r.chance(30) {
            // two escapes leave any menu
            for l in ["k - esc", "k - esc", "k a 'q"] {
                b.op(TERM, Op::Stdin { slot: TERM, data: format!("{}\n", l).into() });
            }
        }
        if stall {
            if r.chance(50) {
                b.op(902, Op::Nop);
            }
            b.op(902, Op::OutUnstall { slot: TERM });
        }
    }
}

// ---------------------------------------------------------------- screen

struct Screen {
    w: usize,
    h: usize,
    cells: Vec<(char, bool)>,
    x: usize,
    y: usize,
    wrap: bool,
    rev: bool,
    alt: bool,
    /// the alternate screen was left
    back: bool,
    /// the normal screen was drawn on or cleared
    spoiled: bool,
    hidden: bool,
    rest: Vec<u8>,
    odd: Option<String>,
}
impl Screen {
    fn new(w: u16, h: u16) -> Screen {
        let (w, h) = (w as usize, h as usize);
        Screen { w, h, cells: vec![(' ', false); w * h], x: 0, y: 0, wrap: false, rev: false, alt: false, back: false, spoiled: false, hidden: false, rest: Vec::new(), odd: None }
    }
    fn resize(&mut self, w: u16, h: u16) {
        let (w, h) = (w as usize, h as usize);
        let mut cells = vec![(' ', false); w * h];
        for y in 0..h.min(self.h) {
            for x in 0..w.min(self.w) {
                cells[y * w + x] = self.cells[y * self.w + x];
            }
        }
        self.cells = cells;
        self.w = w;
        self.h = h;
        self.x = self.x.min(w.saturating_sub(1));
        self.y = self.y.min(h.saturating_sub(1));
        self.wrap = false;
    }
    fn scroll(&mut self) {
        self.cells.drain(..self.w);
        self.cells.extend(std::iter::repeat((' ', false)).take(self.w));
    }
    fn down(&mut self) {
        if self.y + 1 < self.h {
            self.y += 1;
        } else {
            self.scroll();
        }
    }
    fn put(&mut self, c: char) {
        if self.w == 0 || self.h == 0 {
            return;
        }
        if self.wrap {
            self.x = 0;
            self.down();
            self.wrap = false;
        }
        self.cells[self.y * self.w + self.x] = (c, self.rev);
        // a message after the end is fine
        self.spoiled |= !self.alt && !self.back && c != ' ';
        if self.x + 1 < self.w {
            self.x += 1;
        } else {
            self.wrap = true;
        }
    }
    fn feed(&mut self, bytes: &[u8]) {
        self.rest.extend_from_slice(bytes);
        let data = std::mem::take(&mut self.rest);
        let mut i = 0;
        while i < data.len() {
            match data[i] {
                0x1b => {
                    if i + 1 >= data.len() {
                        break;
                    }
                    if data[i + 1] != b'[' {
                        self.odd = Some(show(&data[i..(i + 8).min(data.len())]));
                        i += 2;
                        continue;
                    }
                    match data[i + 2..].iter().position(|b| (0x40..0x7f).contains(b)) {
                        Some(e) => {
                            let p = String::from_utf8_lossy(&data[i + 2..i + 2 + e]).to_string();
                            self.csi(&p, data[i + 2 + e]);
                            i += 3 + e;
                        }
                        None => break,
                    }
                }
                b'\r' => {
                    self.x = 0;
                    self.wrap = false;
                    i += 1;
                }
                b'\n' => {
                    if self.h > 0 {
                        self.down();
                    }
                    self.wrap = false;
                    i += 1;
                }
                b'\t' => {
                    self.x = ((self.x / 8 + 1) * 8).min(self.w.saturating_sub(1));
                    self.wrap = false;
                    i += 1;
                }
                8 => {
                    self.x = self.x.saturating_sub(1);
                    self.wrap = false;
                    i += 1;
                }
                b if b < 0x20 || b == 0x7f => i += 1,
                b => {
                    let n = if b < 0x80 { 1 } else if b >= 0xf0 { 4 } else if b >= 0xe0 { 3 } else { 2 };
                    if i + n > data.len() {
                        break;
                    }
                    match std::str::from_utf8(&data[i..i + n]) {
                        Ok(s) => self.put(s.chars().next().unwrap()),
                        Err(_) => self.odd = Some("not UTF-8".into()),
                    }
                    i += n;
                }
            }
        }
        self.rest = data[i..].to_vec();
    }
    fn csi(&mut self, p: &str, f: u8) {
        let n: Vec<usize> = p.split(';').map(|x| x.parse().unwrap_or(0)).collect();
        match (p, f) {
            ("?1049", b'h') => {
                self.alt = true;
                self.cells.fill((' ', false));
            }
            ("?1049", b'l') => {
                self.back |= self.alt;
                self.alt = false;
            }
            ("?25", b'h') => self.hidden = false,
            ("?25", b'l') => self.hidden = true,
            (_, b'H') | (_, b'f') => {
                self.wrap = false;
                self.y = n[0].max(1).min(self.h.max(1)) - 1;
                self.x = n.get(1).copied().unwrap_or(1).max(1).min(self.w.max(1)) - 1;
            }
            ("2", b'J') | ("3", b'J') if !self.alt => self.spoiled = true,
            ("2", b'J') | ("3", b'J') => self.cells.fill((' ', false)),
            ("" | "0", b'J') => {
                let at = self.y * self.w + self.x;
                self.cells.iter_mut().skip(at + self.wrap as usize).for_each(|c| *c = (' ', false));
            }
            ("" | "0", b'K') => {
                // terminals differ on what is cleared after the last column was written
                let at = self.y * self.w + self.x + self.wrap as usize;
                let end = (self.y + 1) * self.w;
                if at < end && end <= self.cells.len() {
                    self.cells[at..end].fill((' ', false));
                }
            }
            ("2", b'K') => {
                let at = self.y * self.w;
                if at + self.w <= self.cells.len() {
                    self.cells[at..at + self.w].fill((' ', false));
                }
            }
            (_, b'm') => {
                for k in n {
                    match k {
                        0 | 27 => self.rev = false,
                        7 => self.rev = true,
                        _ => (),
                    }
                }
            }
            _ => self.odd = Some(format!("CSI {}{}", p, f as char)),
        }
    }
    fn row(&self, y: usize) -> String {
        self.cells[y * self.w..(y + 1) * self.w].iter().map(|c| c.0).collect()
    }
}

/// A cell that has to be shown: a character, and reversed or not if that is known.
#[derive(Clone, Copy, PartialEq, Debug)]
struct Want(char, Option<bool>);
type Grid = Vec<Want>;

/// Blanks up to the next multiple of eight for a tabulation, a replacement for what a
/// terminal would interpret.
fn printed<T: Copy>(cs: impl Iterator<Item = (char, T)>) -> Vec<(char, T)> {
    let mut out = Vec::new();
    for (c, t) in cs {
        match c {
            '\t' => out.resize((out.len() / 8 + 1) * 8, (' ', t)),
            c if c.is_control() => out.push(('\u{fffd}', t)),
            c => out.push((c, t)),
        }
    }
    out
}
fn printed_str(s: &str) -> Vec<char> {
    printed(s.chars().map(|c| (c, ()))).into_iter().map(|c| c.0).collect()
}
fn chars(t: &Value) -> Vec<(char, &str)> {
    printed(t.as_array().into_iter().flatten().flat_map(|f| f["text"].as_str().unwrap_or("").chars().map(move |c| (c, f["face"].as_str().unwrap_or("")))))
}
fn plain(t: &Value) -> String {
    t.as_array().into_iter().flatten().map(|f| f["text"].as_str().unwrap_or("")).collect()
}
/// Shown as one column by every terminal.
fn narrow(c: char) -> bool {
    (' '..='~').contains(&c) || ('\u{a1}'..='\u{ff}').contains(&c) && c != '\u{ad}' || "·╭─╮│╰╯\u{fffd}".contains(c) || c.is_control()
}
fn simple(v: &Value) -> bool {
    match v {
        Value::String(s) => s.chars().all(narrow),
        Value::Array(a) => a.iter().all(simple),
        Value::Object(o) => o.values().all(simple),
        _ => true,
    }
}

#[derive(Clone, Default)]
struct Told {
    view: Value,
    echo: Value,
    status: Value,
}
fn put_row(g: &mut Grid, w: usize, y: usize, cells: impl Iterator<Item = Want>) {
    for (x, c) in cells.take(w).enumerate() {
        g[y * w + x] = c;
    }
}
fn status_row(t: &Told, w: usize) -> Vec<Want> {
    let echo = printed_str(&plain(&t.echo));
    let status = t.status.as_array().map_or(String::new(), |a| a.iter().map(|i| plain(&i["text"])).collect::<Vec<_>>().join("·"));
    let status = printed_str(&status);
    let mut row: Vec<char> = echo.iter().copied().take(w).collect();
    if echo.len() < w {
        if echo.len() + status.len() >= w {
            row.push(' ');
            let room = w - row.len();
            row.extend(&status[status.len() - room.min(status.len())..]);
        } else {
            row.resize(w - status.len(), ' ');
            row.extend(&status);
        }
    }
    row.resize(w, ' ');
    row.into_iter().map(|c| Want(c, None)).collect()
}
/// What the screen may be without hints; the last row of a menu may be the status.
fn grids(t: &Told, menu: Option<(&Value, usize)>, w: usize, h: usize) -> Vec<Grid> {
    let mut g: Grid = vec![Want(' ', None); w * h];
    let st = status_row(t, w);
    match menu {
        Some((m, sel)) => {
            let title = printed_str(&format!("{}:{}", m["title"].as_str().unwrap_or(""), m["search"].as_str().unwrap_or("")));
            put_row(&mut g, w, 0, title.into_iter().chain(std::iter::repeat(' ')).map(|c| Want(c, Some(true))));
            // the selected entry is always shown
            let first = if sel >= h - 1 { sel + 2 - h } else { 0 };
            for (y, (i, e)) in m["entries"].as_array().unwrap().iter().enumerate().skip(first).take(h - 1).enumerate() {
                let cs = chars(&e["text"]);
                // the marks of an empty fragment may end that of the entry
                let sure = e["text"][0]["text"] != "";
                put_row(&mut g, w, y + 1, cs.into_iter().enumerate().map(|(k, c)| Want(c.0, if k == 0 && (sure || i != sel) { Some(i == sel) } else { None })));
            }
            let mut g2 = g.clone();
            put_row(&mut g2, w, h - 1, st.into_iter());
            vec![g, g2]
        }
        None => {
            let mut y = 0;
            'all: for item in t.view.as_array().unwrap_or(&Vec::new()) {
                if y + 1 >= h {
                    break;
                }
                let head = format!("-[{}][{}:{}]", item["buffer"].as_str().unwrap_or(""), item["start"], item["end"]);
                let head = printed_str(&head);
                put_row(&mut g, w, y, head.into_iter().chain(std::iter::repeat('-')).map(|c| Want(c, Some(false))));
                y += 1;
                for l in item["lenses"].as_array().unwrap().iter().flat_map(|l| l["lines"].as_array().unwrap()) {
                    if y + 1 >= h {
                        break 'all;
                    }
                    put_row(&mut g, w, y, chars(l).into_iter().map(|(c, f)| Want(c, Some(f == "Selection"))));
                    y += 1;
                }
            }
            put_row(&mut g, w, h - 1, st.into_iter());
            vec![g]
        }
    }
}
fn overlay(g: &mut Grid, hint: &Value, w: usize, h: usize) {
    let lines: Vec<Vec<char>> = hint["text"].as_array().unwrap().iter().map(|l| printed_str(&plain(l))).collect();
    let width = lines.iter().map(|l| l.len()).max().unwrap_or(0).min(w);
    let n = lines.len().min(h);
    for (i, l) in lines.iter().take(n).enumerate() {
        for (k, c) in l.iter().take(width).enumerate() {
            g[(h - n + i) * w + w - width + k] = Want(*c, None);
        }
    }
}
fn differs(s: &Screen, g: &Grid) -> Option<String> {
    for y in 0..s.h {
        for x in 0..s.w {
            let (c, rev) = s.cells[y * s.w + x];
            let want = g[y * s.w + x];
            if c != want.0 || want.1.map_or(false, |r| r != rev) {
                let row: String = g[y * s.w..(y + 1) * s.w].iter().map(|c| c.0).collect();
                return Some(format!(
                    "{}x{}: row {} is {:?}, not {:?} (column {}{})",
                    s.w,
                    s.h,
                    y,
                    s.row(y).trim_end(),
                    row.trim_end(),
                    x,
                    if c == want.0 { ": marked wrongly" } else { "" }
                ));
            }
        }
    }
    None
}
#[derive(Clone)]
enum Layer {
    Hint(Value),
    Status,
}

// ----------------------------------------------------------------- input

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct St {
    /// open menu: message, selected entry, what was typed since (and in a menu of which command)
    menu: Option<(usize, usize, Option<(String, String)>)>,
    /// requests seen
    reqs: usize,
    ended: bool,
}
struct Key<'a> {
    mods: &'a str,
    code: &'a str,
}
fn parse_key(l: &str) -> Option<Key<'_>> {
    let k = l.strip_prefix("k ")?;
    let i = k.find(' ')?;
    Some(Key { mods: &k[..i], code: &k[i + 1..] })
}
type Out = Option<(&'static str, Value)>;

/// Everything a key may do.
fn press(st: &St, k: &Key, menus: &[Value]) -> Vec<(St, Out)> {
    let ctrl = k.mods.contains('c');
    let alt = k.mods.contains('a');
    let ch = k.code.strip_prefix('\'');
    let same = (st.clone(), None);
    if let Some((m, sel, typed)) = &st.menu {
        let mv = &menus[*m];
        let n = mv["entries"].as_array().unwrap().len();
        let with = |menu| St { menu, ..st.clone() };
        let command = mv["command"].as_str().unwrap().to_string();
        let base = match typed {
            Some((c, t)) if *c == command => t.clone(),
            _ => mv["search"].as_str().unwrap().to_string(),
        };
        let search = |s: String| {
            let p = json!({"command": mv["command"], "search": s});
            (with(Some((*m, *sel, Some((command.clone(), s))))), Some(("menu", p)))
        };
        let mut out = match k.code {
            "esc" => vec![(with(None), None)],
            "up" => vec![(with(Some((*m, sel.saturating_sub(1), typed.clone()))), None)],
            "down" => vec![(with(Some((*m, if sel + 1 < n { sel + 1 } else { *sel }, typed.clone()))), None)],
            "ret" if *sel < n => {
                let v = mv["entries"][*sel]["value"].clone();
                let v = if v == json!("") { mv["search"].clone() } else { v };
                vec![(with(None), Some(("menu-select", json!({"command": mv["command"], "choice": v}))))]
            }
            "bkspc" => {
                let mut s = base;
                s.pop();
                vec![search(s)]
            }
            _ => match ch {
                Some(c) => vec![search(base + c)],
                None => vec![same.clone()],
            },
        };
        if (ctrl || alt) && out[0] != same {
            out.push(same);
        }
        return out;
    }
    let ask = |m: &'static str, p: Value| vec![(st.clone(), Some((m, p)))];
    let keys = |key: Value| json!([{"ctrl": ctrl, "alt": alt, "shift": k.mods.contains('s'), "key": key}]);
    match (k.code, ch) {
        (_, Some("q")) if alt => vec![(St { ended: true, ..st.clone() }, None)],
        (_, Some("d")) if ctrl => ask("exec", json!("editor:debug('coucou')")),
        (_, Some("e")) if ctrl => ask("exec", json!("editor:debug(undefined)")),
        (_, Some("f")) if ctrl => ask("menu", json!({"command": "open", "search": ""})),
        (_, Some("p")) if ctrl => ask("menu", json!({"command": "", "search": ""})),
        (_, Some("v")) if ctrl => ask("menu", json!({"command": "view_select", "search": ""})),
        (_, Some(c)) => ask("keys", keys(json!({"Char": c}))),
        ("esc", _) => ask("keys", keys(json!("Escape"))),
        // dropped, or one day sent
        (c @ ("ret" | "bkspc" | "up" | "down" | "left" | "right"), _) => {
            let n = match c {
                "ret" => "Enter",
                "bkspc" => "Backspace",
                "up" => "Up",
                "down" => "Down",
                "left" => "Left",
                _ => "Right",
            };
            vec![same, (st.clone(), Some(("keys", keys(json!(n)))))]
        }
        _ => vec![same],
    }
}
/// A menu arrives.
fn arrive(st: &St, m: usize, menus: &[Value]) -> Vec<St> {
    let new = |typed| St { menu: Some((m, 0, typed)), ..st.clone() };
    match &st.menu {
        Some((old, _, Some((c, t)))) => {
            let same = menus[*old]["command"] == menus[m]["command"] && json!(c) == menus[m]["command"];
            if same && json!(t) != menus[m]["search"] {
                // an answer to an earlier key
                vec![new(Some((c.clone(), t.clone())))]
            } else {
                vec![new(None), new(Some((c.clone(), t.clone())))]
            }
        }
        _ => vec![new(None)],
    }
}

// --------------------------------------------------------------- judging

pub fn judge(id: &str, w: &mut World) -> Judge {
    no_server_failure(w)?;
    let screens = id == "C25";
    let pid = match w.slots.get(&TERM) {
        Some(p) => *p,
        None => return unclear("nothing was started"),
    };
    let p = &simrt::sim().procs[pid];
    if w.stalled_out.contains(&TERM) {
        return unclear("the output is never read");
    }
    let conn = match simrt::sim().net.conns.iter().rposition(|c| c.procs[0] == pid) {
        Some(c) => c,
        None => return bad("not-connected", format!("the program did not connect to the server ({:?})", p.state)),
    };
    let n = &simrt::sim().net.conns[conn];
    let over = n.closed[1] || n.dirs[S2C].fin;
    let over_at = n.closed_step[1];
    match &p.state {
        PState::Running if over && n.dirs[S2C].inflight.is_empty() => return bad("not-ended", "the server closed the connection, the program goes on"),
        PState::Running | PState::Exited(0) => (),
        s => return bad("ended-badly", format!("the program ended with {:?}", s)),
    }
    let running = p.state == PState::Running;

    // what was told
    let mut menus: Vec<Value> = Vec::new();
    let mut errors = 0;
    let mut facts: Vec<(u64, Fact)> = Vec::new();
    for l in &n.dirs[S2C].rlines {
        let f = fact(&l.bytes);
        errors += matches!(f, Fact::Undecodable | Fact::Other) as usize;
        facts.push((l.step, f));
    }
    if over && !n.dirs[S2C].rpart.is_empty() {
        let f = fact(&n.dirs[S2C].rpart);
        errors += 1;
        if let Fact::Known(..) = f {
            return unclear("the last message has no end");
        }
    }
    if over && n.dirs[S2C].rst {
        errors += 1;
    }
    let lines: Vec<(u64, String)> = p.in_lines.iter().map(|l| (l.step, String::from_utf8_lossy(&l.bytes).to_string())).collect();
    errors += lines.iter().filter(|l| l.1 == "e" || l.1.starts_with("e ")).count();

    // what was asked
    let mut asked: Vec<(u64, String, Value)> = Vec::new();
    let mut ids: BTreeSet<String> = BTreeSet::new();
    let mut reported = 0;
    for l in &n.dirs[C2S].wlines {
        let v: Value = match serde_json::from_slice(&l.bytes) {
            Ok(v) => v,
            Err(e) => return bad("bad-request", format!("a line to the server is no JSON ({}): {}", e, show(&l.bytes))),
        };
        let method = v["method"].as_str().unwrap_or("").to_string();
        if v["jsonrpc"] != "2.0" || method.is_empty() {
            return bad("bad-request", format!("no request: {}", show(&l.bytes)));
        }
        if !ids.insert(v["id"].to_string()) {
            return bad("bad-request", format!("the identity of a request is used again: {}", show(&l.bytes)));
        }
        if method == "exec" && v["params"].as_str().map_or(false, |s| s.starts_with("editor:error(")) {
            reported += 1;
            continue;
        }
        asked.push((l.step, method, v["params"].clone()));
    }
    if reported > errors {
        return bad("extra-request", format!("{} errors were reported, {} happened", reported, errors));
    }
    let start = w.plan.phases.iter().flat_map(|p| p.steps.iter()).find_map(|s| if let Op::Start { slot: TERM, args } = &s.op { Some(args.clone()) } else { None });
    let files: Vec<String> = start.unwrap_or_default().into_iter().filter(|a| !a.starts_with("--")).collect();
    // leaving by the key sends what was asked before, unless the key is pressed again
    let hasty = lines.iter().filter(|l| parse_key(&l.1).map_or(false, |k| k.mods.contains('a') && k.code == "'q")).count() > 1;
    let gone = over || hasty && !running;
    for (i, f) in files.iter().enumerate() {
        match asked.get(i) {
            Some((_, m, p)) if m == "edit" && *p == json!({"name": f, "scratch": false}) => (),
            Some((_, m, p)) => return bad("wrong-request", format!("{:?} was not opened, but {} {}", f, m, vstr(p))),
            None if gone => (),
            None => return bad("lost-request", format!("{:?} was not opened", f)),
        }
    }

    // phase after phase
    let mut size = (80, 24);
    'sizes: for s in w.plan.phases.iter().flat_map(|p| p.steps.iter()) {
        match s.op {
            Op::Resize { slot: TERM, w, h } => size = (w, h),
            Op::Start { slot: TERM, .. } => break 'sizes,
            _ => (),
        }
    }
    let mut screen = Screen::new(size.0, size.1);
    let mut fed = 0;
    let mut resizes = p.resizes.iter().peekable();
    let mut told = Told::default();
    let mut layers: Vec<Layer> = Vec::new();
    let mut unsure = false;
    let mut drawn = false;
    let mut wild = files.iter().any(|f| !f.chars().all(narrow));
    let mut compared = 0;
    let mut in_menus = 0;
    let (mut fi, mut ki) = (0, 0);
    let mut states: BTreeSet<St> = BTreeSet::new();
    states.insert(St { menu: None, reqs: files.len().min(asked.len()), ended: false });
    for (ph, bar) in w.barriers.iter().enumerate() {
        if !bar.stdout.contains_key(&TERM) {
            continue; // not started
        }
        if w.plan.phases.get(ph).map_or(false, |p| p.name == "deaf") {
            // what is asked for can't be seen any more; no menu is open when the keys to leave are pressed
            if hasty && running && ph + 1 == w.barriers.len() && lines.len() == p.in_lines.len() {
                return bad("not-ended", "the key to leave, pressed twice, does not end the program when the server does not read");
            }
            simrt::probe("server-deaf");
            continue;
        }
        // bytes of this phase
        let upto = bar.stdout.get(&TERM).copied().unwrap_or(0);
        let mut touched = false;
        loop {
            let next = resizes.peek().filter(|r| r.3 <= bar.step).map(|r| (r.0 as usize).min(upto));
            let end = next.unwrap_or(upto);
            if end > fed {
                screen.feed(&p.stdout[fed..end]);
                fed = end;
            }
            match next {
                Some(_) => {
                    let r = resizes.next().unwrap();
                    screen.resize(r.1, r.2);
                    touched = true;
                }
                None => break,
            }
        }
        let mut arrivals: Vec<usize> = Vec::new();
        while fi < facts.len() && facts[fi].0 <= bar.step {
            if let Fact::Known(m, v) = &facts[fi].1 {
                wild |= !simple(v);
                match m.as_str() {
                    "view" => told.view = v.clone(),
                    "echo" => told.echo = v.clone(),
                    "status" => told.status = v.clone(),
                    "menu" => {
                        told.echo = Value::Null;
                        menus.push(v.clone());
                        arrivals.push(menus.len() - 1);
                    }
                    _ => (),
                }
                match m.as_str() {
                    "view" | "echo" | "menu" => {
                        layers.clear();
                        unsure = false;
                        drawn = true;
                    }
                    "hint" => layers.push(Layer::Hint(v.clone())),
                    "status" => layers.push(Layer::Status),
                    _ => (),
                }
            }
            fi += 1;
        }
        let mut keys: Vec<Key> = Vec::new();
        while ki < lines.len() && lines[ki].0 <= bar.step {
            keys.extend(parse_key(&lines[ki].1));
            ki += 1;
        }
        unsure |= touched || !keys.is_empty();
        let due = asked.iter().filter(|a| a.0 <= bar.step).count();
        let ends = over_at.map_or(false, |s| s <= bar.step) || !bar.running.contains(&TERM) && !running;
        // all merges of arrivals and keys
        let mut grid: Vec<Vec<BTreeSet<St>>> = vec![vec![BTreeSet::new(); keys.len() + 1]; arrivals.len() + 1];
        grid[0][0] = states.clone();
        let mut stopped: BTreeSet<St> = BTreeSet::new();
        let mut expected: Option<(usize, usize, String)> = None;
        for i in 0..=arrivals.len() {
            for j in 0..=keys.len() {
                let here = grid[i][j].clone();
                for st in here {
                    if ends || st.ended {
                        stopped.insert(st.clone());
                    }
                    if st.ended {
                        continue;
                    }
                    if i < arrivals.len() {
                        for s in arrive(&st, arrivals[i], &menus) {
                            grid[i + 1][j].insert(s);
                        }
                    }
                    if j < keys.len() {
                        for (mut s, out) in press(&st, &keys[j], &menus) {
                            if let Some((m, p)) = out {
                                match asked.get(s.reqs).filter(|_| s.reqs < due) {
                                    Some(a) if a.1 == m && a.2 == p => {
                                        s.reqs += 1;
                                        in_menus += st.menu.is_some() as usize;
                                    }
                                    _ => {
                                        let got = asked.get(s.reqs).filter(|_| s.reqs < due).map(|a| format!("{} {}", a.1, vstr(&a.2)));
                                        if expected.as_ref().map_or(true, |e| (s.reqs, j) >= (e.0, e.1)) {
                                            expected = Some((s.reqs, j, format!("key {} {} in the state {:?} asks for {} {}, on the wire is {:?}", keys[j].mods, keys[j].code, st.menu, m, vstr(&p), got)));
                                        }
                                        // what is asked at the end of the connection need not arrive
                                        if !(over && ends && s.reqs == asked.len()) && !(hasty && !running && s.reqs == asked.len()) {
                                            continue;
                                        }
                                    }
                                }
                            }
                            grid[i][j + 1].insert(s);
                        }
                    }
                }
            }
        }
        let last: BTreeSet<St> = grid[arrivals.len()][keys.len()].iter().chain(stopped.iter()).filter(|s| s.reqs == due).cloned().collect();
        if last.is_empty() {
            return bad(
                "wrong-requests",
                format!("no order of {} keys and {} menus explains {} requests: {}", keys.len(), arrivals.len(), due, expected.map_or("one request too many".into(), |e| e.2)),
            );
        }
        let alive = bar.running.contains(&TERM);
        states = last.into_iter().filter(|s| if alive { !s.ended } else { s.ended || ends && over }).collect();
        if states.is_empty() {
            if alive {
                return bad("not-ended", "the key to leave did not end the program");
            }
            return bad("ended-early", "the program ended although neither the key to leave was pressed nor the connection closed");
        }
        if !alive {
            break;
        }
        if !screens {
            continue;
        }
        if wild || screen.odd.is_some() {
            if let (false, Some(o)) = (wild, &screen.odd) {
                return unclear(format!("the emulated terminal does not know {}", o));
            }
            continue;
        }
        let drawing = !screen.alt || screen.w == 0 || screen.h == 0 || !drawn;
        if drawing {
            continue;
        }
        if screen.hidden != true {
            return bad("wrong-screen", "the cursor is shown");
        }
        let mut diff: Option<String> = None;
        let mut keep: BTreeSet<St> = BTreeSet::new();
        for st in &states {
            let m = st.menu.as_ref().map(|(m, s, _)| (&menus[*m], *s));
            let from = if unsure { 0..=layers.len() } else { 0..=0 };
            for g in grids(&told, m, screen.w, screen.h) {
                let st_row = status_row(&told, screen.w);
                for k in from.clone() {
                    let mut g = g.clone();
                    for l in &layers[k..] {
                        match l {
                            Layer::Hint(v) => overlay(&mut g, v, screen.w, screen.h),
                            Layer::Status => put_row(&mut g, screen.w, screen.h - 1, st_row.iter().copied()),
                        }
                    }
                    match differs(&screen, &g) {
                        None => {
                            keep.insert(st.clone());
                        }
                        Some(d) => {
                            diff.get_or_insert(d);
                        }
                    }
                }
            }
        }
        if keep.is_empty() {
            let m: Vec<String> = states.iter().map(|s| format!("{:?}", s.menu.as_ref().map(|m| (&menus[m.0]["title"], m.1)))).collect();
            return bad("wrong-screen", format!("{} [menus {}]", diff.unwrap_or_default(), m.join(" or ")));
        }
        states = keep;
        compared += 1;
    }
    // left as found
    if !running {
        if fed < p.stdout.len() {
            screen.feed(&p.stdout[fed..]);
        }
        if p.raw_mode {
            return bad("terminal-left", "the terminal is left in raw mode");
        }
        if !wild && (screen.alt || screen.hidden) {
            return bad("terminal-left", format!("the terminal is left with alternate screen {}, cursor hidden {}", screen.alt, screen.hidden));
        }
        if !wild && screen.spoiled {
            return bad("terminal-left", "what was on the normal screen was overwritten");
        }
        simrt::probe("terminal-restored");
    }
    if screens {
        simrt::probe("screens-compared");
        Ok(compared > 2)
    } else {
        simrt::probe("keys-explained");
        Ok(asked.len() > files.len() + 1 && in_menus > 0)
    }
}
