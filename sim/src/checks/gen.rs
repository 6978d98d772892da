//! Random workloads of well-defined requests for the checks that use the model.
use super::model::{script, Arg, Stmt};
use super::*;
use serde_json::json;

#[derive(Clone)]
pub struct Mix {
    pub scratch: usize,
    pub file: usize,
    pub view: usize,
    pub add: usize,
    pub remove: usize,
    pub delete: usize,
    pub menu: usize,
    pub select: usize,
    pub moves: usize,
    pub modes: usize,
    pub text: usize,
    pub emoves: usize,
    pub fail: usize,
    pub msg: usize,
    pub refused: usize,
    pub quit: usize,
    /// chance in percent that clients come and go
    pub churn: usize,
    /// chance in percent of many short visits before the work
    pub visits: usize,
    /// chance in percent of something left, deleted, made again and visited again
    pub story: usize,
    /// chance in percent of delays and slow readers
    pub wire: usize,
    pub files: bool,
}
pub const NONE: Mix = Mix {
    scratch: 0,
    file: 0,
    view: 0,
    add: 0,
    remove: 0,
    delete: 0,
    menu: 0,
    select: 0,
    moves: 0,
    modes: 0,
    text: 0,
    emoves: 0,
    fail: 0,
    msg: 0,
    refused: 0,
    quit: 0,
    churn: 20,
    visits: 0,
    story: 12,
    wire: 0,
    files: false,
};

impl Mix {
    /// Some runs leave out most kinds of requests and dwell on others.
    fn swarm(&self, r: &mut Rng) -> Mix {
        let mut m = self.clone();
        if r.chance(60) {
            return m;
        }
        let mut ws = [
            &mut m.scratch,
            &mut m.file,
            &mut m.view,
            &mut m.add,
            &mut m.remove,
            &mut m.delete,
            &mut m.menu,
            &mut m.select,
            &mut m.moves,
            &mut m.modes,
            &mut m.text,
            &mut m.emoves,
            &mut m.fail,
            &mut m.msg,
        ];
        for w in ws.iter_mut() {
            **w *= *r.pick(&[0, 0, 1, 1, 4, 10]);
        }
        if ws.iter().all(|w| **w == 0) {
            return self.clone();
        }
        m
    }
}

pub const BUFS: [&str; 12] = ["a", "b", "ab", "dé", "*scratch*", "c{0}", "x|y", "A b", "n\nl", "\\", "a{*}", " b "];
/// may lead to one of the files
const LINK: &str = "ln";
pub const FILES: [&str; 5] = ["f1", "notes.txt", "sub/f2", "f é", "sub/deep/er/f3"];
pub const PIECES: [&str; 20] = [
    "\u{feff}",
    "a\nb\nc\n",
    "hello",
    "\n",
    "\n",
    " ",
    "é",
    "e\u{301}",
    "日本",
    "👩\u{200d}👩\u{200d}👧",
    "🇫🇷",
    "x",
    "wörld",
    "\n\n",
    "ab",
    "\t",
    "1️⃣",
    "🚀",
    "long line of text",
    "'q' \\ \"",
];
pub fn text(r: &mut Rng, max: usize) -> String {
    let n = r.below(max + 1);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(*r.pick(&PIECES));
    }
    if r.chance(60) {
        s.push('\n');
    }
    s
}
/// A search that finds this.
fn parts(r: &mut Rng, of: &[char]) -> String {
    let mut at = 0;
    let mut words: Vec<String> = Vec::new();
    for _ in 0..r.range(1, 3) {
        if at >= of.len() {
            break;
        }
        let from = at + r.below((of.len() - at).min(6));
        let to = from + 1 + r.below((of.len() - from).min(5));
        let flip = r.chance(20);
        words.push(of[from..to].iter().map(|c| if flip { c.to_ascii_uppercase() } else { *c }).collect());
        at = to;
    }
    words.join(if r.chance(85) { " " } else { "\t" })
}
/// Any of the known buffers, sometimes one that does not exist.
fn buf(r: &mut Rng, m: &Mix) -> String {
    match r.below(12) {
        0 => "nowhere".into(),
        1 => "*scratch*".into(),
        2 => "*messages*".into(),
        3 => "*debug*".into(),
        4 if r.chance(30) => "*errors*".into(),
        5 if m.files && r.chance(15) => LINK.into(),
        5 | 6 if m.files => r.pick(&FILES).to_string(),
        _ => {
            let k = if r.chance(70) { 3 } else { BUFS.len() };
            BUFS[r.below(k)].into()
        }
    }
}
fn view_id(r: &mut Rng, m: &Mix) -> String {
    match r.below(6) {
        0 => "*debug*{*}|*scratch*{*}".into(),
        1 => format!("{}{{*}}", buf(r, m)),
        2 => "a{*}|b{*}".into(),
        3 => (*r.pick(&["a{*,*}", "*scratch*{*}", "b{*}|dé{*}", "a{", "", "c\\{0\\}{*}", "c{0}{*}|x\\|y{*}", "n\nl{*}|\\\\{*}", "a\\{*\\}{*}", "a{*}|a\\{*\\}{*}", "a{*}|ab{*}|b{*}", "a{*}", "a{*}"])).into(),
        _ => buf(r, m),
    }
}
/// Me, another client, or nobody.
pub fn who(r: &mut Rng, n: usize) -> Arg {
    match r.below(20) {
        0 => Arg::Int(4242),
        1..=3 => Arg::Int(770_000 + r.below(n) as i64),
        _ => Arg::Me,
    }
}
pub const MOVES: [&str; 8] = [
    "move_left",
    "move_right",
    "move_up",
    "move_down",
    "move_to_line_begin",
    "move_to_line_end",
    "move_to_begin",
    "move_to_end",
];
pub fn call(n: &str, a: Vec<Arg>) -> Stmt {
    Stmt::Call(n.into(), a)
}
fn text_buf(r: &mut Rng) -> String {
    match r.below(10) {
        0 => "*scratch*".into(),
        1 => "*messages*".into(),
        2 => "new".into(),
        3 => BUFS[r.below(BUFS.len())].into(),
        _ => BUFS[r.below(5)].into(),
    }
}
pub fn stmt_text(r: &mut Rng, n: usize) -> Stmt {
    match r.below(6) {
        0 | 1 => {
            let t = text(r, 6);
            call("scratch", vec![who(r, n), Arg::Str(text_buf(r)), Arg::Str(t)])
        }
        2 => call("edit", vec![who(r, n), Arg::Str(text_buf(r)), Arg::Bool(true)]),
        3 => {
            let t = text(r, 2);
            let s = call("append_to", vec![Arg::Str(text_buf(r)), Arg::Str(t)]);
            Stmt::Repeat(r.range(1, 3), Box::new(s))
        }
        _ => {
            let t = text(r, 3);
            call("append_to", vec![Arg::Str(text_buf(r)), Arg::Str(t)])
        }
    }
}
pub fn stmt_move(r: &mut Rng, n: usize) -> Stmt {
    if r.chance(18) {
        return call("delete_selection", vec![who(r, n)]);
    }
    let m = *r.pick(&MOVES);
    let c = call(m, vec![who(r, n), Arg::Bool(r.chance(45))]);
    if r.chance(40) {
        Stmt::Repeat(r.range(1, 5), Box::new(c))
    } else {
        c
    }
}
fn stmt_msg(r: &mut Rng, n: usize) -> Stmt {
    let w = who(r, n);
    let what = match r.below(8) {
        0 => Arg::Env,
        1 => Arg::Key(Box::new(who(r, n))),
        2 if r.chance(50) => Arg::Where(Box::new(who(r, n)), BUFS[r.below(3)].into()),
        2 => Arg::Text(Box::new(who(r, n)), BUFS[r.below(3)].into()),
        3 | 4 => Arg::Count,
        5 => Arg::Str(text(r, 2)),
        _ => Arg::Str(format!("m{}", r.below(1000))),
    };
    if r.chance(8) {
        let v = (0..r.range(1, 3)).map(|_| r.pick(&["hint", "é", "a longer line", "x y"]).to_string()).collect();
        return call("show_hint", vec![w, Arg::List(v)]);
    }
    call(if r.chance(80) { "message" } else { "error" }, vec![w, what])
}
pub fn stmt_bad(r: &mut Rng, n: usize) -> Stmt {
    match r.below(13) {
        10 => Stmt::ErrorOf(Box::new(if r.chance(60) { stmt_text(r, n).one() } else { stmt_msg(r, n).one() })),
        11 => {
            let mut v = Vec::new();
            for _ in 0..r.range(1, 3) {
                v.push(match r.below(4) {
                    0 => stmt_text(r, n),
                    1 => stmt_msg(r, n),
                    2 => stmt_move(r, n),
                    _ => stmt_bad(r, n),
                });
            }
            v.retain(|s| !matches!(s, Stmt::Syntax | Stmt::Comment));
            if v.is_empty() {
                v.push(Stmt::Error);
            }
            Stmt::Pcall(v)
        }
        12 => Stmt::Comment,
        0 | 1 => Stmt::Error,
        2 => Stmt::Syntax,
        3 => call("nosuch", vec![Arg::Me]),
        4 => call("message", vec![Arg::Str("x".into()), Arg::Str("y".into())]),
        5 => call("move_left", vec![Arg::Int(*r.pick(&[-1, 4242])), Arg::Bool(false)]),
        6 => call("scratch", vec![Arg::Int(4242), Arg::Str("a".into()), Arg::Str("lost".into())]),
        7 => call("append_to", vec![Arg::Str("a".into()), Arg::Nil]),
        8 => call("edit", vec![who(r, n), Arg::Str("no/such/file".into())]),
        _ => call("delete_selection", vec![Arg::Nil]),
    }
}
pub fn exec_src(r: &mut Rng, n: usize, mut f: impl FnMut(&mut Rng, usize) -> Stmt, max: usize) -> String {
    let k = r.range(1, max);
    let mut v: Vec<Stmt> = (0..k).map(|_| f(r, n)).collect();
    if r.chance(5) {
        if let Some(l @ Stmt::Call(..)) = v.pop() {
            v.push(Stmt::Return(Box::new(l)));
        }
    }
    let mut s = script(&v);
    for c in 0..n {
        s = s.replace(&format!("{}", 770_000 + c), &format!("$I{}$", c));
    }
    s
}
pub fn move_keys(r: &mut Rng) -> Vec<&'static str> {
    let mut v = Vec::new();
    let n = if r.chance(3) { r.range(6, 60) } else { r.range(1, 6) };
    for _ in 0..n {
        match r.below(10) {
            0 => v.push("d"),
            1 => v.extend(["g", "h"]),
            2 => v.extend(["g", "l"]),
            3 => v.extend(["s-g", "l"]),
            4 => v.extend(["s-g", "h"]),
            _ => v.push(*r.pick(&["h", "j", "k", "l", "l", "j", "s-h", "s-j", "s-k", "s-l", "s-l"])),
        }
    }
    v
}
fn mode_keys(r: &mut Rng) -> Vec<&'static str> {
    let mut v = Vec::new();
    let n = if r.chance(4) { r.range(6, 80) } else { r.below(6) };
    for _ in 0..n {
        v.push(*r.pick(&[
            "i", "esc", "g", "s-g", "h", "l", "j", "m", "e", "z", "c-g", "a-i", "ret", "up", "bkspc", "é", "d", "s-l", "c-a-x",
        ]));
    }
    v
}

pub fn request(r: &mut Rng, m: &Mix, c: usize, n: usize, id: &Value) -> String {
    let ws = [
        m.scratch, m.file, m.view, m.add, m.remove, m.delete, m.menu, m.select, m.moves, m.modes, m.text, m.emoves, m.fail,
        m.msg, m.refused, m.quit,
    ];
    let total: usize = ws.iter().sum();
    let mut x = r.below(total);
    let mut which = 0;
    for (i, w) in ws.iter().enumerate() {
        if x < *w {
            which = i;
            break;
        }
        x -= w;
    }
    let menus = ["", "open", "view_select", "view_add", "view_remove", "scratch", "exec"];
    match which {
        0 => req(id, "edit", Some(json!({"name": text_buf(r), "scratch": true}))),
        1 => {
            let f = if r.chance(85) { r.pick(&FILES).to_string() } else { buf(r, m) };
            req(id, "edit", Some(json!({"name": f, "scratch": false})))
        }
        2 => req(id, "view", Some(json!(view_id(r, m)))),
        3 => req(id, "view-add", Some(json!(buf(r, m)))),
        4 => req(id, "view-remove", Some(json!(buf(r, m)))),
        5 => req(id, "view-delete", None),
        6 => {
            let k = if r.chance(5) { "nomenu" } else { *r.pick(&menus) };
            let several: String;
            let s = match r.below(12) {
                0..=3 => "",
                10 | 11 => {
                    // taken from something that may be listed
                    let of: Vec<char> = match r.below(4) {
                        0 | 1 => r.pick(&BUFS).chars().collect(),
                        2 => r.pick(&FILES).chars().collect(),
                        _ => r.pick(&["change view", "open file", "delete current view", "add buffer to current view", "*messages*|x"]).chars().collect(),
                    };
                    several = parts(r, &of);
                    &several
                }
                4 => *r.pick(&["a", "E", "view", "f", "é"]),
                5 => *r.pick(&["VIEW  sel", "new s", "e e", "to view", "s s"]),
                6 => *r.pick(&["zz", "(", ".*", "[a", "|", "*", "\\", " "]),
                7 => *r.pick(&["scr", "deb", "*scr", "mess ag", "ab", "é", "D", "b a"]),
                8 if r.chance(60) => {
                    let w = ["view", "change", "to", "from", "the", "ve", "add", "rem", "de", "script", "open", "file", "e", "s", "a", "new", "scratch", "l", "ect", "buf", "NOTES", "txt", "f", "*", "é", "n", "l", "deep", "/", "\\", "{"];
                    let by = if r.chance(65) { " " } else { *r.pick(&["\t", "\n", " \t ", "\u{a0}", "\u{3000}"]) };
                    several = (0..r.range(2, 4)).map(|_| *r.pick(&w)).collect::<Vec<_>>().join(by);
                    &several
                }
                8 => *r.pick(&["open file", "q", "te", "TE", "he", "ew", "d v", "c c"]),
                _ => "e",
            };
            req(id, "menu", Some(json!({"command": k, "search": s})))
        }
        7 => {
            let k = if r.chance(4) { "nomenu" } else { *r.pick(&menus) };
            let ch = if r.chance(8) {
                "none".to_string()
            } else {
                match k {
                    "" => (*r.pick(&["open", "scratch", "view_select", "view_delete", "view_add", "view_remove", "exec"])).into(),
                    "open" if r.chance(10) => LINK.into(),
                    "open" => r.pick(&FILES).to_string(),
                    "scratch" => text_buf(r),
                    "view_select" => view_id(r, m),
                    "exec" => exec_src(r, n, stmt_msg, 2),
                    _ => buf(r, m),
                }
            };
            req(id, "menu-select", Some(json!({"command": k, "choice": ch})))
        }
        8 => {
            let k = move_keys(r);
            req(id, "keys", Some(c01::keys_json(&k)))
        }
        9 => {
            let k = mode_keys(r);
            req(id, "keys", Some(c01::keys_json(&k)))
        }
        10 => req(id, "exec", Some(json!(exec_src(r, n, stmt_text, 3)))),
        11 => req(id, "exec", Some(json!(exec_src(r, n, stmt_move, 5)))),
        12 => {
            let src = exec_src(
                r,
                n,
                |r, n| match r.below(5) {
                    0 | 1 => stmt_bad(r, n),
                    2 => stmt_text(r, n),
                    3 => stmt_move(r, n),
                    _ => stmt_msg(r, n),
                },
                5,
            );
            req(id, "exec", Some(json!(src)))
        }
        13 => req(id, "exec", Some(json!(exec_src(r, n, stmt_msg, 3)))),
        14 => loop {
            let l = c01::odd_line(r, id);
            if let Ok(s) = String::from_utf8(l) {
                return s;
            }
        },
        _ => {
            let _ = c;
            req(id, "quit", None)
        }
    }
}

/// Something is left, deleted by someone, made again and visited again.
fn story(r: &mut Rng, b: &mut PB, m: &Mix, here: &[bool], gone: &[bool], next: &mut [i64]) {
    let who: Vec<usize> = (0..here.len()).filter(|c| here[*c] && !gone[*c]).collect();
    if who.is_empty() {
        return;
    }
    let a = *r.pick(&who);
    let o = *r.pick(&who);
    let file = m.files && r.chance(30);
    let x: String = if file { r.pick(&FILES).to_string() } else { text_buf(r) };
    let y = text_buf(r);
    let key = |n: &str| {
        let mut s = String::new();
        for c in n.chars() {
            if "\\{}|".contains(c) {
                s.push('\\');
            }
            s.push(c);
        }
        s
    };
    let lone = format!("{}{{*}}", key(&x));
    let both = if x < y { format!("{}{{*}}|{}{{*}}", key(&x), key(&y)) } else { format!("{}{{*}}|{}{{*}}", key(&y), key(&x)) };
    let both = if x == y { format!("{}{{*,*}}", key(&x)) } else { both };
    let scratch = |n: &str, t: String| ("exec", Some(json!(script(&[call("scratch", vec![Arg::Me, Arg::Str(n.into()), Arg::Str(t)])]))));
    let edit = |n: &str, s: bool| ("edit", Some(json!({"name": n, "scratch": s})));
    let composite = r.chance(35);
    let there = if composite { both.clone() } else { lone.clone() };
    let mut steps: Vec<(usize, Vec<(&'static str, Option<Value>)>)> = Vec::new();
    let moves = |r: &mut Rng| {
        let k = move_keys(r);
        ("keys", Some(c01::keys_json(&k)))
    };
    let mut first = vec![if file { edit(&x, false) } else { scratch(&x, text(r, 10)) }];
    if composite {
        if !r.chance(30) {
            first.insert(0, edit(&y, true));
        }
        first.push(("view-add", Some(json!(y))));
    }
    first.push(moves(r));
    steps.push((a, first));
    if r.chance(25) {
        let list = *r.pick(&["view_select", "view_add", "view_remove"]);
        let of: Vec<char> = x.chars().collect();
        let search = if r.chance(20) { x.clone() } else { parts(r, &of) };
        steps.push((o, vec![("menu", Some(json!({"command": list, "search": ""}))), ("menu", Some(json!({"command": list, "search": search})))]));
    }
    if r.chance(30) {
        steps.push((o, vec![("view", Some(json!(there))), moves(r)]));
    }
    if r.chance(80) {
        let away = if r.chance(50) { edit("away", true) } else { ("view", Some(json!("*scratch*"))) };
        steps.push((a, vec![away]));
    }
    steps.push((
        o,
        match r.below(6) {
            0 => vec![("view", Some(json!(there))), ("view-remove", Some(json!(x)))],
            1 => vec![("view", Some(json!(lone))), ("view-delete", None), ("view", Some(json!(both))), ("view-delete", None)],
            2 if file => vec![edit(&x, false)],
            2 => vec![scratch(&x, text(r, 3))],
            3 => vec![("view", Some(json!(there))), ("view-add", Some(json!(y)))],
            _ => vec![("view", Some(json!(there))), ("view-delete", None)],
        },
    ));
    if r.chance(60) {
        let c = if r.chance(50) { a } else { o };
        steps.push((
            c,
            match r.below(4) {
                0 => vec![edit(&x, true)],
                1 => vec![("exec", Some(json!(script(&[call("append_to", vec![Arg::Str(x.clone()), Arg::Str(text(r, 4))])]))))],
                2 if file => vec![edit(&x, false)],
                _ => vec![scratch(&x, text(r, 3))],
            },
        ));
        if composite {
            steps.push((c, vec![edit(&y, true), ("view-add", Some(json!(x)))]));
        }
    }
    steps.push((a, vec![("view", Some(json!(if r.chance(50) { there.clone() } else { x.clone() })))]));
    steps.push((a, vec![moves(r)]));
    let skip = if r.chance(40) { r.below(steps.len()) } else { steps.len() };
    for (i, (c, reqs)) in steps.into_iter().enumerate() {
        if i == skip {
            continue;
        }
        b.phase("story");
        let mut data = String::new();
        for (method, params) in reqs {
            next[c] += 1;
            data.push_str(&req(&json!(next[c] * 10 + c as i64), method, params));
            data.push('\n');
        }
        b.op(c, Op::Send { c, data: data.into() });
    }
}

/// Clients working on one server; what each of them is told must be explained
/// by some order of the requests.
pub fn mixed(r: &mut Rng, b: &mut PB, m: &Mix, thorough: bool) {
    let m = &m.swarm(r);
    // nothing is held back at the end of a phase
    if m.files {
        b.phase("files");
        let to = if r.chance(30) { FILES[r.below(2)] } else { "" };
        for f in FILES {
            if f == to || r.chance(80) {
                let t = text(r, 8);
                b.op(900, Op::WriteFile { path: format!("/sim/work/{}", f), data: t.into(), age_ms: 5000 });
            }
        }
        if !to.is_empty() {
            b.op(900, Op::Symlink { path: format!("/sim/work/{}", LINK), target: format!("/sim/work/{}", to) });
        }
    }
    start_server(b);
    // many parties, or long histories, one party at a time
    let (wide, deep) = (r.chance(7), r.chance(7));
    let n = if wide { r.range(5, 12) } else { r.range(2, if thorough { 4 } else { 3 }) };
    let mut here = vec![false; n];
    let mut gone = vec![false; n];
    let mut next = vec![0i64; n];
    b.phase("join");
    for c in 0..n {
        if c == 0 || r.chance(75) {
            if wide {
                b.phase("join");
            }
            b.op(if r.chance(50) { c } else { 0 }, Op::Connect { c, session: S.into() });
            here[c] = true;
        }
    }
    // something to work on
    if r.chance(70) {
        b.phase("setup");
        let mut buf = String::new();
        for _ in 0..r.range(1, 3) {
            next[0] += 1;
            let t = text(r, 10);
            let s = script(&[call("scratch", vec![Arg::Me, Arg::Str(BUFS[r.below(3)].into()), Arg::Str(t)])]);
            buf.push_str(&req(&json!(next[0]), "exec", Some(json!(s))));
            buf.push('\n');
        }
        b.op(0, Op::Send { c: 0, data: buf.into() });
    }
    if r.chance(m.visits) {
        let mut c = 20;
        for _ in 0..r.range(2, if thorough { 40 } else { 22 }) {
            b.phase("visits");
            for _ in 0..r.range(1, 3) {
                b.op(901, Op::Connect { c, session: S.into() });
                if r.chance(80) {
                    b.op(901, Op::Nop);
                }
                b.op(901, if r.chance(60) { Op::Close { c } } else { Op::Reset { c } });
                c += 1;
            }
        }
    }
    let phases = r.range(2, if thorough { 10 } else { 6 });
    let told = if r.chance(m.story) { r.below(phases) } else { phases };
    for p in 0..phases {
        if p == told {
            story(r, b, m, &here, &gone, &mut next);
        }
        b.phase("work");
        let mut budget = if thorough { 12 } else { 10 };
        let before = here.clone();
        let solo = if wide || deep || r.chance(25) { Some(r.below(n)) } else { None };
        for c in 0..n {
            if gone[c] {
                continue;
            }
            if !here[c] {
                if r.chance(if wide { 10 } else { 40 }) {
                    b.op(c, Op::Connect { c, session: S.into() });
                    here[c] = true;
                } else {
                    continue;
                }
            }
            if solo.map_or(false, |s| s != c) {
                continue;
            }
            let k = if deep { r.range(10, 30) } else { r.below(5).min(budget) };
            budget = budget.saturating_sub(k);
            let mut buf: Vec<u8> = Vec::new();
            let mut quit = false;
            for _ in 0..k {
                next[c] += 1;
                let id = json!(next[c] * 10 + c as i64);
                let others = (0..n).any(|o| o != c && before[o] && !gone[o]);
                let mut line = request(r, m, c, n, &id);
                if c01::quits(line.as_bytes()) && !others {
                    line = req(&id, "view-delete", None);
                }
                quit |= c01::quits(line.as_bytes());
                buf.extend(line.into_bytes());
                buf.push(b'\n');
                if r.chance(10) {
                    send_cut(r, b, c, c, &buf);
                    buf.clear();
                    b.op(c, Op::Sync { c });
                }
                if quit {
                    break;
                }
            }
            let hold = r.chance(m.wire);
            let how = r.below(3);
            if hold {
                match how {
                    0 => b.op(c, Op::Freeze { c, dir: 0 }),
                    1 => b.op(c, Op::Freeze { c, dir: 1 }),
                    _ => b.op(c, Op::Sync { c }).op(c, Op::Stall { c }),
                };
            }
            send_cut(r, b, c, c, &buf);
            if hold {
                b.op(c, Op::Nop);
                match how {
                    0 => b.op(c, Op::Thaw { c, dir: 0 }),
                    1 => b.op(c, Op::Thaw { c, dir: 1 }),
                    _ => b.op(c, Op::Unstall { c }),
                };
            }
            let others = (0..n).any(|o| o != c && before[o] && !gone[o]);
            if quit {
                gone[c] = true;
            } else if others && r.chance(m.churn / 2) {
                b.op(c, Op::Sync { c });
                b.op(c, if r.chance(70) { Op::Close { c } } else { Op::Reset { c } });
                gone[c] = true;
            }
        }
    }
}
