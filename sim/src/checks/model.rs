//! Reference model of the editor: an executable specification of what the
//! requests do, and a search that decides whether some order of the handled
//! requests explains everything the clients were told.
use super::*;
use bstr::ByteSlice;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

pub const DEBUG: &str = "*debug*";
pub const ERRORS: &str = "*errors*";
pub const MESSAGES: &str = "*messages*";
pub const SCRATCH: &str = "*scratch*";
pub fn opaque(b: &str) -> bool {
    b == DEBUG || b == ERRORS
}

// ------------------------------------------------------------------ text

/// starts of the graphemes of a line, and its length
fn grid(line: &str) -> Vec<usize> {
    line.as_bytes().grapheme_indices().map(|(i, _, _)| i).collect()
}
/// (start of line, line without newline, has newline)
pub fn lines_of(t: &str) -> Vec<(usize, &str, bool)> {
    let mut v = Vec::new();
    let mut s = 0;
    while s < t.len() {
        match t[s..].find('\n') {
            Some(i) => {
                v.push((s, &t[s..s + i], true));
                s += i + 1;
            }
            None => {
                v.push((s, &t[s..], false));
                break;
            }
        }
    }
    v
}
/// start of the last character
fn last_char(t: &str) -> usize {
    let l = lines_of(t);
    match l.last() {
        None => 0,
        Some((s, line, true)) => s + line.len(),
        Some((s, line, false)) => s + grid(line).last().copied().unwrap_or(0),
    }
}
/// (line index, column index) of a character start; a newline is the column after the last
fn coords(t: &str, off: usize) -> (usize, usize) {
    for (i, (s, line, _)) in lines_of(t).iter().enumerate() {
        if off <= s + line.len() {
            let g = grid(line);
            let c = g.iter().filter(|x| s + **x < off).count();
            return (i, c);
        }
    }
    (0, 0)
}
/// line and column of the character at this offset, as people count them
fn place(t: &str, off: usize) -> (usize, usize) {
    let start = t[..off].rfind('\n').map(|i| i + 1).unwrap_or(0);
    let line = t[start..].split('\n').next().unwrap_or("");
    let c = if off == start + line.len() { grid(line).len() } else { grid(line).iter().filter(|g| start + **g <= off).count() - 1 };
    (t[..off].matches('\n').count() + 1, c + 1)
}
fn offset(t: &str, l: usize, c: usize) -> usize {
    let ls = lines_of(t);
    let (s, line, _) = ls[l];
    let g = grid(line);
    s + g.get(c).copied().unwrap_or(line.len())
}
/// end of the character at this offset
fn char_end(t: &str, off: usize) -> usize {
    let (l, c) = coords(t, off);
    let ls = lines_of(t);
    let (s, line, nl) = ls[l];
    let g = grid(line);
    if c >= g.len() {
        return if nl { s + line.len() + 1 } else { t.len() };
    }
    s + g.get(c + 1).copied().unwrap_or(line.len())
}
pub fn sel_text<'a>(t: &'a str, s: &Sel) -> &'a str {
    &t[s.begin()..char_end(t, s.end())]
}
/// start of the character this offset is in, at most the last one
fn snap(t: &str, off: usize) -> usize {
    let off = off.min(last_char(t));
    for (s, line, _) in lines_of(t) {
        if off <= s + line.len() {
            if off == s + line.len() {
                return off;
            }
            return s + grid(line).into_iter().filter(|g| s + g <= off).last().unwrap_or(0);
        }
    }
    0
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Sel {
    pub anchor: usize,
    pub cursor: usize,
    /// remembered column (0-based)
    pub col: usize,
}
pub const SEL0: Sel = Sel { anchor: 0, cursor: 0, col: 0 };
impl Sel {
    fn begin(&self) -> usize {
        self.anchor.min(self.cursor)
    }
    fn end(&self) -> usize {
        self.anchor.max(self.cursor)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Dir {
    Left,
    Right,
    Up,
    Down,
    LineBegin,
    LineEnd,
    Begin,
    End,
}

fn moved(t: &str, s: Sel, d: Dir, extend: bool) -> Sel {
    if t.len() <= 1 {
        return s;
    }
    let ls = lines_of(t);
    let (mut l, mut c) = coords(t, s.cursor);
    let mut col = s.col;
    let (ml, mc) = coords(t, last_char(t));
    let width = |l: usize| grid(ls[l].1).len();
    match d {
        Dir::Left => {
            if c > 0 {
                c -= 1;
                col = c;
            } else if l > 0 {
                l -= 1;
                c = width(l);
                col = c;
            }
        }
        Dir::Right => {
            if (l, c) != (ml, mc) {
                if c == width(l) {
                    l += 1;
                    c = 0;
                } else {
                    c += 1;
                }
                col = c;
            }
        }
        Dir::Up => l = l.saturating_sub(1),
        Dir::Down => {
            if l + 1 < ls.len() {
                l += 1
            }
        }
        Dir::LineBegin => col = 0,
        Dir::LineEnd => col = width(l).saturating_sub(1),
        Dir::Begin => {
            l = 0;
            col = 0;
        }
        Dir::End => {
            l = ml;
            col = mc;
        }
    }
    let _ = c;
    // stays on the line, on its newline at most
    let max = if l == ml { mc } else { width(l) };
    let cursor = offset(t, l, col.min(max));
    Sel { cursor, anchor: if extend { s.anchor } else { cursor }, col }
}

// ----------------------------------------------------------------- state

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Buf {
    pub text: String,
    /// for a file: what was read from it
    pub sync: Option<String>,
}
pub type ViewK = BTreeMap<String, usize>;
pub fn key_of(v: &ViewK) -> String {
    let mut parts = Vec::new();
    for (b, n) in v {
        let mut name = String::new();
        for c in b.chars() {
            if "\\{}|".contains(c) {
                name.push('\\');
            }
            name.push(c);
        }
        parts.push(format!("{}{{{}}}", name, vec!["*"; *n].join(",")));
    }
    parts.join("|")
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Mode {
    Insertion,
    MoveTo,
    ExtendTo,
}

type Sels = BTreeMap<String, Sel>;
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Cl {
    pub view: String,
    pub sels: BTreeMap<String, Rc<Sels>>,
    pub modes: Vec<Mode>,
}

/// What a client is told besides what it displays.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Note {
    Info,
    Echo(String),
    Err(String),
    /// an error message whose wording is free
    AnyErr,
    Status(Vec<String>),
    Hint(String),
    Lines(Vec<String>),
    Menu { command: String, search: String, entries: Vec<(String, String)>, prompt: bool },
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct St {
    pub bufs: BTreeMap<String, Rc<Buf>>,
    /// most recent first
    pub views: Vec<(String, Rc<ViewK>)>,
    pub clients: BTreeMap<usize, Rc<Cl>>,
    /// most recent first
    pub stack: Vec<usize>,
    /// entries gathered per menu
    pub menus: BTreeMap<String, Rc<Vec<String>>>,
    pub count: i64,
    /// notifications matched so far, per client (messages, errors of a run)
    pub told: BTreeMap<usize, (usize, usize)>,
}

impl St {
    pub fn new() -> St {
        let mut bufs = BTreeMap::new();
        bufs.insert(DEBUG.to_string(), Rc::new(Buf { text: String::new(), sync: None }));
        bufs.insert(SCRATCH.to_string(), Rc::new(Buf { text: "\n".into(), sync: None }));
        let mut v = ViewK::new();
        v.insert(DEBUG.into(), 1);
        v.insert(SCRATCH.into(), 1);
        St {
            bufs,
            views: vec![(key_of(&v), Rc::new(v))],
            clients: BTreeMap::new(),
            stack: Vec::new(),
            menus: BTreeMap::new(),
            count: 0,
            told: BTreeMap::new(),
        }
    }
    fn view(&self, k: &str) -> Option<Rc<ViewK>> {
        self.views.iter().find(|(n, _)| n == k).map(|(_, v)| v.clone())
    }
    fn add_view(&mut self, v: ViewK) {
        let k = key_of(&v);
        self.views.retain(|(n, _)| *n != k);
        for c in self.clients.values_mut() {
            let c = Rc::make_mut(c);
            let s = Rc::make_mut(c.sels.entry(k.clone()).or_default());
            for b in v.keys() {
                s.entry(b.clone()).or_insert(SEL0);
            }
        }
        self.views.insert(0, (k, Rc::new(v)));
    }
    fn clamp(&mut self, b: &str) {
        if opaque(b) {
            return;
        }
        let t = self.bufs[b].clone();
        for c in self.clients.values_mut() {
            if !c.sels.values().any(|s| s.contains_key(b)) {
                continue;
            }
            let c = Rc::make_mut(c);
            for s in c.sels.values_mut() {
                if let Some(sel) = s.get(b) {
                    let n = Sel { anchor: snap(&t.text, sel.anchor), cursor: snap(&t.text, sel.cursor), col: sel.col };
                    if n != *sel {
                        Rc::make_mut(s).insert(b.into(), n);
                    }
                }
            }
        }
    }
    fn set_text(&mut self, b: &str, text: String) {
        let text = if text.is_empty() { "\n".to_string() } else { text };
        self.bufs.insert(b.into(), Rc::new(Buf { text, sync: None }));
    }
    fn append(&mut self, b: &str, text: &str) {
        if opaque(b) {
            self.bufs.insert(b.into(), Rc::new(Buf { text: String::new(), sync: None }));
            return;
        }
        match self.bufs.get_mut(b) {
            Some(buf) => Rc::make_mut(buf).text.push_str(text),
            None => self.set_text(b, text.into()),
        }
    }
    fn delete_view(&mut self, k: &str) {
        let v = match self.view(k) {
            Some(v) => v,
            None => return,
        };
        self.views.retain(|(n, _)| n != k);
        for c in self.clients.values_mut() {
            Rc::make_mut(c).sels.remove(k);
        }
        for b in v.keys() {
            if !self.views.iter().any(|(_, o)| o.contains_key(b)) && b != DEBUG {
                self.bufs.remove(b);
            }
        }
        if self.views.is_empty() {
            if !self.bufs.contains_key(SCRATCH) {
                self.set_text(SCRATCH, String::new());
            }
            let mut n = ViewK::new();
            n.insert(SCRATCH.into(), 1);
            self.add_view(n);
        }
        let latest = self.views[0].0.clone();
        for c in self.clients.values_mut() {
            if c.view == k {
                Rc::make_mut(c).view = latest.clone();
            }
        }
    }
    fn modify_view(&mut self, k: &str, new: ViewK) {
        let nk = key_of(&new);
        if nk == k {
            return;
        }
        if !new.is_empty() {
            for c in self.clients.values_mut() {
                let c = Rc::make_mut(c);
                if let Some(mut s) = c.sels.remove(k) {
                    if !c.sels.contains_key(&nk) {
                        Rc::make_mut(&mut s).retain(|b, _| new.contains_key(b));
                        c.sels.insert(nk.clone(), s);
                    }
                }
            }
            self.add_view(new);
        }
        self.delete_view(k);
    }
    fn select(&mut self, c: usize, k: &str) {
        let cl = Rc::make_mut(self.clients.get_mut(&c).unwrap());
        cl.view = k.into();
    }
}

// ------------------------------------------------------------ operations

/// script text before the client's number in an Arg::Where
const WHERE: &str = "(function(s) return table.concat({s.anchor.offset, s.anchor.pos.l, s.anchor.pos.c, s.cursor.offset, s.cursor.pos.l, s.cursor.pos.c}, ' ') end)(editor:get_context(";
#[derive(Clone, Debug, PartialEq)]
pub enum Arg {
    Int(i64),
    Str(String),
    Bool(bool),
    /// tonumber(env.client)
    Me,
    /// env.client .. '@' .. env.session
    Env,
    /// editor:get_context(N).view.key
    Key(Box<Arg>),
    /// editor:get_context(N).selections['B'][1].text
    Text(Box<Arg>, String),
    /// anchor and cursor of editor:get_context(N).selections['B'][1]
    Where(Box<Arg>, String),
    /// the number of times this was evaluated in the session
    Count,
    Nil,
    List(Vec<String>),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Stmt {
    Call(String, Vec<Arg>),
    Repeat(usize, Box<Stmt>),
    /// error(CALL)
    ErrorOf(Box<Stmt>),
    /// pcall(function() ... end)
    Pcall(Vec<Stmt>),
    /// return CALL; only at the end
    Return(Box<Stmt>),
    Comment,
    Error,
    Syntax,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Req {
    Edit(String, bool),
    View(String),
    ViewAdd(String),
    ViewRemove(String),
    ViewDelete,
    Menu(String, String),
    Select(String, String),
    Keys(Vec<String>),
    Exec(Vec<Stmt>),
    Quit,
    /// refused; true: with an error message
    Refused(bool),
    Join,
    Leave,
}

fn lua_str(s: &str) -> String {
    let mut o = String::from("'");
    for c in s.chars() {
        match c {
            '\n' => o.push_str("\\n"),
            '\'' => o.push_str("\\'"),
            '\\' => o.push_str("\\\\"),
            c => o.push(c),
        }
    }
    o + "'"
}
impl Arg {
    pub fn lua(&self) -> String {
        match self {
            Arg::Int(i) => i.to_string(),
            Arg::Str(s) => lua_str(s),
            Arg::Bool(b) => b.to_string(),
            Arg::Me => "tonumber(env.client)".into(),
            Arg::Env => "env.client .. '@' .. env.session".into(),
            Arg::Key(a) => format!("editor:get_context({}).view.key", a.lua()),
            Arg::Where(a, b) => format!("{}{}).selections[{}][1])", WHERE, a.lua(), lua_str(b)),
            Arg::Text(a, b) => format!("editor:get_context({}).selections[{}][1].text", a.lua(), lua_str(b)),
            Arg::Count => "count()".into(),
            Arg::Nil => "nil".into(),
            Arg::List(v) => format!("{{{}}}", v.iter().map(|s| lua_str(s)).collect::<Vec<_>>().join(", ")),
        }
    }
}
pub const PRELUDE: &str = "count = count or (function() local n = 0; return function() n = n + 1; return '#' .. n end end)()";
impl Stmt {
    /// a single call
    pub fn one(self) -> Stmt {
        match self {
            Stmt::Repeat(_, s) => s.one(),
            s => s,
        }
    }
    pub fn lua(&self) -> String {
        match self {
            Stmt::Call(n, a) => format!("editor:{}({})", n, a.iter().map(|a| a.lua()).collect::<Vec<_>>().join(", ")),
            Stmt::Repeat(n, s) => format!("for _ = 1, {} do {} end", n, s.lua()),
            Stmt::ErrorOf(s) => format!("error({})", s.lua()),
            Stmt::Pcall(v) => format!("pcall(function() {} end)", v.iter().map(|s| s.lua()).collect::<Vec<_>>().join("; ")),
            Stmt::Return(s) => format!("return {}", s.lua()),
            Stmt::Comment => "-- editor:message(1, 'not this')".into(),
            Stmt::Error => "error('no')".into(),
            Stmt::Syntax => "))".into(),
        }
    }
}
pub fn script(s: &[Stmt]) -> String {
    let mut v: Vec<String> = Vec::new();
    let body: Vec<String> = s.iter().map(|s| s.lua()).collect();
    if body.iter().any(|b| b.contains("count()")) {
        v.push(PRELUDE.into());
    }
    v.extend(body);
    v.join("\n")
}

struct P<'a> {
    s: &'a str,
}
impl<'a> P<'a> {
    fn lit(&mut self, l: &str) -> bool {
        match self.s.strip_prefix(l) {
            Some(r) => {
                self.s = r;
                true
            }
            None => false,
        }
    }
    fn string(&mut self) -> Option<String> {
        if !self.lit("'") {
            return None;
        }
        let mut o = String::new();
        let mut it = self.s.char_indices();
        while let Some((i, c)) = it.next() {
            match c {
                '\'' => {
                    self.s = &self.s[i + 1..];
                    return Some(o);
                }
                '\\' => match it.next()?.1 {
                    'n' => o.push('\n'),
                    c => o.push(c),
                },
                c => o.push(c),
            }
        }
        None
    }
    fn arg(&mut self) -> Option<Arg> {
        if self.lit(WHERE) {
            let a = self.arg()?;
            if !self.lit(").selections[") {
                return None;
            }
            let b = self.string()?;
            return if self.lit("][1])") { Some(Arg::Where(Box::new(a), b)) } else { None };
        }
        if self.lit("tonumber(env.client)") {
            return Some(Arg::Me);
        }
        if self.lit("env.client .. '@' .. env.session") {
            return Some(Arg::Env);
        }
        if self.lit("count()") {
            return Some(Arg::Count);
        }
        if self.lit("editor:get_context(") {
            let a = self.arg()?;
            if self.lit(").view.key") {
                return Some(Arg::Key(Box::new(a)));
            }
            if self.lit(").selections[") {
                let b = self.string()?;
                if self.lit("][1].text") {
                    return Some(Arg::Text(Box::new(a), b));
                }
            }
            return None;
        }
        if self.lit("{") {
            let mut v = Vec::new();
            if self.lit("}") {
                return Some(Arg::List(v));
            }
            loop {
                v.push(self.string()?);
                if self.lit("}") {
                    return Some(Arg::List(v));
                }
                if !self.lit(", ") {
                    return None;
                }
            }
        }
        for (l, v) in [("true", Arg::Bool(true)), ("false", Arg::Bool(false)), ("nil", Arg::Nil)] {
            if self.lit(l) {
                return Some(v);
            }
        }
        if self.s.starts_with('\'') {
            return self.string().map(Arg::Str);
        }
        let n = self.s.find(|c: char| !c.is_ascii_digit() && c != '-').unwrap_or(self.s.len());
        let v = self.s[..n].parse().ok()?;
        self.s = &self.s[n..];
        Some(Arg::Int(v))
    }
    fn stmt(&mut self) -> Option<Stmt> {
        if self.lit("error('no')") {
            return Some(Stmt::Error);
        }
        if self.lit("error(") {
            let s = self.stmt()?;
            return if self.lit(")") { Some(Stmt::ErrorOf(Box::new(s))) } else { None };
        }
        if self.lit("return ") {
            return Some(Stmt::Return(Box::new(self.stmt()?)));
        }
        if self.lit("-- ") {
            self.s = "";
            return Some(Stmt::Comment);
        }
        if self.lit("pcall(function() ") {
            let mut v = Vec::new();
            loop {
                v.push(self.stmt()?);
                if self.lit(" end)") {
                    return Some(Stmt::Pcall(v));
                }
                if !self.lit("; ") {
                    return None;
                }
            }
        }
        if self.lit("))") || self.s == "none" {
            self.s = "";
            return Some(Stmt::Syntax);
        }
        if self.lit("for _ = 1, ") {
            let n = self.s.find(' ')?;
            let k = self.s[..n].parse().ok()?;
            self.s = &self.s[n..];
            if !self.lit(" do ") {
                return None;
            }
            let s = self.stmt()?;
            return if self.lit(" end") { Some(Stmt::Repeat(k, Box::new(s))) } else { None };
        }
        if !self.lit("editor:") {
            return None;
        }
        let n = self.s.find('(')?;
        let name = self.s[..n].to_string();
        self.s = &self.s[n + 1..];
        let mut args = Vec::new();
        if !self.lit(")") {
            loop {
                args.push(self.arg()?);
                if self.lit(")") {
                    break;
                }
                if !self.lit(", ") {
                    return None;
                }
            }
        }
        Some(Stmt::Call(name, args))
    }
}
pub fn parse_script(s: &str) -> Option<Vec<Stmt>> {
    let mut v = Vec::new();
    for l in s.split('\n') {
        if l == PRELUDE || l.is_empty() {
            continue;
        }
        let mut p = P { s: l };
        let st = p.stmt()?;
        if !p.s.is_empty() {
            return None;
        }
        v.push(st);
    }
    Some(v)
}

pub fn key_display(k: &Value) -> Option<String> {
    let mut s = String::new();
    for (f, p) in [("ctrl", "c-"), ("alt", "a-"), ("shift", "s-")] {
        if k[f].as_bool()? {
            s.push_str(p);
        }
    }
    match &k["key"] {
        Value::String(n) => s.push_str(match n.as_str() {
            "Escape" => "esc",
            "Enter" => "ret",
            "Up" => "up",
            "Down" => "down",
            "Left" => "left",
            "Right" => "right",
            "Backspace" => "bkspc",
            _ => return None,
        }),
        k => s.push_str(k["Char"].as_str()?),
    }
    Some(s)
}

/// What a request line asks for; None: outside of the model.
pub fn parse_req(line: &[u8]) -> Option<Req> {
    use c01::{want, Want};
    let w = want(line);
    if let Want::NullErr = w {
        return Some(Req::Refused(true));
    }
    let v: Value = serde_json::from_slice(line).ok()?;
    let m = v["method"].as_str()?;
    let known = ["edit", "quit", "view", "view-delete", "view-add", "view-remove", "menu", "menu-select", "keys", "exec"].contains(&m);
    if let Want::ErrId(_) = w {
        return Some(Req::Refused(!known));
    }
    let p = &v["params"];
    let ps = || p.as_str().map(String::from);
    Some(match m {
        "edit" => Req::Edit(p["name"].as_str()?.into(), p["scratch"].as_bool()?),
        "quit" => Req::Quit,
        "view" => Req::View(ps()?),
        "view-add" => Req::ViewAdd(ps()?),
        "view-remove" => Req::ViewRemove(ps()?),
        "view-delete" => Req::ViewDelete,
        "menu" => Req::Menu(p["command"].as_str()?.into(), p["search"].as_str()?.into()),
        "menu-select" => {
            let (m, c) = (p["command"].as_str()?, p["choice"].as_str()?);
            if m == "exec" {
                parse_script(c)?;
            }
            Req::Select(m.into(), c.into())
        }
        "keys" => {
            let mut ks = Vec::new();
            for k in p.as_array()? {
                ks.push(key_display(k)?);
            }
            Req::Keys(ks)
        }
        "exec" => Req::Exec(parse_script(p.as_str()?)?),
        _ => return None,
    })
}

/// What a file looks like to the server.
#[derive(Clone, Debug, PartialEq)]
pub enum File {
    Is(String),
    /// cannot be read
    Bad,
    /// reading it may fail
    Unsure(String),
}

/// Everything outside of the state that decides what an operation does.
pub struct Env {
    /// number the server gave to each client
    pub ids: BTreeMap<usize, i64>,
    pub files: BTreeMap<String, File>,
    pub session: String,
    /// only those concerned are sent a view
    pub track: bool,
}
impl Env {
    fn id(&self, c: usize) -> i64 {
        self.ids.get(&c).copied().unwrap_or(-1)
    }
    fn of(&self, id: i64) -> Option<usize> {
        self.ids.iter().find(|(_, v)| **v == id).map(|(k, _)| *k)
    }
}

/// One possible outcome.
pub struct Out {
    pub st: St,
    pub ok: bool,
    pub notes: Vec<(usize, Note)>,
    /// those who may be sent a view
    pub touched: BTreeSet<usize>,
}

enum Val {
    Int(i64),
    Str(String),
    Bool(bool),
    Nil,
    List(Vec<String>),
}

struct Run<'a> {
    env: &'a Env,
    st: St,
    notes: Vec<(usize, Note)>,
    touched: BTreeSet<usize>,
    /// outcome of the next unsure read
    fail_reads: bool,
    unsure: bool,
}
type R = Result<(), ()>;

impl<'a> Run<'a> {
    fn note(&mut self, c: usize, n: Note) {
        if self.st.clients.contains_key(&c) {
            self.notes.push((c, n));
        }
    }
    /// a buffer is written: those who show it
    fn touch(&mut self, b: &str) {
        for (k, c) in &self.st.clients {
            if self.st.view(&c.view).map_or(false, |v| v.contains_key(b)) {
                self.touched.insert(*k);
            }
        }
    }
    fn error(&mut self, c: usize) {
        self.touch(ERRORS);
        self.st.append(ERRORS, "");
        self.note(c, Note::AnyErr);
    }
    fn read(&mut self, name: &str) -> Result<String, ()> {
        // other ways to write the path
        let mut n = name.strip_prefix("/sim/work/").unwrap_or(name);
        for p in ["./", "sub/../"] {
            n = n.strip_prefix(p).unwrap_or(n);
        }
        match self.env.files.get(n) {
            Some(File::Is(t)) => Ok(t.clone()),
            Some(File::Unsure(t)) => {
                self.unsure = true;
                if self.fail_reads {
                    Err(())
                } else {
                    Ok(t.clone())
                }
            }
            _ => Err(()),
        }
    }
    fn edit(&mut self, c: usize, name: &str, scratch: bool) -> R {
        let full = |mut t: String| {
            if !t.ends_with('\n') {
                t.push('\n');
            }
            t
        };
        if scratch {
            if !self.st.bufs.contains_key(name) {
                self.st.set_text(name, String::new());
            }
        } else if let Some(b) = self.st.bufs.get(name).cloned() {
            if let Some(old) = &b.sync {
                let t = self.read(name)?;
                if *old != t {
                    self.st.bufs.insert(name.into(), Rc::new(Buf { text: full(t.clone()), sync: Some(t) }));
                    self.st.clamp(name);
                    self.touch(name);
                }
            }
        } else {
            let t = self.read(name)?;
            self.st.bufs.insert(name.into(), Rc::new(Buf { text: full(t.clone()), sync: Some(t) }));
        }
        let mut v = ViewK::new();
        v.insert(name.into(), 1);
        let k = key_of(&v);
        self.st.add_view(v);
        self.st.select(c, &k);
        self.touched.insert(c);
        Ok(())
    }
    fn view(&mut self, c: usize, id: &str) -> R {
        if self.st.view(id).is_some() {
            self.st.select(c, id);
        } else if self.st.bufs.contains_key(id) {
            let mut v = ViewK::new();
            v.insert(id.into(), 1);
            let k = key_of(&v);
            if self.st.view(&k).is_none() {
                self.st.add_view(v);
            }
            self.st.select(c, &k);
        } else {
            return Err(());
        }
        self.touched.insert(c);
        Ok(())
    }
    fn view_add(&mut self, c: usize, b: &str) -> R {
        if !self.st.bufs.contains_key(b) {
            return Err(());
        }
        let k = self.st.clients[&c].view.clone();
        let mut v = (*self.st.view(&k).unwrap()).clone();
        *v.entry(b.into()).or_insert(0) += 1;
        self.showing(&k);
        self.st.modify_view(&k, v);
        Ok(())
    }
    fn view_remove(&mut self, c: usize, b: &str) -> R {
        if !self.st.bufs.contains_key(b) {
            return Err(());
        }
        let k = self.st.clients[&c].view.clone();
        let mut v = (*self.st.view(&k).unwrap()).clone();
        v.remove(b);
        self.showing(&k);
        self.st.modify_view(&k, v);
        Ok(())
    }
    fn showing(&mut self, k: &str) {
        let v: Vec<usize> = self.st.clients.iter().filter(|(_, c)| c.view == k).map(|(i, _)| *i).collect();
        self.touched.extend(v);
    }
    fn view_delete(&mut self, c: usize) {
        let k = self.st.clients[&c].view.clone();
        self.showing(&k);
        self.st.delete_view(&k);
    }
    fn go(&mut self, c: usize, d: Dir, extend: bool) -> R {
        let cl = match self.st.clients.get(&c) {
            Some(c) => c.clone(),
            None => return Err(()),
        };
        let mut s = (*cl.sels[&cl.view]).clone();
        for (b, sel) in s.iter_mut() {
            if !opaque(b) {
                *sel = moved(&self.st.bufs[b].text, *sel, d, extend);
            }
        }
        self.touched.insert(c);
        let m = Rc::make_mut(self.st.clients.get_mut(&c).unwrap());
        m.sels.insert(cl.view.clone(), Rc::new(s));
        Ok(())
    }
    fn delete_selection(&mut self, c: usize) -> R {
        let cl = match self.st.clients.get(&c) {
            Some(c) => c.clone(),
            None => return Err(()),
        };
        for (b, s) in cl.sels[&cl.view].iter() {
            if opaque(b) {
                self.touch(b);
                continue;
            }
            let old = self.st.bufs[b].clone();
            let mut t = old.text.clone();
            t.replace_range(s.begin()..char_end(&t, s.end()), "");
            if t.is_empty() {
                t.push('\n');
            }
            self.st.bufs.insert(b.clone(), Rc::new(Buf { text: t, sync: old.sync.clone() }));
            self.st.clamp(b);
            self.touch(b);
        }
        Ok(())
    }

    fn status(&self, c: usize, key: Option<&str>) -> Note {
        let cl = &self.st.clients[&c];
        let mut v = Vec::new();
        if let Some(k) = key {
            v.push(k.to_string());
            v.push(
                match cl.modes.last() {
                    None => "N",
                    Some(Mode::Insertion) => "I",
                    Some(Mode::MoveTo) => "g",
                    Some(Mode::ExtendTo) => "G",
                }
                .to_string(),
            );
        }
        v.push(format!("[{}@{}]", self.env.ids.get(&c).copied().unwrap_or(-1), self.env.session));
        Note::Status(v)
    }
    fn key(&mut self, c: usize, k: &str) {
        let cl = Rc::make_mut(self.st.clients.get_mut(&c).unwrap());
        let mode = cl.modes.last().copied();
        match mode {
            None => {
                let m = match k {
                    "i" => Some(Mode::Insertion),
                    "g" => Some(Mode::MoveTo),
                    "s-g" => Some(Mode::ExtendTo),
                    _ => None,
                };
                if let Some(m) = m {
                    cl.modes.push(m);
                    match m {
                        Mode::MoveTo => self.note(c, Note::Hint("move to".into())),
                        Mode::ExtendTo => self.note(c, Note::Hint("extend to".into())),
                        _ => (),
                    }
                } else {
                    let (b, e) = match k.strip_prefix("s-") {
                        Some(b) => (b, true),
                        None => (k, false),
                    };
                    let d = match b {
                        "h" => Some(Dir::Left),
                        "j" => Some(Dir::Down),
                        "k" => Some(Dir::Up),
                        "l" => Some(Dir::Right),
                        _ => None,
                    };
                    match (d, k) {
                        (Some(d), _) => {
                            let _ = self.go(c, d, e);
                        }
                        (_, "m") => self.message(self.env.id(c), "hello!"),
                        (_, "e") => self.lua_error(self.env.id(c), "oops!"),
                        (_, "d") => {
                            let _ = self.delete_selection(c);
                        }
                        _ => return,
                    }
                }
            }
            Some(Mode::Insertion) => {
                if k != "esc" {
                    return;
                }
                cl.modes.pop();
            }
            Some(m) => {
                cl.modes.pop();
                match k {
                    "h" => {
                        let _ = self.go(c, Dir::LineBegin, m == Mode::ExtendTo);
                    }
                    "l" => {
                        let _ = self.go(c, Dir::LineEnd, m == Mode::ExtendTo);
                    }
                    _ => {}
                }
            }
        }
        let n = self.status(c, Some(k));
        self.note(c, n);
    }
    fn message(&mut self, id: i64, t: &str) {
        self.st.append(MESSAGES, &format!("{}|{}\n", id, t));
        self.touch(MESSAGES);
        if let Some(c) = self.env.of(id) {
            self.note(c, Note::Echo(t.into()));
        }
    }
    fn lua_error(&mut self, id: i64, t: &str) {
        self.touch(ERRORS);
        self.st.append(ERRORS, "");
        if let Some(c) = self.env.of(id) {
            self.note(c, Note::Err(normalize(&format!("lua: {}", t))));
        }
    }

    fn val(&mut self, c: usize, a: &Arg) -> Result<Val, ()> {
        Ok(match a {
            Arg::Int(i) => Val::Int(*i),
            Arg::Str(s) => Val::Str(s.clone()),
            Arg::Bool(b) => Val::Bool(*b),
            Arg::Nil => Val::Nil,
            Arg::List(v) => Val::List(v.clone()),
            Arg::Me => Val::Int(self.env.id(c)),
            Arg::Env => Val::Str(format!("{}@{}", self.env.id(c), self.env.session)),
            Arg::Count => {
                self.st.count += 1;
                Val::Str(format!("#{}", self.st.count))
            }
            Arg::Key(x) => {
                let t = self.client(c, x)?;
                Val::Str(self.st.clients.get(&t).ok_or(())?.view.clone())
            }
            Arg::Where(x, b) => {
                let t = self.client(c, x)?;
                let cl = self.st.clients.get(&t).ok_or(())?;
                let s = cl.sels[&cl.view].get(b).ok_or(())?;
                let at = |o: usize| {
                    let (l, c) = place(&self.st.bufs[b].text, o);
                    format!("{} {} {}", o, l, c)
                };
                Val::Str(format!("{} {}", at(s.anchor), at(s.cursor)))
            }
            Arg::Text(x, b) => {
                let t = self.client(c, x)?;
                let cl = self.st.clients.get(&t).ok_or(())?;
                let s = cl.sels[&cl.view].get(b).ok_or(())?;
                Val::Str(sel_text(&self.st.bufs[b].text, s).to_string())
            }
        })
    }
    fn client(&mut self, c: usize, a: &Arg) -> Result<usize, ()> {
        match self.val(c, a)? {
            Val::Int(i) if i >= 0 => self.env.of(i).ok_or(()),
            _ => Err(()),
        }
    }
    fn stmt(&mut self, c: usize, s: &Stmt) -> R {
        let (name, args) = match s {
            Stmt::Error | Stmt::Syntax => return Err(()),
            Stmt::Comment => return Ok(()),
            Stmt::ErrorOf(s) => {
                self.stmt(c, s)?;
                return Err(());
            }
            Stmt::Return(s) => return self.stmt(c, s),
            Stmt::Pcall(v) => {
                let _ = v.iter().try_for_each(|s| self.stmt(c, s));
                return Ok(());
            }
            Stmt::Repeat(n, s) => {
                for _ in 0..*n {
                    self.stmt(c, s)?;
                }
                return Ok(());
            }
            Stmt::Call(n, a) => (n.as_str(), a),
        };
        let mut vals = Vec::new();
        for a in args {
            vals.push(self.val(c, a)?);
        }
        let int = |i: usize| match vals.get(i) {
            Some(Val::Int(n)) if *n >= 0 => Ok(*n),
            _ => Err(()),
        };
        let string = |i: usize| match vals.get(i) {
            Some(Val::Str(s)) => Ok(s.clone()),
            Some(Val::Int(n)) => Ok(n.to_string()),
            _ => Err(()),
        };
        let boolean = |i: usize| match vals.get(i) {
            None | Some(Val::Nil) | Some(Val::Bool(false)) => false,
            _ => true,
        };
        let live = |r: &Run, id: i64| match r.env.of(id) {
            Some(c) if r.st.clients.contains_key(&c) => Ok(c),
            _ => Err(()),
        };
        let dir = match name {
            "move_left" => Some(Dir::Left),
            "move_right" => Some(Dir::Right),
            "move_up" => Some(Dir::Up),
            "move_down" => Some(Dir::Down),
            "move_to_line_begin" => Some(Dir::LineBegin),
            "move_to_line_end" => Some(Dir::LineEnd),
            "move_to_begin" => Some(Dir::Begin),
            "move_to_end" => Some(Dir::End),
            _ => None,
        };
        if let Some(d) = dir {
            let t = live(self, int(0)?)?;
            return self.go(t, d, boolean(1));
        }
        match name {
            "message" => {
                let (i, t) = (int(0)?, string(1)?);
                self.message(i, &t);
            }
            "error" => {
                let (i, t) = (int(0)?, string(1)?);
                self.lua_error(i, &t);
            }
            "show_hint" => {
                let v = match vals.get(1) {
                    Some(Val::List(v)) => v,
                    _ => return Err(()),
                };
                let i = int(0)?;
                let n = v.iter().map(|l| l.len()).max().unwrap_or(0);
                let v = v.iter().map(|l| format!("{}{}", l, " ".repeat(n - l.len()))).collect();
                if let Some(t) = self.env.of(i) {
                    self.note(t, Note::Lines(v));
                }
            }
            "debug" => {
                string(0)?;
            }
            "append_to" => {
                let (b, t) = (string(0)?, string(1)?);
                self.st.append(&b, &t);
                self.touch(&b);
            }
            "scratch" => {
                let (i, n) = (int(0)?, string(1)?);
                let t = match vals.get(2) {
                    None | Some(Val::Nil) => String::new(),
                    _ => string(2)?,
                };
                let t2 = live(self, i)?;
                self.st.set_text(&n, t);
                self.st.clamp(&n);
                self.touch(&n);
                self.edit(t2, &n, true)?;
            }
            "edit" => {
                let (i, n) = (int(0)?, string(1)?);
                let t = live(self, i)?;
                self.edit(t, &n, boolean(2))?;
            }
            "delete_selection" => {
                let t = live(self, int(0)?)?;
                self.delete_selection(t)?;
            }
            _ => return Err(()),
        }
        Ok(())
    }
    fn exec(&mut self, c: usize, s: &[Stmt]) -> R {
        let r = if s.contains(&Stmt::Syntax) {
            Err(())
        } else {
            s.iter().try_for_each(|s| self.stmt(c, s))
        };
        if r.is_err() {
            self.error(c);
        }
        r
    }
    fn entries(&self, cmd: &str) -> Vec<String> {
        match cmd {
            "open" => self.env.files.iter().map(|(n, _)| n.clone()).collect(),
            "view_add" | "view_remove" => self.st.bufs.keys().cloned().collect(),
            "view_select" => {
                let mut v: Vec<String> = self.st.views.iter().map(|(k, _)| k.clone()).collect();
                let mut more = Vec::new();
                for b in self.st.bufs.keys() {
                    let mut k = ViewK::new();
                    k.insert(b.clone(), 1);
                    if !v.contains(&key_of(&k)) {
                        more.push(b.clone());
                    }
                }
                v.extend(more);
                v
            }
            "" => MAIN.iter().map(|(k, _)| k.to_string()).collect(),
            _ => vec![String::new()],
        }
    }
    fn menu(&mut self, c: usize, cmd: &str, search: &str, populate: bool) -> R {
        let prompt = match cmd {
            "" | "open" | "view_select" | "view_add" | "view_remove" => false,
            "scratch" | "exec" => true,
            _ => return Err(()),
        };
        if populate {
            let e = self.entries(cmd);
            self.st.menus.insert(cmd.into(), Rc::new(e));
        }
        let ks = self.st.menus.get(cmd).cloned().unwrap_or_default();
        let items: Vec<(String, String)> = ks.iter().map(|k| (k.clone(), label_of(cmd, k))).collect();
        let entries = if prompt { items } else { filter(&items, search) };
        self.note(c, Note::Menu { command: cmd.into(), search: search.into(), entries, prompt });
        Ok(())
    }
    fn menu_select(&mut self, c: usize, cmd: &str, choice: &str) -> R {
        let prompt = match cmd {
            "" | "open" | "view_select" | "view_add" | "view_remove" => false,
            "scratch" | "exec" => true,
            _ => return Err(()),
        };
        let known = self.st.menus.get(cmd).map_or(false, |e| prompt || e.iter().any(|k| k == choice));
        if !known {
            return Err(());
        }
        match (cmd, choice) {
            ("", "quit") => self.leave(c),
            ("", "view_delete") => self.view_delete(c),
            ("", sub) => return self.menu(c, sub, "", true),
            ("open", f) => return self.edit(c, f, false),
            ("scratch", n) => return self.edit(c, n, true),
            ("view_select", v) => return self.view(c, v),
            ("view_add", b) => return self.view_add(c, b),
            ("view_remove", b) => return self.view_remove(c, b),
            ("exec", s) => match parse_script(s) {
                Some(s) => return self.exec(c, &s),
                None => return Err(()),
            },
            _ => return Err(()),
        }
        Ok(())
    }
    fn leave(&mut self, c: usize) {
        self.st.clients.remove(&c);
        self.st.stack.retain(|x| *x != c);
    }
    fn join(&mut self, c: usize) {
        let (view, sels) = match self.st.stack.first() {
            Some(o) => {
                let o = &self.st.clients[o];
                (o.view.clone(), o.sels.clone())
            }
            None => {
                let mut sels = BTreeMap::new();
                for (k, v) in &self.st.views {
                    sels.insert(k.clone(), Rc::new(v.keys().map(|b| (b.clone(), SEL0)).collect::<Sels>()));
                }
                (self.st.views[0].0.clone(), sels)
            }
        };
        self.st.clients.insert(c, Rc::new(Cl { view, sels, modes: Vec::new() }));
        self.st.stack.insert(0, c);
        self.touched.insert(c);
        self.note(c, Note::Info);
        let n = self.status(c, None);
        self.note(c, n);
    }
    fn step(&mut self, c: usize, r: &Req) -> R {
        match r {
            Req::Join => self.join(c),
            Req::Leave => self.leave(c),
            Req::Quit => self.leave(c),
            Req::Refused(told) => {
                if *told {
                    self.error(c);
                }
                return Err(());
            }
            Req::Edit(n, s) => return self.edit(c, n, *s),
            Req::View(v) => return self.view(c, v),
            Req::ViewAdd(b) => return self.view_add(c, b),
            Req::ViewRemove(b) => return self.view_remove(c, b),
            Req::ViewDelete => self.view_delete(c),
            Req::Menu(m, s) => return self.menu(c, m, s, s.is_empty()),
            Req::Select(m, ch) => return self.menu_select(c, m, ch),
            Req::Keys(ks) => ks.iter().for_each(|k| self.key(c, k)),
            Req::Exec(s) => return self.exec(c, s),
        }
        Ok(())
    }
}

pub const MAIN: [(&str, &str); 8] = [
    ("open", "Open file"),
    ("quit", "Quit"),
    ("scratch", "New scratch"),
    ("view_select", "Change view"),
    ("view_delete", "Delete view"),
    ("view_add", "Add to view"),
    ("view_remove", "Remove from the view."),
    ("exec", "Execute script."),
];
fn label_of(cmd: &str, k: &str) -> String {
    match cmd {
        "" => MAIN.iter().find(|(n, _)| *n == k).map_or(k, |(_, l)| l).to_string(),
        "scratch" => "New scratch buffer name.".into(),
        "exec" => "Lua script source.".into(),
        _ => k.into(),
    }
}
fn fold(c: char) -> char {
    let mut l = c.to_lowercase();
    match (l.next(), l.next()) {
        (Some(x), None) => x,
        _ => c,
    }
}
/// First match of `w` at or after `from`, in characters.
fn find_in(label: &[char], w: &[char], from: usize) -> Vec<usize> {
    if w.len() > label.len() {
        return Vec::new();
    }
    (from..=label.len() - w.len()).filter(|i| (0..w.len()).all(|k| fold(label[i + k]) == fold(w[k]))).collect()
}
/// Length in bytes of the part of the label the words are found in, the first
/// as early and the others as late as possible.
fn span(label: &str, words: &[Vec<char>]) -> Option<usize> {
    if words.is_empty() {
        return Some(0);
    }
    let l: Vec<char> = label.chars().collect();
    // later words leave room for those after them: take each as late as possible from the end
    let mut latest = l.len();
    let mut pos = vec![0; words.len()];
    let first = *find_in(&l, &words[0], 0).first()?;
    for i in (1..words.len()).rev() {
        let p = find_in(&l, &words[i], 0).into_iter().filter(|p| p + words[i].len() <= latest).last()?;
        pos[i] = p;
        latest = p;
    }
    if words.len() > 1 && pos[1] < first + words[0].len() {
        return None;
    }
    let end = if words.len() > 1 { pos[words.len() - 1] + words[words.len() - 1].len() } else { first + words[0].len() };
    Some(l[first..end].iter().map(|c| c.len_utf8()).sum())
}
pub fn filter(items: &[(String, String)], search: &str) -> Vec<(String, String)> {
    let words: Vec<Vec<char>> = search.split_whitespace().map(|w| w.chars().collect()).collect();
    let mut v: Vec<(usize, &(String, String))> =
        items.iter().filter_map(|i| span(&i.1, &words).map(|s| (s, i))).collect();
    v.sort_by(|a, b| (a.0, &a.1 .1).cmp(&(b.0, &b.1 .1)));
    v.into_iter().map(|(_, i)| i.clone()).collect()
}

/// Error messages are shown on one line.
fn normalize(m: &str) -> String {
    let mut skip = None;
    let mut o = String::new();
    for c in m.replace('\n', "\\n").replace('\t', " ").chars() {
        if Some(c) != skip {
            skip = if c.is_whitespace() { Some(c) } else { None };
            o.push(c);
        }
    }
    o
}

/// All possible outcomes of an operation.
pub fn apply(env: &Env, st: &St, c: usize, r: &Req) -> Vec<Out> {
    let mut v = Vec::new();
    let mut fail = false;
    loop {
        let mut run = Run { env, st: st.clone(), notes: Vec::new(), touched: BTreeSet::new(), fail_reads: fail, unsure: false };
        let ok = run.step(c, r).is_ok();
        let again = run.unsure && !fail;
        if env.track {
            // moved to another view, or shows the log
            for (k, c) in &run.st.clients {
                let before = st.clients.get(k);
                let log = |s: &St, c: &Cl| s.view(&c.view).map_or(false, |v| v.contains_key(DEBUG));
                if before.map_or(true, |b| b.view != c.view || log(st, b)) || log(&run.st, c) {
                    run.touched.insert(*k);
                }
            }
        }
        v.push(Out { st: run.st, ok, notes: run.notes, touched: run.touched });
        if !again {
            return v;
        }
        fail = true;
    }
}

// ------------------------------------------------------------- rendering

/// None: the view is not what the model says, with the reason.
pub fn displayed(st: &St, c: usize, view: &Value) -> Result<(), String> {
    let cl = &st.clients[&c];
    let v = st.view(&cl.view).unwrap();
    let items = view.as_array().ok_or("view is not a list")?;
    let names: Vec<&str> = items.iter().map(|i| i["buffer"].as_str().unwrap_or("?")).collect();
    let want: Vec<&str> = v.keys().map(|k| k.as_str()).collect();
    if names != want {
        return Err(format!("shows the buffers {:?} instead of {:?}", names, want));
    }
    for (item, (b, lenses)) in items.iter().zip(v.iter()) {
        let ls = item["lenses"].as_array().ok_or("no lenses")?;
        if ls.len() != *lenses {
            return Err(format!("shows {} lenses of {} instead of {}", ls.len(), b, lenses));
        }
        let mut shown: Vec<Vec<(String, Vec<bool>)>> = Vec::new();
        for l in ls {
            if l["first_line_num"].as_i64() != Some(1) {
                return Err(format!("{} does not begin at its first line", b));
            }
            let mut lines = Vec::new();
            for line in l["lines"].as_array().ok_or("no lines")? {
                let mut t = String::new();
                let mut m = Vec::new();
                for ch in line.as_array().ok_or("no chunks")? {
                    let s = ch["text"].as_str().ok_or("no text")?;
                    let sel = match ch["face"].as_str() {
                        Some("Selection") => true,
                        Some("Default") => false,
                        _ => return Err(format!("unexpected face {}", ch["face"])),
                    };
                    t.push_str(s);
                    m.extend(std::iter::repeat(sel).take(s.len()));
                }
                lines.push((t, m));
            }
            shown.push(lines);
        }
        let n = shown[0].len();
        if item["start"].as_i64() != Some(1) || item["end"].as_i64() != Some(n as i64) {
            return Err(format!("{}: shown from {} to {} with {} lines", b, item["start"], item["end"], n));
        }
        if shown.iter().any(|s| *s != shown[0]) {
            return Err(format!("the lenses of {} differ", b));
        }
        if opaque(b) {
            if !shown[0].iter().any(|(_, m)| m.iter().any(|x| *x)) {
                return Err(format!("nothing is selected in {}", b));
            }
            continue;
        }
        let text = &st.bufs[b].text;
        let sel = cl.sels[&cl.view][b];
        let (s, e) = (sel.begin(), char_end(text, sel.end()));
        let wl = lines_of(text);
        let got: Vec<&str> = shown[0].iter().map(|(t, _)| t.strip_suffix(' ').unwrap_or("?")).collect();
        let exp: Vec<&str> = wl.iter().map(|l| l.1).collect();
        if got != exp {
            return Err(format!("{}: shows {} instead of {}", b, cut(&format!("{:?}", got)), cut(&format!("{:?}", exp))));
        }
        for ((t, m), (ls, line, nl)) in shown[0].iter().zip(wl.iter()) {
            for (j, got) in m.iter().enumerate() {
                let o = ls + j;
                let want = o >= s && o < e && (j < line.len() || *nl);
                if *got != want {
                    return Err(format!(
                        "{}: selection is bytes {}..{} (anchor {} cursor {}), line {:?} is highlighted as {:?}",
                        b, s, e, sel.anchor, sel.cursor, t, m
                    ));
                }
            }
        }
    }
    Ok(())
}
fn cut(s: &str) -> String {
    if s.chars().count() > 400 {
        s.chars().take(400).collect::<String>() + "..."
    } else {
        s.into()
    }
}

// ---------------------------------------------------------------- search

#[derive(Clone, Debug)]
pub struct Op {
    pub req: Req,
    /// not handled before
    pub low: u64,
    /// handled before
    pub high: u64,
    pub ok: Option<bool>,
    pub show: String,
}

/// A notification as received.
#[derive(Clone, Debug, PartialEq)]
enum Got {
    Info(Value),
    Echo(String),
    Err(String),
    ErrRun(usize),
    Status(Vec<String>),
    Hint(Vec<String>),
    Menu(Value),
    View,
}
pub fn text_of(v: &Value) -> String {
    v.as_array().map_or(String::new(), |a| a.iter().map(|c| c["text"].as_str().unwrap_or("")).collect())
}
fn got(ms: &[M], views: bool) -> Result<Vec<Got>, Fail> {
    let mut v: Vec<Got> = Vec::new();
    for m in ms {
        if let Msg::Notif { method, params } = &m.msg {
            match method.as_str() {
                "view" => {
                    if views && v.last() != Some(&Got::View) {
                        v.push(Got::View)
                    }
                }
                "info" => v.push(Got::Info(params.clone())),
                "echo" => {
                    let t = text_of(params);
                    let err = params.as_array().map_or(false, |a| a.iter().any(|c| c["face"] == "Error"));
                    if !err {
                        v.push(Got::Echo(t))
                    } else if t.starts_with("lua: ") {
                        v.push(Got::Err(t))
                    } else if let Some(Got::ErrRun(n)) = v.last_mut() {
                        *n += 1;
                    } else {
                        v.push(Got::ErrRun(1));
                    }
                }
                "status" => v.push(Got::Status(
                    params.as_array().map_or(Vec::new(), |a| a.iter().map(|i| text_of(&i["text"])).collect()),
                )),
                "hint" => v.push(Got::Hint(
                    params["text"].as_array().map_or(Vec::new(), |a| a.iter().map(text_of).collect()),
                )),
                "menu" => v.push(Got::Menu(params.clone())),
                m => return bad("unknown-notification", format!("unknown notification {}", m)),
            }
        }
    }
    Ok(v)
}
fn fits(n: &Note, g: &Got, id: i64, session: &str) -> bool {
    match (n, g) {
        (Note::Info, Got::Info(p)) => {
            p["client"].as_str() == Some(id.to_string().as_str()) && p["session"] == session && p["cwd"] == "/sim/work"
        }
        (Note::Echo(a), Got::Echo(b)) => a == b,
        (Note::Err(a), Got::Err(b)) => a == b,
        (Note::Status(a), Got::Status(b)) => a == b,
        (Note::Lines(v), Got::Hint(l)) => v == l,
        (Note::Hint(t), Got::Hint(l)) => l.first().map_or(false, |f| f.contains(t.as_str())) && l.len() > 1,
        (Note::Menu { command, search, entries, prompt }, Got::Menu(p)) => {
            if p["command"] != *command || p["search"] != *search {
                return false;
            }
            let got: Option<Vec<(String, String)>> = p["entries"]
                .as_array()
                .map(|a| a.iter().map(|e| (e["value"].as_str().unwrap_or("?").to_string(), text_of(&e["text"]))).collect());
            let mut want = entries.clone();
            let mut got = got.unwrap_or_default();
            if *prompt {
                return got.len() == want.len() && got.iter().zip(&want).all(|(g, w)| g.0 == w.0);
            }
            // entries that match equally well and look the same have no order
            let fix = |v: &mut Vec<(String, String)>| v.iter().cloned().collect::<Vec<_>>();
            want = fix(&mut want);
            got = fix(&mut got);
            want == got
        }
        _ => false,
    }
}

pub struct PhaseIn {
    pub ops: BTreeMap<usize, Vec<Op>>,
    /// received up to the end of the phase, per client
    pub notes: BTreeMap<usize, Vec<M>>,
    /// clients that must have received everything
    pub complete: BTreeSet<usize>,
    /// last view received by those
    pub views: BTreeMap<usize, Value>,
}

/// Views received at this point are accounted for, for those concerned.
fn skip_views(out: &mut Out, gots: &BTreeMap<usize, Vec<Got>>, only: Option<usize>) {
    for c in &out.touched {
        if only.map_or(false, |o| o != *c) {
            continue;
        }
        if let Some(g) = gots.get(c) {
            let (mut at, used) = out.st.told.get(c).copied().unwrap_or((0, 0));
            if used > 0 && !matches!(g.get(at), Some(Got::ErrRun(n)) if used >= *n) {
                continue;
            }
            let i = at + (used > 0) as usize;
            if g.get(i) == Some(&Got::View) {
                at = i + 1;
                out.st.told.insert(*c, (at, 0));
            }
        }
    }
}

pub const CAP: usize = 20_000;

/// States the system can be in after the phase.
pub fn explain(env: &Env, start: &[St], p: &PhaseIn, phase: &str) -> Result<Vec<St>, Fail> {
    let cs: Vec<usize> = p.ops.keys().cloned().collect();
    let ops: Vec<&Vec<Op>> = cs.iter().map(|c| &p.ops[c]).collect();
    let mut gots: BTreeMap<usize, Vec<Got>> = BTreeMap::new();
    for (c, ms) in &p.notes {
        gots.insert(*c, got(ms, env.track)?);
    }
    // number of operations of the others that came before
    let mut need: Vec<Vec<Vec<usize>>> = Vec::new();
    for o in &ops {
        need.push(
            o.iter()
                .map(|op| ops.iter().map(|d| d.iter().take_while(|x| x.high < op.low).count()).collect())
                .collect(),
        );
    }
    let total: usize = ops.iter().map(|o| o.len()).sum();
    let mut layer: HashMap<Vec<usize>, HashSet<St>> = HashMap::new();
    let mut s0 = HashSet::new();
    for s in start {
        let mut s = s.clone();
        s.told.clear();
        s0.insert(s);
    }
    layer.insert(vec![0; cs.len()], s0);
    let mut why = String::from("no request could have been handled");
    let mut seen = 0;
    let mut applied = 0;
    for depth in 0..total {
        let mut next: HashMap<Vec<usize>, HashSet<St>> = HashMap::new();
        let mut fails: Vec<String> = Vec::new();
        for (pos, sts) in &layer {
            for i in 0..cs.len() {
                let k = pos[i];
                if k >= ops[i].len() || (0..cs.len()).any(|j| j != i && pos[j] < need[i][k][j]) {
                    continue;
                }
                let op = &ops[i][k];
                let c = cs[i];
                applied += sts.len();
                if applied > 5 * CAP {
                    return unclear("too many orders");
                }
                for st in sts {
                    if op.req != Req::Join && !st.clients.contains_key(&c) {
                        fails.push(format!("client {} is not there any more", c));
                        continue;
                    }
                    for mut out in apply(env, st, c, &op.req) {
                        if let Some(ok) = op.ok {
                            if ok != out.ok {
                                if fails.len() < 40 {
                                    fails.push(format!(
                                        "client {}: {} was answered with {} but should {}",
                                        c,
                                        op.show,
                                        if ok { "success" } else { "an error" },
                                        if out.ok { "succeed" } else { "be refused" }
                                    ));
                                }
                                continue;
                            }
                        }
                        let mut good = true;
                        if env.track {
                            skip_views(&mut out, &gots, None);
                        }
                        for (to, n) in &out.notes.clone() {
                            let g = match gots.get(to) {
                                Some(g) => g,
                                None => continue,
                            };
                            let (mut at, mut used) = out.st.told.get(to).copied().unwrap_or((0, 0));
                            if used > 0 {
                                let left = matches!(g.get(at), Some(Got::ErrRun(n)) if used < *n);
                                if !(left && *n == Note::AnyErr) {
                                    at += 1;
                                    used = 0;
                                }
                            }
                            let r = match (n, g.get(at)) {
                                (Note::AnyErr, Some(Got::ErrRun(m))) if used < *m => {
                                    used += 1;
                                    true
                                }
                                (n, Some(x)) => {
                                    at += 1;
                                    fits(n, x, env.ids.get(to).copied().unwrap_or(-1), &env.session)
                                }
                                // one that left has not received everything
                                (_, None) => !p.complete.contains(to),
                            };
                            if !r {
                                good = false;
                                if fails.len() < 40 {
                                    fails.push(format!(
                                        "client {} should be told {} by {} of client {}, it received {}",
                                        to,
                                        cut(&format!("{:?}", n)),
                                        op.show,
                                        c,
                                        cut(&g.get(at.saturating_sub(1)).map_or("nothing".into(), |x| format!("{:?}", x)))
                                    ));
                                }
                                break;
                            }
                            out.st.told.insert(*to, (at, used));
                            if env.track {
                                skip_views(&mut out, &gots, Some(*to));
                            }
                        }
                        if !good {
                            continue;
                        }
                        let mut np = pos.clone();
                        np[i] += 1;
                        if next.entry(np).or_default().insert(out.st) {
                            seen += 1;
                            if seen > CAP {
                                return unclear("too many states");
                            }
                        }
                    }
                }
            }
        }
        if next.is_empty() {
            if let Some(f) = fails.first() {
                why = f.clone();
            }
            return bad(
                "unexplained",
                format!("phase {}: after {} of {} operations: {}", phase, depth, total, why),
            );
        }
        layer = next;
    }
    let mut res: Vec<St> = Vec::new();
    let mut fails: Vec<(&'static str, String)> = Vec::new();
    for st in layer.into_values().flatten() {
        let mut good = true;
        for c in &p.complete {
            let g = match gots.get(c) {
                Some(g) => g,
                None => continue,
            };
            let (mut at, used) = st.told.get(c).copied().unwrap_or((0, 0));
            if used > 0 {
                at += 1;
            }
            if at < g.len() {
                fails.push(("extra", format!("client {} received {} for no reason", c, cut(&format!("{:?}", g[at])))));
                good = false;
                break;
            }
        }
        if good {
            for (c, v) in &p.views {
                if st.clients.contains_key(c) {
                    if let Err(e) = displayed(&st, *c, v) {
                        fails.push(("view", format!("client {}: {}", c, e)));
                        good = false;
                        break;
                    }
                }
            }
        }
        if good {
            let mut st = st;
            st.told.clear();
            if !res.contains(&st) {
                res.push(st);
            }
        }
    }
    if res.is_empty() {
        let f = fails.iter().find(|f| f.0 == "view").or(fails.first());
        let (k, d) = match f {
            Some((k, d)) => (*k, d.clone()),
            None => ("unexplained", "nothing explains what was received".into()),
        };
        return bad(
            if k == "view" { "wrong-view" } else { "wrong-notification" },
            format!("phase {}: {}", phase, d),
        );
    }
    simrt::probe("explained-phases");
    Ok(res)
}

// ------------------------------------------------------- from the history

pub struct Explained {
    pub states: Vec<St>,
    pub ops: usize,
    pub concurrent: bool,
    pub per_phase: Vec<usize>,
}

/// Files of the working directory while a phase runs.
pub fn files_at(w: &World, phase: usize) -> BTreeMap<String, File> {
    use crate::plan::Op as O;
    let mut f: BTreeMap<String, File> = BTreeMap::new();
    let mut links: BTreeMap<String, String> = BTreeMap::new();
    // suffix, harmless, at every call
    let mut faults: Vec<(String, bool, bool)> = Vec::new();
    let rel = |p: &str| p.strip_prefix("/sim/work/").map(String::from);
    for (i, ph) in w.plan.phases.iter().enumerate() {
        if i > phase {
            break;
        }
        for s in &ph.steps {
            match &s.op {
                O::WriteFile { path, data, .. } => {
                    if let Some(n) = rel(path) {
                        let n = links.get(&n).cloned().unwrap_or(n);
                        f.insert(
                            n,
                            match String::from_utf8(data.0.clone()) {
                                Ok(t) => File::Is(t),
                                Err(_) => File::Bad,
                            },
                        );
                    }
                }
                O::Fifo { path } => {
                    if let Some(n) = rel(path) {
                        links.remove(&n);
                        f.insert(n, File::Bad);
                    }
                }
                O::Remove { path } => {
                    if let Some(n) = rel(path) {
                        if links.remove(&n).is_none() {
                            f.remove(&n);
                        }
                    }
                }
                O::Symlink { path, target } => {
                    if let (Some(n), Some(t)) = (rel(path), rel(target)) {
                        links.insert(n, t);
                    }
                }
                O::Fault { call, path, skip, times, errno, short } => {
                    let harmless = *short > 0 || (*errno == libc::EINTR && (call == "read" || call == "open"));
                    let always = *skip == 0 && *times >= 1000 && (call == "open" || call == "read");
                    faults.push((path.clone(), harmless, always));
                }
                O::ClearFaults => faults.clear(),
                _ => {}
            }
        }
    }
    for (n, x) in f.iter_mut() {
        let hit: Vec<_> = faults.iter().filter(|(p, _, _)| format!("/sim/work/{}", n).ends_with(p.as_str())).collect();
        // the first of several faults that fit hides the others
        let certain = hit.len() == 1 && hit[0].2;
        if let (File::Is(t), true) = (&x, hit.iter().any(|h| !h.1)) {
            *x = if certain { File::Bad } else { File::Unsure(t.clone()) };
        }
    }
    for (l, t) in links {
        if let Some(x) = f.get(&t).cloned() {
            f.insert(l, x);
        }
    }
    f
}

/// Explains the whole run phase by phase.
pub fn explain_run(w: &World, track: bool, files: impl Fn(usize) -> BTreeMap<String, File>) -> Result<Explained, Fail> {
    let mut states = vec![St::new()];
    let mut total = 0;
    let mut concurrent = false;
    let mut per_phase = Vec::new();
    let mut env = Env { ids: BTreeMap::new(), files: BTreeMap::new(), session: S.into(), track };
    if w.clients.values().any(|c| c.virt.is_some()) {
        // nobody else can join
        env.session = String::new();
    }
    // responses by client, matched with the lines by order
    let mut resp: BTreeMap<usize, Vec<(u64, bool)>> = BTreeMap::new();
    let mut infos: BTreeMap<usize, u64> = BTreeMap::new();
    for (k, c) in &w.clients {
        let ms = received(c);
        only_messages(*k, &ms)?;
        if c.conn.map_or(false, |x| simrt::sim().net.conns[x].stalled[0]) {
            return unclear("a client does not read");
        }
        if c.virt.is_none() {
            responses(*k, c)?;
        }
        resp.insert(
            *k,
            ms.iter().filter_map(|m| if let Msg::Resp { error, .. } = &m.msg { Some((m.at, error.is_none())) } else { None }).collect(),
        );
        for m in &ms {
            if let Msg::Notif { method, params } = &m.msg {
                if method == "info" {
                    if infos.contains_key(k) {
                        continue;
                    }
                    infos.insert(*k, m.at);
                    match params["client"].as_str().and_then(|s| s.parse::<i64>().ok()) {
                        Some(i) => {
                            if let Some((o, _)) = env.ids.iter().find(|(_, v)| **v == i) {
                                let end = |c: &Client| {
                                    let e = c.eof().unwrap_or(u64::MAX);
                                    c.closed.map_or(e, |x| e.min(x.1))
                                };
                                let (a, b) = (infos[o], m.at);
                                // both had been told before one of them left
                                if a.max(b) < end(&w.clients[o]).min(end(c)) {
                                    return bad("same-identity", format!("clients {} and {} were both told to be client {}", o, k, i));
                                }
                            }
                            env.ids.insert(*k, i);
                        }
                        None => return unclear("identity is no number"),
                    }
                }
            }
        }
    }
    let mut gone: BTreeSet<usize> = BTreeSet::new();
    let mut last_view: BTreeMap<usize, Value> = BTreeMap::new();
    let mut from: BTreeMap<usize, usize> = BTreeMap::new();
    for (pi, ph) in w.plan.phases.iter().enumerate() {
        let b = match w.barriers.get(pi) {
            Some(b) => b,
            None => break,
        };
        let begin = if pi == 0 { 0 } else { w.barriers[pi - 1].step };
        env.files = files(pi);
        let mut ops: BTreeMap<usize, Vec<Op>> = BTreeMap::new();
        let mut notes = BTreeMap::new();
        let mut complete = BTreeSet::new();
        let mut views = BTreeMap::new();
        for (k, c) in &w.clients {
            if gone.contains(k) || c.conn.is_none() && c.virt.is_none() {
                continue;
            }
            let connected = w
                .done_ops
                .iter()
                .find(|(p, i, _)| {
                    match &w.plan.phases[*p].steps[*i].op {
                        crate::plan::Op::Connect { c: x, .. } => x == k && c.virt.is_none(),
                        crate::plan::Op::Start { slot, .. } => slot == k && c.virt.is_some(),
                        _ => false,
                    }
                })
                .map(|(p, _, s)| (*p, *s));
            let (cp, cs) = match connected {
                Some(x) => x,
                None => continue,
            };
            if cp > pi {
                continue;
            }
            let mut v: Vec<Op> = Vec::new();
            if cp == pi {
                v.push(Op {
                    req: Req::Join,
                    low: cs,
                    high: infos.get(k).copied().unwrap_or(u64::MAX),
                    ok: None,
                    show: "joining".into(),
                });
                if let Some(p) = c.virt {
                    for f in simrt::sim().procs[p].args.iter().skip(1).filter(|a| !a.starts_with('-')) {
                        let req = Req::Edit(f.clone(), false);
                        v.push(Op { req, low: cs, high: u64::MAX, ok: None, show: format!("opening {}", f) });
                    }
                }
            }
            let taken = c.taken();
            let rs = &resp[k];
            let mut quit = false;
            for (i, l) in c.sent.iter().enumerate() {
                if l.phase > pi {
                    break;
                }
                let q = c01::quits(&l.bytes);
                if l.phase == pi && !quit {
                    let low = match taken.get(i) {
                        Some(t) => t.step,
                        None => {
                            // never read by the server
                            if c.closed.map_or(true, |x| x.0 == "half") {
                                return bad("not-read", format!("line {} of client {} was never read", i, k));
                            }
                            continue;
                        }
                    };
                    let (high, ok) = match rs.get(i) {
                        Some(r) => (r.0, Some(r.1)),
                        None => {
                            if c.closed.is_some() {
                                return unclear("a client left before its requests were answered");
                            }
                            (u64::MAX, None)
                        }
                    };
                    match parse_req(&l.bytes) {
                        Some(req) => {
                            v.push(Op { req, low, high, ok, show: show(&l.bytes) });
                        }
                        None => {
                            simrt::ev!("not in the model: {}", show(&l.bytes));
                            return unclear("a request outside of the model");
                        }
                    }
                }
                // the menu choice of quitting may have been refused
                quit |= q && rs.get(i).map_or(false, |r| r.1);
            }
            let closing = match c.closed {
                Some((_, at)) if at > begin && at <= b.step => true,
                _ => false,
            };
            if quit {
                gone.insert(*k);
            } else if closing {
                let at = c.closed.unwrap().1;
                v.push(Op { req: Req::Leave, low: at, high: u64::MAX, ok: None, show: "leaving".into() });
                gone.insert(*k);
            }
            let f = from.get(k).copied().unwrap_or(0);
            let to = b.seen.get(k).copied().unwrap_or(f);
            let ms: Vec<M> = c.lines()[f..to].iter().map(|l| M { at: l.step, msg: parse(&l.bytes) }).collect();
            from.insert(*k, to);
            for m in &ms {
                if let Msg::Notif { method, params } = &m.msg {
                    if method == "view" {
                        last_view.insert(*k, params.clone());
                    }
                }
            }
            if !gone.contains(k) {
                complete.insert(*k);
                match last_view.get(k) {
                    Some(v) => {
                        views.insert(*k, v.clone());
                    }
                    None => return bad("no-view", format!("client {} was never shown a view", k)),
                }
            }
            if !env.ids.contains_key(k) {
                if !gone.contains(k) {
                    return bad("no-identity", format!("client {} was never told its identity", k));
                }
                if v.iter().any(|o| !matches!(o.req, Req::Join | Req::Leave)) {
                    return unclear("a client left before it was told its identity");
                }
            }
            notes.insert(*k, ms);
            total += v.len();
            ops.insert(*k, v);
        }
        let active = ops.values().filter(|o| !o.is_empty()).count();
        concurrent |= active > 1;
        per_phase.push(active);
        states = explain(&env, &states, &PhaseIn { ops, notes, complete, views }, &format!("{} ({})", pi, ph.name))?;
    }
    Ok(Explained { states, ops: total, concurrent, per_phase })
}
