//! Path translation (`/sim/...` is a scratch directory), injected failures of
//! file system calls, time stamps on the virtual clock.
use crate::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Call {
    Open,
    Read,
    Stat,
    Unlink,
    Rmdir,
    Mkdir,
    Opendir,
    Spawn,
    Lock,
    Other,
}

#[derive(Clone, Debug)]
pub enum Effect {
    Errno(i32),
    /// reads return at most this many bytes
    Short(usize),
}

#[derive(Clone, Debug)]
pub struct Fault {
    pub call: Call,
    /// path suffix, empty = any scratch path
    pub path: String,
    pub skip: u32,
    pub times: u32,
    pub effect: Effect,
    pub name: &'static str,
}

pub struct Fs {
    pub root: String,
    pub fds: BTreeMap<i32, String>,
    /// who opened a file or made a socket, and which
    pub owners: BTreeMap<i32, (usize, String)>,
    /// locked descriptors and their owners
    pub locks: BTreeMap<i32, usize>,
    pub faults: Vec<Fault>,
    pub calls: BTreeMap<Call, u64>,
    /// attempts to touch anything outside the scratch directory with effect
    pub escapes: Vec<String>,
    /// step, process, call, path, result of calls that change the tree
    pub mutations: Vec<(u64, usize, String, String, i32)>,
}

pub const VROOT: &str = "/sim";

impl Fs {
    pub fn new(root: &str) -> Fs {
        Fs {
            root: root.to_string(),
            fds: BTreeMap::new(),
            owners: BTreeMap::new(),
            locks: BTreeMap::new(),
            faults: Vec::new(),
            calls: BTreeMap::new(),
            escapes: Vec::new(),
            mutations: Vec::new(),
        }
    }
}

/// Virtual path -> real path; None: not inside the scratch area. Relative
/// paths are relative to /sim/work.
pub fn translate(p: &str) -> Option<String> {
    let s = sim();
    if p == VROOT || p.starts_with("/sim/") {
        Some(format!("{}{}", s.fs.root, &p[VROOT.len()..]))
    } else if !p.starts_with('/') {
        Some(format!("{}/work/{}", s.fs.root, p))
    } else {
        None
    }
}
pub fn untranslate(p: &str) -> Option<String> {
    let s = sim();
    p.strip_prefix(s.fs.root.as_str()).map(|r| format!("{}{}", VROOT, r))
}

/// A file system call by simulated code on a scratch path.
pub fn enter(call: Call, path: &str) -> Option<Effect> {
    let s = sim();
    if s.cfg.fs_yield {
        yield_point();
    }
    let _k = kenter();
    let s = sim();
    *s.fs.calls.entry(call).or_insert(0) += 1;
    let mut hit = None;
    // faults belong to the file, whatever path leads to it
    let canonical = if s.fs.faults.is_empty() {
        None
    } else {
        translate(path).and_then(|p| std::fs::canonicalize(p).ok()).and_then(|p| untranslate(&p.to_string_lossy()))
    };
    let path2 = canonical.as_deref().unwrap_or(path);
    for f in s.fs.faults.iter_mut() {
        if f.call == call && f.times > 0 && path2.ends_with(f.path.as_str()) {
            if f.skip > 0 {
                f.skip -= 1;
                continue;
            }
            f.times -= 1;
            hit = Some((f.effect.clone(), f.name));
            break;
        }
    }
    ev!("fs {:?} {}{}", call, path, match &hit { Some((e, _)) => format!(" -> fault {:?}", e), None => String::new() });
    hit.map(|(e, n)| {
        fault(n);
        e
    })
}
