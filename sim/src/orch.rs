//! Workers, the zygote every run is forked from, minimisation, evidence.
use crate::checks;
use crate::child::{self, Outcome, Violation};
use crate::plan::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};
use std::time::{Duration, Instant};

const REQ_CAP: usize = 16 << 20;
const RESP_CAP: usize = 64 << 20;
const COV: usize = 1 << 16;

/// Shared between a worker, its zygote and the runs.
struct Shm {
    base: *mut u8,
}
impl Shm {
    fn map(len: usize) -> *mut u8 {
        unsafe {
            let p = libc::mmap(
                std::ptr::null_mut(),
                len,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            );
            assert!(p != libc::MAP_FAILED, "mmap");
            p as *mut u8
        }
    }
    fn new() -> Shm {
        Shm { base: Shm::map(64 + REQ_CAP + RESP_CAP + COV) }
    }
    fn word(&self, i: usize) -> &AtomicU64 {
        unsafe { &*(self.base.add(i * 8) as *const AtomicU64) }
    }
    fn req(&self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.base.add(64), REQ_CAP) }
    }
    fn resp(&self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.base.add(64 + REQ_CAP), RESP_CAP) }
    }
    fn cov(&self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.base.add(64 + REQ_CAP + RESP_CAP), COV) }
    }
}
// words: 0 request length, 1 response length, 2 pid of the run, 3 flags

pub struct Zygote {
    shm: Shm,
    to: i32,
    from: i32,
    pid: i32,
    cpu_s: u64,
}

static mut CHILD_SHM: Option<Shm> = None;

/// A harness panic inside a run: report it and leave, whatever thread it is.
pub fn harness_panic(m: &str) {
    unsafe {
        if let Some(shm) = &CHILD_SHM {
            let o = Outcome { harness_error: Some(m.to_string()), ..Default::default() };
            respond(shm, &o);
            libc::_exit(0);
        }
    }
}
/// The run has ended: from here on it is only the harness that works.
pub fn judging() {
    unsafe {
        if let Some(shm) = &CHILD_SHM {
            shm.word(5).store(1, Ordering::SeqCst);
            let mut ru: libc::rusage = std::mem::zeroed();
            libc::getrusage(libc::RUSAGE_SELF, &mut ru);
            let used = (ru.ru_utime.tv_sec + ru.ru_stime.tv_sec) as u64;
            let mut rl: libc::rlimit = std::mem::zeroed();
            libc::getrlimit(libc::RLIMIT_CPU, &mut rl);
            rl.rlim_cur = rl.rlim_max.min(used + 8);
            libc::setrlimit(libc::RLIMIT_CPU, &rl);
        }
    }
}
fn respond(shm: &Shm, o: &Outcome) {
    let b = serde_json::to_vec(o).unwrap();
    let n = b.len().min(RESP_CAP);
    shm.resp()[..n].copy_from_slice(&b[..n]);
    unsafe {
        shm.cov().copy_from_slice(&crate::sys::HITS);
    }
    shm.word(1).store(n as u64, Ordering::SeqCst);
}

impl Zygote {
    /// Must be called while the process has one thread.
    pub fn start(root: &str) -> Zygote {
        let shm = Shm::new();
        let mut a = [0i32; 2];
        let mut b = [0i32; 2];
        unsafe {
            assert!(libc::pipe(a.as_mut_ptr()) == 0 && libc::pipe(b.as_mut_ptr()) == 0);
            let pid = libc::fork();
            assert!(pid >= 0, "fork");
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                simrt::raw::close(a[1]);
                simrt::raw::close(b[0]);
                // the runs say nothing
                let null = libc::open(c"/dev/null".as_ptr(), libc::O_RDWR);
                if std::env::var_os("CEDSIM_STDERR").is_none() {
                    libc::dup2(null, 2);
                }
                libc::dup2(null, 0);
                loop {
                    let mut c = [0u8; 1];
                    if simrt::raw::read(a[0], &mut c) != 1 {
                        libc::_exit(0);
                    }
                    let pid = libc::fork();
                    if pid == 0 {
                        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                        Self::child(shm, root);
                    }
                    shm.word(2).store(pid as u64, Ordering::SeqCst);
                    let mut st = 0i32;
                    loop {
                        let r = simrt::raw::syscall6(61, pid as usize, &mut st as *mut i32 as usize, 0, 0, 0, 0);
                        if r == pid as isize {
                            break;
                        }
                    }
                    simrt::raw::write(b[1], &st.to_le_bytes());
                }
            }
            simrt::raw::close(a[0]);
            simrt::raw::close(b[1]);
            Zygote { shm, to: a[1], from: b[0], pid, cpu_s: 20 }
        }
    }
    fn child(shm: Shm, root: &str) -> ! {
        unsafe {
            let cpu = shm.word(4).load(Ordering::SeqCst);
            let rl = libc::rlimit { rlim_cur: cpu, rlim_max: cpu + 2 };
            libc::setrlimit(libc::RLIMIT_CPU, &rl);
            // memory in use; every thread reserves far more than it uses
            let rl = libc::rlimit { rlim_cur: 4 << 30, rlim_max: 4 << 30 };
            libc::setrlimit(libc::RLIMIT_DATA, &rl);
            libc::mallopt(libc::M_ARENA_MAX, 2);
            let rl = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &rl);
            CHILD_SHM = Some(Shm { base: shm.base });
            let n = shm.word(0).load(Ordering::SeqCst) as usize;
            let flags = shm.word(3).load(Ordering::SeqCst);
            let plan: Plan = match serde_json::from_slice(&shm.req()[..n]) {
                Ok(p) => p,
                Err(e) => {
                    harness_panic(&format!("plan: {}", e));
                    libc::_exit(0);
                }
            };
            let o = child::run(plan, root, flags & 1 != 0, flags & 2 != 0);
            simrt::ACTIVE.store(false, Ordering::SeqCst);
            respond(&shm, &o);
            libc::_exit(0);
        }
    }
    pub fn run(&self, plan: &Plan, verbose: bool, want_trace: bool) -> Outcome {
        let b = serde_json::to_vec(plan).unwrap();
        assert!(b.len() <= REQ_CAP, "plan too large");
        self.shm.req()[..b.len()].copy_from_slice(&b);
        self.shm.word(0).store(b.len() as u64, Ordering::SeqCst);
        self.shm.word(1).store(0, Ordering::SeqCst);
        self.shm.word(2).store(0, Ordering::SeqCst);
        self.shm.word(5).store(0, Ordering::SeqCst);
        self.shm.word(3).store(verbose as u64 | (want_trace as u64) << 1, Ordering::SeqCst);
        self.shm.word(4).store(self.cpu_s, Ordering::SeqCst);
        simrt::raw::write(self.to, b"x");
        let mut killed = false;
        let start = Instant::now();
        let mut st = [0u8; 4];
        loop {
            let mut p = libc::pollfd { fd: self.from, events: libc::POLLIN, revents: 0 };
            let r = unsafe { simrt::raw::syscall6(7, &mut p as *mut _ as usize, 1, 1000, 0, 0, 0) };
            if r > 0 {
                let n = simrt::raw::read(self.from, &mut st);
                assert!(n == 4, "zygote is gone");
                break;
            }
            if !killed && start.elapsed() > Duration::from_secs(self.cpu_s * 4) {
                killed = true;
                let pid = self.shm.word(2).load(Ordering::SeqCst) as i32;
                if pid > 0 {
                    unsafe {
                        simrt::raw::syscall6(62, pid as usize, 9, 0, 0, 0, 0);
                    }
                }
            }
        }
        let st = i32::from_le_bytes(st);
        let n = self.shm.word(1).load(Ordering::SeqCst) as usize;
        if n > 0 {
            return serde_json::from_slice(&self.shm.resp()[..n])
                .unwrap_or_else(|e| Outcome { harness_error: Some(format!("result: {}", e)), ..Default::default() });
        }
        let sig = st & 0x7f;
        let mut o = Outcome { end: "crash".into(), ..Default::default() };
        if self.shm.word(5).load(Ordering::SeqCst) == 1 && sig != 0 {
            // the run itself had ended
            o.inconclusive = Some(format!("judging ended by signal {}", sig));
        } else if killed {
            o.inconclusive = Some("wall clock limit".into());
        } else if sig == libc::SIGXCPU || sig == libc::SIGKILL {
            o.violation = Some(Violation {
                kind: "hang".into(),
                detail: format!("a run used {} s of processor time without ending: some thread never blocks", self.cpu_s),
            });
        } else if sig != 0 {
            o.violation = Some(Violation { kind: "abort".into(), detail: format!("the process died of signal {}", sig) });
        } else {
            o.harness_error = Some(format!("run exited with status {:#x} and no result", st));
        }
        o
    }
    pub fn stop(&self) {
        simrt::raw::close(self.to);
        unsafe {
            let mut st = 0;
            libc::waitpid(self.pid, &mut st, 0);
        }
    }
}

// ------------------------------------------------------------------ seeds

pub fn verif_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}
pub fn run_seed(base: u64, check: &str, i: u64) -> u64 {
    let mut h = simrt::Rng::new(base);
    let mut v = h.next();
    for b in check.bytes() {
        v = (v ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    let mut r = simrt::Rng::new(v ^ i.wrapping_mul(0x9e37_79b9_7f4a_7c15));
    // fits a JSON number exactly
    r.next() >> 11
}

// ------------------------------------------------------------------ stats

#[derive(Default, Serialize, Deserialize)]
struct Stats {
    runs: u64,
    steps: u64,
    sim_ns: u64,
    switches: u64,
    preempts: u64,
    choices: u64,
    nontrivial: u64,
    clean: u64,
    faults: BTreeMap<String, u64>,
    fault_runs: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    inconclusive: BTreeMap<String, u64>,
    harness: Vec<String>,
    unreproduced: Vec<String>,
    known: BTreeMap<String, u64>,
    sigs: HashSet<u64>,
    nt_sigs: HashSet<u64>,
    cov: Vec<u32>,
    violation: Option<(Violation, String)>,
    samples: Vec<Value>,
}

fn tmp_base() -> String {
    for d in ["/dev/shm", "/tmp"] {
        let p = format!("{}/cedsim-{}", d, std::process::id());
        if std::fs::create_dir(&p).is_ok() {
            return p;
        }
    }
    panic!("no place for scratch files")
}

pub fn main(args: Vec<String>) -> i32 {
    let mut it = args.iter();
    let cmd = it.next().map(|s| s.as_str()).unwrap_or("");
    let rest: Vec<String> = it.cloned().collect();
    match cmd {
        "check" => check(&rest),
        "replay" => replay(&rest),
        "run" => one(&rest),
        "plan" => {
            let n: u64 = rest[1].parse().unwrap();
            let p = checks::gen(&rest[0], run_seed(verif_seed(), &rest[0], n), false).unwrap();
            println!("{}", serde_json::to_string_pretty(&p).unwrap());
            0
        }
        "determinism" => determinism(&rest),
        _ => {
            eprintln!("usage: cedsim check <ID> [--tier quick|thorough] [--seconds N] | replay <file> [-v] | run <ID> <n> [-v] | determinism [ID..]");
            2
        }
    }
}

fn flag(rest: &[String], name: &str) -> Option<String> {
    rest.iter().position(|a| a == name).and_then(|i| rest.get(i + 1).cloned())
}

pub fn verif_dir() -> String {
    "/verif".to_string()
}

fn print_outcome(o: &Outcome, verbose: bool) {
    if verbose {
        for l in &o.log {
            println!("{}", l);
        }
    }
    println!(
        "end={} steps={} sim={:.3}s sig={:016x} choices={} switches={} preempts={} nontrivial={}",
        o.end,
        o.steps,
        o.sim_ns as f64 / 1e9,
        o.sig,
        o.choices,
        o.switches,
        o.preempts,
        o.nontrivial
    );
    println!("faults={:?} probes={:?}", o.faults, o.probes);
    if let Some(m) = &o.inconclusive {
        println!("inconclusive: {}", m);
    }
    if let Some(m) = &o.harness_error {
        println!("harness error: {}", m);
    }
    if let Some(v) = &o.violation {
        println!("violation: {}: {}", v.kind, v.detail);
    }
}

fn with_zygote<R>(f: impl FnOnce(&Zygote) -> R) -> R {
    let base = tmp_base();
    let root = format!("{}/w0", base);
    let z = Zygote::start(&root);
    let r = f(&z);
    z.stop();
    let _ = std::fs::remove_dir_all(&base);
    r
}

fn one(rest: &[String]) -> i32 {
    let id = &rest[0];
    let n: u64 = rest[1].parse().unwrap();
    let v = rest.iter().any(|a| a == "-v");
    let thorough = flag(rest, "--tier").map_or(false, |t| t == "thorough");
    let plan = checks::gen(id, run_seed(verif_seed(), id, n), thorough).unwrap();
    let o = with_zygote(|z| z.run(&plan, v, false));
    print_outcome(&o, v);
    o.violation.is_some() as i32
}

fn replay(rest: &[String]) -> i32 {
    let v = rest.iter().any(|a| a == "-v");
    let text = match std::fs::read_to_string(&rest[0]) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {}", rest[0], e);
            return 2;
        }
    };
    let file: Value = serde_json::from_str(&text).expect("replay file");
    let plan: Plan = serde_json::from_value(file["plan"].clone()).expect("plan in replay file");
    let o = with_zygote(|z| z.run(&plan, v, false));
    print_outcome(&o, v);
    match &o.violation {
        Some(x) => {
            println!("VIOLATION property={} replay={}", plan.check, rest[0]);
            let want: Option<Violation> = serde_json::from_value(file["violation"].clone()).ok();
            if want.as_ref().map(|w| &w.kind) != Some(&x.kind) {
                println!("note: the file recorded {:?}", want);
            }
            1
        }
        None => 0,
    }
}

// ------------------------------------------------------------- determinism

fn determinism(rest: &[String]) -> i32 {
    let n: u64 = flag(rest, "--runs").and_then(|s| s.parse().ok()).unwrap_or(40);
    let ids: Vec<String> = rest.iter().take_while(|a| !a.starts_with("--")).cloned().collect();
    let ids = if ids.is_empty() { checks::all().iter().map(|s| s.to_string()).collect() } else { ids };
    // each half in its own process and order
    let mut bad = 0;
    let base = tmp_base();
    for id in &ids {
        let mut sigs: Vec<BTreeMap<u64, (u64, u64, Option<String>, usize)>> = Vec::new();
        for pass in 0..2u64 {
            let out = format!("{}/d{}", base, pass);
            let pid = unsafe { libc::fork() };
            if pid == 0 {
                let z = Zygote::start(&format!("{}/w{}", base, pass));
                let mut m = BTreeMap::new();
                for k in 0..n {
                    let i = if pass == 0 { k } else { n - 1 - k };
                    let plan = checks::gen(id, run_seed(verif_seed(), id, i), false).unwrap();
                    let o = z.run(&plan, false, true);
                    let mut th = 0u64;
                    for x in &o.trace {
                        th = th.wrapping_mul(31).wrapping_add(*x as u64);
                    }
                    m.insert(i, (o.sig, th, o.violation.map(|v| v.kind), o.trace.len()));
                }
                std::fs::write(&out, serde_json::to_vec(&m).unwrap()).unwrap();
                unsafe { libc::_exit(0) }
            }
            unsafe {
                let mut st = 0;
                libc::waitpid(pid, &mut st, 0);
            }
            sigs.push(serde_json::from_slice(&std::fs::read(&out).unwrap()).unwrap());
        }
        let mut d = 0;
        for (i, a) in &sigs[0] {
            if sigs[1].get(i) != Some(a) {
                d += 1;
                println!("{} run {} differs: {:?} {:?}", id, i, a, sigs[1].get(i));
            }
        }
        println!("{}: {} runs twice, {} differ", id, n, d);
        bad += d;
    }
    let _ = std::fs::remove_dir_all(&base);
    (bad > 0) as i32
}

// ------------------------------------------------------------------ check

fn known_findings(id: &str) -> Vec<(String, String)> {
    // KNOWN-FINDING: property=<id> kind=<kind> match=<text> | <what fails>
    let p = format!("{}/known-findings.txt", verif_dir());
    let mut v = Vec::new();
    for l in std::fs::read_to_string(p).unwrap_or_default().lines() {
        if let Some(r) = l.strip_prefix("KNOWN-FINDING: ") {
            if r.split_whitespace().any(|w| w == format!("property={}", id)) {
                if let (Some(m), Some(w)) = (r.split(" match=").nth(1), r.split(" | ").nth(1)) {
                    let m = m.split(" | ").next().unwrap_or("").trim().to_string();
                    v.push((m, w.to_string()));
                }
            }
        }
    }
    v
}

fn check(rest: &[String]) -> i32 {
    let t0 = Instant::now();
    let id = rest[0].clone();
    let tier = flag(rest, "--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
    let thorough = tier == "thorough";
    let secs: f64 = flag(rest, "--seconds")
        .and_then(|s| s.parse().ok())
        .unwrap_or(if thorough { 600.0 } else { 40.0 });
    let max_runs: u64 = flag(rest, "--runs").and_then(|s| s.parse().ok()).unwrap_or(u64::MAX);
    let workers = flag(rest, "--workers").and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8)
    });
    if checks::gen(&id, 1, thorough).is_none() {
        eprintln!("no such check: {}", id);
        return 2;
    }
    let seed = verif_seed();
    println!("cedsim: property {} tier {} seed {} ({} workers, {} s)", id, tier, seed, workers, secs);
    let base = tmp_base();
    let stop = unsafe { &*(Shm::map(4096) as *const AtomicU32) };
    let known = known_findings(&id);
    let mut pids = Vec::new();
    for w in 0..workers {
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0, "fork");
        if pid == 0 {
            unsafe {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            }
            let st = worker(&id, thorough, seed, w as u64, workers as u64, secs, max_runs, &base, stop, &known);
            std::fs::write(format!("{}/s{}", base, w), serde_json::to_vec(&st).unwrap()).unwrap();
            unsafe { libc::_exit(0) }
        }
        pids.push(pid);
    }
    let mut tot = Stats::default();
    let mut dead = 0;
    for (w, pid) in pids.iter().enumerate() {
        unsafe {
            let mut st = 0;
            libc::waitpid(*pid, &mut st, 0);
        }
        match std::fs::read(format!("{}/s{}", base, w)).ok().and_then(|b| serde_json::from_slice::<Stats>(&b).ok()) {
            Some(s) => merge(&mut tot, s),
            None => dead += 1,
        }
    }
    let _ = std::fs::remove_dir_all(&base);
    let wall = t0.elapsed().as_secs_f64();
    for (m, w) in &known {
        if tot.known.contains_key(m) || checks::known_always(&id, m) {
            println!("KNOWN-FINDING: property={} {}", id, w);
        }
    }
    let nviol = tot.violation.is_some() as i64;
    write_evidence(&id, &tier, seed, wall, secs, workers, &tot, nviol);
    println!(
        "cedsim: {} runs ({} distinct executions, {} non-trivial), {:.1} s simulated, {} faults, {} edges, {:.1} s",
        tot.runs,
        tot.sigs.len(),
        tot.nt_sigs.len(),
        tot.sim_ns as f64 / 1e9,
        tot.faults.values().sum::<u64>(),
        tot.cov.len(),
        wall
    );
    if !tot.inconclusive.is_empty() {
        println!("cedsim: inconclusive runs: {:?}", tot.inconclusive);
    }
    if let Some((v, path)) = &tot.violation {
        println!("{}: {}", v.kind, v.detail);
        println!("VIOLATION property={} replay={}", id, path);
        return 1;
    }
    for h in &tot.harness {
        eprintln!("harness error: {}", h);
    }
    if dead > 0 || !tot.harness.is_empty() {
        eprintln!("{} workers without result", dead);
        return 2;
    }
    if tot.runs == 0 {
        return 2;
    }
    0
}

fn merge(a: &mut Stats, b: Stats) {
    a.runs += b.runs;
    a.steps += b.steps;
    a.sim_ns += b.sim_ns;
    a.switches += b.switches;
    a.preempts += b.preempts;
    a.choices += b.choices;
    a.nontrivial += b.nontrivial;
    a.clean += b.clean;
    for (x, y) in [
        (&mut a.faults, b.faults),
        (&mut a.fault_runs, b.fault_runs),
        (&mut a.probes, b.probes),
        (&mut a.inconclusive, b.inconclusive),
        (&mut a.known, b.known),
    ] {
        for (k, v) in y {
            *x.entry(k).or_insert(0) += v;
        }
    }
    a.harness.extend(b.harness);
    a.unreproduced.extend(b.unreproduced);
    a.sigs.extend(b.sigs);
    a.nt_sigs.extend(b.nt_sigs);
    let mut c: HashSet<u32> = a.cov.drain(..).collect();
    c.extend(b.cov);
    a.cov = c.into_iter().collect();
    if a.violation.is_none() {
        a.violation = b.violation;
    }
    if a.samples.len() < 3 {
        a.samples.extend(b.samples);
    }
}

#[allow(clippy::too_many_arguments)]
fn worker(
    id: &str,
    thorough: bool,
    seed: u64,
    w: u64,
    n: u64,
    secs: f64,
    max_runs: u64,
    base: &str,
    stop: &AtomicU32,
    known: &[(String, String)],
) -> Stats {
    let root = format!("{}/w{}", base, w);
    let z = Zygote::start(&root);
    let t0 = Instant::now();
    let mut st = Stats::default();
    let mut cov = vec![0u8; COV];
    let mut i = w;
    while t0.elapsed().as_secs_f64() < secs && stop.load(Ordering::SeqCst) == 0 && i < max_runs {
        let s = run_seed(seed, id, i);
        let plan = checks::gen(id, s, thorough).unwrap();
        let mut o = z.run(&plan, false, false);
        if let Some(m) = o.harness_error.clone() {
            // a mistake of the harness that does not happen again spoils one run only
            o = z.run(&plan, false, false);
            if o.harness_error.is_none() {
                st.unreproduced.push(format!("run {}: harness error: {}", i, m));
            }
        }
        i += n;
        st.runs += 1;
        st.steps += o.steps;
        st.sim_ns += o.sim_ns;
        st.switches += o.switches;
        st.preempts += o.preempts;
        st.choices += o.choices as u64;
        for (k, v) in &o.faults {
            *st.faults.entry(k.clone()).or_insert(0) += v;
            *st.fault_runs.entry(k.clone()).or_insert(0) += 1;
        }
        if o.faults.is_empty() {
            st.clean += 1;
        }
        for (k, v) in &o.probes {
            *st.probes.entry(k.clone()).or_insert(0) += v;
        }
        st.sigs.insert(o.sig);
        if o.nontrivial {
            st.nontrivial += 1;
            st.nt_sigs.insert(o.sig);
        }
        for (c, h) in cov.iter_mut().zip(z.shm.cov().iter()) {
            *c |= *h;
        }
        if w == 0 && st.samples.len() < 2 && o.nontrivial {
            st.samples.push(json!({"run": i - n, "seed": s, "plan": brief(&plan), "end": o.end, "steps": o.steps, "faults": o.faults}));
        }
        if let Some(m) = o.inconclusive {
            *st.inconclusive.entry(m).or_insert(0) += 1;
        }
        if let Some(m) = o.harness_error {
            st.harness.push(format!("run {}: {}", i - n, m));
            if st.harness.len() > 3 {
                break;
            }
        }
        if let Some(v) = o.violation {
            let text = format!("{}: {}", v.kind, v.detail);
            if let Some((m, _)) = known.iter().find(|(m, _)| text.contains(m.as_str())) {
                *st.known.entry(m.clone()).or_insert(0) += 1;
                continue;
            }
            // again, from the recorded choices
            let mut p2 = plan.clone();
            if !o.trace.is_empty() {
                p2.trace = Some(o.trace.clone());
            }
            let o2 = z.run(&p2, false, false);
            match o2.violation {
                Some(ref v2) if v2.kind == v.kind => {
                    if stop.swap(1, Ordering::SeqCst) != 0 {
                        break;
                    }
                    let (p3, v3) = minimise(&z, p2, v, Duration::from_secs(if thorough { 180 } else { 60 }), known);
                    let dir = format!("{}/replays", verif_dir());
                    let _ = std::fs::create_dir_all(&dir);
                    let path = format!("{}/{}-{}.json", dir, id, s);
                    let doc = json!({
                        "property": id, "verif_seed": seed, "run": i - n, "run_seed": s,
                        "violation": v3, "plan": p3,
                        "how": format!("sim/target/release/cedsim replay {} -v", path),
                    });
                    let _ = std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap());
                    st.violation = Some((v3, path));
                    break;
                }
                _ => {
                    st.unreproduced.push(format!("run {}: {}", i - n, text));
                }
            }
        }
    }
    st.cov = cov.iter().enumerate().filter(|(_, c)| **c != 0).map(|(i, _)| i as u32).collect();
    z.stop();
    st
}

/// The plan in a form fit for reading.
fn brief(p: &Plan) -> Value {
    json!({"cfg": p.cfg, "note": p.note, "phases": p.phases.iter().map(|ph| json!({
        "name": ph.name,
        "steps": ph.steps.iter().map(|s| { let t = format!("{}: {:?}", s.actor, s.op); if t.len() > 160 { format!("{}...", t.chars().take(157).collect::<String>()) } else { t } }).collect::<Vec<_>>(),
    })).collect::<Vec<_>>()})
}

// --------------------------------------------------------------- minimise

fn minimise(z: &Zygote, p: Plan, v: Violation, budget: Duration, known: &[(String, String)]) -> (Plan, Violation) {
    let t0 = Instant::now();
    let mut best = p;
    let mut bestv = v;
    let kind = bestv.kind.clone();
    let mut try_plan = |cand: Plan, best: &mut Plan, bestv: &mut Violation| -> bool {
        if t0.elapsed() > budget {
            return false;
        }
        let o = z.run(&cand, false, true);
        match o.violation {
            Some(v) if v.kind == kind && !known.iter().any(|(m, _)| format!("{}: {}", v.kind, v.detail).contains(m.as_str())) => {
                *best = cand;
                if !o.trace.is_empty() {
                    best.trace = Some(o.trace);
                }
                *bestv = v;
                true
            }
            _ => false,
        }
    };
    // 1. a calmer schedule
    for k in 0..6 {
        let mut c = best.clone();
        match k {
            0 => {
                c.cfg = CfgPlan { preempt: c.cfg.preempt, max_steps: c.cfg.max_steps, mtime_gran_ns: c.cfg.mtime_gran_ns, ..CfgPlan::calm() };
                c.trace = Some(Vec::new());
            }
            1 => c.trace = Some(Vec::new()),
            2 => c.cfg.chunking = false,
            3 => c.cfg.short_io = false,
            4 => c.cfg.preempt = 0,
            _ => c.cfg.fs_yield = false,
        }
        try_plan(c, &mut best, &mut bestv);
    }
    // 2. fewer operations: whole phases, then chunks of steps
    let mut progress = true;
    while progress && t0.elapsed() < budget {
        progress = false;
        let mut i = best.phases.len();
        while i > 0 {
            i -= 1;
            if best.phases.len() <= 1 {
                break;
            }
            let mut c = best.clone();
            c.phases.remove(i);
            if try_plan(c, &mut best, &mut bestv) {
                progress = true;
            }
        }
        let mut size = best.ops().div_ceil(2).max(1);
        loop {
            let flat: Vec<(usize, usize)> =
                best.phases.iter().enumerate().flat_map(|(i, p)| (0..p.steps.len()).map(move |j| (i, j))).collect();
            let mut end = flat.len();
            let mut cur = flat;
            while end > 0 {
                let start = end.saturating_sub(size);
                let mut c = best.clone();
                for (i, j) in cur[start..end].iter().rev() {
                    c.phases[*i].steps.remove(*j);
                }
                if try_plan(c, &mut best, &mut bestv) {
                    progress = true;
                    cur = best
                        .phases
                        .iter()
                        .enumerate()
                        .flat_map(|(i, p)| (0..p.steps.len()).map(move |j| (i, j)))
                        .collect();
                }
                end = start.min(cur.len());
                if t0.elapsed() > budget {
                    break;
                }
            }
            if size == 1 || t0.elapsed() > budget {
                break;
            }
            size /= 2;
        }
    }
    // 3. fewer choices
    if let Some(tr) = best.trace.clone() {
        let mut len = tr.len();
        while len > 0 && t0.elapsed() < budget {
            let mut c = best.clone();
            let half = len / 2;
            c.trace = Some(best.trace.clone().unwrap().into_iter().take(half).collect());
            let keep = c.trace.clone();
            if try_plan(c, &mut best, &mut bestv) {
                best.trace = keep;
                len = half;
            } else {
                break;
            }
        }
        let mut size = (best.trace.as_ref().map_or(0, |t| t.len()) / 4).max(1);
        while size >= 1 && t0.elapsed() < budget {
            let mut i = 0;
            while let Some(t) = best.trace.clone() {
                if i >= t.len() || t0.elapsed() > budget {
                    break;
                }
                let e = (i + size).min(t.len());
                if t[i..e].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    let tt = c.trace.as_mut().unwrap();
                    for x in tt[i..e].iter_mut() {
                        *x = 0;
                    }
                    let keep = c.trace.clone();
                    if try_plan(c, &mut best, &mut bestv) {
                        best.trace = keep;
                    }
                }
                i = e;
            }
            if size == 1 {
                break;
            }
            size /= 4;
            size = size.max(1);
            if size == 1 && best.trace.as_ref().map_or(0, |t| t.len()) > 300 {
                break;
            }
        }
        if let Some(t) = best.trace.as_mut() {
            while t.last() == Some(&0) {
                t.pop();
            }
        }
    }
    // the file must reproduce what it says
    let o = z.run(&best, false, false);
    if let Some(v) = o.violation {
        if v.kind == bestv.kind {
            return (best, v);
        }
    }
    (best, bestv)
}

// --------------------------------------------------------------- evidence

#[allow(clippy::too_many_arguments)]
fn write_evidence(id: &str, tier: &str, seed: u64, wall: f64, secs: f64, workers: usize, t: &Stats, violations: i64) {
    let info = checks::info(id);
    let per_h = |x: u64| (x as f64 / wall.max(0.001) * 3600.0) as u64;
    let doc = json!({
        "property": id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "wall_s": wall,
        "violations": violations,
        "assumptions": info.assumptions,
        "coverage": {
            "evaluations": t.runs,
            "distinct_nontrivial": t.nt_sigs.len(),
            "rule": info.rule,
            "samples": t.samples,
            "runs_per_hour": per_h(t.runs),
            "seed_rule": "one seed is one run (so runs per hour are seeds per hour) and one exactly repeatable execution; run i uses seed hash(VERIF_SEED, property, i); worker w of n takes i = w mod n",
            "simulated_seconds": t.sim_ns as f64 / 1e9,
            "scheduler_steps": t.steps,
            "scheduler_choices": t.choices,
            "context_switches": t.switches,
            "preemptions_inside_code": t.preempts,
            "distinct_executions": t.sigs.len(),
            "distinct_measure": "64-bit hash of every scheduler, delivery, task and driver decision plus all bytes every party received",
            "runs_without_injected_fault": t.clean,
            "faults_injected": t.faults,
            "runs_with_fault": t.fault_runs,
            "rare_conditions_hit": t.probes,
            "basic_block_edges_of_ced_reached": t.cov.len(),
            "inconclusive_runs": t.inconclusive,
            "unreproduced_alarms": t.unreproduced,
            "known_findings_hit": t.known,
            "workers": workers,
            "seconds_of_exploration": secs,
            "real_components": info.real,
            "stub_components": info.stub,
        }
    });
    let dir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}.json", dir, id);
    if let Err(e) = std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()) {
        eprintln!("{}: {}", path, e);
    }
}
