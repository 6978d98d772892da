//! Deterministic simulation kernel: virtual processes and threads (one runs at a
//! time), a seeded scheduler, a simulated network, virtual time, file faults.
//!
//! Everything below runs on whichever OS thread currently holds the baton, so
//! there is never any parallelism; state lives in one global.

pub mod fs;
pub mod net;
pub mod raw;
pub mod stdio;

use std::cell::Cell;
use std::collections::{BTreeMap, VecDeque};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicUsize, Ordering};
use std::task::Waker;

pub const EPOCH_NS: i64 = 1_700_000_000_000_000_000;

// ------------------------------------------------------------------ tape

/// All schedule-level randomness. In free mode choices come from the PRNG and
/// are recorded; in trace mode they come from a recorded (possibly edited) list
/// and are 0 once it is used up.
pub struct Tape {
    rng: Rng,
    pub trace: Option<Vec<u16>>,
    pub pos: usize,
    pub record: Vec<u16>,
}

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed ^ 0x9e37_79b9_7f4a_7c15);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, pct: usize) -> bool {
        self.below(100) < pct
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

impl Tape {
    pub fn new(seed: u64, trace: Option<Vec<u16>>) -> Tape {
        Tape { rng: Rng::new(seed ^ 0x5eed), trace, pos: 0, record: Vec::new() }
    }
    pub fn choose(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        let v = match &self.trace {
            Some(t) => {
                let v = t.get(self.pos).copied().unwrap_or(0) as usize % n;
                self.pos += 1;
                v
            }
            None => self.rng.below(n),
        };
        self.record.push(v as u16);
        v
    }
    pub fn choose_weighted(&mut self, w: &[u32]) -> usize {
        if w.len() <= 1 {
            return 0;
        }
        let v = match &self.trace {
            Some(t) => {
                let v = t.get(self.pos).copied().unwrap_or(0) as usize % w.len();
                self.pos += 1;
                v
            }
            None => {
                let total: u64 = w.iter().map(|x| *x as u64).sum();
                let mut x = self.rng.next() % total.max(1);
                let mut r = w.len() - 1;
                for (i, &wi) in w.iter().enumerate() {
                    if x < wi as u64 {
                        r = i;
                        break;
                    }
                    x -= wi as u64;
                }
                r
            }
        };
        self.record.push(v as u16);
        v
    }
    pub fn chance(&mut self, pct: u32) -> bool {
        if pct == 0 {
            return false;
        }
        self.choose_weighted(&[100u32.saturating_sub(pct), pct]) == 1
    }
}

// ------------------------------------------------------------------ config

#[derive(Clone, Debug)]
pub struct Cfg {
    pub w_cont: u32,
    pub w_thread: u32,
    pub w_net: u32,
    pub w_drv: u32,
    /// deliver in pieces
    pub chunking: bool,
    /// short reads and writes on sockets
    pub short_io: bool,
    /// FIFO task order instead of a random one
    pub fifo: bool,
    pub burst: u32,
    /// bytes a socket direction can hold
    pub sock_cap: usize,
    pub fs_yield: bool,
    /// mean basic blocks between preemptions, 0 = never preempt
    pub preempt: u32,
    pub max_steps: u64,
    pub verbose: bool,
    /// granularity of file time stamps
    pub mtime_gran_ns: i64,
}

impl Default for Cfg {
    fn default() -> Cfg {
        Cfg {
            w_cont: 30,
            w_thread: 10,
            w_net: 10,
            w_drv: 10,
            chunking: true,
            short_io: false,
            fifo: false,
            burst: 4,
            sock_cap: 200_000,
            fs_yield: true,
            preempt: 0,
            max_steps: 200_000,
            verbose: false,
            mtime_gran_ns: 1,
        }
    }
}

// ------------------------------------------------------------------ state

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum TState {
    Runnable,
    /// blocked on a key (futex address, fd, ...), maybe with a deadline
    Blocked(Key, Option<u64>),
    Dead,
    Exited,
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Key {
    Futex(usize),
    Stdin(usize),
    Stdout(usize),
    Pipe,
    Proc(usize),
    Join(usize),
    Never,
}

pub struct Thread {
    pub proc: usize,
    pub state: TState,
    pub timed_out: bool,
    pub last_panic: Option<String>,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum PState {
    Running,
    Exited(i32),
    Panicked(String),
    Killed,
}

pub struct Proc {
    pub name: String,
    pub args: Vec<String>,
    pub state: PState,
    pub started_step: u64,
    pub ended_step: u64,
    /// asynchronous tasks that have not ended
    pub tasks: i64,
    pub stdout: Vec<u8>,
    /// real fd behind fd 1 (spawned daemons), else captured in `stdout`
    pub stdout_fd: Option<i32>,
    /// capacity of the captured stdout before writers block; consumed by driver
    pub stdout_cap: usize,
    pub stdout_pending: VecDeque<u8>,
    pub stdin: VecDeque<u8>,
    pub stdin_eof: bool,
    pub stdin_err: i32,
    /// lines taken from standard input, with the step of the last byte
    pub in_lines: Vec<net::Line>,
    pub in_part: Vec<u8>,
    /// step at which the end of standard input was seen
    pub in_end: Option<u64>,
    /// lines written to standard output
    pub out_lines: Vec<net::Line>,
    pub out_part: Vec<u8>,
    pub thread_panics: Vec<String>,
    pub main_tid: usize,
    pub parent: usize,
    pub stdout_closed: bool,
    pub stdout_written: u64,
    pub stdout_last_step: u64,
    pub stderr: Vec<u8>,
    /// size (columns, rows) of the terminal behind standard input and output
    pub term: Option<(u16, u16)>,
    pub raw_mode: bool,
    /// bytes of output before a change of the size, the new size, the step
    pub resizes: Vec<(u64, u16, u16, u64)>,
    /// argv as C strings (kept alive) for std::env::args
    pub argv: Vec<std::ffi::CString>,
}

pub struct Sim {
    pub threads: Vec<Box<Thread>>,
    pub procs: Vec<Proc>,
    pub net: net::Net,
    pub fs: fs::Fs,
    pub tape: Tape,
    pub cfg: Cfg,
    pub step: u64,
    pub mono_ns: u64,
    pub wall_off_ns: i64,
    pub sig: u64,
    pub log: Vec<String>,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub end: Option<&'static str>,
    pub pending_wakes: Vec<Waker>,
    pub next_spawn_proc: Option<usize>,
    pub spawn_dup2: Vec<(usize, i32, i32)>,
    pub rand: Rng,
    pub switches: u64,
    pub preempts: u64,
    pub timer_fires: u64,
}

pub enum DrvResult {
    More,
    Done,
}

/// What the harness adds to the environment: client operations, file changes...
pub trait Driver {
    fn actions(&mut self, out: &mut Vec<(u64, u32)>);
    fn perform(&mut self, action: u64);
    /// Nothing can happen any more: open the next phase or finish.
    fn quiescent(&mut self) -> DrvResult;
    fn spawn_process(&mut self, path: &str, args: Vec<String>) -> Result<Box<dyn FnOnce() -> i32 + Send>, i32>;
    fn on_deliver(&mut self, _conn: usize, _dir: usize) {}
    fn on_proc_end(&mut self, _proc: usize) {}
}

static mut SIM: *mut Sim = std::ptr::null_mut();
static mut DRIVER: Option<*mut dyn Driver> = None;
pub static ACTIVE: AtomicBool = AtomicBool::new(false);
static IN_KERNEL: AtomicU32 = AtomicU32::new(0);
static RUNNING: AtomicUsize = AtomicUsize::new(0);

thread_local! {
    static CUR: Cell<usize> = const { Cell::new(usize::MAX) };
}

#[inline]
pub fn cur() -> usize {
    CUR.try_with(|c| c.get()).unwrap_or(usize::MAX)
}
pub fn set_cur(t: usize) {
    CUR.with(|c| c.set(t));
}
#[allow(static_mut_refs)]
#[inline]
pub fn sim() -> &'static mut Sim {
    unsafe { &mut *SIM }
}
#[inline]
pub fn driver() -> &'static mut dyn Driver {
    unsafe { &mut *DRIVER.expect("driver") }
}
#[inline]
pub fn active() -> bool {
    ACTIVE.load(Ordering::Relaxed)
}
/// The calling code is simulated code (not the harness).
#[inline]
pub fn engaged() -> bool {
    active() && IN_KERNEL.load(Ordering::Relaxed) == 0 && cur() != usize::MAX && cur() != 0
}
pub fn in_sim_thread() -> bool {
    active() && cur() != usize::MAX && cur() != 0
}

pub struct KGuard(u32);
pub fn kenter() -> KGuard {
    let old = IN_KERNEL.load(Ordering::Relaxed);
    IN_KERNEL.store(1, Ordering::Relaxed);
    KGuard(old)
}
impl Drop for KGuard {
    fn drop(&mut self) {
        IN_KERNEL.store(self.0, Ordering::Relaxed);
    }
}

#[macro_export]
macro_rules! ev {
    ($($a:tt)*) => {{
        let s = $crate::sim();
        if s.cfg.verbose {
            let line = format!("{:>6} {}", s.step, format!($($a)*));
            s.log.push(line);
        }
    }};
}

pub fn mix(v: u64) {
    let s = sim();
    s.sig = (s.sig ^ v).wrapping_mul(0x0000_0100_0000_01b3).rotate_left(5);
}
pub fn mix_bytes(b: &[u8]) {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x0000_0100_0000_01b3);
    }
    mix(h);
}
pub fn fault(name: &'static str) {
    *sim().faults.entry(name).or_insert(0) += 1;
}
pub fn probe(name: &'static str) {
    *sim().probes.entry(name).or_insert(0) += 1;
}

// ------------------------------------------------------------------ run

pub fn init(cfg: Cfg, seed: u64, trace: Option<Vec<u16>>, root: &str) {
    stdio::init();
    let sim = Box::new(Sim {
        threads: vec![Box::new(Thread {
            proc: 0,
            state: TState::Blocked(Key::Never, None),
            timed_out: false,
            last_panic: None,
        })],
        procs: vec![Proc::new("harness", Vec::new())],
        net: net::Net::new(),
        fs: fs::Fs::new(root),
        tape: Tape::new(seed, trace),
        cfg,
        step: 0,
        mono_ns: 1_000_000_000,
        wall_off_ns: EPOCH_NS,
        sig: 0xcbf2_9ce4_8422_2325,
        log: Vec::new(),
        faults: BTreeMap::new(),
        probes: BTreeMap::new(),
        end: None,
        pending_wakes: Vec::new(),
        next_spawn_proc: None,
        spawn_dup2: Vec::new(),
        rand: Rng::new(seed ^ 0xa11d),
        switches: 0,
        preempts: 0,
        timer_fires: 0,
    });
    unsafe {
        SIM = Box::into_raw(sim);
    }
    set_cur(0);
    IN_KERNEL.store(1, Ordering::Relaxed);
    RUNNING.store(0, Ordering::Relaxed);
    ACTIVE.store(true, Ordering::SeqCst);
    reset_preempt();
}

/// Runs until the driver says done. Called on the main thread.
pub fn run(driver: *mut dyn Driver) {
    unsafe {
        DRIVER = Some(driver);
    }
    reschedule(TState::Blocked(Key::Never, None));
    IN_KERNEL.store(1, Ordering::Relaxed);
}

impl Proc {
    fn new(name: &str, args: Vec<String>) -> Proc {
        let args2 = args.iter().map(|a| std::ffi::CString::new(a.as_str()).unwrap_or_default()).collect();
        Proc {
            name: name.to_string(),
            args,
            state: PState::Running,
            started_step: 0,
            ended_step: 0,
        tasks: 0,
            stdout: Vec::new(),
            stdout_fd: None,
            stdout_cap: usize::MAX,
            stdout_pending: VecDeque::new(),
            stdin: VecDeque::new(),
            stdin_eof: false,
            stdin_err: 0,
            in_lines: Vec::new(),
            in_part: Vec::new(),
            in_end: None,
            out_lines: Vec::new(),
            out_part: Vec::new(),
            thread_panics: Vec::new(),
            main_tid: 0,
            parent: 0,
            stdout_closed: false,
            stdout_written: 0,
            stdout_last_step: 0,
            stderr: Vec::new(),
            term: None,
            raw_mode: false,
            resizes: Vec::new(),
            argv: args2,
        }
    }
}

pub fn spawn_proc(name: &str, args: Vec<String>, f: Box<dyn FnOnce() -> i32 + Send>) -> usize {
    let _k = kenter();
    let s = sim();
    let pid = s.procs.len();
    s.procs.push(Proc::new(name, args));
    ev!("process {} ({}) starts", pid, name);
    mix(0x1000 + pid as u64);
    s.next_spawn_proc = Some(pid);
    let tid = s.threads.len();
    s.procs[pid].main_tid = tid;
    s.procs[pid].started_step = s.step;
    std::thread::Builder::new()
        .name(format!("p{}", pid))
        .stack_size(8 << 20)
        .spawn(move || {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            // what the runtime does when main returns
            let _ = std::io::Write::flush(&mut std::io::stdout());
            proc_end(pid, r.map_err(|_| ()));
        })
        .expect("spawn simulated process");
    pid
}

/// exit(3) by simulated code.
pub fn proc_exit(code: i32) -> ! {
    IN_KERNEL.store(1, Ordering::Relaxed);
    IN_KERNEL.store(0, Ordering::Relaxed);
    let _ = std::io::Write::flush(&mut std::io::stdout());
    IN_KERNEL.store(1, Ordering::Relaxed);
    let pid = sim().threads[cur()].proc;
    end_proc(pid, PState::Exited(code));
    reschedule(TState::Dead);
    unreachable!();
}

fn proc_end(pid: usize, r: Result<i32, ()>) {
    IN_KERNEL.store(1, Ordering::Relaxed);
    let me = cur();
    let state = match r {
        Ok(c) => PState::Exited(c),
        Err(()) => {
            PState::Panicked(sim().threads[me].last_panic.take().unwrap_or_else(|| "panic".into()))
        }
    };
    end_proc(pid, state);
    reschedule(TState::Dead);
    unreachable!();
}

pub fn end_proc(pid: usize, state: PState) {
    let _k = kenter();
    let s = sim();
    if s.procs[pid].state != PState::Running {
        return;
    }
    ev!("process {} ends: {:?}", pid, state);
    mix(0x2000 + pid as u64);
    s.procs[pid].state = state;
    s.procs[pid].ended_step = s.step;
    for t in s.threads.iter_mut() {
        if t.proc == pid && t.state != TState::Exited {
            t.state = TState::Dead;
        }
    }
    net::close_all_of(pid);
    let s = sim();
    for (fd, p) in s.fs.locks.iter() {
        if *p == pid {
            raw::flock(*fd, 8);
        }
    }
    s.fs.locks.retain(|_, p| *p != pid);
    if let Some(fd) = s.procs[pid].stdout_fd.take() {
        raw::close(fd);
    }
    wake_key(Key::Pipe);
    wake_key(Key::Proc(pid));
    driver().on_proc_end(pid);
}

// ---------------------------------------------------------------- threads

/// Called (in any mode) before a real thread is created; returns its id.
pub fn thread_register() -> usize {
    let s = sim();
    let proc = match s.next_spawn_proc.take() {
        Some(p) => p,
        None => s.threads[cur()].proc,
    };
    let tid = s.threads.len();
    s.threads.push(Box::new(Thread {
        proc,
        state: TState::Runnable,
        timed_out: false,
        last_panic: None,
    }));
    tid
}

/// First thing on a new thread: wait for the baton.
pub fn thread_started(tid: usize) {
    set_cur(tid);
    wait_go(tid);
    IN_KERNEL.store(0, Ordering::Relaxed);
}

/// Last thing on a thread; afterwards it runs outside the simulation.
pub fn thread_exited() {
    IN_KERNEL.store(1, Ordering::Relaxed);
    let me = cur();
    let s = sim();
    s.threads[me].state = TState::Exited;
    if let Some(p) = s.threads[me].last_panic.take() {
        let pid = s.threads[me].proc;
        s.procs[pid].thread_panics.push(p);
    }
    wake_key(Key::Join(me));
    // hand the baton on without waiting for it to come back
    let next = pick(me);
    set_cur(usize::MAX);
    RUNNING.store(next, Ordering::Relaxed);
    give(next);
}

/// The real argv array of the harness; std::env::args reads it on every call.
pub static mut ARGV: (*mut *const std::os::raw::c_char, usize) = (std::ptr::null_mut(), 0);
static LAST_PROC: AtomicUsize = AtomicUsize::new(usize::MAX);
fn set_argv(tid: usize) {
    let s = sim();
    let proc = s.threads[tid].proc;
    if LAST_PROC.swap(proc, Ordering::Relaxed) == proc {
        return;
    }
    stdio::switch(proc);
    unsafe {
        let (p, n) = ARGV;
        if p.is_null() {
            return;
        }
        let a = &s.procs[proc].argv;
        for i in 0..n {
            *p.add(i) = if i < a.len() { a[i].as_ptr() } else { std::ptr::null() };
        }
    }
}

/// Who may run. A thread without the baton must not look into the table of threads:
/// the one that has it may be growing it.
static GO: [AtomicU32; 1 << 16] = [const { AtomicU32::new(0) }; 1 << 16];

fn wait_go(tid: usize) {
    let go = &GO[tid];
    while go.swap(0, Ordering::Acquire) == 0 {
        raw::futex_wait(go.as_ptr(), 0);
    }
    set_argv(tid);
}

fn give(tid: usize) {
    let go = &GO[tid];
    go.store(1, Ordering::Release);
    raw::futex_wake(go.as_ptr(), 1);
}

pub fn wake_key(key: Key) -> usize {
    wake_key_n(key, usize::MAX)
}
pub fn wake_key_n(key: Key, n: usize) -> usize {
    let mut c = 0;
    for t in sim().threads.iter_mut() {
        if c >= n {
            break;
        }
        if let TState::Blocked(k, _) = t.state {
            if k == key {
                t.state = TState::Runnable;
                t.timed_out = false;
                c += 1;
            }
        }
    }
    c
}

pub fn block(key: Key, timeout_ns: Option<u64>) -> bool {
    let s = sim();
    let deadline = timeout_ns.map(|d| s.mono_ns.saturating_add(d));
    reschedule(TState::Blocked(key, deadline));
    let me = cur();
    let t = &mut sim().threads[me];
    let to = t.timed_out;
    t.timed_out = false;
    to
}

/// A point where the environment or another thread may act.
pub fn yield_point() {
    if engaged() {
        reschedule(TState::Runnable);
    }
}

fn reschedule(state: TState) {
    IN_KERNEL.store(1, Ordering::Relaxed);
    let me = cur();
    {
        let t = &mut sim().threads[me];
        if t.state == TState::Runnable || me == 0 {
            t.state = state;
        }
    }
    let next = pick(me);
    if next != me {
        sim().switches += 1;
        RUNNING.store(next, Ordering::Relaxed);
        give(next);
        wait_go(me);
    }
    reset_preempt();
    IN_KERNEL.store(0, Ordering::Relaxed);
}

pub fn flush_wakes() {
    while !sim().pending_wakes.is_empty() {
        let ws = std::mem::take(&mut sim().pending_wakes);
        for w in ws {
            w.wake();
        }
    }
}

enum Cand {
    Thread(usize),
    Net(net::Act),
    Drv(u64),
}

/// Performs environment actions until a thread is chosen; returns its id.
fn pick(me: usize) -> usize {
    let mut cands: Vec<Cand> = Vec::with_capacity(32);
    let mut weights: Vec<u32> = Vec::with_capacity(32);
    let mut drv: Vec<(u64, u32)> = Vec::new();
    loop {
        flush_wakes();
        let s = sim();
        if s.end.is_some() {
            return 0;
        }
        s.step += 1;
        s.mono_ns += 1_000 + (s.step.wrapping_mul(7919)) % 9_000;
        if s.step > s.cfg.max_steps {
            s.end = Some("step-limit");
            return 0;
        }
        cands.clear();
        weights.clear();
        drv.clear();
        if me != 0 && s.threads[me].state == TState::Runnable {
            cands.push(Cand::Thread(me));
            weights.push(s.cfg.w_cont);
        }
        for (i, t) in s.threads.iter().enumerate() {
            if i != me && i != 0 && t.state == TState::Runnable {
                cands.push(Cand::Thread(i));
                weights.push(s.cfg.w_thread);
            }
        }
        net::actions(|a| {
            cands.push(Cand::Net(a));
            weights.push(s.cfg.w_net);
        });
        driver().actions(&mut drv);
        let s = sim();
        for (a, w) in drv.iter() {
            cands.push(Cand::Drv(*a));
            weights.push(s.cfg.w_drv.saturating_mul(*w).max(1));
        }
        if cands.is_empty() {
            // let the earliest timed wait expire, else the system is quiescent
            let mut best: Option<(u64, usize)> = None;
            for (i, t) in s.threads.iter().enumerate() {
                if let TState::Blocked(_, Some(d)) = t.state {
                    if best.map_or(true, |b| (d, i) < b) {
                        best = Some((d, i));
                    }
                }
            }
            if let Some((d, i)) = best {
                if s.timer_fires < 200 {
                    s.timer_fires += 1;
                    s.mono_ns = s.mono_ns.max(d);
                    s.threads[i].state = TState::Runnable;
                    s.threads[i].timed_out = true;
                    continue;
                }
            }
            match driver().quiescent() {
                DrvResult::More => {
                    sim().timer_fires = 0;
                    continue;
                }
                DrvResult::Done => {
                    let s = sim();
                    if s.end.is_none() {
                        s.end = Some("done");
                    }
                    return 0;
                }
            }
        }
        let i = s.tape.choose_weighted(&weights);
        match cands[i] {
            Cand::Thread(t) => {
                if cands.len() > 1 {
                    mix(t as u64);
                }
                return t;
            }
            Cand::Net(ref a) => {
                let a = a.clone();
                net::perform(a)
            }
            Cand::Drv(a) => {
                mix(0x4000 + a);
                driver().perform(a)
            }
        }
    }
}

/// Ends the run from inside a driver callback.
pub fn finish(why: &'static str) {
    let s = sim();
    if s.end.is_none() {
        s.end = Some(why);
    }
}

// ------------------------------------------------------- hooks for patches

pub fn choose_task(n: usize) -> usize {
    if !in_sim_thread() || n <= 1 {
        return 0;
    }
    let s = sim();
    if s.cfg.fifo {
        return 0;
    }
    let i = s.tape.choose(n);
    mix(0x8000 + i as u64);
    i
}
pub fn task_burst() -> usize {
    if !in_sim_thread() {
        return 8;
    }
    let s = sim();
    let b = s.cfg.burst.max(1) as usize;
    1 + s.tape.choose(b)
}
pub fn task_breath() -> bool {
    if !in_sim_thread() {
        return false;
    }
    sim().tape.choose(8) == 1
}

// ------------------------------------------------------- preemption hook

static PREEMPT_LEFT: AtomicU32 = AtomicU32::new(u32::MAX);
fn reset_preempt() {
    let s = sim();
    let p = s.cfg.preempt;
    let left = if p == 0 { u32::MAX } else { 1 + s.tape.choose(2 * p as usize) as u32 };
    PREEMPT_LEFT.store(left, Ordering::Relaxed);
}
/// Called at basic blocks of the code under test.
#[inline]
pub fn block_hook() {
    let l = PREEMPT_LEFT.load(Ordering::Relaxed);
    if l == u32::MAX || !engaged() {
        return;
    }
    if l > 0 {
        PREEMPT_LEFT.store(l - 1, Ordering::Relaxed);
        return;
    }
    if std::thread::panicking() {
        return;
    }
    sim().preempts += 1;
    reschedule(TState::Runnable);
}

// ------------------------------------------------------- time

pub fn now_wall() -> i64 {
    let s = sim();
    s.wall_off_ns + s.mono_ns as i64
}
pub fn record_panic(msg: String) {
    if in_sim_thread() {
        let me = cur();
        let s = sim();
        ev!("thread {} panics: {}", me, msg);
        s.threads[me].last_panic = Some(msg);
    }
}

/// The process the calling thread belongs to (0: the harness).
pub fn cur_proc() -> usize {
    match cur() {
        usize::MAX => 0,
        t => sim().threads[t].proc,
    }
}
/// The current process has begun (or ended) so many tasks.
pub fn count_tasks(n: i64) {
    let p = cur_proc();
    if active() && p > 0 {
        sim().procs[p].tasks += n;
    }
}
