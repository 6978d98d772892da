//! A plan is everything a run does that is not the scheduler: who connects,
//! what is sent, which faults are armed. Together with a seed (or a recorded
//! trace) it determines the run.
use serde::{Deserialize, Deserializer, Serialize, Serializer};

/// Bytes; text in the replay file when they are UTF-8.
#[derive(Clone, PartialEq, Eq, Hash, Default)]
pub struct Data(pub Vec<u8>);
impl std::fmt::Debug for Data {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{:?}", String::from_utf8_lossy(&self.0))
    }
}
impl From<&str> for Data {
    fn from(s: &str) -> Data {
        Data(s.as_bytes().to_vec())
    }
}
impl From<String> for Data {
    fn from(s: String) -> Data {
        Data(s.into_bytes())
    }
}
impl Serialize for Data {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match std::str::from_utf8(&self.0) {
            Ok(t) => t.serialize(s),
            Err(_) => self.0.serialize(s),
        }
    }
}
impl<'de> Deserialize<'de> for Data {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Data, D::Error> {
        #[derive(Deserialize)]
        #[serde(untagged)]
        enum E {
            T(String),
            B(Vec<u8>),
        }
        Ok(match E::deserialize(d)? {
            E::T(t) => Data(t.into_bytes()),
            E::B(b) => Data(b),
        })
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(tag = "op")]
pub enum Op {
    /// scripted client `c` connects to a session
    Connect { c: usize, session: String },
    Send { c: usize, data: Data },
    /// waits until `c` has as many responses as it sent complete lines
    Sync { c: usize },
    Close { c: usize },
    Reset { c: usize },
    HalfClose { c: usize },
    /// stop reading
    Stall { c: usize },
    Unstall { c: usize },
    /// hold the bytes on the wire (0: client to server, 1: back)
    Freeze { c: usize, dir: usize },
    Thaw { c: usize, dir: usize },

    /// starts the program with these arguments
    Start { slot: usize, args: Vec<String> },
    Kill { slot: usize },
    KillServer { session: String },
    /// the program started last by another program
    KillNew,
    WaitUp { session: String },
    WaitExit { slot: usize },
    Stdin { slot: usize, data: Data },
    StdinEof { slot: usize },
    StdinErr { slot: usize, errno: i32 },
    /// nobody reads standard output for now
    OutStall { slot: usize },
    OutUnstall { slot: usize },
    OutClose { slot: usize },
    /// the terminal of a program gets another size; before the start: its size
    Resize { slot: usize, w: u16, h: u16 },

    /// a library user running a program of calls
    Lib { slot: usize, session: String, calls: Vec<LibCall> },
    /// a user of the C interface; goes through `rounds` of taking all events
    Ffi { slot: usize, session: String, rounds: usize, destroy: bool },
    /// tells the library user to go on past its next `Pause`
    Go { slot: usize },

    /// scripted server
    Listen { session: String },
    /// `n`-th connection made to that scripted server
    SrvSend { session: String, n: usize, data: Data },
    SrvClose { session: String, n: usize, reset: bool },
    SrvWait { session: String, n: usize, lines: usize },
    /// the scripted server stops reading
    SrvStall { session: String, n: usize },
    SrvUnstall { session: String, n: usize },
    Unlisten { session: String },

    WriteFile { path: String, data: Data, age_ms: i64 },
    Remove { path: String },
    Mkdir { path: String },
    /// a pipe nobody writes to
    Fifo { path: String },
    Symlink { path: String, target: String },
    Fault { call: String, path: String, skip: u32, times: u32, errno: i32, short: usize },
    ClearFaults,
    AcceptErr { session: String, errno: i32 },
    BindErr { errno: i32 },
    ConnErr { errno: i32 },
    Clock { ms: i64 },
    Nop,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(tag = "call")]
pub enum LibCall {
    EnsureSession,
    StartDaemon,
    Connect,
    Quit,
    Edit { name: String, scratch: bool },
    Menu { command: String, search: String },
    Select,
    Next,
    Prev,
    Cancel,
    Keys { keys: Vec<String> },
    Exec { source: String },
    State,
    /// wait for a `Go`
    Pause,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Step {
    pub actor: usize,
    #[serde(flatten)]
    pub op: Op,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Phase {
    pub name: String,
    pub steps: Vec<Step>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(default)]
pub struct CfgPlan {
    pub w_cont: u32,
    pub w_thread: u32,
    pub w_net: u32,
    pub w_drv: u32,
    pub chunking: bool,
    pub short_io: bool,
    pub fifo: bool,
    pub burst: u32,
    pub sock_cap: usize,
    pub fs_yield: bool,
    pub preempt: u32,
    pub max_steps: u64,
    pub mtime_gran_ns: i64,
}
impl Default for CfgPlan {
    fn default() -> CfgPlan {
        let c = simrt::Cfg::default();
        CfgPlan {
            w_cont: c.w_cont,
            w_thread: c.w_thread,
            w_net: c.w_net,
            w_drv: c.w_drv,
            chunking: c.chunking,
            short_io: c.short_io,
            fifo: c.fifo,
            burst: c.burst,
            sock_cap: c.sock_cap,
            fs_yield: c.fs_yield,
            preempt: c.preempt,
            max_steps: c.max_steps,
            mtime_gran_ns: c.mtime_gran_ns,
        }
    }
}
impl CfgPlan {
    pub fn to_cfg(&self, verbose: bool) -> simrt::Cfg {
        simrt::Cfg {
            w_cont: self.w_cont,
            w_thread: self.w_thread,
            w_net: self.w_net,
            w_drv: self.w_drv,
            chunking: self.chunking,
            short_io: self.short_io,
            fifo: self.fifo,
            burst: self.burst,
            sock_cap: self.sock_cap,
            fs_yield: self.fs_yield,
            preempt: self.preempt,
            max_steps: self.max_steps,
            verbose,
            mtime_gran_ns: self.mtime_gran_ns,
        }
    }
    /// The calmest schedule, used by the minimiser.
    pub fn calm() -> CfgPlan {
        CfgPlan { chunking: false, fifo: true, burst: 1, fs_yield: false, ..Default::default() }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub check: String,
    pub seed: u64,
    #[serde(default)]
    pub cfg: CfgPlan,
    pub phases: Vec<Phase>,
    /// recorded scheduler choices; absent: drawn from the seed
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub trace: Option<Vec<u16>>,
    /// free parameters of the check
    #[serde(default)]
    pub note: serde_json::Value,
}

impl Plan {
    pub fn ops(&self) -> usize {
        self.phases.iter().map(|p| p.steps.len()).sum()
    }
}

/// Adds steps to the plan under construction.
pub struct PB {
    pub plan: Plan,
}
impl PB {
    pub fn new(check: &str, seed: u64) -> PB {
        PB {
            plan: Plan {
                check: check.into(),
                seed,
                cfg: CfgPlan::default(),
                phases: Vec::new(),
                trace: None,
                note: serde_json::Value::Null,
            },
        }
    }
    pub fn phase(&mut self, name: &str) -> &mut PB {
        self.plan.phases.push(Phase { name: name.into(), steps: Vec::new() });
        self
    }
    pub fn op(&mut self, actor: usize, op: Op) -> &mut PB {
        self.plan.phases.last_mut().unwrap().steps.push(Step { actor, op });
        self
    }
}
