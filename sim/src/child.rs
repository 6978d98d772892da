//! One run: set up the scratch tree, simulate, judge.
use crate::plan::Plan;
use crate::world::World;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Violation {
    pub kind: String,
    pub detail: String,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Outcome {
    pub violation: Option<Violation>,
    pub inconclusive: Option<String>,
    pub harness_error: Option<String>,
    pub end: String,
    pub steps: u64,
    pub sim_ns: u64,
    pub sig: u64,
    pub switches: u64,
    pub preempts: u64,
    pub choices: usize,
    pub nontrivial: bool,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub trace: Vec<u16>,
    pub log: Vec<String>,
}

pub fn prepare_root(root: &str) {
    let _ = std::fs::remove_dir_all(root);
    for d in ["work", "tmp", "home", "bin"] {
        std::fs::create_dir_all(format!("{}/{}", root, d)).expect("scratch directory");
    }
    // old enough not to look freshly changed
    std::fs::write(format!("{}/bin/ced", root), b"stand-in").expect("scratch file");
}

pub fn run(plan: Plan, root: &str, verbose: bool, want_trace: bool) -> Outcome {
    prepare_root(root);
    std::env::set_current_dir(format!("{}/work", root)).expect("scratch work directory");
    std::panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let at = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        if simrt::in_sim_thread() && simrt::engaged() {
            let _k = simrt::kenter();
            simrt::record_panic(format!("{}{}", m, at));
        } else {
            unsafe {
                HARNESS_PANIC = Some(format!("{}{}", m, at));
            }
            crate::orch::harness_panic(&format!("{}{}", m, at));
        }
    }));
    simrt::init(plan.cfg.to_cfg(verbose), plan.seed, plan.trace.clone(), root);
    let w = World::install(plan.clone());
    simrt::run(w as *mut dyn simrt::Driver);
    let w = unsafe { &mut *w };
    let mut o = Outcome::default();
    let s = simrt::sim();
    o.end = s.end.unwrap_or("?").to_string();
    o.steps = s.step;
    o.sim_ns = s.mono_ns - 1_000_000_000;
    o.switches = s.switches;
    o.preempts = s.preempts;
    o.choices = s.tape.record.len();
    crate::orch::judging();
    let v = crate::checks::judge(w);
    match v {
        Ok(nt) => o.nontrivial = nt,
        Err(crate::checks::Fail::Violation(k, d)) => o.violation = Some(Violation { kind: k, detail: d }),
        Err(crate::checks::Fail::Inconclusive(d)) => o.inconclusive = Some(d),
    }
    if !s.fs.escapes.is_empty() {
        simrt::probe("escape");
        simrt::ev!("escapes: {:?}", s.fs.escapes);
    }
    // the signature covers what every party observed
    for c in s.net.conns.iter() {
        for d in c.dirs.iter() {
            for l in d.rlines.iter() {
                simrt::mix_bytes(&l.bytes);
            }
            simrt::mix_bytes(&d.rpart);
        }
    }
    for p in s.procs.iter() {
        simrt::mix_bytes(&p.stdout);
        simrt::mix_bytes(&p.stderr);
    }
    o.sig = s.sig;
    o.faults = s.faults.iter().map(|(k, v)| (k.to_string(), *v)).collect();
    o.probes = s.probes.iter().map(|(k, v)| (k.to_string(), *v)).collect();
    if want_trace || o.violation.is_some() {
        o.trace = s.tape.record.clone();
    }
    if verbose {
        o.log = std::mem::take(&mut s.log);
    }
    o
}
pub static mut HARNESS_PANIC: Option<String> = None;
