//! cedsim: deterministic simulation of ced.
//!   cedsim check <ID> [--tier quick|thorough] [--seconds N] [--runs N]
//!   cedsim replay <file> [-v]
//!   cedsim run <ID> <n> [-v]       one run of the exploration
//!   cedsim determinism [ID...]     every run twice, in separate processes
#![allow(dead_code, static_mut_refs)]
mod cedbin;
mod checks;
mod child;
mod hist;
mod libuser;
mod orch;
mod plan;
mod sys;
mod world;

#[used]
#[link_section = ".init_array"]
static INIT: extern "C" fn(i32, *mut *const libc::c_char, *const *const libc::c_char) = init;
extern "C" fn init(argc: i32, argv: *mut *const libc::c_char, _envp: *const *const libc::c_char) {
    unsafe {
        simrt::ARGV = (argv, argc as usize);
    }
}

const PAD: usize = 24;

/// Same address space layout in every process, and spare argv slots for the
/// simulated processes.
fn reexec() {
    if std::env::var_os("CEDSIM_EXEC").is_some() {
        return;
    }
    use std::os::unix::ffi::OsStrExt;
    unsafe {
        libc::personality(0x0040000);
    }
    let exe = std::ffi::CString::new(std::env::current_exe().unwrap().as_os_str().as_bytes()).unwrap();
    let mut args: Vec<std::ffi::CString> =
        std::env::args_os().map(|a| std::ffi::CString::new(a.as_bytes()).unwrap()).collect();
    for _ in 0..PAD {
        args.push(std::ffi::CString::new("-").unwrap());
    }
    // a fixed environment: its size moves the stack
    let mut env: Vec<std::ffi::CString> = Vec::new();
    for (k, v) in [
        ("CEDSIM_EXEC", "1"),
        ("TMPDIR", "/sim/tmp"),
        ("USER", "sim"),
        ("HOME", "/sim/home"),
        ("CED_BIN", "/sim/bin/ced"),
        ("PATH", "/usr/bin:/bin"),
    ] {
        env.push(std::ffi::CString::new(format!("{}={}", k, v)).unwrap());
    }
    let seed = std::env::var("VERIF_SEED").unwrap_or_else(|_| "1".into());
    env.push(std::ffi::CString::new(format!("VERIF_SEED={:>20}", seed)).unwrap());
    let mut a: Vec<*const libc::c_char> = args.iter().map(|x| x.as_ptr()).collect();
    a.push(std::ptr::null());
    let mut e: Vec<*const libc::c_char> = env.iter().map(|x| x.as_ptr()).collect();
    e.push(std::ptr::null());
    unsafe {
        libc::execve(exe.as_ptr(), a.as_ptr(), e.as_ptr());
    }
    panic!("execve: {}", std::io::Error::last_os_error());
}

fn main() {
    reexec();
    let mut args: Vec<String> = std::env::args().skip(1).collect();
    let n = args.len().saturating_sub(PAD);
    args.truncate(n);
    std::process::exit(orch::main(args));
}
