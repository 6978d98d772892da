//! Raw system calls (libc's wrappers are interposed by the harness binary).
use std::arch::asm;

#[inline]
pub unsafe fn syscall6(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
pub fn futex_wait(p: *mut u32, v: u32) {
    unsafe {
        syscall6(202, p as usize, 128, v as usize, 0, 0, 0);
    }
}
pub fn futex_wake(p: *mut u32, n: u32) {
    unsafe {
        syscall6(202, p as usize, 129, n as usize, 0, 0, 0);
    }
}
pub fn write(fd: i32, b: &[u8]) -> isize {
    unsafe { syscall6(1, fd as usize, b.as_ptr() as usize, b.len(), 0, 0, 0) }
}
pub fn read(fd: i32, b: &mut [u8]) -> isize {
    unsafe { syscall6(0, fd as usize, b.as_mut_ptr() as usize, b.len(), 0, 0, 0) }
}
pub fn close(fd: i32) {
    unsafe {
        syscall6(3, fd as usize, 0, 0, 0, 0, 0);
    }
}
pub fn flock(fd: i32, op: i32) -> isize {
    unsafe { syscall6(73, fd as usize, op as usize, 0, 0, 0, 0) }
}
pub fn dup(fd: i32) -> i32 {
    unsafe { syscall6(32, fd as usize, 0, 0, 0, 0, 0) as i32 }
}
/// readable or hung up right now
pub fn poll_in(fd: i32) -> bool {
    let mut p = libc::pollfd { fd, events: libc::POLLIN, revents: 0 };
    unsafe { syscall6(7, &mut p as *mut _ as usize, 1, 0, 0, 0, 0) > 0 }
}
pub fn is_fifo(fd: i32) -> bool {
    unsafe {
        let mut st: libc::stat = std::mem::zeroed();
        syscall6(5, fd as usize, &mut st as *mut _ as usize, 0, 0, 0, 0) == 0
            && (st.st_mode & libc::S_IFMT) == libc::S_IFIFO
    }
}
