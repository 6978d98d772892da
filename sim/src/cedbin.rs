//! The real command line program; its log set-up (once per OS process) is left
//! out because several virtual processes run here.
#![allow(dead_code, unused_imports)]
mod env_logger {
    pub fn init() {}
    pub fn try_init() -> Result<(), ()> {
        Ok(())
    }
}
include!("/repo/core/src/bin/ced.rs");

pub trait Code {
    fn code(self) -> i32;
}
impl Code for () {
    fn code(self) -> i32 {
        0
    }
}
impl<E: std::fmt::Debug> Code for Result<(), E> {
    fn code(self) -> i32 {
        match self {
            Ok(()) => 0,
            Err(e) => {
                eprintln!("Error: {:?}", e);
                1
            }
        }
    }
}
pub fn entry() -> Box<dyn FnOnce() -> i32 + Send> {
    Box::new(|| main().code())
}
