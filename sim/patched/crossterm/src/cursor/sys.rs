//! This module provides platform related functions.

pub use self::unix::position;
pub(crate) mod unix;
