#[cfg(windows)]
pub(crate) mod windows;
