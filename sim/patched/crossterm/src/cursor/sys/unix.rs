//! UNIX related logic to cursor manipulation.
use crate::Result;

/// Not available in the simulated terminal.
pub fn position() -> Result<(u16, u16)> {
    Err(std::io::Error::new(std::io::ErrorKind::Other, "no cursor position"))
}
