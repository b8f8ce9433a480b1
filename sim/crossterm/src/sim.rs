//! Seams of the deterministic simulator (not part of the original crate).
//!
//! The functions of crossterm which talk to the real terminal are routed to
//! functions that the simulation binary defines.  Everything else in this copy
//! of crossterm is the unmodified published source.
use crate::event::Event;
use std::{io, time::Duration};

extern "Rust" {
    fn __termsim_read() -> io::Result<Event>;
    fn __termsim_poll(timeout: Duration) -> io::Result<bool>;
    fn __termsim_enable_raw_mode() -> io::Result<()>;
    fn __termsim_disable_raw_mode() -> io::Result<()>;
    fn __termsim_is_raw_mode_enabled() -> io::Result<bool>;
    fn __termsim_size() -> io::Result<(u16, u16)>;
    fn __termsim_supports_keyboard_enhancement() -> io::Result<bool>;
}

pub(crate) fn read() -> io::Result<Event> {
    unsafe { __termsim_read() }
}
pub(crate) fn poll(timeout: Duration) -> io::Result<bool> {
    unsafe { __termsim_poll(timeout) }
}
pub(crate) fn enable_raw_mode() -> io::Result<()> {
    unsafe { __termsim_enable_raw_mode() }
}
pub(crate) fn disable_raw_mode() -> io::Result<()> {
    unsafe { __termsim_disable_raw_mode() }
}
pub(crate) fn is_raw_mode_enabled() -> io::Result<bool> {
    unsafe { __termsim_is_raw_mode_enabled() }
}
pub(crate) fn size() -> io::Result<(u16, u16)> {
    unsafe { __termsim_size() }
}
/// Queries the terminal's support for progressive keyboard enhancement.
pub fn supports_keyboard_enhancement() -> io::Result<bool> {
    unsafe { __termsim_supports_keyboard_enhancement() }
}
