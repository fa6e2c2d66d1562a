//! Offline stand-in: the browser console does not exist natively.
pub fn set_once() {}
