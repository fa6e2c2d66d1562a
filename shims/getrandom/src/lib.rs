//! The entropy seam of the simulator: a drop-in replacement for getrandom 0.2
//! whose every byte is decided by the simulator.  No byte of it ever comes
//! from the operating system; with no provider installed it fails.
use std::cell::RefCell;
use std::fmt;
use std::num::NonZeroU32;

#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Error(NonZeroU32);

impl Error {
    pub const UNSUPPORTED: Error = Error(match NonZeroU32::new(1 << 31) { Some(v) => v, None => panic!() });
    pub const INTERNAL_START: u32 = 1 << 31;
    pub const CUSTOM_START: u32 = (1 << 31) + (1 << 30);
    pub const fn code(self) -> NonZeroU32 {
        self.0
    }
    pub fn raw_os_error(self) -> Option<i32> {
        None
    }
}

impl fmt::Debug for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "getrandom::Error({:#x})", self.0)
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "simulated entropy source error {:#x}", self.0)
    }
}
impl std::error::Error for Error {}
impl From<NonZeroU32> for Error {
    fn from(code: NonZeroU32) -> Self {
        Self(code)
    }
}

/// The simulator's entropy source: fills the buffer or fails.
pub type Provider = Box<dyn FnMut(&mut [u8]) -> Result<(), ()>>;

thread_local! {
    static PROVIDER: RefCell<Option<Provider>> = const { RefCell::new(None) };
}

/// Installs (or removes) the entropy source of the current simulated run.
pub fn set_provider(p: Option<Provider>) {
    PROVIDER.with(|c| *c.borrow_mut() = p);
}

pub fn getrandom(dest: &mut [u8]) -> Result<(), Error> {
    if dest.is_empty() {
        return Ok(());
    }
    PROVIDER.with(|c| match c.borrow_mut().as_mut() {
        Some(p) => p(dest).map_err(|_| Error::UNSUPPORTED),
        None => Err(Error::UNSUPPORTED),
    })
}
