//! Deterministic stand-in for getrandom 0.1: a splitmix64 stream per thread, seeded by the harness
//! at the start of every case. It makes blinding factors and `Field::rand` a function of the case.
use std::cell::Cell;
use std::fmt;
use std::num::NonZeroU32;
use std::sync::atomic::{AtomicU64, Ordering};

#[derive(Copy, Clone, Eq, PartialEq)]
pub struct Error(NonZeroU32);
impl Error {
    pub const INTERNAL_START: u32 = 1 << 31;
    pub const CUSTOM_START: u32 = (1 << 31) + (1 << 30);
    pub fn raw_os_error(self) -> Option<i32> {
        None
    }
    pub const fn code(self) -> NonZeroU32 {
        self.0
    }
}
impl fmt::Debug for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Error")
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Error")
    }
}
impl std::error::Error for Error {}
impl From<NonZeroU32> for Error {
    fn from(c: NonZeroU32) -> Self {
        Error(c)
    }
}
impl From<Error> for std::io::Error {
    fn from(e: Error) -> Self {
        std::io::Error::new(std::io::ErrorKind::Other, e)
    }
}

static GLOBAL: AtomicU64 = AtomicU64::new(0x1234_5678_9abc_def1);
thread_local! {
    static STATE: Cell<u64> = Cell::new(GLOBAL.fetch_add(0x9e37_79b9_7f4a_7c15, Ordering::Relaxed));
}

/// Restart this thread's stream.
pub fn set_thread_seed(seed: u64) {
    STATE.with(|s| s.set(seed ^ 0xd6e8_feb8_6659_fd93));
}

fn next() -> u64 {
    STATE.with(|s| {
        let v = s.get().wrapping_add(0x9e37_79b9_7f4a_7c15);
        s.set(v);
        let mut z = v;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    })
}

pub fn getrandom(dest: &mut [u8]) -> Result<(), Error> {
    for chunk in dest.chunks_mut(8) {
        let b = next().to_le_bytes();
        chunk.copy_from_slice(&b[..chunk.len()]);
    }
    Ok(())
}
