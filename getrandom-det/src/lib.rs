//! Stand-in for the `getrandom` crate used only by the verification harness: "system entropy" is a
//! deterministic stream, so that every random decision of the code under test is replayable.
use std::sync::atomic::{AtomicU64, Ordering};

static SEED: AtomicU64 = AtomicU64::new(0x9E3779B97F4A7C15);
static CTR: AtomicU64 = AtomicU64::new(0);

/// restart the entropy stream
pub fn verif_reseed(seed: u64) {
    SEED.store(seed, Ordering::SeqCst);
    CTR.store(0, Ordering::SeqCst);
}

fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Error(core::num::NonZeroU32);
impl Error {
    pub const INTERNAL_START: u32 = 1 << 31;
    pub const CUSTOM_START: u32 = (1 << 31) + (1 << 30);
    pub fn raw_os_error(self) -> Option<i32> { None }
    pub const fn code(self) -> core::num::NonZeroU32 { self.0 }
}
impl core::fmt::Display for Error {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { write!(f, "getrandom error") }
}
impl From<core::num::NonZeroU32> for Error { fn from(c: core::num::NonZeroU32) -> Self { Error(c) } }
impl std::error::Error for Error {}
impl From<Error> for std::io::Error {
    fn from(e: Error) -> Self { std::io::Error::new(std::io::ErrorKind::Other, e) }
}

pub fn getrandom(dest: &mut [u8]) -> Result<(), Error> {
    let c = CTR.fetch_add(1, Ordering::SeqCst);
    let mut s = mix(SEED.load(Ordering::SeqCst) ^ mix(c.wrapping_mul(0xD1342543DE82EF95).wrapping_add(1)));
    for b in dest.iter_mut() {
        s = s.wrapping_add(0x9E3779B97F4A7C15);
        *b = (mix(s) >> 24) as u8;
    }
    Ok(())
}
