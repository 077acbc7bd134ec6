//! Deterministic stand-in for `getrandom` 0.2: constant bytes. Used only in the simulator's build.
use core::fmt;

#[derive(Copy, Clone, Debug, Eq, PartialEq)]
pub struct Error;
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("getrandom stand-in")
    }
}
impl std::error::Error for Error {}

pub fn getrandom(dest: &mut [u8]) -> Result<(), Error> {
    let mut s: u64 = 0x9e37_79b9_7f4a_7c15;
    for b in dest {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        *b = (s >> 24) as u8;
    }
    Ok(())
}
