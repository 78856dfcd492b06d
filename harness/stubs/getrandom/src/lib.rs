//! Operating system randomness for everything linked into the harness.  While a party of a simulated
//! session runs, its randomness is a stream that the session's scenario determines, so that sessions
//! can be repeated exactly or with the randomness of one party changed; otherwise it is /dev/urandom.
use std::{cell::Cell, fmt, fs::File, io::Read, num::NonZeroU32};

/// A stream: its state, the number of calls so far, and the call that gets different bytes.
#[derive(Clone, Copy)]
pub struct Source {
    pub s: u64,
    pub n: u64,
    pub flip: Option<u64>,
}

thread_local! { static STREAM: Cell<Option<Source>> = const { Cell::new(None) }; }

/// Makes this stream the source of the current thread; returns the one before.
pub fn swap(s: Option<Source>) -> Option<Source> {
    STREAM.with(|c| c.replace(s))
}

fn next(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9e3779b97f4a7c15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

/// The stream with this name.
pub fn stream(name: u64, flip: Option<u64>) -> Source {
    let mut s = name ^ 0x5ec2e7;
    next(&mut s);
    Source { s: next(&mut s), n: 0, flip }
}

pub fn getrandom(dest: &mut [u8]) -> Result<(), Error> {
    if let Some(mut c) = STREAM.with(|c| c.get()) {
        for part in dest.chunks_mut(8) {
            let mut w = next(&mut c.s);
            if c.flip == Some(c.n) {
                w = next(&mut w);
            }
            let n = part.len();
            part.copy_from_slice(&w.to_le_bytes()[..n]);
        }
        c.n += 1;
        STREAM.with(|x| x.set(Some(c)));
        return Ok(());
    }
    File::open("/dev/urandom").and_then(|mut f| f.read_exact(dest)).map_err(|_| Error::UNSUPPORTED)
}

#[derive(Copy, Clone, Eq, PartialEq)]
pub struct Error(NonZeroU32);
impl Error {
    pub const INTERNAL_START: u32 = 1 << 31;
    pub const CUSTOM_START: u32 = (1 << 31) + (1 << 30);
    pub const UNSUPPORTED: Error = Error(NonZeroU32::new(1 << 31).unwrap());
    pub fn raw_os_error(self) -> Option<i32> {
        None
    }
    pub const fn code(self) -> NonZeroU32 {
        self.0
    }
}
impl fmt::Debug for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "no randomness")
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "no randomness")
    }
}
impl From<NonZeroU32> for Error {
    fn from(c: NonZeroU32) -> Self {
        Error(c)
    }
}
impl std::error::Error for Error {}
impl From<Error> for std::io::Error {
    fn from(e: Error) -> Self {
        std::io::Error::new(std::io::ErrorKind::Other, e)
    }
}
