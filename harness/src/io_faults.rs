//! Writers that misbehave in every way std::io::Write permits
use crate::rng::Rng;
use std::io::{self, Write};

/// Fails at the nth operation (write or flush), accepting at most `max` bytes per write
pub struct FailAt {
    pub got: Vec<u8>, pub ops: u64, pub fail_at: u64, pub mode: Mode, pub failed: bool, pub writes_after: u64, pub flushes: u64,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode { Err(io::ErrorKind), Zero, ShortThenErr }
impl FailAt {
    pub fn new(fail_at: u64, mode: Mode) -> Self { FailAt { got: vec![], ops: 0, fail_at, mode, failed: false, writes_after: 0, flushes: 0 } }
}
impl Write for FailAt {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() { return Ok(0) }
        if self.failed { self.writes_after += 1; return Err(io::Error::new(io::ErrorKind::Other, "still broken")) }
        self.ops += 1;
        if self.ops > self.fail_at {
            match self.mode {
                Mode::Err(k) => { self.failed = true; return Err(io::Error::new(k, "injected")) }
                Mode::Zero => { self.failed = true; return Ok(0) }
                Mode::ShortThenErr => {
                    if b.len() > 1 && self.ops == self.fail_at + 1 { let n = b.len() / 2; self.got.extend_from_slice(&b[..n]); return Ok(n) }
                    self.failed = true;
                    return Err(io::Error::new(io::ErrorKind::WriteZero, "injected"))
                }
            }
        }
        self.got.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        self.flushes += 1;
        if self.failed { return Err(io::Error::new(io::ErrorKind::Other, "still broken")) }
        Ok(())
    }
}

/// Fails once `limit` bytes have been accepted (a full disk), accepting a part of the last write
pub struct Full { pub got: Vec<u8>, pub limit: usize, pub failed: bool }
impl Write for Full {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() { return Ok(0) }
        let room = self.limit - self.got.len();
        if room == 0 { self.failed = true; return Err(io::Error::new(io::ErrorKind::Other, "no space left")) }
        let n = room.min(b.len());
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

/// Accepts fewer bytes than offered and reports interruptions, but never fails
pub struct Picky { pub got: Vec<u8>, pub rng: Rng, pub interrupts: u64, pub shorts: u64 }
impl Write for Picky {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() { return Ok(0) }
        if self.rng.chance(1, 4) { self.interrupts += 1; return Err(io::Error::new(io::ErrorKind::Interrupted, "again")) }
        let n = 1 + self.rng.us(b.len());
        if n < b.len() { self.shorts += 1 }
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
/// Fails only when flushed: a buffering output that discovers the failure late
pub struct FailFlush { pub got: Vec<u8>, pub flushed: u64 }
impl Write for FailFlush {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.got.extend_from_slice(b); Ok(b.len()) }
    fn flush(&mut self) -> io::Result<()> { self.flushed += 1; Err(io::Error::new(io::ErrorKind::Other, "flush failed")) }
}

/// Fails exactly once, at the nth write, and works again afterwards: an error that is dropped
/// on the way shows as a success
pub struct Once { pub got: Vec<u8>, pub ops: u64, pub fail_at: u64, pub kind: io::ErrorKind, pub at_failure: Option<usize> }
impl Once { pub fn new(fail_at: u64, kind: io::ErrorKind) -> Self { Once { got: vec![], ops: 0, fail_at, kind, at_failure: None } } }
impl Write for Once {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() { return Ok(0) }
        self.ops += 1;
        if self.ops == self.fail_at + 1 { self.at_failure = Some(self.got.len()); return Err(io::Error::new(self.kind, "injected once")) }
        self.got.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
