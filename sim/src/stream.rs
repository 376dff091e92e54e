//! Seam: the streams. Every byte that coffer reads or writes passes through these, and the
//! simulator decides how much each call moves, which calls are interrupted and where the
//! stream fails.
use crate::sched;
use crate::sim::bump;
use crate::tape::{Digest, Rng, Tape};
use std::io::{self, ErrorKind, Read, Write};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fault {
    /// the call fails with this kind
    Error(ErrorKind),
    /// the call fails with this error of the operating system
    Os(i32),
    /// read: end of data; write: accepts nothing (Ok(0))
    End,
    /// the call panics, as when the thread that owns the stream is cancelled by unwinding
    Panic,
}
pub const KINDS: &[ErrorKind] = &[
    ErrorKind::Other, ErrorKind::TimedOut, ErrorKind::ConnectionReset, ErrorKind::PermissionDenied, ErrorKind::WouldBlock,
    ErrorKind::BrokenPipe, ErrorKind::InvalidData, ErrorKind::UnexpectedEof, ErrorKind::WriteZero, ErrorKind::InvalidInput, ErrorKind::NotConnected, ErrorKind::OutOfMemory, ErrorKind::Unsupported,
    ErrorKind::StorageFull, ErrorKind::QuotaExceeded, ErrorKind::FileTooLarge, ErrorKind::ReadOnlyFilesystem, ErrorKind::ResourceBusy, ErrorKind::NotFound, ErrorKind::AlreadyExists, ErrorKind::ConnectionAborted, ErrorKind::NetworkDown, ErrorKind::StaleNetworkFileHandle, ErrorKind::Deadlock,
];
/// EIO, EAGAIN, ENOSPC, EPIPE, ECONNRESET, ETIMEDOUT, EDQUOT, EBADF
const OS: &[i32] = &[5, 11, 28, 32, 104, 110, 122, 9];
fn raise(f: Fault) -> io::Result<usize> {
    match f { Fault::Panic => std::panic::panic_any(MARK), Fault::End => Ok(0), Fault::Error(k) => Err(io::Error::new(k, MARK)), Fault::Os(e) => Err(io::Error::from_raw_os_error(e)) }
}
/// An interruption, in one of the forms it takes.
fn interruption(n: u64) -> io::Error {
    match n % 4 { 0 => io::Error::from_raw_os_error(4), 1 => io::Error::new(ErrorKind::Interrupted, "simulated interruption"), _ => io::Error::from(ErrorKind::Interrupted) }
}
/// Identifies an injected error, so that it can be told from any other of the same kind.
pub const MARK: &str = "simulated stream failure";

/// How a stream behaves.
#[derive(Clone, Copy, Debug)]
pub struct Plan {
    /// 0: as asked; 1: one byte a call; 2: random small pieces; 3: random pieces; 4: pieces cut at a fixed size
    pub style: u8,
    pub piece: usize,
    /// per mille of interrupted calls
    pub interrupt: u64,
    /// how many of them in a row at most
    pub row: u32,
    pub fail: Option<(usize, Fault)>,
    pub seed: u64,
}
pub const WHOLE: Plan = Plan { style: 0, piece: 1, interrupt: 0, row: 0, fail: None, seed: 0 };
impl Plan {
    pub fn draw(t: &mut Tape) -> Plan {
        let style = t.n(5) as u8;
        let piece = *t.pick(&[1, 2, 3, 4, 5, 7, 16, 64, 512, 4096]);
        let interrupt = *t.pick(&[0, 0, 0, 20, 200, 600, 980]);
        let row = if interrupt == 980 { *t.pick(&[20, 70, 300]) } else { 6 };
        Plan { style, piece, interrupt, row, fail: None, seed: t.raw() }
    }
    pub fn fail(mut self, at: usize, f: Fault) -> Plan { self.fail = Some((at, f)); self }
    pub fn is_whole(&self) -> bool { self.style == 0 && self.interrupt == 0 }
}
/// ... or a panic of the stream.
pub fn draw_end(t: &mut Tape) -> Fault { if t.chance(1, 5) { Fault::Panic } else { draw_fault(t) } }
pub fn draw_fault(t: &mut Tape) -> Fault { if t.chance(1, 3) { Fault::End } else if t.chance(1, 4) { Fault::Os(*t.pick(OS)) } else { Fault::Error(*t.pick(KINDS)) } }
pub fn fault_name(f: Fault, write: bool) -> String {
    match f { Fault::Panic => if write { "write-panic" } else { "read-panic" }.into(), Fault::End if write => "write-zero".into(), Fault::End => "early-eof".into(), Fault::Error(k) => format!("{}-error-{k:?}", if write { "write" } else { "read" }), Fault::Os(e) => format!("{}-error-os-{e}", if write { "write" } else { "read" }) }
}

thread_local!(static NEST: std::cell::RefCell<Vec<(u64, Box<dyn FnOnce()>)>> = const { std::cell::RefCell::new(vec![]) });
/// Runs `f` inside the stream call number `calls` that this thread makes from now on: a stream
/// that uses the library itself while it serves an operation.
pub fn nest(calls: u64, f: Box<dyn FnOnce()>) { NEST.with(|n| n.borrow_mut().push((calls, f))) }
/// Forgets what has not run.
pub fn unnest() { NEST.with(|n| n.borrow_mut().clear()) }
fn poke() {
    let f = NEST.with(|n| {
        let mut n = n.borrow_mut();
        match n.last_mut() { Some((0, _)) => n.pop(), Some((c, _)) => { *c -= 1; None } None => None }
    });
    if let Some((_, f)) = f { bump("operation-inside-a-stream-call", 1); f() }
}

fn take(p: &Plan, rng: &mut Rng, want: usize) -> usize {
    if want == 0 { return 0 }
    match p.style {
        0 => want,
        1 => 1,
        2 => 1 + (rng.next() % 9) as usize,
        3 => 1 + (rng.next() % (want as u64 * 2)) as usize,
        _ => p.piece,
    }.min(want)
}

pub struct Reader<'a> {
    pub data: &'a [u8], pub pos: usize, pub plan: Plan,
    rng: Rng, pub calls: u64, pub failed: Option<usize>, pub after: u64, pub short: u64, pub interrupted: u64, streak: u32,
    pub log: Digest,
}
impl<'a> Reader<'a> {
    pub fn new(data: &'a [u8], plan: Plan) -> Self {
        Reader { data, pos: 0, plan, rng: Rng::new(plan.seed), calls: 0, failed: None, after: 0, short: 0, interrupted: 0, streak: 0, log: Digest::new() }
    }
    /// Same stream, next operation: as a caller that hands the stream on.
    pub fn reset_counts(&mut self) { self.calls = 0; self.after = 0; self.failed = None; }
}
impl Drop for Reader<'_> {
    fn drop(&mut self) { bump("short-read", self.short); bump("interrupted-read", self.interrupted); }
}
impl Read for Reader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        sched::point();
        poke();
        self.calls += 1;
        crate::sim::step();
        if self.failed.is_some() { self.after += 1 }
        if buf.is_empty() { return Ok(0) }
        // an interrupted call moves nothing; bounded so that progress is always possible
        if self.failed.is_none() && self.streak < self.plan.row && self.interrupted < 4000 && self.plan.interrupt > 0 && self.rng.next() % 1000 < self.plan.interrupt {
            self.streak += 1; self.interrupted += 1; self.log.u(1);
            return Err(interruption(self.interrupted));
        }
        self.streak = 0;
        let mut n = take(&self.plan, &mut self.rng, buf.len());
        let end = self.data.len();
        if let Some((at, f)) = self.plan.fail {
            if self.pos >= at {
                if self.failed.is_none() { self.failed = Some(self.pos); bump(&fault_name(f, false), 1) }
                self.log.u(2);
                return raise(f);
            }
            n = n.min(at - self.pos);
        }
        n = n.min(end - self.pos);
        if n == 0 { self.failed.get_or_insert(self.pos); self.log.u(3); return Ok(0) }
        if n < buf.len() { self.short += 1 }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        // what is behind that is the stream's to use
        if self.plan.seed & 3 == 1 { for b in buf[n..].iter_mut().take(64) { *b ^= 0x5A } }
        self.pos += n;
        self.log.u((n as u64) << 8 | 4);
        Ok(n)
    }
    /// Scatters what one read delivers, so that it may end anywhere in any of the buffers.
    fn read_vectored(&mut self, bufs: &mut [io::IoSliceMut<'_>]) -> io::Result<usize> {
        let mut all = vec![0; bufs.iter().map(|b| b.len()).sum()];
        let n = self.read(&mut all)?;
        let mut rest = &all[..n];
        for b in bufs { let k = b.len().min(rest.len()); b[..k].copy_from_slice(&rest[..k]); rest = &rest[k..] }
        Ok(n)
    }
}

pub struct Writer {
    pub out: Vec<u8>, pub plan: Plan, rng: Rng,
    pub calls: u64, pub failed: Option<usize>, pub after: u64, pub short: u64, pub interrupted: u64, streak: u32, pub log: Digest,
    pub flushes: u64,
}
impl Writer {
    pub fn new(plan: Plan) -> Self {
        Writer { out: vec![], plan, rng: Rng::new(plan.seed), calls: 0, failed: None, after: 0, short: 0, interrupted: 0, streak: 0, log: Digest::new(), flushes: 0 }
    }
}
impl Drop for Writer {
    fn drop(&mut self) { bump("short-write", self.short); bump("interrupted-write", self.interrupted); }
}
impl Write for Writer {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        sched::point();
        poke();
        self.calls += 1;
        crate::sim::step();
        if self.failed.is_some() { self.after += 1 }
        if buf.is_empty() { return Ok(0) }
        if self.failed.is_none() && self.streak < self.plan.row && self.interrupted < 4000 && self.plan.interrupt > 0 && self.rng.next() % 1000 < self.plan.interrupt {
            self.streak += 1; self.interrupted += 1; self.log.u(1);
            return Err(interruption(self.interrupted));
        }
        self.streak = 0;
        let mut n = take(&self.plan, &mut self.rng, buf.len());
        if let Some((at, f)) = self.plan.fail {
            if self.out.len() >= at {
                if self.failed.is_none() { self.failed = Some(self.out.len()); bump(&fault_name(f, true), 1) }
                self.log.u(2);
                return raise(f);
            }
            n = n.min(at - self.out.len());
        }
        if n < buf.len() { self.short += 1 }
        self.out.extend_from_slice(&buf[..n]);
        self.log.u((n as u64) << 8 | 4);
        Ok(n)
    }
    /// Accepts a part of the buffers together, which may end anywhere in any of them.
    fn write_vectored(&mut self, bufs: &[io::IoSlice<'_>]) -> io::Result<usize> {
        let all: Vec<u8> = bufs.iter().flat_map(|b| b.iter().copied()).collect();
        self.write(&all)
    }
    fn flush(&mut self) -> io::Result<()> {
        sched::point();
        self.flushes += 1;
        if self.failed.is_some() { if let Some((_, f @ (Fault::Error(_) | Fault::Os(_)))) = self.plan.fail { return raise(f).map(|_| ()) } }
        Ok(())
    }
}
