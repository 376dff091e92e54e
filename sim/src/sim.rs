//! The simulation context of one run, and the counters that describe what the runs reached.
use crate::alloc;
use crate::dec;
use crate::model;
use crate::proj;
use crate::stream::*;
use crate::tape::{Digest, Tape};
use coffer::clazz::Class;
use coffer::{Error, ReadWrite};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

pub static STEPS: AtomicU64 = AtomicU64::new(0);
pub static OPS: AtomicU64 = AtomicU64::new(0);
static COUNTS: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());

fn quiet<R>(f: impl FnOnce() -> R) -> R {
    let y = alloc::YIELD.try_with(|y| y.replace(false)).unwrap_or(false);
    let r = f();
    let _ = alloc::YIELD.try_with(|c| c.set(y));
    r
}
pub fn step() { STEPS.fetch_add(1, Ordering::Relaxed); }
/// Counts an injected fault or a reached condition.
pub fn bump(what: &str, n: u64) {
    if n == 0 { return }
    quiet(|| {
        let mut c = COUNTS.lock().unwrap();
        match c.get_mut(what) { Some(v) => *v += n, None => { c.insert(what.to_string(), n); } }
    })
}
pub fn counts() -> BTreeMap<String, u64> { COUNTS.lock().unwrap().clone() }

#[derive(Debug, Clone)]
pub struct Viol { pub kind: String, pub msg: String }
pub type Check = Result<(), Viol>;
pub fn viol<T>(kind: &str, msg: impl Into<String>) -> Result<T, Viol> { Err(Viol { kind: kind.into(), msg: msg.into() }) }

thread_local! {
    static GUARD: Cell<bool> = const { Cell::new(false) };
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| quiet(|| {
        let msg = info.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if GUARD.with(|g| g.get()) { PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {at}")) }
        else { eprintln!("HARNESS PANIC: {msg} at {at}") }
    })));
}
/// Runs code under test; a panic in it is a finding, a panic anywhere else a harness error.
pub fn guard<R>(what: &str, f: impl FnOnce() -> R) -> Result<R, Viol> {
    let old = GUARD.with(|g| g.replace(true));
    OPS.fetch_add(1, Ordering::Relaxed);
    let clock = crate::entropy::clock(true);
    let r = catch_unwind(AssertUnwindSafe(f));
    crate::entropy::clock(clock);
    GUARD.with(|g| g.set(old));
    match r {
        Ok(v) => Ok(v),
        Err(_) => { let m = PANIC.with(|p| p.borrow().clone()); viol("panic", format!("{what} panicked: {m}")) }
    }
}

pub struct Load { pub res: Result<Class, Error>, pub used: usize, pub calls: u64, pub failed: Option<usize>, pub after: u64, pub log: u64 }
pub struct Save { pub res: Result<(), Error>, pub out: Vec<u8>, pub calls: u64, pub failed: Option<usize>, pub after: u64, pub log: u64 }

/// For looking into a replay: every file of the run, in order, into the folder SIM_DUMP.
fn dump(what: &str, b: &[u8]) {
    static DIR: std::sync::OnceLock<Option<String>> = std::sync::OnceLock::new();
    static N: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
    if let Some(d) = DIR.get_or_init(|| std::env::var("SIM_DUMP").ok()) {
        let _ = std::fs::write(format!("{d}/{:03}-{what}.class", N.fetch_add(1, std::sync::atomic::Ordering::Relaxed)), b);
    }
}
/// A panic that the stream raised is the operation's end, like any other failure of the stream.
pub fn unwound<T>(r: Result<Result<T, Error>, Viol>, p: Plan, failed: Option<usize>) -> Result<Result<T, Error>, Viol> {
    match (r, p.fail) {
        (Err(v), Some((_, Fault::Panic))) if failed.is_some() && v.msg.contains(MARK) => Ok(Err(Error::IO(std::io::Error::new(std::io::ErrorKind::Other, MARK)))),
        (r, _) => r,
    }
}
pub fn load(bytes: &[u8], plan: Plan) -> Result<Load, Viol> {
    dump("load", bytes);
    let mut r = Reader::new(bytes, plan);
    let res = unwound(guard("loading", || Class::read_from(&mut r)), plan, r.failed)?;
    Ok(Load { res, used: r.pos, calls: r.calls, failed: r.failed, after: r.after, log: r.log.0 })
}
pub fn save(c: &Class, plan: Plan) -> Result<Save, Viol> {
    let mut w = Writer::new(plan);
    let res = unwound(guard("saving", || c.write_to(&mut w)), plan, w.failed)?;
    dump("save", &w.out);
    Ok(Save { res, out: std::mem::take(&mut w.out), calls: w.calls, failed: w.failed, after: w.after, log: w.log.0 })
}

/// The kind of an error, without its wording.
pub fn err_kind(e: &Error) -> String {
    match e { Error::IO(e) => format!("IO:{:?}", e.kind()), o => { let s = format!("{o:?}"); s.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("?").to_string() } }
}
/// Whether the error is the very failure the simulated stream raised.
pub fn carries(e: &Error, f: Fault, write: bool) -> bool {
    match (e, f) {
        (Error::IO(e), Fault::Error(k)) => e.kind() == k && e.to_string().contains(MARK),
        (Error::IO(e), Fault::Os(k)) => e.raw_os_error() == Some(k),
        (Error::IO(e), Fault::Panic) => e.to_string().contains(MARK),
        (Error::IO(e), Fault::End) => e.kind() == if write { std::io::ErrorKind::WriteZero } else { std::io::ErrorKind::UnexpectedEof },
        _ => false,
    }
}

/// What a class says, or why that cannot be told; equal for equal classes.
pub fn view(c: &Class) -> Result<Result<model::Class, String>, Viol> { guard("examining the class", || proj::class(c)) }
pub fn view_canon(c: &Class) -> Result<Result<model::Class, String>, Viol> { Ok(view(c)?.map(model::canon)) }

/// The outcome of a load in comparable form.
pub fn outcome(l: &Load) -> Result<Result<Result<model::Class, String>, String>, Viol> {
    Ok(match &l.res { Ok(c) => Ok(view_canon(c)?), Err(e) => Err(err_kind(e)) })
}

/// What a well-formed file says (canonical); the generator's own files must all be well formed.
pub fn meaning(bytes: &[u8]) -> model::Class {
    match dec::class(bytes) { Ok((c, n)) if n == bytes.len() => model::canon(c), Ok((_, n)) => panic!("reference decoder took {n} of {}", bytes.len()), Err(e) => panic!("reference decoder refuses the generated file: {e}") }
}

pub struct Sim {
    pub t: Tape,
    pub trace: Vec<String>,
    /// fingerprint of everything that happened
    pub sig: Digest,
    pub nontrivial: bool,
}
impl Sim {
    pub fn new(t: Tape) -> Self { Sim { t, trace: vec![], sig: Digest::new(), nontrivial: false } }
    pub fn note(&mut self, s: impl Into<String>) {
        let s = s.into();
        self.sig.bytes(s.as_bytes());
        if self.trace.len() < 400 { self.trace.push(s) }
    }
    pub fn saw(&mut self, log: u64) { self.sig.u(log) }
}

/// Runs `f` on a fresh thread whose hash keys derive from `seed`.
pub fn on_thread<R: Send + 'static>(seed: u64, f: impl FnOnce() -> R + Send + 'static) -> R {
    std::thread::Builder::new().stack_size(2 << 20).spawn(move || { crate::entropy::set_thread_seed(seed); f() }).unwrap().join().expect("harness thread")
}
