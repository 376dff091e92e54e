//! Seam: operating-system randomness. std draws the keys of `RandomState` (the hasher of every
//! `HashMap`) with getrandom(2) once per thread; this definition takes its place in the binary
//! and hands out bytes derived from the simulator's tape.
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering};

thread_local! { static SEED: Cell<u64> = const { Cell::new(0x5eed) }; }
pub static CALLS: AtomicU64 = AtomicU64::new(0);

pub fn set_thread_seed(s: u64) { SEED.with(|c| c.set(s)); }

fn fill(buf: *mut u8, len: usize) {
    CALLS.fetch_add(1, Ordering::Relaxed);
    let mut s = SEED.try_with(|c| c.get()).unwrap_or(1);
    let mut r = crate::tape::Rng::new(s);
    for i in 0..len {
        s = r.next();
        unsafe { *buf.add(i) = (s >> 24) as u8 };
    }
    let _ = SEED.try_with(|c| c.set(s));
}

#[no_mangle]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    fill(buf, len);
    len as isize
}

#[no_mangle]
pub extern "C" fn getentropy(buf: *mut u8, len: usize) -> i32 {
    fill(buf, len);
    0
}

// Seam: the clock. While code under test runs, every reading jumps to an arbitrary time, forwards
// or backwards, derived from the thread's seed.
thread_local! { static CLOCK: Cell<bool> = const { Cell::new(false) }; static TIME: Cell<u64> = const { Cell::new(0) }; }
pub static READINGS: AtomicU64 = AtomicU64::new(0);
pub fn clock(simulated: bool) -> bool { CLOCK.with(|c| c.replace(simulated)) }

#[repr(C)]
pub struct Timespec { s: i64, ns: i64 }
extern "C" { fn syscall(n: std::ffi::c_long, ...) -> std::ffi::c_long; }
#[no_mangle]
pub extern "C" fn clock_gettime(id: i32, t: *mut Timespec) -> i32 {
    if CLOCK.try_with(|c| c.get()).unwrap_or(false) {
        READINGS.fetch_add(1, Ordering::Relaxed);
        let n = TIME.with(|c| { c.set(c.get() + 1); c.get() });
        let mut r = crate::tape::Rng::new(SEED.with(|c| c.get()) ^ n << 40);
        unsafe { (*t).s = (r.next() % (1 << 33)) as i64; (*t).ns = (r.next() % 1_000_000_000) as i64 }
        0
    } else { unsafe { syscall(228, id as std::ffi::c_long, t) as i32 } }
}

/// A fingerprint of the hasher keys this thread would get, used to prove the seam works.
pub fn probe() -> u64 {
    use std::hash::{BuildHasher, Hasher};
    let mut h = std::collections::hash_map::RandomState::new().build_hasher();
    h.write_u64(42);
    h.finish()
}
