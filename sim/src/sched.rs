//! Seam: threads. Simulated threads are real threads of which exactly one runs at a time; the
//! seeded scheduler picks the next one at every stream call (and, if asked, at allocations).
use crate::tape::{Digest, Rng};
use std::cell::RefCell;
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St { Ready, Running, Blocked, Done }

struct State { st: Vec<St>, tid: Vec<i32>, cur: usize, rng: Rng, switches: u64, log: Digest, trace: Vec<u8>, stuck: Option<usize>, started: usize }
pub struct Sched { m: Mutex<State>, cv: Condvar, alloc_rate: u64, switch_rate: u64 }

thread_local! { static ME: RefCell<Option<(Arc<Sched>, usize, Rng)>> = const { RefCell::new(None) }; }

pub struct Outcome<T> { pub results: Vec<Option<T>>, pub switches: u64, pub log: u64, pub trace: Vec<u8>, pub stuck: Option<usize> }

extern "C" { fn gettid() -> i32; }

/// CPU ticks and state letter of one of our threads.
fn thread_state(tid: i32) -> Option<(char, u64)> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let rest = s.rsplit(')').next()?;
    let f: Vec<&str> = rest.split_whitespace().collect();
    Some((f.first()?.chars().next()?, f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?))
}

impl Sched {
    fn choose(&self, s: &mut State) {
        let ready: Vec<usize> = (0..s.st.len()).filter(|i| s.st[*i] == St::Ready).collect();
        if ready.is_empty() { s.cur = usize::MAX; return }
        let k = ready[(s.rng.next() % ready.len() as u64) as usize];
        s.cur = k;
        s.st[k] = St::Running;
        s.switches += 1;
        s.log.u(k as u64);
        if s.trace.len() < 4000 { s.trace.push(k as u8) }
    }
    fn yield_now(self: &Arc<Self>, me: usize) {
        let mut s = self.m.lock().unwrap();
        // a thread that was set aside as blocked rejoins here
        s.st[me] = St::Ready;
        if s.cur == me || s.cur == usize::MAX { self.choose(&mut s); }
        self.cv.notify_all();
        while s.cur != me { s = self.cv.wait(s).unwrap(); }
        s.st[me] = St::Running;
    }
}

/// A scheduling point: called by the simulated streams.
pub fn point() {
    let y = crate::alloc::YIELD.try_with(|y| y.replace(false)).unwrap_or(false);
    let go = ME.with(|m| m.try_borrow_mut().ok().and_then(|mut m| m.as_mut().and_then(|(s, i, r)| if r.next() % 1000 < s.switch_rate { Some((s.clone(), *i)) } else { None })));
    if let Some((s, i)) = go { s.yield_now(i) }
    let _ = crate::alloc::YIELD.try_with(|c| c.set(y));
}
/// A scheduling point: called by the allocator.
pub fn alloc_point() {
    let go = ME.try_with(|m| m.try_borrow_mut().ok().and_then(|mut m| m.as_mut().and_then(|(s, i, r)| if r.next() % 1000 < s.alloc_rate { Some((s.clone(), *i)) } else { None }))).ok().flatten();
    if let Some((s, i)) = go { s.yield_now(i) }
}

/// Runs the jobs as simulated threads. `strict`: a thread that waits for anything but the
/// scheduler is reported as stuck (nothing may block on another thread's stream calls).
pub fn run<T: Send + 'static>(jobs: Vec<Box<dyn FnOnce() -> T + Send>>, seed: u64, switch_rate: u64, alloc_rate: u64, hash_seeds: &[u64]) -> Outcome<T> {
    let n = jobs.len();
    let strict = alloc_rate == 0;
    let sc = Arc::new(Sched {
        m: Mutex::new(State { st: vec![St::Ready; n], tid: vec![0; n], cur: usize::MAX, rng: Rng::new(seed), switches: 0, log: Digest::new(), trace: vec![], stuck: None, started: 0 }),
        cv: Condvar::new(), alloc_rate, switch_rate,
    });
    let results: Arc<Mutex<Vec<Option<T>>>> = Arc::new(Mutex::new((0..n).map(|_| None).collect()));
    let mut hs = vec![];
    for (i, job) in jobs.into_iter().enumerate() {
        let (sc, results) = (sc.clone(), results.clone());
        let hseed = hash_seeds.get(i).copied().unwrap_or(seed ^ i as u64);
        hs.push(std::thread::Builder::new().stack_size(2 << 20).spawn(move || {
            crate::entropy::set_thread_seed(hseed);
            {
                let mut s = sc.m.lock().unwrap();
                s.tid[i] = unsafe { gettid() };
                s.started += 1;
                sc.cv.notify_all();
                while s.cur != i { s = sc.cv.wait(s).unwrap() }
            }
            ME.with(|m| *m.borrow_mut() = Some((sc.clone(), i, Rng::new(seed ^ (i as u64) << 32 ^ 77))));
            if sc.alloc_rate > 0 { crate::alloc::YIELD.with(|y| y.set(true)) }
            let r = job();
            crate::alloc::YIELD.with(|y| y.set(false));
            ME.with(|m| *m.borrow_mut() = None);
            results.lock().unwrap()[i] = Some(r);
            let mut s = sc.m.lock().unwrap();
            s.st[i] = St::Done;
            if s.cur == i || s.cur == usize::MAX { sc.choose(&mut s) }
            sc.cv.notify_all();
        }).unwrap());
    }
    // the controller: starts the run and looks for threads that wait for each other
    let mut s = sc.m.lock().unwrap();
    while s.started < n { s = sc.cv.wait(s).unwrap() }
    sc.choose(&mut s);
    sc.cv.notify_all();
    let mut seen = (usize::MAX, 0u64, 0u64, 0u32);
    loop {
        if s.st.iter().all(|x| *x == St::Done) { break }
        let (g, to) = sc.cv.wait_timeout(s, Duration::from_millis(20)).unwrap();
        s = g;
        if !to.timed_out() { continue }
        let cur = s.cur;
        if cur == usize::MAX {
            // everyone left is blocked on someone: a deadlock
            if s.st.iter().any(|x| *x == St::Blocked) {
                seen.3 += 1;
                if seen.3 > 100 { s.stuck = Some((0..n).find(|i| s.st[*i] == St::Blocked).unwrap()); break }
            }
            continue;
        }
        let Some((letter, ticks)) = thread_state(s.tid[cur]) else { continue };
        if letter == 'S' && seen.0 == cur && seen.1 == ticks && seen.2 == s.switches { seen.3 += 1 } else { seen = (cur, ticks, s.switches, 0) }
        if letter == 'S' && seen.3 >= 40 {
            if strict { s.stuck = Some(cur); break }
            s.st[cur] = St::Blocked;
            seen = (usize::MAX, 0, 0, 0);
            sc.choose(&mut s);
            sc.cv.notify_all();
        }
    }
    let out = (s.switches, s.log.0, s.trace.clone(), s.stuck);
    drop(s);
    if out.3.is_none() { for h in hs { let _ = h.join(); } }
    let results = std::mem::take(&mut *results.lock().unwrap());
    Outcome { results, switches: out.0, log: out.1, trace: out.2, stuck: out.3 }
}
