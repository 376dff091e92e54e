//! The scenarios: one per property. Each draws a workload, deliveries and faults from the tape,
//! drives the real code through the simulated streams, and judges what can be observed.
use crate::build;
use crate::damage::{self, Mini};
use crate::dec;
use crate::enc;
use crate::gen::{self, Prof};
use crate::limits;
use crate::model::{self, JStr};
use crate::mutf;
use crate::proj;
use crate::sched;
use crate::sim::*;
use crate::stream::*;
use crate::tape::Digest;
use crate::alloc;
use coffer::clazz::Class;
use coffer::ReadWrite;
use std::sync::{Arc, OnceLock};

pub fn by_name(p: &str) -> Option<fn(&mut Sim) -> Check> {
    Some(match p {
        "C01" => c01, "C02" => c02, "C03" => c03, "C04" => c04, "C05" => c05, "C06" => c06, "C07" => c07, "C08" => c08,
        "C09" => c09, "C10" => c10, "C11" => c11, "C12" => c12, "C13" => limits::c13, "C14" => c14, "C15" => c15, "C20" => crate::parts::run,
        _ => return None,
    })
}
pub fn quick_secs(p: &str) -> u64 { match p { "C05" | "C06" | "C07" | "C09" | "C12" | "C13" => 40, _ => 30 } }
pub fn rule(p: &str) -> &'static str {
    match p {
        "C01" => "a run counts if its file was loaded under at least two different deliveries; distinct by the fingerprint of the file, the deliveries and every stream call",
        "C02" => "a run counts if its class was saved under at least two different acceptances; distinct by the fingerprint of the class, the plans and every stream call",
        "C03" | "C04" => "a run counts if at least one fault struck before the operation was complete; distinct by the fingerprint of the workload, the faults and every stream call",
        "C05" => "a run counts if the data was damaged or hostile; distinct by the fingerprint of the data and the outcome",
        "C10" => "a run counts if at least two threads with different hash keys produced a result; distinct by the fingerprint of workload, keys and histories",
        "C11" => "a run counts if something followed the class in the stream; distinct by the fingerprint of the stream and every call",
        "C12" => "a run counts if at least two switches between simulated threads took place; distinct by the fingerprint of the workload and the full schedule (sequence of threads chosen)",
        "C13" => "a run counts if the class is at, next to or beyond a limit; distinct by the limit, the distance to it and the workload",
        "C20" => "a run counts if at least one part was written and read; distinct by the fingerprint of the bytes, the pool, the faults and every stream call",
        "C15" => "a run counts if at least one operation failed and one was retried; distinct by the fingerprint of the history",
        _ => "a run counts if a class made the trip through the simulated store; distinct by the fingerprint of the workload, the layout, the faults and every stream call",
    }
}

/// Proves that the seams are in place before any verdict is believed.
pub fn selfcheck() -> Result<(), String> {
    let a = on_thread(11, crate::entropy::probe);
    let b = on_thread(11, crate::entropy::probe);
    let c = on_thread(12, crate::entropy::probe);
    if a != b { return Err("hash keys do not follow the seed".into()) }
    if a == c { return Err("hash keys ignore the seed".into()) }
    let now = |seed| on_thread(seed, || { let c = crate::entropy::clock(true); let t = std::time::SystemTime::now(); crate::entropy::clock(c); t });
    if now(5) != now(5) || now(5) == now(6) { return Err("the clock does not follow the seed".into()) }
    let ((), u) = alloc::measure(|| drop(std::hint::black_box(vec![1u8; 100_000])));
    if u.peak < 100_000 { return Err("the allocator does not count".into()) }
    // the reference encoder and decoder agree
    for i in 0..40 {
        let mut t = crate::tape::Tape::seeded(i);
        let m = gen::class(&mut t, gen::RICH);
        let b = enc::encode(&m, i)?;
        if meaning(&b) != meaning(&enc::encode(&m, 0)?) { return Err("reference encoder and decoder disagree".into()) }
    }
    for b in corpus() { dec::class(b).map_err(|e| format!("corpus: {e}"))?; }
    // a deadlock is noticed, and a schedule is repeatable
    let go = |seed| sched::run::<u64>((0..3u64).map(|k| Box::new(move || { for _ in 0..20 { sched::point() } k }) as Box<dyn FnOnce() -> u64 + Send>).collect(), seed, 700, 0, &[1, 2, 3]);
    let (x, y, z) = (go(5), go(5), go(6));
    if x.log != y.log || x.log == z.log || x.results != vec![Some(0), Some(1), Some(2)] { return Err("the scheduler is not a function of its seed".into()) }
    Ok(())
}

pub fn corpus() -> &'static [&'static [u8]] {
    static C: OnceLock<Vec<&'static [u8]>> = OnceLock::new();
    C.get_or_init(|| {
        let b: &'static [u8] = include_bytes!("../corpus.bin");
        let mut v = vec![];
        let mut p = 0;
        while p < b.len() { let n = u32::from_be_bytes(b[p..p + 4].try_into().unwrap()) as usize; v.push(&b[p + 4..p + 4 + n]); p += 4 + n }
        v
    })
}

/// Two values that must be equal by the library's own comparison, label for label.
fn equal(a: &Class, b: &Class, what: &str) -> Check {
    let part = guard("comparing classes", || {
        if a.version != b.version || a.access != b.access { "version or flags" } else if a.name != b.name || a.super_name != b.super_name || a.interfaces != b.interfaces { "names" }
        else if a.fields != b.fields { "fields" } else if a.methods != b.methods { "methods" } else if a.attributes != b.attributes { "attributes" } else { "" }
    })?;
    if part.is_empty() { Ok(()) } else { viol("unequal", format!("{what}: not equal in their {part}")) }
}
pub fn fp(b: &[u8]) -> u64 { let mut d = Digest::new(); d.bytes(b); d.0 }
fn profile(s: &mut Sim) -> Prof { *s.t.pick(&[gen::SMALL, gen::SMALL, gen::RICH, gen::DECL, gen::CODE, gen::TEXT, gen::DYNS]) }

/// A class (canonical) and its style.
pub fn subject(s: &mut Sim, p: Prof) -> model::Class { model::canon(gen::class(&mut s.t, p)) }

pub fn built(s: &mut Sim, m: &model::Class) -> Result<Class, Viol> {
    let style = s.t.raw();
    match guard("building a class", || build::class(m, style))? { Ok(c) => Ok(c), Err(e) => viol("build", format!("cannot build a class from a valid description: {e}")) }
}
pub fn file_of(s: &mut Sim, m: &model::Class) -> Vec<u8> {
    let lay = if s.t.chance(1, 4) { 0 } else { s.t.raw() };
    enc::encode(m, lay).unwrap_or_else(|e| panic!("reference encoder: {e}"))
}
/// A valid class file: encoded by the reference encoder, real, or saved by coffer itself.
fn valid_file(s: &mut Sim) -> Result<Vec<u8>, Viol> {
    match s.t.n(5) {
        0 | 1 => { let p = profile(s); let m = subject(s, p); let b = file_of(s, &m); s.note(format!("generated file of {} bytes", b.len())); Ok(b) }
        2 => { let i = s.t.n(corpus().len()); s.note(format!("compiler-made file {i}")); Ok(corpus()[i].to_vec()) }
        _ => {
            let p = profile(s);
            let m = subject(s, p);
            let c = built(s, &m)?;
            let w = save(&c, WHOLE)?;
            if w.res.is_ok() { s.note(format!("saved file of {} bytes", w.out.len())); Ok(w.out) } else { Ok(file_of(s, &m)) }
        }
    }
}
fn maybe_damaged(s: &mut Sim, num: u64, den: u64) -> Result<(Vec<u8>, bool), Viol> {
    let b = valid_file(s)?;
    if !s.t.chance(num, den) { return Ok((b, false)) }
    if s.t.chance(1, 6) { let (b, w) = damage::hostile(&mut s.t); s.note(format!("hostile: {w}")); return Ok((b, true)) }
    let i = s.t.n(corpus().len());
    let (b, w) = damage::damage(&mut s.t, &b, corpus()[i]);
    bump("damaged-file", 1);
    s.note(format!("damage: {w}"));
    Ok((b, true))
}
fn show(o: &Result<Result<model::Class, String>, String>) -> String {
    match o { Ok(Ok(c)) => format!("class {:?}", c.name), Ok(Err(e)) => format!("class that cannot be examined: {e}"), Err(e) => format!("error {e}") }
}
fn plan_text(p: &Plan) -> String { format!("style {} piece {} interrupts {}‰ fail {:?}", p.style, p.piece, p.interrupt, p.fail) }

// ---- C01 ----
fn c01(s: &mut Sim) -> Check {
    let (b, _) = maybe_damaged(s, 1, 2)?;
    s.sig.u(fp(&b));
    let base = load(&b, WHOLE)?;
    let want = outcome(&base)?;
    bump(if base.res.is_ok() { "probe:loads that succeed" } else { "probe:loads that are refused" }, 1);
    for k in 0..s.t.range(2, 5) {
        let p = if k == 0 { Plan { style: 1, ..WHOLE } } else { Plan::draw(&mut s.t) };
        s.note(format!("delivery {}", plan_text(&p)));
        let l = load(&b, p)?;
        s.saw(l.log);
        s.nontrivial |= !p.is_whole();
        let got = outcome(&l)?;
        if let (Ok(a), Ok(b)) = (&base.res, &l.res) { equal(a, b, &format!("loaded at once and delivered as {}", plan_text(&p)))? }
        if got != want {
            let d = if let (Ok(Ok(a)), Ok(Ok(b))) = (&want, &got) { model::diff(a, b) } else { String::new() };
            return viol("delivery", format!("at once: {}; delivered as {}: {} {d}", show(&want), plan_text(&p), show(&got)));
        }
        if l.used != base.used { return viol("consumed", format!("at once {} bytes are consumed, delivered as {}: {}", base.used, plan_text(&p), l.used)) }
    }
    Ok(())
}

// ---- C02 ----
fn any_class(s: &mut Sim) -> Result<Class, Viol> {
    if s.t.chance(1, 2) { let p = profile(s); let m = subject(s, p); s.note("built class"); return built(s, &m) }
    let b = valid_file(s)?;
    match load(&b, WHOLE)?.res { Ok(c) => Ok(c), Err(_) => { let m = subject(s, gen::SMALL); built(s, &m) } }
}
fn c02(s: &mut Sim) -> Check {
    let c = any_class(s)?;
    let base = save(&c, WHOLE)?;
    s.sig.u(fp(&base.out));
    let kind = base.res.as_ref().err().map(err_kind);
    for k in 0..s.t.range(2, 5) {
        let p = if k == 0 { Plan { style: 1, ..WHOLE } } else { Plan::draw(&mut s.t) };
        s.note(format!("acceptance {}", plan_text(&p)));
        let w = save(&c, p)?;
        s.saw(w.log);
        s.nontrivial |= !p.is_whole();
        if w.res.as_ref().err().map(err_kind) != kind { return viol("result", format!("to memory: {kind:?}, to a stream with {}: {:?}", plan_text(&p), w.res)) }
        if kind.is_none() && w.out != base.out {
            let at = base.out.iter().zip(&w.out).position(|(a, b)| a != b).unwrap_or(base.out.len().min(w.out.len()));
            return viol("bytes", format!("to memory {} bytes, to a stream with {} {} bytes, first difference at {at}", base.out.len(), plan_text(&p), w.out.len()));
        }
    }
    Ok(())
}

// ---- C03 ----
fn c03(s: &mut Sim) -> Check {
    let b = valid_file(s)?;
    s.sig.u(fp(&b));
    let base = load(&b, WHOLE)?;
    if base.res.is_err() { return Ok(()) }
    let end = base.used;
    let want = outcome(&base)?;
    let marks = dec::landmarks(&b);
    for _ in 0..s.t.range(4, 16) {
        let at = if s.t.chance(1, 10) { end + s.t.n(3) } else { damage::spot(&mut s.t, &marks, end.saturating_sub(1)) };
        let f = draw_fault(&mut s.t);
        let p = Plan::draw(&mut s.t).fail(at, f);
        s.note(format!("{} at byte {at} of {end}", fault_name(f, false)));
        let mut data = b.clone();
        // what would have followed must not matter
        if s.t.chance(1, 4) { data.extend([0xAA; 40]) }
        let l = load(&data, p)?;
        s.saw(l.log);
        if at >= end {
            if outcome(&l)? != want { return viol("late-fault", format!("a fault at byte {at}, after the {end} bytes of the class, changes the outcome to {}", show(&outcome(&l)?))) }
            continue;
        }
        s.nontrivial = true;
        match &l.res {
            Ok(_) => return viol("success", format!("the stream failed with {} at byte {at} of {end}, yet a class was returned", fault_name(f, false))),
            Err(e) if !carries(e, f, false) => return viol("wrong-error", format!("the stream failed with {} at byte {at} of {end}; reported as {e:?}", fault_name(f, false))),
            _ => {}
        }
        if l.after > 0 { return viol("reads-on", format!("{} more reads after {} at byte {at}", l.after, fault_name(f, false))) }
    }
    Ok(())
}

// ---- C04 ----
fn c04(s: &mut Sim) -> Check {
    let c = any_class(s)?;
    let base = save(&c, WHOLE)?;
    s.sig.u(fp(&base.out));
    if base.res.is_err() { return Ok(()) }
    let end = base.out.len();
    let marks = dec::landmarks(&base.out);
    // a slot that a client replaces atomically after each save that reports success
    let mut slot: Option<Vec<u8>> = None;
    for _ in 0..s.t.range(4, 14) {
        let at = if s.t.chance(1, 10) { end + s.t.n(3) } else { damage::spot(&mut s.t, &marks, end - 1) };
        let f = draw_fault(&mut s.t);
        let p = Plan::draw(&mut s.t).fail(at, f);
        s.note(format!("{} at byte {at} of {end}", fault_name(f, true)));
        let w = save(&c, p)?;
        s.saw(w.log);
        if w.out.len() > end || base.out[..w.out.len()] != w.out[..] { return viol("not-prefix", format!("emitted {} bytes that are not a prefix of the complete output ({end} bytes), fault at {at}", w.out.len())) }
        if w.res.is_ok() { slot = Some(w.out.clone()); bump("probe:saves committed", 1) } else { bump("crash-before-commit", 1) }
        if let Some(b) = &slot { if b.len() != end { return viol("success", format!("the stream failed with {} at byte {at} of {end}, yet the save reported success", fault_name(f, true))) } }
        if at >= end {
            if let Err(e) = &w.res { return viol("late-fault", format!("every byte was accepted, yet the save failed: {e:?}")) }
            continue;
        }
        s.nontrivial = true;
        match &w.res {
            Ok(()) => return viol("success", format!("the stream failed with {} at byte {at} of {end}, yet the save reported success", fault_name(f, true))),
            Err(e) if !carries(e, f, true) => return viol("wrong-error", format!("the stream failed with {} at byte {at} of {end}; reported as {e:?}", fault_name(f, true))),
            _ => {}
        }
        if w.after > 0 { return viol("writes-on", format!("{} more writes after {} at byte {at}", w.after, fault_name(f, true))) }
    }
    Ok(())
}

// ---- C05 ----
/// Formats without keeping the text.
struct Sink(u64);
impl std::fmt::Write for Sink { fn write_str(&mut self, s: &str) -> std::fmt::Result { self.0 += s.len() as u64; Ok(()) } }

fn c05(s: &mut Sim) -> Check {
    let b = if s.t.chance(1, 4) { let (b, w) = damage::hostile(&mut s.t); bump("hostile-file", 1); s.note(format!("hostile: {w}")); b } else { let (b, d) = maybe_damaged(s, 19, 20)?; if !d { return Ok(()) } b };
    s.sig.u(fp(&b));
    s.nontrivial = true;
    let p = if s.t.chance(1, 2) { WHOLE } else { Plan::draw(&mut s.t) };
    let (l, u) = alloc::measure(|| load(&b, p));
    let l = l?;
    let limit = (32 << 20) + b.len() * 3000;
    if u.peak > limit { return viol("memory", format!("loading {} bytes needed {} bytes of memory (largest single request {})", b.len(), u.peak, u.largest)) }
    if l.calls > 100_000 + 64 * b.len() as u64 { return viol("calls", format!("loading {} bytes took {} reads", b.len(), l.calls)) }
    let c = match l.res {
        Err(e) => {
            bump("probe:damaged files refused", 1);
            s.sig.bytes(err_kind(&e).as_bytes());
            let mut k = Sink(0);
            guard("printing the error", || { use std::fmt::Write; let _ = write!(k, "{e} {e:?}"); })?;
            return Ok(());
        }
        Ok(c) => c,
    };
    bump("probe:damaged files that load", 1);
    let v = view_canon(&c)?;
    let mut k = Sink(0);
    guard("printing the class", || { use std::fmt::Write; let _ = write!(k, "{c:?}"); })?;
    let d = guard("cloning the class", || c.clone())?;
    if view_canon(&d)? != v { return viol("clone", "the clone of a class from damaged data differs") }
    equal(&c, &d, "a class from damaged data and its clone")?;
    guard("dropping the clone", move || drop(d))?;
    let (w, u) = alloc::measure(|| save(&c, WHOLE));
    let w = w?;
    if u.peak > limit { return viol("memory", format!("saving a class loaded from {} bytes needed {} bytes of memory", b.len(), u.peak)) }
    if let Err(e) = &w.res { s.note(format!("not savable: {e}")); return Ok(()) }
    bump("probe:damaged classes saved again", 1);
    let again = load(&w.out, WHOLE)?;
    match &again.res {
        Err(e) => return viol("unloadable", format!("a class loaded from damaged data was saved, and the result does not load: {e:?}")),
        Ok(c2) => {
            let v2 = view_canon(c2)?;
            if v2 != v { return viol("changed", format!("a class loaded from damaged data changes when saved and loaded: {}", match (&v, &v2) { (Ok(a), Ok(b)) => differ(a, b), (a, b) => format!("{:?} / {:?}", a.as_ref().err(), b.as_ref().err()) })) }
        }
    }
    guard("dropping the class", move || drop(c))
}
fn differ(a: &model::Class, b: &model::Class) -> String { match model::same_saved(a, b) { Err(e) => e, Ok(()) => model::diff(a, b) } }

// ---- C06 .. C09: trips through the store ----
/// Saves as a client of an unreliable store would: every attempt goes to a fresh file, which
/// replaces the old one only if the save reports success. Returns what is then in the store.
pub fn store(s: &mut Sim, c: &Class) -> Result<Result<Vec<u8>, String>, Viol> {
    for _ in 0..s.t.n(3) {
        let at = match s.t.n(3) { 0 => s.t.n(64), 1 => s.t.n(600), _ => s.t.n(8000) };
        let f = draw_end(&mut s.t);
        let w = save(c, Plan::draw(&mut s.t).fail(at, f))?;
        s.saw(w.log);
        match w.res {
            Ok(()) => { s.note(format!("saved ({} bytes; fault beyond the end)", w.out.len())); return Ok(Ok(w.out)) }
            Err(e) if w.failed.is_some() => { s.note(format!("attempt lost to {} at {at}: {}", fault_name(f, true), err_kind(&e))); bump("crash-before-commit", 1) }
            Err(e) => return Ok(Err(format!("{e:?}"))),
        }
    }
    let w = save(c, Plan::draw(&mut s.t))?;
    s.saw(w.log);
    Ok(match w.res { Ok(()) => Ok(w.out), Err(e) => Err(format!("{e:?}")) })
}
/// Loads as a client of an unreliable store would: again after each failure of the stream.
pub fn fetch(s: &mut Sim, b: &[u8]) -> Result<Result<Class, String>, Viol> {
    for _ in 0..s.t.n(3) {
        let at = s.t.n(b.len());
        let f = draw_end(&mut s.t);
        let l = load(b, Plan::draw(&mut s.t).fail(at, f))?;
        s.saw(l.log);
        if let Ok(c) = l.res { s.note(format!("loaded although the stream fails at {at}")); return Ok(Ok(c)) }
    }
    let l = load(b, Plan::draw(&mut s.t))?;
    s.saw(l.log);
    Ok(l.res.map_err(|e| format!("{e:?}")))
}
fn expect_class(what: &str, c: &Class, want: &model::Class) -> Check {
    match view_canon(c)? { Err(e) => viol("unreadable", format!("{what}: {e}")), Ok(v) if v != *want => viol("content", format!("{what}: {}", differ(want, &v))), _ => Ok(()) }
}
/// What the stored bytes say must be what the class said.
fn expect_stored(what: &str, b: &[u8], want: &model::Class) -> Result<model::Class, Viol> {
    match dec::class(b) {
        Err(e) => viol("malformed", format!("{what}: the stored bytes are not a well-formed class file: {e}")),
        Ok((_, n)) if n != b.len() => viol("malformed", format!("{what}: {} bytes stored behind the class", b.len() - n)),
        Ok((g, _)) => { let g = model::canon(g); model::same_saved(want, &g).or_else(|e| viol("stored", format!("{what}: {e}")))?; Ok(g) }
    }
}
/// File -> class -> file -> class, and class -> file -> class.
/// Many interfaces come before everything else in the pool, so that the rest gets high numbers.
fn crowd(s: &mut Sim, m: &model::Class) -> model::Class {
    let mut c = m.clone();
    if !s.t.chance(1, 300) { return c }
    let n = match s.t.n(4) { 0 => s.t.range(100, 128), 1 => s.t.range(1900, 2048), 2 => s.t.range(16100, 16384), _ => s.t.range(30000, 32700) };
    c.itfs = (0..n).map(|i| JStr::new(&format!("i{i}"))).collect();
    if enc::encode(&c, 0).map_or(true, |b| u16::from_be_bytes([b[8], b[9]]) > 65000) { return m.clone() }
    s.note(format!("{n} interfaces"));
    bump("probe:crowded pools", 1);
    c
}
fn trip(s: &mut Sim, m: &model::Class, generations: usize) -> Check {
    s.nontrivial = true;
    let m = &crowd(s, m);
    if s.t.chance(1, 2) {
        let b = file_of(s, m);
        s.sig.u(fp(&b));
        s.note(format!("file of {} bytes", b.len()));
        let want = meaning(&b);
        let c = match fetch(s, &b)? { Ok(c) => c, Err(e) => return viol("refused-load", format!("a well-formed file does not load: {e}")) };
        expect_class("loaded", &c, &want)?;
        onward(s, c, &want, generations)
    } else {
        let c = built(s, m)?;
        s.note("built class");
        onward(s, c, m, generations)
    }
}
fn onward(s: &mut Sim, c: Class, want: &model::Class, generations: usize) -> Check {
    let mut c = c;
    let mut want = want.clone();
    let mut last = usize::MAX;
    for g in 0..generations {
        let b = match store(s, &c)? { Ok(b) => b, Err(e) => return viol("refused-save", format!("a class that fits the format is not saved: {e}")) };
        s.sig.u(fp(&b));
        let said = expect_stored("saved", &b, &want)?;
        if let Ok(v) = view_canon(&c)? { if v != want { return viol("touched", "saving changed the class") } }
        // not counting the instructions: a jump over a switch can become long when another one becomes
        // short, because the padding of the switch changes
        let size = b.len() - dec::landmarks(&b).iter().filter(|m| m.2 == "code-bytes").map(|m| m.1).sum::<usize>();
        if size > last { return viol("growth", format!("generation {g}: the file grew from {last} to {size} bytes besides the instructions")) }
        last = size;
        c = match fetch(s, &b)? { Ok(c) => c, Err(e) => return viol("refused-load", format!("a saved class does not load back: {e}")) };
        expect_class("loaded back", &c, &said)?;
        want = said;
    }
    bump("probe:trips completed", 1);
    Ok(())
}
fn corpus_trip(s: &mut Sim) -> Check {
    let i = s.t.n(corpus().len());
    s.note(format!("compiler-made file {i}"));
    s.nontrivial = true;
    let b = corpus()[i];
    let want = meaning(b);
    let c = match fetch(s, b)? { Ok(c) => c, Err(e) => return viol("refused-load", format!("compiler-made file {i} does not load: {e}")) };
    expect_class(&format!("compiler-made file {i} loaded"), &c, &want)?;
    onward(s, c, &want, 1)
}
fn c06(s: &mut Sim) -> Check {
    if s.t.chance(1, 12) { return corpus_trip(s) }
    let p = *s.t.pick(&[gen::DECL, gen::DECL, gen::RICH, gen::SMALL]);
    let m = subject(s, p);
    let g = s.t.range(1, 2);
    trip(s, &m, g)
}
fn c07(s: &mut Sim) -> Check {
    if s.t.chance(1, 12) { return corpus_trip(s) }
    let p = *s.t.pick(&[gen::CODE, gen::CODE, gen::CODE, gen::RICH]);
    let m = subject(s, p);
    let g = s.t.range(1, 2);
    trip(s, &m, g)
}

// ---- C08 ----
/// Bytes that are nearly, or exactly, modified UTF-8.
fn text_bytes(s: &mut Sim) -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..s.t.range(1, 7) {
        match s.t.n(9) {
            0 => v.push(b'a' + s.t.n(26) as u8),
            1 => v.push(*s.t.pick(&[0, 0x7F, 0x80, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xED, 0xEF, 0xF0, 0xF4, 0xF8, 0xFF])),
            2 => { let u = *s.t.pick(&[0u16, 1, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFF]); v.extend(mutf::encode(&JStr(vec![u]))) }
            3 => { v.extend(mutf::encode(&JStr(vec![0xD800 + s.t.n(1024) as u16, 0xDC00 + s.t.n(1024) as u16]))) }
            4 => { v.extend([0xC0 + s.t.n(32) as u8, 0x80 + s.t.n(64) as u8]) }
            5 => { v.extend([0xE0 + s.t.n(16) as u8, 0x80 + s.t.n(64) as u8, 0x80 + s.t.n(64) as u8]) }
            6 => { v.extend([0xED, 0xA0 + s.t.n(16) as u8, 0x80 + s.t.n(64) as u8, 0xED, *s.t.pick(&[0xB0, 0xBF, 0xAF, 0x9F, 0xC0, 0x30]), *s.t.pick(&[0x80, 0xBF, 0xC0, 0x7F, 0x00])]) }
            7 => { let mut e = mutf::encode(&JStr(vec![0xD800 + s.t.n(2048) as u16])); let i = s.t.n(3); e[i] = s.t.n(256) as u8; v.extend(e) }
            _ => { let c = char::from_u32(0x10000 + s.t.n(0x100000) as u32).unwrap(); let mut x = [0; 4]; v.extend(c.encode_utf8(&mut x).bytes()) }
        }
    }
    // lengthening changes the alignment that word-at-a-time code sees
    if s.t.chance(1, 4) { let n = if s.t.chance(1, 8) { s.t.n(9000) } else { s.t.n(40) }; let at = s.t.n(v.len() + 1); v.splice(at..at, std::iter::repeat(b'q').take(n)); }
    if s.t.chance(1, 6) { v.pop(); }
    v
}
fn c08(s: &mut Sim) -> Check {
    if s.t.chance(2, 5) {
        s.nontrivial = true;
        let v = text_bytes(s);
        let mut m = Mini::new();
        let mv = m.utf(b"()V");
        let ii = m.utf(b"I");
        let place = s.t.n(5);
        let u = m.utf(&v);
        let f = match place {
            0 => m.file(&[(u, ii, vec![])], &[], &vec![]),
            1 => { let a = m.utf(b"SourceFile"); m.file(&[], &[], &vec![(a, u.to_be_bytes().to_vec())]) }
            2 => {
                let c = m.e(8, &[u]);
                let a = m.utf(b"Code");
                let x = m.utf(b"x");
                let mut b = vec![0x13];
                b.extend(c.to_be_bytes());
                b.extend([0x57, 0xB1]);
                m.file(&[], &[(x, mv, vec![(a, Mini::code(&b, &vec![]))])], &vec![])
            }
            3 => { let a = m.utf(b"SourceDebugExtension"); m.file(&[], &[], &vec![(a, v.clone())]) }
            _ => { let c = m.e(7, &[u]); let a = m.utf(b"NestHost"); m.file(&[], &[], &vec![(a, c.to_be_bytes().to_vec())]) }
        };
        s.sig.u(fp(&f));
        s.note(format!("text {v:02x?} in place {place}"));
        let strict = mutf::decode(&v);
        let want = mutf::decode_tolerant(&v);
        let l = load(&f, Plan::draw(&mut s.t))?;
        s.saw(l.log);
        bump(if strict.is_none() { "probe:malformed texts" } else { "probe:well-formed texts" }, 1);
        let c = match l.res {
            Err(e) => return if strict.is_some() && !matches!(e, coffer::Error::IO(_)) && !(place == 4 && (v.first() == Some(&b'[') || v.is_empty())) { viol("refused-text", format!("well-formed text {v:02x?} is refused: {e:?}")) } else { Ok(()) },
            Ok(c) => c,
        };
        let got = match view(&c)? { Ok(m) => m, Err(e) => return viol("unreadable", e) };
        let text = match place {
            0 => got.fields[0].name.clone(),
            1 | 3 | 4 => match &got.attrs[..] { [model::Attr::SourceFile(t)] | [model::Attr::SourceDebug(t)] | [model::Attr::NestHost(t)] => t.clone(), o => return viol("content", format!("text {v:02x?} turns the attribute into {o:?}")) },
            _ => match &got.methods[0].attrs[..] { [model::Attr::Code(c)] => match &c.insns[0] { model::Insn::Push(model::Cst::Str(t)) => t.clone(), o => return viol("content", format!("{o:?}")) }, o => return viol("content", format!("{o:?}")) },
        };
        match want {
            None => return viol("altered-text", format!("malformed text {v:02x?} was accepted as {text:?}")),
            Some(w) if w != text => return viol("altered-text", format!("text {v:02x?} means {w:?}, loaded as {text:?}")),
            _ => {}
        }
        return onward(s, c, &model::canon(got), 1);
    }
    let p = *s.t.pick(&[gen::TEXT, gen::TEXT, gen::RICH, gen::DYNS]);
    let m = subject(s, p);
    trip(s, &m, 1)
}

// ---- C09 ----
/// Many bootstrap methods: every one of them has to find its own users again.
fn wide_table(s: &mut Sim) -> Check {
    use model::*;
    // few rows with many users each, or many rows
    let few = s.t.chance(1, 4);
    let rows = if few { s.t.range(1, 3) } else { match s.t.n(7) { 5 => s.t.range(32760, 32780), 6 => s.t.range(65530, 65535), 0 => s.t.range(250, 260), 1 => s.t.range(1020, 1030), 2 => s.t.range(4090, 4100), 3 => s.t.range(2, 2000), _ => s.t.range(2000, 9000) } };
    let listed = few || rows > 30000 || s.t.chance(1, 2);
    let mut g = gen::Gen::new(&mut s.t, gen::SMALL);
    let h: Vec<Handle> = (0..2).map(|_| g.handle()).collect();
    let same = s.t.chance(1, 2);
    let row = |i: usize| Bsm { handle: h[i % 2].clone(), args: if rows > 30000 { vec![Cst::Int(i as i32 / 512), Cst::Int(i as i32 / 2 % 256)] } else { vec![Cst::Int(i as i32 / 2)] } };
    let table: Vec<Bsm> = (0..rows).map(row).collect();
    let mut insns = vec![];
    // the class that lists its table uses some rows of it, the other uses all it has
    let uses: Vec<usize> = if listed { (0..if few { s.t.range(20, 700) } else { s.t.range(2, 40) }).map(|_| { let b = *s.t.pick(&[0usize, 1, 255, 256, 1023, 1024, 4095, 4096, 32767, 32768, rows - 1, usize::MAX]); if b < rows && s.t.chance(1, 2) { b } else { s.t.n(rows) } }).collect() } else { (0..rows).collect() };
    for (u, i) in uses.iter().enumerate() {
        let name = if few { JStr::new(&format!("d{u}")) } else if same { "d".into() } else { JStr::new(&format!("d{i}")) };
        let d = |desc: &str| Dyn { bsm: Box::new(table[*i].clone()), name: name.clone(), desc: desc.into() };
        insns.push(match s.t.n(3) { 0 => Insn::InvokeDyn(d("()I")), _ => Insn::Push(Cst::Dyn(d("I"))) });
        insns.push(Insn::Op(0x57));
    }
    insns.push(Insn::Op(0xB1));
    let k = Code { max_stack: 1, max_locals: 1, insns, catches: vec![], lines: vec![], lvars: vec![], attrs: vec![] };
    let m = Class { minor: 0, major: 55, flags: 0x21, name: "W".into(), sup: Some("java/lang/Object".into()), itfs: vec![], fields: vec![], methods: vec![MemberDecl { flags: 1, name: "m".into(), desc: "()V".into(), attrs: vec![Attr::Code(Box::new(k))] }], attrs: if listed { vec![Attr::Bootstrap(table.clone())] } else { vec![] } };
    s.note(format!("{rows} bootstrap methods, {} users, table {}", uses.len(), if listed { "listed" } else { "derived" }));
    bump("probe:wide bootstrap tables", 1);
    trip(s, &model::canon(m), 1)
}
fn c09(s: &mut Sim) -> Check {
    if s.t.chance(1, 90) { return wide_table(s) }
    match s.t.n(8) {
        0..=4 => { let p = if s.t.chance(1, 6) { gen::RICH } else { gen::DYNS }; let m = subject(s, p); let g = s.t.range(2, 4); trip(s, &m, g) }
        5 => {
            // references to bootstrap methods that do not exist or depend on themselves
            let mut m = Mini::new();
            let x = m.utf(b"x");
            let mv = m.utf(b"()V");
            let code = m.utf(b"Code");
            let a = m.utf(b"BootstrapMethods");
            let h = m.boot();
            let (nt, mnt) = (m.nt("k", "I"), m.nt("k", "()V"));
            let n = s.t.range(1, 5);
            let rows = s.t.n(n + 1);
            let dyns: Vec<u16> = (0..n).map(|k| m.e(17, &[k as u16, nt])).collect();
            let indys: Vec<u16> = (0..n).map(|k| m.e(18, &[k as u16, mnt])).collect();
            let mut graph: Vec<Vec<usize>> = vec![];
            let mut b = (rows as u16).to_be_bytes().to_vec();
            for _ in 0..rows {
                b.extend(h.to_be_bytes());
                let k = s.t.n(3);
                b.extend((k as u16).to_be_bytes());
                let to: Vec<usize> = (0..k).map(|_| s.t.n(n)).collect();
                for g in &to { b.extend(dyns[*g].to_be_bytes()) }
                graph.push(to);
            }
            let start = s.t.n(n);
            let indy = s.t.chance(1, 3);
            let body = if indy { let i = indys[start].to_be_bytes(); vec![0xBA, i[0], i[1], 0, 0, 0xB1] } else { let i = dyns[start].to_be_bytes(); vec![0x13, i[0], i[1], 0x57, 0xB1] };
            let attrs = if rows == 0 && s.t.chance(1, 2) { vec![] } else { vec![(a, b)] };
            let f = m.file(&[], &[(x, mv, vec![(code, Mini::code(&body, &vec![]))])], &attrs);
            fn sound(g: &[Vec<usize>], at: usize, path: &mut Vec<usize>) -> bool {
                if at >= g.len() || path.contains(&at) { return false }
                path.push(at);
                let r = g[at].iter().all(|n| sound(g, *n, path));
                path.pop();
                r
            }
            // what is used must be sound; rows of the table are themselves part of the class
            let used = sound(&graph, start, &mut vec![]);
            let table = (0..rows).all(|r| sound(&graph, r, &mut vec![]));
            s.note(format!("{n} dynamic constants, bootstrap table {graph:?}, used: {start} ({})", if indy { "call site" } else { "constant" }));
            s.nontrivial = true;
            s.sig.u(fp(&f));
            bump(if used && table { "probe:sound tables" } else { "probe:dangling or cyclic tables" }, 1);
            let l = load(&f, Plan::draw(&mut s.t))?;
            s.saw(l.log);
            match (used && table, l.res) {
                (true, Err(e)) => viol("refused-load", format!("a sound bootstrap table is refused: {e:?}")),
                (true, Ok(c)) => { let want = model::canon(dec::class_lax(&f).unwrap_or_else(|e| panic!("reference: {e}")).0); expect_class("loaded", &c, &want)?; onward(s, c, &want, 2) }
                (false, Ok(_)) => viol("unbound", "a reference to a missing or self-dependent bootstrap method loads"),
                (false, Err(_)) => Ok(()),
            }
        }
        _ => {
            // the table is lost, shortened or an entry points past it
            let m = subject(s, gen::DYNS);
            let b = file_of(s, &m);
            let Ok((whole, _)) = dec::class(&b) else { panic!("reference") };
            let mut f = b.clone();
            let marks = dec::landmarks(&b);
            let mut pool_refs = vec![];
            let mut k = 0;
            for w in marks.windows(2) { if w[0].2 == "pool-tag" && w[1].2 == "pool-ref" && matches!(b[w[0].0], 17 | 18) { pool_refs.push(w[1].0) } k += 1 }
            let _ = k;
            if pool_refs.is_empty() { return Ok(()) }
            let at = *s.t.pick(&pool_refs);
            let old = u16::from_be_bytes([b[at], b[at + 1]]);
            let v = match s.t.n(4) { 0 => 0xFFFF, 1 => old.wrapping_add(1), 2 => old.wrapping_sub(1), _ => s.t.n(12) as u16 };
            f[at..at + 2].copy_from_slice(&v.to_be_bytes());
            s.note(format!("bootstrap index at {at}: {old} -> {v}"));
            s.nontrivial = true;
            s.sig.u(fp(&f));
            let l = load(&f, Plan::draw(&mut s.t))?;
            s.saw(l.log);
            // an entry nothing uses may be refused or ignored
            let lax = dec::class_lax(&f);
            match (dec::class(&f), l.res) {
                (Err(_), Ok(c)) if lax.is_ok() => { bump("probe:dangling entry not used", 1); let want = model::canon(lax.unwrap().0); expect_class("loaded", &c, &want)?; onward(s, c, &want, 1) }
                (Ok((m, _)), Ok(c)) => { let want = model::canon(m); bump("probe:rebound entries", (want != model::canon(whole)) as u64); expect_class("loaded", &c, &want)?; onward(s, c, &want, 1) }
                (Ok(_), Err(e)) => viol("refused-load", format!("a sound bootstrap table is refused: {e:?}")),
                (Err(e), Ok(_)) => viol("unbound", format!("loads, although {e}")),
                (Err(_), Err(_)) => { bump("probe:dangling or cyclic tables", 1); Ok(()) }
            }
        }
    }
}

// ---- C10 ----
type Seen = (Result<Vec<u8>, String>, Result<Result<model::Class, String>, String>, Result<Vec<u8>, String>);
fn c10(s: &mut Sim) -> Check {
    let p = profile(s);
    let m = subject(s, p);
    let b = if s.t.chance(1, 6) { corpus()[s.t.n(corpus().len())].to_vec() } else { file_of(s, &m) };
    let style = s.t.raw();
    s.sig.u(fp(&b));
    let n = s.t.range(2, 4);
    let mut first: Option<Seen> = None;
    let mut first_class: Option<Class> = None;
    for k in 0..n {
        let seed = s.t.raw();
        let hist: Vec<usize> = (0..s.t.n(4)).map(|_| s.t.n(corpus().len())).collect();
        s.note(format!("thread {k}: hash keys {seed:x}, {} operations before", hist.len()));
        s.sig.u(seed);
        let (m, b) = (m.clone(), b.clone());
        let lp = Plan::draw(&mut s.t);
        let got: Result<(Seen, Option<Class>), Viol> = on_thread(seed, move || {
            for h in hist { let c = load(corpus()[h], WHOLE)?; if let Ok(c) = c.res { save(&c, WHOLE)?; } }
            let bc = match guard("building a class", || build::class(&m, style))? { Ok(c) => c, Err(e) => return viol("build", e) };
            let w = save(&bc, WHOLE)?;
            let w = w.res.map(|_| w.out).map_err(|e| err_kind(&e));
            let l = load(&b, lp)?;
            Ok(match l.res {
                Err(e) => ((w, Err(err_kind(&e)), Err(String::new())), None),
                Ok(c) => {
                    let mut v = view(&c)?;
                    if let Ok(v) = &mut v { model::order_maps(v) }
                    let x = save(&c, WHOLE)?;
                    ((w, Ok(v), x.res.map(|_| x.out).map_err(|e| err_kind(&e))), Some(c))
                }
            })
        });
        let (got, class) = got?;
        let Some(f) = &first else { first = Some(got); first_class = class; continue };
        if let (Some(a), Some(b)) = (&first_class, &class) { equal(a, b, "one file loaded on two threads")? }
        s.nontrivial = true;
        let where_ = |a: &[u8], b: &[u8]| a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
        if f.0 != got.0 { return viol("built-bytes", match (&f.0, &got.0) { (Ok(a), Ok(b)) => format!("the same class is saved as {} and {} bytes, first difference at {}", a.len(), b.len(), where_(a, b)), (a, b) => format!("{:?} / {:?}", a.as_ref().err(), b.as_ref().err()) }) }
        if f.1 != got.1 { return viol("loaded-class", match (&f.1, &got.1) { (Ok(Ok(a)), Ok(Ok(b))) => model::diff(a, b), _ => "different outcomes of one load".into() }) }
        if f.2 != got.2 { return viol("resaved-bytes", match (&f.2, &got.2) { (Ok(a), Ok(b)) => format!("the same file is saved again as {} and {} bytes, first difference at {}", a.len(), b.len(), where_(a, b)), (a, b) => format!("{:?} / {:?}", a.as_ref().err(), b.as_ref().err()) }) }
    }
    Ok(())
}

// ---- C11 ----
fn c11(s: &mut Sim) -> Check {
    let n = s.t.range(1, 4);
    let mut data = vec![];
    let mut parts: Vec<(usize, usize, bool)> = vec![];
    for k in 0..n {
        let b = valid_file(s)?;
        let last = k + 1 == n;
        let start = data.len();
        // only the last one may be damaged: what follows a refused class has no known start
        let bad = last && s.t.chance(1, 2);
        if bad { let (x, w) = damage::inside(&mut s.t, &b); s.note(format!("damage: {w}")); bump("damaged-file", 1); data.extend(x) } else { data.extend(b) }
        parts.push((start, data.len(), bad));
    }
    let end = data.len();
    let tail = s.t.n(4);
    match tail { 0 => {} 1 => data.extend([0u8; 9]), 2 => { for _ in 0..s.t.range(1, 30) { data.push(s.t.n(256) as u8) } } _ => { let i = s.t.n(corpus().len()); data.extend(corpus()[i]) } }
    let mut p = Plan::draw(&mut s.t);
    if s.t.chance(1, 2) { p = p.fail(end, draw_fault(&mut s.t)) }
    s.note(format!("{n} classes in one stream of {} bytes, {}", data.len(), plan_text(&p)));
    s.sig.u(fp(&data));
    s.nontrivial = n > 1 || tail > 0 || p.fail.is_some();
    let mut r = Reader::new(&data, p);
    for (a, e, bad) in parts {
        let alone = load(&data[a..e], WHOLE)?;
        // a class that does not load on its own is no subject here, unless it was damaged on purpose
        if !bad && alone.res.is_err() { return Ok(()) }
        r.reset_counts();
        let res = guard("loading", || Class::read_from(&mut r))?;
        if r.pos > e { return viol("beyond", format!("the class ends at byte {e}; its load ({}) went to byte {}", if res.is_ok() { "successful" } else { "refused" }, r.pos)) }
        match res {
            Ok(c) => {
                if r.pos != e { return viol("short", format!("the class ends at byte {e}; its load stopped at {}", r.pos)) }
                if Ok(view_canon(&c)?) != outcome(&alone)? { return viol("content", "a class loaded from a longer stream differs from the same class alone") }
            }
            Err(e) => { bump("probe:refused in mid-stream", 1); if let Ok(_) = alone.res { return viol("refused", format!("a class that loads alone is refused in a longer stream: {e:?}")) } return Ok(()) }
        }
    }
    if p.fail.is_some() { bump("probe:fault right behind the last class", 1) }
    let s2 = r.log.0;
    drop(r);
    s.saw(s2);
    Ok(())
}

// ---- C12 ----
#[derive(Clone)]
enum Job { Load(Arc<Vec<u8>>, Plan), Save(Arc<Class>, Plan), Twin(Arc<Class>), Build(Arc<model::Class>, u64) }
#[derive(PartialEq, Clone, Debug)]
enum Done { Loaded(Result<Result<model::Class, String>, String>), Saved(Result<Vec<u8>, String>), Same(bool), }
fn perform(j: &Job) -> Result<Done, Viol> {
    Ok(match j {
        Job::Load(b, p) => Done::Loaded(outcome(&load(b, *p)?)?),
        Job::Save(c, p) => { let w = save(c, *p)?; Done::Saved(w.res.map(|_| w.out).map_err(|e| err_kind(&e))) }
        Job::Twin(c) => { let d = guard("cloning", || Class::clone(c))?; equal(c, &d, "a class and its clone")?; Done::Same(view_canon(&d)? == view_canon(c)?) }
        Job::Build(m, st) => { match guard("building", || build::class(m, *st))? { Ok(c) => { let w = save(&c, WHOLE)?; Done::Saved(w.res.map(|_| w.out).map_err(|e| err_kind(&e))) } Err(e) => return viol("build", e) } }
    })
}
/// An operation, and others inside calls of its stream (number of the call, operation).
type Task = (usize, Vec<(u64, usize)>);
fn perform_nested(pool: &[Job], (i, inner): &Task) -> Vec<(usize, Result<Done, Viol>)> {
    let got = std::rc::Rc::new(std::cell::RefCell::new(vec![]));
    for (calls, j) in inner {
        let (got, job, j) = (got.clone(), pool[*j].clone(), *j);
        crate::stream::nest(*calls, Box::new(move || { let r = perform(&job); got.borrow_mut().push((j, r)) }));
    }
    let r = perform(&pool[*i]);
    crate::stream::unnest();
    let mut got = got.take();
    got.push((*i, r));
    got
}
fn c12(s: &mut Sim) -> Check {
    let mut jobs_pool: Vec<Job> = vec![];
    for _ in 0..s.t.range(1, 3) {
        let p = *s.t.pick(&[gen::SMALL, gen::SMALL, gen::RICH, gen::DYNS]);
        let m = subject(s, p);
        let st = s.t.raw();
        let Ok(c) = guard("building", || build::class(&m, st))? else { return viol("build", "cannot build a class from a valid description") };
        let c = Arc::new(c);
        let b = if s.t.chance(1, 3) { let b = file_of(s, &m); damage::damage(&mut s.t, &b, corpus()[0]).0 } else { file_of(s, &m) };
        jobs_pool.push(Job::Save(c.clone(), Plan::draw(&mut s.t)));
        jobs_pool.push(Job::Save(c.clone(), Plan::draw(&mut s.t)));
        jobs_pool.push(Job::Load(Arc::new(b), Plan::draw(&mut s.t)));
        jobs_pool.push(Job::Twin(c));
        jobs_pool.push(Job::Build(Arc::new(m), st));
    }
    if s.t.chance(1, 2) { let i = s.t.n(corpus().len()); jobs_pool.push(Job::Load(Arc::new(corpus()[i].to_vec()), Plan::draw(&mut s.t))) }
    if s.t.chance(1, 2) { let f = draw_end(&mut s.t); let at = s.t.n(300); let i = s.t.n(jobs_pool.len()); if let Job::Save(_, p) | Job::Load(_, p) = &mut jobs_pool[i] { *p = p.fail(at, f) } }
    let k = s.t.range(2, 4);
    let nested = s.t.chance(1, 3);
    let plan: Vec<Vec<Task>> = (0..k).map(|_| (0..s.t.range(1, 3)).map(|_| {
        let i = s.t.n(jobs_pool.len());
        let inner = if nested { (0..s.t.n(3)).map(|_| (match s.t.n(3) { 0 => s.t.n(8), 1 => s.t.n(60), _ => s.t.n(600) } as u64, s.t.n(jobs_pool.len()))).collect() } else { vec![] };
        (i, inner)
    }).collect()).collect();
    // each operation alone, in a thread of its own
    let alone: Vec<Done> = jobs_pool.iter().map(|j| { let j = j.clone(); on_thread(0xA10E, move || perform(&j)) }).collect::<Result<_, _>>()?;
    let seed = s.t.raw();
    let switch = *s.t.pick(&[1000, 500, 100, 20]);
    let alloc_rate = *s.t.pick(&[0, 0, 5, 50, 300]);
    let hs: Vec<u64> = (0..k).map(|_| s.t.raw()).collect();
    s.note(format!("{k} threads, operations (and, by stream call, operations inside them) {plan:?}, switch rates {switch}/{alloc_rate} per mille of stream calls/allocations"));
    let jobs: Vec<Box<dyn FnOnce() -> Vec<(usize, Result<Done, Viol>)> + Send>> = plan.iter().map(|l| {
        let (l, pool) = (l.clone(), jobs_pool.clone());
        Box::new(move || l.iter().flat_map(|t| perform_nested(&pool, t)).collect::<Vec<_>>()) as Box<dyn FnOnce() -> Vec<(usize, Result<Done, Viol>)> + Send>
    }).collect();
    let out = sched::run(jobs, seed, switch, alloc_rate, &hs);
    bump("thread-switch", out.switches);
    s.sig.u(out.log);
    s.nontrivial = out.switches > 2;
    if let Some(t) = out.stuck { return viol("blocked", format!("thread {t} waits for another one; schedule {:?}", &out.trace[..out.trace.len().min(60)])) }
    for (t, r) in out.results.into_iter().enumerate() {
        let Some(r) = r else { return viol("lost", format!("thread {t} did not finish its operations")) };
        for (i, r) in r {
            let r = r?;
            if r != alone[i] { return viol("interference", format!("operation {i} on thread {t} has a different result than alone; schedule {:?}", &out.trace[..out.trace.len().min(60)])) }
        }
    }
    Ok(())
}

// ---- C14 ----
fn be32(b: &[u8], at: usize) -> u32 { u32::from_be_bytes(b[at..at + 4].try_into().unwrap()) }
fn c14(s: &mut Sim) -> Check {
    if s.t.chance(1, 3) {
        // unknown attributes everywhere, amid known ones
        let p = if s.t.n(2) == 0 { gen::SMALL } else { gen::DECL };
        let mut m = subject(s, p);
        for _ in 0..s.t.range(1, 6) {
            let mut g = gen::Gen::new(&mut s.t, gen::SMALL);
            match g.t.n(4) {
                0 => { let a = g.raw(model::Place::Class); let at = g.t.n(m.attrs.len() + 1); m.attrs.insert(at, a) }
                1 => if let Some(f) = m.fields.last_mut() { let a = g.raw(model::Place::Field); let at = g.t.n(f.attrs.len() + 1); f.attrs.insert(at, a) },
                2 => if let Some(f) = m.methods.last_mut() { let a = g.raw(model::Place::Method); let at = g.t.n(f.attrs.len() + 1); f.attrs.insert(at, a) },
                _ => for f in &mut m.methods { for x in &mut f.attrs { if let model::Attr::Code(c) = x { let a = g.raw(model::Place::Code); let at = g.t.n(c.attrs.len() + 1); c.attrs.insert(at, a) } } },
            }
        }
        bump("probe:classes with unknown attributes", 1);
        let m = model::canon(m);
        return trip(s, &m, 1);
    }
    let p = *s.t.pick(&[gen::DECL, gen::RICH, gen::DYNS, gen::CODE]);
    let m = subject(s, p);
    let b = file_of(s, &m);
    if load(&b, WHOLE)?.res.is_err() { return Ok(()) }
    let marks = dec::landmarks(&b);
    // extents: (length field, body start, body end); which are inside which
    let ext: Vec<(usize, usize, usize)> = marks.iter().filter(|x| x.2 == "attr-length").map(|x| (x.0, x.0 + 4, x.0 + 4 + be32(&b, x.0) as usize)).collect();
    if ext.is_empty() { return Ok(()) }
    let names = names_of(&b);
    let k = s.t.n(ext.len());
    let (lf, st, en) = ext[k];
    let name = names.get(&u16::from_be_bytes([b[lf - 2], b[lf - 1]])).cloned().unwrap_or_default();
    let outer: Vec<_> = ext.iter().filter(|e| e.1 <= lf && lf < e.2).copied().collect();
    // what the library interprets here; everything else is verbatim and any length is right
    let in_code = !outer.is_empty();
    let place = if in_code { model::Place::Code } else { place_of(&b, lf) };
    if !known(place, &name) { return Ok(()) }
    let mut f = b.clone();
    let len = en - st;
    let mode = s.t.n(4);
    let (what, claimed) = match mode {
        0 => { let d = s.t.range(1, 8); f[lf..lf + 4].copy_from_slice(&((len + d) as u32).to_be_bytes()); (format!("length {len} -> {} without more content", len + d), en + d) }
        1 => { if len == 0 { return Ok(()) } let d = s.t.range(1, len.min(8)); f[lf..lf + 4].copy_from_slice(&((len - d) as u32).to_be_bytes()); (format!("length {len} -> {} without less content", len - d), en - d) }
        m => {
            let d: isize = if m == 2 { s.t.range(1, 8) as isize } else { if len == 0 { return Ok(()) } -(s.t.range(1, len.min(8)) as isize) };
            if d > 0 { let pad: Vec<u8> = (0..d).map(|_| s.t.n(256) as u8).collect(); f.splice(en..en, pad); } else { f.drain((en as isize + d) as usize..en); }
            for e in outer.iter().chain([&ext[k]]) { let l = be32(&b, e.0) as isize + d; f[e.0..e.0 + 4].copy_from_slice(&(l as u32).to_be_bytes()) }
            (format!("{} bytes {} the content of {len}, length {}", d.abs(), if d > 0 { "behind" } else { "cut from" }, len as isize + d), (en as isize + d) as usize)
        }
    };
    s.note(format!("{name} at {lf}: {what}"));
    bump(["length-too-long", "length-too-short", "padded-attribute", "cut-attribute"][mode], 1);
    s.sig.u(fp(&f));
    s.nontrivial = true;
    if in_code { bump("probe:wrong lengths inside Code", 1) }
    let limit = outer.iter().map(|e| e.2 + if mode >= 2 { claimed } else { en } - en).fold(claimed, usize::max).max(claimed);
    let l = load(&f, Plan::draw(&mut s.t))?;
    s.saw(l.log);
    match l.res {
        Ok(_) => viol("accepted", format!("{name} at {lf} ({place:?}): {what}: loads")),
        Err(_) if l.used > limit => viol("escaped", format!("{name} at {lf} ({place:?}) ends at byte {limit} by its length; its load went to {}", l.used)),
        Err(_) => Ok(()),
    }
}
fn names_of(b: &[u8]) -> std::collections::BTreeMap<u16, String> {
    let mut out = std::collections::BTreeMap::new();
    let n = u16::from_be_bytes([b[8], b[9]]);
    let (mut i, mut p) = (1u16, 10usize);
    while i < n {
        match b[p] {
            1 => { let l = u16::from_be_bytes([b[p + 1], b[p + 2]]) as usize; out.insert(i, String::from_utf8_lossy(&b[p + 3..p + 3 + l]).into_owned()); p += 3 + l }
            3 | 4 | 9..=12 | 17 | 18 => p += 5, 5 | 6 => { p += 9; i += 1 } 15 => p += 4, _ => p += 3,
        }
        i += 1;
    }
    out
}
/// Which kind of declaration the attribute (not inside Code) whose length field is at `lf` belongs to.
fn place_of(b: &[u8], lf: usize) -> model::Place {
    let marks = dec::landmarks(b);
    // members: header marks; the class's own attributes come after all of them
    let counts: Vec<usize> = marks.iter().filter(|m| m.2 == "count").map(|m| m.0).collect();
    let h = marks.iter().find(|m| m.2 == "class-header").unwrap().0;
    let mut p = h + 6;
    let n16 = |p: usize| u16::from_be_bytes([b[p], b[p + 1]]) as usize;
    let _ = counts;
    p += 2 + 2 * n16(p);
    for pl in [model::Place::Field, model::Place::Method] {
        let n = n16(p);
        p += 2;
        let start = p;
        for _ in 0..n { p += 6; let a = n16(p); p += 2; for _ in 0..a { p += 6 + be32(b, p + 2) as usize } }
        if lf >= start && lf < p { return pl }
    }
    model::Place::Class
}
pub fn known(p: model::Place, name: &str) -> bool {
    use model::Place::*;
    match p {
        Code => matches!(name, "LineNumberTable" | "LocalVariableTable" | "LocalVariableTypeTable" | "RuntimeVisibleTypeAnnotations" | "RuntimeInvisibleTypeAnnotations" | "StackMapTable"),
        _ => match name {
            "Synthetic" | "Deprecated" | "Signature" | "RuntimeVisibleAnnotations" | "RuntimeInvisibleAnnotations" | "RuntimeVisibleTypeAnnotations" | "RuntimeInvisibleTypeAnnotations" => true,
            "SourceFile" | "InnerClasses" | "EnclosingMethod" | "BootstrapMethods" | "Module" | "ModulePackages" | "ModuleMainClass" | "NestHost" | "NestMembers" => p == Class,
            "ConstantValue" => p == Field,
            "Code" | "Exceptions" | "AnnotationDefault" | "MethodParameters" | "RuntimeVisibleParameterAnnotations" | "RuntimeInvisibleParameterAnnotations" => p == Method,
            _ => false,
        },
    }
}

// ---- C15 ----
fn c15(s: &mut Sim) -> Check {
    let mut files: Vec<Vec<u8>> = vec![];
    for _ in 0..s.t.range(1, 3) { files.push(maybe_damaged(s, 1, 3)?.0) }
    let mut classes: Vec<Class> = vec![];
    for _ in 0..s.t.range(1, 3) { classes.push(any_class(s)?) }
    // what a first attempt gives, each in a thread of its own
    let mut load0 = vec![];
    for f in &files { let f = f.clone(); load0.push(on_thread(0xF1, move || { let l = load(&f, WHOLE)?; Ok((outcome(&l)?, l.used, l.res.ok())) })?) }
    let mut save0: Vec<Result<Vec<u8>, String>> = vec![];
    for c in &classes { let c = c.clone(); save0.push(on_thread(0xF2, move || { let w = save(&c, WHOLE)?; Ok(w.res.map(|_| w.out).map_err(|e| err_kind(&e))) })?) }
    let views: Vec<_> = classes.iter().map(exact).collect::<Result<Vec<_>, _>>()?;
    let mut kept: Vec<(usize, Class)> = vec![];
    for b in files.iter() { s.sig.u(fp(b)) }
    let mut failed = 0;
    // now and then a long outage first: hundreds of attempts, nearly all of which fail
    if s.t.chance(1, 5) {
        let loads = s.t.n(3) > 0;
        let i = s.t.n(if loads { files.len() } else { classes.len() });
        let total = if loads { files[i].len() } else { save0[i].as_ref().map_or(50, |b| b.len()) };
        let times = s.t.range(20, 500).min(1_500_000 / (total + 100)).max(2);
        // at one place, or all over
        let at = if s.t.n(2) == 0 { Some(s.t.n(total + 1)) } else { None };
        for _ in 0..times {
            let at = at.unwrap_or_else(|| s.t.n(total + 1));
            let p = WHOLE.fail(at, draw_end(&mut s.t));
            failed += if loads { load(&files[i], p)?.res.is_err() } else { save(&classes[i], p)?.res.is_err() } as usize;
        }
        s.note(format!("{times} attempts to {} {i} with faults {}", if loads { "load" } else { "save" }, at.map_or("all over".into(), |a| format!("at byte {a}"))));
        bump("outage", 1);
    }
    for _ in 0..s.t.range(3, 12) {
        let faulty = s.t.chance(1, 2);
        let mut p = Plan::draw(&mut s.t);
        if s.t.chance(1, 2) {
            let i = s.t.n(files.len());
            if faulty { let f = draw_end(&mut s.t); p = p.fail(s.t.n(files[i].len() + 1), f) }
            let l = load(&files[i], p)?;
            s.saw(l.log);
            s.note(format!("load {i} {}: {}", plan_text(&p), if let Err(e) = &l.res { err_kind(e) } else { "ok".into() }));
            if l.res.is_err() { failed += 1 }
            if !faulty || l.res.is_ok() {
                let o = outcome(&l)?;
                if o != load0[i].0 { return viol("load-differs", format!("load {i}: {} after this history; as a first attempt: {}", show(&o), show(&load0[i].0))) }
                if let (Ok(a), Some(b)) = (&l.res, &load0[i].2) { equal(a, b, &format!("load {i} after this history and as a first attempt"))? }
                if l.used != load0[i].1 { return viol("load-differs", format!("load {i} consumes {} bytes after this history; as a first attempt {}", l.used, load0[i].1)) }
            }
            if let Ok(c) = l.res { if kept.len() < 3 { kept.push((i, c)) } }
        } else {
            let i = s.t.n(classes.len());
            let total = save0[i].as_ref().map_or(50, |b| b.len());
            if faulty { let f = draw_end(&mut s.t); p = p.fail(s.t.n(total + 1), f) }
            let w = save(&classes[i], p)?;
            s.saw(w.log);
            s.note(format!("save {i} {}: {}", plan_text(&p), if let Err(e) = &w.res { err_kind(e) } else { "ok".into() }));
            if w.res.is_err() { failed += 1 }
            if !faulty || w.res.is_ok() {
                let got = w.res.map(|_| w.out).map_err(|e| err_kind(&e));
                if got != save0[i] { return viol("save-differs", format!("save {i} gives {} after this history; as a first attempt {}", got.as_ref().map_or_else(|e| e.clone(), |b| format!("{} bytes", b.len())), save0[i].as_ref().map_or_else(|e| e.clone(), |b| format!("{} bytes", b.len())))) }
            }
            if exact(&classes[i])? != views[i] { return viol("class-changed", format!("class {i} is changed by being saved")) }
        }
    }
    s.nontrivial = failed > 0;
    for (i, c) in classes.iter().enumerate() { if exact(c)? != views[i] { return viol("class-changed", format!("class {i} changed during the history")) } }
    for (i, c) in &kept { if Ok(view_canon(c)?) != load0[*i].0 { return viol("class-changed", format!("the class loaded from file {i} changed after it was loaded")) } }
    // and at last everything works as at first
    for (i, f) in files.iter().enumerate() { let o = outcome(&load(f, WHOLE)?)?; if o != load0[i].0 { return viol("load-differs", format!("load {i} at the end: {}; as a first attempt: {}", show(&o), show(&load0[i].0))) } }
    for (i, c) in classes.iter().enumerate() { let w = save(c, WHOLE)?; if w.res.map(|_| w.out).map_err(|e| err_kind(&e)) != save0[i] { return viol("save-differs", format!("save {i} at the end differs from a first attempt")) } }
    Ok(())
}
/// Everything a class holds, in order.
fn exact(c: &Class) -> Result<Result<model::Class, String>, Viol> {
    let mut v = guard("examining the class", || proj::class(c))?;
    if let Ok(v) = &mut v { model::order_maps(v) }
    Ok(v)
}
