//! Batches of simulated runs: seeds, worker processes, attribution of crashes and hangs,
//! minimisation, replay files and evidence.
use crate::scen;
use crate::sim::{self, Sim, Viol};
use crate::tape::{mix, Tape};
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::io::{Read, Write};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::process::{Child, Command, Stdio};
use std::sync::atomic::Ordering;
use std::time::{Duration, Instant};

pub struct RunOut { pub res: Result<(), Viol>, pub trace: Vec<String>, pub sig: u64, pub nontrivial: bool, pub tape: Vec<u64>, pub harness: bool }

pub fn run_seed(prop: &str, base: u64, i: u64) -> u64 {
    let p = prop.bytes().fold(0u64, |a, b| mix(a, b as u64));
    mix(mix(base, p), i)
}

/// One run, on a fresh thread (fresh hash keys, fixed stack).
pub fn run_one(prop: &str, tape: Tape) -> RunOut {
    let f = scen::by_name(prop).unwrap_or_else(|| { eprintln!("no scenario {prop}"); std::process::exit(2) });
    let h = std::thread::Builder::new().stack_size(2 << 20).spawn(move || {
        let mut tape = tape;
        crate::entropy::set_thread_seed(tape.raw());
        let mut s = Sim::new(tape);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut s)));
        let harness = r.is_err();
        let res = r.unwrap_or(Ok(()));
        let used = s.t.used();
        s.t.vals.truncate(used);
        RunOut { res, trace: s.trace, sig: s.sig.0, nontrivial: s.nontrivial, tape: s.t.vals, harness }
    }).unwrap();
    h.join().unwrap()
}

fn worker(a: &[String]) -> i32 {
    let prop = &a[0];
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let (base, first, stride, secs, max, dir) = (n(1), n(2), n(3), n(4), n(5), a[6].clone());
    let status = fs::OpenOptions::new().write(true).create(true).truncate(true).open(format!("{dir}/status{first}")).unwrap();
    let start = Instant::now();
    let mut i = first;
    let mut runs = 0u64;
    let mut sigs: BTreeSet<u64> = BTreeSet::new();
    let mut samples: Vec<String> = vec![];
    let mut bad: Option<(u64, Viol)> = None;
    while i < max && start.elapsed() < Duration::from_secs(secs) {
        let _ = status.write_all_at(&(i + 1).to_le_bytes(), 0);
        let out = run_one(prop, Tape::seeded(run_seed(prop, base, i)));
        runs += 1;
        // a run the harness could not carry out counts for nothing; too many of them and there is no verdict
        if out.harness { println!("HARNESS {i}"); i += stride; runs -= 1; continue }
        if out.nontrivial { sigs.insert(out.sig); }
        if out.nontrivial && samples.len() < 2 { samples.push(format!("run {i}: {}", out.trace.iter().take(12).cloned().collect::<Vec<_>>().join("; "))) }
        if let Err(v) = out.res { bad = Some((i, v)); break }
        i += stride;
    }
    let _ = status.write_all_at(&0u64.to_le_bytes(), 0);
    let mut f = fs::File::create(format!("{dir}/sigs{first}")).unwrap();
    let mut b = Vec::with_capacity(sigs.len() * 8);
    for s in &sigs { b.extend(s.to_le_bytes()) }
    f.write_all(&b).unwrap();
    println!("RUNS {runs}");
    println!("STEPS {}", sim::STEPS.load(Ordering::Relaxed));
    println!("OPS {}", sim::OPS.load(Ordering::Relaxed));
    for (k, v) in sim::counts() { println!("COUNT {v} {k}") }
    for s in samples { println!("SAMPLE {}", s.replace('\n', " ")) }
    if let Some((i, v)) = bad { println!("VIOL {i} {} {}", v.kind, v.msg.replace('\n', " ")); return 1 }
    0
}

fn write_tape(path: &str, t: &[u64]) { fs::write(path, t.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(" ")).unwrap() }
fn read_tape(s: &str) -> Vec<u64> { s.split_whitespace().filter_map(|x| x.parse().ok()).collect() }

/// exec PROP TAPEFILE [SEED..]: one run from a tape, after the runs with the given seeds; prints what happened.
fn exec(a: &[String]) -> i32 {
    let tape = read_tape(&fs::read_to_string(&a[1]).unwrap());
    if let Some(h) = a.get(2) { for s in read_tape(&fs::read_to_string(h).unwrap()) { run_one(&a[0], Tape::seeded(s)); } }
    let out = run_one(&a[0], Tape::replay(tape));
    if out.harness { return 2 }
    println!("SIG {}", out.sig);
    for t in &out.trace { println!("TRACE {}", t.replace('\n', " ")) }
    match out.res { Ok(()) => 0, Err(v) => { println!("KIND {}", v.kind); println!("MSG {}", v.msg.replace('\n', " ")); 1 } }
}

struct Exec { kind: Option<String>, msg: String, trace: Vec<String>, sig: String }
fn cpu_ticks(pid: u32) -> Option<u64> {
    let s = fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
    let f: Vec<&str> = s.rsplit(')').next()?.split_whitespace().collect();
    Some(f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?)
}
/// A process that uses no CPU time for this long waits for something that will never happen.
const STILL: Duration = Duration::from_secs(30);
fn me() -> String { std::env::current_exe().unwrap().to_string_lossy().into_owned() }

/// The same addresses in every process, so that not even code that looks at them escapes replay.
fn fixed(c: &mut Command) -> &mut Command {
    extern "C" { fn personality(p: std::ffi::c_ulong) -> std::ffi::c_int; }
    // ... and an allocation beyond all reason fails in this process instead of ending another one
    extern "C" { fn setrlimit(r: i32, l: *const [u64; 2]) -> i32; }
    unsafe { std::os::unix::process::CommandExt::pre_exec(c, || { personality(0x0040000); setrlimit(9, &[4 << 30, 4 << 30]); Ok(()) }) }
}

fn exec_child(prop: &str, hist: &[u64], tape: &[u64], dir: &str, cpu_limit: u64) -> Exec {
    let file = format!("{dir}/cand");
    write_tape(&file, tape);
    write_tape(&format!("{file}-history"), hist);
    let mut c = fixed(&mut Command::new(me())).args(["exec", prop, &file, &format!("{file}-history")]).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().unwrap();
    let mut so = c.stdout.take().unwrap();
    let mut se = c.stderr.take().unwrap();
    let h = std::thread::spawn(move || { let mut v = vec![]; let _ = so.read_to_end(&mut v); String::from_utf8_lossy(&v).into_owned() });
    let h2 = std::thread::spawn(move || { let mut v = vec![]; let _ = se.read_to_end(&mut v); String::from_utf8_lossy(&v).into_owned() });
    let mut hung = false;
    let pid = c.id();
    let mut seen = (0, Instant::now());
    let st = loop {
        if let Some(st) = c.try_wait().unwrap() { break st }
        let t = cpu_ticks(pid).unwrap_or(0);
        if t != seen.0 { seen = (t, Instant::now()) }
        if t > cpu_limit * 100 || seen.1.elapsed() > STILL { hung = true; let _ = c.kill(); break c.wait().unwrap() }
        std::thread::sleep(Duration::from_millis(2));
    };
    let out = h.join().unwrap();
    let err = h2.join().unwrap();
    let line = |p: &str| out.lines().find_map(|l| l.strip_prefix(p)).map(|s| s.to_string());
    let trace = out.lines().filter_map(|l| l.strip_prefix("TRACE ")).map(|s| s.to_string()).collect();
    let (kind, msg) = if hung { (Some("hang".into()), format!("no end after {cpu_limit} s of CPU time, or no progress for {} s", STILL.as_secs())) }
        else if let Some(s) = st.signal() { (Some(format!("crash-signal-{s}")), err.lines().rev().take(4).collect::<Vec<_>>().join(" | ")) }
        else { match st.code() { Some(0) => (None, String::new()), Some(1) => (line("KIND "), line("MSG ").unwrap_or_default()), _ => (Some("harness".into()), err) } };
    Exec { kind, msg, trace, sig: line("SIG ").unwrap_or_default() }
}

/// Shrinks the tape while the same kind of violation persists.
fn minimise(prop: &str, hist: &[u64], tape: Vec<u64>, kind: &str, dir: &str, secs: u64) -> (Vec<u64>, u64) {
    let start = Instant::now();
    let mut best = tape;
    let mut tried = 0;
    let limit = Duration::from_secs(secs);
    let fails = |t: &[u64], tried: &mut u64| { *tried += 1; exec_child(prop, hist, t, dir, 20).kind.as_deref() == Some(kind) };
    // trailing draws read as zero
    let mut progress = true;
    while progress && start.elapsed() < limit {
        progress = false;
        let mut size = (best.len() / 2).max(1);
        while size >= 1 && start.elapsed() < limit {
            let mut at = 0;
            while at < best.len() && start.elapsed() < limit {
                let end = (at + size).min(best.len());
                let mut c = best.clone();
                c.drain(at..end);
                if fails(&c, &mut tried) { best = c; progress = true; continue }
                if best[at..end].iter().any(|v| *v != 0) {
                    let mut c = best.clone();
                    c[at..end].fill(0);
                    if fails(&c, &mut tried) { best = c; progress = true }
                }
                at = end;
            }
            if size == 1 { break }
            size /= 2;
        }
        for i in 0..best.len() {
            if start.elapsed() >= limit { break }
            while best[i] > 1 {
                let mut c = best.clone();
                c[i] /= 2;
                if fails(&c, &mut tried) { best = c; progress = true } else { break }
            }
        }
    }
    while best.last() == Some(&0) { best.pop(); }
    (best, tried)
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
    }
    o.push('"');
    o
}

struct W { c: Child, first: u64, out: Option<std::thread::JoinHandle<String>>, last: (u64, u64), still: (u64, Instant), done: Option<std::process::ExitStatus>, hung: bool }

fn check(a: &[String]) -> i32 {
    let prop = a[0].clone();
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let tier = if a.get(1).map_or(false, |x| x == "thorough") { "thorough".to_string() } else if tier == "thorough" { tier } else { "quick".into() };
    let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let secs: u64 = std::env::var("SIM_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "quick" { scen::quick_secs(&prop) } else { 600 });
    let max: u64 = std::env::var("SIM_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(u64::MAX);
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let dir = format!("{root}/.build/run-{prop}-{}", std::process::id());
    fs::create_dir_all(&dir).unwrap();
    fs::create_dir_all(format!("{root}/evidence")).unwrap();
    fs::create_dir_all(format!("{root}/replays")).unwrap();
    println!("seed {base} property {prop} tier {tier}");
    if let Err(e) = crate::scen::selfcheck() { eprintln!("self-check failed: {e}"); return 2 }
    let start = Instant::now();
    let n = std::env::var("SIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |x| x.get()) as u64).clamp(1, 16);
    let mut ws: Vec<W> = (0..n).map(|k| {
        let mut c = fixed(&mut Command::new(me())).args(["worker", &prop, &base.to_string(), &k.to_string(), &n.to_string(), &secs.to_string(), &max.to_string(), &dir])
            .stdout(Stdio::piped()).stderr(fs::File::create(format!("{dir}/err{k}")).unwrap()).spawn().unwrap();
        let mut so = c.stdout.take().unwrap();
        W { c, first: k, out: Some(std::thread::spawn(move || { let mut v = vec![]; let _ = so.read_to_end(&mut v); String::from_utf8_lossy(&v).into_owned() })), last: (0, 0), still: (0, Instant::now()), done: None, hung: false }
    }).collect();
    let cur = |k: u64| -> u64 { fs::read(format!("{dir}/status{k}")).ok().and_then(|b| b.try_into().ok()).map_or(0, u64::from_le_bytes) };
    let mut found = false;
    loop {
        for w in &mut ws {
            if w.done.is_some() { continue }
            if let Some(st) = w.c.try_wait().unwrap() { w.done = Some(st); if !st.success() { found = true } continue }
            // CPU time spent on one run
            let i = cur(w.first);
            let t = cpu_ticks(w.c.id()).unwrap_or(0);
            if i != w.last.0 { w.last = (i, t) }
            if t != w.still.0 { w.still = (t, Instant::now()) }
            if i == w.last.0 && (t.saturating_sub(w.last.1) > 60 * 100 || w.still.1.elapsed() > STILL) { w.hung = true; let _ = w.c.kill(); w.done = Some(w.c.wait().unwrap()); found = true }
        }
        if ws.iter().all(|w| w.done.is_some()) { break }
        if found {
            // give the others a moment to report theirs, then stop
            std::thread::sleep(Duration::from_millis(300));
            for w in &mut ws { if w.done.is_none() { if let Some(st) = w.c.try_wait().unwrap() { w.done = Some(st) } else { let _ = w.c.kill(); let _ = w.c.wait(); w.done = Some(ExitStatusExt::from_raw(0)) } } }
            break;
        }
        std::thread::sleep(Duration::from_millis(50));
    }
    let mut runs = 0u64; let mut steps = 0u64; let mut ops = 0u64;
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples = vec![];
    let mut sigs: BTreeSet<u64> = BTreeSet::new();
    let mut bad: Vec<(u64, String, String)> = vec![];
    let mut broken = None;
    let mut lost = vec![];
    for w in &mut ws {
        let out = w.out.take().unwrap().join().unwrap();
        for l in out.lines() {
            let (k, rest) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "RUNS" => runs += rest.parse::<u64>().unwrap_or(0), "STEPS" => steps += rest.parse::<u64>().unwrap_or(0), "OPS" => ops += rest.parse::<u64>().unwrap_or(0),
                "COUNT" => if let Some((v, k)) = rest.split_once(' ') { *counts.entry(k.into()).or_default() += v.parse::<u64>().unwrap_or(0) },
                "SAMPLE" => samples.push(rest.to_string()),
                "VIOL" => { let mut p = rest.splitn(3, ' '); bad.push((p.next().unwrap().parse().unwrap(), p.next().unwrap_or("").into(), p.next().unwrap_or("").into())) }
                "HARNESS" => lost.push(format!("harness panic in run {rest}: {}", fs::read_to_string(format!("{dir}/err{}", w.first)).unwrap_or_default().lines().next().unwrap_or(""))),
                _ => {}
            }
        }
        if let Ok(b) = fs::read(format!("{dir}/sigs{}", w.first)) { for c in b.chunks_exact(8) { sigs.insert(u64::from_le_bytes(c.try_into().unwrap())); } }
        let st = w.done.unwrap();
        let i = cur(w.first);
        if w.hung { bad.push((i - 1, "hang".into(), "no end after 60 s of CPU time, or no progress".into())) }
        else if let Some(s) = st.signal() { if s != 9 && i > 0 { bad.push((i - 1, format!("crash-signal-{s}"), fs::read_to_string(format!("{dir}/err{}", w.first)).unwrap_or_default().chars().take(400).collect())) } else if s == 9 && i > 0 && !found { broken = Some("a worker was killed".into()) } }
        else if st.code() == Some(2) && broken.is_none() { broken = Some(format!("worker error: {}", fs::read_to_string(format!("{dir}/err{}", w.first)).unwrap_or_default())) }
    }
    let wall = start.elapsed().as_secs_f64();
    if !lost.is_empty() { eprintln!("{} runs not carried out, first: {}", lost.len(), lost[0]) }
    if lost.len() as u64 * 1000 > runs { broken = Some("too many runs were not carried out".into()) }
    if bad.is_empty() { if let Some(b) = broken { eprintln!("{b}"); return 2 } }
    bad.sort();
    let mut code = 0;
    let mut viols = 0;
    let mut unsure = false;
    for (i, kind, msg) in bad.clone() {
        // the run again, by itself, with its tape
        let tape = if kind.starts_with("crash") || kind == "hang" {
            // the tape of a run that dies is what it would draw: record as much as it used
            tape_of_dying(&prop, run_seed(&prop, base, i), &dir)
        } else { run_one(&prop, Tape::seeded(run_seed(&prop, base, i))).tape };
        let mut again = exec_child(&prop, &[], &tape, &dir, 90);
        let mut hist: Vec<u64> = vec![];
        if again.kind.is_none() {
            // it took the earlier runs of the same process: how many of them?
            let all: Vec<u64> = (0..i / n).map(|k| run_seed(&prop, base, i % n + k * n)).collect();
            let mut k = 1;
            while again.kind.is_none() && !all.is_empty() {
                hist = all[all.len().saturating_sub(k)..].to_vec();
                again = exec_child(&prop, &hist, &tape, &dir, 400);
                if k >= all.len() { break }
                k *= 4;
            }
            // leave out what is not needed
            let begun = Instant::now();
            let mut size = (hist.len() / 2).max(1);
            while again.kind.is_some() && begun.elapsed() < Duration::from_secs(30) {
                let mut at = 0;
                while at < hist.len() && begun.elapsed() < Duration::from_secs(30) {
                    let mut c = hist.clone();
                    c.drain(at..(at + size).min(hist.len()));
                    if exec_child(&prop, &c, &tape, &dir, 90).kind == again.kind { hist = c } else { at += size }
                }
                if size == 1 { break }
                size /= 2;
            }
        }
        if again.kind.is_none() || again.kind.as_deref() == Some("harness") {
            eprintln!("run {i} reported {kind} ({msg}) but its replay did not ({:?} {}): not deterministic, no verdict", again.kind, again.msg);
            unsure = true;
            continue;
        }
        let kind = again.kind.clone().unwrap();
        let (tape, tried) = if kind == "hang" { (tape, 0) } else { minimise(&prop, &hist, tape, &kind, &dir, 25) };
        let fin = exec_child(&prop, &hist, &tape, &dir, 90);
        let path = format!("{root}/replays/{prop}-{}.json", run_seed(&prop, base, i));
        let t = fin.trace.iter().map(|s| format!("    {}", js(s))).collect::<Vec<_>>().join(",\n");
        fs::write(&path, format!("{{\n  \"property\": {},\n  \"verif_seed\": {base},\n  \"run\": {i},\n  \"run_seed\": {},\n  \"kind\": {},\n  \"message\": {},\n  \"signature\": {},\n  \"minimised_with_runs\": {tried},\n  \"after_runs_with_seeds\": \"{}\",\n  \"trace\": [\n{t}\n  ],\n  \"tape\": \"{}\"\n}}\n",
            js(&prop), run_seed(&prop, base, i), js(&kind), js(&fin.msg), js(&fin.sig), hist.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(" "), tape.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(" "))).unwrap();
        if !hist.is_empty() { println!("  after {} earlier runs in the same process", hist.len()) }
        for l in fin.trace.iter().take(40) { println!("  {l}") }
        println!("  {kind}: {}", fin.msg);
        println!("VIOLATION property={prop} replay={path}");
        code = 1;
        viols = bad.len();
        break;
    }
    if code == 0 && unsure { return 2 }
    let (faults, probes): (Vec<_>, Vec<_>) = counts.iter().partition(|(k, _)| !k.starts_with("probe:"));
    let obj = |v: &[(&String, &u64)]| format!("{{{}}}", v.iter().map(|(k, v)| format!("{}: {v}", js(k.trim_start_matches("probe:")))).collect::<Vec<_>>().join(", "));
    let ev = format!(
        "{{\n\"property\": {}, \"tier\": {}, \"seed\": {base}, \"level\": \"exploration\",\n\"coverage\": {{\n \"evaluations\": {runs},\n \"distinct_nontrivial\": {},\n \"rule\": {},\n \"samples\": [{}],\n \"simulated_steps\": {steps},\n \"operations_of_code_under_test\": {ops},\n \"runs_per_hour\": {:.0},\n \"steps_per_hour\": {:.0},\n \"simulated_time\": \"the code has no clock; time is counted in stream calls (simulated_steps)\",\n \"seeds\": \"run i uses mix(VERIF_SEED, property, i), i = 0..{runs}\",\n \"faults_injected\": {},\n \"conditions_reached\": {},\n \"components\": {},\n \"exhaustive\": false\n}},\n\"assumptions\": {},\n\"wall_s\": {wall:.2}, \"violations\": {viols}\n}}\n",
        js(&prop), js(&tier), sigs.len(), js(scen::rule(&prop)), samples.iter().take(6).map(|s| js(s)).collect::<Vec<_>>().join(", "),
        runs as f64 / wall * 3600.0, steps as f64 / wall * 3600.0, obj(&faults), obj(&probes),
        "{\"real\": [\"all of coffer, wtf-8 and coffer_macros as built from /repo\", \"std::io adaptors, std HashMap, once_cell, indexmap\"], \"simulated\": [\"streams and store (stream.rs)\", \"thread scheduler (sched.rs)\", \"operating-system randomness (entropy.rs)\"], \"instrumented\": [\"global allocator (counts, scheduling points)\"]}",
        "[\"the reference encoder and decoder in sim/src follow JVMS chapter 4; they are cross-checked against each other in every run\"]",
    );
    fs::write(format!("{root}/evidence/{prop}.json"), ev).unwrap();
    let _ = fs::remove_dir_all(&dir);
    println!("{runs} runs, {} distinct, {steps} steps, {ops} operations, {wall:.1} s: {}", sigs.len(), if code == 0 { "held" } else { "VIOLATED" });
    code
}

/// A run that kills its process leaves no tape: ask a child to write its draws as it goes.
fn tape_of_dying(prop: &str, seed: u64, dir: &str) -> Vec<u64> {
    let f = format!("{dir}/dying");
    let mut c = fixed(&mut Command::new(me())).args(["dying", prop, &seed.to_string(), &f]).stdout(Stdio::null()).stderr(Stdio::null()).spawn().unwrap();
    let pid = c.id();
    let mut seen = (0, Instant::now());
    loop {
        if c.try_wait().unwrap().is_some() { break }
        let t = cpu_ticks(pid).unwrap_or(0);
        if t != seen.0 { seen = (t, Instant::now()) }
        if t > 7000 || seen.1.elapsed() > STILL { let _ = c.kill(); let _ = c.wait(); break }
        std::thread::sleep(Duration::from_millis(10));
    }
    fs::read(&f).map(|b| b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect()).unwrap_or_default()
}

fn replay(a: &[String]) -> i32 {
    let s = fs::read_to_string(&a[0]).unwrap();
    let field = |k: &str| -> Option<String> { let p = s.find(&format!("\"{k}\": \""))? + k.len() + 5; let rest = &s[p..]; Some(rest[..rest.find('"')?].to_string()) };
    let (prop, kind, sig, tape) = (field("property").unwrap(), field("kind").unwrap(), field("signature").unwrap_or_default(), read_tape(&field("tape").unwrap()));
    let dir = format!("{}/coffersim-replay-{}", std::env::temp_dir().display(), std::process::id());
    fs::create_dir_all(&dir).unwrap();
    let e = exec_child(&prop, &read_tape(&field("after_runs_with_seeds").unwrap_or_default()), &tape, &dir, 400);
    let _ = fs::remove_dir_all(&dir);
    for l in &e.trace { println!("  {l}") }
    println!("  {:?}: {}", e.kind, e.msg);
    if e.kind.as_deref() == Some(&kind) {
        println!("{}", if e.sig == sig { "identical execution" } else { "same violation, different execution" });
        println!("VIOLATION property={prop} replay={}", a[0]);
        1
    } else { println!("not reproduced"); 0 }
}

/// determinism PROP N: digests of the first N runs, for comparison between processes.
fn digests(a: &[String]) -> i32 {
    let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    for i in 0..a[1].parse::<u64>().unwrap() {
        let seed = run_seed(&a[0], base, i);
        let o = run_one(&a[0], Tape::seeded(seed));
        if o.harness { return 2 }
        let r = run_one(&a[0], Tape::replay(o.tape.clone()));
        println!("{i} {:016x} {:016x} {} {}", o.sig, r.sig, o.tape.len(), o.res.as_ref().err().map_or("ok".into(), |v| format!("{} {}", v.kind, v.msg.replace('\n', " ").chars().take(600).collect::<String>())));
    }
    0
}

pub fn main(a: &[String]) -> i32 {
    let r = &a[1.min(a.len())..];
    match a.first().map(|s| s.as_str()) {
        Some("check") => check(r),
        Some("worker") => worker(r),
        Some("exec") => exec(r),
        Some("replay") => replay(r),
        Some("digests") => digests(r),
        Some("times") => { for i in 0..r[1].parse::<u64>().unwrap() { let t = Instant::now(); let o = run_one(&r[0], Tape::seeded(run_seed(&r[0], 1, i))); println!("{:.3} {}", t.elapsed().as_secs_f64(), o.trace.join("; ")) } 0 }
        Some("dying") => { crate::tape::record_to(&r[2]); run_one(&r[0], Tape::seeded(r[1].parse().unwrap())); 0 }
        Some("selfcheck") => match scen::selfcheck() { Ok(()) => { println!("ok"); 0 } Err(e) => { println!("{e}"); 2 } },
        _ => { eprintln!("usage: check PROP [thorough] | replay FILE | digests PROP N | selfcheck"); 2 }
    }
}
