//! Runner: deterministic cases per stream, online oracles, three-valued verdicts, replay files, evidence.
use crate::api::{Api, Slot, LAST_PANIC_CALL, SLOT};
use crate::meta::Meta;
use crate::model::Model;
use crate::rng::{hash_str, Rng};
use rlibphonenumber::PhoneNumberUtil;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Env { pub meta: &'static Meta, pub model: Model<'static>, pub util: &'static PhoneNumberUtil, pub words: Vec<String>, pub seed: u64, pub thorough: bool, pub repo: String,
    /// over generated plans instead of the shipped ones
    pub synthetic: bool }

#[derive(Clone, Debug)]
pub struct Violation { pub stream: &'static str, pub idx: u64, pub sig: String, pub msg: String }
#[derive(Default)]
pub struct Obs {
    pub cases: u64, pub checks: u64, pub counters: BTreeMap<String, u64>, pub distinct: HashSet<u64>, pub samples: Vec<String>,
    pub violations: Vec<Violation>, pub harness_errors: Vec<String>, pub notes: BTreeMap<String, String>, pub calls: u64,
}
pub const DISTINCT_CAP: usize = 3_000_000;
impl Obs {
    pub fn merge(&mut self, o: Obs) {
        self.cases += o.cases; self.checks += o.checks; self.calls += o.calls;
        for (k, v) in o.counters { *self.counters.entry(k).or_default() += v; }
        for h in o.distinct { if self.distinct.len() < DISTINCT_CAP { self.distinct.insert(h); } }
        if self.samples.len() < 24 { self.samples.extend(o.samples.into_iter().take(3)); }
        self.violations.extend(o.violations);
        self.harness_errors.extend(o.harness_errors);
        self.notes.extend(o.notes);
    }
}
pub struct Case<'a> { pub e: &'a Env, pub api: Api<'a>, pub r: Rng, pub o: &'a mut Obs, pub idx: u64, pub stream: &'static str }
impl<'a> Case<'a> {
    pub fn m(&self) -> &'a Model<'static> { &self.e.model }
    pub fn meta(&self) -> &'static Meta { self.e.meta }
    pub fn count(&mut self, k: &str) { *self.o.counters.entry(k.to_string()).or_default() += 1; }
    pub fn add(&mut self, k: &str, n: u64) { *self.o.counters.entry(k.to_string()).or_default() += n; }
    /// this case exercised something: remember its input (deduplicated) and perhaps write it out
    pub fn seen(&mut self, what: &str) {
        let h = hash_str(what);
        if self.o.distinct.len() < DISTINCT_CAP { self.o.distinct.insert(h); }
        if self.o.samples.len() < 4 && (self.idx < 4 || h % 997 == 0) { self.o.samples.push(format!("{}: {}", self.stream, what)); }
    }
    pub fn fail(&mut self, sig: &str, msg: String) {
        if self.o.violations.len() < 40 { self.o.violations.push(Violation { stream: self.stream, idx: self.idx, sig: sig.to_string(), msg }); }
    }
    /// oracle: `got` must be what it should be
    pub fn eq<T: PartialEq + Debug>(&mut self, sig: &str, got: T, want: T, ctx: impl FnOnce() -> String) -> bool {
        self.o.checks += 1;
        if got == want { return true; }
        self.fail(sig, format!("{}: got {:?}, expected {:?}", ctx(), got, want));
        false
    }
    pub fn ok(&mut self, sig: &str, cond: bool, ctx: impl FnOnce() -> String) -> bool {
        self.o.checks += 1;
        if !cond { self.fail(sig, ctx()); }
        cond
    }
}
pub type CaseFn = fn(&mut Case);
#[derive(Clone)]
pub struct Stream { pub name: &'static str, pub quick: u64, pub thorough: u64, pub f: CaseFn }
pub struct Prop {
    pub id: &'static str, pub streams: Vec<Stream>, pub rule: &'static str,
    /// counters that must reach a minimum for the run to count as an observation
    pub need: Vec<(&'static str, u64)>,
}
pub fn case_seed(seed: u64, prop: &str, stream: &str, idx: u64) -> u64 {
    let mut x = seed ^ hash_str(prop).rotate_left(17) ^ hash_str(stream) ^ idx.wrapping_mul(0x9E3779B97F4A7C15);
    crate::rng::splitmix(&mut x)
}
pub fn run_case(e: &Env, prop: &str, s: &Stream, idx: u64, o: &mut Obs) {
    let mut c = Case { e, api: Api { u: e.util }, r: Rng::new(case_seed(e.seed, prop, s.name, idx)), o, idx, stream: s.name };
    LAST_PANIC_CALL.with(|l| *l.borrow_mut() = None);
    let r = catch_unwind(AssertUnwindSafe(|| (s.f)(&mut c)));
    c.o.cases += 1;
    if let Err(p) = r {
        let what = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        let whre = LAST_PANIC_AT.with(|l| l.borrow().clone());
        match LAST_PANIC_CALL.with(|l| l.borrow_mut().take()) {
            Some(call) => {
                let op = call.split('(').next().unwrap_or("").to_string();
                c.fail(&format!("panic:{op}"), format!("library panicked in {call}: {what} at {whre}"))
            }
            None => o.harness_errors.push(format!("monitor panicked in {prop}/{}/{idx}: {what} at {whre}", s.name)),
        }
    }
}
thread_local! { static LAST_PANIC_AT: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) } }
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let s = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC_AT.with(|l| *l.borrow_mut() = s);
    }));
}
/// is the hook set above still the one that is called?
pub fn panic_hook_works() -> bool {
    LAST_PANIC_AT.with(|l| l.borrow_mut().clear());
    let _ = catch_unwind(|| panic!("to see who is called"));
    LAST_PANIC_AT.with(|l| l.borrow().contains("core.rs"))
}
fn thread_cpu(tid: u64) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let rest = s.rsplit_once(')')?.1;
    let v: Vec<&str> = rest.split_whitespace().collect();
    Some(v.get(11)?.parse::<u64>().ok()? + v.get(12)?.parse::<u64>().ok()?)
}
pub fn gettid() -> u64 {
    std::fs::read_link("/proc/thread-self").ok().and_then(|p| p.file_name().and_then(|f| f.to_str()).and_then(|s| s.parse().ok())).unwrap_or(0)
}
/// CPU ticks (1/100 s) one library call may burn before it counts as not returning
const HANG_TICKS: u64 = 1500;
pub enum Outcome { Done(Obs), Hang { stream: String, idx: u64 }, /** the case that is inside a call */ Stalled(Option<(String, u64)>) }

pub fn run_prop(e: &'static Env, p: &'static Prop, crash: Option<&std::fs::File>, scale: f64) -> Outcome {
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
    let mut total = Obs::default();
    // a sanitizer build runs the same calls many times slower
    let hang = if std::env::var_os("MONITOR_SLOW").is_some() { HANG_TICKS * 8 } else { HANG_TICKS };
    if let Some(f) = crash { crate::alloc::crash_file(std::os::fd::AsRawFd::as_raw_fd(f)); }
    for (si, s) in p.streams.iter().enumerate() {
        let n = ((if e.thorough { s.thorough } else { s.quick }) as f64 * scale).ceil() as u64;
        let next = Arc::new(AtomicU64::new(0));
        let stop = Arc::new(AtomicBool::new(false));
        let left = Arc::new(AtomicU64::new(threads as u64));
        let out = Arc::new(Mutex::new(Vec::<Obs>::new()));
        let slots: Vec<Arc<Slot>> = (0..threads).map(|_| Arc::new(Slot::default())).collect();
        let chunk = (n / (threads as u64 * 16)).clamp(1, 2048);
        for t in 0..threads {
            let (next, stop, left, out, slot) = (next.clone(), stop.clone(), left.clone(), out.clone(), slots[t].clone());
            let crash = crash.map(|f| f.try_clone().unwrap());
            std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
                slot.tid.store(gettid(), Ordering::Relaxed);
                slot.stream.store(si as u64, Ordering::Relaxed);
                SLOT.with(|s| *s.borrow_mut() = Some(slot.clone()));
                let mut o = Obs::default();
                while !stop.load(Ordering::Relaxed) {
                    let a = next.fetch_add(chunk, Ordering::Relaxed);
                    if a >= n { break; }
                    for idx in a..(a + chunk).min(n) {
                        slot.idx.store(idx, Ordering::Relaxed);
                        crate::alloc::at_case(si as u64 + 1, idx);
                        if let Some(f) = &crash {
                            let mut b = [0u8; 16];
                            b[..8].copy_from_slice(&(si as u64 + 1).to_le_bytes());
                            b[8..].copy_from_slice(&idx.to_le_bytes());
                            let _ = f.write_at(&b, (t as u64 + 1) * 16);
                        }
                        run_case(e, p.id, &p.streams[si], idx, &mut o);
                        if o.violations.len() >= 20 || o.harness_errors.len() >= 5 { stop.store(true, Ordering::Relaxed); break; }
                    }
                }
                if let Some(f) = &crash { let _ = f.write_at(&[0u8; 16], (t as u64 + 1) * 16); }
                o.calls = crate::api::CALLS.with(|c| c.get());
                out.lock().unwrap().push(o);
                left.fetch_sub(1, Ordering::SeqCst);
            }).expect("spawn");
        }
        // watchdog: a call that keeps burning CPU without returning is a violation; no progress without CPU is inconclusive here
        let mut last: Vec<(u64, u64, u64)> = vec![(0, 0, 0); threads];
        let start = Instant::now();
        let (mut beat, mut lastsum, mut idle) = (Instant::now(), 0u64, 0u32);
        while left.load(Ordering::SeqCst) > 0 {
            std::thread::sleep(Duration::from_millis(if start.elapsed().as_millis() < 500 { 5 } else { 50 }));
            if beat.elapsed() < Duration::from_secs(1) { continue; }
            beat = Instant::now();
            let mut sum = 0u64;
            for (t, sl) in slots.iter().enumerate() {
                let seq = sl.seq.load(Ordering::Relaxed);
                let tid = sl.tid.load(Ordering::Relaxed);
                let Some(cpu) = thread_cpu(tid) else { continue };
                sum += seq + cpu;
                if last[t].0 != seq || seq % 2 == 0 { last[t] = (seq, cpu, 0); continue; }
                last[t].2 = cpu - last[t].1;
                if last[t].2 > hang { return Outcome::Hang { stream: s.name.to_string(), idx: sl.idx.load(Ordering::Relaxed) }; }
            }
            if sum == lastsum { idle += 1 } else { idle = 0; lastsum = sum }
            if idle > 90 { return Outcome::Stalled(slots.iter().find(|s| s.seq.load(Ordering::Relaxed) % 2 == 1).map(|sl| (s.name.to_string(), sl.idx.load(Ordering::Relaxed)))); }
        }
        for o in std::mem::take(&mut *out.lock().unwrap()) { total.merge(o); }
        total.notes.insert(format!("cases_in_{}", s.name), n.to_string());
        if total.violations.len() >= 20 || !total.harness_errors.is_empty() { break; }
    }
    Outcome::Done(total)
}
