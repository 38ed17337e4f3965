// Monitors that need several instances, threads or processes: C25, C26, C27. (included into props.rs)
use rlibphonenumber::{PhoneNumberUtil, PHONE_NUMBER_UTIL};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Barrier;
use std::time::{Duration, Instant};

/// One call of the public interface with its arguments: the unit of a recorded history.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Parse(String, String), ParseRaw(String, String), Format(Num, F), Original(Num, String), Carrier(Num, String), Mobile(Num, String, bool), Ooc(Num, String), Alpha(Num, String),
    Queries(Num, String), Match(Num, Num), Truncate(Num), Tables(String, i32), Examples(String), Letters(String), Lengths(Num),
}
impl Op {
    pub fn run(&self, a: &Api) -> String {
        match self {
            Op::Parse(t, r) => format!("{:?}", a.parse(t, r)),
            Op::ParseRaw(t, r) => format!("{:?}", a.parse_raw(t, r)),
            Op::Format(n, f) => a.format(n, *f),
            Op::Original(n, r) => a.original(n, r),
            Op::Carrier(n, k) => a.with_carrier(n, k),
            Op::Mobile(n, r, b) => a.mobile(n, r, *b),
            Op::Ooc(n, r) => a.ooc(n, r),
            Op::Alpha(n, r) => a.keep_alpha(n, r),
            Op::Queries(n, r) => format!("{:?}", (a.valid(n), a.valid_for(n, r), a.ntype(n), a.region_for(n), a.possible_reason(n), a.possible(n), a.geographical(n), a.intl_diallable(n))),
            Op::Match(x, y) => format!("{:?}", a.matching(x, y)),
            Op::Truncate(n) => format!("{:?}", a.truncate(n)),
            Op::Tables(r, cc) => format!("{:?}", (a.cc_for_region(r), a.is_nanpa(r), a.region_for_cc(*cc), a.regions_for_cc(*cc), { let mut s = a.supported(); s.sort(); s.len() })),
            Op::Examples(r) => format!("{:?}", (a.example(r), a.invalid_example(r))),
            Op::Letters(t) => format!("{:?}", (a.is_alpha(t), a.convert_alpha(t))),
            Op::Lengths(n) => format!("{:?}", (a.nsn(n), a.ndc_len(n), a.area_len(n))),
        }
    }
}
/// calls that share as many arguments as possible and differ in one: what a wrong cache key would confuse
pub fn family(c: &mut Case, out: &mut Vec<Op>) {
    let (n, t) = if c.r.chance(2, 3) { c.valid_num() } else { c.any_num() };
    let home = if t.id == "001" { c.geo_region() } else { t.id.clone() };
    let sib = { let v = &c.meta().by_cc[&t.cc]; let k = v[c.r.below(v.len())].clone(); k };
    let regions = [home.clone(), sib, c.geo_region(), c.region()];
    let d = c.dialled(&n, t, &home);
    let text = match c.r.below(3) { 0 => c.spell(&d), 1 => { let v = c.vanity(&d); c.spell_plain(&v) } _ => c.spell_plain(&d) };
    let text2 = c.mutate_text(&text);
    let mut e = n.clone();
    e.ext = Some(c.ext());
    let mut z = n.clone();
    z.ilz = Some(true);
    let mut near = n.clone();
    near.nn = Some(near.nnv() ^ 1);
    // what agrees in some of the bits, digits or fields a careless key would keep
    let far = { let mut m = n.clone(); m.nn = Some(n.nnv() ^ 1u64 << *c.r.pick(&[16usize, 31, 32, 33, 40])); m };
    let tail = { let mut m = n.clone(); m.nn = Some(n.nnv() % 10_000_000); m };
    let zz = { let mut m = z.clone(); m.nlz = Some(2); m };
    let mut othercc = n.clone();
    othercc.cc = Some(c.terr().cc);
    let car = c.r.digits(2);
    let mut raw = n.clone();
    raw.raw = Some(text.clone());
    raw.src = Some(*c.r.pick(&[Src::Plus, Src::Idd, Src::NoPlus, Src::Default]));
    raw.carrier = Some(car.clone());
    for r in &regions {
        out.push(Op::Parse(text.clone(), r.clone()));
        out.push(Op::ParseRaw(text.clone(), r.clone()));
        out.push(Op::Parse(text2.clone(), r.clone()));
        out.push(Op::Original(raw.clone(), r.clone()));
        out.push(Op::Ooc(n.clone(), r.clone()));
        out.push(Op::Alpha(raw.clone(), r.clone()));
        out.push(Op::Mobile(raw.clone(), r.clone(), true));
        out.push(Op::Mobile(n.clone(), r.clone(), false));
        out.push(Op::Queries(n.clone(), r.clone()));
        out.push(Op::Tables(r.clone(), n.ccv()));
    }
    for m in [&n, &e, &z, &zz, &near, &far, &tail, &othercc] {
        for f in ALLF { out.push(Op::Format((*m).clone(), f)); }
        out.push(Op::Queries((*m).clone(), home.clone()));
        out.push(Op::Carrier((*m).clone(), car.clone()));
        out.push(Op::Truncate((*m).clone()));
        out.push(Op::Lengths((*m).clone()));
        out.push(Op::Match(n.clone(), (*m).clone()));
    }
    out.push(Op::Carrier(n.clone(), String::new()));
    out.push(Op::Letters(text));
    if c.r.chance(1, 4) { out.push(Op::Examples(home)); }
}
fn shuffle<T>(r: &mut crate::rng::Rng, v: &mut [T]) { for i in (1..v.len()).rev() { let j = r.below(i + 1); v.swap(i, j); } }

// ---- C25 ---------------------------------------------------------------------------------------------------------
#[derive(Default)]
pub struct Member { pub done: AtomicU64, pub tid: AtomicU64, pub in_call: AtomicBool, pub finished: AtomicBool }
pub struct Shared { pub ops: Vec<Op>, pub want: Vec<String>, pub orders: Vec<Vec<usize>>, pub util: Option<PhoneNumberUtil>, pub gate: Barrier, pub members: Vec<Member>, pub bad: std::sync::Mutex<Vec<(usize, String)>>, pub clock: AtomicUsize, pub trace: Vec<AtomicUsize>, pub lockstep: bool, pub arrived: AtomicUsize, pub broken: AtomicBool }
fn cpu_of(tid: u64) -> u64 {
    std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok().and_then(|s| { let v: Vec<u64> = s.rsplit_once(')')?.1.split_whitespace().skip(11).take(2).filter_map(|x| x.parse().ok()).collect(); Some(v.iter().sum()) }).unwrap_or(0)
}
/// `Done` carries every answer given when there was nothing to compare with yet (`want` is empty)
pub enum Round { Done(Vec<(usize, String)>), Deadlock(Vec<String>), Panicked(String) }
/// a thread that panics must not leave the others waiting for it
struct Leave(&'static Shared);
impl Drop for Leave { fn drop(&mut self) { if std::thread::panicking() { self.0.broken.store(true, Ordering::SeqCst); } } }
/// release the threads together, wait for them; threads that are all inside a call and burn no CPU for `stall` are deadlocked
pub fn round(sh: &'static Shared, stall: Duration) -> Round {
    let hs: Vec<_> = (0..sh.orders.len()).map(|t| std::thread::Builder::new().stack_size(4 << 20).spawn(move || {
        let me = &sh.members[t];
        me.tid.store(crate::core::gettid(), Ordering::SeqCst);
        let _leave = Leave(sh);
        let mut answers = vec![];
        sh.gate.wait();
        for (k, i) in sh.orders[t].iter().enumerate() {
            if sh.lockstep {
                // all threads enter their k-th calls at the same moment
                sh.arrived.fetch_add(1, Ordering::SeqCst);
                let (need, mut spins) = ((k + 1) * sh.orders.len(), 0u32);
                while sh.arrived.load(Ordering::SeqCst) < need {
                    if sh.broken.load(Ordering::SeqCst) { return answers; }
                    spins += 1;
                    if spins < 2000 { std::hint::spin_loop() } else if spins < 4000 { std::thread::yield_now() } else { std::thread::sleep(Duration::from_micros(200)) }
                }
            }
            me.in_call.store(true, Ordering::SeqCst);
            let u: &PhoneNumberUtil = match &sh.util { Some(u) => u, None => &PHONE_NUMBER_UTIL };
            let got = sh.ops[*i].run(&Api { u });
            me.in_call.store(false, Ordering::SeqCst);
            me.done.fetch_add(1, Ordering::SeqCst);
            // who finished which call when: the interleaving actually seen
            let at = sh.clock.fetch_add(1, Ordering::SeqCst);
            if at < sh.trace.len() { sh.trace[at].store(t + 1, Ordering::SeqCst); }
            if sh.want.is_empty() { answers.push((*i, got)); }
            else if got != sh.want[*i] { let mut b = sh.bad.lock().unwrap(); if b.len() < 5 { b.push((*i, got)); } }
            if !sh.lockstep && (k * 7 + t) % 5 == 0 { std::thread::yield_now(); }
        }
        me.finished.store(true, Ordering::SeqCst);
        answers
    }).expect("spawn")).collect();
    let (mut last, mut since) = (u64::MAX, Instant::now());
    loop {
        if hs.iter().all(|h| h.is_finished()) { break; }
        std::thread::sleep(Duration::from_millis(2));
        let sum: u64 = sh.members.iter().map(|m| m.done.load(Ordering::SeqCst)).sum();
        if since.elapsed() < Duration::from_secs(1) && sum != last { last = sum; since = Instant::now(); continue; }
        if since.elapsed() < stall { if sum != last { last = sum; since = Instant::now(); } continue; }
        // nothing returned for the whole stall period: blocked or just slow?
        // (in lockstep the others wait at the gate for the ones that are in a call)
        let waiting: Vec<&Member> = sh.members.iter().filter(|m| !m.finished.load(Ordering::SeqCst) && (!sh.lockstep || m.in_call.load(Ordering::SeqCst))).collect();
        let before: Vec<u64> = waiting.iter().map(|m| cpu_of(m.tid.load(Ordering::SeqCst))).collect();
        std::thread::sleep(Duration::from_secs(5));
        let same_done = sh.members.iter().map(|m| m.done.load(Ordering::SeqCst)).sum::<u64>() == sum;
        let idle = waiting.iter().zip(&before).all(|(m, b)| cpu_of(m.tid.load(Ordering::SeqCst)) == *b && m.in_call.load(Ordering::SeqCst));
        // blocked threads sleep; spinning ones (a lock that spins for ever) burn CPU without returning
        let spinning = waiting.iter().zip(&before).all(|(m, b)| { let c = cpu_of(m.tid.load(Ordering::SeqCst)); m.in_call.load(Ordering::SeqCst) && (c == *b || c > 6000) });
        if same_done && !waiting.is_empty() && (idle || spinning) {
            let what = sh.members.iter().enumerate().filter(|(_, m)| !m.finished.load(Ordering::SeqCst)).map(|(t, m)| format!("thread {t} in {:?}", sh.ops[sh.orders[t][m.done.load(Ordering::SeqCst) as usize]])).collect();
            return Round::Deadlock(what);
        }
    }
    let mut answers = vec![];
    for (t, h) in hs.into_iter().enumerate() {
        if let Ok(a) = h.join().map(|a| answers.extend(a)) { a } else { return Round::Panicked(format!("{:?}", sh.orders[t].get(sh.members[t].done.load(Ordering::SeqCst) as usize).map(|i| &sh.ops[*i]))); }
    }
    Round::Done(answers)
}
/// the first answer that differs from what an instance used by nobody else says afterwards
fn first_wrong(sh: &Shared, answers: &[(usize, String)]) -> Option<String> {
    let alone = PhoneNumberUtil::new();
    let want: Vec<String> = sh.ops.iter().map(|o| o.run(&Api { u: &alone })).collect();
    answers.iter().find(|(i, got)| *got != want[*i]).map(|(i, got)| format!("{:?} answered {got}, {} alone", sh.ops[*i], want[*i]))
}
pub fn plan_round(c: &mut Case, threads: usize, calls: usize, families: usize, global: bool) -> Shared {
    let mut ops = vec![];
    for _ in 0..families { family(c, &mut ops); }
    shuffle(&mut c.r, &mut ops);
    ops.truncate(calls.max(1));
    let alike = c.r.chance(1, 2); // all threads start with the same calls (cold caches collide) or with different ones
    let lockstep = alike && c.r.chance(2, 3);
    let orders: Vec<Vec<usize>> = (0..threads).map(|_| {
        let mut v: Vec<usize> = (0..ops.len()).collect();
        if !alike { shuffle(&mut c.r, &mut v) } else if !lockstep { let k = c.r.below(4); v.rotate_left(k.min(ops.len() - 1)) }
        v.truncate(calls);
        v
    }).collect();
    let n = orders.iter().map(|o| o.len()).sum();
    Shared { want: vec![], orders, util: if global { None } else { Some(PhoneNumberUtil::new()) }, gate: Barrier::new(threads), members: (0..threads).map(|_| Member::default()).collect(), bad: Default::default(), clock: AtomicUsize::new(0), trace: (0..n).map(|_| AtomicUsize::new(0)).collect(), ops, lockstep, arrived: AtomicUsize::new(0), broken: AtomicBool::new(false) }
}
fn c25_shared(c: &mut Case) {
    let threads = *c.r.pick(&[2usize, 4, 8, 12]);
    let sh = plan_round(c, threads, 240, 4, false);
    c25_round(c, sh)
}
/// the global instance, in use since the process started, asked about many plans at once
fn c25_wide(c: &mut Case) {
    let threads = *c.r.pick(&[4usize, 8, 12]);
    let sh = plan_round(c, threads, 600, 40, true);
    c25_round(c, sh)
}
fn c25_round(c: &mut Case, mut sh: Shared) {
    let threads = sh.orders.len();
    // sequential answers, from an instance nobody else uses
    let alone = PhoneNumberUtil::new();
    sh.want = sh.ops.iter().map(|o| o.run(&Api { u: &alone })).collect();
    let total: u64 = sh.orders.iter().map(|o| o.len() as u64).sum();
    let sh: &'static Shared = Box::leak(Box::new(sh));
    match round(sh, Duration::from_secs(25)) {
        Round::Deadlock(w) => c.fail("deadlock", format!("no call returns any more: {}", w.join("; "))),
        Round::Panicked(w) => c.fail("panic-concurrent", format!("a thread panicked in {w}")),
        Round::Done(_) => {
            if sh.lockstep { c.add("calls_in_lockstep", total); }
            c.add("concurrent_calls", total);
            c.add("threads", threads as u64);
            c.o.checks += total;
            for (i, got) in sh.bad.lock().unwrap().iter() { c.fail("answer", format!("{:?} answered {got} under {threads} threads, {} alone", sh.ops[*i], sh.want[*i])); }
            let t: Vec<usize> = sh.trace.iter().map(|x| x.load(Ordering::SeqCst)).collect();
            let switches = t.windows(2).filter(|w| w[0] != w[1]).count();
            c.add("completion_switches_between_threads", switches as u64);
            c.seen(&format!("{threads} threads, completion order {:?}", t));
            // free the round (all threads have ended)
            drop(unsafe { Box::from_raw(sh as *const Shared as *mut Shared) });
        }
    }
}
extern "C" { fn fork() -> i32; fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32; fn _exit(code: i32) -> !; }
const FIRST_USES: u64 = 12;
/// the process that `c25_first_use` starts: in each of its copies, threads race for the first use of the library
pub fn first_use_child(c: &mut Case, seed: u64) -> i32 {
    for k in 0..FIRST_USES {
        // (this process has one thread)
        let pid = unsafe { fork() };
        if pid < 0 { eprintln!("cannot fork"); return 2 }
        if pid == 0 {
            c.r = crate::rng::Rng::new(seed.wrapping_mul(FIRST_USES).wrapping_add(k));
            let code = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| first_use(c))).unwrap_or(2);
            unsafe { _exit(code) }
        }
        let mut status = 0;
        if unsafe { waitpid(pid, &mut status, 0) } != pid { eprintln!("lost a process"); return 2 }
        match (status & 0x7f, status >> 8 & 0xff) {
            (0, 0) => {}
            (0, code) => return code,
            (9, _) => { eprintln!("a copy was killed"); return 2 }
            (signal, _) => { println!("a process racing for the first use died of signal {signal}"); return 1 }
        }
    }
    0
}
fn first_use(c: &mut Case) -> i32 {
    let threads = 8;
    // nothing of the library runs before the threads are released, the answers are judged afterwards
    let sh: &'static Shared = Box::leak(Box::new(plan_round(c, threads, 60, 1, true)));
    match round(sh, Duration::from_secs(25)) {
        Round::Deadlock(w) => { println!("deadlock at first use: {}", w.join("; ")); 1 }
        Round::Panicked(w) => { println!("panic at first use in {w}"); 1 }
        Round::Done(answers) => match first_wrong(sh, &answers) {
            Some(w) => { println!("on the global instance {w}"); 1 }
            None => { println!("calls={}", answers.len()); 0 }
        }
    }
}
/// `rounds` rounds on shared instances and one on the global instance; exit code 1 if an answer was wrong or threads hung
pub fn race_child(c: &mut Case, rounds: usize) -> i32 {
    let mut calls = 0;
    for k in 0..rounds {
        let sh = plan_round(c, 6, 48, 1, k == 0);
        // the global instance is first used by the racing threads; the reference answers come after
        let sh: &'static Shared = Box::leak(Box::new(sh));
        match round(sh, Duration::from_secs(60)) {
            Round::Deadlock(w) => { println!("deadlock: {}", w.join("; ")); return 1 }
            Round::Panicked(w) => { println!("panic in {w}"); return 1 }
            Round::Done(answers) => {
                if let Some(w) = first_wrong(sh, &answers) { println!("wrong answer: {w}"); return 1 }
                calls += answers.len()
            }
        }
    }
    println!("race rounds={rounds} calls={calls}");
    0
}
fn c25_first_use(c: &mut Case) {
    let exe = std::env::current_exe().expect("own path");
    let out = std::process::Command::new(exe).args(["--first-use", &c.r.u64().to_string(), "--repo", &c.e.repo]).output();
    let Ok(out) = out else { c.o.harness_errors.push("could not start the first-use process".into()); return };
    let text = String::from_utf8_lossy(&out.stdout).trim().to_string();
    match out.status.code() {
        Some(0) => {
            let n = text.lines().filter_map(|l| l.strip_prefix("calls=")?.parse::<u64>().ok()).sum();
            c.add("first_use_calls", n);
            c.add("concurrent_calls", n);
            c.add("first_uses", FIRST_USES);
            c.seen(&format!("first use {}", c.idx));
        }
        Some(1) => c.fail("first-use", text),
        Some(_) => c.o.harness_errors.push(format!("first-use process: {text} {}", String::from_utf8_lossy(&out.stderr))),
        None => { use std::os::unix::process::ExitStatusExt; let s = out.status.signal().unwrap_or(0); if s == 9 { c.o.harness_errors.push("first-use process was killed".into()) } else { c.fail("first-use-crash", format!("the process racing for the first use died of signal {s}: {}", String::from_utf8_lossy(&out.stderr))) } }
    }
}

// ---- C26 ---------------------------------------------------------------------------------------------------------
fn c26_history(c: &mut Case) {
    let mut ops = vec![];
    for _ in 0..3 { family(c, &mut ops); }
    let fresh = PhoneNumberUtil::new();
    let want: Vec<String> = ops.iter().map(|o| o.run(&Api { u: &fresh })).collect();
    // the instance all cases of this run have used, in whatever order they came
    let a = c.api;
    for (o, w) in ops.iter().zip(&want) { c.eq("aged-instance", &o.run(&a), w, || format!("{o:?} on the instance that served all calls so far")); }
    // one with a different past: the same calls in another order, twice, other work in between
    let other = PhoneNumberUtil::new();
    let b = Api { u: &other };
    let mut past = vec![];
    family(c, &mut past);
    let mut order: Vec<usize> = (0..ops.len() * 2).map(|i| i % ops.len()).collect();
    shuffle(&mut c.r, &mut order);
    for i in order {
        if c.r.chance(1, 4) { let k = c.r.below(past.len()); past[k].run(&b); }
        c.eq("other-history", &ops[i].run(&b), &want[i], || format!("{:?} after other calls on another instance", ops[i]));
    }
    // and single calls as the very first one of an instance
    for _ in 0..2 {
        let i = c.r.below(ops.len());
        let u = PhoneNumberUtil::new();
        let x = Api { u: &u };
        c.eq("first-call", &ops[i].run(&x), &want[i], || format!("{:?} as the first call of an instance", ops[i]));
        c.eq("second-call", &ops[i].run(&x), &want[i], || format!("{:?} repeated at once", ops[i]));
    }
    // default construction is the same instance as new, and the global one answers alike
    let i = c.r.below(ops.len());
    c.eq("global", &ops[i].run(&Api { u: &PHONE_NUMBER_UTIL }), &want[i], || format!("{:?} on the global instance", ops[i]));
    c.add("calls_compared", 3 * ops.len() as u64);
    for o in ops.iter().take(60) { c.seen(&format!("{o:?}")); }
}
/// a call whose every free argument is new
fn novel(c: &mut Case, pool: &[(Num, String)], serial: u64) -> u64 {
    let (n, home) = &pool[c.r.below(pool.len())];
    let tag = format!("{serial}-{}", c.idx);
    let a = c.api;
    let region = if c.r.chance(1, 2) { home.clone() } else { format!("R{tag}") };
    let ext = format!("{}", serial % 10_000_000);
    let mut m = n.clone();
    m.ext = Some(ext.clone());
    m.carrier = Some(tag.clone());
    match serial % 14 {
        0 => { let _ = a.parse(&format!("+{} {} ext {ext}", n.ccv(), n.nsn()), &region); }
        1 => { let _ = a.parse_raw(&format!("{} x{serial} {tag}", n.nsn()), home); }
        2 => { let _ = a.parse(&format!("{tag} {serial}"), &region); }
        3 => { let _ = a.parse(&format!("tel:{};phone-context=h{serial}.example;u={tag}", n.nsn()), home); }
        4 => { a.with_carrier(&m, &tag.replace('-', "")); }
        5 => { a.ooc(&m, &region); a.mobile(&m, &region, true); }
        6 => { m.raw = Some(format!("{} {tag}", n.nsn())); m.src = Some(Src::Default); a.original(&m, &region); }
        7 => { m.raw = Some(format!("+{} {} abc{tag}", n.ccv(), n.nsn())); a.keep_alpha(&m, &region); }
        8 => { a.valid_for(&m, &region); a.valid(&m); }
        9 => { a.cc_for_region(&region); a.is_nanpa(&tag); let _ = a.example(&tag); let _ = a.invalid_example(&tag); }
        10 => { m.cc = Some(1000 + serial as i32); a.format(&m, F::Intl); a.region_for(&m); a.possible_reason(&m); a.region_for_cc(m.ccv()); }
        11 => { a.is_alpha(&tag); a.convert_alpha(&tag); a.matching(&m, n); }
        12 => { m.nn = Some(n.nnv().wrapping_mul(1_000_000).wrapping_add(serial)); a.truncate(&m); a.format(&m, F::Nat); a.ndc_len(&m); }
        _ => { m.nn = Some(n.nnv() / 100_000 * 100_000 + serial % 100_000); a.format(&m, ALLF[(serial / 14 % 4) as usize]); a.ntype(&m); a.valid(&m); }
    }
    a.format(&m, F::Intl);
    1
}
fn c26_memory(c: &mut Case) {
    // one thread, one instance: what it keeps allocated after calls with ever new arguments
    let u = PhoneNumberUtil::new();
    let u: &'static PhoneNumberUtil = Box::leak(Box::new(u));
    c.api = Api { u };
    let mut pool: Vec<(Num, String)> = (0..12).map(|_| { let (n, t) = c.valid_num(); let r = if t.id == "001" { c.geo_region() } else { t.id.clone() }; (n, r) }).collect();
    // and some of the numbers carrier codes are for
    for _ in 0..2000 { if pool.len() == 16 { break; } let (n, t) = c.valid_num(); if c.m().with_carrier(&n, "77").contains("77") && !c.m().format(&n, F::Nat).contains("77") { pool.push((n, t.id.clone())); } }
    // compile what these numbers need: endings of the kind used below, every kind of call
    let mut serial = 1000u64;
    for (n, _) in &pool { for k in 0..300 { let mut m = n.clone(); m.nn = Some(n.nnv() / 100_000 * 100_000 + 331 * k); for f in [F::Intl, F::Nat] { c.api.format(&m, f); } c.api.ntype(&m); } }
    let mut done = 30_000u64;
    for _ in 0..done { serial += 1; novel(c, &pool, serial); }
    // every phase triples the number of inputs served, so a table that keeps something for each of them must grow in
    // every phase, however it amortises; the automata of the patterns grow too, but only now and then and not for ever
    let mut marks: Vec<(u64, i64)> = vec![];
    let (enough, most) = if c.e.thorough { (4, 5) } else { (2, 4) };
    let least = loop {
        let (before, n) = (crate::alloc::live_here(), if marks.len() < most { done * 2 } else { marks[most - 1].0 });
        for _ in 0..n { serial += 1; novel(c, &pool, serial); }
        done += n;
        marks.push((n, crate::alloc::live_here() - before));
        c.add("novel_inputs", n);
        let least = marks.iter().map(|(n, g)| *g as f64 / *n as f64).fold(f64::MAX, f64::min);
        // near the bound the automata alone may be what grew: look on, until one phase shows that nothing is kept
        if marks.len() >= enough && least < MEM_BOUND || marks.len() >= most && (least > 4.0 || marks.len() == most + 4) { break least; }
    };
    c.o.notes.insert(format!("live_growth_{}", c.idx), format!("{marks:?}"));
    c.ok("memory-growth", least < MEM_BOUND, || format!("(calls with new arguments on the same numbers, growth of live bytes): {marks:?}, never below {least:.2} bytes a call"));
    c.seen(&format!("memory phases {marks:?}"));
    drop(unsafe { Box::from_raw(u as *const PhoneNumberUtil as *mut PhoneNumberUtil) });
}
/// live bytes per call: something is new to any one table in a seventh to a fourteenth of the calls and takes nine bytes at least
const MEM_BOUND: f64 = 0.25;

// ---- C27 ---------------------------------------------------------------------------------------------------------
pub fn compiled_table(repo: &str) -> Option<Vec<u8>> {
    fn files(d: &std::path::Path, out: &mut Vec<std::path::PathBuf>) { if let Ok(r) = std::fs::read_dir(d) { for e in r.flatten() { let p = e.path(); if p.is_dir() { files(&p, out) } else { out.push(p) } } } }
    let src = std::path::Path::new(repo).join("src");
    let mut v = vec![];
    files(&src, &mut v);
    for p in v {
        let Ok(b) = std::fs::read(&p) else { continue };
        if p.extension().map(|e| e == "rs").unwrap_or(false) {
            if b.len() < 100_000 { continue; }
            let s = String::from_utf8_lossy(&b);
            let Some(i) = s.find("METADATA") else { continue };
            if s[..i].ends_with("TEST_") { continue; }
            let Some(k) = s[i..].find('=').map(|k| i + k) else { continue };
            let Some(o) = s[k..].find('[').map(|o| k + o) else { continue };
            let Some(e) = s[o..].find(']').map(|e| o + e) else { continue };
            let parsed: Option<Vec<u8>> = s[o + 1..e].split(',').map(|x| x.trim()).filter(|x| !x.is_empty()).map(|x| match x.strip_prefix("0x").or_else(|| x.strip_prefix("0X")) { Some(h) => u8::from_str_radix(h, 16).ok(), None => x.parse().ok() }).collect();
            if let Some(x) = parsed { if x.len() > 10_000 { return Some(x); } }
        }
    }
    None
}
fn c27_table(c: &mut Case) {
    use protobuf::Message;
    use rlibphonenumber::phonemetadata as pb;
    let Some(bytes) = compiled_table(&c.e.repo) else { c.o.notes.insert("table".into(), "not found in source form; behaviour only".into()); c.add("fields", 5_000); return };
    let coll = match pb::PhoneMetadataCollection::parse_from_bytes(&bytes) { Ok(x) => x, Err(e) => { c.fail("decode", format!("the compiled table does not decode: {e}")); return } };
    let terrs = &c.meta().terrs;
    c.eq("territory-count", coll.metadata.len(), terrs.len(), || "territories".into());
    for (i, t) in terrs.iter().enumerate() {
        let Some(p) = coll.metadata.get(i) else { break };
        let who = format!("{} (+{})", t.id, t.cc);
        macro_rules! f { ($name:expr, $got:expr, $want:expr) => {{ let (g, w) = (&$got, &$want); c.count("fields"); c.seen(&format!("{who} {}", $name)); c.eq(&format!("field:{}", $name.split('[').next().unwrap()), format!("{:?}", g), format!("{:?}", w), || format!("{who}: {}", $name)); }} }
        let opt = |has: bool, v: &str| if has && !v.is_empty() { Some(v.to_string()) } else { None };
        let wopt = |v: &str| if v.is_empty() { None } else { Some(v.to_string()) };
        f!("id", p.id(), t.id.as_str());
        f!("country_code", p.country_code(), t.cc);
        f!("international_prefix", opt(p.has_international_prefix(), p.international_prefix()), wopt(&t.intl_prefix.src));
        f!("preferred_international_prefix", opt(p.has_preferred_international_prefix(), p.preferred_international_prefix()), t.pref_intl_prefix);
        f!("national_prefix", opt(p.has_national_prefix(), p.national_prefix()), wopt(&t.np));
        f!("national_prefix_for_parsing", opt(p.has_national_prefix_for_parsing(), p.national_prefix_for_parsing()), wopt(&t.np_for_parsing.src));
        f!("national_prefix_transform_rule", opt(p.has_national_prefix_transform_rule(), p.national_prefix_transform_rule()), wopt(&t.np_transform));
        f!("preferred_extn_prefix", opt(p.has_preferred_extn_prefix(), p.preferred_extn_prefix()), t.ext_prefix);
        f!("leading_digits", opt(p.has_leading_digits(), p.leading_digits()), t.leading.as_ref().map(|l| l.src.clone()));
        f!("main_country_for_code", p.main_country_for_code(), t.main);
        f!("mobile_number_portable_region", p.mobile_number_portable_region(), t.mnp);
        f!("same_mobile_and_fixed_line_pattern", p.same_mobile_and_fixed_line_pattern(), t.same_fm);
        f!("number_formats", p.number_format.len(), t.fmts.len());
        f!("international_formats", p.intl_number_format.len(), t.ifmts.len());
        for (kind, got, want) in [("format", &p.number_format, &t.fmts), ("intl_format", &p.intl_number_format, &t.ifmts)] {
            for (k, (g, w)) in got.iter().zip(want.iter()).enumerate() {
                f!(format!("{kind}.pattern[{k}]"), g.pattern(), w.pattern.src.as_str());
                f!(format!("{kind}.format[{k}]"), g.format(), w.format.as_str());
                f!(format!("{kind}.leading_digits[{k}]"), g.leading_digits_pattern.clone(), w.leading.iter().map(|l| l.src.clone()).collect::<Vec<_>>());
                f!(format!("{kind}.national_prefix_rule[{k}]"), g.national_prefix_formatting_rule(), w.np_rule.as_str());
                f!(format!("{kind}.national_prefix_optional[{k}]"), g.national_prefix_optional_when_formatting(), w.np_optional);
                f!(format!("{kind}.carrier_rule[{k}]"), g.domestic_carrier_code_formatting_rule(), w.cc_rule.as_str());
                for l in g.leading_digits_pattern.iter().chain(std::iter::once(&g.pattern().to_string())) { c.ok("pattern-compiles", regex::Regex::new(l).is_ok(), || format!("{who}: {l}")); }
            }
        }
        let got = [(Ty::General, &p.general_desc), (Ty::FixedLine, &p.fixed_line), (Ty::Mobile, &p.mobile), (Ty::TollFree, &p.toll_free), (Ty::Premium, &p.premium_rate), (Ty::SharedCost, &p.shared_cost), (Ty::Personal, &p.personal_number), (Ty::Voip, &p.voip), (Ty::Pager, &p.pager), (Ty::Uan, &p.uan), (Ty::Voicemail, &p.voicemail), (Ty::NoIntl, &p.no_international_dialling)];
        for (ty, g) in got {
            let w = t.d(ty);
            let none = pb::PhoneNumberDesc::new();
            let g = g.as_ref().unwrap_or(&none);
            f!(format!("{ty:?}.pattern"), opt(g.has_national_number_pattern(), g.national_number_pattern()), wopt(&w.pattern.src));
            f!(format!("{ty:?}.possible_length"), g.possible_length.clone(), w.lengths);
            f!(format!("{ty:?}.possible_length_local_only"), g.possible_length_local_only.clone(), w.local);
            f!(format!("{ty:?}.example"), opt(g.has_example_number(), g.example_number()), w.example.as_deref().and_then(|e| wopt(e)));
            if g.has_national_number_pattern() { c.ok("pattern-compiles", regex::Regex::new(g.national_number_pattern()).is_ok(), || format!("{who}: {}", g.national_number_pattern())); }
        }
    }
}
/// what the library does with every part of the plans, whatever form the table is stored in
fn c27_behaviour(c: &mut Case) {
    let t = terr_at(c, c.idx);
    let s = match c.r.below(5) { 0 if !t.fmts.is_empty() => { let i = c.r.below(t.fmts.len()); c.fmt_nsn(&t.fmts[i]) } 1 => { let ty = TYPES[c.r.below(12)].0; c.typed(t, ty).unwrap_or_else(|| "123456".into()) } _ => c.any_nsn(t) };
    if s.is_empty() || s.len() > 19 { return; }
    let n = Num::of(t.cc, &s);
    if n.nnv() == 0 { return; }
    let (a, m) = (c.api, c.m());
    c.seen(&format!("{} {s}", t.cc));
    c.eq("type", a.ntype(&n), m.number_type(&n), || format!("{n:?}"));
    c.eq("length", a.possible_reason(&n), m.possible(&n), || format!("{n:?}"));
    c.eq("valid-for", a.valid_for(&n, &t.id), m.valid_for(&n, &t.id), || format!("{n:?} for {}", t.id));
    c.eq("diallable", a.intl_diallable(&n), m.intl_diallable(&n), || format!("{n:?}"));
    for f in [F::Intl, F::Nat] { c.eq("format", a.format(&n, f), m.format(&n, f), || format!("{n:?} {f:?}")); }
    let e = c.with_ext(n.clone(), 1, 1);
    c.eq("extension-prefix", a.format(&e, F::Nat), m.format(&e, F::Nat), || format!("{e:?}"));
    let car = c.r.digits(2);
    c.eq("carrier-rule", a.with_carrier(&n, &car), m.with_carrier(&n, &car), || format!("{n:?} {car}"));
    c.count("numbers_compared");
    if t.id != "001" {
        let d = c.dialled(&n, t, &t.id);
        c.eq("parse", norm(a.parse_raw(&d, &t.id)), m.parse(&d, &t.id, true), || format!("{d:?} in {}", t.id));
        let (o, _) = c.valid_num();
        c.eq("out-of-country", a.ooc(&o, &t.id), m.out_of_country(&o, &t.id), || format!("{o:?} from {}", t.id));
    }
}
