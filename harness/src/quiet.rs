//! C37: calls keep to themselves. What a process does besides answering, and what an answer may not depend on.
use crate::api::Api;
use crate::core::*;
use crate::props::{self as p, Op};
use crate::rng::{hash_str, Rng};
use rlibphonenumber::{PhoneNumberFormat, PhoneNumberUtil, PHONE_NUMBER_UTIL};
use std::cell::{Cell, RefCell};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Once, OnceLock};
use std::time::{Duration, Instant};

// ---- a logger that reads every record and sometimes calls the library itself ----
struct Sink;
static LEVELS: [AtomicU64; 6] = [const { AtomicU64::new(0) }; 6];
static REENTERED: AtomicU64 = AtomicU64::new(0);
static REENTRY_WRONG: AtomicBool = AtomicBool::new(false);
thread_local! {
    static DEPTH: Cell<u32> = const { Cell::new(0) };
    static TURN: Cell<u64> = const { Cell::new(0) };
    /// the instance this thread is calling
    static UTIL: Cell<Option<&'static PhoneNumberUtil>> = const { Cell::new(None) };
    static LINE: RefCell<String> = const { RefCell::new(String::new()) };
}
static ASKED: [(&str, &str); 6] = [("+1 650-253-0000", "ZZ"), ("044 668 18 00", "CH"), ("tel:0800 1111;phone-context=+44", "GB"), ("011 15-8765-4321", "AR"), ("1-800-FLOWERS", "US"), ("not a number", "XX")];
fn ask(u: &PhoneNumberUtil, k: usize) -> String {
    let (t, r) = ASKED[k % ASKED.len()];
    match u.parse(t, r) {
        Ok(n) => format!("{} {} {:?} {} {:?}", u.format(&n, PhoneNumberFormat::International), u.format(&n, PhoneNumberFormat::National), u.get_number_type(&n), u.is_valid_number(&n), u.get_region_code_for_number(&n)),
        Err(e) => format!("{e:?} {:?}", u.get_country_code_for_region(r)),
    }
}
static SAID: OnceLock<Vec<String>> = OnceLock::new();
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool { true }
    fn log(&self, r: &log::Record) {
        LEVELS[r.level() as usize].fetch_add(1, SeqCst);
        let line = LINE.with(|l| { let mut s = std::mem::take(&mut *l.borrow_mut()); s.clear(); let _ = write!(s, "{}", r.args()); s });
        let turn = TURN.with(|t| { t.set(t.get() + 1); t.get() });
        if let (0, Some(u), true) = (DEPTH.with(|d| d.get()), UTIL.with(|u| u.get()), turn % 5 == 0) {
            DEPTH.with(|d| d.set(1));
            struct Out; impl Drop for Out { fn drop(&mut self) { DEPTH.with(|d| d.set(0)); } }
            let _out = Out;
            let k = turn as usize / 5;
            if SAID.get().is_some_and(|s| s[k % ASKED.len()] != ask(u, k)) { REENTRY_WRONG.store(true, SeqCst); }
            // what it was told, taken for a number
            if let Ok(n) = u.parse(&line, "US") { let _ = u.format(&n, PhoneNumberFormat::National).len(); u.is_valid_number(&n); }
            REENTERED.fetch_add(1, SeqCst);
        }
        LINE.with(|l| *l.borrow_mut() = line);
    }
    fn flush(&self) {}
}
fn set_up(u: &PhoneNumberUtil) {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| {
        log::set_max_level(log::LevelFilter::Off);
        let _ = SAID.set((0..ASKED.len()).map(|k| ask(u, k)).collect());
        log::set_logger(&Sink).expect("the library set a logger of its own");
    });
}
fn some_ops(c: &mut Case, families: usize, most: usize) -> Vec<Op> {
    let mut ops = vec![];
    for _ in 0..families { p::family(c, &mut ops); }
    // calls that are refused, each in its own way
    for _ in 0..ops.len() / 12 {
        let (t, r) = c.text();
        let w = c.weird(30);
        let odd = c.word();
        let hostile = c.hostile_num();
        let r2 = c.region();
        ops.extend([Op::Parse(t.clone(), r.clone()), Op::Parse(w.clone(), r2.clone()), Op::ParseRaw(t.clone(), w.clone()), Op::Parse(odd.clone(), odd.clone()), Op::Letters(w.clone()), Op::Tables(odd.clone(), hostile.ccv()), Op::Examples(odd),
            Op::Queries(hostile.clone(), r2.clone()), Op::Format(hostile.clone(), crate::model::F::Intl), Op::Ooc(hostile.clone(), r2.clone()), Op::Mobile(hostile.clone(), r2.clone(), true), Op::Original(hostile.clone(), r2), Op::Truncate(hostile.clone()), Op::Lengths(hostile.clone()), Op::Alpha(hostile.clone(), r), Op::Carrier(hostile, w)]);
    }
    for i in (1..ops.len()).rev() { let j = c.r.below(i + 1); ops.swap(i, j); }
    ops.truncate(most);
    ops
}
fn answers(ops: &[Op], u: &'static PhoneNumberUtil) -> Vec<u64> {
    UTIL.with(|x| x.set(Some(u)));
    struct Out; impl Drop for Out { fn drop(&mut self) { UTIL.with(|x| x.set(None)); } }
    let _out = Out;
    ops.iter().map(|o| hash_str(&o.run(&Api { u }))).collect()
}
fn fold(v: &[u64]) -> u64 { v.iter().fold(1u64, |a, b| (a.rotate_left(9) ^ b).wrapping_mul(0x9E37_79B9_7F4A_7C15)) | 1 }
const CASES: usize = 1_000_000;
static SILENT: [AtomicU64; CASES] = [const { AtomicU64::new(0) }; CASES];
/// the calls of case `idx`, whichever stream it is in; every eighth on an instance of its own
fn with_case<T>(c: &mut Case, f: impl FnOnce(&mut Case, &[Op], &'static PhoneNumberUtil) -> T) -> T {
    c.r = Rng::new(case_seed(c.e.seed, "C37", "calls", c.idx));
    set_up(c.e.util);
    let ops = some_ops(c, 1, 40);
    if c.idx % 8 != 0 { return f(c, &ops, c.e.util); }
    let own: *mut PhoneNumberUtil = Box::into_raw(Box::new(PhoneNumberUtil::new()));
    struct Free(*mut PhoneNumberUtil); impl Drop for Free { fn drop(&mut self) { drop(unsafe { Box::from_raw(self.0) }); } }
    let _free = Free(own);
    f(c, &ops, unsafe { &*own })
}
fn c37_silent(c: &mut Case) {
    with_case(c, |c, ops, u| {
        log::set_max_level(log::LevelFilter::Off);
        let d = fold(&answers(ops, u));
        SILENT[c.idx as usize % CASES].store(d, SeqCst);
        c.add("calls_unlogged", ops.len() as u64);
        for o in ops.iter().take(20) { c.seen(&format!("{o:?}")); }
    })
}
fn c37_logged(c: &mut Case) {
    let before: u64 = LEVELS.iter().map(|l| l.load(SeqCst)).sum();
    with_case(c, |c, ops, u| {
        let mut want = SILENT[c.idx as usize % CASES].load(SeqCst);
        if want == 0 { log::set_max_level(log::LevelFilter::Off); want = fold(&answers(ops, u)); }
        log::set_max_level(log::LevelFilter::Trace);
        let got = fold(&answers(ops, u));
        c.add("calls_logged", ops.len() as u64);
        c.o.checks += ops.len() as u64;
        if got != want {
            // which call was it?
            let off: Vec<String> = { log::set_max_level(log::LevelFilter::Off); ops.iter().map(|o| o.run(&Api { u })).collect() };
            log::set_max_level(log::LevelFilter::Trace);
            UTIL.with(|x| x.set(Some(u)));
            let on: Vec<String> = ops.iter().map(|o| o.run(&Api { u })).collect();
            UTIL.with(|x| x.set(None));
            let k = (0..ops.len()).find(|k| on[*k] != off[*k]);
            c.fail("answer-depends-on-logging", k.map_or(format!("one of {ops:?}, not again"), |k| format!("{:?}: {} with a logger, {} without", ops[k], on[k], off[k])));
        }
        c.eq("level-of-logging", log::max_level(), log::LevelFilter::Trace, || "the level of logging changed".into());
        c.ok("call-by-logger", !REENTRY_WRONG.load(SeqCst), || format!("a logger that calls the library is answered wrongly, during one of {ops:?}"));
    });
    let after: u64 = LEVELS.iter().map(|l| l.load(SeqCst)).sum();
    if after > before { c.count("cases_that_logged"); }
    if c.idx % 1000 == 0 {
        for (k, n) in ["", "error", "warn", "info", "debug", "trace"].iter().enumerate().skip(1) { c.o.notes.insert(format!("records_{n}"), LEVELS[k].load(SeqCst).to_string()); }
        c.o.notes.insert("calls_by_the_logger".into(), REENTERED.load(SeqCst).to_string());
    }
}

// ---- the clock, which a process of this monitor can move ----
static CLOCK_READS: AtomicU64 = AtomicU64::new(0);
static CLOCK_SHIFT: AtomicI64 = AtomicI64::new(0);
static CLOCK_JUMP: AtomicI64 = AtomicI64::new(0);
#[cfg(not(harness_sanitize))]
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: i32, t: *mut libc::timespec) -> i32 {
    let r = libc::syscall(libc::SYS_clock_gettime, clock as libc::c_long, t) as i32;
    if r == 0 && clock != libc::CLOCK_THREAD_CPUTIME_ID {
        let n = CLOCK_READS.fetch_add(1, SeqCst) as i64;
        let mut s = CLOCK_JUMP.load(SeqCst) * n;
        if matches!(clock, libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE) { s += CLOCK_SHIFT.load(SeqCst); }
        if s != 0 { (*t).tv_sec += s; }
    }
    r
}
// ---- the filter between the process and the kernel ----
const REPORT: i32 = 250;
#[derive(Clone, Copy)] struct Event { nr: i64, op: usize, text: [u8; 80] }
static mut EVENTS: [Event; 64] = [Event { nr: 0, op: 0, text: [0; 80] }; 64];
static SEEN: AtomicUsize = AtomicUsize::new(0);
static NOW: AtomicUsize = AtomicUsize::new(0);
#[cfg(target_arch = "x86_64")]
extern "C" fn on_sigsys(_: i32, info: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    unsafe {
        // si_call_addr, then si_syscall
        let nr = *((info as *const u8).add(24) as *const i32) as i64;
        let g = &mut (*(ctx as *mut libc::ucontext_t)).uc_mcontext.gregs;
        let k = SEEN.fetch_add(1, SeqCst);
        if k < 64 {
            let e = &mut *std::ptr::addr_of_mut!(EVENTS[k]);
            e.nr = nr;
            e.op = NOW.load(SeqCst);
            let path = match nr { libc::SYS_open | libc::SYS_stat | libc::SYS_access | libc::SYS_readlink | libc::SYS_execve | libc::SYS_unlink | libc::SYS_mkdir | libc::SYS_chdir => g[libc::REG_RDI as usize], libc::SYS_openat | libc::SYS_newfstatat | libc::SYS_statx | libc::SYS_write | libc::SYS_unlinkat | libc::SYS_readlinkat | libc::SYS_faccessat => g[libc::REG_RSI as usize], _ => 0 } as *const u8;
            if !path.is_null() { for i in 0..79 { let b = *path.add(i); if b == 0 { break; } e.text[i] = b; } }
        }
        g[libc::REG_RAX as usize] = -(libc::EPERM as i64);
    }
}
#[cfg(target_arch = "x86_64")]
fn seal() -> bool {
    use libc::*;
    let ok = [SYS_futex, SYS_mmap, SYS_munmap, SYS_mremap, SYS_mprotect, SYS_brk, SYS_madvise, SYS_getrandom, SYS_clock_gettime, SYS_clock_getres, SYS_gettimeofday, SYS_time, SYS_sched_yield, SYS_sched_getaffinity, SYS_getcpu,
        SYS_rt_sigreturn, SYS_rt_sigprocmask, SYS_sigaltstack, SYS_exit, SYS_exit_group, SYS_getpid, SYS_gettid, SYS_rseq, SYS_membarrier, SYS_restart_syscall, SYS_set_robust_list];
    let st = |code: u32, k: u32, jt: u8, jf: u8| sock_filter { code: code as u16, jt, jf, k };
    let n = ok.len();
    let mut f = vec![st(BPF_LD | BPF_W | BPF_ABS, 0, 0, 0)];
    for (i, s) in ok.iter().enumerate() { f.push(st(BPF_JMP | BPF_JEQ | BPF_K, *s as u32, (n - i + 3) as u8, 0)); }
    f.push(st(BPF_JMP | BPF_JEQ | BPF_K, SYS_write as u32, 0, 2));
    f.push(st(BPF_LD | BPF_W | BPF_ABS, 16, 0, 0));
    f.push(st(BPF_JMP | BPF_JEQ | BPF_K, REPORT as u32, 1, 0));
    f.push(st(BPF_RET | BPF_K, SECCOMP_RET_TRAP, 0, 0));
    f.push(st(BPF_RET | BPF_K, SECCOMP_RET_ALLOW, 0, 0));
    unsafe {
        let mut sa: sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_sigsys as *const () as usize;
        sa.sa_flags = SA_SIGINFO;
        if sigaction(SIGSYS, &sa, std::ptr::null_mut()) != 0 { return false; }
        let prog = sock_fprog { len: f.len() as u16, filter: f.as_mut_ptr() };
        prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) == 0 && prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER as c_ulong, &prog as *const sock_fprog) == 0
    }
}
#[cfg(not(target_arch = "x86_64"))]
fn seal() -> bool { false }
fn name_of(nr: i64) -> String {
    use libc::*;
    [(SYS_read, "read"), (SYS_write, "write"), (SYS_open, "open"), (SYS_openat, "openat"), (SYS_close, "close"), (SYS_socket, "socket"), (SYS_connect, "connect"), (SYS_clone, "clone"), (SYS_clone3, "clone3"), (SYS_fork, "fork"), (SYS_vfork, "vfork"), (SYS_execve, "execve"),
        (SYS_chdir, "chdir"), (SYS_getcwd, "getcwd"), (SYS_umask, "umask"), (SYS_rt_sigaction, "rt_sigaction"), (SYS_setrlimit, "setrlimit"), (SYS_prlimit64, "prlimit64"), (SYS_kill, "kill"), (SYS_tgkill, "tgkill"), (SYS_unlink, "unlink"), (SYS_mkdir, "mkdir"), (SYS_statx, "statx"), (SYS_writev, "writev")]
        .iter().find(|x| x.0 == nr).map_or(format!("system call {nr}"), |x| x.1.to_string())
}
const SEALED_OPS: usize = 700;
fn sealed_ops(c: &mut Case, seed: u64) -> Vec<Op> { c.r = Rng::new(seed); some_ops(c, 5, SEALED_OPS) }
/// the process that `c37_sealed` starts; `ways` says under which conditions it runs
pub fn sealed_child(c: &mut Case, seed: u64, ways: u64) -> i32 {
    let ops = sealed_ops(c, seed);
    set_up(c.e.util);
    let _ = PhoneNumberUtil::new(); // the number of processors is looked up once per process, for the size of the caches
    let way = |k: u32| ways >> k & 1 == 1;
    unsafe {
        if libc::dup2(1, REPORT) != REPORT { return 2; }
        if way(0) { libc::setlocale(libc::LC_ALL, c"".as_ptr()); }
        if way(1) { for fd in 0..3 { libc::close(fd); } }
        if way(2) { let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 }; libc::setrlimit(libc::RLIMIT_NOFILE, &l); libc::setrlimit(libc::RLIMIT_NPROC, &l); libc::setrlimit(libc::RLIMIT_FSIZE, &l); }
    }
    if way(3) { CLOCK_SHIFT.store(*[1_000_000_000i64, -1_500_000_000, 40 * 365 * 86_400, 86_400].get(ways as usize >> 8 & 3).unwrap(), SeqCst); }
    if way(4) { CLOCK_JUMP.store(7_200, SeqCst); }
    let level = if way(5) { log::LevelFilter::Trace } else { log::LevelFilter::Off };
    log::set_max_level(level);
    // the global instance or one of its own, made behind the filter, or one in use
    let made = ways >> 10 & 3;
    if made > 1 { for o in ops.iter().take(30) { o.run(&Api { u: c.e.util }); } }
    let state = || { let mut v: Vec<_> = std::env::vars_os().collect(); v.sort(); (v, unsafe { std::ffi::CStr::from_ptr(libc::setlocale(libc::LC_ALL, std::ptr::null())) }.to_owned()) };
    let before = state();
    let reads = CLOCK_READS.load(SeqCst);
    let mut out = String::with_capacity(1 << 20);
    let sealed = seal();
    SEEN.store(0, SeqCst);
    NOW.store(usize::MAX, SeqCst);
    let u: Option<&'static PhoneNumberUtil> = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match made { 0 => &*PHONE_NUMBER_UTIL, 1 => &*Box::leak(Box::new(PhoneNumberUtil::new())), _ => c.e.util })).ok();
    if u.is_none() { let _ = writeln!(out, "state the construction panicked"); }
    let u = u.unwrap_or(c.e.util);
    UTIL.with(|x| x.set(Some(u)));
    let mut got = vec![];
    for (i, o) in ops.iter().enumerate() {
        NOW.store(i, SeqCst);
        got.push(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| hash_str(&o.run(&Api { u })))).unwrap_or(0));
        if i % 16 == 0 { use std::io::Write; let _ = std::io::stdout().flush(); }
    }
    UTIL.with(|x| x.set(None));
    let _ = writeln!(out, "sealed {sealed}");
    for g in &got { let _ = writeln!(out, "answer {g}"); }
    for k in 0..SEEN.load(SeqCst).min(64) {
        let e = unsafe { *std::ptr::addr_of!(EVENTS[k]) };
        let text: String = String::from_utf8_lossy(&e.text).trim_end_matches('\0').replace('\n', "\\n");
        let _ = writeln!(out, "event {} {} {text}", e.nr, e.op);
    }
    let after = state();
    if before != after { let _ = writeln!(out, "state environment or locale changed"); }
    if log::max_level() != level { let _ = writeln!(out, "state the level of logging changed"); }
    if !crate::core::panic_hook_works() { let _ = writeln!(out, "state the panic hook changed"); }
    if REENTRY_WRONG.load(SeqCst) { let _ = writeln!(out, "state a logger that calls the library was answered wrongly"); }
    let _ = writeln!(out, "clock {}", CLOCK_READS.load(SeqCst) - reads);
    let _ = writeln!(out, "reentered {}", REENTERED.load(SeqCst));
    let _ = writeln!(out, "end");
    let mut b = out.as_bytes();
    while !b.is_empty() { let n = unsafe { libc::write(REPORT, b.as_ptr() as *const _, b.len()) }; if n <= 0 { break; } b = &b[n as usize..]; }
    unsafe { libc::_exit(0) }
}
fn c37_sealed(c: &mut Case) {
    set_up(c.e.util);
    log::set_max_level(log::LevelFilter::Off);
    let seed = c.r.u64();
    // the first few under one condition each, then all kinds together
    let ways = match c.idx { 0 => 0, 1..=6 => 1 << (c.idx - 1), _ => c.r.u64() & 0xfff } | (c.r.u64() & 0xf00);
    let envs = if c.idx < 8 { c.idx as usize % 4 } else { c.r.below(6) };
    let elsewhere = c.r.chance(1, 2);
    let ops = sealed_ops(c, seed);
    let want: Vec<u64> = ops.iter().map(|o| hash_str(&o.run(&c.api))).collect();
    let exe = std::env::current_exe().expect("own path");
    let repo = std::fs::canonicalize(&c.e.repo).map(|p| p.to_string_lossy().to_string()).unwrap_or(c.e.repo.clone());
    let mut cmd = std::process::Command::new(exe);
    cmd.args(["--sealed", &seed.to_string(), "--ways", &ways.to_string(), "--seed", &c.e.seed.to_string(), "--repo", &repo]).stdin(std::process::Stdio::null()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null());
    let words = |cmd: &mut std::process::Command, v: &str| { for w in &c.e.words { if !w.is_empty() && !w.contains(['=', '\0']) && !matches!(w.as_str(), "PATH") { cmd.env(w, v).env(w.to_uppercase(), v); } } };
    match envs {
        0 => {}
        1 => { cmd.env_clear(); }
        2 => { cmd.env("LANG", "tr_TR.UTF-8").env("LC_ALL", "tr_TR.UTF-8").env("TZ", "Asia/Tehran").env("RUST_LOG", "trace").env("RUST_BACKTRACE", "full").env_remove("HOME"); }
        3 => words(&mut cmd, "1"),
        4 => { words(&mut cmd, "US"); cmd.env("LC_ALL", "C").env("TZ", "UTC").env("DEBUG", "1").env("VERBOSE", "1"); }
        _ => { words(&mut cmd, "/nonexistent"); cmd.env_remove("PATH").env("LANGUAGE", "ar").env("LC_ALL", "ar_EG").env("COUNTRY", "EG").env("REGION", "EG"); }
    }
    if elsewhere { cmd.current_dir("/"); }
    let Ok(mut ch) = cmd.spawn() else { c.o.harness_errors.push("could not start the sealed process".into()); return };
    let t0 = Instant::now();
    let cpu = |pid: u32| std::fs::read_to_string(format!("/proc/{pid}/stat")).ok().and_then(|s| { let v: Vec<u64> = s.rsplit_once(')')?.1.split_whitespace().skip(11).take(2).filter_map(|x| x.parse().ok()).collect(); Some(v.iter().sum::<u64>()) }).unwrap_or(0);
    let (mut last, mut since) = (0, Instant::now());
    let status = loop {
        match ch.try_wait() { Ok(Some(s)) => break Some(s), Ok(None) => {} Err(_) => break None }
        std::thread::sleep(Duration::from_millis(3));
        if t0.elapsed() < Duration::from_secs(20) { continue; }
        let now = cpu(ch.id());
        if now != last { last = now; since = Instant::now(); }
        if since.elapsed() > Duration::from_secs(25) { let _ = ch.kill(); let _ = ch.wait(); c.fail("no-return", format!("calls stopped returning without using the processor, under conditions {ways:#x}, environment {envs}")); return; }
        if t0.elapsed() > Duration::from_secs(240) { let _ = ch.kill(); let _ = ch.wait(); break None; }
    };
    let mut text = String::new();
    { use std::io::Read; let mut b = vec![]; let _ = ch.stdout.take().unwrap().read_to_end(&mut b); text.push_str(&String::from_utf8_lossy(&b)); }
    let Some(status) = status else { c.o.harness_errors.push("the sealed process did not end".into()); return };
    use std::os::unix::process::ExitStatusExt;
    let how = format!("conditions {ways:#x}, environment {envs}, {}", if elsewhere { "in /" } else { "here" });
    if !text.ends_with("end\n") {
        match status.signal() { Some(9 | 15) => c.o.harness_errors.push("the sealed process was killed".into()), Some(s) => c.fail("crash", format!("the sealed process died of signal {s}, {how}")),
            None if status.code() == Some(2) => c.o.harness_errors.push("the sealed process could not start".into()),
            None => c.fail("exit", format!("the sealed process ended with {status:?} before the calls were done, {how}")) }
        return;
    }
    let mut at = 0;
    for l in text.lines() {
        let (k, v) = l.split_once(' ').unwrap_or((l, ""));
        match k {
            "sealed" => { if v == "true" { c.count("sealed_processes"); } else { c.o.notes.insert("filter".into(), "refused by the kernel; only the answers were compared".into()); c.add("sealed_processes", 1); } }
            "answer" => { let g: u64 = v.parse().unwrap_or(0); if at < ops.len() { c.o.checks += 1; if g == 0 { c.fail("panic-in-process", format!("{:?} panicked, {how}", ops[at])); } else if g != want[at] { c.fail("answer-depends-on-process", format!("{:?} is answered otherwise under {how}", ops[at])); } } at += 1; }
            "event" => {
                let mut w = v.splitn(3, ' ');
                let (nr, op, path) = (w.next().and_then(|x| x.parse().ok()).unwrap_or(0i64), w.next().and_then(|x| x.parse::<usize>().ok()).unwrap_or(0), w.next().unwrap_or(""));
                // looking up the number of processors
                if path.starts_with("/proc/") || path.starts_with("/sys/") { c.count("processor_lookups"); continue; }
                c.fail("system-call", format!("{}({path:?}) during {}, {how}", name_of(nr), ops.get(op).map_or("construction".into(), |o| format!("{o:?}"))));
            }
            "state" => c.fail("process-state", format!("{v}, {how}")),
            "clock" => c.add("clock_reads_during_calls", v.parse().unwrap_or(0)),
            "reentered" => c.add("calls_by_the_logger", v.parse().unwrap_or(0)),
            _ => {}
        }
    }
    if c.eq("answers", at, ops.len(), || format!("answers of the sealed process, {how}")) { c.add("calls_sealed", at as u64); }
    c.seen(&how);
}
// ---- C38: what a call costs once the patterns it needs are compiled ----
fn input_size(o: &Op) -> usize { format!("{o:?}").len() }
/// the number of zeros a message declares counts as input
fn modest(o: &Op) -> bool {
    let ok = |n: &crate::num::Num| n.nlz.is_none_or(|z| z <= 10);
    match o { Op::Format(n, _) | Op::Original(n, _) | Op::Carrier(n, _) | Op::Mobile(n, _, _) | Op::Ooc(n, _) | Op::Alpha(n, _) | Op::Queries(n, _) | Op::Truncate(n) | Op::Lengths(n) => ok(n), Op::Match(n, m) => ok(n) && ok(m), _ => true }
}
/// the heaviest library call of `f`: bytes requested, and which
fn heaviest(f: impl FnOnce()) -> (u64, &'static str) {
    crate::api::HEAVIEST.with(|x| x.set(Some((0, ""))));
    f();
    crate::api::HEAVIEST.with(|x| x.replace(None)).unwrap_or((0, ""))
}
fn own_instance<T>(f: impl FnOnce(&'static PhoneNumberUtil) -> T) -> T {
    let own: *mut PhoneNumberUtil = Box::into_raw(Box::new(PhoneNumberUtil::new()));
    struct Free(*mut PhoneNumberUtil); impl Drop for Free { fn drop(&mut self) { drop(unsafe { Box::from_raw(self.0) }); } }
    let _free = Free(own);
    f(unsafe { &*own })
}
/// what a call may request besides a multiple of its input; to compile the smallest pattern with a \d in it takes 370 000
const WARM_BYTES: u64 = 24_000;
const WARM_PER_BYTE: u64 = 24;
const WARM_US: u64 = 25_000;
fn c38_warm(c: &mut Case) {
    let mut ops = some_ops(c, 1, 100);
    ops.retain(modest);
    own_instance(|u| {
        let a = Api { u };
        for _ in 0..2 { for o in &ops { o.run(&a); } }
        for o in &ops {
            let size = input_size(o);
            let (b, op) = heaviest(|| { o.run(&a); });
            c.ok(&format!("warm-memory:{op}"), b <= WARM_BYTES + WARM_PER_BYTE * size as u64, || format!("{op} requested {b} bytes the third time, in {o:?}"));
            c.count(match b { 0..=999 => "calls_below_1KB", 1_000..=7_999 => "calls_below_8KB", _ => "calls_above_8KB" });
            // the least of up to five, since the machine may be busy
            let (mut least, mut which) = (u64::MAX, "");
            for _ in 0..5 {
                crate::api::TIMED.with(|x| x.set(Some((0, ""))));
                o.run(&a);
                let (us, op) = crate::api::TIMED.with(|x| x.replace(None)).unwrap_or((0, ""));
                if us < least { least = us; which = op; }
                if least <= WARM_US { break; }
            }
            c.ok(&format!("warm-time:{which}"), least <= WARM_US, || format!("{which} used {least} us of CPU five times over, in {o:?}"));
            c.seen(&format!("{o:?}"));
        }
    });
}
/// an instance that has served a plan serves other numbers of it without compiling anything; few of them reach a pattern for
/// the first time, or a state its automaton has not been in
fn c38_plan(c: &mut Case) {
    let t = p::terr_at(c, c.idx);
    let mut all: Vec<(u64, &'static str, String)> = vec![];
    own_instance(|u| {
        let a = Api { u };
        let mut calls = |c: &mut Case| {
            let s = match c.r.below(3) { 0 if !t.fmts.is_empty() => { let i = c.r.below(t.fmts.len()); c.fmt_nsn(&t.fmts[i]) } 1 => c.valid_nsn(t), _ => c.any_nsn(t) };
            if s.is_empty() || s.len() > 17 { return None; }
            let n = crate::num::Num::of(t.cc, &s);
            let d = c.dialled(&n, t, &t.id);
            let (b, op) = heaviest(|| { let _ = a.parse_raw(&d, &t.id); for f in p::ALLF { a.format(&n, f); } a.valid(&n); a.valid_for(&n, &t.id); a.ntype(&n); a.region_for(&n); a.possible_reason(&n); a.area_len(&n); a.ooc(&n, "FR"); a.mobile(&n, &t.id, true); a.with_carrier(&n, "12"); a.truncate(&n); });
            Some((b, op, s))
        };
        for _ in 0..500 { calls(c); }
        for _ in 0..500 { all.extend(calls(c)); }
    });
    if all.len() < 100 { return; }
    all.sort();
    let (b, op, s) = all[all.len() * 3 / 4].clone();
    c.count("plans_served");
    c.seen(&format!("{} {} numbers", t.id, all.len()));
    c.ok(&format!("plan-memory:{op}"), b <= WARM_BYTES, || format!("{op} requested {b} bytes for +{} {s}, and one call in four of {} is as heavy, after 500 other numbers of {}", t.cc, all.len(), t.id));
}
/// one instance in the service of many plans in turn: what was compiled for one is still there when its turn comes again
fn c38_rounds(c: &mut Case) {
    let mut calls: Vec<(u32, String, String, crate::num::Num)> = vec![];
    let first = c.r.below(254) as u64;
    for k in 0..60 {
        let t = p::terr_at(c, first + k * 4);
        for _ in 0..2 {
            let s = if c.r.below(2) == 0 && !t.fmts.is_empty() { let i = c.r.below(t.fmts.len()); c.fmt_nsn(&t.fmts[i]) } else { c.valid_nsn(t) };
            if s.is_empty() || s.len() > 17 { continue; }
            let n = crate::num::Num::of(t.cc, &s);
            let d = c.dialled(&n, t, &t.id);
            calls.push((t.cc as u32, t.id.clone(), d, n));
        }
    }
    own_instance(|u| {
        let a = Api { u };
        let turn = |(_, id, d, n): &(u32, String, String, crate::num::Num)| { let _ = a.parse_raw(d, id); for f in p::ALLF { a.format(n, f); } a.valid(n); a.valid_for(n, id); a.ntype(n); a.region_for(n); a.possible_reason(n); a.area_len(n); a.ooc(n, "FR"); a.mobile(n, id, true); a.with_carrier(n, "12"); a.truncate(n); };
        for _ in 0..2 { for x in &calls { turn(x); } }
        for (k, x) in calls.iter().enumerate() {
            let (b, op) = heaviest(|| turn(x));
            c.count("calls_in_rounds");
            if !c.ok(&format!("round-memory:{op}"), b <= WARM_BYTES, || format!("{op} requested {b} bytes in the third round of {} numbers of 60 plans, for {:?} of {}", calls.len(), x.3, x.1)) { break; }
            if k % 16 == 0 { c.seen(&format!("rounds from {first}, {k}")); }
        }
    });
}
/// making an instance
fn c38_new(c: &mut Case) {
    let (at, live, t) = (crate::alloc::total(), crate::alloc::live_here(), crate::api::cpu_us());
    let u = PhoneNumberUtil::new();
    let (b, us, kept) = (crate::alloc::total() - at, crate::api::cpu_us() - t, crate::alloc::live_here() - live);
    drop(u);
    let left = crate::alloc::live_here() - live;
    c.o.notes.insert("new_instance".into(), format!("{b} bytes requested, {kept} kept, {us} us"));
    c.count("instances_made");
    c.seen(&format!("instance {}", c.idx));
    c.ok("new-memory", b < 200 << 20, || format!("a new instance requested {b} bytes"));
    c.ok("dropped-memory", left < 1 << 20 || c.idx == 0, || format!("{left} bytes stay allocated after an instance is dropped"));
}
pub fn all() -> Vec<Prop> {
    vec![Prop { id: "C37", rule: "calls of every kind, with arguments valid and not, with and without a logger, in sealed processes under varied conditions; non-trivial = distinct call or condition",
        streams: vec![p::st("silent", 12_000, 400_000, c37_silent), p::st("logged", 12_000, 400_000, c37_logged), p::st("sealed", 48, 1_500, c37_sealed)],
        need: vec![("calls_logged", 300_000), ("cases_that_logged", 6_000), ("sealed_processes", 40), ("calls_sealed", 20_000), ("calls_by_the_logger", 1_000)] },
    Prop { id: "C38", rule: "calls repeated on an instance in use, further numbers of each plan, new instances; non-trivial = distinct call or plan",
        streams: vec![p::st("warm", 6_000, 200_000, c38_warm), p::st("plan", 254, 5_080, c38_plan), p::st("rounds", 8, 160, c38_rounds), p::st("new", 64, 640, c38_new)],
        need: vec![("calls_below_1KB", 200_000), ("plans_served", 200), ("calls_in_rounds", 600), ("instances_made", 60)] }]
}
