//! Counting allocator: bytes requested by the current thread, with a ceiling that turns runaway allocation into an abort.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI32, Ordering};
thread_local! { static TOTAL: Cell<u64> = const { Cell::new(0) }; static LIMIT: Cell<u64> = const { Cell::new(u64::MAX) }; static LIVE: Cell<i64> = const { Cell::new(0) };
    /// what one library call may request, in bytes
    static CEILING: Cell<u64> = const { Cell::new(1 << 30) };
    /// the case this thread is running: (stream + 1, index)
    static AT: Cell<(u64, u64)> = const { Cell::new((0, 0)) }; }
static CRASH_FD: AtomicI32 = AtomicI32::new(-1);
extern "C" { fn pwrite(fd: i32, buf: *const u8, n: usize, off: i64) -> isize; }
pub fn crash_file(fd: i32) { CRASH_FD.store(fd, Ordering::SeqCst); }
pub fn at_case(stream: u64, idx: u64) { AT.with(|a| a.set((stream, idx))); }
pub fn ceiling_bytes(b: u64) { CEILING.with(|c| c.set(b)); }
pub struct Counting;
fn note(n: usize) {
    let _ = TOTAL.try_with(|t| {
        let v = t.get() + n as u64;
        t.set(v);
        let lim = LIMIT.try_with(|l| l.get()).unwrap_or(u64::MAX);
        if v > lim {
            let _ = LIMIT.try_with(|l| l.set(u64::MAX));
            // name the case in the first record of the crash file, so that it need not be searched for
            let (s, i) = AT.try_with(|a| a.get()).unwrap_or((0, 0));
            let fd = CRASH_FD.load(Ordering::SeqCst);
            if fd >= 0 && s > 0 {
                let mut b = [0u8; 16];
                b[..8].copy_from_slice(&s.to_le_bytes());
                b[8..].copy_from_slice(&i.to_le_bytes());
                unsafe { pwrite(fd, b.as_ptr(), 16, 0); }
            }
            eprintln!("monitor: allocation ceiling exceeded in one library call");
            std::process::abort();
        }
    });
}
fn live(d: i64) { let _ = LIVE.try_with(|l| l.set(l.get() + d)); }
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { note(l.size()); live(l.size() as i64); System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { note(l.size()); live(l.size() as i64); System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { live(-(l.size() as i64)); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n.saturating_sub(l.size()));
        live(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}
pub fn total() -> u64 { TOTAL.with(|t| t.get()) }
pub fn live_here() -> i64 { LIVE.with(|t| t.get()) }
pub fn watch(on: bool) { let b = if on { total().saturating_add(CEILING.with(|c| c.get())) } else { u64::MAX }; LIMIT.with(|l| l.set(b)); }
