//! Process-level instrumentation: counting allocator with a limit, processor-time limit, stack of
//! a fixed size, panic capture.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};

pub struct Tracking;
static CUR: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);
static BIGGEST: AtomicUsize = AtomicUsize::new(0);
static ALLOCS: AtomicU64 = AtomicU64::new(0);

fn grow(n: usize) {
    let c = CUR.fetch_add(n, Relaxed) + n;
    PEAK.fetch_max(c, Relaxed);
    BIGGEST.fetch_max(n, Relaxed);
    ALLOCS.fetch_add(1, Relaxed);
    if c > LIMIT.load(Relaxed) {
        // the coordinator reads the exit status and the progress file
        unsafe { _exit(77) }
    }
}

unsafe impl GlobalAlloc for Tracking {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        grow(l.size());
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        grow(l.size());
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        CUR.fetch_sub(l.size(), Relaxed);
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() {
            grow(n - l.size());
        } else {
            CUR.fetch_sub(l.size() - n, Relaxed);
        }
        unsafe { System.realloc(p, l, n) }
    }
}

unsafe extern "C" {
    fn _exit(c: i32) -> !;
    fn setitimer(which: i32, new: *const [i64; 4], old: *mut [i64; 4]) -> i32;
    fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32;
    pub fn mkfifo(path: *const std::ffi::c_char, mode: u32) -> i32;
    pub fn setrlimit(res: i32, lim: *const [u64; 2]) -> i32;
    pub fn geteuid() -> u32;
}

/// Kills the process by SIGPROF once it has used this much processor time from now on.
pub fn cpu_limit(secs: f64) {
    if cfg!(miri) {
        return;
    }
    let s = secs as i64;
    let us = ((secs - s as f64) * 1e6) as i64;
    unsafe {
        setitimer(2, &[0, 0, s, us], std::ptr::null_mut());
    }
}
pub fn cpu_now() -> f64 {
    if cfg!(miri) {
        return 0.0;
    }
    let mut t = [0i64; 2];
    unsafe {
        clock_gettime(2, &mut t);
    }
    t[0] as f64 + t[1] as f64 / 1e9
}

pub fn heap_now() -> usize {
    CUR.load(Relaxed)
}
pub fn heap_reset() -> usize {
    let c = CUR.load(Relaxed);
    PEAK.store(c, Relaxed);
    BIGGEST.store(0, Relaxed);
    ALLOCS.store(0, Relaxed);
    c
}
pub fn heap_peak() -> usize {
    PEAK.load(Relaxed)
}
pub fn heap_biggest() -> usize {
    BIGGEST.load(Relaxed)
}
pub fn heap_allocs() -> u64 {
    ALLOCS.load(Relaxed)
}
pub fn heap_limit(extra: Option<usize>) {
    LIMIT.store(extra.map(|e| CUR.load(Relaxed).saturating_add(e)).unwrap_or(usize::MAX), Relaxed);
}

static QUIET: AtomicBool = AtomicBool::new(false);
thread_local! {
    static LAST: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
pub fn quiet_panics() {
    if QUIET.swap(true, SeqCst) {
        return;
    }
    std::panic::set_hook(Box::new(|i| {
        let m = format!("{i}");
        if ["unsafe precondition", "from an invalid value", "null pointer dereference", "misaligned pointer"].iter().any(|k| m.contains(k)) {
            // the process is about to abort: let the coordinator know why
            eprintln!("UNDEFINED {}", m.replace('\n', " "));
        }
        LAST.with(|l| *l.borrow_mut() = m.replace('\n', " "));
    }));
}
pub fn last_panic() -> String {
    LAST.with(|l| l.borrow().clone())
}
/// Runs `f`, turning a panic into its message.
pub fn caught<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| last_panic())
}
