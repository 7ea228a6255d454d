//! Interposed C library calls: what the code under test does to the file system is recorded, and
//! reads can be made short, interrupted or failing.
//!
//! The definitions replace libc's for the whole executable; they pass every call on. Recording
//! and faults are active between `begin` and `end` only.
use std::ffi::{CStr, c_char, c_int, c_long, c_uint, c_void};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    /// path as given, flags, resulting descriptor or -errno, where the descriptor points to
    Open { path: String, flags: i32, ret: i64, target: String },
    Close { fd: i32 },
    Read { fd: i32, want: usize, ret: i64 },
    /// anything that could change the world
    Mutate { call: &'static str, detail: String },
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    None,
    /// every read returns at most this many bytes, drawn anew
    Short(usize),
    /// short reads with interruptions in between
    Eintr(usize),
    /// the k-th read fails with EIO
    ReadFails(u64),
    /// the k-th open fails with this error number
    OpenFails(u64, i32),
    /// the k-th directory entry fails with EIO
    DirFails(u64),
}

static ON: AtomicBool = AtomicBool::new(false);
static LOG: Mutex<Vec<Ev>> = Mutex::new(vec![]);
static FAULT: Mutex<Fault> = Mutex::new(Fault::None);
static STATE: AtomicU64 = AtomicU64::new(1);
static READS: AtomicU64 = AtomicU64::new(0);
static OPENS: AtomicU64 = AtomicU64::new(0);
static DIRS: AtomicU64 = AtomicU64::new(0);
static FIRED: AtomicU64 = AtomicU64::new(0);

pub struct Trace {
    pub ev: Vec<Ev>,
    pub fired: u64,
}

pub fn begin(f: Fault, seed: u64) {
    LOG.lock().unwrap().clear();
    *FAULT.lock().unwrap() = f;
    STATE.store(seed | 1, SeqCst);
    for c in [&READS, &OPENS, &DIRS, &FIRED] {
        c.store(0, SeqCst);
    }
    ON.store(true, SeqCst);
}
pub fn end() -> Trace {
    ON.store(false, SeqCst);
    Trace { ev: std::mem::take(&mut *LOG.lock().unwrap()), fired: FIRED.load(SeqCst) }
}
fn on() -> bool {
    ON.load(Relaxed)
}

/// 0: the world as it is; otherwise every environment variable is set, and the date is another one
static WORLD: AtomicU64 = AtomicU64::new(0);
static ASKED: AtomicU64 = AtomicU64::new(0);
pub const WORLDS: u64 = 6;

/// Runs `f` in another world: what the environment and the calendar answer is made up.
/// Also tells how often they were asked.
pub fn elsewhere<T>(world: u64, f: impl FnOnce() -> T) -> (T, u64) {
    ASKED.store(0, SeqCst);
    WORLD.store(world, SeqCst);
    let r = f();
    WORLD.store(0, SeqCst);
    (r, ASKED.load(SeqCst))
}
fn log(e: Ev) {
    // recording itself must not be recorded
    ON.store(false, SeqCst);
    LOG.lock().unwrap().push(e);
    ON.store(true, SeqCst);
}
fn draw(n: u64) -> u64 {
    let mut x = STATE.load(Relaxed);
    x ^= x << 13;
    x ^= x >> 7;
    x ^= x << 17;
    STATE.store(x, Relaxed);
    (x >> 11) % n.max(1)
}

unsafe extern "C" {
    fn dlsym(h: *mut c_void, n: *const c_char) -> *mut c_void;
    fn __errno_location() -> *mut c_int;
    fn readlink(p: *const c_char, b: *mut c_char, n: usize) -> isize;
}
fn set_errno(e: c_int) {
    unsafe { *__errno_location() = e }
}
fn errno() -> c_int {
    unsafe { *__errno_location() }
}
unsafe fn text(p: *const c_char) -> String {
    if p.is_null() { String::new() } else { unsafe { CStr::from_ptr(p) }.to_string_lossy().into_owned() }
}
fn target(fd: c_int) -> String {
    if fd < 0 {
        return String::new();
    }
    let p = format!("/proc/self/fd/{fd}\0");
    let mut b = [0u8; 4096];
    let n = unsafe { readlink(p.as_ptr().cast(), b.as_mut_ptr().cast(), b.len()) };
    if n < 0 { "?".into() } else { String::from_utf8_lossy(&b[..n as usize]).into_owned() }
}

macro_rules! next {
    ($name:expr, $t:ty) => {{
        static P: AtomicU64 = AtomicU64::new(0);
        let mut p = P.load(Relaxed);
        if p == 0 {
            p = unsafe { dlsym(-1isize as *mut c_void, concat!($name, "\0").as_ptr().cast()) } as u64;
            P.store(p, Relaxed);
        }
        let f: $t = unsafe { std::mem::transmute(p as usize) };
        f
    }};
}

const O_CREAT: c_int = 0o100;
const EIO: c_int = 5;
const EINTR: c_int = 4;

fn open_fault() -> Option<c_int> {
    let k = OPENS.fetch_add(1, SeqCst);
    match *FAULT.lock().unwrap() {
        Fault::OpenFails(n, e) if n == k => {
            FIRED.fetch_add(1, SeqCst);
            Some(e)
        }
        _ => None,
    }
}

macro_rules! opens {
    ($($name:ident),*) => {$(
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn $name(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
            let f = next!(stringify!($name), unsafe extern "C" fn(*const c_char, c_int, c_uint) -> c_int);
            if !on() {
                return unsafe { f(path, flags, mode) };
            }
            if let Some(e) = open_fault() {
                log(Ev::Open { path: unsafe { text(path) }, flags, ret: -(e as i64), target: String::new() });
                set_errno(e);
                return -1;
            }
            let r = unsafe { f(path, flags, mode) };
            let e = errno();
            log(Ev::Open { path: unsafe { text(path) }, flags, ret: if r < 0 { -(e as i64) } else { r as i64 }, target: target(r) });
            set_errno(e);
            r
        }
    )*};
}
macro_rules! openats {
    ($($name:ident),*) => {$(
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn $name(d: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
            let f = next!(stringify!($name), unsafe extern "C" fn(c_int, *const c_char, c_int, c_uint) -> c_int);
            if !on() {
                return unsafe { f(d, path, flags, mode) };
            }
            if let Some(e) = open_fault() {
                set_errno(e);
                return -1;
            }
            let r = unsafe { f(d, path, flags, mode) };
            let e = errno();
            log(Ev::Open { path: unsafe { text(path) }, flags, ret: if r < 0 { -(e as i64) } else { r as i64 }, target: target(r) });
            set_errno(e);
            r
        }
    )*};
}

#[cfg(feature = "io")]
opens!(open, open64);
#[cfg(feature = "io")]
openats!(openat, openat64);

#[cfg(feature = "io")]
mod shims {
    use super::*;

    #[unsafe(no_mangle)]
    pub unsafe extern "C" fn getenv(name: *const c_char) -> *const c_char {
        let f = next!("getenv", unsafe extern "C" fn(*const c_char) -> *const c_char);
        let w = WORLD.load(Relaxed);
        if w == 0 || unsafe { CStr::from_ptr(name) }.to_bytes().starts_with(b"RUST_") {
            return unsafe { f(name) };
        }
        ASKED.fetch_add(1, SeqCst);
        match w {
            1 => c"1".as_ptr(),
            2 => c"de_DE.UTF-8".as_ptr(),
            3 => c"/nonexistent".as_ptr(),
            4 => c"0".as_ptr(),
            5 => c"true".as_ptr(),
            _ => std::ptr::null(),
        }
    }
    #[unsafe(no_mangle)]
    pub unsafe extern "C" fn clock_gettime(id: c_int, t: *mut [i64; 2]) -> c_int {
        let f = next!("clock_gettime", unsafe extern "C" fn(c_int, *mut [i64; 2]) -> c_int);
        let r = unsafe { f(id, t) };
        let w = WORLD.load(Relaxed);
        // CLOCK_REALTIME
        if w != 0 && id == 0 && r == 0 {
            ASKED.fetch_add(1, SeqCst);
            let day = 86_400;
            unsafe { (*t)[0] += [0, 3_653 * day, -9_131 * day, 40_000 * day, day / 2, -2_922 * day - 7][w.min(5) as usize] };
        }
        r
    }

    fn read_plan(want: usize) -> Result<usize, c_int> {
        let k = READS.fetch_add(1, SeqCst);
        match *FAULT.lock().unwrap() {
            Fault::Short(m) => {
                let n = want.min(1 + draw(m as u64) as usize);
                if n < want {
                    FIRED.fetch_add(1, SeqCst);
                }
                Ok(n)
            }
            Fault::Eintr(m) => {
                FIRED.fetch_add(1, SeqCst);
                if draw(3) == 0 { Err(EINTR) } else { Ok(want.min(1 + draw(m as u64) as usize)) }
            }
            Fault::ReadFails(n) if n == k => {
                FIRED.fetch_add(1, SeqCst);
                Err(EIO)
            }
            Fault::ReadFails(_) => Ok(want.min(997)),
            _ => Ok(want),
        }
    }
    #[unsafe(no_mangle)]
    pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: usize) -> isize {
        let f = next!("read", unsafe extern "C" fn(c_int, *mut c_void, usize) -> isize);
        if !on() {
            return unsafe { f(fd, b, n) };
        }
        let r = match if n == 0 { Ok(0) } else { read_plan(n) } {
            Ok(m) => unsafe { f(fd, b, m) },
            Err(e) => {
                set_errno(e);
                -1
            }
        };
        let e = errno();
        log(Ev::Read { fd, want: n, ret: if r < 0 { -(e as i64) } else { r as i64 } });
        set_errno(e);
        r
    }
    #[unsafe(no_mangle)]
    pub unsafe extern "C" fn pread64(fd: c_int, b: *mut c_void, n: usize, o: i64) -> isize {
        let f = next!("pread64", unsafe extern "C" fn(c_int, *mut c_void, usize, i64) -> isize);
        if !on() {
            return unsafe { f(fd, b, n, o) };
        }
        match if n == 0 { Ok(0) } else { read_plan(n) } {
            Ok(m) => unsafe { f(fd, b, m, o) },
            Err(e) => {
                set_errno(e);
                -1
            }
        }
    }
    #[unsafe(no_mangle)]
    pub unsafe extern "C" fn close(fd: c_int) -> c_int {
        let f = next!("close", unsafe extern "C" fn(c_int) -> c_int);
        if on() {
            log(Ev::Close { fd });
        }
        unsafe { f(fd) }
    }
    #[unsafe(no_mangle)]
    pub unsafe extern "C" fn opendir(path: *const c_char) -> *mut c_void {
        let f = next!("opendir", unsafe extern "C" fn(*const c_char) -> *mut c_void);
        let g = next!("dirfd", unsafe extern "C" fn(*mut c_void) -> c_int);
        if !on() {
            return unsafe { f(path) };
        }
        if let Some(e) = open_fault() {
            set_errno(e);
            return std::ptr::null_mut();
        }
        let r = unsafe { f(path) };
        let e = errno();
        let fd = if r.is_null() { -1 } else { unsafe { g(r) } };
        log(Ev::Open { path: unsafe { text(path) }, flags: 0o200000, ret: if fd < 0 { -(e as i64) } else { fd as i64 }, target: target(fd) });
        set_errno(e);
        r
    }
    #[unsafe(no_mangle)]
    pub unsafe extern "C" fn readdir64(d: *mut c_void) -> *mut c_void {
        let f = next!("readdir64", unsafe extern "C" fn(*mut c_void) -> *mut c_void);
        if on() {
            let k = DIRS.fetch_add(1, SeqCst);
            if *FAULT.lock().unwrap() == Fault::DirFails(k) {
                FIRED.fetch_add(1, SeqCst);
                set_errno(EIO);
                return std::ptr::null_mut();
            }
        }
        unsafe { f(d) }
    }

    macro_rules! mutating_path {
        ($($name:ident($($a:ident: $t:ty),*) -> $r:ty;)*) => {$(
            #[unsafe(no_mangle)]
            pub unsafe extern "C" fn $name(p: *const c_char $(, $a: $t)*) -> $r {
                let f = next!(stringify!($name), unsafe extern "C" fn(*const c_char $(, $t)*) -> $r);
                if on() {
                    log(Ev::Mutate { call: stringify!($name), detail: unsafe { text(p) } });
                }
                unsafe { f(p $(, $a)*) }
            }
        )*};
    }
    mutating_path! {
        unlink() -> c_int;
        rmdir() -> c_int;
        mkdir(m: c_uint) -> c_int;
        chmod(m: c_uint) -> c_int;
        rename(n: *const c_char) -> c_int;
        link(n: *const c_char) -> c_int;
        symlink(n: *const c_char) -> c_int;
        truncate64(n: i64) -> c_int;
        creat64(m: c_uint) -> c_int;
        chown(u: c_uint, g: c_uint) -> c_int;
        lchown(u: c_uint, g: c_uint) -> c_int;
        chdir() -> c_int;
        mknod(m: c_uint, d: u64) -> c_int;
        setenv(v: *const c_char, o: c_int) -> c_int;
        unsetenv() -> c_int;
    }
    macro_rules! mutating_fd {
        ($($name:ident($($a:ident: $t:ty),*) -> $r:ty;)*) => {$(
            #[unsafe(no_mangle)]
            pub unsafe extern "C" fn $name(fd: c_int $(, $a: $t)*) -> $r {
                let f = next!(stringify!($name), unsafe extern "C" fn(c_int $(, $t)*) -> $r);
                if on() {
                    log(Ev::Mutate { call: stringify!($name), detail: format!("fd {fd} ({})", target(fd)) });
                }
                unsafe { f(fd $(, $a)*) }
            }
        )*};
    }
    mutating_fd! {
        unlinkat(p: *const c_char, fl: c_int) -> c_int;
        mkdirat(p: *const c_char, m: c_uint) -> c_int;
        fchmod(m: c_uint) -> c_int;
        fchmodat(p: *const c_char, m: c_uint, fl: c_int) -> c_int;
        fchown(u: c_uint, g: c_uint) -> c_int;
        fchownat(p: *const c_char, u: c_uint, g: c_uint, fl: c_int) -> c_int;
        ftruncate64(n: i64) -> c_int;
        futimens(t: *const c_void) -> c_int;
        utimensat(p: *const c_char, t: *const c_void, fl: c_int) -> c_int;
        renameat(p: *const c_char, d: c_int, q: *const c_char) -> c_int;
        linkat(p: *const c_char, d: c_int, q: *const c_char, fl: c_int) -> c_int;
        write(b: *const c_void, n: usize) -> isize;
        writev(b: *const c_void, n: c_int) -> isize;
        pwrite64(b: *const c_void, n: usize, o: i64) -> isize;
        socket(t: c_int, p: c_int) -> c_int;
        connect(a: *const c_void, l: c_uint) -> c_int;
        sendto(b: *const c_void, n: usize, fl: c_int, a: *const c_void, l: c_uint) -> isize;
        flock(op: c_int) -> c_int;
    }
    #[unsafe(no_mangle)]
    pub unsafe extern "C" fn fork() -> c_int {
        let f = next!("fork", unsafe extern "C" fn() -> c_int);
        if on() {
            log(Ev::Mutate { call: "fork", detail: String::new() });
        }
        unsafe { f() }
    }
    #[unsafe(no_mangle)]
    pub unsafe extern "C" fn posix_spawnp(
        a: *mut c_int,
        p: *const c_char,
        b: *const c_void,
        c: *const c_void,
        d: *const c_void,
        e: *const c_void,
    ) -> c_int {
        let f = next!(
            "posix_spawnp",
            unsafe extern "C" fn(*mut c_int, *const c_char, *const c_void, *const c_void, *const c_void, *const c_void) -> c_int
        );
        if on() {
            log(Ev::Mutate { call: "posix_spawnp", detail: unsafe { text(p) } });
        }
        unsafe { f(a, p, b, c, d, e) }
    }
    #[unsafe(no_mangle)]
    pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, g: c_long) -> c_long {
        let f = next!("syscall", unsafe extern "C" fn(c_long, c_long, c_long, c_long, c_long, c_long, c_long) -> c_long);
        // futex, getrandom, gettid, statx and membarrier are harmless
        if on() && ![202, 318, 186, 332, 324].contains(&n) {
            log(Ev::Mutate { call: "syscall", detail: n.to_string() });
        }
        unsafe { f(n, a, b, c, d, e, g) }
    }
}

pub fn writable(flags: i32) -> bool {
    flags & 3 != 0 || flags & O_CREAT != 0 || flags & 0o1000 != 0 || flags & 0o20000000 == 0o20000000
}

impl Trace {
    /// What a reader has no business doing.
    pub fn mutations(&self) -> Vec<String> {
        let mut v = vec![];
        for e in &self.ev {
            match e {
                Ev::Mutate { call, detail } => v.push(format!("{call} {detail}")),
                Ev::Open { path, flags, .. } if writable(*flags) => v.push(format!("open {path} for writing (flags {flags:o})")),
                _ => {}
            }
        }
        v
    }
    /// Where the opened descriptors pointed to.
    pub fn targets(&self) -> Vec<&str> {
        self.ev
            .iter()
            .filter_map(|e| match e {
                Ev::Open { ret, target, .. } if *ret >= 0 => Some(target.as_str()),
                _ => None,
            })
            .collect()
    }
    pub fn reads(&self) -> usize {
        self.ev.iter().filter(|e| matches!(e, Ev::Read { .. })).count()
    }
}

/// Descriptors open in this process.
pub fn open_fds() -> Vec<String> {
    let mut v: Vec<String> = std::fs::read_dir("/proc/self/fd")
        .map(|d| {
            d.flatten()
                .filter_map(|e| std::fs::read_link(e.path()).ok().map(|t| format!("{} {}", e.file_name().to_string_lossy(), t.display())))
                .filter(|s| !s.contains("/fd"))
                .collect()
        })
        .unwrap_or_default();
    v.sort();
    v
}
