//! C33: what a parse allocates is released with its result.
use crate::bits::*;
use crate::content;
use crate::docgen::*;
use crate::graph::*;
use crate::hostile::{self, Scratch};
use crate::io::{self, Fault};
use crate::px::{self, Lim, Res};
use crate::rng::Rng;
use crate::run::Out;
use crate::sys;
use onenote_parser::Parser;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

/// What one process may set up once and for all, however much it parses.
const ONCE: u64 = 64 << 10;
static KEPT: AtomicU64 = AtomicU64::new(0);
const CALL: Lim = Lim { cpu: 60.0, heap: 6 << 30 };

enum In {
    Bytes(Vec<u8>, &'static str),
    Section(PathBuf),
    Notebook(PathBuf),
}

/// Parses, looks at the result and drops it.
fn once(x: &In, walk: bool, fault: Fault) -> &'static str {
    // faults are injected into what the library does, not into looking at its result
    fn faulty<T>(fault: Fault, f: impl FnOnce() -> T) -> T {
        if fault == Fault::None {
            return f();
        }
        io::begin(fault, 5);
        let r = f();
        drop(io::end());
        r
    }
    fn end<T>(r: Res<T>, see: impl Fn(&T)) -> &'static str {
        match &r {
            Res::Ok(v) => {
                see(v);
                "parsed"
            }
            Res::Err(_) => "rejected",
            Res::Panic(_) => "panicked",
        }
    }
    match x {
        In::Bytes(b, name) => end(px::section_lim(b, name, CALL), |s| {
            if walk {
                drop(s.clone());
                drop(crate::dump::dump_section(s));
            }
        }),
        In::Section(p) => end(faulty(fault, || px::section_file(p)), |s| {
            if walk {
                drop(crate::dump::dump_section(s));
            }
        }),
        In::Notebook(p) => end(faulty(fault, || px::notebook_lim(p, CALL)), |s| {
            if walk {
                drop(crate::dump::dump_notebook(s));
            }
        }),
    }
}

fn threads() -> usize {
    std::fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(0)
}

fn watch(out: &mut Out, label: &str, x: &In, bytes: &[u8]) {
    watch_faulty(out, label, x, bytes, Fault::None);
}

/// A file or notebook whose opening, listing or reading goes wrong somewhere.
fn faults(out: &mut Out, label: &str, x: &In, bytes: &[u8], r: &mut Rng) {
    for _ in 0..4 {
        let f = match r.below(6) {
            0 => Fault::Short(r.range(1, 3000)),
            1 => Fault::Eintr(r.range(1, 3000)),
            2 | 3 => Fault::ReadFails(r.below(6) as u64),
            4 => Fault::OpenFails(r.below(4) as u64, *r.pick(&[2, 5, 13, 24])),
            _ => Fault::DirFails(r.below(3) as u64),
        };
        out.stat("faults injected", 1);
        watch_faulty(out, &format!("{label}, {f:?}"), x, bytes, f);
    }
}

fn watch_faulty(out: &mut Out, label: &str, x: &In, bytes: &[u8], fault: Fault) {
    out.eval();
    out.step(label);
    out.nontrivial_bytes(bytes);
    let tasks = threads();
    let files = io::open_fds().len();
    let mut grown = vec![];
    let mut what = "";
    // the first time may set something up; after that nothing may stay
    for k in 0..3 {
        let before = sys::heap_reset();
        what = once(x, k == 2, fault);
        let after = sys::heap_now();
        grown.push(after as i64 - before as i64);
        out.stat("allocations observed", sys::heap_allocs());
    }
    out.stat(what, 1);
    out.stat("parses watched", 3);
    if what == "panicked" {
        // a panic carries its message along; panics are judged by C01
        return;
    }
    let kept = KEPT.fetch_add(grown[0].max(0) as u64, Relaxed) + grown[0].max(0) as u64;
    out.stat_max("bytes kept by a process for all its parses", kept);
    let mut bad = vec![];
    if grown[1] != 0 || grown[2] != 0 {
        bad.push(format!("parsing the same input again leaves {} and {} bytes allocated", grown[1], grown[2]));
    }
    if kept > ONCE {
        bad.push(format!("the parses of this process left {kept} bytes allocated, {} by this one", grown[0]));
        KEPT.store(0, Relaxed);
    }
    // a thread that has been joined may be listed a little longer
    let mut now = threads();
    for _ in 0..500 {
        if now <= tasks {
            break;
        }
        std::thread::sleep(std::time::Duration::from_millis(10));
        now = threads();
    }
    if now > tasks {
        bad.push(format!("{} threads are left running", now as i64 - tasks as i64));
    }
    let open = io::open_fds().len();
    if open > files {
        bad.push(format!("{} files are left open", open - files));
    }
    if !bad.is_empty() {
        out.input = bytes.to_vec();
        out.violation(format!("{label} ({what}): {}", bad.join("; ")));
    }
}

/// The result is made on one thread and dropped on another.
fn handed_over(out: &mut Out, b: &[u8]) {
    out.eval();
    out.step("handed over");
    let go = || {
        let r = std::thread::scope(|s| {
            s.spawn(|| Parser::new().parse_section_buffer(b, Path::new("x.one")).map_err(|e| e.to_string())).join()
        });
        drop(r);
    };
    go();
    let mut grown = vec![];
    for _ in 0..3 {
        let before = sys::heap_now();
        go();
        grown.push(sys::heap_now() as i64 - before as i64);
    }
    out.stat("results dropped on another thread", 4);
    // the threads of the harness come and go: what matters is that it does not add up
    if grown.iter().all(|g| *g > 0) {
        out.input = b.to_vec();
        out.violation(format!("a result handed to another thread and dropped there leaves {grown:?} bytes"));
    }
}

pub fn c33(out: &mut Out, n: u64) {
    let mut r = out.rng();
    if n == 0 {
        for (name, b) in hostile::samples() {
            if name.ends_with(".one") {
                watch(out, &format!("sample {name}"), &In::Bytes(b.clone(), "x.one"), &b);
            }
        }
    }
    match n % 8 {
        0 | 1 => {
            let p = content::profile("C16", n / 8, out.thorough());
            let (_, store) = content::make(out, p, "x.one");
            let e = encode(&store, &Opts::wild(), &mut r);
            watch(out, "document", &In::Bytes(e.bytes.clone(), "x.one"), &e.bytes);
            if n % 16 == 0 {
                handed_over(out, &e.bytes);
            }
            // the same document cut short: an error from the middle of things
            let k = r.below(e.bytes.len());
            watch(out, "document cut short", &In::Bytes(e.bytes[..k].to_vec(), "x.one"), &e.bytes[..k]);
        }
        2 => {
            let d = Scratch::new("leak");
            let s = hostile::rich_doc(&mut r);
            let b = encode(&s, &Opts::mild(), &mut r).bytes;
            let p = d.0.join("a.one");
            std::fs::write(&p, &b).unwrap();
            watch(out, "section on disk", &In::Section(p.clone()), &b);
            faults(out, "section on disk", &In::Section(p.clone()), &b, &mut r);
            let toc = hostile::rich_toc(&mut r);
            let tb = encode(&toc, &Opts::mild(), &mut r).bytes;
            std::fs::write(d.0.join("x.onetoc2"), &tb).unwrap();
            watch(out, "table of contents as a section", &In::Section(d.0.join("x.onetoc2")), &tb);
            watch(out, "section as a table of contents", &In::Notebook(p), &b);
            watch(out, "missing file", &In::Section(d.0.join("none.one")), b"missing");
        }
        3 => {
            let d = Scratch::new("leak");
            let names = ["a.one", "group", "b.one", "gone.one", "group/c.one"];
            let k = r.range(1, names.len());
            let toc = crate::mini::bytes(&crate::mini::toc(&names[..k]));
            std::fs::create_dir_all(d.0.join("group")).unwrap();
            let s = hostile::rich_doc(&mut r);
            let b = encode(&s, &Opts::mild(), &mut r).bytes;
            for f in ["a.one", "b.one", "group/c.one"] {
                let cut = if r.one_in(4) { r.below(b.len()) } else { b.len() };
                std::fs::write(d.0.join(f), &b[..cut]).unwrap();
            }
            std::fs::write(d.0.join("group/y.onetoc2"), crate::mini::bytes(&crate::mini::toc(&["c.one"]))).unwrap();
            let p = d.0.join("x.onetoc2");
            std::fs::write(&p, &toc).unwrap();
            let mut id = toc.clone();
            id.extend(&b);
            let x = In::Notebook(p);
            watch(out, "notebook", &x, &id);
            faults(out, "notebook", &x, &id, &mut r);
        }
        _ => {
            for _ in 0..4 {
                let c = hostile::case(n, &mut r);
                if c.bytes.len() > 1 << 20 {
                    continue;
                }
                watch(out, &c.label, &In::Bytes(c.bytes.clone(), "x.one"), &c.bytes);
                if c.toc {
                    let d = Scratch::new("leak");
                    let p = d.0.join("x.onetoc2");
                    std::fs::write(&p, &c.bytes).unwrap();
                    watch(out, &format!("{} on disk", c.label), &In::Notebook(p), &c.bytes);
                }
            }
        }
    }
    if n % 97 == 0 {
        out.sample(|| format!("case {n}: {} bytes of heap in use between parses, {} kept for good", sys::heap_now(), KEPT.load(Relaxed)));
    }
    let _: Option<(Profile, Rng, EG)> = None;
}
