//! C04: no undefined behaviour. Workers of an AddressSanitizer (thorough: also a MemorySanitizer)
//! build parse hostile and generated inputs and read everything the accessors give; Miri
//! interprets the same on small inputs. Strings are checked to be strings.
use crate::docgen::{Cx, Profile, layer};
use crate::dump;
use crate::graph::*;
use crate::hostile::{self, Scratch, Sink};
use crate::mini;
use crate::px::{self, Res};
use crate::rng::Rng;
use crate::run::Out;
use crate::sys;
use onenote_parser::Parser;
use std::path::Path;

/// Small inputs for the interpreter: label, bytes, is it a table of contents?
pub fn small(r: &mut Rng, k: usize) -> (String, Vec<u8>, bool) {
    match k % 10 {
        0..=3 => {
            let mut p = Profile { budget: 2, present: *r.pick(&[20, 50]), ..Profile::small() };
            p.page_items = (1, 1);
            p.noise = 0;
            p.big = 0;
            match k % 4 {
                0 => p.w_content = [40, 15, 12, 10, 12, 3],
                1 => p.w_content = [80, 0, 0, 0, 20, 0],
                2 => p.w_content = [10, 20, 30, 30, 20, 10],
                _ => {}
            }
            p.tags = 30;
            p.math = 20;
            p.embedded = 30;
            let mut s = Cx::new(r.fork(), p).section("s", "x.one");
            if r.one_in(4) {
                layer(&mut s, r, 2);
            }
            let o = if r.one_in(3) { Opts::wild() } else { Opts::mild() };
            ("document".into(), encode(&s, &o, r).bytes, false)
        }
        4 => {
            let s = if r.flip() { mini::toc(&["a.one", "g", "b.one"]) } else { hostile::rich_toc(r) };
            ("table of contents".into(), encode(&s, &Opts::mild(), r).bytes, true)
        }
        _ => loop {
            // damaged, small
            let c = hostile::case(if r.one_in(3) { r.u64() % hostile::catalogue_len() } else { u64::MAX }, r);
            if c.bytes.len() < 2500 {
                return (c.label, c.bytes, c.toc);
            }
        },
    }
}

/// Writes inputs and the list of them.
fn corpus(dir: &Path, r: &mut Rng, shard: usize, n: usize, out: &mut Out) -> std::path::PathBuf {
    let mut t = String::new();
    for k in 0..n {
        let (label, b, toc) = small(r, shard * 3 + k);
        let f = dir.join(format!("{k}.{}", if toc { "onetoc2" } else { "one" }));
        std::fs::write(&f, &b).unwrap();
        out.nontrivial_bytes(&b);
        out.stat(&format!("interpreted: {}", label.split([':', ' ']).next().unwrap_or("")), 1);
        out.stat("bytes interpreted", b.len() as u64);
        t.push_str(&format!("{k}\t{}\t{}\tx.one\n", if toc { "notebook" } else { "buffer" }, f.display()));
        let _ = label;
    }
    let list = dir.join("list");
    std::fs::write(&list, t).unwrap();
    list
}

/// What the interpreter runs: every input of the list parsed and read, the answers thrown away.
pub fn interpret(list: &Path) {
    sys::quiet_panics();
    let t = std::fs::read_to_string(list).unwrap();
    let p = Parser::new();
    for l in t.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        eprintln!("INPUT {}", f[2]);
        // hashing or printing the answers would take most of the time
        let a = if f[1] == "buffer" {
            let b = std::fs::read(f[2]).unwrap();
            read(sys::caught(|| p.parse_section_buffer(&b, Path::new(f[3]))), dump::dump_section)
        } else {
            read(sys::caught(|| p.parse_notebook(Path::new(f[2]))), dump::dump_notebook)
        };
        println!("{}\t{a}", f[0]);
    }
}

fn read<T: std::fmt::Debug>(r: Result<Result<T, onenote_parser::errors::Error>, String>, d: impl Fn(&T) -> dump::Map) -> String {
    match r {
        Ok(Ok(v)) => {
            let mut k = Sink(0);
            let _ = sys::caught(|| std::fmt::Write::write_fmt(&mut k, format_args!("{v:?}")));
            format!("Ok {} values", sys::caught(|| d(&v).len()).unwrap_or(0))
        }
        Ok(Err(e)) => format!("Err {}", e.to_string().len()),
        Err(_) => "panic".into(),
    }
}

fn strings(out: &mut Out, m: &dump::Map) {
    for (k, v) in m {
        if std::str::from_utf8(std::hint::black_box(v.as_bytes())).is_err() || std::str::from_utf8(std::hint::black_box(k.as_bytes())).is_err() {
            out.violation(format!("a text value at {k:?} is not valid UTF-8"));
            return;
        }
        out.stat("text values checked", 1);
    }
}

fn natively(out: &mut Out, r: &mut Rng, n: u64) {
    let c = if n % 3 == 0 {
        let mut p = Profile::base();
        p.budget = *r.pick(&[6, 20]);
        p.present = *r.pick(&[20, 60, 90]);
        p.tags = 30;
        p.math = 20;
        p.embedded = 25;
        let s = Cx::new(r.fork(), p).section("s", "x.one");
        hostile::Case { label: "document".into(), toc: false, bytes: encode(&s, &Opts::wild(), r).bytes }
    } else {
        hostile::case(if n < hostile::catalogue_len() { n } else { u64::MAX }, r)
    };
    out.eval();
    out.step(&c.label);
    out.nontrivial_bytes(&c.bytes);
    out.stat("bytes parsed", c.bytes.len() as u64);
    // of its own allocation, exactly as long as the input: one byte further is not ours
    let exact: Box<[u8]> = c.bytes.clone().into_boxed_slice();
    let lim = px::Lim { cpu: 120.0, heap: 1 << 30 };
    match px::section_lim(&exact, "h.one", lim) {
        Res::Ok(s) => {
            drop(exact);
            let _ = sys::caught(|| {
                let m = dump::dump_section(&s);
                strings(out, &m);
                let mut k = Sink(0);
                let _ = std::fmt::Write::write_fmt(&mut k, format_args!("{s:?}"));
                let copy = s.clone();
                drop(s);
                let m2 = dump::dump_section(&copy);
                if m != m2 {
                    out.violation("a copy of the result reads differently".into());
                }
            });
            out.stat("parsed", 1);
        }
        Res::Err(e) => {
            if std::str::from_utf8(std::hint::black_box(e.as_bytes())).is_err() {
                out.violation("an error message is not valid UTF-8".into());
            }
            out.stat("rejected", 1)
        }
        Res::Panic(_) => out.stat("panicked (C01)", 1),
    }
    if cfg!(not(feature = "msan")) && (c.toc || n % 20 == 0) {
        let d = Scratch::new("ub");
        let p = d.0.join(if c.toc { "x.onetoc2" } else { "x.one" });
        std::fs::write(&p, &c.bytes).unwrap();
        if c.toc {
            if let Res::Ok(nb) = px::notebook_lim(&p, lim) {
                strings(out, &dump::dump_notebook(&nb));
                out.stat("notebooks parsed", 1);
            }
        } else if let Res::Ok(s) = px::section_file(&p) {
            strings(out, &dump::dump_section(&s));
            out.stat("files parsed", 1);
        }
    }
}

/// Cases that Miri runs come first.
pub const SHARDS: u64 = 8;

pub fn c04(out: &mut Out, n: u64) {
    let mut r = out.rng();
    if n >= SHARDS {
        for _ in 0..4 {
            natively(out, &mut r, n - SHARDS);
        }
        return;
    }
    let Some(miri) = std::env::var_os("VH_MIRI") else { return };
    let per = if out.thorough() { 60 } else { 6 };
    let d = Scratch::new("miri");
    let list = corpus(&d.0, &mut r, n as usize, per, out);
    out.step("interpreted inputs");
    let o = std::process::Command::new("/bin/bash").arg(miri).arg("interpret").arg(&list).output();
    match o {
        Ok(o) => {
            let err = String::from_utf8_lossy(&o.stderr);
            let done = String::from_utf8_lossy(&o.stdout).lines().count() as u64;
            out.evals(done);
            out.stat("inputs interpreted by Miri", done);
            out.stat("of these parsed", String::from_utf8_lossy(&o.stdout).lines().filter(|l| l.contains("\tOk")).count() as u64);
            let at = err.lines().rev().find_map(|l| l.strip_prefix("INPUT ")).unwrap_or("");
            if let Some(l) = err.lines().find(|l| l.contains("Undefined Behavior")) {
                out.input = std::fs::read(at).unwrap_or_default();
                let place = err.lines().find(|l| l.trim_start().starts_with("--> ")).unwrap_or("").trim().to_string();
                out.violation(format!("Miri: {l} {place}"));
            } else if !o.status.success() {
                out.violation(format!("HARNESS Miri ended with {}: {}", o.status, err.chars().rev().take(600).collect::<String>().chars().rev().collect::<String>()));
            }
        }
        Err(e) => out.violation(format!("HARNESS {e}")),
    }
}
