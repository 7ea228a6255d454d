//! C31: the backtrace feature. The same inputs are answered by this build of the library, without
//! the feature, and by another process that was built with it; values, error texts and the chain
//! of their sources must be equal. With the feature every error must give a backtrace.
use crate::det::{self, In};
use crate::docgen::{Cx, Profile};
use crate::dump;
use crate::graph::*;
use crate::hostile::{self, Scratch};
use crate::rng::{Rng, hash_str};
use crate::run::Out;
use crate::sys;
use onenote_parser::Parser;
use onenote_parser::errors::Error;
use std::path::Path;

fn chain(e: &Error) -> String {
    let mut t = format!("Err {e}");
    let mut s = std::error::Error::source(e);
    let mut n = 0;
    while let Some(x) = s
        && n < 20
    {
        t.push_str(&format!(" <- {x}"));
        s = x.source();
        n += 1;
    }
    t
}

#[cfg(feature = "backtrace")]
fn backtrace(e: &Error) -> &'static str {
    use std::backtrace::BacktraceStatus::*;
    match std::error::request_ref::<std::backtrace::Backtrace>(e).map(|b| b.status()) {
        Some(Captured) => "captured",
        Some(_) => "disabled",
        None => "none",
    }
}
#[cfg(not(feature = "backtrace"))]
fn backtrace(_: &Error) -> &'static str {
    "not asked for"
}

fn text<T: std::fmt::Debug>(r: Result<Result<T, Error>, String>, d: impl Fn(&T) -> dump::Map) -> (String, &'static str) {
    match r {
        Ok(Ok(s)) => (
            sys::caught(|| {
                let m = d(&s);
                let mut h = 0u64;
                for (k, v) in &m {
                    h = h.wrapping_mul(31).wrapping_add(hash_str(k) ^ hash_str(v).rotate_left(7));
                }
                format!("Ok {} values {h:016x}, {:016x}", m.len(), hash_str(&format!("{s:?}")))
            })
            .unwrap_or_else(|_| "panic while reading".into()),
            "",
        ),
        Ok(Err(e)) => (chain(&e), backtrace(&e)),
        Err(_) => ("panic".into(), ""),
    }
}

fn answer(p: &Parser, i: &In) -> (String, &'static str) {
    let (t, b) = match i {
        In::Buffer(b, n) => text(sys::caught(|| p.parse_section_buffer(b, Path::new(n))), dump::dump_section),
        In::Section(f) => text(sys::caught(|| p.parse_section(f)), dump::dump_section),
        In::Notebook(f) => text(sys::caught(|| p.parse_notebook(f)), dump::dump_notebook),
    };
    (t.replace(['\n', '\r', '\t'], " "), b)
}

/// The other process: an answer for each line of the list.
pub fn answers(list: &Path) {
    sys::quiet_panics();
    let t = std::fs::read_to_string(list).unwrap();
    crate::run::on_stack(|| {
        let p = Parser::new();
        for l in t.lines() {
            let f: Vec<&str> = l.split('\t').collect();
            let i = match f[1] {
                "buffer" => In::Buffer(std::fs::read(f[2]).unwrap(), f[3].into()),
                "section" => In::Section(f[2].into()),
                _ => In::Notebook(f[2].into()),
            };
            let (a, b) = answer(&p, &i);
            println!("{}\t{a}\t{b}", f[0]);
        }
    });
}

fn files(d: &Scratch, r: &mut Rng, v: &mut Vec<In>) {
    // what can be wrong with files
    let f = |n: &str| d.0.join(n);
    std::fs::write(f("empty.one"), b"").unwrap();
    std::fs::create_dir(f("dir.one")).unwrap();
    std::fs::create_dir(f("dir.onetoc2")).unwrap();
    std::fs::write(f("toc.one"), encode(&hostile::rich_toc(r), &Opts::mild(), r).bytes).unwrap();
    let s = Cx::new(r.fork(), Profile::small()).section("s", "x.one");
    std::fs::write(f("sec.onetoc2"), encode(&s, &Opts::mild(), r).bytes).unwrap();
    for n in ["empty.one", "dir.one", "toc.one", "missing.one", "sec.onetoc2", "empty.one/x"] {
        v.push(In::Section(f(n)));
    }
    for n in ["empty.one", "dir.onetoc2", "toc.one", "missing.onetoc2", "sec.onetoc2"] {
        v.push(In::Notebook(f(n)));
    }
}

pub fn c31(out: &mut Out, n: u64) {
    let Some(exe) = std::env::var_os("VH_BACKTRACE") else {
        out.violation("HARNESS no build with the feature".into());
        return;
    };
    let mut r = out.rng();
    let mut ins: Vec<In> = vec![];
    let mut keep = vec![];
    for _ in 0..6 {
        let (v, d, kind) = det::draw(&mut r);
        out.stat(&format!("inputs: {kind}"), v.len() as u64);
        ins.extend(v);
        keep.push(d);
    }
    for _ in 0..16 {
        let k = if r.one_in(3) { r.u64() % hostile::catalogue_len() } else { u64::MAX };
        let c = hostile::case(k, &mut r);
        if c.bytes.len() < 300_000 {
            ins.push(In::Buffer(c.bytes, r.pick(&["x.one", "dir/y.one", "", "é.one", "noext"]).to_string()));
        }
    }
    if n % 8 == 0 {
        files(&keep[0], &mut r, &mut ins);
    }
    let d = &keep[0].0;
    let mut list = String::new();
    for (k, i) in ins.iter().enumerate() {
        match i {
            In::Buffer(b, name) => {
                let f = d.join(format!("c31-{k}"));
                std::fs::write(&f, b).unwrap();
                list.push_str(&format!("{k}\tbuffer\t{}\t{name}\n", f.display()));
            }
            In::Section(p) => list.push_str(&format!("{k}\tsection\t{}\t\n", p.display())),
            In::Notebook(p) => list.push_str(&format!("{k}\tnotebook\t{}\t\n", p.display())),
        }
    }
    let lf = d.join("c31-list");
    std::fs::write(&lf, list).unwrap();
    let on = r.flip();
    let p = Parser::new();
    out.step("answers without the feature");
    let want: Vec<String> = ins.iter().map(|i| answer(&p, i).0).collect();
    out.step("answers with the feature");
    let o = std::process::Command::new(exe).arg("answers-bt").arg(&lf).env("RUST_BACKTRACE", "0").env("RUST_LIB_BACKTRACE", if on { "1" } else { "0" }).output();
    let o = match o {
        Ok(o) => o,
        Err(e) => {
            out.violation(format!("HARNESS {e}"));
            return;
        }
    };
    let t = String::from_utf8_lossy(&o.stdout);
    let mut got = 0;
    for l in t.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        let k: usize = f[0].parse().unwrap();
        got += 1;
        out.eval();
        match &ins[k] {
            In::Buffer(b, _) => out.nontrivial_bytes(b),
            _ => out.nontrivial(hash_str(&want[k]) ^ (n << 8 | k as u64)),
        }
        out.stat(&format!("answers: {}", want[k].split(' ').next().unwrap_or("")), 1);
        if f[1] != want[k] {
            if let In::Buffer(b, _) = &ins[k] {
                out.input = b.clone();
            }
            out.violation(format!("input {k}: without the feature {}, with it {}", det::cut(&want[k]), det::cut(f[1])));
            return;
        }
        if want[k].starts_with("Err") {
            let exp = if on { "captured" } else { "disabled" };
            out.stat(&format!("errors whose backtrace is {}", f[2]), 1);
            if f[2] != exp {
                if let In::Buffer(b, _) = &ins[k] {
                    out.input = b.clone();
                }
                out.violation(format!("input {k}: the error's backtrace is {}, not {exp}: {}", f[2], det::cut(&want[k])));
                return;
            }
            out.sample(|| format!("{}: the same with the feature, backtrace {}", det::cut(&want[k]), f[2]));
        }
    }
    if got < ins.len() {
        out.violation(format!("with the feature the process ended ({}) at input {got} where it answers {} without", o.status, det::cut(&want[got])));
    }
}
