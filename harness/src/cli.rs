//! C30: the command-line tool against the library, on well-formed, hostile and missing files,
//! under many names and from several working directories.
use crate::docgen::Cx;
use crate::graph::*;
use crate::hostile::{self, Scratch};
use crate::mini;
use crate::run::Out;
use crate::sys;
use crate::trees;
use onenote_parser::Parser;
use std::ffi::{OsStr, OsString};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

fn tool() -> PathBuf {
    std::env::current_exe().unwrap().with_file_name("onenote-parse")
}

const STEMS: &[&str] = &[
    "a", "My Notes", "\u{e9}t\u{e9} \u{4e2d}\u{6587}", "x.one", "x.onetoc2", ".one", ".onetoc2", "..x", "- -", "#1 %41", "a\nb", "'q' \"d\"",
    "Open Notebook", "one", "onetoc2", "x.tar", " lead", "trail ",
];
const EXTS: &[&str] = &[".one", ".onetoc2", ".onetoc2", ".ONETOC2", ".OneToc2", ".onetoc", ".onetoc22", "", ".", ".onetoc2.one", ".one.onetoc2", ".ONE", ".txt", ".onetoc2 "];

/// What the library says: the text to print, or the error, plain and in detail.
fn library(path: &Path) -> Option<Result<String, (String, String)>> {
    let toc = path.extension() == Some(OsStr::new("onetoc2"));
    let r = sys::caught(|| {
        let p = Parser::new();
        if toc {
            p.parse_notebook(path).map(|n| format!("{n:#?}\n"))
        } else {
            p.parse_section(path).map(|n| format!("{n:#?}\n"))
        }
    });
    match r {
        Ok(Ok(t)) => Some(Ok(t)),
        Ok(Err(e)) => Some(Err((e.to_string(), format!("{e:?}")))),
        Err(_) => None,
    }
}

fn listing(d: &Path) -> Vec<(OsString, u64)> {
    let mut v: Vec<_> = std::fs::read_dir(d).into_iter().flatten().flatten().map(|e| (e.file_name(), e.metadata().map(|m| m.len()).unwrap_or(0))).collect();
    v.sort();
    v
}

pub fn c30(out: &mut Out, n: u64) {
    let mut r = out.rng();
    let d = Scratch::new("cli");
    // the name
    let mut name: OsString = if r.one_in(2) {
        r.pick(&["x.one", "x.onetoc2"]).into()
    } else {
        format!("{}{}", r.pick(STEMS), r.pick(EXTS)).into()
    };
    if r.one_in(12) {
        let mut b = vec![b'n', 0xff, 0xfe];
        b.extend(r.pick(&[&b".one"[..], b".onetoc2", b"", b".onetoc2\xff"]).iter());
        name = OsString::from_vec(b);
    }
    // the file
    let as_toc = Path::new(&name).extension() == Some(OsStr::new("onetoc2"));
    let toc = if r.one_in(8) { !as_toc } else { as_toc };
    let mut kind;
    let bytes: Option<Vec<u8>> = match n % 10 {
        0..=3 if toc => {
            kind = "notebooks";
            let mut g = trees::Gen::new(r.fork(), None);
            let tmp = d.0.join(&name);
            let toc_name = "t.onetoc2";
            g.dir(&d.0, toc_name, 0, true);
            let b = std::fs::read(d.0.join(toc_name)).ok();
            if tmp != d.0.join(toc_name) {
                let _ = std::fs::remove_file(d.0.join(toc_name));
            }
            b
        }
        0..=3 => {
            kind = "sections";
            Some(if r.one_in(6) {
                mini::bytes(&mini::plain_section())
            } else {
                let mut p = crate::docgen::Profile::small();
                p.budget = 10;
                let o = if r.flip() { Opts::mild() } else { Opts::wild() };
                let s = Cx::new(r.fork(), p).section("s", "x.one");
                encode(&s, &o, &mut r).bytes
            })
        }
        4 => {
            kind = "sample files";
            let v: Vec<_> = hostile::samples().into_iter().filter(|s| s.0.ends_with("onetoc2") == toc).collect();
            if v.is_empty() { None } else { Some(r.pick(&v).1.clone()) }
        }
        5 | 6 => {
            kind = "damaged files";
            let k = hostile::catalogue_len() + r.below(100000) as u64;
            Some(hostile::case(k, &mut r).bytes)
        }
        7 => {
            kind = "truncated files";
            let s = if toc { hostile::rich_toc(&mut r) } else { hostile::rich_doc(&mut r) };
            let mut b = encode(&s, &Opts::mild(), &mut r).bytes;
            let k = r.below(b.len());
            b.truncate(k);
            Some(b)
        }
        8 => {
            kind = "files of other kinds";
            Some(match r.below(3) {
                0 => vec![],
                1 => {
                    let n = r.below(300);
                    r.bytes(n)
                }
                _ => b"not a OneNote file\n".to_vec(),
            })
        }
        _ => {
            kind = "missing files";
            None
        }
    };
    let at = d.0.join(&name);
    match bytes {
        Some(b) => {
            if std::fs::write(&at, &b).is_err() {
                return;
            }
            out.input = b;
        }
        None if r.flip() => {
            kind = "directories in place of files";
            let _ = std::fs::create_dir(&at);
        }
        None => {}
    }
    // how it is named
    let sub = d.0.join("sub");
    let _ = std::fs::create_dir(&sub);
    let (cwd, arg): (PathBuf, OsString) = match r.below(5) {
        0 => (d.0.clone(), name.clone()),
        1 => (d.0.clone(), [OsStr::new("./"), &name].iter().copied().collect()),
        2 => (sub, [OsStr::new("../"), &name].iter().copied().collect()),
        3 => (PathBuf::from("/"), at.clone().into()),
        _ => (d.0.clone(), at.clone().into()),
    };
    if std::env::set_current_dir(&cwd).is_err() {
        return;
    }
    let before = listing(&d.0);
    out.step("library");
    let Some(want) = library(Path::new(&arg)) else {
        out.stat("the library panicked", 1);
        return;
    };
    out.step("tool");
    out.eval();
    out.nontrivial(crate::rng::hash_bytes(&out.input) ^ crate::rng::hash_bytes(arg.as_bytes()));
    let mut cmd = Command::new(tool());
    cmd.arg(&arg).stdin(Stdio::null());
    match r.below(3) {
        0 => {
            cmd.env("RUST_BACKTRACE", "1");
        }
        1 => {
            cmd.env_clear();
        }
        _ => {}
    }
    if r.one_in(5) {
        cmd.arg("another.one");
    }
    let o = match cmd.output() {
        Ok(o) => o,
        Err(e) => {
            out.violation(format!("HARNESS cannot run the tool: {e}"));
            return;
        }
    };
    out.stat(&format!("{kind}: {}", if want.is_ok() { "parsed" } else { "refused" }), 1);
    out.stat(if as_toc { "runs on tables of contents" } else { "runs on sections" }, 1);
    let err = String::from_utf8_lossy(&o.stderr).into_owned();
    let short = |s: &str| s.chars().take(200).collect::<String>();
    let mut bad = vec![];
    if let Some(s) = o.status.signal() {
        bad.push(format!("ended by signal {s}: {}", short(&err)));
    }
    match want {
        Ok(t) => {
            if !o.status.success() {
                bad.push(format!("the library parses the file, the tool fails with {}: {}", o.status, short(&err)));
            } else if o.stdout != t.as_bytes() {
                let k = o.stdout.iter().zip(t.as_bytes()).take_while(|(a, b)| a == b).count();
                bad.push(format!(
                    "the output ({} bytes) differs from the library's result ({} bytes) at {k}: {:?}",
                    o.stdout.len(),
                    t.len(),
                    String::from_utf8_lossy(&o.stdout[k.saturating_sub(20)..(k + 40).min(o.stdout.len())])
                ));
            }
            out.stat("bytes of output compared", t.len() as u64);
        }
        Err((e, detail)) => {
            out.sample(|| format!("{arg:?}: {e}"));
            if o.status.success() {
                bad.push(format!("the library answers with an error ({e}), the tool succeeds"));
            }
            if !o.stdout.is_empty() {
                bad.push(format!("an error ({e}), but also output: {}", short(&String::from_utf8_lossy(&o.stdout))));
            }
            if !err.contains(&e) && !err.contains(&detail) {
                bad.push(format!("standard error does not report the error ({e}): {}", short(&err)));
            }
        }
    }
    if listing(&d.0) != before {
        bad.push("files were changed".into());
    }
    let _ = std::env::set_current_dir("/");
    if !bad.is_empty() {
        out.violation(format!("{kind}, onenote-parse {arg:?}: {}", bad.join("; ")));
    }
}
