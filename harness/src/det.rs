//! C05: the answer depends on the bytes and the name alone. Each input is parsed again and again,
//! in other orders, from other places in memory, by threads that share one parser, and in other
//! processes with other environments; all answers must be the first one. Results are read by
//! several threads at once. That the public types are Send and Sync is observed at compile time.
use crate::bits::Mk;
use crate::docgen::{Cx, Profile, layer};
use crate::dump;
use crate::graph::*;
use crate::hostile::{self, Scratch};
use crate::mini;
use crate::rng::{Rng, hash_bytes, hash_str};
use crate::run::Out;
use crate::sys;
use crate::trees;
use onenote_parser::Parser;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Barrier, mpsc};

/// Lets a value cross threads whatever its type says: what the types promise is checked apart.
struct Force<T>(T);
unsafe impl<T> Send for Force<T> {}
unsafe impl<T> Sync for Force<T> {}
impl<T> Force<T> {
    fn get(&self) -> &T {
        &self.0
    }
}

#[derive(Clone)]
pub enum In {
    /// bytes and a name
    Buffer(Vec<u8>, String),
    Section(PathBuf),
    Notebook(PathBuf),
}

fn show<T: std::fmt::Debug>(r: Result<Result<T, onenote_parser::errors::Error>, String>, d: impl Fn(&T) -> dump::Map) -> String {
    match r {
        Ok(Ok(s)) => {
            // what the accessors and the destructor do is covered by the same monitor
            let r = sys::caught(|| {
                let m = d(&s);
                let mut h = 0u64;
                for (k, v) in &m {
                    h = h.wrapping_mul(31).wrapping_add(hash_str(k) ^ hash_str(v).rotate_left(7));
                }
                format!("Ok {} values {h:016x}, {:016x}", m.len(), hash_str(&format!("{s:?}")))
            });
            r.unwrap_or_else(|m| format!("panic while reading: {m}"))
        }
        Ok(Err(e)) => format!("Err {e} {:016x}", hash_str(&format!("{e:?}"))),
        Err(m) => format!("panic {m}"),
    }
}

pub fn answer(p: &Parser, i: &In) -> String {
    match i {
        In::Buffer(b, n) => show(sys::caught(|| p.parse_section_buffer(b, Path::new(n))), dump::dump_section),
        In::Section(f) => show(sys::caught(|| p.parse_section(f)), dump::dump_section),
        In::Notebook(f) => show(sys::caught(|| p.parse_notebook(f)), dump::dump_notebook),
    }
}

// --- Send and Sync, observed without asking the compiler to insist ---------------------------

struct Probe<T: ?Sized>(std::marker::PhantomData<T>);
trait Neither {
    const SEND: bool = false;
    const SYNC: bool = false;
}
impl<T: ?Sized> Neither for Probe<T> {}
struct ProbeSend<T: ?Sized>(std::marker::PhantomData<T>);
impl<T: ?Sized> Neither for ProbeSend<T> {}
impl<T: ?Sized + Send> ProbeSend<T> {
    const SEND: bool = true;
}
impl<T: ?Sized + Sync> Probe<T> {
    const SYNC: bool = true;
}
macro_rules! both {
    ($($t:ty),* $(,)?) => { &[$((stringify!($t), <ProbeSend<$t>>::SEND, <Probe<$t>>::SYNC)),*] };
}
pub const TYPES: &[(&str, bool, bool)] = {
    use onenote_parser::contents::*;
    use onenote_parser::errors::{Error, ErrorKind};
    use onenote_parser::notebook::Notebook;
    use onenote_parser::page::*;
    use onenote_parser::property::common::*;
    use onenote_parser::property::embedded_file::*;
    use onenote_parser::property::note_tag::*;
    use onenote_parser::property::rich_text::{Charset, ParagraphAlignment};
    use onenote_parser::section::*;
    both!(
        Parser, Error, ErrorKind, Notebook, Section, SectionEntry, SectionGroup, Page, Title, PageContent, PageSeries, Content, EmbeddedFile,
        Image, Ink, InkBoundingBox, InkPoint, InkStroke, List, MathInlineObject, MathObjectType, NoteTag, Outline, OutlineElement,
        OutlineGroup, OutlineItem, EmbeddedInkContainer, EmbeddedInkSpace, EmbeddedObject, ParagraphStyling, RichText, Table, TableCell,
        TableRow, Color, ColorRef, FileType, ActionItemStatus, ActionItemType, NoteTagPropertyStatus, NoteTagShape, NoteTagDefinition,
        Charset, ParagraphAlignment
    )
};

// --- inputs -------------------------------------------------------------------------------------

/// Two encodings in one package: several storage indexes, manifests, revisions and groups.
fn splice(a: &Encoded, b: &Encoded, r: &mut Rng) -> Vec<u8> {
    let mut out = a.bytes.clone();
    if a.elems.is_empty() {
        return out;
    }
    let some = r.range(1, 100) as u32;
    let mut extra: Vec<Vec<u8>> = vec![];
    for e in &b.elems {
        if r.pct(some) || matches!(e.ty, 1 | 2) {
            extra.push(b.bytes[e.off..e.off + e.len].to_vec());
        }
    }
    for x in extra {
        let e = r.pick(&a.elems);
        // elements of `a` before the insertion keep their place
        let last = a.elems.last().unwrap();
        let at = if r.one_in(3) { a.elems[0].off } else if r.flip() { last.off + last.len } else { e.off };
        let at = at.min(out.len());
        if a.elems.iter().any(|e| e.off == at) && out.len() == a.bytes.len() || at == a.elems[0].off {
            out.splice(at..at, x);
        } else {
            let at = out.len() - (a.bytes.len() - last.off - last.len);
            out.splice(at..at, x);
        }
    }
    out
}

/// Identities made equal: what was told apart by them is now ambiguous.
fn collide(e: &Encoded, r: &mut Rng) -> Vec<u8> {
    let mut b = e.bytes.clone();
    let inside = |ty: u8| -> Vec<usize> {
        e.marks
            .iter()
            .filter(|m| m.kind == Mk::ExGuidTag && e.elems.iter().any(|x| x.ty == ty && x.off < m.off && m.off < x.off + x.len))
            .map(|m| m.off)
            .collect()
    };
    for _ in 0..r.range(1, 12) {
        let ty = *r.pick(&[1u8, 1, 1, 2, 3, 4, 5]);
        let v = inside(ty);
        if v.len() < 2 {
            continue;
        }
        let (x, y) = (*r.pick(&v), *r.pick(&v));
        let len = |o: usize| match b[o] {
            t if t & 7 == 4 => 17,
            t if t & 0x3f == 0x20 => 18,
            t if t & 0x7f == 0x40 => 19,
            0x80 => 21,
            _ => 1,
        };
        let (n, m) = (len(x), len(y));
        if n == m && x.max(y) + n <= b.len() && x.abs_diff(y) >= n {
            b.copy_within(x..x + n, y);
        }
    }
    b
}

/// The document with one value changed, of the same length.
fn twin(s: &Store, r: &mut Rng) -> Store {
    let mut t = s.clone();
    let n = object_count(&t).max(1);
    for _ in 0..20 {
        let k = r.below(n);
        if let Some(o) = t.objs_mut().nth(k)
            && !o.props.is_empty()
        {
            let i = r.below(o.props.len());
            match &mut o.props[i].v {
                PV::U32(v) => *v ^= 1,
                PV::U16(v) => *v ^= 1,
                PV::Bool(v) => *v = !*v,
                PV::Bytes(b) if b.len() >= 2 => {
                    let mut c = b.as_ref().clone();
                    c[0] ^= 1;
                    *b = std::rc::Rc::new(c);
                }
                _ => continue,
            }
            break;
        }
    }
    t
}

/// The document with the same identities and other contents: objects that refer to nothing swap
/// what they hold with others of their type, or have single values changed.
fn same_ids(s: &Store, r: &mut Rng) -> Store {
    let mut t = s.clone();
    let mut leaves: std::collections::BTreeMap<u32, Vec<usize>> = Default::default();
    for (i, o) in t.objs().enumerate() {
        let plain = o.props.iter().all(|p| !matches!(p.v, PV::Oid(_) | PV::Oids(_) | PV::Osid(_) | PV::Osids(_) | PV::Ctx(_) | PV::Ctxs(_) | PV::Sets(..) | PV::Set(_) | PV::OidsLie(..) | PV::Raw(..)));
        if plain {
            leaves.entry(o.jcid).or_default().push(i);
        }
    }
    for v in leaves.values() {
        let mut w = v.clone();
        w.rotate_left(1);
        if r.flip() {
            r.shuffle(&mut w);
        }
        let held: Vec<_> = w.iter().map(|i| t.objs().nth(*i).map(|o| (o.props.clone(), o.blob.clone())).unwrap()).collect();
        for (i, (p, b)) in v.iter().zip(held) {
            let o = t.objs_mut().nth(*i).unwrap();
            // whether there is a blob stays as it is
            if o.blob.is_some() == b.is_some() {
                o.props = p;
                o.blob = b;
            }
        }
    }
    // texts and other strings of even length, last character
    for o in t.objs_mut() {
        for p in &mut o.props {
            if let PV::Bytes(b) = &mut p.v
                && matches!(p.id, 0x1C22 | 0x3468 | 0x1CF3 | 0x1D9C | 0x1D6B | 0x1C52 | 0x1D75)
                && b.len() >= 6
                && r.flip()
            {
                let mut c = b.as_ref().clone();
                let k = c.len() / 2 & !1;
                if c[k + 1] == 0 && (0x61..0x7a).contains(&c[k]) {
                    c[k] ^= 1;
                }
                *b = std::rc::Rc::new(c);
            }
        }
    }
    t
}

pub fn draw(r: &mut Rng) -> (Vec<In>, Scratch, &'static str) {
    let d = Scratch::new("det");
    let mut v = vec![];
    let kind;
    let doc = |r: &mut Rng| {
        let mut p = Profile { series: (1, 2), pages: (1, 3), ..Profile::small() };
        p.budget = r.range(4, 20) as i32;
        let mut s = Cx::new(r.fork(), p).section("s", "x.one");
        if r.one_in(3) {
            layer(&mut s, r, 4);
        }
        s
    };
    match r.below(10) {
        8 | 9 => {
            kind = ALIKE;
            if r.one_in(4) {
                let names: Vec<String> = (0..r.range(2, 6)).map(|i| format!("{i}.one")).collect();
                for k in 0..3 {
                    let t = d.0.join(format!("nb{k}"));
                    std::fs::create_dir(&t).unwrap();
                    let mut order: Vec<&str> = names.iter().map(|n| n.as_str()).collect();
                    r.shuffle(&mut order);
                    std::fs::write(t.join("x.onetoc2"), mini::bytes(&mini::toc(&order))).unwrap();
                    for n in &names {
                        if r.pct(70) {
                            std::fs::write(t.join(n), mini::bytes(&mini::plain_section())).unwrap();
                        }
                    }
                    v.push(In::Notebook(t.join("x.onetoc2")));
                }
            } else {
                let s = doc(r);
                let (seed, o) = (r.u64(), if r.flip() { Opts::mild() } else { Opts::wild() });
                let mut ds = vec![s];
                for _ in 0..r.range(1, 3) {
                    let t = same_ids(r.pick(&ds), r);
                    ds.push(t);
                }
                for s in &ds {
                    v.push(In::Buffer(encode(s, &o, &mut Rng::new(seed)).bytes, "x.one".into()));
                }
            }
        }
        0 => {
            kind = "well-formed";
            for _ in 0..3 {
                let s = doc(r);
                v.push(In::Buffer(encode(&s, &Opts::wild(), r).bytes, "x.one".into()));
            }
        }
        1 => {
            kind = "the same under two names, and twins of the same length";
            let mut s = doc(r);
            // without a name of its own, the file's name counts
            for o in s.objs_mut().filter(|o| o.jcid == 0x20031) {
                o.props.retain(|p| p.id != 0x349B);
            }
            let seed = r.u64();
            let t = twin(&s, r);
            let e = |s: &Store| encode(s, &Opts::mild(), &mut Rng::new(seed)).bytes;
            v.push(In::Buffer(e(&s), "a.one".into()));
            v.push(In::Buffer(e(&s), "b.one".into()));
            v.push(In::Buffer(e(&t), "a.one".into()));
            let f = d.0.join("c.one");
            std::fs::write(&f, e(&t)).unwrap();
            v.push(In::Section(f));
        }
        2 => {
            kind = "several faults each";
            for _ in 0..3 {
                let mut s = doc(r);
                for _ in 0..r.range(2, 7) {
                    hostile::mutate_graph(&mut s, r);
                }
                v.push(In::Buffer(encode(&s, &Opts::mild(), r).bytes, "x.one".into()));
            }
        }
        3 => {
            kind = "two packages in one";
            for _ in 0..3 {
                let s = doc(r);
                let t = if r.flip() { twin(&s, r) } else { doc(r) };
                let o = if r.flip() { Opts::wild() } else { Opts::mild() };
                let (a, b) = (encode(&s, &o, r), encode(&t, &o, r));
                v.push(In::Buffer(splice(&a, &b, r), "x.one".into()));
            }
        }
        4 => {
            kind = "identities made equal";
            for _ in 0..4 {
                let s = doc(r);
                let o = if r.flip() { Opts::wild() } else { Opts::mild() };
                let e = encode(&s, &o, r);
                v.push(In::Buffer(collide(&e, r), "x.one".into()));
            }
        }
        5 | 6 => {
            kind = "hostile";
            for _ in 0..4 {
                let k = hostile::catalogue_len() + r.below(1 << 30) as u64;
                let c = hostile::case(k, r);
                if c.bytes.len() > 400_000 {
                    continue;
                }
                if c.toc {
                    let f = d.0.join(format!("t{}.onetoc2", v.len()));
                    std::fs::write(&f, &c.bytes).unwrap();
                    v.push(In::Notebook(f));
                } else {
                    v.push(In::Buffer(c.bytes, "x.one".into()));
                }
            }
        }
        _ => {
            kind = "notebook directories";
            for k in 0..2 {
                let t = d.0.join(format!("nb{k}"));
                std::fs::create_dir(&t).unwrap();
                let mut g = trees::Gen::new(r.fork(), None);
                g.full = false;
                g.dir(&t, "Open Notebook.onetoc2", 0, true);
                v.push(In::Notebook(t.join("Open Notebook.onetoc2")));
            }
        }
    }
    v.push(In::Buffer(mini::bytes(&mini::plain_section()), "plain.one".into()));
    (v, d, kind)
}

const ALIKE: &str = "same identities, other contents";

// --- the check ------------------------------------------------------------------------------------

pub fn c05(out: &mut Out, n: u64) {
    if n == 0 {
        for (t, send, sync) in TYPES {
            out.eval();
            out.stat("public types whose thread-safety was observed", 1);
            if !send {
                out.violation(format!("{t} cannot be sent to another thread"));
            }
            if !sync {
                out.violation(format!("{t} cannot be shared between threads"));
            }
        }
    }
    if cfg!(feature = "tsan") && n / 8 % 2 == 1 && !out.thorough() {
        return;
    }
    let mut r = out.rng();
    let (ins, dir, kind) = draw(&mut r);
    out.stat(&format!("inputs: {kind}"), ins.len() as u64);
    let first = Parser::new();
    out.step("first answers");
    let want: Vec<String> = ins.iter().map(|i| answer(&first, i)).collect();
    for (i, w) in ins.iter().zip(&want) {
        out.eval();
        if let In::Buffer(b, n) = i {
            out.nontrivial(hash_bytes(b) ^ hash_str(n));
        } else {
            out.nontrivial(hash_str(w));
        }
        out.stat(w.split(' ').next().unwrap_or(""), 1);
    }
    let bad = |out: &mut Out, how: &str, k: usize, got: &str| {
        if let In::Buffer(b, _) = &ins[k] {
            out.input = b.clone();
        }
        out.violation(format!("{kind}, input {k}: {how}: first {}, then {}", cut(&want[k]), cut(got)));
    };

    // again, in other orders, from other places in memory
    out.step("again");
    // under the race detector the threads are what matters
    let tsan = cfg!(feature = "tsan");
    let rounds = if tsan { 0 } else if out.thorough() { 12 } else { 5 };
    for round in 0..rounds {
        let mut order: Vec<usize> = (0..ins.len()).collect();
        r.shuffle(&mut order);
        let fresh = Parser::new();
        for k in order {
            let p = if round % 2 == 0 { &first } else { &fresh };
            let got = match &ins[k] {
                In::Buffer(b, n) if r.flip() => {
                    let pad = r.below(17);
                    let mut c = r.bytes(pad);
                    c.extend(b);
                    c.extend(r.bytes(5));
                    let r = show(sys::caught(|| p.parse_section_buffer(&c[pad..pad + b.len()], Path::new(n))), dump::dump_section);
                    out.stat("parses from other places in memory", 1);
                    r
                }
                i => answer(p, i),
            };
            out.stat("parses repeated", 1);
            if got != want[k] {
                bad(out, "parsed again", k, &got);
                return;
            }
        }
    }

    // where every environment variable is set, and at other dates
    #[cfg(feature = "io")]
    for w in 1..=crate::io::WORLDS {
        for k in 0..ins.len() {
            let p = Parser::new();
            let (got, asked) = crate::io::elsewhere(w, || answer(&p, &ins[k]));
            out.stat("parses in another environment, at another date", 1);
            out.stat("what those asked of the environment or the calendar", asked);
            if got != want[k] {
                bad(out, "parsed with other environment variables and at another date", k, &got);
                return;
            }
        }
    }

    // threads that share a parser
    out.step("threads");
    let threads = *r.pick(&[2usize, 3, 4, 8]);
    let shared = Arc::new(Force(Parser::new()));
    let all = Arc::new(Force(ins.clone()));
    let clock = Arc::new(AtomicU64::new(0));
    let barrier = Arc::new(Barrier::new(threads));
    let (tx, rx) = mpsc::channel();
    for t in 0..threads {
        let (shared, all, clock, barrier, tx) = (shared.clone(), all.clone(), clock.clone(), barrier.clone(), tx.clone());
        let mut r = r.fork();
        let f = move || {
            sys::quiet_panics();
            barrier.wait();
            let mut log = vec![];
            for _ in 0..2 {
                let mut order: Vec<usize> = (0..all.get().len()).collect();
                r.shuffle(&mut order);
                for k in order {
                    match r.below(4) {
                        0 => std::thread::yield_now(),
                        1 => {
                            for _ in 0..r.below(2000) {
                                std::hint::spin_loop();
                            }
                        }
                        _ => {}
                    }
                    let from = clock.fetch_add(1, SeqCst);
                    let a = answer(shared.get(), &all.get()[k]);
                    let to = clock.fetch_add(1, SeqCst);
                    log.push((k, from, to, a));
                }
            }
            let _ = tx.send((t, log));
        };
        std::thread::Builder::new().stack_size(4 << 20).spawn(f).unwrap();
    }
    drop(tx);
    let mut events = vec![];
    for _ in 0..threads {
        match rx.recv_timeout(std::time::Duration::from_secs(100)) {
            Ok((t, log)) => {
                for (k, from, to, a) in log {
                    events.push((from, to, t, k));
                    out.stat(if tsan { "parses on threads under ThreadSanitizer" } else { "parses on threads" }, 1);
                    if a != want[k] {
                        bad(out, &format!("on one of {threads} threads that share a parser"), k, &a);
                        return;
                    }
                }
            }
            Err(mpsc::RecvTimeoutError::Timeout) => {
                out.violation(format!("{kind}: parses on {threads} threads that share a parser did not end within 100 s"));
                return;
            }
            Err(_) => {
                out.violation(format!("{kind}: a thread that shares a parser died"));
                return;
            }
        }
    }
    events.sort();
    let overlap = events.iter().filter(|a| events.iter().any(|b| b.2 != a.2 && b.0 < a.1 && a.0 < b.1)).count();
    out.stat("parses that overlapped another thread's", overlap as u64);
    let sig = hash_str(&format!("{:?}", events.iter().map(|e| (e.2, e.3, e.1)).collect::<Vec<_>>()));
    out.nontrivial(sig);
    out.stat("interleavings seen", 1);

    // one result read by several threads at once, and dropped by one of them
    out.step("readers");
    if let Some((k, In::Buffer(b, name))) = ins.iter().enumerate().find(|(k, i)| want[*k].starts_with("Ok") && matches!(i, In::Buffer(..)))
        && let Ok(Ok(s)) = sys::caught(|| first.parse_section_buffer(b, Path::new(name)))
    {
        let base = dump::dump_section(&s);
        let s = Arc::new(Force(s));
        let barrier = Arc::new(Barrier::new(3));
        let hs: Vec<_> = (0..3)
            .map(|_| {
                let (s, barrier) = (s.clone(), barrier.clone());
                std::thread::Builder::new()
                    .stack_size(4 << 20)
                    .spawn(move || {
                        barrier.wait();
                        let m = dump::dump_section(s.get());
                        let d = hash_str(&format!("{:?}", s.get()));
                        drop(s);
                        (m, d)
                    })
                    .unwrap()
            })
            .collect();
        drop(s);
        let mut ds = vec![];
        for h in hs {
            match h.join() {
                Ok((m, d)) => {
                    ds.push(d);
                    out.stat("concurrent readings of one result", 1);
                    if m != base {
                        bad(out, "a result read by several threads", k, "other values");
                        return;
                    }
                }
                Err(_) => bad(out, "a result read by several threads", k, "panic"),
            }
        }
        if ds.iter().any(|d| *d != ds[0]) {
            bad(out, "a result printed by several threads", k, "other text");
        }
    }

    // other processes
    if (n % 4 == 0 || kind == ALIKE) && !tsan {
        out.step("other processes");
        for (k, i) in ins.iter().enumerate() {
            if let In::Buffer(b, _) = i {
                std::fs::write(dir.0.join(format!("in{k}")), b).unwrap();
            }
        }
        let mut order: Vec<usize> = (0..ins.len()).collect();
        r.shuffle(&mut order);
        // one process for all, or one for each
        let runs: Vec<Vec<usize>> = if kind == ALIKE || r.one_in(4) { order.into_iter().map(|k| vec![k]).collect() } else { vec![order] };
        for run in runs {
            let list = dir.0.join("list");
            let mut t = String::new();
            for k in &run {
                match &ins[*k] {
                    In::Buffer(_, n) => t.push_str(&format!("{k}\tbuffer\t{}\t{n}\n", dir.0.join(format!("in{k}")).display())),
                    In::Section(p) => t.push_str(&format!("{k}\tsection\t{}\t\n", p.display())),
                    In::Notebook(p) => t.push_str(&format!("{k}\tnotebook\t{}\t\n", p.display())),
                }
            }
            std::fs::write(&list, t).unwrap();
            let mut c = std::process::Command::new(std::env::current_exe().unwrap());
            c.arg("answers").arg(&list).current_dir(if r.flip() { Path::new("/") } else { &dir.0 });
            match r.below(4) {
                0 => {
                    c.env_clear();
                }
                1 => {
                    c.envs([("LANG", "tr_TR.UTF-8"), ("LC_ALL", "tr_TR.UTF-8"), ("TZ", "Pacific/Chatham"), ("HOME", "/nonexistent"), ("TMPDIR", "/nonexistent")]);
                }
                2 => {
                    c.envs([("RUST_BACKTRACE", "full"), ("RUST_LIB_BACKTRACE", "1"), ("RUST_LOG", "trace"), ("DEBUG", "1")]);
                }
                _ => {}
            }
            match c.output() {
                Ok(o) if o.status.success() => {
                    for l in String::from_utf8_lossy(&o.stdout).lines() {
                        let Some((k, a)) = l.split_once('\t') else { continue };
                        let k: usize = k.parse().unwrap();
                        out.stat(if run.len() == 1 { "parses in a process of their own" } else { "parses in other processes" }, 1);
                        if a != want[k].replace('\n', " ") {
                            bad(out, "in another process", k, a);
                            return;
                        }
                    }
                }
                Ok(o) => out.violation(format!("{kind}: another process ended with {}: {}", o.status, cut(&String::from_utf8_lossy(&o.stderr)))),
                Err(e) => out.violation(format!("HARNESS {e}")),
            }
        }
    }

    // the same path with other contents
    if n % 4 == 2 && !tsan {
        out.step("the same path with other contents");
        let f = dir.0.join("same.one");
        for (k, i) in ins.iter().enumerate() {
            let In::Buffer(b, _) = i else { continue };
            std::fs::write(&f, b).unwrap();
            let got = answer(&first, &In::Section(f.clone()));
            let exp = answer(&Parser::new(), &In::Buffer(b.clone(), "same.one".into()));
            out.stat("parses of a rewritten file", 1);
            // an error may name the file as it was given
            let kind = |a: &str| if a.starts_with("Err") { a.split(':').next().unwrap_or("").to_string() } else { a.to_string() };
            if kind(&got) != kind(&exp) {
                bad(out, &format!("from a file that held another document before (memory: {})", cut(&exp)), k, &got);
                return;
            }
        }
    }
}

pub fn cut(s: &str) -> String {
    s.chars().take(160).collect()
}

/// Answers for a list of inputs, one line each.
pub fn answers(list: &Path) {
    sys::quiet_panics();
    let t = std::fs::read_to_string(list).unwrap();
    crate::run::on_stack(|| {
        let p = Parser::new();
        for l in t.lines() {
            let f: Vec<&str> = l.split('\t').collect();
            let i = match f[1] {
                "buffer" => In::Buffer(std::fs::read(f[2]).unwrap(), f[3].into()),
                "section" => In::Section(f[2].into()),
                _ => In::Notebook(f[2].into()),
            };
            println!("{}\t{}", f[0], answer(&p, &i).replace('\n', " "));
        }
    });
}
