//! Content monitors: generated documents, expectation by path, compared with what the accessors
//! return.
use crate::docgen::{self, Cx, Profile};
use crate::dump::{self, Map};
use crate::graph::*;
use crate::px::{self, Res};
use crate::run::Out;

pub fn kind_of<'a>(path: &str, exp: &'a Map, act: &'a Map) -> &'a str {
    let mut p = path;
    while let Some(k) = p.rfind('.') {
        p = &p[..k];
        let key = format!("{p}.kind");
        if let Some(v) = exp.get(&key).or_else(|| act.get(&key)) {
            return v;
        }
    }
    ""
}
/// Does a path have a segment `c` followed by digits?
pub fn seg(path: &str, c: &str) -> bool {
    path.split('.').any(|s| s.strip_prefix(c).is_some_and(|r| !r.is_empty() && r.bytes().all(|b| b.is_ascii_digit())))
}
pub fn last(path: &str) -> &str {
    path.rsplit('.').next().unwrap()
}
fn in_tag(p: &str) -> bool {
    seg(p, "t") || last(p) == "tags#"
}

pub type Rel = fn(&str, &str) -> bool;

/// (path, kind of the owning content) -> concerns the property
pub fn relevant(id: &str) -> Rel {
    match id {
        "C16" => |p, _| last(p) == "data",
        "C17" => |p, k| {
            matches!(
                last(p),
                "text" | "name" | "alt" | "url" | "author" | "font" | "list_font" | "next" | "id" | "label" | "title_text" | "ext"
            ) && k != "ink"
        },
        "C18" => |p, k| k == "text" && !in_tag(p) && !seg(p, "mo") && !seg(p, "eo") && !matches!(last(p), "text" | "embedded#" | "math#" | "as"),
        "C19" => |p, k| {
            matches!(last(p), "kind" | "as" | "contents#" | "items#")
                || (matches!(k, "outline" | "group" | "element") && !seg(p, "l") && !in_tag(p))
        },
        "C20" => |p, k| k == "element" && (seg_last2(p, "l") || last(p) == "lists#"),
        "C21" => |p, k| k == "table" || seg(p, "w"),
        "C22" => |p, k| k == "image" && !in_tag(p),
        "C23" => |p, k| k == "file" && !in_tag(p),
        "C24" => |p, k| k == "ink" || seg(p, "eo") || last(p) == "embedded#" || last(p) == "strokes#",
        "C25" => |p, _| seg(p, "mo") || last(p) == "math#",
        "C26" => |p, _| in_tag(p),
        "C27" => |p, k| {
            k == "section"
                || (k == "" && !p.contains(".c"))
                || matches!(last(p), "title_text" | "title" | "level" | "author" | "height")
                || p.contains(".title.")
        },
        _ => |_, _| true,
    }
}
fn seg_last2(p: &str, c: &str) -> bool {
    let v: Vec<&str> = p.split('.').collect();
    v.len() >= 2 && v[v.len() - 2].strip_prefix(c).is_some_and(|r| !r.is_empty() && r.bytes().all(|b| b.is_ascii_digit()))
}

pub fn profile(id: &str, case: u64, thorough: bool) -> Profile {
    let mut p = Profile::base();
    // every few cases something large
    if case % 8 == 7 {
        p.big = 12;
    }
    p.present = [50, 30, 80, 95, 10][(case % 5) as usize];
    let budget = match case % 4 {
        0 => 8,
        1 => 20,
        2 => 40,
        _ => 80,
    };
    p.budget = if thorough && case % 16 == 3 { 600 } else { budget };
    match id {
        "C16" => {
            p.w_page = [40, 25, 25, 0, 0];
            p.w_content = [20, 5, 35, 35, 5, 0];
            p.page_items = (1, 5);
            p.big = p.big.max(6);
            p.huge = case % 400 == 21;
        }
        "C17" => {
            p.odd = 70;
            p.ascii_text = 25;
            p.embedded = 8;
            p.present = p.present.max(50);
            p.lists = 40;
            p.big = p.big.max(4);
        }
        "C18" => {
            p.w_content = [90, 4, 1, 1, 2, 2];
            p.runs = 8;
            p.contents = (1, 3);
        }
        "C19" => {
            p.items = (1, 4);
            p.depth = 2 + (case % 9) as usize;
            p.contents = (0, 2);
            p.w_page = [80, 5, 5, 5, 5];
            if case % 29 == 7 {
                // a long chain of items within items
                p.items = (1, 1);
                p.depth = 20 + (case as usize * 7) % 84;
                p.contents = (0, 1);
            }
        }
        "C20" => {
            p.lists = 90;
            p.odd = 40;
        }
        "C21" => {
            p.w_content = [30, 50, 5, 5, 5, 5];
            p.table = (1, 4);
            p.cell_depth = 5;
            p.depth = 6;
            p.contents = (1, 2);
        }
        "C22" => {
            p.w_page = [50, 45, 2, 2, 1];
            p.w_content = [10, 10, 75, 2, 2, 1];
            p.contents = (1, 3);
            p.page_items = (1, 4);
        }
        "C23" => {
            p.w_page = [50, 2, 45, 2, 1];
            p.w_content = [10, 10, 2, 75, 2, 1];
            p.contents = (1, 3);
            p.page_items = (1, 4);
        }
        "C24" => {
            p.w_page = [40, 5, 5, 50, 0];
            p.w_content = [60, 5, 5, 5, 25, 0];
            p.embedded = 70;
            p.math = 0;
            p.strokes = 6;
            p.runs = 7;
            p.contents = (1, 2);
            p.page_items = (1, 4);
        }
        "C25" => {
            p.math = 85;
            p.embedded = 5;
            p.runs = 8;
            p.w_content = [92, 4, 1, 1, 1, 1];
            p.contents = (1, 2);
        }
        "C26" => {
            p.tags = 90;
            p.w_content = [40, 15, 20, 20, 3, 2];
            p.w_page = [60, 20, 20, 0, 0];
            p.contents = (1, 3);
            p.page_items = (1, 4);
            p.noise = 40;
            if case % 6 == 2 {
                // large values need the extended forms of stream object headers
                p.big = 40;
            }
        }
        "C27" => {
            p.series = (0, 4);
            p.pages = (0, 4);
            p.title = 70;
            p.budget = 6;
            p.items = (0, 2);
            p.odd = 40;
        }
        "C29" => {
            p.w_page = [50, 10, 10, 10, 40];
            p.w_content = [40, 10, 8, 8, 8, 40];
            p.noise = 80;
            p.contents = (1, 4);
            p.page_items = (1, 5);
        }
        "C15" => {
            p.noise = 85;
            p.tags = 60;
            p.embedded = 20;
            p.math = 15;
            p.items = (1, 4);
            p.page_items = (1, 4);
            p.contents = (1, 3);
            p.lists = 40;
        }
        "C14" => {
            p.tags = 30;
            p.page_items = (1, 3);
        }
        "C13" => {
            p.noise = 40;
            if case % 6 == 2 {
                // large values need the extended forms of stream object headers
                p.big = 40;
            }
        }
        _ => {}
    }
    p
}

/// A generated section with its expectation.
pub fn make(out: &Out, p: Profile, name: &str) -> (Cx, Store) {
    let mut cx = Cx::new(out.rng(), p);
    let s = cx.section("s", name);
    (cx, s)
}

pub fn note(out: &mut Out, cx: &Cx, enc: &Encoded) {
    for (k, v) in &cx.stats {
        out.stat(&format!("generated {k}"), *v);
    }
    out.stat("bytes parsed", enc.bytes.len() as u64);
    out.stat_max("file size", enc.bytes.len() as u64);
}

pub fn compare(out: &mut Out, cx: &Cx, enc: &Encoded, name: &str, rel: Rel, what: &str) -> Option<Map> {
    out.eval();
    out.step(what);
    let r = px::section(&enc.bytes, name);
    match &r {
        Res::Ok(s) => {
            let act = dump::dump_section(s);
            let exp = &cx.exp;
            let f = |p: &str| rel(p, kind_of(p, exp, &act));
            let n = exp.keys().filter(|k| f(k)).count();
            out.stat("values compared", n as u64);
            if n > 0 {
                out.nontrivial_bytes(&enc.bytes);
            }
            let d = dump::diff(exp, &act, &f, 4);
            if !d.is_empty() {
                out.input = enc.bytes.clone();
                out.violation(format!("{what}: {}", d.join("; ")));
            }
            Some(act)
        }
        r => {
            out.input = enc.bytes.clone();
            out.violation(format!("{what}: well-formed document is not parsed: {}", r.what()));
            None
        }
    }
}

pub fn simple(out: &mut Out, case: u64) {
    let id = out.id.clone();
    let p = profile(&id, case, out.thorough());
    let name = "the file.one";
    let (mut cx, store) = make(out, p, name);
    let mut r = cx.r.fork();
    let opts = match case % 6 {
        0 => Opts::canonical(),
        5 => Opts::wild(),
        _ => Opts::mild(),
    };
    let enc = encode(&store, &opts, &mut r);
    note(out, &cx, &enc);
    let rel = relevant(&id);
    if case < 8 {
        out.sample(|| {
            let m = Map::new();
            let v: Vec<String> =
                cx.exp.iter().filter(|(k, _)| rel(k, kind_of(k, &cx.exp, &m))).take(8).map(|(k, v)| format!("{k} = {v}")).collect();
            format!("case {case}: {} bytes, {} objects; expects {}", enc.bytes.len(), object_count(&store), v.join(", "))
        });
    }
    compare(out, &cx, &enc, name, rel, "content");
    if id == "C29" && !cx.unknowns.is_empty() {
        undefined(out, &cx, &store, &opts, &mut r, name);
    }
}

/// The object types that the library knows.
const TYPES: &[u32] = &[
    0x120001, 0x80036, 0x60035, 0x60011, 0x120043, 0x60012, 0x6000D, 0x60019, 0x6000C, 0x60037, 0x20030, 0x6000B, 0x60008, 0x12004D, 0x80039,
    0x20044, 0x6000E, 0x20031, 0x60007, 0x60024, 0x60022, 0x60023, 0x6002C, 0x20001, 0x8003A, 0x60014, 0x2003B, 0x20047, 0x120048, 0x60058,
];

/// C29: the type of a content object is changed to one that does not exist.
fn undefined(out: &mut Out, cx: &Cx, store: &Store, opts: &Opts, r: &mut crate::rng::Rng, name: &str) {
    let mut s = store.clone();
    let id = *r.pick(&cx.unknowns);
    let t = *r.pick(TYPES);
    let j = match r.below(5) {
        0 => t ^ 1 << r.below(32),
        1 => t ^ 1 << (16 + r.below(6)),
        2 => t + 1,
        3 => *r.pick(&[0u32, 1, 0x60000, 0x6FFFF, 0x20002D, 0x6002D, 0x6003F, 0x60060, 0xFFFF_FFFF, 0x12005A]),
        _ => r.u32(),
    };
    if TYPES.contains(&j) {
        return;
    }
    s.objs_mut().filter(|o| o.id == id).for_each(|o| o.jcid = j);
    let enc = encode(&s, opts, r);
    out.eval();
    out.step("content of an undefined type");
    out.nontrivial_bytes(&enc.bytes);
    out.stat("content of undefined types", 1);
    match px::section(&enc.bytes, name) {
        Res::Err(_) => {}
        r => {
            out.input = enc.bytes.clone();
            out.violation(format!("content whose type 0x{j:X} is not defined must be an error: {}", r.what()));
        }
    }
}

/// C13: one document, several encodings, equal results.
pub fn c13(out: &mut Out, case: u64) {
    let p = profile("C13", case, out.thorough());
    let name = "x.one";
    let (mut cx, store) = make(out, p, name);
    let mut first: Option<(String, Result<Map, String>)> = None;
    let n = if out.thorough() { 6 } else { 4 };
    for k in 0..n {
        let mut r = cx.r.fork();
        let mut opts = match k {
            0 => Opts::canonical(),
            1 => Opts::mild(),
            _ => Opts::wild(),
        };
        if k == 2 {
            // exercise single dimensions too
            opts = Opts::canonical();
            match case % 9 {
                0 => opts.wild = 100,
                1 => opts.cid = CidMode::Ambiguous,
                2 => opts.packaging = Some((case / 9 % 3) as u8),
                3 => opts.shuffle_props = true,
                4 => opts.shuffle_elements = true,
                5 => opts.shuffle_decls = true,
                6 => {
                    opts.noise = true;
                    opts.fragments = true;
                    opts.wild = 1;
                }
                7 => opts.trailing = true,
                _ => opts.vary_lookup = true,
            }
        }
        let enc = encode(&store, &opts, &mut r);
        note(out, &cx, &enc);
        out.eval();
        out.step("encoding");
        out.nontrivial_bytes(&enc.bytes);
        let res = match px::section(&enc.bytes, name) {
            Res::Ok(s) => Ok(dump::dump_section(&s)),
            r => Err(r.what()),
        };
        match &first {
            None => {
                if k == 0 && case < 3 {
                    out.sample(|| format!("case {case}: {} objects, canonical encoding {} bytes, then {:?}", object_count(&store), enc.bytes.len(), Opts::wild()));
                }
                first = Some(("canonical".into(), res))
            }
            Some((_, a)) => {
                let d = match (a, &res) {
                    (Ok(a), Ok(b)) => {
                        out.stat("values compared", a.len() as u64);
                        dump::diff(a, b, &|_| true, 4)
                    }
                    (Err(_), Err(_)) => {
                        // both encodings of a document that should parse are rejected: judged by the content checks
                        out.stat("documents rejected in both encodings", 1);
                        vec![]
                    }
                    (Ok(_), Err(e)) => vec![format!("the canonical encoding parses, this one gives {e}")],
                    (Err(e), Ok(_)) => vec![format!("this encoding parses, the canonical one gives {e}")],
                };
                if !d.is_empty() {
                    out.input = enc.bytes.clone();
                    out.violation(format!("encoding {k} ({opts:?}): {}", d.join("; ")));
                    return;
                }
            }
        }
    }
}

/// C14: the same document as a chain of revisions.
pub fn c14(out: &mut Out, case: u64) {
    let p = profile("C14", case, out.thorough());
    let name = "x.one";
    let (mut cx, mut store) = make(out, p, name);
    let mut r = cx.r.fork();
    let max = match case % 3 {
        0 => 2,
        1 => 4,
        _ => 9,
    };
    let stale = docgen::layer(&mut store, &mut r, max);
    let revs: usize = store.spaces.iter().map(|s| s.revs.len()).sum();
    out.stat("revisions", revs as u64);
    out.stat("stale objects and roots", stale);
    let mut opts = if case % 2 == 0 { Opts::wild() } else { Opts::mild() };
    opts.vary_lookup = case % 4 != 1;
    let enc = encode(&store, &opts, &mut r);
    note(out, &cx, &enc);
    if case < 3 {
        out.sample(|| format!("case {case}: {} spaces, {revs} revisions, {stale} stale objects or roots, {} bytes", store.spaces.len(), enc.bytes.len()));
    }
    compare(out, &cx, &enc, name, |_, _| true, "revision chain");
}

/// C15: many reference-bearing properties of all kinds around the known ones.
pub fn c15(out: &mut Out, case: u64) {
    let p = profile("C15", case, out.thorough());
    let name = "x.one";
    let (mut cx, store) = make(out, p, name);
    let mut r = cx.r.fork();
    let mut opts = Opts::mild();
    opts.cid = [CidMode::Ambiguous, CidMode::Mixed, CidMode::Unique, CidMode::PerTarget][(case % 4) as usize];
    opts.wild = if case % 3 == 0 { 30 } else { 0 };
    let refs: usize = store.objs().map(|o| ref_count(&o.props)).sum();
    out.stat("references", refs as u64);
    let enc = encode(&store, &opts, &mut r);
    note(out, &cx, &enc);
    if case < 3 {
        out.sample(|| format!("case {case}: {} objects with {refs} references, compact ids {:?}", object_count(&store), opts.cid));
    }
    compare(out, &cx, &enc, name, |_, _| true, "references");
}
pub fn ref_count(ps: &[Prop]) -> usize {
    ps.iter()
        .map(|p| match &p.v {
            PV::Oid(_) | PV::Osid(_) | PV::Ctx(_) => 1,
            PV::Oids(v) => v.len(),
            PV::Osids(v) => v.len(),
            PV::Ctxs(v) => v.len(),
            PV::Sets(_, s) => s.iter().map(|s| ref_count(s)).sum(),
            PV::Set(s) => ref_count(s),
            _ => 0,
        })
        .sum()
}
