//! Notebook directories: generated trees with their expectation, hostile names and links, disk
//! against memory, and what the parser does to the file system (C08-C12).
use crate::bits::EG;
use crate::docgen::{Cx, Profile, rv, utf16};
use crate::dump::{self, Map, s_str};
use crate::graph::*;
use crate::hostile::{self, Scratch};
use crate::io::{self, Fault};
use crate::mini::{self, toc_id};
use crate::px::{self, Lim, Res};
use crate::rng::Rng;
use crate::run::Out;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Flaw {
    TruncatedSection,
    TocAsSection,
    OtherSchema,
    NoToc,
    SectionAsToc,
    TruncatedToc,
    NoOrder,
    BadName,
    DanglingPage,
    EmptyFile,
}
const FLAWS: &[Flaw] = &[
    Flaw::TruncatedSection,
    Flaw::TocAsSection,
    Flaw::OtherSchema,
    Flaw::NoToc,
    Flaw::SectionAsToc,
    Flaw::TruncatedToc,
    Flaw::NoOrder,
    Flaw::BadName,
    Flaw::DanglingPage,
    Flaw::EmptyFile,
];

pub struct Gen {
    pub r: Rng,
    flaw: Option<Flaw>,
    /// what the flaw that was planted must be reported as
    pub err: Option<String>,
    pub stats: BTreeMap<&'static str, u64>,
    pub files: usize,
    pub full: bool,
}

fn re(m: &Map, from: &str, to: &str) -> Map {
    m.iter().map(|(k, v)| (format!("{to}{}", &k[from.len()..]), v.clone())).collect()
}

impl Gen {
    pub fn new(r: Rng, flaw: Option<Flaw>) -> Gen {
        Gen { r, flaw, err: None, stats: BTreeMap::new(), files: 0, full: true }
    }
    fn stat(&mut self, k: &'static str) {
        *self.stats.entry(k).or_insert(0) += 1;
    }
    fn plant(&mut self, among: &[Flaw], last: bool) -> Option<Flaw> {
        match self.flaw {
            Some(f) if among.contains(&f) && (last || self.r.flip()) => {
                self.flaw = None;
                Some(f)
            }
            _ => None,
        }
    }
    fn word(&mut self) -> String {
        let n = self.r.range(2, 7);
        let mut s: String = (0..n).map(|_| (b'a' + self.r.below(26) as u8) as char).collect();
        match self.r.below(20) {
            12 => s.insert_str(1, "%20%2F%2e%00"),
            13 => s.push_str(*self.r.pick(&["~", "~1", ".tmp", ".bak", " (2)", "%", "$", "!", "'", "#", "\u{200B}", "\u{FF0E}", "e\u{301}", ".onepkg", ".ONE", ".lock"])),
            14 => s.insert_str(0, *self.r.pick(&["~", "~$", "%", "$", "#", "!", "(", "@", "Thumbs", "desktop", "tmp", "backup of ", "OneNote", "\u{FEFF}"])),
            15 => {
                let n = self.r.range(100, 190);
                s = "l".repeat(n) + &s;
            }
            0 => s.insert(1, '+'),
            1 => s.insert(1, ','),
            2 => s.insert_str(1, "+,+"),
            3 => s.insert(1, ' '),
            4 => s.insert_str(1, "\u{e9}\u{4e2d}\u{1F600}"),
            5 => s.insert(1, '.'),
            6 => s.insert(1, '^'),
            7 => s = s.to_uppercase(),
            8 => s.insert_str(1, " - (1) [x] 'y' & #5 %41 ~ $H {z} = !"),
            9 => s.insert_str(1, "^m^j"),
            10 => s.insert_str(1, "_-"),
            11 => s.insert(0, '^'),
            _ => {}
        }
        // names that Windows reserves are not names of entries
        if ["con", "prn", "aux", "nul"].contains(&s.to_lowercase().split('.').next().unwrap_or("").trim()) {
            s.insert(0, 'q');
        }
        s
    }
    pub fn opts(&mut self) -> Opts {
        match self.r.below(4) {
            0 => Opts::wild(),
            1 => Opts::canonical(),
            _ => Opts::mild(),
        }
    }
    /// A section file; returns its expectation with the prefix "@".
    fn section(&mut self, path: &Path, flaw: Option<Flaw>) -> Map {
        self.files += 1;
        self.stat("section files");
        let mut cx = Cx::new(self.r.fork(), Profile { budget: 2, page_items: (0, 1), items: (0, 1), title: 30, ..Profile::small() });
        let mut store = cx.section("@", path.file_name().unwrap().to_str().unwrap());
        let o = self.opts();
        let mut dmg = Damage::default();
        if flaw == Some(Flaw::OtherSchema) {
            dmg.schema = Some(self.r.bytes(16).try_into().unwrap());
            self.err = Some(format!("Not a section file: {}", path.display()));
        }
        if flaw == Some(Flaw::DanglingPage) {
            // the section's own object is missing
            let root = store.spaces[0].revs[0].roots.iter().find(|r| r.0 == 1).unwrap().1;
            for rev in &mut store.spaces[0].revs {
                for g in &mut rev.groups {
                    g.retain(|o| o.id != root);
                }
            }
            self.err = Some("Malformed".into());
        }
        let mut b = encode_damaged(&store, &o, &mut self.r, &dmg).bytes;
        match flaw {
            Some(Flaw::TruncatedSection) => {
                let n = 300.min(b.len() - 1);
                b.truncate(self.r.below(n));
                self.err = Some("Unexpected end of file".into());
            }
            Some(Flaw::EmptyFile) => {
                b.clear();
                self.err = Some("Unexpected end of file".into());
            }
            Some(Flaw::TocAsSection) => {
                b = mini::bytes(&mini::toc(&["x.one"]));
                self.err = Some(format!("Not a section file: {}", path.display()));
            }
            _ => {}
        }
        std::fs::write(path, b).unwrap();
        cx.exp
    }
    fn junk(&mut self, dir: &Path) {
        if self.r.one_in(3) {
            let _ = std::fs::write(dir.join("unlisted.one"), b"not a section");
            let _ = std::fs::write(dir.join("readme.txt"), b"text");
        }
        if self.r.one_in(3) {
            let _ = std::fs::write(dir.join(".onetoc2"), b"no extension");
            let _ = std::fs::write(dir.join("old.onetoc2.bak"), b"other extension");
            let _ = std::fs::create_dir(dir.join("unlisted dir"));
        }
        if self.r.one_in(4) {
            let _ = std::fs::write(dir.join("x.ONETOC2"), b"upper case extension");
            let _ = std::fs::write(dir.join("onetoc2"), b"no dot");
        }
    }
    /// Fills a directory with a table of contents and what it lists; the expectation has the
    /// prefix "@" (entries and colour).
    pub fn dir(&mut self, dir: &Path, toc_name: &str, depth: usize, root: bool) -> Map {
        let n = match self.r.below(6) {
            0 => 0,
            1 => 1,
            2 => 8,
            _ => self.r.range(2, 5),
        };
        let large = root && self.r.one_in(12);
        let n = match (large, self.r.below(8)) {
            (true, 0) => self.r.range(260, 700),
            (true, _) => self.r.range(24, 90),
            _ => n,
        };
        let depth = if large { depth.min(1) } else { depth };
        if large {
            self.stat("tables of contents with many entries");
        }
        let n = if root && self.flaw.is_some() { n.max(3) } else { n };
        // (name as stored, expectation of the entry or None when it is left out)
        let mut items: Vec<(String, Option<Map>)> = vec![];
        let mut used = std::collections::HashSet::new();
        for i in 0..n {
            let last = root && i + 1 == n;
            // names differ in more than the endings added below, so that nothing listed as missing
            // comes into being later
            let mut name = self.word();
            while !used.insert(name.to_lowercase()) {
                name = self.word();
                if self.r.flip() {
                    name.push_str(&i.to_string());
                }
            }
            let mut base = dir.to_path_buf();
            let mut prefix = String::new();
            if self.r.one_in(9) {
                let d = self.word();
                if std::fs::create_dir(base.join(&d)).is_ok() {
                    self.stat("entries in subdirectories");
                    base = base.join(&d);
                    prefix = format!("{d}/");
                }
            }
            if self.r.one_in(25) {
                prefix.insert_str(0, "./");
            }
            if self.r.one_in(25) {
                prefix.push_str("./");
            }
            let flaw = self.plant(
                &[Flaw::TruncatedSection, Flaw::TocAsSection, Flaw::OtherSchema, Flaw::NoToc, Flaw::SectionAsToc, Flaw::TruncatedToc, Flaw::DanglingPage, Flaw::EmptyFile],
                last,
            );
            let kind = match flaw {
                Some(Flaw::NoToc | Flaw::SectionAsToc | Flaw::TruncatedToc) => 7,
                Some(_) => 0,
                None => self.r.below(12),
            };
            let exp = match kind {
                0..=5 => {
                    match self.r.below(8) {
                        0 => {}
                        1 => name.push_str(".One"),
                        2 => name.push_str(".one.One"),
                        _ => name.push_str(".one"),
                    }
                    let p = base.join(&name);
                    if p.exists() {
                        continue;
                    }
                    Some(self.section(&p, flaw))
                }
                6 => {
                    self.stat("missing entries");
                    name.push_str(".one");
                    if base.join(&name).exists() {
                        continue;
                    }
                    None
                }
                7 | 8 if depth > 0 || flaw.is_some() => {
                    if self.r.one_in(5) {
                        name.push_str(".one");
                    }
                    let p = base.join(&name);
                    if std::fs::create_dir(&p).is_err() {
                        if flaw.is_some() {
                            self.flaw = flaw;
                        }
                        continue;
                    }
                    self.stat("section groups");
                    let toc = match self.r.below(3) {
                        0 => "Open Notebook.onetoc2".to_string(),
                        1 => format!("{}.onetoc2", self.word()),
                        _ => "a.b.onetoc2".to_string(),
                    };
                    match flaw {
                        Some(Flaw::NoToc) => {
                            let d = Map::new();
                            self.junk(&p);
                            self.err = Some("Table of contents file is missing in dir ".to_string() + p.to_str().unwrap());
                            Some(d)
                        }
                        Some(Flaw::SectionAsToc) => {
                            std::fs::write(p.join(&toc), mini::bytes(&mini::plain_section())).unwrap();
                            self.err = Some(format!("Not a table of contents file: {}", p.join(&toc).display()));
                            Some(Map::new())
                        }
                        Some(Flaw::TruncatedToc) => {
                            let mut b = mini::bytes(&mini::toc(&["x.one"]));
                            let n = self.r.below(b.len() - 3);
                            b.truncate(if self.r.one_in(3) { 0 } else { n });
                            std::fs::write(p.join(&toc), b).unwrap();
                            self.err = Some("Unexpected end of file".into());
                            Some(Map::new())
                        }
                        _ => {
                            let mut m = self.dir(&p, &toc, depth.saturating_sub(1), false);
                            m.remove("@.color");
                            m.insert("@.kind".into(), "group".into());
                            m.insert("@.name".into(), s_str(&name));
                            Some(m)
                        }
                    }
                }
                9 => {
                    self.stat("recycle bins");
                    name = "OneNote_RecycleBin".into();
                    let p = base.join(&name);
                    if p.exists() {
                        continue;
                    }
                    match self.r.below(3) {
                        0 => {}
                        1 => {
                            std::fs::create_dir(&p).unwrap();
                            // what lies in it is not parsed
                            std::fs::write(p.join("x.onetoc2"), b"deleted").unwrap();
                        }
                        _ => {
                            std::fs::create_dir(&p).unwrap();
                            let f = self.flaw.take();
                            self.dir(&p, "t.onetoc2", 0, false);
                            self.flaw = f;
                        }
                    }
                    None
                }
                _ => {
                    // a near miss of the recycle bin's name
                    self.stat("near misses of the recycle bin");
                    name = match self.r.below(4) {
                        0 => "OneNote_RecycleBin.one".to_string(),
                        1 => "onenote_recyclebin".to_string(),
                        2 => format!("{name}OneNote_RecycleBin"),
                        _ => format!("OneNote_RecycleBin{name}"),
                    };
                    let p = base.join(&name);
                    if p.exists() {
                        continue;
                    }
                    Some(self.section(&p, None))
                }
            };
            items.push((format!("{prefix}{name}"), exp));
        }
        self.junk(dir);
        // order: distinct, tied, descending or random ordering ids; some names listed again
        let mut listed: Vec<(u32, usize)> = vec![];
        let style = self.r.below(5);
        for i in 0..items.len() {
            let times = match self.r.below(10) {
                0 => 2,
                1 => 3,
                _ => 1,
            };
            for _ in 0..times {
                let o = match style {
                    0 => i as u32,
                    1 => 7,
                    2 => (items.len() - i) as u32,
                    3 => self.r.below(3) as u32,
                    _ => self.r.u32(),
                };
                listed.push((o, i));
            }
        }
        if self.r.flip() {
            self.r.shuffle(&mut listed);
        }
        // group names listed twice make the work exponential; keep that to the leaves
        let mut seen_group = std::collections::HashSet::new();
        listed.retain(|(_, i)| items[*i].1.as_ref().is_none_or(|m| m.get("@.kind").is_none_or(|k| k != "group") || depth == 0 || seen_group.insert(*i)));
        let leaves: Vec<(u32, String)> = listed
            .iter()
            .map(|(o, i)| (*o, items[*i].0.replace('+', "^M").replace(',', "^J")))
            .collect();
        let mut cx = Cx::new(self.r.fork(), Profile::small());
        let (mut store, color) = cx.toc(&leaves);
        match self.plant(&[Flaw::NoOrder, Flaw::BadName], root) {
            Some(Flaw::NoOrder) => {
                let id = store.spaces[0].revs[0].roots[0].1;
                let x = toc_id(900);
                add_child(&mut store, id, Obj { id: x, jcid: 0x20001, props: vec![prop(0x1C001D6B, rv(utf16("a.one")))], blob: None });
                self.err = Some("Malformed".into());
            }
            Some(_) => {
                let id = store.spaces[0].revs[0].roots[0].1;
                let x = toc_id(900);
                let bad = *self.r.pick(&["../a.one", "/a.one", "a\u{7}b.one", "..", "", "x/../a.one", "a:b.one"]);
                add_child(
                    &mut store,
                    id,
                    Obj { id: x, jcid: 0x20001, props: vec![prop(0x1C001D6B, rv(utf16(bad))), prop(0x14001CB9, PV::U32(5))], blob: None },
                );
                self.err = Some("Invalid path".into());
            }
            None => {}
        }
        if !root {
            // deep in groups
            if self.r.one_in(4) && !leaves.is_empty() {
                self.stat("tables of contents as revision chains");
                crate::docgen::layer(&mut store, &mut self.r, 3);
            }
        }
        let o = self.opts();
        std::fs::write(dir.join(toc_name), encode(&store, &o, &mut self.r).bytes).unwrap();
        self.files += 1;
        // expectation
        listed.sort_by_key(|(o, _)| *o);
        let mut m = Map::new();
        m.insert("@.color".into(), color);
        let mut k = 0;
        let mut prev: Option<usize> = None;
        for (_, i) in listed {
            if prev == Some(i) {
                self.stat("adjacent duplicates");
                continue;
            }
            prev = Some(i);
            if let Some(e) = &items[i].1 {
                m.extend(re(e, "@", &format!("@.e{k}")));
                k += 1;
            }
        }
        m.insert("@.entries#".into(), k.to_string());
        self.stat("tables of contents");
        m
    }
}

/// Appends an object to the space of `id` and to its children.
pub fn add_child(s: &mut Store, id: EG, o: Obj) {
    for sp in &mut s.spaces {
        for rev in &mut sp.revs {
            for g in &mut rev.groups {
                if let Some(root) = g.iter_mut().find(|x| x.id == id) {
                    match root.get_mut(0x24001CF6) {
                        Some(Prop { v: PV::Oids(v), .. }) => v.push(o.id),
                        _ => root.props.push(prop(0x24001CF6, PV::Oids(vec![o.id]))),
                    }
                    g.push(o);
                    return;
                }
            }
        }
    }
}

const LIM: Lim = Lim { cpu: 60.0, heap: 4 << 30 };

/// C12: the entries of generated notebook directories.
pub fn c12(out: &mut Out, n: u64) {
    let mut r = out.rng();
    if n % 50 == 0 {
        chain(out, &mut r);
    }
    let flaw = if n % 3 == 2 { Some(*r.pick(FLAWS)) } else { None };
    let d = Scratch::new("c12");
    let here = *r.pick(&["nb \u{e9}", "nb \u{e9}", "OneNote_RecycleBin", "x.one", "a.onetoc2", "..nb", "nb."]);
    let nb = d.0.join(here);
    std::fs::create_dir(&nb).unwrap();
    let toc = *r.pick(&["Open Notebook.onetoc2", "x.onetoc2", "toc", "a.one", "OneNote_RecycleBin.onetoc2"]);
    let mut g = Gen::new(r.fork(), flaw);
    let depth = r.range(0, 4);
    let exp = re(&g.dir(&nb, toc, depth, true), "@", "n");
    let err = g.err.clone();
    out.eval();
    out.step(&format!("notebook directory, flaw {flaw:?}"));
    for (k, v) in &g.stats {
        out.stat(&format!("generated {k}"), *v);
    }
    out.stat_max("files of a notebook", g.files as u64);
    let names: Vec<u8> = exp.iter().flat_map(|(k, v)| format!("{k}={v}\n").into_bytes()).collect();
    out.nontrivial_bytes(&names);
    // the same directory by several paths
    let mut paths = vec![nb.join(toc)];
    match r.below(4) {
        0 => {
            std::env::set_current_dir(&nb).unwrap();
            paths.push(PathBuf::from(toc));
            paths.push(Path::new(".").join(toc));
        }
        1 => {
            std::env::set_current_dir(&d.0).unwrap();
            paths.push(Path::new(here).join(toc));
        }
        2 => {
            let l = d.0.join("link to nb");
            std::os::unix::fs::symlink(&nb, &l).unwrap();
            paths.push(l.join(toc));
        }
        3 if r.flip() => {
            // the table of contents is a link to a file in another directory
            let there = d.0.join("elsewhere");
            std::fs::create_dir(&there).unwrap();
            std::fs::rename(nb.join(toc), there.join("moved.onetoc2")).unwrap();
            std::os::unix::fs::symlink(there.join("moved.onetoc2"), nb.join(toc)).unwrap();
            out.stat("tables of contents given as links", 1);
        }
        _ => {}
    }
    for p in &paths {
        let base = p.parent().unwrap();
        let base = if base.as_os_str().is_empty() { Path::new(".") } else { base };
        let res = px::notebook_lim(p, LIM);
        match (&res, &err) {
            (Res::Ok(nb), None) => {
                let act = dump::dump_notebook(nb);
                out.stat("values compared", exp.len() as u64);
                let df = dump::diff(&exp, &act, &|_| true, 4);
                if !df.is_empty() {
                    out.violation(format!("{}: {}", p.display(), df.join("; ")));
                }
            }
            (Res::Err(e), Some(w)) => {
                out.stat("flaws reported", 1);
                let w = w.replace(nb.to_str().unwrap(), base.to_str().unwrap());
                if !e.starts_with(&w) && !e.contains(&w) {
                    out.violation(format!("{}: {flaw:?} must be reported as {w:?}, got {e:?}", p.display()));
                }
            }
            (r, w) => out.violation(format!(
                "{}: {} although {}",
                p.display(),
                r.what(),
                match w {
                    None => "every entry is well-formed".to_string(),
                    Some(_) => format!("an entry is flawed ({flaw:?})"),
                }
            )),
        }
    }
    std::env::set_current_dir("/").unwrap();
    if n < 6 {
        out.sample(|| format!("case {n}: {} files, flaw {flaw:?}, expects {:?}", g.files, exp.iter().filter(|(k, _)| k.ends_with(".name") || k.ends_with("entries#")).take(8).collect::<Vec<_>>()));
    }
}

/// A directory with `depth` section groups inside one another.
pub fn make_chain(dir: &Path, depth: usize, leaf: &[u8]) -> Map {
    let mut m = Map::new();
    let mut d = dir.to_path_buf();
    let mut p = String::from("n");
    m.insert("n.color".into(), "-".into());
    for k in 0..=depth {
        let last = k == depth;
        std::fs::write(d.join("x.onetoc2"), mini::bytes(&mini::toc(&[if last { "a.one" } else { "G" }]))).unwrap();
        m.insert(format!("{p}.entries#"), "1".into());
        p.push_str(".e0");
        if last {
            std::fs::write(d.join("a.one"), leaf).unwrap();
            m.insert(format!("{p}.kind"), "section".into());
        } else {
            m.insert(format!("{p}.kind"), "group".into());
            m.insert(format!("{p}.name"), s_str("G"));
            d = d.join("G");
            std::fs::create_dir(&d).unwrap();
        }
    }
    m
}

fn chain(out: &mut Out, r: &mut Rng) {
    let depth = *r.pick(&[5, 20, 40, 60, 63, 64, 65, 66, 70, 100, 150]);
    let d = Scratch::new("chain");
    let exp = make_chain(&d.0, depth, &mini::bytes(&mini::plain_section()));
    out.eval();
    out.step(&format!("{depth} nested section groups"));
    out.stat_max("depth of nested section groups", depth as u64);
    match px::notebook_lim(&d.0.join("x.onetoc2"), LIM) {
        Res::Ok(nb) => {
            let act = dump::dump_notebook(&nb);
            let df = dump::diff(&exp, &act, &|k| exp.contains_key(k), 3);
            if !df.is_empty() {
                out.violation(format!("{depth} nested section groups: {}", df.join("; ")));
            }
        }
        // a limit on the depth is no defect as long as it is reported
        Res::Err(_) if depth > 64 => out.stat("groups nested too deeply and rejected", 1),
        e => out.violation(format!("{depth} nested section groups: {}", e.what())),
    }
}

// --- C10 --------------------------------------------------------------------------------------

fn symlink(to: impl AsRef<Path>, at: impl AsRef<Path>) {
    let _ = std::os::unix::fs::symlink(to, at);
}

/// C10: names and links that lead out of the notebook's directory.
pub fn c10(out: &mut Out, n: u64) {
    let mut r = out.rng();
    let d = Scratch::new("c10");
    let d0 = std::fs::canonicalize(&d.0).unwrap();
    let sec = mini::bytes(&mini::plain_section());
    // what lies outside
    std::fs::write(d0.join("secret.one"), &sec).unwrap();
    for s in ["secret", "nbX"] {
        std::fs::create_dir(d0.join(s)).unwrap();
        std::fs::write(d0.join(s).join("x.onetoc2"), mini::bytes(&mini::toc(&["s.one"]))).unwrap();
        std::fs::write(d0.join(s).join("s.one"), &sec).unwrap();
    }
    let nb = d0.join("nb");
    std::fs::create_dir(&nb).unwrap();
    // the directory whose table of contents is hostile: the root or a section group some levels down
    let level = r.below(4);
    let mut dir = nb.clone();
    for k in 0..level {
        let names: &[&str] = if r.flip() { &["in.one", "G"] } else { &["G", "in.one"] };
        std::fs::write(dir.join("x.onetoc2"), mini::bytes(&mini::toc(names))).unwrap();
        std::fs::write(dir.join("in.one"), &sec).unwrap();
        dir = dir.join(if k % 2 == 0 { "G" } else { "G" });
        std::fs::create_dir(&dir).unwrap();
    }
    let up = "../".repeat(level + 1);
    std::fs::write(dir.join("in.one"), &sec).unwrap();
    std::fs::create_dir(dir.join("sub")).unwrap();
    std::fs::write(dir.join("sub").join("s.one"), &sec).unwrap();
    std::fs::create_dir(dir.join("grp")).unwrap();
    std::fs::write(dir.join("grp").join("x.onetoc2"), mini::bytes(&mini::toc(&["s.one"]))).unwrap();
    std::fs::write(dir.join("grp").join("s.one"), &sec).unwrap();
    // links out of the notebook
    symlink(d0.join("secret.one"), dir.join("link.one"));
    symlink(format!("{up}secret.one"), dir.join("rellink.one"));
    symlink(d0.join("secret"), dir.join("linkdir"));
    symlink("linkdir", dir.join("link2dir"));
    symlink("/", dir.join("rootlink"));
    symlink("..", dir.join("parent"));
    symlink(".", dir.join("self"));
    symlink("loop2", dir.join("loop1"));
    symlink("loop1", dir.join("loop2"));
    symlink(d0.join("nowhere.one"), dir.join("dangling.one"));
    // a directory outside whose name starts with the notebook's
    symlink(d0.join("nbX"), dir.join("sibling"));
    // links inside
    symlink("in.one", dir.join("good.one"));
    symlink("grp", dir.join("goodgrp"));
    // section groups with a linked table of contents or linked entries
    for (g, to) in [("evil1", d0.join("secret").join("x.onetoc2")), ("evil2", PathBuf::from(format!("../{up}secret/x.onetoc2")))] {
        std::fs::create_dir(dir.join(g)).unwrap();
        symlink(to, dir.join(g).join("x.onetoc2"));
    }
    std::fs::create_dir(dir.join("evil3")).unwrap();
    std::fs::write(dir.join("evil3").join("x.onetoc2"), mini::bytes(&mini::toc(&["l.one"]))).unwrap();
    symlink(d0.join("secret.one"), dir.join("evil3").join("l.one"));
    std::fs::create_dir(dir.join("evil4")).unwrap();
    let escape = format!("../{up}secret.one");
    std::fs::write(dir.join("evil4").join("x.onetoc2"), mini::bytes(&mini::toc(&[&escape]))).unwrap();
    std::fs::create_dir(dir.join("evil5")).unwrap();
    std::fs::write(dir.join("evil5").join("x.onetoc2"), mini::bytes(&mini::toc(&["d/s.one"]))).unwrap();
    symlink(d0.join("secret"), dir.join("evil5").join("d"));

    let abs = d0.join("secret.one").display().to_string();
    let abs_in = dir.join("in.one").display().to_string();
    // (name, must be rejected)
    let mut bad: Vec<String> = vec![
        format!("{up}secret.one"),
        format!("{up}secret"),
        format!("{up}nbX"),
        format!("./{up}secret.one"),
        format!("sub/../{up}secret.one"),
        format!("grp/../{up}secret/s.one"),
        "..".into(),
        "../".into(),
        "sub/../..".into(),
        "sub/..".into(),
        "sub/../in.one".into(),
        "nosuch/../in.one".into(),
        "".into(),
        ".".into(),
        "./".into(),
        "./.".into(),
        abs.clone(),
        format!("/{abs}"),
        abs_in,
        "/".into(),
        "/etc/passwd".into(),
        format!("//{}", &abs[1..]),
        "link.one".into(),
        "rellink.one".into(),
        "linkdir".into(),
        "link2dir".into(),
        "linkdir/s.one".into(),
        "link2dir/s.one".into(),
        format!("rootlink{abs}"),
        "rootlink".into(),
        "parent".into(),
        "self".into(),
        "sibling".into(),
        "sibling/s.one".into(),
        "evil1".into(),
        "evil2".into(),
        "evil3".into(),
        "evil4".into(),
        "evil5".into(),
        "evil3/l.one".into(),
        "a\\b.one".into(),
        "..\\secret.one".into(),
        "C:secret.one".into(),
        "C:\\secret.one".into(),
        "\\\\server\\share\\s.one".into(),
        "in.one:stream".into(),
        "what?.one".into(),
        "*.one".into(),
        "a<b.one".into(),
        "a>b.one".into(),
        "a|b.one".into(),
        "a\"b.one".into(),
        "a\nb.one".into(),
        "a\tb.one".into(),
        "a\u{1}b.one".into(),
        "a\u{1f}b.one".into(),
        "a\u{7f}b.one".into(),
        "\u{8}".into(),
        "sub/a\u{1b}b.one".into(),
        "s?b/s.one".into(),
    ];
    // the same with an embedded NUL (which ends the name) and with escapes for + and ,
    bad.push(format!("{up}secret.one\0.one"));
    let good: Vec<&str> = vec!["in.one", "sub/s.one", "grp", "good.one", "goodgrp", "missing.one", "loop1", "dangling.one", "./in.one", "sub/./s.one"];
    // reserved characters exist as files here, so that only their names can be the reason
    for f in ["a:b.one", "in.one:stream", "what?.one", "*.one", "a<b.one", "a>b.one", "a|b.one", "a\"b.one", "a\nb.one", "a\\b.one", "C:secret.one", "..\\secret.one"] {
        if r.flip() {
            let _ = std::fs::write(dir.join(f), &sec);
        }
    }
    let pick = (n as usize) % (bad.len() + 6);
    let is_bad = pick < bad.len();
    let mut names: Vec<String> = vec![];
    for _ in 0..r.below(4) {
        names.push(r.pick(&good).to_string());
    }
    if is_bad {
        let k = r.below(names.len() + 1);
        names.insert(k, bad[pick].clone());
    } else {
        names.push(good[r.below(good.len())].to_string());
    }
    let leaves: Vec<(u32, String)> = names.iter().enumerate().map(|(i, n)| (i as u32, n.clone())).collect();
    let mut cx = Cx::new(r.fork(), Profile::small());
    let store = cx.toc(&leaves).0;
    let o = if r.flip() { Opts::mild() } else { Opts::wild() };
    std::fs::write(dir.join("x.onetoc2"), encode(&store, &o, &mut r).bytes).unwrap();

    // how the notebook is reached
    // the table of contents itself may be a link; its entries are those of the directory it is in
    let mut given = None;
    let (path, cwd) = match r.below(6) {
        5 => {
            let there = d0.join("elsewhere");
            std::fs::create_dir(&there).unwrap();
            for s in ["grp", "sub", "goodgrp", "G"] {
                std::fs::create_dir(there.join(s)).unwrap();
                std::fs::write(there.join(s).join("x.onetoc2"), mini::bytes(&mini::toc(&["s.one"]))).unwrap();
                std::fs::write(there.join(s).join("s.one"), &sec).unwrap();
            }
            for s in ["in.one", "good.one", "missing.one"] {
                std::fs::write(there.join(s), &sec).unwrap();
            }
            let to = there.join("real.onetoc2");
            std::fs::rename(nb.join("x.onetoc2"), &to).unwrap();
            symlink(if r.flip() { to.clone() } else { PathBuf::from("../elsewhere/real.onetoc2") }, nb.join("x.onetoc2"));
            given = Some(to.display().to_string());
            out.stat("tables of contents given as links", 1);
            (nb.join("x.onetoc2"), d0.clone())
        }
        0 => (PathBuf::from("x.onetoc2"), nb.clone()),
        1 => (PathBuf::from("nb/x.onetoc2"), d0.clone()),
        2 => {
            symlink(&nb, d0.join("alias"));
            (d0.join("alias").join("x.onetoc2"), d0.clone())
        }
        3 => (d0.join("secret").join("..").join("nb").join("x.onetoc2"), d0.clone()),
        _ => (nb.join("x.onetoc2"), d0.clone()),
    };
    std::env::set_current_dir(&cwd).unwrap();
    out.eval();
    out.step(&format!("level {level}, names {names:?}"));
    out.nontrivial_bytes(format!("{level} {names:?} {}", path.display()).as_bytes());
    io::begin(Fault::None, 1);
    let res = px::notebook_lim(&path, LIM);
    let tr = io::end();
    std::env::set_current_dir("/").unwrap();
    out.stat("files and directories opened", tr.targets().len() as u64);
    let label = format!("level {level}, names {names:?}, path {}", path.display());
    for t in tr.targets() {
        if !Path::new(t).starts_with(&nb) && given.as_deref() != Some(t) {
            out.violation(format!("{label}: opened {t}, outside the notebook's directory {}", nb.display()));
        }
    }
    if tr.targets().is_empty() {
        out.violation(format!("HARNESS no open call seen, {}", res.what()));
    }
    match &res {
        Res::Err(e) if is_bad && e.starts_with("Invalid path") => out.stat("escapes rejected", 1),
        r if is_bad => out.violation(format!("{label}: {:?} must be rejected as an invalid path: {}", bad[pick], r.what())),
        Res::Panic(e) => out.violation(format!("{label}: panic {e}")),
        Res::Ok(_) => out.stat("harmless notebooks parsed", 1),
        Res::Err(e) => out.stat(&format!("harmless notebooks rejected: {}", e.chars().take(40).collect::<String>()), 1),
    }
    if n < 4 || (n > 40 && n < 44) {
        out.sample(|| format!("case {n}: {label}: {}; opened {:?}", res.what(), tr.targets()));
    }
}

// --- C11 --------------------------------------------------------------------------------------

#[derive(PartialEq, Debug)]
struct Stat {
    kind: u32,
    len: u64,
    mtime: (i64, i64),
    ctime: (i64, i64),
    ino: u64,
    uid: u32,
    hash: u64,
}
fn snapshot(dir: &Path) -> BTreeMap<PathBuf, Stat> {
    use std::os::unix::fs::MetadataExt;
    let mut m = BTreeMap::new();
    let mut todo = vec![dir.to_path_buf()];
    while let Some(d) = todo.pop() {
        let md = std::fs::symlink_metadata(&d).unwrap();
        let hash = if md.is_file() {
            crate::rng::hash_bytes(&std::fs::read(&d).unwrap_or_default())
        } else if md.is_symlink() {
            crate::rng::hash_bytes(std::fs::read_link(&d).unwrap().as_os_str().as_encoded_bytes())
        } else {
            0
        };
        if md.is_dir() {
            for e in std::fs::read_dir(&d).unwrap().flatten() {
                todo.push(e.path());
            }
        }
        m.insert(
            d,
            Stat {
                kind: md.mode(),
                len: md.len(),
                mtime: (md.mtime(), md.mtime_nsec()),
                ctime: (md.ctime(), md.ctime_nsec()),
                ino: md.ino(),
                uid: md.uid(),
                hash,
            },
        );
    }
    m
}
fn changed(a: &BTreeMap<PathBuf, Stat>, b: &BTreeMap<PathBuf, Stat>) -> Vec<String> {
    let mut v = vec![];
    for (k, s) in a {
        match b.get(k) {
            None => v.push(format!("{} is gone", k.display())),
            Some(t) if t != s => v.push(format!("{} changed from {s:?} to {t:?}", k.display())),
            _ => {}
        }
    }
    for k in b.keys() {
        if !a.contains_key(k) {
            v.push(format!("{} is new", k.display()));
        }
    }
    v
}

/// C11: nothing is modified and nothing stays open.
pub fn c11(out: &mut Out, n: u64) {
    let mut r = out.rng();
    let d = Scratch::new("c11");
    let mut label = String::new();
    let path;
    let mut fault = Fault::None;
    match n % 4 {
        0 | 1 => {
            let flaw = if r.flip() { Some(*r.pick(FLAWS)) } else { None };
            let mut g = Gen::new(r.fork(), flaw);
            g.dir(&d.0, "x.onetoc2", 3, true);
            path = d.0.join("x.onetoc2");
            label = format!("notebook directory, flaw {flaw:?}");
            fault = match r.below(6) {
                0 => Fault::Short(100),
                1 => Fault::ReadFails(r.below(12) as u64),
                2 => Fault::OpenFails(r.below(6) as u64, *r.pick(&[13, 24, 5])),
                3 => Fault::DirFails(r.below(4) as u64),
                _ => Fault::None,
            };
        }
        2 => {
            let mut cx = Cx::new(r.fork(), Profile::base());
            let s = cx.section("s", "x.one");
            std::fs::write(d.0.join("x.one"), encode(&s, &Opts::mild(), &mut r).bytes).unwrap();
            path = d.0.join("x.one");
            label.push_str("generated section");
        }
        _ => {
            let c = hostile::case(hostile::catalogue_len() + n, &mut r);
            path = d.0.join(if c.toc { "x.onetoc2" } else { "x.one" });
            std::fs::write(&path, &c.bytes).unwrap();
            label.push_str(&c.label);
        }
    }
    // the file and its directory may be read-only
    if r.one_in(3) {
        use std::os::unix::fs::PermissionsExt;
        std::fs::set_permissions(&path, std::fs::Permissions::from_mode(0o400)).unwrap();
    }
    let before = snapshot(&d.0);
    let env: Vec<_> = std::env::vars_os().collect();
    let cwd = std::env::current_dir().ok();
    for how in 0..3 {
        out.eval();
        out.step(&format!("{label} ({how}, {fault:?})"));
        let fds = io::open_fds();
        io::begin(fault, out.seed + n);
        let ok = match how {
            0 => px::notebook_lim(&path, LIM).is_ok(),
            1 => px::section_file(&path).is_ok(),
            _ => {
                let b = std::fs::read(&path).unwrap_or_default();
                // the harness's own reading is not the parser's
                io::begin(fault, 1);
                px::section(&b, "x.one").is_ok()
            }
        };
        let tr = io::end();
        let after = io::open_fds();
        out.stat(if ok { "parses that succeeded" } else { "parses that failed" }, 1);
        out.stat("system calls observed", tr.ev.len() as u64);
        out.stat("injected faults that fired", (tr.fired > 0) as u64);
        let m = tr.mutations();
        if !m.is_empty() {
            out.violation(format!("{label}: the parser called {}", m.join(", ")));
        }
        if fds != after {
            out.violation(format!("{label}: open descriptors differ: before {fds:?}, after {after:?}"));
        }
        if how == 2 && !tr.ev.is_empty() {
            out.violation(format!("{label}: parsing from memory touched the file system: {:?}", tr.ev.iter().take(3).collect::<Vec<_>>()));
        }
    }
    let after = snapshot(&d.0);
    let c = changed(&before, &after);
    if !c.is_empty() {
        out.violation(format!("{label}: {}", c.join("; ")));
    }
    if env != std::env::vars_os().collect::<Vec<_>>() || cwd != std::env::current_dir().ok() {
        out.violation(format!("{label}: the environment or the current directory changed"));
    }
    out.stat("files compared before and after", before.len() as u64);
    let sig: Vec<u8> = before.values().flat_map(|s| s.hash.to_le_bytes()).collect();
    out.nontrivial_bytes(&sig);
    if n < 5 {
        out.sample(|| format!("case {n}: {label}, {} files, fault {fault:?}", before.len()));
    }
}

// --- C08 --------------------------------------------------------------------------------------

fn show<T>(r: &Res<T>, f: impl Fn(&T) -> Map) -> Result<Map, String> {
    match r {
        Res::Ok(v) => Ok(f(v)),
        r => Err(r.what()),
    }
}
fn differ(a: &Result<Map, String>, b: &Result<Map, String>) -> Option<String> {
    match (a, b) {
        (Ok(a), Ok(b)) => {
            let d = dump::diff(a, b, &|_| true, 3);
            if d.is_empty() { None } else { Some(d.join("; ")) }
        }
        (Err(a), Err(b)) if a == b => None,
        (a, b) => Some(format!(
            "memory gives {}, disk gives {}",
            a.as_ref().map(|_| "a section".to_string()).unwrap_or_else(|e| e.clone()),
            b.as_ref().map(|_| "a section".to_string()).unwrap_or_else(|e| e.clone())
        )),
    }
}

/// C08: disk and memory agree.
pub fn c08(out: &mut Out, n: u64) {
    let mut r = out.rng();
    let d = Scratch::new("c08");
    let name = *r.pick(&["x.one", "a b.one.one", ".one", "noext", "\u{e9}\u{1F600}.one", "x.ONE", "x.one.bak", "..one", "-x"]);
    // what the file holds
    let (label, mut b, is_good) = match n % 5 {
        4 => {
            let c = hostile::case(hostile::catalogue_len() + n, &mut r);
            (c.label, c.bytes, false)
        }
        3 if n % 2 == 1 => {
            let mut c = crate::budget::family(*r.pick(&[7, 8, 0]), 3000);
            c.label.push_str(" (large)");
            (c.label, c.bytes, true)
        }
        _ => {
            let mut p = Profile::small();
            if n % 150 == 5 {
                // a file of more than 16 MiB
                p.huge = true;
                p.w_page = [0, 100, 0, 0, 0];
                p.page_items = (2, 4);
            }
            let mut cx = Cx::new(r.fork(), p);
            let s = cx.section("s", name);
            let mut o = Opts::mild();
            o.trailing = false;
            ("generated".to_string(), encode(&s, &o, &mut r).bytes, true)
        }
    };
    // sizes around buffer boundaries
    let size = b.len();
    match r.below(5) {
        0 => {
            let to = size.div_ceil(8192) * 8192;
            let to = (to + r.below(3)).saturating_sub(1).max(size);
            b.resize(to, 0xee);
        }
        1 => {
            let to = size.div_ceil(65536) * 65536;
            b.resize(to, 0);
        }
        2 => {
            let to = size.next_power_of_two();
            b.resize(to, 0x15);
        }
        3 if r.one_in(3) => b.truncate(r.below(2)),
        _ => {}
    }
    let is_good = is_good && b.len() >= size;
    let path = d.0.join(name);
    std::fs::write(&path, &b).unwrap();
    out.nontrivial_bytes(&b);
    // parsing succeeds with the file's name, fails with the path
    let mem = {
        let a = px::section(&b, name);
        if a.is_ok() { show(&a, dump::dump_section) } else { show(&px::section(&b, path.to_str().unwrap()), dump::dump_section) }
    };
    if is_good && mem.is_err() {
        out.violation(format!("{label} ({} bytes): a well-formed document is not parsed: {:?}", b.len(), mem.as_ref().err()));
    }
    let check = |out: &mut Out, p: &Path, fault: Fault, what: &str| {
        out.eval();
        out.step(&format!("{label}, {} bytes, {what}", b.len()));
        io::begin(fault, n * 31 + out.seed);
        let res = px::section_file(p);
        let tr = io::end();
        out.stat("reads observed", tr.reads() as u64);
        out.stat(&format!("{what} parses"), 1);
        out.stat(&format!("{what} parses in which the fault fired"), (tr.fired > 0) as u64);
        if let (Fault::ReadFails(_) | Fault::OpenFails(..), true) = (fault, tr.fired > 0) {
            match &res {
                Res::Err(e) if e.starts_with("I/O failure") => out.stat("failures reported as I/O failure", 1),
                r => out.violation(format!("{label} ({} bytes): {what}: must be reported as an I/O failure: {}", b.len(), r.what())),
            }
            return;
        }
        if let Some(d) = differ(&mem, &show(&res, dump::dump_section)) {
            out.violation(format!("{label} ({} bytes) {what}: {d}", b.len()));
        }
    };
    check(out, &path, Fault::None, "plain");
    check(out, &path, Fault::Short(*r.pick(&[1, 7, 100, 5000])).clamp_for(b.len()), "short read");
    check(out, &path, Fault::Eintr(*r.pick(&[50, 1000, 9000])).clamp_for(b.len()), "interrupted");
    if !b.is_empty() {
        check(out, &path, Fault::ReadFails(r.below(b.len() / 997 + 2) as u64), "failing read");
    }
    check(out, &path, Fault::OpenFails(0, *r.pick(&[13, 2, 24, 5])), "failing open");
    if r.one_in(4) {
        std::env::set_current_dir(&d.0).unwrap();
        // errors then name the path as given
        if mem.is_ok() {
            check(out, Path::new(name), Fault::None, "bare name");
        }
        std::env::set_current_dir("/").unwrap();
    }
    if r.one_in(4) && mem.is_ok() {
        let l = d.0.join("l");
        std::fs::create_dir(&l).unwrap();
        symlink(&path, l.join(name));
        check(out, &l.join(name), Fault::None, "symbolic link");
    }
    // a pipe has no size and delivers what it has
    if r.one_in(2) && b.len() < 1 << 20 {
        let dir = d.0.join("pipe");
        std::fs::create_dir(&dir).unwrap();
        let p = dir.join(name);
        let c = std::ffi::CString::new(p.as_os_str().as_encoded_bytes()).unwrap();
        if unsafe { crate::sys::mkfifo(c.as_ptr(), 0o600) } == 0 {
            let data = b.clone();
            let q = p.clone();
            let w = std::thread::spawn(move || {
                use std::io::Write;
                if let Ok(mut f) = std::fs::OpenOptions::new().write(true).open(&q) {
                    for c in data.chunks(3000) {
                        if f.write_all(c).is_err() {
                            break;
                        }
                    }
                }
            });
            out.eval();
            out.step(&format!("{label} through a pipe"));
            let res = px::section_file(&p);
            let _ = w.join();
            out.stat("pipe parses", 1);
            let mem = match &mem {
                Err(e) => Err(e.replace(path.to_str().unwrap(), p.to_str().unwrap())),
                m => m.clone(),
            };
            if let Some(d) = differ(&mem, &show(&res, dump::dump_section)) {
                out.violation(format!("{label} ({} bytes) through a pipe: {d}", b.len()));
            }
        }
    }
    // notebooks under the same faults
    if n % 6 == 0 {
        let nb = d.0.join("nb");
        std::fs::create_dir(&nb).unwrap();
        let mut g = Gen::new(r.fork(), None);
        g.dir(&nb, "x.onetoc2", 2, true);
        let p = nb.join("x.onetoc2");
        let plain = show(&px::notebook_lim(&p, LIM), dump::dump_notebook);
        for fault in [Fault::Short(300), Fault::Eintr(300), Fault::ReadFails(r.below(20) as u64), Fault::OpenFails(r.below(8) as u64, 13), Fault::DirFails(r.below(4) as u64)] {
            out.eval();
            out.step(&format!("notebook, {fault:?}"));
            io::begin(fault, n);
            let res = px::notebook_lim(&p, LIM);
            let tr = io::end();
            let hard = matches!(fault, Fault::ReadFails(_) | Fault::OpenFails(..) | Fault::DirFails(_));
            out.stat("notebook parses", 1);
            out.stat("notebook parses in which the fault fired", (tr.fired > 0) as u64);
            if hard && tr.fired > 0 {
                match &res {
                    Res::Err(e) if e.starts_with("I/O failure") => out.stat("failures reported as I/O failure", 1),
                    r => out.violation(format!("notebook with {fault:?}: must be reported as an I/O failure: {}", r.what())),
                }
            } else if let Some(d) = differ(&plain, &show(&res, dump::dump_notebook)) {
                out.violation(format!("notebook with {fault:?}: {d}"));
            }
        }
    }
    if n < 6 {
        out.sample(|| format!("case {n}: {label} as {name:?}, {} bytes: {}", b.len(), if mem.is_ok() { "parsed" } else { "rejected" }));
    }
}
impl Fault {
    /// One byte at a time is only affordable for small files.
    fn clamp_for(self, len: usize) -> Fault {
        match self {
            Fault::Short(k) => Fault::Short(k.max(len / 20_000)),
            Fault::Eintr(k) => Fault::Eintr(k.max(len / 20_000)),
            f => f,
        }
    }
}

// --- C09 --------------------------------------------------------------------------------------

/// C09: files of the wrong kind.
pub fn c09(out: &mut Out, n: u64) {
    let mut r = out.rng();
    let d = Scratch::new("c09");
    let name = *r.pick(&["x.one", "x.onetoc2", "x", "a b.txt", "\u{4e2d}.one"]);
    let path = d.0.join(name);
    let shown = path.display().to_string();
    let samples = if n % 40 == 0 { hostile::samples() } else { vec![] };
    // (label, bytes, kind: 0 section, 1 table of contents, 2 other)
    let mut files: Vec<(String, Vec<u8>, u8)> = vec![];
    let mut g = Gen::new(r.fork(), None);
    for k in 0..3u8 {
        let mut cx = Cx::new(r.fork(), Profile::small());
        let toc = k == 1 || (k == 2 && r.flip());
        let s = if toc {
            let leaves: Vec<(u32, String)> = (0..r.below(5)).map(|i| (i as u32, format!("f{i}.one"))).collect();
            cx.toc(&leaves).0
        } else {
            cx.section("s", "x.one")
        };
        let mut dmg = Damage::default();
        if k == 2 {
            let mut sch: [u8; 16] = r.bytes(16).try_into().unwrap();
            match r.below(4) {
                0 => sch = [0; 16],
                1 => {
                    sch = s.schema;
                    let i = r.below(16);
                    sch[i] ^= 1 << r.below(8);
                }
                2 => {
                    // both halves mixed
                    sch[..8].copy_from_slice(&crate::bits::guid(SCHEMA_TOC)[..8]);
                    sch[8..].copy_from_slice(&crate::bits::guid(SCHEMA_SECTION)[8..]);
                }
                _ => {}
            }
            dmg.schema = Some(sch);
        }
        let o = g.opts();
        files.push((["section", "table of contents", "other schema"][k as usize].into(), encode_damaged(&s, &o, &mut r, &dmg).bytes, k));
    }
    for (n, b) in samples {
        let k = n.ends_with("onetoc2") as u8;
        files.push((format!("sample {n}"), b, k));
    }
    for (label, b, kind) in &files {
        std::fs::write(&path, b).unwrap();
        out.nontrivial_bytes(b);
        let judge = |out: &mut Out, what: &str, got: Result<(), String>, want: Option<String>| {
            out.eval();
            out.stat(what, 1);
            let bad = match (&got, &want) {
                (Ok(()), None) => None,
                (Err(e), Some(w)) if e == w => None,
                (Err(e), None) => Some(format!("is rejected: {e}")),
                (Ok(()), Some(w)) => Some(format!("is accepted, expected {w:?}")),
                (Err(e), Some(w)) => Some(format!("gives {e:?}, expected {w:?}")),
            };
            if let Some(bad) = bad {
                out.violation(format!("{label} given to {what} {bad}"));
            }
        };
        out.step(label);
        let st = |r: Res<onenote_parser::section::Section>| if r.is_ok() { Ok(()) } else { Err(err_text(&r)) };
        let not_section = |p: &str| (*kind != 0).then(|| format!("Not a section file: {p}"));
        judge(out, "parse_section_buffer", st(px::section(b, "some name")), not_section("some name"));
        judge(out, "parse_section_buffer with a path", st(px::section(b, &shown)), not_section(&shown));
        judge(out, "parse_section", st(px::section_file(&path)), not_section(&shown));
        let nbk = px::notebook_lim(&path, LIM);
        let got = if nbk.is_ok() { Ok(()) } else { Err(err_text(&nbk)) };
        judge(out, "parse_notebook", got, (*kind != 1).then(|| format!("Not a table of contents file: {shown}")));
    }
    // missing, unreadable, not a file
    let missing = d.0.join("missing").join(name);
    let dir = d.0.join("dir.onetoc2");
    std::fs::create_dir(&dir).unwrap();
    symlink("nowhere", d.0.join("dangling"));
    for (what, p, fault) in [
        ("missing", missing, Fault::None),
        ("missing name", d.0.join("missing.one"), Fault::None),
        ("directory", dir, Fault::None),
        ("dangling link", d.0.join("dangling"), Fault::None),
        ("file below a file", path.join("x.one"), Fault::None),
        ("unreadable file", path.clone(), Fault::OpenFails(0, 13)),
        ("unreadable data", path.clone(), Fault::ReadFails(0)),
        ("empty path", PathBuf::new(), Fault::None),
    ] {
        for how in 0..2 {
            out.eval();
            out.step(what);
            io::begin(fault, 1);
            let e = if how == 0 { err_text(&px::section_file(&p)) } else { err_text(&px::notebook_lim(&p, LIM)) };
            io::end();
            out.stat("unreadable files", 1);
            if !e.starts_with("I/O failure") {
                out.violation(format!("{what} given to {}: expected an I/O failure, got {e:?}", ["parse_section", "parse_notebook"][how]));
            }
        }
    }
    if n < 4 {
        out.sample(|| format!("case {n}: {:?}", files.iter().map(|f| format!("{} {} bytes", f.0, f.1.len())).collect::<Vec<_>>()));
    }
}
fn err_text<T>(r: &Res<T>) -> String {
    match r {
        Res::Ok(_) => "Ok".into(),
        Res::Err(e) => e.clone(),
        Res::Panic(e) => format!("panic {e}"),
    }
}
