//! Processor time and heap budgets (C02, C03).
use crate::bits::*;
use crate::docgen::{rv, utf16};
use crate::graph::*;
use crate::hostile::{self, Case, Scratch};
use crate::mini::*;
use crate::px::{self, Lim, Res};
use crate::rng::Rng;
use crate::run::Out;
use crate::sys;

/// Documents whose size is `n` in one respect only.
pub const FAMILIES: usize = 16;
pub fn family(k: usize, n: usize) -> Case {
    let mut m = Mini::new();
    let mut toc_file = false;
    let (label, store) = match k {
        0 => {
            let mut es = vec![];
            for i in 0..n {
                let t = m.text(&format!("paragraph {i}"));
                es.push(m.element(vec![], vec![t]));
            }
            let o = m.outline(es);
            ("paragraphs", m.page(vec![o], None))
        }
        1 => {
            let pages: Vec<Space> = (0..n)
                .map(|i| {
                    let mut p = Mini::new();
                    let t = p.text("x");
                    let e = p.element(vec![], vec![t]);
                    let o = p.outline(vec![e]);
                    let mut s = p.page(vec![o], None).spaces.remove(1);
                    s.cell.1.v = i as u32 + 1;
                    s
                })
                .collect();
            ("pages", section_of(pages, |c| vec![c.to_vec()]))
        }
        2 => {
            let pages: Vec<Space> = (0..n)
                .map(|i| {
                    let mut s = Mini::new().page(vec![], None).spaces.remove(1);
                    s.cell.1.v = i as u32 + 1;
                    s
                })
                .collect();
            ("page series", section_of(pages, |c| c.iter().map(|c| vec![*c]).collect()))
        }
        3 => {
            let cells: Vec<EG> = (0..n)
                .map(|_| {
                    let e = m.element(vec![], vec![]);
                    m.cell(vec![e])
                })
                .collect();
            let rows: Vec<EG> = cells.chunks(5).map(|c| m.row(c.to_vec())).collect();
            let t = m.table(rows);
            let e = m.element(vec![], vec![t]);
            let o = m.outline(vec![e]);
            ("table cells", m.page(vec![o], None))
        }
        4 => {
            let v: Vec<i64> = (0..n as i64 * 8).map(|i| i % 50 - 25).collect();
            let s = m.stroke(crate::docgen::mb_path(&v), Mini::dims(&[crate::docgen::DIM_X, crate::docgen::DIM_Y]));
            let d = m.add(0x2003B, vec![oids(0x24003416, vec![s])]);
            let i = m.add(0x60014, Mini::ink_props(d));
            ("points of a stroke", m.page(vec![i], None))
        }
        5 => {
            let s: Vec<EG> = (0..n).map(|_| m.plain_stroke()).collect();
            let d = m.add(0x2003B, vec![oids(0x24003416, s)]);
            let i = m.add(0x60014, Mini::ink_props(d));
            ("strokes", m.page(vec![i], None))
        }
        6 => {
            let mut p = m.text_props(&"a".repeat(n));
            let b: Vec<u8> = (1..n as u32).flat_map(|i| i.to_le_bytes()).collect();
            p.push(prop(0x1C001E12, rv(b)));
            let st = m.style;
            p.push(oids(0x24001E13, vec![st; n]));
            let t = m.add(0x6000E, p);
            let e = m.element(vec![], vec![t]);
            let o = m.outline(vec![e]);
            ("text runs", m.page(vec![o], None))
        }
        7 => {
            let c = m.container(0x80039, Some(vec![1; n * 40]));
            let i = m.image(c);
            ("picture bytes", m.page(vec![i], None))
        }
        8 => {
            let t = m.text(&"text ".repeat(n * 4));
            let e = m.element(vec![], vec![t]);
            let o = m.outline(vec![e]);
            ("characters", m.page(vec![o], None))
        }
        9 => {
            let t = m.text("x");
            let mut s = {
                let e = m.element(vec![], vec![t]);
                let o = m.outline(vec![e]);
                m.page(vec![o], None)
            };
            for _ in 0..n {
                s.spaces[1].revs.insert(0, Rev { roots: vec![], groups: vec![] });
            }
            ("revisions", s)
        }
        10 => {
            let t = m.text("x");
            let mut s = {
                let e = m.element(vec![], vec![t]);
                let o = m.outline(vec![e]);
                m.page(vec![o], None)
            };
            let objs = s.spaces[1].revs[0].groups[0].clone();
            for i in 0..n {
                let mut o = objs[i % objs.len()].clone();
                o.id = EG { g: *b"extra objects...", v: i as u32 + 1 };
                s.spaces[1].revs[0].groups.push(vec![o]);
            }
            ("object groups", s)
        }
        11 => {
            toc_file = true;
            let mut v = vec![toc_node(1, (0..n as u32).map(|i| i + 2).collect())];
            for i in 0..n {
                v.push(toc_leaf(i as u32 + 2, (n - i) as u32, &format!("s{i}.one")));
            }
            ("table of contents entries", toc_of(v))
        }
        12 => {
            let mut p = m.element_props(vec![], vec![], vec![]);
            for i in 0..n {
                p.push(prop(0x5000 + i as u32, PV::Oids(vec![m.author; 3])));
            }
            let e = m.add(0x6000D, p);
            let o = m.outline(vec![e]);
            ("unknown properties with references", m.page(vec![o], None))
        }
        13 => {
            let mut p = m.element_props(vec![], vec![], vec![]);
            let sets: Vec<Vec<Prop>> = (0..n).map(|i| vec![prop(0x5000, PV::Oid(m.author)), u32p(0x5001, i as u32)]).collect();
            p.push(prop(0x5100, PV::Sets(0x5200, sets)));
            let e = m.add(0x6000D, p);
            let o = m.outline(vec![e]);
            ("nested property sets side by side", m.page(vec![o], None))
        }
        14 => {
            let l: Vec<EG> = (0..n)
                .map(|_| m.add(0x60012, vec![u32p(0x14001D7A, 1), prop(0x1C001C1A, rv(utf16("\u{2}ab")))]))
                .collect();
            let p = m.element_props(vec![], vec![], l);
            let e = m.add(0x6000D, p);
            let o = m.outline(vec![e]);
            ("lists", m.page(vec![o], None))
        }
        _ => {
            // tags
            let d = m.add(0x120043, vec![prop(0x1C003468, rv(utf16("l"))), prop(0x14003467, PV::U32(0)), prop(0x10003464, PV::U16(1)), prop(0x1400346A, PV::U32(0)), prop(0x1400346B, PV::U32(0)), prop(0x10003463, PV::U16(0))]);
            let mut p = m.text_props("x");
            let sets: Vec<Vec<Prop>> = (0..n)
                .map(|_| vec![prop(0x20003488, PV::Oid(d)), prop(0x1400346E, PV::U32(1)), prop(0x10003470, PV::U16(0))])
                .collect();
            p.push(prop(0x40003489, PV::Sets(0x44000811, sets)));
            let t = m.add(0x6000E, p);
            let e = m.element(vec![], vec![t]);
            let o = m.outline(vec![e]);
            ("note tags", m.page(vec![o], None))
        }
    };
    Case { label: format!("{label} x {n}"), toc: toc_file, bytes: bytes(&store) }
}
pub const FAMILY_SIZES: &[usize] = &[100, 1000, 4000];

const FIXED: u64 = (FAMILIES * 3) as u64;

fn draw(n: u64, r: &mut Rng) -> Case {
    let c = hostile::catalogue_len();
    if n < FIXED {
        family(n as usize % FAMILIES, FAMILY_SIZES[n as usize / FAMILIES])
    } else if n < FIXED + c {
        hostile::case(n - FIXED, r)
    } else if r.one_in(6) {
        // a damaged large document
        let k = r.below(FAMILIES);
        let n = r.range(10, 1500);
        let mut c = family(k, n);
        let l = hostile::mutate_bytes(&mut c.bytes, r, &[]);
        c.label = format!("{}, {l}", c.label);
        c
    } else {
        let mut c = hostile::case(n, r);
        if c.bytes.len() > 256 << 10 {
            c.bytes.truncate(256 << 10);
            c.label.push_str(", truncated");
        }
        c
    }
}

/// A notebook directory for the notebook entry point.
fn as_notebook(c: &Case) -> (Scratch, std::path::PathBuf) {
    let d = Scratch::new("b");
    let p = d.0.join("x.onetoc2");
    std::fs::write(&p, &c.bytes).unwrap();
    (d, p)
}

/// Processor seconds granted for an input of this many bytes.
pub fn allowance(len: usize) -> f64 {
    1.0 + len as f64 * 20e-6
}

pub fn c02(out: &mut Out, n: u64) {
    let mut r = out.rng();
    if n % 400 == 399 || n < 8 {
        trees(out, n, &mut r);
    }
    let reps = if n < FIXED + hostile::catalogue_len() { 1 } else { 6 };
    for _ in 0..reps {
        let c = draw(n, &mut r);
        out.eval();
        out.nontrivial_bytes(&c.bytes);
        let a = allowance(c.bytes.len());
        out.step(&format!("{} ({} bytes, allowance {a:.1} s)", c.label, c.bytes.len()));
        let lim = Lim { cpu: a, heap: 12 << 30 };
        let dir = c.toc.then(|| as_notebook(&c));
        let t0 = sys::cpu_now();
        match &dir {
            Some((_, p)) => drop(px::notebook_lim(p, lim)),
            None => drop(px::section_lim(&c.bytes, "x.one", lim)),
        }
        let t = sys::cpu_now() - t0;
        out.stat("processor time, ms", (t * 1e3) as u64);
        out.stat("bytes parsed", c.bytes.len() as u64);
        out.stat_max("processor time of one parse, ms", (t * 1e3) as u64);
        out.stat_max("share of the allowance used, percent", (t / a * 100.0) as u64);
        out.stat_max("ns per byte of inputs over 2 KB", if c.bytes.len() > 2000 { (t * 1e9) as u64 / c.bytes.len() as u64 } else { 0 });
        if std::env::var_os("VH_TRACE").is_some() && t > 0.05 {
            eprintln!("{:.2}s {} bytes {}", t, c.bytes.len(), c.label);
        }
        if t > a {
            out.input = c.bytes.clone();
            out.violation(format!("{}: {t:.1} s of processor time for {} bytes, {a:.1} s allowed", c.label, c.bytes.len()));
        }
        if n % 211 == 0 {
            out.sample(|| format!("case {n}: {} ({} bytes): {:.1} ms of {:.0} ms", c.label, c.bytes.len(), t * 1e3, a * 1e3));
        }
    }
}

/// Notebook directories: the number of files opened stays in proportion to the entries on disk.
fn trees(out: &mut Out, n: u64, r: &mut Rng) {
    let sec = bytes(&plain_section());
    for repeat in [false, true] {
        let depth = if repeat { 9 } else { r.range(6, 30) };
        let d = Scratch::new("t");
        let mut files = 0;
        let mut dir = d.0.clone();
        for k in 0..depth {
            std::fs::write(dir.join("a.one"), &sec).unwrap();
            let names: Vec<&str> = match (repeat, k + 1 == depth) {
                (_, true) => vec!["a.one"],
                (true, _) => vec!["A", "a.one", "A"],
                // adjacent repetitions are one entry
                (false, _) => match r.below(3) {
                    0 => vec!["A", "A", "A", "a.one"],
                    1 => vec!["a.one", "A"],
                    _ => vec!["A", "missing.one"],
                },
            };
            std::fs::write(dir.join("x.onetoc2"), bytes(&toc(&names))).unwrap();
            files += 2;
            dir = dir.join("A");
            if k + 1 < depth {
                std::fs::create_dir(&dir).unwrap();
            }
        }
        let label = if repeat { "[KF1] section groups listed twice, nested" } else { "section groups nested" };
        out.eval();
        out.step(&format!("{label} {depth} deep"));
        out.nontrivial(n * 100 + depth as u64 * 2 + repeat as u64);
        crate::io::begin(crate::io::Fault::None, 1);
        let res = px::notebook_lim(&d.0.join("x.onetoc2"), Lim { cpu: 20.0, heap: 8 << 30 });
        let tr = crate::io::end();
        let opens = tr.targets().len();
        out.stat("files opened by notebook trees", opens as u64);
        if !matches!(res, Res::Ok(_)) && !repeat {
            out.violation(format!("{label} {depth} deep: {}", res.what()));
        }
        // every file and every directory twice
        if opens > 6 * files + 10 {
            out.violation(format!("{label} {depth} deep: {files} files on disk, {opens} files and directories opened"));
        }
    }
}

/// Heap granted for an input of this many bytes.
pub const PER_BYTE: usize = 512;
pub const BASE: usize = 1 << 20;

fn shared(k: usize, n: usize) -> Case {
    let mut m = Mini::new();
    let s = match k {
        0 => {
            let c = m.container(0x80039, Some(vec![1; n * 100]));
            let v = (0..n).map(|_| m.image(c)).collect();
            m.page(v, None)
        }
        1 => {
            let t = m.text(&"x".repeat(n * 50));
            let es: Vec<EG> = (0..n).map(|_| m.element(vec![], vec![t])).collect();
            let o = m.outline(es);
            m.page(vec![o], None)
        }
        _ => {
            let t = m.text(&"x".repeat(n * 50));
            let e = m.element(vec![], vec![t]);
            let o = m.outline(vec![e]);
            let p = m.page(vec![o], None).spaces.remove(1);
            section_of(vec![p], |c| vec![vec![c[0]; n]])
        }
    };
    Case { label: format!("[KF2] {} shared {n} times", ["picture", "text", "page"][k.min(2)]), toc: false, bytes: bytes(&s) }
}

pub fn c03(out: &mut Out, n: u64) {
    let mut r = out.rng();
    let reps = if n < FIXED + hostile::catalogue_len() { 1 } else { 6 };
    let mut cases: Vec<Case> = (0..reps).map(|_| draw(n, &mut r)).collect();
    if n < 3 {
        cases.push(shared(n as usize, 4000));
    }
    for c in cases {
        out.eval();
        out.nontrivial_bytes(&c.bytes);
        let len = c.bytes.len();
        let bound = BASE + PER_BYTE * len;
        out.step(&format!("{} ({len} bytes, {bound} bytes of heap granted)", c.label));
        // a grossly larger request ends the process before the machine suffers
        let lim = Lim { cpu: 60.0, heap: if c.label.contains("KF2") { 8 << 30 } else { bound.saturating_mul(4).max(256 << 20) } };
        let dir = c.toc.then(|| as_notebook(&c));
        let before = sys::heap_reset();
        match &dir {
            Some((_, p)) => drop(px::notebook_lim(p, lim)),
            None => drop(px::section_lim(&c.bytes, "x.one", lim)),
        }
        let peak = sys::heap_peak().saturating_sub(before);
        let big = sys::heap_biggest();
        out.stat("bytes parsed", len as u64);
        out.stat("allocations", sys::heap_allocs());
        out.stat_max("peak heap, KiB", (peak >> 10) as u64);
        if !c.label.contains("KF2") {
            out.stat_max("share of the heap grant used, percent", (peak * 100 / bound) as u64);
            out.stat_max("largest single allocation as percent of its input (inputs over 2 KB)", if len > 2000 { (big * 100 / len) as u64 } else { 0 });
            out.stat_max("peak heap per input byte beyond 64 KiB", (peak.saturating_sub(64 << 10) / (len + 1)) as u64);
            if std::env::var_os("VH_TRACE").is_some() && peak > (100 << 10) + 60 * len {
                eprintln!("{} KiB, {len} bytes, x{} {}", peak >> 10, peak / (len + 1), c.label);
            }
        }
        if peak > bound {
            out.input = c.bytes.clone();
            out.violation(format!("{}: {peak} bytes of heap for {len} bytes of input, {bound} granted", c.label));
        }
        if n % 211 == 0 {
            out.sample(|| format!("case {n}: {} ({len} bytes): peak {peak} bytes in {} allocations", c.label, sys::heap_allocs()));
        }
    }
}
