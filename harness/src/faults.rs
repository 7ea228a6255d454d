//! Truncation and structural faults (C06, C07). The ill-typed-data faults of C32 are in typed.rs.
use crate::bits::*;
use crate::docgen::{Cx, Profile, layer};
use crate::graph::*;
use crate::hostile::{self, Scratch};
use crate::px::{self, Res};
use crate::rng::Rng;
use crate::run::Out;
use std::path::Path;

pub const EOF: &str = "Unexpected end of file";

fn opts(r: &mut Rng) -> Opts {
    match r.below(4) {
        0 => Opts { packaging: None, ..Opts::canonical() },
        1 => Opts::mild(),
        _ => Opts::wild(),
    }
}

/// A well-formed file: a section, or a table of contents whose entries do not exist on disk.
fn draw(r: &mut Rng, toc: bool, rich: bool) -> Store {
    if toc {
        return hostile::rich_toc(r);
    }
    if rich {
        return hostile::rich_doc(r);
    }
    let mut p = Profile { budget: 3, page_items: (0, 2), runs: 2, strokes: 1, table: (1, 2), ..Profile::small() };
    p.present = *r.pick(&[20, 50, 80]);
    Cx::new(r.fork(), p).section("s", "x.one")
}

enum Doc {
    Section,
    Toc(Scratch),
}
impl Doc {
    fn new(toc: bool, tag: &str) -> Doc {
        if toc { Doc::Toc(Scratch::new(tag)) } else { Doc::Section }
    }
    /// Parses the bytes: Ok carries a digest of the result.
    fn parse(&self, b: &[u8], disk: bool) -> Res<String> {
        match self {
            Doc::Section if !disk => match px::section(b, "x.one") {
                Res::Ok(s) => Res::Ok(format!("{s:?}")),
                Res::Err(e) => Res::Err(e),
                Res::Panic(e) => Res::Panic(e),
            },
            Doc::Section => {
                let d = Scratch::new("fs");
                let p = d.0.join("x.one");
                std::fs::write(&p, b).unwrap();
                match px::section_file(&p) {
                    Res::Ok(s) => Res::Ok(format!("{s:?}")),
                    Res::Err(e) => Res::Err(e),
                    Res::Panic(e) => Res::Panic(e),
                }
            }
            Doc::Toc(d) => {
                let p = d.0.join("Open Notebook.onetoc2");
                std::fs::write(&p, b).unwrap();
                match px::notebook(&p) {
                    Res::Ok(s) => Res::Ok(format!("{s:?}")),
                    Res::Err(e) => Res::Err(e),
                    Res::Panic(e) => Res::Panic(e),
                }
            }
        }
    }
    fn name(&self) -> &'static str {
        match self {
            Doc::Section => "section",
            Doc::Toc(_) => "table of contents",
        }
    }
}

fn end_of(marks: &[Mark]) -> usize {
    marks.iter().filter(|m| m.kind == Mk::End16).map(|m| m.off + m.len).max().unwrap()
}

// --- C06 -----------------------------------------------------------------------------------

pub fn c06(out: &mut Out, n: u64) {
    let mut r = out.rng();
    let samples = hostile::samples();
    let (bytes, end, marks, toc, label) = if n < samples.len() as u64 * 2 {
        let (name, b) = &samples[n as usize % samples.len()];
        let pat = [0x55u8, 0xeb, 0x01];
        let Some(at) = b.windows(3).rposition(|w| w == pat) else {
            return;
        };
        (b.clone(), at + 3, vec![], name.ends_with("onetoc2"), name.clone())
    } else {
        let toc = n % 4 == 3;
        let s = draw(&mut r, toc, n % 3 == 0);
        let o = opts(&mut r);
        let e = encode(&s, &o, &mut r);
        let end = end_of(&e.marks);
        (e.bytes, end, e.marks, toc, "generated".to_string())
    };
    let doc = Doc::new(toc, "c06");
    out.step(&format!("{label} whole"));
    let whole = match doc.parse(&bytes[..end], false) {
        Res::Ok(s) => s,
        r => {
            if label == "generated" {
                // well-formed files are C13's business
                out.stat("well-formed files that were rejected", 1);
            } else {
                out.stat("samples that were rejected", 1);
            }
            let _ = r;
            return;
        }
    };
    out.stat(if toc { "tables of contents" } else { "sections" }, 1);
    out.nontrivial_bytes(&bytes);
    // where to cut
    let budget = if out.thorough() { 6000 } else { 1500 };
    let budget = if toc { budget / 4 } else { budget };
    let mut cuts: Vec<usize> = vec![];
    if end <= budget {
        cuts.extend(0..end);
        out.stat("files cut at every position", 1);
    } else {
        // around tokens, and anywhere
        let mut b: Vec<usize> = marks.iter().flat_map(|m| [m.off, m.off + 1, (m.off + m.len).saturating_sub(1), m.off + m.len]).collect();
        b.sort();
        b.dedup();
        b.retain(|c| *c < end);
        while b.len() > budget * 2 / 3 {
            let k = r.below(b.len());
            b.swap_remove(k);
        }
        cuts.extend(b);
        while cuts.len() < budget {
            cuts.push(r.below(end));
        }
        cuts.extend(end.saturating_sub(40)..end);
        cuts.extend(0..100.min(end));
    }
    let big = bytes.len() > 200_000;
    if big {
        cuts.truncate(120);
        cuts.extend(end - 20..end);
    }
    cuts.sort();
    cuts.dedup();
    for c in cuts {
        let disk = !toc && r.one_in(40);
        out.eval();
        out.step(&format!("{label} cut at {c} of {end}"));
        let res = doc.parse(&bytes[..c], disk);
        out.stat(if disk || toc { "cuts read from disk" } else { "cuts read from memory" }, 1);
        match res {
            Res::Err(e) if e.starts_with(EOF) => {}
            res => {
                out.input = bytes[..c].to_vec();
                out.violation(format!("a {} of {end} bytes ({label}) cut to {c} bytes gives {}, expected the error {EOF:?}", doc.name(), short(&res)));
                return;
            }
        }
    }
    // what follows the end does not matter
    if bytes.len() > end {
        for _ in 0..4 {
            let c = r.range(end, bytes.len());
            out.eval();
            match doc.parse(&bytes[..c], false) {
                Res::Ok(s) if s == whole => {}
                res => {
                    out.input = bytes[..c].to_vec();
                    out.violation(format!("a {} complete at {end} bytes and cut to {c} bytes gives {}", doc.name(), short(&res)));
                }
            }
        }
        out.stat("cuts after the end", 4);
    }
    out.sample(|| format!("{label}: {} of {end} bytes, every cut rejected with {EOF:?}", doc.name()));
}

fn short(r: &Res<String>) -> String {
    match r {
        Res::Ok(s) => format!("Ok({} bytes of debug output)", s.len()),
        r => r.what(),
    }
}

// --- C07 -----------------------------------------------------------------------------------

const TYPES: &[u16] =
    &[0x0b, 0x01, 0x6a, 0x15, 0x02, 0x1c, 0x1e, 0x05, 0x03, 0x16, 0x1d, 0x78, 0x79, 0x18, 0x7a, 0x1a, 0x19, 0x0a, 0x0e, 0x11, 0x0d, 0x0c, 0x07];
/// Kinds of stream objects that may stand for one another in some place.
const GROUPS: &[&[u16]] = &[&[0x18, 0x05], &[0x16, 0x1c, 0x03], &[0x0a, 0x19], &[0x11, 0x0e, 0x0d], &[0x1e, 0x79]];

fn alike(a: u16, b: u16) -> bool {
    a == b || GROUPS.iter().any(|g| g.contains(&a) && g.contains(&b))
}

/// Another type for a header of type `ty`, `bits` wide.
fn other_type(ty: u16, bits: u32, r: &mut Rng) -> u16 {
    let max = 1usize << bits;
    loop {
        let t = if r.flip() { *r.pick(TYPES) } else { r.below(max.min(300)) as u16 };
        if (t as usize) < max && !alike(t, ty) {
            return t;
        }
    }
}

/// One structural fault at a token: the damaged bytes and what was done.
fn token_fault(e: &Encoded, k: usize, o: &Opts, r: &mut Rng) -> Option<(String, Vec<u8>)> {
    let m = e.marks[k];
    let mut b = e.bytes.clone();
    let at = m.off;
    let inside = |ty: u8| e.elems.iter().any(|x| x.ty == ty && x.off <= at && at < x.off + x.len);
    let label;
    match m.kind {
        Mk::Hdr { strict16, strict32 } => {
            let wide = b[at] & 3 == 2;
            match r.below(5) {
                0 | 1 => {
                    // another type
                    let t;
                    if wide {
                        let v = u32::from_le_bytes(b[at..at + 4].try_into().unwrap());
                        let ty = ((v >> 3) & 0x3fff) as u16;
                        t = other_type(ty, 14, r);
                        let v = (v & !(0x3fff << 3)) | (t as u32) << 3;
                        b[at..at + 4].copy_from_slice(&v.to_le_bytes());
                    } else {
                        let v = u16::from_le_bytes(b[at..at + 2].try_into().unwrap());
                        let ty = (v >> 3) & 0x3f;
                        t = other_type(ty, 6, r);
                        let v = (v & !(0x3f << 3)) | t << 3;
                        b[at..at + 2].copy_from_slice(&v.to_le_bytes());
                    }
                    label = format!("header type changed to {t:#x}");
                }
                2 => {
                    // an end marker of the same type bits in place of a start: reserved as a header,
                    // unless it closes what is open here
                    b[at] = (b[at] & !3) | if r.flip() { 1 } else { 3 };
                    let closes = [1u8, 0x15, 0x1d, 0x1e].contains(&(b[at] >> 2)) || b[at] & 3 == 3;
                    if closes && b[at] & 3 == 1 {
                        return None;
                    }
                    if b[at] & 3 == 3 && u16::from_le_bytes(b[at..at + 2].try_into().unwrap()) >> 2 == 0x79 {
                        return None;
                    }
                    label = "start header turned into an end header".into();
                }
                3 if strict16 || strict32 => {
                    // the other width
                    let (ty, compound, len): (u16, bool, u64);
                    if wide {
                        let v = u32::from_le_bytes(b[at..at + 4].try_into().unwrap());
                        (ty, compound, len) = (((v >> 3) & 0x3fff) as u16, v & 4 != 0, (v >> 17) as u64);
                        if ty > 0x3f {
                            // no such 16 bit header: the narrow form of its low bits
                            let v = (((ty & 0x3f) as u16) << 3) | ((compound as u16) << 2);
                            b.splice(at..at + m.len, v.to_le_bytes());
                            label = "32 bit header narrowed".into();
                            let _ = len;
                            return Some((label, b));
                        }
                    } else {
                        let v = u16::from_le_bytes(b[at..at + 2].try_into().unwrap());
                        (ty, compound, len) = ((v >> 3) & 0x3f, v & 4 != 0, (v >> 9) as u64);
                    }
                    let v = 2 | ((compound as u32) << 2) | ((ty as u32) << 3) | ((len as u32) << 17);
                    b.splice(at..at + m.len, v.to_le_bytes());
                    label = "16 bit header widened where only 16 bits are allowed".into();
                    if !strict16 {
                        return None;
                    }
                }
                _ => {
                    // missing altogether
                    let ty = header_type(&b[at..]);
                    b.drain(at..at + m.len);
                    // what follows may look like such a header itself
                    if alike(header_type(&b[at..]), ty) {
                        return None;
                    }
                    label = "header removed".into();
                }
            }
        }
        Mk::End8 => match r.below(3) {
            0 => {
                let ty = b[at] >> 2;
                let t = other_type(ty as u16, 6, r) as u8;
                b[at] = t << 2 | 1;
                // the end of an inner level is no end here, and no start header either
                label = format!("end marker of {ty:#x} turned into one of {t:#x}");
            }
            1 => {
                b[at] |= 3;
                label = "end marker with the bits of a 16 bit one".into();
            }
            _ => {
                b.drain(at..at + 1);
                label = "end marker removed".into();
            }
        },
        Mk::End16 => match r.below(3) {
            0 => {
                let v = u16::from_le_bytes(b[at..at + 2].try_into().unwrap());
                let t = other_type(v >> 2, 14, r);
                b[at..at + 2].copy_from_slice(&(t << 2 | 3).to_le_bytes());
                label = format!("16 bit end marker turned into one of {t:#x}");
            }
            1 => {
                b[at] &= !2;
                label = "16 bit end marker with the bits of an 8 bit one".into();
            }
            _ => {
                b.drain(at..at + 2);
                // whatever follows must not happen to be the marker
                if b.len() >= at + 2 && b[at..at + 2] == e.bytes[at..at + 2] {
                    return None;
                }
                label = "16 bit end marker removed".into();
            }
        },
        Mk::ExGuidTag => {
            // first byte: 0 = null, ..100 = 5 bit, .100000 = 10 bit, 1000000 = 17 bit, 128 = 32 bit
            let bad = [0x01u8, 0x02, 0x03, 0x10, 0x05, 0x08, 0x18, 0x07, 0x90, 0xff, 0x30, 0x41];
            b[at] = *r.pick(&bad);
            label = format!("id tag {:#x}", b[at]);
        }
        Mk::Pad => {
            let i = at + r.below(m.len);
            b[i] = 1 << r.below(8);
            label = "padding not zero".into();
        }
        Mk::FormatGuid => {
            let i = at + r.below(16);
            b[i] ^= 1 << r.below(8);
            label = "format identifier".into();
        }
        Mk::Version => {
            let v: u32 = *r.pick(&[0, 1, 0x1a, 0x1c, 0x29, 0x2b, 0x2a00, 0x012a, 0xffff_ffff, 0x8000_002a]);
            b[at..at + 4].copy_from_slice(&v.to_le_bytes());
            label = format!("writer version {v:#x}");
        }
        Mk::LogRef => {
            // an end beyond the file, before the reference itself, or overflowing
            match r.below(3) {
                0 => {
                    let v = b.len() as u64 + r.below(1000) as u64;
                    b[at..at + 8].copy_from_slice(&v.to_le_bytes());
                    label = "transaction log beyond the file".into();
                }
                1 => {
                    let v = u64::MAX - r.below(3) as u64;
                    b[at..at + 8].copy_from_slice(&v.to_le_bytes());
                    b[at + 8..at + 12].copy_from_slice(&(10 + r.below(1000) as u32).to_le_bytes());
                    label = "transaction log position overflows".into();
                }
                _ => {
                    b[at..at + 8].copy_from_slice(&(r.below(at) as u64).to_le_bytes());
                    b[at + 8..at + 12].copy_from_slice(&[0; 4]);
                    label = "transaction log before the header's end".into();
                }
            }
        }
        Mk::ElemType => {
            let v = *r.pick(&[0u64, 7, 8, 9, 11, 12, 0x0d, 63, 105, 106, 107, 261, 266, 1 << 20, 1 << 40, (1 << 32) + 5]);
            let mut w = W::new(o.wild, r.fork());
            w.cu64(v, m.kind);
            b.splice(at..at + m.len, w.out);
            label = format!("element type {v}");
        }
        Mk::Freq => {
            let v = *r.pick(&[5u64, 6, 7, 100, 256, 257, 260, 1 << 32, (1 << 32) + 1]);
            let mut w = W::new(o.wild, r.fork());
            w.cu64(v, m.kind);
            b.splice(at..at + m.len, w.out);
            label = format!("change frequency {v}");
        }
        Mk::Count | Mk::Len => {
            let blob = m.kind == Mk::Len && inside(10);
            let v = if blob && r.flip() {
                let old = value_of(&b[at..at + m.len]);
                if old == 0 || r.flip() { old + 1 } else { old - 1 }
            } else {
                *r.pick(&[b.len() as u64, b.len() as u64 + 1, 1 << 20, 1 << 31, 1 << 32, 1 << 40, 1 << 63, u64::MAX, u64::MAX - 1])
            };
            let mut w = W::new(o.wild, r.fork());
            w.cu64(v, m.kind);
            b.splice(at..at + m.len, w.out);
            label = format!("{} {v}", if m.kind == Mk::Len { "length" } else { "count" });
        }
        Mk::Element(ty) => {
            let info = e.elems.iter().find(|x| x.off == m.off).unwrap();
            match r.below(4) {
                0 | 1 if info.needed => {
                    b.drain(at..at + m.len);
                    // without an index the package may hold another one
                    if matches!(ty, 1 | 2) && e.elems.iter().any(|x| x.ty == ty && x.off != m.off) {
                        return None;
                    }
                    label = format!("element of type {ty} removed");
                }
                2 => {
                    let x = r.bytes(1)[0];
                    // a stray byte that begins neither an element nor the end of the package
                    let x = if x == 0x0c || x == 0x55 { 0xff } else { x };
                    if x & 3 == 0 {
                        // would be taken for the low half of a header; its type must be another one
                        let ty = ((x as u16 | (b[at] as u16) << 8) >> 3) & 0x3f;
                        if ty == 1 {
                            return None;
                        }
                    }
                    b.insert(at, x);
                    label = format!("stray byte {x:#x} between elements");
                }
                _ => {
                    let t = other_type(1, 6, r);
                    let mut w = W::new(0, r.fork());
                    w.h16(t, true, 0);
                    b.splice(at..at, w.out);
                    label = format!("stray header of type {t:#x} between elements");
                }
            }
        }
        Mk::Child(ty) => {
            // the header cell's group is read by its first data entry only
            let header = e.elems.iter().filter(|x| x.ty == 5 && x.needed).map(|x| x.off).collect::<Vec<_>>();
            let _ = header;
            match ty {
                0x18 | 0x16 => {
                    let el = e.elems.iter().find(|x| x.ty == 5 && x.off <= at && at < x.off + x.len)?;
                    if !el.needed {
                        return None;
                    }
                    let kids: Vec<&Mark> = e.marks.iter().filter(|k| k.kind == m.kind && el.off <= k.off && k.off < el.off + el.len).collect();
                    // the header's group holds one object only: leave small groups alone
                    if kids.len() <= 2 {
                        return None;
                    }
                    b.drain(at..at + m.len);
                    label = format!("{} removed from an object group", if ty == 0x18 { "declaration" } else { "data entry" });
                }
                0x0e | 0x0d => {
                    if o.noise || o.vary_lookup {
                        return None;
                    }
                    if !e.elems.iter().any(|x| x.needed && x.ty == 1 && x.off <= at && at < x.off + x.len) {
                        return None;
                    }
                    b.drain(at..at + m.len);
                    label = format!("index entry of type {ty:#x} removed");
                }
                _ => return None,
            }
        }
        _ => return None,
    }
    if b == e.bytes {
        return None;
    }
    Some((label, b))
}

/// Type of the start header these bytes could be, 0 if none.
fn header_type(b: &[u8]) -> u16 {
    match b {
        [a, c, ..] if a & 3 == 0 => (u16::from_le_bytes([*a, *c]) >> 3) & 0x3f,
        [a, c, d, e, ..] if a & 3 == 2 => ((u32::from_le_bytes([*a, *c, *d, *e]) >> 3) & 0x3fff) as u16,
        _ => 0,
    }
}

/// Value of a compact integer.
fn value_of(b: &[u8]) -> u64 {
    if b[0] == 0 {
        return 0;
    }
    if b[0] == 128 {
        return u64::from_le_bytes(b[1..9].try_into().unwrap());
    }
    let n = b[0].trailing_zeros() + 1;
    let mut x = [0u8; 8];
    x[..b.len()].copy_from_slice(b);
    u64::from_le_bytes(x) >> n
}

/// A fault of the object graph or its encoding.
fn graph_fault(s: &Store, o: &Opts, layered: bool, r: &mut Rng) -> Option<(String, Vec<u8>)> {
    let mut s = s.clone();
    let mut o = o.clone();
    let n = object_count(&s);
    let k = r.below(n.max(1));
    let mut d = Damage::default();
    let label: String;
    match if layered { *r.pick(&[0, 1, 8, 9, 13, 20, 21]) } else { r.below(22) } {
        0 => {
            let v = 1 + r.below(2) as u32;
            d.drop_root = Some(v);
            label = format!("storage manifest root {v} missing");
        }
        1 => {
            d.bad_role = true;
            label = "unknown root role".into();
        }
        2 => {
            d.short_jcid = Some(0);
            label = "object type id cut short".into();
        }
        3 => {
            d.drop_decl = Some(0);
            label = "last declaration of every group missing".into();
        }
        4 => {
            d.drop_data = Some(0);
            label = "last data entry of every group missing".into();
        }
        5 => {
            d.fewer_oids = Some(k);
            label = "more object references than reference slots".into();
        }
        6 => {
            d.extra_cells = Some(k);
            label = "more cell references than reference slots".into();
        }
        7 => {
            let with: Vec<usize> = s.objs().enumerate().filter(|(_, x)| has_cells(&x.props)).map(|(i, _)| i).collect();
            if with.is_empty() {
                return None;
            }
            d.missing_cells = Some(*r.pick(&with));
            label = "fewer cell references than reference slots".into();
        }
        8 => {
            d.bad_base = true;
            label = "base revision does not exist".into();
        }
        9 => {
            d.cyclic_base = true;
            label = "cyclic base revisions".into();
        }
        10 | 11 => {
            let p = *r.pick(&[1u8, 4]);
            d.drop_partition = Some((k, p));
            label = format!("partition {p} of an object missing");
        }
        12 => {
            if !s.objs().any(|x| x.blob.is_some()) {
                return None;
            }
            d.blob_id_missing = true;
            label = "payload missing".into();
        }
        13 => {
            d.header_drop_prop = Some(*r.pick(&[0x1C001D94u32, 0x1C001D95, 0x14001D93]));
            label = format!("header property {:#x} missing", d.header_drop_prop.unwrap());
        }
        14..=16 => {
            // an illegal property type, anywhere in any object
            let t = *r.pick(&[0u8, 14, 15, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31]);
            let id = if r.flip() { 0x4000 + r.below(0x1000) as u32 } else { 0x1c22 };
            let ob = s.objs_mut().nth(k)?;
            let len = r.below(20);
            let pv = prop(id, PV::Raw(t, r.bytes(len)));
            if r.one_in(3) {
                let depth = r.range(1, 5);
                let mut v = vec![pv];
                for _ in 0..depth {
                    v = vec![prop(0x5001, if r.flip() { PV::Set(v) } else { PV::Sets(0x1400_0001, vec![v]) })];
                }
                ob.props.extend(v);
            } else {
                let at = r.below(ob.props.len() + 1);
                ob.props.insert(at, pv);
            }
            label = format!("illegal property type {t}");
        }
        17 => {
            // the roots that content needs
            let si = r.below(s.spaces.len());
            if si > 0 && !used_space(&s, si) {
                return None;
            }
            let rev = s.spaces[si].revs.first_mut()?;
            rev.roots.retain(|x| x.0 != 1);
            label = "content root missing".into();
        }
        18 => {
            // a second data entry of one object for the same partition: declared twice
            let ob = s.objs().nth(k)?.clone();
            let _ = ob;
            // property stream cut short by a declared string that is not there
            let ob = s.objs_mut().nth(k)?;
            ob.props.insert(0, prop(0x4123, PV::Raw(7, (0x7fff_0000u32).to_le_bytes().to_vec())));
            o.shuffle_props = false;
            label = "property longer than its object".into();
        }
        19 => {
            let ob = s.objs_mut().nth(k)?;
            ob.props.insert(0, prop(0x4123, PV::Raw(16, [(100_000u32).to_le_bytes(), 0u32.to_le_bytes()].concat())));
            label = "more property sets than the object holds".into();
        }
        20 => {
            // a group the content lives in is not there
            let e = encode(&s, &o, r);
            let g: Vec<&ElemInfo> = e.elems.iter().filter(|x| x.needed && !(layered && x.ty == 10)).collect();
            let x = g[r.below(g.len())];
            if matches!(x.ty, 1 | 2) && e.elems.iter().filter(|y| y.ty == x.ty).count() > 1 {
                return None;
            }
            let mut b = e.bytes.clone();
            b.drain(x.off..x.off + x.len);
            return Some((format!("element of type {} missing", x.ty), b));
        }
        _ => {
            // an object space that pages live in
            if s.spaces.len() < 2 {
                return None;
            }
            let si = 1 + r.below(s.spaces.len() - 1);
            if !used_space(&s, si) {
                return None;
            }
            s.spaces.remove(si);
            label = "object space of a page missing".into();
        }
    }
    let e = encode_damaged(&s, &o, r, &d);
    Some((label, e.bytes))
}

fn has_cells(p: &[Prop]) -> bool {
    p.iter().any(|p| match &p.v {
        PV::Osid(_) | PV::Ctx(_) => true,
        PV::Osids(v) => !v.is_empty(),
        PV::Ctxs(v) => !v.is_empty(),
        PV::Set(s) => has_cells(s),
        PV::Sets(_, v) => v.iter().any(|s| has_cells(s)),
        _ => false,
    })
}

/// Does a page series refer to this space?
pub fn used_space(s: &Store, si: usize) -> bool {
    let cell = s.spaces[si].cell;
    s.spaces[0].objs().any(|o| o.jcid == 0x60008 && o.props.iter().any(|p| p.id == 0x2C001D63 & 0x3ffffff && matches!(&p.v, PV::Osids(v) if v.contains(&cell))))
}

pub fn c07(out: &mut Out, n: u64) {
    let mut r = out.rng();
    let toc = n % 4 == 3;
    let mut s = draw(&mut r, toc, n % 3 == 0);
    let o = opts(&mut r);
    // spread over several revisions: what newer revisions replace need not be looked at
    let layered = n % 5 == 4;
    if layered {
        layer(&mut s, &mut r, 4);
        out.stat("files with several revisions", 1);
    }
    let e = encode(&s, &o, &mut r);
    let doc = Doc::new(toc, "c07");
    out.step("whole");
    if !doc.parse(&e.bytes, false).is_ok() {
        out.stat("well-formed files that were rejected", 1);
        return;
    }
    out.stat(if toc { "tables of contents" } else { "sections" }, 1);
    let mut faults: Vec<(String, Vec<u8>)> = vec![];
    // one fault at each of many tokens, rare kinds first
    let mut by_kind: std::collections::BTreeMap<String, Vec<usize>> = Default::default();
    for (i, m) in e.marks.iter().enumerate() {
        let k = match m.kind {
            Mk::Hdr { .. } => format!("Hdr {}", e.bytes[m.off]),
            k => format!("{k:?}"),
        };
        by_kind.entry(k).or_default().push(i);
    }
    let per = if out.thorough() { 6 } else { 3 };
    for v in by_kind.values() {
        for _ in 0..per {
            let k = *r.pick(v);
            if layered && matches!(e.marks[k].kind, Mk::Child(0x18 | 0x16) | Mk::Element(10)) {
                continue;
            }
            if let Some((l, b)) = token_fault(&e, k, &o, &mut r) {
                faults.push((format!("{:?} at {}: {l}", e.marks[k].kind, e.marks[k].off), b));
            }
        }
    }
    for _ in 0..per * 10 {
        if let Some(f) = graph_fault(&s, &o, layered, &mut r) {
            faults.push(f);
        }
    }
    for (label, b) in faults {
        out.eval();
        out.step(&label);
        out.stat(&format!("faults: {}", kind(&label)), 1);
        let res = doc.parse(&b, false);
        out.nontrivial_bytes(&b);
        match &res {
            Res::Err(e) => {
                if !e.is_empty() {
                    out.stat(&format!("errors: {}", e.split(':').next().unwrap_or("").chars().take(40).collect::<String>()), 1);
                }
                out.sample(|| format!("{label} -> {e}"));
            }
            _ => {
                out.input = b.clone();
                out.violation(format!("a {} with a structural fault ({label}) is not rejected: {}", doc.name(), short(&res)));
                return;
            }
        }
    }
}

fn kind(l: &str) -> String {
    let l = match l.split_once(": ") {
        Some((a, b)) if a.starts_with("Hdr") => b.split_once(": ").map_or(b, |x| x.1).rsplit(": ").next().unwrap(),
        Some((a, b)) if a.contains(" at ") => b,
        _ => l,
    };
    l.split(|c: char| c.is_ascii_digit()).next().unwrap().trim().to_string()
}

pub fn sample_path(name: &str) -> std::path::PathBuf {
    Path::new("/repo/tests/samples").join(name)
}
