//! Hostile inputs: object graphs no honest writer produces, and damage at the level of values,
//! of wire tokens and of bytes.
use crate::bits::*;
use crate::content;
use crate::docgen::{Cx, DIM_X, DIM_Y, Profile, mb_path, mb_uint, rv, utf16};
use crate::graph::*;
use crate::mini::*;
use crate::rng::Rng;
use std::rc::Rc;

pub struct Case {
    pub label: String,
    pub toc: bool,
    pub bytes: Vec<u8>,
}

pub fn samples() -> Vec<(String, Vec<u8>)> {
    let mut v = vec![];
    let mut dirs = vec![std::path::PathBuf::from("/repo/tests/samples")];
    while let Some(d) = dirs.pop() {
        let Ok(rd) = std::fs::read_dir(&d) else { continue };
        let mut es: Vec<_> = rd.flatten().map(|e| e.path()).collect();
        es.sort();
        for p in es {
            if p.is_dir() {
                dirs.push(p);
            } else if p.extension().is_some_and(|e| e == "one" || e == "onetoc2") {
                if let Ok(b) = std::fs::read(&p) {
                    v.push((p.file_name().unwrap().to_string_lossy().into_owned(), b));
                }
            }
        }
    }
    v
}

fn enc(s: &Store) -> Vec<u8> {
    bytes(s)
}

/// Object graphs with `n` as their size; `None` once `k` is past the end.
pub fn graph(k: usize, n: usize, r: &mut Rng) -> Option<Case> {
    let mut m = Mini::new();
    let mut toc = false;
    let (label, store): (&str, Store) = match k {
        0 => {
            let mut x = m.element(vec![], vec![]);
            for _ in 0..n {
                x = m.element(vec![x], vec![]);
            }
            let o = m.outline(vec![x]);
            ("outline elements nested", m.page(vec![o], None))
        }
        1 => {
            let mut x = m.group(vec![]);
            for _ in 0..n {
                x = m.group(vec![x]);
            }
            let o = m.outline(vec![x]);
            ("outline groups nested", m.page(vec![o], None))
        }
        2 => {
            let mut x = m.element(vec![], vec![]);
            for _ in 0..n {
                let c = m.cell(vec![x]);
                let w = m.row(vec![c]);
                let t = m.table(vec![w]);
                x = m.element(vec![], vec![t]);
            }
            let o = m.outline(vec![x]);
            ("tables nested", m.page(vec![o], None))
        }
        3 => {
            let mut x = m.element(vec![], vec![]);
            for i in 0..n {
                x = match (i + r.below(2)) % 3 {
                    0 => m.group(vec![x]),
                    1 => m.element(vec![x], vec![]),
                    _ => {
                        let e = m.element(vec![x], vec![]);
                        let c = m.cell(vec![e]);
                        let w = m.row(vec![c]);
                        let t = m.table(vec![w]);
                        m.element(vec![], vec![t])
                    }
                };
            }
            let o = m.outline(vec![x]);
            ("outline items of all kinds nested in a title", m.page(vec![], Some(vec![o])))
        }
        4 => {
            let ids: Vec<EG> = (0..n.max(1)).map(|_| m.id()).collect();
            for i in 0..ids.len() {
                let p = m.element_props(vec![ids[(i + 1) % ids.len()]], vec![], vec![]);
                m.put(ids[i], 0x6000D, p);
            }
            let o = m.outline(vec![ids[0]]);
            ("cycle of outline elements", m.page(vec![o], None))
        }
        5 => {
            let ids: Vec<EG> = (0..n.max(1)).map(|_| m.id()).collect();
            for i in 0..ids.len() {
                m.put(ids[i], 0x60019, Mini::group_props(vec![ids[(i + 1) % ids.len()]]));
            }
            let o = m.outline(vec![ids[0]]);
            ("cycle of outline groups", m.page(vec![o], None))
        }
        6 => {
            let t = m.id();
            let e = m.element(vec![], vec![t]);
            let c = m.cell(vec![e]);
            let w = m.row(vec![c]);
            m.put(t, 0x60022, Mini::table_props(vec![w]));
            let o = m.outline(vec![e]);
            ("table that contains itself", m.page(vec![o], None))
        }
        7 => {
            let o = m.id();
            m.put(o, 0x6000C, Mini::outline_props(vec![o]));
            ("outline that contains itself", m.page(vec![o], None))
        }
        8 => {
            // every level twice in the next: 2^n items from n objects
            let mut x = m.element(vec![], vec![]);
            for _ in 0..n.min(100) {
                x = m.element(vec![x, x], vec![]);
            }
            let o = m.outline(vec![x]);
            ("shared outline elements", m.page(vec![o], None))
        }
        9 => {
            let mut x = m.text("leaf");
            for _ in 0..n.min(30) {
                let e = m.element(vec![], vec![x, x]);
                let c = m.cell(vec![e, e]);
                let w = m.row(vec![c, c]);
                x = m.table(vec![w, w]);
            }
            let e = m.element(vec![], vec![x]);
            let o = m.outline(vec![e]);
            ("shared tables", m.page(vec![o], None))
        }
        10 => {
            let t = m.text("x");
            let e = m.element(vec![], vec![t; n]);
            let o = m.outline(vec![e; n.min(500)]);
            ("one element many times", m.page(vec![o; n.min(50)], None))
        }
        11 => {
            let mut s = plain_section();
            let rev = s.spaces[1].revs[0].clone();
            for _ in 0..n {
                s.spaces[1].revs.insert(0, Rev { roots: vec![], groups: vec![] });
            }
            let _ = rev;
            ("long chain of revisions", s)
        }
        12 | 13 => {
            let mut s = plain_section();
            for _ in 0..n.min(200) {
                s.spaces[1].revs.push(Rev { roots: vec![], groups: vec![] });
            }
            let d = Damage { cyclic_base: true, ..Damage::default() };
            let o = if k == 12 { Opts::canonical() } else { Opts::wild() };
            let b = encode_damaged(&s, &o, r, &d).bytes;
            return Some(Case { label: format!("cycle of {} revisions", s.spaces[1].revs.len()), toc: false, bytes: b });
        }
        14 => {
            toc = true;
            let mut v: Vec<Obj> = (0..n as u32).map(|i| toc_node(i + 1, vec![i + 2])).collect();
            v.push(toc_leaf(n as u32 + 1, 1, "x.one"));
            ("tables of contents nested", toc_of(v))
        }
        15 => {
            toc = true;
            let n = n.max(1) as u32;
            ("cycle of tables of contents", toc_of((0..n).map(|i| toc_node(i + 1, vec![(i + 1) % n + 1])).collect()))
        }
        16 => {
            toc = true;
            let n = n.min(60) as u32;
            let mut v: Vec<Obj> = (0..n).map(|i| toc_node(i + 1, vec![i + 2, i + 2])).collect();
            v.push(toc_leaf(n + 1, 1, "x.one"));
            ("shared tables of contents", toc_of(v))
        }
        17 => {
            toc = true;
            ("many entries", toc_of({
                let mut v = vec![toc_node(1, vec![2; n])];
                v.push(toc_leaf(2, 1, "x.one"));
                v
            }))
        }
        18 | 19 => {
            let mut v = PV::Set(vec![]);
            for _ in 0..n {
                v = if k == 18 { PV::Set(vec![prop(0x5000, v)]) } else { PV::Sets(1, vec![vec![prop(0x5000, v)]]) };
            }
            let b = with_deep(v);
            return Some(Case { label: format!("property sets nested {n} deep"), toc: false, bytes: b });
        }
        20 => {
            // strokes: points, dimensions, counts
            let n64 = n as u64;
            let mut paths: Vec<Vec<u8>> = vec![vec![], vec![0], vec![0xff; n.max(1)], vec![0x80; n.max(1)]];
            for c in [1u64, n64, 1 << 31, 1 << 32, 1 << 62, u64::MAX >> 1] {
                let mut b = vec![];
                mb_uint(&mut b, c << 1);
                b.extend(r.bytes(n.min(64)));
                paths.push(b);
            }
            paths.push(mb_path(&(0..n as i64).collect::<Vec<_>>()));
            paths.push(mb_path(&vec![i64::MAX; n.min(1000)]));
            paths.push(mb_path(&vec![-(i64::MAX); n.min(1000)]));
            let path = r.pick(&paths).clone();
            let rnd = r.bytes(n.min(4000));
            let dims = match r.below(8) {
                0 => vec![],
                1 => Mini::dims(&[DIM_X]),
                2 => Mini::dims(&[DIM_Y, DIM_Y, DIM_X]),
                3 => Mini::dims(&vec![DIM_X; n.clamp(1, 2000)]),
                4 => Mini::dims(&[DIM_X, DIM_Y])[..40].to_vec(),
                5 => rnd,
                6 => {
                    let mut d = vec![DIM_X; n.clamp(1, 2000)];
                    d.push(DIM_Y);
                    Mini::dims(&d)
                }
                _ => Mini::dims(&[DIM_X, DIM_Y]),
            };
            let s = m.stroke(path, dims);
            let d = m.add(0x2003B, vec![oids(0x24003416, vec![s; r.range(1, 3)])]);
            let i = m.add(0x60014, Mini::ink_props(d));
            ("ink with odd points and dimensions", m.page(vec![i], None))
        }
        21 => {
            // text runs: boundaries, number of styles, number of run data sets, references
            let mut p = m.text_props("some text \u{1F600} and more");
            let nb = r.below(6);
            let b: Vec<u8> = (0..nb)
                .flat_map(|i| {
                    let v = match r.below(6) {
                        0 => 0,
                        1 => u32::MAX,
                        2 => 11,
                        3 => 1 << 31,
                        4 => r.below(30) as u32,
                        _ => 3 * i as u32,
                    };
                    v.to_le_bytes()
                })
                .collect();
            p.push(prop(0x1C001E12, rv(b)));
            let mut sids = vec![];
            for _ in 0..r.below(6) {
                let mut sp = vec![];
                match r.below(4) {
                    0 => sp.push(prop(0x08003401, PV::Bool(true))),
                    1 => {
                        sp.push(prop(0x08001E22, PV::Bool(true)));
                        sp.push(u32p(0x14003457, if r.flip() { 0x20026 } else { 0x20027 }));
                    }
                    2 => sp.push(prop(0x08001E22, PV::Bool(true))),
                    _ => {}
                }
                sids.push(m.add(0x12004D, sp));
            }
            p.push(oids(0x24001E13, sids));
            let sets: Vec<Vec<Prop>> = (0..r.below(6))
                .map(|_| {
                    let mut s = vec![];
                    if r.flip() {
                        s.push(u32p(0x1400344F, r.u32() % 40));
                    }
                    if r.flip() {
                        s.push(prop(0x10003453, PV::U16(r.u32() as u16)));
                    }
                    if r.flip() {
                        s.push(prop(0x14001C27, PV::U32(1)));
                        s.push(prop(0x14001C28, PV::U32(1)));
                    }
                    s
                })
                .collect();
            p.push(prop(0x40003499, PV::Sets(0x44000811, sets)));
            let st = m.plain_stroke();
            let d = m.add(0x2003B, vec![oids(0x24003416, vec![st])]);
            let mut x = vec![];
            for _ in 0..r.below(5) {
                x.push(d);
            }
            p.push(oids(0x24003458, x));
            let t = m.add(0x6000E, p);
            let e = m.element(vec![], vec![t]);
            let o = m.outline(vec![e]);
            ("text runs that do not fit", m.page(vec![o], None))
        }
        22 => {
            // vectors with lying counts
            let mut s = rich_doc(r);
            let all: Vec<u32> = vec![0x1C001C12, 0x1C001D66, 0x1C001D7D, 0x1C001C1A, 0x1C001E12, 0x1C003418, 0x1C00340A, 0x1C00340B, 0x1C001C30];
            let ids: Vec<u32> = all.iter().map(|i| i & 0x3ffffff).collect();
            for o in s.objs_mut() {
                for p in &mut o.props {
                    if ids.contains(&p.id) && r.one_in(3) {
                        let b: Vec<u8> = match &p.v {
                            PV::Bytes(b) => b.to_vec(),
                            _ => vec![],
                        };
                        p.v = rv(match r.below(5) {
                            0 => vec![],
                            1 => b[..r.below(b.len() + 1)].to_vec(),
                            2 => {
                                let mut b = b;
                                if !b.is_empty() {
                                    b[0] = 0xff;
                                }
                                b
                            }
                            3 => r.bytes(b.len()),
                            _ => {
                                let mut b = b;
                                b.extend(vec![0xff; n.min(3000)]);
                                b
                            }
                        });
                    }
                }
            }
            ("vectors with lying counts", s)
        }
        23 => {
            let i = {
                let c = m.container(0x80039, Some(vec![0xAA; n]));
                m.image(c)
            };
            let e = m.element(vec![], vec![i; 3]);
            let o = m.outline(vec![e]);
            ("one picture several times", m.page(vec![o, i, i], None))
        }
        24 => {
            // many pages that are the same object space
            let s = plain_section();
            ("one page many times", section_of(s.spaces[1..].to_vec(), |c| vec![vec![c[0]; n.min(2000)]; 2]))
        }
        25 => {
            // a page whose space is the section's
            let mut s = plain_section();
            let root = s.spaces[0].cell;
            s.spaces[1].cell = root;
            ("two object spaces of the same identity", s)
        }
        26 => {
            let n16 = n.min(65535);
            let v: Vec<Prop> = (0..n16).map(|_| prop(0x5000, PV::Empty)).collect();
            let x = m.add(0x6000E, v);
            let e = m.element(vec![], vec![x]);
            let o = m.outline(vec![e]);
            ("object with very many properties", m.page(vec![o], None))
        }
        27 => {
            let p: Vec<Prop> = vec![PV::Sets(0, vec![vec![]; n]), PV::Oids(vec![NIL; n]), PV::Set(vec![prop(0x5001, PV::Oids(vec![NIL; n]))])]
                .into_iter()
                .enumerate()
                .map(|(i, v)| prop(0x5000 + i as u32, v))
                .collect();
            let t = m.text("x");
            let mut q = m.text_props("y");
            q.extend(p);
            let u = m.add(0x6000E, q);
            let e = m.element(vec![], vec![t, u]);
            let o = m.outline(vec![e]);
            ("long arrays", m.page(vec![o], None))
        }
        28 => {
            // a property type with a count that the data does not hold
            let c = *r.pick(&[1u32, 0xffff, 0x00ff_ffff, 0x7fff_ffff, 0xffff_ffff]);
            let ty = *r.pick(&[7u8, 9, 11, 13, 16]);
            let mut b = c.to_le_bytes().to_vec();
            if ty == 16 {
                b.extend(1u32.to_le_bytes());
            }
            let mut q = m.text_props("y");
            q.push(prop(0x5000, PV::Raw(ty, b)));
            let u = m.add(0x6000E, q);
            let e = m.element(vec![], vec![u]);
            let o = m.outline(vec![e]);
            ("declared counts without data", m.page(vec![o], None))
        }
        29 => {
            // number list formats
            let mut q: Vec<Prop> = vec![u32p(0x14001D7A, 1)];
            let v = match r.below(5) {
                0 => vec![],
                1 => vec![1],
                2 => vec![0, 0],
                3 => vec![0xff, 0xff],
                _ => r.bytes(n.min(7)),
            };
            q.push(prop(0x1C001C1A, rv(v)));
            let l = m.add(0x60012, q);
            let p = m.element_props(vec![], vec![], vec![l; r.range(1, 3)]);
            let e = m.add(0x6000D, p);
            let o = m.outline(vec![e]);
            ("list formats", m.page(vec![o], None))
        }
        30 => {
            // nested property sets multiplied through declared counts: each level says two
            let mut b = vec![];
            let ty = *r.pick(&[16u32, 17]);
            for _ in 0..n.min(3000) {
                if ty == 16 {
                    b.extend(2u32.to_le_bytes());
                    b.extend(1u32.to_le_bytes());
                }
                b.extend(1u16.to_le_bytes());
                b.extend((0x5000u32 | ty << 26).to_le_bytes());
            }
            let mut q = m.text_props("y");
            q.push(prop(0x5000, PV::Raw(ty as u8, b)));
            let u = m.add(0x6000E, q);
            let e = m.element(vec![], vec![u]);
            let o = m.outline(vec![e]);
            ("property sets that promise siblings", m.page(vec![o], None))
        }
        31 => {
            // deep and wide: a comb of depth n with leaves
            let mut x = m.element(vec![], vec![]);
            for _ in 0..n.min(120) {
                let a = m.element(vec![], vec![]);
                let b = m.element(vec![], vec![]);
                x = m.element(vec![a, x, b], vec![]);
            }
            let o = m.outline(vec![x]);
            ("comb of outline elements", m.page(vec![o], None))
        }
        32 => {
            // roots that point at each other's kinds
            let mut s = rich_doc(r);
            let ids: Vec<EG> = s.objs().map(|o| o.id).collect();
            for sp in &mut s.spaces {
                for rv in &mut sp.revs {
                    for root in &mut rv.roots {
                        if r.one_in(3) {
                            root.1 = *r.pick(&ids);
                        }
                    }
                }
            }
            ("roots of other kinds", s)
        }
        33 => {
            toc = true;
            let names = [
                "", ".", "..", "/", "a/b", "a//b", "./x", "\u{0}", "x\u{0}y", "^M", "^J^M", "^", "con", "nul.one", "a\\b", "C:\\x", "~", "*",
                "\u{202e}x", "\u{feff}", "OneNote_RecycleBin", "x.one", " x", "x ", "x.", "....", "\u{fffd}",
            ];
            let v: Vec<&str> = (0..n.clamp(1, 30)).map(|_| *r.pick(&names)).collect();
            let mut s = crate::mini::toc(&v);
            for o in s.objs_mut() {
                for p in &mut o.props {
                    if p.id == 0x1C001D6B & 0x3ffffff && r.one_in(4) {
                        let n = r.below(9);
                        p.v = rv(r.bytes(n));
                    }
                }
            }
            ("strange names", s)
        }
        34 => {
            let t = Rc::new(utf16(&"x".repeat(n)));
            let mut q = m.text_props("");
            q.retain(|p| p.id != 0x1C001C22 & 0x3ffffff);
            q.push(prop(0x1C001C22, PV::Bytes(t)));
            let b: Vec<u8> = (0..n as u32).flat_map(|i| i.to_le_bytes()).collect();
            q.push(prop(0x1C001E12, rv(b)));
            q.push(oids(0x24001E13, vec![m.style; n]));
            let t = m.add(0x6000E, q);
            let e = m.element(vec![], vec![t]);
            let o = m.outline(vec![e]);
            ("paragraph of very many runs", m.page(vec![o], None))
        }
        35 => {
            // note tags: many, all with the same definition
            let def = m.add(
                0x120043,
                vec![
                    prop(0x1C003468, rv(utf16("label"))),
                    u32p(0x14003467, 0),
                    prop(0x10003464, PV::U16(r.u32() as u16 % 160)),
                    prop(0x10003463, PV::U16(r.u32() as u16)),
                ],
            );
            let set = vec![u32p(0x1400346E, 1), prop(0x10003470, PV::U16(1)), prop(0x20003488, PV::Oid(def))];
            let mut q = m.text_props("x");
            q.push(prop(0x40003489, PV::Sets(0x44000811, vec![set; n.min(20000)])));
            let t = m.add(0x6000E, q);
            let e = m.element(vec![], vec![t]);
            let o = m.outline(vec![e]);
            ("very many note tags", m.page(vec![o], None))
        }
        _ => return None,
    };
    if label.contains("nested") && n > 0 && r.one_in(4) && !toc {
        let b = encode(&store, &Opts::wild(), r).bytes;
        return Some(Case { label: format!("{label} (n={n}, odd encoding)"), toc, bytes: b });
    }
    Some(Case { label: format!("{label} (n={n})"), toc, bytes: enc(&store) })
}
pub const GRAPHS: usize = 36;

/// A deep property value, written without recursion (the encoder recurses).
fn with_deep(v: PV) -> Vec<u8> {
    let mut flat = vec![];
    let mut cur = v;
    loop {
        match cur {
            PV::Set(mut ps) => {
                flat.extend((ps.len() as u16).to_le_bytes());
                match ps.pop() {
                    Some(p) => {
                        flat.extend((p.id | p.v.ty() << 26).to_le_bytes());
                        cur = p.v;
                    }
                    None => break,
                }
            }
            PV::Sets(id, mut sets) => {
                flat.extend((sets.len() as u32).to_le_bytes());
                flat.extend(id.to_le_bytes());
                let mut ps = sets.pop().unwrap_or_default();
                flat.extend((ps.len() as u16).to_le_bytes());
                match ps.pop() {
                    Some(p) => {
                        flat.extend((p.id | p.v.ty() << 26).to_le_bytes());
                        cur = p.v;
                    }
                    None => break,
                }
            }
            _ => break,
        }
    }
    let ty = 17;
    let mut m = Mini::new();
    let mut q = m.text_props("y");
    // for arrays the outermost value is a one-element array as well
    let first_array = flat.len() >= 8 && flat[..4] == [1, 0, 0, 0] && flat[4..8] == [1, 0, 0, 0];
    q.push(prop(0x5000, PV::Raw(if first_array { 16 } else { ty }, flat)));
    let u = m.add(0x6000E, q);
    let e = m.element(vec![], vec![u]);
    let o = m.outline(vec![e]);
    bytes(&m.page(vec![o], None))
}

/// A small document with everything in it.
pub fn rich_doc(r: &mut Rng) -> Store {
    let mut p = Profile { budget: 12, present: 70, tags: 40, lists: 40, math: 20, embedded: 25, ..Profile::small() };
    p.w_content = [40, 15, 12, 10, 12, 5];
    p.w_page = [50, 15, 15, 15, 5];
    p.page_items = (1, 3);
    let mut cx = Cx::new(r.fork(), p);
    cx.section("s", "x.one")
}
pub fn rich_toc(r: &mut Rng) -> Store {
    let mut cx = Cx::new(r.fork(), Profile::small());
    let n = r.below(6);
    let leaves: Vec<(u32, String)> = (0..n).map(|i| (i as u32, cx.small_name())).collect();
    cx.toc(&leaves).0
}

/// Replaces values in the object graph.
pub fn mutate_graph(s: &mut Store, r: &mut Rng) -> String {
    let ids: Vec<EG> = s.objs().map(|o| o.id).collect();
    let cells: Vec<Cell> = s.spaces.iter().map(|s| s.cell).collect();
    let known: Vec<u32> = s.objs().flat_map(|o| o.props.iter().map(|p| p.id)).collect();
    let jcids: Vec<u32> = s.objs().map(|o| o.jcid).collect();
    let n = r.range(1, 4);
    let mut log = vec![];
    for _ in 0..n {
        let total = s.objs().count();
        if total == 0 {
            break;
        }
        let k = r.below(total);
        let o = s.objs_mut().nth(k).unwrap();
        let what = r.below(9);
        log.push(what.to_string());
        match what {
            0 => o.jcid = if r.one_in(5) { r.u32() } else { *r.pick(&jcids) },
            1 => o.blob = if o.blob.is_some() { None } else { Some(Rc::new(r.bytes(5))) },
            2 if !o.props.is_empty() => {
                let i = r.below(o.props.len());
                o.props.remove(i);
            }
            3 if !known.is_empty() => {
                let id = *r.pick(&known);
                let v = random_value(r, &ids, &cells);
                o.props.push(prop(id, v));
            }
            4 => o.id = *r.pick(&ids),
            _ if !o.props.is_empty() => {
                let i = r.below(o.props.len());
                let p = &mut o.props[i];
                p.v = match (&p.v, r.below(4)) {
                    (_, 0) => random_value(r, &ids, &cells),
                    (PV::U8(_), _) => PV::U8(r.u8()),
                    (PV::U16(v), _) => PV::U16(if r.flip() { r.u32() as u16 } else { v ^ 1 << r.below(16) }),
                    (PV::U32(v), _) => PV::U32(if r.flip() { r.u32() } else { v ^ 1 << r.below(32) }),
                    (PV::Oid(_), _) => PV::Oid(*r.pick(&ids)),
                    (PV::Oids(v), 1) => PV::OidsLie(v.clone(), r.below(v.len() + 3) as u32),
                    (PV::Oids(v), _) => {
                        let mut v = v.clone();
                        match r.below(3) {
                            0 => v.push(*r.pick(&ids)),
                            1 => {
                                v.pop();
                            }
                            _ => {
                                if let Some(x) = v.first_mut() {
                                    *x = *r.pick(&ids)
                                }
                            }
                        }
                        PV::Oids(v)
                    }
                    (PV::Osids(v), _) => {
                        let mut v = v.clone();
                        v.push(*r.pick(&cells));
                        PV::Osids(v)
                    }
                    (PV::Bytes(b), x) => {
                        let mut b = b.to_vec();
                        if x == 1 || b.is_empty() {
                            let k = r.below(40);
                            b = r.bytes(k);
                        } else if x == 2 {
                            b.truncate(r.below(b.len()));
                        } else {
                            let i = r.below(b.len());
                            b[i] = r.u8();
                        }
                        rv(b)
                    }
                    (PV::Sets(id, v), _) => {
                        let mut v = v.clone();
                        if let Some(f) = v.first().cloned() {
                            v.push(f);
                        }
                        if let Some(f) = v.first_mut() {
                            f.pop();
                        }
                        PV::Sets(*id, v)
                    }
                    (v, _) => v.clone(),
                };
            }
            _ => {}
        }
    }
    format!("values mutated: {}", log.join(","))
}
fn random_value(r: &mut Rng, ids: &[EG], cells: &[Cell]) -> PV {
    match r.below(16) {
        0 => PV::Empty,
        1 => PV::Bool(r.flip()),
        2 => PV::U8(r.u8()),
        3 => PV::U16(r.u32() as u16),
        4 => PV::U32(r.u32()),
        5 => PV::U64(r.u64()),
        6 => {
            let n = r.below(30);
            rv(r.bytes(n))
        }
        7 => PV::Oid(*r.pick(ids)),
        8 => PV::Oids((0..r.below(4)).map(|_| *r.pick(ids)).collect()),
        9 => PV::Osid(*r.pick(cells)),
        10 => PV::Osids((0..r.below(4)).map(|_| *r.pick(cells)).collect()),
        11 => PV::Ctx(*r.pick(ids)),
        12 => PV::Ctxs((0..r.below(3)).map(|_| *r.pick(ids)).collect()),
        13 => PV::Sets(r.u32(), vec![vec![prop(0x5000, PV::U32(1))]; r.below(3)]),
        14 => PV::Set(vec![prop(0x5000, PV::Oid(*r.pick(ids)))]),
        _ => {
            let t = r.below(32) as u8;
            let n = r.below(20);
            PV::Raw(t, r.bytes(n))
        }
    }
}

fn every_prop<'a>(ps: &'a mut Vec<Prop>, f: &mut dyn FnMut(&mut Prop)) {
    for p in ps {
        f(p);
        match &mut p.v {
            PV::Sets(_, v) => v.iter_mut().for_each(|s| every_prop(s, f)),
            PV::Set(s) => every_prop(s, f),
            _ => {}
        }
    }
}

/// Gives one property (rare ones as often as common ones, those in nested sets too) an extreme
/// value of its own type, in one place or everywhere.
pub fn extreme_values(s: &mut Store, r: &mut Rng) -> String {
    let mut log = vec![];
    for _ in 0..if r.flip() { 1 } else { r.range(2, 3) } {
        let mut seen: std::collections::BTreeMap<u32, usize> = Default::default();
        for o in s.objs_mut() {
            every_prop(&mut o.props, &mut |p| *seen.entry(p.id).or_insert(0) += 1);
        }
        // the properties the parser knows about, not those that are there as noise
        seen.retain(|id, _| id & 0x3ff_ffff < 0x4000);
        if seen.is_empty() {
            break;
        }
        let (id, n) = *r.pick(&seen.into_iter().collect::<Vec<_>>());
        let one = if r.flip() { Some(r.below(n)) } else { None };
        let form = r.u64();
        let mut k = 0;
        let mut what = String::new();
        for o in s.objs_mut() {
            every_prop(&mut o.props, &mut |p| {
                if p.id != id {
                    return;
                }
                k += 1;
                if one.is_some_and(|x| x + 1 != k) {
                    return;
                }
                p.v = extreme(&p.v, &mut Rng::new(form));
                what = format!("{:?}", p.v).chars().take(60).collect();
            });
        }
        log.push(format!("{id:#x}={what}{}", if one.is_some() { "" } else { " everywhere" }));
    }
    format!("extreme values: {}", log.join(", "))
}

fn extreme(v: &PV, r: &mut Rng) -> PV {
    const W16: &[u16] = &[0, 1, 0x7f, 0xff, 0x100, 0x7fff, 0x8000, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xfddf, 0xfffe, 0xffff];
    const W32: &[u32] = &[
        0, 1, 2, 0xff, 0xd800, 0xdfff, 0xffff, 0x10000, 0x10ffff, 0x110000, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0xffff_fffe, u32::MAX,
        0x7f80_0000, 0xff80_0000, 0x7fc0_0000, 0x7f7f_ffff, 0xff7f_ffff, 0xbf80_0000,
    ];
    match v {
        PV::U8(_) => PV::U8(*r.pick(&[0, 1, 2, 3, 0x7f, 0x80, 0xfe, 0xff])),
        PV::U16(_) => PV::U16(*r.pick(W16)),
        PV::U32(_) => PV::U32(*r.pick(W32)),
        PV::U64(_) => PV::U64(*r.pick(&[0, 1, 0xffff_ffff, 1 << 32, i64::MAX as u64, 1 << 63, u64::MAX, 864_000_000_000])),
        PV::Bytes(b) => {
            let mut b = b.to_vec();
            let n = b.len();
            match r.below(13) {
                0 => b.clear(),
                1 => b.truncate(1),
                2 => b.truncate(n.saturating_sub(1)),
                3 => b.push(r.u8()),
                4 => b.fill(0xff),
                5 => b.fill(0x80),
                6 => b.fill(0),
                7 => b.chunks_mut(2).for_each(|c| c.copy_from_slice(&[0, 0xd8][..c.len()])),
                8 => b.chunks_mut(2).for_each(|c| c.copy_from_slice(&[1, 0xdc][..c.len()])),
                9 => b.iter_mut().take(4).for_each(|x| *x = 0xff),
                10 => b.iter_mut().rev().take(4).for_each(|x| *x = 0xff),
                11 => {
                    // counted arrays: the count alone changes
                    if let Some(x) = b.first_mut() {
                        *x = *r.pick(&[0, 1, 2, 0x7f, 0x80, 0xfe, 0xff])
                    }
                }
                _ => {
                    let k = r.range(1, 40);
                    b = r.bytes(k)
                }
            }
            rv(b)
        }
        PV::Oids(v) => {
            let mut v = v.clone();
            match r.below(4) {
                0 => v.clear(),
                1 => v.reverse(),
                2 => v.truncate(1),
                _ => {
                    let w = v.clone();
                    for _ in 0..r.range(1, 20) {
                        v.extend(&w);
                    }
                }
            }
            PV::Oids(v)
        }
        PV::Oid(_) => PV::Oid(EG { g: [7; 16], v: 9 }),
        PV::Sets(id, v) => {
            let mut v = v.clone();
            match r.below(4) {
                0 => v.clear(),
                1 => v.reverse(),
                2 => v.iter_mut().for_each(|s| s.clear()),
                _ => {
                    let w = v.clone();
                    for _ in 0..r.range(1, 9) {
                        v.extend(w.clone());
                    }
                }
            }
            PV::Sets(*id, v)
        }
        v => v.clone(),
    }
}

const HUGE: &[u64] = &[
    0, 1, 2, 0x7f, 0x80, 0xff, 0xffff, 0x10000, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 1 << 32, 1 << 40, 1 << 60, 1 << 63, u64::MAX,
    u64::MAX - 1, 1 << 58, (1 << 61) + 3,
];

/// Damage at the level of wire tokens.
pub fn mutate_tokens(e: &Encoded, r: &mut Rng) -> (String, Vec<u8>) {
    let mut b = e.bytes.clone();
    let mut label = vec![];
    let n = if r.flip() { 1 } else { r.range(2, 4) };
    // from the back, so that offsets stay valid
    let mut ms: Vec<Mark> = (0..n).map(|_| *r.pick(&e.marks)).collect();
    if r.flip() {
        // prefer counts and lengths
        let c: Vec<Mark> = e.marks.iter().filter(|m| matches!(m.kind, Mk::Count | Mk::Len | Mk::LogRef)).copied().collect();
        if !c.is_empty() {
            ms = (0..n).map(|_| *r.pick(&c)).collect();
        }
    }
    ms.sort_by_key(|m| std::cmp::Reverse(m.off));
    ms.dedup_by_key(|m| m.off);
    let mut end = b.len();
    for m in ms {
        if m.off + m.len > end {
            continue;
        }
        end = m.off;
        label.push(format!("{:?}", m.kind));
        let range = m.off..m.off + m.len;
        match m.kind {
            Mk::Count | Mk::Len | Mk::Info | Mk::ElemType | Mk::Freq => {
                let v = if r.flip() { *r.pick(HUGE) } else { r.u64() >> r.below(64) };
                let mut w = W::new(30, r.fork());
                w.cu64(v, m.kind);
                b.splice(range, w.out);
            }
            Mk::LogRef => {
                let off = *r.pick(HUGE);
                let cb = *r.pick(HUGE) as u32;
                b[m.off..m.off + 8].copy_from_slice(&off.to_le_bytes());
                b[m.off + 8..m.off + 12].copy_from_slice(&cb.to_le_bytes());
            }
            Mk::Element(_) | Mk::Child(_) => {
                if r.flip() {
                    b.drain(range);
                } else {
                    let c = b[range.clone()].to_vec();
                    b.splice(range.start..range.start, c);
                }
            }
            Mk::Blob | Mk::ObjData => {
                if m.len > 0 {
                    for _ in 0..r.range(1, 6) {
                        let i = m.off + r.below(m.len);
                        b[i] = if r.flip() { r.u8() } else { *r.pick(&[0, 1, 0x7f, 0x80, 0xff]) };
                    }
                }
            }
            _ => {
                for _ in 0..r.range(1, 2) {
                    if m.len > 0 {
                        let i = m.off + r.below(m.len);
                        b[i] ^= 1 << r.below(8);
                    }
                }
            }
        }
    }
    (format!("tokens damaged: {}", label.join(",")), b)
}

/// Damage at the level of bytes.
pub fn mutate_bytes(b: &mut Vec<u8>, r: &mut Rng, other: &[u8]) -> String {
    let n = match r.below(4) {
        0 => 1,
        1 => 2,
        2 => r.range(3, 8),
        _ => r.range(8, 60),
    };
    for _ in 0..n {
        if b.is_empty() {
            break;
        }
        let i = r.below(b.len());
        match r.below(12) {
            0 | 1 => b[i] ^= 1 << r.below(8),
            2 | 3 => b[i] = r.u8(),
            4 => b[i] = *r.pick(&[0, 1, 2, 3, 4, 0x7f, 0x80, 0xfe, 0xff]),
            5 => {
                let v = *r.pick(HUGE);
                for (k, x) in v.to_le_bytes().iter().enumerate() {
                    if i + k < b.len() {
                        b[i + k] = *x;
                    }
                }
            }
            6 => {
                let n = r.below(9).min(b.len() - i);
                b.drain(i..i + n);
            }
            7 => {
                let n = r.below(9);
                let x = r.bytes(n);
                b.splice(i..i, x);
            }
            8 => {
                let n = r.below(300).min(b.len() - i);
                let c = b[i..i + n].to_vec();
                let j = r.below(b.len());
                b.splice(j..j, c);
            }
            9 if !other.is_empty() => {
                let j = r.below(other.len());
                let n = r.below(400).min(other.len() - j);
                let m = if r.flip() { 0 } else { n.min(b.len() - i) };
                b.splice(i..i + m, other[j..j + n].iter().copied());
            }
            10 => {
                if r.one_in(4) {
                    b.truncate(i);
                }
            }
            _ => {
                let n = r.below(5).min(b.len() - i);
                for k in 0..n {
                    b[i + k] = 0xff;
                }
            }
        }
        if b.len() > 1 << 20 {
            b.truncate(1 << 20);
        }
    }
    format!("{n} byte edits")
}

thread_local! {
    static SAMPLES: std::cell::OnceCell<Vec<(String, Vec<u8>)>> = const { std::cell::OnceCell::new() };
}

pub const SIZES: &[usize] = &[0, 1, 2, 3, 7, 20, 30, 60, 63, 64, 65, 90, 120, 126, 127, 128, 129, 150, 250, 700, 2000, 6000];

/// Number of catalogue cases that come before the random ones.
pub fn catalogue_len() -> u64 {
    (GRAPHS * SIZES.len()) as u64
}

/// The hostile input of a case.
pub fn case(case: u64, r: &mut Rng) -> Case {
    if case < catalogue_len() {
        let k = case as usize % GRAPHS;
        let n = SIZES[case as usize / GRAPHS];
        return graph(k, n, r).unwrap();
    }
    SAMPLES.with(|s| {
        let samples = s.get_or_init(samples);
        let kind = r.below(24);
        match kind {
            0..=4 if !samples.is_empty() => {
                // damaged sample
                let small: Vec<usize> = (0..samples.len()).filter(|i| samples[*i].1.len() < 300_000).collect();
                let i = if r.one_in(12) || small.is_empty() { r.below(samples.len()) } else { *r.pick(&small) };
                let (n, b) = &samples[i];
                let mut b = b.clone();
                let j = r.below(samples.len());
                let l = mutate_bytes(&mut b, r, &samples[j].1);
                Case { label: format!("sample {n}: {l}"), toc: n.ends_with("onetoc2"), bytes: b }
            }
            5..=8 => {
                let mut s = rich_doc(r);
                let l = mutate_graph(&mut s, r);
                let o = if r.one_in(3) { Opts::wild() } else { Opts::canonical() };
                Case { label: l, toc: false, bytes: encode(&s, &o, r).bytes }
            }
            9..=12 => {
                let toc = r.one_in(4);
                let s = if toc { rich_toc(r) } else { rich_doc(r) };
                let o = if r.one_in(3) { Opts::wild() } else { Opts::mild() };
                let e = encode(&s, &o, r);
                let (l, b) = mutate_tokens(&e, r);
                Case { label: l, toc, bytes: b }
            }
            13..=15 => {
                let toc = r.one_in(4);
                let s = if toc { rich_toc(r) } else { rich_doc(r) };
                let o = if r.one_in(3) { Opts::wild() } else { Opts::mild() };
                let mut b = encode(&s, &o, r).bytes;
                let l = mutate_bytes(&mut b, r, &[]);
                Case { label: format!("generated: {l}"), toc, bytes: b }
            }
            16 => {
                // structural damage
                let s = rich_doc(r);
                let n = object_count(&s);
                let d = damage(r, n);
                let mut b = encode_damaged(&s, &Opts::mild(), r, &d).bytes;
                if r.flip() {
                    mutate_bytes(&mut b, r, &[]);
                }
                Case { label: format!("structure damaged: {d:?}"), toc: false, bytes: b }
            }
            17 => {
                let mut s = rich_doc(r);
                let ids: Vec<EG> = s.objs().map(|o| o.id).collect();
                // reference properties rewired at random
                for o in s.objs_mut() {
                    for p in &mut o.props {
                        match &mut p.v {
                            PV::Oids(v) if r.one_in(4) => {
                                for x in v.iter_mut() {
                                    *x = *r.pick(&ids)
                                }
                            }
                            PV::Oid(x) if r.one_in(6) => *x = *r.pick(&ids),
                            _ => {}
                        }
                    }
                }
                Case { label: "references rewired".into(), toc: false, bytes: encode(&s, &Opts::mild(), r).bytes }
            }
            20..=23 => {
                let mut s = if r.one_in(12) { rich_toc(r) } else { rich_doc(r) };
                let toc = !s.spaces.iter().any(|s| s.revs.iter().any(|v| v.groups.iter().flatten().any(|o| o.jcid == 0x60007)));
                let l = extreme_values(&mut s, r);
                Case { label: l, toc, bytes: encode(&s, &Opts::canonical(), r).bytes }
            }
            18 => {
                let n = r.below(400);
                let mut b = r.bytes(n);
                if r.flip() {
                    let head = enc(&plain_section());
                    let k = r.below(head.len());
                    b.splice(0..0, head[..k].iter().copied());
                }
                Case { label: "random bytes".into(), toc: r.flip(), bytes: b }
            }
            _ => {
                let k = r.below(GRAPHS);
                let n = match r.below(4) {
                    0 => r.below(10),
                    1 => r.below(140),
                    2 => r.below(1000),
                    _ => r.below(8000),
                };
                graph(k, n, r).unwrap()
            }
        }
    })
}

pub fn damage(r: &mut Rng, n: usize) -> Damage {
    let k = r.below(n.max(1));
    let mut d = Damage::default();
    match r.below(14) {
        0 => d.drop_element = Some(r.below(10)),
        1 => d.element_type = Some((r.below(10), r.below(12) as u64)),
        2 => d.drop_root = Some(1 + r.below(2) as u32),
        3 => d.bad_role = true,
        4 => d.short_jcid = Some(k),
        5 => d.drop_decl = Some(k),
        6 => d.drop_data = Some(k),
        7 => d.fewer_oids = Some(k),
        8 => d.extra_cells = Some(k),
        9 => d.missing_cells = Some(k),
        10 => d.bad_base = true,
        11 => d.cyclic_base = true,
        12 => d.drop_partition = Some((k, *r.pick(&[1, 2, 4]))),
        _ => d.blob_id_missing = true,
    }
    d
}

// --- checks --------------------------------------------------------------------------------

use crate::px::{self, Lim, Res};
use crate::run::Out;
use crate::{dump, sys};
use std::io::Write as _;

/// A scratch directory of its own, removed on drop.
pub struct Scratch(pub std::path::PathBuf);
impl Scratch {
    pub fn new(tag: &str) -> Scratch {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let base = crate::run::verif().join("target").join("work").join("scratch");
        let d = base.join(format!("{tag}-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(&d).unwrap();
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// A writer that counts and forgets.
pub struct Sink(pub u64);
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len() as u64;
        Ok(())
    }
}

/// Parses the case through every entry point that applies and walks over the result.
fn run_case(out: &mut Out, c: &Case, lim: Lim) -> (&'static str, bool) {
    out.eval();
    out.step(&c.label);
    let mut panics = vec![];
    let res = px::section_lim(&c.bytes, "hostile.one", lim);
    let what = match &res {
        Res::Ok(s) => {
            let r = sys::caught(|| {
                let mut k = Sink(0);
                let _ = std::fmt::Write::write_fmt(&mut k, format_args!("{s:?}"));
                dump::dump_section(s).len()
            });
            if let Err(m) = r {
                panics.push(format!("reading the result: {m}"));
            }
            "parsed"
        }
        Res::Err(_) => "rejected",
        Res::Panic(m) => {
            panics.push(m.clone());
            "panicked"
        }
    };
    drop(res);
    if c.toc {
        // the notebook entry point works on files
        let d = Scratch::new("h");
        let p = d.0.join("x.onetoc2");
        std::fs::write(&p, &c.bytes).unwrap();
        match px::notebook_lim(&p, lim) {
            Res::Ok(n) => {
                let _ = dump::dump_notebook(&n);
                out.stat("notebooks parsed", 1);
            }
            Res::Err(_) => out.stat("notebooks rejected", 1),
            Res::Panic(m) => panics.push(m),
        }
    }
    for m in &panics {
        out.input = c.bytes.clone();
        out.violation(format!("{}: panic: {m}", c.label));
    }
    (what, panics.is_empty())
}

/// Depths of directories inside one another; the last one nearly fills a path name.
pub const CHAINS: &[usize] = &[1, 10, 63, 64, 65, 66, 100, 200, 500, 1000, 1900];

/// A notebook of section groups inside one another with a hostile section at the end, or of one
/// directory with a hostile table of contents and sections.
fn directories(out: &mut Out, r: &mut Rng, n: usize) {
    let d = Scratch::new("dirs");
    // the long ones take long to make
    let depth = if n < 2 * CHAINS.len() { CHAINS[n % CHAINS.len()] } else { *r.pick(&CHAINS[..8]) };
    let k = r.below(GRAPHS);
    let leaf = match graph(k, *r.pick(&[3usize, 30, 63, 64, 65, 120, 127, 128, 129]), r) {
        Some(c) if !c.toc && c.bytes.len() < 200_000 => c,
        _ => Case { label: "plain".into(), toc: false, bytes: bytes(&plain_section()) },
    };
    let home = std::env::current_dir().unwrap();
    std::env::set_current_dir(&d.0).unwrap();
    let inner = bytes(&toc(&["G"]));
    for _ in 0..depth {
        // by relative names: the absolute ones get long
        std::fs::write("x.onetoc2", &inner).unwrap();
        std::fs::create_dir("G").unwrap();
        std::env::set_current_dir("G").unwrap();
    }
    std::fs::write("x.onetoc2", bytes(&toc(&["a.one"]))).unwrap();
    std::fs::write("a.one", &leaf.bytes).unwrap();
    std::env::set_current_dir(home).unwrap();
    out.eval();
    out.step(&format!("{depth} section groups inside one another, {}", leaf.label));
    match px::notebook_lim(&d.0.join("x.onetoc2"), px::LIM) {
        Res::Ok(nb) => {
            out.stat("directory chains parsed", 1);
            out.stat_max("depth of directory chains parsed", depth as u64);
            let r = sys::caught(|| {
                let mut k = Sink(0);
                let _ = std::fmt::Write::write_fmt(&mut k, format_args!("{nb:?}"));
                dump::dump_notebook(&nb).len()
            });
            if let Err(m) = r {
                out.violation(format!("{depth} section groups: reading the result: {m}"));
            }
        }
        Res::Err(_) => {
            out.stat("directory chains rejected", 1);
            out.stat_max("depth of directory chains rejected", depth as u64);
        }
        Res::Panic(m) => out.violation(format!("{depth} section groups: panic: {m}")),
    }
    // taken apart from the top: removing it in one go would recurse
    let (g, t) = (d.0.join("G"), d.0.join("T"));
    while g.join("G").is_dir() {
        if std::fs::rename(g.join("G"), &t).is_err() || std::fs::remove_dir_all(&g).is_err() || std::fs::rename(&t, &g).is_err() {
            break;
        }
    }
}

/// C01: no panic, abort or stack overflow.
pub fn c01(out: &mut Out, n: u64) {
    let mut r = out.rng();
    if n % 40 == 7 {
        directories(out, &mut r, n as usize / 40);
    }
    let k = if n < catalogue_len() { 1 } else { 8 };
    for _ in 0..k {
        let c = case(n, &mut r);
        let (what, _) = run_case(out, &c, Lim { cpu: 60.0, heap: 6 << 30 });
        out.stat(what, 1);
        out.nontrivial_bytes(&c.bytes);
        out.stat("bytes parsed", c.bytes.len() as u64);
        if n % 97 == 0 {
            out.sample(|| format!("case {n}: {} ({} bytes): {what}", c.label, c.bytes.len()));
        }
    }
    if n == 0 {
        for (name, b) in samples() {
            let c = Case { label: format!("sample {name}"), toc: name.ends_with("onetoc2"), bytes: b };
            run_case(out, &c, px::LIM);
        }
    }
}

/// Keeps a case's bytes where a person can find them.
pub fn save(path: &std::path::Path, c: &Case) {
    if let Ok(mut f) = std::fs::File::create(path) {
        let _ = f.write_all(&c.bytes);
    }
}

pub fn unused() {
    let _ = content::last("");
}
