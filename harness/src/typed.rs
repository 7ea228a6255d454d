//! C32: faults in mandatory and typed data. For each object the content of a drawn document
//! refers to: a mandatory property removed, a known property given another type or an undecodable
//! value, a content reference made dangling, the object given another type, a payload, root or
//! page removed. The parser must answer every one of them with an error.
use crate::bits::*;
use crate::docgen::{Cx, Profile, layer, rv};
use crate::graph::*;
use crate::hostile::Scratch;
use crate::px::{self, Res};
use crate::rng::Rng;
use crate::run::Out;
use std::collections::{BTreeMap, BTreeSet};

/// Known properties of the object types, by kind: b bool, 1 u8, 2 u16, 4 u32, 8 u64, v bytes,
/// s string, g guid, o object id, O object ids, S object space ids, P property sets, and with a
/// table: c charset, k colour reference, m media type, z page size, h note tag shape, i ink bias,
/// a layout alignment, d indents, p ink path, M math type, C math character. '!' marks what must
/// be there.
const SPEC: &[(u32, &str)] = &[
    (0x60007, "g!1C30 O1C20 8!1C65"),
    (0x20031, "4!1D82 4!348B s349B 41CBE"),
    (0x60008, "g!1C30 S1D63 O3442 81C65"),
    (0x60037, "O!1C1F"),
    (0x20030, "g!1C30 s!1CF3 41D82 4348B 41DFF 8!1C65"),
    (0x6000B, "41D7A s1D3C s1D75 O1C20 O1D5F b1C8E 41C01 41C02 41D0F 41D10 41C4E 41C4F 41C4C 41C4D z1C8B b1C92"),
    (0x6002C, "4!1D7A O!1C20 4!1C14 4!1C15 a1C3E a1C84"),
    (0x6000C, "4!1D7A O1C20 1!1C03 41C1C 41CDB 41CEC 41C1B b1CFF b1CBD 41CCB d!1C12 41C14 41C15 a1C3E a1C84 b1D0C b1CB5 b1CB2 b1CB4 b1CDE b1CF9 b1C00"),
    (0x60019, "4!1D7A O1C20 1!1C03"),
    (0x6000D, "4!1D09 4!1D7A O1C20 1!1C03 O1C1F O1C26 41CCB o!1D78 o!1D79 b1C34 b1D0C b1CB2 b1CB4"),
    (0x60012, "4!1D7A s1C52 41CB7 v!1C1A b1C04 b1C05 41C3B s1C0A 21C0B k1C0C"),
    (0x6000E, "4!1D7A b1C00 O1E13 v1E12 O3458 o!342C 4342E 4342F 43430 13477 s1C22 v3498 a1C3E a1C84 b1C87 b1C88 b1CB5 b1CB4 21CFE b3476 P3489 P3499"),
    (0x12004D, "c1D01 b1C04 b1C05 b1C06 b1C07 b1C08 b1C09 s1C0A 21C0B k1C0C k1C0D s348A s345A 13477 4342E 4342F 43430 41C3B b3401 b1E14 b1E19 b1E16 b1E22 43457"),
    (0x60022, "4!1D7A O!1C20 4!1D57 4!1D58 v1D7D v1D66 b1D5E a1C3E a1C84 P3489"),
    (0x60023, "41D7A O!1C20"),
    (0x60024, "41D7A O!1C20 41C1B d!1C12 41E26"),
    (0x60011, "41D7A o1C3F 41C1B 41C1C b1CBD 41C3B s1E58 a1C3E a1C84 s1DD7 43480 s1C22 21CFE 434CD 434CE s1E20 41C14 41C15 b1D13 P3489 O1C1F"),
    (0x80039, "s3424"),
    (0x8003A, "s3424"),
    (0x60058, "435F2 s!35F3"),
    (0x60035, "4!1D7A o1C3F 41C1B 41C1C b1CBD s1C22 21CFE a1C3E a1C84 o!1D9B s!1D9C s1D9D m1D24 434CD 434CE 41C14 41C15 P3489"),
    (0x80036, ""),
    (0x60014, "41D7A 41C14 41C15 o3415 41C46 41C47"),
    (0x2003B, "O!3416 v3418"),
    (0x20047, "p!340B i!341C 41C3B o!3409"),
    (0x120048, "b3411 13412 13413 13414 4!340C 4!340D 4340F v!340A"),
    (0x120043, "s!3468 4!3467 h!3464 k3465 k3466 2!3463"),
    (0x20001, "O1CF6 s1D6B 41CB9 41CBE"),
];
const TAG: &str = "o3488 4!346E 4346F 2!3470";
const MATH: &str = "M344F 43450 13451 13452 C3453 C3454 C3455";
const INK: &str = "41C27 41C28 4349E 4349F 434A0 434A1 434A2 434A3";
const INK_SPACE: &str = "4!1C27 4!1C28";

#[derive(Clone, Copy, Debug)]
struct K {
    kind: char,
    must: bool,
    id: u32,
}
fn spec(s: &str) -> Vec<K> {
    s.split_whitespace()
        .map(|t| {
            let kind = t.chars().next().unwrap();
            let must = t[1..].starts_with('!');
            let id = u32::from_str_radix(t[1..].trim_start_matches('!'), 16).unwrap();
            K { kind, must, id }
        })
        .collect()
}
fn spec_of(jcid: u32) -> Option<Vec<K>> {
    SPEC.iter().find(|s| s.0 == jcid).map(|s| spec(s.1))
}

/// Wire type and the property id that carries it.
fn ty(k: char) -> u32 {
    match k {
        'b' => 2,
        '1' | 'c' | 'i' => 3,
        '2' | 'h' | 'C' => 4,
        '4' | 'k' | 'm' | 'z' | 'a' | 'M' => 5,
        '8' => 6,
        'v' | 's' | 'g' | 'd' | 'p' => 7,
        'o' => 8,
        'O' => 9,
        'S' => 11,
        'P' => 16,
        _ => unreachable!(),
    }
}

fn get(ps: &[Prop], id: u32) -> Option<&Prop> {
    ps.iter().find(|p| p.id == id)
}
fn oids(ps: &[Prop], id: u32) -> Vec<EG> {
    match get(ps, id).map(|p| &p.v) {
        Some(PV::Oid(x)) => vec![*x],
        Some(PV::Oids(v)) => v.clone(),
        _ => vec![],
    }
}
fn flag(ps: &[Prop], id: u32) -> bool {
    matches!(get(ps, id).map(|p| &p.v), Some(PV::Bool(true)))
}

/// What an object is used as.
#[derive(Default, Debug)]
struct Use {
    /// all uses put the object where unknown but defined types are shown as unknown content
    tolerant: bool,
    /// defined types accepted in each of its places
    accepted: BTreeSet<u32>,
    seen: bool,
    /// its properties are looked at
    typed: bool,
}

struct Walk<'a> {
    objs: BTreeMap<EG, &'a Obj>,
    uses: BTreeMap<EG, Use>,
    /// content references: owner, property, position
    refs: Vec<(EG, u32, usize)>,
    /// references in nested sets: owner, property, set
    nested: Vec<(EG, u32, usize, &'static str)>,
}

const CONTENT: &[u32] = &[0x6000E, 0x60022, 0x60011, 0x60035, 0x60014];
const PAGE_CONTENT: &[u32] = &[0x6000C, 0x60011, 0x60035, 0x60014];

impl<'a> Walk<'a> {
    fn at(&mut self, id: EG, accepted: &[u32], tolerant: bool) {
        // what is shown as unknown content is not looked into
        let shown = self.objs.get(&id).is_some_and(|o| accepted.contains(&o.jcid));
        let first = !self.uses.contains_key(&id);
        let u = self.uses.entry(id).or_default();
        if !u.seen {
            u.tolerant = tolerant;
            u.accepted = accepted.iter().copied().collect();
            u.seen = true;
        } else {
            u.tolerant &= tolerant;
            let a: BTreeSet<u32> = accepted.iter().copied().collect();
            u.accepted = if tolerant { u.accepted.clone() } else { u.accepted.intersection(&a).copied().collect() };
        }
        u.typed |= shown;
        if first
            && shown
            && let Some(o) = self.objs.get(&id).copied() {
            self.inside(o);
        }
    }
    fn all(&mut self, o: &'a Obj, id: u32, accepted: &[u32], tolerant: bool) {
        for (i, t) in oids(&o.props, id).into_iter().enumerate() {
            self.refs.push((o.id, id, i));
            self.at(t, accepted, tolerant);
        }
    }
    fn first(&mut self, o: &'a Obj, id: u32, accepted: &[u32]) {
        if let Some(t) = oids(&o.props, id).first() {
            self.refs.push((o.id, id, 0));
            self.at(*t, accepted, false);
        }
    }
    fn tags(&mut self, o: &'a Obj) {
        if let Some(PV::Sets(_, sets)) = get(&o.props, 0x3489).map(|p| &p.v) {
            for (i, s) in sets.iter().enumerate() {
                self.nested.push((o.id, 0x3489, i, TAG));
                for t in oids(s, 0x3488) {
                    self.at(t, &[0x120043], false);
                }
            }
        }
    }
    fn inside(&mut self, o: &'a Obj) {
        match o.jcid {
            0x60007 => self.all(o, 0x1C20, &[0x60008], false),
            0x60037 => self.first(o, 0x1C1F, &[0x6000B]),
            0x6000B => {
                self.all(o, 0x1C20, PAGE_CONTENT, true);
                self.first(o, 0x1D5F, &[0x6002C]);
            }
            0x6002C => self.all(o, 0x1C20, &[0x6000C], false),
            0x6000C | 0x60019 => self.all(o, 0x1C20, &[0x6000D, 0x60019], false),
            0x6000D => {
                self.all(o, 0x1C20, &[0x6000D, 0x60019], false);
                self.all(o, 0x1C1F, CONTENT, true);
                self.all(o, 0x1C26, &[0x60012], false);
            }
            0x6000E => {
                self.all(o, 0x1E13, &[0x12004D], false);
                self.all(o, 0x342C, &[0x12004D], false);
                self.tags(o);
                self.runs(o);
            }
            0x60022 => {
                self.all(o, 0x1C20, &[0x60023], false);
                self.tags(o);
            }
            0x60023 => self.all(o, 0x1C20, &[0x60024], false),
            0x60024 => self.all(o, 0x1C20, &[0x6000D], false),
            0x60011 => {
                self.all(o, 0x1C3F, &[0x80039, 0x8003A], false);
                self.all(o, 0x1C1F, &[0x60058], false);
                self.tags(o);
            }
            0x60035 => {
                self.all(o, 0x1D9B, &[0x80036], false);
                self.tags(o);
            }
            0x60014 => self.all(o, 0x3415, &[0x2003B], false),
            0x2003B => self.all(o, 0x3416, &[0x20047], false),
            0x20047 => self.all(o, 0x3409, &[0x120048], false),
            0x20001 => {
                if get(&o.props, 0x1D6B).is_none() {
                    self.all(o, 0x1CF6, &[0x20001], false)
                }
            }
            _ => {}
        }
    }
    fn runs(&mut self, o: &'a Obj) {
        let Some(PV::Sets(_, sets)) = get(&o.props, 0x3499).map(|p| &p.v) else { return };
        let styles = oids(&o.props, 0x1E13);
        let data = oids(&o.props, 0x3458);
        let mut k = 0;
        for (i, st) in styles.iter().take(sets.len()).enumerate() {
            let Some(st) = self.objs.get(st).copied() else { return };
            if flag(&st.props, 0x3401) {
                self.nested.push((o.id, 0x3499, i, MATH));
            }
            if flag(&st.props, 0x1E22) {
                match get(&st.props, 0x3457).map(|p| &p.v) {
                    Some(PV::U32(0x20026)) => {
                        self.nested.push((o.id, 0x3499, i, INK_SPACE));
                        self.nested.push((o.id, 0x3499, i, INK));
                    }
                    Some(_) => self.nested.push((o.id, 0x3499, i, INK)),
                    None => {
                        self.nested.push((o.id, 0x3499, i, INK));
                        if let Some(t) = data.get(k) {
                            self.refs.push((o.id, 0x3458, k));
                            self.at(*t, &[0x2003B], false);
                        }
                        k += 1;
                    }
                }
            }
        }
    }
}

fn walk(s: &Store) -> Walk<'_> {
    let mut w = Walk { objs: BTreeMap::new(), uses: BTreeMap::new(), refs: vec![], nested: vec![] };
    for (i, sp) in s.spaces.iter().enumerate() {
        if i > 0 && !crate::faults::used_space(s, i) {
            continue;
        }
        for o in sp.objs() {
            w.objs.insert(o.id, o);
        }
        let toc = s.schema == guid(SCHEMA_TOC);
        for (role, id) in sp.revs.iter().flat_map(|r| &r.roots) {
            let a: &[u32] = match (toc, i, role) {
                (true, _, 1) => &[0x20001],
                (false, 0, 1) => &[0x60007],
                (false, 0, 2) => &[0x20031],
                (false, _, 1) => &[0x60037],
                (false, _, 2) => &[0x20030],
                _ => continue,
            };
            w.at(*id, a, false);
        }
    }
    w
}

#[derive(Clone, Debug)]
enum Mut {
    Remove(EG, u32),
    Retype(EG, K),
    Undecodable(EG, K),
    NestedRemove(EG, u32, usize, K),
    NestedRetype(EG, u32, usize, K),
    NestedUndecodable(EG, u32, usize, K),
    Dangle(EG, u32, usize),
    DangleNested(EG, u32, usize),
    BadType(EG, u32),
    NoBlob(EG),
    NoRoot(usize, u32),
    NoSpace(usize),
    EmptyList(EG, u32),
    NoDims(EG, bool),
    NoOrder(EG),
    OddObjectType(EG),
    /// the reference tables end before the references of a property do
    ShortRefs(EG, u32),
    /// a reference to an object space that the object's cell list does not resolve
    UnmappedSpace(EG),
}

fn wrong(k: char, r: &mut Rng, ids: &[EG], cells: &[Cell]) -> PV {
    loop {
        let v = match r.below(14) {
            0 => PV::Empty,
            1 => PV::Bool(r.flip()),
            2 => PV::U8(r.below(3) as u8),
            3 => PV::U16(r.below(3) as u16),
            4 => PV::U32(r.below(3) as u32),
            5 => PV::U64(r.below(3) as u64),
            6 => rv(r.bytes(16)),
            7 => PV::Oid(*r.pick(ids)),
            8 => PV::Oids(vec![*r.pick(ids)]),
            9 => PV::Osid(*r.pick(cells)),
            10 => PV::Osids(vec![*r.pick(cells)]),
            11 => PV::Oids(vec![]),
            12 => PV::Sets(0x1400_0001, vec![vec![]]),
            _ => PV::Set(vec![]),
        };
        if v.ty() != ty(k) {
            return v;
        }
    }
}

const BAD_UTF16: &[&[u16]] = &[&[0xD800], &[0x41, 0xDC00], &[0xDBFF, 0x41], &[0x41, 0xD834], &[0xDC00, 0xD800]];

fn undecodable(k: char, r: &mut Rng) -> Option<PV> {
    Some(match k {
        'c' => PV::U8(*r.pick(&[3u8, 76, 78, 127, 131, 133, 135, 137, 160, 164, 176, 179, 185, 187, 203, 205, 221, 223, 237, 239, 254])),
        'k' => PV::U32(r.u32() & 0xffffff | (1 + r.below(254) as u32) << 24),
        'm' => PV::U32(*r.pick(&[0u32, 3, 4, 256, 257, 0xffffffff])),
        'z' => PV::U32(*r.pick(&[16u32, 17, 255, 256, 0x10000, 0xffffffff])),
        'h' => PV::U16(*r.pick(&[144u16, 145, 255, 256, 1000, 0xffff])),
        'i' => PV::U8(*r.pick(&[3u8, 4, 128, 255])),
        'a' => PV::U32((r.u32() & 0x7ffffff8) | *r.pick(&[6u32, 7])),
        'g' => rv({
            let n = r.below(16);
            r.bytes(n)
        }),
        's' => {
            let mut u: Vec<u16> = vec![];
            for _ in 0..r.below(4) {
                u.push(0x61 + r.below(20) as u16);
            }
            u.extend(*r.pick(BAD_UTF16));
            rv(u.into_iter().flat_map(|c| c.to_le_bytes()).collect())
        }
        'd' => {
            let n = r.range(1, 6);
            let have = r.below(n);
            let mut b = vec![n as u8, 0, 0, 0];
            b.extend({
                let extra = r.below(4);
                r.bytes(have * 4 + extra)
            });
            if r.one_in(4) {
                let cut = r.below(4);
                b.truncate(cut);
            }
            rv(b)
        }
        'p' => {
            let n = r.range(1, 9);
            let mut b = vec![(n * 2) as u8];
            let have = r.below(n);
            for _ in 0..have {
                b.push(r.below(128) as u8);
            }
            match r.below(4) {
                0 => b = vec![],
                1 => b = [vec![2], vec![0xff; 11], vec![1]].concat(),
                _ => {}
            }
            rv(b)
        }
        'M' => PV::U32(*r.pick(&[1u32, 9, 34, 35, 100, 0x8fffffff, 0x90000001, 0xffffffff])),
        'C' => PV::U16(*r.pick(&[0xD800u16, 0xDBFF, 0xDC00, 0xDFFF])),
        _ => return None,
    })
}

/// Every fault this document offers, by class.
fn faults(s: &Store, w: &Walk) -> BTreeMap<String, Vec<Mut>> {
    let mut m: BTreeMap<String, Vec<Mut>> = BTreeMap::new();
    let mut put = |k: String, x: Mut| m.entry(k).or_default().push(x);
    let toc = s.schema == guid(SCHEMA_TOC);
    for (id, u) in &w.uses {
        let Some(o) = w.objs.get(id) else { continue };
        let j = o.jcid;
        put(format!("{j:x} undefined type"), Mut::BadType(*id, 0));
        if !u.tolerant {
            put(format!("{j:x} other type"), Mut::BadType(*id, 1));
        }
        if !u.typed {
            continue;
        }
        let Some(ks) = spec_of(j) else { continue };
        for k in ks {
            let has = get(&o.props, k.id).is_some();
            if k.must && has {
                put(format!("{j:x} removed {:x}", k.id), Mut::Remove(*id, k.id));
            }
            if k.id == 0x3498 && get(&o.props, 0x1C22).is_some() {
                continue;
            }
            let refs = match get(&o.props, k.id).map(|p| &p.v) {
                Some(PV::Oid(_)) => 1,
                Some(PV::Oids(v)) => v.len(),
                Some(PV::Osids(v)) => v.len(),
                _ => 0,
            };
            if refs > 0 && "oOS".contains(k.kind) {
                put(format!("{j:x} short table {:x}", k.id), Mut::ShortRefs(*id, k.id));
                if k.kind == 'S' {
                    put(format!("{j:x} unmapped space {:x}", k.id), Mut::UnmappedSpace(*id));
                }
            }
            put(format!("{j:x} retyped {:x}", k.id), Mut::Retype(*id, k));
            if undecodable(k.kind, &mut Rng::new(1)).is_some() {
                put(format!("{j:x} undecodable {:x}", k.id), Mut::Undecodable(*id, k));
            }
        }
        match j {
            0x80036 => put("payload of a file missing".into(), Mut::NoBlob(*id)),
            0x60037 => put("empty page manifest".into(), Mut::EmptyList(*id, 0x1C1F)),
            0x120048 => {
                put("no x dimension".into(), Mut::NoDims(*id, true));
                put("no y dimension".into(), Mut::NoDims(*id, false));
            }
            0x20001 if get(&o.props, 0x1D6B).is_some() => put("entry without order".into(), Mut::NoOrder(*id)),
            _ => {}
        }
    }
    for (o, p, i) in &w.refs {
        put(format!("{:x} dangling {p:x}", w.objs[o].jcid), Mut::Dangle(*o, *p, *i));
    }
    for (o, p, i, sp) in &w.nested {
        let ps = match get(&w.objs[o].props, *p).map(|p| &p.v) {
            Some(PV::Sets(_, s)) => &s[*i],
            _ => continue,
        };
        let j = w.objs[o].jcid;
        for k in spec(sp) {
            let has = get(ps, k.id).is_some();
            if k.must && has {
                put(format!("{j:x} set {p:x} removed {:x}", k.id), Mut::NestedRemove(*o, *p, *i, k));
            }
            put(format!("{j:x} set {p:x} retyped {:x}", k.id), Mut::NestedRetype(*o, *p, *i, k));
            if undecodable(k.kind, &mut Rng::new(1)).is_some() {
                put(format!("{j:x} set {p:x} undecodable {:x}", k.id), Mut::NestedUndecodable(*o, *p, *i, k));
            }
        }
        if !oids(ps, 0x3488).is_empty() && *p == 0x3489 {
            put(format!("{j:x} dangling tag definition"), Mut::DangleNested(*o, *p, *i));
            put(format!("{j:x} short table of a set {p:x}"), Mut::ShortRefs(*o, *p));
        }
        if *sp == INK {
            put("embedded object of an undefined type".into(), Mut::OddObjectType(oids(&w.objs[o].props, 0x1E13)[*i]));
        }
    }
    for i in 0..s.spaces.len() {
        if i > 0 && !crate::faults::used_space(s, i) {
            continue;
        }
        put(format!("root 1 of space {} missing", i.min(1)), Mut::NoRoot(i, 1));
        if !toc {
            put(format!("root 2 of space {} missing", i.min(1)), Mut::NoRoot(i, 2));
        }
        if i > 0 {
            put("space of a page missing".into(), Mut::NoSpace(i));
        }
    }
    m
}

fn set_prop(ps: &mut Vec<Prop>, id: u32, v: PV, r: &mut Rng) {
    if let Some(p) = ps.iter_mut().find(|p| p.id == id) {
        p.v = v;
    } else {
        let at = r.below(ps.len() + 1);
        ps.insert(at, prop(id, v));
    }
}

fn apply(s: &mut Store, m: &Mut, r: &mut Rng) -> bool {
    let ids: Vec<EG> = s.objs().map(|o| o.id).collect();
    let cells: Vec<Cell> = s.spaces.iter().map(|s| s.cell).collect();
    let mut fresh = EG { g: *b"nobody is there.", v: 7 };
    let like = *r.pick(&ids);
    match r.below(4) {
        0 => fresh = NIL,
        // half of an identity that exists
        1 => fresh.v = like.v,
        2 => fresh = EG { g: like.g, v: (1..).map(|d| like.v.wrapping_add(d)).find(|v| !ids.contains(&EG { g: like.g, v: *v })).unwrap() },
        _ => {}
    }
    let find = |s: &mut Store, id: EG, f: &mut dyn FnMut(&mut Obj)| {
        for o in s.objs_mut().filter(|o| o.id == id) {
            f(o)
        }
    };
    fn nested(o: &mut Obj, p: u32, i: usize) -> Option<&mut Vec<Prop>> {
        match o.props.iter_mut().find(|q| q.id == p).map(|q| &mut q.v) {
            Some(PV::Sets(_, s)) => s.get_mut(i),
            _ => None,
        }
    }
    let mut ok = true;
    match m {
        Mut::Remove(id, p) => find(s, *id, &mut |o| o.props.retain(|q| q.id != *p)),
        Mut::NoOrder(id) => find(s, *id, &mut |o| o.props.retain(|q| q.id != 0x1CB9)),
        Mut::Retype(id, k) => {
            let v = wrong(k.kind, r, &ids, &cells);
            find(s, *id, &mut |o| set_prop(&mut o.props, k.id, v.clone(), r))
        }
        Mut::Undecodable(id, k) => {
            let v = undecodable(k.kind, r).unwrap();
            find(s, *id, &mut |o| set_prop(&mut o.props, k.id, v.clone(), r))
        }
        Mut::NestedRemove(id, p, i, k) => find(s, *id, &mut |o| {
            if let Some(ps) = nested(o, *p, *i) {
                ps.retain(|q| q.id != k.id)
            }
        }),
        Mut::NestedRetype(id, p, i, k) => {
            let v = wrong(k.kind, r, &ids, &cells);
            find(s, *id, &mut |o| {
                if let Some(ps) = nested(o, *p, *i) {
                    set_prop(ps, k.id, v.clone(), r)
                }
            })
        }
        Mut::NestedUndecodable(id, p, i, k) => {
            let v = undecodable(k.kind, r).unwrap();
            find(s, *id, &mut |o| {
                if let Some(ps) = nested(o, *p, *i) {
                    set_prop(ps, k.id, v.clone(), r)
                }
            })
        }
        Mut::Dangle(id, p, i) => find(s, *id, &mut |o| match o.props.iter_mut().find(|q| q.id == *p).map(|q| &mut q.v) {
            Some(PV::Oid(x)) => *x = fresh,
            Some(PV::Oids(v)) => v[*i] = fresh,
            _ => {}
        }),
        Mut::DangleNested(id, p, i) => find(s, *id, &mut |o| {
            if let Some(ps) = nested(o, *p, *i) {
                for q in ps {
                    if q.id == 0x3488 {
                        q.v = PV::Oid(fresh);
                    }
                }
            }
        }),
        Mut::BadType(id, how) => {
            let w = walk(s);
            let u = &w.uses[id];
            let j = if *how == 0 {
                *r.pick(&[0x60099u32, 0x20099, 0x120099, 0x0, 0x6000F, 0x80035, 0x2000E, 0x7000D, 0x1060007])
            } else {
                let c: Vec<u32> = SPEC.iter().map(|s| s.0).chain([0x120001, 0x20044]).filter(|j| !u.accepted.contains(j)).collect();
                *r.pick(&c)
            };
            find(s, *id, &mut |o| o.jcid = j)
        }
        Mut::NoBlob(id) => find(s, *id, &mut |o| o.blob = None),
        Mut::NoRoot(i, role) => {
            for rev in &mut s.spaces[*i].revs {
                rev.roots.retain(|x| x.0 != *role);
            }
        }
        Mut::NoSpace(i) => {
            s.spaces.remove(*i);
        }
        Mut::EmptyList(id, p) => find(s, *id, &mut |o| set_prop(&mut o.props, *p, PV::Oids(vec![]), r)),
        Mut::NoDims(id, x) => {
            let d = guid(if *x { crate::docgen::DIM_X } else { crate::docgen::DIM_Y });
            find(s, *id, &mut |o| {
                if let Some(PV::Bytes(b)) = o.props.iter_mut().find(|q| q.id == 0x340A).map(|q| &mut q.v) {
                    let v: Vec<u8> = b.chunks_exact(32).filter(|c| c[..16] != d).flatten().copied().collect();
                    *b = std::rc::Rc::new(v);
                } else {
                    ok = false;
                }
            });
        }
        Mut::OddObjectType(id) => {
            let v = *r.pick(&[0x20025u32, 0x20028, 0, 1, 0x60026, 0xffffffff]);
            find(s, *id, &mut |o| set_prop(&mut o.props, 0x3457, PV::U32(v), r))
        }
        // faults of the tables of an object, made by the encoder
        Mut::ShortRefs(..) | Mut::UnmappedSpace(_) => {}
    }
    ok
}

enum Doc {
    Section,
    Toc(Scratch),
}
fn parse(d: &Doc, b: &[u8]) -> Result<String, String> {
    let r = match d {
        Doc::Section => match px::section(b, "x.one") {
            Res::Ok(s) => Ok(format!("{s:?}")),
            Res::Err(e) => Err(e),
            Res::Panic(e) => Err(format!("panic {e}")),
        },
        Doc::Toc(d) => {
            let p = d.0.join("Open Notebook.onetoc2");
            std::fs::write(&p, b).unwrap();
            match px::notebook(&p) {
                Res::Ok(s) => Ok(format!("{s:?}")),
                Res::Err(e) => Err(e),
                Res::Panic(e) => Err(format!("panic {e}")),
            }
        }
    };
    r
}

pub fn c32(out: &mut Out, n: u64) {
    let mut r = out.rng();
    let toc = n % 12 == 11;
    let s = if toc {
        crate::hostile::rich_toc(&mut r)
    } else {
        let mut p = Profile { budget: 14, present: *r.pick(&[15, 50, 85]), tags: 45, lists: 45, math: 30, embedded: 35, odd: 0, ..Profile::small() };
        p.w_content = [40, 15, 12, 10, 12, 3];
        p.w_page = [50, 15, 15, 15, 3];
        p.page_items = (1, 3);
        p.noise = *r.pick(&[0, 20]);
        Cx::new(r.fork(), p).section("s", "x.one")
    };
    let doc = if toc { Doc::Toc(Scratch::new("c32")) } else { Doc::Section };
    let w = walk(&s);
    out.stat(if toc { "tables of contents" } else { "sections" }, 1);
    out.stat("objects the content refers to", w.uses.len() as u64);
    let fs = faults(&s, &w);
    let mut keys: Vec<&String> = fs.keys().collect();
    r.shuffle(&mut keys);
    keys.truncate(if out.thorough() { 120 } else { 45 });
    // the intact document, in the representations the faulty ones get
    let mut tried = 0;
    for key in keys {
        let m = r.pick(&fs[key]).clone();
        let o = match r.below(4) {
            0 => Opts { packaging: None, ..Opts::canonical() },
            1 => Opts::mild(),
            _ => Opts::wild(),
        };
        let layers = r.one_in(4);
        let seed = r.u64();
        let enc = |m: Option<&Mut>| {
            let mut r = Rng::new(seed);
            let mut t = s.clone();
            if let Some(m) = m
                && !apply(&mut t, m, &mut r)
            {
                return None;
            }
            if layers {
                layer(&mut t, &mut r, 3);
            }
            let mut dmg = Damage::default();
            let mut o = o.clone();
            match m {
                Some(Mut::ShortRefs(id, p)) => dmg.short_refs = Some((*id, *p)),
                Some(Mut::UnmappedSpace(id)) => {
                    o.cid = CidMode::Unique;
                    dmg.unmapped_space = Some((*id, 0x1D63));
                }
                _ => {}
            }
            Some(encode_damaged(&t, &o, &mut r, &dmg).bytes)
        };
        if tried % 16 == 0 {
            out.step("the intact document");
            if let Err(e) = parse(&doc, &enc(None).unwrap()) {
                out.stat("well-formed files that were rejected", 1);
                out.sample(|| format!("rejected: {e}"));
                return;
            }
        }
        tried += 1;
        out.step(key);
        let Some(b) = enc(Some(&m)) else { continue };
        out.eval();
        out.nontrivial_bytes(&b);
        out.stat(&format!("faults: {}", class(key)), 1);
        out.stat(&format!("object type {}", key.split(' ').next().unwrap_or("")), 1);
        match parse(&doc, &b) {
            Err(e) => {
                out.sample(|| format!("{key} -> {e}"));
            }
            Ok(v) => {
                out.input = b;
                out.violation(format!("{key} ({m:?}{}): no error, but {}", if layers { ", several revisions" } else { "" }, &v.chars().take(60).collect::<String>()));
                return;
            }
        }
    }
}

fn class(k: &str) -> &str {
    for c in ["short table", "unmapped space", "undefined type", "other type", "removed", "retyped", "undecodable", "dangling"] {
        if k.contains(c) {
            return if k.contains(" set ") { "nested data" } else { c };
        }
    }
    k
}
