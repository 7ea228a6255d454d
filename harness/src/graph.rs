//! Abstract object graphs (what a file means) and their encoder (how a file says it).
use crate::bits::*;
use crate::rng::Rng;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum PV {
    Empty,
    Bool(bool),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    Bytes(Rc<Vec<u8>>),
    Oid(EG),
    Oids(Vec<EG>),
    Osid(Cell),
    Osids(Vec<Cell>),
    Ctx(EG),
    Ctxs(Vec<EG>),
    Sets(u32, Vec<Vec<Prop>>),
    Set(Vec<Prop>),
    /// illegal property type code, followed by raw bytes
    Raw(u8, Vec<u8>),
    /// Oids with a wrong declared count: references present, count written
    OidsLie(Vec<EG>, u32),
}

impl PV {
    pub fn ty(&self) -> u32 {
        match self {
            PV::Empty => 1,
            PV::Bool(_) => 2,
            PV::U8(_) => 3,
            PV::U16(_) => 4,
            PV::U32(_) => 5,
            PV::U64(_) => 6,
            PV::Bytes(_) => 7,
            PV::Oid(_) => 8,
            PV::Oids(_) | PV::OidsLie(..) => 9,
            PV::Osid(_) => 10,
            PV::Osids(_) => 11,
            PV::Ctx(_) => 12,
            PV::Ctxs(_) => 13,
            PV::Sets(..) => 16,
            PV::Set(_) => 17,
            PV::Raw(t, _) => *t as u32,
        }
    }
}

/// A property: the 26 bit id and its value; the wire type follows from the value.
#[derive(Clone, Debug, PartialEq)]
pub struct Prop {
    pub id: u32,
    pub v: PV,
}

pub fn prop(id: u32, v: PV) -> Prop {
    Prop { id: id & 0x3ffffff, v }
}

#[derive(Clone, Debug)]
pub struct Obj {
    pub id: EG,
    pub jcid: u32,
    pub props: Vec<Prop>,
    pub blob: Option<Rc<Vec<u8>>>,
}

impl Obj {
    pub fn get_mut(&mut self, id: u32) -> Option<&mut Prop> {
        let id = id & 0x3ffffff;
        self.props.iter_mut().find(|p| p.id == id)
    }
}

#[derive(Clone, Debug, Default)]
pub struct Rev {
    pub roots: Vec<(u32, EG)>,
    pub groups: Vec<Vec<Obj>>,
}

#[derive(Clone, Debug)]
pub struct Space {
    pub cell: Cell,
    /// newest first
    pub revs: Vec<Rev>,
}

impl Space {
    pub fn objs_mut(&mut self) -> impl Iterator<Item = &mut Obj> {
        self.revs.iter_mut().flat_map(|r| r.groups.iter_mut()).flatten()
    }
    pub fn objs(&self) -> impl Iterator<Item = &Obj> {
        self.revs.iter().flat_map(|r| r.groups.iter()).flatten()
    }
}

#[derive(Clone, Debug)]
pub struct Store {
    pub schema: G,
    /// spaces[0] is the data root
    pub spaces: Vec<Space>,
}

impl Store {
    pub fn objs_mut(&mut self) -> impl Iterator<Item = &mut Obj> {
        self.spaces.iter_mut().flat_map(|s| s.objs_mut())
    }
    pub fn objs(&self) -> impl Iterator<Item = &Obj> {
        self.spaces.iter().flat_map(|s| s.objs())
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum CidMode {
    /// every reference slot has its own compact id
    Unique,
    /// one compact id per referenced identity
    PerTarget,
    /// compact ids are shared by different targets, told apart by position
    Ambiguous,
    Mixed,
}

#[derive(Clone, Debug)]
pub struct Opts {
    /// percentage of places at which a non-canonical representation is chosen
    pub wild: u32,
    pub cid: CidMode,
    /// 0 = package format, 1 = revision-store format id with legacy version, 2 = wrapped package
    pub packaging: Option<u8>,
    pub shuffle_props: bool,
    pub shuffle_elements: bool,
    pub shuffle_decls: bool,
    /// unrelated elements, cells, groups, blobs
    pub noise: bool,
    /// data element fragments among the noise
    pub fragments: bool,
    pub trailing: bool,
    pub vary_lookup: bool,
    /// revision base references through mappings / directly / by identity
    pub meta_blocks: bool,
    pub file_identity: u64,
}

impl Opts {
    pub fn canonical() -> Opts {
        Opts {
            wild: 0,
            cid: CidMode::PerTarget,
            packaging: Some(0),
            shuffle_props: false,
            shuffle_elements: false,
            shuffle_decls: false,
            noise: false,
            fragments: false,
            trailing: false,
            vary_lookup: false,
            meta_blocks: false,
            file_identity: 1,
        }
    }
    pub fn mild() -> Opts {
        Opts {
            shuffle_props: true,
            cid: CidMode::Mixed,
            packaging: None,
            wild: 5,
            meta_blocks: true,
            ..Opts::canonical()
        }
    }
    pub fn wild() -> Opts {
        Opts {
            wild: 40,
            cid: CidMode::Mixed,
            packaging: None,
            shuffle_props: true,
            shuffle_elements: true,
            shuffle_decls: true,
            noise: true,
            fragments: true,
            trailing: true,
            vary_lookup: true,
            meta_blocks: true,
            file_identity: 2,
        }
    }
}

pub const SCHEMA_TOC: &str = "E4DBFD38-E5C7-408B-A8A1-0E7B421E1F5F";
pub const SCHEMA_SECTION: &str = "1F937CB4-B26F-445F-B9F8-17E20160E461";
const ROLE: &str = "4A3717F8-1C14-49E7-9526-81D942DE1741";
const FMT_PACKAGE: &str = "638DE92F-A6D4-4BC1-9A36-B3FC2511A5B7";
const FMT_REVSTORE: &str = "109ADD3F-911B-49F5-A5D0-1791EDC8AED8";

pub fn role(v: u32) -> EG {
    EG { g: guid(ROLE), v }
}

pub struct Encoded {
    pub bytes: Vec<u8>,
    pub marks: Vec<Mark>,
    /// ids of the elements that make up the file: (type, id, description)
    pub elems: Vec<ElemInfo>,
}

#[derive(Clone, Debug)]
pub struct ElemInfo {
    pub ty: u8,
    /// needed for parsing (as opposed to noise)
    pub needed: bool,
    pub off: usize,
    pub len: usize,
}

struct Elem {
    ty: u8,
    needed: bool,
    body: Box<dyn Fn(&mut W)>,
    id: EG,
    serial: Option<(G, u64)>,
}

struct Ids {
    g: G,
    n: u32,
    rng: Rng,
    wild: bool,
}
impl Ids {
    fn next(&mut self) -> EG {
        self.n += 1;
        if self.wild {
            let mut g = [0u8; 16];
            g.copy_from_slice(&self.rng.bytes(16));
            let v = match self.rng.below(5) {
                0 => self.rng.below(32) as u32,
                1 => self.rng.below(1024) as u32,
                2 => self.rng.below(1 << 17) as u32,
                _ => self.rng.u32(),
            };
            EG { g, v: v.max(1) }
        } else {
            EG { g: self.g, v: self.n }
        }
    }
}

/// Collects the references of a property list in wire order.
fn collect_refs(props: &[Prop], o: &mut Vec<EG>, s: &mut Vec<Cell>, c: &mut Vec<EG>) {
    for p in props {
        match &p.v {
            PV::Oid(e) => o.push(*e),
            PV::Oids(v) | PV::OidsLie(v, _) => o.extend(v),
            PV::Osid(e) => s.push(*e),
            PV::Osids(v) => s.extend(v),
            PV::Ctx(e) => c.push(*e),
            PV::Ctxs(v) => c.extend(v),
            PV::Sets(_, sets) => {
                for set in sets {
                    collect_refs(set, o, s, c)
                }
            }
            PV::Set(set) => collect_refs(set, o, s, c),
            _ => {}
        }
    }
}

fn write_props(out: &mut W, props: &[Prop]) {
    out.u16(props.len() as u16);
    for p in props {
        let b = match p.v {
            PV::Bool(true) => 1u32 << 31,
            _ => 0,
        };
        out.u32(p.id | (p.v.ty() << 26) | b);
    }
    for p in props {
        match &p.v {
            PV::Empty | PV::Bool(_) | PV::Oid(_) | PV::Osid(_) | PV::Ctx(_) => {}
            PV::U8(v) => out.u8(*v),
            PV::U16(v) => out.u16(*v),
            PV::U32(v) => out.u32(*v),
            PV::U64(v) => out.u64(*v),
            PV::Bytes(v) => {
                out.u32(v.len() as u32);
                out.raw(v);
            }
            PV::Oids(v) => out.u32(v.len() as u32),
            PV::OidsLie(_, n) => out.u32(*n),
            PV::Osids(v) => out.u32(v.len() as u32),
            PV::Ctxs(v) => out.u32(v.len() as u32),
            PV::Sets(id, sets) => {
                out.u32(sets.len() as u32);
                out.u32(*id);
                for s in sets {
                    write_props(out, s)
                }
            }
            PV::Set(s) => write_props(out, s),
            PV::Raw(_, b) => out.raw(b),
        }
    }
}

fn cid_of(i: usize) -> u32 {
    let i = i as u32;
    // n (8 bits) and guid index (24 bits)
    (i % 251) | (((i / 251) + 3) << 8)
}

fn assign_cids<T: PartialEq>(targets: &[T], mode: CidMode, rng: &mut Rng, base: usize) -> Vec<u32> {
    let mode = if mode == CidMode::Mixed {
        *rng.pick(&[CidMode::Unique, CidMode::PerTarget, CidMode::Ambiguous])
    } else {
        mode
    };
    (0..targets.len())
        .map(|i| match mode {
            CidMode::Unique | CidMode::Mixed => cid_of(base + i),
            CidMode::PerTarget if targets.len() < 400 => {
                let j = targets.iter().position(|t| *t == targets[i]).unwrap();
                cid_of(base + j)
            }
            CidMode::PerTarget => cid_of(base + i),
            CidMode::Ambiguous => cid_of(base + rng.below(targets.len().div_ceil(3).min(4))),
        })
        .collect()
}

pub struct ObjectParts {
    pub data: Vec<u8>,
    pub oids: Vec<EG>,
    pub cells: Vec<Cell>,
}

/// The property stream of an object with its reference tables.
fn encode_object(o: &Obj, os: EG, opts: &Opts, rng: &mut Rng, dmg: &Damage) -> ObjectParts {
    let mut props = o.props.clone();
    if opts.shuffle_props && !props.iter().any(|p| matches!(p.v, PV::Raw(..))) {
        rng.shuffle(&mut props);
    }
    let short = match dmg.short_refs {
        Some((id, p)) if id == o.id => Some(p),
        _ => None,
    };
    let unmapped = dmg.unmapped_space.filter(|u| u.0 == o.id).map(|u| u.1);
    if let Some(p) = short.or(unmapped)
        && let Some(i) = props.iter().position(|q| q.id == p)
    {
        // its references are the last ones
        let q = props.remove(i);
        props.push(q);
    }
    let (mut oids, mut osids, mut ctxs) = (vec![], vec![], vec![]);
    collect_refs(&props, &mut oids, &mut osids, &mut ctxs);
    if let Some(p) = short {
        match props.last().map(|q| (q.id == p, &q.v)) {
            Some((true, PV::Osid(_) | PV::Osids(_))) => drop(osids.pop()),
            _ => drop(oids.pop()),
        }
    }
    let wild = opts.wild > 0;
    let co = assign_cids(&oids, opts.cid, rng, 0);
    // contexts share the object table, so their compact ids must not make an object id ambiguous
    let cc = assign_cids(&ctxs, CidMode::Unique, rng, 1_000_000);
    let cs_base = if wild && rng.flip() { 0 } else { 500_000 };
    let cs = assign_cids(&osids, opts.cid, rng, cs_base);
    let mut w = W::new(0, rng.fork());
    let has_s = !osids.is_empty() || !ctxs.is_empty() || (wild && rng.one_in(4));
    let has_c = has_s && (!ctxs.is_empty() || (wild && rng.one_in(4)));
    w.u32(oids.len() as u32 | if has_s { 0 } else { 1 << 31 } | if wild && rng.one_in(8) { 1 << 30 } else { 0 });
    for c in &co {
        w.u32(*c);
    }
    if has_s {
        w.u32(osids.len() as u32 | if has_c { 1 << 30 } else { 0 } | if wild && rng.one_in(8) { 1 << 31 } else { 0 });
        for c in &cs {
            w.u32(*c);
        }
        if has_c {
            w.u32(ctxs.len() as u32 | if wild && rng.one_in(8) { 1 << 31 } else { 0 });
            for c in &cc {
                w.u32(*c);
            }
        }
    }
    write_props(&mut w, &props);
    if wild && rng.one_in(3) {
        // alignment padding after the property set
        let n = rng.below(8);
        w.raw(&vec![0; n]);
    }
    // contexts and object spaces may be interleaved in any way, each in its own order
    let mut cells: Vec<Cell> = vec![];
    let (mut i, mut j) = (0, 0);
    while i < ctxs.len() || j < osids.len() {
        let take_ctx = j >= osids.len() || (i < ctxs.len() && (!wild || rng.flip()));
        if take_ctx {
            cells.push((ctxs[i], os));
            i += 1;
        } else {
            cells.push(osids[j]);
            j += 1;
        }
    }
    if unmapped.is_some()
        && let Some(c) = cells.iter_mut().rev().find(|c| c.1 != os)
    {
        c.1 = os;
    }
    ObjectParts { data: w.out, oids, cells }
}

enum Decl {
    Meta(EG, u32),
    Data(EG, ObjectParts),
    Blob(EG, EG),
}

/// Writes one object group element's body.
fn write_group(w: &mut W, decls: &[Decl], metadata_block: bool) {
    w.hany(0x1d, true, 0);
    for d in decls {
        let at = w.pos();
        match d {
            Decl::Meta(id, _) => {
                w.hany(0x18, false, 24);
                w.exguid(*id);
                w.cu64(4, Mk::Info);
                w.cu64(4, Mk::Info);
                w.cu64(0, Mk::Info);
                w.cu64(0, Mk::Info);
            }
            Decl::Data(id, p) => {
                w.hany(0x18, false, 24);
                w.exguid(*id);
                w.cu64(1, Mk::Info);
                w.cu64(p.data.len() as u64, Mk::Info);
                w.cu64(p.oids.len() as u64, Mk::Info);
                w.cu64(p.cells.len() as u64, Mk::Info);
            }
            Decl::Blob(id, blob) => {
                w.hany(0x05, false, 40);
                w.exguid(*id);
                w.exguid(*blob);
                w.cu64(2, Mk::Info);
                w.cu64(0, Mk::Info);
                w.cu64(0, Mk::Info);
            }
        }
        w.mark(at, Mk::Child(0x18));
    }
    w.end8(0x1d);
    if metadata_block {
        w.h32(0x79, true, 0);
        for _ in decls {
            w.h32(0x78, false, 1);
            let f = w.rng.below(5) as u64;
            w.cu64(f, Mk::Freq);
        }
        w.end16(0x79);
    }
    w.hany(0x1e, true, 0);
    for d in decls {
        let at = w.pos();
        match d {
            Decl::Meta(_, jcid) => {
                w.hany(0x16, false, 7);
                w.exguids(&[]);
                w.cells(&[]);
                w.cu64(4, Mk::Len);
                w.u32(*jcid);
            }
            Decl::Data(_, p) => {
                w.hany(0x16, false, p.data.len());
                w.exguids(&p.oids);
                w.cells(&p.cells);
                w.cu64(p.data.len() as u64, Mk::Len);
                let off = w.pos();
                w.raw(&p.data);
                w.mark(off, Mk::ObjData);
            }
            Decl::Blob(_, blob) => {
                w.hany(0x1c, false, 20);
                w.exguids(&[]);
                w.cells(&[]);
                w.exguid(*blob);
            }
        }
        w.mark(at, Mk::Child(0x16));
    }
    w.end8(0x1e);
}

/// Deliberate structural damage that the encoder can apply.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Damage {
    pub drop_element: Option<usize>,
    pub element_type: Option<(usize, u64)>,
    pub drop_root: Option<u32>,
    pub bad_role: bool,
    pub short_jcid: Option<usize>,
    pub drop_decl: Option<usize>,
    pub drop_data: Option<usize>,
    pub fewer_oids: Option<usize>,
    pub extra_cells: Option<usize>,
    pub missing_cells: Option<usize>,
    /// base revision id that does not exist
    pub bad_base: bool,
    pub schema: Option<G>,
    /// base revision of the oldest revision refers to the newest one
    pub cyclic_base: bool,
    /// more oids in the references array than in the property stream
    pub more_refs: Option<usize>,
    pub drop_partition: Option<(usize, u8)>,
    pub blob_id_missing: bool,
    pub header_drop_prop: Option<u32>,
    /// the object's tables lack the last reference that the property counts
    pub short_refs: Option<(EG, u32)>,
    /// the last reference of a property to an object space names a context of its own space
    pub unmapped_space: Option<(EG, u32)>,
}

pub fn encode(store: &Store, opts: &Opts, rng: &mut Rng) -> Encoded {
    encode_damaged(store, opts, rng, &Damage::default())
}

pub fn encode_damaged(store: &Store, opts: &Opts, rng: &mut Rng, dmg: &Damage) -> Encoded {
    let wild = opts.wild > 0;
    let mut idg = [0u8; 16];
    idg.copy_from_slice(&rng.bytes(16));
    let mut ids = Ids { g: idg, n: 0, rng: rng.fork(), wild: opts.vary_lookup };
    let mut elems: Vec<Elem> = vec![];
    let mut serial_no = 0u64;
    let sg: G = rng.bytes(16).try_into().unwrap();
    let sg2: G = rng.bytes(16).try_into().unwrap();
    let mut last_no = 0u64;
    let mut new_serial = |rng: &mut Rng| {
        // the same number under another GUID is another serial number
        if wild && last_no > 0 && rng.flip() {
            let n = last_no;
            last_no = 0;
            return Some((sg2, n));
        }
        serial_no += 1;
        last_no = serial_no + if wild && rng.flip() { 1 << 40 } else { 0 };
        Some((sg, last_no))
    };

    // --- header cell -----------------------------------------------------------------------
    let header_os = ids.next();
    let header_cell: Cell = (EG { g: guid("84DEFAB9-AAA3-4A0D-A3A8-520C77AC7073"), v: 1 }, header_os);
    let fid: G = Rng::new(opts.file_identity).bytes(16).try_into().unwrap();
    let mut hprops = vec![
        prop(0x1C001D94, PV::Bytes(Rc::new(fid.to_vec()))),
        prop(0x1C001D95, PV::Bytes(Rc::new(fid.to_vec()))),
        prop(0x14001D93, PV::U32(rng.u32())),
    ];
    if rng.flip() {
        hprops.push(prop(0x14001D99, PV::U32(rng.u32())));
    }
    if let Some(i) = dmg.header_drop_prop {
        hprops.retain(|p| p.id != i & 0x3ffffff);
    }
    let header_obj = Obj { id: ids.next(), jcid: 0x00020001, props: hprops, blob: None };

    // --- spaces ----------------------------------------------------------------------------
    struct CellMap {
        cell: Cell,
        id: EG,
        serial: Option<(G, u64)>,
    }
    struct RevMap {
        id: EG,
        to: EG,
        serial: Option<(G, u64)>,
    }
    let mut cell_maps: Vec<CellMap> = vec![];
    let mut rev_maps: Vec<RevMap> = vec![];
    let mut manifest_no = 0usize;

    let hspace = Space {
        cell: header_cell,
        revs: vec![Rev { roots: vec![(1, header_obj.id)], groups: vec![vec![header_obj]] }],
    };
    let mut all: Vec<(&Space, bool)> = vec![(&hspace, true)];
    all.extend(store.spaces.iter().map(|s| (s, false)));
    let mut obj_no = 0usize;
    for (space, is_header) in all {
        // revision identities, newest first
        let n = space.revs.len();
        let rev_elem: Vec<EG> = (0..n).map(|_| ids.next()).collect();
        let rev_id: Vec<EG> = (0..n).map(|_| ids.next()).collect();
        // is this revision reachable by a revision mapping?
        let mapped: Vec<bool> = (0..n).map(|_| !opts.vary_lookup || rng.flip()).collect();
        for k in 0..n {
            if mapped[k] {
                rev_maps.push(RevMap { id: rev_id[k], to: rev_elem[k], serial: new_serial(rng) });
            } else if opts.noise && rng.one_in(3) {
                // a mapping that nothing refers to
                rev_maps.push(RevMap { id: ids.next(), to: rev_elem[k], serial: new_serial(rng) });
            }
        }
        let reach = |k: usize| if mapped[k] { rev_id[k] } else { rev_elem[k] };
        let top = reach(0);
        let mode = if opts.vary_lookup { rng.below(4) } else { 0 };
        let serial = new_serial(rng);
        match mode {
            0 | 1 => {
                let cm = ids.next();
                let at = elems.len();
                elems.push(Elem {
                    ty: 3,
                    needed: true,
                    id: cm,
                    serial: new_serial(rng),
                    body: Box::new(move |w| {
                        w.h16(0x0b, false, 20);
                        w.exguid(top);
                        w.end8(1);
                    }),
                });
                let _ = at;
                cell_maps.push(CellMap { cell: space.cell, id: cm, serial });
            }
            2 => cell_maps.push(CellMap { cell: space.cell, id: top, serial }),
            _ => {
                // found by the serial number only
                let serial = new_serial(rng);
                rev_maps.push(RevMap { id: ids.next(), to: rev_elem[0], serial });
                // mappings to something else whose serial numbers are equal in one half only
                if let (Some((g, n)), true) = (serial, rng.flip()) {
                    let other = rng.bytes(16).try_into().unwrap();
                    let to = rev_elem[rng.below(rev_elem.len())];
                    let to = if rng.flip() { to } else { ids.next() };
                    rev_maps.push(RevMap { id: ids.next(), to, serial: Some((other, n)) });
                    let to = ids.next();
                    rev_maps.push(RevMap { id: ids.next(), to, serial: Some((g, n ^ (1 << rng.range(44, 60)))) });
                }
                cell_maps.push(CellMap { cell: space.cell, id: ids.next(), serial });
            }
        }
        for (k, rev) in space.revs.iter().enumerate() {
            let base = if k + 1 < n {
                reach(k + 1)
            } else if dmg.bad_base && !is_header {
                ids.next()
            } else if dmg.cyclic_base && !is_header {
                reach(0)
            } else {
                NIL
            };
            let mut groups: Vec<EG> = vec![];
            for g in &rev.groups {
                let gid = ids.next();
                groups.push(gid);
                let mut decls: Vec<Decl> = vec![];
                let mut blobs: Vec<(EG, Rc<Vec<u8>>)> = vec![];
                let mut per_obj: Vec<Vec<Decl>> = vec![];
                for o in g {
                    let mut ds = vec![];
                    let mut parts = encode_object(o, space.cell.1, opts, rng, dmg);
                    if !is_header {
                        if dmg.fewer_oids == Some(obj_no) {
                            parts.oids.push(parts.oids.first().copied().unwrap_or(o.id));
                        }
                        if dmg.extra_cells == Some(obj_no) {
                            let c = (ids.next(), ids.next());
                            parts.cells.push(c);
                        }
                        if dmg.missing_cells == Some(obj_no) {
                            parts.cells.pop();
                        }
                    }
                    ds.push(Decl::Meta(o.id, o.jcid));
                    ds.push(Decl::Data(o.id, parts));
                    if let Some(b) = &o.blob {
                        let bid = ids.next();
                        if !dmg.blob_id_missing {
                            blobs.push((bid, b.clone()));
                        }
                        ds.push(Decl::Blob(o.id, bid));
                    }
                    if !is_header {
                        if let Some((n, p)) = dmg.drop_partition {
                            if n == obj_no {
                                ds.retain(|d| match d {
                                    Decl::Meta(..) => p != 4,
                                    Decl::Data(..) => p != 1,
                                    Decl::Blob(..) => p != 2,
                                });
                            }
                        }
                        obj_no += 1;
                    }
                    per_obj.push(ds);
                }
                if opts.shuffle_decls && !is_header {
                    // declarations of different objects in any order; the three partitions of
                    // one object in any order too
                    for ds in per_obj {
                        decls.extend(ds);
                    }
                    rng.shuffle(&mut decls);
                } else {
                    for ds in per_obj {
                        decls.extend(ds);
                    }
                }
                let hit = !is_header && !decls.is_empty();
                let short = dmg.short_jcid.is_some() && hit && decls.iter().any(|d| matches!(d, Decl::Meta(..)));
                let metadata = opts.meta_blocks && rng.flip();
                let drop_decl = dmg.drop_decl.is_some() && hit;
                let drop_data = dmg.drop_data.is_some() && hit;
                elems.push(Elem {
                    ty: 5,
                    needed: true,
                    id: gid,
                    serial: new_serial(rng),
                    body: Box::new(move |w| {
                        if drop_decl || drop_data || short {
                            write_group_damaged(w, &decls, drop_decl, drop_data, short);
                        } else {
                            write_group(w, &decls, metadata);
                        }
                        w.end8(1);
                    }),
                });
                for (id, b) in blobs {
                    elems.push(Elem {
                        ty: 10,
                        needed: true,
                        id,
                        serial: new_serial(rng),
                        body: Box::new(move |w| {
                            w.hany(0x02, false, b.len());
                            w.cu64(b.len() as u64, Mk::Len);
                            let off = w.pos();
                            w.raw(&b);
                            w.mark(off, Mk::Blob);
                            w.end8(1);
                        }),
                    });
                }
            }
            let mut roots: Vec<(EG, EG)> = rev.roots.iter().map(|(r, o)| (role(*r), *o)).collect();
            if dmg.bad_role && !is_header {
                let mut id = EG { g: guid(ROLE), v: *rng.pick(&[0, 5, 6, 9, 0x101, 0x0100_0001, 0xFFFF_FFFF]) };
                if rng.flip() {
                    // a known number in another name space
                    id = EG { g: guid(ROLE), v: rng.range(1, 5) as u32 };
                    let at = rng.below(16);
                    id.g[at] ^= 1 << rng.below(8);
                }
                roots.push((id, ids.next()));
            }
            let rid = rev_id[k];
            let interleave = wild && rng.flip();
            let shuffle_roots = wild;
            let rr = rng.fork();
            elems.push(Elem {
                ty: 4,
                needed: true,
                id: rev_elem[k],
                serial: new_serial(rng),
                body: Box::new(move |w| {
                    let mut rr = rr.clone();
                    w.h16(0x1a, false, 40);
                    w.exguid(rid);
                    w.exguid(base);
                    let mut items: Vec<(u16, EG, EG)> = roots.iter().map(|(a, b)| (0x0a, *a, *b)).collect();
                    let gs: Vec<(u16, EG, EG)> = groups.iter().map(|g| (0x19, *g, NIL)).collect();
                    if shuffle_roots {
                        rr.shuffle(&mut items);
                    }
                    if interleave {
                        let mut merged = vec![];
                        let (mut i, mut j) = (0, 0);
                        while i < items.len() || j < gs.len() {
                            if j >= gs.len() || (i < items.len() && rr.flip()) {
                                merged.push(items[i]);
                                i += 1;
                            } else {
                                merged.push(gs[j]);
                                j += 1;
                            }
                        }
                        items = merged;
                    } else {
                        items.extend(gs);
                    }
                    for (t, a, b) in &items {
                        let at = w.pos();
                        w.h16(*t, false, if *t == 0x0a { 40 } else { 20 });
                        w.exguid(*a);
                        if *t == 0x0a {
                            w.exguid(*b);
                        }
                        w.mark(at, Mk::Child(*t));
                    }
                    w.end8(1);
                }),
            });
            manifest_no += 1;
        }
    }
    let _ = manifest_no;

    // --- storage manifest -------------------------------------------------------------------
    let schema = dmg.schema.unwrap_or(store.schema);
    let mut roots = vec![
        (EG { g: guid("1A5A319C-C26B-41AA-B9C5-9BD8C44E07D4"), v: 1 }, header_cell),
        (EG { g: guid("84DEFAB9-AAA3-4A0D-A3A8-520C77AC7073"), v: 2 }, store.spaces[0].cell),
    ];
    if let Some(v) = dmg.drop_root {
        roots.retain(|r| r.0.v != v);
    }
    if opts.noise && rng.flip() {
        roots.push((ids.next(), header_cell));
        rng.shuffle(&mut roots);
    }
    let sm_id = ids.next();
    elems.push(Elem {
        ty: 2,
        needed: true,
        id: sm_id,
        serial: new_serial(rng),
        body: Box::new(move |w| {
            w.h16(0x0c, false, 16);
            w.raw(&schema);
            for (r, c) in &roots {
                let at = w.pos();
                w.h16(0x07, false, 60);
                w.exguid(*r);
                w.cell(*c);
                w.mark(at, Mk::Child(0x07));
            }
            w.end8(1);
        }),
    });

    // --- noise ------------------------------------------------------------------------------
    let mut extra_cells: Vec<CellMap> = vec![];
    if opts.noise {
        for _ in 0..rng.below(4) {
            match rng.below(if opts.fragments { 6 } else { 5 }) {
                0 => {
                    let b = { let n = rng.below(300); rng.bytes(n) };
                    elems.push(Elem {
                        ty: 10,
                        needed: false,
                        id: ids.next(),
                        serial: new_serial(rng),
                        body: Box::new(move |w| {
                            w.hany(0x02, false, b.len());
                            w.binary(&b);
                            w.end8(1);
                        }),
                    });
                }
                1 => {
                    // an object group nothing refers to, using identities of real objects
                    let some: Vec<Obj> = store.spaces[0].objs().take(2).cloned().collect();
                    let os = store.spaces[0].cell.1;
                    let mut decls = vec![];
                    for o in &some {
                        let mut o = o.clone();
                        o.props.clear();
                        o.blob = None;
                        decls.push(Decl::Meta(o.id, 0x00060007));
                        decls.push(Decl::Data(o.id, encode_object(&o, os, &Opts::canonical(), rng, dmg)));
                    }
                    elems.push(Elem {
                        ty: 5,
                        needed: false,
                        id: ids.next(),
                        serial: new_serial(rng),
                        body: Box::new(move |w| {
                            write_group(w, &decls, false);
                            w.end8(1);
                        }),
                    });
                }
                2 => {
                    // a revision manifest nothing refers to
                    let (a, b) = (ids.next(), ids.next());
                    let o = store.spaces[0].objs().next().map(|o| o.id).unwrap_or(NIL);
                    elems.push(Elem {
                        ty: 4,
                        needed: false,
                        id: a,
                        serial: new_serial(rng),
                        body: Box::new(move |w| {
                            w.h16(0x1a, false, 40);
                            w.exguid(b);
                            w.exguid(NIL);
                            w.h16(0x0a, false, 40);
                            w.exguid(role(1));
                            w.exguid(o);
                            w.end8(1);
                        }),
                    });
                }
                3 => {
                    // a cell without a revision: an empty object space
                    let cm = ids.next();
                    elems.push(Elem {
                        ty: 3,
                        needed: false,
                        id: cm,
                        serial: new_serial(rng),
                        body: Box::new(move |w| {
                            w.h16(0x0b, false, 20);
                            w.exguid(NIL);
                            w.end8(1);
                        }),
                    });
                    extra_cells.push(CellMap { cell: (ids.next(), ids.next()), id: cm, serial: None });
                }
                4 => {
                    // a cell mapping to nothing
                    extra_cells.push(CellMap { cell: (ids.next(), ids.next()), id: NIL, serial: None });
                }
                _ => {
                    let b = { let n = rng.below(100); rng.bytes(n) };
                    let x = ids.next();
                    let any = opts.wild;
                    let _ = any;
                    elems.push(Elem {
                        ty: 6,
                        needed: false,
                        id: ids.next(),
                        serial: new_serial(rng),
                        body: Box::new(move |w| {
                            w.hany(0x6a, false, b.len());
                            w.exguid(x);
                            w.cu64(b.len() as u64, Mk::Len);
                            w.cu64(0, Mk::Info);
                            w.cu64(b.len() as u64, Mk::Info);
                            w.raw(&b);
                            w.end8(1);
                        }),
                    });
                }
            }
        }
    }
    cell_maps.extend(extra_cells);

    // --- storage index ----------------------------------------------------------------------
    let si_id = ids.next();
    let si_serial = new_serial(rng);
    let sm_serial = new_serial(rng);
    let mut entries: Vec<(u16, Cell, EG, EG, Option<(G, u64)>)> = vec![(0x11, (NIL, NIL), sm_id, NIL, sm_serial)];
    entries.extend(cell_maps.iter().map(|c| (0x0e, c.cell, c.id, NIL, c.serial)));
    entries.extend(rev_maps.iter().map(|r| (0x0d, (NIL, NIL), r.id, r.to, r.serial)));
    if wild {
        rng.shuffle(&mut entries);
    }
    let entries = Rc::new(entries);
    let index_body = move |w: &mut W| {
        for (t, cell, a, b, s) in entries.iter() {
            let at = w.pos();
            w.h16(*t, false, 60);
            match t {
                0x11 => w.exguid(*a),
                0x0e => {
                    w.cell(*cell);
                    w.exguid(*a);
                }
                _ => {
                    w.exguid(*a);
                    w.exguid(*b);
                }
            }
            w.serial(*s);
            w.mark(at, Mk::Child(*t));
        }
        w.end8(1);
    };
    elems.insert(
        0,
        Elem { ty: 1, needed: true, id: si_id, serial: si_serial, body: Box::new(index_body) },
    );
    if opts.noise && rng.one_in(3) {
        // a second storage index, not the one the packaging names
        elems.push(Elem {
            ty: 1,
            needed: false,
            id: ids.next(),
            serial: None,
            body: Box::new(|w| w.end8(1)),
        });
    }
    if opts.shuffle_elements {
        rng.shuffle(&mut elems);
    }

    // --- packaging --------------------------------------------------------------------------
    let mut w = W::new(opts.wild, rng.fork());
    let file_type = if store.schema == guid(SCHEMA_TOC) {
        guid("43FF2FA1-EFD9-4C76-9EE2-10EA5722765F")
    } else {
        guid("7B5C52E4-D88C-4DA7-AEB1-5378D02996D3")
    };
    let fileg: G = rng.bytes(16).try_into().unwrap();
    let packaging = opts.packaging.unwrap_or_else(|| rng.below(3) as u8);
    w.raw(&file_type);
    w.raw(&fileg);
    let fmtmark = |w: &mut W, g: &str| {
        let off = w.pos();
        w.raw(&guid(g));
        w.mark(off, Mk::FormatGuid);
    };
    match packaging {
        0 => {
            if wild && rng.flip() {
                w.raw(&rng.bytes(16));
            } else {
                w.raw(&[0; 16]);
            }
            fmtmark(&mut w, FMT_PACKAGE);
        }
        1 => {
            w.raw(&fileg);
            fmtmark(&mut w, FMT_REVSTORE);
        }
        _ => {
            w.raw(&[0; 16]);
            fmtmark(&mut w, FMT_REVSTORE);
            for _ in 0..4 {
                let off = w.pos();
                let v = if rng.flip() { 0x2a } else { 0x1b };
                w.u32(v);
                w.mark(off, Mk::Version);
            }
            w.u64(rng.u64());
            w.u64(rng.u64());
            w.u32(rng.u32());
            w.u32(rng.u32());
            w.u64(rng.u64());
            w.u64(rng.u64());
            w.u32(rng.u32());
            for _ in 0..4 {
                w.u8(rng.u8());
            }
            w.raw(&rng.bytes(16));
            w.u32(rng.u32());
            w.u64(rng.u64());
            w.u32(rng.u32());
            // transaction log reference: everything up to its end is skipped
            let here = w.pos() + 12;
            let pad = match (wild, rng.below(12)) {
                (false, _) => 0,
                (true, 0) => rng.range(66000, 70000),
                _ => rng.below(600),
            };
            let end = (here + pad) as u64;
            let cb = match (wild, rng.below(3)) {
                (false, _) => 0,
                (true, 0) => end,
                _ => rng.below(here + pad + 1) as u64,
            };
            let off = w.pos();
            w.u64(end - cb);
            w.u32(cb as u32);
            w.mark(off, Mk::LogRef);
            w.raw(&rng.bytes(pad));
            w.raw(&file_type);
            w.raw(&fileg);
            w.raw(&fileg);
            w.raw(&guid(FMT_PACKAGE));
        }
    }
    let off = w.pos();
    w.u32(0);
    w.mark(off, Mk::Pad);
    w.h32(0x7a, true, 0);
    w.exguid(si_id);
    w.raw(&rng.bytes(16));
    w.h16(0x15, true, 1);
    let off = w.pos();
    w.u8(0);
    w.mark(off, Mk::Pad);
    let mut infos = vec![];
    for (i, e) in elems.iter().enumerate() {
        if dmg.drop_element == Some(i) {
            continue;
        }
        let off = w.pos();
        w.h16(0x01, true, 60);
        w.exguid(e.id);
        let no_serial = wild && w.rng.one_in(3);
        w.serial(if no_serial { None } else { e.serial });
        let ty = match dmg.element_type {
            Some((k, t)) if k == i => t,
            _ => e.ty as u64,
        };
        w.cu64(ty, Mk::ElemType);
        (e.body)(&mut w);
        w.mark(off, Mk::Element(e.ty));
        infos.push(ElemInfo { ty: e.ty, needed: e.needed, off, len: w.pos() - off });
    }
    w.end8(0x15);
    w.end16(0x7a);
    if opts.trailing && rng.flip() {
        let n = rng.below(200);
        let b = rng.bytes(n);
        w.raw(&b);
    }
    Encoded { bytes: w.out, marks: w.marks, elems: infos }
}

fn write_group_damaged(w: &mut W, decls: &[Decl], drop_decl: bool, drop_data: bool, short: bool) {
    // declaration list and data list written separately, so that one entry can be left out
    let mut tmp = W::new(0, w.rng.fork());
    write_group(&mut tmp, decls, false);
    // marks of children, in order: declarations then data
    let kids: Vec<Mark> = tmp.marks.iter().filter(|m| matches!(m.kind, Mk::Child(_))).copied().collect();
    let n = decls.len();
    let mut out = tmp.out;
    if short {
        // the first metadata entry gets a two byte JCID
        let k = decls.iter().position(|d| matches!(d, Decl::Meta(..))).unwrap();
        let m = kids[n + k];
        let jcid_at = m.off + m.len - 4;
        out.drain(jcid_at + 2..jcid_at + 4);
        // length is the compact integer just before: canonical one byte (4 << 1 | 1)
        out[jcid_at - 1] = (2 << 1) | 1;
    } else if drop_decl {
        let m = kids[n - 1];
        out.drain(m.off..m.off + m.len);
    } else if drop_data {
        let m = kids[2 * n - 1];
        out.drain(m.off..m.off + m.len);
    }
    w.raw(&out);
}

/// Number of objects in the non-header spaces.
pub fn object_count(s: &Store) -> usize {
    s.objs().count()
}
