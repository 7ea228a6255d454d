//! Workload generator: draws a document, builds the object graph that stores it and, in the same
//! pass, the monitor's expectation: every observable value by its path. The expectation comes
//! from the drawn values only, never from the code under test.
use crate::bits::*;
use crate::dump::*;
use crate::graph::*;
use crate::rng::Rng;
use crate::tables;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub struct Profile {
    /// percent of optional properties present
    pub present: u32,
    pub series: (usize, usize),
    pub pages: (usize, usize),
    /// percent of pages with a title
    pub title: u32,
    /// page content weights: outline, image, file, ink, unknown
    pub w_page: [u32; 5],
    /// outline element content weights: text, table, image, file, ink, unknown
    pub w_content: [u32; 6],
    pub page_items: (usize, usize),
    pub items: (usize, usize),
    pub contents: (usize, usize),
    pub lists: u32,
    pub tags: u32,
    pub runs: usize,
    /// percent of paragraphs with math / ink run data
    pub math: u32,
    pub embedded: u32,
    pub depth: usize,
    /// percent of objects that get unknown properties
    pub noise: u32,
    /// percent of strings, blobs and vectors that are long
    pub big: u32,
    /// one blob of more than 16 MiB
    pub huge: bool,
    /// percent of strings with unusual characters or encodings
    pub odd: u32,
    pub ascii_text: u32,
    /// containers generated per page
    pub budget: i32,
    pub cell_depth: usize,
    pub table: (usize, usize),
    pub strokes: usize,
}

impl Profile {
    pub fn base() -> Profile {
        Profile {
            present: 50,
            series: (1, 2),
            pages: (1, 2),
            title: 60,
            w_page: [60, 12, 10, 10, 4],
            w_content: [60, 10, 10, 8, 8, 4],
            page_items: (0, 3),
            items: (0, 4),
            contents: (0, 2),
            lists: 25,
            tags: 25,
            runs: 4,
            math: 10,
            embedded: 10,
            depth: 4,
            noise: 25,
            big: 2,
            huge: false,
            odd: 25,
            ascii_text: 15,
            budget: 30,
            cell_depth: 2,
            table: (1, 3),
            strokes: 3,
        }
    }
    pub fn small() -> Profile {
        Profile { budget: 6, series: (1, 1), pages: (1, 1), items: (0, 2), big: 0, noise: 15, ..Profile::base() }
    }
}

pub type Ps = Vec<Prop>;

pub struct Cx {
    pub r: Rng,
    pub p: Profile,
    pub exp: Map,
    objs: Vec<Obj>,
    gid: G,
    n: u32,
    budget: i32,
    /// large things still allowed in this document
    bigs: u32,
    /// the object space being filled
    here: EG,
    styles: Vec<(EG, Vec<(&'static str, String)>)>,
    defs: Vec<(EG, Vec<(&'static str, String)>)>,
    authors: Vec<EG>,
    cells: Vec<Cell>,
    /// content of known types that are not supported
    pub unknowns: Vec<EG>,
    /// counts of generated things, for evidence
    pub stats: std::collections::BTreeMap<&'static str, u64>,
}

pub fn rv(v: Vec<u8>) -> PV {
    PV::Bytes(Rc::new(v))
}

pub fn utf16(s: &str) -> Vec<u8> {
    s.encode_utf16().flat_map(|u| u.to_le_bytes()).collect()
}

pub fn mb_uint(out: &mut Vec<u8>, mut v: u64) {
    loop {
        let b = (v & 0x7f) as u8;
        v >>= 7;
        if v == 0 {
            out.push(b);
            return;
        }
        out.push(b | 0x80);
    }
}
pub fn mb_path(v: &[i64]) -> Vec<u8> {
    let mut out = vec![];
    mb_uint(&mut out, (v.len() as u64) << 1);
    for x in v {
        mb_uint(&mut out, x.unsigned_abs() << 1 | (*x < 0) as u64);
    }
    out
}
pub const DIM_X: &str = "598a6a8f-52c0-4ba0-93af-af357411a561";
pub const DIM_Y: &str = "b53f9f75-04e0-4498-a7ee-c30dbb5a9011";

impl Cx {
    pub fn new(mut r: Rng, p: Profile) -> Cx {
        let gid: G = r.bytes(16).try_into().unwrap();
        Cx {
            r,
            p,
            exp: Map::new(),
            objs: vec![],
            gid,
            n: 0,
            budget: 0,
            bigs: 5,
            here: NIL,
            styles: vec![],
            defs: vec![],
            authors: vec![],
            cells: vec![],
            unknowns: vec![],
            stats: Default::default(),
        }
    }
    /// Something large now? Only a few times per document.
    fn big(&mut self) -> bool {
        let p = self.p.big;
        if self.bigs == 0 || !self.r.pct(p) {
            return false;
        }
        self.bigs -= 1;
        true
    }
    pub fn stat(&mut self, k: &'static str) {
        *self.stats.entry(k).or_insert(0) += 1;
    }
    pub fn put(&mut self, p: &str, n: &str, v: String) {
        let old = self.exp.insert(format!("{p}.{n}"), v);
        debug_assert!(old.is_none(), "{p}.{n} twice");
    }
    /// Now and then a list names an object a second time, which is then reported twice: the
    /// position of the earlier mention of what comes at position `i` of the list below `p`.
    fn again(&mut self, p: &str, i: usize) -> Option<usize> {
        if i == 0 || !self.r.one_in(40) {
            return None;
        }
        let j = self.r.below(i);
        let from = format!("{p}{j}.");
        // what holds outline contents has one place in the tree
        if matches!(self.exp.get(&format!("{from}kind")).map(|k| k.as_str()), Some("outline" | "table" | "group" | "element")) {
            return None;
        }
        let same: Vec<(String, String)> = self
            .exp
            .range(from.clone()..)
            .take_while(|(k, _)| k.starts_with(&from))
            .map(|(k, v)| (format!("{p}{i}.{}", &k[from.len()..]), v.clone()))
            .collect();
        if same.len() > 3000 {
            return None;
        }
        self.exp.extend(same);
        self.stat("objects mentioned twice in a list");
        Some(j)
    }
    pub fn id(&mut self) -> EG {
        self.n += 1;
        if self.r.one_in(6) {
            EG { g: self.r.bytes(16).try_into().unwrap(), v: 1 + self.r.u32() % 0xfffffffe }
        } else {
            EG { g: self.gid, v: self.n }
        }
    }
    fn have(&mut self) -> bool {
        let p = self.p.present;
        self.r.pct(p)
    }

    // --- values ---
    pub fn f32(&mut self) -> f32 {
        match self.r.below(12) {
            0 => 0.0,
            1 => -0.0,
            2 => 1.0,
            3 => f32::INFINITY,
            4 => f32::from_bits(0x7fc00000 | self.r.u32() & 0x3fffff),
            5 => f32::from_bits(self.r.u32() & 0x7fffff),
            6 | 7 => (self.r.u32() as i32 >> 12) as f32 / 8.0,
            _ => {
                let f = f32::from_bits(self.r.u32());
                if f.is_nan() { 0.5 } else { f }
            }
        }
    }
    /// a finite factor
    fn scale(&mut self) -> f32 {
        match self.r.below(6) {
            0 => 1.0,
            1 => 0.0,
            2 => -1.0,
            _ => (self.r.u32() as i32 >> 10) as f32 / 1024.0,
        }
    }
    pub fn u32(&mut self) -> u32 {
        match self.r.below(6) {
            0 => 0,
            1 => 1,
            2 => u32::MAX,
            3 => 0x8000_0000,
            4 => self.r.below(300) as u32,
            _ => self.r.u32(),
        }
    }
    fn u16(&mut self) -> u16 {
        match self.r.below(5) {
            0 => 0,
            1 => u16::MAX,
            2 => 0x100,
            _ => self.r.u32() as u16,
        }
    }
    fn u8(&mut self) -> u8 {
        match self.r.below(5) {
            0 => 0,
            1 => 255,
            2 => 128,
            _ => self.r.u8(),
        }
    }
    fn odd_char(&mut self) -> char {
        const ODD: &[u32] = &[
            0xFEFF, 0xFFFE, 0xFFFF, 0xFFFD, 0xFFFC, 0x200B, 0x200F, 0x202E, 0x0301, 0xE000, 0xF8FF, 0xD7FF, 0xFDD0,
            0x1F600, 0x10FFFF, 0x10000, 0x1FFFE, 0x80, 0x85, 0x9F, 0xA0, 0xFF, 0x7F, 0x1, 0x8, 0x9, 0xA, 0xB, 0xD,
            0x1B, 0x20, 0x2028, 0x2029, 0x3000, 0xAC00, 0x4E00, 0x1100, 0x0100, 0x2100, 0xDF, 0x0130, 0x1F1E6,
        ];
        if self.r.flip() {
            char::from_u32(*self.r.pick(ODD)).unwrap()
        } else {
            loop {
                let v = match self.r.below(4) {
                    0 => self.r.u32() & 0x7ff,
                    1 | 2 => self.r.u32() & 0xffff,
                    _ => self.r.u32() % 0x110000,
                };
                if v != 0 {
                    if let Some(c) = char::from_u32(v) {
                        return c;
                    }
                }
            }
        }
    }
    /// A text and its stored bytes.
    pub fn string(&mut self) -> (String, Vec<u8>) {
        let n = if self.big() {
            match self.r.below(4) {
                0 => self.r.range(250, 260),
                1 => self.r.range(4090, 4100),
                2 => self.r.range(32760, 32770),
                _ => self.r.range(65530, 70000),
            }
        } else {
            match self.r.below(8) {
                0 => 0,
                1 => 1,
                7 => self.r.range(20, 120),
                _ => self.r.range(1, 20),
            }
        };
        let odd = self.p.odd;
        let odd = self.r.pct(odd);
        let mut s = String::new();
        for _ in 0..n {
            let c = if odd && self.r.one_in(3) {
                self.odd_char()
            } else {
                (0x20 + self.r.below(0x5f) as u8) as char
            };
            s.push(c);
        }
        if self.r.one_in(10) {
            let t = *self.r.pick(&SNIPPETS);
            match self.r.below(3) {
                0 => s = t.to_string(),
                1 => s.insert_str(0, t),
                _ => s.push_str(t),
            }
            self.stat("text with a marker that means something elsewhere");
        }
        let mut b = utf16(&s);
        if odd || self.r.one_in(3) {
            match self.r.below(5) {
                0 => b.extend([0, 0]),
                1 => {
                    b.extend([0, 0]);
                    let n = self.r.below(20) * 2;
                    b.extend(self.r.bytes(n));
                    self.stat("text with content after NUL");
                }
                2 if b.is_empty() => b.extend([0, 0, 0x41, 0]),
                _ => {}
            }
        }
        (s, b)
    }
    fn plain(&mut self, n: usize) -> String {
        (0..n).map(|_| (b'a' + self.r.below(26) as u8) as char).collect()
    }

    // --- property helpers: every one draws, stores and records ---
    pub fn of(&mut self, ps: &mut Ps, id: u32, p: &str, n: &str) {
        let v = if self.have() { Some(self.f32()) } else { None };
        if let Some(f) = v {
            ps.push(prop(id, PV::U32(f.to_bits())));
        }
        self.put(p, n, s_of(v));
    }
    pub fn fdef(&mut self, ps: &mut Ps, id: u32, p: &str, n: &str, def: f32) {
        let v = if self.have() { Some(self.f32()) } else { None };
        if let Some(f) = v {
            ps.push(prop(id, PV::U32(f.to_bits())));
        }
        self.put(p, n, s_f(v.unwrap_or(def)));
    }
    pub fn mf(&mut self, ps: &mut Ps, id: u32, p: &str, n: &str) {
        let f = self.f32();
        ps.push(prop(id, PV::U32(f.to_bits())));
        self.put(p, n, s_f(f));
    }
    pub fn bdef(&mut self, ps: &mut Ps, id: u32, p: &str, n: &str, def: bool) {
        let v = if self.have() { Some(self.r.flip()) } else { None };
        if let Some(f) = v {
            ps.push(prop(id, PV::Bool(f)));
        }
        self.put(p, n, s_d(v.unwrap_or(def)));
    }
    pub fn ou32(&mut self, ps: &mut Ps, id: u32, p: &str, n: &str) {
        let v = if self.have() { Some(self.u32()) } else { None };
        if let Some(f) = v {
            ps.push(prop(id, PV::U32(f)));
        }
        self.put(p, n, s_od(v));
    }
    pub fn ou16(&mut self, ps: &mut Ps, id: u32, p: &str, n: &str) {
        let v = if self.have() { Some(self.u16()) } else { None };
        if let Some(f) = v {
            ps.push(prop(id, PV::U16(f)));
        }
        self.put(p, n, s_od(v));
    }
    pub fn ou8(&mut self, ps: &mut Ps, id: u32, p: &str, n: &str) {
        let v = if self.have() { Some(self.u8()) } else { None };
        if let Some(f) = v {
            ps.push(prop(id, PV::U8(f)));
        }
        self.put(p, n, s_od(v));
    }
    pub fn ostr(&mut self, ps: &mut Ps, id: u32, p: &str, n: &str) {
        let v = if self.have() { Some(self.string()) } else { None };
        let e = match &v {
            None => "-".to_string(),
            Some((s, _)) => s_str(s),
        };
        if let Some((_, b)) = v {
            ps.push(prop(id, rv(b)));
            self.stat("strings");
        }
        self.put(p, n, e);
    }
    pub fn mstr(&mut self, ps: &mut Ps, id: u32, p: &str, n: &str) {
        let (s, b) = self.string();
        ps.push(prop(id, rv(b)));
        self.stat("strings");
        self.put(p, n, s_str(&s));
    }
    fn align_value(&mut self) -> u32 {
        let v = self.r.below(6) as u32
            | (self.r.below(2) as u32) << 3
            | (self.r.below(2) as u32) << 16
            | (self.r.below(2) as u32) << 19;
        match self.r.below(6) {
            0 => v | self.r.u32() & 0x7ff6fff0, // reserved bits carry no meaning
            1 => v | 1 << 31,
            2 => self.r.u32() | 1 << 31,
            _ => v,
        }
    }
    pub fn align(&mut self, ps: &mut Ps, id: u32, p: &str, n: &str) {
        let v = if self.have() { Some(self.align_value()) } else { None };
        if let Some(f) = v {
            ps.push(prop(id, PV::U32(f)));
        }
        self.put(p, n, v.map(|v| tables::align(v).unwrap()).unwrap_or("-".into()));
    }
    pub fn aligns(&mut self, ps: &mut Ps, p: &str) {
        self.align(ps, 0x14001C3E, p, "al_parent");
        self.align(ps, 0x14001C84, p, "al_self");
    }
    fn cref_value(&mut self) -> u32 {
        if self.r.one_in(4) { self.r.u32() | 0xff000000 } else { self.r.u32() & 0xffffff }
    }
    pub fn cref(&mut self, ps: &mut Ps, id: u32, p: &str, n: &str) {
        let v = if self.have() { Some(self.cref_value()) } else { None };
        if let Some(f) = v {
            ps.push(prop(id, PV::U32(f)));
        }
        self.put(p, n, v.map(|v| tables::cref(v).unwrap()).unwrap_or("-".into()));
    }
    pub fn color(&mut self, ps: &mut Ps, id: u32, p: &str, n: &str) {
        let v = if self.have() { Some(self.r.u32()) } else { None };
        if let Some(f) = v {
            ps.push(prop(id, PV::U32(f)));
        }
        self.put(p, n, v.map(tables::color).unwrap_or("-".into()));
    }
    fn indents(&mut self) -> (Vec<f32>, Vec<u8>) {
        let n = if self.big() { self.r.range(200, 255) } else { self.r.below(6) };
        let v: Vec<f32> = (0..n).map(|_| self.f32()).collect();
        let mut b = vec![n as u8];
        let pad = self.r.bytes(3);
        b.extend(if self.r.flip() { vec![0; 3] } else { pad });
        for f in &v {
            b.extend(f.to_bits().to_le_bytes());
        }
        if self.r.one_in(4) {
            let n = self.r.below(8);
            let x = self.r.bytes(n);
            b.extend(x);
        }
        (v, b)
    }
    fn time(&mut self, ps: &mut Ps, id: u32) {
        let v = self.u32();
        ps.push(prop(id, PV::U32(v)));
    }
    fn modified(&mut self, ps: &mut Ps, mandatory: bool) {
        if mandatory || self.have() {
            self.time(ps, 0x14001D7A);
        }
    }
    /// Boolean properties that are stored but not reported.
    fn flags(&mut self, ps: &mut Ps, ids: &[u32]) {
        for id in ids {
            if self.r.one_in(6) {
                let v = self.r.flip();
                ps.push(prop(*id, PV::Bool(v)));
            }
        }
    }

    /// A value of a property that the parser does not know.
    fn unknown_value(&mut self, depth: usize) -> PV {
        let target = |s: &mut Cx| {
            if s.objs.is_empty() || s.r.one_in(3) {
                s.id()
            } else {
                let k = s.r.below(s.objs.len());
                s.objs[k].id
            }
        };
        match self.r.below(if depth < 3 { 17 } else { 15 }) {
            0 => PV::Empty,
            1 => PV::Bool(self.r.flip()),
            2 => PV::U8(self.u8()),
            3 => PV::U16(self.u16()),
            4 => PV::U32(self.u32()),
            5 => PV::U64(self.r.u64()),
            6 | 7 => {
                let n = self.r.below(40);
                rv(self.r.bytes(n))
            }
            8 => PV::Oid(target(self)),
            9 | 10 => {
                let n = self.r.below(5);
                PV::Oids((0..n).map(|_| target(self)).collect())
            }
            11 => PV::Osid(self.some_cell()),
            12 => {
                let n = self.r.below(4);
                PV::Osids((0..n).map(|_| self.some_cell()).collect())
            }
            13 => PV::Ctx(target(self)),
            14 => {
                let n = self.r.below(4);
                PV::Ctxs((0..n).map(|_| target(self)).collect())
            }
            15 => {
                let n = self.r.below(4);
                let id = 0x44000000 | self.r.u32() & 0xffff;
                PV::Sets(id, (0..n).map(|_| self.unknown_set(depth + 1)).collect())
            }
            _ => PV::Set(self.unknown_set(depth + 1)),
        }
    }
    fn some_cell(&mut self) -> Cell {
        if self.cells.is_empty() || self.r.one_in(4) {
            (self.id(), self.id())
        } else {
            let k = self.r.below(self.cells.len());
            let c = self.cells[k];
            // a reference to the space itself is a context reference
            if c.1 == self.here { (self.id(), self.id()) } else { c }
        }
    }
    fn unknown_set(&mut self, depth: usize) -> Ps {
        let mut ps = vec![];
        let n = self.r.below(4);
        self.unknown_into(&mut ps, n, depth);
        ps
    }
    fn unknown_into(&mut self, ps: &mut Ps, n: usize, depth: usize) {
        for _ in 0..n {
            let id = 0x4000 + self.r.u32() % (0x3ffffff - 0x4000);
            if ps.iter().any(|p| p.id == id) {
                continue;
            }
            let v = self.unknown_value(depth);
            ps.push(prop(id, v));
            self.stat("unknown properties");
        }
    }
    fn add_with(&mut self, id: EG, jcid: u32, mut ps: Ps, blob: Option<Rc<Vec<u8>>>) -> EG {
        let noise = self.p.noise;
        if self.r.pct(noise) {
            let n = if self.r.one_in(150) { self.r.range(250, 400) } else { self.r.range(1, 4) };
            self.unknown_into(&mut ps, n, 0);
            if self.r.one_in(60) {
                // sets within sets
                let mut v = self.unknown_value(3);
                let n = self.r.range(5, 48);
                for _ in 0..n {
                    let x = prop(0x4001 + self.r.u32() % 0xffff, v);
                    let mut set = vec![prop(0x4000, PV::U8(7)), x];
                    if self.r.flip() {
                        set.reverse();
                    }
                    v = if self.r.one_in(6) { PV::Sets(0x44000000, vec![vec![], set]) } else { PV::Set(set) };
                }
                let id = 0x3fffff1;
                if ps.iter().all(|p| p.id != id) {
                    ps.push(prop(id, v));
                    self.stat("deeply nested unknown property sets");
                }
            }
        }
        if self.r.pct(noise) && self.r.flip() {
            self.r.shuffle(&mut ps);
        }
        self.objs.push(Obj { id, jcid, props: ps, blob });
        if self.r.pct(noise) && self.r.one_in(4) {
            // an object nobody refers to; its type may be unknown
            let mut q = vec![];
            self.unknown_into(&mut q, 2, 0);
            let j = if self.r.flip() { 0x6000E } else { self.r.u32() };
            let b = if self.r.one_in(4) { Some(Rc::new(self.r.bytes(9))) } else { None };
            let id = self.id();
            self.objs.push(Obj { id, jcid: j, props: q, blob: b });
            self.stat("unreferenced objects");
        }
        id
    }
    fn add(&mut self, jcid: u32, ps: Ps) -> EG {
        let id = self.id();
        self.add_with(id, jcid, ps, None)
    }
    fn vecpath(&mut self, k: &str, p: &str, n: usize) {
        self.put(p, k, n.to_string());
    }

    // --- document parts ---
    fn style_object(&mut self, extra: Ps, drop_math: bool) -> (EG, Vec<(&'static str, String)>) {
        let mut ps = extra;
        let math_given = ps.iter().any(|p| p.id == 0x3401);
        let saved = std::mem::take(&mut self.exp);
        let q = "";
        let v = if self.have() { Some(self.r.pick(tables::CHARSET).0) } else { None };
        if let Some(v) = v {
            ps.push(prop(0x0C001D01, PV::U8(v)));
        }
        self.put(q, "charset", v.map(|v| tables::charset(v).unwrap().to_string()).unwrap_or("-".into()));
        for (id, n) in [
            (0x08001C04, "bold"),
            (0x08001C05, "italic"),
            (0x08001C06, "underline"),
            (0x08001C07, "strike"),
            (0x08001C08, "super"),
            (0x08001C09, "sub"),
            (0x08001E14, "link"),
        ] {
            self.bdef(&mut ps, id, q, n, false);
        }
        self.ostr(&mut ps, 0x1C001C0A, q, "font");
        self.ou16(&mut ps, 0x10001C0B, q, "size");
        self.cref(&mut ps, 0x14001C0C, q, "color");
        self.cref(&mut ps, 0x14001C0D, q, "highlight");
        self.ostr(&mut ps, 0x1C00348A, q, "next");
        self.ostr(&mut ps, 0x1C00345A, q, "id");
        let v = if self.have() { Some(self.r.below(5) as u8) } else { None };
        if let Some(v) = v {
            ps.push(prop(0x0C003477, PV::U8(v)));
        }
        self.put(q, "align", v.map(|v| tables::par_align(v).to_string()).unwrap_or("-".into()));
        self.of(&mut ps, 0x1400342E, q, "before");
        self.of(&mut ps, 0x1400342F, q, "after");
        self.of(&mut ps, 0x14003430, q, "exact");
        self.ou32(&mut ps, 0x14001C3B, q, "lang");
        if math_given {
            let m = matches!(ps.iter().find(|p| p.id == 0x3401).unwrap().v, PV::Bool(true));
            self.put(q, "math", s_d(m));
        } else if drop_math {
            self.put(q, "math", "false".into());
        } else {
            self.bdef(&mut ps, 0x08003401, q, "math", false);
        }
        self.flags(&mut ps, &[0x08001E19, 0x08001E16]);
        let lines = std::mem::replace(&mut self.exp, saved);
        let lines: Vec<(&'static str, String)> = lines
            .into_iter()
            .map(|(k, v)| {
                let k: &'static str = STYLE_KEYS.iter().find(|x| **x == &k[1..]).unwrap();
                (k, v)
            })
            .collect();
        let id = self.add(0x12004D, ps);
        (id, lines)
    }
    fn style(&mut self) -> usize {
        if self.styles.len() < 3 || self.r.one_in(3) {
            let s = self.style_object(vec![], true);
            self.styles.push(s);
            self.stat("styles");
            self.styles.len() - 1
        } else {
            self.r.below(self.styles.len())
        }
    }
    fn put_style(&mut self, p: &str, k: usize) {
        let lines = self.styles[k].1.clone();
        for (n, v) in lines {
            self.put(p, n, v);
        }
    }

    fn definition(&mut self) -> usize {
        if self.defs.len() < 2 || self.r.one_in(3) {
            let saved = std::mem::take(&mut self.exp);
            let mut ps = vec![];
            self.mstr(&mut ps, 0x1C003468, "", "label");
            let st = self.r.u32() & if self.r.one_in(4) { u32::MAX } else { 0xfff };
            ps.push(prop(0x14003467, PV::U32(st)));
            self.put("", "status", tables::prop_status(st));
            let sh = self.r.below(tables::SHAPE.len()) as u16;
            ps.push(prop(0x10003464, PV::U16(sh)));
            let name = tables::shape(sh).unwrap();
            self.put("", "shape", name.into());
            self.put("", "checkable", s_d(tables::checkable(name)));
            self.cref(&mut ps, 0x14003465, "", "highlight");
            self.cref(&mut ps, 0x14003466, "", "text_color");
            let a = match self.r.below(4) {
                0 => self.r.below(100) as u16,
                1 => self.u16(),
                _ => 100 + self.r.below(7) as u16,
            };
            ps.push(prop(0x10003463, PV::U16(a)));
            self.put("", "action", tables::action_type(a));
            let lines = std::mem::replace(&mut self.exp, saved);
            let lines = lines
                .into_iter()
                .map(|(k, v)| (*DEF_KEYS.iter().find(|x| **x == &k[1..]).unwrap(), v))
                .collect();
            let id = self.add(0x120043, ps);
            self.defs.push((id, lines));
            self.stat("tag definitions");
            self.defs.len() - 1
        } else {
            self.r.below(self.defs.len())
        }
    }
    fn tags(&mut self, ps: &mut Ps, p: &str) {
        let t = self.p.tags;
        if !self.r.pct(t) {
            self.put(p, "tags#", "0".into());
            return;
        }
        let n = if self.big() { self.r.range(60, 300) } else { self.r.below(5) };
        let mut sets = vec![];
        self.put(p, "tags#", n.to_string());
        for i in 0..n {
            let q = format!("{p}.t{i}");
            let mut s: Ps = vec![];
            self.time(&mut s, 0x1400346E);
            let c = if self.have() { Some(self.u32()) } else { None };
            if let Some(c) = c {
                s.push(prop(0x1400346F, PV::U32(c)));
            }
            self.put(&q, "completed_at", s_opt(c, |c| format!("Time({c})")));
            let st = self.r.u32() as u16 & if self.r.one_in(4) { 0xffff } else { 7 };
            s.push(prop(0x10003470, PV::U16(st)));
            self.put(&q, "status", tables::item_status(st));
            if self.r.pct(75) {
                let d = self.definition();
                s.push(prop(0x20003488, PV::Oid(self.defs[d].0)));
                self.put(&q, "def", "+".into());
                let lines = self.defs[d].1.clone();
                for (k, v) in lines {
                    self.put(&format!("{q}.def"), k, v);
                }
            } else {
                self.put(&q, "def", "-".into());
            }
            let noise = self.p.noise;
            if self.r.pct(noise) {
                self.unknown_into(&mut s, 2, 1);
            }
            if self.r.flip() {
                self.r.shuffle(&mut s);
            }
            sets.push(s);
            self.stat("note tags");
        }
        ps.push(prop(0x40003489, PV::Sets(0x44000811, sets)));
    }

    /// Returns the text that the paragraph reports.
    fn rich(&mut self, id: EG, p: &str) -> String {
        self.stat("paragraphs");
        let mut ps = vec![];
        self.put(p, "kind", "text".into());
        self.modified(&mut ps, true);
        let st = self.style();
        ps.push(prop(0x2000342C, PV::Oid(self.styles[st].0)));
        self.put_style(&format!("{p}.style"), st);

        // text
        let ascii = self.p.ascii_text;
        let mut text = if self.r.pct(ascii) {
            let n = self.r.below(30);
            let b: Vec<u8> = (0..n).map(|_| 1 + (self.r.u8() % 255)).collect();
            let s: String = b.iter().map(|b| *b as char).collect();
            ps.push(prop(0x1C003498, rv(b)));
            self.stat("latin-1 texts");
            s
        } else if self.r.pct(92) {
            let (s, b) = self.string();
            ps.push(prop(0x1C001C22, rv(b)));
            if self.r.one_in(8) {
                // both present: the Unicode text counts
                let n = self.r.below(9);
                let x = self.r.bytes(n);
                ps.push(prop(0x1C003498, rv(x)));
            }
            self.stat("strings");
            s
        } else {
            String::new()
        };

        // runs
        let max = self.p.runs;
        let n = if self.big() { self.r.range(250, 270) } else { self.r.below(max + 1) };
        let (math, emb) = (self.p.math, self.p.embedded);
        let mode = match self.r.below(100) as u32 {
            x if x < math => 1,
            x if x < math + emb => 2,
            _ => 0,
        };
        let mut run_ids = vec![];
        let mut sets: Vec<Ps> = vec![];
        let mut math_n = 0;
        let mut emb_n = 0;
        let mut data_refs: Vec<EG> = vec![];
        let nsets = if mode == 0 {
            0
        } else {
            match self.r.below(5) {
                0 => self.r.below(n + 1),
                1 => n + 1,
                _ => n,
            }
        };
        let no_refs = mode == 2 && self.r.one_in(8);
        let mixed = mode == 2 && self.r.one_in(4);
        for i in 0..n {
            let q = format!("{p}.r{i}");
            match mode {
                1 => {
                    let is_math = self.r.pct(65);
                    let mut e = vec![];
                    if is_math || self.r.flip() {
                        e.push(prop(0x08003401, PV::Bool(is_math)));
                    }
                    let (sid, lines) = self.style_object(e, true);
                    run_ids.push(sid);
                    for (k, v) in lines {
                        self.put(&q, k, v);
                    }
                    if i < nsets {
                        let mut s = vec![];
                        if is_math {
                            let z = format!("{p}.mo{math_n}");
                            math_n += 1;
                            self.math(&mut s, &z);
                        } else if self.r.flip() {
                            self.unknown_into(&mut s, 2, 1);
                        }
                        sets.push(s);
                    }
                }
                2 => {
                    // 0 = plain run, 1 = ink, 2 = space, 3 = line break
                    let kind = self.r.weighted(&[25, 40, 20, 15]);
                    let mut e = vec![];
                    if kind > 0 {
                        e.push(prop(0x08001E22, PV::Bool(true)));
                    } else if self.r.flip() {
                        e.push(prop(0x08001E22, PV::Bool(false)));
                    }
                    match kind {
                        2 => e.push(prop(0x14003457, PV::U32(0x20026))),
                        3 => e.push(prop(0x14003457, PV::U32(0x20027))),
                        _ => {}
                    }
                    // a run can be formatted as math as well
                    let is_math = mixed && self.r.pct(40);
                    if is_math {
                        e.push(prop(0x08003401, PV::Bool(true)));
                    }
                    let (sid, lines) = self.style_object(e, true);
                    run_ids.push(sid);
                    for (k, v) in lines {
                        self.put(&q, k, v);
                    }
                    if i < nsets {
                        let mut s = vec![];
                        let z = format!("{p}.eo{emb_n}");
                        match kind {
                            1 => {
                                if !no_refs {
                                    emb_n += 1;
                                    self.put(&z, "kind", "ink".into());
                                    let d = self.embedded_ink(&mut s, &z);
                                    data_refs.push(d);
                                }
                            }
                            2 => {
                                emb_n += 1;
                                self.put(&z, "kind", "space".into());
                                self.mf(&mut s, 0x14001C27, &z, "w");
                                self.mf(&mut s, 0x14001C28, &z, "h");
                            }
                            3 => {
                                emb_n += 1;
                                self.put(&z, "kind", "break".into());
                            }
                            _ => {}
                        }
                        if is_math {
                            let z = format!("{p}.mo{math_n}");
                            math_n += 1;
                            self.math(&mut s, &z);
                            self.stat("embedded objects and math in one text");
                        }
                        let noise = self.p.noise;
                        if self.r.pct(noise) {
                            self.unknown_into(&mut s, 2, 1);
                        }
                        sets.push(s);
                    }
                }
                _ => {
                    let k = self.style();
                    run_ids.push(self.styles[k].0);
                    self.put_style(&q, k);
                }
            }
        }
        while sets.len() < nsets {
            let mut s = vec![];
            self.unknown_into(&mut s, 1, 1);
            sets.push(s);
        }
        self.put(p, "runs#", n.to_string());
        if n > 0 || self.r.flip() {
            ps.push(prop(0x24001E13, PV::Oids(run_ids)));
        }
        if mode != 0 {
            let set_id = *self.r.pick(&[0x44003499u32, 0x44000811, 0x44000000]);
            ps.push(prop(0x40003499, PV::Sets(set_id, sets)));
        }
        if !data_refs.is_empty() || (mode != 0 && self.r.one_in(6)) {
            ps.push(prop(0x24003458, PV::Oids(data_refs)));
        }
        self.put(p, "math#", math_n.to_string());
        self.put(p, "embedded#", emb_n.to_string());
        if emb_n > 0 {
            text = String::new();
        }
        self.put(p, "text", s_str(&text));
        let ix: Vec<u32> = if n > 1 && self.r.pct(80) {
            (0..n - 1).map(|_| self.u32()).collect()
        } else {
            let k = self.r.below(4);
            (0..k).map(|_| self.u32()).collect()
        };
        if !ix.is_empty() || self.r.flip() {
            let b: Vec<u8> = ix.iter().flat_map(|v| v.to_le_bytes()).collect();
            ps.push(prop(0x1C001E12, rv(b)));
        }
        self.put(p, "run_ix", s_vecu32(&ix));

        self.fdef(&mut ps, 0x1400342E, p, "before", 0.0);
        self.fdef(&mut ps, 0x1400342F, p, "after", 0.0);
        self.of(&mut ps, 0x14003430, p, "exact");
        let v = if self.have() { Some(self.r.below(5) as u8) } else { None };
        if let Some(v) = v {
            ps.push(prop(0x0C003477, PV::U8(v)));
        }
        self.put(p, "align", tables::par_align(v.unwrap_or(0)).into());
        self.aligns(&mut ps, p);
        self.tags(&mut ps, p);
        self.flags(&mut ps, &[0x08001C00, 0x08001C87, 0x08001C88, 0x08001CB5, 0x08001CB4, 0x08003476]);
        if self.r.one_in(4) {
            let v = self.u16();
            ps.push(prop(0x10001CFE, PV::U16(v)));
        }
        self.add_with(id, 0x6000E, ps, None);
        text
    }
    fn math(&mut self, s: &mut Ps, p: &str) {
        self.stat("math objects");
        let t = if self.r.pct(85) { Some(*self.r.pick(tables::MATH)) } else { None };
        if let Some(t) = t {
            s.push(prop(0x1400344F, PV::U32(t.0)));
        }
        self.put(p, "type", t.map(|t| t.1).unwrap_or("SimpleText").into());
        let a = if self.have() { Some(self.u32()) } else { None };
        if let Some(a) = a {
            s.push(prop(0x14003450, PV::U32(a)));
        }
        self.put(p, "args", a.unwrap_or(0).to_string());
        self.ou8(s, 0x0C003451, p, "col");
        self.ou8(s, 0x0C003452, p, "align");
        for (id, n) in [(0x10003453, "char"), (0x10003454, "char1"), (0x10003455, "char2")] {
            let c = if self.have() {
                Some(loop {
                    let u = self.r.u32() as u16 & if self.r.flip() { 0xff } else { 0xffff };
                    if !(0xd800..0xe000).contains(&u) {
                        break u;
                    }
                })
            } else {
                None
            };
            if let Some(c) = c {
                s.push(prop(id, PV::U16(c)));
            }
            self.put(p, n, s_opt(c, |c| s_d(char::from_u32(c as u32).unwrap())));
        }
        let noise = self.p.noise;
        if self.r.pct(noise) {
            self.unknown_into(s, 2, 1);
        }
        if self.r.flip() {
            self.r.shuffle(s);
        }
    }
    fn bbox_lines(&mut self, p: &str, n: &str, v: Option<(f32, f32, f32, f32)>) {
        self.put(
            p,
            n,
            s_opt(v, |b| format!("x={} y={} w={} h={}", s_f(b.0), s_f(b.1), s_f(b.2), s_f(b.3))),
        );
        if let Some(b) = v {
            self.put(
                p,
                &format!("{n}x2"),
                format!("x={} y={} w={} h={}", s_f(b.0 * 2.0), s_f(b.1 * 2.0), s_f(b.2 * 2.0), s_f(b.3 * 2.0)),
            );
        }
    }
    fn finite(&mut self) -> f32 {
        loop {
            let f = self.f32();
            if f.is_finite() {
                return f;
            }
        }
    }
    /// The run data of an embedded ink object; returns the ink data id.
    fn embedded_ink(&mut self, s: &mut Ps, p: &str) -> EG {
        self.stat("embedded ink");
        let mut v = [None; 4];
        let all = self.r.flip();
        for (i, id) in [0x1400349Eu32, 0x1400349F, 0x140034A0, 0x140034A1].into_iter().enumerate() {
            if all || self.r.flip() {
                let f = self.finite();
                v[i] = Some(f);
                s.push(prop(id, PV::U32(f.to_bits())));
            }
        }
        let b = match v {
            [Some(x), Some(y), Some(w), Some(h)] => Some((x, y, w, h)),
            _ => None,
        };
        self.bbox_lines(p, "box", b);
        let q = format!("{p}.ink");
        self.put(&q, "kind", "ink".into());
        self.of(s, 0x140034A2, &q, "off_h");
        self.of(s, 0x140034A3, &q, "off_v");
        self.ink_data(&q, 1.0, 1.0)
    }
    fn ink_data(&mut self, p: &str, sx: f32, sy: f32) -> EG {
        let n = { let m = self.p.strokes; self.r.below(m + 1) };
        let mut ids = vec![];
        self.put(p, "strokes#", n.to_string());
        for i in 0..n {
            let id = self.stroke(&format!("{p}.k{i}"), sx, sy);
            ids.push(id);
        }
        let mut ps = vec![prop(0x24003416, PV::Oids(ids))];
        let b = if self.r.flip() {
            let v: Vec<u32> = (0..4).map(|_| self.r.u32() >> 8).collect();
            ps.push(prop(0x1C003418, rv(v.iter().flat_map(|x| x.to_le_bytes()).collect())));
            let f = |i: usize| v[i] as f32;
            Some((f(0) * sx, f(1) * sy, (f(2) - f(0)) * sx, (f(3) - f(1)) * sy))
        } else {
            None
        };
        self.bbox_lines(p, "bbox", b);
        self.add(0x2003B, ps)
    }
    fn stroke(&mut self, p: &str, sx: f32, sy: f32) -> EG {
        self.stat("strokes");
        let ndim = self.r.range(2, 5);
        let mut dims: Vec<G> = vec![guid(DIM_X), guid(DIM_Y)];
        while dims.len() < ndim {
            dims.push(self.r.bytes(16).try_into().unwrap());
        }
        self.r.shuffle(&mut dims);
        let mut db = vec![];
        for d in &dims {
            db.extend_from_slice(d);
            let x = self.r.bytes(16);
            db.extend(x);
        }
        let k = if self.big() { self.r.range(250, 2000) } else { self.r.below(8) };
        let wide = self.r.flip();
        let path: Vec<i64> = (0..k * ndim)
            .map(|_| {
                let m = if wide { self.r.u64() >> self.r.range(1, 60) } else { self.r.below(5000) as u64 } as i64;
                if self.r.flip() { -m } else { m }
            })
            .collect();
        let at = |g: &str| dims.iter().position(|d| *d == guid(g)).unwrap() * k;
        let (ox, oy) = (at(DIM_X), at(DIM_Y));
        let x: Vec<f32> = path[ox..ox + k].iter().map(|v| sx * *v as f32).collect();
        let y: Vec<f32> = path[oy..oy + k].iter().map(|v| sy * *v as f32).collect();
        self.put(p, "x", s_vecf(&x));
        self.put(p, "y", s_vecf(&y));
        let mut ps = vec![prop(0x1C00340A, rv(db))];
        self.ou8(&mut ps, 0x0C003412, p, "pen");
        self.ou8(&mut ps, 0x0C003414, p, "transparency");
        self.ou32(&mut ps, 0x1400340F, p, "color");
        self.mf(&mut ps, 0x1400340C, p, "h");
        self.mf(&mut ps, 0x1400340D, p, "w");
        self.flags(&mut ps, &[0x0800340E, 0x08003410, 0x08003411]);
        if self.r.one_in(3) {
            let v = self.u8();
            ps.push(prop(0x0C003413, PV::U8(v)));
        }
        let props = self.add(0x120048, ps);
        let mut ps = vec![
            prop(0x1C00340B, rv(mb_path(&path))),
            prop(0x0C00341C, PV::U8(self.r.below(3) as u8)),
            prop(0x20003409, PV::Oid(props)),
        ];
        if self.r.one_in(3) {
            self.time(&mut ps, 0x14001C3B);
        }
        self.add(0x20047, ps)
    }
    fn ink(&mut self, id: EG, p: &str) {
        self.stat("ink");
        let mut ps = vec![];
        self.put(p, "kind", "ink".into());
        self.of(&mut ps, 0x14001C14, p, "off_h");
        self.of(&mut ps, 0x14001C15, p, "off_v");
        self.modified(&mut ps, false);
        let mut sc = [1.0f32; 2];
        for (i, id) in [0x14001C46u32, 0x14001C47].into_iter().enumerate() {
            if self.have() {
                sc[i] = self.scale();
                ps.push(prop(id, PV::U32(sc[i].to_bits())));
            }
        }
        if self.r.pct(90) {
            let d = self.ink_data(p, sc[0], sc[1]);
            ps.push(prop(0x20003415, PV::Oid(d)));
        } else {
            self.put(p, "strokes#", "0".into());
            self.put(p, "bbox", "-".into());
        }
        self.add_with(id, 0x60014, ps, None);
    }
    pub fn blob(&mut self) -> Vec<u8> {
        let n = if self.big() {
            match self.r.below(3) {
                0 => self.r.range(120, 135),
                1 => self.r.range(32760, 32775),
                _ => self.r.range(65530, 140000),
            }
        } else {
            match self.r.below(6) {
                0 => 0,
                1 => 1,
                2 => self.r.range(100, 600),
                _ => self.r.range(2, 64),
            }
        };
        let mut b = self.r.bytes(n);
        // real files start and end with all kinds of runs and markers
        match self.r.below(12) {
            0 => b.fill(0),
            1 => b.fill(0xff),
            2 => b.extend(vec![0; 16 + n % 9]),
            3 => {
                let mut z = vec![0; 16 + n % 9];
                z.extend(b);
                b = z;
            }
            // the header and footer of a OneStore file data store object
            4 => {
                let mut z = guid("BDE316E7-2665-4511-A4C4-8D4D0B7A9EAC").to_vec();
                z.extend((b.len() as u64).to_le_bytes());
                z.extend([0; 12]);
                z.extend(b);
                z.extend(guid("71FBA722-0F79-4A0B-BB13-899256426B24"));
                b = z;
            }
            5 => {
                let mut z = self.r.pick(&[&b"\xef\xbb\xbf"[..], b"\x89PNG\r\n\x1a\n", b"PK\x03\x04", b"\xff\xd8\xff\xe0", b"{\\rtf1", b"\x01\x00"]).to_vec();
                z.extend(b);
                z.extend(self.r.pick(&[&b"\r\n"[..], b"\n", b"\x1a", b"\xff\xd9", b"IEND\xaeB`\x82", b" ", b"\0"]).to_vec());
                b = z;
            }
            _ => {}
        }
        if self.p.huge {
            self.p.huge = false;
            b = self.r.bytes((1 << 24) + 5);
            self.stat("blob of more than 16 MiB");
        } else if self.big() && self.r.one_in(12) {
            let n = *self.r.pick(&[1 << 20, (1 << 20) + 1, (1 << 21) + 5, (1 << 22) + 3]);
            b = self.r.bytes(n);
            self.stat("blob of more than a megabyte");
        }
        b
    }
    fn image(&mut self, id: EG, p: &str) {
        self.stat("images");
        let mut ps = vec![];
        self.put(p, "kind", "image".into());
        if self.r.pct(85) {
            let mut cp = vec![];
            self.ostr(&mut cp, 0x1C003424, p, "ext");
            let b = if self.r.pct(90) { Some(self.blob()) } else { None };
            self.put(p, "data", s_bytes(b.as_deref().unwrap_or(&[])));
            let j = if self.r.one_in(4) { 0x8003A } else { 0x80039 };
            let cid = self.id();
            let c = self.add_with(cid, j, cp, b.map(Rc::new));
            ps.push(prop(0x20001C3F, PV::Oid(c)));
        } else {
            self.put(p, "ext", "-".into());
            self.put(p, "data", "-".into());
        }
        self.modified(&mut ps, false);
        self.of(&mut ps, 0x14001C1B, p, "max_w");
        self.of(&mut ps, 0x14001C1C, p, "max_h");
        self.flags(&mut ps, &[0x08001CBD]);
        if self.r.one_in(4) {
            self.time(&mut ps, 0x14001C3B);
        }
        self.ostr(&mut ps, 0x1C001E58, p, "alt");
        self.aligns(&mut ps, p);
        self.ostr(&mut ps, 0x1C001DD7, p, "name");
        self.ou32(&mut ps, 0x14003480, p, "page_no");
        self.ostr(&mut ps, 0x1C001C22, p, "text");
        self.ou16(&mut ps, 0x10001CFE, p, "lang");
        self.of(&mut ps, 0x140034CD, p, "pic_w");
        self.of(&mut ps, 0x140034CE, p, "pic_h");
        self.ostr(&mut ps, 0x1C001E20, p, "url");
        self.of(&mut ps, 0x14001C14, p, "off_h");
        self.of(&mut ps, 0x14001C15, p, "off_v");
        self.bdef(&mut ps, 0x08001D13, p, "background", false);
        self.tags(&mut ps, p);
        let n = if self.r.one_in(3) { self.r.range(1, 3) } else { 0 };
        self.put(p, "embeds#", n.to_string());
        if n > 0 || self.r.one_in(4) {
            let mut v = vec![];
            for i in 0..n {
                let q = format!("{p}.em{i}");
                let mut e = vec![];
                self.ou32(&mut e, 0x140035F2, &q, "type");
                self.mstr(&mut e, 0x1C0035F3, &q, "url");
                v.push(self.add(0x60058, e));
                self.stat("web embeds");
            }
            ps.push(prop(0x24001C1F, PV::Oids(v)));
        }
        self.add_with(id, 0x60011, ps, None);
    }
    fn file(&mut self, id: EG, p: &str) {
        self.stat("files");
        let mut ps = vec![];
        self.put(p, "kind", "file".into());
        self.modified(&mut ps, true);
        let b = self.blob();
        self.put(p, "data", s_bytes(&b));
        let cid = self.id();
        let c = self.add_with(cid, 0x80036, vec![], Some(Rc::new(b)));
        ps.push(prop(0x20001D9B, PV::Oid(c)));
        self.mstr(&mut ps, 0x1C001D9C, p, "name");
        let t = *self.r.pick(&[None, Some(1u32), Some(2)]);
        if let Some(t) = t {
            ps.push(prop(0x14001D24, PV::U32(t)));
        }
        self.put(p, "type", tables::file_type(t).unwrap().into());
        self.of(&mut ps, 0x14001C1B, p, "max_w");
        self.of(&mut ps, 0x14001C1C, p, "max_h");
        self.of(&mut ps, 0x14001C14, p, "off_h");
        self.of(&mut ps, 0x14001C15, p, "off_v");
        self.tags(&mut ps, p);
        self.flags(&mut ps, &[0x08001CBD]);
        // stored but not reported
        if self.r.one_in(3) {
            let x = self.id();
            ps.push(prop(0x20001C3F, PV::Oid(x)));
        }
        if self.r.one_in(4) {
            let (_, b) = self.string();
            ps.push(prop(0x1C001D9D, rv(b)));
            let (_, b) = self.string();
            ps.push(prop(0x1C001C22, rv(b)));
            let v = self.f32();
            ps.push(prop(0x140034CD, PV::U32(v.to_bits())));
        }
        self.add_with(id, 0x60035, ps, None);
    }
    fn table(&mut self, id: EG, p: &str, depth: usize) {
        self.stat("tables");
        let mut ps = vec![];
        self.put(p, "kind", "table".into());
        self.modified(&mut ps, true);
        let (lo, hi) = self.p.table;
        let (rows, cols) =
            if self.big() {
                if self.r.flip() { (self.r.range(20, 80), self.r.range(1, 3)) } else { (self.r.range(1, 2), self.r.range(60, 200)) }
            } else { (self.r.range(0, hi), self.r.range(lo, hi)) };
        // the declared geometry is data of its own
        let (dr, dc) = if self.r.one_in(5) { (self.u32(), self.u32()) } else { (rows as u32, cols as u32) };
        ps.push(prop(0x14001D57, PV::U32(dr)));
        ps.push(prop(0x14001D58, PV::U32(dc)));
        self.put(p, "rows", dr.to_string());
        self.put(p, "cols", dc.to_string());
        let locked = if self.have() {
            let n = self.r.below(9);
            let v = self.r.bytes(n);
            let mut b = vec![cols as u8];
            b.extend(&v);
            ps.push(prop(0x1C001D7D, rv(b)));
            v
        } else {
            vec![]
        };
        self.put(p, "locked", s_bytes(&locked));
        let widths: Vec<f32> = if self.have() {
            let n = if self.r.one_in(4) { self.r.below(9) } else { cols };
            let v: Vec<f32> = (0..n).map(|_| self.f32()).collect();
            let mut b = vec![n as u8];
            for f in &v {
                b.extend(f.to_bits().to_le_bytes());
            }
            ps.push(prop(0x1C001D66, rv(b)));
            v
        } else {
            vec![]
        };
        self.put(p, "widths", s_vecf(&widths));
        self.bdef(&mut ps, 0x08001D5E, p, "borders", true);
        self.aligns(&mut ps, p);
        self.tags(&mut ps, p);
        let mut rids = vec![];
        self.put(p, "rows#", rows.to_string());
        for i in 0..rows {
            let q = format!("{p}.w{i}");
            let cols = if self.r.one_in(8) { self.r.below(3) } else { cols };
            self.put(&q, "cells#", cols.to_string());
            let mut cids = vec![];
            for j in 0..cols {
                let z = format!("{q}.x{j}");
                let mut cp = vec![];
                self.of(&mut cp, 0x14001C1B, &z, "max_w");
                let (v, b) = self.indents();
                cp.push(prop(0x1C001C12, rv(b)));
                self.put(&z, "indents", s_vecf(&v));
                self.color(&mut cp, 0x14001E26, &z, "background");
                self.modified(&mut cp, false);
                let n = if self.budget > 0 { self.r.below(3) } else { 0 };
                self.put(&z, "items#", n.to_string());
                let mut es = vec![];
                for k in 0..n {
                    let id = self.id();
                    es.push(id);
                    self.element(id, &format!("{z}.i{k}"), depth + 1, true);
                }
                cp.push(prop(0x24001C20, PV::Oids(es)));
                cids.push(self.add(0x60024, cp));
                self.stat("table cells");
            }
            let mut rp = vec![prop(0x24001C20, PV::Oids(cids))];
            self.modified(&mut rp, false);
            rids.push(self.add(0x60023, rp));
        }
        ps.push(prop(0x24001C20, PV::Oids(rids)));
        self.add_with(id, 0x60022, ps, None);
    }
    fn list(&mut self, p: &str) -> EG {
        self.stat("lists");
        let mut ps = vec![];
        self.modified(&mut ps, true);
        self.ostr(&mut ps, 0x1C001C52, p, "list_font");
        let v = if self.have() { Some(self.u32()) } else { None };
        if let Some(v) = v {
            ps.push(prop(0x14001CB7, PV::U32(v)));
        }
        self.put(p, "restart", s_od(v.map(|v| v as i32)));
        let n = match self.r.below(5) {
            0 => 0,
            1 => self.r.range(5, 40),
            _ => self.r.range(1, 4),
        };
        let mut chars = String::new();
        let mut units: Vec<u16> = vec![];
        for _ in 0..n {
            match self.r.below(6) {
                0 => {
                    let c = self.odd_char();
                    chars.push(c);
                    let mut b = [0; 2];
                    units.extend_from_slice(c.encode_utf16(&mut b));
                }
                1 => {
                    chars.push('\u{FFFD}');
                    units.push(0xDC00 + self.r.below(0x400) as u16);
                    // a lone low surrogate, never completed by what precedes it
                    if units.len() >= 2 {
                        let l = units.len();
                        if (0xd800..0xdc00).contains(&units[l - 2]) {
                            units.pop();
                            chars.pop();
                        }
                    }
                }
                2 => {
                    chars.push('\0');
                    units.push(0);
                }
                3 => {
                    // a high surrogate without its other half
                    chars.push('\u{FFFD}');
                    units.push(0xD800 + self.r.below(0x400) as u16);
                    chars.push('.');
                    units.push('.' as u16);
                }
                _ => {
                    let c = *self.r.pick(&['.', '(', ')', '\u{FFFD}', '-', '\u{2022}', 'a', '#']);
                    chars.push(c);
                    units.push(c as u16);
                }
            }
        }
        let mut b: Vec<u8> = (n as u16).to_le_bytes().to_vec();
        b.extend(units.iter().flat_map(|u| u.to_le_bytes()));
        ps.push(prop(0x1C001C1A, rv(b)));
        self.put(p, "format", s_str(&chars));
        self.bdef(&mut ps, 0x08001C04, p, "bold", false);
        self.bdef(&mut ps, 0x08001C05, p, "italic", false);
        if self.r.one_in(4) {
            self.time(&mut ps, 0x14001C3B);
        }
        self.ostr(&mut ps, 0x1C001C0A, p, "font");
        self.ou16(&mut ps, 0x10001C0B, p, "size");
        self.cref(&mut ps, 0x14001C0C, p, "color");
        self.add(0x60012, ps)
    }
    fn author(&mut self) -> EG {
        if self.authors.is_empty() || self.r.one_in(6) {
            let mut ps = vec![];
            if self.r.flip() {
                let (_, b) = self.string();
                ps.push(prop(0x1C001D75, rv(b)));
            }
            let a = self.add(0x120001, ps);
            self.authors.push(a);
        }
        let k = self.r.below(self.authors.len());
        self.authors[k]
    }
    fn unknown_object(&mut self, id: EG, in_page: bool) {
        self.stat("unknown content");
        self.unknowns.push(id);
        let list: &[u32] = if in_page {
            &[0x6000D, 0x60019, 0x6000E, 0x60022, 0x60023, 0x2003B, 0x120043, 0x20001, 0x60058, 0x120001, 0x8003A]
        } else {
            &[0x6000C, 0x6000D, 0x60019, 0x60023, 0x60024, 0x60012, 0x20047, 0x120048, 0x60058, 0x20044, 0x60008]
        };
        let j = *self.r.pick(list);
        let mut ps = vec![];
        self.unknown_into(&mut ps, 2, 0);
        self.add_with(id, j, ps, None);
    }
    /// Returns the text of the element's first content if that is a paragraph.
    fn element(&mut self, id: EG, p: &str, depth: usize, in_cell: bool) -> Option<String> {
        self.stat("outline elements");
        self.budget -= 1;
        let mut ps = vec![];
        self.put(p, "kind", "element".into());
        self.time(&mut ps, 0x14001D09);
        self.modified(&mut ps, true);
        let l = self.u8();
        ps.push(prop(0x0C001C03, PV::U8(l)));
        self.put(p, "level", l.to_string());
        let (a, b) = (self.author(), self.author());
        ps.push(prop(0x20001D78, PV::Oid(a)));
        ps.push(prop(0x20001D79, PV::Oid(b)));
        self.of(&mut ps, 0x14001CCB, p, "list_spacing");
        self.flags(&mut ps, &[0x08001C34, 0x08001D0C, 0x08001CB2, 0x08001CB4]);
        // contents
        let (lo, hi) = self.p.contents;
        let n = if self.big() && self.r.one_in(3) && self.budget > 0 { self.r.range(20, 60) } else { self.r.range(lo, hi) };
        self.put(p, "contents#", n.to_string());
        let mut first = None;
        let mut ids = vec![];
        for i in 0..n {
            if let Some(j) = self.again(&format!("{p}.c"), i) {
                ids.push(ids[j]);
                continue;
            }
            let q = format!("{p}.c{i}");
            let id = self.id();
            ids.push(id);
            let mut w = self.p.w_content;
            let max = if in_cell { self.p.cell_depth } else { self.p.depth };
            if depth >= max || self.budget <= 0 {
                w[1] = 0;
            }
            let (k, acc) = match self.r.weighted(&w) {
                0 => {
                    let t = self.rich(id, &q);
                    if i == 0 {
                        first = Some(t);
                    }
                    (0, "10000")
                }
                1 => {
                    self.table(id, &q, depth + 1);
                    (1, "01000")
                }
                2 => {
                    self.image(id, &q);
                    (2, "00100")
                }
                3 => {
                    self.file(id, &q);
                    (3, "00010")
                }
                4 => {
                    self.ink(id, &q);
                    (4, "00001")
                }
                _ => {
                    self.put(&q, "kind", "unknown".into());
                    self.unknown_object(id, false);
                    (5, "00000")
                }
            };
            let _ = k;
            self.put(&q, "as", acc.into());
        }
        if n > 0 || self.r.flip() {
            ps.push(prop(0x24001C1F, PV::Oids(ids)));
        }
        // lists
        let pl = self.p.lists;
        let n = if self.r.pct(pl) { self.r.range(1, 3) } else { 0 };
        self.put(p, "lists#", n.to_string());
        let mut ids = vec![];
        for i in 0..n {
            if let Some(j) = self.again(&format!("{p}.l"), i) {
                ids.push(ids[j]);
                continue;
            }
            let l = self.list(&format!("{p}.l{i}"));
            ids.push(l);
        }
        if n > 0 || self.r.flip() {
            ps.push(prop(0x24001C26, PV::Oids(ids)));
        }
        self.items(&mut ps, p, depth, in_cell);
        self.add_with(id, 0x6000D, ps, None);
        first
    }
    /// Children of an outline, group or element; returns the text of the first one.
    fn items(&mut self, ps: &mut Ps, p: &str, depth: usize, in_cell: bool) -> Option<String> {
        let max = if in_cell { self.p.cell_depth } else { self.p.depth };
        let (lo, hi) = self.p.items;
        let n = if self.budget <= 0 || depth >= max {
            0
        } else if self.big() && self.r.one_in(3) {
            self.r.range(40, 300)
        } else {
            self.r.range(lo, hi)
        };
        self.vecpath("items#", p, n);
        let mut ids = vec![];
        let mut first = None;
        for i in 0..n {
            let q = format!("{p}.i{i}");
            let id = self.id();
            ids.push(id);
            if self.r.one_in(7) {
                self.stat("outline groups");
                self.put(&q, "kind", "group".into());
                let mut gp = vec![];
                self.modified(&mut gp, true);
                let l = self.u8();
                gp.push(prop(0x0C001C03, PV::U8(l)));
                self.put(&q, "level", l.to_string());
                self.items(&mut gp, &q, depth + 1, in_cell);
                self.add_with(id, 0x60019, gp, None);
            } else {
                let t = self.element(id, &q, depth + 1, in_cell);
                if i == 0 {
                    first = t;
                }
            }
        }
        if n > 0 || self.r.flip() {
            ps.push(prop(0x24001C20, PV::Oids(ids)));
        }
        first
    }
    fn outline(&mut self, id: EG, p: &str) -> Option<String> {
        self.stat("outlines");
        let mut ps = vec![];
        self.put(p, "kind", "outline".into());
        self.modified(&mut ps, true);
        let l = self.u8();
        ps.push(prop(0x0C001C03, PV::U8(l)));
        self.put(p, "level", l.to_string());
        let (v, b) = self.indents();
        ps.push(prop(0x1C001C12, rv(b)));
        self.put(p, "indents", s_vecf(&v));
        self.of(&mut ps, 0x14001C1C, p, "max_h");
        self.of(&mut ps, 0x14001C1B, p, "max_w");
        self.of(&mut ps, 0x14001CDB, p, "reserved_w");
        self.of(&mut ps, 0x14001CEC, p, "min_w");
        self.bdef(&mut ps, 0x08001CBD, p, "by_user", false);
        self.of(&mut ps, 0x14001CCB, p, "list_spacing");
        self.of(&mut ps, 0x14001C14, p, "off_h");
        self.of(&mut ps, 0x14001C15, p, "off_v");
        self.aligns(&mut ps, p);
        self.flags(
            &mut ps,
            &[0x08001CFF, 0x08001D0C, 0x08001CB5, 0x08001CB2, 0x08001CB4, 0x08001CDE, 0x08001CF9, 0x08001C00],
        );
        let first = self.items(&mut ps, p, 0, false);
        self.add_with(id, 0x6000C, ps, None);
        first
    }
    fn take_space(&mut self, cell: Cell, mut roots: Vec<(u32, EG)>) -> Space {
        let mut objs = std::mem::take(&mut self.objs);
        self.styles.clear();
        self.defs.clear();
        self.authors.clear();
        if self.r.one_in(3) {
            let mut ps = vec![];
            self.time(&mut ps, 0x14001D7A);
            let id = self.id();
            objs.push(Obj { id, jcid: 0x20044, props: ps, blob: None });
            roots.push((4, id));
        }
        if self.r.one_in(6) {
            let id = self.id();
            roots.push((3, id));
        }
        if self.r.flip() {
            self.r.shuffle(&mut objs);
        }
        let mut groups: Vec<Vec<Obj>> = vec![];
        let k = self.r.range(1, 3);
        for _ in 0..k {
            groups.push(vec![]);
        }
        let split = self.r.flip();
        for o in objs {
            let g = if split { self.r.below(k) } else { 0 };
            groups[g].push(o);
        }
        Space { cell, revs: vec![Rev { roots, groups }] }
    }
    fn new_cell(&mut self) -> Cell {
        let v = self.id();
        let ctx = EG { g: guid("84DEFAB9-AAA3-4A0D-A3A8-520C77AC7073"), v: 1 };
        let c = if self.r.one_in(4) { self.id() } else { ctx };
        (c, v)
    }
    fn page(&mut self, p: &str, cell: Cell) -> Space {
        self.stat("pages");
        self.here = cell.1;
        self.gid = self.r.bytes(16).try_into().unwrap();
        self.budget = self.p.budget;
        // metadata
        let mut ps = vec![];
        let g = self.r.bytes(16);
        ps.push(prop(0x1C001C30, rv(g)));
        let (_, b) = self.string();
        ps.push(prop(0x1C001CF3, rv(b)));
        ps.push(prop(0x18001C65, PV::U64(self.r.u64())));
        let lv = if self.have() { Some(self.u32()) } else { None };
        if let Some(l) = lv {
            ps.push(prop(0x14001DFF, PV::U32(l)));
        }
        self.put(p, "level", (lv.unwrap_or(0) as i32).to_string());
        if self.r.flip() {
            self.time(&mut ps, 0x14001D82);
            self.time(&mut ps, 0x1400348B);
        }
        self.flags(&mut ps, &[0x08001DE9]);
        let meta = self.add(0x20030, ps);
        // page node
        let mut ps = vec![];
        self.modified(&mut ps, false);
        if self.r.flip() {
            let (_, b) = self.string();
            ps.push(prop(0x1C001D3C, rv(b)));
        }
        self.ostr(&mut ps, 0x1C001D75, p, "author");
        self.of(&mut ps, 0x14001C02, p, "height");
        for id in [0x14001C01u32, 0x14001C4D, 0x14001C4E, 0x14001D0F, 0x14001D10, 0x14001C4F, 0x14001C4C] {
            if self.r.one_in(5) {
                let f = self.f32();
                ps.push(prop(id, PV::U32(f.to_bits())));
            }
        }
        self.flags(&mut ps, &[0x08001C8E, 0x08001C92]);
        let title = self.p.title;
        let mut title_text: Option<String> = None;
        if self.r.pct(title) {
            self.stat("titles");
            self.put(p, "title", "+".into());
            let q = format!("{p}.title");
            let mut tp = vec![];
            self.modified(&mut tp, true);
            self.mf(&mut tp, 0x14001C14, &q, "off_h");
            self.mf(&mut tp, 0x14001C15, &q, "off_v");
            self.aligns(&mut tp, &q);
            let n = match self.r.below(6) {
                0 => 0,
                1 => 2,
                _ => 1,
            };
            self.put(&q, "outlines#", n.to_string());
            let mut ids = vec![];
            for i in 0..n {
                let id = self.id();
                ids.push(id);
                let t = self.outline(id, &format!("{q}.o{i}"));
                if i == 0 {
                    title_text = t.filter(|t| !t.is_empty());
                }
            }
            tp.push(prop(0x24001C20, PV::Oids(ids)));
            let t = self.add(0x6002C, tp);
            let mut v = vec![t];
            if self.r.one_in(6) {
                let x = self.id();
                v.push(x);
            }
            ps.push(prop(0x24001D5F, PV::Oids(v)));
        } else {
            self.put(p, "title", "-".into());
            if self.r.one_in(3) {
                ps.push(prop(0x24001D5F, PV::Oids(vec![])));
            }
        }
        let (lo, hi) = self.p.page_items;
        let n = self.r.range(lo, hi);
        self.put(p, "contents#", n.to_string());
        let mut ids = vec![];
        for i in 0..n {
            if let Some(j) = self.again(&format!("{p}.c"), i) {
                ids.push(ids[j]);
                continue;
            }
            let q = format!("{p}.c{i}");
            let id = self.id();
            ids.push(id);
            let w = self.p.w_page;
            let acc = match self.r.weighted(&w) {
                0 => {
                    let t = self.outline(id, &q);
                    if title_text.is_none() {
                        title_text = t.filter(|t| !t.is_empty());
                    }
                    "1000"
                }
                1 => {
                    self.image(id, &q);
                    "0100"
                }
                2 => {
                    self.file(id, &q);
                    "0010"
                }
                3 => {
                    self.ink(id, &q);
                    "0001"
                }
                _ => {
                    self.put(&q, "kind", "unknown".into());
                    self.unknown_object(id, true);
                    "0000"
                }
            };
            self.put(&q, "as", acc.into());
        }
        if n > 0 || self.r.flip() {
            ps.push(prop(0x24001C20, PV::Oids(ids)));
        }
        self.put(p, "title_text", s_os(title_text.as_deref()));
        let node = self.add(0x6000B, ps);
        let mut v = vec![node];
        if self.r.one_in(6) {
            let x = self.id();
            v.push(x);
        }
        let man = self.add(0x60037, vec![prop(0x24001C1F, PV::Oids(v))]);
        self.take_space(cell, vec![(1, man), (2, meta)])
    }
    /// A whole section; `file_name` is the name the parser will be given.
    pub fn section(&mut self, p: &str, file_name: &str) -> Store {
        self.put(p, "kind", "section".into());
        let root_cell = self.new_cell();
        let ns = { let (a, b) = self.p.series; self.r.range(a, b) };
        self.put(p, "series#", ns.to_string());
        let mut series: Vec<Vec<Cell>> = vec![];
        for _ in 0..ns {
            let (a, b) = self.p.pages;
            let n = self.r.range(a, b);
            let mut v: Vec<Cell> = vec![];
            for j in 0..n {
                let c = if j > 0 && self.r.one_in(30) { v[self.r.below(j)] } else { self.new_cell() };
                v.push(c);
            }
            self.cells.extend(&v);
            series.push(v);
        }
        self.cells.push(root_cell);
        let mut spaces = vec![];
        for (i, s) in series.clone().iter().enumerate() {
            self.put(&format!("{p}.s{i}"), "pages#", s.len().to_string());
            for (j, c) in s.iter().enumerate() {
                // the same page once more
                if let Some(k) = s[..j].iter().position(|d| d == c) {
                    let from = format!("{p}.s{i}.p{k}.");
                    let same: Vec<(String, String)> = (self.exp.range(from.clone()..))
                        .take_while(|(k, _)| k.starts_with(&from))
                        .map(|(k, v)| (format!("{p}.s{i}.p{j}.{}", &k[from.len()..]), v.clone()))
                        .collect();
                    self.exp.extend(same);
                    self.stat("pages listed twice");
                    continue;
                }
                let sp = self.page(&format!("{p}.s{i}.p{j}"), *c);
                spaces.push(sp);
            }
        }
        // the section itself
        self.here = root_cell.1;
        self.gid = self.r.bytes(16).try_into().unwrap();
        let mut mp = vec![];
        self.time(&mut mp, 0x14001D82);
        self.time(&mut mp, 0x1400348B);
        let name = if self.r.flip() {
            let (s, b) = self.string();
            let mut s = s.trim_end_matches('\0').to_string();
            let mut b = b;
            if s.ends_with(".one") {
                s.push('x');
                b = utf16(&s);
            }
            if self.r.one_in(3) {
                s.push_str(".one");
                b = utf16(&s);
            }
            mp.push(prop(0x1C00349B, rv(b)));
            s
        } else {
            file_name.to_string()
        };
        self.put(p, "name", s_str(name.strip_suffix(".one").unwrap_or(&name)));
        self.color(&mut mp, 0x14001CBE, p, "color");
        let meta = self.add(0x20031, mp);
        let mut sids = vec![];
        for s in &series {
            let g = self.r.bytes(16);
            let mut sp = vec![prop(0x1C001C30, rv(g))];
            if !s.is_empty() || self.r.flip() {
                sp.push(prop(0x2C001D63, PV::Osids(s.clone())));
            }
            if self.r.flip() {
                let n = self.r.below(4);
                let v = (0..n).map(|_| self.id()).collect();
                sp.push(prop(0x24003442, PV::Oids(v)));
            }
            if self.r.flip() {
                sp.push(prop(0x18001C65, PV::U64(self.r.u64())));
            }
            sids.push(self.add(0x60008, sp));
        }
        let g = self.r.bytes(16);
        let mut sp = vec![prop(0x1C001C30, rv(g)), prop(0x18001C65, PV::U64(self.r.u64()))];
        if ns > 0 || self.r.flip() {
            sp.push(prop(0x24001C20, PV::Oids(sids)));
        }
        let node = self.add(0x60007, sp);
        let root = self.take_space(root_cell, vec![(1, node), (2, meta)]);
        let mut all = vec![root];
        all.extend(spaces);
        Store { schema: guid(SCHEMA_SECTION), spaces: all }
    }
    /// A table of contents: (ordering id, name) leaves in a random tree. `raw` names are stored
    /// as they are. Returns the store and the root's colour line.
    pub fn toc(&mut self, leaves: &[(u32, String)]) -> (Store, String) {
        self.gid = self.r.bytes(16).try_into().unwrap();
        let cell = self.new_cell();
        let depth = self.r.below(4);
        let ids = self.toc_children(leaves, depth);
        let mut ps = vec![];
        if !ids.is_empty() || self.r.flip() {
            ps.push(prop(0x24001CF6, PV::Oids(ids)));
        }
        let c = if self.r.flip() { Some(self.r.u32()) } else { None };
        if let Some(c) = c {
            ps.push(prop(0x14001CBE, PV::U32(c)));
        }
        if self.r.flip() {
            let v = self.u32();
            ps.push(prop(0x14001CB9, PV::U32(v)));
        }
        let root = self.add(0x20001, ps);
        let sp = self.take_space(cell, vec![(1, root)]);
        (
            Store { schema: guid(SCHEMA_TOC), spaces: vec![sp] },
            c.map(tables::color).unwrap_or("-".into()),
        )
    }
    fn toc_children(&mut self, leaves: &[(u32, String)], depth: usize) -> Vec<EG> {
        let mut ids = vec![];
        let mut i = 0;
        while i < leaves.len() {
            if depth > 0 && self.r.one_in(3) {
                let k = self.r.range(1, leaves.len() - i);
                let kids = self.toc_children(&leaves[i..i + k], depth - 1);
                let mut ps = vec![prop(0x24001CF6, PV::Oids(kids))];
                if self.r.flip() {
                    self.time(&mut ps, 0x14001CBE);
                }
                ids.push(self.add(0x20001, ps));
                i += k;
            } else {
                let (o, n) = &leaves[i];
                let mut b = utf16(n);
                if self.r.one_in(3) {
                    b.extend([0, 0]);
                }
                let mut ps = vec![prop(0x1C001D6B, rv(b)), prop(0x14001CB9, PV::U32(*o))];
                if self.r.flip() {
                    self.time(&mut ps, 0x14001CBE);
                }
                if self.r.one_in(6) {
                    // children of a named entry are not looked at
                    let x = self.id();
                    ps.push(prop(0x24001CF6, PV::Oids(vec![x])));
                }
                ids.push(self.add(0x20001, ps));
                i += 1;
            }
        }
        if self.r.one_in(5) {
            ids.push(self.add(0x20001, vec![]));
        }
        ids
    }
    pub fn small_name(&mut self) -> String {
        let n = self.r.range(3, 9);
        self.plain(n)
    }
}

const STYLE_KEYS: &[&str] = &[
    "charset", "bold", "italic", "underline", "strike", "super", "sub", "font", "size", "color", "highlight", "next",
    "id", "align", "before", "after", "exact", "lang", "math", "link",
];
const DEF_KEYS: &[&str] = &["label", "status", "shape", "checkable", "highlight", "text_color", "action"];

/// Spreads the newest content of every space over a chain of revisions and adds stale variants of
/// objects and roots that a newer revision overrides. The meaning stays the same.
/// Text that would be treated specially by some format, but is plain text here.
const SNIPPETS: [&str; 30] = [
    "\u{fddf}HYPERLINK \"http://a.example/?q=1&b\" ",
    "\u{fddf}",
    "&amp;&lt;&#13;",
    "<b>x</b>",
    "<br/>",
    "\r\n",
    "\r",
    "\n",
    " ",
    "  two  spaces  ",
    "\t",
    "\u{b}",
    "\u{a0}",
    "\u{feff}",
    "\u{fffd}",
    "\u{fffe}",
    "\u{200b}",
    "\u{2028}",
    "\u{1f469}\u{200d}\u{1f469}\u{200d}\u{1f467}",
    "e\u{301}",
    "\u{e9}",
    "\u{130}\u{df}",
    "{84DEFAB9-AAA3-4A0D-A3A8-520C77AC7073}",
    "onenote:#Page&section-id={1}&end",
    "C:\\Users\\a\\b.one",
    "../../etc/passwd",
    "file:///x%20y",
    "%00%0a",
    "\\n\\0\\u0041",
    "$(x) `y` \"z\" 'w'",
];

pub fn layer(store: &mut Store, r: &mut Rng, max: usize) -> u64 {
    let mut stale = 0;
    for sp in &mut store.spaces {
        // now and then a long history: a note that was saved for years
        let depth = match (max >= 9, r.below(48)) {
            (true, 0) => r.range(400, 1300),
            (true, 1..6) => r.range(20, 130),
            _ => r.range(1, max),
        };
        if depth == 1 {
            continue;
        }
        let older = if depth > 12 { depth / 3 } else { 3 };
        let newest = sp.revs.pop().unwrap();
        let mut revs: Vec<Rev> = (0..depth)
            .map(|_| {
                let g = r.below(3);
                Rev { roots: vec![], groups: vec![vec![]; g] }
            })
            .collect();
        let all: Vec<Obj> = newest.groups.into_iter().flatten().collect();
        let ids: Vec<EG> = all.iter().map(|o| o.id).collect();
        let place = |revs: &mut Vec<Rev>, k: usize, o: Obj, r: &mut Rng| {
            let rev = &mut revs[k];
            if rev.groups.is_empty() || r.one_in(6) {
                rev.groups.push(vec![]);
            }
            let g = r.below(rev.groups.len());
            rev.groups[g].push(o);
        };
        for o in all {
            let at = r.below(depth);
            for k in at + 1..depth {
                if r.one_in(older) {
                    let mut s = o.clone();
                    // a different older state of the same object
                    match r.below(5) {
                        0 => s.props.clear(),
                        1 => s.jcid = *r.pick(&[0x6000E, 0x60011, 0x20001, 0x12345, 0x6000D]),
                        2 => {
                            for p in &mut s.props {
                                mutate_prop(p, &ids, r)
                            }
                        }
                        3 => {
                            if !s.props.is_empty() {
                                let k = r.below(s.props.len());
                                mutate_prop(&mut s.props[k], &ids, r);
                            }
                        }
                        _ => {
                            if let Some(b) = &s.blob {
                                let mut b = b.as_ref().clone();
                                b.push(7);
                                b.reverse();
                                s.blob = Some(Rc::new(b));
                            } else {
                                s.props.reverse();
                                s.props.truncate(1);
                            }
                        }
                    }
                    place(&mut revs, k, s, r);
                    stale += 1;
                }
            }
            place(&mut revs, at, o, r);
        }
        for (role, o) in newest.roots {
            let at = r.below(depth);
            revs[at].roots.push((role, o));
            for rev in revs.iter_mut().skip(at + 1) {
                if depth <= 12 && r.flip() || r.one_in(older) {
                    let other = *r.pick(&ids);
                    rev.roots.push((role, other));
                    stale += 1;
                }
            }
        }
        sp.revs = revs;
    }
    stale
}

fn mutate_prop(p: &mut Prop, ids: &[EG], r: &mut Rng) {
    match &mut p.v {
        PV::Bool(b) => *b = !*b,
        PV::U8(v) => *v ^= 1,
        PV::U16(v) => *v ^= 3,
        PV::U32(v) => *v ^= 5,
        PV::U64(v) => *v ^= 9,
        PV::Bytes(b) => {
            let mut c = b.as_ref().clone();
            if c.is_empty() {
                c.push(65);
                c.push(0);
            } else {
                c[0] ^= 2;
            }
            *b = Rc::new(c);
        }
        PV::Oid(e) => *e = *r.pick(ids),
        PV::Oids(v) => {
            if v.is_empty() {
                v.push(*r.pick(ids))
            } else {
                v.reverse();
                v.pop();
            }
        }
        PV::Osids(v) => {
            v.pop();
        }
        _ => {}
    }
}
