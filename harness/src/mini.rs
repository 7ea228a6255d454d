//! Hand-made documents: the smallest valid section and table of contents, and parts to build
//! special object graphs from.
use crate::bits::*;
use crate::docgen::{DIM_X, DIM_Y, mb_path, rv, utf16};
use crate::graph::*;
use crate::rng::Rng;
use std::rc::Rc;

pub struct Mini {
    pub objs: Vec<Obj>,
    g: G,
    n: u32,
    pub author: EG,
    pub style: EG,
}

pub fn u32p(id: u32, v: u32) -> Prop {
    prop(id, PV::U32(v))
}
pub fn oids(id: u32, v: Vec<EG>) -> Prop {
    prop(id, PV::Oids(v))
}

pub const CTX: &str = "84DEFAB9-AAA3-4A0D-A3A8-520C77AC7073";

impl Mini {
    pub fn new() -> Mini {
        let mut m = Mini { objs: vec![], g: *b"objects of page.", n: 0, author: NIL, style: NIL };
        m.author = m.add(0x120001, vec![]);
        m.style = m.add(0x12004D, vec![]);
        m
    }
    pub fn id(&mut self) -> EG {
        self.n += 1;
        EG { g: self.g, v: self.n }
    }
    pub fn put(&mut self, id: EG, jcid: u32, props: Vec<Prop>) -> EG {
        self.objs.push(Obj { id, jcid, props, blob: None });
        id
    }
    pub fn add(&mut self, jcid: u32, props: Vec<Prop>) -> EG {
        let id = self.id();
        self.put(id, jcid, props)
    }
    pub fn text_props(&self, t: &str) -> Vec<Prop> {
        vec![u32p(0x14001D7A, 1), prop(0x2000342C, PV::Oid(self.style)), prop(0x1C001C22, rv(utf16(t)))]
    }
    pub fn text(&mut self, t: &str) -> EG {
        let p = self.text_props(t);
        self.add(0x6000E, p)
    }
    pub fn element_props(&self, children: Vec<EG>, contents: Vec<EG>, lists: Vec<EG>) -> Vec<Prop> {
        vec![
            u32p(0x14001D09, 1),
            u32p(0x14001D7A, 1),
            prop(0x0C001C03, PV::U8(1)),
            prop(0x20001D78, PV::Oid(self.author)),
            prop(0x20001D79, PV::Oid(self.author)),
            oids(0x24001C1F, contents),
            oids(0x24001C20, children),
            oids(0x24001C26, lists),
        ]
    }
    pub fn element(&mut self, children: Vec<EG>, contents: Vec<EG>) -> EG {
        let p = self.element_props(children, contents, vec![]);
        self.add(0x6000D, p)
    }
    pub fn group_props(children: Vec<EG>) -> Vec<Prop> {
        vec![u32p(0x14001D7A, 1), prop(0x0C001C03, PV::U8(1)), oids(0x24001C20, children)]
    }
    pub fn group(&mut self, children: Vec<EG>) -> EG {
        self.add(0x60019, Mini::group_props(children))
    }
    pub fn outline_props(children: Vec<EG>) -> Vec<Prop> {
        vec![
            u32p(0x14001D7A, 1),
            prop(0x0C001C03, PV::U8(1)),
            prop(0x1C001C12, rv(vec![0; 4])),
            oids(0x24001C20, children),
        ]
    }
    pub fn outline(&mut self, children: Vec<EG>) -> EG {
        self.add(0x6000C, Mini::outline_props(children))
    }
    pub fn cell(&mut self, elements: Vec<EG>) -> EG {
        self.add(0x60024, vec![prop(0x1C001C12, rv(vec![0; 4])), oids(0x24001C20, elements)])
    }
    pub fn row(&mut self, cells: Vec<EG>) -> EG {
        self.add(0x60023, vec![oids(0x24001C20, cells)])
    }
    pub fn table_props(rows: Vec<EG>) -> Vec<Prop> {
        vec![u32p(0x14001D7A, 1), u32p(0x14001D57, 1), u32p(0x14001D58, 1), oids(0x24001C20, rows)]
    }
    pub fn table(&mut self, rows: Vec<EG>) -> EG {
        self.add(0x60022, Mini::table_props(rows))
    }
    pub fn container(&mut self, jcid: u32, blob: Option<Vec<u8>>) -> EG {
        let id = self.id();
        self.objs.push(Obj { id, jcid, props: vec![], blob: blob.map(Rc::new) });
        id
    }
    pub fn image_props(container: EG) -> Vec<Prop> {
        vec![u32p(0x14001D7A, 1), prop(0x20001C3F, PV::Oid(container))]
    }
    pub fn image(&mut self, container: EG) -> EG {
        self.add(0x60011, Mini::image_props(container))
    }
    pub fn dims(v: &[&str]) -> Vec<u8> {
        let mut b = vec![];
        for d in v {
            b.extend(guid(d));
            b.extend([0; 16]);
        }
        b
    }
    pub fn stroke(&mut self, path: Vec<u8>, dims: Vec<u8>) -> EG {
        let sp = self.add(
            0x120048,
            vec![
                u32p(0x1400340C, 1f32.to_bits()),
                u32p(0x1400340D, 1f32.to_bits()),
                prop(0x1C00340A, rv(dims)),
            ],
        );
        self.add(
            0x20047,
            vec![prop(0x1C00340B, rv(path)), prop(0x0C00341C, PV::U8(0)), prop(0x20003409, PV::Oid(sp))],
        )
    }
    pub fn plain_stroke(&mut self) -> EG {
        self.stroke(mb_path(&[1, 2, 3, 4]), Mini::dims(&[DIM_X, DIM_Y]))
    }
    pub fn ink_props(data: EG) -> Vec<Prop> {
        vec![prop(0x20003415, PV::Oid(data))]
    }

    /// The page of a section with one page; `contents` of the page, `title` children.
    pub fn page(mut self, contents: Vec<EG>, title: Option<Vec<EG>>) -> Store {
        let meta = self.add(
            0x20030,
            vec![prop(0x1C001C30, rv(vec![7; 16])), prop(0x1C001CF3, rv(utf16("t"))), prop(0x18001C65, PV::U64(1))],
        );
        let mut ps = vec![oids(0x24001C20, contents)];
        if let Some(t) = title {
            let t = self.add(
                0x6002C,
                vec![
                    u32p(0x14001D7A, 1),
                    u32p(0x14001C14, 0),
                    u32p(0x14001C15, 0),
                    oids(0x24001C20, t),
                ],
            );
            ps.push(oids(0x24001D5F, vec![t]));
        }
        let node = self.add(0x6000B, ps);
        let man = self.add(0x60037, vec![oids(0x24001C1F, vec![node])]);
        let cell = (EG { g: guid(CTX), v: 1 }, EG { g: *b"space of a page.", v: 1 });
        let space = Space { cell, revs: vec![Rev { roots: vec![(1, man), (2, meta)], groups: vec![self.objs] }] };
        section_of(vec![space], |c| vec![c.to_vec()])
    }
}

/// A section whose series list the cells as `series` says.
pub fn section_of(pages: Vec<Space>, series: impl Fn(&[Cell]) -> Vec<Vec<Cell>>) -> Store {
    let cells: Vec<Cell> = pages.iter().map(|p| p.cell).collect();
    let mut m = Mini { objs: vec![], g: *b"objs of section.", n: 0, author: NIL, style: NIL };
    let sids: Vec<EG> = series(&cells)
        .into_iter()
        .map(|s| m.add(0x60008, vec![prop(0x1C001C30, rv(vec![1; 16])), prop(0x2C001D63, PV::Osids(s))]))
        .collect();
    let node =
        m.add(0x60007, vec![prop(0x1C001C30, rv(vec![2; 16])), prop(0x18001C65, PV::U64(1)), oids(0x24001C20, sids)]);
    let meta = m.add(0x20031, vec![u32p(0x14001D82, 1), u32p(0x1400348B, 1)]);
    let cell = (EG { g: guid(CTX), v: 1 }, EG { g: *b"space of section", v: 1 });
    let root = Space { cell, revs: vec![Rev { roots: vec![(1, node), (2, meta)], groups: vec![m.objs] }] };
    let mut spaces = vec![root];
    spaces.extend(pages);
    Store { schema: guid(SCHEMA_SECTION), spaces }
}

/// A table of contents from objects; the first one is the root.
pub fn toc_of(objs: Vec<Obj>) -> Store {
    let root = objs[0].id;
    let cell = (EG { g: guid(CTX), v: 1 }, EG { g: *b"space of the toc", v: 1 });
    Store {
        schema: guid(SCHEMA_TOC),
        spaces: vec![Space { cell, revs: vec![Rev { roots: vec![(1, root)], groups: vec![objs] }] }],
    }
}
pub fn toc_id(n: u32) -> EG {
    EG { g: *b"toc entries' ids", v: n }
}
pub fn toc_node(n: u32, kids: Vec<u32>) -> Obj {
    Obj {
        id: toc_id(n),
        jcid: 0x20001,
        props: vec![oids(0x24001CF6, kids.into_iter().map(toc_id).collect())],
        blob: None,
    }
}
pub fn toc_leaf(n: u32, order: u32, name: &str) -> Obj {
    Obj {
        id: toc_id(n),
        jcid: 0x20001,
        props: vec![prop(0x1C001D6B, rv(utf16(name))), u32p(0x14001CB9, order)],
        blob: None,
    }
}
/// A flat table of contents listing the names in order.
pub fn toc(names: &[&str]) -> Store {
    let mut v = vec![toc_node(1, (0..names.len() as u32).map(|i| i + 2).collect())];
    for (i, n) in names.iter().enumerate() {
        v.push(toc_leaf(i as u32 + 2, i as u32, n));
    }
    toc_of(v)
}
pub fn plain_section() -> Store {
    let mut m = Mini::new();
    let t = m.text("text");
    let e = m.element(vec![], vec![t]);
    let o = m.outline(vec![e]);
    m.page(vec![o], None)
}
pub fn bytes(s: &Store) -> Vec<u8> {
    encode(s, &Opts::canonical(), &mut Rng::new(1)).bytes
}
