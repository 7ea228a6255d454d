//! C28: every encoded enumeration, flag set, colour and alignment through the parser, value by
//! value: exhaustively for domains of up to 16 bits, by structure and at random for 32 bits. The
//! accessors' answers are compared with tables of the format; undefined values must be refused.
use crate::bits::*;
use crate::docgen::{DIM_X, DIM_Y, mb_path, rv, utf16};
use crate::dump::{self, s_d};
use crate::graph::*;
use crate::hostile::Scratch;
use crate::mini::*;
use crate::px::{self, Res};
use crate::rng::Rng;
use crate::run::Out;
use crate::tables::*;

/// What must be answered for a value: (field, text) lines, or an error.
type Lines = Vec<(&'static str, String)>;
type Expect = fn(u32) -> Option<Lines>;

struct Probe {
    name: &'static str,
    /// number of values a domain of up to 16 bits has; 0 for a sampled domain
    all: u32,
    draw: fn(u64, &mut Rng) -> u32,
    expect: Expect,
    host: Host,
}

#[derive(Clone, Copy, PartialEq)]
enum Host {
    /// a property of the text's own style, of its runs, of itself
    ParStyle(u32, Wd),
    RunStyle(u32, Wd),
    Text(u32, Wd),
    Math(u32, Wd),
    Definition(u32, Wd),
    Tag(u32, Wd),
    List(u32, Wd),
    Table(u32, Wd),
    Cell(u32, Wd),
    Image(u32, Wd),
    File(u32, Wd),
    Outline(u32, Wd),
    Title(u32, Wd),
    PageNode(u32, Wd),
    Stroke(u32, Wd),
    Section(u32, Wd),
    Toc(u32, Wd),
}
#[derive(Clone, Copy, PartialEq)]
enum Wd {
    B1,
    B2,
    B4,
}
use Wd::*;

fn none(_: u64, _: &mut Rng) -> u32 {
    0
}
fn one(f: &'static str, v: Option<String>) -> Option<Lines> {
    v.map(|v| vec![(f, v)])
}
fn x_charset(v: u32) -> Option<Lines> {
    one("charset", charset(v as u8).map(Into::into))
}
fn x_par(v: u32) -> Option<Lines> {
    Some(vec![("align", par_align(v as u8).into())])
}
fn x_align_parent(v: u32) -> Option<Lines> {
    one("al_parent", align(v).ok())
}
fn x_align_self(v: u32) -> Option<Lines> {
    one("al_self", align(v).ok())
}
fn x_silent_align(v: u32) -> Option<Lines> {
    align(v).ok().map(|_| vec![("kind", "file".into())])
}
fn d_align(k: u64, r: &mut Rng) -> u32 {
    if k < 256 {
        // the bits that mean something, then with others set
        let k = k as u32;
        (k & 15) | (k >> 4 & 1) << 16 | (k >> 5 & 1) << 19 | (k >> 6 & 1) << 31 | if k >> 7 == 1 { r.u32() & 0x7ff6_fff0 } else { 0 }
    } else {
        match r.below(3) {
            0 => 1 << r.below(32) | r.below(8) as u32,
            1 => r.u32() & !0x8000_0000,
            _ => r.u32(),
        }
    }
}
fn x_font_color(v: u32) -> Option<Lines> {
    one("color", cref(v).ok())
}
fn x_highlight(v: u32) -> Option<Lines> {
    one("highlight", cref(v).ok())
}
fn x_text_color(v: u32) -> Option<Lines> {
    one("text_color", cref(v).ok())
}
fn d_cref(k: u64, r: &mut Rng) -> u32 {
    match k {
        0..256 => (k as u32) << 24 | r.u32() & 0xff_ffff,
        256..280 => 1 << (k - 256),
        280..304 => 0xff00_0000 | 1 << (k - 280),
        304 => 0,
        305 => 0xffff_ffff,
        306 => 0xff00_0000,
        307 => 0xff_ffff,
        _ => match r.below(4) {
            0 => 0xff00_0000 | r.u32() & 0xff_ffff,
            1 => r.u32(),
            _ => r.u32() & 0xff_ffff,
        },
    }
}
fn x_color(v: u32) -> Option<Lines> {
    Some(vec![("color", color(v))])
}
fn x_background(v: u32) -> Option<Lines> {
    Some(vec![("background", color(v))])
}
fn d_u32(k: u64, r: &mut Rng) -> u32 {
    match k {
        0..32 => 1 << k,
        32..64 => !(1 << (k - 32)),
        64..320 => (k as u32 - 64) << 24 | r.u32() & 0xff_ffff,
        320 => 0,
        321 => u32::MAX,
        _ => r.u32(),
    }
}
fn x_shape(v: u32) -> Option<Lines> {
    shape(v as u16).map(|s| vec![("shape", s.to_string()), ("checkable", s_d(checkable(s)))])
}
fn x_action(v: u32) -> Option<Lines> {
    Some(vec![("action", action_type(v as u16))])
}
fn x_item(v: u32) -> Option<Lines> {
    Some(vec![("status", item_status(v as u16))])
}
fn x_status(v: u32) -> Option<Lines> {
    Some(vec![("status", prop_status(v))])
}
fn d_status(k: u64, r: &mut Rng) -> u32 {
    if k < 4096 { k as u32 | if k % 2 == 0 { 0 } else { r.u32() & !0xfff } } else { r.u32() }
}
fn x_file(v: u32) -> Option<Lines> {
    one("type", file_type(Some(v)).map(Into::into))
}
fn small(k: u64, r: &mut Rng) -> u32 {
    match k {
        0..300 => k as u32,
        300..332 => 1 << (k - 300),
        332..364 => 1 | 1 << (k - 332),
        364..396 => u32::MAX << (k - 364),
        _ => match r.below(3) {
            0 => r.below(40) as u32 | 1 << r.below(32),
            1 => 0x9000_0000u32.wrapping_add(r.below(64) as u32).wrapping_sub(32),
            _ => r.u32(),
        },
    }
}
fn x_math(v: u32) -> Option<Lines> {
    MATH.iter().find(|m| m.0 == v).map(|m| vec![("type", m.1.to_string())])
}
fn x_char0(v: u32) -> Option<Lines> {
    char::from_u32(v & 0xffff).map(|c| vec![("char", s_char(c))])
}
fn x_char1(v: u32) -> Option<Lines> {
    char::from_u32(v & 0xffff).map(|c| vec![("char1", s_char(c))])
}
fn x_char2(v: u32) -> Option<Lines> {
    char::from_u32(v & 0xffff).map(|c| vec![("char2", s_char(c))])
}
fn s_char(c: char) -> String {
    dump::s_od(Some(c))
}
fn x_bias(v: u32) -> Option<Lines> {
    (v <= 2).then(|| vec![("kind", "ink".into())])
}
fn x_page_size(v: u32) -> Option<Lines> {
    (v <= 15).then(|| vec![("level", "0".into())])
}

fn probes() -> Vec<Probe> {
    use Host::*;
    let mut v = vec![];
    let mut p = |name, all, draw, expect, host| v.push(Probe { name, all, draw, expect, host });
    p("charset of a run", 256, none, x_charset as Expect, RunStyle(0x0C001D01, B1));
    p("charset of a paragraph", 256, none, x_charset, ParStyle(0x0C001D01, B1));
    p("alignment of a paragraph", 256, none, x_par, Text(0x0C003477, B1));
    p("alignment of a run's style", 256, none, x_par, RunStyle(0x0C003477, B1));
    p("alignment of a paragraph's style", 256, none, x_par, ParStyle(0x0C003477, B1));
    p("font colour of a run", 0, d_cref, x_font_color, RunStyle(0x14001C0C, B4));
    p("highlight of a run", 0, d_cref, x_highlight, RunStyle(0x14001C0D, B4));
    p("font colour of a paragraph", 0, d_cref, x_font_color, ParStyle(0x14001C0C, B4));
    p("font colour of a list", 0, d_cref, x_font_color, List(0x14001C0C, B4));
    p("highlight of a tag", 0, d_cref, x_highlight, Definition(0x14003465, B4));
    p("text colour of a tag", 0, d_cref, x_text_color, Definition(0x14003466, B4));
    p("colour of a section", 0, d_u32, x_color, Section(0x14001CBE, B4));
    p("colour of a notebook", 0, d_u32, x_color, Toc(0x14001CBE, B4));
    p("background of a cell", 0, d_u32, x_background, Cell(0x14001E26, B4));
    p("shape of a tag", 65536, none, x_shape, Definition(0x10003464, B2));
    p("action type of a tag", 65536, none, x_action, Definition(0x10003463, B2));
    p("status of a tag", 65536, none, x_item, Tag(0x10003470, B2));
    p("property status of a tag", 0, d_status, x_status, Definition(0x14003467, B4));
    p("media type of a file", 0, small, x_file, File(0x14001D24, B4));
    p("math object type", 0, small, x_math, Math(0x1400344F, B4));
    p("math character", 65536, none, x_char0, Math(0x10003453, B2));
    p("math character 1", 65536, none, x_char1, Math(0x10003454, B2));
    p("math character 2", 65536, none, x_char2, Math(0x10003455, B2));
    p("ink bias", 256, none, x_bias, Stroke(0x0C00341C, B1));
    p("page size", 0, small, x_page_size, PageNode(0x14001C8B, B4));
    for (id, parent) in [(0x14001C3E, true), (0x14001C84, false)] {
        let x: Expect = if parent { x_align_parent } else { x_align_self };
        let n = |a: &'static str, b: &'static str| if parent { a } else { b };
        p(n("layout alignment of a text in its parent", "layout alignment of a text"), 0, d_align, x, Text(id, B4));
        p(n("layout alignment of a table in its parent", "layout alignment of a table"), 0, d_align, x, Table(id, B4));
        p(n("layout alignment of an image in its parent", "layout alignment of an image"), 0, d_align, x, Image(id, B4));
        p(n("layout alignment of an outline in its parent", "layout alignment of an outline"), 0, d_align, x, Outline(id, B4));
        p(n("layout alignment of a title in its parent", "layout alignment of a title"), 0, d_align, x, Title(id, B4));
        p(n("layout alignment of a file in its parent", "layout alignment of a file"), 0, d_align, x_silent_align, File(id, B4));
    }
    v
}

fn pv(w: Wd, v: u32) -> PV {
    match w {
        B1 => PV::U8(v as u8),
        B2 => PV::U16(v as u16),
        B4 => PV::U32(v),
    }
}
fn put(mut ps: Vec<Prop>, id: u32, w: Wd, v: u32, r: &mut Rng) -> Vec<Prop> {
    let q = prop(id, pv(w, v));
    ps.retain(|p| p.id != q.id);
    let at = r.below(ps.len() + 1);
    ps.insert(at, q);
    ps
}

/// A document with one item per value, and where the answers are.
fn build(h: Host, vals: &[u32], r: &mut Rng) -> (Store, Vec<String>) {
    let mut m = Mini::new();
    let mut paths = vec![];
    let mut contents = vec![];
    let mut page_level = vec![];
    for (k, &v) in vals.iter().enumerate() {
        let at = format!("s.s0.p0.c0.i{k}.c0");
        let mut lists = vec![];
        let c = match h {
            Host::ParStyle(id, w) => {
                let s = m.add(0x12004D, put(vec![], id, w, v, r));
                let mut ps = m.text_props("x");
                ps[1] = prop(0x2000342C, PV::Oid(s));
                paths.push(format!("{at}.style"));
                m.add(0x6000E, ps)
            }
            Host::RunStyle(id, w) => {
                let s = m.add(0x12004D, put(vec![], id, w, v, r));
                let mut ps = m.text_props("x");
                ps.push(oids(0x24001E13, vec![s]));
                paths.push(format!("{at}.r0"));
                m.add(0x6000E, ps)
            }
            Host::Text(id, w) => {
                let ps = put(m.text_props("x"), id, w, v, r);
                paths.push(at);
                m.add(0x6000E, ps)
            }
            Host::Math(id, w) => {
                let s = m.add(0x12004D, vec![prop(0x08003401, PV::Bool(true))]);
                let mut ps = m.text_props("x");
                ps.push(oids(0x24001E13, vec![s]));
                ps.push(prop(0x40003499, PV::Sets(0x44003499, vec![put(vec![u32p(0x1400344F, 16)], id, w, v, r)])));
                paths.push(format!("{at}.mo0"));
                m.add(0x6000E, ps)
            }
            Host::Definition(id, w) => {
                let d = vec![
                    prop(0x1C003468, rv(utf16("label"))),
                    u32p(0x14003467, 0),
                    prop(0x10003464, PV::U16(3)),
                    prop(0x10003463, PV::U16(100)),
                ];
                let d = m.add(0x120043, put(d, id, w, v, r));
                let set = vec![u32p(0x1400346E, 1), prop(0x10003470, PV::U16(0)), prop(0x20003488, PV::Oid(d))];
                let (c, p) = tagged(&mut m, set, r, &at);
                paths.push(format!("{p}.t0.def"));
                c
            }
            Host::Tag(id, w) => {
                let set = put(vec![u32p(0x1400346E, 1)], id, w, v, r);
                let (c, p) = tagged(&mut m, set, r, &at);
                paths.push(format!("{p}.t0"));
                c
            }
            Host::List(id, w) => {
                let f = [&[3u8, 0][..], &utf16("a.b")].concat();
                lists.push(m.add(0x60012, put(vec![u32p(0x14001D7A, 1), prop(0x1C001C1A, rv(f))], id, w, v, r)));
                paths.push(format!("s.s0.p0.c0.i{k}.l0"));
                m.text("x")
            }
            Host::Table(id, w) => {
                let row = m.row(vec![]);
                paths.push(at);
                let ps = put(Mini::table_props(vec![row]), id, w, v, r);
                m.add(0x60022, ps)
            }
            Host::Cell(id, w) => {
                let c = m.add(0x60024, put(vec![prop(0x1C001C12, rv(vec![0; 4])), oids(0x24001C20, vec![])], id, w, v, r));
                let row = m.row(vec![c]);
                paths.push(format!("{at}.w0.x0"));
                m.table(vec![row])
            }
            Host::Image(id, w) => {
                let c = m.container(0x80039, Some(vec![1, 2, 3]));
                let ps = put(Mini::image_props(c), id, w, v, r);
                paths.push(at);
                m.add(0x60011, ps)
            }
            Host::File(id, w) => {
                let c = m.container(0x80036, Some(vec![1, 2, 3]));
                let ps = vec![u32p(0x14001D7A, 1), prop(0x20001D9B, PV::Oid(c)), prop(0x1C001D9C, rv(utf16("f.bin")))];
                paths.push(at);
                m.add(0x60035, put(ps, id, w, v, r))
            }
            Host::Stroke(id, w) => {
                let sp = m.add(
                    0x120048,
                    vec![
                        u32p(0x1400340C, 1f32.to_bits()),
                        u32p(0x1400340D, 1f32.to_bits()),
                        prop(0x1C00340A, rv(Mini::dims(&[DIM_X, DIM_Y]))),
                    ],
                );
                let st = put(vec![prop(0x1C00340B, rv(mb_path(&[1, 2, 3, 4]))), prop(0x20003409, PV::Oid(sp))], id, w, v, r);
                let s = m.add(0x20047, st);
                let d = m.add(0x2003B, vec![oids(0x24003416, vec![s])]);
                paths.push(at);
                m.add(0x60014, Mini::ink_props(d))
            }
            Host::Outline(id, w) => {
                let o = m.add(0x6000C, put(Mini::outline_props(vec![]), id, w, v, r));
                page_level.push(o);
                paths.push(format!("s.s0.p0.c{k}"));
                continue;
            }
            Host::Title(..) => {
                paths.push("s.s0.p0.title".into());
                m.text("x")
            }
            Host::PageNode(..) => {
                paths.push("s.s0.p0".into());
                m.text("x")
            }
            Host::Section(..) | Host::Toc(..) => {
                paths.push(if matches!(h, Host::Toc(..)) { "n" } else { "s" }.into());
                m.text("x")
            }
        };
        let ps = m.element_props(vec![], vec![c], lists);
        contents.push(m.add(0x6000D, ps));
    }
    if !matches!(h, Host::Outline(..)) {
        page_level = vec![m.outline(contents)];
    }
    let title = matches!(h, Host::Title(..)).then(|| vec![m.outline(vec![])]);
    let mut s = if let Host::Toc(id, w) = h {
        let mut n = toc_node(1, vec![]);
        n.props = put(n.props, id, w, vals[0], r);
        toc_of(vec![n])
    } else {
        m.page(page_level, title)
    };
    let into = match h {
        Host::Title(id, w) => Some((0x6002C, id, w)),
        Host::PageNode(id, w) => Some((0x6000B, id, w)),
        Host::Section(id, w) => Some((0x20031, id, w)),
        _ => None,
    };
    if let Some((j, id, w)) = into {
        for o in s.objs_mut().filter(|o| o.jcid == j) {
            o.props = put(std::mem::take(&mut o.props), id, w, vals[0], r);
        }
    }
    (s, paths)
}

/// An item with the tag, of any of the kinds that take tags.
fn tagged(m: &mut Mini, set: Vec<Prop>, r: &mut Rng, at: &str) -> (EG, String) {
    let t = prop(0x40003489, PV::Sets(0x44000811, vec![set]));
    let c = match r.below(4) {
        0 => {
            let row = m.row(vec![]);
            let mut ps = Mini::table_props(vec![row]);
            ps.push(t);
            m.add(0x60022, ps)
        }
        1 => {
            let c = m.container(0x80039, Some(vec![1]));
            let mut ps = Mini::image_props(c);
            ps.push(t);
            m.add(0x60011, ps)
        }
        2 => {
            let c = m.container(0x80036, Some(vec![1]));
            m.add(0x60035, vec![u32p(0x14001D7A, 1), prop(0x20001D9B, PV::Oid(c)), prop(0x1C001D9C, rv(utf16("f"))), t])
        }
        _ => {
            let mut ps = m.text_props("x");
            ps.push(t);
            m.add(0x6000E, ps)
        }
    };
    (c, at.to_string())
}

const CHUNK: u64 = 256;
const SAMPLED: u64 = 4352;

/// (probe, first value) of the n-th case of a round over all values.
fn place(ps: &[Probe], mut n: u64) -> (usize, u64, u64) {
    let size = |p: &Probe| (if p.all > 0 { p.all as u64 } else { SAMPLED }).div_ceil(CHUNK);
    let round: u64 = ps.iter().map(size).sum();
    let pass = n / round;
    n %= round;
    for (i, p) in ps.iter().enumerate() {
        if n < size(p) {
            return (i, n * CHUNK, pass);
        }
        n -= size(p);
    }
    unreachable!()
}

pub fn round() -> u64 {
    let ps = probes();
    ps.iter().map(|p| (if p.all > 0 { p.all as u64 } else { SAMPLED }).div_ceil(CHUNK)).sum()
}

pub fn c28(out: &mut Out, n: u64) {
    let mut r = out.rng();
    let ps = probes();
    let (i, from, pass) = place(&ps, n);
    let p = &ps[i];
    let vals: Vec<u32> = if p.all > 0 {
        (from as u32..(from as u32 + CHUNK as u32).min(p.all)).collect()
    } else {
        (from..from + CHUNK).map(|k| (p.draw)(if pass > 0 { k + SAMPLED * pass } else { k }, &mut r)).collect()
    };
    let single = matches!(p.host, Host::Title(..) | Host::PageNode(..) | Host::Section(..) | Host::Toc(..));
    let (good, bad): (Vec<u32>, Vec<u32>) = vals.iter().partition(|v| (p.expect)(**v).is_some());
    let dir = matches!(p.host, Host::Toc(..)).then(|| Scratch::new("c28"));
    let size = if single { 1 } else { *r.pick(&[16, 64, 256]) };
    for c in good.chunks(size) {
        out.step(&format!("{}: {}...", p.name, c[0]));
        let (s, paths) = build(p.host, c, &mut r);
        let o = if r.flip() { Opts::mild() } else { Opts::canonical() };
        let e = encode(&s, &o, &mut r);
        let m = match parse(&dir, &e.bytes) {
            Ok(m) => m,
            Err(e) => {
                // a value at fault is shown alone
                let fault = c.iter().find(|v| {
                    let (s, _) = build(p.host, &[**v], &mut r);
                    parse(&dir, &encode(&s, &Opts::canonical(), &mut r).bytes).is_err()
                });
                match fault {
                    Some(v) => {
                        let (s, _) = build(p.host, &[*v], &mut r);
                        out.input = encode(&s, &Opts::canonical(), &mut r).bytes;
                        out.violation(format!("{}: the value {v:#x} is refused: {e}", p.name));
                    }
                    None => out.stat("well-formed files that were rejected", 1),
                }
                return;
            }
        };
        for (v, path) in c.iter().zip(&paths) {
            out.eval();
            out.nontrivial(crate::rng::hash_str(&format!("{} {v}", p.name)));
            for (f, want) in (p.expect)(*v).unwrap() {
                let got = m.get(&format!("{path}.{f}")).map(|s| s.as_str()).unwrap_or("nothing");
                if got != want {
                    let (s, _) = build(p.host, &[*v], &mut r);
                    out.input = encode(&s, &Opts::canonical(), &mut r).bytes;
                    out.violation(format!("{}: {v:#x}: expected {f} = {want}, got {got}", p.name));
                    return;
                }
            }
        }
        out.stat(&format!("values of: {}", p.name), c.len() as u64);
    }
    for v in bad {
        out.step(&format!("{}: {v:#x}", p.name));
        out.eval();
        out.nontrivial(crate::rng::hash_str(&format!("{} {v}", p.name)));
        let (s, _) = build(p.host, &[v], &mut r);
        let b = encode(&s, &Opts::canonical(), &mut r).bytes;
        if parse(&dir, &b).is_ok() {
            out.input = b;
            out.violation(format!("{}: the undefined value {v:#x} is accepted", p.name));
            return;
        }
        out.stat(&format!("undefined values of: {}", p.name), 1);
    }
}

fn parse(dir: &Option<Scratch>, b: &[u8]) -> Result<dump::Map, String> {
    match dir {
        None => match px::section(b, "x.one") {
            Res::Ok(s) => Ok(dump::dump_section(&s)),
            Res::Err(e) => Err(e),
            Res::Panic(e) => Err(format!("panic {e}")),
        },
        Some(d) => {
            let p = d.0.join("x.onetoc2");
            std::fs::write(&p, b).unwrap();
            match px::notebook(&p) {
                Res::Ok(s) => Ok(dump::dump_notebook(&s)),
                Res::Err(e) => Err(e),
                Res::Panic(e) => Err(format!("panic {e}")),
            }
        }
    }
}
