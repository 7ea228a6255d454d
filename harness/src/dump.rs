//! Flattens parse results into path -> value lines through the public accessors only.
use onenote_parser::contents::*;
use onenote_parser::notebook::Notebook;
use onenote_parser::page::{Page, PageContent, PageSeries, Title};
use onenote_parser::property::common::{Color, ColorRef};
use onenote_parser::section::{Section, SectionEntry, SectionGroup};
use std::collections::BTreeMap;
use std::fmt::Debug;

pub type Map = BTreeMap<String, String>;

pub fn s_str(s: &str) -> String {
    if s.len() <= 48 {
        format!("s{:?}", s)
    } else {
        format!("s[{} bytes, {:016x}] {:?}…", s.len(), crate::rng::hash_str(s), s.chars().take(12).collect::<String>())
    }
}
pub fn s_bytes(b: &[u8]) -> String {
    format!("b[{} bytes, {:016x}] {:02x?}", b.len(), crate::rng::hash_bytes(b), &b[..b.len().min(8)])
}
pub fn s_f(v: f32) -> String {
    if v.is_nan() { format!("f{:08x}", v.to_bits()) } else { format!("f{:08x}({})", v.to_bits(), v) }
}
pub fn s_opt<T>(v: Option<T>, f: impl Fn(T) -> String) -> String {
    match v {
        None => "-".into(),
        Some(v) => f(v),
    }
}
pub fn s_of(v: Option<f32>) -> String {
    s_opt(v, s_f)
}
pub fn s_os(v: Option<&str>) -> String {
    s_opt(v, s_str)
}
pub fn s_d<T: Debug>(v: T) -> String {
    format!("{:?}", v)
}
pub fn s_od<T: Debug>(v: Option<T>) -> String {
    s_opt(v, s_d)
}
pub fn s_rgba(a: u8, r: u8, g: u8, b: u8) -> String {
    format!("rgba({r},{g},{b},{a})")
}
pub fn s_color(c: Color) -> String {
    s_rgba(c.alpha(), c.r(), c.g(), c.b())
}
pub fn s_cref(c: ColorRef) -> String {
    match c {
        ColorRef::Auto => "auto".into(),
        ColorRef::Manual { r, g, b } => format!("rgb({r},{g},{b})"),
    }
}
pub fn s_vecf(v: &[f32]) -> String {
    let t: Vec<String> = v.iter().map(|f| format!("{:08x}", f.to_bits())).collect();
    let j = t.join(",");
    if t.len() > 12 { format!("{}f[{:016x}]", t.len(), crate::rng::hash_str(&j)) } else { format!("{}f[{}]", t.len(), j) }
}
pub fn s_vecu32(v: &[u32]) -> String {
    if v.len() > 16 {
        let b: Vec<u8> = v.iter().flat_map(|x| x.to_le_bytes()).collect();
        format!("{}u[{:016x}]", v.len(), crate::rng::hash_bytes(&b))
    } else {
        format!("{}u{:?}", v.len(), v)
    }
}

// LayoutAlignment cannot be named outside the crate: formatted through its accessors.
macro_rules! align {
    ($v:expr) => {
        match $v {
            None => "-".to_string(),
            Some(a) => format!(
                "{:?}/{:?}/{:?}/{:?}",
                a.alignment_horizontal(),
                a.alignment_margin_horizontal(),
                a.alignment_vertical(),
                a.alignment_margin_vertical()
            ),
        }
    };
}

pub struct D {
    pub m: Map,
}

impl D {
    fn put(&mut self, p: &str, n: &str, v: String) {
        self.m.insert(format!("{p}.{n}"), v);
    }

    pub fn notebook(&mut self, p: &str, n: &Notebook) {
        self.put(p, "color", s_opt(n.color(), s_color));
        self.entries(p, n.entries());
    }
    fn entries(&mut self, p: &str, e: &[SectionEntry]) {
        self.put(p, "entries#", e.len().to_string());
        for (i, e) in e.iter().enumerate() {
            match e {
                SectionEntry::Section(s) => self.section(&format!("{p}.e{i}"), s),
                SectionEntry::SectionGroup(g) => self.group(&format!("{p}.e{i}"), g),
            }
        }
    }
    fn group(&mut self, p: &str, g: &SectionGroup) {
        self.put(p, "kind", "group".into());
        self.put(p, "name", s_str(g.display_name()));
        self.entries(p, g.entries());
    }
    pub fn section(&mut self, p: &str, s: &Section) {
        self.put(p, "kind", "section".into());
        self.put(p, "name", s_str(s.display_name()));
        self.put(p, "color", s_opt(s.color(), s_color));
        self.put(p, "series#", s.page_series().len().to_string());
        for (i, ps) in s.page_series().iter().enumerate() {
            self.series(&format!("{p}.s{i}"), ps);
        }
    }
    fn series(&mut self, p: &str, s: &PageSeries) {
        self.put(p, "pages#", s.pages().len().to_string());
        for (i, pg) in s.pages().iter().enumerate() {
            self.page(&format!("{p}.p{i}"), pg);
        }
    }
    fn page(&mut self, p: &str, g: &Page) {
        self.put(p, "level", g.level().to_string());
        self.put(p, "author", s_os(g.author()));
        self.put(p, "height", s_of(g.height()));
        self.put(p, "title_text", s_os(g.title_text()));
        match g.title() {
            None => self.put(p, "title", "-".into()),
            Some(t) => {
                self.put(p, "title", "+".into());
                self.title(&format!("{p}.title"), t);
            }
        }
        self.put(p, "contents#", g.contents().len().to_string());
        for (i, c) in g.contents().iter().enumerate() {
            let q = format!("{p}.c{i}");
            match c {
                PageContent::Outline(o) => self.outline(&q, o),
                PageContent::Image(o) => self.image(&q, o),
                PageContent::EmbeddedFile(o) => self.file(&q, o),
                PageContent::Ink(o) => self.ink(&q, o),
                PageContent::Unknown => self.put(&q, "kind", "unknown".into()),
            }
            // the narrowing accessors agree with the variant
            let acc = format!(
                "{}{}{}{}",
                g.contents()[i].outline().is_some() as u8,
                g.contents()[i].image().is_some() as u8,
                g.contents()[i].embedded_file().is_some() as u8,
                g.contents()[i].ink().is_some() as u8
            );
            self.put(&q, "as", acc);
        }
    }
    fn title(&mut self, p: &str, t: &Title) {
        self.put(p, "off_h", s_f(t.offset_horizontal()));
        self.put(p, "off_v", s_f(t.offset_vertical()));
        self.put(p, "al_parent", align!(t.layout_alignment_in_parent()));
        self.put(p, "al_self", align!(t.layout_alignment_self()));
        self.put(p, "outlines#", t.contents().len().to_string());
        for (i, o) in t.contents().iter().enumerate() {
            self.outline(&format!("{p}.o{i}"), o);
        }
    }
    fn outline(&mut self, p: &str, o: &Outline) {
        self.put(p, "kind", "outline".into());
        self.put(p, "level", o.child_level().to_string());
        self.put(p, "list_spacing", s_of(o.list_spacing()));
        self.put(p, "indents", s_vecf(o.indents()));
        self.put(p, "al_parent", align!(o.alignment_in_parent()));
        self.put(p, "al_self", align!(o.alignment_self()));
        self.put(p, "max_h", s_of(o.layout_max_height()));
        self.put(p, "max_w", s_of(o.layout_max_width()));
        self.put(p, "reserved_w", s_of(o.layout_reserved_width()));
        self.put(p, "min_w", s_of(o.layout_minimum_outline_width()));
        self.put(p, "by_user", s_d(o.is_layout_size_set_by_user()));
        self.put(p, "off_h", s_of(o.offset_horizontal()));
        self.put(p, "off_v", s_of(o.offset_vertical()));
        self.items(p, o.items());
    }
    fn items(&mut self, p: &str, v: &[OutlineItem]) {
        self.put(p, "items#", v.len().to_string());
        for (i, it) in v.iter().enumerate() {
            let q = format!("{p}.i{i}");
            match it {
                OutlineItem::Group(g) => {
                    self.put(&q, "kind", "group".into());
                    self.put(&q, "level", g.child_level().to_string());
                    self.items(&q, g.outlines());
                }
                OutlineItem::Element(e) => self.element(&q, e),
            }
        }
    }
    fn element(&mut self, p: &str, e: &OutlineElement) {
        self.put(p, "kind", "element".into());
        self.put(p, "level", e.child_level().to_string());
        self.put(p, "list_spacing", s_of(e.list_spacing()));
        self.put(p, "contents#", e.contents().len().to_string());
        for (i, c) in e.contents().iter().enumerate() {
            let q = format!("{p}.c{i}");
            match c {
                Content::RichText(t) => self.rich(&q, t),
                Content::Table(t) => self.table(&q, t),
                Content::Image(t) => self.image(&q, t),
                Content::EmbeddedFile(t) => self.file(&q, t),
                Content::Ink(t) => self.ink(&q, t),
                Content::Unknown => self.put(&q, "kind", "unknown".into()),
            }
            let acc = format!(
                "{}{}{}{}{}",
                c.rich_text().is_some() as u8,
                c.table().is_some() as u8,
                c.image().is_some() as u8,
                c.embedded_file().is_some() as u8,
                c.ink().is_some() as u8
            );
            self.put(&q, "as", acc);
        }
        self.put(p, "lists#", e.list_contents().len().to_string());
        for (i, l) in e.list_contents().iter().enumerate() {
            self.list(&format!("{p}.l{i}"), l);
        }
        self.items(p, e.children());
    }
    fn list(&mut self, p: &str, l: &List) {
        self.put(p, "list_font", s_os(l.list_font()));
        self.put(p, "restart", s_od(l.list_restart()));
        self.put(p, "format", s_str(&l.list_format().iter().collect::<String>()));
        self.put(p, "bold", s_d(l.bold()));
        self.put(p, "italic", s_d(l.italic()));
        self.put(p, "font", s_os(l.font()));
        self.put(p, "size", s_od(l.font_size()));
        self.put(p, "color", s_opt(l.font_color(), s_cref));
    }
    fn style(&mut self, p: &str, s: &ParagraphStyling) {
        self.put(p, "charset", s_od(s.charset()));
        self.put(p, "bold", s_d(s.bold()));
        self.put(p, "italic", s_d(s.italic()));
        self.put(p, "underline", s_d(s.underline()));
        self.put(p, "strike", s_d(s.strikethrough()));
        self.put(p, "super", s_d(s.superscript()));
        self.put(p, "sub", s_d(s.subscript()));
        self.put(p, "font", s_os(s.font()));
        self.put(p, "size", s_od(s.font_size()));
        self.put(p, "color", s_opt(s.font_color(), s_cref));
        self.put(p, "highlight", s_opt(s.highlight(), s_cref));
        self.put(p, "next", s_os(s.next_style()));
        self.put(p, "id", s_os(s.style_id()));
        self.put(p, "align", s_od(s.paragraph_alignment()));
        self.put(p, "before", s_of(s.paragraph_space_before()));
        self.put(p, "after", s_of(s.paragraph_space_after()));
        self.put(p, "exact", s_of(s.paragraph_line_spacing_exact()));
        self.put(p, "lang", s_od(s.language_code()));
        self.put(p, "math", s_d(s.math_formatting()));
        self.put(p, "link", s_d(s.hyperlink()));
    }
    fn rich(&mut self, p: &str, t: &RichText) {
        self.put(p, "kind", "text".into());
        self.put(p, "text", s_str(t.text()));
        self.style(&format!("{p}.style"), t.paragraph_style());
        self.put(p, "runs#", t.text_run_formatting().len().to_string());
        for (i, s) in t.text_run_formatting().iter().enumerate() {
            self.style(&format!("{p}.r{i}"), s);
        }
        self.put(p, "run_ix", s_vecu32(t.text_run_indices()));
        self.put(p, "before", s_f(t.paragraph_space_before()));
        self.put(p, "after", s_f(t.paragraph_space_after()));
        self.put(p, "exact", s_of(t.paragraph_line_spacing_exact()));
        self.put(p, "align", s_d(t.paragraph_alignment()));
        self.put(p, "al_parent", align!(t.layout_alignment_in_parent()));
        self.put(p, "al_self", align!(t.layout_alignment_self()));
        self.tags(p, t.note_tags());
        self.put(p, "embedded#", t.embedded_objects().len().to_string());
        for (i, o) in t.embedded_objects().iter().enumerate() {
            let q = format!("{p}.eo{i}");
            match o {
                EmbeddedObject::Ink(c) => {
                    self.put(&q, "kind", "ink".into());
                    self.bbox(&q, "box", c.bounding_box().copied());
                    self.ink(&format!("{q}.ink"), c.ink());
                }
                EmbeddedObject::InkSpace(s) => {
                    self.put(&q, "kind", "space".into());
                    self.put(&q, "w", s_f(s.width()));
                    self.put(&q, "h", s_f(s.height()));
                }
                EmbeddedObject::InkLineBreak => self.put(&q, "kind", "break".into()),
            }
        }
        self.put(p, "math#", t.math_inline_objects().len().to_string());
        for (i, m) in t.math_inline_objects().iter().enumerate() {
            let q = format!("{p}.mo{i}");
            self.put(&q, "type", s_d(m.object_type()));
            self.put(&q, "args", m.arg_count().to_string());
            self.put(&q, "col", s_od(m.column()));
            self.put(&q, "align", s_od(m.align()));
            self.put(&q, "char", s_od(m.char()));
            self.put(&q, "char1", s_od(m.char1()));
            self.put(&q, "char2", s_od(m.char2()));
        }
    }
    fn tags(&mut self, p: &str, v: &[NoteTag]) {
        self.put(p, "tags#", v.len().to_string());
        for (i, t) in v.iter().enumerate() {
            let q = format!("{p}.t{i}");
            self.put(&q, "completed_at", s_od(t.completed_at()));
            let st = t.item_status();
            self.put(&q, "status", format!("{}{}{}", st.completed() as u8, st.disabled() as u8, st.task_tag() as u8));
            match t.definition() {
                None => self.put(&q, "def", "-".into()),
                Some(d) => {
                    self.put(&q, "def", "+".into());
                    let q = format!("{q}.def");
                    self.put(&q, "label", s_str(d.label()));
                    let s = d.status();
                    self.put(
                        &q,
                        "status",
                        [
                            s.has_label(),
                            s.has_font_color(),
                            s.has_highlight_color(),
                            s.has_icon(),
                            s.due_today(),
                            s.due_tomorrow(),
                            s.due_this_week(),
                            s.due_next_week(),
                            s.due_later(),
                            s.due_custom(),
                        ]
                        .iter()
                        .map(|b| if *b { '1' } else { '0' })
                        .collect(),
                    );
                    self.put(&q, "shape", s_d(d.shape()));
                    self.put(&q, "checkable", s_d(d.shape().is_checkable()));
                    self.put(&q, "highlight", s_opt(d.highlight_color(), s_cref));
                    self.put(&q, "text_color", s_opt(d.text_color(), s_cref));
                    self.put(&q, "action", s_d(d.action_item_type()));
                }
            }
        }
    }
    fn table(&mut self, p: &str, t: &Table) {
        self.put(p, "kind", "table".into());
        self.put(p, "rows", t.rows().to_string());
        self.put(p, "cols", t.cols().to_string());
        self.put(p, "locked", s_bytes(t.cols_locked()));
        self.put(p, "widths", s_vecf(t.col_widths()));
        self.put(p, "borders", s_d(t.borders_visible()));
        self.put(p, "al_parent", align!(t.layout_alignment_in_parent()));
        self.put(p, "al_self", align!(t.layout_alignment_self()));
        self.tags(p, t.note_tags());
        self.put(p, "rows#", t.contents().len().to_string());
        for (i, r) in t.contents().iter().enumerate() {
            let q = format!("{p}.w{i}");
            self.put(&q, "cells#", r.contents().len().to_string());
            for (j, c) in r.contents().iter().enumerate() {
                let z = format!("{q}.x{j}");
                self.put(&z, "max_w", s_of(c.layout_max_width()));
                self.put(&z, "indents", s_vecf(c.outline_indent_distance().value()));
                self.put(&z, "background", s_opt(c.background_color(), s_color));
                self.put(&z, "items#", c.contents().len().to_string());
                for (k, e) in c.contents().iter().enumerate() {
                    self.element(&format!("{z}.i{k}"), e);
                }
            }
        }
    }
    fn image(&mut self, p: &str, m: &Image) {
        self.put(p, "kind", "image".into());
        self.put(p, "data", s_opt(m.data(), s_bytes));
        self.put(p, "ext", s_os(m.extension()));
        self.put(p, "max_w", s_of(m.layout_max_width()));
        self.put(p, "max_h", s_of(m.layout_max_height()));
        self.put(p, "alt", s_os(m.alt_text()));
        self.put(p, "al_parent", align!(m.layout_alignment_in_parent()));
        self.put(p, "al_self", align!(m.layout_alignment_self()));
        self.put(p, "name", s_os(m.image_filename()));
        self.put(p, "page_no", s_od(m.displayed_page_number()));
        self.put(p, "text", s_os(m.text()));
        self.put(p, "lang", s_od(m.text_language_code()));
        self.put(p, "pic_w", s_of(m.picture_width()));
        self.put(p, "pic_h", s_of(m.picture_height()));
        self.put(p, "url", s_os(m.hyperlink_url()));
        self.put(p, "off_h", s_of(m.offset_horizontal()));
        self.put(p, "off_v", s_of(m.offset_vertical()));
        self.put(p, "background", s_d(m.is_background()));
        self.tags(p, m.note_tags());
        self.put(p, "embeds#", m.embeds().len().to_string());
        for (i, e) in m.embeds().iter().enumerate() {
            let q = format!("{p}.em{i}");
            self.put(&q, "type", s_od(e.embed_type()));
            self.put(&q, "url", s_str(e.source_url()));
        }
    }
    fn file(&mut self, p: &str, m: &EmbeddedFile) {
        self.put(p, "kind", "file".into());
        self.put(p, "name", s_str(m.filename()));
        self.put(p, "type", s_d(m.file_type()));
        self.put(p, "data", s_bytes(m.data()));
        self.put(p, "max_w", s_of(m.layout_max_width()));
        self.put(p, "max_h", s_of(m.layout_max_height()));
        self.put(p, "off_h", s_of(m.offset_horizontal()));
        self.put(p, "off_v", s_of(m.offset_vertical()));
        self.tags(p, m.note_tags());
    }
    fn bbox(&mut self, p: &str, n: &str, b: Option<InkBoundingBox>) {
        self.put(
            p,
            n,
            s_opt(b, |b| format!("x={} y={} w={} h={}", s_f(b.x()), s_f(b.y()), s_f(b.width()), s_f(b.height()))),
        );
        if let Some(b) = b {
            let c = b.scale(2.0);
            self.put(
                p,
                &format!("{n}x2"),
                format!("x={} y={} w={} h={}", s_f(c.x()), s_f(c.y()), s_f(c.width()), s_f(c.height())),
            );
        }
    }
    fn ink(&mut self, p: &str, k: &Ink) {
        self.put(p, "kind", "ink".into());
        self.put(p, "off_h", s_of(k.offset_horizontal()));
        self.put(p, "off_v", s_of(k.offset_vertical()));
        self.bbox(p, "bbox", k.bounding_box());
        self.put(p, "strokes#", k.ink_strokes().len().to_string());
        for (i, s) in k.ink_strokes().iter().enumerate() {
            let q = format!("{p}.k{i}");
            self.put(&q, "pen", s_od(s.pen_tip()));
            self.put(&q, "transparency", s_od(s.transparency()));
            self.put(&q, "w", s_f(s.width()));
            self.put(&q, "h", s_f(s.height()));
            self.put(&q, "color", s_od(s.color()));
            let x: Vec<f32> = s.path().iter().map(|p| p.x()).collect();
            let y: Vec<f32> = s.path().iter().map(|p| p.y()).collect();
            self.put(&q, "x", s_vecf(&x));
            self.put(&q, "y", s_vecf(&y));
        }
    }
}

pub fn dump_section(s: &Section) -> Map {
    let mut d = D { m: Map::new() };
    d.section("s", s);
    d.m
}
pub fn dump_notebook(s: &Notebook) -> Map {
    let mut d = D { m: Map::new() };
    d.notebook("n", s);
    d.m
}

/// Up to `max` differences between expected and actual.
pub fn diff(exp: &Map, act: &Map, relevant: &dyn Fn(&str) -> bool, max: usize) -> Vec<String> {
    let mut out = vec![];
    for (k, v) in exp {
        if out.len() >= max {
            break;
        }
        if !relevant(k) {
            continue;
        }
        match act.get(k) {
            None => out.push(format!("{k}: expected {v}, nothing returned")),
            Some(w) if w != v => out.push(format!("{k}: expected {v}, got {w}")),
            _ => {}
        }
    }
    for (k, w) in act {
        if out.len() >= max {
            break;
        }
        if relevant(k) && !exp.contains_key(k) {
            out.push(format!("{k}: unexpected {w}"));
        }
    }
    out
}
