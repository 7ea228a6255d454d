//! Calls into the code under test, guarded.
use crate::sys;
use onenote_parser::Parser;
use onenote_parser::notebook::Notebook;
use onenote_parser::section::Section;
use std::path::Path;

pub enum Res<T> {
    Ok(T),
    Err(String),
    Panic(String),
}
impl<T> Res<T> {
    pub fn is_ok(&self) -> bool {
        matches!(self, Res::Ok(_))
    }
    pub fn is_err(&self) -> bool {
        matches!(self, Res::Err(_))
    }
    /// short description
    pub fn what(&self) -> String {
        match self {
            Res::Ok(_) => "Ok".into(),
            Res::Err(e) => format!("Err({})", e.chars().take(300).collect::<String>()),
            Res::Panic(e) => format!("panic: {}", e.chars().take(300).collect::<String>()),
        }
    }
    pub fn err(&self) -> Option<&str> {
        match self {
            Res::Err(e) => Some(e),
            _ => None,
        }
    }
}

/// Processor seconds and heap bytes granted to one call.
#[derive(Clone, Copy)]
pub struct Lim {
    pub cpu: f64,
    pub heap: usize,
}
pub const LIM: Lim = Lim { cpu: 25.0, heap: 3 << 30 };

pub fn guard<T, E: std::fmt::Display>(lim: Lim, f: impl FnOnce() -> Result<T, E>) -> Res<T> {
    sys::cpu_limit(lim.cpu);
    sys::heap_limit(Some(lim.heap));
    let r = sys::caught(|| match f() {
        Ok(v) => Res::Ok(v),
        Err(e) => Res::Err(e.to_string()),
    });
    sys::heap_limit(None);
    sys::cpu_limit(0.0);
    r.unwrap_or_else(Res::Panic)
}

pub fn section(data: &[u8], name: &str) -> Res<Section> {
    section_lim(data, name, LIM)
}
pub fn section_lim(data: &[u8], name: &str, lim: Lim) -> Res<Section> {
    guard(lim, || Parser::new().parse_section_buffer(data, Path::new(name)))
}
pub fn section_file(path: &Path) -> Res<Section> {
    guard(LIM, || Parser::new().parse_section(path))
}
pub fn notebook(path: &Path) -> Res<Notebook> {
    notebook_lim(path, LIM)
}
pub fn notebook_lim(path: &Path, lim: Lim) -> Res<Notebook> {
    guard(lim, || Parser::new().parse_notebook(path))
}
