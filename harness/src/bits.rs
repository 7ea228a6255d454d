//! Byte writer for the FSSHTTPB / ONESTORE wire format. Every syntactic token that is written is
//! also recorded as a `Mark`, so that fault injection knows what each byte means.
use crate::rng::Rng;

/// 16 bytes in wire order.
pub type G = [u8; 16];

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct EG {
    pub g: G,
    pub v: u32,
}
pub const NIL: EG = EG { g: [0; 16], v: 0 };
pub type Cell = (EG, EG);

/// Parses a textual GUID into wire order (first three fields little endian).
pub fn guid(s: &str) -> G {
    let h: Vec<u8> = s.bytes().filter(|b| *b != b'-').collect();
    let mut raw = [0u8; 16];
    for i in 0..16 {
        raw[i] = u8::from_str_radix(std::str::from_utf8(&h[2 * i..2 * i + 2]).unwrap(), 16).unwrap();
    }
    [
        raw[3], raw[2], raw[1], raw[0], raw[5], raw[4], raw[7], raw[6], raw[8], raw[9], raw[10],
        raw[11], raw[12], raw[13], raw[14], raw[15],
    ]
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mk {
    /// start header; the two kinds accepted at this place
    Hdr { strict16: bool, strict32: bool },
    End8,
    End16,
    ExGuidTag,
    /// mandatory zero padding
    Pad,
    FormatGuid,
    Version,
    LogRef,
    ElemType,
    Freq,
    /// compact integer counting items that follow
    Count,
    /// compact integer giving a byte length that follows
    Len,
    /// compact integer that is informational
    Info,
    SerialTag,
    /// an object's property stream (offset, length)
    ObjData,
    Blob,
    /// one whole data element
    Element(u8),
    /// one whole child (declaration, data entry, mapping ...) of the given stream object type
    Child(u16),
}

#[derive(Clone, Copy, Debug)]
pub struct Mark {
    pub off: usize,
    pub len: usize,
    pub kind: Mk,
}

/// How freely representation choices are made.
#[derive(Clone)]
pub struct W {
    pub out: Vec<u8>,
    pub marks: Vec<Mark>,
    /// percentage of places at which a non-canonical representation is chosen
    pub wild: u32,
    pub rng: Rng,
}

impl W {
    pub fn new(wild: u32, rng: Rng) -> W {
        W { out: vec![], marks: vec![], wild, rng }
    }
    fn w(&mut self) -> bool {
        self.wild > 0 && self.rng.pct(self.wild)
    }
    pub fn mark(&mut self, off: usize, kind: Mk) {
        let len = self.out.len() - off;
        self.marks.push(Mark { off, len, kind });
    }
    pub fn pos(&self) -> usize {
        self.out.len()
    }
    pub fn raw(&mut self, b: &[u8]) {
        self.out.extend_from_slice(b);
    }
    pub fn u8(&mut self, v: u8) {
        self.out.push(v);
    }
    pub fn u16(&mut self, v: u16) {
        self.raw(&v.to_le_bytes());
    }
    pub fn u32(&mut self, v: u32) {
        self.raw(&v.to_le_bytes());
    }
    pub fn u64(&mut self, v: u64) {
        self.raw(&v.to_le_bytes());
    }
    /// Compact unsigned integer ([FSSHTTPB] 2.2.1.1), minimal width or any wider one.
    pub fn cu64(&mut self, v: u64, kind: Mk) {
        let off = self.pos();
        if v == 0 && !self.w() {
            self.u8(0);
        } else {
            let min = (1..=9usize).find(|n| *n == 9 || v < 1u64 << (7 * n)).unwrap();
            let n = if self.w() { self.rng.range(min, 9) } else { min };
            self.cu64_n(v, n);
        }
        self.mark(off, kind);
    }
    pub fn cu64_n(&mut self, v: u64, n: usize) {
        // width n in bytes: n-1 zero bits then a one bit in the low bits of the first byte,
        // followed by 7n bits of value (n = 8 has 56 bits, n = 9: byte 0x00 + 64 bits is written
        // as 128 followed by 8 bytes)
        match n {
            9 => {
                self.u8(128);
                self.u64(v);
            }
            8 => {
                self.u8(128u8);
                self.u64(v);
            }
            _ => {
                let x = (v << n) | (1u64 << (n - 1));
                let b = x.to_le_bytes();
                self.raw(&b[..n]);
            }
        }
    }
    pub fn exguid(&mut self, e: EG) {
        let off = self.pos();
        if e == NIL {
            self.u8(0);
            self.mark(off, Mk::ExGuidTag);
            return;
        }
        let min = if e.v < 32 {
            0
        } else if e.v < 1 << 10 {
            1
        } else if e.v < 1 << 17 {
            2
        } else {
            3
        };
        let k = if self.w() { self.rng.range(min, 3) } else { min };
        match k {
            0 => self.u8(((e.v << 3) | 4) as u8),
            1 => {
                self.u8((((e.v & 3) << 6) | 32) as u8);
                self.u8((e.v >> 2) as u8);
            }
            2 => {
                self.u8((((e.v & 1) << 7) | 64) as u8);
                self.u16((e.v >> 1) as u16);
            }
            _ => {
                self.u8(128);
                self.u32(e.v);
            }
        }
        self.raw(&e.g);
        self.mark(off, Mk::ExGuidTag);
    }
    pub fn cell(&mut self, c: Cell) {
        self.exguid(c.0);
        self.exguid(c.1);
    }
    pub fn exguids(&mut self, v: &[EG]) {
        self.cu64(v.len() as u64, Mk::Count);
        for e in v {
            self.exguid(*e);
        }
    }
    pub fn cells(&mut self, v: &[Cell]) {
        self.cu64(v.len() as u64, Mk::Count);
        for e in v {
            self.cell(*e);
        }
    }
    pub fn serial(&mut self, s: Option<(G, u64)>) {
        let off = self.pos();
        match s {
            None => self.u8(0),
            Some((g, v)) => {
                self.u8(128);
                self.raw(&g);
                self.u64(v);
            }
        }
        self.mark(off, Mk::SerialTag);
    }
    pub fn binary(&mut self, b: &[u8]) {
        self.cu64(b.len() as u64, Mk::Len);
        self.raw(b);
    }
    fn hdr16_raw(&mut self, ty: u16, compound: bool, len: usize) {
        self.u16(((compound as u16) << 2) | (ty << 3) | ((len.min(127) as u16) << 9));
    }
    fn hdr32_raw(&mut self, ty: u16, compound: bool, len: u64) {
        let (l, big) = if len >= 0x7fff { (0x7fff, true) } else { (len as u32, false) };
        self.u32(2 | ((compound as u32) << 2) | ((ty as u32) << 3) | (l << 17));
        if big {
            self.cu64(len, Mk::Info);
        }
    }
    /// A header that must be 16 bits wide.
    pub fn h16(&mut self, ty: u16, compound: bool, len: usize) {
        let off = self.pos();
        self.hdr16_raw(ty, compound, len);
        self.mark(off, Mk::Hdr { strict16: true, strict32: false });
    }
    /// A header that must be 32 bits wide.
    pub fn h32(&mut self, ty: u16, compound: bool, len: u64) {
        let off = self.pos();
        self.hdr32_raw(ty, compound, len);
        self.mark(off, Mk::Hdr { strict16: false, strict32: true });
    }
    /// A header that may have either width.
    pub fn hany(&mut self, ty: u16, compound: bool, len: usize) {
        let off = self.pos();
        if ty > 0x3f || len > 127 || self.w() {
            self.hdr32_raw(ty, compound, len as u64);
        } else {
            self.hdr16_raw(ty, compound, len);
        }
        self.mark(off, Mk::Hdr { strict16: false, strict32: false });
    }
    pub fn end8(&mut self, ty: u8) {
        let off = self.pos();
        self.u8((ty << 2) | 1);
        self.mark(off, Mk::End8);
    }
    pub fn end16(&mut self, ty: u16) {
        let off = self.pos();
        self.u16((ty << 2) | 3);
        self.mark(off, Mk::End16);
    }
}
