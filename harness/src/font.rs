//! Builder for small synthetic TrueType fonts, and an independent reader for the metrics we need.
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;
use victor::fonts::Font;

#[derive(Clone, Debug)]
pub struct Spec {
    pub upem: u16,
    pub bbox: [i16; 4],
    pub asc: i16,
    pub desc: i16,
    pub n_glyphs: u16,
    pub n_metrics: u16,
    pub widths: Vec<u16>,
    pub cmaps: Vec<(u16, u16, Vec<u8>)>,
    pub names: Vec<(u16, u16, u16, Vec<u8>)>,
    pub scaler: u32,
    pub extra_tables: Vec<([u8; 4], Vec<u8>)>,
}

pub fn be16(v: &mut Vec<u8>, x: u16) { v.extend_from_slice(&x.to_be_bytes()) }
pub fn be32(v: &mut Vec<u8>, x: u32) { v.extend_from_slice(&x.to_be_bytes()) }

/// (end, start, delta, range_offset) per segment, then the glyph array.
pub fn cmap4(segs: &[(u16, u16, u16, u16)], glyphs: &[u16]) -> Vec<u8> {
    let n = segs.len() as u16;
    let mut v = Vec::new();
    be16(&mut v, 4);
    be16(&mut v, 16 + 8 * n + 2 * glyphs.len() as u16);
    be16(&mut v, 0);
    be16(&mut v, n * 2);
    let mut e = 0; while (2u32 << e) <= n as u32 { e += 1 }
    let sr = 2u16 << e;
    be16(&mut v, sr); be16(&mut v, e as u16); be16(&mut v, (n * 2).wrapping_sub(sr));
    for s in segs { be16(&mut v, s.0) }
    be16(&mut v, 0);
    for s in segs { be16(&mut v, s.1) }
    for s in segs { be16(&mut v, s.2) }
    for s in segs { be16(&mut v, s.3) }
    for g in glyphs { be16(&mut v, *g) }
    v
}

pub fn cmap12(groups: &[(u32, u32, u32)]) -> Vec<u8> {
    let mut v = Vec::new();
    be16(&mut v, 12); be16(&mut v, 0);
    be32(&mut v, 16 + 12 * groups.len() as u32); be32(&mut v, 0);
    be32(&mut v, groups.len() as u32);
    for g in groups { be32(&mut v, g.0); be32(&mut v, g.1); be32(&mut v, g.2) }
    v
}

pub fn mac_name(s: &str) -> Vec<(u16, u16, u16, Vec<u8>)> { vec![(1, 0, 6, s.as_bytes().to_vec())] }
pub fn win_name(s: &str) -> Vec<(u16, u16, u16, Vec<u8>)> {
    let mut v = Vec::new();
    for u in s.encode_utf16() { be16(&mut v, u) }
    vec![(3, 1, 6, v)]
}

impl Spec {
    /// 'a'..'z' => glyphs 1..=26, ' ' => 27.
    pub fn simple(name: &str) -> Spec {
        Spec {
            upem: 1000, bbox: [0, -200, 1000, 800], asc: 800, desc: -200, n_glyphs: 28, n_metrics: 28,
            widths: (0..28).map(|i| 500 + 10 * i).collect(),
            cmaps: vec![(3, 1, cmap4(&[(32, 32, 27u16.wrapping_sub(32), 0), (122, 97, 1u16.wrapping_sub(97), 0), (0xFFFF, 0xFFFF, 1, 0)], &[]))],
            names: mac_name(name), scaler: 0x10000, extra_tables: vec![],
        }
    }
    pub fn tables(&self) -> Vec<([u8; 4], Vec<u8>)> {
        let mut t: Vec<([u8; 4], Vec<u8>)> = self.extra_tables.clone();
        let mut v = Vec::new();
        be16(&mut v, 0); be16(&mut v, self.cmaps.len() as u16);
        let mut off = 4 + 8 * self.cmaps.len() as u32;
        for c in &self.cmaps { be16(&mut v, c.0); be16(&mut v, c.1); be32(&mut v, off); off += c.2.len() as u32 }
        for c in &self.cmaps { v.extend_from_slice(&c.2) }
        t.push((*b"cmap", v));
        let mut v = Vec::new();
        be32(&mut v, 0x10000); be32(&mut v, 0x10000); be32(&mut v, 0); be32(&mut v, 0x5F0F3CF5); be16(&mut v, 0); be16(&mut v, self.upem);
        v.extend_from_slice(&[0; 16]);
        for b in &self.bbox { be16(&mut v, *b as u16) }
        be16(&mut v, 0); be16(&mut v, 8); be16(&mut v, 2); be16(&mut v, 0); be16(&mut v, 0);
        t.push((*b"head", v));
        let mut v = Vec::new();
        be32(&mut v, 0x10000); be16(&mut v, self.asc as u16); be16(&mut v, self.desc as u16);
        for _ in 0..13 { be16(&mut v, 0) }
        v.truncate(34);
        while v.len() < 34 { v.push(0) }
        be16(&mut v, self.n_metrics);
        t.push((*b"hhea", v));
        let mut v = Vec::new();
        for i in 0..self.n_glyphs.max(self.n_metrics) {
            if i < self.n_metrics { be16(&mut v, *self.widths.get(i as usize).unwrap_or(&0)) }
            be16(&mut v, 0x7a7a); // left side bearing: would be noticed if taken for an advance width
        }
        t.push((*b"hmtx", v));
        let mut v = Vec::new();
        be32(&mut v, 0x10000); be16(&mut v, self.n_glyphs); v.extend_from_slice(&[0; 26]);
        t.push((*b"maxp", v));
        let mut v = Vec::new();
        let mut storage = Vec::new();
        be16(&mut v, 0); be16(&mut v, self.names.len() as u16); be16(&mut v, 6 + 12 * self.names.len() as u16);
        for (p, e, id, s) in &self.names {
            be16(&mut v, *p); be16(&mut v, *e); be16(&mut v, 0); be16(&mut v, *id); be16(&mut v, s.len() as u16); be16(&mut v, storage.len() as u16);
            storage.extend_from_slice(s);
        }
        v.extend_from_slice(&storage);
        t.push((*b"name", v));
        t.sort_by_key(|t| t.0);
        t
    }
    pub fn build(&self) -> Vec<u8> { assemble(self.scaler, &self.tables()).0 }
    pub fn font(&self) -> Arc<Font> { match Font::parse(self.build()) { Ok(f) => f, Err(e) => panic!("synthetic font rejected: {:?}", e) } }
}

/// Returns the bytes and each table's (tag, offset, length).
pub fn assemble(scaler: u32, t: &[([u8; 4], Vec<u8>)]) -> (Vec<u8>, Vec<([u8; 4], usize, usize)>) {
    let mut v = Vec::new();
    let mut pos = Vec::new();
    be32(&mut v, scaler); be16(&mut v, t.len() as u16); be16(&mut v, 64); be16(&mut v, 2); be16(&mut v, 0);
    let mut off = 12 + 16 * t.len();
    for (tag, d) in t {
        v.extend_from_slice(tag); be32(&mut v, 0); be32(&mut v, off as u32); be32(&mut v, d.len() as u32);
        pos.push((*tag, off, d.len()));
        off += (d.len() + 3) & !3;
    }
    for (_, d) in t { v.extend_from_slice(d); while v.len() % 4 != 0 { v.push(0) } }
    (v, pos)
}

/// Independent reading of the metrics used by layout (for fonts with a format 4 cmap).
pub struct Info { pub upem: f64, pub asc: f64, pub widths: Vec<u16>, pub cmap: BTreeMap<u16, u16>, pub rev: HashMap<u16, char> }

impl Info {
    pub fn read(b: &[u8]) -> Info {
        let u16_ = |p: usize| (b[p] as u16) << 8 | b[p + 1] as u16;
        let u32_ = |p: usize| (u16_(p) as usize) << 16 | u16_(p + 2) as usize;
        let n = u16_(4) as usize;
        let table = |tag: &[u8]| (0..n).map(|i| 12 + 16 * i).find(|&p| &b[p..p + 4] == tag).map(|p| u32_(p + 8)).unwrap();
        let (head, hhea, hmtx, cm) = (table(b"head"), table(b"hhea"), table(b"hmtx"), table(b"cmap"));
        let nm = u16_(hhea + 34) as usize;
        let widths = (0..nm).map(|i| u16_(hmtx + 4 * i)).collect();
        let mut cmap = BTreeMap::new();
        let mut rev = HashMap::new();
        for i in 0..u16_(cm + 2) as usize {
            let r = cm + 4 + 8 * i;
            if (u16_(r), u16_(r + 2)) == (3, 1) {
                let s = cm + u32_(r + 4);
                assert_eq!(u16_(s), 4);
                let sc = u16_(s + 6) as usize / 2;
                for k in 0..sc {
                    let (end, start, delta, ro) = (u16_(s + 14 + 2 * k), u16_(s + 16 + 2 * sc + 2 * k), u16_(s + 16 + 4 * sc + 2 * k), u16_(s + 16 + 6 * sc + 2 * k));
                    for c in start..=end {
                        let g = if ro == 0 { c.wrapping_add(delta) } else {
                            let g = u16_(s + 16 + 6 * sc + 2 * k + ro as usize + 2 * (c - start) as usize);
                            if g == 0 { 0 } else { g.wrapping_add(delta) }
                        };
                        if g != 0 {
                            cmap.insert(c, g);
                            if let Some(ch) = std::char::from_u32(c as u32) { rev.entry(g).or_insert(ch); }
                        }
                    }
                }
            }
        }
        Info { upem: u16_(head + 18) as f64, asc: u16_(hhea + 4) as i16 as f64 / u16_(head + 18) as f64, widths, cmap, rev }
    }
    pub fn gid(&self, c: char) -> u16 { if (c as u32) > 0xFFFF { 0 } else { *self.cmap.get(&(c as u32 as u16)).unwrap_or(&0) } }
    pub fn width(&self, g: u16) -> f64 { let i = (g as usize).min(self.widths.len() - 1); self.widths[i] as f64 / self.upem }
    pub fn text_width(&self, s: &str) -> f64 { s.chars().map(|c| self.width(self.gid(c))).sum() }
    pub fn decode(&self, g: &[u16]) -> String { g.iter().map(|g| *self.rev.get(g).unwrap_or(&'\u{FFFD}')).collect() }
}

pub fn vera() -> &'static Info {
    use std::sync::Once;
    static ONCE: Once = Once::new();
    static mut INFO: Option<Info> = None;
    unsafe {
        ONCE.call_once(|| { INFO = Some(Info::read(victor::fonts::BITSTREAM_VERA_SANS.bytes())); });
        INFO.as_ref().unwrap()
    }
}
