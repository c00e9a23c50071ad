//! C04–C07: fonts, character maps, malformed fonts, shaped segments.
use crate::engine::*;
use crate::font::*;
use crate::pdf::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use victor::fonts::Font;
use victor::pdf::Document;
use victor::primitives::*;
use victor::text::ShapedSegment;

type Res<T> = Result<T, String>;

fn show(page: &mut victor::pdf::Page, seg: &ShapedSegment) -> Result<(), String> {
    page.show_text(&TextRun { segment: seg, font_size: Length::new(10.), origin: point(1., 20.) }).map(|_| ()).map_err(|e| format!("show_text: {:?}", e))
}

/// The document that shows one text.
fn embed(font: &Arc<Font>, text: &str) -> Res<Vec<u8>> {
    let seg = ShapedSegment::naive_shape(text, font.clone()).map_err(|e| format!("shaping {:?}: {:?}", text, e))?;
    let mut doc = Document::new();
    { let mut page = doc.add_page(Size::new(100., 100.)); show(&mut page, &seg)?; }
    Ok(doc.write_to_pdf_bytes())
}

fn glyphs_of(pdf: &Pdf) -> Res<Vec<(u32, Vec<u16>)>> {
    let mut v = Vec::new();
    for p in pdf.paint()? { for i in p { if let Paint::Text { font, glyphs, .. } = i { v.push((font, glyphs)) } else { return Err("unexpected rectangle".into()) } } }
    Ok(v)
}

// ---------------------------------------------------------------- reference character maps

#[derive(Clone, Debug)]
pub struct Seg { start: u16, end: u16, delta: u16, array: Option<Vec<u16>> }

pub fn encode4(segs: &[Seg]) -> Vec<u8> {
    let n = segs.len();
    let mut glyphs: Vec<u16> = Vec::new();
    let mut v = Vec::new();
    for (i, s) in segs.iter().enumerate() {
        let ro = match &s.array { None => 0, Some(a) => {
            // share an identical run if there is one
            let at = (0..glyphs.len()).find(|&p| glyphs[p..].starts_with(a)).unwrap_or_else(|| { let p = glyphs.len(); glyphs.extend_from_slice(a); p });
            2 * (n - i + at)
        } };
        v.push((s.end, s.start, s.delta, ro as u16));
    }
    cmap4(&v, &glyphs)
}

pub fn look4(segs: &[Seg], c: u32) -> u16 {
    if c > 0xFFFF { return 0 }
    for s in segs {
        if c <= s.end as u32 {
            if c < s.start as u32 { return 0 }
            return match &s.array {
                None => ((c + s.delta as u32) % 65536) as u16,
                Some(a) => match a[c as usize - s.start as usize] { 0 => 0, g => ((g as u32 + s.delta as u32) % 65536) as u16 },
            };
        }
    }
    0
}

pub fn look12(groups: &[(u32, u32, u32)], c: u32) -> u16 {
    for &(s, e, g) in groups { if c >= s && c <= e { let id = g as u64 + (c - s) as u64; return if id <= 0xFFFF { id as u16 } else { 0 } } }
    0
}

#[derive(Clone, Debug)]
pub enum Map { F4(Vec<Seg>), F12(Vec<(u32, u32, u32)>) }
impl Map {
    fn encode(&self) -> Vec<u8> { match self { Map::F4(s) => encode4(s), Map::F12(g) => cmap12(g) } }
    fn look(&self, c: u32) -> u16 { match self { Map::F4(s) => look4(s, c), Map::F12(g) => look12(g, c) } }
    fn record(&self) -> (u16, u16, Vec<u8>) { match self { Map::F4(_) => (3, 1, self.encode()), Map::F12(_) => (3, 10, self.encode()) } }
    fn ranges(&self) -> Vec<(u32, u32)> { match self { Map::F4(s) => s.iter().map(|s| (s.start as u32, s.end as u32)).collect(), Map::F12(g) => g.iter().map(|g| (g.0, g.1)).collect() } }
    fn queries(&self) -> String {
        let mut q = BTreeSet::new();
        let all = self.ranges();
        for (i, &(s, e)) in all.iter().enumerate() {
            if all.len() > 500 && i % 61 != 0 && i > 5 && i + 5 < all.len() && i & 0xFF != 0xFF { continue }
            for &c in &[s.wrapping_sub(1), s, s + 1, (s + e) / 2, e.wrapping_sub(1), e, e + 1] {
                q.insert(c); q.insert((c & 0xFFFF) + 0x10000); q.insert(c & 0xFFFF);
            }
        }
        for &c in &[0u32, 0x41, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x1FFFF, 0x10FFFF] { q.insert(c); }
        q.into_iter().filter_map(std::char::from_u32).collect()
    }
    fn reachable(&self) -> (BTreeSet<u16>, usize) {
        let mut s = BTreeSet::new();
        let mut n = 0;
        for (a, b) in self.ranges() { for c in a..=b.min(0x10FFFF) { if std::char::from_u32(c).is_some() { let g = self.look(c); if g != 0 { s.insert(g); n += 1; } } } }
        (s, n)
    }
}

fn last_seg(kind: usize) -> Seg {
    match kind {
        0 => Seg { start: 0xFFFF, end: 0xFFFF, delta: 1, array: None },
        1 => Seg { start: 0xFFFF, end: 0xFFFF, delta: 0, array: None },
        2 => Seg { start: 0xFFF0, end: 0xFFFF, delta: 0x0013, array: None },
        _ => Seg { start: 0xFFFE, end: 0xFFFF, delta: 3, array: Some(vec![7, 0]) },
    }
}

const B4: &[u16] = &[0, 0x20, 0x41, 0x42, 0x44, 0xFF, 0x100, 0x7FFF, 0x8000, 0xD7FF, 0xD800, 0xE000, 0xFFEF];

/// Increasing disjoint intervals over the boundary list.
fn intervals(ch: &mut Chooser, b: &[u16], max: usize, wide: bool) -> Option<Vec<(u16, u16)>> {
    let n = ch.choose(max + 1);
    let mut from = 0;
    let mut v = Vec::new();
    for _ in 0..n {
        if from >= b.len() { return None }
        let i = from + ch.choose(b.len() - from);
        let j = i + ch.choose(if wide { b.len() - i } else { 3.min(b.len() - i) });
        // one past the boundary makes adjacent segments
        v.push((b[i], b[j]));
        if !wide && b[j] - b[i] > 0x200 { return None }
        from = j + 1;
    }
    Some(v)
}

fn seg_kind(k: usize, s: u16, e: u16) -> Option<Seg> {
    let len = e as usize - s as usize + 1;
    let arr = |f: &dyn Fn(usize) -> u16| -> Option<Vec<u16>> { if len > 512 { None } else { Some((0..len).map(f).collect()) } };
    Some(Seg { start: s, end: e, delta: [0, 1, 0xFFFF, 1u16.wrapping_sub(s), 0x8000, 0u16.wrapping_sub(s), 0, 5, 0xFFFB, 0x8000][k],
        array: if k < 6 { None } else { Some(arr(&|i| [[3u16, 0, 9, 0xFFFF], [1, 2, 0xFFFB, 0], [5, 6, 0, 4], [0x8000, 1, 0x7FFF, 0]][k - 6][i % 4])?) } })
}

fn spec_with(maps: Vec<(u16, u16, Vec<u8>)>) -> Spec {
    let mut s = Spec::simple("Test");
    s.n_glyphs = 4; s.n_metrics = 2; s.widths = vec![500, 600]; s.cmaps = maps;
    s
}

fn check_shape(map: &Map, font: &Arc<Font>) -> Res<u64> {
    let q = map.queries();
    let pdf = Pdf::scan(&embed(font, &q)?)?;
    let g = glyphs_of(&pdf)?;
    if g.len() != 1 { return Err(format!("{} texts shown", g.len())) }
    let want: Vec<u16> = q.chars().map(|c| map.look(c as u32)).collect();
    if g[0].1.len() != want.len() { return Err(format!("{} characters became {} glyphs", want.len(), g[0].1.len())) }
    for ((c, w), g) in q.chars().zip(&want).zip(&g[0].1) { if w != g { return Err(format!("U+{:04X} is shown with glyph {}, the character map says {}", c as u32, g, w)) } }
    Ok(fp(&want))
}

pub fn c05(ctx: &mut Ctx) {
    fn conv(r: Res<u64>) -> Outcome { match r { Ok(h) => Ok(h), Err(e) => fail("glyph", e) } }
    let check = |m: &Map| conv(check_shape(m, &spec_with(vec![m.record()]).font()));
    let (k2, k3) = ctx.by((10usize, 4usize), (10, 8));
    let max = 3;
    ctx.section("segment mappings", |ch| {
        let iv = intervals(ch, B4, max, false)?;
        let kinds = if iv.len() < 3 { k2 } else { k3 };
        let mut segs = Vec::new();
        for (s, e) in iv { let k = ch.choose(kinds); let k = if kinds < 10 { [1, 3, 7, 9, 2, 4, 6, 8][k] } else { k }; segs.push(seg_kind(k, s, e)?) }
        segs.push(last_seg(ch.choose(4)));
        Some(Map::F4(segs))
    }, |m| format!("{:x?}", m), check);
    ctx.section("wide segment mappings", |ch| {
        let iv = intervals(ch, &[0, 0x20, 0x100, 0x8000, 0xD800, 0xFFEF], 2, true)?;
        let mut segs = Vec::new();
        for (s, e) in iv { segs.push(seg_kind(ch.choose(6), s, e)?) }
        segs.push(last_seg(ch.choose(4)));
        Some(Map::F4(segs))
    }, |m| format!("{:x?}", m), check);
    const B12: &[u32] = &[0, 0x20, 0x41, 0x42, 0xD800, 0xFFFF, 0x10000, 0x10001, 0x1F600, 0x10FFFF];
    let max12 = ctx.by(2usize, 3);
    let limit = ctx.by(0x12000u32, 0x110000);
    ctx.section("segmented coverage", |ch| {
        let n = ch.choose(max12 + 1);
        let mut from = 0;
        let mut v: Vec<(u32, u32, u32)> = Vec::new();
        for k in 0..n {
            if from >= B12.len() { return None }
            let i = from + ch.choose(B12.len() - from);
            let j = i + ch.choose((B12.len() - i).min(3));
            if B12[j] - B12[i] > limit { return None }
            let g: &[u32] = if k < 2 { &[0, 1, 2, 0xFFFD, 0xFFFF, 0x10000, 0xFFFF_FFF0 - 0x110000] } else { &[1, 0xFFFF] };
            v.push((B12[i], B12[j], *ch.pick(g)));
            from = j + 1;
        }
        Some(Map::F12(v))
    }, |m| format!("{:x?}", m), check);
    let n_many = ctx.by(70, 400);
    ctx.section("number of segments", |ch| {
        let n = ch.choose(n_many);
        let f12 = ch.flag();
        let shape = ch.choose(4); // adjacent singles, gaps, widths 2, widths 1/3 alternating
        let mut v = Vec::new();
        let mut c = 0x30u32;
        for i in 0..n {
            let w = match shape { 0 | 1 => 1, 2 => 2, _ => 1 + 2 * (i as u32 % 2) };
            v.push((c, c + w - 1, (i as u32 * 7 + 1) % 500 + 1));
            c += w + if shape == 1 || shape == 3 { 2 } else { 0 };
        }
        Some(if f12 { Map::F12(v) } else {
            let mut s: Vec<Seg> = v.iter().map(|&(a, b, g)| Seg { start: a as u16, end: b as u16, delta: (g as u16).wrapping_sub(a as u16), array: if g % 3 == 0 { Some((0..=(b - a) as u16).map(|x| a as u16 + x).collect()) } else { None } }).collect();
            s.push(last_seg(0));
            Map::F4(s)
        })
    }, |m| format!("{:x?}", m), check);
    // Numbers of segments that do not fit in a byte, or whose tables are larger than 32 kB.
    const COUNTS: &[usize] = &[126, 127, 128, 129, 254, 255, 256, 257, 1000, 2047, 2048, 4093, 4095, 4096, 4097, 8000];
    ctx.section("very many segments", |ch| {
        let f12 = ch.flag();
        let n = if f12 { *ch.pick(&[127usize, 128, 255, 256, 257, 4096, 32767, 32768, 65535, 65536, 70000]) } else { *ch.pick(COUNTS) };
        let arrays = !f12 && ch.flag();
        Some((f12, n, arrays))
    }, |c| format!("{:?}", c), |&(f12, n, arrays)| {
        let m = if f12 { Map::F12((0..n as u32).map(|i| (0x20 + 2 * i, 0x20 + 2 * i, 1 + i % 60000)).collect()) } else {
            let mut v: Vec<Seg> = (0..n as u16).map(|i| Seg { start: 0x20 + 3 * i, end: 0x21 + 3 * i, delta: if arrays { 7 } else { 9u16.wrapping_sub(0x20 + 2 * i) }, array: if arrays && (i == 0 || i as usize + 3 > n) { Some(vec![100 + i, 300 + i]) } else { None } }).collect();
            v.push(last_seg(0));
            Map::F4(v)
        };
        check(&m)
    });
    // Glyph arrays far from the segments that use them.
    ctx.section("large glyph arrays", |ch| Some((*ch.pick(&[1usize, 100, 127, 128, 129, 255, 256, 8000, 16370, 16380, 16381, 16382, 16383, 16384, 16385, 16390, 20000, 32000, 32740]), ch.choose(3), ch.choose(3))), |c| format!("{:?}", c), |&(n, shape, d)| {
        // the first segment uses an array of n entries, the second one comes after it
        let a = Seg { start: 0x4000, end: 0x4000 + (n as u16 - 1), delta: d as u16 * 0x7FFF, array: Some((0..n).map(|i| (i * 3 + 1) as u16 % 60001).collect()) };
        let b = Seg { start: 0xC100, end: 0xC102, delta: d as u16, array: Some(vec![61001, 0, 61003]) };
        check(&Map::F4(match shape { 0 => vec![a, b, last_seg(0)], 1 => vec![Seg { start: 0x41, end: 0x42, delta: 0, array: None }, a, b, last_seg(1)], _ => vec![Seg { start: 0x41, end: 0x43, ..b.clone() }, a, b, last_seg(0)] }))
    });
    // The character map far into the file.
    ctx.section("places in the file", |ch| Some((*ch.pick(&[0usize, 1, 200, 255, 256, 32500, 32767, 32768, 65000, 65300, 65535, 65536, 70000, 1 << 20, 1 << 24]), ch.flag())), |c| format!("{:?}", c), |&(n, f12)| {
        let m = if f12 { Map::F12(vec![(0x41, 0x43, 5), (0x1F600, 0x1F602, 9)]) } else { Map::F4(vec![Seg { start: 0x41, end: 0x43, delta: 100, array: None }, Seg { start: 0x61, end: 0x63, delta: 1, array: Some(vec![1, 0, 2]) }, last_seg(0)]) };
        let mut sp = spec_with(vec![m.record()]);
        if n > 0 { sp.extra_tables.push((*b"AAAA", vec![0x41; n])) }
        conv(check_shape(&m, &sp.font()))
    });
    // Which subtable is used.
    let mk = |g: u16| Map::F4(vec![Seg { start: 0x41, end: 0x43, delta: g.wrapping_sub(0x41), array: None }, last_seg(0)]);
    let recs: Vec<(u16, u16, Vec<u8>)> = vec![
        (0, 3, mk(100).encode()), (0, 4, Map::F12(vec![(0x41, 0x43, 200), (0x1F600, 0x1F600, 210)]).encode()), (1, 0, mk(300).encode()),
        (1, 0, { let mut v = vec![0, 0, 1, 6, 0, 0]; v.extend((0..256).map(|i| (i % 3) as u8)); v }),
        (3, 0, mk(400).encode()), (3, 1, mk(500).encode()), (3, 3, mk(700).encode()), (3, 10, Map::F12(vec![(0x41, 0x42, 600), (0x1F600, 0x1F600, 610)]).encode()), (4, 0, mk(800).encode()),
    ];
    ctx.section("encoding records", |ch| {
        let mut v = Vec::new();
        for i in 0..recs.len() { if ch.flag() { v.push(i) } }
        let layout = ch.choose(3); // subtables in record order, reversed, or shared where equal platform formats allow
        Some((v, layout))
    }, |c| format!("{:?} layout {}", c.0.iter().map(|&i| (recs[i].0, recs[i].1)).collect::<Vec<_>>(), c.1), |c| {
        let mut sub: Vec<&Vec<u8>> = c.0.iter().map(|&i| &recs[i].2).collect();
        if c.1 == 1 { sub.reverse() }
        let base = 4 + 8 * sub.len();
        let mut t = Vec::new();
        be16(&mut t, 0); be16(&mut t, c.0.len() as u16);
        for &i in &c.0 {
            let k = sub.iter().position(|s| **s == recs[i].2).unwrap();
            let off = base + sub[..k].iter().map(|s| s.len()).sum::<usize>();
            be16(&mut t, recs[i].0); be16(&mut t, recs[i].1); be32(&mut t, off as u32);
        }
        for s in &sub { t.extend_from_slice(s) }
        if c.1 == 2 { t.extend_from_slice(&[0xFF; 64]) }
        let sp = spec_with(vec![]);
        let mut tables = sp.tables();
        tables.iter_mut().find(|t| &t.0 == b"cmap").unwrap().1 = t;
        let f = Font::parse(assemble(0x10000, &tables).0);
        let has = |p: u16, e: u16| c.0.iter().any(|&i| (recs[i].0, recs[i].1) == (p, e));
        let m = if has(3, 10) { Map::F12(vec![(0x41, 0x42, 600), (0x1F600, 0x1F600, 610)]) } else if has(3, 1) { mk(500) } else {
            // Not one of the maps the statement is about: rejecting the font is fine.
            return match f { Ok(_) => Ok(1), Err(_) => Ok(0) };
        };
        match f { Err(e) => fail("rejected", format!("font with a supported character map rejected: {:?}", e)), Ok(f) => conv(check_shape(&m, &f)) }
    });
    ctx.section("all characters of the built-in font", |ch| Some(ch.choose(0x110)), |b| format!("U+{:X}00..", b * 16), |&b| {
        let text: String = ((b as u32 * 0x1000)..(b as u32 + 1) * 0x1000).filter_map(std::char::from_u32).collect();
        let font: Arc<Font> = (*victor::fonts::BITSTREAM_VERA_SANS).clone();
        let r = (|| {
            let pdf = Pdf::scan(&embed(&font, &text)?)?;
            let g = glyphs_of(&pdf)?;
            let want: Vec<u16> = text.chars().map(|c| vera().gid(c)).collect();
            if text.is_empty() { return Ok(0) }
            if g.len() != 1 || g[0].1 != want { return Err(format!("glyphs differ: {:?}", text.chars().zip(want.iter().zip(&g[0].1)).find(|x| x.1.0 != x.1.1))) }
            Ok(fp(&want))
        })();
        conv(r)
    });
    ctx.assumptions.push("reference: linear search over the abstract segments as the OpenType cmap chapter defines it; overlapping segments and unsorted tables (malformed) are left to C06; fonts without a Windows Unicode map are outside the statement (Victor rejects them)".into());
}

// ---------------------------------------------------------------- C04

fn close(got: f64, want_em: f64) -> bool { (got - want_em * 1000.).abs() <= 1.001 }

fn hex_codes(o: &Obj) -> Res<Vec<u16>> {
    match o { Obj::Str(s) if s.len() % 2 == 0 => Ok(s.chunks(2).map(|c| (c[0] as u16) << 8 | c[1] as u16).collect()), o => Err(format!("expected code string in ToUnicode, got {:?}", o)) }
}

pub fn to_unicode(b: &[u8]) -> Res<Vec<(u16, char)>> {
    let mut l = Lexer::new(b, 0);
    let mut args: Vec<Obj> = Vec::new();
    let mut out = Vec::new();
    let mut codespace = false;
    let mut seen_end = false;
    loop {
        l.skip_ws();
        if l.p >= b.len() { break }
        match l.object()? {
            Obj::Op(s) => {
                match &*s {
                    "begincmap" | "begincodespacerange" | "beginbfchar" => {
                        if s == "begincmap" { args.clear(); continue }
                        let n = args.pop().ok_or("missing count")?.int()?;
                        if n < 1 || n > 100 { return Err(format!("{} {}", n, s)) }
                        let (end, per) = if s == "beginbfchar" { ("endbfchar", 2) } else { ("endcodespacerange", 2) };
                        let mut v = Vec::new();
                        loop { l.skip_ws(); match l.object()? { Obj::Op(e) if e == end => break, Obj::Op(e) => return Err(format!("{} inside {}", e, s)), o => v.push(o) } }
                        if v.len() != per * n as usize { return Err(format!("{} announces {} entries, has {} operands", s, n, v.len())) }
                        for p in v.chunks(2) {
                            let (a, u) = (hex_codes(&p[0])?, hex_codes(&p[1])?);
                            if per == 2 && s == "beginbfchar" {
                                if a.len() != 1 { return Err("glyph code length".into()) }
                                let chars: Vec<char> = std::char::decode_utf16(u.iter().copied()).collect::<Result<_, _>>().map_err(|_| format!("invalid UTF-16 {:x?}", u))?;
                                if chars.len() != 1 { return Err(format!("glyph {} maps to {:?}", a[0], chars)) }
                                out.push((a[0], chars[0]));
                            } else {
                                if a != [0] || u != [0xFFFF] { return Err("codespace range".into()) }
                                codespace = true;
                            }
                        }
                    }
                    "endcmap" => seen_end = true,
                    _ => {}
                }
                args.clear();
            }
            o => args.push(o),
        }
    }
    if !codespace || !seen_end { return Err("incomplete ToUnicode CMap".into()) }
    Ok(out)
}

pub struct Want<'a> { bytes: &'a [u8], spec: &'a Spec, name: &'a str, map: Option<&'a Map> }

/// Everything the statement of C04 says about one embedded font.
fn check_font(pdf: &Pdf, id: u32, w: &Want) -> Res<()> {
    let d = &pdf.objects.get(&id).ok_or("font object")?.obj;
    let is = |o: &Obj, k: &str, v: &str| -> Res<()> { if pdf.get(o, k)?.is_name(v) { Ok(()) } else { Err(format!("{} is {:?}, expected /{}", k, o.get(k), v)) } };
    let name = |o: &Obj, k: &str| -> Res<()> { if pdf.get(o, k)?.name()? == w.name.as_bytes() { Ok(()) } else { Err(format!("{} decodes to {:?}, the PostScript name is {:?}", k, String::from_utf8_lossy(pdf.get(o, k)?.name()?), w.name)) } };
    is(d, "Type", "Font")?; is(d, "Subtype", "Type0")?; is(d, "Encoding", "Identity-H")?; name(d, "BaseFont")?;
    let desc = pdf.get(d, "DescendantFonts")?.array()?;
    if desc.len() != 1 { return Err("DescendantFonts".into()) }
    let cid = pdf.resolve(&desc[0])?;
    is(cid, "Type", "Font")?; is(cid, "Subtype", "CIDFontType2")?; name(cid, "BaseFont")?;
    match cid.get("CIDToGIDMap") { None => {} Some(o) if o.is_name("Identity") => {} o => return Err(format!("CIDToGIDMap {:?}", o)) }
    let fd = pdf.get(cid, "FontDescriptor")?;
    is(fd, "Type", "FontDescriptor")?; name(fd, "FontName")?;
    let ff = fd.get("FontFile2").ok_or("FontFile2")?;
    if pdf.stream(ff)? != w.bytes { return Err(format!("the embedded font program ({} bytes) differs from the font ({} bytes)", pdf.stream(ff)?.len(), w.bytes.len())) }
    if pdf.get(pdf.resolve(ff)?, "Length1")?.int()? != w.bytes.len() as i64 { return Err("Length1".into()) }
    let upem = w.spec.upem as f64;
    let bbox: Vec<f64> = pdf.get(fd, "FontBBox")?.array()?.iter().map(|o| o.f64()).collect::<Res<_>>()?;
    if bbox.len() != 4 || (0..4).any(|i| !close(bbox[i], w.spec.bbox[i] as f64 / upem)) { return Err(format!("FontBBox {:?} for {:?}/{}", bbox, w.spec.bbox, upem)) }
    for (k, v) in &[("Ascent", w.spec.asc), ("Descent", w.spec.desc)] { let g = pdf.get(fd, k)?.f64()?; if !close(g, *v as f64 / upem) { return Err(format!("{} {} for {}/{}", k, g, v, upem)) } }
    // widths
    let dw = match cid.get("DW") { Some(o) => o.f64()?, None => 1000. };
    let mut widths: BTreeMap<i64, f64> = BTreeMap::new();
    let wa = pdf.get(cid, "W")?.array()?;
    let mut i = 0;
    while i < wa.len() {
        let c = wa[i].int()?;
        match pdf.resolve(wa.get(i + 1).ok_or("W")?)? {
            Obj::Array(a) => { for (k, o) in a.iter().enumerate() { widths.insert(c + k as i64, o.f64()?); } i += 2 }
            o => { let (e, v) = (o.int()?, wa.get(i + 2).ok_or("W")?.f64()?); if e - c > 70000 { return Err("W range".into()) } for k in c..=e { widths.insert(k, v); } i += 3 }
        }
    }
    for g in 0..w.spec.n_glyphs as usize {
        let true_w = w.spec.widths[g.min(w.spec.n_metrics as usize - 1)] as f64 / upem;
        let got = *widths.get(&(g as i64)).unwrap_or(&dw);
        if !close(got, true_w) { return Err(format!("width of glyph {} is {}, the font says {}", g, got, true_w * 1000.)) }
    }
    if let Some(m) = w.map {
        let tu = to_unicode(pdf.stream(d.get("ToUnicode").ok_or("ToUnicode")?)?)?;
        let (reach, n) = m.reachable();
        for (g, c) in &tu { if m.look(*c as u32) != *g { return Err(format!("ToUnicode maps glyph {} to {:?}, whose glyph is {}", g, c, m.look(*c as u32))) } }
        let got: BTreeSet<u16> = tu.iter().map(|x| x.0).collect();
        if got != reach { return Err(format!("ToUnicode misses glyphs {:?}", reach.difference(&got).take(5).collect::<Vec<_>>())) }
        if n == reach.len() && tu.len() != n { return Err(format!("ToUnicode has {} entries for {} mapped characters", tu.len(), n)) }
    }
    Ok(())
}

/// Embeds one font and checks it.
fn one(spec: &Spec, name: &str, map: Option<&Map>) -> Res<u64> {
    let bytes = spec.build();
    let font = Font::parse(bytes.clone()).map_err(|e| format!("valid font rejected: {:?}", e))?;
    let out = embed(&font, "A")?;
    let pdf = Pdf::strict(&out)?;
    let g = glyphs_of(&pdf)?;
    check_font(&pdf, g[0].0, &Want { bytes: &bytes, spec, name, map })?;
    let tails: Vec<u8> = out.clone();
    Ok(fp_bytes(&tails))
}

pub fn c04(ctx: &mut Ctx) {
    fn conv(r: Res<u64>) -> Outcome { match r { Ok(h) => Ok(h), Err(e) => fail("font", e) } }
    const UPEM: &[u16] = &[16, 64, 250, 1000, 1024, 2048, 3000, 16383, 16384];
    const WIDTHS: &[u16] = &[0, 1, 29, 500, 999, 2047, 32767, 32768, 65535];
    let deep = !ctx.quick();
    ctx.section("metrics", |ch| {
        let mut s = Spec::simple("Metrics");
        s.upem = *ch.pick(UPEM);
        let (g, m) = *ch.pick(&[(1u16, 1u16), (2, 1), (3, 2), (3, 3), (7, 4), (300, 300), (300, 2), (101, 100)]);
        s.n_glyphs = g; s.n_metrics = m;
        let w0 = ch.choose(WIDTHS.len());
        let step = 1 + if deep { ch.choose(4) } else { ch.choose(2) };
        s.widths = (0..m as usize).map(|i| WIDTHS[(w0 + i * step) % WIDTHS.len()]).collect();
        Some(s)
    }, |s| format!("{:?}", (s.upem, s.n_glyphs, s.n_metrics, &s.widths[..s.widths.len().min(8)])), |s| conv(one(s, "Metrics", None)));
    // Every number of units per em, with widths at its ends.
    let most = ctx.by(2100u16, 16384);
    ctx.section("units per em", |ch| Some(1 + ch.choose(most as usize) as u16), |u| format!("{} units per em", u), |&u| {
        let mut s = Spec::simple("Units");
        s.upem = u; s.asc = u as i16; s.desc = -(u as i16) / 4; s.bbox = [-1, 1 - u as i16, u as i16 / 3, u as i16];
        s.n_glyphs = 6; s.n_metrics = 5;
        s.widths = vec![u, u / 2, u / 3, 1, u.saturating_mul(3)];
        conv(one(&s, "Units", None))
    });
    ctx.section("many glyphs", |ch| Some((*ch.pick(&[255u16, 256, 257, 1000, 4095, 4096, 32767, 32768, 65534, 65535]), ch.choose(4))), |c| format!("{:?}", c), |&(n, k)| {
        let mut s = Spec::simple("Many");
        s.n_glyphs = n;
        s.n_metrics = match k { 0 => n, 1 => n - 1, 2 => n / 2, _ => 1 };
        s.widths = (0..s.n_metrics).map(|i| i % 2003).collect();
        conv(one(&s, "Many", None))
    });
    // Tables far into the file; many tables; the name among many and long other names.
    ctx.section("places in the file", |ch| Some((*ch.pick(&[b"AAAA", b"dddd", b"hhzz", b"hnnn", b"nnnn"]), *ch.pick(&[1usize, 255, 256, 32500, 32767, 32768, 65000, 65300, 65535, 65536, 70000, 1 << 20, 1 << 24]))), |c| format!("{:?}", c), |&(tag, n)| {
        let mut s = Spec::simple("Far");
        s.extra_tables.push((*tag, vec![0x41; n]));
        conv(one(&s, "Far", None))
    });
    let most = ctx.by(60usize, 250);
    ctx.section("many tables", |ch| Some((ch.choose(most), ch.choose(4))), |c| format!("{:?}", c), |&(n, k)| {
        let mut s = Spec::simple("Tables");
        for i in 0..n as u8 { let a = match k { 0 => b'A', 1 => b'h', 2 => b'z', _ => b"Afhmoz"[i as usize % 6] }; s.extra_tables.push(([a, b'0' + i / 64, b'0' + i / 8 % 8, b'0' + i % 8], vec![i; 4])) }
        conv(one(&s, "Tables", None))
    });
    ctx.section("many names", |ch| Some((ch.choose(3), *ch.pick(&[0usize, 1, 9, 10, 20, 21, 127, 128, 129, 255, 256, 300, 1000]), *ch.pick(&[1usize, 60, 300]), ch.flag())), |c| format!("{:?}", c), |&(kind, n, len, after)| {
        if n * len * 2 > 60000 { return Ok(0) }
        let mut s = Spec::simple("x");
        s.names = names(kind, "Name-Among-Many");
        for i in 0..n {
            let decoy = (1u16, 0u16, 300 + i as u16, vec![b'a' + (i % 26) as u8; len]);
            if after { s.names.push(decoy) } else { s.names.insert(0, decoy) }
        }
        conv(one(&s, "Name-Among-Many", None))
    });
    const COORD: &[i16] = &[-32768, -2048, -1, 0, 1, 717, 32767];
    ctx.section("vertical metrics and bounding box", |ch| {
        let mut s = Spec::simple("BBox");
        s.upem = *ch.pick(UPEM);
        s.n_glyphs = 1; s.n_metrics = 1; s.widths = vec![500];
        if ch.flag() {
            s.asc = *ch.pick(COORD); s.desc = *ch.pick(COORD);
            s.bbox = [-1, -2, 3, 4];
        } else {
            s.bbox = [*ch.pick(COORD), *ch.pick(COORD), *ch.pick(COORD), *ch.pick(COORD)];
        }
        Some(s)
    }, |s| format!("{:?}", (s.upem, s.bbox, s.asc, s.desc)), |s| conv(one(s, "BBox", None)));
    // PostScript names: every printable ASCII character except those PostScript excludes (and, for robustness of
    // the PDF name syntax, those too), at the start, middle and end of the name.
    let longest = ctx.by(40usize, 63);
    ctx.section("PostScript names", |ch| {
        let kind = ch.choose(3);
        let name = match ch.choose(2) {
            0 => { let c = (33 + ch.choose(94)) as u8 as char; match ch.choose(4) { 0 => format!("{}", c), 1 => format!("{}ab", c), 2 => format!("a{}b", c), _ => format!("ab{}{}", c, c) } }
            _ => { let n = 1 + ch.choose(longest); (0..n).map(|i| (b'A' + (i % 26) as u8) as char).collect() }
        };
        Some((kind, name))
    }, |c| format!("{:?}", c), |c| {
        let mut s = Spec::simple("x");
        s.names = names(c.0, &c.1);
        conv(one(&s, &c.1, None))
    });
    ctx.section("name table records", |ch| {
        // decoys before and after the PostScript name record(s)
        let mut v = Vec::new();
        let name = "Real-Name";
        let mut any = false;
        for (i, (p, e)) in [(0u16, 3u16), (1, 0), (3, 0), (3, 1), (3, 10)].iter().enumerate() {
            let enc = |t: &str| if *p == 1 { t.as_bytes().to_vec() } else { win_name(t)[0].3.clone() };
            let k = ch.choose(4); // absent, family only, PostScript name only, both
            if k & 1 != 0 { v.push((*p, *e, 1u16, enc("Decoy Family"))); v.push((*p, *e, 4, enc("Decoy Full Name Which Is Long"))); }
            if k & 2 != 0 { v.push((*p, *e, 6, enc(name))); if i == 1 || i == 3 { any = true } }
            if k == 3 { v.push((*p, *e, 16, enc("Decoy Typographic"))); }
        }
        if !any { return None }
        Some(v)
    }, |v| format!("{:?}", v.iter().map(|r| (r.0, r.1, r.2)).collect::<Vec<_>>()), |v| {
        let mut s = Spec::simple("x");
        s.names = v.clone();
        conv(one(&s, "Real-Name", None))
    });
    let max = ctx.by(310usize, 1300);
    ctx.section("number of mapped characters", |ch| {
        let n = ch.choose(max);
        let m = match ch.choose(5) {
            0 => Map::F4(if n == 0 { vec![last_seg(0)] } else { vec![Seg { start: 0x100, end: 0x100 + n as u16 - 1, delta: 1u16.wrapping_sub(0x100), array: None }, last_seg(0)] }),
            1 => { let mut v: Vec<Seg> = (0..n).map(|i| Seg { start: 0x100 + 3 * i as u16, end: 0x101 + 3 * i as u16, delta: 0u16.wrapping_sub(0xFF + i as u16), array: None }).collect(); v.push(last_seg(1)); Map::F4(v) }
            2 => Map::F12(if n == 0 { vec![] } else { vec![(0xFFF0, 0xFFF0 + n as u32 - 1, 1)] }),
            3 => Map::F12((0..n as u32).map(|i| (0x10000 + 2 * i, 0x10000 + 2 * i, 1 + i)).collect()),
            // several characters per glyph, holes
            _ => Map::F4(if n == 0 { vec![last_seg(0)] } else { vec![Seg { start: 0x41, end: 0x40 + n as u16, delta: 2, array: Some((0..n as u16).map(|i| i % 7).collect()) }, last_seg(0)] }),
        };
        Some(m)
    }, |m| { let s = format!("{:x?}", m); s.chars().take(300).collect() }, |m| conv(one(&spec_with(vec![m.record()]), "Test", Some(m))));
    ctx.section("character maps", |ch| {
        if ch.flag() {
            let iv = intervals(ch, B4, 2, false)?;
            let mut segs = Vec::new();
            for (s, e) in iv { segs.push(seg_kind(ch.choose(10), s, e)?) }
            segs.push(last_seg(ch.choose(4)));
            Some(Map::F4(segs))
        } else {
            const B12: &[u32] = &[0, 0x20, 0xD7FF, 0xD800, 0xDFFF, 0xE000, 0xFFFF, 0x10000, 0x10001, 0x1F600, 0x10FFFE, 0x10FFFF];
            let n = ch.choose(3);
            let mut from = 0;
            let mut v = Vec::new();
            for _ in 0..n {
                if from >= B12.len() { return None }
                let i = from + ch.choose(B12.len() - from);
                let j = i + ch.choose((B12.len() - i).min(4));
                if B12[j] - B12[i] > 0x3000 { return None }
                v.push((B12[i], B12[j], *ch.pick(&[0u32, 1, 2, 0xFFFD, 0xFFFF, 0x10000, 0x10001])));
                from = j + 1;
            }
            Some(Map::F12(v))
        }
    }, |m| format!("{:x?}", m), |m| conv(one(&spec_with(vec![m.record()]), "Test", Some(m))));
    // Four fonts used in every order over pages; each embedded once.
    let depth = ctx.by(6usize, 7);
    const NAMES: [&str; 4] = ["First", "Second", "Third#", "First"]; // different fonts may share a PostScript name
    let specs: Vec<Spec> = (0..4).map(|i| { let mut s = Spec::simple(NAMES[i]); s.upem = [1000, 2048, 64, 1000][i]; s.widths = (0..28).map(|k| 100 * (i as u16 + 1) + k).collect(); s.extra_tables = vec![(*b"glyf", vec![i as u8; 5 + i])]; s }).collect();
    let fonts: Vec<Arc<Font>> = specs.iter().map(|s| s.font()).collect();
    let bytes: Vec<Vec<u8>> = specs.iter().map(|s| s.build()).collect();
    ctx.section("orders of use", |ch| {
        let n = 1 + ch.choose(depth);
        Some((0..n).map(|_| ch.choose(5)).collect::<Vec<_>>()) // 4 = new page
    }, |v| format!("{:?}", v), |v| {
        let r = (|| {
            let mut doc = Document::new();
            let segs: Vec<ShapedSegment> = fonts.iter().map(|f| ShapedSegment::naive_shape("ab", f.clone()).map_err(|e| format!("{:?}", e))).collect::<Res<_>>()?;
            for part in v.split(|x| *x == 4) {
                let mut page = doc.add_page(Size::new(50., 50.));
                for &f in part { show(&mut page, &segs[f])?; }
            }
            let out = doc.write_to_pdf_bytes();
            let pdf = Pdf::strict(&out)?;
            let g = glyphs_of(&pdf)?;
            let used: Vec<usize> = v.iter().copied().filter(|x| *x != 4).collect();
            if g.len() != used.len() { return Err("texts shown".to_string()) }
            let mut ids: BTreeMap<usize, u32> = BTreeMap::new();
            for (f, (id, gl)) in used.iter().zip(&g) {
                if gl != &[1, 2] { return Err("glyphs".into()) }
                if *ids.entry(*f).or_insert(*id) != *id { return Err(format!("font {} is embedded more than once", f)) }
            }
            for (f, id) in &ids { check_font(&pdf, *id, &Want { bytes: &bytes[*f], spec: &specs[*f], name: NAMES[*f], map: None })?; }
            for (i, b) in bytes.iter().enumerate() {
                let n = pdf.objects.values().filter(|o| o.stream.as_deref() == Some(&b[..])).count();
                if n != ids.contains_key(&i) as usize { return Err(format!("font program {} is present {} times", i, n)) }
            }
            Ok(fp_bytes(&out))
        })();
        conv(r)
    });
    // Fonts made, used and dropped while the document is being written: the memory of one is reused for the next.
    let kinds: Vec<Spec> = (0..3u16).map(|i| { let mut s = Spec::simple(["Gone1", "Gone2", "Gone3"][i as usize]); s.widths = (0..28).map(|k| 100 * (i + 1) + k).collect(); s.cmaps = vec![(3, 1, cmap4(&[(32, 32, 27u16.wrapping_sub(32), 0), (102, 97, (1 + 5 * i).wrapping_sub(97), 0), (0xFFFF, 0xFFFF, 1, 0)], &[]))]; s.extra_tables = vec![(*b"glyf", vec![i as u8; 9])]; s }).collect();
    let kbytes: Vec<Vec<u8>> = kinds.iter().map(|s| s.build()).collect();
    assert!(kbytes.iter().all(|b| b.len() == kbytes[0].len()));
    let d = ctx.by(4usize, 5);
    ctx.section("fonts that are gone", |ch| {
        let n = 1 + ch.choose(d);
        // font, what is kept (nothing, the font, the text), whether a new page starts
        Some((0..n).map(|_| (ch.choose(3), ch.choose(3), ch.flag())).collect::<Vec<_>>())
    }, |v| format!("{:?}", v), |v| {
        let r = (|| {
            let (mut doc, mut fonts, mut segs) = (Document::new(), Vec::new(), Vec::new());
            let mut i = 0;
            while i < v.len() {
                let mut page = doc.add_page(Size::new(50., 50.));
                loop {
                    let (k, keep, _) = v[i];
                    let f = Font::parse(kbytes[k].clone()).map_err(|e| format!("{:?}", e))?;
                    let seg = ShapedSegment::naive_shape("ab", f.clone()).map_err(|e| format!("{:?}", e))?;
                    show(&mut page, &seg)?;
                    match keep { 0 => {} 1 => fonts.push(f), _ => segs.push(seg) }
                    i += 1;
                    if i == v.len() || v[i].2 { break }
                }
            }
            let out = doc.write_to_pdf_bytes();
            let pdf = Pdf::strict(&out)?;
            let g = glyphs_of(&pdf)?;
            if g.len() != v.len() { return Err("texts shown".to_string()) }
            for ((k, _, _), (id, gl)) in v.iter().zip(&g) {
                let first = 1 + 5 * *k as u16;
                if gl != &[first, first + 1] { return Err(format!("glyphs {:?}, font {} has {:?}", gl, k, [first, first + 1])) }
                check_font(&pdf, *id, &Want { bytes: &kbytes[*k], spec: &kinds[*k], name: ["Gone1", "Gone2", "Gone3"][*k], map: None })?;
            }
            Ok(fp_bytes(&out))
        })();
        conv(r)
    });
    // Table directory: subsets of the other tables a real font has, and font program sizes.
    ctx.section("table directories", |ch| {
        let mut s = Spec::simple("Tables");
        let scaler = ch.choose(2);
        s.scaler = [0x10000, 0x74727565][scaler];
        for t in &[b"GSUB", b"OS/2", b"cvt ", b"fpgm", b"glyf", b"loca", b"post", b"zzzz"] { if ch.flag() { s.extra_tables.push((**t, vec![t[0]; 3 + t[1] as usize % 5])) } }
        Some(s)
    }, |s| format!("{:x} {:?}", s.scaler, s.extra_tables.iter().map(|t| String::from_utf8_lossy(&t.0).to_string()).collect::<Vec<_>>()), |s| conv(one(s, "Tables", None)));
    let sizes = ctx.by(1200usize, 12000);
    ctx.section("font program sizes and contents", |ch| Some((ch.choose(sizes), ch.choose(2))), |c| format!("{:?}", c), |c| {
        let mut s = Spec::simple("Size");
        let mut d: Vec<u8> = (0..c.0).map(|i| (i * 7 + i / 256) as u8).collect();
        if c.1 == 1 { d.extend_from_slice(b"\nendstream\nendobj\n1 0 obj\n<<>>stream\r\n%%EOF\nstartxref\n0\n") }
        s.extra_tables.push((*b"glyf", d));
        conv(one(&s, "Size", None))
    });
    ctx.assumptions.push("PostScript names are sequences of printable ASCII characters, as the OpenType name table requires; reading of the PDF by an independent strict reader".into());
}

fn names(kind: usize, n: &str) -> Vec<(u16, u16, u16, Vec<u8>)> {
    match kind { 0 => mac_name(n), 1 => win_name(n), _ => { let mut v = mac_name(n); v.extend(win_name(n)); v } }
}

// ---------------------------------------------------------------- C06

const PROBE: &str = "aA B\u{0}\u{7F}\u{FFFF}\u{10000}\u{1F600}\u{10FFFF}zé";

/// Parse, shape, embed, lay out.  Returns a description of what happened.
fn exercise(bytes: Vec<u8>) -> Outcome {
    let len = bytes.len();
    crate::alloc_reset();
    let mut h = 0u64;
    match Font::parse(bytes) {
        Err(e) => { h = fp(&format!("{:?}", e)) }
        Ok(font) => {
            let mut doc = Document::new();
            {
                let mut page = doc.add_page(Size::new(100., 100.));
                for c in PROBE.chars() {
                    let mut seg = ShapedSegment::new_with_naive_shaping(font.clone());
                    let ok = seg.append_char(c).is_ok();
                    h = h.wrapping_mul(31).wrapping_add(ok as u64);
                    if ok && c == 'a' { h = h.wrapping_add(show(&mut page, &seg).is_ok() as u64) }
                }
                let s = ShapedSegment::naive_shape(PROBE, font.clone());
                if let Ok(seg) = s { h = h.wrapping_mul(3).wrapping_add(show(&mut page, &seg).is_ok() as u64) }
                let seg = ShapedSegment::new_with_naive_shaping(font.clone());
                let shown = show(&mut page, &seg);
                h = h.wrapping_mul(31).wrapping_add(fp(&format!("{:?}", shown)));
            }
            h = h.wrapping_add(doc.write_to_pdf_bytes().len() as u64 / 64);
            if font.bytes().len() != len { return fail("bytes", "font bytes changed") }
            let style = victor::text_plain::Style { page_size: Size::new(50., 50.), page_margin: Length::new(5.), font: font.clone(), font_size: Length::new(10.), line_height: 1.5, justify: true };
            let l = victor::text_plain::layout("aA B", &style);
            h = h.wrapping_mul(31).wrapping_add(l.is_ok() as u64);
        }
    }
    let peak = crate::alloc_peak();
    if peak > 1 << 30 { return fail("memory", format!("a {} byte font made the program allocate {} MB", len, peak >> 20)) }
    Ok(h)
}

fn bases() -> Vec<Vec<u8>> {
    let mut a = spec_with(vec![Map::F4(vec![Seg { start: 0x41, end: 0x43, delta: 1u16.wrapping_sub(0x41), array: None }, Seg { start: 0x61, end: 0x63, delta: 1, array: Some(vec![1, 0, 2]) }, last_seg(0)]).record()]);
    a.names = mac_name("F4");
    let mut b = spec_with(vec![Map::F12(vec![(0x41, 0x43, 1), (0x10000, 0x10001, 2)]).record()]);
    b.names = win_name("W");
    b.n_metrics = 4; b.widths = vec![1, 2, 3, 4];
    let mut c = spec_with(vec![(0, 3, mk_simple()), (1, 0, mk_simple()), Map::F4(vec![last_seg(0)]).record(), Map::F12(vec![(0x20, 0x7E, 1)]).record()]);
    c.names = { let mut v = mac_name("A#"); v.extend(win_name("A#")); v };
    c.scaler = 0x74727565;
    vec![a.build(), b.build(), c.build()]
}
fn mk_simple() -> Vec<u8> { Map::F4(vec![Seg { start: 0x41, end: 0x43, delta: 1, array: None }, last_seg(0)]).encode() }

fn put(v: &mut [u8], p: usize, w: usize, x: u32) { let b = x.to_be_bytes(); for k in 0..w { if p + k < v.len() { v[p + k] = b[4 - w + k] } } }

pub fn c06(ctx: &mut Ctx) {
    let b = bases();
    let show_hex = |v: &Vec<u8>| -> String { v.iter().map(|x| format!("{:02x}", x)).collect() };
    let lens: Vec<usize> = b.iter().map(|x| x.len()).collect();
    ctx.section("truncations", |ch| { let i = ch.choose(3); let n = ch.choose(lens[i] + 1); let mut v = b[i].clone(); v.truncate(n); Some(v) }, show_hex, |v| exercise(v.clone()));
    ctx.section("single fields", |ch| {
        let i = ch.choose(3);
        let mut v = b[i].clone();
        let len = v.len() as u32;
        match ch.choose(3) {
            0 => { let p = ch.choose(v.len()); let x = *ch.pick(&[0u32, 1, 2, 3, 4, 6, 0x0C, 0x7F, 0x80, 0xFE, 0xFF]); put(&mut v, p, 1, x) }
            1 => { let p = 2 * ch.choose(v.len() / 2); let o = (v[p] as u32) << 8 | v[p + 1] as u32; let x = *ch.pick(&[0, 1, 2, 3, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF, o.wrapping_add(1), o.wrapping_sub(1), len, len - 1, len - 2, o.wrapping_mul(2), o ^ 0x8000]); put(&mut v, p, 2, x) }
            _ => { let p = 2 * ch.choose(v.len() / 2 - 1); let x = *ch.pick(&[0, 1, 0x7FFFFFFF, 0x80000000, 0x80000001, 0xFFFFFFFC, 0xFFFFFFFE, 0xFFFFFFFF, len, len - 1, len - 2, len - 4, 0x10000, 0x3FFFFFFF, 0x40000000, 0x10FFFF, 0x110000, 0x15555556, 0x20000000]); put(&mut v, p, 4, x) }
        }
        Some(v)
    }, show_hex, |v| exercise(v.clone()));
    // Pairs of 16-bit fields in the structures that are navigated (everything but the unused metric fields).
    let interesting: Vec<Vec<usize>> = b.iter().map(|v| {
        let n = v[5] as usize;
        let mut p: Vec<usize> = vec![4];
        let u32_ = |p: usize| (v[p] as usize) << 24 | (v[p + 1] as usize) << 16 | (v[p + 2] as usize) << 8 | v[p + 3] as usize;
        for i in 0..n {
            let r = 12 + 16 * i;
            p.push(r + 8); p.push(r + 10);
            let (off, len) = (u32_(r + 8), u32_(r + 12));
            match &v[r..r + 4] {
                b"cmap" | b"name" => p.extend((0..len / 2).map(|k| off + 2 * k)),
                b"hhea" => p.push(off + 34),
                b"head" => p.push(off + 18),
                b"maxp" => p.push(off + 4),
                b"hmtx" => p.push(off),
                _ => {}
            }
        }
        p
    }).collect();
    let vals: &[u32] = ctx.by(&[0, 1, 0xFFFF], &[0, 1, 2, 12, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF]);
    ctx.section("pairs of fields", |ch| {
        let i = ch.choose(3);
        let p = &interesting[i];
        let x = ch.choose(p.len());
        let y = ch.choose(p.len());
        if y <= x { return None }
        let mut v = b[i].clone();
        put(&mut v, p[x], 2, *ch.pick(vals));
        put(&mut v, p[y], 2, *ch.pick(vals));
        Some(v)
    }, show_hex, |v| exercise(v.clone()));
    // Structure-aware: every combination of cmap header fields, short and truncated subtables.
    let deep = !ctx.quick();
    ctx.section("format 4 headers", |ch| {
        let n = *ch.pick(&[0u16, 1, 2, 3, 4, 5, 0x7FFE, 0x8000, 0xFFFE, 0xFFFF]); // segCountX2
        let mut sub = Vec::new();
        be16(&mut sub, 4); be16(&mut sub, 32); be16(&mut sub, 0); be16(&mut sub, n); be16(&mut sub, 0); be16(&mut sub, 0); be16(&mut sub, 0);
        let k = ch.choose(3);
        let w: &[u16] = if deep { &[0, 1, 0x41, 0x61, 0x8000, 0xFFFE, 0xFFFF] } else { &[0, 0x61, 0xFFFF] };
        for _ in 0..k { be16(&mut sub, *ch.pick(w)) }
        be16(&mut sub, 0);
        for _ in 0..k { be16(&mut sub, *ch.pick(w)) }
        for _ in 0..k { be16(&mut sub, *ch.pick(&[0u16, 0xFFFF])) }
        for _ in 0..k { be16(&mut sub, *ch.pick(&[0u16, 1, 2, 0xFFFF])) }
        Some(spec_with(vec![(3, 1, sub)]).build())
    }, show_hex, |v| exercise(v.clone()));
    ctx.section("format 12 groups", |ch| {
        let mut sub = Vec::new();
        be16(&mut sub, 12); be16(&mut sub, 0); be32(&mut sub, 16); be32(&mut sub, 0);
        be32(&mut sub, *ch.pick(&[0u32, 1, 2, 3, 0x10000, 0x15555555, 0x15555556, 0x7FFFFFFF, 0xFFFFFFFF]));
        let k = ch.choose(3);
        let w: &[u32] = if deep { &[0, 0x61, 0xD800, 0x10FFFF, 0x110000, 0x7FFFFFFF, 0xFFFFFFFF] } else { &[0, 0x61, 0x10FFFF, 0xFFFFFFFF] };
        for _ in 0..k { be32(&mut sub, *ch.pick(w)); be32(&mut sub, *ch.pick(w)); be32(&mut sub, *ch.pick(&[0u32, 1, 0xFFFF, 0xFFFFFFFF])) }
        Some(spec_with(vec![(3, 10, sub)]).build())
    }, show_hex, |v| exercise(v.clone()));
    // Work and memory must stay proportional: many overlapping ranges.
    let reps: Vec<usize> = (0..ctx.by(7, 10)).map(|i| 1usize << i).collect();
    ctx.section("repeated ranges", |ch| {
        let n = *ch.pick(&reps);
        Some(match ch.choose(4) {
            0 => spec_with(vec![(3, 10, cmap12(&vec![(0, 0xFFFFFFFF, 1); n]))]).build(),
            1 => spec_with(vec![(3, 10, cmap12(&vec![(0, 0x10FFFF, 0); n]))]).build(),
            2 => spec_with(vec![(3, 1, cmap4(&vec![(0xFFFF, 0, 1, 0); n * 4], &[]))]).build(),
            _ => spec_with(vec![(3, 1, cmap4(&(0..n * 4).map(|i| (0xFFFF, (i % 7) as u16, 1, 0)).collect::<Vec<_>>(), &[]))]).build(),
        })
    }, |v| format!("{} bytes", v.len()), |v| exercise(v.clone()));
    ctx.section("short byte strings", |ch| {
        let n = ch.choose(4);
        let mut v: Vec<u8> = match ch.choose(4) { 0 => vec![], 1 => vec![0, 1, 0, 0], 2 => b"true".to_vec(), _ => b"OTTO".to_vec() };
        for _ in 0..n { v.push(*ch.pick(&[0u8, 1, 2, 0x41, 0x7F, 0x80, 0xFF])) }
        if ch.flag() { v.extend_from_slice(&[0; 12]) }
        Some(v)
    }, show_hex, |v| exercise(v.clone()));
    ctx.assumptions.push("built with overflow checks, so arithmetic overflow counts as a panic; a case may take 20 s and 1 GB; fonts are up to a few kB".into());
}

// ---------------------------------------------------------------- C07

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op7 { Char(usize), Str(usize), Save, Restore(usize), Clone, Fail, FailChar }
const CHARS: &[char] = &['a', 'b', ' ', '\u{1F600}'];
const STRS: &[&str] = &["", "cd", "e f\u{301}"];

pub fn c07(ctx: &mut Ctx) {
    let sound = Spec::simple("Seg").font();
    // U+3000 maps to a glyph whose metrics are beyond the end of the file: appending it fails, the rest works.
    let broken = {
        let mut s = Spec::simple("Seg");
        s.n_metrics = 9000;
        s.cmaps = vec![(3, 1, cmap4(&[(32, 32, 27u16.wrapping_sub(32), 0), (122, 97, 1u16.wrapping_sub(97), 0), (0x3000, 0x3000, 8000u16.wrapping_sub(0x3000), 0), (0xFFFF, 0xFFFF, 1, 0)], &[]))];
        let t: Vec<_> = s.tables().into_iter().map(|(tag, d)| if &tag == b"hmtx" { (tag, Vec::new()) } else { (tag, d) }).collect();
        let (mut v, pos) = assemble(0x10000, &t);
        let at = pos.iter().position(|p| &p.0 == b"hmtx").unwrap();
        let end = v.len() as u32;
        put(&mut v, 12 + 16 * at + 8, 4, end);
        for w in &s.widths { be16(&mut v, *w); be16(&mut v, 0) }
        Font::parse(v).ok().expect("font with short hmtx")
    };
    let gid = |c: char| -> u16 { match c { ' ' => 27, 'a'..='z' => c as u16 - 96, _ => 0 } };
    let depth = ctx.by(6usize, 8);
    let run = |ops: &Vec<Op7>, font: &Arc<Font>| -> Res<(ShapedSegment, String, bool)> {
        let mut seg = ShapedSegment::new_with_naive_shaping(font.clone());
        let mut text = String::new();
        let mut saved = Vec::new();
        let mut failed = false;
        let err = |e| format!("shaping failed: {:?}", e);
        for op in ops {
            match *op {
                Op7::Char(i) => { seg.append_char(CHARS[i]).map_err(err)?; text.push(CHARS[i]) }
                Op7::Str(i) => { seg.append(STRS[i].chars()).map_err(err)?; text.push_str(STRS[i]) }
                Op7::Save => saved.push((seg.save(), text.clone())),
                Op7::Restore(i) => { let (st, t): &(_, String) = &saved[i]; seg.restore(st); text = t.clone() }
                Op7::Clone => { let c = seg.clone(); let _ = seg.append("zz".chars()); seg = c }
                // a character that cannot be appended leaves the segment as it was
                Op7::FailChar => { if seg.append_char('\u{3000}').is_err() { failed = true } }
                Op7::Fail => {
                    let st = seg.save();
                    if seg.append("a\u{3000}b".chars()).is_err() { failed = true }
                    seg.restore(&st);
                }
            }
        }
        Ok((seg, text, failed))
    };
    let gen = |ch: &mut Chooser, fail_ops: bool| -> Option<Vec<Op7>> {
        let n = ch.choose(depth + 1);
        let mut v = Vec::new();
        let mut text = String::new();
        let mut saved: Vec<String> = Vec::new();
        for _ in 0..n {
            let mut a: Vec<Op7> = vec![Op7::Char(0), Op7::Char(1), Op7::Char(3), Op7::Str(0), Op7::Str(1), Op7::Str(2), Op7::Save, Op7::Clone];
            if fail_ops { a = vec![Op7::Char(0), Op7::Str(1), Op7::Save, Op7::Fail, Op7::FailChar] }
            // a state can be restored while the segment still starts with what it had when it was saved
            for (i, t) in saved.iter().enumerate() { if text.starts_with(t.as_str()) { a.push(Op7::Restore(i)) } }
            let op = *ch.pick(&a);
            match op { Op7::Char(i) => text.push(CHARS[i]), Op7::Str(i) => text.push_str(STRS[i]), Op7::Save => saved.push(text.clone()), Op7::Restore(i) => text = saved[i].clone(), _ => {} }
            v.push(op);
        }
        Some(v)
    };
    let observe = |seg: &ShapedSegment| -> Res<Vec<u8>> {
        let mut doc = Document::new();
        { let mut p = doc.add_page(Size::new(10., 10.)); show(&mut p, seg)?; }
        Ok(doc.write_to_pdf_bytes())
    };
    ctx.section("operation sequences", |ch| gen(ch, false), |o| format!("{:?}", o), |ops| {
        let r = (|| {
            let (seg, text, _) = run(ops, &sound)?;
            let got = observe(&seg)?;
            let g = glyphs_of(&Pdf::scan(&got)?)?;
            let want: Vec<u16> = text.chars().map(gid).collect();
            if g.len() != 1 || g[0].1 != want { return Err(format!("glyphs {:?}, expected {:?} for {:?}", g, want, text)) }
            let direct = observe(&ShapedSegment::naive_shape(&text, sound.clone()).map_err(|e| format!("{:?}", e))?)?;
            if direct != got { return Err("shaping the text at once gives another segment".to_string()) }
            Ok(fp(&want))
        })();
        match r { Ok(h) => Ok(h), Err(e) => fail("segment", e) }
    });
    // Appends that fail half way are undone by restore.
    ctx.section("failing appends", |ch| gen(ch, true), |o| format!("{:?}", o), |ops| {
        let r = (|| {
            let (seg, text, failed) = run(ops, &broken)?;
            if failed != (ops.contains(&Op7::Fail) || ops.contains(&Op7::FailChar)) { return Err("a character without metrics was appended".to_string()) }
            let got = observe(&seg)?;
            let g = glyphs_of(&Pdf::scan(&got)?)?;
            let want: Vec<u16> = text.chars().map(gid).collect();
            if g.len() != 1 || g[0].1 != want { return Err(format!("glyphs {:?}, expected {:?} for {:?}", g, want, text)) }
            Ok(fp(&want))
        })();
        match r { Ok(h) => Ok(h), Err(e) => fail("segment", e) }
    });
    // Fonts made, used and dropped one after another: the memory of one is reused for the next.
    let kinds: Vec<Vec<u8>> = (0..3u16).map(|i| { let mut s = Spec::simple("Gone"); s.cmaps = vec![(3, 1, cmap4(&[(32, 32, 27u16.wrapping_sub(32), 0), (102, 97, (1 + 5 * i).wrapping_sub(97), 0), (0xFFFF, 0xFFFF, 1, 0)], &[]))]; s.build() }).collect();
    let d = ctx.by(4usize, 5);
    ctx.section("fonts that are gone", |ch| {
        let n = 2 + ch.choose(d - 1);
        // font, text, what is kept (nothing, the font, the segment)
        Some((0..n).map(|_| (ch.choose(3), ch.choose(2), ch.choose(3))).collect::<Vec<_>>())
    }, |v| format!("{:?}", v), |v| {
        let r = (|| {
            let (mut fonts, mut segs) = (Vec::new(), Vec::new());
            for &(k, t, keep) in v {
                let text = ["ab", "ca"][t];
                let f = Font::parse(kinds[k].clone()).map_err(|e| format!("{:?}", e))?;
                let seg = ShapedSegment::naive_shape(text, f.clone()).map_err(|e| format!("{:?}", e))?;
                let g = glyphs_of(&Pdf::scan(&observe(&seg)?)?)?;
                let want: Vec<u16> = text.bytes().map(|c| c as u16 - 96 + 5 * k as u16).collect();
                if g.len() != 1 || g[0].1 != want { return Err(format!("glyphs {:?}, font {} has {:?}", g, k, want)) }
                match keep { 0 => {} 1 => fonts.push(f), _ => segs.push(seg) }
            }
            Ok(fp(v))
        })();
        match r { Ok(h) => Ok(h), Err(e) => fail("segment", e) }
    });
    crate::layout::c07_widths(ctx);
    ctx.assumptions.push("a segment's advance width is not public; it is observed through inline layout, which saves, appends and restores segments at every line break opportunity".into());
}
