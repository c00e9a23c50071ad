//! C08: plain-text layout.
use crate::engine::*;
use crate::font::*;
use crate::pdf::*;
use std::sync::Arc;
use victor::fonts::Font;
use victor::primitives::*;
use victor::text_plain::{layout, Style};

type Res<T> = Result<T, String>;

#[derive(Clone, Debug)]
pub struct Case { text: String, w: f32, h: f32, margin: f32, size: f32, lh: f32, justify: bool, asc: usize }

/// Glyph widths in em: exact binary fractions, so that sums are exact.
fn em(g: u16) -> f64 { [500, 1000, 250, 750, 1500, 125][g as usize % 6] as f64 / 1000. }
const ASC: &[i16] = &[750, 1125, 250];
fn the_font(asc: i16) -> Arc<Font> {
    let mut s = Spec::simple("Plain");
    s.widths = (0..28).map(|g| (em(g) * 1000.) as u16).collect();
    s.asc = asc; s.desc = -250;
    s.font()
}
fn gid(c: char) -> u16 { match c { ' ' => 27, 'a'..='z' => c as u16 - 96, _ => 0 } }

/// Break opportunities after spaces and line feeds, written from the rules for these characters only.
fn own_breaks(t: &str) -> Vec<(usize, bool)> {
    let b = t.as_bytes();
    let mut v = Vec::new();
    for i in 1..b.len() {
        if b[i - 1] == b'\n' { v.push((i, true)) }
        else if b[i - 1] == b' ' && b[i] != b' ' && b[i] != b'\n' { v.push((i, false)) }
    }
    if !b.is_empty() { v.push((b.len(), true)) }
    v
}

const PX_PER_MM: f64 = 96. / 25.4;

/// (page, glyph, x, baseline) of every glyph, and the number of pages.
fn reference(c: &Case, breaks: &[(usize, bool)]) -> (Vec<(usize, u16, f64, f64)>, usize) {
    let (size, m) = (c.size as f64, c.margin as f64 * PX_PER_MM);
    let measure = c.w as f64 * PX_PER_MM - 2. * m;
    let max_y = c.h as f64 * PX_PER_MM - m;
    let lh = c.lh as f64 * size;
    let mut lines: Vec<(Vec<(String, f64)>, bool)> = vec![]; // segments with widths, ends with a mandatory break
    let mut cur: Vec<(String, f64)> = vec![];
    let mut from = 0;
    for &(to, hard) in breaks {
        let seg = c.text[from..to].trim_end_matches('\n').to_string();
        from = to;
        let w: f64 = seg.chars().map(|ch| em(gid(ch)) * size).sum();
        let total: f64 = cur.iter().map(|s| s.1).sum();
        if !cur.is_empty() && total > 0. && total + w > measure + 1e-3 { lines.push((std::mem::take(&mut cur), false)) }
        cur.push((seg, w));
        if hard { lines.push((std::mem::take(&mut cur), true)) }
    }
    assert!(cur.is_empty());
    let mut out = Vec::new();
    let (mut page, mut y) = (0, m);
    for (i, (segs, hard)) in lines.iter().enumerate() {
        if i > 0 { y += lh; if y > max_y + 1e-3 { page += 1; y = m } }
        let total: f64 = segs.iter().map(|s| s.1).sum();
        let gap = if c.justify && !hard && total < measure && segs.len() > 1 { (measure - total) / (segs.len() - 1) as f64 } else { 0. };
        let base = y + (lh - size) / 2. + ASC[c.asc] as f64 / 1000. * size;
        let mut x = m;
        for (s, _) in segs { for ch in s.chars() { out.push((page, gid(ch), x, base)); x += em(gid(ch)) * size } x += gap; }
    }
    (out, page + 1)
}

fn observed(bytes: &[u8], c: &Case) -> Res<(Vec<(usize, u16, f64, f64)>, usize)> {
    let pdf = Pdf::scan(bytes)?;
    let pages = pdf.pages()?;
    let mut out = Vec::new();
    for (i, p) in pages.iter().enumerate() {
        let (w, h) = ((p.media[2] - p.media[0]) / 0.75, (p.media[3] - p.media[1]) / 0.75);
        if (w - c.w as f64 * PX_PER_MM).abs() > 1e-3 || (h - c.h as f64 * PX_PER_MM).abs() > 1e-3 { return Err(format!("page {} is {}x{} px", i, w, h)) }
        for it in pdf.paint_page(p)? {
            match it {
                Paint::Text { x, y, size, glyphs, rgb, alpha, .. } => {
                    if (size - c.size as f64).abs() > 1e-4 || rgb != [0.; 3] || alpha != 1. { return Err(format!("text of size {} colour {:?}", size, rgb)) }
                    let mut x = x;
                    for g in glyphs { out.push((i, g, x, y)); x += em(g) * size }
                }
                o => return Err(format!("unexpected {:?}", o)),
            }
        }
    }
    Ok((out, pages.len()))
}

fn check(c: &Case, breaks: &[(usize, bool)], fonts: &[Arc<Font>]) -> Outcome {
    let style = Style { page_size: Size::new(c.w, c.h), page_margin: Length::new(c.margin), font: fonts[c.asc].clone(), font_size: Length::new(c.size), line_height: c.lh, justify: c.justify };
    let doc = match layout(&c.text, &style) { Ok(d) => d, Err(e) => return fail("error", format!("{:?}", e)) };
    let r = (|| {
        let (g, gp) = observed(&doc.write_to_pdf_bytes(), c)?;
        let (w, wp) = reference(c, breaks);
        let same = g.len() == w.len() && g.iter().zip(&w).all(|(a, b)| a.0 == b.0 && a.1 == b.1 && (a.2 - b.2).abs() < 2e-2 + 1e-4 * c.w as f64 && (a.3 - b.3).abs() < 2e-2);
        if !same || gp != wp {
            let f = |v: &[(usize, u16, f64, f64)]| v.iter().map(|x| format!("[p{} g{} {:.2},{:.2}]", x.0, x.1, x.2, x.3)).collect::<Vec<_>>().join(" ");
            return Err(format!("{} pages: {}\nexpected {} pages: {}", gp, f(&g), wp, f(&w)));
        }
        Ok(fp(&format!("{:?}{}", w.iter().map(|x| (x.0, x.1, x.2 as i64, x.3 as i64)).collect::<Vec<_>>(), wp)))
    })();
    match r { Ok(h) => Ok(h), Err(e) => fail("layout", e) }
}

/// A length in mm for a whole number of px, which every reasonable way of converting gives exactly, if there is one.
fn exact_mm(px: f32) -> Option<f32> {
    let mm = px * 25.4 / 96.;
    for &mm in &[mm, f32::from_bits(mm.to_bits() + 1), f32::from_bits(mm.to_bits() - 1)] {
        let scale = 96f32 / 25.4;
        let scale2 = (1f32 / 25.4) * 96.;
        let v = [mm * scale, mm * scale2, mm / 25.4 * 96., mm * 96. / 25.4, (mm as f64 * 96. / 25.4) as f32];
        if v.iter().all(|x| *x == px) { return Some(mm) }
    }
    None
}

pub fn c08(ctx: &mut Ctx) {
    let font: Vec<Arc<Font>> = ASC.iter().map(|a| the_font(*a)).collect();
    let d = |c: &Case| format!("{:?}", c);
    // 16px font; measures well between the possible sums, from less than one glyph to everything.
    let geo = |ch: &mut Chooser, ws: &[f32], hs: &[f32]| -> (f32, f32, f32) {
        let m = *ch.pick(&[0f32, 3.]);
        (*ch.pick(ws) / PX_PER_MM as f32 + 2. * m, *ch.pick(hs) / PX_PER_MM as f32 + 2. * m, m)
    };
    let len = ctx.by(7usize, 9);
    ctx.section("words", |ch| {
        let mut t = String::new();
        for _ in 0..len { let k = ch.choose(6); if k == 0 { break } t.push_str(["a", "bc", " ", "  ", "\n"][k - 1]) }
        let (w, h, margin) = geo(ch, &[5., 35., 49., 79.], &[47., 500.]);
        Some(Case { text: t, w, h, margin, size: 16., lh: 1.25, justify: ch.flag(), asc: 0 })
    }, d, |c| check(c, &own_breaks(&c.text), &font));
    let n = ctx.by(14usize, 40);
    ctx.section("pages", |ch| {
        let lines = ch.choose(n);
        let kind = ch.choose(3);
        let t: String = (0..lines).map(|i| match kind { 0 => "a\n", 1 => if i % 3 == 1 { "\n" } else { "b c\n" }, _ => "dd dd " }).collect();
        let size = *ch.pick(&[16f32, 8.]);
        let lh = *ch.pick(&[1f32, 1.25, 2., 0.5, 0.]);
        if lh == 0. && !ch.flag() { return None }
        let (w, h, margin) = geo(ch, &[60.], &[5., 19.5, 20.5, 39.5, 60.5, 100.]);
        Some(Case { text: t.trim_end_matches(if ch.flag() { '\n' } else { 'x' }).to_string(), w, h, margin, size, lh, justify: ch.flag(), asc: 0 })
    }, d, |c| check(c, &own_breaks(&c.text), &font));
    // Lines that fit exactly, pages whose last line starts exactly at the bottom margin.
    let exact: Vec<(f32, f32)> = (1..=40).filter_map(|k| exact_mm(8. * k as f32).map(|mm| (mm, 8. * k as f32))).collect();
    assert!(exact.len() > 8, "only {} exact lengths", exact.len());
    let len = ctx.by(5usize, 7);
    ctx.section("exact fits", |ch| {
        let mut t = String::new();
        for _ in 0..len { let k = ch.choose(4); if k == 0 { break } t.push_str(["a", "b ", "\n"][k - 1]) }
        // (exactly, or just not)
        let (dw, dh) = *ch.pick(&[(0f32, 0f32), (-4e-3, 0.), (0., -4e-3)]);
        let w = ch.pick(&exact).0 + dw / PX_PER_MM as f32;
        let h = ch.pick(&exact[..10.min(exact.len())]).0 + dh / PX_PER_MM as f32;
        Some(Case { text: t, w, h, margin: 0., size: 16., lh: *ch.pick(&[1f32, 1.5]), justify: ch.flag(), asc: 0 })
    }, d, |c| check(c, &own_breaks(&c.text), &font));
    let sizes: Vec<(f32, f32)> = vec![(16., 1.), (10., 1.2), (33.3, 1.7), (0.5, 3.)];
    let words = ctx.by(6usize, 9);
    ctx.section("sizes and justification", |ch| {
        let (size, lh) = *ch.pick(&sizes);
        let n = ch.choose(words);
        let mut t = String::new();
        for _ in 0..n { t.push_str(*ch.pick(&["ab ", "d ", "efe\n"])) }
        if ch.flag() { t.push('c') }
        let w = *ch.pick(&[1.1f32, 2.55, 3.9, 6.]) * size + 0.0625 * size;
        Some(Case { text: t, w: w / PX_PER_MM as f32 + 2., h: 3.3 * lh * size / PX_PER_MM as f32 + 2., margin: 1., size, lh, justify: ch.flag(), asc: ch.choose(3) })
    }, d, |c| check(c, &own_breaks(&c.text), &font));
    // No room at all between the margins, or only in one direction.
    ctx.section("no room", |ch| {
        let n = ch.choose(5);
        let mut t = String::new();
        for _ in 0..n { t.push_str(*ch.pick(&["ab ", "c", "\n"])) }
        let (w, h) = (*ch.pick(&[0.01f32, 5., 60.]), *ch.pick(&[0.01f32, 0.5, 5., 60.]));
        Some(Case { text: t, w: w / PX_PER_MM as f32 + 20., h: h / PX_PER_MM as f32 + 20., margin: 10., size: 16., lh: *ch.pick(&[1f32, 0.25]), justify: ch.flag(), asc: 1 })
    }, d, |c| check(c, &own_breaks(&c.text), &font));
    // Texts of many words, lines and pages.
    let most = ctx.by(400usize, 3000);
    ctx.section("long texts", |ch| {
        let n = ch.choose(most);
        let shape = ch.choose(5);
        let t: String = (0..n).map(|i| match shape { 0 => "ab ", 1 => if i % 50 == 49 { "b\n" } else { "c " }, 2 => "a\n", 3 => ["a ", "bcd ", "ee", "f "][i * i % 4], _ => ["ab ", "\n", "c", "\n\n", "  "][i * i % 5] }).collect();
        Some(Case { text: t, w: *ch.pick(&[40f32, 240., 1200.]), h: *ch.pick(&[40f32, 290.]), margin: 7., size: 16., lh: 1.25, justify: ch.flag(), asc: 0 })
    }, |c| { let t: String = c.text.chars().take(60).collect(); format!("{:?}... {} x {} mm, justified: {}, {} bytes", t, c.w, c.h, c.justify, c.text.len()) }, |c| check(c, &own_breaks(&c.text), &font));
    // Every character class the line breaking library distinguishes in small strings.
    let alphabet: Vec<char> = "a \n\r\u{b}\u{c}\u{85}\u{2028}\u{2029}-(.1中\u{A0}\u{200B}\u{2060}\u{301}\u{1F600}\"/".chars().collect();
    let len = ctx.by(4usize, 5);
    ctx.section("character classes", |ch| {
        let mut t = String::new();
        for _ in 0..len { let k = ch.choose(alphabet.len() + 1); if k == 0 { break } t.push(alphabet[k - 1]) }
        let (w, h, margin) = (*ch.pick(&[5f32, 21.]) / PX_PER_MM as f32 + 2., 500., 1.);
        Some(Case { text: t, w, h, margin, size: 16., lh: 1., justify: false, asc: 0 })
    }, d, |c| {
        let br: Vec<(usize, bool)> = xi_unicode::LineBreakIterator::new(&c.text).collect();
        // mandatory breaks, independently of the library (UAX 14, LB4 to LB6)
        let cs: Vec<(usize, char)> = c.text.char_indices().collect();
        for k in 1..cs.len() {
            let (p, n) = (cs[k - 1].1, cs[k].1);
            let hard = match p { '\n' | '\u{b}' | '\u{c}' | '\u{85}' | '\u{2028}' | '\u{2029}' => true, '\r' => n != '\n', _ => false };
            assert_eq!(br.contains(&(cs[k].0, true)), hard, "library and LB4-LB6 disagree on {:?}", c.text);
        }
        check(c, &br, &font)
    });
    ctx.assumptions.push("break opportunities: our own rules for letters, spaces and line feeds; the xi-unicode library (UAX 14) for other character classes; no zero-width glyphs; lengths compared to 0.02 px (horizontally: and 0.01% of the page width in mm)".into());
}
