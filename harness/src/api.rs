//! C01, C02, C03: the drawing API (victor::pdf) and its serialisation.
use crate::engine::*;
use crate::font::*;
use crate::pdf::*;
use std::sync::Arc;
use victor::fonts::Font;
use victor::primitives::*;
use victor::text::ShapedSegment;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op { Page(usize), Color(usize), Rect(usize), Text(usize, usize, usize), Broken, Serialize }

pub const SIZES: &[(f32, f32)] = &[(600., 800.), (10.5, 7.25), (1., 20000.), (0.1, 333.33)];
pub const COLORS: &[(f32, f32, f32, f32)] = &[
    (0., 0., 0., 1.), (1., 0., 0., 1.), (1., 0., 0., 0.5), (1., 0., 0., 0.50001), (0., 0., 0., 0.5), (1., 0., 0., 2.), (1., 0., 0., -0.25),
    // deeper alphabet
    (0., 0., 1., 0.5), (1., 0., 0., 0.49999), (0., 1., 0., 0.), (0.2, 0.4, 0.6, 0.9999999), (0., 0., 0., 0.00002), (-0.5, 1.5, 0.25, 0.25),
];
pub const RECTS: &[(f32, f32, f32, f32)] = &[(0., 0., 10., 20.), (-3.5, 7.25, 0.1, 33.3), (5., 5., 0., 0.)];
pub const TEXTS: &[&str] = &["ab", "b", "", "é"];
pub const FSIZES: &[f32] = &[16., 0.5, 33.3];

pub struct Fonts { pub fonts: Vec<Arc<Font>>, bytes: Vec<Vec<u8>> }
pub fn fonts() -> Fonts {
    let mut a = Spec::simple("FontA");
    a.extra_tables = vec![(*b"zzzz", b"endstream\nendobj\nxref\n".to_vec())];
    let mut b = Spec::simple("FontB");
    b.upem = 2048;
    let c = Spec::simple("Font#C");
    // A font whose metrics are incomplete: "a" can be shaped, but the font cannot be embedded.
    let mut d = Spec::simple("FontD");
    d.n_metrics = 9000;
    d.n_glyphs = 9000;
    let t: Vec<_> = d.tables().into_iter().map(|(tag, d)| if &tag == b"hmtx" { (tag, Vec::new()) } else { (tag, d) }).collect();
    let (mut broken, pos) = assemble(0x10000, &t);
    let at = pos.iter().position(|p| &p.0 == b"hmtx").unwrap();
    let end = (broken.len() as u32).to_be_bytes();
    broken[12 + 16 * at + 8..12 + 16 * at + 12].copy_from_slice(&end);
    for w in &d.widths { be16(&mut broken, *w); be16(&mut broken, 0) }
    let bytes: Vec<Vec<u8>> = vec![a.build(), b.build(), c.build(), broken];
    Fonts { fonts: bytes.iter().map(|b| match Font::parse(b.clone()) { Ok(f) => f, Err(e) => panic!("font rejected: {:?}", e) }).collect(), bytes }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Want { Rect([f32; 4], [f32; 3], f32), Text { font: usize, size: f32, x: f32, y: f32, glyphs: Vec<u16>, rgb: [f32; 3], alpha: f32 } }

fn gid(c: char) -> u16 { match c { ' ' => 27, 'a'..='z' => c as u16 - 96, _ => 0 } }

/// Executes the operations on the real API; returns the bytes and what each page should paint.
pub fn run(ops: &[Op], f: &Fonts, skip_serialize: bool) -> (Vec<u8>, Vec<((f32, f32), Vec<Want>)>) {
    use victor::pdf::Document;
    let mut doc = Document::new();
    let mut want: Vec<((f32, f32), Vec<Want>)> = Vec::new();
    let mut i = 0;
    while i < ops.len() {
        let sz = match ops[i] {
            Op::Page(s) => SIZES[s],
            Op::Serialize => { if !skip_serialize { doc.write_to_pdf_bytes(); } i += 1; continue }
            _ => unreachable!("generator starts with a page"),
        };
        i += 1;
        let mut page = doc.add_page(Size::new(sz.0, sz.1));
        let mut cur = (0., 0., 0., 1.);
        let mut w = Vec::new();
        while i < ops.len() {
            match ops[i] {
                Op::Page(_) | Op::Serialize => break,
                Op::Color(c) => { let c = COLORS[c]; page.set_color(&RGBA(c.0, c.1, c.2, c.3)); cur = c }
                Op::Rect(r) => {
                    let r = RECTS[r];
                    let r = (r.0 + i as f32, r.1, r.2, r.3);
                    page.paint_rectangle(&Rect::new(point(r.0, r.1), Size::new(r.2, r.3)));
                    w.push(Want::Rect([r.0, r.1, r.2, r.3], [cur.0, cur.1, cur.2], cur.3));
                }
                Op::Text(fi, t, s) => {
                    let seg = ShapedSegment::naive_shape(TEXTS[t], f.fonts[fi].clone()).ok().expect("shape");
                    let (x, y) = (i as f32 * 1.5, 40. - i as f32);
                    page.show_text(&TextRun { segment: &seg, font_size: Length::new(FSIZES[s]), origin: point(x, y) }).ok().expect("show_text");
                    w.push(Want::Text { font: fi, size: FSIZES[s], x, y, glyphs: TEXTS[t].chars().map(gid).collect(), rgb: [cur.0, cur.1, cur.2], alpha: cur.3 });
                }
                Op::Broken => {
                    // An error, and nothing is painted.
                    let seg = match ShapedSegment::naive_shape("a", f.fonts[3].clone()) { Ok(s) => s, Err(_) => { i += 1; continue } };
                    if page.show_text(&TextRun { segment: &seg, font_size: Length::new(5.), origin: point(1., 2.) }).is_ok() {
                        w.push(Want::Text { font: 3, size: 5., x: 1., y: 2., glyphs: vec![1], rgb: [cur.0, cur.1, cur.2], alpha: cur.3 });
                    }
                }
            }
            i += 1;
        }
        drop(page);
        want.push((sz, w));
    }
    (doc.write_to_pdf_bytes(), want)
}

fn gen_ops(ch: &mut Chooser, alphabet: &[Op], max: usize) -> Option<Vec<Op>> {
    // First operation is a page unless the document is empty; length is part of the tree.
    let len = ch.choose(max + 1);
    let mut v = Vec::new();
    let pages: Vec<Op> = alphabet.iter().filter(|o| matches_page(o)).copied().collect();
    for k in 0..len {
        let a: &[Op] = if k == 0 || v.last() == Some(&Op::Serialize) { &pages } else { alphabet };
        v.push(*ch.pick(a));
    }
    Some(v)
}
fn matches_page(o: &Op) -> bool { if let Op::Page(_) = o { true } else { *o == Op::Serialize } }

fn check_media(p: &PageInfo, sz: (f32, f32)) -> R<()> {
    let w = p.media[2] - p.media[0];
    let h = p.media[3] - p.media[1];
    let near = |a: f64, b: f64| (a - b).abs() <= 1e-6 * b.abs();
    if !near(w, sz.0 as f64 * 0.75) || !near(h, sz.1 as f64 * 0.75) { return Err(format!("media box {:?} for page of {:?} px", p.media, sz)) }
    Ok(())
}

fn walk_refs(pdf: &Pdf, o: &Obj) -> R<()> {
    match o {
        Obj::Ref(n, g) => if *g != 0 || !pdf.objects.contains_key(n) { return Err(format!("reference {} {} R does not resolve", n, g)) } else { Ok(()) },
        Obj::Array(a) => { for x in a { walk_refs(pdf, x)? } Ok(()) }
        Obj::Dict(d) => { for (_, x) in d { walk_refs(pdf, x)? } Ok(()) }
        _ => Ok(()),
    }
}

/// Structure only (C01).
pub fn structure(bytes: &[u8], sizes: &[(f32, f32)]) -> R<Vec<Vec<Paint>>> {
    let pdf = Pdf::strict(bytes)?;
    for i in pdf.objects.values() { walk_refs(&pdf, &i.obj).map_err(|e| format!("object {}: {}", i.id, e))? }
    walk_refs(&pdf, &pdf.trailer)?;
    let pages = pdf.pages()?;
    if pages.len() != sizes.len() { return Err(format!("{} pages in the page tree, {} were added", pages.len(), sizes.len())) }
    for (p, s) in pages.iter().zip(sizes) { check_media(p, *s)? }
    // resource names used are defined and every resource dictionary is well formed
    let mut out = Vec::new();
    for p in &pages {
        let mut seen = 0;
        for (k, o) in p.resources.dict()? { let _ = k; seen += 1; if let Obj::Dict(d) = pdf.resolve(o)? { for (_, v) in d { pdf.resolve(v)?; } } }
        let _ = seen;
        out.push(pdf.paint_page(p)?);
    }
    Ok(out)
}

pub fn c01(ctx: &mut Ctx) {
    let f = fonts();
    let alpha_q = [Op::Page(0), Op::Page(1), Op::Color(1), Op::Color(2), Op::Color(4), Op::Rect(0), Op::Text(0, 0, 0), Op::Text(1, 1, 0), Op::Broken, Op::Serialize];
    let alpha_t = [Op::Page(0), Op::Page(1), Op::Page(2), Op::Page(3), Op::Color(1), Op::Color(2), Op::Color(4), Op::Color(9), Op::Rect(0), Op::Rect(1), Op::Text(0, 0, 0), Op::Text(1, 1, 1), Op::Text(2, 2, 0), Op::Broken, Op::Serialize];
    let (alphabet, depth): (&[Op], usize) = ctx.by((&alpha_q[..], 6), (&alpha_t[..], 7));
    let check = |ops: &Vec<Op>| -> Outcome {
        let (bytes, want) = run(ops, &f, false);
        let sizes: Vec<_> = want.iter().map(|w| w.0).collect();
        match structure(&bytes, &sizes) {
            Ok(_) => {}
            Err(e) => return fail("structure", e),
        }
        if ops.contains(&Op::Serialize) {
            let (again, _) = run(ops, &f, true);
            if again != bytes { return fail("serialize", "serialising in the middle of building a document changed the final output") }
        }
        Ok(fp_bytes(&bytes))
    };
    ctx.section("call sequences", |ch| gen_ops(ch, alphabet, depth), |o| format!("{:?}", o), check);
    // Many pages: object count and offset widths.
    let max = ctx.by(260, 2100);
    ctx.section("page counts", |ch| {
        let n = ch.choose(max);
        let kind = ch.choose(3);
        let mut v = Vec::new();
        for i in 0..n {
            v.push(Op::Page(i % SIZES.len()));
            if kind == 1 { v.push(Op::Rect(i % 3)) }
            if kind == 2 { v.push(Op::Color(i % COLORS.len())); v.push(Op::Text(i % 3, i % 4, i % 3)) }
        }
        Some(v)
    }, |o| format!("{} operations: {:?}...", o.len(), &o[..o.len().min(8)]), check);
    // Content lengths: crossing powers of ten in Length, offsets.
    let max = ctx.by(1500, 9000);
    ctx.section("content lengths", |ch| {
        let n = ch.choose(max);
        let mut v = vec![Op::Page(0)];
        for i in 0..n { v.push(if i % 7 == 3 { Op::Color(i % COLORS.len()) } else { Op::Rect(i % 3) }) }
        v.push(Op::Page(1));
        Some(v)
    }, |o| format!("{} operations", o.len()), check);
    // Many resources, of both kinds, registered on one page or on many.
    let most = ctx.by(300usize, 1500);
    let small = Spec::simple("S").font();
    ctx.section("many resources", |ch| Some((ch.choose(most), ch.choose(3), ch.choose(3))), |c| format!("{:?}", c), |&(n, pages, texts)| {
        let per = match pages { 0 => n + 1, 1 => 1, _ => 7 };
        let mut fonts = Vec::new();
        let mut doc = victor::pdf::Document::new();
        let mut sizes = Vec::new();
        let mut i = 0;
        while i <= n {
            let mut p = doc.add_page(Size::new(10., 10.));
            sizes.push((10., 10.));
            for k in i..(i + per).min(n + 1) {
                p.set_color(&RGBA(0., 0., 1., k as f32 / (n + 1) as f32));
                p.paint_rectangle(&rect(0., 0., 1., 1.));
                if texts == 1 && k % 50 == 49 || texts == 2 && k % 9 == 0 && fonts.len() < 12 {
                    let f = if texts == 2 { Spec::simple(&format!("S{}", k)).font() } else { small.clone() };
                    let seg = ShapedSegment::naive_shape("ab", f.clone()).ok().expect("shape");
                    fonts.push(f);
                    p.show_text(&TextRun { segment: &seg, font_size: Length::new(9.), origin: point(1., 9.) }).ok().expect("show_text");
                }
            }
            i += per;
        }
        let bytes = doc.write_to_pdf_bytes();
        match structure(&bytes, &sizes) { Ok(_) => Ok(fp_bytes(&bytes)), Err(e) => fail("structure", e) }
    });
    // Page sizes, alone and next to a page of another size.
    const DIMS: &[f32] = &[0.01, 0.1, 0.3, 1., 1.5, 2., 3., 4. / 3., 7.999, 10.1, 72., 96., 99.99, 100., 333.333, 595.276, 600., 793.7, 816., 841.89, 1000., 1056., 1122.5, 4096., 9999.5, 14400., 19200., 19201., 32767., 65536., 100000.5, 1e6, 16777216., 1e8];
    ctx.section("page sizes", |ch| Some((*ch.pick(DIMS), *ch.pick(DIMS), ch.choose(3))), |c| format!("{:?}", c), |&(w, h, k)| {
        let sizes = match k { 0 => vec![(w, h)], 1 => vec![(w, h), (600., 800.), (h, w)], _ => vec![(600., 800.), (w, h), (w, h)] };
        let mut doc = victor::pdf::Document::new();
        for s in &sizes { doc.add_page(Size::new(s.0, s.1)).paint_rectangle(&rect(0., 0., 1., 1.)); }
        let bytes = doc.write_to_pdf_bytes();
        match structure(&bytes, &sizes) { Ok(_) => Ok(fp_bytes(&bytes)), Err(e) => fail("structure", e) }
    });
    // Fonts with any name, texts of any length.
    let names: Vec<String> = (0x20..0x7fu8).map(|b| format!("x{}y", b as char)).chain((0..64).map(|n| "N".repeat(n))).chain(vec!["()".into(), ")(".into(), "<<".into(), ">>".into(), "endobj".into(), "1 0 R".into(), "\\".into(), "#41".into(), "/Type".into()]).collect();
    let most = ctx.by(300usize, 3000);
    ctx.section("font names and text lengths", |ch| Some(if ch.flag() { (ch.choose(names.len()), 2) } else { (0, ch.choose(most)) }), |&(k, n)| format!("font {:?}, {} glyphs", names[k], n), |&(k, n)| {
        let font = match Font::parse(Spec::simple(&names[k]).build()) { Ok(f) => f, Err(_) => return Ok(0) };
        let seg = ShapedSegment::naive_shape(&"ab".repeat(n)[..n], font).ok().expect("shape");
        let mut doc = victor::pdf::Document::new();
        doc.add_page(Size::new(10., 10.)).show_text(&TextRun { segment: &seg, font_size: Length::new(9.), origin: point(1., 9.) }).ok().expect("show_text");
        doc.add_page(Size::new(10., 10.)).paint_rectangle(&rect(0., 0., 1., 1.));
        let bytes = doc.write_to_pdf_bytes();
        match structure(&bytes, &[(10., 10.); 2]) { Ok(_) => Ok(fp_bytes(&bytes)), Err(e) => fail("structure", e) }
    });
    // Large files: offsets and lengths that cross powers of ten and of two.
    let mut marks: Vec<usize> = vec![1 << 16, 1 << 20, 1 << 24, 100_000, 1_000_000, 10_000_000];
    if !ctx.quick() { marks.extend_from_slice(&[1 << 25, 1 << 26, 100_000_000]) }
    ctx.section("large files", |ch| {
        let m = *ch.pick(&marks);
        let d = ch.choose(3);
        Some((m - 1500 + 1500 * d, ch.flag()))
    }, |c| format!("a font of about {} bytes, used {}", c.0, if c.1 { "between pages" } else { "on the first page" }), |&(n, between)| {
        let mut sp = Spec::simple("Large");
        sp.extra_tables = vec![(*b"zzzz", vec![b'z'; n])];
        let big = match Font::parse(sp.build()) { Ok(x) => x, Err(e) => return fail("font", format!("{:?}", e)) };
        let seg = ShapedSegment::naive_shape("ab", big).ok().expect("shape");
        let mut doc = victor::pdf::Document::new();
        for i in 0..3 {
            let mut p = doc.add_page(Size::new(600., 800.));
            if between || i == 0 { p.show_text(&TextRun { segment: &seg, font_size: Length::new(9.), origin: point(1., 9.) }).ok().expect("show_text"); }
            p.paint_rectangle(&rect(0., 0., 1., 1.));
        }
        let bytes = doc.write_to_pdf_bytes();
        match structure(&bytes, &[(600., 800.); 3]) { Ok(_) => Ok(fp(&bytes.len())), Err(e) => fail("structure", e) }
    });
    ctx.assumptions.push("the oracle is an independent strict reader of the PDF 32000-1 file structure; documents smaller than 10 GB".into());
}

fn near(a: f64, b: f64) -> bool { (a - b).abs() <= 1e-5 * b.abs().max(1.) }

/// Compares what a page paints with what was asked (C02).
fn compare(got: &[Paint], want: &[Want], font_ids: &mut Vec<Option<u32>>) -> R<()> {
    if got.len() != want.len() { return Err(format!("{} painted items, {} were requested: {:?}", got.len(), want.len(), got)) }
    for (g, w) in got.iter().zip(want) {
        let bad = || Err(format!("painted {:?}, requested {:?}", g, w));
        let colour = |rgb: &[f64; 3], alpha: f64, wr: &[f32; 3], wa: f32| {
            (0..3).all(|i| rgb[i] as f32 == wr[i]) && (alpha - wa.max(0.).min(1.) as f64).abs() <= 1.0001 / 65535.
        };
        match (g, w) {
            (Paint::Rect { x, y, w: ww, h, rgb, alpha, .. }, Want::Rect(r, c, a)) => {
                if !(near(*x, r[0] as f64) && near(*y, r[1] as f64) && near(*ww, r[2] as f64) && near(*h, r[3] as f64)) { return bad() }
                if !colour(rgb, *alpha, c, *a) { return bad() }
            }
            (Paint::Text { x, y, size, font, glyphs, rgb, alpha, .. }, Want::Text { font: wf, size: ws, x: wx, y: wy, glyphs: wg, rgb: c, alpha: a }) => {
                if !(near(*x, *wx as f64) && near(*y, *wy as f64) && near(*size, *ws as f64)) || glyphs != wg { return bad() }
                if !colour(rgb, *alpha, c, *a) { return bad() }
                match font_ids[*wf] { None => { if font_ids.contains(&Some(*font)) { return Err(format!("font {} shown with the resource of another font", wf)) } font_ids[*wf] = Some(*font) }
                    Some(id) => if id != *font { return Err(format!("font {} has two resources", wf)) } }
            }
            _ => return bad(),
        }
    }
    Ok(())
}

pub fn c02(ctx: &mut Ctx) {
    let f = fonts();
    let alpha_q = [Op::Page(0), Op::Page(1), Op::Color(0), Op::Color(1), Op::Color(2), Op::Color(3), Op::Color(4), Op::Color(5), Op::Color(6), Op::Rect(0), Op::Text(0, 0, 0), Op::Text(1, 1, 1)];
    let mut alpha_t = alpha_q.to_vec();
    for i in 7..COLORS.len() { alpha_t.push(Op::Color(i)) }
    alpha_t.extend_from_slice(&[Op::Rect(1), Op::Text(2, 2, 2), Op::Text(0, 3, 0), Op::Broken]);
    let check = |ops: &Vec<Op>| -> Outcome {
        let (bytes, want) = run(ops, &f, false);
        let r = (|| -> R<u64> {
            let pdf = Pdf::scan(&bytes)?;
            let pages = pdf.paint()?;
            if pages.len() != want.len() { return Err("page count".into()) }
            let mut ids = vec![None; f.fonts.len()];
            for (g, w) in pages.iter().zip(&want) { compare(g, &w.1, &mut ids)? }
            for (i, id) in ids.iter().enumerate() {
                if let Some(id) = id { // the resource really is that font
                    let d = &pdf.objects[id].obj;
                    let cid = pdf.resolve(&pdf.get(d, "DescendantFonts")?.array()?[0])?;
                    let desc = pdf.get(cid, "FontDescriptor")?;
                    if pdf.stream(desc.get("FontFile2").ok_or("FontFile2")?)? != &f.bytes[i][..] { return Err(format!("font {} shown with another font's program", i)) }
                }
            }
            Ok(fp(&format!("{:?}", pages)))
        })();
        match r { Ok(h) => Ok(h), Err(e) => fail("paint", e) }
    };
    let depth = ctx.by(6, 7);
    ctx.section("call sequences", |ch| gen_ops(ch, &alpha_q, depth), |o| format!("{:?}", o), check);
    let depth = ctx.by(4, 5);
    ctx.section("call sequences, large alphabet", |ch| gen_ops(ch, &alpha_t, depth), |o| format!("{:?}", o), check);
    // Many opacities: states that were registered many states ago, on this page or an earlier one.
    let max = ctx.by(70usize, 400);
    ctx.section("many opacities", |ch| Some((1 + ch.choose(max), ch.choose(4), ch.flag())), |c| format!("{:?}", c), |&(n, order, pages)| {
        let alpha = |i: usize| (i % n) as f32 / n as f32;
        let seq: Vec<usize> = (0..n).chain((0..n).map(|i| match order { 0 => i, 1 => n - 1 - i, 2 => i * 7, _ => i / 2 })).collect();
        let mut doc = victor::pdf::Document::new();
        let mut want = vec![vec![]];
        for (c, chunk) in seq.chunks(if pages { 3 } else { seq.len() }).enumerate() {
            let mut p = doc.add_page(Size::new(10., 10.));
            if c > 0 { want.push(vec![]) }
            for &i in chunk {
                p.set_color(&RGBA(0., 1., 0., alpha(i)));
                p.paint_rectangle(&rect(i as f32, 0., 1., 1.));
                want.last_mut().unwrap().push(Want::Rect([i as f32, 0., 1., 1.], [0., 1., 0.], alpha(i)));
            }
        }
        let bytes = doc.write_to_pdf_bytes();
        let r = (|| -> R<u64> {
            let got = Pdf::scan(&bytes)?.paint()?;
            if got.len() != want.len() { return Err("page count".into()) }
            for (g, w) in got.iter().zip(&want) { compare(g, w, &mut vec![])? }
            Ok(fp(&(n, want.len())))
        })();
        match r { Ok(h) => Ok(h), Err(e) => fail("opacity", e) }
    });
    // Glyph numbers of two bytes, in texts of any length.
    const GIDS: &[u16] = &[0, 1, 2, 127, 128, 255, 256, 257, 511, 512, 0x0A0D, 0x2829, 0x5C5C, 0x7FFF, 0x8000, 0xFF00, 0xFFFD, 0xFFFE];
    let mut s = Spec::simple("Glyphs");
    s.n_metrics = 1;
    s.n_glyphs = 0xFFFF;
    s.cmaps = vec![(3, 10, cmap12(&GIDS.iter().enumerate().map(|(i, g)| (0x4E00 + i as u32, 0x4E00 + i as u32, *g as u32)).collect::<Vec<_>>()))];
    let wide = Arc::new(s);
    let lens = ctx.by(40usize, 300);
    ctx.section("glyph numbers", |ch| Some(if ch.flag() { (0..3).map(|_| ch.choose(GIDS.len())).collect::<Vec<usize>>() } else { const LONG: [usize; 14] = [511, 1024, 1025, 4095, 4096, 4097, 8192, 16384, 32767, 32768, 32769, 65535, 65537, 131073]; let k = ch.choose(lens + LONG.len()); let n = if k < lens { k } else { LONG[k - lens] }; (0..n).map(|i| i % GIDS.len()).collect() }), |v| format!("{:?}", v.iter().map(|i| GIDS[*i]).collect::<Vec<_>>()), |v| {
        thread_local!(static FONT: std::cell::RefCell<Option<Arc<Font>>> = std::cell::RefCell::new(None));
        let font = FONT.with(|f| f.borrow_mut().get_or_insert_with(|| { wide.font() }).clone());
        let text: String = v.iter().map(|i| std::char::from_u32(0x4E00 + *i as u32).unwrap()).collect();
        let seg = ShapedSegment::naive_shape(&text, font).ok().expect("shape");
        let mut doc = victor::pdf::Document::new();
        doc.add_page(Size::new(10., 10.)).show_text(&TextRun { segment: &seg, font_size: Length::new(9.), origin: point(1., 5.) }).ok().expect("show_text");
        let bytes = doc.write_to_pdf_bytes();
        let want = vec![Want::Text { font: 0, size: 9., x: 1., y: 5., glyphs: v.iter().map(|i| GIDS[*i]).collect(), rgb: [0.; 3], alpha: 1. }];
        let r = (|| -> R<u64> {
            let pages = Pdf::scan(&bytes)?.paint()?;
            compare(&pages[0], &want, &mut vec![None])?;
            Ok(fp(&format!("{:?}", pages)))
        })();
        match r { Ok(h) => Ok(h), Err(e) => fail("paint", e) }
    });
    // Opacity round trip: every 1/65535 step boundary neighbourhood against an already registered neighbour.
    let steps = ctx.by(4096usize, 65536);
    ctx.section("opacity pairs", |ch| {
        let k = ch.choose(steps);
        let d = ch.choose(3);
        Some((k as f32 / (steps - 1) as f32, d))
    }, |c| format!("alpha {} then neighbour {}", c.0, c.1), |&(a, d)| {
        let b = match d { 0 => a + 0.4 / 65535., 1 => a - 0.4 / 65535., _ => a + 2.5 / 65535. };
        let mut doc = victor::pdf::Document::new();
        {
            let mut p = doc.add_page(Size::new(10., 10.));
            for &v in &[a, b, a] { p.set_color(&RGBA(0., 0., 0., v)); p.paint_rectangle(&rect(0., 0., 1., 1.)); }
        }
        let bytes = doc.write_to_pdf_bytes();
        let r = (|| -> R<u64> {
            let pages = Pdf::scan(&bytes)?.paint()?;
            let w: Vec<Want> = [a, b, a].iter().map(|v| Want::Rect([0., 0., 1., 1.], [0.; 3], *v)).collect();
            compare(&pages[0], &w, &mut vec![])?;
            Ok(fp(&format!("{:?}", pages)))
        })();
        match r { Ok(h) => Ok(h), Err(e) => fail("opacity", e) }
    });
    ctx.assumptions.push("content streams are interpreted by our own implementation of the PDF imaging model for the operators cm gs re f rg BT ET Tf Tm Tj q Q".into());
}

pub fn c03(ctx: &mut Ctx) {
    ctx.assumptions.push("numbers appear where the interface takes lengths and colour components; infinite and NaN values are outside the statement; Rust's parser is the reference for the nearest f32".into());
    let most = ctx.by(1024u32, 65536);
    let mut mant: Vec<u32> = (0..most).map(|i| (i * (0x7FFFFF / most) + (i >> 3)) & 0x7fffff).collect();
    mant.extend_from_slice(&[1, 2, 3, 0x3fffff, 0x400000, 0x400001, 0x7ffffe, 0x7fffff, 0x555555, 0x2aaaaa, 0x19999a, 0x4ccccd, 0x100000, 0x123456, 0x7a1200]);
    let f = fonts();
    let font = f.fonts[0].clone();
    let check = |v: &f32| -> Outcome {
        let v = *v;
        let pv = v.abs();
        let seg = ShapedSegment::naive_shape("a", font.clone()).ok().expect("shape");
        let mut doc = victor::pdf::Document::new();
        let page_size = if pv < 1e30 && pv > 1e-30 { (pv, 5.) } else { (5., 5.) };
        {
            let mut p = doc.add_page(Size::new(page_size.0, page_size.1));
            p.paint_rectangle(&rect(v, 2., 3., 4.));
            p.paint_rectangle(&rect(2., v, 3., 4.));
            p.paint_rectangle(&rect(2., 3., v, 4.));
            p.paint_rectangle(&rect(2., 3., 4., v));
            p.set_color(&RGBA(v, 0.25, 0.5, 1.)); p.paint_rectangle(&rect(0., 0., 1., 1.));
            p.set_color(&RGBA(0.25, v, 0.5, 1.)); p.paint_rectangle(&rect(0., 0., 1., 1.));
            p.set_color(&RGBA(0.25, 0.5, v, 1.)); p.paint_rectangle(&rect(0., 0., 1., 1.));
            p.set_color(&RGBA(0.25, 0.5, 0.75, v)); p.paint_rectangle(&rect(0., 0., 1., 1.));
            if v != 0. { let _ = p.show_text(&TextRun { segment: &seg, font_size: Length::new(v), origin: point(1., 2.) }); }
            let _ = p.show_text(&TextRun { segment: &seg, font_size: Length::new(7.), origin: point(v, 2.) });
            let _ = p.show_text(&TextRun { segment: &seg, font_size: Length::new(7.), origin: point(1., v) });
        }
        let bytes = doc.write_to_pdf_bytes();
        let r = (|| -> R<()> {
            let pdf = Pdf::scan(&bytes)?;
            let pages = pdf.pages()?;
            let g = pdf.paint_page(&pages[0])?;
            let want_rects = [[v, 2., 3., 4.], [2., v, 3., 4.], [2., 3., v, 4.], [2., 3., 4., v]];
            for i in 0..4 { match &g[i] { Paint::Rect { raw, .. } if raw == &want_rects[i] => {} o => return Err(format!("rectangle {:?} became {:?}", want_rects[i], o)) } }
            let want_cols = [[v, 0.25, 0.5], [0.25, v, 0.5], [0.25, 0.5, v]];
            for i in 0..3 { match &g[4 + i] { Paint::Rect { rgb, .. } if (0..3).all(|k| rgb[k] as f32 == want_cols[i][k]) => {} o => return Err(format!("colour {:?} became {:?}", want_cols[i], o)) } }
            let mut k = 8;
            if v != 0. {
                match &g[k] { Paint::Text { raw, .. } if raw[0] == v => {} o => return Err(format!("font size {:?} became {:?}", v, o)) }
                k += 1;
            }
            match &g[k] { Paint::Text { raw, .. } if raw == &[7., v, 2.] => {} o => return Err(format!("text origin {:?} became {:?}", v, o)) }
            match &g[k + 1] { Paint::Text { raw, .. } if raw == &[7., 1., v] => {} o => return Err(format!("text origin {:?} became {:?}", v, o)) }
            check_media(&pages[0], page_size)?;
            Ok(())
        })();
        match r { Ok(()) => Ok(v.to_bits() as u64), Err(e) => fail("number", e) }
    };
    ctx.section("float grid", |ch| {
        let e = ch.choose(255) as u32;
        let s = ch.choose(2) as u32;
        let m = *ch.pick(&mant);
        Some(f32::from_bits(s << 31 | e << 23 | m))
    }, |v| format!("{:e} (bits {:08x})", v, v.to_bits()), check);
    let n = ctx.by(200000usize, 4000000);
    ctx.section("decimals", |ch| {
        let k = ch.choose(n) as f32;
        let d = *ch.pick(&[1f32, 10., 100., 1000., 64.]);
        Some(k / d)
    }, |v| format!("{} (bits {:08x})", v, v.to_bits()), check);
}
