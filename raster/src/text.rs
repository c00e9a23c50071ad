//! C22: the text of a generated document can be read back from its pages.
use crate::engine::*;
use crate::font::*;
use lester::PdfDocument;
use std::sync::Arc;
use victor::fonts::Font;
use victor::pdf::Document;
use victor::primitives::*;
use victor::text::ShapedSegment;

/// A font that maps these characters, in increasing order, to glyphs 1, 2, ...
fn font_for(chars: &[char]) -> Arc<Font> {
    let mut s = Spec::simple("Text");
    s.n_glyphs = chars.len() as u16 + 1;
    s.n_metrics = 1;
    s.widths = vec![600];
    let mut groups: Vec<(u32, u32, u32)> = Vec::new();
    for (i, c) in chars.iter().enumerate() {
        let c = *c as u32;
        match groups.last_mut() { Some(g) if g.1 + 1 == c => g.1 = c, _ => groups.push((c, c, i as u32 + 1)) }
    }
    s.cmaps = vec![(3, 10, cmap12(&groups))];
    s.font()
}


/// What poppler makes of a character: spaces and control characters that are spaces become a space, it marks
/// right-to-left text with embedding controls, and noncharacters cannot be told from each other.
fn normal(t: &str) -> String {
    t.chars().filter(|c| !('\u{202A}'..='\u{202E}').contains(c)).map(|c| match c {
        '\0' => ' ',
        c if c.is_whitespace() => ' ',
        c if (c as u32) & 0xFFFE == 0xFFFE || ('\u{FDD0}'..='\u{FDEF}').contains(&c) => '\u{FFFD}',
        c => c,
    }).collect()
}

fn words(t: &str) -> Vec<String> { t.split_whitespace().map(|w| w.to_string()).collect() }

/// The text of every page.
fn texts(bytes: &[u8]) -> Result<Vec<String>, Fail> {
    let pdf = match PdfDocument::from_bytes(bytes) { Ok(d) => d, Err(e) => return fail("load", format!("{:?}", e)) };
    let mut v = Vec::new();
    for p in pdf.pages() {
        let t = p.text();
        match t.to_str() { Ok(t) => v.push(t.to_string()), Err(e) => return fail("encoding", format!("text that is not UTF-8: {:?}", e)) }
    }
    Ok(v)
}

fn show(p: &mut victor::pdf::Page, text: &str, font: &Arc<Font>, size: f32, x: f32, y: f32) -> Result<(), Fail> {
    let seg = match ShapedSegment::naive_shape(text, font.clone()) { Ok(s) => s, Err(e) => return fail("shape", format!("{:?}", e)) };
    p.show_text(&TextRun { segment: &seg, font_size: Length::new(size), origin: point(x, y) }).map(|_| ()).or_else(|e| fail("show", format!("{:?}", e)))
}

/// One page for each character, between two letters, all with the same font.
fn one_by_one(chars: &[char], font: &Arc<Font>, same: impl Fn(char, char) -> bool) -> Outcome {
    let mut d = Document::new();
    for c in chars {
        let mut p = d.add_page(Size::new(100., 40.));
        show(&mut p, &format!("aaaa{}aaaa", c), font, 12., 10., 20.)?;
    }
    let t = texts(&d.write_to_pdf_bytes())?;
    if t.len() != chars.len() { return fail("pages", format!("{} pages", t.len())) }
    for (c, t) in chars.iter().zip(&t) {
        let got: Vec<char> = normal(t).chars().collect();
        let want: Vec<char> = normal(&format!("aaaa{}aaaa", c)).chars().collect();
        if got.len() != want.len() || !got.iter().zip(&want).all(|(g, w)| g == w || same(*g, *w)) { return fail("character", format!("U+{:04X} between two letters is read back as {:?}", *c as u32, t)) }
    }
    Ok(fp(&t))
}

pub fn c22(ctx: &mut Ctx) {
    // Every character there is.
    ctx.section("characters", |ch| Some(ch.choose(0x110000 / 64)), |b| format!("U+{:X}..", b * 64), |&b| {
        let mine: Vec<char> = (b as u32 * 64..b as u32 * 64 + 64).filter_map(std::char::from_u32).collect();
        if mine.is_empty() { return Ok(0) }
        let mut chars = mine.clone();
        if !chars.contains(&'a') { chars.push('a'); chars.sort(); }
        one_by_one(&mine, &font_for(&chars), |_, _| false)
    });
    let info = vera();
    let mapped: Vec<char> = info.cmap.keys().filter_map(|c| std::char::from_u32(*c as u32)).collect();
    let chunks = (mapped.len() + 15) / 16;
    ctx.section("characters of the built-in font", |ch| Some(ch.choose(chunks)), |k| format!("chunk {}", k), |&k| {
        let font = (*victor::fonts::BITSTREAM_VERA_SANS).clone();
        let c: Vec<char> = mapped[16 * k..mapped.len().min(16 * k + 16)].to_vec();
        // (some characters share a glyph)
        one_by_one(&c, &font, |g, w| mapped.iter().any(|c| info.gid(*c) == info.gid(w) && normal(&c.to_string()) == g.to_string()))
    });
    // Fonts with any number of characters, each of which must be found.
    let most = ctx.by(330usize, 1200);
    ctx.section("number of mapped characters", |ch| Some((1 + ch.choose(most), *ch.pick(&[0x4E00u32, 0xFFC0, 0x1F300]), ch.flag())), |c| format!("{:?}", c), |&(n, from, holes)| {
        let chars: Vec<char> = (from..).filter(|c| !holes || c % 3 != 0).filter_map(std::char::from_u32).filter(|c| normal(&c.to_string()) == c.to_string()).take(n).collect();
        let font = font_for(&chars);
        let mut d = Document::new();
        for l in chars.chunks(40) { show(&mut d.add_page(Size::new(600., 40.)), &l.iter().collect::<String>(), &font, 12., 10., 20.)?; }
        let t = texts(&d.write_to_pdf_bytes())?;
        for (l, t) in chars.chunks(40).zip(&t) { if *t != l.iter().collect::<String>() { return fail("characters", format!("{:?} is read back as {:?}", l, t)) } }
        Ok(fp(&t))
    });
    // Runs of text in several fonts and sizes on several pages, one on each line, drawn in any order.
    const WORDS: &[&str] = &["abba", "cb", "bab acca bb", "\u{e9}\u{1F600}"];
    let fonts: Vec<Arc<Font>> = vec![font_for(&[' ', 'a', 'b', 'c', '\u{e9}', '\u{1F600}']), font_for(&[' ', '!', '"', 'a', 'b', 'c', 'd', '\u{e9}', '\u{ea}', '\u{1F600}']), (*victor::fonts::BITSTREAM_VERA_SANS).clone()];
    let most = ctx.by(4usize, 5);
    ctx.section("runs", |ch| {
        let n = 1 + ch.choose(most);
        let mut left: Vec<usize> = (0..n).collect();
        let mut v = Vec::new();
        for _ in 0..n {
            let line = left.remove(ch.choose(left.len()));
            let f = ch.choose(if n > 3 { 2 } else { 3 });
            let w = ch.choose(if f == 2 { 3 } else if n > 3 { 2 } else { 4 });
            v.push((line, f, if n > 3 && f == 1 { 3 - w } else { w }, ch.flag()));
        }
        Some(v)
    }, |v| format!("(line, font, words, on a new page): {:?}", v), |v| {
        let mut d = Document::new();
        let mut want: Vec<Vec<(usize, &str)>> = Vec::new();
        for part in split(v) {
            let mut p = d.add_page(Size::new(200., 200.));
            want.push(Vec::new());
            for &(line, f, w, _) in part {
                show(&mut p, WORDS[w], &fonts[f], 9. + f as f32, 10., 20. + 30. * line as f32)?;
                want.last_mut().unwrap().push((line, WORDS[w]));
            }
        }
        let t = texts(&d.write_to_pdf_bytes())?;
        for w in &mut want { w.sort() }
        let want: Vec<Vec<&str>> = want.iter().map(|w| w.iter().map(|l| l.1).collect()).collect();
        let got: Vec<Vec<&str>> = t.iter().map(|t| t.lines().filter(|l| !l.is_empty()).collect()).collect();
        if got != want { return fail("runs", format!("{:?} is read back as {:?}", want, got)) }
        Ok(fp(&t))
    });
    // Rendered documents: the words in document order.
    let len = ctx.by(6usize, 7);
    ctx.section("documents", |ch| {
        let n = 1 + ch.choose(len);
        Some((0..n).map(|_| *ch.pick(&["abba", " ", "cdc efef ", "<i>", "</i>", "<p>", "<b style=color:red>", "<u style=color:rgba(0,0,0,0)>"])).collect::<String>())
    }, |h| h.clone(), |h| {
        let d = victor::dom::Document::parse_html(format!("<!doctype html><style>p{{display:block}}style,head{{display:none}}</style><p>{}", h).as_bytes());
        let t = texts(&d.to_pdf_bytes())?;
        let mut text = String::new();
        let mut rest = &h[..];
        while let Some(c) = rest.chars().next() {
            if c == '<' { if rest.starts_with("<p>") { text.push(' ') } rest = &rest[rest.find('>').unwrap() + 1..] } else { text.push(c); rest = &rest[1..] }
        }
        let want = words(&text);
        let got = words(&t.concat());
        if got != want { return fail("words", format!("{:?} is read back as {:?}", want, got)) }
        Ok(fp(&got))
    });
    // Plain text over lines and pages.
    let len = ctx.by(7usize, 9);
    ctx.section("plain text", |ch| {
        let n = ch.choose(len + 1);
        let s: String = (0..n).map(|_| *ch.pick(&["abba ", "ccc ", "\n", "defg "])).collect();
        Some((s, *ch.pick(&[16f64, 25., 60.]), ch.flag()))
    }, |c| format!("{:?}", c), |(s, w, justify)| {
        use victor::text_plain::*;
        let f = (*victor::fonts::BITSTREAM_VERA_SANS).clone();
        let style = Style { page_size: Size::new(*w as f32 + 6., 26.), page_margin: Length::new(5.), font: f, font_size: Length::new(10.), line_height: 1.5, justify: *justify };
        let d = match layout(s, &style) { Ok(d) => d, Err(e) => return fail("layout", format!("{:?}", e)) };
        let t = texts(&d.write_to_pdf_bytes())?;
        let mut got: Vec<String> = t.iter().flat_map(|t| words(t)).collect();
        let mut want = words(s);
        // (words that are far from each other may be taken for columns)
        if *justify { got.sort(); want.sort() }
        if got != want { return fail("words", format!("{:?} is read back as {:?}", words(s), t)) }
        Ok(fp(&t))
    });
    ctx.assumptions.push("poppler extracts the text; white space, control characters that are spaces, directional embedding marks and noncharacters are compared after normalisation".into());
}

/// Parts that start at runs on a new page.
fn split(v: &[(usize, usize, usize, bool)]) -> Vec<&[(usize, usize, usize, bool)]> {
    let mut r = Vec::new();
    let mut from = 0;
    for i in 1..v.len() { if v[i].3 { r.push(&v[from..i]); from = i } }
    r.push(&v[from..]);
    r
}
