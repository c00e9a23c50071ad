//! Rendering helpers and the DOM checks C09 (HTML) and C10 (XML).
use crate::engine::*;
use crate::font::vera;
use crate::pdf::*;
use html5ever::rcdom::{Handle, NodeData, RcDom};
use html5ever::tendril::TendrilSink;

pub fn paint_bytes(pdf: &[u8]) -> R<Vec<Paint>> {
    let p = Pdf::scan(pdf)?;
    let mut pages = p.paint()?;
    if pages.len() != 1 { return Err(format!("{} pages", pages.len())) }
    Ok(pages.pop().unwrap())
}
pub fn render(html: &[u8]) -> R<Vec<Paint>> { paint_bytes(&victor::dom::Document::parse_html(html).to_pdf_bytes()) }
pub fn render_xml(xml: &[u8]) -> R<Vec<Paint>> {
    match victor::dom::Document::parse_xml(xml) { Ok(d) => paint_bytes(&d.to_pdf_bytes()), Err(e) => Err(format!("XML error: {}", e)) }
}

/// An element (tag index, attribute code) or text, at a depth: a tree in pre-order.
#[derive(Clone, Debug, PartialEq, Hash)]
pub enum Item { El(usize, u32, usize, u32), Text(usize, String) } // depth, colour id, attr code, margin: a's value plus 4 if the element is :empty
fn push_text(v: &mut Vec<Item>, d: usize, s: &str) {
    let s: &str = &s.replace(' ', ""); // white space is only observed through :empty
    if s.is_empty() { return }
    if let Some(Item::Text(pd, t)) = v.last_mut() { if *pd == d { t.push_str(s); return } }
    v.push(Item::Text(d, s.to_string()));
}

pub fn rgb_id(rgb: &[f64; 3]) -> u32 { let c = |x: f64| (x * 255.).round() as u32; c(rgb[0]) << 16 | c(rgb[1]) << 8 | c(rgb[2]) }

/// Tags known to the decoder; colour = 1 + index in the red channel.
pub const TAGS: &[&str] = &["html", "head", "body", "a", "b", "p", "div", "table", "tbody", "tr", "td", "select", "option", "form", "button", "nobr",
    "i", "h1", "ul", "li", "svg", "desc", "math", "mi", "frameset", "frame", "title", "caption", "colgroup", "col", "br", "hr", "input", "applet", "font", "h2",
    "optgroup", "dd", "dt", "ruby", "rp", "rt", "textarea", "noscript", "script", "foreignObject", "annotation-xml", "mtext", "link", "meta", "img", "thead", "th", "plaintext", "iframe", "center", "u", "x"];

fn sheet() -> String {
    let mut s = String::from("*{display:block;margin:0;padding:0;padding-left:1px;color:#000;background:#fff}style,template{display:none}[a=\"1\"]{margin-right:1px}[a=\"2\"]{margin-right:2px}:empty{margin-right:4px}[a=\"1\"]:empty{margin-right:5px}[a=\"2\"]:empty{margin-right:6px}");
    for (i, t) in TAGS.iter().enumerate() {
        s.push_str(&format!("{}{{background:#{:02x}0001}}", t, i + 1));
        if i < 3 { s.push_str(&format!("{}[b]{{background:#{:02x}0002}}", t, i + 1)) }
    }
    s
}

/// The place of the style sheet in a document.
const SHEET: &str = "/*SHEET*/";
fn with_sheet(html: &[u8], sheet: &str) -> Vec<u8> {
    let p = html.windows(SHEET.len()).position(|w| w == SHEET.as_bytes()).expect("place for the sheet");
    let mut v = html[..p].to_vec();
    v.extend_from_slice(sheet.as_bytes());
    v.extend_from_slice(&html[p + SHEET.len()..]);
    v
}

/// Shows what each element's parent and previous sibling are, as selectors see them.
fn relations_sheet() -> String {
    let mut s = String::from("*{display:block;margin:0;padding:0;padding-left:1px;color:#fff;background:#ff0001}:root{background:#fe0001}style,template{display:none}");
    for (i, t) in TAGS.iter().enumerate() { s.push_str(&format!("{t}>*{{background:#{:02x}0001}}{t}+*{{margin-right:{}px}}", i + 1, i + 1, t = t)) }
    s
}

/// Decode the painted page back into a tree.
fn decode(p: &[Paint]) -> R<Vec<Item>> {
    let mut out = Vec::new();
    let mut widths: Vec<f64> = Vec::new(); // content widths by depth
    for it in p {
        match it {
            Paint::Rect { x, w, rgb, .. } => {
                let d = x.round() as usize;
                if (x - d as f64).abs() > 1e-3 { return Err(format!("rectangle at x={}", x)) }
                if d > widths.len() { return Err(format!("element at depth {} without parent", d)) }
                widths.truncate(d);
                let avail = if d == 0 { 600. } else { widths[d - 1] };
                let m = avail - w;
                let mr = m.round();
                if (m - mr).abs() > 1e-3 || mr < 0. || mr > 99. { return Err(format!("element width {} in {}", w, avail)) }
                widths.push(w - 1.);
                let c = rgb_id(rgb);
                out.push(Item::El(d, c >> 16, (c & 0xff) as usize, mr as u32));
            }
            Paint::Text { x, glyphs, .. } => {
                let d = x.round() as usize;
                if (x - d as f64).abs() > 1e-3 {
                    // continuation of the previous run on the same line
                    if let Some(Item::Text(pd, t)) = out.last_mut() { let _ = pd; t.push_str(&vera().decode(glyphs).replace(' ', "")); continue }
                    return Err(format!("text at x={}", x))
                }
                push_text(&mut out, d, &vera().decode(glyphs));
            }
        }
    }
    Ok(out)
}

fn expect_tree(h: &Handle, depth: usize, out: &mut Vec<Item>) {
    match &h.data {
        NodeData::Document => for c in h.children.borrow().iter() { expect_tree(c, depth, out) },
        NodeData::Element { name, attrs, .. } => {
            let local: &str = &name.local;
            if local == "style" { return }
            let html = &*name.ns == "http://www.w3.org/1999/xhtml";
            let id = TAGS.iter().position(|t| if html { t.to_ascii_lowercase() == local } else { *t == local }).map(|i| i as u32 + 1);
            let get = |n: &str| attrs.borrow().iter().find(|a| &*a.name.local == n && a.name.ns.is_empty()).map(|a| a.value.to_string());
            let m = match get("a").as_deref() { Some("1") => 1, Some("2") => 2, _ => 0 };
            let kids = h.children.borrow();
            let m = m + if kids.iter().any(|k| match &k.data { NodeData::Element { .. } => true, NodeData::Text { contents } => !contents.borrow().is_empty(), _ => false }) { 0 } else { 4 };
            let attr = if id.map_or(false, |i| i <= 3) && get("b").is_some() { 2 } else { 1 };
            out.push(match id { Some(i) => Item::El(depth, i, attr, m), None => Item::El(depth, 255, 255, m) });
            for c in h.children.borrow().iter() { expect_tree(c, depth + 1, out) }
        }
        NodeData::Text { contents } => {
            let s: String = contents.borrow().chars().filter(|c| !c.is_ascii_whitespace()).map(|c| if vera().gid(c) == 0 { char::REPLACEMENT_CHARACTER } else { c }).collect();
            push_text(out, depth, &s);
        }
        _ => {}
    }
}

fn links(h: &Handle, out: &mut Vec<(String, String)>) {
    if let NodeData::Element { name, attrs, .. } = &h.data {
        if &*name.local == "link" && &*name.ns == "http://www.w3.org/1999/xhtml" {
            let get = |n: &str| attrs.borrow().iter().find(|a| &*a.name.local == n && a.name.ns.is_empty()).map(|a| a.value.to_string());
            if let (Some(r), Some(h)) = (get("rel"), get("href")) { out.push((r, h)) }
        }
    }
    for c in h.children.borrow().iter() { links(c, out) }
}

fn tag_id(h: &Handle) -> u32 {
    if let NodeData::Element { name, .. } = &h.data {
        let html = &*name.ns == XHTML;
        TAGS.iter().position(|t| if html { t.to_ascii_lowercase() == *name.local } else { **t == *name.local }).map_or(0, |i| i as u32 + 1)
    } else { 0 }
}
fn expect_relations(h: &Handle, depth: usize, parent: Option<u32>, out: &mut Vec<Item>) {
    let mut prev = 0;
    for c in h.children.borrow().iter() {
        if let NodeData::Element { name, .. } = &c.data {
            if &*name.local != "style" {
                out.push(Item::El(depth, match parent { None => 254, Some(0) => 255, Some(i) => i }, 1, prev));
                expect_relations(c, depth + 1, Some(tag_id(c)), out);
            }
            prev = tag_id(c);
        }
    }
}

pub fn rcdom(html: &[u8]) -> RcDom { html5ever::parse_document(RcDom::default(), Default::default()).from_utf8().one(html) }

fn check_html(template: &[u8]) -> Outcome { check_html_with(template, true) }
fn check_html_with(template: &[u8], relations: bool) -> Outcome {
    let html = &with_sheet(template, &sheet())[..];
    let dom = rcdom(html);
    let mut want = Vec::new();
    expect_tree(&dom.document, 0, &mut want);
    let doc = victor::dom::Document::parse_html(html);
    let mut wl = Vec::new();
    links(&dom.document, &mut wl);
    let gl: Vec<(String, String)> = doc.html_link_elements().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    if gl != wl { return fail("links", format!("link elements {:?}, expected {:?}", gl, wl)) }
    let got = match paint_bytes(&doc.to_pdf_bytes()).and_then(|p| decode(&p)) { Ok(g) => g, Err(e) => return fail("decode", format!("{}; expected tree {:?}", e, want)) };
    if got != want { return fail("tree", format!("rendered tree {:?}\nreference tree {:?}", got, want)) }
    let h = fp(&want);
    if !relations { return Ok(h) }
    let html = with_sheet(template, &relations_sheet());
    let mut want = Vec::new();
    expect_relations(&rcdom(&html).document, 0, None, &mut want);
    let mut got = match render(&html).and_then(|p| decode(&p)) { Ok(g) => g, Err(e) => return fail("decode", format!("{}; expected relations {:?}", e, want)) };
    got.retain(|i| if let Item::El(..) = i { true } else { false });
    if got != want { return fail("relations", format!("parents and previous siblings {:?}\nexpected {:?}", got, want)) }
    Ok(h)
}

pub fn c09(ctx: &mut Ctx) {
    let pre = format!("<!DOCTYPE html><style>{}</style>", SHEET);
    let show = |v: &Vec<&str>| v.concat();
    let gen = |ch: &mut Chooser, toks: &[&'static str], max: usize| { let n = 1 + ch.choose(max); Some((0..n).map(|_| *ch.pick(toks)).collect::<Vec<&str>>()) };
    let check = |v: &Vec<&str>| check_html((pre.clone() + &v.concat()).as_bytes());

    // 1. Everything, short.
    let wide: Vec<&'static str> = vec!["x", "<a>", "</a>", "<b>", "</b>", "<p>", "</p>", "<div>", "</div>", "<table>", "</table>", "<tr>", "<td>", "</td>", "<select>", "</select>", "<option>", "<form>", "</form>", "<button>", "</button>", "<nobr>",
        "<h1>", "</h1>", "<h2>", "<ul>", "<li>", "</ul>", "<svg>", "</svg>", "<desc>", "<math>", "<mi>", "<frameset>", "<frame>", "</frameset>", "<title>y</title>", "<caption>", "<col>", "<br>", "</br>", "<hr>", "<input>", "<applet>", "</applet>", "<font>", "<font color=c>",
        "<html a=1>", "<html a=2 b=1>", "<body a=1>", "<body b=1 a=2>", "<head>", "</head>", "</body>", "</html>", "<!--c-->", "<dd>", "<dt>", "<ruby>", "<rt>", "<textarea>z", "</textarea>", "<script>q</script>", "<foreignObject>", "<annotation-xml encoding=text/html>", "<mtext>",
        "<link rel=r href=h>", "<link rel=s>", "<meta>", "<image>", "<th>", "<thead>", "<iframe>w</iframe>", "<center>", "<x a=1>", "<x/>"];
    ctx.section("all tokens", |ch| gen(ch, &wide, ctx_depth(2, 3, ctx_tier())), show, check);
    // 2. Formatting elements, blocks and tables: adoption agency and foster parenting.
    let aaa: Vec<&'static str> = vec!["x", "<a>", "</a>", "<b>", "</b>", "<p>", "</p>", "<div>", "</div>", "<table>", "<td>", "</table>"];
    let d = ctx.by(5, 6);
    ctx.section("formatting and tables", |ch| gen(ch, &aaa, d), show, check);
    // 3. Deep adoption-agency shapes over few tokens.
    let deep: Vec<&'static str> = vec!["x", "<a>", "</a>", "<p>", "<b>", "</p>"];
    let d = ctx.by(7, 8);
    ctx.section("deep misnesting", |ch| gen(ch, &deep, d), show, |v| check_html_with((pre.clone() + &v.concat()).as_bytes(), v.len() < 7));
    // 4. Head and body attribute merging, frames, before-html modes (style sheet placed last).
    let early: Vec<&'static str> = vec!["x", "<!--c-->", "<html a=1>", "<html a=2 b=1>", "<head a=1>", "</head>", "<body a=1>", "<body b=1 a=2>", "</body>", "</html>", "<p>", "</p>", "<link rel=r href=1>", "<link href=2 rel=t>", "<title>y</title>", "<div>", "<svg>", "</svg>", "<meta>", "<br>"];
    let d = ctx.by(3, 4);
    let post = format!("<style>{}</style>", SHEET);
    let pres = ["", "<!DOCTYPE html>", "<!DOCTYPE x>", "<!--d-->"];
    ctx.section("before head", |ch| { let p = *ch.pick(&pres); let mut v = gen(ch, &early, d)?; v.insert(0, p); Some(v) }, show,
        |v: &Vec<&str>| { let h = v.concat() + "</svg></svg></svg></svg></svg>" + &post; check_html(h.as_bytes()) });
    // 5. Tables with text, selects and forms.
    let tab: Vec<&'static str> = vec!["x", "<table>", "</table>", "<tr>", "<td>", "<caption>", "<col>", "<b>", "</b>", "<select>", "<option>", "<p>", "<form>", "<input>", "<style>#q{color:red}</style>"];
    let d = ctx.by(4, 5);
    ctx.section("table surgery", |ch| gen(ch, &tab, d), show, check);
    // 6. Undecodable bytes and entities in text and attribute values.
    let bytes: Vec<Vec<u8>> = vec![b"x".to_vec(), vec![0xff], vec![0xc3], vec![0xa9], b"&amp;".to_vec(), b"&lt;p>".to_vec(), vec![0xf0, 0x9f, 0x98], b"<p>".to_vec(), b"<a a=1>".to_vec(), b"<a a=1 a=2>".to_vec(), b"<a a='1'".to_vec(), b"</".to_vec(), b"\0".to_vec(), b"<!".to_vec(), b"<?".to_vec()];
    let d = ctx.by(4, 5);
    ctx.section("bytes", |ch| { let n = 1 + ch.choose(d); let mut v = pre.clone().into_bytes(); let st = v.len(); for _ in 0..n { let b: &Vec<u8> = ch.pick(&bytes[..]); v.extend_from_slice(b) } Some((v, st)) },
        |(v, st)| String::from_utf8_lossy(&v[*st..]).into_owned(), |(v, _)| check_html(v));
    // 7. White space, which the tree construction rules treat apart from other text; observed through :empty.
    let space: Vec<&'static str> = vec![" ", "x", "\n", "<!--c-->", "<p>", "</p>", "<b>", "</b>", "<table>", "<tr>", "<td>", "</table>", "<pre>", "<select>", "<textarea>", "&#32;", "<svg>", "<col>", "<div></div>", "</body>", "</html>", "<a a=1>"];
    let d = ctx.by(3, 4);
    ctx.section("white space", |ch| gen(ch, &space, d), show, check);
    ctx.section("white space first", |ch| gen(ch, &space, d), show, |v: &Vec<&str>| { let h = v.concat() + "</select></textarea></table></svg></svg></svg>" + &post; check_html(h.as_bytes()) });
    // 8. Long documents: what stands at, or across, a power of two of the input.
    let limits: &[usize] = if ctx.quick() { &[1024, 4096, 8192, 16384, 32768, 65536, 131072] } else { &[256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072, 262144, 524288, 1 << 20] };
    let pieces: &[&[u8]] = &["é".as_bytes(), "€".as_bytes(), "😀".as_bytes(), b"&eacute;", b"&amp;x", b"<b a=1>", b"<i a='2' >", b"</b>", b"<!--c-->", b"\r\nx", b"\xe2\x82x", b"<p>"];
    ctx.section("long documents", |ch| {
        let at = *ch.pick(limits);
        let p = *ch.pick(pieces);
        let j = ch.choose((p.len() + 1).min(9));
        let kind = ch.choose(4);
        if kind == 3 && at > 65536 || kind == 1 && at > 300000 { return None }
        let mut v = b"<!DOCTYPE html><body><b>".to_vec();
        let (open, unit, close): (&str, &str, &str) = [("<!--", "x", "-->"), ("", "x", ""), ("<p t='", "x", "'>"), ("", "<u></u>", "")][kind];
        v.extend_from_slice(open.as_bytes());
        let room = at - j - close.len();
        while v.len() + unit.len() <= room { v.extend_from_slice(unit.as_bytes()) }
        while v.len() < room { v.push(b'y') }
        v.extend_from_slice(close.as_bytes());
        v.extend_from_slice(p);
        v.extend_from_slice("z</b><p>é".as_bytes());
        v.extend_from_slice(post.as_bytes());
        Some((v, at, j, kind, p))
    }, |(v, at, j, kind, p)| format!("{} bytes, {:?} at {} - {}, filler {}", v.len(), String::from_utf8_lossy(p), at, j, kind), |(v, _, _, kind, _)| check_html_with(v, *kind != 3));
    ctx.assumptions.push("html5ever's tokenizer/tree builder is trusted; the reference tree is its RcDom sink; comments and doctypes are not observable in the rendering, and white space only through :empty; template elements are not in the alphabet".into());
}
fn ctx_tier() -> bool { std::env::args().any(|a| a == "thorough") }
fn ctx_depth(q: usize, t: usize, thorough: bool) -> usize { if thorough { t } else { q } }

// ---------------------------------------------------------------- C10: XML
/// Independent miniature XML 1.0 + namespaces reader: the expected tree, or Err for a document that is not well-formed.
struct Xml<'a> { s: &'a str, i: usize, ns: Vec<Vec<(String, String)>>, out: Vec<Item>, nonempty: bool }
type X<T> = Result<T, &'static str>;
impl<'a> Xml<'a> {
    fn rest(&self) -> &'a str { &self.s[self.i..] }
    fn eat(&mut self, t: &str) -> bool { if self.rest().starts_with(t) { self.i += t.len(); true } else { false } }
    fn until(&mut self, t: &str) -> X<&'a str> { let p = self.rest().find(t).ok_or("unterminated")?; let r = &self.rest()[..p]; self.i += p + t.len(); Ok(r) }
    fn ws(&mut self) -> bool { let n = self.rest().len() - self.rest().trim_start_matches(&[' ', '\t', '\n', '\r'][..]).len(); self.i += n; n > 0 }
    fn name(&mut self) -> X<&'a str> {
        let n = self.rest().find(|c: char| !(c.is_ascii_alphanumeric() || c == ':' || c == '_' || c == '-')).unwrap_or(self.rest().len());
        let r = &self.rest()[..n];
        if r.is_empty() || !(r.as_bytes()[0].is_ascii_alphabetic() || r.as_bytes()[0] == b'_') { return Err("name") }
        self.i += n;
        Ok(r)
    }
    fn lookup(&self, p: &str) -> X<String> {
        if p == "xml" { return Ok("xml-ns".into()) }
        for l in self.ns.iter().rev() { if let Some((_, u)) = l.iter().find(|(q, _)| q == p) { return Ok(u.clone()) } }
        if p.is_empty() { Ok(String::new()) } else { Err("undeclared prefix") }
    }
    fn qname(&self, n: &str, default: bool) -> X<(String, String)> {
        match n.find(':') {
            Some(p) => { let (a, b) = (&n[..p], &n[p + 1..]); if b.is_empty() || b.contains(':') { return Err("qname") } Ok((self.lookup(a)?, b.into())) }
            None => Ok((if default { self.lookup("")? } else { String::new() }, n.into())),
        }
    }
    fn reference(&mut self) -> X<char> {
        let r = self.until(";")?;
        Ok(match r {
            "amp" => '&', "lt" => '<', "gt" => '>', "quot" => '"', "apos" => '\'',
            _ => {
                let n = if let Some(h) = r.strip_prefix("#x") { u32::from_str_radix(h, 16).map_err(|_| "ref")? } else { r.strip_prefix('#').ok_or("entity")?.parse().map_err(|_| "ref")? };
                let c = std::char::from_u32(n).ok_or("ref")?;
                if (c as u32) < 0x20 && !matches!(c, '\t' | '\n' | '\r') { return Err("ref to control") }
                c
            }
        })
    }
    fn misc(&mut self) -> X<bool> {
        if self.eat("<!--") { let c = self.until("-->")?; if c.contains("--") || c.ends_with('-') { return Err("comment") } return Ok(true) }
        if self.eat("<?") { let c = self.until("?>")?; if c.is_empty() || c.eq_ignore_ascii_case("xml") || c.to_ascii_lowercase().starts_with("xml ") { return Err("pi") } return Ok(true) }
        Ok(self.ws())
    }
    fn element(&mut self, depth: usize) -> X<()> {
        let qn = self.name()?;
        let mut attrs: Vec<(&str, String)> = Vec::new();
        let mut decl = Vec::new();
        let empty = loop {
            let sp = self.ws();
            if self.eat("/>") { break true }
            if self.eat(">") { break false }
            if !sp { return Err("space between attributes") }
            let n = self.name()?;
            self.ws();
            if !self.eat("=") { return Err("=") }
            self.ws();
            let q = if self.eat("\"") { '"' } else if self.eat("'") { '\'' } else { return Err("quote") };
            let mut v = String::new();
            loop {
                let c = self.rest().chars().next().ok_or("unterminated value")?;
                self.i += c.len_utf8();
                if c == q { break }
                match c { '<' => return Err("< in value"), '&' => { let c = self.reference()?; v.push(c) } '\n' | '\t' => v.push(' '), c => v.push(c) }
            }
            if attrs.iter().any(|a| a.0 == n) { return Err("duplicate attribute") }
            if n == "xmlns" { decl.push((String::new(), v.clone())) } else if let Some(p) = n.strip_prefix("xmlns:") { if v.is_empty() || p.is_empty() || p.contains(':') { return Err("prefix binding") } decl.push((p.to_string(), v.clone())) }
            attrs.push((n, v));
        };
        self.ns.push(decl);
        let (ns, local) = self.qname(qn, true)?;

        let (mut m, mut any) = (0, false);
        for (n, v) in &attrs {
            if *n == "xmlns" || n.starts_with("xmlns:") { continue }
            let q = self.qname(n, false)?;

            if q.1 == "a" { any = true; if q.0.is_empty() { m = match &**v { "1" => 1, "2" => 2, _ => 0 } } }

        }
        if local == "style" && ns == XHTML {
            if empty { self.ns.pop(); self.nonempty = true; return Ok(()) }
            self.until("</style>")?;
            self.ns.pop();
            self.nonempty = true;
            return Ok(())
        }
        let id = XTAGS.iter().position(|t| *t == local).map_or(0, |i| i + 1);
        if id != 5 || ns.is_empty() { // our sheet hides every other style element (they are empty)
        self.out.push(if id == 0 { Item::El(depth, 255, 255, m) } else { Item::El(depth, id as u32, 1 + any as usize + 2 * ns.is_empty() as usize, m) });
        }
        let at = self.out.len();
        self.nonempty = false;
        if !empty { self.content(depth + 1)?; let n = self.name()?; if n != qn { return Err("mismatched end tag") } self.ws(); if !self.eat(">") { return Err(">") } }
        if !std::mem::replace(&mut self.nonempty, true) && at > 0 { if id != 5 || ns.is_empty() { if let Item::El(_, _, _, m) = &mut self.out[at - 1] { *m += 4 } } }
        self.ns.pop();
        Ok(())
    }
    fn content(&mut self, depth: usize) -> X<()> {
        loop {
            if self.eat("</") { return Ok(()) }
            if self.eat("<![CDATA[") { let t = self.until("]]>")?.to_string(); self.nonempty |= !t.is_empty(); push_text(&mut self.out, depth, &norm(&t)); continue }
            if self.rest().starts_with("<!--") || self.rest().starts_with("<?") { self.misc()?; continue }
            if self.eat("<") { self.element(depth)?; continue }
            if self.rest().starts_with("]]>") { return Err("]]> in text") }
            let c = self.rest().chars().next().ok_or("unterminated element")?;
            self.i += c.len_utf8();
            let c = if c == '&' { self.reference()? } else { c };
            if (c as u32) < 0x20 && !matches!(c, '\t' | '\n' | '\r') { return Err("control") }
            self.nonempty = true;
            push_text(&mut self.out, depth, &norm(&c.to_string()));
        }
    }
    fn document(&mut self) -> X<()> {
        if self.rest().starts_with("<?xml ") || self.rest().starts_with("<?xml?") {
            let d = self.until("?>")?;
            if d != "<?xml version=\"1.0\"" && d != "<?xml version=\"1.0\" encoding=\"UTF-8\"" { return Err("declaration") }
        }
        let mut doctype = false;
        loop {
            if self.rest().starts_with("<!DOCTYPE") { if doctype { return Err("two doctypes") } doctype = true; self.until(">")?; continue }
            if !self.misc()? { break }
        }
        if !self.eat("<") { return Err("no root") }
        self.element(0)?;
        while self.misc()? {}
        if self.rest().is_empty() { Ok(()) } else { Err("content after root") }
    }
}
const XHTML: &str = "http://www.w3.org/1999/xhtml";
const XTAGS: &[&str] = &["r", "a", "b", "A", "style"];
fn norm(s: &str) -> String { s.chars().filter(|c| !c.is_ascii_whitespace()).map(|c| if vera().gid(c) == 0 { char::REPLACEMENT_CHARACTER } else { c }).collect() }

fn xml_sheet() -> String {
    let mut s = String::from("*{display:block;margin:0;padding:0;padding-left:1px;color:#000;background:#ff00ff}[a=\"1\"]{margin-right:1px}[a=\"2\"]{margin-right:2px}:empty{margin-right:4px}[a=\"1\"]:empty{margin-right:5px}[a=\"2\"]:empty{margin-right:6px}");
    for (i, t) in XTAGS.iter().enumerate() {
        let r = i + 1;
        s.push_str(&format!("*|{t}{{background:#{r:02x}0001}}*|{t}[*|a]{{background:#{r:02x}0002}}|{t}{{background:#{r:02x}0003}}|{t}[*|a]{{background:#{r:02x}0004}}", t = t, r = r));
    }
    s.push_str("style{display:none}|style{display:block}");
    s
}

fn check_xml(xml: &str) -> Outcome {
    let mut x = Xml { s: xml, i: 0, ns: Vec::new(), out: Vec::new(), nonempty: false };
    let want = x.document();
    let got = victor::dom::Document::parse_xml(xml.as_bytes());
    match (want, got) {
        (Err(_), Err(_)) => Ok(1),
        (Err(e), Ok(_)) => fail("accepted", format!("a document that is not well-formed ({}) gave a tree", e)),
        (Ok(()), Err(e)) => fail("rejected", format!("well-formed document rejected: {}", e)),
        (Ok(()), Ok(d)) => {
            let got = match paint_bytes(&d.to_pdf_bytes()).and_then(|p| decode(&p)) { Ok(g) => g, Err(e) => return fail("decode", format!("{}; expected {:?}", e, x.out)) };
            let mut g = Vec::new();
            for i in got { match i { Item::Text(d, t) => push_text(&mut g, d, &t.replace(' ', "")), i => g.push(i) } }
            if g != x.out { return fail("tree", format!("rendered tree {:?}\nreference tree {:?}", g, x.out)) }
            Ok(fp(&g))
        }
    }
}

pub fn c10(ctx: &mut Ctx) {
    let style = format!("<style xmlns=\"{}\"><![CDATA[{}]]></style>", XHTML, xml_sheet());
    let root = format!("<r>{}", style);
    let check = |v: &Vec<&str>| check_xml(&v.concat().replace("<r>", &root));
    let show = |v: &Vec<&str>| v.concat();
    let content: Vec<&'static str> = vec!["x", "<a>", "</a>", "<b a='1'>", "</b>", "<a/>", "<![CDATA[y]]>", "<!--c-->", "<?p i?>", "&amp;", "&#x41;", "<a xmlns='u'>", "<n:a>", "</n:a>", "<a xmlns:n='v' n:a='1' a=\"2\">", "<A/>", "<b a='1' a='2'/>", "<style/>"];
    let d = ctx.by(4, 5);
    ctx.section("content", |ch| { let n = ch.choose(d + 1); let mut v = vec!["<r>"]; for _ in 0..n { v.push(*ch.pick(&content)) } v.push("</r>"); Some(v) }, show, check);
    let whole: Vec<&'static str> = vec!["<?xml version=\"1.0\"?>", "<r>", "</r>", "<!DOCTYPE r>", "<!--c-->", "<?p i?>", "\n", "x", "<a/>", "<![CDATA[y]]>", "&amp;", "<a>", "</a>"];
    let d = ctx.by(5, 6);
    ctx.section("whole documents", |ch| { let n = ch.choose(d + 1); let mut v = Vec::new(); for _ in 0..n { v.push(*ch.pick(&whole)) } Some(v) }, show,
        |v| { if v.iter().filter(|t| **t == "<r>").count() != 1 { return check_xml(&v.concat()).or_else(|f| if f.key == "decode" || f.key == "tree" { Ok(2) } else { Err(f) }) } check(v) });
    let frag: Vec<&'static str> = vec!["<", ">", "/", "a", " ", "=", "'", "1", "&", ";", "amp", "#", "x:", "xmlns", "]]>", "!--", "--", "?"];
    let d = ctx.by(4, 5);
    ctx.section("fragments", |ch| { let n = 1 + ch.choose(d); let mut v = vec!["<r>"]; for _ in 0..n { v.push(*ch.pick(&frag)) } v.push("</r>"); Some(v) }, show, check);
    let tag: Vec<&'static str> = vec![" ", "a", "b", "=", "'1'", "\"2\"", "n:", "xmlns", "/", ":", "&lt;", "&"];
    let d = ctx.by(5, 6);
    ctx.section("inside a tag", |ch| { let n = 1 + ch.choose(d); let mut v = vec!["<r>", "<a xmlns:n='u'><a"]; for _ in 0..n { v.push(*ch.pick(&tag)) } v.push(">x</a></a></r>"); Some(v) }, show, check);
    let ns: Vec<&'static str> = vec!["<a>", "<n:a>", "</n:a>", "</a>", "<a xmlns='u' a='1'>", "<a xmlns='' n:a='1'>", "<n:a xmlns:n='v' n:a='1' m:a='2'>", "<a xmlns:n='w' a='2' n:a='1'>", "<a xmlns:m='v'>", "<m:b a='1' xml:a='2'/>"];
    let d = ctx.by(5, 6);
    ctx.section("namespaces", |ch| { let n = 1 + ch.choose(d); let mut v = vec!["<r>"]; for _ in 0..n { v.push(*ch.pick(&ns)) } v.push("</r>"); Some(v) }, show, check);
    ctx.section("bytes", |ch| {
        let pieces: Vec<Vec<u8>> = vec![b"x".to_vec(), vec![0xff], vec![0xc3], vec![0xa9], vec![0xe2, 0x82], vec![0xac], vec![0xf0, 0x9f], b"<a/>".to_vec(), vec![0xed, 0xa0, 0x80]];
        let n = 1 + ch.choose(4); let mut v = Vec::new(); for _ in 0..n { let p: &Vec<u8> = ch.pick(&pieces[..]); v.extend_from_slice(p) } Some(v) },
        |v| format!("{:?}", v), |v| {
            let mut d = root.clone().into_bytes(); d.extend_from_slice(v); d.extend_from_slice(b"</r>");
            match std::str::from_utf8(&d) { Ok(s) => check_xml(s), Err(_) => if victor::dom::Document::parse_xml(&d).is_ok() { fail("utf8", "bytes that are not UTF-8 gave a tree") } else { Ok(3) } }
        });
    let space: Vec<&'static str> = vec![" ", "\n", "x", "&#32;", "&#9;", "<![CDATA[ ]]>", "<![CDATA[]]>", "<!--c-->", "<?p i?>", "<a>", "</a>", "<b/>", "<b>", "</b>"];
    let d = ctx.by(4, 5);
    ctx.section("white space", |ch| { let n = 1 + ch.choose(d); let mut v = vec!["<r>", "<a>"]; for _ in 0..n { v.push(*ch.pick(&space)) } v.push("</a></r>"); Some(v) }, show, check);
    // Long documents: what stands at, or across, a power of two of the input.
    let limits: &[usize] = if ctx.quick() { &[1024, 4096, 8192, 16384, 32768, 65536, 131072] } else { &[256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072, 262144, 524288, 1 << 20] };
    let pieces: &[&str] = &["é", "€", "😀", "&#233;", "&amp;x", "<b a='1'/>", "<a a=\"2\" ></a>", "<!--c-->", "\nx", "<![CDATA[y]]>", "<?p i?>", "<b><a>q</a></b>", "</q>", "&"];
    ctx.section("long documents", |ch| {
        let at = *ch.pick(limits);
        let p = *ch.pick(pieces);
        let j = ch.choose((p.len() + 1).min(9));
        let kind = ch.choose(5);
        if kind == 3 && at > 65536 || kind == 1 && at > 300000 { return None }
        let mut v = "<r><a>".to_string();
        let (open, unit, close) = [("<!--", "x", "-->"), ("", "x", ""), ("<b t='", "x", "'/>"), ("", "<b></b>", ""), ("<![CDATA[", "x", "]]>")][kind];
        v += open;
        let room = at - j - close.len();
        while v.len() + unit.len() <= room { v += unit }
        while v.len() < room { v.push('y') }
        v += close;
        v += p;
        v += "z</a><b>é</b>";
        v += &style;
        v += "</r>";
        Some((v, at, j, kind, p))
    }, |(v, at, j, kind, p)| format!("{} bytes, {:?} at {} - {}, filler {}", v.len(), p, at, j, kind), |(v, ..)| check_xml(v));
    ctx.assumptions.push("the reference is an independent miniature XML reader; constructs outside the alphabets (internal DTD subsets, other encodings, standalone declarations) are not covered; comments and processing instructions are not observable in the rendering, and white space only through :empty".into());
}
