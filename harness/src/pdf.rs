//! An independent PDF reader: strict object grammar, sequential object scan, strict cross-reference
//! verification (separately), and an interpreter for the page content operators.
use std::collections::BTreeMap;

pub type R<T> = Result<T, String>;

#[derive(Clone, Debug, PartialEq)]
pub enum Obj {
    Null, Bool(bool), Num(String), Name(Vec<u8>), Str(Vec<u8>), Array(Vec<Obj>), Dict(Vec<(Vec<u8>, Obj)>), Ref(u32, u32), Op(String),
}

impl Obj {
    pub fn get(&self, k: &str) -> Option<&Obj> {
        match self { Obj::Dict(d) => d.iter().find(|(n, _)| n == k.as_bytes()).map(|(_, v)| v), _ => None }
    }
    pub fn f64(&self) -> R<f64> { match self { Obj::Num(s) => s.parse::<f64>().map_err(|e| format!("{}: {}", s, e)), o => Err(format!("expected number, got {:?}", o)) } }
    pub fn f32(&self) -> R<f32> { match self { Obj::Num(s) => s.parse::<f32>().map_err(|e| format!("{}: {}", s, e)), o => Err(format!("expected number, got {:?}", o)) } }
    pub fn int(&self) -> R<i64> { match self { Obj::Num(s) => s.parse::<i64>().map_err(|e| format!("expected integer {}: {}", s, e)), o => Err(format!("expected integer, got {:?}", o)) } }
    pub fn name(&self) -> R<&[u8]> { match self { Obj::Name(n) => Ok(n), o => Err(format!("expected name, got {:?}", o)) } }
    pub fn is_name(&self, s: &str) -> bool { matches_name(self, s) }
    pub fn array(&self) -> R<&[Obj]> { match self { Obj::Array(a) => Ok(a), o => Err(format!("expected array, got {:?}", o)) } }
    pub fn dict(&self) -> R<&[(Vec<u8>, Obj)]> { match self { Obj::Dict(a) => Ok(a), o => Err(format!("expected dictionary, got {:?}", o)) } }
    pub fn reference(&self) -> R<u32> { match self { Obj::Ref(n, 0) => Ok(*n), o => Err(format!("expected reference, got {:?}", o)) } }
}
fn matches_name(o: &Obj, s: &str) -> bool { if let Obj::Name(n) = o { n == s.as_bytes() } else { false } }

pub struct Lexer<'a> { pub b: &'a [u8], pub p: usize }

fn is_ws(c: u8) -> bool { matches!(c, 0 | 9 | 10 | 12 | 13 | 32) }
fn is_delim(c: u8) -> bool { matches!(c, b'(' | b')' | b'<' | b'>' | b'[' | b']' | b'{' | b'}' | b'/' | b'%') }
fn is_reg(c: u8) -> bool { !is_ws(c) && !is_delim(c) }

/// PDF 32000-1 7.3.3: optional sign, digits, at most one period, at least one digit.
pub fn valid_number(s: &str) -> bool {
    let t = s.strip_prefix(|c| c == '+' || c == '-').unwrap_or(s);
    !t.is_empty() && t.bytes().all(|c| c.is_ascii_digit() || c == b'.') && t.bytes().filter(|&c| c == b'.').count() <= 1
        && t.bytes().any(|c| c.is_ascii_digit())
}

impl<'a> Lexer<'a> {
    pub fn new(b: &'a [u8], p: usize) -> Self { Lexer { b, p } }
    fn peek(&self) -> Option<u8> { self.b.get(self.p).copied() }
    pub fn skip_ws(&mut self) {
        while let Some(c) = self.peek() {
            if is_ws(c) { self.p += 1 }
            else if c == b'%' { while let Some(c) = self.peek() { if c == 10 || c == 13 { break } self.p += 1 } }
            else { break }
        }
    }
    pub fn object(&mut self) -> R<Obj> {
        self.skip_ws();
        let c = self.peek().ok_or("unexpected end of data")?;
        match c {
            b'/' => {
                self.p += 1;
                let mut n = Vec::new();
                while let Some(c) = self.peek() {
                    if !is_reg(c) { break }
                    self.p += 1;
                    if c == b'#' {
                        let h = self.b.get(self.p..self.p + 2).and_then(|h| std::str::from_utf8(h).ok()).and_then(|h| u8::from_str_radix(h, 16).ok());
                        match h { Some(0) => return Err("#00 in name".into()), Some(v) => { n.push(v); self.p += 2 } None => return Err("bad # escape in name".into()) }
                    } else {
                        if c < 0x21 || c > 0x7e { return Err(format!("byte {:#x} in name must be #-escaped", c)) }
                        n.push(c)
                    }
                }
                Ok(Obj::Name(n))
            }
            b'(' => {
                self.p += 1;
                let mut depth = 1;
                let mut s = Vec::new();
                loop {
                    let c = self.peek().ok_or("unterminated string")?;
                    self.p += 1;
                    match c {
                        b'\\' => { let e = self.peek().ok_or("unterminated string")?; self.p += 1; match e { b'n' => s.push(10), b'r' => s.push(13), b't' => s.push(9), b'b' => s.push(8), b'f' => s.push(12),
                            b'0'..=b'7' => { let mut v = (e - b'0') as u32; for _ in 0..2 { if let Some(d @ b'0'..=b'7') = self.peek() { v = v * 8 + (d - b'0') as u32; self.p += 1 } else { break } } s.push(v as u8) }
                            e => s.push(e) } }
                        b'(' => { depth += 1; s.push(c) }
                        b')' => { depth -= 1; if depth == 0 { break } s.push(c) }
                        c => s.push(c),
                    }
                }
                Ok(Obj::Str(s))
            }
            b'<' if self.b.get(self.p + 1) == Some(&b'<') => {
                self.p += 2;
                let mut d: Vec<(Vec<u8>, Obj)> = Vec::new();
                loop {
                    self.skip_ws();
                    if self.b[self.p..].starts_with(b">>") { self.p += 2; break }
                    let k = match self.object()? { Obj::Name(n) => n, o => return Err(format!("dictionary key {:?}", o)) };
                    let v = self.object()?;
                    if let Obj::Op(o) = &v { return Err(format!("bad value {} for key {:?}", o, String::from_utf8_lossy(&k))) }
                    if d.iter().any(|(x, _)| *x == k) { return Err(format!("duplicate dictionary key {:?}", String::from_utf8_lossy(&k))) }
                    d.push((k, v));
                }
                Ok(Obj::Dict(d))
            }
            b'<' => {
                self.p += 1;
                let mut digits = Vec::new();
                loop {
                    let c = self.peek().ok_or("unterminated hex string")?;
                    self.p += 1;
                    if c == b'>' { break }
                    if is_ws(c) { continue }
                    digits.push((c as char).to_digit(16).ok_or("bad hex digit")? as u8);
                }
                if digits.len() % 2 == 1 { digits.push(0) }
                Ok(Obj::Str(digits.chunks(2).map(|d| d[0] * 16 + d[1]).collect()))
            }
            b'[' => {
                self.p += 1;
                let mut a = Vec::new();
                loop {
                    self.skip_ws();
                    if self.peek() == Some(b']') { self.p += 1; break }
                    let v = self.object()?;
                    if let Obj::Op(o) = &v { return Err(format!("bad array item {}", o)) }
                    a.push(v);
                }
                Ok(Obj::Array(a))
            }
            c if is_delim(c) => Err(format!("unexpected delimiter {:?}", c as char)),
            _ => {
                let st = self.p;
                while self.peek().map_or(false, is_reg) { self.p += 1 }
                let t = std::str::from_utf8(&self.b[st..self.p]).map_err(|_| "non-ASCII token")?.to_string();
                if t.as_bytes()[0].is_ascii_digit() && t.bytes().all(|c| c.is_ascii_digit()) {
                    // maybe a reference
                    let save = self.p;
                    if let Some((n, g)) = self.try_ref(&t) { return Ok(Obj::Ref(n, g)) }
                    self.p = save;
                }
                Ok(match &*t {
                    "true" => Obj::Bool(true), "false" => Obj::Bool(false), "null" => Obj::Null,
                    _ => if matches!(t.as_bytes()[0], b'+' | b'-' | b'.' | b'0'..=b'9') {
                        if !valid_number(&t) { return Err(format!("invalid number token {:?}", t)) }
                        Obj::Num(t)
                    } else { Obj::Op(t) },
                })
            }
        }
    }
    fn try_ref(&mut self, first: &str) -> Option<(u32, u32)> {
        let n = first.parse().ok()?;
        self.skip_ws();
        let st = self.p;
        while self.peek().map_or(false, |c| c.is_ascii_digit()) { self.p += 1 }
        let g = std::str::from_utf8(&self.b[st..self.p]).ok()?.parse().ok()?;
        let before = self.p;
        self.skip_ws();
        if before == self.p { return None }
        if self.peek() == Some(b'R') && self.b.get(self.p + 1).map_or(true, |&c| !is_reg(c)) { self.p += 1; Some((n, g)) } else { None }
    }
    pub fn expect(&mut self, s: &[u8]) -> R<()> {
        if self.b[self.p.min(self.b.len())..].starts_with(s) { self.p += s.len(); Ok(()) }
        else { Err(format!("expected {:?} at byte {}", String::from_utf8_lossy(s), self.p)) }
    }
    pub fn keyword(&mut self, s: &str) -> R<()> { self.skip_ws(); self.expect(s.as_bytes()) }
    pub fn uint(&mut self) -> R<u64> {
        let st = self.p;
        while self.peek().map_or(false, |c| c.is_ascii_digit()) { self.p += 1 }
        std::str::from_utf8(&self.b[st..self.p]).unwrap().parse().map_err(|_| format!("expected integer at byte {}", st))
    }
}

#[derive(Clone)]
pub struct Indirect { pub id: u32, pub offset: usize, pub obj: Obj, pub stream: Option<Vec<u8>> }

pub struct Pdf { pub objects: BTreeMap<u32, Indirect>, pub trailer: Obj, pub order: Vec<u32> }

fn eol(l: &mut Lexer) -> R<()> {
    if l.b[l.p..].starts_with(b"\r\n") { l.p += 2; Ok(()) } else { l.expect(b"\n") }
}

/// Parse an indirect object starting exactly at `p`. Stream lengths must be exact.
fn indirect(b: &[u8], p: usize, lookup_len: &dyn Fn(u32) -> Option<i64>) -> R<(Indirect, usize)> {
    let mut l = Lexer::new(b, p);
    let id = l.uint()? as u32;
    l.skip_ws();
    let gen = l.uint()?;
    if gen != 0 { return Err(format!("object {} has generation {}", id, gen)) }
    l.keyword("obj")?;
    let obj = l.object()?;
    if let Obj::Op(o) = &obj { return Err(format!("object {} is bare keyword {}", id, o)) }
    l.skip_ws();
    let mut stream = None;
    if l.b[l.p..].starts_with(b"stream") {
        l.p += 6;
        eol(&mut l)?;
        let len = match obj.get("Length") { Some(Obj::Ref(n, 0)) => lookup_len(*n).ok_or("indirect Length not found")?, Some(o) => o.int()?, None => return Err(format!("stream object {} has no Length", id)) } as usize;
        let data = b.get(l.p..l.p + len).ok_or_else(|| format!("stream {} extends past end of file", id))?;
        l.p += len;
        // "There should be an end-of-line marker after the data and before endstream"
        if l.b[l.p..].starts_with(b"\r\n") { l.p += 2 } else if l.b[l.p..].starts_with(b"\n") || l.b[l.p..].starts_with(b"\r") { l.p += 1 } else { return Err(format!("stream {}: Length {} does not end at an end-of-line before endstream", id, len)) }
        l.expect(b"endstream").map_err(|e| format!("stream {}: Length {} is not the exact length ({})", id, len, e))?;
        stream = Some(data.to_vec());
    }
    l.keyword("endobj")?;
    Ok((Indirect { id, offset: p, obj, stream }, l.p))
}

impl Pdf {
    /// Read all objects by scanning the file body in order (does not use the cross-reference table).
    pub fn scan(b: &[u8]) -> R<Pdf> {
        let mut l = Lexer::new(b, 0);
        l.expect(b"%PDF-")?;
        l.p = 0;
        let mut objects = BTreeMap::new();
        let mut order = Vec::new();
        loop {
            l.skip_ws();
            if l.b[l.p..].starts_with(b"xref") { break }
            let (o, e) = indirect(b, l.p, &|_| None)?;
            l.p = e;
            order.push(o.id);
            if objects.insert(o.id, o).is_some() { return Err("duplicate object number".into()) }
        }
        // trailer: search forward
        let t = find(b, b"trailer", l.p).ok_or("no trailer")?;
        let mut l = Lexer::new(b, t + 7);
        let trailer = l.object()?;
        Ok(Pdf { objects, trailer, order })
    }

    /// Strict reading through startxref and the cross-reference table.
    pub fn strict(b: &[u8]) -> R<Pdf> {
        let mut l = Lexer::new(b, 0);
        l.expect(b"%PDF-1.")?;
        let v = l.uint()?;
        if v > 7 { return Err("bad PDF version".into()) }
        eol(&mut l)?;
        // binary comment recommended when the file has binary data
        let mut e = b.len();
        while e > 0 && is_ws(b[e - 1]) { e -= 1 }
        if !b[..e].ends_with(b"%%EOF") { return Err("file does not end with %%EOF".into()) }
        let sx = rfind(b, b"startxref").ok_or("no startxref")?;
        let mut l = Lexer::new(b, sx + 9);
        eol(&mut l)?;
        let xpos = l.uint()? as usize;
        eol(&mut l)?;
        l.expect(b"%%EOF")?;
        let mut l = Lexer::new(b, xpos);
        if xpos >= b.len() { return Err("startxref beyond end of file".into()) }
        l.expect(b"xref").map_err(|e| format!("startxref does not point at xref: {}", e))?;
        eol(&mut l)?;
        let first = l.uint()?;
        l.expect(b" ")?;
        let count = l.uint()? as usize;
        eol(&mut l)?;
        if first != 0 || count == 0 { return Err("xref section does not start with object 0".into()) }
        let mut offsets = Vec::new();
        for i in 0..count {
            let e = b.get(l.p..l.p + 20).ok_or("truncated xref table")?;
            l.p += 20;
            let ok = e[..10].iter().all(|c| c.is_ascii_digit()) && e[10] == b' ' && e[11..16].iter().all(|c| c.is_ascii_digit()) && e[16] == b' '
                && (&e[18..] == b" \n" || &e[18..] == b" \r" || &e[18..] == b"\r\n");
            if !ok { return Err(format!("malformed xref entry {}: {:?}", i, String::from_utf8_lossy(e))) }
            let off: usize = std::str::from_utf8(&e[..10]).unwrap().parse().unwrap();
            let gen: usize = std::str::from_utf8(&e[11..16]).unwrap().parse().unwrap();
            match (i, e[17]) {
                (0, b'f') => { if off != 0 || gen != 65535 { return Err("bad head of free list".into()) } }
                (0, _) => return Err("object 0 not free".into()),
                (_, b'n') => { if gen != 0 { return Err("bad generation".into()) } offsets.push(off) }
                (i, _) => return Err(format!("object {} is free or malformed", i)),
            }
        }
        l.keyword("trailer")?;
        let trailer = l.object()?;
        trailer.dict()?;
        if trailer.get("Size").ok_or("no Size")?.int()? != count as i64 { return Err(format!("trailer Size {:?} but {} xref entries", trailer.get("Size"), count)) }
        l.keyword("startxref")?;
        if l.p != sx + 9 { return Err("data between trailer and startxref".into()) }
        let mut objects = BTreeMap::new();
        let mut spans = Vec::new();
        for (i, &off) in offsets.iter().enumerate() {
            if off >= b.len() || !b[off].is_ascii_digit() || (off > 0 && b[off - 1].is_ascii_digit()) { return Err(format!("xref offset {} of object {} does not point at an object", off, i + 1)) }
            let (o, e) = indirect(b, off, &|_| None).map_err(|m| format!("object {} at {}: {}", i + 1, off, m))?;
            if o.id as usize != i + 1 { return Err(format!("xref entry {} points at object {}", i + 1, o.id)) }
            spans.push((off, e));
            objects.insert(o.id, o);
        }
        // The objects and only the objects make up the body.
        let mut order: Vec<u32> = objects.keys().copied().collect();
        order.sort_by_key(|i| objects[i].offset);
        spans.sort();
        let mut p = Lexer::new(b, 0);
        p.skip_ws();
        for (s, e) in spans {
            p.skip_ws();
            if p.p != s { return Err(format!("unexpected data at byte {} (next object at {})", p.p, s)) }
            p.p = e;
        }
        p.skip_ws();
        if p.p != xpos { return Err(format!("unexpected data at byte {} before xref", p.p)) }
        Ok(Pdf { objects, trailer, order })
    }

    pub fn resolve<'a>(&'a self, o: &'a Obj) -> R<&'a Obj> {
        match o { Obj::Ref(n, _) => Ok(&self.objects.get(n).ok_or_else(|| format!("dangling reference {} 0 R", n))?.obj), o => Ok(o) }
    }
    pub fn get<'a>(&'a self, d: &'a Obj, k: &str) -> R<&'a Obj> {
        self.resolve(d.get(k).ok_or_else(|| format!("missing key {} in {:?}", k, d))?)
    }
    pub fn stream(&self, o: &Obj) -> R<&[u8]> {
        let n = o.reference()?;
        let i = self.objects.get(&n).ok_or_else(|| format!("dangling reference {} 0 R", n))?;
        if i.obj.get("Filter").is_some() { return Err("unexpected Filter".into()) }
        i.stream.as_deref().ok_or_else(|| format!("object {} is not a stream", n))
    }

    pub fn pages(&self) -> R<Vec<PageInfo>> {
        let root = self.get(&self.trailer, "Root")?;
        if !self.get(root, "Type")?.is_name("Catalog") { return Err("catalog Type".into()) }
        let mut out = Vec::new();
        let tree = root.get("Pages").ok_or("no Pages")?;
        self.walk(tree, None, None, None, &mut out, 0)?;
        Ok(out)
    }
    fn walk(&self, node_ref: &Obj, parent: Option<&Obj>, res: Option<&Obj>, mb: Option<&Obj>, out: &mut Vec<PageInfo>, depth: usize) -> R<usize> {
        if depth > 20 { return Err("page tree too deep".into()) }
        let node = self.resolve(node_ref)?;
        if let Some(p) = parent { if node.get("Parent") != Some(p) { return Err("page Parent does not point at its parent node".into()) } }
        let res = node.get("Resources").or(res);
        let mb = node.get("MediaBox").or(mb);
        let ty = self.get(node, "Type")?;
        if ty.is_name("Pages") {
            let mut n = 0;
            let kids = self.get(node, "Kids")?.array()?;
            let mut seen = Vec::new();
            for k in kids {
                let id = k.reference()?;
                if seen.contains(&id) { return Err("page listed twice".into()) }
                seen.push(id);
                n += self.walk(k, Some(node_ref), res, mb, out, depth + 1)?;
            }
            if self.get(node, "Count")?.int()? != n as i64 { return Err(format!("Count {:?} but {} pages", node.get("Count"), n)) }
            Ok(n)
        } else if ty.is_name("Page") {
            let mb = self.resolve(mb.ok_or("no MediaBox")?)?.array()?;
            if mb.len() != 4 { return Err("MediaBox length".into()) }
            let v: Vec<f64> = mb.iter().map(|o| o.f64()).collect::<R<_>>()?;
            let raw: Vec<Obj> = mb.to_vec();
            out.push(PageInfo { media: [v[0].min(v[2]), v[1].min(v[3]), v[0].max(v[2]), v[1].max(v[3])], media_raw: raw,
                contents: match node.get("Contents") { Some(Obj::Array(a)) => a.clone(), Some(o) => vec![o.clone()], None => vec![] },
                resources: match res { Some(r) => self.resolve(r)?.clone(), None => Obj::Dict(vec![]) } });
            Ok(1)
        } else { Err(format!("bad page tree node type {:?}", ty)) }
    }
    pub fn page_content(&self, p: &PageInfo) -> R<Vec<u8>> {
        let mut v = Vec::new();
        for c in &p.contents { v.extend_from_slice(self.stream(c)?); v.push(b'\n') }
        Ok(v)
    }
    pub fn paint(&self) -> R<Vec<Vec<Paint>>> {
        self.pages()?.iter().map(|p| self.paint_page(p)).collect()
    }
    pub fn paint_page(&self, p: &PageInfo) -> R<Vec<Paint>> {
        let c = self.page_content(p)?;
        interpret(self, p, &c)
    }
}

pub fn find(b: &[u8], needle: &[u8], from: usize) -> Option<usize> {
    if b.len() < needle.len() { return None }
    (from..=b.len() - needle.len()).find(|&i| &b[i..i + needle.len()] == needle)
}
pub fn rfind(b: &[u8], needle: &[u8]) -> Option<usize> {
    if b.len() < needle.len() { return None }
    (0..=b.len() - needle.len()).rev().find(|&i| &b[i..i + needle.len()] == needle)
}

pub struct PageInfo { pub media: [f64; 4], pub media_raw: Vec<Obj>, pub contents: Vec<Obj>, pub resources: Obj }

#[derive(Clone, Debug, PartialEq)]
pub enum Paint {
    /// CSS px coordinates, origin at the top-left corner of the page.
    Rect { x: f64, y: f64, w: f64, h: f64, rgb: [f64; 3], alpha: f64, raw: [f32; 4] },
    Text { x: f64, y: f64, size: f64, font: u32, glyphs: Vec<u16>, rgb: [f64; 3], alpha: f64, raw: [f32; 3] },
}

type M = [f64; 6];
fn mul(a: M, b: M) -> M { // a then b
    [a[0] * b[0] + a[1] * b[2], a[0] * b[1] + a[1] * b[3], a[2] * b[0] + a[3] * b[2], a[2] * b[1] + a[3] * b[3],
     a[4] * b[0] + a[5] * b[2] + b[4], a[4] * b[1] + a[5] * b[3] + b[5]]
}
fn app(m: M, x: f64, y: f64) -> (f64, f64) { (x * m[0] + y * m[2] + m[4], x * m[1] + y * m[3] + m[5]) }

#[derive(Clone)]
struct Gs { ctm: M, rgb: [f64; 3], alpha: f64, font: Option<(u32, f64)>, }

fn interpret(pdf: &Pdf, page: &PageInfo, content: &[u8]) -> R<Vec<Paint>> {
    let mut l = Lexer::new(content, 0);
    let mut gs = Gs { ctm: [1., 0., 0., 1., 0., 0.], rgb: [0.; 3], alpha: 1., font: None };
    let mut stack: Vec<Gs> = Vec::new();
    let mut args: Vec<Obj> = Vec::new();
    let mut path: Vec<[Obj; 4]> = Vec::new();
    let mut out = Vec::new();
    let mut in_text = false;
    let mut tm: M = [1., 0., 0., 1., 0., 0.];
    let mut tm_raw: [f32; 3] = [0.; 3];
    let mut shown = false;
    let to_px = |x: f64, y: f64| ((x - page.media[0]) / 0.75, (page.media[3] - y) / 0.75);
    loop {
        l.skip_ws();
        if l.p >= content.len() { break }
        let o = l.object()?;
        let op = match o { Obj::Op(s) => s, o => { args.push(o); continue } };
        let a = std::mem::replace(&mut args, Vec::new());
        let n = |k: usize| -> R<()> { if a.len() == k { Ok(()) } else { Err(format!("operator {} with {} operands", op, a.len())) } };
        match &*op {
            "q" => { n(0)?; stack.push(gs.clone()) }
            "Q" => { n(0)?; gs = stack.pop().ok_or("Q without q")? }
            "cm" => { n(6)?; let mut m = [0.; 6]; for i in 0..6 { m[i] = a[i].f64()? } gs.ctm = mul(m, gs.ctm) }
            "gs" => {
                n(1)?;
                let d = pdf.get(&page.resources, "ExtGState")?;
                let key = std::str::from_utf8(a[0].name()?).map_err(|_| "gs name")?.to_string();
                let d = pdf.get(d, &key)?;
                if let Some(v) = d.get("ca") { gs.alpha = v.f64()?; if !(gs.alpha >= 0. && gs.alpha <= 1.) { return Err(format!("ca out of range {}", gs.alpha)) } }
            }
            "rg" => { n(3)?; for i in 0..3 { gs.rgb[i] = a[i].f64()? } }
            "g" => { n(1)?; gs.rgb = [a[0].f64()?; 3] }
            "RG" => n(3)?, "G" => n(1)?, "w" => n(1)?,
            "re" => { n(4)?; if in_text { return Err("re inside text object".into()) } path.push([a[0].clone(), a[1].clone(), a[2].clone(), a[3].clone()]) }
            "f" | "F" | "f*" => {
                n(0)?;
                if path.is_empty() { return Err("fill without path".into()) }
                for r in path.drain(..) {
                    let (x, y, w, h) = (r[0].f64()?, r[1].f64()?, r[2].f64()?, r[3].f64()?);
                    if gs.ctm[1] != 0. || gs.ctm[2] != 0. { return Err("rotated CTM".into()) }
                    let (x0, y0) = app(gs.ctm, x, y);
                    let (x1, y1) = app(gs.ctm, x + w, y + h);
                    let (px, py) = to_px(x0, y0);
                    let (qx, qy) = to_px(x1, y1);
                    out.push(Paint::Rect { x: px, y: py, w: qx - px, h: qy - py, rgb: gs.rgb, alpha: gs.alpha,
                        raw: [r[0].f32()?, r[1].f32()?, r[2].f32()?, r[3].f32()?] });
                }
            }
            "n" => { n(0)?; path.clear() }
            "BT" => { n(0)?; if in_text { return Err("nested BT".into()) } in_text = true; tm = [1., 0., 0., 1., 0., 0.]; tm_raw = [0.; 3]; shown = false }
            "ET" => { n(0)?; if !in_text { return Err("ET without BT".into()) } in_text = false }
            "Tf" => {
                n(2)?;
                let d = pdf.get(&page.resources, "Font")?;
                let key = std::str::from_utf8(a[0].name()?).map_err(|_| "font name")?.to_string();
                let f = d.get(&key).ok_or_else(|| format!("font resource {} not defined", key))?;
                gs.font = Some((f.reference()?, a[1].f64()?));
            }
            "Tm" => { n(6)?; if !in_text { return Err("Tm outside text object".into()) } for i in 0..6 { tm[i] = a[i].f64()? } tm_raw = [a[0].f32()?, a[4].f32()?, a[5].f32()?]; shown = false }
            "Tj" | "TJ" => {
                n(1)?;
                if !in_text { return Err("Tj outside text object".into()) }
                if shown { return Err("several Tj without repositioning are not supported".into()) }
                shown = true;
                let bytes = match &a[0] { Obj::Str(s) => s.clone(), Obj::Array(v) if v.len() == 1 => match &v[0] { Obj::Str(s) => s.clone(), _ => return Err("TJ".into()) }, _ => return Err("Tj operand".into()) };
                if bytes.len() % 2 != 0 { return Err("odd glyph string length".into()) }
                let (font, tfs) = gs.font.ok_or("Tj without font")?;
                let m = mul([tfs, 0., 0., tfs, 0., 0.], mul(tm, gs.ctm));
                if m[1] != 0. || m[2] != 0. { return Err("rotated text".into()) }
                let (x, y) = to_px(m[4], m[5]);
                let (sx, sy) = (m[0] / 0.75, m[3] / 0.75);
                if (sx - sy).abs() > 1e-6 * sx.abs().max(1e-30) { return Err(format!("text is not upright: x scale {} y scale {}", sx, sy)) }
                out.push(Paint::Text { x, y, size: sx, font, glyphs: bytes.chunks(2).map(|b| (b[0] as u16) << 8 | b[1] as u16).collect(), rgb: gs.rgb, alpha: gs.alpha, raw: tm_raw });
            }
            _ => return Err(format!("unknown operator {:?}", op)),
        }
    }
    if !args.is_empty() { return Err("operands without operator at end of content".into()) }
    if in_text { return Err("unterminated text object".into()) }
    if !stack.is_empty() { return Err("unbalanced q".into()) }
    Ok(out)
}
