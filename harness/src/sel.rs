//! C13 (selector matching) and C14 (CSS error recovery).
use crate::css::esc;
use crate::dom::*;
use crate::engine::*;
use crate::layout::XHTML;
use crate::pdf::*;

// ---------------------------------------------------------------- document model

pub struct El { name: String, html: bool, attrs: Vec<(&'static str, String, String)>, parent: Option<usize>, kids: Vec<usize>, shown: bool, filled: bool } // attrs: namespace prefix, name, value
/// A document, its elements in tree order, and whether it goes through the HTML parser.
pub struct Doc { src: String, els: Vec<El>, html: bool }
struct B { d: Doc, stack: Vec<usize>, gap: &'static str }
impl B {
    fn new(html: bool, gap: &'static str) -> B {
        let mut b = B { d: Doc { src: String::new(), els: vec![], html }, stack: vec![], gap };
        let disp = "html,r{font-size:0}html,body,r,w,a,b,p,A,B,svg,foreignObject{display:block;margin:0;padding-top:1px}h,head{display:none}SELECTOR{background-color:#c80000}";
        if html {
            b.d.src += "<!DOCTYPE html>";
            b.raw("html", &[], true, true, "<html>");
            b.raw("head", &[], true, false, "<head>");
            b.raw("style", &[], true, false, "<style>");
            b.d.src += disp;
            b.fill();
            b.close("</style>");
            b.close("</head>");
            b.raw("body", &[], true, true, "<body>");
        } else {
            b.raw("r", &[], true, true, &format!("<r xmlns=\"{}\" xmlns:n=\"urn:n\">", XHTML));
            b.raw("h", &[], true, false, "<h>");
            b.raw("style", &[], true, false, "<style>");
            b.d.src += disp;
            b.fill();
            b.close("</style>");
            b.close("</h>");
        }
        b
    }
    fn raw(&mut self, name: &str, attrs: &[(&'static str, &str, &str)], html: bool, shown: bool, tag: &str) {
        let i = self.d.els.len();
        let parent = self.stack.last().copied();
        if let Some(p) = parent { self.d.els[p].kids.push(i) }
        self.d.els.push(El { name: name.into(), html, attrs: attrs.iter().map(|a| (a.0, a.1.to_string(), a.2.to_string())).collect(), parent, kids: vec![], shown, filled: false });
        self.stack.push(i);
        self.d.src += tag;
    }
    fn fill(&mut self) { let p = *self.stack.last().unwrap(); self.d.els[p].filled = true }
    fn close(&mut self, tag: &str) { self.d.src += tag; self.stack.pop(); }
    fn gap(&mut self) {
        let g = self.gap;
        self.d.src += g;
        // (white space next to an element; comments and processing instructions do not count)
        if g.contains(' ') && !g.starts_with("<?") { self.fill() }
    }
    fn open(&mut self, name: &str, attrs: &[(&'static str, &str, &str)]) {
        let tag = format!("<{}{}>", name, attrs.iter().map(|a| format!(" {}{}=\"{}\"", a.0, a.1, esc(a.2).replace('\t', "&#9;").replace('\n', "&#10;").replace('\r', "&#13;").replace('\u{c}', "&#12;"))).collect::<String>());
        self.raw(name, attrs, true, true, &tag)
    }
    fn end(&mut self) { let n = self.d.els[*self.stack.last().unwrap()].name.clone(); self.close(&format!("</{}>", n)) }
    fn done(mut self) -> Doc { while !self.stack.is_empty() { if self.d.html { self.stack.pop(); } else { self.end() } } self.d }
}
const GAPS: &[&str] = &["", "<!--c-->", " ", "<?p i?><!---->"];

/// Every ordered forest with `n` nodes, each in its own <w>, over the labels.
fn forests(b: &mut B, n: usize, labels: &[(&'static str, &[(&'static str, &str, &str)])]) {
    let mut ch = crate::engine::Chooser::new();
    let mut count = 0;
    loop {
        // (groups of eight keep the lists of siblings short)
        if count % 8 == 0 { if count > 0 { b.end() } b.open("w", &[]) }
        count += 1;
        ch.restart();
        let parents = crate::layout::forest(&mut ch, n);
        let l: Vec<usize> = (0..n).map(|_| ch.choose(labels.len())).collect();
        b.open("w", &[]);
        fn go(b: &mut B, p: usize, parents: &[usize], l: &[usize], labels: &[(&'static str, &[(&'static str, &str, &str)])]) {
            let kids: Vec<usize> = (0..parents.len()).filter(|i| parents[*i] == p).collect();
            for (j, i) in kids.iter().enumerate() {
                if j > 0 || b.gap != " " { b.gap() }
                b.open(labels[l[*i]].0, labels[l[*i]].1);
                go(b, *i, parents, l, labels);
                b.end();
            }
            if !kids.is_empty() && b.gap != " " { b.gap() }
            if kids.is_empty() && p != usize::MAX && l[p] % 2 == 1 { b.gap() } // content that :empty ignores, or not
        }
        go(b, usize::MAX, &parents, &l, labels);
        b.end();
        if !ch.next_path() { break }
    }
    b.end();
}

// ---------------------------------------------------------------- selectors

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Comb { Desc, Child, Next, Later }
#[derive(Clone, Debug)]
pub enum S {
    Any, Type(String), Class(String), Id(String), Root, Empty, First, Last, Only, FirstT, LastT, OnlyT,
    Nth { of_type: bool, last: bool, a: i64, b: i64 },
    /// any namespace, name, operator, value, case-insensitive (None: as the language says)
    Attr(bool, String, Option<(&'static str, String, bool)>),
    Not(Box<S>),
    NoNamespace,
}
type Compound = Vec<S>;
/// Rightmost compound first.
pub type Complex = (Compound, Vec<(Comb, Compound)>);

fn ws(c: char) -> bool { c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\u{c}' }
fn siblings(d: &Doc, e: usize) -> &[usize] { match d.els[e].parent { Some(p) => &d.els[p].kids, None => &[] } }
fn simple(d: &Doc, e: usize, s: &S) -> bool {
    let x = &d.els[e];
    let idx = |of_type: bool| -> (i64, i64) { // 1-based from the start and from the end
        let l: Vec<usize> = siblings(d, e).iter().copied().filter(|k| !of_type || d.els[*k].name == x.name && d.els[*k].html == x.html).collect();
        match l.iter().position(|k| *k == e) { Some(i) => (i as i64 + 1, (l.len() - i) as i64), None => (1, 1) }
    };
    match s {
        S::Any => true,
        S::NoNamespace => !x.html,
        S::Type(n) => if d.html && x.html { x.name == n.to_ascii_lowercase() } else { x.name == *n },
        S::Class(c) => x.attrs.iter().any(|a| a.0.is_empty() && a.1 == "class" && a.2.split(ws).any(|k| k == c)),
        S::Id(i) => x.attrs.iter().any(|a| a.0.is_empty() && a.1 == "id" && a.2 == *i),
        S::Root => x.parent.is_none(),
        S::Empty => !x.filled && x.kids.is_empty(),
        S::First => idx(false).0 == 1,
        S::Last => idx(false).1 == 1,
        S::Only => idx(false) == (1, 1),
        S::FirstT => idx(true).0 == 1,
        S::LastT => idx(true).1 == 1,
        S::OnlyT => idx(true) == (1, 1),
        S::Nth { of_type, last, a, b } => { let i = idx(*of_type); let i = if *last { i.1 } else { i.0 }; (0..200).any(|n| a * n + b == i) }
        S::Attr(any_ns, name, op) => x.attrs.iter().any(|at| {
            if !any_ns && !at.0.is_empty() { return false }
            let html = d.html && x.html;
            if at.1 != if html { name.to_ascii_lowercase() } else { name.clone() } { return false }
            let (op, v, ci) = match op { None => return true, Some(o) => o };
            // attributes whose values the HTML standard matches case-insensitively in HTML documents
            let ci = *ci || html && !any_ns && name.eq_ignore_ascii_case("type");
            let (h, v) = if ci { (at.2.to_ascii_lowercase(), v.to_ascii_lowercase()) } else { (at.2.clone(), v.clone()) };
            match *op {
                "=" => h == v,
                "~=" => !v.is_empty() && !v.contains(ws) && h.split(ws).any(|p| p == v),
                "|=" => h == v || h.starts_with(&format!("{}-", v)),
                "^=" => !v.is_empty() && h.starts_with(&v),
                "$=" => !v.is_empty() && h.ends_with(&v),
                "*=" => !v.is_empty() && h.contains(&v),
                _ => unreachable!(),
            }
        }),
        S::Not(s) => !simple(d, e, s),
    }
}
fn compound(d: &Doc, e: usize, c: &Compound) -> bool { c.iter().all(|s| simple(d, e, s)) }
fn rest(d: &Doc, e: usize, r: &[(Comb, Compound)]) -> bool {
    let ((comb, c), tail) = match r.split_first() { Some((h, t)) => (h, t), None => return true };
    let cand: Vec<usize> = match comb {
        Comb::Child => d.els[e].parent.into_iter().collect(),
        Comb::Desc => { let mut v = Vec::new(); let mut p = d.els[e].parent; while let Some(q) = p { v.push(q); p = d.els[q].parent } v }
        Comb::Next | Comb::Later => {
            let s = siblings(d, e);
            let i = s.iter().position(|k| *k == e).unwrap_or(0);
            if *comb == Comb::Next { s[..i].last().copied().into_iter().collect() } else { s[..i].to_vec() }
        }
    };
    cand.into_iter().any(|k| compound(d, k, c) && rest(d, k, tail))
}
fn matches(d: &Doc, e: usize, list: &[Complex]) -> bool { list.iter().any(|(c, r)| compound(d, e, c) && rest(d, e, r)) }

pub struct SelCase { doc: usize, text: String, list: Vec<Complex> }
fn check_sel(docs: &[Doc], c: &SelCase) -> Outcome {
    let d = &docs[c.doc];
    let src = d.src.replace("SELECTOR", &if d.html { c.text.clone() } else { esc(&c.text) });
    let p = match if d.html { render(src.as_bytes()) } else { render_xml(src.as_bytes()) } { Ok(p) => p, Err(e) => return fail("bad-output", e) };
    let mut got: Vec<i64> = Vec::new();
    for p in p { match p { Paint::Rect { y, rgb, .. } if rgb_id(&rgb) == 0xc80000 => got.push((y * 1.0 + 0.5).floor() as i64), Paint::Text { size, .. } if size == 0. => {}, p => return fail("paint", format!("unexpected {:?}", p)) } }
    let shown: Vec<usize> = (0..d.els.len()).filter(|e| d.els[*e].shown).collect();
    let want: Vec<i64> = shown.iter().enumerate().filter(|(_, e)| matches(d, **e, &c.list)).map(|(i, _)| i as i64).collect();
    if got == want { return Ok(fp(&got)) }
    let bad = *got.iter().filter(|g| !want.contains(g)).chain(want.iter().filter(|w| !got.contains(w))).next().unwrap_or(&0);
    let path = { let mut v = Vec::new(); let mut p = shown.get(bad as usize).copied(); while let Some(e) = p { let x = &d.els[e]; v.push(format!("{}{:?} (child {} of {})", x.name, x.attrs, siblings(d, e).iter().position(|k| *k == e).map_or(0, |i| i + 1), siblings(d, e).len())); p = x.parent } v.join(" < ") };
    fail("matching", format!("selector {:?}: {} elements painted, {} expected; first difference at element {} ({}, painted: {})\n{}", c.text, got.len(), want.len(), bad, path, got.contains(&bad), if src.len() < 3000 { &src } else { "" }))
}

const COMPOUNDS: &[(&str, fn() -> Compound)] = &[
    ("a", || vec![S::Type("a".into())]), ("b", || vec![S::Type("b".into())]), (".c", || vec![S::Class("c".into())]), ("*", || vec![S::Any]), ("#i", || vec![S::Id("i".into())]), ("a.c", || vec![S::Type("a".into()), S::Class("c".into())]),
    (":first-child", || vec![S::First]), (":last-child", || vec![S::Last]), (":not(a)", || vec![S::Not(Box::new(S::Type("a".into())))]), (":empty", || vec![S::Empty]), (":nth-child(2)", || vec![S::Nth { of_type: false, last: false, a: 0, b: 2 }]), ("b:only-child", || vec![S::Type("b".into()), S::Only]),
    (":root", || vec![S::Root]), (":not(.c)", || vec![S::Not(Box::new(S::Class("c".into())))]), ("w", || vec![S::Type("w".into())]), (":first-of-type", || vec![S::FirstT]),
];
const COMBS: &[(&str, Comb)] = &[(" ", Comb::Desc), (">", Comb::Child), ("+", Comb::Next), ("~", Comb::Later)];
fn complex(c: &mut Chooser, len: usize, n: usize) -> (String, Complex) {
    let (mut t, k) = { let k = &COMPOUNDS[c.choose(n)]; (k.0.to_string(), k.1()) };
    let mut parts = vec![k];
    let mut combs = Vec::new();
    for _ in 1..len {
        let cb = c.pick(COMBS);
        let k = &COMPOUNDS[c.choose(n)];
        t += cb.0;
        t += k.0;
        combs.push(cb.1);
        parts.push(k.1());
    }
    parts.reverse();
    combs.reverse();
    let mut it = parts.into_iter();
    (t, (it.next().unwrap(), combs.into_iter().zip(it).collect()))
}

pub fn c13(ctx: &mut Ctx) {
    ctx.assumptions.push("an+b tokens and attribute selector flags are parsed by the selectors crate, but what they match is compared; pseudo-elements, :hover and other state are outside the statement; no quirks mode".into());
    let none: &[(&'static str, &str, &str)] = &[];
    let labels: Vec<(&'static str, &[(&'static str, &str, &str)])> = vec![("a", none), ("b", none), ("a", &[("", "class", "c")]), ("b", &[("", "id", "i")])];
    let two: Vec<(&'static str, &[(&'static str, &str, &str)])> = vec![("a", none), ("b", &[("", "class", "c")])];
    let quick = ctx.quick();
    let mut docs = Vec::new();
    for html in &[false, true] {
        for g in GAPS {
            if *html && g.contains('?') { continue }
            let mut b = B::new(*html, g);
            if *html {
                // (a and p are special to the HTML parser: other names there)
                let l: Vec<(&'static str, &[(&'static str, &str, &str)])> = vec![("w", none), ("b-x", none)];
                let _ = l;
            }
            if !*html || true {
                let labels: Vec<_> = if *html { vec![] } else { labels.clone() };
                if *html { html_forests(&mut b) } else {
                    for n in 1..=(if g.is_empty() { 3 } else { 2 }) { forests(&mut b, n, &labels) }
                    if g.is_empty() { forests(&mut b, 4, &two); if !quick { forests(&mut b, 5, &two) } } else { forests(&mut b, 3, &two) }
                }
            }
            docs.push(b.done());
        }
    }
    let docs = &docs;
    let elements: usize = docs.iter().map(|d| d.els.len()).sum();
    ctx.extra.push(("elements_in_documents".into(), elements.to_string()));
    ctx.section("combinators", |c| {
        let len = 1 + c.choose(3);
        let n = if len == 3 { if quick { 10 } else { 14 } } else { COMPOUNDS.len() };
        let (text, k) = complex(c, len, n);
        let doc = if len == 3 { 0 } else { c.choose(docs.len()) };
        Some(SelCase { doc, text, list: vec![k] })
    }, |c| format!("doc {} {}", c.doc, c.text), |c| check_sel(docs, c));
    ctx.section("lists", |c| {
        let (t1, k1) = { let l = 1 + c.choose(2); complex(c, l, 6) };
        let (t2, k2) = complex(c, 1, 12);
        let (text, list) = match c.choose(4) {
            0 => (format!("{},{}", t1, t2), vec![k1, k2]),
            1 => (format!("{} , {}", t2, t1), vec![k1, k2]),
            2 => (format!("{},{}:nope", t1, t2), vec![]),
            _ => (format!("{},", t1), vec![]),
        };
        Some(SelCase { doc: 0, text, list })
    }, |c| c.text.clone(), |c| check_sel(docs, c));

    // Sibling lists for the structural pseudo-classes.
    let mut nth_docs = Vec::new();
    // (also with many nodes between the elements)
    let far: &'static str = Box::leak("<!--c-->".repeat(70).into_boxed_str());
    let far_text: &'static str = Box::leak("x<?p i?> <!--c-->".repeat(40).into_boxed_str());
    for g in GAPS.iter().copied().chain(vec![far, far_text]) {
        let mut b = B::new(false, g);
        for n in 1..=if g.len() > 99 { 4 } else { ctx.by(5, 7) } {
            for bits in 0..1usize << n {
                b.open("w", &[]);
                for i in 0..n { if i > 0 { b.gap() } b.open(if bits >> i & 1 == 0 { "a" } else { "b" }, &[]); b.end() }
                b.end();
            }
        }
        nth_docs.push(b.done());
    }
    let nth_docs = &nth_docs;
    ctx.section("nth", |c| {
        let doc = c.choose(nth_docs.len());
        let (of_type, last) = (c.flag(), c.flag());
        let a = c.choose(9) as i64 - 4;
        let b = c.choose(11) as i64 - 5;
        let f = match c.choose(6) {
            0 => if a == 0 { format!("{}", b) } else { format!("{}n{:+}", a, b) },
            1 => format!("{:+}n{:+}", a, b),
            2 => format!(" {}N {} {} ", a, if b < 0 { '-' } else { '+' }, b.abs()),
            3 => match (a, b) { (2, 0) => "even".into(), (2, 1) => "ODD".into(), (1, _) => format!("n{:+}", b), (-1, _) => format!("-n{:+}", b), _ => return None },
            4 => if b == 0 { format!("{}n", a) } else if a == 1 { format!("+n{:+}", b) } else { return None },
            _ => if a == 1 || a == -1 { format!("{}n {} {}", if a == 1 { "+" } else { "-" }, if b < 0 { '-' } else { '+' }, b.abs()) } else { return None },
        };
        let text = format!(":nth-{}{}({})", if last { "last-" } else { "" }, if of_type { "of-type" } else { "child" }, f);
        let s = S::Nth { of_type, last, a, b };
        let (text, s) = if c.flag() { (format!(":not({})", text), S::Not(Box::new(s))) } else { (text, s) };
        Some(SelCase { doc, text, list: vec![(vec![s], vec![])] })
    }, |c| format!("doc {} {}", c.doc, c.text), |c| check_sel(nth_docs, c));
    // What an element may contain and still be empty.
    let depth = ctx.by(4usize, 5);
    let mut empty_docs = Vec::new();
    for html in &[false, true] {
        let mut b = B::new(*html, "");
        let toks: &[(&str, bool)] = if *html { &[(" ", true), ("\n", true), ("\t", true), ("\u{a0}", true), ("\u{200b}", true), ("x", true), ("<!---->", false), ("<!-- x -->", false)] }
            else { &[(" ", true), ("\n", true), ("&#9;", true), ("\u{a0}", true), ("\u{200b}", true), ("x", true), ("<!---->", false), ("<?p i?>", false)] };
        b.open("w", &[]);
        for len in 0..=depth {
            for mut k in 0..toks.len().pow(len as u32) {
                b.open("b", &[]);
                for _ in 0..len { let (t, fill) = toks[k % toks.len()]; k /= toks.len(); b.d.src += t; if fill { b.fill() } }
                b.end();
            }
        }
        b.end();
        empty_docs.push(b.done());
    }
    let empty_docs = &empty_docs;
    ctx.section("empty", |c| {
        let doc = c.choose(empty_docs.len());
        let (text, k) = match c.choose(4) {
            0 => ("b:empty", vec![S::Type("b".into()), S::Empty]),
            1 => (":empty", vec![S::Empty]),
            2 => ("b:not(:empty)", vec![S::Type("b".into()), S::Not(Box::new(S::Empty))]),
            _ => ("b:only-child:empty", vec![S::Type("b".into()), S::Only, S::Empty]),
        };
        Some(SelCase { doc, text: text.into(), list: vec![(k, vec![])] })
    }, |c| format!("doc {} {}", c.doc, c.text), |c| check_sel(empty_docs, c));
    ctx.section("structural", |c| {
        let doc = c.choose(nth_docs.len());
        let all: &[(&str, S)] = &[("first-child", S::First), ("LAST-child", S::Last), ("only-child", S::Only), ("first-of-type", S::FirstT), ("last-of-type", S::LastT), ("only-of-type", S::OnlyT), ("Empty", S::Empty), ("root", S::Root)];
        let mut text = String::from(["", "a", "b", "*"][c.choose(4)]);
        let mut k: Compound = if text.is_empty() || text == "*" { vec![] } else { vec![S::Type(text.clone())] };
        for _ in 0..1 + c.choose(2) {
            let (t, s) = c.pick(all).clone();
            if c.flag() { text += &format!(":not(:{})", t); k.push(S::Not(Box::new(s))) } else { text += &format!(":{}", t); k.push(s) }
        }
        Some(SelCase { doc, text, list: vec![(k, vec![])] })
    }, |c| format!("doc {} {}", c.doc, c.text), |c| check_sel(nth_docs, c));

    // Attributes, classes and identifiers.
    let values = ["", "x", "X", "x y", "y x", "xy", "yx", "x-y", "X-y", "x-", "-x", "xyx", " x ", "x\ty", "y\nx", "x\u{a0}y", "y\u{c}x\ry", "Xy", "y  x", "xx", "é", "x y-x"];
    let mut at_docs = Vec::new();
    for html in &[false, true] {
        let mut b = B::new(*html, "");
        for v in &values {
            if !*html && v.contains('\u{c}') { continue } // not an XML character
            let mut names = vec!["a", "class", "id", "type"];
            if !*html { names.push("A") }
            for n in &names { b.open("w", &[("", n, v)]); b.end() }
            if !*html { b.raw("w", &[("n:", "a", v)], true, true, &format!("<w n:a=\"{}\">", esc(v).replace('\t', "&#9;").replace('\n', "&#10;").replace('\r', "&#13;"))); b.end() }
            b.open("w", &[("", "a", "q"), ("", "class", v), ("", "id", "q")]);
            b.end();
            if !*html {
                // the same local name in several namespaces, in both orders
                let e = esc(v).replace('\t', "&#9;").replace('\n', "&#10;").replace('\r', "&#13;");
                for n in &["a", "class", "id"] {
                    b.raw("w", &[("n:", n, v), ("", n, "q")], true, true, &format!("<w n:{}=\"{}\" {}=\"q\">", n, e, n)); b.end();
                    b.raw("w", &[("", n, "q"), ("n:", n, v)], true, true, &format!("<w {}=\"q\" n:{}=\"{}\">", n, n, e)); b.end();
                    b.raw("w", &[("n:", n, "q"), ("m:", n, "y"), ("", n, v)], true, true, &format!("<w n:{}=\"q\" xmlns:m=\"urn:m\" m:{}=\"y\" {}=\"{}\">", n, n, n, e)); b.end();
                }
            }
        }
        b.open("w", &[]);
        b.end();
        at_docs.push(b.done());
    }
    let at_docs = &at_docs;
    ctx.section("attributes", |c| {
        let doc = c.choose(2);
        let name = *c.pick(&["a", "A", "class", "id", "type", "Type", "z"]);
        let any = c.flag();
        let q = if any { "*|" } else { "" };
        let op = c.choose(7);
        if op == 6 { return Some(SelCase { doc, text: format!("[{}{}]", q, name), list: vec![(vec![S::Attr(any, name.into(), None)], vec![])] }) }
        let op = ["=", "~=", "|=", "^=", "$=", "*="][op];
        let v = *c.pick(&["", "x", "X", "x y", "xy", "y", "-", "x-", " ", "é", "É", "x\u{a0}y", "yX", "-y"]);
        let ident = !v.is_empty() && v.chars().all(|c| c.is_alphanumeric());
        let style = c.choose(3);
        let vt = match style { 0 => format!("\"{}\"", v), 1 => format!("'{}'", v), _ => if ident { v.to_string() } else { return None } };
        let ci = c.flag();
        let text = format!("[{}{}{}{}{}{}]", if style == 1 { " " } else { "" }, q, name, if style == 1 { format!(" {} ", op) } else { op.to_string() }, vt, if ci { [" i", "I", " i "][style] } else { "" });
        let text = if ci && style == 2 || !ci || style == 0 { text } else { text.replace("'I", "' I") };
        let s = S::Attr(any, name.into(), Some((op, v.to_string(), ci)));
        let (text, s) = if c.flag() { (format!(":not({})", text), S::Not(Box::new(s))) } else { (text, s) };
        Some(SelCase { doc, text, list: vec![(vec![s], vec![])] })
    }, |c| format!("doc {} {}", c.doc, c.text), |c| check_sel(at_docs, c));
    ctx.section("classes", |c| {
        let doc = c.choose(2);
        let names = [("x", "x"), ("X", "X"), ("y", "y"), ("xy", "xy"), ("x-y", "x-y"), ("\\78", "x"), ("x\\a0y", "x\u{a0}y"), ("é", "é"), ("-x", "-x"), ("xx", "xx"), ("x\\ y", "x y"), ("x-", "x-")];
        let mut text = String::new();
        let mut k = vec![];
        for _ in 0..1 + c.choose(2) {
            let id = c.flag();
            let neg = c.flag();
            let (t, n) = c.pick(&names);
            let s = if id { S::Id(n.to_string()) } else { S::Class(n.to_string()) };
            let t = format!("{}{}", if id { '#' } else { '.' }, t);
            if neg { text += &format!(":not({})", t); k.push(S::Not(Box::new(s))) } else { text += &t; if text.ends_with("\\78") { text += " " } k.push(s) }
        }
        // (a space ends the escape, at the end of the selector too)
        if text.contains("\\78 .") || text.contains("\\78 #") { }
        Some(SelCase { doc, text, list: vec![(k, vec![])] })
    }, |c| format!("doc {} {}", c.doc, c.text), |c| check_sel(at_docs, c));

    // Spelling of selectors: white space, comments, case, namespaces, and what is not a selector.
    let mut sy = Vec::new();
    {
        let mut b = B::new(false, "");
        b.open("a", &[("", "class", "c")]); b.open("b", &[("", "id", "i")]); b.end(); b.open("a", &[]); b.end(); b.end();
        b.open("b", &[("", "class", "c d")]); b.end();
        b.raw("a", &[], false, true, "<a xmlns=\"\">"); b.raw("b", &[("", "class", "c")], false, true, "<b class=\"c\">"); b.end(); b.end();
        b.open("A", &[]); b.end();
        sy.push(b.done());
        let mut b = B::new(true, "");
        b.open("w", &[("", "class", "c")]); b.open("r", &[("", "id", "i")]); b.end(); b.open("w", &[]); b.end(); b.end();
        b.open("r", &[("", "class", "c d")]); b.end();
        // (elements of SVG keep their case, and are matched case-sensitively)
        b.raw("svg", &[], false, true, "<svg>"); b.raw("foreignObject", &[("", "class", "c")], false, true, "<foreignObject class=c>"); b.end_as("</foreignObject>"); b.end_as("</svg>");
        sy.push(b.done());
    }
    let sy = &sy;
    let a = || vec![S::Type("a".into())];
    let b = || vec![S::Type("b".into())];
    let one = |k: Compound| vec![(k, vec![])];
    let cc = || S::Class("c".into());
    let spell: Vec<(&str, Vec<Complex>)> = vec![
        ("a.c", one(vec![a().remove(0), cc()])), (" a ", one(a())), ("/**/a/**/", one(a())), ("a,b", vec![(a(), vec![]), (b(), vec![])]), ("a/**/,/**/b", vec![(a(), vec![]), (b(), vec![])]), ("a ,\nb", vec![(a(), vec![]), (b(), vec![])]),
        ("a b", vec![(b(), vec![(Comb::Desc, a())])]), ("a  \n\tb", vec![(b(), vec![(Comb::Desc, a())])]), ("a/**/ b", vec![(b(), vec![(Comb::Desc, a())])]), ("a /**/b", vec![(b(), vec![(Comb::Desc, a())])]), ("a /**/ /**/ b", vec![(b(), vec![(Comb::Desc, a())])]),
        ("a>b", vec![(b(), vec![(Comb::Child, a())])]), ("a> b", vec![(b(), vec![(Comb::Child, a())])]), ("a >b", vec![(b(), vec![(Comb::Child, a())])]), ("a/**/>/**/b", vec![(b(), vec![(Comb::Child, a())])]), ("a + b", vec![(b(), vec![(Comb::Next, a())])]), ("a\n~\tb", vec![(b(), vec![(Comb::Later, a())])]),
        ("*|a", one(a())), ("*|*", one(vec![S::Any])), ("*.c", one(vec![cc()])), (".c.d", one(vec![cc(), S::Class("d".into())])), (".\\63", one(vec![cc()])), (".\\000063", one(vec![cc()])), ("\\61", one(a())), ("|a", one(vec![S::NoNamespace, S::Type("a".into())])), ("*|b.c", one(vec![b().remove(0), cc()])),
        (":ROOT", one(vec![S::Root])), (":First-Child", one(vec![S::First])), (":NOT(a)", one(vec![S::Not(Box::new(S::Type("a".into())))])), (":not( a )", one(vec![S::Not(Box::new(S::Type("a".into())))])), (":not(*)", one(vec![S::Not(Box::new(S::Any))])), (":not(a):not(.c)", one(vec![S::Not(Box::new(S::Type("a".into()))), S::Not(Box::new(cc()))])),
        ("b:not(#i)", one(vec![b().remove(0), S::Not(Box::new(S::Id("i".into())))])), ("*:first-child", one(vec![S::First])), ("#i#i", one(vec![S::Id("i".into())])), ("A", one(vec![S::Type("A".into())])), ("B", one(vec![S::Type("B".into())])), ("W", one(vec![S::Type("W".into())])), ("R.c", one(vec![S::Type("R".into()), cc()])), ("w>R", vec![(vec![S::Type("R".into())], vec![(Comb::Child, vec![S::Type("w".into())])])]),
        ("foreignObject", one(vec![S::Type("foreignObject".into())])), ("foreignobject", one(vec![S::Type("foreignobject".into())])), ("SVG", one(vec![S::Type("SVG".into())])), ("svg", one(vec![S::Type("svg".into())])),
        ("", vec![]), (",", vec![]), ("a,", vec![]), (",a", vec![]), ("a,,b", vec![]), (">a", vec![]), ("a>", vec![]), ("a>>b", vec![]), ("a> >b", vec![]), ("a+~b", vec![]), ("*a", vec![]), ("a*", vec![]), ("q|a", vec![]), ("#1", vec![]), ("##i", vec![]), ("# i", vec![]), (".1", vec![]), (". c", vec![]), ("a:", vec![]), ("a::", vec![]), ("a:nope", vec![]), ("a::nope", vec![]), ("a:not()", vec![]), ("a:not", vec![]), (":nth-child()", vec![]), (":nth-child(x)", vec![]), (":nth-child(2 n)", vec![]), (":nth-child(n + - 1)", vec![]), (":nth-child(n +)", vec![]), (":nth-child(1.5)", vec![]), (":nth-child", vec![]), (":root()", vec![]), (":first-child(1)", vec![]),
        ("[]", vec![]), ("[a", vec![]), ("[=x]", vec![]), ("[class==c]", vec![]), ("[class=]", vec![]), ("[class=1]", vec![]), ("[class='c' x]", vec![]), ("[class='c' i i]", vec![]), ("[class ='c'j]", vec![]), ("[class~ =c]", vec![]), ("a]", vec![]), ("a)", vec![]), ("(a)", vec![]), ("a!", vec![]), ("a;", vec![]), ("a/b", vec![]), ("a % b", vec![]), ("a\"b\"", vec![]), ("5a", vec![]), ("-", vec![]), ("a|", vec![]), ("*|", vec![]), ("a .", vec![]), ("a@b", vec![]), ("a, b:nope, *", vec![]),
        ("a/**/b", vec![]), ("[/**/class/**/=/**/c d/**/]", vec![]),
    ];
    let spell = &spell;
    ctx.section("spelling", |c| {
        let doc = c.choose(sy.len());
        let (t, l) = c.pick(spell);
        Some(SelCase { doc, text: t.to_string(), list: l.clone() })
    }, |c| format!("doc {} {}", c.doc, c.text), |c| check_sel(sy, c));
    // Only ASCII letters are case-insensitive; what merely looks like, or folds to, a letter, digit or space is something else.
    let mut base: Vec<String> = spell.iter().filter(|x| !x.1.is_empty() && !x.0.contains(',') && !x.0.to_lowercase().contains("not")).map(|x| x.0.to_string()).collect();
    for t in &[":nth-child(even)", ":nth-last-of-type(odd)", ":nth-child(2n+1)", ":nth-last-child(3)", ":only-child", ":empty", ":first-of-type", "[class='c' i]", "[id=i I]", "[class~=d]", "[id|=\"i\"]", "r.c", "w>r"] { base.push(t.to_string()) }
    let look: Vec<String> = base.iter().flat_map(|t| crate::css::lookalikes(t)).collect();
    let look = &look;
    ctx.section("lookalikes", |c| {
        let doc = c.choose(sy.len());
        Some(SelCase { doc, text: c.pick(look).clone(), list: vec![] })
    }, |c| format!("doc {} {}", c.doc, c.text), |c| check_sel(sy, c));
}
impl B { fn end_as(&mut self, tag: &str) { self.close(tag) } }
/// HTML elements that the parser nests freely, under the names used by the selectors.
fn html_forests(b: &mut B) {
    let none: &[(&'static str, &str, &str)] = &[];
    let l: Vec<(&'static str, &[(&'static str, &str, &str)])> = vec![("w", none), ("r", &[("", "class", "c")]), ("w", &[("", "id", "i")])];
    for n in 1..=3 { forests(b, n, &l) }
}

// ---------------------------------------------------------------- C14

#[derive(Clone, Copy, PartialEq, Debug)]
enum Tk { Id(&'static str), At, Hash(u32), Str, BadStr, Num, Colon, Semi, Comma, Bang, Gt, Open(u8), Close(u8), Cdo, Cdc, Ws }
#[derive(Clone, Debug)]
enum Cv { T(Tk), Block(u8, Vec<Cv>) }
/// Component values (CSS Syntax, "consume a component value"): unmatched closing brackets stay tokens.
fn cvs(t: &[Tk], pos: &mut usize, end: Option<u8>) -> Vec<Cv> {
    let mut v = Vec::new();
    while *pos < t.len() {
        let k = t[*pos];
        *pos += 1;
        match k {
            Tk::Close(c) if Some(c) == end => return v,
            Tk::Open(c) => { let b = cvs(t, pos, Some(c)); v.push(Cv::Block(c, b)) }
            k => v.push(Cv::T(k)),
        }
    }
    v
}
fn is(c: &Cv, t: Tk) -> bool { match c { Cv::T(k) => *k == t, _ => false } }
fn trim(v: &[Cv]) -> &[Cv] {
    let mut v = v;
    while let Some((h, t)) = v.split_first() { if is(h, Tk::Ws) { v = t } else { break } }
    while let Some((h, t)) = v.split_last() { if is(h, Tk::Ws) { v = t } else { break } }
    v
}
/// (matches x, matches y) of a selector list, None if it is not valid.
fn selectors(v: &[Cv]) -> Option<(bool, bool)> {
    let mut r = (false, false);
    for part in v.split(|c| is(c, Tk::Comma)) {
        let part = trim(part);
        if part.is_empty() { return None }
        // compounds and combinators
        let mut compounds: Vec<(Option<&'static str>, bool)> = Vec::new(); // type, has attribute selectors
        let mut i = 0;
        let mut want = true; // a compound is required here
        while i < part.len() {
            let mut comb = false;
            let mut gt = false;
            while i < part.len() && (is(&part[i], Tk::Ws) || is(&part[i], Tk::Gt)) { if is(&part[i], Tk::Gt) { if gt { return None } gt = true } comb = true; i += 1 }
            if comb && gt && (compounds.is_empty() || i == part.len()) { return None }
            if !comb && !want { return None }
            if i == part.len() { break }
            let mut name = None;
            let mut attr = false;
            let start = i;
            if let Cv::T(Tk::Id(n)) = &part[i] { name = Some(*n); i += 1 }
            while i < part.len() {
                match &part[i] {
                    Cv::Block(b'[', k) => { let k = trim(k); if k.len() != 1 { return None } match k[0] { Cv::T(Tk::Id(_)) => {} _ => return None } attr = true; i += 1 }
                    Cv::T(Tk::Ws) | Cv::T(Tk::Gt) => break,
                    _ => return None,
                }
            }
            if i == start { return None }
            compounds.push((name, attr));
            want = false;
        }
        if compounds.len() == 1 && !compounds[0].1 {
            if compounds[0].0 == Some("x") { r.0 = true }
            if compounds[0].0 == Some("y") { r.1 = true }
        }
    }
    Some(r)
}
/// Declarations of a declaration list: (colour, important).
fn declarations(v: &[Cv]) -> Vec<(u32, bool)> {
    let mut out = Vec::new();
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            Cv::T(Tk::Ws) | Cv::T(Tk::Semi) => { i += 1; continue }
            Cv::T(Tk::At) => { // up to a semicolon or a block
                i += 1;
                while i < v.len() { let stop = match &v[i] { Cv::T(Tk::Semi) => true, Cv::Block(b'{', _) => true, _ => false }; i += 1; if stop { break } }
                continue;
            }
            _ => {}
        }
        let start = i;
        while i < v.len() && !is(&v[i], Tk::Semi) { i += 1 }
        let d = trim(&v[start..i]);
        if let Cv::T(Tk::Id("background-color")) = &d[0] {
            let rest = trim(&d[1..]);
            if let Some((Cv::T(Tk::Colon), val)) = rest.split_first() {
                let val: Vec<&Cv> = trim(val).iter().filter(|c| !is(c, Tk::Ws)).collect();
                match val.as_slice() {
                    [Cv::T(Tk::Hash(c))] => out.push((*c, false)),
                    [Cv::T(Tk::Hash(c)), Cv::T(Tk::Bang), Cv::T(Tk::Id("important"))] => out.push((*c, true)),
                    _ => {}
                }
            }
        }
    }
    out
}
/// Style rules of a style sheet: (x, y, declarations).
fn stylesheet(v: &[Cv]) -> Vec<(bool, bool, Vec<(u32, bool)>)> {
    let mut out = Vec::new();
    let mut i = 0;
    while i < v.len() {
        if is(&v[i], Tk::Ws) || is(&v[i], Tk::Cdo) || is(&v[i], Tk::Cdc) { i += 1; continue }
        let at = is(&v[i], Tk::At);
        let start = i;
        let mut block = None;
        while i < v.len() {
            i += 1;
            match &v[i - 1] { Cv::Block(b'{', k) => { block = Some((k, i - 1)); break } Cv::T(Tk::Semi) if at => break, _ => {} }
        }
        if at { continue }
        if let Some((k, end)) = block { if let Some((x, y)) = selectors(&v[start..end]) { out.push((x, y, declarations(k))) } }
    }
    out
}
const TOKENS: &[(&str, &[Tk])] = &[
    ("{", &[Tk::Open(b'{')]), ("}", &[Tk::Close(b'{')]), (";", &[Tk::Semi]), (":", &[Tk::Colon]), ("x", &[Tk::Id("x")]), ("background-color:#00f", &[Tk::Id("background-color"), Tk::Colon, Tk::Hash(0x0000ff)]), ("background-color:#f00!important", &[Tk::Id("background-color"), Tk::Colon, Tk::Hash(0xff0000), Tk::Bang, Tk::Id("important")]),
    ("@foo", &[Tk::At]), ("(", &[Tk::Open(b'(')]), ("]", &[Tk::Close(b'[')]), ("!", &[Tk::Bang]), (",", &[Tk::Comma]), ("\"s\"", &[Tk::Str]), ("[", &[Tk::Open(b'[')]), (")", &[Tk::Close(b'(')]), ("f(", &[Tk::Open(b'(')]), ("\"s\n", &[Tk::BadStr, Tk::Ws]), ("y", &[Tk::Id("y")]), ("background-color:5px", &[Tk::Id("background-color"), Tk::Colon, Tk::Num]),
    ("important", &[Tk::Id("important")]), ("<!--", &[Tk::Cdo]), ("-->", &[Tk::Cdc]), (">", &[Tk::Gt]), ("background-color", &[Tk::Id("background-color")]), ("#0f0", &[Tk::Hash(0x00ff00)]),
];
pub struct Err14 { src: String, toks: Vec<Tk>, attr: Option<Vec<Tk>> }
fn check14(c: &Err14) -> Outcome {
    let p = match render_xml(c.src.as_bytes()) { Ok(p) => p, Err(e) => return fail("bad-output", e) };
    let mut got = [0u32; 2];
    for p in &p { match p { Paint::Rect { y, rgb, .. } => got[(*y > 2.5) as usize] = rgb_id(rgb), _ => return fail("paint", "unexpected text".to_string()) } }
    let rules = stylesheet(&cvs(&c.toks, &mut 0, None));
    let mut want = [0u32; 2];
    for e in 0..2 {
        for imp in &[false, true] {
            for r in &rules { if if e == 0 { r.0 } else { r.1 } { for d in &r.2 { if d.1 == *imp { want[e] = d.0 } } } }
            if e == 0 { if let Some(a) = &c.attr { for d in declarations(&cvs(a, &mut 0, None)) { if d.1 == *imp { want[0] = d.0 } } } }
        }
    }
    if got == want { Ok(fp(&want)) } else { fail("recovery", format!("x, y painted {:06x?}, expected {:06x?} (0: nothing)", got, want)) }
}
/// Wrap enumerated tokens into a context: (prefix, suffix) as text and tokens; the style attribute is the last context.
fn contexts() -> Vec<(&'static str, Vec<Tk>, &'static str, Vec<Tk>)> {
    let x = |c| vec![Tk::Id("x"), Tk::Open(b'{'), Tk::Id("background-color"), Tk::Colon, Tk::Hash(c), Tk::Close(b'{')];
    let y = |c| vec![Tk::Id("y"), Tk::Open(b'{'), Tk::Id("background-color"), Tk::Colon, Tk::Hash(c), Tk::Close(b'{')];
    let d = |c| vec![Tk::Id("background-color"), Tk::Colon, Tk::Hash(c)];
    vec![
        ("", vec![], "x{background-color:#ff0}y{background-color:#f0f}", [x(0xffff00), y(0xff00ff)].concat()),
        ("x{", vec![Tk::Id("x"), Tk::Open(b'{')], "}y{background-color:#f0f}", [vec![Tk::Close(b'{')], y(0xff00ff)].concat()),
        ("x{background-color:#ff0;", [vec![Tk::Id("x"), Tk::Open(b'{')], d(0xffff00), vec![Tk::Semi]].concat(), ";background-color:#0ff}y{background-color:#f0f}", [vec![Tk::Semi], d(0x00ffff), vec![Tk::Close(b'{')], y(0xff00ff)].concat()),
        ("x{background-color:#ff0}", x(0xffff00), "{background-color:#0ff}y{background-color:#f0f}", [vec![Tk::Open(b'{')], d(0x00ffff), vec![Tk::Close(b'{')], y(0xff00ff)].concat()),
        ("y{background-color:#f0f}x{background-color:", [y(0xff00ff), vec![Tk::Id("x"), Tk::Open(b'{'), Tk::Id("background-color"), Tk::Colon]].concat(), "", vec![]),
        ("", vec![], "", vec![]),
    ]
}
fn c14_sequences(ctx: &mut Ctx, label: &str, n: usize, exact: bool, alphabet: usize, joins: &'static [&'static str]) {
    let cx = contexts();
    let cx = &cx;
    ctx.section(label, |c| {
        let k = c.choose(cx.len());
        let len = if exact { n } else { 1 + c.choose(n) };
        let join = *c.pick(joins);
        let mut text = String::new();
        let mut toks = Vec::new();
        for i in 0..len {
            let (s, t) = TOKENS[c.choose(alphabet)];
            if i > 0 { text += join; if join == " " { toks.push(Tk::Ws) } }
            text += s;
            toks.extend_from_slice(t);
        }
        let last = k == cx.len() - 1;
        let mut sheet = String::from("r,x,y{display:block}x,y{height:5px}");
        let attr;
        let toks = if last {
            attr = Some(toks);
            sheet += "x{background-color:#ff0}y{background-color:#f0f}";
            cx[0].3.clone()
        } else {
            attr = None;
            sheet = sheet.clone() + "</style><style>" + &esc(&format!("{}{}{}{}{}", cx[k].0, join, text, join, cx[k].2));
            let w = if join == " " { vec![Tk::Ws] } else { vec![] };
            [cx[k].1.clone(), w.clone(), toks, w, cx[k].3.clone()].concat()
        };
        Some(Err14 { src: format!("<r xmlns=\"{}\"><style>{}</style><x{}/><y/></r>", XHTML, sheet, if last { format!(" style=\"{}\"", esc(&text).replace('\n', "&#10;")) } else { String::new() }), toks, attr })
    }, |c| c.src.clone(), check14);
}

pub fn c14(ctx: &mut Ctx) {
    ctx.assumptions.push("the reference is an independent parser of CSS Syntax Level 3 on the same text; a rule counts as kept if it visibly applies; sheets of up to 30000 levels".into());
    let all = TOKENS.len();
    c14_sequences(ctx, "tokens", 3, false, all, &[" ", "/**/"]);
    if ctx.quick() { c14_sequences(ctx, "longer", 4, true, all, &[" "]) }
    else { c14_sequences(ctx, "longer", 4, true, all, &[" ", "/**/"]); c14_sequences(ctx, "longest", 5, true, 18, &[" "]) }
    // Arbitrary characters: nothing may panic or hang, and what follows a well-defined resynchronisation point still applies.
    let depth = ctx.by(3, 4);
    ctx.section("characters", |c| {
        let chars = ['{', '}', ';', ':', '!', '@', '#', '\\', '"', '\'', '/', '*', '(', '[', '-', '.', '0', 'a', '%', '\n', 'é', '<', '>', '|', '~', '+', 'u', '\u{fffd}', ',', ')', ']', '&'];
        let place = c.choose(4);
        let s: String = (0..1 + c.choose(depth)).map(|_| *c.pick(&chars)).collect();
        let e = esc(&s).replace('\n', "&#10;");
        let (sheet, attr) = match place { 0 => (e, String::new()), 1 => (format!("x{{{}}}", e), String::new()), 2 => (format!("x{{background-color:{}}}", e), String::new()), _ => (String::new(), e) };
        Some(format!("<r xmlns=\"{}\"><style>r,x,y{{display:block}}x,y{{height:5px}}y{{background-color:#f0f}}</style><style>{}</style><x style=\"{}\"/><y/></r>", XHTML, sheet, attr))
    }, |s| s.clone(), |s| match render_xml(s.as_bytes()) {
        Ok(p) => if p.len() == 1 { Ok(fp(s)) } else if p.iter().all(|p| match p { Paint::Rect { .. } => true, _ => false }) && p.len() == 2 { Ok(1) } else { fail("recovery", format!("{} items painted", p.len())) },
        Err(e) => fail("bad-output", e),
    });
    // Deep nesting of brackets and blocks.
    ctx.section("nesting", |c| {
        let open = *c.pick(&["{", "(", "[", "x{", "f(", "@m{", "@m x{", ":not(", "[a=", "(;", "{;", "{x:"]);
        let n = *c.pick(&[1usize, 2, 3, 10, 50, 126, 127, 128, 129, 200, 3000, 30000]);
        let close = c.flag();
        let body = open.repeat(n) + &if close { (0..n).map(|_| match open.trim_start_matches(|c: char| c.is_alphanumeric() || "@: ".contains(c)).chars().next() { Some('(') => ')', Some('[') => ']', _ => '}' }).collect::<String>() } else { String::new() };
        Some((format!("<r xmlns=\"{}\"><style>r,x,y{{display:block}}x,y{{height:5px}}y{{background-color:#f0f}}{}{}</style><x{}/><y/></r>", XHTML, if c.flag() { "x{" } else { "" }, esc(&body), if c.flag() { format!(" style=\"{}\"", esc(&body)) } else { String::new() }), n))
    }, |s| s.0.clone(), |s| match render_xml(s.0.as_bytes()) { Ok(p) => if p.len() == 1 { Ok(fp(&s.0)) } else { fail("recovery", format!("{} items painted", p.len())) }, Err(e) => fail("bad-output", e) });
}
