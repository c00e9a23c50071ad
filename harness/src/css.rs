//! C11-C16: cascade, inheritance, selectors, error recovery, value grammar, shorthands.
use crate::dom::*;
use crate::engine::*;
use crate::layout::*;
use crate::refl::*;

#[derive(Clone, PartialEq, Debug)]
pub enum V { Len(f64), Em(f64), Pct(f64), Auto, Color(Col), Pos(Pos), Disp(Disp), Solid(bool), Inherit, Initial, Unset }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum P { FontSize, Color, Position, Display, Off(usize), W, H, M(usize), Pd(usize), Bc(usize), Bs(usize), Bw(usize), Bg }
pub fn longhands() -> Vec<P> {
    let mut v = vec![P::FontSize, P::Color, P::Position, P::Display, P::W, P::H, P::Bg];
    for k in 0..4 { v.extend_from_slice(&[P::Off(k), P::M(k), P::Pd(k), P::Bs(k), P::Bw(k)]) }
    v
}
pub fn name(p: P) -> String {
    match p {
        P::FontSize => "font-size".into(), P::Color => "color".into(), P::Position => "position".into(), P::Display => "display".into(),
        P::Off(k) => SIDES[k].into(), P::W => "width".into(), P::H => "height".into(), P::M(k) => format!("margin-{}", SIDES[k]), P::Pd(k) => format!("padding-{}", SIDES[k]),
        P::Bc(k) => format!("border-{}-color", SIDES[k]), P::Bs(k) => format!("border-{}-style", SIDES[k]), P::Bw(k) => format!("border-{}-width", SIDES[k]), P::Bg => "background-color".into(),
    }
}
pub fn value_css(v: &V) -> String {
    match v {
        V::Len(x) => format!("{}px", x), V::Em(x) => format!("{}em", x), V::Pct(x) => format!("{}%", x), V::Auto => "auto".into(),
        V::Color(Col::Cur) => "currentColor".into(), V::Color(Col::Rgba(c)) => hex(*c),
        V::Pos(p) => match p { Pos::Static => "static", Pos::Relative => "relative", Pos::Absolute => "absolute" }.into(),
        V::Disp(d) => match d { Disp::None => "none", Disp::Contents => "contents", Disp::Inline => "inline", Disp::Block => "block", Disp::FlowRoot => "flow-root" }.into(),
        V::Solid(s) => if *s { "solid" } else { "none" }.into(),
        V::Inherit => "inherit".into(), V::Initial => "initial".into(), V::Unset => "unset".into(),
    }
}
fn get(c: &Cs, p: P) -> V {
    let l = |l: L| match l { L::Px(v) => V::Len(v), L::Pct(v) => V::Pct(v), L::Auto => V::Auto };
    match p {
        P::FontSize => V::Len(c.fs), P::Color => V::Color(Col::Rgba(c.color)), P::Position => V::Pos(c.pos),
        // absolute positioning blockifies
        P::Display => V::Disp(if c.pos == Pos::Absolute && c.disp == Disp::Inline { Disp::Block } else { c.disp }),
        P::Off(k) => l(c.off[k]), P::W => l(c.w), P::H => l(c.h), P::M(k) => l(c.m[k]), P::Pd(k) => l(c.p[k]),
        P::Bc(_) => V::Color(Col::Cur), P::Bs(k) => V::Solid(c.bs[k]), P::Bw(k) => if c.bs[k] { l(c.bw[k]) } else { V::Len(0.) }, P::Bg => V::Color(c.bg),
    }
}
/// Computed style from the winning declarations of an element, in any order (later ones replace earlier ones).
pub fn apply(parent: &Cs, decls: &[(P, V)]) -> Cs {
    let init = Cs::initial();
    let mut c = init.clone();
    c.fs = parent.fs;
    c.color = parent.color;
    for early in &[true, false] {
        for (p, v) in decls {
            if (*p == P::FontSize) != *early { continue }
            let v = match v {
                // (the root element inherits initial values)
                V::Inherit => if *parent == init { if let P::Bw(_) = p { V::Len(3.) } else { get(parent, *p) } } else { get(parent, *p) },
                // the initial border width is medium whatever the style
                V::Initial => if let P::Bw(_) = p { V::Len(3.) } else { get(&init, *p) },
                V::Unset => if *p == P::FontSize || *p == P::Color { get(parent, *p) } else if let P::Bw(_) = p { V::Len(3.) } else { get(&init, *p) },
                v => v.clone(),
            };
            let len = |v: &V, em: f64| match v { V::Len(x) => L::Px(*x), V::Em(x) => L::Px(x * em), V::Pct(x) => L::Pct(*x), V::Auto => L::Auto, v => panic!("{:?} {:?}", p, v) };
            match p {
                P::FontSize => c.fs = match len(&v, parent.fs) { L::Px(x) => x, _ => panic!() },
                P::Color => c.color = match v { V::Color(Col::Rgba(x)) => x, V::Color(Col::Cur) => parent.color, _ => panic!() },
                P::Position => c.pos = match v { V::Pos(x) => x, _ => panic!() },
                P::Display => c.disp = match v { V::Disp(x) => x, _ => panic!() },
                P::Off(k) => c.off[*k] = len(&v, c.fs),
                P::W => c.w = len(&v, c.fs),
                P::H => c.h = len(&v, c.fs),
                P::M(k) => c.m[*k] = len(&v, c.fs),
                P::Pd(k) => c.p[*k] = len(&v, c.fs),
                P::Bc(_) => {}
                P::Bs(k) => c.bs[*k] = match v { V::Solid(x) => x, _ => panic!() },
                P::Bw(k) => c.bw[*k] = len(&v, c.fs),
                P::Bg => c.bg = match v { V::Color(x) => x, _ => panic!() },
            }
        }
    }
    c
}

/// Declarations that make a property observable.
fn context(p: P) -> Vec<(P, V)> {
    let mut v = vec![(P::Display, V::Disp(Disp::Block))];
    match p {
        P::Off(k) => { v.push((P::Position, V::Pos(Pos::Relative))); v.push((P::H, V::Len(50.))); let _ = k; }
        P::Position => { v.push((P::Off(0), V::Len(3.))); v.push((P::Off(3), V::Len(7.))); v.push((P::W, V::Len(80.))) }
        P::Bw(k) => v.push((P::Bs(k), V::Solid(true))),
        P::Bs(k) => v.push((P::Bw(k), V::Len(5.))),
        P::M(_) => v.push((P::Pd(0), V::Len(1.))),
        P::H => v.push((P::Pd(2), V::Len(1.))),
        _ => {}
    }
    v.retain(|d| d.0 != p);
    v
}
pub fn css(d: &[(P, V)]) -> String { d.iter().map(|(p, v)| format!("{}:{};", name(*p), value_css(v))).collect() }

/// A document as (XHTML source, expected styled tree).
pub struct Case { pub src: String, pub tree: Node, pub ordered: bool, pub alt: Vec<(String, Node)> }
pub fn show_case(c: &Case) -> String { c.src.clone() }
pub fn check_case(c: &Case) -> Outcome {
    let got = match if c.src.starts_with("<!DOCTYPE") { render(c.src.as_bytes()) } else { render_xml(c.src.as_bytes()) } { Ok(p) => visible(p), Err(e) => return fail("bad-output", e) };
    let h = fp_paint(&got);
    match diff(got.clone(), visible(Ref::render(&c.tree, Breaks::Css)), c.ordered) {
        Ok(()) => Ok(h),
        Err(e) => {
            for (key, t) in &c.alt { if diff(got.clone(), visible(Ref::render(t, Breaks::Css)), c.ordered).is_ok() { return fail(key, e) } }
            fail("style", e)
        }
    }
}
pub fn has_abs(n: &Node) -> bool { match n { Node::Text(_) => false, Node::El(c, k) => c.pos == Pos::Absolute || k.iter().any(has_abs) } }

pub fn esc(s: &str) -> String { s.replace('&', "&amp;").replace('<', "&lt;").replace("]]>", "]]&gt;").replace('"', "&quot;") }

/// root > e > k, with the same context on the three levels, and a declaration text for each level.
fn three_levels(p: P, specific: &[(String, Option<(P, V)>); 3]) -> Option<Case> { three_levels_of(p, specific, None) }
fn three_levels_of(p: P, specific: &[(String, Option<(P, V)>); 3], alt: Option<(String, Option<(P, V)>)>) -> Option<Case> {
    let ctx = context(p);
    let mut sheet = format!("r,e,k{{{}}}", css(&ctx));
    let bgs = ["#c80000", "#009600", "#0000dc"];
    let mut src = String::new();
    let _ = &mut src;
    for (i, n) in ["r", "e", "k"].iter().enumerate() {
        if p != P::Bg { sheet += &format!("{}{{background-color:{}}}", n, bgs[i]) }
        sheet += &format!("{}{{{}}}", n, specific[i].0);
    }
    let mk = |last: &Option<(P, V)>| {
        let mut parent = Cs::initial();
        let mut st = Vec::new();
        for i in 0..3 {
            let mut d = ctx.clone();
            if p != P::Bg { d.push((P::Bg, V::Color(Col::Rgba([[200, 0, 0, 255], [0, 150, 0, 255], [0, 0, 220, 255]][i])))) }
            let s = if i == 2 { last } else { &specific[i].1 };
            if let Some(s) = s { d.push(s.clone()) }
            let c = apply(&parent, &d);
            parent = c.clone();
            st.push(c);
        }
        // (white space only: texts tell colour and font size)
        let k = el(st[2].clone(), vec![text("k")]);
        let e = el(st[1].clone(), vec![text("e"), k, text("f")]);
        el(st[0].clone(), vec![text("r"), e])
    };
    let tree = mk(&specific[2].1);
    let alt = alt.map(|(key, d)| (key, mk(&d))).into_iter().collect();
    let src = format!("<r xmlns=\"{}\"><style>{}</style>r<e>e<k>k</k>f</e></r>", XHTML, esc(&sheet));
    let ordered = !has_abs(&tree);
    Some(Case { src, tree, ordered, alt })
}

/// Level-specific ordinary values of a property.
fn sample(p: P, level: usize, which: usize) -> V {
    let k = level as f64;
    let w = which as f64;
    match p {
        P::FontSize => if which == 0 { V::Len(12. + 4. * k) } else { V::Em(1.25) },
        P::Color => V::Color(if which == 0 { Col::Rgba([100 + 50 * level as u8, 0, 50, 255]) } else { Col::Cur }),
        P::Bg => V::Color(if which == 0 { Col::Rgba([0, 100 + 50 * level as u8, 50, 255]) } else { Col::Cur }),
        P::Position => V::Pos([Pos::Relative, Pos::Absolute][which]),
        P::Display => V::Disp(if level == 0 { [Disp::Block, Disp::FlowRoot][which] } else { [Disp::Inline, Disp::FlowRoot, Disp::None, Disp::Contents][(which + level) % 4] }),
        P::Bs(_) => V::Solid(which == 0),
        P::Bw(_) => if which == 0 { V::Len(4. + k) } else { V::Em(0.5) },
        P::Bc(_) => V::Color(Col::Cur),
        P::Off(_) | P::W | P::H | P::M(_) | P::Pd(_) => if which == 0 { V::Len(20. + 11. * k + w) } else { V::Pct(5. + 2. * k) },
    }
}

pub fn c12(ctx: &mut Ctx) {
    ctx.assumptions.push("observed through the reference layout of C17 and C20 and the painted colours; inherit/initial/unset are the CSS-wide keywords Victor knows".into());
    ctx.section("keywords on three levels", |c| {
        let all = longhands();
        let p = *c.pick(&all);
        let mut sp: Vec<(String, Option<(P, V)>)> = Vec::new();
        for level in 0..3 {
            let v = match c.choose(6) { 0 => None, 1 => Some(V::Inherit), 2 => Some(V::Initial), 3 => Some(V::Unset), k => Some(sample(p, level, k - 4)) };
            sp.push((v.as_ref().map_or(String::new(), |v| format!("{}:{}", name(p), value_css(v))), v.map(|v| (p, v))));
        }
        let mut it = sp.into_iter();
        three_levels(p, &[it.next().unwrap(), it.next().unwrap(), it.next().unwrap()])
    }, show_case, check_case);
    // Longer chains of inheritance.
    let levels = ctx.by(4usize, 5);
    ctx.section("longer chains", |c| {
        let p = *c.pick(&[P::FontSize, P::Color, P::W, P::Bg, P::M(3), P::Pd(0)]);
        let mut sheet = String::new();
        let mut parent = Cs::initial();
        let mut st: Vec<Cs> = Vec::new();
        let mut src = String::new();
        for i in 0..levels {
            let v = match c.choose(6) { 0 => None, 1 => Some(V::Inherit), 2 => Some(V::Initial), 3 => Some(V::Unset), k => Some(sample(p, i, k - 4)) };
            let mut d = vec![(P::Display, V::Disp(Disp::Block))];
            if p != P::Bg { d.push((P::Bg, V::Color(bg(i)))) }
            if let Some(v) = v { d.push((p, v)) }
            if i > 0 { src += &format!("<e{}>", i) }
            sheet += &format!("{}{{{}}}", if i == 0 { "r".into() } else { format!("e{}", i) }, css(&d));
            let cs = apply(&parent, &d);
            parent = cs.clone();
            st.push(cs);
        }
        for i in (1..levels).rev() { src += &format!("</e{}>", i) }
        let mut tree = el(st.pop().unwrap(), vec![text("t")]);
        while let Some(s) = st.pop() { tree = el(s, vec![tree, text("u")]) }
        src = src.replacen("</", "t</", 1);
        for i in (1..levels).rev() { src = src.replace(&format!("</e{}>", i), &format!("</e{}>u", i)) }
        Some(Case { src: format!("<r xmlns=\"{}\"><style>{}</style>{}</r>", XHTML, esc(&sheet), src), tree, ordered: true, alt: vec![] })
    }, show_case, check_case);
    // An element without a box of its own (display: contents) still is the parent its children inherit from.
    ctx.section("through display: contents", |c| {
        let all = longhands();
        let p = *c.pick(&all);
        if p == P::Display { return None }
        let base = context(p);
        let mut sheet = format!("r,e,f,k,l{{{}}}e,f{{display:contents}}", css(&base));
        let bgs = [[200u8, 0, 0, 255], [0, 150, 0, 255], [0, 0, 220, 255], [90, 90, 0, 255], [0, 90, 90, 255]];
        let mut parent = Cs::initial();
        let mut st: Vec<Cs> = Vec::new();
        for (i, n) in ["r", "e", "f", "k"].iter().enumerate() {
            let v = if i == 0 { Some(sample(p, 0, 0)) } else { match c.choose(if i == 2 { 3 } else { 6 }) { 0 => None, 1 => Some(V::Inherit), 2 => Some(V::Unset), 3 => Some(V::Initial), k => Some(sample(p, i.min(2), k - 4)) } };
            let mut d = base.clone();
            if i == 1 || i == 2 { d.push((P::Display, V::Disp(Disp::Contents))) }
            if p != P::Bg { d.push((P::Bg, V::Color(Col::Rgba(bgs[i])))); sheet += &format!("{}{{background-color:{}}}", n, hex(bgs[i])) }
            if let Some(v) = v { sheet += &format!("{}{{{}:{}}}", n, name(p), value_css(&v)); d.push((p, v)) }
            let cs = apply(&parent, &d);
            parent = cs.clone();
            st.push(cs);
        }
        // l: a child of e, next to f, with no declaration of its own
        let mut d = base.clone();
        d.push((P::Bg, V::Color(Col::Rgba(bgs[4]))));
        sheet += &format!("l{{background-color:{}}}", hex(bgs[4]));
        let l = apply(&st[1], &d);
        if (p == P::Position) && st.iter().take(3).skip(1).any(|s| s.pos == Pos::Absolute) { return None }
        let k = el(st[3].clone(), vec![text("k")]);
        let tree = el(st[0].clone(), vec![text("r"), el(st[1].clone(), vec![el(st[2].clone(), vec![k]), el(l, vec![text("l")])])]);
        let ordered = !has_abs(&tree);
        Some(Case { src: format!("<r xmlns=\"{}\"><style>{}</style>r<e><f><k>k</k></f><l>l</l></e></r>", XHTML, esc(&sheet)), tree, ordered, alt: vec![] })
    }, show_case, check_case);
    // Siblings do not influence each other, whatever their common parent gives them.
    ctx.section("siblings", |c| {
        let all = longhands();
        let p = *c.pick(&all);
        let base = context(p);
        let mut sheet = format!("r,a,b,c{{{}}}", css(&base));
        let mut mk = |c: &mut Chooser, n: &str, i: usize, parent: &Cs, root: bool| {
            let v = if root { Some(sample(p, 0, 0)) } else { match c.choose(6) { 0 => None, 1 => Some(V::Inherit), 2 => Some(V::Initial), 3 => Some(V::Unset), k => Some(sample(p, 1 + i % 2, k - 4)) } };
            let mut d = base.clone();
            if p != P::Bg { d.push((P::Bg, V::Color(bg(i)))); sheet += &format!("{}{{background-color:{}}}", n, value_css(&V::Color(bg(i)))) }
            if let Some(v) = v { sheet += &format!("{}{{{}:{}}}", n, name(p), value_css(&v)); d.push((p, v)) }
            apply(parent, &d)
        };
        let r = mk(c, "r", 0, &Cs::initial(), true);
        let (a, b, e) = (mk(c, "a", 1, &r, false), mk(c, "b", 2, &r, false), mk(c, "c", 3, &r, false));
        let tree = el(r, vec![el(a, vec![text("a")]), el(b, vec![text("b")]), el(e, vec![text("c")])]);
        let ordered = !has_abs(&tree);
        Some(Case { src: format!("<r xmlns=\"{}\"><style>{}</style><a>a</a><b>b</b><c>c</c></r>", XHTML, esc(&sheet)), tree, ordered, alt: vec![] })
    }, show_case, check_case);
    // The display of an absolutely positioned box is that of a block, also for those who inherit it.
    ctx.section("display of positioned boxes", |c| {
        let mut sheet = String::from("r{display:block}");
        let r = apply(&Cs::initial(), &[(P::Display, V::Disp(Disp::Block))]);
        let mut parent = r.clone();
        let mut st = vec![r];
        for (i, n) in ["e", "f", "g"].iter().enumerate() {
            let mut d: Vec<(P, V)> = vec![(P::Bg, V::Color(bg(i)))];
            match c.choose(if i == 0 { 4 } else { 7 }) {
                0 => {}
                k @ 1..=3 => d.push((P::Display, V::Disp([Disp::Inline, Disp::Block, Disp::FlowRoot][k - 1]))),
                4 => d.push((P::Display, V::Inherit)),
                5 => d.push((P::Display, V::Initial)),
                _ => d.push((P::Display, V::Unset)),
            }
            match c.choose(if i == 0 { 3 } else { 4 }) { 0 => {} 1 => d.push((P::Position, V::Pos(Pos::Absolute))), 2 => d.push((P::Position, V::Pos(Pos::Relative))), _ => d.push((P::Position, V::Inherit)) }
            d.push((P::Off(0), V::Len(20. + 50. * i as f64)));
            d.push((P::Off(3), V::Len(10. + 5. * i as f64)));
            d.push((P::W, V::Len(200.)));
            if c.flag() { d.reverse() }
            sheet += &format!("{}{{{}}}", n, css(&d));
            let cs = apply(&parent, &d);
            parent = cs.clone();
            st.push(cs);
        }
        // (absolute boxes in relatively positioned inline boxes: see C20)
        let mut inl = false;
        for s in &st[1..] {
            if s.pos == Pos::Absolute && inl { return None }
            inl = (s.disp == Disp::Inline && s.pos == Pos::Relative) || (inl && s.pos == Pos::Static);
        }
        let g = el(st[3].clone(), vec![text("g")]);
        let f = el(st[2].clone(), vec![text("a"), g, text("b")]);
        let e = el(st[1].clone(), vec![text("c"), f, text("d")]);
        let tree = el(st[0].clone(), vec![text("x"), e, text("y")]);
        let ordered = !has_abs(&tree);
        Some(Case { src: format!("<r xmlns=\"{}\"><style>{}</style>x<e>c<f>a<g>g</g>b</f>d</e>y</r>", XHTML, esc(&sheet)), tree, ordered, alt: vec![] })
    }, show_case, check_case);
    // currentColor and inherit with changing text colours.
    ctx.section("currentColor", |c| {
        let mut sheet = String::from("r,e,k{display:block}");
        let mut parent = Cs::initial();
        let mut st = Vec::new();
        for (i, n) in ["r", "e", "k"].iter().enumerate() {
            let col = match c.choose(5) { 0 => None, 1 => Some(V::Color(Col::Rgba([50 + 60 * i as u8, 9, 9, 255]))), 2 => Some(V::Color(Col::Cur)), 3 => Some(V::Inherit), _ => Some(V::Initial) };
            let bg = match c.choose(5) { 0 => None, 1 => Some(V::Color(Col::Cur)), 2 => Some(V::Inherit), 3 => Some(V::Color(Col::Rgba([0, 50 + 60 * i as u8, 9, 255]))), _ => Some(V::Initial) };
            let order = c.flag();
            let mut d: Vec<(P, V)> = vec![(P::Display, V::Disp(Disp::Block))];
            let mut own = Vec::new();
            if let Some(x) = col { own.push((P::Color, x)) }
            if let Some(x) = bg { own.push((P::Bg, x)) }
            if order { if own.len() < 2 { return None } own.reverse() }
            sheet += &format!("{}{{{}}}", n, css(&own));
            d.extend(own);
            let cs = apply(&parent, &d);
            parent = cs.clone();
            st.push(cs);
        }
        let tree = el(st[0].clone(), vec![text("r"), el(st[1].clone(), vec![text("e"), el(st[2].clone(), vec![text("k")])])]);
        Some(Case { src: format!("<r xmlns=\"{}\"><style>{}</style>r<e>e<k>k</k></e></r>", XHTML, esc(&sheet)), tree, ordered: true, alt: vec![] })
    }, show_case, check_case);
    // em lengths against the right font size, at every level and in any declaration order.
    ctx.section("em", |c| {
        let props = [P::W, P::H, P::M(3), P::Pd(0), P::Pd(1), P::Bw(0), P::Off(3)];
        let p = *c.pick(&props);
        let mut sp: Vec<(String, Option<(P, V)>)> = Vec::new();
        let mut fs: Vec<Option<V>> = Vec::new();
        let mut text_: Vec<String> = Vec::new();
        for level in 0..3 {
            let f = match c.choose(5) { 0 => None, 1 => Some(V::Em(1.5)), 2 => Some(V::Len(10. + level as f64)), 3 => Some(V::Inherit), _ => Some(V::Initial) };
            let v = match c.choose(3) { 0 => None, 1 => Some(V::Em(2.)), _ => Some(V::Inherit) };
            let flip = c.flag();
            let mut own: Vec<(P, V)> = Vec::new();
            if let Some(f) = &f { own.push((P::FontSize, f.clone())) }
            if let Some(v) = &v { own.push((p, v.clone())) }
            if flip { if own.len() < 2 { return None } own.reverse() }
            text_.push(css(&own));
            fs.push(f);
            sp.push((String::new(), v.map(|v| (p, v))));
        }
        let base = context(p);
        let mut parent = Cs::initial();
        let mut st = Vec::new();
        let mut sheet = format!("r,e,k{{{}}}", css(&base));
        for i in 0..3 {
            let mut d = base.clone();
            d.push((P::Bg, V::Color(bg(i))));
            if let Some(f) = &fs[i] { d.push((P::FontSize, f.clone())) }
            if let Some(s) = &sp[i].1 { d.push(s.clone()) }
            sheet += &format!("{}{{background:{};{}}}", ["r", "e", "k"][i], value_css(&V::Color(bg(i))), text_[i]);
            let cs = apply(&parent, &d);
            parent = cs.clone();
            st.push(cs);
        }
        let tree = el(st[0].clone(), vec![text("r"), el(st[1].clone(), vec![text("e"), el(st[2].clone(), vec![text("k")])])]);
        Some(Case { src: format!("<r xmlns=\"{}\"><style>{}</style>r<e>e<k>k</k></e></r>", XHTML, esc(&sheet)), tree, ordered: true, alt: vec![] })
    }, show_case, check_case);
    // Anonymous block boxes inherit inherited properties only.
    ctx.section("anonymous boxes", |c| {
        let mut s = Cs::block();
        s.bg = bg(0);
        s.fs = *c.pick(&[16., 20.]);
        s.color = *c.pick(&[BLACK, [0, 0, 250, 255]]);
        s.pos = *c.pick(&[Pos::Static, Pos::Relative]);
        if c.flag() { s.off[0] = L::Px(4.) }
        if c.flag() { s.p = [L::Px(3.); 4] }
        if c.flag() { s.m = [L::Px(6.); 4] }
        if c.flag() { s.bs = [true; 4]; s.bw = [L::Px(2.); 4] }
        if c.flag() { s.w = L::Px(90.) }
        if c.flag() { s.h = L::Px(70.) }
        if c.flag() { s.disp = Disp::FlowRoot }
        let mut i = Cs::block();
        i.bg = bg(1);
        i.fs = s.fs;
        i.color = s.color;
        let t = page(vec![el(s, vec![text("a"), el(i, vec![text("b")]), text("c")])]);
        Some(Case { src: doc(&t), tree: t, ordered: true, alt: vec![] })
    }, show_case, check_case);
}

/// What a declaration's value text means for a longhand: None when it is not in the property's grammar.
fn grammar(p: P) -> Vec<(&'static str, Option<V>)> {
    let mut v: Vec<(&'static str, Option<V>)> = Vec::new();
    let len = |x: f64| Some(V::Len(x));
    let negative_ok = match p { P::Off(_) | P::M(_) => true, _ => false };
    let is_len = match p { P::FontSize | P::Off(_) | P::W | P::H | P::M(_) | P::Pd(_) | P::Bw(_) => true, _ => false };
    let pct_ok = match p { P::Off(_) | P::W | P::H | P::M(_) | P::Pd(_) => true, _ => false };
    let auto_ok = match p { P::Off(_) | P::W | P::H | P::M(_) => true, _ => false };
    let if_ = |c: bool, v: Option<V>| if c { v } else { None };
    for (s, x) in &[("0", 0.), ("-0", 0.), ("+0", 0.), ("0.0", 0.), (".0", 0.), ("0px", 0.), ("0PX", 0.), ("1px", 1.), ("7PX", 7.), ("+7Px", 7.), ("7.5px", 7.5), (".5px", 0.5), ("1e1px", 10.), ("1E+1Px", 10.), ("250e-1px", 25.), ("007px", 7.), ("7p\\78", 7.), ("/**/7px/**/", 7.), (" 7px ", 7.), ("33.333px", 33.333)] {
        v.push((s, if_(is_len, len(*x))));
    }
    for (s, x) in &[("1em", 1.), ("2EM", 2.), ("0em", 0.), (".5em", 0.5), ("1e0em", 1.)] { v.push((s, if_(is_len, Some(V::Em(*x))))) }
    for (s, x) in &[("10%", 10.), ("0%", 0.), ("12.5%", 12.5), ("+5%", 5.), ("150%", 150.)] { v.push((s, if_(pct_ok, Some(V::Pct(*x))))) }
    for (s, x) in &[("-7px", -7.), ("-.5px", -0.5)] { v.push((s, if_(is_len && negative_ok, len(*x)))) }
    v.push(("-1em", if_(negative_ok, Some(V::Em(-1.)))));
    v.push(("-10%", if_(pct_ok && negative_ok, Some(V::Pct(-10.)))));
    for s in &["auto", "AUTO", "Auto"] { v.push((s, if_(auto_ok, Some(V::Auto)))) }
    for s in &["", "1", "1.5", "-1", "1 px", "px", "1px 2px", "1px,", "1foo", "5pxx", "em", "1e1", "%", "10 %", "'1px'", "\"auto\"", "foo(1px)", "(1px)", "[1px]", "{1px}", "url(1px)", "#1px", "auto 1px", "auto auto", "1px !", "1px ! foo", "1px !important !important", "!important", "/", "+ 7px", "- 7px", "--7px", "none none", "inherit inherit", "inherit 1px", "1px inherit", "initial!", "unsets", "in herit", "foo", "block block", "red red", "solid solid", "1px/2px"] { v.push((s, None)) }
    let border = match p { P::Bw(_) => true, _ => false };
    for (s, x) in &[("thin", 1.), ("medium", 3.), ("thick", 5.), ("THICK", 5.), ("Thin", 1.)] { v.push((s, if_(border, len(*x)))) }
    v.push(("thi", None));
    let style = match p { P::Bs(_) => true, _ => false };
    for s in &["solid", "SOLID", "Solid"] { v.push((s, if_(style, Some(V::Solid(true))))) }
    for s in &["none", "NONE"] { v.push((s, if style { Some(V::Solid(false)) } else if p == P::Display { Some(V::Disp(Disp::None)) } else { None })) }
    for (s, d) in &[("block", Disp::Block), ("BLOCK", Disp::Block), ("inline", Disp::Inline), ("Inline", Disp::Inline), ("contents", Disp::Contents), ("CONTENTS", Disp::Contents), ("flow-root", Disp::FlowRoot), ("Flow-Root", Disp::FlowRoot)] { v.push((s, if_(p == P::Display, Some(V::Disp(*d))))) }
    for s in &["blocks", "flow root", "flow", "flowroot", "content"] { v.push((s, None)) }
    for (s, d) in &[("static", Pos::Static), ("relative", Pos::Relative), ("absolute", Pos::Absolute), ("ABSOLUTE", Pos::Absolute), ("Relative", Pos::Relative), ("STATIC", Pos::Static)] { v.push((s, if_(p == P::Position, Some(V::Pos(*d))))) }
    v.push(("absolut", None));
    let color = match p { P::Color | P::Bg | P::Bc(_) => true, _ => false };
    let cols: &[(&'static str, [u8; 4])] = &[("red", [255, 0, 0, 255]), ("RED", [255, 0, 0, 255]), ("Lime", [0, 255, 0, 255]), ("rebeccapurple", [0x66, 0x33, 0x99, 255]), ("black", [0, 0, 0, 255]), ("#f00", [255, 0, 0, 255]), ("#F0A", [255, 0, 170, 255]), ("#123456", [0x12, 0x34, 0x56, 255]), ("#abcDEF", [0xab, 0xcd, 0xef, 255]),
        ("#1238", [0x11, 0x22, 0x33, 0x88]), ("#12345680", [0x12, 0x34, 0x56, 0x80]), ("rgb(1,2,3)", [1, 2, 3, 255]), ("RGB( 1 , 2 , 3 )", [1, 2, 3, 255]), ("rgb(1 2 3)", [1, 2, 3, 255]), ("rgba(1,2,3,1)", [1, 2, 3, 255]), ("rgb(255,0,0,0.2)", [255, 0, 0, 51]), ("rgb(1 2 3 / 20%)", [1, 2, 3, 51]),
        ("rgb(300,-5,3)", [255, 0, 3, 255]), ("rgb(100%,0%,20%)", [255, 0, 51, 255]), ("rgb(120% -5% 40%)", [255, 0, 102, 255]), ("hsl(120,100%,25%)", [0, 128, 0, 255]), ("HSL(120deg 100% 50%)", [0, 255, 0, 255]), ("hsl(240,100%,50%)", [0, 0, 255, 255]), ("hsl(480,100%,50%)", [0, 255, 0, 255]), ("hsla(0,100%,50%,.2)", [255, 0, 0, 51]), ("rgba(0,0,0,0)", [0, 0, 0, 0]), ("transparent", [0, 0, 0, 0]), ("TransParent", [0, 0, 0, 0])];
    for (s, c) in cols { v.push((s, if_(color, Some(V::Color(Col::Rgba(*c)))))) }
    for s in &["currentColor", "currentcolor", "CURRENTCOLOR"] { v.push((s, if_(color, Some(V::Color(Col::Cur))))) }
    for s in &["redd", "#ff", "#f", "#fffff", "#ggg", "# fff", "rgb(1,2)", "rgb(1,2,3,4,5)", "rgb (1,2,3)", "rgb(1 2,3)", "rgb(1,2 3)", "rgb(1,50%,3)", "rgb[1,2,3]", "hsl(120,100,50)", "ff0000", "0xff0000", "rgb(1,2,3) x", "rgb(a,b,c)", "rgb()", "current-color"] { v.push((s, None)) }
    for s in &["inherit", "INHERIT", "Inherit"] { v.push((s, Some(V::Inherit))) }
    for s in &["initial", "INITIAL"] { v.push((s, Some(V::Initial))) }
    for s in &["unset", "UnSet"] { v.push((s, Some(V::Unset))) }
    v
}
/// What victor takes an out-of-range value for (recorded findings).
fn deviates(p: P, s: &str) -> Option<(&'static str, V)> {
    let neg = match p { P::FontSize | P::W | P::H | P::Pd(_) | P::Bw(_) => true, _ => false };
    let v = match s { "-7px" => V::Len(-7.), "-.5px" => V::Len(-0.5), "-1em" => V::Em(-1.), "-10%" => V::Pct(-10.), _ => match p {
        P::Bw(_) => return match s { "10%" => Some(10.), "0%" => Some(0.), "12.5%" => Some(12.5), "+5%" => Some(5.), "150%" => Some(150.), _ => None }.map(|x| ("border-width-percentage", V::Pct(x))),
        _ => return None,
    } };
    if !neg { return None }
    match (p, &v) { (P::FontSize, V::Pct(_)) => None, (P::Bw(_), V::Pct(_)) => Some(("border-width-percentage", v)), _ => Some(("negative-accepted", v)) }
}

/// Texts that differ from s in one place, and are not the same to CSS.
pub fn lookalikes(s: &str) -> Vec<String> {
    let mut v = Vec::new();
    for (i, ch) in s.char_indices() {
        let mut subs: Vec<String> = Vec::new();
        match ch { 'k' | 'K' => subs.push("\u{212a}".into()), 's' | 'S' => subs.push("\u{17f}".into()), 'i' | 'I' => { subs.push("\u{130}".into()); subs.push("\u{131}".into()) } _ => {} }
        if ch.is_ascii_alphanumeric() { subs.push(char::from_u32(ch as u32 + 0xFEE0).unwrap().to_string()) }
        if ch.is_ascii_alphabetic() && i > 0 { subs.push(format!("{}\u{301}", ch)) }
        if ch == '-' { subs.push("\u{2010}".into()); subs.push("\u{2212}".into()) }
        if ch == '.' { subs.push("\u{ff0e}".into()) }
        if ch == '%' { subs.push("\u{ff05}".into()) }
        for t in subs { v.push(format!("{}{}{}", &s[..i], t, &s[i + ch.len_utf8()..])) }
    }
    for sp in &["\u{a0}", "\u{85}", "\u{2003}", "\u{200b}", "\u{feff}"] { v.push(format!("{}{}", s, sp)); v.push(format!("{}{}", sp, s)) }
    v
}

pub fn c15(ctx: &mut Ctx) {
    ctx.assumptions.push("the reference grammar covers the longhands Victor implements; negative values and percentage borders are known findings; calc() and var() are not implemented".into());
    ctx.section("values", |c| {
        let all = longhands();
        let p = *c.pick(&all);
        let g = grammar(p);
        let (s, v) = c.pick(&g).clone();
        let ending = c.choose(3); // how the declaration ends
        if ending > 0 && s.contains('{') { return None }
        let base = sample(p, 2, 0);
        let prev = if c.flag() { Some((p, base.clone())) } else { None };
        let parent_v = if c.flag() { Some((p, sample(p, 1, 0))) } else { None };
        let nm = match ending { 0 => name(p), 1 => name(p).to_uppercase(), _ => format!("\n{} ", name(p)) };
        let mut t = prev.as_ref().map_or(String::new(), |(p, v)| format!("{}:{};", name(*p), value_css(v)));
        t += &format!("{}:{}{}", nm, s, ["", ";", ";x:y"][ending]);
        let winner = match &v { Some(v) => Some((p, v.clone())), None => prev.clone() };
        if p == P::Position && s.eq_ignore_ascii_case("absolute") && ending == 9 { return None }
        let alt = deviates(p, s).map(|(k, v)| (format!("{}:{}", k, name(p)), Some((p, v))));
        three_levels_of(p, &[(String::new(), None), (parent_v.as_ref().map_or(String::new(), |(p, v)| format!("{}:{}", name(*p), value_css(v))), parent_v), (t, winner)], alt)
    }, show_case, check_case);
    // Every level of every colour channel and of opacity, for backgrounds and texts.
    ctx.section("colours", |c| {
        let base = *c.pick(&[[0u8, 0, 0, 255], [255, 255, 255, 255], [10, 200, 90, 128], [1, 2, 3, 1]]);
        let ch = c.choose(4);
        let mut v = base;
        v[ch] = c.choose(256) as u8;
        let on = *c.pick(&[P::Bg, P::Color]);
        let form = c.choose(2);
        let t = if form == 0 { hex(v) } else if v[3] == 255 { format!("rgb({},{},{})", v[0], v[1], v[2]) } else { return None };
        let mut d = vec![(P::Display, V::Disp(Disp::Block)), (P::Bg, V::Color(bg(0))), (on, V::Color(Col::Rgba(v)))];
        let root = apply(&Cs::initial(), &d[..2]);
        if on == P::Bg { d.remove(1); }
        let e = apply(&root, &d);
        let k = apply(&e, &[(P::Display, V::Disp(Disp::Block)), (P::Bg, V::Color(Col::Cur))]);
        let src = format!("<r xmlns=\"{}\"><style>r,e,k{{display:block}}r,e{{background-color:{}}}k{{background:currentColor}}e{{{}:{}}}</style><e>e<k>k</k></e></r>", XHTML, value_css(&V::Color(bg(0))), name(on), t);
        Some(Case { src, tree: el(root, vec![el(e, vec![text("e"), el(k, vec![text("k")])])]), ordered: true, alt: vec![] })
    }, show_case, check_case);
    // What looks like, or folds to, a letter, a digit or a space of a value is something else: only ASCII letters are case-insensitive.
    let all_l: Vec<P> = if ctx.quick() { vec![P::FontSize, P::Color, P::Bg, P::Position, P::Display, P::Bs(0), P::Bw(1), P::Off(2), P::W, P::M(3), P::Pd(0)] } else { longhands() };
    let all_l = &all_l;
    ctx.section("lookalikes", |c| {
        let p = *c.pick(all_l);
        let g: Vec<(&'static str, Option<V>)> = grammar(p).into_iter().filter(|x| x.1.is_some() && deviates(p, x.0).is_none()).collect();
        let of_name = c.flag();
        let (s, v) = if of_name { g[0].clone() } else { c.pick(&g).clone() };
        let v = v?;
        let nm = name(p);
        let l: Vec<String> = lookalikes(if of_name { &nm } else { s });
        let t = c.pick(&l).clone();
        let t = if of_name { format!("{}:{}", t, s) } else { format!("{}:{}", nm, t) };
        let _ = v;
        let prev = (p, sample(p, 2, 0));
        let t = format!("{}:{};{}", nm, value_css(&prev.1), t);
        three_levels(p, &[(String::new(), None), (String::new(), None), (t, Some(prev))])
    }, show_case, check_case);
    // Magnitudes of lengths and percentages.
    ctx.section("magnitudes", |c| {
        let all: Vec<P> = longhands().into_iter().filter(|p| match p { P::FontSize | P::Off(_) | P::W | P::H | P::M(_) | P::Pd(_) | P::Bw(_) => true, _ => false }).collect();
        let p = *c.pick(&all);
        let m = *c.pick(&[0.0625f64, 0.5, 0.99, 1.01, 3., 9.99, 16., 99.5, 127., 128., 255., 256., 257., 511., 793., 794., 999., 1000., 1023., 1122., 1123., 2048., 4095.5, 5000., 8191., 9999., 10000., 16384., 20000., 65535., 65536., 98304., 131072.]);
        let unit = c.choose(3);
        let v = match unit {
            0 => V::Len(m), 1 => V::Em(m / 16.),
            _ => match p { P::FontSize | P::Bw(_) => return None, _ => V::Pct(m / 8.) },
        };
        if m > 20000. && (unit != 2 || m > 140000. || match p { P::W | P::Off(1) | P::Off(3) | P::M(1) | P::M(3) => false, _ => true }) { return None } // (single precision)
        let neg = match p { P::Off(_) | P::M(_) => c.flag(), _ => false };
        let v = if neg { match v { V::Len(x) => V::Len(-x), V::Em(x) => V::Em(-x), V::Pct(x) => V::Pct(-x), v => v } } else { v };
        three_levels(p, &[(String::new(), None), (String::new(), None), (format!("{}:{}", name(p), value_css(&v)), Some((p, v)))])
    }, show_case, check_case);
    // Setting one longhand sets nothing else: every pair of longhands, in both orders.
    ctx.section("pairs", |c| {
        let all = longhands();
        let a = *c.pick(&all);
        let b = *c.pick(&all);
        if a == b { return None }
        let (wa, wb) = (c.choose(2), c.choose(2));
        let d = vec![(a, sample(a, 1, wa)), (b, sample(b, 1, wb))];
        let mut base: Vec<(P, V)> = vec![(P::Display, V::Disp(Disp::Block)), (P::Bg, V::Color(bg(2))), (P::Position, V::Pos(Pos::Relative)), (P::W, V::Len(70.))];
        for k in 0..4 { base.push((P::Bs(k), V::Solid(k % 2 == 0))); base.push((P::Bw(k), V::Len(2. + k as f64))); }
        let rule = format!("e{{{}}}e{{{}}}", css(&base), css(&d));
        let mut all_d = base;
        all_d.extend(d);
        let root = apply(&Cs::initial(), &[(P::Display, V::Disp(Disp::Block))]);
        let e = apply(&root, &all_d);
        let after = { let mut s = Cs::block(); s.bg = bg(3); s.h = L::Px(5.); s };
        let tree = el(root, vec![text("r"), el(e, vec![text("e")]), el(after, vec![])]);
        let ordered = !has_abs(&tree);
        Some(Case { src: format!("<r xmlns=\"{}\"><style>r,a{{display:block}}a{{background:{};height:5px}}{}</style>r<e>e</e><a/></r>", XHTML, value_css(&V::Color(bg(3))), rule), tree, ordered, alt: vec![] })
    }, show_case, check_case);
}
