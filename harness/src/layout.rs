//! C17-C20: layout of enumerated box trees, in lockstep with the reference layout in refl.rs.
use crate::font::vera;
use crate::dom::*;
use crate::engine::*;
use crate::pdf::*;
use crate::refl::*;

pub const XHTML: &str = "http://www.w3.org/1999/xhtml";
/// The document for a styled tree (XHTML, so that the tree is exactly the one given).
pub fn doc(root: &Node) -> String {
    let mut s = String::new();
    root.html(&Cs::initial(), &mut s);
    s.replacen("<x ", &format!("<x xmlns=\"{}\" ", XHTML), 1)
}
pub fn fp_paint(p: &[Paint]) -> u64 { fp(&show(p)) }

/// Render with victor and compare with the reference.
pub fn lockstep(root: &Node, ordered: bool) -> Outcome {
    let got = match render_xml(doc(root).as_bytes()) { Ok(p) => p, Err(e) => return fail("bad-output", e) };
    let h = fp_paint(&got);
    match diff(got, Ref::render(root, Breaks::Css), ordered) { Ok(()) => Ok(h), Err(e) => fail("layout", e) }
}

pub fn el(cs: Cs, kids: Vec<Node>) -> Node { Node::El(Box::new(cs), kids) }
pub fn text(s: &str) -> Node { Node::Text(s.to_string()) }
pub fn bg(i: usize) -> Col { Col::Rgba([[200, 0, 0, 255], [0, 150, 0, 255], [0, 0, 220, 255], [200, 150, 0, 255], [0, 150, 200, 255], [150, 0, 200, 255], [90, 90, 90, 255], [10, 60, 90, 255]][i % 8]) }
fn px(v: f64) -> L { L::Px(v) }

/// Root with width 600 and no box properties of its own.
pub fn page(kids: Vec<Node>) -> Node { el(Cs::block(), kids) }

/// Every ordered forest of n nodes, as parent index (usize::MAX for top level) in pre-order.
pub fn forest(c: &mut Chooser, n: usize) -> Vec<usize> {
    let mut parents: Vec<usize> = Vec::new();
    let mut path: Vec<usize> = Vec::new(); // current rightmost path
    for i in 0..n {
        let d = c.choose(path.len() + 1); // depth of the new node
        path.truncate(d);
        parents.push(path.last().copied().unwrap_or(usize::MAX));
        path.push(i);
    }
    parents
}
/// Build nested nodes from a pre-order parent list.
pub fn build(parents: &[usize], make: &mut dyn FnMut(usize, Vec<Node>) -> Node) -> Vec<Node> {
    fn go(p: usize, parents: &[usize], make: &mut dyn FnMut(usize, Vec<Node>) -> Node) -> Vec<Node> {
        (0..parents.len()).filter(|i| parents[*i] == p).map(|i| { let k = go(i, parents, make); make(i, k) }).collect()
    }
    go(usize::MAX, parents, make)
}

pub fn c17(ctx: &mut Ctx) {
    ctx.assumptions.push("reference layout written from CSS 2.1 chapters 8 to 10, lengths compared to a tolerance for f32; floats, automatic widths from content and quirks are not implemented by Victor".into());
    ctx.section("horizontal", |c| {
        let mut outer = Cs::block();
        outer.w = *c.pick(&[px(200.), L::Auto]);
        if outer.w == L::Auto { outer.p[3] = px(30.); outer.m[1] = px(25.) }
        outer.bg = bg(0);
        let mut s = Cs::block();
        s.bg = bg(1);
        s.w = *c.pick(&[L::Auto, px(50.), L::Pct(50.), px(0.), px(250.), L::Pct(120.)]);
        s.m[3] = *c.pick(&[px(0.), px(10.), px(-10.), L::Auto, L::Pct(10.)]);
        s.m[1] = *c.pick(&[px(0.), px(13.), px(-13.), L::Auto, L::Pct(15.)]);
        s.p[3] = *c.pick(&[px(0.), px(7.), L::Pct(5.)]);
        s.p[1] = *c.pick(&[px(0.), px(3.), L::Pct(6.)]);
        match c.choose(3) { 0 => {} 1 => { s.bs[3] = true; s.bw[3] = px(2.) } _ => s.bw[3] = px(9.) }
        if c.flag() { s.bs[1] = true; s.bw[1] = px(4.) }
        if c.flag() { s.disp = Disp::FlowRoot }
        let mut g = Cs::block();
        g.bg = bg(2);
        g.w = L::Pct(50.);
        g.h = px(10.);
        Some(page(vec![el(outer, vec![el(s, vec![el(g, vec![])])])]))
    }, doc, |n| lockstep(n, true));

    ctx.section("heights", |c| {
        let mut mk = |c: &mut Chooser, i: usize| {
            let mut s = Cs::block();
            s.bg = bg(i);
            s.w = px(200. - 30. * i as f64);
            s.h = *c.pick(&[L::Auto, px(60.), L::Pct(50.), px(0.), L::Pct(0.)]);
            if c.flag() { s.p[0] = L::Pct(5.); s.p[2] = px(3.) }
            if c.flag() { s.bs[0] = true; s.bw[0] = px(2.); s.bs[2] = true; s.bw[2] = px(5.) }
            s
        };
        let (a, b, d) = (mk(c, 0), mk(c, 1), mk(c, 2));
        let mut kids = match c.choose(3) { 0 => vec![], 1 => vec![text("hi")], _ => { let mut s = Cs::block(); s.h = px(20.); s.m[0] = px(4.); s.m[2] = px(6.); vec![el(s, vec![])] } };
        kids = vec![el(d, kids)];
        let mut after = Cs::block();
        after.bg = bg(4);
        after.h = px(7.);
        Some(page(vec![el(a, vec![el(b, kids), el(after.clone(), vec![])]), el(after, vec![])]))
    }, doc, |n| lockstep(n, true));

    margins(ctx, "margins-3", 3, true);
    margins(ctx, "margins-4", 4, false);
    if !ctx.quick() { margins(ctx, "margins-5", 5, false) }
    extra_c17(ctx);
}

/// Forests of blocks with archetypes.
fn margins(ctx: &mut Ctx, name: &str, n: usize, rich: bool) {
    let quick = ctx.quick();
    ctx.section(name, |c| {
        let parents = forest(c, n);
        let mut styles: Vec<(Cs, bool)> = Vec::new();
        for i in 0..n {
            let mut s = Cs::block();
            s.bg = bg(i);
            let k = i as f64 + 1.;
            let (a, b) = (10. * k + k * k, 7. * k + 3. * k * k); // node-specific magnitudes
            let (t, m) = if rich { *c.pick(&[(0, 0), (1, 1), (-1, -1), (1, -1), (-1, 1)]) } else { *c.pick(&[(1, 1), (-1, 1), (1, -1)]) };
            s.m[0] = px(a * t as f64);
            s.m[2] = px(b * m as f64);
            let leaf = !parents.contains(&i);
            let mut tx = false;
            let kinds = if rich { if leaf { 9 } else { 8 } } else if quick || n > 4 { 4 } else { 6 };
            match c.choose(kinds) {
                0 => {}
                1 => if leaf { s.h = px(10.) } else { s.p[0] = px(1.) },
                2 => if leaf { s.h = px(0.) } else { s.bs[2] = true; s.bw[2] = px(2.) },
                3 => s.disp = Disp::FlowRoot,
                4 => s.bs[0] = true,
                5 => s.p[2] = px(1.),
                6 => s.h = if leaf { L::Pct(10.) } else { px(0.) },
                7 => if leaf { s.p[0] = px(2.) } else { s.h = px(15.) },
                _ => tx = true,
            }
            styles.push((s, tx));
        }
        let mut make = |i: usize, mut kids: Vec<Node>| { if styles[i].1 { kids.push(text("a")) } el(styles[i].0.clone(), kids) };
        let kids = build(&parents, &mut make);
        let mut after = Cs::block();
        after.bg = bg(7);
        after.h = px(5.);
        let mut wrap = Cs::block();
        wrap.bg = bg(6);
        let kids = vec![el(wrap, kids), el(after, vec![])];
        Some(page(kids))
    }, doc, |n| lockstep(n, true));
}


fn extra_c17(ctx: &mut Ctx) {
    // The root element's own box and what collapses inside it.
    ctx.section("root", |c| {
        let mut r = Cs::block();
        r.bg = bg(0);
        r.disp = *c.pick(&[Disp::Block, Disp::Inline, Disp::Contents, Disp::FlowRoot]);
        r.m[0] = *c.pick(&[px(0.), px(11.), px(-6.)]);
        r.m[2] = *c.pick(&[px(0.), px(9.)]);
        r.m[3] = *c.pick(&[px(0.), L::Auto, L::Pct(2.)]);
        r.w = *c.pick(&[L::Auto, px(300.), L::Pct(50.)]);
        r.h = *c.pick(&[L::Auto, px(40.), L::Pct(50.)]);
        if c.flag() { r.p = [px(3.), px(4.), px(5.), L::Pct(1.)] }
        if c.flag() { r.bs[0] = true; r.bw[0] = px(6.) }
        let mut k = Cs::block();
        k.bg = bg(1);
        k.m[0] = *c.pick(&[px(0.), px(17.), px(-20.)]);
        k.m[2] = px(8.);
        k.h = *c.pick(&[L::Auto, L::Pct(25.), px(12.)]);
        Some(el(r, vec![el(k, vec![])]))
    }, doc, |n| lockstep(n, true));
    // A chain of nested blocks.
    let depth = ctx.by(5, 6);
    ctx.section("chain", |c| {
        let mut node: Option<Node> = None;
        for i in (0..depth).rev() {
            let mut s = Cs::block();
            s.bg = bg(i);
            let k = i as f64 + 1.;
            let v = 5. * k + 2. * k * k;
            match c.choose(8) {
                0 => {}
                1 => s.m[0] = px(v),
                2 => s.m[2] = px(v),
                3 => { s.m[0] = px(-v); s.m[2] = px(v + 1.) }
                4 => { s.m[0] = px(v); s.p[0] = px(1.) }
                5 => { s.m[2] = px(v); s.bs[2] = true; s.bw[2] = px(1.) }
                6 => { s.m[2] = px(v); s.h = px(3.) }
                _ => { s.m[0] = px(v); s.m[2] = px(-v); s.disp = Disp::FlowRoot }
            }
            node = Some(el(s, node.into_iter().collect()));
        }
        let mut after = Cs::block();
        after.bg = bg(7);
        after.h = px(5.);
        Some(page(vec![el(after.clone(), vec![]), node.unwrap(), el(after, vec![])]))
    }, doc, |n| lockstep(n, true));
    // Siblings of mixed kinds: anonymous blocks, display none / contents, empty and not.
    let n = ctx.by(4, 5);
    ctx.section("siblings", |c| {
        let mut kids = Vec::new();
        for i in 0..n {
            let mut s = Cs::block();
            s.bg = bg(i);
            let k = i as f64 + 1.;
            let sign = if c.flag() { -1. } else { 1. };
            s.m[0] = px(sign * (4. * k + k * k));
            s.m[2] = px(3. * k + 2. * k * k);
            kids.push(match c.choose(8) {
                0 => el(s, vec![]),
                1 => { s.h = px(10.); el(s, vec![]) }
                2 => { if sign < 0. { s.fs = 20. } s.disp = Disp::Inline; s.m = Cs::block().m; el(s, vec![text("t")]) }
                3 => { s.disp = Disp::FlowRoot; el(s, vec![]) }
                4 => { s.p[2] = px(2.); el(s, vec![]) }
                5 => { s.disp = Disp::None; el(s, vec![text("no")]) }
                6 => { let mut i = s.clone(); i.bg = bg(6); s.disp = Disp::Contents; i.h = px(4.); el(s, vec![el(i, vec![])]) }
                _ => { let mut i = s.clone(); i.m[0] = px(13.); i.m[2] = px(-2.); el(s, vec![el(i, vec![text("x")])]) }
            });
        }
        let mut wrap = Cs::block();
        wrap.bg = bg(7);
        if c.flag() { wrap.bs[2] = true; }
        Some(page(vec![el(wrap, kids)]))
    }, doc, |n| lockstep(n, true));
    // Many siblings, many levels.
    let most = ctx.by(110usize, 300);
    ctx.section("many siblings", |c| {
        let n = 1 + c.choose(most);
        let pat: Vec<usize> = { let l = 1 + c.choose(3); (0..l).map(|_| c.choose(8)).collect() };
        if pat.len() == 3 && n > 40 && n % 16 > 1 { return None }
        // (one after the other, or many of a kind)
        let run = if pat.len() > 1 && n > 33 && n % 4 < 2 { *c.pick(&[1usize, 9, 33]) } else { 1 };
        let kids: Vec<Node> = (0..n).map(|i| {
            let mut s = Cs::block();
            s.bg = bg(i);
            let k = if run > 1 { (i % run) as f64 } else { (i % 7) as f64 };
            match pat[i / run % pat.len()] {
                0 => { s.m[0] = px(5. + k); s.m[2] = px(3. + 2. * k); s.h = px(4.) }
                1 => { s.m[0] = px(9. - k); s.m[2] = px(2. * k) }
                2 => { s.m[0] = px(-3. - k); s.m[2] = px(11.); s.h = px(6.) }
                3 => { s.disp = Disp::FlowRoot; s.m[2] = px(8.); return el(s, vec![el({ let mut g = Cs::block(); g.m[0] = px(4. + k); g.h = px(2.); g.bg = bg(i + 1); g }, vec![])]) }
                4 => { s.m[0] = px(6.); return el(s, vec![text("t")]) }
                5 => { s.disp = Disp::Inline; return el(s, vec![text("i")]) }
                6 => { s.p[0] = L::Pct(1.); s.m[2] = px(-4.) }
                _ => { s.m[0] = px(7.); return el(s, vec![el({ let mut g = Cs::block(); g.m[0] = px(9. + k); g.m[2] = px(5.); g.h = px(1.); g.bg = bg(i + 1); g }, vec![])]) }
            }
            el(s, vec![])
        }).collect();
        let mut wrap = Cs::block();
        wrap.bg = bg(6);
        Some(page(vec![el(wrap, kids), filler(7, 5.)]))
    }, doc, |n| lockstep_visible(n, true));
    let most = ctx.by(40usize, 70);
    ctx.section("many levels", |c| {
        let n = { let k = c.choose(most + 6); if k < most { 1 + k } else { [63, 64, 65, 127, 129, 257][k - most] } };
        let pat: Vec<usize> = { let l = 1 + c.choose(3); (0..l).map(|_| c.choose(7)).collect() };
        let mut node = filler(5, 3.);
        for i in (0..n).rev() {
            let mut s = Cs::block();
            s.bg = bg(i);
            let k = (i % 5) as f64;
            match pat[i % pat.len()] {
                0 => { s.m[0] = px(5. + k); s.m[2] = px(3. + 2. * k) }
                1 => s.m[2] = px(20. - k),
                2 => { s.m[0] = px(-2. - k); s.m[3] = px(1.) }
                3 => s.disp = Disp::FlowRoot,
                4 => { s.p[2] = px(1.); s.m[2] = px(7.) }
                5 => { s.w = L::Pct(97.); s.m[3] = L::Auto }
                _ => { s.bs[0] = true; s.bw[0] = px(2.); s.m[0] = px(9.) }
            }
            node = el(s, if i % 3 == 2 { vec![node, filler(i, 2.)] } else { vec![node] });
        }
        Some(page(vec![node, filler(7, 5.)]))
    }, doc, |n| lockstep_visible(n, true));
    // Percentages on every side refer to the width of the containing block; em to the element's own font size.
    ctx.section("percent", |c| {
        let mut o = Cs::block();
        o.bg = bg(0);
        o.w = *c.pick(&[px(200.), L::Pct(40.)]);
        o.h = *c.pick(&[L::Auto, px(150.)]);
        let mut s = Cs::block();
        s.bg = bg(1);
        for k in 0..4 {
            s.p[k] = *c.pick(&[px(0.), L::Pct(3. + k as f64)]);
            s.m[k] = *c.pick(&[px(0.), L::Pct(2. + 2. * k as f64)]);
        }
        s.h = *c.pick(&[L::Auto, L::Pct(40.)]);
        let mut g = Cs::block();
        g.bg = bg(2);
        g.m[0] = L::Pct(7.);
        g.p[2] = L::Pct(8.);
        g.h = *c.pick(&[L::Auto, L::Pct(10.)]);
        g.w = L::Pct(30.);
        Some(page(vec![el(o, vec![el(s, vec![el(g, vec![text("p")])])])]))
    }, doc, |n| lockstep(n, true));
}

fn filler(i: usize, h: f64) -> Node { let mut s = Cs::block(); s.bg = bg(i); s.h = px(h); el(s, vec![]) }

pub fn c18(ctx: &mut Ctx) {
    ctx.assumptions.push("as for C17; positions that CSS 2.1 lets the user agent guess are not compared".into());
    // One axis at a time, with an asymmetric containing block.
    for &(name, start, end) in &[("inline axis", 3usize, 1usize), ("block axis", 0, 2)] {
        ctx.section(name, |c| {
            let mut o = Cs::block();
            o.pos = Pos::Relative;
            o.bg = bg(0);
            o.w = px(211.);
            o.h = px(97.);
            o.m[3] = px(40.);
            o.m[0] = px(30.);
            o.p = [px(3.), px(5.), px(7.), px(11.)];
            o.bs = [true; 4];
            o.bw = [px(1.), px(2.), px(4.), px(6.)];
            let mut s = Cs::block();
            s.pos = Pos::Absolute;
            s.disp = *c.pick(&[Disp::Block, Disp::FlowRoot]);
            s.bg = bg(1);
            s.off[start] = *c.pick(&[L::Auto, px(0.), px(10.), px(-15.), L::Pct(10.), L::Pct(80.)]);
            s.off[end] = *c.pick(&[L::Auto, px(0.), px(8.), px(-25.), L::Pct(20.), L::Pct(90.)]);
            let size = *c.pick(&[L::Auto, px(0.), px(50.), L::Pct(50.), px(300.)]);
            if start == 3 { s.w = size; s.h = px(10.) } else { s.h = size; s.w = px(10.) }
            s.m[start] = *c.pick(&[px(0.), px(4.), px(-9.), L::Auto, L::Pct(5.)]);
            s.m[end] = *c.pick(&[px(0.), px(6.), px(-3.), L::Auto, L::Pct(7.)]);
            if c.flag() { s.p[start] = L::Pct(2.); s.p[end] = px(13.); s.bs[start] = true; s.bw[start] = px(8.) }
            // shrink-to-fit is not implemented by victor: give auto widths both offsets
            if start == 3 && size == L::Auto && (s.off[3] == L::Auto || s.off[1] == L::Auto) { return None }
            let k = match c.choose(2) { 0 => vec![], _ => { let mut g = Cs::block(); g.bg = bg(2); g.w = L::Pct(50.); g.h = L::Pct(50.); vec![el(g, vec![text("g")])] } };
            Some(page(vec![el(o, vec![filler(3, 20.), el(s, k), filler(4, 12.)])]))
        }, doc, |n| lockstep(n, false));
    }
    // Which ancestor is the containing block; static positions through padded, bordered, offset ancestors.
    let depth = ctx.by(3, 4);
    ctx.section("ancestors", |c| {
        let mut s = Cs::block();
        s.pos = Pos::Absolute;
        s.disp = *c.pick(&[Disp::Block, Disp::Inline]);
        s.bg = bg(0);
        s.w = *c.pick(&[px(20.), L::Pct(10.)]);
        s.h = *c.pick(&[px(15.), L::Pct(10.), L::Auto]);
        let o = c.choose(5);
        match o { 0 => {} 1 => s.off[3] = px(3.), 2 => s.off[0] = L::Pct(10.), 3 => { s.off[1] = px(4.); s.off[2] = px(6.) } _ => { s.off[3] = L::Pct(50.); s.off[2] = L::Pct(25.) } }
        let mut node = el(s, vec![text("z")]);
        for i in (0..depth).rev() {
            let k = i as f64;
            let mut a = Cs::block();
            a.bg = bg(i + 1);
            a.w = px(300. - 60. * k);
            a.h = *c.pick(&[L::Auto, px(130. - 30. * k)]);
            match c.choose(5) {
                0 => {}
                1 => { a.p[0] = px(5. + k); a.p[3] = px(9. + k); a.bs[3] = true; a.bw[3] = px(2. + k) }
                2 => { a.pos = Pos::Relative; a.p[0] = px(4.); a.p[1] = px(6. + k); a.bs[0] = true; a.bw[0] = px(5. + k); a.off[3] = px(7.); a.off[0] = px(-3. - k) }
                3 => { a.pos = Pos::Absolute; a.p = [px(1.), px(2.), px(3.), px(4. + k)]; a.off[1] = px(12.); a.off[0] = px(21.); a.bs[1] = true; }
                _ => { a.disp = Disp::FlowRoot; a.m[3] = px(8. + k) }
            }
            let mut kids = vec![filler(5, 8.), node];
            if i + 1 == depth { kids.push(filler(6, 9.)) }
            node = el(a, kids);
        }
        Some(page(vec![filler(7, 10.), node, filler(7, 11.)]))
    }, doc, |n| lockstep(n, false));
    // The initial containing block, and a positioned root element.
    ctx.section("initial containing block", |c| {
        let mut r = Cs::block();
        r.bg = bg(0);
        r.w = *c.pick(&[px(200.), L::Pct(50.)]);
        r.h = *c.pick(&[px(100.), L::Pct(30.), L::Auto]);
        r.pos = *c.pick(&[Pos::Static, Pos::Relative, Pos::Absolute]);
        r.p[3] = px(5.);
        r.p[0] = px(6.);
        r.m[0] = *c.pick(&[px(0.), px(14.), L::Auto]);
        r.m[3] = *c.pick(&[px(0.), L::Auto, px(22.)]);
        r.bs[0] = true;
        match c.choose(5) { 0 => {} 1 => { r.off[0] = px(9.); r.off[3] = L::Pct(5.) } 2 => { r.off[2] = L::Pct(5.); r.off[1] = px(9.) } 3 => r.off = [px(1.), px(2.), px(3.), px(4.)], _ => r.off[3] = px(-8.) }
        let mut s = Cs::block();
        s.pos = Pos::Absolute;
        s.bg = bg(1);
        s.w = L::Pct(10.);
        s.h = L::Pct(10.);
        match c.choose(4) { 0 => {} 1 => { s.off[1] = px(0.); s.off[2] = px(0.) } 2 => { s.off[0] = px(5.); s.off[3] = px(6.) } _ => { s.off = [px(1.), px(2.), px(3.), px(4.)]; s.w = L::Auto; s.h = L::Auto } }
        Some(el(r, vec![filler(2, 30.), el(s, vec![])]))
    }, doc, |n| lockstep(n, false));
    // Several absolute boxes, nested in each other and in flow, in every order.
    let n = ctx.by(4, 5);
    ctx.section("several", |c| {
        let parents = forest(c, n);
        let mut st = Vec::new();
        for i in 0..n {
            let k = i as f64;
            let mut s = Cs::block();
            s.bg = bg(i);
            s.w = px(150. - 25. * k);
            match c.choose(5) {
                0 => s.h = px(13. + k),
                1 => { s.pos = Pos::Relative; s.off[0] = px(2. + k); s.off[1] = px(3. * k); s.p[0] = px(4.) }
                2 => { s.pos = Pos::Absolute; s.off[0] = px(5. + k); s.off[1] = L::Pct(10.); s.h = px(20.); }
                3 => { s.pos = Pos::Absolute; s.p[3] = px(1. + k); }
                _ => { s.pos = Pos::Absolute; s.off[2] = px(1. + k); s.bs[2] = true; s.p[1] = px(2.); s.h = L::Pct(30.) }
            }
            st.push(s);
        }
        let mut make = |i: usize, kids: Vec<Node>| { let mut k = vec![filler(6, 3. + i as f64)]; k.extend(kids); el(st[i].clone(), k) };
        let kids = build(&parents, &mut make);
        let mut o = Cs::block();
        o.h = px(180.);
        o.m[3] = px(17.);
        if c.flag() { o.pos = Pos::Relative; o.p[3] = px(19.) }
        Some(page(vec![el(o, kids)]))
    }, doc, |n| lockstep(n, false));
    // Many positioned boxes.
    let most = ctx.by(80usize, 200);
    ctx.section("many", |c| {
        let n = 1 + c.choose(most);
        let pat: Vec<usize> = { let l = 1 + c.choose(3); (0..l).map(|_| c.choose(6)).collect() };
        let kids: Vec<Node> = (0..n).map(|i| {
            let k = (i % 9) as f64;
            let mut s = Cs::block();
            s.bg = bg(i);
            s.w = px(40. + k);
            match pat[i % pat.len()] {
                0 => { s.h = px(3. + k); s.m[0] = px(2. + k) }
                1 => { s.pos = Pos::Relative; s.off[0] = px(2. + k); s.off[1] = px(3. * k); s.p[0] = px(4.) }
                2 => { s.pos = Pos::Absolute; s.off[0] = px(5. + k); s.off[1] = L::Pct(10.); s.h = px(20.) }
                3 => { s.pos = Pos::Absolute; s.p[3] = px(1. + k); s.h = px(4.) }
                4 => { s.pos = Pos::Absolute; s.off[2] = px(1. + k); s.bs[2] = true; s.h = L::Pct(30.) }
                _ => { s.pos = Pos::Relative; s.h = px(6.); return el(s, vec![el({ let mut g = Cs::block(); g.pos = Pos::Absolute; g.bg = bg(i + 1); g.off[2] = px(k); g.off[3] = L::Pct(20.); g.w = px(5.); g.h = px(5.); g }, vec![])]) }
            }
            el(s, vec![])
        }).collect();
        let mut o = Cs::block();
        o.m[3] = px(17.);
        if c.flag() { o.pos = Pos::Relative; o.p[3] = px(19.) }
        Some(page(vec![el(o, kids)]))
    }, doc, |n| lockstep_visible(n, false));
    // Relative positioning moves a box and its contents and nothing else.
    ctx.section("relative", |c| {
        let mut o = Cs::block();
        o.bg = bg(0);
        o.w = px(200.);
        o.h = *c.pick(&[L::Auto, px(90.), L::Pct(25.)]);
        let mut s = Cs::block();
        s.bg = bg(1);
        s.pos = *c.pick(&[Pos::Relative, Pos::Static]);
        for k in 0..4 { s.off[k] = *c.pick(&[L::Auto, px(7. + k as f64), L::Pct(10. + k as f64)]) }
        s.m[0] = *c.pick(&[px(0.), px(12.)]);
        s.m[2] = px(5.);
        s.disp = *c.pick(&[Disp::Block, Disp::FlowRoot]);
        let mut g = Cs::block();
        g.bg = bg(2);
        g.m[0] = px(9.);
        g.m[2] = px(16.);
        if c.flag() { g.pos = Pos::Relative; g.off[0] = px(-4.); g.off[3] = px(2.) }
        let text_kid = c.flag();
        Some(page(vec![el(o, vec![filler(3, 10.), el(s, vec![el(g, if text_kid { vec![text("r")] } else { vec![] })]), filler(4, 11.)])]))
    }, doc, |n| lockstep(n, true));
    // Static position inside lines of text.
    ctx.section("static position in text", |c| {
        let mut o = Cs::block();
        o.bg = bg(0);
        let narrow = c.flag();
        o.w = px(if narrow { 60. } else { 200. });
        o.p[3] = px(3.);
        if c.flag() { o.pos = Pos::Relative; o.off[0] = px(2.) }
        let mut s = Cs::block();
        s.pos = Pos::Absolute;
        s.bg = bg(1);
        // (a block-level box amid a line may be placed by a guess: CSS 2 section 10.6.4)
        s.disp = Disp::Inline;
        s.w = px(10.);
        s.h = px(5.);
        match c.choose(3) { 0 => {} 1 => s.off[3] = px(1.), _ => s.off[2] = px(1.) }
        let a = el(s, vec![]);
        let words = *c.pick(&["ab", "ab cd ef", "ab cd ef gh "]);
        let mut kids = vec![text(words), a];
        if narrow { if c.flag() { kids.push(text(" y")) } } else if c.flag() { kids.push(text(*c.pick(&["x", " yy zz", " "]))) }
        Some(page(vec![filler(2, 4.), el(o, kids)]))
    }, doc, |n| lockstep(n, false));
}

/// As `lockstep`, ignoring boxes without area; a failure to break lines between runs is classified on its own.
pub fn lockstep_visible(root: &Node, ordered: bool) -> Outcome {
    let got = match render_xml(doc(root).as_bytes()) { Ok(p) => visible(p), Err(e) => return fail("bad-output", e) };
    let h = fp_paint(&got);
    let e = match diff(got.clone(), visible(Ref::render(root, Breaks::Css)), ordered) { Ok(()) => return Ok(h), Err(e) => e };
    if diff(got, visible(Ref::render(root, Breaks::RunLocal)), ordered).is_ok() { return fail("overflow-across-runs", e) }
    fail("layout", e)
}

/// Markup tokens of a tree, all balanced sequences with `n` elements: text before/after every tag.
fn tokens_tree(c: &mut Chooser, n: usize, texts: &[&str], style: &mut dyn FnMut(&mut Chooser, usize) -> Cs) -> Vec<Node> {
    let parents = forest(c, n);
    let styles: Vec<Cs> = (0..n).map(|i| style(c, i)).collect();
    fn go(c: &mut Chooser, p: usize, parents: &[usize], styles: &[Cs], texts: &[&str]) -> Vec<Node> {
        let mut out = Vec::new();
        let t = *c.pick(texts);
        if !t.is_empty() { out.push(text(t)) }
        for i in 0..parents.len() {
            if parents[i] != p { continue }
            let k = go(c, i, parents, styles, texts);
            out.push(el(styles[i].clone(), k));
            let t = *c.pick(texts);
            if !t.is_empty() { out.push(text(t)) }
        }
        out
    }
    go(c, usize::MAX, &parents, &styles, texts)
}

pub fn c20(ctx: &mut Ctx) {
    ctx.assumptions.push("as for C17 and C19; the order and position of everything painted is compared, glyph by glyph".into());
    const FG: [[u8; 4]; 5] = [[255, 0, 0, 255], [0, 128, 0, 255], [0, 0, 255, 255], [128, 128, 0, 255], [0, 128, 128, 255]];
    let full = [Disp::Inline, Disp::Block, Disp::None, Disp::Contents, Disp::FlowRoot];
    let mut section = |ctx: &mut Ctx, name: &str, n: usize, texts: &'static [&'static str], disps: &'static [Disp]| {
        ctx.section(name, move |c| {
            let kids = tokens_tree(c, n, texts, &mut |c, i| { let mut s = Cs::initial(); s.disp = *c.pick(disps); s.color = FG[i % 5]; s.bg = bg(i); s });
            // inherited colours: each element sets its own, so a text's colour tells its parent
            let mut body = Cs::block();
            body.bg = bg(7);
            Some(page(vec![el(body, kids)]))
        }, doc, |n| lockstep_visible(n, true));
    };
    let _ = full;
    section(ctx, "two elements, rich text", 2, &["", "a", " ", " b ", "c ", "\n\td e", "f\u{1}g", " \u{2} "], &[Disp::Inline, Disp::Block, Disp::None, Disp::Contents, Disp::FlowRoot]);
    section(ctx, "three elements", 3, &["", "a", " b "], &[Disp::Inline, Disp::Block, Disp::None, Disp::Contents]);
    section(ctx, "four elements", 4, &["", "a"], &[Disp::Inline, Disp::Block, Disp::Contents]);
    if !ctx.quick() {
        section(ctx, "four elements, spaces", 4, &["", "a "], &[Disp::Inline, Disp::Block, Disp::None, Disp::Contents]);
        section(ctx, "five elements", 5, &["", "a"], &[Disp::Inline, Disp::Block]);
    }
    // White space around, between and inside boxes: only ASCII white space collapses.
    let len = ctx.by(5, 6);
    let ws_spans = vec![span(|s| { s.bg = bg(0); s.color = FG[0] }), span(|s| { s.disp = Disp::None; s.bg = bg(1) })];
    ctx.section("white space", move |c| inline_seq(c, len, &["a", " \t", "\u{a0}", "\u{2003}b", "\r\n"], &ws_spans).map(|k| para(400., k)), doc, |n| lockstep_visible(n, true));
    // Many siblings and deep nesting, of every mixture of kinds.
    let kinds = |k: usize, i: usize| -> Cs {
        let mut s = Cs::initial();
        s.bg = bg(i);
        s.color = FG[i % 5];
        match k { 0 => s.disp = Disp::Block, 1 => {} 2 => s.disp = Disp::Contents, 3 => s.disp = Disp::FlowRoot, 4 => { s.disp = Disp::Block; s.pos = Pos::Relative; s.off[3] = px(1.) } 5 => { s.pos = Pos::Absolute; s.w = px(50.); s.off[0] = px(3. + i as f64); s.off[3] = px(2. * i as f64) } _ => s.disp = Disp::None }
        s
    };
    let most = ctx.by(130usize, 300);
    ctx.section("many siblings", move |c| {
        let n = { let k = c.choose(most + 2); if k < most { 1 + k } else { [1025, 1100][k - most] } };
        let pat: Vec<usize> = { let l = 1 + c.choose(if n > 999 { 2 } else { 3 }); (0..l).map(|_| c.choose(8)).collect() };
        if pat.len() == 3 && n > 70 && n % 16 > 1 { return None }
        let kids: Vec<Node> = (0..n).map(|i| match pat[i % pat.len()] { 7 => text("t"), k => el(kinds(k, i), vec![text("a")]) }).collect();
        let mut body = Cs::block();
        body.bg = bg(7);
        Some(page(vec![el(body, kids)]))
    }, doc, |n| lockstep_visible(n, false));
    let most = ctx.by(40usize, 70);
    ctx.section("deep nesting", move |c| {
        let n = { let k = c.choose(most + 6); if k < most { 1 + k } else { [63, 64, 65, 127, 129, 257][k - most] } };
        // (hundreds of levels: one or two kinds)
        let pat: Vec<usize> = { let l = 1 + c.choose(3); (0..l).map(|_| c.choose(6)).collect() };
        let around = c.choose(3);
        // (absolute boxes inside relatively positioned inline boxes do not occur: kind 4 is a block)
        let mut node = text("z");
        for i in (0..n).rev() {
            let mut kids = vec![node];
            if around == 1 || around == 2 && i % 3 == 0 { kids.insert(0, text("a")) }
            if around == 2 && i % 4 == 1 { kids.push(text("b")) }
            node = el(kinds(pat[i % pat.len()], i), kids);
        }
        Some(page(vec![node]))
    }, doc, |n| lockstep_visible(n, false));
    // What is visible: colours of every opacity, on boxes of little or no area.
    ctx.section("visibility", |c| {
        let mut kids = Vec::new();
        for i in 0..2 {
            let mut s = Cs::initial();
            s.disp = *c.pick(&[Disp::Block, Disp::Inline, Disp::FlowRoot]);
            s.bg = match bg(i) { Col::Rgba([r, g, b, _]) => Col::Rgba([r, g, b, *c.pick(&[0, 1, 2, 127, 254, 255])]), c => c };
            s.color = FG[i];
            if s.disp != Disp::Inline { s.h = *c.pick(&[L::Auto, px(0.), px(0.25), px(3.)]); s.w = *c.pick(&[L::Auto, px(0.), px(0.5)]) }
            let kid = c.choose(3);
            // (text is there even if it is transparent: it can be selected and searched)
            if kid == 1 { s.color[3] = *c.pick(&[0, 1, 128, 255]) }
            kids.push(el(s, match kid { 0 => vec![], 1 => vec![text("a")], _ => { let mut k = Cs::block(); k.bg = bg(3 + i); k.h = px(2.); k.w = px(9.); vec![el(k, vec![])] } }));
        }
        Some(page(kids))
    }, doc, |n| lockstep_visible(n, true));
    // Inline boxes with a start and an end edge: each is painted once, however the box is split by blocks inside of it.
    let n = ctx.by(4, 5);
    ctx.section("edges of split inline boxes", |c| {
        let kids = tokens_tree(c, n, &["", "a"], &mut |c, i| {
            let mut s = Cs::initial();
            s.color = FG[i % 5];
            s.bg = bg(i);
            if c.flag() { s.disp = Disp::Block } else { s.p[3] = px(30. + i as f64); s.bs[1] = true; s.bw[1] = px(10. + 2. * i as f64); s.m[3] = px(3.) }
            s
        });
        Some(page(kids))
    }, doc, |n| lockstep_visible(n, true));
    // Positioned boxes among the others.
    ctx.section("positions", |c| {
        let kids = tokens_tree(c, 3, &["", "a"], &mut |c, i| {
            let mut s = Cs::initial();
            s.color = FG[i];
            s.bg = bg(i);
            match c.choose(6) {
                0 => {}
                1 => s.disp = Disp::Block,
                2 => { s.pos = Pos::Relative; s.off[3] = px(2.); s.off[0] = px(3.) }
                3 => { s.disp = Disp::Block; s.pos = Pos::Relative; s.off[3] = px(5.) }
                4 => { s.pos = Pos::Absolute; s.off[3] = px(300. + 40. * i as f64); s.off[0] = px(200. + 30. * i as f64); s.w = px(30.); }
                _ => { s.disp = Disp::Contents; s.pos = Pos::Absolute }
            }
            s
        });
        Some(page(kids))
    }, doc, |n| {
        // absolute boxes inside relatively positioned inline boxes are not supported by victor (their containing block would be the inline box)
        fn bad(n: &Node, in_rel_inline: bool) -> bool {
            match n { Node::Text(_) => false, Node::El(s, k) => {
                if s.pos == Pos::Absolute && s.disp != Disp::Contents && in_rel_inline { return true }
                let r = if s.disp == Disp::Contents { in_rel_inline } else { (s.disp == Disp::Inline && s.pos == Pos::Relative) || (in_rel_inline && s.pos == Pos::Static) };
                k.iter().any(|n| bad(n, r))
            } }
        }
        if bad(n, false) { return Ok(0) }
        lockstep_visible(n, false)
    });
}

fn lockstep_lines(root: &Node, max: f64) -> Outcome {
    let got = match render_xml(doc(root).as_bytes()) { Ok(p) => visible(p), Err(e) => return fail("bad-output", e) };
    let h = fp_paint(&got);
    let e = match diff_lines(got.clone(), visible(Ref::render(root, Breaks::Css)), max) { Ok(()) => return Ok(h), Err(e) => e };
    if diff_lines(got, visible(Ref::render(root, Breaks::RunLocal)), max).is_ok() { return fail("overflow-across-runs", e) }
    fail("layout", e)
}

/// All sequences of at most `len` tokens: text pieces, opening tags of given styles, closing tags (missing ones added).
fn inline_seq(c: &mut Chooser, len: usize, texts: &[&str], spans: &[Cs]) -> Option<Vec<Node>> {
    enum T { Tx(usize), Open(usize), Close }
    let mut toks = Vec::new();
    let mut depth = 0;
    let mut last = 9;
    for _ in 0..len {
        let k = c.choose(1 + texts.len() + spans.len() + if depth > 0 { 1 } else { 0 });
        if k == 0 { break }
        let k = k - 1;
        if k < texts.len() { toks.push(T::Tx(k)); last = 0 }
        else if k < texts.len() + spans.len() { toks.push(T::Open(k - texts.len())); depth += 1; last = 1 }
        else { if last == 1 { return None } toks.push(T::Close); depth -= 1; last = 2 }
    }
    if last != 0 { return None } // trailing tags add nothing
    fn go(it: &mut std::vec::IntoIter<T>, texts: &[&str], spans: &[Cs], top: bool) -> Vec<Node> {
        let mut out: Vec<Node> = Vec::new();
        while let Some(t) = it.next() {
            match t {
                T::Tx(k) => if let Some(Node::Text(s)) = out.last_mut() { s.push_str(texts[k]) } else { out.push(text(texts[k])) },
                T::Open(k) => { let kids = go(it, texts, spans, false); out.push(el(spans[k].clone(), kids)) }
                T::Close => { assert!(!top); return out }
            }
        }
        out
    }
    // a space at the end of the last line is not painted: leave it out (how it counts for the last box is not specified here)
    if texts[match toks.last() { Some(T::Tx(k)) => *k, _ => return None }].trim_end().is_empty() { return None }
    let mut v = go(&mut toks.into_iter(), texts, spans, true);
    fn trim(v: &mut Vec<Node>) { match v.last_mut() { Some(Node::Text(t)) => *t = t.trim_end().to_string(), Some(Node::El(_, k)) => trim(k), None => {} } }
    trim(&mut v);
    Some(v)
}
fn span(f: impl FnOnce(&mut Cs)) -> Cs { let mut s = Cs::initial(); f(&mut s); s }
fn para(w: f64, kids: Vec<Node>) -> Node {
    let mut p = Cs::block();
    p.w = px(w);
    p.bg = bg(7);
    page(vec![filler(6, 3.), el(p, kids), filler(6, 4.)])
}

pub fn c19(ctx: &mut Ctx) {
    ctx.assumptions.push("break opportunities are those of letters, spaces and preserved classes in UAX 14; advance widths are those of the built-in font, read independently; hanging space is not compared".into());
    // One run of text: every sequence of words against many widths, breaking as late as possible.
    let maxw = ctx.by(5, 6);
    ctx.section("one run", |c| {
        let n = 1 + c.choose(maxw);
        let mut t = String::new();
        for i in 0..n { if i > 0 { t.push_str(*c.pick(&[" ", "  \n"])) } t.push_str(*c.pick(&["i", "mm", "Wordy"])) }
        let w = *c.pick(&[0., 4., 15., 31., 46.9, 47., 60., 73.5, 90., 120., 150., 1000.]);
        Some(para(w, vec![text(&t)]))
    }, doc, |n| lockstep_visible(n, true));
    // Long paragraphs.
    let most = ctx.by(110usize, 300);
    ctx.section("long paragraphs", |c| {
        let n = 1 + c.choose(most);
        let pat: Vec<&str> = { let l = 1 + c.choose(3); (0..l).map(|_| *c.pick(&["i", "mm", "Wordy", "n\u{a0}n"])).collect() };
        let w = *c.pick(&[0., 40., 73.5, 300., 2500.]);
        if pat.len() == 3 && n > 40 && n % 16 > 1 { return None }
        let t = (0..n).map(|i| pat[i % pat.len()]).collect::<Vec<_>>().join(" ");
        let kids = match c.choose(2) { 0 => vec![text(&t)], _ => vec![text("x "), el(span(|s| { s.bg = bg(0); s.p[3] = px(5.); s.p[1] = px(7.); s.m[3] = px(3.) }), vec![text(&t)]), text(" y")] };
        Some(para(w, kids))
    }, doc, |n| lockstep_visible(n, true));
    // A single word of any length never breaks.
    ctx.section("long words", |c| {
        let n = 1 + c.choose(200);
        let w = *c.pick(&[0., 50., 700.]);
        let form = c.choose(3);
        let word = "ab\u{a0}-".chars().cycle().take(n).collect::<String>();
        let word = if form == 2 { word.replace('\u{a0}', "c").replace('-', "d") } else { word.replace('-', "e") };
        Some(para(w, match form { 0 => vec![text(&word)], 1 => vec![text("x "), text(""), el(span(|s| s.bg = bg(1)), vec![text(&word)]), text(" y")], _ => vec![text(&format!("p {} q", word))] }))
    }, doc, |n| lockstep_visible(n, true));
    // Widths that lines fit exactly, or miss by the least amount: sizes of which every multiple is exact in binary.
    let maxw = ctx.by(4, 5);
    ctx.section("exact fits", |c| {
        let fs = *c.pick(&[128., 32., 16.]);
        let unit = fs / 2048.;
        let n = 1 + c.choose(maxw);
        let words: Vec<&str> = (0..n).map(|_| *c.pick(&["a", "mm", "Wo"])).collect();
        let (i, j) = { let i = c.choose(n); (i, i + 1 + c.choose(n - i)) };
        let w = vera().text_width(&words[i..j].join(" ")) * fs + *c.pick(&[-1., 0., 1.]) * unit + *c.pick(&[0., 651.]) * unit;
        let split = c.choose(3);
        let kids = if split == 0 { vec![text(&words.join(" "))] } else {
            let k = if split == 1 { 1 } else { n - 1 };
            if k == 0 || k >= n { return None }
            vec![text(&(words[..k].join(" ") + " ")), el(span(|s| s.fs = fs), vec![text(&words[k..].join(" "))])]
        };
        let mut p = Cs::block();
        p.w = px(w);
        p.fs = fs;
        p.bg = bg(7);
        Some(page(vec![el(p, kids)]))
    }, doc, |n| lockstep_visible(n, true));
    let spans = vec![
        span(|s| s.bg = bg(0)),
        span(|s| { s.bg = bg(1); s.p[3] = px(5.); s.p[1] = px(7.); s.bs[3] = true; s.bw[3] = px(2.); s.m[3] = px(3.); s.m[1] = px(4.); s.color = [0, 0, 200, 255] }),
    ];
    let len = ctx.by(8, 9);
    for &w in &[1000., 62., 38.] {
        let spans = spans.clone();
        ctx.section(&format!("inline boxes, width {}", w), move |c| inline_seq(c, len, &["aa", " ", "b "], &spans).map(|k| para(w, k)), doc, |n| lockstep_visible(n, true));
    }
    // Different kinds of inline boxes: relative, percentages, nested relative, negative margins.
    let kinds = vec![
        span(|s| { s.bg = bg(2); s.pos = Pos::Relative; s.off[3] = px(4.); s.off[0] = L::Pct(10.); }),
        span(|s| { s.bg = bg(3); s.p[3] = L::Pct(5.); s.m[1] = px(-3.); s.bs[1] = true; s.bw[1] = px(6.) }),
        span(|s| { s.bg = bg(4); s.disp = Disp::Contents; s.color = [0, 100, 0, 255] }),
        span(|s| { s.bg = bg(5); s.pos = Pos::Relative; s.off[1] = px(5.); s.off[2] = px(2.); s.p[1] = px(1.) }),
    ];
    let len = ctx.by(7, 8);
    for &w in &[300., 45.] {
        let kinds = kinds.clone();
        ctx.section(&format!("kinds of inline boxes, width {}", w), move |c| inline_seq(c, len, &["ab ", "c"], &kinds).map(|k| para(w, k)), doc, |n| lockstep_visible(n, true));
    }
    // Mixed font sizes: lines as high as their highest content.
    let sizes = vec![span(|s| { s.bg = bg(2); s.fs = 30. }), span(|s| { s.bg = bg(3); s.fs = 8.; s.p[1] = px(2.) })];
    let len = ctx.by(8, 10);
    for &w in &[500., 70.] {
        let sizes = sizes.clone();
        ctx.section(&format!("font sizes, width {}", w), move |c| inline_seq(c, len, &["aa ", "b"], &sizes).map(|k| para(w, k)), doc, |n| lockstep_lines(n, 30.));
    }
}

/// Part of C07: widths after saving, appending and restoring, observed through lines and backgrounds.
pub fn c07_widths(ctx: &mut Ctx) {
    let maxw = ctx.by(4, 6);
    ctx.section("widths seen by inline layout", |c| {
        let n = 1 + c.choose(maxw);
        let mut t = String::new();
        for i in 0..n { if i > 0 { t.push(' ') } t.push_str(*c.pick(&["i", "mm", "Wordy"])) }
        let w = *c.pick(&[0., 4., 15., 31., 46.9, 60., 73.5, 90., 150., 1000.]);
        let b = el(span(|s| { s.bg = bg(0); s.p[3] = px(2.) }), vec![text(&t)]);
        Some(para(w, vec![b]))
    }, doc, |n| lockstep_visible(n, true));
}
