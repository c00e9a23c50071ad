//! C26: rasterised pages against the rectangles that were drawn.
use crate::engine::*;
use lester::{Backdrop, PdfDocument, RenderOptions};
use victor::pdf::Document;
use victor::primitives::*;

#[derive(Clone, Copy, Debug, PartialEq)]
struct R { x: i32, y: i32, w: i32, h: i32, c: (f32, f32, f32, f32) }

#[derive(Clone, Debug)]
struct Case { w: f32, h: f32, dx: f64, dy: f64, white: bool, printing: bool, how: usize, rects: Vec<R> }

/// How many pixels a side has, or None if that depends on rounding.
fn side(px: f32, d: f64) -> Option<usize> {
    let p = px as f64 * d;
    let dyadic = (d * 64.).fract() == 0. && (px * 64.).fract() == 0.;
    if p == p.round() && dyadic { Some(p as usize) } else if (p - p.round()).abs() < 1e-4 { None } else { Some(p.ceil() as usize) }
}

fn draw(d: &mut Document, c: &Case) {
    let mut p = d.add_page(Size::new(c.w, c.h));
    for r in &c.rects {
        let at = |v: i32, s: f64| (v as f64 / s) as f32;
        p.set_color(&RGBA(r.c.0, r.c.1, r.c.2, r.c.3));
        p.paint_rectangle(&Rect::new(point(at(r.x, c.dx), at(r.y, c.dy)), Size::new(at(r.w, c.dx), at(r.h, c.dy))));
    }
}

fn compare(c: &Case, page: &lester::Page) -> Outcome {
    let (dw, dh) = match (side(c.w, c.dx), side(c.h, c.dy)) { (Some(a), Some(b)) => (a, b), _ => return Ok(0) };
    let (pw, ph) = page.size_in_css_px();
    if (pw - c.w as f64).abs() > 1e-4 || (ph - c.h as f64).abs() > 1e-4 { return fail("size", format!("page size {:?}", (pw, ph))) }
    let o = RenderOptions { dppx_x: c.dx, dppx_y: c.dy, backdrop: if c.white { Backdrop::White } else { Backdrop::Transparent }, for_printing: c.printing };
    let s = match c.how {
        0 => page.render_with_options(o),
        1 => page.render_with_dppx(c.dx),
        2 => page.render(),
        3 => page.render_with_options(RenderOptions { backdrop: o.backdrop, ..RenderOptions::default() }),
        4 => page.render_with_options(RenderOptions { for_printing: o.for_printing, ..RenderOptions::default() }),
        5 => page.render_with_options(RenderOptions { dppx_x: c.dx, ..RenderOptions::default() }),
        _ => page.render_with_options(RenderOptions { dppx_y: c.dy, ..RenderOptions::default() }),
    };
    let mut s = match s { Ok(s) => s, Err(e) => return fail("render", format!("{:?}", e)) };
    let px = s.pixels();
    if (px.width, px.height, px.buffer.len()) != (dw, dh, dw * dh) { return fail("dimensions", format!("{}x{} with {} pixels, expected {}x{}", px.width, px.height, px.buffer.len(), dw, dh)) }
    // premultiplied; the last row and column may be only partly on the page
    let mut want = vec![if c.white { [255f64, 255., 255., 255.] } else { [0.; 4] }; dw * dh];
    let mut layers = vec![1u32; dw * dh];
    for r in &c.rects {
        let a = r.c.3 as f64;
        let src = [255. * a, r.c.0 as f64 * 255. * a, r.c.1 as f64 * 255. * a, r.c.2 as f64 * 255. * a];
        for y in r.y.max(0)..(r.y + r.h).min(dh as i32) { for x in r.x.max(0)..(r.x + r.w).min(dw as i32) {
            let at = y as usize * dw + x as usize;
            for k in 0..4 { want[at][k] = src[k] + want[at][k] * (1. - a) }
            layers[at] += (a != 1.) as u32;
        } }
    }
    for (at, v) in want.iter().enumerate() {
        let got = px.buffer[at];
        let tol = if layers[at] > 1 { layers[at] as f64 } else { 1. };
        for k in 0..4 {
            if k == 0 && c.white { continue }
            let g = (got >> (24 - 8 * k) & 0xff) as f64;
            if (g - v[k]).abs() > tol { return fail("pixel", format!("pixel ({}, {}) is {:08x}, expected about {:?} (alpha, red, green, blue)", at % dw, at / dw, got, v)) }
        }
    }
    Ok(fp(&(dw, dh, fp_bytes(&px.buffer.iter().flat_map(|p| p.to_be_bytes().to_vec()).collect::<Vec<_>>()))))
}

fn check(c: &Case) -> Outcome {
    let mut d = Document::new();
    draw(&mut d, c);
    let bytes = d.write_to_pdf_bytes();
    let pdf = match PdfDocument::from_bytes(&bytes) { Ok(d) => d, Err(e) => return fail("load", format!("{:?}", e)) };
    let page = match pdf.pages().next() { Some(p) => p, None => return fail("page", "no page") };
    compare(c, &page)
}

const COLORS: &[(f32, f32, f32, f32)] = &[(1., 0., 0., 1.), (0., 0.25, 1., 1.), (0., 1., 0.5, 0.5), (1., 1., 1., 0.25), (0.2, 0.1, 0., 0.)];

pub fn c26(ctx: &mut Ctx) {
    ctx.assumptions.push("poppler and cairo rasterise; only rectangles on the pixel grid are compared exactly, opacities to one level per layer".into());
    let quick = ctx.tier == Tier::Quick;
    let d = |c: &Case| format!("{:?}", c);
    ctx.section("dimensions", |ch| {
        let sizes: &[f32] = &[0.5, 1., 2., 3., 3.25, 3.5, 7., 10., 33.3, 96., 100.5, 793.70, 1000.];
        let scales = &[0.001, 0.1, 0.2, 0.25, 0.5, 0.75, 1., 1.1, 1.5, 2., 2.625, 3., 3.125, 4., 9.5];
        let c = Case { w: *ch.pick(sizes), h: *ch.pick(sizes), dx: *ch.pick(scales), dy: *ch.pick(scales), white: ch.flag(), printing: false, how: 0, rects: vec![] };
        if quick && (c.w > 500. || c.h > 500.) && (c.dx > 1. || c.dy > 1. || c.white) { return None }
        if c.w > 90. && c.h > 90. && c.dx > 1. && c.dy > 1. { return None }
        Some(c)
    }, d, check);
    ctx.section("entry points", |ch| {
        let how = 1 + ch.choose(2);
        let dx = if how == 2 { 1. } else { *ch.pick(&[0.5, 1., 1.5, 2., 3.125]) };
        let (w, h) = *ch.pick(&[(4., 4.), (7., 3.), (33.3, 12.)]);
        Some(Case { w, h, dx, dy: dx, white: false, printing: false, how, rects: vec![R { x: 1, y: 0, w: 1, h: 1, c: *ch.pick(COLORS) }] })
    }, d, check);
    // One rectangle anywhere, also across the edges of the page.
    ctx.section("one rectangle", |ch| {
        let (dx, dy) = *ch.pick(&[(1., 1.), (2., 2.), (1., 2.), (0.5, 1.), (3., 1.5), (3.125, 3.125), (1., 7.), (0.25, 8.)]);
        let (w, h) = *ch.pick(&[(4f32, 3f32), (2., 5.)]);
        let (dw, dh) = ((w as f64 * dx).floor() as i32, (h as f64 * dy).floor() as i32);
        let x = ch.choose(dw as usize + 3) as i32 - 2;
        let y = ch.choose(dh as usize + 3) as i32 - 2;
        let rw = *ch.pick(&[0, 1, 2, 5]);
        let rh = *ch.pick(&[0, 1, 2, 5]);
        let c = Case { w, h, dx, dy, white: ch.flag(), printing: ch.flag(), how: 0, rects: vec![R { x, y, w: rw, h: rh, c: *ch.pick(&COLORS[..if quick { 3 } else { 5 }]) }] };
        // An empty rectangle paints a hairline or nothing, depending on the renderer.
        if rw == 0 || rh == 0 { return None }
        if c.printing && (c.white || dx != 1.) { return None }
        // A last row or column that is only partly covered is not on the grid.
        if x + rw > dw && (w as f64 * dx).fract() != 0. || y + rh > dh && (h as f64 * dy).fract() != 0. { return None }
        Some(c)
    }, d, check);
    ctx.section("overlapping rectangles", |ch| {
        let n = 2 + ch.choose(2);
        let white = ch.flag();
        let (dx, dy) = *ch.pick(&[(1., 1.), (2., 1.)]);
        let mut rects = Vec::new();
        for i in 0..n {
            let (x, y, w, h) = *ch.pick(&[(0, 0, 2, 2), (1, 1, 2, 2), (0, 1, 4, 1), (1, 0, 1, 4)]);
            let c = if n == 3 { &COLORS[..4] } else { COLORS };
            rects.push(R { x, y, w, h, c: *ch.pick(c) });
            if quick && n == 3 && i == 2 && (dx != 1.) { return None }
        }
        Some(Case { w: 4., h: 4., dx, dy, white, printing: false, how: 0, rects })
    }, d, check);
    // Every option by itself and together with the others.
    ctx.section("options", |ch| {
        let how = *ch.pick(&[0usize, 3, 4, 5, 6]);
        let scales = &[0.5, 1., 2., 3., 1.5, 0.25, 4., 8.];
        let dx = if how == 0 || how == 5 { *ch.pick(scales) } else { 1. };
        let dy = if how == 0 || how == 6 { *ch.pick(scales) } else { 1. };
        let white = if how == 0 || how == 3 { ch.flag() } else { false };
        let printing = if how == 0 || how == 4 { ch.flag() } else { false };
        let mut rects = vec![R { x: 0, y: 0, w: 1, h: 1, c: *ch.pick(COLORS) }];
        if dx * dy >= 1. { rects.push(R { x: 2, y: 1, w: 2, h: 2, c: *ch.pick(COLORS) }) }
        Some(Case { w: 8., h: 4., dx, dy, white, printing, how, rects })
    }, d, check);
    // Every level of every component, and opacities.
    ctx.section("colours", |ch| {
        let l = ch.choose(256) as f32 / 255.;
        let c = match ch.choose(5) { 0 => (l, 0., 1., 1.), 1 => (0., l, 0.2, 1.), 2 => (1., 0.4, l, 1.), 3 => (1., 0., 0.6, l), _ => (l, l, l, 0.5) };
        Some(Case { w: 2., h: 1., dx: 1., dy: 1., white: ch.flag(), printing: false, how: 0, rects: vec![R { x: 1, y: 0, w: 1, h: 1, c }] })
    }, d, check);
    // Many rectangles on one page, among them ones with many different opacities.
    let most = ctx.by(40usize, 400);
    ctx.section("many rectangles", |ch| {
        let n = [1 + ch.choose(most), 1000][ch.choose(2).min(1)];
        let kind = ch.choose(4);
        let rects = (0..n as i32).map(|i| {
            let c = match kind { 0 => ((i % 3) as f32 / 2., (i % 5) as f32 / 4., (i % 2) as f32, 1.), 1 => (1., 0., 0., (1 + i % 97) as f32 / 97.), 2 => ((i % 2) as f32, 0.5, 0.5, [1., 0.5][(i / 2 % 2) as usize]), _ => (0., (i % 11) as f32 / 10., 1., [1., 0.25, 0.][(i % 3) as usize]) };
            // (at most a few on each other, so that rounding does not add up)
            R { x: i % 40 - 1, y: i / 40 * 2 - 1, w: 1 + i % 3, h: 1 + i % 2, c }
        }).collect();
        Some(Case { w: 40., h: 60., dx: 1., dy: 1., white: ch.flag(), printing: false, how: 0, rects })
    }, |c| format!("{} rectangles such as {:?}, white: {}", c.rects.len(), &c.rects[..c.rects.len().min(3)], c.white), check);
    // Pages of a document, rendered in any order and more than once with different options.
    let len = ctx.by(4usize, 5);
    ctx.section("several pages", |ch| {
        let n = 1 + ch.choose(3);
        let k = 1 + ch.choose(len);
        Some((n, (0..k).map(|_| (ch.choose(n), ch.choose(4))).collect::<Vec<_>>()))
    }, |c| format!("{} pages; rendered (page, options): {:?}", c.0, c.1), |(n, order)| {
        let case = |i: usize, o: usize| {
            let (dx, dy, white, printing) = [(1., 1., false, false), (2., 1., true, false), (0.5, 3., false, true), (1., 1., true, true)][o];
            let (w, h) = [(4., 2.), (2., 6.), (6., 2.)][i];
            Case { w, h, dx, dy, white, printing, how: 0, rects: (0..3).map(|k| R { x: (i + k) as i32 % 2 * 2, y: i as i32 + k as i32, w: 2, h: 1, c: COLORS[(i + k) % 4] }).collect() }
        };
        let mut d = Document::new();
        for i in 0..*n { draw(&mut d, &case(i, 0)) }
        let bytes = d.write_to_pdf_bytes();
        let pdf = match PdfDocument::from_bytes(&bytes) { Ok(d) => d, Err(e) => return fail("load", format!("{:?}", e)) };
        let pages: Vec<lester::Page> = pdf.pages().collect();
        if pages.len() != *n { return fail("page", format!("{} pages", pages.len())) }
        let mut out = Vec::new();
        for &(i, o) in order {
            let mut c = case(i, o);
            // in device pixels
            for r in &mut c.rects { let s = |v: i32, d: f64| v as f64 * d; let e = (s(r.x, c.dx), s(r.y, c.dy), s(r.w, c.dx), s(r.h, c.dy)); if [e.0, e.1, e.2, e.3].iter().any(|v| v.fract() != 0.) { return Ok(0) } *r = R { x: e.0 as i32, y: e.1 as i32, w: e.2 as i32, h: e.3 as i32, c: r.c } }
            out.push(compare(&c, &pages[i])?);
        }
        Ok(fp(&out))
    });
}
