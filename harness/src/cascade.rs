//! C11 (cascade) and C16 (shorthands).
use crate::css::*;
use crate::engine::*;
use crate::layout::*;
use crate::refl::*;

type Decl = (P, V);
/// One declaration competing for an element.
#[derive(Clone)]
struct D { decls: Vec<Decl>, important: bool, attr: bool, spec: (u32, u32, u32) }

/// The winning declaration of each property, in any order.
fn winners(ds: &[D]) -> Vec<Decl> {
    let mut best: Vec<(P, V, (bool, bool, (u32, u32, u32)))> = Vec::new();
    for d in ds {
        let k = (d.important, d.attr, d.spec);
        for (p, v) in &d.decls {
            match best.iter_mut().find(|b| b.0 == *p) {
                Some(b) => if k >= b.2 { *b = (*p, v.clone(), k) },
                None => best.push((*p, v.clone(), k)),
            }
        }
    }
    best.into_iter().map(|b| (b.0, b.1)).collect()
}
const SELECTORS: &[(&str, Option<(u32, u32, u32)>, Option<(u32, u32, u32)>, Option<(u32, u32, u32)>)] = &[ // text, specificity on r, x, y
    ("*", Some((0, 0, 0)), Some((0, 0, 0)), Some((0, 0, 0))),
    ("x", None, Some((0, 0, 1)), None),
    (".c", None, Some((0, 1, 0)), None),
    ("#i", None, Some((1, 0, 0)), None),
    ("x.c", None, Some((0, 1, 1)), None),
    ("[a]", None, Some((0, 1, 0)), None),
    ("y,x,#i", None, Some((1, 0, 0)), Some((0, 0, 1))),
    ("y", None, None, Some((0, 0, 1))),
    (".c.c.c.c.c.c.c.c.c.c.c.c", None, Some((0, 12, 0)), None),
    ("r>x", None, Some((0, 0, 2)), None),
    ("x x", None, None, None),
    (":root", Some((0, 1, 0)), None, None),
    ("x:not(#j)", None, Some((1, 0, 1)), None),
];
fn slot_decl(mode: usize, i: usize) -> Vec<Decl> {
    match mode {
        0 => vec![(P::Bg, V::Color(bg(i)))],
        1 => vec![(P::FontSize, if i == 1 { V::Em(2.) } else { V::Len(10. + 3. * i as f64) })],
        2 => if i % 2 == 0 { (0..4).map(|k| (P::M(k), V::Len(5. + 3. * i as f64))).collect() } else { vec![(P::M(3), V::Len(6. + 4. * i as f64))] },
        3 => vec![(P::Bg, match i { 0 => V::Color(bg(0)), 1 => V::Inherit, 2 => V::Initial, _ => V::Unset })],
        4 => vec![(P::Color, V::Color(Col::Rgba([40 + 50 * i as u8, 0, 90, 255])))],
        _ => vec![(P::FontSize, V::Len(11. + 2. * i as f64)), (P::Bg, V::Color(bg(i))), (P::W, V::Em(4.))],
    }
}
fn slot_css(mode: usize, i: usize, imp: bool) -> String {
    let d = slot_decl(mode, i);
    let bang = if imp { " !important" } else { "" };
    if mode == 2 && i % 2 == 0 { format!("margin:{}{};", value_css(&d[0].1), bang) } else { d.iter().map(|(p, v)| format!("{}:{}{};", name(*p), value_css(v), bang)).collect() }
}

fn slots(ctx: &mut Ctx, label: &str, n: usize, sels: &'static [usize], modes: &'static [usize]) {
    ctx.section(label, |c| {
        let mode = *c.pick(modes);
        let mut sheets = vec![String::from("r,x,y{display:block}d{display:none}")];
        let mut attr = String::new();
        let (mut dr, mut dx, mut dy): (Vec<D>, Vec<D>, Vec<D>) = (vec![], vec![], vec![]);
        let mut open: Option<usize> = None; // selector of the rule being written
        for i in 0..n {
            // same rule / new rule / new sheet / style attribute
            let place = if i == 0 { 1 + 2 * c.choose(2) } else { c.choose(4) };
            let imp = c.flag();
            let text = slot_css(mode, i, imp);
            let d = |spec| D { decls: slot_decl(mode, i), important: imp, attr: place == 3, spec };
            let s = match place {
                3 => { attr += &text; dx.push(d((0, 0, 0))); continue }
                0 => { let s = match open { Some(s) => s, None => return None }; s }
                _ => {
                    let s = *c.pick(sels);
                    if place == 2 { if sheets.len() == 3 { return None } if open.is_some() { sheets.last_mut().unwrap().push('}') } sheets.push(String::new()) }
                    else if open.is_some() { sheets.last_mut().unwrap().push('}') }
                    sheets.last_mut().unwrap().push_str(&format!("{}{{", SELECTORS[s].0));
                    open = Some(s);
                    s
                }
            };
            sheets.last_mut().unwrap().push_str(&text);
            let s = SELECTORS[s];
            if let Some(k) = s.1 { dr.push(d(k)) }
            if let Some(k) = s.2 { dx.push(d(k)) }
            if let Some(k) = s.3 { dy.push(d(k)) }
        }
        if open.is_some() { sheets.last_mut().unwrap().push('}') }
        while sheets.len() < 3 { sheets.push(String::new()) }
        let base = (P::Display, V::Disp(Disp::Block));
        let r = apply(&Cs::initial(), &[vec![base.clone()], winners(&dr)].concat());
        let x = apply(&r, &[vec![base.clone()], winners(&dx)].concat());
        let y = apply(&r, &[vec![base], winners(&dy)].concat());
        let tree = el(r, vec![el(x, vec![text("t")]), el(y, vec![text("u")])]);
        let src = format!("<r xmlns=\"{}\"><style>{}</style><x id=\"i\" class=\"c\" a=\"\"{}>t</x><d><style>{}</style></d><y>u</y><style>{}</style></r>",
            XHTML, esc(&sheets[0]), if attr.is_empty() { String::new() } else { format!(" style=\"{}\"", esc(&attr)) }, esc(&sheets[1]), esc(&sheets[2]));
        Some(Case { src, tree, ordered: true, alt: vec![] })
    }, show_case, check_case);
}

pub fn c11(ctx: &mut Ctx) {
    ctx.assumptions.push("declarations are observed through the painted result (colours, sizes); cssparser tokenizes both for Victor and nothing else; the media attribute is not implemented and not in the alphabet".into());
    slots(ctx, "two", 2, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12], &[0, 1, 2, 3, 4, 5]);
    if ctx.quick() {
        slots(ctx, "three", 3, &[0, 1, 2, 3, 6], &[0, 1, 2, 3, 4, 5]);
        slots(ctx, "four", 4, &[1, 3], &[0, 2, 5]);
    } else {
        slots(ctx, "three", 3, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9], &[0, 1, 2, 3, 4, 5]);
        slots(ctx, "four", 4, &[0, 1, 2, 3], &[0, 2, 5]);
        slots(ctx, "five", 5, &[1, 3], &[0]);
    }
    // One block: repeated, invalid and important declarations, against a competitor before and after.
    let depth = ctx.by(4, 5);
    ctx.section("blocks", |c| {
        let len = 1 + c.choose(depth);
        let mut dx: Vec<D> = Vec::new();
        let mut sheet = String::from("r,x{display:block}");
        let k = (0, 0, 1);
        let comp = c.choose(5); // competitor: none, before, before important, after, after important
        let rule = |dx: &mut Vec<D>, imp: bool, i: usize| { dx.push(D { decls: vec![(P::Bg, V::Color(bg(i))), (P::FontSize, V::Len(20. + i as f64))], important: imp, attr: false, spec: k });
            format!("x{{background-color:{c}{b};font-size:{}px{b}}}", 20 + i, c = value_css(&V::Color(bg(i))), b = if imp { "!important" } else { "" }) };
        if comp == 1 || comp == 2 { let t = rule(&mut dx, comp == 2, 6); sheet += &t }
        let mut body = String::new();
        for i in 0..len {
            let (t, d, imp): (String, Option<Decl>, bool) = match c.choose(12) {
                0 => (format!("background-color:{}", value_css(&V::Color(bg(i)))), Some((P::Bg, V::Color(bg(i)))), false),
                1 => (format!("background-color:{}!important", value_css(&V::Color(bg(i)))), Some((P::Bg, V::Color(bg(i)))), true),
                2 => ("background-color:5px".into(), None, false),
                3 => ("background-color:nope !important".into(), None, false),
                4 => (format!("background-color:{} x", value_css(&V::Color(bg(i)))), None, false),
                5 => (format!("background-color:{} !important x", value_css(&V::Color(bg(i)))), None, false),
                6 => ("foo:bar!important".into(), None, false),
                7 => (format!("font-size:{}px", 10 + i), Some((P::FontSize, V::Len(10. + i as f64))), false),
                8 => (format!("font-size:{}px!IMPORTANT", 10 + i), Some((P::FontSize, V::Len(10. + i as f64))), true),
                9 => ("background-color:inherit".into(), Some((P::Bg, V::Inherit)), false),
                10 => ("background-color:initial! important".into(), Some((P::Bg, V::Initial)), true),
                _ => ("font-size:unset".into(), Some((P::FontSize, V::Unset)), false),
            };
            body += &t;
            body += [";", " ; "][i % 2];
            if let Some(d) = d { dx.push(D { decls: vec![d], important: imp, attr: false, spec: k }) }
        }
        let in_attr = c.flag();
        if in_attr { for d in dx.iter_mut().skip((comp == 1 || comp == 2) as usize) { d.attr = true; } } else { sheet += &format!("x{{{}}}", body) }
        if comp > 2 { let t = rule(&mut dx, comp == 4, 7); sheet += &t }
        let r = apply(&Cs::initial(), &[(P::Display, V::Disp(Disp::Block)), (P::Bg, V::Color(Col::Rgba([250, 240, 230, 255])))]);
        let x = apply(&r, &[vec![(P::Display, V::Disp(Disp::Block))], winners(&dx)].concat());
        let src = format!("<r xmlns=\"{}\"><style>r{{background:#faf0e6}}{}</style><x{}>t</x></r>", XHTML, esc(&sheet), if in_attr { format!(" style=\"{}\"", esc(&body)) } else { String::new() });
        Some(Case { src, tree: el(r, vec![el(x, vec![text("t")])]), ordered: true, alt: vec![] })
    }, show_case, check_case);
    // Specificities of large components (they count up to 1023 each).
    ctx.section("large specificities", |c| {
        const N: &[u32] = &[0, 1, 2, 16, 255, 1000];
        let s1 = (*c.pick(N), *c.pick(N), *c.pick(N));
        let near = |c: &mut Chooser, k: u32| [k, k + 1, k.saturating_sub(1), 0, 1000][c.choose(5)];
        let s2 = (near(c, s1.0), near(c, s1.1), near(c, s1.2));
        let alike = c.choose(2);
        let sel = |s: (u32, u32, u32)| { let t = format!("{}{}{}", "#i".repeat(s.0 as usize), [".c", "[a]"][alike].repeat(s.1 as usize), ":not(y)".repeat(s.2 as usize)); if t.is_empty() { "*".to_string() } else { t } };
        let (mut dx, mut css) = (vec![], String::from("r,x{display:block}"));
        for (i, s) in [s1, s2].iter().enumerate() {
            let d = (P::FontSize, V::Len(10. + i as f64));
            css += &format!("{}{{{}:{}}}", sel(*s), name(d.0), value_css(&d.1));
            dx.push(D { decls: vec![d], important: false, attr: false, spec: *s });
        }
        let base = (P::Display, V::Disp(Disp::Block));
        let r0 = dx.iter().filter(|d| d.spec.0 == 0 && d.spec.1 == 0).cloned().collect::<Vec<_>>(); // what does not name the element also matches the root
        let r = apply(&Cs::initial(), &[vec![base.clone()], winners(&r0)].concat());
        let x = apply(&r, &[vec![base], winners(&dx)].concat());
        let src = format!("<r xmlns=\"{}\"><style>{}</style><x class=\"c\" a=\"\" id=\"i\">t</x></r>", XHTML, css);
        Some(Case { src, tree: el(r, vec![el(x, vec![text("t")])]), ordered: true, alt: vec![] })
    }, show_case, check_case);
    // Long style sheets: order decides among many rules of equal specificity.
    let most = ctx.by(64usize, 300);
    ctx.section("many rules", |c| {
        let n = 1 + c.choose(most);
        let pat: Vec<usize> = { let l = 1 + c.choose(3); (0..l).map(|_| c.choose(4)).collect() };
        let sheets = 1 + c.choose(2);
        let (mut dx, mut css): (Vec<D>, Vec<String>) = (vec![], vec![String::from("r,x{display:block}"), String::new()]);
        for i in 0..n {
            let k = pat[i % pat.len()];
            let d = if k < 2 { (P::Bg, V::Color(Col::Rgba([i as u8, (i / 256 * 50) as u8, 100, 255]))) } else { (P::FontSize, V::Len(10. + i as f64 / 8.)) };
            css[i * sheets / n] += &format!("{}{{{}:{}}}", ["x", ".c"][k % 2], name(d.0), value_css(&d.1));
            dx.push(D { decls: vec![d], important: false, attr: false, spec: if k % 2 == 0 { (0, 0, 1) } else { (0, 1, 0) } });
        }
        let base = (P::Display, V::Disp(Disp::Block));
        let r = apply(&Cs::initial(), &[base.clone()]);
        let x = apply(&r, &[vec![base], winners(&dx)].concat());
        let src = format!("<r xmlns=\"{}\"><style>{}</style><x class=\"c\">t</x><style>{}</style></r>", XHTML, css[0], css[1]);
        Some(Case { src, tree: el(r, vec![el(x, vec![text("t")])]), ordered: true, alt: vec![] })
    }, show_case, check_case);
    // Long declaration blocks: how many declarations came before changes nothing.
    let most = ctx.by(140usize, 400);
    ctx.section("long blocks", |c| {
        let n = 1 + c.choose(most);
        let pat: Vec<usize> = { let l = 1 + c.choose(3); (0..l).map(|_| c.choose(4)).collect() };
        let in_attr = c.flag();
        let mut body = String::new();
        let mut dx: Vec<D> = Vec::new();
        for i in 0..n {
            let k = pat[i % pat.len()];
            let d = if k % 2 == 0 { (P::Bg, V::Color(Col::Rgba([i as u8, (i / 256 * 50) as u8, 100, 255]))) } else { (P::FontSize, V::Len(10. + i as f64 / 8.)) };
            body += &format!("{}:{}{};", name(d.0), value_css(&d.1), if k > 1 { "!important" } else { "" });
            dx.push(D { decls: vec![d], important: k > 1, attr: in_attr, spec: (0, 0, 1) });
        }
        dx.push(D { decls: vec![(P::Bg, V::Color(bg(1))), (P::FontSize, V::Len(7.))], important: false, attr: false, spec: (0, 1, 0) });
        let base = (P::Display, V::Disp(Disp::Block));
        let r = apply(&Cs::initial(), &[base.clone()]);
        let x = apply(&r, &[vec![base], winners(&dx)].concat());
        let src = format!("<r xmlns=\"{}\"><style>r,x{{display:block}}{}.c{{background-color:{};font-size:7px}}</style><x class=\"c\"{}>t</x></r>", XHTML, if in_attr { String::new() } else { format!("x{{{}}}", body) }, value_css(&V::Color(bg(1))), if in_attr { format!(" style=\"{}\"", body) } else { String::new() });
        Some(Case { src, tree: el(r, vec![el(x, vec![text("t")])]), ordered: true, alt: vec![] })
    }, show_case, check_case);
    // Which elements have a style attribute: those of HTML, SVG and MathML, and only the attribute in no namespace.
    ctx.section("style attributes", |c| {
        let (html, which) = (c.flag(), c.choose(7));
        let imp = c.choose(3); // importance: none, attribute, sheet
        let spec = *c.pick(&[("*", (0, 0, 0)), ("#i", (1, 0, 0))]);
        let place = c.flag(); // whether the attribute comes after others
        let d = |k: usize, i: bool| format!("background-color:{}{}", value_css(&V::Color(bg(k))), if i { "!important" } else { "" });
        let own = d(1, imp == 1);
        let (tag, end, applies) = if html {
            match which {
                0 => (format!("x style='{}'", own), "x", true), 1 => (format!("svg style='{}'", own), "svg", true), 2 => (format!("math style='{}'", own), "math", true),
                3 => (format!("x STYLE='{}'", own), "x", true), 4 => (format!("x style='{}' style='{}'", own, d(2, true)), "x", true), 5 => (format!("x data-style='{}'", own), "x", false), _ => (format!("x xml:style='{}'", own), "x", false),
            }
        } else {
            match which {
                0 => (format!("x style='{}'", own), "x", true), 1 => (format!("s:x style='{}'", own), "s:x", true), 2 => (format!("m:x style='{}'", own), "m:x", true),
                3 => (format!("x STYLE='{}'", own), "x", false), 4 => (format!("n:x style='{}'", own), "n:x", false), 5 => (format!("x xmlns='' style='{}'", own), "x", false), _ => (format!("x n:style='{}'", own), "x", false),
            }
        };
        let tag = if place { tag.replacen(' ', " a='1' ", 1) + " b='2'" } else { tag };
        let tag = tag.replacen(' ', " id='i' ", 1);
        let mut dx = vec![D { decls: vec![(P::Bg, V::Color(bg(0)))], important: imp == 2, attr: false, spec: spec.1 }];
        if applies { dx.push(D { decls: vec![(P::Bg, V::Color(bg(1)))], important: imp == 1, attr: true, spec: (0, 0, 0) }) }
        let base = (P::Display, V::Disp(Disp::Block));
        let body = apply(&Cs::initial(), &[base.clone()]);
        let x = apply(&body, &[vec![base], winners(&dx)].concat());
        let sheet = format!("*{{display:block;margin:0}}head,style,h{{display:none}}body &gt; {s},r &gt; {s}:not(h){{{}}}", d(0, imp == 2), s = spec.0);
        let tree = if html { el(body.clone(), vec![el(body, vec![el(x, vec![text("t")])])]) } else { el(body, vec![el(x, vec![text("t")])]) };
        let src = if html { format!("<!DOCTYPE html><style>{}</style><body><{}>t</{}>", sheet.replace("&gt;", ">"), tag, end) }
            else { format!("<r xmlns=\"{}\" xmlns:s='http://www.w3.org/2000/svg' xmlns:m='http://www.w3.org/1998/Math/MathML' xmlns:n='urn:n'><h><style>{}</style></h><{}>t</{}></r>", XHTML, sheet, tag, end) };
        Some(Case { src, tree, ordered: true, alt: vec![] })
    }, show_case, check_case);
    // The text of a style element in XML: its own text and CDATA children, joined; and only XHTML style elements count.
    ctx.section("sheet text", |c| {
        let mut src = format!("<r xmlns=\"{}\" xmlns:s='http://www.w3.org/2000/svg' xmlns:h=\"{}\" xmlns:n='urn:n'><style>r,x{{display:block}}style{{display:none}}</style>", XHTML, XHTML);
        let mut dx: Vec<D> = Vec::new();
        let mut after = String::new();
        for i in 0..2 {
            let v = value_css(&V::Color(bg(i)));
            let (t, ok) = match c.choose(16) {
                0 => (format!("<style>x<!-- , y --> {{background-color:{}}}</style>", v), true),
                1 => (format!("<style>x {{back<!-- -->ground-color:{}}}</style>", v), true),
                2 => (format!("<style><![CDATA[x{{background-color:]]>{}<![CDATA[}}]]></style>", v), true),
                3 => (format!("<style>x{{background<?p }} ?>-color:{}}}</style>", v), true),
                4 => (format!("<style>x{{background-color:{}}}<b>x{{background-color:#fff!important}}</b></style>", v), true),
                5 => (format!("<style><b>x{{background-color:{}}}</b></style>", v), false),
                6 => (format!("<style>x{{background-<b>y</b>color:{}}}</style>", v), true),
                7 => (format!("<style>r&gt;x{{background-color:{}}}</style>", v), true),
                8 => (format!("<style>&#x78;{{background-color:{}}}</style>", v), true),
                9 => (format!("<n:style>x{{background-color:{}}}</n:style>", v), false),
                10 => (format!("<h:style>x{{background-color:{}}}</h:style>", v), true),
                11 => (format!("<STYLE>x{{background-color:{}}}</STYLE>", v), false),
                12 => (format!("<style n:type='text/plain'>x{{background-color:{}}}</style>", v), true),
                13 => (format!("<style xmlns=''>x{{background-color:{}}}</style>", v), false),
                14 => (format!("<template><style>x{{background-color:{}}}</style></template>", v), false),
                _ => (format!("<n:template><style>x{{background-color:{}}}</style></n:template>", v), true),
            };
            if ok { dx.push(D { decls: vec![(P::Bg, V::Color(bg(i)))], important: false, attr: false, spec: if t.contains("r&gt;x") { (0, 0, 2) } else { (0, 0, 1) } }) }
            if c.flag() { if i == 0 { return None } after = t } else { src += &t }
        }
        src = src.replace("style{display:none}", "style,STYLE,template{display:none}*|style,*|template{display:none}");
        src += "<x>t</x>";
        src += &after;
        src += "</r>";
        let base = (P::Display, V::Disp(Disp::Block));
        let r = apply(&Cs::initial(), &[base.clone()]);
        let x = apply(&r, &[vec![base], winners(&dx)].concat());
        Some(Case { src, tree: el(r, vec![el(x, vec![text("t")])]), ordered: true, alt: vec![] })
    }, show_case, check_case);
    // Which style elements count, and in which order.
    ctx.section("style elements", |c| {
        let n = 3;
        let mut dx: Vec<D> = Vec::new();
        let mut src = String::from("<!DOCTYPE html><body><style>body{margin:0}x{display:block}</style>");
        let mut after = String::new();
        for i in 0..n {
            let rule = format!("x{{background:{}}}", value_css(&V::Color(bg(i))));
            let ok = |dx: &mut Vec<D>| dx.push(D { decls: vec![(P::Bg, V::Color(bg(i)))], important: false, attr: false, spec: (0, 0, 1) });
            let t = match c.choose(14) {
                0 => { ok(&mut dx); format!("<style>{}</style>", rule) }
                1 => { ok(&mut dx); format!("<style type=\"\">{}</style>", rule) }
                2 => { ok(&mut dx); format!("<style type=\"text/css\">{}</style>", rule) }
                3 => { ok(&mut dx); format!("<STYLE TYPE='Text/CSS'>{}</style>", rule) }
                4 => format!("<style type=\"text/plain\">{}</style>", rule),
                5 => format!("<style type=\"css\">{}</style>", rule),
                6 => format!("<template><style>{}</style></template>", rule),
                7 => format!("<!--<style>{}</style>-->", rule),
                8 => { ok(&mut dx); format!("<div><div><style>{}</style></div></div>", rule) }
                9 => format!("<script>{}</script>", rule),
                10 => format!("<textarea hidden><style>{}</style></textarea>", rule),
                11 => { ok(&mut dx); format!("<style><!-- {} --></style>", rule) }
                12 => format!("<style>{}", rule.replace("x{", "x y{") + "</style>"),
                _ => { ok(&mut dx); format!("<p hidden><style>{}", rule.trim_end_matches('}').to_string() + "</style></p>") } // end of sheet closes the block
            };
            if c.flag() { if i < n - 1 { return None } after = t } else { src += &t }
        }
        src += "<x>t</x>";
        src += &after;
        let body = apply(&Cs::initial(), &[(P::Display, V::Disp(Disp::Block))]);
        let x = apply(&body, &[vec![(P::Display, V::Disp(Disp::Block))], winners(&dx)].concat());
        Some(Case { src, tree: el(body.clone(), vec![el(body, vec![el(x, vec![text("t")])])]), ordered: true, alt: vec![] })
    }, show_case, check_case);
    // The user-agent style sheet against author declarations.
    ctx.section("user agent origin", |c| {
        // element, UA display, UA display important, attributes matched by [hidden]
        let els: &[(&str, &str, bool, bool)] = &[("div", "div", false, false), ("div", "div hidden", false, true), ("p", "p", false, false), ("x", "x hidden=''", false, true), ("x", "x", false, false), ("input", "input type=hidden", true, false), ("input", "input type=HIDDEN", true, false), ("input", "input type=text", false, false),
            ("embed", "embed hidden", false, true), ("embed", "embed", false, false), ("datalist", "datalist", false, false), ("main", "main", false, false), ("x", "x type=hidden", false, false)];
        let (nm, tag, important_none, hidden) = *c.pick(els);
        let mut ua: Vec<D> = Vec::new();
        if hidden { ua.push(D { decls: vec![(P::Display, V::Disp(Disp::None))], important: false, attr: false, spec: (0, 1, 0) }) }
        match nm {
            "div" | "p" | "main" => ua.push(D { decls: vec![(P::Display, V::Disp(Disp::Block))], important: false, attr: false, spec: (0, 0, 1) }),
            "datalist" => ua.push(D { decls: vec![(P::Display, V::Disp(Disp::None))], important: false, attr: false, spec: (0, 0, 1) }),
            "embed" if hidden => ua.push(D { decls: vec![(P::Display, V::Disp(Disp::Inline)), (P::H, V::Len(0.)), (P::W, V::Len(0.))], important: false, attr: false, spec: (0, 1, 1) }),
            _ => {}
        }
        let mut author: Vec<D> = Vec::new();
        let mut sheet = String::new();
        let mut attr = String::new();
        let values = [V::Disp(Disp::Block), V::Disp(Disp::Inline), V::Disp(Disp::None), V::Initial, V::Unset, V::Inherit, V::Disp(Disp::FlowRoot)];
        for _ in 0..c.choose(3) {
            let v = c.pick(&values).clone();
            let imp = c.flag();
            let (s, spec) = *c.pick(&[("", (0, 0, 0)), ("*", (0, 0, 0)), ("#e", (1, 0, 0))]);
            let d = format!("display:{}{}", value_css(&v), if imp { "!important" } else { "" });
            if s.is_empty() { attr += &d; attr.push(';') } else { sheet += &format!("{}{{{}}}", s.replace('*', "body *"), d) }
            author.push(D { decls: vec![(P::Display, v)], important: imp, attr: s.is_empty(), spec });
        }
        let body_margin = c.choose(3);
        let mut bd: Vec<Decl> = vec![(P::Display, V::Disp(Disp::Block))];
        let m = |v: V| (0..4).map(|k| (P::M(k), v.clone())).collect::<Vec<_>>();
        bd.extend(match body_margin { 0 => m(V::Len(8.)), 1 => { sheet += "*{margin-left:3px}"; let mut v = m(V::Len(8.)); v[3].1 = V::Len(3.); v } _ => { sheet += "body{margin-left:initial}"; let mut v = m(V::Len(8.)); v[3].1 = V::Len(0.); v } });
        let mut winner = winners(&ua);
        let aw = winners(&author);
        if !aw.is_empty() { winner.retain(|d| d.0 != P::Display); winner.extend(aw) }
        if important_none { winner.retain(|d| d.0 != P::Display); winner.push((P::Display, V::Disp(Disp::None))) }
        if body_margin == 1 { winner.push((P::M(3), V::Len(3.))) }
        winner.push((P::Bg, V::Color(bg(1))));
        let html = apply(&Cs::initial(), &[vec![(P::Display, V::Disp(Disp::Block))], if body_margin == 1 { vec![(P::M(3), V::Len(3.))] } else { vec![] }].concat());
        let body = apply(&html, &bd);
        let e = apply(&body, &winner);
        let void = nm == "embed" || nm == "input";
        let src = format!("<!DOCTYPE html><html><head><style>{}#e{{background:{}}}</style><title>no</title></head><body><{} id=e style=\"{}\">{}a", sheet, value_css(&V::Color(bg(1))), tag, attr, if void { String::new() } else { format!("k</{}>", nm) });
        let e_disp = e.disp;
        let mut kids = vec![el(e, if void { vec![] } else { vec![text("k")] }), text("a")];
        if sheet.contains("body *") && e_disp == Disp::None { kids = vec![text("a")] }
        Some(Case { src, tree: el(html, vec![el(body, kids)]), ordered: true, alt: vec![] })
    }, show_case, check_case);
}

// ---------------------------------------------------------------- shorthands

fn four(sh: &str) -> [P; 4] {
    let f: fn(usize) -> P = match sh { "margin" => P::M, "padding" => P::Pd, "border-width" => P::Bw, "border-style" => P::Bs, _ => P::Bc };
    [f(0), f(1), f(2), f(3)]
}
fn sides_values(sh: &str) -> Vec<(&'static str, V)> {
    match sh {
        "margin" => vec![("10px", V::Len(10.)), ("5%", V::Pct(5.)), ("auto", V::Auto), ("2EM", V::Em(2.)), ("0", V::Len(0.)), ("-3px", V::Len(-3.))],
        "padding" => vec![("10px", V::Len(10.)), ("5%", V::Pct(5.)), ("2em", V::Em(2.)), ("0", V::Len(0.)), ("1px", V::Len(1.)), ("4.5px", V::Len(4.5))],
        "border-width" => vec![("10px", V::Len(10.)), ("thin", V::Len(1.)), ("2em", V::Em(2.)), ("0", V::Len(0.)), ("MEDIUM", V::Len(3.)), ("thick", V::Len(5.))],
        "border-style" => vec![("solid", V::Solid(true)), ("none", V::Solid(false))],
        _ => vec![("red", V::Color(Col::Cur)), ("currentColor", V::Color(Col::Cur)), ("#123", V::Color(Col::Cur))],
    }
}
/// A block with distinguishable sides, inside a wider parent: every margin, border and padding change shows.
fn sides_case(css_text: &str, win: &[Decl], alt: Option<(String, Vec<Decl>)>) -> Case {
    let base: Vec<Decl> = {
        let mut v = vec![(P::Display, V::Disp(Disp::Block)), (P::Bg, V::Color(bg(1)))];
        for k in 0..4 { v.push((P::Pd(k), V::Len(6. + k as f64))); v.push((P::Bs(k), V::Solid(true))); v.push((P::Bw(k), V::Len(11. + 2. * k as f64))); v.push((P::M(k), V::Len(20. + 5. * k as f64))) }
        v
    };
    let mk = |win: &[Decl]| {
        let r = apply(&Cs::initial(), &[(P::Display, V::Disp(Disp::FlowRoot)), (P::W, V::Len(300.)), (P::M(0), V::Len(2.)), (P::Pd(3), V::Len(4.)), (P::Bg, V::Color(bg(0)))]);
        let x = apply(&r, &[base.clone(), win.to_vec()].concat());
        let k = apply(&x, &[(P::Display, V::Disp(Disp::Block)), (P::Bg, V::Color(bg(2))), (P::H, V::Len(9.))]);
        let y = apply(&r, &[(P::Display, V::Disp(Disp::Block)), (P::Bg, V::Color(bg(3))), (P::H, V::Len(9.))]);
        el(r, vec![el(x, vec![el(k, vec![])]), el(y, vec![])])
    };
    let src = format!("<r xmlns=\"{}\"><style>r{{display:flow-root;width:300px;margin-top:2px;padding-left:4px;background-color:{}}}x,k,y{{display:block;height:9px}}x{{height:auto;{}}}k{{background-color:{}}}y{{background-color:{}}}x{{{}}}</style><x><k/></x><y/></r>",
        XHTML, value_css(&V::Color(bg(0))), css(&base), value_css(&V::Color(bg(2))), value_css(&V::Color(bg(3))), esc(css_text));
    Case { src, tree: mk(win), ordered: true, alt: alt.map(|(k, w)| (k, mk(&w))).into_iter().collect() }
}

pub fn c16(ctx: &mut Ctx) {
    ctx.assumptions.push("the reference expansion is written from CSS 2.1 and CSS Backgrounds 3; the order of four sides is a known finding".into());
    const SH: &[&str] = &["margin", "padding", "border-width", "border-style", "border-color"];
    ctx.section("four sides", |c| {
        let sh = *c.pick(SH);
        let vals = sides_values(sh);
        let p = four(sh);
        let n = 1 + c.choose(5);
        let k = if n < 4 { vals.len() } else { vals.len().min(4) };
        let v: Vec<(&str, V)> = (0..n).map(|_| vals[c.choose(k)].clone()).collect();
        let imp = c.flag();
        let competitor = c.choose(3);
        let mut t = v.iter().map(|v| v.0).collect::<Vec<_>>().join([" ", "/**/ ", "\n"][c.choose(if n == 2 { 3 } else { 1 })]);
        t = format!("{}:{}{};", if n == 3 { sh.to_uppercase() } else { sh.to_string() }, t, if imp { "!important" } else { "" });
        let idx = match n { 1 => [0, 0, 0, 0], 2 => [0, 1, 0, 1], 3 => [0, 1, 2, 1], _ => [0, 1, 2, 3] };
        let mk = |idx: [usize; 4]| -> Vec<Decl> { (0..4).map(|s| (p[s], v[idx[s]].1.clone())).collect() };
        let d = |decls| D { decls, important: imp, attr: false, spec: (0, 0, 1) };
        let other = (p[1], vals[1 % vals.len()].1.clone());
        let od = D { decls: vec![other.clone()], important: competitor == 2, attr: false, spec: (0, 0, 1) };
        let ot = format!("{}:{}{};", name(other.0), vals[1 % vals.len()].0, if competitor == 2 { "!important" } else { "" });
        let mut list = vec![];
        if n < 5 { list.push(d(mk(idx))) }
        let mut alt = None;
        if n == 4 {
            let mut l = vec![d(mk([0, 3, 2, 1]))];
            if competitor > 0 { l.push(od.clone()) }
            alt = Some((format!("four-sides-order:{}", sh), winners(&l)));
        }
        if competitor > 0 { list.push(od); t += &ot }
        Some(sides_case(&t, &winners(&list), alt))
    }, show_case, check_case);
    ctx.section("invalid parts", |c| {
        let sh = *c.pick(SH);
        let vals = sides_values(sh);
        let p = four(sh);
        let n = 1 + c.choose(4);
        let at = c.choose(n);
        let bad = *c.pick(&["foo", "1", ",", "/", "inherit", "initial", "unset", "(1px)", "'x'", "solid 1px red", "!", "!important", "-", "url(x)", "{}", "[", "1px,", "#", "5px5px", "nothing"]);
        let mut parts: Vec<&str> = (0..n).map(|i| vals[i % vals.len()].0).collect();
        if n == 1 && (bad == "inherit" || bad == "initial" || bad == "unset") { return None }
        if bad == "!important" && at == n - 1 && n > 1 { return None }
        parts[at] = bad;
        let imp = if bad == "[" { false } else { c.flag() };
        let before = c.choose(3);
        let t = format!("{}{}:{}{};{}:{}", if before == 1 { format!("{}:{};", name(p[2]), vals[0].0) } else if before == 2 { format!("{}:{}!important;", sh, vals[1].0) } else { String::new() },
            sh, parts.join(" "), if imp { "!important" } else { "" }, name(p[3]), vals[0].0);
        let mut l = Vec::new();
        if before == 1 { l.push(D { decls: vec![(p[2], vals[0].1.clone())], important: false, attr: false, spec: (0, 0, 1) }) }
        if before == 2 { l.push(D { decls: (0..4).map(|k| (p[k], vals[1].1.clone())).collect(), important: true, attr: false, spec: (0, 0, 1) }) }
        if bad != "[" { l.push(D { decls: vec![(p[3], vals[0].1.clone())], important: false, attr: false, spec: (0, 0, 1) }) }
        Some(sides_case(&t, &winners(&l), None))
    }, show_case, check_case);
    // Sequences of shorthands and longhands of the same family, in two rules.
    let depth = ctx.by(4, 5);
    ctx.section("order", |c| {
        let sh = *c.pick(&["margin", "padding", "border-width"]);
        let p = four(sh);
        let l1 = |v: V| (0..4).map(|k| (p[k], v.clone())).collect::<Vec<_>>();
        let n = 1 + c.choose(depth);
        let split = c.choose(2); // whether a second rule starts half-way
        let mut list = Vec::new();
        let mut t = String::new();
        for i in 0..n {
            let v = 4. + 3. * i as f64;
            let spec = (0, 0, 1);
            let (s, d, imp): (String, Option<Vec<Decl>>, bool) = match c.choose(9) {
                0 => (format!("{}:{}px", sh, v), Some(l1(V::Len(v))), false),
                1 => (format!("{}:{}px !important", sh, v), Some(l1(V::Len(v))), true),
                2 => (format!("{}:{}px {}px", sh, v, v + 1.), Some(vec![(p[0], V::Len(v)), (p[1], V::Len(v + 1.)), (p[2], V::Len(v)), (p[3], V::Len(v + 1.))]), false),
                3 => (format!("{}:{}px", name(p[3]), v), Some(vec![(p[3], V::Len(v))]), false),
                4 => (format!("{}:{}px!important", name(p[0]), v), Some(vec![(p[0], V::Len(v))]), true),
                5 => (format!("{}:{}px nope", sh, v), None, false),
                6 => (format!("{}:initial", sh), Some(l1(V::Initial)), false),
                7 => (format!("{}:inherit!important", sh), Some(l1(V::Inherit)), true),
                _ => (format!("{}:unset", name(p[1])), Some(vec![(p[1], V::Unset)]), false),
            };
            if split > 0 && i == n / 2 + 1 { t += "}x{" }
            t += &s;
            t.push(';');
            if let Some(decls) = d { list.push(D { decls, important: imp, attr: false, spec }) }
        }
        Some(sides_case(&t, &winners(&list), None))
    }, show_case, check_case);
    // border-top: any order, omitted parts reset, against its longhands and the four-sided shorthands.
    let max = ctx.by(4, 4);
    ctx.section("border-top", |c| {
        let comps: &[(&str, u8, Option<Decl>)] = &[("solid", 0, Some((P::Bs(0), V::Solid(true)))), ("none", 0, Some((P::Bs(0), V::Solid(false)))), ("7px", 1, Some((P::Bw(0), V::Len(7.)))), ("THIN", 1, Some((P::Bw(0), V::Len(1.)))), ("2em", 1, Some((P::Bw(0), V::Em(2.)))),
            ("red", 2, Some((P::Bc(0), V::Color(Col::Cur)))), ("currentColor", 2, Some((P::Bc(0), V::Color(Col::Cur)))), ("foo", 9, None), ("inherit", 9, None), ("/", 9, None)];
        let n = c.choose(max + 1);
        let mut d = vec![(P::Bs(0), V::Initial), (P::Bw(0), V::Initial)];
        let mut seen = Vec::new();
        let mut ok = n > 0;
        let mut parts = Vec::new();
        for _ in 0..n {
            let (s, k, v) = c.pick(comps).clone();
            if k == 9 || seen.contains(&k) { ok = false }
            seen.push(k);
            parts.push(s);
            if let Some(v) = v { d.retain(|x| x.0 != v.0); d.push(v) }
        }
        let imp = c.flag();
        if parts == ["inherit"] { ok = true; d = vec![(P::Bs(0), V::Inherit), (P::Bw(0), V::Inherit)] }
        let spec = (0, 0, 1);
        let mut l = Vec::new();
        let mut t = String::new();
        match c.choose(4) {
            0 => {}
            1 => { t += "border-top-width:9px;"; l.push(D { decls: vec![(P::Bw(0), V::Len(9.))], important: false, attr: false, spec }) }
            2 => { t += "border-style:none!important;"; l.push(D { decls: (0..4).map(|k| (P::Bs(k), V::Solid(false))).collect(), important: true, attr: false, spec }) }
            _ => { t += "border-top:solid 4px;"; l.push(D { decls: vec![(P::Bs(0), V::Solid(true)), (P::Bw(0), V::Len(4.))], important: false, attr: false, spec }) }
        }
        t += &format!("border-top:{}{};", parts.join(" "), if imp { " !important" } else { "" });
        if ok { l.push(D { decls: d, important: imp, attr: false, spec }) }
        match c.choose(4) {
            0 => {}
            1 => { t += "border-width:8px;"; l.push(D { decls: (0..4).map(|k| (P::Bw(k), V::Len(8.))).collect(), important: false, attr: false, spec }) }
            2 => { t += "border-top-style:solid;"; l.push(D { decls: vec![(P::Bs(0), V::Solid(true))], important: false, attr: false, spec }) }
            _ => { t += "border-top:unset;"; l.push(D { decls: vec![(P::Bs(0), V::Unset), (P::Bw(0), V::Unset)], important: false, attr: false, spec }) }
        }
        Some(sides_case(&t, &winners(&l), None))
    }, show_case, check_case);
    ctx.section("background", |c| {
        let vals: &[(&str, Option<V>)] = &[("red", Some(V::Color(Col::Rgba([255, 0, 0, 255])))), ("#00F", Some(V::Color(Col::Rgba([0, 0, 255, 255])))), ("currentColor", Some(V::Color(Col::Cur))), ("transparent", Some(V::Color(Col::Rgba([0; 4])))), ("inherit", Some(V::Inherit)), ("initial", Some(V::Initial)), ("UNSET", Some(V::Unset)),
            ("red blue", None), ("", None), ("foo", None), ("red,", None), ("red inherit", None), ("5px", None), ("red !", None)];
        let n = 1 + c.choose(3);
        let mut t = String::new();
        let mut l = Vec::new();
        for _ in 0..n {
            let long = c.flag();
            let (s, v) = c.pick(vals).clone();
            let imp = c.flag();
            t += &format!("{}:{}{};", if long { "background-color" } else { "Background" }, s, if imp { "!important" } else { "" });
            if let Some(v) = v { l.push(D { decls: vec![(P::Bg, v)], important: imp, attr: false, spec: (0, 0, 1) }) }
        }
        Some(sides_case(&t, &winners(&l), None))
    }, show_case, check_case);
    // css-wide keywords on every shorthand set all of its longhands, wherever the parent's values come from.
    ctx.section("keywords", |c| {
        let sh = *c.pick(&["margin", "padding", "border-width", "border-style", "border-top", "background", "border-color"]);
        let kws = [("inherit", V::Inherit), ("Initial", V::Initial), ("UNSET", V::Unset)];
        let kw = c.pick(&kws);
        let imp = c.flag();
        let r_decl: Vec<Decl> = if c.flag() { let mut v = Vec::new(); for k in 0..4 { v.push((P::M(k), V::Len(1. + k as f64))); v.push((P::Pd(k), V::Len(3. + k as f64))); v.push((P::Bs(k), V::Solid(k != 2))); v.push((P::Bw(k), V::Len(5. + k as f64))) } v } else { vec![] };
        let own: Vec<Decl> = { let mut v = Vec::new(); for k in 0..4 { v.push((P::M(k), V::Len(11. + k as f64))); v.push((P::Pd(k), V::Len(13. + k as f64))); v.push((P::Bs(k), V::Solid(true))); v.push((P::Bw(k), V::Len(15. + k as f64))) } v };
        let targets: Vec<P> = match sh { "border-top" => vec![P::Bs(0), P::Bw(0)], "background" => vec![P::Bg], s => four(s).to_vec() };
        let disp = (P::Display, V::Disp(Disp::FlowRoot));
        let r = apply(&Cs::initial(), &[vec![disp.clone(), (P::Bg, V::Color(bg(0)))], r_decl.clone()].concat());
        let mut xd = vec![disp.clone(), (P::Bg, V::Color(bg(1)))];
        xd.extend(own.clone());
        xd.extend(targets.into_iter().map(|p| (p, kw.1.clone())));
        let x = apply(&r, &xd);
        let k = apply(&x, &[disp, (P::Bg, V::Color(bg(2))), (P::H, V::Len(9.))]);
        let src = format!("<r xmlns=\"{}\"><style>r,x,k{{display:flow-root}}r{{background-color:{};{}}}x{{background-color:{};{}{}:{}{}}}k{{height:9px;background-color:{}}}</style><x><k/></x></r>", XHTML,
            value_css(&V::Color(bg(0))), css(&r_decl), value_css(&V::Color(bg(1))), css(&own), sh, kw.0, if imp { "!important" } else { "" }, value_css(&V::Color(bg(2))));
        Some(Case { src, tree: el(r, vec![el(x, vec![el(k, vec![])])]), ordered: true, alt: vec![] })
    }, show_case, check_case);
}
