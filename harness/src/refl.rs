//! Reference renderer: an independent CSS 2 block/inline/positioned layout, written from the specification's
//! definitions (margin collapsing as connectivity of the "adjoining" relation) rather than from the implementation.
use crate::font::vera;
use crate::pdf::Paint;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum L { Px(f64), Pct(f64), Auto }
impl L {
    pub fn of(self, base: f64) -> Option<f64> { match self { L::Px(v) => Some(v), L::Pct(p) => Some(base * p / 100.), L::Auto => None } }
    pub fn or0(self, base: f64) -> f64 { self.of(base).unwrap_or(0.) }
    pub fn css(self) -> String { match self { L::Px(v) => format!("{}px", v), L::Pct(p) => format!("{}%", p), L::Auto => "auto".into() } }
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Pos { Static, Relative, Absolute }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Disp { None, Contents, Inline, Block, FlowRoot }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Col { Cur, Rgba([u8; 4]) }
pub const BLACK: [u8; 4] = [0, 0, 0, 255];

/// Computed style; sides are top, right, bottom, left.
#[derive(Clone, PartialEq, Debug)]
pub struct Cs { pub fs: f64, pub color: [u8; 4], pub pos: Pos, pub disp: Disp, pub off: [L; 4], pub w: L, pub h: L, pub m: [L; 4], pub p: [L; 4], pub bs: [bool; 4], pub bw: [L; 4], pub bg: Col }
pub const SIDES: [&str; 4] = ["top", "right", "bottom", "left"];
impl Cs {
    pub fn initial() -> Cs { Cs { fs: 16., color: BLACK, pos: Pos::Static, disp: Disp::Inline, off: [L::Auto; 4], w: L::Auto, h: L::Auto, m: [L::Px(0.); 4], p: [L::Px(0.); 4], bs: [false; 4], bw: [L::Px(3.); 4], bg: Col::Rgba([0; 4]) } }
    pub fn block() -> Cs { Cs { disp: Disp::Block, ..Cs::initial() } }
    /// Declarations that produce this style on an element whose other properties are initial and inherited ones are as given.
    pub fn css(&self, parent: &Cs) -> String {
        let i = Cs::initial();
        let mut s = String::new();
        if self.disp != i.disp { s += match self.disp { Disp::None => "display:none;", Disp::Contents => "display:contents;", Disp::Inline => "", Disp::Block => "display:block;", Disp::FlowRoot => "display:flow-root;" } }
        if self.fs != parent.fs { s += &format!("font-size:{}px;", self.fs) }
        if self.color != parent.color { s += &format!("color:{};", hex(self.color)) }
        match self.pos { Pos::Static => {} Pos::Relative => s += "position:relative;", Pos::Absolute => s += "position:absolute;" }
        for k in 0..4 {
            if self.off[k] != L::Auto { s += &format!("{}:{};", SIDES[k], self.off[k].css()) }
            if self.m[k] != i.m[k] { s += &format!("margin-{}:{};", SIDES[k], self.m[k].css()) }
            if self.p[k] != i.p[k] { s += &format!("padding-{}:{};", SIDES[k], self.p[k].css()) }
            if self.bs[k] { s += &format!("border-{}-style:solid;border-{}-width:{};", SIDES[k], SIDES[k], self.bw[k].css()) }
        }
        if self.w != L::Auto { s += &format!("width:{};", self.w.css()) }
        if self.h != L::Auto { s += &format!("height:{};", self.h.css()) }
        match self.bg { Col::Cur => s += "background-color:currentColor;", Col::Rgba(c) => if c[3] > 0 { s += &format!("background-color:{};", hex(c)) } }
        s
    }
    fn rgba(&self, c: Col) -> [u8; 4] { match c { Col::Cur => self.color, Col::Rgba(c) => c } }
    pub fn bwidth(&self, k: usize, cb: f64) -> f64 { if self.bs[k] { self.bw[k].or0(cb) } else { 0. } }
}
pub fn hex(c: [u8; 4]) -> String { if c[3] == 255 { format!("#{:02x}{:02x}{:02x}", c[0], c[1], c[2]) } else { format!("rgba({},{},{},{})", c[0], c[1], c[2], c[3] as f64 / 255.) } }

#[derive(Clone, Debug)]
pub enum Node { El(Box<Cs>, Vec<Node>), Text(String) }
impl Node {
    pub fn html(&self, parent: &Cs, out: &mut String) {
        match self {
            Node::Text(t) => out.push_str(&t.replace('\u{1}', "<!--c-->").replace('\u{2}', "<?p i?>")),
            Node::El(cs, kids) => { out.push_str(&format!("<x style=\"{}\">", cs.css(parent))); for k in kids { k.html(cs, out) } out.push_str("</x>") }
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Breaks { Css, RunLocal }

#[derive(Clone, Debug)]
enum Tok<'a> { Text(String, &'a Cs), Open(&'a Cs, bool), Close(&'a Cs, bool), Block(&'a Cs, &'a [Node]), Abs(&'a Cs, &'a [Node]) }

fn flatten<'a>(kids: &'a [Node], parent: &'a Cs, out: &mut Vec<Tok<'a>>) {
    for k in kids {
        match k {
            Node::Text(t) => out.push(Tok::Text(t.replace(|c| c == '\u{1}' || c == '\u{2}', ""), parent)),
            Node::El(cs, k) => match cs.disp {
                Disp::None => {}
                Disp::Contents => flatten(k, cs, out),
                _ if cs.pos == Pos::Absolute => out.push(Tok::Abs(cs, k)),
                Disp::Inline => { out.push(Tok::Open(cs, true)); flatten(k, cs, out); out.push(Tok::Close(cs, true)) }
                _ => out.push(Tok::Block(cs, k)),
            },
        }
    }
}

#[derive(Default)]
struct Frag { x: f64, y: f64, w: f64, h: f64, rel: [f64; 2], cs: Option<Cs>, text: Option<(String, f64)>, depth: usize }
struct AbsSpec { cs: Cs, kids: Vec<Node>, x: f64, y: f64 }
enum Kid { B(usize), Abs(AbsSpec) }
struct Bx { cs: Cs, bfc: bool, lines: Option<(Vec<Frag>, f64, bool, Vec<AbsSpec>)>, kids: Vec<Kid>, x: f64, w: f64, h: Option<f64>, p: [f64; 4], b: [f64; 4], m: [f64; 2], rel: [f64; 2], y: f64, height: f64 }

pub struct Ref { bx: Vec<Bx>, edges: Vec<Vec<usize>>, breaks: Breaks, out: Vec<Paint>, pub overflow_across_runs: bool }

fn ws(c: char) -> bool { matches!(c, ' ' | '\t' | '\n' | '\r' | '\x0c') }

impl Ref {
    /// Render a document whose root element is `root` on a 600 by 800 page.
    pub fn render(root: &Node, breaks: Breaks) -> Vec<Paint> {
        let (cs, kids) = match root { Node::El(c, k) => (c, k), _ => panic!() };
        let mut r = Ref { bx: Vec::new(), edges: Vec::new(), breaks, out: Vec::new(), overflow_across_runs: false };
        if cs.disp == Disp::None { return r.out }
        let icb = (600., 800.);
        if cs.pos == Pos::Absolute {
            let spec = AbsSpec { cs: (**cs).clone(), kids: kids.clone(), x: 0., y: 0. };
            r.absolute(spec, 0., 0., icb.0, icb.1);
            return r.out;
        }
        let b = r.block(cs, kids, icb.0, Some(icb.1), true);
        r.position_root(b);
        let mut pending = Vec::new();
        // The root's margins never collapse.
        let mt = r.bx[b].m[0];
        r.paint(b, 0., mt, &mut pending);
        for a in pending { r.absolute(a, 0., 0., icb.0, icb.1) }
        r.out
    }

    /// Phase 1: widths and lines.
    fn block(&mut self, cs: &Cs, kids: &[Node], cbw: f64, cbh: Option<f64>, bfc: bool) -> usize {
        let p = [0, 1, 2, 3].map(|k| cs.p[k].or0(cbw));
        let b = [0, 1, 2, 3].map(|k| cs.bwidth(k, cbw));
        let pb = p[1] + p[3] + b[1] + b[3];
        let (mut ml, mr) = (cs.m[3].of(cbw), cs.m[1].of(cbw));
        let w = match cs.w.of(cbw) {
            None => (cbw - pb - ml.unwrap_or(0.) - mr.unwrap_or(0.)).max(0.),
            Some(w) => {
                if ml.is_none() {
                    let room = cbw - pb - w - mr.unwrap_or(0.);
                    ml = Some(if room <= 0. { 0. } else if mr.is_none() { room / 2. } else { room });
                }
                w
            }
        };
        let h = match cs.h { L::Px(v) => Some(v), L::Pct(q) => cbh.map(|c| c * q / 100.), L::Auto => None };
        let rel = rel_offset(cs, cbw, cbh);
        let id = self.bx.len();
        self.bx.push(Bx { cs: cs.clone(), bfc, lines: None, kids: Vec::new(), x: ml.unwrap_or(0.), w, h, p, b, m: [cs.m[0].or0(cbw), cs.m[2].or0(cbw)], rel, y: 0., height: 0. });
        let (k, l) = self.contents(cs, kids, w, h);
        self.bx[id].kids = k;
        self.bx[id].lines = l;
        id
    }

    fn contents(&mut self, cs: &Cs, kids: &[Node], w: f64, h: Option<f64>) -> (Vec<Kid>, Option<(Vec<Frag>, f64, bool, Vec<AbsSpec>)>) {
        let mut toks = Vec::new();
        flatten(kids, cs, &mut toks);
        let mut groups: Vec<Vec<Tok>> = vec![Vec::new()];
        let mut open: Vec<(&Cs, bool)> = Vec::new();
        for t in toks {
            match t {
                Tok::Open(c, _) => { open.push((c, true)); groups.last_mut().unwrap().push(Tok::Open(c, true)) }
                Tok::Close(c, _) => { open.pop(); groups.last_mut().unwrap().push(Tok::Close(c, true)) }
                Tok::Block(..) => {
                    for (c, _) in open.iter().rev() { groups.last_mut().unwrap().push(Tok::Close(c, false)) }
                    groups.push(vec![t]);
                    groups.push(open.iter().map(|(c, _)| Tok::Open(c, false)).collect());
                }
                t => groups.last_mut().unwrap().push(t),
            }
        }
        let has_block = groups.len() > 1;
        let mut out = Vec::new();
        for g in groups {
            if let [Tok::Block(c, k)] = &g[..] { out.push(Kid::B(self.block(c, k, w, h, c.disp == Disp::FlowRoot))); continue }
            // Leading out-of-flow boxes and white space do not start an inline formatting context.
            let mut i = 0;
            let mut block_level_abs = false;
            while i < g.len() {
                match &g[i] {
                    Tok::Abs(c, k) => { out.push(Kid::Abs(AbsSpec { cs: (*c).clone(), kids: k.to_vec(), x: 0., y: 0. })); block_level_abs = true }
                    Tok::Text(t, _) if t.chars().all(ws) => {}
                    _ => break,
                }
                i += 1;
            }
            if i == g.len() { continue }
            let l = self.lines(&g[i..], w, h);
            if !has_block && !block_level_abs { return (out, Some(l)) }
            let id = self.bx.len();
            let mut acs = Cs::block();
            acs.fs = cs.fs;
            acs.color = cs.color;
            self.bx.push(Bx { cs: acs, bfc: false, lines: Some(l), kids: Vec::new(), x: 0., w, h: None, p: [0.; 4], b: [0.; 4], m: [0.; 2], rel: [0.; 2], y: 0., height: 0. });
            out.push(Kid::B(id));
        }
        (out, None)
    }

    /// Line layout.  Returns fragments in paint order, total height, whether any line box has contents, out-of-flow boxes.
    fn lines(&mut self, toks: &[Tok], w: f64, h: Option<f64>) -> (Vec<Frag>, f64, bool, Vec<AbsSpec>) {
        enum A<'a> { Ch(char, usize, &'a Cs), Open(&'a Cs, bool), Close(&'a Cs, bool), Abs(&'a Cs, &'a [Node]) }
        // White-space collapsing across the whole inline formatting context.
        let mut at: Vec<A> = Vec::new();
        let mut after_space = true;
        let mut run = 0;
        let mut has = false;
        let mut last_style: Option<*const Cs> = None;
        for t in toks {
            match t {
                Tok::Text(s, c) => {
                    // adjacent text nodes of one parent form one run
                    if last_style != Some(*c as *const Cs) { run += 1 }
                    let mut any = false;
                    for ch in s.chars() {
                        let ch = if ws(ch) { ' ' } else { ch };
                        if ch == ' ' && after_space { continue }
                        after_space = ch == ' ';
                        any = true;
                        at.push(A::Ch(ch, run, c));
                    }
                    has |= any;
                    if any { last_style = Some(*c as *const Cs) }
                }
                Tok::Open(c, first) => { last_style = None; run += 1; for k in 0..4 { has |= (k != 3 || *first) && k != 1 && (c.m[k].or0(w) != 0. || c.p[k].or0(w) != 0. || c.bwidth(k, w) != 0.) } at.push(A::Open(c, *first)) }
                Tok::Close(c, last) => { last_style = None; run += 1; has |= *last && (c.m[1].or0(w) != 0. || c.p[1].or0(w) != 0. || c.bwidth(1, w) != 0.); at.push(A::Close(c, *last)) }
                Tok::Abs(c, k) => { last_style = None; run += 1; at.push(A::Abs(c, k)) }
                Tok::Block(..) => unreachable!(),
            }
        }
        let edge = |c: &Cs, k: usize| c.m[k].or0(w) + c.p[k].or0(w) + c.bwidth(k, w);
        let adv = |ch: char, c: &Cs| vera().width(vera().gid(ch)) * c.fs;
        // Decide at which spaces lines break.
        let n = at.len();
        let mut brk = vec![false; n];
        let mut drop = vec![false; n];
        match self.breaks {
            Breaks::Css => {
                let mut x = 0.;
                let mut last: Option<usize> = None; // last space on this line
                let mut i = 0;
                while i <= n {
                    let at_end = i == n;
                    let space = !at_end && matches!(at[i], A::Ch(' ', ..));
                    if (space || at_end) && x > w + 1e-4 {
                        if let Some(s) = last {
                            brk[s] = true;
                            last = None;
                            x = 0.;
                            i = s + 1;
                            continue;
                        } else if space && (i + 1..n).any(|j| matches!(at[j], A::Ch(..))) {
                            brk[i] = true;
                            x = 0.;
                            i += 1;
                            continue;
                        }
                    }
                    if at_end { break }
                    match &at[i] { A::Ch(ch, _, c) => { if space { last = Some(i) } x += adv(*ch, c) } A::Open(c, f) => if *f { x += edge(c, 3) }, A::Close(c, l) => if *l { x += edge(c, 1) }, A::Abs(..) => {} }
                    i += 1;
                }
            }
            Breaks::RunLocal => {
                let mut x = 0.;
                let mut i = 0;
                while i < n {
                    match &at[i] {
                        A::Ch(_, r, _) => {
                            let end = (i..n).find(|j| !matches!(&at[*j], A::Ch(_, q, _) if q == r)).unwrap_or(n);
                            let mut start = i;
                            'line: loop {
                                let mut lx = x;
                                let mut last: Option<(usize, f64)> = None;
                                let mut j = start;
                                loop {
                                    let space = j == end || matches!(at[j], A::Ch(' ', ..));
                                    if space && lx > w + 1e-4 {
                                        let (s, sx) = last.unwrap_or((j, lx));
                                        if s + 1 < end { brk[s] = true; x = 0.; start = s + 1; continue 'line }
                                        if s < end { drop[s] = true } // nothing left after the break: no new line
                                        x = sx;
                                        break 'line;
                                    }
                                    if j == end { x = lx; break 'line }
                                    if space { last = Some((j, lx)) }
                                    if let A::Ch(ch, _, c) = &at[j] { lx += adv(*ch, c) }
                                    j += 1;
                                }
                            }
                            i = end;
                        }
                        A::Open(c, f) => { if *f { x += edge(c, 3) } i += 1 }
                        A::Close(c, l) => { if *l { x += edge(c, 1) } i += 1 }
                        A::Abs(..) => i += 1,
                    }
                }
            }
        }
        // Build fragments line by line.
        let mut frags: Vec<Frag> = Vec::new();
        let mut abs = Vec::new();
        let (mut x, mut y) = (0., 0.);
        let mut stack: Vec<(&Cs, usize)> = Vec::new(); // open boxes: fragment index
        let mut line_h: f64 = 0.;
        let mut cur: Option<(usize, usize)> = None; // current text fragment: run, index
        let open_frag = |frags: &mut Vec<Frag>, c: &Cs, x: f64, y: f64, first: bool, depth: usize| {
            let lead = if first { c.p[3].or0(w) + c.bwidth(3, w) } else { 0. };
            frags.push(Frag { x: x - lead, y, w: lead, h: 0., rel: rel_offset(c, w, h), cs: Some(c.clone()), text: None, depth });
            frags.len() - 1
        };
        for i in 0..n {
            if brk[i] || drop[i] {
                // the space itself hangs at the end of this line
                if let A::Ch(_, _, c) = &at[i] { let lh = c.fs * 1.2; line_h = line_h.max(lh); for (_, f) in &stack { let fr = &mut frags[*f]; fr.h = fr.h.max(lh) } }
                if drop[i] { continue }
                for (_, f) in &stack { let fr = &mut frags[*f]; fr.w = x - fr.x }
                y += line_h;
                line_h = 0.;
                x = 0.;
                cur = None;
                let d0 = 0;
                for (d, (c, f)) in stack.iter_mut().enumerate() { *f = open_frag(&mut frags, c, 0., y, false, d0 + d) }
                continue;
            }
            match &at[i] {
                A::Ch(ch, r, c) => {
                    let lh = c.fs * 1.2;
                    line_h = line_h.max(lh);
                    for (_, f) in &stack { let fr = &mut frags[*f]; if fr.h < lh { fr.h = lh } }
                    let fi = match cur { Some((q, f)) if q == *r => f, _ => { frags.push(Frag { x, y, w: 0., h: lh, rel: [0.; 2], cs: Some((*c).clone()), text: Some((String::new(), 0.)), depth: stack.len() }); cur = Some((*r, frags.len() - 1)); frags.len() - 1 } };
                    frags[fi].text.as_mut().unwrap().0.push(*ch);
                    x += adv(*ch, c);
                }
                A::Open(c, first) => { if *first { x += edge(c, 3) } let d = stack.len(); stack.push((c, open_frag(&mut frags, c, x, y, *first, d))); cur = None }
                A::Close(c, last) => {
                    let (_, f) = stack.pop().unwrap();
                    let tail = if *last { c.p[1].or0(w) + c.bwidth(1, w) } else { 0. };
                    frags[f].w = x + tail - frags[f].x;
                    if *last { x += edge(c, 1) }
                    cur = None;
                }
                A::Abs(c, k) => { abs.push(AbsSpec { cs: (*c).clone(), kids: k.to_vec(), x: if c.disp == Disp::Inline { x } else { 0. }, y }); cur = None }
            }
        }
        // Relative offsets apply to whole inline subtrees: accumulate along nesting.
        let mut acc: Vec<[f64; 2]> = Vec::new();
        for f in frags.iter_mut() {
            acc.truncate(f.depth);
            let base = acc.last().copied().unwrap_or([0.; 2]);
            let tot = [base[0] + f.rel[0], base[1] + f.rel[1]];
            f.x += tot[0];
            f.y += tot[1];
            if f.text.is_none() { acc.push(tot) }
        }
        (frags, y + line_h, has, abs)
    }

    // ---- Phase 2: vertical.  Margin nodes are 2*box (top) and 2*box+1 (bottom).
    fn through(&self, b: usize) -> bool {
        let x = &self.bx[b];
        !x.bfc && x.p[0] + x.b[0] == 0. && x.p[2] + x.b[2] == 0. && (x.h.is_none() || x.h == Some(0.)) && self.no_line(b)
            && x.kids.iter().all(|k| match k { Kid::B(c) => self.through(*c), _ => true })
    }
    fn no_line(&self, b: usize) -> bool { self.bx[b].lines.as_ref().map_or(true, |l| !l.2) }
    fn link(&mut self, a: usize, b: usize) { self.edges[a].push(b); self.edges[b].push(a) }
    fn component(&self, from: usize, without: Option<usize>) -> Vec<usize> {
        let mut seen = vec![from];
        let mut i = 0;
        while i < seen.len() { for &e in &self.edges[seen[i]] { if Some(e) != without && !seen.contains(&e) { seen.push(e) } } i += 1 }
        seen
    }
    fn value(&self, comp: &[usize]) -> f64 {
        let m = |n: &usize| self.bx[n / 2].m[n % 2];
        comp.iter().map(m).fold(0., f64::max) + comp.iter().map(m).fold(0., f64::min)
    }
    fn position_root(&mut self, root: usize) {
        self.edges = (0..2 * self.bx.len()).map(|_| Vec::new()).collect();
        for b in 0..self.bx.len() {
            let x = &self.bx[b];
            let kids: Vec<usize> = x.kids.iter().filter_map(|k| if let Kid::B(c) = k { Some(*c) } else { None }).collect();
            let (bfc, top, bottom, auto) = (x.bfc, x.p[0] + x.b[0], x.p[2] + x.b[2], x.h.is_none());
            let th = self.through(b);
            if let Some(&f) = kids.first() { if !bfc && top == 0. { self.link(2 * b, 2 * f) } }
            for w in kids.windows(2) { self.link(2 * w[0] + 1, 2 * w[1]) }
            if let Some(&l) = kids.last() { if !bfc && bottom == 0. && auto { self.link(2 * b + 1, 2 * l + 1) } }
            if th { self.link(2 * b, 2 * b + 1) }
        }
        self.vertical(root);
    }
    fn vertical(&mut self, b: usize) {
        let kids: Vec<usize> = self.bx[b].kids.iter().filter_map(|k| if let Kid::B(c) = k { Some(*c) } else { None }).collect();
        let mut cursor = 0.;
        let mut last = None;
        for c in kids {
            self.vertical(c);
            let th = self.through(c);
            let comp = self.component(2 * c, if th { Some(2 * c + 1) } else { None });
            let y = if comp.contains(&(2 * b)) { 0. } else { cursor + self.value(&comp) };
            self.bx[c].y = y;
            if !th { let x = &self.bx[c]; cursor = y + x.p[0] + x.b[0] + x.height + x.p[2] + x.b[2] }
            last = Some(c);
        }
        let auto = if let Some(l) = &self.bx[b].lines { l.1 } else if let Some(l) = last {
            let comp = self.component(2 * l + 1, None);
            if comp.contains(&(2 * b)) || comp.contains(&(2 * b + 1)) { cursor } else { cursor + self.value(&comp) }
        } else { 0. };
        self.bx[b].height = self.bx[b].h.unwrap_or(auto);
        // static positions of block-level out-of-flow boxes: current position between in-flow siblings
        let mut cur = 0.;
        for i in 0..self.bx[b].kids.len() {
            match &self.bx[b].kids[i] {
                Kid::B(c) => { let c = *c; if !self.through(c) { let x = &self.bx[c]; cur = x.y + x.p[0] + x.b[0] + x.height + x.p[2] + x.b[2] } }
                Kid::Abs(_) => if let Kid::Abs(a) = &mut self.bx[b].kids[i] { a.y = cur },
            }
        }
    }

    /// Phase 3: absolute coordinates; (ox, oy) is the border-box corner before relative positioning plus left margin handled by x.
    fn paint(&mut self, b: usize, cx: f64, by: f64, pending: &mut Vec<AbsSpec>) {
        let (bx0, by0) = { let x = &self.bx[b]; (cx + x.x + x.rel[0], by + x.rel[1]) };
        let x = &self.bx[b];
        let (w, h) = (x.w + x.p[1] + x.p[3] + x.b[1] + x.b[3], x.height + x.p[0] + x.p[2] + x.b[0] + x.b[2]);
        let c = x.cs.rgba(x.cs.bg);
        if c[3] > 0 { self.out.push(rect(bx0, by0, w, h, c)) }
        let (px, py) = (bx0 + x.b[3], by0 + x.b[0]);
        let (pw, ph) = (x.w + x.p[1] + x.p[3], x.height + x.p[0] + x.p[2]);
        let (ix, iy) = (px + x.p[3], py + x.p[0]);
        let positioned = x.cs.pos != Pos::Static;
        let mut own = Vec::new();
        {
            let pend: &mut Vec<AbsSpec> = if positioned { &mut own } else { pending };
            if let Some((frags, _, _, abs)) = self.bx[b].lines.take() {
                for f in frags { self.frag(f, ix, iy) }
                for a in abs { pend.push(AbsSpec { x: a.x + ix, y: a.y + iy, ..a }) }
            }
            for k in std::mem::take(&mut self.bx[b].kids) {
                match k {
                    Kid::B(c) => { let y = self.bx[c].y; self.paint(c, ix, iy + y, pend) }
                    Kid::Abs(a) => pend.push(AbsSpec { x: ix, y: a.y + iy, ..a }),
                }
            }
        }
        for a in own { self.absolute(a, px, py, pw, ph) }
    }
    fn frag(&mut self, f: Frag, ix: f64, iy: f64) {
        let cs = f.cs.unwrap();
        match f.text {
            None => { let c = cs.rgba(cs.bg); if c[3] > 0 { self.out.push(rect(ix + f.x, iy + f.y, f.w, f.h, c)) } }
            Some((t, _)) => self.out.push(Paint::Text { x: ix + f.x, y: iy + f.y + vera().asc * cs.fs, size: cs.fs, font: 0, glyphs: t.chars().map(|c| vera().gid(c)).collect(), rgb: rgb(cs.color), alpha: cs.color[3] as f64 / 255., raw: Default::default() }),
        }
    }

    /// CSS 2 §10.3.7 and §10.6.4 against the padding box (x, y, w, h).
    fn absolute(&mut self, a: AbsSpec, x: f64, y: f64, w: f64, h: f64) {
        let cs = &a.cs;
        let p = [0, 1, 2, 3].map(|k| cs.p[k].or0(w));
        let b = [0, 1, 2, 3].map(|k| cs.bwidth(k, w));
        // (margin start, size, margin end, start offset of the border box or end offset)
        let solve = |start: L, end: L, size: L, ms: Option<f64>, me: Option<f64>, pb: f64, total: f64, stat: f64, inline: bool| -> (Option<f64>, Result<f64, f64>, f64, f64) {
            let (s, e, sz) = (start.of(total), end.of(total), size.of(total));
            let (mut m0, mut m1) = (ms.unwrap_or(0.), me.unwrap_or(0.));
            match (s, e) {
                (Some(s), Some(e)) => match sz {
                    Some(sz) => {
                        let room = total - s - e - pb - sz;
                        match (ms, me) {
                            (None, None) => if inline && room < 0. { m0 = 0.; m1 = room } else { m0 = room / 2.; m1 = room / 2. },
                            (None, Some(m)) => m0 = room - m,
                            (Some(m), None) => m1 = room - m,
                            _ => {}
                        }
                        (Some(sz), Ok(s), m0, m1)
                    }
                    None => (Some((total - s - e - pb - m0 - m1).max(0.)), Ok(s), m0, m1),
                },
                (Some(s), None) => (sz, Ok(s), m0, m1),
                (None, Some(e)) => (sz, Err(e), m0, m1),
                (None, None) => (sz, Ok(stat), m0, m1),
            }
        };
        let ipb = p[1] + p[3] + b[1] + b[3];
        let bpb = p[0] + p[2] + b[0] + b[2];
        let (iw, ia, ml, mr) = solve(cs.off[3], cs.off[1], cs.w, cs.m[3].of(w), cs.m[1].of(w), ipb, w, a.x - x, true);
        let (ih, ba, mt, mb) = solve(cs.off[0], cs.off[2], cs.h, cs.m[0].of(w), cs.m[2].of(w), bpb, h, a.y - y, false);
        let iw = iw.unwrap_or_else(|| { let used = match ia { Ok(v) | Err(v) => v }; (w - used - ipb - ml - mr).max(0.) });
        // The box is a block formatting context root of its own.
        let mut sub = Ref { bx: Vec::new(), edges: Vec::new(), breaks: self.breaks, out: Vec::new(), overflow_across_runs: false };
        let mut inner = cs.clone();
        inner.disp = Disp::Block;
        sub.bx.push(Bx { cs: inner, bfc: true, lines: None, kids: Vec::new(), x: 0., w: iw, h: ih, p, b, m: [0.; 2], rel: [0.; 2], y: 0., height: 0. });
        let (k, l) = sub.contents(cs, &a.kids, iw, ih);
        sub.bx[0].kids = k;
        sub.bx[0].lines = l;
        sub.position_root(0);
        let height = sub.bx[0].height;
        let left = match ia { Ok(s) => x + s + ml, Err(e) => x + w - e - mr - ipb - iw };
        let top = match ba { Ok(s) => y + s + mt, Err(e) => y + h - e - mb - bpb - height };
        let mut none = Vec::new();
        sub.paint(0, left, top, &mut none);
        assert!(none.is_empty());
        self.out.append(&mut sub.out);
    }
}

fn rel_offset(cs: &Cs, cbw: f64, cbh: Option<f64>) -> [f64; 2] {
    if cs.pos != Pos::Relative { return [0., 0.] }
    let v = |l: L| match (l, cbh) { (L::Pct(_), None) => None, (l, h) => l.of(h.unwrap_or(0.)) };
    let x = cs.off[3].of(cbw).or_else(|| cs.off[1].of(cbw).map(|r| -r)).unwrap_or(0.);
    let y = v(cs.off[0]).or_else(|| v(cs.off[2]).map(|r| -r)).unwrap_or(0.);
    [x, y]
}
pub fn rgb(c: [u8; 4]) -> [f64; 3] { [c[0] as f64 / 255., c[1] as f64 / 255., c[2] as f64 / 255.] }
fn rect(x: f64, y: f64, w: f64, h: f64, c: [u8; 4]) -> Paint { Paint::Rect { x, y, w, h, rgb: rgb(c), alpha: c[3] as f64 / 255., raw: Default::default() } }

/// As `diff` in order, where boxes on a line with several font sizes may be aligned in any way within the line:
/// `max` is the largest font size.
pub fn diff_lines(got: Vec<Paint>, want: Vec<Paint>, max: f64) -> Result<(), String> {
    let keep = (got.clone(), want.clone());
    let (got, want) = (normalise(got), normalise(want));
    let ok = got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| match (a, b) {
        (Paint::Text { y, size, .. }, Paint::Text { y: y2, .. }) => {
            let dy = y - y2;
            if dy < -0.02 || dy > 1.2 * (max - size) + 0.02 { return false }
            let mut c = a.clone();
            if let Paint::Text { y, .. } = &mut c { *y = *y2 }
            same(&c, b)
        }
        (Paint::Rect { y, h, .. }, Paint::Rect { y: y2, h: h2, .. }) => {
            if *h2 > 1.2 * max + 0.02 { return same(a, b) }
            if y - y2 < -0.02 || y + h - y2 > 1.2 * max + 0.02 { return false }
            let mut c = a.clone();
            if let Paint::Rect { y, h, .. } = &mut c { *y = *y2; *h = *h2 }
            same(&c, b)
        }
        _ => false,
    });
    if ok { Ok(()) } else { Err(format!("painted:{}\nexpected:{}", show(&keep.0), show(&keep.1))) }
}
fn same(a: &Paint, b: &Paint) -> bool {
    // (sums of many single-precision numbers: some leeway far from the origin)
    let eq = |a: f64, b: f64| (a - b).abs() < 0.02 + 1e-4 * (a.abs() - 4096.).max(0.);
    match (a, b) {
        (Paint::Rect { x, y, w, h, rgb, alpha, .. }, Paint::Rect { x: x2, y: y2, w: w2, h: h2, rgb: r2, alpha: a2, .. }) =>
            eq(*x, *x2) && eq(*y, *y2) && eq(*w, *w2) && eq(*h, *h2) && (0..3).all(|i| (rgb[i] - r2[i]).abs() < 1e-4) && (alpha - a2).abs() < 1e-4,
        (Paint::Text { x, y, size, glyphs, rgb, alpha, .. }, Paint::Text { x: x2, y: y2, size: s2, glyphs: g2, rgb: r2, alpha: a2, .. }) =>
            eq(*x, *x2) && eq(*y, *y2) && eq(*size, *s2) && glyphs == g2 && (0..3).all(|i| (rgb[i] - r2[i]).abs() < 1e-4) && (alpha - a2).abs() < 1e-4,
        _ => false,
    }
}
/// How text is cut into show operations is not observable: compare glyph by glyph, without spaces (which have no ink).
pub fn normalise(p: Vec<Paint>) -> Vec<Paint> {
    let sp = vera().gid(' ');
    let mut out = Vec::new();
    for p in p {
        match p {
            Paint::Text { mut x, y, size, font, glyphs, rgb, alpha, raw } => for g in glyphs {
                if g != sp { out.push(Paint::Text { x, y, size, font, glyphs: vec![g], rgb, alpha, raw }) }
                x += vera().width(g) * size;
            },
            p => out.push(p),
        }
    }
    out
}
pub fn show(p: &[Paint]) -> String {
    p.iter().map(|p| match p {
        Paint::Rect { x, y, w, h, rgb, alpha, .. } => format!("\n  rect x={:.3} y={:.3} w={:.3} h={:.3} #{:06x} a={:.3}", x, y, w, h, crate::dom::rgb_id(rgb), alpha),
        Paint::Text { x, y, size, glyphs, rgb, .. } => format!("\n  text x={:.3} y={:.3} size={} {:?} #{:06x}", x, y, size, vera().decode(glyphs), crate::dom::rgb_id(rgb)),
    }).collect()
}
/// Drop rectangles without area.
pub fn visible(p: Vec<Paint>) -> Vec<Paint> { p.into_iter().filter(|p| match p { Paint::Rect { w, h, .. } => *w > 1e-3 && *h > 1e-3, _ => true }).collect() }
/// Compare paint lists; `ordered` also compares the order.
pub fn diff(got: Vec<Paint>, want: Vec<Paint>, ordered: bool) -> Result<(), String> {
    let keep = (got.clone(), want.clone());
    let (got, want) = (normalise(got), normalise(want));
    let ok = got.len() == want.len() && if ordered { got.iter().zip(&want).all(|(a, b)| same(a, b)) } else {
        let mut left: Vec<&Paint> = want.iter().collect();
        got.iter().all(|g| match left.iter().position(|w| same(g, w)) { Some(i) => { left.remove(i); true } None => false })
    };
    if ok { Ok(()) } else { Err(format!("painted:{}\nexpected:{}", show(&keep.0), show(&keep.1))) }
}
