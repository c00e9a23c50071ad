//! C25: visiting the pages of a PDF.
//!
//! The calls that lester makes into poppler and glib are interposed (the linker resolves them to the definitions
//! below), which forward to the real libraries and keep track of which objects are alive.
use crate::engine::*;
use lester::{Page, PagesIter, PdfDocument};
use std::cell::RefCell;
use std::collections::{BTreeMap, VecDeque};
use std::ffi::CString;
use std::os::raw::*;
use victor::pdf::Document;
use victor::primitives::*;
use victor::text::ShapedSegment;

#[derive(Default)]
struct Track { live: BTreeMap<usize, &'static str>, dead: BTreeMap<usize, &'static str>, bad: Option<String>, created: usize }
thread_local! { static TRACK: RefCell<Track> = RefCell::new(Track::default()) }

fn real(name: &str) -> *mut c_void {
    let n = CString::new(name).unwrap();
    let p = unsafe { libc::dlsym(libc::RTLD_NEXT, n.as_ptr()) };
    assert!(!p.is_null(), "{}", name);
    p as *mut c_void
}
macro_rules! real { ($name: literal, $t: ty) => {{
    static P: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let mut p = P.load(std::sync::atomic::Ordering::Relaxed);
    if p == 0 { p = real($name) as usize; P.store(p, std::sync::atomic::Ordering::Relaxed) }
    unsafe { std::mem::transmute::<usize, $t>(p) }
}} }

extern "C" {
    // (not interposed, so that the program still needs the library)
    fn poppler_get_version() -> *const c_char;
    fn g_object_weak_ref(o: *mut c_void, notify: extern "C" fn(*mut c_void, *mut c_void), data: *mut c_void);
}
extern "C" fn gone(_: *mut c_void, o: *mut c_void) {
    TRACK.with(|t| { let mut t = t.borrow_mut(); if let Some(k) = t.live.remove(&(o as usize)) { t.dead.insert(o as usize, k); } })
}
fn born(o: *mut c_void, what: &'static str) {
    if o.is_null() { return }
    let known = TRACK.with(|t| {
        let mut t = t.borrow_mut();
        t.dead.remove(&(o as usize));
        t.created += 1;
        t.live.insert(o as usize, what).is_some()
    });
    if !known { unsafe { g_object_weak_ref(o, gone, o) } }
}
/// Whether the object can be used.
fn usable(o: *mut c_void, call: &str) -> bool {
    TRACK.with(|t| {
        let mut t = t.borrow_mut();
        if let Some(k) = t.dead.get(&(o as usize)) { let m = format!("{} on a {} that is already freed", call, k); t.bad.get_or_insert(m); return false }
        if o.is_null() { t.bad.get_or_insert(format!("{} on NULL", call)); return false }
        true
    })
}

#[no_mangle]
pub extern "C" fn poppler_document_new_from_data(d: *mut c_char, n: c_int, p: *const c_char, e: *mut *mut c_void) -> *mut c_void {
    let o = real!("poppler_document_new_from_data", extern "C" fn(*mut c_char, c_int, *const c_char, *mut *mut c_void) -> *mut c_void)(d, n, p, e);
    born(o, "document");
    if o.is_null() && !e.is_null() { take(unsafe { *e } as usize, "error") }
    o
}
#[no_mangle]
pub extern "C" fn poppler_document_get_page(d: *mut c_void, i: c_int) -> *mut c_void {
    if !usable(d, "get_page") { return std::ptr::null_mut() }
    let n = real!("poppler_document_get_n_pages", extern "C" fn(*mut c_void) -> c_int)(d);
    if i < 0 || i >= n { TRACK.with(|t| { t.borrow_mut().bad.get_or_insert(format!("page {} of {} requested", i, n)); }); return std::ptr::null_mut() }
    let o = real!("poppler_document_get_page", extern "C" fn(*mut c_void, c_int) -> *mut c_void)(d, i);
    born(o, "page");
    o
}
#[no_mangle]
pub extern "C" fn g_object_unref(o: *mut c_void) {
    if !usable(o, "unref") { return }
    real!("g_object_unref", extern "C" fn(*mut c_void))(o)
}
#[no_mangle]
pub extern "C" fn poppler_document_get_n_pages(d: *mut c_void) -> c_int {
    if !usable(d, "get_n_pages") { return 0 }
    real!("poppler_document_get_n_pages", extern "C" fn(*mut c_void) -> c_int)(d)
}
#[no_mangle]
pub extern "C" fn poppler_page_get_size(p: *mut c_void, w: *mut f64, h: *mut f64) {
    if !usable(p, "get_size") { return }
    real!("poppler_page_get_size", extern "C" fn(*mut c_void, *mut f64, *mut f64))(p, w, h)
}
#[no_mangle]
pub extern "C" fn poppler_page_render(p: *mut c_void, c: *mut c_void) {
    if !usable(p, "render") { return }
    real!("poppler_page_render", extern "C" fn(*mut c_void, *mut c_void))(p, c)
}

#[no_mangle]
pub extern "C" fn poppler_page_render_for_printing(p: *mut c_void, c: *mut c_void) {
    if !usable(p, "render_for_printing") { return }
    real!("poppler_page_render_for_printing", extern "C" fn(*mut c_void, *mut c_void))(p, c)
}

// Strings and errors are not objects: whoever asks for one has to free it.
fn take(o: usize, what: &'static str) { if o != 0 { TRACK.with(|t| { let mut t = t.borrow_mut(); t.dead.remove(&o); t.created += 1; t.live.insert(o, what); }) } }
/// Whether it may be freed. (Freeing one twice is left to the allocator, which aborts: its address may be in use again.)
fn release(o: usize, what: &'static str, call: &str) -> bool {
    TRACK.try_with(|t| {
        let mut t = match t.try_borrow_mut() { Ok(t) => t, Err(_) => return true };
        if t.live.get(&o) == Some(&what) { t.live.remove(&o); return true }
        if let Some(k) = t.live.get(&o) { let m = format!("{} on a {}", call, k); t.bad.get_or_insert(m); return false }
        true
    }).unwrap_or(true)
}
#[no_mangle]
pub extern "C" fn poppler_page_get_text(p: *mut c_void) -> *mut c_char {
    if !usable(p, "get_text") { return std::ptr::null_mut() }
    let t = real!("poppler_page_get_text", extern "C" fn(*mut c_void) -> *mut c_char)(p);
    take(t as usize, "string");
    t
}
#[no_mangle]
pub extern "C" fn poppler_document_get_producer(d: *mut c_void) -> *mut c_char {
    if !usable(d, "get_producer") { return std::ptr::null_mut() }
    let t = real!("poppler_document_get_producer", extern "C" fn(*mut c_void) -> *mut c_char)(d);
    take(t as usize, "string");
    t
}
#[no_mangle]
pub extern "C" fn g_free(o: *mut c_void) {
    if release(o as usize, "string", "g_free") { real!("g_free", extern "C" fn(*mut c_void))(o) }
}
#[no_mangle]
pub extern "C" fn g_error_free(o: *mut c_void) {
    if o.is_null() { TRACK.with(|t| { t.borrow_mut().bad.get_or_insert("g_error_free on NULL".to_string()); }); return }
    if release(o as usize, "error", "g_error_free") { real!("g_error_free", extern "C" fn(*mut c_void))(o) }
}

/// Drawing resources are freed exactly once.
fn settle() -> Result<(), Fail> {
    TRACK.with(|t| {
        let t = std::mem::take(&mut *t.borrow_mut());
        if let Some(b) = t.bad { return fail("freed", b) }
        if let Some((_, k)) = t.live.iter().next() { return fail("leak", format!("{} of {} poppler objects are never freed, such as a {}", t.live.len(), t.created, k)) }
        Ok(())
    })
}

pub fn doc(n: usize) -> Vec<u8> {
    let font = (*victor::fonts::BITSTREAM_VERA_SANS).clone();
    let mut d = Document::new();
    for i in 0..n {
        let mut p = d.add_page(Size::new(100. + 8. * i as f32, 60. + 4. * i as f32));
        let seg = ShapedSegment::naive_shape(&word(i), font.clone()).ok().unwrap();
        p.show_text(&TextRun { segment: &seg, font_size: Length::new(12.), origin: point(10., 30.) }).ok().unwrap();
    }
    d.write_to_pdf_bytes()
}
fn word(i: usize) -> String { match ["ab", "cde", "fa", "bdf", "cc", "ee"].get(i) { Some(w) => w.to_string(), None => i.to_string().chars().map(|d| (b'a' + d as u8 - b'0') as char).collect() } }

/// The index of a page, from its size and text.
fn index(p: &Page, deep: bool) -> Result<usize, Fail> {
    let (w, h) = p.size_in_ps_points();
    let i = ((w - 75.) / 6.).round() as usize;
    if (w, h) != (75. + 6. * i as f64, 45. + 3. * i as f64) { return fail("size", format!("page size {:?}", (w, h))) }
    let (a, b) = p.size_in_css_px();
    if (a - w / 0.75).abs() > 1e-9 || (b - h / 0.75).abs() > 1e-9 { return fail("size", format!("page size {:?} CSS px for {:?} points", (a, b), (w, h))) }
    if deep {
        let t = p.text();
        if t.to_str().map(|s| s.trim()) != Ok(&*word(i)) || p.text().to_str().ok().is_none() { return fail("text", format!("page {} has text {:?}", i, t.to_str())) }
        let mut s = match p.render() { Ok(s) => s, Err(e) => return fail("render", format!("{:?}", e)) };
        let px = s.pixels();
        if (px.width, px.height) != (a.ceil() as usize, b.ceil() as usize) { return fail("size", format!("rendered to {}x{} pixels", px.width, px.height)) }
    }
    Ok(i)
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op { Next, Back, Nth(usize), NthBack(usize), Count, Last, Collect, Rev }

fn explore(pdf: &[u8], n: usize, ops: &[Op]) -> Outcome {
    let d = match PdfDocument::from_bytes(pdf) { Ok(d) => d, Err(e) => return fail("load", format!("{:?}", e)) };
    let r = (|| {
        let mut it = d.pages();
        let mut m: VecDeque<usize> = (0..n).collect();
        for (k, o) in ops.iter().enumerate() {
            if it.len() != m.len() || it.size_hint() != (m.len(), Some(m.len())) { return fail("len", format!("before operation {}: length {} and size hint {:?}, {} pages remain", k, it.len(), it.size_hint(), m.len())) }
            let see = |p: Option<Page>| -> Result<Option<usize>, Fail> { match p { None => Ok(None), Some(p) => index(&p, false).map(Some) } };
            let (got, want): (Vec<Option<usize>>, Vec<Option<usize>>) = match *o {
                Op::Next => (vec![see(it.next())?], vec![m.pop_front()]),
                Op::Back => (vec![see(it.next_back())?], vec![m.pop_back()]),
                Op::Nth(i) => { let g = see(it.nth(i))?; for _ in 0..i.min(m.len()) { m.pop_front(); } (vec![g], vec![m.pop_front()]) }
                Op::NthBack(i) => { let g = see(it.nth_back(i))?; for _ in 0..i.min(m.len()) { m.pop_back(); } (vec![g], vec![m.pop_back()]) }
                Op::Count => return if it.count() == m.len() { Ok(1) } else { fail("count", "wrong count") },
                Op::Last => return if see(it.last())? == m.pop_back() { Ok(2) } else { fail("last", "wrong last page") },
                Op::Collect => {
                    let v: Vec<Page> = it.collect();
                    let mut g = Vec::new();
                    for p in &v { g.push(index(p, true)?) }
                    return if g == m.iter().cloned().collect::<Vec<_>>() { Ok(3) } else { fail("order", format!("pages {:?}, expected {:?}", g, m)) }
                }
                Op::Rev => {
                    let v: Vec<Page> = it.rev().collect();
                    let mut g = Vec::new();
                    for p in &v { g.push(index(p, true)?) }
                    return if g == m.iter().rev().cloned().collect::<Vec<_>>() { Ok(4) } else { fail("order", format!("pages {:?} in reverse, expected the reverse of {:?}", g, m)) }
                }
            };
            if got != want { return fail("page", format!("operation {} gives page {:?}, expected {:?}", k, got[0], want[0])) }
        }
        if it.len() != m.len() || it.size_hint() != (m.len(), Some(m.len())) { return fail("len", format!("at the end: length {} and size hint {:?}, {} pages remain", it.len(), it.size_hint(), m.len())) }
        Ok(fp(&m.iter().collect::<Vec<_>>()))
    })();
    drop(d);
    settle()?;
    r
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Life { Open, Close, Iter(usize), Take(usize, usize), DropPage(usize), Use(usize) }

pub fn c25(ctx: &mut Ctx) {
    ctx.assumptions.push("poppler decides what is a PDF; objects are tracked through the calls lester makes into poppler and glib, and double frees of strings by the allocator".into());
    assert!(unsafe { !poppler_get_version().is_null() });
    let pdfs: Vec<Vec<u8>> = (0..=5).map(doc).collect();
    let pdfs = &pdfs;
    let depth = ctx.by(5usize, 6);
    ctx.section("iterator operations", |ch| {
        let n = ch.choose(ctx_pages());
        let k = 1 + ch.choose(depth);
        let mut v = Vec::new();
        for i in 0..k {
            let last = i + 1 == k;
            let mut a = vec![Op::Next, Op::Back, Op::Nth(0), Op::Nth(1), Op::Nth(2), Op::NthBack(0), Op::NthBack(1)];
            if i == 0 || last { a.extend_from_slice(&[Op::Nth(n), Op::Nth(usize::MAX), Op::Nth(i32::MAX as usize), Op::Nth(1 << 32), Op::NthBack(n)]); }
            if last { a.extend_from_slice(&[Op::Count, Op::Last, Op::Collect, Op::Rev]) }
            v.push(*ch.pick(&a));
        }
        Some((n, v))
    }, |c| format!("{} pages: {:?}", c.0, c.1), |c| explore(&pdfs[c.0], c.0, &c.1));

    // Ownership: several documents, iterators and pages, used and dropped in every order the borrow checker allows.
    let steps = ctx.by(7usize, 9);
    ctx.section("lifetimes", |ch| {
        let k = 1 + ch.choose(steps);
        let mut v = Vec::new();
        let (mut open, mut pages) = (false, 0usize);
        for _ in 0..k {
            let mut a = vec![];
            if !open { a.push(Life::Open) } else {
                a.push(Life::Close);
                if pages < 3 { a.push(Life::Take(0, 0)); a.push(Life::Take(1, 1)); a.push(Life::Iter(0)); a.push(Life::Iter(1)) }
            }
            for i in 0..pages { a.push(Life::DropPage(i)); a.push(Life::Use(i)) }
            let o = *ch.pick(&a);
            match o { Life::Open => open = true, Life::Close => open = false, Life::Take(..) => pages += 1, Life::DropPage(_) => pages -= 1, Life::Iter(n) => pages += [1, 2][n], _ => {} }
            if pages > 3 { return None }
            v.push(o);
        }
        Some(v)
    }, |c| format!("{:?}", c), |ops| {
        let r = (|| {
            // Each document lives in its own box; pages only borrow the bytes.
            let mut d: Option<PdfDocument<'_>> = None;
            let mut pages: Vec<(usize, Page)> = Vec::new();
            for (k, o) in ops.iter().enumerate() {
                match *o {
                    Life::Open => d = Some(match PdfDocument::from_bytes(&pdfs[2]) { Ok(d) => d, Err(e) => return fail("load", format!("{:?}", e)) }),
                    Life::Close => d = None,
                    Life::Take(i, _) => match d.as_ref().unwrap().pages().nth(i) { Some(p) => pages.push((i, p)), None => return fail("page", format!("operation {}: no page {}", k, i)) },
                    Life::Iter(n) => {
                        let mut it: PagesIter = d.as_ref().unwrap().pages();
                        if n == 1 { match it.next() { Some(p) => pages.push((0, p)), None => return fail("page", "no first page") } }
                        match it.next_back() { Some(p) => pages.push((1, p)), None => return fail("page", "no last page") }
                    }
                    Life::DropPage(i) => { pages.remove(i); }
                    Life::Use(i) => { let g = index(&pages[i].1, true)?; if g != pages[i].0 { return fail("page", format!("operation {}: page {} has become {}", k, pages[i].0, g)) } }
                }
            }
            for (i, p) in &pages { if index(p, false)? != *i { return fail("page", "a page has changed") } }
            Ok(fp(&(pages.len(), d.is_some())))
        })();
        settle()?;
        r
    });

    // Any number of pages.
    let sizes: Vec<usize> = if ctx.tier == Tier::Quick { vec![6, 7, 8, 9, 15, 16, 17, 31, 64, 100, 255, 256, 257, 300] } else { (6..320).chain(vec![511, 512, 513, 1000, 1025, 4097]).collect() };
    let many: Vec<Vec<u8>> = sizes.iter().map(|n| doc(*n)).collect();
    let (sizes, many) = (&sizes, &many);
    ctx.section("many pages", |ch| Some((ch.choose(sizes.len()), ch.choose(7))), |c| format!("{} pages, visit {}", sizes[c.0], c.1), |&(k, how)| {
        let n = sizes[k];
        let d = match PdfDocument::from_bytes(&many[k]) { Ok(d) => d, Err(e) => return fail("load", format!("{:?}", e)) };
        let r = (|| {
            let mut it = d.pages();
            if it.len() != n { return fail("count", format!("{} pages instead of {}", it.len(), n)) }
            let mut got = Vec::new();
            let mut want: Vec<usize> = Vec::new();
            match how {
                0 => { for p in it { got.push(index(&p, true)?) } want.extend(0..n) }
                1 => { for p in it.rev() { got.push(index(&p, false)?) } want.extend((0..n).rev()) }
                2 => {
                    let (mut a, mut b) = (0, n);
                    while a < b {
                        if it.len() != b - a { return fail("len", format!("length {}, {} pages remain", it.len(), b - a)) }
                        let p = if (a + b) % 3 == 0 { b -= 1; want.push(b); it.next_back() } else { want.push(a); a += 1; it.next() };
                        match p { Some(p) => got.push(index(&p, false)?), None => return fail("page", format!("no page although {} remain", b - a + 1)) }
                    }
                    if it.next().is_some() || it.next_back().is_some() || it.len() != 0 { return fail("end", "pages after the end") }
                }
                3 => for i in (0..n + 3).rev() { match d.pages().nth(i) { Some(p) if i < n => { got.push(index(&p, false)?); want.push(i) } None if i >= n => {} p => return fail("nth", format!("page {} of {}: {}", i, n, p.is_some())) } },
                4 => { let mut i = 0; while let Some(p) = it.nth(6) { got.push(index(&p, false)?); i += 7; want.push(i - 1); if it.len() != n - i { return fail("len", format!("length {} after page {}", it.len(), i - 1)) } } if i + 7 <= n || it.len() != 0 { return fail("nth", format!("ends after page {}", i)) } }
                5 => { for p in it.step_by(5) { got.push(index(&p, false)?) } want.extend((0..n).step_by(5)) }
                _ => { let v: Vec<Page> = it.collect(); drop(d); for p in v.iter().rev() { got.push(index(p, false)?) } want.extend((0..n).rev()); if got != want { return fail("order", format!("pages {:?}", got)) } return Ok(fp(&got)) }
            }
            if got != want { return fail("order", format!("pages {:?}, expected {:?}", got, want)) }
            Ok(fp(&got))
        })();
        settle()?;
        r
    });

    // Strings stay what they were, however many there are and in whichever order they, pages and the document are dropped.
    let steps = ctx.by(6usize, 8);
    ctx.section("strings", |ch| {
        let k = 1 + ch.choose(steps);
        Some((0..k).map(|_| ch.choose(7)).collect::<Vec<_>>())
    }, |v| format!("{:?}", v), |ops| {
        const PRODUCER: &str = "Victor <https://github.com/SimonSapin/victor>";
        let r = (|| {
            let mut d = Some(match PdfDocument::from_bytes(&pdfs[2]) { Ok(d) => d, Err(e) => return fail("load", format!("{:?}", e)) });
            let mut p = d.as_ref().unwrap().pages().nth(1);
            let mut strings: Vec<(lester::GlibString, String)> = Vec::new();
            for o in ops {
                match o {
                    0 => if let Some(d) = &d { match d.producer() { Some(s) => strings.push((s, PRODUCER.to_string())), None => return fail("producer", "none") } },
                    1 => if let Some(p) = &p { strings.push((p.text(), word(1))) },
                    2 => { strings.pop(); }
                    3 => if !strings.is_empty() { strings.remove(0); },
                    4 => d = None,
                    5 => p = None,
                    _ => if let Some(p) = &p { if let Err(e) = p.render_with_options(lester::RenderOptions { for_printing: true, ..Default::default() }) { return fail("render", format!("{:?}", e)) } },
                }
                for (s, w) in &strings { if s.to_str().map(|s| s.trim()) != Ok(&**w) { return fail("string", format!("{:?} instead of {:?}", s.to_str(), w)) } }
            }
            Ok(fp(&(strings.len(), d.is_some(), p.is_some())))
        })();
        settle()?;
        r
    });

    // What is not a PDF is rejected, and nothing is leaked.
    const NOT: &[&[u8]] = &[b"", b"\0", b" ", b"\n", b"%", b"%PDF", b"%PDF-1.7", b"%PDF-1.7\n%%EOF\n", b"%PDF-9.9\nstartxref\n0\n%%EOF", b"hello", b"<!DOCTYPE html><p>Hello", b"\x89PNG\r\n\x1a\n", b"\xff\xff\xff\xff", b"trailer <</Size 1>>", b"startxref 0 %%EOF", b"\xef\xbb\xbf%PDF-"];
    ctx.section("not documents", |ch| Some((ch.choose(NOT.len()), *ch.pick(&[1usize, 2, 3, 100, 1024, 5000]), 1 + ch.choose(3))), |c| format!("{} times {:?}, {} at the same time", c.1, String::from_utf8_lossy(NOT[c.0]), c.2), |&(k, times, n)| {
        let b = NOT[k].repeat(times);
        let r = (|| {
            let mut errors = Vec::new();
            for _ in 0..n { match PdfDocument::from_bytes(&b) { Err(e) => errors.push(e), Ok(d) => return fail("accepted", format!("a document of {} pages", d.pages().len())) } }
            let m: Vec<(String, String)> = errors.iter().map(|e| (e.to_string(), format!("{:?}", e))).collect();
            if m.iter().any(|m| m.0.is_empty() || m != &(m.0.clone(), m.0.clone())) || m.windows(2).any(|w| w[0] != w[1]) { return fail("error", format!("errors {:?}", m)) }
            Ok(fp(&m[0].0))
        })();
        settle()?;
        r
    });
    // The same for what only begins like one.
    ctx.section("damaged documents", |ch| {
        let n = 1 + ch.choose(2);
        let at = ch.choose(pdfs[n].len() + 1);
        Some((n, at))
    }, |c| format!("{} pages, cut to {} bytes", c.0, c.1), |&(n, at)| {
        let r = match PdfDocument::from_bytes(&pdfs[n][..at]) {
            Err(e) => { let m = e.to_string(); if m.is_empty() { fail("error", "empty message") } else { Ok(fp(&m)) } }
            Ok(d) => {
                let l = d.pages().len();
                if at == pdfs[n].len() && l != n { fail("count", format!("{} pages", l)) } else { Ok(fp(&l)) }
            }
        };
        settle()?;
        r
    });
}
fn ctx_pages() -> usize { 5 }
