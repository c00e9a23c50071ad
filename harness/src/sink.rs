//! C23: PDF output through faulty sinks.
use crate::api::{fonts, Fonts};
use crate::engine::*;
use std::io::{self, Write};
use std::sync::Mutex;
use victor::pdf::Document;
use victor::primitives::*;
use victor::text::ShapedSegment;

/// What the sink answers to one write call.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Ans { Full, One, Half, AllButOne, Zero, Interrupted, Error(u8) }
const FAULTS: &[Ans] = &[Ans::One, Ans::Half, Ans::AllButOne, Ans::Zero, Ans::Interrupted, Ans::Error(0), Ans::Error(1), Ans::Error(2)];
const KINDS: &[io::ErrorKind] = &[io::ErrorKind::Other, io::ErrorKind::WouldBlock, io::ErrorKind::WriteZero, io::ErrorKind::BrokenPipe, io::ErrorKind::UnexpectedEof, io::ErrorKind::ConnectionReset, io::ErrorKind::ConnectionAborted, io::ErrorKind::NotConnected, io::ErrorKind::TimedOut,
    io::ErrorKind::InvalidInput, io::ErrorKind::InvalidData, io::ErrorKind::PermissionDenied, io::ErrorKind::NotFound, io::ErrorKind::AlreadyExists, io::ErrorKind::OutOfMemory, io::ErrorKind::Unsupported];

struct Sink { got: Vec<u8>, calls: usize, faults: Vec<(usize, Ans)>, rest: Ans, failed: Option<String>, interrupted: bool, flush: Ans }
impl Sink {
    fn new(faults: &[(usize, Ans)], rest: Ans) -> Sink { Sink { got: Vec::new(), calls: 0, faults: faults.to_vec(), rest, failed: None, interrupted: false, flush: Ans::Full } }
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let i = self.calls;
        self.calls += 1;
        let a = self.faults.iter().find(|f| f.0 == i).map_or(self.rest, |f| f.1);
        if b.is_empty() { return Ok(0) }
        let n = match a {
            Ans::Full => b.len(),
            Ans::One => 1,
            Ans::Half => (b.len() + 1) / 2,
            Ans::AllButOne => (b.len() - 1).max(1),
            Ans::Zero => { if self.failed.is_none() { self.failed = Some("zero".into()) } return Ok(0) }
            Ans::Interrupted => {
                // as the rest policy: only every other call, or nothing would ever be written
                if self.rest == Ans::Interrupted { self.interrupted = !self.interrupted; if !self.interrupted { self.got.push(b[0]); return Ok(1) } }
                return Err(io::Error::new(io::ErrorKind::Interrupted, "again"))
            }
            Ans::Error(k) => {
                let m = format!("the error of call {}", i);
                if self.failed.is_none() { self.failed = Some(m.clone()) }
                return Err(io::Error::new(KINDS[k as usize], m))
            }
        };
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        match self.flush {
            Ans::Error(k) => {
                let m = String::from("the error of flushing");
                if self.failed.is_none() { self.failed = Some(m.clone()) }
                Err(io::Error::new(KINDS[k as usize], m))
            }
            _ => Ok(()),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Draw { Page, Rect, Alpha, Alphas, Text }

fn draw(doc: &mut Document, f: &Fonts, ops: &[Draw]) {
    let mut i = 0;
    while i < ops.len() {
        let mut p = doc.add_page(Size::new(100. + i as f32, 50.5));
        if ops[i] == Draw::Page { i += 1 }
        while i < ops.len() {
            match ops[i] {
                Draw::Page => break,
                Draw::Rect => { p.paint_rectangle(&Rect::new(point(i as f32, 2.25), Size::new(10., 20.))); }
                Draw::Alpha => { p.set_color(&RGBA(0.5, 0.25, 1., 0.5)); }
                Draw::Alphas => for a in 1..5 { p.set_color(&RGBA(0., 1., 0., a as f32 / 8.)); p.paint_rectangle(&Rect::new(point(a as f32, 3.), Size::new(1., 2.))); },
                Draw::Text => {
                    let seg = ShapedSegment::naive_shape("ab", f.fonts[0].clone()).ok().unwrap();
                    p.show_text(&TextRun { segment: &seg, font_size: Length::new(10.), origin: point(1., 40.) }).ok().unwrap();
                }
            }
            i += 1;
        }
    }
}

fn judge(r: io::Result<()>, s: &Sink, want: &[u8]) -> Outcome {
    if !want.starts_with(&s.got) {
        let at = s.got.iter().zip(want).take_while(|(a, b)| a == b).count();
        return fail("bytes", format!("the sink received other bytes than the serialisation from offset {} on ({} received, {} expected)", at, s.got.len(), want.len()))
    }
    match (&s.failed, r) {
        (None, Ok(())) if s.got.len() == want.len() => Ok(fp(&(s.calls, s.got.len()))),
        (None, Ok(())) => fail("short", format!("success, but only {} of {} bytes were written", s.got.len(), want.len())),
        (None, Err(e)) => fail("spurious", format!("error {:?} although the sink did not fail", e)),
        (Some(_), Ok(())) => fail("swallowed", format!("success although the sink failed after {} of {} bytes", s.got.len(), want.len())),
        (Some(m), Err(e)) => {
            if m == "zero" { if e.kind() != io::ErrorKind::WriteZero { return fail("error", format!("error {:?} for a write of zero bytes", e)) } }
            else if e.to_string() != *m { return fail("error", format!("error {:?} is not the sink's ({})", e, m)) }
            Ok(fp(&(s.got.len(), m)))
        }
    }
}

struct Scratch(String);
impl Scratch {
    fn new() -> Scratch {
        let d = format!("{}/verif-sink-{}", std::env::temp_dir().display(), std::process::id());
        std::fs::create_dir_all(&d).unwrap();
        Scratch(d)
    }
    fn file(&self, name: &str) -> String { format!("{}/{}", self.0, name) }
}
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }

/// Runs `f` while no file can grow beyond `limit` bytes.
fn with_file_limit<T>(limit: u64, f: impl FnOnce() -> T) -> T {
    static LOCK: Mutex<()> = Mutex::new(());
    let _g = LOCK.lock().unwrap_or_else(|e| e.into_inner());
    unsafe {
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
        let mut old = std::mem::zeroed::<libc::rlimit>();
        libc::getrlimit(libc::RLIMIT_FSIZE, &mut old);
        let new = libc::rlimit { rlim_cur: limit, rlim_max: old.rlim_max };
        assert_eq!(libc::setrlimit(libc::RLIMIT_FSIZE, &new), 0);
        let r = f();
        libc::setrlimit(libc::RLIMIT_FSIZE, &old);
        r
    }
}

fn bulky(f: &Fonts, rects: usize) -> Document {
    let mut d = Document::new();
    draw(&mut d, f, &[Draw::Page, Draw::Alpha, Draw::Text]);
    let mut p = d.add_page(Size::new(500., 500.));
    for i in 0..rects { p.paint_rectangle(&Rect::new(point(i as f32, 1.5), Size::new(3., 4.))); }
    drop(p);
    d
}

pub fn c23(ctx: &mut Ctx) {
    ctx.assumptions.push("sinks follow the contract of std::io::Write; a limit on file sizes stands for a full disk".into());
    let f = fonts();
    let docs: Vec<Vec<Draw>> = vec![
        vec![],
        vec![Draw::Page],
        vec![Draw::Page, Draw::Alpha, Draw::Rect, Draw::Page, Draw::Rect],
        vec![Draw::Page, Draw::Alpha, Draw::Text, Draw::Page, Draw::Rect, Draw::Alphas, Draw::Text],
    ];
    let built: Vec<(Document, Vec<u8>, usize)> = docs.iter().map(|ops| {
        let mut d = Document::new();
        draw(&mut d, &f, ops);
        let b = d.write_to_pdf_bytes();
        let mut s = Sink::new(&[], Ans::Full);
        d.write_to_pdf(&mut s).unwrap();
        let n = s.calls;
        (d, b, n)
    }).collect();
    struct Shared<'a>(&'a [(Document, Vec<u8>, usize)]);
    unsafe impl<'a> Sync for Shared<'a> {}
    let shared = Shared(&built);
    let shared = &shared;

    ctx.section("uniform sinks", |ch| {
        let d = ch.choose(docs.len());
        Some((d, *ch.pick(&[Ans::Full, Ans::One, Ans::Half, Ans::AllButOne, Ans::Interrupted, Ans::Zero, Ans::Error(0)])))
    }, |c| format!("document {:?}, every write answered {:?}", docs[c.0], c.1), |&(d, a)| {
        let mut s = Sink::new(&[], a);
        let r = shared.0[d].0.write_to_pdf(&mut s);
        judge(r, &s, &shared.0[d].1)
    });

    // One fault at every call, then two.  Short writes make more calls, so positions go beyond those of a healthy sink.
    ctx.section("one fault", |ch| {
        let d = ch.choose(docs.len());
        let i = ch.choose(built[d].2 + 3);
        let a = *ch.pick(FAULTS);
        let rest = *ch.pick(&[Ans::Full, Ans::Half]);
        Some((d, vec![(i, a)], rest))
    }, |c| format!("document {:?}, write calls answered {:?}, all others {:?}", docs[c.0], c.1, c.2), |(d, v, rest)| {
        let mut s = Sink::new(v, *rest);
        let r = shared.0[*d].0.write_to_pdf(&mut s);
        judge(r, &s, &shared.0[*d].1)
    });
    // Every kind of error, at every call; and on flushing, for whoever flushes.
    ctx.section("error kinds", |ch| {
        let d = ch.choose(docs.len());
        let n = built[d].2;
        let i = ch.choose(n + 2);
        if d == 3 && i > 40 && i + 40 < n && i % 8 > 0 { return None }
        let k = ch.choose(KINDS.len()) as u8;
        let flush = ch.choose(3);
        if flush == 2 && i > 0 { return None }
        Some((d, if flush == 2 { vec![] } else { vec![(i, Ans::Error(k))] }, if flush > 0 { Ans::Error(k) } else { Ans::Full }))
    }, |c| format!("document {:?}, write calls answered {:?}, flushes {:?}", docs[c.0], c.1, c.2), |(d, v, flush)| {
        let mut s = Sink::new(v, Ans::Full);
        s.flush = *flush;
        let r = shared.0[*d].0.write_to_pdf(&mut s);
        judge(r, &s, &shared.0[*d].1)
    });
    let reach = ctx.by(60usize, usize::MAX);
    ctx.section("two faults", |ch| {
        let d = ch.choose(docs.len());
        let n = built[d].2 + 3;
        let i = ch.choose(n);
        let j = i + 1 + ch.choose(n.saturating_sub(i + 1).min(reach).max(1));
        let a = *ch.pick(&FAULTS[..5]);
        let b = *ch.pick(FAULTS);
        Some((d, vec![(i, a), (j, b)], Ans::Full))
    }, |c| format!("document {:?}, write calls answered {:?}", docs[c.0], c.1), |(d, v, rest)| {
        let mut s = Sink::new(v, *rest);
        let r = shared.0[*d].0.write_to_pdf(&mut s);
        judge(r, &s, &shared.0[*d].1)
    });

    // Histories: whatever was written before, and however that failed, the next write gives what a fresh document gives.
    #[derive(Clone, Copy, Debug, PartialEq)]
    enum Op { D(Draw), Bytes, Fail(usize), File }
    let scratch = Scratch::new();
    let alphabet = [Op::D(Draw::Page), Op::D(Draw::Rect), Op::D(Draw::Text), Op::D(Draw::Alpha), Op::D(Draw::Alphas), Op::Bytes, Op::Fail(0), Op::Fail(7), Op::File];
    let depth = ctx.by(5, 6);
    ctx.section("histories", |ch| {
        let n = 1 + ch.choose(depth);
        let mut v: Vec<Op> = Vec::new();
        for _ in 0..n { v.push(*ch.pick(&alphabet)) }
        Some(v)
    }, |v| format!("{:?}", v), |v| {
        let mut d = Document::new();
        let mut drawn: Vec<Vec<Draw>> = Vec::new();
        let path = scratch.file(&format!("h{:?}", std::thread::current().id()));
        for (i, o) in v.iter().enumerate() {
            let fresh = || { let mut e = Document::new(); for x in &drawn { draw(&mut e, &f, x) } e.write_to_pdf_bytes() };
            match *o {
                Op::D(x) => { let x = vec![x]; draw(&mut d, &f, &x); drawn.push(x) }
                Op::Bytes => if d.write_to_pdf_bytes() != fresh() { return fail("history", format!("operation {}: other bytes than a fresh document gives", i)) },
                Op::Fail(k) => {
                    let mut s = Sink::new(&[(k, Ans::Error(0))], Ans::Half);
                    let r = d.write_to_pdf(&mut s);
                    judge(r, &s, &fresh())?;
                }
                Op::File => {
                    if let Err(e) = d.write_to_pdf_file(&path) { return fail("file", format!("operation {}: writing to a file failed: {:?}", i, e)) }
                    if std::fs::read(&path).unwrap() != fresh() { return fail("history", format!("operation {}: other bytes in the file than a fresh document gives", i)) }
                }
            }
        }
        let mut e = Document::new();
        for x in &drawn { draw(&mut e, &f, x) }
        let (a, b) = (d.write_to_pdf_bytes(), e.write_to_pdf_bytes());
        if a != b { return fail("history", "other bytes at the end than a fresh document gives") }
        Ok(fp_bytes(&a))
    });

    // Files: no room after any number of bytes, existing contents, paths that cannot be written.
    let big: Vec<(Document, Vec<u8>)> = [0usize, 150, 700].iter().map(|&n| { let d = bulky(&f, n); let b = d.write_to_pdf_bytes(); (d, b) }).collect();
    struct Shared2<'a>(&'a [(Document, Vec<u8>)]);
    unsafe impl<'a> Sync for Shared2<'a> {}
    let big2 = Shared2(&big);
    let big2 = &big2;
    let quick = ctx.tier == Tier::Quick;
    ctx.section("file with limited room", |ch| {
        let d = ch.choose(big.len());
        let len = big[d].1.len();
        let k = ch.choose(len + 2);
        if quick && k % 7 != 0 && k + 40 < len && k % 4096 > 2 { return None }
        Some((d, k))
    }, |c| format!("a document of {} bytes in a file with room for {}", big[c.0].1.len(), c.1), |&(d, k)| {
        let (doc, want) = &big2.0[d];
        let path = scratch.file("limited");
        let (r, got) = with_file_limit(k as u64, || { let r = doc.write_to_pdf_file(&path); (r, std::fs::read(&path).unwrap()) });
        match r {
            Ok(()) if got == *want => Ok(fp(&"ok")),
            Ok(()) => fail("file", format!("success, but the file has {} of {} bytes", got.len(), want.len())),
            Err(e) if k >= want.len() => fail("file", format!("error {:?} although there was room", e)),
            Err(e) if e.raw_os_error() != Some(libc::EFBIG) => fail("file", format!("error {:?} is not the system's", e)),
            Err(_) => Ok(fp(&got.len())),
        }
    });
    ctx.section("paths", |ch| Some((ch.choose(big.len()), ch.choose(7))), |c| format!("document {}, path case {}", c.0, c.1), |&(d, k)| {
        let (doc, want) = &big2.0[d];
        let path = scratch.file(&format!("p{}-{}", d, k));
        let (target, expect): (String, Option<i32>) = match k {
            0 => (path, None),
            1 => { std::fs::write(&path, vec![b'x'; want.len() + 1000]).unwrap(); (path, None) }
            2 => { std::fs::write(&path, b"short").unwrap(); (path, None) }
            3 => { std::fs::create_dir(&path).ok(); (path, Some(libc::EISDIR)) }
            4 => (format!("{}/none/x.pdf", path), Some(libc::ENOENT)),
            5 => ("/dev/full".into(), Some(libc::ENOSPC)),
            _ => { std::fs::write(&path, b"f").unwrap(); (format!("{}/x.pdf", path), Some(libc::ENOTDIR)) }
        };
        let r = doc.write_to_pdf_file(&target);
        match (r, expect) {
            (Ok(()), None) => if std::fs::read(&target).unwrap() == *want { Ok(1) } else { fail("file", "the file does not hold the document") },
            (Err(e), Some(c)) => if e.raw_os_error() == Some(c) { Ok(fp(&c)) } else { fail("file", format!("error {:?}, expected os error {}", e, c)) },
            (r, e) => fail("file", format!("{:?}, expected os error {:?}", r, e)),
        }
    });
}
