//! C24: PNG streams.
use crate::engine::*;
use lester::{ImageSurface, LesterError};
use std::io::{self, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ans { Full, One, Half, AllButOne, Zero, Interrupted, Error(u8), Panic }
const FAULTS: &[Ans] = &[Ans::One, Ans::Half, Ans::AllButOne, Ans::Zero, Ans::Interrupted, Ans::Error(0), Ans::Error(1), Ans::Error(2), Ans::Panic];
const KINDS: &[io::ErrorKind] = &[io::ErrorKind::Other, io::ErrorKind::WouldBlock, io::ErrorKind::InvalidData, io::ErrorKind::UnexpectedEof];

struct Boom(usize);

/// A stream whose answers are scripted per call; either direction.
struct Stream<'a> {
    src: &'a [u8],
    got: Vec<u8>,
    calls: usize,
    script: Vec<(usize, Ans)>,
    rest: Ans,
    failed: Option<(Ans, usize)>,
    flushes: usize,
    flush_answer: Ans,
    odd: bool,
}
impl<'a> Stream<'a> {
    fn new(src: &'a [u8], script: &[(usize, Ans)], rest: Ans) -> Self {
        Stream { src, got: Vec::new(), calls: 0, script: script.to_vec(), rest, failed: None, flushes: 0, flush_answer: Ans::Full, odd: false }
    }
    /// How many bytes of n to transfer, or the failure.
    fn answer(&mut self, n: usize) -> io::Result<usize> {
        let i = self.calls;
        self.calls += 1;
        let a = self.script.iter().find(|f| f.0 == i).map_or(self.rest, |f| f.1);
        match a {
            Ans::Full => Ok(n),
            Ans::One => Ok(n.min(1)),
            Ans::Half => Ok((n + 1) / 2),
            Ans::AllButOne => Ok(if n < 2 { n } else { n - 1 }),
            Ans::Zero => { if self.failed.is_none() && n > 0 { self.failed = Some((a, i)) } Ok(0) }
            Ans::Interrupted => {
                if self.rest == Ans::Interrupted { self.odd = !self.odd; if !self.odd { return Ok(n.min(1)) } }
                Err(io::Error::new(io::ErrorKind::Interrupted, "again"))
            }
            Ans::Error(k) => { if self.failed.is_none() { self.failed = Some((a, i)) } Err(io::Error::new(KINDS[k as usize], format!("the error of call {}", i))) }
            Ans::Panic => { if self.failed.is_none() { self.failed = Some((a, i)) } std::panic::panic_any(Boom(i)) }
        }
    }
}
impl<'a> Read for &mut Stream<'a> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if b.is_empty() { return Ok(0) }
        let n = self.answer(b.len())?.min(self.src.len());
        b[..n].copy_from_slice(&self.src[..n]);
        self.src = &self.src[n..];
        if n == 0 && self.failed.is_none() { self.failed = Some((Ans::Zero, self.calls - 1)) }
        Ok(n)
    }
}
impl<'a> Write for &mut Stream<'a> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() { return Ok(0) }
        let n = self.answer(b.len())?;
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.flushes += 1;
        match self.flush_answer {
            Ans::Error(k) => { if self.failed.is_none() { self.failed = Some((self.flush_answer, usize::MAX)) } Err(io::Error::new(KINDS[k as usize], format!("the error of call {}", usize::MAX))) }
            Ans::Panic => { if self.failed.is_none() { self.failed = Some((Ans::Panic, usize::MAX)) } std::panic::panic_any(Boom(usize::MAX)) }
            _ => Ok(()),
        }
    }
}

/// What a call returned, with panics told apart.
enum Got<T> { Value(T), Io(io::ErrorKind, String), Cairo(String), Boom(usize), Panic }
fn call<T>(f: impl FnOnce() -> Result<T, LesterError>) -> Got<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(v)) => Got::Value(v),
        Ok(Err(LesterError::Io(e))) => Got::Io(e.kind(), e.to_string()),
        Ok(Err(LesterError::Cairo(e))) => Got::Cairo(e.to_string()),
        Ok(Err(e)) => Got::Cairo(format!("glib? {:?}", e)),
        Err(p) => match p.downcast_ref::<Boom>() { Some(b) => Got::Boom(b.0), None => Got::Panic },
    }
}
/// Whether an outcome is the one that the stream's first failure calls for; `zero` is the kind for transfers of nothing.
fn judge<T>(g: &Got<T>, failed: Option<(Ans, usize)>, zero: io::ErrorKind) -> Result<(), Fail> {
    match (g, failed) {
        (Got::Panic, _) => fail("panic", "panics with a payload that is not the stream's"),
        (Got::Value(_), None) => Ok(()),
        (Got::Value(_), Some(f)) => fail("swallowed", format!("success although the stream answered {:?}", f)),
        (Got::Boom(i), Some((Ans::Panic, j))) if *i == j => Ok(()),
        (Got::Io(k, m), Some((Ans::Error(n), i))) if *k == KINDS[n as usize] && *m == format!("the error of call {}", i) => Ok(()),
        (Got::Io(k, _), Some((Ans::Zero, _))) if *k == zero => Ok(()),
        (Got::Io(k, m), f) => fail("error", format!("I/O error {:?} {:?}; the stream's first failure is {:?}", k, m, f)),
        (Got::Cairo(m), f) => fail("error", format!("cairo error {:?}; the stream's first failure is {:?}", m, f)),
        (Got::Boom(i), f) => fail("panic", format!("panic of call {}; the stream's first failure is {:?}", i, f)),
    }
}

fn crc(b: &[u8]) -> u32 {
    let mut c = !0u32;
    for &x in b { c ^= x as u32; for _ in 0..8 { c = if c & 1 != 0 { 0xEDB88320 ^ (c >> 1) } else { c >> 1 } } }
    !c
}
fn chunk(out: &mut Vec<u8>, ty: &[u8; 4], data: &[u8]) {
    out.extend_from_slice(&(data.len() as u32).to_be_bytes());
    let from = out.len();
    out.extend_from_slice(ty);
    out.extend_from_slice(data);
    let c = crc(&out[from..]);
    out.extend_from_slice(&c.to_be_bytes());
}
/// A PNG image with uncompressed data, written from the specification.  Colour types 2 (RGB) and 6 (RGBA).
fn encode(w: usize, h: usize, rgba: bool, px: &[(u8, u8, u8, u8)]) -> Vec<u8> {
    let mut o = b"\x89PNG\r\n\x1a\n".to_vec();
    let mut hd = (w as u32).to_be_bytes().to_vec();
    hd.extend_from_slice(&(h as u32).to_be_bytes());
    hd.extend_from_slice(&[8, if rgba { 6 } else { 2 }, 0, 0, 0]);
    chunk(&mut o, b"IHDR", &hd);
    let mut raw = Vec::new();
    for y in 0..h { raw.push(0); for x in 0..w { let p = px[y * w + x]; raw.extend_from_slice(&[p.0, p.1, p.2]); if rgba { raw.push(p.3) } } }
    let mut z = vec![0x78, 1];
    let n = raw.chunks(65535).count();
    for (i, c) in raw.chunks(65535).enumerate() {
        z.push((i + 1 == n) as u8);
        z.extend_from_slice(&(c.len() as u16).to_le_bytes());
        z.extend_from_slice(&(!(c.len() as u16)).to_le_bytes());
        z.extend_from_slice(c);
    }
    let (mut a, mut b) = (1u32, 0u32);
    for &x in &raw { a = (a + x as u32) % 65521; b = (b + a) % 65521 }
    z.extend_from_slice(&(b << 16 | a).to_be_bytes());
    chunk(&mut o, b"IDAT", &z);
    chunk(&mut o, b"IEND", b"");
    o
}

/// Pixels that survive premultiplication: components are 0 or full.
fn pixel(k: usize) -> (u8, u8, u8, u8) {
    let a = [255, 0, 128, 1][(k / 3) % 4];
    let on = |b: usize| if a != 0 && (k >> b) & 1 == 1 { 255 } else { 0 };
    (on(0), on(1), on(2), a)
}
fn opaque(k: usize) -> (u8, u8, u8, u8) { ((k * 37) as u8, (k * 91 + 5) as u8, (k * 13 + 128) as u8, 255) }
fn argb(p: (u8, u8, u8, u8)) -> u32 {
    let m = |c: u8| if c == 0 { 0 } else if p.3 == 255 { c as u32 } else { p.3 as u32 };
    (p.3 as u32) << 24 | m(p.0) << 16 | m(p.1) << 8 | m(p.2)
}

const SIZES: &[(usize, usize)] = &[(1, 1), (2, 1), (1, 3), (4, 4), (17, 5), (300, 60)];

fn surface(w: usize, h: usize, alpha: bool, f: &dyn Fn(usize) -> u32) -> ImageSurface {
    let mut s = if alpha { ImageSurface::new_argb32(w, h) } else { ImageSurface::new_rgb24(w, h) }.expect("surface");
    for (i, p) in s.pixels().buffer.iter_mut().enumerate() { *p = f(i) }
    s
}

struct Img { w: usize, h: usize, alpha: bool, want: Vec<u32>, png: Vec<u8>, written: Vec<u8>, reads: usize, writes: usize }

fn images() -> Vec<Img> {
    let mut v = Vec::new();
    for &(w, h) in SIZES { for &alpha in &[false, true] {
        let px: Vec<_> = (0..w * h).map(|i| if alpha { pixel(i) } else { opaque(i) }).collect();
        let want: Vec<u32> = px.iter().map(|p| argb(*p)).collect();
        let png = encode(w, h, alpha, &px);
        let s = surface(w, h, alpha, &|i| want[i]);
        let mut o = Stream::new(&[], &[], Ans::Full);
        s.write_to_png(&mut o).expect("write");
        let mut i = Stream::new(&png, &[], Ans::Full);
        ImageSurface::read_from_png(&mut i).ok().expect("read");
        let (reads, writes, written) = (i.calls, o.calls, o.got.clone());
        v.push(Img { w, h, alpha, want, png, written, reads, writes });
    } }
    v
}

fn compare(s: &mut ImageSurface, im: &Img) -> Result<(), Fail> {
    let p = s.pixels();
    if (p.width, p.height) != (im.w, im.h) { return fail("size", format!("{}x{} pixels, expected {}x{}", p.width, p.height, im.w, im.h)) }
    if p.buffer.len() != im.w * im.h { return fail("size", format!("a buffer of {} pixels", p.buffer.len())) }
    let mask = if im.alpha { !0 } else { 0xFF_FFFF };
    for (i, (a, b)) in p.buffer.iter().zip(&im.want).enumerate() {
        if a & mask != b & mask { return fail("pixels", format!("pixel {} is {:08x}, expected {:08x}", i, a, b)) }
    }
    Ok(())
}

fn read(im: &Img, data: &[u8], script: &[(usize, Ans)], rest: Ans) -> Outcome {
    let mut s = Stream::new(data, script, rest);
    let g = call(|| ImageSurface::read_from_png(&mut s));
    judge(&g, s.failed, io::ErrorKind::UnexpectedEof)?;
    let (calls, failed) = (s.calls, s.failed);
    if let Got::Value(mut v) = g { compare(&mut v, im)? }
    Ok(fp(&(calls, failed.map(|f| f.1))))
}
fn write(im: &Img, script: &[(usize, Ans)], rest: Ans, flush: Ans) -> Outcome {
    let sf = surface(im.w, im.h, im.alpha, &|i| im.want[i]);
    let mut s = Stream::new(&[], script, rest);
    s.flush_answer = flush;
    let g = call(|| sf.write_to_png(&mut s));
    // An error when flushing only counts if it was flushed, which no stream can require.
    judge(&g, s.failed, io::ErrorKind::WriteZero)?;
    if !im.written.starts_with(&s.got) { return fail("bytes", format!("other bytes than a healthy stream receives ({} of {})", s.got.len(), im.written.len())) }
    if let Got::Value(_) = g { if s.got.len() != im.written.len() { return fail("short", format!("success with {} of {} bytes", s.got.len(), im.written.len())) } }
    Ok(fp(&(s.calls, s.failed.map(|f| f.1))))
}

/// A sink that keeps what it gets in a buffer until it is flushed or dropped, and only then can fail.
struct Late<'a> { inner: &'a mut Vec<u8>, buffer: Vec<u8>, room: usize }
impl<'a> Late<'a> {
    fn out(&mut self) -> io::Result<()> {
        let b = std::mem::take(&mut self.buffer);
        let n = b.len().min(self.room - self.inner.len());
        self.inner.extend_from_slice(&b[..n]);
        if n < b.len() { Err(io::Error::new(io::ErrorKind::Other, "the error of call 0")) } else { Ok(()) }
    }
}
impl<'a> Write for Late<'a> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.buffer.extend_from_slice(b); if self.buffer.len() > 64 { self.out()? } Ok(b.len()) }
    fn flush(&mut self) -> io::Result<()> { self.out() }
}
impl<'a> Drop for Late<'a> { fn drop(&mut self) { let _ = self.out(); } }

pub fn c24(ctx: &mut Ctx) {
    ctx.assumptions.push("streams follow the contracts of std::io::Read and Write (they may panic); what a damaged image decodes to is libpng's business".into());
    let ims = images();
    let ims = &ims;
    let quick = ctx.tier == Tier::Quick;
    let name = |k: usize| format!("{}x{} {}", ims[k].w, ims[k].h, if ims[k].alpha { "ARGB" } else { "RGB" });

    ctx.section("round trips", |ch| Some((ch.choose(ims.len()), ch.choose(7), ch.choose(7))), |c| format!("{} written {} read {}", name(c.0), c.1, c.2), |&(k, a, b)| {
        let im = &ims[k];
        let pol = [Ans::Full, Ans::One, Ans::Half, Ans::AllButOne, Ans::Interrupted, Ans::Zero, Ans::Error(0)];
        write(im, &[], pol[a], Ans::Full)?;
        read(im, &im.png, &[], pol[b])?;
        read(im, &im.written, &[], pol[b])
    });

    ctx.section("one read fault", |ch| {
        let k = ch.choose(ims.len());
        let own = ch.flag();
        let i = ch.choose(ims[k].reads + 6);
        Some((k, own, i, *ch.pick(FAULTS), *ch.pick(&[Ans::Full, Ans::Half])))
    }, |c| format!("{} {}: read call {} answered {:?}, others {:?}", name(c.0), if c.1 { "as written by lester" } else { "uncompressed" }, c.2, c.3, c.4), |&(k, own, i, a, rest)| {
        let im = &ims[k];
        read(im, if own { &im.written } else { &im.png }, &[(i, a)], rest)
    });
    ctx.section("two read faults", |ch| {
        let k = ch.choose(ims.len());
        let i = ch.choose(ims[k].reads + 3);
        let j = i + 1 + ch.choose(ims[k].reads + 3 - i);
        Some((k, i, *ch.pick(&FAULTS[..5]), j, *ch.pick(FAULTS)))
    }, |c| format!("{}: read calls {} and {} answered {:?} and {:?}", name(c.0), c.1, c.3, c.2, c.4), |&(k, i, a, j, b)| read(&ims[k], &ims[k].png, &[(i, a), (j, b)], Ans::Full));

    ctx.section("one write fault", |ch| {
        let k = ch.choose(ims.len());
        let i = ch.choose(ims[k].writes + 6);
        Some((k, i, *ch.pick(FAULTS), *ch.pick(&[Ans::Full, Ans::Half]), *ch.pick(&[Ans::Full, Ans::Error(1), Ans::Panic])))
    }, |c| format!("{}: write call {} answered {:?}, others {:?}, flush {:?}", name(c.0), c.1, c.2, c.3, c.4), |&(k, i, a, rest, fl)| write(&ims[k], &[(i, a)], rest, fl));
    ctx.section("two write faults", |ch| {
        let k = ch.choose(ims.len());
        let i = ch.choose(ims[k].writes + 3);
        let j = i + 1 + ch.choose(ims[k].writes + 3 - i);
        Some((k, i, *ch.pick(&FAULTS[..5]), j, *ch.pick(FAULTS)))
    }, |c| format!("{}: write calls {} and {} answered {:?} and {:?}", name(c.0), c.1, c.3, c.2, c.4), |&(k, i, a, j, b)| write(&ims[k], &[(i, a), (j, b)], Ans::Full, Ans::Full));

    // Buffers that can only fail late: passing one by value must not lose the error.
    ctx.section("late failures", |ch| {
        let k = ch.choose(ims.len());
        let room = ch.choose(ims[k].written.len() + 2);
        if room > 300 && room + 100 < ims[k].written.len() && room % 64 > 1 { return None }
        Some((k, room))
    }, |c| format!("{} into a buffered sink with room for {} bytes", name(c.0), c.1), |&(k, room)| {
        let im = &ims[k];
        let s = surface(im.w, im.h, im.alpha, &|i| im.want[i]);
        let mut got = Vec::new();
        let r = call(|| s.write_to_png(Late { inner: &mut got, buffer: Vec::new(), room }));
        let full = room >= im.written.len();
        judge(&r, if full { None } else { Some((Ans::Error(0), 0)) }, io::ErrorKind::WriteZero)?;
        if full && got != im.written { return fail("short", "success without all of the bytes") }
        Ok(fp(&got.len()))
    });

    // Truncated and corrupted data.
    ctx.section("truncations", |ch| {
        let k = ch.choose(ims.len());
        let own = ch.flag();
        let n = if own { ims[k].written.len() } else { ims[k].png.len() };
        let at = ch.choose(n);
        if quick && at > 600 && at + 200 < n && at % 97 != 0 { return None }
        Some((k, own, at, *ch.pick(&[Ans::Full, Ans::One])))
    }, |c| format!("{} {} cut to {} bytes, read {:?}", name(c.0), if c.1 { "as written by lester" } else { "uncompressed" }, c.2, c.3), |&(k, own, at, rest)| {
        let im = &ims[k];
        let d = if own { &im.written } else { &im.png };
        let mut s = Stream::new(&d[..at], &[], rest);
        let g = call(|| ImageSurface::read_from_png(&mut s));
        judge(&g, Some((Ans::Zero, 0)), io::ErrorKind::UnexpectedEof)?;
        Ok(fp(&s.calls))
    });
    ctx.section("corruptions", |ch| {
        let k = ch.choose(if quick { 8 } else { 10 });
        let own = ch.flag();
        let n = if own { ims[k].written.len() } else { ims[k].png.len() };
        let at = ch.choose(n);
        Some((k, own, at, *ch.pick(&[0x01u8, 0x80, 0xff, 0x20])))
    }, |c| format!("{} {} with byte {} xor {:#x}", name(c.0), if c.1 { "as written by lester" } else { "uncompressed" }, c.2, c.3), |&(k, own, at, x)| {
        let im = &ims[k];
        let mut d = if own { im.written.clone() } else { im.png.clone() };
        d[at] ^= x;
        let mut s = Stream::new(&d, &[], Ans::Full);
        let g = call(|| ImageSurface::read_from_png(&mut s));
        match g {
            // What a damaged image decodes to is libpng's business; that it is reported or decoded is not.
            Got::Value(mut v) => { let p = v.pixels(); if p.buffer.len() != p.width * p.height { return fail("size", "buffer and size disagree") } Ok(fp(&1)) }
            Got::Cairo(m) => if s.failed.is_some() { fail("error", format!("cairo error {:?} although the stream ended early", m)) } else { Ok(fp(&m)) },
            Got::Io(k, m) => if s.failed.is_some() && k == io::ErrorKind::UnexpectedEof { Ok(fp(&2)) } else { fail("error", format!("I/O error {:?} {:?} out of nowhere", k, m)) },
            _ => fail("panic", "panics on a damaged image"),
        }
    });

    let dir = format!("{}/verif-png-{}", std::env::temp_dir().display(), std::process::id());
    std::fs::create_dir_all(&dir).unwrap();
    ctx.section("files", |ch| Some((ch.choose(ims.len()), ch.choose(7))), |c| format!("{}, file case {}", name(c.0), c.1), |&(k, case)| {
        let im = &ims[k];
        let path = format!("{}/f{}-{}", dir, k, case);
        let (target, errno) = match case {
            0 => (path, None),
            1 => { std::fs::write(&path, vec![7u8; im.written.len() + 999]).unwrap(); (path, None) }
            2 => { std::fs::create_dir(&path).ok(); (path, Some(libc::EISDIR)) }
            3 => (format!("{}/none/x.png", path), Some(libc::ENOENT)),
            4 => ("/dev/full".to_string(), Some(libc::ENOSPC)),
            5 => { std::fs::write(&path, b"f").unwrap(); (format!("{}/x.png", path), Some(libc::ENOTDIR)) }
            _ => { std::fs::write(&path, &im.png).unwrap(); (path, None) }
        };
        if case != 6 {
            let s = surface(im.w, im.h, im.alpha, &|i| im.want[i]);
            match (s.write_to_png_file(&target), errno) {
                (Ok(()), None) => if std::fs::read(&target).unwrap() != im.written { return fail("file", "the file does not hold the image") },
                (Err(LesterError::Io(e)), Some(c)) if e.raw_os_error() == Some(c) => return Ok(fp(&c)),
                (r, e) => return fail("file", format!("{:?}, expected os error {:?}", r, e)),
            }
        }
        match ImageSurface::read_from_png_file(&target) {
            Ok(mut s) => { compare(&mut s, im)?; Ok(fp(&case)) }
            Err(e) => fail("file", format!("reading the file fails: {:?}", e)),
        }
    });
    ctx.section("unreadable files", |ch| Some(ch.choose(5)), |c| format!("case {}", c), |&case| {
        let path = format!("{}/u{}", dir, case);
        let (target, want): (String, Box<dyn Fn(&io::Error) -> bool>) = match case {
            0 => (path, Box::new(|e| e.raw_os_error() == Some(libc::ENOENT))),
            1 => { std::fs::create_dir(&path).ok(); (path, Box::new(|e| e.raw_os_error() == Some(libc::EISDIR))) }
            2 => ("/dev/null".into(), Box::new(|e| e.kind() == io::ErrorKind::UnexpectedEof)),
            3 => { std::fs::write(&path, b"").unwrap(); (path, Box::new(|e| e.kind() == io::ErrorKind::UnexpectedEof)) }
            _ => { std::fs::write(&path, &ims[7].png[..30]).unwrap(); (path, Box::new(|e| e.kind() == io::ErrorKind::UnexpectedEof)) }
        };
        match ImageSurface::read_from_png_file(&target) {
            Err(LesterError::Io(e)) if want(&e) => Ok(fp(&e.to_string())),
            Err(e) => fail("file", format!("error {:?} is not the system's", e)),
            Ok(_) => fail("file", "success"),
        }
    });
    let _ = std::fs::remove_dir_all(&dir);

    // Surfaces of any size, also empty and too big.
    ctx.section("surface sizes", |ch| {
        let z = [0usize, 1, 2, 5, 32767, 32768, 65536, 0x7fff_ffff];
        Some((*ch.pick(&z), *ch.pick(&z), ch.flag()))
    }, |c| format!("{:?}", c), |&(w, h, alpha)| {
        let r = if alpha { ImageSurface::new_argb32(w, h) } else { ImageSurface::new_rgb24(w, h) };
        match r {
            Err(e) => if w > 32767 || h > 32767 || w * h > 1 << 28 { Ok(fp(&e.to_string())) } else { fail("size", format!("rejected: {:?}", e)) },
            Ok(mut s) => {
                if w * h > 1 << 28 { return Ok(3) }
                let p = s.pixels();
                if (p.width, p.height, p.buffer.len()) != (w, h, w * h) { return fail("size", format!("{}x{} with {} pixels", p.width, p.height, p.buffer.len())) }
                if p.buffer.as_ptr().is_null() { return fail("null", "the slice of pixels is a null reference") }
                for x in p.buffer.iter() { if *x & if alpha { !0 } else { 0xFF_FFFF } != 0 { return fail("pixels", "a new surface is not blank") } }
                Ok(fp(&(w, h)))
            }
        }
    });
}
