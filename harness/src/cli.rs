//! C27: the command-line program.
use crate::engine::*;
use std::io::Read;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{Command, Stdio};

struct Scratch(String);
impl Scratch {
    fn new() -> Scratch { let d = format!("{}/verif-c27-{}", std::env::temp_dir().display(), std::process::id()); std::fs::create_dir_all(&d).unwrap(); Scratch(d) }
    /// A fresh directory for each case.
    fn dir(&self) -> Dir {
        use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
        static N: AtomicU64 = AtomicU64::new(0);
        let d = format!("{}/{}", self.0, N.fetch_add(1, SeqCst));
        std::fs::create_dir(&d).unwrap();
        Dir(d)
    }
}
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }
struct Dir(String);
impl Dir { fn file(&self, n: &str) -> String { format!("{}/{}", self.0, n) } }
impl Drop for Dir { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }

struct Run { code: Option<i32>, signal: Option<i32>, out: Vec<u8>, err: Vec<u8> }

fn program() -> String { format!("{}/debug/victor-program", std::env::var("CARGO_TARGET_DIR").unwrap_or_else(|_| "/verif/target".into())) }

fn run(dir: &Dir, args: &[&str], stdin: Option<&[u8]>, limit: Option<u64>) -> Run {
    let mut c = Command::new(program());
    c.args(args).current_dir(&dir.0).stdout(Stdio::piped()).stderr(Stdio::piped()).stdin(if stdin.is_some() { Stdio::piped() } else { Stdio::null() });
    unsafe {
        c.pre_exec(move || {
            libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
            if let Some(l) = limit {
                let r = libc::rlimit { rlim_cur: l, rlim_max: l };
                libc::setrlimit(libc::RLIMIT_FSIZE, &r);
            }
            Ok(())
        });
    }
    let mut p = c.spawn().expect("start the program");
    if let Some(b) = stdin { use std::io::Write; let mut i = p.stdin.take().unwrap(); let _ = i.write_all(b); }
    let mut err = p.stderr.take().unwrap();
    let t = std::thread::spawn(move || { let mut v = Vec::new(); let _ = err.read_to_end(&mut v); v });
    let mut out = Vec::new();
    let _ = p.stdout.take().unwrap().read_to_end(&mut out);
    let s = p.wait().unwrap();
    Run { code: s.code(), signal: s.signal(), out, err: t.join().unwrap() }
}

fn expected(html: &[u8]) -> Vec<u8> { victor::dom::Document::parse_html(html).to_pdf_bytes() }

fn succeeded(r: &Run) -> Result<(), Fail> {
    if r.code == Some(0) { Ok(()) } else { fail("status", format!("exit status {:?}, signal {:?}: {}", r.code, r.signal, String::from_utf8_lossy(&r.err))) }
}
/// Failed in an orderly way: an exit status, a message, no panic.
fn failed(r: &Run) -> Result<(), Fail> {
    let e = String::from_utf8_lossy(&r.err);
    if r.code == Some(0) { return fail("status", "success is reported") }
    if r.code.is_none() || e.contains("panicked") { return fail("crash", format!("exit status {:?}, signal {:?}: {}", r.code, r.signal, e)) }
    if e.trim().is_empty() { return fail("message", "fails without a message") }
    Ok(())
}

pub fn c27(ctx: &mut Ctx) {
    ctx.assumptions.push("the program is run as a process, on scratch files; the library's own bytes are the reference (C01 to C20 check these)".into());
    let scratch = Scratch::new();
    let scratch = &scratch;
    // Inputs: whatever the bytes, the library's PDF is written.
    let tokens: Vec<&[u8]> = vec![b"x", b"<p>", b"<div style='background:red'>", b"</p>", b"\xff", b"\0", b"\xe9\xc3", "\u{e9}\u{feff}".as_bytes(), b"\r\n", b"&eacute;"];
    let len = ctx.by(3usize, 4);
    ctx.section("inputs", |ch| {
        let n = ch.choose(len + 1);
        let mut v: Vec<u8> = if ch.flag() { b"\xef\xbb\xbf".to_vec() } else { Vec::new() };
        for _ in 0..n { let t: &&[u8] = ch.pick(&tokens[..]); v.extend_from_slice(t) }
        Some(v)
    }, |v| format!("{:?}", String::from_utf8_lossy(v)), |v| {
        let d = scratch.dir();
        std::fs::write(d.file("i"), v).unwrap();
        let want = expected(v);
        succeeded(&run(&d, &["i", "o"], None, None))?;
        let got = std::fs::read(d.file("o")).unwrap_or_default();
        if got != want { return fail("output", format!("{} bytes, the library gives {}", got.len(), want.len())) }
        Ok(fp_bytes(&want))
    });
    // Sizes of the input around those of buffers, each in another process of which the output must be the same.
    let sizes: Vec<usize> = (0..ctx.by(17u32, 21)).flat_map(|k| { let n = 1usize << k; vec![n - 1, n, n + 1] }).collect();
    ctx.section("input sizes", |ch| Some((*ch.pick(&sizes), ch.flag())), |c| format!("{:?}", c), |&(n, several)| {
        let d = scratch.dir();
        let html: Vec<u8> = (0..n).map(|i| if i % 61 == 60 { b'\n' } else if i % 7 == 6 { b' ' } else { b'a' + (i % 23) as u8 }).collect();
        std::fs::write(d.file("in.html"), &html).unwrap();
        let want = expected(&html);
        for k in 0..(if several { 3 } else { 1 }) {
            succeeded(&run(&d, &["in.html", "out.pdf"], None, None))?;
            let got = std::fs::read(d.file("out.pdf")).unwrap_or_default();
            if got != want { return fail("output", format!("run {}: {} bytes, the library gives {}", k, got.len(), want.len())) }
        }
        Ok(fp_bytes(&want))
    });
    let docs: Vec<Vec<u8>> = vec![Vec::new(), b"<p>text".to_vec(), (0..300).map(|i| format!("<p style='background:#{:03x}'>{}</p>", i, i)).collect::<String>().into_bytes()];
    let outs: Vec<Vec<u8>> = docs.iter().map(|d| expected(d)).collect();
    let (docs, outs) = (&docs, &outs);
    // No room for the output after any number of bytes.
    let quick = ctx.tier == Tier::Quick;
    ctx.section("room for the output", |ch| {
        let k = ch.choose(3);
        let n = outs[k].len();
        let room = ch.choose(n + 2);
        if quick && room % 97 != 0 && room + 20 < n && room > 20 && room % 4096 > 1 { return None }
        if !quick && k == 2 && room % 13 != 0 && room + 20 < n { return None }
        Some((k, room, ch.flag()))
    }, |c| format!("document {}, room for {} of {} bytes, the output exists: {}", c.0, c.1, outs[c.0].len(), c.2), |&(k, room, exists)| {
        let d = scratch.dir();
        std::fs::write(d.file("i"), &docs[k]).unwrap();
        if exists { std::fs::write(d.file("o"), b"old").unwrap() }
        let r = run(&d, &["i", "o"], None, Some(room as u64));
        if room >= outs[k].len() {
            succeeded(&r)?;
            if std::fs::read(d.file("o")).unwrap_or_default() != outs[k] { return fail("output", "incomplete output although there was room") }
        } else { failed(&r)? }
        Ok(fp(&(k, r.code)))
    });
    // What the arguments name, for each of them.
    ctx.section("arguments", |ch| Some((ch.choose(3), ch.choose(8), ch.choose(10))), |c| format!("document {}, input kind {}, output kind {}", c.0, c.1, c.2), |&(k, i, o)| {
        let d = scratch.dir();
        let (html, pdf) = (&docs[k], &outs[k]);
        let mut stdin = None;
        let (input, in_ok) = match i {
            0 => { std::fs::write(d.file("a b.html"), html).unwrap(); ("a b.html".to_string(), true) }
            1 => { let p = d.file("\u{e9}"); std::fs::write(&p, html).unwrap(); (p, true) }
            2 => { stdin = Some(&html[..]); ("/dev/stdin".into(), true) }
            3 => { std::fs::write(d.file("real"), html).unwrap(); std::os::unix::fs::symlink("real", d.file("link")).unwrap(); ("link".into(), true) }
            4 => ("missing".into(), false),
            5 => (".".into(), false),
            6 => ("".into(), false),
            _ => { std::fs::write(d.file("f"), html).unwrap(); ("f/x".into(), false) }
        };
        let (output, out_ok) = match o {
            0 => ("o".to_string(), true),
            1 => { std::fs::write(d.file("o"), vec![b'x'; pdf.len() + 5000]).unwrap(); ("o".into(), true) }
            2 => { std::fs::write(d.file("o"), b"x").unwrap(); ("o".into(), true) }
            3 => { std::fs::create_dir(d.file("sub")).unwrap(); ("sub/out \u{e9}.pdf".into(), true) }
            4 => ("/dev/stdout".into(), true),
            5 => { std::fs::create_dir(d.file("sub")).unwrap(); ("sub".into(), false) }
            6 => ("no/such/dir".into(), false),
            7 => ("/dev/full".into(), false),
            8 => ("".into(), false),
            _ => (input.clone(), in_ok && i != 2),
        };
        // (a standard input or output that is not there to be written to)
        if o == 9 && i == 2 { return Ok(0) }
        let before = std::fs::read(d.file(&output)).ok();
        let r = run(&d, &[&input, &output], stdin, None);
        if in_ok && out_ok {
            succeeded(&r)?;
            let got = if o == 4 { r.out } else { std::fs::read(if output.starts_with('/') { output.clone() } else { d.file(&output) }).unwrap_or_default() };
            if got != *pdf { return fail("output", format!("{} bytes, the library gives {}", got.len(), pdf.len())) }
        } else {
            failed(&r)?;
            if !in_ok && !output.starts_with('/') && o != 9 && std::fs::read(d.file(&output)).ok() != before && before.is_some() { return fail("input", "an unreadable input destroys the output of an earlier run") }
        }
        Ok(fp(&(in_ok, out_ok)))
    });
    ctx.section("missing arguments", |ch| { let n = ch.choose(2); Some((0..n).map(|_| *ch.pick(&["i", "o", "", "-", "--help"])).collect::<Vec<&str>>()) }, |a| format!("{:?}", a), |a| {
        let d = scratch.dir();
        std::fs::write(d.file("i"), b"x").unwrap();
        let r = run(&d, a, None, None);
        failed(&r)?;
        let names: Vec<_> = std::fs::read_dir(&d.0).unwrap().map(|e| e.unwrap().file_name()).collect();
        if names != ["i"] || std::fs::read(d.file("i")).unwrap() != b"x" { return fail("files", format!("files after a call with missing arguments: {:?}", names)) }
        Ok(fp(&r.code))
    });
}
