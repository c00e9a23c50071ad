//! C21: the PDF does not depend on how parallel layout is split and scheduled.
use crate::engine::*;
use rayon_core::model::{self, Config};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use victor::dom::Document;

static SCHEDULES: AtomicU64 = AtomicU64::new(0);
static POINTS: AtomicU64 = AtomicU64::new(0);
static SWITCHES: AtomicU64 = AtomicU64::new(0);
static NOT_FOLLOWED: AtomicU64 = AtomicU64::new(0);
static LONGEST: AtomicU64 = AtomicU64::new(0);

#[derive(Clone, Debug)]
struct Case { html: String, cfg: Config, max: u64, by_region: bool }

fn render(d: &Document) -> Vec<u8> { d.to_pdf_bytes() }

fn explore(c: &Case) -> Outcome {
    let parsed = Document::parse_html(c.html.as_bytes());
    let one = Config { threads: 1, injected: false, preemptions: 0, at_allocations: false, region: None };
    let base = match model::run(one, Vec::new(), || render(&parsed)).result { Ok(b) => b, Err(_) => return fail("panic", "panics when nothing runs in parallel") };
    if render(&parsed) != base { return fail("again", "rendering the same document twice gives different bytes") }
    let mut n = 0u64;
    let mut regions = 1;
    let mut region = 0;
    while region < regions {
    let cfg = Config { region: if c.by_region { Some(region) } else { None }, ..c.cfg };
    let mut path = Some(Vec::new());
    while let Some(p) = path {
        let again = n % 4 == 0;
        // a fresh document, or one that was rendered before
        let fresh;
        let doc = if again { fresh = Document::parse_html(c.html.as_bytes()); &fresh } else { &parsed };
        let o = model::run(cfg, p, || render(doc));
        n += 1;
        if c.by_region { regions = o.regions }
        POINTS.fetch_add(o.points, SeqCst);
        SWITCHES.fetch_add(o.switches, SeqCst);
        LONGEST.fetch_max(o.path.len() as u64, SeqCst);
        if !o.followed { NOT_FOLLOWED.fetch_add(1, SeqCst); }
        let choices: Vec<u32> = o.path.iter().map(|x| x.0).collect();
        match o.result {
            Err(_) => return fail("panic", format!("panics under schedule {} of {:?}, choices {:?}", n, cfg, choices)),
            Ok(b) => if b != base { return fail("bytes", format!("other bytes than the sequential rendering under schedule {} of {:?}, choices {:?}", n, cfg, choices)) },
        }
        path = model::next(o.path);
        if n >= c.max && path.is_some() { return fail("bound", "engine: more schedules than planned for") }
    }
    region += 1;
    }
    if std::env::var("SCHED_TRACE").is_ok() { eprintln!("{} schedules: {:?}", n, c.cfg) }
    SCHEDULES.fetch_add(n, SeqCst);
    Ok(fp(&(fp_bytes(&base), n, c.cfg.threads)))
}

/// Ordered forests of n elements, as a nesting string.
fn forest(ch: &mut Chooser, n: usize, el: &mut dyn FnMut(&mut Chooser, usize) -> (String, String)) -> String {
    let mut s = String::new();
    let mut stack: Vec<String> = Vec::new();
    for i in 0..n {
        let up = if i == 0 { 0 } else { ch.choose(stack.len() + 1) };
        for _ in 0..up { s.push_str(&stack.pop().unwrap()) }
        let (open, close) = el(ch, i);
        s.push_str(&open);
        stack.push(close);
    }
    while let Some(c) = stack.pop() { s.push_str(&c) }
    s
}


const STYLES: &[&str] = &[
    "",
    "margin:7px 3px",
    "position:absolute;",
    "position:relative;padding:2px",
    "position:absolute;left:1px;top:2px",
    "display:flow-root;margin:5px",
    "display:inline;",
    "margin:-4px 0 9px",
];

fn element(ch: &mut Chooser, i: usize, styles: &[&str]) -> (String, String) {
    let st = *ch.pick(styles);
    (format!("<div style=\"border:{}px solid;background:#{:x}{:x}f{};color:#00{:x}{:x};{}\">t{} ", i % 3, i % 16, 15 - i % 16, ["f", "8", "4", "c"][i % 4], i % 16, 15 - i % 8, st, i), "</div>".into())
}

fn doc(body: &str) -> String { format!("<!doctype html><style>p{{margin:1px}}</style>{}", body) }

pub fn c21(ctx: &mut Ctx) {
    ctx.assumptions.push("rayon-core is replaced by a model of it whose scheduling points are join, steal, wake-up and, for the preemption sections, allocation; the real pool is run besides, without control of its schedule".into());
    CASE_LIMIT_S.store(600, SeqCst);
    let d = |c: &Case| format!("{:?} {}", c.cfg, c.html);
    // Lazily initialised statics must not be initialised by a controlled thread.
    render(&Document::parse_html(doc("<div style=\"position:relative\">a<p>b<p style=\"position:absolute\">c</div>").as_bytes()));
    let quick = ctx.tier == Tier::Quick;

    // Every split: nothing is preempted, but which side of each join is stolen, and who goes on at each wait, is enumerated.
    ctx.section("splits and steals", |ch| {
        let threads = 1 + ch.choose(if quick { 3 } else { 4 });
        let injected = ch.flag();
        let k = 1 + ch.choose(if quick { 3 } else { 4 });
        if quick && k == 3 && (threads == 1 || (injected && threads == 3)) { return None }
        let html = doc(&forest(ch, k, &mut |c, i| element(c, i, match k { 4 => &STYLES[1..5], 3 => &STYLES[..6], _ => STYLES })));
        Some(Case { html, cfg: Config { threads, injected, preemptions: 0, at_allocations: false, region: None }, max: 1 << 22, by_region: false })
    }, d, explore);

    // Many siblings: deep split trees, also lopsided ones.
    ctx.section("many siblings", |ch| {
        let threads = 1 + ch.choose(8);
        let injected = ch.flag();
        let k = if quick { 5 + ch.choose(3) } else { 5 + ch.choose(5) };
        if threads > k || (k > 6 && threads > 3) || (k > 7 && threads > 2) { return None }
        let period = 1 + ch.choose(if threads > 3 && quick { 2 } else { 3 });
        if quick && threads > 4 && injected { return None }
        let pat: Vec<&str> = (0..period).map(|_| *ch.pick(&STYLES[1..4])).collect();
        let around = ch.flag();
        let mut s = String::new();
        for i in 0..k { s += &format!("<div style=\"border:{}px solid;background:#{:x}{:x}f{};{}\">t{}</div>", i % 3, i % 16, 15 - i % 16, ["f", "8", "4", "c"][i % 4], pat[i % period], i) }
        if around { s = format!("<div style=\"position:relative\">{}</div>", s) }
        Some(Case { html: doc(&s), cfg: Config { threads, injected, preemptions: 0, at_allocations: false, region: None }, max: 1 << 22, by_region: true })
    }, d, explore);

    // Preemptions at joins: before and after each side of each join.
    ctx.section("preempted at joins", |ch| {
        let threads = 2 + ch.choose(2);
        let preemptions = 1 + ch.choose(2);
        let k = 1 + ch.choose(if quick { 3 } else { 4 });
        if quick && k == 3 && threads == 3 { return None }
        let html = doc(&forest(ch, k, &mut |c, i| element(c, i, match k { 4 => &STYLES[1..4], 3 => &STYLES[1..5], _ => STYLES })));
        Some(Case { html, cfg: Config { threads, injected: false, preemptions, at_allocations: false, region: None }, max: 1 << 22, by_region: false })
    }, d, explore);

    // Preemptions anywhere a task allocates memory, so inside the code of the tasks.
    ctx.section("preempted inside tasks", |ch| {
        let k = 1 + ch.choose(if quick { 3 } else { 4 });
        let preemptions = 1 + ch.choose(if k < 3 { 2 } else { 1 });
        let html = doc(&forest(ch, k, &mut |c, i| element(c, i, match k { 4 => &STYLES[1..4], 3 => &STYLES[1..5], _ => STYLES })));
        Some(Case { html, cfg: Config { threads: 2, injected: false, preemptions, at_allocations: true, region: None }, max: 1 << 22, by_region: false })
    }, d, explore);

    // The unmodified scheduler must agree with what the controlled one explored: pools of every size.
    let pools: Vec<rayon::ThreadPool> = [1, 2, 3, 4, 8].iter().map(|&n| rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap()).collect();
    ctx.section("real pools", |ch| {
        let k = 1 + ch.choose(if quick { 3 } else { 4 });
        let html = doc(&forest(ch, k, &mut |c, i| element(c, i, match k { 4 => &STYLES[1..4], 3 => &STYLES[1..5], _ => STYLES })));
        Some(html)
    }, |h| h.clone(), |h| {
        let base = model::run(Config { threads: 1, injected: false, preemptions: 0, at_allocations: false, region: None }, Vec::new(), || render(&Document::parse_html(h.as_bytes())));
        let base = match base.result { Ok(b) => b, Err(_) => return fail("panic", "panics when nothing runs in parallel") };
        for p in &pools {
            let b = p.install(|| render(&Document::parse_html(h.as_bytes())));
            if b != base { return fail("pool", format!("other bytes in a pool of {} threads than sequentially", p.current_num_threads())) }
        }
        Ok(fp_bytes(&base))
    });

    // Nothing but the document counts: not the time, the process, its environment, or what it rendered before.
    ctx.section("elsewhere and later", |ch| {
        let k = 1 + ch.choose(5);
        let st = *ch.pick(&STYLES[1..4]);
        let nested = ch.flag();
        let env = ch.choose(3);
        let mut s = String::new();
        for i in 0..k { s += &format!("<div style=\"background:#{:x}0{:x}{};color:#00f{:x};{}\">t\u{e9}{}{}", i, 15 - i, ["f", "8", "4", "c", "2"][i], 15 - i, st, i, if nested { "" } else { "</div>" }) }
        Some((doc(&s), env))
    }, |h| format!("environment {}: {}", h.1, h.0), |(h, env)| {
        let base = render(&Document::parse_html(h.as_bytes()));
        let parsed = Document::parse_html(h.as_bytes());
        for i in 0..8 { if render(&parsed) != base { return fail("again", format!("rendering {} differs", i)) } }
        std::thread::sleep(std::time::Duration::from_millis(1100));
        if render(&parsed) != base { return fail("time", "other bytes a second later") }
        let mut cmd = std::process::Command::new(std::env::current_exe().unwrap());
        cmd.arg("--render").arg(h).current_dir("/");
        match env { 0 => { cmd.env_clear(); } 1 => { cmd.env("RAYON_NUM_THREADS", "1").env("LC_ALL", "tr_TR.UTF-8").env("TZ", "Asia/Tokyo").env("SOURCE_DATE_EPOCH", "1"); } _ => { cmd.env("RAYON_NUM_THREADS", "8").env("RUST_LOG", "trace").env("RUST_BACKTRACE", "full").env("HOME", "/nonexistent"); } }
        match cmd.output() {
            Ok(o) if o.status.success() && o.stdout == base => Ok(fp_bytes(&base)),
            Ok(o) if o.status.success() => fail("process", "other bytes in another process"),
            Ok(o) => fail("process", format!("another process ends with {:?}: {}", o.status, String::from_utf8_lossy(&o.stderr))),
            Err(e) => fail("process", format!("engine: {}", e)),
        }
    });

    for (k, v) in [("schedules", &SCHEDULES), ("scheduling_points", &POINTS), ("context_switches", &SWITCHES), ("longest_schedule_choices", &LONGEST), ("schedules_not_followed", &NOT_FOLLOWED)] {
        ctx.extra.push((k.into(), v.load(SeqCst).to_string()));
    }
    eprintln!("{:?}", ctx.extra);
}
