//! Stateless bounded-exhaustive explorer.
//!
//! A *section* is a finite choice tree.  The generator closure is run once per path (depth first, in a
//! fixed order) and turns the path into a case; cases are executed on the real implementation by worker
//! threads, each inside its own single-threaded rayon pool so that the implementation's parallel sections
//! run inline and deterministically.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{mpsc, Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq)]
pub enum Tier { Quick, Thorough }

pub struct Chooser { path: Vec<(u32, u32)>, pos: usize }

impl Chooser {
    pub fn new() -> Self { Chooser { path: Vec::new(), pos: 0 } }
    /// Pick one of `n` alternatives (0-based).
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0);
        if self.pos == self.path.len() { self.path.push((0, n as u32)); }
        let (c, m) = self.path[self.pos];
        assert_eq!(m, n as u32, "non-deterministic generator");
        self.pos += 1;
        c as usize
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T { &items[self.choose(items.len())] }
    pub fn flag(&mut self) -> bool { self.choose(2) == 1 }
    /// Advance to the next path; returns the number of tree edges that will be new, or None at the end.
    fn advance(&mut self) -> bool {
        self.path.truncate(self.pos);
        while let Some((c, n)) = self.path.pop() {
            if c + 1 < n { self.path.push((c + 1, n)); self.pos = 0; return true }
        }
        false
    }
    fn depth(&self) -> usize { self.path.len() }
    /// For enumerations outside a section.
    pub fn restart(&mut self) { self.pos = 0 }
    pub fn next_path(&mut self) -> bool { self.advance() }
}

pub struct Fail { pub key: String, pub msg: String }
pub type Outcome = Result<u64, Fail>;
pub fn fail<T>(key: &str, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { key: key.to_string(), msg: msg.into() })
}

/// FNV-1a, so fingerprints are stable between runs.
pub struct Fnv(pub u64);
impl Fnv { pub fn new() -> Self { Fnv(0xcbf29ce484222325) } }
impl Hasher for Fnv {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for &x in b { self.0 = (self.0 ^ x as u64).wrapping_mul(0x100000001b3); } }
}
pub fn fp<T: Hash + ?Sized>(t: &T) -> u64 { let mut h = Fnv::new(); t.hash(&mut h); h.finish() }
pub fn fp_bytes(b: &[u8]) -> u64 { let mut h = Fnv::new(); h.write(b); h.finish() }

thread_local! { static IN_CASE: std::cell::Cell<bool> = std::cell::Cell::new(false); }
thread_local! { static PANIC: RefCell<Option<String>> = RefCell::new(None); }

pub fn install_panic_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() }
            else { "<non-string panic>".to_string() };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = format!("{} at {}", msg, loc);
        if !IN_CASE.with(|c| c.get()) { eprintln!("panic outside the code under test: {}", m); }
        PANIC.with(|p| *p.borrow_mut() = Some(m));
    }));
}

/// Run a closure, turning a panic of the code under test into Err(message).
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let was = IN_CASE.with(|c| c.replace(true));
    let r = panic::catch_unwind(AssertUnwindSafe(f));
    IN_CASE.with(|c| c.set(was));
    r.map_err(|_| PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()))
}

pub struct Violation { section: String, index: u64, describe: String, fail: Fail }

pub struct Only { pub section: String, pub index: u64 }

pub struct Ctx {
    pub prop: &'static str,
    pub tier: Tier,
    pub level: &'static str,
    pub only: Option<Only>,
    pub deadline: Instant,
    known: Vec<(String, String)>, // key, description
    start: Instant,
    states: HashSet<u64>,
    transitions: u64,
    validated: u64,
    cases: u64,
    samples: Vec<String>,
    sections: Vec<(String, u64, u64, bool)>, // name, cases, distinct outcomes, complete
    known_hits: BTreeMap<String, u64>,
    violation: Option<Violation>,
    pub assumptions: Vec<String>,
    pub extra: Vec<(String, String)>,
    slots: Arc<Slots>,
    section_no: u64,
}

/// Shared memory visible to the supervising parent: which case each worker is executing.
pub struct Slots { ptr: *mut AtomicU64 }
unsafe impl Send for Slots {}
unsafe impl Sync for Slots {}
pub const WORKERS: usize = 8;
impl Slots {
    pub fn open(path: &str) -> Slots {
        unsafe {
            let c = std::ffi::CString::new(path).unwrap();
            let fd = libc::open(c.as_ptr(), libc::O_RDWR | libc::O_CREAT, 0o600);
            assert!(fd >= 0, "cannot open slots file");
            assert_eq!(libc::ftruncate(fd, 4096), 0);
            let p = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd, 0);
            assert!(p != libc::MAP_FAILED);
            Slots { ptr: p as *mut AtomicU64 }
        }
    }
    fn at(&self, i: usize) -> &AtomicU64 { unsafe { &*self.ptr.add(i) } }
    pub fn set(&self, w: usize, section: u64, index: u64) {
        self.at(2 * w).store(section + 1, SeqCst);
        self.at(2 * w + 1).store(index, SeqCst);
    }
    pub fn clear(&self, w: usize) { self.at(2 * w).store(0, SeqCst) }
    pub fn get(&self, w: usize) -> Option<(u64, u64)> {
        let s = self.at(2 * w).load(SeqCst);
        if s == 0 { None } else { Some((s - 1, self.at(2 * w + 1).load(SeqCst))) }
    }
}

pub const EXIT_HANG: i32 = 97;
pub static CASE_LIMIT_S: AtomicU64 = AtomicU64::new(20);

impl Ctx {
    pub fn new(prop: &'static str, tier: Tier, level: &'static str, only: Option<Only>, slots_path: &str) -> Self {
        let mut known = Vec::new();
        let kf = std::env::var("VERIF_DIR").unwrap_or_else(|_| ".".into()) + "/known_findings.txt";
        for line in std::fs::read_to_string(kf).unwrap_or_default().lines() {
            // known: property=<id> key=<key> <what fails>
            let mut it = line.splitn(4, ' ');
            if it.next() == Some("known:") && it.next() == Some(&format!("property={}", prop)) {
                if let Some(k) = it.next().and_then(|k| k.strip_prefix("key=")) {
                    known.push((k.to_string(), it.next().unwrap_or("").to_string()));
                }
            }
        }
        let now = Instant::now();
        Ctx {
            prop, tier, level, only, known,
            deadline: now + if tier == Tier::Quick { Duration::from_secs(600) } else { Duration::from_secs(std::env::var("VERIF_THOROUGH_S").ok().and_then(|s| s.parse().ok()).unwrap_or(3000)) },
            start: now, states: HashSet::new(), transitions: 0, validated: 0, cases: 0, samples: Vec::new(),
            sections: Vec::new(), known_hits: BTreeMap::new(), violation: None, assumptions: Vec::new(),
            extra: Vec::new(), slots: Arc::new(Slots::open(slots_path)), section_no: 0,
        }
    }
    pub fn quick(&self) -> bool { self.tier == Tier::Quick }
    pub fn by<T>(&self, quick: T, thorough: T) -> T { if self.quick() { quick } else { thorough } }

    /// Explore a whole choice tree.  `gen` maps a path to a case (None = pruned), `check` executes it.
    pub fn section<C, G, D, K>(&mut self, name: &str, mut gen: G, describe: D, check: K)
    where C: Send + 'static, G: FnMut(&mut Chooser) -> Option<C>, D: Fn(&C) -> String + Sync, K: Fn(&C) -> Outcome + Sync {
        let my_no = self.section_no;
        self.section_no += 1;
        if self.violation.is_some() { return }
        let only_idx = match &self.only {
            Some(o) if o.section != name && o.section != format!("#{}", my_no) => return,
            Some(o) => Some(o.index),
            None => None,
        };
        let only_mode = only_idx.is_some();
        let t0 = Instant::now();
        let workers = if only_idx.is_some() { 1 } else { WORKERS };
        let (tx, rx) = mpsc::sync_channel::<Vec<(u64, C)>>(64);
        let rx = Mutex::new(rx);
        let stop = AtomicBool::new(false);
        let timed_out = AtomicBool::new(false);
        let done = AtomicU64::new(0);
        struct Local { states: HashSet<u64>, validated: u64, viol: Vec<Violation>, known: BTreeMap<String, u64>, samples: Vec<(u64, String)> }
        let slots = self.slots.clone();
        let beat: Vec<Mutex<Option<Instant>>> = (0..workers).map(|_| Mutex::new(None)).collect();
        let known = &self.known;
        let known_hit = |key: &str| known.iter().any(|(k, _)| k == key);
        let mut edges = 0u64;
        let mut cases = 0u64;
        let mut complete = true;
        let deadline = self.deadline;
        let mut locals: Vec<Local> = Vec::new();
        std::thread::scope(|s| {
            let (rx, stop, slots, beat, describe, check, known_hit, done) = (&rx, &stop, &slots, &beat, &describe, &check, &known_hit, &done);
            let handles: Vec<_> = (0..workers).map(|w| {
                std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, move || {
                    let pool = rayon::ThreadPoolBuilder::new().num_threads(1).stack_size(16 << 20).build().unwrap();
                    pool.install(move || {
                        let mut l = Local { states: HashSet::new(), validated: 0, viol: Vec::new(), known: BTreeMap::new(), samples: Vec::new() };
                        loop {
                            let batch = { let g = rx.lock().unwrap(); g.recv() };
                            let batch = match batch { Ok(b) => b, Err(_) => break };
                            if stop.load(SeqCst) { continue }
                            for (idx, case) in batch {
                                if only_mode { println!("case {}#{}: {}", name, idx, describe(&case)); }
                                slots.set(w, my_no, idx);
                                *beat[w].lock().unwrap() = Some(Instant::now());
                                let r = match catch(|| check(&case)) {
                                    Ok(r) => r,
                                    Err(m) => Err(Fail { key: format!("panic:{}", m.split(" at ").next().unwrap_or("").replace(' ', "_")), msg: format!("panicked: {}", m) }),
                                };
                                *beat[w].lock().unwrap() = None;
                                slots.clear(w);
                                done.fetch_add(1, SeqCst);
                                match r {
                                    Ok(h) => { l.validated += 1; l.states.insert(h); if l.samples.len() < 1 || idx < 2 { l.samples.push((idx, describe(&case))) } }
                                    Err(f) => {
                                        if known_hit(&f.key) { *l.known.entry(f.key).or_insert(0) += 1 }
                                        else { stop.store(true, SeqCst); l.viol.push(Violation { section: String::new(), index: idx, describe: describe(&case), fail: f }); break }
                                    }
                                }
                            }
                        }
                        l
                    })
                }).unwrap()
            }).collect();
            let finished = Arc::new(AtomicBool::new(false));
            let fin2 = finished.clone();
            let wd = s.spawn(move || {
                while !fin2.load(SeqCst) {
                    std::thread::sleep(Duration::from_millis(50));
                    for b in beat {
                        if let Some(t) = *b.lock().unwrap() {
                            if t.elapsed() > Duration::from_secs(CASE_LIMIT_S.load(SeqCst) * if only_mode { 2 } else { 1 }) { unsafe { libc::_exit(EXIT_HANG) } }
                        }
                    }
                }
            });
            // Generator
            let mut ch = Chooser::new();
            let mut batch = Vec::new();
            let mut prev_depth_common = 0usize;
            loop {
                ch.pos = 0;
                let c = gen(&mut ch);
                ch.path.truncate(ch.pos);
                edges += (ch.depth() - prev_depth_common.min(ch.depth())) as u64;
                if let Some(c) = c {
                    let idx = cases;
                    cases += 1;
                    if only_idx.map_or(true, |o| o == idx) { batch.push((idx, c)); }
                    if batch.len() >= 16 || only_idx == Some(idx) {
                        if tx.send(std::mem::replace(&mut batch, Vec::new())).is_err() { break }
                    }
                    if only_idx == Some(idx) { break }
                }
                if stop.load(SeqCst) { complete = false; break }
                if cases % 256 == 0 && Instant::now() > deadline { complete = false; timed_out.store(true, SeqCst); break }
                if !ch.advance() { break }
                prev_depth_common = ch.depth() - 1;
            }
            if !batch.is_empty() { let _ = tx.send(batch); }
            drop(tx);
            for h in handles { locals.push(h.join().unwrap()); }
            finished.store(true, SeqCst);
            wd.join().unwrap();
        });
        let mut distinct: HashSet<u64> = HashSet::new();
        let mut samples = Vec::new();
        let mut executed = 0;
        for l in locals {
            executed += l.validated;
            for s in l.states { distinct.insert(s ^ (my_no.wrapping_mul(0x9E3779B97F4A7C15))); }
            for (k, n) in l.known { *self.known_hits.entry(k).or_insert(0) += n; }
            samples.extend(l.samples);
            for mut v in l.viol {
                v.section = name.to_string();
                if self.violation.as_ref().map_or(true, |o| o.index > v.index) { self.violation = Some(v) }
            }
        }
        samples.sort();
        for (i, (idx, s)) in samples.into_iter().enumerate() {
            if i < 2 { let s: String = s.chars().take(400).collect(); self.samples.push(format!("{}#{}: {}", name, idx, s)) }
        }
        self.validated += executed;
        self.cases += cases;
        self.transitions += edges;
        eprintln!("[{}] {}: {} cases, {} distinct outcomes, {} edges, {:.1}s{}", self.prop, name, cases, distinct.len(), edges, t0.elapsed().as_secs_f32(), if complete { "" } else { " (incomplete)" });
        self.sections.push((name.to_string(), cases, distinct.len() as u64, complete));
        self.states.extend(distinct);
    }

    /// Write evidence, print verdict lines, return the exit code.
    pub fn finish(self) -> i32 {
        if self.only.is_some() {
            if let Some(v) = self.violation {
                println!("case {}#{}\n{}\nfailure [{}]: {}", v.section, v.index, v.describe, v.fail.key, v.fail.msg);
                return 1;
            }
            println!("case executed without violation ({} validated, known {:?})", self.validated, self.known_hits);
            return 0;
        }
        let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| ".".into());
        let complete = self.sections.iter().all(|s| s.3);
        let mut secs = String::new();
        for (i, (n, c, d, k)) in self.sections.iter().enumerate() {
            if i > 0 { secs.push(',') }
            secs.push_str(&format!("{{\"section\":{},\"cases\":{},\"distinct_outcomes\":{},\"complete\":{}}}", js(n), c, d, k));
        }
        let samples: Vec<String> = self.samples.iter().map(|s| js(s)).collect();
        let known: Vec<String> = self.known_hits.iter().map(|(k, n)| format!("{}:{}", js(k), n)).collect();
        let extra: String = self.extra.iter().map(|(k, v)| format!(",{}:{}", js(k), v)).collect();
        let counts = if self.level == "model_checking" {
            format!("\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{}", self.states.len(), self.transitions, self.validated)
        } else {
            format!("\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{}", self.cases, self.states.len(), js("every case is one path of the section's finite choice tree executed on the real code; distinct = distinct observed outcome fingerprints"))
        };
        let asm: Vec<String> = self.assumptions.iter().map(|s| js(s)).collect();
        let ev = format!("{{\"property\":{},\"tier\":\"{}\",\"seed\":{},\"level\":\"{}\",\"coverage\":{{{},\"samples\":[{}],\"exhaustive\":{},\"sections\":[{}],\"known_finding_cases\":{{{}}}{}}},\"assumptions\":[{}],\"wall_s\":{:.3},\"violations\":{}}}\n",
            js(self.prop), if self.tier == Tier::Quick { "quick" } else { "thorough" },
            std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(0),
            self.level, counts, samples.join(","), complete, secs, known.join(","), extra, asm.join(","),
            self.start.elapsed().as_secs_f64(), if self.violation.is_some() { 1 } else { 0 });
        let _ = std::fs::create_dir_all(format!("{}/evidence/replay", dir));
        std::fs::write(format!("{}/evidence/{}.json", dir, self.prop), ev).expect("write evidence");
        for (k, d) in &self.known {
            if let Some(n) = self.known_hits.get(k) {
                println!("KNOWN-FINDING: property={} {} [{} cases, key {}]", self.prop, d, n, k);
            }
        }
        println!("{}: {} cases, {} distinct outcomes, {} transitions, complete={}, {:.1}s", self.prop, self.cases, self.states.len(), self.transitions, complete, self.start.elapsed().as_secs_f64());
        if let Some(v) = &self.violation {
            report(self.prop, self.tier, &v.section, v.index, &v.describe, &format!("[{}] {}", v.fail.key, v.fail.msg));
            return 1;
        }
        0
    }
}

pub fn report(prop: &str, tier: Tier, section: &str, index: u64, describe: &str, msg: &str) {
    let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| ".".into());
    let _ = std::fs::create_dir_all(format!("{}/evidence/replay", dir));
    let path = format!("{}/evidence/replay/{}.txt", dir, prop);
    let t = if tier == Tier::Quick { "quick" } else { "thorough" };
    let _ = std::fs::write(&path, format!("property {}\nreplay with: ./run.sh {} {} --only {} {}\n--- case\n{}\n--- failure\n{}\n", prop, prop, t, section, index, describe, msg));
    println!("case {}#{}:\n{}\n{}", section, index, describe, msg);
    println!("VIOLATION property={} replay={}", prop, path);
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
