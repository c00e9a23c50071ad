//! Controlled scheduler.
//!
//! Inside `run`, every `join_context` becomes a scheduling decision: the second task is either run inline after
//! the first (as when nobody steals it) or given to another thread (as when it is stolen).  Threads are real OS
//! threads but only the one that holds the token runs; at every scheduling point the explorer chooses who goes on.
//! The sequence of choices identifies the schedule and replays it.
use crate::FnContext;
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug)]
pub struct Config {
    /// Size of the pool: decides how work is split and how many threads may run at the same time.
    pub threads: usize,
    /// The first thread is not one of the pool's: its tasks count as migrated.
    pub injected: bool,
    /// How many times a thread that could go on may be preempted.
    pub preemptions: usize,
    /// Memory allocations are scheduling points too.
    pub at_allocations: bool,
    /// Only explore the n-th of the parallel regions that follow one another, and run the others sequentially.
    pub region: Option<usize>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Status { Ready, Waiting(usize), Done }

struct State {
    status: Vec<Status>,
    current: usize,
    preempted: usize,
    path: Vec<(u32, u32)>,
    pos: usize,
    switches: u64,
    points: u64,
    free: bool,
    bad_replay: bool,
    regions: usize,
    in_region: bool,
}

struct Model { cfg: Config, m: Mutex<State>, cv: Condvar }

thread_local! {
    static CUR: RefCell<Option<(Arc<Model>, usize)>> = const { RefCell::new(None) };
    static ON: Cell<bool> = const { Cell::new(false) };
    static DEPTH: Cell<usize> = const { Cell::new(0) };
}

fn cur() -> Option<(Arc<Model>, usize)> { CUR.with(|c| c.borrow().clone()) }
pub fn active() -> bool { ON.try_with(|c| c.get()).unwrap_or(false) }
pub(crate) fn num_threads() -> Option<usize> { if active() { cur().map(|c| c.0.cfg.threads) } else { None } }
pub(crate) fn thread_index() -> Option<Option<usize>> { if active() { cur().map(|c| if c.1 == 0 && c.0.cfg.injected { None } else { Some(c.1 % c.0.cfg.threads) }) } else { None } }

impl State {
    fn choose(&mut self, n: usize) -> usize {
        if n == 1 || self.free || !self.in_region { return 0 }
        if self.pos == self.path.len() { self.path.push((0, n as u32)) }
        let (c, m) = self.path[self.pos];
        self.pos += 1;
        if m != n as u32 { self.bad_replay = true; return 0 }
        c as usize
    }
    fn live(&self) -> usize { self.status.iter().filter(|s| **s != Status::Done).count() }
    fn others(&self, me: usize) -> Vec<usize> { (0..self.status.len()).filter(|&i| i != me && self.status[i] == Status::Ready).collect() }
}

impl Model {
    /// Wait for the token.
    fn wait<'a>(&'a self, mut g: std::sync::MutexGuard<'a, State>, me: usize) -> std::sync::MutexGuard<'a, State> {
        let mut seen = (g.points, g.switches);
        let mut since = Instant::now();
        while g.current != me && !g.free {
            g = self.cv.wait_timeout(g, Duration::from_millis(500)).unwrap().0;
            if (g.points, g.switches) != seen { seen = (g.points, g.switches); since = Instant::now() }
            // The thread with the token is blocked on something that only another thread can release.
            else if since.elapsed() > Duration::from_secs(4) { g.free = true; self.cv.notify_all(); }
        }
        g
    }
    /// A point where the running thread could be preempted.
    fn point(&self, me: usize) {
        let mut g = self.m.lock().unwrap();
        g.points += 1;
        if g.free || g.preempted >= self.cfg.preemptions { return }
        let o = g.others(me);
        if o.is_empty() { return }
        let k = g.choose(1 + o.len());
        if k == 0 { return }
        g.preempted += 1;
        g.switches += 1;
        g.current = o[k - 1];
        self.cv.notify_all();
        let _g = self.wait(g, me);
    }
    /// The running thread cannot go on: hand over the token.
    fn hand_over(&self, g: &mut State, me: usize) {
        let o = g.others(me);
        if o.is_empty() { return }
        let k = g.choose(o.len());
        g.switches += 1;
        g.current = o[k];
        self.cv.notify_all();
    }
}

struct Off(bool);
impl Off { fn new() -> Off { Off(ON.with(|c| c.replace(false))) } }
impl Drop for Off { fn drop(&mut self) { let v = self.0; ON.with(|c| c.set(v)) } }

/// Call at a memory allocation.
#[inline]
pub fn allocation_point() {
    if active() {
        let _off = Off::new();
        // Not while the thread is being set up, or the context is borrowed.
        let c = CUR.try_with(|c| match c.try_borrow() { Ok(c) => c.clone(), Err(_) => None }).unwrap_or(None);
        if let Some((m, me)) = c { if m.cfg.at_allocations { m.point(me) } }
    }
}

pub(crate) fn join_context<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where A: FnOnce(FnContext) -> RA + Send, B: FnOnce(FnContext) -> RB + Send, RA: Send, RB: Send {
    let off = Off::new();
    let (m, me) = cur().unwrap();
    let depth = DEPTH.with(|d| d.replace(d.get() + 1));
    struct Leave(usize);
    impl Drop for Leave { fn drop(&mut self) { let v = self.0; DEPTH.with(|d| d.set(v)) } }
    let _leave = Leave(depth);
    let injected = m.cfg.injected && me == 0 && depth == 0;
    if depth == 0 {
        let mut g = m.m.lock().unwrap();
        g.in_region = m.cfg.region.map_or(true, |r| r == g.regions);
        g.regions += 1;
    }
    let stolen = { let mut g = m.m.lock().unwrap(); g.live() < m.cfg.threads && g.choose(2) == 1 };
    if !stolen {
        drop(off);
        let ra = a(FnContext::new(injected));
        { let _off = Off::new(); m.point(me) }
        let rb = b(FnContext::new(injected));
        return (ra, rb);
    }
    let r = std::thread::scope(|s| {
        let id = { let mut g = m.m.lock().unwrap(); g.status.push(Status::Ready); g.status.len() - 1 };
        let m2 = m.clone();
        let h = std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(s, move || {
            { let g = m2.m.lock().unwrap(); let _g = m2.wait(g, id); }
            CUR.with(|c| *c.borrow_mut() = Some((m2.clone(), id)));
            DEPTH.with(|d| d.set(1));
            ON.with(|c| c.set(true));
            let r = catch_unwind(AssertUnwindSafe(|| b(FnContext::new(true))));
            ON.with(|c| c.set(false));
            CUR.with(|c| *c.borrow_mut() = None);
            let mut g = m2.m.lock().unwrap();
            g.status[id] = Status::Done;
            for s in g.status.iter_mut() { if *s == Status::Waiting(id) { *s = Status::Ready } }
            m2.hand_over(&mut g, id);
            r
        }).unwrap();
        m.point(me);
        drop(off);
        let ra = catch_unwind(AssertUnwindSafe(|| a(FnContext::new(injected))));
        let off = Off::new();
        {
            let mut g = m.m.lock().unwrap();
            if g.status[id] != Status::Done && !g.free {
                g.status[me] = Status::Waiting(id);
                m.hand_over(&mut g, me);
                let _g = m.wait(g, me);
            }
        }
        let rb = h.join().unwrap_or_else(|e| Err(e));
        drop(off);
        (ra, rb)
    });
    match r { (Ok(ra), Ok(rb)) => (ra, rb), (Err(e), _) => resume_unwind(e), (_, Err(e)) => resume_unwind(e) }
}

pub struct Outcome<R> { pub result: std::thread::Result<R>, pub path: Vec<(u32, u32)>, pub switches: u64, pub points: u64, pub threads: usize, pub regions: usize, pub followed: bool }

/// Run `f` under the schedule that starts with `path` and then takes the first choice everywhere.
pub fn run<R>(cfg: Config, path: Vec<(u32, u32)>, f: impl FnOnce() -> R) -> Outcome<R> {
    assert!(!active());
    let m = Arc::new(Model { cfg, m: Mutex::new(State { status: vec![Status::Ready], current: 0, preempted: 0, path, pos: 0, switches: 0, points: 0, free: false, bad_replay: false, regions: 0, in_region: cfg.region.is_none() }), cv: Condvar::new() });
    CUR.with(|c| *c.borrow_mut() = Some((m.clone(), 0)));
    DEPTH.with(|d| d.set(0));
    ON.with(|c| c.set(true));
    let result = catch_unwind(AssertUnwindSafe(f));
    ON.with(|c| c.set(false));
    CUR.with(|c| *c.borrow_mut() = None);
    let mut g = m.m.lock().unwrap();
    let pos = g.pos;
    let mut path = std::mem::take(&mut g.path);
    path.truncate(pos);
    Outcome { result, path, switches: g.switches, points: g.points, threads: g.status.len(), regions: g.regions, followed: !g.free && !g.bad_replay }
}

/// The next schedule in depth-first order.
pub fn next(mut path: Vec<(u32, u32)>) -> Option<Vec<(u32, u32)>> {
    while let Some((c, n)) = path.pop() { if c + 1 < n { path.push((c + 1, n)); return Some(path) } }
    None
}
