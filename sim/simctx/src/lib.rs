//! The simulator's seam layer.
//!
//! The patched copies of `rand`, `getrandom`, `rayon-core` and `merlin` under `../shims` ask this
//! crate for every source of nondeterminism: random draws, the order (and interleaving) in which
//! parallel jobs run, and the number of workers.  A run installs one [`Run`] on its thread with
//! [`install`]; everything afterwards is a pure function of the run's seeds.
use std::any::Any;
use std::cell::RefCell;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};

/// xoshiro256++ seeded through splitmix64.
#[derive(Clone, Debug)]
pub struct Rng64 {
    s: [u64; 4],
}
pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
pub fn mix(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.rotate_left(32).wrapping_mul(0xD6E8_FEB8_6659_FD93);
    splitmix(&mut x)
}
impl Rng64 {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        Rng64 {
            s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)],
        }
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.s;
        let r = s[0].wrapping_add(s[3]).rotate_left(23).wrapping_add(s[0]);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            0
        } else {
            ((self.next() as u128 * n as u128) >> 64) as u64
        }
    }
}

/// A fault in the random number source: applied to the `at`-th 64-bit draw of stream `stream`.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RngFault {
    /// flip the lowest bit of the word
    Flip { stream: u64, at: u64 },
    /// from draw `at` on, `len` words are zero
    Zero { stream: u64, at: u64, len: u64 },
    /// from draw `at` on, `len` words repeat the word drawn `back` earlier
    Repeat { stream: u64, at: u64, back: u64, len: u64 },
    /// every `every`-th word of every stream, from word `from` on, has only the bits of `mask`
    Mask { mask: u64, every: u64, from: u64 },
}

#[derive(Clone, Debug)]
pub struct SchedCfg {
    pub seed: u64,
    /// worker count reported to the library
    pub workers: usize,
    /// per mille of parallel jobs that get a real (baton-passed) thread of their own
    pub thread_permille: u32,
    /// at most this many threads in one run
    pub thread_budget: u32,
    /// per mille chance to switch task at a yield point
    pub switch_permille: u32,
}
impl SchedCfg {
    pub fn serial(seed: u64) -> Self {
        SchedCfg { seed, workers: 1, thread_permille: 0, thread_budget: 0, switch_permille: 0 }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Append { t: u64, label: Vec<u8>, data: Vec<u8> },
    Challenge { t: u64, label: Vec<u8>, data: Vec<u8> },
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum TState {
    Runnable,
    Blocked,
    Done,
}
struct Sched {
    cfg: SchedCfg,
    rng: Rng64,
    running: usize,
    tasks: Vec<TState>,
    waiting: Vec<usize>,
    threads_used: u32,
    decisions: u64,
    hash: u64,
    switches: u64,
}
pub struct Shared {
    sched: Mutex<Sched>,
    cv: Condvar,
    multi: AtomicBool,
    log_on: AtomicBool,
    log: Mutex<Vec<Op>>,
    faults: Vec<RngFault>,
    forks: Vec<Fork>,
    challenges: Mutex<std::collections::HashMap<u64, u64>>,
    transcript_ids: AtomicU64,
    draws: AtomicU64,
    jobs: AtomicU64,
    fault_hits: AtomicU64,
}
struct Task {
    shared: Arc<Shared>,
    id: usize,
    stream: u64,
    rng: Rng64,
    drawn: u64,
    hist: Vec<u64>,
    children: u64,
}
thread_local! {
    static CUR: RefCell<Option<Task>> = const { RefCell::new(None) };
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub draws: u64,
    pub jobs: u64,
    pub decisions: u64,
    pub switches: u64,
    pub threads: u32,
    pub sched_hash: u64,
    pub fault_hits: u64,
    pub main_draws: u64,
}

/// From its challenge number `at` on, transcript `t` gives other challenges.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Fork {
    pub t: u64,
    pub at: u64,
    pub salt: u64,
}
pub struct Run {
    pub rng_seed: u64,
    pub sched: SchedCfg,
    pub faults: Vec<RngFault>,
    pub forks: Vec<Fork>,
    pub log: bool,
}

/// Install a simulated environment on this thread; returns whatever was installed before.
pub struct Saved(Option<Task>);
pub fn install(run: Run) -> Saved {
    let shared = Arc::new(Shared {
        sched: Mutex::new(Sched {
            rng: Rng64::new(mix(run.sched.seed, 0x5CED)),
            cfg: run.sched,
            running: 0,
            tasks: vec![TState::Runnable],
            waiting: vec![usize::MAX],
            threads_used: 0,
            decisions: 0,
            hash: 0,
            switches: 0,
        }),
        cv: Condvar::new(),
        multi: AtomicBool::new(false),
        log_on: AtomicBool::new(run.log),
        log: Mutex::new(Vec::new()),
        faults: run.faults,
        forks: run.forks,
        challenges: Mutex::new(Default::default()),
        transcript_ids: AtomicU64::new(0),
        draws: AtomicU64::new(0),
        jobs: AtomicU64::new(0),
        fault_hits: AtomicU64::new(0),
    });
    let t = Task {
        shared,
        id: 0,
        stream: 0,
        rng: Rng64::new(run.rng_seed),
        drawn: 0,
        hist: Vec::new(),
        children: 0,
    };
    CUR.with(|c| Saved(c.borrow_mut().replace(t)))
}
/// Remove the environment, returning its transcript log and statistics.
pub fn uninstall(saved: Saved) -> (Vec<Op>, Stats) {
    let t = CUR.with(|c| std::mem::replace(&mut *c.borrow_mut(), saved.0));
    let t = t.expect("no simulated environment installed");
    let s = t.shared.sched.lock().unwrap_or_else(|e| e.into_inner());
    let stats = Stats {
        draws: t.shared.draws.load(SeqCst),
        jobs: t.shared.jobs.load(SeqCst),
        decisions: s.decisions,
        switches: s.switches,
        threads: s.threads_used,
        sched_hash: s.hash,
        fault_hits: t.shared.fault_hits.load(SeqCst),
        main_draws: t.drawn,
    };
    drop(s);
    let log = std::mem::take(&mut *t.shared.log.lock().unwrap_or_else(|e| e.into_inner()));
    (log, stats)
}
pub fn active() -> bool {
    CUR.with(|c| c.borrow().is_some())
}
/// Drain the transcript log collected so far.
pub fn take_log() -> Vec<Op> {
    shared().map(|s| std::mem::take(&mut *s.log.lock().unwrap())).unwrap_or_default()
}
/// Number of 64-bit words drawn by this task so far.
pub fn drawn() -> u64 {
    CUR.with(|c| c.borrow().as_ref().map(|t| t.drawn).unwrap_or(0))
}
fn shared() -> Option<Arc<Shared>> {
    CUR.with(|c| c.borrow().as_ref().map(|t| t.shared.clone()))
}

// ---- randomness ----------------------------------------------------------------------------
pub fn next_u64() -> u64 {
    yield_point(1);
    CUR.with(|c| {
        let mut c = c.borrow_mut();
        match c.as_mut() {
            None => outside(),
            Some(t) => {
                let at = t.drawn;
                let mut v = t.rng.next();
                for f in &t.shared.faults {
                    match *f {
                        RngFault::Flip { stream, at: k } if stream == t.stream && k == at => {
                            v ^= 1;
                            t.shared.fault_hits.fetch_add(1, SeqCst);
                        }
                        RngFault::Zero { stream, at: k, len }
                            if stream == t.stream && at >= k && at - k < len =>
                        {
                            v = 0;
                            t.shared.fault_hits.fetch_add(1, SeqCst);
                        }
                        RngFault::Repeat { stream, at: k, back, len }
                            if stream == t.stream && at >= k && at - k < len && at >= back =>
                        {
                            v = t.hist[(at - back) as usize];
                            t.shared.fault_hits.fetch_add(1, SeqCst);
                        }
                        RngFault::Mask { mask, every, from } if at >= from && (at - from) % every == 0 => {
                            v &= mask;
                            t.shared.fault_hits.fetch_add(1, SeqCst);
                        }
                        _ => {}
                    }
                }
                if !t.shared.faults.is_empty() {
                    t.hist.push(v);
                }
                t.drawn += 1;
                t.shared.draws.fetch_add(1, SeqCst);
                v
            }
        }
    })
}
/// Draws outside any run: a fixed per-thread stream, so that nothing is ever nondeterministic.
fn outside() -> u64 {
    thread_local!(static R: RefCell<Rng64> = RefCell::new(Rng64::new(0xDEFA017)));
    R.with(|r| r.borrow_mut().next())
}
pub fn fill(dest: &mut [u8]) {
    for chunk in dest.chunks_mut(8) {
        let w = next_u64().to_le_bytes();
        chunk.copy_from_slice(&w[..chunk.len()]);
    }
}

// ---- transcripts ---------------------------------------------------------------------------
pub fn new_transcript() -> u64 {
    shared().map(|s| s.transcript_ids.fetch_add(1, SeqCst)).unwrap_or(0)
}
/// What a forked transcript absorbs before its next challenge.
pub fn fork(t: u64) -> Option<u64> {
    let s = shared()?;
    if s.forks.is_empty() {
        return None;
    }
    let mut c = s.challenges.lock().unwrap_or_else(|e| e.into_inner());
    let n = c.entry(t).or_insert(0);
    *n += 1;
    s.forks.iter().find(|f| f.t == t && f.at == *n - 1).map(|f| f.salt)
}
pub fn log_append(t: u64, label: &[u8], data: &[u8]) {
    yield_point(2);
    if let Some(s) = shared() {
        if s.log_on.load(SeqCst) {
            s.log.lock().unwrap().push(Op::Append { t, label: label.to_vec(), data: data.to_vec() });
        }
    }
}
pub fn log_challenge(t: u64, label: &[u8], data: &[u8]) {
    yield_point(3);
    if let Some(s) = shared() {
        if s.log_on.load(SeqCst) {
            s.log.lock().unwrap().push(Op::Challenge { t, label: label.to_vec(), data: data.to_vec() });
        }
    }
}

// ---- scheduling ----------------------------------------------------------------------------
fn lock(s: &Shared) -> MutexGuard<'_, Sched> {
    s.sched.lock().unwrap_or_else(|e| e.into_inner())
}
impl Shared {
    fn workers_of(&self) -> usize {
        lock(self).cfg.workers.max(1)
    }
}
impl Sched {
    fn decide(&mut self, n: u64, kind: u64) -> u64 {
        let d = self.rng.below(n);
        self.decisions += 1;
        self.hash = mix(self.hash, d ^ (n << 20) ^ (kind << 40));
        d
    }
    fn pick(&mut self) -> Option<usize> {
        let r: Vec<usize> =
            (0..self.tasks.len()).filter(|i| self.tasks[*i] == TState::Runnable).collect();
        if r.is_empty() {
            return None;
        }
        let d = self.decide(r.len() as u64, 9) as usize;
        Some(r[d])
    }
}
pub fn workers() -> usize {
    shared().map(|s| lock(&s).cfg.workers.max(1)).unwrap_or(1)
}
/// A point at which another task may be scheduled.
pub fn yield_point(kind: u64) {
    let go = CUR.with(|c| match c.borrow().as_ref() {
        Some(t) if t.shared.multi.load(SeqCst) => Some((t.shared.clone(), t.id)),
        _ => None,
    });
    let Some((s, me)) = go else { return };
    let mut g = lock(&s);
    let pm = g.cfg.switch_permille as u64;
    if g.decide(1000, kind) >= pm {
        return;
    }
    if let Some(next) = g.pick() {
        if next != me {
            g.switches += 1;
            g.running = next;
            s.cv.notify_all();
            while g.running != me {
                g = s.cv.wait(g).unwrap_or_else(|e| e.into_inner());
            }
        }
    }
}
/// How a parallel job is to be run.
enum How {
    Thread,
    Inline,
}
fn how(s: &Shared, explicit: bool) -> How {
    s.jobs.fetch_add(1, SeqCst);
    yield_point(10);
    let mut g = lock(s);
    if g.cfg.thread_permille > 0 && g.threads_used < g.cfg.thread_budget {
        // jobs the library forks itself are worth a thread far more often than iterator splinters
        let pm = if explicit { g.cfg.thread_permille as u64 } else { g.cfg.thread_permille as u64 / 50 };
        if g.decide(1000, 4) < pm {
            g.threads_used += 1;
            return How::Thread;
        }
    }
    How::Inline
}
type Res = Result<(), Box<dyn Any + Send>>;
struct Handle {
    id: usize,
    join: Option<std::thread::JoinHandle<Res>>,
}
/// Start `f` as a new simulated task on a parked thread of its own.
///
/// SAFETY: the caller must wait for the handle before anything borrowed by `f` dies.
unsafe fn spawn_task<'a>(
    s: &Arc<Shared>,
    f: Box<dyn FnOnce() + Send + 'a>,
    (stream, seed): (u64, u64),
) -> Handle {
    let f: Box<dyn FnOnce() + Send + 'static> = std::mem::transmute(f);
    let id = {
        let mut g = lock(s);
        g.tasks.push(TState::Runnable);
        g.waiting.push(usize::MAX);
        g.tasks.len() - 1
    };
    s.multi.store(true, SeqCst);
    let sh = s.clone();
    let join = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            {
                let mut g = lock(&sh);
                while g.running != id {
                    g = sh.cv.wait(g).unwrap_or_else(|e| e.into_inner());
                }
            }
            let t = Task {
                shared: sh.clone(),
                id,
                stream,
                rng: Rng64::new(seed),
                drawn: 0,
                hist: Vec::new(),
                children: 0,
            };
            CUR.with(|c| *c.borrow_mut() = Some(t));
            let r = catch_unwind(AssertUnwindSafe(f));
            CUR.with(|c| *c.borrow_mut() = None);
            let mut g = lock(&sh);
            g.tasks[id] = TState::Done;
            for i in 0..g.tasks.len() {
                if g.tasks[i] == TState::Blocked && g.waiting[i] == id {
                    g.tasks[i] = TState::Runnable;
                    g.waiting[i] = usize::MAX;
                }
            }
            if let Some(n) = g.pick() {
                g.running = n;
            }
            sh.cv.notify_all();
            drop(g);
            r
        })
        .expect("cannot start a simulated task");
    Handle { id, join: Some(join) }
}
fn child_stream() -> (u64, u64) {
    CUR.with(|c| {
        let mut c = c.borrow_mut();
        let t = c.as_mut().unwrap();
        t.children += 1;
        let stream = mix(t.stream, t.children);
        (stream, mix(stream, 0xA5A5_0001) ^ t.rng.clone().next())
    })
}
/// Run `f` on this thread as a task of its own (own random stream).
fn run_inline(f: impl FnOnce(), (stream, seed): (u64, u64)) -> Res {
    let saved = CUR.with(|c| {
        let mut c = c.borrow_mut();
        let t = c.as_mut().unwrap();
        let old = (t.stream, t.rng.clone(), t.drawn, std::mem::take(&mut t.hist), t.children);
        t.stream = stream;
        t.rng = Rng64::new(seed);
        t.drawn = 0;
        t.children = 0;
        old
    });
    let r = catch_unwind(AssertUnwindSafe(f));
    CUR.with(|c| {
        let mut c = c.borrow_mut();
        let t = c.as_mut().unwrap();
        t.stream = saved.0;
        t.rng = saved.1;
        t.drawn = saved.2;
        t.hist = saved.3;
        t.children = saved.4;
    });
    r
}
fn wait_for(s: &Arc<Shared>, mut h: Handle) -> Res {
    let me = CUR.with(|c| c.borrow().as_ref().unwrap().id);
    {
        let mut g = lock(s);
        if g.tasks[h.id] != TState::Done {
            g.tasks[me] = TState::Blocked;
            g.waiting[me] = h.id;
            let n = g.pick().expect("simulated deadlock");
            g.running = n;
            s.cv.notify_all();
            while g.running != me {
                g = s.cv.wait(g).unwrap_or_else(|e| e.into_inner());
            }
        }
        if g.tasks.iter().filter(|t| **t != TState::Done).count() <= 1 {
            s.multi.store(false, SeqCst);
        }
    }
    h.join.take().unwrap().join().unwrap_or_else(Err)
}

// ---- the interface the rayon-core shim uses --------------------------------------------------
/// Fork two jobs and wait for both.  The first panic (in program order) is propagated.
pub fn join<A, B, RA, RB>(explicit: bool, a: A, b: B) -> (RA, RB)
where
    A: FnOnce(bool) -> RA + Send,
    B: FnOnce(bool) -> RB + Send,
    RA: Send,
    RB: Send,
{
    let Some(s) = shared() else {
        let ra = a(false);
        return (ra, b(false));
    };
    let mut ra = None;
    let mut rb = None;
    let (sa, sb) = (child_stream(), child_stream());
    let migrated = s.workers_of() > 1 && lock(&s).decide(2, 5) == 1;
    let res = {
        let fa = || ra = Some(a(false));
        let fb = || rb = Some(b(migrated));
        match how(&s, explicit) {
            How::Thread => {
                // SAFETY: waited for below, before anything it borrows goes away
                let h = unsafe { spawn_task(&s, Box::new(fb), sb) };
                let r1 = run_inline(fa, sa);
                let r2 = wait_for(&s, h);
                (r1, r2)
            }
            How::Inline => {
                if s.workers_of() > 1 && lock(&s).decide(2, 6) == 1 {
                    let r2 = run_inline(fb, sb);
                    let r1 = run_inline(fa, sa);
                    (r1, r2)
                } else {
                    let r1 = run_inline(fa, sa);
                    let r2 = run_inline(fb, sb);
                    (r1, r2)
                }
            }
        }
    };
    if let Err(p) = res.0 {
        resume_unwind(p)
    }
    if let Err(p) = res.1 {
        resume_unwind(p)
    }
    (ra.unwrap(), rb.unwrap())
}

/// A set of jobs that all finish before [`JobSet::finish`] returns.
pub struct JobSet<'s> {
    q: Mutex<Vec<(Box<dyn FnOnce() + Send + 's>, (u64, u64))>>,
    running: Mutex<Vec<Handle>>,
    first_panic: Mutex<Option<Box<dyn Any + Send>>>,
}
impl<'s> Default for JobSet<'s> {
    fn default() -> Self {
        JobSet {
            q: Mutex::new(Vec::new()),
            running: Mutex::new(Vec::new()),
            first_panic: Mutex::new(None),
        }
    }
}
impl<'s> JobSet<'s> {
    pub fn add(&self, f: Box<dyn FnOnce() + Send + 's>) {
        match shared() {
            None => self.q.lock().unwrap().push((f, (0, 0))),
            Some(s) => {
                let st = child_stream();
                match how(&s, true) {
                    How::Thread => {
                        // SAFETY: `finish` waits for it
                        let h = unsafe { spawn_task(&s, f, st) };
                        self.running.lock().unwrap().push(h);
                    }
                    How::Inline => {
                        // either now (a worker stole it at once) or later
                        if s.workers_of() > 1 && lock(&s).decide(3, 7) == 0 {
                            let r = run_inline(f, st);
                            self.note(r);
                        } else {
                            self.q.lock().unwrap().push((f, st));
                        }
                    }
                }
            }
        }
    }
    fn note(&self, r: Res) {
        if let Err(p) = r {
            let mut g = self.first_panic.lock().unwrap();
            if g.is_none() {
                *g = Some(p);
            }
        }
    }
    pub fn finish(&self) {
        loop {
            let next = {
                let mut q = self.q.lock().unwrap();
                if q.is_empty() {
                    None
                } else {
                    let i = match shared() {
                        Some(s) if s.workers_of() > 1 => {
                            let n = q.len() as u64;
                            lock(&s).decide(n, 8) as usize
                        }
                        _ => 0,
                    };
                    Some(q.remove(i))
                }
            };
            if let Some((f, st)) = next {
                if shared().is_some() {
                    let r = run_inline(f, st);
                    self.note(r);
                } else {
                    f();
                }
                continue;
            }
            let h = self.running.lock().unwrap().pop();
            match (h, shared()) {
                (Some(h), Some(s)) => {
                    let r = wait_for(&s, h);
                    self.note(r);
                }
                _ => break,
            }
        }
        if let Some(p) = self.first_panic.lock().unwrap().take() {
            resume_unwind(p)
        }
    }
}
