//! Deterministic simulation engine: one seed is one exactly repeatable run.
//!
//! A run asks [`Sim::choose`] for every decision (inputs, faults, seeds of the parties' random
//! sources and schedulers).  The answers come from a seeded generator while searching, and from
//! the recorded choice tape while replaying or minimising.  0 is always the tamest answer.
use simctx::{mix, Op, RngFault, Rng64, Run, SchedCfg, Stats};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Choice {
    pub label: String,
    pub n: u64,
    pub v: u64,
}
#[derive(Clone, Debug)]
pub enum Stop {
    /// the property is broken: (kind, explanation)
    Violation(String, String),
    /// the run does not apply (e.g. hooks unavailable)
    Skip(&'static str),
}
pub type Res<T = ()> = Result<T, Stop>;

pub fn violation<T>(kind: impl Into<String>, msg: impl Into<String>) -> Res<T> {
    Err(Stop::Violation(kind.into(), msg.into()))
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $kind:expr, $($m:tt)*) => {
        if !($c) { return $crate::engine::violation($kind, format!($($m)*)); }
    };
}

/// The environment one simulated party runs in.
#[derive(Clone, Debug)]
pub struct Env {
    pub rng_seed: u64,
    pub sched: SchedCfg,
    pub faults: Vec<RngFault>,
    pub forks: Vec<simctx::Fork>,
}
impl Env {
    pub fn plain(seed: u64) -> Env {
        Env { rng_seed: seed, sched: SchedCfg::serial(seed), faults: vec![], forks: vec![] }
    }
}
/// What came out of one party's activity.
pub struct Out<T> {
    pub res: Result<T, String>,
    pub log: Vec<Op>,
    pub stats: Stats,
}
impl<T> Out<T> {
    /// The result, or a violation if the party panicked.
    pub fn ok(self, kind: &str) -> Res<T> {
        match self.res {
            Ok(t) => Ok(t),
            Err(p) => violation(format!("{kind}-panic"), p),
        }
    }
}

static LAST_PANIC: Mutex<Option<String>> = Mutex::new(None);
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if let Ok(mut g) = LAST_PANIC.lock() {
            *g = Some(format!("panic at {at}: {m}"));
        }
    }));
}

pub struct Sim {
    pub run: u64,
    rng: Rng64,
    tape_in: Option<Vec<Choice>>,
    pos: usize,
    pub tape: Vec<Choice>,
    seeds: u64,
    stratum: u64,
    pub trace: Vec<String>,
    pub counters: BTreeMap<String, u64>,
    pub states: HashSet<u64>,
    pub orders: HashSet<u64>,
    /// virtual clock, microseconds
    pub now_us: u64,
    pub nontrivial: bool,
    pub digest: u64,
    pub thorough: bool,
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64 ^ b.len() as u64;
    for c in b.chunks(8) {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        h = mix(h, u64::from_le_bytes(w));
    }
    h
}
pub fn hash_str(s: &str) -> u64 {
    hash_bytes(s.as_bytes())
}

impl Sim {
    pub fn new(seed: u64, run: u64, thorough: bool, tape: Option<Vec<Choice>>) -> Sim {
        Sim {
            run,
            rng: Rng64::new(mix(seed, run.wrapping_mul(0x9E3779B97F4A7C15) ^ 0x51)),
            tape_in: tape,
            pos: 0,
            tape: vec![],
            seeds: 0,
            // every eighth run belongs to the build without threads: both step through all strata
            stratum: if run % 8 == 7 { run / 8 } else { run / 8 * 7 + run % 8 },
            trace: vec![],
            counters: BTreeMap::new(),
            states: HashSet::new(),
            orders: HashSet::new(),
            now_us: 0,
            nontrivial: false,
            digest: 0,
            thorough,
        }
    }
    fn take(&mut self, label: &str, n: u64, fresh: impl FnOnce(&mut Sim) -> u64) -> u64 {
        let v = match &self.tape_in {
            Some(t) => match t.get(self.pos) {
                Some(c) if c.label == label => {
                    if n == 0 {
                        c.v
                    } else {
                        c.v.min(n - 1)
                    }
                }
                _ => 0,
            },
            None => fresh(self),
        };
        self.pos += 1;
        self.tape.push(Choice { label: label.to_string(), n, v });
        self.digest = mix(self.digest, v ^ n.rotate_left(40));
        v
    }
    /// A number in 0..n (n = 0 stands for all 64-bit numbers).
    pub fn choose(&mut self, label: &str, n: u64) -> u64 {
        self.take(label, n, |s| if n == 0 { s.rng.next() } else { s.rng.below(n) })
    }
    pub fn chance(&mut self, label: &str, permille: u64) -> bool {
        self.take(label, 2, |s| (s.rng.below(1000) < permille) as u64) == 1
    }
    pub fn seed(&mut self, label: &str) -> u64 {
        // never twice the same in one run, also when a minimised tape has only zeros
        self.seeds += 1;
        let v = self.choose(label, 0);
        mix(v, self.seeds)
    }
    /// Like [`choose`], but consecutive runs step through the values, so that every value is
    /// met when there are enough runs.
    pub fn stratum(&mut self, label: &str, n: u64) -> u64 {
        self.take(label, n, |s| {
            let v = s.stratum % n;
            s.stratum /= n;
            v
        })
    }
    pub fn pick<'a, T>(&mut self, label: &str, xs: &'a [T]) -> &'a T {
        let i = self.choose(label, xs.len() as u64) as usize;
        &xs[i]
    }
    /// A small number, with occasional larger ones.
    pub fn small(&mut self, label: &str, max: u64) -> u64 {
        self.take(label, max + 1, |s| {
            let m = if s.rng.below(4) == 0 { max } else { max.min(3) };
            s.rng.below(m + 1)
        })
    }
    pub fn note(&mut self, m: impl Into<String>) {
        let m = m.into();
        self.digest = mix(self.digest, hash_str(&m));
        if self.trace.len() < 400 {
            self.trace.push(format!("[{:>9.3} ms] {}", self.now_us as f64 / 1000.0, m));
        }
    }
    pub fn count(&mut self, k: &str) {
        self.add(k, 1);
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(c) = self.counters.get_mut(k) {
            *c += n
        } else {
            self.counters.insert(k.to_string(), n);
        }
    }
    pub fn fault(&mut self, k: &str) {
        self.count(&format!("fault:{k}"));
    }
    pub fn state(&mut self, h: u64) {
        self.states.insert(h);
    }
    /// A random environment: seeds of the random source and of the scheduler, worker count.
    pub fn env(&mut self, who: &str) -> Env {
        let rng_seed = self.seed(&format!("{who}.rng"));
        let sched = self.sched(who);
        Env { rng_seed, sched, faults: vec![], forks: vec![] }
    }
    pub fn sched(&mut self, who: &str) -> SchedCfg {
        let workers = [1usize, 2, 4, 8][self.choose(&format!("{who}.workers"), 4) as usize];
        if workers == 1 {
            return SchedCfg::serial(0);
        }
        let seed = self.seed(&format!("{who}.sched"));
        let threads = self.choose(&format!("{who}.threads"), 5) as u32;
        let (t, s) = [(0, 0), (200, 50), (500, 300), (900, 100), (900, 700)][threads as usize];
        SchedCfg { seed, workers, thread_permille: t, thread_budget: 6, switch_permille: s }
    }
    /// Run one party's activity to completion in its environment.
    pub fn party<T>(&mut self, name: &str, env: &Env, f: impl FnOnce() -> T) -> Out<T> {
        let saved = simctx::install(Run {
            rng_seed: env.rng_seed,
            sched: env.sched.clone(),
            faults: env.faults.clone(),
            forks: env.forks.clone(),
            log: true,
        });
        if let Ok(mut g) = LAST_PANIC.lock() {
            *g = None;
        }
        let r = catch_unwind(AssertUnwindSafe(f));
        let (log, stats) = simctx::uninstall(saved);
        let res = r.map_err(|_| {
            LAST_PANIC.lock().ok().and_then(|mut g| g.take()).unwrap_or_else(|| "panic".into())
        });
        self.add("party activations", 1);
        self.add("random words drawn", stats.draws);
        self.add("scheduler decisions", stats.decisions);
        self.add("task switches", stats.switches);
        self.add("simulated threads", stats.threads as u64);
        self.add("parallel jobs", stats.jobs);
        if stats.fault_hits > 0 {
            self.add("fault:random source", stats.fault_hits);
        }
        if stats.jobs > 0 && env.sched.workers > 1 {
            self.orders.insert(stats.sched_hash);
        }
        self.digest = mix(self.digest, stats.sched_hash ^ stats.draws);
        // one unit of local work: virtual time only depends on what the party did
        self.now_us += 50 + stats.draws / 4 + stats.jobs / 16;
        self.note(format!(
            "{name}: rng={:#x} workers={} draws={} jobs={} decisions={} switches={}{}",
            env.rng_seed,
            env.sched.workers,
            stats.draws,
            stats.jobs,
            stats.decisions,
            stats.switches,
            match &res {
                Ok(_) => String::new(),
                Err(e) => format!(" -> {e}"),
            }
        ));
        Out { res, log, stats }
    }
    /// Carry bytes over a reliable link with a random delay.
    pub fn link(&mut self, name: &str, b: &[u8]) {
        let d = 1000 + self.choose("link delay us", 200_000);
        self.now_us += d;
        self.count("messages delivered");
        self.note(format!("{name}: {} bytes, digest {:016x}, delay {d} us", b.len(), hash_bytes(b)));
    }
}

pub type Scenario = fn(&mut Sim) -> Res;

/// One property's check.
pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    pub run: Scenario,
    pub quick_runs: u64,
    pub thorough_runs: u64,
    /// how cases are made, and what makes one non-trivial
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stubs: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

fn one(c: &Check, seed: u64, run: u64, thorough: bool, tape: Option<Vec<Choice>>) -> (Sim, Res) {
    let mut sim = Sim::new(seed, run, thorough, tape);
    let r = catch_unwind(AssertUnwindSafe(|| (c.run)(&mut sim)));
    let r = match r {
        Ok(r) => r,
        Err(_) => {
            let p = LAST_PANIC.lock().ok().and_then(|mut g| g.take()).unwrap_or_default();
            // a panic outside a party is a fault of the harness, or of library code it calls
            // directly (parameter set-up, tree building)
            Err(Stop::Violation("uncaught-panic".into(), p))
        }
    };
    if let Err(Stop::Violation(k, m)) = &r {
        sim.note(format!("VIOLATED [{k}] {m}"));
    }
    (sim, r)
}

// ---- replay files ----------------------------------------------------------------------------
fn write_replay(
    path: &str,
    c: &Check,
    seed: u64,
    run: u64,
    thorough: bool,
    kind: &str,
    msg: &str,
    sim: Option<&Sim>,
    serial: bool,
) {
    let mut s = String::new();
    s += &format!("property {}\nseed {seed}\nrun {run}\nthorough {thorough}\nkind {kind}\n", c.id);
    if serial {
        s += "build serial\n";
    }
    s += &format!("msg {}\n", msg.replace('\n', " | "));
    if let Some(sim) = sim {
        s += "mode tape\n";
        for ch in &sim.tape {
            s += &format!("choice {} {} {}\n", ch.label.replace(' ', "_"), ch.n, ch.v);
        }
        s += "--- trace\n";
        for t in &sim.trace {
            s += t;
            s += "\n";
        }
    } else {
        s += "mode seed\n";
    }
    if let Some(d) = std::path::Path::new(path).parent() {
        let _ = std::fs::create_dir_all(d);
    }
    let _ = std::fs::write(path, s);
}

/// Shrink a failing tape: fewer and tamer choices, same kind of violation.
fn minimise(c: &Check, seed: u64, run: u64, thorough: bool, first: Sim, kind: &str) -> (Sim, u64) {
    let deadline = Instant::now() + Duration::from_secs(if thorough { 90 } else { 20 });
    let mut best = first;
    let mut tries = 0u64;
    let mut attempt = |tape: Vec<Choice>, best: &mut Sim| -> bool {
        if Instant::now() > deadline {
            return false;
        }
        tries += 1;
        let (s, r) = one(c, seed, run, thorough, Some(tape));
        if matches!(&r, Err(Stop::Violation(k, _)) if k == kind) {
            *best = s;
            true
        } else {
            false
        }
    };
    let mut changed = true;
    while changed && Instant::now() < deadline {
        changed = false;
        // whole blocks to their tamest value
        let mut size = best.tape.len();
        while size >= 1 {
            let mut i = 0;
            while i < best.tape.len() {
                let end = (i + size).min(best.tape.len());
                if best.tape[i..end].iter().any(|c| c.v != 0) {
                    let mut t = best.tape.clone();
                    for ch in &mut t[i..end] {
                        ch.v = 0;
                    }
                    changed |= attempt(t, &mut best);
                }
                i += size;
                if Instant::now() > deadline {
                    break;
                }
            }
            size /= 2;
        }
        // single values towards zero
        for i in 0..best.tape.len() {
            if i >= best.tape.len() {
                break;
            }
            let v = best.tape[i].v;
            for w in [1, v / 2, v.saturating_sub(1)] {
                if w < best.tape[i].v {
                    let mut t = best.tape.clone();
                    t[i].v = w;
                    changed |= attempt(t, &mut best);
                }
            }
        }
    }
    (best, tries)
}

// ---- worker processes ------------------------------------------------------------------------
fn worker(c: &Check, seed: u64, thorough: bool, w: u64, of: u64, runs: u64, budget: f64, known: &[(String, String)]) {
    let t0 = Instant::now();
    let out = std::io::stdout();
    let say = |s: String| {
        let mut o = out.lock();
        let _ = writeln!(o, "{s}");
        let _ = o.flush();
    };
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut states = HashSet::new();
    let mut orders = HashSet::new();
    let mut tapes = HashSet::new();
    let (mut done, mut nontrivial, mut us) = (0u64, 0u64, 0u64);
    let mut i = w;
    while i < runs {
        if t0.elapsed().as_secs_f64() > budget {
            break;
        }
        say(format!("BEGIN {i}"));
        let (sim, r) = one(c, seed, i, thorough, None);
        if done == 0 {
            let (again, _) = one(c, seed, i, thorough, None);
            let k = if again.digest == sim.digest { "runs repeated identically" } else { "runs that differed when repeated" };
            *counters.entry(k.into()).or_default() += 1;
        }
        done += 1;
        us += sim.now_us;
        for (k, v) in &sim.counters {
            *counters.entry(k.clone()).or_default() += v;
        }
        if states.len() < 200_000 {
            states.extend(sim.states.iter().copied());
        }
        if orders.len() < 200_000 {
            orders.extend(sim.orders.iter().copied());
        }
        match r {
            Ok(()) => {
                if sim.nontrivial && tapes.insert(sim.digest) {
                    nontrivial += 1;
                }
                if done <= 1 && w < 3 {
                    let t: Vec<_> = sim.trace.iter().take(14).cloned().collect();
                    say(format!("SAMPLE run {i} seed {seed}: {}", t.join(" ;; ")));
                }
            }
            Err(Stop::Skip(why)) => *counters.entry(format!("skipped: {why}")).or_default() += 1,
            Err(Stop::Violation(kind, msg)) => {
                if let Some((_, what)) = known.iter().find(|(k, _)| *k == kind) {
                    say(format!("KNOWN {what}"));
                } else {
                    let (best, tries) = minimise(c, seed, i, thorough, sim, &kind);
                    let path = format!("replays/{}-{}-{}.replay", c.id, seed, i);
                    let m = best.trace.last().cloned().unwrap_or_else(|| msg.clone());
                    write_replay(&path, c, seed, i, thorough, &kind, &m, Some(&best), SERIAL);
                    say(format!("FOUND\t{i}\t{path}\t{tries}\t{kind}\t{}", m.replace(['\n', '\t'], " ")));
                    break;
                }
            }
        }
        i += of;
    }
    if SERIAL {
        counters.insert("runs of the build without threads".into(), done);
    }
    for (k, v) in &counters {
        say(format!("COUNT\t{k}\t{v}"));
    }
    let list = |h: &HashSet<u64>| h.iter().map(|x| format!("{x:x}")).collect::<Vec<_>>().join(" ");
    say(format!("STATES {}", list(&states)));
    say(format!("ORDERS {}", list(&orders)));
    say(format!("DONE\t{done}\t{nontrivial}\t{us}"));
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 0x20 => o += " ",
            c => o.push(c),
        }
    }
    o + "\""
}
fn json_list(xs: &[&str]) -> String {
    format!("[{}]", xs.iter().map(|x| json(x)).collect::<Vec<_>>().join(","))
}

pub fn known_findings(id: &str) -> Vec<(String, String)> {
    // known: property=<id> kind=<kind> <what fails>
    let Ok(t) = std::fs::read_to_string("known_findings.txt") else { return vec![] };
    t.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: ")?;
            let l = l.strip_prefix(&format!("property={id} "))?;
            let (k, what) = l.strip_prefix("kind=")?.split_once(' ')?;
            Some((k.to_string(), what.to_string()))
        })
        .collect()
}

pub fn main(checks: &[Check]) {
    quiet_panics();
    let a: Vec<String> = std::env::args().collect();
    let id = a.get(1).cloned().unwrap_or_default();
    let Some(c) = checks.iter().find(|c| c.id == id) else {
        eprintln!("unknown check {id}");
        std::process::exit(2);
    };
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let env = |k: &str| std::env::var(k).ok();
    let thorough = a.iter().any(|x| x == "--thorough") || env("VERIF_TIER").as_deref() == Some("thorough");
    let seed: u64 = get("--seed").or(env("VERIF_SEED")).and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut runs = if thorough { c.thorough_runs } else { c.quick_runs };
    if let Some(n) = get("--runs").and_then(|s| s.parse().ok()) {
        runs = n;
    }
    let mut budget = if thorough { 700.0 } else { 120.0 };
    if let Some(n) = get("--budget").and_then(|s| s.parse().ok()) {
        budget = n;
    }
    let known = known_findings(c.id);
    if let Some(w) = get("--worker") {
        let (w, of) = w.split_once('/').unwrap();
        worker(c, seed, thorough, w.parse().unwrap(), of.parse().unwrap(), runs, budget, &known);
        return;
    }
    if let Some(r) = get("--only") {
        // a single run, in this process (debugging, and replays of aborts)
        let (sim, r) = one(c, seed, r.parse().unwrap(), thorough, None);
        for t in &sim.trace {
            println!("{t}");
        }
        println!("{:?} {:?}", r, sim.counters);
        std::process::exit(matches!(r, Err(Stop::Violation(..))) as i32);
    }
    if let Some(p) = get("--replay") {
        std::process::exit(replay(c, &p));
    }
    std::process::exit(search(c, seed, thorough, runs, budget));
}

fn replay(c: &Check, path: &str) -> i32 {
    let text = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("cannot read {path}: {e}");
            return 2;
        }
    };
    let (mut seed, mut run, mut thorough, mut kind, mut tape, mut is_tape) = (1, 0, false, String::new(), vec![], false);
    for l in text.lines() {
        if l == "--- trace" {
            break;
        }
        let (k, v) = l.split_once(' ').unwrap_or((l, ""));
        match k {
            "seed" => seed = v.parse().unwrap_or(1),
            "run" => run = v.parse().unwrap_or(0),
            "thorough" => thorough = v == "true",
            "kind" => kind = v.to_string(),
            "mode" => is_tape = v == "tape",
            "choice" => {
                let p: Vec<&str> = v.split(' ').collect();
                if p.len() == 3 {
                    tape.push(Choice { label: p[0].replace('_', " "), n: p[1].parse().unwrap_or(0), v: p[2].parse().unwrap_or(0) });
                }
            }
            _ => {}
        }
    }
    if !is_tape {
        // the run ended the process (abort, stack overflow, hang): repeat it in a child
        let mut ch = std::process::Command::new(std::env::current_exe().unwrap());
        ch.arg(c.id).arg("--only").arg(run.to_string()).arg("--seed").arg(seed.to_string());
        if thorough {
            ch.arg("--thorough");
        }
        let t0 = Instant::now();
        let mut p = ch.spawn().expect("cannot start a child");
        loop {
            if let Ok(Some(st)) = p.try_wait() {
                println!("child ended with {st}");
                if st.success() {
                    println!("not reproduced");
                    return 0;
                }
                println!("VIOLATION property={} replay={path}", c.id);
                return 1;
            }
            if t0.elapsed() > Duration::from_secs(HANG_S) {
                let _ = p.kill();
                println!("VIOLATION property={} replay={path}", c.id);
                return 1;
            }
            std::thread::sleep(Duration::from_millis(50));
        }
    }
    let (sim, r) = one(c, seed, run, thorough, Some(tape));
    for t in &sim.trace {
        println!("{t}");
    }
    match r {
        Err(Stop::Violation(k, _)) => {
            if k != kind {
                println!("note: recorded kind was {kind}, this run shows {k}");
            }
            println!("VIOLATION property={} replay={path}", c.id);
            1
        }
        _ => {
            println!("not reproduced on this tree");
            0
        }
    }
}

const HANG_S: u64 = 300;
/// This is the build of the library without its `parallel` feature.
pub const SERIAL: bool = cfg!(not(feature = "parallel"));

fn search(c: &Check, seed: u64, thorough: bool, runs: u64, budget: f64) -> i32 {
    let t0 = Instant::now();
    let n = std::env::var("SIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8u64).min(runs.max(1));
    let exe = std::env::current_exe().unwrap();
    let (tx, rx) = std::sync::mpsc::channel::<(usize, Option<String>)>();
    let mut kids = vec![];
    let other = std::env::var("CTSIM_SERIAL").ok().filter(|p| n == 8 && std::path::Path::new(p).exists());
    let mut serial = vec![false; n as usize];
    for w in 0..n {
        serial[w as usize] = w == 7 && other.is_some();
        let mut cmd = match &other {
            Some(p) if w == 7 => std::process::Command::new(p),
            _ => std::process::Command::new(&exe),
        };
        cmd.arg(c.id)
            .args(["--worker", &format!("{w}/{n}"), "--seed", &seed.to_string()])
            .args(["--runs", &runs.to_string(), "--budget", &budget.to_string()])
            .stdout(std::process::Stdio::piped())
            .stderr(std::process::Stdio::null());
        if thorough {
            cmd.arg("--thorough");
        }
        let mut k = cmd.spawn().expect("cannot start a worker process");
        let o = k.stdout.take().unwrap();
        let tx = tx.clone();
        std::thread::spawn(move || {
            for l in BufReader::new(o).lines().map_while(Result::ok) {
                let _ = tx.send((w as usize, Some(l)));
            }
            let _ = tx.send((w as usize, None));
        });
        kids.push(k);
    }
    drop(tx);
    let mut begun: Vec<(Option<u64>, Instant, bool)> = vec![(None, Instant::now(), false); n as usize];
    let mut alive = n;
    let mut hung = vec![false; n as usize];
    let mut outside = false;
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut states = HashSet::new();
    let mut orders = HashSet::new();
    let (mut done, mut nontrivial, mut us) = (0u64, 0u64, 0u64);
    let mut samples = vec![];
    let mut known_hit: Vec<String> = vec![];
    let mut found: Vec<(u64, String, String, String)> = vec![];
    while alive > 0 {
        match rx.recv_timeout(Duration::from_secs(2)) {
            Ok((w, Some(l))) => {
                if let Some(r) = l.strip_prefix("BEGIN ") {
                    begun[w] = (r.parse().ok(), Instant::now(), false);
                } else if let Some(s) = l.strip_prefix("SAMPLE ") {
                    samples.push(s.chars().take(2400).collect::<String>());
                } else if let Some(s) = l.strip_prefix("KNOWN ") {
                    if !known_hit.iter().any(|k| k == s) {
                        known_hit.push(s.to_string());
                    }
                } else if let Some(s) = l.strip_prefix("FOUND\t") {
                    let p: Vec<&str> = s.split('\t').collect();
                    found.push((p[0].parse().unwrap_or(0), p[1].into(), p[3].into(), p[4].into()));
                    // the others need not go on
                    for (j, k) in kids.iter_mut().enumerate() {
                        if j != w {
                            begun[j].2 = true;
                            let _ = k.kill();
                        }
                    }
                } else if let Some(s) = l.strip_prefix("COUNT\t") {
                    if let Some((k, v)) = s.split_once('\t') {
                        *counters.entry(k.into()).or_default() += v.parse::<u64>().unwrap_or(0);
                    }
                } else if let Some(s) = l.strip_prefix("STATES ") {
                    states.extend(s.split(' ').filter_map(|x| u64::from_str_radix(x, 16).ok()));
                } else if let Some(s) = l.strip_prefix("ORDERS ") {
                    orders.extend(s.split(' ').filter_map(|x| u64::from_str_radix(x, 16).ok()));
                } else if let Some(s) = l.strip_prefix("DONE\t") {
                    let p: Vec<u64> = s.split('\t').filter_map(|x| x.parse().ok()).collect();
                    done += p[0];
                    nontrivial += p[1];
                    us += p[2];
                    begun[w].2 = true;
                }
            }
            Ok((w, None)) => {
                alive -= 1;
                let st = kids[w].wait();
                if !begun[w].2 {
                    // ended without a word: abort, stack overflow, or killed as hung; a SIGKILL that
                    // is not ours (memory guard) says nothing about the property
                    use std::os::unix::process::ExitStatusExt;
                    if st.as_ref().map_or(true, |s| s.signal() == Some(9)) && !hung[w] {
                        eprintln!("worker {w} was killed from outside while running {:?}", begun[w].0);
                        outside = true;
                        continue;
                    }
                    let run = begun[w].0.unwrap_or(w as u64);
                    let kind = "process-ended".to_string();
                    let msg = format!("the process running run {run} ended abnormally: {st:?}");
                    let path = format!("replays/{}-{}-{}.replay", c.id, seed, run);
                    write_replay(&path, c, seed, run, thorough, &kind, &msg, None, serial[w]);
                    found.push((run, path, kind, msg));
                }
            }
            Err(std::sync::mpsc::RecvTimeoutError::Timeout) => {
                for (j, b) in begun.iter_mut().enumerate() {
                    if !b.2 && b.0.is_some() && b.1.elapsed() > Duration::from_secs(HANG_S) {
                        hung[j] = true;
                        let _ = kids[j].kill();
                    }
                }
            }
            Err(_) => break,
        }
    }
    for k in &mut kids {
        let _ = k.kill();
        let _ = k.wait();
    }
    let wall = t0.elapsed().as_secs_f64();
    for k in &known_hit {
        println!("KNOWN-FINDING: property={} {k}", c.id);
    }
    found.sort();
    // ---- evidence
    let faults: BTreeMap<&str, u64> =
        counters.iter().filter_map(|(k, v)| k.strip_prefix("fault:").map(|k| (k, *v))).collect();
    let other: BTreeMap<&str, u64> =
        counters.iter().filter(|(k, _)| !k.starts_with("fault:")).map(|(k, v)| (k.as_str(), *v)).collect();
    let obj = |m: &BTreeMap<&str, u64>| {
        format!("{{{}}}", m.iter().map(|(k, v)| format!("{}:{v}", json(k))).collect::<Vec<_>>().join(","))
    };
    let refs: Vec<&str> = samples.iter().map(|s| s.as_str()).collect();
    let ev = format!(
        "{{\n\"property\":{},\"tier\":{},\"seed\":{seed},\"level\":{},\n\"coverage\":{{\n\"evaluations\":{done},\n\"distinct_nontrivial\":{nontrivial},\n\"rule\":{},\n\"samples\":{},\n\"simulated_runs_per_hour\":{},\n\"seeds_per_hour\":{},\n\"simulated_time_s\":{:.3},\n\"faults_injected\":{},\n\"distinct_states\":{},\n\"distinct_states_measure\":\"distinct hashes of (scenario, sizes, fault/attack, outcome) reported by the runs\",\n\"distinct_interleavings\":{},\n\"distinct_interleavings_measure\":\"distinct hashes over the full sequence of scheduler decisions of one party activation\",\n\"events\":{},\n\"real_components\":{},\n\"stubbed_components\":{}\n}},\n\"wall_s\":{wall:.2},\n\"violations\":{},\n\"known_findings\":{},\n\"assumptions\":{}\n}}\n",
        json(c.id),
        json(if thorough { "thorough" } else { "quick" }),
        json(c.level),
        json(c.rule),
        json_list(&refs),
        (done as f64 / wall * 3600.0) as u64,
        (done as f64 / wall * 3600.0) as u64,
        us as f64 / 1e6,
        obj(&faults),
        states.len(),
        orders.len(),
        obj(&other),
        json_list(c.real),
        json_list(c.stubs),
        found.len(),
        json_list(&known_hit.iter().map(|s| s.as_str()).collect::<Vec<_>>()),
        json_list(c.assumptions),
    );
    let _ = std::fs::create_dir_all("evidence");
    let _ = std::fs::write(format!("evidence/{}.json", c.id), ev);
    println!(
        "{}: {done} runs ({nontrivial} distinct non-trivial), {} states, {} interleavings, {:.1} s simulated, {:.1} s wall",
        c.id,
        states.len(),
        orders.len(),
        us as f64 / 1e6,
        wall
    );
    if !faults.is_empty() {
        println!("faults: {}", obj(&faults));
    }
    if let Some((run, path, kind, msg)) = found.first() {
        println!("run {run} [{kind}] {msg}");
        println!("VIOLATION property={} replay={path}", c.id);
        return 1;
    }
    if outside {
        return 2;
    }
    if done == 0 {
        eprintln!("no run completed");
        return 2;
    }
    0
}
