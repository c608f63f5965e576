//! C16: honest payments go through once the network lets them.
use crate::pay::*;
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use ctsim::engine::*;
use ctsim::ensure;
use ctsim::tree::*;
use std::collections::{BTreeMap, BTreeSet};

pub const CHECK: Check = Check {
    id: "C16",
    level: "exploration",
    run,
    quick_runs: 220,
    thorough_runs: 12_000,
    rule: "one evaluation = a history of two to four wallets and one to three replicated ledgers on a simulated network: mints, hand-overs and payments between them (chained: received coins are spent again), messages lost, duplicated, delayed, reordered and corrupted, partitions, crashes and restarts of ledgers with torn unsynced writes and failing disks, stalled wallets and skewed timers until a chosen time; then a bounded time without faults; every proof is made and checked by the library under a random schedule, singly or in batches; distinct by digest of all choices",
    real: crate::REAL,
    stubs: crate::STUBS,
    assumptions: &[
        "the payer tells the receiver the secrets of the new coin, derived by reading the same random source again",
        "ledgers keep the trees their log went through, so that a payment made for an earlier tree stays acceptable",
    ],
};
fn run(s: &mut Sim) -> Res {
    match s.choose("configuration", 200) {
        0..=59 => go::<T90, GroupOf<T90>, 5>(s),
        60..=119 => go::<T90, GroupOf<T61>, 3>(s),
        120..=159 => go::<T90, GroupOf<T90>, 4>(s),
        160..=196 => go::<T127, GroupOf<T127>, 3>(s),
        _ => go::<Pasta, ark_pallas::Projective, 4>(s),
    }
}
const TICK: u64 = 1_000_000;
#[derive(Clone)]
enum Msg {
    Submit { id: u64, entry: Vec<u8> },
    Ack { id: u64 },
    Append { from: usize, entries: Vec<Vec<u8>> },
    Have { n: usize },
    Get,
    Leaves { sum: u64, bytes: Vec<u8> },
    Coin { id: u64, sum: u64, bytes: Vec<u8> },
    CoinAck { id: u64 },
}
#[derive(Clone)]
enum What {
    Deliver { from: usize, msg: Msg },
    Tick,
    Crash,
    Restart,
}
struct Pending {
    id: u64,
    entry: Vec<u8>,
    acked: bool,
    /// coins to hand over once it is accepted
    out: Vec<(usize, Vec<u8>)>,
}
struct Wallet<Y: Cyc, G: Group> {
    keys: Keys<G>,
    coins: Vec<Owned<Y, G>>,
    seen: BTreeSet<u64>,
    leaves: Vec<Ev<Y>>,
    outbox: Vec<Pending>,
    handover: Vec<(u64, usize, Vec<u8>)>,
    pays: usize,
    rate: u64,
}
struct Ledger<Y: Cyc> {
    up: bool,
    disk: Vec<u8>,
    log: Vec<Vec<u8>>,
    leaves: Vec<Ev<Y>>,
    shown: BTreeSet<Vec<u8>>,
    /// what each follower has (kept by the first ledger)
    have: Vec<usize>,
    full: bool,
}
struct World<Y: Cyc, G: Group> {
    q: BTreeMap<(u64, u64), (usize, What)>,
    seq: u64,
    wallets: Vec<Wallet<Y, G>>,
    ledgers: Vec<Ledger<Y>>,
    genesis: Vec<Ev<Y>>,
    height: usize,
    sp: SigPrm<G>,
    faults_until: u64,
    cut: Vec<(u64, u64, usize, usize)>,
    honest: BTreeSet<Vec<u8>>,
    rates: [u64; 5],
    used: u64,
    minted: u128,
}
const LEDGER: usize = 100;

impl<Y: Cyc, G: Group> World<Y, G> {
    fn at(&mut self, t: u64, who: usize, w: What) {
        self.seq += 1;
        self.q.insert((t, self.seq), (who, w));
    }
    fn send(&mut self, s: &mut Sim, from: usize, to: usize, msg: Msg) {
        let now = s.now_us;
        let faulty = now < self.faults_until;
        let cut = |a: usize, b: usize| self.cut.iter().any(|(x, y, p, q)| now >= *x && now < *y && ((a, b) == (*p, *q) || (b, a) == (*p, *q)));
        if faulty && cut(from, to) {
            s.fault("partitioned message");
            return;
        }
        if faulty && s.chance("lost", self.rates[0]) {
            s.fault("message lost");
            return;
        }
        let copies = if faulty && s.chance("duplicated", self.rates[1]) {
            s.fault("message duplicated");
            2
        } else {
            1
        };
        for _ in 0..copies {
            let mut m = msg.clone();
            if faulty && s.chance("corrupted", self.rates[2]) {
                let b = match &mut m {
                    Msg::Submit { entry, .. } => entry,
                    Msg::Leaves { bytes, .. } | Msg::Coin { bytes, .. } => bytes,
                    Msg::Append { entries, .. } => match entries.last_mut() {
                        Some(e) => e,
                        None => continue,
                    },
                    _ => continue,
                };
                if !b.is_empty() {
                    s.fault("message corrupted");
                    let n = b.len() as u64;
                    match s.choose("corruption", 4) {
                        0 => b.truncate(s.choose("cut at", n) as usize),
                        1 => {
                            let (i, x) = (s.choose("byte", n) as usize, 1 + s.choose("xor", 255) as u8);
                            b[i] ^= x
                        }
                        2 => {
                            let i = s.choose("byte", n) as usize;
                            b.remove(i);
                        }
                        _ => b.extend([0u8; 3]),
                    }
                }
            }
            let base = 1000 + s.choose("delay us", 50_000);
            let extra = if faulty && s.chance("delayed", self.rates[3]) {
                s.fault("message delayed");
                s.choose("long delay us", 8_000_000)
            } else {
                0
            };
            s.count("messages sent");
            self.at(now + base + extra, to, What::Deliver { from, msg: m });
        }
    }
}
fn record(b: &[u8]) -> Vec<u8> {
    let mut r = (b.len() as u32).to_le_bytes().to_vec();
    r.extend(hash_bytes(b).to_le_bytes());
    r.extend(b);
    r
}
fn replay(mut d: &[u8]) -> (Vec<Vec<u8>>, usize) {
    let all = d.len();
    let mut out = vec![];
    while d.len() >= 12 {
        let n = u32::from_le_bytes(d[..4].try_into().unwrap()) as usize;
        let h = u64::from_le_bytes(d[4..12].try_into().unwrap());
        if d.len() < 12 + n || hash_bytes(&d[12..12 + n]) != h {
            break;
        }
        out.push(d[12..12 + n].to_vec());
        d = &d[12 + n..];
    }
    (out, all - d.len())
}
/// What an entry adds to a ledger.
struct Effect<Y: Cyc> {
    keys: Vec<Vec<u8>>,
    leaves: Vec<Ev<Y>>,
}
fn tree_at<Y: Cyc, const L: usize>(leaves: &[Ev<Y>], n: usize, height: usize, prm: &Prm<Y>) -> Tree<Y, L, 1> {
    pruned::<Y, L, 1>(&Tree::<Y, L, 1>::from_set(&leaves[..n], prm, Some(height)))
}
/// Check entries against the leaves they claim, each alone or all payments in one batch.
fn examine<Y: Cyc, G: Group, const L: usize>(leaves: &[Ev<Y>], entries: &[Vec<u8>], batch: bool, height: usize, sp: &SigPrm<G>) -> Vec<Result<Effect<Y>, String>> {
    let prm = Y::params();
    let mut out = vec![];
    let mut pours: Vec<(usize, Tree<Y, L, 1>, &[u8])> = vec![];
    for (i, e) in entries.iter().enumerate() {
        out.push(Err("empty".to_string()));
        match e.split_first() {
            Some((0, b)) => {
                out[i] = check_mint::<Y>(b, prm).map(|c| Effect { keys: vec![], leaves: vec![c] });
            }
            Some((1, b)) if b.len() > 4 => {
                let n = u32::from_le_bytes(b[..4].try_into().unwrap()) as usize;
                if n < 2 || n > leaves.len() {
                    out[i] = Err("no such tree".into());
                } else {
                    pours.push((i, tree_at::<Y, L>(leaves, n, height, prm), &b[4..]));
                }
            }
            _ => out[i] = Err("no such entry".into()),
        }
    }
    let eff = |x: &([Pk<G>; 2], [Ev<Y>; 2])| Effect {
        keys: x
            .0
            .iter()
            .map(|k| {
                let mut b = vec![];
                k.serialize_compressed(&mut b).unwrap();
                b
            })
            .collect(),
        leaves: x.1.to_vec(),
    };
    // a panic is a refusal
    let one = |txs: &[(&Tree<Y, L, 1>, &[u8])]| {
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| check_pours::<Y, G, L>(txs, POUR, sp, prm))).unwrap_or_else(|_| Err("panic".into()))
    };
    if batch && pours.len() > 1 {
        let all: Vec<_> = pours.iter().map(|(_, t, b)| (t, *b)).collect();
        if let Ok(r) = one(&all) {
            for ((i, ..), x) in pours.iter().zip(&r) {
                out[*i] = Ok(eff(x));
            }
            return out;
        }
    }
    for (i, t, b) in &pours {
        out[*i] = one(&[(t, b)]).map(|r| eff(&r[0]));
    }
    out
}
fn go<Y: Cyc, G: Group, const L: usize>(s: &mut Sim) -> Res {
    let prm = Y::params();
    let sp = sig_params::<G>(s.seed("signature parameters"));
    let (nw, nl) = (2 + s.choose("wallets", if slow::<Y>() { 1 } else { 3 }) as usize, if slow::<Y>() { 1 } else { 1 + s.choose("ledgers", 3) as usize });
    let fill = s.choose("genesis leaves", 12) as usize;
    let pays = if slow::<Y>() { 1 } else { 1 + s.choose("payments", 4) as usize };
    let height = {
        let max = fill + 2 * nw + 2 * pays;
        let mut h = 1;
        while L.pow(h as u32) < max {
            h += 1;
        }
        h
    };
    if fits::<Y>(L, 2, height) < 2 && !slow::<Y>() {
        s.count("tree too high for the generators");
        return Ok(());
    }
    let genesis = leaves::<Y>(fill, s.seed("genesis"));
    let calm = s.chance("calm network", 150);
    let rates = if calm { [0; 5] } else { std::array::from_fn(|i| s.choose("fault rate", [350, 250, 300, 400, 300][i])) };
    let faults_until = if calm { 0 } else { (5 + s.choose("fault time s", 40)) * TICK };
    let mut w = World::<Y, G> {
        q: BTreeMap::new(),
        seq: 0,
        wallets: vec![],
        ledgers: vec![],
        genesis: genesis.clone(),
        height,
        sp,
        faults_until,
        cut: vec![],
        honest: BTreeSet::new(),
        rates,
        used: 0,
        minted: 0,
    };
    for i in 0..nw {
        let keys = keys::<G>(&w.sp, s.seed("keys"));
        let rate = if calm { TICK } else { TICK / 2 + s.choose("timer skew", TICK) };
        w.wallets.push(Wallet { keys, coins: vec![], seen: BTreeSet::new(), leaves: vec![], outbox: vec![], handover: vec![], pays: 0, rate });
        w.at(1 + i as u64, i, What::Tick);
    }
    for _ in 0..pays {
        let i = s.choose("payer", nw as u64) as usize;
        w.wallets[i].pays += 1;
    }
    for i in 0..nl {
        w.ledgers.push(Ledger { up: true, disk: vec![], log: vec![], leaves: genesis.clone(), shown: BTreeSet::new(), have: vec![0; nl], full: false });
        w.at(500 + i as u64, LEDGER + i, What::Tick);
    }
    if !calm {
        let nodes: Vec<usize> = (0..nw).chain((0..nl).map(|i| LEDGER + i)).collect();
        for _ in 0..s.choose("partitions", 4) {
            let (a, b) = (*s.pick("cut", &nodes), *s.pick("cut", &nodes));
            let t = s.choose("cut at", faults_until);
            let d = s.choose("cut for", 15 * TICK);
            w.cut.push((t, t + d, a, b));
        }
        for _ in 0..s.choose("crashes", 4) {
            let l = LEDGER + s.choose("which ledger", nl as u64) as usize;
            let t = s.choose("crash at", faults_until);
            let d = 1 + s.choose("down for", 10 * TICK);
            w.at(t, l, What::Crash);
            w.at((t + d).min(faults_until.max(t + 1)), l, What::Restart);
        }
    }
    // mints: every wallet starts with two coins
    for i in 0..nw {
        for _ in 0..2 {
            let v = amount(s);
            let seed = s.seed("coin");
            let env = s.env("wallet");
            let o = s.party("wallet mints", &env, || {
                let w = &w;
                mint::<Y, G>(v, &w.wallets[i].keys, i, &w.sp, prm, &mut Seeded::new(seed))
            });
            let (c, b) = match o.ok("mint-panic")? {
                Ok(x) => x,
                Err(e) => return violation("mint-prove", format!("{}: minting {v} fails: {e:?}", Y::NAME)),
            };
            let mut entry = vec![0u8];
            entry.extend(b);
            w.minted += v as u128;
            w.honest.insert(entry.clone());
            w.used += 1;
            let id = w.used;
            w.wallets[i].coins.push(c);
            w.wallets[i].outbox.push(Pending { id, entry, acked: false, out: vec![] });
        }
    }
    s.nontrivial = true;
    s.note(format!("{} L={L} height {height}: {nw} wallets, {nl} ledgers, {pays} payments, calm {calm}, faults until {} s", Y::NAME, faults_until / TICK));
    let end = faults_until + 150 * TICK;
    let mut steps = 0;
    while let Some(((t, _), (who, what))) = w.q.pop_first() {
        if t > end {
            break;
        }
        steps += 1;
        s.now_us = s.now_us.max(t);
        match what {
            What::Crash => {
                let l = &mut w.ledgers[who - LEDGER];
                if l.up {
                    s.fault("ledger crash");
                    l.up = false;
                    // a write under way is torn
                    if s.chance("torn write", 500) {
                        let junk = record(&vec![7u8; s.choose("torn length", 300) as usize]);
                        let n = s.choose("torn at", junk.len() as u64) as usize;
                        l.disk.extend(&junk[..n]);
                        s.fault("torn write");
                    }
                }
            }
            What::Restart => {
                let before = w.ledgers[who - LEDGER].leaves.clone();
                let l = &mut w.ledgers[who - LEDGER];
                if !l.up {
                    l.up = true;
                    let (entries, good) = replay(&l.disk);
                    l.disk.truncate(good);
                    l.log = vec![];
                    l.leaves = w.genesis.clone();
                    l.shown.clear();
                    s.fault("ledger restart");
                    let batch = s.choose("recover in one batch", 2) == 1;
                    let env = s.env("ledger");
                    let n = entries.len();
                    // entries may refer to trees made by earlier ones: grow step by step
                    let ok = apply::<Y, G, L>(s, &mut w, who - LEDGER, entries, batch, &env)?;
                    ensure!(ok == n, "recovery-refused", "{}: after a restart a ledger refuses entry {ok} of its own log", Y::NAME);
                    ensure!(w.ledgers[who - LEDGER].leaves == before, "recovery-differs", "{}: a ledger's tree after restart differs from the one before", Y::NAME);
                }
            }
            What::Tick if who < LEDGER => {
                let rate = w.wallets[who].rate;
                let stall = s.now_us < w.faults_until && s.chance("stalled", w.rates[4] / 2);
                w.at(s.now_us + if stall { 4 * rate } else { rate }, who, What::Tick);
                if stall {
                    s.fault("wallet stalled");
                    continue;
                }
                wallet_tick::<Y, G, L>(s, &mut w, who)?;
            }
            What::Tick => {
                let i = who - LEDGER;
                w.at(s.now_us + TICK, who, What::Tick);
                if w.ledgers[i].up && i == 0 {
                    w.ledgers[0].full = s.now_us < w.faults_until && s.chance("disk full", w.rates[4] / 2);
                    for f in 1..w.ledgers.len() {
                        let h = w.ledgers[0].have[f];
                        if h < w.ledgers[0].log.len() {
                            let entries = w.ledgers[0].log[h..].to_vec();
                            w.send(s, LEDGER, LEDGER + f, Msg::Append { from: h, entries });
                        }
                    }
                }
            }
            What::Deliver { from, msg } => {
                s.count("messages delivered");
                deliver::<Y, G, L>(s, &mut w, who, from, msg)?;
            }
        }
        if s.now_us > w.faults_until && done(&w) {
            break;
        }
    }
    s.add("events", steps);
    // progress once the faults stopped
    for (i, x) in w.wallets.iter().enumerate() {
        ensure!(x.outbox.iter().all(|p| p.acked), "no-progress", "{} L={L}: wallet {i} still waits for an honest message to be accepted {} s after the last fault", Y::NAME, (s.now_us - w.faults_until) / TICK);
        ensure!(x.handover.is_empty(), "no-progress", "wallet {i} still waits for a coin to be taken over");
    }
    let l0 = &w.ledgers[0];
    for (i, l) in w.ledgers.iter().enumerate() {
        ensure!(l.up && l.log.len() == l0.log.len(), "no-progress", "ledger {i} has {} entries, the first has {}", l.log.len(), l0.log.len());
    }
    let sent: usize = w.wallets.iter().map(|x| x.outbox.len()).sum();
    ensure!(l0.log.len() == sent, "exactly-once", "{} honest messages gave {} log entries", sent, l0.log.len());
    let r0 = root::<Y, L, 1>(&Tree::<Y, L, 1>::from_set(&l0.leaves, prm, Some(height)));
    for l in &w.ledgers[1..] {
        let r = root::<Y, L, 1>(&Tree::<Y, L, 1>::from_set(&l.leaves, prm, Some(height)));
        ensure!(r == r0, "roots-differ", "{}: two ledgers with the same log have different roots", Y::NAME);
    }
    let total: u128 = w.wallets.iter().flat_map(|x| x.coins.iter().map(|c| c.value as u128)).sum();
    ensure!(total == w.minted, "conservation", "{}: {} was minted, the wallets hold {total}", Y::NAME, w.minted);
    for x in &w.wallets {
        ensure!(!(x.pays > 0 && x.coins.len() >= 2), "no-progress", "a wallet with two coins still has payments to make");
    }
    let left: usize = w.wallets.iter().map(|x| x.pays).sum();
    s.add("payments accepted by every ledger", l0.log.iter().filter(|e| e[0] == 1).count() as u64);
    s.add("payments not possible for want of coins", left as u64);
    s.state(hash_str(&format!("{} {L} {nw} {nl} {height} {} {calm}", Y::NAME, l0.log.len())));
    Ok(())
}
fn done<Y: Cyc, G: Group>(w: &World<Y, G>) -> bool {
    w.wallets.iter().all(|x| x.outbox.iter().all(|p| p.acked) && x.handover.is_empty() && (x.pays == 0 || x.coins.len() < 2))
        && w.ledgers.iter().all(|l| l.up && l.log.len() == w.ledgers[0].log.len())
}
/// A ledger applies entries in order; how many it took.
fn apply<Y: Cyc, G: Group, const L: usize>(s: &mut Sim, w: &mut World<Y, G>, i: usize, entries: Vec<Vec<u8>>, batch: bool, env: &Env) -> Res<usize> {
    // consecutive entries whose trees are all known can be examined together
    let mut k = 0;
    while k < entries.len() {
        let have = w.ledgers[i].leaves.len();
        let known = |e: &Vec<u8>| e.len() < 5 || e[0] != 1 || u32::from_le_bytes(e[1..5].try_into().unwrap()) as usize <= have;
        let mut n = 0;
        while k + n < entries.len() && known(&entries[k + n]) {
            n += 1;
        }
        let chunk = entries[k..k + n.max(1)].to_vec();
        let leaves = w.ledgers[i].leaves.clone();
        let (h, sp) = (w.height, &w.sp);
        let o = s.party("ledger", env, || examine::<Y, G, L>(&leaves, &chunk, batch, h, sp));
        let res = o.ok("ledger-panic")?;
        for (e, r) in chunk.iter().zip(res) {
            let honest = w.honest.contains(e);
            let l = &mut w.ledgers[i];
            match r {
                Ok(x) => {
                    ensure!(honest || w.honest.contains(&canonical::<Y>(e)), "changed-accepted", "{}: a message changed in transit is accepted", Y::NAME);
                    ensure!(x.keys.iter().all(|k| !l.shown.contains(k)), "key-repeated", "{}: two honest payments show the same key", Y::NAME);
                    l.shown.extend(x.keys);
                    l.leaves.extend(x.leaves);
                    l.log.push(e.clone());
                    k += 1;
                }
                Err(m) => {
                    ensure!(!honest, "honest-refused", "{} L={L}, tree of {} leaves, height {h}: an honest {} is refused: {m}", Y::NAME, l.leaves.len(), if e[0] == 0 { "mint" } else { "payment" });
                    s.count("changed messages refused");
                    return Ok(k);
                }
            }
        }
    }
    Ok(k)
}
/// The same mint with the bits that a neutral element leaves unused cleared.
fn canonical<Y: Cyc>(e: &[u8]) -> Vec<u8> {
    let mut out = e[..1].to_vec();
    let mut b = &e[1..];
    if e[0] == 0 {
        if let Ok(c) = Ev::<Y>::deserialize_compressed(&mut b) {
            c.serialize_compressed(&mut out).unwrap();
            if let Ok(p) = bulletproofs::r1cs::R1CSProof::<Ev<Y>>::from_bytes(b) {
                out.extend(p.to_bytes());
            }
        }
    }
    out
}
fn deliver<Y: Cyc, G: Group, const L: usize>(s: &mut Sim, w: &mut World<Y, G>, who: usize, from: usize, msg: Msg) -> Res {
    if who >= LEDGER {
        let i = who - LEDGER;
        if !w.ledgers[i].up {
            s.fault("message to a dead node");
            return Ok(());
        }
        match msg {
            Msg::Submit { id, entry } => {
                if i != 0 {
                    return Ok(());
                }
                // the neutral element leaves bits of its encoding unused: a ledger keeps the
                // canonical form, or it would take one mint twice
                let tidy = if entry.is_empty() { vec![] } else { canonical::<Y>(&entry) };
                let entry = if w.honest.contains(&tidy) { tidy } else { entry };
                if w.ledgers[0].log.contains(&entry) {
                    w.send(s, who, from, Msg::Ack { id });
                    return Ok(());
                }
                if w.ledgers[0].full {
                    s.fault("disk full");
                    return Ok(());
                }
                let env = s.env("ledger");
                if apply::<Y, G, L>(s, w, 0, vec![entry.clone()], false, &env)? == 1 {
                    let r = record(&entry);
                    w.ledgers[0].disk.extend(r);
                    w.send(s, who, from, Msg::Ack { id });
                }
            }
            Msg::Append { from: at, entries } => {
                let have = w.ledgers[i].log.len();
                if at <= have && at + entries.len() > have {
                    let new = entries[have - at..].to_vec();
                    let batch = s.choose("one batch", 2) == 1;
                    let env = s.env("ledger");
                    let n = apply::<Y, G, L>(s, w, i, new.clone(), batch, &env)?;
                    for e in &new[..n] {
                        let r = record(e);
                        w.ledgers[i].disk.extend(r);
                    }
                }
                let n = w.ledgers[i].log.len();
                w.send(s, who, LEDGER, Msg::Have { n });
            }
            Msg::Have { n } => {
                let f = from - LEDGER;
                let h = &mut w.ledgers[0].have[f];
                *h = (*h).max(n);
            }
            Msg::Get => {
                let mut bytes = vec![];
                w.ledgers[i].leaves.serialize_compressed(&mut bytes).unwrap();
                w.send(s, who, from, Msg::Leaves { sum: hash_bytes(&bytes), bytes });
            }
            _ => {}
        }
    } else {
        match msg {
            Msg::Ack { id } => {
                let x = &mut w.wallets[who];
                if let Some(p) = x.outbox.iter_mut().find(|p| p.id == id) {
                    if !p.acked {
                        p.acked = true;
                        for (n, (to, b)) in p.out.clone().into_iter().enumerate() {
                            x.handover.push((id * 2 + n as u64, to, b));
                        }
                    }
                }
            }
            Msg::Leaves { sum, bytes } if hash_bytes(&bytes) == sum => {
                if let Ok(l) = Vec::<Ev<Y>>::deserialize_compressed(bytes.as_slice()) {
                    if l.len() > w.wallets[who].leaves.len() {
                        w.wallets[who].leaves = l;
                    }
                }
            }
            Msg::Coin { id, sum, bytes } if hash_bytes(&bytes) == sum => {
                if w.wallets[who].seen.insert(id) {
                    let c = Owned::<Y, G>::parse(&bytes, who, Y::params());
                    ensure!(c.is_some(), "coin-unreadable", "a coin handed over does not decode");
                    w.wallets[who].coins.push(c.unwrap());
                }
                w.send(s, who, from, Msg::CoinAck { id });
            }
            Msg::CoinAck { id } => w.wallets[who].handover.retain(|h| h.0 != id),
            _ => {}
        }
    }
    Ok(())
}
fn wallet_tick<Y: Cyc, G: Group, const L: usize>(s: &mut Sim, w: &mut World<Y, G>, i: usize) -> Res {
    let prm = Y::params();
    let again: Vec<(u64, Vec<u8>)> = w.wallets[i].outbox.iter().filter(|p| !p.acked).map(|p| (p.id, p.entry.clone())).collect();
    for (id, entry) in &again {
        w.send(s, i, LEDGER, Msg::Submit { id: *id, entry: entry.clone() });
    }
    for (id, to, b) in w.wallets[i].handover.clone() {
        w.send(s, i, to, Msg::Coin { id, sum: hash_bytes(&b), bytes: b });
    }
    if w.wallets[i].pays == 0 || !again.is_empty() || w.wallets[i].coins.len() < 2 {
        return Ok(());
    }
    // find two coins in the tree
    let x = &w.wallets[i];
    let at: Vec<(usize, usize)> = x.coins.iter().enumerate().filter_map(|(k, c)| x.leaves.iter().position(|l| *l == c.commitment).map(|p| (k, p))).collect();
    if at.len() < 2 {
        let l = s.choose("ask ledger", w.ledgers.len() as u64) as usize;
        w.send(s, i, LEDGER + l, Msg::Get);
        return Ok(());
    }
    let a = s.choose("first coin", at.len() as u64) as usize;
    let b = (a + 1 + s.choose("second coin", at.len() as u64 - 1) as usize) % at.len();
    let (ca, cb) = (x.coins[at[a].0].clone(), x.coins[at[b].0].clone());
    let values = split(s, ca.value, cb.value);
    let n = w.wallets.len() as u64;
    let to = [s.choose("receiver", n) as usize, s.choose("receiver", n) as usize];
    let seed = s.seed("payment");
    let x = &w.wallets[i];
    let pks = [w.wallets[to[0]].keys.pk, w.wallets[to[1]].keys.pk];
    let env = s.env("wallet");
    let (h, sp) = (w.height, &w.sp);
    let o = s.party("wallet pays", &env, || {
        let tree = Tree::<Y, L, 1>::from_set(&x.leaves, prm, Some(h));
        let inputs = [ca.spend(at[a].1, &x.keys, sp), cb.spend(at[b].1, &x.keys, sp)];
        let b = pour::<Y, G, L>(&tree, [&inputs[0], &inputs[1]], values, pks, sp, prm, &mut Seeded::new(seed));
        // the receivers' coins, from the same random source
        let mut g = Seeded::new(seed);
        let out: Vec<Owned<Y, G>> = (0..2).map(|k| Owned::new(values[k], &w.wallets[to[k]].keys, to[k], sp, prm, &mut g)).collect();
        let p = parse_tx::<Y, G>(&b).and_then(|t| pour_of::<Y, G, L>(&t));
        (b, out, p.map(|p| [p.minted_coin_commitment_0, p.minted_coin_commitment_1]))
    });
    let (tx, out, created) = o.ok("payment-panic")?;
    let created = match created {
        Ok(c) => c,
        Err(e) => return violation("payment-unreadable", format!("{}: an honest payment does not decode: {e}", Y::NAME)),
    };
    let mut entry = vec![1u8];
    entry.extend((x.leaves.len() as u32).to_le_bytes());
    entry.extend(tx);
    let known = out.iter().zip(&created).all(|(o, c)| o.commitment == *c);
    if !known {
        // the coins' secrets cannot be read off the random source: they cannot be handed over
        s.count("receiver's secrets not derivable");
        return Ok(());
    }
    w.honest.insert(entry.clone());
    w.used += 1;
    let id = w.used;
    let x = &mut w.wallets[i];
    x.pays -= 1;
    let (la, lb) = (at[a].0.max(at[b].0), at[a].0.min(at[b].0));
    x.coins.remove(la);
    x.coins.remove(lb);
    let out = out.iter().zip(to).map(|(o, t)| (t, o.bytes())).collect();
    x.outbox.push(Pending { id, entry, acked: false, out });
    Ok(())
}
