//! C18: results do not depend on threads, scheduling or what ran before.
use crate::pay::*;
use ark_serialize::CanonicalSerialize;
use bulletproofs::r1cs::*;
use bulletproofs::{BulletproofGens, PedersenGens};
use ctsim::engine::*;
use ctsim::ensure;
use ctsim::prog::{on_prover, on_verifier, Crv, Model, Prog, Shape};
use ctsim::tree::*;
use ctsim::treeutil::*;
use merlin::Transcript;
use simctx::{Rng64, RngFault};

pub const CHECK: Check = Check {
    id: "C18",
    level: "exploration",
    run,
    quick_runs: 900,
    thorough_runs: 40_000,
    rule: "one evaluation = one job (parameters, generators, trees, constraint-system proofs, plain and batched membership proofs, mints, transactions, verdicts on honest and changed proofs) with a fixed random source done first alone and serially, then several times under random worker counts and schedules, after unrelated and failing jobs, interleaved with unrelated jobs on other tasks, and in fresh processes of this build and of the one without threads; every byte of the results has to agree; distinct by digest of all choices",
    real: crate::REAL,
    stubs: crate::STUBS,
    assumptions: &["each task of a fork has its own random stream, fixed by its place in the fork tree", "results of the build without threads are compared for jobs that draw no randomness inside a fork"],
};
#[derive(Clone, Copy, Debug)]
pub struct Spec {
    pub kind: u64,
    pub cfg: u64,
    pub seed: u64,
}
const KINDS: u64 = 9;
const NAMES: [&str; KINDS as usize] =
    ["parameters", "generators", "tree", "constraint-system proof", "membership proof", "batched membership proof", "mint", "transaction", "verdicts"];
type Items = Vec<(&'static str, Vec<u8>)>;

fn put<T: CanonicalSerialize>(out: &mut Items, name: &'static str, x: &T) {
    let mut b = vec![];
    x.serialize_compressed(&mut b).unwrap();
    out.push((name, b));
}
pub fn job(j: &Spec) -> Items {
    match j.cfg {
        0..=5 => of::<T61, GroupOf<T61>, ctsim::toy::t61::EvenA, 2, 2>(j),
        6..=8 => of::<T90, GroupOf<T90>, ctsim::toy::t90::OddA, 3, 2>(j),
        9 => of::<T127, GroupOf<T61>, ctsim::toy::t127::EvenA, 4, 3>(j),
        10 => of::<T61, GroupOf<T90>, ctsim::toy::t61::OddA, 5, 1>(j),
        _ => of::<Pasta, GroupOf<T61>, ark_pallas::Affine, 2, 1>(j),
    }
}
fn of<Y: Cyc, G: Group, C: Crv, const L: usize, const M: usize>(j: &Spec) -> Items {
    let mut r = Rng64::new(j.seed);
    let mut out = vec![];
    let slow = slow::<Y>();
    let small = if slow { 4 } else { 1 };
    match j.kind {
        0 => {
            let (a, b) = (1 + r.below(300 / small) as usize, 1 + r.below(300 / small) as usize);
            let p = relations::curve_tree::SelRerandParameters::<Y::P0, Y::P1>::new(a, b);
            put(&mut out, "even generators", &p.even_parameters.bp_gens.share(0).G(a).copied().collect::<Vec<_>>());
            put(&mut out, "odd generators", &p.odd_parameters.bp_gens.share(0).G(b).copied().collect::<Vec<_>>());
            put(&mut out, "even bases", &vec![p.even_parameters.pc_gens.B, p.even_parameters.pc_gens.B_blinding, p.even_parameters.delta]);
            put(&mut out, "odd bases", &vec![p.odd_parameters.pc_gens.B, p.odd_parameters.pc_gens.B_blinding, p.odd_parameters.delta]);
            for t in &p.even_parameters.tables {
                for e in &t.elems {
                    put(&mut out, "even tables", &e.to_vec());
                }
            }
            for t in &p.odd_parameters.tables {
                for e in &t.elems {
                    put(&mut out, "odd tables", &e.to_vec());
                }
            }
        }
        1 => {
            let parties = 1 + r.below(3) as usize;
            let most = [8, 64, 300][r.below(3) as usize] / small;
            let mut g = BulletproofGens::<C>::new(1 + r.below(most) as usize, parties);
            for _ in 0..r.below(4) {
                g.increase_capacity(g.gens_capacity + r.below(most) as usize);
            }
            for p in 0..parties {
                put(&mut out, "generators", &g.share(p).G(g.gens_capacity).copied().collect::<Vec<_>>());
            }
            let pc = PedersenGens::<C>::default();
            put(&mut out, "bases", &vec![pc.B, pc.B_blinding]);
        }
        2 => {
            let n = 1 + r.below(if slow { 6 } else { 150 }) as usize;
            let set = leaves::<Y>(n, r.next());
            let extra = if r.below(2) == 0 { None } else { Some(r.below(4) as usize) };
            let mut t = Tree::<Y, L, M>::from_set(&set, Y::params(), extra);
            for _ in 0..2 {
                let (h, levels) = root::<Y, L, M>(&t);
                out.push(("height", h.to_le_bytes().to_vec()));
                for (a, b) in levels {
                    if let Some(a) = a {
                        put(&mut out, "root", &a);
                    }
                    if let Some(b) = b {
                        put(&mut out, "root", &b);
                    }
                }
                t = t.increase_height(Some(h + r.below(2) as usize), Y::params());
            }
        }
        3 | 8 => {
            let mut shape = Shape {
                commits: r.below(4) as usize,
                vecs: (0..r.below(3)).map(|_| 1 + r.below(20) as usize).collect(),
                gates: r.below(if slow { 10 } else { 70 }) as usize,
                cons: r.below(6) as usize,
                singles: r.below(4) as usize,
                msgs: r.below(3) as usize,
                rand: (0..r.below(3)).map(|_| (r.below(6) as usize, r.below(3) as usize)).collect(),
            };
            if !shape.vecs.is_empty() {
                // the library does not offer second-phase gates beside vector commitments
                shape.rand.iter_mut().for_each(|x| x.0 = 0);
            }
            let prog: Prog<C::ScalarField> = Prog::random(&shape, r.next());
            let model = Model::of(&prog, &[]);
            let g = C::gens();
            let n = if j.kind == 3 { 1 } else { 1 + r.below(4) };
            let mut vts = vec![];
            for _ in 0..n {
                let made = (|| -> Result<_, R1CSError> {
                    let mut p = Prover::new(&g.pc, Transcript::new(b"program"));
                    let (comms, _) = on_prover(&mut p, &prog, &model, &g.bp)?;
                    Ok((p.prove(&g.bp)?, comms))
                })();
                let Ok((proof, comms)) = made else {
                    out.push(("error", format!("{:?}", made.err()).into_bytes()));
                    continue;
                };
                put(&mut out, "commitments", &comms);
                let mut b = proof.to_bytes();
                out.push(("proof", b.clone()));
                if j.kind == 8 {
                    // the message may be changed on the way
                    if r.below(3) == 0 {
                        let i = r.below(b.len() as u64) as usize;
                        b[i] ^= 1 << r.below(8);
                    }
                    let v = || -> Result<_, R1CSError> {
                        let mut v = Verifier::new(Transcript::new(b"program"));
                        on_verifier(&mut v, &prog, &model, &comms)?;
                        Ok(v)
                    };
                    let verdict = (|| -> Result<_, R1CSError> {
                        let p = R1CSProof::<C>::from_bytes(&b)?;
                        v()?.verify(&p, &g.pc, &g.bp)?;
                        Ok(p)
                    })();
                    out.push(("verdict", format!("{:?}", verdict.as_ref().err()).into_bytes()));
                    if let Ok(p) = R1CSProof::<C>::from_bytes(&b) {
                        if let Ok(t) = v().and_then(|v| v.verification_scalars_and_points(&p)) {
                            vts.push(t);
                        }
                    }
                }
            }
            if j.kind == 8 {
                out.push(("batch verdict", format!("{:?}", batch_verify(vts, &g.pc, &g.bp).err()).into_bytes()));
            }
        }
        4 | 5 => {
            let h = 1 + r.below(if slow { 1 } else { 3 }) as usize;
            let h = (1..=h).rev().find(|h| fits::<Y>(L, M, *h) > 0).unwrap_or(1);
            let n = (M + r.below(40) as usize).min(L.pow(h as u32)).max(M);
            let prm = Y::params();
            let set = leaves::<Y>(n, r.next());
            let tree = Tree::<Y, L, M>::from_set(&set, prm, Some(h));
            let label: &'static [u8] = b"job";
            let mut er = EdgeRng::new();
            if j.kind == 4 {
                let idx = [r.below(n as u64) as usize];
                if let Ok((a, b, p, s)) = prove::<Y, L, M>(&tree, &idx, label, &mut er, prm) {
                    put(&mut out, "proof", &a);
                    put(&mut out, "proof", &b);
                    put(&mut out, "path", &p[0]);
                    put(&mut out, "scalars", &s);
                    let v = verify::<Y, L, M>(&tree, &p, &a, &b, label, r.below(2) == 0, prm);
                    out.push(("verdict", format!("{v:?}").into_bytes()));
                }
            } else {
                let first = r.below(n as u64) as usize;
                let idx: [usize; M] = std::array::from_fn(|i| (first + i) % n);
                if let Ok((a, b, p, s)) = mprove::<Y, L, M>(&tree, &[idx], label, &mut er, prm) {
                    put(&mut out, "proof", &a);
                    put(&mut out, "proof", &b);
                    put(&mut out, "path", &p[0]);
                    put(&mut out, "scalars", &s[0].to_vec());
                    let v = mverify::<Y, L, M>(&tree, &p, &a, &b, label, r.below(2) == 0, prm);
                    out.push(("verdict", format!("{v:?}").into_bytes()));
                }
            }
        }
        _ => {
            let prm = Y::params();
            let sp = sig_params::<G>(r.next());
            let k = keys::<G>(&sp, r.next());
            put(&mut out, "key", &k.pk);
            let v = r.next() >> r.below(64);
            if j.kind == 6 {
                if let Ok((c, b)) = mint::<Y, G>(v, &k, 0, &sp, prm, &mut Seeded::new(r.next())) {
                    out.push(("coin", c.bytes()));
                    out.push(("mint", b.clone()));
                    out.push(("verdict", format!("{:?}", check_mint::<Y>(&b, prm)).into_bytes()));
                }
            } else {
                let mut g = Seeded::new(r.next());
                let w = r.next() >> 1;
                let coins: [Owned<Y, G>; 2] = [Owned::new(v >> 1, &k, 0, &sp, prm, &mut g), Owned::new(w, &k, 0, &sp, prm, &mut g)];
                let h = if fits::<Y>(L, 2, 2) >= 2 && !slow { 2 } else { 1 };
                let n = 2 + r.below(L.pow(h) as u64 - 1) as usize;
                let mut set = leaves::<Y>(n, r.next());
                let a = r.below(n as u64) as usize;
                let b = (a + 1 + r.below(n as u64 - 1) as usize) % n;
                set[a] = coins[0].commitment;
                set[b] = coins[1].commitment;
                let tree = Tree::<Y, L, 1>::from_set(&set, prm, Some(h as usize));
                let t = (v >> 1) as u128 + w as u128;
                let v0 = t.min(u64::MAX as u128) as u64;
                let tx = pour::<Y, G, L>(&tree, [&coins[0].spend(a, &k, &sp), &coins[1].spend(b, &k, &sp)], [v0, (t - v0 as u128) as u64], [k.pk; 2], &sp, prm, &mut Seeded::new(r.next()));
                let ok = check_pours::<Y, G, L>(&[(&tree, &tx)], POUR, &sp, prm);
                out.push(("verdict", format!("{:?}", ok.err()).into_bytes()));
                out.push(("transaction", tx));
            }
        }
    }
    out
}
/// Something that goes wrong on purpose.
fn failing(seed: u64) {
    let mut r = Rng64::new(seed);
    let prm = T61::params();
    match r.below(4) {
        0 => {
            // an index that is no leaf
            let t = Tree::<T61, 2, 2>::from_set(&leaves::<T61>(3, r.next()), prm, None);
            let _ = prove::<T61, 2, 2>(&t, &[3], b"job", &mut EdgeRng::new(), prm);
        }
        1 => {
            // too few generators
            let g = ctsim::toy::t61::EvenA::gens();
            let few = BulletproofGens::new(2, 1);
            let mut p = Prover::new(&g.pc, Transcript::new(b"program"));
            for _ in 0..9 {
                let _ = p.allocate(Some(1u64.into()));
            }
            let _ = p.prove(&few);
        }
        2 => {
            let b: Vec<u8> = (0..r.below(600)).map(|_| r.next() as u8).collect();
            let _ = R1CSProof::<ctsim::toy::t61::EvenA>::from_bytes(&b);
            let _ = parse_tx::<T61, GroupOf<T61>>(&b);
        }
        _ => {
            // a proof of something false
            let g = ctsim::toy::t61::EvenA::gens();
            let mut p = Prover::new(&g.pc, Transcript::new(b"program"));
            let (c, v) = p.commit(3u64.into(), 4u64.into());
            p.constrain(v + Variable::One(Default::default()));
            if let Ok(x) = p.prove(&g.bp) {
                let mut v = Verifier::new(Transcript::new(b"program"));
                let var = v.commit(c);
                v.constrain(var + Variable::One(Default::default()));
                let _ = v.verify(&x, &g.pc, &g.bp);
            }
        }
    }
}
fn digest(x: &Items) -> u64 {
    let mut b = vec![];
    for (n, v) in x {
        b.extend(hash_str(n).to_le_bytes());
        b.extend(hash_bytes(v).to_le_bytes());
    }
    hash_bytes(&b)
}
fn differ(a: &Items, b: &Items) -> String {
    for (x, y) in a.iter().zip(b) {
        if x != y {
            return format!("{}: {:02x?}… and {:02x?}…", x.0, &x.1[..x.1.len().min(24)], &y.1[..y.1.len().min(24)]);
        }
    }
    format!("{} and {} items", a.len(), b.len())
}
fn spec(s: &mut Sim, kind: u64) -> Spec {
    Spec { kind, cfg: match s.choose("configuration", 120) {
        0..=59 => 0,
        60..=89 => 6,
        90..=104 => 9,
        105..=118 => 10,
        _ => 11,
    }, seed: s.seed("job") }
}
/// The job as a task of its own beside another.
fn beside(j: &Spec, other: impl FnOnce() + Send) -> Items {
    simctx::join(true, |_| job(j), |_| other()).0
}
fn run(s: &mut Sim) -> Res {
    let kind = s.stratum("job", KINDS);
    let j = spec(s, kind);
    s.note(format!("{} {j:?}", NAMES[kind as usize]));
    s.nontrivial = true;
    let mut env = s.env("first");
    env.sched = simctx::SchedCfg::serial(0);
    if s.choose("random source faults", 3) == 1 {
        let at = s.small("fault at", 200);
        env.faults.push(RngFault::Flip { stream: 0, at });
    }
    let base = s.party("first", &env, || beside(&j, || ())).ok("first")?;
    let want = digest(&base);
    for _ in 0..1 + s.choose("more", 3) {
        let what = s.choose("circumstances", 5);
        for _ in 0..s.choose("before", 3) {
            let e = s.env("before");
            if s.choose("failing", 3) == 0 {
                let x = s.seed("failing job");
                s.fault("failing job before");
                let _ = s.party("before", &e, || failing(x));
            } else {
                let k = s.choose("job before", KINDS);
                let mut o = spec(s, k);
                if s.choose("same configuration", 2) == 1 {
                    o.cfg = j.cfg;
                }
                s.count("jobs before");
                let _ = s.party("before", &e, || job(&o));
            }
        }
        let mut e = s.env("again");
        e.rng_seed = env.rng_seed;
        e.faults = env.faults.clone();
        s.state(hash_str(&format!("{kind} {} {what} {}", j.cfg, e.sched.workers)));
        let got = if what < 2 {
            let k = s.choose("job beside", KINDS + 1);
            let mut o = spec(s, k);
            if s.choose("same configuration", 2) == 1 {
                o.cfg = j.cfg;
            }
            s.fault("unrelated job interleaved");
            let x = s.seed("failing job");
            s.party("again", &e, || {
                beside(&j, || {
                    if k == KINDS {
                        let _ = std::panic::catch_unwind(|| failing(x));
                    } else {
                        job(&o);
                    }
                })
            })
        } else {
            s.party("again", &e, || beside(&j, || ()))
        };
        let threads = got.stats.threads;
        let got = got.ok("again")?;
        if threads > 0 {
            s.count("jobs spread over tasks");
        }
        ensure!(got == base, "differs", "{} {j:?}: other results with {} workers: {}", NAMES[kind as usize], e.sched.workers, differ(&base, &got));
        s.count("repetitions compared");
    }
    if env.faults.is_empty() {
        let mut exes = vec![];
        if s.choose("fresh process", 4) == 1 {
            exes.push((std::env::current_exe().ok(), "fresh process"));
        }
        if kind != 7 && s.choose("build without threads", 4) == 1 {
            exes.push((std::env::var("CTSIM_SERIAL").ok().map(Into::into), "build without threads"));
        }
        for (exe, what) in exes {
            let Some(exe) = exe else { continue };
            let e = s.env("process");
            let o = std::process::Command::new(exe)
                .args(["C18", "--probe"])
                .args([j.kind, j.cfg, j.seed, env.rng_seed, e.sched.seed, e.sched.workers as u64, e.sched.thread_permille as u64, e.sched.switch_permille as u64].map(|x| x.to_string()))
                .stderr(std::process::Stdio::null())
                .output();
            let Ok(o) = o else { continue };
            let t = String::from_utf8_lossy(&o.stdout).to_string();
            let Some(got) = t.trim().strip_prefix("PROBE ") else {
                use std::os::unix::process::ExitStatusExt;
                if o.status.signal() == Some(9) {
                    s.count("process killed from outside");
                    continue;
                }
                return violation("process", format!("{} {j:?} fails in a {what}: {:?}", NAMES[kind as usize], o.status));
            };
            s.fault(what);
            let all: Vec<&str> = got.split(' ').collect();
            let same = all[0] == format!("{want:x}");
            if !same {
                let k = all[1..].iter().zip(&base).position(|(h, x)| *h != format!("{:x}", hash_bytes(&x.1)));
                let name = k.map(|k| base[k].0).unwrap_or("number of items");
                return violation("process-differs", format!("{} {j:?}: other results in a {what}: {name}", NAMES[kind as usize]));
            }
        }
    }
    Ok(())
}
/// `--probe`: do one job and print the digests of its results.
pub fn probe(a: &[String]) {
    let n: Vec<u64> = a.iter().filter_map(|x| x.parse().ok()).collect();
    let j = Spec { kind: n[0], cfg: n[1], seed: n[2] };
    let saved = simctx::install(simctx::Run {
        rng_seed: n[3],
        sched: simctx::SchedCfg { seed: n[4], workers: n[5] as usize, thread_permille: n[6] as u32, thread_budget: 6, switch_permille: n[7] as u32 },
        forks: vec![],
        faults: vec![],
        log: false,
    });
    let r = beside(&j, || ());
    simctx::uninstall(saved);
    let h: Vec<String> = r.iter().map(|x| format!("{:x}", hash_bytes(&x.1))).collect();
    println!("PROBE {:x} {}", digest(&r), h.join(" "));
}
