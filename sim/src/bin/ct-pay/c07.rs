//! C07: everything published is blinded by randomness of its own.
//!
//! Honest provers are rewound: same random source, other challenges after their last blinded
//! message.  Their answers give away all their blindings and masks, which have to be nonzero,
//! unrelated to each other, to everything known and to those of other runs, and uniform.
use crate::pay::*;
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{BigInteger, Field, PrimeField, Zero};
use ark_serialize::CanonicalSerialize;
use bulletproofs::r1cs::*;
use ctsim::circ::witness_of;
use ctsim::engine::*;
use ctsim::extract::*;
use ctsim::prog::*;
use ctsim::prog::Model;
use ctsim::tree::*;
use ctsim::treeutil::*;
use ctsim::wire::Parts;
use ctsim::{ensure, on_batch_tree, on_curve, on_tree};
use merlin::Transcript;
use simctx::{Fork, Op};
use std::collections::HashMap;

pub const CHECK: Check = Check {
    id: "C07",
    level: "exploration",
    run,
    quick_runs: 800,
    thorough_runs: 100_000,
    rule: "one evaluation = one honest job (a random program's proof, a plain or batched membership proof, a set of coins, a payment) done under several random sources and, rewound, under many different challenges, from which all its blindings and masks are recovered by linear algebra; distinct by digest of all choices",
    real: crate::REAL,
    stubs: crate::STUBS,
    assumptions: &[
        "values that agree by accident do so with probability below 2^-40 per run",
        "blindings of commitments that the caller chooses are the caller's",
        "how the operating system's randomness is made is outside (the source is the simulator's)",
    ],
};
fn run(s: &mut Sim) -> Res {
    match s.stratum("kind", 40) {
        0..=23 => on_curve!(s, program(s)),
        24..=26 => spread::<ctsim::toy::t61::EvenA>(s),
        27 => spread::<ctsim::toy::t90::OddA>(s),
        28..=30 => on_tree!(s, path(s)),
        31..=33 => on_batch_tree!(s, multi(s)),
        34 | 35 => on_tree!(s, scalars(s)),
        36 | 37 => match s.choose("coin curve", 3) {
            0 => coins::<T61, GroupOf<T61>>(s),
            1 => coins::<T90, GroupOf<T90>>(s),
            _ => coins::<T127, GroupOf<T127>>(s),
        },
        _ => match s.choose("payment over", 3) {
            0 => payment::<T61, GroupOf<T61>, 2>(s),
            1 => payment::<T61, GroupOf<T90>, 4>(s),
            _ => payment::<T90, GroupOf<T90>, 3>(s),
        },
    }
}

// ---- comparing -------------------------------------------------------------------------------
type Named<F> = Vec<(String, F)>;
fn limbs<F: PrimeField>(x: &F) -> Vec<u64> {
    let mut v = x.into_bigint().as_ref().to_vec();
    while v.last() == Some(&0) {
        v.pop();
    }
    v
}
/// Secret scalars of one run: nonzero, and no simple relation between two of them or to
/// something else that is known.
fn unrelated<F: PrimeField>(fresh: &Named<F>, known: &Named<F>, factors: &[F]) -> Res {
    for (n, x) in fresh {
        ensure!(!x.is_zero(), "unblinded", "{n} is zero");
    }
    let mut at: HashMap<F, &str> = HashMap::new();
    for (n, x) in fresh {
        if let Some(o) = at.insert(*x, n) {
            return violation("shared", format!("{n} and {o} are the same random scalar"));
        }
    }
    for (n, x) in known {
        if let Some(o) = at.get(x) {
            return violation("known", format!("{o} is {n}"));
        }
    }
    let two = F::from(2u64);
    let mut fs = vec![("-1".to_string(), -F::ONE), ("2".into(), two), ("-2".into(), -two)];
    fs.extend(factors.iter().enumerate().map(|(i, c)| (format!("challenge {i}"), *c)));
    for (n, x) in fresh {
        for (fname, f) in &fs {
            if let Some(o) = at.get(&(*x * f)) {
                return violation("shared", format!("{o} is {n} times {fname}"));
            }
        }
    }
    // sums and products, differences that are known
    let have: HashMap<F, &str> = known.iter().map(|(n, x)| (*x, &n[..])).collect();
    if fresh.len() <= 40 {
        for (i, (n, x)) in fresh.iter().enumerate() {
            for (m, y) in &fresh[..i + 1] {
                for (z, op) in [(*x + y, "plus"), (*x - y, "minus"), (*x * y, "times")] {
                    if let Some(o) = at.get(&z).filter(|_| !z.is_zero()) {
                        return violation("shared", format!("{o} is {n} {op} {m}"));
                    }
                }
                for z in [*x - y, *y - x, *x + y].into_iter().filter(|z| !z.is_zero()) {
                    if let Some(o) = have.get(&z) {
                        return violation("shared", format!("{n} and {m} differ by {o}"));
                    }
                }
            }
        }
    }
    Ok(())
}
fn disjoint<T: std::hash::Hash + Eq>(a: Vec<(String, T)>, b: Vec<(String, T)>) -> Res {
    let m: HashMap<T, String> = a.into_iter().map(|(n, x)| (x, n)).collect();
    for (n, x) in b {
        if let Some(o) = m.get(&x) {
            return violation("repeats", format!("{n} of one run is {o} of a run with another random source"));
        }
    }
    Ok(())
}
/// Many samples of one scalar that should be uniform.
pub fn uniform_looking<F: PrimeField>(name: &str, xs: &[F]) -> Res {
    if xs.len() < 60 {
        return Ok(());
    }
    let bits = F::MODULUS_BIT_SIZE as usize;
    let half = F::MODULUS_MINUS_ONE_DIV_TWO;
    let large = xs.iter().filter(|x| x.into_bigint() > half).count();
    ensure!(large > 0 && large < xs.len(), "range", "{name}: {large} of {} samples are in the upper half", xs.len());
    let bs: Vec<Vec<bool>> = xs.iter().map(|x| x.into_bigint().to_bits_le()).collect();
    for i in 0..bits - 2 {
        let k = bs.iter().filter(|b| b[i]).count();
        ensure!(k > 0 && k < xs.len(), "range", "{name}: bit {i} is always the same");
    }
    Ok(())
}
/// Everything in a proof that has to look random, by its bytes.
fn published<C: AffineRepr>(what: &str, p: &Parts<C>, empty: bool) -> Vec<(String, Vec<u8>)> {
    let mut p = p.clone();
    let mut o = vec![];
    for (n, x) in p.points() {
        if !x.is_zero() && !(empty && n.starts_with(['l', 'r'])) {
            let mut b = vec![];
            x.serialize_compressed(&mut b).unwrap();
            o.push((format!("{what} {n}"), b));
        }
    }
    for (n, x) in p.scalars() {
        if !(empty && (n.starts_with("ab") || n == "s[0]")) {
            let mut b = vec![];
            x.serialize_compressed(&mut b).unwrap();
            o.push((format!("{what} {n}"), b));
        }
    }
    o
}
/// A proof that may be about no gates at all.
fn light<C: AffineRepr>(p: &Parts<C>) -> bool {
    p.l.is_empty()
}
fn once<T: std::hash::Hash + Eq + Clone>(v: &[(String, T)]) -> Res {
    let mut m: HashMap<T, &str> = HashMap::new();
    for (n, x) in v {
        if let Some(o) = m.insert(x.clone(), n) {
            return violation("repeats", format!("{n} and {o} are equal"));
        }
    }
    Ok(())
}
fn pbytes<T: CanonicalSerialize>(x: &T) -> Vec<u8> {
    let mut b = vec![];
    x.serialize_compressed(&mut b).unwrap();
    b
}
/// Differences between published points and what they hide: not neutral, no two related.
fn residues<C: AffineRepr>(v: &[(String, C)]) -> Res {
    let mut m: HashMap<C, &str> = HashMap::new();
    for (n, x) in v {
        ensure!(!x.is_zero(), "unblinded", "{n} is published as it is");
        if let Some(o) = m.get(x) {
            return violation("shared", format!("{n} and {o} are blinded by the same scalar"));
        }
        let neg = (-x.into_group()).into_affine();
        if let Some(o) = m.get(&neg) {
            return violation("shared", format!("{n} and {o} are blinded by opposite scalars"));
        }
        m.insert(*x, n);
    }
    Ok(())
}

// ---- rewinding -------------------------------------------------------------------------------
/// What a job publishes: proofs on up to two curves.
struct Pub<A: AffineRepr, B: AffineRepr, X> {
    a: Parts<A>,
    b: Option<Parts<B>>,
    x: X,
}
/// A job done once, rewound often enough for the asked recoveries.
#[allow(clippy::type_complexity)]
fn rewind<A: AffineRepr, B: AffineRepr, X>(
    s: &mut Sim,
    env: &Env,
    vectors: bool,
    mut job: impl FnMut() -> Option<Pub<A, B, X>>,
) -> Res<Option<(Pub<A, B, X>, Option<(Taken<A::ScalarField>, Vec<A::ScalarField>)>, Option<(Taken<B::ScalarField>, Vec<B::ScalarField>)>)>> {
    let o = s.party("prover", env, &mut job);
    let Some(first) = o.res.map_err(|e| Stop::Violation("prover-panic".into(), e))? else {
        s.count("prover refuses");
        return Ok(None);
    };
    let log = o.log;
    let at_a = locate(&log, &first.a);
    let at_b = first.b.as_ref().and_then(|b| locate(&log, b));
    let mut n = needed(&first.a, vectors);
    if let Some(b) = &first.b {
        n = n.max(needed(b, vectors));
    }
    let answer = |p: &Pub<A, B, X>, log: &[Op]| {
        (
            at_a.as_ref().map(|a| Answer { parts: p.a.clone(), chal: challenges(log, a.t) }),
            at_b.as_ref().and_then(|b| p.b.clone().map(|q| Answer { parts: q, chal: challenges(log, b.t) })),
        )
    };
    let (mut ra, mut rb) = (vec![], vec![]);
    let (x, y) = answer(&first, &log);
    ra.extend(x);
    rb.extend(y);
    for k in 1..n as u64 {
        let mut e = env.clone();
        for at in [&at_a, &at_b].into_iter().flatten() {
            e.forks.push(Fork { t: at.t, at: at.from, salt: k });
        }
        let saved = s.trace.len();
        let o = s.party("prover, rewound", &e, &mut job);
        s.trace.truncate(saved);
        s.fault("rewound prover");
        let Ok(Some(p)) = o.res else { return violation("prover-panic", "a rewound prover fails") };
        let (x, y) = answer(&p, &o.log);
        ra.extend(x);
        rb.extend(y);
    }
    s.note(format!("rewound {} times", n - 1));
    let ta = at_a.and_then(|a| take(&a, &ra, vectors).map(|t| (t, ra[0].chal[..a.before].to_vec())));
    let tb = at_b.and_then(|b| take(&b, &rb, vectors).map(|t| (t, rb[0].chal[..b.before].to_vec())));
    s.count(if ta.is_some() { "randomness recovered" } else { "randomness not recovered" });
    if first.b.is_some() {
        s.count(if tb.is_some() { "randomness recovered" } else { "randomness not recovered" });
    }
    Ok(Some((first, ta, tb)))
}
/// The blindings among what was recovered, without those the caller chose.
fn list<C: AffineRepr>(who: &str, p: &Parts<C>, t: &Taken<C::ScalarField>, callers: &[C::ScalarField], n: usize, phase2: bool) -> Res<Named<C::ScalarField>> {
    let mut out = vec![];
    let mut es = 0;
    for (d, e) in t.e.iter().enumerate() {
        if !e.is_zero() && !callers.contains(e) {
            out.push((format!("{who} blinding of the vectors at degree {d}"), *e));
            es += 1;
        }
    }
    ensure!(es >= 3, "unblinded", "{who}: only {es} of the three commitments to gate values and masks are blinded");
    let mut es = 0;
    for (d, e) in t.e2.iter().enumerate() {
        if !e.is_zero() {
            out.push((format!("{who} blinding of the second phase's vectors at degree {d}"), *e));
            es += 1;
        }
    }
    ensure!(!phase2 || es >= 3, "unblinded", "{who}: only {es} of the second phase's commitments are blinded");
    for (d, x) in t.tau.iter().enumerate() {
        if d != t.op && !(x.is_zero() && p.t[d].is_zero()) {
            out.push((format!("{who} blinding of coefficient {d}"), *x));
        }
    }
    for (i, x) in t.sl.iter().take(n).enumerate() {
        out.push((format!("{who} mask {i} of the left vector"), *x));
    }
    for (i, x) in t.sr.iter().take(n).enumerate() {
        out.push((format!("{who} mask {i} of the right vector"), *x));
    }
    Ok(out)
}
/// The same with the right vector's masks as they were drawn, if `y` is the challenge.
fn unscaled<F: Field>(l: &Named<F>, y: F) -> Named<F> {
    let Some(inv) = y.inverse() else { return l.clone() };
    let mut k = F::ONE;
    l.iter()
        .map(|(n, x)| {
            if n.ends_with("of the right vector") {
                let v = *x * k;
                k *= inv;
                (n.clone(), v)
            } else {
                (n.clone(), *x)
            }
        })
        .collect()
}

// ---- programs --------------------------------------------------------------------------------
struct Job<C: Crv> {
    prog: Prog<C::ScalarField>,
    model: Model<C::ScalarField>,
    n: usize,
    phase2: bool,
}
impl<C: Crv> Job<C> {
    fn new(shape: &Shape, seed: u64) -> Self {
        let prog = Prog::random(shape, seed);
        let model = Model::of(&prog, &[]);
        let g2 = prog.phase_two_gates();
        Job { n: model.circ.size() + g2, phase2: g2 > 0, prog, model }
    }
    fn callers(&self) -> Vec<C::ScalarField> {
        self.model.wit.vecs.iter().map(|v| v.blinding).collect()
    }
    fn known(&self) -> Named<C::ScalarField> {
        let w = &self.model.wit;
        let mut k = vec![];
        for (i, (v, b)) in w.v.iter().enumerate() {
            k.push((format!("committed value {i}"), *v));
            k.push((format!("the blinding of commitment {i}"), *b));
        }
        for (i, v) in w.vecs.iter().enumerate() {
            k.push((format!("the blinding of vector {i}"), v.blinding));
            k.extend(v.g.iter().enumerate().map(|(j, x)| (format!("coordinate {j} of vector {i}"), *x)));
        }
        for (n, l) in [("left", &w.l), ("right", &w.r), ("output", &w.o)] {
            k.extend(l.iter().enumerate().map(|(i, x)| (format!("{n} value of gate {i}"), *x)));
        }
        k.extend((0..64).map(|i| (format!("{i}"), C::ScalarField::from(i as u64))));
        k.extend((1..64).map(|i| (format!("-{i}"), -C::ScalarField::from(i as u64))));
        k
    }
    fn prove(&self) -> Option<Pub<C, C, ()>> {
        let g = C::gens();
        let mut p = Prover::new(&g.pc, Transcript::new(b"program"));
        on_prover(&mut p, &self.prog, &self.model, &g.bp).ok()?;
        let proof = p.prove(&g.bp).ok()?;
        Some(Pub { a: Parts::parse(&proof.to_bytes())?, b: None, x: () })
    }
}
fn program<C: Crv>(s: &mut Sim) -> Res {
    let slow = !C::NAME.starts_with('t');
    let mut shape = Shape::draw(s, if slow { 3 } else { 12 });
    shape.vecs.truncate(3);
    let job = Job::<C>::new(&shape, s.seed("program"));
    s.note(format!("{} {shape:?}", C::NAME));
    s.state(hash_str(&format!("{} {shape:?}", C::NAME)));
    s.nontrivial = job.n > 0;
    let op = 2 + 2 * shape.vecs.len();
    let vectors = (op + 2) * job.n.next_power_of_two() <= if slow { 16 } else { 80 };
    let env = s.env("prover");
    let Some((p1, t1, _)) = rewind(s, &env, vectors, || job.prove())? else { return Ok(()) };
    let el1 = published("proof", &p1.a, job.n == 0);
    once(&el1)?;
    let mut known = job.known();
    let callers = job.callers();
    let mut l1 = None;
    if let Some((t, chal)) = &t1 {
        let l = list("prover's", &p1.a, t, &callers, job.n, job.phase2)?;
        known.extend(chal.iter().enumerate().map(|(i, c)| (format!("challenge {i}"), *c)));
        unrelated(&l, &known, chal)?;
        for c in chal {
            unrelated(&unscaled(&l, *c), &known, &[])?;
        }
        s.add("blindings looked at", l.len() as u64);
        l1 = Some(l);
    }
    // another random source, the same or another secret
    let other = s.choose("other secrets", 2) == 1;
    let job2 = if other { Job::<C>::new(&shape, s.seed("other program")) } else { job };
    let env2 = s.env("prover again");
    let Some((p2, t2, _)) = rewind(s, &env2, vectors, || job2.prove())? else { return Ok(()) };
    disjoint(el1, published("proof", &p2.a, job2.n == 0))?;
    if let (Some(l1), Some((t, _))) = (l1, &t2) {
        let l2 = list("prover's", &p2.a, t, &job2.callers(), job2.n, job2.phase2)?;
        disjoint(l1.iter().map(|(n, x)| (n.clone(), -*x)).collect(), l2.clone())?;
        disjoint(l1, l2)?;
    }
    Ok(())
}
/// One small program under many random sources: no fixed relation, no unused bits.
fn spread<C: Crv>(s: &mut Sim) -> Res {
    let vecs = match s.choose("vector", 3) {
        0 => vec![],
        1 => vec![1],
        _ => vec![2],
    };
    let rand = if vecs.is_empty() && s.choose("second phase", 2) == 1 { vec![(1, 1)] } else { vec![] };
    let gates = s.choose("gates", 3) as usize;
    let shape = Shape { commits: s.choose("commits", 2) as usize, vecs, gates, cons: 1, singles: 0, msgs: 0, rand };
    let job = Job::<C>::new(&shape, s.seed("program"));
    s.note(format!("{} {shape:?}", C::NAME));
    s.state(hash_str(&format!("spread {} {shape:?}", C::NAME)));
    s.nontrivial = true;
    let callers = job.callers();
    let mut rows: Vec<Named<C::ScalarField>> = vec![];
    let mut chals = vec![];
    for _ in 0..64 {
        let env = Env::plain(s.seed("source"));
        let Some((p, t, _)) = rewind(s, &env, true, || job.prove())? else { return Ok(()) };
        s.trace.clear();
        let Some((t, chal)) = t else { return Ok(()) };
        rows.push(list("prover's", &p.a, &t, &callers, job.n, job.phase2)?);
        chals.push(chal);
    }
    let k = rows[0].len();
    ensure!(rows.iter().all(|r| r.len() == k), "shape", "{}: different numbers of blindings in different runs of one program", C::NAME);
    for i in 0..k {
        let col: Vec<_> = rows.iter().map(|r| r[i].1).collect();
        uniform_looking(&rows[0][i].0, &col)?;
    }
    // the right masks may be related once the challenge is divided out
    for c in 0..=chals[0].len() {
        let m: Vec<Vec<C::ScalarField>> = rows
            .iter()
            .zip(&chals)
            .map(|(r, ch)| {
                let r = if c == 0 { r.clone() } else { unscaled(r, ch[c - 1]) };
                let mut v: Vec<_> = r.into_iter().map(|x| x.1).collect();
                v.push(C::ScalarField::ONE);
                v
            })
            .collect();
        let r = rank(m);
        ensure!(
            r == (k + 1).min(64),
            "related", "{} {shape:?}: the {k} blindings of a proof span only {} dimensions", C::NAME, r as i64 - 1
        );
    }
    s.add("independent blindings", k as u64);
    Ok(())
}

// ---- membership ------------------------------------------------------------------------------
/// Points of a path with what they hide.
struct Shown<Y: Cyc> {
    even: Vec<(String, Ev<Y>, Ev<Y>)>,
    odd: Vec<(String, Od<Y>, Od<Y>)>,
    rs: Vec<Y::F0>,
    /// published non-leaf commitments
    inner: (usize, usize),
}
fn nodes<Y: Cyc, const L: usize, const M: usize>(tree: &Tree<Y, L, M>, idx: &[usize], prm: &Prm<Y>) -> (Vec<Ev<Y>>, Vec<Od<Y>>, Vec<Ev<Y>>) {
    let w: Vec<_> = idx.iter().enumerate().map(|(t, i)| tree.select_and_rerandomize_prover_witness(*i, t, prm)).collect();
    let no = w[0].odd_internal_nodes.len();
    let ev = (0..no - 1).map(|k| w.iter().map(|w| w.odd_internal_nodes[k].child_witness.into_group()).sum::<<Ev<Y> as AffineRepr>::Group>().into_affine()).collect();
    let od = (0..w[0].even_internal_nodes.len()).map(|k| w.iter().map(|w| w.even_internal_nodes[k].child_witness.into_group()).sum::<<Od<Y> as AffineRepr>::Group>().into_affine()).collect();
    (ev, od, w.iter().map(|w| w.odd_internal_nodes[no - 1].child_witness).collect())
}
fn shown<Y: Cyc>(out: &mut Shown<Y>, k: usize, n: (Vec<Ev<Y>>, Vec<Od<Y>>, Vec<Ev<Y>>), even: &[Ev<Y>], odd: &[Od<Y>], leaf: &[Ev<Y>]) -> Res {
    ensure!(even.len() == n.0.len() && odd.len() == n.1.len(), "shape", "a path of {} and {} commitments", even.len(), odd.len());
    for (i, (p, h)) in even.iter().zip(&n.0).enumerate() {
        out.even.push((format!("path {k} even level {i}"), *p, *h));
    }
    for (i, (p, h)) in odd.iter().zip(&n.1).enumerate() {
        out.odd.push((format!("path {k} odd level {i}"), *p, *h));
    }
    for (i, (p, h)) in leaf.iter().zip(&n.2).enumerate() {
        out.even.push((format!("path {k} leaf {i}"), *p, *h));
    }
    out.inner.0 += even.len();
    out.inner.1 += odd.len();
    Ok(())
}
fn residual<C: AffineRepr>(v: &[(String, C, C)]) -> Vec<(String, C)> {
    v.iter().map(|(n, p, h)| (n.clone(), (p.into_group() - h.into_group()).into_affine())).collect()
}
type Two<Y> = Pub<Ev<Y>, Od<Y>, Shown<Y>>;
fn judge<Y: Cyc>(s: &mut Sim, env: [Env; 2], mut job: impl FnMut() -> Option<Result<Two<Y>, Stop>>, extra: usize, known: &Named<Y::F0>) -> Res {
    let mut bad = None;
    let mut first = None;
    for (i, env) in env.iter().enumerate() {
        let mut j = || match job()? {
            Ok(x) => Some(x),
            Err(e) => {
                bad = Some(e);
                None
            }
        };
        let (p, ta, tb) = if i == 0 {
            let r = rewind(s, env, false, &mut j)?;
            if let Some(e) = bad {
                return Err(e);
            }
            let Some(x) = r else { return Ok(()) };
            x
        } else {
            let o = s.party("prover again", env, &mut j).ok("prover")?;
            if let Some(e) = bad {
                return Err(e);
            }
            let Some(p) = o else { return Ok(()) };
            (p, None, None)
        };
        let (re, ro) = (residual(&p.x.even), residual(&p.x.odd));
        residues(&re)?;
        residues(&ro)?;
        let mut el = published("even proof", &p.a, light(&p.a));
        el.extend(published("odd proof", p.b.as_ref().unwrap(), light(p.b.as_ref().unwrap())));
        once(&el)?;
        el.extend(p.x.even.iter().map(|(n, p, _)| (n.clone(), pbytes(p))));
        el.extend(p.x.odd.iter().map(|(n, p, _)| (n.clone(), pbytes(p))));
        el.extend(re.iter().map(|(n, p)| (format!("blinding of {n}"), pbytes(p))));
        el.extend(ro.iter().map(|(n, p)| (format!("blinding of {n}"), pbytes(p))));
        if let Some(f) = first.take() {
            disjoint(f, el)?;
        } else {
            first = Some(el);
        }
        // recovered scalars, on both curves: as numbers
        let mut ints: Vec<(String, Vec<u64>)> = vec![];
        if let Some((t, chal)) = &ta {
            let l = list("even prover's", &p.a, t, &[], 0, false)?;
            let n = t.e.iter().filter(|e| !e.is_zero()).count();
            ensure!(n >= 3 + p.x.inner.0 + extra, "unblinded", "the even prover opens {} commitments with {n} blindings", p.x.inner.0 + extra);
            let mut all = l.clone();
            all.extend(p.x.rs.iter().enumerate().map(|(i, r)| (format!("rerandomization of leaf {i}"), *r)));
            unrelated(&all, known, chal)?;
            s.add("blindings looked at", l.len() as u64);
            ints.extend(all.iter().map(|(n, x)| (n.clone(), limbs(x))));
        }
        if let (Some((t, chal)), Some(b)) = (&tb, &p.b) {
            let l = list("odd prover's", b, t, &[], 0, false)?;
            let n = t.e.iter().filter(|e| !e.is_zero()).count();
            ensure!(n >= 3 + p.x.inner.1, "unblinded", "the odd prover opens {} commitments with {n} blindings", p.x.inner.1);
            unrelated(&l, &vec![], chal)?;
            s.add("blindings looked at", l.len() as u64);
            ints.extend(l.iter().map(|(n, x)| (n.clone(), limbs(x))));
        }
        once(&ints).map_err(|e| match e {
            Stop::Violation(_, m) => Stop::Violation("shared".into(), m),
            x => x,
        })?;
    }
    Ok(())
}
fn max_height<Y: Cyc>(l: usize, m: usize) -> usize {
    let max = if slow::<Y>() { 2 } else { [5, 4, 3][l.min(4) - 2] };
    (1..=max).rev().find(|h| fits::<Y>(l, m, *h) > 0).unwrap_or(1)
}
fn some_tree<Y: Cyc, const L: usize, const M: usize>(s: &mut Sim) -> (Tree<Y, L, M>, usize) {
    let mut sh = TShape::draw(s, L, max_height::<Y>(L, M), 120);
    if sh.n < M {
        sh.n = M;
    }
    let set = leaves::<Y>(sh.n, sh.seed);
    let t = Tree::<Y, L, M>::from_set(&set, Y::params(), sh.extra);
    s.note(format!("{} L={L} M={M} {} leaves height {}", Y::NAME, sh.n, t.height()));
    s.state(hash_str(&format!("{} {L} {M} {} {}", Y::NAME, sh.n, t.height())));
    s.nontrivial = true;
    (t, sh.n)
}
fn path<Y: Cyc, const L: usize, const M: usize>(s: &mut Sim) -> Res {
    let prm = Y::params();
    let (tree, n) = some_tree::<Y, L, M>(s);
    let rounds = (1 + s.choose("proofs", 2) as usize).min(fits::<Y>(L, M, tree.height())).max(1);
    let same = s.choose("same leaf", 2) == 0;
    let i0 = s.choose("leaf", n as u64) as usize;
    let idx: Vec<usize> = (0..rounds).map(|_| if same { i0 } else { s.choose("leaf", n as u64) as usize }).collect();
    let job = || -> Option<Result<Two<Y>, Stop>> {
        let (a, b, paths, rs) = prove::<Y, L, M>(&tree, &idx, b"paths", &mut EdgeRng::new(), prm).ok()?;
        let mut x = Shown { even: vec![], odd: vec![], rs, inner: (0, 0) };
        for (k, p) in paths.iter().enumerate() {
            let n = nodes::<Y, L, M>(&tree, &idx[k..k + 1], prm);
            if let Err(e) = shown::<Y>(&mut x, k, n, &p.even_commitments, &p.odd_commitments, &[p.selected_commitment]) {
                return Some(Err(e));
            }
        }
        Some(Ok(Pub { a: Parts::parse(&a.to_bytes())?, b: Some(Parts::parse(&b.to_bytes())?), x }))
    };
    let env = [s.env("prover"), s.env("prover again")];
    judge::<Y>(s, env, job, 0, &vec![])
}
fn multi<Y: Cyc, const L: usize, const M: usize>(s: &mut Sim) -> Res {
    let prm = Y::params();
    let (tree, n) = some_tree::<Y, L, M>(s);
    let mut idx = [0usize; M];
    let start = s.choose("leaf", n as u64) as usize;
    for (j, x) in idx.iter_mut().enumerate() {
        *x = (start + j) % n;
    }
    let job = || -> Option<Result<Two<Y>, Stop>> {
        let (a, b, paths, rs) = mprove::<Y, L, M>(&tree, &[idx], b"paths", &mut EdgeRng::new(), prm).ok()?;
        let p = &paths[0];
        let mut x = Shown { even: vec![], odd: vec![], rs: rs[0].to_vec(), inner: (0, 0) };
        let n = nodes::<Y, L, M>(&tree, &idx, prm);
        if let Err(e) = shown::<Y>(&mut x, 0, n, &p.even_commitments, &p.odd_commitments, &p.selected_commitments) {
            return Some(Err(e));
        }
        Some(Ok(Pub { a: Parts::parse(&a.to_bytes())?, b: Some(Parts::parse(&b.to_bytes())?), x }))
    };
    let env = [s.env("prover"), s.env("prover again")];
    judge::<Y>(s, env, job, 0, &vec![])
}
/// Rerandomizations of one path under many random sources.
fn scalars<Y: Cyc, const L: usize, const M: usize>(s: &mut Sim) -> Res {
    if slow::<Y>() {
        return Ok(());
    }
    let prm = Y::params();
    let (tree, n) = some_tree::<Y, L, M>(s);
    let batched = s.choose("batched", 2) == 1;
    let start = s.choose("leaf", n as u64) as usize;
    let mut idx = [0usize; M];
    for (j, x) in idx.iter_mut().enumerate() {
        *x = (start + j) % n;
    }
    let (mut ev, mut od): (Vec<Vec<Y::F0>>, Vec<Vec<Y::F1>>) = (vec![], vec![]);
    for _ in 0..64 {
        let env = Env::plain(s.seed("source"));
        let o = s.party("prover", &env, || {
            let mut ep: EvProver<Y> = Prover::new(&prm.even_parameters.pc_gens, Transcript::new(b"x"));
            let mut op: OdProver<Y> = Prover::new(&prm.odd_parameters.pc_gens, Transcript::new(b"x"));
            let mut rs = if batched {
                let (_, r) = tree.batched_select_and_rerandomize_prover_gadget(idx, &mut ep, &mut op, prm, &mut EdgeRng::new());
                r.to_vec()
            } else {
                vec![tree.select_and_rerandomize_prover_gadget(idx[0], 0, &mut ep, &mut op, prm, &mut EdgeRng::new()).1]
            };
            let (a, b) = (witness_of(&mut ep)?, witness_of(&mut op)?);
            rs.extend(a.vecs.iter().map(|v| v.blinding));
            Some((rs, b.vecs.iter().map(|v| v.blinding).collect::<Vec<_>>()))
        });
        s.trace.clear();
        let Some((a, b)) = o.ok("prover")? else { return Ok(()) };
        ev.push(a);
        od.push(b);
    }
    fn look<F: PrimeField>(what: &str, rows: &[Vec<F>]) -> Res {
        let k = rows[0].len();
        for i in 0..k {
            let col: Vec<F> = rows.iter().map(|r| r[i]).collect();
            uniform_looking(&format!("{what} {i}"), &col)?;
        }
        let m: Vec<Vec<F>> = rows.iter().map(|r| r.iter().copied().chain([F::ONE]).collect()).collect();
        let r = rank(m);
        ensure!(r == k + 1, "related", "{what}: {k} rerandomizations of a path span only {} dimensions", r as i64 - 1);
        Ok(())
    }
    look("even rerandomization", &ev)?;
    look("odd rerandomization", &od)?;
    s.add("independent blindings", (ev[0].len() + od[0].len()) as u64);
    Ok(())
}

// ---- coins and payments ----------------------------------------------------------------------
fn coins<Y: Cyc, G: Group>(s: &mut Sim) -> Res {
    let prm = Y::params();
    let sp = sig_params::<G>(s.seed("signature parameters"));
    let k = keys::<G>(&sp, s.seed("keys"));
    let value = amount(s);
    s.nontrivial = true;
    s.state(value ^ hash_str(Y::NAME));
    let one_source = s.choose("one source", 2) == 0;
    let seed = s.seed("source");
    let mut rng = Seeded::new(seed);
    let mut all: Vec<Owned<Y, G>> = vec![];
    for i in 0..64u64 {
        if !one_source {
            rng = Seeded::new(simctx::mix(seed, i));
        }
        all.push(Owned::new(value, &k, 0, &sp, prm, &mut rng));
    }
    let col = |f: &dyn Fn(&Owned<Y, G>) -> Vec<u8>, n: &str| -> Vec<(String, Vec<u8>)> { all.iter().enumerate().map(|(i, c)| (format!("{n} of coin {i}"), f(c))).collect() };
    once(&col(&|c| pbytes(&c.commitment), "commitment"))?;
    once(&col(&|c| pbytes(&c.public_key(&k, &sp)), "key"))?;
    let mut v = col(&|c| pbytes(&c.tag), "tag");
    v.extend(col(&|c| pbytes(&c.blinding), "blinding"));
    v.extend(col(&|c| pbytes(&c.pk_randomness), "key rerandomization"));
    v.push(("the key's tag".into(), pbytes(&element_from_bytes_stat::<Y::F0>(&pbytes(&k.pk)))));
    once(&v)?;
    let b: Vec<_> = all.iter().map(|c| c.blinding).collect();
    uniform_looking("blinding of coins", &b)?;
    let b: Vec<_> = all.iter().map(|c| c.pk_randomness).collect();
    uniform_looking("key rerandomization of coins", &b)?;
    for c in &all {
        ensure!(!c.blinding.is_zero() && !c.pk_randomness.is_zero(), "unblinded", "a coin without randomness");
        ensure!(limbs(&c.blinding) != limbs(&c.pk_randomness), "shared", "a coin's blinding is also its key's rerandomization");
    }
    s.add("coins looked at", 64);
    // with a proof: the coin's blinding is one more of the prover's
    let run = |s: &mut Sim, seed: u64| -> Res<_> {
        let env = s.env("minter");
        let mut own = None;
        let r = rewind(s, &env, false, || -> Option<Pub<Ev<Y>, Ev<Y>, ()>> {
            let (c, b) = mint::<Y, G>(value, &k, 0, &sp, prm, &mut Seeded::new(seed)).ok()?;
            let n = pbytes(&c.commitment).len();
            own = Some(c);
            Some(Pub { a: Parts::parse(&b[n..])?, b: None, x: () })
        })?;
        Ok(r.map(|(p, t, _)| (p, t, own.unwrap())))
    };
    let (x, y) = (s.seed("mint"), s.seed("other mint"));
    let (Some((p, t, c)), Some((p2, _, c2))) = (run(s, x)?, run(s, y)?) else { return Ok(()) };
    let all = |p: &Parts<Ev<Y>>, c: &Owned<Y, G>| {
        let mut v = published("mint", p, light(p));
        v.push(("commitment".into(), pbytes(&c.commitment)));
        v.push(("tag".into(), pbytes(&c.tag)));
        v.push(("blinding".into(), pbytes(&c.blinding)));
        v
    };
    disjoint(all(&p.a, &c), all(&p2.a, &c2))?;
    if let Some((t, chal)) = t {
        ensure!(t.e.contains(&c.blinding), "blinding", "the coin's blinding is not the one its mint opens");
        let l = list("minter's", &p.a, &t, &[c.blinding], 0, false)?;
        unrelated(&l, &vec![("the coin's blinding".into(), c.blinding), ("the coin's tag".into(), c.tag)], &chal)?;
    }
    Ok(())
}
fn payment<Y: Cyc, G: Group, const L: usize>(s: &mut Sim) -> Res {
    let prm = Y::params();
    let sp = sig_params::<G>(s.seed("signature parameters"));
    let who: Vec<Keys<G>> = (0..2).map(|_| keys::<G>(&sp, s.seed("keys"))).collect();
    let cs: Vec<Owned<Y, G>> = (0..2).map(|_| Owned::new(s.choose("value", 1000), &who[0], 0, &sp, prm, &mut Seeded::new(s.seed("coin")))).collect();
    let n = 2 + s.choose("other coins", if fits::<Y>(L, 1, 3) >= 2 { 7 } else { L as u64 }) as usize;
    let mut set = leaves::<Y>(n, s.seed("leaves"));
    let at = [0, 1 + s.choose("second", n as u64 - 1) as usize];
    for (c, i) in cs.iter().zip(at) {
        set[i] = c.commitment;
    }
    let tree = Tree::<Y, L, 1>::from_set(&set, prm, Some(1));
    let values = split(s, cs[0].value, cs[1].value);
    // both to one key, or to two
    let to = [who[1].pk, who[s.choose("second receiver", 2) as usize].pk];
    s.nontrivial = true;
    s.state(hash_str(&format!("{} {L} {n} {values:?}", Y::NAME)));
    let seeds = std::cell::Cell::new(s.seed("payer"));
    struct More<Y: Cyc, G: Group> {
        minted: [Ev<Y>; 2],
        nonces: [Vec<u8>; 2],
        zero: bool,
        _g: std::marker::PhantomData<G>,
    }
    let more: std::cell::RefCell<Vec<More<Y, G>>> = Default::default();
    let mut job = || -> Option<Result<Two<Y>, Stop>> {
        let ins: Vec<Spend<Y, G>> = (0..2).map(|i| cs[i].spend(at[i], &who[0], &sp)).collect();
        let b = pour::<Y, G, L>(&tree, [&ins[0], &ins[1]], values, to, &sp, prm, &mut Seeded::new(seeds.get()));
        let tx = parse_tx::<Y, G>(&b).ok()?;
        let p = pour_of::<Y, G, L>(&tx).ok()?;
        let mut x = Shown { even: vec![], odd: vec![], rs: vec![], inner: (0, 0) };
        for (k, q) in [&p.randomized_path_0, &p.randomized_path_1].into_iter().enumerate() {
            let n = nodes::<Y, L, 1>(&tree, &at[k..k + 1], prm);
            if let Err(e) = shown::<Y>(&mut x, k, n, &q.even_commitments, &q.odd_commitments, &[q.selected_commitment]) {
                return Some(Err(e));
            }
        }
        let g: G = sp.generator.into();
        let r = [
            g * tx.signature_prover_response_0 + p.pk0.into() * tx.signature_verifier_challenge_0,
            g * tx.signature_prover_response_1 + p.pk1.into() * tx.signature_verifier_challenge_1,
        ];
        more.borrow_mut().push(More {
            minted: [p.minted_coin_commitment_0, p.minted_coin_commitment_1],
            nonces: [pbytes(&r[0].into_affine()), pbytes(&r[1].into_affine())],
            zero: r[0].is_zero() || r[1].is_zero(),
            _g: Default::default(),
        });
        Some(Ok(Pub { a: Parts::parse(&p.even_proof.to_bytes())?, b: Some(Parts::parse(&p.odd_proof.to_bytes())?), x }))
    };
    let known: Named<Y::F0> = cs
        .iter()
        .enumerate()
        .flat_map(|(i, c)| [(format!("blinding of input {i}"), c.blinding), (format!("tag of input {i}"), c.tag)])
        .chain([("1".to_string(), Y::F0::ONE)])
        .collect();
    let envs = [Env::plain(s.seed("payer.rng")), Env::plain(s.seed("payer again.rng"))];
    // first run, rewound
    let mut bad = None;
    let mut j = || match job()? {
        Ok(x) => Some(x),
        Err(e) => {
            bad = Some(e);
            None
        }
    };
    let r = rewind(s, &envs[0], false, &mut j)?;
    if let Some(e) = bad {
        return Err(e);
    }
    let Some((p, ta, tb)) = r else { return Ok(()) };
    let m1 = more.borrow_mut().remove(0);
    more.borrow_mut().clear();
    seeds.set(s.seed("payer again"));
    let o = s.party("payer again", &envs[1], || job()).ok("prover")?;
    let Some(q) = o else { return Ok(()) };
    let q = q?;
    let m2 = more.borrow_mut().remove(0);
    let all = |p: &Two<Y>, m: &More<Y, G>| -> Res<Vec<(String, Vec<u8>)>> {
        residues(&residual(&p.x.even))?;
        residues(&residual(&p.x.odd))?;
        ensure!(!m.zero, "unblinded", "a signature without nonce");
        let mut el = published("even proof", &p.a, light(&p.a));
        el.extend(published("odd proof", p.b.as_ref().unwrap(), light(p.b.as_ref().unwrap())));
        el.extend(p.x.even.iter().map(|(n, p, _)| (n.clone(), pbytes(p))));
        el.extend(p.x.odd.iter().map(|(n, p, _)| (n.clone(), pbytes(p))));
        el.extend((0..2).map(|i| (format!("minted coin {i}"), pbytes(&m.minted[i]))));
        el.extend((0..2).map(|i| (format!("nonce of signature {i}"), m.nonces[i].clone())));
        once(&el)?;
        Ok(el)
    };
    let (a, b) = (all(&p, &m1)?, all(&q, &m2)?);
    disjoint(a, b)?;
    let mut ints = vec![];
    if let Some((t, chal)) = &ta {
        let l = list("even prover's", &p.a, t, &[], 0, false)?;
        let es: Vec<Y::F0> = t.e.iter().copied().filter(|e| !e.is_zero()).collect();
        ensure!(es.len() >= 3 + 4 + p.x.inner.0, "unblinded", "the payer opens {} commitments with {} blindings", 4 + p.x.inner.0, es.len());
        unrelated(&l, &known, chal)?;
        ints.extend(l.iter().map(|(n, x)| (n.clone(), limbs(x))));
        // the two inputs' rerandomizations differ
        for (i, x) in es.iter().enumerate() {
            for y in &es[..i] {
                let d = cs[0].blinding - cs[1].blinding;
                ensure!(*x - y != d && *y - x != d, "shared", "both inputs are rerandomized by the same scalar");
            }
        }
        // what a coin to a known key would look like without, or with the other's, key randomness
        let g: Vec<Ev<Y>> = prm.even_parameters.bp_gens.share(0).G(2).copied().collect();
        let h = prm.even_parameters.pc_gens.B_blinding;
        for i in 0..2 {
            let bare: Y::F0 = element_from_bytes_stat(&pbytes(&to[i]));
            let rest = m1.minted[i].into_group() - g[0] * Y::F0::from(values[i]);
            for e in &es {
                ensure!(rest != g[1] * bare + h * *e, "unblinded", "a coin's tag is that of the receiver's key itself");
            }
        }
        if to[0] == to[1] {
            let d = (m1.minted[0].into_group() - m1.minted[1].into_group()) - g[0] * (Y::F0::from(values[0]) - Y::F0::from(values[1]));
            for x in &es {
                for y in &es {
                    ensure!(d != h * (*x - y), "shared", "two coins of one payment have the same tag");
                }
            }
        }
        s.add("blindings looked at", l.len() as u64);
    }
    if let (Some((t, chal)), Some(b)) = (&tb, &p.b) {
        let l = list("odd prover's", b, t, &[], 0, false)?;
        unrelated(&l, &vec![], chal)?;
        ints.extend(l.iter().map(|(n, x)| (n.clone(), limbs(x))));
        s.add("blindings looked at", l.len() as u64);
    }
    once(&ints)?;
    s.count("payments looked at");
    Ok(())
}
