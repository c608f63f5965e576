//! C04: a batch is accepted exactly when each of its proofs verifies alone.
use crate::c02::{byz_proof, calibrate};
use ark_ff::{Field, PrimeField};
use ark_std::{One, Zero};
use bulletproofs::r1cs::*;
use ctsim::engine::*;
use ctsim::prog::*;
use ctsim::wire::Parts;
use ctsim::{ensure, on_curve};
use merlin::Transcript;
use simctx::{RngFault, Rng64};

pub const CHECK: Check = Check {
    id: "C04",
    level: "fault_enumeration",
    run,
    quick_runs: 5000,
    thorough_runs: 300_000,
    rule: "one evaluation = one batch of 0 to 40 proofs over equal or different programs, of which a chosen set is invalid: pairs whose errors are opposite or in a chosen ratio (made by the Byzantine prover), false statements, changed elements, exchanged commitments; verified alone, as a batch, and as a permuted batch under several verifier random sources and schedules. Non-trivial if the batch has at least two proofs; distinct by digest of all choices",
    real: crate::REAL,
    stubs: crate::STUBS,
    assumptions: &["the verifier's random weights are drawn from the simulated random source", "a wrong batch passes a sound verifier with probability at most about 2^-50"],
};

fn run(s: &mut Sim) -> Res {
    if s.choose("scenario family", 24) == 7 {
        return match s.choose("small group", 3) {
            0 => weights::<ctsim::tiny::c101::Curve>(s),
            1 => weights::<ctsim::tiny::c131::Curve>(s),
            _ => weights::<ctsim::tiny::c211::Curve>(s),
        };
    }
    on_curve!(s, go(s))
}

/// In a group of about a hundred elements the simulator can try every error a second proof could
/// cancel a first one's with.  Errors that cancel under every random source of the verifier are an
/// invalid batch that is always accepted.
fn weights<P: ark_ec::models::short_weierstrass::SWCurveConfig>(s: &mut Sim) -> Res
where
    P::ScalarField: ark_ff::PrimeField,
{
    use ark_ec::models::short_weierstrass::Affine;
    use bulletproofs::{BulletproofGens, PedersenGens};
    type C<P> = Affine<P>;
    let q = ctsim::tiny::modulus::<P::ScalarField>();
    let n = 2 + s.choose("batch size", 4) as usize;
    let at = s.choose("error at", 2) as usize;
    let single = s.choose("single proof", 4) == 3;
    s.note(format!("group of {q} elements, {}", if single { "one proof".into() } else { format!("batch of {n}") }));
    let pc = PedersenGens::<C<P>>::default();
    let bp = BulletproofGens::<C<P>>::new(8, 1);
    let mut gates: Vec<usize> = (0..n).map(|_| 1 + s.choose("gates", 5) as usize).collect();
    if single {
        // no rounds that a changed challenge would upset
        gates[0] = 1;
    }
    let env = Env::plain(s.seed("prover.rng"));
    type Made<P> = Vec<(R1CSProof<Affine<P>>, Affine<P>)>;
    let made = s.party("provers", &env, || -> Made<P> {
        gates
            .iter()
            .map(|g| {
                let mut p = Prover::new(&pc, Transcript::new(b"weights"));
                let (c, v) = p.commit(P::ScalarField::from(3u64), P::ScalarField::from(5u64));
                for _ in 0..*g {
                    let _ = p.multiply(v.into(), v.into());
                }
                (p.prove(&bp).unwrap(), c)
            })
            .collect()
    });
    // a challenge may be zero in so small a group
    let Ok(made) = made.res else { return Err(Stop::Skip("exceptional challenge")) };
    let verifier = |i: usize| {
        let mut v = Verifier::new(Transcript::new(b"weights"));
        let x = v.commit(made[i].1);
        for _ in 0..gates[i] {
            let _ = v.multiply(x.into(), x.into());
        }
        v
    };
    let k = n + 3;
    // rows: the cancelling errors under one random source each
    let mut rows: Vec<Vec<P::ScalarField>> = vec![];
    for _ in 0..k {
        let seed = s.seed("verifier.rng");
        let mut row = vec![P::ScalarField::one()];
        for j in 1..if single { 2 } else { n } {
            let mut hit = None;
            for e in 0..q {
                let env = Env::plain(seed);
                let e = P::ScalarField::from(e);
                let ok = s.party("verifier", &env, || {
                    if single {
                        // the blindings of the two halves of the check against each other
                        let mut b = made[0].0.to_bytes();
                        let mut x = Parts::<C<P>>::parse(&b).unwrap();
                        x.s[1 + at] += P::ScalarField::one();
                        x.s[2 - at] -= e;
                        b = x.bytes();
                        let p = R1CSProof::<C<P>>::from_bytes(&b).unwrap();
                        return verifier(0).verify(&p, &pc, &bp).is_ok();
                    }
                    let mut ts: Vec<_> = (0..n).map(|i| verifier(i).verification_scalars_and_points(&made[i].0).unwrap()).collect();
                    ts[0].proof_independent_scalars[at] += P::ScalarField::one();
                    ts[j].proof_independent_scalars[at] -= e;
                    batch_verify(ts, &pc, &bp).is_ok()
                });
                match o_ok(ok.res) {
                    Some(true) if hit.is_some() => {
                        // both weights are zero
                        hit = None;
                        break;
                    }
                    Some(true) => hit = Some(e),
                    Some(false) => {}
                    None => return Err(Stop::Skip("exceptional challenge")),
                }
            }
            // a weight of zero is as likely as any
            match hit {
                Some(e) => row.push(e),
                None => break,
            }
        }
        if row.len() == if single { 2 } else { n } {
            // 1/e is the weight relative to the first proof's
            let mut r2 = vec![row[0]];
            for e in &row[1..] {
                match e.inverse() {
                    Some(x) => r2.push(x),
                    None => break,
                }
            }
            if r2.len() == row.len() {
                rows.push(r2);
            }
        }
    }
    let m = if single { 2 } else { n };
    s.fault("every error in a small group");
    s.nontrivial = true;
    s.count("small groups searched");
    if rows.len() < m + 2 {
        return Err(Stop::Skip("weights of zero"));
    }
    let show: Vec<Vec<u64>> = rows.iter().map(|r| r.iter().map(|x| ctsim::tiny::small(*x)).collect()).collect();
    s.state(hash_str(&format!("weights {m} {at} {single}")));
    let rank = rank(rows);
    ensure!(
        rank == m,
        "invalid-batch-accepted",
        "group of {q}, {}: errors can be chosen that cancel whatever the verifier draws; weights {show:?}",
        if single { "one proof".to_string() } else { format!("batch of {n}") }
    );
    Ok(())
}
fn o_ok(r: Result<bool, String>) -> Option<bool> {
    r.ok()
}
fn rank<F: Field>(mut m: Vec<Vec<F>>) -> usize {
    let cols = m[0].len();
    let mut r = 0;
    for c in 0..cols {
        let Some(p) = (r..m.len()).find(|i| !m[*i][c].is_zero()) else { continue };
        m.swap(r, p);
        let inv = m[r][c].inverse().unwrap();
        for i in 0..m.len() {
            if i != r && !m[i][c].is_zero() {
                let f = m[i][c] * inv;
                for k in 0..cols {
                    let x = m[r][k];
                    m[i][k] -= f * x;
                }
            }
        }
        r += 1;
    }
    r
}

struct Member<C: Crv> {
    prog: Prog<C::ScalarField>,
    model: Model<C::ScalarField>,
    comms: Vec<C>,
    proof: Vec<u8>,
    good: bool,
    what: String,
}
impl<C: Crv> Clone for Member<C> {
    fn clone(&self) -> Self {
        Member { prog: self.prog.clone(), model: self.model.clone(), comms: self.comms.clone(), proof: self.proof.clone(), good: self.good, what: self.what.clone() }
    }
}
impl<C: Crv> Member<C> {
    fn tuple(&self) -> Result<VerificationTuple<C>, R1CSError> {
        let p = R1CSProof::<C>::from_bytes(&self.proof)?;
        let mut v = Verifier::new(Transcript::new(b"program"));
        on_verifier(&mut v, &self.prog, &self.model, &self.comms)?;
        v.verification_scalars_and_points(&p)
    }
    fn alone(&self) -> Result<(), R1CSError> {
        let g = C::gens();
        let p = R1CSProof::<C>::from_bytes(&self.proof)?;
        let mut v = Verifier::new(Transcript::new(b"program"));
        on_verifier(&mut v, &self.prog, &self.model, &self.comms)?;
        v.verify(&p, &g.pc, &g.bp)
    }
}

fn small_shape(s: &mut Sim, same: Option<&Shape>) -> Shape {
    if let Some(sh) = same {
        return sh.clone();
    }
    let nv = [0, 0, 1, 2][s.choose("vectors", 4) as usize];
    let gates = [1, 0, 2, 3, 4, 5, 8, 9, 17, 33][s.choose("gates", 10) as usize];
    Shape {
        commits: s.choose("commits", 3) as usize,
        vecs: (0..nv).map(|_| 1 + s.choose("dimension", 5) as usize).collect(),
        gates,
        cons: 1 + s.choose("constraints", 3) as usize,
        singles: 0,
        msgs: s.choose("messages", 2) as usize,
        rand: vec![],
    }
}

fn go<C: Crv>(s: &mut Sim) -> Res {
    let slow = !C::NAME.starts_with('t');
    let g = C::gens();
    let scenario = s.stratum("scenario", 4); // 0 honest, 1 related errors, 2 one bad, 3 several bad
    let max = if slow { 3 } else { [4, 6, 12, 40][s.choose("batch range", 4) as usize] };
    let mut n = s.choose("batch size", max + 1) as usize;
    if scenario == 1 {
        n = n.max(2);
    } else if scenario > 1 {
        n = n.max(1);
    }
    let equal = s.choose("equal sizes", 2) == 0;
    s.note(format!("{} scenario {scenario} batch of {n}, equal sizes {equal}", C::NAME));
    let mut members: Vec<Member<C>> = vec![];
    let mut pool: Vec<Member<C>> = vec![];
    let first = small_shape(s, None);
    let mut r = Rng64::new(s.seed("errors"));
    // which members are bad
    let mut bad = vec![false; n];
    let mut ratio: Vec<C::ScalarField> = vec![C::ScalarField::zero(); n];
    let d: C::ScalarField = if s.choose("unit error", 2) == 0 { C::ScalarField::one() } else { nonzero(&mut r) };
    match scenario {
        1 => {
            let i = s.choose("first bad", n as u64) as usize;
            let mut j = s.choose("second bad", n as u64 - 1) as usize;
            if j >= i {
                j += 1;
            }
            let k = [1u64, 1, 1, 2, 3, 4, 5, 7, 8, 16, 255, 256, 65536, 1 << 32][s.choose("ratio", 14) as usize];
            let k = C::ScalarField::from(k);
            let k = if s.choose("inverse", 2) == 1 { k.inverse().unwrap() } else { k };
            bad[i] = true;
            bad[j] = true;
            ratio[i] = d;
            ratio[j] = if s.choose("same sign", 4) == 3 { d * k } else { -d * k };
            if n > 2 && s.choose("third", 4) == 3 {
                // three errors that add up to nothing
                if let Some(l) = (0..n).find(|l| !bad[*l]) {
                    bad[l] = true;
                    ratio[l] = -(ratio[i] + ratio[j]);
                    bad[l] = !ratio[l].is_zero();
                }
            }
        }
        2 => {
            let i = match s.choose("bad at", 4) {
                0 => n - 1,
                1 => 0,
                _ => s.choose("bad index", n as u64) as usize,
            };
            bad[i] = true;
        }
        3 => {
            for b in bad.iter_mut() {
                *b = s.choose("bad", 2) == 1;
            }
        }
        _ => {}
    }
    for i in 0..n {
        // large batches repeat honest members
        if !bad[i] && pool.len() >= 4 && s.choose("repeat member", 4) != 0 {
            let k = s.choose("which member", pool.len() as u64) as usize;
            members.push(pool[k].clone());
            continue;
        }
        let shape = small_shape(s, equal.then_some(&first));
        let prog: Prog<C::ScalarField> = Prog::random(&shape, s.seed("program"));
        let honest = Model::of(&prog, &[]);
        let comms = model_commitments(&prog, &g.pc, &g.bp);
        let m = if scenario == 1 && bad[i] {
            let Some((lay, _)) = calibrate::<C>(s, &prog)? else { return Err(Stop::Skip("byzantine prover not calibrated")) };
            let proof = byz_proof::<C>(s, &prog, &honest, &honest.wit, &comms, &lay, Some(ratio[i]))?.0;
            s.fault("related error");
            Member { prog, model: honest, comms, proof, good: false, what: "error along the blinding generator".into() }
        } else {
            let (proof, c) = crate::c02::honest::<C>(s, &prog, &honest)?;
            let mut m = Member { prog, model: honest, comms: c, proof, good: true, what: "honest".into() };
            if bad[i] {
                spoil(s, &mut m, &mut r)?;
            }
            m
        };
        if !bad[i] {
            pool.push(m.clone());
        }
        members.push(m);
    }
    if s.choose("duplicate", 4) == 3 && !members.is_empty() {
        let k = s.choose("which member", members.len() as u64) as usize;
        members.push(members[k].clone());
    }
    // each alone
    let mut expect = true;
    for (i, m) in members.iter().enumerate() {
        let env = Env::plain(s.seed("alone.rng"));
        let ok = s.party("verifier", &env, || m.alone()).ok("verifier")?.is_ok();
        ensure!(ok == m.good, "alone", "member {i} ({}, {}) verifies alone: {ok}", m.what, C::NAME);
        expect &= ok;
    }
    // together, in several orders, under several random sources
    let rounds = 2 + if scenario == 1 { 4 } else { 0 };
    for round in 0..rounds {
        let mut order: Vec<usize> = (0..members.len()).collect();
        if round > 0 {
            for i in (1..order.len()).rev() {
                let j = s.choose("permute", i as u64 + 1) as usize;
                order.swap(i, j);
            }
        }
        let mut env = s.env("batch verifier");
        if scenario == 0 && s.choose("fault", 3) == 2 {
            let at = s.small("fault at", 40);
            env.faults.push(RngFault::Repeat { stream: 0, at, back: 1, len: 8 });
        }
        // half of what the source yields is not random: what is left is plenty for a weight
        if C::ScalarField::MODULUS_BIT_SIZE >= 85 && scenario > 0 && s.choose("half random", 3) == 1 {
            env.faults.push(match s.choose("random half", 4) {
                0 => RngFault::Mask { mask: 0xffff_ffff, every: 1, from: 0 },
                1 => RngFault::Mask { mask: !0xffff_ffff, every: 1, from: 0 },
                2 => RngFault::Mask { mask: 0, every: 2, from: 0 },
                _ => RngFault::Mask { mask: 0, every: 2, from: 1 },
            });
            s.fault("half of the verifier's randomness is stuck");
        }
        let ms = &members;
        let ok = s
            .party("batch verifier", &env, || -> Result<(), R1CSError> {
                let mut ts = vec![];
                for i in &order {
                    ts.push(ms[*i].tuple()?);
                }
                batch_verify(ts, &g.pc, &g.bp)
            })
            .ok("batch")?
            .is_ok();
        let kinds: Vec<String> = order.iter().map(|i| members[*i].what.clone()).filter(|w| w != "honest").collect();
        s.state(hash_str(&format!("{scenario} {} {equal} {kinds:?} {round}", members.len())));
        ensure!(
            ok == expect,
            if expect { "valid-batch-rejected" } else { "invalid-batch-accepted" },
            "batch of {} ({}, order {order:?}, bad {bad:?} {kinds:?}): accepted {ok}, all valid {expect}",
            members.len(),
            C::NAME
        );
        s.count(if expect { "valid batches" } else { "invalid batches" });
    }
    s.nontrivial = members.len() > 1;
    Ok(())
}

/// Make an honest member invalid.
fn spoil<C: Crv>(s: &mut Sim, m: &mut Member<C>, r: &mut Rng64) -> Res {
    use ark_ec::{AffineRepr, CurveGroup};
    let g = C::gens();
    let d: C::ScalarField = nonzero(r);
    m.good = false;
    let kind = s.choose("spoil", 6);
    if kind >= 4 {
        // a false statement
        let cons: Vec<usize> = (0..m.prog.steps.len()).filter(|i| matches!(m.prog.steps[*i], Step::Con(..))).collect();
        let step = cons[s.choose("constraint", cons.len() as u64) as usize];
        m.model = Model::of(&m.prog, &[Glitch { step, spot: Spot::Con, by: d }]);
        let env = Env::plain(s.seed("liar.rng"));
        let (prog, model) = (&m.prog, &m.model);
        let out = s.party("lying prover", &env, || -> Result<_, R1CSError> {
            let mut p = Prover::new(&g.pc, Transcript::new(b"program"));
            let (c, _) = on_prover(&mut p, prog, model, &g.bp)?;
            Ok((p.prove(&g.bp)?.to_bytes(), c))
        });
        if let Ok(Ok((p, c))) = out.res {
            m.proof = p;
            m.comms = c;
        }
        m.what = format!("false constraint at step {step}");
        s.fault("false statement in batch");
        return Ok(());
    }
    let Some(mut p) = Parts::<C>::parse(&m.proof) else { return Err(Stop::Skip("proof bytes not understood")) };
    match kind {
        0 => {
            let mut x = p.scalars();
            let i = s.choose("which scalar", x.len() as u64) as usize;
            *x[i].1 += d;
            m.what = format!("scalar {} changed", x[i].0);
        }
        1 | 2 => {
            let mut x = p.points();
            let i = s.choose("which point", x.len() as u64) as usize;
            *x[i].1 = (x[i].1.into_group() + g.pc.B * d).into_affine();
            m.what = format!("point {} changed", x[i].0);
        }
        _ => {
            p.ab.swap(0, 1);
            if p.ab[0] == p.ab[1] {
                p.ab[0] += d;
            }
            m.what = "a and b exchanged".into();
        }
    }
    m.proof = p.bytes();
    s.fault("proof in batch changed");
    Ok(())
}
