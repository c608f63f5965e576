//! C03: challenges bind everything that was said before them.
use ark_ec::CurveGroup;
use ark_ec::AffineRepr;
use ark_ff::{One, PrimeField, Zero};
use bulletproofs::r1cs::*;
use ctsim::engine::*;
use ctsim::prog::*;
use ctsim::tree::{fits, leaves, slow, Cyc, EdgeRng, Ev, EvVerifier, MPath, OdVerifier, Path, TShape, Tree};
use ctsim::treeutil::*;
use ctsim::wire::Parts;
use ctsim::{ensure, on_curve, on_tree};
use merlin::Transcript;
use simctx::{Op, Rng64};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

pub const CHECK: Check = Check {
    id: "C03",
    level: "exploration",
    run,
    quick_runs: 8000,
    thorough_runs: 300_000,
    rule: "one evaluation = one honest exchange (random program, or a plain or batched membership proof) whose challenges are recorded on both sides, and then the same exchange once for every proof element, commitment, application message and label changed on the way (other point, opposite point, other scalar, boundary between messages moved, order exchanged): from the first challenge after the changed value on, every challenge has to differ; distinct by digest of all choices",
    real: crate::REAL,
    stubs: crate::STUBS,
    assumptions: &["challenges are observed as the bytes the transcript hands out", "different transcripts give different challenges (hash collisions excluded)"],
};
fn run(s: &mut Sim) -> Res {
    match s.stratum("scenario", 16) {
        0 => on_tree!(s, plain(s)),
        1 => ctsim::on_batch_tree!(s, batched(s)),
        2 => on_curve!(s, spread(s)),
        _ => on_curve!(s, program(s)),
    }
}
type Chal = Vec<Vec<u8>>;
/// Challenges by transcript, in order of the transcripts' creation.
fn challenges(log: &[Op]) -> Vec<Chal> {
    let mut m: BTreeMap<u64, Chal> = BTreeMap::new();
    for op in log {
        if let Op::Challenge { t, data, .. } = op {
            m.entry(*t).or_default().push(data.clone());
        }
    }
    m.into_values().collect()
}
fn distinct(c: &Chal, who: &str) -> Res {
    for i in 0..c.len() {
        for j in 0..i {
            ensure!(c[i] != c[j], "challenge-repeats", "{who}: challenges {j} and {i} of {} are the same", c.len());
        }
    }
    Ok(())
}
/// From challenge `from` on, nothing may coincide with the honest exchange.
fn moved(base: &Chal, got: &Chal, from: usize, what: &str) -> Res {
    for i in from..base.len().min(got.len()) {
        ensure!(base[i] != got[i], "not-bound", "{what}: challenge {i} of {} stays the same", base.len());
    }
    Ok(())
}

fn program<C: Crv>(s: &mut Sim) -> Res {
    let slow = !C::NAME.starts_with('t');
    let shape = Shape::draw(s, if slow { 6 } else { 20 });
    let prog: Prog<C::ScalarField> = Prog::random(&shape, s.seed("program"));
    let model = Model::of(&prog, &[]);
    let g = C::gens();
    let label: &'static [u8] = *s.pick("label", &[&b"program"[..], b"", b"x"]);
    let mut r = Rng64::new(s.seed("changes"));
    let env = s.env("prover");
    let out = s.party("prover", &env, || -> Result<_, R1CSError> {
        let mut p = Prover::new(&g.pc, Transcript::new(label));
        let (c, _) = on_prover(&mut p, &prog, &model, &g.bp)?;
        Ok((p.prove(&g.bp)?.to_bytes(), c))
    });
    let said = challenges(&out.log);
    let (proof, comms) = match out.ok("prover")? {
        Ok(x) => x,
        Err(e) => return violation("prover-error", format!("{e:?}")),
    };
    let hear = |s: &mut Sim, label: &'static [u8], prog: &Prog<C::ScalarField>, comms: &[C], proof: &[u8]| -> Res<(Chal, bool)> {
        let env = Env::plain(1);
        let out = s.party("verifier", &env, || -> Result<(), R1CSError> {
            let p = R1CSProof::<C>::from_bytes(proof)?;
            let mut v = Verifier::new(Transcript::new(label));
            on_verifier(&mut v, prog, &model, comms)?;
            v.verification_scalars_and_points(&p)?;
            Ok(())
        });
        let mut c = challenges(&out.log);
        ensure!(c.len() < 2, "transcripts", "the verifier uses {} transcripts", c.len());
        let ok = out.ok("verifier")?.is_ok();
        Ok((c.pop().unwrap_or_default(), ok))
    };
    let (base, ok) = hear(s, label, &prog, &comms, &proof)?;
    ensure!(ok, "rejected", "{}: honest proof of {shape:?} rejected", C::NAME);
    ensure!(said.len() == 1 && said[0] == base, "sides-differ", "{}: prover and verifier derive different challenges", C::NAME);
    distinct(&base, C::NAME)?;
    let Some(parts) = Parts::<C>::parse(&proof) else { return Err(Stop::Skip("proof bytes not understood")) };
    // closures, y z, u x, w, one per round
    let nc = prog.rand.len();
    let want = nc + 5 + parts.l.len();
    ensure!(base.len() == want, "challenge-missing", "{} challenges where the protocol has {want}", base.len());
    s.note(format!("{} {shape:?}: {} challenges", C::NAME, base.len()));
    s.state(hash_str(&format!("{} {} {} {} {}", C::NAME, comms.len(), nc, parts.l.len(), shape.msgs)));
    s.nontrivial = true;
    let d: C::ScalarField = nonzero(&mut r);
    // proof elements
    let at = |name: &str, k: usize| match name {
        "a" => 0,
        "two" => nc,
        "t" => nc + 2,
        "s" => nc + 4,
        _ => nc + 5 + k,
    };
    let np = parts.clone().points().len();
    let ns = parts.clone().scalars().len();
    for i in 0..np {
        let mut p = parts.clone();
        let name = {
            let mut x = p.points();
            let (n, q) = &mut x[i];
            if n.starts_with('t') && q.is_zero() && !n.starts_with("two") {
                // the coefficient that is not sent
                continue;
            }
            **q = if s.choose("change", 2) == 0 && !q.is_zero() { (-q.into_group()).into_affine() } else { (q.into_group() + g.pc.B * d).into_affine() };
            n.clone()
        };
        let (head, k) = name.split_once('[').unwrap();
        let k: usize = k.trim_end_matches(']').parse().unwrap();
        let (got, _) = hear(s, label, &prog, &comms, &p.bytes())?;
        s.fault("point changed");
        moved(&base, &got, at(head, k), &format!("{} point {name} changed", C::NAME))?;
    }
    for i in 0..ns {
        let mut p = parts.clone();
        let name = {
            let mut x = p.scalars();
            let (n, q) = &mut x[i];
            **q = if s.choose("change", 2) == 0 && !q.is_zero() { -**q } else { **q + d };
            n.clone()
        };
        if !name.starts_with('s') {
            continue;
        }
        let (got, _) = hear(s, label, &prog, &comms, &p.bytes())?;
        s.fault("scalar changed");
        moved(&base, &got, at("s", 0), &format!("{} scalar {name} changed", C::NAME))?;
    }
    // commitments
    for i in 0..comms.len() {
        let mut c = comms.clone();
        match s.choose("commitment change", 3) {
            0 if !c[i].is_zero() => c[i] = (-c[i].into_group()).into_affine(),
            1 if i > 0 && c[i] != c[i - 1] => c.swap(i, i - 1),
            _ => c[i] = (c[i].into_group() + g.pc.B * d).into_affine(),
        }
        let (got, _) = hear(s, label, &prog, &c, &proof)?;
        s.fault("commitment changed");
        moved(&base, &got, 0, &format!("{} commitment {i} of {} changed", C::NAME, comms.len()))?;
    }
    // label and messages
    let other: &'static [u8] = *s.pick("other label", &[&b"Program"[..], b"program ", b"y", b"r1cs v1"]);
    let (got, _) = hear(s, other, &prog, &comms, &proof)?;
    s.fault("label changed");
    moved(&base, &got, 0, "label changed")?;
    let at: Vec<usize> = (0..prog.steps.len()).filter(|i| matches!(prog.steps[*i], Step::Msg(_))).collect();
    for i in &at {
        let mut p = prog.clone();
        let Step::Msg(m) = &mut p.steps[*i] else { unreachable!() };
        match s.choose("message change", 3) {
            0 => m.push(0),
            1 if !m.is_empty() => {
                m.pop();
            }
            2 if !m.is_empty() => {
                let k = s.choose("byte", m.len() as u64) as usize;
                m[k] ^= 1 << s.choose("bit", 8);
            }
            _ => m.push(7),
        }
        let (got, _) = hear(s, label, &p, &comms, &proof)?;
        s.fault("message changed");
        moved(&base, &got, 0, &format!("application message {i} changed"))?;
    }
    if at.len() > 1 {
        // the same bytes, divided otherwise
        let mut p = prog.clone();
        let Step::Msg(m) = p.steps[at[0]].clone() else { unreachable!() };
        if let Some((last, rest)) = m.split_last() {
            p.steps[at[0]] = Step::Msg(rest.to_vec());
            let Step::Msg(n) = &mut p.steps[at[1]] else { unreachable!() };
            n.insert(0, *last);
            let (got, _) = hear(s, label, &p, &comms, &proof)?;
            s.fault("messages divided otherwise");
            moved(&base, &got, 0, "boundary between messages moved")?;
        }
    }
    // the prover's side: the same random source, another statement
    if !comms.is_empty() || !at.is_empty() || s.choose("prover side", 2) == 0 {
        let mut p = prog.clone();
        let i = s.choose("changed step", p.steps.len() as u64 + 1) as usize;
        let mut l = label;
        match p.steps.get_mut(i) {
            Some(Step::Commit(_, b)) | Some(Step::CommitVec(_, b)) => *b += d,
            Some(Step::Msg(m)) => m.push(1),
            _ => l = other,
        }
        let out = s.party("prover", &env, || -> Result<_, R1CSError> {
            let mut q = Prover::new(&g.pc, Transcript::new(l));
            on_prover(&mut q, &p, &model, &g.bp)?;
            q.prove(&g.bp)
        });
        let got = challenges(&out.log);
        if let Err(e) = out.ok("prover")? {
            return violation("prover-error", format!("{e:?}"));
        }
        s.fault("statement changed for the prover");
        moved(&base, &got[0], 0, "statement changed for the prover")?;
    }
    Ok(())
}

/// Challenge scalars take values all over the field.
fn spread<C: Crv>(s: &mut Sim) -> Res {
    let g = C::gens();
    let n = 96usize;
    let seen: Arc<Mutex<Vec<C::ScalarField>>> = Arc::default();
    let env = s.env("prover");
    let keep = seen.clone();
    let msg = s.seed("message").to_le_bytes();
    let out = s.party("prover", &env, || -> Result<_, R1CSError> {
        let mut p = Prover::new(&g.pc, Transcript::new(b"spread"));
        p.transcript().append_message(b"run", &msg);
        let (_, _, o) = p.multiply(constant::<C::ScalarField, C::ScalarField>(2u64.into()), constant::<C::ScalarField, C::ScalarField>(3u64.into()));
        p.constrain(o - C::ScalarField::from(6u64));
        p.specify_randomized_constraints(move |cs| {
            for _ in 0..n {
                keep.lock().unwrap().push(cs.challenge_scalar(b"c"));
            }
            Ok(())
        })?;
        p.prove(&g.bp)
    });
    if let Err(e) = out.ok("prover")? {
        return violation("prover-error", format!("{e:?}"));
    }
    let c = seen.lock().unwrap().clone();
    ensure!(c.len() == n, "closure", "the closure ran {} times", c.len() / n);
    s.nontrivial = true;
    for i in 0..n {
        for j in 0..i {
            ensure!(c[i] != c[j], "challenge-repeats", "{}: two of {n} challenge scalars are equal", C::NAME);
            ensure!(c[i] != -c[j], "challenge-repeats", "{}: two of {n} challenge scalars are opposite", C::NAME);
        }
        ensure!(!c[i].is_zero() && !c[i].is_one(), "challenge-weak", "challenge is {}", c[i]);
    }
    let bits = C::ScalarField::MODULUS_BIT_SIZE as usize;
    for b in 0..bits - 1 {
        let ones = c.iter().filter(|x| (x.into_bigint().as_ref()[b / 64] >> (b % 64)) & 1 == 1).count();
        // the highest full bit is one in 2^k/p of the cases: never close to none or all
        ensure!(ones > 0 && ones < n, "challenge-weak", "{}: bit {b} is the same in {n} challenge scalars", C::NAME);
    }
    Ok(())
}

/// A change of one published commitment.
fn other<A: AffineRepr>(s: &mut Sim, p: &A, r: &mut Rng64) -> A {
    if s.choose("change", 3) == 0 && !p.is_zero() {
        return (-p.into_group()).into_affine();
    }
    let d: A::ScalarField = nonzero(r);
    (p.into_group() + A::generator() * d).into_affine()
}

fn plain<Y: Cyc, const L: usize, const M: usize>(s: &mut Sim) -> Res {
    let prm = Y::params();
    let max = if slow::<Y>() { 2 } else { [4, 3, 3, 2][L.min(5) - 2] };
    let sh = TShape::draw(s, L, max, 60);
    let set = leaves::<Y>(sh.n, sh.seed);
    let tree = Tree::<Y, L, M>::from_set(&set, prm, sh.extra);
    let k = (1 + s.choose("proofs", 2) as usize).min(fits::<Y>(L, 1, sh.height)).max(1);
    let idx: Vec<usize> = (0..k).map(|_| s.choose("leaf", sh.n as u64) as usize).collect();
    let mut er = EdgeRng::new();
    let env = s.env("prover");
    let out = s.party("prover", &env, || prove::<Y, L, M>(&tree, &idx, b"tree", &mut er, prm));
    let said = challenges(&out.log);
    let (pe, po, paths, _) = match out.ok("prover")? {
        Ok(x) => x,
        Err(e) => return violation("prover-error", format!("{e:?}")),
    };
    let hear = |s: &mut Sim, paths: &[Path<Y, L>], label: &'static [u8]| -> Res<Vec<Chal>> {
        let out = s.party("verifier", &Env::plain(1), || {
            let mut ev: EvVerifier<Y> = Verifier::new(Transcript::new(label));
            let mut ov: OdVerifier<Y> = Verifier::new(Transcript::new(label));
            for p in paths {
                tree.select_and_rerandomize_verifier_gadget(&mut ev, &mut ov, p.clone(), prm);
            }
            (ev.verification_scalars_and_points(&pe).is_ok(), ov.verification_scalars_and_points(&po).is_ok())
        });
        let c = challenges(&out.log);
        out.ok("verifier")?;
        Ok(c)
    };
    s.note(format!("{} L={L} height {} leaves {} indices {idx:?}", Y::NAME, sh.height, sh.n));
    let base = hear(s, &paths, b"tree")?;
    ensure!(base.len() == 2 && base == said, "sides-differ", "prover and verifier of the membership proof derive different challenges");
    for c in &base {
        distinct(c, "membership")?;
    }
    ensure!(base[0].iter().all(|x| !base[1].contains(x)) || sh.height < 2, "challenge-repeats", "both systems of a membership proof share a challenge");
    s.nontrivial = true;
    s.state(hash_str(&format!("plain {} {L} {} {k}", Y::NAME, sh.height)));
    let mut r = Rng64::new(s.seed("changes"));
    for j in 0..k {
        let check = |s: &mut Sim, p: Path<Y, L>, both: bool, what: String| -> Res {
            let mut ps = paths.clone();
            ps[j] = p;
            let got = hear(s, &ps, b"tree")?;
            s.fault("published commitment changed");
            moved(&base[1], &got[1], 0, &format!("{what}, odd system"))?;
            if both {
                moved(&base[0], &got[0], 0, &format!("{what}, even system"))?;
            }
            Ok(())
        };
        let mut p = paths[j].clone();
        p.selected_commitment = other(s, &p.selected_commitment, &mut r);
        check(s, p, false, format!("published leaf commitment of proof {j} changed"))?;
        for i in 0..paths[j].even_commitments.len() {
            let mut p = paths[j].clone();
            p.even_commitments[i] = other(s, &p.even_commitments[i], &mut r);
            check(s, p, true, format!("even commitment {i} of proof {j} changed"))?;
        }
        for i in 0..paths[j].odd_commitments.len() {
            let mut p = paths[j].clone();
            p.odd_commitments[i] = other(s, &p.odd_commitments[i], &mut r);
            check(s, p, true, format!("odd commitment {i} of proof {j} changed"))?;
        }
    }
    let got = hear(s, &paths, b"treE")?;
    s.fault("label changed");
    moved(&base[0], &got[0], 0, "label changed, even system")?;
    moved(&base[1], &got[1], 0, "label changed, odd system")
}

fn batched<Y: Cyc, const L: usize, const M: usize>(s: &mut Sim) -> Res {
    let prm = Y::params();
    let max = if slow::<Y>() { 1 } else { [4, 3, 2][L.min(4) - 2] };
    let sh = TShape::draw(s, L, max, 60);
    if sh.n < M {
        return Err(Stop::Skip("fewer leaves than members"));
    }
    let set = leaves::<Y>(sh.n, sh.seed);
    let tree = Tree::<Y, L, M>::from_set(&set, prm, sh.extra);
    let first = s.choose("leaf", sh.n as u64) as usize;
    let idx: [usize; M] = std::array::from_fn(|i| (first + i) % sh.n);
    let mut er = EdgeRng::new();
    let env = s.env("prover");
    let out = s.party("prover", &env, || mprove::<Y, L, M>(&tree, &[idx], b"tree", &mut er, prm));
    let said = challenges(&out.log);
    let (pe, po, paths, _) = match out.ok("prover")? {
        Ok(x) => x,
        Err(e) => return violation("prover-error", format!("{e:?}")),
    };
    let path = paths[0].clone();
    let hear = |s: &mut Sim, p: &MPath<Y, L, M>| -> Res<Vec<Chal>> {
        let out = s.party("verifier", &Env::plain(1), || {
            let mut ev: EvVerifier<Y> = Verifier::new(Transcript::new(b"tree"));
            let mut ov: OdVerifier<Y> = Verifier::new(Transcript::new(b"tree"));
            tree.batched_select_and_rerandomize_verifier_gadget(&mut ev, &mut ov, p.clone(), prm);
            (ev.verification_scalars_and_points(&pe).is_ok(), ov.verification_scalars_and_points(&po).is_ok())
        });
        let c = challenges(&out.log);
        out.ok("verifier")?;
        Ok(c)
    };
    s.note(format!("{} L={L} M={M} height {} leaves {} indices {idx:?}", Y::NAME, sh.height, sh.n));
    let base = hear(s, &path)?;
    ensure!(base.len() == 2 && base == said, "sides-differ", "prover and verifier of the batched membership proof derive different challenges");
    s.nontrivial = true;
    s.state(hash_str(&format!("batched {} {L} {M} {}", Y::NAME, sh.height)));
    let mut r = Rng64::new(s.seed("changes"));
    let check = |s: &mut Sim, p: MPath<Y, L, M>, both: bool, what: String| -> Res {
        let got = hear(s, &p)?;
        s.fault("published commitment changed");
        moved(&base[1], &got[1], 0, &format!("{what}, odd system"))?;
        if both {
            moved(&base[0], &got[0], 0, &format!("{what}, even system"))?;
        }
        Ok(())
    };
    for i in 0..M {
        let mut p = path.clone();
        p.selected_commitments[i] = other(s, &p.selected_commitments[i], &mut r);
        check(s, p, false, format!("published commitment of member {i} changed"))?;
        if i > 0 {
            // keep the sum of the published commitments
            let mut p = path.clone();
            let d: Y::F0 = nonzero(&mut r);
            let d = Ev::<Y>::generator() * d;
            p.selected_commitments[i] = (p.selected_commitments[i] + d).into_affine();
            p.selected_commitments[i - 1] = (p.selected_commitments[i - 1].into_group() - d).into_affine();
            check(s, p, false, format!("published commitments of members {} and {i} changed by opposite amounts", i - 1))?;
            if path.selected_commitments[i] != path.selected_commitments[i - 1] {
                let mut p = path.clone();
                p.selected_commitments.swap(i, i - 1);
                check(s, p, false, format!("published commitments of members {} and {i} exchanged", i - 1))?;
            }
        }
    }
    for i in 0..path.even_commitments.len() {
        let mut p = path.clone();
        p.even_commitments[i] = other(s, &p.even_commitments[i], &mut r);
        check(s, p, true, format!("even commitment {i} changed"))?;
    }
    for i in 0..path.odd_commitments.len() {
        let mut p = path.clone();
        p.odd_commitments[i] = other(s, &p.odd_commitments[i], &mut r);
        check(s, p, true, format!("odd commitment {i} changed"))?;
    }
    Ok(())
}
