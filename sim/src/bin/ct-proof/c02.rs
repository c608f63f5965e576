//! C02: a proof is only accepted if the committed values satisfy the program.
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::Field;
use ark_std::Zero;
use bulletproofs::r1cs::*;
use ctsim::byz;
use ctsim::circ::*;
use ctsim::engine::*;
use ctsim::on_curve;
use ctsim::prog::*;
use ctsim::wire::Parts;
use merlin::Transcript;
use simctx::Rng64;

pub const CHECK: Check = Check {
    id: "C02",
    level: "fault_enumeration",
    run,
    quick_runs: 40_000,
    thorough_runs: 200_000,
    rule: "one evaluation = one random program and one attack on it: gates or constraints violated (alone, or several with opposite or proportional errors), claimed by the real prover with a corrupted witness or by an independent Byzantine prover (including stray components in its commitments); commitments exchanged, shifted or swapped; proof elements changed; a proof moved to another statement. The verifier must refuse every one. Non-trivial if an attack was delivered; distinct by digest of all choices",
    real: crate::REAL,
    stubs: &[
        "operating system randomness, thread pool: simulated",
        "the Byzantine prover is an independent implementation",
        "some runs use small 2-cycles in place of the pasta / secp cycles",
    ],
    assumptions: &["discrete logarithms between generators are unknown to the prover", "a false proof passes a sound verifier with probability at most about 2^-50"],
};

fn run(s: &mut Sim) -> Res {
    on_curve!(s, go(s))
}

pub fn verify<C: Crv>(
    s: &mut Sim,
    prog: &Prog<C::ScalarField>,
    model: &Model<C::ScalarField>,
    comms: &[C],
    proof: &[u8],
    label: &'static [u8],
) -> Res<bool> {
    let env = s.env("verifier");
    let batch = s.choose("batch verifier", 3) == 2;
    let g = C::gens();
    s.link("proof", proof);
    let r = s.party("verifier", &env, || -> Result<(), R1CSError> {
        let p = R1CSProof::<C>::from_bytes(proof)?;
        let mut v = Verifier::new(Transcript::new(label));
        on_verifier(&mut v, prog, model, comms)?;
        if batch {
            batch_verify(vec![v.verification_scalars_and_points(&p)?], &g.pc, &g.bp)
        } else {
            v.verify(&p, &g.pc, &g.bp)
        }
    });
    Ok(r.ok("verifier")?.is_ok())
}

/// The layout the verifier uses, found by offering honest proofs.
pub fn calibrate<C: Crv>(
    s: &mut Sim,
    prog: &Prog<C::ScalarField>,
) -> Res<Option<(byz::Layout, Circuit<C::ScalarField>)>> {
    let honest = Model::of(prog, &[]);
    let g = C::gens();
    let comms = model_commitments(prog, &g.pc, &g.bp);
    for lay in byz::Layout::candidates(honest.circ.vdims.len()) {
        let (proof, circ) = byz_proof::<C>(s, prog, &honest, &honest.wit, &comms, &lay, None)?;
        if verify::<C>(s, prog, &honest, &comms, &proof, b"program")? {
            return Ok(Some((lay, circ)));
        }
    }
    s.count("byzantine prover not calibrated");
    Ok(None)
}

/// A proof by the Byzantine prover; the statement's commitments are `comms`.
pub fn byz_proof<C: Crv>(
    s: &mut Sim,
    prog: &Prog<C::ScalarField>,
    model: &Model<C::ScalarField>,
    wit: &Witness<C::ScalarField>,
    comms: &[C],
    lay: &byz::Layout,
    tweak: Option<C::ScalarField>,
) -> Res<(Vec<u8>, Circuit<C::ScalarField>)> {
    let g = C::gens();
    let env = Env::plain(s.seed("byzantine.rng"));
    let (mut m, mut w) = (model.circ.clone(), wit.clone());
    let out = s.party("byzantine prover", &env, || -> Result<_, R1CSError> {
        let mut v = Verifier::new(Transcript::new(b"program"));
        on_verifier(&mut v, prog, model, comms)?;
        if let Some(c) = Circuit::of_verifier(&v) {
            m = c;
        }
        // unused gates up to the longest vector
        m.gates = m.size().max(w.l.len());
        for x in [&mut w.l, &mut w.r, &mut w.o] {
            x.resize(m.gates, C::ScalarField::zero());
        }
        let mut t = v.transcript().clone();
        let tw = byz::Tweak { blinding: tweak.unwrap_or(C::ScalarField::zero()) };
        Ok((byz::prove_tweaked(&mut t, &m, &w, lay, &g.pc, &g.bp, &tw), m))
    });
    match out.ok("byzantine")? {
        Ok(x) => Ok(x),
        Err(e) => violation("statement", format!("the verifier cannot state the program: {e:?}")),
    }
}

/// Programs of many constraints or gates with few, related errors in them.
fn scale<C: Crv>(s: &mut Sim) -> Res {
    use ctsim::prog::LARGE;
    let what = s.choose("errors in", 4); // 0, 1 constraints, 2 gates, 3 the second phase
    let n = match what {
        2 => [40, 129, 500, 1000, LARGE as u64][s.choose("gates", 5) as usize],
        _ => [40, 300, 600, 1300, 2600, 5200][s.choose("constraints", 6) as usize],
    } as usize;
    let mut r = Rng64::new(s.seed("program"));
    // errors: one, or two at a distance that many periods divide
    let far = [1usize, 2, 7, 10, 12, 16, 24, 60, 64, 100, 120, 128, 240, 256, 360, 512, 720, 840, 1000, 1024, 1260, 1280, 1536, 1680, 1920, 2000, 2048, 2520, 3072, 3840, 4096, 5000, 5040];
    let near: Vec<usize> = far.iter().copied().filter(|d| *d < n).collect();
    let d = match s.choose("distance", 4) {
        0 => 1 + s.choose("any distance", n as u64 - 1) as usize,
        1 => near[near.len() - 1],
        2 => *near.iter().rev().find(|d| d.is_power_of_two()).unwrap(),
        _ => near[s.choose("round distance", near.len() as u64) as usize],
    };
    let i = match s.choose("first", 3) {
        0 => 0,
        1 => n - d - 1,
        _ => s.choose("first at", (n - d) as u64) as usize,
    };
    let e: C::ScalarField = if s.choose("unit", 2) == 0 { C::ScalarField::from(1u64) } else { nonzero(&mut r) };
    let rel = s.choose("relation", 6);
    let f = match rel {
        0..=2 => -e,
        3 => e,
        4 => C::ScalarField::zero(),
        _ => -e * C::ScalarField::from(2 + s.choose("ratio", 30)),
    };
    let mut errs = vec![(i, e), (i + d, f)];
    if rel == 4 && s.choose("which", 2) == 0 {
        errs[0].0 = n - 1 - i;
    }
    errs.retain(|x| !x.1.is_zero());
    s.note(format!("{} {n} {}: errors {errs:?}", C::NAME, ["constraints", "constraints", "gates", "constraints of the second phase"][what as usize]));
    let mut steps: Vec<Step<C::ScalarField>> = vec![];
    let nv = 6 + r.below(5) as usize;
    for k in 0..nv {
        steps.push(match (k + what as usize) % 3 {
            0 if r.below(2) == 0 => Step::Commit(uniform(&mut r), uniform(&mut r)),
            1 if what != 3 => Step::CommitVec(vec![uniform(&mut r)], uniform(&mut r)),
            _ => Step::Alloc(uniform(&mut r)),
        });
    }
    let mut rand = vec![];
    let mut gl = vec![];
    match what {
        2 => {
            for k in 0..n - (nv + 1) {
                if let Some((_, by)) = errs.iter().find(|x| x.0 == k) {
                    gl.push(Glitch { step: steps.len(), spot: Spot::Out, by: *by });
                }
                steps.push(Step::AllocMul(uniform(&mut r), uniform(&mut r)));
            }
        }
        3 => {
            let mut l = vec![];
            for k in 0..n {
                let by = errs.iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or(C::ScalarField::zero());
                l.push(if n <= 300 && k % 2 == 1 && r.below(2) == 0 {
                    RStep::OffMul(uniform(&mut r), uniform(&mut r), by)
                } else {
                    RStep::Off(Lc { terms: vec![(r.below(nv as u64) as usize, uniform(&mut r))], style: r.next() }, by)
                });
            }
            // one closure or several
            let parts = 1 + s.choose("closures", 3) as usize;
            while !l.is_empty() {
                let m = l.len().min(n.div_ceil(parts));
                rand.push(l.drain(..m).collect());
            }
        }
        _ => {
            for k in 0..n {
                if let Some((_, by)) = errs.iter().find(|x| x.0 == k) {
                    gl.push(Glitch { step: steps.len(), spot: Spot::Con, by: *by });
                }
                steps.push(Step::Con(Lc { terms: vec![(r.below(nv as u64) as usize, uniform(&mut r))], style: r.next() }, C::ScalarField::zero()));
            }
        }
    }
    if what == 2 && gl.is_empty() {
        return Err(Stop::Skip("nothing to violate"));
    }
    let prog = Prog { steps, rand };
    let model = Model::of(&prog, &gl);
    let g = C::gens();
    let env = s.env("prover");
    let out = s.party("prover", &env, || -> Result<_, R1CSError> {
        let mut p = Prover::new(&g.pc, Transcript::new(b"program"));
        let (c, _) = on_prover(&mut p, &prog, &model, &g.bp)?;
        #[cfg(curve_trees_sim)]
        if what == 2 {
            let w = p.sim_witness();
            *w.a_l = model.wit.l.clone();
            *w.a_r = model.wit.r.clone();
            *w.a_o = model.wit.o.clone();
        }
        Ok((p.prove(&g.bp)?.to_bytes(), c))
    });
    let (proof, comms) = match out.res {
        Ok(Ok(x)) => x,
        _ => {
            s.count("false statements refused by the prover");
            return Ok(());
        }
    };
    if cfg!(not(curve_trees_sim)) && what == 2 {
        return Err(Stop::Skip("hooks are not available"));
    }
    s.fault(["far errors in constraints", "far errors in constraints", "far errors in gates", "far errors in the second phase"][what as usize]);
    s.nontrivial = true;
    s.state(hash_str(&format!("scale {what} {n} {d} {rel}")));
    if verify::<C>(s, &prog, &model, &comms, &proof, b"program")? {
        return violation("false-statement-accepted", format!("{n} {}: verifier accepts with errors {errs:?} at positions {} apart", ["constraints", "constraints", "gates", "constraints of the second phase"][what as usize], d));
    }
    Ok(())
}

fn go<C: Crv>(s: &mut Sim) -> Res {
    let slow = !C::NAME.starts_with('t');
    let attack = s.stratum("attack", 9);
    if attack == 8 {
        return scale::<ctsim::toy::t61::EvenA>(s);
    }
    let mut shape = Shape::draw(s, if slow { 10 } else { 24 });
    if matches!(attack, 2 | 3) {
        shape.rand.clear();
    }
    if matches!(attack, 0..=3) && shape.gates + shape.cons == 0 {
        shape.gates = 1;
    }
    if attack == 3 && shape.vecs.is_empty() {
        shape.vecs.push(3);
    }
    let pseed = s.seed("program");
    let prog: Prog<C::ScalarField> = Prog::random(&shape, pseed);
    let mut r = Rng64::new(simctx::mix(pseed, 5));
    s.note(format!("{} {shape:?}", C::NAME));
    match attack {
        0..=3 => violated::<C>(s, &prog, &mut r, attack),
        4 => commitments::<C>(s, &prog, &mut r),
        5 | 6 => elements::<C>(s, &prog, &mut r),
        _ => transplant::<C>(s, &prog, &mut r),
    }
}

/// Glitches at random spots of the program.
fn glitches<F: Field>(s: &mut Sim, prog: &Prog<F>, r: &mut Rng64, only_con: bool, gates_only: bool) -> Vec<Glitch<F>> {
    let mut spots = vec![];
    for (i, st) in prog.steps.iter().enumerate() {
        match st {
            Step::Mul(..) if !only_con => {
                spots.push((i, Spot::Out));
                if !gates_only {
                    spots.extend([(i, Spot::Left), (i, Spot::Right)]);
                }
            }
            Step::AllocMul(..) if !only_con => spots.push((i, Spot::Out)),
            Step::Con(..) if !gates_only => spots.push((i, Spot::Con)),
            _ => {}
        }
    }
    let mut out = vec![];
    if spots.is_empty() {
        return out;
    }
    let n = 1 + s.choose("errors", 3) as usize;
    let d: F = if s.choose("error size", 3) == 0 { F::one() } else { nonzero(r) };
    let rel = s.choose("relation", 4);
    for k in 0..n {
        let i = match s.choose("spot", 4) {
            0 => 0,
            1 => spots.len() - 1,
            _ => s.choose("which", spots.len() as u64) as usize,
        };
        let by = if k == 0 {
            d
        } else {
            match rel {
                0 => -d,
                1 => d,
                2 => -d * F::from(1 + s.choose("ratio", 6)).inverse().unwrap_or(F::one()),
                _ => nonzero(r),
            }
        };
        let (step, spot) = spots[i];
        if !out.iter().any(|g: &Glitch<F>| g.step == step && g.spot == spot) {
            out.push(Glitch { step, spot, by });
        }
    }
    out
}

fn violated<C: Crv>(s: &mut Sim, prog: &Prog<C::ScalarField>, r: &mut Rng64, how: u64) -> Res
{
    // 0: real prover, explicit constraints; 1: real prover with a corrupted witness;
    // 2: Byzantine prover; 3: Byzantine prover with stray components
    let gl = glitches(s, prog, r, how == 0, how == 3);
    if gl.is_empty() {
        return Err(Stop::Skip("nothing to violate"));
    }
    let model = Model::of(prog, &gl);
    let (vc, vg) = model.circ.violated(&model.wit);
    if vc.is_empty() && vg.is_empty() {
        return Err(Stop::Skip("the errors cancel"));
    }
    let what = format!("{:?}; constraints {vc:?} and gates {vg:?} are violated ({})", gl.iter().map(|g| (g.step, g.spot)).collect::<Vec<_>>(), C::NAME);
    let g = C::gens();
    let comms: Vec<C> = model_commitments(prog, &g.pc, &g.bp);
    let proof;
    let mut comms2 = comms.clone();
    match how {
        0 | 1 => {
            let env = s.env("prover");
            let out = s.party("prover", &env, || -> Result<_, R1CSError> {
                let mut p = Prover::new(&g.pc, Transcript::new(b"program"));
                let (c, _) = on_prover(&mut p, prog, &model, &g.bp)?;
                #[cfg(curve_trees_sim)]
                {
                    let w = p.sim_witness();
                    *w.a_l = model.wit.l.clone();
                    *w.a_r = model.wit.r.clone();
                    *w.a_o = model.wit.o.clone();
                }
                Ok((p.prove(&g.bp)?.to_bytes(), c))
            });
            match out.res {
                // the prover may refuse to prove what is false
                Err(_) | Ok(Err(_)) => {
                    s.count("false statements refused by the prover");
                    return Ok(());
                }
                Ok(Ok((p, c))) => {
                    proof = p;
                    comms2 = c;
                }
            }
            if cfg!(not(curve_trees_sim)) && how == 1 {
                return Err(Stop::Skip("hooks are not available"));
            }
            s.fault(if how == 0 { "constraint violated (real prover)" } else { "witness corrupted (real prover)" });
        }
        _ => {
            let Some((lay, _)) = calibrate::<C>(s, prog)? else { return Err(Stop::Skip("byzantine prover not calibrated")) };
            let mut wit = model.wit.clone();
            if how == 3 {
                // hide the error of gate i behind a product of a stray component and a coordinate
                // that the prover commits to
                let nv = wit.vecs.len();
                let target = s.choose("product with", 2 + nv as u64) as usize;
                let holder = s.choose("stray component in", 1 + nv as u64) as usize;
                for i in vg {
                    let err = wit.o[i] - wit.l[i] * wit.r[i];
                    let c = match target {
                        0 => wit.o[i],
                        1 => wit.l[i],
                        j => wit.vecs[j - 2].g.get(i).copied().unwrap_or(C::ScalarField::zero()),
                    };
                    let Some(ci) = c.inverse() else { continue };
                    let h = if holder == 0 { &mut wit.ao_h } else { &mut wit.vecs[holder - 1].h };
                    if h.len() <= i {
                        h.resize(i + 1, C::ScalarField::zero());
                    }
                    h[i] += err * ci;
                }
                let mut j = 0;
                for (k, st) in prog.steps.iter().filter(|x| matches!(x, Step::Commit(..) | Step::CommitVec(..))).enumerate() {
                    if let Step::CommitVec(..) = st {
                        comms2[k] = byz::commit_vec(&wit.vecs[j], &g.pc, &g.bp);
                        j += 1;
                    }
                }
                s.fault("stray components (byzantine prover)");
            } else {
                s.fault("witness corrupted (byzantine prover)");
            }
            proof = byz_proof::<C>(s, prog, &model, &wit, &comms2, &lay, None)?.0;
        }
    }
    s.nontrivial = true;
    s.state(hash_str(&format!("{how} {what}")));
    if verify::<C>(s, prog, &model, &comms2, &proof, b"program")? {
        return violation("false-statement-accepted", format!("verifier accepted a proof for {what}, attack {how}"));
    }
    Ok(())
}

/// An honest proof and its commitments, or None if the run has none.
pub fn honest<C: Crv>(s: &mut Sim, prog: &Prog<C::ScalarField>, model: &Model<C::ScalarField>) -> Res<(Vec<u8>, Vec<C>)> {
    let g = C::gens();
    let env = s.env("prover");
    let out = s.party("prover", &env, || -> Result<_, R1CSError> {
        let mut p = Prover::new(&g.pc, Transcript::new(b"program"));
        let (c, _) = on_prover(&mut p, prog, model, &g.bp)?;
        Ok((p.prove(&g.bp)?.to_bytes(), c))
    });
    match out.ok("prover")? {
        Ok(x) => Ok(x),
        Err(e) => violation("prover-error", format!("{e:?}")),
    }
}

fn commitments<C: Crv>(s: &mut Sim, prog: &Prog<C::ScalarField>, r: &mut Rng64) -> Res {
    let model = Model::of(prog, &[]);
    let (proof, mut comms) = honest::<C>(s, prog, &model)?;
    if comms.is_empty() {
        return Err(Stop::Skip("no commitments"));
    }
    let g = C::gens();
    let i = s.choose("which commitment", comms.len() as u64) as usize;
    let d: C::ScalarField = nonzero(r);
    let old = comms.clone();
    let kind = s.choose("commitment attack", 7);
    let gens: Vec<C> = g.bp.share(0).G(40).copied().collect();
    comms[i] = match kind {
        0 => (comms[i].into_group() + g.pc.B * d).into_affine(),
        1 => (comms[i].into_group() + g.pc.B_blinding * d).into_affine(),
        2 => (comms[i].into_group() + gens[s.choose("coordinate", 40) as usize] * d).into_affine(),
        3 => (-comms[i].into_group()).into_affine(),
        4 => C::zero(),
        5 => {
            let j = s.choose("other commitment", comms.len() as u64) as usize;
            let t = comms[j];
            comms[j] = comms[i];
            t
        }
        _ => {
            let j = s.choose("other commitment", comms.len() as u64) as usize;
            // keep the sum
            if j != i {
                comms[j] = (comms[j].into_group() - g.pc.B * d).into_affine();
            }
            (comms[i].into_group() + g.pc.B * d).into_affine()
        }
    };
    if comms == old {
        return Err(Stop::Skip("commitments unchanged"));
    }
    s.fault("commitments exchanged");
    s.nontrivial = true;
    s.state(hash_str(&format!("commit {kind} {i} {}", comms.len())));
    if verify::<C>(s, prog, &model, &comms, &proof, b"program")? {
        return violation("other-commitment-accepted", format!("proof accepted with commitment {i} changed (kind {kind}, {})", C::NAME));
    }
    Ok(())
}

/// One element of the proof changed.
fn elements<C: Crv>(s: &mut Sim, prog: &Prog<C::ScalarField>, r: &mut Rng64) -> Res {
    let model = Model::of(prog, &[]);
    let (proof, comms) = honest::<C>(s, prog, &model)?;
    let Some(mut parts) = Parts::<C>::parse(&proof) else { return Err(Stop::Skip("proof bytes not understood")) };
    let g = C::gens();
    let d: C::ScalarField = if s.choose("change size", 3) == 0 { C::ScalarField::from(1u64) } else { nonzero(r) };
    let kind = s.choose("element attack", 12);
    let name: String = match kind {
        0..=2 => {
            let mut ps = parts.scalars();
            let i = s.choose("which scalar", ps.len() as u64) as usize;
            let (n, x) = &mut ps[i];
            match kind {
                0 => **x += d,
                1 => **x = -**x,
                _ => **x = C::ScalarField::zero(),
            }
            n.clone()
        }
        3..=6 => {
            let mut ps = parts.points();
            let i = s.choose("which point", ps.len() as u64) as usize;
            let (n, x) = &mut ps[i];
            let by = [g.pc.B, g.pc.B_blinding, *g.bp.share(0).G(1).next().unwrap()][s.choose("direction", 3) as usize];
            **x = match kind {
                3 | 4 => (x.into_group() + by * d).into_affine(),
                5 => (-x.into_group()).into_affine(),
                _ => C::zero(),
            };
            n.clone()
        }
        7 => {
            // two points exchanged
            let mut ps = parts.points();
            let i = s.choose("which point", ps.len() as u64) as usize;
            let j = s.choose("other point", ps.len() as u64) as usize;
            let (a, b) = (*ps[i].1, *ps[j].1);
            *ps[i].1 = b;
            *ps[j].1 = a;
            format!("{} <-> {}", ps[i].0, ps[j].0)
        }
        8 => {
            // shape: one more or one fewer
            let v = match s.choose("which list", 3) {
                0 => &mut parts.t,
                1 => &mut parts.l,
                _ => &mut parts.r,
            };
            if s.choose("longer", 2) == 1 || v.is_empty() {
                let x = [C::zero(), g.pc.B][s.choose("with", 2) as usize];
                let at = s.choose("at", v.len() as u64 + 1) as usize;
                v.insert(at, x);
            } else {
                let at = s.choose("at", v.len() as u64) as usize;
                v.remove(at);
            }
            "list length".into()
        }
        9 => {
            // opposite changes of two scalars
            parts.s[0] += d;
            let k = 1 + s.choose("second", 2) as usize;
            parts.s[k] -= d;
            "scalars shifted against each other".into()
        }
        10 => {
            // phase two elements added, changed or removed
            if parts.flag == 0 {
                parts.flag = 1;
                parts.two = (0..3).map(|i| if s.choose("zero", 2) == 1 { C::zero() } else { (g.pc.B * (d + C::ScalarField::from(i as u64))).into_affine() }).collect();
            } else {
                parts.flag = 0;
                parts.two.clear();
            }
            "phase two".into()
        }
        _ => {
            parts.flag = parts.flag.wrapping_add(2 + s.choose("flag", 254) as u8);
            if parts.flag < 2 {
                parts.flag = 7;
            }
            "phase flag".into()
        }
    };
    let b = parts.bytes();
    if b == proof {
        return Err(Stop::Skip("proof unchanged"));
    }
    s.fault("proof element changed");
    s.nontrivial = true;
    s.state(hash_str(&format!("element {kind} {name}")));
    if verify::<C>(s, prog, &model, &comms, &b, b"program")? {
        return violation("changed-proof-accepted", format!("proof accepted after a change of {name} (kind {kind}, {})", C::NAME));
    }
    Ok(())
}

/// An honest proof offered for another statement.
fn transplant<C: Crv>(s: &mut Sim, prog: &Prog<C::ScalarField>, r: &mut Rng64) -> Res {
    let model = Model::of(prog, &[]);
    let (proof, comms) = honest::<C>(s, prog, &model)?;
    let mut p2 = prog.clone();
    let mut label: &'static [u8] = b"program";
    let kind = s.choose("other statement", 6);
    let n = p2.steps.len() as u64;
    match kind {
        0 => label = b"progran",
        1 => {
            // a constraint more, about what is there
            let d = nonzero::<C::ScalarField>(r);
            let nv = model.vals.len();
            if nv == 0 {
                return Err(Stop::Skip("no variables"));
            }
            let v = s.choose("variable", nv as u64) as usize;
            if (model.vals[v] * d).is_zero() {
                return Err(Stop::Skip("constraint holds"));
            }
            p2.steps.push(Step::Con(Lc { terms: vec![(v, d)], style: 0 }, C::ScalarField::zero()));
        }
        2 => {
            // a coefficient changed
            let cands: Vec<usize> = (0..p2.steps.len()).filter(|i| matches!(&p2.steps[*i], Step::Con(l, _) if !l.terms.is_empty())).collect();
            if cands.is_empty() {
                return Err(Stop::Skip("no constraint"));
            }
            let i = cands[s.choose("constraint", cands.len() as u64) as usize];
            if let Step::Con(l, _) = &mut p2.steps[i] {
                let k = s.choose("term", l.terms.len() as u64) as usize;
                l.terms[k].1 += C::ScalarField::from(1u64);
                let (v, _) = l.terms[k];
                if v != ONE && model.vals[v].is_zero() {
                    return Err(Stop::Skip("constraint holds"));
                }
            }
        }
        3 => {
            // a multiplication's input changed
            let cands: Vec<usize> = (0..p2.steps.len()).filter(|i| matches!(&p2.steps[*i], Step::Mul(..))).collect();
            if cands.is_empty() {
                return Err(Stop::Skip("no multiplication"));
            }
            let i = cands[s.choose("multiplication", cands.len() as u64) as usize];
            let side = s.choose("side", 2);
            if let Step::Mul(a, b) = &mut p2.steps[i] {
                let l = if side == 0 { a } else { b };
                l.terms.push((ONE, nonzero(r)));
            }
        }
        4 => {
            // another message in the transcript
            let at = s.choose("at", n + 1) as usize;
            p2.steps.insert(at, Step::Msg(vec![1, 2, 3]));
        }
        _ => {
            // one gate more or one gate fewer, changing the padded size or not
            p2.steps.push(Step::AllocMul(C::ScalarField::from(1u64), C::ScalarField::from(1u64)));
            let k = s.choose("more gates", 3);
            for _ in 0..k {
                p2.steps.push(Step::AllocMul(C::ScalarField::from(1u64), C::ScalarField::from(2u64)));
            }
            if p2.rand.iter().flatten().all(|x| matches!(x, RStep::Con(..))) {
                // within the padding an unconstrained gate makes no difference to the statement
                let before = model.circ.size();
                let after = before.max(model.circ.gates + 1 + k as usize);
                if before.next_power_of_two() == after.next_power_of_two() {
                    return Err(Stop::Skip("statement unchanged"));
                }
            }
        }
    }
    let mut m2 = Model::of(&p2, &[]);
    // the constants stay those of the original statement
    if matches!(kind, 1..=3) {
        for i in 0..model.close.len() {
            m2.close[i] = model.close[i];
        }
        if kind == 1 {
            *m2.close.last_mut().unwrap() = C::ScalarField::zero();
        }
        // the closures keep their constants too
        m2.vals = model.vals.clone();
    }
    s.fault("proof moved to another statement");
    s.nontrivial = true;
    s.state(hash_str(&format!("transplant {kind}")));
    if verify::<C>(s, &p2, &m2, &comms, &proof, label)? {
        return violation("other-statement-accepted", format!("proof accepted for another statement (kind {kind}, {})", C::NAME));
    }
    Ok(())
}
