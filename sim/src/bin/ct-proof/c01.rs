//! C01: an honest proof of a satisfied program verifies, whatever the program, the randomness and
//! the schedule.
use bulletproofs::r1cs::*;
use bulletproofs::BulletproofGens;
use ctsim::engine::*;
use ctsim::prog::*;
use ctsim::{ensure, on_curve};
use merlin::Transcript;
use simctx::RngFault;

pub const CHECK: Check = Check {
    id: "C01",
    level: "exploration",
    run,
    quick_runs: 30_000,
    thorough_runs: 120_000,
    rule: "one evaluation = one random satisfied program (commitments, vector commitments, gates, constraints, randomized closures; sizes stepped over powers of two and their neighbours) proved and verified by simulated parties under a random scheduler, worker count and random source faults, delivered as values or bytes; non-trivial if it has at least one gate or constraint; distinct by digest of all choices",
    real: crate::REAL,
    stubs: crate::STUBS,
    assumptions: &["the generators are sufficient for the program (a run with too few expects an error)"],
};

fn run(s: &mut Sim) -> Res {
    if s.choose("large program", 60) == 59 {
        return go::<ctsim::toy::t61::EvenA>(s, true);
    }
    on_curve!(s, go(s, false))
}
pub fn rng_faults(s: &mut Sim, env: &mut Env) {
    let n = [0, 0, 0, 1, 2][s.choose("random source faults", 5) as usize];
    for _ in 0..n {
        let at = s.small("fault at", 200);
        env.faults.push(match s.choose("fault kind", 2) {
            0 => RngFault::Flip { stream: 0, at },
            _ => RngFault::Repeat { stream: 0, at, back: 1 + s.small("back", 16), len: 1 + s.small("len", 12) },
        });
    }
}

fn go<C: Crv>(s: &mut Sim, large: bool) -> Res {
    let slow = !C::NAME.starts_with('t');
    let mut shape = Shape::draw(s, if slow { 12 } else { 40 });
    if large {
        match s.choose("large in", 4) {
            // the library has names for this many
            0 => shape.vecs = (0..6 + s.choose("many vectors", 26)).map(|i| 1 + (i as usize * 7) % 9).collect(),
            1 => shape.vecs = vec![[100, 127, 128, 129, 500, 512, 1000, 1024, LARGE][s.choose("long vector", 9) as usize]],
            2 => shape.gates = [65, 127, 128, 129, 255, 256, 257, 511, 513, 1000, 1025, LARGE][s.choose("many gates", 12) as usize],
            _ => shape.cons = [100, 255, 256, 257, 1000, 1025, 3000][s.choose("many constraints", 7) as usize],
        }
        if !shape.vecs.is_empty() {
            shape.rand.iter_mut().for_each(|x| x.0 = 0);
        }
        if shape.gates >= LARGE {
            (shape.singles, shape.rand) = (0, vec![]);
        }
    } else if s.choose("step over sizes", 4) == 1 {
        // exact sizes around powers of two
        shape.gates = [0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64][s.stratum("exact gates", if slow { 10 } else { 17 }) as usize];
        shape.singles = 0;
    }
    let prog: Prog<C::ScalarField> = Prog::random(&shape, s.seed("program"));
    let model = Model::of(&prog, &[]);
    s.note(format!("{} {shape:?}", C::NAME));
    s.nontrivial = model.circ.gates + model.circ.cons.len() > 0;
    s.state(hash_str(&format!("{} {:?}", C::NAME, shape)));
    let g = C::gens();
    // generators: plenty, or exactly enough (phase two gates included), or one too few
    let need = (model.circ.size() + prog.phase_two_gates()).next_power_of_two();
    let full = if C::NAME == "t61-even" { LARGE } else { CAP };
    let cap = match s.choose("capacity", 6) {
        0..=3 => full,
        4 => need,
        _ if need > 1 && shape.vecs.iter().all(|d| *d < need) => need - 1,
        _ => need,
    };
    let own;
    let bp = if cap == full {
        &g.bp
    } else {
        own = BulletproofGens::<C>::new(cap, 1 + s.choose("parties", 2) as usize);
        &own
    };
    let mut env = s.env("prover");
    rng_faults(s, &mut env);
    let out = s.party("prover", &env, || -> Result<_, R1CSError> {
        let mut p = Prover::new(&g.pc, Transcript::new(b"program"));
        let (comms, vars) = on_prover(&mut p, &prog, &model, bp)?;
        let evals: Vec<_> = vars.iter().map(|v| p.eval(&(*v).into())).collect();
        let met = p.metrics();
        let size = p.size();
        Ok((p.prove(bp)?, comms, evals, (met.multipliers, met.phase_one_constraints, met.phase_two_constraints), size))
    });
    if cap < need {
        s.count("too few generators");
        match out.ok("prover")? {
            Err(R1CSError::InvalidGeneratorsLength) => return Ok(()),
            Err(e) => return violation("too-few-generators", format!("prover with {cap} of {need} generators: {e:?}")),
            Ok(_) => return violation("too-few-generators", format!("prover with {cap} of {need} generators made a proof")),
        }
    }
    let (proof, comms, evals, met, size) = match out.ok("prover")? {
        Ok(x) => x,
        Err(e) => return violation("prover-error", format!("{e:?}")),
    };
    ensure!(evals == model.vals, "assignment", "the prover assigns other values than the model");
    ensure!(
        met == (model.circ.gates, model.circ.cons.len(), prog.rand.len()) && size == model.circ.size(),
        "metrics", "prover metrics {met:?} size {size}, model {} gates {} constraints", model.circ.gates, model.circ.cons.len()
    );
    ensure!(
        comms == model_commitments(&prog, &g.pc, bp),
        "commitment", "the prover's commitments are not the Pedersen commitments of its openings"
    );
    // delivery
    let proof = if s.choose("delivery", 2) == 0 {
        proof
    } else {
        let b = proof.to_bytes();
        s.link("proof", &b);
        match R1CSProof::<C>::from_bytes(&b) {
            Ok(p) => p,
            Err(e) => return violation("decode", format!("honest proof does not decode: {e:?}")),
        }
    };
    let batch = s.choose("batch verifier", 3) == 2;
    if need > 1 && s.choose("verifier with too few generators", 8) == 1 {
        let few = match s.choose("how few", 3) {
            0 => need - 1,
            1 => need / 2,
            _ => s.choose("generators", need as u64) as usize,
        };
        let env = s.env("verifier with too few generators");
        let r = s
            .party("verifier with too few generators", &env, || -> Result<(), R1CSError> {
                let bp = BulletproofGens::<C>::new(few, 1);
                let mut v = Verifier::new(Transcript::new(b"program"));
                on_verifier(&mut v, &prog, &model, &comms)?;
                if batch {
                    batch_verify(vec![v.verification_scalars_and_points(&proof)?], &g.pc, &bp)
                } else {
                    v.verify(&proof, &g.pc, &bp)
                }
            })
            .ok("verifier with too few generators")?;
        s.count("verifier with too few generators");
        ensure!(matches!(r, Err(R1CSError::InvalidGeneratorsLength)), "too-few-generators", "verifier with {few} of {need} generators: {r:?} ({} {shape:?})", C::NAME);
    }
    let rounds = 1 + s.choose("repeat", 2);
    for _ in 0..rounds {
        let mut env = s.env("verifier");
        rng_faults(s, &mut env);
        let r = s
            .party("verifier", &env, || -> Result<_, R1CSError> {
                let mut v = Verifier::new(Transcript::new(b"program"));
                on_verifier(&mut v, &prog, &model, &comms)?;
                let met = v.metrics();
                let m = ((met.multipliers, met.phase_one_constraints, met.phase_two_constraints), v.size());
                if batch {
                    batch_verify(vec![v.verification_scalars_and_points(&proof)?], &g.pc, bp)?
                } else {
                    v.verify(&proof, &g.pc, bp)?
                }
                Ok(m)
            })
            .ok("verifier")?;
        match r {
            Ok(m) => ensure!(m == (met, size), "metrics", "verifier sees {m:?}, prover {met:?} {size}"),
            Err(e) => return violation("rejected", format!("honest proof rejected: {e:?} ({} {shape:?})", C::NAME)),
        }
        s.count("honest proofs verified");
    }
    Ok(())
}
