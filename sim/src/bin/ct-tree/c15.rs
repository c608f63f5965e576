//! C15: range proofs accept exactly the values in range.
use crate::c14::{enter, field, honest, judge};
use ark_ec::models::short_weierstrass::SWCurveConfig;
use ark_ff::{BigInteger, Field, PrimeField, Zero};
use bulletproofs::r1cs::*;
use ctsim::circ::*;
use ctsim::collect::Collector;
use ctsim::engine::*;
use ctsim::plan::*;
use ctsim::tiny::*;
use ctsim::tree::*;
use ctsim::{ensure, on_small, on_tiny};
use merlin::Transcript;
use relations::range_proof::range_proof;

pub const CHECK: Check = Check {
    id: "C15",
    level: "exploration",
    run,
    quick_runs: 12_000,
    thorough_runs: 200_000,
    rule: "one evaluation = either the gadget over a field of 13 to 223 elements, its adversary's whole assignment space searched for every value and bit length 0 to 10 (satisfiable must mean that an integer in range has this residue), or one to three range statements on commitments over 61 to 255 bit curves with lengths 0 to the field's and values at and around the boundaries: honest ones must prove and verify, and for values out of range a Byzantine prover (truncated bits, digits larger than one, negative digits, gates or constraints broken one at a time, a planner working on the verifier's own circuit) must be refused; distinct by digest of all choices",
    real: crate::REAL,
    stubs: crate::STUBS,
    assumptions: &["for lengths at which the field wraps around every residue with a representative in range counts as in range"],
};
fn run(s: &mut Sim) -> Res {
    if s.stratum("kind", 4) < 3 && cfg!(curve_trees_sim) {
        if s.choose("field size", 2) == 0 {
            return on_tiny!(s, tiny(s));
        }
        return on_small!(s, tiny(s));
    }
    match s.choose("curve", 60) {
        0..=39 => large::<T61>(s),
        40..=49 => large::<T90>(s),
        50..=57 => large::<T127>(s),
        58 => large::<Pasta>(s),
        _ => large::<Secp>(s),
    }
}
fn tiny<P: SWCurveConfig + Copy>(s: &mut Sim) -> Res
where
    P::BaseField: PrimeField,
{
    type F<P> = <P as ark_ec::CurveConfig>::BaseField;
    let p = modulus::<F<P>>();
    let n = s.choose("bits", 11) as usize;
    let v: F<P> = match s.choose("value", 4) {
        0 => F::<P>::from(2u64).pow([n as u64]),
        1 => -F::<P>::from(s.choose("below zero", 3)),
        _ => field(s, "value"),
    };
    let least = small(v);
    let holds = least < 1 << n;
    let mut c = Collector::new();
    let x = enter(s, &mut c, v);
    range_proof(&mut c, x, None, n).expect("range gadget");
    if holds {
        // any representative the prover likes
        let most = ((1u64 << n) - 1 - least) / p;
        let k = least + p * s.choose("representative", most + 1);
        let mut w = Collector::new();
        let x = enter(s, &mut w, v);
        range_proof(&mut w, x, Some(k), n).expect("range gadget");
        honest(s, "range", &w, None)?;
    }
    judge(s, "range", &c, holds, || format!("{v} in {n} bits mod {p}"))
}
/// The integer in 0..2^n, if it is one.
fn in_range<F: PrimeField>(v: F, n: usize) -> bool {
    n >= F::MODULUS_BIT_SIZE as usize || v.into_bigint().num_bits() as usize <= n
}
fn value<F: PrimeField>(s: &mut Sim, n: usize, honest: bool) -> F {
    let two = F::from(2u64);
    let small = F::from(s.choose("distance", 5));
    let top = two.pow([n as u64]);
    let u = n.min(64).min(F::MODULUS_BIT_SIZE as usize - 1);
    if honest {
        let max = if u == 0 { 0 } else { u64::MAX >> (64 - u) };
        let x = match s.choose("value", 5) {
            0 => 0,
            1 => max,
            2 => max - s.choose("distance", 5).min(max),
            3 => 1u64.checked_shl(s.choose("bit", u as u64 + 1) as u32).unwrap_or(0).min(max),
            _ => s.seed("value") & max,
        };
        return F::from(x);
    }
    match s.choose("value out of range", 9) {
        0 => top,
        1 => top + small,
        2 => -F::from(1u64) - small,
        3 => -(top - small),
        4 => top * two.pow([s.choose("factor", 4)]) + small,
        // fits only modulo the field order
        5 => two.inverse().unwrap(),
        6 => (F::from(1u64) + small) * (top - F::from(1u64)).inverse().unwrap_or(F::from(3u64)),
        7 => top + top - F::from(1u64),
        _ => crate::util::some(s),
    }
}
fn large<Y: Cyc>(s: &mut Sim) -> Res {
    type C<Y> = Ev<Y>;
    let prm = &Y::params().even_parameters;
    let bits = Y::F0::MODULUS_BIT_SIZE as usize;
    let k = 1 + s.choose("statements", 3) as usize;
    let bad = s.choose("dishonest statement", k as u64 + 1) as usize; // 0: none
    let label = b"range";
    struct St<F> {
        n: usize,
        /// parts that add up to the value, each committed
        parts: Vec<F>,
        claim: u64,
    }
    let mut sts = vec![];
    for i in 0..k {
        let n = match s.choose("length", 6) {
            0 => s.choose("bits", 9) as usize,
            1 => 64,
            2 => bits - 1 - s.choose("below field", 3) as usize,
            3 => [8, 16, 32, 48, 63, 65, 128, 200][s.choose("usual", 8) as usize],
            _ => s.choose("bits", bits as u64) as usize,
        }
        .min(bits - 1);
        let mut v = value::<Y::F0>(s, n, i + 1 != bad);
        if i + 1 == bad && in_range(v, n) {
            v = Y::F0::from(2u64).pow([n as u64]);
        }
        let parts = match s.choose("parts", 3) {
            0 => vec![v],
            1 => {
                let a: Y::F0 = crate::util::some(s);
                vec![v - a, a]
            }
            _ => {
                let a = Y::F0::from(s.choose("part", 1000));
                vec![v + a, -a]
            }
        };
        let claim = match (i + 1 == bad, s.choose("claimed bits", 3)) {
            (true, 1) => u64::MAX,
            (true, 2) => s.seed("claim"),
            _ => v.into_bigint().as_ref()[0],
        };
        sts.push(St { n, parts, claim });
    }
    let total: usize = sts.iter().map(|x| x.n).sum();
    s.note(format!("{} lengths {:?} dishonest {bad}", Y::NAME, sts.iter().map(|x| x.n).collect::<Vec<_>>()));
    s.nontrivial = total > 0;
    s.state(hash_str(&format!("{} {:?} {bad}", Y::NAME, sts.iter().map(|x| x.n).collect::<Vec<_>>())));
    let gens = &prm.bp_gens;
    let env = s.env("prover");
    let vseed = s.seed("blinding");
    let verifier = |comms: &[Vec<C<Y>>]| {
        let mut v: Verifier<Transcript, C<Y>> = Verifier::new(Transcript::new(label));
        for (st, c) in sts.iter().zip(comms) {
            let mut l = LinearCombination::default();
            for c in c {
                l = l + v.commit(*c);
            }
            range_proof(&mut v, l, None, st.n).expect("range gadget");
        }
        v
    };
    let attack = if bad > 0 { s.choose("attack", 7) } else { 0 };
    let at = s.choose("attacked bit", 8);
    let at = if at < 7 { [usize::MAX, 0, 64, 31, 63, 62, 32][at as usize] } else { s.choose("bit", bits as u64) as usize };
    let mut planned = false;
    let (proof, comms) = s
        .party("prover", &env, || {
            let mut p: Prover<Transcript, C<Y>> = Prover::new(&prm.pc_gens, Transcript::new(label));
            let mut r = simctx::Rng64::new(vseed);
            let mut comms = vec![];
            let mut first = 0;
            let mut gate = 0;
            for (i, st) in sts.iter().enumerate() {
                let mut l = LinearCombination::default();
                let mut cs = vec![];
                for x in &st.parts {
                    let (c, v) = p.commit(*x, ctsim::prog::uniform(&mut r));
                    cs.push(c);
                    l = l + v;
                }
                comms.push(cs);
                if i + 1 == bad {
                    first = gate;
                }
                range_proof(&mut p, l, Some(st.claim), st.n).expect("range gadget");
                gate += st.n;
            }
            if bad > 0 {
                corrupt::<Y>(&mut p, attack, at, first, &sts[bad - 1].parts, sts[bad - 1].n, &verifier(&comms), &mut planned);
            }
            p.prove(gens).map(|x| (x, comms))
        })
        .ok("prover")?
        .map_err(|e| Stop::Violation("prover-error".into(), format!("{e:?}")))?;
    if bad > 0 {
        s.fault(["truncated bits", "top digit too large", "one digit too large, output zero", "negative digit", "constant ones", "planner on the verifier's circuit", "one digit too large, its complement zero"][attack as usize]);
        if planned {
            s.fault("planner found an assignment");
        }
    }
    let env = s.env("verifier");
    let batch = s.choose("batch", 2) == 1;
    let got = s
        .party("verifier", &env, || {
            let v = verifier(&comms);
            if batch {
                v.verification_scalars_and_points(&proof).and_then(|t| batch_verify(vec![t], &prm.pc_gens, gens))
            } else {
                v.verify(&proof, &prm.pc_gens, gens)
            }
        })
        .ok("verifier")?;
    let shape: Vec<_> = sts.iter().map(|x| (x.n, x.parts.iter().sum::<Y::F0>())).collect();
    if bad == 0 {
        ensure!(got.is_ok(), "rejected", "{}: honest range proof rejected: {shape:?}: {got:?}", Y::NAME);
        s.count("honest range proofs accepted");
    } else {
        ensure!(got.is_err(), "accepted", "{}: out of range value accepted in statement {bad}: {shape:?} (attack {attack})", Y::NAME);
        s.count("out of range values refused");
    }
    Ok(())
}
/// The dishonest prover's choice of digits for the statement whose gates start at `first`.
#[cfg(curve_trees_sim)]
#[allow(clippy::too_many_arguments)]
fn corrupt<Y: Cyc>(p: &mut Prover<Transcript, Ev<Y>>, attack: u64, at: usize, first: usize, parts: &[Y::F0], n: usize, v: &Verifier<Transcript, Ev<Y>>, planned: &mut bool) {
    if n == 0 {
        return;
    }
    type F<Y> = <Y as Cyc>::F0;
    let val: F<Y> = parts.iter().sum();
    let le = val.into_bigint().to_bits_le();
    let one = F::<Y>::from(1u64);
    let two = one + one;
    let mut d: Vec<F<Y>> = (0..n).map(|i| F::<Y>::from(le.get(i).copied().unwrap_or(false) as u64)).collect();
    // one digit takes whatever is missing
    let absorb = |d: &mut Vec<F<Y>>, k: usize| {
        let s: F<Y> = d.iter().enumerate().filter(|(i, _)| *i != k).map(|(i, x)| *x * two.pow([i as u64])).sum();
        d[k] = (val - s) * two.pow([k as u64]).inverse().unwrap();
    };
    let k = at.min(n - 1);
    match attack {
        0 => {}
        1 | 2 | 6 => absorb(&mut d, k),
        3 => {
            d[k] = -one;
        }
        4 => d.iter_mut().for_each(|x| *x = one),
        _ => {
            let Some(circ) = Circuit::of_verifier(v) else { return };
            let w = p.sim_witness();
            let vals: Vec<F<Y>> = w.v.clone();
            let hint: Vec<F<Y>> = w.a_l.iter().zip(w.a_r.iter()).zip(w.a_o.iter()).flat_map(|((a, b), c)| [*a, *b, *c]).collect();
            let tries = [F::<Y>::zero(), one, -one, two];
            let h = |i: usize| Some(hint[i]);
            let mut pl = Plan::new(&circ, &vals, &[], &h, &tries);
            pl.budget = 60;
            if let Some(sol) = pl.solve() {
                *planned = true;
                for g in 0..circ.gates {
                    w.a_l[g] = sol[3 * g];
                    w.a_r[g] = sol[3 * g + 1];
                    w.a_o[g] = sol[3 * g + 2];
                }
            }
            return;
        }
    }
    let w = p.sim_witness();
    for i in 0..n {
        w.a_l[first + i] = if attack == 6 && i == k { F::<Y>::zero() } else { one - d[i] };
        w.a_r[first + i] = d[i];
        w.a_o[first + i] = if attack == 2 || attack == 6 { F::<Y>::zero() } else { (one - d[i]) * d[i] };
    }
}
#[cfg(not(curve_trees_sim))]
#[allow(clippy::too_many_arguments)]
fn corrupt<Y: Cyc>(_: &mut Prover<Transcript, Ev<Y>>, _: u64, _: usize, _: usize, _: &[Y::F0], _: usize, _: &Verifier<Transcript, Ev<Y>>, _: &mut bool) {}
