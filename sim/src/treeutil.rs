use bulletproofs::r1cs::*;
use crate::engine::Sim;
use crate::tree::*;
use ark_ff::PrimeField;
use merlin::Transcript;

/// Some uniform element.
pub fn some<F: PrimeField>(s: &mut Sim) -> F {
    let mut r = simctx::Rng64::new(s.seed("element"));
    crate::prog::nonzero(&mut r)
}
type Proofs<Y> = (R1CSProof<Ev<Y>>, R1CSProof<Od<Y>>);
pub fn prove<Y: Cyc, const L: usize, const M: usize>(
    tree: &Tree<Y, L, M>,
    idx: &[usize],
    label: &'static [u8],
    rng: &mut EdgeRng,
    prm: &Prm<Y>,
) -> Result<(R1CSProof<Ev<Y>>, R1CSProof<Od<Y>>, Vec<Path<Y, L>>, Vec<Y::F0>), R1CSError> {
    let mut ep: EvProver<Y> = Prover::new(&prm.even_parameters.pc_gens, Transcript::new(label));
    let mut op: OdProver<Y> = Prover::new(&prm.odd_parameters.pc_gens, Transcript::new(label));
    let (mut paths, mut rs) = (vec![], vec![]);
    for i in idx {
        let (p, r) = tree.select_and_rerandomize_prover_gadget(*i, 0, &mut ep, &mut op, prm, rng);
        paths.push(p);
        rs.push(r);
    }
    let (a, b) = finish::<Y>(ep, op, prm)?;
    Ok((a, b, paths, rs))
}
pub fn finish<Y: Cyc>(ep: EvProver<Y>, op: OdProver<Y>, prm: &Prm<Y>) -> Result<Proofs<Y>, R1CSError> {
    let a = ep.prove(&prm.even_parameters.bp_gens)?;
    let b = op.prove(&prm.odd_parameters.bp_gens)?;
    Ok((a, b))
}
pub fn check<Y: Cyc>(
    ev: EvVerifier<Y>,
    ov: OdVerifier<Y>,
    pe: &R1CSProof<Ev<Y>>,
    po: &R1CSProof<Od<Y>>,
    batch: bool,
    prm: &Prm<Y>,
) -> Result<(), String> {
    let (e, o) = (&prm.even_parameters, &prm.odd_parameters);
    if batch {
        let a = ev.verification_scalars_and_points(pe).map_err(|e| format!("even {e:?}"))?;
        let b = ov.verification_scalars_and_points(po).map_err(|e| format!("odd {e:?}"))?;
        batch_verify(vec![a], &e.pc_gens, &e.bp_gens).map_err(|e| format!("even {e:?}"))?;
        batch_verify(vec![b], &o.pc_gens, &o.bp_gens).map_err(|e| format!("odd {e:?}"))?;
    } else {
        ev.verify(pe, &e.pc_gens, &e.bp_gens).map_err(|e| format!("even {e:?}"))?;
        ov.verify(po, &o.pc_gens, &o.bp_gens).map_err(|e| format!("odd {e:?}"))?;
    }
    Ok(())
}
pub fn verify<Y: Cyc, const L: usize, const M: usize>(
    tree: &Tree<Y, L, M>,
    paths: &[Path<Y, L>],
    pe: &R1CSProof<Ev<Y>>,
    po: &R1CSProof<Od<Y>>,
    label: &'static [u8],
    batch: bool,
    prm: &Prm<Y>,
) -> Result<Vec<Ev<Y>>, String> {
    let mut ev: EvVerifier<Y> = Verifier::new(Transcript::new(label));
    let mut ov: OdVerifier<Y> = Verifier::new(Transcript::new(label));
    let l = paths.iter().map(|p| tree.select_and_rerandomize_verifier_gadget(&mut ev, &mut ov, p.clone(), prm)).collect();
    check::<Y>(ev, ov, pe, po, batch, prm)?;
    Ok(l)
}
pub fn mprove<Y: Cyc, const L: usize, const M: usize>(
    tree: &Tree<Y, L, M>,
    idx: &[[usize; M]],
    label: &'static [u8],
    rng: &mut EdgeRng,
    prm: &Prm<Y>,
) -> Result<(R1CSProof<Ev<Y>>, R1CSProof<Od<Y>>, Vec<MPath<Y, L, M>>, Vec<[Y::F0; M]>), R1CSError> {
    let mut ep: EvProver<Y> = Prover::new(&prm.even_parameters.pc_gens, Transcript::new(label));
    let mut op: OdProver<Y> = Prover::new(&prm.odd_parameters.pc_gens, Transcript::new(label));
    let (mut paths, mut rs) = (vec![], vec![]);
    for i in idx {
        let (p, r) = tree.batched_select_and_rerandomize_prover_gadget(*i, &mut ep, &mut op, prm, rng);
        paths.push(p);
        rs.push(r);
    }
    let (a, b) = finish::<Y>(ep, op, prm)?;
    Ok((a, b, paths, rs))
}
pub fn mverify<Y: Cyc, const L: usize, const M: usize>(
    tree: &Tree<Y, L, M>,
    paths: &[MPath<Y, L, M>],
    pe: &R1CSProof<Ev<Y>>,
    po: &R1CSProof<Od<Y>>,
    label: &'static [u8],
    batch: bool,
    prm: &Prm<Y>,
) -> Result<Vec<[Ev<Y>; M]>, String> {
    let mut ev: EvVerifier<Y> = Verifier::new(Transcript::new(label));
    let mut ov: OdVerifier<Y> = Verifier::new(Transcript::new(label));
    let l = paths.iter().map(|p| tree.batched_select_and_rerandomize_verifier_gadget(&mut ev, &mut ov, p.clone(), prm)).collect();
    check::<Y>(ev, ov, pe, po, batch, prm)?;
    Ok(l)
}
