//! C10: every leaf's membership proof verifies.
use crate::util::*;
use ark_ec::CurveGroup;
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use ctsim::engine::*;
use ctsim::tree::*;
use ctsim::{ensure, on_tree};
use simctx::RngFault;

pub const CHECK: Check = Check {
    id: "C10",
    level: "exploration",
    run,
    quick_runs: 2500,
    thorough_runs: 100_000,
    rule: "one evaluation = a random tree (heights, fill levels, branching factors stepped through) and one to four membership proofs for random leaves sharing the two proof systems, with edge-case rerandomizations injected through the caller's random source, made and verified by parties under random schedules, the verifier holding the root only, proofs and paths delivered as values or as bytes; distinct by digest of all choices",
    real: crate::REAL,
    stubs: crate::STUBS,
    assumptions: &["the rerandomization scalars are not among the (negligibly few) values for which the windowed addition meets equal or opposite points", "trees of height at least one"],
};
fn run(s: &mut Sim) -> Res {
    on_tree!(s, go(s))
}
fn go<Y: Cyc, const L: usize, const M: usize>(s: &mut Sim) -> Res {
    let prm = Y::params();
    let max = if slow::<Y>() { 2 } else { [8, 5, 4, 3][L.min(5) - 2] };
    let sh = TShape::draw(s, L, max, 400);
    let set = leaves::<Y>(sh.n, sh.seed);
    let tree = Tree::<Y, L, M>::from_set(&set, prm, sh.extra);
    ensure!(tree.height() == sh.height, "height", "tree of {} leaves, requested {:?}, has height {}", sh.n, sh.extra, tree.height());
    let cap = if slow::<Y>() { 1 } else { 4 };
    let k = 1 + s.choose("proofs", cap).min(s.choose("fewer proofs", 4)) as usize;
    let k = k.min(fits::<Y>(L, 1, sh.height)).max(1);
    let idx: Vec<usize> = (0..k)
        .map(|_| match s.choose("index", 4) {
            0 => 0,
            1 => sh.n - 1,
            _ => s.choose("leaf", sh.n as u64) as usize,
        })
        .collect();
    s.note(format!("{} L={L} M={M} {} leaves height {} indices {idx:?}", Y::NAME, sh.n, sh.height));
    s.nontrivial = true;
    s.state(hash_str(&format!("{} {L} {} {} {idx:?}", Y::NAME, sh.n, sh.height)));
    let mut er = EdgeRng::new();
    if s.choose("edge scalars", 2) == 1 {
        for _ in 0..k {
            let (ne, no) = (sh.height / 2, sh.height - sh.height / 2);
            for _ in 0..ne {
                let x = edge_scalar::<Y::F1>(s, "edge odd").unwrap_or_else(|| some(s));
                er.push(x);
            }
            for _ in 0..no {
                let x = edge_scalar::<Y::F0>(s, "edge even").unwrap_or_else(|| some(s));
                er.push(x);
            }
        }
    }
    let mut env = s.env("prover");
    if s.choose("random source fault", 4) == 1 {
        env.faults.push(RngFault::Repeat { stream: 0, at: s.small("fault at", 60), back: 1 + s.small("back", 8), len: 1 + s.small("len", 8) });
    }
    let label: &'static [u8] = *s.pick("label", &[&b"membership"[..], b"", b"x"]);
    let out = s.party("prover", &env, || prove::<Y, L, M>(&tree, &idx, label, &mut er, prm)).ok("prover")?;
    let (pe, po, paths, rs) = match out {
        Ok(x) => x,
        Err(e) => return violation("prover-error", format!("{e:?}")),
    };
    let h = prm.even_parameters.pc_gens.B_blinding;
    for i in 0..k {
        ensure!(
            paths[i].selected_commitment == (set[idx[i]] + h * rs[i]).into_affine(),
            "opening", "published commitment is not leaf {} plus the returned rerandomization", idx[i]
        );
    }
    // delivery
    let bytes = s.choose("delivery", 2) == 1;
    let (pe, po, paths) = if bytes {
        let (a, b) = (pe.to_bytes(), po.to_bytes());
        s.link("even proof", &a);
        s.link("odd proof", &b);
        let pa: Result<Vec<Path<Y, L>>, _> = paths
            .iter()
            .map(|p| {
                let mut v = vec![];
                p.serialize_compressed(&mut v).unwrap();
                Path::<Y, L>::deserialize_compressed(&v[..])
            })
            .collect();
        match (bulletproofs::r1cs::R1CSProof::from_bytes(&a), bulletproofs::r1cs::R1CSProof::from_bytes(&b), pa) {
            (Ok(a), Ok(b), Ok(p)) => (a, b, p),
            _ => return violation("decode", "honest proof or path does not decode"),
        }
    } else {
        (pe, po, paths)
    };
    let own = if s.choose("verifier's tree", 2) == 0 { pruned::<Y, L, M>(&tree) } else { Tree::<Y, L, M>::from_set(&set, prm, sh.extra) };
    let batch = s.choose("batch", 2) == 1;
    let env = s.env("verifier");
    let got = s.party("verifier", &env, || verify::<Y, L, M>(&own, &paths, &pe, &po, label, batch, prm)).ok("verifier")?;
    match got {
        Err(e) => violation("rejected", format!("{} L={L} height {} leaves {} indices {idx:?}: honest membership proof rejected ({e})", Y::NAME, sh.height, sh.n)),
        Ok(l) => {
            for i in 0..k {
                ensure!(l[i] == paths[i].selected_commitment, "leaf", "the verifier returns another commitment than the one published");
            }
            s.add("membership proofs verified", k as u64);
            Ok(())
        }
    }
}
