//! C12: batched membership proofs of distinct leaves always verify.
use crate::util::*;
use ark_ec::CurveGroup;
use ctsim::engine::*;
use ctsim::tree::*;
use ctsim::{ensure, on_batch_tree};

pub const CHECK: Check = Check {
    id: "C12",
    level: "exploration",
    run,
    quick_runs: 2500,
    thorough_runs: 80_000,
    rule: "one evaluation = a random tree built for batches of M members (M = 1 to 4; heights, fill levels and branching factors stepped through) and one to three batched proofs for tuples of distinct positions sharing the two proof systems, edge-case rerandomizations injected, random schedules, the verifier holding the roots only; with one member a plain proof of the same leaf is compared; distinct by digest of all choices",
    real: crate::REAL,
    stubs: crate::STUBS,
    assumptions: &["the members of one batch are distinct leaves (equal ones make the library's incomplete addition of equal points undefined)", "rerandomization scalars for which the windowed addition meets equal or opposite points are excluded"],
};
fn run(s: &mut Sim) -> Res {
    on_batch_tree!(s, go(s))
}
fn go<Y: Cyc, const L: usize, const M: usize>(s: &mut Sim) -> Res {
    let prm = Y::params();
    let max = if slow::<Y>() { 2 } else { [7, 5, 4][L.min(4) - 2] };
    let max = (1..=max).rev().find(|h| fits::<Y>(L, M, *h) > 0).unwrap_or(1);
    let mut sh = TShape::draw(s, L, max, 400);
    if sh.n < M {
        sh.n = M;
        let mut h = 0;
        while L.pow(h) < M {
            h += 1;
        }
        sh.height = sh.height.max(h as usize);
    }
    let set = leaves::<Y>(sh.n, sh.seed);
    let tree = Tree::<Y, L, M>::from_set(&set, prm, sh.extra);
    sh.height = tree.height();
    let rounds = if slow::<Y>() { 1 } else { 1 + s.choose("batches", 3).min(s.choose("fewer batches", 3)) as usize };
    let rounds = rounds.min(fits::<Y>(L, M, sh.height)).max(1);
    let mut all = vec![];
    for _ in 0..rounds {
        let mut t = [0usize; M];
        let near = s.choose("close together", 3) == 0;
        let start = s.choose("first", sh.n as u64) as usize;
        for i in 0..M {
            let mut x = if near { (start + i) % sh.n } else { s.choose("leaf", sh.n as u64) as usize };
            while t[..i].contains(&x) {
                x = (x + 1) % sh.n;
            }
            t[i] = x;
        }
        all.push(t);
    }
    s.note(format!("{} L={L} M={M} {} leaves height {} indices {all:?}", Y::NAME, sh.n, sh.height));
    s.nontrivial = true;
    s.state(hash_str(&format!("{} {L} {M} {} {} {all:?}", Y::NAME, sh.n, sh.height)));
    let mut er = EdgeRng::new();
    if s.choose("edge scalars", 2) == 1 {
        for _ in 0..rounds {
            let (ne, no) = (sh.height / 2, sh.height - sh.height / 2);
            for _ in 0..ne {
                let x = edge_scalar::<Y::F1>(s, "edge odd").unwrap_or_else(|| some(s));
                er.push(x);
            }
            for _ in 0..no - 1 + M {
                let x = edge_scalar::<Y::F0>(s, "edge even").unwrap_or_else(|| some(s));
                er.push(x);
            }
        }
    }
    let env = s.env("prover");
    let label: &'static [u8] = b"batched";
    let (pe, po, paths, rs) = match s.party("prover", &env, || mprove::<Y, L, M>(&tree, &all, label, &mut er, prm)).ok("prover")? {
        Ok(x) => x,
        Err(e) => return violation("prover-error", format!("{e:?}")),
    };
    let h = prm.even_parameters.pc_gens.B_blinding;
    for i in 0..rounds {
        for j in 0..M {
            ensure!(
                paths[i].selected_commitments[j] == (set[all[i][j]] + h * rs[i][j]).into_affine(),
                "opening", "published commitment {j} is not leaf {} plus the returned rerandomization", all[i][j]
            );
        }
    }
    let own = if s.choose("verifier's tree", 2) == 0 { pruned::<Y, L, M>(&tree) } else { Tree::<Y, L, M>::from_set(&set, prm, sh.extra) };
    let batch = s.choose("batch", 2) == 1;
    let env = s.env("verifier");
    match s.party("verifier", &env, || mverify::<Y, L, M>(&own, &paths, &pe, &po, label, batch, prm)).ok("verifier")? {
        Err(e) => return violation("rejected", format!("{} L={L} M={M} height {} leaves {} indices {all:?}: honest batched proof rejected ({e})", Y::NAME, sh.height, sh.n)),
        Ok(l) => {
            for i in 0..rounds {
                ensure!(l[i] == paths[i].selected_commitments, "leaf", "the verifier returns other commitments than those published");
            }
        }
    }
    s.add("batched proofs verified", rounds as u64);
    if M == 1 {
        // the plain proof of the same leaf
        let idx = [all[0][0]];
        let env = s.env("plain prover");
        let mut er = EdgeRng::new();
        let r = s.party("plain prover", &env, || prove::<Y, L, M>(&tree, &idx, label, &mut er, prm)).ok("prover")?;
        let Ok((pe, po, paths, _)) = r else { return violation("prover-error", "plain proof") };
        let env = s.env("plain verifier");
        if let Err(e) = s.party("plain verifier", &env, || verify::<Y, L, M>(&own, &paths, &pe, &po, label, batch, prm)).ok("verifier")? {
            return violation("rejected", format!("plain proof of the same leaf rejected: {e}"));
        }
        s.count("plain proofs compared");
    }
    Ok(())
}
