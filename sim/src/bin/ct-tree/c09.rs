//! C09: a tree commits to exactly its list of leaves.
use ark_ec::AffineRepr;
use ctsim::engine::*;
use ctsim::tree::*;
use ctsim::{ensure, on_batch_tree, on_tree};
use simctx::Rng64;

pub const CHECK: Check = Check {
    id: "C09",
    level: "exploration",
    run,
    quick_runs: 6000,
    thorough_runs: 120_000,
    rule: "one evaluation = one leaf list (sizes stepped over heights and fill levels, all branching factors and batch sizes), built by a party under a random schedule, compared node by node with an independent model, and against one to three edited lists (changed, swapped, moved, added, removed leaves) whose roots must differ; non-trivial if the tree has more than one leaf; distinct by digest of all choices",
    real: crate::REAL,
    stubs: crate::STUBS,
    assumptions: &["a leaf and its mirror image (its negative shifted by twice the offset) have the same x-coordinate and so the same root; edits never exchange these", "collisions of the commitment between unrelated lists are negligible"],
};
fn run(s: &mut Sim) -> Res {
    if s.choose("kind of tree", 2) == 0 {
        on_tree!(s, go(s))
    } else {
        on_batch_tree!(s, go(s))
    }
}
fn go<Y: Cyc, const L: usize, const M: usize>(s: &mut Sim) -> Res {
    let prm = Y::params();
    let max = if slow::<Y>() { 3 } else { [7, 7, 6, 5, 4][L.min(6) - 2] };
    let sh = TShape::draw(s, L, max, if slow::<Y>() { 20 } else { 150 });
    // also none at all: a single leaf as its own root
    let want = if sh.n == 1 && s.choose("leaf as root", 2) == 1 { None } else { sh.extra };
    let mut set = leaves::<Y>(sh.n, sh.seed);
    let mut r = Rng64::new(s.seed("edits"));
    match s.choose("special leaves", 5) {
        1 => {
            let i = r.below(sh.n as u64) as usize;
            set[i] = Ev::<Y>::zero();
        }
        2 => {
            let (i, j) = (r.below(sh.n as u64) as usize, r.below(sh.n as u64) as usize);
            set[i] = set[j];
        }
        _ => {}
    }
    s.note(format!("{} L={L} M={M} {} leaves, requested height {want:?}", Y::NAME, sh.n));
    s.nontrivial = sh.n > 1;
    s.state(hash_str(&format!("{} {L} {M} {} {want:?}", Y::NAME, sh.n)));
    let env = s.env("builder");
    let t = s.party("builder", &env, || Tree::<Y, L, M>::from_set(&set, prm, want)).ok("build")?;
    let m = model::<Y>(&set, L, M, want.unwrap_or(0), prm);
    if let Err(e) = matches::<Y, L, M>(&t, &m) {
        return violation("model", format!("{} L={L} M={M} {} leaves height {want:?}: {e}", Y::NAME, sh.n));
    }
    s.count("trees equal to the model");
    let r0 = root::<Y, L, M>(&t);
    // height afterwards, in one step or several, equals height at construction
    let h0 = r0.0;
    let up = h0 + 1 + s.choose("raise by", 3) as usize;
    let mut raised = Tree::<Y, L, M>::from_set(&set, prm, want).increase_height(None, prm);
    ensure!(matches::<Y, L, M>(&raised, &m).is_ok(), "raise-none", "increase_height(None) changes the tree");
    let steps = s.choose("raise in steps", 3);
    if steps > 0 {
        raised = raised.increase_height(Some(h0 + 1), prm);
    }
    if steps > 1 {
        // asking for less than there is changes nothing
        raised = raised.increase_height(Some(r.below(h0 as u64 + 2) as usize), prm);
    }
    let raised = raised.increase_height(Some(up), prm);
    let mu = model::<Y>(&set, L, M, up, prm);
    if let Err(e) = matches::<Y, L, M>(&raised, &mu) {
        return violation("raise", format!("raised from {h0} to {up}: {e}"));
    }
    let direct = Tree::<Y, L, M>::from_set(&set, prm, Some(up));
    ensure!(root::<Y, L, M>(&direct) == root::<Y, L, M>(&raised), "raise", "height {up} at construction and afterwards give different roots");
    // a different list has a different root
    for _ in 0..1 + s.choose("edits", 3) {
        let mut other = set.clone();
        let n = other.len();
        let i = r.below(n as u64) as usize;
        let what = s.choose("edit", 8);
        let fresh = any_point::<Ev<Y>>(&mut r);
        let name = match what {
            0 => {
                other[i] = fresh;
                "change"
            }
            1 => {
                let j = r.below(n as u64) as usize;
                other.swap(i, j);
                "swap"
            }
            2 => {
                other.push(fresh);
                "append"
            }
            3 if n > 1 => {
                other.pop();
                "drop last"
            }
            4 if n > 1 => {
                let _ = other.remove(i);
                "remove"
            }
            5 => {
                let x = other.remove(i);
                let j = r.below(n as u64) as usize;
                other.insert(j, x);
                "move"
            }
            6 => {
                let j = r.below(n as u64 + 1) as usize;
                other.insert(j, fresh);
                "insert"
            }
            _ => {
                let x = other[i];
                let j = r.below(n as u64 + 1) as usize;
                other.insert(j, x);
                "repeat"
            }
        };
        if other == set {
            continue;
        }
        s.fault("edited list");
        let env = s.env("editor");
        // compare at equal heights too, so that not the height alone tells them apart
        let t2 = s.party("editor", &env, || Tree::<Y, L, M>::from_set(&other, prm, Some(r0.0))).ok("build")?;
        let r2 = root::<Y, L, M>(&t2);
        for k in 0..M {
            ensure!(r2.0 != r0.0 || r2.1[k] != r0.1[k], "same-root", "{name} at {i} of {n} leaves keeps root {k} (L={L}, M={M})");
        }
        let m2 = model::<Y>(&other, L, M, r0.0, prm);
        if let Err(e) = matches::<Y, L, M>(&t2, &m2) {
            return violation("model", format!("after {name}: {e}"));
        }
    }
    Ok(())
}
