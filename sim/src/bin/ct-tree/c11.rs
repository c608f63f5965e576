//! C11: no membership proof for a commitment outside the tree.
use ctsim::engine::*;
use ctsim::on_tree;

pub const CHECK: Check = Check {
    id: "C11",
    level: "fault_enumeration",
    run,
    quick_runs: 2400,
    thorough_runs: 200_000,
    rule: "one evaluation = a random tree (heights, fill levels and branching factors stepped through), a verifier holding its root only, and one attack by a Byzantine prover that builds its two proofs level by level: a foreign child at any level, a rerandomization shifted by a point of known opening at any level (with an assignment computed from a falsified table), a path too short or too long, an empty slot used as a child, an honest proof with another commitment, tree or path, mixed levels, a foreign tree's path; assignments honest for the false claim, internally consistent, or repaired by a planner on the verifier's own circuit; distinct by digest of all choices",
    real: crate::REAL,
    stubs: crate::STUBS,
    assumptions: &["the mirror image of a leaf counts as the leaf", "a verifier that panics has refused"],
};
fn run(s: &mut Sim) -> Res {
    fn go<Y: ctsim::tree::Cyc, const L: usize, const M: usize>(s: &mut Sim) -> Res {
        crate::outside::attack::<Y, L, M>(s, false)
    }
    on_tree!(s, go(s))
}
