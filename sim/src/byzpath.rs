//! A dishonest prover for membership paths: builds the two proofs level by level from the public
//! gadgets, with full control over children, openings, published points and assignments.
use ark_ec::models::short_weierstrass::{Affine, SWCurveConfig};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{BigInteger, Field, PrimeField, Zero};
use bulletproofs::r1cs::*;
use bulletproofs::{BulletproofGens, PedersenGens};
use crate::circ::*;
use crate::plan::*;
use crate::tree::*;
use merlin::Transcript;
use relations::curve_tree_prover::CurveTreeWitness;
use relations::lookup::Lookup3Bit;
use relations::single_level_select_and_rerandomize::*;

/// One selection: from the children of (m combined) parents on one curve to points on the other.
pub struct Lv<Pp: SWCurveConfig + Copy, Pc: SWCurveConfig + Copy> {
    pub kids: Vec<Pp::ScalarField>,
    /// none: the parent is the root and the children are public
    pub blind: Option<Pp::ScalarField>,
    pub cpd: Vec<Affine<Pc>>,
    pub r: Vec<Pc::ScalarField>,
    pub published: Vec<Affine<Pc>>,
    /// added to the published points without being accounted for
    pub shift: Vec<Affine<Pc>>,
    /// members are published one by one, not as a sum
    pub single: bool,
}
impl<Pp: SWCurveConfig + Copy, Pc: SWCurveConfig + Copy> Clone for Lv<Pp, Pc> {
    fn clone(&self) -> Self {
        Lv {
            kids: self.kids.clone(),
            blind: self.blind,
            cpd: self.cpd.clone(),
            r: self.r.clone(),
            published: self.published.clone(),
            shift: self.shift.clone(),
            single: self.single,
        }
    }
}
impl<Pp: SWCurveConfig + Copy, Pc: SWCurveConfig + Copy> Lv<Pp, Pc> {
    fn new<const L: usize>(nodes: &[&CurveTreeWitness<L, Pp, Pc>], delta: &Affine<Pc>, r: Vec<Pc::ScalarField>, single: bool) -> Self {
        Lv {
            kids: nodes.iter().flat_map(|n| n.siblings).collect(),
            blind: None,
            cpd: nodes.iter().map(|n| (n.child_witness + delta).into_affine()).collect(),
            shift: vec![Affine::zero(); r.len()],
            r,
            published: vec![],
            single,
        }
    }
    fn publish(&mut self, pc: &SingleLayerParameters<Pc>) {
        let h = pc.pc_gens.B_blinding;
        let kid = |c: &Affine<Pc>| *c - pc.delta;
        self.published = if self.single {
            self.cpd.iter().zip(&self.r).zip(&self.shift).map(|((c, r), s)| (kid(c) + h * *r + *s).into_affine()).collect()
        } else {
            // points off the curve do not add associatively: the order is the circuit's
            let sum = self.cpd.iter().map(|c| c.into_group()).sum::<<Affine<Pc> as AffineRepr>::Group>();
            let d = pc.delta * Pc::ScalarField::from(self.cpd.len() as u64);
            vec![(sum - d + h * self.r[0] + self.shift[0]).into_affine()]
        };
    }
}
pub struct Levels<Y: Cyc> {
    pub even: Vec<Lv<Y::P0, Y::P1>>,
    pub odd: Vec<Lv<Y::P1, Y::P0>>,
    pub root_even: bool,
    /// members
    pub m: usize,
    pub batched: bool,
    pub l: usize,
}
impl<Y: Cyc> Clone for Levels<Y> {
    fn clone(&self) -> Self {
        Levels { even: self.even.clone(), odd: self.odd.clone(), root_even: self.root_even, m: self.m, batched: self.batched, l: self.l }
    }
}
impl<Y: Cyc> Levels<Y> {
    /// The honest path(s): members `idx`, nonzero random rerandomizations.
    pub fn of<const L: usize, const M: usize>(t: &Tree<Y, L, M>, idx: &[usize], batched: bool, prm: &Prm<Y>, seed: u64) -> Levels<Y> {
        let mut g = simctx::Rng64::new(seed);
        let w: Vec<_> = idx.iter().enumerate().map(|(i, x)| t.select_and_rerandomize_prover_witness(*x, i, prm)).collect();
        let m = idx.len();
        let (ne, no) = (w[0].even_internal_nodes.len(), w[0].odd_internal_nodes.len());
        let even = (0..ne)
            .map(|i| {
                let n: Vec<_> = w.iter().map(|w| &w.even_internal_nodes[i]).collect();
                Lv::new(&n, &prm.odd_parameters.delta, vec![scalar(&mut g)], !batched)
            })
            .collect();
        let odd = (0..no)
            .map(|i| {
                let n: Vec<_> = w.iter().map(|w| &w.odd_internal_nodes[i]).collect();
                let k = if i + 1 == no { m } else { 1 };
                Lv::new(&n, &prm.even_parameters.delta, (0..k).map(|_| scalar(&mut g)).collect(), !batched || i + 1 == no)
            })
            .collect();
        Levels { even, odd, root_even: ne == no, m, batched, l: L }
    }
    pub fn height(&self) -> usize {
        self.even.len() + self.odd.len()
    }
    /// Is the parent of level k on the even curve, and its place in that list.
    pub fn pos(&self, k: usize) -> (bool, usize) {
        (self.root_even == (k % 2 == 0), k / 2)
    }
    /// From level k on, member t follows another path; its siblings at level k stay.
    pub fn splice(&mut self, k: usize, t: usize, o: &Levels<Y>) {
        let l = self.l;
        let (m, om) = (t * l..(t + 1) * l, t.min(o.m - 1) * l..(t.min(o.m - 1) + 1) * l);
        for j in k..self.height() {
            let (e, i) = self.pos(j);
            if e {
                if j > k {
                    self.even[i].kids[m.clone()].copy_from_slice(&o.even[i].kids[om.clone()]);
                }
                self.even[i].cpd[t] = o.even[i].cpd[t.min(o.m - 1)];
            } else {
                if j > k {
                    self.odd[i].kids[m.clone()].copy_from_slice(&o.odd[i].kids[om.clone()]);
                }
                self.odd[i].cpd[t] = o.odd[i].cpd[t.min(o.m - 1)];
            }
        }
    }
    /// The children at level k become the other path's too.
    pub fn foreign_kids(&mut self, k: usize, t: usize, o: &Levels<Y>) {
        let l = self.l;
        let (m, om) = (t * l..(t + 1) * l, t.min(o.m - 1) * l..(t.min(o.m - 1) + 1) * l);
        let (e, i) = self.pos(k);
        if e {
            self.even[i].kids[m].copy_from_slice(&o.even[i].kids[om]);
        } else {
            self.odd[i].kids[m].copy_from_slice(&o.odd[i].kids[om]);
        }
    }
    /// Compute published points and blindings from the rest.
    pub fn publish(&mut self, prm: &Prm<Y>) {
        for k in 0..self.height() {
            let (e, i) = self.pos(k);
            let (mut b0, mut b1) = (None, None);
            if k > 0 {
                let (pe, pi) = self.pos(k - 1);
                if pe {
                    b1 = Some(self.even[pi].r[0]);
                } else {
                    b0 = Some(self.odd[pi].r[0]);
                }
            }
            if e {
                self.even[i].blind = b0;
                self.even[i].publish(&prm.odd_parameters);
            } else {
                self.odd[i].blind = b1;
                self.odd[i].publish(&prm.even_parameters);
            }
        }
    }
    pub fn selected(&self) -> Vec<Ev<Y>> {
        self.odd.last().unwrap().published.clone()
    }
    pub fn path<const L: usize>(&self) -> Path<Y, L> {
        let n = self.odd.len() - 1;
        Path::<Y, L> {
            selected_commitment: self.odd[n].published[0],
            odd_commitments: self.even.iter().map(|x| x.published[0]).collect(),
            even_commitments: self.odd[..n].iter().map(|x| x.published[0]).collect(),
        }
    }
    pub fn mpath<const L: usize, const M: usize>(&self) -> MPath<Y, L, M> {
        let n = self.odd.len() - 1;
        MPath::<Y, L, M> {
            selected_commitments: std::array::from_fn(|i| self.odd[n].published[i]),
            odd_commitments: self.even.iter().map(|x| x.published[0]).collect(),
            even_commitments: self.odd[..n].iter().map(|x| x.published[0]).collect(),
        }
    }
    /// State every level in the two proof systems.
    pub fn apply<const M: usize>(&self, ep: &mut EvProver<Y>, op: &mut OdProver<Y>, gens: &Prm<Y>, even: &SingleLayerParameters<Y::P0>, odd: &SingleLayerParameters<Y::P1>) {
        for lv in &self.even {
            state::<Y::P0, Y::P1, M>(ep, &gens.even_parameters, odd, lv);
        }
        for lv in &self.odd {
            state::<Y::P1, Y::P0, M>(op, &gens.odd_parameters, even, lv);
        }
    }
}
fn state<Pp, Pc, const M: usize>(p: &mut Prover<Transcript, Affine<Pp>>, pp: &SingleLayerParameters<Pp>, pc: &SingleLayerParameters<Pc>, lv: &Lv<Pp, Pc>)
where
    Pp: SWCurveConfig + Copy,
    Pp::BaseField: PrimeField,
    Pc: SWCurveConfig<BaseField = Pp::ScalarField, ScalarField = Pp::BaseField> + Copy,
{
    let vars: Vec<LinearCombination<Pp::ScalarField>> = match lv.blind {
        None => lv.kids.iter().map(|k| constant(*k)).collect(),
        Some(b) => p.commit_vec(&lv.kids, b, &pp.bp_gens).1.into_iter().map(|v| v.into()).collect(),
    };
    let m = lv.cpd.len();
    if lv.single {
        for (t, chunk) in vars.chunks_exact(vars.len() / m).enumerate() {
            single_level_select_and_rerandomize(p, pc, &lv.published[t], chunk.to_vec(), Some(lv.cpd[t]), Some(lv.r[t]));
        }
    } else {
        let c: [Affine<Pc>; M] = std::array::from_fn(|t| lv.cpd[t]);
        single_level_batched_select_and_rerandomize::<_, _, _, _, M>(p, pc, &lv.published[0], vars, Some(&c), Some(lv.r[0]));
    }
}
pub fn scalar<F: PrimeField>(g: &mut simctx::Rng64) -> F {
    loop {
        let x: F = crate::prog::nonzero(g);
        if !exceptional(x) {
            return x;
        }
    }
}
/// Parameters to compute a false assignment with: window w of the table is shifted by a point.
pub fn lying<P: SWCurveConfig + Copy>(p: &SingleLayerParameters<P>, w: Option<(usize, Affine<P>)>) -> SingleLayerParameters<P> {
    let mut tables = p.tables.clone();
    if let Some((w, k)) = w {
        let w = w % tables.len();
        let old = tables[w];
        let rows: Vec<Affine<P>> = (0..8).map(|j| (Affine::<P>::new_unchecked(old.elems[0][j], old.elems[1][j]) + k).into_affine()).collect();
        tables[w] = Lookup3Bit { elems: [std::array::from_fn(|j| rows[j].x), std::array::from_fn(|j| rows[j].y)] };
    }
    SingleLayerParameters {
        bp_gens: BulletproofGens::new(0, 1),
        pc_gens: p.pc_gens.clone(),
        delta: p.delta,
        coeff_a: p.coeff_a,
        coeff_b: p.coeff_b,
        tables,
    }
}
/// How the assignment that does not satisfy the statement is chosen.
pub struct Lie<'a, Y: Cyc> {
    /// the assignment is the one of these levels ...
    pub levels: Option<&'a Levels<Y>>,
    /// ... with these parameters
    pub even: Option<SingleLayerParameters<Y::P0>>,
    pub odd: Option<SingleLayerParameters<Y::P1>>,
    /// let the planner repair it, with this many steps
    pub plan: usize,
    /// go through single wires
    pub blend: bool,
    /// prove what the verifier states, with the simulator's own prover
    pub own: bool,
}
pub type Made<Y> = (R1CSProof<Ev<Y>>, R1CSProof<Od<Y>>);
/// Make the two proofs for stated levels with a (possibly false) assignment.  `verifiers` are the
/// verifier's own systems, for the planner.  Returns also whether the planner succeeded.
pub fn forge<Y: Cyc, const M: usize>(
    st: &Levels<Y>,
    lie: &Lie<Y>,
    label: &'static [u8],
    prm: &Prm<Y>,
    verifiers: Option<(EvVerifier<Y>, OdVerifier<Y>)>,
) -> Result<(Made<Y>, u32), R1CSError> {
    let new = || -> (EvProver<Y>, OdProver<Y>) {
        (Prover::new(&prm.even_parameters.pc_gens, Transcript::new(label)), Prover::new(&prm.odd_parameters.pc_gens, Transcript::new(label)))
    };
    let (mut ep, mut op) = new();
    st.apply::<M>(&mut ep, &mut op, prm, &prm.even_parameters, &prm.odd_parameters);
    let mut found = 0;
    let truth = (witness_of(&mut ep), witness_of(&mut op));
    if lie.levels.is_some() || lie.even.is_some() || lie.odd.is_some() {
        let (mut e2, mut o2) = new();
        lie.levels.unwrap_or(st).apply::<M>(
            &mut e2,
            &mut o2,
            prm,
            lie.even.as_ref().unwrap_or(&prm.even_parameters),
            lie.odd.as_ref().unwrap_or(&prm.odd_parameters),
        );
        copy_gates(&mut e2, &mut ep);
        copy_gates(&mut o2, &mut op);
        if let (true, Some((ev, ov))) = (lie.blend, &verifiers) {
            found += blend(&mut ep, ev, truth.0) as u32;
            found += blend(&mut op, ov, truth.1) as u32;
        }
    }
    if let (true, Some((ev, ov))) = (lie.plan > 0, &verifiers) {
        found += repair(&mut ep, ev, lie.plan) as u32;
        found += repair(&mut op, ov, lie.plan) as u32;
    }
    if let Some((mut ev, mut ov)) = verifiers {
        if lie.own || differs(&ep, &ev) || differs(&op, &ov) {
            let (we, wo) = (witness_of(&mut ep), witness_of(&mut op));
            if let (Some(we), Some(wo)) = (we, wo) {
                let (pe, po) = (&prm.even_parameters, &prm.odd_parameters);
                if let (Some(a), Some(b)) = (own(&mut ev, &we, &pe.pc_gens, &pe.bp_gens), own(&mut ov, &wo, &po.pc_gens, &po.bp_gens)) {
                    return Ok(((a, b), found));
                }
            }
        }
    }
    let a = ep.prove(&prm.even_parameters.bp_gens)?;
    let b = op.prove(&prm.odd_parameters.bp_gens)?;
    Ok(((a, b), found))
}
/// Does the verifier state something else than this prover?
#[cfg(curve_trees_sim)]
fn differs<C: AffineRepr>(p: &Prover<Transcript, C>, v: &Verifier<Transcript, C>) -> bool {
    let Some(c) = Circuit::of_verifier(v) else { return false };
    c.gates != p.metrics().multipliers || c.cons.len() != p.metrics().phase_one_constraints
}
#[cfg(not(curve_trees_sim))]
fn differs<C: AffineRepr>(_: &Prover<Transcript, C>, _: &Verifier<Transcript, C>) -> bool {
    false
}
/// Prove the verifier's own statement, continuing its transcript, with these wires.  If it states
/// fewer gates, a run of the wires is left out where that violates least.
fn own<C: AffineRepr>(v: &mut Verifier<Transcript, C>, w: &Witness<C::ScalarField>, pc: &PedersenGens<C>, bp: &BulletproofGens<C>) -> Option<R1CSProof<C>> {
    let circ = Circuit::of_verifier(v)?;
    if circ.vdims.len() != w.vecs.len() || circ.gates > w.l.len() || circ.comms != w.v.len() || circ.size().next_power_of_two() > bp.gens_capacity {
        return None;
    }
    let cut = w.l.len() - circ.gates;
    let mut best = w.clone();
    if cut > 0 {
        if circ.gates > 1500 {
            return None;
        }
        let without = |x: &[C::ScalarField], at: usize| -> Vec<C::ScalarField> { x[..at].iter().chain(&x[at + cut..]).copied().collect() };
        let mut least = usize::MAX;
        for at in (0..=circ.gates).rev() {
            let x = Witness { l: without(&w.l, at), r: without(&w.r, at), o: without(&w.o, at), ..w.clone() };
            let (a, b) = circ.violated(&x);
            if a.len() + b.len() < least {
                least = a.len() + b.len();
                best = x;
            }
            if least == 0 {
                break;
            }
        }
    }
    let mut t = v.transcript().clone();
    let b = crate::byz::prove(&mut t, &circ, &best, &crate::byz::Layout::candidates(circ.vdims.len())[0], pc, bp);
    R1CSProof::from_bytes(&b).ok()
}
#[cfg(curve_trees_sim)]
fn copy_gates<C: AffineRepr>(from: &mut Prover<Transcript, C>, to: &mut Prover<Transcript, C>) {
    let f = from.sim_witness();
    let t = to.sim_witness();
    if f.a_l.len() == t.a_l.len() {
        t.a_l.clone_from(f.a_l);
        t.a_r.clone_from(f.a_r);
        t.a_o.clone_from(f.a_o);
    }
}
#[cfg(not(curve_trees_sim))]
fn copy_gates<C: AffineRepr>(_: &mut Prover<Transcript, C>, _: &mut Prover<Transcript, C>) {}
/// Take single wires back to what the levels themselves give, as long as less is violated then.
#[cfg(curve_trees_sim)]
fn blend<C: AffineRepr>(p: &mut Prover<Transcript, C>, v: &Verifier<Transcript, C>, truth: Option<Witness<C::ScalarField>>) -> bool {
    let (Some(circ), Some(mut cur), Some(truth)) = (Circuit::of_verifier(v), witness_of(p), truth) else { return false };
    if circ.gates != cur.l.len() || circ.gates != truth.l.len() || circ.vdims.len() != cur.vecs.len() {
        return false;
    }
    let mut uses: std::collections::HashMap<(usize, u8), Vec<usize>> = Default::default();
    let place = |v: Var| match v {
        Var::L(i) => Some((i, 0)),
        Var::R(i) => Some((i, 1)),
        Var::O(i) => Some((i, 2)),
        _ => None,
    };
    for (k, c) in circ.cons.iter().enumerate() {
        for (v, _) in c {
            if let Some(w) = place(*v) {
                uses.entry(w).or_default().push(k);
            }
        }
    }
    let bad = |w: &Witness<C::ScalarField>, ks: &[usize]| ks.iter().filter(|k| !w.eval(&circ.cons[**k]).is_zero()).count();
    let (mut left, gates) = circ.violated(&cur);
    if left.is_empty() || !gates.is_empty() || left.len() > 60 {
        return false;
    }
    let mut changed = true;
    while changed && !left.is_empty() {
        changed = false;
        'all: for k in left.clone() {
            for (v, _) in &circ.cons[k] {
                let Some((g, side)) = place(*v) else { continue };
                let (l, r, o) = (cur.l[g], cur.r[g], cur.o[g]);
                let mut touched: Vec<usize> = [0u8, 1, 2].iter().flat_map(|s| uses.get(&(g, *s)).cloned().unwrap_or_default()).collect();
                touched.sort();
                touched.dedup();
                let before = bad(&cur, &touched);
                match side {
                    0 => cur.l[g] = truth.l[g],
                    1 => cur.r[g] = truth.r[g],
                    _ => {
                        cur.l[g] = truth.l[g];
                        cur.r[g] = truth.r[g];
                    }
                }
                cur.o[g] = cur.l[g] * cur.r[g];
                if (l, r, o) != (cur.l[g], cur.r[g], cur.o[g]) && bad(&cur, &touched) < before {
                    changed = true;
                    break 'all;
                }
                (cur.l[g], cur.r[g], cur.o[g]) = (l, r, o);
            }
        }
        left = circ.violated(&cur).0;
    }
    let w = p.sim_witness();
    *w.a_l = cur.l;
    *w.a_r = cur.r;
    *w.a_o = cur.o;
    left.is_empty()
}
#[cfg(not(curve_trees_sim))]
fn blend<C: AffineRepr>(_: &mut Prover<Transcript, C>, _: &Verifier<Transcript, C>, _: Option<Witness<C::ScalarField>>) -> bool {
    false
}
/// Try to satisfy the verifier's circuit, starting from what the prover has.
#[cfg(curve_trees_sim)]
fn repair<C: AffineRepr>(p: &mut Prover<Transcript, C>, v: &Verifier<Transcript, C>, budget: usize) -> bool {
    type F<C> = <C as AffineRepr>::ScalarField;
    let Some(circ) = Circuit::of_verifier(v) else { return false };
    let Some(cur) = witness_of(p) else { return false };
    if circ.gates != cur.l.len() || circ.vdims.len() != cur.vecs.len() {
        return false;
    }
    let (a, b) = circ.violated(&cur);
    if a.is_empty() && b.is_empty() {
        return false;
    }
    let hint = |i: usize| Some([cur.l[i / 3], cur.r[i / 3], cur.o[i / 3]][i % 3]);
    let vecs: Vec<Vec<F<C>>> = cur.vecs.iter().map(|v| v.g.clone()).collect();
    let vals: Vec<F<C>> = cur.v.iter().map(|v| v.0).collect();
    let tries = [F::<C>::ZERO, F::<C>::ONE];
    let mut pl = Plan::new(&circ, &vals, &vecs, &hint, &tries);
    pl.budget = budget;
    match pl.solve() {
        Some(s) => {
            let w = p.sim_witness();
            for g in 0..circ.gates {
                w.a_l[g] = s[3 * g];
                w.a_r[g] = s[3 * g + 1];
                w.a_o[g] = s[3 * g + 2];
            }
            true
        }
        None => false,
    }
}
#[cfg(not(curve_trees_sim))]
fn repair<C: AffineRepr>(_: &mut Prover<Transcript, C>, _: &Verifier<Transcript, C>, _: usize) -> bool {
    false
}
/// Is a published commitment a rerandomization, by the scalar used for it, of a leaf or of its
/// mirror image?
pub fn legit<Y: Cyc>(c: &Ev<Y>, r: &Y::F0, leaves: &[Ev<Y>], prm: &Prm<Y>) -> bool {
    let p = &prm.even_parameters;
    let h = p.pc_gens.B_blinding * *r;
    let back = c.into_group() - h;
    let plain = back.into_affine();
    let mirror = (-(back + p.delta) - p.delta).into_affine();
    leaves.iter().any(|l| *l == plain || *l == mirror)
}

// Points off the curve whose sum by the chord formula is a chosen point.
fn trim<F: Field>(mut p: Vec<F>) -> Vec<F> {
    while p.last().is_some_and(|x| x.is_zero()) {
        p.pop();
    }
    p
}
fn rem<F: Field>(a: &[F], m: &[F]) -> Vec<F> {
    let mut a = trim(a.to_vec());
    while a.len() >= m.len() {
        let (q, o) = (*a.last().unwrap() / m.last().unwrap(), a.len() - m.len());
        for (i, x) in m.iter().enumerate() {
            a[o + i] -= q * x;
        }
        a.pop();
        a = trim(a);
    }
    a
}
fn mulmod<F: Field>(a: &[F], b: &[F], m: &[F]) -> Vec<F> {
    let mut c = vec![F::zero(); a.len() + b.len()];
    for (i, x) in a.iter().enumerate() {
        for (j, y) in b.iter().enumerate() {
            c[i + j] += *x * y;
        }
    }
    rem(&c, m)
}
fn gcd<F: Field>(a: Vec<F>, b: Vec<F>) -> Vec<F> {
    let (mut a, mut b) = (trim(a), trim(b));
    while !b.is_empty() {
        let r = rem(&a, &b);
        a = b;
        b = r;
    }
    a
}
fn powmod<F: PrimeField>(base: Vec<F>, e: &[u64], m: &[F]) -> Vec<F> {
    let mut r = vec![F::one()];
    for i in (0..64 * e.len()).rev() {
        r = mulmod(&r, &r, m);
        if e[i / 64] >> (i % 64) & 1 == 1 {
            r = mulmod(&r, &base, m);
        }
    }
    r
}
/// A root of a polynomial, if it has one.
pub fn root_of<F: PrimeField>(p: Vec<F>) -> Option<F> {
    let p = trim(p);
    if p.len() < 2 {
        return None;
    }
    let sub = |mut a: Vec<F>, b: &[F]| {
        a.resize(a.len().max(b.len()), F::zero());
        for (i, x) in b.iter().enumerate() {
            a[i] -= x;
        }
        a
    };
    let x = vec![F::zero(), F::one()];
    let xp = powmod(rem(&x, &p), F::MODULUS.as_ref(), &p);
    let mut g = gcd(p, sub(xp, &x));
    let mut half = F::MODULUS;
    half.div2();
    for c in 1..40u64 {
        match g.len() {
            0 | 1 => return None,
            2 => return Some(-g[0] / g[1]),
            _ => {}
        }
        let h = powmod(rem(&[F::from(c), F::one()], &g), half.as_ref(), &g);
        let d = gcd(g.clone(), sub(h, &[F::one()]));
        if d.len() > 1 && d.len() < g.len() {
            g = d;
        }
    }
    None
}
/// Change the y-coordinates of members a and a + 1 so that the sum becomes `target`.
pub fn off_curve<P: SWCurveConfig>(cpd: &mut [Affine<P>], a: usize, target: Affine<P>) -> bool
where
    P::BaseField: PrimeField,
{
    let g = |p: Affine<P>| p.into_group();
    let q = (g(target) - cpd[a + 2..].iter().map(|x| g(*x)).sum::<<Affine<P> as AffineRepr>::Group>()).into_affine();
    let s = cpd[..a].iter().map(|x| g(*x)).sum::<<Affine<P> as AffineRepr>::Group>().into_affine();
    let (x1, x2) = (cpd[a].x, cpd[a + 1].x);
    let (y1, y2);
    if a == 0 {
        let Some(l) = (q.x + x1 + x2).sqrt() else { return false };
        y1 = l * (x1 - q.x) - q.y;
        y2 = y1 + l * (x2 - x1);
    } else {
        let w = |l: P::BaseField| {
            let wx = l.square() - s.x - x1;
            (wx, l * (s.x - wx) - s.y)
        };
        let f = |l: P::BaseField| {
            let (wx, wy) = w(l);
            (q.y + wy).square() - (q.x + wx + x2) * (wx - q.x).square()
        };
        // interpolate
        let n = 8u64;
        let mut poly = vec![P::BaseField::ZERO; n as usize];
        for i in 0..n {
            let xi = P::BaseField::from(i);
            let mut basis = vec![P::BaseField::ONE];
            let mut den = P::BaseField::ONE;
            for j in (0..n).filter(|j| *j != i) {
                let xj = P::BaseField::from(j);
                den *= xi - xj;
                let mut nb = vec![P::BaseField::ZERO; basis.len() + 1];
                for (k, b) in basis.iter().enumerate() {
                    nb[k + 1] += b;
                    nb[k] -= *b * xj;
                }
                basis = nb;
            }
            let v = f(xi) / den;
            for (k, b) in basis.iter().enumerate() {
                poly[k] += v * b;
            }
        }
        let Some(l) = root_of(poly) else { return false };
        let (wx, wy) = w(l);
        if wx == q.x || wx == x2 || x1 == s.x {
            return false;
        }
        y1 = s.y + l * (x1 - s.x);
        y2 = wy + (q.y + wy) / (wx - q.x) * (x2 - wx);
    }
    cpd[a] = Affine::new_unchecked(x1, y1);
    cpd[a + 1] = Affine::new_unchecked(x2, y2);
    true
}
