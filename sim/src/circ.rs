//! Arithmetic circuits as the simulator's models see them: a dump of what a verifier holds, and an
//! independent evaluator.
use ark_ec::AffineRepr;
use ark_ff::Field;
use bulletproofs::r1cs::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Var {
    L(usize),
    R(usize),
    O(usize),
    /// coordinate `.1` of vector commitment `.0`
    VC(usize, usize),
    V(usize),
    One,
}
pub fn var<F: Field>(v: &Variable<F>) -> Var {
    match v {
        Variable::MultiplierLeft(i) => Var::L(*i),
        Variable::MultiplierRight(i) => Var::R(*i),
        Variable::MultiplierOutput(i) => Var::O(*i),
        Variable::VectorCommit(j, i) => Var::VC(*j, *i),
        Variable::Committed(i) => Var::V(*i),
        Variable::One(_) => Var::One,
    }
}
#[derive(Clone, Debug)]
pub struct Circuit<F> {
    pub gates: usize,
    pub cons: Vec<Vec<(Var, F)>>,
    pub vdims: Vec<usize>,
    pub comms: usize,
}
#[derive(Clone, Debug, PartialEq)]
pub struct VecOpen<F> {
    pub g: Vec<F>,
    /// coefficients of the second generator family; an honest commitment has none
    pub h: Vec<F>,
    pub blinding: F,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Witness<F> {
    pub l: Vec<F>,
    pub r: Vec<F>,
    pub o: Vec<F>,
    pub v: Vec<(F, F)>,
    pub vecs: Vec<VecOpen<F>>,
    /// H part of the prover's commitment to the gate outputs (honest: empty)
    pub ao_h: Vec<F>,
}
impl<F: Field> Witness<F> {
    pub fn get(&self, v: Var) -> F {
        match v {
            Var::L(i) => self.l[i],
            Var::R(i) => self.r[i],
            Var::O(i) => self.o[i],
            Var::VC(j, i) => self.vecs[j].g[i],
            Var::V(i) => self.v[i].0,
            Var::One => F::one(),
        }
    }
    pub fn eval(&self, lc: &[(Var, F)]) -> F {
        lc.iter().map(|(v, c)| self.get(*v) * c).sum()
    }
}
impl<F: Field> Circuit<F> {
    #[cfg(curve_trees_sim)]
    pub fn of_verifier<C: AffineRepr<ScalarField = F>>(v: &Verifier<merlin::Transcript, C>) -> Option<Circuit<F>> {
        let s = v.sim_circuit();
        Some(Circuit {
            gates: s.gates,
            cons: s.constraints.iter().map(|c| c.sim_terms().iter().map(|(v, k)| (var(v), *k)).collect()).collect(),
            vdims: s.vec_comms.iter().map(|c| c.1).collect(),
            comms: s.comms.len(),
        })
    }
    #[cfg(not(curve_trees_sim))]
    pub fn of_verifier<C: AffineRepr<ScalarField = F>>(_: &Verifier<merlin::Transcript, C>) -> Option<Circuit<F>> {
        None
    }
    /// Indices of violated constraints and of violated gates.
    pub fn violated(&self, w: &Witness<F>) -> (Vec<usize>, Vec<usize>) {
        let c = (0..self.cons.len()).filter(|i| !w.eval(&self.cons[*i]).is_zero()).collect();
        let g = (0..self.gates).filter(|i| w.l[*i] * w.r[*i] != w.o[*i]).collect();
        (c, g)
    }
    pub fn size(&self) -> usize {
        self.vdims.iter().copied().max().unwrap_or(0).max(self.gates)
    }
}
/// The honest prover's witness, as it holds it just before proving.
#[cfg(curve_trees_sim)]
pub fn witness_of<C: AffineRepr>(p: &mut Prover<merlin::Transcript, C>) -> Option<Witness<C::ScalarField>> {
    let w = p.sim_witness();
    Some(Witness {
        l: w.a_l.clone(),
        r: w.a_r.clone(),
        o: w.a_o.clone(),
        v: w.v.iter().copied().zip(w.v_blinding.iter().copied()).collect(),
        vecs: w.vec_open.iter().map(|(b, g)| VecOpen { g: g.clone(), h: vec![], blinding: *b }).collect(),
        ao_h: vec![],
    })
}
#[cfg(not(curve_trees_sim))]
pub fn witness_of<C: AffineRepr>(_: &mut Prover<merlin::Transcript, C>) -> Option<Witness<C::ScalarField>> {
    None
}
