//! A constraint system that only records: the circuit a gadget states, and the witness an honest
//! prover would give it.  Works over any field, also ones too small for a proof.
use crate::circ::*;
use ark_ff::Field;
use bulletproofs::r1cs::*;
use merlin::Transcript;

pub struct Collector<F: Field> {
    pub t: Transcript,
    pub circ: Circuit<F>,
    /// values of committed inputs
    pub inputs: Vec<F>,
    /// honest witness, if witnesses were given
    pub vals: Vec<Option<[F; 3]>>,
    pending: Option<usize>,
}
impl<F: Field> Collector<F> {
    pub fn new() -> Self {
        Collector {
            t: Transcript::new(b"collector"),
            circ: Circuit { gates: 0, cons: vec![], vdims: vec![], comms: 0 },
            inputs: vec![],
            vals: vec![],
            pending: None,
        }
    }
    pub fn input(&mut self, v: F) -> Variable<F> {
        self.inputs.push(v);
        self.circ.comms += 1;
        Variable::Committed(self.inputs.len() - 1)
    }
    #[cfg(curve_trees_sim)]
    fn terms(l: &LinearCombination<F>) -> Vec<(Var, F)> {
        l.sim_terms().iter().map(|(v, k)| (var(v), *k)).collect()
    }
    #[cfg(not(curve_trees_sim))]
    fn terms(_: &LinearCombination<F>) -> Vec<(Var, F)> {
        panic!("hooks are not available")
    }
    fn value(&self, v: Var) -> Option<F> {
        match v {
            Var::L(i) => self.vals[i].map(|x| x[0]),
            Var::R(i) => self.vals[i].map(|x| x[1]),
            Var::O(i) => self.vals[i].map(|x| x[2]),
            Var::V(i) => Some(self.inputs[i]),
            Var::VC(..) => None,
            Var::One => Some(F::one()),
        }
    }
    pub fn eval_terms(&self, t: &[(Var, F)]) -> Option<F> {
        let mut s = F::zero();
        for (v, k) in t {
            s += self.value(*v)? * k;
        }
        Some(s)
    }
    pub fn eval(&self, l: &LinearCombination<F>) -> Option<F> {
        self.eval_terms(&Self::terms(l))
    }
    /// The honest witness satisfies the circuit.
    pub fn satisfied(&self) -> bool {
        self.vals.iter().all(|v| matches!(v, Some([l, r, o]) if *l * r == *o))
            && self.circ.cons.iter().all(|c| matches!(self.eval_terms(c), Some(x) if x.is_zero()))
    }
    /// Honest value of a gate variable (3·gate + side), as a hint.
    pub fn hint(&self, id: usize) -> Option<F> {
        self.vals.get(id / 3).and_then(|v| v.map(|x| x[id % 3]))
    }
}
impl<F: Field> Default for Collector<F> {
    fn default() -> Self {
        Self::new()
    }
}
impl<F: Field> ConstraintSystem<F> for Collector<F> {
    fn transcript(&mut self) -> &mut Transcript {
        &mut self.t
    }
    fn multiply(&mut self, left: LinearCombination<F>, right: LinearCombination<F>) -> (Variable<F>, Variable<F>, Variable<F>) {
        let (mut a, mut b) = (Self::terms(&left), Self::terms(&right));
        let v = match (self.eval_terms(&a), self.eval_terms(&b)) {
            (Some(l), Some(r)) => Some([l, r, l * r]),
            _ => None,
        };
        let k = self.circ.gates;
        self.circ.gates += 1;
        self.vals.push(v);
        a.push((Var::L(k), -F::one()));
        b.push((Var::R(k), -F::one()));
        self.circ.cons.push(a);
        self.circ.cons.push(b);
        (Variable::MultiplierLeft(k), Variable::MultiplierRight(k), Variable::MultiplierOutput(k))
    }
    fn allocate(&mut self, assignment: Option<F>) -> Result<Variable<F>, R1CSError> {
        match self.pending.take() {
            None => {
                let k = self.circ.gates;
                self.circ.gates += 1;
                self.pending = Some(k);
                self.vals.push(assignment.map(|x| [x, F::zero(), F::zero()]));
                Ok(Variable::MultiplierLeft(k))
            }
            Some(k) => {
                self.vals[k] = match (self.vals[k], assignment) {
                    (Some([l, ..]), Some(r)) => Some([l, r, l * r]),
                    _ => None,
                };
                Ok(Variable::MultiplierRight(k))
            }
        }
    }
    fn allocate_multiplier(&mut self, a: Option<(F, F)>) -> Result<(Variable<F>, Variable<F>, Variable<F>), R1CSError> {
        let k = self.circ.gates;
        self.circ.gates += 1;
        self.vals.push(a.map(|(l, r)| [l, r, l * r]));
        Ok((Variable::MultiplierLeft(k), Variable::MultiplierRight(k), Variable::MultiplierOutput(k)))
    }
    fn metrics(&self) -> Metrics {
        Metrics { multipliers: self.circ.gates, constraints: self.circ.cons.len(), phase_one_constraints: self.circ.cons.len(), phase_two_constraints: 0 }
    }
    fn constrain(&mut self, lc: LinearCombination<F>) {
        self.circ.cons.push(Self::terms(&lc));
    }
}
