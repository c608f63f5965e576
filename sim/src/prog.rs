//! Random constraint-system programs and their reference model.
//!
//! A program is a list of calls a user could make.  The model evaluates it natively and keeps the
//! circuit it means, independently of the library.  A *glitch* makes exactly one gate or
//! constraint wrong: everything after it is evaluated from the glitched value, so that the rest
//! of the program holds.
use crate::circ::{Circuit, Var, VecOpen, Witness};
use crate::engine::*;
use ark_ec::AffineRepr;
use ark_ff::Field;
use ark_std::One;
use bulletproofs::r1cs::*;
use bulletproofs::{BulletproofGens, PedersenGens};
use merlin::Transcript;
use simctx::Rng64;
use std::marker::PhantomData;
use std::sync::{Arc, OnceLock};

// ---- curves ----------------------------------------------------------------------------------
pub struct Gens<C: AffineRepr> {
    pub pc: PedersenGens<C>,
    pub bp: BulletproofGens<C>,
}
pub const CAP: usize = 128;
pub trait Crv: AffineRepr {
    const NAME: &'static str;
    fn gens() -> &'static Gens<Self>;
}
/// Capacity on the one curve that programs of any size run on.
pub const LARGE: usize = 2048;
macro_rules! crv {
    ($($t:ty => $n:literal $cap:expr),* $(,)?) => {$(
        impl Crv for $t {
            const NAME: &'static str = $n;
            fn gens() -> &'static Gens<Self> {
                static G: OnceLock<Gens<$t>> = OnceLock::new();
                G.get_or_init(|| Gens { pc: Default::default(), bp: BulletproofGens::new($cap, 1) })
            }
        }
    )*};
}
crv! {
    crate::toy::t61::EvenA => "t61-even" LARGE, crate::toy::t61::OddA => "t61-odd" CAP,
    crate::toy::t90::EvenA => "t90-even" CAP, crate::toy::t90::OddA => "t90-odd" CAP,
    crate::toy::t127::EvenA => "t127-even" CAP, crate::toy::t127::OddA => "t127-odd" CAP,
    ark_pallas::Affine => "pallas" CAP, ark_vesta::Affine => "vesta" CAP,
    ark_secp256k1::Affine => "secp256k1" CAP, ark_secq256k1::Affine => "secq256k1" CAP,
}
/// Run `$f::<C>($($a),*)` over a curve picked by the run.
#[macro_export]
macro_rules! on_curve {
    ($s:expr, $f:ident($($a:expr),*)) => {{
        match $s.choose("curve", 40) {
            0..=17 => $f::<$crate::toy::t61::EvenA>($($a),*),
            18..=25 => $f::<$crate::toy::t61::OddA>($($a),*),
            26..=29 => $f::<$crate::toy::t90::EvenA>($($a),*),
            30..=31 => $f::<$crate::toy::t90::OddA>($($a),*),
            32..=33 => $f::<$crate::toy::t127::EvenA>($($a),*),
            34 => $f::<$crate::toy::t127::OddA>($($a),*),
            35 => $f::<ark_pallas::Affine>($($a),*),
            36 | 37 => $f::<ark_vesta::Affine>($($a),*),
            38 => $f::<ark_secp256k1::Affine>($($a),*),
            _ => $f::<ark_secq256k1::Affine>($($a),*),
        }
    }};
}

// ---- programs --------------------------------------------------------------------------------
/// Model variable; `ONE` is the constant.
pub type Ix = usize;
pub const ONE: Ix = usize::MAX;

#[derive(Clone, Debug)]
pub struct Lc<F> {
    pub terms: Vec<(Ix, F)>,
    /// which of the library's operators build it
    pub style: u64,
}
#[derive(Clone, Debug)]
pub enum Step<F> {
    Commit(F, F),
    CommitVec(Vec<F>, F),
    Mul(Lc<F>, Lc<F>),
    Alloc(F),
    AllocMul(F, F),
    /// constrained to zero once `off` is added
    Con(Lc<F>, F),
    Msg(Vec<u8>),
}
/// A step of the randomized phase: its linear combinations are scaled by powers of a challenge.
#[derive(Clone, Debug)]
pub enum RStep<F> {
    Mul(Lc<F>, Lc<F>),
    Alloc(F),
    AllocMul(F, F),
    Con(Lc<F>),
    /// a constraint that is off by this much
    Off(Lc<F>, F),
    /// a multiplier whose output is constrained to its product plus this much
    OffMul(F, F, F),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Spot {
    /// left input of a multiplication does not match its linear combination
    Left,
    Right,
    /// output of a gate is not the product
    Out,
    /// an explicit constraint is off
    Con,
}
#[derive(Clone, Debug)]
pub struct Glitch<F> {
    pub step: usize,
    pub spot: Spot,
    pub by: F,
}
#[derive(Clone, Debug)]
pub struct Prog<F> {
    pub steps: Vec<Step<F>>,
    pub rand: Vec<Vec<RStep<F>>>,
}

pub fn scalar<F: Field>(r: &mut Rng64) -> F {
    match r.below(12) {
        0 => F::zero(),
        1 => F::one(),
        2 => -F::one(),
        3 | 4 => F::from(r.below(8)),
        _ => uniform(r),
    }
}
pub fn uniform<F: Field>(r: &mut Rng64) -> F {
    let k = F::from(1u64 << 32).square();
    let mut x = F::zero();
    for _ in 0..5 {
        x = x * k + F::from(r.next());
    }
    x
}
pub fn nonzero<F: Field>(r: &mut Rng64) -> F {
    loop {
        let x = uniform::<F>(r);
        if !x.is_zero() {
            return x;
        }
    }
}

/// What to generate.
#[derive(Clone, Debug)]
pub struct Shape {
    pub commits: usize,
    pub vecs: Vec<usize>,
    pub gates: usize,
    pub cons: usize,
    pub singles: usize,
    pub msgs: usize,
    /// randomized closures: (gates, constraints) each
    pub rand: Vec<(usize, usize)>,
}
impl Shape {
    pub fn draw(s: &mut Sim, max_gates: u64) -> Shape {
        let commits = s.small("commits", 5) as usize;
        let nv = [0, 1, 1, 2, 2, 3, 4, 5][s.choose("vector commitments", 8) as usize];
        let vecs = (0..nv).map(|_| 1 + s.small("dimension", max_gates / 2) as usize).collect();
        let gates = s.small("gates", max_gates) as usize;
        let cons = s.small("constraints", 8) as usize;
        let singles = s.small("singles", 4) as usize;
        let msgs = s.small("messages", 2) as usize;
        let nr = [0, 0, 0, 1, 1, 2][s.choose("closures", 6) as usize];
        let rand = (0..nr)
            .map(|_| {
                let g = if nv == 0 { s.small("phase two gates", 6) as usize } else { 0 };
                (g, s.small("phase two constraints", 3) as usize)
            })
            .collect();
        Shape { commits, vecs, gates, cons, singles, msgs, rand }
    }
}

fn lc<F: Field>(r: &mut Rng64, n: usize, max: u64) -> Lc<F> {
    let k = r.below(max + 1);
    let mut terms = vec![];
    for _ in 0..k {
        let v = if n == 0 || r.below(5) == 0 { ONE } else { r.below(n as u64) as usize };
        terms.push((v, scalar(r)));
    }
    Lc { terms, style: r.next() }
}

impl<F: Field> Prog<F> {
    /// A random program of the given shape, with steps in random order.
    pub fn random(shape: &Shape, seed: u64) -> Prog<F> {
        let mut r = Rng64::new(seed);
        let mut kinds: Vec<u8> = vec![];
        for (k, n) in [
            (0u8, shape.commits),
            (1, shape.vecs.len()),
            (2, shape.gates),
            (3, shape.cons),
            (4, shape.singles),
            (5, shape.msgs),
        ] {
            kinds.extend(std::iter::repeat(k).take(n));
        }
        for i in (1..kinds.len()).rev() {
            kinds.swap(i, r.below(i as u64 + 1) as usize);
        }
        // mostly commitments first, as users do
        if r.below(3) != 0 {
            kinds.sort_by_key(|k| (*k > 1) as u8);
        }
        let mut dims = shape.vecs.iter();
        let mut n = 0usize;
        let mut steps = vec![];
        for k in kinds {
            steps.push(match k {
                0 => {
                    n += 1;
                    Step::Commit(scalar(&mut r), uniform(&mut r))
                }
                1 => {
                    let d = *dims.next().unwrap();
                    n += d;
                    Step::CommitVec((0..d).map(|_| scalar(&mut r)).collect(), uniform(&mut r))
                }
                2 => {
                    let st = if r.below(4) == 0 {
                        Step::AllocMul(scalar(&mut r), scalar(&mut r))
                    } else {
                        Step::Mul(lc(&mut r, n, 4), lc(&mut r, n, 4))
                    };
                    n += 3;
                    st
                }
                3 => Step::Con(lc(&mut r, n, 6), F::zero()),
                4 => {
                    n += 1;
                    Step::Alloc(scalar(&mut r))
                }
                _ => Step::Msg((0..r.below(20)).map(|_| r.next() as u8).collect()),
            });
        }
        let mut rand = vec![];
        for (g, c) in &shape.rand {
            let mut l = vec![];
            for _ in 0..*g {
                l.push(match r.below(4) {
                    0 => RStep::AllocMul(scalar(&mut r), scalar(&mut r)),
                    1 => RStep::Alloc(scalar(&mut r)),
                    _ => RStep::Mul(lc(&mut r, n, 3), lc(&mut r, n, 3)),
                });
            }
            for _ in 0..*c {
                let mut x = lc(&mut r, n, 5);
                if x.terms.is_empty() {
                    x.terms.push((ONE, F::one()));
                }
                l.push(RStep::Con(x));
            }
            rand.push(l);
        }
        Prog { steps, rand }
    }
    /// How many gates the randomized closures add.
    pub fn phase_two_gates(&self) -> usize {
        let (mut n, mut pend) = (0, 0);
        for st in self.rand.iter().flatten() {
            match st {
                RStep::Mul(..) | RStep::AllocMul(..) | RStep::OffMul(..) => n += 1,
                RStep::Alloc(..) => {
                    n += 1 - pend;
                    pend = 1 - pend
                }
                _ => {}
            }
        }
        n
    }
    pub fn commitments(&self) -> (usize, usize) {
        let a = self.steps.iter().filter(|s| matches!(s, Step::Commit(..))).count();
        let b = self.steps.iter().filter(|s| matches!(s, Step::CommitVec(..))).count();
        (a, b)
    }
}

// ---- the model -------------------------------------------------------------------------------
/// The meaning of a program: values of its variables, the circuit and the witness.
#[derive(Clone, Debug)]
pub struct Model<F: Field> {
    pub vals: Vec<F>,
    pub vars: Vec<Var>,
    pub circ: Circuit<F>,
    pub wit: Witness<F>,
    /// constants that close the explicit constraints, by step
    pub close: Vec<F>,
    /// circuit index of a step's gate, and of its first constraint
    pub gate_of: Vec<Option<usize>>,
    pub cons_of: Vec<Option<usize>>,
}
impl<F: Field> Model<F> {
    pub fn lc(&self, l: &Lc<F>) -> F {
        l.terms.iter().map(|(v, c)| if *v == ONE { *c } else { self.vals[*v] * c }).sum()
    }
    fn vlc(&self, l: &Lc<F>) -> Vec<(Var, F)> {
        l.terms.iter().map(|(v, c)| (if *v == ONE { Var::One } else { self.vars[*v] }, *c)).collect()
    }
    /// Evaluate the first phase of a program, with glitches.
    pub fn of(p: &Prog<F>, glitches: &[Glitch<F>]) -> Model<F> {
        let mut m = Model {
            vals: vec![],
            vars: vec![],
            circ: Circuit { gates: 0, cons: vec![], vdims: vec![], comms: 0 },
            wit: Witness { l: vec![], r: vec![], o: vec![], v: vec![], vecs: vec![], ao_h: vec![] },
            close: vec![F::zero(); p.steps.len()],
            gate_of: vec![None; p.steps.len()],
            cons_of: vec![None; p.steps.len()],
        };
        let mut pending: Option<usize> = None;
        for (i, st) in p.steps.iter().enumerate() {
            let g = |s: Spot| -> F {
                glitches.iter().filter(|g| g.step == i && g.spot == s).map(|g| g.by).sum()
            };
            match st {
                Step::Commit(v, b) => {
                    m.vars.push(Var::V(m.wit.v.len()));
                    m.vals.push(*v);
                    m.wit.v.push((*v, *b));
                    m.circ.comms += 1;
                }
                Step::CommitVec(v, b) => {
                    let j = m.wit.vecs.len();
                    for (k, x) in v.iter().enumerate() {
                        m.vars.push(Var::VC(j, k));
                        m.vals.push(*x);
                    }
                    m.wit.vecs.push(VecOpen { g: v.clone(), h: vec![], blinding: *b });
                    m.circ.vdims.push(v.len());
                }
                Step::Mul(a, b) => {
                    let l = m.lc(a) + g(Spot::Left);
                    let r = m.lc(b) + g(Spot::Right);
                    let mut ca = m.vlc(a);
                    let mut cb = m.vlc(b);
                    let k = m.gate(l, r, l * r + g(Spot::Out));
                    ca.push((Var::L(k), -F::one()));
                    cb.push((Var::R(k), -F::one()));
                    m.gate_of[i] = Some(k);
                    m.cons_of[i] = Some(m.circ.cons.len());
                    m.circ.cons.push(ca);
                    m.circ.cons.push(cb);
                    m.expose(k);
                }
                Step::AllocMul(l, r) => {
                    let k = m.gate(*l, *r, *l * r + g(Spot::Out));
                    m.gate_of[i] = Some(k);
                    m.expose(k);
                }
                Step::Alloc(v) => match pending.take() {
                    None => {
                        let k = m.gate(*v, F::zero(), F::zero());
                        pending = Some(k);
                        m.vars.push(Var::L(k));
                        m.vals.push(*v);
                    }
                    Some(k) => {
                        m.wit.r[k] = *v;
                        m.wit.o[k] = m.wit.l[k] * v;
                        m.vars.push(Var::R(k));
                        m.vals.push(*v);
                    }
                },
                Step::Con(l, off) => {
                    let c = off_of(m.lc(l), *off) + g(Spot::Con);
                    m.close[i] = c;
                    let mut t = m.vlc(l);
                    t.push((Var::One, c));
                    m.cons_of[i] = Some(m.circ.cons.len());
                    m.circ.cons.push(t);
                }
                Step::Msg(_) => {}
            }
        }
        m
    }
    fn gate(&mut self, l: F, r: F, o: F) -> usize {
        self.wit.l.push(l);
        self.wit.r.push(r);
        self.wit.o.push(o);
        self.circ.gates += 1;
        self.circ.gates - 1
    }
    fn expose(&mut self, k: usize) {
        self.vars.extend([Var::L(k), Var::R(k), Var::O(k)]);
        self.vals.extend([self.wit.l[k], self.wit.r[k], self.wit.o[k]]);
    }
}
fn off_of<F: Field>(v: F, off: F) -> F {
    -v + off
}

// ---- running a program on the library -----------------------------------------------------------
pub fn build<F: Field>(l: &Lc<F>, vars: &[Variable<F>]) -> LinearCombination<F> {
    build_scaled(l, vars, F::one(), F::zero())
}
/// `scale * l + add`, through a choice of the library's operators.
pub fn build_scaled<F: Field>(l: &Lc<F>, vars: &[Variable<F>], scale: F, add: F) -> LinearCombination<F> {
    let var = |v: Ix| if v == ONE { Variable::One(PhantomData) } else { vars[v] };
    let mut st = l.style;
    let mut next = |n: u64| {
        let x = st % n;
        st = simctx::mix(st, 77);
        x
    };
    let ts: Vec<(Variable<F>, F)> = l.terms.iter().map(|(v, c)| (var(*v), *c)).collect();
    let mut out: LinearCombination<F> = match next(9) {
        0 => ts.iter().copied().collect(),
        1 => ts.iter().collect(),
        k => {
            let mut acc = LinearCombination::default();
            for (j, (v, c)) in ts.iter().enumerate() {
                acc = match next(8) {
                    0 => acc + (*v * *c),
                    1 => acc - (*v * -*c),
                    2 => (*v * *c) + acc,
                    3 => -(-acc - (*v * *c)),
                    4 => acc + LinearCombination::from(*v).scalar_mul(*c),
                    5 => acc + (LinearCombination::from(*v) * *c),
                    6 if c.is_one() => *v + acc,
                    6 => acc - (LinearCombination::from(*v) * -*c),
                    7 if c.is_one() => *v - (-acc),
                    _ if (-*c).is_one() => acc + (-*v),
                    _ => acc + (*v * *c),
                };
                if k == 8 && j == 0 {
                    // doubling and halving again changes nothing
                    let half = F::from(2u64).inverse().unwrap();
                    acc = (acc * F::from(2u64)).scalar_mul(half);
                }
            }
            acc
        }
    };
    if !scale.is_one() {
        out = if next(2) == 0 { out * scale } else { out.scalar_mul(scale) };
    }
    if !add.is_zero() || next(4) == 0 {
        out = match next(4) {
            0 => out + add,
            1 => out - (-add),
            2 => out + constant::<F, F>(add),
            _ => out + LinearCombination::from(add),
        };
    }
    out
}

pub trait Committer<C: AffineRepr> {
    fn commit(&mut self, v: C::ScalarField, b: C::ScalarField) -> Variable<C::ScalarField>;
    fn commit_vec(&mut self, v: &[C::ScalarField], b: C::ScalarField) -> Vec<Variable<C::ScalarField>>;
}
pub struct P<'a, 'g, C: AffineRepr> {
    pub p: &'a mut Prover<'g, Transcript, C>,
    pub bp: &'g BulletproofGens<C>,
    pub out: &'a mut Vec<C>,
}
/// The verifier reads commitments in the order the program makes them.
pub struct Vf<'a, C: AffineRepr> {
    pub v: &'a mut Verifier<Transcript, C>,
    pub comms: &'a [C],
    pub at: usize,
}
impl<'a, 'g, C: AffineRepr> Committer<C> for P<'a, 'g, C> {
    fn commit(&mut self, v: C::ScalarField, b: C::ScalarField) -> Variable<C::ScalarField> {
        let (c, x) = self.p.commit(v, b);
        self.out.push(c);
        x
    }
    fn commit_vec(&mut self, v: &[C::ScalarField], b: C::ScalarField) -> Vec<Variable<C::ScalarField>> {
        let (c, x) = self.p.commit_vec(v, b, self.bp);
        self.out.push(c);
        x
    }
}
impl<'a, C: AffineRepr> Committer<C> for Vf<'a, C> {
    fn commit(&mut self, _: C::ScalarField, _: C::ScalarField) -> Variable<C::ScalarField> {
        self.at += 1;
        self.v.commit(self.comms[self.at - 1])
    }
    fn commit_vec(&mut self, v: &[C::ScalarField], _: C::ScalarField) -> Vec<Variable<C::ScalarField>> {
        self.at += 1;
        self.v.commit_vec(v.len(), self.comms[self.at - 1])
    }
}
macro_rules! run_steps {
    ($prog:expr, $model:expr, $witness:expr, $cm:expr, $cs:ident, $cse:expr) => {{
        let mut vars: Vec<Variable<_>> = vec![];
        for (i, st) in $prog.steps.iter().enumerate() {
            match st {
                Step::Commit(v, b) => {
                    let x = $cm.commit(*v, *b);
                    vars.push(x)
                }
                Step::CommitVec(v, b) => {
                    let x = $cm.commit_vec(v, *b);
                    vars.extend(x)
                }
                Step::Mul(a, b) => {
                    let (a, b) = (build(a, &vars), build(b, &vars));
                    let $cs = &mut $cm;
                    let (l, r, o) = $cse.multiply(a, b);
                    vars.extend([l, r, o]);
                }
                Step::AllocMul(l, r) => {
                    let $cs = &mut $cm;
                    let (l, r, o) = $cse.allocate_multiplier(if $witness { Some((*l, *r)) } else { None })?;
                    vars.extend([l, r, o]);
                }
                Step::Alloc(v) => {
                    let $cs = &mut $cm;
                    let x = $cse.allocate(if $witness { Some(*v) } else { None })?;
                    vars.push(x);
                }
                Step::Con(l, _) => {
                    let t = build_scaled(l, &vars, One::one(), $model.close[i]);
                    let $cs = &mut $cm;
                    $cse.constrain(t);
                }
                Step::Msg(m) => {
                    let $cs = &mut $cm;
                    $cse.transcript().append_message(b"note", m);
                }
            }
        }
        let vals = Arc::new($model.vals.clone());
        for steps in $prog.rand.iter() {
            let (steps, vars, vals) = (steps.clone(), vars.clone(), vals.clone());
            let $cs = &mut $cm;
            $cse.specify_randomized_constraints(move |r| closure(r, &steps, vars, &vals, $witness))?;
        }
        vars
    }};
}
/// One randomized closure; the same code for both sides.
fn closure<F: Field, R: RandomizedConstraintSystem<F>>(
    cs: &mut R,
    steps: &[RStep<F>],
    vars: Vec<Variable<F>>,
    vals: &[F],
    witness: bool,
) -> Result<(), R1CSError> {
    let c = cs.challenge_scalar(b"closure");
    let mut k = c;
    let value = |l: &Lc<F>| -> F {
        l.terms.iter().map(|(v, c)| if *v == ONE { *c } else { vals[*v] * c }).sum()
    };
    for st in steps {
        match st {
            RStep::Mul(a, b) => {
                // (k·a)·b = o, and o is k·a·b
                let (x, y) = (build_scaled(a, &vars, k, F::zero()), build(b, &vars));
                let (_, _, o) = cs.multiply(x, y);
                cs.constrain(o - (k * value(a) * value(b)));
            }
            RStep::AllocMul(l, r) => {
                let (l, r) = (*l * k, *r);
                let (a, b, o) = cs.allocate_multiplier(if witness { Some((l, r)) } else { None })?;
                cs.constrain((a * k) + (b * c) + o - (l * k + r * c + l * r));
            }
            RStep::Alloc(v) => {
                let x = cs.allocate(if witness { Some(*v + k) } else { None })?;
                cs.constrain(x - (*v + k));
            }
            RStep::Con(l) => {
                let t = build_scaled(l, &vars, k, -k * value(l));
                cs.constrain(t);
            }
            RStep::Off(l, by) => {
                let t = build_scaled(l, &vars, F::one(), *by - value(l));
                cs.constrain(t);
            }
            RStep::OffMul(l, r, by) => {
                let (a, b, o) = cs.allocate_multiplier(if witness { Some((*l, *r)) } else { None })?;
                cs.constrain(a - *l);
                cs.constrain(b - *r);
                cs.constrain(o - (*l * r + by));
            }
        }
        k *= c;
    }
    Ok(())
}
/// Make the program's calls on a prover.  Returns the commitments in order.
pub fn on_prover<'g, C: AffineRepr>(
    p: &mut Prover<'g, Transcript, C>,
    prog: &Prog<C::ScalarField>,
    model: &Model<C::ScalarField>,
    bp: &'g BulletproofGens<C>,
) -> Result<(Vec<C>, Vec<Variable<C::ScalarField>>), R1CSError> {
    let mut out = vec![];
    let mut cm = P { p, bp, out: &mut out };
    let vars = run_steps!(prog, model, true, cm, cs, cs.p);
    Ok((out, vars))
}
pub fn on_verifier<C: AffineRepr>(
    v: &mut Verifier<Transcript, C>,
    prog: &Prog<C::ScalarField>,
    model: &Model<C::ScalarField>,
    comms: &[C],
) -> Result<Vec<Variable<C::ScalarField>>, R1CSError> {
    let mut cm = Vf { v, comms, at: 0 };
    let vars = run_steps!(prog, model, false, cm, cs, cs.v);
    Ok(vars)
}
/// Pedersen commitments as the model computes them.
pub fn model_commitments<C: AffineRepr>(
    prog: &Prog<C::ScalarField>,
    pc: &PedersenGens<C>,
    bp: &BulletproofGens<C>,
) -> Vec<C> {
    use ark_ec::CurveGroup;
    let mut out = vec![];
    for st in &prog.steps {
        match st {
            Step::Commit(v, b) => out.push((pc.B * *v + pc.B_blinding * *b).into_affine()),
            Step::CommitVec(v, b) => {
                let mut acc = pc.B_blinding * *b;
                for (g, x) in bp.share(0).G(v.len()).zip(v) {
                    acc += *g * *x;
                }
                out.push(acc.into_affine())
            }
            _ => {}
        }
    }
    out
}
