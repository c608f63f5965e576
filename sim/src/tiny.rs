//! Curves over fields so small that the simulator can decide, by searching the adversary's whole
//! assignment space, whether a circuit has any satisfying assignment at all.
use crate::circ::*;
use ark_ec::models::short_weierstrass::{Affine, SWCurveConfig};
use ark_ec::CurveConfig;
use ark_ff::{Field, Fp64, MontBackend, MontConfig, MontFp, PrimeField};
use simctx::Rng64;

macro_rules! tiny {
    ($($m:ident: $p:literal $pg:literal, $a:literal $b:literal, $q:literal $qg:literal, $x:literal $y:literal;)*) => {$(
        #[allow(non_local_definitions)]
        pub mod $m {
            use super::*;
            #[derive(MontConfig)]
            #[modulus = $p]
            #[generator = $pg]
            pub struct PConfig;
            pub type Fp = Fp64<MontBackend<PConfig, 1>>;
            #[derive(MontConfig)]
            #[modulus = $q]
            #[generator = $qg]
            pub struct QConfig;
            pub type Fq = Fp64<MontBackend<QConfig, 1>>;
            #[derive(Copy, Clone, Default, PartialEq, Eq)]
            pub struct Curve;
            impl CurveConfig for Curve {
                type BaseField = Fp;
                type ScalarField = Fq;
                const COFACTOR: &'static [u64] = &[1];
                const COFACTOR_INV: Fq = Fq::ONE;
            }
            impl SWCurveConfig for Curve {
                const COEFF_A: Fp = MontFp!($a);
                const COEFF_B: Fp = MontFp!($b);
                const GENERATOR: Affine<Self> = Affine::new_unchecked(MontFp!($x), MontFp!($y));
            }
        }
    )*};
}
tiny! {
    c13a: "13" "2", "0" "2", "19" "2", "1" "4";
    c13b: "13" "2", "7" "6", "11" "2", "1" "1";
    c17: "17" "3", "3" "5", "23" "5", "1" "3";
    c19: "19" "2", "2" "10", "17" "3", "3" "9";
    c23: "23" "5", "1" "19", "19" "2", "2" "11";
    c29: "29" "2", "1" "12", "23" "5", "2" "14";
    c31a: "31" "3", "1" "23", "29" "2", "1" "5";
    c37: "37" "2", "2" "8", "31" "3", "1" "14";
    c31b: "31" "3", "1" "3", "41" "6", "1" "6";
    c101: "101" "2", "7" "61", "109" "6", "4" "31";
    c131: "131" "2", "7" "116", "151" "6", "2" "20";
    c211: "211" "2", "7" "111", "223" "3", "1" "69";
}
/// Run `$f::<Curve>($($a),*)` for a small curve picked by the run (group orders of two windows).
#[macro_export]
macro_rules! on_tiny {
    ($s:expr, $f:ident($($a:expr),*)) => {{
        use $crate::tiny::*;
        match $s.choose("curve", 8) {
            0 => $f::<c13a::Curve>($($a),*),
            1 => $f::<c13b::Curve>($($a),*),
            2 => $f::<c17::Curve>($($a),*),
            3 => $f::<c19::Curve>($($a),*),
            4 => $f::<c23::Curve>($($a),*),
            5 => $f::<c29::Curve>($($a),*),
            6 => $f::<c31a::Curve>($($a),*),
            _ => $f::<c37::Curve>($($a),*),
        }
    }};
}
/// The same for curves with three windows.
#[macro_export]
macro_rules! on_small {
    ($s:expr, $f:ident($($a:expr),*)) => {{
        use $crate::tiny::*;
        match $s.choose("curve", 4) {
            0 => $f::<c31b::Curve>($($a),*),
            1 => $f::<c101::Curve>($($a),*),
            2 => $f::<c131::Curve>($($a),*),
            _ => $f::<c211::Curve>($($a),*),
        }
    }};
}

pub fn small<F: PrimeField>(x: F) -> u64 {
    x.into_bigint().as_ref()[0]
}
pub fn modulus<F: PrimeField>() -> u64 {
    F::MODULUS.as_ref()[0]
}
/// All affine points of a tiny curve.
pub fn points<P: SWCurveConfig>() -> Vec<(P::BaseField, P::BaseField)>
where
    P::BaseField: PrimeField,
{
    let p = modulus::<P::BaseField>();
    let mut out = vec![];
    for x in 0..p {
        let x = P::BaseField::from(x);
        let r = x * x * x + P::COEFF_A * x + P::COEFF_B;
        for y in 0..p {
            let y = P::BaseField::from(y);
            if y * y == r {
                out.push((x, y));
            }
        }
    }
    out
}
/// Chord addition where it is defined: None if the x-coordinates agree.
pub fn chord<F: Field>(l: (F, F), r: (F, F)) -> Option<(F, F)> {
    let d = (r.1 - l.1) * (r.0 - l.0).inverse()?;
    let x = d * d - l.0 - r.0;
    Some((x, d * (l.0 - x) - l.1))
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Verdict {
    Sat,
    Unsat,
    /// the search gave up
    Open,
}
const NONE: u32 = u32::MAX;
/// Complete search over assignments of a circuit over a tiny field.
pub struct Solver {
    p: u64,
    inv: Vec<u32>,
    /// linear constraints: terms and constant
    lin: Vec<(Vec<(usize, u64)>, u64)>,
    gates: Vec<[usize; 3]>,
    /// per variable: its linear constraints, and its gate (or none)
    in_lin: Vec<Vec<usize>>,
    in_gate: Vec<Option<usize>>,
    order: Vec<usize>,
    val: Vec<u32>,
    trail: Vec<usize>,
    pub nodes: u64,
    budget: u64,
    rng: Rng64,
}
impl Solver {
    pub fn new<F: PrimeField>(circ: &Circuit<F>, v: &[F], budget: u64, seed: u64) -> Solver {
        let p = modulus::<F>();
        let n = 3 * circ.gates;
        let mut lin = vec![];
        let mut used = vec![false; n];
        for c in &circ.cons {
            let mut k = F::zero();
            let mut t: Vec<(usize, F)> = vec![];
            for (x, co) in c {
                match x {
                    Var::One => k += co,
                    Var::V(i) => k += v[*i] * co,
                    Var::VC(..) => unreachable!("tiny circuits have no vector commitments"),
                    g => {
                        let g = crate::plan::id(*g).unwrap();
                        match t.iter_mut().find(|e| e.0 == g) {
                            Some(e) => e.1 += co,
                            None => t.push((g, *co)),
                        }
                    }
                }
            }
            let t: Vec<(usize, u64)> = t.into_iter().filter(|e| !e.1.is_zero()).map(|(g, c)| (g, small(c))).collect();
            for (g, _) in &t {
                used[*g] = true;
            }
            lin.push((t, small(k)));
        }
        let mut s = Solver {
            p,
            inv: (0..p).map(|x| if x == 0 { 0 } else { small(F::from(x).inverse().unwrap()) as u32 }).collect(),
            lin,
            gates: vec![],
            in_lin: vec![vec![]; n],
            in_gate: vec![None; n],
            order: vec![],
            val: vec![NONE; n],
            trail: vec![],
            nodes: 0,
            budget,
            rng: Rng64::new(seed),
        };
        for g in 0..circ.gates {
            // a product that nothing uses restricts nothing
            if used[3 * g + 2] {
                for k in 0..3 {
                    used[3 * g + k] = true;
                    s.in_gate[3 * g + k] = Some(s.gates.len());
                }
                s.gates.push([3 * g, 3 * g + 1, 3 * g + 2]);
            }
        }
        for (i, (t, _)) in s.lin.iter().enumerate() {
            for (g, _) in t {
                s.in_lin[*g].push(i);
            }
        }
        // operands of products first: plain allocations mostly follow from them
        s.order = (0..n).filter(|x| used[*x]).collect();
        s.order.sort_by_key(|x| (s.in_gate[*x].is_none(), *x));
        s
    }
    fn set(&mut self, x: usize, v: u64) -> bool {
        if self.val[x] == NONE {
            self.val[x] = v as u32;
            self.trail.push(x);
            true
        } else {
            self.val[x] == v as u32
        }
    }
    fn lin_ok(&mut self, i: usize) -> bool {
        let (mut sum, mut open, mut n) = (self.lin[i].1, (0, 0), 0);
        for k in 0..self.lin[i].0.len() {
            let (g, c) = self.lin[i].0[k];
            if self.val[g] == NONE {
                n += 1;
                if n > 1 {
                    return true;
                }
                open = (g, c);
            } else {
                sum += c * self.val[g] as u64;
            }
        }
        sum %= self.p;
        if n == 0 {
            return sum == 0;
        }
        let v = (self.p - sum) % self.p * self.inv[open.1 as usize] as u64 % self.p;
        self.set(open.0, v)
    }
    fn gate_ok(&mut self, i: usize) -> bool {
        let [l, r, o] = self.gates[i];
        let (a, b, c) = (self.val[l], self.val[r], self.val[o]);
        if a == 0 || b == 0 {
            return self.set(o, 0);
        }
        match (a != NONE, b != NONE, c != NONE) {
            (true, true, _) => self.set(o, a as u64 * b as u64 % self.p),
            (true, false, true) => self.set(r, c as u64 * self.inv[a as usize] as u64 % self.p),
            (false, true, true) => self.set(l, c as u64 * self.inv[b as usize] as u64 % self.p),
            _ => true,
        }
    }
    fn propagate(&mut self, mut from: usize) -> bool {
        while from < self.trail.len() {
            let x = self.trail[from];
            from += 1;
            for k in 0..self.in_lin[x].len() {
                let i = self.in_lin[x][k];
                if !self.lin_ok(i) {
                    return false;
                }
            }
            if let Some(g) = self.in_gate[x] {
                if !self.gate_ok(g) {
                    return false;
                }
            }
        }
        true
    }
    fn undo(&mut self, to: usize) {
        while self.trail.len() > to {
            let x = self.trail.pop().unwrap();
            self.val[x] = NONE;
        }
    }
    pub fn solve(&mut self) -> Verdict {
        for i in 0..self.lin.len() {
            if !self.lin_ok(i) {
                return Verdict::Unsat;
            }
        }
        for i in 0..self.gates.len() {
            if !self.gate_ok(i) {
                return Verdict::Unsat;
            }
        }
        if !self.propagate(0) {
            return Verdict::Unsat;
        }
        self.dfs(0)
    }
    fn dfs(&mut self, mut at: usize) -> Verdict {
        while at < self.order.len() && self.val[self.order[at]] != NONE {
            at += 1;
        }
        if at == self.order.len() {
            return Verdict::Sat;
        }
        let x = self.order[at];
        let start = self.rng.below(self.p);
        let mut open = false;
        for k in 0..self.p {
            self.nodes += 1;
            if self.nodes > self.budget {
                return Verdict::Open;
            }
            let mark = self.trail.len();
            let v = (start + k) % self.p;
            if self.set(x, v) && self.propagate(mark) {
                match self.dfs(at + 1) {
                    Verdict::Sat => return Verdict::Sat,
                    Verdict::Open => open = true,
                    Verdict::Unsat => {}
                }
            }
            self.undo(mark);
            if open {
                return Verdict::Open;
            }
        }
        Verdict::Unsat
    }
}
pub fn decide<F: PrimeField>(circ: &Circuit<F>, v: &[F], budget: u64, seed: u64) -> (Verdict, u64) {
    let mut s = Solver::new(circ, v, budget, seed);
    let r = s.solve();
    (r, s.nodes)
}
