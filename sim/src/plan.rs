//! The adversary's planner: looks for an assignment that satisfies the circuit a verifier states,
//! given the values it cannot choose.  Linear elimination, forward evaluation of gates, branching
//! on products that must vanish and on quadratic equations, and guesses for what remains free
//! (from hints first).
use crate::circ::*;
use ark_ff::Field;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
struct Ex<F> {
    c: F,
    t: BTreeMap<usize, F>,
}
impl<F: Field> Ex<F> {
    fn k(c: F) -> Self {
        Ex { c, t: BTreeMap::new() }
    }
    fn add(&mut self, o: &Ex<F>, k: F) {
        self.c += o.c * k;
        for (v, x) in &o.t {
            let e = self.t.entry(*v).or_insert_with(F::zero);
            *e += *x * k;
            if e.is_zero() {
                self.t.remove(v);
            }
        }
    }
    fn is_const(&self) -> bool {
        self.t.is_empty()
    }
}
#[derive(Clone)]
struct St<F> {
    sub: Vec<Option<Ex<F>>>,
    done: Vec<bool>,
    low: usize,
}
pub struct Plan<'a, F: Field> {
    pub circ: &'a Circuit<F>,
    /// values of committed variables
    pub v: &'a [F],
    pub vecs: &'a [Vec<F>],
    /// preferred value of a gate variable (3·gate + side)
    pub hint: &'a dyn Fn(usize) -> Option<F>,
    /// further values to try for a variable that is free
    pub tries: &'a [F],
    /// limit on guesses and branches
    pub budget: usize,
    pub nodes: usize,
}
pub fn id(v: Var) -> Option<usize> {
    match v {
        Var::L(i) => Some(3 * i),
        Var::R(i) => Some(3 * i + 1),
        Var::O(i) => Some(3 * i + 2),
        _ => None,
    }
}
impl<'a, F: Field> Plan<'a, F> {
    pub fn new(circ: &'a Circuit<F>, v: &'a [F], vecs: &'a [Vec<F>], hint: &'a dyn Fn(usize) -> Option<F>, tries: &'a [F]) -> Self {
        Plan { circ, v, vecs, hint, tries, budget: 4000, nodes: 0 }
    }
    fn resolve(&self, st: &mut St<F>, v: usize) -> Ex<F> {
        match st.sub[v].take() {
            None => Ex { c: F::zero(), t: BTreeMap::from([(v, F::one())]) },
            Some(e) => {
                if e.t.keys().all(|k| st.sub[*k].is_none()) {
                    st.sub[v] = Some(e.clone());
                    return e;
                }
                let mut out = Ex::k(e.c);
                for (w, k) in &e.t {
                    let x = self.resolve(st, *w);
                    out.add(&x, *k);
                }
                st.sub[v] = Some(out.clone());
                out
            }
        }
    }
    fn norm(&self, st: &mut St<F>, e: &Ex<F>) -> Ex<F> {
        let mut out = Ex::k(e.c);
        for (w, k) in &e.t {
            let x = self.resolve(st, *w);
            out.add(&x, *k);
        }
        out
    }
    /// Require e = 0.
    fn zero(&self, st: &mut St<F>, e: &Ex<F>) -> bool {
        let e = self.norm(st, e);
        let Some((p, k)) = e.t.iter().next_back().map(|(p, k)| (*p, *k)) else { return e.c.is_zero() };
        let mut s = Ex::k(F::zero());
        s.add(&e, -k.inverse().unwrap());
        s.t.remove(&p);
        st.sub[p] = Some(s);
        st.low = 0;
        true
    }
    fn gate(&self, st: &mut St<F>, g: usize) -> (Ex<F>, Ex<F>, Ex<F>) {
        (self.resolve(st, 3 * g), self.resolve(st, 3 * g + 1), self.resolve(st, 3 * g + 2))
    }
    /// Everything that follows without a choice.
    fn propagate(&self, st: &mut St<F>) -> bool {
        loop {
            let mut changed = false;
            for g in 0..self.circ.gates {
                if st.done[g] {
                    continue;
                }
                let (l, r, o) = self.gate(st, g);
                let e = if l.is_const() {
                    let mut e = Ex::k(F::zero());
                    e.add(&r, l.c);
                    e
                } else if r.is_const() {
                    let mut e = Ex::k(F::zero());
                    e.add(&l, r.c);
                    e
                } else {
                    continue;
                };
                let mut e = e;
                e.add(&o, -F::one());
                if !self.zero(st, &e) {
                    return false;
                }
                st.done[g] = true;
                changed = true;
            }
            if !changed {
                return true;
            }
        }
    }
    pub fn solve(&mut self) -> Option<Vec<F>> {
        let mut st = St { sub: vec![None; 3 * self.circ.gates], done: vec![false; self.circ.gates], low: 0 };
        for c in &self.circ.cons {
            let mut e = Ex::k(F::zero());
            for (v, k) in c {
                match v {
                    Var::One => e.c += *k,
                    Var::V(i) => e.c += self.v[*i] * k,
                    Var::VC(j, i) => e.c += self.vecs[*j].get(*i).copied().unwrap_or(F::zero()) * k,
                    w => e.add(&Ex { c: F::zero(), t: BTreeMap::from([(id(*w).unwrap(), F::one())]) }, *k),
                }
            }
            if !self.zero(&mut st, &e) {
                return None;
            }
        }
        self.search(st)
    }
    fn search(&mut self, mut st: St<F>) -> Option<Vec<F>> {
        self.nodes += 1;
        if self.nodes > self.budget || !self.propagate(&mut st) {
            return None;
        }
        // a gate that is a quadratic equation in one variable, or a vanishing product
        let mut product = None;
        for g in 0..self.circ.gates {
            if st.done[g] {
                continue;
            }
            let (l, r, o) = self.gate(&mut st, g);
            let lv: Vec<usize> = l.t.keys().copied().collect();
            let rv: Vec<usize> = r.t.keys().copied().collect();
            let ov: Vec<usize> = o.t.keys().copied().collect();
            if lv.len() == 1 && lv == rv && (ov.is_empty() || ov == lv) {
                let x = lv[0];
                let (a0, a1, b0, b1) = (l.c, l.t[&x], r.c, r.t[&x]);
                let (c0, c1) = (o.c, o.t.get(&x).copied().unwrap_or(F::zero()));
                let (qa, qb, qc) = (a1 * b1, a0 * b1 + a1 * b0 - c1, a0 * b0 - c0);
                let four = F::from(4u64);
                let d = qb * qb - four * qa * qc;
                let s = d.sqrt()?;
                let i2 = (qa + qa).inverse().unwrap();
                let mut roots = vec![(s - qb) * i2];
                if !s.is_zero() {
                    roots.push((-s - qb) * i2);
                }
                if let Some(h) = (self.hint)(x) {
                    roots.sort_by_key(|v| *v != h);
                }
                for v in roots {
                    let mut n = st.clone();
                    n.done[g] = true;
                    let mut e = Ex::k(-v);
                    e.t.insert(x, F::one());
                    if self.zero(&mut n, &e) {
                        if let Some(w) = self.search(n) {
                            return Some(w);
                        }
                    }
                }
                return None;
            }
            if product.is_none() && o.is_const() && o.c.is_zero() {
                product = Some((g, l, r));
            }
        }
        if let Some((g, l, r)) = product {
            let at = |e: &Ex<F>| e.t.iter().map(|(v, k)| (self.hint)(*v).map(|h| h * k)).sum::<Option<F>>().map(|x| x + e.c);
            let left_first = !matches!(at(&r), Some(x) if x.is_zero()) || matches!(at(&l), Some(x) if x.is_zero());
            let order = if left_first { [l, r] } else { [r, l] };
            for e in order {
                let mut n = st.clone();
                if self.zero(&mut n, &e) {
                    n.done[g] = true;
                    if let Some(w) = self.search(n) {
                        return Some(w);
                    }
                }
            }
            return None;
        }
        // a guess for the first variable that is free
        let Some(x) = (0..3 * self.circ.gates).find(|v| st.sub[*v].is_none()) else {
            return Some((0..3 * self.circ.gates).map(|v| self.resolve(&mut st, v).c).collect());
        };
        let mut cands = vec![];
        if let Some(h) = (self.hint)(x) {
            cands.push(h);
        }
        for t in self.tries {
            if !cands.contains(t) {
                cands.push(*t);
            }
        }
        for v in cands {
            let mut n = st.clone();
            let mut e = Ex::k(-v);
            e.t.insert(x, F::one());
            if self.zero(&mut n, &e) {
                if let Some(w) = self.search(n) {
                    return Some(w);
                }
            }
            if self.nodes > self.budget {
                return None;
            }
        }
        None
    }
}
/// Is the circuit satisfied by this assignment (given the committed values)?
pub fn satisfies<F: Field>(circ: &Circuit<F>, v: &[F], vecs: &[Vec<F>], w: &[F]) -> bool {
    (0..circ.gates).all(|g| w[3 * g] * w[3 * g + 1] == w[3 * g + 2])
        && circ.cons.iter().all(|c| {
            c.iter()
                .map(|(x, k)| {
                    *k * match x {
                        Var::One => F::one(),
                        Var::V(i) => v[*i],
                        Var::VC(j, i) => vecs[*j].get(*i).copied().unwrap_or(F::zero()),
                        g => w[id(*g).unwrap()],
                    }
                })
                .sum::<F>()
                .is_zero()
        })
}
