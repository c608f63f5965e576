//! C14: circuit gadgets accept exactly the relation they name.
use ark_ec::models::short_weierstrass::{Affine, SWCurveConfig};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{Field, PrimeField, Zero};
use bulletproofs::r1cs::*;
use bulletproofs::{BulletproofGens, PedersenGens};
use ctsim::circ::*;
use ctsim::collect::Collector;
use ctsim::engine::*;
use ctsim::plan::*;
use ctsim::tiny::*;
use ctsim::tree::*;
use ctsim::{ensure, on_small, on_tiny, on_tree};
use relations::curve::*;
use relations::lookup::*;
use relations::rerandomize::*;
use relations::select::select;
use relations::single_level_select_and_rerandomize::*;
use simctx::Rng64;
use std::collections::BTreeMap;

pub const CHECK: Check = Check {
    id: "C14",
    level: "exploration",
    run,
    quick_runs: 150_000,
    thorough_runs: 4_000_000,
    rule: "one evaluation = one gadget over a field of 13 to 223 elements on a curve with random coefficients, with random and boundary inputs and outputs (also off-curve points, equal and opposite points, repeated and missing list entries, tables with few entries); the circuit the real code states is collected and the adversary's whole assignment space is searched, and satisfiable must mean exactly that the relation, computed independently, holds; where it holds the honest witness must satisfy the circuit and the verifier's circuit must be the prover's; on the real and 61 to 127 bit curves honest witnesses must satisfy, and a planner looks for assignments of false instances; distinct by digest of all choices",
    real: crate::REAL,
    stubs: &["the constraint system is a recorder; proofs of the collected circuits are the subject of C01 and C02"],
    assumptions: &["incomplete addition of two equal points is outside the stated domain", "searches that exceed their node budget decide nothing (counted)"],
};
fn run(s: &mut Sim) -> Res {
    if !cfg!(curve_trees_sim) {
        return Err(Stop::Skip("hooks are not available"));
    }
    match s.stratum("gadget", 12) {
        0 => on_tiny!(s, bits(s)),
        1 => on_tiny!(s, selection(s)),
        2 => on_tiny!(s, table(s)),
        3 => on_tiny!(s, curve(s)),
        4 | 5 => on_tiny!(s, addition(s)),
        6 => on_tiny!(s, rerand(s)),
        7 => on_small!(s, rerand(s)),
        8 => {
            if s.choose("windows", 2) == 0 {
                on_tiny!(s, level(s))
            } else {
                on_small!(s, level(s))
            }
        }
        9 => {
            if s.choose("windows", 2) == 0 {
                on_tiny!(s, members(s))
            } else {
                on_small!(s, members(s))
            }
        }
        10 => on_small!(s, addition(s)),
        _ => on_tree!(s, large(s)),
    }
}
fn members<P: SWCurveConfig + Copy>(s: &mut Sim) -> Res
where
    P::BaseField: PrimeField,
{
    match s.choose("members", 4) {
        0 => batched::<P, 1>(s),
        1 | 2 => batched::<P, 2>(s),
        _ => batched::<P, 3>(s),
    }
}
type Fb<P> = <P as ark_ec::CurveConfig>::BaseField;

pub fn field<F: PrimeField>(s: &mut Sim, label: &str) -> F {
    F::from(s.choose(label, modulus::<F>()))
}
/// Bring a value into a constraint system in one of the ways callers do.
pub fn enter<F: PrimeField>(s: &mut Sim, c: &mut Collector<F>, v: F) -> LinearCombination<F> {
    match s.choose("form of input", 4) {
        0 => c.input(v).into(),
        1 => constant(v),
        2 => {
            let k = field::<F>(s, "offset");
            LinearCombination::from(c.input(v - k)) + k
        }
        _ => {
            let (a, k) = (field::<F>(s, "part"), F::from(1 + s.choose("factor", 5)));
            let x = c.input((v - a) * k.inverse().unwrap_or(F::one()));
            let y = c.input(a);
            if k.inverse().is_none() {
                LinearCombination::from(x) + y
            } else {
                LinearCombination::from(x) * k + y
            }
        }
    }
}
fn normal<F: Field>(c: &Circuit<F>) -> Vec<BTreeMap<(u8, usize, usize), Vec<u8>>> {
    c.cons
        .iter()
        .map(|t| {
            let mut m: BTreeMap<(u8, usize, usize), F> = BTreeMap::new();
            for (v, k) in t {
                let key = match v {
                    Var::L(i) => (0, *i, 0),
                    Var::R(i) => (1, *i, 0),
                    Var::O(i) => (2, *i, 0),
                    Var::VC(i, j) => (3, *i, *j),
                    Var::V(i) => (4, *i, 0),
                    Var::One => (5, 0, 0),
                };
                *m.entry(key).or_insert(F::zero()) += k;
            }
            m.into_iter()
                .filter(|(_, k)| !k.is_zero())
                .map(|(v, k)| {
                    let mut b = vec![];
                    k.serialize_compressed(&mut b).unwrap();
                    (v, b)
                })
                .collect()
        })
        .collect()
}
/// The verdict on a circuit that must be satisfiable exactly if the relation holds.
pub fn judge<F: PrimeField>(s: &mut Sim, name: &str, c: &Collector<F>, holds: bool, what: impl Fn() -> String) -> Res {
    let seed = s.seed("search order");
    s.note(format!("{name}: {}; relation {}", what(), if holds { "holds" } else { "does not hold" }));
    let (v, n) = decide(&c.circ, &c.inputs, 1_500_000, seed);
    s.add("assignments searched", n);
    s.count(&format!("{name}: {}", if holds { "relation holds" } else { "relation does not hold" }));
    s.nontrivial = true;
    s.state(hash_str(&format!("{name} {holds} {} {}", modulus::<F>(), c.circ.gates)));
    if !holds {
        s.fault("adversarial assignment search");
    }
    match v {
        Verdict::Sat if !holds => violation(format!("{name}-accepts"), format!("{}: the circuit has a satisfying assignment but the relation does not hold", what())),
        Verdict::Unsat if holds => violation(format!("{name}-refuses"), format!("{}: the relation holds but the circuit has no satisfying assignment", what())),
        Verdict::Open => {
            s.count(&format!("searches given up: {name} {holds}"));
            Ok(())
        }
        _ => Ok(()),
    }
}
/// With the honest witness: same circuit, satisfied.
pub fn honest<F: PrimeField>(s: &mut Sim, name: &str, with: &Collector<F>, without: Option<&Collector<F>>) -> Res {
    s.count(&format!("{name}: honest witness"));
    ensure!(with.satisfied(), format!("{name}-witness"), "the honest witness does not satisfy the circuit of {name}");
    if let Some(w) = without {
        ensure!(
            with.circ.gates == w.circ.gates && normal(&with.circ) == normal(&w.circ),
            format!("{name}-asymmetric"),
            "prover and verifier state different circuits for {name}"
        );
    }
    Ok(())
}
fn bits<P: SWCurveConfig + Copy>(s: &mut Sim) -> Res
where
    P::BaseField: PrimeField,
{
    let v = field::<Fb<P>>(s, "value");
    let mut c = Collector::new();
    let x = enter(s, &mut c, v);
    is_bit(&mut c, x);
    let holds = v.is_zero() || v == Fb::<P>::from(1u64);
    if holds {
        honest(s, "is_bit", &c, None)?;
    }
    judge(s, "is_bit", &c, holds, || format!("value {v} mod {}", modulus::<Fb<P>>()))
}
fn selection<P: SWCurveConfig + Copy>(s: &mut Sim) -> Res
where
    P::BaseField: PrimeField,
{
    let long = s.choose("long list", 3) == 1;
    let n = if long { [11, 12, 13, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 100, 128, 200, 256, 257, 400][s.choose("length", 20) as usize] } else { 1 + s.choose("list length", 10) };
    let mut xs: Vec<Fb<P>> = if long {
        // few different values, so that there are others
        let some: Vec<Fb<P>> = (0..3).map(|_| field(s, "list value")).collect();
        let mut r = Rng64::new(s.seed("list"));
        (0..n).map(|_| some[r.below(3) as usize]).collect()
    } else {
        (0..n).map(|_| field(s, "list entry")).collect()
    };
    if long && s.choose("one of its own", 2) == 1 {
        // one entry that no other equals
        let v: Fb<P> = field(s, "value");
        if !xs.contains(&v) {
            let at = match s.choose("place", 4) {
                0 => n - 1,
                1 => n - 2,
                _ => s.choose("index", n),
            };
            xs[at as usize] = v;
            return selected::<P>(s, xs, v);
        }
    }
    if n > 1 && s.choose("repeated entry", 3) == 0 {
        xs[0] = xs[n as usize - 1];
    }
    let x = match s.choose("selected", 3) {
        0 => xs[s.choose("index", n) as usize],
        1 => field(s, "value"),
        // the sum of two entries, or a difference
        _ => xs[0] + xs[n as usize - 1],
    };
    selected::<P>(s, xs, x)
}
fn selected<P: SWCurveConfig + Copy>(s: &mut Sim, xs: Vec<Fb<P>>, x: Fb<P>) -> Res
where
    P::BaseField: PrimeField,
{
    let mut c = Collector::new();
    let lx = enter(s, &mut c, x);
    let l: Vec<_> = xs.iter().map(|x| enter(s, &mut c, *x)).collect();
    select(&mut c, lx, l.into_iter());
    let holds = xs.contains(&x);
    if holds {
        honest(s, "select", &c, None)?;
    }
    judge(s, "select", &c, holds, || format!("{x} from a list of {}, at {:?}, {:?} mod {}", xs.len(), xs.iter().position(|y| *y == x), &xs[..xs.len().min(10)], modulus::<Fb<P>>()))
}
fn table<P: SWCurveConfig + Copy>(s: &mut Sim) -> Res
where
    P::BaseField: PrimeField,
{
    match s.choose("columns", 4) {
        0 => table_n::<Fb<P>, 1>(s),
        1 | 2 => table_n::<Fb<P>, 2>(s),
        _ => table_n::<Fb<P>, 3>(s),
    }
}
fn table_n<F: PrimeField, const N: usize>(s: &mut Sim) -> Res {
    let mut r = Rng64::new(s.seed("table"));
    let few = s.choose("values in table", 3);
    let m = if few == 0 { 2 } else { modulus::<F>() };
    let t = Lookup3Bit::<N, F> { elems: std::array::from_fn(|_| std::array::from_fn(|_| F::from(r.below(m)))) };
    let j = s.choose("row", 8) as usize;
    let mut out: [F; N] = std::array::from_fn(|i| t.elems[i][j]);
    match s.choose("output", 4) {
        0 => {}
        1 => {
            // columns of different rows
            let k = s.choose("other row", 8) as usize;
            out[N - 1] = t.elems[N - 1][k];
        }
        2 => {
            let i = s.choose("column", N as u64) as usize;
            out[i] = field(s, "other value");
        }
        _ => {
            // a combination of two rows
            let k = s.choose("other row", 8) as usize;
            for i in 0..N {
                out[i] += t.elems[i][k] - t.elems[i][0];
            }
        }
    }
    let holds = (0..8).any(|j| (0..N).all(|i| t.elems[i][j] == out[i]));
    let mut c = Collector::new();
    let o: Vec<_> = out.iter().map(|v| enter(s, &mut c, *v)).collect();
    let mut w = Collector::new();
    let got = lookup(&mut c, &t, None).expect("lookup");
    for i in 0..N {
        c.constrain(got[i].clone() - o[i].clone());
    }
    // honest: the output is the row asked for
    let row: Vec<_> = (0..N).map(|i| w.input(t.elems[i][j])).collect();
    let got = lookup(&mut w, &t, Some(j)).expect("lookup");
    for i in 0..N {
        ensure!(w.eval(&got[i]) == Some(t.elems[i][j]), "lookup-value", "row {j}, column {i} of {:?} gives {:?}", t.elems, w.eval(&got[i]));
        w.constrain(got[i].clone() - row[i]);
    }
    honest(s, "lookup", &w, None)?;
    judge(s, "lookup", &c, holds, || format!("{out:?} from {:?} mod {}", t.elems, modulus::<F>()))
}
fn curve<P: SWCurveConfig + Copy>(s: &mut Sim) -> Res
where
    P::BaseField: PrimeField,
{
    let (a, b) = (field::<Fb<P>>(s, "a"), field::<Fb<P>>(s, "b"));
    let (mut x, mut y) = (field::<Fb<P>>(s, "x"), field::<Fb<P>>(s, "y"));
    if s.choose("on the curve", 2) == 0 {
        for _ in 0..modulus::<Fb<P>>() {
            if let Some(r) = (x * x * x + a * x + b).sqrt() {
                y = if s.choose("sign", 2) == 0 { r } else { -r };
                break;
            }
            x += Fb::<P>::from(1u64);
        }
    }
    let mut c = Collector::new();
    let (lx, ly) = (enter(s, &mut c, x), enter(s, &mut c, y));
    curve_check(&mut c, lx, ly, a, b);
    let holds = y * y == x * x * x + a * x + b;
    if holds {
        honest(s, "curve_check", &c, None)?;
    }
    judge(s, "curve_check", &c, holds, || format!("({x}, {y}) on y^2 = x^3 + {a} x + {b} mod {}", modulus::<Fb<P>>()))
}
type Pt<F> = (F, F);
fn rep<F: PrimeField, P: SWCurveConfig<BaseField = F>>(s: &mut Sim, c: &mut Collector<F>, p: Pt<F>, known: bool) -> PointRepresentation<F, Affine<P>> {
    PointRepresentation {
        x: enter(s, c, p.0),
        y: enter(s, c, p.1),
        witness: known.then(|| Affine::new_unchecked(p.0, p.1)),
    }
}
fn addition<P: SWCurveConfig + Copy>(s: &mut Sim) -> Res
where
    P::BaseField: PrimeField,
{
    let pts = points::<P>();
    let n = pts.len() as u64;
    let on = |s: &mut Sim, l: &str| pts[s.choose(l, n) as usize];
    let mut l = on(s, "left");
    let mut r = on(s, "right");
    let mut curve = true;
    match s.choose("operands", 6) {
        0 => r = l,
        1 => r = (l.0, -l.1),
        2 => {
            l = (field(s, "x"), field(s, "y"));
            curve = false;
        }
        3 => {
            r = (l.0, field(s, "y"));
            curve = false;
        }
        _ => {}
    }
    let sum = chord(l, r);
    let o = match s.choose("result", 6) {
        0 | 1 => sum.unwrap_or_else(|| on(s, "any")),
        2 => sum.map(|o| (o.0, -o.1)).unwrap_or_else(|| on(s, "any")),
        // the difference in place of the sum
        3 => chord(l, (r.0, -r.1)).unwrap_or_else(|| on(s, "any")),
        4 => on(s, "any"),
        _ => match sum {
            Some(o) => (o.0, field(s, "y")),
            None => (field(s, "x"), field(s, "y")),
        },
    };
    let kind = s.choose("kind of addition", 4);
    let checked = kind & 1 == 1;
    let name = ["incomplete_curve_addition", "checked_curve_addition", "incomplete_curve_addition_helper", "checked_curve_addition_helper"][kind as usize];
    if !checked && l == r {
        s.count("outside the domain: equal points");
        return Ok(());
    }
    let holds = sum == Some(o);
    let build = |s: &mut Sim, known: bool| {
        let mut c = Collector::new();
        if kind < 2 {
            let delta = if known { sum.map(|_| (r.1 - l.1) * (r.0 - l.0).inverse().unwrap()) } else { None };
            let inv = if known { (l.0 - r.0).inverse() } else { None };
            let prm = CurveAddition {
                x_l: enter(s, &mut c, l.0),
                y_l: enter(s, &mut c, l.1),
                x_r: enter(s, &mut c, r.0),
                y_r: enter(s, &mut c, r.1),
                x_o: enter(s, &mut c, o.0),
                y_o: enter(s, &mut c, o.1),
                delta,
            };
            if checked {
                checked_curve_addition(&mut c, &prm, inv);
            } else {
                incomplete_curve_addition(&mut c, &prm);
            }
        } else {
            let (a, b) = (rep::<Fb<P>, P>(s, &mut c, l, known), rep::<Fb<P>, P>(s, &mut c, r, known));
            let (x, y) = (enter(s, &mut c, o.0), enter(s, &mut c, o.1));
            let got = if checked { checked_curve_addition_helper(&mut c, a, b) } else { incomplete_curve_addition_helper(&mut c, a, b) };
            c.constrain(got.x - x);
            c.constrain(got.y - y);
        }
        c
    };
    if holds && (kind < 2 || curve) {
        let w = build(s, true);
        honest(s, name, &w, None)?;
    }
    let c = build(s, false);
    judge(s, name, &c, holds, || format!("{l:?} + {r:?} = {o:?} on {} x + {} mod {}", P::COEFF_A, P::COEFF_B, modulus::<Fb<P>>()))
}

// ---- rerandomization and levels ----------------------------------------------------------------
struct Tables<F: Field> {
    t: Vec<Lookup3Bit<2, F>>,
    /// every accumulator the windows can produce
    acc: Vec<Pt<F>>,
}
/// Tables with few different points, so that what they reach is a small part of the group.
fn tables<P: SWCurveConfig + Copy>(s: &mut Sim, pts: &[Pt<Fb<P>>], most: u64) -> Option<Tables<Fb<P>>>
where
    P::BaseField: PrimeField,
{
    let m = P::ScalarField::MODULUS_BIT_SIZE as usize / 3 + 1;
    let mut r = Rng64::new(s.seed("tables"));
    let mut t = vec![];
    let mut sets: Vec<Vec<Pt<Fb<P>>>> = vec![];
    for _ in 0..m {
        let k = 1 + s.choose("points in a table", most);
        let set: Vec<_> = (0..k).map(|_| pts[r.below(pts.len() as u64) as usize]).collect();
        let rows: Vec<Pt<Fb<P>>> = (0..8).map(|_| set[r.below(k) as usize]).collect();
        t.push(Lookup3Bit { elems: [std::array::from_fn(|j| rows[j].0), std::array::from_fn(|j| rows[j].1)] });
        let mut d = rows;
        d.sort();
        d.dedup();
        sets.push(d);
    }
    let mut acc = sets[0].clone();
    for (i, set) in sets.iter().enumerate().skip(1) {
        let mut next = vec![];
        for a in &acc {
            for b in set {
                if a == b && i + 1 < m {
                    // an incomplete addition of equal points: outside the domain
                    return None;
                }
                next.extend(chord(*a, *b));
            }
        }
        next.sort();
        next.dedup();
        acc = next;
    }
    Some(Tables { t, acc })
}
/// The row each window of a scalar selects.
fn rows<S: PrimeField>(r: S) -> Vec<usize> {
    use ark_ff::BigInteger;
    let b = r.into_bigint().to_bits_le();
    let l = S::MODULUS_BIT_SIZE as usize;
    (0..l / 3 + 1).map(|i| (0..3).map(|k| ((3 * i + k < l && b[3 * i + k]) as usize) << k).sum()).collect()
}
/// What a scalar accumulates, if no exceptional addition is met.
fn accumulate<F: PrimeField, S: PrimeField>(t: &Tables<F>, r: S) -> Option<Pt<F>> {
    let j = rows(r);
    let at = |i: usize| (t.t[i].elems[0][j[i]], t.t[i].elems[1][j[i]]);
    let mut acc = at(0);
    for i in 1..j.len() {
        acc = chord(acc, at(i))?;
    }
    Some(acc)
}
fn reachable<F: PrimeField>(from: &[Pt<F>], acc: &[Pt<F>]) -> Vec<Pt<F>> {
    let mut v: Vec<_> = from.iter().flat_map(|c| acc.iter().filter_map(move |a| chord(*c, *a))).collect();
    v.sort();
    v.dedup();
    v
}
/// An output to try: reachable, a near miss, or any point.
fn target<F: PrimeField>(s: &mut Sim, reach: &[Pt<F>], pts: &[Pt<F>], c: Pt<F>) -> Pt<F> {
    let any = |s: &mut Sim| pts[s.choose("any", pts.len() as u64) as usize];
    let inside = |s: &mut Sim| if reach.is_empty() { pts[0] } else { reach[s.choose("reachable", reach.len() as u64) as usize] };
    match s.choose("output", 7) {
        0 => inside(s),
        1 => {
            let p = inside(s);
            (p.0, -p.1)
        }
        2 => c,
        3 => (c.0, -c.1),
        4 => {
            let p = inside(s);
            (p.0, field(s, "y"))
        }
        // any curve point that is not reachable, if there is one
        _ => {
            let out: Vec<_> = pts.iter().filter(|p| !reach.contains(p)).collect();
            if out.is_empty() {
                any(s)
            } else {
                *out[s.choose("unreachable", out.len() as u64) as usize]
            }
        }
    }
}
fn rerand<P: SWCurveConfig + Copy>(s: &mut Sim) -> Res
where
    P::BaseField: PrimeField,
{
    let pts = points::<P>();
    let Some(t) = tables::<P>(s, &pts, 3) else {
        s.count("outside the domain: equal points");
        return Ok(());
    };
    let c = pts[s.choose("commitment", pts.len() as u64) as usize];
    let reach = reachable(&[c], &t.acc);
    let o = target(s, &reach, &pts, c);
    let holds = reach.contains(&o);
    let build = |s: &mut Sim, o: Pt<Fb<P>>, r: Option<P::ScalarField>| {
        let mut k = Collector::new();
        let com = rep::<Fb<P>, P>(s, &mut k, c, r.is_some());
        let (x, y) = if s.choose("output as constant", 2) == 0 { (constant(o.0), constant(o.1)) } else { (enter(s, &mut k, o.0), enter(s, &mut k, o.1)) };
        re_randomize::<Fb<P>, P::ScalarField, P, _>(&mut k, &t.t, com, x, y, r);
        k
    };
    let r = P::ScalarField::from(s.choose("scalar", modulus::<P::ScalarField>()));
    if let Some(out) = accumulate(&t, r).and_then(|a| chord(c, a)) {
        let w = build(s, out, Some(r));
        honest(s, "re_randomize", &w, None)?;
    }
    let k = build(s, o, None);
    judge(s, "re_randomize", &k, holds, || format!("{c:?} to {o:?} mod {}", modulus::<Fb<P>>()))
}
fn layer<P: SWCurveConfig + Copy>(t: &Tables<Fb<P>>, delta: Affine<P>) -> SingleLayerParameters<P>
where
    P::BaseField: PrimeField,
{
    SingleLayerParameters {
        bp_gens: BulletproofGens::new(0, 1),
        pc_gens: PedersenGens { B: P::GENERATOR, B_blinding: (P::GENERATOR + P::GENERATOR).into_affine() },
        delta,
        coeff_a: P::COEFF_A,
        coeff_b: P::COEFF_B,
        tables: t.t.clone(),
    }
}
/// A child's x-coordinate: mostly of curve points, sometimes an empty slot or no point at all.
fn child<F: PrimeField>(s: &mut Sim, pts: &[Pt<F>]) -> F {
    match s.choose("child", 8) {
        0 => F::zero(),
        1 => field(s, "x"),
        _ => pts[s.choose("child point", pts.len() as u64) as usize].0,
    }
}
fn lift<F: PrimeField>(pts: &[Pt<F>], xs: &[F]) -> Vec<Pt<F>> {
    let mut v: Vec<_> = pts.iter().filter(|p| xs.contains(&p.0)).copied().collect();
    v.sort();
    v.dedup();
    v
}
fn aff<P: SWCurveConfig>(p: Pt<P::BaseField>) -> Affine<P> {
    Affine::new_unchecked(p.0, p.1)
}
fn co<P: SWCurveConfig>(p: Affine<P>) -> Pt<P::BaseField> {
    if p.infinity {
        (P::BaseField::zero(), P::BaseField::zero())
    } else {
        (p.x, p.y)
    }
}
fn level<P: SWCurveConfig + Copy>(s: &mut Sim) -> Res
where
    P::BaseField: PrimeField,
{
    let pts = points::<P>();
    let Some(t) = tables::<P>(s, &pts, 2) else {
        s.count("outside the domain: equal points");
        return Ok(());
    };
    let l = 1 + s.choose("children", 4) as usize;
    let xs: Vec<Fb<P>> = (0..l).map(|_| child(s, &pts)).collect();
    let kids = lift(&pts, &xs);
    let reach = reachable(&kids, &t.acc);
    let delta = aff::<P>(pts[s.choose("delta", pts.len() as u64) as usize]);
    let prm = layer::<P>(&t, delta);
    let foreign = pts[s.choose("foreign child", pts.len() as u64) as usize];
    let want = match s.choose("kind of target", 3) {
        0 | 1 => {
            let c = kids.first().copied().unwrap_or(foreign);
            target(s, &reach, &pts, c)
        }
        // a rerandomization of a point that is no child
        _ => reachable(&[foreign], &t.acc).first().copied().unwrap_or(foreign),
    };
    // published points are on the curve
    let want = if pts.contains(&want) { want } else { pts[0] };
    let published = (aff::<P>(want) - delta).into_affine();
    let holds = reach.contains(&co((published + delta).into_affine()));
    let build = |s: &mut Sim, published: Affine<P>, w: Option<(Pt<Fb<P>>, P::ScalarField)>| {
        let mut k = Collector::new();
        let kids: Vec<_> = xs.iter().map(|x| enter(s, &mut k, *x)).collect();
        single_level_select_and_rerandomize(&mut k, &prm, &published, kids, w.map(|w| aff::<P>(w.0)), w.map(|w| w.1));
        k
    };
    if !kids.is_empty() {
        let c = kids[s.choose("selected child", kids.len() as u64) as usize];
        let r = P::ScalarField::from(s.choose("scalar", modulus::<P::ScalarField>()));
        if let Some(out) = accumulate(&t, r).and_then(|a| chord(c, a)) {
            let w = build(s, (aff::<P>(out) - delta).into_affine(), Some((c, r)));
            honest(s, "single_level", &w, None)?;
        }
    }
    let k = build(s, published, None);
    judge(s, "single_level", &k, holds, || format!("children x {xs:?}, published plus offset {want:?} mod {}", modulus::<Fb<P>>()))
}
fn batched<P: SWCurveConfig + Copy, const M: usize>(s: &mut Sim) -> Res
where
    P::BaseField: PrimeField,
{
    let pts = points::<P>();
    let Some(t) = tables::<P>(s, &pts, 1 + (M == 1) as u64) else {
        s.count("outside the domain: equal points");
        return Ok(());
    };
    let l = 1 + s.choose("children", 3) as usize;
    let xs: Vec<Vec<Fb<P>>> = (0..M).map(|_| (0..l).map(|_| child(s, &pts)).collect()).collect();
    let kids: Vec<Vec<Pt<Fb<P>>>> = xs.iter().map(|x| lift(&pts, x)).collect();
    let mut sums = kids[0].clone();
    for k in &kids[1..] {
        sums = sums.iter().flat_map(|a| k.iter().filter_map(move |b| chord(*a, *b))).collect();
        sums.sort();
        sums.dedup();
    }
    let reach = reachable(&sums, &t.acc);
    let delta = aff::<P>(pts[s.choose("delta", pts.len() as u64) as usize]);
    let prm = layer::<P>(&t, delta);
    let all = (delta * P::ScalarField::from(M as u64)).into_affine();
    let foreign = pts[s.choose("foreign child", pts.len() as u64) as usize];
    let want = match s.choose("kind of target", 4) {
        0 | 1 => {
            let c = sums.first().copied().unwrap_or(foreign);
            target(s, &reach, &pts, c)
        }
        // one member is no child of its parent, or is left out
        2 => {
            let mut k = kids.clone();
            let i = s.choose("member", M as u64) as usize;
            k[i] = vec![foreign];
            let mut v = k[0].clone();
            for k in &k[1..] {
                v = v.iter().flat_map(|a| k.iter().filter_map(move |b| chord(*a, *b))).collect();
            }
            reachable(&v, &t.acc).first().copied().unwrap_or(foreign)
        }
        _ => {
            // a single child's, without the others
            let i = s.choose("member", M as u64) as usize;
            reachable(&kids[i], &t.acc).first().copied().unwrap_or(foreign)
        }
    };
    let want = if pts.contains(&want) { want } else { pts[0] };
    let published = (aff::<P>(want) - all).into_affine();
    let holds = reach.contains(&co((published + all).into_affine()));
    let build = |s: &mut Sim, published: Affine<P>, w: Option<([Affine<P>; M], P::ScalarField)>| {
        let mut k = Collector::new();
        let kids: Vec<_> = xs.iter().flatten().map(|x| enter(s, &mut k, *x)).collect();
        single_level_batched_select_and_rerandomize::<P::ScalarField, Fb<P>, P, _, M>(&mut k, &prm, &published, kids, w.as_ref().map(|w| &w.0), w.as_ref().map(|w| w.1));
        k
    };
    if kids.iter().all(|k| !k.is_empty()) {
        let sel: Vec<Pt<Fb<P>>> = (0..M).map(|i| kids[i][s.choose("selected child", kids[i].len() as u64) as usize]).collect();
        let mut sum = Some(sel[0]);
        for p in &sel[1..] {
            sum = sum.and_then(|a| chord(a, *p));
        }
        let r = P::ScalarField::from(s.choose("scalar", modulus::<P::ScalarField>()));
        if let Some(out) = sum.and_then(|c| accumulate(&t, r).and_then(|a| chord(c, a))) {
            let w = build(s, (aff::<P>(out) - all).into_affine(), Some((std::array::from_fn(|i| aff::<P>(sel[i])), r)));
            honest(s, "batched single_level", &w, None)?;
        }
    }
    let k = build(s, published, None);
    judge(s, "batched single_level", &k, holds, || format!("children x {xs:?}, published sum plus offset {want:?} mod {}", modulus::<Fb<P>>()))
}

// ---- large curves ------------------------------------------------------------------------------
fn large<Y: Cyc, const L: usize, const M: usize>(s: &mut Sim) -> Res {
    let p = &Y::params().even_parameters;
    let mut r = Rng64::new(s.seed("values"));
    s.nontrivial = true;
    s.count(&format!("large: {}", Y::NAME));
    s.note(format!("large gadgets on {}", Y::NAME));
    // a false instance: the planner must not find an assignment
    let refuse = |s: &mut Sim, name: &str, c: &Collector<Y::F1>, hint: &dyn Fn(usize) -> Option<Y::F1>| -> Res {
        let tries = [Y::F1::from(0u64), Y::F1::from(1u64), -Y::F1::from(1u64)];
        let mut pl = Plan::new(&c.circ, &c.inputs, &[], hint, &tries);
        pl.budget = 40;
        s.fault("planned assignment");
        if let Some(w) = pl.solve() {
            ensure!(!satisfies(&c.circ, &c.inputs, &[], &w), format!("{name}-accepts"), "{name} on {}: assignment found for a false instance", Y::NAME);
        }
        Ok(())
    };
    match s.choose("large gadget", 5) {
        0 => {
            // table lookup
            let t = &p.tables[s.choose("window", p.tables.len() as u64) as usize];
            let j = s.choose("row", 8) as usize;
            let mut c = Collector::new();
            let got = lookup(&mut c, t, Some(j)).expect("lookup");
            for i in 0..2 {
                let v = c.input(t.elems[i][j]);
                c.constrain(got[i].clone() - v);
            }
            honest(s, "lookup", &c, None)?;
            let k = s.choose("other row", 8) as usize;
            let mut f = Collector::new();
            let out = [t.elems[0][j], if k == j { t.elems[1][j] + Y::F1::from(1u64) } else { t.elems[1][k] }];
            let got = lookup(&mut f, t, None).expect("lookup");
            for i in 0..2 {
                let v = f.input(out[i]);
                f.constrain(got[i].clone() - v);
            }
            if !(0..8).any(|j| t.elems[0][j] == out[0] && t.elems[1][j] == out[1]) {
                refuse(s, "lookup", &f, &|i| c.hint(i))?;
            }
        }
        1 => {
            // addition
            let (a, b): (Ev<Y>, Ev<Y>) = (any_point(&mut r), any_point(&mut r));
            let o = (a + b).into_affine();
            let checked = s.choose("checked", 2) == 1;
            let build = |o: Ev<Y>, known: bool| {
                let mut c = Collector::new();
                let mk = |c: &mut Collector<Y::F1>, p: Ev<Y>| PointRepresentation { x: c.input(p.x).into(), y: c.input(p.y).into(), witness: known.then_some(p) };
                let (l, r) = (mk(&mut c, a), mk(&mut c, b));
                let (x, y) = (c.input(o.x), c.input(o.y));
                let got = if checked { checked_curve_addition_helper(&mut c, l, r) } else { incomplete_curve_addition_helper(&mut c, l, r) };
                c.constrain(got.x - x);
                c.constrain(got.y - y);
                c
            };
            let c = build(o, true);
            honest(s, "addition", &c, Some(&build(o, false)))?;
            let f = build([-o, (o + a).into_affine(), a][s.choose("wrong sum", 3) as usize], false);
            refuse(s, "addition", &f, &|i| c.hint(i))?;
        }
        2 | 3 => {
            // rerandomization and selection with the real tables
            let kids = leaves::<Y>(L, s.seed("children"));
            let i = s.choose("selected child", L as u64) as usize;
            let x: Y::F0 = match edge_scalar::<Y::F0>(s, "edge even") {
                Some(x) => x,
                None => ctsim::prog::nonzero(&mut r),
            };
            let pd = (kids[i] + p.delta).into_affine();
            let out = (kids[i] + p.pc_gens.B_blinding * x).into_affine();
            let build = |out: Ev<Y>, w: bool| {
                let mut c = Collector::new();
                let l: Vec<LinearCombination<Y::F1>> = kids.iter().map(|k| c.input((*k + p.delta).into_affine().x).into()).collect();
                single_level_select_and_rerandomize(&mut c, p, &out, l, w.then_some(pd), w.then_some(x));
                c
            };
            let c = build(out, true);
            honest(s, "single_level", &c, Some(&build(out, false)))?;
        }
        _ => {
            let kids = leaves::<Y>(L * M.max(2), s.seed("children"));
            let x: Y::F0 = ctsim::prog::nonzero(&mut r);
            fn go<Y: Cyc, const M: usize>(s: &mut Sim, kids: &[Ev<Y>], l: usize, p: &SingleLayerParameters<Y::P0>, x: Y::F0) -> Res {
                let sel: [Ev<Y>; M] = std::array::from_fn(|m| kids[m * l + s.choose("selected child", l as u64) as usize]);
                let sum = sel.iter().fold(Ev::<Y>::zero().into_group(), |a, b| a + b);
                let out = (sum + p.pc_gens.B_blinding * x).into_affine();
                let pd: [Ev<Y>; M] = std::array::from_fn(|m| (sel[m] + p.delta).into_affine());
                let build = |w: bool| {
                    let mut c = Collector::new();
                    let l: Vec<LinearCombination<Y::F1>> = kids.iter().map(|k| c.input((*k + p.delta).into_affine().x).into()).collect();
                    single_level_batched_select_and_rerandomize::<_, _, _, _, M>(&mut c, p, &out, l, w.then_some(&pd), w.then_some(x));
                    c
                };
                honest(s, "batched single_level", &build(true), Some(&build(false)))
            }
            if M > 1 {
                go::<Y, M>(s, &kids[..L * M], L, p, x)?;
            } else {
                go::<Y, 2>(s, &kids, L, p, x)?;
            }
        }
    }
    Ok(())
}
