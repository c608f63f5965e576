//! Curve trees as the simulator sees them: 2-cycles of curves, an independent model of every node,
//! provers and verifiers as parties.
use crate::engine::*;
use crate::toy;
use ark_ec::short_weierstrass::{Affine, SWCurveConfig};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{Field as _, PrimeField, Zero};
use bulletproofs::r1cs::*;
use merlin::Transcript;
use relations::curve_tree::*;
use relations::single_level_select_and_rerandomize::SingleLayerParameters;
use simctx::Rng64;
use std::collections::VecDeque;
use std::sync::OnceLock;

pub trait Cyc: 'static + Sized {
    type F0: PrimeField;
    type F1: PrimeField;
    type P0: SWCurveConfig<BaseField = Self::F1, ScalarField = Self::F0> + Copy + Send + Sync;
    type P1: SWCurveConfig<BaseField = Self::F0, ScalarField = Self::F1> + Copy + Send + Sync;
    const NAME: &'static str;
    const CAP: usize;
    fn params() -> &'static Prm<Self>;
}
pub type Prm<Y> = SelRerandParameters<<Y as Cyc>::P0, <Y as Cyc>::P1>;
pub type Ev<Y> = Affine<<Y as Cyc>::P0>;
pub type Od<Y> = Affine<<Y as Cyc>::P1>;
pub type Tree<Y, const L: usize, const M: usize> = CurveTree<L, M, <Y as Cyc>::P0, <Y as Cyc>::P1>;
pub type Path<Y, const L: usize> = SelectAndRerandomizePath<L, <Y as Cyc>::P0, <Y as Cyc>::P1>;
pub type MPath<Y, const L: usize, const M: usize> = SelectAndRerandomizeMultiPath<L, M, <Y as Cyc>::P0, <Y as Cyc>::P1>;
pub type EvProver<'g, Y> = Prover<'g, Transcript, Ev<Y>>;
pub type OdProver<'g, Y> = Prover<'g, Transcript, Od<Y>>;
pub type EvVerifier<Y> = Verifier<Transcript, Ev<Y>>;
pub type OdVerifier<Y> = Verifier<Transcript, Od<Y>>;

macro_rules! cyc {
    ($($t:ident = $n:literal, $cap:expr, $p0:ty, $p1:ty;)*) => {$(
        pub struct $t;
        impl Cyc for $t {
            type F0 = <$p0 as ark_ec::CurveConfig>::ScalarField;
            type F1 = <$p0 as ark_ec::CurveConfig>::BaseField;
            type P0 = $p0;
            type P1 = $p1;
            const NAME: &'static str = $n;
            const CAP: usize = $cap;
            fn params() -> &'static Prm<Self> {
                static G: OnceLock<Prm<$t>> = OnceLock::new();
                G.get_or_init(|| SelRerandParameters::new($cap, $cap))
            }
        }
    )*};
}
cyc! {
    T61 = "t61", 4096, toy::t61::Even, toy::t61::Odd;
    T90 = "t90", 4096, toy::t90::Even, toy::t90::Odd;
    T127 = "t127", 4096, toy::t127::Even, toy::t127::Odd;
    Pasta = "pasta", 4096, ark_pallas::PallasConfig, ark_vesta::VestaConfig;
    Secp = "secp", 4096, ark_secp256k1::Config, ark_secq256k1::Config;
}
pub fn slow<Y: Cyc>() -> bool {
    Y::F0::MODULUS_BIT_SIZE > 200
}
/// Distinct leaves in general position.
pub fn leaves<Y: Cyc>(n: usize, seed: u64) -> Vec<Ev<Y>> {
    let mut r = Rng64::new(seed);
    let g = Ev::<Y>::generator();
    (0..n)
        .map(|_| {
            let k: Y::F0 = crate::prog::uniform(&mut r);
            (g * k).into_affine()
        })
        .collect()
}
pub fn any_point<C: AffineRepr>(r: &mut Rng64) -> C {
    let k: C::ScalarField = crate::prog::nonzero(r);
    (C::generator() * k).into_affine()
}

// ---- model -----------------------------------------------------------------------------------
#[derive(Clone, Debug, PartialEq)]
pub struct MNode<C, D> {
    /// one commitment per generator set
    pub com: Vec<C>,
    pub kids: Vec<MNode<D, C>>,
    pub leaf: bool,
    pub height: usize,
    pub elements: usize,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Model<Y: Cyc> {
    Even(MNode<Ev<Y>, Od<Y>>),
    Odd(MNode<Od<Y>, Ev<Y>>),
}
/// x-coordinate of p + Δ.
pub fn xd<P: SWCurveConfig>(p: &Affine<P>, d: &Affine<P>) -> P::BaseField {
    (*p + *d).into_affine().x
}
fn node<P0, P1>(kids: Vec<MNode<Affine<P1>, Affine<P0>>>, l: usize, m: usize, par: &SingleLayerParameters<P0>, delta: &Affine<P1>) -> MNode<Affine<P0>, Affine<P1>>
where
    P0: SWCurveConfig + Copy,
    P1: SWCurveConfig<BaseField = P0::ScalarField, ScalarField = P0::BaseField> + Copy,
{
    let g: Vec<Affine<P0>> = par.bp_gens.share(0).G(l * m).copied().collect();
    let com = (0..m)
        .map(|t| {
            let mut s = <Affine<P0> as AffineRepr>::Group::zero();
            for (j, k) in kids.iter().enumerate() {
                s += g[t * l + j] * xd(&k.com[if k.leaf { 0 } else { t }], delta);
            }
            s.into_affine()
        })
        .collect();
    MNode { com, height: kids[0].height + 1, elements: kids.iter().map(|k| k.elements).sum(), kids, leaf: false }
}
pub fn model<Y: Cyc>(set: &[Ev<Y>], l: usize, m: usize, min_height: usize, prm: &Prm<Y>) -> Model<Y> {
    let mut h = 0;
    let mut cap = 1;
    while cap < set.len() {
        cap *= l;
        h += 1;
    }
    let h = h.max(min_height);
    let mut even: Vec<MNode<Ev<Y>, Od<Y>>> =
        set.iter().map(|c| MNode { com: vec![*c], kids: vec![], leaf: true, height: 0, elements: 1 }).collect();
    let mut odd: Vec<MNode<Od<Y>, Ev<Y>>> = vec![];
    for k in 0..h {
        if k % 2 == 0 {
            odd = even.chunks(l).map(|c| node(c.to_vec(), l, m, &prm.odd_parameters, &prm.even_parameters.delta)).collect();
        } else {
            even = odd.chunks(l).map(|c| node(c.to_vec(), l, m, &prm.even_parameters, &prm.odd_parameters.delta)).collect();
        }
    }
    if h % 2 == 0 {
        Model::Even(even.remove(0))
    } else {
        Model::Odd(odd.remove(0))
    }
}
fn same<const L: usize, const M: usize, P0, P1>(n: &CurveTreeNode<L, M, P0, P1>, m: &MNode<Affine<P0>, Affine<P1>>, at: &str) -> Result<(), String>
where
    P0: SWCurveConfig + Copy,
    P1: SWCurveConfig<BaseField = P0::ScalarField, ScalarField = P0::BaseField> + Copy,
{
    if n.height() != m.height || n.elements() != m.elements {
        return Err(format!("node {at}: height {} elements {}, expected {} {}", n.height(), n.elements(), m.height, m.elements));
    }
    match n {
        CurveTreeNode::Leaf(c) => {
            if !m.leaf || *c != m.com[0] {
                return Err(format!("node {at}: leaf differs"));
            }
        }
        CurveTreeNode::Branch { parent_commitment, children, .. } => {
            if m.leaf {
                return Err(format!("node {at}: branch instead of leaf"));
            }
            for t in 0..M {
                if parent_commitment[t] != m.com[t] || n.commitment(t) != m.com[t] {
                    return Err(format!("node {at}: commitment {t} differs"));
                }
            }
            for j in 0..L {
                match (&children[j], m.kids.get(j)) {
                    (None, None) => {}
                    (Some(c), Some(k)) => same(c, k, &format!("{at}.{j}"))?,
                    _ => return Err(format!("node {at}: child {j} missing or extra")),
                }
            }
        }
    }
    Ok(())
}
/// Compare a real tree with the model, node by node.
pub fn matches<Y: Cyc, const L: usize, const M: usize>(t: &Tree<Y, L, M>, m: &Model<Y>) -> Result<(), String> {
    match (t, m) {
        (CurveTree::Even(t), Model::Even(m)) => same(t, m, "root"),
        (CurveTree::Odd(t), Model::Odd(m)) => same(t, m, "root"),
        _ => Err(format!("root parity differs (height {})", t.height())),
    }
}
/// All that identifies a root.
pub fn root<Y: Cyc, const L: usize, const M: usize>(t: &Tree<Y, L, M>) -> (usize, Vec<(Option<Ev<Y>>, Option<Od<Y>>)>) {
    (
        t.height(),
        (0..M)
            .map(|i| match t {
                CurveTree::Even(n) => (Some(n.commitment(i)), None),
                CurveTree::Odd(n) => (None, Some(n.commitment(i))),
            })
            .collect(),
    )
}
fn bare<const L: usize, const M: usize, P0, P1>(n: &CurveTreeNode<L, M, P0, P1>) -> CurveTreeNode<L, M, P0, P1>
where
    P0: SWCurveConfig + Copy,
    P1: SWCurveConfig<BaseField = P0::ScalarField, ScalarField = P0::BaseField> + Copy,
{
    let strip = |c: &CurveTreeNode<L, M, P1, P0>| match c {
        CurveTreeNode::Leaf(c) => CurveTreeNode::Leaf(*c),
        CurveTreeNode::Branch { parent_commitment, height, elements, .. } => CurveTreeNode::Branch {
            parent_commitment: *parent_commitment,
            children: Box::new(std::array::from_fn(|_| None)),
            height: *height,
            elements: *elements,
        },
    };
    match n {
        CurveTreeNode::Leaf(c) => CurveTreeNode::Leaf(*c),
        CurveTreeNode::Branch { parent_commitment, children, height, elements } => CurveTreeNode::Branch {
            parent_commitment: *parent_commitment,
            children: Box::new(std::array::from_fn(|i| children[i].as_ref().map(strip))),
            height: *height,
            elements: *elements,
        },
    }
}
/// What a verifier keeps of a tree: the root and its children's commitments, nothing below.
pub fn pruned<Y: Cyc, const L: usize, const M: usize>(t: &Tree<Y, L, M>) -> Tree<Y, L, M> {
    match t {
        CurveTree::Even(n) => CurveTree::Even(bare(n)),
        CurveTree::Odd(n) => CurveTree::Odd(bare(n)),
    }
}
pub fn copy<Y: Cyc, const L: usize, const M: usize>(t: &Tree<Y, L, M>) -> Tree<Y, L, M> {
    match t {
        CurveTree::Even(n) => CurveTree::Even(n.clone()),
        CurveTree::Odd(n) => CurveTree::Odd(n.clone()),
    }
}

// ---- shapes ----------------------------------------------------------------------------------
#[derive(Clone, Debug)]
pub struct TShape {
    pub n: usize,
    pub extra: Option<usize>,
    pub height: usize,
    pub seed: u64,
}
impl TShape {
    /// A tree of height 1..=max (leaves decide the height, or the requested height does).
    pub fn draw(s: &mut Sim, l: usize, max: usize, max_leaves: usize) -> TShape {
        let h = 1 + s.stratum("height", max as u64) as usize;
        let (full, below) = (l.pow(h as u32), l.pow(h as u32 - 1));
        let n = match s.choose("fill", 6) {
            0 => full,
            1 => below + 1,
            2 => full - 1,
            3 | 4 => below + 1 + s.choose("leaves", (full - below) as u64) as usize,
            _ => 1 + s.choose("leaves", full as u64) as usize,
        }
        .clamp(1, full.min(max_leaves));
        let extra = match s.choose("requested height", 4) {
            0 => None,
            1 => Some(h),
            2 => Some((h + 1).min(max)),
            _ => Some(s.choose("lower height", h as u64 + 1) as usize),
        };
        let mut need = 0;
        while l.pow(need as u32) < n {
            need += 1;
        }
        let mut extra = extra;
        if need.max(extra.unwrap_or(0)) == 0 {
            extra = Some(1);
        }
        let height = need.max(extra.unwrap_or(0));
        TShape { n, extra, height, seed: s.seed("leaf seed") }
    }
}
/// A random number source that delivers prepared words first.
pub struct EdgeRng {
    pub q: VecDeque<u64>,
}
impl EdgeRng {
    pub fn new() -> Self {
        EdgeRng { q: VecDeque::new() }
    }
    /// The words from which the library's uniform sampling makes this element.
    pub fn push<F: PrimeField>(&mut self, x: F) {
        let n = <F::BigInt as ark_ff::BigInteger>::NUM_LIMBS;
        let r = F::from(2u64).pow([64 * n as u64]);
        self.q.extend((x * r).into_bigint().as_ref().iter());
    }
}
impl Default for EdgeRng {
    fn default() -> Self {
        Self::new()
    }
}
impl rand::RngCore for EdgeRng {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.q.pop_front().unwrap_or_else(simctx::next_u64)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for c in d.chunks_mut(8) {
            let w = self.next_u64().to_le_bytes();
            c.copy_from_slice(&w[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
/// The few scalars for which the windowed addition meets equal or opposite points (excluded by the
/// library's own statement that the prover's random scalar is uniform).
pub fn exceptional<F: PrimeField>(r: F) -> bool {
    use ark_ff::BigInteger;
    let m = F::MODULUS_BIT_SIZE as usize / 3 + 1;
    let bits = r.into_bigint().to_bits_le();
    let two = F::from(2u64);
    let mut sum = F::zero();
    let mut acc = F::zero();
    for i in 1..=m {
        let j: u64 = (0..3).map(|k| (bits.get(3 * (i - 1) + k).copied().unwrap_or(false) as u64) << k).sum();
        let base = two.pow([3 * (i as u64 - 1)]);
        let right = if i < m { two.pow([3 * i as u64]) } else { -sum };
        if i < m {
            sum += right;
        }
        let t = F::from(j) * base + right;
        if i > 1 && (acc == t || acc == -t || t.is_zero()) {
            return true;
        }
        acc += t;
        if acc.is_zero() {
            return true;
        }
    }
    r.is_zero()
}
/// Scalars at the edges of the range and of the windows.
pub fn edge_scalar<F: PrimeField>(s: &mut Sim, label: &str) -> Option<F> {
    let two = F::from(2u64);
    let k = s.choose(label, 10);
    let bit = |s: &mut Sim| s.choose("edge bit", F::MODULUS_BIT_SIZE as u64 + 1);
    let x = match k {
        0 => return None,
        1 => F::one(),
        2 => -F::one(),
        3 => F::from(1 + s.choose("edge small", 64)),
        4 => -F::from(1 + s.choose("edge small", 64)),
        5 => two.pow([bit(s)]),
        6 => two.pow([bit(s)]) - F::one(),
        7 => {
            // all windows equal
            let w = s.choose("edge window", 8);
            let m = F::MODULUS_BIT_SIZE as u64 / 3;
            (0..m).map(|i| F::from(w) * two.pow([3 * i])).sum()
        }
        8 => {
            // the highest windows only
            let m = F::MODULUS_BIT_SIZE as u64 / 3;
            F::from(1 + s.choose("edge window", 7)) * two.pow([3 * (m - 1 - s.choose("edge high", 2))])
        }
        _ => F::from(s.choose("edge window", 8)) * two.pow([3 * s.choose("edge at", F::MODULUS_BIT_SIZE as u64 / 3)]) + F::one(),
    };
    if exceptional(x) {
        s.count("exceptional scalars avoided");
        return None;
    }
    s.count("edge scalars injected");
    Some(x)
}

/// Run `$f::<Cycle, L, M>($($a),*)` over a configuration picked by the run.
#[macro_export]
macro_rules! on_tree {
    ($s:expr, $f:ident($($a:expr),*)) => {{
        use $crate::tree::*;
        match $s.choose("configuration", 240) {
            0..=63 => $f::<T61, 2, 1>($($a),*),
            64..=121 => $f::<T61, 3, 1>($($a),*),
            122..=169 => $f::<T61, 5, 1>($($a),*),
            170..=224 => $f::<T61, 4, 2>($($a),*),
            225..=233 => $f::<T90, 3, 1>($($a),*),
            234..=237 => $f::<T127, 2, 2>($($a),*),
            238 => $f::<Pasta, 4, 1>($($a),*),
            _ => $f::<Secp, 2, 1>($($a),*),
        }
    }};
}
#[macro_export]
macro_rules! on_batch_tree {
    ($s:expr, $f:ident($($a:expr),*)) => {{
        use $crate::tree::*;
        match $s.choose("configuration", 240) {
            0..=29 => $f::<T61, 3, 1>($($a),*),
            30..=79 => $f::<T61, 2, 2>($($a),*),
            80..=129 => $f::<T61, 3, 2>($($a),*),
            130..=179 => $f::<T61, 4, 3>($($a),*),
            180..=225 => $f::<T61, 2, 4>($($a),*),
            226..=234 => $f::<T90, 3, 2>($($a),*),
            235..=238 => $f::<T127, 2, 3>($($a),*),
            _ => $f::<Pasta, 3, 2>($($a),*),
        }
    }};
}
/// How many proofs over a tree of this height fit the generators (a generous estimate).
pub fn fits<Y: Cyc>(l: usize, m: usize, height: usize) -> usize {
    let level = |x: usize, members: usize| x * (11 * (Y::F0::MODULUS_BIT_SIZE as usize / 3 + 3) + 16) + members * (l + 8);
    let odd = (height - height / 2 - 1) * level(1, m) + level(m, m);
    Y::CAP / odd
}
