//! An independent prover for the constraint system's wire protocol, fully under the adversary's
//! control: any assignment, any commitment opening (including components an honest prover never
//! uses).  It only uses public interfaces (transcripts, generators, proof bytes).
use crate::circ::*;
use ark_ec::{AffineRepr, CurveGroup, VariableBaseMSM};
use ark_ff::{Field, UniformRand};
use ark_serialize::CanonicalSerialize;
use bulletproofs::{BulletproofGens, PedersenGens};
use merlin::Transcript;

/// At which powers of the evaluation point the prover's vectors sit.
#[derive(Clone, Debug, PartialEq)]
pub struct Layout {
    pub op: usize,
    pub lr: usize,
    pub o: usize,
    pub com: Vec<usize>,
}
impl Layout {
    /// The layouts a verifier of this library may use for `c` vector commitments.
    pub fn candidates(c: usize) -> Vec<Layout> {
        let mut out = vec![];
        for op in [2 + 2 * c, 2 + 2 * (c / 2)] {
            let mid = op / 2;
            let com: Vec<usize> = (1..=op).filter(|r| *r != mid).map(|r| op - r).take(c).collect();
            let l = Layout { op, lr: mid, o: op, com };
            if !out.contains(&l) {
                out.push(l);
            }
        }
        out
    }
    /// Pairs of degrees at which an adversary's stray component meets a left-hand vector in the
    /// coefficient the verifier checks: (stray H component at, left vector at).
    pub fn collisions(&self) -> Vec<(usize, usize)> {
        let mut d = self.com.clone();
        d.push(self.o);
        let mut out = vec![];
        for a in &d {
            for b in &d {
                if a + b == self.op {
                    out.push((*a, *b));
                }
            }
        }
        out
    }
}

fn bytes<T: CanonicalSerialize>(t: &T) -> Vec<u8> {
    let mut b = vec![];
    t.serialize_compressed(&mut b).unwrap();
    b
}
fn point<C: AffineRepr>(t: &mut Transcript, l: &'static [u8], p: &C) {
    t.append_message(l, &bytes(p));
}
pub fn challenge<F: Field>(t: &mut Transcript, l: &'static [u8]) -> F {
    use sha3::{Digest, Sha3_256};
    let mut b = [0u8; 64];
    t.challenge_bytes(l, &mut b);
    for i in 0..=u8::MAX {
        let mut s = Sha3_256::new();
        s.update(b);
        s.update([i]);
        if let Some(x) = F::from_random_bytes(s.finalize().as_slice()) {
            return x;
        }
    }
    panic!()
}
const T_LABELS: [&[u8]; 100] = {
    // "T_0" .. "T_99"
    const fn two(n: usize) -> [u8; 4] {
        [b'T', b'_', b'0' + (n / 10) as u8, b'0' + (n % 10) as u8]
    }
    const fn oned(n: usize) -> [u8; 3] {
        [b'T', b'_', b'0' + n as u8]
    }
    const TWO: [[u8; 4]; 100] = {
        let mut t = [[0; 4]; 100];
        let mut i = 0;
        while i < 100 {
            t[i] = two(i);
            i += 1;
        }
        t
    };
    const ONE: [[u8; 3]; 10] = {
        let mut t = [[0; 3]; 10];
        let mut i = 0;
        while i < 10 {
            t[i] = oned(i);
            i += 1;
        }
        t
    };
    let mut l: [&[u8]; 100] = [b""; 100];
    let mut i = 0;
    while i < 100 {
        l[i] = if i < 10 { &ONE[i] } else { &TWO[i] };
        i += 1;
    }
    l
};
fn msm<C: AffineRepr>(b: &[C], s: &[C::ScalarField]) -> C {
    C::Group::msm(b, s).unwrap().into_affine()
}
/// The generators of the right-hand vector.
#[cfg(curve_trees_sim)]
pub fn second_family<C: AffineRepr>(bp: &BulletproofGens<C>, n: usize) -> Vec<C> {
    bp.share(0).sim_second_family(n)
}
#[cfg(not(curve_trees_sim))]
pub fn second_family<C: AffineRepr>(_: &BulletproofGens<C>, n: usize) -> Vec<C> {
    use sha3::digest::{ExtendableOutputDirty, Update, XofReader};
    let mut s = sha3::Shake256::default();
    s.update(b"GeneratorsChain");
    s.update(&[b'H', 0, 0, 0, 0]);
    let mut r = s.finalize_xof_dirty();
    (0..n)
        .map(|_| {
            let mut b = [0u8; 64];
            r.read(&mut b);
            bulletproofs::affine_from_bytes_tai(&b)
        })
        .collect()
}

/// A vector commitment with arbitrary components.
pub fn commit_vec<C: AffineRepr>(
    w: &VecOpen<C::ScalarField>,
    pc: &PedersenGens<C>,
    bp: &BulletproofGens<C>,
) -> C {
    let n = w.g.len().max(w.h.len());
    let sh = bp.share(0);
    let mut b = vec![pc.B_blinding];
    let mut s = vec![w.blinding];
    b.extend(sh.G(n).take(w.g.len()).copied());
    s.extend(w.g.iter());
    b.extend(second_family(bp, n).into_iter().take(w.h.len()));
    s.extend(w.h.iter());
    msm(&b, &s)
}

/// Deliberate errors in an otherwise complete proof.
#[derive(Clone, Debug, Default)]
pub struct Tweak<F> {
    /// the proof's error is this multiple of the blinding generator
    pub blinding: F,
}
/// Prove `circ` with `wit`, continuing the transcript `t` in which the statement's commitments
/// have been absorbed already.  Returns the proof's bytes.
pub fn prove<C: AffineRepr>(
    t: &mut Transcript,
    circ: &Circuit<C::ScalarField>,
    wit: &Witness<C::ScalarField>,
    lay: &Layout,
    pc: &PedersenGens<C>,
    bp: &BulletproofGens<C>,
) -> Vec<u8> {
    prove_tweaked(t, circ, wit, lay, pc, bp, &Tweak { blinding: C::ScalarField::from(0u64) })
}
pub fn prove_tweaked<C: AffineRepr>(
    t: &mut Transcript,
    circ: &Circuit<C::ScalarField>,
    wit: &Witness<C::ScalarField>,
    lay: &Layout,
    pc: &PedersenGens<C>,
    bp: &BulletproofGens<C>,
    tweak: &Tweak<C::ScalarField>,
) -> Vec<u8> {
    let mut rng = rand::thread_rng();
    let mut rnd = || C::ScalarField::rand(&mut rng);
    let zero = C::ScalarField::from(0u64);
    let one = C::ScalarField::from(1u64);
    let n = circ.size();
    let np = n.next_power_of_two();
    let sh = bp.share(0);
    let g: Vec<C> = sh.G(np).copied().collect();
    let h: Vec<C> = second_family(bp, np);
    let ext = |v: &[C::ScalarField]| {
        let mut v = v.to_vec();
        v.resize(n, zero);
        v
    };
    let (al, ar, ao, aoh) = (ext(&wit.l), ext(&wit.r), ext(&wit.o), ext(&wit.ao_h));
    t.append_u64(b"m", wit.v.len() as u64);
    let (bi, bo, bs) = (rnd(), rnd(), rnd());
    let sl: Vec<_> = (0..n).map(|_| rnd()).collect();
    let sr: Vec<_> = (0..n).map(|_| rnd()).collect();
    let com = |bl: C::ScalarField, x: &[C::ScalarField], y: &[C::ScalarField]| {
        let mut b = vec![pc.B_blinding];
        let mut s = vec![bl];
        b.extend_from_slice(&g[..x.len()]);
        s.extend_from_slice(x);
        b.extend_from_slice(&h[..y.len()]);
        s.extend_from_slice(y);
        msm(&b, &s)
    };
    let a_i = com(bi, &al, &ar);
    let a_o = com(bo, &ao, &aoh);
    let s1 = com(bs, &sl, &sr);
    point(t, b"A_I1", &a_i);
    point(t, b"A_O1", &a_o);
    point(t, b"S1", &s1);
    t.append_message(b"dom-sep", b"r1cs-1phase");
    point(t, b"A_I2", &C::zero());
    point(t, b"A_O2", &C::zero());
    point(t, b"S2", &C::zero());
    let y: C::ScalarField = challenge(t, b"y");
    let z: C::ScalarField = challenge(t, b"z");
    // flatten
    let mut wl = vec![zero; n];
    let mut wr = vec![zero; n];
    let mut wo = vec![zero; n];
    let mut wv = vec![zero; wit.v.len()];
    let mut wvc: Vec<Vec<C::ScalarField>> = circ.vdims.iter().map(|_| vec![zero; n]).collect();
    let mut ez = z;
    for c in &circ.cons {
        for (v, k) in c {
            let k = *k * ez;
            match v {
                Var::L(i) => wl[*i] += k,
                Var::R(i) => wr[*i] += k,
                Var::O(i) => wo[*i] += k,
                Var::VC(j, i) => wvc[*j][*i] += k,
                Var::V(i) => wv[*i] -= k,
                Var::One => {}
            }
        }
        ez *= z;
    }
    let y_inv = y.inverse().unwrap();
    let pows = |b: C::ScalarField, k: usize| {
        let mut v = vec![one; k];
        for i in 1..k {
            v[i] = v[i - 1] * b;
        }
        v
    };
    let (ey, eyi) = (pows(y, np), pows(y_inv, np));
    let is = lay.op + 1;
    let mut l = vec![vec![zero; n]; is + 1];
    let mut r = vec![vec![zero; n]; is + 1];
    for i in 0..n {
        l[lay.lr][i] += al[i] + eyi[i] * wr[i];
        r[lay.op - lay.lr][i] += ey[i] * ar[i] + wl[i];
        l[lay.o][i] += ao[i];
        r[lay.op - lay.o][i] += wo[i] - ey[i];
        r[lay.o][i] += ey[i] * aoh[i];
        l[is][i] += sl[i];
        r[is][i] += ey[i] * sr[i];
        for (j, w) in wit.vecs.iter().enumerate() {
            let d = lay.com[j];
            l[d][i] += w.g.get(i).copied().unwrap_or(zero);
            r[lay.op - d][i] += wvc[j][i];
            r[d][i] += ey[i] * w.h.get(i).copied().unwrap_or(zero);
        }
    }
    let deg = 2 * is;
    let mut tp = vec![zero; deg + 1];
    for a in 0..=is {
        for b in 0..=is {
            for i in 0..n {
                tp[a + b] += l[a][i] * r[b][i];
            }
        }
    }
    let mut tb = vec![zero; deg + 1];
    let mut tc = vec![C::zero(); deg + 1];
    for d in 0..=deg {
        if d != lay.op {
            tb[d] = rnd();
            tc[d] = pc.commit(tp[d], tb[d]);
            point(t, T_LABELS[d], &tc[d]);
        }
    }
    let _u: C::ScalarField = challenge(t, b"u");
    let x: C::ScalarField = challenge(t, b"x");
    let ex = pows(x, deg + 1);
    tb[lay.op] = wv.iter().zip(wit.v.iter()).map(|(w, v)| *w * v.1).sum();
    let t_x: C::ScalarField = (0..=deg).map(|d| tp[d] * ex[d]).sum();
    let t_b: C::ScalarField = (0..=deg).map(|d| tb[d] * ex[d]).sum();
    let mut lv: Vec<_> = (0..n).map(|i| (0..=is).map(|d| l[d][i] * ex[d]).sum::<C::ScalarField>()).collect();
    let mut rv: Vec<_> = (0..n).map(|i| (0..=is).map(|d| r[d][i] * ex[d]).sum::<C::ScalarField>()).collect();
    lv.resize(np, zero);
    for i in n..np {
        rv.push(-ey[i]);
    }
    let mut e_b = bi * ex[lay.lr] + bo * ex[lay.o] + bs * ex[is];
    for (j, w) in wit.vecs.iter().enumerate() {
        e_b += w.blinding * ex[lay.com[j]];
    }
    e_b += tweak.blinding;
    t.append_message(b"t_x", &bytes(&t_x));
    t.append_message(b"t_x_blinding", &bytes(&t_b));
    t.append_message(b"e_blinding", &bytes(&e_b));
    let w: C::ScalarField = challenge(t, b"w");
    let q: C = (pc.B * w).into_affine();
    // inner product argument over (G', H') with G'_i = f_i G_i, H'_i = f_i y^-i H_i
    let f: Vec<_> = (0..np).map(|i| if i < n { one } else { _u }).collect();
    let mut gv: Vec<C> = (0..np).map(|i| (g[i] * f[i]).into_affine()).collect();
    let mut hv: Vec<C> = (0..np).map(|i| (h[i] * (f[i] * eyi[i])).into_affine()).collect();
    let (ls, rs) = ipp(t, &q, &mut gv, &mut hv, &mut lv, &mut rv);
    let mut out = vec![];
    for p in [&a_i, &a_o, &s1] {
        out.extend(bytes(p));
    }
    out.push(0);
    out.extend(bytes(&tc));
    out.extend(bytes(&t_x));
    out.extend(bytes(&t_b));
    out.extend(bytes(&e_b));
    out.extend(bytes(&ls));
    out.extend(bytes(&rs));
    out.extend(bytes(&lv[0]));
    out.extend(bytes(&rv[0]));
    out
}
fn ipp<C: AffineRepr>(
    t: &mut Transcript,
    q: &C,
    g: &mut Vec<C>,
    h: &mut Vec<C>,
    a: &mut Vec<C::ScalarField>,
    b: &mut Vec<C::ScalarField>,
) -> (Vec<C>, Vec<C>) {
    let mut n = g.len();
    t.append_message(b"dom-sep", b"ipp v1");
    t.append_u64(b"n", n as u64);
    let (mut ls, mut rs) = (vec![], vec![]);
    let ip = |x: &[C::ScalarField], y: &[C::ScalarField]| -> C::ScalarField {
        x.iter().zip(y).map(|(p, q)| *p * q).sum()
    };
    while n > 1 {
        n /= 2;
        let m = |gs: &[C], hs: &[C], xs: &[C::ScalarField], ys: &[C::ScalarField]| {
            let bs: Vec<C> = gs.iter().chain(hs).chain(std::iter::once(q)).copied().collect();
            let mut ss: Vec<C::ScalarField> = xs.iter().chain(ys).copied().collect();
            ss.push(ip(xs, ys));
            msm(&bs, &ss)
        };
        let l = m(&g[n..], &h[..n], &a[..n], &b[n..]);
        let r = m(&g[..n], &h[n..], &a[n..], &b[..n]);
        point(t, b"L", &l);
        point(t, b"R", &r);
        ls.push(l);
        rs.push(r);
        let u: C::ScalarField = challenge(t, b"u");
        let ui = u.inverse().unwrap();
        for i in 0..n {
            a[i] = a[i] * u + ui * a[n + i];
            b[i] = b[i] * ui + u * b[n + i];
            g[i] = (g[i] * ui + g[n + i] * u).into_affine();
            h[i] = (h[i] * u + h[n + i] * ui).into_affine();
        }
        a.truncate(n);
        b.truncate(n);
        g.truncate(n);
        h.truncate(n);
    }
    (ls, rs)
}
