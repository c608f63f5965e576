//! All randomness of an honest proof, taken out of it: the prover is run again and again with the
//! same random source while its transcript's challenges change after its last blinded message.
//! What it answers are known combinations of its blindings, which linear algebra undoes.
//! Nothing of the prover is read but what it publishes and what its transcript saw.
use crate::wire::Parts;
use ark_ec::AffineRepr;
use ark_ff::Field;
use simctx::Op;

/// The scalar a transcript's challenge bytes stand for.
pub fn scalar_of<F: Field>(b: &[u8]) -> F {
    use sha3::{Digest, Sha3_256};
    for i in 0..=u8::MAX {
        let mut s = Sha3_256::new();
        s.update(b);
        s.update([i]);
        if let Some(x) = F::from_random_bytes(s.finalize().as_slice()) {
            return x;
        }
    }
    panic!()
}
/// Where the prover of this proof got its last challenges before answering.
#[derive(Clone, Debug, PartialEq)]
pub struct At {
    pub t: u64,
    /// number of challenges before
    pub from: u64,
    /// how many challenges it gets before it answers
    pub n: usize,
    /// challenges before, as scalars
    pub before: usize,
}
pub fn locate<C: AffineRepr>(log: &[Op], p: &Parts<C>) -> Option<At> {
    let mut last = vec![];
    p.t.last()?.serialize_compressed(&mut last).ok()?;
    let (mut seen, mut hit) = (std::collections::HashMap::<u64, u64>::new(), None);
    for o in log {
        match o {
            Op::Append { t, data, .. } => {
                if *data == last {
                    hit = Some((*t, *seen.get(t).unwrap_or(&0)));
                }
            }
            Op::Challenge { t, .. } => *seen.entry(*t).or_insert(0) += 1,
        }
    }
    let (t, from) = hit?;
    let (mut k, mut n) = (0, 0);
    for o in log {
        match o {
            Op::Challenge { t: u, .. } if *u == t => {
                n += (k >= from) as usize;
                k += 1;
            }
            Op::Append { t: u, .. } if *u == t && n > 0 => break,
            _ => {}
        }
    }
    (n > 0).then_some(At { t, from, n, before: from as usize })
}
/// One transcript's challenges.
pub fn challenges<F: Field>(log: &[Op], t: u64) -> Vec<F> {
    log.iter()
        .filter_map(|o| match o {
            Op::Challenge { t: u, data, .. } if *u == t => Some(scalar_of(data)),
            _ => None,
        })
        .collect()
}
/// Solve an overdetermined system; None unless it has exactly one solution.
pub fn solve<F: Field>(mut rows: Vec<Vec<F>>, n: usize) -> Option<Vec<F>> {
    let mut at = 0;
    for c in 0..n {
        let p = (at..rows.len()).find(|i| !rows[*i][c].is_zero())?;
        rows.swap(at, p);
        let inv = rows[at][c].inverse()?;
        for x in &mut rows[at][c..] {
            *x *= inv;
        }
        let piv = rows[at].clone();
        for (i, r) in rows.iter_mut().enumerate() {
            if i != at && !r[c].is_zero() {
                let k = r[c];
                for (x, y) in r[c..].iter_mut().zip(&piv[c..]) {
                    *x -= k * y;
                }
            }
        }
        at += 1;
    }
    if rows[at..].iter().any(|r| !r[n].is_zero()) {
        return None;
    }
    Some(rows[..at].iter().map(|r| r[n]).collect())
}
pub fn rank<F: Field>(mut rows: Vec<Vec<F>>) -> usize {
    let n = rows.first().map(|r| r.len()).unwrap_or(0);
    let mut at = 0;
    for c in 0..n {
        let Some(p) = (at..rows.len()).find(|i| !rows[*i][c].is_zero()) else { continue };
        rows.swap(at, p);
        let inv = rows[at][c].inverse().unwrap();
        let piv = rows[at].clone();
        for r in rows[at + 1..].iter_mut() {
            if !r[c].is_zero() {
                let k = r[c] * inv;
                for (x, y) in r[c..].iter_mut().zip(&piv[c..]) {
                    *x -= k * y;
                }
            }
        }
        at += 1;
    }
    at
}
/// How many forks one proof needs.
pub fn needed<C: AffineRepr>(p: &Parts<C>, vectors: bool) -> usize {
    let tau = p.t.len();
    let e = (p.t.len() / 2 + 1) * if p.flag == 1 { 2 } else { 1 };
    let v = if vectors { (p.t.len() / 2 + 1) << p.l.len() } else { 0 };
    tau.max(e).max(v) + 2
}
/// The randomness behind one proof.
#[derive(Clone, Debug)]
pub struct Taken<F> {
    /// blindings of the coefficients' commitments, by degree (the checked one is not committed to)
    pub tau: Vec<F>,
    /// blindings of the first and of the second phase's vector commitments, by degree
    pub e: Vec<F>,
    pub e2: Vec<F>,
    /// masks of the two vectors (the right one times the powers of a challenge), padded
    pub sl: Vec<F>,
    pub sr: Vec<F>,
    /// the degree that is checked
    pub op: usize,
}
/// Answers of one prover to different challenges.
pub struct Answer<C: AffineRepr> {
    pub parts: Parts<C>,
    pub chal: Vec<C::ScalarField>,
}
pub fn take<C: AffineRepr>(at: &At, runs: &[Answer<C>], vectors: bool) -> Option<Taken<C::ScalarField>> {
    type S<C> = <C as AffineRepr>::ScalarField;
    let p = &runs.first()?.parts;
    let (nt, k) = (p.t.len(), p.l.len());
    let top = nt / 2;
    let two = p.flag == 1;
    let x_of = |r: &Answer<C>| r.chal[at.before + at.n - 1];
    let u_of = |r: &Answer<C>| r.chal[at.before];
    let powers = |x: S<C>, n: usize| -> Vec<S<C>> {
        let mut v = vec![S::<C>::ONE];
        for i in 1..n {
            v.push(v[i - 1] * x);
        }
        v
    };
    for r in runs {
        // nothing before the challenges may depend on them
        let same = r.parts.a == p.a && r.parts.two == p.two && r.parts.t == p.t;
        if !same || r.chal.len() < at.before + at.n + k || r.chal[..at.before] != runs[0].chal[..at.before] {
            return None;
        }
    }
    let tau = solve(
        runs.iter()
            .map(|r| {
                let mut row = powers(x_of(r), nt);
                row.push(r.parts.s[1]);
                row
            })
            .collect(),
        nt,
    )?;
    let ne = top + 1;
    let e = solve(
        runs.iter()
            .map(|r| {
                let mut row = powers(x_of(r), ne);
                if two {
                    let u = u_of(r);
                    row.extend(row.clone().iter().map(|x| *x * u));
                }
                row.push(r.parts.s[2]);
                row
            })
            .collect(),
        ne * if two { 2 } else { 1 },
    )?;
    let (mut sl, mut sr) = (vec![], vec![]);
    if vectors {
        let n = 1usize << k;
        let row = |r: &Answer<C>, inv: bool, b: S<C>| -> Option<Vec<S<C>>> {
            let us = &r.chal[r.chal.len() - k..];
            let xs = powers(x_of(r), ne);
            let mut row = vec![];
            for i in 0..n {
                let mut m = S::<C>::ONE;
                for (j, u) in us.iter().enumerate() {
                    let hi = (i >> (k - 1 - j)) & 1 == 1;
                    m *= if hi != inv { u.inverse()? } else { *u };
                }
                row.extend(xs.iter().map(|x| *x * m));
            }
            row.push(b);
            Some(row)
        };
        let l = solve(runs.iter().map(|r| row(r, false, r.parts.ab[0])).collect::<Option<Vec<_>>>()?, n * ne)?;
        let r = solve(runs.iter().map(|r| row(r, true, r.parts.ab[1])).collect::<Option<Vec<_>>>()?, n * ne)?;
        sl = (0..n).map(|i| l[i * ne + top]).collect();
        sr = (0..n).map(|i| r[i * ne + top]).collect();
    }
    Some(Taken { tau, e: e[..ne].to_vec(), e2: e[ne..].to_vec(), sl, sr, op: top - 1 })
}
