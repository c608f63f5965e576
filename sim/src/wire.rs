//! The proof's wire format, parsed independently, so that every field can be tampered with.
use ark_ec::AffineRepr;
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};

#[derive(Clone, Debug, PartialEq)]
pub struct Parts<C: AffineRepr> {
    pub a: Vec<C>,
    pub flag: u8,
    pub two: Vec<C>,
    pub t: Vec<C>,
    pub s: Vec<C::ScalarField>,
    pub l: Vec<C>,
    pub r: Vec<C>,
    pub ab: Vec<C::ScalarField>,
}
impl<C: AffineRepr> Parts<C> {
    /// Parse a proof's bytes; None unless the bytes are understood completely.
    pub fn parse(b: &[u8]) -> Option<Self> {
        let mut r = b;
        let mut pts = |r: &mut &[u8], n: usize| -> Option<Vec<C>> {
            (0..n).map(|_| C::deserialize_compressed(&mut *r).ok()).collect()
        };
        let a = pts(&mut r, 3)?;
        let flag = *r.first()?;
        r = &r[1..];
        let two = if flag == 1 { pts(&mut r, 3)? } else { vec![] };
        let t = Vec::<C>::deserialize_compressed(&mut r).ok()?;
        let sc = |r: &mut &[u8], n: usize| -> Option<Vec<C::ScalarField>> {
            (0..n).map(|_| C::ScalarField::deserialize_compressed(&mut *r).ok()).collect()
        };
        let s = sc(&mut r, 3)?;
        let l = Vec::<C>::deserialize_compressed(&mut r).ok()?;
        let rr = Vec::<C>::deserialize_compressed(&mut r).ok()?;
        let ab = sc(&mut r, 2)?;
        let p = Parts { a, flag, two, t, s, l, r: rr, ab };
        if r.is_empty() && p.bytes() == b {
            Some(p)
        } else {
            None
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut o = vec![];
        for p in &self.a {
            p.serialize_compressed(&mut o).unwrap();
        }
        o.push(self.flag);
        for p in &self.two {
            p.serialize_compressed(&mut o).unwrap();
        }
        self.t.serialize_compressed(&mut o).unwrap();
        for x in &self.s {
            x.serialize_compressed(&mut o).unwrap();
        }
        self.l.serialize_compressed(&mut o).unwrap();
        self.r.serialize_compressed(&mut o).unwrap();
        for x in &self.ab {
            x.serialize_compressed(&mut o).unwrap();
        }
        o
    }
    /// All points, as mutable references, with their names.
    pub fn points(&mut self) -> Vec<(String, &mut C)> {
        let mut o: Vec<(String, &mut C)> = vec![];
        for (n, v) in [("a", &mut self.a), ("two", &mut self.two), ("t", &mut self.t), ("l", &mut self.l), ("r", &mut self.r)] {
            for (i, p) in v.iter_mut().enumerate() {
                o.push((format!("{n}[{i}]"), p));
            }
        }
        o
    }
    pub fn scalars(&mut self) -> Vec<(String, &mut C::ScalarField)> {
        let mut o: Vec<(String, &mut C::ScalarField)> = vec![];
        for (n, v) in [("s", &mut self.s), ("ab", &mut self.ab)] {
            for (i, p) in v.iter_mut().enumerate() {
                o.push((format!("{n}[{i}]"), p));
            }
        }
        o
    }
}
