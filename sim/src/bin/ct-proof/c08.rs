//! C08: public parameters are deterministic, extendable and independent.
use ark_ec::short_weierstrass::{Affine, SWCurveConfig};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{Field, PrimeField, Zero};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use bulletproofs::{BulletproofGens, PedersenGens};
use ctsim::engine::*;
use ctsim::prog::{nonzero, scalar, Crv};
use ctsim::tree::{Cyc, Ev, Od, Pasta, Secp, T127, T61, T90};
use ctsim::{ensure, on_curve};
use relations::curve_tree::SelRerandParameters;
use relations::single_level_select_and_rerandomize::SingleLayerParameters;
use sha3::digest::{ExtendableOutput, Update, XofReader};
use simctx::Rng64;
use std::collections::HashMap;

pub const CHECK: Check = Check {
    id: "C08",
    level: "exploration",
    run,
    quick_runs: 12_000,
    thorough_runs: 200_000,
    rule: "one evaluation = one set of generators (curve, capacity, parties, growth history) or one set of tree parameters, made under a random schedule and random source, compared element by element with an independent derivation from the hash functions, with sets of other sizes and histories, with digests fixed for the real curves, and checked for validity and distinctness over all families, parties, bases and offsets; distinct by digest of all choices",
    real: crate::REAL,
    stubs: crate::STUBS,
    assumptions: &["the hash functions are those of the sha3 crate", "no relation is known between points derived by hashing (not decided here)"],
};
fn run(s: &mut Sim) -> Res {
    if s.choose("very large", 800) == 1 {
        return vast::<ctsim::toy::t61::EvenA>(s);
    }
    match s.stratum("scenario", 8) {
        0 => match s.choose("cycle", 40) {
            0..=29 => tree::<T61>(s),
            30..=34 => tree::<T90>(s),
            35..=36 => tree::<T127>(s),
            37..=38 => tree::<Pasta>(s),
            _ => tree::<Secp>(s),
        },
        1 => on_curve!(s, commitments(s)),
        2 if s.run < 16 || s.choose("fixed values", 20) == 19 => fixed(s),
        _ => on_curve!(s, generators(s)),
    }
}
// ---- independent derivation --------------------------------------------------------------------
/// Hash and try again until a point comes out.
fn point<C: AffineRepr>(bytes: &[u8]) -> C {
    use sha3::Digest;
    (0u8..=255)
        .find_map(|i| {
            let mut h = sha3::Sha3_256::new();
            Digest::update(&mut h, bytes);
            Digest::update(&mut h, [i]);
            C::from_random_bytes(&h.finalize())
        })
        .expect("no point")
}
fn chain<C: AffineRepr>(family: u8, party: u32, n: usize) -> Vec<C> {
    let mut h = sha3::Shake256::default();
    h.update(b"GeneratorsChain");
    h.update([family]);
    h.update(party.to_le_bytes());
    let mut r = h.finalize_xof();
    (0..n)
        .map(|_| {
            let mut b = [0u8; 64];
            r.read(&mut b);
            point(&b)
        })
        .collect()
}
fn base<C: AffineRepr>() -> C {
    let mut b = vec![];
    C::generator().serialize_compressed(&mut b).unwrap();
    point(&b)
}
fn bytes<C: CanonicalSerialize>(c: &C) -> Vec<u8> {
    let mut b = vec![];
    c.serialize_compressed(&mut b).unwrap();
    b
}
/// Points are valid, not neutral and pairwise different, also up to sign.
fn independent<C: AffineRepr>(all: &[(String, C)]) -> Res {
    let mut seen: HashMap<Vec<u8>, &str> = HashMap::new();
    for (n, p) in all {
        ensure!(!p.is_zero(), "neutral", "{n} is the neutral element");
        ensure!(C::deserialize_compressed(&bytes(p)[..]).map(|q| q == *p).unwrap_or(false), "not-on-curve", "{n} is not a valid point");
        // a point off the curve would not survive this
        let b = {
            let mut b = vec![];
            p.serialize_uncompressed(&mut b).unwrap();
            b
        };
        ensure!(C::deserialize_uncompressed(&b[..]).map(|q| q == *p).unwrap_or(false), "not-on-curve", "{n} is not a valid point");
        for q in [*p, (-p.into_group()).into_affine()] {
            if let Some(m) = seen.get(&bytes(&q)) {
                return violation("repeats", format!("{n} equals {m} up to sign"));
            }
        }
        seen.insert(bytes(p), n);
    }
    Ok(())
}

fn generators<C: Crv>(s: &mut Sim) -> Res {
    let slow = !C::NAME.starts_with('t');
    let most = if slow { 24 } else { [9, 40, 150, 600][s.choose("range", if s.thorough { 4 } else { 3 }) as usize] };
    let parties = [1, 1, 2, 3, 6, 17, 300][s.choose("parties", 7) as usize].min(if slow { 3 } else { 300 }) as usize;
    let most = if parties > 20 { 3 } else { most };
    // growth history
    let mut caps = vec![s.choose("capacity", most + 1) as usize];
    for _ in 0..s.choose("growths", 5) {
        let c = match s.choose("growth", 4) {
            0 => *caps.last().unwrap() + 1,
            1 => caps.last().unwrap() * 2,
            2 => s.choose("capacity", most + 1) as usize,
            _ => *caps.last().unwrap(),
        };
        caps.push(c.min(2 * most as usize));
    }
    s.note(format!("{} parties {parties} capacities {caps:?}", C::NAME));
    s.state(hash_str(&format!("{} {parties} {caps:?}", C::NAME)));
    s.nontrivial = true;
    let want = *caps.iter().max().unwrap();
    let env = s.env("setup");
    let out = s.party("setup", &env, || {
        let mut g = BulletproofGens::<C>::new(caps[0], parties);
        let mut steps = vec![(g.gens_capacity, all(&g, parties))];
        for c in &caps[1..] {
            g.increase_capacity(*c);
            steps.push((g.gens_capacity, all(&g, parties)));
        }
        (g, steps)
    });
    let (g, steps) = out.ok("setup")?;
    let model: Vec<Vec<C>> = (0..parties).map(|j| chain(b'G', j as u32, want)).collect();
    let mut cap = 0;
    for (i, (c, gs)) in steps.iter().enumerate() {
        cap = cap.max(caps[i]);
        ensure!(*c == cap, "capacity", "{}: capacity {c} after asking for {:?}", C::NAME, &caps[..=i]);
        for j in 0..parties {
            ensure!(gs[j].len() == cap, "capacity", "{}: party {j} has {} of {cap} generators", C::NAME, gs[j].len());
            if let Some(k) = (0..cap).find(|k| gs[j][*k] != model[j][*k]) {
                return violation("derivation", format!("{}: generator {k} of party {j} after capacities {:?} is not the one derived by hashing", C::NAME, &caps[..=i]));
            }
        }
    }
    // any number of them
    for _ in 0..3 {
        let (j, n) = (s.choose("party", parties as u64) as usize, s.choose("number", want as u64 + 1) as usize);
        ensure!(g.share(j).G(n).copied().collect::<Vec<_>>() == model[j][..n], "prefix", "{}: the first {n} generators of party {j} differ from the first {n} of {want}", C::NAME);
    }
    let mut list: Vec<(String, C)> = vec![];
    let pc = PedersenGens::<C>::default();
    list.push(("B".into(), pc.B));
    list.push(("B_blinding".into(), pc.B_blinding));
    list.push(("delta".into(), point(b"curve_trees_delta")));
    for j in 0..parties {
        list.extend(model[j].iter().enumerate().map(|(k, p)| (format!("G[{j}][{k}]"), *p)));
        if let Some(h) = second(&g, j, want) {
            let m: Vec<C> = chain(b'H', j as u32, want);
            ensure!(h == m, "derivation", "{}: second family of party {j} after capacities {caps:?} is not the one derived by hashing", C::NAME);
            list.extend(m.into_iter().enumerate().map(|(k, p)| (format!("H[{j}][{k}]"), p)));
        }
    }
    independent(&list)?;
    s.add("generators compared", list.len() as u64);
    // once more, in another environment
    if s.choose("again", 3) == 0 {
        let n = want.min(if slow { 8 } else { 60 });
        let env = s.env("setup again");
        let o = s.party("setup again", &env, || {
            let g = BulletproofGens::<C>::new(n, parties + 1);
            all(&g, parties)
        });
        for (j, v) in o.ok("setup again")?.into_iter().enumerate() {
            ensure!(v[..] == model[j][..n], "depends-on-run", "{}: generators of party {j} differ between set-ups of {n} and {want} generators", C::NAME);
        }
    }
    Ok(())
}
fn all<C: Crv>(g: &BulletproofGens<C>, parties: usize) -> Vec<Vec<C>> {
    (0..parties).map(|j| g.share(j).G(g.gens_capacity).copied().collect()).collect()
}
#[cfg(curve_trees_sim)]
fn second<C: Crv>(g: &BulletproofGens<C>, j: usize, n: usize) -> Option<Vec<C>> {
    Some(g.share(j).sim_second_family(n))
}
#[cfg(not(curve_trees_sim))]
fn second<C: Crv>(_: &BulletproofGens<C>, _: usize, _: usize) -> Option<Vec<C>> {
    None
}

/// Very many parties, or growth beyond very many generators.
fn vast<C: Crv>(s: &mut Sim) -> Res {
    let many = s.choose("parties or capacity", 2) == 0;
    let (parties, caps) = if many {
        ([1024, 1025, 1030, 4097, 40_000, 65_537][s.choose("parties", 6) as usize] as usize, vec![1usize, 1 + s.choose("growth", 2) as usize])
    } else {
        let a = [1025, 4096, 4100, 10_000, 65_530, 65_536, 65_540][s.choose("capacity", 7) as usize] as usize;
        (1, vec![a, a + 1 + s.choose("growth", 20) as usize])
    };
    s.note(format!("{} parties {parties} capacities {caps:?}", C::NAME));
    s.state(hash_str(&format!("vast {} {parties} {caps:?}", C::NAME)));
    s.nontrivial = true;
    let env = s.env("setup");
    let out = s.party("setup", &env, || {
        let mut g = BulletproofGens::<C>::new(caps[0], parties);
        g.increase_capacity(caps[1]);
        g
    });
    let g = out.ok("setup")?;
    ensure!(g.gens_capacity == caps[1], "capacity", "{}: capacity {} after asking for {caps:?}", C::NAME, g.gens_capacity);
    let look: Vec<usize> = if many { [0, 1, 255, 256, 1023, 1024, 65_535, 65_536].into_iter().filter(|j| *j < parties).chain([parties - 1]).collect() } else { vec![0] };
    for j in look {
        let m: Vec<C> = chain(b'G', j as u32, caps[1]);
        let f: Vec<C> = g.share(j).G(caps[1]).copied().collect();
        ensure!(f == m, "derivation", "{}: the generators of party {j} of {parties} after capacities {caps:?} are not those derived by hashing", C::NAME);
        if let Some(h) = second(&g, j, caps[1]) {
            let m: Vec<C> = chain(b'H', j as u32, caps[1]);
            ensure!(h == m, "derivation", "{}: the second family of party {j} of {parties} after capacities {caps:?} is not the one derived by hashing", C::NAME);
        }
        s.add("generators compared", 2 * caps[1] as u64);
    }
    Ok(())
}

/// Commitments are what the generators say.
fn commitments<C: Crv>(s: &mut Sim) -> Res {
    let mut r = Rng64::new(s.seed("values"));
    let env = s.env("committer");
    let (v, b): (C::ScalarField, C::ScalarField) = (scalar(&mut r), scalar(&mut r));
    let (pc, c) = s
        .party("committer", &env, || {
            let pc = PedersenGens::<C>::default();
            (pc.clone(), pc.commit(v, b))
        })
        .ok("commit")?;
    ensure!(pc.B == C::generator(), "derivation", "{}: B is not the curve's generator", C::NAME);
    ensure!(pc.B_blinding == base::<C>(), "derivation", "{}: B_blinding is not derived by hashing", C::NAME);
    ensure!(c == (C::generator() * v + base::<C>() * b).into_affine(), "commit", "{}: commitment to ({v}, {b}) is wrong", C::NAME);
    let text: Vec<u8> = (0..s.choose("hashed bytes", 80)).map(|_| r.next() as u8).collect();
    ensure!(bulletproofs::affine_from_bytes_tai::<C>(&text) == point::<C>(&text), "derivation", "{}: hash of {text:02x?} to the curve", C::NAME);
    s.nontrivial = true;
    Ok(())
}

fn tree<Y: Cyc>(s: &mut Sim) -> Res {
    let slow = Y::F0::MODULUS_BIT_SIZE > 200;
    let most = if slow { 12 } else { 60 };
    let (a, b) = (s.choose("even capacity", most + 1) as usize, s.choose("odd capacity", most + 1) as usize);
    s.note(format!("{} parameters {a} {b}", Y::NAME));
    s.nontrivial = true;
    let env = s.env("setup");
    let p = s.party("setup", &env, || SelRerandParameters::<Y::P0, Y::P1>::new(a, b)).ok("setup")?;
    layer(s, &p.even_parameters, a, Y::NAME)?;
    layer(s, &p.odd_parameters, b, Y::NAME)
}
fn layer<P: SWCurveConfig + Copy>(s: &mut Sim, p: &SingleLayerParameters<P>, cap: usize, name: &str) -> Res {
    type A<P> = Affine<P>;
    let h: A<P> = base();
    ensure!(p.pc_gens.B == A::<P>::generator() && p.pc_gens.B_blinding == h, "derivation", "{name}: commitment bases");
    ensure!(p.delta == point::<A<P>>(b"curve_trees_delta"), "derivation", "{name}: offset");
    ensure!(p.coeff_a == P::COEFF_A && p.coeff_b == P::COEFF_B, "curve", "{name}: curve coefficients");
    ensure!(p.bp_gens.gens_capacity == cap && p.bp_gens.party_capacity == 1, "capacity", "{name}: {cap} generators asked for");
    let g: Vec<A<P>> = p.bp_gens.share(0).G(cap).copied().collect();
    ensure!(g == chain::<A<P>>(b'G', 0, cap), "derivation", "{name}: generators");
    let mut list = vec![("B".to_string(), p.pc_gens.B), ("B_blinding".into(), h), ("delta".into(), p.delta)];
    list.extend(g.iter().enumerate().map(|(k, p)| (format!("G[{k}]"), *p)));
    independent(&list)?;
    // the tables of the windowed multiplication
    let m = P::ScalarField::MODULUS_BIT_SIZE as usize / 3 + 1;
    ensure!(p.tables.len() == m, "tables", "{name}: {} tables instead of {m}", p.tables.len());
    let eight = P::ScalarField::from(8u64);
    let mut offsets = P::ScalarField::zero();
    for (i, t) in p.tables.iter().enumerate() {
        let unit = eight.pow([i as u64]);
        let off = if i + 1 < m { unit * eight } else { -offsets };
        if i + 1 < m {
            offsets += off;
        }
        for j in 0..8u64 {
            let q = (h * (unit * P::ScalarField::from(j) + off)).into_affine();
            ensure!(t.elems == t.elems && t.elems[0][j as usize] == q.x && t.elems[1][j as usize] == q.y, "tables", "{name}: entry {j} of table {i} of {m} is wrong");
        }
    }
    // vector commitments of every generator set
    let mut r = Rng64::new(s.seed("values"));
    for _ in 0..3 {
        let n = 1 + s.choose("length", 6) as usize;
        if n > cap {
            continue;
        }
        let set = s.choose("set", (cap / n) as u64) as usize;
        let v: Vec<P::ScalarField> = (0..n).map(|_| scalar(&mut r)).collect();
        let b: P::ScalarField = nonzero(&mut r);
        let mut q = h * b;
        for (k, x) in v.iter().enumerate() {
            q += g[set * n + k] * *x;
        }
        ensure!(p.commit(&v, b, set) == q.into_affine(), "commit", "{name}: commitment to {n} values in generator set {set} is wrong");
    }
    Ok(())
}

/// Values recorded once and for all.
fn fixed(s: &mut Sim) -> Res {
    fn digest<P: SWCurveConfig + Copy>(p: &SingleLayerParameters<P>) -> u64 {
        let mut b = bytes(&vec![p.pc_gens.B, p.pc_gens.B_blinding, p.delta]);
        b.extend(bytes(&p.bp_gens.share(0).G(4096).copied().collect::<Vec<_>>()));
        for t in &p.tables {
            b.extend(bytes(&t.elems[0].to_vec()));
            b.extend(bytes(&t.elems[1].to_vec()));
        }
        hash_bytes(&b)
    }
    let (pa, se) = (Pasta::params(), Secp::params());
    let got = [digest(&pa.even_parameters), digest(&pa.odd_parameters), digest(&se.even_parameters), digest(&se.odd_parameters)];
    s.nontrivial = true;
    s.note(format!("{got:x?}"));
    for (i, n) in ["pallas", "vesta", "secp256k1", "secq256k1"].iter().enumerate() {
        ensure!(got[i] == FIXED[i], "other-values", "parameters of {n} have digest {:x}, not {:x}", got[i], FIXED[i]);
    }
    // and against the derivation
    let k = s.choose("at", 4096) as usize;
    fn at<P: SWCurveConfig + Copy>(p: &SingleLayerParameters<P>, k: usize) -> bool {
        p.bp_gens.share(0).G(k + 1).last().copied() == chain::<Affine<P>>(b'G', 0, k + 1).last().copied()
    }
    ensure!(at(&pa.even_parameters, k) && at(&pa.odd_parameters, k), "derivation", "generator {k} of the pasta cycle");
    let _: Option<(Ev<Pasta>, Od<Pasta>)> = None;
    Ok(())
}
const FIXED: [u64; 4] = [0xbc5dfbbcdd80a511, 0x4b84a90c3d1100c9, 0xbf25910f6b89ae46, 0xf241ed7696e3ec53];
