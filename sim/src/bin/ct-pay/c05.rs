//! C05: proofs, paths and transactions survive the wire exactly and have one encoding.
use crate::pay::*;
use ark_ec::AffineRepr;
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, Compress, Read, SerializationError, Validate, Write};
use bulletproofs::r1cs::*;
use ctsim::engine::*;
use ctsim::prog::{on_prover, on_verifier, Crv, Model, Prog, Shape};
use ctsim::tree::{fits, leaves, slow, Cyc, EdgeRng, Ev, Od, TShape, Tree, T127, T61, T90};
use ctsim::treeutil::*;
use ctsim::{ensure, on_batch_tree, on_curve, on_tree};
use merlin::Transcript;
use simctx::Rng64;
use std::io;

pub const CHECK: Check = Check {
    id: "C05",
    level: "fault_enumeration",
    run,
    quick_runs: 3000,
    thorough_runs: 150_000,
    rule: "one evaluation = the objects of one exchange (constraint-system proof with one or two phases, membership path with its proofs, batched path, transaction) written to and read from streams with short transfers, interruptions, errors and ends at chosen places, in both modes and with and without validation, and then decoded from changed, shortened, extended and spliced bytes; distinct by digest of all choices",
    real: crate::REAL,
    stubs: crate::STUBS,
    assumptions: &["the compressed encoding is the wire format (the curve library's uncompressed points carry a redundant sign bit)", "bits the curve library leaves unused (in a neutral element, and beside the sign where it has a byte of its own) are ignored"],
};
type Dec = Box<dyn Fn(&mut dyn Read, Compress, Validate) -> Result<(Vec<u8>, Vec<u8>), SerializationError>>;
struct Obj {
    name: &'static str,
    /// compressed and uncompressed encoding, and their announced sizes
    enc: [Vec<u8>; 2],
    size: [usize; 2],
    write: Box<dyn Fn(&mut dyn Write, Compress) -> Result<(), SerializationError>>,
    /// what is read, encoded again
    read: Option<Dec>,
    /// the type's own conversion from a complete message
    whole: Option<Box<dyn Fn(&[u8]) -> Option<Vec<u8>>>>,
    /// encodings of neutral elements inside
    neutral: Vec<Vec<u8>>,
    /// some point's sign has a byte of its own
    own_byte: bool,
    accepted: Option<Box<dyn Fn(&[u8]) -> bool>>,
}
fn enc<T: CanonicalSerialize + ?Sized>(x: &T, c: Compress) -> Vec<u8> {
    let mut b = vec![];
    x.serialize_with_mode(&mut b, c).expect("serialization into memory");
    b
}
fn writer<T: CanonicalSerialize + 'static>(name: &'static str, x: T) -> Obj {
    let e = [enc(&x, Compress::Yes), enc(&x, Compress::No)];
    let size = [x.compressed_size(), x.uncompressed_size()];
    Obj { name, enc: e, size, write: Box::new(move |w, c| x.serialize_with_mode(w, c)), read: None, whole: None, neutral: vec![], own_byte: false, accepted: None }
}
fn object<T: CanonicalSerialize + CanonicalDeserialize + 'static>(name: &'static str, x: T) -> Obj {
    let mut o = writer(name, x);
    o.read = Some(Box::new(|r, c, v| {
        let x = T::deserialize_with_mode(r, c, v)?;
        Ok((enc(&x, Compress::Yes), enc(&x, Compress::No)))
    }));
    o
}
fn own_byte<C: AffineRepr>() -> bool {
    let bits = <<C::BaseField as ark_ff::Field>::BasePrimeField as ark_ff::PrimeField>::MODULUS_BIT_SIZE;
    (bits + 2).div_ceil(8) > bits.div_ceil(8)
}
fn neutral<C: AffineRepr>() -> Vec<u8> {
    enc(&C::zero(), Compress::Yes)
}
fn proof<C: AffineRepr>(name: &'static str, p: R1CSProof<C>) -> Obj {
    let b = p.to_bytes();
    let mut o = object(name, p);
    o.neutral = vec![neutral::<C>()];
    o.own_byte = own_byte::<C>();
    o.whole = Some(Box::new(|b| R1CSProof::<C>::from_bytes(b).ok().map(|p| p.to_bytes())));
    if b != o.enc[0] {
        // shows as a difference below
        o.enc[0] = b;
    }
    o
}

// ---- streams -----------------------------------------------------------------------------------
/// A stream with faults; everything it does comes from its seed.
struct Faulty<'a> {
    data: &'a [u8],
    out: Vec<u8>,
    pos: usize,
    /// where it ends or fails
    stop: usize,
    fails: bool,
    short: u64,
    interrupt: u64,
    r: Rng64,
    hits: u64,
}
impl<'a> Faulty<'a> {
    fn new(data: &'a [u8], stop: usize, fails: bool, seed: u64) -> Self {
        let mut r = Rng64::new(seed);
        let short = [0, 300, 1000][r.below(3) as usize];
        let interrupt = [0, 200, 600][r.below(3) as usize];
        Faulty { data, out: vec![], pos: 0, stop, fails, short, interrupt, r, hits: 0 }
    }
    fn step(&mut self, n: usize) -> io::Result<usize> {
        if n > 0 && self.r.below(1000) < self.interrupt {
            self.hits += 1;
            return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
        }
        let left = self.stop.saturating_sub(self.pos);
        if left == 0 && n > 0 {
            return if self.fails { Err(io::Error::new(io::ErrorKind::Other, "device error")) } else { Ok(0) };
        }
        let mut k = n.min(left);
        if k > 1 && self.r.below(1000) < self.short {
            self.hits += 1;
            k = 1 + self.r.below(k as u64 - 1) as usize;
        }
        Ok(k)
    }
}
impl Read for Faulty<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let k = self.step(b.len())?;
        b[..k].copy_from_slice(&self.data[self.pos..self.pos + k]);
        self.pos += k;
        Ok(k)
    }
}
impl Write for Faulty<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let k = self.step(b.len())?;
        self.out.extend(&b[..k]);
        self.pos += k;
        Ok(k)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn run(s: &mut Sim) -> Res {
    match s.stratum("scenario", 12) {
        0..=6 => on_curve!(s, proofs(s)),
        7..=9 => on_tree!(s, paths(s)),
        10 => on_batch_tree!(s, multi(s)),
        _ => match s.choose("cycle", 8) {
            0..=5 => payment::<T90, GroupOf<T90>, 2>(s),
            6 => payment::<T127, GroupOf<T61>, 3>(s),
            _ => payment::<T90, GroupOf<T127>, 2>(s),
        },
    }
}
fn proofs<C: Crv>(s: &mut Sim) -> Res {
    let shape = Shape::draw(s, if C::NAME.starts_with('t') { 30 } else { 8 });
    let prog: Prog<C::ScalarField> = Prog::random(&shape, s.seed("program"));
    let model = Model::of(&prog, &[]);
    let g = C::gens();
    let env = s.env("prover");
    let made = s
        .party("prover", &env, || -> Result<_, R1CSError> {
            let mut p = Prover::new(&g.pc, Transcript::new(b"program"));
            let (c, _) = on_prover(&mut p, &prog, &model, &g.bp)?;
            Ok((p.prove(&g.bp)?, c))
        })
        .ok("prover")?;
    let (p, comms) = match made {
        Ok(x) => x,
        Err(e) => return violation("prover-error", format!("{e:?}")),
    };
    s.note(format!("{} {shape:?}", C::NAME));
    s.state(hash_str(&format!("{} {} {}", C::NAME, p.to_bytes().len(), shape.rand.len())));
    let mut o = proof("proof", p);
    o.accepted = Some(Box::new(move |b| {
        let Ok(p) = R1CSProof::<C>::from_bytes(b) else { return false };
        let mut v = Verifier::new(Transcript::new(b"program"));
        on_verifier(&mut v, &prog, &model, &comms).is_ok() && v.verify(&p, &g.pc, &g.bp).is_ok()
    }));
    examine(s, &o)
}
fn paths<Y: Cyc, const L: usize, const M: usize>(s: &mut Sim) -> Res {
    let prm = Y::params();
    let max = if slow::<Y>() { 1 } else { [4, 3, 2, 2][L.min(5) - 2] };
    let sh = TShape::draw(s, L, max, 40);
    let set = leaves::<Y>(sh.n, sh.seed);
    let tree = Tree::<Y, L, M>::from_set(&set, prm, sh.extra);
    let idx = [s.choose("leaf", sh.n as u64) as usize];
    let env = s.env("prover");
    let mut er = EdgeRng::new();
    let (pe, po, p, _) = match s.party("prover", &env, || prove::<Y, L, M>(&tree, &idx, b"wire", &mut er, prm)).ok("prover")? {
        Ok(x) => x,
        Err(e) => return violation("prover-error", format!("{e:?}")),
    };
    s.note(format!("{} L={L} height {}", Y::NAME, sh.height));
    s.state(hash_str(&format!("path {} {L} {}", Y::NAME, sh.height)));
    let mut o = object("path", p[0].clone());
    o.neutral = vec![neutral::<Ev<Y>>(), neutral::<Od<Y>>()];
    o.own_byte = own_byte::<Ev<Y>>() || own_byte::<Od<Y>>();
    let (a, b) = (pe.clone(), po.clone());
    o.accepted = Some(Box::new(move |x| match CanonicalDeserialize::deserialize_compressed(x) {
        Ok(p) => verify::<Y, L, M>(&tree, &[p], &a, &b, b"wire", false, prm).is_ok(),
        Err(_) => false,
    }));
    examine(s, &o)?;
    match s.choose("proof", 3) {
        0 => examine(s, &proof("even proof", pe)),
        1 => examine(s, &proof("odd proof", po)),
        _ => Ok(()),
    }
}
fn multi<Y: Cyc, const L: usize, const M: usize>(s: &mut Sim) -> Res {
    let prm = Y::params();
    let max = if slow::<Y>() { 1 } else { [3, 2, 1][L.min(4) - 2] };
    let sh = TShape::draw(s, L, max, 40);
    if sh.n < M {
        return Err(Stop::Skip("fewer leaves than members"));
    }
    let set = leaves::<Y>(sh.n, sh.seed);
    let tree = Tree::<Y, L, M>::from_set(&set, prm, sh.extra);
    let idx: [usize; M] = std::array::from_fn(|i| i);
    let env = s.env("prover");
    let mut er = EdgeRng::new();
    let (pe, _, p, _) = match s.party("prover", &env, || mprove::<Y, L, M>(&tree, &[idx], b"wire", &mut er, prm)).ok("prover")? {
        Ok(x) => x,
        Err(e) => return violation("prover-error", format!("{e:?}")),
    };
    let p = p[0].clone();
    // batched paths can only be written: their parts have to be there, once each
    let o = writer("batched path", p.clone());
    let parts = p.selected_commitments.compressed_size() + p.odd_commitments.compressed_size() + p.even_commitments.compressed_size();
    ensure!(o.enc[0].len() == parts, "size", "batched path of {M} members and {} levels has {} bytes instead of {parts}", sh.height, o.enc[0].len());
    let part = |b: Vec<u8>| o.enc[0].windows(b.len()).any(|w| w == b);
    ensure!(part(enc(&p.odd_commitments, Compress::Yes)) && part(enc(&p.even_commitments, Compress::Yes)), "missing", "the batched path's encoding lacks a level");
    for (i, c) in p.selected_commitments.iter().enumerate() {
        ensure!(part(enc(c, Compress::Yes)), "missing", "the batched path's encoding lacks member {i}");
    }
    examine(s, &o)?;
    examine(s, &proof("even proof", pe))
}
fn payment<Y: Cyc, G: Group, const L: usize>(s: &mut Sim) -> Res {
    let prm = Y::params();
    let sp = sig_params::<G>(7);
    let k = keys::<G>(&sp, s.seed("key"));
    let mut g = Seeded::new(s.seed("coins"));
    let (v, w) = (amount(s) >> 1, amount(s) >> 1);
    let coins: [Owned<Y, G>; 2] = [Owned::new(v, &k, 0, &sp, prm, &mut g), Owned::new(w, &k, 0, &sp, prm, &mut g)];
    let h = 1 + s.choose("height", if fits::<Y>(L, 1, 2) >= 2 { 2 } else { 1 }) as usize;
    let mut set = leaves::<Y>(2, s.seed("leaves"));
    set[0] = coins[0].commitment;
    set[1] = coins[1].commitment;
    let tree = Tree::<Y, L, 1>::from_set(&set, prm, Some(h));
    let env = s.env("payer");
    let x = split(s, v, w);
    let b = s
        .party("payer", &env, || pour::<Y, G, L>(&tree, [&coins[0].spend(0, &k, &sp), &coins[1].spend(1, &k, &sp)], x, [k.pk; 2], &sp, prm, &mut g))
        .ok("payer")?;
    let tx = match parse_tx::<Y, G>(&b) {
        Ok(t) => t,
        Err(e) => return violation("decode", format!("honest transaction does not decode: {e}")),
    };
    let p = match pour_of::<Y, G, L>(&tx) {
        Ok(t) => t,
        Err(e) => return violation("decode", format!("honest payment does not decode: {e}")),
    };
    s.state(hash_str(&format!("payment {} {L} {h}", Y::NAME)));
    let mut o = object("payment", p);
    o.neutral = vec![neutral::<Ev<Y>>(), neutral::<Od<Y>>(), neutral::<Pk<G>>()];
    o.own_byte = own_byte::<Ev<Y>>() || own_byte::<Od<Y>>() || own_byte::<Pk<G>>();
    ensure!(o.enc[0] == tx.pour_bytes, "differs", "the payment read from a transaction is encoded differently");
    examine(s, &o)?;
    let (n, own) = (o.neutral, o.own_byte);
    let mut o = object("transaction", tx);
    ensure!(o.enc[0] == b, "differs", "a transaction read is encoded differently");
    // the payment inside is kept as bytes
    o.neutral = n;
    o.own_byte = own;
    if s.choose("verified", 4) == 0 {
        let accepted = check_pours::<Y, G, L>(&[(&tree, &b)], POUR, &sp, prm).is_ok();
        ensure!(accepted, "rejected", "honest transaction rejected");
    }
    examine(s, &o)
}

const MODES: [Compress; 2] = [Compress::Yes, Compress::No];
fn examine(s: &mut Sim, o: &Obj) -> Res {
    let name = o.name;
    s.nontrivial = true;
    s.note(format!("{name}: {} and {} bytes, digest {:016x}", o.enc[0].len(), o.enc[1].len(), hash_bytes(&o.enc[0])));
    for m in 0..2 {
        let e = &o.enc[m];
        ensure!(o.size[m] == e.len(), "size", "{name}: announced {} bytes, written {}", o.size[m], e.len());
        // writing
        for k in 0..4 {
            let seed = s.seed("stream");
            let stop = if k == 0 { usize::MAX } else { s.choose("stop", e.len() as u64) as usize };
            let fails = s.choose("fails", 2) == 1;
            let mut w = Faulty::new(&[], stop, fails, seed);
            let r = (o.write)(&mut w, MODES[m]);
            s.add("fault:short or interrupted transfer", w.hits);
            if k == 0 {
                ensure!(r.is_ok() && w.out == *e, "write", "{name}: written through a slow stream: {r:?}, {} of {} bytes agree", w.out.iter().zip(e).take_while(|(a, b)| a == b).count(), e.len());
            } else {
                s.fault(if fails { "write error" } else { "full device" });
                ensure!(r.is_err(), "write-error-lost", "{name}: the stream fails after {stop} of {} bytes and writing reports success", e.len());
                ensure!(w.out.len() <= stop && w.out[..] == e[..w.out.len()], "write", "{name}: other bytes before the failure");
            }
        }
        // reading
        let Some(read) = &o.read else { continue };
        for v in [Validate::Yes, Validate::No] {
            let seed = s.seed("stream");
            // another message follows
            let mut long = e.clone();
            long.extend(e.iter().rev());
            let mut f = Faulty::new(&long, long.len(), false, seed);
            let r = read(&mut f, MODES[m], v);
            s.add("fault:short or interrupted transfer", f.hits);
            match r {
                Err(x) => return violation("read", format!("{name}: honest bytes do not decode ({x:?})")),
                Ok((a, b)) => {
                    ensure!(f.pos == e.len(), "read-size", "{name}: {} bytes of {} taken from the stream", f.pos, e.len());
                    ensure!(a == o.enc[0] && b == o.enc[1], "differs", "{name}: encoding what was decoded gives other bytes");
                }
            }
            for _ in 0..4 {
                let seed = s.seed("stream");
                let stop = if s.choose("near the end", 4) == 1 { e.len() - 1 } else { s.choose("stop", e.len() as u64) as usize };
                let fails = s.choose("fails", 2) == 1;
                let mut f = Faulty::new(e, stop, fails, seed);
                let r = read(&mut f, MODES[m], v);
                s.fault(if fails { "read error" } else { "stream ends early" });
                ensure!(r.is_err(), "partial-object", "{name}: the stream ends after {stop} of {} bytes and an object comes out", e.len());
            }
        }
    }
    // the wire format
    let e = &o.enc[0];
    if let Some(w) = &o.whole {
        ensure!(w(e).as_ref() == Some(e), "differs", "{name}: decoding and encoding a message gives other bytes");
    }
    if let Some(a) = &o.accepted {
        ensure!(a(e), "rejected", "{name}: rejected after travelling over the wire");
    }
    let Some(read) = &o.read else { return Ok(()) };
    let mut r = Rng64::new(s.seed("changes"));
    let tries = 24 + s.choose("tries", 40);
    for _ in 0..tries {
        let mut b = e.clone();
        let n = b.len();
        let i = r.below(n as u64) as usize;
        let what = match r.below(12) {
            0 | 1 => {
                b[i] ^= 1 << r.below(8);
                "bit"
            }
            2 => {
                b[i] = r.next() as u8;
                "byte"
            }
            3 => {
                b[i] = [0, 0xff, 0x40, 0x80, 0xc0, 1, 2][r.below(7) as usize];
                "special byte"
            }
            4 => {
                b.remove(i);
                "byte lost"
            }
            5 => {
                b.insert(i, b[r.below(n as u64) as usize]);
                "byte inserted"
            }
            6 => {
                b.truncate(i);
                "truncated"
            }
            7 => {
                b.extend((0..1 + r.below(40)).map(|_| r.next() as u8).collect::<Vec<_>>());
                "extended"
            }
            8 => {
                // two pieces exchanged, in units a point or scalar may have
                let u = [8, 16, 32, 9, 33][r.below(5) as usize];
                if n > 2 * u {
                    let a = r.below((n - 2 * u) as u64) as usize;
                    let (x, y) = b[a..a + 2 * u].split_at_mut(u);
                    x.swap_with_slice(y);
                }
                "pieces exchanged"
            }
            9 | 10 if !o.neutral.is_empty() => {
                // some neighbouring elements become neutral
                let z = &o.neutral[r.below(o.neutral.len() as u64) as usize];
                let k = z.len();
                let at = r.below(9) as usize * k + r.below(2) as usize;
                for j in 0..1 + r.below(3) as usize {
                    if at + (j + 1) * k <= n {
                        b[at + j * k..at + (j + 1) * k].copy_from_slice(z);
                    }
                }
                "neutral element"
            }
            _ => {
                // a count of elements
                if let Some(a) = (0..n.saturating_sub(8)).filter(|a| b[*a + 1..*a + 8] == [0; 7]).nth(r.below(3) as usize) {
                    b[a] = b[a].wrapping_add([1, 255, 2, 254, 128][r.below(5) as usize]);
                }
                "count"
            }
        };
        if b == *e {
            continue;
        }
        s.fault(what);
        if let Some(w) = &o.whole {
            if let Some(c) = w(&b) {
                same(s, o, &b, &c, what)?;
                s.count("changed bytes decoded");
            } else {
                s.count("changed bytes refused");
            }
        }
        let mut rest: &[u8] = &b;
        if let Ok((c, _)) = read(&mut rest, Compress::Yes, Validate::Yes) {
            let used = b.len() - rest.len();
            same(s, o, &b[..used], &c, what)?;
        }
    }
    Ok(())
}
/// What decodes has these bytes as its only encoding.
fn same(s: &mut Sim, o: &Obj, b: &[u8], c: &[u8], what: &str) -> Res {
    if b == c {
        return Ok(());
    }
    ensure!(b.len() == c.len(), "two-encodings", "{} ({what}): {} bytes decode to an object whose encoding has {} bytes", o.name, b.len(), c.len());
    for i in 0..b.len() {
        if b[i] != c[i] {
            let inside = o.neutral.iter().any(|z| {
                let k = z.len();
                (i.saturating_sub(k - 1)..=i).any(|a| a + k <= c.len() && c[a..a + k] == z[..])
            });
            // a sign byte of its own has six more bits
            let beside = o.own_byte && (b[i] ^ c[i]) & 0xc0 == 0 && c[i] & 0x3f == 0;
            ensure!(inside || beside, "two-encodings", "{} ({what}): byte {i} of {} is {:#x} in the message and {:#x} when encoded again", o.name, b.len(), b[i], c[i]);
        }
    }
    s.count("unused bits of neutral elements");
    Ok(())
}
