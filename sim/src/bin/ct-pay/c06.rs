//! C06: hostile bytes and wrong shapes give errors: no panic, no abort, no memory out of proportion.
use ark_ec::CurveGroup;
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use bulletproofs::r1cs::*;
use bulletproofs::BulletproofGens;
use ctsim::engine::*;
use ctsim::prog::*;
use crate::pay::*;
use ctsim::tree::{leaves, Cyc, EdgeRng, Path, Tree, T127, T61, T90};
use ctsim::treeutil::*;
use ctsim::wire::Parts;
use ctsim::{ensure, on_curve};
use merlin::Transcript;
use simctx::Rng64;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub const CHECK: Check = Check {
    id: "C06",
    level: "fault_enumeration",
    run,
    quick_runs: 16_000,
    thorough_runs: 200_000,
    rule: "one evaluation = one statement and one hostile message in place of its proof (changed, shortened, extended and spliced honest proofs, chosen lengths and counts, chosen list shapes, proofs of other sizes, arbitrary bytes), decoded under a memory meter and an allocator that refuses absurd requests, and verified singly and in a batch next to honest proofs, with enough or too few generators; or hostile bytes decoded as a membership path or a transaction. No panic, no abort, memory in proportion, and nothing but the honest proof accepted. Distinct by digest of all choices",
    real: crate::REAL,
    stubs: crate::STUBS,
    assumptions: &["memory is in proportion if its peak is at most 4 times that of verifying the honest proof plus 1 MB and 2000 bytes per input byte; decoding alone: 64 KB and 64 bytes per input byte"],
};

// ---- memory ------------------------------------------------------------------------------------
/// Counts live bytes, and fails requests that no input of these sizes can justify.
pub struct Meter;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
const ABSURD: usize = 1 << 32;
fn grow(n: usize) {
    let l = LIVE.fetch_add(n, Relaxed) + n;
    PEAK.fetch_max(l, Relaxed);
}
unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > ABSURD {
            return std::ptr::null_mut();
        }
        grow(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > ABSURD {
            return std::ptr::null_mut();
        }
        grow(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > ABSURD {
            return std::ptr::null_mut();
        }
        grow(n);
        LIVE.fetch_sub(l.size(), Relaxed);
        System.realloc(p, l, n)
    }
}
/// Peak of live memory above the start while `f` runs.
fn metered<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let base = LIVE.load(Relaxed);
    PEAK.store(base, Relaxed);
    let t = f();
    (t, PEAK.load(Relaxed).saturating_sub(base))
}

fn run(s: &mut Sim) -> Res {
    if s.choose("what", 24) == 0 {
        return match s.choose("cycle", 3) {
            0 => objects::<T61>(s),
            1 => objects::<T90>(s),
            _ => objects::<T127>(s),
        };
    }
    on_curve!(s, go(s))
}

struct Made<C: Crv> {
    prog: Prog<C::ScalarField>,
    model: Model<C::ScalarField>,
    comms: Vec<C>,
    proof: Vec<u8>,
}
impl<C: Crv> Made<C> {
    fn new(s: &mut Sim, max: u64) -> Res<Self> {
        let g = C::gens();
        let shape = Shape::draw(s, max);
        let prog: Prog<C::ScalarField> = Prog::random(&shape, s.seed("program"));
        let model = Model::of(&prog, &[]);
        let env = Env::plain(s.seed("prover.rng"));
        let out = s.party("prover", &env, || -> Result<_, R1CSError> {
            let mut p = Prover::new(&g.pc, Transcript::new(b"program"));
            let (c, _) = on_prover(&mut p, &prog, &model, &g.bp)?;
            Ok((p.prove(&g.bp)?.to_bytes(), c))
        });
        match out.ok("prover")? {
            Ok((proof, comms)) => Ok(Made { prog, model, comms, proof }),
            Err(e) => violation("prover-error", format!("{e:?}")),
        }
    }
    fn verifier(&self) -> Result<Verifier<Transcript, C>, R1CSError> {
        let mut v = Verifier::new(Transcript::new(b"program"));
        on_verifier(&mut v, &self.prog, &self.model, &self.comms)?;
        Ok(v)
    }
}
const LENGTHS: [u64; 24] = [0, 1, 2, 3, 7, 8, 16, 30, 31, 32, 33, 62, 63, 64, 65, 100, 255, 256, 1 << 16, 1 << 31, 1 << 32, 1 << 48, 1 << 63, u64::MAX];

fn some_point<C: Crv>(r: &mut Rng64) -> C {
    match r.below(5) {
        0 => C::zero(),
        1 => C::gens().pc.B,
        2 => C::gens().pc.B_blinding,
        _ => (C::generator() * nonzero::<C::ScalarField>(r)).into_affine(),
    }
}
/// A hostile message in place of the proof of `m`; `o` is the proof of another statement.
fn hostile<C: Crv>(s: &mut Sim, m: &Made<C>, o: &[u8], r: &mut Rng64) -> (Vec<u8>, String) {
    let honest = &m.proof;
    let n = honest.len();
    let pt = C::generator().serialized_size(ark_serialize::Compress::Yes);
    let sc = C::ScalarField::from(1u64).serialized_size(ark_serialize::Compress::Yes);
    let mut b = honest.clone();
    let kind = s.stratum("hostile", 12);
    let parts = Parts::<C>::parse(honest);
    // where the three lengths are
    let lens = parts.as_ref().map(|p| {
        let t = 3 * pt + 1 + p.two.len() * pt;
        let l = t + 8 + p.t.len() * pt + 3 * sc;
        let r = l + 8 + p.l.len() * pt;
        [t, l, r]
    });
    let what = match (kind, &parts) {
        (0, _) => {
            for _ in 0..1 + r.below(4) {
                let i = r.below(n as u64) as usize;
                b[i] ^= 1 << r.below(8);
            }
            "bits flipped".to_string()
        }
        (1, _) => {
            let k = match r.below(4) {
                0 => r.below(5),
                1 => n as u64 - 1 - r.below(5.min(n as u64)),
                _ => r.below(n as u64),
            };
            b.truncate(k as usize);
            "truncated".into()
        }
        (2, _) => {
            let most = [1, 8, 100, 4000][r.below(4) as usize];
            let k = 1 + r.below(most);
            let f = [0, 255, 1][r.below(3) as usize];
            let at = if r.below(2) == 0 { n } else { r.below(n as u64) as usize };
            for _ in 0..k {
                b.insert(at, if r.below(4) == 0 { r.next() as u8 } else { f });
            }
            "extended".into()
        }
        (3, _) => {
            // the beginning of one and the end of another
            let i = r.below(n as u64 + 1) as usize;
            let j = if r.below(2) == 0 { i.min(o.len()) } else { r.below(o.len() as u64 + 1) as usize };
            b.truncate(i);
            b.extend(&o[j..]);
            "spliced".into()
        }
        (4 | 5, Some(p)) => {
            // a length says something else
            let i = r.below(3) as usize;
            let at = lens.unwrap()[i];
            let own = [p.t.len(), p.l.len(), p.r.len()][i] as u64;
            let v = match r.below(4) {
                0 => own.wrapping_add(1),
                1 => own.wrapping_sub(1),
                _ => LENGTHS[r.below(24) as usize],
            };
            b[at..at + 8].copy_from_slice(&v.to_le_bytes());
            if kind == 5 {
                // and there is plenty to read
                let k = r.below(200) as usize * pt;
                let p = { let mut x = vec![]; some_point::<C>(r).serialize_compressed(&mut x).unwrap(); x };
                let tail = b.split_off(at + 8);
                while b.len() < at + 8 + k {
                    b.extend(&p);
                }
                if r.below(2) == 0 {
                    b.extend(tail);
                }
            }
            format!("length {i} = {v}")
        }
        (6 | 7, Some(p)) => {
            // decodes, but has the wrong shape
            let mut p = p.clone();
            let k = |r: &mut Rng64, own: usize| -> usize {
                match r.below(5) {
                    0 => own,
                    1 => own + 1 + r.below(3) as usize,
                    2 => own.saturating_sub(1 + r.below(2) as usize),
                    _ => LENGTHS[r.below(17) as usize] as usize,
                }
            };
            let (kt, kl, kr) = (k(r, p.t.len()), k(r, p.l.len()), k(r, p.r.len()));
            let same = r.below(2) == 0;
            let fill = some_point::<C>(r);
            if kind == 6 || r.below(3) == 0 {
                p.l.resize(kl, fill);
                p.r.resize(if same { kl } else { kr }, fill);
            }
            if kind == 7 {
                p.t.resize(kt, fill);
                if r.below(3) == 0 {
                    p.flag = 1;
                    p.two = (0..3).map(|_| some_point::<C>(r)).collect();
                }
            }
            b = p.bytes();
            format!("shape t {} l {} r {} two {}", p.t.len(), p.l.len(), p.r.len(), p.two.len())
        }
        (8, _) => {
            b = o.to_vec();
            "proof of another statement".into()
        }
        (9, _) => {
            let most = [4, 40, 400, 4000][r.below(4) as usize];
            b = (0..r.below(most)).map(|_| r.next() as u8).collect();
            "arbitrary bytes".into()
        }
        (10, Some(p)) => {
            // all points or scalars special
            let mut p = p.clone();
            let z = r.below(4);
            let only = r.below(3);
            for (_, x) in p.points() {
                if only != 1 {
                    *x = if z == 0 { C::zero() } else { some_point(r) };
                }
            }
            for (_, x) in p.scalars() {
                if only != 0 {
                    *x = scalar(r);
                }
            }
            b = p.bytes();
            "special elements".into()
        }
        _ => {
            // one field of a point's or scalar's width overwritten
            let w = if r.below(2) == 0 { pt } else { sc };
            let at = (r.below((n / w) as u64) as usize * w + if r.below(2) == 0 { 3 * pt + 1 } else { 0 }) % n;
            let f = [0u8, 255, 127, 64, 128, 1][r.below(6) as usize];
            for x in b.iter_mut().skip(at).take(w) {
                *x = f;
            }
            "field overwritten".into()
        }
    };
    (b, format!("{kind} {what}"))
}

fn go<C: Crv>(s: &mut Sim) -> Res {
    let slow = !C::NAME.starts_with('t');
    let max = if slow { 6 } else { 24 };
    let m = Made::<C>::new(s, max)?;
    // another statement's proof: of another size, or of the same
    let small = s.choose("small other", 2) == 0;
    let o = Made::<C>::new(s, if small { 3 } else { max })?;
    let g = C::gens();
    let seed = s.seed("hostile");
    let mut r = Rng64::new(seed);
    let (msg, what) = hostile(s, &m, &o.proof, &mut r);
    s.note(format!("{}: {} bytes, {what}", C::NAME, msg.len()));
    if msg == m.proof {
        return Err(Stop::Skip("message unchanged"));
    }
    s.fault(&format!("hostile message: {}", what.split(' ').nth(1).unwrap_or("")));
    // what honest work costs
    let env = Env::plain(s.seed("verifier.rng"));
    let honest = s.party("verifier", &env, || {
        metered(|| -> Result<(), R1CSError> {
            let p = R1CSProof::<C>::from_bytes(&m.proof)?;
            m.verifier()?.verify(&p, &g.pc, &g.bp)
        })
    });
    let (ok, cost) = honest.ok("verifier")?;
    ensure!(ok.is_ok(), "honest-refused", "{ok:?}");
    s.link("hostile", &msg);
    // decode
    let env = Env::plain(s.seed("verifier.rng"));
    let out = s.party("verifier", &env, || metered(|| R1CSProof::<C>::from_bytes(&msg)));
    let (dec, used) = match out.res {
        Ok(x) => x,
        Err(e) => return violation("panic", format!("decoding {} bytes panics ({what}, {}): {e}", msg.len(), C::NAME)),
    };
    ensure!(used <= 64 * msg.len() + (64 << 10), "memory", "decoding {} bytes takes {used} bytes of memory ({what})", msg.len());
    s.nontrivial = true;
    s.state(hash_str(&format!("{} {what} {}", C::NAME, dec.is_ok())));
    let Ok(p) = dec else {
        s.count("messages refused by the decoder");
        return Ok(());
    };
    s.count("messages decoded");
    let same = p.to_bytes() == m.proof;
    // verify
    let few = s.choose("generators", 8) == 7;
    let own;
    let bp = if few {
        own = BulletproofGens::<C>::new(m.model.circ.size().next_power_of_two() / 2, 1);
        &own
    } else {
        &g.bp
    };
    for mode in ["alone", "in a batch"] {
        let pos = s.choose("position", 3);
        let env = s.env("verifier");
        let out = s.party("verifier", &env, || {
            metered(|| -> Result<(), R1CSError> {
                if mode == "alone" {
                    return m.verifier()?.verify(&p, &g.pc, bp);
                }
                let q = R1CSProof::<C>::from_bytes(&o.proof)?;
                let h = R1CSProof::<C>::from_bytes(&m.proof)?;
                let mut ts = vec![];
                for k in 0..3 {
                    ts.push(if k == pos {
                        m.verifier()?.verification_scalars_and_points(&p)?
                    } else if k == (pos + 1) % 3 {
                        o.verifier()?.verification_scalars_and_points(&q)?
                    } else {
                        m.verifier()?.verification_scalars_and_points(&h)?
                    });
                }
                batch_verify(ts, &g.pc, bp)
            })
        });
        let (res, used) = match out.res {
            Ok(x) => x,
            Err(e) => return violation("panic", format!("verifying {mode} panics ({what}, {}): {e}", C::NAME)),
        };
        let limit = 4 * cost * if mode == "alone" { 1 } else { 4 } + (1 << 20) + 2000 * msg.len() + if mode == "alone" { 0 } else { 2000 * o.proof.len() };
        ensure!(used <= limit, "memory", "verifying {} bytes {mode} takes {used} bytes of memory, the honest proof {cost} ({what})", msg.len());
        if few {
            // generators for half the circuit, which may be none at all
            ensure!(res.is_err() || m.model.circ.size() <= bp.gens_capacity, "too-few-generators", "accepted {mode} with {} generators", bp.gens_capacity);
            continue;
        }
        ensure!(res.is_ok() == same, if same { "refused" } else { "accepted" }, "a message that is {}the honest proof is {} {mode} ({what}, {}): {res:?}", if same { "" } else { "not " }, if res.is_ok() { "accepted" } else { "refused" }, C::NAME);
        s.count(if same { "other bytes of the same proof" } else { "messages refused by the verifier" });
    }
    Ok(())
}

/// Hostile bytes decoded as a membership path or a transaction.
fn objects<Y: Cyc>(s: &mut Sim) -> Res {
    const L: usize = 2;
    let prm = Y::params();
    let height = 1 + s.choose("height", 4) as usize;
    let n = 1 + s.choose("leaves", 1 << height) as usize;
    let set = leaves::<Y>(n, s.seed("leaves"));
    let tree = Tree::<Y, L, 1>::from_set(&set, prm, Some(height));
    let env = Env::plain(s.seed("prover.rng"));
    let payment = Y::NAME != "t61" && s.choose("object", 2) == 1;
    let seed = s.seed("coins");
    let made = s.party("prover", &env, || -> Vec<u8> {
        if payment {
            let sp = sig_params::<GroupOf<Y>>(7);
            let k = keys::<GroupOf<Y>>(&sp, 11);
            let mut g = Seeded::new(seed);
            let c: [Owned<Y, GroupOf<Y>>; 2] = [Owned::new(3, &k, 0, &sp, prm, &mut g), Owned::new(4, &k, 0, &sp, prm, &mut g)];
            let t = Tree::<Y, L, 1>::from_set(&[c[0].commitment, c[1].commitment], prm, Some(1));
            return pour::<Y, GroupOf<Y>, L>(&t, [&c[0].spend(0, &k, &sp), &c[1].spend(1, &k, &sp)], [2, 5], [k.pk; 2], &sp, prm, &mut g);
        }
        let mut b = vec![];
        let (_, _, p, _) = prove::<Y, L, 1>(&tree, &[0], b"wire", &mut EdgeRng::new(), prm).unwrap();
        p[0].serialize_compressed(&mut b).unwrap();
        b
    });
    let honest = made.ok("prover")?;
    let name = if payment { "transaction" } else { "path" };
    let mut r = Rng64::new(s.seed("hostile"));
    let mut b = honest.clone();
    let kind = s.choose("hostile", 5);
    match kind {
        0 => {
            for _ in 0..1 + r.below(4) {
                let i = r.below(b.len() as u64) as usize;
                b[i] ^= 1 << r.below(8);
            }
        }
        1 => b.truncate(r.below(honest.len() as u64) as usize),
        2 => {
            // lengths are eight bytes anywhere
            let i = r.below(b.len() as u64 - 7) as usize;
            let i = if r.below(2) == 0 { 0 } else { i };
            b[i..i + 8].copy_from_slice(&LENGTHS[r.below(24) as usize].to_le_bytes());
        }
        3 => b = (0..r.below(400)).map(|_| r.next() as u8).collect(),
        _ => {
            let k = r.below(b.len() as u64) as usize;
            let t = b[k..].to_vec();
            b.extend(t);
        }
    }
    s.note(format!("{}: {name} of {} bytes, hostile {kind}", Y::NAME, b.len()));
    s.fault(&format!("hostile {name}"));
    s.nontrivial = true;
    s.state(hash_str(&format!("{name} {} {height} {kind}", Y::NAME)));
    let env = Env::plain(s.seed("verifier.rng"));
    let out = s.party("verifier", &env, || {
        metered(|| {
            if payment {
                return parse_tx::<Y, GroupOf<Y>>(&b).is_ok_and(|t| pour_of::<Y, GroupOf<Y>, L>(&t).is_ok());
            }
            Path::<Y, L>::deserialize_compressed(&b[..]).is_ok()
        })
    });
    match out.res {
        Ok((ok, used)) => {
            ensure!(used <= 64 * b.len() + (64 << 10), "memory", "decoding a {name} of {} bytes takes {used} bytes of memory", b.len());
            s.count(if ok { "objects decoded" } else { "objects refused" });
            Ok(())
        }
        Err(e) => violation("panic", format!("decoding a {name} of {} bytes panics: {e}", b.len())),
    }
}
