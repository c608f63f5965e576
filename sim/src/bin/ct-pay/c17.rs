//! C17: payments conserve value, spend only existing coins, and need the keys.
use crate::pay::*;
use ark_crypto_primitives::signature::schnorr::Signature;
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{BigInteger, Field, PrimeField, UniformRand};
use ark_serialize::CanonicalSerialize;
use bulletproofs::r1cs::*;
use ctsim::byzpath::*;
use ctsim::engine::*;
use ctsim::ensure;
use ctsim::tree::*;
use merlin::Transcript;
use relations::range_proof::range_proof;

pub const CHECK: Check = Check {
    id: "C17",
    level: "fault_enumeration",
    run,
    quick_runs: 460,
    thorough_runs: 40_000,
    rule: "one evaluation = a ledger's tree with coins of several owners and one attempt on it: a dishonest payer (amounts that do not add up or leave the range, coins of another tree or of somebody else, a key that is not the coin's, openings changed after the fact, with the library's prover or with an own one that leaves constraints out), a thief without the keys (missing, foreign, exchanged or replayed signatures), a network that mixes, changes or cuts messages, a ledger of another tree or domain, dishonest mints; or a double spend; distinct by digest of all choices",
    real: crate::REAL,
    stubs: crate::STUBS,
    assumptions: &["a verifier that panics has refused", "the ledger refuses a key it has seen, also twice in one transaction"],
};
fn run(s: &mut Sim) -> Res {
    match s.choose("configuration", 200) {
        0..=69 => go::<T90, GroupOf<T90>, 3>(s),
        70..=129 => go::<T90, GroupOf<T61>, 2>(s),
        130..=169 => go::<T90, GroupOf<T127>, 4>(s),
        170..=197 => go::<T127, GroupOf<T127>, 3>(s),
        _ => go::<Pasta, ark_pallas::Projective, 4>(s),
    }
}
/// How an own prover states that an amount is in range.
#[derive(Clone, Copy, Debug)]
enum Range {
    Honest,
    None,
    Bits(usize),
    /// one of the 64 digits takes whatever is missing: all gates hold, none of them for this
    /// digit, or all but its complement
    Digit(usize, u8),
}
struct Out<Y: Cyc> {
    value: Y::F0,
    tag: Y::F0,
    blinding: Y::F0,
    more: Vec<Y::F0>,
    range: Range,
}
struct In<Y: Cyc, G: Group> {
    levels: Levels<Y>,
    /// what the commitment is opened to in the proof
    open: Vec<Y::F0>,
    blinding: Y::F0,
    key: Pk<G>,
    /// state that the opened tag is this
    tag: Option<Y::F0>,
    /// openings exchanged for these once committed to
    after: Option<Vec<Y::F0>>,
}
fn digit(r: &mut simctx::Rng64) -> Range {
    let k = match r.below(4) {
        0 => r.below(64) as usize,
        1 => 63,
        2 => 0,
        _ => 32,
    };
    Range::Digit(k, r.below(3) as u8)
}
fn in_range<Y: Cyc>(p: &mut EvProver<Y>, var: Variable<Y::F0>, value: Y::F0, r: Range) {
    let n = match r {
        Range::None => return,
        Range::Honest | Range::Digit(..) => 64,
        Range::Bits(n) => n,
    };
    let low = value.into_bigint().as_ref()[0];
    let _ = range_proof(p, var.into(), Some(low), n);
    #[cfg(curve_trees_sim)]
    {
        let w = p.sim_witness();
        let base = w.a_l.len() - n;
        let bits = value.into_bigint().to_bits_le();
        for i in 0..n {
            let b = if bits.get(i).copied().unwrap_or(false) { Y::F0::ONE } else { Y::F0::ZERO };
            // the bit is the one of the two factors in which the library puts it
            if i < 64 {
                continue;
            }
            w.a_l[base + i] = Y::F0::ONE - b;
            w.a_r[base + i] = b;
            w.a_o[base + i] = Y::F0::ZERO;
        }
        if let Range::Digit(k, how) = r {
            let mut d = value;
            for i in 0..64 {
                if i != k && bits[i] {
                    d -= Y::F0::from(1u64 << i);
                }
            }
            d *= Y::F0::from(1u64 << k).inverse().unwrap();
            let (a, o) = match how {
                0 => (Y::F0::ONE - d, (Y::F0::ONE - d) * d),
                1 => (Y::F0::ONE - d, Y::F0::ZERO),
                _ => (Y::F0::ZERO, Y::F0::ZERO),
            };
            w.a_l[base + k] = a;
            w.a_r[base + k] = d;
            w.a_o[base + k] = o;
        }
    }
}
/// An own prover of payments.
fn forge_pour<Y: Cyc, G: Group, const L: usize>(ins: [&In<Y, G>; 2], outs: [&Out<Y>; 2], balance: bool, prm: &Prm<Y>) -> Result<PourOf<Y, G, L>, R1CSError> {
    let mut ep: EvProver<Y> = Prover::new(&prm.even_parameters.pc_gens, Transcript::new(POUR));
    let mut op: OdProver<Y> = Prover::new(&prm.odd_parameters.pc_gens, Transcript::new(POUR));
    let mut sum: LinearCombination<Y::F0> = LinearCombination::default();
    let mut minted = vec![];
    for o in outs {
        let mut v = vec![o.value, o.tag];
        v.extend(&o.more);
        let (c, vars) = ep.commit_vec(&v, o.blinding, &prm.even_parameters.bp_gens);
        in_range::<Y>(&mut ep, vars[0], o.value, o.range);
        minted.push(c);
        sum = sum + vars[0];
    }
    let mut changed = vec![];
    for i in ins {
        i.levels.apply::<1>(&mut ep, &mut op, prm, &prm.even_parameters, &prm.odd_parameters);
        let r = i.levels.odd.last().unwrap().r[0];
        let (_, vars) = ep.commit_vec(&i.open, i.blinding + r, &prm.even_parameters.bp_gens);
        #[cfg(curve_trees_sim)]
        if let Some(a) = &i.after {
            let w = ep.sim_witness();
            changed.push((w.vec_open.len() - 1, a.clone()));
        }
        if let Some(t) = i.tag {
            ep.constrain(vars[1] - t);
        }
        sum = sum - vars[0];
    }
    if balance {
        ep.constrain(sum);
    }
    #[cfg(curve_trees_sim)]
    for (k, a) in &changed {
        ep.sim_witness().vec_open[*k].1 = a.clone();
    }
    let _: &Vec<(usize, Vec<Y::F0>)> = &changed;
    Ok(Pour {
        even_proof: ep.prove(&prm.even_parameters.bp_gens)?,
        odd_proof: op.prove(&prm.odd_parameters.bp_gens)?,
        randomized_path_0: ins[0].levels.path::<L>(),
        randomized_path_1: ins[1].levels.path::<L>(),
        pk0: ins[0].key,
        pk1: ins[1].key,
        minted_coin_commitment_0: minted[0],
        minted_coin_commitment_1: minted[1],
    })
}
fn bytes_of<T: CanonicalSerialize>(x: &T) -> Vec<u8> {
    let mut b = vec![];
    x.serialize_compressed(&mut b).unwrap();
    b
}
fn tag_of<Y: Cyc, G: Group>(k: &Pk<G>) -> Y::F0 {
    element_from_bytes_stat(&bytes_of(k))
}
struct Party<G: Group> {
    keys: Keys<G>,
}
struct Case<'a, Y: Cyc, G: Group, const L: usize> {
    prm: &'static Prm<Y>,
    sp: &'a SigPrm<G>,
    tree: &'a Tree<Y, L, 1>,
    who: &'a [Party<G>],
    coins: &'a [Owned<Y, G>],
    at: &'a [usize],
}
impl<'a, Y: Cyc, G: Group, const L: usize> Case<'a, Y, G, L> {
    fn spend(&self, c: usize) -> Spend<Y, G> {
        let o = &self.coins[c];
        o.spend(self.at[c], &self.who[o.owner].keys, self.sp)
    }
    fn key(&self, c: usize) -> Pk<G> {
        self.coins[c].public_key(&self.who[self.coins[c].owner].keys, self.sp)
    }
    /// An honest description of spending coin c of this tree.
    fn input(&self, tree: &Tree<Y, L, 1>, at: usize, c: &Owned<Y, G>, seed: u64) -> In<Y, G> {
        let mut levels = Levels::<Y>::of(tree, &[at], false, self.prm, seed);
        levels.publish(self.prm);
        let key = c.public_key(&self.who[c.owner].keys, self.sp);
        In { levels, open: vec![Y::F0::from(c.value), c.tag], blinding: c.blinding, key, tag: Some(c.tag), after: None }
    }
    fn honest(&self, c: [usize; 2], values: [u64; 2], to: [usize; 2], seed: u64) -> Vec<u8> {
        pour::<Y, G, L>(self.tree, [&self.spend(c[0]), &self.spend(c[1])], values, [self.who[to[0]].keys.pk, self.who[to[1]].keys.pk], self.sp, self.prm, &mut Seeded::new(seed))
    }
    fn sig(&self, msg: &[u8], c: &Owned<Y, G>, rng: &mut Seeded) -> Signature<G> {
        sign::<Y, G>(msg, &self.who[c.owner].keys, &c.pk_randomness, self.sp, rng)
    }
}
fn go<Y: Cyc, G: Group, const L: usize>(s: &mut Sim) -> Res {
    let prm = Y::params();
    let kind = s.stratum("attack", 21);
    let sp = sig_params::<G>(s.seed("signature parameters"));
    // 0: the attacker, 1: another owner
    let who: Vec<Party<G>> = (0..2).map(|_| Party { keys: keys::<G>(&sp, s.seed("keys")) }).collect();
    let mut g = Seeded::new(s.seed("coins"));
    let coins: Vec<Owned<Y, G>> = (0..5).map(|i| Owned::new(amount(s), &who[(i >= 3) as usize].keys, (i >= 3) as usize, &sp, prm, &mut g)).collect();
    let height = 1 + s.choose("height", if slow::<Y>() { 1 } else { [4, 3, 2][L - 2] }) as usize;
    let height = if L.pow(height as u32) < coins.len() { if L == 2 { 3 } else { 2 } } else { height };
    let n = coins.len() + s.choose("other leaves", (L.pow(height as u32) - coins.len()) as u64 + 1) as usize;
    let mut set = leaves::<Y>(n, s.seed("leaves"));
    let mut at: Vec<usize> = vec![];
    for c in &coins {
        let mut i = s.choose("place", n as u64) as usize;
        while at.contains(&i) {
            i = (i + 1) % n;
        }
        set[i] = c.commitment;
        at.push(i);
    }
    let tree = Tree::<Y, L, 1>::from_set(&set, prm, Some(height));
    // the attacker's private tree: coins it wishes it had
    let mut wish: Vec<Owned<Y, G>> = coins.clone();
    let wi = s.choose("wished coin", 2) as usize;
    match s.choose("wish", 3) {
        0 => {
            let v = if wish[wi].value == u64::MAX { 5 } else { u64::MAX };
            wish[wi] = Owned::new(v, &who[0].keys, 0, &sp, prm, &mut g);
        }
        1 => {
            wish[wi].value ^= 1 << s.choose("wished bit", 64);
            wish[wi].commitment = prm.even_parameters.commit(&[Y::F0::from(wish[wi].value), wish[wi].tag], wish[wi].blinding, 0);
        }
        _ => {
            // another key for the coin
            let c = Owned::new(wish[wi].value, &who[0].keys, 0, &sp, prm, &mut g);
            wish[wi] = c;
        }
    }
    let mut wset = set.clone();
    wset[at[wi]] = wish[wi].commitment;
    let wtree = Tree::<Y, L, 1>::from_set(&wset, prm, Some(height));
    let case = Case::<Y, G, L> { prm, sp: &sp, tree: &tree, who: &who, coins: &coins, at: &at };
    let own = pruned::<Y, L, 1>(&tree);
    let mut label: &'static [u8] = POUR;
    let values = split(s, coins[0].value, coins[1].value);
    let seed = s.seed("payment");
    let variant = s.seed("variant");
    let mut r = Seeded::new(seed ^ 0x5eed);
    let mut vr = simctx::Rng64::new(variant);
    let env = s.env("payer");
    let unit = |v: u64| Y::F0::from(v);
    let names = [
        "control", "control, own prover", "more out than in", "more out than in, own prover", "amount out of range", "coin of another tree", "coin of another tree, own prover", "key not the coin's",
        "key not the coin's, own prover", "somebody else's coin", "bad signature", "parts of two transactions", "bytes changed", "other ledger", "double spend", "dishonest mint", "openings changed",
        "one coin under two keys", "path of another coin", "balance in the field only", "keys with the tag of another",
    ];
    let name = names[kind as usize];
    s.note(format!("{} L={L} height {height} {n} leaves: {name}", Y::NAME));
    s.nontrivial = true;
    s.state(hash_str(&format!("{} {L} {height} {kind} {}", Y::NAME, variant % 7)));
    if kind == 20 {
        return tags::<Y, G>(s, &who[0].keys, prm, &sp, &mut vr);
    }
    if kind == 15 {
        return mints::<Y, G>(s, &coins[0], &who[0].keys, prm, &sp, &mut vr);
    }
    let a = [0, 1];
    let (case_, wish_, wtree_) = (&case, &wish, &wtree);
    let f0 = |v: u64, p: &mut simctx::Rng64| -> Out<Y> {
        Out { value: unit(v), tag: ctsim::prog::nonzero(p), blinding: ctsim::prog::nonzero(p), more: vec![], range: Range::Honest }
    };
    let mut sp2 = None;
    let mut other = None;
    let made = {
        let c = case_;
        let finish = |p: PourOf<Y, G, L>, signers: [&Owned<Y, G>; 2], r: &mut Seeded| -> Vec<u8> {
            let m = bytes_of(&p);
            let sg = [c.sig(&m, signers[0], r), c.sig(&m, signers[1], r)];
            tx_bytes::<Y, G>(&signed::<Y, G>(m, sg))
        };
        let vr = &mut vr;
        let r = &mut r;
        let label_ = &mut label;
        s.party("payer", &env, || -> Option<Vec<Vec<u8>>> {
            let ins = |vr: &mut simctx::Rng64| [c.input(c.tree, c.at[0], &c.coins[0], vr.next()), c.input(c.tree, c.at[1], &c.coins[1], vr.next())];
            let one = |b: Vec<u8>| Some(vec![b]);
            match kind {
                0 => one(c.honest(a, values, [1, 0], seed)),
                1 => {
                    let i = ins(vr);
                    let o = [f0(values[0], vr), f0(values[1], vr)];
                    one(finish(forge_pour::<Y, G, L>([&i[0], &i[1]], [&o[0], &o[1]], true, prm).ok()?, [&c.coins[0], &c.coins[1]], r))
                }
                2 => {
                    let mut v = values;
                    let w = vr.below(2) as usize;
                    v[w] = match vr.below(4) {
                        0 => v[w].wrapping_add(1),
                        1 => v[w].wrapping_sub(1),
                        2 => v[w] ^ (1 << vr.below(64)),
                        _ => vr.next(),
                    };
                    if v == values {
                        return None;
                    }
                    one(c.honest(a, v, [1, 0], seed))
                }
                3 => {
                    let i = ins(vr);
                    let w = vr.below(2) as usize;
                    let mut v = values;
                    v[w] = match vr.below(3) {
                        0 => v[w].wrapping_add(1),
                        1 => v[w] ^ (1 << vr.below(64)),
                        _ => vr.next(),
                    };
                    if v == values {
                        return None;
                    }
                    let o = [f0(v[0], vr), f0(v[1], vr)];
                    one(finish(forge_pour::<Y, G, L>([&i[0], &i[1]], [&o[0], &o[1]], vr.below(2) == 0, prm).ok()?, [&c.coins[0], &c.coins[1]], r))
                }
                4 | 19 => {
                    // one output negative or too large, the other makes up for it
                    let i = ins(vr);
                    let total = unit(c.coins[0].value) + unit(c.coins[1].value);
                    let w = vr.below(2) as usize;
                    let big = unit(2).pow([64 + vr.below(3)]) + unit(vr.below(5));
                    let v = match vr.below(4) {
                        0 => -unit(1 + vr.below(9)),
                        1 => big,
                        2 => -big,
                        _ => total + unit(1 + vr.below(9)),
                    };
                    // in range as an integer after all?
                    let small = |x: Y::F0| x.into_bigint().as_ref().iter().skip(1).all(|w| *w == 0);
                    if small(v) && small(total - v) {
                        return None;
                    }
                    let mut o = [f0(0, vr), f0(0, vr)];
                    o[w].value = v;
                    o[1 - w].value = total - v;
                    let bits = Y::F0::MODULUS_BIT_SIZE as usize;
                    let modes = [Range::Honest, Range::None, Range::Bits(63), Range::Bits(65), Range::Bits(66), Range::Bits(68), Range::Bits(bits - 1), Range::Bits(bits)];
                    if kind == 4 {
                        o[w].range = if vr.below(2) == 0 { digit(vr) } else { modes[vr.below(8) as usize] };
                        o[1 - w].range = if vr.below(2) == 0 { o[w].range } else { Range::Honest };
                    } else {
                        // exactly one output is out of range, and only its range is not proven
                        let k = unit(1 + vr.below(9));
                        let fits = |x: Y::F0| x.into_bigint().as_ref().iter().skip(1).all(|w| *w == 0);
                        o[1 - w].value = if fits(total + k) { total + k } else { unit(vr.below(9)) };
                        o[w].value = total - o[1 - w].value;
                        if fits(o[w].value) {
                            return None;
                        }
                        match vr.below(8) {
                            0 => {}
                            1 => (o[0].range, o[1].range) = (Range::None, Range::None),
                            2 => o[w].range = digit(vr),
                            _ => o[w].range = Range::None,
                        }
                    }
                    one(finish(forge_pour::<Y, G, L>([&i[0], &i[1]], [&o[0], &o[1]], true, prm).ok()?, [&c.coins[0], &c.coins[1]], r))
                }
                5 => {
                    let w = [&wish_[0], &wish_[1]];
                    let k = |x: &Owned<Y, G>| &c.who[x.owner].keys;
                    let i = [w[0].spend(c.at[0], k(w[0]), c.sp), w[1].spend(c.at[1], k(w[1]), c.sp)];
                    let t = w[0].value as u128 + w[1].value as u128;
                    let v0 = t.min(u64::MAX as u128) as u64;
                    one(pour::<Y, G, L>(wtree_, [&i[0], &i[1]], [v0, (t - v0 as u128) as u64], [c.who[1].keys.pk, c.who[0].keys.pk], c.sp, prm, r))
                }
                6 => {
                    let mut i = [c.input(wtree_, c.at[0], &wish_[0], vr.next()), c.input(wtree_, c.at[1], &wish_[1], vr.next())];
                    // only the last levels from the private tree, or all of it
                    let honest = Levels::<Y>::of(c.tree, &[c.at[wi]], false, prm, vr.next());
                    let from = vr.below(i[wi].levels.height() as u64) as usize;
                    let foreign = i[wi].levels.clone();
                    if vr.below(3) > 0 {
                        i[wi].levels = honest;
                        i[wi].levels.splice(from, 0, &foreign);
                        i[wi].levels.publish(prm);
                    }
                    let other = 1 - wi;
                    i[other] = c.input(c.tree, c.at[other], &c.coins[other], vr.next());
                    let t = wish_[wi].value as u128 + c.coins[other].value as u128;
                    let v0 = t.min(u64::MAX as u128) as u64;
                    let o = [f0(v0, vr), f0((t - v0 as u128) as u64, vr)];
                    let sg = if wi == 0 { [&wish_[0], &c.coins[1]] } else { [&c.coins[0], &wish_[1]] };
                    one(finish(forge_pour::<Y, G, L>([&i[0], &i[1]], [&o[0], &o[1]], true, prm).ok()?, sg, r))
                }
                7 | 9 => {
                    // a coin of the other owner, whose secrets the payer knows, but not the key
                    let victim = 3 + vr.below(2) as usize;
                    let x = vr.below(2) as usize;
                    let mut i = [c.spend(0), c.spend(1)];
                    i[x] = c.spend(victim);
                    i[x].sk = ark_crypto_primitives::signature::schnorr::SecretKey(c.who[0].keys.sk.0);
                    if kind == 7 {
                        i[x].randomized_pk = match vr.below(3) {
                            0 => c.key(2),
                            1 => c.key(1 - x),
                            _ => c.who[0].keys.pk,
                        };
                    }
                    let val = |k: usize| if k == x { c.coins[victim].value } else { c.coins[k].value };
                    let t = val(0) as u128 + val(1) as u128;
                    let v0 = t.min(u64::MAX as u128) as u64;
                    let b = pour::<Y, G, L>(c.tree, [&i[0], &i[1]], [v0, (t - v0 as u128) as u64], [c.who[0].keys.pk; 2], c.sp, prm, r);
                    if kind == 7 {
                        // sign with what fits the key shown
                        let tx = parse_tx::<Y, G>(&b).ok()?;
                        let p = pour_of::<Y, G, L>(&tx).ok()?;
                        let shown = [p.pk0, p.pk1];
                        let m = tx.pour_bytes.clone();
                        let zero = G::ScalarField::from(0u64);
                        let sg: Vec<Signature<G>> = (0..2)
                            .map(|q| {
                                let c2 = (0..3).find(|k| c.key(*k) == shown[q]);
                                match c2 {
                                    Some(k) => c.sig(&m, &c.coins[k], r),
                                    None => sign::<Y, G>(&m, &c.who[0].keys, &zero, c.sp, r),
                                }
                            })
                            .collect();
                        let [s0, s1]: [Signature<G>; 2] = sg.try_into().ok()?;
                        return one(tx_bytes::<Y, G>(&signed::<Y, G>(m, [s0, s1])));
                    }
                    one(b)
                }
                8 => {
                    let victim = 3 + vr.below(2) as usize;
                    let x = vr.below(2) as usize;
                    let mut i = ins(vr);
                    i[x] = c.input(c.tree, c.at[victim], &c.coins[victim], vr.next());
                    i[x].key = c.key(2);
                    let shown: Y::F0 = tag_of::<Y, G>(&i[x].key);
                    i[x].tag = [Some(shown), None, Some(c.coins[victim].tag)][vr.below(3) as usize];
                    if vr.below(2) == 0 {
                        let mut v = i[x].open.clone();
                        v[1] = shown;
                        i[x].after = Some(v);
                    }
                    let val = |k: usize| if k == x { c.coins[victim].value } else { c.coins[k].value };
                    let t = val(0) as u128 + val(1) as u128;
                    let v0 = t.min(u64::MAX as u128) as u64;
                    let o = [f0(v0, vr), f0((t - v0 as u128) as u64, vr)];
                    let mut sg = [&c.coins[0], &c.coins[1]];
                    sg[x] = &c.coins[2];
                    one(finish(forge_pour::<Y, G, L>([&i[0], &i[1]], [&o[0], &o[1]], true, prm).ok()?, sg, r))
                }
                10 => {
                    let b = c.honest(a, values, [1, 0], seed);
                    let mut tx = parse_tx::<Y, G>(&b).ok()?;
                    let m = tx.pour_bytes.clone();
                    let other = c.honest(a, values, [0, 1], seed ^ 1);
                    let tx2 = parse_tx::<Y, G>(&other).ok()?;
                    let x = vr.below(2);
                    let zero = G::ScalarField::from(0u64);
                    let s2 = match vr.below(8) {
                        0 => Signature { prover_response: zero, verifier_challenge: zero },
                        1 => {
                            if x == 0 {
                                Signature { prover_response: tx2.signature_prover_response_0, verifier_challenge: tx2.signature_verifier_challenge_0 }
                            } else {
                                Signature { prover_response: tx2.signature_prover_response_1, verifier_challenge: tx2.signature_verifier_challenge_1 }
                            }
                        }
                        2 => c.sig(&m, &c.coins[3], r),
                        // the key itself, not the coin's
                        3 => sign::<Y, G>(&m, &c.who[0].keys, &zero, c.sp, r),
                        // the other coin's signature
                        4 => c.sig(&m, &c.coins[1 - x as usize], r),
                        // over another message
                        5 => c.sig(&m[..m.len() - 1], &c.coins[x as usize], r),
                        6 => {
                            let g = c.sig(&m, &c.coins[x as usize], r);
                            Signature { prover_response: g.prover_response + G::ScalarField::from(1u64), verifier_challenge: g.verifier_challenge }
                        }
                        _ => {
                            let g = c.sig(&m, &c.coins[x as usize], r);
                            Signature { prover_response: g.verifier_challenge, verifier_challenge: g.prover_response }
                        }
                    };
                    if x == 0 {
                        tx.signature_prover_response_0 = s2.prover_response;
                        tx.signature_verifier_challenge_0 = s2.verifier_challenge;
                    } else {
                        tx.signature_prover_response_1 = s2.prover_response;
                        tx.signature_verifier_challenge_1 = s2.verifier_challenge;
                    }
                    one(tx_bytes::<Y, G>(&tx))
                }
                11 => {
                    let t1 = parse_tx::<Y, G>(&c.honest(a, values, [1, 0], seed)).ok()?;
                    let t2 = parse_tx::<Y, G>(&c.honest(if vr.below(2) == 0 { [0, 1] } else { [1, 0] }, values, [0, 1], seed ^ 7)).ok()?;
                    let (mut p, q) = (pour_of::<Y, G, L>(&t1).ok()?, pour_of::<Y, G, L>(&t2).ok()?);
                    let before = bytes_of(&p);
                    let k = vr.below(11);
                    match k {
                        0 => p.minted_coin_commitment_0 = q.minted_coin_commitment_0,
                        1 => p.minted_coin_commitment_1 = q.minted_coin_commitment_1,
                        2 => std::mem::swap(&mut p.minted_coin_commitment_0, &mut p.minted_coin_commitment_1),
                        3 => p.pk0 = q.pk1,
                        4 => std::mem::swap(&mut p.pk0, &mut p.pk1),
                        5 => std::mem::swap(&mut p.randomized_path_0, &mut p.randomized_path_1),
                        6 => p.randomized_path_0 = q.randomized_path_0,
                        7 => p.even_proof = q.even_proof,
                        8 => p.odd_proof = q.odd_proof,
                        9 => p.minted_coin_commitment_0 = (p.minted_coin_commitment_0 + c.tree_point()).into_affine(),
                        _ => p.randomized_path_1.selected_commitment = q.randomized_path_1.selected_commitment,
                    }
                    let m = bytes_of(&p);
                    if m == before {
                        return None;
                    }
                    if vr.below(2) == 0 {
                        // the owner itself signs it
                        let owner = |k: &Pk<G>| (0..5).find(|x| c.key(*x) == *k);
                        let (o0, o1) = (owner(&p.pk0)?, owner(&p.pk1)?);
                        let sg = [c.sig(&m, &c.coins[o0], r), c.sig(&m, &c.coins[o1], r)];
                        one(tx_bytes::<Y, G>(&signed::<Y, G>(m, sg)))
                    } else {
                        let mut tx = t1;
                        tx.pour_bytes = m;
                        one(tx_bytes::<Y, G>(&tx))
                    }
                }
                12 => {
                    let mut b = c.honest(a, values, [1, 0], seed);
                    let sig = 4 * bytes_of(&G::ScalarField::from(0u64)).len();
                    match vr.below(5) {
                        0 => {
                            let n = vr.below(b.len() as u64) as usize;
                            b.truncate(n)
                        }
                        1 => {
                            // longer message, with its length
                            b.push(0);
                            let n = (b.len() - sig - 8) as u64;
                            b[sig..sig + 8].copy_from_slice(&n.to_le_bytes());
                        }
                        2 => {
                            let i = vr.below(sig as u64) as usize;
                            b[i] ^= 1 << vr.below(8);
                        }
                        _ => {
                            let i = sig + vr.below((b.len() - sig) as u64) as usize;
                            b[i] ^= 1 + vr.below(255) as u8;
                        }
                    }
                    one(b)
                }
                13 => {
                    match vr.below(3) {
                        0 => *label_ = b"another domain",
                        1 => sp2 = Some(sig_params::<G>(vr.next())),
                        _ => {
                            let mut o = set.clone();
                            match vr.below(3) {
                                0 => o[c.at[0]] = any_point(vr),
                                1 => {
                                    let k = vr.below(o.len() as u64) as usize;
                                    o[k] = any_point(vr)
                                }
                                _ => o.reverse(),
                            }
                            other = Some(o);
                        }
                    }
                    one(c.honest(a, values, [1, 0], seed))
                }
                14 => {
                    // the same coin again: with another partner, or as both inputs
                    let b1 = c.honest([0, 1], values, [1, 0], seed);
                    let t = c.coins[0].value as u128 + c.coins[2].value as u128;
                    let v0 = t.min(u64::MAX as u128) as u64;
                    let b2 = c.honest([2, 0], [v0, (t - v0 as u128) as u64], [0, 1], seed ^ 3);
                    let d = c.coins[0].value as u128 * 2;
                    let v0 = d.min(u64::MAX as u128) as u64;
                    let b3 = c.honest([0, 0], [v0, (d - v0 as u128) as u64], [0, 1], seed ^ 5);
                    Some(vec![b1, b2, b3])
                }
                16 => {
                    // committed honestly, proven for other contents
                    let mut i = ins(vr);
                    let x = vr.below(2) as usize;
                    let mut v = i[x].open.clone();
                    match vr.below(3) {
                        0 => v[0] += unit(1 + vr.below(100)),
                        1 => v.swap(0, 1),
                        _ => v[1] = tag_of::<Y, G>(&c.key(2)),
                    }
                    let t = v[0] + i[1 - x].open[0];
                    if v[1] != i[x].open[1] {
                        i[x].tag = Some(v[1]);
                    }
                    i[x].after = Some(v);
                    let mut o = [f0(0, vr), f0(0, vr)];
                    o[0].value = t;
                    one(finish(forge_pour::<Y, G, L>([&i[0], &i[1]], [&o[0], &o[1]], true, prm).ok()?, [&c.coins[0], &c.coins[1]], r))
                }
                17 => {
                    // both inputs select coin 0, the second one under another key
                    let mut i = [c.input(c.tree, c.at[0], &c.coins[0], vr.next()), c.input(c.tree, c.at[0], &c.coins[0], vr.next())];
                    let x = vr.below(2) as usize;
                    i[x].key = c.key(1);
                    i[x].tag = [Some(c.coins[1].tag), None][vr.below(2) as usize];
                    let t = 2 * c.coins[0].value as u128;
                    let v0 = t.min(u64::MAX as u128) as u64;
                    let o = [f0(v0, vr), f0((t - v0 as u128) as u64, vr)];
                    let mut sg = [&c.coins[0], &c.coins[0]];
                    sg[x] = &c.coins[1];
                    one(finish(forge_pour::<Y, G, L>([&i[0], &i[1]], [&o[0], &o[1]], true, prm).ok()?, sg, r))
                }
                _ => {
                    // the published path is the other coin's, the opening this one's
                    let mut i = ins(vr);
                    let x = vr.below(2) as usize;
                    let j = c.input(c.tree, c.at[2], &c.coins[2], vr.next());
                    match vr.below(3) {
                        0 => {
                            i[x].levels = j.levels;
                        }
                        1 => {
                            i[x].open = j.open;
                            i[x].blinding = j.blinding;
                        }
                        _ => {
                            // a bigger coin's opening, own path, key and tag
                            i[x].open[0] += unit(1 + vr.below(1000));
                        }
                    }
                    let t = i[0].open[0] + i[1].open[0];
                    let mut o = [f0(0, vr), f0(0, vr)];
                    let half = t.into_bigint();
                    let lo = half.as_ref()[0];
                    o[0].value = unit(lo);
                    o[1].value = t - unit(lo);
                    if half.as_ref().iter().skip(1).any(|w| *w != 0) {
                        o[0].value = unit(u64::MAX);
                        o[1].value = t - unit(u64::MAX);
                    }
                    one(finish(forge_pour::<Y, G, L>([&i[0], &i[1]], [&o[0], &o[1]], true, prm).ok()?, [&c.coins[0], &c.coins[1]], r))
                }
            }
        })
    };
    let txs = match made.res {
        Ok(Some(x)) => x,
        Ok(None) => {
            s.count("attack is no lie here");
            return Ok(());
        }
        Err(e) => {
            ensure!(kind > 0 && kind != 14, "honest-panic", "{} L={L}: an honest payment panics: {e}", Y::NAME);
            s.count(&format!("attack not possible: {name}"));
            return Ok(());
        }
    };
    if kind > 1 {
        s.fault(name);
    }
    let own = match &other {
        Some(o) => Tree::<Y, L, 1>::from_set(o, prm, Some(height)),
        None => own,
    };
    if other.as_ref().is_some_and(|o| *o == set) {
        return Ok(());
    }
    let spv = sp2.as_ref().unwrap_or(&sp);
    // alone, or in one batch with an honest one
    let company = kind != 13 && s.choose("with an honest one", 3) == 1;
    let mut verdicts = vec![];
    for b in &txs {
        let extra = if company {
            let env = s.env("other payer");
            let t = coins[3].value as u128 + coins[4].value as u128;
            let v0 = t.min(u64::MAX as u128) as u64;
            let o = s.party("other payer", &env, || case.honest([3, 4], [v0, (t - v0 as u128) as u64], [0, 1], seed ^ 99));
            Some(o.ok("honest-panic")?)
        } else {
            None
        };
        let first = s.choose("order", 2) == 0;
        let env = s.env("ledger");
        let o = s.party("ledger", &env, || {
            let mut v: Vec<(&Tree<Y, L, 1>, &[u8])> = vec![(&own, b.as_slice())];
            if let Some(e) = &extra {
                v.insert(first as usize, (&own, e.as_slice()));
            }
            check_pours::<Y, G, L>(&v, label, spv, prm).map(|mut r| if extra.is_some() && !first { r.pop().unwrap() } else { r.swap_remove(0) })
        });
        verdicts.push(o.res.and_then(|x| x));
    }
    match kind {
        0 | 1 => {
            let ok = verdicts[0].is_ok();
            s.count(if ok { "control accepted" } else { "control refused" });
            ensure!(kind == 1 || ok, "honest-refused", "{} L={L}: an honest payment is refused: {}", Y::NAME, verdicts[0].as_ref().err().unwrap());
            if let Ok((k, _)) = &verdicts[0] {
                ensure!(*k == [case.key(0), case.key(1)], "wrong-key-shown", "{} L={L}: the keys shown by a payment are not those of the coins spent", Y::NAME);
            }
        }
        14 => {
            let k0 = case.key(0);
            for (v, place) in verdicts.iter().zip([&[0][..], &[1], &[0, 1]]) {
                if let Ok((k, _)) = v {
                    s.count("double spend shown");
                    for p in place {
                        ensure!(k[*p] == k0, "double-spend-hidden", "{} L={L}: one coin spent twice shows different keys", Y::NAME);
                    }
                }
            }
            ensure!(verdicts[0].is_ok(), "honest-refused", "{} L={L}: an honest payment is refused", Y::NAME);
        }
        _ => {
            ensure!(
                verdicts[0].is_err(),
                format!("accepted-{kind}"),
                "{} L={L}, height {height}, {n} leaves, inputs {:?}, variant {variant}: a ledger accepts {name}",
                Y::NAME,
                [coins[0].value, coins[1].value]
            );
            s.count("refused");
        }
    }
    Ok(())
}
impl<'a, Y: Cyc, G: Group, const L: usize> Case<'a, Y, G, L> {
    fn tree_point(&self) -> Ev<Y> {
        self.prm.even_parameters.pc_gens.B_blinding
    }
}
/// A coin is spent with the key its tag stands for.  A thief looks for another key with the same
/// tag: among many keys, and among those that resemble the coin's.
fn tags<Y: Cyc, G: Group>(s: &mut Sim, k: &Keys<G>, prm: &'static Prm<Y>, sp: &SigPrm<G>, vr: &mut simctx::Rng64) -> Res {
    for like in 0..3 {
        alike::<Y, G>(s, k, prm, sp, vr, like)?;
    }
    // with the fields of the real curves
    let at = vr.next();
    let env = s.env("hasher");
    let o = s.party("hasher", &env, || -> Res {
        fn field<F: PrimeField>(name: &str, at: u64) -> Res {
            let xs: Vec<F> = (0..200u64).map(|i| element_from_bytes_stat::<F>(&[&at.to_le_bytes()[..], &[3; 24], &i.to_le_bytes()].concat())).collect();
            as_tag(crate::c07::uniform_looking(name, &xs))
        }
        field::<ark_pallas::Fr>("tags in the scalar field of pallas", at)?;
        field::<ark_pallas::Fq>("tags in the base field of pallas", at)?;
        field::<<Secp as Cyc>::F0>("tags in the first field of the secp cycle", at)?;
        field::<<Secp as Cyc>::F1>("tags in the second field of the secp cycle", at)
    });
    o.ok("hasher")?
}
fn as_tag(r: Res) -> Res {
    r.map_err(|e| match e {
        Stop::Violation(_, m) => Stop::Violation("tag".into(), m),
        e => e,
    })
}
fn alike<Y: Cyc, G: Group>(s: &mut Sim, k: &Keys<G>, prm: &'static Prm<Y>, sp: &SigPrm<G>, vr: &mut simctx::Rng64, like: u64) -> Res {
    use ark_serialize::CanonicalDeserialize;
    let seed = vr.next();
    // the tag of a key: a coin for the key that this random source rerandomizes to it
    let make = |pk: &Pk<G>, seed: u64| CoinOf::<Y, G>::new(1, pk, sp, &prm.even_parameters, &mut Seeded::new(seed));
    let env = s.env("thief");
    let pick = vr.next();
    let got = s.party("thief", &env, || -> Option<(Vec<(Vec<u8>, Y::F0)>, Y::F0, Vec<u8>)> {
        let first = make(&k.pk, seed).0;
        let at = CoinOf::<Y, G>::rerandomized_pk(&k.pk, &first.pk_randomness, sp);
        let shift = at.into_group() - k.pk.into_group();
        let tag_of = |key: G| -> Option<Y::F0> {
            let pk = (key - shift).into_affine();
            let c = make(&pk, seed).0;
            (CoinOf::<Y, G>::rerandomized_pk(&pk, &c.pk_randomness, sp) == key.into_affine()).then_some(c.tag)
        };
        let mut all = vec![];
        let b = bytes_of(&at);
        match like {
            0 => {
                // many keys
                let mut key = at.into_group();
                let step = G::generator() * G::ScalarField::from(pick | 1);
                for _ in 0..400 {
                    key += step;
                    all.push((bytes_of(&key.into_affine()), tag_of(key)?));
                }
            }
            1 => {
                // all but one byte the same
                for i in 0..b.len() {
                    for j in 1..=255u8 {
                        let mut c = b.clone();
                        c[i] ^= j;
                        if let Ok(x) = Pk::<G>::deserialize_compressed(&c[..]) {
                            if bytes_of(&x) == c && !x.is_zero() {
                                all.push((c, tag_of(x.into_group())?));
                                break;
                            }
                        }
                    }
                }
                let minus = -at.into_group();
                all.push((bytes_of(&minus.into_affine()), tag_of(minus)?));
            }
            _ => {
                // one half or one quarter the same
                let mut g = simctx::Rng64::new(pick);
                for from in 0..8 {
                    let (lo, hi) = (from * b.len() / 8, (from + 1) * b.len() / 8);
                    for _ in 0..20 {
                        let mut c = b.clone();
                        for x in &mut c[lo..hi] {
                            *x = g.next() as u8;
                        }
                        if let Ok(x) = Pk::<G>::deserialize_compressed(&c[..]) {
                            if bytes_of(&x) == c && !x.is_zero() && c != b {
                                all.push((c, tag_of(x.into_group())?));
                            }
                        }
                    }
                }
            }
        }
        Some((all, first.tag, b))
    });
    let Ok(Some((mut all, tag, key))) = got.res else {
        s.count("attack not possible: tags");
        return Ok(());
    };
    all.push((key, tag));
    s.fault(["many keys for one tag", "keys that differ in a byte", "keys that differ in an eighth"][like as usize]);
    s.add("tags compared", all.len() as u64);
    let mut seen: std::collections::BTreeMap<Vec<u8>, Vec<u8>> = Default::default();
    for (k, t) in &all {
        if let Some(o) = seen.insert(bytes_of(t), k.clone()) {
            ensure!(&o == k, "tag", "{}: the keys {o:02x?} and {k:02x?} have the same tag: whoever holds one spends the other's coins", Y::NAME);
        }
    }
    if like == 0 {
        as_tag(crate::c07::uniform_looking("tags", &all.iter().map(|x| x.1).collect::<Vec<_>>()))?;
    }
    Ok(())
}
/// Mints of amounts out of range, with more contents than a coin has, or with another's proof.
fn mints<Y: Cyc, G: Group>(s: &mut Sim, coin: &Owned<Y, G>, k: &Keys<G>, prm: &'static Prm<Y>, sp: &SigPrm<G>, vr: &mut simctx::Rng64) -> Res {
    let what = vr.below(7);
    let names = ["negative", "too large", "too large, wider range", "one more content", "another's proof", "proof changed", "control"];
    s.fault(&format!("dishonest mint: {}", names[what as usize]));
    let env = s.env("minter");
    let seed = vr.next();
    let g = &mut simctx::Rng64::new(seed);
    let bits = Y::F0::MODULUS_BIT_SIZE as u64;
    let made = s.party("minter", &env, || -> Option<Vec<u8>> {
        let f = |v: u64| Y::F0::from(v);
        let (value, range, more) = match what {
            0 => (-f(1 + g.below(1000)), [digit(g), digit(g), Range::Honest, Range::None, Range::Bits(bits as usize - 1), Range::Bits(bits as usize)][g.below(6) as usize], vec![]),
            1 => (f(2).pow([64 + g.below(bits - 66)]), [Range::Honest, Range::None, digit(g), digit(g)][g.below(4) as usize], vec![]),
            2 => (f(2).pow([64]) + f(g.next()), Range::Bits(65 + g.below(3) as usize), vec![]),
            3 => (f(coin.value), Range::Honest, vec![f(1 + g.below(9))]),
            6 => (f(coin.value), Range::Honest, vec![]),
            _ => {
                let (_, mut b) = mint::<Y, G>(coin.value, k, 0, sp, prm, &mut Seeded::new(seed)).ok()?;
                let n = bytes_of(&coin.commitment).len();
                if what == 4 {
                    b[..n].copy_from_slice(&bytes_of(&coin.commitment));
                } else {
                    // the neutral element in a proof has bits without meaning: only look at others
                    let i = n + g.below(30) as usize;
                    b[i] ^= 1 + g.below(255) as u8;
                }
                return Some(b);
            }
        };
        let mut p: EvProver<Y> = Prover::new(&prm.even_parameters.pc_gens, Transcript::new(MINT));
        let mut v = vec![value, coin.tag];
        v.extend(more);
        let (c, vars) = p.commit_vec(&v, coin.blinding, &prm.even_parameters.bp_gens);
        in_range::<Y>(&mut p, vars[0], value, range);
        let mut b = bytes_of(&c);
        b.extend(p.prove(&prm.even_parameters.bp_gens).ok()?.to_bytes());
        Some(b)
    });
    let Ok(Some(b)) = made.res else {
        s.count("attack not possible: mint");
        return Ok(());
    };
    let env = s.env("ledger");
    let v = s.party("ledger", &env, || check_mint::<Y>(&b, prm)).res.and_then(|x| x);
    if what == 3 {
        // nothing speaks of further contents: they change neither amount nor key
        s.count("mint with further contents");
    } else if what == 6 {
        s.count(if v.is_ok() { "control accepted" } else { "control refused" });
    } else {
        ensure!(v.is_err(), format!("mint-{what}"), "{}: a ledger accepts a mint: {}", Y::NAME, names[what as usize]);
        s.count("refused");
    }
    Ok(())
}
#[allow(dead_code)]
fn unused<F: UniformRand, C: AffineRepr>() {}
