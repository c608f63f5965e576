//! Coins, mints and payments as messages between wallets and ledgers.
use ark_crypto_primitives::signature::schnorr::{Parameters, Schnorr, SecretKey, Signature};
use ark_crypto_primitives::signature::SignatureScheme;
use ark_ec::short_weierstrass::Projective;
use ark_ec::CurveGroup;
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
pub use blake2::Blake2s256 as Blake2s;
use bulletproofs::r1cs::*;
use ctsim::tree::*;
use merlin::Transcript;
pub use relations::coin::*;
use simctx::Rng64;
use std::hash::Hash;

/// A random source with a seed, that can be read again from the start.
#[derive(Clone)]
pub struct Seeded(pub Rng64);
impl Seeded {
    pub fn new(seed: u64) -> Self {
        Seeded(Rng64::new(seed))
    }
}
impl rand::RngCore for Seeded {
    fn next_u32(&mut self) -> u32 {
        self.0.next() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.0.next()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for c in d.chunks_mut(8) {
            let w = self.0.next().to_le_bytes();
            c.copy_from_slice(&w[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}

pub trait Group: CurveGroup + Hash + 'static {}
impl<G: CurveGroup + Hash + 'static> Group for G {}
pub type Pk<G> = <G as CurveGroup>::Affine;
pub type SigPrm<G> = Parameters<G, Blake2s>;
pub type Tx<Y, G> = SignedTx<<Y as Cyc>::P0, <Y as Cyc>::P1, G>;
pub type PourOf<Y, G, const L: usize> = Pour<L, <Y as Cyc>::P0, <Y as Cyc>::P1, G>;
pub type CoinOf<Y, G> = Coin<<Y as Cyc>::P0, G>;
pub type Spend<Y, G> = SpendingInfo<<Y as Cyc>::P0, G>;
pub type GroupOf<Y> = Projective<<Y as Cyc>::P0>;

pub struct Keys<G: Group> {
    pub pk: Pk<G>,
    pub sk: SecretKey<G>,
}
pub fn sig_params<G: Group>(seed: u64) -> SigPrm<G> {
    Schnorr::<G, Blake2s>::setup(&mut Seeded::new(seed)).unwrap()
}
pub fn keys<G: Group>(sp: &SigPrm<G>, seed: u64) -> Keys<G> {
    let (pk, sk) = Schnorr::<G, Blake2s>::keygen(sp, &mut Seeded::new(seed)).unwrap();
    Keys { pk, sk }
}
/// A coin with everything its owner needs.
pub struct Owned<Y: Cyc, G: Group> {
    pub value: u64,
    pub tag: Y::F0,
    pub blinding: Y::F0,
    pub pk_randomness: G::ScalarField,
    pub commitment: Ev<Y>,
    pub owner: usize,
}
impl<Y: Cyc, G: Group> Clone for Owned<Y, G> {
    fn clone(&self) -> Self {
        Owned { value: self.value, tag: self.tag, blinding: self.blinding, pk_randomness: self.pk_randomness, commitment: self.commitment, owner: self.owner }
    }
}
impl<Y: Cyc, G: Group> Owned<Y, G> {
    pub fn of(c: &CoinOf<Y, G>, commitment: Ev<Y>, owner: usize) -> Self {
        Owned { value: c.value, tag: c.tag, blinding: c.blinding, pk_randomness: c.pk_randomness, commitment, owner }
    }
    /// The coin that `Coin::new` makes from this random source.
    pub fn new(value: u64, k: &Keys<G>, owner: usize, sp: &SigPrm<G>, prm: &Prm<Y>, rng: &mut Seeded) -> Self {
        let (c, p) = CoinOf::<Y, G>::new(value, &k.pk, sp, &prm.even_parameters, rng);
        Self::of(&c, p, owner)
    }
    pub fn coin(&self) -> CoinOf<Y, G> {
        Coin { value: self.value, tag: self.tag, blinding: self.blinding, pk_randomness: self.pk_randomness }
    }
    pub fn public_key(&self, k: &Keys<G>, sp: &SigPrm<G>) -> Pk<G> {
        CoinOf::<Y, G>::rerandomized_pk(&k.pk, &self.pk_randomness, sp)
    }
    pub fn spend(&self, index: usize, k: &Keys<G>, sp: &SigPrm<G>) -> Spend<Y, G> {
        SpendingInfo { index, coin_aux: self.coin(), randomized_pk: self.public_key(k, sp), sk: SecretKey(k.sk.0) }
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut b = vec![];
        self.value.serialize_compressed(&mut b).unwrap();
        self.tag.serialize_compressed(&mut b).unwrap();
        self.blinding.serialize_compressed(&mut b).unwrap();
        self.pk_randomness.serialize_compressed(&mut b).unwrap();
        b
    }
    pub fn parse(mut b: &[u8], owner: usize, prm: &Prm<Y>) -> Option<Self> {
        let value = u64::deserialize_compressed(&mut b).ok()?;
        let tag = Y::F0::deserialize_compressed(&mut b).ok()?;
        let blinding = Y::F0::deserialize_compressed(&mut b).ok()?;
        let pk_randomness = G::ScalarField::deserialize_compressed(&mut b).ok()?;
        let commitment = prm.even_parameters.commit(&[Y::F0::from(value), tag], blinding, 0);
        Some(Owned { value, tag, blinding, pk_randomness, commitment, owner })
    }
}
pub const MINT: &[u8] = b"mint";
pub const POUR: &[u8] = b"select_and_rerandomize";
/// Mint: a commitment and a proof that it holds an amount in range.
pub fn mint<Y: Cyc, G: Group>(value: u64, k: &Keys<G>, owner: usize, sp: &SigPrm<G>, prm: &Prm<Y>, rng: &mut Seeded) -> Result<(Owned<Y, G>, Vec<u8>), R1CSError> {
    let mut p: EvProver<Y> = Prover::new(&prm.even_parameters.pc_gens, Transcript::new(MINT));
    let (c, comm, _) = CoinOf::<Y, G>::mint(value, &k.pk, sp, &prm.even_parameters, rng, &mut p);
    let proof = p.prove(&prm.even_parameters.bp_gens)?;
    let mut b = vec![];
    comm.serialize_compressed(&mut b).unwrap();
    b.extend(proof.to_bytes());
    Ok((Owned::of(&c, comm, owner), b))
}
pub fn check_mint<Y: Cyc>(mut b: &[u8], prm: &Prm<Y>) -> Result<Ev<Y>, String> {
    let comm = Ev::<Y>::deserialize_compressed(&mut b).map_err(|e| format!("commitment: {e:?}"))?;
    let proof = R1CSProof::<Ev<Y>>::from_bytes(b).map_err(|e| format!("proof: {e:?}"))?;
    let mut v: EvVerifier<Y> = Verifier::new(Transcript::new(MINT));
    verify_mint(&mut v, comm);
    v.verify(&proof, &prm.even_parameters.pc_gens, &prm.even_parameters.bp_gens).map_err(|e| format!("{e:?}"))?;
    Ok(comm)
}
/// Pay with two coins.
pub fn pour<Y: Cyc, G: Group, const L: usize>(
    tree: &Tree<Y, L, 1>,
    inputs: [&Spend<Y, G>; 2],
    values: [u64; 2],
    to: [Pk<G>; 2],
    sp: &SigPrm<G>,
    prm: &Prm<Y>,
    rng: &mut Seeded,
) -> Vec<u8> {
    let ep: EvProver<Y> = Prover::new(&prm.even_parameters.pc_gens, Transcript::new(POUR));
    let op: OdProver<Y> = Prover::new(&prm.odd_parameters.pc_gens, Transcript::new(POUR));
    let tx = prove_pour(ep, op, prm, tree, inputs[0], inputs[1], values[0], to[0], values[1], to[1], sp, rng);
    tx_bytes::<Y, G>(&tx)
}
pub fn tx_bytes<Y: Cyc, G: Group>(tx: &Tx<Y, G>) -> Vec<u8> {
    let mut b = vec![];
    tx.serialize_compressed(&mut b).unwrap();
    b
}
pub fn parse_tx<Y: Cyc, G: Group>(mut b: &[u8]) -> Result<Tx<Y, G>, String> {
    let tx = Tx::<Y, G>::deserialize_compressed(&mut b).map_err(|e| format!("{e:?}"))?;
    // one message, one transaction
    if b.is_empty() {
        Ok(tx)
    } else {
        Err("bytes after the transaction".into())
    }
}
pub fn pour_of<Y: Cyc, G: Group, const L: usize>(tx: &Tx<Y, G>) -> Result<PourOf<Y, G, L>, String> {
    PourOf::<Y, G, L>::deserialize_compressed(tx.pour_bytes.as_slice()).map_err(|e| format!("{e:?}"))
}
/// Check transactions against a tree, each with its own call or all in one batch.  What a ledger
/// takes from an accepted transaction: the keys shown and the coins created.
pub fn check_pours<Y: Cyc, G: Group, const L: usize>(
    txs: &[(&Tree<Y, L, 1>, &[u8])],
    label: &'static [u8],
    sp: &SigPrm<G>,
    prm: &Prm<Y>,
) -> Result<Vec<([Pk<G>; 2], [Ev<Y>; 2])>, String> {
    let (mut even, mut odd, mut out) = (vec![], vec![], vec![]);
    for (tree, b) in txs {
        let tx = parse_tx::<Y, G>(b)?;
        let p = pour_of::<Y, G, L>(&tx)?;
        out.push(([p.pk0, p.pk1], [p.minted_coin_commitment_0, p.minted_coin_commitment_1]));
        let (e, o) = tx.verification_gadget::<L>(label, prm, tree, sp);
        even.push(e);
        odd.push(o);
    }
    batch_verify(even, &prm.even_parameters.pc_gens, &prm.even_parameters.bp_gens).map_err(|e| format!("even: {e:?}"))?;
    batch_verify(odd, &prm.odd_parameters.pc_gens, &prm.odd_parameters.bp_gens).map_err(|e| format!("odd: {e:?}"))?;
    Ok(out)
}
pub fn sign<Y: Cyc, G: Group>(msg: &[u8], k: &Keys<G>, randomness: &G::ScalarField, sp: &SigPrm<G>, rng: &mut Seeded) -> Signature<G> {
    let s = Schnorr::<G, Blake2s>::sign(sp, &SecretKey(k.sk.0), msg, rng).unwrap();
    let mut b = vec![];
    randomness.serialize_compressed(&mut b).unwrap();
    Schnorr::<G, Blake2s>::randomize_signature(sp, &s, &b).unwrap()
}
pub fn signed<Y: Cyc, G: Group>(pour: Vec<u8>, s: [Signature<G>; 2]) -> Tx<Y, G> {
    let mut b = vec![];
    for x in &s {
        x.prover_response.serialize_compressed(&mut b).unwrap();
        x.verifier_challenge.serialize_compressed(&mut b).unwrap();
    }
    pour.serialize_compressed(&mut b).unwrap();
    parse_tx::<Y, G>(&b).unwrap()
}
/// Two outputs that add up to what goes in.
pub fn split(s: &mut ctsim::engine::Sim, a: u64, b: u64) -> [u64; 2] {
    let t = a as u128 + b as u128;
    let lo = t.saturating_sub(u64::MAX as u128) as u64;
    let hi = t.min(u64::MAX as u128) as u64;
    let v = match s.choose("split", 5) {
        0 => a.clamp(lo, hi),
        1 => lo,
        2 => hi,
        3 => lo + (hi - lo) / 2,
        _ => lo + (s.seed("amount") % (hi - lo).max(1)),
    };
    [v, (t - v as u128) as u64]
}
pub fn amount(s: &mut ctsim::engine::Sim) -> u64 {
    match s.choose("amount", 8) {
        0 => 0,
        1 => 1,
        2 => u64::MAX,
        3 => 1 << s.choose("amount bit", 64),
        4 | 5 => s.choose("small amount", 1000),
        _ => s.seed("any amount"),
    }
}
