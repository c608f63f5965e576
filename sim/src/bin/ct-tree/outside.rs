//! Attacks on membership proofs, plain and batched (C11, C13): whatever a dishonest prover does,
//! no commitment outside the tree is accepted.
use ctsim::byzpath::*;
use crate::util::*;
use ark_ec::short_weierstrass::{Affine, SWCurveConfig};
use ark_ec::{AffineRepr, CurveGroup};
use bulletproofs::r1cs::*;
use ctsim::engine::*;
use ctsim::tree::*;
use ctsim::ensure;
use merlin::Transcript;
use simctx::Rng64;

fn lift<P: SWCurveConfig>(x: P::BaseField) -> Option<Affine<P>> {
    Affine::<P>::get_point_from_x_unchecked(x, false)
}
/// A point of known opening that is no multiple of H: what a prover may want to smuggle in.
fn offset<P: SWCurveConfig>(s: &mut Sim, gens: &[Affine<P>], b: Affine<P>, delta: Affine<P>) -> Affine<P> {
    let base = match s.choose("offset along", 4) {
        0 => gens[0],
        1 => gens[s.choose("generator", gens.len() as u64) as usize],
        2 => b,
        _ => delta,
    };
    let k: P::ScalarField = match s.choose("offset size", 4) {
        0 => P::ScalarField::from(1u64),
        1 => -P::ScalarField::from(1u64),
        2 => P::ScalarField::from(2u64),
        _ => some(s),
    };
    (base * k).into_affine()
}
pub fn attack<Y: Cyc, const L: usize, const M: usize>(s: &mut Sim, batched: bool) -> Res {
    let prm = Y::params();
    let m = if batched { M } else { 1 };
    let max = if slow::<Y>() { 2 } else { [7, 5, 4, 3][L.min(5) - 2] };
    let max = (1..=max).rev().find(|h| fits::<Y>(L, m, *h) > 0).unwrap_or(1);
    let mut sh = TShape::draw(s, L, max, 200);
    if sh.n < m {
        sh.n = m;
    }
    let kind = s.stratum("attack", 13);
    let mut r = Rng64::new(s.seed("attacker"));
    let mut set = leaves::<Y>(sh.n, sh.seed);
    let want = Some(sh.height);
    let label: &'static [u8] = b"outside";
    // for the attack with a path that is too long: a leaf that commits to foreign children
    let mut inner = None;
    if kind == 5 && !batched {
        let f = leaves::<Y>(1 + r.below((L * L) as u64) as usize, r.next());
        let ft = Tree::<Y, L, M>::from_set(&f, prm, Some(2));
        let at = r.below(set.len() as u64) as usize;
        if let relations::curve_tree::CurveTree::Even(n) = &ft {
            set[at] = n.commitment(0);
        }
        inner = Some((ft, f, at));
    }
    let tree = Tree::<Y, L, M>::from_set(&set, prm, want);
    let h = tree.height();
    let mut idx: Vec<usize> = vec![];
    for _ in 0..m {
        let mut i = s.choose("leaf", sh.n as u64) as usize;
        while idx.contains(&i) {
            i = (i + 1) % sh.n;
        }
        idx.push(i);
    }
    if let Some((_, _, at)) = &inner {
        idx[0] = *at;
    }
    // the attacker's own tree
    let fset = leaves::<Y>(1 + r.below(sh.n.max(m) as u64 * 2) as usize + m, r.next());
    let fset = &fset[..fset.len().min(L.pow(h as u32))];
    let ftree = Tree::<Y, L, M>::from_set(fset, prm, Some(h));
    let fidx: Vec<usize> = (0..m).map(|t| (r.below(fset.len() as u64) as usize + t) % fset.len()).collect();
    let mut honest = Levels::<Y>::of(&tree, &idx, batched, prm, r.next());
    honest.publish(prm);
    let foreign = Levels::<Y>::of(&ftree, &fidx, batched, prm, r.next());
    let mut own = pruned::<Y, L, M>(&tree);
    let mut accept: Vec<Ev<Y>> = set.clone();
    let mut st = honest.clone();
    let mut lie = Lie::<Y> { levels: None, even: None, odd: None, plan: 0, blend: false, own: false };
    let mut lying_levels: Option<Levels<Y>> = None;
    let k = s.choose("level", h as u64) as usize;
    let t = s.choose("member", m as u64) as usize;
    let names = [
        "no attack", "foreign child", "foreign child, consistent assignment", "shifted rerandomization", "shifted rerandomization, lying table", "path of another length", "empty slot as child",
        "honest proof, other commitment", "honest proof, other tree", "mixed levels", "foreign tree's path", "exchanged members", "points off the curve",
    ];
    let eg: Vec<Ev<Y>> = prm.even_parameters.bp_gens.share(0).G(L * m).copied().collect();
    let og: Vec<Od<Y>> = prm.odd_parameters.bp_gens.share(0).G(L * m).copied().collect();
    let mut swap_after: Option<Box<dyn Fn(&mut Path<Y, L>)>> = None;
    let mut swap_after_m: Option<Box<dyn Fn(&mut MPath<Y, L, M>)>> = None;
    let mut path_len: i32 = 0;
    match kind {
        0 => {}
        1 | 2 => {
            st.splice(k, t, &foreign);
            st.publish(prm);
            if kind == 2 {
                let mut x = st.clone();
                x.foreign_kids(k, t, &foreign);
                lying_levels = Some(x);
            }
        }
        3 | 4 => {
            // published point at level k shifted; below, a foreign branch whose opening the shift makes
            let (e, i) = st.pos(k);
            if k + 1 < h {
                // child slot j of the next opening becomes a foreign node
                st.splice(k + 1, t, &foreign);
                let j = s.choose("slot", L as u64) as usize;
                let (e2, i2) = st.pos(k + 1);
                if e2 {
                    // children on the odd curve; their parent is an even point
                    let x = foreign.even[i2].cpd[t].x;
                    let d = x - st.even[i2].kids[t * L + j];
                    st.even[i2].kids[t * L + j] = x;
                    st.odd[i].shift[0] = (eg[t * L + j] * d).into_affine();
                } else {
                    let x = foreign.odd[i2].cpd[t].x;
                    let d = x - st.odd[i2].kids[t * L + j];
                    st.odd[i2].kids[t * L + j] = x;
                    st.even[i].shift[0] = (og[t * L + j] * d).into_affine();
                }
            } else {
                let p = &prm.even_parameters;
                let o = offset(s, &eg, p.pc_gens.B, p.delta);
                st.odd[i].shift[t] = o;
            }
            st.publish(prm);
            if kind == 4 {
                let (w, last) = (s.choose("window", prm.even_parameters.tables.len() as u64) as usize, s.choose("last windows", 4));
                let pick = |n: usize| match last {
                    0 => n - 1,
                    1 => 0,
                    _ => w % n,
                };
                if e {
                    let n = prm.odd_parameters.tables.len();
                    let w = pick(n);
                    lie.odd = Some(lying(&prm.odd_parameters, Some((w, st.even[i].shift[0]))));
                } else {
                    let n = prm.even_parameters.tables.len();
                    let w = pick(n);
                    let o = if st.odd[i].single { st.odd[i].shift[if st.odd[i].shift.len() > t { t } else { 0 }] } else { st.odd[i].shift[0] };
                    lie.even = Some(lying(&prm.even_parameters, Some((w, o))));
                }
            }
        }
        5 => {
            match (&inner, h >= 3 && s.choose("too short", 2) == 1 || batched) {
                (Some((ft, _, _)), false) => {
                    // continue below a leaf
                    let more = Levels::<Y>::of(ft, &[r.below(1) as usize], batched, prm, r.next());
                    for x in &mut st.odd {
                        x.single = true;
                    }
                    st.even.extend(more.even.iter().cloned());
                    st.odd.extend(more.odd.iter().cloned());
                    st.publish(prm);
                    path_len = 2;
                }
                _ if h >= 3 => {
                    st.even.pop();
                    st.odd.pop();
                    if let Some(o) = st.odd.last_mut() {
                        o.single = true;
                        o.r = (0..m).map(|_| scalar(&mut r)).collect();
                        o.shift = vec![Ev::<Y>::zero(); m];
                    }
                    st.publish(prm);
                    path_len = -2;
                }
                _ => {
                    // parts of an honest path left out or repeated
                    let drop = s.choose("drop or repeat", 4);
                    let f = move |e: &mut Vec<Ev<Y>>, o: &mut Vec<Od<Y>>| match drop {
                        0 => {
                            e.pop();
                        }
                        1 => {
                            o.pop();
                        }
                        2 => {
                            if let Some(x) = o.last().copied() {
                                o.push(x)
                            }
                        }
                        _ => {
                            let x = e.last().copied().unwrap_or(Ev::<Y>::generator());
                            e.push(x)
                        }
                    };
                    swap_after = Some(Box::new(move |p| f(&mut p.even_commitments, &mut p.odd_commitments)));
                    swap_after_m = Some(Box::new(move |p| f(&mut p.even_commitments, &mut p.odd_commitments)));
                }
            }
        }
        6 => {
            // whatever the siblings say that is no child
            let n = st.odd.len() - 1;
            let real: Vec<Y::F1> = set.iter().map(|c| xd(c, &prm.even_parameters.delta)).collect();
            let slot = (0..L).map(|j| st.odd[n].kids[t * L + j]).find(|x| !real.contains(x));
            let Some(p) = slot.and_then(lift::<Y::P0>) else {
                s.count("no empty slot that is a point");
                return Ok(());
            };
            st.odd[n].cpd[t] = p;
            st.publish(prm);
        }
        7 => {
            let p = &prm.even_parameters;
            let what = s.choose("other commitment", 5);
            let rr: Y::F0 = some(s);
            let o = offset(s, &eg, p.pc_gens.B, p.delta);
            let (d, hb, f) = (p.delta, p.pc_gens.B_blinding, fset[fidx[0]]);
            let g = move |c: Ev<Y>| -> Ev<Y> {
                match what {
                    0 => (f + hb * rr).into_affine(),
                    1 => (c + o).into_affine(),
                    2 => -c,
                    3 => (c + d).into_affine(),
                    _ => Ev::<Y>::zero(),
                }
            };
            swap_after = Some(Box::new(move |p| p.selected_commitment = g(p.selected_commitment)));
            swap_after_m = Some(Box::new(move |p| p.selected_commitments[t] = g(p.selected_commitments[t])));
        }
        8 => {
            // the verifier holds another tree: foreign, or edited, or without the selected leaf
            let mut other = set.clone();
            match s.choose("other tree", 3) {
                0 => other = fset.to_vec(),
                1 => {
                    other[idx[t]] = any_point(&mut r);
                }
                _ => {
                    let p = any_point(&mut r);
                    other[idx[t]] = p;
                    other.push(any_point(&mut r));
                    other.truncate(L.pow(h as u32));
                }
            }
            own = Tree::<Y, L, M>::from_set(&other, prm, Some(h));
            accept = other;
        }
        9 => {
            // published commitments of different levels exchanged or replaced, and a foreign leaf
            st.splice(k, t, &foreign);
            st.publish(prm);
            let (pe, po): (Vec<Ev<Y>>, Vec<Od<Y>>) = (honest.odd.iter().map(|x| x.published[0]).collect(), honest.even.iter().map(|x| x.published[0]).collect());
            let (ne, no) = (honest.odd.len() - 1, honest.even.len());
            let which = s.choose("which side honest", 3);
            let f = move |e: &mut Vec<Ev<Y>>, o: &mut Vec<Od<Y>>| {
                if which != 1 && e.len() == ne {
                    e.copy_from_slice(&pe[..ne]);
                }
                if which != 0 && o.len() == no {
                    o.copy_from_slice(&po[..no]);
                }
                if which == 2 {
                    e.reverse();
                    o.reverse();
                }
            };
            let g = f.clone();
            swap_after = Some(Box::new(move |p| f(&mut p.even_commitments, &mut p.odd_commitments)));
            swap_after_m = Some(Box::new(move |p| g(&mut p.even_commitments, &mut p.odd_commitments)));
        }
        10 => {
            for t in 0..m {
                st.splice(0, t, &foreign);
            }
            st.publish(prm);
            let mut x = st.clone();
            for t in 0..m {
                x.foreign_kids(0, t, &foreign);
            }
            if s.choose("own root", 2) == 0 {
                // an entirely honest proof over the foreign tree
                st = x;
            } else {
                lying_levels = Some(x);
            }
        }
        12 => {
            // two members whose points are not on the curve, with the sum of a foreign branch
            let (e, i) = st.pos(k);
            let ok = if m < 2 || k + 1 == h {
                let y: u64 = r.next();
                if e {
                    st.even[i].cpd[t].y = Y::F0::from(y);
                } else {
                    st.odd[i].cpd[t].y = Y::F1::from(y);
                }
                true
            } else {
                let a = s.choose("pair", m as u64 - 1) as usize;
                let keep = st.clone();
                st.splice(k, t, &foreign);
                if e {
                    let sum = st.even[i].cpd.iter().map(|x| x.into_group()).sum::<<Od<Y> as AffineRepr>::Group>().into_affine();
                    st.even[i].cpd = keep.even[i].cpd.clone();
                    off_curve(&mut st.even[i].cpd, a, sum)
                } else {
                    let sum = st.odd[i].cpd.iter().map(|x| x.into_group()).sum::<<Ev<Y> as AffineRepr>::Group>().into_affine();
                    st.odd[i].cpd = keep.odd[i].cpd.clone();
                    off_curve(&mut st.odd[i].cpd, a, sum)
                }
            };
            if !ok {
                s.count("no such points off the curve");
                return Ok(());
            }
            st.publish(prm);
        }
        _ => {
            // members exchanged between chunks, or one foreign member compensated by another
            if m < 2 {
                st.splice(k, 0, &foreign);
                st.publish(prm);
            } else {
                let u = (t + 1) % m;
                let (e, i) = st.pos(k);
                st.splice(k, t, &foreign);
                // the other member's child makes the sum the honest one
                if e {
                    let d = honest.even[i].cpd[t] - st.even[i].cpd[t];
                    st.even[i].cpd[u] = (honest.even[i].cpd[u] + d).into_affine();
                } else {
                    let d = honest.odd[i].cpd[t] - st.odd[i].cpd[t];
                    st.odd[i].cpd[u] = (honest.odd[i].cpd[u] + d).into_affine();
                }
                st.publish(prm);
            }
        }
    }
    if kind == 3 && s.choose("planner", 6) == 1 || (kind == 1 && s.choose("planner", 12) == 1) {
        lie.plan = if slow::<Y>() { 0 } else { 60 };
    }
    lie.levels = lying_levels.as_ref();
    lie.blend = s.choose("blend", 3) > 0;
    lie.own = s.choose("prover", if slow::<Y>() { 40 } else { 4 }) == 1;
    s.note(format!("{} L={L} M={M} batched {batched} leaves {} height {h}: {} at level {k} member {t}", Y::NAME, sh.n, names[kind as usize]));
    s.nontrivial = true;
    s.state(hash_str(&format!("{} {L} {M} {batched} {h} {kind} {k} {t}", Y::NAME)));
    let env = s.env("attacker");
    let made = s.party("attacker", &env, || {
        // what the verifier will state for the published path
        let vs = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let mut ev: EvVerifier<Y> = Verifier::new(Transcript::new(label));
            let mut ov: OdVerifier<Y> = Verifier::new(Transcript::new(label));
            if batched {
                let mut p = st.mpath::<L, M>();
                if let Some(f) = &swap_after_m {
                    f(&mut p);
                }
                own.batched_select_and_rerandomize_verifier_gadget(&mut ev, &mut ov, p, prm);
            } else {
                let mut p = st.path::<L>();
                if let Some(f) = &swap_after {
                    f(&mut p);
                }
                own.select_and_rerandomize_verifier_gadget(&mut ev, &mut ov, p, prm);
            }
            (ev, ov)
        }))
        .ok();
        forge::<Y, M>(&st, &lie, label, prm, vs)
    });
    let ((pe, po), found) = match made.res {
        Ok(Ok(x)) => x,
        // the attacker's own code refuses to make this one
        _ => {
            s.count(&format!("attack not possible: {}", names[kind as usize]));
            return Ok(());
        }
    };
    if kind > 0 {
        s.fault(names[kind as usize]);
        if found > 0 {
            s.fault("planner found an assignment");
        }
    }
    let batch = s.choose("batch", 2) == 1;
    let env = s.env("verifier");
    let got: Result<Vec<Ev<Y>>, String> = if batched {
        let mut p = st.mpath::<L, M>();
        if let Some(f) = &swap_after_m {
            f(&mut p);
        }
        let sel = p.selected_commitments.to_vec();
        let o = s.party("verifier", &env, || mverify::<Y, L, M>(&own, &[p], &pe, &po, label, batch, prm));
        o.res.and_then(|x| x).map(|_| sel)
    } else {
        let mut p = st.path::<L>();
        if let Some(f) = &swap_after {
            f(&mut p);
        }
        let sel = vec![p.selected_commitment];
        let o = s.party("verifier", &env, || verify::<Y, L, M>(&own, &[p], &pe, &po, label, batch, prm));
        o.res.and_then(|x| x).map(|_| sel)
    };
    match got {
        Err(_) => {
            s.count(if kind == 0 { "control refused" } else { "refused" });
            Ok(())
        }
        Ok(sel) => {
            let rs = &st.odd.last().unwrap().r;
            let good = sel.len() == rs.len() && sel.iter().zip(rs).all(|(c, r)| legit::<Y>(c, r, &accept, prm));
            s.count(&if kind == 0 { "control accepted".to_string() } else { format!("accepted, inside the tree: {}", names[kind as usize]) });
            ensure!(
                good,
                format!("accepted-{kind}"),
                "{} L={L} M={M} {}, height {h}, {} leaves: a commitment outside the tree is accepted: {} at level {k}, member {t}, path length {path_len:+}",
                Y::NAME,
                if batched { "batched" } else { "plain" },
                sh.n,
                names[kind as usize]
            );
            Ok(())
        }
    }
}
