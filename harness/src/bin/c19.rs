//! C19: parallel and serial builds behave identically, whatever the number and scheduling of threads.
//!
//! The same corpus is run by two binaries made from this file, with and without the `parallel` feature, with
//! scripted randomness; every observable is printed as a digest and compared. The parallel binary also runs
//! every case under every schedule of its fork-join tasks (order and thread) within a bound, and on real
//! pools of several sizes.
use ark_ec::short_weierstrass::{Affine, Projective, SWCurveConfig};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{One, PrimeField};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use bulletproofs::r1cs::*;
use bulletproofs::{BulletproofGens, PedersenGens};
use ctmc::circuit::{self, gates, nvec, Op, Op2, Prog};
use ctmc::coins::*;
use ctmc::curves::{m126, m60, m61};
use ctmc::rel::{self, Mem, Multi};
use ctmc::stmts::{all_lc, catalogue};
use ctmc::{guarded, Ctx};
use rand::{rngs::StdRng, SeedableRng};
use relations::coin::*;
use relations::curve_tree::*;
use std::collections::BTreeMap;
use std::io::Write;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;

type Pa = ark_pallas::PallasConfig;
type Ve = ark_vesta::VestaConfig;
const SEED: u64 = 0xc19;
const LABEL: &[u8] = b"c19";

fn verdict<T, E>(r: Result<Result<T, E>, String>) -> Vec<u8> {
    if matches!(r, Ok(Ok(_))) { b"accepted".to_vec() } else { b"refused".to_vec() }
}

type Out = Vec<(String, Vec<u8>)>;
fn put(o: &mut Out, name: impl Into<String>, bytes: Vec<u8>) {
    o.push((name.into(), bytes));
}

/// Programs beyond the catalogue: large enough for the thresholds of multi-scalar multiplications.
fn programs() -> Vec<(String, Prog)> {
    let mut v: Vec<(String, Prog)> = catalogue().into_iter().map(|(n, p)| (n.to_string(), p)).collect();
    for n in [33usize, 100, 300] {
        let mut p: Prog = vec![Op::Commit(9), Op::CommitVec((0..n as i64 / 3).collect())];
        for i in 0..n as i64 {
            p.push(Op::AllocMul(i + 2, 3 - i));
        }
        let k = circuit::nvars(&p);
        p.push(Op::Constrain(all_lc(k, 1, 5), 0));
        if n == 100 {
            p.push(Op::Phase2((0..40).map(|i| Op2::AllocMulC(i, i + 1)).collect()));
        }
        v.push((format!("large{}", n), p));
    }
    // unsatisfied
    v.push(("wrong".into(), vec![Op::Commit(3), Op::AllocMul(3, 4), Op::Constrain(all_lc(4, 1, 5), 1)]));
    v.push(("wrong2".into(), vec![Op::AllocMul(3, 4), Op::Phase2(vec![Op2::ConstrainC(all_lc(3, 1, 5), 1)])]));
    v
}

fn circ<P: SWCurveConfig + Copy>(prog: &Prog, short: usize) -> Out
where
    P::BaseField: PrimeField,
{
    let mut o = vec![];
    let pc = PedersenGens::<Affine<P>>::default();
    let (a, b) = gates(prog);
    let need = (a + b).next_power_of_two().max(1);
    let bp = BulletproofGens::<Affine<P>>::new(if short > 0 { (need - 1).max(a) } else { need }, 1);
    let r = guarded(|| circuit::prove(prog, &pc, &bp, LABEL));
    match r {
        Ok(Ok(p)) => {
            put(&mut o, "commitments", ser(&p.comms));
            put(&mut o, "proof", ser(&p.proof));
            put(&mut o, "verdict", verdict(guarded(|| circuit::verify(prog, &p.comms, &p.proof, &pc, &bp, LABEL))));
            // every byte that matters, one at a time
            let bytes = ser(&p.proof);
            let step = (bytes.len() / 40).max(1);
            let mut all = vec![];
            for i in (0..bytes.len()).step_by(step) {
                let mut c = bytes.clone();
                c[i] ^= 1;
                let q = guarded(|| R1CSProof::<Affine<P>>::deserialize_compressed(c.as_slice()));
                match q {
                    Ok(Ok(q)) => all.extend(verdict(guarded(|| circuit::verify(prog, &p.comms, &q, &pc, &bp, LABEL)))),
                    _ => all.extend(b"undecodable"),
                }
            }
            put(&mut o, "verdicts on altered proofs", all);
            for k in 0..p.comms.len().min(3) {
                let mut c = p.comms.clone();
                c[k] = (c[k] + P::GENERATOR).into_affine();
                put(&mut o, format!("verdict with commitment {} replaced", k), verdict(guarded(|| circuit::verify(prog, &c, &p.proof, &pc, &bp, LABEL))));
            }
            // batches: good with good, good with bad
            let tup = |bad: bool| {
                let mut q = p.comms.clone();
                if bad && !q.is_empty() {
                    q[0] = (q[0] + P::GENERATOR).into_affine();
                }
                circuit::verifier(prog, &q, &bp, LABEL).unwrap().verification_scalars_and_points(&p.proof).unwrap()
            };
            if nvec(prog) < 18 {
                for pat in [vec![false], vec![false, false, false], vec![false, true], vec![true, false, true]] {
                    put(&mut o, format!("batch {:?}", pat), verdict(guarded(|| batch_verify(pat.iter().map(|b| tup(*b)).collect(), &pc, &bp))));
                }
            }
        }
        Ok(Err(e)) => put(&mut o, "proof", format!("{:?}", e).into_bytes()),
        Err(_) => put(&mut o, "proof", b"panic".to_vec()),
    }
    o
}

fn node_bytes<const L: usize, const M: usize, F: PrimeField, P0: SWCurveConfig<BaseField = F> + Copy, P1: SWCurveConfig<BaseField = P0::ScalarField, ScalarField = F> + Copy>(n: &CurveTreeNode<L, M, P0, P1>, out: &mut Vec<u8>) {
    match n {
        CurveTreeNode::Leaf(l) => out.extend(ser(l)),
        CurveTreeNode::Branch { parent_commitment, children, height, elements } => {
            for p in parent_commitment.iter() {
                out.extend(ser(p));
            }
            out.extend([*height as u8, *elements as u8]);
            for c in children.iter() {
                match c {
                    Some(c) => {
                        out.push(1);
                        node_bytes2(c, out)
                    }
                    None => out.push(0),
                }
            }
        }
    }
}
fn node_bytes2<const L: usize, const M: usize, F: PrimeField, P0: SWCurveConfig<BaseField = F> + Copy, P1: SWCurveConfig<BaseField = P0::ScalarField, ScalarField = F> + Copy>(n: &CurveTreeNode<L, M, P1, P0>, out: &mut Vec<u8>) {
    match n {
        CurveTreeNode::Leaf(l) => out.extend(ser(l)),
        CurveTreeNode::Branch { parent_commitment, children, height, elements } => {
            for p in parent_commitment.iter() {
                out.extend(ser(p));
            }
            out.extend([*height as u8, *elements as u8]);
            for c in children.iter() {
                match c {
                    Some(c) => {
                        out.push(1);
                        node_bytes(c, out)
                    }
                    None => out.push(0),
                }
            }
        }
    }
}

macro_rules! fx {
    ($(#[$m:meta])* fn $name:ident<$(const $c:ident),*>($($a:ident: $t:ty),* $(,)?) $(-> $r:ty)? $b:block) => {
        $(#[$m])*
        #[allow(clippy::too_many_arguments)]
        fn $name<$(const $c: usize,)* F0: PrimeField, F1: PrimeField, P0: SWCurveConfig<BaseField = F1, ScalarField = F0> + Copy + Send + Sync, P1: SWCurveConfig<BaseField = F0, ScalarField = F1> + Copy + Send + Sync>($($a: $t),*) $(-> $r)? $b
    };
}

fx! {
    fn params_case<>(even: usize, odd: usize, _w: &SelRerandParameters<P0, P1>) -> Out {
        let mut o = vec![];
        let pr = SelRerandParameters::<P0, P1>::new(even, odd);
        for (name, pc, bp, d, t) in [("even", ser(&pr.even_parameters.pc_gens.B), ser(&pr.even_parameters.pc_gens.B_blinding), ser(&pr.even_parameters.delta), ser(&pr.even_parameters.bp_gens.share(0).G(even).copied().collect::<Vec<_>>())), ("odd", ser(&pr.odd_parameters.pc_gens.B), ser(&pr.odd_parameters.pc_gens.B_blinding), ser(&pr.odd_parameters.delta), ser(&pr.odd_parameters.bp_gens.share(0).G(odd).copied().collect::<Vec<_>>()))] {
            put(&mut o, name, [pc, bp, d, t].concat());
        }
        o
    }
}
fx! {
    fn tree_case<const L, const M>(pr: &SelRerandParameters<P0, P1>, n: usize, h: usize) -> Out {
        let mut o = vec![];
        let t = guarded(|| CurveTree::<L, M, P0, P1>::from_set(&rel::leaves::<P0>(n, 3), pr, Some(h)));
        let mut b = vec![];
        match &t {
            Ok(CurveTree::Even(x)) => node_bytes(x, &mut b),
            Ok(CurveTree::Odd(x)) => node_bytes2(x, &mut b),
            Err(_) => b.extend(b"refused"),
        }
        put(&mut o, "tree", b);
        o
    }
}
fx! {
    fn mem_case<const L>(pr: &SelRerandParameters<P0, P1>, n: usize, h: usize, i: usize) -> Out {
        let mut o = vec![];
        let t = CurveTree::<L, 1, P0, P1>::from_set(&rel::leaves::<P0>(n, 3), pr, Some(h));
        let other = CurveTree::<L, 1, P0, P1>::from_set(&rel::leaves::<P0>(n, 4), pr, Some(h));
        let r = guarded(|| rel::prove_mem(&t, i, 0, pr, LABEL, &mut StdRng::seed_from_u64(7)));
        let m: Mem<L, P0, P1> = match r {
            Ok(Ok(m)) => m,
            Ok(Err(e)) => { put(&mut o, "proof", format!("{:?}", e).into_bytes()); return o }
            Err(_) => { put(&mut o, "proof", b"panic".to_vec()); return o }
        };
        put(&mut o, "path", ser(&m.path));
        put(&mut o, "blinding", ser(&m.blinding));
        put(&mut o, "even proof", ser(&m.even));
        put(&mut o, "odd proof", ser(&m.odd));
        put(&mut o, "verdict", verdict(guarded(|| rel::verify_mem(&t, &m, pr, LABEL))));
        put(&mut o, "verdict pruned", verdict(guarded(|| rel::verify_mem(&rel::prune(&t), &m, pr, LABEL))));
        put(&mut o, "verdict in another tree", verdict(guarded(|| rel::verify_mem(&other, &m, pr, LABEL))));
        put(&mut o, "verdict for another domain", verdict(guarded(|| rel::verify_mem(&t, &m, pr, b"other"))));
        if let Ok(Ok((e, d, leaf))) = guarded(|| rel::mem_tuples(&t, &m.path, &m.even, &m.odd, pr, LABEL)) {
            put(&mut o, "leaf", ser(&leaf));
            put(&mut o, "even batch", verdict(guarded(|| batch_verify(vec![e], &pr.even_parameters.pc_gens, &pr.even_parameters.bp_gens))));
            put(&mut o, "odd batch", verdict(guarded(|| batch_verify(vec![d], &pr.odd_parameters.pc_gens, &pr.odd_parameters.bp_gens))));
        }
        let g = P0::GENERATOR;
        let mut q = m.clone();
        q.path.selected_commitment = (q.path.selected_commitment + g).into_affine();
        put(&mut o, "verdict on another leaf", verdict(guarded(|| rel::verify_mem(&t, &q, pr, LABEL))));
        for k in 0..m.path.even_commitments.len() {
            let mut q = m.clone();
            q.path.even_commitments[k] = (q.path.even_commitments[k] + g).into_affine();
            put(&mut o, format!("verdict with even commitment {} replaced", k), verdict(guarded(|| rel::verify_mem(&t, &q, pr, LABEL))));
        }
        for k in 0..m.path.odd_commitments.len() {
            let mut q = m.clone();
            q.path.odd_commitments[k] = (q.path.odd_commitments[k] + P1::GENERATOR).into_affine();
            put(&mut o, format!("verdict with odd commitment {} replaced", k), verdict(guarded(|| rel::verify_mem(&t, &q, pr, LABEL))));
        }
        o
    }
}
fx! {
    fn multi_case<const L, const M>(pr: &SelRerandParameters<P0, P1>, n: usize, h: usize, idx: [usize; M]) -> Out {
        let mut o = vec![];
        let t = CurveTree::<L, M, P0, P1>::from_set(&rel::leaves::<P0>(n, 3), pr, Some(h));
        let other = CurveTree::<L, M, P0, P1>::from_set(&rel::leaves::<P0>(n, 4), pr, Some(h));
        let r = guarded(|| rel::prove_multi(&t, idx, pr, LABEL, &mut StdRng::seed_from_u64(7)));
        let m: Multi<L, M, P0, P1> = match r {
            Ok(Ok(m)) => m,
            Ok(Err(e)) => { put(&mut o, "proof", format!("{:?}", e).into_bytes()); return o }
            Err(_) => { put(&mut o, "proof", b"panic".to_vec()); return o }
        };
        put(&mut o, "path", ser(&m.path));
        put(&mut o, "blindings", ser(&m.blindings.to_vec()));
        put(&mut o, "even proof", ser(&m.even));
        put(&mut o, "odd proof", ser(&m.odd));
        put(&mut o, "verdict", verdict(guarded(|| rel::verify_multi(&t, &m, pr, LABEL))));
        put(&mut o, "verdict in another tree", verdict(guarded(|| rel::verify_multi(&other, &m, pr, LABEL))));
        if let Ok(Ok(l)) = guarded(|| rel::verify_multi(&t, &m, pr, LABEL)) {
            put(&mut o, "leaves", ser(&l.to_vec()));
        }
        for k in 0..M {
            let mut q = m.clone();
            q.path.selected_commitments[k] = (q.path.selected_commitments[k] + P0::GENERATOR).into_affine();
            put(&mut o, format!("verdict on another leaf {}", k), verdict(guarded(|| rel::verify_multi(&t, &q, pr, LABEL))));
        }
        o
    }
}

/// Amounts and positions of a transaction.
#[derive(Clone, Debug)]
struct TxCase {
    n: usize,
    h: usize,
    pos: (usize, usize),
    inputs: (u64, u64),
    outs: (u64, u64),
    /// also altered transactions
    altered: bool,
}
fn keys<C: CurveGroup, P0: SWCurveConfig<BaseField = F1, ScalarField = F0> + Copy + Send + Sync, P1: SWCurveConfig<BaseField = F0, ScalarField = F1> + Copy + Send + Sync, F0: PrimeField, F1: PrimeField>(w: &World<P0, P1, C>, seed: u64) -> Keys<C> {
    use ark_crypto_primitives::signature::{schnorr::Schnorr, SignatureScheme};
    let (pk, sk) = Schnorr::<C, blake2::Blake2s256>::keygen(&w.sig, &mut StdRng::seed_from_u64(seed)).unwrap();
    Keys { pk, sk }
}
fn world<'a, C: CurveGroup, P0: SWCurveConfig<BaseField = F1, ScalarField = F0> + Copy + Send + Sync, P1: SWCurveConfig<BaseField = F0, ScalarField = F1> + Copy + Send + Sync, F0: PrimeField, F1: PrimeField>(pr: &'a SelRerandParameters<P0, P1>) -> World<'a, P0, P1, C> {
    use ark_crypto_primitives::signature::{schnorr::Schnorr, SignatureScheme};
    World { pr, sig: Schnorr::<C, blake2::Blake2s256>::setup(&mut StdRng::seed_from_u64(1)).unwrap() }
}
fn tx_case<const L: usize, C: CurveGroup, P0: SWCurveConfig<BaseField = F1, ScalarField = F0> + Copy + Send + Sync, P1: SWCurveConfig<BaseField = F0, ScalarField = F1> + Copy + Send + Sync, F0: PrimeField, F1: PrimeField>(w: &World<P0, P1, C>, c: &TxCase) -> Out {
    let mut o = vec![];
    let ks = [keys(w, 1), keys(w, 2), keys(w, 3)];
    let mut set = rel::leaves::<P0>(c.n, 5);
    let (ca, xa) = w.coin_with(c.inputs.0, &ks[0].pk, C::ScalarField::from(51u64), F0::from(61u64));
    let (cb, xb) = w.coin_with(c.inputs.1, &ks[1].pk, C::ScalarField::from(52u64), F0::from(62u64));
    set[c.pos.0] = xa;
    set[c.pos.1] = xb;
    let t = CurveTree::<L, 1, P0, P1>::from_set(&set, w.pr, Some(c.h));
    let s = [w.spending(c.pos.0, &ca, &ks[0]), w.spending(c.pos.1, &cb, &ks[1])];
    let tx = match w.pour(&t, [&s[0], &s[1]], [(c.outs.0, ks[1].pk), (c.outs.1, ks[2].pk)], &mut StdRng::seed_from_u64(8)) {
        Ok(tx) => tx,
        Err(_) => {
            put(&mut o, "transaction", b"refused to prove".to_vec());
            return o;
        }
    };
    put(&mut o, "transaction", ser(&tx));
    put(&mut o, "verdict", verdict(Ok(w.verify(&t, &tx, DOMAIN))));
    if !c.altered {
        return o;
    }
    let other = CurveTree::<L, 1, P0, P1>::from_set(&rel::leaves::<P0>(c.n, 6), w.pr, Some(c.h));
    put(&mut o, "verdict in another tree", verdict(Ok(w.verify(&other, &tx, DOMAIN))));
    put(&mut o, "verdict for another domain", verdict(Ok(w.verify(&t, &tx, b"other"))));
    let open = w.open::<L>(&tx);
    // each signature wrong, the proofs right
    for k in 0..2 {
        for part in 0..2 {
            let mut x = tx.clone();
            let one = C::ScalarField::one();
            match (k, part) {
                (0, 0) => x.signature_prover_response_0 += one,
                (0, _) => x.signature_verifier_challenge_0 += one,
                (_, 0) => x.signature_prover_response_1 += one,
                (_, _) => x.signature_verifier_challenge_1 += one,
            }
            put(&mut o, format!("verdict with signature {} part {} altered", k, part), verdict(Ok(w.verify(&t, &x, DOMAIN))));
        }
    }
    // each part of the pour altered and signed anew
    let mut variants: Vec<(String, Pour<L, P0, P1, C>)> = vec![];
    let again = || Pour::<L, P0, P1, C>::deserialize_compressed(tx.pour_bytes.as_slice()).unwrap();
    let mut v = |name: &str, f: &mut dyn FnMut(&mut Pour<L, P0, P1, C>)| {
        let mut p = again();
        f(&mut p);
        variants.push((name.into(), p));
    };
    let g = P0::GENERATOR;
    let bump = |x: &mut Affine<P0>| *x = (*x + g).into_affine();
    v("minted 0", &mut |p| bump(&mut p.minted_coin_commitment_0));
    v("minted 1", &mut |p| bump(&mut p.minted_coin_commitment_1));
    v("leaf 0", &mut |p| bump(&mut p.randomized_path_0.selected_commitment));
    v("leaf 1", &mut |p| bump(&mut p.randomized_path_1.selected_commitment));
    v("paths exchanged", &mut |p| std::mem::swap(&mut p.randomized_path_0, &mut p.randomized_path_1));
    v("keys exchanged", &mut |p| std::mem::swap(&mut p.pk0, &mut p.pk1));
    v("outputs exchanged", &mut |p| std::mem::swap(&mut p.minted_coin_commitment_0, &mut p.minted_coin_commitment_1));
    if !open.pour.randomized_path_0.odd_commitments.is_empty() {
        v("odd 0", &mut |p| p.randomized_path_0.odd_commitments[0] = (p.randomized_path_0.odd_commitments[0] + P1::GENERATOR).into_affine());
        v("odd 1", &mut |p| p.randomized_path_1.odd_commitments[0] = (p.randomized_path_1.odd_commitments[0] + P1::GENERATOR).into_affine());
    }
    for (name, p) in variants {
        let bytes = ser(&p);
        let swap = name == "keys exchanged";
        let sigs = [0, 1].map(|k: usize| {
            let k = if swap { 1 - k } else { k };
            w.sign(&bytes, &ks[k].sk, Some([ca.pk_randomness, cb.pk_randomness][k]))
        });
        let x = w.signed(bytes, &sigs);
        put(&mut o, format!("verdict with {} altered", name), verdict(Ok(w.verify(&t, &x, DOMAIN))));
    }
    o
}

fn mint_case<C: CurveGroup, P0: SWCurveConfig<BaseField = F1, ScalarField = F0> + Copy + Send + Sync, P1: SWCurveConfig<BaseField = F0, ScalarField = F1> + Copy + Send + Sync, F0: PrimeField, F1: PrimeField>(w: &World<P0, P1, C>, value: u64) -> Out {
    let mut o = vec![];
    let k = keys(w, 1);
    let (mut e, _) = w.provers();
    let r = guarded(|| {
        let (coin, c, v) = Coin::<P0, C>::mint(value, &k.pk, &w.sig, &w.pr.even_parameters, &mut StdRng::seed_from_u64(9), &mut e);
        e.constrain(v - F0::from(value));
        (coin, c, e.prove(&w.pr.even_parameters.bp_gens).unwrap())
    });
    match r {
        Ok((coin, c, p)) => {
            put(&mut o, "commitment", ser(&c));
            put(&mut o, "coin", [ser(&coin.tag), ser(&coin.blinding), ser(&coin.pk_randomness)].concat());
            put(&mut o, "proof", ser(&p));
            for (name, amount, cc) in [("verdict", value, c), ("verdict for another amount", value ^ 1, c), ("verdict on another commitment", value, (c + P0::GENERATOR).into_affine())] {
                let r = guarded(|| {
                    let mut v = Verifier::new(merlin::Transcript::new(DOMAIN));
                    let x = verify_mint(&mut v, cc);
                    v.constrain(x - F0::from(amount));
                    v.verify(&p, &w.pr.even_parameters.pc_gens, &w.pr.even_parameters.bp_gens)
                });
                put(&mut o, name, verdict(r));
            }
        }
        Err(_) => put(&mut o, "mint", b"panic".to_vec()),
    }
    o
}

type Thunk<'a> = Box<dyn Fn() -> Out + Send + Sync + 'a>;
struct Case<'a> {
    name: String,
    run: Thunk<'a>,
    /// how many decisions of a schedule may deviate from the default at the same time
    deviations: usize,
    /// this case explores the part-th share of the deviating schedules
    part: (usize, usize),
}

struct Fixed {
    p126: SelRerandParameters<m126::Even, m126::Odd>,
    ppas: SelRerandParameters<Pa, Ve>,
}

fn corpus(f: &'static Fixed, thorough: bool) -> Vec<Case<'static>> {
    let mut v: Vec<Case> = vec![];
    let mut add = |name: String, deviations: usize, run: Thunk<'static>| v.push(Case { name, run, deviations, part: (0, 1) });
    let (q, all) = (!thorough, usize::MAX);
    // the widest spaces first
    let w: &'static World<_, _, Projective<m126::Even>> = Box::leak(Box::new(world(&f.p126)));
    let mut txs = vec![TxCase { n: 2, h: 1, pos: (0, 1), inputs: (5, 7), outs: (4, 8), altered: false }, TxCase { n: 3, h: 3, pos: (2, 0), inputs: (u64::MAX, 0), outs: (1, u64::MAX - 1), altered: false }];
    for (k, c) in txs.drain(..).enumerate() {
        add(format!("pour m126 L=2 {:?}", c), if q { 2 - k } else { 4 }, Box::new(move || tx_case::<2, _, _, _, _, _>(w, &c)));
    }
    let c = TxCase { n: 3, h: 1, pos: (1, 2), inputs: (9, 8), outs: (17, 0), altered: false };
    add(format!("pour m126 L=3 {:?}", c), if q { 1 } else { 3 }, Box::new(move || tx_case::<3, _, _, _, _, _>(w, &c)));
    // values that do not add up: refused by both, or proven by neither
    let c = TxCase { n: 2, h: 2, pos: (0, 1), inputs: (5, 7), outs: (5, 8), altered: false };
    add(format!("pour m126 L=2 inflating {:?}", c), 1, Box::new(move || tx_case::<2, _, _, _, _, _>(w, &c)));
    let c = TxCase { n: 2, h: 2, pos: (0, 1), inputs: (5, 7), outs: (12, 0), altered: true };
    add(format!("pour m126 L=2 altered {:?}", c), if q { 0 } else { 2 }, Box::new(move || tx_case::<2, _, _, _, _, _>(w, &c)));
    let c = TxCase { n: 2, h: 1, pos: (1, 0), inputs: (50, 70), outs: (1, 119), altered: true };
    add(format!("pour m126 L=2 altered {:?}", c), if q { 0 } else { 1 }, Box::new(move || tx_case::<2, _, _, _, _, _>(w, &c)));
    let wp: &'static World<_, _, Projective<Pa>> = Box::leak(Box::new(world(&f.ppas)));
    let c = TxCase { n: 3, h: 2, pos: (2, 1), inputs: (5, 7), outs: (4, 8), altered: false };
    add(format!("pour pallas L=2 {:?}", c), if q { 0 } else { 2 }, Box::new(move || tx_case::<2, _, _, _, _, _>(wp, &c)));
    for x in [0u64, 1, 77, u64::MAX] {
        add(format!("mint m126 {}", x), all, Box::new(move || mint_case(w, x)));
    }
    // membership
    for h in 1..=if q { 3usize } else { 5 } {
        for n in 1..=if q { 3usize } else { 5 } {
            for i in 0..n {
                if n <= 1 << h && (!q || h < 3 || i == 2) {
                    add(format!("membership m126 L=2 n={} height {} index {}", n, h, i), if q { if n == 2 { 3 } else { 1 } } else { all }, Box::new(move || mem_case::<2, _, _, _, _>(&f.p126, n, h, i)));
                }
            }
        }
    }
    for i in 0..5 {
        add(format!("membership m126 L=3 n=5 height 2 index {}", i), if q { 1 } else { 4 }, Box::new(move || mem_case::<3, _, _, _, _>(&f.p126, 5, 2, i)));
    }
    add("membership pallas L=4 n=6 height 2 index 5".into(), if q { 1 } else { 3 }, Box::new(move || mem_case::<4, _, _, _, _>(&f.ppas, 6, 2, 5)));
    add("membership m126 L=64 n=70 height 2 index 69".into(), 1, Box::new(move || mem_case::<64, _, _, _, _>(&f.p126, 70, 2, 69)));
    // out of range
    add("membership m126 L=2 n=3 height 2 index 3".into(), 1, Box::new(move || mem_case::<2, _, _, _, _>(&f.p126, 3, 2, 3)));
    for h in 1..=if q { 2usize } else { 4 } {
        for a in 0..3usize {
            for b in 0..3usize {
                if h > 1 {
                    add(format!("batch m126 L=2 M=2 n=3 height {} indices {} {}", h, a, b), if q { if a > b { 2 } else { 1 } } else { all }, Box::new(move || multi_case::<2, 2, _, _, _, _>(&f.p126, 3, h, [a, b])));
                }
            }
        }
        add(format!("batch m126 L=2 M=1 n=2 height {}", h), if q { 2 } else { all }, Box::new(move || multi_case::<2, 1, _, _, _, _>(&f.p126, 2, h, [1])));
        add(format!("batch m126 L=4 M=3 n=4 height {}", h), if q { 1 } else { 3 }, Box::new(move || multi_case::<4, 3, _, _, _, _>(&f.p126, 4, h, [3, 0, 2])));
    }
    // trees
    for (n, h) in [(1usize, 1usize), (2, 1), (3, 2), (7, 3), (8, 3), (1, 4), (5, 1)] {
        add(format!("tree L=2 M=1 n={} height {}", n, h), all, Box::new(move || tree_case::<2, 1, _, _, _, _>(&f.p126, n, h)));
        add(format!("tree L=3 M=2 n={} height {}", n, h), all, Box::new(move || tree_case::<3, 2, _, _, _, _>(&f.p126, n, h)));
    }
    for (e, o) in [(1usize, 1usize), (64, 33), (513, 700)] {
        add(format!("parameters {} {}", e, o), all, Box::new(move || params_case(e, o, &f.p126)));
    }
    // circuits
    for (name, p) in programs() {
        let big = name.starts_with("large");
        let p: &'static Prog = Box::leak(Box::new(p));
        let d = if big && q { 1 } else { all };
        if !big {
            add(format!("circuit m60 {}", name), d, Box::new(move || circ::<m60::Even>(p, 0)));
            add(format!("circuit m61 {} too few generators", name), d, Box::new(move || circ::<m61::Odd>(p, 1)));
        }
        add(format!("circuit m126 {}", name), d, Box::new(move || circ::<m126::Even>(p, 0)));
        if name != "large300" || thorough {
            add(format!("circuit pallas {}", name), if big { 0 } else if q { 2 } else { d }, Box::new(move || circ::<Pa>(p, 0)));
        }
    }
    v
}

fn digest(o: &Out) -> Vec<(String, String)> {
    o.iter().map(|(n, b)| (n.clone(), format!("{:016x}{:08x}{}", ctmc::report::hash64(b), b.len(), if b.len() < 24 && b.iter().all(|c| c.is_ascii_graphic() || *c == b' ') { format!(" {}", String::from_utf8_lossy(b)) } else { String::new() }))).collect()
}

/// All schedules with at most `max` deviating decisions, depth first. `f` returns the arities met.
fn schedules(max: usize, part: (usize, usize), mut f: impl FnMut(&[usize]) -> Vec<usize>) -> u64 {
    let mut stack: Vec<Vec<usize>> = vec![vec![]];
    let mut n = 0;
    while let Some(prefix) = stack.pop() {
        n += 1;
        let ar = f(&prefix);
        if prefix.iter().filter(|c| **c != 0).count() >= max {
            continue;
        }
        // deviate at a later decision than the last one fixed
        for k in prefix.len()..ar.len() {
            if prefix.is_empty() && k % part.1 != part.0 {
                continue;
            }
            for alt in 1..ar[k] {
                let mut p = prefix.clone();
                p.resize(k, 0);
                p.push(alt);
                stack.push(p);
            }
        }
    }
    n
}

/// The worker: prints one line per observable.
fn child(mode: &str, thorough: bool) {
    ctmc::report::quiet_panics();
    let f: &'static Fixed = Box::leak(Box::new(Fixed { p126: SelRerandParameters::new(4096, 4096), ppas: SelRerandParameters::new(4096, 4096) }));
    rand::probe::handles(SEED);
    let mut cases = corpus(f, thorough);
    if mode == "schedules" {
        // shares of the widest spaces
        cases = cases
            .into_iter()
            .flat_map(|c| {
                let n = if c.deviations > 1 && (c.name.starts_with("pour") || c.name.starts_with("membership") || c.name.starts_with("batch")) { 8 } else { 1 };
                let run: &'static Thunk = Box::leak(Box::new(c.run));
                (0..n).map(move |k| Case { name: c.name.clone(), run: Box::new(move || run()), deviations: c.deviations, part: (k, n) })
            })
            .collect();
    }
    let next = AtomicUsize::new(0);
    let out = Mutex::new(std::io::stdout());
    let emit = |lines: Vec<String>| {
        let mut o = out.lock().unwrap();
        for l in lines {
            writeln!(o, "{}", l).unwrap();
        }
        o.flush().unwrap();
    };
    let print = |c: &Case, how: &str, o: &Out| emit(digest(o).into_iter().map(|(n, d)| format!("{}\t{}\t{}\t{}", c.name, n, how, d)).collect());
    if let Some(k) = mode.strip_prefix("pool") {
        // a real pool; cases one after the other
        let pool = rayon::ThreadPoolBuilder::new().num_threads(k.parse().unwrap()).stack_size(64 << 20).build().unwrap();
        for c in &cases {
            let o = pool.install(|| (c.run)());
            print(c, mode, &o);
        }
        return;
    }
    let times = std::env::var("CT_TIMES").is_ok();
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8);
    std::thread::scope(|s| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || {
                    let one = rayon::ThreadPoolBuilder::new().num_threads(1).stack_size(64 << 20).build().unwrap();
                    loop {
                        let i = next.fetch_add(1, SeqCst);
                        if i >= cases.len() {
                            return;
                        }
                        let c = &cases[i];
                        if mode == "plain" {
                            let o = one.install(|| (c.run)());
                            print(c, "plain", &o);
                            continue;
                        }
                        // every schedule
                        let began = std::time::Instant::now();
                        let mut first: Option<Vec<(String, String)>> = None;
                        let (mut decisions, mut bad) = (0, 0);
                        let n = schedules(c.deviations, c.part, |choices| {
                            let (o, ar) = one.install(|| {
                                rayon::probe::start(choices.to_vec());
                                let o = (c.run)();
                                (o, rayon::probe::stop())
                            });
                            decisions += ar.len();
                            let d = digest(&o);
                            match &first {
                                None => {
                                    print(c, "schedule []", &o);
                                    first = Some(d);
                                }
                                Some(f) if *f != d && bad < 5 => {
                                    bad += 1;
                                    print(c, &format!("schedule {:?}", choices), &o);
                                }
                                _ => {}
                            }
                            ar
                        });
                        if times {
                            eprintln!("{:8.2}s {:6} schedules {:6} decisions {}", began.elapsed().as_secs_f64(), n, decisions, c.name);
                        }
                        emit(vec![format!("#\t{}\t{}\t{}", c.name, n, decisions)]);
                    }
                })
                .unwrap();
        }
    });
}

/// Proofs with real randomness, for the other build to judge.
fn exchange(mode: &str, path: &str) {
    ctmc::report::quiet_panics();
    let pr = SelRerandParameters::<m126::Even, m126::Odd>::new(4096, 4096);
    let w: World<_, _, Projective<m126::Even>> = world(&pr);
    let sizes = [(2usize, 1usize), (3, 2), (4, 3)];
    if mode == "emit" {
        let mut f = std::fs::File::create(path).unwrap();
        let mut line = |kind: &str, args: &[usize], b: Vec<u8>| {
            let hex: String = b.iter().map(|x| format!("{:02x}", x)).collect();
            writeln!(f, "{} {} {}", kind, args.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","), hex).unwrap()
        };
        for (n, h) in sizes {
            let t = CurveTree::<2, 1, _, _>::from_set(&rel::leaves(n, 3), &pr, Some(h));
            for i in 0..n {
                if let Ok(Ok(m)) = guarded(|| rel::prove_mem(&t, i, 0, &pr, LABEL, &mut rand::thread_rng())) {
                    let mut b = ser(&m.path);
                    b.extend(ser(&m.even));
                    b.extend(ser(&m.odd));
                    line("mem", &[n, h], b);
                } else {
                    line("mem", &[n, h], vec![]);
                }
            }
            let t = CurveTree::<2, 2, _, _>::from_set(&rel::leaves(n, 3), &pr, Some(h.max(2)));
            if let Ok(Ok(m)) = guarded(|| rel::prove_multi(&t, [0, n - 1], &pr, LABEL, &mut rand::thread_rng())) {
                let mut b = ser(&m.path.selected_commitments.to_vec());
                b.extend(ser(&m.path.odd_commitments));
                b.extend(ser(&m.path.even_commitments));
                b.extend(ser(&m.even));
                b.extend(ser(&m.odd));
                line("multi", &[n, h.max(2)], b);
            } else {
                line("multi", &[n, h.max(2)], vec![]);
            }
            let (set, cs, ks) = coins(&w, n);
            let t = CurveTree::<2, 1, _, _>::from_set(&set, &pr, Some(h));
            let s = [w.spending(0, &cs[0], &ks[0]), w.spending(1, &cs[1], &ks[1])];
            let tx = w.pour(&t, [&s[0], &s[1]], [(1, ks[0].pk), (10, ks[1].pk)], &mut rand::thread_rng());
            line("tx", &[n, h], tx.map(|t| ser(&t)).unwrap_or_default());
        }
        for (i, (_, p)) in programs().iter().enumerate() {
            let bp = BulletproofGens::new(1024, 1);
            match guarded(|| circuit::prove(p, &pr.even_parameters.pc_gens, &bp, LABEL)) {
                Ok(Ok(x)) => {
                    let mut b = ser(&x.comms);
                    b.extend(ser(&x.proof));
                    line("circ", &[i], b)
                }
                _ => line("circ", &[i], vec![]),
            }
        }
        return;
    }
    for l in std::fs::read_to_string(path).unwrap().lines() {
        let p: Vec<&str> = l.splitn(3, ' ').collect();
        let a: Vec<usize> = p[1].split(',').map(|x| x.parse().unwrap()).collect();
        let b: Vec<u8> = (0..p[2].len() / 2).map(|i| u8::from_str_radix(&p[2][2 * i..2 * i + 2], 16).unwrap()).collect();
        let mut r = b.as_slice();
        let ok = match p[0] {
            "mem" => {
                let t = CurveTree::<2, 1, _, _>::from_set(&rel::leaves(a[0], 3), &pr, Some(a[1]));
                verdict(guarded(|| -> Result<(), R1CSError> {
                    let m = Mem { path: CanonicalDeserialize::deserialize_compressed(&mut r).unwrap(), even: CanonicalDeserialize::deserialize_compressed(&mut r).unwrap(), odd: CanonicalDeserialize::deserialize_compressed(&mut r).unwrap(), blinding: One::one() };
                    rel::verify_mem(&t, &m, &pr, LABEL).map(|_| ())
                }))
            }
            "multi" => {
                let t = CurveTree::<2, 2, _, _>::from_set(&rel::leaves(a[0], 3), &pr, Some(a[1]));
                verdict(guarded(|| -> Result<(), R1CSError> {
                    let sel: Vec<Affine<m126::Even>> = CanonicalDeserialize::deserialize_compressed(&mut r).unwrap();
                    let path = SelectAndRerandomizeMultiPath { selected_commitments: [sel[0], sel[1]], odd_commitments: CanonicalDeserialize::deserialize_compressed(&mut r).unwrap(), even_commitments: CanonicalDeserialize::deserialize_compressed(&mut r).unwrap() };
                    let m = Multi { path, even: CanonicalDeserialize::deserialize_compressed(&mut r).unwrap(), odd: CanonicalDeserialize::deserialize_compressed(&mut r).unwrap(), blindings: [One::one(); 2] };
                    rel::verify_multi(&t, &m, &pr, LABEL).map(|_| ())
                }))
            }
            "tx" => {
                let (set, _, _) = coins(&w, a[0]);
                let t = CurveTree::<2, 1, _, _>::from_set(&set, &pr, Some(a[1]));
                verdict(guarded(|| -> Result<(), String> {
                    let tx = SignedTx::deserialize_compressed(&mut r).unwrap();
                    w.verify(&t, &tx, DOMAIN)
                }))
            }
            _ => {
                let prog = &programs()[a[0]].1;
                let bp = BulletproofGens::new(1024, 1);
                verdict(guarded(|| -> Result<(), R1CSError> {
                    let comms: Vec<Affine<m126::Even>> = CanonicalDeserialize::deserialize_compressed(&mut r).unwrap();
                    let proof = CanonicalDeserialize::deserialize_compressed(&mut r).unwrap();
                    circuit::verify(prog, &comms, &proof, &pr.even_parameters.pc_gens, &bp, LABEL)
                }))
            }
        };
        println!("{} {}\t{}", p[0], p[1], String::from_utf8_lossy(&ok));
    }
}
fn coins<C: CurveGroup, P0: SWCurveConfig<BaseField = F1, ScalarField = F0> + Copy + Send + Sync, P1: SWCurveConfig<BaseField = F0, ScalarField = F1> + Copy + Send + Sync, F0: PrimeField, F1: PrimeField>(w: &World<P0, P1, C>, n: usize) -> (Vec<Affine<P0>>, Vec<Coin<P0, C>>, Vec<Keys<C>>) {
    let ks = vec![keys(w, 1), keys(w, 2)];
    let mut set = rel::leaves::<P0>(n, 5);
    let mut cs = vec![];
    for i in 0..2 {
        let (c, x) = w.coin_with(5 + i as u64, &ks[i].pk, C::ScalarField::from(51 + i as u64), F0::from(61 + i as u64));
        set[i] = x;
        cs.push(c);
    }
    (set, cs, ks)
}

fn output(ctx: &Ctx, exe: &str, args: &[&str], what: &str) -> Option<String> {
    let limit = if ctx.quick { 600 } else { 10800 };
    let child = Command::new("timeout").arg(limit.to_string()).arg(exe).args(args).stdout(Stdio::piped()).stderr(Stdio::inherit()).spawn().expect("start");
    let r = child.wait_with_output().expect("output");
    if !r.status.success() {
        ctx.violation("does-not-finish", format!("{}: {:?}", what, r.status));
        return None;
    }
    Some(String::from_utf8_lossy(&r.stdout).into_owned())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s == "child").unwrap_or(false) {
        return child(&args[2], args[3] == "thorough");
    }
    if args.get(1).map(|s| s == "exchange").unwrap_or(false) {
        return exchange(&args[2], &args[3]);
    }
    let ctx = Ctx::new("C19", "model_checking");
    ctx.note("rule", "two builds of the code (with and without the parallel feature) run the same corpus with scripted randomness; all observables (commitments, trees, parameters, proof bytes, openings, verdicts on correct and altered objects) compared; the parallel build is run under every schedule of its fork-join tasks (order, thread) up to a number of deviating decisions, and on real pools of 1 to 4 threads; proofs made by either build with real randomness are judged by the other");
    ctx.note("assume_tasks", "tasks of a fork-join are explored atomically (they share no mutable memory, which Rust's type system enforces for code without unsafe; atomics and locks shared between tasks would only be explored at task granularity and on real pools)");
    let exe = std::env::current_exe().expect("exe");
    let dir = exe.parent().unwrap().to_path_buf();
    let serial_target = dir.parent().unwrap().join("serial");
    let serial = serial_target.join("release/c19");
    let harness = dir.parent().unwrap().parent().unwrap();
    // rebuild the serial half from the working tree
    let b = Command::new("cargo").args(["build", "--release", "--offline", "--locked", "--no-default-features", "--bin", "c19", "--target-dir"]).arg(&serial_target).current_dir(harness).env("RUSTFLAGS", std::env::var("RUSTFLAGS").unwrap_or("-Awarnings".into())).output().expect("cargo");
    if !b.status.success() {
        ctx.violation("serial-build", format!("the code does not build without the parallel feature: {}", String::from_utf8_lossy(&b.stderr).lines().filter(|l| l.contains("error")).take(5).collect::<Vec<_>>().join(" | ")));
        ctx.finish();
    }
    let tier = if ctx.quick { "quick" } else { "thorough" };
    let (me, other) = (exe.to_str().unwrap().to_string(), serial.to_str().unwrap().to_string());
    let mut reference: BTreeMap<(String, String), String> = BTreeMap::new();
    let mut cases = std::collections::BTreeSet::new();
    if let Some(s) = output(ctx, &other, &["child", "plain", tier], "serial build") {
        for l in s.lines() {
            let p: Vec<&str> = l.split('\t').collect();
            cases.insert(p[0].to_string());
            reference.insert((p[0].into(), p[1].into()), p[3].into());
        }
    }
    let compare = |what: &str, s: String| {
        let mut met = std::collections::BTreeSet::new();
        for l in s.lines() {
            let p: Vec<&str> = l.split('\t').collect();
            if p[0] == "#" {
                let (n, d) = (p[2].parse::<u64>().unwrap(), p[3].parse::<u64>().unwrap());
                ctx.add("schedules", n);
                ctx.add("transitions", d);
                ctx.add("states", n);
                continue;
            }
            let k = (p[0].to_string(), p[1].to_string());
            ctx.eval(Some(&format!("{} {} {}", k.0, k.1, p[2])));
            let r = reference.get(&k);
            let key = if k.1.starts_with("verdict") || k.1.contains("batch") { "verdict" } else { "result" };
            ctx.require(r.map(|x| x.as_str()) == Some(p[3]), key, || format!("{}: {} is {} in the serial build and {} in the parallel build ({}, {})", k.0, k.1, r.cloned().unwrap_or("absent".into()), p[3], what, p[2]));
            met.insert(k);
        }
        for k in reference.keys() {
            if !met.contains(k) {
                ctx.violation("result", format!("{}: {} is present in the serial build only ({})", k.0, k.1, what));
            }
        }
        ctx.add("observables_compared", met.len() as u64);
    };
    for (mode, what) in [("schedules", "scheduled tasks"), ("pool1", "pool of 1"), ("pool2", "pool of 2"), ("pool3", "pool of 3"), ("pool4", "pool of 4")] {
        if ctx.quick && (mode == "pool1" || mode == "pool3") {
            continue;
        }
        if let Some(s) = output(ctx, &me, &["child", mode, tier], what) {
            compare(what, s);
        }
        ctx.sample_cat(mode, || format!("{} cases", cases.len()));
        if std::env::var("CT_TIMES").is_ok() {
            eprintln!("{:.1}s after {}", ctx.elapsed(), mode);
        }
    }
    // proofs with real randomness: both builds must judge the proofs of either alike
    for (name, from) in [("serial", &other), ("parallel", &me)] {
        let f = std::env::temp_dir().join(format!("c19-{}-{}.txt", std::process::id(), name));
        let path = f.to_str().unwrap();
        if output(ctx, from, &["exchange", "emit", path], name).is_some() {
            if let (Some(a), Some(b)) = (output(ctx, &other, &["exchange", "judge", path], name), output(ctx, &me, &["exchange", "judge", path], name)) {
                for (x, y) in a.lines().zip(b.lines()) {
                    ctx.eval(Some(&format!("{} {}", name, x)));
                    ctx.add("exchanged", 1);
                    if x.ends_with("accepted") {
                        ctx.add("exchanged_accepted", 1);
                    }
                    ctx.require(x == y, "exchange", || format!("made by the {} build: '{}' by the serial build, '{}' by the parallel build", name, x, y));
                }
            }
        }
        let _ = std::fs::remove_file(&f);
    }
    ctx.add("accepted_in_reference", reference.iter().filter(|(k, v)| k.1.starts_with("verdict") && v.ends_with("accepted")).count() as u64);
    ctx.add("refused_in_reference", reference.iter().filter(|(k, v)| k.1.starts_with("verdict") && v.ends_with("refused")).count() as u64);
    for c in cases.iter().take(400).step_by(20) {
        ctx.sample_cat(c.split(' ').next().unwrap(), || c.clone());
    }
    ctx.finish();
}
