//! C21: proofs hide the witness behind fresh randomness.
//!
//! Every random draw of a scripted run is altered alone. The messages that change (and by which multiple of which
//! generator) give the matrix from draws to blinding coordinates; it must have full rank on every message that
//! depends on a secret, using only draws that no earlier message has used.
use ark_ec::short_weierstrass::{Affine, Projective, SWCurveConfig};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{One, PrimeField, UniformRand, Zero};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use bulletproofs::r1cs::*;
use ctmc::circuit::{self, Op, Op2, Prog, RefCirc};
use ctmc::coins::*;
use ctmc::curves::{m126, m60, m61};
use ctmc::oracle::Gens;
use ctmc::raw::Raw;
use ctmc::stmts::{all_lc, catalogue};
use ctmc::{guarded, rel, Ctx};
use merlin::Transcript;
use rand::RngCore;
use relations::coin::*;
use relations::curve_tree::*;
use std::collections::{BTreeSet, HashMap};
use std::rc::Rc;

const LABEL: &[u8] = b"c21";

/// The scripted stream of this thread as a generator to pass around.
struct Wire;
impl RngCore for Wire {
    fn next_u32(&mut self) -> u32 {
        rand::thread_rng().next_u32()
    }
    fn next_u64(&mut self) -> u64 {
        rand::thread_rng().next_u64()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        rand::thread_rng().fill_bytes(d)
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        rand::thread_rng().try_fill_bytes(d)
    }
}
/// A generator whose k-th word is 2 and the others 0: the field element that a flipped draw differs by.
struct Unit(usize, usize);
impl RngCore for Unit {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.1 += 1;
        if self.1 - 1 == self.0 { 2 } else { 0 }
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for c in d.chunks_mut(8) {
            let v = self.next_u64().to_le_bytes();
            c.copy_from_slice(&v[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}

/// Recognises small multiples of given generators: the blinding coordinates of a message.
struct Table {
    rows: Vec<String>,
    classify: Box<dyn Fn(&[u8], &[u8]) -> Option<(usize, i64)>>,
}
fn table<P: SWCurveConfig + Copy>(gens: &[(String, Affine<P>)]) -> Rc<Table> {
    let mut map: HashMap<Vec<u8>, (usize, i64)> = HashMap::new();
    let limbs = (P::ScalarField::MODULUS_BIT_SIZE as usize + 63) / 64;
    for (i, (_, g)) in gens.iter().enumerate() {
        for k in 0..limbs {
            let d = P::ScalarField::rand(&mut Unit(k, 0));
            for c in 1..=3i64 {
                let p = (*g * (d * P::ScalarField::from(c as u64))).into_affine();
                map.insert(ser(&p), (i, c));
                map.insert(ser(&-p), (i, -c));
            }
        }
    }
    let de = |b: &[u8]| Affine::<P>::deserialize_compressed_unchecked(b).expect("point");
    Rc::new(Table { rows: gens.iter().map(|x| x.0.clone()).collect(), classify: Box::new(move |a, b| map.get(&ser(&(de(b) - de(a)).into_affine())).copied()) })
}
struct Msg {
    name: String,
    bytes: Vec<u8>,
    /// blinding coordinates that each need independent randomness
    table: Option<Rc<Table>>,
    /// needs a draw of its own besides (of an effect that is not linear)
    own: bool,
}
fn msg<P: SWCurveConfig>(name: impl Into<String>, p: &Affine<P>, t: &Rc<Table>) -> Msg {
    Msg { name: name.into(), bytes: ser(p), table: Some(t.clone()), own: false }
}
type Flights = Vec<Vec<Msg>>;

const Q: u128 = (1 << 61) - 1;
fn inv(a: u128) -> u128 {
    let (mut r, mut b, mut e) = (1u128, a, Q - 2);
    while e > 0 {
        if e & 1 == 1 {
            r = r * b % Q;
        }
        b = b * b % Q;
        e >>= 1;
    }
    r
}
/// Rows of a matrix (given by columns) that depend on earlier ones.
fn dependent(rows: usize, columns: &[Vec<(usize, i64)>]) -> Vec<usize> {
    let mut m: Vec<Vec<u128>> = vec![vec![0; columns.len()]; rows];
    for (c, col) in columns.iter().enumerate() {
        for (r, v) in col {
            m[*r][c] = ((*v as i128).rem_euclid(Q as i128)) as u128;
        }
    }
    let mut done: Vec<(usize, usize)> = vec![];
    let mut bad = vec![];
    for r in 0..rows {
        for &(pr, pc) in &done {
            let f = m[r][pc] * inv(m[pr][pc]) % Q;
            if f != 0 {
                for c in 0..columns.len() {
                    let s = m[pr][c] * f % Q;
                    m[r][c] = (m[r][c] + Q - s) % Q;
                }
            }
        }
        match (0..columns.len()).find(|c| m[r][*c] != 0) {
            Some(c) => done.push((r, c)),
            None => bad.push(r),
        }
    }
    bad
}

/// Alters every draw (or the first and last ones, then the others if those do not suffice).
fn analyse(ctx: &'static Ctx, key: &str, seed: u64, ends: Option<(usize, usize)>, run: &dyn Fn() -> Flights) {
    ctx.eval(Some(&format!("{} base", key)));
    let began = std::time::Instant::now();
    rand::probe::start(seed, None);
    let base = guarded(run);
    let lens = rand::probe::lengths();
    let draws = rand::probe::stop();
    let base = match base {
        Ok(b) => b,
        Err(e) => return ctx.violation("not-proven", format!("{}: {}", key, e)),
    };
    ctx.add("draws", draws as u64);
    // the same with real randomness, twice
    let fresh = [guarded(run), guarded(run)];
    if let [Ok(a), Ok(b)] = &fresh {
        for (x, y) in a.iter().flatten().zip(b.iter().flatten()) {
            ctx.require(x.bytes != y.bytes, "not-fresh", || format!("{}: {} is the same in two runs", key, x.name));
        }
    }
    let mut order: Vec<usize> = (0..draws).collect();
    let mut first = draws;
    if let Some((a, b)) = ends {
        if a + b < draws {
            order = (0..a).chain(draws - b..draws).collect();
            // then inwards from both ends, as far as time allows
            let (mut lo, mut hi) = (a, draws - b);
            while lo < hi {
                order.extend(lo..(lo + 40).min(hi));
                lo = (lo + 40).min(hi);
                order.extend(hi.saturating_sub(20).max(lo)..hi);
                hi = hi.saturating_sub(20).max(lo);
            }
            first = a + b;
        }
    }
    let mut columns: Vec<Vec<Vec<(usize, i64)>>> = base.iter().map(|_| vec![]).collect();
    let mut own: BTreeSet<(usize, usize)> = BTreeSet::new();
    let mut seeded: BTreeSet<usize> = BTreeSet::new();
    // rows of a flight are numbered through its messages
    let offset = |f: usize, m: usize| base[f][..m].iter().map(|x| x.table.as_ref().map(|t| t.rows.len()).unwrap_or(0)).sum::<usize>();
    let rows = |f: usize| offset(f, base[f].len());
    let missing = |columns: &Vec<Vec<Vec<(usize, i64)>>>, own: &BTreeSet<(usize, usize)>, seeded: &BTreeSet<usize>| -> Vec<String> {
        let mut v = vec![];
        for f in 0..base.len() {
            if seeded.contains(&f) {
                continue;
            }
            let bad = dependent(rows(f), &columns[f]);
            for (m, x) in base[f].iter().enumerate() {
                let o = offset(f, m);
                if let Some(t) = &x.table {
                    for (i, r) in t.rows.iter().enumerate() {
                        if bad.contains(&(o + i)) {
                            v.push(format!("{} (coordinate {})", x.name, r));
                        }
                    }
                }
                if x.own && !own.contains(&(f, m)) {
                    v.push(format!("{} (own draw)", x.name));
                }
            }
        }
        v
    };
    for (done, d) in order.iter().enumerate() {
        if done == first || done > first && done % 20 == 0 {
            let left = missing(&columns, &own, &seeded);
            if left.is_empty() {
                break;
            }
            if std::env::var("CT_TIMES").is_ok() {
                eprintln!("{}: {} draws, still missing {:?}", key, draws, left);
            }
        }
        if done > first && began.elapsed().as_secs() > ctx.pick(150, 900) {
            ctx.cap("draws in the middle of a transaction");
            break;
        }
        ctx.eval(Some(&format!("{} draw {}", key, d)));
        ctx.add("draws_altered", 1);
        rand::probe::start(seed, Some(*d));
        let alt = guarded(run);
        rand::probe::stop();
        let Ok(alt) = alt else {
            ctx.violation("not-proven", format!("{}: not with draw {} altered", key, d));
            continue;
        };
        let Some(f) = (0..base.len()).find(|f| alt[*f].len() != base[*f].len() || alt[*f].iter().zip(&base[*f]).any(|(x, y)| x.bytes != y.bytes)) else { continue };
        if alt[f].len() != base[f].len() {
            ctx.violation("shape", format!("{}: the number of messages depends on the randomness", key));
            continue;
        }
        let changed: Vec<usize> = (0..base[f].len()).filter(|m| alt[f][*m].bytes != base[f][*m].bytes).collect();
        let mut col = vec![];
        let mut linear = true;
        for m in &changed {
            match base[f][*m].table.as_ref().and_then(|t| (t.classify)(&base[f][*m].bytes, &alt[f][*m].bytes)) {
                Some((r, c)) => col.push((offset(f, *m) + r, c)),
                None => linear = false,
            }
        }
        if linear {
            columns[f].push(col);
        } else if changed.len() == 1 {
            own.insert((f, changed[0]));
        }
        if lens[*d] >= 32 && changed.len() == base[f].len() {
            // a seed of a generator of the prover's own
            seeded.insert(f);
        }
    }
    for x in missing(&columns, &own, &seeded) {
        ctx.violation("not-blinded", format!("{}: {} has no independent randomness of its own", key, x));
    }
}

/// One or more proofs of a circuit one after the other, in one script.
fn circ<P: SWCurveConfig + Copy>(ctx: &'static Ctx, curve: &str, name: &str, prog: &Prog, seed: u64, times: usize)
where
    P::BaseField: PrimeField,
{
    let rc = RefCirc::<P::ScalarField>::new(prog, &[]);
    let n = rc.n.max(1).next_power_of_two();
    let gens = Gens::<Affine<P>>::new(n);
    let bb = ("blinding".to_string(), gens.pc.B_blinding);
    let g = |r: std::ops::Range<usize>| r.map(|i| (format!("G{}", i), gens.g[i])).collect::<Vec<_>>();
    let h = |r: std::ops::Range<usize>| r.map(|i| (format!("H{}", i), gens.h[i])).collect::<Vec<_>>();
    let tb = table(&[bb.clone()]);
    let s1 = table(&[vec![bb.clone()], g(0..rc.n1), h(0..rc.n1)].concat());
    let s2 = table(&[vec![bb.clone()], g(rc.n1..rc.n), h(rc.n1..rc.n)].concat());
    let run = || -> Flights {
        let mut fl = vec![];
        for k in 0..times {
            let p = circuit::prove(prog, &gens.pc, &gens.bp, LABEL).expect("proof");
            let r = Raw::of(&p.proof).expect("wire view");
            let nm = |x: &str| if times > 1 { format!("{} of proof {}", x, k) } else { x.to_string() };
            fl.push(vec![msg(nm("A_I1"), &r.p1[0], &tb), msg(nm("A_O1"), &r.p1[1], &tb), msg(nm("S1"), &r.p1[2], &s1)]);
            if rc.n > rc.n1 {
                let p2 = r.get_p2();
                fl.push(vec![msg(nm("A_I2"), &p2[0], &tb), msg(nm("A_O2"), &p2[1], &tb), msg(nm("S2"), &p2[2], &s2)]);
            }
            // the coefficient that the statement determines is not sent
            let skip = (r.t.len().max(3) - 1) / 2 - 1;
            fl.push(r.t.iter().enumerate().filter(|(i, p)| *i != skip || !p.is_zero()).map(|(i, p)| msg(nm(&format!("T_{}", i)), p, &tb)).collect());
        }
        fl
    };
    let key = format!("{} circuit {}{} seed {}", curve, name, if times > 1 { " repeatedly" } else { "" }, seed);
    analyse(ctx, &key, seed, None, &run);
    ctx.sample_cat("circuit", || key.clone());
}

macro_rules! fx {
    ($(#[$m:meta])* fn $name:ident<$(const $c:ident),*>($($a:ident: $t:ty),* $(,)?) $(-> $r:ty)? $b:block) => {
        $(#[$m])*
        #[allow(clippy::too_many_arguments)]
        fn $name<$(const $c: usize,)* F0: PrimeField, F1: PrimeField, P0: SWCurveConfig<BaseField = F1, ScalarField = F0> + Copy + Send + Sync, P1: SWCurveConfig<BaseField = F0, ScalarField = F1> + Copy + Send + Sync>($($a: $t),*) $(-> $r)? $b
    };
}
fx! {
    fn tables<>(pr: &SelRerandParameters<P0, P1>) -> (Rc<Table>, Rc<Table>) {
        (table(&[("blinding".into(), pr.even_parameters.pc_gens.B_blinding)]), table(&[("blinding".into(), pr.odd_parameters.pc_gens.B_blinding)]))
    }
}
fx! {
    fn path_msgs<const L>(name: &str, p: &SelectAndRerandomizePath<L, P0, P1>, te: &Rc<Table>, to: &Rc<Table>) -> Vec<Msg> {
        let mut v = vec![msg(format!("{} leaf", name), &p.selected_commitment, te)];
        v.extend(p.even_commitments.iter().enumerate().map(|(i, c)| msg(format!("{} even commitment {}", name, i), c, te)));
        v.extend(p.odd_commitments.iter().enumerate().map(|(i, c)| msg(format!("{} odd commitment {}", name, i), c, to)));
        v
    }
}
fx! {
    fn paths<const L>(ctx: &'static Ctx, curve: &str, pr: &SelRerandParameters<P0, P1>, n: usize, h: usize, i: usize, times: usize) {
        let (te, to) = tables(pr);
        let t = CurveTree::<L, 1, P0, P1>::from_set(&rel::leaves::<P0>(n, 3), pr, Some(h));
        let run = || -> Flights {
            (0..times).map(|k| {
                let mut e = Prover::new(&pr.even_parameters.pc_gens, Transcript::new(LABEL));
                let mut o = Prover::new(&pr.odd_parameters.pc_gens, Transcript::new(LABEL));
                let (p, _) = t.select_and_rerandomize_prover_gadget(i, 0, &mut e, &mut o, pr, &mut Wire);
                path_msgs(&format!("path {}", k), &p, &te, &to)
            }).collect()
        };
        let key = format!("{} L={} n={} height {} index {}", curve, L, n, h, i);
        analyse(ctx, &key, 1, None, &run);
        ctx.sample_cat("path", || key.clone());
    }
}
fx! {
    fn batch<const L, const M>(ctx: &'static Ctx, curve: &str, pr: &SelRerandParameters<P0, P1>, n: usize, h: usize, idx: [usize; M], times: usize) {
        let (te, to) = tables(pr);
        let t = CurveTree::<L, M, P0, P1>::from_set(&rel::leaves::<P0>(n, 3), pr, Some(h));
        let run = || -> Flights {
            (0..times).map(|k| {
                let mut e = Prover::new(&pr.even_parameters.pc_gens, Transcript::new(LABEL));
                let mut o = Prover::new(&pr.odd_parameters.pc_gens, Transcript::new(LABEL));
                let (p, _) = t.batched_select_and_rerandomize_prover_gadget(idx, &mut e, &mut o, pr, &mut Wire);
                let mut v: Vec<Msg> = p.selected_commitments.iter().enumerate().map(|(i, c)| msg(format!("batch {} leaf {}", k, i), c, &te)).collect();
                v.extend(p.even_commitments.iter().enumerate().map(|(i, c)| msg(format!("batch {} even commitment {}", k, i), c, &te)));
                v.extend(p.odd_commitments.iter().enumerate().map(|(i, c)| msg(format!("batch {} odd commitment {}", k, i), c, &to)));
                v
            }).collect()
        };
        let key = format!("{} L={} M={} n={} height {} indices {:?}", curve, L, M, n, h, idx);
        analyse(ctx, &key, 1, None, &run);
        ctx.sample_cat("batch", || key.clone());
    }
}
macro_rules! wh {
    ($(#[$m:meta])* fn $name:ident<$(const $c:ident),*>($($a:ident: $t:ty),* $(,)?) $(-> $r:ty)? $b:block) => {
        $(#[$m])*
        #[allow(clippy::too_many_arguments)]
        fn $name<$(const $c: usize,)* F0: PrimeField, F1: PrimeField, P0: SWCurveConfig<BaseField = F1, ScalarField = F0> + Copy + Send + Sync, P1: SWCurveConfig<BaseField = F0, ScalarField = F1> + Copy + Send + Sync, C: CurveGroup>($($a: $t),*) $(-> $r)? $b
    };
}
wh! {
    fn coins<>(ctx: &'static Ctx, curve: &str, w: &World<P0, P1, C>, value: u64) {
        let (te, _) = tables(w.pr);
        rand::probe::start(7, None);
        let k = w.keys();
        rand::probe::stop();
        let mint = || -> Flights {
            (0..2).map(|j| {
                let (mut e, _) = w.provers();
                let (_, c, _) = Coin::<P0, C>::mint(value, &k.pk, &w.sig, &w.pr.even_parameters, &mut Wire, &mut e);
                vec![Msg { own: true, ..msg(format!("minted {}", j), &c, &te) }]
            }).collect()
        };
        analyse(ctx, &format!("{} mint {}", curve, value), 1, None, &mint);
        let new = || -> Flights {
            (0..2).map(|j| vec![Msg { own: true, ..msg(format!("coin {}", j), &Coin::<P0, C>::new(value, &k.pk, &w.sig, &w.pr.even_parameters, &mut Wire).1, &te) }]).collect()
        };
        analyse(ctx, &format!("{} new coin {}", curve, value), 1, None, &new);
        // a spend draws its own randomness
        let (c, x) = w.coin(value, &k.pk);
        let mut set = rel::leaves::<P0>(3, 5);
        set[1] = x;
        for h in 2..=3 {
            let t = CurveTree::<2, 1, P0, P1>::from_set(&set, w.pr, Some(h));
            let (te, to) = tables(w.pr);
            let spend = || -> Flights {
                (0..2).map(|j| {
                    let (mut e, mut o) = w.provers();
                    let (p, _) = c.prove_spend(1, &mut e, &mut o, w.pr, &t);
                    path_msgs(&format!("spend {}", j), &p, &te, &to)
                }).collect()
            };
            analyse(ctx, &format!("{} spend {} height {}", curve, value, h), 1, None, &spend);
        }
        ctx.sample_cat("coin", || format!("{} {}", curve, value));
    }
}
wh! {
    fn pour<const L>(ctx: &'static Ctx, curve: &str, w: &World<P0, P1, C>, h: usize, pos: (usize, usize), ins: (u64, u64), outs: (u64, u64), same_receiver: bool) {
        let (te, to) = tables(w.pr);
        rand::probe::start(7, None);
        let ks = [w.keys(), w.keys()];
        let mut set = rel::leaves::<P0>(3.min(L.pow(h as u32)), 5);
        let (ca, xa) = w.coin(ins.0, &ks[0].pk);
        let (cb, xb) = w.coin(ins.1, &ks[1].pk);
        set[pos.0] = xa;
        set[pos.1] = xb;
        let t = CurveTree::<L, 1, P0, P1>::from_set(&set, w.pr, Some(h));
        let s = [w.spending(pos.0, &ca, &ks[0]), w.spending(pos.1, &cb, &ks[1])];
        rand::probe::stop();
        let r = [ks[0].pk, if same_receiver { ks[0].pk } else { ks[1].pk }];
        let run = || -> Flights {
            let tx = w.pour(&t, [&s[0], &s[1]], [(outs.0, r[0]), (outs.1, r[1])], &mut Wire).expect("pour");
            let p = w.open::<L>(&tx).pour;
            let mut v = vec![Msg { own: true, ..msg("minted 0", &p.minted_coin_commitment_0, &te) }, Msg { own: true, ..msg("minted 1", &p.minted_coin_commitment_1, &te) }];
            v.extend(path_msgs("input 0", &p.randomized_path_0, &te, &to));
            v.extend(path_msgs("input 1", &p.randomized_path_1, &te, &to));
            let sig = |name: &str, a: Vec<u8>, b: Vec<u8>| Msg { name: name.into(), bytes: [a, b].concat(), table: None, own: true };
            // everything else of the pour, so that only draws which leave it alone count for the signatures
            let rest = vec![Msg { name: "pour".into(), bytes: tx.pour_bytes.clone(), table: None, own: false }];
            vec![v, rest, vec![sig("signature 0", ser(&tx.signature_prover_response_0), ser(&tx.signature_verifier_challenge_0)), sig("signature 1", ser(&tx.signature_prover_response_1), ser(&tx.signature_verifier_challenge_1))]]
        };
        let key = format!("{} L={} height {} coins {:?} at {:?} into {:?}{}", curve, L, h, ins, pos, outs, if same_receiver { " of one receiver" } else { "" });
        analyse(ctx, &key, 1, Some((64, 24)), &run);
        ctx.sample_cat("pour", || key.clone());
    }
}

/// Sizes that an observer sees.
#[derive(PartialEq, Debug, Clone)]
struct Shape(Vec<usize>);
fn proof_shape<C: AffineRepr>(p: &R1CSProof<C>) -> Vec<usize> {
    let b = p.to_bytes();
    let r = Raw::<C>::parse(&b).expect("wire");
    vec![b.len(), ser(p).len(), { let mut u = vec![]; p.serialize_uncompressed(&mut u).unwrap(); u.len() }, r.flag as usize, r.t.len(), r.l.len(), r.r.len()]
}
struct Shapes {
    first: Option<(String, Vec<usize>)>,
}
impl Shapes {
    fn see(&mut self, ctx: &'static Ctx, key: String, s: Vec<usize>) {
        ctx.eval(Some(&format!("shape {}", key)));
        ctx.add("shapes", 1);
        match &self.first {
            None => self.first = Some((key, s)),
            Some((k, f)) => ctx.require(*f == s, "shape", || format!("{} has sizes {:?}, {} has {:?}", k, f, key, s)),
        }
    }
}
fx! {
    fn path_shapes<const L>(ctx: &'static Ctx, curve: &str, pr: &SelRerandParameters<P0, P1>, n: usize, h: usize) {
        let mut s = Shapes { first: None };
        for salt in [3, 4] {
            let t = CurveTree::<L, 1, P0, P1>::from_set(&rel::leaves::<P0>(n, salt), pr, Some(h));
            for i in 0..n {
                let key = format!("{} L={} n={} height {} set {} index {}", curve, L, n, h, salt, i);
                match guarded(|| rel::prove_mem(&t, i, 0, pr, LABEL, &mut Wire)) {
                    Ok(Ok(m)) => s.see(ctx, key, [vec![ser(&m.path).len(), m.path.even_commitments.len(), m.path.odd_commitments.len()], proof_shape(&m.even), proof_shape(&m.odd)].concat()),
                    x => ctx.violation("not-proven", format!("{}: {:?}", key, x.map(|_| ()))),
                }
            }
        }
    }
}
fx! {
    fn batch_shapes<const L>(ctx: &'static Ctx, curve: &str, pr: &SelRerandParameters<P0, P1>, n: usize, h: usize) {
        let mut s = Shapes { first: None };
        let t = CurveTree::<L, 2, P0, P1>::from_set(&rel::leaves::<P0>(n, 3), pr, Some(h));
        for i in 0..n {
            for j in 0..n {
                let key = format!("{} L={} n={} height {} indices {} {}", curve, L, n, h, i, j);
                match guarded(|| rel::prove_multi(&t, [i, j], pr, LABEL, &mut Wire)) {
                    Ok(Ok(m)) => s.see(ctx, key, [vec![ser(&m.path).len(), m.path.even_commitments.len(), m.path.odd_commitments.len()], proof_shape(&m.even), proof_shape(&m.odd)].concat()),
                    x => ctx.violation("not-proven", format!("{}: {:?}", key, x.map(|_| ()))),
                }
            }
        }
    }
}
wh! {
    fn pour_shapes<const L>(ctx: &'static Ctx, curve: &str, w: &World<P0, P1, C>, n: usize, h: usize) {
        let mut s = Shapes { first: None };
        let ks = [w.keys(), w.keys()];
        let m = u64::MAX;
        let amounts = [((0u64, 0u64), (0u64, 0u64)), ((5, 7), (12, 0)), ((m, 0), (m - 1, 1)), ((m, m), (m, m)), ((1 << 63, 1), (1, 1 << 63))];
        for i in 0..n {
            for j in 0..n {
                let ((a, b), (x, y)) = amounts[(i * n + j) % amounts.len()];
                if i == j {
                    continue;
                }
                let mut set = rel::leaves::<P0>(n, 5);
                let (ca, xa) = w.coin(a, &ks[0].pk);
                let (cb, xb) = w.coin(b, &ks[1].pk);
                set[i] = xa;
                set[j] = xb;
                let t = CurveTree::<L, 1, P0, P1>::from_set(&set, w.pr, Some(h));
                let key = format!("{} L={} n={} height {} coins {} at {} and {} at {} into {} and {}", curve, L, n, h, a, i, b, j, x, y);
                match w.pour(&t, [&w.spending(i, &ca, &ks[0]), &w.spending(j, &cb, &ks[1])], [(x, ks[1].pk), (y, ks[0].pk)], &mut Wire) {
                    Ok(tx) => {
                        let p = w.open::<L>(&tx).pour;
                        s.see(ctx, key, [vec![ser(&tx).len(), tx.pour_bytes.len(), ser(&p.randomized_path_0).len(), ser(&p.randomized_path_1).len()], proof_shape(&p.even_proof), proof_shape(&p.odd_proof)].concat())
                    }
                    Err(e) => ctx.violation("not-proven", format!("{}: {}", key, e)),
                }
            }
        }
        ctx.sample_cat("pour shapes", || format!("{} L={} n={} height {}", curve, L, n, h));
    }
}
/// The same circuit with different values.
fn circ_shapes<P: SWCurveConfig + Copy>(ctx: &'static Ctx, curve: &str)
where
    P::BaseField: PrimeField,
{
    let vals = [0i64, 1, -1, 5, i64::MAX];
    type Mk = fn(&[i64]) -> Prog;
    let kinds: Vec<(&str, usize, Mk)> = vec![
        ("gates", 2, |v| vec![Op::AllocMul(v[0], v[1]), Op::AllocMul(v[1], v[1]), Op::AllocMul(v[0], v[0])]),
        ("allocated", 3, |v| vec![Op::Alloc(v[0]), Op::Alloc(v[1]), Op::Alloc(v[2])]),
        ("committed", 2, |v| vec![Op::Commit(v[0]), Op::Commit(v[1])]),
        ("vector", 3, |v| vec![Op::CommitVec(vec![v[0], v[1]]), Op::CommitVec(vec![v[2]]), Op::AllocMul(v[0], v[2])]),
        ("phase2", 3, |v| vec![Op::AllocMul(v[0], v[1]), Op::Phase2(vec![Op2::AllocMulC(v[1], v[2]), Op2::AllocC(v[0])])]),
    ];
    for (name, k, mk) in kinds {
        let mut s = Shapes { first: None };
        let gens = Gens::<Affine<P>>::new(8);
        for c in 0..vals.len().pow(k as u32) {
            let v: Vec<i64> = (0..k).map(|i| vals[c / vals.len().pow(i as u32) % vals.len()]).collect();
            let mut p = mk(&v);
            let nv = circuit::nvars(&p);
            p.push(Op::Constrain(all_lc(nv, 1, 5), 0));
            let key = format!("{} {} {:?}", curve, name, v);
            match guarded(|| circuit::prove(&p, &gens.pc, &gens.bp, LABEL)) {
                Ok(Ok(x)) => s.see(ctx, key, proof_shape(&x.proof)),
                e => ctx.violation("not-proven", format!("{}: {:?}", key, e.map(|_| ()))),
            }
        }
        ctx.sample_cat("circuit shapes", || name.into());
    }
}

fn programs() -> Vec<(String, Prog)> {
    let mut v: Vec<(String, Prog)> = catalogue().into_iter().map(|(n, p)| (n.to_string(), p)).collect();
    // witnesses that might be treated specially
    v.push(("zeros".into(), vec![Op::Commit(0), Op::AllocMul(0, 0), Op::AllocMul(0, 0), Op::Constrain(all_lc(7, 1, 0), 0)]));
    v.push(("zero-vector".into(), vec![Op::CommitVec(vec![0, 0, 0]), Op::AllocMul(0, 0), Op::Constrain(all_lc(6, 1, 0), 0)]));
    v.push(("zero-phase2".into(), vec![Op::AllocMul(0, 0), Op::Phase2(vec![Op2::AllocMulC(0, 0)])]));
    v.push(("bits".into(), (0..6).map(|i| Op::AllocMul(i & 1, 1 - (i & 1))).collect()));
    let mut p: Prog = vec![Op::Commit(9)];
    p.extend((0..20).map(|i| Op::AllocMul(i + 2, 3 - i)));
    p.push(Op::Phase2((0..5).map(|i| Op2::AllocMulC(i, i + 1)).collect()));
    v.push(("gates20".into(), p));
    v.push(("empty".into(), vec![Op::Commit(3)]));
    v
}

fn main() {
    let ctx = Ctx::new("C21", "exploration");
    ctx.note("rule", "every random draw of a scripted run of the prover is altered alone; the change of every message, recognised as a multiple of a generator, gives the matrix from draws to blinding coordinates (the blinding generator for every commitment, every generator for the masking commitments), which must have full rank using only draws that earlier messages do not depend on; also for repeated runs on one stream, for runs with real randomness, and for signatures; sizes of everything sent are compared over all indices, values and witnesses");
    ctx.note("assume_seed", "a draw of 32 bytes or more that changes every message of a flight is taken for the seed of a generator of the prover's own");
    type Pa = ark_pallas::PallasConfig;
    type Ve = ark_vesta::VestaConfig;
    let p60 = SelRerandParameters::<m60::Even, m60::Odd>::new(2048, 2048);
    let p61 = SelRerandParameters::<m61::Odd, m61::Even>::new(2048, 2048);
    let ppa = SelRerandParameters::<Pa, Ve>::new(4096, 4096);
    let p126 = SelRerandParameters::<m126::Even, m126::Odd>::new(4096, 4096);
    rand::probe::start(7, None);
    let w126 = World::<_, _, Projective<m126::Even>>::new(&p126);
    let wpa = World::<_, _, Projective<Pa>>::new(&ppa);
    rand::probe::stop();
    #[derive(Debug, Clone)]
    enum Case {
        Circ(usize, String, Prog, u64, usize),
        /// curve, L, n, h, i
        Path(usize, usize, usize, usize, usize),
        Batch(usize, usize, usize, Vec<usize>),
        Coin(usize, u64),
        Pour(usize, usize, usize, (usize, usize), (u64, u64), (u64, u64), bool),
        PathShapes(usize, usize, usize),
        BatchShapes(usize, usize, usize),
        PourShapes(usize, usize, usize),
        CircShapes(usize),
    }
    use Case::*;
    let mut cases = vec![];
    // pours first: they take longest
    let m = u64::MAX;
    cases.push(Pour(0, 2, 2, (0, 1), (5, 7), (4, 8), false));
    cases.push(Pour(0, 2, 1, (1, 0), (0, 0), (0, 0), true));
    cases.push(Pour(0, 2, 2, (2, 0), (9, 9), (9, 9), true));
    cases.push(Pour(0, 3, 1, (0, 2), (m, 0), (1, m - 1), false));
    if ctx.thorough() {
        cases.push(Pour(0, 2, 3, (2, 1), (m, m), (m, m), false));
        cases.push(Pour(0, 2, 4, (0, 2), (1, 2), (3, 0), false));
        cases.push(Pour(1, 2, 2, (0, 1), (5, 7), (4, 8), false));
    }
    for (l, n, h) in ctx.pick(vec![(2usize, 3usize, 2usize), (3, 3, 1)], vec![(2, 4, 2), (2, 5, 3), (3, 4, 2), (4, 4, 1)]) {
        cases.push(PourShapes(l, n, h));
    }
    for l in ctx.pick(vec![2usize, 3], vec![2, 3, 4]) {
        for h in 1..=ctx.pick(3usize, 5) {
            for n in 1..=ctx.pick(5usize, 9).min(l.pow(h as u32)) {
                cases.push(PathShapes(l, n, h));
                if n <= ctx.pick(3, 5) && h > 1 || l == 4 && n < 5 {
                    cases.push(BatchShapes(l, n, h));
                }
                for i in 0..n {
                    for c in 0..2 {
                        cases.push(Path(c, l, n, h, i));
                    }
                    if h <= ctx.pick(2, 4) {
                        cases.push(Path(2, l, n, h, i));
                    }
                }
            }
        }
    }
    for l in [2usize, 3] {
        for h in 2..=ctx.pick(3usize, 5) {
            for n in ctx.pick(vec![3usize], vec![2, 3, 5]) {
                if n > l.pow(h as u32) { continue; }
                for i in 0..n {
                    for j in 0..n {
                        cases.push(Batch(l, n, h, vec![i, j]));
                        if ctx.thorough() || j == 0 {
                            for k in 0..n {
                                cases.push(Batch(l, n, h, vec![i, j, k]));
                            }
                        }
                    }
                    cases.push(Batch(l, n, h, vec![i]));
                }
                cases.push(Batch(l, n, h, (0..5).map(|k| k % n).collect()));
            }
        }
    }
    for c in 0..2 {
        for v in ctx.pick(vec![0u64, 1, m], vec![0, 1, 2, 77, 1 << 32, 1 << 63, m - 1, m]) {
            cases.push(Coin(c, v));
        }
    }
    for (name, p) in programs() {
        for c in 0..2 {
            for seed in 1..=ctx.pick(2, 6) {
                cases.push(Circ(c, name.clone(), p.clone(), seed, 1));
            }
            cases.push(Circ(c, name.clone(), p.clone(), 9, 3));
        }
        cases.push(Circ(2, name.clone(), p.clone(), 1, 1));
    }
    for c in 0..2 {
        cases.push(CircShapes(c));
    }
    ctx.note("bounds", "all circuits of a catalogue (also with all-zero witnesses), up to three proofs on one stream, every draw; every index of trees up to 5 (thorough 9) elements, height 3 (5), L = 2, 3 (4); batches of 1, 2, 3, 5; pours: all draws before and after the two proofs, and the others if those do not suffice; curves of 60, 61, 126 and 255 bits");
    ctx.cases(&cases, |c| format!("{:?}", c), |c| match c {
        Circ(0, n, p, s, t) => circ::<m60::Even>(ctx, "m60", n, p, *s, *t),
        Circ(1, n, p, s, t) => circ::<m61::Odd>(ctx, "m61'", n, p, *s, *t),
        Circ(_, n, p, s, t) => circ::<Pa>(ctx, "pallas", n, p, *s, *t),
        CircShapes(0) => circ_shapes::<m60::Even>(ctx, "m60"),
        CircShapes(_) => circ_shapes::<Pa>(ctx, "pallas"),
        Path(c, l, n, h, i) => {
            macro_rules! go {
                ($($l:literal)*) => {
                    match (*l, *c) {
                        $(($l, 0) => paths::<$l, _, _, _, _>(ctx, "m60", &p60, *n, *h, *i, 2),
                        ($l, 1) => paths::<$l, _, _, _, _>(ctx, "m61'", &p61, *n, *h, *i, 2),
                        ($l, _) => paths::<$l, _, _, _, _>(ctx, "pallas", &ppa, *n, *h, *i, 1),)*
                        x => panic!("no instance {:?}", x),
                    }
                };
            }
            go!(2 3 4)
        }
        PathShapes(l, n, h) => match l {
            2 => path_shapes::<2, _, _, _, _>(ctx, "m60", &p60, *n, *h),
            3 => path_shapes::<3, _, _, _, _>(ctx, "m60", &p60, *n, *h),
            _ => path_shapes::<4, _, _, _, _>(ctx, "m60", &p60, *n, *h),
        },
        BatchShapes(l, n, h) => match l {
            2 => batch_shapes::<2, _, _, _, _>(ctx, "m60", &p60, *n, *h),
            3 => batch_shapes::<3, _, _, _, _>(ctx, "m60", &p60, *n, *h),
            _ => batch_shapes::<4, _, _, _, _>(ctx, "m60", &p60, *n, *h),
        },
        PourShapes(l, n, h) => match l {
            2 => pour_shapes::<2, _, _, _, _, _>(ctx, "m126", &w126, *n, *h),
            3 => pour_shapes::<3, _, _, _, _, _>(ctx, "m126", &w126, *n, *h),
            _ => pour_shapes::<4, _, _, _, _, _>(ctx, "m126", &w126, *n, *h),
        },
        Batch(l, n, h, x) => {
            macro_rules! go {
                ($($l:literal $m:literal)*) => {
                    match (*l, x.len()) {
                        $(($l, $m) => {
                            batch::<$l, $m, _, _, _, _>(ctx, "m60", &p60, *n, *h, x.clone().try_into().unwrap(), 2);
                            batch::<$l, $m, _, _, _, _>(ctx, "m61'", &p61, *n, *h, x.clone().try_into().unwrap(), 1)
                        })*
                        x => panic!("no instance {:?}", x),
                    }
                };
            }
            go!(2 1 2 2 2 3 2 5 3 1 3 2 3 3 3 5)
        }
        Coin(0, v) => coins(ctx, "m126", &w126, *v),
        Coin(_, v) => coins(ctx, "pallas", &wpa, *v),
        Pour(c, l, h, pos, i, o, s) => match (c, l) {
            (0, 2) => pour::<2, _, _, _, _, _>(ctx, "m126", &w126, *h, *pos, *i, *o, *s),
            (0, _) => pour::<3, _, _, _, _, _>(ctx, "m126", &w126, *h, *pos, *i, *o, *s),
            _ => pour::<2, _, _, _, _, _>(ctx, "pallas", &wpa, *h, *pos, *i, *o, *s),
        },
    });
    ctx.finish();
}
