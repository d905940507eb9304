//! C23: membership statements combined with other statements in one pair of proofs.
use ark_ec::short_weierstrass::Affine;
use ark_ec::CurveGroup;
use ark_ff::{One, UniformRand, Zero};
use bulletproofs::r1cs::*;
use ctmc::curves::m61::*;
use ctmc::{guarded, Ctx};
use merlin::Transcript;
use relations::curve_tree::*;
use relations::range_proof::range_proof;

type P0 = Even;
type P1 = Odd;
type F0 = <P0 as ark_ec::CurveConfig>::ScalarField;
type F1 = <P1 as ark_ec::CurveConfig>::ScalarField;
type A0 = Affine<P0>;
type A1 = Affine<P1>;
type Pr = SelRerandParameters<P0, P1>;
const LABEL: &[u8] = b"combined";
const BATCH: usize = 2;
type Tree = CurveTree<2, BATCH, P0, P1>;

/// A statement of the combination: tree numbers and indices are public here (the verifier ignores the indices).
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum S {
    /// membership in a tree
    Single(usize, usize),
    /// two memberships at once
    Batch(usize, [usize; BATCH]),
    /// membership of a coin whose value is revealed
    Open(usize, usize),
    /// a committed 8-bit value on the even side
    Range(u64),
    /// a committed product on the odd side
    Product(u64),
}
/// What the prover sends for it.
#[derive(Clone)]
enum O {
    Path(SelectAndRerandomizePath<2, P0, P1>),
    Multi(SelectAndRerandomizeMultiPath<2, BATCH, P0, P1>),
    Even(A0),
    Odd(Vec<A1>),
}
struct World {
    pr: Pr,
    trees: Vec<Tree>,
    /// the same trees with every element replaced
    other: Vec<Tree>,
    sets: Vec<Vec<A0>>,
    /// value, tag, blinding of each element
    open: Vec<Vec<(u64, F0, F0)>>,
}
impl World {
    fn new() -> Self {
        let pr = Pr::new(16384, 16384);
        let rng = &mut rand::thread_rng();
        let (mut trees, mut other, mut sets, mut open) = (vec![], vec![], vec![], vec![]);
        for (h, n) in [(1, 2), (2, 3), (3, 4)] {
            let mut mk = || -> (Vec<A0>, Vec<(u64, F0, F0)>) {
                (0..n).map(|i| {
                    let o = (100 + i as u64, F0::rand(rng), F0::rand(rng));
                    (pr.even_parameters.commit(&[F0::from(o.0), o.1], o.2, 0), o)
                }).unzip()
            };
            let (s, o) = mk();
            let (s2, _) = mk();
            trees.push(Tree::from_set(&s, &pr, Some(h)));
            other.push(Tree::from_set(&s2, &pr, Some(h)));
            sets.push(s);
            open.push(o);
        }
        World { pr, trees, other, sets, open }
    }
}
struct Made {
    objs: Vec<O>,
    even: R1CSProof<A0>,
    odd: R1CSProof<A1>,
}

/// Returns None for the leaves when a leaf is not the element plus its blinding.
fn prove(w: &World, seq: &[S]) -> Result<(Made, bool), R1CSError> {
    let rng = &mut rand::thread_rng();
    let pr = &w.pr;
    let mut e: Prover<_, A0> = Prover::new(&pr.even_parameters.pc_gens, Transcript::new(LABEL));
    let mut o: Prover<_, A1> = Prover::new(&pr.odd_parameters.pc_gens, Transcript::new(LABEL));
    let h = pr.even_parameters.pc_gens.B_blinding;
    let mut leaves = true;
    let mut objs = vec![];
    for s in seq {
        objs.push(match *s {
            S::Single(t, i) => {
                let (p, r) = w.trees[t].select_and_rerandomize_prover_gadget(i, 0, &mut e, &mut o, pr, rng);
                leaves &= p.selected_commitment == (w.sets[t][i] + h * r).into_affine();
                O::Path(p)
            }
            S::Batch(t, i) => {
                let (p, r) = w.trees[t].batched_select_and_rerandomize_prover_gadget(i, &mut e, &mut o, pr, rng);
                for k in 0..BATCH {
                    leaves &= p.selected_commitments[k] == (w.sets[t][i[k]] + h * r[k]).into_affine();
                }
                O::Multi(p)
            }
            S::Open(t, i) => {
                let (p, r) = w.trees[t].select_and_rerandomize_prover_gadget(i, 0, &mut e, &mut o, pr, rng);
                let (v, tag, b) = w.open[t][i];
                let (c, vars) = e.commit_vec(&[F0::from(v), tag], b + r, &pr.even_parameters.bp_gens);
                leaves &= c == p.selected_commitment;
                e.constrain(vars[0] - constant::<F0, F0>(F0::from(v)));
                O::Path(p)
            }
            S::Range(v) => {
                let (c, x) = e.commit(F0::from(v), F0::rand(rng));
                range_proof(&mut e, x.into(), Some(v), 8)?;
                O::Even(c)
            }
            S::Product(v) => {
                let (c1, x) = o.commit(F1::from(v), F1::rand(rng));
                let (c2, y) = o.commit(F1::from(v) * F1::from(v), F1::rand(rng));
                let (_, _, z) = o.multiply(x.into(), x.into());
                o.constrain(z - y);
                O::Odd(vec![c1, c2])
            }
        });
    }
    Ok((Made { objs, even: e.prove(&pr.even_parameters.bp_gens)?, odd: o.prove(&pr.odd_parameters.bp_gens)? }, leaves))
}
/// `split`: the even side of all statements, then the odd side.
fn verify(w: &World, seq: &[S], objs: &[O], even: &R1CSProof<A0>, odd: &R1CSProof<A1>, other: Option<usize>, split: bool) -> Result<(), String> {
    let pr = &w.pr;
    let tree = |k: usize, t: usize| if other == Some(k) { &w.other[t] } else { &w.trees[t] };
    guarded(|| {
        let mut e: Verifier<_, A0> = Verifier::new(Transcript::new(LABEL));
        let mut o: Verifier<_, A1> = Verifier::new(Transcript::new(LABEL));
        for (k, (s, x)) in seq.iter().zip(objs).enumerate() {
            match (*s, x) {
                (S::Single(t, _), O::Path(p)) | (S::Open(t, _), O::Path(p)) => {
                    let leaf = if split {
                        let mut p = p.clone();
                        tree(k, t).select_and_rerandomize_verification_commitments(&mut p);
                        p.even_verifier_gadget(&mut e, pr, tree(k, t));
                        p.get_rerandomized_leaf()
                    } else {
                        tree(k, t).select_and_rerandomize_verifier_gadget(&mut e, &mut o, p.clone(), pr)
                    };
                    if let S::Open(t, i) = *s {
                        let v = e.commit_vec(2, leaf);
                        e.constrain(v[0] - constant::<F0, F0>(F0::from(w.open[t][i].0)));
                    }
                }
                (S::Batch(t, _), O::Multi(p)) => {
                    if split {
                        let mut p = p.clone();
                        tree(k, t).batched_select_and_rerandomize_verification_commitments(&mut p);
                        p.even_verifier_gadget(&mut e, pr, tree(k, t));
                    } else {
                        tree(k, t).batched_select_and_rerandomize_verifier_gadget(&mut e, &mut o, p.clone(), pr);
                    }
                }
                (S::Range(_), O::Even(c)) => {
                    let x = e.commit(*c);
                    range_proof(&mut e, x.into(), None, 8).map_err(|_| R1CSError::FormatError)?;
                }
                (S::Product(_), O::Odd(c)) => {
                    let x = o.commit(c[0]);
                    let y = o.commit(c[1]);
                    let (_, _, z) = o.multiply(x.into(), x.into());
                    o.constrain(z - y);
                }
                _ => return Err(R1CSError::FormatError),
            }
        }
        if split {
            // the odd side again, from the start
            o = Verifier::new(Transcript::new(LABEL));
            for (k, (s, x)) in seq.iter().zip(objs).enumerate() {
                match (*s, x) {
                    (S::Single(t, _), O::Path(p)) | (S::Open(t, _), O::Path(p)) => {
                        let mut p = p.clone();
                        tree(k, t).select_and_rerandomize_verification_commitments(&mut p);
                        p.odd_verifier_gadget(&mut o, pr, tree(k, t));
                    }
                    (S::Batch(t, _), O::Multi(p)) => {
                        let mut p = p.clone();
                        tree(k, t).batched_select_and_rerandomize_verification_commitments(&mut p);
                        p.odd_verifier_gadget(&mut o, pr, tree(k, t));
                    }
                    (S::Product(_), O::Odd(c)) => {
                        let x = o.commit(c[0]);
                        let y = o.commit(c[1]);
                        let (_, _, z) = o.multiply(x.into(), x.into());
                        o.constrain(z - y);
                    }
                    _ => {}
                }
            }
        }
        e.verify(even, &pr.even_parameters.pc_gens, &pr.even_parameters.bp_gens)?;
        o.verify(odd, &pr.odd_parameters.pc_gens, &pr.odd_parameters.bp_gens)
    })?
    .map_err(|e| format!("{:?}", e))
}
/// Which sides a statement touches: even, odd.
fn sides(s: &S) -> [bool; 2] {
    match s {
        S::Single(t, _) => [*t > 0, true],
        S::Batch(t, _) => [*t > 0, true],
        S::Open(..) => [true, true],
        S::Range(_) => [true, false],
        S::Product(_) => [false, true],
    }
}
fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    perms(n - 1).into_iter().flat_map(|p| (0..n).map(move |i| { let mut q = p.clone(); q.insert(i, n - 1); q })).collect()
}

fn combine(ctx: &'static Ctx, w: &World, seq: &[S], deep: bool) {
    let name = format!("{:?}", seq);
    ctx.eval(Some(&name));
    let mut runs = vec![];
    for _ in 0..2 {
        match guarded(|| prove(w, seq)) {
            Ok(Ok((m, leaves))) => {
                ctx.require(leaves, "leaf", || format!("{}: a leaf is not the element plus its blinding", name));
                runs.push(m);
            }
            e => {
                ctx.violation("not-proven", format!("{}: {:?}", name, e.err()));
                return;
            }
        }
    }
    let (m, m2) = (&runs[0], &runs[1]);
    for split in [false, true] {
        let r = verify(w, seq, &m.objs, &m.even, &m.odd, None, split);
        ctx.require(r.is_ok(), "rejected", || format!("{} (one side after the other: {}): {:?}", name, split, r));
    }
    ctx.add("accepted", 1);
    let n = seq.len();
    let no = |what: String, s: &[S], o: &[O], e: &R1CSProof<A0>, d: &R1CSProof<A1>, other: Option<usize>| {
        ctx.eval(Some(&format!("{} {}", name, what)));
        ctx.add("refused", 1);
        ctx.require(verify(w, s, o, e, d, other, false).is_err(), "accepted", || format!("{}: {}: accepted", name, what));
    };
    for k in 0..n {
        let mut o = m.objs.clone();
        o[k] = m2.objs[k].clone();
        no(format!("object {} from another run", k), seq, &o, &m.even, &m.odd, None);
        if matches!(seq[k], S::Single(..) | S::Batch(..) | S::Open(..)) {
            no(format!("object {} in another tree", k), seq, &m.objs, &m.even, &m.odd, Some(k));
        }
        let (mut s, mut o) = (seq.to_vec(), m.objs.clone());
        s.remove(k);
        o.remove(k);
        no(format!("without statement {}", k), &s, &o, &m.even, &m.odd, None);
        if deep {
            let (mut s, mut o) = (seq.to_vec(), m.objs.clone());
            s.insert(k, seq[k]);
            o.insert(k, m.objs[k].clone());
            no(format!("with statement {} twice", k), &s, &o, &m.even, &m.odd, None);
            for j in 0..n {
                // one object shown for two statements
                if j != k && std::mem::discriminant(&m.objs[j]) == std::mem::discriminant(&m.objs[k]) {
                    let mut o = m.objs.clone();
                    o[k] = m.objs[j].clone();
                    no(format!("object {} shown for statement {}", j, k), seq, &o, &m.even, &m.odd, None);
                }
            }
        }
    }
    if seq.iter().any(|s| sides(s)[0]) {
        no("even proof of another run".into(), seq, &m.objs, &m2.even, &m.odd, None);
    }
    if seq.iter().any(|s| sides(s)[1]) {
        no("odd proof of another run".into(), seq, &m.objs, &m.even, &m2.odd, None);
    }
    // long sequences: neighbours exchanged, first and last exchanged
    let orders = if n <= 4 {
        perms(n)
    } else {
        let swap = |i: usize, j: usize| { let mut p: Vec<usize> = (0..n).collect(); p.swap(i, j); p };
        (1..n).map(|i| swap(i - 1, i)).chain([swap(0, n - 1)]).collect()
    };
    for p in orders {
        if p.iter().enumerate().all(|(i, j)| i == *j) {
            continue;
        }
        // the objects in another order
        let o: Vec<O> = p.iter().map(|i| m.objs[*i].clone()).collect();
        let s: Vec<S> = p.iter().map(|i| seq[*i]).collect();
        let same = (0..2).all(|d| {
            let a: Vec<usize> = (0..n).filter(|i| sides(&seq[*i])[d]).collect();
            let b: Vec<usize> = p.iter().copied().filter(|i| sides(&seq[*i])[d]).collect();
            a == b
        });
        if !same {
            no(format!("in the order {:?}", p), &s, &o, &m.even, &m.odd, None);
        } else {
            ctx.require(verify(w, &s, &o, &m.even, &m.odd, None, false).is_ok(), "rejected", || format!("{}: in the equivalent order {:?}", name, p));
        }
    }
    ctx.sample_cat(&format!("length {}", n), || name.clone());
}

fn main() {
    let ctx = Ctx::new("C23", "exploration");
    ctx.note("rule", "every sequence up to a length of statements (membership in trees of height 1 to 3, two memberships at once, membership with the coin's value opened, range proof on the even side, product on the odd side) built on one pair of provers: proven, leaves equal element plus blinding, accepted by verifiers that take both sides together or one after the other; refused with any object of another run, an object shown for two statements, another tree at any position, a statement left out or repeated, in any other order (unless both sides keep theirs), or with one proof of another run");
    let w = World::new();
    let letters = [S::Open(0, 1), S::Single(1, 2), S::Range(200), S::Product(6), S::Batch(0, [1, 0]), S::Batch(2, [0, 3]), S::Single(2, 1), S::Open(1, 0), S::Single(0, 0), S::Batch(1, [2, 2])];
    let mut cases: Vec<(Vec<S>, bool)> = vec![];
    let all = letters.len();
    for a in 0..all {
        cases.push((vec![letters[a]], true));
        for b in 0..ctx.pick(10, all) {
            if a < ctx.pick(10, all) {
                cases.push((vec![letters[a], letters[b]], true));
            }
        }
    }
    let three = ctx.pick(6, 8);
    for a in 0..three {
        for b in 0..three {
            for c in 0..three {
                let s = vec![letters[a], letters[b], letters[c]];
                if s.iter().filter(|x| **x == letters[5]).count() < 3 {
                    cases.push((s, ctx.thorough()));
                }
            }
        }
    }
    if ctx.thorough() {
        for k in 0..256usize {
            cases.push(((0..4).map(|i| letters[k / 4usize.pow(i) % 4]).collect(), false));
        }
    }
    // many statements: more vector commitments on each side than in any single tree
    for (n, cyc) in ctx.pick(vec![(8, vec![6, 0, 2, 3]), (18, vec![6])], vec![(8, vec![6, 0, 2, 3]), (12, vec![1, 6, 9]), (18, vec![6]), (20, vec![6, 7, 3])]) {
        cases.push(((0..n).map(|i| letters[cyc[i % cyc.len()]]).collect(), false));
    }
    let cost = |s: &S| match s { S::Batch(t, _) => 2 * (t + 1), S::Single(t, _) | S::Open(t, _) => t + 1, _ => 0 };
    cases.sort_by_key(|c| std::cmp::Reverse((c.0.iter().map(cost).sum::<usize>() + 1) * c.0.len()));
    ctx.note("bounds", format!("{} letters; all pairs of {}, all triples of {}{}; sequences of 8 to 18 (thorough 20) memberships; branching factor 2, batch size 2; 61-bit toy cycle", all, ctx.pick(10, all), three, if ctx.quick { "" } else { ", all fours of 4" }));
    ctx.cases(&cases, |c| format!("{:?}", c), |(s, deep)| combine(ctx, &w, s, *deep));
    let _ = (F0::zero(), F1::one());
    ctx.finish();
}
