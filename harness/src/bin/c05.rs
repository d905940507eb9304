//! C05: batch verification accepts exactly when every proof is acceptable by itself.
use ark_ec::{AffineRepr, CurveGroup, VariableBaseMSM};
use ark_ff::{Field, One, Zero};
use bulletproofs::r1cs::*;
use bulletproofs::BulletproofGens;
use ctmc::circuit::*;
use ctmc::curves::*;
use ctmc::oracle::Gens;
use ctmc::raw::Raw;
use ctmc::stmts::*;
use ctmc::{guarded, Ctx};

type C = m61::EvenA;
type F = <C as AffineRepr>::ScalarField;
type G = <C as AffineRepr>::Group;

fn clone(t: &VerificationTuple<C>) -> VerificationTuple<C> {
    VerificationTuple {
        proof_dependent_points: t.proof_dependent_points.clone(),
        proof_dependent_scalars: t.proof_dependent_scalars.clone(),
        proof_independent_scalars: t.proof_independent_scalars.clone(),
    }
}
fn size(t: &VerificationTuple<C>) -> usize {
    (t.proof_independent_scalars.len() - 2) / 2
}
/// the group element the tuple claims to be zero, computed without the code under test
fn value(t: &VerificationTuple<C>, g: &Gens<C>) -> G {
    let n = size(t);
    let mut pts = t.proof_dependent_points.clone();
    let mut sc = t.proof_dependent_scalars.clone();
    assert_eq!(pts.len(), sc.len());
    pts.extend([g.pc.B, g.pc.B_blinding]);
    pts.extend(&g.g[..n]);
    pts.extend(&g.h[..n]);
    sc.extend(&t.proof_independent_scalars);
    G::msm_unchecked(&pts, &sc)
}

struct T {
    name: String,
    t: VerificationTuple<C>,
    ok: bool,
}

fn main() {
    let ctx = Ctx::new("C05", "exploration");
    ctx.note("rule", "every sequence of up to d tuples over an alphabet of real and synthetic verification tuples of sizes 1 to 16, valid and invalid in one slot each; every generator capacity; every pair and triple of positions carrying errors with integer ratio, ratio up to a bound that covers 16-bit batching weights; opposite errors at every pair of positions of longer batches; the bytes of randomness drawn for the weights, and weights predicted from the transcript alone; the empty batch");
    let gens = Gens::<C>::new(16);
    let (pc, bp) = (&gens.pc, &gens.bp);

    // real proofs: tuple, individual verdict by the real verifier
    let mut real: Vec<T> = vec![];
    for (name, prog) in catalogue() {
        let p = prove(&prog, pc, bp, b"c05").expect("honest");
        let tup = |proof: &R1CSProof<C>, prog: &Prog| verifier(prog, &p.comms, bp, b"c05").ok().and_then(|v| v.verification_scalars_and_points(proof).ok());
        let raw = Raw::of(&p.proof).expect("raw");
        let mut variants: Vec<(String, R1CSProof<C>, Prog)> = vec![(format!("{}-ok", name), p.proof.clone(), prog.clone())];
        let muts: Vec<(&str, Box<dyn Fn(&mut Raw<C>)>)> = vec![
            ("tx", Box::new(|r: &mut Raw<C>| r.tx += F::one())),
            ("tb", Box::new(|r: &mut Raw<C>| r.tb += F::one())),
            ("eb", Box::new(|r: &mut Raw<C>| r.eb += F::one())),
            ("a", Box::new(|r: &mut Raw<C>| r.a += F::one())),
            ("b", Box::new(|r: &mut Raw<C>| r.b += F::one())),
            ("AO", Box::new(|r: &mut Raw<C>| r.p1[1] = C::generator())),
            ("T0", Box::new(|r: &mut Raw<C>| r.t[0] = C::generator())),
        ];
        for (m, f) in muts {
            let mut r = raw.clone();
            f(&mut r);
            variants.push((format!("{}-bad-{}", name, m), r.proof().unwrap(), prog.clone()));
        }
        let mut q = prog.clone();
        if let Some(Op::Constrain(_, o)) = q.last_mut() {
            *o = 1
        }
        variants.push((format!("{}-bad-statement", name), p.proof.clone(), q));
        for (n, proof, prog) in variants {
            if let Some(t) = tup(&proof, &prog) {
                let ok = matches!(guarded(|| verify(&prog, &p.comms, &proof, pc, bp, b"c05")), Ok(Ok(())));
                // the tuple and the direct verdict agree
                ctx.require(ok == value(&t, &gens).is_zero(), "tuple", || format!("{}: verify says {}, its equation says {}", n, ok, !ok));
                ctx.eval(Some(&n));
                real.push(T { name: n, t, ok });
            }
        }
    }
    // synthetic tuples: everything zero but one slot (invalid), or balanced by a dependent point (valid)
    let mut synth: Vec<T> = vec![];
    for n in [1usize, 2, 4, 8] {
        for slot in 0..2 + 2 * n {
            if n >= 4 && !(slot < 3 || slot == n + 1 || slot == n + 2 || slot == 1 + 2 * n) {
                continue;
            }
            let mut ind = vec![F::zero(); 2 + 2 * n];
            ind[slot] = F::from(5u64);
            let point = if slot == 0 { pc.B } else if slot == 1 { pc.B_blinding } else if slot < 2 + n { gens.g[slot - 2] } else { gens.h[slot - 2 - n] };
            for ok in [true, false] {
                let t = VerificationTuple {
                    proof_dependent_points: if ok { vec![point] } else { vec![] },
                    proof_dependent_scalars: if ok { vec![-F::from(5u64)] } else { vec![] },
                    proof_independent_scalars: ind.clone(),
                };
                synth.push(T { name: format!("n{}-slot{}-{}", n, slot, if ok { "ok" } else { "bad" }), t, ok });
            }
        }
    }
    let bps: Vec<(usize, BulletproofGens<C>)> = [1usize, 2, 4, 8, 16].iter().map(|c| (*c, BulletproofGens::new(*c, 1))).collect();
    let judge = |seq: &[&T], cap: usize| {
        let ts: Vec<_> = seq.iter().map(|t| clone(&t.t)).collect();
        let need = seq.iter().map(|t| size(&t.t)).max().unwrap_or(0);
        let gens = &bps.iter().find(|b| b.0 == cap).unwrap().1;
        let r = guarded(|| batch_verify(ts, pc, gens));
        let names = || seq.iter().map(|t| t.name.clone()).collect::<Vec<_>>().join(", ");
        ctx.eval(if seq.is_empty() { None } else { Some(names()) }.as_deref());
        match r {
            Err(e) => ctx.violation("panic", format!("[{}] capacity {}: {}", names(), cap, e)),
            Ok(r) => {
                if need > cap {
                    ctx.require(r.is_err(), "capacity", || format!("[{}] accepted with capacity {}", names(), cap));
                } else {
                    let want = seq.iter().all(|t| t.ok);
                    ctx.require(r.is_ok() == want, if want { "rejects-valid" } else { "accepts-invalid" }, || format!("[{}] capacity {}: batch says {:?}, each alone says {}", names(), cap, r, want));
                }
            }
        }
    };
    // empty batch: no proof is wrong
    judge(&[], 1);
    // singles and pairs over everything
    let all: Vec<&T> = real.iter().chain(&synth).collect();
    for t in &all {
        for (c, _) in &bps {
            judge(&[t], *c);
        }
    }
    ctx.cases(&all, |t| t.name.clone(), |a| {
        for b in &all {
            judge(&[a, b], 16);
            let need = size(&a.t).max(size(&b.t));
            for (c, _) in &bps {
                if *c < 16 && (*c == need || *c * 2 == need) {
                    judge(&[a, b], *c);
                }
            }
        }
    });
    // longer sequences over a smaller alphabet
    let pickn = |n: &str| -> &T { all.iter().find(|t| t.name == n).copied().unwrap_or_else(|| panic!("no tuple {}", n)) };
    let names = ["commit-ok", "gate-ok", "gates3-ok", "phase2-ok", "vecs-ok", "gates5-ok", "gate-bad-tx", "gates3-bad-b", "vecs-bad-AO", "gates5-bad-eb", "n1-slot3-ok", "n2-slot2-ok", "n4-slot9-ok", "n1-slot3-bad", "n2-slot3-bad", "n4-slot5-bad"];
    let alpha: Vec<&T> = names.iter().map(|n| pickn(n)).collect();
    let depth = ctx.pick(4, 5);
    ctx.note("depth", format!("sequences up to length {} over {} tuples, pairs over {}", depth, alpha.len(), all.len()));
    let idx: Vec<usize> = (0..alpha.len() * alpha.len()).collect();
    ctx.cases(&idx, |i| format!("{}", i), |i| {
        let (a, b) = (alpha[i / alpha.len()], alpha[i % alpha.len()]);
        for c in &alpha {
            judge(&[a, b, c], 16);
            if depth >= 4 {
                for d in &alpha {
                    judge(&[a, b, c, d], 16);
                    if depth == 5 {
                        for e in &alpha {
                            judge(&[a, b, c, d, e], 16);
                        }
                    }
                }
            }
        }
    });
    // errors built to cancel under weak batching weights
    let point = C::generator();
    let err = |k: i64, n: usize| T {
        name: format!("{}E(n={})", k, n),
        t: VerificationTuple { proof_dependent_points: vec![point], proof_dependent_scalars: vec![f::<F>(k)], proof_independent_scalars: vec![F::zero(); 2 + 2 * n] },
        ok: k == 0,
    };
    let ks: Vec<i64> = vec![0, 1, -1, 2, -2, 3];
    let len = ctx.pick(4, 5);
    let mut vecs: Vec<Vec<i64>> = vec![vec![]];
    for _ in 0..len {
        vecs = vecs.iter().flat_map(|v| ks.iter().map(move |k| { let mut w = v.clone(); w.push(*k); w })).collect();
    }
    ctx.cases(&vecs, |v| format!("{:?}", v), |v| {
        let ts: Vec<T> = v.iter().map(|k| err(*k, 1)).collect();
        judge(&ts.iter().collect::<Vec<_>>(), 1);
    });
    // the same errors through the generators, in pairs of different sizes
    for (na, nb) in [(1usize, 1usize), (1, 2), (2, 1), (2, 4), (4, 4)] {
        for sa in 0..2 + 2 * na {
            for k in [1i64, -1, 2] {
                let mut a = err(0, na);
                a.t.proof_independent_scalars[sa] = F::one();
                a.ok = false;
                a.name = format!("n={} slot {}", na, sa);
                for sb in 0..2 + 2 * nb {
                    let mut b = err(0, nb);
                    b.t.proof_independent_scalars[sb] = f::<F>(k);
                    b.ok = false;
                    b.name = format!("n={} slot {} times {}", nb, sb, k);
                    judge(&[&a, &b], 16);
                }
            }
        }
    }
    // guessable weights: error k in position 0 against -1 in position p, and k in p against -1 in q
    let bound: i64 = ctx.pick(70_000, 1_000_000);
    let chunks: Vec<i64> = (0..bound / 1000).collect();
    ctx.cases(&chunks, |c| format!("weights from {}", c * 1000), |c| {
        for k in c * 1000..(c + 1) * 1000 {
            let (a, b, z) = (err(k, 1), err(-1, 1), err(0, 1));
            let r = batch_verify(vec![clone(&a.t), clone(&b.t)], pc, &bps[0].1).is_ok();
            let r2 = k < 2000 && batch_verify(vec![clone(&z.t), clone(&a.t), clone(&b.t)], pc, &bps[0].1).is_ok();
            ctx.add("evaluations", 1);
            ctx.require(!r && !r2, "weight", || format!("errors {}E and -E cancel", k));
        }
    });
    // opposite errors at every pair of positions of longer batches, among valid tuples of several sizes
    let longest: usize = ctx.pick(12, 40);
    let pairs: Vec<(usize, usize, usize)> = (2..=longest).flat_map(|n| (0..n).flat_map(move |p| (p + 1..n).map(move |q| (n, p, q)))).collect();
    ctx.cases(&pairs, |(n, p, q)| format!("batch of {} with opposite errors at {} and {}", n, p, q), |(n, p, q)| {
        for sizes in 0..2 {
            let ts: Vec<T> = (0..*n).map(|i| err(if i == *p { 1 } else if i == *q { -1 } else { 0 }, if sizes == 0 { 1 } else { [1, 4, 2][i % 3] })).collect();
            judge(&ts.iter().collect::<Vec<_>>(), 4);
        }
    });
    // the weights are drawn by the verifier, afresh for every batch: enough randomness for one full weight at least
    for len in 2..=5usize {
        let mut draws = vec![];
        for fill in 0..2 {
            let ts: Vec<_> = (0..len).map(|_| clone(&err(fill, 1).t)).collect();
            rand::probe::start(9, None);
            let _ = guarded(|| batch_verify(ts, pc, &bps[0].1));
            draws.push(rand::probe::lengths().iter().sum::<usize>());
            rand::probe::stop();
        }
        ctx.eval(None);
        ctx.add("weight_bytes", draws[0] as u64);
        // (weights computed from the tuples themselves would need no randomness: the candidates below judge those)
        ctx.require(draws.iter().all(|d| *d == 0 || *d >= 8), "weight-draws", || format!("batch of {} draws only {:?} bytes of randomness", len, draws));
    }
    // predictable weights: errors chosen for the output of generators that anybody can run
    let mut guesses: Vec<(String, [F; 3])> = vec![];
    {
        use rand::SeedableRng;
        let mut add = |name: String, r: &mut dyn rand::RngCore| {
            let mut r = r;
            guesses.push((name, std::array::from_fn(|_| <F as ark_std::UniformRand>::rand(&mut r))))
        };
        for seed in 0..ctx.pick(2_000u64, 70_000) {
            add(format!("StdRng::seed_from_u64({})", seed), &mut rand::rngs::StdRng::seed_from_u64(seed));
        }
        for b in 0..=255u8 {
            add(format!("StdRng::from_seed([{}; 32])", b), &mut rand::rngs::StdRng::from_seed([b; 32]));
        }
        for n in 0..=32usize {
            let mut seed = [0u8; 32];
            (0..n).for_each(|i| seed[i] = i as u8);
            add(format!("StdRng::from_seed(0..{})", n), &mut rand::rngs::StdRng::from_seed(seed));
        }
        for (name, text) in [("label", &b"batch_verify"[..]), ("name", b"bulletproofs"), ("name", b"curve_trees")] {
            let mut seed = [0u8; 32];
            seed[..text.len()].copy_from_slice(text);
            add(format!("StdRng::from_seed({})", name), &mut rand::rngs::StdRng::from_seed(seed));
        }
        add("ark_std::test_rng".into(), &mut ark_std::test_rng());
    }
    ctx.note("predictable_generators", format!("{}", guesses.len()));
    ctx.cases(&guesses, |g| g.0.clone(), |(name, w)| {
        let e = |k: F| VerificationTuple { proof_dependent_points: vec![point], proof_dependent_scalars: vec![k], proof_independent_scalars: vec![F::zero(); 4] };
        let z = F::zero();
        // positions 0 and 1, 1 and 2; the first draw may belong to position 0 or to position 1
        let sets = [vec![e(w[0]), e(-F::one())], vec![e(w[1]), e(-w[0])], vec![e(z), e(w[1]), e(-w[0])], vec![e(z), e(w[2]), e(-w[1])]];
        for (i, s) in sets.into_iter().enumerate() {
            ctx.add("evaluations", 1);
            let r = batch_verify(s, pc, &bps[0].1).is_ok();
            ctx.require(!r, "weight-predicted", || format!("wrong tuples computed for {} (set {}) cancel", name, i));
        }
    });
    // sanity of the previous step: with the generator of this thread scripted, the prediction is right or the weights are not plain draws
    rand::probe::start(9, None);
    let (w, _) = (<F as ark_std::UniformRand>::rand(&mut rand::thread_rng()), rand::probe::stop());
    rand::probe::start(9, None);
    let e = |k: F| VerificationTuple { proof_dependent_points: vec![point], proof_dependent_scalars: vec![k], proof_independent_scalars: vec![F::zero(); 4] };
    let hit = guarded(|| batch_verify(vec![e(w), e(-F::one())], pc, &bps[0].1)).map(|r| r.is_ok());
    rand::probe::stop();
    ctx.note("weights_are_plain_draws", format!("{:?}", hit));
    ctx.sample(|| format!("{} tuples, e.g. {} (size {}, {})", all.len(), all[3].name, size(&all[3].t), all[3].ok));
    ctx.sample(|| "[n1-slot3-ok, n2-slot2-ok]".into());
    let _ = Field::inverse(&F::one());
    let _ = point.into_group().into_affine();
    ctx.finish();
}
