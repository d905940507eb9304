//! C02: no proof verifies for an unsatisfied circuit, whatever the (algebraic) prover sends.
use ark_ec::AffineRepr;
use ark_ff::{Field, One, UniformRand, Zero};
use bulletproofs::{BulletproofGens, PedersenGens};
use ctmc::circuit::*;
use ctmc::curves::*;
use ctmc::oracle::*;
use ctmc::raw::Raw;
use ctmc::{guarded, Ctx};
use rand::rngs::StdRng;
use rand::SeedableRng;

type C = m61::EvenA;
type F = <C as AffineRepr>::ScalarField;

fn letter(a: usize, prog: &Prog) -> Op {
    let k = prog.len() as i64;
    let n = nvars(prog);
    let all = |m: i64| -> L { L { t: (0..n).map(|i| (i, (i as i64 + 2) * m - 1)).collect(), c: k - 1 } };
    match a {
        0 => Op::AllocMul(3 + k, -2 - k),
        1 => Op::CommitVec(vec![4 + k]),
        2 => Op::CommitVec(vec![6 + k, -3]),
        3 => Op::Commit(7 - k),
        4 => Op::Mul(if n > 0 { lc(&[(0, 1)], 1) } else { lc(&[], 2) }, if n > 1 { lc(&[(1, 1)], -2) } else { lc(&[], 3) }),
        5 => Op::Alloc(5 + k),
        6 => Op::Phase2(vec![Op2::ConstrainC(all(3), 0)]),
        7 => Op::Phase2(vec![Op2::MulC(lc(&[], 2), lc(&[], 3))]),
        _ => unreachable!(),
    }
}

#[derive(Clone, Debug)]
enum Base {
    /// a linear constraint is off by one
    Off(usize),
    /// a second-phase constraint is off by one
    Off2(usize),
    /// output of gate `g` is off by one, linear constraints adjusted to hold
    Gate(usize),
}

/// prog as the verifier sees it
fn apply(prog: &Prog, b: &Base) -> Prog {
    let mut p = prog.clone();
    match b {
        Base::Off(i) => {
            if let Op::Constrain(_, o) = &mut p[*i] {
                *o = 1
            }
        }
        Base::Off2(i) => {
            if let Op::Phase2(ops) = &mut p[*i] {
                for o in ops {
                    if let Op2::ConstrainC(_, o) = o {
                        *o = 1
                    }
                }
            }
        }
        Base::Gate(g) => {
            let rc = RefCirc::<F>::new(prog, &[]);
            let var = rc.vars.iter().position(|v| *v == RV::Ot(*g));
            if let Some(var) = var {
                for op in p.iter_mut() {
                    match op {
                        Op::Constrain(l, o) => *o = -l.t.iter().filter(|(i, _)| *i == var).map(|(_, c)| *c).sum::<i64>(),
                        Op::Phase2(ops) => {
                            for op in ops {
                                if let Op2::ConstrainC(l, o) = op {
                                    *o = -l.t.iter().filter(|(i, _)| *i == var).map(|(_, c)| *c).sum::<i64>();
                                }
                            }
                        }
                        _ => {}
                    }
                }
            }
        }
    }
    p
}

#[derive(Clone, Copy, Debug, PartialEq)]
struct Dev {
    msg: usize,
    h: bool,
    i: usize,
}

struct Sham {
    qs: Vec<Q<F>>,
    lam: Vec<F>,
    rc: RefCirc<F>,
}

/// messages (without blinding) of a prover that uses the assignment `rc`
fn msgs(rc: &RefCirc<F>, nn: usize, rng: Option<&mut StdRng>) -> Vec<Alg<F>> {
    let mut out = vec![];
    for v in &rc.vecs {
        let mut a = Alg::new(nn);
        for (i, x) in v.iter().enumerate() {
            a.g[i] = *x;
        }
        out.push(a);
    }
    let (n1, n) = (rc.n1, rc.n);
    for (lo, hi) in [(0, n1), (n1, n)] {
        let mut ai = Alg::new(nn);
        let mut ao = Alg::new(nn);
        let mut s = Alg::new(nn);
        for i in lo..hi {
            ai.g[i] = rc.al[i];
            ai.h[i] = rc.ar[i];
            ao.g[i] = rc.ao[i];
            s.g[i] = F::from(1000 + i as u64);
            s.h[i] = F::from(2000 + 7 * i as u64);
        }
        if let Some(_) = rng {}
        out.extend([ai, ao, s]);
    }
    out
}

/// The verifier does not check an equation of the form the soundness argument needs (in the terms of the
/// verifier's own output: independent of how it is computed).
fn mismatch(ctx: &Ctx, prog: &Prog, what: &str) {
    ctx.add("model_mismatch", 1);
    ctx.violation("verification-equation", format!("program {}: the verification equation is not that of the protocol ({})", show(prog), what));
}

/// A large circuit whose constraints must have independent weights.
#[derive(Clone, Debug)]
enum Weights {
    /// k constraints in each phase, one at a time not empty, on one kind of variable
    Kind(&'static str, usize),
    /// k constraints, each on its own commitment
    Commitments(usize),
    /// k gates
    Gates(&'static str, usize),
}

/// The scalars of the verifier's equation, with its own randomness fixed: (point, scalar) then the fixed generators.
fn scalars(prog: &Prog, comms: &[C], proof: &bulletproofs::r1cs::R1CSProof<C>, bp: &BulletproofGens<C>, label: &'static [u8]) -> Option<(Vec<(C, F)>, Vec<F>)> {
    rand::probe::start(42, None);
    let t = guarded(|| verifier(prog, comms, bp, label).ok()?.verification_scalars_and_points(proof).ok());
    rand::probe::stop();
    let t = t.ok().flatten()?;
    Some((t.proof_dependent_points.into_iter().zip(t.proof_dependent_scalars).collect(), t.proof_independent_scalars))
}

/// The weights of two violated constraints must not have a ratio that is known before the challenges: their
/// ratios under two unrelated sets of challenges differ. `w[c][i]`: weight of i under set c.
fn independent(ctx: &Ctx, what: &str, w: &[Vec<F>; 2]) {
    let mut seen = std::collections::HashMap::new();
    for i in 0..w[0].len() {
        ctx.add("weights_compared", 1);
        let (a, b) = (w[0][i], w[1][i]);
        if a.is_zero() || b.is_zero() {
            return ctx.violation("constraint-weight", format!("{}: number {} has no weight in the verifier's equation", what, i));
        }
        let q = a * b.inverse().unwrap();
        if let Some(j) = seen.insert(q, i) {
            return ctx.violation("constraint-weight", format!("{}: the weights of numbers {} and {} have the same ratio whatever the challenges: opposite violations cancel", what, j, i));
        }
    }
}

fn weights(ctx: &Ctx, case: &Weights) {
    let labels: [&'static [u8]; 2] = [b"c02-w0", b"c02-w1"];
    let what = format!("{:?}", case);
    let fail = |s: &str| ctx.violation("constraint-weight", format!("{}: {}", what, s));
    match case {
        Weights::Kind(kind, k) => {
            let (pc, bp) = (PedersenGens::<C>::default(), BulletproofGens::<C>::new(4, 1));
            let (l, off) = match *kind {
                "committed" => (lc(&[(0, 1)], 0), 0),
                "vector" => (lc(&[(2, 1)], 0), 0),
                "left" => (lc(&[(3, 1)], 0), 0),
                "right" => (lc(&[(4, 1)], 0), 0),
                "output" => (lc(&[(5, 1)], 0), 0),
                _ => (lc(&[], 0), 1),
            };
            let prog = |i: usize| -> Prog {
                let at = |j: usize| if i == j { (l.clone(), off) } else { (lc(&[], 0), 0) };
                let mut p = vec![Op::Commit(0), Op::CommitVec(vec![0, 0]), Op::AllocMul(0, 0)];
                p.extend((0..*k).map(|j| Op::Constrain(at(j).0, at(j).1)));
                p.push(Op::Phase2((0..*k).map(|j| Op2::ConstrainC(at(k + j).0, at(k + j).1)).collect()));
                p
            };
            let honest = match guarded(|| prove(&prog(usize::MAX), &pc, &bp, labels[0])) {
                Ok(Ok(p)) => p,
                o => return fail(&format!("no proof: {:?}", o.err())),
            };
            let mut w = [vec![], vec![]];
            for (c, label) in labels.iter().enumerate() {
                let run = |i| scalars(&prog(i), &honest.comms, &honest.proof, &bp, label).map(|(d, i)| d.into_iter().map(|x| x.1).chain(i).collect::<Vec<F>>());
                let base = match run(usize::MAX) {
                    Some(b) => b,
                    None => return fail("the verifier has no equation"),
                };
                let mut first: Option<Vec<F>> = None;
                for i in 0..2 * k {
                    ctx.eval(None);
                    let d: Vec<F> = match run(i) {
                        Some(x) if x.len() == base.len() => x.iter().zip(&base).map(|(a, b)| *a - b).collect(),
                        _ => return fail("the verifier has no equation"),
                    };
                    let f = first.get_or_insert_with(|| d.clone());
                    let p = match f.iter().position(|x| !x.is_zero()) {
                        Some(p) => p,
                        None => return fail("a constraint has no weight in the verifier's equation"),
                    };
                    let rho = d[p] * f[p].inverse().unwrap();
                    if d.iter().zip(f.iter()).any(|(a, b)| *a != *b * rho) {
                        return fail(&format!("constraint {} enters the verifier's equation in another way than constraint 0", i));
                    }
                    w[c].push(rho * f[p]);
                }
            }
            independent(ctx, &what, &w);
        }
        Weights::Commitments(k) => {
            let (pc, bp) = (PedersenGens::<C>::default(), BulletproofGens::<C>::new(4, 1));
            let mut p: Prog = vec![Op::Commit(0); *k];
            p.extend((0..*k).map(|i| Op::Constrain(lc(&[(i, 1)], 0), 0)));
            let honest = match guarded(|| prove(&p, &pc, &bp, labels[0])) {
                Ok(Ok(p)) => p,
                o => return fail(&format!("no proof: {:?}", o.err())),
            };
            let mut w = [vec![], vec![]];
            for (c, label) in labels.iter().enumerate() {
                ctx.eval(None);
                let mut at = std::collections::HashMap::new();
                match scalars(&p, &honest.comms, &honest.proof, &bp, label) {
                    Some((d, _)) => d.into_iter().for_each(|(p, s)| *at.entry(p).or_insert(F::zero()) += s),
                    None => return fail("the verifier has no equation"),
                }
                w[c] = honest.comms.iter().map(|p| at.get(p).copied().unwrap_or(F::zero())).collect();
            }
            independent(ctx, &what, &w);
        }
        Weights::Gates(kind, k) => {
            let (pc, bp) = (PedersenGens::<C>::default(), BulletproofGens::<C>::new(*k, 1));
            let o = match *kind {
                "left" => 0,
                "right" => 1,
                _ => 2,
            };
            let base: Prog = vec![Op::AllocMul(0, 0); *k];
            let mut p = base.clone();
            p.push(Op::Constrain(L { t: (0..*k).map(|i| (3 * i + o, 1)).collect(), c: 0 }, 0));
            let honest = match guarded(|| prove(&base, &pc, &bp, labels[0])) {
                Ok(Ok(p)) => p,
                o => return fail(&format!("no proof: {:?}", o.err())),
            };
            let mut w = [vec![], vec![]];
            for (c, label) in labels.iter().enumerate() {
                ctx.eval(None);
                match (scalars(&p, &[], &honest.proof, &bp, label), scalars(&base, &[], &honest.proof, &bp, label)) {
                    (Some(a), Some(b)) => w[c] = a.1.iter().zip(&b.1).map(|(x, y)| *x - y).filter(|d| !d.is_zero()).collect(),
                    _ => return fail("the verifier has no equation"),
                }
                if w[c].len() != *k {
                    return fail(&format!("{} of the gates enter the verifier's equation", w[c].len()));
                }
            }
            independent(ctx, &what, &w);
        }
    }
}

fn main() {
    let ctx = Ctx::new("C02", "fault_enumeration");
    ctx.note("rule", "every program of at most d operations x every single violated constraint or gate x every single deviation (message, generator family, position) of an algebraic prover with the coefficient that would cancel the violation solved for, every pair of deviations (first coefficient 1), and the undeviated strategy; candidate coefficients are turned into real proofs and given to the real verifier");
    let mut big = vec![Weights::Commitments(ctx.pick(70_000, 300_000))];
    for kind in ["left", "right", "output"] {
        big.push(Weights::Gates(kind, ctx.pick(1 << 12, 1 << 15)));
    }
    for kind in ["committed", "vector", "left", "right", "output", "constant"] {
        big.push(Weights::Kind(kind, ctx.pick(300, 1100)));
    }
    ctx.note("weights", format!("{:?}", big));
    ctx.cases(&big, |w| format!("{:?}", w), |w| weights(ctx, w));
    let nmax = 16;
    let gens = Gens::<C>::new(nmax);
    let depth = ctx.pick(3, 4);
    let mut words: Vec<Vec<usize>> = vec![vec![]];
    let mut layer = words.clone();
    for _ in 0..depth {
        let mut nl = vec![];
        for w in &layer {
            for a in 0..8 {
                let mut w2 = w.clone();
                w2.push(a);
                nl.push(w2);
            }
        }
        words.extend(nl.iter().cloned());
        layer = nl;
    }
    let mk = |w: &Vec<usize>| -> Prog {
        let mut p: Prog = vec![];
        for a in w {
            let o = letter(*a, &p);
            p.push(o);
        }
        let n = nvars(&p);
        p.push(Op::Constrain(L { t: (0..n).map(|i| (i, 2 * i as i64 + 1)).collect(), c: 5 }, 0));
        p
    };
    let words: Vec<Vec<usize>> = words
        .into_iter()
        .filter(|w| {
            let p = mk(w);
            let (n1, n2) = gates(&p);
            // at least one gate or commitment, no unsupported combination, at most one second-phase callback kind twice
            (n1 + n2 >= 1 || w.contains(&3)) && !(n2 > 0 && nvec(&p) > 0) && n1 + n2 <= nmax
        })
        .collect();
    let mut progs: Vec<(String, Prog, bool)> =
        words.iter().map(|w| (format!("{:?}", w), mk(w), w.len() <= ctx.pick(2, 3))).collect();
    // several constraints, each on one kind of variable
    let one = |i: usize| Op::Constrain(lc(&[(i, 3)], -2), 0);
    let ext: Vec<(&str, Prog)> = vec![
        ("kinds", vec![Op::Commit(3), Op::CommitVec(vec![4, 5]), Op::AllocMul(6, 7), one(0), one(1), one(2), one(3), one(4), one(5)]),
        ("kinds2", vec![Op::Commit(3), Op::AllocMul(6, 7), Op::Phase2(vec![Op2::ConstrainC(lc(&[(0, 2)], 1), 0), Op2::ConstrainC(lc(&[(3, 2)], 1), 0)]), one(0), one(1), one(2), one(3)]),
        ("constant", vec![Op::AllocMul(6, 7), Op::Constrain(lc(&[], 4), 0), one(2)]),
        ("repeated", vec![Op::Commit(3), Op::AllocMul(6, 7), Op::Constrain(lc(&[(0, 1), (0, 2), (3, 4), (3, -1), (1, 0)], 4), 0)]),
        ("commits", vec![Op::Commit(3), Op::Commit(4), Op::Commit(5), Op::Constrain(lc(&[(0, 1), (2, 2)], 0), 0), one(1), one(2)]),
        ("vec3", vec![Op::CommitVec(vec![1, 2]), Op::CommitVec(vec![3]), Op::CommitVec(vec![4, 5, 6]), Op::AllocMul(2, 3), one(0), one(2), one(5), one(8)]),
        ("vec4", vec![Op::CommitVec(vec![1]), Op::CommitVec(vec![3, 9]), Op::CommitVec(vec![4]), Op::CommitVec(vec![7]), Op::AllocMul(2, 3), one(0), one(2), one(3), one(4), one(7)]),
        ("vec5", vec![Op::CommitVec(vec![1]), Op::CommitVec(vec![3]), Op::CommitVec(vec![4]), Op::CommitVec(vec![7]), Op::CommitVec(vec![8]), Op::AllocMul(2, 3), one(0), one(3), one(4), one(7)]),
        ("vec5big", vec![Op::CommitVec(vec![1, 2, 3, 4, 5]), Op::AllocMul(2, 3), Op::AllocMul(4, 3), one(0), one(4), one(7), one(10)]),
        ("gates5", (0..5).map(|i| Op::AllocMul(i + 2, i + 3)).chain([one(2), one(5), one(14)]).collect()),
        ("gates9", (0..9).map(|i| Op::AllocMul(i + 2, i + 3)).chain([one(0), one(1), one(26)]).collect()),
        ("vec-phase2", vec![Op::CommitVec(vec![1, 2]), Op::CommitVec(vec![5]), Op::AllocMul(2, 3), Op::Phase2(vec![Op2::ConstrainC(lc(&[(0, 2), (2, 1)], 1), 0), Op2::ConstrainC(lc(&[(5, 2)], 1), 0)]), one(1)]),
        ("phase2-many", vec![Op::AllocMul(2, 3), Op::Phase2(vec![Op2::MulC(lc(&[], 2), lc(&[], 3)), Op2::ConstrainC(lc(&[(2, 2)], 1), 0)]), Op::Phase2(vec![Op2::AllocMulC(4, 5), Op2::AllocC(3), Op2::AllocC(4)]), one(1)]),
        ("empty-vec", vec![Op::CommitVec(vec![]), Op::CommitVec(vec![2]), Op::AllocMul(2, 3), one(0), one(3)]),
    ];
    // the number of vector commitments decides the exponents at which they enter the combined polynomials
    let many: Vec<(String, Prog, bool)> = ctx
        .pick(vec![6, 7, 8, 9, 12, 18], (6..=20).collect::<Vec<_>>())
        .into_iter()
        .map(|k: usize| {
            let mut p: Prog = (0..k).map(|i| Op::CommitVec(vec![2 + i as i64])).collect();
            p.push(Op::AllocMul(2, 3));
            for i in 0..=k {
                p.push(one(i));
            }
            (format!("vec{}", k), p, false)
        })
        .collect();
    progs.extend(many);
    progs.extend(ext.into_iter().map(|(k, p)| (k.to_string(), p, ctx.thorough())));
    ctx.note("programs", format!("{} programs: all of depth <= {} over 8 letters, plus hand-picked larger ones", progs.len(), depth));
    ctx.cases(&progs, |w| w.0.clone(), |(w, prog, deep)| {
        let prog = prog.clone();
        let mut rng = StdRng::seed_from_u64(ctx.seed ^ 0xc02);
        let honest = match guarded(|| prove(&prog, &gens.pc, &gens.bp, b"c02")) {
            Ok(Ok(p)) => p,
            _ => {
                ctx.add("skipped_no_honest_proof", 1);
                return;
            }
        };
        let raw0 = match Raw::of(&honest.proof) {
            Some(r) => r,
            None => return,
        };
        let sh = match shape_of(&raw0) {
            Some(s) => s,
            None => {
                mismatch(ctx, &prog, "proof shape");
                return;
            }
        };
        let n = sh.n;
        let mut bases = vec![];
        for (i, op) in prog.iter().enumerate() {
            match op {
                Op::Constrain(..) => bases.push(Base::Off(i)),
                Op::Phase2(ops) if ops.iter().any(|o| matches!(o, Op2::ConstrainC(l, _) if !l.t.is_empty() || true)) => bases.push(Base::Off2(i)),
                _ => {}
            }
        }
        let rc0 = RefCirc::<F>::new(&prog, &[]);
        for g in 0..rc0.n1 {
            // gates whose output feeds a later multiplication input are covered by the others
            if rc0.vars.contains(&RV::Ot(g)) {
                let var = rc0.vars.iter().position(|v| *v == RV::Ot(g)).unwrap();
                let feeds = prog.iter().any(|o| matches!(o, Op::Mul(l, r) if l.t.iter().chain(&r.t).any(|(i, _)| *i == var)));
                if !feeds {
                    bases.push(Base::Gate(g));
                }
            }
        }
        // (0) the model is bound to the implementation: the algebraic prover proves the true statement
        let extra = std::cell::Cell::new(0usize);
        let run = |vprog: &Prog, devs: &[(Dev, F)], td: bool, bad: Option<&Base>, rng: &mut StdRng| -> Option<(bool, bool)> {
            // commitments
            let rc1 = RefCirc::<F>::new(vprog, &[]);
            let nv = rc1.vecs.len();
            let mut ms = msgs(&rc1, n, None);
            if let Some(Base::Gate(g)) = bad {
                let k = if *g < rc1.n1 { nv + 1 } else { nv + 4 };
                ms[k].g[*g] += F::one();
            }
            for m in ms.iter_mut() {
                m.bb = F::rand(rng);
            }
            let dev = |ms: &mut Vec<Alg<F>>| {
                for (d, b) in devs {
                    let t = &mut ms[d.msg];
                    if d.h {
                        t.h[d.i] += b
                    } else {
                        t.g[d.i] += b
                    }
                }
            };
            let vbl: Vec<F> = rc1.v.iter().map(|_| F::rand(rng)).collect();
            let mut full = ms.clone();
            dev(&mut full);
            let mut comms = vec![];
            let (mut a, mut b) = (0, 0);
            for op in vprog {
                match op {
                    Op::Commit(_) => {
                        comms.push(gens.pc.commit(rc1.v[a], vbl[a]));
                        a += 1
                    }
                    Op::CommitVec(_) => {
                        comms.push(gens.point(&full[b]));
                        b += 1
                    }
                    _ => {}
                }
            }
            let mut st = Stmt::new(&gens, vprog, comms, sh.clone(), b"c02");
            let a1 = [gens.point(&full[nv]), gens.point(&full[nv + 1]), gens.point(&full[nv + 2])];
            // learn the second-phase challenges
            let d0 = st.dummy(a1, [C::zero(); 3], rng);
            st.tuple(&d0);
            st.extra = extra.get();
            let ch = seen_challenges::<F>();
            let rc = RefCirc::<F>::new(vprog, &ch);
            let mut ms2 = msgs(&rc, n, None);
            for i in 0..nv + 3 {
                ms2[i] = ms[i].clone();
            }
            for i in nv + 3..nv + 6 {
                if rc.n > rc.n1 {
                    ms2[i].bb = F::rand(rng);
                }
            }
            dev(&mut ms2);
            let used2 = rc.n > rc.n1 || devs.iter().any(|(d, _)| d.msg >= nv + 3);
            let a2 = if used2 {
                [gens.point(&ms2[nv + 3]), gens.point(&ms2[nv + 4]), gens.point(&ms2[nv + 5])]
            } else {
                ms2.truncate(nv + 3);
                [C::zero(); 3]
            };
            // is the circuit satisfied by what the messages contain?
            let mut ex = rc.clone();
            for i in 0..rc.n {
                let o = if i < rc.n1 { nv } else { nv + 3 };
                if o < ms2.len() {
                    ex.al[i] = ms2[o].g[i];
                    ex.ar[i] = ms2[o].h[i];
                    ex.ao[i] = ms2[o + 1].g[i];
                }
            }
            for j in 0..nv {
                for i in 0..ex.vecs[j].len() {
                    ex.vecs[j][i] = ms2[j].g[i];
                }
            }
            let sat = ex.satisfied();
            let mut raw = st.finish(&ms2, &rc1.v, &vbl, a1, a2, rng)?;
            if td {
                raw.t[sh.d] = gens.pc.commit(F::one(), F::zero());
            }
            Some((st.verify(&raw), sat))
        };
        match run(&prog, &[], false, None, &mut rng) {
            Some((true, true)) => ctx.add("model_conformance_accepted", 1),
            o => {
                mismatch(ctx, &prog, &format!("true statement: {:?}, {}", o, why()));
                return;
            }
        }
        for b in &bases {
            let vprog = apply(&prog, b);
            // (1) undeviated
            match run(&vprog, &[], false, Some(b), &mut rng) {
                Some((acc, sat)) => {
                    ctx.eval(Some(&format!("{:?} {:?}", w, b)));
                    if acc && !sat {
                        ctx.violation("accepted-unsatisfied", format!("program {} violation {:?}: proof accepted", show(&prog), b));
                    }
                }
                None => ctx.add("strategy_infeasible", 1),
            }
            if let Some((acc, sat)) = guarded(|| run(&vprog, &[], true, Some(b), &mut rng)).ok().flatten() {
                ctx.eval(None);
                if acc && !sat {
                    ctx.violation("accepted-free-term", format!("program {} violation {:?}: accepted with a point in the absent T slot", show(&prog), b));
                }
            }
            // folding rounds the statement does not have prove any claimed inner product
            for e in [1, 2] {
                extra.set(e);
                let o = guarded(|| run(&vprog, &[], false, Some(b), &mut rng)).ok().flatten();
                extra.set(0);
                ctx.eval(None);
                if let Some((true, false)) = o {
                    ctx.violation("accepted-extra-rounds", format!("program {} violation {:?}: accepted with {} extra folding rounds", show(&prog), b, e));
                }
            }
            // (2) two independent sham runs: fields only
            let mut shams = vec![];
            for _ in 0..2 {
                let rc1 = RefCirc::<F>::new(&vprog, &[]);
                let nv = rc1.vecs.len();
                let mut pt = || -> C { (C::generator() * F::rand(&mut rng)).into() };
                let comms: Vec<C> = (0..nv + rc1.v.len()).map(|_| pt()).collect();
                let a1 = [pt(), pt(), pt()];
                let a2 = if sh.two_phase || nv == 0 { [pt(), pt(), pt()] } else { [C::zero(); 3] };
                let st = Stmt::new(&gens, &vprog, comms, sh.clone(), b"c02");
                let mut qs = vec![];
                for _ in 0..sh.tlen {
                    let d = st.dummy(a1, a2, &mut rng);
                    match st.query(&d) {
                        Some(q) => qs.push(q),
                        None => return mismatch(ctx, &vprog, &why()),
                    }
                }
                let ch = seen_challenges::<F>();
                let rc = RefCirc::<F>::new(&vprog, &ch);
                let xs: Vec<F> = qs.iter().map(|q| q.x).collect();
                let mut lam = vec![];
                for i in 0..xs.len() {
                    match weights_poly(&xs, i) {
                        Some(p) => lam.push(p[sh.d]),
                        None => return,
                    }
                }
                shams.push((st, Sham { qs, lam, rc }));
            }
            let nv = shams[0].1.rc.vecs.len();
            let nm = shams[0].1.qs[0].msg.len();
            let mut devs = vec![];
            for m in 0..nm {
                for h in [false, true] {
                    for i in 0..n {
                        devs.push(Dev { msg: m, h, i });
                    }
                }
            }
            // e(beta) = t_D - target
            let residual = |k: usize, ds: &[(Dev, F)]| -> F {
                let (st, s) = &shams[k];
                let mut ms = msgs(&s.rc, n, None);
                if let Base::Gate(g) = b {
                    let o = if *g < s.rc.n1 { nv + 1 } else { nv + 4 };
                    ms[o].g[*g] += F::one();
                }
                for (d, x) in ds {
                    if d.h {
                        ms[d.msg].h[d.i] += x
                    } else {
                        ms[d.msg].g[d.i] += x
                    }
                }
                let mut t = F::zero();
                for (q, lam) in s.qs.iter().zip(&s.lam) {
                    let (l, r) = st.lr(q, &ms[..nm.min(ms.len())]);
                    t += *lam * l.iter().zip(&r).map(|(a, b)| *a * b).sum::<F>();
                }
                let q = &s.qs[0];
                let mut target = q.target;
                for (w, v) in q.wv.iter().zip(&s.rc.v) {
                    target += *w * v;
                }
                t - target
            };
            let roots = |ds: &[(Dev, F)], d: Dev| -> Vec<F> {
                let two_inv = F::from(2u64).inverse().unwrap();
                let poly = |k: usize| {
                    let at = |x: F| {
                        let mut v = ds.to_vec();
                        v.push((d, x));
                        residual(k, &v)
                    };
                    let (e0, e1, em) = (at(F::zero()), at(F::one()), at(-F::one()));
                    let c2 = (e1 + em) * two_inv - e0;
                    let c1 = (e1 - em) * two_inv;
                    (e0, c1, c2)
                };
                let (c0, c1, c2) = poly(0);
                let cand: Vec<F> = if c2.is_zero() {
                    if c1.is_zero() {
                        vec![]
                    } else {
                        vec![-c0 * c1.inverse().unwrap()]
                    }
                } else {
                    let disc = c1 * c1 - F::from(4u64) * c2 * c0;
                    match disc.sqrt() {
                        None => vec![],
                        Some(s) => {
                            let i = (c2 + c2).inverse().unwrap();
                            vec![(-c1 + s) * i, (-c1 - s) * i]
                        }
                    }
                };
                if cand.is_empty() {
                    return vec![];
                }
                let (d0, d1, d2) = poly(1);
                cand.into_iter().filter(|x| (d0 + d1 * x + d2 * *x * x).is_zero()).collect()
            };
            let attempt = |ds: Vec<(Dev, F)>, rng: &mut StdRng| {
                ctx.add("candidates_built", 1);
                if let Some((acc, sat)) = run(&vprog, &ds, false, Some(b), rng) {
                    if acc && !sat {
                        let nvv = nv;
                        let what = |d: &Dev| {
                            let names = ["A_I1", "A_O1", "S1", "A_I2", "A_O2", "S2"];
                            format!(
                                "{}[{}{}]",
                                if d.msg < nvv { format!("vector commitment {}", d.msg) } else { names[d.msg - nvv].into() },
                                if d.h { "H" } else { "G" },
                                d.i
                            )
                        };
                        ctx.violation(
                            "forged",
                            format!(
                                "program {} violation {:?}: the verifier accepts a proof with stray components {:?}",
                                show(&prog),
                                b,
                                ds.iter().map(|(d, _)| what(d)).collect::<Vec<_>>()
                            ),
                        );
                    } else if acc {
                        ctx.add("candidates_satisfying", 1);
                    }
                }
            };
            for d in &devs {
                ctx.eval(Some(&format!("{:?} {:?} {:?}", w, b, d)));
                for r in roots(&[], *d) {
                    attempt(vec![(*d, r)], &mut rng);
                }
            }
            if *deep {
                for d1 in &devs {
                    for d2 in &devs {
                        if d1 == d2 {
                            continue;
                        }
                        ctx.add("evaluations", 1);
                        for r in roots(&[(*d1, F::one())], *d2) {
                            attempt(vec![(*d1, F::one()), (*d2, r)], &mut rng);
                        }
                    }
                }
            }
            ctx.sample_cat(&format!("{:?}", b).chars().take(4).collect::<String>(), || format!("{} violated by {:?}, {} deviations", show(&prog), b, devs.len()));
        }
    });
    ctx.note("assume1", "algebraic provers: every message is a known combination of the generators; discrete logarithms between generators are unknown");
    ctx.finish();
}
