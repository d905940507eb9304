//! C01: every satisfied circuit proves and verifies.
use ark_ec::AffineRepr;
use bulletproofs::{BulletproofGens, PedersenGens};
use ctmc::circuit::*;
use ctmc::curves::*;
use ctmc::{guarded, Ctx};

fn check<C: AffineRepr>(ctx: &Ctx, prog: &Prog, pc: &PedersenGens<C>, bp: &BulletproofGens<C>, cname: &str, key: &str) {
    let (n1, n2) = gates(prog);
    let unsupported = n2 > 0 && nvec(prog) > 0;
    let padded = (n1 + n2).next_power_of_two();
    let small = bp.gens_capacity < padded;
    let name = format!("{} cap={} {}", cname, bp.gens_capacity, show(prog));
    ctx.eval(if prog.is_empty() { None } else { Some(&name) });
    let r = guarded(|| prove(prog, pc, bp, b"c01"));
    if unsupported {
        // documented limitation: refused by the prover, never a wrong proof
        if let Ok(Ok(p)) = &r {
            let v = guarded(|| verify(prog, &p.comms, &p.proof, pc, bp, b"c01"));
            ctx.require(matches!(v, Ok(Ok(()))), key, || format!("unsupported combination neither refused nor valid: {} -> {:?}", name, v));
        }
        ctx.add("refused_unsupported", 1);
        return;
    }
    if small {
        ctx.require(!matches!(r, Ok(Ok(_))), "capacity-prover", || format!("prover did not report insufficient generators: {}", name));
        if n1 <= bp.gens_capacity {
            // no commitment needed more generators than there are, so this must be an error value
            ctx.require(matches!(r, Ok(Err(_))), "capacity-prover-panics", || format!("{}: {:?}", name, r.as_ref().err()));
        }
        ctx.add("insufficient_capacity", 1);
        return;
    }
    match r {
        Ok(Ok(p)) => {
            let v = guarded(|| verify(prog, &p.comms, &p.proof, pc, bp, b"c01"));
            ctx.require(matches!(v, Ok(Ok(()))), key, || format!("honest proof rejected ({:?}): {}", v, name));
            if padded > 1 {
                let bp_small = BulletproofGens::<C>::new(padded / 2, 1);
                let v = guarded(|| verify(prog, &p.comms, &p.proof, pc, &bp_small, b"c01"));
                ctx.require(matches!(v, Ok(Err(_))), "capacity-verifier", || format!("verifier with too few generators: {:?}: {}", v, name));
            }
            ctx.add("proofs_accepted", 1);
            ctx.sample(|| name.clone());
        }
        Ok(Err(e)) => ctx.violation(key, format!("prover error {:?}: {}", e, name)),
        Err(e) => ctx.violation(key, format!("prover panicked ({}): {}", e, name)),
    }
}

fn fin(mut p: Prog) -> Prog {
    let n = nvars(&p);
    p.push(Op::Constrain(L { t: (0..n).map(|i| (i, 2 * i as i64 + 1)).collect(), c: 5 }, 0));
    p
}

fn main() {
    let ctx = Ctx::new("C01", "exploration");
    ctx.note("rule", "every program of at most d operations over a 10-letter alphabet of constraint-system operations (each followed by a constraint over all variables), every shape in the listed grids; non-trivial: at least one operation");
    type C = m61::EvenA;
    let pc = PedersenGens::<C>::default();
    let bp = BulletproofGens::<C>::new(64, 1);

    // 1. all programs up to the depth
    let depth = ctx.pick(4, 5);
    let mut all: Vec<Vec<usize>> = vec![vec![]];
    let mut layer: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..depth {
        let mut nl = vec![];
        for w in &layer {
            for a in 0..LETTERS {
                let mut w2 = w.clone();
                w2.push(a);
                nl.push(w2);
            }
        }
        all.extend(nl.iter().cloned());
        layer = nl;
    }
    let mk = |w: &Vec<usize>| {
        let mut p: Prog = vec![];
        for a in w {
            let o = letter(*a, &p);
            p.push(o);
        }
        p
    };
    ctx.note("depth", format!("{}", depth));
    ctx.cases(&all, |w| format!("{:?}", w), |w| {
        let p = mk(w);
        check::<C>(ctx, &fin(p.clone()), &pc, &bp, "m61", "program");
        if w.len() < 3 {
            check::<C>(ctx, &p, &pc, &bp, "m61", "program-bare");
        }
    });

    // 2. shape grid: multipliers x scalar commitments x vector dimensions x capacity
    let mut shapes: Vec<(usize, usize, Vec<usize>, usize)> = vec![];
    let dimlists: Vec<Vec<usize>> = {
        let ds = [0usize, 1, 2, 3, 5];
        let mut v: Vec<Vec<usize>> = vec![vec![]];
        let mut l: Vec<Vec<usize>> = vec![vec![]];
        for _ in 0..ctx.pick(3, 4) {
            let mut n = vec![];
            for x in &l {
                for d in ds {
                    let mut y = x.clone();
                    y.push(d);
                    n.push(y);
                }
            }
            v.extend(n.iter().cloned());
            l = n;
        }
        v
    };
    for m in 0..=9usize {
        for s in 0..=2usize {
            for d in &dimlists {
                let n = m.max(d.iter().copied().max().unwrap_or(0)).next_power_of_two();
                if ctx.quick && d.len() == 3 && (s == 1 || m % 3 == 2) {
                    continue;
                }
                shapes.push((m, s, d.clone(), n));
                if d.len() <= 2 {
                    shapes.push((m, s, d.clone(), n + 1));
                    if n > 1 {
                        shapes.push((m, s, d.clone(), n - 1));
                    }
                }
            }
        }
    }
    // many vector commitments and larger multiplier counts
    for k in (4..=20usize).chain([33, 64, 100]) {
        for m in [0usize, 1, 3, 4] {
            if k > 20 && m > 1 {
                continue;
            }
            shapes.push((m, k % 2, (0..k).map(|i| 1 + (i * 7) % 4).collect(), 4));
        }
    }
    for m in [15usize, 16, 17, 31, 32, 33, 63, 64] {
        for d in [vec![], vec![m - 1], vec![m, 2], vec![m + 1, 1, 3]] {
            let n = m.max(d.iter().copied().max().unwrap_or(0)).next_power_of_two();
            shapes.push((m, 1, d, n));
        }
    }
    let shape_prog = |(m, s, d, _): &(usize, usize, Vec<usize>, usize)| -> Prog {
        let mut p: Prog = vec![];
        for i in 0..*s {
            p.push(Op::Commit(10 + i as i64));
        }
        for (j, dim) in d.iter().enumerate() {
            p.push(Op::CommitVec((0..*dim).map(|i| (i as i64) * 3 - j as i64).collect()));
        }
        for i in 0..*m {
            let n = nvars(&p);
            if i % 3 == 0 || n < 2 {
                p.push(Op::AllocMul(2 + i as i64, 3 - i as i64));
            } else {
                p.push(Op::Mul(lc(&[(n - 1, 1), (i % n, 2)], 1), lc(&[(n - 2, -1)], i as i64)));
            }
        }
        fin(p)
    };
    ctx.cases(&shapes, |s| format!("{:?}", s), |s| {
        let bp = BulletproofGens::<C>::new(s.3, 1);
        check::<C>(ctx, &shape_prog(s), &pc, &bp, "m61", "shape");
    });

    // 3. two-phase shapes: first-phase gates x second-phase gates x callbacks
    let mut two = vec![];
    for m in 0..=4usize {
        for g in 0..=4usize {
            for cb in 1..=2usize {
                for pend in 0..=1usize {
                    for s in 0..=1usize {
                        two.push((m, g, cb, pend, s));
                    }
                }
            }
        }
    }
    ctx.cases(&two, |s| format!("{:?}", s), |&(m, g, cb, pend, s)| {
        let mut p: Prog = vec![];
        for i in 0..s {
            p.push(Op::Commit(4 + i as i64));
        }
        for i in 0..m {
            p.push(Op::AllocMul(2 + i as i64, 5));
        }
        for _ in 0..pend {
            p.push(Op::Alloc(9));
        }
        let n = nvars(&p);
        for c in 0..cb {
            let mut ops = vec![];
            for i in 0..g {
                match (i + c) % 3 {
                    0 => ops.push(Op2::MulC(lc(&if n > 0 { vec![(n - 1, 1)] } else { vec![] }, 1), lc(&[], i as i64))),
                    1 => ops.push(Op2::AllocMulC(i as i64, 2)),
                    _ => ops.push(Op2::AllocC(3)),
                }
            }
            ops.push(Op2::ConstrainC(L { t: (0..n).map(|i| (i, i as i64 + 1)).collect(), c: 1 }, 0));
            p.push(Op::Phase2(ops));
        }
        check::<C>(ctx, &p, &pc, &bp, "m61", "two-phase");
        check::<C>(ctx, &fin(p), &pc, &bp, "m61", "two-phase");
    });

    // 4. conformance of the toy curve with the production curves, on all programs of depth <= 2
    let short: Vec<Vec<usize>> = all.iter().filter(|w| w.len() <= ctx.pick(2, 3)).cloned().collect();
    macro_rules! on {
        ($c:ty, $n:literal) => {{
            let pc = PedersenGens::<$c>::default();
            let bp = BulletproofGens::<$c>::new(16, 1);
            ctx.cases(&short, |w| format!("{} {:?}", $n, w), |w| check::<$c>(ctx, &fin(mk(w)), &pc, &bp, $n, "program-production-curve"));
        }};
    }
    on!(ark_pallas::Affine, "pallas");
    on!(ark_vesta::Affine, "vesta");
    on!(ark_secp256k1::Affine, "secp256k1");
    on!(ark_secq256k1::Affine, "secq256k1");
    ctx.note("assume1", "second-phase multipliers together with vector commitments are documented as unsupported: the prover refuses them");
    ctx.finish();
}
