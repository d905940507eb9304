//! C03: an accepted proof is bound to its statement, its context and every one of its components.
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{One, Zero};
use bulletproofs::r1cs::*;
use bulletproofs::{BulletproofGens, PedersenGens};
use ctmc::circuit::*;
use ctmc::curves::*;
use ctmc::raw::Raw;
use ctmc::stmts::*;
use ctmc::{guarded, Ctx};
use merlin::Transcript;

type C = m61::EvenA;
type F = <C as AffineRepr>::ScalarField;
type Context = Vec<(&'static [u8], Vec<u8>)>;

fn transcript(c: &Context) -> Transcript {
    let mut t = Transcript::new(c[0].0);
    t.append_message(b"first", &c[0].1);
    for (l, m) in &c[1..] {
        t.append_message(l, m);
    }
    t
}
fn check(prog: &Prog, comms: &[C], proof: &R1CSProof<C>, pc: &PedersenGens<C>, bp: &BulletproofGens<C>, c: &Context) -> bool {
    matches!(
        guarded(|| {
            let mut v = Verifier::new(transcript(c));
            let mut io = Io { comms: comms.to_vec(), next: 0, blinding: 0, bp, dim_override: None };
            run(&mut v, prog, &mut io)?;
            v.verify(proof, pc, bp)
        }),
        Ok(Ok(()))
    )
}
fn norm(prog: &Prog) -> String {
    let rc = RefCirc::<F>::new(prog, &[F::from(3u64), F::from(5u64), F::from(7u64)]);
    let kinds: Vec<u8> = prog.iter().filter_map(|o| match o { Op::Commit(_) => Some(0), Op::CommitVec(_) => Some(1), Op::Phase2(_) => Some(2), _ => None }).collect();
    let mut cons: Vec<String> = rc
        .cons
        .iter()
        .map(|(t, c)| {
            let mut m: std::collections::BTreeMap<String, F> = Default::default();
            for (v, x) in t {
                *m.entry(format!("{:?}", v)).or_insert(F::zero()) += x;
            }
            m.retain(|_, v| !v.is_zero());
            // a trailing 0 = 0 says nothing and has no weight
            if m.is_empty() && c.is_zero() {
                return String::new();
            }
            format!("{:?}+{}", m.iter().map(|(k, v)| format!("{}*{}", v, k)).collect::<Vec<_>>(), c)
        })
        .collect();
    while cons.last().map(|s| s.is_empty()) == Some(true) {
        cons.pop();
    }
    format!("{:?} {} {} {:?} {:?}", kinds, rc.n1, rc.n, rc.v.len(), cons)
}

/// every single change of the circuit that keeps the commitments' number
fn mutants(prog: &Prog) -> Vec<(String, Prog)> {
    let mut out = vec![];
    fn lcs(l: &L, nv: usize) -> Vec<(String, L)> {
        let mut o = vec![];
        for i in 0..l.t.len() {
            for d in [1i64, -1, 17] {
                let mut m = l.clone();
                m.t[i].1 += d;
                o.push((format!("coefficient {} {:+}", i, d), m));
            }
            let mut m = l.clone();
            m.t[i].1 = -m.t[i].1;
            o.push((format!("coefficient {} negated", i), m));
            let mut m = l.clone();
            m.t.remove(i);
            o.push((format!("term {} removed", i), m));
            for v in 0..nv {
                if v != l.t[i].0 {
                    let mut m = l.clone();
                    m.t[i].0 = v;
                    o.push((format!("term {} on variable {}", i, v), m));
                }
            }
        }
        for v in 0..nv {
            let mut m = l.clone();
            m.t.push((v, 1));
            o.push((format!("added variable {}", v), m));
        }
        o
    }
    let mut nv = 0;
    for (i, op) in prog.iter().enumerate() {
        let mut put = |what: String, o: Op| {
            let mut p = prog.clone();
            p[i] = o;
            out.push((format!("op {}: {}", i, what), p));
        };
        match op {
            Op::Constrain(l, off) => {
                for (w, m) in lcs(l, nv) {
                    put(w, Op::Constrain(m, *off));
                }
                for d in [1, -1, 1000] {
                    put(format!("constant {:+}", d), Op::Constrain(l.clone(), off + d));
                }
            }
            Op::Mul(l, r) => {
                for (w, m) in lcs(l, nv) {
                    put(format!("left {}", w), Op::Mul(m, r.clone()));
                }
                for (w, m) in lcs(r, nv) {
                    put(format!("right {}", w), Op::Mul(l.clone(), m));
                }
                put("left constant".into(), Op::Mul(L { t: l.t.clone(), c: l.c + 1 }, r.clone()));
                put("right constant".into(), Op::Mul(l.clone(), L { t: r.t.clone(), c: r.c + 1 }));
                if l != r {
                    put("factors swapped".into(), Op::Mul(r.clone(), l.clone()));
                }
                put("inputs free".into(), Op::AllocMul(1, 1));
            }
            Op::Phase2(ops) => {
                for (j, o2) in ops.iter().enumerate() {
                    let mut put2 = |what: String, o: Op2| {
                        let mut ops = ops.clone();
                        ops[j] = o;
                        put(format!("second phase {}: {}", j, what), Op::Phase2(ops));
                    };
                    match o2 {
                        Op2::ConstrainC(l, off) => {
                            for (w, m) in lcs(l, nv) {
                                put2(w, Op2::ConstrainC(m, *off));
                            }
                            put2("constant".into(), Op2::ConstrainC(l.clone(), off + 1));
                        }
                        Op2::MulC(l, r) => {
                            for (w, m) in lcs(l, nv) {
                                put2(format!("left {}", w), Op2::MulC(m, r.clone()));
                            }
                            for (w, m) in lcs(r, nv) {
                                put2(format!("right {}", w), Op2::MulC(l.clone(), m));
                            }
                        }
                        Op2::AllocC(v) => put2("value".into(), Op2::AllocC(v + 1)),
                        Op2::AllocMulC(a, b) => put2("value".into(), Op2::AllocMulC(a + 1, *b)),
                    }
                    let mut ops2 = ops.clone();
                    ops2.remove(j);
                    put(format!("second phase {} removed", j), Op::Phase2(ops2));
                }
            }
            _ => {}
        }
        // structure
        let mut p = prog.clone();
        match op {
            Op::Constrain(..) | Op::Phase2(_) => {
                p.remove(i);
                out.push((format!("op {} removed", i), p.clone()));
                let mut q = prog.clone();
                q.insert(i, op.clone());
                out.push((format!("op {} repeated", i), q));
            }
            _ => {}
        }
        for extra in [Op::Mul(lc(&[], 2), lc(&[], 3)), Op::Mul(lc(&[], 0), lc(&[], 0))] {
            let mut q = prog.clone();
            // after all uses, so that variables keep their numbers
            if i + 1 == prog.len() {
                q.push(extra.clone());
                out.push((format!("extra {:?}", extra), q));
            }
        }
        nv += match op {
            Op::Commit(_) | Op::Alloc(_) => 1,
            Op::CommitVec(v) => v.len(),
            Op::AllocMul(..) | Op::Mul(..) => 3,
            _ => 0,
        };
    }
    for i in 0..prog.len().saturating_sub(1) {
        if matches!((&prog[i], &prog[i + 1]), (Op::Constrain(..), Op::Constrain(..)) | (Op::Phase2(_), Op::Phase2(_))) {
            let mut p = prog.clone();
            p.swap(i, i + 1);
            out.push((format!("ops {} and {} swapped", i, i + 1), p));
        }
    }
    out
}

fn main() {
    let ctx = Ctx::new("C03", "fault_enumeration");
    ctx.note("rule", "for every statement (catalogue and all programs of bounded depth): every single change of the circuit (coefficient, constant, variable, term, constraint, gate, order), of the commitments (replaced, swapped, negated, shifted, dropped, added), of the transcript context, of the value generators, and of the proof (each component perturbed, each pair of points or scalars swapped, each component or group moved over from a second valid proof of the same statement); the verifier must reject each; changes that denote the same circuit are skipped");
    let pc = PedersenGens::<C>::default();
    let bp = BulletproofGens::<C>::new(16, 1);
    let mut progs: Vec<(String, Prog)> = catalogue().into_iter().map(|(n, p)| (n.to_string(), p)).collect();
    let letter = |a: usize, p: &Prog| -> Op {
        let (n, k) = (nvars(p), p.len() as i64);
        match a {
            0 => Op::Commit(3 + k),
            1 => Op::CommitVec(vec![2 + k, 5]),
            2 => Op::AllocMul(4 + k, 7),
            3 => Op::Alloc(9 + k),
            4 => Op::Mul(all_lc(n, 1, 2), all_lc(n, 2, -1)),
            5 => Op::Constrain(all_lc(n, 3, 1), 0),
            _ => Op::Phase2(vec![Op2::ConstrainC(all_lc(n, 1, 1), 0)]),
        }
    };
    let depth = ctx.pick(3, 4);
    let mut layer: Vec<Prog> = vec![vec![]];
    for _ in 0..depth {
        layer = layer.iter().flat_map(|p| (0..7).map(move |a| { let mut q = p.clone(); q.push(letter(a, p)); q })).collect();
        for p in &layer {
            let n = nvars(p);
            if n > 0 {
                let mut q = p.clone();
                q.push(Op::Constrain(all_lc(n, 1, 5), 0));
                let (a, b) = gates(&q);
                if a + b <= 16 {
                    progs.push((format!("{:?}", p.len()) + &show(&q), q));
                }
            }
        }
    }
    ctx.note("programs", format!("{} statements, all of depth <= {} over 7 letters", progs.len(), depth));
    let base: Context = vec![(b"c03", b"statement".to_vec()), (b"extra", vec![1, 2, 3])];
    ctx.cases(&progs, |p| p.0.clone(), |(name, prog)| {
        let make = || {
            guarded(|| {
                let mut p = Prover::new(&pc, transcript(&base));
                let mut io = Io { comms: vec![], next: 0, blinding: 77, bp: &bp, dim_override: None };
                run(&mut p, prog, &mut io)?;
                let proof = p.prove(&bp)?;
                Ok::<_, R1CSError>((proof, io.comms))
            })
        };
        let ((proof, comms), (proof2, _)) = match (make(), make()) {
            (Ok(Ok(a)), Ok(Ok(b))) => (a, b),
            _ => {
                ctx.add("no_honest_proof", 1);
                return;
            }
        };
        if !check(prog, &comms, &proof, &pc, &bp, &base) {
            ctx.add("no_honest_proof", 1);
            return;
        }
        ctx.add("statements", 1);
        let must_fail = |kind: &str, what: &str, ok: bool| {
            ctx.eval(Some(&format!("{} {} {}", name, kind, what)));
            ctx.require(!ok, kind, || format!("{}: still accepted after: {}", show(prog), what));
        };
        // statement
        let me = norm(prog);
        for (what, m) in mutants(prog) {
            if norm(&m) == me {
                ctx.add("equivalent_skipped", 1);
                continue;
            }
            let (a, b) = gates(&m);
            if (a + b).next_power_of_two() > 16 {
                continue;
            }
            must_fail("circuit", &what, check(&m, &comms, &proof, &pc, &bp, &base));
        }
        for i in 0..comms.len() {
            let neg: C = (-comms[i].into_group()).into_affine();
            for (w, v) in [
                ("generator", C::generator()),
                ("identity", C::zero()),
                ("negated", neg),
                ("+B", (comms[i] + pc.B).into_affine()),
                ("+B_blinding", (comms[i] + pc.B_blinding).into_affine()),
                ("+G0", (comms[i] + *bp.share(0).G(1).next().unwrap()).into_affine()),
            ] {
                let mut c2 = comms.clone();
                c2[i] = v;
                must_fail("commitment", &format!("commitment {} := {}", i, w), check(prog, &c2, &proof, &pc, &bp, &base));
            }
            for j in 0..i {
                if comms[i] != comms[j] {
                    let mut c2 = comms.clone();
                    c2.swap(i, j);
                    must_fail("commitment", &format!("commitments {} and {} swapped", i, j), check(prog, &c2, &proof, &pc, &bp, &base));
                    let mut c2 = comms.clone();
                    c2[i] = c2[j];
                    must_fail("commitment", &format!("commitment {} := commitment {}", i, j), check(prog, &c2, &proof, &pc, &bp, &base));
                    // opposite shifts cancel in any sum of the two
                    let mut c2 = comms.clone();
                    c2[i] = (c2[i] + pc.B).into_affine();
                    c2[j] = (c2[j].into_group() - pc.B).into_affine();
                    must_fail("commitment", &format!("value moved from commitment {} to {}", j, i), check(prog, &c2, &proof, &pc, &bp, &base));
                }
            }
        }
        for v in [comms.first().copied(), Some(C::zero()), Some(C::generator())].into_iter().flatten() {
            // an additional unused commitment
            let mut p2 = prog.clone();
            p2.push(Op::Commit(0));
            let mut c2 = comms.clone();
            c2.push(v);
            must_fail("commitment", "scalar commitment added", check(&p2, &c2, &proof, &pc, &bp, &base));
            let mut p2 = prog.clone();
            p2.push(Op::CommitVec(vec![0]));
            must_fail("commitment", "vector commitment added", check(&p2, &c2, &proof, &pc, &bp, &base));
        }
        // context
        let mut ctxs: Vec<(&str, Context)> = vec![];
        let mut c = base.clone();
        c[0].0 = b"c04";
        ctxs.push(("protocol label", c));
        let mut c = base.clone();
        c[0].1 = b"statemenT".to_vec();
        ctxs.push(("first message", c));
        let mut c = base.clone();
        c[1].1 = vec![1, 2];
        ctxs.push(("message shortened", c));
        let mut c = base.clone();
        c[1].0 = b"extrb";
        ctxs.push(("message label", c));
        let mut c = base.clone();
        c.pop();
        ctxs.push(("message dropped", c));
        let mut c = base.clone();
        c.push((b"", vec![]));
        ctxs.push(("empty message added", c));
        for (w, c) in ctxs {
            must_fail("context", w, check(prog, &comms, &proof, &pc, &bp, &c));
        }
        // generators
        let g = PedersenGens { B: C::generator(), B_blinding: pc.B_blinding };
        // the value generator only enters through t_x and committed values
        must_fail("generators", "value generator", (g.B != pc.B) && check(prog, &comms, &proof, &g, &bp, &base));
        let g2 = PedersenGens { B: (pc.B + pc.B).into_affine(), B_blinding: pc.B_blinding };
        must_fail("generators", "value generator doubled", check(prog, &comms, &proof, &g2, &bp, &base));
        let g3 = PedersenGens { B: pc.B, B_blinding: (pc.B_blinding + pc.B).into_affine() };
        must_fail("generators", "blinding generator", check(prog, &comms, &proof, &g3, &bp, &base));
        let g4 = PedersenGens { B: pc.B_blinding, B_blinding: pc.B };
        must_fail("generators", "generators swapped", check(prog, &comms, &proof, &g4, &bp, &base));
        // proof
        let raw = Raw::of(&proof).unwrap();
        let raw2 = Raw::of(&proof2).unwrap();
        let test = |kind: &str, what: &str, r: &Raw<C>| {
            if *r == raw || *r == raw2 {
                return;
            }
            match r.proof_fast() {
                Some(p) => must_fail(kind, what, check(prog, &comms, &p, &pc, &bp, &base)),
                None => must_fail(kind, what, false),
            }
        };
        let pts = |r: &Raw<C>| -> Vec<C> {
            let mut v = r.p1.to_vec();
            v.extend(&r.p2);
            v.extend(&r.t);
            v.extend(&r.l);
            v.extend(&r.r);
            v
        };
        let put = |r: &Raw<C>, p: &[C]| -> Raw<C> {
            let mut r = r.clone();
            r.p1.copy_from_slice(&p[..3]);
            let mut k = 3;
            for v in [&mut r.p2, &mut r.t, &mut r.l, &mut r.r] {
                let n = v.len();
                v.copy_from_slice(&p[k..k + n]);
                k += n;
            }
            r
        };
        let (p1, p2) = (pts(&raw), pts(&raw2));
        let np = p1.len();
        for i in 0..np {
            for (w, d) in [("+generator", C::generator()), ("+B", pc.B), ("+B_blinding", pc.B_blinding)] {
                let mut q = p1.clone();
                q[i] = (q[i] + d).into_affine();
                test("component", &format!("point {} {}", i, w), &put(&raw, &q));
            }
            let mut q = p1.clone();
            q[i] = (-q[i].into_group()).into_affine();
            test("component", &format!("point {} negated", i), &put(&raw, &q));
            let mut q = p1.clone();
            q[i] = p2[i];
            test("spliced", &format!("point {} of another proof", i), &put(&raw, &q));
            for j in 0..i {
                let mut q = p1.clone();
                q.swap(i, j);
                test("swapped", &format!("points {} and {}", i, j), &put(&raw, &q));
                let mut q = p1.clone();
                q[i] = q[j];
                test("swapped", &format!("point {} := point {}", i, j), &put(&raw, &q));
                let mut q = p1.clone();
                q[i] = p2[i];
                q[j] = p2[j];
                test("spliced", &format!("points {} and {} of another proof", i, j), &put(&raw, &q));
                // opposite shifts of two components
                let mut q = p1.clone();
                q[i] = (q[i] + pc.B).into_affine();
                q[j] = (q[j].into_group() - pc.B).into_affine();
                test("component", &format!("points {} and {} shifted against each other", i, j), &put(&raw, &q));
            }
        }
        // prefix / suffix splices of the message sequence
        for i in 0..=np {
            let mut q = p1.clone();
            q[i..].copy_from_slice(&p2[i..]);
            for sc in 0..2 {
                let mut r = put(if sc == 0 { &raw } else { &raw2 }, &q);
                r.flag = raw.flag;
                test("spliced", &format!("points from {} on of another proof, scalars of {}", i, sc), &r);
            }
        }
        fn sc<'a>(r: &'a mut Raw<C>, i: usize) -> &'a mut F {
            match i {
                0 => &mut r.tx,
                1 => &mut r.tb,
                2 => &mut r.eb,
                3 => &mut r.a,
                _ => &mut r.b,
            }
        }
        for i in 0..5 {
            for d in [F::one(), -F::one(), F::from(1u64 << 40)] {
                let mut r = raw.clone();
                *sc(&mut r, i) += d;
                test("component", &format!("scalar {} shifted", i), &r);
            }
            let mut r = raw.clone();
            let n = -*sc(&mut r, i);
            *sc(&mut r, i) = n;
            test("component", &format!("scalar {} negated", i), &r);
            let mut r = raw.clone();
            let mut o = raw2.clone();
            *sc(&mut r, i) = *sc(&mut o, i);
            test("spliced", &format!("scalar {} of another proof", i), &r);
            for j in 0..i {
                let mut r = raw.clone();
                let (a, b) = (*sc(&mut r, i), *sc(&mut r, j));
                *sc(&mut r, i) = b;
                *sc(&mut r, j) = a;
                test("swapped", &format!("scalars {} and {}", i, j), &r);
                for (x, y) in [(F::one(), F::one()), (F::one(), -F::one())] {
                    let mut r = raw.clone();
                    *sc(&mut r, i) += x;
                    *sc(&mut r, j) += y;
                    test("component", &format!("scalars {} and {} shifted", i, j), &r);
                }
            }
        }
        // (-a, -b) has the same product and must still be bound
        let mut r = raw.clone();
        r.a = -r.a;
        r.b = -r.b;
        test("component", "a and b negated", &r);
        ctx.sample_cat(&format!("{}", prog.len()), || format!("{} with {} points in the proof", show(prog), np));
    });
    ctx.finish();
}
