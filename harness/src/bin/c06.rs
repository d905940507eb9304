//! C06: every challenge depends on everything sent before it, and both sides derive the same ones.
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{One, Zero};
use bulletproofs::r1cs::*;
use bulletproofs::{BulletproofGens, PedersenGens};
use ctmc::circuit::*;
use ctmc::coins::{copy_coin, World, DOMAIN};
use ctmc::curves::m126;
use ctmc::curves::m61::*;
use ctmc::raw::Raw;
use ctmc::rel;
use ctmc::stmts::*;
use ctmc::{guarded, Ctx};
use merlin::probe::{self, Event};
use merlin::Transcript;
use relations::coin::*;
use relations::curve_tree::*;

type C = EvenA;
type F = Fq;
type Context = Vec<(&'static [u8], Vec<u8>)>;

fn transcript(c: &Context) -> Transcript {
    let mut t = Transcript::new(c[0].0);
    for (l, m) in &c[1..] {
        t.append_message(l, m);
    }
    t
}
fn challenges(ev: &[Event], id: u64) -> Vec<Vec<u8>> {
    ev.iter().filter_map(|e| match e { Event::Challenge { id: i, out, .. } if *i == id => Some(out.clone()), _ => None }).collect()
}
/// What the verifier sees up to the last challenge it derives (even if it then rejects).
fn run_verifier(prog: &Prog, comms: &[C], raw: &Raw<C>, bp: &BulletproofGens<C>, cx: &Context) -> Vec<Event> {
    let p = match raw.proof_fast() {
        Some(p) => p,
        None => return vec![],
    };
    probe::start();
    let _ = guarded(|| {
        let mut v = Verifier::new(transcript(cx));
        let mut io = Io { comms: comms.to_vec(), next: 0, blinding: 0, bp, dim_override: None };
        run(&mut v, prog, &mut io)?;
        v.verification_scalars_and_points(&p).map(|_| ())
    });
    probe::stop()
}

/// Stage of each challenge: 0 second-phase challenges, 1 y z, 2 u x, 3 w, 4+j the j-th folding challenge.
fn stages(total: usize, lg: usize) -> Option<Vec<usize>> {
    let k = total.checked_sub(5 + lg)?;
    let mut s = vec![0; k];
    s.extend([1, 1, 2, 2, 3]);
    s.extend((0..lg).map(|j| 4 + j));
    Some(s)
}

fn main() {
    let ctx = Ctx::new("C06", "fault_enumeration");
    ctx.note("rule", "statements: the catalogue and all programs of bounded depth; for each, every component that precedes a challenge (transcript context, each commitment, an added, removed or re-typed commitment, each proof message) is replaced by several other values, the verifier is re-run with a recording transcript, and every challenge of the same or a later stage must come out different; the recorded transcripts of prover and verifier must be equal event by event; no two challenges of a run are equal. For single and batched membership: every path commitment replaced, the challenges of the transcript it is committed in and of the transcript that opens its parent must change. For mints and pours: every minted or spent coin, every path commitment and their order");
    let pc = PedersenGens::<C>::default();
    let bp = BulletproofGens::<C>::new(16, 1);
    let mut progs: Vec<(String, Prog)> = catalogue().into_iter().map(|(n, p)| (n.to_string(), p)).collect();
    let letter = |a: usize, p: &Prog| -> Op {
        let (n, k) = (nvars(p), p.len() as i64);
        match a {
            0 => Op::Commit(3 + k),
            1 => Op::CommitVec(vec![2 + k, 5]),
            2 => Op::AllocMul(4 + k, 7),
            3 => Op::Alloc(9 + k),
            4 => Op::Phase2(vec![Op2::ConstrainC(all_lc(n, 1, 1), 0)]),
            _ => Op::Phase2(vec![Op2::MulC(all_lc(n, 1, 1), all_lc(n, 2, 0)), Op2::AllocC(k)]),
        }
    };
    let depth = ctx.pick(4, 5);
    let mut layer: Vec<Prog> = vec![vec![]];
    for _ in 0..depth {
        layer = layer.iter().flat_map(|p| (0..6).map(move |a| { let mut q = p.clone(); q.push(letter(a, p)); q })).collect();
        for p in &layer {
            let mut q = p.clone();
            q.push(Op::Constrain(all_lc(nvars(p), 1, 5), 0));
            let (a, b) = gates(&q);
            if a + b <= 16 && !(b > 0 && nvec(&q) > 0) {
                progs.push((show(&q), q));
            }
        }
    }
    ctx.note("programs", format!("{} statements, all of depth <= {} over 6 letters", progs.len(), depth));
    let base: Context = vec![(b"c06", vec![]), (b"first", vec![1, 2, 3]), (b"second", vec![9])];
    ctx.cases(&progs, |p| p.0.clone(), |(name, prog)| {
        probe::start();
        let made = guarded(|| {
            let mut p = Prover::new(&pc, transcript(&base));
            let mut io = Io { comms: vec![], next: 0, blinding: 77, bp: &bp, dim_override: None };
            run(&mut p, prog, &mut io)?;
            let proof = p.prove(&bp)?;
            Ok::<_, R1CSError>((proof, io.comms))
        });
        let pev = probe::stop();
        let (proof, comms) = match made {
            Ok(Ok(a)) => a,
            _ => {
                ctx.add("no_honest_proof", 1);
                return;
            }
        };
        let raw = match Raw::of(&proof) { Some(r) => r, None => { ctx.violation("encoding", show(prog)); return; } };
        let vev = run_verifier(prog, &comms, &raw, &bp, &base);
        ctx.eval(Some(name));
        if pev != vev {
            let k = pev.iter().zip(&vev).take_while(|(a, b)| a == b).count();
            ctx.violation("prover-verifier", format!("{}: transcripts differ at event {}: prover {:?}, verifier {:?}", show(prog), k, pev.get(k), vev.get(k)));
            return;
        }
        let ch0 = challenges(&vev, 0);
        let lg = raw.l.len();
        let nphase2 = prog.iter().filter(|o| matches!(o, Op::Phase2(_))).count();
        let st = match stages(ch0.len(), lg) {
            Some(s) if ch0.len() == 5 + lg + nphase2 => s,
            _ => {
                ctx.violation("schedule", format!("{}: {} challenges for {} callbacks and {} rounds", show(prog), ch0.len(), nphase2, lg));
                return;
            }
        };
        ctx.add("challenges", ch0.len() as u64);
        for i in 0..ch0.len() {
            for j in 0..i {
                ctx.require(ch0[i] != ch0[j], "repeated-challenge", || format!("{}: challenges {} and {} are equal", show(prog), i, j));
            }
        }
        let test = |what: &str, stage: usize, prog: &Prog, comms: &[C], raw: &Raw<C>, cx: &Context, shape_change: bool| {
            let ev = run_verifier(prog, comms, raw, &bp, cx);
            let ch = challenges(&ev, 0);
            ctx.eval(Some(&format!("{} {}", name, what)));
            if ch.len() < ch0.len() {
                ctx.add("refused_before_last_challenge", 1);
            }
            let set: std::collections::BTreeSet<&Vec<u8>> = ch.iter().collect();
            for k in 0..ch0.len() {
                if st[k] >= stage {
                    ctx.add("pairs", 1);
                    let same = if shape_change { set.contains(&ch0[k]) } else { ch.get(k) == Some(&ch0[k]) };
                    ctx.require(!same, "independent-challenge", || format!("{}: challenge {} (stage {}) does not depend on {}", show(prog), k, st[k], what));
                }
            }
        };
        // context
        let mut c = base.clone();
        c[0].0 = b"c07";
        test("the protocol label", 0, prog, &comms, &raw, &c, false);
        for i in 1..3 {
            let mut c = base.clone();
            c[i].1[0] ^= 1;
            test(&format!("context message {}", i), 0, prog, &comms, &raw, &c, false);
            let mut c = base.clone();
            c[i].1.push(0);
            test(&format!("the length of context message {}", i), 0, prog, &comms, &raw, &c, false);
            let mut c = base.clone();
            c.remove(i);
            test(&format!("context message {} being there", i), 0, prog, &comms, &raw, &c, false);
        }
        // commitments
        let alts = |p: C| -> Vec<C> {
            [C::generator(), C::zero(), (-p.into_group()).into_affine(), (p + pc.B).into_affine(), (p + pc.B_blinding).into_affine()]
                .into_iter().filter(|q| *q != p).collect()
        };
        let mut ci = 0;
        for (oi, op) in prog.iter().enumerate() {
            let vec = match op { Op::Commit(_) => false, Op::CommitVec(_) => true, _ => continue };
            for (k, v) in alts(comms[ci]).into_iter().enumerate() {
                let mut c2 = comms.clone();
                c2[ci] = v;
                test(&format!("commitment {} (value {})", ci, k), 0, prog, &c2, &raw, &base, false);
            }
            // the same point under the other kind of commitment (statement's commitment counts)
            let mut p2 = prog.clone();
            p2[oi] = if vec { Op::Commit(2) } else { Op::CommitVec(vec![3]) };
            if let Op::CommitVec(v) = op {
                // keep the variable numbering: only one-dimensional vectors can be re-typed in place
                if v.len() > 1 { p2.clear(); }
            }
            if !p2.is_empty() {
                // a proof of the re-typed statement has a different number of T commitments
                let mut r2 = raw.clone();
                let tl = 2 * (2 + 2 * nvec(&p2) + 1) + 1;
                r2.t.resize(tl, C::generator());
                let d = 2 + 2 * nvec(&p2);
                r2.t[d] = C::zero();
                for (k, t) in r2.t.iter_mut().enumerate() {
                    if k != d && t.is_zero() { *t = C::generator(); }
                }
                test(&format!("the kind of commitment {}", ci), 0, &p2, &comms, &r2, &base, false);
            }
            ci += 1;
        }
        for i in 0..comms.len() {
            for j in 0..i {
                if comms[i] != comms[j] {
                    let mut c2 = comms.clone();
                    c2.swap(i, j);
                    test(&format!("the order of commitments {} and {}", j, i), 0, prog, &c2, &raw, &base, false);
                }
            }
        }
        for v in [C::zero(), C::generator()].into_iter().chain(comms.last().copied()) {
            let mut p2 = prog.clone();
            p2.push(Op::Commit(0));
            let mut c2 = comms.clone();
            c2.push(v);
            test("the number of commitments", 0, &p2, &c2, &raw, &base, false);
        }
        // messages
        let mut msgs: Vec<(String, usize, Box<dyn Fn(&mut Raw<C>) -> &mut C>)> = vec![];
        for i in 0..3 {
            msgs.push((["A_I1", "A_O1", "S1"][i].into(), 0, Box::new(move |r: &mut Raw<C>| &mut r.p1[i])));
        }
        for i in 0..raw.p2.len() {
            msgs.push((["A_I2", "A_O2", "S2"][i].into(), 1, Box::new(move |r: &mut Raw<C>| &mut r.p2[i])));
        }
        for i in 0..raw.t.len() {
            if i != 2 + 2 * nvec(prog) {
                msgs.push((format!("T_{}", i), 2, Box::new(move |r: &mut Raw<C>| &mut r.t[i])));
            }
        }
        for i in 0..lg {
            msgs.push((format!("L_{}", i), 4 + i, Box::new(move |r: &mut Raw<C>| &mut r.l[i])));
            msgs.push((format!("R_{}", i), 4 + i, Box::new(move |r: &mut Raw<C>| &mut r.r[i])));
        }
        for (w, stage, m) in &msgs {
            let mut tmp = raw.clone();
            let orig = *m(&mut tmp);
            for (k, v) in alts(orig).into_iter().enumerate() {
                if raw.p2.len() == 3 && *stage == 1 && v.is_zero() && raw.p2.iter().filter(|p| !p.is_zero()).count() == 1 {
                    continue;
                }
                let mut r = raw.clone();
                *m(&mut r) = v;
                test(&format!("{} (value {})", w, k), *stage, prog, &comms, &r, &base, false);
            }
            // two messages of the same stage exchanged
            for (w2, stage2, m2) in &msgs {
                if w2 < w && stage2 == stage {
                    let mut r = raw.clone();
                    let (a, b) = (*m(&mut r), *m2(&mut r));
                    if a != b {
                        *m(&mut r) = b;
                        *m2(&mut r) = a;
                        test(&format!("{} and {} exchanged", w, w2), *stage, prog, &comms, &r, &base, false);
                    }
                }
            }
        }
        if raw.flag == 0 && nvec(prog) == 0 {
            let mut r = raw.clone();
            r.set_p2([C::generator(); 3]);
            test("second-phase commitments being there", 1, prog, &comms, &r, &base, false);
        }
        for i in 0..3 {
            for v in [F::zero(), F::one(), -F::one()] {
                let mut r = raw.clone();
                let s = [&mut r.tx, &mut r.tb, &mut r.eb].into_iter().nth(i).unwrap();
                if *s != v {
                    *s = v;
                    test(["t_x", "t_x_blinding", "e_blinding"][i], 3, prog, &comms, &r, &base, false);
                }
            }
        }
        ctx.sample_cat(&format!("len{} n2={}", prog.len(), nphase2), || format!("{}: {} challenges, {} messages", show(prog), ch0.len(), msgs.len()));
    });

    // membership: which transcripts depend on which public commitment
    let pr = SelRerandParameters::<Even, Odd>::new(1024, 1024);
    let hmax = ctx.pick(4, 6);
    let cases: Vec<(usize, usize)> = (1..=hmax).flat_map(|h| (0..4usize).map(move |m| (h, m))).collect();
    let pr126 = SelRerandParameters::<m126::Even, m126::Odd>::new(4096, 4096);
    let w = World::<_, _, ark_ec::short_weierstrass::Projective<m126::Even>>::new(&pr126);
    let pours: Vec<usize> = (1..=ctx.pick(2, 4)).collect();
    ctx.cases(&pours, |h| format!("pour {}", h), |&h| pour::<2>(ctx, &w, h));
    ctx.cases(&cases, |c| format!("{:?}", c), |&(h, mm)| match mm {
        0 => single::<2>(ctx, &pr, h),
        1 => multi::<2, 1>(ctx, &pr, h),
        2 => multi::<2, 2>(ctx, &pr, h),
        _ => multi::<2, 3>(ctx, &pr, h),
    });
    ctx.finish();
}

fn others<P: ark_ec::short_weierstrass::SWCurveConfig>(p: ark_ec::short_weierstrass::Affine<P>) -> Vec<ark_ec::short_weierstrass::Affine<P>> {
    use ark_ec::short_weierstrass::Affine;
    [Affine::<P>::generator(), Affine::<P>::zero(), (-p.into_group()).into_affine(), (p + Affine::<P>::generator()).into_affine()].into_iter().filter(|q| *q != p).collect()
}
/// y (and with it every later challenge) of the even and the odd transcript
fn both(ev: &[Event]) -> (Vec<Vec<u8>>, Vec<Vec<u8>>) {
    (challenges(ev, 0), challenges(ev, 1))
}
fn differs(a: &[Vec<u8>], b: &[Vec<u8>]) -> bool {
    a.iter().zip(b).all(|(x, y)| x != y)
}

fn single<const N: usize>(ctx: &'static Ctx, pr: &SelRerandParameters<Even, Odd>, h: usize) {
    let t = CurveTree::<N, 1, Even, Odd>::from_set(&rel::leaves(N, 0), pr, Some(h));
    probe::start();
    let m = rel::prove_mem(&t, 1, 0, pr, b"mem", &mut rand::thread_rng()).unwrap();
    let pe = probe::stop();
    let see = |path: &SelectAndRerandomizePath<N, Even, Odd>| {
        probe::start();
        let _ = guarded(|| rel::mem_tuples(&t, path, &m.even, &m.odd, pr, b"mem").map(|_| ()));
        probe::stop()
    };
    let v0 = see(&m.path);
    ctx.eval(Some(&format!("single h{}", h)));
    let proj = |e: &[Event], i: u64| -> Vec<Event> { e.iter().filter(|x| matches!(x, Event::Append { id, .. } | Event::Challenge { id, .. } if *id == i)).cloned().collect() };
    for i in 0..2 {
        ctx.require(proj(&pe, i) == proj(&v0, i), "prover-verifier", || format!("membership height {}: transcripts differ on side {}", h, i));
    }
    let (e0, o0) = both(&v0);
    let mut check = |what: String, path: SelectAndRerandomizePath<N, Even, Odd>, even_dep: bool, odd_dep: bool| {
        let (e1, o1) = both(&see(&path));
        ctx.eval(Some(&format!("single h{} {}", h, what)));
        if even_dep {
            ctx.require(differs(&e0, &e1), "independent-challenge", || format!("membership height {}: the even transcript does not depend on {}", h, what));
        }
        if odd_dep {
            ctx.require(differs(&o0, &o1), "independent-challenge", || format!("membership height {}: the odd transcript does not depend on {}", h, what));
        }
    };
    // an odd commitment is opened by the odd proof and is the public output of the even proof, unless its
    // parent is in no even node (the root's own commitment is not part of the path)
    for i in 0..m.path.odd_commitments.len() {
        for v in others(m.path.odd_commitments[i]) {
            let mut p = m.path.clone();
            p.odd_commitments[i] = v;
            check(format!("odd commitment {}", i), p, true, true);
        }
    }
    for i in 0..m.path.even_commitments.len() {
        for v in others(m.path.even_commitments[i]) {
            let mut p = m.path.clone();
            p.even_commitments[i] = v;
            check(format!("even commitment {}", i), p, true, true);
        }
    }
    for v in others(m.path.selected_commitment) {
        let mut p = m.path.clone();
        p.selected_commitment = v;
        check("the leaf".into(), p, false, true);
    }
    ctx.sample_cat("single", || format!("membership height {}: {} odd, {} even commitments", h, m.path.odd_commitments.len(), m.path.even_commitments.len()));
}

fn multi<const N: usize, const M: usize>(ctx: &'static Ctx, pr: &SelRerandParameters<Even, Odd>, h: usize) {
    if M == 3 && h > 4 {
        return;
    }
    let t = CurveTree::<N, M, Even, Odd>::from_set(&rel::leaves(N, 0), pr, Some(h));
    let mut idx = [0; M];
    idx[M - 1] = 1;
    let big;
    let pr = if M * h > 8 { big = SelRerandParameters::<Even, Odd>::new(2048, 2048); &big } else { pr };
    probe::start();
    let m = rel::prove_multi(&t, idx, pr, b"mem", &mut rand::thread_rng()).unwrap();
    let pe = probe::stop();
    let see = |path: &SelectAndRerandomizeMultiPath<N, M, Even, Odd>| {
        probe::start();
        let _ = guarded(|| rel::multi_tuples(&t, path, &m.even, &m.odd, pr, b"mem").map(|_| ()));
        probe::stop()
    };
    let v0 = see(&m.path);
    ctx.eval(Some(&format!("multi{} h{}", M, h)));
    let proj = |e: &[Event], i: u64| -> Vec<Event> { e.iter().filter(|x| matches!(x, Event::Append { id, .. } | Event::Challenge { id, .. } if *id == i)).cloned().collect() };
    for i in 0..2 {
        ctx.require(proj(&pe, i) == proj(&v0, i), "prover-verifier", || format!("batched membership height {} M {}: transcripts differ on side {}", h, M, i));
    }
    let (e0, o0) = both(&v0);
    let mut check = |what: String, path: SelectAndRerandomizeMultiPath<N, M, Even, Odd>, even_dep: bool, odd_dep: bool| {
        let (e1, o1) = both(&see(&path));
        ctx.eval(Some(&format!("multi{} h{} {}", M, h, what)));
        if even_dep {
            ctx.require(differs(&e0, &e1), "independent-challenge", || format!("batched membership height {} M {}: the even transcript does not depend on {}", h, M, what));
        }
        if odd_dep {
            ctx.require(differs(&o0, &o1), "independent-challenge", || format!("batched membership height {} M {}: the odd transcript does not depend on {}", h, M, what));
        }
    };
    for i in 0..m.path.odd_commitments.len() {
        for v in others(m.path.odd_commitments[i]) {
            let mut p = m.path.clone();
            p.odd_commitments[i] = v;
            check(format!("odd commitment {}", i), p, true, true);
        }
    }
    for i in 0..m.path.even_commitments.len() {
        for v in others(m.path.even_commitments[i]) {
            let mut p = m.path.clone();
            p.even_commitments[i] = v;
            check(format!("even commitment {}", i), p, true, true);
        }
    }
    for i in 0..M {
        for v in others(m.path.selected_commitments[i]) {
            let mut p = m.path.clone();
            p.selected_commitments[i] = v;
            check(format!("leaf {}", i), p, false, true);
        }
    }
    ctx.sample_cat("multi", || format!("batched membership M {} height {}", M, h));
}

type P126 = ark_ec::short_weierstrass::Projective<m126::Even>;
type A126 = ark_ec::short_weierstrass::Affine<m126::Even>;

/// Mints and pours: the challenges of the proofs depend on every public commitment of the transaction.
fn pour<const N: usize>(ctx: &'static Ctx, w: &World<m126::Even, m126::Odd, P126>, h: usize) {
    let pr = w.pr;
    let keys: Vec<_> = (0..4).map(|_| w.keys()).collect();
    let (coins, set): (Vec<_>, Vec<_>) = (0..2).map(|i| w.coin(40 + i as u64, &keys[i].pk)).unzip();
    let t = CurveTree::<N, 1, m126::Even, m126::Odd>::from_set(&set, pr, Some(h));
    let ins: Vec<_> = (0..2).map(|i| w.spending(i, &copy_coin(&coins[i]), &keys[i])).collect();
    probe::start();
    let tx = w.pour(&t, [&ins[0], &ins[1]], [(30, keys[2].pk), (51, keys[3].pk)], &mut rand::thread_rng());
    let pe = probe::stop();
    ctx.eval(Some(&format!("pour h{}", h)));
    let tx = match tx {
        Ok(tx) => tx,
        Err(e) => return ctx.violation("honest-pour", format!("height {}: {}", h, e)),
    };
    let honest = w.open::<N>(&tx).pour;
    let see = |p: &Pour<N, m126::Even, m126::Odd, P126>| {
        let p = p.clone();
        probe::start();
        let _ = guarded(|| p.verification_gadget(DOMAIN, pr, &t));
        probe::stop()
    };
    let v0 = see(&honest);
    // the verifier may create its transcripts in either order
    let sides = if challenges(&v0, 0) == challenges(&pe, 0) { [0, 1] } else { [1, 0] };
    for i in 0..2 {
        let proj = |e: &[Event], i: u64| -> Vec<Event> {
            e.iter().filter_map(|x| match x {
                Event::Append { id, label, msg } if *id == i => Some(Event::Append { id: 0, label: label.clone(), msg: msg.clone() }),
                Event::Challenge { id, label, out } if *id == i => Some(Event::Challenge { id: 0, label: label.clone(), out: out.clone() }),
                _ => None,
            }).collect()
        };
        ctx.require(proj(&pe, i as u64) == proj(&v0, sides[i]), "prover-verifier", || format!("pour height {}: transcripts differ on side {}", h, i));
    }
    let base: Vec<_> = sides.iter().map(|s| challenges(&v0, *s)).collect();
    let mut n = 0;
    let mut check = |what: String, p: Pour<N, m126::Even, m126::Odd, P126>, dep: [bool; 2]| {
        let ev = see(&p);
        ctx.eval(Some(&format!("pour h{} {}", h, what)));
        n += 1;
        for i in 0..2 {
            if dep[i] {
                ctx.require(differs(&base[i], &challenges(&ev, sides[i])), "independent-challenge", || format!("pour height {}: the {} transcript does not depend on {}", h, ["even", "odd"][i], what));
            }
        }
    };
    let alter = |k: usize, f: &dyn Fn(&mut SelectAndRerandomizePath<N, m126::Even, m126::Odd>)| {
        let mut p = honest.clone();
        f(if k == 0 { &mut p.randomized_path_0 } else { &mut p.randomized_path_1 });
        p
    };
    for k in 0..2 {
        let path = if k == 0 { &honest.randomized_path_0 } else { &honest.randomized_path_1 };
        for i in 0..path.odd_commitments.len() {
            for v in others(path.odd_commitments[i]) {
                check(format!("odd commitment {} of input {}", i, k), alter(k, &|p| p.odd_commitments[i] = v), [true, true]);
            }
        }
        for i in 0..path.even_commitments.len() {
            for v in others(path.even_commitments[i]) {
                check(format!("even commitment {} of input {}", i, k), alter(k, &|p| p.even_commitments[i] = v), [true, true]);
            }
        }
        for v in others(path.selected_commitment) {
            check(format!("the coin of input {}", k), alter(k, &|p| p.selected_commitment = v), [true, true]);
        }
        let mut p = honest.clone();
        let m: &mut A126 = if k == 0 { &mut p.minted_coin_commitment_0 } else { &mut p.minted_coin_commitment_1 };
        let old = *m;
        for v in others(old) {
            let mut p = honest.clone();
            *(if k == 0 { &mut p.minted_coin_commitment_0 } else { &mut p.minted_coin_commitment_1 }) = v;
            check(format!("output {}", k), p, [true, false]);
        }
    }
    let mut p = honest.clone();
    std::mem::swap(&mut p.randomized_path_0, &mut p.randomized_path_1);
    check("the order of the inputs".into(), p, [true, true]);
    let mut p = honest.clone();
    std::mem::swap(&mut p.minted_coin_commitment_0, &mut p.minted_coin_commitment_1);
    check("the order of the outputs".into(), p, [true, false]);
    // a mint by itself
    probe::start();
    let mut prover = Prover::new(&pr.even_parameters.pc_gens, Transcript::new(DOMAIN));
    let (_, c, _) = Coin::<m126::Even, P126>::mint(7 + h as u64, &keys[0].pk, &w.sig, &pr.even_parameters, &mut rand::thread_rng(), &mut prover);
    let proof = prover.prove(&pr.even_parameters.bp_gens).unwrap();
    let pe = probe::stop();
    let see = |c: A126| {
        probe::start();
        let _ = guarded(|| {
            let mut v = Verifier::new(Transcript::new(DOMAIN));
            verify_mint(&mut v, c);
            v.verification_scalars_and_points(&proof).map(|_| ())
        });
        probe::stop()
    };
    let v0 = see(c);
    ctx.require(pe == v0, "prover-verifier", || format!("mint {}: transcripts differ", h));
    for v in others(c) {
        ctx.eval(None);
        ctx.require(differs(&challenges(&v0, 0), &challenges(&see(v), 0)), "independent-challenge", || format!("mint {}: the transcript does not depend on the coin", h));
    }
    ctx.sample_cat("pour", || format!("pour of height {}: {} changed transactions", h, n));
}
