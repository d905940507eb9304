//! C04: malformed proofs are refused with an error.
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{Field, One, Zero};
use bulletproofs::r1cs::*;
use bulletproofs::{BulletproofGens, PedersenGens};
use ctmc::circuit::*;
use ctmc::curves::*;
use ctmc::oracle::{shape_of, Alg, Gens, Stmt};
use ctmc::raw::Raw;
use ctmc::stmts::*;
use ctmc::{guarded, Ctx};
use ark_serialize::*;
use rand::rngs::StdRng;
use rand::SeedableRng;

type C = m61::EvenA;
type F = <C as AffineRepr>::ScalarField;

struct Case {
    name: &'static str,
    prog: Prog,
    raw: Raw<C>,
    bytes: Vec<u8>,
    comms: Vec<C>,
}

fn main() {
    let ctx = Ctx::new("C04", "fault_enumeration");
    ctx.note("rule", "for every statement of a catalogue covering each feature: every pair of L/R lengths, every T length, every component replaced by each special value, every pair of components replaced by the identity, every presence flag, every single-bit flip and byte replacement of the encoding, every prefix, every extension by one byte; each decoded proof is given to verify and to batch_verify");
    let pc = PedersenGens::<C>::default();
    let bp = BulletproofGens::<C>::new(16, 1);
    let junk: Vec<C> = (1..8u64).map(|i| (C::generator() * F::from(i * 7919)).into_affine()).collect();
    let mut cases = vec![];
    for (name, prog) in catalogue() {
        let p = prove(&prog, &pc, &bp, b"c04").expect("honest proof");
        let bytes = p.proof.to_bytes();
        let raw = Raw::parse(&bytes).expect("encoding");
        cases.push(Case { name, prog, raw, bytes, comms: p.comms });
    }
    // judge a proof object that is not the honest one
    let judge = |c: &Case, what: &str, proof: &R1CSProof<C>, accept_is_ok: bool| {
        ctx.eval(Some(&format!("{} {}", c.name, what)));
        let kind = what.split(' ').next().unwrap_or("");
        let r = guarded(|| verify(&c.prog, &c.comms, proof, &pc, &bp, b"c04"));
        match &r {
            Ok(Err(_)) => ctx.add("refused", 1),
            Ok(Ok(())) => {
                if !accept_is_ok {
                    ctx.violation(&format!("accepted-{}", kind), format!("{}: {}: accepted", c.name, what));
                } else {
                    ctx.add("same_proof", 1);
                }
            }
            Err(e) => ctx.violation(&format!("panic-{}", kind), format!("{}: {}: verify panicked: {}", c.name, what, e)),
        }
        let b = guarded(|| {
            let v = verifier(&c.prog, &c.comms, &bp, b"c04")?;
            let t = v.verification_scalars_and_points(proof)?;
            batch_verify(vec![t], &pc, &bp)
        });
        match (&r, &b) {
            (_, Err(e)) => ctx.violation(&format!("panic-{}", kind), format!("{}: {}: batch verification panicked: {}", c.name, what, e)),
            (Ok(a), Ok(b)) if a.is_ok() != b.is_ok() => {
                ctx.violation(&format!("batch-{}", kind), format!("{}: {}: verify {:?} batch {:?}", c.name, what, a, b))
            }
            _ => {}
        }
    };
    let judge_raw = |c: &Case, what: String, raw: Raw<C>| {
        let same = raw == c.raw;
        if same {
            return;
        }
        match guarded(|| raw.proof()) {
            Ok(Some(p)) => judge(c, &what, &p, false),
            Ok(None) => {
                ctx.eval(Some(&format!("{} {}", c.name, what)));
                ctx.add("refused_by_decoder", 1)
            }
            Err(e) => ctx.violation("panic-decode", format!("{}: {}: decoding panicked: {}", c.name, what, e)),
        }
        // objects that only the unvalidated decoder produces
        if let Ok(Some(p)) = guarded(|| raw.proof_fast()) {
            judge(c, &what, &p, false);
        }
    };
    // component access by number
    let npts = |r: &Raw<C>| 3 + r.p2.len() + r.t.len() + r.l.len() + r.r.len();
    fn pt<'a>(r: &'a mut Raw<C>, mut i: usize) -> (&'a mut C, String) {
        for (k, v) in [("P1", 3), ("P2", r.p2.len()), ("T", r.t.len()), ("L", r.l.len()), ("R", r.r.len())] {
            if i < v {
                let n = format!("{}[{}]", k, i);
                return (
                    match k {
                        "P1" => &mut r.p1[i],
                        "P2" => &mut r.p2[i],
                        "T" => &mut r.t[i],
                        "L" => &mut r.l[i],
                        _ => &mut r.r[i],
                    },
                    n,
                );
            }
            i -= v;
        }
        unreachable!()
    }
    ctx.cases(&cases, |c| c.name.to_string(), |c| {
        // the honest object itself
        match guarded(|| c.raw.proof()) {
            Ok(Some(p)) => judge(c, "honest", &p, true),
            _ => ctx.violation("honest-decode", format!("{}: honest proof does not decode", c.name)),
        }
        // 1. lengths of L and R, all pairs
        let lg = c.raw.l.len();
        let fill = |v: &Vec<C>, n: usize, kind: usize| -> Vec<C> {
            (0..n)
                .map(|i| match (v.get(i), kind) {
                    (Some(p), _) => *p,
                    (None, 0) => junk[i % junk.len()],
                    (None, 1) => C::zero(),
                    (None, _) => *v.last().unwrap_or(&junk[0]),
                })
                .collect()
        };
        for a in 0..lg + 3 {
            for b in 0..lg + 3 {
                for kind in 0..3 {
                    let mut r = c.raw.clone();
                    r.l = fill(&r.l, a, kind);
                    r.r = fill(&r.r, b, kind);
                    judge_raw(c, format!("lengths L={} R={} fill={} (lg n = {})", a, b, kind, lg), r);
                }
            }
        }
        for n in [31usize, 32, 33, 63, 64, 65, 130] {
            for which in 0..3 {
                let mut r = c.raw.clone();
                if which != 1 {
                    r.l = fill(&r.l, n, 0);
                }
                if which != 0 {
                    r.r = fill(&r.r, n, 0);
                }
                judge_raw(c, format!("lengths long {} {}", n, which), r);
            }
        }
        // 2. length of T
        for n in 0..c.raw.t.len() + 4 {
            for kind in 0..3 {
                let mut r = c.raw.clone();
                r.t = fill(&r.t, n, kind);
                judge_raw(c, format!("T-length {} of {} fill={}", n, c.raw.t.len(), kind), r);
            }
        }
        for n in [40usize, 41, 42, 74, 75, 76, 200] {
            let mut r = c.raw.clone();
            r.t = fill(&r.t, n, 0);
            judge_raw(c, format!("T-length {} of {}", n, c.raw.t.len()), r);
        }
        // 3. one component replaced
        let np = npts(&c.raw);
        for i in 0..np {
            let mut tmp = c.raw.clone();
            let (cur, label) = {
                let (p, l) = pt(&mut tmp, i);
                (*p, l)
            };
            let neg: C = (-cur.into_group()).into_affine();
            for (vn, v) in [("identity", C::zero()), ("generator", C::generator()), ("negated", neg), ("B_blinding", pc.B_blinding), ("other", junk[1])] {
                let mut r = c.raw.clone();
                *pt(&mut r, i).0 = v;
                judge_raw(c, format!("component {} := {}", label, vn), r);
            }
            for j in 0..i {
                let mut r = c.raw.clone();
                *pt(&mut r, i).0 = C::zero();
                *pt(&mut r, j).0 = C::zero();
                let l2 = pt(&mut tmp, j).1;
                judge_raw(c, format!("components {} and {} := identity", label, l2), r);
            }
        }
        let mut r = c.raw.clone();
        for i in 0..np {
            *pt(&mut r, i).0 = C::zero();
        }
        judge_raw(c, "components all points := identity".into(), r.clone());
        r.tx = F::zero();
        r.tb = F::zero();
        r.eb = F::zero();
        r.a = F::zero();
        r.b = F::zero();
        judge_raw(c, "components everything zero".into(), r);
        for i in 0..5 {
            for k in 0..5 {
                let mut r = c.raw.clone();
                let s = [&mut r.tx, &mut r.tb, &mut r.eb, &mut r.a, &mut r.b].into_iter().nth(i).unwrap();
                *s = match k {
                    0 => F::zero(),
                    1 => F::one(),
                    2 => *s + F::one(),
                    3 => -*s,
                    _ => *s * F::from(2u64),
                };
                judge_raw(c, format!("scalar {} {}", i, k), r);
            }
        }
        // 4. second-phase part present or absent
        for m in 0..8u32 {
            for kind in 0..2 {
                let mut r = c.raw.clone();
                r.flag = 1;
                r.p2 = (0..3)
                    .map(|i| {
                        if m >> i & 1 == 1 {
                            if kind == 0 { junk[i] } else { pc.B_blinding }
                        } else if let Some(p) = c.raw.p2.get(i) {
                            *p
                        } else {
                            C::zero()
                        }
                    })
                    .collect();
                let same = r.p2 == c.raw.p2 || (c.raw.p2.is_empty() && r.p2.iter().all(|p| p.is_zero()));
                if !same {
                    judge_raw(c, format!("phase2 mask {} kind {}", m, kind), r);
                }
            }
        }
        if !c.raw.p2.is_empty() {
            let mut r = c.raw.clone();
            r.set_p2([C::zero(); 3]);
            judge_raw(c, "phase2 dropped".into(), r);
        }
        // 5. an otherwise correct proof with pure blinding in the absent second phase
        if nvec(&c.prog) > 0 && c.raw.p2.is_empty() {
            if let Some(sh) = shape_of(&c.raw) {
                let gens = Gens { pc: pc.clone(), bp: bp.clone(), g: bp.share(0).G(16).copied().collect(), h: ctmc::oracle::gens_h(&pc, &bp, 16) };
                let mut rng = StdRng::seed_from_u64(5);
                let rc = RefCirc::<F>::new(&c.prog, &[]);
                let n = sh.n;
                let mut msgs: Vec<Alg<F>> = vec![];
                for v in &rc.vecs {
                    let mut a = Alg::new(n);
                    a.g[..v.len()].copy_from_slice(v);
                    a.bb = F::from(77u64);
                    msgs.push(a);
                }
                let mut ai = Alg::new(n);
                let mut ao = Alg::new(n);
                let mut s = Alg::new(n);
                for i in 0..rc.n1 {
                    ai.g[i] = rc.al[i];
                    ai.h[i] = rc.ar[i];
                    ao.g[i] = rc.ao[i];
                }
                ai.bb = F::from(5u64);
                ao.bb = F::from(6u64);
                s.bb = F::from(7u64);
                msgs.extend([ai, ao, s]);
                for which in 0..4usize {
                    let mut m2 = msgs.clone();
                    for k in 0..3 {
                        let mut a = Alg::new(n);
                        if which == k || which == 3 {
                            a.bb = F::from(9u64 + k as u64);
                        }
                        m2.push(a);
                    }
                    let nv = rc.vecs.len();
                    let vb: Vec<F> = rc.v.iter().map(|_| F::from(3u64)).collect();
                    let (mut a, mut b) = (0, 0);
                    let comms: Vec<C> = c
                        .prog
                        .iter()
                        .filter_map(|o| match o {
                            Op::Commit(_) => {
                                a += 1;
                                Some(pc.commit(rc.v[a - 1], vb[a - 1]))
                            }
                            Op::CommitVec(_) => {
                                b += 1;
                                Some(gens.point(&m2[b - 1]))
                            }
                            _ => None,
                        })
                        .collect();
                    let st = Stmt::new(&gens, &c.prog, comms.clone(), sh.clone(), b"c04");
                    let p = |i: usize| gens.point(&m2[nv + i]);
                    let fin = guarded(|| {
                        st.tuple(&st.dummy([p(0), p(1), p(2)], [C::zero(); 3], &mut rng));
                        st.finish(&m2, &rc.v, &vb, [p(0), p(1), p(2)], [p(3), p(4), p(5)], &mut rng)
                    });
                    ctx.eval(Some(&format!("{} absent-part {}", c.name, which)));
                    match fin {
                        Ok(Some(raw)) => {
                            ctx.require(!st.verify(&raw), "accepted-absent-part", || {
                                format!("{}: a proof with a second-phase message next to vector commitments is accepted ({})", c.name, which)
                            });
                        }
                        _ => ctx.add("refused", 1),
                    }
                }
            }
        }
        // 5b. proofs of a false statement with more folding rounds than the statement has: the first extra
        // round turns any claimed inner product into a true one, so only the length check refuses them
        if gates(&c.prog).0 > 0 && gates(&c.prog).1 == 0 && c.raw.p2.is_empty() {
            if let Some(sh) = shape_of(&c.raw) {
                let gens = Gens { pc: pc.clone(), bp: bp.clone(), g: bp.share(0).G(16).copied().collect(), h: ctmc::oracle::gens_h(&pc, &bp, 16) };
                let mut rng = StdRng::seed_from_u64(6);
                let rc = RefCirc::<F>::new(&c.prog, &[]);
                let n = sh.n;
                let play = |lie: bool, extra: usize, rng: &mut StdRng| -> Option<(Stmt<C>, Raw<C>)> {
                    let mut msgs: Vec<Alg<F>> = vec![];
                    for v in &rc.vecs {
                        let mut a = Alg::new(n);
                        a.g[..v.len()].copy_from_slice(v);
                        a.bb = F::from(77u64);
                        msgs.push(a);
                    }
                    let (mut ai, mut ao, mut s) = (Alg::new(n), Alg::new(n), Alg::new(n));
                    for i in 0..rc.n1 {
                        ai.g[i] = rc.al[i];
                        ai.h[i] = rc.ar[i];
                        ao.g[i] = rc.ao[i];
                        s.g[i] = F::from(11 + i as u64);
                        s.h[i] = F::from(31 + i as u64);
                    }
                    if lie {
                        ao.g[0] += F::one();
                    }
                    ai.bb = F::from(5u64);
                    ao.bb = F::from(6u64);
                    s.bb = F::from(7u64);
                    msgs.extend([ai, ao, s]);
                    let nv = rc.vecs.len();
                    let vb: Vec<F> = rc.v.iter().map(|_| F::from(3u64)).collect();
                    let (mut a, mut b) = (0, 0);
                    let comms: Vec<C> = c
                        .prog
                        .iter()
                        .filter_map(|o| match o {
                            Op::Commit(_) => {
                                a += 1;
                                Some(pc.commit(rc.v[a - 1], vb[a - 1]))
                            }
                            Op::CommitVec(_) => {
                                b += 1;
                                Some(gens.point(&msgs[b - 1]))
                            }
                            _ => None,
                        })
                        .collect();
                    let mut st = Stmt::new(&gens, &c.prog, comms, sh.clone(), b"c04");
                    st.extra = extra;
                    let p = |i: usize| gens.point(&msgs[nv + i]);
                    let raw = st.finish(&msgs, &rc.v, &vb, [p(0), p(1), p(2)], [C::zero(); 3], rng)?;
                    let st2 = Stmt::new(&gens, &c.prog, st.comms.clone(), sh.clone(), b"c04");
                    Some((st2, raw)).filter(|(st, raw)| lie || st.verify(raw))
                };
                // the same prover without the lie and without extra rounds is accepted
                match guarded(|| play(false, 0, &mut rng).is_some()) {
                    Ok(true) => ctx.add("model_conformance_accepted", 1),
                    _ => ctx.add("model_conformance_skipped", 1),
                }
                let mut rounds = vec![0usize, 1, 2, 3, 64, 32, 65, 31];
                if n > 1 && !ctx.thorough() {
                    rounds.truncate(5);
                }
                for e in rounds {
                    ctx.eval(Some(&format!("{} extra rounds {}", c.name, e)));
                    match guarded(|| play(true, e, &mut rng).map(|(st, raw)| st.verify(&raw))) {
                        Ok(Some(true)) => ctx.violation(
                            "accepted-extra-rounds",
                            format!("{}: a proof with {} folding rounds for {} gates is accepted although gate 0 is violated", c.name, sh.lg + e, n),
                        ),
                        _ => ctx.add("refused", 1),
                    }
                }
            }
        }
        // 6. bytes
        let bytes = &c.bytes;
        let judge_bytes = |what: String, b: &[u8]| {
            match guarded(|| R1CSProof::<C>::from_bytes(b)) {
                Err(e) => ctx.violation("panic-decode", format!("{}: {}: from_bytes panicked: {}", c.name, what, e)),
                Ok(Err(_)) => {
                    ctx.eval(Some(&format!("{} {}", c.name, what)));
                    ctx.add("refused_by_decoder", 1);
                }
                Ok(Ok(p)) => {
                    // canonicity is C07's matter; here only: accepted implies the honest proof
                    let same = guarded(|| p.to_bytes() == *bytes).unwrap_or(false);
                    judge(c, &what, &p, same)
                }
            }
        };
        for i in 0..bytes.len() {
            judge_bytes(format!("prefix {}", i), &bytes[..i]);
            for bit in 0..8 {
                let mut b = bytes.clone();
                b[i] ^= 1 << bit;
                judge_bytes(format!("bit {}.{}", i, bit), &b);
            }
            for v in [0u8, 0x40, 0x80, 0xff] {
                let mut b = bytes.clone();
                if b[i] != v {
                    b[i] = v;
                    judge_bytes(format!("byte {} := {}", i, v), &b);
                }
            }
            if ctx.thorough() {
                for v in 0..=255u8 {
                    let mut b = bytes.clone();
                    if b[i] != v {
                        b[i] = v;
                        judge_bytes(format!("byte {} := {}", i, v), &b);
                    }
                }
                let mut b = bytes.clone();
                b.remove(i);
                judge_bytes(format!("byte {} removed", i), &b);
                let mut b = bytes.clone();
                b.insert(i, 0);
                judge_bytes(format!("byte {} inserted", i), &b);
            }
        }
        ctx.sample(|| format!("statement {}: {} proof bytes, {} points", c.name, bytes.len(), np));
        // a proof for another statement
        for d in &cases {
            if d.name != c.name {
                if let Some(p) = d.raw.proof() {
                    judge(c, &format!("other proof of {}", d.name), &p, false);
                }
            }
        }
    });
    // 7. off-curve points must not get past a validating decoder, also inside containers
    {
        let c = &cases[2];
        let mut w = vec![];
        c.raw.proof().unwrap().serialize_uncompressed(&mut w).unwrap();
        let mut cont = vec![];
        vec![c.raw.proof().unwrap()].serialize_uncompressed(&mut cont).unwrap();
        let half = C::generator().uncompressed_size() / 2;
        for (what, base, off) in [("plain", &w, 0usize), ("in a vector", &cont, 8)] {
            for pos in [off, off + half] {
                let mut b = base.clone();
                b[pos] ^= 1;
                ctx.eval(Some(&format!("off-curve {} {}", what, pos)));
                let bad = if off == 0 {
                    R1CSProof::<C>::deserialize_uncompressed(&b[..]).is_ok()
                } else {
                    Vec::<R1CSProof<C>>::deserialize_uncompressed(&b[..]).is_ok()
                };
                ctx.require(!bad, "off-curve", || format!("validating decoder accepts a point off the curve ({}, byte {})", what, pos));
            }
        }
    }
    // all strings of up to two bytes
    for a in 0..=255u8 {
        ctx.require(matches!(guarded(|| R1CSProof::<C>::from_bytes(&[a])), Ok(Err(_))), "short", || format!("one byte {}", a));
        for b in 0..=255u8 {
            ctx.require(matches!(guarded(|| R1CSProof::<C>::from_bytes(&[a, b])), Ok(Err(_))), "short", || format!("two bytes {} {}", a, b));
        }
    }
    ctx.eval(None);
    let _ = F::one().inverse();
    ctx.finish();
}
