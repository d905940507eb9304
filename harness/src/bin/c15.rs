//! C15: selection, bit, table-lookup and range gadgets are exact.
use ark_ec::short_weierstrass::{Affine, SWCurveConfig};
use ark_ff::{Field, One, PrimeField, Zero};
use bulletproofs::r1cs::*;
use bulletproofs::{BulletproofGens, PedersenGens};
use ctmc::curves::tiny::*;
use ctmc::curves::{m126, m61};
use ctmc::gadget::*;
use ctmc::{guarded, Ctx};
use merlin::Transcript;
use relations::lookup::*;
use relations::range_proof::range_proof;
use relations::select::select;
use std::collections::BTreeSet;

fn lcs<F: Field>(c: &Capture<F>, k: usize, form: usize) -> LinearCombination<F> {
    // the same value written in different ways
    let v = c.input(k);
    match form {
        0 => v,
        1 => v * F::from(3u64) + F::from(5u64),
        _ => v.clone() + v - F::from(2u64),
    }
}
fn form_value<F: Field>(v: F, form: usize) -> F {
    match form {
        0 => v,
        1 => v * F::from(3u64) + F::from(5u64),
        _ => v + v - F::from(2u64),
    }
}
fn fixed<F: Field>(vals: &[F]) -> Vec<(usize, F)> {
    vals.iter().copied().enumerate().collect()
}

fn selects<P: SWCurveConfig>(ctx: &'static Ctx, name: &str, len: usize, form: usize, constants: bool)
where
    P::BaseField: PrimeField,
{
    let pc = PedersenGens::<Affine<P>>::default();
    let dom = field_elements::<P::ScalarField>();
    let q = dom.len();
    let build = |xs: &[P::ScalarField]| {
        let mut c = Capture::new(len + 1);
        let x = lcs(&c, 0, form);
        let list: Vec<LinearCombination<P::ScalarField>> = (0..len).map(|i| if constants { constant(xs[i]) } else { lcs(&c, i + 1, (form + i) % 3) }).collect();
        select(&mut c, x, list.into_iter());
        c
    };
    let t = build(&vec![dom[0]; len]);
    let rd = Reader::<P>::new(&pc, len + 1, t.gates.len());
    let ts = rd.sys(&t);
    let mut idx = vec![0usize; len + 1];
    loop {
        let vals: Vec<P::ScalarField> = idx.iter().map(|i| dom[*i]).collect();
        let s = if constants { rd.sys_like(&build(&vals[1..]), &t, &ts) } else { ts.clone() };
        let want = (0..len).any(|i| form_value(vals[0], form) == if constants { vals[i + 1] } else { form_value(vals[i + 1], (form + i) % 3) });
        let got = Solver::new(&s, &fixed(&vals), &[], Some(&dom)).map(|mut v| v.any()).unwrap_or(false);
        ctx.eval(Some(&format!("select {} {:?} {} {}", name, idx, form, constants)));
        ctx.require(got == want, "select", || format!("select over F_{} of {} from {:?} (form {}, constants {}): {}", q, idx[0], &idx[1..], form, constants, if got { "satisfiable" } else { "unsatisfiable" }));
        // and the assignment that an honest prover computes
        let h = s.honest_assignment(&vals).map(|v| s.violated(&v).is_none());
        if let Some(h) = h {
            ctx.require(h == want, "select", || format!("select over F_{} of {} from {:?}: honest assignment {}", q, idx[0], &idx[1..], h));
        }
        let mut k = 0;
        while k <= len {
            idx[k] += 1;
            if idx[k] < q {
                break;
            }
            idx[k] = 0;
            k += 1;
        }
        if k > len {
            break;
        }
    }
    ctx.sample_cat("select", || format!("F_{}: {} values and {} list entries, {} gates", q, q, len, t.gates.len()));
}

/// Long lists: every position, and values that are not in the list. All gates multiply given combinations, so
/// that the assignment is determined by the values.
fn long_select<P: SWCurveConfig>(ctx: &'static Ctx, name: &str, len: usize)
where
    P::BaseField: PrimeField,
{
    let pc = PedersenGens::<Affine<P>>::default();
    let f = |i: usize| P::ScalarField::from((i * i + 7 * i + 11) as u64);
    let mut c = Capture::new(len + 1);
    let x = c.input(0);
    let list: Vec<_> = (0..len).map(|i| c.input(i + 1)).collect();
    select(&mut c, x, list.into_iter());
    let s = BigReader::<P>::new(&pc, len + 1, c.gates.len()).sys(&c);
    let determined = c.gates.iter().all(|g| matches!(g, Gate::Mul));
    let list: Vec<_> = (0..len).map(f).collect();
    let mut check = |x: P::ScalarField, list: &[P::ScalarField]| {
        let vals: Vec<_> = std::iter::once(x).chain(list.iter().copied()).collect();
        let want = list.contains(&x);
        ctx.eval(Some(&format!("long select {} {} {}", name, len, x)));
        let got = if determined {
            s.honest_assignment(&vals).map(|v| s.violated(&v).is_none())
        } else {
            Solver::new(&s, &fixed(&vals), &[], None).map(|mut v| v.any()).or(Some(false))
        };
        ctx.require(got == Some(want), "select", || format!("{}: select of {} from a list of {}: satisfiable {:?}", name, x, len, got));
    };
    for i in 0..len {
        check(f(i), &list);
        // the value is nowhere but in one place, or no longer there
        let mut l = list.clone();
        l[i] = P::ScalarField::zero();
        check(f(i), &l);
        let mut l = vec![P::ScalarField::from(3u64); len];
        l[i] = f(i);
        check(f(i), &l);
    }
    for x in [P::ScalarField::zero(), P::ScalarField::one(), f(len), -f(0)] {
        check(x, &list);
    }
}

fn bits<P: SWCurveConfig>(ctx: &'static Ctx, name: &str)
where
    P::BaseField: PrimeField,
{
    let pc = PedersenGens::<Affine<P>>::default();
    let dom = field_elements::<P::ScalarField>();
    for form in 0..3 {
        let mut c = Capture::new(1);
        let x = lcs(&c, 0, form);
        is_bit(&mut c, x);
        let s = Reader::<P>::new(&pc, 1, c.gates.len()).sys(&c);
        for v in &dom {
            let fv = form_value(*v, form);
            let want = fv.is_zero() || fv.is_one();
            let got = Solver::new(&s, &[(0, *v)], &[], Some(&dom)).map(|mut v| v.any()).unwrap_or(false);
            ctx.eval(Some(&format!("bit {} {} {}", name, form, v)));
            ctx.require(got == want, "bit", || format!("is_bit({}) over F_{}: {}", fv, dom.len(), got));
        }
    }
}

/// All solutions of the lookup are the eight honest ones.
fn lookups<const N: usize, P: SWCurveConfig>(ctx: &'static Ctx, name: &str, table: &Lookup3Bit<N, P::ScalarField>, dom: Option<&[P::ScalarField]>)
where
    P::BaseField: PrimeField,
{
    let pc = PedersenGens::<Affine<P>>::default();
    let run = |index: Option<usize>| {
        let mut c = Capture::new(N);
        let out = lookup(&mut c, table, index).unwrap();
        // inputs 0..N are the results
        for (k, o) in out.iter().enumerate() {
            let i = c.input(k);
            c.constrain(o.clone() - i);
        }
        c
    };
    let t = run(None);
    let rd = Reader::<P>::new(&pc, N, t.gates.len());
    let s = rd.sys(&t);
    let all: Vec<Row<P::ScalarField>> = (0..s.nvars()).map(|i| (vec![(i, P::ScalarField::one())], P::ScalarField::zero())).collect();
    let show = |v: &[P::ScalarField]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
    let mut honest = BTreeSet::new();
    for i in 0..8 {
        let c = run(Some(i));
        let si = rd.sys_like(&c, &t, &s);
        let want: Vec<P::ScalarField> = (0..N).map(|k| table.elems[k][i]).collect();
        ctx.eval(Some(&format!("lookup {} {} {}", name, N, i)));
        match si.honest_assignment(&want) {
            None => ctx.violation("lookup", format!("{}: no honest assignment for index {}", name, i)),
            Some(v) => {
                ctx.require(si.violated(&v).is_none(), "lookup", || format!("{}: index {} does not give table entry {}: {:?}", name, i, i, si.violated(&v)));
                honest.insert(show(&v));
            }
        }
        for o in 0..8 {
            let other: Vec<P::ScalarField> = (0..N).map(|k| table.elems[k][o]).collect();
            if other != want {
                let v = si.honest_assignment(&other);
                ctx.require(v.map(|v| si.violated(&v).is_some()).unwrap_or(true), "lookup", || format!("{}: index {} can give entry {}", name, i, o));
            }
        }
    }
    let mut found = BTreeSet::new();
    let mut stuck = true;
    if let Some(mut sv) = Solver::new(&s, &[], &all, dom) {
        sv.run(&mut |v| {
            found.insert(show(v));
            found.len() < 10_000
        });
        stuck = sv.stuck;
        ctx.add("solver_nodes", sv.nodes);
        ctx.add("solutions", sv.solutions);
    }
    ctx.eval(Some(&format!("lookup {} {} all", name, N)));
    // an unfinished search (an implementation with more freedom than roots of univariate conditions) decides nothing over large fields
    if stuck && dom.is_none() {
        ctx.add("undecided", 1);
    } else {
        ctx.require(found == honest && !stuck, "lookup", || format!("{} (N={}): {} solutions, {} honest; e.g. {:?}", name, N, found.len(), honest.len(), found.symmetric_difference(&honest).next()));
    }
}

fn ranges<P: SWCurveConfig>(ctx: &'static Ctx, name: &str, n: usize, dom: Option<&[P::ScalarField]>, q: u128)
where
    P::BaseField: PrimeField,
{
    let pc = PedersenGens::<Affine<P>>::default();
    for form in 0..3 {
        let mut c = Capture::new(1);
        let x = lcs(&c, 0, form);
        range_proof(&mut c, x, None, n).unwrap();
        let rd = Reader::<P>::new(&pc, 1, c.gates.len());
        let s = rd.sys(&c);
        let value: Row<P::ScalarField> = {
            let c = Capture::new(1);
            rd.row(&(lcs(&c, 0, form) + P::ScalarField::zero()))
        };
        let mut got: BTreeSet<u128> = BTreeSet::new();
        let mut bad = None;
        let mut stuck = false;
        match Solver::new(&s, &[], &[value], dom) {
            None => {}
            Some(mut sv) => {
                sv.run(&mut |v| {
                    let b = v[0].into_bigint();
                    let w = b.as_ref();
                    if w.iter().skip(1).any(|x| *x != 0) {
                        bad = Some(v[0].to_string());
                        return false;
                    }
                    got.insert(w[0] as u128);
                    got.len() <= 1 << 16
                });
                stuck = sv.stuck;
                ctx.add("solver_nodes", sv.nodes);
                ctx.add("solutions", sv.solutions);
            }
        }
        ctx.eval(Some(&format!("range {} {} {}", name, n, form)));
        if stuck && dom.is_none() {
            ctx.add("undecided", 1);
        } else {
            let want: BTreeSet<u128> = (0..(1u128 << n)).filter(|v| *v < q).collect();
            ctx.require(bad.is_none() && got == want, "range", || format!("{}: {} bits (form {}): {} values satisfiable instead of {}, e.g. {:?} {:?}", name, n, form, got.len(), want.len(), got.symmetric_difference(&want).next(), bad));
        }
    }
    // the prover's own assignment, for every value that fits, and mismatching ones
    let top = (1u128 << n).min(q).min(1 << 12) as u64;
    let run = |w: Option<u64>| {
        let mut c = Capture::new(1);
        let x = c.input(0);
        range_proof(&mut c, x, w, n).unwrap();
        c
    };
    let t = run(None);
    let rd = Reader::<P>::new(&pc, 1, t.gates.len());
    let ts = rd.sys(&t);
    for v in 0..top {
        let s = rd.sys_like(&run(Some(v)), &t, &ts);
        ctx.eval(Some(&format!("range-honest {} {} {}", name, n, v)));
        let ok = |x: u64| s.honest_assignment(&[P::ScalarField::from(x)]).map(|a| s.violated(&a).is_none());
        ctx.require(ok(v) == Some(true), "range-honest", || format!("{}: {} bits: honest assignment for {} fails", name, n, v));
        ctx.require(ok(v + 1) != Some(true), "range-honest", || format!("{}: {} bits: bits of {} accepted for {}", name, n, v, v + 1));
    }
    if n < 16 {
        for v in [1u64 << n, (1 << n) + 1, u64::MAX] {
            let s = rd.sys_like(&run(Some(v)), &t, &ts);
            let a = s.honest_assignment(&[P::ScalarField::from(v)]);
            let small = P::ScalarField::from(v).into_bigint();
            let fits = small.as_ref()[0] < (1 << n) && small.as_ref().iter().skip(1).all(|x| *x == 0);
            ctx.require(fits || a.map(|a| s.violated(&a).is_some()).unwrap_or(true), "range-honest", || format!("{}: {} bits: {} accepted", name, n, v));
        }
    }
}

/// The width that is used for amounts: too wide for all solutions, so all deviations of up to two gates.
fn wide<P: SWCurveConfig>(ctx: &'static Ctx, name: &str, n: usize)
where
    P::BaseField: PrimeField,
{
    let pc = PedersenGens::<Affine<P>>::default();
    let run = |w: Option<u64>| {
        let mut c = Capture::new(1);
        let x = c.input(0);
        range_proof(&mut c, x, w, n).unwrap();
        c
    };
    let t = run(None);
    let rd = Reader::<P>::new(&pc, 1, t.gates.len());
    let ts = rd.sys(&t);
    let max = if n == 64 { u64::MAX } else { (1 << n) - 1 };
    let mut vs = BTreeSet::from([0, 1, max, max - 1, 0x5555_5555_5555_5555 & max, 0xAAAA_AAAA_AAAA_AAAA & max]);
    for i in 0..n {
        vs.insert(1u64 << i);
        vs.insert((1u64 << i) - 1);
        vs.insert(max - (1u64 << i));
    }
    let f = |v: u64| P::ScalarField::from(v);
    for v in &vs {
        let s = rd.sys_like(&run(Some(*v)), &t, &ts);
        ctx.eval(Some(&format!("wide {} {} {}", name, n, v)));
        let ok = |x: P::ScalarField| s.honest_assignment(&[x]).map(|a| s.violated(&a).is_none());
        ctx.require(ok(f(*v)) == Some(true), "range-honest", || format!("{}: {} bits: honest assignment for {} fails", name, n, v));
        for w in &vs {
            if w != v {
                ctx.require(ok(f(*w)) != Some(true), "range-honest", || format!("{}: {} bits: bits of {} accepted for {}", name, n, v, w));
            }
        }
    }
    let bound = P::ScalarField::from(2u64).pow([n as u64]);
    let over = |x: P::ScalarField| x.into_bigint() >= bound.into_bigint();
    for v in [0u64, max, 0x5555_5555_5555_5555 & max] {
        let s = rd.sys_like(&run(Some(v)), &t, &ts);
        let a = match s.honest_assignment(&[f(v)]) {
            Some(a) => a,
            None => continue,
        };
        let free: Vec<usize> = (0..s.ngates).filter(|g| matches!(s.honest[*g], Gate::Alloc(..))).collect();
        for i in 0..free.len() {
            for j in i..free.len() {
                let mut fx = vec![];
                for g in &free {
                    if *g != free[i] && *g != free[j] {
                        let b = s.ninputs + 3 * g;
                        fx.push((b, a[b]));
                        fx.push((b + 1, a[b + 1]));
                    }
                }
                let mut bad = None;
                let mut seen = 0;
                let mut stuck = false;
                if let Some(mut sv) = Solver::new(&s, &fx, &[(vec![(0, P::ScalarField::one())], P::ScalarField::zero())], None) {
                    sv.run(&mut |o| {
                        seen += 1;
                        if over(o[0]) {
                            bad = Some(o[0].to_string());
                        }
                        bad.is_none()
                    });
                    stuck = sv.stuck;
                    ctx.add("solver_nodes", sv.nodes);
                }
                ctx.eval(Some(&format!("wide-dev {} {} {} {} {}", name, n, v, i, j)));
                // a gate that nothing ties to a bit leaves the search stuck: then some value outside is reachable
                ctx.require(bad.is_none(), "range", || format!("{}: {} bits: gates {} and {} free: value {:?} satisfiable", name, n, free[i], free[j], bad));
                ctx.require(!stuck, "range", || format!("{}: {} bits: gates {} and {} of the assignment for {} are not determined up to finitely many values", name, n, free[i], free[j], v));
                if seen == 0 {
                    ctx.add("no_solution", 1);
                }
            }
        }
    }
}

/// The same gadgets through real proofs.
fn real<P: SWCurveConfig>(ctx: &'static Ctx, name: &str)
where
    P::BaseField: PrimeField,
{
    let pc = PedersenGens::<Affine<P>>::default();
    let bp = BulletproofGens::<Affine<P>>::new(128, 1);
    type T = Transcript;
    let f = |v: u64| P::ScalarField::from(v);
    let run = |what: String, want: bool, prove: &dyn Fn(&mut Prover<T, Affine<P>>) -> Vec<Affine<P>>, verify: &dyn Fn(&mut Verifier<T, Affine<P>>, &[Affine<P>])| {
        let r = guarded(|| {
            let mut p = Prover::new(&pc, T::new(b"g"));
            let comms = prove(&mut p);
            let pm = p.metrics();
            let proof = p.prove(&bp).ok()?;
            let mut v = Verifier::new(T::new(b"g"));
            verify(&mut v, &comms);
            let vm = v.metrics();
            Some((v.verify(&proof, &pc, &bp).is_ok(), (pm.multipliers, pm.constraints) == (vm.multipliers, vm.constraints)))
        });
        ctx.eval(Some(&format!("real {} {}", name, what)));
        ctx.add("real_proofs", 1);
        match r {
            Ok(Some((ok, same))) => {
                ctx.require(ok == want, "real", || format!("{}: {}: {}", name, what, if ok { "accepted" } else { "rejected" }));
                ctx.require(same, "real", || format!("{}: {}: prover and verifier sizes differ", name, what));
            }
            _ => ctx.require(!want, "real", || format!("{}: {}: no proof", name, what)),
        }
    };
    for len in 1..=5usize {
        for x in 0..=len as u64 {
            run(
                format!("select {} of {}", x, len),
                (x as usize) < len,
                &|p| {
                    let (c, v) = p.commit(f(x * 10), f(77));
                    let (cv, vs) = p.commit_vec(&(0..len as u64).map(|i| f(i * 10)).collect::<Vec<_>>(), f(5), &bp);
                    select(p, v.into(), vs.into_iter().map(|v| v.into()));
                    vec![c, cv]
                },
                &|v, c| {
                    let x = v.commit(c[0]);
                    let vs = v.commit_vec(len, c[1]);
                    select(v, x.into(), vs.into_iter().map(|v| v.into()));
                },
            );
        }
    }
    let table = Lookup3Bit { elems: [[f(3), f(1), f(4), f(1), f(5), f(9), f(2), f(6)], [f(53), f(58), f(97), f(93), f(23), f(84), f(62), f(64)]] };
    for i in 0..8 {
        for o in 0..8 {
            run(
                format!("lookup {} claiming {}", i, o),
                i == o,
                &|p| {
                    let (a, x) = p.commit(table.elems[0][o], f(1));
                    let (b, y) = p.commit(table.elems[1][o], f(2));
                    let r = lookup(p, &table, Some(i)).unwrap();
                    p.constrain(r[0].clone() - x);
                    p.constrain(r[1].clone() - y);
                    vec![a, b]
                },
                &|v, c| {
                    let (x, y) = (v.commit(c[0]), v.commit(c[1]));
                    let r = lookup(v, &table, None).unwrap();
                    v.constrain(r[0].clone() - x);
                    v.constrain(r[1].clone() - y);
                },
            );
        }
    }
    for n in [1usize, 8, 63, 64] {
        let max = if n == 64 { u64::MAX } else { (1 << n) - 1 };
        let mut vs: Vec<(P::ScalarField, u64, bool)> = [0, 1, max / 2, max - 1, max].iter().map(|v| (f(*v), *v, true)).collect();
        vs.push((f(max) + f(1), 0, false));
        vs.push((f(max) + f(1), max, false));
        vs.push((-f(1), max, false));
        vs.push((-f(1), 1, false));
        for (v, w, want) in vs {
            run(
                format!("range {} bits of {} with witness {}", n, v, w),
                want,
                &|p| {
                    let (c, x) = p.commit(v, f(9));
                    range_proof(p, x.into(), Some(w), n).unwrap();
                    vec![c]
                },
                &|vf, c| {
                    let x = vf.commit(c[0]);
                    range_proof(vf, x.into(), None, n).unwrap();
                },
            );
        }
    }
}

fn main() {
    let ctx = Ctx::new("C15", "model_checking");
    ctx.note("rule", "the circuit that a gadget builds is captured through the ConstraintSystem trait, its coefficients read with the implementation's own evaluation, and all assignments over a small field enumerated: select for every value and every list; is_bit for every value; lookup for every 0/1 table, unit tables and distinct tables (the solutions must be exactly the eight honest assignments); range for every value and width below the field size; at 64 bits every deviation of up to two gates. Honest assignments are checked for every input, and the same cases go through real proofs (binding of the captured circuit)");
    type Pa = ark_pallas::PallasConfig;
    type Se = ark_secp256k1::Config;
    #[derive(Debug)]
    enum Case { Long(usize, usize), Select(usize, usize, usize, bool), Bits(usize), Lookup(usize, u64), LookupBig(u64), Range(usize, usize), Wide(usize, usize), Real(usize) }
    use Case::*;
    let mut cases = vec![];
    for i in 0..3 {
        cases.push(Real(i));
    }
    for n in [64usize, 63, 33, 17] {
        for c in 0..3 {
            if c == 0 || ctx.thorough() || n == 64 {
                cases.push(Wide(c, n));
            }
        }
    }
    for n in [1usize, 2, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, ctx.pick(300, 1025)] {
        cases.push(Long(0, n));
        if n < 100 || ctx.thorough() {
            cases.push(Long(1, n));
        }
    }
    let len7 = ctx.pick(5, 6);
    for len in (1..=len7).rev() {
        for form in 0..3 {
            cases.push(Select(7, len, form, false));
        }
        if len <= ctx.pick(3, 4) {
            cases.push(Select(7, len, 0, true));
        }
    }
    for len in 1..=ctx.pick(3, 4) {
        cases.push(Select(13, len, 0, false));
    }
    for len in 1..=ctx.pick(2, 3) {
        cases.push(Select(31, len, 0, false));
    }
    for c in 0..6 {
        cases.push(Bits(c));
        for n in 0..=10 {
            cases.push(Range(c, n));
        }
    }
    for n in 0..=ctx.pick(10, 13) {
        cases.push(Range(6, n));
        cases.push(Range(7, n));
    }
    for t in 0..256 {
        cases.push(Lookup(1, t));
        if ctx.thorough() || t % 16 == 3 {
            cases.push(Lookup(3, t));
            cases.push(Lookup(2, t));
        }
    }
    for t in 256..ctx.pick(280, 512) {
        cases.push(Lookup(1, t));
        cases.push(Lookup(2, t));
        cases.push(Lookup(3, t));
    }
    for t in 0..ctx.pick(4, 24) {
        cases.push(LookupBig(t));
    }
    ctx.note("bounds", format!("select: lists of up to 300 (thorough 1025) position by position, all lists of up to {} over F_7, {} over F_13, {} over F_31; range: widths 0..{}; lookup: 256 0/1 tables + distinct tables over F_13", len7, ctx.pick(3, 4), ctx.pick(2, 3), ctx.pick(10, 13)));
    ctx.cases(&cases, |c| format!("{:?}", c), |c| match *c {
        Long(0, n) => long_select::<m61::Even>(ctx, "m61", n),
        Long(_, n) => long_select::<Pa>(ctx, "pallas", n),
        Select(7, l, f, k) => selects::<s7::Parent>(ctx, "F_7", l, f, k),
        Select(13, l, f, k) => selects::<s13::Parent>(ctx, "F_13", l, f, k),
        Select(_, l, f, k) => selects::<s31::Parent>(ctx, "F_31", l, f, k),
        Bits(c) => match c {
            0 => bits::<s7::Parent>(ctx, "F_7"),
            1 => bits::<s13::Parent>(ctx, "F_13"),
            2 => bits::<s31::Parent>(ctx, "F_31"),
            3 => bits::<t6zl::Parent>(ctx, "F_127"),
            4 => bits::<t7zh::Parent>(ctx, "F_547"),
            _ => bits::<t10al::Parent>(ctx, "F_1009"),
        },
        Range(c, n) => {
            macro_rules! r {
                ($p:ty, $q:expr) => {
                    if (1u128 << n) <= $q { ranges::<$p>(ctx, stringify!($p), n, Some(&field_elements()), $q) }
                };
            }
            match c {
                0 => r!(s7::Parent, 7),
                1 => r!(s13::Parent, 13),
                2 => r!(s31::Parent, 31),
                3 => r!(t6zl::Parent, 127),
                4 => r!(t7zh::Parent, 547),
                5 => r!(t10al::Parent, 1009),
                6 => ranges::<m126::Even>(ctx, "m126", n, None, u128::MAX),
                _ => ranges::<Pa>(ctx, "pallas", n, None, u128::MAX),
            }
        }
        Wide(0, n) => wide::<m126::Even>(ctx, "m126", n),
        Wide(1, n) => wide::<Pa>(ctx, "pallas", n),
        Wide(_, n) => wide::<Se>(ctx, "secp", n),
        Lookup(n, t) => {
            type F = s13::Fs;
            let dom = field_elements::<F>();
            let entry = |k: usize, i: usize| -> F {
                if t < 256 {
                    F::from((t >> ((i + k) % 8)) & 1)
                } else {
                    F::from((3 + t * (1 + k as u64)) + (i as u64) * (1 + (t + k as u64) % 12))
                }
            };
            macro_rules! go {
                ($n:literal) => {
                    lookups::<$n, s13::Parent>(ctx, &format!("F_13 table {}", t), &Lookup3Bit { elems: std::array::from_fn(|k| std::array::from_fn(|i| entry(k, i))) }, Some(&dom))
                };
            }
            match n { 1 => go!(1), 2 => go!(2), _ => go!(3) }
        }
        LookupBig(t) => {
            let h = |k: usize, i: usize| 0x9E3779B97F4A7C15u64.wrapping_mul(1 + t * 64 + (k * 8 + i) as u64);
            lookups::<2, Pa>(ctx, "pallas", &Lookup3Bit { elems: std::array::from_fn(|k| std::array::from_fn(|i| <Pa as ark_ec::CurveConfig>::ScalarField::from(h(k, i)).square())) }, None);
            lookups::<2, m61::Even>(ctx, "m61", &Lookup3Bit { elems: std::array::from_fn(|k| std::array::from_fn(|i| m61::Fq::from(h(k, i)))) }, None);
        }
        Real(0) => real::<m126::Even>(ctx, "m126"),
        Real(1) => real::<Pa>(ctx, "pallas"),
        Real(_) => real::<Se>(ctx, "secp"),
    });
    ctx.finish();
}
