//! C16: curve membership, point addition, rerandomization and single-level select-and-rerandomize are exact.
use ark_ec::short_weierstrass::{Affine, SWCurveConfig};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{BigInteger, Field, One, PrimeField, Zero};
use bulletproofs::r1cs::*;
use bulletproofs::{BulletproofGens, PedersenGens};
use ctmc::curves::tiny::*;
use ctmc::curves::*;
use ctmc::gadget::*;
use ctmc::levels::*;
use ctmc::tiny_all;
use ctmc::{guarded, Ctx};
use merlin::Transcript;
use relations::curve::*;
use relations::lookup::Lookup3Bit;
use relations::rerandomize::{build_tables, re_randomize};
use relations::single_level_select_and_rerandomize::*;
use std::collections::{BTreeMap, BTreeSet};

/// Every x, y, A, B over a small field.
fn curve_checks<P: SWCurveConfig>(ctx: &'static Ctx, name: &str)
where
    P::BaseField: PrimeField,
{
    let pc = PedersenGens::<Affine<P>>::default();
    let dom = field_elements::<P::ScalarField>();
    for a in &dom {
        for b in &dom {
            for form in 0..2 {
                let mut c = Capture::new(2);
                let (mut x, mut y) = (c.input(0), c.input(1));
                if form == 1 {
                    x = x * P::ScalarField::from(2u64) + P::ScalarField::one();
                    y = c.input(1) - c.input(0);
                }
                curve_check(&mut c, x, y, *a, *b);
                let s = Reader::<P>::new(&pc, 2, c.gates.len()).sys(&c);
                for i in &dom {
                    for j in &dom {
                        let (x, y) = if form == 0 { (*i, *j) } else { (i.double() + P::ScalarField::one(), *j - i) };
                        let want = y * y == x * x * x + *a * x + b;
                        let got = Solver::new(&s, &inputs(0, &[*i, *j]), &[], Some(&dom)).map(|mut v| v.any()).unwrap_or(false);
                        let honest = s.honest_assignment(&[*i, *j]).map(|v| s.violated(&v).is_none());
                        ctx.eval(Some(&format!("curve {} {} {} {} {} {}", name, a, b, i, j, form)));
                        ctx.require(got == want, "curve_check", || format!("{}: ({}, {}) on y^2 = x^3 + {} x + {}: {}", name, x, y, a, b, if got { "satisfiable" } else { "unsatisfiable" }));
                        ctx.require(honest.unwrap_or(want) == want, "curve_check-honest", || format!("{}: ({}, {}) on y^2 = x^3 + {} x + {}: honest assignment {:?}", name, x, y, a, b, honest));
                    }
                }
            }
        }
    }
}
/// Every pair of coordinates with the curve's own coefficients.
fn on_curve<C: SWCurveConfig, P: SWCurveConfig<ScalarField = C::BaseField>>(ctx: &'static Ctx, name: &str)
where
    P::BaseField: PrimeField,
    C::BaseField: PrimeField,
{
    let pc = PedersenGens::<Affine<P>>::default();
    let dom = field_elements::<C::BaseField>();
    let mut c = Capture::new(2);
    let (x, y) = (c.input(0), c.input(1));
    curve_check(&mut c, x, y, C::COEFF_A, C::COEFF_B);
    let s = Reader::<P>::new(&pc, 2, c.gates.len()).sys(&c);
    for x in &dom {
        let want: Vec<_> = lifts::<C>(*x).iter().map(|p| p.y).collect();
        for y in &dom {
            ctx.eval(Some(&format!("oncurve {} {} {}", name, x, y)));
            let got = Solver::new(&s, &inputs(0, &[*x, *y]), &[], Some(&dom)).map(|mut v| v.any()).unwrap_or(false);
            ctx.require(got == want.contains(y), "curve_check", || format!("{}: ({}, {}): {}", name, x, y, got));
        }
    }
}

/// Every pair of points: all satisfying outputs.
fn additions<C: SWCurveConfig, P: SWCurveConfig<ScalarField = C::BaseField>>(ctx: &'static Ctx, name: &str)
where
    P::BaseField: PrimeField,
    C::BaseField: PrimeField,
{
    let pc = PedersenGens::<Affine<P>>::default();
    let dom = field_elements::<C::BaseField>();
    let pts = points::<C>();
    type Lc<C> = LinearCombination<<C as ark_ec::CurveConfig>::BaseField>;
    #[derive(Clone, Copy, PartialEq, Debug)]
    enum K { Incomplete, Checked, IncompleteHelper, CheckedHelper }
    use K::*;
    // inputs: left, right, output
    let build = |k: K, w: Option<(Affine<C>, Affine<C>, C::BaseField, C::BaseField)>| {
        let mut c: Capture<C::BaseField> = Capture::new(6);
        let v: Vec<Lc<C>> = (0..6).map(|i| c.input(i)).collect();
        let prms = CurveAddition { x_l: v[0].clone(), y_l: v[1].clone(), x_r: v[2].clone(), y_r: v[3].clone(), x_o: v[4].clone(), y_o: v[5].clone(), delta: w.map(|w| w.2) };
        let left = PointRepresentation { x: v[0].clone(), y: v[1].clone(), witness: w.map(|w| w.0) };
        let right = PointRepresentation { x: v[2].clone(), y: v[3].clone(), witness: w.map(|w| w.1) };
        let out = match k {
            Incomplete => {
                incomplete_curve_addition(&mut c, &prms);
                None
            }
            Checked => {
                checked_curve_addition(&mut c, &prms, w.map(|w| w.3));
                None
            }
            IncompleteHelper => Some(incomplete_curve_addition_helper(&mut c, left, right)),
            CheckedHelper => Some(checked_curve_addition_helper(&mut c, left, right)),
        };
        let mut wit = None;
        if let Some(o) = out {
            c.constrain(o.x - v[4].clone());
            c.constrain(v[5].clone() - o.y);
            wit = o.witness;
        }
        (c, wit)
    };
    for k in [Incomplete, Checked, IncompleteHelper, CheckedHelper] {
        let (t, _) = build(k, None);
        let rd = Reader::<P>::new(&pc, 6, t.gates.len());
        let ts = rd.sys(&t);
        let checked = matches!(k, Checked | CheckedHelper);
        for p in &pts {
            for q in &pts {
                let mut fx = inputs(0, &xy(p));
                fx.extend(inputs(2, &xy(q)));
                let sum = (*p + *q).into_affine();
                ctx.eval(Some(&format!("add {:?} {} {} {}", k, name, p, q)));
                if p.x != q.x || checked || p.y != q.y {
                    let mut got = vec![];
                    if let Some(mut sv) = Solver::new(&ts, &fx, &[unit(4), unit(5)], Some(&dom)) {
                        sv.run(&mut |o| {
                            got.push(o.to_vec());
                            got.len() < 4
                        });
                    }
                    let want = if p.x != q.x { vec![xy(&sum)] } else { vec![] };
                    ctx.require(got == want, "addition", || format!("{}: {:?} of {} and {}: outputs {:?} instead of {:?}", name, k, p, q, got.iter().map(|v| show(v)).collect::<Vec<_>>(), want.iter().map(|v| show(v)).collect::<Vec<_>>()));
                }
                if p.x != q.x {
                    let inv = (p.x - q.x).inverse().unwrap();
                    let (c, wit) = build(k, Some((*p, *q, (p.y - q.y) * inv, inv)));
                    let s = rd.sys_like(&c, &t, &ts);
                    let mut ins = xy(p);
                    ins.extend(xy(q));
                    ins.extend(xy(&sum));
                    let ok = s.honest_assignment(&ins).map(|v| s.violated(&v));
                    ctx.require(ok == Some(None), "addition-honest", || format!("{}: {:?} of {} and {}: honest assignment: {:?}", name, k, p, q, ok));
                    ctx.require(wit.is_none() || wit == Some(sum), "addition-honest", || format!("{}: {:?} of {} and {}: witness {:?}", name, k, p, q, wit));
                }
            }
        }
    }
}

fn rerand_capture<C: SWCurveConfig>(tables: &[Lookup3Bit<2, C::BaseField>], w: Option<(Affine<C>, C::ScalarField)>) -> Capture<C::BaseField>
where
    C::BaseField: PrimeField,
{
    let mut c = Capture::new(4);
    let v: Vec<LinearCombination<C::BaseField>> = (0..4).map(|i| c.input(i)).collect();
    re_randomize(&mut c, tables, PointRepresentation { x: v[0].clone(), y: v[1].clone(), witness: w.map(|w| w.0) }, v[2].clone(), v[3].clone(), w.map(|w| w.1));
    c
}

/// The outputs reachable from every point, over a small curve with a cofactor.
fn rerand<C: SWCurveConfig, P: SWCurveConfig<ScalarField = C::BaseField>>(ctx: &'static Ctx, name: &str, per_coset: usize)
where
    P::BaseField: PrimeField,
    C::BaseField: PrimeField,
{
    let h = C::GENERATOR;
    let tables = match guarded(|| build_tables(h)) {
        Ok(t) => t,
        Err(e) => {
            ctx.require(false, "tables", || format!("{}: building the tables panics: {}", name, e));
            return;
        }
    };
    let order: u64 = C::ScalarField::MODULUS.as_ref()[0];
    let mul = |r: u64| (h * C::ScalarField::from(r)).into_affine();
    // every choice of digits adds up to the multiple it stands for
    let m = tables.len();
    for code in 0..8usize.pow(m as u32) {
        let d: Vec<usize> = (0..m).map(|i| (code >> (3 * i)) & 7).collect();
        let sum = d.iter().enumerate().fold(C::GENERATOR.into_group() - C::GENERATOR, |a, (i, d)| a + Affine::<C>::new_unchecked(tables[i].elems[0][*d], tables[i].elems[1][*d]));
        ctx.eval(Some(&format!("table {} {}", name, code)));
        ctx.require(sum.into_affine() == mul(code as u64 % order), "tables", || format!("{}: entries for {} add up to {}", name, code, sum.into_affine()));
    }
    let dom = field_elements::<C::BaseField>();
    let pc = PedersenGens::<Affine<P>>::default();
    let t = rerand_capture::<C>(&tables, None);
    let rd = Reader::<P>::new(&pc, 4, t.gates.len());
    let ts = rd.sys(&t);
    // inputs: some of every coset
    let sub: BTreeSet<String> = (0..order).map(|r| mul(r).to_string()).collect();
    let mut seen: BTreeMap<String, usize> = BTreeMap::new();
    let mut cs = vec![];
    for p in points::<C>() {
        let coset = (p.into_group() * C::ScalarField::one()).into_affine().mul_bigint(C::ScalarField::MODULUS).into_affine().to_string();
        let n = seen.entry(coset).or_default();
        *n += 1;
        if *n <= per_coset {
            cs.push(p);
        }
    }
    ctx.note(&format!("inputs_{}", name), format!("{} points in {} cosets of a group of order {}", cs.len(), seen.len(), seen.values().sum::<usize>() + 1));
    let work: Vec<Affine<C>> = cs;
    std::thread::scope(|sc| {
        for part in work.chunks(work.len().div_ceil(8)) {
            let (ts, tables, dom, mul, t, rd, sub) = (&ts, &tables, &dom, &mul, &t, &rd, &sub);
            sc.spawn(move || {
                for c in part {
                    let mut got: BTreeMap<String, Vec<C::BaseField>> = BTreeMap::new();
                    let mut nodes = 0;
                    let mut stuck = false;
                    if let Some(mut sv) = Solver::new(ts, &inputs(0, &xy(c)), &[unit(2), unit(3)], Some(dom)) {
                        sv.run(&mut |o| {
                            got.insert(show(o), o.to_vec());
                            got.len() <= 2 * order as usize + 50
                        });
                        nodes = sv.nodes;
                        stuck = sv.stuck;
                        ctx.add("solutions", sv.solutions);
                    }
                    ctx.add("solver_nodes", nodes);
                    ctx.require(!stuck, "rerandomize", || format!("{}: search from {} incomplete", name, c));
                    ctx.eval(Some(&format!("rerand {} {}", name, c)));
                    let mut allowed = BTreeSet::new();
                    for r in 1..order {
                        let rh = mul(r);
                        if rh.x != c.x {
                            allowed.insert(show(&xy(&(*c + rh).into_affine())));
                        }
                    }
                    if let Some((k, _)) = got.iter().find(|(k, _)| !allowed.contains(*k)) {
                        ctx.require(false, "rerandomize", || format!("{}: from {} (in the span of H: {}), output {} is satisfiable but is not the input plus a multiple of H", name, c, sub.contains(&c.to_string()), k));
                    }
                    for r in 0..order {
                        let rh = mul(r);
                        let s = C::ScalarField::from(r);
                        let out = (*c + rh).into_affine();
                        let d = digits(s);
                        let coll = collisions::<C>(tables, &d);
                        let exceptional = r == 0 || rh.x == c.x || coll.iter().any(|i| may_wrap::<C::ScalarField>(*i));
                        ctx.eval(Some(&format!("rerand-honest {} {} {}", name, c, r)));
                        let run = guarded(|| rerand_capture::<C>(tables, Some((*c, s))));
                        let ok = match run {
                            Err(e) => Err(e),
                            Ok(cap) => {
                                let s = rd.sys_like(&cap, t, ts);
                                let mut ins = xy(c);
                                ins.extend(xy(&out));
                                match s.honest_assignment(&ins) {
                                    None => Err("missing values".into()),
                                    Some(v) => s.violated(&v).map(Err).unwrap_or(Ok(())),
                                }
                            }
                        };
                        if exceptional {
                            ctx.add("exceptional", 1);
                        } else {
                            ctx.require(ok.is_ok(), "rerandomize-honest", || format!("{}: {} + {} H: {:?}", name, c, r, ok));
                            ctx.require(got.contains_key(&show(&xy(&out))), "rerandomize", || format!("{}: {} + {} H is not satisfiable", name, c, r));
                        }
                        // a different output, the same witness
                        if r % 7 == 3 {
                            if let Ok(cap) = guarded(|| rerand_capture::<C>(tables, Some((*c, s)))) {
                                let s = rd.sys_like(&cap, t, ts);
                                for wrong in [(out + h).into_affine(), -out, *c] {
                                    let mut ins = xy(c);
                                    ins.extend(xy(&wrong));
                                    let bad = wrong != out && s.honest_assignment(&ins).map(|v| s.violated(&v).is_none()) == Some(true);
                                    ctx.require(!bad, "rerandomize", || format!("{}: witness for {} + {} H accepted for {}", name, c, r, wrong));
                                }
                            }
                        }
                    }
                }
            });
        }
    });
    ctx.sample_cat("rerandomize", || format!("{}: all outputs of re_randomize from {} inputs, {} gates", name, work.len(), t.gates.len()));
}

/// Bit variables found by comparing honest assignments.
fn find_bits<C: SWCurveConfig>(tables: &[Lookup3Bit<2, C::BaseField>], rd: &dyn Fn(&Capture<C::BaseField>) -> Sys<C::BaseField>, c: &Affine<C>) -> (Capture<C::BaseField>, Sys<C::BaseField>, Vec<Vec<usize>>)
where
    C::BaseField: PrimeField,
{
    let lambda = C::ScalarField::MODULUS_BIT_SIZE as usize;
    let t = rerand_capture::<C>(tables, None);
    let ts = rd(&t);
    let mut runs = vec![];
    let mut x = 0x243F6A8885A308D3u64;
    while runs.len() < 40 {
        let mut limbs = vec![];
        for _ in 0..4 {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            limbs.extend_from_slice(&x.to_le_bytes());
        }
        let r = C::ScalarField::from_le_bytes_mod_order(&limbs);
        if let Ok(cap) = guarded(|| rerand_capture::<C>(tables, Some((*c, r)))) {
            let mut b = r.into_bigint().to_bits_le();
            b.resize(lambda, false);
            runs.push((b, cap));
        }
    }
    let mut out = vec![];
    for k in 0..lambda {
        let mut vars = vec![];
        if runs.iter().all(|r| r.0[k] == runs[0].0[k]) {
            // a bit that honest scalars (almost) never set
            out.push(vars);
            continue;
        }
        for g in 0..t.gates.len() {
            for side in 0..2 {
                let is = runs.iter().all(|(b, cap)| match &cap.gates[g] {
                    Gate::Alloc(Some(l), Some(r)) => *(if side == 0 { l } else { r }) == if b[k] { C::BaseField::one() } else { C::BaseField::zero() },
                    _ => false,
                });
                if is {
                    vars.push(4 + 3 * g + side);
                }
            }
        }
        out.push(vars);
    }
    (t, ts, out)
}

/// Full-size scalars: the output is determined by the bits, also where partial sums wrap around.
fn rerand_big<C: SWCurveConfig, P: SWCurveConfig<ScalarField = C::BaseField>>(ctx: &'static Ctx, name: &str, h: Affine<C>, c: Affine<C>)
where
    P::BaseField: PrimeField,
    C::BaseField: PrimeField,
{
    use num_bigint::BigUint;
    let lambda = C::ScalarField::MODULUS_BIT_SIZE as usize;
    let tables = build_tables(h);
    let m = tables.len();
    let pc = PedersenGens::<Affine<P>>::default();
    let ng = rerand_capture::<C>(&tables, None).gates.len();
    let rd = BigReader::<P>::new(&pc, 4, ng);
    let (t, ts, bits) = find_bits::<C>(&tables, &|c| rd.sys(c), &c);
    // bits that are left to the search: those beyond the honest scalars
    let open: Vec<usize> = (0..3 * m).filter(|k| *k >= lambda || bits[*k].is_empty()).collect();
    if open.iter().any(|k| *k + 1 < lambda) {
        // the bits are not carried by variables of their own: nothing can be fixed in this way
        ctx.cap("bits of the randomness not recognised");
        return;
    }
    let p: BigUint = C::ScalarField::MODULUS.into();
    let one = BigUint::from(1u64);
    // patterns: integers below 2^lambda (not necessarily below p)
    let mut pats: Vec<(String, BigUint)> = vec![];
    for k in 0..lambda {
        pats.push((format!("bit {}", k), &one << k));
        if k % 3 == 0 {
            for d in [3u64, 5, 7] {
                let v = BigUint::from(d) << k;
                if v.bits() as usize <= lambda {
                    pats.push((format!("window {} = {}", k / 3 + 1, d), v));
                }
            }
        }
    }
    for d in 1..16u64 {
        pats.push((format!("{}", d), BigUint::from(d)));
        pats.push((format!("p - {}", d), &p - d));
        pats.push((format!("p + {}", d), &p + d));
    }
    let full = (&one << lambda) - 1u64;
    pats.push(("all ones".into(), full.clone()));
    pats.push(("alternating".into(), &full / 3u64));
    // colliding partial sums: digits of the first windows add up to plus or minus the entry of the next one
    for w in 2..=m {
        if !may_wrap::<C::ScalarField>(w) && w + 4 < m {
            continue;
        }
        for j in 0..8u64 {
            // the entry stands for (j + 8) 8^(w-1) (the last one for j 8^(m-1) minus the offsets of all others)
            let offs: BigUint = (1..w).map(|i| &one << (3 * i)).sum();
            let t_w = if w < m { BigUint::from(j + 8) << (3 * (w - 1)) } else { (BigUint::from(j) << (3 * (m - 1))) + (&p << 3usize) - &offs };
            for k in 0..24u64 {
                for sign in 0..3 {
                    // digits value D in [0, 8^(w-1)) with D + offs = t_w + k p, t_w - k p or k p - t_w
                    let (want, minus) = match sign {
                        0 => (&t_w + BigUint::from(k) * &p, BigUint::zero()),
                        1 => (t_w.clone(), BigUint::from(k) * &p),
                        _ => (BigUint::from(k) * &p, t_w.clone()),
                    };
                    if want >= &minus + &offs {
                        let d = want - minus - &offs;
                        if d < (&one << (3 * (w - 1))) {
                            let v = &d + (BigUint::from(j) << (3 * (w - 1)));
                            pats.push((format!("{} window {} entry {} wrap {}", if sign == 2 { "opposite at" } else { "equal at" }, w, j, k), v));
                        }
                    }
                }
            }
        }
    }
    std::thread::scope(|sc| {
        for part in pats.chunks(pats.len().div_ceil(8)) {
            let (ts, t, rd, tables, bits, p, open) = (&ts, &t, &rd, &tables, &bits, &p, &open);
            sc.spawn(move || {
                for (what, v) in part {
                    let mut fx = inputs(0, &xy(&c));
                    for k in 0..lambda {
                        for var in &bits[k] {
                            fx.push((*var, if v.bit(k as u64) { C::BaseField::one() } else { C::BaseField::zero() }));
                        }
                    }
                    // bits beyond the length of the scalar are left to the search
                    let high = v >> lambda;
                    let mut got = BTreeSet::new();
                    let mut stuck = false;
                    if let Some(mut sv) = Solver::new(ts, &fx, &[unit(2), unit(3)], None) {
                        sv.limit = 200_000;
                        sv.run(&mut |o| {
                            got.insert(show(o));
                            true
                        });
                        stuck = sv.stuck;
                        ctx.add("solver_nodes", sv.nodes);
                    }
                    ctx.eval(Some(&format!("big {} {}", name, what)));
                    ctx.require(!stuck, "rerandomize-big", || format!("{}: {}: with all bits fixed the output is not determined: it can be something other than the input plus a multiple of H", name, what));
                    let mut allowed = BTreeSet::new();
                    let mut expected = BTreeSet::new();
                    for e in 0..1u64 << open.len() {
                        let mut full = v.clone();
                        for (i, k) in open.iter().enumerate() {
                            full.set_bit(*k as u64, e >> i & 1 == 1);
                        }
                        let r = C::ScalarField::from(full.clone() % p);
                        let rh = (h * r).into_affine();
                        let d: Vec<usize> = (0..m).map(|i| (0..3).map(|k| (full.bit((3 * i + k) as u64) as usize) << k).sum()).collect();
                        if rh.is_zero() || rh.x == c.x {
                            continue;
                        }
                        let o = show(&xy(&(c + rh).into_affine()));
                        allowed.insert(o.clone());
                        if collisions::<C>(tables, &d).is_empty() {
                            expected.insert(o);
                        } else {
                            ctx.add("colliding_patterns", 1);
                        }
                    }
                    if stuck {
                        continue;
                    }
                    ctx.require(got.is_subset(&allowed), "rerandomize-big", || format!("{}: {}: outputs {:?} are not the input plus the multiple of H", name, what, got.difference(&allowed).collect::<Vec<_>>()));
                    ctx.require(expected.is_subset(&got), "rerandomize-big", || format!("{}: {}: outputs {:?} are not satisfiable", name, what, expected.difference(&got).collect::<Vec<_>>()));
                    if high.is_zero() && v < p {
                        let r = C::ScalarField::from(v.clone());
                        let out = (c + h * r).into_affine();
                        let d = digits(r);
                        let ok = guarded(|| rerand_capture::<C>(tables, Some((c, r)))).map(|cap| {
                            let s = rd.sys_like(&cap, t, ts);
                            let mut ins = xy(&c);
                            ins.extend(xy(&out));
                            s.honest_assignment(&ins).map(|v| s.violated(&v))
                        });
                        let except = r.is_zero() || (h * r).into_affine().x == c.x || !collisions::<C>(tables, &d).is_empty();
                        ctx.require(except || ok == Ok(Some(None)), "rerandomize-honest", || format!("{}: {}: honest assignment: {:?}", name, what, ok));
                    }
                }
            });
        }
    });
    ctx.sample_cat("rerandomize-big", || format!("{}: {} patterns of bits, {} gates, {} windows", name, pats.len(), ng, m));
}

/// The single-level gadgets through real proofs.
fn real<const M: usize, C: SWCurveConfig + Copy, P: SWCurveConfig<ScalarField = C::BaseField, BaseField = C::ScalarField> + Copy>(ctx: &'static Ctx, name: &str, batched: bool, per: usize)
where
    C::BaseField: PrimeField,
{
    type T = Transcript;
    let pr = SingleLayerParameters::<C>::new::<P>(4);
    let parent = SingleLayerParameters::<P>::new::<C>(1024);
    let g = C::GENERATOR;
    let child = |i: u64| (g * C::ScalarField::from(1000 + 77 * i)).into_affine();
    let shifted: Vec<Affine<C>> = (0..(M * per) as u64).map(|i| (child(i) + pr.delta).into_affine()).collect();
    let xs: Vec<_> = shifted.iter().map(|p| p.x).collect();
    let blind = C::BaseField::from(99u64);
    let run = |what: String, want: bool, wit: [Affine<C>; M], r: C::ScalarField, pubp: Affine<C>, pubv: Affine<C>| {
        let res = guarded(|| {
            let mut p: Prover<T, Affine<P>> = Prover::new(&parent.pc_gens, T::new(b"l"));
            let (com, vars) = p.commit_vec(&xs, P::ScalarField::from(99u64), &parent.bp_gens);
            let kids: Vec<_> = vars.into_iter().map(|v| v.into()).collect();
            if batched {
                single_level_batched_select_and_rerandomize::<_, _, _, _, M>(&mut p, &pr, &pubp, kids, Some(&wit), Some(r));
            } else {
                single_level_select_and_rerandomize(&mut p, &pr, &pubp, kids, Some(wit[0]), Some(r));
            }
            let proof = p.prove(&parent.bp_gens).ok()?;
            let mut v: Verifier<T, Affine<P>> = Verifier::new(T::new(b"l"));
            let vars = v.commit_vec(xs.len(), com);
            let kids: Vec<_> = vars.into_iter().map(|v| v.into()).collect();
            if batched {
                single_level_batched_select_and_rerandomize::<_, _, _, _, M>(&mut v, &pr, &pubv, kids, None, None);
            } else {
                single_level_select_and_rerandomize(&mut v, &pr, &pubv, kids, None, None);
            }
            Some(v.verify(&proof, &parent.pc_gens, &parent.bp_gens).is_ok())
        });
        let _ = blind;
        ctx.add("real_proofs", 1);
        ctx.eval(Some(&format!("real {} {} {}", name, M, what)));
        let ok = matches!(res, Ok(Some(true)));
        ctx.require(ok == want, "real", || format!("{}: batch {} of lists of {}: {}: {}", name, M, per, what, if ok { "accepted" } else { "rejected" }));
    };
    let hh = pr.pc_gens.B_blinding;
    let rs: Vec<C::ScalarField> = [1u64, 2, 7, 8, 0x5555_5555_5555].iter().map(|r| C::ScalarField::from(*r)).chain([-C::ScalarField::one(), C::ScalarField::from(3u64).inverse().unwrap()]).collect();
    for sel in 0..per.pow(M as u32) {
        let idx: [usize; M] = std::array::from_fn(|k| k * per + sel / per.pow(k as u32) % per);
        let wit: [Affine<C>; M] = std::array::from_fn(|k| shifted[idx[k]]);
        let sum = idx.iter().fold(C::GENERATOR.into_group() - g, |a, i| a + child(*i as u64));
        for (ri, r) in rs.iter().enumerate() {
            let out = (sum + hh * r).into_affine();
            run(format!("children {:?} randomness {}", idx, ri), true, wit, *r, out, out);
        }
        let r = rs[6];
        let out = (sum + hh * r).into_affine();
        let wrong = [("another randomness", (out + hh).into_affine()), ("delta added", (out + pr.delta).into_affine()), ("negated", -out), ("other child", (out + child(50)).into_affine()), ("identity", Affine::zero())];
        for (what, w) in wrong {
            run(format!("children {:?}, verifier told {}", idx, what), false, wit, r, out, w);
            run(format!("children {:?}, both told {}", idx, what), false, wit, r, w, w);
        }
        for k in 0..M {
            let mut bad = wit;
            bad[k] = (child(60) + pr.delta).into_affine();
            let s2 = (sum - child(idx[k] as u64) + child(60)).into_affine();
            let out = (s2 + hh * r).into_affine();
            run(format!("children {:?}, position {} not in the list", idx, k), false, bad, r, out, out);
            if M > 1 {
                let mut bad = wit;
                bad[k] = shifted[idx[(k + 1) % M]];
                let out = (sum - child(idx[k] as u64) + child(idx[(k + 1) % M] as u64) + hh * r).into_affine();
                run(format!("children {:?}, position {} from the list of another", idx, k), false, bad, r, out, out);
            }
        }
    }
}

fn main() {
    let ctx = Ctx::new("C16", "model_checking");
    ctx.note("rule", "captured circuits (coefficients read with the implementation's own evaluation), all solutions over small fields: curve_check for every (x, y, A, B); additions for every pair of points, all outputs; re_randomize on curves with a cofactor (so that 'a multiple of H' is a proper subset): every input coset, all outputs, and the honest assignment for every randomness; single-level gadgets: every public point against lists of children. Full-size scalars: with bits fixed (single bits, windows, wrap-arounds of partial sums) the output must be determined. The same gadgets also go through real proofs");
    #[derive(Debug)]
    enum Case { Check(usize), OnCurve(usize), Add(usize), Rerand(usize, usize), Big(usize), Level(usize, bool, usize, usize, usize), Real(usize) }
    use Case::*;
    let th = ctx.thorough();
    let mut cases = vec![];
    for i in 0..ctx.pick(2, 3) {
        cases.push(Check(i));
    }
    for i in 0..ctx.pick(6, 8) {
        cases.push(OnCurve(i));
    }
    for i in 0..ctx.pick(2, 4) {
        cases.push(Add(i));
    }
    for i in 0..8 {
        cases.push(Rerand(i, if th { if i < 6 { 100000 } else { 40 } } else { [40, 30, 12, 16, 10, 8, 2, 2][i] }));
    }
    for i in 0..8 {
        if th || i < 6 {
            cases.push(Big(i));
        }
    }
    for c in 0..ctx.pick(3, 4) {
        for d in 0..ctx.pick(2, 4) {
            for part in 0..ctx.pick(2, 6) {
                for (m, b) in [(1, false), (1, true), (2, true), (3, true)] {
                    if c > 1 && (d > 0 || m == 3) && !th {
                        continue;
                    }
                    cases.push(Level(m, b, c, d, part));
                }
            }
        }
    }
    for i in 0..ctx.pick(5, 7) {
        cases.push(Real(i));
    }
    ctx.cases(&cases, |c| format!("{:?}", c), |c| match *c {
        Check(0) => curve_checks::<s7::Parent>(ctx, "F_7"),
        Check(1) => curve_checks::<s13::Parent>(ctx, "F_13"),
        Check(_) => curve_checks::<s31::Parent>(ctx, "F_31"),
        OnCurve(i) => {
            macro_rules! go { ($t:ident) => { on_curve::<$t::Child, $t::Parent>(ctx, stringify!($t)) }; }
            tiny_all!(i, go)
        }
        Add(i) => {
            macro_rules! go { ($t:ident) => { additions::<$t::Child, $t::Parent>(ctx, stringify!($t)) }; }
            tiny_all!(i, go)
        }
        Rerand(i, n) => {
            macro_rules! go { ($t:ident) => { rerand::<$t::Child, $t::Parent>(ctx, stringify!($t), n) }; }
            tiny_all!(i, go)
        }
        Big(i) => {
            macro_rules! go {
                ($n:literal, $c:ty, $p:ty) => {{
                    let pc = PedersenGens::<Affine<$c>>::default();
                    let c = (pc.B * <$c as ark_ec::CurveConfig>::ScalarField::from(12345u64)).into_affine();
                    rerand_big::<$c, $p>(ctx, $n, pc.B_blinding, c)
                }};
            }
            match i {
                0 => go!("m60", m60::Even, m60::Odd),
                1 => go!("m61", m61::Even, m61::Odd),
                2 => go!("m62", m62::Even, m62::Odd),
                3 => go!("m126", m126::Even, m126::Odd),
                4 => go!("pallas", ark_pallas::PallasConfig, ark_vesta::VestaConfig),
                5 => go!("vesta", ark_vesta::VestaConfig, ark_pallas::PallasConfig),
                6 => go!("secp256k1", ark_secp256k1::Config, ark_secq256k1::Config),
                _ => go!("secq256k1", ark_secq256k1::Config, ark_secp256k1::Config),
            }
        }
        Level(m, b, c, d, part) => level_case(ctx, m, b, c, d, part, true),
        Real(0) => real::<1, m61::Even, m61::Odd>(ctx, "m61", false, 2),
        Real(1) => real::<1, m60::Even, m60::Odd>(ctx, "m60", false, 3),
        Real(2) => real::<2, m61::Even, m61::Odd>(ctx, "m61", true, 2),
        Real(3) => real::<3, m62::Even, m62::Odd>(ctx, "m62", true, 1),
        Real(4) => real::<1, m61::Even, m61::Odd>(ctx, "m61", true, 3),
        Real(5) => real::<2, m60::Even, m60::Odd>(ctx, "m60", true, 2),
        Real(_) => real::<3, m61::Even, m61::Odd>(ctx, "m61", true, 2),
    });
    ctx.finish();
}
