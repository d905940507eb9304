//! The single-level select-and-rerandomize circuits, batched or not: all satisfying assignments over tiny curves.
use crate::curves::tiny::*;
use crate::gadget::*;
use crate::{guarded, Ctx};
use ark_ec::short_weierstrass::{Affine, SWCurveConfig};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{BigInteger, Field, PrimeField, Zero};
use bulletproofs::{BulletproofGens, PedersenGens};
use relations::lookup::Lookup3Bit;
use relations::rerandomize::build_tables;
use relations::single_level_select_and_rerandomize::*;
use std::collections::BTreeSet;

pub fn show<F: std::fmt::Display>(v: &[F]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}
/// All affine points, by counting.
pub fn points<C: SWCurveConfig>() -> Vec<Affine<C>>
where
    C::BaseField: PrimeField,
{
    let mut out = vec![];
    for x in field_elements::<C::BaseField>() {
        for p in lifts::<C>(x) {
            out.push(p);
        }
    }
    out
}
pub fn lifts<C: SWCurveConfig>(x: C::BaseField) -> Vec<Affine<C>>
where
    C::BaseField: PrimeField,
{
    let y2 = x * x * x + C::COEFF_A * x + C::COEFF_B;
    match y2.sqrt() {
        None => vec![],
        Some(y) if y.is_zero() => vec![Affine::new_unchecked(x, y)],
        Some(y) => vec![Affine::new_unchecked(x, y), Affine::new_unchecked(x, -y)],
    }
}
pub fn xy<C: SWCurveConfig>(p: &Affine<C>) -> Vec<C::BaseField> {
    vec![p.x, p.y]
}
pub fn unit<F: Field>(i: usize) -> Row<F> {
    (vec![(i, F::one())], F::zero())
}
pub fn inputs<F: Field>(from: usize, v: &[F]) -> Vec<(usize, F)> {
    v.iter().enumerate().map(|(i, x)| (from + i, *x)).collect()
}

pub fn digits<S: PrimeField>(r: S) -> Vec<usize> {
    let bits = r.into_bigint().to_bits_le();
    let m = S::MODULUS_BIT_SIZE as usize / 3 + 1;
    (0..m).map(|i| (0..3).map(|k| (bits.get(3 * i + k).copied().unwrap_or(false) as usize) << k).sum()).collect()
}
/// Windows at which adding up the table entries meets an exceptional addition.
pub fn collisions<C: SWCurveConfig>(tables: &[Lookup3Bit<2, C::BaseField>], d: &[usize]) -> Vec<usize> {
    let mut acc = Affine::<C>::zero();
    let mut out = vec![];
    for (i, t) in tables.iter().enumerate() {
        let e = Affine::<C>::new_unchecked(t.elems[0][d[i]], t.elems[1][d[i]]);
        if i > 0 && (acc.is_zero() || acc.x == e.x) {
            out.push(i + 1);
        }
        acc = (acc + e).into_affine();
    }
    out
}
/// Additions of a random scalar whose exceptional cases can be reached at all (the partial sums wrap).
pub fn may_wrap<S: PrimeField>(window: usize) -> bool {
    3 * window + 1 >= S::MODULUS_BIT_SIZE as usize
}

pub fn params<C: SWCurveConfig + Copy>(h: Affine<C>, delta: Affine<C>) -> SingleLayerParameters<C>
where
    C::BaseField: PrimeField,
{
    SingleLayerParameters { bp_gens: BulletproofGens::new(1, 1), pc_gens: PedersenGens { B: h, B_blinding: h }, delta, coeff_a: C::COEFF_A, coeff_b: C::COEFF_B, tables: build_tables(h) }
}

/// Every public point against lists of children; M = 0 stands for the unbatched gadget.
pub fn levels<const M: usize, C: SWCurveConfig + Copy, P: SWCurveConfig<ScalarField = C::BaseField>>(ctx: &'static Ctx, name: &str, batched: bool, delta: Affine<C>, lists: Vec<Vec<C::BaseField>>, honest: bool)
where
    P::BaseField: PrimeField,
    C::BaseField: PrimeField,
{
    let h = C::GENERATOR;
    let pr = params(h, delta);
    let order: u64 = C::ScalarField::MODULUS.as_ref()[0];
    let pc = PedersenGens::<Affine<P>>::default();
    let dom = field_elements::<C::BaseField>();
    let n = lists[0].len();
    let shift = delta * C::ScalarField::from(M as u64);
    let run = |pubp: &Affine<C>, w: Option<([Affine<C>; M], C::ScalarField)>| {
        let mut c = Capture::new(n);
        let kids: Vec<_> = (0..n).map(|i| c.input(i)).collect();
        if batched {
            single_level_batched_select_and_rerandomize::<_, _, _, _, M>(&mut c, &pr, pubp, kids, w.as_ref().map(|w| &w.0), w.map(|w| w.1));
        } else {
            single_level_select_and_rerandomize(&mut c, &pr, pubp, kids, w.map(|w| w.0[0]), w.map(|w| w.1));
        }
        c
    };
    let mut group = points::<C>();
    group.push(Affine::zero());
    let t = run(&h, None);
    let rd = Reader::<P>::new(&pc, n, t.gates.len());
    let ts = rd.sys(&t);
    let mults: Vec<Affine<C>> = (0..order).map(|r| (h * C::ScalarField::from(r)).into_affine()).collect();
    let in_order: Vec<(Affine<C>, Sys<C::BaseField>)> = group.iter().map(|g| (*g, rd.sys_like(&run(g, None), &t, &ts))).collect();
    for list in &lists {
        // what may be selected
        let mut sums: Vec<(Vec<Affine<C>>, Affine<C>)> = vec![(vec![], Affine::zero())];
        for chunk in list.chunks_exact(n / M) {
            let mut next = vec![];
            for (w, s) in &sums {
                let mut xs: Vec<_> = chunk.to_vec();
                xs.sort();
                xs.dedup();
                for x in xs {
                    for p in lifts::<C>(x) {
                        if w.is_empty() || (s.x != p.x && !s.is_zero()) {
                            let mut w = w.clone();
                            w.push(p);
                            next.push((w, (*s + p).into_affine()));
                        }
                    }
                }
            }
            sums = next;
        }
        let mut allowed = BTreeSet::new();
        for (_, s) in &sums {
            for r in 1..order as usize {
                if mults[r].x != s.x && !s.is_zero() {
                    allowed.insert((*s + mults[r] - shift).into_affine().to_string());
                }
            }
        }
        let shown = show(list);
        let sat: BTreeSet<String> = std::thread::scope(|sc| {
            let hs: Vec<_> = in_order
                .chunks(in_order.len().div_ceil(8))
                .map(|part| {
                    let (dom, allowed, shown) = (&dom, &allowed, &shown);
                    sc.spawn(move || {
                        let mut sat = vec![];
                        for (g, s) in part {
                            ctx.eval(Some(&format!("level {} {} {} {} {} {}", name, M, batched, delta, shown, g)));
                            let mut got = false;
                            if let Some(mut sv) = Solver::new(s, &inputs(0, list), &[], Some(dom)) {
                                got = sv.any();
                                ctx.require(!sv.stuck, "level", || format!("{}: search incomplete", name));
                                ctx.add("solver_nodes", sv.nodes);
                            }
                            let want = allowed.contains(&g.to_string());
                            ctx.require(!got || want, "level", || format!("{}: {} of children [{}] (delta {}, batched {}): {} is satisfiable but no rerandomization of selected children", name, M, shown, delta, batched, g));
                            if got {
                                sat.push(g.to_string());
                            }
                        }
                        sat
                    })
                })
                .collect();
            hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
        });
        ctx.add("satisfiable_levels", sat.len() as u64);
        if honest {
            for (w, s) in &sums {
                let w: [Affine<C>; M] = w.clone().try_into().unwrap();
                for r in 0..order {
                    let sc = C::ScalarField::from(r);
                    let d = digits(sc);
                    let coll = collisions::<C>(&pr.tables, &d);
                    if r == 0 || mults[r as usize].x == s.x || s.is_zero() || coll.iter().any(|i| may_wrap::<C::ScalarField>(*i)) {
                        ctx.add("exceptional", 1);
                        continue;
                    }
                    let g = (*s + mults[r as usize] - shift).into_affine();
                    ctx.eval(Some(&format!("level-honest {} {} {} {} {} {:?} {}", name, M, batched, delta, shown, w, r)));
                    let ok = guarded(|| run(&g, Some((w, sc)))).map(|c| {
                        let like = rd.sys_like(&c, &t, &ts);
                        like.honest_assignment(list).map(|v| like.violated(&v))
                    });
                    ctx.require(ok == Ok(Some(None)), "level-honest", || format!("{}: {:?} of children [{}] (delta {}, batched {}) with randomness {}: {:?}", name, w, shown, delta, batched, r, ok));
                    ctx.require(sat.contains(&g.to_string()), "level", || format!("{}: {:?} of children [{}] (delta {}, batched {}) with randomness {}: not satisfiable", name, w, shown, delta, batched, r));
                }
            }
        }
    }
    ctx.sample_cat(&format!("level {} {}", M, batched), || format!("{}: {} lists of {} children, {} public points, {} gates", name, lists.len(), n, group.len(), t.gates.len()));
}

#[macro_export]
macro_rules! tiny_all {
    ($i:expr, $m:ident) => {
        match $i {
            0 => $m!(t6zl), 1 => $m!(t6ah), 2 => $m!(t7zh), 3 => $m!(t7al), 4 => $m!(t8zl), 5 => $m!(t8ah), 6 => $m!(t9ah), _ => $m!(t10al),
        }
    };
}


/// One family of lists of children on tiny curve c: batch size m, batched gadget or not, offset d.
pub fn level_case(ctx: &'static Ctx, m: usize, b: bool, c: usize, d: usize, part: usize, honest: bool) {
            macro_rules! go {
                ($t:ident) => {{
                    type F = $t::Fb;
                    let pts = points::<$t::Child>();
                    // in the span of H, and outside of it
                    let delta = match d { 0 => pts[5], 1 => pts[pts.len() / 2 + 1], 2 => ($t::Child::GENERATOR * $t::Fs::from(9u64)).into_affine(), _ => pts[pts.len() - 3] };
                    let dom = field_elements::<F>();
                    let off: Vec<F> = dom.iter().copied().filter(|x| lifts::<$t::Child>(*x).is_empty()).collect();
                    let pick = |k: usize| pts[(k * 37 + part * 11 + 3) % pts.len()].x;
                    let lists: Vec<Vec<F>> = match (m, part % 2) {
                        (1, 0) => {
                            let mut l: Vec<Vec<F>> = (0..6).map(|k| vec![pick(k), pick(k + 9)]).collect();
                            l.push(vec![pick(1), pick(1)]);
                            l.push(vec![F::zero(), pick(2)]);
                            l.push(vec![pick(3), off[part + 1]]);
                            l.push(vec![off[part], off[part + 3]]);
                            l.push(vec![F::zero(), F::zero()]);
                            l
                        }
                        (1, _) => {
                            let mut l: Vec<Vec<F>> = (0..4).map(|k| vec![pick(k), pick(k + 9), pick(k + 20)]).collect();
                            l.push(vec![F::zero(), off[part], pick(7)]);
                            l
                        }
                        (2, 0) => {
                            let mut l: Vec<Vec<F>> = (0..5).map(|k| vec![pick(k), pick(k + 9)]).collect();
                            l.push(vec![pick(1), pick(1)]);
                            l.push(vec![F::zero(), pick(2)]);
                            l.push(vec![pick(3), off[part]]);
                            l
                        }
                        (2, _) => vec![vec![pick(0), pick(1), pick(2), pick(3)], vec![pick(0), F::zero(), F::zero(), pick(0)], vec![pick(4), off[part], pick(4), pick(6)]],
                        (4, _) => vec![vec![pick(0), pick(1), pick(2), pick(3)], vec![pick(3), pick(4), pick(4), pick(5)]],
                        _ => vec![vec![pick(0), pick(1), pick(2)], vec![pick(3), pick(3), pick(4)], vec![pick(5), pick(6), pick(5)], vec![pick(5), pick(6), F::zero()]],
                    };
                    let n = format!("{} delta {}", stringify!($t), d);
                    match m {
                        1 => levels::<1, $t::Child, $t::Parent>(ctx, &n, b, delta, lists, honest),
                        2 => levels::<2, $t::Child, $t::Parent>(ctx, &n, b, delta, lists, honest),
                        4 => levels::<4, $t::Child, $t::Parent>(ctx, &n, b, delta, lists, honest),
                        _ => levels::<3, $t::Child, $t::Parent>(ctx, &n, b, delta, lists, honest),
                    }
                }};
            }
            tiny_all!(c, go)
        }
