//! C14: a batched membership proves only members, each at leaf level.
use ark_ec::short_weierstrass::{Affine, SWCurveConfig};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{BigInteger, One, PrimeField, UniformRand, Zero};
use bulletproofs::r1cs::*;
use ctmc::curves::{m60, m61, m62};
use ctmc::rel::Multi;
use ctmc::{guarded, rel, Ctx};
use merlin::Transcript;
use relations::batched_curve_tree_prover::*;
use relations::curve_tree::*;
use relations::single_level_select_and_rerandomize::*;

const LABEL: &[u8] = b"multi";

fn window_index<Q: SWCurveConfig>(r: Q::ScalarField, w: usize) -> usize {
    let b = r.into_bigint().to_bits_le();
    (0..3).map(|k| (b.get(3 * w + k) == Some(&true)) as usize * (1 << k)).sum()
}
fn table_point<Q: SWCurveConfig + Copy>(p: &SingleLayerParameters<Q>, r: Q::ScalarField, w: usize) -> Affine<Q> {
    let i = window_index::<Q>(r, w);
    Affine::new_unchecked(p.tables[w].elems[0][i], p.tables[w].elems[1][i])
}
/// Parameters whose table of window w is shifted so that the used entry becomes p: only constants of the circuit differ.
fn evil_params<P: SWCurveConfig, Q: SWCurveConfig + Copy>(r: Q::ScalarField, w: usize, p: Affine<Q>) -> SingleLayerParameters<Q>
where
    Q::BaseField: PrimeField,
{
    let mut o = SingleLayerParameters::<Q>::new::<P>(1);
    let idx = window_index::<Q>(r, w);
    let (dx, dy) = (p.x - o.tables[w].elems[0][idx], p.y - o.tables[w].elems[1][idx]);
    o.tables[w].elems[0].iter_mut().for_each(|e| *e += dx);
    o.tables[w].elems[1].iter_mut().for_each(|e| *e += dy);
    o
}

/// One level: M parents summed into one commitment on P, M children on Q.
#[derive(Clone)]
struct Step<const L: usize, const M: usize, P: SWCurveConfig, Q: SWCurveConfig> {
    siblings: [[P::ScalarField; L]; M],
    parent_blind: P::ScalarField, // zero: the root
    child: [Affine<Q>; M],        // claimed children + delta
    /// inner levels: one rerandomization of the sum (entry 0); the last level: one per child
    r: [Q::ScalarField; M],
    target: [Affine<Q>; M],
    leaf: bool,
    evil: Option<(usize, usize, Affine<Q>)>, // position, window, point
}
impl<const L: usize, const M: usize, P, Q> Step<L, M, P, Q>
where
    P: SWCurveConfig + Copy,
    Q: SWCurveConfig<BaseField = P::ScalarField, ScalarField = P::BaseField> + Copy,
    P::BaseField: PrimeField,
    P::ScalarField: PrimeField,
{
    fn play(&self, prover: &mut Prover<Transcript, Affine<P>>, pp: &SingleLayerParameters<P>, qp: &SingleLayerParameters<Q>) {
        let flat: Vec<P::ScalarField> = self.siblings.iter().flatten().copied().collect();
        let vars: Vec<LinearCombination<P::ScalarField>> = if self.parent_blind.is_zero() {
            flat.into_iter().map(constant).collect()
        } else {
            prover.commit_vec(&flat, self.parent_blind, &pp.bp_gens).1.into_iter().map(|v| v.into()).collect()
        };
        let own = self.evil.map(|(i, w, p)| (i, evil_params::<P, Q>(self.r[i], w, p)));
        if self.leaf {
            for (i, chunk) in vars.chunks_exact(L).enumerate() {
                let q = match &own { Some((j, o)) if *j == i => o, _ => qp };
                single_level_select_and_rerandomize(prover, q, &self.target[i], chunk.to_vec(), Some(self.child[i]), Some(self.r[i]));
            }
        } else {
            let q = own.as_ref().map(|o| &o.1).unwrap_or(qp);
            single_level_batched_select_and_rerandomize(prover, q, &self.target[0], vars, Some(&self.child), Some(self.r[0]));
        }
    }
    /// Honest exposure of the claimed children.
    fn expose(&mut self, qp: &SingleLayerParameters<Q>) {
        let h = qp.pc_gens.B_blinding;
        if self.leaf {
            for i in 0..M {
                self.target[i] = (self.child[i].into_group() - qp.delta.into_group() + h * self.r[i]).into_affine();
            }
        } else {
            let mut s = h * self.r[0];
            for c in &self.child {
                s += c.into_group() - qp.delta.into_group();
            }
            self.target = [s.into_affine(); M];
        }
    }
}

#[derive(Clone)]
struct Plan<const L: usize, const M: usize, P0: SWCurveConfig, P1: SWCurveConfig> {
    even: Vec<Step<L, M, P0, P1>>,
    odd: Vec<Step<L, M, P1, P0>>,
}
/// The rerandomization scalars, shared by all plans that are mixed.
struct Blinds<F0, F1, const M: usize> {
    even_children: Vec<F0>, // blinds of the exposed even commitments, one per odd inner node
    leaves: [F0; M],
    odd_children: Vec<F1>,
}

macro_rules! wh {
    ($(#[$m:meta])* fn $name:ident<$(const $c:ident),*>($($a:ident: $t:ty),* $(,)?) $(-> $r:ty)? $b:block) => {
        $(#[$m])*
        fn $name<$(const $c: usize,)* F0: PrimeField, F1: PrimeField, P0: SWCurveConfig<BaseField = F1, ScalarField = F0> + Copy + Send + Sync, P1: SWCurveConfig<BaseField = F0, ScalarField = F1> + Copy + Send + Sync>($($a: $t),*) $(-> $r)? $b
    };
}

wh! {
    fn plan<const L, const M>(w: &CurveTreeWitnessMultiPath<L, M, P0, P1>, b: &Blinds<F0, F1, M>, pr: &SelRerandParameters<P0, P1>) -> Plan<L, M, P0, P1> {
        let (e, o) = (&pr.even_parameters, &pr.odd_parameters);
        let (ne, no) = (w.even_internal_nodes.len(), w.odd_internal_nodes.len());
        let root_even = ne == no;
        let even = w.even_internal_nodes.iter().enumerate().map(|(i, n)| {
            let mut s = Step {
                siblings: n.map(|n| n.siblings),
                parent_blind: if root_even { if i == 0 { F0::zero() } else { b.even_children[i - 1] } } else { b.even_children[i] },
                child: n.map(|n| (n.child_witness + o.delta).into_affine()),
                r: [b.odd_children[i]; M],
                target: [Affine::zero(); M],
                leaf: false,
                evil: None,
            };
            s.expose(o);
            s
        }).collect();
        let odd = w.odd_internal_nodes.iter().enumerate().map(|(i, n)| {
            let leaf = i + 1 == no;
            let mut s = Step {
                siblings: n.map(|n| n.siblings),
                parent_blind: if root_even { b.odd_children[i] } else if i == 0 { F1::zero() } else { b.odd_children[i - 1] },
                child: n.map(|n| (n.child_witness + e.delta).into_affine()),
                r: if leaf { b.leaves } else { [b.even_children[i]; M] },
                target: [Affine::zero(); M],
                leaf,
                evil: None,
            };
            s.expose(e);
            s
        }).collect();
        Plan { even, odd }
    }
}
wh! {
    fn run<const L, const M>(p: &Plan<L, M, P0, P1>, pr: &SelRerandParameters<P0, P1>) -> Option<Multi<L, M, P0, P1>> {
        let mut e: Prover<_, Affine<P0>> = Prover::new(&pr.even_parameters.pc_gens, Transcript::new(LABEL));
        let mut o: Prover<_, Affine<P1>> = Prover::new(&pr.odd_parameters.pc_gens, Transcript::new(LABEL));
        p.even.iter().for_each(|s| s.play(&mut e, &pr.even_parameters, &pr.odd_parameters));
        p.odd.iter().for_each(|s| s.play(&mut o, &pr.odd_parameters, &pr.even_parameters));
        let last = p.odd.len() - 1;
        Some(Multi {
            path: SelectAndRerandomizeMultiPath {
                selected_commitments: p.odd[last].target,
                odd_commitments: p.even.iter().map(|s| s.target[0]).collect(),
                even_commitments: p.odd[..last].iter().map(|s| s.target[0]).collect(),
            },
            even: e.prove(&pr.even_parameters.bp_gens).ok()?,
            odd: o.prove(&pr.odd_parameters.bp_gens).ok()?,
            blindings: p.odd[last].r,
        })
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Dev {
    /// claim the real children, expose the fake one
    Target,
    /// claim a fake child, which is not among the children
    NotAChild,
    /// open the position's part of the node to other children
    Siblings,
    /// shift a window of the rerandomization so that it lands on the fake exposure (at the last level: of this position)
    Window(usize),
    /// other randomness in the witness than in the exposure
    Randomness,
}
fn deviate<const L: usize, const M: usize, P, Q>(real: &Step<L, M, P, Q>, fake: &Step<L, M, P, Q>, d: Dev, pos: usize, qp: &SingleLayerParameters<Q>) -> Step<L, M, P, Q>
where
    P: SWCurveConfig + Copy,
    Q: SWCurveConfig<BaseField = P::ScalarField, ScalarField = P::BaseField> + Copy,
    P::BaseField: PrimeField,
    P::ScalarField: PrimeField,
{
    let mut s = real.clone();
    match d {
        Dev::Target => s.target = fake.target,
        Dev::NotAChild => {
            s.child = fake.child;
            s.target = fake.target;
        }
        Dev::Siblings => s = fake.clone(),
        Dev::Window(w) => {
            s.target = fake.target;
            let h = qp.pc_gens.B_blinding;
            let (k, from, shift) = if s.leaf {
                (pos, s.child[pos].into_group(), qp.delta.into_group())
            } else {
                (0, s.child.iter().fold(Affine::<Q>::zero().into_group(), |a, c| a + c), qp.delta * Q::ScalarField::from(M as u64))
            };
            // from + (r*H - T_w + X) = exposure + shift
            let x = s.target[k].into_group() + shift - from - h * s.r[k] + table_point(qp, s.r[k], w).into_group();
            s.evil = Some((k, w, x.into_affine()));
        }
        Dev::Randomness => {
            if s.leaf {
                s.r[pos] += Q::ScalarField::one();
            } else {
                s.r.iter_mut().for_each(|r| *r += Q::ScalarField::one());
            }
        }
    }
    s
}

wh! {
    fn verdict<const L, const M>(ctx: &'static Ctx, t: &CurveTree<L, M, P0, P1>, m: &Multi<L, M, P0, P1>, pr: &SelRerandParameters<P0, P1>, key: &str, what: &dyn Fn() -> String) {
        ctx.eval(Some(&what()));
        if let Some(l) = rel::accepts_multi(t, m, pr, LABEL) {
            ctx.violation(key, format!("{}: accepted with leaves {:?}", what(), l));
        }
    }
}
wh! {
    fn play<const L, const M>(ctx: &'static Ctx, t: &CurveTree<L, M, P0, P1>, p: &Plan<L, M, P0, P1>, pr: &SelRerandParameters<P0, P1>, key: &str, what: &dyn Fn() -> String) {
        match guarded(|| run(p, pr)) {
            Ok(Some(m)) => {
                ctx.add("forged_witnesses", 1);
                verdict(ctx, t, &m, pr, key, what)
            }
            _ => ctx.add("witness_not_computable", 1),
        }
    }
}
wh! {
    /// Levels root first: (is even, position among its parity).
    fn order<const L, const M>(p: &Plan<L, M, P0, P1>) -> Vec<(bool, usize)> {
        let root_even = p.even.len() == p.odd.len();
        (0..p.even.len() + p.odd.len()).map(|k| ((k % 2 == 0) == root_even, k / 2)).collect()
    }
}

wh! {
    fn gadget_faults<const L, const M>(ctx: &'static Ctx, curve: &str, n: usize, h: usize, part: usize, windows: &[usize], pr: &SelRerandParameters<P0, P1>) {
        let set = rel::leaves::<P0>(n, 0);
        let t = CurveTree::<L, M, P0, P1>::from_set(&set, pr, Some(h));
        let u = CurveTree::<L, M, P0, P1>::from_set(&rel::leaves(n, 77), pr, Some(h));
        let h = t.height();
        let idx: [usize; M] = std::array::from_fn(|i| if i % 2 == 0 { n - 1 } else { 0 });
        let name = format!("{} L={} M={} n={} h={} indices {:?}", curve, L, M, n, h, idx);
        let rng = &mut rand::thread_rng();
        let b = Blinds { even_children: (0..h).map(|_| F0::rand(rng)).collect(), leaves: std::array::from_fn(|_| F0::rand(rng)), odd_children: (0..h).map(|_| F1::rand(rng)).collect() };
        let (rw, fw) = (t.select_and_rerandomize_prover_multi_witness(idx, pr), u.select_and_rerandomize_prover_multi_witness(idx, pr));
        let real = plan(&rw, &b, pr);
        let levels = order(&real);
        // the witness in which some positions leave the tree at level k
        let hybrid = |k: usize, who: &dyn Fn(usize) -> bool| {
            let mut w = rw.clone();
            for (j, (even, i)) in levels.iter().enumerate() {
                for p in 0..M {
                    if j >= k && who(p) {
                        if *even {
                            w.even_internal_nodes[*i][p] = fw.even_internal_nodes[*i][p];
                        } else {
                            w.odd_internal_nodes[*i][p] = fw.odd_internal_nodes[*i][p];
                        }
                    }
                }
            }
            plan(&w, &b, pr)
        };
        if part == 0 {
            let fake = hybrid(0, &|_| true);
            for (tree, p, ok) in [(&t, &real, true), (&u, &fake, true), (&t, &fake, false), (&u, &real, false)] {
                let m = match guarded(|| run(p, pr)) {
                    Ok(Some(m)) => m,
                    _ => return ctx.violation("honest-prover", format!("{}: the honest plan gives no proof", name)),
                };
                let a = rel::accepts_multi(tree, &m, pr, LABEL).is_some();
                ctx.eval(None);
                if ok {
                    ctx.require(a, "honest-rejected", || format!("{}: the honest plan is rejected", name));
                    ctx.add("positive_controls", a as u64);
                } else {
                    ctx.require(!a, "other-root", || format!("{}: paths of another tree are accepted", name));
                }
            }
        }
        let mut count = 0usize;
        let mut mine = || { count += 1; count % 4 == part };
        for k in 0..h {
            for who in 0..=M {
                if who == M && M == 1 {
                    continue;
                }
                let fake = hybrid(k, &|p| who == M || p == who);
                let mut devs = vec![Dev::Target, Dev::NotAChild, Dev::Siblings, Dev::Randomness];
                devs.extend(windows.iter().map(|w| Dev::Window(*w)));
                for d in devs {
                    if who == M && matches!(d, Dev::Randomness | Dev::Window(_)) || !mine() {
                        continue;
                    }
                    // at an inner level all positions share one rerandomization
                    let mut p = real.clone();
                    for (j, (even, i)) in levels.iter().copied().enumerate() {
                        if j == k {
                            if even {
                                p.even[i] = deviate(&real.even[i], &fake.even[i], d, who % M, &pr.odd_parameters);
                            } else {
                                p.odd[i] = deviate(&real.odd[i], &fake.odd[i], d, who % M, &pr.even_parameters);
                            }
                        } else if j > k && d != Dev::Randomness {
                            if even { p.even[i] = fake.even[i].clone() } else { p.odd[i] = fake.odd[i].clone() }
                        }
                    }
                    play(ctx, &t, &p, pr, "non-member", &|| format!("{}: {:?} at level {} in {}", name, d, k, if who == M { "all positions".to_string() } else { format!("position {}", who) }));
                }
            }
            // contributions moved between positions
            for a in 0..M {
                for c in 0..M {
                    if a == c || !mine() {
                        continue;
                    }
                    let (even, i) = levels[k];
                    for how in 0..3 {
                        let mut p = real.clone();
                        // the children of the positions exchanged / one child counted twice / a difference moved over
                        macro_rules! mv {
                            ($s:expr, $qp:expr) => {{
                                let s = $s;
                                // a child that is also listed at the other position may be claimed there
                                if s.siblings[a].contains(&s.child[c].x) || how == 0 && s.siblings[c].contains(&s.child[a].x) {
                                    continue;
                                }
                                match how {
                                    0 => s.child.swap(a, c),
                                    1 => s.child[a] = s.child[c],
                                    _ => {
                                        let d = $qp.pc_gens.B;
                                        s.child[a] = (s.child[a] + d).into_affine();
                                        s.child[c] = (s.child[c].into_group() - d.into_group()).into_affine();
                                    }
                                }
                                s.expose($qp);
                            }};
                        }
                        if even { mv!(&mut p.even[i], &pr.odd_parameters) } else { mv!(&mut p.odd[i], &pr.even_parameters) }
                        let leaf = k + 1 == h;
                        play(ctx, &t, &p, pr, "moved", &|| format!("{}: {} at level {}{}", name, ["children exchanged between", "child counted twice in", "difference moved between"][how].to_string() + &format!(" positions {} and {}", a, c), k, if leaf { " (leaves)" } else { "" }));
                    }
                }
            }
        }
        // last level: entries of a position's part of the node that belong to no element, and other positions' parts
        let last = real.odd.len() - 1;
        let ep = &pr.even_parameters;
        for pos in 0..M {
            let mut xs: Vec<(F1, &str)> = vec![(F1::zero(), "zero")];
            xs.extend(real.odd[last].siblings[pos].iter().filter(|x| !set.iter().any(|l| (*l + ep.delta).into_affine().x == **x)).map(|x| (*x, "an entry without element")));
            // the sum and difference of entries of the summed nodes
            for o in 0..M {
                if o != pos {
                    for j in 0..L {
                        xs.push((real.odd[last].siblings[pos][j] + real.odd[last].siblings[o][j], "a sum over two positions"));
                    }
                }
            }
            for (x, why) in xs {
                if real.odd[last].siblings[pos].contains(&x) && why != "an entry without element" || !mine() {
                    continue;
                }
                ctx.eval(None);
                let Some((a, b)) = Affine::<P0>::get_ys_from_x_unchecked(x) else { continue };
                for y in [a, b] {
                    let mut p = real.clone();
                    p.odd[last].child[pos] = Affine::new_unchecked(x, y);
                    p.odd[last].expose(ep);
                    play(ctx, &t, &p, pr, "phantom", &|| format!("{}: {} (x={}) claimed at position {}", name, why, x, pos));
                }
            }
            // off the curve
            for dy in [F1::one(), -real.odd[last].child[pos].y] {
                if !mine() {
                    continue;
                }
                let mut p = real.clone();
                let c = Affine::<P0>::new_unchecked(p.odd[last].child[pos].x, p.odd[last].child[pos].y + dy);
                p.odd[last].child[pos] = c;
                let z = (c + (ep.pc_gens.B_blinding * p.odd[last].r[pos]).into_affine()).into_affine();
                p.odd[last].target[pos] = (z + (-ep.delta.into_group()).into_affine()).into_affine();
                play(ctx, &t, &p, pr, "off-curve", &|| format!("{}: off-curve leaf at position {}", name, pos));
            }
        }
        ctx.sample_cat(&format!("gadget {} L{} M{}", curve, L, M), || format!("{}: {} levels", name, h));
    }
}

wh! {
    fn object_faults<const L, const M>(ctx: &'static Ctx, curve: &str, n: usize, h: usize, pr: &SelRerandParameters<P0, P1>) {
        let t = CurveTree::<L, M, P0, P1>::from_set(&rel::leaves(n, 0), pr, Some(h));
        let u = CurveTree::<L, M, P0, P1>::from_set(&rel::leaves(n, 77), pr, Some(h));
        let h = t.height();
        let rng = &mut rand::thread_rng();
        let i0: [usize; M] = std::array::from_fn(|i| i % n);
        let i1: [usize; M] = std::array::from_fn(|i| (i + 1) % n);
        let mut ms: Vec<Multi<L, M, P0, P1>> = [i0, i1, i0].iter().filter_map(|i| rel::prove_multi(&t, *i, pr, LABEL, rng).ok()).collect();
        ms.extend(rel::prove_multi(&u, i0, pr, LABEL, rng).ok());
        if ms.len() != 4 {
            return ctx.violation("honest-prover", format!("{} n={} h={}: no proof", curve, n, h));
        }
        let name = format!("{} L={} M={} n={} h={}", curve, L, M, n, h);
        let hb = (pr.even_parameters.pc_gens.B_blinding, pr.odd_parameters.pc_gens.B_blinding);
        let root_even = rel::is_even(&t);
        for (a, m) in ms.iter().enumerate().take(2) {
            ctx.require(rel::accepts_multi(&t, m, pr, LABEL).is_some(), "honest-rejected", || name.clone());
            let mut pts0: Vec<Affine<P0>> = vec![Affine::generator(), Affine::zero(), hb.0, pr.even_parameters.delta];
            let mut pts1: Vec<Affine<P1>> = vec![Affine::generator(), Affine::zero(), hb.1, pr.odd_parameters.delta];
            for x in &ms {
                pts0.extend(x.path.selected_commitments);
                pts0.extend(&x.path.even_commitments);
                pts1.extend(&x.path.odd_commitments);
            }
            let ne = m.path.even_commitments.len();
            for i in 0..ne + M {
                let cur = if i < ne { m.path.even_commitments[i] } else { m.path.selected_commitments[i - ne] };
                let extra = [(-cur.into_group()).into_affine(), (cur + hb.0).into_affine(), (cur.into_group() - hb.0).into_affine(), (cur + cur).into_affine(), (cur + pr.even_parameters.delta).into_affine()];
                for p in pts0.iter().chain(&extra).filter(|p| **p != cur) {
                    let mut q = m.clone();
                    if i < ne { q.path.even_commitments[i] = *p } else { q.path.selected_commitments[i - ne] = *p }
                    verdict(ctx, &t, &q, pr, "replaced-commitment", &|| format!("{} proof {}: even commitment {} (of {}, then the leaves) replaced by {:?}", name, a, i, ne, p));
                }
            }
            for i in 0..m.path.odd_commitments.len() {
                let cur = m.path.odd_commitments[i];
                let extra = [(-cur.into_group()).into_affine(), (cur + hb.1).into_affine(), (cur.into_group() - hb.1).into_affine(), (cur + cur).into_affine(), (cur + pr.odd_parameters.delta).into_affine()];
                for p in pts1.iter().chain(&extra).filter(|p| **p != cur) {
                    let mut q = m.clone();
                    q.path.odd_commitments[i] = *p;
                    verdict(ctx, &t, &q, pr, "replaced-commitment", &|| format!("{} proof {}: odd commitment {} replaced by {:?}", name, a, i, p));
                }
            }
            // leaves permuted, rotated, and compensating changes of two leaves
            for i in 0..M {
                for j in 0..M {
                    if i == j {
                        continue;
                    }
                    for how in 0..3 {
                        let mut q = m.clone();
                        let s = &mut q.path.selected_commitments;
                        match how {
                            0 => s.swap(i, j),
                            1 => s[i] = s[j],
                            _ => {
                                s[i] = (s[i] + hb.0).into_affine();
                                s[j] = (s[j].into_group() - hb.0).into_affine();
                            }
                        }
                        verdict(ctx, &t, &q, pr, "leaves-moved", &|| format!("{} proof {}: leaves {} and {}, way {}", name, a, i, j, how));
                    }
                }
            }
            // splices: everything from a level on, each leaf alone, and each proof
            for (b, o) in ms.iter().enumerate() {
                if a == b {
                    continue;
                }
                for cut in 0..=h + M {
                    for pe in 0..2 {
                        for po in 0..2 {
                            let mut q = m.clone();
                            // cut < h: levels from cut on; cut == h: none; beyond: the leaf of one position
                            for k in cut..h {
                                if k == h - 1 {
                                    q.path.selected_commitments = o.path.selected_commitments;
                                } else if (k % 2 == 0) == root_even {
                                    q.path.odd_commitments[k / 2] = o.path.odd_commitments[k / 2];
                                } else {
                                    q.path.even_commitments[k / 2] = o.path.even_commitments[k / 2];
                                }
                            }
                            if cut > h {
                                q.path.selected_commitments[cut - h - 1] = o.path.selected_commitments[cut - h - 1];
                            }
                            if pe == 1 {
                                q.even = o.even.clone();
                            }
                            if po == 1 {
                                q.odd = o.odd.clone();
                            }
                            // unchanged objects
                            let no_even = h < 2; // the even proof is then of an empty circuit
                            let all_o = cut == 0 || M == 1 && cut == 2 && h == 1;
                            if cut == h && po == 0 && (pe == 0 || no_even) || all_o && po == 1 && (pe == 1 || no_even) && b < 3 {
                                continue;
                            }
                            verdict(ctx, &t, &q, pr, "splice", &|| format!("{}: levels from {} of proof {} in proof {}, even proof {}, odd proof {}", name, cut, b, a, pe, po));
                        }
                    }
                }
            }
            for (w, n2, salt, h2) in [("other elements", n, 77, h), ("one element more", n + 1, 0, h), ("higher", n, 0, h + 1), ("two higher", n, 0, h + 2)] {
                let v = CurveTree::<L, M, P0, P1>::from_set(&rel::leaves(n2, salt), pr, Some(h2));
                if v.height() == h2 {
                    verdict(ctx, &v, m, pr, "other-root", &|| format!("{} proof {} against a tree with {}", name, a, w));
                }
            }
            for h2 in 1..h {
                if n <= L.pow(h2 as u32) {
                    let v = CurveTree::<L, M, P0, P1>::from_set(&rel::leaves(n, 0), pr, Some(h2));
                    if v.height() == h2 {
                        verdict(ctx, &v, m, pr, "other-root", &|| format!("{} proof {} against the same tree of height {}", name, a, h2));
                    }
                }
            }
            if n > 1 {
                let mut perm = rel::leaves::<P0>(n, 0);
                perm.rotate_left(1);
                let v = CurveTree::<L, M, P0, P1>::from_set(&perm, pr, Some(h));
                verdict(ctx, &v, m, pr, "other-root", &|| format!("{} proof {} against the reordered tree", name, a));
            }
            for ne in 0..h + 2 {
                for no in 0..h + 2 {
                    if (ne, no) == (m.path.even_commitments.len(), m.path.odd_commitments.len()) {
                        continue;
                    }
                    for end in 0..2 {
                        let mut q = m.clone();
                        let (mut e, mut o) = (m.path.even_commitments.clone(), m.path.odd_commitments.clone());
                        if end == 1 { e.reverse(); o.reverse(); }
                        e.resize(ne, *e.last().unwrap_or(&Affine::generator()));
                        o.resize(no, *o.last().unwrap_or(&Affine::generator()));
                        if end == 1 { e.reverse(); o.reverse(); }
                        q.path.even_commitments = e;
                        q.path.odd_commitments = o;
                        verdict(ctx, &t, &q, pr, "shape", &|| format!("{} proof {}: {} even and {} odd commitments", name, a, ne, no));
                    }
                }
            }
            ctx.eval(None);
            let other = guarded(|| rel::verify_multi(&t, m, pr, b"multj")).ok().and_then(|r| r.ok());
            ctx.require(other.is_none(), "context", || format!("{}: accepted under another transcript label", name));
        }
        ctx.sample_cat(&format!("object {} L{} M{}", curve, L, M), || format!("{}: {} even, {} odd commitments", name, ms[0].path.even_commitments.len(), ms[0].path.odd_commitments.len()));
    }
}

wh! {
    /// Honest batches of paths that end above the leaves, or below them.
    fn wrong_length<const L, const M>(ctx: &'static Ctx, curve: &str, n: usize, h: usize, index: usize, pr: &SelRerandParameters<P0, P1>) {
        let set = rel::leaves::<P0>(n, 0);
        let t = CurveTree::<L, M, P0, P1>::from_set(&set, pr, Some(h));
        let h = t.height();
        let w = t.select_and_rerandomize_prover_multi_witness([index; M], pr);
        let prove = |w: &CurveTreeWitnessMultiPath<L, M, P0, P1>| guarded(|| rel::prove_multi_witness(w, pr, LABEL, &mut rand::thread_rng())).ok().and_then(|r| r.ok());
        let mut k = 2;
        while k < h {
            let mut s = w.clone();
            for _ in 0..k / 2 {
                s.even_internal_nodes.pop();
                s.odd_internal_nodes.pop();
            }
            let what = || format!("{} L={} M={} n={} h={} index {}: paths end {} levels above the leaves", curve, L, M, n, h, index, k);
            match prove(&s) {
                Some(m) => verdict(ctx, &t, &m, pr, "short-path", &what),
                None => ctx.add("witness_not_computable", 1),
            }
            ctx.add("wrong_length", 1);
            k += 2;
        }
        // the element is itself the root of a tree of the adversary; the batch continues in the trees of each position
        for k in [2, 4] {
            let fake = CurveTree::<L, M, P0, P1>::from_set(&rel::leaves(L, 55), pr, Some(k));
            let CurveTree::Even(root) = &fake else { continue };
            let mut set2 = set.clone();
            set2[index] = root.commitment(0);
            let t2 = CurveTree::<L, M, P0, P1>::from_set(&set2, pr, Some(h));
            let mut a = t2.select_and_rerandomize_prover_multi_witness([index; M], pr);
            // all positions hold the same element, so position 0's part continues in all of them
            let b = fake.select_and_rerandomize_prover_multi_witness([if L > 1 { 1 } else { 0 }; M], pr);
            a.even_internal_nodes.extend(b.even_internal_nodes.clone());
            a.odd_internal_nodes.extend(b.odd_internal_nodes.clone());
            let what = || format!("{} L={} M={} n={} h={} index {}: paths continue {} levels below the leaf", curve, L, M, n, h, index, k);
            match prove(&a) {
                Some(m) => verdict(ctx, &t2, &m, pr, "long-path", &what),
                None => ctx.add("witness_not_computable", 1),
            }
            ctx.add("wrong_length", 1);
        }
        ctx.sample_cat(&format!("length {} L{} M{}", curve, L, M), || format!("{} n={} h={}", curve, n, h));
    }
}

fn main() {
    let ctx = Ctx::new("C14", "fault_enumeration");
    ctx.note("rule", "(0) the circuit of one batched level captured through the ConstraintSystem trait over tiny curves with cofactor: for all assignments the exposed sum is, for some choice of children, their sum plus M Delta plus a multiple of H; (1) an adversarial prover that plays the real per-level gadgets deviates at one level, for one position or all, in every way of a list (other exposed child, child not in the node, node opened to other children, every listed window of the rerandomization shifted to land on a chosen point, other randomness, children exchanged/duplicated/compensated between positions, phantom and off-curve leaves), continuing consistently in a tree of its own; (2) honest batches of paths of every other length of the right parity; (3) every commitment of an accepted object replaced by an alphabet, leaves permuted and compensated, every mixture of two accepted objects, every number of commitments, every other tree. (4) the captured circuit of the batched gadget, batch sizes 1 to 4: every assignment over tiny curves, for every public point and several lists of children, exposes a sum of selected children plus a multiple of the blinding generator. Honest plans are positive controls");
    ctx.note("assume_mirror", "the mirror image -(C+delta)-delta of an element is not counted as a non-member: it can be proven by design (only x is committed) and cannot be opened without the discrete logarithm of delta");
    let pr61 = SelRerandParameters::<m61::Even, m61::Odd>::new(4096, 4096);
    let pr60 = SelRerandParameters::<m60::Even, m60::Odd>::new(2048, 2048);
    let pr62 = SelRerandParameters::<m62::Even, m62::Odd>::new(2048, 2048);
    type Pa = ark_pallas::PallasConfig;
    type Ve = ark_vesta::VestaConfig;
    let prp = SelRerandParameters::<Pa, Ve>::new(8192, 8192);
    #[derive(Debug, Clone)]
    enum Case {
        Gadget(usize, usize, usize, usize, usize, usize), // curve L M n h part
        Object(usize, usize, usize, usize, usize),
        Length(usize, usize, usize, usize, usize, usize),
        Circuit(usize, usize, usize, usize), // batch size, tiny curve, offset, part
    }
    use Case::*;
    let mut cases = vec![];
    let hmax = ctx.pick(4, 5);
    for h in 1..=hmax {
        for (l, m, n) in [(2usize, 1usize, 3usize), (2, 2, 2), (2, 2, 3), (3, 2, 3), (2, 3, 4), (3, 3, 4), (2, 4, 3)] {
            let wide = m >= 3 || l > 2;
            if l.pow(h as u32) < n || ctx.quick && (wide && h > 2 || m == 4 && h > 1) || m == 4 && h > 3 || m == 3 && h > 4 {
                continue;
            }
            for part in 0..4 {
                cases.push(Gadget(0, l, m, n, h, part));
            }
            cases.push(Object(0, l, m, n, h));
            for i in 0..n {
                cases.push(Length(0, l, m, n, h, i));
            }
        }
    }
    for h in [5usize, 6] {
        cases.push(Length(0, 2, 2, 3, h, 2));
    }
    for c in 1..=2 {
        for h in 1..=ctx.pick(2, 4) {
            for part in 0..4 {
                cases.push(Gadget(c, 2, 2, 2, h, part));
            }
            cases.push(Object(c, 2, 2, 2, h));
        }
    }
    for part in 0..4 {
        if ctx.thorough() || part == 0 {
            cases.push(Gadget(3, 2, 2, 2, 1, part));
        }
        if ctx.thorough() {
            cases.push(Gadget(3, 2, 2, 3, 2, part));
        }
    }
    cases.push(Length(3, 2, 2, 2, 3, 0));
    for c in 0..ctx.pick(2, 4) {
        for d in 0..ctx.pick(2, 4) {
            for part in 0..ctx.pick(2, 4) {
                for m in 1..=4 {
                    if ctx.thorough() || d == 0 || m == 2 {
                        cases.push(Circuit(m, c, d, part));
                    }
                }
            }
        }
    }
    cases.sort_by_key(|c| match c { Circuit(m, c, ..) => -((m * 10 + c) as i64), Gadget(c, l, m, _, h, _) => -((c / 3 * 90 + 10 * h * m + l) as i64), Object(_, _, m, _, h) => -((4 * *h * m) as i64), Length(_, _, _, _, h, _) => -(*h as i64) });
    ctx.note("bounds", format!("heights <= {} (lengths <= 6), L in 2..3, batch size 1..4, up to 4 elements, toy cycles of 60, 61, 62 bits, pallas/vesta spot checks", hmax));
    let all = |bits: usize| (0..bits / 3 + 1).collect::<Vec<_>>();
    let few = |bits: usize| { let m = bits / 3 + 1; vec![0, 1, m / 2, m - 2, m - 1] };
    ctx.cases(&cases, |c| format!("{:?}", c), |c| {
        macro_rules! d {
            ($f:ident ($($a:expr),*) $c:expr, $l:expr, $m:expr $(, $w:ident)?) => {
                match ($c, $l, $m) {
                    (0, 2, 1) => $f::<2, 1, _, _, _, _>(ctx, "m61", $($a,)* $(&$w(61),)? &pr61),
                    (0, 2, 2) => $f::<2, 2, _, _, _, _>(ctx, "m61", $($a,)* $(&$w(61),)? &pr61),
                    (0, 3, 2) => $f::<3, 2, _, _, _, _>(ctx, "m61", $($a,)* $(&$w(61),)? &pr61),
                    (0, 2, 3) => $f::<2, 3, _, _, _, _>(ctx, "m61", $($a,)* $(&$w(61),)? &pr61),
                    (0, 3, 3) => $f::<3, 3, _, _, _, _>(ctx, "m61", $($a,)* $(&$w(61),)? &pr61),
                    (0, 2, 4) => $f::<2, 4, _, _, _, _>(ctx, "m61", $($a,)* $(&$w(61),)? &pr61),
                    (1, 2, 2) => $f::<2, 2, _, _, _, _>(ctx, "m60", $($a,)* $(&$w(60),)? &pr60),
                    (2, 2, 2) => $f::<2, 2, _, _, _, _>(ctx, "m62", $($a,)* $(&$w(62),)? &pr62),
                    (3, 2, 2) => $f::<2, 2, _, _, _, _>(ctx, "pallas", $($a,)* $(&$w(255),)? &prp),
                    x => panic!("no instance {:?}", x),
                }
            };
        }
        match *c {
            Gadget(c, l, m, n, h, p) if c < 3 && (h <= 2 && m == 2 || ctx.thorough()) => d!(gadget_faults(n, h, p) c, l, m, all),
            Gadget(c, l, m, n, h, p) => d!(gadget_faults(n, h, p) c, l, m, few),
            Object(c, l, m, n, h) => d!(object_faults(n, h) c, l, m),
            Circuit(m, c, d, part) => ctmc::levels::level_case(ctx, m, true, c, d, part, false),
            Length(c, l, m, n, h, i) => d!(wrong_length(n, h, i) c, l, m),
        }
    });
    ctx.finish();
}
