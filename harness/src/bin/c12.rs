//! C12: only elements of the tree can be proven members.
use ark_ec::short_weierstrass::{Affine, SWCurveConfig};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{Field, One, PrimeField, UniformRand, Zero};
use bulletproofs::r1cs::*;
use ctmc::curves::{m60, m61, m62};
use ctmc::rel::Mem;
use ctmc::{guarded, rel, Ctx};
use merlin::Transcript;
use relations::curve_tree::*;
use relations::curve_tree_prover::*;
use relations::single_level_select_and_rerandomize::*;

const LABEL: &[u8] = b"mem";

/// One level as the prover plays it: parent on P, child on Q.
#[derive(Clone)]
struct Step<const L: usize, P: SWCurveConfig, Q: SWCurveConfig> {
    siblings: [P::ScalarField; L],
    parent_blind: P::ScalarField, // zero: the root
    child: Affine<Q>,             // claimed child + delta, possibly off the curve
    r: Q::ScalarField,
    target: Affine<Q>, // the commitment exposed for the child
    /// shift all entries of this window's table so that the used entry becomes this point: the circuit
    /// differs from the verifier's only in constants, which a prover never uses
    evil: Option<(usize, Affine<Q>)>,
}
impl<const L: usize, P, Q> Step<L, P, Q>
where
    P: SWCurveConfig + Copy,
    Q: SWCurveConfig<BaseField = P::ScalarField, ScalarField = P::BaseField> + Copy,
{
    fn play(&self, prover: &mut Prover<Transcript, Affine<P>>, pp: &SingleLayerParameters<P>, qp: &SingleLayerParameters<Q>)
    where
        P::BaseField: PrimeField,
        P::ScalarField: PrimeField,
    {
        let vars: Vec<LinearCombination<P::ScalarField>> = if self.parent_blind.is_zero() {
            self.siblings.map(constant).to_vec()
        } else {
            let (_, v) = prover.commit_vec(&self.siblings, self.parent_blind, &pp.bp_gens);
            v.into_iter().map(|v| v.into()).collect()
        };
        let own;
        let qp = match &self.evil {
            None => qp,
            Some((w, p)) => {
                let mut o = SingleLayerParameters::<Q>::new::<P>(1);
                let idx = window_index::<Q>(self.r, *w);
                let (dx, dy) = (p.x - o.tables[*w].elems[0][idx], p.y - o.tables[*w].elems[1][idx]);
                for e in o.tables[*w].elems[0].iter_mut() {
                    *e += dx;
                }
                for e in o.tables[*w].elems[1].iter_mut() {
                    *e += dy;
                }
                own = o;
                &own
            }
        };
        single_level_select_and_rerandomize(prover, qp, &self.target, vars, Some(self.child), Some(self.r));
    }
}
fn window_index<Q: SWCurveConfig>(r: Q::ScalarField, w: usize) -> usize {
    use ark_ff::BigInteger;
    let b = r.into_bigint().to_bits_le();
    (0..3).map(|k| (b.get(3 * w + k) == Some(&true)) as usize * (1 << k)).sum()
}
fn table_point<Q: SWCurveConfig>(p: &SingleLayerParameters<Q>, r: Q::ScalarField, w: usize) -> Affine<Q>
where
    Q: Copy,
{
    let i = window_index::<Q>(r, w);
    Affine::new_unchecked(p.tables[w].elems[0][i], p.tables[w].elems[1][i])
}

#[derive(Clone)]
struct Plan<const L: usize, P0: SWCurveConfig, P1: SWCurveConfig> {
    even: Vec<Step<L, P0, P1>>,
    odd: Vec<Step<L, P1, P0>>,
}

macro_rules! wh {
    ($(#[$m:meta])* fn $name:ident<$(const $c:ident),*>($($a:ident: $t:ty),* $(,)?) $(-> $r:ty)? $b:block) => {
        $(#[$m])*
        fn $name<$(const $c: usize,)* F0: PrimeField, F1: PrimeField, P0: SWCurveConfig<BaseField = F1, ScalarField = F0> + Copy + Send + Sync, P1: SWCurveConfig<BaseField = F0, ScalarField = F1> + Copy + Send + Sync>($($a: $t),*) $(-> $r)? $b
    };
}

wh! {
    /// The honest plan for a witness path (root first).
    fn plan<const L>(w: &CurveTreeWitnessPath<L, P0, P1>, pr: &SelRerandParameters<P0, P1>) -> Plan<L, P0, P1> {
        let mut rng = rand::thread_rng();
        let (e, o) = (&pr.even_parameters, &pr.odd_parameters);
        let (ne, no) = (w.even_internal_nodes.len(), w.odd_internal_nodes.len());
        let root_even = ne == no;
        let re: Vec<F1> = (0..ne).map(|_| F1::rand(&mut rng)).collect(); // blinds odd children of even nodes
        let ro: Vec<F0> = (0..no).map(|_| F0::rand(&mut rng)).collect();
        let even = w.even_internal_nodes.iter().enumerate().map(|(i, n)| Step {
            siblings: n.siblings,
            parent_blind: if root_even { if i == 0 { F0::zero() } else { ro[i - 1] } } else { ro[i] },
            child: (n.child_witness + o.delta).into_affine(),
            r: re[i],
            target: (o.pc_gens.B_blinding * re[i] + n.child_witness).into_affine(),
            evil: None,
        }).collect();
        let odd = w.odd_internal_nodes.iter().enumerate().map(|(i, n)| Step {
            siblings: n.siblings,
            parent_blind: if root_even { re[i] } else if i == 0 { F1::zero() } else { re[i - 1] },
            child: (n.child_witness + e.delta).into_affine(),
            r: ro[i],
            target: (e.pc_gens.B_blinding * ro[i] + n.child_witness).into_affine(),
            evil: None,
        }).collect();
        Plan { even, odd }
    }
}
wh! {
    fn run<const L>(p: &Plan<L, P0, P1>, pr: &SelRerandParameters<P0, P1>) -> Option<Mem<L, P0, P1>> {
        let mut e: Prover<_, Affine<P0>> = Prover::new(&pr.even_parameters.pc_gens, Transcript::new(LABEL));
        let mut o: Prover<_, Affine<P1>> = Prover::new(&pr.odd_parameters.pc_gens, Transcript::new(LABEL));
        for s in &p.even {
            s.play(&mut e, &pr.even_parameters, &pr.odd_parameters);
        }
        for s in &p.odd {
            s.play(&mut o, &pr.odd_parameters, &pr.even_parameters);
        }
        let last = p.odd.len() - 1;
        Some(Mem {
            path: SelectAndRerandomizePath {
                selected_commitment: p.odd[last].target,
                odd_commitments: p.even.iter().map(|s| s.target).collect(),
                even_commitments: p.odd[..last].iter().map(|s| s.target).collect(),
            },
            even: e.prove(&pr.even_parameters.bp_gens).ok()?,
            odd: o.prove(&pr.odd_parameters.bp_gens).ok()?,
            blinding: p.odd[last].r,
        })
    }
}
wh! {
    /// Levels root first: (is even, position among its parity).
    fn order<const L>(p: &Plan<L, P0, P1>) -> Vec<(bool, usize)> {
        let root_even = p.even.len() == p.odd.len();
        (0..p.even.len() + p.odd.len()).map(|k| ((k % 2 == 0) == root_even, k / 2)).collect()
    }
}

/// The deviations that concern one level; generic so that they serve both parities.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Dev {
    /// nothing: the honest splice (positive control)
    None,
    /// claim the real child, expose the fake one
    Target,
    /// claim the fake child, which is not among the children
    NotAChild,
    /// open the node to a fake list of children
    Siblings,
    /// shift one window of the rerandomization so that it ends at the fake child
    Window(usize),
    /// same child, other randomness in the witness than in the exposed commitment
    Randomness,
}
fn deviate<const L: usize, P, Q>(real: &Step<L, P, Q>, fake: &Step<L, P, Q>, d: Dev, qp: &SingleLayerParameters<Q>) -> Step<L, P, Q>
where
    P: SWCurveConfig + Copy,
    Q: SWCurveConfig<BaseField = P::ScalarField, ScalarField = P::BaseField> + Copy,
    P::BaseField: PrimeField,
    P::ScalarField: PrimeField,
{
    let mut s = real.clone();
    // the levels below are the fake ones, so the exposed commitment and its blinding are the fake one's
    match d {
        Dev::None => {}
        Dev::Target => {
            s.r = fake.r;
            s.target = fake.target;
        }
        Dev::NotAChild => {
            s.child = fake.child;
            s.r = fake.r;
            s.target = fake.target;
        }
        Dev::Siblings => {
            s.siblings = fake.siblings;
            s.child = fake.child;
            s.r = fake.r;
            s.target = fake.target;
        }
        Dev::Window(w) => {
            s.r = fake.r;
            s.target = fake.target;
            // real child + (r*H - T_w + X) = fake target + delta
            let z = (s.target + qp.delta).into_affine();
            let x = z.into_group() - s.child.into_group() - qp.pc_gens.B_blinding * s.r + table_point(qp, s.r, w).into_group();
            s.evil = Some((w, x.into_affine()));
        }
        Dev::Randomness => {
            s.r = real.r + Q::ScalarField::one();
        }
    }
    s
}

wh! {
    fn with<const L>(real: &Plan<L, P0, P1>, fake: &Plan<L, P0, P1>, k: usize, d: Dev, pr: &SelRerandParameters<P0, P1>) -> Plan<L, P0, P1> {
        let mut p = real.clone();
        for (j, (even, i)) in order(real).into_iter().enumerate() {
            if j == k {
                if even {
                    p.even[i] = deviate(&real.even[i], &fake.even[i], d, &pr.odd_parameters);
                } else {
                    p.odd[i] = deviate(&real.odd[i], &fake.odd[i], d, &pr.even_parameters);
                }
            } else if j > k && d != Dev::None && d != Dev::Randomness {
                if even {
                    p.even[i] = fake.even[i].clone();
                } else {
                    p.odd[i] = fake.odd[i].clone();
                }
            }
        }
        p
    }
}

wh! {
    /// Refused, or a member's rerandomization? (The mirror image -(C+delta)-delta of a member is allowed: see DESIGN.)
    fn verdict<const L, const M>(ctx: &'static Ctx, t: &CurveTree<L, M, P0, P1>, m: &Mem<L, P0, P1>, pr: &SelRerandParameters<P0, P1>, key: &str, what: &dyn Fn() -> String) {
        ctx.eval(Some(&what()));
        if let Some(leaf) = rel::accepts(t, m, pr, LABEL) {
            ctx.violation(key, format!("{}: accepted with leaf {:?}", what(), leaf));
        }
    }
}

wh! {
    fn gadget_faults<const L>(ctx: &'static Ctx, curve: &str, n: usize, h: usize, index: usize, windows: &[usize], pr: &SelRerandParameters<P0, P1>) {
        let t = CurveTree::<L, 1, P0, P1>::from_set(&rel::leaves(n, 0), pr, Some(h));
        let u = CurveTree::<L, 1, P0, P1>::from_set(&rel::leaves(n, 77), pr, Some(h));
        let h = t.height();
        let name = format!("{} L={} n={} h={} index {}", curve, L, n, h, index);
        let (rw, fw) = (t.select_and_rerandomize_prover_witness(index, 0, pr), u.select_and_rerandomize_prover_witness(index, 0, pr));
        let (real, fake) = (plan(&rw, pr), plan(&fw, pr));
        // positive controls: the plans themselves are what an honest prover does
        for (tree, p, ok) in [(&t, &real, true), (&u, &fake, true), (&t, &fake, false), (&u, &real, false)] {
            let m = match guarded(|| run(p, pr)) {
                Ok(Some(m)) => m,
                _ => return ctx.violation("honest-prover", format!("{}: the honest plan gives no proof", name)),
            };
            let a = rel::accepts(tree, &m, pr, LABEL).is_some();
            ctx.eval(None);
            if ok {
                ctx.require(a, "honest-rejected", || format!("{}: the honest plan is rejected", name));
                ctx.add("positive_controls", a as u64);
            } else {
                ctx.require(!a, "other-root", || format!("{}: a path of another tree is accepted", name));
            }
        }
        for k in 0..h {
            let mut devs = vec![Dev::Target, Dev::NotAChild, Dev::Siblings, Dev::Randomness];
            devs.extend(windows.iter().map(|w| Dev::Window(*w)));
            for d in devs {
                let p = with(&real, &fake, k, d, pr);
                let what = || format!("{}: {:?} at level {} from the root", name, d, k);
                match guarded(|| run(&p, pr)) {
                    Ok(Some(m)) => {
                        verdict(ctx, &t, &m, pr, "non-member", &what);
                        ctx.add("forged_witnesses", 1);
                        // the node opened differently than exposed: expose the other one as well
                        if d == Dev::Siblings && k > 0 {
                            let mut m2 = m.clone();
                            let (even, i) = order(&real)[k - 1];
                            let (re, fe) = (&real.even, &fake.even);
                            if even {
                                m2.path.odd_commitments[i] = fe[i].target;
                            } else {
                                m2.path.even_commitments[i] = fake.odd[i].target;
                            }
                            let _ = re;
                            verdict(ctx, &t, &m2, pr, "non-member", &|| format!("{}, exposing the opened node", what()));
                        }
                    }
                    _ => ctx.add("witness_not_computable", 1),
                }
            }
        }
        let last = real.odd.len() - 1;
        let ep = &pr.even_parameters;
        // entries of the opened node that belong to no element: as the x of a point, each would be a phantom element
        let set = rel::leaves::<P0>(n, 0);
        for x in real.odd[last].siblings {
            if set.iter().any(|l| (*l + ep.delta).into_affine().x == x) {
                continue;
            }
            ctx.add("entries_without_element", 1);
            ctx.eval(None);
            let Some((a, b)) = Affine::<P0>::get_ys_from_x_unchecked(x) else { continue };
            for y in [a, b] {
                let mut p = real.clone();
                p.odd[last].child = Affine::<P0>::new_unchecked(x, y);
                let child = (p.odd[last].child.into_group() - ep.delta.into_group()).into_affine();
                p.odd[last].target = (ep.pc_gens.B_blinding * p.odd[last].r + child).into_affine();
                if let Ok(Some(m)) = guarded(|| run(&p, pr)) {
                    verdict(ctx, &t, &m, pr, "phantom", &|| format!("{}: {:?} claimed for an entry that belongs to no element", name, child));
                }
            }
        }
        // points off the curve at leaf level: y changed, and the empty slot
        let mut xs: Vec<(String, P0::BaseField)> = vec![("a child's x".into(), real.odd[last].child.x)];
        if let Some(z) = real.odd[last].siblings.iter().find(|x| x.is_zero()) {
            xs.push(("the empty slot".into(), *z));
        }
        xs.push(("zero".into(), P0::BaseField::zero()));
        for (w, x) in xs {
            for y in [P0::BaseField::zero(), P0::BaseField::one(), real.odd[last].child.y.double(), real.odd[last].child.y + P0::BaseField::one()] {
                let mut p = real.clone();
                let c = Affine::<P0>::new_unchecked(x, y);
                p.odd[last].child = c;
                let z = (c + (ep.pc_gens.B_blinding * p.odd[last].r).into_affine()).into_affine();
                p.odd[last].target = (z + (-ep.delta.into_group()).into_affine()).into_affine();
                // and the same with the exposed leaf forced onto the curve
                for on in [false, true] {
                    if on {
                        p.odd[last].target = fake.odd[last].target;
                    }
                    match guarded(|| run(&p, pr)) {
                        Ok(Some(m)) => verdict(ctx, &t, &m, pr, "off-curve", &|| format!("{}: leaf from {} with y={} exposed {}", name, w, y, on)),
                        _ => ctx.add("witness_not_computable", 1),
                    }
                }
            }
        }
        ctx.sample_cat(&format!("gadget {} L{}", curve, L), || format!("{}: {} levels", name, h));
    }
}

wh! {
    /// Replacements and splices of accepted objects.
    fn object_faults<const L>(ctx: &'static Ctx, curve: &str, n: usize, h: usize, pr: &SelRerandParameters<P0, P1>) {
        let t = CurveTree::<L, 1, P0, P1>::from_set(&rel::leaves(n, 0), pr, Some(h));
        let u = CurveTree::<L, 1, P0, P1>::from_set(&rel::leaves(n, 77), pr, Some(h));
        let h = t.height();
        let rng = &mut rand::thread_rng();
        let idx = [0, n - 1, 0];
        let mut ms: Vec<Mem<L, P0, P1>> = idx.iter().filter_map(|i| rel::prove_mem(&t, *i, 0, pr, b"mem", rng).ok()).collect();
        ms.extend(rel::prove_mem(&u, 0, 0, pr, b"mem", rng).ok());
        if ms.len() != 4 {
            return ctx.violation("honest-prover", format!("{} n={} h={}: no proof", curve, n, h));
        }
        let name = format!("{} L={} n={} h={}", curve, L, n, h);
        let hb = (pr.even_parameters.pc_gens.B_blinding, pr.odd_parameters.pc_gens.B_blinding);
        for (a, m) in ms.iter().enumerate().take(3) {
            ctx.require(rel::accepts(&t, m, pr, LABEL).is_some(), "honest-rejected", || name.clone());
            // every commitment replaced by each point of an alphabet
            let mut pts0: Vec<Affine<P0>> = vec![Affine::generator(), Affine::zero(), hb.0, pr.even_parameters.delta];
            let mut pts1: Vec<Affine<P1>> = vec![Affine::generator(), Affine::zero(), hb.1, pr.odd_parameters.delta];
            for x in &ms {
                pts0.push(x.path.selected_commitment);
                pts0.extend(&x.path.even_commitments);
                pts1.extend(&x.path.odd_commitments);
            }
            let ne = m.path.even_commitments.len();
            for i in 0..=ne {
                let cur = if i < ne { m.path.even_commitments[i] } else { m.path.selected_commitment };
                let extra = [(-cur.into_group()).into_affine(), (cur + hb.0).into_affine(), (cur.into_group() - hb.0).into_affine(), (cur + cur).into_affine(), (cur + pr.even_parameters.delta).into_affine()];
                for p in pts0.iter().chain(&extra).filter(|p| **p != cur) {
                    let mut q = m.clone();
                    if i < ne { q.path.even_commitments[i] = *p } else { q.path.selected_commitment = *p }
                    verdict(ctx, &t, &q, pr, "replaced-commitment", &|| format!("{} proof {}: even commitment {} (of {}, then the leaf) replaced by {:?}", name, a, i, ne, p));
                }
            }
            for i in 0..m.path.odd_commitments.len() {
                let cur = m.path.odd_commitments[i];
                let extra = [(-cur.into_group()).into_affine(), (cur + hb.1).into_affine(), (cur.into_group() - hb.1).into_affine(), (cur + cur).into_affine(), (cur + pr.odd_parameters.delta).into_affine()];
                for p in pts1.iter().chain(&extra).filter(|p| **p != cur) {
                    let mut q = m.clone();
                    q.path.odd_commitments[i] = *p;
                    verdict(ctx, &t, &q, pr, "replaced-commitment", &|| format!("{} proof {}: odd commitment {} replaced by {:?}", name, a, i, p));
                }
            }
            // every mixture of two accepted objects: levels above the cut from one, below from the other, proofs from either
            for (b, o) in ms.iter().enumerate() {
                if b == a {
                    continue;
                }
                for cut in 0..=h {
                    for pe in 0..2 {
                        for po in 0..2 {
                            let mut q = m.clone();
                            // level 0 exposes the child of the root, ..., level h-1 the leaf
                            let root_even = h % 2 == 0;
                            for k in cut..h {
                                let even_parent = (k % 2 == 0) == root_even;
                                if even_parent {
                                    q.path.odd_commitments[k / 2] = o.path.odd_commitments[k / 2];
                                } else if k == h - 1 {
                                    q.path.selected_commitment = o.path.selected_commitment;
                                } else {
                                    q.path.even_commitments[k / 2] = o.path.even_commitments[k / 2];
                                }
                            }
                            if pe == 1 {
                                q.even = o.even.clone();
                            }
                            if po == 1 {
                                q.odd = o.odd.clone();
                            }
                            // unchanged objects: all of m, or all of o when o belongs to this tree
                            let no_even = h < 2; // the even proof is then of an empty circuit
                            let is_m = cut == h && po == 0 && (pe == 0 || no_even);
                            let is_o = cut == 0 && po == 1 && (pe == 1 || no_even) && b < 3;
                            if is_m || is_o {
                                continue;
                            }
                            verdict(ctx, &t, &q, pr, "splice", &|| format!("{}: levels from {} of proof {} in proof {}, even proof {}, odd proof {}", name, cut, b, a, pe, po));
                        }
                    }
                }
            }
            // other trees
            for (w, n2, salt, h2) in [("other elements", n, 77, h), ("one element more", n + 1, 0, h), ("higher", n, 0, h + 1), ("two higher", n, 0, h + 2), ("four higher", n, 0, h + 4)] {
                let v = CurveTree::<L, 1, P0, P1>::from_set(&rel::leaves(n2, salt), pr, Some(h2));
                if v.height() != h2 {
                    continue;
                }
                verdict(ctx, &v, m, pr, "other-root", &|| format!("{} proof {} against a tree with {}", name, a, w));
            }
            if h >= 2 {
                for h2 in 1..h {
                    if n <= L.pow(h2 as u32) {
                        let v = CurveTree::<L, 1, P0, P1>::from_set(&rel::leaves(n, 0), pr, Some(h2));
                        if v.height() == h2 {
                            verdict(ctx, &v, m, pr, "other-root", &|| format!("{} proof {} against the same tree of height {}", name, a, h2));
                        }
                    }
                }
            }
            let mut perm = rel::leaves::<P0>(n, 0);
            perm.rotate_left(1);
            if n > 1 {
                let v = CurveTree::<L, 1, P0, P1>::from_set(&perm, pr, Some(h));
                verdict(ctx, &v, m, pr, "other-root", &|| format!("{} proof {} against the reordered tree", name, a));
            }
            // every number of commitments
            for ne in 0..h + 2 {
                for no in 0..h + 2 {
                    if (ne, no) == (m.path.even_commitments.len(), m.path.odd_commitments.len()) {
                        continue;
                    }
                    for end in 0..2 {
                        let mut q = m.clone();
                        let mut e = m.path.even_commitments.clone();
                        let mut o = m.path.odd_commitments.clone();
                        if end == 1 { e.reverse(); o.reverse(); }
                        e.resize(ne, *e.last().unwrap_or(&Affine::generator()));
                        o.resize(no, *o.last().unwrap_or(&Affine::generator()));
                        if end == 1 { e.reverse(); o.reverse(); }
                        q.path.even_commitments = e;
                        q.path.odd_commitments = o;
                        verdict(ctx, &t, &q, pr, "shape", &|| format!("{} proof {}: {} even and {} odd commitments", name, a, ne, no));
                    }
                }
            }
            ctx.eval(None);
            let other = guarded(|| rel::verify_mem(&t, m, pr, b"mex")).ok().and_then(|r| r.ok());
            ctx.require(other.is_none(), "context", || format!("{}: accepted under another transcript label", name));
        }
        ctx.sample_cat(&format!("object {} L{}", curve, L), || format!("{}: {} even, {} odd commitments", name, ms[0].path.even_commitments.len(), ms[0].path.odd_commitments.len()));
    }
}

wh! {
    /// Honest proofs of paths that end above the leaves, or below them.
    fn wrong_length<const L>(ctx: &'static Ctx, curve: &str, n: usize, h: usize, index: usize, pr: &SelRerandParameters<P0, P1>) {
        let set = rel::leaves::<P0>(n, 0);
        let t = CurveTree::<L, 1, P0, P1>::from_set(&set, pr, Some(h));
        let h = t.height();
        let w = t.select_and_rerandomize_prover_witness(index, 0, pr);
        let prove = |w: &CurveTreeWitnessPath<L, P0, P1>| guarded(|| rel::prove_witness(w, pr, b"mem", &mut rand::thread_rng())).ok().and_then(|r| r.ok());
        // too short: end in an inner node
        let mut k = 2;
        while k < h {
            let mut s = w.clone();
            for _ in 0..k / 2 {
                s.even_internal_nodes.pop();
                s.odd_internal_nodes.pop();
            }
            let inner = s.odd_internal_nodes.last().unwrap().child_witness;
            ctx.require(!set.contains(&inner), "harness", || "inner node is an element".into());
            let what = || format!("{} L={} n={} h={} index {}: path ends {} levels above the leaves", curve, L, n, h, index, k);
            match prove(&s) {
                Some(m) => verdict(ctx, &t, &m, pr, "short-path", &what),
                None => ctx.add("witness_not_computable", 1),
            }
            ctx.add("wrong_length", 1);
            k += 2;
        }
        // too long: the element is itself the root of a tree of the adversary
        for k in [2, 4] {
            let fake = CurveTree::<L, 1, P0, P1>::from_set(&rel::leaves(L, 55), pr, Some(k));
            let root = match &fake {
                CurveTree::Even(x) => x.commitment(0),
                CurveTree::Odd(_) => continue,
            };
            let mut set2 = set.clone();
            set2[index] = root;
            let t2 = CurveTree::<L, 1, P0, P1>::from_set(&set2, pr, Some(h));
            let mut a = t2.select_and_rerandomize_prover_witness(index, 0, pr);
            let b = fake.select_and_rerandomize_prover_witness(1, 0, pr);
            a.even_internal_nodes.extend(b.even_internal_nodes.clone());
            a.odd_internal_nodes.extend(b.odd_internal_nodes.clone());
            let what = || format!("{} L={} n={} h={} index {}: path continues {} levels below the leaf", curve, L, n, h, index, k);
            match prove(&a) {
                Some(m) => verdict(ctx, &t2, &m, pr, "long-path", &what),
                None => ctx.add("witness_not_computable", 1),
            }
            ctx.add("wrong_length", 1);
        }
        ctx.sample_cat(&format!("length {} L{}", curve, L), || format!("{} n={} h={}", curve, n, h));
    }
}

fn main() {
    let ctx = Ctx::new("C12", "fault_enumeration");
    ctx.note("rule", "(0) the circuit of one level captured through the ConstraintSystem trait over tiny curves with cofactor: for all assignments the exposed child is a child plus Delta plus a multiple of H; (1) an adversarial prover that plays the real per-level gadgets deviates at one level in every way of a list (other exposed child, child not in the node, node opened to other children, every window of the rerandomization shifted to land on a chosen point, other randomness, points off the curve, the empty slot), continuing consistently in a tree of its own; (2) honest proofs of paths of every other length of the right parity; (3) every commitment of an accepted object replaced by an alphabet, every mixture of two accepted objects, every number of commitments, every other tree. Honest plans are positive controls");
    ctx.note("assume_mirror", "the mirror image -(C+delta)-delta of an element is not counted as a non-member: it can be proven by design (only x is committed) and cannot be opened without the discrete logarithm of delta");
    type Pa = ark_pallas::PallasConfig;
    type Ve = ark_vesta::VestaConfig;
    type Se = ark_secp256k1::Config;
    type Sq = ark_secq256k1::Config;
    // empty slots are encoded as x = 0, which must not be on any curve used
    macro_rules! zero_off {
        ($($n:literal $p:ty),*) => { $(
            ctx.require(<$p as SWCurveConfig>::COEFF_B.sqrt().is_none(), "zero-on-curve", || format!("x = 0 is on {}", $n));
        )* };
    }
    zero_off!("m60" m60::Even, "m60'" m60::Odd, "m61" m61::Even, "m61'" m61::Odd, "m62" m62::Even, "m62'" m62::Odd, "pallas" Pa, "vesta" Ve, "secp" Se, "secq" Sq);

    let pr61 = SelRerandParameters::<m61::Even, m61::Odd>::new(2048, 2048);
    let pr60 = SelRerandParameters::<m60::Even, m60::Odd>::new(1024, 1024);
    let pr62 = SelRerandParameters::<m62::Even, m62::Odd>::new(1024, 1024);
    let prp = SelRerandParameters::<Pa, Ve>::new(2048, 2048);
    let prs = SelRerandParameters::<Se, Sq>::new(2048, 2048);
    #[derive(Debug, Clone)]
    enum Case {
        Gadget(usize, usize, usize, usize, usize), // curve L n h index
        Object(usize, usize, usize, usize),
        Length(usize, usize, usize, usize, usize),
        Circuit(usize, usize, usize), // tiny curve, offset, part
    }
    use Case::*;
    let mut cases = vec![];
    let hmax = ctx.pick(4, 5);
    for h in 1..=hmax {
        for (l, n) in [(2usize, 2usize), (2, 3), (3, 2), (4, 3)] {
            if l.pow(h as u32) < n || ctx.quick && l == 4 && h > 2 {
                continue;
            }
            for i in 0..n {
                if ctx.thorough() || i == 0 || i == n - 1 && h < 4 {
                    cases.push(Gadget(0, l, n, h, i));
                }
                cases.push(Length(0, l, n, h, i));
            }
            cases.push(Object(0, l, n, h));
        }
    }
    for c in 0..ctx.pick(3, 8) {
        for d in 0..ctx.pick(2, 4) {
            for part in 0..2 {
                cases.push(Circuit(c, d, part));
            }
        }
    }
    for h in [5usize, 6] {
        cases.push(Length(0, 2, 3, h, 2));
    }
    for c in 1..=2 {
        for h in 1..=ctx.pick(2, 4) {
            cases.push(Gadget(c, 2, 2, h, 1));
            cases.push(Object(c, 2, 2, h));
            cases.push(Length(c, 2, 2, h, 0));
        }
    }
    for c in 3..=4 {
        cases.push(Length(c, 2, 2, 3, 0));
        for h in 1..=ctx.pick(1, 2) {
            cases.push(Gadget(c, 2, 2, h, 1));
        }
    }
    cases.sort_by_key(|c| match c { Circuit(c, ..) => -(10 * *c as i64), Gadget(c, l, _, h, _) => -((c / 3 * 50 + 10 * h + l) as i64), Object(_, _, _, h) => -(8 * *h as i64), Length(..) => 0 });
    ctx.note("bounds", format!("heights <= {} (lengths <= 6), L in 2..4, up to 3 elements, toy cycles of 60, 61, 62 bits, pallas/vesta and secp/secq spot checks", hmax));
    let all = |bits: usize| (0..bits / 3 + 1).collect::<Vec<_>>();
    let few = |bits: usize| { let m = bits / 3 + 1; vec![0, 1, m / 2, m - 2, m - 1] };
    ctx.cases(&cases, |c| format!("{:?}", c), |c| {
        macro_rules! d {
            ($f:ident ($($a:expr),*) $c:expr, $l:expr $(, $w:ident)?) => {
                match ($c, $l) {
                    (0, 2) => $f::<2, _, _, _, _>(ctx, "m61", $($a,)* $(&$w(61),)? &pr61),
                    (0, 3) => $f::<3, _, _, _, _>(ctx, "m61", $($a,)* $(&$w(61),)? &pr61),
                    (0, 4) => $f::<4, _, _, _, _>(ctx, "m61", $($a,)* $(&$w(61),)? &pr61),
                    (1, 2) => $f::<2, _, _, _, _>(ctx, "m60", $($a,)* $(&$w(60),)? &pr60),
                    (2, 2) => $f::<2, _, _, _, _>(ctx, "m62", $($a,)* $(&$w(62),)? &pr62),
                    x => panic!("no instance {:?}", x),
                }
            };
        }
        match *c {
            Circuit(c, d, part) => ctmc::levels::level_case(ctx, 1, false, c, d, part, false),
            Gadget(3, _, n, h, i) => gadget_faults::<2, _, _, _, _>(ctx, "pallas", n, h, i, &few(255), &prp),
            Gadget(4, _, n, h, i) => gadget_faults::<2, _, _, _, _>(ctx, "secp", n, h, i, &few(256), &prs),
            Length(3, _, n, h, i) => wrong_length::<2, _, _, _, _>(ctx, "pallas", n, h, i, &prp),
            Length(4, _, n, h, i) => wrong_length::<2, _, _, _, _>(ctx, "secp", n, h, i, &prs),
            Gadget(c, l, n, h, i) => d!(gadget_faults(n, h, i) c, l, all),
            Object(c, l, n, h) => d!(object_faults(n, h) c, l),
            Length(c, l, n, h, i) => d!(wrong_length(n, h, i) c, l),
        }
    });
    ctx.finish();
}
