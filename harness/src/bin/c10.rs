//! C10: a curve tree commits to exactly its elements, in order.
use ark_ec::short_weierstrass::{Affine, SWCurveConfig};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{PrimeField, Zero};
use ctmc::curves::{m60, m61, m62};
use ctmc::{guarded, rel, Ctx};
use relations::curve_tree::*;
use relations::single_level_select_and_rerandomize::SingleLayerParameters;
use std::collections::BTreeMap;

/// The naive definition: node = sum_j x(child_j + delta) * G_{t*L+j}, missing children count as 0.
/// Walks the real tree alongside and reports the first difference. `le` holds the leaves if the
/// height is even, `lo` if it is odd.
#[allow(clippy::too_many_arguments)]
fn walk<const L: usize, const M: usize, P0, P1>(
    node: &CurveTreeNode<L, M, P0, P1>,
    h: usize,
    base: usize,
    n: usize,
    le: &[Affine<P0>],
    lo: &[Affine<P1>],
    p0: &SingleLayerParameters<P0>,
    p1: &SingleLayerParameters<P1>,
    nodes: &mut u64,
) -> Result<Vec<Affine<P0>>, String>
where
    P0: SWCurveConfig + Copy,
    P1: SWCurveConfig<BaseField = P0::ScalarField, ScalarField = P0::BaseField> + Copy,
{
    *nodes += 1;
    let cap = L.pow(h as u32);
    let have = n.saturating_sub(base).min(cap);
    if node.height() != h {
        return Err(format!("node at {} has height {} instead of {}", base, node.height(), h));
    }
    if node.elements() != have {
        return Err(format!("node at {} height {} counts {} elements instead of {}", base, h, node.elements(), have));
    }
    let want: Vec<Affine<P0>> = if h == 0 {
        vec![le[base]; M]
    } else {
        let children = match node {
            CurveTreeNode::Branch { children, .. } => children,
            _ => return Err(format!("leaf where a branch of height {} is expected", h)),
        };
        let ccap = cap / L;
        let mut xs = vec![vec![P0::ScalarField::zero(); L]; M];
        for j in 0..L {
            let b = base + j * ccap;
            match &children[j] {
                None if b < n => return Err(format!("child {} of the node at {} height {} is missing", j, base, h)),
                None => {}
                Some(_) if b >= n => return Err(format!("child {} of the node at {} height {} should be empty", j, base, h)),
                Some(c) => {
                    let cc = walk::<L, M, P1, P0>(c, h - 1, b, n, lo, le, p1, p0, nodes)?;
                    for t in 0..M {
                        xs[t][j] = (cc[t] + p1.delta).into_affine().x;
                    }
                }
            }
            for k in 0..cap.min(n.saturating_sub(base)) {
                if node.child_index(base + k) != k / ccap {
                    return Err(format!("index {} is sent to child {} of the node at {} height {}", base + k, node.child_index(base + k), base, h));
                }
            }
        }
        for (t, x) in xs.iter().enumerate() {
            if x_coordinates(children, &p1.delta, t)[..] != x[..] {
                return Err(format!("child coordinates of the node at {} height {} tree {}", base, h, t));
            }
        }
        let gens: Vec<Affine<P0>> = p0.bp_gens.share(0).G(L * M).copied().collect();
        (0..M)
            .map(|t| {
                let mut s = <Affine<P0> as AffineRepr>::Group::zero();
                for j in 0..L {
                    s += gens[t * L + j] * xs[t][j];
                }
                s.into_affine()
            })
            .collect()
    };
    for t in 0..M {
        if node.commitment(t) != want[t] {
            return Err(format!("commitment of the node at {} height {} tree {}", base, h, t));
        }
    }
    Ok(want)
}

fn min_height<const L: usize>(n: usize) -> usize {
    let (mut h, mut cap) = (0, 1);
    while cap < n {
        cap *= L;
        h += 1;
    }
    h
}

/// The roots of the tree (for every tree index) if it is as defined.
fn check<const L: usize, const M: usize, F0, F1, P0, P1>(
    set: &[Affine<P0>],
    t: &CurveTree<L, M, P0, P1>,
    h: usize,
    pr: &SelRerandParameters<P0, P1>,
    nodes: &mut u64,
) -> Result<String, String>
where
    F0: PrimeField,
    F1: PrimeField,
    P0: SWCurveConfig<BaseField = F1, ScalarField = F0> + Copy + Send,
    P1: SWCurveConfig<BaseField = F0, ScalarField = F1> + Copy + Send,
{
    if t.height() != h {
        return Err(format!("height {} instead of {}", t.height(), h));
    }
    let (e, o) = (&pr.even_parameters, &pr.odd_parameters);
    match t {
        CurveTree::Even(x) if h % 2 == 0 => walk::<L, M, P0, P1>(x, h, 0, set.len(), set, &[], e, o, nodes).map(|v| format!("even {:?}", v)),
        CurveTree::Odd(x) if h % 2 == 1 => walk::<L, M, P1, P0>(x, h, 0, set.len(), &[], set, o, e, nodes).map(|v| format!("odd {:?}", v)),
        _ => Err(format!("root of the wrong curve for height {}", h)),
    }
}

fn shapes<const L: usize, const M: usize, F0, F1, P0, P1>(ctx: &'static Ctx, curve: &str, n: usize, hmax: usize, pr: &SelRerandParameters<P0, P1>)
where
    F0: PrimeField,
    F1: PrimeField,
    P0: SWCurveConfig<BaseField = F1, ScalarField = F0> + Copy + Send,
    P1: SWCurveConfig<BaseField = F0, ScalarField = F1> + Copy + Send,
{
    let set = rel::leaves::<P0>(n, 1);
    let h0 = min_height::<L>(n);
    for req in std::iter::once(None).chain((0..=hmax).map(Some)) {
        let what = format!("{} L={} M={} n={} height {:?}", curve, L, M, n, req);
        let h = h0.max(req.unwrap_or(0));
        let mut nodes = 0;
        ctx.eval(Some(&what));
        let t = match guarded(|| CurveTree::<L, M, P0, P1>::from_set(&set, pr, req)) {
            Ok(t) => t,
            Err(e) => {
                ctx.violation("not-built", format!("{}: {}", what, e));
                continue;
            }
        };
        let root = match guarded(|| check(&set, &t, h, pr, &mut nodes)) {
            Ok(Ok(r)) => r,
            Ok(Err(e)) | Err(e) => {
                ctx.violation("structure", format!("{}: {}", what, e));
                continue;
            }
        };
        ctx.add("nodes_checked", nodes);
        // raising later, at once or step by step, is the same as asking for the height
        if req.is_some() {
            let a = CurveTree::<L, M, P0, P1>::from_set(&set, pr, None).increase_height(req, pr);
            let mut b = CurveTree::<L, M, P0, P1>::from_set(&set, pr, None);
            for k in 0..=req.unwrap() {
                b = b.increase_height(Some(k), pr);
            }
            for (w, t2) in [("raised", a), ("raised stepwise", b)] {
                ctx.eval(Some(&format!("{} {}", what, w)));
                match check(&set, &t2, h, pr, &mut nodes) {
                    Ok(r) if r == root => {}
                    Ok(_) => ctx.violation("raise", format!("{}: {} differs", what, w)),
                    Err(e) => ctx.violation("raise", format!("{}: {}: {}", what, w, e)),
                }
            }
            let c = CurveTree::<L, M, P0, P1>::from_set(&set, pr, req).increase_height(Some(h.saturating_sub(1)), pr).increase_height(None, pr);
            ctx.require(matches!(check(&set, &c, h, pr, &mut nodes), Ok(r) if r == root), "raise", || format!("{}: a lower height changes the tree", what));
        }
        // authentication paths
        for ti in 0..M {
            for i in 0..n {
                ctx.eval(Some(&format!("{} path {} {}", what, ti, i)));
                let w = match guarded(|| t.select_and_rerandomize_prover_witness(i, ti, pr)) {
                    Ok(w) => w,
                    Err(e) => {
                        ctx.violation("path", format!("{}: no path to {} in tree {}: {}", what, i, ti, e));
                        continue;
                    }
                };
                if let Err(e) = auth::<L, M, F0, F1, P0, P1>(&t, &w, i, ti, h, &set, pr) {
                    ctx.violation("path", format!("{}: path to {} in tree {}: {}", what, i, ti, e));
                }
                ctx.add("paths", 1);
            }
        }
        ctx.sample_cat(&format!("{} L{} M{}", curve, L, M), || format!("{}: {} nodes", what, nodes));
    }
}

/// Recompute the path from the leaf upwards, using only the siblings it carries.
fn auth<const L: usize, const M: usize, F0, F1, P0, P1>(
    t: &CurveTree<L, M, P0, P1>,
    w: &relations::curve_tree_prover::CurveTreeWitnessPath<L, P0, P1>,
    index: usize,
    ti: usize,
    h: usize,
    set: &[Affine<P0>],
    pr: &SelRerandParameters<P0, P1>,
) -> Result<(), String>
where
    F0: PrimeField,
    F1: PrimeField,
    P0: SWCurveConfig<BaseField = F1, ScalarField = F0> + Copy + Send,
    P1: SWCurveConfig<BaseField = F0, ScalarField = F1> + Copy + Send,
{
    let (e, o) = (&pr.even_parameters, &pr.odd_parameters);
    let (ne, no) = (w.even_internal_nodes.len(), w.odd_internal_nodes.len());
    if ne + no != h || ne != h / 2 {
        return Err(format!("{} even and {} odd nodes for height {}", ne, no, h));
    }
    fn commit<P: SWCurveConfig + Copy, const L: usize>(p: &SingleLayerParameters<P>, s: &[P::ScalarField; L], ti: usize) -> Affine<P> {
        let g: Vec<Affine<P>> = p.bp_gens.share(0).G(L * (ti + 1)).copied().collect();
        let mut a = <Affine<P> as AffineRepr>::Group::zero();
        for j in 0..L {
            a += g[ti * L + j] * s[j];
        }
        a.into_affine()
    }
    let mut idx = index;
    let mut even = set[index];
    let mut odd = Affine::<P1>::zero();
    for level in 1..=h {
        let slot = idx % L;
        idx /= L;
        if level % 2 == 1 {
            // odd node with even children
            let nd = &w.odd_internal_nodes[no - 1 - (level - 1) / 2];
            if nd.child_witness != even {
                return Err(format!("level {}: the child is not the node below", level));
            }
            if nd.siblings[slot] != (even + e.delta).into_affine().x {
                return Err(format!("level {}: the child is not at slot {}", level, slot));
            }
            odd = commit::<P1, L>(o, &nd.siblings, ti);
        } else {
            let nd = &w.even_internal_nodes[ne - level / 2];
            if nd.child_witness != odd {
                return Err(format!("level {}: the child is not the node below", level));
            }
            if nd.siblings[slot] != (odd + o.delta).into_affine().x {
                return Err(format!("level {}: the child is not at slot {}", level, slot));
            }
            even = commit::<P0, L>(e, &nd.siblings, ti);
        }
    }
    let ok = match t {
        CurveTree::Even(x) => x.commitment(ti) == even,
        CurveTree::Odd(x) => x.commitment(ti) == odd,
    };
    if !ok {
        return Err("does not recompute to the root".into());
    }
    Ok(())
}

/// All lists of up to `len` elements over an alphabet: same height => different roots.
fn lists<const L: usize>(ctx: &'static Ctx, len: usize, alphabet: usize, pr: &SelRerandParameters<m61::Even, m61::Odd>) {
    let al = rel::leaves::<m61::Even>(alphabet, 5);
    let mut seen: BTreeMap<String, Vec<usize>> = BTreeMap::new();
    let mut layer: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..len {
        layer = layer.iter().flat_map(|l| (0..alphabet).map(move |a| { let mut q = l.clone(); q.push(a); q })).collect();
        for l in &layer {
            let set: Vec<m61::EvenA> = l.iter().map(|i| al[*i]).collect();
            for h in [None, Some(3)] {
                let t = CurveTree::<L, 2, m61::Even, m61::Odd>::from_set(&set, pr, h);
                for ti in 0..2 {
                    let root = match &t {
                        CurveTree::Even(x) => format!("even {} {} {:?}", x.height(), ti, x.commitment(ti)),
                        CurveTree::Odd(x) => format!("odd {} {} {:?}", x.height(), ti, x.commitment(ti)),
                    };
                    ctx.eval(Some(&format!("list L{} {:?} {:?} {}", L, l, h, ti)));
                    if t.height() > 0 && h.is_none() || h.is_some() {
                        if let Some(o) = seen.insert(root, l.clone()) {
                            ctx.require(o == *l, "equal-roots", || format!("L={}: lists {:?} and {:?} have the same root (tree {})", L, o, l, ti));
                        }
                    }
                    ctx.add("lists", 1);
                }
            }
        }
    }
}

fn main() {
    let ctx = Ctx::new("C10", "exploration");
    ctx.note("rule", "every (branching factor, number of trees, number of elements, requested height) up to the bound is built and compared node by node with the recursive definition; every element's path is recomputed upwards from its siblings; raising in one step, stepwise and at construction are compared; all element lists up to a length over a small alphabet have pairwise different roots. Distinct = (curve, L, M, n, height, tree, index)");
    let pr61 = SelRerandParameters::<m61::Even, m61::Odd>::new(64, 64);
    let pr60 = SelRerandParameters::<m60::Even, m60::Odd>::new(64, 64);
    let pr62 = SelRerandParameters::<m62::Even, m62::Odd>::new(64, 64);
    type Pa = ark_pallas::PallasConfig;
    type Ve = ark_vesta::VestaConfig;
    type Se = ark_secp256k1::Config;
    type Sq = ark_secq256k1::Config;
    let pr61big = SelRerandParameters::<m61::Even, m61::Odd>::new(512, 512);
    let prp = SelRerandParameters::<Pa, Ve>::new(64, 64);
    let prv = SelRerandParameters::<Ve, Pa>::new(64, 64);
    let prs = SelRerandParameters::<Se, Sq>::new(64, 64);
    let nmax = ctx.pick(34, 70);
    let mut cases: Vec<(usize, usize, usize, usize)> = vec![];
    for n in 1..=nmax {
        for l in [2, 3, 4, 5, 7] {
            for m in 1..=3 {
                cases.push((0, l, m, n));
            }
        }
        for c in 1..6 {
            if n <= 9 || ctx.thorough() && n <= 17 {
                cases.push((c, 2, 1, n));
                cases.push((c, 3, 2, n));
            }
        }
    }
    // branching factors of deployments, around their boundaries
    for n in [1, 15, 16, 17, 255, 256, 257, 300] {
        cases.push((0, 16, 1, n));
        cases.push((0, 16, 2, n));
        cases.push((0, 256, 1, n));
        cases.push((0, 256, 2, n));
    }
    if ctx.thorough() {
        cases.push((0, 16, 1, 4097));
        cases.push((0, 256, 1, 65537));
    }
    cases.push((0, 1, 1, 1));
    cases.push((0, 1, 2, 1));
    let hx = |n: usize| if n <= 4 { ctx.pick(16, 40) } else if n <= 18 { ctx.pick(6, 8) } else { ctx.pick(3, 5) };
    ctx.note("bounds", format!("n <= {}, L in 1..7, M in 1..3, L = 16 and 256 around their boundaries, heights <= {} (n <= 4), {} (n <= 18), {}; 3 toy cycles, pallas/vesta both ways, secp/secq", nmax, hx(1), hx(18), hx(99)));
    ctx.cases(&cases, |c| format!("{:?}", c), |&(c, l, m, n)| {
        macro_rules! go {
            ($($l:literal $m:literal),*) => {
                match (c, l, m) {
                    $((0, $l, $m) => shapes::<$l, $m, _, _, _, _>(ctx, "m61", n, hx(n), &pr61),)*
                    (0, 16, 1) => shapes::<16, 1, _, _, _, _>(ctx, "m61", n, hx(n).min(4), &pr61big),
                    (0, 16, 2) => shapes::<16, 2, _, _, _, _>(ctx, "m61", n, hx(n).min(4), &pr61big),
                    (0, 256, 1) => shapes::<256, 1, _, _, _, _>(ctx, "m61", n, hx(n).min(4), &pr61big),
                    (0, 256, 2) => shapes::<256, 2, _, _, _, _>(ctx, "m61", n, hx(n).min(4), &pr61big),
                    (1, 2, 1) => shapes::<2, 1, _, _, _, _>(ctx, "m60", n, 4, &pr60),
                    (1, 3, 2) => shapes::<3, 2, _, _, _, _>(ctx, "m60", n, 4, &pr60),
                    (2, 2, 1) => shapes::<2, 1, _, _, _, _>(ctx, "m62", n, 4, &pr62),
                    (2, 3, 2) => shapes::<3, 2, _, _, _, _>(ctx, "m62", n, 4, &pr62),
                    (3, 2, 1) => shapes::<2, 1, _, _, _, _>(ctx, "pallas", n, 4, &prp),
                    (3, 3, 2) => shapes::<3, 2, _, _, _, _>(ctx, "pallas", n, 3, &prp),
                    (4, 2, 1) => shapes::<2, 1, _, _, _, _>(ctx, "vesta", n, 4, &prv),
                    (4, 3, 2) => shapes::<3, 2, _, _, _, _>(ctx, "vesta", n, 3, &prv),
                    (5, 2, 1) => shapes::<2, 1, _, _, _, _>(ctx, "secp", n, 4, &prs),
                    (5, 3, 2) => shapes::<3, 2, _, _, _, _>(ctx, "secp", n, 3, &prs),
                    x => panic!("no instance for {:?}", x),
                }
            };
        }
        go!(1 1, 1 2, 2 1, 2 2, 2 3, 3 1, 3 2, 3 3, 4 1, 4 2, 4 3, 5 1, 5 2, 5 3, 7 1, 7 2, 7 3);
    });
    let lens: Vec<usize> = vec![2, 3];
    let (len, alphabet) = ctx.pick((5, 3), (6, 3));
    ctx.cases(&lens, |l| format!("lists {}", l), |&l| if l == 2 { lists::<2>(ctx, len, alphabet, &pr61) } else { lists::<3>(ctx, len, alphabet, &pr61) });
    // an empty set is refused, and so are too few generators (rather than committing to a part)
    ctx.require(guarded(|| CurveTree::<2, 1, m61::Even, m61::Odd>::from_set(&[], &pr61, None)).is_err(), "empty", || "an empty set gives a tree".into());
    for cap in 1..6usize {
        let small = SelRerandParameters::<m61::Even, m61::Odd>::new(cap, cap);
        macro_rules! few {
            ($l:literal $m:literal) => {
                let r = guarded(|| CurveTree::<$l, $m, m61::Even, m61::Odd>::from_set(&rel::leaves($l, 0), &small, Some(2)));
                ctx.eval(Some(&format!("cap {} {} {}", cap, $l, $m)));
                ctx.require(r.is_err() == (cap < $l * $m), "generators", || format!("L={} M={} with {} generators: {}", $l, $m, cap, if r.is_err() { "refused" } else { "built" }));
            };
        }
        few!(2 1);
        few!(3 1);
        few!(2 2);
        few!(4 1);
    }
    ctx.finish();
}
