//! C11: membership can be proven for every element of every tree, and for nothing else.
use ark_ec::short_weierstrass::{Affine, SWCurveConfig};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::PrimeField;
use ctmc::curves::{m126, m60, m61, m62};
use ctmc::{guarded, rel, Ctx};
use relations::curve_tree::*;
use std::collections::BTreeSet;

#[allow(clippy::too_many_arguments)]
fn shape<const L: usize, const M: usize, F0, F1, P0, P1>(ctx: &'static Ctx, curve: &str, n: usize, h: usize, pr: &SelRerandParameters<P0, P1>, content: usize, only: Option<usize>)
where
    F0: PrimeField,
    F1: PrimeField,
    P0: SWCurveConfig<BaseField = F1, ScalarField = F0> + Copy + Send,
    P1: SWCurveConfig<BaseField = F0, ScalarField = F1> + Copy + Send,
{
    let mut set = rel::leaves::<P0>(n, 3);
    let hb = pr.even_parameters.pc_gens.B_blinding;
    match content {
        0 => {}
        1 => set = vec![set[0]; n],
        2 => set[n - 1] = Affine::<P0>::zero(),
        3 => set[0] = hb,
        4 => set[n - 1] = pr.even_parameters.delta,
        _ => set[0] = (-hb.into_group()).into_affine(),
    }
    let what = format!("{} L={} M={} n={} h={} content {}", curve, L, M, n, h, content);
    let t = match guarded(|| CurveTree::<L, M, P0, P1>::from_set(&set, pr, Some(h))) {
        Ok(t) => t,
        Err(e) => return ctx.violation("tree", format!("{}: {}", what, e)),
    };
    let pruned = rel::prune(&t);
    let h = t.height();
    if h == 0 {
        return;
    }
    ctx.add("shapes", 1);
    for i in 0..n {
        if only.map(|o| o != i).unwrap_or(false) {
            continue;
        }
        let key = format!("{} index {}", what, i);
        ctx.eval(Some(&key));
        let m = match guarded(|| rel::prove_mem(&t, i, 0, pr, b"mem", &mut rand::thread_rng())) {
            Ok(Ok(m)) => m,
            Ok(Err(e)) => {
                ctx.violation("not-proven", format!("{}: {:?}", key, e));
                continue;
            }
            Err(e) => {
                ctx.violation("not-proven", format!("{}: panic {}", key, e));
                continue;
            }
        };
        let want = (set[i] + hb * m.blinding).into_affine();
        ctx.require(m.path.selected_commitment == want, "leaf", || format!("{}: the leaf is not element + blinding * H", key));
        ctx.require(m.path.even_commitments.len() + m.path.odd_commitments.len() + 1 == h, "path-length", || format!("{}: {} even and {} odd commitments", key, m.path.even_commitments.len(), m.path.odd_commitments.len()));
        for (who, tree) in [("the full tree", &t), ("only the root", &pruned)] {
            ctx.eval(None);
            match guarded(|| rel::verify_mem(tree, &m, pr, b"mem")) {
                Ok(Ok(leaf)) => ctx.require(leaf == want, "leaf", || format!("{}: verifier with {} reports another leaf", key, who)),
                Ok(Err(e)) => ctx.violation("rejected", format!("{}: verifier with {}: {:?}", key, who, e)),
                Err(e) => ctx.violation("rejected", format!("{}: verifier with {}: panic {}", key, who, e)),
            }
        }
    }
    ctx.sample_cat(&format!("{} L{} M{}", curve, L, M), || what.clone());
    if content != 0 || only.is_some() {
        return;
    }
    // indices outside the tree
    let cap = L.saturating_pow(h as u32);
    let mut out: BTreeSet<usize> = (n..(3 * cap + 2).min(n + 400)).collect();
    for k in [8u32, 16, 31, 32, 33, 63] {
        for d in 0..3usize {
            out.insert((1usize << k) + d);
            out.insert((1usize << k) - 1 - d);
        }
    }
    for d in 0..4 {
        out.insert(usize::MAX - d);
        out.insert(usize::MAX / cap * cap - d.min(1) * cap);
    }
    for x in out.into_iter().filter(|x| *x >= n) {
        ctx.eval(Some(&format!("{} outside {}", what, x)));
        ctx.add("outside_indices", 1);
        if guarded(|| t.select_and_rerandomize_prover_witness(x, 0, pr)).is_ok() {
            ctx.violation("index-outside", format!("{}: index {} (of {} elements) yields a path", what, x, n));
        }
        for pos in 0..M {
            let mut idx = [0; M];
            idx[pos] = x;
            if guarded(|| t.select_and_rerandomize_prover_multi_witness(idx, pr)).is_ok() {
                ctx.violation("index-outside", format!("{}: indices {:?} (of {} elements) yield paths", what, idx, n));
            }
        }
    }
}

fn main() {
    let ctx = Ctx::new("C11", "exploration");
    ctx.note("rule", "every (curve, branching factor, number of elements, height, index) up to the bound: prove, compare the leaf with element + blinding*H, verify against the full tree and against a tree that holds only the root and its children's commitments; special contents (equal, identity, generator elements); every index outside the tree up to three capacities and around powers of two must be refused");
    let pr61 = SelRerandParameters::<m61::Even, m61::Odd>::new(1024, 1024);
    let pr60 = SelRerandParameters::<m60::Even, m60::Odd>::new(1024, 1024);
    let pr62 = SelRerandParameters::<m62::Even, m62::Odd>::new(1024, 1024);
    let pr126 = SelRerandParameters::<m126::Even, m126::Odd>::new(2048, 2048);
    type Pa = ark_pallas::PallasConfig;
    type Ve = ark_vesta::VestaConfig;
    type Se = ark_secp256k1::Config;
    type Sq = ark_secq256k1::Config;
    let prp = SelRerandParameters::<Pa, Ve>::new(2048, 2048);
    let prv = SelRerandParameters::<Ve, Pa>::new(2048, 2048);
    let prs = SelRerandParameters::<Se, Sq>::new(2048, 2048);
    // (curve, L, M, n, h, content, only index)
    let mut cases: Vec<(usize, usize, usize, usize, usize, usize, Option<usize>)> = vec![];
    let (full2, full3, full4, hmax) = ctx.pick((8, 9, 8, 4), (32, 27, 20, 6));
    let minh = |l: usize, n: usize| { let (mut h, mut c) = (0, 1); while c < n { c *= l; h += 1 } h };
    for (l, top) in [(2, full2), (3, full3), (4, full4), (5, ctx.pick(6, 26)), (7, ctx.pick(7, 15))] {
        for n in 1..=top {
            let h0 = minh(l, n).max(1);
            // one level of slack everywhere, all heights for few elements
            let ht = if n <= l + 1 { hmax } else { (h0 + 1).min(hmax.max(h0)) };
            for h in h0..=ht {
                cases.push((0, l, 1, n, h, 0, None));
            }
        }
    }
    cases.extend((1..=hmax).map(|h| (0, 1, 1, 1, h, 0, None)));
    for m in 2..=3 {
        for n in 1..=ctx.pick(3, 8) {
            cases.push((0, 2, m, n, minh(2, n).max(1), 0, None));
            cases.push((0, 2, m, n, minh(2, n).max(1) + 1, 0, None));
        }
    }
    for content in 1..=5 {
        for n in [1, 2, 4] {
            for h in minh(2, n).max(1)..=ctx.pick(3, 4) {
                cases.push((0, 2, 1, n, h, content, None));
            }
        }
    }
    for c in 1..=2 {
        for n in 1..=ctx.pick(4, 9) {
            for h in minh(2, n).max(1)..=ctx.pick(3, 4) {
                cases.push((c, 2, 1, n, h, 0, None));
            }
        }
    }
    for h in 1..=3 {
        for i in 0..2usize {
            cases.push((3, 2, 1, 2, h, 0, Some(i)));
            if h < 3 || ctx.thorough() {
                for c in 4..=6 {
                    cases.push((c, 2, 1, 2, h, 0, Some(i)));
                }
            }
        }
    }
    // branching factors of deployments
    for (l, n, idx) in [(16, 17, vec![0, 15, 16]), (64, 65, vec![0, 63, 64]), (256, 300, vec![0, 255, 256, 299])] {
        for i in idx {
            cases.push((0, l, 1, n, 2, 0, Some(i)));
            if l == 16 || i == 255 || ctx.thorough() {
                cases.push((4, l, 1, n, 2, 0, Some(i)));
            }
        }
    }
    if ctx.thorough() {
        for c in 4..=6 {
            cases.push((c, 2, 1, 4, 2, 0, None));
            cases.push((c, 3, 1, 5, 2, 0, None));
        }
    }
    cases.sort_by_key(|c| std::cmp::Reverse((c.0 >= 4, c.3 * c.4)));
    ctx.note("bounds", format!("toy 61-bit cycle: L=2 n<={}, L=3 n<={}, L=4 n<={}, heights <= {}; M 1..3; L=16, 64, 256 at the boundaries of a node; 60-, 62-, 126-bit cycles, pallas/vesta, vesta/pallas, secp/secq", full2, full3, full4, hmax));
    ctx.cases(&cases, |c| format!("{:?}", c), |&(c, l, m, n, h, ct, only)| {
        macro_rules! go {
            ($($l:literal $m:literal),*) => {
                match (c, l, m) {
                    $((0, $l, $m) => shape::<$l, $m, _, _, _, _>(ctx, "m61", n, h, &pr61, ct, only),)*
                    (1, 2, 1) => shape::<2, 1, _, _, _, _>(ctx, "m60", n, h, &pr60, ct, only),
                    (2, 2, 1) => shape::<2, 1, _, _, _, _>(ctx, "m62", n, h, &pr62, ct, only),
                    (3, 2, 1) => shape::<2, 1, _, _, _, _>(ctx, "m126", n, h, &pr126, ct, only),
                    (4, 2, 1) => shape::<2, 1, _, _, _, _>(ctx, "pallas", n, h, &prp, ct, only),
                    (5, 2, 1) => shape::<2, 1, _, _, _, _>(ctx, "vesta", n, h, &prv, ct, only),
                    (6, 2, 1) => shape::<2, 1, _, _, _, _>(ctx, "secp", n, h, &prs, ct, only),
                    (4, 3, 1) => shape::<3, 1, _, _, _, _>(ctx, "pallas", n, h, &prp, ct, only),
                    (4, 16, 1) => shape::<16, 1, _, _, _, _>(ctx, "pallas", n, h, &prp, ct, only),
                    (4, 64, 1) => shape::<64, 1, _, _, _, _>(ctx, "pallas", n, h, &prp, ct, only),
                    (4, 256, 1) => shape::<256, 1, _, _, _, _>(ctx, "pallas", n, h, &prp, ct, only),
                    (5, 3, 1) => shape::<3, 1, _, _, _, _>(ctx, "vesta", n, h, &prv, ct, only),
                    (6, 3, 1) => shape::<3, 1, _, _, _, _>(ctx, "secp", n, h, &prs, ct, only),
                    x => panic!("no instance for {:?}", x),
                }
            };
        }
        go!(1 1, 2 1, 2 2, 2 3, 3 1, 4 1, 5 1, 7 1, 16 1, 64 1, 256 1);
    });
    ctx.finish();
}
