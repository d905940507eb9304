//! C13: batched membership works for every set of indices.
use ark_ec::short_weierstrass::{Affine, SWCurveConfig};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::PrimeField;
use ctmc::curves::{m126, m60, m61, m62};
use ctmc::{guarded, rel, Ctx};
use relations::curve_tree::*;

#[derive(Clone, Debug)]
struct Case {
    curve: usize,
    l: usize,
    m: usize,
    n: usize,
    h: usize,
    content: usize,
    /// which part of the index tuples (of 4)
    part: usize,
    /// tuples of a reduced alphabet: first, last
    ends: bool,
}

fn shape<const L: usize, const M: usize, F0, F1, P0, P1>(ctx: &'static Ctx, curve: &str, c: &Case, pr: &SelRerandParameters<P0, P1>)
where
    F0: PrimeField,
    F1: PrimeField,
    P0: SWCurveConfig<BaseField = F1, ScalarField = F0> + Copy + Send,
    P1: SWCurveConfig<BaseField = F0, ScalarField = F1> + Copy + Send,
{
    let n = c.n;
    let mut set = rel::leaves::<P0>(n, 13);
    let hb = pr.even_parameters.pc_gens.B_blinding;
    match c.content {
        0 => {}
        1 => set = vec![set[0]; n],
        2 => set[n - 1] = Affine::<P0>::zero(),
        3 => set[0] = hb,
        4 => set[n - 1] = pr.even_parameters.delta,
        _ => set[0] = (-hb.into_group()).into_affine(),
    }
    let what = format!("{} L={} M={} n={} h={} content {}", curve, L, M, n, c.h, c.content);
    let t = match guarded(|| CurveTree::<L, M, P0, P1>::from_set(&set, pr, Some(c.h))) {
        Ok(t) => t,
        Err(e) => return ctx.violation("tree", format!("{}: {}", what, e)),
    };
    let pruned = rel::prune(&t);
    let h = t.height();
    let alphabet: Vec<usize> = if c.ends && n > 2 { vec![0, n - 1] } else { (0..n).collect() };
    // large batches: a block of one element and a block of the other, or one position that differs
    let total = if M > 4 { 4 * M } else { alphabet.len().pow(M as u32) };
    ctx.add("shapes", (c.part == 0) as u64);
    for code in (0..total).filter(|x| x % 4 == c.part) {
        let idx: [usize; M] = std::array::from_fn(|i| {
            if M > 4 {
                let (k, kind) = (code / 4, code % 4);
                let bit = if kind < 2 { i <= k } else { i == k };
                return alphabet[(bit != (kind % 2 == 1)) as usize % alphabet.len()];
            }
            alphabet[code / alphabet.len().pow(i as u32) % alphabet.len()]
        });
        let key = format!("{} indices {:?}", what, idx);
        ctx.eval(Some(&key));
        let m = match guarded(|| rel::prove_multi(&t, idx, pr, b"multi", &mut rand::thread_rng())) {
            Ok(Ok(m)) => m,
            Ok(Err(e)) => {
                ctx.violation("not-proven", format!("{}: {:?}", key, e));
                continue;
            }
            Err(e) => {
                ctx.violation("not-proven", format!("{}: panic {}", key, e));
                continue;
            }
        };
        let want: [Affine<P0>; M] = std::array::from_fn(|i| (set[idx[i]] + hb * m.blindings[i]).into_affine());
        ctx.require(m.path.selected_commitments == want, "leaf", || format!("{}: a leaf is not element + its blinding * H", key));
        ctx.require(m.path.even_commitments.len() + m.path.odd_commitments.len() + 1 == h, "path-length", || format!("{}: {} even and {} odd commitments", key, m.path.even_commitments.len(), m.path.odd_commitments.len()));
        for i in 0..M {
            for j in 0..i {
                // equal blindings would reveal whether two elements are equal, and their difference
                ctx.require(m.blindings[i] != m.blindings[j], "own-blinding", || format!("{}: positions {} and {} share a blinding", key, j, i));
            }
        }
        for (who, tree) in [("the full tree", &t), ("only the root", &pruned)] {
            ctx.eval(None);
            match guarded(|| rel::verify_multi(tree, &m, pr, b"multi")) {
                Ok(Ok(leaves)) => ctx.require(leaves == want, "leaf", || format!("{}: verifier with {} reports other leaves", key, who)),
                Ok(Err(e)) => ctx.violation("rejected", format!("{}: verifier with {}: {:?}", key, who, e)),
                Err(e) => ctx.violation("rejected", format!("{}: verifier with {}: panic {}", key, who, e)),
            }
        }
        // the same claims, one at a time, in the same tree
        if code % 8 == c.part {
            let i = idx[M - 1];
            ctx.eval(None);
            ctx.add("single_agreement", 1);
            match guarded(|| rel::prove_mem(&t, i, 0, pr, b"mem", &mut rand::thread_rng()).and_then(|s| rel::verify_mem(&t, &s, pr, b"mem").map(|l| (l, s.blinding)))) {
                Ok(Ok((leaf, b))) => ctx.require(leaf.into_group() - hb * b == want[M - 1].into_group() - hb * m.blindings[M - 1], "single", || format!("{}: a single proof shows another element", key)),
                e => ctx.violation("single", format!("{}: single proof of {} fails: {:?}", key, i, e.map(|r| r.map(|_| ())))),
            }
        }
    }
    ctx.sample_cat(&format!("{} L{} M{}", curve, L, M), || what.clone());
}

fn main() {
    let ctx = Ctx::new("C13", "exploration");
    ctx.note("rule", "every (curve, branching factor, batch size, number of elements, height) up to the bound and every tuple of indices: prove the batch, compare every leaf with element + own blinding*H, verify against the full tree and against the root alone, compare with a single proof in the same tree; special contents (equal, identity, generator elements); batches of more than 4: every tuple that is two blocks or differs from a constant at one position");
    let pr61 = SelRerandParameters::<m61::Even, m61::Odd>::new(4096, 4096);
    let pr60 = SelRerandParameters::<m60::Even, m60::Odd>::new(2048, 2048);
    let pr62 = SelRerandParameters::<m62::Even, m62::Odd>::new(2048, 2048);
    let pr126 = SelRerandParameters::<m126::Even, m126::Odd>::new(4096, 4096);
    type Pa = ark_pallas::PallasConfig;
    type Ve = ark_vesta::VestaConfig;
    type Se = ark_secp256k1::Config;
    type Sq = ark_secq256k1::Config;
    let prp = SelRerandParameters::<Pa, Ve>::new(8192, 8192);
    let prv = SelRerandParameters::<Ve, Pa>::new(8192, 8192);
    let prs = SelRerandParameters::<Se, Sq>::new(8192, 8192);
    let minh = |l: usize, n: usize| { let (mut h, mut c) = (0usize, 1); while c < n { c *= l; h += 1 } h.max(1) };
    let mut cases = vec![];
    let mut add = |curve, l, m, n: usize, h, content, ends: bool| {
        let tuples = (if ends { n.min(2) } else { n }).saturating_pow(m as u32).max(4 * (m > 4) as usize);
        for part in 0..tuples.min(4) {
            cases.push(Case { curve, l, m, n, h, content, part, ends });
        }
    };
    // (batch size, L=2 elements, L=3 elements, L=4 elements, L=5 elements, extra heights)
    let bounds = ctx.pick(
        [(1usize, 6usize, 5usize, 5usize, 5usize, 2usize), (2, 5, 4, 4, 5, 2), (3, 3, 3, 2, 0, 1), (4, 2, 2, 0, 0, 1)],
        [(1, 16, 12, 17, 7, 4), (2, 9, 10, 9, 6, 3), (3, 5, 4, 5, 5, 2), (4, 3, 3, 2, 0, 1)],
    );
    for (m, n2, n3, n4, n5, extra) in bounds {
        for (l, top) in [(2, n2), (3, n3), (4, n4), (5, n5)] {
            for n in 1..=top {
                let h0 = minh(l, n);
                for h in h0..=h0 + if n <= 2 || ctx.thorough() { extra } else { (l == 2) as usize } {
                    add(0, l, m, n, h, 0, false);
                }
            }
        }
        // branching factor 1: a single element
        for h in 1..=1 + extra {
            add(0, 1, m, 1, h, 0, false);
        }
        // wide and tall, only first and last element
        if m <= 3 {
            add(0, 7, m, 9, 2, 0, true);
            add(0, 2, m, 2, 4, 0, true);
            add(0, 2, m, 17, 5, 0, true);
        }
    }
    // branching factors of deployments, and large batches
    for (l, n) in [(16, 17), (64, 64), (64, 65), (256, 256), (256, 300)] {
        add(0, l, 2, n, 2, 0, true);
        if l == 16 || n == 256 && ctx.thorough() {
            add(4, l, 2, n, 2, 0, true);
        }
    }
    add(0, 2, 8, 2, 1, 0, true);
    if ctx.thorough() {
        add(0, 2, 8, 4, 2, 0, true);
        add(0, 4, 16, 4, 1, 0, true);
    }
    for content in 1..=5 {
        for n in [1, 2, 4] {
            add(0, 2, 2, n, minh(2, n), content, false);
            add(0, 2, 2, n, minh(2, n) + 1, content, n > 2 && ctx.quick);
            if ctx.thorough() {
                add(0, 2, 3, n, minh(2, n), content, false);
            }
        }
    }
    for curve in 1..=2 {
        for h in 1..=ctx.pick(3, 4) {
            add(curve, 2, 2, 2, h, 0, false);
        }
    }
    for h in 1..=ctx.pick(2, 4) {
        add(3, 2, 2, 2, h, 0, false);
    }
    for curve in 4..=6 {
        for h in 1..=ctx.pick(2, 3) {
            if curve == 4 || h == 1 || ctx.thorough() {
                add(curve, 2, 2, 2, h, 0, false);
            }
        }
        if ctx.thorough() {
            add(curve, 3, 2, 5, 2, 0, false);
        }
    }
    cases.sort_by_key(|c| std::cmp::Reverse((c.curve >= 4, c.curve == 3, c.m * c.h, c.n)));
    ctx.note("bounds", format!("toy 61-bit cycle (batch size, elements at L=2,3,4,5, extra heights): {:?}; L=16, 64, 256 with first and last element; batches of 8 (thorough: 16); 60-, 62-, 126-bit cycles, pallas/vesta, vesta/pallas, secp/secq at L=2 M=2", bounds));
    ctx.cases(&cases, |c| format!("{:?}", c), |c| {
        macro_rules! go {
            ($($l:literal $m:literal),*) => {
                match (c.curve, c.l, c.m) {
                    $((0, $l, $m) => shape::<$l, $m, _, _, _, _>(ctx, "m61", c, &pr61),)*
                    (1, 2, 2) => shape::<2, 2, _, _, _, _>(ctx, "m60", c, &pr60),
                    (2, 2, 2) => shape::<2, 2, _, _, _, _>(ctx, "m62", c, &pr62),
                    (3, 2, 2) => shape::<2, 2, _, _, _, _>(ctx, "m126", c, &pr126),
                    (4, 2, 2) => shape::<2, 2, _, _, _, _>(ctx, "pallas", c, &prp),
                    (5, 2, 2) => shape::<2, 2, _, _, _, _>(ctx, "vesta", c, &prv),
                    (6, 2, 2) => shape::<2, 2, _, _, _, _>(ctx, "secp", c, &prs),
                    (4, 3, 2) => shape::<3, 2, _, _, _, _>(ctx, "pallas", c, &prp),
                    (4, 16, 2) => shape::<16, 2, _, _, _, _>(ctx, "pallas", c, &prp),
                    (4, 256, 2) => shape::<256, 2, _, _, _, _>(ctx, "pallas", c, &prp),
                    (5, 3, 2) => shape::<3, 2, _, _, _, _>(ctx, "vesta", c, &prv),
                    (6, 3, 2) => shape::<3, 2, _, _, _, _>(ctx, "secp", c, &prs),
                    x => panic!("no instance for {:?}", x),
                }
            };
        }
        go!(1 1, 1 2, 1 3, 1 4, 2 1, 2 2, 2 3, 2 4, 3 1, 3 2, 3 3, 3 4, 4 1, 4 2, 4 3, 4 4, 5 1, 5 2, 5 3, 7 1, 7 2, 7 3, 16 2, 64 2, 256 2, 2 8, 4 16);
    });
    ctx.finish();
}
