//! C20: generators are consistent and independent.
use ark_ec::short_weierstrass::{Affine, SWCurveConfig};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{One, PrimeField, Zero};
use bulletproofs::r1cs::*;
use bulletproofs::{BulletproofGens, PedersenGens};
use ctmc::circuit::{Op, Prog};
use ctmc::curves::{m126, m60, m61, m62};
use ctmc::{guarded, oracle, Ctx};
use relations::curve_tree::SelRerandParameters;
use relations::single_level_select_and_rerandomize::SingleLayerParameters;
use std::collections::BTreeMap;

/// All generators of one party that can be observed: the first vector, and for the party that proves also the
/// second one (through the first message of a real proof).
fn firsts<P: SWCurveConfig>(g: &BulletproofGens<Affine<P>>, party: usize, n: usize) -> Vec<Affine<P>> {
    g.share(party).G(n).copied().collect()
}
fn seconds<P: SWCurveConfig>(g: &BulletproofGens<Affine<P>>, n: usize) -> Vec<Affine<P>> {
    oracle::gens_h(&PedersenGens::default(), g, n)
}
fn hs_observable(cap: usize) -> usize {
    let mut n = 1;
    while n * 2 <= cap {
        n *= 2;
    }
    if cap == 0 { 0 } else { n }
}

/// Every growth sequence gives the points of a fresh set of the same size.
fn growth<P: SWCurveConfig + Copy>(ctx: &'static Ctx, curve: &str, first: usize, sizes: &[usize], depth: usize, parties: usize)
where
    P::BaseField: PrimeField,
{
    let top = *sizes.iter().max().unwrap();
    let big = BulletproofGens::<Affine<P>>::new(2 * top, parties);
    let (g_ref, h_ref): (Vec<Vec<_>>, Vec<_>) = ((0..parties).map(|p| firsts(&big, p, top)).collect(), seconds(&big, top));
    let check = |g: &BulletproofGens<Affine<P>>, cap: usize, text: &str| {
        ctx.eval(Some(text));
        ctx.require(g.gens_capacity == cap, "capacity", || format!("{}: capacity {} instead of {}", text, g.gens_capacity, cap));
        ctx.require(g.party_capacity == parties, "capacity", || format!("{}: {} parties instead of {}", text, g.party_capacity, parties));
        for p in 0..parties {
            for n in 0..=cap.min(top) {
                ctx.require(guarded(|| firsts(g, p, n)).ok().as_deref() == Some(&g_ref[p][..n]), "prefix", || format!("{}: the first {} G generators of party {} are not those of a fresh set", text, n, p));
            }
        }
        let n = hs_observable(cap);
        ctx.require(n == 0 || guarded(|| seconds(g, n)).ok().as_deref() == Some(&h_ref[..n]), "prefix", || format!("{}: the first {} H generators are not those of a fresh set", text, n));
    };
    fn go<P: SWCurveConfig + Copy>(g: &BulletproofGens<Affine<P>>, cap: usize, text: String, sizes: &[usize], depth: usize, check: &dyn Fn(&BulletproofGens<Affine<P>>, usize, &str)) {
        check(g, cap, &text);
        if depth == 0 {
            return;
        }
        for s in sizes {
            // the original must not be affected by what happens to its copy
            let mut c = g.clone();
            c.increase_capacity(*s);
            go(&c, cap.max(*s), format!("{} then {}", text, s), sizes, depth - 1, check);
            if depth > 1 {
                check(g, cap, &text);
            }
        }
    }
    let g = BulletproofGens::<Affine<P>>::new(first, parties);
    go(&g, first, format!("{} new({}, {})", curve, first, parties), sizes, depth, &check);
    ctx.sample_cat(curve, || format!("{} growth from {} through {:?}, depth {}", curve, first, sizes, depth));
}

struct Seen<P: SWCurveConfig> {
    map: BTreeMap<Vec<u8>, String>,
    points: u64,
    _p: std::marker::PhantomData<P>,
}
impl<P: SWCurveConfig> Seen<P> {
    fn new() -> Self {
        Seen { map: BTreeMap::new(), points: 0, _p: Default::default() }
    }
    /// A point under a name; equal or opposite points (or small multiples of each other) have equal x.
    fn add(&mut self, ctx: &'static Ctx, p: &Affine<P>, multiples: usize, name: &dyn Fn() -> String) {
        use ark_serialize::CanonicalSerialize;
        ctx.eval(None);
        self.points += 1;
        ctx.require(!p.is_zero(), "identity", || format!("{} is the identity", name()));
        ctx.require(p.is_on_curve(), "off-curve", || format!("{} is not on the curve", name()));
        if p.is_zero() {
            return;
        }
        let mut q = p.into_group();
        for k in 1..=multiples {
            let a = q.into_affine();
            let mut b = vec![];
            a.x.serialize_compressed(&mut b).unwrap();
            let n = if k == 1 { name() } else { format!("{} * {}", k, name()) };
            if let Some(o) = self.map.insert(b, n.clone()) {
                ctx.violation("related", format!("{} is plus or minus {}", n, o));
            }
            q += p;
        }
    }
}

/// Everything handed out on one curve is pairwise distinct, up to sign (and up to small multiples).
fn distinct<P, Q>(ctx: &'static Ctx, curve: &str, positions: usize, parties: usize, wide: usize, multiples: usize)
where
    P: SWCurveConfig + Copy,
    Q: SWCurveConfig<BaseField = P::ScalarField, ScalarField = P::BaseField> + Copy,
    P::BaseField: PrimeField,
    P::ScalarField: PrimeField,
{
    let pc = PedersenGens::<Affine<P>>::default();
    ctx.require(pc.B == P::GENERATOR, "base", || format!("{}: B is not the curve's generator", curve));
    let long = BulletproofGens::<Affine<P>>::new(positions, 1);
    let many = BulletproofGens::<Affine<P>>::new(wide, parties);
    let layer = SingleLayerParameters::<P>::new::<Q>(4);
    let nh = positions.min(ctx.pick(64, 256));
    let h = seconds(&BulletproofGens::<Affine<P>>::new(nh, 1), nh);
    let mut s = Seen::<P>::new();
    s.add(ctx, &pc.B, multiples, &|| format!("{} B", curve));
    s.add(ctx, &pc.B_blinding, multiples, &|| format!("{} B_blinding", curve));
    s.add(ctx, &layer.delta, multiples, &|| format!("{} delta", curve));
    for (i, p) in firsts(&long, 0, positions).iter().enumerate() {
        s.add(ctx, p, multiples, &|| format!("{} G[0][{}]", curve, i));
    }
    for (i, p) in h.iter().enumerate() {
        s.add(ctx, p, multiples, &|| format!("{} H[0][{}]", curve, i));
    }
    for party in 1..parties {
        for (i, p) in firsts(&many, party, wide).iter().enumerate() {
            s.add(ctx, p, 1, &|| format!("{} G[{}][{}]", curve, party, i));
        }
    }
    ctx.require(firsts(&many, 0, wide) == firsts(&long, 0, wide), "prefix", || format!("{}: party 0 depends on the number of parties", curve));
    ctx.add("points_compared", s.points);
    // no generator is the sum or difference of two others
    let base: Vec<(String, Affine<P>)> = [("B".to_string(), pc.B), ("B_blinding".into(), pc.B_blinding), ("delta".into(), layer.delta)]
        .into_iter()
        .chain(firsts(&long, 0, ctx.pick(24, 96)).into_iter().enumerate().map(|(i, p)| (format!("G[{}]", i), p)))
        .chain(h.iter().copied().take(ctx.pick(24, 96)).enumerate().map(|(i, p)| (format!("H[{}]", i), p)))
        .collect();
    for i in 0..base.len() {
        for j in 0..i {
            for (sg, q) in [('+', base[i].1 + base[j].1), ('-', base[i].1 - base[j].1)] {
                let a = q.into_affine();
                ctx.eval(None);
                let mut b = vec![];
                ark_serialize::CanonicalSerialize::serialize_compressed(&a.x, &mut b).unwrap();
                if let Some(n) = s.map.get(&b) {
                    ctx.violation("related", format!("{}: {} {} {} is plus or minus {}", curve, base[i].0, sg, base[j].0, n));
                }
            }
        }
    }
    // tables: valid points, distinct within a table
    for (i, t) in layer.tables.iter().enumerate() {
        let mut xs = vec![];
        for j in 0..t.elems[0].len() {
            ctx.eval(None);
            let p = Affine::<P>::new_unchecked(t.elems[0][j], t.elems[1][j]);
            ctx.require(p.is_on_curve(), "table", || format!("{}: entry {} of table {} is not a point", curve, j, i));
            ctx.require(!xs.contains(&p), "table", || format!("{}: entry {} of table {} repeats", curve, j, i));
            xs.push(p);
        }
    }
    ctx.sample_cat(curve, || format!("{}: {} positions, {} parties of {}", curve, positions, parties, wide));
}

/// Parameters are a function of the curve and the requested sizes only.
fn parameters<P, Q>(ctx: &'static Ctx, curve: &str)
where
    P: SWCurveConfig + Copy,
    Q: SWCurveConfig<BaseField = P::ScalarField, ScalarField = P::BaseField> + Copy,
    P::BaseField: PrimeField,
    P::ScalarField: PrimeField,
{
    let sizes = [1usize, 2, 3, 4, 7, 8, 16, 33];
    let base = SelRerandParameters::<P, Q>::new(40, 40);
    fn same<X: SWCurveConfig + Copy>(a: &SingleLayerParameters<X>, b: &SingleLayerParameters<X>, n: usize) -> Option<&'static str> {
        if a.pc_gens.B != b.pc_gens.B || a.pc_gens.B_blinding != b.pc_gens.B_blinding {
            return Some("commitment bases");
        }
        if a.delta != b.delta {
            return Some("offset");
        }
        if a.coeff_a != X::COEFF_A || a.coeff_b != X::COEFF_B {
            return Some("curve coefficients");
        }
        if a.tables.len() != b.tables.len() || a.tables.iter().zip(&b.tables).any(|(x, y)| x.elems != y.elems) {
            return Some("tables");
        }
        if a.bp_gens.gens_capacity != n {
            return Some("capacity");
        }
        let (x, y): (Vec<_>, Vec<_>) = (a.bp_gens.share(0).G(n).collect(), b.bp_gens.share(0).G(n).collect());
        if x.len() != n || x != y { Some("generators") } else { None }
    }
    for a in sizes {
        for b in sizes {
            ctx.eval(Some(&format!("parameters {} {} {}", curve, a, b)));
            let p = SelRerandParameters::<P, Q>::new(a, b);
            let r = same(&p.even_parameters, &base.even_parameters, a);
            ctx.require(r.is_none(), "parameters", || format!("{}: even {:?} of parameters({}, {}) differ", curve, r, a, b));
            let r = same(&p.odd_parameters, &base.odd_parameters, b);
            ctx.require(r.is_none(), "parameters", || format!("{}: odd {:?} of parameters({}, {}) differ", curve, r, a, b));
        }
    }
    // swapped cycles: the same curve has the same parameters on either side
    let swapped = SelRerandParameters::<Q, P>::new(40, 40);
    for r in [same(&swapped.odd_parameters, &base.even_parameters, 40), same(&swapped.even_parameters, &base.odd_parameters, 40)] {
        ctx.eval(None);
        ctx.require(r.is_none(), "parameters", || format!("{}: {:?} depend on the side of the cycle", curve, r));
    }
    // and whatever thread builds them
    let other = std::thread::spawn(|| SelRerandParameters::<P, Q>::new(16, 16)).join().unwrap();
    let r = same(&other.even_parameters, &base.even_parameters, 16);
    ctx.require(r.is_none(), "parameters", || format!("{}: {:?} depend on the thread", curve, r));
    // commitments under them mean what they say: value i of set k uses generator k*len + i
    let p = &base.even_parameters;
    let g = firsts(&p.bp_gens, 0, 40);
    let f = |i: usize| P::ScalarField::from(0x1234_5678_9abc_def1u64 / (i as u64 + 2));
    for len in 1..=6usize {
        for set in 0..=5usize {
            for zeros in 0..1usize << len.min(ctx.pick(3, 5)) {
                let v: Vec<P::ScalarField> = (0..len).map(|i| if zeros >> i & 1 == 1 { P::ScalarField::zero() } else { f(i) }).collect();
                for bl in [P::ScalarField::zero(), P::ScalarField::one(), f(9)] {
                    ctx.eval(Some(&format!("commit {} {} {} {} {}", curve, len, set, zeros, bl)));
                    let want = (0..len).fold(p.pc_gens.B_blinding * bl, |a, i| a + g[set * len + i] * v[i]).into_affine();
                    ctx.require(guarded(|| p.commit(&v, bl, set)).ok() == Some(want), "commit", || format!("{}: commitment to {} values with generator set {} (zeros {:b}) is wrong", curve, len, set, zeros));
                    let want = (p.pc_gens.B * v[0] + p.pc_gens.B_blinding * bl).into_affine();
                    ctx.require(p.pc_gens.commit(v[0], bl) == want, "commit", || format!("{}: Pedersen commitment is wrong", curve));
                }
            }
        }
    }
}

/// A proof made with generators built in one way verifies with generators built in another.
fn interchange<P: SWCurveConfig + Copy>(ctx: &'static Ctx, curve: &str)
where
    P::BaseField: PrimeField,
{
    let pc = PedersenGens::<Affine<P>>::default();
    let mut ways: Vec<(String, BulletproofGens<Affine<P>>)> = vec![];
    for a in [1usize, 2, 3, 4, 5, 8] {
        for b in [1usize, 2, 3, 4, 5, 8, 9] {
            let mut g = BulletproofGens::new(a, 1 + (a + b) % 3);
            g.increase_capacity(b);
            ways.push((format!("new({}) then {}", a, b), g));
        }
    }
    for gates in 1..=ctx.pick(5usize, 8) {
        let need = gates.next_power_of_two();
        let mut prog: Prog = vec![Op::Commit(3)];
        prog.extend((0..gates).map(|i| Op::AllocMul(2 + i as i64, 5)));
        for (n1, g1) in &ways {
            let out = guarded(|| ctmc::circuit::prove(&prog, &pc, g1, b"c20").ok()).ok().flatten();
            let Some(out) = out else {
                ctx.require(g1.gens_capacity < need, "interchange", || format!("{}: no proof of {} gates with {}", curve, gates, n1));
                continue;
            };
            for (n2, g2) in &ways {
                if g2.gens_capacity < need {
                    continue;
                }
                ctx.eval(Some(&format!("interchange {} {} {} {}", curve, gates, n1, n2)));
                let ok = matches!(guarded(|| ctmc::circuit::verify(&prog, &out.comms, &out.proof, &pc, g2, b"c20")), Ok(Ok(())));
                ctx.require(ok, "interchange", || format!("{}: a proof of {} gates made with {} is refused with {}", curve, gates, n1, n2));
            }
        }
    }
}

fn main() {
    let ctx = Ctx::new("C20", "exploration");
    ctx.note("rule", "every growth sequence over a set of sizes up to a depth, compared with a fresh larger set (G of every party; H through the first message of real proofs) at every prefix; everything handed out pairwise distinct up to sign, small multiples and sums of two; parameters compared over all pairs of sizes, both sides of the cycle and threads; proofs interchanged between all pairs of ways of building the generators");
    type Pa = ark_pallas::PallasConfig;
    type Ve = ark_vesta::VestaConfig;
    type Se = ark_secp256k1::Config;
    type Sq = ark_secq256k1::Config;
    #[derive(Debug)]
    enum Case {
        Growth(usize, usize),
        Distinct(usize),
        Parties,
        Parameters(usize),
        Interchange(usize),
    }
    let mut cases = vec![Case::Parties];
    for c in 0..6 {
        cases.push(Case::Distinct(c));
        cases.push(Case::Interchange(c));
    }
    for c in 0..6 {
        for first in [0usize, 1, 2, 3, 5, 8] {
            cases.push(Case::Growth(c, first));
        }
    }
    for c in 0..4 {
        cases.push(Case::Parameters(c));
    }
    ctx.note("bounds", "growth through 0,1,2,3,4,7,8,16 up to 3 steps (toy curves; thorough 4) or 2 steps (pallas, vesta, secp256k1, secq256k1), 3 parties; 65600 parties on the toy curve");
    ctx.cases(&cases, |c| format!("{:?}", c), |c| {
        macro_rules! on {
            ($c:expr, $f:ident($($a:expr),*)) => {
                match $c {
                    0 => $f::<m60::Even>(ctx, "m60" $(, $a)*),
                    1 => $f::<m126::Odd>(ctx, "m126" $(, $a)*),
                    2 => $f::<Pa>(ctx, "pallas" $(, $a)*),
                    3 => $f::<Ve>(ctx, "vesta" $(, $a)*),
                    4 => $f::<Se>(ctx, "secp256k1" $(, $a)*),
                    _ => $f::<Sq>(ctx, "secq256k1" $(, $a)*),
                }
            };
        }
        match c {
            Case::Growth(c, first) => {
                let toy = *c < 2;
                let sizes: &[usize] = if toy { &[0, 1, 2, 3, 4, 7, 8, 16] } else { ctx.pick(&[0, 2, 3, 8], &[0, 1, 2, 3, 4, 7, 8, 16]) };
                let depth = if toy { ctx.pick(2, 3) } else { 2 } + (*c == 0) as usize;
                on!(*c, growth(*first, sizes, depth, 3))
            }
            Case::Distinct(c) => {
                let (n, parties, wide) = if *c < 2 { (ctx.pick(1 << 14, 1 << 16), ctx.pick(600, 3000), 8) } else { (ctx.pick(1 << 12, 1 << 15), ctx.pick(300, 1000), 3) };
                match c {
                    0 => distinct::<m60::Even, m60::Odd>(ctx, "m60", 1 << 10, parties, wide, 1),
                    1 => distinct::<m126::Odd, m126::Even>(ctx, "m126", n, parties, wide, 4),
                    2 => distinct::<Pa, Ve>(ctx, "pallas", n, parties, wide, 8),
                    3 => distinct::<Ve, Pa>(ctx, "vesta", n, parties, wide, 8),
                    4 => distinct::<Se, Sq>(ctx, "secp256k1", n, parties, wide, 8),
                    _ => distinct::<Sq, Se>(ctx, "secq256k1", n, parties, wide, 8),
                }
            }
            Case::Parties => distinct::<m126::Even, m126::Odd>(ctx, "m126 many parties", 64, 65600, 1, 1),
            Case::Parameters(0) => parameters::<m61::Even, m61::Odd>(ctx, "m61"),
            Case::Parameters(1) => parameters::<m62::Even, m62::Odd>(ctx, "m62"),
            Case::Parameters(2) => parameters::<Pa, Ve>(ctx, "pallas/vesta"),
            Case::Parameters(_) => parameters::<Se, Sq>(ctx, "secp256k1/secq256k1"),
            Case::Interchange(c) => on!(*c, interchange()),
        }
    });
    ctx.finish();
}
