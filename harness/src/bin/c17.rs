//! C17: honest coins can be minted and spent.
use ark_ec::short_weierstrass::{Affine, Projective, SWCurveConfig};
use ark_ec::CurveGroup;
use ark_ff::{One, PrimeField, UniformRand, Zero};
use ark_serialize::CanonicalSerialize;
use bulletproofs::r1cs::*;
use ctmc::coins::*;
use ctmc::curves::m126;
use ctmc::{guarded, Ctx};
use merlin::Transcript;
use rand::RngCore;
use relations::coin::*;
use relations::curve_tree::*;

const MAX: u64 = u64::MAX;

/// The stream of another generator, recorded.
struct Tape(Vec<u8>);
impl RngCore for Tape {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        rand::thread_rng().fill_bytes(d);
        self.0.extend_from_slice(d);
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
struct Replay<'a>(&'a [u8], usize);
impl<'a> RngCore for Replay<'a> {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for x in d {
            *x = self.0.get(self.1).copied().unwrap_or(0);
            self.1 += 1;
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}

macro_rules! wh {
    ($(#[$m:meta])* fn $name:ident<$(const $c:ident),*>($($a:ident: $t:ty),* $(,)?) $(-> $r:ty)? $b:block) => {
        $(#[$m])*
        #[allow(clippy::too_many_arguments)]
        fn $name<$(const $c: usize,)* F0: PrimeField, F1: PrimeField, P0: SWCurveConfig<BaseField = F1, ScalarField = F0> + Copy + Send + Sync, P1: SWCurveConfig<BaseField = F0, ScalarField = F1> + Copy + Send + Sync, C: CurveGroup>($($a: $t),*) $(-> $r)? $b
    };
}

wh! {
    /// The opening of a minted output, from the randomness of its maker.
    fn recover<>(w: &World<P0, P1, C>, value: u64, k: &Keys<C>, target: Affine<P0>, tape: &[u8]) -> Option<Coin<P0, C>> {
        let offsets: Vec<usize> = (0..tape.len()).step_by(8).collect();
        // the order in which the randomness is used is the maker's business: look everywhere
        let firsts: Vec<(C::ScalarField, F0)> = offsets.iter().map(|o| (C::ScalarField::rand(&mut Replay(tape, *o)), F0::rand(&mut Replay(tape, *o)))).collect();
        for (pk_randomness, _) in &firsts {
            let tag = w.tag(&Coin::<P0, C>::rerandomized_pk(&k.pk, pk_randomness, &w.sig));
            let base = w.pr.even_parameters.commit(&[F0::from(value), tag], F0::zero(), 0);
            for (_, blinding) in &firsts {
                if (w.pr.even_parameters.pc_gens.B_blinding * blinding + base).into_affine() == target {
                    return Some(Coin { value, tag, blinding: *blinding, pk_randomness: *pk_randomness });
                }
            }
        }
        None
    }
}

wh! {
    fn mint<>(ctx: &'static Ctx, curve: &str, w: &World<P0, P1, C>, value: u64) {
        let key = format!("{} mint {}", curve, value);
        ctx.eval(Some(&key));
        let k = w.keys();
        let (mut e, _) = w.provers();
        let r = guarded(|| {
            let (coin, c, v) = Coin::<P0, C>::mint(value, &k.pk, &w.sig, &w.pr.even_parameters, &mut rand::thread_rng(), &mut e);
            // the returned variable is the amount
            e.constrain(v - F0::from(value));
            (coin, c, e.prove(&w.pr.even_parameters.bp_gens))
        });
        let (coin, c, proof) = match r {
            Ok((a, b, Ok(p))) => (a, b, p),
            Ok((_, _, Err(x))) => return ctx.violation("mint-not-proven", format!("{}: {:?}", key, x)),
            Err(x) => return ctx.violation("mint-not-proven", format!("{}: panic {}", key, x)),
        };
        ctx.require(coin.value == value && c == w.pr.even_parameters.commit(&[F0::from(value), coin.tag], coin.blinding, 0), "mint-opening", || format!("{}: the coin does not open the commitment", key));
        ctx.require(coin.tag == w.tag(&Coin::<P0, C>::rerandomized_pk(&k.pk, &coin.pk_randomness, &w.sig)), "mint-tag", || format!("{}: the tag is not the hash of the randomized key", key));
        let r = guarded(|| {
            let mut v = Verifier::new(Transcript::new(DOMAIN));
            let amount = verify_mint(&mut v, c);
            v.constrain(amount - F0::from(value));
            v.verify(&proof, &w.pr.even_parameters.pc_gens, &w.pr.even_parameters.bp_gens)
        });
        ctx.require(matches!(r, Ok(Ok(()))), "mint-rejected", || format!("{}: {:?}", key, r));
        ctx.sample_cat("mint", || key.clone());
    }
}

wh! {
    /// All positions, splits and keys of a tree of coins.
    fn pours<const L>(ctx: &'static Ctx, curve: &str, w: &World<P0, P1, C>, n: usize, h: usize, values: &[(u64, u64)], outs: &[Vec<(u64, u64)>], positions: &[(usize, usize)], again: bool) {
        let ks = [w.keys(), w.keys()];
        for (vi, (a, b)) in values.iter().enumerate() {
            for &(i, j) in positions {
                let mut set = ctmc::rel::leaves::<P0>(n, 5);
                let (ca, xa) = w.coin(*a, &ks[0].pk);
                let (cb, xb) = w.coin(*b, &ks[1].pk);
                set[i] = xa;
                set[j] = xb;
                let same = i == j; // then both inputs are the second coin
                let t = CurveTree::<L, 1, P0, P1>::from_set(&set, w.pr, Some(h));
                let (s0, s1) = (if same { w.spending(j, &cb, &ks[1]) } else { w.spending(i, &ca, &ks[0]) }, w.spending(j, &cb, &ks[1]));
                for (x, y) in &outs[vi] {
                    let key = format!("{} L={} n={} height {} coins {} at {} and {} at {} into {} and {}", curve, L, n, h, a, i, b, j, x, y);
                    ctx.eval(Some(&key));
                    let receivers = [ks[1].clone(), w.keys()];
                    let mut tape = Tape(vec![]);
                    let tx = match w.pour(&t, [&s0, &s1], [(*x, receivers[0].pk), (*y, receivers[1].pk)], &mut tape) {
                        Ok(tx) => tx,
                        Err(e) => {
                            ctx.violation("not-proven", format!("{}: {}", key, e));
                            continue;
                        }
                    };
                    if let Err(e) = w.verify(&t, &tx, DOMAIN) {
                        ctx.violation("rejected", format!("{}: {}", key, e));
                        continue;
                    }
                    // over the wire
                    let mut bytes = vec![];
                    tx.serialize_compressed(&mut bytes).unwrap();
                    let back = guarded(|| <SignedTx<P0, P1, C> as ark_serialize::CanonicalDeserialize>::deserialize_compressed(bytes.as_slice()));
                    match back {
                        Ok(Ok(back)) => ctx.require(w.verify(&t, &back, DOMAIN).is_ok(), "rejected", || format!("{}: rejected after transmission", key)),
                        _ => ctx.violation("rejected", format!("{}: does not decode", key)),
                    }
                    let open = w.open::<L>(&tx);
                    ctx.require(open.pour.pk0 == s0.randomized_pk && open.pour.pk1 == s1.randomized_pk, "keys", || format!("{}: other keys revealed", key));
                    if !again {
                        continue;
                    }
                    // the recipients, given the maker's randomness, spend the outputs in a later tree
                    let cs = [open.pour.minted_coin_commitment_0, open.pour.minted_coin_commitment_1];
                    let coins = [recover(w, *x, &receivers[0], cs[0], &tape.0), recover(w, *y, &receivers[1], cs[1], &tape.0)];
                    let [Some(c0), Some(c1)] = coins else {
                        ctx.violation("output-opening", format!("{}: the outputs are not commitments to the values and receivers' tags under the maker's randomness", key));
                        continue;
                    };
                    let mut set2 = set.clone();
                    set2.extend(cs);
                    let t2 = CurveTree::<L, 1, P0, P1>::from_set(&set2, w.pr, Some(h));
                    let tot = *x as u128 + *y as u128;
                    let z = (tot / 2) as u64;
                    ctx.eval(None);
                    ctx.add("respent", 1);
                    let r = w.pour(&t2, [&w.spending(n + 1, &c1, &receivers[1]), &w.spending(n, &c0, &receivers[0])], [(z, ks[0].pk), ((tot - z as u128) as u64, ks[0].pk)], &mut rand::thread_rng()).and_then(|tx| w.verify(&t2, &tx, DOMAIN));
                    ctx.require(r.is_ok(), "respend", || format!("{}: outputs cannot be spent: {:?}", key, r));
                }
            }
        }
        ctx.sample_cat(&format!("pour {} L{}", curve, L), || format!("{} coins, height {}, values {:?}", n, h, values));
    }
}

wh! {
    /// Special key randomizations and blindings.
    fn special<const L>(ctx: &'static Ctx, curve: &str, w: &World<P0, P1, C>) {
        let k = w.keys();
        let one = C::ScalarField::one();
        let rs = [C::ScalarField::zero(), one, -one, C::ScalarField::from(2u64), C::ScalarField::from(256u64), C::ScalarField::from(1u64 << 63), -C::ScalarField::from(128u64)];
        let bs = [F0::zero(), F0::one(), -F0::one()];
        for (q, r) in rs.iter().enumerate() {
            let b = bs[q % 3];
            let key = format!("{} L={} coin with key randomization {} and blinding {}", curve, L, r, b);
            ctx.eval(Some(&key));
            let (c0, x0) = w.coin_with(5, &k.pk, *r, b);
            let (c1, x1) = w.coin_with(6, &k.pk, -*r + one, -b);
            let t = CurveTree::<L, 1, P0, P1>::from_set(&[x0, x1], w.pr, Some(1));
            let res = w.pour(&t, [&w.spending(0, &c0, &k), &w.spending(1, &c1, &k)], [(11, k.pk), (0, k.pk)], &mut rand::thread_rng()).and_then(|tx| w.verify(&t, &tx, DOMAIN));
            ctx.require(res.is_ok(), "special", || format!("{}: {:?}", key, res));
        }
    }
}

/// All splits of a + b over an alphabet of boundary values.
fn splits(a: u64, b: u64) -> Vec<(u64, u64)> {
    let tot = a as u128 + b as u128;
    let mut r = vec![];
    for x in [0u64, 1, a, b, 1 << 32, 1 << 63, MAX - 1, MAX, (tot / 2) as u64, (tot.saturating_sub(1)).min(MAX as u128) as u64, tot.min(MAX as u128) as u64, tot.saturating_sub(MAX as u128) as u64] {
        if (x as u128) <= tot && tot - x as u128 <= MAX as u128 && !r.contains(&(x, (tot - x as u128) as u64)) {
            r.push((x, (tot - x as u128) as u64));
        }
    }
    r
}

fn main() {
    let ctx = Ctx::new("C17", "exploration");
    ctx.note("rule", "mint: every boundary value; pour: every ordered pair of positions (including the same coin twice) for every small tree, every split of boundary amounts over boundary amounts, every height and branching factor of a list; outputs respent in a later tree by recovering their openings from the maker's randomness; special key randomizations and blindings");
    let pr126 = SelRerandParameters::<m126::Even, m126::Odd>::new(4096, 4096);
    type Pa = ark_pallas::PallasConfig;
    type Ve = ark_vesta::VestaConfig;
    type Se = ark_secp256k1::Config;
    type Sq = ark_secq256k1::Config;
    let prp = SelRerandParameters::<Pa, Ve>::new(4096, 4096);
    let prs = SelRerandParameters::<Se, Sq>::new(4096, 4096);
    let w126 = World::<_, _, Projective<m126::Even>>::new(&pr126);
    let w126b = World::<_, _, Projective<m126::Odd>>::new(&pr126);
    let wp = World::<_, _, Projective<Pa>>::new(&prp);
    let ws = World::<_, _, Projective<Sq>>::new(&prs);
    #[derive(Debug, Clone)]
    enum Case {
        Mint(usize, u64),
        /// curve, L, n, h, positions, pairs of values, respend
        Pour(usize, usize, usize, usize, (usize, usize), (u64, u64), (u64, u64), bool),
        Special(usize),
    }
    use Case::*;
    let mut cases = vec![];
    let bound: Vec<u64> = vec![0, 1, 2, 19, 255, 256, 1 << 31, 1 << 32, (1 << 32) - 1, 1 << 62, (1 << 63) - 1, 1 << 63, MAX - 1, MAX];
    for c in 0..4 {
        for (i, v) in bound.iter().enumerate() {
            if c < 2 || i % 4 == 1 || i + 1 == bound.len() || ctx.thorough() {
                cases.push(Mint(c, *v));
            }
        }
    }
    // every value split at height 1
    let vals: Vec<(u64, u64)> = if ctx.quick { vec![(0, 0), (5, 7), (MAX, 0), (MAX, MAX)] } else {
        let a = [0u64, 1, 5, 1 << 32, 1 << 63, MAX - 1, MAX];
        a.iter().flat_map(|x| a.iter().map(move |y| (*x, *y))).collect()
    };
    for (a, b) in vals {
        for s in splits(a, b) {
            cases.push(Pour(0, 2, 2, 1, (0, 1), (a, b), s, false));
        }
    }
    // every pair of positions
    let minh = |l: usize, n: usize| { let (mut h, mut c) = (0usize, 1); while c < n { c *= l; h += 1 } h.max(1) };
    for (l, nmax, extra) in ctx.pick(vec![(2usize, 3usize, 1usize), (3, 3, 0), (4, 2, 1), (64, 2, 0), (1024, 2, 0)], vec![(2, 6, 2), (3, 5, 1), (4, 5, 1), (64, 3, 1), (1024, 3, 0)]) {
        for n in 1..=nmax {
            for h in minh(l, n)..=minh(l, n) + extra {
                for i in 0..n {
                    for j in 0..n {
                        if ctx.quick && l > 4 && i >= j {
                            continue;
                        }
                        cases.push(Pour(0, l, n, h, (i, j), (19, 23), (11, if i == j { 35 } else { 31 }), ctx.thorough() || n == 2));
                    }
                }
            }
        }
    }
    for h in 1..=ctx.pick(2, 4) {
        // a tree of one coin and branching factor 1
        cases.push(Pour(0, 1, 1, h, (0, 0), (19, 23), (46, 0), false));
        cases.push(Pour(1, 2, 2, h, (1, 0), (19, 23), (42, 0), true));
        cases.push(Pour(2, 2, 2, h, (1, 0), (MAX, 23), (MAX, 23), h == 1));
        if h == 1 || ctx.thorough() {
            cases.push(Pour(3, 2, 2, h, (1, 0), (0, MAX), (MAX - 1, 1), h == 1));
        }
    }
    for c in 0..ctx.pick(2, 4) {
        cases.push(Special(c));
    }
    cases.sort_by_key(|c| match c { Pour(c, l, _, h, ..) => -((*h * 10 + c * 50 + l / 100) as i64), Special(c) => -60 - 50 * *c as i64, Mint(..) => 0 });
    ctx.note("bounds", "126-bit toy cycle (signature group on either curve), pallas/vesta, secp/secq; L in 1,2,3,4,64,1024; up to 3 (thorough 6) coins; heights up to 3 (thorough 5); amounts from 0,1,5,2^32,2^63,2^64-2,2^64-1");
    ctx.cases(&cases, |c| format!("{:?}", c), |c| {
        match c {
            Mint(0, v) => mint(ctx, "m126", &w126, *v),
            Mint(1, v) => mint(ctx, "m126'", &w126b, *v),
            Mint(2, v) => mint(ctx, "pallas", &wp, *v),
            Mint(_, v) => mint(ctx, "secp", &ws, *v),
            Special(0) => special::<2, _, _, _, _, _>(ctx, "m126", &w126),
            Special(1) => special::<2, _, _, _, _, _>(ctx, "m126'", &w126b),
            Special(2) => special::<2, _, _, _, _, _>(ctx, "pallas", &wp),
            Special(_) => special::<2, _, _, _, _, _>(ctx, "secp", &ws),
            Pour(c, l, n, h, p, v, s, again) => {
                let (vs, ss, ps) = ([*v], [vec![*s]], [*p]);
                macro_rules! go {
                    ($name:literal $w:ident $($l:literal)*) => {
                        match *l { $($l => pours::<$l, _, _, _, _, _>(ctx, $name, &$w, *n, *h, &vs, &ss, &ps, *again),)* x => panic!("no instance {}", x) }
                    };
                }
                match c {
                    0 => go!("m126" w126 1 2 3 4 64 1024),
                    1 => go!("m126'" w126b 2),
                    2 => go!("pallas" wp 2),
                    _ => go!("secp" ws 2),
                }
            }
        }
    });
    ctx.finish();
}
