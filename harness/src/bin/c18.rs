//! C18: a pour conserves value and needs the owners' keys.
use ark_crypto_primitives::signature::schnorr::{SecretKey, Signature};
use ark_ec::short_weierstrass::{Affine, Projective, SWCurveConfig};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{Field, One, PrimeField, UniformRand, Zero};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use ctmc::coins::*;
use ctmc::curves::m126;
use ctmc::{rel, Ctx};
use relations::coin::*;
use relations::curve_tree::*;

const MAX: u64 = u64::MAX;

macro_rules! wh {
    ($(#[$m:meta])* fn $name:ident<$(const $c:ident),*>($($a:ident: $t:ty),* $(,)?) $(-> $r:ty)? $b:block) => {
        $(#[$m])*
        #[allow(clippy::too_many_arguments)]
        fn $name<$(const $c: usize,)* F0: PrimeField, F1: PrimeField, P0: SWCurveConfig<BaseField = F1, ScalarField = F0> + Copy + Send + Sync, P1: SWCurveConfig<BaseField = F0, ScalarField = F1> + Copy + Send + Sync, C: CurveGroup>($($a: $t),*) $(-> $r)? $b
    };
}

/// Three coins of three owners in a tree, one coin outside.
struct Ledger<const L: usize, P0: SWCurveConfig + Copy, P1: SWCurveConfig + Copy, C: CurveGroup> {
    keys: Vec<Keys<C>>,
    coins: Vec<Coin<P0, C>>,
    set: Vec<Affine<P0>>,
    outside: (Coin<P0, C>, Affine<P0>),
    t: CurveTree<L, 1, P0, P1>,
    /// like t, but coin 0 is replaced by the outside coin
    u: CurveTree<L, 1, P0, P1>,
}
wh! {
    fn ledger<const L>(w: &World<P0, P1, C>, values: [u64; 2], h: usize) -> Ledger<L, P0, P1, C> {
        let keys: Vec<_> = (0..4).map(|_| w.keys()).collect();
        let n = if L.pow(h as u32) > 2 { 3 } else { 2 };
        let vals = [values[0], values[1], 1000];
        let (coins, set): (Vec<_>, Vec<_>) = (0..n).map(|i| w.coin(vals[i], &keys[i].pk)).unzip();
        let outside = w.coin(vals[0], &keys[0].pk);
        let t = CurveTree::from_set(&set, w.pr, Some(h));
        let mut other = set.clone();
        other[0] = outside.1;
        let u = CurveTree::from_set(&other, w.pr, Some(h));
        Ledger { keys, coins, set, outside, t, u }
    }
}

wh! {
    fn refused<const L>(ctx: &'static Ctx, w: &World<P0, P1, C>, t: &CurveTree<L, 1, P0, P1>, tx: &Tx<L, P0, P1, C>, key: &str, what: &dyn Fn() -> String) {
        ctx.eval(Some(&what()));
        if w.verify_tx(t, tx).is_ok() {
            ctx.violation(key, format!("{}: accepted", what()));
        }
    }
}

wh! {
    /// Dishonest spenders who play the circuits with wrong witnesses.
    fn cheats<const L>(ctx: &'static Ctx, curve: &str, w: &World<P0, P1, C>, values: [u64; 2], h: usize, part: usize) {
        let l = ledger::<L, _, _, _, _, _>(w, values, h);
        let name = format!("{} L={} height {} coins {:?}", curve, L, h, values);
        let total = F0::from(values[0]) + F0::from(values[1]);
        let two64 = F0::from(1u128 << 64);
        let out = |v: F0, bits: u64, k: usize| { let rng = &mut rand::thread_rng(); Out { value: v, bits, tag: w.tag(&l.keys[k].pk), blinding: F0::rand(rng) } };
        // any split of the total whose parts are in range
        let x0 = values[0];
        let honest_outs = || [out(F0::from(x0), x0, 2), out(F0::from(values[1]), values[1], 3)];
        let input = |i: usize| w.input(&l.t, i, &l.coins[i], &l.keys[i]);
        let honest = [input(0), input(1)];
        let mut count = 0usize;
        let mut mine = || { count += 1; count % 8 == part };
        if part == 0 {
            let r = w.play([&honest[0], &honest[1]], &honest_outs()).and_then(|tx| w.verify_tx(&l.t, &tx));
            ctx.eval(None);
            ctx.add("positive_controls", r.is_ok() as u64);
            ctx.require(r.is_ok(), "honest-rejected", || format!("{}: {:?}", name, r));
        }
        let go = |ins: [&In<L, P0, P1, C>; 2], outs: &[Out<F0>; 2], key: &str, what: &dyn Fn() -> String| {
            match w.play(ins, outs) {
                Ok(tx) => {
                    ctx.add("cheats", 1);
                    refused(ctx, w, &l.t, &tx, key, &|| format!("{}: {}", name, what()))
                }
                Err(_) => ctx.add("witness_not_computable", 1),
            }
        };
        // amounts: neither balanced nor in range, in every way of a list
        let low = |v: F0| -> u64 { v.into_bigint().as_ref()[0] };
        let one = F0::one();
        let mut amounts: Vec<(F0, F0, &str)> = vec![];
        for d in [one, -one, F0::from(2u64), F0::from(1u64 << 32), F0::from(1u64 << 63), F0::from(MAX), two64, -two64] {
            amounts.push((F0::from(x0) + d, F0::from(values[1]), "first output changed"));
            amounts.push((F0::from(x0), F0::from(values[1]) + d, "second output changed"));
            amounts.push((F0::from(x0) + d, F0::from(values[1]) + d, "both outputs changed"));
        }
        for v in [-one, -F0::from(MAX), -two64, two64, two64 + one, two64.double(), total + one, one / F0::from(2u64), -(one / F0::from(2u64)), F0::from(1u128 << 96), one / F0::from(3u64)] {
            amounts.push((v, total - v, "balanced, but out of range"));
            amounts.push((total - v, v, "balanced, but out of range"));
        }
        amounts.push((total, total, "everything twice"));
        amounts.push((total - two64, F0::zero(), "modulo 2^64"));
        amounts.push((total + two64, F0::zero(), "modulo 2^64"));
        amounts.push((F0::zero(), F0::zero(), "nothing"));
        for (a, b, why) in amounts {
            let small = |v: F0| v.into_bigint() <= F0::from(MAX).into_bigint();
            if a + b == total && small(a) && small(b) {
                continue; // a proper split
            }
            for bits in [[low(a), low(b)], [0, 0], [MAX, MAX], [low(-a), low(-b)]] {
                if mine() {
                    go([&honest[0], &honest[1]], &[out(a, bits[0], 2), out(b, bits[1], 3)], "value", &|| format!("{}: {} and {} with bits {:?}", why, a, b, bits));
                }
            }
        }
        for pos in 0..2 {
            for expose in [false, true] {
                let mk = || { let mut i = input(pos); i.expose_opened = expose; i };
                let pair = |i: In<L, P0, P1, C>, outs: [Out<F0>; 2], key: &str, what: &dyn Fn() -> String| {
                    let o = input(1 - pos);
                    if pos == 0 { go([&i, &o], &outs, key, what) } else { go([&o, &i], &outs, key, what) }
                };
                let at = |what: &str| format!("input {}: {}{}", pos, what, if expose { ", exposing the claimed opening" } else { "" });
                // another amount than the coin's, balanced accordingly
                for d in [one, -one, F0::from(1u64 << 32), two64, -F0::from(values[pos])] {
                    if !d.is_zero() && mine() {
                        let mut i = mk();
                        i.open[0] += d;
                        let outs = [out(F0::from(x0) + d, low(F0::from(x0) + d), 2), out(F0::from(values[1]), values[1], 3)];
                        pair(i, outs, "opened-value", &|| at(&format!("claims {} more than the coin", d)));
                    }
                }
                // every other key, with or without the tag to go with it
                for k in 0..4 {
                    let other = w.input(&l.t, 0, l.coins.get(k).unwrap_or(&l.coins[0]), &l.keys[k]);
                    for (pk, key, randomize, how) in [(other.pk, l.keys[k].sk.clone(), other.randomize, "randomized key"), (l.keys[k].pk, l.keys[k].sk.clone(), None, "plain key")] {
                        let tag = w.tag(&pk);
                        if tag == l.coins[pos].tag {
                            continue;
                        }
                        for claim in [false, true] {
                            if mine() {
                                let mut i = mk();
                                i.pk = pk;
                                i.key = key.clone();
                                i.randomize = randomize;
                                if claim {
                                    i.open[1] = tag;
                                }
                                pair(i, honest_outs(), "tag", &|| at(&format!("reveals the {} of owner {}{}", how, k, if claim { " and claims its tag" } else { "" })));
                            }
                        }
                    }
                }
                // keys with known discrete logarithm
                for sk in [C::ScalarField::zero(), C::ScalarField::one(), -C::ScalarField::one()] {
                    if mine() {
                        let mut i = mk();
                        i.pk = (w.sig.generator * sk).into_affine();
                        i.key = SecretKey(sk);
                        i.randomize = None;
                        i.open[1] = w.tag(&i.pk);
                        pair(i, honest_outs(), "tag", &|| at(&format!("reveals the key of {}", sk)));
                    }
                }
                // a coin opened at another position, of another tree, with another blinding
                for j in 0..l.coins.len() {
                    if j != pos && mine() {
                        let mut i = mk();
                        i.index = j;
                        pair(i, honest_outs(), "membership", &|| at(&format!("opened at position {}", j)));
                    }
                }
                if mine() {
                    let mut i = mk();
                    i.blinding += one;
                    pair(i, honest_outs(), "membership", &|| at("other blinding"));
                }
            }
        }
        // a coin that is not in the tree
        for pos in 0..2 {
            for both in [false, true] {
                if !mine() {
                    continue;
                }
                let foreign = w.input(&l.u, 0, &l.outside.0, &l.keys[0]);
                let mut other = input(1);
                if both {
                    other.tree = &l.u;
                }
                let what = || format!("a coin outside the tree as input {}{}", pos, if both { ", the other coin also shown in that tree" } else { "" });
                if pos == 0 { go([&foreign, &other], &honest_outs(), "membership", &what) } else { go([&other, &foreign], &honest_outs(), "membership", &what) }
            }
        }
        // signatures of somebody else
        for pos in 0..2 {
            for k in 0..4 {
                for r in 0..3 {
                    let mut i = [input(0), input(1)];
                    let own = i[pos].randomize;
                    i[pos].key = l.keys[k].sk.clone();
                    i[pos].randomize = [own, None, i[1 - pos].randomize][r];
                    if k == pos && r == 0 || !mine() {
                        continue;
                    }
                    go([&i[0], &i[1]], &honest_outs(), "signature", &|| format!("input {} signed by owner {}, randomization {}", pos, k, ["own", "none", "of the other"][r]));
                }
            }
        }
        ctx.sample_cat(&format!("cheats {} L{}", curve, L), || name.clone());
    }
}

wh! {
    /// Changes of accepted transactions.
    fn objects<const L>(ctx: &'static Ctx, curve: &str, w: &World<P0, P1, C>, h: usize, part: usize) {
        let l = ledger::<L, _, _, _, _, _>(w, [19, 23], h);
        let name = format!("{} L={} height {}", curve, L, h);
        let rng = &mut rand::thread_rng();
        let s = |i: usize| w.spending(i, &l.coins[i], &l.keys[i]);
        let (k2, k3) = (l.keys[2].pk, l.keys[3].pk);
        // (description, tree, inputs, outputs)
        let mut txs: Vec<(Tx<L, P0, P1, C>, [usize; 2])> = vec![];
        let mut plan: Vec<([usize; 2], [u64; 2], bool)> = vec![([0, 1], [11, 31], false), ([0, 1], [11, 31], false), ([1, 0], [11, 31], false), ([0, 1], [31, 11], false), ([0, 1], [11, 31], true)];
        if l.coins.len() > 2 {
            plan.push(([0, 2], [1000, 19], false));
        }
        for (i, o, foreign) in &plan {
            let (tree, s0) = if *foreign { (&l.u, w.spending(0, &l.outside.0, &l.keys[0])) } else { (&l.t, s(i[0])) };
            match w.pour(tree, [&s0, &s(i[1])], [(o[0], k2), (o[1], k3)], rng) {
                Ok(tx) => txs.push((w.open(&tx), *i)),
                Err(e) => return ctx.violation("honest-rejected", format!("{}: {}", name, e)),
            }
        }
        let pours: Vec<Vec<u8>> = txs.iter().map(|t| ser(&t.0.pour)).collect();
        for (q, (tx, _)) in txs.iter().enumerate() {
            let foreign = plan[q].2;
            ctx.eval(None);
            ctx.require(w.verify_tx(if foreign { &l.u } else { &l.t }, tx).is_ok(), "honest-rejected", || format!("{} transaction {}", name, q));
            // the same coin, the same tag, wherever and whenever
            for (p, (other, _)) in txs.iter().enumerate() {
                let keys = |t: &Tx<L, P0, P1, C>| [ser(&t.pour.pk0), ser(&t.pour.pk1)];
                for a in 0..2 {
                    for b in 0..2 {
                        let same = plan[q].0[a] == plan[p].0[b] && (plan[q].0[a] != 0 || plan[q].2 == plan[p].2);
                        ctx.require((keys(tx)[a] == keys(other)[b]) == same, "same-tag", || format!("{}: input {} of transaction {} and input {} of transaction {}", name, a, q, b, p));
                    }
                }
            }
        }
        let mut count = 0usize;
        let mut mine = || { count += 1; count % 8 == part };
        let accepted = |tx: &Tx<L, P0, P1, C>| { let b = ser(&tx.pour); pours.iter().zip(&plan).any(|(p, pl)| *p == b && !pl.2) };
        let resign = |tx: &mut Tx<L, P0, P1, C>, who: [usize; 2], foreign: [bool; 2]| {
            let b = ser(&tx.pour);
            for i in 0..2 {
                let coin = if foreign[i] && who[i] == 0 { &l.outside.0 } else { &l.coins[who[i]] };
                tx.sigs[i] = w.sign(&b, &l.keys[who[i]].sk, Some(coin.pk_randomness));
            }
        };
        let copy = |t: &Tx<L, P0, P1, C>| Tx { pour: t.pour.clone(), sigs: [0, 1].map(|i| Signature { prover_response: t.sigs[i].prover_response, verifier_challenge: t.sigs[i].verifier_challenge }) };
        // all mixtures of the fields of two transactions, signed anew by the revealed keys' owners
        for (a, (x, wx)) in txs.iter().enumerate() {
            for (b, (y, wy)) in txs.iter().enumerate() {
                if a == b || plan[a].2 || ctx.quick && a > 0 {
                    continue;
                }
                for mask in 1..255u32 {
                    if ctx.quick && b > 1 && mask.count_ones() > 2 && mask.count_ones() < 6 || !mine() {
                        continue;
                    }
                    let mut t = copy(x);
                    let mut who = *wx;
                    let mut foreign = [false; 2];
                    let p = &mut t.pour;
                    let bit = |i: u32| mask >> i & 1 == 1;
                    if bit(0) { p.even_proof = y.pour.even_proof.clone() }
                    if bit(1) { p.odd_proof = y.pour.odd_proof.clone() }
                    if bit(2) { p.randomized_path_0 = y.pour.randomized_path_0.clone() }
                    if bit(3) { p.randomized_path_1 = y.pour.randomized_path_1.clone() }
                    if bit(4) { p.pk0 = y.pour.pk0; who[0] = wy[0]; foreign[0] = plan[b].2 }
                    if bit(5) { p.pk1 = y.pour.pk1; who[1] = wy[1]; foreign[1] = plan[b].2 }
                    if bit(6) { p.minted_coin_commitment_0 = y.pour.minted_coin_commitment_0 }
                    if bit(7) { p.minted_coin_commitment_1 = y.pour.minted_coin_commitment_1 }
                    if accepted(&t) {
                        continue;
                    }
                    resign(&mut t, who, foreign);
                    refused(ctx, w, &l.t, &t, "mixture", &|| format!("{}: fields {:08b} of transaction {} in transaction {}, signed anew", name, mask, b, a));
                }
            }
        }
        let (x, wx) = &txs[0];
        let hb = w.pr.even_parameters.pc_gens.B_blinding;
        let g0 = w.pr.even_parameters.bp_gens.share(0).G(1).next().copied().unwrap();
        // each field changed, signed anew
        {
            let p = &x.pour;
            let mut vars: Vec<(String, Pour<L, P0, P1, C>)> = vec![];
            let mut v = |n: String, f: &dyn Fn(&mut Pour<L, P0, P1, C>)| { let mut q = p.clone(); f(&mut q); vars.push((n, q)) };
            v("outputs exchanged".into(), &|q| std::mem::swap(&mut q.minted_coin_commitment_0, &mut q.minted_coin_commitment_1));
            v("paths exchanged".into(), &|q| std::mem::swap(&mut q.randomized_path_0, &mut q.randomized_path_1));
            v("first path twice".into(), &|q| q.randomized_path_1 = q.randomized_path_0.clone());
            v("second path twice".into(), &|q| q.randomized_path_0 = q.randomized_path_1.clone());
            v("same output twice".into(), &|q| q.minted_coin_commitment_1 = q.minted_coin_commitment_0);
            for (n, pt) in [("generator", Affine::<P0>::generator()), ("neutral", Affine::zero()), ("H", hb), ("a coin", l.set[0])] {
                v(format!("first output is {}", n), &|q| q.minted_coin_commitment_0 = pt);
                v(format!("second output is {}", n), &|q| q.minted_coin_commitment_1 = pt);
            }
            for d in [g0, hb] {
                for (n, d) in [("plus", d), ("minus", (-d.into_group()).into_affine())] {
                    let f = |a: &mut Affine<P0>| *a = (*a + d).into_affine();
                    let b = |a: &mut Affine<P0>| *a = (a.into_group() - d.into_group()).into_affine();
                    v(format!("first output {} {:?}", n, d), &|q| f(&mut q.minted_coin_commitment_0));
                    v(format!("second output {} {:?}", n, d), &|q| f(&mut q.minted_coin_commitment_1));
                    v(format!("amount moved between outputs {} {:?}", n, d), &|q| { f(&mut q.minted_coin_commitment_0); b(&mut q.minted_coin_commitment_1) });
                    v(format!("first input {} {:?}", n, d), &|q| f(&mut q.randomized_path_0.selected_commitment));
                    v(format!("second input {} {:?}", n, d), &|q| f(&mut q.randomized_path_1.selected_commitment));
                    v(format!("first input and output {} {:?}", n, d), &|q| { f(&mut q.randomized_path_0.selected_commitment); f(&mut q.minted_coin_commitment_0) });
                    v(format!("both inputs {} {:?}", n, d), &|q| { f(&mut q.randomized_path_0.selected_commitment); b(&mut q.randomized_path_1.selected_commitment) });
                }
            }
            for i in 0..2 {
                for k in 0..2 {
                    v(format!("path {} lacks commitment {}", i, k), &|q| {
                        let p = if i == 0 { &mut q.randomized_path_0 } else { &mut q.randomized_path_1 };
                        if k == 0 { p.even_commitments.pop(); } else { p.odd_commitments.pop(); }
                        if p.even_commitments.len() + p.odd_commitments.len() == x.pour.randomized_path_0.even_commitments.len() + x.pour.randomized_path_0.odd_commitments.len() { p.even_commitments.push(Affine::generator()); }
                    });
                }
            }
            for (n, q) in vars {
                if mine() {
                    let mut t = copy(x);
                    t.pour = q;
                    resign(&mut t, *wx, [false; 2]);
                    refused(ctx, w, &l.t, &t, "field", &|| format!("{}: {}, signed anew", name, n));
                    let mut t2 = copy(x);
                    t2.pour = t.pour;
                    refused(ctx, w, &l.t, &t2, "unsigned-change", &|| format!("{}: {}, old signatures", name, n));
                }
            }
        }
        // keys replaced by each other key, signed by its owner
        for pos in 0..2 {
            for k in 0..4 {
                if !mine() {
                    continue;
                }
                let mut t = copy(x);
                if pos == 0 { t.pour.pk0 = l.keys[k].pk } else { t.pour.pk1 = l.keys[k].pk }
                resign(&mut t, *wx, [false; 2]);
                t.sigs[pos] = w.sign(&ser(&t.pour), &l.keys[k].sk, None);
                refused(ctx, w, &l.t, &t, "key", &|| format!("{}: key {} is that of owner {}, who signs", name, pos, k));
            }
        }
        // signatures
        let f = |i: u64| C::ScalarField::from(i);
        for pos in 0..2 {
            for field in 0..2 {
                let cur = if field == 0 { x.sigs[pos].prover_response } else { x.sigs[pos].verifier_challenge };
                let mut alt = vec![f(0), f(1), -f(1), cur + f(1), cur - f(1), -cur, cur.double()];
                for (t, _) in &txs {
                    for s in &t.sigs {
                        alt.extend([s.prover_response, s.verifier_challenge]);
                    }
                }
                for a in alt {
                    if a == cur || !mine() {
                        continue;
                    }
                    let mut t = copy(x);
                    if field == 0 { t.sigs[pos].prover_response = a } else { t.sigs[pos].verifier_challenge = a }
                    refused(ctx, w, &l.t, &t, "signature", &|| format!("{}: {} of signature {} replaced by {}", name, ["response", "challenge"][field], pos, a));
                }
            }
            for (b, (o, _)) in txs.iter().enumerate() {
                for from in 0..2 {
                    if b == 0 && from == pos || !mine() {
                        continue;
                    }
                    let mut t = copy(x);
                    t.sigs[pos] = copy(o).sigs[from].clone();
                    refused(ctx, w, &l.t, &t, "signature", &|| format!("{}: signature {} is signature {} of transaction {}", name, pos, from, b));
                }
            }
            for sig in [Signature { prover_response: f(0), verifier_challenge: f(0) }, Signature { prover_response: f(1), verifier_challenge: f(0) }] {
                if mine() {
                    let mut t = copy(x);
                    t.sigs[pos] = sig;
                    refused(ctx, w, &l.t, &t, "signature", &|| format!("{}: trivial signature {}", name, pos));
                }
            }
        }
        if mine() {
            let mut t = copy(x);
            t.sigs.swap(0, 1);
            refused(ctx, w, &l.t, &t, "signature", &|| format!("{}: signatures exchanged", name));
        }
        // every byte of the signed transaction
        {
            let tx = w.signed(pours[0].clone(), &x.sigs);
            let mut bytes = vec![];
            tx.serialize_compressed(&mut bytes).unwrap();
            for i in 0..bytes.len() {
                for b in 0..8 {
                    if ctx.quick && b != i % 8 || i % 8 != part {
                        continue;
                    }
                    let mut m = bytes.clone();
                    m[i] ^= 1 << b;
                    let what = format!("{}: bit {} of byte {} flipped", name, b, i);
                    ctx.eval(Some(&what));
                    ctx.add("bit_flips", 1);
                    // a changed length prefix may ask for any amount of memory
                    let len_field = bytes.len() - pours[0].len() - 8;
                    if i >= len_field && i < len_field + 8 && (i >= len_field + 4) {
                        continue;
                    }
                    if let Ok(Ok(t)) = ctmc::guarded(|| SignedTx::<P0, P1, C>::deserialize_compressed(m.as_slice())) {
                        ctx.require(w.verify(&l.t, &t, DOMAIN).is_err(), "bit-flip", || what.clone());
                    }
                }
            }
            if part == 0 {
                // wrong context
                let mut bigger = l.set.clone();
                bigger.push(l.outside.1);
                let higher = CurveTree::<L, 1, P0, P1>::from_set(&l.set, w.pr, Some(h + 1));
                let higher2 = CurveTree::<L, 1, P0, P1>::from_set(&l.set, w.pr, Some(h + 2));
                let wider = CurveTree::<L, 1, P0, P1>::from_set(&bigger, w.pr, Some(h));
                for (n, v) in [("a tree with another coin", &l.u), ("a higher tree", &higher), ("a much higher tree", &higher2), ("a larger tree", &wider)] {
                    ctx.eval(Some(n));
                    ctx.require(w.verify(v, &tx, DOMAIN).is_err(), "other-tree", || format!("{}: accepted in {}", name, n));
                }
                ctx.eval(None);
                ctx.require(w.verify(&l.t, &tx, b"another domain").is_err(), "context", || format!("{}: accepted in another domain", name));
                let w2 = World::<P0, P1, C>::new(w.pr);
                ctx.require(w2.verify(&l.t, &tx, DOMAIN).is_err(), "context", || format!("{}: accepted with other signature parameters", name));
                ctx.require(w.verify(&l.t, &tx, DOMAIN).is_ok(), "honest-rejected", || name.clone());
            }
        }
        ctx.sample_cat(&format!("objects {} L{}", curve, L), || name.clone());
    }
}

fn main() {
    let ctx = Ctx::new("C18", "fault_enumeration");
    ctx.note("rule", "(1) a dishonest spender plays the real circuits with every wrong amount of a list (unbalanced, out of range, wrapping), wrong openings, other owners' keys and tags, keys with known logarithm, coins outside the tree or at another position, signatures of anybody else; (2) accepted transactions with every mixture of two transactions' fields and every field changed (signed anew by the owners, or not), every signature component replaced, every bit flipped, other trees and contexts; (3) tags compared over all pairs of transactions. Honest transactions are positive controls");
    let pr126 = SelRerandParameters::<m126::Even, m126::Odd>::new(4096, 4096);
    type Pa = ark_pallas::PallasConfig;
    type Ve = ark_vesta::VestaConfig;
    let prp = SelRerandParameters::<Pa, Ve>::new(2048, 2048);
    let w126 = World::<_, _, Projective<m126::Even>>::new(&pr126);
    let wp = World::<_, _, Projective<Pa>>::new(&prp);
    // (curve, height, values, part) / objects
    let mut cases: Vec<(usize, usize, Option<[u64; 2]>, usize)> = vec![];
    for part in 0..8 {
        for h in 1..=ctx.pick(2, 3) {
            cases.push((0, h, Some([19, 23]), part));
            cases.push((0, h, None, part));
            if h == 1 || ctx.thorough() {
                cases.push((0, h, Some([MAX, MAX]), part));
                cases.push((0, h, Some([0, 5]), part));
            }
        }
        if ctx.thorough() || part == 3 {
            cases.push((1, 1, Some([19, 23]), part));
        }
        if ctx.thorough() {
            cases.push((1, 1, None, part));
        }
    }
    cases.sort_by_key(|c| std::cmp::Reverse((c.0, c.1)));
    ctx.note("bounds", "126-bit toy cycle, L=2, heights up to 2 (thorough 3), coins 19/23, 2^64-1 twice, 0/5; pallas/vesta at height 1");
    ctx.cases(&cases, |c| format!("{:?}", c), |&(c, h, values, part)| match (c, values) {
        (0, Some(v)) => cheats::<2, _, _, _, _, _>(ctx, "m126", &w126, v, h, part),
        (0, None) => objects::<2, _, _, _, _, _>(ctx, "m126", &w126, h, part),
        (_, Some(v)) => cheats::<2, _, _, _, _, _>(ctx, "pallas", &wp, v, h, part),
        (_, None) => objects::<2, _, _, _, _, _>(ctx, "pallas", &wp, h, part),
    });
    ctx.finish();
}
