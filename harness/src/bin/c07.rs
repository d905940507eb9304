//! C07: encodings round-trip and are canonical.
use ark_ec::short_weierstrass::{Affine, Projective, SWCurveConfig};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::PrimeField;
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, Compress, Valid, Validate, Write};
use bulletproofs::r1cs::*;
use bulletproofs::{BulletproofGens, PedersenGens};
use ctmc::circuit;
use ctmc::coins::*;
use ctmc::curves::{m126, m60, m61};
use ctmc::stmts::catalogue;
use ctmc::{guarded, rel, Ctx};
use merlin::Transcript;
use relations::coin::*;
use relations::curve_tree::*;

fn enc<T: CanonicalSerialize>(x: &T, c: Compress) -> Vec<u8> {
    let mut v = vec![];
    x.serialize_with_mode(&mut v, c).unwrap();
    v
}
/// A panic while decoding is not an error value.
fn dec<T: CanonicalDeserialize>(b: &[u8], c: Compress, v: Validate) -> Result<Result<T, ()>, String> {
    guarded(|| T::deserialize_with_mode(b, c, v).map_err(|_| ()))
}
/// A writer that takes at most k bytes at a time, and one that fails after k bytes.
struct Slow(Vec<u8>, usize);
impl Write for Slow {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.1);
        self.0.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
/// Writes of one byte, and of eight that make a small number: flags and counts.
struct Log(Vec<u8>, Vec<usize>);
impl Write for Log {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let at = self.0.len();
        if b.len() == 1 {
            self.1.push(at);
        } else if b.len() == 8 && b[2..] == [0; 6] {
            self.1.extend(at..at + 2);
        }
        self.0.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
struct Full(usize);
impl Write for Full {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.0);
        self.0 -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
struct Drip<'a>(&'a [u8]);
impl std::io::Read for Drip<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if b.is_empty() || self.0.is_empty() {
            return Ok(0);
        }
        b[0] = self.0[0];
        self.0 = &self.0[1..];
        Ok(1)
    }
}

/// Differences explained by the encoding of points in ark-ec: the neutral element's encoding ignores the
/// coordinates, and the uncompressed encoding ignores the sign flag.
fn of_ark(a: &[u8], b: &[u8], c: Compress, spill: bool) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let d: Vec<usize> = (0..a.len()).filter(|i| a[*i] != b[*i]).collect();
    let (lo, hi) = match (d.first(), d.last()) {
        (Some(l), Some(h)) => (*l, *h),
        _ => return true,
    };
    let neutral = hi - lo < 128 && (hi..(hi + 1).min(a.len())).all(|_| true) && {
        // the re-encoded side is zero up to the infinity flag
        let end = (hi..a.len()).find(|i| b[*i] & 0x40 != 0);
        matches!(end, Some(e) if b[e] == 0x40 && (lo..e).all(|i| b[i] == 0))
    };
    let sign = matches!(c, Compress::No) && d.iter().all(|i| a[*i] ^ b[*i] == 0x80);
    let spilled = spill && d.iter().all(|i| matches!(b[*i], 0 | 0x80 | 0x40));
    neutral || sign || spilled
}

#[derive(Clone)]
struct Load {
    /// every value of every byte, instead of every bit
    all_values: bool,
    /// every k-th byte only
    stride: usize,
    /// points take a byte more than their coordinates, whose other bits ark-ff ignores
    spill: bool,
    /// changed bytes: the part of a parallel exploration
    part: (usize, usize),
}

fn object<T: CanonicalSerialize + CanonicalDeserialize + Valid>(ctx: &'static Ctx, name: &str, x: &T, load: &Load, same: &dyn Fn(&T) -> Result<(), String>) {
    for c in [Compress::Yes, Compress::No] {
        let mode = if matches!(c, Compress::Yes) { "compressed" } else { "uncompressed" };
        let b = enc(x, c);
        ctx.eval(Some(&format!("{} {}", name, mode)));
        ctx.require(x.serialized_size(c) == b.len(), "size", || format!("{} {}: reports {} bytes, writes {}", name, mode, x.serialized_size(c), b.len()));
        ctx.require(guarded(|| x.check().is_ok()) == Ok(true), "check", || format!("{}: check() fails", name));
        for k in [1usize, 3, 7] {
            let mut w = Slow(vec![], k);
            let r = x.serialize_with_mode(&mut w, c);
            ctx.require(r.is_ok() && w.0 == b, "short-writes", || format!("{} {}: a writer that takes {} bytes at a time gets other bytes", name, mode, k));
        }
        for v in [Validate::Yes, Validate::No] {
            let r = dec::<T>(&b, c, v);
            match &r {
                Ok(Ok(y)) => {
                    ctx.require(enc(y, c) == b, "round-trip", || format!("{} {}: re-encodes to other bytes", name, mode));
                    ctx.require(y.serialized_size(c) == b.len(), "size", || format!("{} {}: decoded object reports {} bytes, has {}", name, mode, y.serialized_size(c), b.len()));
                    let o = if matches!(c, Compress::Yes) { Compress::No } else { Compress::Yes };
                    ctx.require(enc(y, o) == enc(x, o), "round-trip", || format!("{} {}: decoded object differs", name, mode));
                    let s = same(y);
                    ctx.eval(None);
                    ctx.require(s.is_ok(), "verdict", || format!("{} {}: decoded object does not verify: {:?}", name, mode, s));
                }
                _ => ctx.violation("round-trip", format!("{} {}: own encoding is refused", name, mode)),
            }
            // reading leaves what follows
            let mut more = b.clone();
            more.extend([0xabu8; 5]);
            let mut rest = &more[..];
            let r = guarded(|| T::deserialize_with_mode(&mut rest, c, v).is_ok());
            ctx.require(r == Ok(true) && rest.len() == 5, "consumes", || format!("{} {}: reads {} bytes of {}", name, mode, more.len() - rest.len(), b.len()));
        }
        let r = guarded(|| T::deserialize_with_mode(Drip(&b), c, Validate::Yes).map(|y| enc(&y, c) == b).unwrap_or(false));
        ctx.require(r == Ok(true), "short-reads", || format!("{} {}: a reader that gives one byte at a time is not decoded", name, mode));
        // prefixes
        for n in (0..b.len()).filter(|n| n % load.part.1 == load.part.0) {
            ctx.add("prefixes", 1);
            for v in [Validate::Yes, Validate::No] {
                if n % load.stride != 0 && matches!(v, Validate::Yes) && n + 40 < b.len() {
                    continue;
                }
                match dec::<T>(&b[..n], c, v) {
                    Ok(Err(())) => {}
                    Ok(Ok(_)) => ctx.violation("prefix", format!("{} {}: {} of {} bytes decode", name, mode, n, b.len())),
                    Err(e) => ctx.violation("panic", format!("{} {}: panic on the first {} bytes: {}", name, mode, n, e)),
                }
            }
            if n % load.stride == 0 {
                let r = guarded(|| x.serialize_with_mode(Full(n), c).is_err());
                ctx.require(r == Ok(true), "full-writer", || format!("{} {}: no error when the writer is full after {} bytes", name, mode, n));
            }
        }
        // changed bytes
        let mut log = Log(vec![], vec![]);
        let _ = x.serialize_with_mode(&mut log, c);
        // (the spilled byte of a point is no structure)
        let structural: std::collections::BTreeSet<usize> = if log.1.len() < 400 && !load.spill { log.1.into_iter().collect() } else { Default::default() };
        ctx.add("structural_bytes", structural.len() as u64);
        for i in (0..b.len()).filter(|i| i % load.stride == 0 || structural.contains(i)).enumerate().filter(|(k, _)| k % load.part.1 == load.part.0).map(|x| x.1) {
            let vals: Vec<u8> = if load.all_values || structural.contains(&i) { (0..=255).collect() } else { (0..8).map(|k| b[i] ^ 1 << k).chain([0, 1, 2, 255]).collect() };
            for w in vals {
                if w == b[i] {
                    continue;
                }
                let mut m = b.clone();
                m[i] = w;
                ctx.add("changed", 1);
                let what = || format!("{} {}: byte {} is {:#04x} instead of {:#04x}", name, mode, i, w, b[i]);
                let direct = match dec::<T>(&m, c, Validate::Yes) {
                    Ok(r) => r,
                    Err(e) => {
                        ctx.violation("panic", format!("{}: panic: {}", what(), e));
                        continue;
                    }
                };
                if let Ok(y) = &direct {
                    let e = enc(y, c);
                    // the encoding read may be shorter than m: a changed flag or count
                    let canonical = e.len() <= m.len() && e[..] == m[..e.len()] || e.len() == m.len() && of_ark(&m, &e, c, load.spill);
                    ctx.require(canonical, "canonical", || format!("{}: decodes to an object with another encoding", what()));
                    ctx.require(e.len() != b.len() || e != b || of_ark(&m, &e, c, load.spill), "canonical", || format!("{}: decodes to the same object", what()));
                    // what is accepted is made of proper points
                    let z = enc(y, Compress::Yes);
                    let back = dec::<T>(&z, Compress::Yes, Validate::Yes);
                    ctx.require(matches!(&back, Ok(Ok(q)) if enc(q, Compress::No) == enc(y, Compress::No)), "invalid-accepted", || format!("{}: decodes to an object with an invalid part", what()));
                }
                // the same verdict without a detour, after it, and inside containers
                let late = dec::<T>(&m, c, Validate::No).map(|r| r.and_then(|y| guarded(|| y.check().is_ok()).ok().filter(|k| *k).map(|_| ()).ok_or(())).is_ok());
                ctx.require(late == Ok(direct.is_ok()), "late-check", || format!("{}: decoding says {}, decoding without validation and checking says {:?}", what(), direct.is_ok(), late));
                if i % (4 * load.stride) == 0 || matches!(c, Compress::No) {
                    let mut v = enc(&1u64, c);
                    v.extend(&m);
                    let mut o = enc(&true, c);
                    o.extend(&m);
                    let a = dec::<Vec<T>>(&v, c, Validate::Yes).map(|r| r.is_ok());
                    let d = dec::<Option<T>>(&o, c, Validate::Yes).map(|r| r.is_ok());
                    let mut vv = enc(&1u64, c);
                    vv.extend(&v);
                    let e = dec::<Vec<Vec<T>>>(&vv, c, Validate::Yes).map(|r| r.is_ok());
                    let t = dec::<(T,)>(&m, c, Validate::Yes).map(|r| r.is_ok());
                    for (n, r) in [("vector", a), ("option", d), ("vector of vectors", e), ("tuple", t)] {
                        ctx.require(r == Ok(direct.is_ok()), "container", || format!("{}: decoding says {}, decoding inside a {} says {:?}", what(), direct.is_ok(), n, r));
                    }
                }
            }
        }
    }
}

fn proof<C: ark_ec::AffineRepr>(ctx: &'static Ctx, name: &str, p: &R1CSProof<C>, load: &Load, verify: &dyn Fn(&R1CSProof<C>) -> bool) {
    object(ctx, name, p, load, &|q| if verify(q) { Ok(()) } else { Err("rejected".into()) });
    let b = p.to_bytes();
    ctx.require(b == enc(p, Compress::Yes), "to-bytes", || format!("{}: to_bytes differs from the compressed encoding", name));
    for n in 0..=b.len() {
        match guarded(|| R1CSProof::<C>::from_bytes(&b[..n])) {
            Ok(Ok(q)) => ctx.require(n == b.len() && q.to_bytes() == b, "from-bytes", || format!("{}: from_bytes takes {} of {} bytes", name, n, b.len())),
            Ok(Err(e)) => ctx.require(n < b.len() && e == R1CSError::FormatError, "from-bytes", || format!("{}: from_bytes on {} of {} bytes: {:?}", name, n, b.len(), e)),
            Err(e) => ctx.violation("panic", format!("{}: from_bytes panics on {} bytes: {}", name, n, e)),
        }
    }
    // both ways to write a proof without second phase
    let raw = ctmc::raw::Raw::<C>::parse(&b);
    if let Some(r) = raw.filter(|r| r.flag == 0) {
        for c in [Compress::Yes, Compress::No] {
            let b = enc(p, c);
            let at = 3 * r.p1[0].serialized_size(c);
            let mut m = b[..at].to_vec();
            m.push(1);
            for _ in 0..3 {
                m.extend(enc(&C::zero(), c));
            }
            m.extend(&b[at + 1..]);
            ctx.eval(None);
            match dec::<R1CSProof<C>>(&m, c, Validate::Yes) {
                Ok(Ok(y)) => ctx.require(enc(&y, c) == m, "canonical", || format!("{}: a proof without second phase also has an encoding with one", name)),
                Ok(Err(())) => {}
                Err(e) => ctx.violation("panic", format!("{}: {}", name, e)),
            }
        }
    }
    ctx.sample_cat(name.split(' ').next().unwrap(), || format!("{} ({} bytes)", name, b.len()));
}

fn statements<C: ark_ec::AffineRepr>(ctx: &'static Ctx, curve: &str, load: &Load, k: usize) {
    let (name, prog) = &catalogue()[k];
    let pc = PedersenGens::<C>::default();
    let bp = BulletproofGens::<C>::new(16, 1);
    let p = match guarded(|| circuit::prove(prog, &pc, &bp, b"c07")) {
        Ok(Ok(p)) => p,
        e => return ctx.violation("honest", format!("{}: {:?}", name, e.map(|r| r.map(|_| ())))),
    };
    proof(ctx, &format!("proof {} on {}", name, curve), &p.proof, load, &|q| guarded(|| circuit::verify(prog, &p.comms, q, &pc, &bp, b"c07").is_ok()) == Ok(true));
}

macro_rules! wh {
    ($(#[$m:meta])* fn $name:ident<$(const $c:ident),*>($($a:ident: $t:ty),* $(,)?) $(-> $r:ty)? $b:block) => {
        $(#[$m])*
        #[allow(clippy::too_many_arguments)]
        fn $name<$(const $c: usize,)* F0: PrimeField, F1: PrimeField, P0: SWCurveConfig<BaseField = F1, ScalarField = F0> + Copy + Send + Sync, P1: SWCurveConfig<BaseField = F0, ScalarField = F1> + Copy + Send + Sync>($($a: $t),*) $(-> $r)? $b
    };
}

wh! {
    fn membership<const L, const M>(ctx: &'static Ctx, curve: &str, pr: &SelRerandParameters<P0, P1>, load: &Load, h: usize) {
        let n = L.pow(h as u32).min(5).max(M);
        let set = rel::leaves::<P0>(n, 1);
        let t = CurveTree::<L, M, P0, P1>::from_set(&set, pr, Some(h));
        let rng = &mut rand::thread_rng();
        let name = format!("{} L={} height {}", curve, L, h);
        let m = rel::prove_mem(&t, n - 1, 0, pr, b"c07", rng).expect("prove");
        object(ctx, &format!("path {}", name), &m.path, load, &|p| {
            let mut q = m.clone();
            q.path = p.clone();
            match rel::accepts(&t, &q, pr, b"c07") {
                Some(l) if l == m.path.selected_commitment => Ok(()),
                _ => Err("rejected".into()),
            }
        });
        ctx.sample_cat("path", || name.clone());
        // multi-paths are only ever written
        let idx: Vec<usize> = (0..M).map(|i| i % n).collect();
        let q = rel::prove_multi(&t, idx.try_into().unwrap(), pr, b"c07", rng).expect("prove").path;
        for c in [Compress::Yes, Compress::No] {
            let b = enc(&q, c);
            ctx.eval(Some(&format!("multi {} {:?}", name, b.len())));
            ctx.require(b.len() == q.serialized_size(c), "size", || format!("multi-path {}: reports {}, writes {}", name, q.serialized_size(c), b.len()));
            let mut w = Slow(vec![], 3);
            let _ = q.serialize_with_mode(&mut w, c);
            ctx.require(w.0 == b, "short-writes", || format!("multi-path {}", name));
            for n in (0..b.len()).step_by(load.stride) {
                ctx.require(guarded(|| q.serialize_with_mode(Full(n), c).is_err()) == Ok(true), "full-writer", || format!("multi-path {}: no error when the writer is full after {} bytes", name, n));
            }
            // every part is in it: changing one changes the bytes, and no two changes give the same bytes
            let mut all = vec![b.clone()];
            for i in 0..M {
                let mut o = q.clone();
                o.selected_commitments[i] = set[0];
                all.push(enc(&o, c));
            }
            for i in 0..q.odd_commitments.len() {
                let mut o = q.clone();
                o.odd_commitments[i] = Affine::<P1>::generator();
                all.push(enc(&o, c));
            }
            for i in 0..q.even_commitments.len() {
                let mut o = q.clone();
                o.even_commitments[i] = Affine::<P0>::generator();
                all.push(enc(&o, c));
            }
            for (a, x) in [(0, true), (1, true), (0, false), (1, false)] {
                let mut o = q.clone();
                match (a, x) {
                    (0, true) => o.odd_commitments.push(Affine::<P1>::generator()),
                    (1, true) => o.even_commitments.push(Affine::<P0>::generator()),
                    (0, false) => { if o.odd_commitments.pop().is_none() { continue } }
                    _ => { if o.even_commitments.pop().is_none() { continue } }
                }
                all.push(enc(&o, c));
                ctx.require(o.serialized_size(c) == enc(&o, c).len(), "size", || format!("multi-path {}", name));
            }
            let k = all.len();
            all.sort();
            all.dedup();
            ctx.require(all.len() == k, "multi-path", || format!("multi-path {}: different multi-paths have one encoding", name));
            // decodable: the fields can be read back one after the other
            let mut r = &b[..];
            let read = guarded(|| {
                let mut s: Vec<Affine<P0>> = vec![];
                for _ in 0..M {
                    s.push(Affine::deserialize_with_mode(&mut r, c, Validate::Yes).ok()?);
                }
                let o = Vec::<Affine<P1>>::deserialize_with_mode(&mut r, c, Validate::Yes).ok()?;
                let e = Vec::<Affine<P0>>::deserialize_with_mode(&mut r, c, Validate::Yes).ok()?;
                Some((s, o, e))
            });
            ctx.require(read == Ok(Some((q.selected_commitments.to_vec(), q.odd_commitments.clone(), q.even_commitments.clone()))) && r.is_empty(), "multi-path", || format!("multi-path {}: the bytes do not contain the fields", name));
        }
    }
}

wh! {
    fn transactions<const L>(ctx: &'static Ctx, curve: &str, pr: &SelRerandParameters<P0, P1>, load: &Load, h: usize, what: usize) {
        let w = World::<P0, P1, Projective<P0>>::new(pr);
        let keys: Vec<_> = (0..4).map(|_| w.keys()).collect();
        let (coins, set): (Vec<_>, Vec<_>) = (0..2).map(|i| w.coin(10 + i as u64, &keys[i].pk)).unzip();
        let t = CurveTree::<L, 1, P0, P1>::from_set(&set, pr, Some(h));
        let rng = &mut rand::thread_rng();
        let name = format!("{} L={} height {}", curve, L, h);
        if what == 0 {
            let mut p = Prover::<_, Affine<P0>>::new(&pr.even_parameters.pc_gens, Transcript::new(b"mint"));
            let (_, c, _) = Coin::<P0, Projective<P0>>::mint(5, &keys[0].pk, &w.sig, &pr.even_parameters, rng, &mut p);
            let m = p.prove(&pr.even_parameters.bp_gens).expect("mint");
            proof(ctx, &format!("mint {}", name), &m, load, &|q| {
                let mut v = Verifier::<_, Affine<P0>>::new(Transcript::new(b"mint"));
                verify_mint(&mut v, c);
                guarded(|| v.verify(q, &pr.even_parameters.pc_gens, &pr.even_parameters.bp_gens).is_ok()) == Ok(true)
            });
            return;
        }
        let s = |i: usize| w.spending(i, &coins[i], &keys[i]);
        let tx = w.pour(&t, [&s(0), &s(1)], [(4, keys[2].pk), (17, keys[3].pk)], rng).expect("pour");
        let o = w.open::<L>(&tx);
        if what == 1 {
            object(ctx, &format!("pour {}", name), &o.pour, load, &|p| {
                w.verify(&t, &w.signed(enc(p, Compress::Yes), &o.sigs), DOMAIN)
            });
        } else {
            object(ctx, &format!("signed {}", name), &tx, load, &|x| w.verify(&t, x, DOMAIN));
        }
        ctx.sample_cat("transaction", || name.clone());
    }
}

fn main() {
    let ctx = Ctx::new("C07", "exploration");
    ctx.note("rule", "for every object of the corpus and both compression modes: size, round trip with and without validation, cross-mode equality, verification of the decoded object, writers and readers that take part of the data, every strict prefix refused, every bit of every byte changed (thorough and small objects: every value): whatever decodes re-encodes to the bytes it was read from, no change decodes to the original, decoding, late checking and decoding inside containers agree");
    ctx.note("assume", "the non-canonical parts of ark-ec's point encoding are not this repository's: coordinates of an encoded neutral element and the sign flag of uncompressed points are ignored by it");
    type Pa = ark_pallas::PallasConfig;
    type Ve = ark_vesta::VestaConfig;
    let pr61 = SelRerandParameters::<m61::Even, m61::Odd>::new(1024, 1024);
    let pr60 = SelRerandParameters::<m60::Even, m60::Odd>::new(1024, 1024);
    let pr126 = SelRerandParameters::<m126::Even, m126::Odd>::new(4096, 4096);
    let prp = SelRerandParameters::<Pa, Ve>::new(2048, 2048);
    let th = ctx.thorough();
    let small = Load { all_values: th, stride: 1, spill: false, part: (0, 1) };
    let bits = Load { all_values: false, stride: if th { 1 } else { 5 }, spill: true, part: (0, 1) };
    let mid = Load { all_values: false, stride: if th { 1 } else { 5 }, spill: false, part: (0, 1) };
    let big = Load { all_values: false, stride: if th { 3 } else { 31 }, spill: true, part: (0, 1) };
    let huge = Load { all_values: false, stride: if th { 7 } else { 101 }, spill: true, part: (0, 1) };
    let mut cases: Vec<(&'static str, usize, usize)> = vec![];
    for part in 0..8 {
        for h in 1..=ctx.pick(1, 2) {
            cases.push(("tx126", h, 1 + 3 * part));
        }
        cases.push(("txpallas", 1, 1 + 3 * part));
    }
    cases.extend([("tx126", 1, 2), ("txpallas", 1, 2), ("tx126", 1, 0), ("txpallas", 1, 0)]);
    for h in 1..=4 {
        cases.push(("mem60", h, 0));
        cases.push(("mem61", h, 0));
        if h < 3 {
            cases.push(("mempallas", h, 0));
        }
    }
    for k in 0..catalogue().len() {
        cases.push(("m61", k, 0));
        cases.push(("m126odd", k, 0));
        if k % 4 == 0 || th {
            cases.push(("pallas", k, 0));
        }
    }
    ctx.note("bounds", "16 statements on three curves; paths and multi-paths (M = 1, 3) of height 1..4; mint, pour and signed transaction of height 1 (thorough 2)");
    ctx.cases(&cases, |c| format!("{:?}", c), |&(k, a, b)| match k {
        "m61" => statements::<m61::EvenA>(ctx, "m61", &small, a),
        "m126odd" => statements::<m126::OddA>(ctx, "m126 odd", &mid, a),
        "pallas" => statements::<ark_pallas::Affine>(ctx, "pallas", &big, a),
        "mem60" => membership::<2, 1, _, _, _, _>(ctx, "m60", &pr60, &small, a),
        "mem61" => membership::<3, 3, _, _, _, _>(ctx, "m61", &pr61, &small, a),
        "mempallas" => membership::<2, 2, _, _, _, _>(ctx, "pallas", &prp, &bits, a),
        "tx126" => transactions::<2, _, _, _, _>(ctx, "m126", &pr126, &if b % 3 == 1 { Load { part: (b / 3, 8), ..mid.clone() } } else { mid.clone() }, a, b % 3),
        _ => transactions::<2, _, _, _, _>(ctx, "pallas", &prp, &if b % 3 == 1 { Load { part: (b / 3, 8), ..huge.clone() } } else { huge.clone() }, a, b % 3),
    });
    ctx.finish();
}
