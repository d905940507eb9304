//! C08: linear expressions evaluate as written.
use ark_ec::short_weierstrass::{Affine, SWCurveConfig};
use ark_ff::{Field, One, PrimeField, Zero};
use bulletproofs::r1cs::*;
use bulletproofs::{BulletproofGens, PedersenGens};
use ctmc::curves::{m126, m60, m61};
use ctmc::{guarded, Ctx};
use merlin::Transcript;
use std::marker::PhantomData;

/// committed x2, vector commitment (0,0) (0,1) (1,0), left right output of gates 0 and 1, one
const K: usize = 12;
fn var<F: Field>(i: usize) -> Variable<F> {
    match i {
        0 | 1 => Variable::Committed(i),
        2 | 3 => Variable::VectorCommit(0, i - 2),
        4 => Variable::VectorCommit(1, 0),
        5 | 8 => Variable::MultiplierLeft((i - 5) / 3),
        6 | 9 => Variable::MultiplierRight((i - 6) / 3),
        7 | 10 => Variable::MultiplierOutput((i - 7) / 3),
        _ => Variable::One(PhantomData),
    }
}
const NAMES: [&str; K] = ["c0", "c1", "v00", "v01", "v10", "l0", "r0", "o0", "l1", "r1", "o1", "1"];

#[derive(Clone)]
struct E<F: Field> {
    v: Option<Variable<F>>,
    lc: LinearCombination<F>,
    /// the meaning: a coefficient per variable
    r: [F; K],
    text: String,
}
fn scaled<F: Field>(r: &[F; K], s: F) -> [F; K] {
    r.map(|x| x * s)
}
fn plus<F: Field>(a: &[F; K], b: &[F; K], s: F) -> [F; K] {
    std::array::from_fn(|i| a[i] + b[i] * s)
}
fn leaves<F: PrimeField>(which: &[usize]) -> Vec<E<F>> {
    which
        .iter()
        .map(|i| {
            let mut r = [F::zero(); K];
            r[*i] = F::one();
            E { v: Some(var(*i)), lc: var::<F>(*i).into(), r, text: NAMES[*i].into() }
        })
        .collect()
}
fn consts<F: PrimeField>() -> Vec<E<F>> {
    let mut out = vec![];
    let e = |c: F| {
        let mut r = [F::zero(); K];
        r[K - 1] = c;
        r
    };
    for v in [0u64, 1, 5] {
        let c = F::from(v);
        out.push(E { v: None, lc: constant(c), r: e(c), text: format!("constant({})", v) });
        out.push(E { v: None, lc: constant::<F, u64>(v), r: e(c), text: format!("constant({}u64)", v) });
        out.push(E { v: None, lc: LinearCombination::from(c), r: e(c), text: format!("from({})", v) });
    }
    out.push(E { v: None, lc: constant(-F::one()), r: e(-F::one()), text: "constant(-1)".into() });
    out.push(E { v: None, lc: LinearCombination::default(), r: e(F::zero()), text: "default".into() });
    out
}
/// every unary operator
fn unary<F: PrimeField>(a: &E<F>) -> Vec<E<F>> {
    let mut o = vec![];
    let minus = -F::one();
    let mut add = |lc, s: F, text: String| o.push(E { v: None, lc, r: scaled(&a.r, s), text });
    add(-a.lc.clone(), minus, format!("-({})", a.text));
    if let Some(v) = a.v {
        add(-v, minus, format!("-{}", a.text));
        add(v.into(), F::one(), format!("into({})", a.text));
    }
    for (s, n) in [(F::zero(), "0"), (F::one(), "1"), (minus, "-1"), (F::from(3u64), "3")] {
        add(a.lc.clone() * s, s, format!("({})*{}", a.text, n));
        add(a.lc.clone().scalar_mul(s), s, format!("({}).scalar_mul({})", a.text, n));
        if let Some(v) = a.v {
            add(v * s, s, format!("{}*{}", a.text, n));
        }
    }
    add(a.lc.clone() * 7u64, F::from(7u64), format!("({})*7u64", a.text));
    if let Some(v) = a.v {
        add(v * 7u64, F::from(7u64), format!("{}*7u64", a.text));
    }
    o
}
/// every binary operator, in every combination of operand types
fn binary<F: PrimeField>(a: &E<F>, b: &E<F>, f: &mut dyn FnMut(LinearCombination<F>, [F; K], &dyn Fn() -> String)) {
    for (s, op) in [(F::one(), '+'), (-F::one(), '-')] {
        let r = plus(&a.r, &b.r, s);
        let text = |t: &str| format!("({}) {} ({}) [{}]", a.text, op, b.text, t);
        macro_rules! go {
            ($x:expr, $y:expr, $t:literal) => {
                f(if op == '+' { $x + $y } else { $x - $y }, r, &|| text($t))
            };
        }
        go!(a.lc.clone(), b.lc.clone(), "lc,lc");
        if let Some(w) = b.v {
            go!(a.lc.clone(), w, "lc,var");
        }
        if let Some(v) = a.v {
            go!(v, b.lc.clone(), "var,lc");
            if let Some(w) = b.v {
                go!(v, w, "var,var");
            }
        }
    }
}
fn with_field<F: PrimeField>(a: &E<F>, f: &mut dyn FnMut(LinearCombination<F>, [F; K], &dyn Fn() -> String)) {
    for c in [F::zero(), F::from(2u64), -F::one()] {
        let mut k = [F::zero(); K];
        k[K - 1] = c;
        f(a.lc.clone() + c, plus(&a.r, &k, F::one()), &|| format!("({}) + field {}", a.text, c));
        f(a.lc.clone() - c, plus(&a.r, &k, -F::one()), &|| format!("({}) - field {}", a.text, c));
        if let Some(v) = a.v {
            f(v + c, plus(&a.r, &k, F::one()), &|| format!("{} + field {}", a.text, c));
            f(v - c, plus(&a.r, &k, -F::one()), &|| format!("{} - field {}", a.text, c));
        }
    }
}

struct World<P: SWCurveConfig>
where
    P::BaseField: PrimeField,
{
    pc: PedersenGens<Affine<P>>,
    bp: BulletproofGens<Affine<P>>,
    /// values of the variables under the generic assignment
    val: [P::ScalarField; K],
}
type Pr<'g, P> = Prover<'g, Transcript, Affine<P>>;
impl<P: SWCurveConfig> World<P>
where
    P::BaseField: PrimeField,
{
    fn new() -> Self {
        let f = |i: u64| P::ScalarField::from(0x9e37_79b9_7f4a_7c15u64.wrapping_mul(2 * i + 3) >> 3);
        let mut val: [P::ScalarField; K] = std::array::from_fn(|i| f(i as u64));
        val[7] = val[5] * val[6];
        val[10] = val[8] * val[9];
        val[11] = P::ScalarField::one();
        World { pc: PedersenGens::default(), bp: BulletproofGens::new(512, 1), val }
    }
    fn value(&self, r: &[P::ScalarField; K], val: &[P::ScalarField; K]) -> P::ScalarField {
        r.iter().zip(val).map(|(a, b)| *a * b).sum()
    }
    fn prover(&self, val: &[P::ScalarField; K]) -> (Pr<'_, P>, Vec<Affine<P>>) {
        let mut p: Pr<'_, P> = Prover::new(&self.pc, Transcript::new(b"c08"));
        let b = |i: u64| P::ScalarField::from(1000 + i);
        let mut c = vec![p.commit(val[0], b(0)).0, p.commit(val[1], b(1)).0];
        c.push(p.commit_vec(&val[2..4], b(2), &self.bp).0);
        c.push(p.commit_vec(&val[4..5], b(3), &self.bp).0);
        p.allocate_multiplier(Some((val[5], val[6]))).unwrap();
        p.allocate_multiplier(Some((val[8], val[9]))).unwrap();
        (p, c)
    }
    fn verifier(&self, c: &[Affine<P>]) -> Verifier<Transcript, Affine<P>> {
        let mut v = Verifier::new(Transcript::new(b"c08"));
        v.commit(c[0]);
        v.commit(c[1]);
        v.commit_vec(2, c[2]);
        v.commit_vec(1, c[3]);
        v.allocate_multiplier(None).unwrap();
        v.allocate_multiplier(None).unwrap();
        v
    }
    /// assignments that determine a linear map: all zero, and one for each variable
    fn units(&self) -> Vec<[P::ScalarField; K]> {
        let (o, z) = (P::ScalarField::one(), P::ScalarField::zero());
        let mut out = vec![];
        for u in 0..K {
            let mut v = [z; K];
            v[K - 1] = o;
            if u < K - 1 {
                v[u] = o;
            }
            for g in [5, 8] {
                if u == g + 2 {
                    v[g] = o;
                    v[g + 1] = o;
                }
                v[g + 2] = v[g] * v[g + 1];
            }
            out.push(v);
        }
        out
    }
}
fn canonical<F: Field>(r: &[F; K]) -> LinearCombination<F> {
    (0..K).filter(|i| !r[*i].is_zero()).map(|i| (var(i), r[i])).collect()
}

#[derive(Copy, Clone, Debug, PartialEq)]
enum Mode {
    /// the prover constrains what is written, the verifier the same value spelled out
    Prover,
    Verifier,
    Both,
    /// constraints of the randomized phase
    Phase2,
    /// the expressions as inputs of gates
    Gates,
}
type Item<F> = (LinearCombination<F>, [F; K]);

fn proves<P: SWCurveConfig>(w: &World<P>, items: &[Item<P::ScalarField>], mode: Mode, wrong: Option<usize>) -> Result<bool, String>
where
    P::BaseField: PrimeField,
{
    let one = P::ScalarField::one();
    let pairs: Vec<(LinearCombination<_>, LinearCombination<_>, P::ScalarField)> = items
        .iter()
        .enumerate()
        .map(|(i, (lc, r))| {
            let can = canonical(r);
            let (p, v) = match mode {
                Mode::Prover => (lc.clone(), can),
                Mode::Verifier => (can, lc.clone()),
                _ => (lc.clone(), lc.clone()),
            };
            (p, v, w.value(r, &w.val) + if wrong == Some(i) { one } else { P::ScalarField::zero() })
        })
        .collect();
    let run = || -> Result<bool, R1CSError> {
        let (mut p, c) = w.prover(&w.val);
        let mut v = w.verifier(&c);
        match mode {
            Mode::Gates => {
                for k in 0..items.len() {
                    let j = (k + 1) % items.len();
                    let (l, r, o) = p.multiply(items[k].0.clone(), items[j].0.clone());
                    let (a, b) = (w.value(&items[k].1, &w.val), w.value(&items[j].1, &w.val));
                    let got = [l, r, o].map(|x| p.eval(&x.into()));
                    if got != [a, b, a * b] {
                        return Ok(false);
                    }
                    // the verifier states the same with the spelled-out inputs
                    let (_, _, vo) = v.multiply(canonical(&items[k].1), canonical(&items[j].1));
                    let shift = if wrong == Some(k) { one } else { P::ScalarField::zero() };
                    p.constrain(o - (a * b + shift));
                    v.constrain(vo - (a * b + shift));
                }
            }
            Mode::Phase2 => {
                let (a, b) = (pairs.clone(), pairs.clone());
                p.specify_randomized_constraints(move |cs| {
                    let z = cs.challenge_scalar(b"z");
                    for (lc, _, val) in a {
                        cs.constrain((lc - val) * z);
                    }
                    Ok(())
                })?;
                v.specify_randomized_constraints(move |cs| {
                    let z = cs.challenge_scalar(b"z");
                    for (_, lc, val) in b {
                        cs.constrain((lc - val) * z);
                    }
                    Ok(())
                })?;
            }
            _ => {
                for (a, b, val) in &pairs {
                    p.constrain(a.clone() - *val);
                    v.constrain(b.clone() - *val);
                }
            }
        }
        let proof = p.prove(&w.bp)?;
        Ok(v.verify(&proof, &w.pc, &w.bp).is_ok())
    };
    guarded(run)?.map_err(|e| format!("{:?}", e))
}
/// All items must be provable; on a failure the offending item is searched for.
fn all_prove<P: SWCurveConfig>(ctx: &'static Ctx, w: &World<P>, items: &[Item<P::ScalarField>], mode: Mode, text: &dyn Fn(usize) -> String)
where
    P::BaseField: PrimeField,
{
    ctx.add("proofs", 1);
    ctx.add("constraints_proved", items.len() as u64);
    if matches!(proves(w, items, mode, None), Ok(true)) {
        return;
    }
    if items.len() > 1 {
        let h = items.len() / 2;
        let (a, b) = items.split_at(h);
        let bad = |s: &[Item<P::ScalarField>]| !matches!(proves(w, s, mode, None), Ok(true));
        if bad(a) {
            return all_prove(ctx, w, a, mode, text);
        }
        if bad(b) {
            return all_prove(ctx, w, b, mode, &|i| text(i + h));
        }
    }
    ctx.violation(&format!("{:?}", mode), format!("the value of {} is not what the {:?} side enforces ({:?})", text(0), mode, proves(w, items, mode, None)));
}

fn run<P: SWCurveConfig>(ctx: &'static Ctx, curve: &str, part: usize, parts: usize)
where
    P::BaseField: PrimeField,
{
    type F<P> = <P as ark_ec::CurveConfig>::ScalarField;
    let w = World::<P>::new();
    let (gen, _) = w.prover(&w.val);
    let unit_vals = w.units();
    let units: Vec<Pr<'_, P>> = unit_vals.iter().map(|v| w.prover(v).0).collect();
    let exact = |lc: &LinearCombination<F<P>>, r: &[F<P>; K], text: &dyn Fn() -> String| {
        ctx.eval(Some(&text()));
        for (p, v) in units.iter().zip(&unit_vals) {
            ctx.eval(None);
            ctx.require(p.eval(lc) == w.value(r, v), "value", || format!("{}: {} evaluates wrongly under {:?}", curve, text(), v.map(|x| x.to_string())));
        }
        ctx.require(gen.eval(lc) == w.value(r, &w.val), "value", || format!("{}: {} evaluates wrongly", curve, text()));
    };
    // depth 1 and 2
    let mut s1 = leaves::<F<P>>(&(0..K).collect::<Vec<_>>());
    s1.extend(consts());
    let mut s2: Vec<E<F<P>>> = vec![];
    for a in &s1 {
        s2.extend(unary(a));
        with_field(a, &mut |lc, r, t| s2.push(E { v: None, lc, r, text: t() }));
        for b in &s1 {
            binary(a, b, &mut |lc, r, t| s2.push(E { v: None, lc, r, text: t() }));
        }
    }
    if part == 0 {
        for e in s1.iter().chain(&s2) {
            exact(&e.lc, &e.r, &|| e.text.clone());
        }
        ctx.add("expressions_depth_2", (s1.len() + s2.len()) as u64);
        // collected term lists: every list up to a length over some variables and coefficients, in every order
        let coeff = [F::<P>::one(), -F::<P>::one(), F::<P>::from(4u64), F::<P>::zero()];
        let some = [0usize, 3, 7, 11];
        let terms: Vec<(usize, F<P>)> = some.iter().flat_map(|v| coeff.iter().map(move |c| (*v, *c))).collect();
        let mut lists = vec![];
        for len in 0..=ctx.pick(3u32, 4) {
            for code in 0..terms.len().pow(len) {
                let l: Vec<(usize, F<P>)> = (0..len).map(|i| terms[code / terms.len().pow(i) % terms.len()]).collect();
                let pairs: Vec<(Variable<F<P>>, F<P>)> = l.iter().map(|(v, c)| (var(*v), *c)).collect();
                let mut r = [F::<P>::zero(); K];
                for (v, c) in &l {
                    r[*v] += c;
                }
                let text = |k: &str| format!("list {:?} collected {}", l.iter().map(|(v, c)| (NAMES[*v], c.to_string())).collect::<Vec<_>>(), k);
                let by_ref: LinearCombination<F<P>> = pairs.iter().collect();
                let by_val: LinearCombination<F<P>> = pairs.iter().copied().collect();
                ctx.eval(Some(&text("")));
                for (lc, k) in [(&by_val, "by value"), (&by_ref, "by reference")] {
                    if len < 3 {
                        exact(lc, &r, &|| text(k));
                    }
                    ctx.require(gen.eval(lc) == w.value(&r, &w.val), "collect", || format!("{}: {}", curve, text(k)));
                    // and collected lists as operands
                    let e = E { v: None, lc: lc.clone(), r, text: text(k) };
                    let b = &s1[(code + 3) % s1.len()];
                    for (x, y) in [(&e, b), (b, &e)] {
                        binary(x, y, &mut |lc, r, t| {
                            ctx.eval(None);
                            ctx.require(gen.eval(&lc) == w.value(&r, &w.val), "collect", || format!("{}: {}", curve, t()))
                        });
                    }
                    if len < 3 {
                        for u in unary(&e) {
                            ctx.require(gen.eval(&u.lc) == w.value(&u.r, &w.val), "collect", || format!("{}: {}", curve, u.text));
                        }
                    }
                }
                lists.push((by_ref, r));
                lists.push((by_val, r));
            }
        }
        ctx.add("lists", lists.len() as u64 / 2);
        for mode in [Mode::Prover, Mode::Verifier, Mode::Both] {
            for chunk in lists.chunks(4000) {
                all_prove(ctx, &w, chunk, mode, &|i| format!("{}: a collected list ({})", curve, chunk[i].1.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")));
            }
        }
        // what both sides enforce, for every expression of depth 1 and 2
        let small: Vec<&E<F<P>>> = s1.iter().chain(&s2).collect();
        for mode in [Mode::Prover, Mode::Verifier, Mode::Both, Mode::Phase2, Mode::Gates] {
            for chunk in small.chunks(if mode == Mode::Gates { 400 } else { 2000 }) {
                let items: Vec<Item<F<P>>> = chunk.iter().map(|e| (e.lc.clone(), e.r)).collect();
                all_prove(ctx, &w, &items, mode, &|i| format!("{}: {}", curve, chunk[i].text));
            }
            // and a wrong value is refused: the constraint is really enforced
            let step = ctx.pick(if mode == Mode::Gates { 7 } else { 2 }, 1);
            for (i, e) in small.iter().enumerate().filter(|(i, _)| i % step == 0) {
                ctx.eval(None);
                let items = vec![(e.lc.clone(), e.r), (s1[i % K].lc.clone(), s1[i % K].r)];
                ctx.add("wrong_values_refused", 1);
                ctx.require(!matches!(proves(&w, &items, mode, Some(0)), Ok(true)), "not-enforced", || format!("{}: {} = wrong value is accepted ({:?})", curve, e.text, mode));
            }
        }
        ctx.sample_cat(curve, || s2[s2.len() / 2].text.clone());
    }
    // depth 3: every operator over depth-2 expressions of a reduced set of variables, one of each kind
    let mut r1 = leaves::<F<P>>(ctx.pick(&[0, 3, 4, 6, 7, 11], &[0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11]));
    r1.push(consts::<F<P>>().swap_remove(8));
    r1.push(consts::<F<P>>().pop().unwrap());
    let mut r2 = r1.clone();
    for a in &r1 {
        r2.extend(unary(a));
        with_field(a, &mut |lc, r, t| r2.push(E { v: None, lc, r, text: t() }));
        for b in &r1 {
            binary(a, b, &mut |lc, r, t| r2.push(E { v: None, lc, r, text: t() }));
        }
    }
    let mut pending: Vec<Item<F<P>>> = vec![];
    let mut what: Vec<(usize, usize)> = vec![];
    let mut n = 0u64;
    for (i, a) in r2.iter().enumerate().filter(|(i, _)| i % parts == part) {
        for e in unary(a) {
            ctx.require(gen.eval(&e.lc) == w.value(&e.r, &w.val), "value", || format!("{}: {}", curve, e.text));
            n += 1;
        }
        with_field(a, &mut |lc, r, t| {
            ctx.require(gen.eval(&lc) == w.value(&r, &w.val), "value", || format!("{}: {}", curve, t()));
            n += 1;
        });
        for (j, b) in r2.iter().enumerate() {
            binary(a, b, &mut |lc, r, t| {
                ctx.require(gen.eval(&lc) == w.value(&r, &w.val), "value", || format!("{}: {}", curve, t()));
                n += 1;
                if ctx.quick || (n + i as u64) % 16 == 0 {
                    pending.push((lc, r));
                    what.push((i, j));
                }
            });
            if pending.len() > 8000 {
                for mode in [Mode::Prover, Mode::Verifier] {
                    all_prove(ctx, &w, &pending, mode, &|i| format!("{}: ({}) +- ({})", curve, r2[what[i].0].text, r2[what[i].1].text));
                }
                pending.clear();
                what.clear();
            }
        }
    }
    if !pending.is_empty() {
        for mode in [Mode::Prover, Mode::Verifier] {
            all_prove(ctx, &w, &pending, mode, &|i| format!("{}: ({}) +- ({})", curve, r2[what[i].0].text, r2[what[i].1].text));
        }
    }
    ctx.add("evaluations", n);
    ctx.add("expressions_depth_3", n);
}

fn main() {
    let ctx = Ctx::new("C08", "exploration");
    ctx.note("rule", "every expression of depth 1 and 2 over 12 variables of all kinds and constants, in every combination of operand types, under assignments that determine a linear map; every operator over pairs of depth-2 expressions of a reduced set; every term list up to a length collected by value and by reference; all of them proved with the expression on one side and the spelled-out combination on the other, in both phases and as gate inputs; wrong values refused");
    let parts = ctx.pick(8, 64);
    let mut cases = vec![];
    for c in 0..ctx.pick(2, 3) {
        for p in 0..parts {
            cases.push((c, p));
        }
    }
    cases.sort_by_key(|c| c.1);
    ctx.cases(&cases, |c| format!("{:?}", c), |&(c, p)| {
        match c {
            0 => run::<m60::Even>(ctx, "m60", p, parts),
            1 => run::<m126::Even>(ctx, "m126", p, parts),
            _ => run::<m61::Odd>(ctx, "m61", p, parts),
        }
    });
    ctx.finish();
}
