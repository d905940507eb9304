//! C09: prover and verifier build the same circuit, whatever the witness.
//!
//! Two observations, both on the code under test:
//! * a recording constraint system is driven once as the verifier drives the gadget (no witness) and once per
//!   witness, and the recorded gates, gate inputs and constraints are compared as linear maps;
//! * the real prover proves with every witness, right or wrong, and the real verifier's equation is split: the
//!   part that does not carry the verifier's own randomiser is the inner-product argument, which holds for any
//!   witness, satisfying or not, exactly when both sides built the same gates, weights and commitments.
use ark_ec::short_weierstrass::{Affine, Projective, SWCurveConfig};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{Field, One, PrimeField, Zero};
use bulletproofs::r1cs::*;
use bulletproofs::{BulletproofGens, PedersenGens};
use ctmc::coins::*;
use ctmc::curves::{m126, m60, m61, m62};
use ctmc::gadget::*;
use ctmc::{guarded, rel, Ctx};
use merlin::Transcript;
use relations::coin::*;
use relations::curve::*;
use relations::curve_tree::*;
use relations::curve_tree_prover::CurveTreeWitness;
use relations::lookup::*;
use relations::range_proof::range_proof;
use relations::rerandomize::*;
use relations::select::select;
use relations::single_level_select_and_rerandomize::*;

/// Two evaluations of the same tuple with different verifier randomisers, subtracted so that only the part
/// without the randomiser is left. None: the randomiser cannot be told apart.
fn without_randomiser<C: AffineRepr>(t1: &VerificationTuple<C>, t2: &VerificationTuple<C>) -> Option<VerificationTuple<C>> {
    if t1.proof_dependent_points != t2.proof_dependent_points || t1.proof_independent_scalars.len() != t2.proof_independent_scalars.len() {
        return None;
    }
    let moved: Vec<(C::ScalarField, C::ScalarField)> =
        t1.proof_dependent_scalars.iter().zip(&t2.proof_dependent_scalars).filter(|(a, b)| a != b).map(|(a, b)| (*a, *b)).collect();
    let (a, b) = moved.first()?;
    let rho = *b * a.inverse()?;
    if moved.iter().any(|(a, b)| *a * rho != *b) {
        return None;
    }
    let mix = |x: &Vec<C::ScalarField>, y: &Vec<C::ScalarField>| x.iter().zip(y).map(|(x, y)| *x * rho - y).collect::<Vec<_>>();
    Some(VerificationTuple {
        proof_dependent_points: t1.proof_dependent_points.clone(),
        proof_dependent_scalars: mix(&t1.proof_dependent_scalars, &t2.proof_dependent_scalars),
        proof_independent_scalars: mix(&t1.proof_independent_scalars, &t2.proof_independent_scalars),
    })
}
/// Does the inner-product part of the verifier's equation hold?
fn same_circuit<C: AffineRepr>(t1: &VerificationTuple<C>, t2: &VerificationTuple<C>, pc: &PedersenGens<C>, bp: &BulletproofGens<C>) -> Option<bool> {
    let t = without_randomiser(t1, t2)?;
    Some(matches!(guarded(|| batch_verify(vec![t], pc, bp)), Ok(Ok(()))))
}

/// A gadget with fixed public parameters and a list of witnesses.
trait Gadget<F: Field> {
    fn name(&self) -> String;
    fn ninputs(&self) -> usize;
    fn nwit(&self) -> usize;
    /// the witness satisfies the gadget (the honest prover must not refuse)
    fn honest(&self, _w: usize) -> bool {
        false
    }
    fn inputs(&self, w: usize) -> Vec<F>;
    fn build<Cs: ConstraintSystem<F>>(&self, cs: &mut Cs, ins: &[Variable<F>], w: Option<usize>);
}

fn capture<F: Field, G: Gadget<F>>(g: &G, w: Option<usize>) -> Result<(Capture<F>, [u8; 16]), String> {
    guarded(|| {
        let mut c = Capture::new(g.ninputs());
        let ins: Vec<Variable<F>> = (0..g.ninputs()).map(Variable::Committed).collect();
        g.build(&mut c, &ins, w);
        let mut end = [0u8; 16];
        c.transcript().challenge_bytes(b"end", &mut end);
        (c, end)
    })
}
fn kinds<F: Field>(c: &Capture<F>) -> Vec<bool> {
    c.gates.iter().map(|g| matches!(g, Gate::Mul)).collect()
}

fn gadget<P: SWCurveConfig, G: Gadget<P::ScalarField>>(ctx: &'static Ctx, g: &G, pc: &PedersenGens<Affine<P>>, bp: &BulletproofGens<Affine<P>>)
where
    P::BaseField: PrimeField,
{
    let name = g.name();
    ctx.add("gadget_instances", 1);
    let (cv, tv) = match capture(g, None) {
        Ok(x) => x,
        Err(e) => return ctx.violation("verifier-circuit", format!("{}: the verifier's circuit cannot be built: {}", name, e)),
    };
    ctx.require(cv.some == 0, "leak", || format!("{}: the verifier passes assignments", name));
    let mut reader: Option<BigReader<P>> = None;
    let mut calibrated = false;
    let mut shape: Option<(usize, usize, usize, usize)> = None;
    for w in 0..g.nwit() {
        let key = format!("{} witness {}", name, w);
        ctx.eval(Some(&key));
        let (cp, tp) = match capture(g, Some(w)) {
            Ok(x) => x,
            Err(e) => {
                if g.honest(w) {
                    ctx.violation("prover-circuit", format!("{}: the prover refuses an honest witness: {}", key, e));
                } else {
                    ctx.add("witnesses_refused_by_the_prover", 1);
                }
                continue;
            }
        };
        ctx.require(cp.none == 0, "missing", || format!("{}: the prover leaves {} allocations without a value", key, cp.none));
        ctx.require(kinds(&cp) == kinds(&cv), "gates", || format!("{}: the prover builds {} gates, the verifier {}, or of another kind", key, cp.gates.len(), cv.gates.len()));
        ctx.require(cp.cons.len() == cv.cons.len(), "constraints", || format!("{}: the prover adds {} constraints, the verifier {}", key, cp.cons.len(), cv.cons.len()));
        ctx.require(cp.muls.len() == cv.muls.len() && cp.muls.iter().zip(&cv.muls).all(|(a, b)| a.0 == b.0), "gates", || format!("{}: multiplications sit elsewhere", key));
        ctx.require(tp == tv, "transcript", || format!("{}: prover and verifier feed the transcript differently", key));
        let mut same = |a: &LinearCombination<P::ScalarField>, b: &LinearCombination<P::ScalarField>| {
            a == b || {
                let rd = reader.get_or_insert_with(|| BigReader::new(pc, cv.ninputs, cv.gates.len().max(cp.gates.len())));
                rd.row(a) == rd.row(b)
            }
        };
        for (i, (a, b)) in cp.cons.iter().zip(&cv.cons).enumerate() {
            ctx.add("rows_compared", 1);
            ctx.require(same(a, b), "constraints", || format!("{}: constraint {} of the prover is not the verifier's", key, i));
        }
        for (a, b) in cp.muls.iter().zip(&cv.muls) {
            ctx.add("rows_compared", 2);
            ctx.require(same(&a.1, &b.1) && same(&a.2, &b.2), "gates", || format!("{}: the inputs of gate {} differ", key, a.0));
        }
        // the real prover and verifier
        let run = guarded(|| {
            let mut p: Prover<_, Affine<P>> = Prover::new(pc, Transcript::new(b"c09"));
            let (mut comms, mut vars) = (vec![], vec![]);
            for v in g.inputs(w) {
                let (c, x) = p.commit(v, P::ScalarField::from(77u64 + comms.len() as u64));
                comms.push(c);
                vars.push(x);
            }
            g.build(&mut p, &vars, Some(w));
            let m = p.metrics();
            (comms, (m.multipliers, m.constraints, m.phase_one_constraints, m.phase_two_constraints), p.prove(bp).map_err(|e| format!("{:?}", e)))
        });
        let (comms, mp, proof) = match run {
            Ok((c, m, Ok(p))) => (c, m, p),
            Ok((_, _, Err(e))) | Err(e) => {
                if g.honest(w) {
                    ctx.violation("prover-circuit", format!("{}: the prover fails on an honest witness: {}", key, e));
                }
                continue;
            }
        };
        ctx.eval(None);
        let verifier = || {
            let mut v: Verifier<_, Affine<P>> = Verifier::new(Transcript::new(b"c09"));
            let vars: Vec<_> = comms.iter().map(|c| v.commit(*c)).collect();
            g.build(&mut v, &vars, None);
            v
        };
        let m = verifier().metrics();
        let mv = (m.multipliers, m.constraints, m.phase_one_constraints, m.phase_two_constraints);
        ctx.require(mp == mv, "counts", || format!("{}: prover counts {:?}, verifier {:?} (gates, constraints, by phase)", key, mp, mv));
        ctx.require(m.multipliers == cv.gates.len(), "counts", || format!("{}: {} gates reported, {} built", key, m.multipliers, cv.gates.len()));
        ctx.require(*shape.get_or_insert(mv) == mv, "counts", || format!("{}: counts {:?} depend on the witness (else {:?})", key, mv, shape));
        let tuple = || guarded(|| verifier().verification_scalars_and_points(&proof).ok()).ok().flatten();
        match (tuple(), tuple()) {
            (Some(a), Some(b)) => match same_circuit(&a, &b, pc, bp) {
                Some(ok) => {
                    // an honest witness first: the split must be meaningful for this gadget
                    if g.honest(w) && matches!(guarded(|| batch_verify(vec![a], pc, bp)), Ok(Ok(()))) {
                        calibrated = ok;
                    }
                    ctx.add("proof_equations", 1);
                    ctx.require(ok || !calibrated, "weights", || format!("{}: the prover's proof is for another circuit than the verifier's", key));
                }
                None => ctx.add("randomiser_not_visible", 1),
            },
            _ => ctx.violation("counts", format!("{}: the verifier refuses the shape of the prover's proof", key)),
        }
    }
}

// ------------------------------------------------------------------------------------------ gadgets

struct Select<F> {
    /// Some: the list is public
    list: Option<Vec<F>>,
    len: usize,
    wit: Vec<Vec<F>>,
}
impl<F: PrimeField> Gadget<F> for Select<F> {
    fn name(&self) -> String {
        format!("select of {} ({})", self.len, if self.list.is_some() { "constants" } else { "variables" })
    }
    fn ninputs(&self) -> usize {
        1 + if self.list.is_some() { 0 } else { self.len }
    }
    fn nwit(&self) -> usize {
        self.wit.len()
    }
    fn honest(&self, w: usize) -> bool {
        let l = self.list.as_deref().unwrap_or(&self.wit[w][1..]);
        l.contains(&self.wit[w][0])
    }
    fn inputs(&self, w: usize) -> Vec<F> {
        self.wit[w].clone()
    }
    fn build<Cs: ConstraintSystem<F>>(&self, cs: &mut Cs, ins: &[Variable<F>], _: Option<usize>) {
        let xs: Vec<LinearCombination<F>> = match &self.list {
            Some(l) => l.iter().map(|v| constant(*v)).collect(),
            None => ins[1..].iter().map(|v| (*v).into()).collect(),
        };
        select(cs, ins[0].into(), xs.into_iter());
    }
}
struct Bits<F>(Vec<F>);
impl<F: PrimeField> Gadget<F> for Bits<F> {
    fn name(&self) -> String {
        "is_bit".into()
    }
    fn ninputs(&self) -> usize {
        1
    }
    fn nwit(&self) -> usize {
        self.0.len()
    }
    fn honest(&self, w: usize) -> bool {
        self.0[w].is_zero() || self.0[w].is_one()
    }
    fn inputs(&self, w: usize) -> Vec<F> {
        vec![self.0[w]]
    }
    fn build<Cs: ConstraintSystem<F>>(&self, cs: &mut Cs, ins: &[Variable<F>], _: Option<usize>) {
        is_bit(cs, ins[0].into());
    }
}
/// A lookup in one table; the outputs are tied to committed values, so that they enter the circuit.
struct Look<F: Field> {
    table: Lookup3Bit<2, F>,
    idx: Vec<(usize, bool)>,
}
impl<F: PrimeField> Gadget<F> for Look<F> {
    fn name(&self) -> String {
        "lookup".into()
    }
    fn ninputs(&self) -> usize {
        2
    }
    fn nwit(&self) -> usize {
        self.idx.len()
    }
    fn honest(&self, w: usize) -> bool {
        self.idx[w].0 < 8 && self.idx[w].1
    }
    fn inputs(&self, w: usize) -> Vec<F> {
        let (i, right) = self.idx[w];
        (0..2).map(|k| self.table.elems[k][(i + !right as usize) % 8]).collect()
    }
    fn build<Cs: ConstraintSystem<F>>(&self, cs: &mut Cs, ins: &[Variable<F>], w: Option<usize>) {
        let out = lookup(cs, &self.table, w.map(|w| self.idx[w].0)).unwrap();
        for (o, i) in out.into_iter().zip(ins) {
            cs.constrain(o - *i);
        }
    }
}
struct Range<F> {
    bits: usize,
    /// committed value, value the bits are taken from
    wit: Vec<(F, u64)>,
}
impl<F: PrimeField> Gadget<F> for Range<F> {
    fn name(&self) -> String {
        format!("range proof of {} bits", self.bits)
    }
    fn ninputs(&self) -> usize {
        1
    }
    fn nwit(&self) -> usize {
        self.wit.len()
    }
    fn honest(&self, w: usize) -> bool {
        let (v, b) = self.wit[w];
        v == F::from(b) && (self.bits >= 64 || b >> self.bits == 0)
    }
    fn inputs(&self, w: usize) -> Vec<F> {
        vec![self.wit[w].0]
    }
    fn build<Cs: ConstraintSystem<F>>(&self, cs: &mut Cs, ins: &[Variable<F>], w: Option<usize>) {
        range_proof(cs, ins[0].into(), w.map(|w| self.wit[w].1), self.bits).unwrap();
    }
}
/// Curve gadgets over P, circuits over P's base field.
enum Kind {
    Check,
    Add,
    CheckedAdd,
}
struct Points<P: SWCurveConfig> {
    kind: Kind,
    /// operands; coordinates of the second are swapped when false
    wit: Vec<(Affine<P>, Affine<P>, bool)>,
}
impl<F: PrimeField, P: SWCurveConfig<BaseField = F>> Gadget<F> for Points<P> {
    fn name(&self) -> String {
        match self.kind {
            Kind::Check => "curve check",
            Kind::Add => "incomplete addition",
            Kind::CheckedAdd => "checked addition",
        }
        .into()
    }
    fn ninputs(&self) -> usize {
        4
    }
    fn nwit(&self) -> usize {
        self.wit.len()
    }
    fn honest(&self, w: usize) -> bool {
        let (a, b, right) = self.wit[w];
        right && !a.is_zero() && !b.is_zero() && (a.x != b.x || matches!(self.kind, Kind::Check))
    }
    fn inputs(&self, w: usize) -> Vec<F> {
        let (a, b, right) = self.wit[w];
        if right { vec![a.x, a.y, b.x, b.y] } else { vec![a.x, a.y, b.y, b.x] }
    }
    fn build<Cs: ConstraintSystem<F>>(&self, cs: &mut Cs, ins: &[Variable<F>], w: Option<usize>) {
        let point = |k: usize| PointRepresentation::<F, Affine<P>> {
            x: ins[2 * k].into(),
            y: ins[2 * k + 1].into(),
            witness: w.map(|w| if k == 0 { self.wit[w].0 } else { self.wit[w].1 }),
        };
        match self.kind {
            Kind::Check => {
                curve_check(cs, ins[0].into(), ins[1].into(), P::COEFF_A, P::COEFF_B);
                curve_check(cs, ins[2].into(), ins[3].into(), P::COEFF_A, P::COEFF_B);
            }
            Kind::Add => {
                let o = incomplete_curve_addition_helper(cs, point(0), point(1));
                curve_check(cs, o.x, o.y, P::COEFF_A, P::COEFF_B);
            }
            Kind::CheckedAdd => {
                let o = checked_curve_addition_helper(cs, point(0), point(1));
                curve_check(cs, o.x, o.y, P::COEFF_A, P::COEFF_B);
            }
        }
    }
}
/// The rerandomization and single-level statements: public result, hidden child and scalar.
struct Level<'a, P: SWCurveConfig + Copy, const M: usize> {
    pr: &'a SingleLayerParameters<P>,
    /// number of children per parent
    l: usize,
    single: bool,
    rerandomize_only: bool,
    /// public
    result: Affine<P>,
    /// children per parent (x of child + delta), children chosen (+ delta), scalar, honest
    wit: Vec<(Vec<P::BaseField>, [Affine<P>; M], P::ScalarField, bool)>,
}
impl<F: PrimeField, S: PrimeField, P: SWCurveConfig<BaseField = F, ScalarField = S> + Copy, const M: usize> Gadget<F> for Level<'_, P, M> {
    fn name(&self) -> String {
        format!("{} L={} M={} of {}", if self.rerandomize_only { "rerandomization" } else if self.single { "single level" } else { "batched level" }, self.l, M, self.result)
    }
    fn ninputs(&self) -> usize {
        if self.rerandomize_only { 2 } else { self.l * M }
    }
    fn nwit(&self) -> usize {
        self.wit.len()
    }
    fn honest(&self, w: usize) -> bool {
        self.wit[w].3
    }
    fn inputs(&self, w: usize) -> Vec<F> {
        if self.rerandomize_only { vec![self.wit[w].1[0].x, self.wit[w].1[0].y] } else { self.wit[w].0.clone() }
    }
    fn build<Cs: ConstraintSystem<F>>(&self, cs: &mut Cs, ins: &[Variable<F>], w: Option<usize>) {
        let kids: Vec<LinearCombination<F>> = ins.iter().map(|v| (*v).into()).collect();
        let r = w.map(|w| self.wit[w].2);
        if self.rerandomize_only {
            let c = PointRepresentation { x: ins[0].into(), y: ins[1].into(), witness: w.map(|w| self.wit[w].1[0]) };
            re_randomize(cs, &self.pr.tables, c, constant(self.result.x), constant(self.result.y), r);
        } else if self.single {
            single_level_select_and_rerandomize(cs, self.pr, &self.result, kids, w.map(|w| self.wit[w].1[0]), r);
        } else {
            single_level_batched_select_and_rerandomize(cs, self.pr, &self.result, kids, w.map(|w| &self.wit[w].1), r);
        }
    }
}

/// All levels of one kind on one curve: every child of every list, scalars from a set, right and wrong.
fn levels<P, Q, const M: usize>(ctx: &'static Ctx, pr: &SelRerandParameters<P, Q>, l: usize, kind: usize)
where
    P: SWCurveConfig + Copy,
    Q: SWCurveConfig<BaseField = P::ScalarField, ScalarField = P::BaseField> + Copy,
    P::BaseField: PrimeField,
    Q::BaseField: PrimeField,
{
    let (p, h) = (&pr.even_parameters, pr.even_parameters.pc_gens.B_blinding.into_group());
    let pts = rel::leaves::<P>(l * M, 9);
    let shift = |a: Affine<P>| (a + p.delta).into_affine();
    let xs: Vec<P::BaseField> = pts.iter().map(|a| shift(*a).x).collect();
    let minus = -P::ScalarField::one();
    let scalars = [P::ScalarField::zero(), P::ScalarField::one(), minus, P::ScalarField::from(0x5a5a_1234_9876_fedcu64), P::ScalarField::from(8u64).pow([5])];
    let nchoice = l.pow(M as u32);
    for choice in 0..nchoice {
        let pick: [Affine<P>; M] = std::array::from_fn(|i| pts[i * l + choice / l.pow(i as u32) % l]);
        let plus = pick.map(shift);
        let sum = pick.iter().fold(Projective::<P>::zero(), |a, b| a + b);
        for (k, r) in scalars.iter().enumerate() {
            if M > 1 && ctx.quick && (choice + k) % 3 != 0 {
                continue;
            }
            let result = (sum + h * r).into_affine();
            // scalar 0 is the exceptional case of the addition chain: not required to be provable
            let mut wit = vec![(xs.clone(), plus, *r, !r.is_zero())];
            // other children, other scalars, lists without the child, points off the list
            let other: [Affine<P>; M] = std::array::from_fn(|i| plus[M - 1 - i]);
            wit.push((xs.clone(), other, *r, false));
            wit.push((xs.clone(), plus, *r + P::ScalarField::one(), false));
            wit.push((xs.clone(), plus, -*r, false));
            wit.push((xs.iter().rev().copied().collect(), plus, *r, false));
            wit.push((vec![P::BaseField::zero(); l * M], plus, *r, false));
            wit.push((vec![xs[0]; l * M], plus, *r, false));
            for i in 0..M {
                let mut o = plus;
                o[i] = shift(P::GENERATOR);
                wit.push((xs.clone(), o, *r, false));
                o[i] = (-plus[i].into_group()).into_affine();
                wit.push((xs.clone(), o, *r, false));
                o[i] = Affine::zero();
                wit.push((xs.clone(), o, *r, false));
            }
            let result = if kind == 0 { (result + p.delta).into_affine() } else { result };
            let g = Level::<P, M> { pr: p, l, single: kind == 1, rerandomize_only: kind == 0, result, wit };
            gadget::<Q, _>(ctx, &g, &pr.odd_parameters.pc_gens, &pr.odd_parameters.bp_gens);
        }
    }
}

fn small_gadgets<P: SWCurveConfig + Copy>(ctx: &'static Ctx, part: usize)
where
    P::BaseField: PrimeField,
    P::ScalarField: PrimeField,
{
    let pc = PedersenGens::<Affine<P>>::default();
    let bp = BulletproofGens::new(256, 1);
    let f = |v: i64| if v < 0 { -P::ScalarField::from((-v) as u64) } else { P::ScalarField::from(v as u64) };
    match part {
        0 => {
            let vals: Vec<_> = [0i64, 1, 2, -1, 7].map(f).to_vec();
            for len in 1..=ctx.pick(4usize, 6) {
                for public in [true, false] {
                    let top = if public { 1 } else { len + 1 };
                    let base = ctx.pick(3usize, if len > 4 { 3 } else { 4 });
                    let all: Vec<Vec<_>> = (0..base.pow((len + 1) as u32)).map(|c| (0..=len).map(|i| vals[c / base.pow(i as u32) % base]).collect()).collect();
                    if public {
                        let mut lists: Vec<Vec<_>> = all.iter().map(|v| v[1..].to_vec()).collect();
                        lists.dedup();
                        for l in lists {
                            gadget::<P, _>(ctx, &Select { list: Some(l), len, wit: vals.iter().map(|v| vec![*v]).collect() }, &pc, &bp);
                        }
                    } else {
                        gadget::<P, _>(ctx, &Select { list: None, len, wit: all.into_iter().map(|v| v[..top].to_vec()).collect() }, &pc, &bp);
                    }
                }
            }
            gadget::<P, _>(ctx, &Bits((-3..10).map(f).collect()), &pc, &bp);
        }
        1 => {
            let table = |m: i64| Lookup3Bit::<2, P::ScalarField> { elems: std::array::from_fn(|k| std::array::from_fn(|i| f(m * (3 + 5 * i as i64 + 100 * k as i64)))) };
            for m in [1, 0, -7] {
                let idx = (0..16).flat_map(|i| [(i, true), (i, false)]).collect();
                gadget::<P, _>(ctx, &Look { table: table(m), idx }, &pc, &bp);
            }
        }
        _ => {
            for bits in (0..=64).filter(|b| ctx.thorough() || b % 8 < 2 || *b == 63) {
                let max = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
                let mut wit = vec![];
                for v in [0, 1, max, max / 2 + 1, max / 3, 5, u64::MAX, 1 << 63] {
                    wit.push((P::ScalarField::from(v), v));
                    wit.push((P::ScalarField::from(v) + P::ScalarField::one(), v));
                    wit.push((-P::ScalarField::from(v), v));
                }
                gadget::<P, _>(ctx, &Range { bits, wit }, &pc, &bp);
            }
        }
    }
}
fn point_gadgets<P, Q>(ctx: &'static Ctx, pr: &SelRerandParameters<P, Q>)
where
    P: SWCurveConfig + Copy,
    Q: SWCurveConfig<BaseField = P::ScalarField, ScalarField = P::BaseField> + Copy,
    P::BaseField: PrimeField,
    Q::BaseField: PrimeField,
{
    let mut pts = rel::leaves::<P>(ctx.pick(3, 6), 3);
    pts.push(P::GENERATOR);
    pts.push((-P::GENERATOR.into_group()).into_affine());
    pts.push((P::GENERATOR + P::GENERATOR).into_affine());
    pts.push(Affine::zero());
    for kind in [Kind::Check, Kind::Add, Kind::CheckedAdd] {
        let wit = pts.iter().flat_map(|a| pts.iter().flat_map(move |b| [(*a, *b, true), (*a, *b, false)])).collect();
        gadget::<Q, _>(ctx, &Points::<P> { kind, wit }, &pr.odd_parameters.pc_gens, &pr.odd_parameters.bp_gens);
    }
}

// ------------------------------------------------------------------------------- whole statements

type Counts = [(usize, usize, usize, usize); 2];
fn counts(a: Metrics, b: Metrics) -> Counts {
    let m = |m: Metrics| (m.multipliers, m.constraints, m.phase_one_constraints, m.phase_two_constraints);
    [m(a), m(b)]
}
macro_rules! wh {
    ($(#[$m:meta])* fn $name:ident<$(const $c:ident),*>($($a:ident: $t:ty),* $(,)?) $(-> $r:ty)? $b:block) => {
        $(#[$m])*
        #[allow(clippy::too_many_arguments)]
        fn $name<$(const $c: usize,)* F0: PrimeField, F1: PrimeField, P0: SWCurveConfig<BaseField = F1, ScalarField = F0> + Copy + Send + Sync, P1: SWCurveConfig<BaseField = F0, ScalarField = F1> + Copy + Send + Sync>($($a: $t),*) $(-> $r)? $b
    };
}
wh! {
    /// Compares a pair of proofs with what the verifier builds.
    fn judge<const L>(ctx: &'static Ctx, key: &str, pr: &SelRerandParameters<P0, P1>, honest: bool, mp: Counts, mv: Counts, tuples: &dyn Fn() -> Option<(VerificationTuple<Affine<P0>>, VerificationTuple<Affine<P1>>)>) {
        ctx.eval(Some(key));
        ctx.require(mp == mv, "counts", || format!("{}: prover counts {:?}, verifier {:?} (gates, constraints, by phase; even, odd)", key, mp, mv));
        match (tuples(), tuples()) {
            (Some((e1, o1)), Some((e2, o2))) => {
                let e = same_circuit(&e1, &e2, &pr.even_parameters.pc_gens, &pr.even_parameters.bp_gens);
                let o = same_circuit(&o1, &o2, &pr.odd_parameters.pc_gens, &pr.odd_parameters.bp_gens);
                for (side, r) in [("even", e), ("odd", o)] {
                    match r {
                        Some(ok) => {
                            ctx.add("proof_equations", 1);
                            ctx.require(ok, "weights", || format!("{}: the prover's {} proof is for another circuit than the verifier's", key, side));
                        }
                        None => ctx.add("randomiser_not_visible", 1),
                    }
                }
                if honest {
                    let ok = |r: Result<Result<(), R1CSError>, String>| matches!(r, Ok(Ok(())));
                    let good = ok(guarded(|| batch_verify(vec![e1], &pr.even_parameters.pc_gens, &pr.even_parameters.bp_gens)))
                        && ok(guarded(|| batch_verify(vec![o1], &pr.odd_parameters.pc_gens, &pr.odd_parameters.bp_gens)));
                    ctx.require(good, "honest", || format!("{}: an honest proof does not satisfy the verifier's circuit", key));
                }
            }
            _ => ctx.violation("shape", format!("{}: the verifier refuses the shape of the prover's proof", key)),
        }
    }
}
/// Witnesses that are wrong at one place: the chosen leaf, or one sibling of one node on the path (its parent's
/// choice is then the changed node, so that all commitments stay consistent).
macro_rules! wrong {
    ($wits:ident, $honest:ident, $pr:ident, $mm:expr, |$w:ident, $m:ident, $k:ident| $even:expr, |$w2:ident, $m2:ident, $k2:ident| $odd:expr) => {{
        let (ev, od) = ($honest.even_internal_nodes.len(), $honest.odd_internal_nodes.len());
        let root_even = ev == od;
        for m in 0..$mm {
            let mut w = $honest.clone();
            {
                let ($w2, $m2, $k2) = (&mut w, m, od - 1);
                let _ = $m2;
                let x: &mut CurveTreeWitness<L, P1, P0> = &mut $odd;
                x.child_witness = (x.child_witness + P0::GENERATOR).into_affine();
            }
            $wits.push((format!("wrong leaf {}", m), w, false));
            for s in 0..=L {
                // s = L: all siblings equal
                for k in 0..ev {
                    let mut w = $honest.clone();
                    let c = {
                        let ($w, $m, $k) = (&mut w, m, k);
                        let _ = $m;
                        let x: &mut CurveTreeWitness<L, P0, P1> = &mut $even;
                        if s == L { x.siblings = [x.siblings[0]; L] } else { x.siblings[s] += F0::one() }
                        $pr.even_parameters.commit(&x.siblings, F0::zero(), m)
                    };
                    if let Some(parent) = if root_even { k.checked_sub(1) } else { Some(k) } {
                        let ($w2, $m2, $k2) = (&mut w, m, parent);
                        let _ = $m2;
                        let x: &mut CurveTreeWitness<L, P1, P0> = &mut $odd;
                        x.child_witness = c;
                    }
                    $wits.push((format!("wrong sibling {} of {} at even {}", s, m, k), w, false));
                }
                for k in 0..od {
                    let mut w = $honest.clone();
                    let c = {
                        let ($w2, $m2, $k2) = (&mut w, m, k);
                        let _ = $m2;
                        let x: &mut CurveTreeWitness<L, P1, P0> = &mut $odd;
                        if s == L { x.siblings = [x.siblings[0]; L] } else { x.siblings[s] += F1::one() }
                        $pr.odd_parameters.commit(&x.siblings, F1::zero(), m)
                    };
                    if let Some(parent) = if root_even { Some(k) } else { k.checked_sub(1) } {
                        let ($w, $m, $k) = (&mut w, m, parent);
                        let _ = $m;
                        let x: &mut CurveTreeWitness<L, P0, P1> = &mut $even;
                        x.child_witness = c;
                    }
                    $wits.push((format!("wrong sibling {} of {} at odd {}", s, m, k), w, false));
                }
            }
        }
    }};
}
wh! {
    fn membership<const L>(ctx: &'static Ctx, curve: &str, n: usize, h: usize, pr: &SelRerandParameters<P0, P1>) {
        let set = rel::leaves::<P0>(n, 4);
        let what = format!("membership {} L={} n={} h={}", curve, L, n, h);
        let t = match guarded(|| CurveTree::<L, 1, P0, P1>::from_set(&set, pr, Some(h))) {
            Ok(t) => t,
            Err(e) => return ctx.violation("tree", format!("{}: {}", what, e)),
        };
        // same height and branching, other contents
        let t2 = CurveTree::<L, 1, P0, P1>::from_set(&rel::leaves::<P0>(1, 77), pr, Some(h));
        let (other_set, t3) = (n, CurveTree::<L, 1, P0, P1>::from_set(&rel::leaves::<P0>(n, 78), pr, Some(h)));
        let pruned = rel::prune(&t);
        let mv_of = |t: &CurveTree<L, 1, P0, P1>, path: &SelectAndRerandomizePath<L, P0, P1>| {
            guarded(|| {
                let mut e: Verifier<_, Affine<P0>> = Verifier::new(Transcript::new(b"c09"));
                let mut o: Verifier<_, Affine<P1>> = Verifier::new(Transcript::new(b"c09"));
                t.select_and_rerandomize_verifier_gadget(&mut e, &mut o, path.clone(), pr);
                counts(e.metrics(), o.metrics())
            })
        };
        let mut first: Option<Counts> = None;
        for i in 0..n {
            let honest = t.select_and_rerandomize_prover_witness(i, 0, pr);
            let mut wits = vec![("honest".to_string(), honest.clone(), true)];
            // a witness for another tree, consistent up to its own root
            if i < other_set {
                wits.push(("another tree".to_string(), t3.select_and_rerandomize_prover_witness(i, 0, pr), false));
            }
            wrong!(wits, honest, pr, 1, |w, _m, k| w.even_internal_nodes[k], |w, _m, k| w.odd_internal_nodes[k]);
            for (kind, w, ok) in wits {
                let key = format!("{} index {} {}", what, i, kind);
                let r = guarded(|| {
                    let mut e: Prover<_, Affine<P0>> = Prover::new(&pr.even_parameters.pc_gens, Transcript::new(b"c09"));
                    let mut o: Prover<_, Affine<P1>> = Prover::new(&pr.odd_parameters.pc_gens, Transcript::new(b"c09"));
                    let (path, _) = w.select_and_rerandomize_prover_gadget(&mut e, &mut o, pr, &mut rand::thread_rng());
                    let m = counts(e.metrics(), o.metrics());
                    Ok::<_, R1CSError>((path, m, e.prove(&pr.even_parameters.bp_gens)?, o.prove(&pr.odd_parameters.bp_gens)?))
                });
                let (path, mp, pe, po) = match r {
                    Ok(Ok(x)) => x,
                    e => {
                        if ok {
                            ctx.violation("prover-circuit", format!("{}: {:?}", key, e.map(|_| ())));
                        } else {
                            ctx.add("witnesses_refused_by_the_prover", 1);
                        }
                        continue;
                    }
                };
                let mv = match mv_of(&t, &path) {
                    Ok(m) => m,
                    Err(e) => {
                        ctx.violation("verifier-circuit", format!("{}: {}", key, e));
                        continue;
                    }
                };
                ctx.require(*first.get_or_insert(mv) == mv, "counts", || format!("{}: the verifier's counts {:?} depend on the statement's witness ({:?})", key, mv, first));
                for (who, other) in [("without the nodes below the root", &pruned), ("in a tree of the same shape", &t2)] {
                    ctx.require(mv_of(other, &path).ok() == Some(mv), "counts", || format!("{}: the verifier's counts change {}", key, who));
                }
                judge::<L, _, _, _, _>(ctx, &key, pr, ok, mp, mv, &|| guarded(|| rel::mem_tuples(&t, &path, &pe, &po, pr, b"c09")).ok().and_then(|r| r.ok()).map(|x| (x.0, x.1)));
            }
        }
        ctx.sample_cat(curve, || what.clone());
    }
}
wh! {
    fn batched<const L, const M>(ctx: &'static Ctx, curve: &str, n: usize, h: usize, pr: &SelRerandParameters<P0, P1>) {
        let set = rel::leaves::<P0>(n, 4);
        let what = format!("batched {} L={} M={} n={} h={}", curve, L, M, n, h);
        let t = match guarded(|| CurveTree::<L, M, P0, P1>::from_set(&set, pr, Some(h))) {
            Ok(t) => t,
            Err(e) => return ctx.violation("tree", format!("{}: {}", what, e)),
        };
        let t3 = CurveTree::<L, M, P0, P1>::from_set(&rel::leaves::<P0>(n, 78), pr, Some(h));
        let pruned = rel::prune(&t);
        let mv_of = |t: &CurveTree<L, M, P0, P1>, path: &SelectAndRerandomizeMultiPath<L, M, P0, P1>| {
            guarded(|| {
                let mut e: Verifier<_, Affine<P0>> = Verifier::new(Transcript::new(b"c09"));
                let mut o: Verifier<_, Affine<P1>> = Verifier::new(Transcript::new(b"c09"));
                t.batched_select_and_rerandomize_verifier_gadget(&mut e, &mut o, path.clone(), pr);
                counts(e.metrics(), o.metrics())
            })
        };
        let mut first: Option<Counts> = None;
        for code in 0..n.pow(M as u32) {
            let idx: [usize; M] = std::array::from_fn(|i| code / n.pow(i as u32) % n);
            let honest = t.select_and_rerandomize_prover_multi_witness(idx, pr);
            let mut wits = vec![("honest".to_string(), honest.clone(), true)];
            wits.push(("another tree".to_string(), t3.select_and_rerandomize_prover_multi_witness(idx, pr), false));
            wrong!(wits, honest, pr, M, |w, m, k| w.even_internal_nodes[k][m], |w, m, k| w.odd_internal_nodes[k][m]);
            for (kind, w, ok) in wits {
                let key = format!("{} indices {:?} {}", what, idx, kind);
                let r = guarded(|| {
                    let mut e: Prover<_, Affine<P0>> = Prover::new(&pr.even_parameters.pc_gens, Transcript::new(b"c09"));
                    let mut o: Prover<_, Affine<P1>> = Prover::new(&pr.odd_parameters.pc_gens, Transcript::new(b"c09"));
                    let (path, _) = w.batched_select_and_rerandomize_prover_gadget(&mut e, &mut o, pr, &mut rand::thread_rng());
                    let m = counts(e.metrics(), o.metrics());
                    Ok::<_, R1CSError>((path, m, e.prove(&pr.even_parameters.bp_gens)?, o.prove(&pr.odd_parameters.bp_gens)?))
                });
                let (path, mp, pe, po) = match r {
                    Ok(Ok(x)) => x,
                    e => {
                        if ok {
                            ctx.violation("prover-circuit", format!("{}: {:?}", key, e.map(|_| ())));
                        } else {
                            ctx.add("witnesses_refused_by_the_prover", 1);
                        }
                        continue;
                    }
                };
                let mv = match mv_of(&t, &path) {
                    Ok(m) => m,
                    Err(e) => {
                        ctx.violation("verifier-circuit", format!("{}: {}", key, e));
                        continue;
                    }
                };
                ctx.require(*first.get_or_insert(mv) == mv, "counts", || format!("{}: the verifier's counts {:?} depend on the statement's witness ({:?})", key, mv, first));
                ctx.require(mv_of(&pruned, &path).ok() == Some(mv), "counts", || format!("{}: the verifier's counts change without the nodes below the root", key));
                judge::<L, _, _, _, _>(ctx, &key, pr, ok, mp, mv, &|| guarded(|| rel::multi_tuples(&t, &path, &pe, &po, pr, b"c09")).ok().and_then(|r| r.ok()).map(|x| (x.0, x.1)));
            }
        }
        ctx.sample_cat(curve, || what.clone());
    }
}

fn mints_and_pours<const L: usize, F0, F1, P0, P1, C>(ctx: &'static Ctx, curve: &str, pr: &SelRerandParameters<P0, P1>, h: usize)
where
    F0: PrimeField,
    F1: PrimeField,
    P0: SWCurveConfig<BaseField = F1, ScalarField = F0> + Copy + Send + Sync,
    P1: SWCurveConfig<BaseField = F0, ScalarField = F1> + Copy + Send + Sync,
    C: CurveGroup,
{
    let w = World::<P0, P1, C>::new(pr);
    let keys: Vec<_> = (0..2).map(|_| w.keys()).collect();
    let same = |a, b, pc: &PedersenGens<Affine<P0>>, bp: &BulletproofGens<Affine<P0>>| same_circuit(&a, &b, pc, bp);
    let mut first = None;
    for v in [0u64, 1, 19, 1 << 32, 1 << 63, u64::MAX] {
        let key = format!("mint {} {}", curve, v);
        ctx.eval(Some(&key));
        let r = guarded(|| {
            let (mut p, _) = w.provers();
            let (_, c, _) = Coin::<P0, C>::mint(v, &keys[0].pk, &w.sig, &pr.even_parameters, &mut rand::thread_rng(), &mut p);
            let m = p.metrics();
            (c, (m.multipliers, m.constraints), p.prove(&pr.even_parameters.bp_gens).unwrap())
        });
        let (c, mp, proof) = match r {
            Ok(x) => x,
            Err(e) => {
                ctx.violation("prover-circuit", format!("{}: {}", key, e));
                continue;
            }
        };
        let verifier = || {
            let mut v = Verifier::new(Transcript::new(DOMAIN));
            verify_mint(&mut v, c);
            v
        };
        let m = verifier().metrics();
        ctx.require(mp == (m.multipliers, m.constraints), "counts", || format!("{}: prover {:?}, verifier {:?}", key, mp, m));
        ctx.require(*first.get_or_insert(mp) == mp, "counts", || format!("{}: counts depend on the value", key));
        let tup = || guarded(|| verifier().verification_scalars_and_points(&proof).ok()).ok().flatten();
        match (tup(), tup()) {
            (Some(a), Some(b)) => {
                let r = same(a, b, &pr.even_parameters.pc_gens, &pr.even_parameters.bp_gens);
                ctx.require(r != Some(false), "weights", || format!("{}: the prover's circuit is not the verifier's", key));
            }
            _ => ctx.violation("shape", format!("{}: refused", key)),
        }
    }
    // pours, balanced and not: the circuit is the same
    for (a, b, x, y) in [(10u64, 20u64, 30u64, 0u64), (10, 20, 5, 25), (10, 20, 31, 0), (0, 0, 1, 0), (u64::MAX, u64::MAX, u64::MAX, 3), (1, 2, u64::MAX, u64::MAX)] {
        let coins: Vec<_> = [(a, 0), (b, 1)].iter().map(|(v, k)| w.coin(*v, &keys[*k as usize].pk)).collect();
        let t = CurveTree::<L, 1, P0, P1>::from_set(&[coins[1].1, coins[0].1], pr, Some(h));
        let key = format!("pour {} h={} {}+{} -> {}+{}", curve, h, a, b, x, y);
        let i0 = w.spending(1, &coins[0].0, &keys[0]);
        let i1 = w.spending(0, &coins[1].0, &keys[1]);
        let honest = a as u128 + b as u128 == x as u128 + y as u128;
        let tx = match w.pour(&t, [&i0, &i1], [(x, keys[1].pk), (y, keys[0].pk)], &mut rand::thread_rng()) {
            Ok(tx) => tx,
            Err(e) => {
                if honest {
                    ctx.violation("prover-circuit", format!("{}: {}", key, e));
                } else {
                    ctx.add("witnesses_refused_by_the_prover", 1);
                }
                continue;
            }
        };
        let zero = [(0, 0, 0, 0); 2];
        judge::<L, _, _, _, _>(ctx, &key, pr, honest, zero, zero, &|| guarded(|| w.open::<L>(&tx).pour.verification_gadget(DOMAIN, pr, &t)).ok());
    }
    ctx.sample_cat(curve, || format!("mint and pour {} h={}", curve, h));
}

/// The split of the verifier's equation must see an unsatisfied circuit as the same circuit, and another circuit
/// as another one; otherwise this check has no instrument.
fn calibrate(ctx: &'static Ctx) {
    type P = m60::Even;
    let pc = PedersenGens::<Affine<P>>::default();
    let bp = BulletproofGens::new(8, 1);
    let run = |wrong: bool, other: bool| {
        let f = |v: u64| m60::Fq::from(v);
        let mut p: Prover<_, Affine<P>> = Prover::new(&pc, Transcript::new(b"cal"));
        let (_, _, o) = p.multiply(constant(f(3)), constant(f(5)));
        p.constrain(o - f(if wrong { 16 } else { 15 }));
        let proof = p.prove(&bp).unwrap();
        let tup = || {
            let mut v: Verifier<_, Affine<P>> = Verifier::new(Transcript::new(b"cal"));
            let (_, _, o) = v.multiply(constant(f(3)), constant(f(5)));
            v.constrain(o * f(if other { 2 } else { 1 }) - f(if other { 30 } else if wrong { 16 } else { 15 }));
            v.verification_scalars_and_points(&proof).unwrap()
        };
        same_circuit(&tup(), &tup(), &pc, &bp)
    };
    let got: Vec<String> = [(false, false), (true, false), (false, true), (true, true)].iter().map(|(a, b)| format!("{:?}", guarded(|| run(*a, *b)).ok().flatten())).collect();
    ctx.note("calibration", format!("inner-product part holds for (satisfied, unsatisfied, another circuit, both): {:?}", got));
    eprintln!("calibration {:?}", got);
}

#[derive(Clone, Debug)]
enum Case {
    Small(usize, usize),
    Points(usize),
    Rerandomize(usize),
    Single(usize, usize),
    Batched(usize, usize, usize),
    Mem(usize, usize, usize, usize),
    Multi(usize, usize, usize, usize, usize),
    Pour(usize, usize),
}

/// Programs over the constraint-system operations, satisfied or not, on prover and verifier.
fn program(ctx: &'static Ctx, w: &[usize], pc: &PedersenGens<m61::EvenA>, bp: &BulletproofGens<m61::EvenA>) {
    use ctmc::circuit::{gates, lc, nvars, nvec, prove, seen_metrics, show, spell, verifier, Op, L};
    let plain = spell(w);
    let all: Vec<(usize, i64)> = (0..nvars(&plain)).map(|i| (i, 2 * i as i64 + 1)).collect();
    let (_, n2) = gates(&plain);
    if n2 > 0 && nvec(&plain) > 0 {
        return;
    }
    for off in 0..3i64 {
        let mut prog = plain.clone();
        if off < 2 {
            prog.push(Op::Constrain(L { t: all.clone(), c: 5 }, off));
            prog.push(Op::Constrain(lc(&[], 3), 0));
        }
        ctx.eval(Some(&show(&prog)));
        let (p, mp) = match guarded(|| prove(&prog, pc, bp, b"c09")) {
            Ok(Ok(p)) => (p, seen_metrics()),
            o => {
                if off != 1 {
                    ctx.violation("prover-circuit", format!("{}: the prover fails: {:?}", show(&prog), o.map(|r| r.err())));
                }
                continue;
            }
        };
        let mut mv = None;
        let mut tuple = || {
            let r = guarded(|| verifier(&prog, &p.comms, bp, b"c09").ok()?.verification_scalars_and_points(&p.proof).ok()).ok().flatten();
            mv.get_or_insert(seen_metrics());
            r
        };
        let (a, b) = (tuple(), tuple());
        let mv = mv.unwrap();
        ctx.require(mp == mv, "counts", || format!("{}: prover counts {:?}, verifier {:?} (gates, constraints, by phase; before every operation)", show(&prog), mp, mv));
        match (a, b) {
            (Some(a), Some(b)) => match same_circuit(&a, &b, pc, bp) {
                Some(ok) => {
                    ctx.add("program_equations", 1);
                    ctx.require(ok, "weights", || format!("{}: the prover's proof is for another circuit than the verifier's", show(&prog)));
                }
                None => ctx.add("randomiser_not_visible", 1),
            },
            _ => ctx.violation("counts", format!("{}: the verifier refuses the shape of the prover's proof", show(&prog))),
        }
    }
}

fn main() {
    let ctx = Ctx::new("C09", "exploration");
    ctx.note("rule", "every gadget x public parameters x witnesses (right and wrong): the circuit recorded without a witness equals the one recorded with it, row by row; metrics of the real prover and verifier agree and do not depend on the witness; the inner-product part of the verifier's equation holds for the prover's proof. Whole membership (every index; wrong child or sibling at every level), batched, mint and pour statements likewise");
    calibrate(ctx);
    let pr61 = SelRerandParameters::<m61::Even, m61::Odd>::new(2048, 2048);
    let pr60 = SelRerandParameters::<m60::Even, m60::Odd>::new(2048, 2048);
    let pr62 = SelRerandParameters::<m62::Even, m62::Odd>::new(2048, 2048);
    let pr126 = SelRerandParameters::<m126::Even, m126::Odd>::new(4096, 4096);
    let prp = SelRerandParameters::<ark_pallas::PallasConfig, ark_vesta::VestaConfig>::new(4096, 4096);
    {
        let (pc, bp) = (PedersenGens::<m61::EvenA>::default(), BulletproofGens::<m61::EvenA>::new(64, 1));
        let words = ctmc::circuit::words(ctx.pick(3, 4));
        ctx.cases(&words, |w| format!("{:?}", w), |w| program(ctx, w, &pc, &bp));
    }
    let mut cases = vec![];
    for part in 0..3 {
        cases.push(Case::Small(0, part));
        cases.push(Case::Small(1, part));
        cases.push(Case::Small(2, part));
    }
    for c in 0..5 {
        cases.push(Case::Points(c));
        if c < 3 || ctx.thorough() {
            cases.push(Case::Rerandomize(c));
        }
    }
    for c in 0..ctx.pick(3, 5) {
        for l in 1..=ctx.pick(3, 5) {
            cases.push(Case::Single(c, l));
        }
    }
    for c in 0..ctx.pick(2, 3) {
        for (m, l) in [(1, 2), (2, 2), (2, 3), (3, 2)] {
            cases.push(Case::Batched(c, m, l));
        }
    }
    for c in 0..ctx.pick(3, 5) {
        for (l, n, h) in [(2, 1, 1), (2, 2, 1), (2, 3, 2), (2, 4, 3), (3, 3, 1), (3, 4, 2), (4, 5, 2), (2, 8, 3), (2, 2, 4), (1, 1, 2), (1, 1, 3)] {
            if ctx.quick && (n > 5 || h > 3 || (c > 0 && n > 4)) {
                continue;
            }
            cases.push(Case::Mem(c, l, n, h));
        }
    }
    for c in 0..ctx.pick(2, 4) {
        for (l, m, n, h) in [(2, 1, 3, 2), (2, 2, 2, 1), (2, 2, 3, 2), (3, 2, 3, 1), (2, 2, 2, 3), (2, 3, 2, 1), (2, 3, 2, 2)] {
            if ctx.quick && c > 0 && m * h > 3 {
                continue;
            }
            cases.push(Case::Multi(c, l, m, n, h));
        }
    }
    for h in 1..=ctx.pick(2, 3) {
        cases.push(Case::Pour(3, h));
        if ctx.thorough() || h == 1 {
            cases.push(Case::Pour(4, h));
        }
    }
    cases.reverse();
    macro_rules! on {
        ($c:expr, $f:ident::<$($g:tt),*>, $ctx:expr $(, $a:expr)*) => {
            match $c {
                0 => on!(@ m61::Even, m61::Odd, pr61, $f, $ctx $(, $a)*; $($g),*),
                1 => on!(@ m60::Even, m60::Odd, pr60, $f, $ctx $(, $a)*; $($g),*),
                2 => on!(@ m62::Even, m62::Odd, pr62, $f, $ctx $(, $a)*; $($g),*),
                3 => on!(@ m126::Even, m126::Odd, pr126, $f, $ctx $(, $a)*; $($g),*),
                _ => on!(@ ark_pallas::PallasConfig, ark_vesta::VestaConfig, prp, $f, $ctx $(, $a)*; $($g),*),
            }
        };
        (@ $p:ty, $q:ty, $pr:ident, levels, $ctx:expr, $l:expr, $k:expr; $m:literal) => { levels::<$p, $q, $m>($ctx, &$pr, $l, $k) };
        (@ $p:ty, $q:ty, $pr:ident, points, $ctx:expr; $m:literal) => { point_gadgets::<$p, $q>($ctx, &$pr) };
        (@ $p:ty, $q:ty, $pr:ident, membership, $ctx:expr, $n:expr, $h:expr; $l:literal) => { membership::<$l, _, _, $p, $q>($ctx, stringify!($pr), $n, $h, &$pr) };
        (@ $p:ty, $q:ty, $pr:ident, batched, $ctx:expr, $n:expr, $h:expr; $l:literal, $m:literal) => { batched::<$l, $m, _, _, $p, $q>($ctx, stringify!($pr), $n, $h, &$pr) };
    }
    ctx.cases(&cases, |c| format!("{:?}", c), |c| match c {
        Case::Small(0, p) => small_gadgets::<m60::Even>(ctx, *p),
        Case::Small(1, p) => small_gadgets::<m126::Even>(ctx, *p),
        Case::Small(_, p) => small_gadgets::<ark_pallas::PallasConfig>(ctx, *p),
        Case::Points(c) => on!(*c, points::<0>, ctx),
        Case::Rerandomize(c) => on!(*c, levels::<1>, ctx, 3, 0),
        Case::Single(c, l) => on!(*c, levels::<1>, ctx, *l, 1),
        Case::Batched(c, 1, l) => on!(*c, levels::<1>, ctx, *l, 2),
        Case::Batched(c, 2, l) => on!(*c, levels::<2>, ctx, *l, 2),
        Case::Batched(c, _, l) => on!(*c, levels::<3>, ctx, *l, 2),
        Case::Mem(c, 1, n, h) => on!(*c, membership::<1>, ctx, *n, *h),
        Case::Mem(c, 2, n, h) => on!(*c, membership::<2>, ctx, *n, *h),
        Case::Mem(c, 3, n, h) => on!(*c, membership::<3>, ctx, *n, *h),
        Case::Mem(c, _, n, h) => on!(*c, membership::<4>, ctx, *n, *h),
        Case::Multi(c, 2, 1, n, h) => on!(*c, batched::<2, 1>, ctx, *n, *h),
        Case::Multi(c, 2, 2, n, h) => on!(*c, batched::<2, 2>, ctx, *n, *h),
        Case::Multi(c, 3, 2, n, h) => on!(*c, batched::<3, 2>, ctx, *n, *h),
        Case::Multi(c, _, _, n, h) => on!(*c, batched::<2, 3>, ctx, *n, *h),
        Case::Pour(3, h) => mints_and_pours::<2, _, _, _, _, Projective<m126::Even>>(ctx, "m126", &pr126, *h),
        Case::Pour(_, h) => mints_and_pours::<2, _, _, _, _, ark_pallas::Projective>(ctx, "pallas", &prp, *h),
    });
    ctx.finish();
}
