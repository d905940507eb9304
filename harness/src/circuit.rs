//! Small circuits as data: the same program is run on the prover, on the verifier and on a reference
//! interpreter over plain field values.
use ark_ec::AffineRepr;
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use ark_ff::{Field, One, Zero};
use bulletproofs::r1cs::*;
use bulletproofs::{BulletproofGens, PedersenGens};
use merlin::Transcript;

/// Linear combination by variable index (in creation order) plus a constant.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct L {
    pub t: Vec<(usize, i64)>,
    pub c: i64,
}
pub fn lc(t: &[(usize, i64)], c: i64) -> L {
    L { t: t.to_vec(), c }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Commit(i64),
    CommitVec(Vec<i64>),
    Alloc(i64),
    AllocMul(i64, i64),
    Mul(L, L),
    /// `lc - (its honest value) + off = 0`; off = 0 is satisfied by construction.
    Constrain(L, i64),
    /// A second-phase callback: draws one challenge c per callback.
    Phase2(Vec<Op2>),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Op2 {
    /// c * (lc - honest value + off) = 0
    ConstrainC(L, i64),
    /// multiply(lc + c, lc2 - c)
    MulC(L, L),
    /// allocate one variable with an honest value that may depend on the challenge: v + c
    AllocC(i64),
    AllocMulC(i64, i64),
}

pub type Prog = Vec<Op>;

pub fn f<F: Field>(v: i64) -> F {
    if v >= 0 {
        F::from(v as u64)
    } else {
        -F::from((-v) as u64)
    }
}

fn build<F: Field>(l: &L, vars: &[Variable<F>]) -> LinearCombination<F> {
    let mut out: LinearCombination<F> = LinearCombination::default();
    for (i, c) in &l.t {
        out = out + vars[*i] * f::<F>(*c);
    }
    out + constant::<F, F>(f::<F>(l.c))
}
fn value<F: Field>(l: &L, vals: &[F]) -> F {
    let mut s = f::<F>(l.c);
    for (i, c) in &l.t {
        s += vals[*i] * f::<F>(*c);
    }
    s
}

/// How to obtain commitments: the prover creates them, the verifier is given them.
pub trait Party<C: AffineRepr>: RandomizableConstraintSystem<C::ScalarField> {
    fn p_commit(&mut self, v: C::ScalarField, io: &mut Io<C>) -> Variable<C::ScalarField>;
    fn p_commit_vec(&mut self, v: &[C::ScalarField], io: &mut Io<C>) -> Vec<Variable<C::ScalarField>>;
    const PROVER: bool;
}
pub struct Io<'a, C: AffineRepr> {
    pub comms: Vec<C>,
    pub next: usize,
    pub blinding: u64,
    pub bp: &'a BulletproofGens<C>,
    /// verifier: declared dimension of the i-th commitment overrides
    pub dim_override: Option<(usize, usize)>,
}
impl<'g, C: AffineRepr, T: std::borrow::BorrowMut<Transcript>> Party<C> for Prover<'g, T, C> {
    const PROVER: bool = true;
    fn p_commit(&mut self, v: C::ScalarField, io: &mut Io<C>) -> Variable<C::ScalarField> {
        io.blinding = io.blinding.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let (c, var) = self.commit(v, C::ScalarField::from(io.blinding));
        io.comms.push(c);
        var
    }
    fn p_commit_vec(&mut self, v: &[C::ScalarField], io: &mut Io<C>) -> Vec<Variable<C::ScalarField>> {
        io.blinding = io.blinding.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let (c, vars) = self.commit_vec(v, C::ScalarField::from(io.blinding), io.bp);
        io.comms.push(c);
        vars
    }
}
impl<C: AffineRepr, T: std::borrow::BorrowMut<Transcript>> Party<C> for Verifier<T, C> {
    const PROVER: bool = false;
    fn p_commit(&mut self, _v: C::ScalarField, io: &mut Io<C>) -> Variable<C::ScalarField> {
        let c = io.comms[io.next];
        io.next += 1;
        self.commit(c)
    }
    fn p_commit_vec(&mut self, v: &[C::ScalarField], io: &mut Io<C>) -> Vec<Variable<C::ScalarField>> {
        let c = io.comms[io.next];
        let mut dim = v.len();
        if let Some((i, d)) = io.dim_override {
            if i == io.next {
                dim = d;
            }
        }
        io.next += 1;
        let mut vars = self.commit_vec(dim, c);
        // a smaller declared dimension leaves variables that cannot be named; alias them
        while vars.len() < v.len() {
            let l = vars.last().copied().unwrap_or(Variable::One(Default::default()));
            vars.push(l);
        }
        vars.truncate(v.len().max(0));
        vars
    }
}

/// Run a program. `vals` are the reference values of the variables (always computed: constants of the
/// constraints are public and derived from them).
pub fn run<C: AffineRepr, P: Party<C>>(p: &mut P, prog: &Prog, io: &mut Io<C>) -> Result<(), R1CSError> {
    type F<C> = <C as AffineRepr>::ScalarField;
    let mut vars: Vec<Variable<F<C>>> = vec![];
    let mut vals: Vec<F<C>> = vec![];
    CHAL.with(|x| x.borrow_mut().clear());
    METRICS.with(|x| x.borrow_mut().clear());
    for op in prog {
        note(p.metrics());
        match op {
            Op::Commit(v) => {
                let v = f::<F<C>>(*v);
                vars.push(p.p_commit(v, io));
                vals.push(v);
            }
            Op::CommitVec(vs) => {
                let vs: Vec<F<C>> = vs.iter().map(|v| f::<F<C>>(*v)).collect();
                vars.extend(p.p_commit_vec(&vs, io));
                vals.extend(vs);
            }
            Op::Alloc(v) => {
                let v = f::<F<C>>(*v);
                vars.push(p.allocate(if P::PROVER { Some(v) } else { None })?);
                vals.push(v);
            }
            Op::AllocMul(l, r) => {
                let (l, r) = (f::<F<C>>(*l), f::<F<C>>(*r));
                let (a, b, c) = p.allocate_multiplier(if P::PROVER { Some((l, r)) } else { None })?;
                vars.extend([a, b, c]);
                vals.extend([l, r, l * r]);
            }
            Op::Mul(l, r) => {
                let (a, b, c) = p.multiply(build(l, &vars), build(r, &vars));
                vars.extend([a, b, c]);
                let (lv, rv) = (value(l, &vals), value(r, &vals));
                vals.extend([lv, rv, lv * rv]);
            }
            Op::Constrain(l, off) => {
                let v = value(l, &vals);
                p.constrain(build(l, &vars) - constant::<F<C>, F<C>>(v - f::<F<C>>(*off)));
            }
            Op::Phase2(ops) => {
                let (ops, vars, vals) = (ops.clone(), vars.clone(), vals.clone());
                let prover = P::PROVER;
                p.specify_randomized_constraints(move |cs| {
                    let c = cs.challenge_scalar(b"phase2");
                    CHAL.with(|x| {
                        let mut b = vec![];
                        let _ = c.serialize_uncompressed(&mut b);
                        x.borrow_mut().push(b)
                    });
                    let (mut vars, mut vals) = (vars, vals);
                    for op in &ops {
                        note(cs.metrics());
                        match op {
                            Op2::ConstrainC(l, off) => {
                                let v = value(l, &vals);
                                let e = build(l, &vars) - constant::<F<C>, F<C>>(v - f::<F<C>>(*off));
                                cs.constrain(e * c);
                            }
                            Op2::MulC(l, r) => {
                                let le = build(l, &vars) + constant::<F<C>, F<C>>(c);
                                let re = build(r, &vars) - constant::<F<C>, F<C>>(c);
                                let (a, b, o) = cs.multiply(le, re);
                                vars.extend([a, b, o]);
                                let (lv, rv) = (value(l, &vals) + c, value(r, &vals) - c);
                                vals.extend([lv, rv, lv * rv]);
                                // pin the output so that the gate matters
                                cs.constrain(o - constant::<F<C>, F<C>>(lv * rv));
                            }
                            Op2::AllocC(v) => {
                                let v = f::<F<C>>(*v) + c;
                                let a = cs.allocate(if prover { Some(v) } else { None })?;
                                vars.push(a);
                                vals.push(v);
                                cs.constrain(a - constant::<F<C>, F<C>>(v));
                            }
                            Op2::AllocMulC(l, r) => {
                                let (l, r) = (f::<F<C>>(*l) + c, f::<F<C>>(*r) - c);
                                let (a, b, o) = cs.allocate_multiplier(if prover { Some((l, r)) } else { None })?;
                                vars.extend([a, b, o]);
                                vals.extend([l, r, l * r]);
                                cs.constrain(a + b + o - constant::<F<C>, F<C>>(l + r + l * r));
                            }
                        }
                    }
                    note(cs.metrics());
                    Ok(())
                })?;
            }
        }
    }
    note(p.metrics());
    Ok(())
}

pub fn nvars(prog: &Prog) -> usize {
    prog.iter()
        .map(|o| match o {
            Op::Commit(_) | Op::Alloc(_) => 1,
            Op::CommitVec(v) => v.len(),
            Op::AllocMul(..) | Op::Mul(..) => 3,
            _ => 0,
        })
        .sum()
}
/// Number of multipliers after the first phase, before padding to vector dimensions.
pub fn gates(prog: &Prog) -> (usize, usize) {
    let (mut n, mut pend, mut maxdim) = (0, false, 0);
    for o in prog {
        match o {
            Op::Alloc(_) => {
                if pend {
                    pend = false
                } else {
                    n += 1;
                    pend = true
                }
            }
            Op::AllocMul(..) | Op::Mul(..) => n += 1,
            Op::CommitVec(v) => maxdim = maxdim.max(v.len()),
            _ => {}
        }
    }
    let n1 = n.max(maxdim);
    let mut n2 = 0;
    let mut pend2 = false;
    for o in prog {
        if let Op::Phase2(ops) = o {
            for o in ops {
                match o {
                    Op2::MulC(..) | Op2::AllocMulC(..) => n2 += 1,
                    Op2::AllocC(_) => {
                        if pend2 {
                            pend2 = false
                        } else {
                            n2 += 1;
                            pend2 = true
                        }
                    }
                    _ => {}
                }
            }
        }
    }
    (n1, n2)
}
pub fn nvec(prog: &Prog) -> usize {
    prog.iter().filter(|o| matches!(o, Op::CommitVec(_))).count()
}
pub fn show(prog: &Prog) -> String {
    format!("{:?}", prog)
}

pub struct Proved<C: AffineRepr> {
    pub proof: R1CSProof<C>,
    pub comms: Vec<C>,
}

pub fn prove<C: AffineRepr>(
    prog: &Prog,
    pc: &PedersenGens<C>,
    bp: &BulletproofGens<C>,
    label: &'static [u8],
) -> Result<Proved<C>, R1CSError> {
    let mut tr = Transcript::new(label);
    let mut p = Prover::new(pc, &mut tr);
    let mut io = Io { comms: vec![], next: 0, blinding: 77, bp, dim_override: None };
    run(&mut p, prog, &mut io)?;
    let proof = p.prove(bp)?;
    Ok(Proved { proof, comms: io.comms })
}

pub fn verifier<C: AffineRepr>(
    prog: &Prog,
    comms: &[C],
    bp: &BulletproofGens<C>,
    label: &'static [u8],
) -> Result<Verifier<Transcript, C>, R1CSError> {
    let mut v = Verifier::new(Transcript::new(label));
    let mut io = Io { comms: comms.to_vec(), next: 0, blinding: 0, bp, dim_override: None };
    run(&mut v, prog, &mut io)?;
    Ok(v)
}
pub fn verify<C: AffineRepr>(
    prog: &Prog,
    comms: &[C],
    proof: &R1CSProof<C>,
    pc: &PedersenGens<C>,
    bp: &BulletproofGens<C>,
    label: &'static [u8],
) -> Result<(), R1CSError> {
    verifier(prog, comms, bp, label)?.verify(proof, pc, bp)
}
#[allow(dead_code)]
fn _unused<F: Field>() -> (F, F) {
    (F::zero(), F::one())
}

/// Reference variables.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RV {
    V(usize),
    C(usize, usize),
    Lf(usize),
    Rt(usize),
    Ot(usize),
}
/// The circuit a program denotes, computed without the code under test, with its honest assignment.
#[derive(Clone, Debug)]
pub struct RefCirc<F> {
    /// number of gates after the first phase (padded to the vector dimensions) and in total
    pub n1: usize,
    pub n: usize,
    /// sum of terms + constant = 0
    pub cons: Vec<(Vec<(RV, F)>, F)>,
    pub al: Vec<F>,
    pub ar: Vec<F>,
    pub ao: Vec<F>,
    pub v: Vec<F>,
    pub vecs: Vec<Vec<F>>,
    /// reference variable of each program variable
    pub vars: Vec<RV>,
}
impl<F: Field> RefCirc<F> {
    pub fn get(&self, r: RV) -> F {
        match r {
            RV::V(i) => self.v[i],
            RV::C(j, i) => self.vecs[j][i],
            RV::Lf(i) => self.al[i],
            RV::Rt(i) => self.ar[i],
            RV::Ot(i) => self.ao[i],
        }
    }
    fn lcv(&self, l: &L, vars: &[RV]) -> (Vec<(RV, F)>, F) {
        (l.t.iter().map(|(i, c)| (vars[*i], f::<F>(*c))).collect(), f::<F>(l.c))
    }
    fn ev(&self, e: &(Vec<(RV, F)>, F)) -> F {
        e.0.iter().map(|(v, c)| self.get(*v) * c).sum::<F>() + e.1
    }
    fn gate(&mut self, l: F, r: F) -> usize {
        self.al.push(l);
        self.ar.push(r);
        self.ao.push(l * r);
        self.al.len() - 1
    }
    fn mul(&mut self, mut l: (Vec<(RV, F)>, F), mut r: (Vec<(RV, F)>, F)) -> [RV; 3] {
        let (lv, rv) = (self.ev(&l), self.ev(&r));
        let g = self.gate(lv, rv);
        l.0.push((RV::Lf(g), -F::one()));
        r.0.push((RV::Rt(g), -F::one()));
        self.cons.push(l);
        self.cons.push(r);
        [RV::Lf(g), RV::Rt(g), RV::Ot(g)]
    }
    /// `chal`: the challenge of each second-phase callback.
    pub fn new(prog: &Prog, chal: &[F]) -> Self {
        let mut s = RefCirc { n1: 0, n: 0, cons: vec![], al: vec![], ar: vec![], ao: vec![], v: vec![], vecs: vec![], vars: vec![] };
        let mut pend: Option<usize> = None;
        let mut deferred = vec![];
        let alloc = |s: &mut Self, pend: &mut Option<usize>, v: F| -> RV {
            match pend.take() {
                None => {
                    let g = s.gate(v, F::zero());
                    *pend = Some(g);
                    RV::Lf(g)
                }
                Some(g) => {
                    s.ar[g] = v;
                    s.ao[g] = s.al[g] * v;
                    RV::Rt(g)
                }
            }
        };
        for op in prog {
            match op {
                Op::Commit(v) => {
                    s.v.push(f::<F>(*v));
                    s.vars.push(RV::V(s.v.len() - 1));
                }
                Op::CommitVec(vs) => {
                    let j = s.vecs.len();
                    s.vecs.push(vs.iter().map(|v| f::<F>(*v)).collect());
                    s.vars.extend((0..vs.len()).map(|i| RV::C(j, i)));
                }
                Op::Alloc(v) => {
                    let r = alloc(&mut s, &mut pend, f::<F>(*v));
                    s.vars.push(r);
                }
                Op::AllocMul(l, r) => {
                    let g = s.gate(f::<F>(*l), f::<F>(*r));
                    s.vars.extend([RV::Lf(g), RV::Rt(g), RV::Ot(g)]);
                }
                Op::Mul(l, r) => {
                    let vars = s.vars.clone();
                    let (l, r) = (s.lcv(l, &vars), s.lcv(r, &vars));
                    let x = s.mul(l, r);
                    s.vars.extend(x);
                }
                Op::Constrain(l, off) => {
                    let vars = s.vars.clone();
                    let mut e = s.lcv(l, &vars);
                    let v = s.ev(&e);
                    e.1 -= v - f::<F>(*off);
                    s.cons.push(e);
                }
                Op::Phase2(ops) => deferred.push((ops.clone(), s.vars.clone())),
            }
        }
        let maxdim = s.vecs.iter().map(|v| v.len()).max().unwrap_or(0);
        while s.al.len() < maxdim {
            s.gate(F::zero(), F::zero());
        }
        s.n1 = s.al.len();
        let mut pend: Option<usize> = None;
        for (k, (ops, mut vars)) in deferred.into_iter().enumerate() {
            let c = chal.get(k).copied().unwrap_or(F::one());
            for op in &ops {
                match op {
                    Op2::ConstrainC(l, off) => {
                        let mut e = s.lcv(l, &vars);
                        let v = s.ev(&e);
                        e.1 -= v - f::<F>(*off);
                        for t in e.0.iter_mut() {
                            t.1 *= c;
                        }
                        e.1 *= c;
                        s.cons.push(e);
                    }
                    Op2::MulC(l, r) => {
                        let (mut l, mut r) = (s.lcv(l, &vars), s.lcv(r, &vars));
                        l.1 += c;
                        r.1 -= c;
                        let x = s.mul(l, r);
                        vars.extend(x);
                        let o = s.get(x[2]);
                        s.cons.push((vec![(x[2], F::one())], -o));
                    }
                    Op2::AllocC(v) => {
                        let r = alloc(&mut s, &mut pend, f::<F>(*v) + c);
                        vars.push(r);
                        let o = s.get(r);
                        s.cons.push((vec![(r, F::one())], -o));
                    }
                    Op2::AllocMulC(l, r) => {
                        let g = s.gate(f::<F>(*l) + c, f::<F>(*r) - c);
                        let x = [RV::Lf(g), RV::Rt(g), RV::Ot(g)];
                        vars.extend(x);
                        let sum = s.get(x[0]) + s.get(x[1]) + s.get(x[2]);
                        s.cons.push((x.iter().map(|v| (*v, F::one())).collect(), -sum));
                    }
                }
            }
        }
        s.n = s.al.len();
        s
    }
    pub fn satisfied(&self) -> bool {
        (0..self.n).all(|i| self.al[i] * self.ar[i] == self.ao[i]) && self.cons.iter().all(|c| self.ev(c).is_zero())
    }
}

thread_local! {
    /// Second-phase challenges seen by the last run on this thread (as bytes).
    /// what the constraint system reported before every operation of the last run
    static METRICS: std::cell::RefCell<Vec<(usize, usize, usize, usize)>> = std::cell::RefCell::new(vec![]);
    pub static CHAL: std::cell::RefCell<Vec<Vec<u8>>> = std::cell::RefCell::new(vec![]);
}
fn note(m: Metrics) {
    METRICS.with(|x| x.borrow_mut().push((m.multipliers, m.constraints, m.phase_one_constraints, m.phase_two_constraints)));
}
/// Multipliers, constraints, and those of the first and of the second phase, before every operation and after the last.
pub fn seen_metrics() -> Vec<(usize, usize, usize, usize)> {
    METRICS.with(|x| x.borrow().clone())
}
pub fn seen_challenges<F: Field>() -> Vec<F> {
    CHAL.with(|c| c.borrow().iter().map(|b| F::deserialize_uncompressed(&b[..]).unwrap()).collect())
}
/// The alphabet; `k` numbers the operation so that values and coefficients differ.
pub fn letter(a: usize, prog: &Prog) -> Op {
    let k = prog.len() as i64;
    let n = nvars(prog);
    let all = |m: i64| -> L {
        L { t: (0..n).map(|i| (i, (i as i64 + 2) * m - 1)).collect(), c: k - 1 }
    };
    let last = |d: usize, m: i64| -> L {
        if n == 0 {
            lc(&[], m)
        } else {
            lc(&[(n - 1 - d.min(n - 1), m)], k)
        }
    };
    match a {
        0 => Op::AllocMul(3 + k, -2 - k),
        1 => Op::Alloc(5 + k),
        2 => Op::Mul(last(0, 1), last(1, 2)),
        3 => Op::Constrain(all(1), 0),
        4 => Op::Commit(7 - k),
        5 => Op::CommitVec(vec![4 + k]),
        6 => Op::CommitVec(vec![1 + k, 0, -3]),
        7 => Op::Phase2(vec![Op2::ConstrainC(all(3), 0)]),
        8 => Op::Phase2(vec![Op2::MulC(last(0, 1), last(1, 1)), Op2::AllocC(2)]),
        9 => Op::Phase2(vec![Op2::AllocMulC(2, 3), Op2::ConstrainC(all(2), 0)]),
        _ => unreachable!(),
    }
}
pub const LETTERS: usize = 10;

/// All programs of at most `depth` letters.
pub fn words(depth: usize) -> Vec<Vec<usize>> {
    let mut all: Vec<Vec<usize>> = vec![vec![]];
    let mut layer = all.clone();
    for _ in 0..depth {
        layer = layer.iter().flat_map(|w| (0..LETTERS).map(move |a| [&w[..], &[a]].concat())).collect();
        all.extend(layer.iter().cloned());
    }
    all
}
pub fn spell(w: &[usize]) -> Prog {
    let mut p: Prog = vec![];
    for a in w {
        let o = letter(*a, &p);
        p.push(o);
    }
    p
}
