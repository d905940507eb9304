//! Circuits of the code under test as data, and an exhaustive solver for them.
//!
//! `Capture` is a `ConstraintSystem` that records what a gadget builds. The coefficients of the recorded
//! linear combinations are read through the implementation's own `Prover::eval` on unit assignments, so
//! the harness has no opinion on how combinations are represented.
use ark_ec::short_weierstrass::{Affine, SWCurveConfig};
use ark_ff::{Field, PrimeField};
use bulletproofs::r1cs::*;
use bulletproofs::PedersenGens;
use merlin::Transcript;

#[derive(Clone, Debug, PartialEq)]
pub enum Gate<F: Field> {
    /// allocated; honest values if there are any
    Alloc(Option<F>, Option<F>),
    Mul,
}
#[derive(Clone)]
pub struct Capture<F: Field> {
    pub ninputs: usize,
    pub gates: Vec<Gate<F>>,
    /// combinations that must be zero
    pub cons: Vec<LinearCombination<F>>,
    /// gate inputs: (gate, left, right)
    pub muls: Vec<(usize, LinearCombination<F>, LinearCombination<F>)>,
    pending: Option<usize>,
    transcript: Transcript,
    /// an honest prover passed an assignment everywhere / nowhere
    pub some: usize,
    pub none: usize,
}
impl<F: Field> Capture<F> {
    pub fn new(ninputs: usize) -> Self {
        Capture { ninputs, gates: vec![], cons: vec![], muls: vec![], pending: None, transcript: Transcript::new(b"capture"), some: 0, none: 0 }
    }
    pub fn input(&self, i: usize) -> LinearCombination<F> {
        assert!(i < self.ninputs);
        Variable::Committed(i).into()
    }
}
impl<F: Field> ConstraintSystem<F> for Capture<F> {
    fn transcript(&mut self) -> &mut Transcript {
        &mut self.transcript
    }
    fn multiply(&mut self, left: LinearCombination<F>, right: LinearCombination<F>) -> (Variable<F>, Variable<F>, Variable<F>) {
        let i = self.gates.len();
        self.gates.push(Gate::Mul);
        self.muls.push((i, left, right));
        (Variable::MultiplierLeft(i), Variable::MultiplierRight(i), Variable::MultiplierOutput(i))
    }
    fn allocate(&mut self, a: Option<F>) -> Result<Variable<F>, R1CSError> {
        if a.is_some() { self.some += 1 } else { self.none += 1 }
        match self.pending.take() {
            None => {
                let i = self.gates.len();
                self.gates.push(Gate::Alloc(a, a.map(|_| F::zero())));
                self.pending = Some(i);
                Ok(Variable::MultiplierLeft(i))
            }
            Some(i) => {
                if let Gate::Alloc(_, r) = &mut self.gates[i] {
                    *r = a;
                }
                Ok(Variable::MultiplierRight(i))
            }
        }
    }
    fn allocate_multiplier(&mut self, a: Option<(F, F)>) -> Result<(Variable<F>, Variable<F>, Variable<F>), R1CSError> {
        if a.is_some() { self.some += 1 } else { self.none += 1 }
        let i = self.gates.len();
        self.gates.push(Gate::Alloc(a.map(|a| a.0), a.map(|a| a.1)));
        Ok((Variable::MultiplierLeft(i), Variable::MultiplierRight(i), Variable::MultiplierOutput(i)))
    }
    fn metrics(&self) -> Metrics {
        Metrics { multipliers: self.gates.len(), constraints: self.cons.len() + 2 * self.muls.len(), phase_one_constraints: self.cons.len() + 2 * self.muls.len(), phase_two_constraints: 0 }
    }
    fn constrain(&mut self, lc: LinearCombination<F>) {
        self.cons.push(lc);
    }
}

pub type Row<F> = (Vec<(usize, F)>, F); // sum c_i x_i + const

/// Variables: inputs, then left, right, output of gate 0, 1, ...
#[derive(Clone)]
pub struct Sys<F: Field> {
    pub ninputs: usize,
    pub ngates: usize,
    pub lin: Vec<Row<F>>,
    pub mulrows: Vec<(usize, Row<F>, Row<F>)>,
    pub honest: Vec<Gate<F>>,
}
impl<F: Field> Sys<F> {
    pub fn nvars(&self) -> usize {
        self.ninputs + 3 * self.ngates
    }
}
/// Index of a circuit variable in a `Sys`.
pub fn var_index<F: Field>(ninputs: usize, v: Variable<F>) -> Option<usize> {
    Some(match v {
        Variable::Committed(i) => i,
        Variable::MultiplierLeft(i) => ninputs + 3 * i,
        Variable::MultiplierRight(i) => ninputs + 3 * i + 1,
        Variable::MultiplierOutput(i) => ninputs + 3 * i + 2,
        _ => return None,
    })
}

/// Reads coefficients through the real prover's evaluation.
pub struct Reader<'g, P: SWCurveConfig> {
    ninputs: usize,
    ngates: usize,
    zero: Prover<'g, Transcript, Affine<P>>,
    units: Vec<Prover<'g, Transcript, Affine<P>>>, // one per variable; an output's unit has its inputs set as well
}
impl<'g, P: SWCurveConfig> Reader<'g, P>
where
    P::BaseField: PrimeField,
{
    pub fn new(pc: &'g PedersenGens<Affine<P>>, ninputs: usize, ngates: usize) -> Self {
        use ark_ff::{One, Zero};
        let mk = |unit: Option<usize>| {
            let mut p: Prover<'g, Transcript, Affine<P>> = Prover::new(pc, Transcript::new(b"read"));
            let on = |b: bool| if b { P::ScalarField::one() } else { P::ScalarField::zero() };
            for i in 0..ninputs {
                p.commit(on(unit == Some(i)), P::ScalarField::zero());
            }
            for g in 0..ngates {
                let k = unit.and_then(|u| u.checked_sub(ninputs + 3 * g)).filter(|k| *k < 3);
                p.allocate_multiplier(Some((on(k == Some(0) || k == Some(2)), on(k == Some(1) || k == Some(2))))).unwrap();
            }
            p
        };
        Reader { ninputs, ngates, zero: mk(None), units: (0..ninputs + 3 * ngates).map(|u| mk(Some(u))).collect() }
    }
    pub fn row(&self, lc: &LinearCombination<P::ScalarField>) -> Row<P::ScalarField> {
        use ark_ff::Zero;
        let c = self.zero.eval(lc);
        let mut raw: Vec<P::ScalarField> = self.units.iter().map(|u| u.eval(lc) - c).collect();
        for g in 0..self.ngates {
            let b = self.ninputs + 3 * g;
            raw[b + 2] = raw[b + 2] - raw[b] - raw[b + 1];
        }
        (raw.into_iter().enumerate().filter(|(_, v)| !v.is_zero()).collect(), c)
    }
    pub fn sys(&self, c: &Capture<P::ScalarField>) -> Sys<P::ScalarField> {
        assert!(c.ninputs == self.ninputs && c.gates.len() == self.ngates);
        Sys {
            ninputs: c.ninputs,
            ngates: c.gates.len(),
            lin: c.cons.iter().map(|l| self.row(l)).collect(),
            mulrows: c.muls.iter().map(|(g, l, r)| (*g, self.row(l), self.row(r))).collect(),
            honest: c.gates.clone(),
        }
    }
    /// Reuse the rows of a circuit of the same form; only combinations that differ are read again.
    pub fn sys_like(&self, c: &Capture<P::ScalarField>, t: &Capture<P::ScalarField>, ts: &Sys<P::ScalarField>) -> Sys<P::ScalarField> {
        sys_like(&|l| self.row(l), c, t, ts)
    }
}
fn sys_like<F: Field>(row: &dyn Fn(&LinearCombination<F>) -> Row<F>, c: &Capture<F>, t: &Capture<F>, ts: &Sys<F>) -> Sys<F> {
    assert!(c.ninputs == t.ninputs && c.gates.len() == t.gates.len() && c.cons.len() == t.cons.len() && c.muls.len() == t.muls.len());
    Sys {
        ninputs: c.ninputs,
        ngates: c.gates.len(),
        lin: c.cons.iter().enumerate().map(|(i, l)| if *l == t.cons[i] { ts.lin[i].clone() } else { row(l) }).collect(),
        mulrows: c
            .muls
            .iter()
            .enumerate()
            .map(|(i, (g, l, r))| {
                let (tg, tl, tr) = &t.muls[i];
                assert!(tg == g);
                (*g, if l == tl { ts.mulrows[i].1.clone() } else { row(l) }, if r == tr { ts.mulrows[i].2.clone() } else { row(r) })
            })
            .collect(),
        honest: c.gates.clone(),
    }
}
pub fn eval_row<F: Field>(r: &Row<F>, v: &[F]) -> F {
    r.0.iter().fold(r.1, |a, (i, c)| a + *c * v[*i])
}
impl<F: Field> Sys<F> {
    /// All variables from the inputs and the values passed to the allocations (None if some were missing).
    pub fn honest_assignment(&self, inputs: &[F]) -> Option<Vec<F>> {
        let mut v = inputs.to_vec();
        v.resize(self.nvars(), F::zero());
        let mut next = 0;
        for (g, gate) in self.honest.iter().enumerate() {
            let (l, r) = match gate {
                Gate::Alloc(l, r) => ((*l)?, (*r)?),
                Gate::Mul => {
                    let (gi, l, r) = &self.mulrows[next];
                    next += 1;
                    assert!(*gi == g);
                    (eval_row(l, &v), eval_row(r, &v))
                }
            };
            let b = self.ninputs + 3 * g;
            v[b] = l;
            v[b + 1] = r;
            v[b + 2] = l * r;
        }
        Some(v)
    }
    /// First violated condition under an assignment.
    pub fn violated(&self, v: &[F]) -> Option<String> {
        for (i, r) in self.lin.iter().enumerate() {
            if !eval_row(r, v).is_zero() {
                return Some(format!("constraint {}", i));
            }
        }
        for (g, l, r) in &self.mulrows {
            let b = self.ninputs + 3 * g;
            if eval_row(l, v) != v[b] || eval_row(r, v) != v[b + 1] {
                return Some(format!("input of gate {}", g));
            }
        }
        for g in 0..self.ngates {
            let b = self.ninputs + 3 * g;
            if v[b] * v[b + 1] != v[b + 2] {
                return Some(format!("gate {}", g));
            }
        }
        None
    }
}

/// Exhaustive search for all assignments. `domain` lists the field when it is small enough to enumerate;
/// otherwise branching is only possible on roots of univariate conditions (None is returned when that is
/// not enough).
pub struct Solver<'a, F: Field> {
    domain: Option<&'a [F]>,
    forms: Vec<[Row<F>; 3]>,          // per gate, over free variables
    free: usize,                      // number of free variables
    expr: Vec<Row<F>>,                // every variable as a form over free variables
    watch: Vec<Vec<usize>>,           // free variable -> gates
    outputs: Vec<Row<F>>,
    pub nodes: u64,
    pub solutions: u64,
    pub stuck: bool,
    pub limit: u64,
}
fn add_row<F: Field>(a: &Row<F>, k: F, b: &Row<F>) -> Row<F> {
    let mut out = Vec::with_capacity(a.0.len() + b.0.len());
    let (mut i, mut j) = (0, 0);
    while i < a.0.len() || j < b.0.len() {
        if j == b.0.len() || i < a.0.len() && a.0[i].0 < b.0[j].0 {
            out.push(a.0[i]);
            i += 1;
        } else if i == a.0.len() || b.0[j].0 < a.0[i].0 {
            out.push((b.0[j].0, k * b.0[j].1));
            j += 1;
        } else {
            let c = a.0[i].1 + k * b.0[j].1;
            if !c.is_zero() {
                out.push((a.0[i].0, c));
            }
            i += 1;
            j += 1;
        }
    }
    (out, a.1 + k * b.1)
}
impl<'a, F: Field> Solver<'a, F> {
    /// `fixed`: variables with given values; `outputs`: forms whose values are reported.
    /// None: the linear part alone is contradictory.
    pub fn new(s: &Sys<F>, fixed: &[(usize, F)], outputs: &[Row<F>], domain: Option<&'a [F]>) -> Option<Self> {
        let n = s.nvars();
        // echelon form: pivot = highest variable of the row
        let mut piv: Vec<Option<Row<F>>> = vec![None; n]; // x_i = form over lower variables
        let reduce = |mut r: Row<F>, piv: &Vec<Option<Row<F>>>| -> Row<F> {
            // substitute from the highest variable downwards
            let mut hi = n;
            loop {
                let t = r.0.iter().rev().find(|(i, _)| *i < hi && piv[*i].is_some()).copied();
                match t {
                    None => return r,
                    Some((i, c)) => {
                        hi = i;
                        r.0.retain(|(k, _)| *k != i);
                        r = add_row(&r, c, piv[i].as_ref().unwrap());
                    }
                }
            }
        };
        let mut rows: Vec<Row<F>> = fixed.iter().map(|(i, v)| (vec![(*i, F::one())], -*v)).collect();
        rows.extend(s.lin.iter().cloned());
        for (g, l, r) in &s.mulrows {
            let b = s.ninputs + 3 * g;
            for (k, x) in [(b, l), (b + 1, r)] {
                rows.push(add_row(x, -F::one(), &(vec![(k, F::one())], F::zero())));
            }
        }
        for r in rows {
            let mut r = reduce(r, &piv);
            match r.0.pop() {
                None => {
                    if !r.1.is_zero() {
                        return None;
                    }
                }
                Some((i, c)) => {
                    let k = -c.inverse().unwrap();
                    for t in r.0.iter_mut() {
                        t.1 *= k;
                    }
                    r.1 *= k;
                    piv[i] = Some(r);
                }
            }
        }
        // express everything over the free variables
        let mut expr: Vec<Row<F>> = Vec::with_capacity(n);
        let mut free = 0;
        for i in 0..n {
            let e = match &piv[i] {
                None => {
                    free += 1;
                    (vec![(free - 1, F::one())], F::zero())
                }
                Some(r) => r.0.iter().fold((vec![], r.1), |a, (k, c)| add_row(&a, *c, &expr[*k])),
            };
            expr.push(e);
        }
        let sub = |r: &Row<F>| r.0.iter().fold((vec![], r.1), |a: Row<F>, (k, c)| add_row(&a, *c, &expr[*k]));
        let mut forms: Vec<[Row<F>; 3]> = (0..s.ngates)
            .map(|g| {
                let b = s.ninputs + 3 * g;
                [expr[b].clone(), expr[b + 1].clone(), expr[b + 2].clone()]
            })
            .collect();
        let mut watch = vec![vec![]; free];
        for (g, f) in forms.iter().enumerate() {
            let mut vs: Vec<usize> = f.iter().flat_map(|r| r.0.iter().map(|t| t.0)).collect();
            vs.sort();
            vs.dedup();
            for v in vs {
                watch[v].push(g);
            }
        }
        let outputs: Vec<Row<F>> = outputs.iter().map(sub).collect();
        // a gate whose output is a variable that nothing else mentions can always be satisfied
        loop {
            let idle = (0..forms.len()).find_map(|g| {
                let own = |v: &usize| watch[*v] == [g] && !outputs.iter().any(|o| o.0.iter().any(|t| t.0 == *v));
                forms[g][2].0.iter().map(|t| t.0).find(|v| own(v) && !forms[g][..2].iter().any(|f| f.0.iter().any(|t| t.0 == *v))).map(|_| g)
            });
            match idle {
                None => break,
                Some(g) => {
                    for w in watch.iter_mut() {
                        w.retain(|h| *h != g);
                    }
                    forms[g] = [(vec![], F::zero()), (vec![], F::zero()), (vec![], F::zero())];
                }
            }
        }
        Some(Solver { domain, forms, free, expr, watch, outputs, nodes: 0, solutions: 0, stuck: false, limit: 200_000_000 })
    }
    fn unknowns(&self, g: usize, val: &[Option<F>]) -> Vec<usize> {
        let mut u: Vec<usize> = vec![];
        for r in &self.forms[g] {
            for (v, _) in &r.0 {
                if val[*v].is_none() && !u.contains(v) {
                    u.push(*v);
                }
            }
        }
        u
    }
    /// (slope, constant) of a form in the only unknown x
    fn uni(&self, r: &Row<F>, x: usize, val: &[Option<F>]) -> (F, F) {
        r.0.iter().fold((F::zero(), r.1), |(s, c), (v, k)| if *v == x { (s + k, c) } else { (s, c + *k * val[*v].unwrap()) })
    }
    fn konst(&self, r: &Row<F>, val: &[Option<F>]) -> F {
        r.0.iter().fold(r.1, |c, (v, k)| c + *k * val[*v].unwrap())
    }
    /// Calls `out` with the values of the outputs for every solution (solutions that differ only in
    /// variables on which nothing depends are reported once). `out` returns false to stop.
    pub fn run(&mut self, out: &mut dyn FnMut(&[F]) -> bool) {
        let mut val = vec![None; self.free];
        let mut count: Vec<usize> = vec![0; self.forms.len()];
        for w in &self.watch {
            for g in w {
                count[*g] += 1;
            }
        }
        let mut done = vec![false; self.forms.len()];
        let todo: Vec<usize> = (0..self.forms.len()).filter(|g| count[*g] <= 1).collect();
        self.dfs(&mut val, &mut count, &mut done, todo, out);
    }
    pub fn any(&mut self) -> bool {
        let mut f = false;
        self.run(&mut |_| {
            f = true;
            false
        });
        f
    }
    /// Returns false when the search was stopped.
    fn dfs(&mut self, val: &mut Vec<Option<F>>, count: &mut Vec<usize>, done: &mut Vec<bool>, mut todo: Vec<usize>, out: &mut dyn FnMut(&[F]) -> bool) -> bool {
        self.nodes += 1;
        if self.nodes > self.limit {
            self.stuck = true;
            return false;
        }
        let mut assigned: Vec<usize> = vec![];
        let mut closed: Vec<usize> = vec![];
        let mut quad: Vec<(usize, usize, F, F)> = vec![];
        let mut ok = true;
        let mut go_on = true;
        // propagate
        while let Some(g) = todo.pop() {
            if done[g] || count[g] > 1 {
                continue;
            }
            let u = self.unknowns(g, val);
            if u.is_empty() {
                let (a, b, c) = (self.konst(&self.forms[g][0], val), self.konst(&self.forms[g][1], val), self.konst(&self.forms[g][2], val));
                if a * b != c {
                    ok = false;
                    break;
                }
                done[g] = true;
                closed.push(g);
                continue;
            }
            let x = u[0];
            let ((sa, ca), (sb, cb), (sc, cc)) = (self.uni(&self.forms[g][0], x, val), self.uni(&self.forms[g][1], x, val), self.uni(&self.forms[g][2], x, val));
            // (sa x + ca)(sb x + cb) - (sc x + cc) = 0
            let (q, l, k) = (sa * sb, sa * cb + sb * ca - sc, ca * cb - cc);
            if q.is_zero() && l.is_zero() {
                if !k.is_zero() {
                    ok = false;
                    break;
                }
                done[g] = true;
                closed.push(g);
                continue;
            }
            if q.is_zero() {
                let v = -k * l.inverse().unwrap();
                val[x] = Some(v);
                assigned.push(x);
                for w in 0..self.watch[x].len() {
                    let h = self.watch[x][w];
                    count[h] -= 1;
                    if count[h] <= 1 {
                        todo.push(h);
                    }
                }
            } else {
                let iq = q.inverse().unwrap();
                quad.push((g, x, l * iq, k * iq));
            }
        }
        if ok {
            quad.retain(|(g, x, ..)| !done[*g] && val[*x].is_none());
            // two conditions on the same two variables leave few values
            let pair = self.domain.and_then(|_| {
                let mut seen: Vec<[usize; 2]> = vec![];
                (0..self.forms.len()).filter(|g| !done[*g] && count[*g] == 2).find_map(|g| {
                    let u = self.unknowns(g, val);
                    let p = [*u.iter().min()?, *u.iter().max()?];
                    if seen.contains(&p) {
                        Some(p[0])
                    } else {
                        seen.push(p);
                        None
                    }
                })
            });
            let branch: Option<(usize, Vec<F>)> = if let Some(x) = pair {
                Some((x, self.domain.unwrap().to_vec()))
            } else if let Some((_, x, l, k)) = quad.first() {
                // x^2 + l x + k = 0
                let half = F::from(2u64).inverse().unwrap();
                let d = *l * l * half * half - *k;
                Some((
                    *x,
                    match d.sqrt() {
                        None => vec![],
                        Some(s) if s.is_zero() => vec![-*l * half],
                        Some(s) => vec![-*l * half + s, -*l * half - s],
                    },
                ))
            } else {
                // an open gate with the fewest unknowns, or an output that depends on an open variable
                let pick = (0..self.forms.len()).filter(|g| !done[*g]).min_by_key(|g| count[*g]).map(|g| self.unknowns(g, val)).filter(|u| !u.is_empty()).map(|u| u[0]);
                let pick = pick.or_else(|| self.outputs.iter().flat_map(|r| r.0.iter()).map(|t| t.0).find(|v| val[*v].is_none()));
                match pick {
                    None => None,
                    Some(x) => match self.domain {
                        Some(d) => Some((x, d.to_vec())),
                        None => {
                            self.stuck = true;
                            go_on = false;
                            Some((x, vec![]))
                        }
                    },
                }
            };
            match branch {
                None => {
                    self.solutions += 1;
                    let o: Vec<F> = self.outputs.iter().map(|r| self.konst(r, val)).collect();
                    go_on = out(&o);
                }
                Some((x, vs)) => {
                    for v in vs {
                        val[x] = Some(v);
                        let mut t = vec![];
                        for w in 0..self.watch[x].len() {
                            let h = self.watch[x][w];
                            count[h] -= 1;
                            if count[h] <= 1 {
                                t.push(h);
                            }
                        }
                        // the quadratic conditions found on the way still have to be looked at
                        t.extend(quad.iter().map(|q| q.0));
                        go_on = self.dfs(val, count, done, t, out);
                        for w in 0..self.watch[x].len() {
                            count[self.watch[x][w]] += 1;
                        }
                        val[x] = None;
                        if !go_on {
                            break;
                        }
                    }
                }
            }
        }
        for g in closed {
            done[g] = false;
        }
        for x in assigned {
            val[x] = None;
            for w in 0..self.watch[x].len() {
                count[self.watch[x][w]] += 1;
            }
        }
        go_on
    }
    pub fn value_of(&self, var: usize) -> &Row<F> {
        &self.expr[var]
    }
}
pub fn field_elements<F: PrimeField>() -> Vec<F> {
    let n: u64 = F::MODULUS.as_ref()[0];
    (0..n).map(F::from).collect()
}

/// Like `Reader`, for circuits with many gates over a large field: combinations are evaluated on
/// assignments that vanish outside a range of gates, and the ranges bisected.
pub struct BigReader<'g, P: SWCurveConfig> {
    ninputs: usize,
    ngates: usize,
    zero: Prover<'g, Transcript, Affine<P>>,
    inputs: Vec<Prover<'g, Transcript, Affine<P>>>,
    tree: Vec<Option<Prover<'g, Transcript, Affine<P>>>>, // node k covers half of node k/2
    leaves: usize,
    units: Vec<Prover<'g, Transcript, Affine<P>>>,
}
impl<'g, P: SWCurveConfig> BigReader<'g, P>
where
    P::BaseField: PrimeField,
{
    pub fn new(pc: &'g PedersenGens<Affine<P>>, ninputs: usize, ngates: usize) -> Self {
        use ark_ff::{One, Zero};
        let z = P::ScalarField::zero();
        let one = P::ScalarField::one();
        let mk = |input: Option<usize>, gate: &dyn Fn(usize) -> (P::ScalarField, P::ScalarField)| {
            let mut p: Prover<'g, Transcript, Affine<P>> = Prover::new(pc, Transcript::new(b"read"));
            for i in 0..ninputs {
                p.commit(if input == Some(i) { one } else { z }, z);
            }
            for g in 0..ngates {
                p.allocate_multiplier(Some(gate(g))).unwrap();
            }
            p
        };
        let h = |x: u64| P::ScalarField::from(x.wrapping_mul(0x9E3779B97F4A7C15).rotate_left(29).wrapping_mul(0xBF58476D1CE4E5B9) | 1).square();
        let leaves = ngates.next_power_of_two().max(1);
        let mut tree: Vec<Option<_>> = vec![None];
        for k in 1..leaves {
            let depth = usize::BITS - 1 - k.leading_zeros();
            let width = leaves >> depth;
            let lo = (k - (1 << depth)) * width;
            tree.push(if lo < ngates { Some(mk(None, &|g| if g >= lo && g < lo + width { (h(2 * g as u64 + 11), h(2 * g as u64 + 12)) } else { (z, z) })) } else { None });
        }
        let units = (0..3 * ngates)
            .map(|u| {
                mk(None, &|g| {
                    if g != u / 3 {
                        (z, z)
                    } else {
                        match u % 3 {
                            0 => (one, z),
                            1 => (z, one),
                            _ => (one, one),
                        }
                    }
                })
            })
            .collect();
        BigReader { ninputs, ngates, zero: mk(None, &|_| (z, z)), inputs: (0..ninputs).map(|i| mk(Some(i), &|_| (z, z))).collect(), tree, leaves, units }
    }
    pub fn row(&self, lc: &LinearCombination<P::ScalarField>) -> Row<P::ScalarField> {
        use ark_ff::Zero;
        let c = self.zero.eval(lc);
        let mut out = vec![];
        for (i, p) in self.inputs.iter().enumerate() {
            let v = p.eval(lc) - c;
            if !v.is_zero() {
                out.push((i, v));
            }
        }
        let mut gates = vec![];
        let mut stack = vec![1usize];
        while let Some(k) = stack.pop() {
            if k >= self.leaves {
                if k - self.leaves < self.ngates {
                    gates.push(k - self.leaves);
                }
                continue;
            }
            if let Some(p) = &self.tree[k] {
                if p.eval(lc) != c {
                    stack.push(2 * k);
                    stack.push(2 * k + 1);
                }
            }
        }
        gates.sort();
        for g in gates {
            let b = self.ninputs + 3 * g;
            let l = self.units[3 * g].eval(lc) - c;
            let r = self.units[3 * g + 1].eval(lc) - c;
            let o = self.units[3 * g + 2].eval(lc) - c - l - r;
            for (i, v) in [(b, l), (b + 1, r), (b + 2, o)] {
                if !v.is_zero() {
                    out.push((i, v));
                }
            }
        }
        (out, c)
    }
    pub fn sys_like(&self, c: &Capture<P::ScalarField>, t: &Capture<P::ScalarField>, ts: &Sys<P::ScalarField>) -> Sys<P::ScalarField> {
        sys_like(&|l| self.row(l), c, t, ts)
    }
    pub fn sys(&self, c: &Capture<P::ScalarField>) -> Sys<P::ScalarField> {
        assert!(c.ninputs == self.ninputs && c.gates.len() == self.ngates);
        Sys {
            ninputs: c.ninputs,
            ngates: c.gates.len(),
            lin: c.cons.iter().map(|l| self.row(l)).collect(),
            mulrows: c.muls.iter().map(|(g, l, r)| (*g, self.row(l), self.row(r))).collect(),
            honest: c.gates.clone(),
        }
    }
}
// The provers inside are only evaluated; they hold no deferred closures (the only part that is not Sync).
unsafe impl<P: SWCurveConfig> Sync for Reader<'_, P> {}
unsafe impl<P: SWCurveConfig> Sync for BigReader<'_, P> {}
