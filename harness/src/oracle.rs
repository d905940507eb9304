//! An algebraic prover that uses the real verifier as its only description of the protocol.
//!
//! It never mirrors labels, degrees or challenge derivations: it submits dummy proofs to
//! `Verifier::verification_scalars_and_points`, reads the scalar next to each point it sent, and recovers
//! from them the challenges, the degree of every message and the public parts of l(X) and r(X).
//! It can then play any algebraic strategy: every message is a known linear combination of the
//! generators, including combinations the honest prover never sends.
use crate::circuit::*;
use crate::raw::Raw;
use ark_ec::{AffineRepr, CurveGroup, VariableBaseMSM};
use ark_ff::{Field, One, UniformRand, Zero};
use bulletproofs::r1cs::*;
use bulletproofs::{BulletproofGens, PedersenGens};
use rand::rngs::StdRng;
use rand::SeedableRng;

thread_local! {
    static WHY: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}
fn fail<T>(m: &str) -> Option<T> {
    WHY.with(|w| *w.borrow_mut() = m.to_string());
    None
}
/// Why the last query on this thread failed.
pub fn why() -> String {
    WHY.with(|w| w.borrow().clone())
}

#[derive(Clone, Debug)]
pub struct Alg<F> {
    pub b: F,
    pub bb: F,
    pub g: Vec<F>,
    pub h: Vec<F>,
}
impl<F: Field> Alg<F> {
    pub fn new(n: usize) -> Self {
        Alg { b: F::zero(), bb: F::zero(), g: vec![F::zero(); n], h: vec![F::zero(); n] }
    }
}

/// Recover the second generator family through the public API: with the same random draws, raising the
/// right input of gate i by one moves the first message by exactly H_i.
pub fn gens_h<C: AffineRepr>(pc: &PedersenGens<C>, bp: &BulletproofGens<C>, n: usize) -> Vec<C> {
    let mk = |i: Option<usize>| -> C {
        let prog: Prog = (0..n).map(|j| Op::AllocMul(0, if Some(j) == i { 1 } else { 0 })).collect();
        rand::probe::start(42, None);
        let p = prove(&prog, pc, bp, b"gens_h");
        rand::probe::stop();
        Raw::of(&p.expect("prove").proof).expect("parse").p1[0]
    };
    let base = mk(None);
    (0..n).map(|i| (mk(Some(i)).into_group() - base).into_affine()).collect()
}

pub struct Gens<C: AffineRepr> {
    pub pc: PedersenGens<C>,
    pub bp: BulletproofGens<C>,
    pub g: Vec<C>,
    pub h: Vec<C>,
}
impl<C: AffineRepr> Gens<C> {
    pub fn new(n: usize) -> Self {
        let pc = PedersenGens::<C>::default();
        let bp = BulletproofGens::<C>::new(n, 1);
        let g = bp.share(0).G(n).copied().collect();
        let h = gens_h(&pc, &bp, n);
        Gens { pc, bp, g, h }
    }
    pub fn point(&self, a: &Alg<C::ScalarField>) -> C {
        let mut pts = vec![self.pc.B, self.pc.B_blinding];
        let mut sc = vec![a.b, a.bb];
        for (i, s) in a.g.iter().enumerate() {
            if !s.is_zero() {
                pts.push(self.g[i]);
                sc.push(*s);
            }
        }
        for (i, s) in a.h.iter().enumerate() {
            if !s.is_zero() {
                pts.push(self.h[i]);
                sc.push(*s);
            }
        }
        C::Group::msm_unchecked(&pts, &sc).into()
    }
}

/// The shape of proofs for a statement, learnt from one honest proof.
#[derive(Clone, Debug)]
pub struct Shape {
    pub tlen: usize,
    /// index of the absent T
    pub d: usize,
    pub lg: usize,
    pub n: usize,
    pub two_phase: bool,
}
pub fn shape_of<C: AffineRepr>(raw: &Raw<C>) -> Option<Shape> {
    let zeros: Vec<usize> = (0..raw.t.len()).filter(|i| raw.t[*i].is_zero()).collect();
    if zeros.len() != 1 || raw.l.len() != raw.r.len() {
        return None;
    }
    Some(Shape { tlen: raw.t.len(), d: zeros[0], lg: raw.l.len(), n: 1 << raw.l.len(), two_phase: !raw.p2.is_empty() })
}

/// What one query of the verifier revealed.
#[derive(Clone, Debug)]
pub struct Q<F> {
    pub x: F,
    /// scalar of every algebraic message (vector commitments, then A_I1 A_O1 S1 [A_I2 A_O2 S2])
    pub msg: Vec<F>,
    pub gamma: Vec<F>,
    pub eta: Vec<F>,
    /// public parts, divided by gamma/eta
    pub lpub: Vec<F>,
    pub rpub: Vec<F>,
    /// public value of t_D and the weight of each scalar commitment in it
    pub target: F,
    pub wv: Vec<F>,
    /// combination challenge of the inner-product statement
    pub w: F,
    /// squares of the folding challenges
    pub usq: Vec<F>,
    /// sign-resolved value of the folding coefficient of the first generator
    pub s0: F,
    pub rr: F,
}

pub struct Stmt<'a, C: AffineRepr> {
    pub gens: &'a Gens<C>,
    pub prog: &'a Prog,
    pub comms: Vec<C>,
    pub nvec: usize,
    pub is_vec: Vec<bool>,
    pub sh: Shape,
    pub label: &'static [u8],
    /// folding rounds beyond log n, used to claim an inner product that is not <l, r>
    pub extra: usize,
}

pub type Tup<C> = VerificationTuple<C>;

impl<'a, C: AffineRepr> Stmt<'a, C> {
    pub fn new(gens: &'a Gens<C>, prog: &'a Prog, comms: Vec<C>, sh: Shape, label: &'static [u8]) -> Self {
        let is_vec: Vec<bool> = prog
            .iter()
            .filter_map(|o| match o {
                Op::Commit(_) => Some(false),
                Op::CommitVec(_) => Some(true),
                _ => None,
            })
            .collect();
        Stmt { gens, prog, comms, nvec: is_vec.iter().filter(|x| **x).count(), is_vec, sh, label, extra: 0 }
    }
    pub fn tuple(&self, raw: &Raw<C>) -> Option<Tup<C>> {
        let p = raw.proof_fast()?;
        let v = verifier(self.prog, &self.comms, &self.gens.bp, self.label).ok()?;
        v.verification_scalars_and_points(&p).ok()
    }
    pub fn verify(&self, raw: &Raw<C>) -> bool {
        match raw.proof_fast() {
            Some(p) => matches!(
                crate::guarded(|| verify(self.prog, &self.comms, &p, &self.gens.pc, &self.gens.bp, self.label)),
                Ok(Ok(()))
            ),
            None => false,
        }
    }
    pub fn dummy(&self, a1: [C; 3], a2: [C; 3], rng: &mut StdRng) -> Raw<C> {
        let mut pt = || (C::generator() * C::ScalarField::rand(rng)).into_affine();
        let mut t: Vec<C> = (0..self.sh.tlen).map(|_| pt()).collect();
        t[self.sh.d] = C::zero();
        let mut r = Raw {
            p1: a1,
            flag: 0,
            p2: vec![],
            t,
            tx: C::ScalarField::zero(),
            tb: C::ScalarField::zero(),
            eb: C::ScalarField::zero(),
            l: (0..self.sh.lg + self.extra).map(|_| pt()).collect(),
            r: (0..self.sh.lg + self.extra).map(|_| pt()).collect(),
            a: C::ScalarField::zero(),
            b: C::ScalarField::zero(),
        };
        r.set_p2(a2);
        r
    }
    /// Decode what the verifier does with this (dummy) proof. None: the verifier does not follow the
    /// structure this prover understands.
    pub fn query(&self, raw: &Raw<C>) -> Option<Q<C::ScalarField>> {
        type F<C> = <C as AffineRepr>::ScalarField;
        let mut z = raw.clone();
        z.a = F::<C>::zero();
        z.b = F::<C>::zero();
        let base = self.tuple(&z).or_else(|| fail("the verifier refuses a well-formed dummy proof"))?;
        let find = |t: &Tup<C>, p: &C| -> Option<F<C>> {
            let mut s = F::<C>::zero();
            let mut hit = false;
            for (q, k) in t.proof_dependent_points.iter().zip(&t.proof_dependent_scalars) {
                if q == p {
                    s += k;
                    hit = true;
                }
            }
            if hit { Some(s) } else { None }
        };
        let n = self.sh.n;
        if base.proof_independent_scalars.len() != 2 + 2 * n {
            return fail("number of generator scalars");
        }
        // r and x from the T scalars
        let rr = find(&base, &raw.t[0])?;
        let x = find(&base, &raw.t[1])? * rr.inverse().or_else(|| fail("the T_0 scalar is zero"))?;
        let mut p = rr;
        for d in 0..self.sh.tlen {
            if d != self.sh.d && find(&base, &raw.t[d]).or_else(|| fail("T missing"))? != p {
                return fail("the T scalars are not r x^d");
            }
            p *= x;
        }
        let rxd = rr * x.pow([self.sh.d as u64]);
        // messages
        let mut msg = vec![];
        let mut wv = vec![];
        for (c, v) in self.comms.iter().zip(&self.is_vec) {
            if *v {
                msg.push(find(&base, c)?);
            } else {
                wv.push(find(&base, c)? * rxd.inverse()?);
            }
        }
        for p in &raw.p1 {
            msg.push(find(&base, p)?);
        }
        for p in &raw.p2 {
            msg.push(find(&base, p)?);
        }
        let usq: Vec<F<C>> = raw.l.iter().map(|p| find(&base, p)).collect::<Option<_>>()?;
        for (u, p) in usq.iter().zip(&raw.r) {
            if find(&base, p)? * u != F::<C>::one() {
                return fail("L and R scalars are not inverse");
            }
        }
        // rounds beyond log n come first; they scale every coefficient by the same factor
        let off = self.extra;
        let ex: F<C> = usq[..off].iter().product();
        // folding coefficients up to a common sign: s_i / s_0
        let st: Vec<F<C>> = (0..n)
            .map(|i| {
                let mut s = F::<C>::one();
                for k in 0..self.sh.lg {
                    if i >> (self.sh.lg - 1 - k) & 1 == 1 {
                        s *= usq[off + k];
                    }
                }
                s
            })
            .collect();
        let fixed = |mutate: &dyn Fn(&mut Raw<C>)| -> Option<(Vec<F<C>>, F<C>)> {
            let mut z2 = z.clone();
            mutate(&mut z2);
            let t = self.tuple(&z2)?;
            Some((t.proof_independent_scalars.clone(), find(&t, &raw.t[0])?))
        };
        let (fa, _) = fixed(&|r| r.a = F::<C>::one())?;
        let (fb, _) = fixed(&|r| r.b = F::<C>::one())?;
        let f0 = &base.proof_independent_scalars;
        let ga: Vec<F<C>> = (0..n).map(|i| f0[2 + i] - fa[2 + i]).collect();
        let hb: Vec<F<C>> = (0..n).map(|i| f0[2 + n + i] - fb[2 + n + i]).collect();
        // ga_i = gamma_i s_i, hb_i = eta_i / s_i, gamma_0 = eta_0 (a common sign of all gamma, eta is immaterial)
        if ga[0].is_zero() {
            return fail("a is not bound to G_0");
        }
        let gamma0 = if (ga[0] * st[n - 1]) * ga[0] * ex == F::<C>::one() { F::<C>::one() } else { (ga[0] * hb[0] * ex).sqrt()? };
        let s0 = ga[0] * gamma0.inverse()?;
        let gamma: Vec<F<C>> = (0..n).map(|i| Some(ga[i] * (s0 * st[i]).inverse()?)).collect::<Option<_>>().or_else(|| fail("folding"))?;
        let sn = s0 * st[n - 1]; // = 1/s_0 for a consistent verifier
        if sn * s0 * ex != F::<C>::one() {
            return None;
        }
        let eta: Vec<F<C>> = (0..n).map(|i| Some(hb[i] * (s0 * st[n - 1 - i]).inverse()?)).collect::<Option<_>>()?;
        let lpub = (0..n).map(|i| Some(f0[2 + i] * gamma[i].inverse()?)).collect::<Option<Vec<_>>>().or_else(|| fail("a is not bound to every G"))?;
        let rpub = (0..n).map(|i| Some(f0[2 + n + i] * eta[i].inverse()?)).collect::<Option<Vec<_>>>().or_else(|| fail("b is not bound to every H"))?;
        // value generator: w (t_x - ab) + r (x^D target - t_x); t_x is part of the transcript, w too
        let mut z3 = z.clone();
        z3.tx = F::<C>::zero();
        let b0 = f0[0];
        let _ = z3;
        // with t_x as sent (raw.tx): b0 = w*tx + r*(x^D*target - tx); a = b = 1 moves it by -w
        let (fab, rab) = fixed(&|r| {
            r.a = F::<C>::one();
            r.b = F::<C>::one();
        })?;
        // the verifier's own randomiser changes between queries: compare at equal r
        // b(a,b) = w(tx - ab) + r*K ; two queries at ab=0 with different r give K
        let (f00, r00) = fixed(&|_| {})?;
        if r00 == rr {
            return fail("the verifier's own randomiser does not change");
        }
        let k = (f00[0] - b0) * (r00 - rr).inverse()?;
        let w = (b0 - rr * k) + rab * k - fab[0] + F::<C>::zero();
        let w = w; // = w*tx - w*(tx-1)
        let target = (k + raw.tx) * x.pow([self.sh.d as u64]).inverse()?;
        Some(Q { x, msg, gamma, eta, lpub, rpub, target, wv, w, usq, s0, rr })
    }
    /// l and r vectors for given algebraic messages
    pub fn lr(&self, q: &Q<C::ScalarField>, msgs: &[Alg<C::ScalarField>]) -> (Vec<C::ScalarField>, Vec<C::ScalarField>) {
        let n = self.sh.n;
        let mut l = q.lpub.clone();
        let mut r = q.rpub.clone();
        for i in 0..n {
            let (mut gl, mut hr) = (C::ScalarField::zero(), C::ScalarField::zero());
            for (m, s) in msgs.iter().zip(&q.msg) {
                gl += m.g[i] * s;
                hr += m.h[i] * s;
            }
            l[i] += gl * q.gamma[i].inverse().unwrap();
            r[i] += hr * q.eta[i].inverse().unwrap();
        }
        (l, r)
    }
    /// Play the strategy to the end: messages fixed, T from the actual polynomials, honest folding.
    /// Returns the finished proof if the polynomial could be committed to.
    pub fn finish(
        &self,
        msgs: &[Alg<C::ScalarField>],
        vals: &[C::ScalarField],
        vblind: &[C::ScalarField],
        a1: [C; 3],
        a2: [C; 3],
        rng: &mut StdRng,
    ) -> Option<Raw<C>> {
        type F<C> = <C as AffineRepr>::ScalarField;
        let k = self.sh.tlen;
        // sample t(X) at k points (each dummy T draws a new x)
        let mut xs = vec![];
        let mut ts = vec![];
        for _ in 0..k {
            let d = self.dummy(a1, a2, rng);
            let q = self.query(&d)?;
            let (l, r) = self.lr(&q, msgs);
            xs.push(q.x);
            ts.push(l.iter().zip(&r).map(|(a, b)| *a * b).sum::<F<C>>());
        }
        let coef = interpolate(&xs, &ts)?;
        let tau: Vec<F<C>> = (0..k).map(|_| F::<C>::rand(rng)).collect();
        let mut raw = self.dummy(a1, a2, rng);
        for d in 0..k {
            if d != self.sh.d {
                raw.t[d] = self.gens.pc.commit(coef[d], tau[d]);
            }
        }
        let q = self.query(&raw)?;
        let (l, r) = self.lr(&q, msgs);
        raw.tx = l.iter().zip(&r).map(|(a, b)| *a * b).sum::<F<C>>();
        if self.extra > 0 {
            // the evaluation the T commitments and the statement call for, whatever <l, r> is
            raw.tx = (0..k).filter(|d| *d != self.sh.d).map(|d| coef[d] * q.x.pow([d as u64])).sum::<F<C>>();
            let lin: F<C> = q.wv.iter().zip(vals).map(|(w, v)| *w * v).sum();
            raw.tx += q.x.pow([self.sh.d as u64]) * (q.target + lin);
        }
        let mut tb = F::<C>::zero();
        for d in 0..k {
            if d != self.sh.d {
                tb += tau[d] * q.x.pow([d as u64]);
            }
        }
        let xd = q.x.pow([self.sh.d as u64]);
        for (w, b) in q.wv.iter().zip(vblind) {
            tb += xd * w * b;
        }
        raw.tb = tb;
        raw.eb = msgs.iter().zip(&q.msg).map(|(m, s)| m.bb * s).sum();
        // inner product argument over (gamma_i G_i), (eta_i H_i), Q = w B
        let q = self.query(&raw)?;
        let n = self.sh.n;
        let mut gv: Vec<C::Group> = (0..n).map(|i| self.gens.g[i] * q.gamma[i]).collect();
        let mut hv: Vec<C::Group> = (0..n).map(|i| self.gens.h[i] * q.eta[i]).collect();
        let qq = self.gens.pc.B * q.w;
        let (mut a, mut b) = (l, r);
        let mut sprod = F::<C>::one();
        let ip = |x: &[F<C>], y: &[F<C>]| x.iter().zip(y).map(|(p, q)| *p * q).sum::<F<C>>();
        let mut claim = raw.tx;
        for j in 0..self.extra {
            // L = <a, b> Q, R = sum r_i H_i with <a, r> = claim: after this round the claim is true
            let z = (0..n).find(|i| !a[*i].is_zero())?;
            let ri = claim * a[z].inverse()?;
            raw.l[j] = (qq * ip(&a, &b)).into_affine();
            raw.r[j] = (hv[z] * ri).into_affine();
            let u = self.query(&raw)?.usq[j].sqrt()?;
            let ui = u.inverse()?;
            sprod *= ui;
            a.iter_mut().for_each(|x| *x *= u);
            b.iter_mut().for_each(|x| *x *= u);
            b[z] += ri * ui;
            gv.iter_mut().for_each(|x| *x *= ui);
            hv.iter_mut().for_each(|x| *x *= ui);
            claim = ip(&a, &b);
        }
        for j in self.extra..self.extra + self.sh.lg {
            let h = a.len() / 2;
            let cl = ip(&a[..h], &b[h..]);
            let cr = ip(&a[h..], &b[..h]);
            let mut lp = qq * cl;
            let mut rp = qq * cr;
            for i in 0..h {
                lp += gv[h + i] * a[i] + hv[i] * b[h + i];
                rp += gv[i] * a[h + i] + hv[h + i] * b[i];
            }
            raw.l[j] = lp.into_affine();
            raw.r[j] = rp.into_affine();
            let usq = self.query(&raw)?.usq[j];
            let u = usq.sqrt()?;
            let ui = u.inverse()?;
            sprod *= ui;
            let (mut na, mut nb, mut ng, mut nh) = (vec![], vec![], vec![], vec![]);
            for i in 0..h {
                na.push(a[i] * u + a[h + i] * ui);
                nb.push(b[i] * ui + b[h + i] * u);
                ng.push(gv[i] * ui + gv[h + i] * u);
                nh.push(hv[i] * u + hv[h + i] * ui);
            }
            a = na;
            b = nb;
            gv = ng;
            hv = nh;
        }
        let s0 = self.query(&raw)?.s0;
        // the square roots are known up to sign; the verifier's product tells the common sign
        let sg = if s0 == sprod {
            F::<C>::one()
        } else if s0 == -sprod {
            -F::<C>::one()
        } else {
            return None;
        };
        raw.a = a[0] * sg;
        raw.b = b[0] * sg;
        Some(raw)
    }
}

/// coefficients of the polynomial of degree < n through n points
pub fn interpolate<F: Field>(xs: &[F], ys: &[F]) -> Option<Vec<F>> {
    let n = xs.len();
    let mut out = vec![F::zero(); n];
    for i in 0..n {
        let w = weights_poly(xs, i)?;
        for d in 0..n {
            out[d] += w[d] * ys[i];
        }
    }
    Some(out)
}
/// coefficients of the i-th Lagrange basis polynomial
pub fn weights_poly<F: Field>(xs: &[F], i: usize) -> Option<Vec<F>> {
    let mut p = vec![F::one()];
    let mut den = F::one();
    for (j, x) in xs.iter().enumerate() {
        if j == i {
            continue;
        }
        let mut np = vec![F::zero(); p.len() + 1];
        for (d, c) in p.iter().enumerate() {
            np[d + 1] += c;
            np[d] -= *c * x;
        }
        p = np;
        den *= xs[i] - x;
    }
    let di = den.inverse()?;
    Some(p.into_iter().map(|c| c * di).collect())
}
