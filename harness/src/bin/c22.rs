//! C22: proofs made one after another over a shared transcript.
use bulletproofs::r1cs::*;
use bulletproofs::{BulletproofGens, PedersenGens};
use ctmc::circuit::*;
use ctmc::curves::m61::*;
use ctmc::stmts::*;
use ctmc::{guarded, Ctx};
use merlin::Transcript;

type C = EvenA;

/// What the outer protocol does before a proof.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Gap {
    Nothing,
    Message(u8),
    Challenge,
}
fn gap(t: &mut Transcript, g: Gap) {
    match g {
        Gap::Nothing => {}
        Gap::Message(m) => t.append_message(b"outer", &[m]),
        Gap::Challenge => {
            let mut b = [0; 16];
            t.challenge_bytes(b"outer", &mut b);
        }
    }
}
/// The state of a transcript, as far as anything can be derived from it.
fn state(t: &Transcript) -> [u8; 32] {
    let mut b = [0; 32];
    t.clone().challenge_bytes(b"state", &mut b);
    b
}
struct Made {
    prog: usize,
    proof: R1CSProof<C>,
    comms: Vec<C>,
}
/// How a prover holds the transcript.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Hold {
    Borrowed,
    Returned,
}

struct Env {
    pc: PedersenGens<C>,
    bp: BulletproofGens<C>,
    progs: Vec<(&'static str, Prog)>,
}
impl Env {
    fn prove(&self, t: Transcript, prog: usize, hold: Hold, salt: u64) -> Result<(Transcript, Made), R1CSError> {
        let mut io = Io { comms: vec![], next: 0, blinding: 77 + salt, bp: &self.bp, dim_override: None };
        let p = &self.progs[prog].1;
        let mut t = t;
        let proof = match hold {
            Hold::Borrowed => {
                let mut prover = Prover::new(&self.pc, &mut t);
                run(&mut prover, p, &mut io)?;
                prover.prove(&self.bp)?
            }
            Hold::Returned => {
                let mut prover = Prover::new(&self.pc, t);
                run(&mut prover, p, &mut io)?;
                let (proof, back) = prover.prove_and_return_transcript(&self.bp)?;
                t = back;
                proof
            }
        };
        Ok((t, Made { prog, proof, comms: io.comms }))
    }
    fn verify(&self, t: &mut Transcript, m: &Made) -> Result<(), String> {
        guarded(|| {
            let mut v = Verifier::new(&mut *t);
            let mut io = Io { comms: m.comms.clone(), next: 0, blinding: 0, bp: &self.bp, dim_override: None };
            run(&mut v, &self.progs[m.prog].1, &mut io)?;
            v.verify(&m.proof, &self.pc, &self.bp)
        })?
        .map_err(|e| format!("{:?}", e))
    }
    fn tuple(&self, t: &mut Transcript, m: &Made) -> Result<VerificationTuple<C>, String> {
        guarded(|| {
            let mut v = Verifier::new(&mut *t);
            let mut io = Io { comms: m.comms.clone(), next: 0, blinding: 0, bp: &self.bp, dim_override: None };
            run(&mut v, &self.progs[m.prog].1, &mut io)?;
            v.verification_scalars_and_points(&m.proof)
        })?
        .map_err(|e| format!("{:?}", e))
    }
}
const LABEL: &[u8] = b"composed";

fn session(ctx: &'static Ctx, env: &Env, seq: &[usize], gaps: &[Gap], holds: &[Hold]) {
    let name = format!("{:?} gaps {:?} {:?}", seq.iter().map(|i| env.progs[*i].0).collect::<Vec<_>>(), gaps, holds);
    ctx.eval(Some(&name));
    // prover
    let mut t = Transcript::new(LABEL);
    let mut made = vec![];
    let mut states = vec![];
    for (k, &s) in seq.iter().enumerate() {
        gap(&mut t, gaps[k]);
        match guarded(|| env.prove(t, s, holds[k], k as u64)) {
            Ok(Ok((t2, m))) => {
                t = t2;
                made.push(m);
                states.push(state(&t));
            }
            e => {
                ctx.violation("not-proven", format!("{}: proof {}: {:?}", name, k, e.err()));
                return;
            }
        }
    }
    for i in 0..states.len() {
        for j in 0..i {
            ctx.require(states[i] != states[j], "same-state", || format!("{}: the transcript is the same after proofs {} and {}", name, j, i));
        }
    }
    // in order, one by one, and all equations in a batch
    let (mut tv, mut tb) = (Transcript::new(LABEL), Transcript::new(LABEL));
    let mut tuples = vec![];
    for k in 0..made.len() {
        gap(&mut tv, gaps[k]);
        gap(&mut tb, gaps[k]);
        let r = env.verify(&mut tv, &made[k]);
        ctx.require(r.is_ok(), "rejected", || format!("{}: proof {}: {:?}", name, k, r));
        ctx.require(state(&tv) == states[k], "out-of-step", || format!("{}: prover's and verifier's transcripts differ after proof {}", name, k));
        match env.tuple(&mut tb, &made[k]) {
            Ok(x) => tuples.push(x),
            Err(e) => ctx.violation("rejected", format!("{}: equation of proof {}: {}", name, k, e)),
        }
        ctx.require(state(&tb) == states[k], "out-of-step", || format!("{}: transcripts differ after the equation of proof {}", name, k));
    }
    let r = guarded(|| batch_verify(tuples, &env.pc, &env.bp));
    ctx.require(matches!(r, Ok(Ok(()))), "rejected", || format!("{}: as a batch: {:?}", name, r));
    ctx.add("accepted", made.len() as u64);
    // every other order, omission and repetition
    let n = made.len();
    let mut lists: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..n {
        lists = lists.into_iter().flat_map(|l| (0..n).map(move |i| { let mut m = l.clone(); m.push(i); m })).collect();
    }
    for l in lists {
        let good = l.iter().enumerate().take_while(|(k, i)| k == *i).count();
        if good == n {
            continue;
        }
        ctx.eval(Some(&format!("{} as {:?}", name, l)));
        let mut t = Transcript::new(LABEL);
        for (k, &i) in l.iter().enumerate() {
            gap(&mut t, gaps[k]);
            let r = env.verify(&mut t, &made[i]);
            ctx.require(r.is_ok() == (k < good), "order", || format!("{}: verified in the order {:?}: proof {} is {:?}", name, l, k, r));
            ctx.add("refused", (k >= good) as u64);
        }
    }
    // other things said in between, and another protocol
    for k in 0..n {
        for g in [Gap::Nothing, Gap::Message(1), Gap::Message(2), Gap::Challenge] {
            if g == gaps[k] {
                continue;
            }
            ctx.eval(Some(&format!("{} with gap {} {:?}", name, k, g)));
            let mut t = Transcript::new(LABEL);
            for i in 0..n {
                gap(&mut t, if i == k { g } else { gaps[i] });
                let r = env.verify(&mut t, &made[i]);
                ctx.require(r.is_ok() == (i < k), "context", || format!("{}: with {:?} before proof {}: proof {} is {:?}", name, g, k, i, r));
            }
        }
    }
    let mut t = Transcript::new(b"another");
    for i in 0..n {
        gap(&mut t, gaps[i]);
        let r = env.verify(&mut t, &made[i]);
        ctx.require(r.is_err(), "context", || format!("{}: proof {} accepted in another protocol", name, i));
    }
    // a proof of the same statement from another session
    for k in 1..n {
        let mut other = Transcript::new(LABEL);
        gap(&mut other, Gap::Message(9));
        if let Ok(Ok((_, m))) = guarded(|| env.prove(other, seq[k], Hold::Borrowed, 50 + k as u64)) {
            let mut t = Transcript::new(LABEL);
            for i in 0..n {
                gap(&mut t, gaps[i]);
                let r = env.verify(&mut t, if i == k { &m } else { &made[i] });
                ctx.require(r.is_ok() == (i < k), "foreign", || format!("{}: a proof from elsewhere in place of {}: proof {} is {:?}", name, k, i, r));
            }
        }
    }
    ctx.sample_cat(&format!("length {}", n), || name.clone());
}

fn main() {
    let ctx = Ctx::new("C22", "exploration");
    ctx.note("rule", "every sequence of statements of a catalogue up to a length, proven one after another over one transcript (held by reference or handed over and returned, with nothing, a message or a challenge of the outer protocol in between): all proofs verify in order, alone and as a batch, and both sides' transcripts agree after each; every other order, omission or repetition (all lists of the same length), every other outer message, another protocol label and proofs made in another session are accepted exactly up to the first difference");
    let env = Env { pc: PedersenGens::default(), bp: BulletproofGens::new(16, 1), progs: catalogue() };
    let n = env.progs.len();
    let mut cases: Vec<(Vec<usize>, Vec<Gap>, Vec<Hold>)> = vec![];
    let gaps = [Gap::Nothing, Gap::Message(1), Gap::Challenge];
    let holds = [Hold::Borrowed, Hold::Returned];
    for a in 0..n {
        for g in gaps {
            for h in holds {
                cases.push((vec![a], vec![g], vec![h]));
            }
        }
        for b in 0..n {
            for g in gaps {
                for h in holds {
                    for h2 in holds {
                        if ctx.quick && h != h2 && a != b {
                            continue;
                        }
                        cases.push((vec![a, b], vec![Gap::Nothing, g], vec![h, h2]));
                    }
                }
            }
        }
    }
    let few: Vec<usize> = if ctx.quick { vec![0, 3, 6, 11, 13] } else { (0..n).collect() };
    for &a in &few {
        for &b in &few {
            for &c in &few {
                for g in 0..ctx.pick(2, 3) {
                    cases.push((vec![a, b, c], vec![gaps[(g + 2) % 3], gaps[g], Gap::Nothing], vec![holds[g % 2], holds[(g + 1) % 2], holds[0]]));
                }
            }
        }
    }
    let few4: Vec<usize> = if ctx.quick { vec![3, 12] } else { vec![3, 6, 11, 13] };
    for k in 0..few4.len().pow(4) {
        let s: Vec<usize> = (0..4).map(|i| few4[k / few4.len().pow(i) % few4.len()]).collect();
        cases.push((s, vec![Gap::Nothing; 4], vec![Hold::Borrowed; 4]));
    }
    ctx.note("bounds", format!("{} statements: all pairs, triples over {}, sequences of four over {}; 61-bit toy curve", n, few.len(), few4.len()));
    cases.sort_by_key(|c| std::cmp::Reverse(c.0.len()));
    ctx.cases(&cases, |c| format!("{:?}", c), |(s, g, h)| session(ctx, &env, s, g, h));
    ctx.finish();
}
