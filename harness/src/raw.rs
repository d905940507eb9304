//! The wire view of a proof: lets the harness build arbitrary proof objects through deserialisation.
use ark_ec::AffineRepr;
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use bulletproofs::r1cs::R1CSProof;

#[derive(Clone, Debug, PartialEq)]
pub struct Raw<C: AffineRepr> {
    pub p1: [C; 3],
    pub flag: u8,
    pub p2: Vec<C>, // empty or 3 points
    pub t: Vec<C>,
    pub tx: C::ScalarField,
    pub tb: C::ScalarField,
    pub eb: C::ScalarField,
    pub l: Vec<C>,
    pub r: Vec<C>,
    pub a: C::ScalarField,
    pub b: C::ScalarField,
}
impl<C: AffineRepr> Raw<C> {
    pub fn parse(b: &[u8]) -> Option<Raw<C>> {
        let mut r = b;
        fn pt<T: CanonicalDeserialize>(r: &mut &[u8]) -> Option<T> {
            T::deserialize_compressed(r).ok()
        }
        let p1 = [pt::<C>(&mut r)?, pt::<C>(&mut r)?, pt::<C>(&mut r)?];
        let flag: u8 = pt(&mut r)?;
        let p2 = if flag == 1 { vec![pt::<C>(&mut r)?, pt::<C>(&mut r)?, pt::<C>(&mut r)?] } else { vec![] };
        Some(Raw {
            p1,
            flag,
            p2,
            t: pt(&mut r)?,
            tx: pt(&mut r)?,
            tb: pt(&mut r)?,
            eb: pt(&mut r)?,
            l: pt(&mut r)?,
            r: pt(&mut r)?,
            a: pt(&mut r)?,
            b: pt(&mut r)?,
        })
    }
    pub fn of(p: &R1CSProof<C>) -> Option<Raw<C>> {
        Self::parse(&p.to_bytes())
    }
    fn write(&self, compressed: bool) -> Vec<u8> {
        let mut w = vec![];
        macro_rules! s {
            ($x:expr) => {
                if compressed { $x.serialize_compressed(&mut w).unwrap() } else { $x.serialize_uncompressed(&mut w).unwrap() }
            };
        }
        for p in &self.p1 {
            s!(p);
        }
        s!(self.flag);
        for p in &self.p2 {
            s!(p);
        }
        s!(self.t);
        s!(self.tx);
        s!(self.tb);
        s!(self.eb);
        s!(self.l);
        s!(self.r);
        s!(self.a);
        s!(self.b);
        w
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.write(true)
    }
    /// Through the public decoder.
    pub fn proof(&self) -> Option<R1CSProof<C>> {
        R1CSProof::from_bytes(&self.bytes()).ok()
    }
    /// Through the decoder without point validation (fast; points here are always valid).
    pub fn proof_fast(&self) -> Option<R1CSProof<C>> {
        R1CSProof::deserialize_uncompressed_unchecked(&self.write(false)[..]).ok()
    }
    pub fn set_p2(&mut self, p: [C; 3]) {
        if p.iter().all(|x| x.is_zero()) {
            self.flag = 0;
            self.p2 = vec![];
        } else {
            self.flag = 1;
            self.p2 = p.to_vec();
        }
    }
    pub fn get_p2(&self) -> [C; 3] {
        if self.p2.is_empty() {
            [C::zero(); 3]
        } else {
            [self.p2[0], self.p2[1], self.p2[2]]
        }
    }
}
