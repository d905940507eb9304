//! Coins, pours and an adversarial spender over the code under test.
use crate::guarded;
use ark_crypto_primitives::signature::schnorr::{Parameters, PublicKey, Schnorr, SecretKey, Signature};
use ark_crypto_primitives::signature::*;
use ark_ec::short_weierstrass::{Affine, SWCurveConfig};
use ark_ec::CurveGroup;
use ark_ff::PrimeField;
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use blake2::Blake2s256 as Blake2s;
use bulletproofs::r1cs::*;
use merlin::Transcript;
use rand::Rng;
use relations::coin::*;
use relations::curve_tree::*;
use relations::range_proof::range_proof;

pub const DOMAIN: &[u8] = b"select_and_rerandomize";

pub struct Keys<C: CurveGroup> {
    pub pk: PublicKey<C>,
    pub sk: SecretKey<C>,
}
impl<C: CurveGroup> Clone for Keys<C> {
    fn clone(&self) -> Self {
        Keys { pk: self.pk, sk: self.sk.clone() }
    }
}
pub struct World<'a, P0: SWCurveConfig + Copy, P1: SWCurveConfig + Copy, C: CurveGroup> {
    pub pr: &'a SelRerandParameters<P0, P1>,
    pub sig: Parameters<C, Blake2s>,
}

pub fn copy_coin<P: SWCurveConfig + Clone, C: CurveGroup>(c: &Coin<P, C>) -> Coin<P, C> {
    Coin { value: c.value, tag: c.tag, blinding: c.blinding, pk_randomness: c.pk_randomness }
}
pub fn ser<T: CanonicalSerialize>(t: &T) -> Vec<u8> {
    let mut b = vec![];
    t.serialize_compressed(&mut b).unwrap();
    b
}

/// A minted output as an adversary makes it: the committed value and tag are arbitrary, the range proof is
/// played with the bits of `bits`.
#[derive(Clone)]
pub struct Out<F> {
    pub value: F,
    pub bits: u64,
    pub tag: F,
    pub blinding: F,
}
/// A spent input as an adversary makes it.
pub struct In<'a, const L: usize, P0: SWCurveConfig + Copy, P1: SWCurveConfig<BaseField = P0::ScalarField, ScalarField = P0::BaseField> + Copy, C: CurveGroup> {
    pub tree: &'a CurveTree<L, 1, P0, P1>,
    pub index: usize,
    /// the opening claimed for the rerandomized leaf, without the rerandomization
    pub open: [P0::ScalarField; 2],
    pub blinding: P0::ScalarField,
    /// expose the claimed opening instead of the path's leaf
    pub expose_opened: bool,
    pub pk: PublicKey<C>,
    /// signing key for the (randomized) pk
    pub key: SecretKey<C>,
    pub randomize: Option<C::ScalarField>,
}

pub struct Tx<const L: usize, P0: SWCurveConfig + Copy, P1: SWCurveConfig<BaseField = P0::ScalarField, ScalarField = P0::BaseField> + Copy, C: CurveGroup> {
    pub pour: Pour<L, P0, P1, C>,
    pub sigs: [Signature<C>; 2],
}

impl<'a, F0, F1, P0, P1, C> World<'a, P0, P1, C>
where
    F0: PrimeField,
    F1: PrimeField,
    P0: SWCurveConfig<BaseField = F1, ScalarField = F0> + Copy + Send,
    P1: SWCurveConfig<BaseField = F0, ScalarField = F1> + Copy + Send,
    C: CurveGroup,
{
    pub fn new(pr: &'a SelRerandParameters<P0, P1>) -> Self {
        World { pr, sig: Schnorr::<C, Blake2s>::setup(&mut rand::thread_rng()).unwrap() }
    }
    pub fn keys(&self) -> Keys<C> {
        let (pk, sk) = Schnorr::<C, Blake2s>::keygen(&self.sig, &mut rand::thread_rng()).unwrap();
        Keys { pk, sk }
    }
    pub fn coin(&self, value: u64, pk: &PublicKey<C>) -> (Coin<P0, C>, Affine<P0>) {
        Coin::<P0, C>::new(value, pk, &self.sig, &self.pr.even_parameters, &mut rand::thread_rng())
    }
    /// A coin with chosen key randomization and blinding.
    pub fn coin_with(&self, value: u64, pk: &PublicKey<C>, pk_randomness: C::ScalarField, blinding: F0) -> (Coin<P0, C>, Affine<P0>) {
        let tag = self.tag(&Coin::<P0, C>::rerandomized_pk(pk, &pk_randomness, &self.sig));
        let c = self.pr.even_parameters.commit(&[F0::from(value), tag], blinding, 0);
        (Coin { value, tag, blinding, pk_randomness }, c)
    }
    pub fn tag(&self, pk: &PublicKey<C>) -> F0 {
        element_from_bytes_stat(&ser(pk))
    }
    pub fn spending(&self, index: usize, coin: &Coin<P0, C>, k: &Keys<C>) -> SpendingInfo<P0, C> {
        SpendingInfo { index, coin_aux: copy_coin(coin), randomized_pk: Coin::<P0, C>::rerandomized_pk(&k.pk, &coin.pk_randomness, &self.sig), sk: k.sk.clone() }
    }
    pub fn provers(&self) -> (Prover<'a, Transcript, Affine<P0>>, Prover<'a, Transcript, Affine<P1>>) {
        (Prover::new(&self.pr.even_parameters.pc_gens, Transcript::new(DOMAIN)), Prover::new(&self.pr.odd_parameters.pc_gens, Transcript::new(DOMAIN)))
    }
    pub fn pour<const L: usize, R: Rng>(&self, tree: &CurveTree<L, 1, P0, P1>, inputs: [&SpendingInfo<P0, C>; 2], outs: [(u64, PublicKey<C>); 2], rng: &mut R) -> Result<SignedTx<P0, P1, C>, String> {
        let (e, o) = self.provers();
        guarded(|| prove_pour(e, o, self.pr, tree, inputs[0], inputs[1], outs[0].0, outs[0].1, outs[1].0, outs[1].1, &self.sig, rng))
    }
    /// A transaction is accepted when it decodes, its signatures are right and both proofs verify. Panics are refusals.
    pub fn verify<const L: usize>(&self, tree: &CurveTree<L, 1, P0, P1>, tx: &SignedTx<P0, P1, C>, domain: &'static [u8]) -> Result<(), String> {
        let tx = tx.clone();
        let (e, o) = guarded(|| tx.verification_gadget::<L>(domain, self.pr, tree, &self.sig))?;
        guarded(|| batch_verify(vec![e], &self.pr.even_parameters.pc_gens, &self.pr.even_parameters.bp_gens))?.map_err(|e| format!("even: {:?}", e))?;
        guarded(|| batch_verify(vec![o], &self.pr.odd_parameters.pc_gens, &self.pr.odd_parameters.bp_gens))?.map_err(|e| format!("odd: {:?}", e))
    }
    pub fn open<const L: usize>(&self, tx: &SignedTx<P0, P1, C>) -> Tx<L, P0, P1, C> {
        Tx {
            pour: Pour::deserialize_compressed(tx.pour_bytes.as_slice()).expect("pour"),
            sigs: [
                Signature { prover_response: tx.signature_prover_response_0, verifier_challenge: tx.signature_verifier_challenge_0 },
                Signature { prover_response: tx.signature_prover_response_1, verifier_challenge: tx.signature_verifier_challenge_1 },
            ],
        }
    }
    pub fn signed(&self, bytes: Vec<u8>, sigs: &[Signature<C>; 2]) -> SignedTx<P0, P1, C> {
        let mut b = vec![];
        for s in sigs {
            b.extend(ser(&s.prover_response));
            b.extend(ser(&s.verifier_challenge));
        }
        b.extend(ser(&bytes));
        SignedTx::deserialize_compressed(b.as_slice()).expect("signed tx")
    }
    pub fn sign(&self, bytes: &[u8], key: &SecretKey<C>, randomize: Option<C::ScalarField>) -> Signature<C> {
        let s = Schnorr::<C, Blake2s>::sign(&self.sig, key, bytes, &mut rand::thread_rng()).unwrap();
        match randomize {
            Some(r) => Schnorr::<C, Blake2s>::randomize_signature(&self.sig, &s, &ser(&r)).unwrap(),
            None => s,
        }
    }
    /// The honest spender's description of an input.
    pub fn input<'t, const L: usize>(&self, tree: &'t CurveTree<L, 1, P0, P1>, index: usize, coin: &Coin<P0, C>, k: &Keys<C>) -> In<'t, L, P0, P1, C> {
        In {
            tree,
            index,
            open: [F0::from(coin.value), coin.tag],
            blinding: coin.blinding,
            expose_opened: false,
            pk: Coin::<P0, C>::rerandomized_pk(&k.pk, &coin.pk_randomness, &self.sig),
            key: k.sk.clone(),
            randomize: Some(coin.pk_randomness),
        }
    }
    /// Plays a transaction as described, constraints satisfied or not.
    pub fn play<const L: usize>(&self, ins: [&In<L, P0, P1, C>; 2], outs: &[Out<F0>; 2]) -> Result<Tx<L, P0, P1, C>, String> {
        let pr = self.pr;
        guarded(|| {
            let rng = &mut rand::thread_rng();
            let (mut e, mut o) = self.provers();
            let mut minted = vec![];
            for out in outs {
                let (c, v) = e.commit_vec(&[out.value, out.tag], out.blinding, &pr.even_parameters.bp_gens);
                range_proof(&mut e, v[0].into(), Some(out.bits), 64).unwrap();
                minted.push((c, v[0]));
            }
            let mut spent = vec![];
            for i in ins {
                let (mut path, r) = i.tree.select_and_rerandomize_prover_gadget(i.index, 0, &mut e, &mut o, pr, rng);
                let (c, v) = e.commit_vec(&i.open, i.blinding + r, &pr.even_parameters.bp_gens);
                if i.expose_opened {
                    path.selected_commitment = c;
                }
                e.constrain(v[1] - self.tag(&i.pk));
                spent.push((path, v[0]));
            }
            e.constrain(minted[0].1 + minted[1].1 - spent[0].1 - spent[1].1);
            let pour = Pour {
                even_proof: e.prove(&pr.even_parameters.bp_gens).unwrap(),
                odd_proof: o.prove(&pr.odd_parameters.bp_gens).unwrap(),
                randomized_path_0: spent[0].0.clone(),
                randomized_path_1: spent[1].0.clone(),
                pk0: ins[0].pk,
                pk1: ins[1].pk,
                minted_coin_commitment_0: minted[0].0,
                minted_coin_commitment_1: minted[1].0,
            };
            let bytes = ser(&pour);
            let sigs = [0, 1].map(|k| self.sign(&bytes, &ins[k].key, ins[k].randomize));
            Tx { pour, sigs }
        })
    }
    pub fn verify_tx<const L: usize>(&self, tree: &CurveTree<L, 1, P0, P1>, tx: &Tx<L, P0, P1, C>) -> Result<(), String> {
        self.verify(tree, &self.signed(ser(&tx.pour), &tx.sigs), DOMAIN)
    }
}
