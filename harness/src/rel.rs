//! Membership proofs over the code under test, generic over the curve cycle.
use ark_ec::short_weierstrass::{Affine, SWCurveConfig};
use ark_ec::CurveGroup;
use ark_ff::PrimeField;
use bulletproofs::r1cs::*;
use merlin::Transcript;
use rand::Rng;
use relations::batched_curve_tree_prover::CurveTreeWitnessMultiPath;
use relations::curve_tree::*;
use relations::curve_tree_prover::CurveTreeWitnessPath;

pub struct Mem<const L: usize, P0: SWCurveConfig, P1: SWCurveConfig> {
    pub path: SelectAndRerandomizePath<L, P0, P1>,
    pub even: R1CSProof<Affine<P0>>,
    pub odd: R1CSProof<Affine<P1>>,
    pub blinding: P0::ScalarField,
}
impl<const L: usize, P0: SWCurveConfig + Clone, P1: SWCurveConfig + Clone> Clone for Mem<L, P0, P1> {
    fn clone(&self) -> Self {
        Mem { path: self.path.clone(), even: self.even.clone(), odd: self.odd.clone(), blinding: self.blinding }
    }
}
pub struct Multi<const L: usize, const M: usize, P0: SWCurveConfig, P1: SWCurveConfig> {
    pub path: SelectAndRerandomizeMultiPath<L, M, P0, P1>,
    pub even: R1CSProof<Affine<P0>>,
    pub odd: R1CSProof<Affine<P1>>,
    pub blindings: [P0::ScalarField; M],
}
impl<const L: usize, const M: usize, P0: SWCurveConfig + Clone, P1: SWCurveConfig + Clone> Clone for Multi<L, M, P0, P1> {
    fn clone(&self) -> Self {
        Multi { path: self.path.clone(), even: self.even.clone(), odd: self.odd.clone(), blindings: self.blindings }
    }
}

macro_rules! cyc {
    ($(#[$m:meta])* fn $name:ident<$(const $c:ident),*; $($g:ident),*>($($a:ident: $t:ty),* $(,)?) -> $r:ty $b:block) => {
        $(#[$m])*
        pub fn $name<
            $(const $c: usize,)*
            F0: PrimeField,
            F1: PrimeField,
            P0: SWCurveConfig<BaseField = F1, ScalarField = F0> + Copy + Send,
            P1: SWCurveConfig<BaseField = F0, ScalarField = F1> + Copy + Send,
            $($g: Rng,)*
        >($($a: $t),*) -> $r $b
    };
}

cyc! {
    fn prove_witness<const L; R>(w: &CurveTreeWitnessPath<L, P0, P1>, pr: &SelRerandParameters<P0, P1>, label: &'static [u8], rng: &mut R) -> Result<Mem<L, P0, P1>, R1CSError> {
        let mut e: Prover<_, Affine<P0>> = Prover::new(&pr.even_parameters.pc_gens, Transcript::new(label));
        let mut o: Prover<_, Affine<P1>> = Prover::new(&pr.odd_parameters.pc_gens, Transcript::new(label));
        let (path, blinding) = w.select_and_rerandomize_prover_gadget(&mut e, &mut o, pr, rng);
        Ok(Mem { path, even: e.prove(&pr.even_parameters.bp_gens)?, odd: o.prove(&pr.odd_parameters.bp_gens)?, blinding })
    }
}
cyc! {
    fn prove_mem<const L, const M; R>(t: &CurveTree<L, M, P0, P1>, index: usize, tree_index: usize, pr: &SelRerandParameters<P0, P1>, label: &'static [u8], rng: &mut R) -> Result<Mem<L, P0, P1>, R1CSError> {
        let mut e: Prover<_, Affine<P0>> = Prover::new(&pr.even_parameters.pc_gens, Transcript::new(label));
        let mut o: Prover<_, Affine<P1>> = Prover::new(&pr.odd_parameters.pc_gens, Transcript::new(label));
        let (path, blinding) = t.select_and_rerandomize_prover_gadget(index, tree_index, &mut e, &mut o, pr, rng);
        Ok(Mem { path, even: e.prove(&pr.even_parameters.bp_gens)?, odd: o.prove(&pr.odd_parameters.bp_gens)?, blinding })
    }
}
cyc! {
    /// The tuples that decide acceptance, and the leaf the verifier would output.
    fn mem_tuples<const L, const M; >(t: &CurveTree<L, M, P0, P1>, path: &SelectAndRerandomizePath<L, P0, P1>, even: &R1CSProof<Affine<P0>>, odd: &R1CSProof<Affine<P1>>, pr: &SelRerandParameters<P0, P1>, label: &'static [u8]) -> Result<(VerificationTuple<Affine<P0>>, VerificationTuple<Affine<P1>>, Affine<P0>), R1CSError> {
        let mut e: Verifier<_, Affine<P0>> = Verifier::new(Transcript::new(label));
        let mut o: Verifier<_, Affine<P1>> = Verifier::new(Transcript::new(label));
        let leaf = t.select_and_rerandomize_verifier_gadget(&mut e, &mut o, path.clone(), pr);
        Ok((e.verification_scalars_and_points(even)?, o.verification_scalars_and_points(odd)?, leaf))
    }
}
cyc! {
    fn verify_mem<const L, const M; >(t: &CurveTree<L, M, P0, P1>, m: &Mem<L, P0, P1>, pr: &SelRerandParameters<P0, P1>, label: &'static [u8]) -> Result<Affine<P0>, R1CSError> {
        let mut e: Verifier<_, Affine<P0>> = Verifier::new(Transcript::new(label));
        let mut o: Verifier<_, Affine<P1>> = Verifier::new(Transcript::new(label));
        let leaf = t.select_and_rerandomize_verifier_gadget(&mut e, &mut o, m.path.clone(), pr);
        e.verify(&m.even, &pr.even_parameters.pc_gens, &pr.even_parameters.bp_gens)?;
        o.verify(&m.odd, &pr.odd_parameters.pc_gens, &pr.odd_parameters.bp_gens)?;
        Ok(leaf)
    }
}
cyc! {
    /// Verdict with panics counted as refusals.
    fn accepts<const L, const M; >(t: &CurveTree<L, M, P0, P1>, m: &Mem<L, P0, P1>, pr: &SelRerandParameters<P0, P1>, label: &'static [u8]) -> Option<Affine<P0>> {
        crate::guarded(|| verify_mem(t, m, pr, label)).ok().and_then(|r| r.ok())
    }
}
cyc! {
    fn prove_multi_witness<const L, const M; R>(w: &CurveTreeWitnessMultiPath<L, M, P0, P1>, pr: &SelRerandParameters<P0, P1>, label: &'static [u8], rng: &mut R) -> Result<Multi<L, M, P0, P1>, R1CSError> {
        let mut e: Prover<_, Affine<P0>> = Prover::new(&pr.even_parameters.pc_gens, Transcript::new(label));
        let mut o: Prover<_, Affine<P1>> = Prover::new(&pr.odd_parameters.pc_gens, Transcript::new(label));
        let (path, blindings) = w.batched_select_and_rerandomize_prover_gadget(&mut e, &mut o, pr, rng);
        Ok(Multi { path, even: e.prove(&pr.even_parameters.bp_gens)?, odd: o.prove(&pr.odd_parameters.bp_gens)?, blindings })
    }
}
cyc! {
    fn prove_multi<const L, const M; R>(t: &CurveTree<L, M, P0, P1>, idx: [usize; M], pr: &SelRerandParameters<P0, P1>, label: &'static [u8], rng: &mut R) -> Result<Multi<L, M, P0, P1>, R1CSError> {
        let mut e: Prover<_, Affine<P0>> = Prover::new(&pr.even_parameters.pc_gens, Transcript::new(label));
        let mut o: Prover<_, Affine<P1>> = Prover::new(&pr.odd_parameters.pc_gens, Transcript::new(label));
        let (path, blindings) = t.batched_select_and_rerandomize_prover_gadget(idx, &mut e, &mut o, pr, rng);
        Ok(Multi { path, even: e.prove(&pr.even_parameters.bp_gens)?, odd: o.prove(&pr.odd_parameters.bp_gens)?, blindings })
    }
}
cyc! {
    fn multi_tuples<const L, const M; >(t: &CurveTree<L, M, P0, P1>, path: &SelectAndRerandomizeMultiPath<L, M, P0, P1>, even: &R1CSProof<Affine<P0>>, odd: &R1CSProof<Affine<P1>>, pr: &SelRerandParameters<P0, P1>, label: &'static [u8]) -> Result<(VerificationTuple<Affine<P0>>, VerificationTuple<Affine<P1>>, [Affine<P0>; M]), R1CSError> {
        let mut e: Verifier<_, Affine<P0>> = Verifier::new(Transcript::new(label));
        let mut o: Verifier<_, Affine<P1>> = Verifier::new(Transcript::new(label));
        let leaf = t.batched_select_and_rerandomize_verifier_gadget(&mut e, &mut o, path.clone(), pr);
        Ok((e.verification_scalars_and_points(even)?, o.verification_scalars_and_points(odd)?, leaf))
    }
}
cyc! {
    fn verify_multi<const L, const M; >(t: &CurveTree<L, M, P0, P1>, m: &Multi<L, M, P0, P1>, pr: &SelRerandParameters<P0, P1>, label: &'static [u8]) -> Result<[Affine<P0>; M], R1CSError> {
        let mut e: Verifier<_, Affine<P0>> = Verifier::new(Transcript::new(label));
        let mut o: Verifier<_, Affine<P1>> = Verifier::new(Transcript::new(label));
        let leaves = t.batched_select_and_rerandomize_verifier_gadget(&mut e, &mut o, m.path.clone(), pr);
        e.verify(&m.even, &pr.even_parameters.pc_gens, &pr.even_parameters.bp_gens)?;
        o.verify(&m.odd, &pr.odd_parameters.pc_gens, &pr.odd_parameters.bp_gens)?;
        Ok(leaves)
    }
}
cyc! {
    fn accepts_multi<const L, const M; >(t: &CurveTree<L, M, P0, P1>, m: &Multi<L, M, P0, P1>, pr: &SelRerandParameters<P0, P1>, label: &'static [u8]) -> Option<[Affine<P0>; M]> {
        crate::guarded(|| verify_multi(t, m, pr, label)).ok().and_then(|r| r.ok())
    }
}
/// n distinct valid leaves.
pub fn leaves<P: SWCurveConfig + Copy>(n: usize, salt: u64) -> Vec<Affine<P>> {
    use ark_ec::AffineRepr;
    (0..n).map(|i| (Affine::<P>::generator() * P::ScalarField::from(1000 + 7919 * i as u64 + salt * 104729)).into_affine()).collect()
}
/// Values of the root-to-leaf levels.
pub fn is_even<const L: usize, const M: usize, P0: SWCurveConfig, P1: SWCurveConfig>(t: &CurveTree<L, M, P0, P1>) -> bool {
    matches!(t, CurveTree::Even(_))
}

/// What a verifier that only knows the root has: the root, its children's commitments, nothing below.
pub fn prune_node<const L: usize, const M: usize, P0, P1>(n: &CurveTreeNode<L, M, P0, P1>) -> CurveTreeNode<L, M, P0, P1>
where
    P0: SWCurveConfig + Copy,
    P1: SWCurveConfig<BaseField = P0::ScalarField, ScalarField = P0::BaseField> + Copy,
{
    match n {
        CurveTreeNode::Leaf(l) => CurveTreeNode::Leaf(*l),
        CurveTreeNode::Branch { parent_commitment, children, height, elements } => {
            let kids: Vec<Option<CurveTreeNode<L, M, P1, P0>>> = children
                .iter()
                .map(|c| {
                    c.as_ref().map(|c| match c {
                        CurveTreeNode::Leaf(l) => CurveTreeNode::Leaf(*l),
                        CurveTreeNode::Branch { parent_commitment, height, elements, .. } => CurveTreeNode::Branch {
                            parent_commitment: *parent_commitment,
                            children: Box::new((0..L).map(|_| None).collect::<Vec<_>>().try_into().unwrap()),
                            height: *height,
                            elements: *elements,
                        },
                    })
                })
                .collect();
            CurveTreeNode::Branch { parent_commitment: *parent_commitment, children: Box::new(kids.try_into().unwrap()), height: *height, elements: *elements }
        }
    }
}
cyc! {
    /// The tree as a verifier who only knows the root and its children has it.
    fn prune<const L, const M; >(t: &CurveTree<L, M, P0, P1>) -> CurveTree<L, M, P0, P1> {
        match t {
            CurveTree::Even(x) => CurveTree::Even(prune_node(x)),
            CurveTree::Odd(x) => CurveTree::Odd(prune_node(x)),
        }
    }
}
