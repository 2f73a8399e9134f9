use crate::field::extension::Extendable;
use crate::fri::proof::{FriProof, FriProofTarget};
use crate::hash::hash_types::RichField;
use crate::iop::witness::WitnessWrite;
use crate::plonk::config::AlgebraicHasher;

pub fn set_fri_proof_target<F, W, H, const D: usize>(
    witness: &mut W,
    target: &FriProofTarget<D>,
    proof: &FriProof<F, H, D>,
) where
    F: RichField + Extendable<D>,
    W: WitnessWrite<F> + ?Sized,
    H: AlgebraicHasher<F>, {
    witness.set_target(target.pow_witness, proof.pow_witness);
    for (&t, &x) in target.final_poly.0.iter().zip(&proof.final_poly.coeffs) {
        witness.set_extension_target(t, x);
    }
    for (t, x) in target.commit_phase_merkle_caps.iter().zip(&proof.commit_phase_merkle_caps) {
        witness.set_cap_target(t, x);
    }
    for (qt, q) in target.query_round_proofs.iter().zip(&proof.query_round_proofs) {
        for (at, a) in
            qt.initial_trees_proof.evals_proofs.iter().zip(&q.initial_trees_proof.evals_proofs)
        {
            for (&t, &x) in at.0.iter().zip(&a.0) {
                witness.set_target(t, x);
            }
            for (&t, &x) in at.1.siblings.iter().zip(&a.1.siblings) {
                witness.set_hash_target(t, x);
            }
        }
        for (st, s) in qt.steps.iter().zip(&q.steps) {
            for (&t, &x) in st.evals.iter().zip(&s.evals) {
                witness.set_extension_target(t, x);
            }
            for (&t, &x) in st.merkle_proof.siblings.iter().zip(&s.merkle_proof.siblings) {
                witness.set_hash_target(t, x);
            }
        }
    }
}
