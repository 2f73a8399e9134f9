use crate::field::extension::{flatten, unflatten, Extendable};
use crate::field::polynomial::{PolynomialCoeffs, PolynomialValues};
use crate::field::types::Field;
use crate::fri::proof::{FriInitialTreeProof, FriProof, FriQueryRound, FriQueryStep};
use crate::fri::FriParams;
use crate::hash::hash_types::RichField;
use crate::hash::merkle_proofs::MerkleProof;
use crate::hash::merkle_tree::MerkleTree;
use crate::iop::challenger::Challenger;
use crate::plonk::config::{GenericConfig, Hasher};
use crate::util::reverse_index_bits_in_place;

/// FRI over the evaluations (natural order, on the coset domain) of one or more
/// polynomials of strictly descending sizes; the smaller ones join when the
/// folded polynomial has reached their size.
pub fn fri_proof<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize>(
    values: Vec<Vec<F::Extension>>,
    open_initial: impl Fn(usize) -> Vec<(Vec<F>, MerkleProof<F, C::Hasher>)>,
    challenger: &mut Challenger<F, C::Hasher>,
    params: &FriParams,
) -> FriProof<F, C::Hasher, D> {
    let n = values[0].len();
    let mut next = 1;
    let mut current = values[0].clone();
    let mut shift = F::coset_shift();
    let mut coeffs =
        PolynomialValues::new(current.clone()).coset_ifft(F::Extension::from(shift));
    let mut trees: Vec<MerkleTree<F, C::Hasher>> = vec![];
    for &arity_bits in &params.reduction_arity_bits {
        let arity = 1 << arity_bits;
        reverse_index_bits_in_place(&mut current);
        let leaves = current
            .chunks(arity)
            .map(|c| flatten::<F, D>(c))
            .collect::<Vec<_>>();
        let tree = MerkleTree::<F, C::Hasher>::new(leaves, params.config.cap_height);
        challenger.observe_cap(&tree.cap);
        trees.push(tree);
        let beta = challenger.get_extension_challenge::<D>();
        coeffs = PolynomialCoeffs::new(
            coeffs
                .coeffs
                .chunks(arity)
                .map(|c| c.iter().rev().fold(F::Extension::ZERO, |a, &x| a * beta + x))
                .collect(),
        );
        shift = shift.exp_u64(arity as u64);
        current = coeffs.coset_fft(shift.into()).values;
        if next < values.len() && values[next].len() == current.len() {
            for (c, &v) in current.iter_mut().zip(&values[next]) {
                *c = *c * beta + v;
            }
            coeffs = PolynomialValues::new(current.clone()).coset_ifft(shift.into());
            next += 1;
        }
    }
    assert_eq!(next, values.len(), "a polynomial never joined the folding");
    coeffs.coeffs.truncate(coeffs.len() >> params.config.rate_bits);
    challenger.observe_extension_elements(&coeffs.coeffs);
    let final_poly = coeffs;

    // proof of work
    let mut witness = 0u64;
    let pow_witness = loop {
        let w = F::from_canonical_u64(witness);
        let mut c = challenger.clone();
        c.observe_element(w);
        if c.get_challenge().to_canonical_u64().leading_zeros()
            >= params.config.proof_of_work_bits
        {
            break w;
        }
        witness += 1;
    };
    challenger.observe_element(pow_witness);
    let _ = challenger.get_challenge();

    let query_round_proofs = challenger
        .get_n_challenges(params.config.num_query_rounds)
        .into_iter()
        .map(|r| {
            let mut x = (r.to_canonical_u64() % n as u64) as usize;
            let initial_trees_proof = FriInitialTreeProof {
                evals_proofs: open_initial(x),
            };
            let mut steps = vec![];
            for (tree, &arity_bits) in trees.iter().zip(&params.reduction_arity_bits) {
                let evals = unflatten(tree.get(x >> arity_bits));
                let merkle_proof = tree.prove(x >> arity_bits);
                steps.push(FriQueryStep {
                    evals,
                    merkle_proof,
                });
                x >>= arity_bits;
            }
            FriQueryRound {
                initial_trees_proof,
                steps,
            }
        })
        .collect();

    FriProof {
        commit_phase_merkle_caps: trees.iter().map(|t| t.cap.clone()).collect(),
        query_round_proofs,
        final_poly,
        pow_witness,
    }
}
#[allow(dead_code)]
fn _h<F: RichField, H: Hasher<F>>() {}
