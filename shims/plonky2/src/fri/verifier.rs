use anyhow::{ensure, Result};

use crate::field::extension::{flatten, Extendable, FieldExtension};
use crate::field::interpolation::{barycentric_weights, interpolate};
use crate::field::types::Field;
use crate::fri::proof::{FriChallenges, FriInitialTreeProof, FriProof};
use crate::fri::structure::{FriInstanceInfo, FriOpenings};
use crate::fri::FriParams;
use crate::hash::hash_types::RichField;
use crate::hash::merkle_proofs::verify_merkle_proof_to_cap;
use crate::hash::merkle_tree::MerkleCap;
use crate::plonk::config::GenericConfig;
use crate::util::{reverse_bits, reverse_index_bits_in_place};

/// The value at `beta` of the polynomial through the `arity` evaluations of the
/// coset containing `x`.
pub(crate) fn compute_evaluation<F: Field + Extendable<D>, const D: usize>(
    x: F,
    x_index_within_coset: usize,
    arity_bits: usize,
    evals: &[F::Extension],
    beta: F::Extension,
) -> F::Extension {
    let arity = 1 << arity_bits;
    let g = F::primitive_root_of_unity(arity_bits);
    let mut evals = evals.to_vec();
    reverse_index_bits_in_place(&mut evals);
    let rev = reverse_bits(x_index_within_coset, arity_bits);
    let coset_start = x * g.exp_u64((arity - rev) as u64);
    let points: Vec<(F::Extension, F::Extension)> = g
        .powers()
        .take(arity)
        .map(|y| F::Extension::from(coset_start * y))
        .zip(evals)
        .collect();
    let weights = barycentric_weights(&points);
    interpolate(&points, beta, &weights)
}

pub(crate) fn validate_shape<F, C, const D: usize>(
    proof: &FriProof<F, C::Hasher, D>,
    leaf_lens: &[usize],
    initial_proof_len: usize,
    params: &FriParams,
) -> Result<()>
where
    F: RichField + Extendable<D>,
    C: GenericConfig<D, F = F>, {
    let cap_height = params.config.cap_height;
    ensure!(
        proof.commit_phase_merkle_caps.len() == params.reduction_arity_bits.len(),
        "Number of commit-phase caps"
    );
    for cap in &proof.commit_phase_merkle_caps {
        ensure!(cap.0.len() == 1 << cap_height, "Commit-phase cap size");
    }
    ensure!(
        proof.query_round_proofs.len() == params.config.num_query_rounds,
        "Number of query rounds does not match config."
    );
    for q in &proof.query_round_proofs {
        ensure!(
            q.initial_trees_proof.evals_proofs.len() == leaf_lens.len(),
            "Number of oracles"
        );
        for ((leaf, merkle), &len) in q.initial_trees_proof.evals_proofs.iter().zip(leaf_lens) {
            ensure!(leaf.len() == len, "Initial leaf length");
            ensure!(merkle.len() + cap_height == initial_proof_len, "Initial proof length");
        }
        ensure!(q.steps.len() == params.reduction_arity_bits.len(), "Number of steps");
        let mut bits = params.lde_bits();
        for (step, &arity_bits) in q.steps.iter().zip(&params.reduction_arity_bits) {
            bits -= arity_bits;
            ensure!(step.evals.len() == 1 << arity_bits, "Step evaluations");
            ensure!(step.merkle_proof.len() + cap_height == bits, "Step proof length");
        }
    }
    ensure!(
        proof.final_poly.len() == params.final_poly_len(),
        "Final polynomial length"
    );
    Ok(())
}

pub(crate) fn combine_initial<F: RichField + Extendable<D>, const D: usize>(
    instance: &FriInstanceInfo<F, D>,
    openings: &FriOpenings<F, D>,
    eval: impl Fn(usize, usize) -> F,
    alpha: F::Extension,
    x: F,
) -> F::Extension {
    let mut power = F::Extension::ONE;
    let mut sum = F::Extension::ZERO;
    for (batch, opened) in instance.batches.iter().zip(&openings.batches) {
        let mut num = F::Extension::ZERO;
        for (info, &y) in batch.polynomials.iter().zip(&opened.values) {
            let e = F::Extension::from(eval(info.oracle_index, info.polynomial_index));
            num += power * (e - y);
            power *= alpha;
        }
        sum += num / (F::Extension::from(x) - batch.point);
    }
    sum
}

pub(crate) fn check_openings_shape<F: RichField + Extendable<D>, const D: usize>(
    instance: &FriInstanceInfo<F, D>,
    openings: &FriOpenings<F, D>,
) -> Result<()> {
    ensure!(instance.batches.len() == openings.batches.len(), "Number of batches");
    for (b, o) in instance.batches.iter().zip(&openings.batches) {
        ensure!(b.polynomials.len() == o.values.len(), "Number of openings");
    }
    Ok(())
}

pub fn verify_fri_proof<
    F: RichField + Extendable<D>,
    C: GenericConfig<D, F = F>,
    const D: usize,
>(
    instance: &FriInstanceInfo<F, D>,
    openings: &FriOpenings<F, D>,
    challenges: &FriChallenges<F, D>,
    initial_merkle_caps: &[MerkleCap<F, C::Hasher>],
    proof: &FriProof<F, C::Hasher, D>,
    params: &FriParams,
) -> Result<()> {
    let leaf_lens: Vec<usize> = instance.oracles.iter().map(|o| o.num_polys).collect();
    validate_shape::<F, C, D>(proof, &leaf_lens, params.lde_bits(), params)?;
    check_openings_shape(instance, openings)?;
    verify_rounds::<F, C, D>(
        challenges,
        proof,
        params,
        &[params.degree_bits],
        |initial, x_index| {
            for ((evals, merkle), cap) in initial.evals_proofs.iter().zip(initial_merkle_caps) {
                verify_merkle_proof_to_cap::<F, C::Hasher>(evals.clone(), x_index, cap, merkle)?;
            }
            Ok(())
        },
        |_, initial, x| {
            combine_initial(
                instance,
                openings,
                |o, p| initial.unsalted_eval(o, p),
                challenges.fri_alpha,
                x,
            )
        },
    )
}

pub(crate) fn verify_rounds<
    F: RichField + Extendable<D>,
    C: GenericConfig<D, F = F>,
    const D: usize,
>(
    challenges: &FriChallenges<F, D>,
    proof: &FriProof<F, C::Hasher, D>,
    params: &FriParams,
    degree_bits: &[usize],
    check_initial: impl Fn(&FriInitialTreeProof<F, C::Hasher>, usize) -> Result<()>,
    combined: impl Fn(usize, &FriInitialTreeProof<F, C::Hasher>, F) -> F::Extension,
) -> Result<()> {
    ensure!(
        challenges.fri_pow_response.to_canonical_u64().leading_zeros()
            >= params.config.proof_of_work_bits,
        "Invalid proof of work witness."
    );
    ensure!(params.final_poly_len() == proof.final_poly.len(), "Final polynomial has wrong degree.");
    let rate_bits = params.config.rate_bits;
    for (&x_start, round) in challenges.fri_query_indices.iter().zip(&proof.query_round_proofs) {
        let mut x_index = x_start;
        check_initial(&round.initial_trees_proof, x_index)?;
        let mut n_log = degree_bits[0] + rate_bits;
        let point = |index: usize, bits: usize| {
            F::coset_shift() * F::primitive_root_of_unity(bits).exp_u64(reverse_bits(index, bits) as u64)
        };
        let mut subgroup_x = point(x_index, n_log);
        let mut eval = combined(0, &round.initial_trees_proof, subgroup_x);
        let mut next = 1;
        for (i, &arity_bits) in params.reduction_arity_bits.iter().enumerate() {
            let evals = &round.steps[i].evals;
            let coset_index = x_index >> arity_bits;
            let within = x_index & ((1 << arity_bits) - 1);
            ensure!(evals[within] == eval, "FRI step {i}: inconsistent evaluation");
            eval = compute_evaluation(subgroup_x, within, arity_bits, evals, challenges.fri_betas[i]);
            verify_merkle_proof_to_cap::<F, C::Hasher>(
                flatten(evals),
                coset_index,
                &proof.commit_phase_merkle_caps[i],
                &round.steps[i].merkle_proof,
            )?;
            subgroup_x = subgroup_x.exp_power_of_2(arity_bits);
            x_index = coset_index;
            n_log -= arity_bits;
            if next < degree_bits.len() && degree_bits[next] + rate_bits == n_log {
                eval = eval * challenges.fri_betas[i]
                    + combined(next, &round.initial_trees_proof, point(x_index, n_log));
                next += 1;
            }
        }
        ensure!(next == degree_bits.len(), "FRI: a polynomial was never checked");
        ensure!(
            proof.final_poly.eval(subgroup_x.into()) == eval,
            "Final polynomial evaluation is invalid."
        );
    }
    Ok(())
}
#[allow(dead_code)]
fn _fe<const D: usize, F: FieldExtension<D>>() {}
