use anyhow::{ensure, Result};

use crate::field::extension::Extendable;
use crate::fri::proof::{FriChallenges, FriProof};
use crate::fri::structure::{FriInstanceInfo, FriOpenings};
use crate::fri::verifier::{check_openings_shape, combine_initial, validate_shape, verify_rounds};
use crate::fri::FriParams;
use crate::hash::hash_types::RichField;
use crate::hash::merkle_proofs::verify_batch_merkle_proof_to_cap;
use crate::hash::merkle_tree::MerkleCap;
use crate::plonk::config::GenericConfig;

pub fn verify_batch_fri_proof<
    F: RichField + Extendable<D>,
    C: GenericConfig<D, F = F>,
    const D: usize,
>(
    degree_bits: &[usize],
    instances: &[FriInstanceInfo<F, D>],
    openings: &[FriOpenings<F, D>],
    challenges: &FriChallenges<F, D>,
    initial_merkle_caps: &[MerkleCap<F, C::Hasher>],
    proof: &FriProof<F, C::Hasher, D>,
    params: &FriParams,
) -> Result<()> {
    ensure!(degree_bits.windows(2).all(|w| w[0] > w[1]), "Degrees must descend");
    ensure!(degree_bits.len() == instances.len(), "Number of instances");
    ensure!(degree_bits.len() == openings.len(), "Number of openings");
    let oracles = instances[0].oracles.len();
    // columns[o][k]: columns of oracle o at the k-th height
    let columns: Vec<Vec<usize>> = (0..oracles)
        .map(|o| instances.iter().map(|i| i.oracles[o].num_polys).collect())
        .collect();
    let leaf_lens: Vec<usize> = columns.iter().map(|c| c.iter().sum()).collect();
    validate_shape::<F, C, D>(proof, &leaf_lens, params.lde_bits(), params)?;
    for (i, o) in instances.iter().zip(openings) {
        check_openings_shape(i, o)?;
    }
    let heights: Vec<usize> = degree_bits.iter().map(|d| d + params.config.rate_bits).collect();
    verify_rounds::<F, C, D>(
        challenges,
        proof,
        params,
        degree_bits,
        |initial, x_index| {
            for (o, (evals, merkle)) in initial.evals_proofs.iter().enumerate() {
                let mut rest = &evals[..];
                let rows: Vec<Vec<F>> = columns[o]
                    .iter()
                    .map(|&c| {
                        let (row, tail) = rest.split_at(c);
                        rest = tail;
                        row.to_vec()
                    })
                    .collect();
                verify_batch_merkle_proof_to_cap::<F, C::Hasher>(
                    &rows,
                    &heights,
                    x_index,
                    &initial_merkle_caps[o],
                    merkle,
                )?;
            }
            Ok(())
        },
        |k, initial, x| {
            combine_initial(
                &instances[k],
                &openings[k],
                |o, p| initial.unsalted_eval(o, p),
                challenges.fri_alpha,
                x,
            )
        },
    )
}
