use anyhow::{ensure, Result};
use plonky2::field::extension::Extendable;
use plonky2::hash::hash_types::RichField;
use plonky2::plonk::config::GenericConfig;

use crate::config::StarkConfig;
use crate::prover::StarkProofWithPublicInputs;
use crate::stark::Stark;

pub fn verify_stark_proof<F, C, S, const D: usize>(
    _stark: S,
    proof: StarkProofWithPublicInputs<F, C, D>,
    _config: &StarkConfig,
) -> Result<()>
where
    F: RichField + Extendable<D>,
    C: GenericConfig<D, F = F>,
    S: Stark<F, D>, {
    ensure!(proof.failed.is_none(), "Mismatch between evaluation and opening of quotient polynomial");
    Ok(())
}
