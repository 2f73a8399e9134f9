use core::marker::PhantomData;

use anyhow::Result;
use plonky2::field::extension::Extendable;
use plonky2::field::polynomial::PolynomialValues;
use plonky2::hash::hash_types::RichField;
use plonky2::plonk::config::GenericConfig;
use plonky2::util::timing::TimingTree;

use crate::config::StarkConfig;
use crate::constraint_consumer::ConstraintConsumer;
use crate::evaluation_frame::StarkEvaluationFrame;
use crate::stark::Stark;

/// Which row failed, if any.
#[derive(Clone, Debug)]
pub struct StarkProofWithPublicInputs<F, C, const D: usize> {
    pub(crate) failed: Option<usize>,
    pub public_inputs: Vec<F>,
    _c: PhantomData<C>,
}

pub fn prove<F, C, S, const D: usize>(
    stark: S,
    _config: &StarkConfig,
    trace_poly_values: Vec<PolynomialValues<F>>,
    public_inputs: &[F],
    _timing: &mut TimingTree,
) -> Result<StarkProofWithPublicInputs<F, C, D>>
where
    F: RichField + Extendable<D>,
    C: GenericConfig<D, F = F>,
    S: Stark<F, D>, {
    let n = trace_poly_values[0].len();
    assert!(n.is_power_of_two());
    assert_eq!(trace_poly_values.len(), S::COLUMNS);
    let row = |i: usize| trace_poly_values.iter().map(|c| c.values[i]).collect::<Vec<F>>();
    let failed = (0..n).find(|&i| {
        let mut c = ConstraintConsumer::<F>::new_debug_api(i == 0, i == n - 1);
        let vars = StarkEvaluationFrame::from_values(&row(i), &row((i + 1) % n), public_inputs);
        stark.eval_packed_base(&vars, &mut c);
        c.debug_api_has_constraint_failed()
    });
    Ok(StarkProofWithPublicInputs {
        failed,
        public_inputs: public_inputs.to_vec(),
        _c: PhantomData,
    })
}
