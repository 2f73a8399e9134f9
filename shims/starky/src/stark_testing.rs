use anyhow::{ensure, Result};
use plonky2::field::extension::{Extendable, FieldExtension};
use plonky2::field::polynomial::{PolynomialCoeffs, PolynomialValues};
use plonky2::field::types::{Field, Sample};
use plonky2::hash::hash_types::RichField;
use plonky2::iop::witness::{PartialWitness, WitnessWrite};
use plonky2::plonk::circuit_builder::CircuitBuilder;
use plonky2::plonk::circuit_data::CircuitConfig;
use plonky2::plonk::config::GenericConfig;
use plonky2::util::{log2_ceil, log2_strict, transpose};

use crate::constraint_consumer::{ConstraintConsumer, RecursiveConstraintConsumer};
use crate::evaluation_frame::StarkEvaluationFrame;
use crate::stark::Stark;

const WITNESS_SIZE: usize = 1 << 5;

pub fn test_stark_low_degree<F: RichField + Extendable<D>, S: Stark<F, D>, const D: usize>(
    stark: S,
) -> Result<()> {
    let rate_bits = log2_ceil(stark.constraint_degree() + 1);
    let polys: Vec<PolynomialValues<F>> =
        (0..S::COLUMNS).map(|_| PolynomialValues::new(F::rand_vec(WITNESS_SIZE))).collect();
    let lde: Vec<Vec<F>> = polys
        .into_iter()
        .map(|p| p.ifft().lde(rate_bits).coset_fft(F::ONE).values)
        .collect();
    let rows = transpose(&lde);
    let size = rows.len();
    let public_inputs = F::rand_vec(S::PUBLIC_INPUTS);
    let lagrange_first = PolynomialValues::selector(WITNESS_SIZE, 0).ifft().lde(rate_bits).coset_fft(F::ONE);
    let lagrange_last =
        PolynomialValues::selector(WITNESS_SIZE, WITNESS_SIZE - 1).ifft().lde(rate_bits).coset_fft(F::ONE);
    let last = F::primitive_root_of_unity(log2_strict(WITNESS_SIZE)).inverse();
    let subgroup = F::cyclic_subgroup_known_order(F::primitive_root_of_unity(log2_strict(size)), size);
    let alpha = F::rand();
    let evals: Vec<F> = (0..size)
        .map(|i| {
            let vars = StarkEvaluationFrame::from_values(
                &rows[i],
                &rows[(i + (1 << rate_bits)) % size],
                &public_inputs,
            );
            let mut c = ConstraintConsumer::<F>::new(
                vec![alpha],
                subgroup[i] - last,
                lagrange_first.values[i],
                lagrange_last.values[i],
            );
            stark.eval_packed_base(&vars, &mut c);
            c.accumulators()[0]
        })
        .collect();
    let coeffs = PolynomialValues::new(evals).ifft().coeffs;
    let degree = coeffs.iter().rposition(|c| c.is_nonzero()).unwrap_or(0);
    let maximum = WITNESS_SIZE * stark.constraint_degree() - 1;
    ensure!(
        degree <= maximum,
        "Expected degrees at most {WITNESS_SIZE} * {} - 1 = {maximum}, actual {degree}",
        stark.constraint_degree()
    );
    Ok(())
}

pub fn test_stark_circuit_constraints<
    F: RichField + Extendable<D>,
    C: GenericConfig<D, F = F>,
    S: Stark<F, D>,
    const D: usize,
>(
    stark: S,
) -> Result<()> {
    let ext = |n: usize| -> Vec<F::Extension> {
        (0..n)
            .map(|_| F::Extension::from_basefield_array(core::array::from_fn(|_| F::rand())))
            .collect()
    };
    let (lv, nv, pis) = (ext(S::COLUMNS), ext(S::COLUMNS), ext(S::PUBLIC_INPUTS));
    let s = ext(3);
    let alphas = F::rand_vec(1);
    let vars = StarkEvaluationFrame::from_values(&lv, &nv, &pis);
    let mut c = ConstraintConsumer::<F::Extension>::new(
        alphas.iter().map(|&a| F::Extension::from_basefield(a)).collect(),
        s[0],
        s[1],
        s[2],
    );
    stark.eval_ext(&vars, &mut c);
    let native = c.accumulators()[0];

    let mut builder = CircuitBuilder::<F, D>::new(CircuitConfig::standard_recursion_config());
    let mut pw = PartialWitness::<F>::new();
    let mut targets = |builder: &mut CircuitBuilder<F, D>, v: &[F::Extension]| {
        let t = builder.add_virtual_extension_targets(v.len());
        pw.set_extension_targets(&t, v);
        t
    };
    let (lt, nt, pt, st) = (
        targets(&mut builder, &lv),
        targets(&mut builder, &nv),
        targets(&mut builder, &pis),
        targets(&mut builder, &s),
    );
    let at = builder.add_virtual_targets(1);
    pw.set_target(at[0], alphas[0]);
    let vars = S::EvaluationFrameTarget::from_values(&lt, &nt, &pt);
    let mut rc = RecursiveConstraintConsumer::<F, D>::new(builder.zero_extension(), at, st[0], st[1], st[2]);
    stark.eval_ext_circuit(&mut builder, &vars, &mut rc);
    let acc = rc.accumulators()[0];
    let want = builder.constant_extension(native);
    builder.connect_extension(acc, want);
    let data = builder.build::<C>();
    let proof = data.prove(pw)?;
    data.verify(proof)
}
#[allow(dead_code)]
fn _p<F: Field>(_: PolynomialCoeffs<F>) {}
