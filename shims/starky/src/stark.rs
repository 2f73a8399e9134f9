use plonky2::field::extension::{Extendable, FieldExtension};
use plonky2::field::packed::PackedField;
use plonky2::field::types::Field;
use plonky2::fri::structure::{
    FriBatchInfo, FriBatchInfoTarget, FriInstanceInfo, FriInstanceInfoTarget, FriOracleInfo,
    FriPolynomialInfo,
};
use plonky2::hash::hash_types::RichField;
use plonky2::iop::ext_target::ExtensionTarget;
use plonky2::plonk::circuit_builder::CircuitBuilder;

use crate::config::StarkConfig;
use crate::constraint_consumer::{ConstraintConsumer, RecursiveConstraintConsumer};
use crate::evaluation_frame::StarkEvaluationFrame;

#[derive(Clone, Copy, Debug)]
pub struct LookupConfig {
    pub degree_bits: usize,
    pub num_zs: usize,
}

pub trait Stark<F: RichField + Extendable<D>, const D: usize>: Sync {
    const COLUMNS: usize = Self::EvaluationFrameTarget::COLUMNS;
    const PUBLIC_INPUTS: usize = Self::EvaluationFrameTarget::PUBLIC_INPUTS;

    type EvaluationFrame<FE, P, const D2: usize>: StarkEvaluationFrame<P, FE>
    where
        FE: FieldExtension<D2, BaseField = F>,
        P: PackedField<Scalar = FE>;
    type EvaluationFrameTarget: StarkEvaluationFrame<ExtensionTarget<D>, ExtensionTarget<D>>;

    fn eval_packed_generic<FE, P, const D2: usize>(
        &self,
        vars: &Self::EvaluationFrame<FE, P, D2>,
        yield_constr: &mut ConstraintConsumer<P>,
    ) where
        FE: FieldExtension<D2, BaseField = F>,
        P: PackedField<Scalar = FE>;

    fn eval_packed_base<P: PackedField<Scalar = F>>(
        &self,
        vars: &Self::EvaluationFrame<F, P, 1>,
        yield_constr: &mut ConstraintConsumer<P>,
    ) {
        self.eval_packed_generic(vars, yield_constr)
    }

    fn eval_ext(
        &self,
        vars: &Self::EvaluationFrame<F::Extension, F::Extension, D>,
        yield_constr: &mut ConstraintConsumer<F::Extension>,
    ) {
        self.eval_packed_generic(vars, yield_constr)
    }

    fn eval_ext_circuit(
        &self,
        builder: &mut CircuitBuilder<F, D>,
        vars: &Self::EvaluationFrameTarget,
        yield_constr: &mut RecursiveConstraintConsumer<F, D>,
    );

    fn constraint_degree(&self) -> usize;

    fn quotient_degree_factor(&self) -> usize {
        match self.constraint_degree().checked_sub(1) {
            Some(v) => 1.max(v),
            None => 0,
        }
    }

    fn num_quotient_polys(&self, config: &StarkConfig) -> usize {
        self.quotient_degree_factor() * config.num_challenges
    }

    fn requires_ctls(&self) -> bool { false }

    fn uses_lookups(&self) -> bool { false }

    fn fri_instance(
        &self,
        zeta: F::Extension,
        g: F,
        _num_ctl_helpers: usize,
        _num_ctl_zs: Vec<usize>,
        config: &StarkConfig,
        lookup: Option<&LookupConfig>,
    ) -> FriInstanceInfo<F, D> {
        let (oracles, at_zeta, at_next, at_last) =
            layout(Self::COLUMNS, self.num_quotient_polys(config), lookup);
        let mut batches = vec![
            FriBatchInfo {
                point: zeta,
                polynomials: at_zeta,
            },
            FriBatchInfo {
                point: zeta.scalar_mul(g),
                polynomials: at_next,
            },
        ];
        if lookup.is_some() {
            batches.push(FriBatchInfo {
                point: F::Extension::from(g.inverse()),
                polynomials: at_last,
            });
        }
        FriInstanceInfo { oracles, batches }
    }

    fn fri_instance_target(
        &self,
        builder: &mut CircuitBuilder<F, D>,
        zeta: ExtensionTarget<D>,
        g: F,
        _num_ctl_helper_polys: usize,
        _num_ctl_zs: usize,
        config: &StarkConfig,
        lookup: Option<&LookupConfig>,
    ) -> FriInstanceInfoTarget<D> {
        let (oracles, at_zeta, at_next, at_last) =
            layout(Self::COLUMNS, self.num_quotient_polys(config), lookup);
        let mut batches = vec![
            FriBatchInfoTarget {
                point: zeta,
                polynomials: at_zeta,
            },
            FriBatchInfoTarget {
                point: builder.mul_const_extension(g, zeta),
                polynomials: at_next,
            },
        ];
        if lookup.is_some() {
            batches.push(FriBatchInfoTarget {
                point: builder.constant_extension(F::Extension::from(g.inverse())),
                polynomials: at_last,
            });
        }
        FriInstanceInfoTarget { oracles, batches }
    }
}

#[allow(clippy::type_complexity)]
fn layout(
    columns: usize,
    quotients: usize,
    lookup: Option<&LookupConfig>,
) -> (
    Vec<FriOracleInfo>,
    Vec<FriPolynomialInfo>,
    Vec<FriPolynomialInfo>,
    Vec<FriPolynomialInfo>,
) {
    let mut oracles = vec![];
    let mut oracle = |num_polys: usize| {
        oracles.push(FriOracleInfo {
            num_polys,
            blinding: false,
        });
        FriPolynomialInfo::from_range(oracles.len() - 1, 0..num_polys)
    };
    let trace = oracle(columns);
    let zs = lookup.map_or_else(Vec::new, |l| oracle(l.num_zs));
    let quotient = oracle(quotients);
    let at_zeta = [&trace[..], &zs, &quotient].concat();
    let at_next = [&trace[..], &zs].concat();
    (oracles, at_zeta, at_next, zs)
}
