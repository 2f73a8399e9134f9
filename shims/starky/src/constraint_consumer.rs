use core::marker::PhantomData;
use std::cell::RefCell;

use plonky2::field::extension::Extendable;
use plonky2::field::packed::PackedField;
use plonky2::field::types::Field;
use plonky2::hash::hash_types::RichField;
use plonky2::iop::ext_target::ExtensionTarget;
use plonky2::iop::target::Target;
use plonky2::plonk::circuit_builder::CircuitBuilder;

/// Which rows a constraint is about.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Rows {
    All,
    Transition,
    First,
    Last,
}

/// One constraint as it was handed to a consumer; for monitors.
#[derive(Clone, Copy, Debug)]
pub struct Seen<P> {
    pub rows: Rows,
    pub value: P,
}

#[derive(Debug, Clone)]
pub struct ConstraintConsumer<P: PackedField> {
    alphas: Vec<P::Scalar>,
    pub constraint_accs: Vec<P>,
    z_last: P,
    lagrange_basis_first: P,
    lagrange_basis_last: P,
    failed: bool,
    record: Option<Vec<Seen<P>>>,
}

impl<P: PackedField> ConstraintConsumer<P> {
    pub fn new(
        alphas: Vec<P::Scalar>,
        z_last: P,
        lagrange_basis_first: P,
        lagrange_basis_last: P,
    ) -> Self {
        Self {
            constraint_accs: vec![P::ZEROS; alphas.len()],
            alphas,
            z_last,
            lagrange_basis_first,
            lagrange_basis_last,
            failed: false,
            record: None,
        }
    }

    pub fn new_debug_api(is_first_row: bool, is_last_row: bool) -> Self {
        let b = |b: bool| P::from(P::Scalar::from_bool(b));
        Self::new(vec![P::Scalar::ONE], b(!is_last_row), b(is_first_row), b(is_last_row))
    }

    /// Remembers every constraint (not part of starky).
    pub fn new_recording() -> Self {
        let mut c = Self::new(vec![], P::ONES, P::ONES, P::ONES);
        c.record = Some(vec![]);
        c
    }

    pub fn recorded(self) -> Vec<Seen<P>> { self.record.unwrap_or_default() }

    pub fn debug_api_has_constraint_failed(&self) -> bool { self.failed }

    pub fn accumulators(self) -> Vec<P> { self.constraint_accs }

    fn add(&mut self, constraint: P) {
        self.failed |= constraint.as_slice().iter().any(|x| x.is_nonzero());
        for (&alpha, acc) in self.alphas.iter().zip(&mut self.constraint_accs) {
            *acc *= alpha;
            *acc += constraint;
        }
    }

    fn see(&mut self, rows: Rows, value: P) {
        if let Some(r) = &mut self.record {
            r.push(Seen { rows, value });
        }
    }

    pub fn constraint_transition(&mut self, constraint: P) {
        self.see(Rows::Transition, constraint);
        self.add(constraint * self.z_last);
    }

    pub fn constraint(&mut self, constraint: P) {
        self.see(Rows::All, constraint);
        self.add(constraint);
    }

    pub fn constraint_first_row(&mut self, constraint: P) {
        self.see(Rows::First, constraint);
        self.add(constraint * self.lagrange_basis_first);
    }

    pub fn constraint_last_row(&mut self, constraint: P) {
        self.see(Rows::Last, constraint);
        self.add(constraint * self.lagrange_basis_last);
    }
}

thread_local! {
    static CIRCUIT: RefCell<Option<Vec<(Rows, Vec<Target>)>>> = const { RefCell::new(None) };
}
/// Remember the constraints that recursive consumers of this thread get (not
/// part of starky).
pub fn record_circuit_constraints() { CIRCUIT.with(|c| *c.borrow_mut() = Some(vec![])); }
pub fn take_circuit_constraints() -> Vec<(Rows, Vec<Target>)> {
    CIRCUIT.with(|c| c.borrow_mut().take().unwrap_or_default())
}

#[derive(Debug, Clone)]
pub struct RecursiveConstraintConsumer<F: RichField + Extendable<D>, const D: usize> {
    alphas: Vec<Target>,
    constraint_accs: Vec<ExtensionTarget<D>>,
    z_last: ExtensionTarget<D>,
    lagrange_basis_first: ExtensionTarget<D>,
    lagrange_basis_last: ExtensionTarget<D>,
    _phantom: PhantomData<F>,
}
impl<F: RichField + Extendable<D>, const D: usize> RecursiveConstraintConsumer<F, D> {
    pub fn new(
        zero: ExtensionTarget<D>,
        alphas: Vec<Target>,
        z_last: ExtensionTarget<D>,
        lagrange_basis_first: ExtensionTarget<D>,
        lagrange_basis_last: ExtensionTarget<D>,
    ) -> Self {
        Self {
            constraint_accs: vec![zero; alphas.len()],
            alphas,
            z_last,
            lagrange_basis_first,
            lagrange_basis_last,
            _phantom: PhantomData,
        }
    }

    pub fn accumulators(self) -> Vec<ExtensionTarget<D>> { self.constraint_accs }

    fn see(&self, rows: Rows, c: ExtensionTarget<D>) {
        CIRCUIT.with(|r| {
            if let Some(r) = &mut *r.borrow_mut() {
                r.push((rows, c.0.to_vec()));
            }
        });
    }

    fn add(&mut self, builder: &mut CircuitBuilder<F, D>, constraint: ExtensionTarget<D>) {
        for (&alpha, acc) in self.alphas.iter().zip(&mut self.constraint_accs) {
            let scaled = builder.scalar_mul_ext(alpha, *acc);
            *acc = builder.add_extension(scaled, constraint);
        }
    }

    pub fn constraint_transition(
        &mut self,
        builder: &mut CircuitBuilder<F, D>,
        constraint: ExtensionTarget<D>,
    ) {
        self.see(Rows::Transition, constraint);
        let c = builder.mul_extension(constraint, self.z_last);
        self.add(builder, c);
    }

    pub fn constraint(
        &mut self,
        builder: &mut CircuitBuilder<F, D>,
        constraint: ExtensionTarget<D>,
    ) {
        self.see(Rows::All, constraint);
        self.add(builder, constraint);
    }

    pub fn constraint_first_row(
        &mut self,
        builder: &mut CircuitBuilder<F, D>,
        constraint: ExtensionTarget<D>,
    ) {
        self.see(Rows::First, constraint);
        let c = builder.mul_extension(constraint, self.lagrange_basis_first);
        self.add(builder, c);
    }

    pub fn constraint_last_row(
        &mut self,
        builder: &mut CircuitBuilder<F, D>,
        constraint: ExtensionTarget<D>,
    ) {
        self.see(Rows::Last, constraint);
        let c = builder.mul_extension(constraint, self.lagrange_basis_last);
        self.add(builder, c);
    }
}
