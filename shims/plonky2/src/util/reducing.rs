use crate::field::extension::{Extendable, FieldExtension};
use crate::hash::hash_types::RichField;
use crate::iop::ext_target::ExtensionTarget;
use crate::iop::target::Target;
use crate::plonk::circuit_builder::CircuitBuilder;

#[derive(Debug, Clone)]
pub struct ReducingFactor<F> {
    base: F,
}
impl<F: crate::field::types::Field> ReducingFactor<F> {
    pub const fn new(base: F) -> Self { Self { base } }

    pub fn reduce(&mut self, iter: impl DoubleEndedIterator<Item = impl core::borrow::Borrow<F>>) -> F {
        iter.rev().fold(F::ZERO, |acc, x| acc * self.base + *x.borrow())
    }
}

#[derive(Debug, Clone)]
pub struct ReducingFactorTarget<const D: usize> {
    base: ExtensionTarget<D>,
}
impl<const D: usize> ReducingFactorTarget<D> {
    pub const fn new(base: ExtensionTarget<D>) -> Self { Self { base } }

    pub fn reduce<F: RichField + Extendable<D>>(
        &mut self,
        terms: &[ExtensionTarget<D>],
        builder: &mut CircuitBuilder<F, D>,
    ) -> ExtensionTarget<D> {
        let mut acc = builder.zero_extension();
        for &t in terms.iter().rev() {
            acc = builder.mul_add_extension(acc, self.base, t);
        }
        acc
    }

    pub fn reduce_base<F: RichField + Extendable<D>>(
        &mut self,
        terms: &[Target],
        builder: &mut CircuitBuilder<F, D>,
    ) -> ExtensionTarget<D> {
        let terms: Vec<_> = terms.iter().map(|&t| builder.convert_to_ext(t)).collect();
        self.reduce(&terms, builder)
    }
}
#[allow(dead_code)]
fn _f<F: Extendable<D>, const D: usize>(_: F::Extension) where F::Extension: FieldExtension<D> {}
