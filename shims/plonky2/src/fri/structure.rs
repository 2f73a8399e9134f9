use core::ops::Range;

use serde::Serialize;

use crate::field::extension::Extendable;
use crate::hash::hash_types::RichField;
use crate::iop::ext_target::ExtensionTarget;

#[derive(Debug, Clone)]
pub struct FriInstanceInfo<F: RichField + Extendable<D>, const D: usize> {
    pub oracles: Vec<FriOracleInfo>,
    pub batches: Vec<FriBatchInfo<F, D>>,
}
#[derive(Debug, Clone)]
pub struct FriInstanceInfoTarget<const D: usize> {
    pub oracles: Vec<FriOracleInfo>,
    pub batches: Vec<FriBatchInfoTarget<D>>,
}
#[derive(Copy, Clone, Debug)]
pub struct FriOracleInfo {
    pub num_polys: usize,
    pub blinding: bool,
}
#[derive(Debug, Clone)]
pub struct FriBatchInfo<F: RichField + Extendable<D>, const D: usize> {
    pub point: F::Extension,
    pub polynomials: Vec<FriPolynomialInfo>,
}
#[derive(Debug, Clone)]
pub struct FriBatchInfoTarget<const D: usize> {
    pub point: ExtensionTarget<D>,
    pub polynomials: Vec<FriPolynomialInfo>,
}
#[derive(Copy, Clone, Debug)]
pub struct FriPolynomialInfo {
    pub oracle_index: usize,
    pub polynomial_index: usize,
}
impl FriPolynomialInfo {
    pub fn from_range(oracle_index: usize, polynomial_indices: Range<usize>) -> Vec<Self> {
        polynomial_indices
            .map(|polynomial_index| FriPolynomialInfo {
                oracle_index,
                polynomial_index,
            })
            .collect()
    }
}
#[derive(Debug, Clone)]
pub struct FriOpenings<F: RichField + Extendable<D>, const D: usize> {
    pub batches: Vec<FriOpeningBatch<F, D>>,
}
#[derive(Debug, Clone)]
pub struct FriOpeningBatch<F: RichField + Extendable<D>, const D: usize> {
    pub values: Vec<F::Extension>,
}
#[derive(Debug, Clone)]
pub struct FriOpeningsTarget<const D: usize> {
    pub batches: Vec<FriOpeningBatchTarget<D>>,
}
#[derive(Debug, Clone)]
pub struct FriOpeningBatchTarget<const D: usize> {
    pub values: Vec<ExtensionTarget<D>>,
}
#[allow(dead_code)]
fn _s<T: Serialize>() {}
