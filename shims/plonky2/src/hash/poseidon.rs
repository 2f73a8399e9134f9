//! Stand-in for the original Poseidon: a different 12-wide permutation with the
//! same interface (its real round constants are not available offline).
use core::fmt::Debug;

use super::hash_types::{HashOut, RichField};
use super::hashing::{compress, hash_n_to_hash_no_pad, PlonkyPermutation};
use super::poseidon2::{Permuter12, Poseidon2};
use crate::field::goldilocks_field::GoldilocksField;
use crate::field::types::PrimeField64;
use crate::plonk::config::Hasher;

pub const SPONGE_RATE: usize = 8;
pub const SPONGE_CAPACITY: usize = 4;
pub const SPONGE_WIDTH: usize = 12;

pub trait Poseidon: PrimeField64 {
    fn poseidon(input: [Self; SPONGE_WIDTH]) -> [Self; SPONGE_WIDTH];
}
impl Poseidon for GoldilocksField {
    fn poseidon(mut input: [Self; SPONGE_WIDTH]) -> [Self; SPONGE_WIDTH] {
        for (i, x) in input.iter_mut().enumerate() {
            *x += GoldilocksField(0x5eed_0000 + i as u64);
        }
        <Self as Poseidon2>::poseidon2(input)
    }
}

#[derive(Copy, Clone, Default, Debug, PartialEq)]
pub struct PoseidonPermutation<T> {
    state: [T; SPONGE_WIDTH],
}
impl<T: Eq> Eq for PoseidonPermutation<T> {}
impl<T> AsRef<[T]> for PoseidonPermutation<T> {
    fn as_ref(&self) -> &[T] { &self.state }
}
pub(crate) trait PermuterP: Sized {
    fn permute_p(input: [Self; 12]) -> [Self; 12];
}
impl<F: Poseidon> PermuterP for F {
    fn permute_p(input: [Self; 12]) -> [Self; 12] { F::poseidon(input) }
}
impl PermuterP for crate::iop::target::Target {
    fn permute_p(_: [Self; 12]) -> [Self; 12] {
        panic!("Call `permute_swapped()` instead of `permute()`");
    }
}
impl<T: Copy + Debug + Default + Eq + PermuterP + Send + Sync> PlonkyPermutation<T>
    for PoseidonPermutation<T>
{
    const RATE: usize = SPONGE_RATE;
    const WIDTH: usize = SPONGE_WIDTH;

    fn new<I: IntoIterator<Item = T>>(elts: I) -> Self {
        let mut perm = Self {
            state: [T::default(); SPONGE_WIDTH],
        };
        perm.set_from_iter(elts, 0);
        perm
    }

    fn set_elt(&mut self, elt: T, idx: usize) { self.state[idx] = elt; }

    fn set_from_slice(&mut self, elts: &[T], start_idx: usize) {
        let end = start_idx + elts.len();
        self.state[start_idx..end].copy_from_slice(elts);
    }

    fn set_from_iter<I: IntoIterator<Item = T>>(&mut self, elts: I, start_idx: usize) {
        for (s, e) in self.state[start_idx..].iter_mut().zip(elts) {
            *s = e;
        }
    }

    fn permute(&mut self) { self.state = T::permute_p(self.state); }

    fn squeeze(&self) -> &[T] { &self.state[..Self::RATE] }
}

#[derive(Copy, Clone, Debug, Eq, PartialEq)]
pub struct PoseidonHash;
impl<F: RichField> Hasher<F> for PoseidonHash {
    type Hash = HashOut<F>;
    type Permutation = PoseidonPermutation<F>;

    const HASH_SIZE: usize = 4 * 8;

    fn hash_no_pad(input: &[F]) -> Self::Hash { hash_n_to_hash_no_pad::<F, Self::Permutation>(input) }

    fn two_to_one(left: Self::Hash, right: Self::Hash) -> Self::Hash {
        compress::<F, Self::Permutation>(left, right)
    }
}
#[allow(dead_code)]
fn _u<F: Permuter12>() {}
