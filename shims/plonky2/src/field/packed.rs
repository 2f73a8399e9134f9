use core::fmt::Debug;
use core::iter::{Product, Sum};
use core::ops::{Add, AddAssign, Div, Mul, MulAssign, Neg, Sub, SubAssign};
use core::slice;

use super::types::Field;

/// # Safety
/// stand-in for plonky2's packed field
pub unsafe trait PackedField:
    'static
    + Add<Self, Output = Self>
    + Add<Self::Scalar, Output = Self>
    + AddAssign<Self>
    + AddAssign<Self::Scalar>
    + Copy
    + Debug
    + Default
    + From<Self::Scalar>
    + Mul<Self, Output = Self>
    + Mul<Self::Scalar, Output = Self>
    + MulAssign<Self>
    + MulAssign<Self::Scalar>
    + Neg<Output = Self>
    + Product
    + Send
    + Sub<Self, Output = Self>
    + Sub<Self::Scalar, Output = Self>
    + SubAssign<Self>
    + SubAssign<Self::Scalar>
    + Sum
    + Sync {
    type Scalar: Field;
    const WIDTH: usize;
    const ZEROS: Self;
    const ONES: Self;
    fn from_slice(slice: &[Self::Scalar]) -> &Self;
    fn from_slice_mut(slice: &mut [Self::Scalar]) -> &mut Self;
    fn as_slice(&self) -> &[Self::Scalar];
    fn as_slice_mut(&mut self) -> &mut [Self::Scalar];
    fn interleave(&self, other: Self, block_len: usize) -> (Self, Self);
    fn pack_slice(buf: &[Self::Scalar]) -> &[Self];
    fn pack_slice_mut(buf: &mut [Self::Scalar]) -> &mut [Self];
    fn square(&self) -> Self { *self * *self }
    fn doubles(&self) -> Self { *self + *self }
}

unsafe impl<F: Field> PackedField for F {
    type Scalar = Self;

    const ONES: Self = F::ONE;
    const WIDTH: usize = 1;
    const ZEROS: Self = F::ZERO;

    fn from_slice(slice: &[Self::Scalar]) -> &Self { &slice[0] }

    fn from_slice_mut(slice: &mut [Self::Scalar]) -> &mut Self { &mut slice[0] }

    fn as_slice(&self) -> &[Self::Scalar] { slice::from_ref(self) }

    fn as_slice_mut(&mut self) -> &mut [Self::Scalar] { slice::from_mut(self) }

    fn interleave(&self, other: Self, block_len: usize) -> (Self, Self) {
        match block_len {
            1 => (*self, other),
            _ => panic!("unsupported block length"),
        }
    }

    fn pack_slice(buf: &[Self::Scalar]) -> &[Self] { buf }

    fn pack_slice_mut(buf: &mut [Self::Scalar]) -> &mut [Self] { buf }

    fn square(&self) -> Self { <Self as Field>::square(self) }
}
// silence the unused bound when a crate only names the trait
#[allow(dead_code)]
fn _div<F: Div>(_: F) {}
