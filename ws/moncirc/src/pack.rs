//! A packed field of width four, so that packed evaluation is not only the scalar one.
use core::iter::{Product, Sum};
use core::ops::{Add, AddAssign, Div, Mul, MulAssign, Neg, Sub, SubAssign};

use plonky2::field::packed::PackedField;
use plonky2::field::types::Field;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[repr(transparent)]
pub struct Pack4<T>(pub [T; 4]);

impl<T: Field> Default for Pack4<T> {
    fn default() -> Self { Pack4([T::ZERO; 4]) }
}
impl<T: Field> From<T> for Pack4<T> {
    fn from(x: T) -> Self { Pack4([x; 4]) }
}
macro_rules! op {
    ($t:ident $f:ident $ta:ident $fa:ident) => {
        impl<T: Field> $t for Pack4<T> {
            type Output = Self;

            fn $f(self, o: Self) -> Self { Pack4(core::array::from_fn(|i| self.0[i].$f(o.0[i]))) }
        }
        impl<T: Field> $t<T> for Pack4<T> {
            type Output = Self;

            fn $f(self, o: T) -> Self { Pack4(self.0.map(|x| x.$f(o))) }
        }
        impl<T: Field> $ta for Pack4<T> {
            fn $fa(&mut self, o: Self) { *self = self.$f(o) }
        }
        impl<T: Field> $ta<T> for Pack4<T> {
            fn $fa(&mut self, o: T) { *self = self.$f(o) }
        }
    };
}
op!(Add add AddAssign add_assign);
op!(Sub sub SubAssign sub_assign);
op!(Mul mul MulAssign mul_assign);
impl<T: Field> Div<T> for Pack4<T> {
    type Output = Self;

    fn div(self, o: T) -> Self { self * o.inverse() }
}
impl<T: Field> Neg for Pack4<T> {
    type Output = Self;

    fn neg(self) -> Self { Pack4(self.0.map(|x| -x)) }
}
impl<T: Field> Sum for Pack4<T> {
    fn sum<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self::ZEROS, |a, b| a + b) }
}
impl<T: Field> Product for Pack4<T> {
    fn product<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self::ONES, |a, b| a * b) }
}
unsafe impl<T: Field> PackedField for Pack4<T> {
    type Scalar = T;

    const ONES: Self = Pack4([T::ONE; 4]);
    const WIDTH: usize = 4;
    const ZEROS: Self = Pack4([T::ZERO; 4]);

    fn from_slice(s: &[T]) -> &Self { unsafe { &*(s[..4].as_ptr().cast()) } }

    fn from_slice_mut(s: &mut [T]) -> &mut Self { unsafe { &mut *(s[..4].as_mut_ptr().cast()) } }

    fn as_slice(&self) -> &[T] { &self.0 }

    fn as_slice_mut(&mut self) -> &mut [T] { &mut self.0 }

    fn interleave(&self, _: Self, _: usize) -> (Self, Self) { unimplemented!() }

    fn pack_slice(_: &[T]) -> &[Self] { unimplemented!() }

    fn pack_slice_mut(_: &mut [T]) -> &mut [Self] { unimplemented!() }
}
