use core::fmt::{self, Debug, Display, Formatter};
use core::iter::{Product, Sum};
use core::ops::{Add, AddAssign, Div, DivAssign, Mul, MulAssign, Neg, Sub, SubAssign};

use rand::RngCore;
use serde::{Deserialize, Serialize};

use super::{Extendable, FieldExtension, Frobenius, OEF};
use crate::field::goldilocks_field::GoldilocksField;
use crate::field::types::{Field, Sample};

#[derive(Copy, Clone, Eq, PartialEq, Hash, Serialize, Deserialize)]
#[serde(bound = "")]
#[repr(transparent)]
pub struct QuadraticExtension<F: Extendable<2>>(pub [F; 2]);

impl<F: Extendable<2>> Default for QuadraticExtension<F> {
    fn default() -> Self { Self([F::ZERO; 2]) }
}
impl<F: Extendable<2>> OEF<2> for QuadraticExtension<F> {
    const DTH_ROOT: F = F::DTH_ROOT;
    const W: F = F::W;
}
impl<F: Extendable<2>> Frobenius<2> for QuadraticExtension<F> {}
impl<F: Extendable<2>> FieldExtension<2> for QuadraticExtension<F> {
    type BaseField = F;

    fn to_basefield_array(&self) -> [F; 2] { self.0 }

    fn from_basefield_array(arr: [F; 2]) -> Self { Self(arr) }

    fn from_basefield(x: F) -> Self { x.into() }
}
impl<F: Extendable<2>> From<F> for QuadraticExtension<F> {
    fn from(x: F) -> Self { Self([x, F::ZERO]) }
}
impl<F: Extendable<2>> Sample for QuadraticExtension<F> {
    fn sample<R>(rng: &mut R) -> Self
    where
        R: RngCore + ?Sized, {
        Self([F::sample(rng), F::sample(rng)])
    }
}
impl<F: Extendable<2>> Field for QuadraticExtension<F> {
    const BITS: usize = F::BITS * 2;
    const CHARACTERISTIC_TWO_ADICITY: usize = F::CHARACTERISTIC_TWO_ADICITY;
    const MULTIPLICATIVE_GROUP_GENERATOR: Self = Self(F::EXT_MULTIPLICATIVE_GROUP_GENERATOR);
    const NEG_ONE: Self = Self([F::NEG_ONE, F::ZERO]);
    const ONE: Self = Self([F::ONE, F::ZERO]);
    const POWER_OF_TWO_GENERATOR: Self = Self(F::EXT_POWER_OF_TWO_GENERATOR);
    const TWO: Self = Self([F::TWO, F::ZERO]);
    const TWO_ADICITY: usize = F::TWO_ADICITY + 1;
    const ZERO: Self = Self([F::ZERO; 2]);

    fn try_inverse(&self) -> Option<Self> {
        if self.is_zero() {
            return None;
        }
        let [a, b] = self.0;
        let n = (a * a - F::W * b * b).inverse();
        Some(Self([a * n, -b * n]))
    }

    fn from_canonical_u64(n: u64) -> Self { F::from_canonical_u64(n).into() }

    fn from_noncanonical_u128(n: u128) -> Self { F::from_noncanonical_u128(n).into() }

    fn from_noncanonical_u64(n: u64) -> Self { F::from_noncanonical_u64(n).into() }

    fn from_noncanonical_i64(n: i64) -> Self { F::from_noncanonical_i64(n).into() }

    // The 2^32-order and smaller roots of unity lie in the base field.
    fn primitive_root_of_unity(n_log: usize) -> Self {
        assert!(n_log <= F::TWO_ADICITY);
        F::primitive_root_of_unity(n_log).into()
    }

    fn coset_shift() -> Self { F::coset_shift().into() }
}
impl<F: Extendable<2>> Display for QuadraticExtension<F> {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        write!(f, "{} + {}*a", self.0[0], self.0[1])
    }
}
impl<F: Extendable<2>> Debug for QuadraticExtension<F> {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { Display::fmt(self, f) }
}
impl<F: Extendable<2>> Neg for QuadraticExtension<F> {
    type Output = Self;

    #[inline]
    fn neg(self) -> Self { Self([-self.0[0], -self.0[1]]) }
}
impl<F: Extendable<2>> Add for QuadraticExtension<F> {
    type Output = Self;

    #[inline]
    fn add(self, r: Self) -> Self { Self([self.0[0] + r.0[0], self.0[1] + r.0[1]]) }
}
impl<F: Extendable<2>> Sub for QuadraticExtension<F> {
    type Output = Self;

    #[inline]
    fn sub(self, r: Self) -> Self { Self([self.0[0] - r.0[0], self.0[1] - r.0[1]]) }
}
impl<F: Extendable<2>> Mul for QuadraticExtension<F> {
    type Output = Self;

    #[inline]
    fn mul(self, r: Self) -> Self {
        let [a0, a1] = self.0;
        let [b0, b1] = r.0;
        Self([a0 * b0 + <F as Extendable<2>>::W * a1 * b1, a0 * b1 + a1 * b0])
    }
}
impl<F: Extendable<2>> Div for QuadraticExtension<F> {
    type Output = Self;

    #[allow(clippy::suspicious_arithmetic_impl)]
    fn div(self, rhs: Self) -> Self { self * rhs.inverse() }
}
impl<F: Extendable<2>> AddAssign for QuadraticExtension<F> {
    #[inline]
    fn add_assign(&mut self, r: Self) { *self = *self + r; }
}
impl<F: Extendable<2>> SubAssign for QuadraticExtension<F> {
    #[inline]
    fn sub_assign(&mut self, r: Self) { *self = *self - r; }
}
impl<F: Extendable<2>> MulAssign for QuadraticExtension<F> {
    #[inline]
    fn mul_assign(&mut self, r: Self) { *self = *self * r; }
}
impl<F: Extendable<2>> DivAssign for QuadraticExtension<F> {
    fn div_assign(&mut self, r: Self) { *self = *self / r; }
}
impl<F: Extendable<2>> Sum for QuadraticExtension<F> {
    fn sum<I: Iterator<Item = Self>>(iter: I) -> Self { iter.fold(Self::ZERO, |a, b| a + b) }
}
impl<F: Extendable<2>> Product for QuadraticExtension<F> {
    fn product<I: Iterator<Item = Self>>(iter: I) -> Self { iter.fold(Self::ONE, |a, b| a * b) }
}

impl Extendable<2> for GoldilocksField {
    type Extension = QuadraticExtension<Self>;

    const DTH_ROOT: Self = Self(18446744069414584320);
    const EXT_MULTIPLICATIVE_GROUP_GENERATOR: [Self; 2] =
        [Self(0), Self(11713931119993638672)];
    const EXT_POWER_OF_TWO_GENERATOR: [Self; 2] = [Self(0), Self(7226896044987257365)];
    const W: Self = Self(7);
}
