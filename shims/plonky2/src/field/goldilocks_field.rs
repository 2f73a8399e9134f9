use core::fmt::{self, Debug, Display, Formatter};
use core::hash::{Hash, Hasher};
use core::iter::{Product, Sum};
use core::ops::{Add, AddAssign, Div, DivAssign, Mul, MulAssign, Neg, Sub, SubAssign};

use rand::RngCore;
use serde::{Deserialize, Serialize};

use super::types::{Field, Field64, PrimeField, PrimeField64, Sample};

const ORDER: u64 = 0xFFFFFFFF00000001;
const EPSILON: u64 = (1 << 32) - 1;

/// The field of order 2^64 - 2^32 + 1. The inner value may be non-canonical.
#[derive(Copy, Clone, Serialize, Deserialize)]
#[repr(transparent)]
pub struct GoldilocksField(pub u64);

#[inline(always)]
fn reduce128(x: u128) -> u64 {
    let lo = x as u64;
    let hi = (x >> 64) as u64;
    let hi_hi = hi >> 32;
    let hi_lo = hi & EPSILON;
    let (mut t0, borrow) = lo.overflowing_sub(hi_hi);
    if borrow {
        t0 = t0.wrapping_sub(EPSILON);
    }
    let t1 = hi_lo * EPSILON;
    let (res, carry) = t0.overflowing_add(t1);
    res.wrapping_add(EPSILON * (carry as u64))
}

impl Default for GoldilocksField {
    fn default() -> Self { Self::ZERO }
}
impl PartialEq for GoldilocksField {
    #[inline]
    fn eq(&self, other: &Self) -> bool { self.to_canonical_u64() == other.to_canonical_u64() }
}
impl Eq for GoldilocksField {}
impl PartialOrd for GoldilocksField {
    fn partial_cmp(&self, other: &Self) -> Option<core::cmp::Ordering> { Some(self.cmp(other)) }
}
impl Ord for GoldilocksField {
    fn cmp(&self, other: &Self) -> core::cmp::Ordering {
        self.to_canonical_u64().cmp(&other.to_canonical_u64())
    }
}
impl Hash for GoldilocksField {
    fn hash<H: Hasher>(&self, state: &mut H) { state.write_u64(self.to_canonical_u64()) }
}
impl Display for GoldilocksField {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        Display::fmt(&self.to_canonical_u64(), f)
    }
}
impl Debug for GoldilocksField {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        Debug::fmt(&self.to_canonical_u64(), f)
    }
}
impl Sample for GoldilocksField {
    fn sample<R>(rng: &mut R) -> Self
    where
        R: RngCore + ?Sized, {
        loop {
            let x = rng.next_u64();
            if x < ORDER {
                return Self(x);
            }
        }
    }
}
impl Field for GoldilocksField {
    const BITS: usize = 64;
    const CHARACTERISTIC_TWO_ADICITY: usize = 32;
    const MULTIPLICATIVE_GROUP_GENERATOR: Self = Self(14293326489335486720);
    const NEG_ONE: Self = Self(ORDER - 1);
    const ONE: Self = Self(1);
    const POWER_OF_TWO_GENERATOR: Self = Self(7277203076849721926);
    const TWO: Self = Self(2);
    const TWO_ADICITY: usize = 32;
    const ZERO: Self = Self(0);

    fn try_inverse(&self) -> Option<Self> {
        if self.is_zero() {
            return None;
        }
        Some(self.exp_u64(ORDER - 2))
    }

    #[inline]
    fn from_canonical_u64(n: u64) -> Self {
        debug_assert!(n < ORDER);
        Self(n)
    }

    fn from_noncanonical_u128(n: u128) -> Self { Self(reduce128(n)) }

    fn from_noncanonical_u64(n: u64) -> Self { Self(n) }

    fn from_noncanonical_i64(n: i64) -> Self {
        Self(if n < 0 {
            ORDER.wrapping_add(n as u64)
        } else {
            n as u64
        })
    }
}
impl PrimeField for GoldilocksField {
    fn is_quadratic_residue(&self) -> bool {
        self.is_zero() || self.exp_u64((ORDER - 1) / 2) == Self::ONE
    }

    fn to_canonical_u64_(&self) -> u64 { self.to_canonical_u64() }
}
impl Field64 for GoldilocksField {
    const ORDER: u64 = ORDER;
}
impl PrimeField64 for GoldilocksField {
    #[inline(always)]
    fn to_canonical_u64(&self) -> u64 {
        let mut c = self.0;
        if c >= ORDER {
            c -= ORDER;
        }
        c
    }

    #[inline(always)]
    fn to_noncanonical_u64(&self) -> u64 { self.0 }
}
impl Neg for GoldilocksField {
    type Output = Self;

    #[inline]
    fn neg(self) -> Self {
        if self.is_zero() {
            Self::ZERO
        } else {
            Self(ORDER - self.to_canonical_u64())
        }
    }
}
impl Add for GoldilocksField {
    type Output = Self;

    #[inline(always)]
    fn add(self, rhs: Self) -> Self {
        let (sum, over) = self.0.overflowing_add(rhs.0);
        let (mut sum, over) = sum.overflowing_add((over as u64) * EPSILON);
        if over {
            sum = sum.wrapping_add(EPSILON);
        }
        Self(sum)
    }
}
impl Sub for GoldilocksField {
    type Output = Self;

    #[inline(always)]
    fn sub(self, rhs: Self) -> Self {
        let (diff, under) = self.0.overflowing_sub(rhs.0);
        let (mut diff, under) = diff.overflowing_sub((under as u64) * EPSILON);
        if under {
            diff = diff.wrapping_sub(EPSILON);
        }
        Self(diff)
    }
}
impl Mul for GoldilocksField {
    type Output = Self;

    #[inline(always)]
    fn mul(self, rhs: Self) -> Self { Self(reduce128((self.0 as u128) * (rhs.0 as u128))) }
}
impl Div for GoldilocksField {
    type Output = Self;

    #[allow(clippy::suspicious_arithmetic_impl)]
    fn div(self, rhs: Self) -> Self { self * rhs.inverse() }
}
impl AddAssign for GoldilocksField {
    #[inline(always)]
    fn add_assign(&mut self, rhs: Self) { *self = *self + rhs; }
}
impl SubAssign for GoldilocksField {
    #[inline(always)]
    fn sub_assign(&mut self, rhs: Self) { *self = *self - rhs; }
}
impl MulAssign for GoldilocksField {
    #[inline(always)]
    fn mul_assign(&mut self, rhs: Self) { *self = *self * rhs; }
}
impl DivAssign for GoldilocksField {
    fn div_assign(&mut self, rhs: Self) { *self = *self / rhs; }
}
impl Sum for GoldilocksField {
    fn sum<I: Iterator<Item = Self>>(iter: I) -> Self { iter.fold(Self::ZERO, |a, b| a + b) }
}
impl Product for GoldilocksField {
    fn product<I: Iterator<Item = Self>>(iter: I) -> Self { iter.fold(Self::ONE, |a, b| a * b) }
}
