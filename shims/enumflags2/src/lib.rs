//! Stand-in for flags in one byte.
use core::fmt;
use core::marker::PhantomData;
use core::ops::{BitAnd, BitAndAssign, BitOr, BitOrAssign, BitXor, BitXorAssign, Not};

pub use enumflags2_derive::bitflags;

pub trait BitFlag: Copy + 'static {
    const VARIANTS: &'static [Self];
    const ALL_BITS: u8;
    fn bit(self) -> u8;
    fn empty() -> BitFlags<Self> { BitFlags::EMPTY }
    fn all() -> BitFlags<Self> { BitFlags::ALL }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct FromBitsError(u8);

pub struct BitFlags<T>(u8, PhantomData<T>);
impl<T> Clone for BitFlags<T> {
    fn clone(&self) -> Self { *self }
}
impl<T> Copy for BitFlags<T> {}
impl<T> PartialEq for BitFlags<T> {
    fn eq(&self, o: &Self) -> bool { self.0 == o.0 }
}
impl<T> Eq for BitFlags<T> {}
impl<T> core::hash::Hash for BitFlags<T> {
    fn hash<H: core::hash::Hasher>(&self, h: &mut H) { self.0.hash(h) }
}
impl<T> PartialOrd for BitFlags<T> {
    fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> { Some(self.cmp(o)) }
}
impl<T> Ord for BitFlags<T> {
    fn cmp(&self, o: &Self) -> core::cmp::Ordering { self.0.cmp(&o.0) }
}
impl<T> fmt::Debug for BitFlags<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "BitFlags({:#b})", self.0) }
}
impl<T: BitFlag> Default for BitFlags<T> {
    fn default() -> Self { Self::EMPTY }
}
impl<T: BitFlag> From<T> for BitFlags<T> {
    fn from(t: T) -> Self { Self(t.bit(), PhantomData) }
}
impl<T: BitFlag> BitFlags<T> {
    pub const ALL: Self = Self(T::ALL_BITS, PhantomData);
    pub const EMPTY: Self = Self(0, PhantomData);

    pub fn empty() -> Self { Self::EMPTY }

    pub fn all() -> Self { Self::ALL }

    pub fn is_empty(self) -> bool { self.0 == 0 }

    pub fn is_all(self) -> bool { self.0 == T::ALL_BITS }

    pub fn len(self) -> usize { self.0.count_ones() as usize }

    pub fn bits(self) -> u8 { self.0 }

    pub fn from_bits(bits: u8) -> Result<Self, FromBitsError> {
        if bits & !T::ALL_BITS == 0 {
            Ok(Self(bits, PhantomData))
        } else {
            Err(FromBitsError(bits))
        }
    }

    pub fn from_bits_truncate(bits: u8) -> Self { Self(bits & T::ALL_BITS, PhantomData) }

    pub fn contains(self, o: impl Into<Self>) -> bool {
        let o = o.into().0;
        self.0 & o == o
    }

    pub fn intersects(self, o: impl Into<Self>) -> bool { self.0 & o.into().0 != 0 }

    pub fn insert(&mut self, o: impl Into<Self>) { self.0 |= o.into().0 }

    pub fn remove(&mut self, o: impl Into<Self>) { self.0 &= !o.into().0 }

    pub fn toggle(&mut self, o: impl Into<Self>) { self.0 ^= o.into().0 }

    pub fn set(&mut self, o: impl Into<Self>, on: bool) {
        if on {
            self.insert(o)
        } else {
            self.remove(o)
        }
    }

    pub fn iter(self) -> impl Iterator<Item = T> {
        T::VARIANTS.iter().copied().filter(move |v| self.0 & v.bit() != 0)
    }
}
macro_rules! ops {
    ($($t:ident $f:ident $at:ident $af:ident $op:tt;)*) => {$(
        impl<T: BitFlag, B: Into<BitFlags<T>>> $t<B> for BitFlags<T> {
            type Output = Self;
            fn $f(self, o: B) -> Self { Self(self.0 $op o.into().0, PhantomData) }
        }
        impl<T: BitFlag, B: Into<BitFlags<T>>> $at<B> for BitFlags<T> {
            fn $af(&mut self, o: B) { *self = *self $op o; }
        }
    )*};
}
ops! {
    BitOr bitor BitOrAssign bitor_assign |;
    BitAnd bitand BitAndAssign bitand_assign &;
    BitXor bitxor BitXorAssign bitxor_assign ^;
}
impl<T: BitFlag> Not for BitFlags<T> {
    type Output = Self;

    fn not(self) -> Self { Self(!self.0 & T::ALL_BITS, PhantomData) }
}
impl<T: BitFlag> FromIterator<T> for BitFlags<T> {
    fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self {
        i.into_iter().fold(Self::EMPTY, |acc, x| acc | x)
    }
}
