#[cfg(feature = "full")]
pub mod reducing;
pub mod timing;
pub use plonky2_util_stub::*;

use crate::field::polynomial::PolynomialValues;
use crate::field::types::Field;

mod plonky2_util_stub {
    pub fn bits_u64(n: u64) -> usize { (64 - n.leading_zeros()) as usize }
    pub const fn ceil_div_usize(a: usize, b: usize) -> usize { (a + b - 1) / b }
    pub fn log2_ceil(n: usize) -> usize { (usize::BITS - n.saturating_sub(1).leading_zeros()) as usize }
    pub fn log2_strict(n: usize) -> usize {
        let res = n.trailing_zeros();
        assert!(n.wrapping_shr(res) == 1, "Not a power of two: {n}");
        res as usize
    }
    pub fn log_floor(n: u64, base: u64) -> usize { n.ilog(base) as usize }
    pub fn reverse_index_bits_in_place<T>(arr: &mut [T]) {
        let n = arr.len();
        let lg = log2_strict(n);
        for i in 0..n {
            let j = reverse_bits(i, lg);
            if i < j {
                arr.swap(i, j);
            }
        }
    }
    pub fn reverse_index_bits<T: Copy>(arr: &[T]) -> Vec<T> {
        let mut v = arr.to_vec();
        reverse_index_bits_in_place(&mut v);
        v
    }
    pub fn reverse_bits(n: usize, num_bits: usize) -> usize {
        n.reverse_bits().overflowing_shr(usize::BITS - num_bits as u32).0
    }
    #[inline(always)]
    pub fn assume(_p: bool) {}
    #[inline(always)]
    pub fn branch_hint() {}
}
pub fn transpose_poly_values<F: Field>(polys: Vec<PolynomialValues<F>>) -> Vec<Vec<F>> {
    let poly_values = polys.into_iter().map(|p| p.values).collect::<Vec<_>>();
    transpose(&poly_values)
}
pub fn transpose<T: Send + Sync + Copy>(matrix: &[Vec<T>]) -> Vec<Vec<T>> {
    let len = matrix[0].len();
    (0..len).map(|i| matrix.iter().map(|row| row[i]).collect()).collect()
}
