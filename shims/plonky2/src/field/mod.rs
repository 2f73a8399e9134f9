//! Stand-in for `plonky2_field`.
pub mod cosets;
pub mod extension;
pub mod fft;
pub mod goldilocks_field;
pub mod interpolation;
pub mod ops;
pub mod packable;
pub mod packed;
pub mod polynomial;
pub mod types;
pub mod zero_poly_coset;
pub mod batch_util {
    use super::types::Field;
    pub fn batch_multiply_inplace<F: Field>(out: &mut [F], a: &[F]) {
        assert_eq!(out.len(), a.len());
        for (x, y) in out.iter_mut().zip(a) { *x *= *y; }
    }
    pub fn batch_add_inplace<F: Field>(out: &mut [F], a: &[F]) {
        assert_eq!(out.len(), a.len());
        for (x, y) in out.iter_mut().zip(a) { *x += *y; }
    }
}
