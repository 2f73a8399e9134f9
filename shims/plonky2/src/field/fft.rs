use super::polynomial::{PolynomialCoeffs, PolynomialValues};
use super::types::Field;

pub type FftRootTable<F> = Vec<Vec<F>>;

pub fn fft_root_table<F: Field>(n: usize) -> FftRootTable<F> {
    let lg = n.trailing_zeros() as usize;
    (1..=lg)
        .map(|i| F::primitive_root_of_unity(i).powers().take(1 << (i - 1)).collect())
        .collect()
}

fn bit_reverse<T: Copy>(a: &mut [T]) {
    let n = a.len();
    if n <= 1 {
        return;
    }
    let lg = n.trailing_zeros();
    for i in 0..n {
        let j = i.reverse_bits() >> (usize::BITS - lg);
        if i < j {
            a.swap(i, j);
        }
    }
}

/// In-place evaluation on the subgroup of size `a.len()`.
pub fn fft_in_place<F: Field>(a: &mut [F]) {
    let n = a.len();
    assert!(n.is_power_of_two());
    bit_reverse(a);
    let lg = n.trailing_zeros() as usize;
    for s in 1..=lg {
        let m = 1 << s;
        let half = m / 2;
        let roots: Vec<F> = F::primitive_root_of_unity(s).powers().take(half).collect();
        for chunk in a.chunks_exact_mut(m) {
            let (lo, hi) = chunk.split_at_mut(half);
            for k in 0..half {
                let t = roots[k] * hi[k];
                let u = lo[k];
                lo[k] = u + t;
                hi[k] = u - t;
            }
        }
    }
}

pub fn fft<F: Field>(poly: PolynomialCoeffs<F>) -> PolynomialValues<F> {
    let mut c = poly.coeffs;
    fft_in_place(&mut c);
    PolynomialValues { values: c }
}
pub fn fft_with_options<F: Field>(
    poly: PolynomialCoeffs<F>,
    _zero_factor: Option<usize>,
    _root_table: Option<&FftRootTable<F>>,
) -> PolynomialValues<F> {
    fft(poly)
}
pub fn ifft<F: Field>(poly: PolynomialValues<F>) -> PolynomialCoeffs<F> {
    let mut c = poly.values;
    let n = c.len();
    fft_in_place(&mut c);
    let n_inv = F::from_canonical_usize(n).inverse();
    c[1..].reverse();
    for x in &mut c {
        *x *= n_inv;
    }
    PolynomialCoeffs { coeffs: c }
}
