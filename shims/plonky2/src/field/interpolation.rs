use super::polynomial::PolynomialCoeffs;
use super::types::Field;

pub fn interpolant<F: Field>(points: &[(F, F)]) -> PolynomialCoeffs<F> {
    let n = points.len();
    let mut res = vec![F::ZERO; n];
    for i in 0..n {
        let mut basis = vec![F::ONE];
        let mut denom = F::ONE;
        for j in 0..n {
            if i == j {
                continue;
            }
            let mut next = vec![F::ZERO; basis.len() + 1];
            for (k, b) in basis.iter().enumerate() {
                next[k + 1] += *b;
                next[k] -= *b * points[j].0;
            }
            basis = next;
            denom *= points[i].0 - points[j].0;
        }
        let c = points[i].1 * denom.inverse();
        for (r, b) in res.iter_mut().zip(&basis) {
            *r += c * *b;
        }
    }
    PolynomialCoeffs::new(res)
}
pub fn barycentric_weights<F: Field>(points: &[(F, F)]) -> Vec<F> {
    let n = points.len();
    F::batch_multiplicative_inverse(
        &(0..n)
            .map(|i| {
                (0..n)
                    .filter(|&j| j != i)
                    .map(|j| points[i].0 - points[j].0)
                    .product::<F>()
            })
            .collect::<Vec<_>>(),
    )
}
pub fn interpolate<F: Field>(points: &[(F, F)], x: F, barycentric_weights: &[F]) -> F {
    for &(x_i, y_i) in points {
        if x_i == x {
            return y_i;
        }
    }
    let l_x: F = points.iter().map(|&(x_i, _)| x - x_i).product();
    let sum = (0..barycentric_weights.len())
        .map(|i| {
            let (x_i, y_i) = points[i];
            barycentric_weights[i] / (x - x_i) * y_i
        })
        .sum();
    l_x * sum
}
