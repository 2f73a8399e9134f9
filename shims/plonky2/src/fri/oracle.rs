use crate::field::extension::{Extendable, FieldExtension};
use crate::field::fft::FftRootTable;
use crate::field::packed::PackedField;
use crate::field::polynomial::{PolynomialCoeffs, PolynomialValues};
use crate::field::types::Field;
use crate::fri::proof::FriProof;
use crate::fri::prover::fri_proof;
use crate::fri::structure::{FriBatchInfo, FriInstanceInfo};
use crate::fri::FriParams;
use crate::hash::hash_types::RichField;
use crate::hash::merkle_tree::MerkleTree;
use crate::iop::challenger::Challenger;
use crate::plonk::config::{GenericConfig, Hasher};
use crate::util::timing::TimingTree;
use crate::util::{log2_strict, reverse_bits, reverse_index_bits_in_place, transpose};

#[derive(Clone, Debug, Eq, PartialEq)]
pub struct PolynomialBatch<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize>
{
    pub polynomials: Vec<PolynomialCoeffs<F>>,
    pub merkle_tree: MerkleTree<F, C::Hasher>,
    pub degree_log: usize,
    pub rate_bits: usize,
    pub blinding: bool,
}

pub(crate) fn lde_rows<F: RichField>(polynomials: &[&PolynomialCoeffs<F>], rate_bits: usize) -> Vec<Vec<F>> {
    let ldes: Vec<Vec<F>> = polynomials
        .iter()
        .map(|p| p.lde(rate_bits).coset_fft(F::coset_shift()).values)
        .collect();
    let mut leaves = transpose(&ldes);
    reverse_index_bits_in_place(&mut leaves);
    leaves
}

/// `sum_batches sum_polys alpha^k (p_k(X) - p_k(z_batch)) / (X - z_batch)`, the
/// powers of alpha running through all batches.
pub(crate) fn combine<F: RichField + Extendable<D>, const D: usize>(
    batches: &[FriBatchInfo<F, D>],
    alpha: F::Extension,
    poly: impl Fn(usize, usize) -> PolynomialCoeffs<F>,
    len: usize,
) -> PolynomialCoeffs<F::Extension> {
    let mut out = PolynomialCoeffs::<F::Extension>::zero(len);
    let mut power = F::Extension::ONE;
    for FriBatchInfo { point, polynomials } in batches {
        let mut composition = PolynomialCoeffs::<F::Extension>::zero(len);
        for info in polynomials {
            let p = poly(info.oracle_index, info.polynomial_index);
            for (o, &c) in composition.coeffs.iter_mut().zip(&p.coeffs) {
                *o += power.scalar_mul(c);
            }
            power *= alpha;
        }
        let quotient = composition.divide_by_linear(*point);
        for (o, &c) in out.coeffs.iter_mut().zip(&quotient.coeffs) {
            *o += c;
        }
    }
    out
}

impl<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize>
    PolynomialBatch<F, C, D>
{
    pub fn from_values(
        values: Vec<PolynomialValues<F>>,
        rate_bits: usize,
        blinding: bool,
        cap_height: usize,
        timing: &mut TimingTree,
        fft_root_table: Option<&FftRootTable<F>>,
    ) -> Self {
        let coeffs = values.into_iter().map(PolynomialValues::ifft).collect();
        Self::from_coeffs(coeffs, rate_bits, blinding, cap_height, timing, fft_root_table)
    }

    pub fn from_coeffs(
        polynomials: Vec<PolynomialCoeffs<F>>,
        rate_bits: usize,
        blinding: bool,
        cap_height: usize,
        _timing: &mut TimingTree,
        _fft_root_table: Option<&FftRootTable<F>>,
    ) -> Self {
        assert!(!blinding, "salts are not part of this stand-in");
        let degree = polynomials[0].len();
        assert!(
            polynomials.iter().all(|p| p.len() == degree),
            "polynomial degrees inconsistent"
        );
        let leaves = lde_rows(&polynomials.iter().collect::<Vec<_>>(), rate_bits);
        Self {
            merkle_tree: MerkleTree::new(leaves, cap_height),
            degree_log: log2_strict(degree),
            polynomials,
            rate_bits,
            blinding,
        }
    }

    pub fn get_lde_values(&self, index: usize, step: usize) -> &[F] {
        let index = index * step;
        let index = reverse_bits(index, self.degree_log + self.rate_bits);
        &self.merkle_tree.leaves[index]
    }

    pub fn get_lde_values_packed<P>(&self, index_start: usize, step: usize) -> Vec<P>
    where
        P: PackedField<Scalar = F>, {
        let rows: Vec<&[F]> =
            (0..P::WIDTH).map(|i| self.get_lde_values(index_start + i, step)).collect();
        (0..rows[0].len())
            .map(|j| {
                let mut p = P::ZEROS;
                for (o, row) in p.as_slice_mut().iter_mut().zip(&rows) {
                    *o = row[j];
                }
                p
            })
            .collect()
    }

    pub fn prove_openings(
        instance: &FriInstanceInfo<F, D>,
        oracles: &[&Self],
        challenger: &mut Challenger<F, C::Hasher>,
        fri_params: &FriParams,
        _timing: &mut TimingTree,
    ) -> FriProof<F, C::Hasher, D> {
        assert!(D > 1, "Not implemented for D=1.");
        let alpha = challenger.get_extension_challenge::<D>();
        let len = 1 << fri_params.degree_bits;
        let final_poly = combine::<F, D>(
            &instance.batches,
            alpha,
            |o, p| oracles[o].polynomials[p].clone(),
            len,
        );
        let values = final_poly
            .lde(fri_params.config.rate_bits)
            .coset_fft(F::coset_shift().into())
            .values;
        let trees: Vec<&MerkleTree<F, C::Hasher>> =
            oracles.iter().map(|o| &o.merkle_tree).collect();
        fri_proof::<F, C, D>(
            vec![values],
            |x| trees.iter().map(|t| (t.get(x).to_vec(), t.prove(x))).collect(),
            challenger,
            fri_params,
        )
    }
}
#[allow(dead_code)]
fn _h<F: RichField, H: Hasher<F>>() {}
