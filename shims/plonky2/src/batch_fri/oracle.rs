use crate::field::extension::Extendable;
use crate::field::fft::FftRootTable;
use crate::field::packed::PackedField;
use crate::field::polynomial::{PolynomialCoeffs, PolynomialValues};
use crate::fri::oracle::{combine, lde_rows};
use crate::fri::proof::FriProof;
use crate::fri::prover::fri_proof;
use crate::fri::structure::FriInstanceInfo;
use crate::fri::FriParams;
use crate::hash::batch_merkle_tree::BatchMerkleTree;
use crate::hash::hash_types::RichField;
use crate::iop::challenger::Challenger;
use crate::plonk::config::GenericConfig;
use crate::util::timing::TimingTree;
use crate::util::{log2_strict, reverse_bits};

#[derive(Clone, Debug, Eq, PartialEq)]
pub struct BatchFriOracle<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize>
{
    pub polynomials: Vec<PolynomialCoeffs<F>>,
    pub batch_merkle_tree: BatchMerkleTree<F, C::Hasher>,
    pub degree_bits: Vec<usize>,
    pub rate_bits: usize,
    pub blinding: bool,
}

impl<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize>
    BatchFriOracle<F, C, D>
{
    pub fn from_values(
        values: Vec<PolynomialValues<F>>,
        rate_bits: usize,
        blinding: bool,
        cap_height: usize,
        timing: &mut TimingTree,
        fft_root_tables: &[Option<&FftRootTable<F>>],
    ) -> Self {
        let coeffs = values.into_iter().map(PolynomialValues::ifft).collect();
        Self::from_coeffs(coeffs, rate_bits, blinding, cap_height, timing, fft_root_tables)
    }

    pub fn from_coeffs(
        polynomials: Vec<PolynomialCoeffs<F>>,
        rate_bits: usize,
        blinding: bool,
        cap_height: usize,
        _timing: &mut TimingTree,
        _fft_root_tables: &[Option<&FftRootTable<F>>],
    ) -> Self {
        assert!(!blinding, "salts are not part of this stand-in");
        let mut degree_bits: Vec<usize> =
            polynomials.iter().map(|p| log2_strict(p.len())).collect();
        assert!(
            degree_bits.windows(2).all(|w| w[0] >= w[1]),
            "polynomials must come by descending degree"
        );
        degree_bits.dedup();
        let leaves = degree_bits
            .iter()
            .map(|&d| {
                let group: Vec<&PolynomialCoeffs<F>> =
                    polynomials.iter().filter(|p| p.len() == 1 << d).collect();
                lde_rows(&group, rate_bits)
            })
            .collect();
        Self {
            batch_merkle_tree: BatchMerkleTree::new(leaves, cap_height),
            polynomials,
            degree_bits,
            rate_bits,
            blinding,
        }
    }

    fn get_lde_values(
        &self,
        degree_bits_index: usize,
        index: usize,
        step: usize,
        slice_start: usize,
        slice_len: usize,
    ) -> &[F] {
        let index = index * step;
        let index = reverse_bits(index, self.degree_bits[degree_bits_index] + self.rate_bits);
        &self.batch_merkle_tree.leaves[degree_bits_index][index][slice_start..slice_start + slice_len]
    }

    pub fn get_lde_values_packed<P>(
        &self,
        degree_bits_index: usize,
        index_start: usize,
        step: usize,
        slice_start: usize,
        slice_len: usize,
    ) -> Vec<P>
    where
        P: PackedField<Scalar = F>, {
        let rows: Vec<&[F]> = (0..P::WIDTH)
            .map(|i| {
                self.get_lde_values(degree_bits_index, index_start + i, step, slice_start, slice_len)
            })
            .collect();
        (0..slice_len)
            .map(|j| {
                let mut p = P::ZEROS;
                for (o, row) in p.as_slice_mut().iter_mut().zip(&rows) {
                    *o = row[j];
                }
                p
            })
            .collect()
    }

    pub fn prove_openings(
        degree_bits: &[usize],
        instances: &[FriInstanceInfo<F, D>],
        oracles: &[&Self],
        challenger: &mut Challenger<F, C::Hasher>,
        fri_params: &FriParams,
        _timing: &mut TimingTree,
    ) -> FriProof<F, C::Hasher, D> {
        assert!(degree_bits.windows(2).all(|w| w[0] > w[1]));
        assert_eq!(degree_bits.len(), instances.len());
        let alpha = challenger.get_extension_challenge::<D>();
        let values = instances
            .iter()
            .zip(degree_bits)
            .map(|(instance, &d)| {
                combine::<F, D>(
                    &instance.batches,
                    alpha,
                    |o, p| oracles[o].polynomials[p].clone(),
                    1 << d,
                )
                .lde(fri_params.config.rate_bits)
                .coset_fft(F::coset_shift().into())
                .values
            })
            .collect();
        fri_proof::<F, C, D>(
            values,
            |x| {
                oracles
                    .iter()
                    .map(|o| (o.batch_merkle_tree.values(x), o.batch_merkle_tree.open_batch(x)))
                    .collect()
            },
            challenger,
            fri_params,
        )
    }
}
