//! Poseidon2 over Goldilocks, width 12. The constants are regenerated with the
//! Grain LFSR (/verif/tools/poseidon2_constants.py) and agree with the digest
//! that the repository's own `merkleize_test` pins byte for byte.
use core::fmt::Debug;

use crate::field::goldilocks_field::GoldilocksField;
use crate::field::types::{Field, PrimeField64};
use crate::hash::hash_types::{HashOut, RichField};
use crate::hash::hashing::{compress, hash_n_to_hash_no_pad, PlonkyPermutation};
use crate::plonk::config::Hasher;

pub const RATE: usize = 8;
pub const WIDTH: usize = 12;
pub const SPONGE_RATE: usize = 8;
pub const SPONGE_CAPACITY: usize = 4;
pub const SPONGE_WIDTH: usize = WIDTH;
pub const ROUND_F_BEGIN: usize = 4;
pub const ROUND_F_END: usize = 2 * ROUND_F_BEGIN;
pub const ROUND_P: usize = 22;
pub const ROUNDS: usize = ROUND_F_END + ROUND_P;

pub trait Poseidon2: PrimeField64 {
    const MAT_DIAG12_M_1: [u64; WIDTH];
    const RC12: [u64; WIDTH * ROUND_F_END];
    const RC12_MID: [u64; ROUND_P];

    fn matmul_m4(state: &mut [Self; WIDTH]) {
        for i in 0..WIDTH / 4 {
            let s = i * 4;
            let t_0 = state[s] + state[s + 1];
            let t_1 = state[s + 2] + state[s + 3];
            let t_2 = state[s + 1] + state[s + 1] + t_1;
            let t_3 = state[s + 3] + state[s + 3] + t_0;
            let four = Self::from_canonical_u64(4);
            let t_4 = four * t_1 + t_3;
            let t_5 = four * t_0 + t_2;
            let t_6 = t_3 + t_5;
            let t_7 = t_2 + t_4;
            state[s] = t_6;
            state[s + 1] = t_5;
            state[s + 2] = t_7;
            state[s + 3] = t_4;
        }
    }
    fn matmul_external(state: &mut [Self; WIDTH]) {
        Self::matmul_m4(state);
        let mut stored = [Self::ZERO; 4];
        for l in 0..4 {
            stored[l] = state[l] + state[4 + l] + state[8 + l];
        }
        for i in 0..WIDTH {
            state[i] += stored[i % 4];
        }
    }
    /// `mat_internal_diag_m_1` holds the diagonal of the internal matrix.
    fn matmul_internal(state: &mut [Self; WIDTH], mat_internal_diag_m_1: &[u64; WIDTH]) {
        let sum: Self = state.iter().copied().sum();
        for i in 0..WIDTH {
            state[i] = state[i]
                * (Self::from_noncanonical_u64(mat_internal_diag_m_1[i]) - Self::ONE)
                + sum;
        }
    }
    fn constant_layer(state: &mut [Self; WIDTH], round_ctr: usize) {
        for i in 0..WIDTH {
            state[i] += Self::from_noncanonical_u64(Self::RC12[round_ctr + i]);
        }
    }
    fn sbox_monomial(x: Self) -> Self {
        let x2 = x * x;
        let x4 = x2 * x2;
        x4 * x2 * x
    }
    fn sbox_layer(state: &mut [Self; WIDTH]) {
        for x in state.iter_mut() {
            *x = Self::sbox_monomial(*x);
        }
    }
    fn full_rounds(state: &mut [Self; WIDTH], round_ctr: &mut usize) {
        for _ in 0..ROUND_F_BEGIN {
            Self::constant_layer(state, *round_ctr);
            Self::sbox_layer(state);
            Self::matmul_external(state);
            *round_ctr += 1;
        }
    }
    fn partial_rounds(state: &mut [Self; WIDTH]) {
        for r in 0..ROUND_P {
            state[0] += Self::from_noncanonical_u64(Self::RC12_MID[r]);
            state[0] = Self::sbox_monomial(state[0]);
            Self::matmul_internal(state, &Self::MAT_DIAG12_M_1);
        }
    }
    fn poseidon2(input: [Self; WIDTH]) -> [Self; WIDTH] {
        let mut state = input;
        let mut round_ctr = 0;
        Self::matmul_external(&mut state);
        Self::full_rounds(&mut state, &mut round_ctr);
        Self::partial_rounds(&mut state);
        Self::full_rounds(&mut state, &mut round_ctr);
        state
    }
}

#[derive(Copy, Clone, Default, Debug, PartialEq)]
pub struct Poseidon2Permutation<T> {
    state: [T; WIDTH],
}
impl<T: Eq> Eq for Poseidon2Permutation<T> {}
impl<T> AsRef<[T]> for Poseidon2Permutation<T> {
    fn as_ref(&self) -> &[T] { &self.state }
}
pub(crate) trait Permuter12: Sized {
    fn permute12(input: [Self; WIDTH]) -> [Self; WIDTH];
}
impl<F: Poseidon2> Permuter12 for F {
    fn permute12(input: [Self; WIDTH]) -> [Self; WIDTH] { F::poseidon2(input) }
}
impl Permuter12 for crate::iop::target::Target {
    fn permute12(_: [Self; WIDTH]) -> [Self; WIDTH] {
        panic!("Call `permute_swapped()` instead of `permute()`");
    }
}
impl<T: Copy + Debug + Default + Eq + Permuter12 + Send + Sync> PlonkyPermutation<T>
    for Poseidon2Permutation<T>
{
    const RATE: usize = SPONGE_RATE;
    const WIDTH: usize = SPONGE_WIDTH;

    fn new<I: IntoIterator<Item = T>>(elts: I) -> Self {
        let mut perm = Self {
            state: [T::default(); WIDTH],
        };
        perm.set_from_iter(elts, 0);
        perm
    }

    fn set_elt(&mut self, elt: T, idx: usize) { self.state[idx] = elt; }

    fn set_from_slice(&mut self, elts: &[T], start_idx: usize) {
        let end = start_idx + elts.len();
        self.state[start_idx..end].copy_from_slice(elts);
    }

    fn set_from_iter<I: IntoIterator<Item = T>>(&mut self, elts: I, start_idx: usize) {
        for (s, e) in self.state[start_idx..].iter_mut().zip(elts) {
            *s = e;
        }
    }

    fn permute(&mut self) { self.state = T::permute12(self.state); }

    fn squeeze(&self) -> &[T] { &self.state[..Self::RATE] }
}

#[derive(Copy, Clone, Debug, Eq, PartialEq)]
pub struct Poseidon2Hash;
impl<F: RichField> Hasher<F> for Poseidon2Hash {
    type Hash = HashOut<F>;
    type Permutation = Poseidon2Permutation<F>;

    const HASH_SIZE: usize = 4 * 8;

    fn hash_no_pad(input: &[F]) -> Self::Hash { hash_n_to_hash_no_pad::<F, Self::Permutation>(input) }

    fn two_to_one(left: Self::Hash, right: Self::Hash) -> Self::Hash {
        compress::<F, Self::Permutation>(left, right)
    }
}

impl Poseidon2 for GoldilocksField {
    const MAT_DIAG12_M_1: [u64; WIDTH] = [
        0xc3b6c08e23ba9300,
        0xd84b5de94a324fb6,
        0x0d0c371c5b35b84f,
        0x7964f570e7188037,
        0x5daf18bbd996604b,
        0x6743bc47b9595257,
        0x5528b9362c59bb70,
        0xac45e25b7127b68b,
        0xa2077d7dfbb606b5,
        0xf3faac6faee378ae,
        0x0c6388b51545e883,
        0xd27dbb6944917b60,
    ];
    const RC12: [u64; 96] = [
        0x13dcf33aba214f46,
        0x30b3b654a1da6d83,
        0x1fc634ada6159b56,
        0x937459964dc03466,
        0xedd2ef2ca7949924,
        0xede9affde0e22f68,
        0x8515b9d6bac9282d,
        0x6b5c07b4e9e900d8,
        0x1ec66368838c8a08,
        0x9042367d80d1fbab,
        0x400283564a3c3799,
        0x4a00be0466bca75e,
        0x7913beee58e3817f,
        0xf545e88532237d90,
        0x22f8cb8736042005,
        0x6f04990e247a2623,
        0xfe22e87ba37c38cd,
        0xd20e32c85ffe2815,
        0x117227674048fe73,
        0x4e9fb7ea98a6b145,
        0xe0866c232b8af08b,
        0x00bbc77916884964,
        0x7031c0fb990d7116,
        0x240a9e87cf35108f,
        0x2e6363a5a12244b3,
        0x5e1c3787d1b5011c,
        0x4132660e2a196e8b,
        0x3a013b648d3d4327,
        0xf79839f49888ea43,
        0xfe85658ebafe1439,
        0xb6889825a14240bd,
        0x578453605541382b,
        0x4508cda8f6b63ce9,
        0x9c3ef35848684c91,
        0x0812bde23c87178c,
        0xfe49638f7f722c14,
        0x8e3f688ce885cbf5,
        0xb8e110acf746a87d,
        0xb4b2e8973a6dabef,
        0x9e714c5da3d462ec,
        0x6438f9033d3d0c15,
        0x24312f7cf1a27199,
        0x23f843bb47acbf71,
        0x9183f11a34be9f01,
        0x839062fbb9d45dbf,
        0x24b56e7e6c2e43fa,
        0xe1683da61c962a72,
        0xa95c63971a19bfa7,
        0xc68be7c94882a24d,
        0xaf996d5d5cdaedd9,
        0x9717f025e7daf6a5,
        0x6436679e6e7216f4,
        0x8a223d99047af267,
        0xbb512e35a133ba9a,
        0xfbbf44097671aa03,
        0xf04058ebf6811e61,
        0x5cca84703fac7ffb,
        0x9b55c7945de6469f,
        0x8e05bf09808e934f,
        0x2ea900de876307d7,
        0x7748fff2b38dfb89,
        0x6b99a676dd3b5d81,
        0xac4bb7c627cf7c13,
        0xadb6ebe5e9e2f5ba,
        0x2d33378cafa24ae3,
        0x1e5b73807543f8c2,
        0x09208814bfebb10f,
        0x782e64b6bb5b93dd,
        0xadd5a48eac90b50f,
        0xadd4c54c736ea4b1,
        0xd58dbb86ed817fd8,
        0x6d5ed1a533f34ddd,
        0x28686aa3e36b7cb9,
        0x591abd3476689f36,
        0x047d766678f13875,
        0xa2a11112625f5b49,
        0x21fd10a3f8304958,
        0xf9b40711443b0280,
        0xd2697eb8b2bde88e,
        0x3493790b51731b3f,
        0x11caf9dd73764023,
        0x7acfb8f72878164e,
        0x744ec4db23cefc26,
        0x1e00e58f422c6340,
        0x21dd28d906a62dda,
        0xf32a46ab5f465b5f,
        0xbfce13201f3f7e6b,
        0xf30d2e7adb5304e2,
        0xecdf4ee4abad48e9,
        0xf94e82182d395019,
        0x4ee52e3744d887c5,
        0xa1341c7cac0083b2,
        0x2302fb26c30c834a,
        0xaea3c587273bf7d3,
        0xf798e24961823ec7,
        0x962deba3e9a2cd94,
    ];
    const RC12_MID: [u64; 22] = [
        0x4adf842aa75d4316,
        0xf8fbb871aa4ab4eb,
        0x68e85b6eb2dd6aeb,
        0x07a0b06b2d270380,
        0xd94e0228bd282de4,
        0x8bdd91d3250c5278,
        0x209c68b88bba778f,
        0xb5e18cdab77f3877,
        0xb296a3e808da93fa,
        0x8370ecbda11a327e,
        0x3f9075283775dad8,
        0xb78095bb23c6aa84,
        0x3f36b9fe72ad4e5f,
        0x69bc96780b10b553,
        0x3f1d341f2eb7b881,
        0x4e939e9815838818,
        0xda366b3ae2a31604,
        0xbc89db1e7287d509,
        0x6102f411f9ef5659,
        0x58725c5e7ac1f0ab,
        0x0df5856c798883e7,
        0xf7bb62a8da4c961b,
    ];
}

#[cfg(test)]
mod tests {
    use super::*;
    use crate::plonk::config::GenericHashOut;
    #[test]
    fn pinned_by_the_repository() {
        let f = |l: &[u8], r: &[u8]| {
            let v: Vec<GoldilocksField> =
                l.iter().chain(r).map(|&b| GoldilocksField::from_canonical_u8(b)).collect();
            Poseidon2Hash::hash_no_pad(&v).to_bytes()
        };
        let root = f(&f(&[1; 32], &f(&[2; 32], &[3; 32])), &[4; 32]);
        assert_eq!(root, [
            232, 132, 143, 27, 162, 220, 25, 57, 138, 30, 151, 109, 192, 132, 26, 242, 155, 95, 48,
            48, 8, 55, 240, 62, 54, 195, 137, 239, 231, 140, 205, 53
        ]);
    }
}
