use std::collections::{BTreeSet, HashMap};
use std::sync::Arc;

use crate::batch_fri::verifier::verify_batch_fri_proof;
use crate::field::extension::{Extendable, FieldExtension};
use crate::field::polynomial::PolynomialCoeffs;
use crate::field::types::Field;
use crate::fri::proof::{
    FriChallenges, FriChallengesTarget, FriInitialTreeProof, FriInitialTreeProofTarget, FriProof,
    FriProofTarget, FriQueryRound, FriQueryRoundTarget, FriQueryStep, FriQueryStepTarget,
    PolynomialCoeffsExtTarget,
};
use crate::fri::structure::{
    FriBatchInfo, FriInstanceInfo, FriInstanceInfoTarget, FriOpeningBatch, FriOpenings,
    FriOpeningsTarget,
};
use crate::fri::verifier::verify_fri_proof;
use crate::fri::FriParams;
use crate::gates::gate::{Gate, GateRef};
use crate::hash::hash_types::{HashOut, HashOutTarget, MerkleCapTarget, RichField};
use crate::hash::hashing::PlonkyPermutation;
use crate::hash::merkle_proofs::{MerkleProof, MerkleProofTarget};
use crate::hash::merkle_tree::MerkleCap;
use crate::hash::poseidon2::Poseidon2Hash;
use crate::iop::ext_target::ExtensionTarget;
use crate::iop::target::{BoolTarget, Target};
use crate::plonk::circuit_data::{
    mac, CircuitConfig, CircuitData, CommonCircuitData, ProverOnlyCircuitData,
    VerifierCircuitTarget, VerifierOnlyCircuitData,
};
use crate::plonk::config::{AlgebraicHasher, GenericConfig, GenericHashOut, Hasher};
use crate::plonk::proof::{ProofTarget, ProofWithPublicInputsTarget};
use crate::util::log2_ceil;

/// An operation computes its outputs from its inputs; one without outputs is a
/// check that panics when it fails.
pub struct Op<F> {
    pub name: &'static str,
    pub params: Vec<u64>,
    pub ins: Vec<Target>,
    pub outs: Vec<Target>,
    pub f: Arc<dyn Fn(&[F], &mut Vec<F>) + Send + Sync>,
}

pub struct CircuitBuilder<F: RichField + Extendable<D>, const D: usize> {
    pub config: CircuitConfig,
    ops: Vec<Op<F>>,
    targets: usize,
    constants: HashMap<u64, Target>,
    arithmetic_results: HashMap<(&'static str, Vec<u64>, Vec<Target>), Vec<Target>>,
    constant_list: Vec<(Target, F)>,
    connections: Vec<(usize, usize)>,
    public_inputs: Vec<Target>,
    gate_names: BTreeSet<GateRef>,
    /// in twentieths of a gate
    cost: usize,
}

fn index(t: Target) -> usize {
    match t {
        Target::VirtualTarget { index } => index,
        Target::Wire(_) => unreachable!("no wires here"),
    }
}

fn name_word(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ u64::from(b)).wrapping_mul(0x0100_0000_01b3))
}

fn mix(state: &mut [u64; 2], w: u64) {
    for (k, s) in state.iter_mut().enumerate() {
        let m = [0x9e37_79b9_7f4a_7c15, 0xd6e8_feb8_6659_fd93][k];
        let mut x = (*s ^ w).wrapping_add(0x5851_f42d_4c95_7f2d).wrapping_mul(m);
        x ^= x >> 29;
        x = x.wrapping_mul(0xbf58_476d_1ce4_e5b9);
        x ^= x >> 32;
        *s = x.rotate_left(17);
    }
}

fn set_twice(what: &str) -> ! {
    panic!("assertion `left == right` failed: Partition containing {what} was set twice with different values: 1 != 0")
}

impl<F: RichField + Extendable<D>, const D: usize> CircuitBuilder<F, D> {
    pub fn new(config: CircuitConfig) -> Self {
        Self {
            config,
            ops: vec![],
            targets: 0,
            constants: HashMap::new(),
            arithmetic_results: HashMap::new(),
            constant_list: vec![],
            connections: vec![],
            public_inputs: vec![],
            gate_names: ["ArithmeticGate", "ConstantGate", "NoopGate", "PublicInputGate"]
                .into_iter()
                .map(|s| GateRef(s.into()))
                .collect(),
            cost: 0,
        }
    }

    /// The one way in for operations. `gate_cost` is in twentieths of a gate.
    pub fn op(
        &mut self,
        name: &'static str,
        params: Vec<u64>,
        ins: Vec<Target>,
        n_outs: usize,
        gate_cost: usize,
        f: impl Fn(&[F], &mut Vec<F>) + Send + Sync + 'static,
    ) -> Vec<Target> {
        // like plonky2, one gate for equal arithmetic
        let shared = matches!(name, "arithmetic" | "add" | "sub" | "mul" | "neg" | "mul_add" | "mul_sub")
            || name.ends_with("_ext");
        let key = (name, params.clone(), ins.clone());
        if shared {
            if let Some(t) = self.arithmetic_results.get(&key) {
                return t.clone();
            }
        }
        let outs = self.add_virtual_targets(n_outs);
        if shared {
            self.arithmetic_results.insert(key, outs.clone());
        }
        for &t in &ins {
            assert!(index(t) < self.targets, "target of another builder");
        }
        self.cost += gate_cost;
        self.ops.push(Op {
            name,
            params,
            ins,
            outs: outs.clone(),
            f: Arc::new(f),
        });
        outs
    }

    fn op1(
        &mut self,
        name: &'static str,
        ins: &[Target],
        f: impl Fn(&[F]) -> F + Send + Sync + 'static,
    ) -> Target {
        self.op(name, vec![], ins.to_vec(), 1, 1, move |v, o| o.push(f(v)))[0]
    }

    // ---- structure

    pub fn connect(&mut self, x: Target, y: Target) {
        assert!(index(x) < self.targets && index(y) < self.targets, "target of another builder");
        self.connections.push((index(x), index(y)));
    }

    pub fn connect_array<const N: usize>(&mut self, x: [Target; N], y: [Target; N]) {
        for (x, y) in x.into_iter().zip(y) {
            self.connect(x, y);
        }
    }

    pub fn connect_hashes(&mut self, x: HashOutTarget, y: HashOutTarget) {
        for (x, y) in x.elements.into_iter().zip(y.elements) {
            self.connect(x, y);
        }
    }

    pub fn connect_merkle_caps(&mut self, x: &MerkleCapTarget, y: &MerkleCapTarget) {
        assert_eq!(x.0.len(), y.0.len());
        for (h0, h1) in x.0.iter().zip(&y.0) {
            self.connect_hashes(*h0, *h1);
        }
    }

    pub fn connect_verifier_data(&mut self, x: &VerifierCircuitTarget, y: &VerifierCircuitTarget) {
        self.connect_merkle_caps(&x.constants_sigmas_cap, &y.constants_sigmas_cap);
        self.connect_hashes(x.circuit_digest, y.circuit_digest);
    }

    pub fn register_public_input(&mut self, target: Target) { self.public_inputs.push(target); }

    pub fn register_public_inputs(&mut self, targets: &[Target]) {
        for &t in targets {
            self.register_public_input(t);
        }
    }

    pub fn num_public_inputs(&self) -> usize { self.public_inputs.len() }

    pub fn public_inputs(&self) -> &[Target] { &self.public_inputs }

    pub fn num_gates(&self) -> usize { self.cost.div_ceil(20) }

    pub fn print_gate_counts(&self, _min_delta: usize) {}

    pub fn push_context(&mut self, _level: log::Level, _ctx: &str) {}

    pub fn pop_context(&mut self) {}

    pub fn add_gate<G: Gate>(&mut self, gate: G, constants: Vec<F>) -> usize {
        self.gate_names.insert(GateRef::new(gate));
        assert!(constants.is_empty(), "gates are only place holders here");
        self.cost = self.cost.div_ceil(20) * 20 + 20;
        self.cost / 20 - 1
    }

    pub fn add_gate_to_gate_set(&mut self, gate: GateRef) { self.gate_names.insert(gate); }

    // ---- targets

    pub fn add_virtual_target(&mut self) -> Target {
        let index = self.targets;
        self.targets += 1;
        Target::VirtualTarget { index }
    }

    pub fn add_virtual_targets(&mut self, n: usize) -> Vec<Target> {
        (0..n).map(|_| self.add_virtual_target()).collect()
    }

    pub fn add_virtual_target_arr<const N: usize>(&mut self) -> [Target; N] {
        core::array::from_fn(|_| self.add_virtual_target())
    }

    pub fn add_virtual_hash(&mut self) -> HashOutTarget {
        HashOutTarget {
            elements: self.add_virtual_target_arr(),
        }
    }

    pub fn add_virtual_hashes(&mut self, n: usize) -> Vec<HashOutTarget> {
        (0..n).map(|_| self.add_virtual_hash()).collect()
    }

    pub fn add_virtual_hashes_public_input(&mut self, n: usize) -> Vec<HashOutTarget> {
        (0..n).map(|_| self.add_virtual_hash_public_input()).collect()
    }

    pub fn add_virtual_hash_public_input(&mut self) -> HashOutTarget {
        let h = self.add_virtual_hash();
        self.register_public_inputs(&h.elements);
        h
    }

    pub fn add_virtual_cap(&mut self, cap_height: usize) -> MerkleCapTarget {
        MerkleCapTarget(self.add_virtual_hashes(1 << cap_height))
    }

    pub fn add_virtual_public_input(&mut self) -> Target {
        let t = self.add_virtual_target();
        self.register_public_input(t);
        t
    }

    pub fn add_virtual_public_input_arr<const N: usize>(&mut self) -> [Target; N] {
        core::array::from_fn(|_| self.add_virtual_public_input())
    }

    pub fn add_virtual_bool_target_unsafe(&mut self) -> BoolTarget {
        BoolTarget::new_unsafe(self.add_virtual_target())
    }

    pub fn add_virtual_bool_target_safe(&mut self) -> BoolTarget {
        let b = self.add_virtual_bool_target_unsafe();
        self.assert_bool(b);
        b
    }

    pub fn add_virtual_proof_with_pis(
        &mut self,
        common_data: &CommonCircuitData<F, D>,
    ) -> ProofWithPublicInputsTarget<D> {
        ProofWithPublicInputsTarget {
            proof: ProofTarget {
                mac: self.add_virtual_hash(),
            },
            public_inputs: self.add_virtual_targets(common_data.num_public_inputs),
        }
    }

    pub fn add_virtual_verifier_data(&mut self, cap_height: usize) -> VerifierCircuitTarget {
        VerifierCircuitTarget {
            constants_sigmas_cap: self.add_virtual_cap(cap_height),
            circuit_digest: self.add_virtual_hash(),
        }
    }

    pub fn add_virtual_fri_proof(
        &mut self,
        num_leaves_per_oracle: &[usize],
        params: &FriParams,
    ) -> FriProofTarget<D> {
        let cap_height = params.config.cap_height;
        let merkle = |b: &mut Self, bits: usize| MerkleProofTarget {
            siblings: b.add_virtual_hashes(bits - cap_height),
        };
        FriProofTarget {
            commit_phase_merkle_caps: params
                .reduction_arity_bits
                .iter()
                .map(|_| self.add_virtual_cap(cap_height))
                .collect(),
            query_round_proofs: (0..params.config.num_query_rounds)
                .map(|_| {
                    let evals_proofs = num_leaves_per_oracle
                        .iter()
                        .map(|&n| (self.add_virtual_targets(n), merkle(self, params.lde_bits())))
                        .collect();
                    let mut bits = params.lde_bits();
                    let steps = params
                        .reduction_arity_bits
                        .iter()
                        .map(|&arity_bits| {
                            bits -= arity_bits;
                            FriQueryStepTarget {
                                evals: self.add_virtual_extension_targets(1 << arity_bits),
                                merkle_proof: merkle(self, bits),
                            }
                        })
                        .collect();
                    FriQueryRoundTarget {
                        initial_trees_proof: FriInitialTreeProofTarget { evals_proofs },
                        steps,
                    }
                })
                .collect(),
            final_poly: PolynomialCoeffsExtTarget(
                self.add_virtual_extension_targets(params.final_poly_len()),
            ),
            pow_witness: self.add_virtual_target(),
        }
    }

    // ---- constants

    pub fn constant(&mut self, c: F) -> Target {
        let key = c.to_canonical_u64();
        if let Some(&t) = self.constants.get(&key) {
            return t;
        }
        let t = self.add_virtual_target();
        self.constants.insert(key, t);
        self.constant_list.push((t, c));
        t
    }

    pub fn constants(&mut self, cs: &[F]) -> Vec<Target> {
        cs.iter().map(|&c| self.constant(c)).collect()
    }

    pub fn zero(&mut self) -> Target { self.constant(F::ZERO) }

    pub fn one(&mut self) -> Target { self.constant(F::ONE) }

    pub fn two(&mut self) -> Target { self.constant(F::TWO) }

    pub fn neg_one(&mut self) -> Target { self.constant(F::NEG_ONE) }

    pub fn _false(&mut self) -> BoolTarget { BoolTarget::new_unsafe(self.zero()) }

    pub fn _true(&mut self) -> BoolTarget { BoolTarget::new_unsafe(self.one()) }

    pub fn constant_bool(&mut self, b: bool) -> BoolTarget {
        if b {
            self._true()
        } else {
            self._false()
        }
    }

    pub fn constant_hash(&mut self, h: HashOut<F>) -> HashOutTarget {
        HashOutTarget {
            elements: h.elements.map(|x| self.constant(x)),
        }
    }

    pub fn constant_merkle_cap<H: Hasher<F, Hash = HashOut<F>>>(
        &mut self,
        cap: &MerkleCap<F, H>,
    ) -> MerkleCapTarget {
        MerkleCapTarget(cap.0.iter().map(|&h| self.constant_hash(h)).collect())
    }

    pub fn constant_verifier_data<C: GenericConfig<D, F = F>>(
        &mut self,
        verifier_data: &VerifierOnlyCircuitData<C, D>,
    ) -> VerifierCircuitTarget
    where
        C::Hasher: AlgebraicHasher<F>, {
        VerifierCircuitTarget {
            constants_sigmas_cap: self.constant_merkle_cap(&verifier_data.constants_sigmas_cap),
            circuit_digest: self.constant_hash(verifier_data.circuit_digest),
        }
    }

    // ---- arithmetic

    pub fn arithmetic(
        &mut self,
        const_0: F,
        const_1: F,
        multiplicand_0: Target,
        multiplicand_1: Target,
        addend: Target,
    ) -> Target {
        let params = vec![const_0.to_canonical_u64(), const_1.to_canonical_u64()];
        let ins = vec![multiplicand_0, multiplicand_1, addend];
        self.op("arithmetic", params, ins, 1, 1, move |v, o| {
            o.push(const_0 * v[0] * v[1] + const_1 * v[2]);
        })[0]
    }

    pub fn add(&mut self, x: Target, y: Target) -> Target { self.op1("add", &[x, y], |v| v[0] + v[1]) }

    pub fn sub(&mut self, x: Target, y: Target) -> Target { self.op1("sub", &[x, y], |v| v[0] - v[1]) }

    pub fn mul(&mut self, x: Target, y: Target) -> Target { self.op1("mul", &[x, y], |v| v[0] * v[1]) }

    pub fn neg(&mut self, x: Target) -> Target { self.op1("neg", &[x], |v| -v[0]) }

    pub fn square(&mut self, x: Target) -> Target { self.mul(x, x) }

    pub fn cube(&mut self, x: Target) -> Target {
        let s = self.square(x);
        self.mul(s, x)
    }

    pub fn mul_add(&mut self, x: Target, y: Target, z: Target) -> Target {
        self.op1("mul_add", &[x, y, z], |v| v[0] * v[1] + v[2])
    }

    pub fn mul_sub(&mut self, x: Target, y: Target, z: Target) -> Target {
        self.op1("mul_sub", &[x, y, z], |v| v[0] * v[1] - v[2])
    }

    pub fn add_const(&mut self, x: Target, c: F) -> Target {
        let c = self.constant(c);
        self.add(x, c)
    }

    pub fn mul_const(&mut self, c: F, x: Target) -> Target {
        let c = self.constant(c);
        self.mul(c, x)
    }

    pub fn mul_const_add(&mut self, c: F, x: Target, y: Target) -> Target {
        let c = self.constant(c);
        self.mul_add(c, x, y)
    }

    pub fn add_many<T: core::borrow::Borrow<Target>>(
        &mut self,
        terms: impl IntoIterator<Item = T>,
    ) -> Target {
        let zero = self.zero();
        terms.into_iter().fold(zero, |acc, t| self.add(acc, *t.borrow()))
    }

    pub fn mul_many<T: core::borrow::Borrow<Target>>(
        &mut self,
        terms: impl IntoIterator<Item = T>,
    ) -> Target {
        let one = self.one();
        terms.into_iter().fold(one, |acc, t| self.mul(acc, *t.borrow()))
    }

    pub fn exp_power_of_2(&mut self, base: Target, power_log: usize) -> Target {
        (0..power_log).fold(base, |b, _| self.square(b))
    }

    pub fn exp_u64(&mut self, base: Target, e: u64) -> Target {
        self.op("exp", vec![e], vec![base], 1, 20, move |v, o| o.push(v[0].exp_u64(e)))[0]
    }

    pub fn inverse(&mut self, x: Target) -> Target { self.op1("inverse", &[x], |v| v[0].inverse()) }

    pub fn div(&mut self, x: Target, y: Target) -> Target {
        self.op1("div", &[x, y], |v| v[0] * v[1].inverse())
    }

    pub fn is_equal(&mut self, x: Target, y: Target) -> BoolTarget {
        BoolTarget::new_unsafe(self.op1("is_equal", &[x, y], |v| F::from_bool(v[0] == v[1])))
    }

    pub fn is_nonzero(&mut self, x: Target) -> BoolTarget {
        BoolTarget::new_unsafe(self.op1("is_nonzero", &[x], |v| F::from_bool(v[0].is_nonzero())))
    }

    pub fn not(&mut self, b: BoolTarget) -> BoolTarget {
        BoolTarget::new_unsafe(self.op1("not", &[b.target], |v| F::ONE - v[0]))
    }

    pub fn and(&mut self, a: BoolTarget, b: BoolTarget) -> BoolTarget {
        BoolTarget::new_unsafe(self.mul(a.target, b.target))
    }

    pub fn or(&mut self, a: BoolTarget, b: BoolTarget) -> BoolTarget {
        BoolTarget::new_unsafe(
            self.op1("or", &[a.target, b.target], |v| v[0] + v[1] - v[0] * v[1]),
        )
    }

    pub fn select(&mut self, b: BoolTarget, x: Target, y: Target) -> Target {
        self.op1("select", &[b.target, x, y], |v| v[0] * (v[1] - v[2]) + v[2])
    }

    pub fn _if(&mut self, b: BoolTarget, x: Target, y: Target) -> Target { self.select(b, x, y) }

    pub fn select_hash(
        &mut self,
        b: BoolTarget,
        h0: HashOutTarget,
        h1: HashOutTarget,
    ) -> HashOutTarget {
        HashOutTarget {
            elements: core::array::from_fn(|i| self.select(b, h0.elements[i], h1.elements[i])),
        }
    }

    pub fn assert_bool(&mut self, b: BoolTarget) {
        let z = self.mul_sub(b.target, b.target, b.target);
        let zero = self.zero();
        self.connect(z, zero);
    }

    pub fn assert_zero(&mut self, x: Target) {
        let zero = self.zero();
        self.connect(x, zero);
    }

    pub fn assert_one(&mut self, x: Target) {
        let one = self.one();
        self.connect(x, one);
    }

    pub fn conditional_assert_eq(&mut self, condition: Target, x: Target, y: Target) {
        let d = self.sub(x, y);
        let z = self.mul(condition, d);
        self.assert_zero(z);
    }

    // ---- bits

    pub fn range_check(&mut self, x: Target, n_log: usize) {
        self.split_le(x, n_log);
    }

    pub fn split_le(&mut self, integer: Target, num_bits: usize) -> Vec<BoolTarget> {
        assert!(num_bits <= 64);
        let params = vec![num_bits as u64];
        self.op("split_le", params, vec![integer], num_bits, 20, move |v, o| {
            let x = v[0].to_canonical_u64();
            if num_bits < 64 && x >> num_bits != 0 {
                set_twice("a sum of bits");
            }
            o.extend((0..num_bits).map(|i| F::from_bool(x >> i & 1 == 1)));
        })
        .into_iter()
        .map(BoolTarget::new_unsafe)
        .collect()
    }

    pub fn le_sum(&mut self, bits: impl Iterator<Item = impl core::borrow::Borrow<BoolTarget>>) -> Target {
        let ins: Vec<Target> = bits.map(|b| b.borrow().target).collect();
        self.op("le_sum", vec![], ins, 1, 20, |v, o| {
            o.push(v.iter().rev().fold(F::ZERO, |acc, &b| acc.double() + b));
        })[0]
    }

    pub fn split_low_high(&mut self, x: Target, n_log: usize, num_bits: usize) -> (Target, Target) {
        let params = vec![n_log as u64, num_bits as u64];
        let out = self.op("split_low_high", params, vec![x], 2, 40, move |v, o| {
            let x = v[0].to_canonical_u64();
            if num_bits < 64 && x >> num_bits != 0 {
                set_twice("a split");
            }
            let x = if num_bits == 64 && x < (1 << 32) - 1 && super::circuit_data::verif::wild() { x + 0xffff_ffff_0000_0001 } else { x };
            o.push(F::from_canonical_u64(x & ((1 << n_log) - 1)));
            o.push(F::from_canonical_u64(x >> n_log));
        });
        (out[0], out[1])
    }

    // ---- hashing

    pub fn permute<H: AlgebraicHasher<F>>(&mut self, state: [Target; 12]) -> [Target; 12] {
        let params = vec![name_word(core::any::type_name::<H>())];
        self.op("permute", params, state.to_vec(), 12, 20, |v, o| {
            let mut p = H::Permutation::new(v.iter().copied());
            p.permute();
            o.extend_from_slice(p.as_ref());
        })
        .try_into()
        .unwrap()
    }

    pub fn hash_n_to_hash_no_pad<H: AlgebraicHasher<F>>(
        &mut self,
        inputs: Vec<Target>,
    ) -> HashOutTarget {
        let params = vec![name_word(core::any::type_name::<H>())];
        let cost = (inputs.len() / 8 + 1) * 20;
        HashOutTarget::from_vec(self.op("hash", params, inputs, 4, cost, |v, o| {
            o.extend(H::hash_no_pad(v).elements);
        }))
    }

    pub fn hash_pad<H: AlgebraicHasher<F>>(&mut self, inputs: Vec<Target>) -> HashOutTarget {
        let params = vec![name_word(core::any::type_name::<H>())];
        let cost = (inputs.len() / 8 + 1) * 20;
        HashOutTarget::from_vec(self.op("hash_pad", params, inputs, 4, cost, |v, o| {
            o.extend(H::hash_pad(v).elements);
        }))
    }

    pub fn hash_or_noop<H: AlgebraicHasher<F>>(&mut self, inputs: Vec<Target>) -> HashOutTarget {
        let zero = self.zero();
        if inputs.len() <= 4 {
            HashOutTarget::from_partial(&inputs, zero)
        } else {
            self.hash_n_to_hash_no_pad::<H>(inputs)
        }
    }

    // ---- recursion

    pub fn verify_proof<C: GenericConfig<D, F = F>>(
        &mut self,
        proof_with_pis: &ProofWithPublicInputsTarget<D>,
        inner_verifier_data: &VerifierCircuitTarget,
        inner_common_data: &CommonCircuitData<F, D>,
    ) where
        C::Hasher: AlgebraicHasher<F>, {
        assert_eq!(
            proof_with_pis.public_inputs.len(),
            inner_common_data.num_public_inputs
        );
        let words = inner_common_data.words();
        let pis = proof_with_pis.public_inputs.len();
        let cap = &inner_verifier_data.constants_sigmas_cap.0;
        let ins = proof_with_pis
            .proof
            .mac
            .elements
            .iter()
            .chain(&inner_verifier_data.circuit_digest.elements)
            .chain(&proof_with_pis.public_inputs)
            .chain(cap.iter().flat_map(|h| &h.elements))
            .copied()
            .collect();
        // two proofs of the standard configuration fit in 2^13 gates, four of the test one in 2^11
        let cost = 260 + 110 * inner_common_data.config.fri_config.num_query_rounds;
        self.op("verify_proof", words.clone(), ins, 0, cost * 20, move |v, _| {
            let want = mac(&words, &v[4..8], &v[8 + pis..], &v[8..8 + pis]);
            if want[..] != v[..4] {
                set_twice("the inner proof");
            }
        });
    }

    pub fn verify_fri_proof<C: GenericConfig<D, F = F>>(
        &mut self,
        instance: &FriInstanceInfoTarget<D>,
        openings: &FriOpeningsTarget<D>,
        challenges: &FriChallengesTarget<D>,
        initial_merkle_caps: &[MerkleCapTarget],
        proof: &FriProofTarget<D>,
        params: &FriParams,
    ) where
        C::Hasher: AlgebraicHasher<F>, {
        self.fri_op::<C>(
            None,
            core::slice::from_ref(instance),
            core::slice::from_ref(openings),
            challenges,
            initial_merkle_caps,
            proof,
            params,
        );
    }

    pub fn verify_batch_fri_proof<C: GenericConfig<D, F = F>>(
        &mut self,
        degree_bits: &[usize],
        instance: &[FriInstanceInfoTarget<D>],
        openings: &[FriOpeningsTarget<D>],
        challenges: &FriChallengesTarget<D>,
        initial_merkle_caps: &[MerkleCapTarget],
        proof: &FriProofTarget<D>,
        params: &FriParams,
    ) where
        C::Hasher: AlgebraicHasher<F>, {
        self.fri_op::<C>(
            Some(degree_bits.to_vec()),
            instance,
            openings,
            challenges,
            initial_merkle_caps,
            proof,
            params,
        );
    }

    /// One operation that runs the native verifier on the values of all targets.
    fn fri_op<C: GenericConfig<D, F = F>>(
        &mut self,
        degree_bits: Option<Vec<usize>>,
        instances: &[FriInstanceInfoTarget<D>],
        openings: &[FriOpeningsTarget<D>],
        challenges: &FriChallengesTarget<D>,
        caps: &[MerkleCapTarget],
        proof: &FriProofTarget<D>,
        params: &FriParams,
    ) where
        C::Hasher: AlgebraicHasher<F>, {
        let mut ins: Vec<Target> = vec![];
        for i in instances {
            ins.extend(i.batches.iter().flat_map(|b| b.point.0));
        }
        for o in openings {
            ins.extend(o.batches.iter().flat_map(|b| b.values.iter().flat_map(|v| v.0)));
        }
        ins.extend(challenges.fri_alpha.0);
        ins.extend(challenges.fri_betas.iter().flat_map(|b| b.0));
        ins.push(challenges.fri_pow_response);
        ins.extend(&challenges.fri_query_indices);
        let hashes = |ins: &mut Vec<Target>, h: &[HashOutTarget]| ins.extend(h.iter().flat_map(|h| h.elements));
        for c in caps.iter().chain(&proof.commit_phase_merkle_caps) {
            hashes(&mut ins, &c.0);
        }
        for q in &proof.query_round_proofs {
            for (evals, merkle) in &q.initial_trees_proof.evals_proofs {
                ins.extend(evals);
                hashes(&mut ins, &merkle.siblings);
            }
            for s in &q.steps {
                ins.extend(s.evals.iter().flat_map(|e| e.0));
                hashes(&mut ins, &s.merkle_proof.siblings);
            }
        }
        ins.extend(proof.final_poly.0.iter().flat_map(|e| e.0));
        ins.push(proof.pow_witness);

        let mut words: Vec<u64> = vec![params.lde_bits() as u64, params.config.cap_height as u64];
        words.extend(degree_bits.iter().flatten().map(|&d| d as u64));
        for i in instances {
            for b in &i.batches {
                for p in &b.polynomials {
                    words.extend([p.oracle_index as u64, p.polynomial_index as u64]);
                }
            }
        }
        let (instances, openings, challenges, caps, proof, params) = (
            instances.to_vec(),
            openings.to_vec(),
            challenges.clone(),
            caps.to_vec(),
            proof.clone(),
            params.clone(),
        );
        let cost = 100 * params.config.num_query_rounds.max(1);
        self.op("verify_fri", words, ins, 0, cost * 20, move |v, _| {
            let mut rest = v;
            let mut take = |n: usize| {
                let (a, b) = rest.split_at(n);
                rest = b;
                a.to_vec()
            };
            macro_rules! exts {
                ($n:expr) => {
                    take($n * D)
                        .chunks(D)
                        .map(|c| F::Extension::from_basefield_array(c.to_vec().try_into().unwrap()))
                        .collect::<Vec<F::Extension>>()
                };
            }
            macro_rules! hashes {
                ($n:expr) => {
                    take($n * 4)
                        .chunks(4)
                        .map(|c| HashOut::<F>::from_vec(c.to_vec()))
                        .collect::<Vec<_>>()
                };
            }
            let instances: Vec<FriInstanceInfo<F, D>> = instances
                .iter()
                .map(|i| FriInstanceInfo {
                    oracles: i.oracles.clone(),
                    batches: i
                        .batches
                        .iter()
                        .map(|b| FriBatchInfo {
                            point: exts!(1)[0],
                            polynomials: b.polynomials.clone(),
                        })
                        .collect(),
                })
                .collect();
            let openings: Vec<FriOpenings<F, D>> = openings
                .iter()
                .map(|o| FriOpenings {
                    batches: o
                        .batches
                        .iter()
                        .map(|b| FriOpeningBatch {
                            values: exts!(b.values.len()),
                        })
                        .collect(),
                })
                .collect();
            let ch = FriChallenges {
                fri_alpha: exts!(1)[0],
                fri_betas: exts!(challenges.fri_betas.len()),
                fri_pow_response: take(1)[0],
                fri_query_indices: take(challenges.fri_query_indices.len())
                    .iter()
                    .map(|x| (x.to_canonical_u64() % params.lde_size() as u64) as usize)
                    .collect(),
            };
            let caps: Vec<MerkleCap<F, C::Hasher>> =
                caps.iter().map(|c| MerkleCap(hashes!(c.0.len()))).collect();
            let proof: FriProof<F, C::Hasher, D> = FriProof {
                commit_phase_merkle_caps: proof
                    .commit_phase_merkle_caps
                    .iter()
                    .map(|c| MerkleCap(hashes!(c.0.len())))
                    .collect(),
                query_round_proofs: proof
                    .query_round_proofs
                    .iter()
                    .map(|q| FriQueryRound {
                        initial_trees_proof: FriInitialTreeProof {
                            evals_proofs: q
                                .initial_trees_proof
                                .evals_proofs
                                .iter()
                                .map(|(e, m)| {
                                    (take(e.len()), MerkleProof {
                                        siblings: hashes!(m.siblings.len()),
                                    })
                                })
                                .collect(),
                        },
                        steps: q
                            .steps
                            .iter()
                            .map(|s| FriQueryStep {
                                evals: exts!(s.evals.len()),
                                merkle_proof: MerkleProof {
                                    siblings: hashes!(s.merkle_proof.siblings.len()),
                                },
                            })
                            .collect(),
                    })
                    .collect(),
                final_poly: PolynomialCoeffs::new(exts!(proof.final_poly.0.len())),
                pow_witness: take(1)[0],
            };
            let result = match &degree_bits {
                None => verify_fri_proof::<F, C, D>(
                    &instances[0],
                    &openings[0],
                    &ch,
                    &caps,
                    &proof,
                    &params,
                ),
                Some(bits) => verify_batch_fri_proof::<F, C, D>(
                    bits, &instances, &openings, &ch, &caps, &proof, &params,
                ),
            };
            if let Err(e) = result {
                set_twice(&format!("the FRI proof ({e})"));
            }
        });
    }

    // ---- building

    pub fn build<C: GenericConfig<D, F = F>>(self) -> CircuitData<F, C, D> {
        // classes of connected targets
        let mut parent: Vec<u32> = (0..self.targets as u32).collect();
        fn find(parent: &mut [u32], mut x: u32) -> u32 {
            while parent[x as usize] != x {
                parent[x as usize] = parent[parent[x as usize] as usize];
                x = parent[x as usize];
            }
            x
        }
        for &(a, b) in &self.connections {
            let (a, b) = (find(&mut parent, a as u32), find(&mut parent, b as u32));
            let (lo, hi) = (a.min(b), a.max(b));
            parent[hi as usize] = lo;
        }
        let class_of: Vec<u32> = (0..self.targets as u32).map(|t| find(&mut parent, t)).collect();

        let mut s = [0x6d6f_7a61_6b00, self.targets as u64];
        for op in &self.ops {
            mix(&mut s, name_word(op.name));
            mix(&mut s, (op.params.len() as u64) << 40 ^ (op.ins.len() as u64) << 20 ^ op.outs.len() as u64);
            for &p in &op.params {
                mix(&mut s, p);
            }
            for &t in op.ins.iter().chain(&op.outs) {
                mix(&mut s, u64::from(class_of[index(t)]));
            }
        }
        for &(t, c) in &self.constant_list {
            mix(&mut s, u64::from(class_of[index(t)]));
            mix(&mut s, c.to_canonical_u64());
        }
        for &t in &self.public_inputs {
            mix(&mut s, u64::from(class_of[index(t)]));
        }
        mix(&mut s, self.num_gates() as u64);

        // the public inputs are hashed and the constants placed in gates of their own
        let gates = self.num_gates() + self.public_inputs.len() / 8 + self.constant_list.len() / 2 + 3;
        let degree_bits = log2_ceil(gates).max(2);
        let digest = |k: u64| {
            let v: Vec<F> = [s[0] >> 32, s[0] & 0xffff_ffff, s[1] >> 32, s[1] & 0xffff_ffff, k, degree_bits as u64]
                .map(F::from_canonical_u64)
                .to_vec();
            let bytes = Poseidon2Hash::hash_no_pad(&v).to_bytes();
            <<C as GenericConfig<D>>::Hasher as Hasher<F>>::Hash::from_bytes(&bytes)
        };
        let cap_height = self.config.fri_config.cap_height;
        let fri_params = self.config.fri_config.fri_params(degree_bits, self.config.zero_knowledge);
        CircuitData {
            verifier_only: VerifierOnlyCircuitData {
                constants_sigmas_cap: MerkleCap((1..=1 << cap_height).map(digest).collect()),
                circuit_digest: digest(0),
            },
            common: CommonCircuitData {
                fri_params,
                gates: self.gate_names.into_iter().collect(),
                num_public_inputs: self.public_inputs.len(),
                config: self.config,
                _f: core::marker::PhantomData,
            },
            prover_only: ProverOnlyCircuitData {
                ops: Arc::new(self.ops),
                class_of: Arc::new(class_of),
                constants: self.constant_list,
                public_inputs: self.public_inputs,
                structure: s,
            },
        }
    }
}
