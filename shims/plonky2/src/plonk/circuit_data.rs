use core::fmt;
use std::sync::Arc;

use anyhow::{ensure, Result};
use serde::{Deserialize, Serialize};

use crate::field::extension::Extendable;
use crate::fri::reduction_strategies::FriReductionStrategy;
use crate::fri::{FriConfig, FriParams};
use crate::gates::gate::GateRef;
use crate::hash::hash_types::{HashOut, HashOutTarget, MerkleCapTarget, RichField};
use crate::hash::merkle_tree::MerkleCap;
use crate::hash::poseidon2::Poseidon2Hash;
use crate::iop::target::Target;
use crate::iop::witness::PartialWitness;
use crate::plonk::circuit_builder::Op;
use crate::plonk::config::{GenericConfig, GenericHashOut, Hasher};
use crate::plonk::proof::{Proof, ProofWithPublicInputs};

#[derive(Clone, Debug, Eq, PartialEq, Serialize, Deserialize)]
pub struct CircuitConfig {
    pub num_wires: usize,
    pub num_routed_wires: usize,
    pub num_constants: usize,
    pub use_base_arithmetic_gate: bool,
    pub security_bits: usize,
    pub num_challenges: usize,
    pub zero_knowledge: bool,
    pub max_quotient_degree_factor: usize,
    pub fri_config: FriConfig,
}
impl Default for CircuitConfig {
    fn default() -> Self { Self::standard_recursion_config() }
}
impl CircuitConfig {
    pub const fn num_advice_wires(&self) -> usize { self.num_wires - self.num_routed_wires }

    pub const fn standard_recursion_config() -> Self {
        Self {
            num_wires: 135,
            num_routed_wires: 80,
            num_constants: 2,
            use_base_arithmetic_gate: true,
            security_bits: 100,
            num_challenges: 2,
            zero_knowledge: false,
            max_quotient_degree_factor: 8,
            fri_config: FriConfig {
                rate_bits: 3,
                cap_height: 4,
                proof_of_work_bits: 16,
                reduction_strategy: FriReductionStrategy::ConstantArityBits(4, 5),
                num_query_rounds: 28,
            },
        }
    }
}

#[derive(Clone, Debug, Eq, PartialEq)]
pub struct CommonCircuitData<F: RichField + Extendable<D>, const D: usize> {
    pub config: CircuitConfig,
    pub fri_params: FriParams,
    pub gates: Vec<GateRef>,
    pub num_public_inputs: usize,
    pub(crate) _f: core::marker::PhantomData<F>,
}
impl<F: RichField + Extendable<D>, const D: usize> CommonCircuitData<F, D> {
    pub const fn degree_bits(&self) -> usize { self.fri_params.degree_bits }

    pub fn degree(&self) -> usize { 1 << self.degree_bits() }

    pub(crate) fn words(&self) -> Vec<u64> {
        let c = &self.config;
        let mut v = vec![
            self.degree_bits() as u64,
            self.num_public_inputs as u64,
            c.num_wires as u64,
            c.num_challenges as u64,
            c.security_bits as u64,
            c.fri_config.rate_bits as u64,
            c.fri_config.cap_height as u64,
            u64::from(c.fri_config.proof_of_work_bits),
            c.fri_config.num_query_rounds as u64,
            self.gates.len() as u64,
        ];
        for g in &self.gates {
            v.extend(g.0.bytes().map(u64::from));
        }
        v
    }
}

#[derive(Clone, Debug, Eq, PartialEq, Serialize, Deserialize)]
#[serde(bound = "")]
pub struct VerifierOnlyCircuitData<C: GenericConfig<D>, const D: usize> {
    pub constants_sigmas_cap: MerkleCap<C::F, C::Hasher>,
    pub circuit_digest: <<C as GenericConfig<D>>::Hasher as Hasher<C::F>>::Hash,
}

#[derive(Clone, Debug, Eq, PartialEq)]
pub struct VerifierCircuitTarget {
    pub constants_sigmas_cap: MerkleCapTarget,
    pub circuit_digest: HashOutTarget,
}

/// What proving needs: the operations and the classes the copy constraints make.
#[derive(Clone)]
pub struct ProverOnlyCircuitData<F: RichField> {
    pub(crate) ops: Arc<Vec<Op<F>>>,
    pub(crate) class_of: Arc<Vec<u32>>,
    pub(crate) constants: Vec<(Target, F)>,
    pub public_inputs: Vec<Target>,
    pub(crate) structure: [u64; 2],
}
impl<F: RichField> fmt::Debug for ProverOnlyCircuitData<F> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "ProverOnlyCircuitData({:x?})", self.structure)
    }
}
impl<F: RichField> PartialEq for ProverOnlyCircuitData<F> {
    fn eq(&self, o: &Self) -> bool { self.structure == o.structure }
}
impl<F: RichField> Eq for ProverOnlyCircuitData<F> {}

#[derive(Clone, Debug, Eq, PartialEq)]
pub struct CircuitData<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize> {
    pub prover_only: ProverOnlyCircuitData<F>,
    pub verifier_only: VerifierOnlyCircuitData<C, D>,
    pub common: CommonCircuitData<F, D>,
}
#[derive(Clone, Debug, Eq, PartialEq)]
pub struct VerifierCircuitData<
    F: RichField + Extendable<D>,
    C: GenericConfig<D, F = F>,
    const D: usize,
> {
    pub verifier_only: VerifierOnlyCircuitData<C, D>,
    pub common: CommonCircuitData<F, D>,
}

/// The digest standing for "a proof of this circuit with these public inputs
/// exists".
pub(crate) fn mac<F: RichField>(
    common: &[u64],
    circuit_digest: &[F],
    cap: &[F],
    public_inputs: &[F],
) -> [F; 4] {
    let mut v: Vec<F> = vec![F::from_noncanonical_u64(0x6d6f_7a61_6b5f_6d61)];
    for part in [circuit_digest, cap, public_inputs] {
        v.push(F::from_canonical_usize(part.len()));
        v.extend_from_slice(part);
    }
    v.extend(common.iter().map(|&w| F::from_noncanonical_u64(w)));
    Poseidon2Hash::hash_no_pad(&v).elements
}

/// Lets a monitor act as a prover that does not follow the API: it may change
/// the next witness of its thread, and see the values that came of it.
pub mod verif {
    use core::any::Any;
    use core::cell::{Cell, RefCell};

    use crate::iop::target::Target;

    pub type Hook = Box<dyn FnOnce(&mut dyn Any, &dyn Fn(Target) -> usize)>;
    thread_local! {
        pub(super) static HOOK: RefCell<Option<Hook>> = const { RefCell::new(None) };
        pub(super) static KEEP: Cell<bool> = const { Cell::new(false) };
        pub(super) static WILD: Cell<bool> = const { Cell::new(false) };
        pub(super) static VALUES: RefCell<Vec<u64>> = const { RefCell::new(vec![]) };
    }
    /// Called once with the next `PartialWitness` and the copy class of each target.
    pub fn on_next_witness(h: Option<Hook>) { HOOK.with(|x| *x.borrow_mut() = h); }
    pub fn keep_values(on: bool) { KEEP.with(|x| x.set(on)); }
    /// Splits of 64-bit values take the other representation where there are two, as a cheating
    /// prover's hints could.
    pub fn wild_splits(on: bool) { WILD.with(|x| x.set(on)); }
    pub(crate) fn wild() -> bool { WILD.with(Cell::get) }
    /// What a target was in the last witness, if it was kept and complete.
    pub fn value(t: Target) -> u64 {
        match t {
            Target::VirtualTarget { index } => VALUES.with(|v| v.borrow()[index]),
            Target::Wire(_) => unreachable!(),
        }
    }
}

/// Runs the generators; the values of all target classes.
pub(crate) fn generate<F: RichField>(
    prover: &ProverOnlyCircuitData<F>,
    mut inputs: PartialWitness<F>,
) -> Vec<Option<F>> {
    let class = |t: Target| match t {
        Target::VirtualTarget { index } => prover.class_of[index] as usize,
        Target::Wire(_) => unreachable!("no wires here"),
    };
    if let Some(h) = verif::HOOK.with(|h| h.borrow_mut().take()) {
        h(&mut inputs, &class);
    }
    let n = prover.class_of.len();
    let mut values: Vec<Option<F>> = vec![None; n];
    let mut ready: Vec<usize> = vec![]; // classes newly set
    let set = |values: &mut Vec<Option<F>>, ready: &mut Vec<usize>, t: Target, v: F| {
        let c = class(t);
        match values[c] {
            None => {
                values[c] = Some(v);
                ready.push(c);
            }
            Some(old) => assert_eq!(
                old, v,
                "Partition containing {t:?} was set twice with different values: {old} != {v}"
            ),
        }
    };
    for &(t, v) in &prover.constants {
        set(&mut values, &mut ready, t, v);
    }
    let mut sorted: Vec<_> = inputs.target_values.into_iter().collect();
    sorted.sort_unstable_by_key(|(t, _)| *t);
    for (t, v) in sorted {
        set(&mut values, &mut ready, t, v);
    }
    // which operations wait for which class
    let mut waiting: Vec<Vec<u32>> = vec![vec![]; n];
    let mut missing: Vec<u32> = vec![0; prover.ops.len()];
    let mut runnable: Vec<usize> = vec![];
    for (i, op) in prover.ops.iter().enumerate() {
        let mut cs: Vec<usize> = op.ins.iter().map(|&t| class(t)).collect();
        cs.sort_unstable();
        cs.dedup();
        missing[i] = cs.len() as u32;
        for c in cs {
            waiting[c].push(i as u32);
        }
        if missing[i] == 0 {
            runnable.push(i);
        }
    }
    let mut done = 0;
    let mut buf = vec![];
    let mut outs = vec![];
    loop {
        while let Some(c) = ready.pop() {
            for &i in &waiting[c] {
                missing[i as usize] -= 1;
                if missing[i as usize] == 0 {
                    runnable.push(i as usize);
                }
            }
        }
        let Some(i) = runnable.pop() else { break };
        let op = &prover.ops[i];
        buf.clear();
        buf.extend(op.ins.iter().map(|&t| values[class(t)].unwrap()));
        outs.clear();
        (op.f)(&buf, &mut outs);
        assert_eq!(outs.len(), op.outs.len(), "{}", op.name);
        for (&t, &v) in op.outs.iter().zip(&outs) {
            set(&mut values, &mut ready, t, v);
        }
        done += 1;
    }
    let remaining = prover.ops.len() - done;
    assert_eq!(remaining, 0, "{remaining} generators weren't run");
    if verif::KEEP.with(|k| k.get()) {
        let all = prover.class_of.iter().map(|&c| values[c as usize].map_or(0, |v| v.to_canonical_u64())).collect();
        verif::VALUES.with(|v| *v.borrow_mut() = all);
    }
    values
}

impl<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize> CircuitData<F, C, D> {
    pub fn prove(&self, inputs: PartialWitness<F>) -> Result<ProofWithPublicInputs<F, C, D>> {
        let values = generate(&self.prover_only, inputs);
        let public_inputs: Vec<F> = self
            .prover_only
            .public_inputs
            .iter()
            .map(|&t| match t {
                Target::VirtualTarget { index } =>
                    values[self.prover_only.class_of[index] as usize].unwrap_or(F::ZERO),
                Target::Wire(_) => unreachable!(),
            })
            .collect();
        Ok(ProofWithPublicInputs {
            proof: Proof {
                mac: self.mac(&public_inputs),
                _c: core::marker::PhantomData,
            },
            public_inputs,
        })
    }

    fn mac(&self, public_inputs: &[F]) -> [F; 4] {
        mac(
            &self.common.words(),
            &self.verifier_only.circuit_digest.to_vec(),
            &self.verifier_only.constants_sigmas_cap.flatten(),
            public_inputs,
        )
    }

    pub fn verify(&self, proof: ProofWithPublicInputs<F, C, D>) -> Result<()> {
        ensure!(
            proof.public_inputs.len() == self.common.num_public_inputs,
            "Number of public inputs doesn't match circuit data."
        );
        ensure!(proof.proof.mac == self.mac(&proof.public_inputs), "Invalid proof.");
        Ok(())
    }

    pub fn verifier_data(&self) -> VerifierCircuitData<F, C, D> {
        VerifierCircuitData {
            verifier_only: self.verifier_only.clone(),
            common: self.common.clone(),
        }
    }
}
impl<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize>
    VerifierCircuitData<F, C, D>
{
    pub fn verify(&self, proof: ProofWithPublicInputs<F, C, D>) -> Result<()> {
        ensure!(
            proof.public_inputs.len() == self.common.num_public_inputs,
            "Number of public inputs doesn't match circuit data."
        );
        let want = mac(
            &self.common.words(),
            &self.verifier_only.circuit_digest.to_vec(),
            &self.verifier_only.constants_sigmas_cap.flatten(),
            &proof.public_inputs,
        );
        ensure!(proof.proof.mac == want, "Invalid proof.");
        Ok(())
    }
}
#[allow(dead_code)]
fn _h(_: HashOut<crate::field::goldilocks_field::GoldilocksField>) {}
