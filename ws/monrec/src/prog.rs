//! A stand-in for a program's recursive proof: any public values of the expected form.
use mozak_recproofs::circuits::verify_program::core::ProgramPublicIndices;
use mozak_recproofs::indices::{ArrayTargetIndex, BoolTargetIndex, HashOutTargetIndex};
use mozak_recproofs::test_utils::CONFIG;
use mozak_sdk::common::types::ProgramIdentifier;
use plonky2::gates::noop::NoopGate;
use plonky2::hash::hash_types::HashOutTarget;
use plonky2::iop::target::{BoolTarget, Target};
use plonky2::iop::witness::{PartialWitness, WitnessWrite};
use plonky2::plonk::circuit_builder::CircuitBuilder;
use plonky2::plonk::circuit_data::CircuitData;
use plonky2::plonk::proof::ProofWithPublicInputs;

use crate::native::*;

pub struct Program {
    pub id: [F; 4],
    present: BoolTarget,
    root: HashOutTarget,
    call: [Target; 4],
    cast: HashOutTarget,
    hash: [Target; 4],
    pub circuit: CircuitData<F, C, D>,
}

impl Program {
    pub fn new(id: [F; 4]) -> Program {
        let mut b = CircuitBuilder::<F, D>::new(CONFIG);
        let hash = b.add_virtual_target_arr();
        let present = b.add_virtual_bool_target_safe();
        let root = b.add_virtual_hash();
        let call = b.add_virtual_target_arr();
        let cast = b.add_virtual_hash();
        b.register_public_inputs(&hash);
        b.register_public_input(present.target);
        b.register_public_inputs(&root.elements);
        b.register_public_inputs(&call);
        b.register_public_inputs(&cast.elements);
        for (t, v) in hash.into_iter().zip(id) {
            let c = b.constant(v);
            b.connect(t, c);
        }
        b.add_gate(NoopGate, vec![]);
        while b.num_gates() < 8 { b.add_gate(NoopGate, vec![]); }
        Program { id, present, root, call, cast, hash, circuit: b.build() }
    }
    pub fn indices(&self) -> ProgramPublicIndices {
        let p = &self.circuit.prover_only.public_inputs;
        ProgramPublicIndices {
            program_hash: ArrayTargetIndex::new(p, &self.hash),
            events_present: BoolTargetIndex::new(p, self.present),
            event_root: HashOutTargetIndex::new(p, self.root),
            call_list: ArrayTargetIndex::new(p, &self.call),
            cast_root: HashOutTargetIndex::new(p, self.cast),
        }
    }
    pub fn prove(&self, root: Option<H>, call: [F; 4], cast: H) -> ProofWithPublicInputs<F, C, D> {
        let mut w = PartialWitness::new();
        w.set_bool_target(self.present, root.is_some());
        w.set_hash_target(self.root, root.unwrap_or_default());
        w.set_target_arr(&self.call, &call);
        w.set_hash_target(self.cast, cast);
        self.circuit.prove(w).expect("program proof")
    }
    pub fn pid(&self) -> ProgramIdentifier { ProgramIdentifier(self.id.map(u).into()) }
}
