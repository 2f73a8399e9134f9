//! Names that /repo/cli/src/runner.rs imports for `get_self_prog_id`; nothing here is ever called.
pub mod memoryinit { pub mod generation { pub fn generate_elf_memory_init_trace<F>(_: &mozak_runner::elf::Program) -> Vec<[F; 1]> { unimplemented!() } } }
pub mod program { pub mod generation { pub fn generate_program_rom_trace<F>(_: &mozak_runner::elf::Program) -> Vec<[F; 1]> { unimplemented!() } } }
pub mod stark { pub mod prover { pub fn get_program_id<F, C, const D: usize>(_: F, _: &(), _: &()) -> mozak_sdk::common::types::ProgramIdentifier { unimplemented!() } } }
