//! The CLI's own conversion of system tapes into raw tapes, compiled from /repo/cli.
#[path = "/repo/cli/src/runner.rs"]
pub mod runner;

// only `get_self_prog_id`, which needs the prover, calls this
pub(crate) mod trace_utils {
    pub(crate) fn get_trace_merkle_cap<F, C, const D: usize, Row>(_: Vec<Row>, _: &starky::config::StarkConfig) { unimplemented!() }
}
