//! Runs guest programs in the real VM and reads back what they logged.
use mozak_runner::elf::Program;
use mozak_runner::state::{RawTapes, State};
use monlib::guard;
use plonky2::field::goldilocks_field::GoldilocksField;

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Halt(u32),
    Abort(String),
    Budget,
}

pub fn load(name: &str) -> (Program, Vec<u8>) {
    let dir = std::env::var("CARGO_TARGET_DIR").unwrap_or_else(|_| "/verif/target".into()) + std::env::var("GUESTS").as_deref().unwrap_or("");
    let p = format!("{dir}/riscv32im-mozak-mozakvm-elf/mozak-release/{name}-mozakvm");
    let b = std::fs::read(&p).unwrap_or_else(|e| panic!("{p}: {e}"));
    (clirun::runner::load_program(&b[..]).expect("guest program loads"), b)
}

const LOG: u32 = 0xE000_0000;

pub struct Run {
    pub end: End,
    pub log: Vec<u8>,
    pub steps: u64,
    pub state: Option<State<GoldilocksField>>,
}

pub fn run(p: &Program, tapes: RawTapes, budget: u64) -> Run {
    let mut steps = 0;
    let mut last: Option<State<GoldilocksField>> = None;
    let r = guard(|| {
        let mut s = State::<GoldilocksField>::new(p.clone(), tapes);
        while !s.halted {
            if steps >= budget {
                last = Some(s);
                return Ok(false);
            }
            let snap = if steps % 4096 == 0 { Some(s.clone()) } else { None };
            if snap.is_some() {
                last = snap;
            }
            let (_, _, n) = s.execute_instruction(p).map_err(|e| e.to_string())?;
            s = n;
            steps += 1;
        }
        last = Some(s);
        Ok(true)
    });
    let end = match r {
        Ok(Ok(true)) => End::Halt(last.as_ref().unwrap().get_register_value(11)),
        Ok(Ok(false)) => End::Budget,
        Ok(Err(e)) => End::Abort(e),
        Err(e) => End::Abort(e),
    };
    let log = last.as_ref().map(|s| read_log(s)).unwrap_or_default();
    Run { end, log, steps, state: last }
}

fn read_log(s: &State<GoldilocksField>) -> Vec<u8> {
    let n = s.load_u32(LOG);
    (0..n.min(1 << 24)).map(|i| s.load_u8(LOG + 16 + i)).collect()
}
