//! Workloads over the real SDK and VM for an interpreter that stops at undefined behaviour:
//! `monub <scratch directory> <seed> <transactions> <programs>`. Prints what was exercised.
#[macro_use]
#[path = "../../../guest/actor/src/msgs.rs"]
mod msgs;
#[allow(dead_code)]
#[path = "../../../ws/monsdk/src/scenario.rs"]
mod scenario;
#[allow(dead_code)]
#[path = "../../../ws/monvm/src/gen.rs"]
mod gen;
/// What `gen` needs of the lock-step monitor.
mod lockstep {
    use monlib::refvm::{Seg, Tapes};
    #[derive(Clone, Debug)]
    pub struct Case {
        pub entry: u32,
        pub segs: Vec<Seg>,
        pub regs: Vec<(u8, u32)>,
        pub tapes: Tapes,
        pub max_steps: u64,
    }
}

use monlib::refvm;
use monlib::{guard, Rng};
use mozak_runner::elf::Program;
use mozak_runner::state::{RawTapes, State};
use mozak_sdk::common::merkle::merkleize;
use mozak_sdk::common::types::{Poseidon2Hash, ProgramIdentifier, SystemTape};
use mozak_sdk::native::poseidon::{poseidon2_hash_no_pad, poseidon2_hash_with_pad};
use mozak_sdk::native::OrderedEvents;
use plonky2::field::goldilocks_field::GoldilocksField;
use scenario::{raddrs, rbytes, Ev, Scn};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    std::env::set_current_dir(&a[1]).unwrap();
    let mut r = Rng::new(n(2));

    let (mut calls, mut events) = (0, 0);
    for _ in 0..n(3) {
        let s = Scn::gen(&mut Rng::new(r.u64()), false);
        let l = s.log();
        calls += l.calls.len();
        events += l.events.values().map(Vec::len).sum::<usize>();
        s.perform();
    }
    mozak_sdk::native::dump_proving_files();
    let tape: SystemTape = serde_json::from_slice(&std::fs::read("out/tape.json").unwrap()).unwrap();
    let _ = rkyv::to_bytes::<_, 256, rkyv::rancor::Failure>(&tape.call_tape.writer).unwrap();
    for t in tape.event_tape.writer.values() {
        t.get_canonical_order_temporal_hints();
    }

    for _ in 0..n(3) {
        let len = r.idx(40);
        let b = rbytes(&mut r, len);
        let h = poseidon2_hash_with_pad(&b);
        let k = len / 8 * 8;
        let g = poseidon2_hash_no_pad(&b[..k]);
        let t = Poseidon2Hash::two_to_one(h, g);
        let _ = (t.to_u64s(), ProgramIdentifier::from(format!("{:?}", ProgramIdentifier(t))), Poseidon2Hash::from(*b"0123456789abcdef0123456789abcdef"));
        let mut l: Vec<(u64, Poseidon2Hash)> = (0..r.idx(5)).map(|_| (r.edge64(), t)).collect();
        l.sort_by_key(|x| x.0);
        let _ = merkleize(l);
        let addrs = raddrs(&mut r);
        let o = OrderedEvents::new((0..r.idx(4)).map(|_| Ev::rand(&mut r, &addrs).sdk()).collect());
        let _ = (o.canonical_hash(), o.get_canonical_order_temporal_hints(), o.get_temporal_order_canonical_hints());
    }

    let mut steps = 0u64;
    for i in 0..n(4) {
        let c = if i % 4 == 3 { gen::halting(&mut r) } else { gen::free(&mut r) };
        let t = RawTapes { private_tape: c.tapes.seq[0].clone(), public_tape: c.tapes.seq[1].clone(), call_tape: c.tapes.seq[2].clone(), event_tape: c.tapes.seq[3].clone(), ..RawTapes::default() };
        let _ = guard(|| {
            let p = Program::vanilla_load_elf(&refvm::elf(c.entry, &c.segs)).unwrap();
            let mut s = State::<GoldilocksField>::new(p.clone(), t);
            for (k, v) in &c.regs {
                s = s.set_register_value(*k, *v);
            }
            let mut m = c.max_steps.min(60);
            while !s.halted && m > 0 {
                m -= 1;
                steps += 1;
                s = s.execute_instruction(&p).unwrap().2;
            }
        });
    }
    println!("OBSERVED calls={calls} events={events} steps={steps}");
}
