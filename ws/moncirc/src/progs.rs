//! Workloads: halting programs with their records.
use monlib::refvm::{enc, Seg, Tapes, R, W};
use monlib::Rng;
use mozak_runner::elf::Program;
use mozak_runner::vm::{step, ExecutionRecord};

use crate::gen;
use crate::lockstep::{boot, describe, Case};
use crate::sys::F;

pub struct Run {
    pub program: Program,
    pub record: ExecutionRecord<F>,
    pub case: Case,
}

/// Runs a case to its halt on the real machine.
pub fn run(c: &Case) -> Result<Run, String> {
    let (program, state, _) = boot(c).map_err(|(s, d)| format!("{s}: {d}"))?;
    if !halts(c, 20_000) {
        return Err("does not halt, or fails".into());
    }
    match monlib::guard(|| step(&program, state)) {
        Ok(Ok(record)) => Ok(Run { program, record, case: c.clone() }),
        Ok(Err(e)) => Err(format!("step: {e}")),
        Err(p) => Err(format!("panic: {p}")),
    }
}

/// Does the case halt within `n` steps?
pub fn halts(c: &Case, n: usize) -> bool {
    monlib::guard(|| {
        let Ok((program, mut state, _)) = boot(c) else { return false };
        for _ in 0..n {
            if state.has_halted() {
                return true;
            }
            match state.execute_instruction(&program) {
                Ok((_, _, s)) => state = s,
                Err(_) => return false,
            }
        }
        false
    })
    .unwrap_or(false)
}

pub fn show(c: &Case) -> String { describe(c) }

pub fn code(w: Vec<u32>, regs: Vec<(u8, u32)>) -> Case {
    let mut w = w;
    gen::halt(&mut w);
    let data = Seg { p_type: 1, flags: R | W, vaddr: DATA, memsz: 64, data: (0..32).map(|i| (i * 37 + 5) as u8).collect() };
    Case { entry: 0x1000, segs: vec![gen::code_seg(0x1000, &w), data], regs, tapes: Tapes::default(), max_steps: 5000 }
}

pub const DATA: u32 = 0x0040_0000;

/// Register-register operations: (funct7, funct3).
pub const RR: [(u32, u32); 18] = [
    (0, 0), (0x20, 0), (0, 1), (0, 2), (0, 3), (0, 4), (0, 5), (0x20, 5), (0, 6), (0, 7),
    (1, 0), (1, 1), (1, 2), (1, 3), (1, 4), (1, 5), (1, 6), (1, 7),
];

pub const EDGE: [u32; 30] = [
    0, 1, 2, 3, 5, 7, 29, 30, 31, 32, 33, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x1_0000, 0x7fff_fffe, 0x7fff_ffff, 0x8000_0000,
    0x8000_0001, 0xffff_0000, 0xffff_7fff, 0xffff_ff80, 0xffff_ffe1, 0xffff_fffd, 0xffff_fffe, 0xffff_ffff,
];

/// One operation on operands held in x6/x7 and, with `all`, the same on aliased registers.
pub fn edge_program(r: &mut Rng) -> Case {
    let mut regs: Vec<(u8, u32)> = (1..32).map(|i| (i as u8, if r.chance(4, 5) { *r.pick(&EDGE) } else { r.u64() as u32 })).collect();
    regs.retain(|x| x.0 != 31);
    let mut w = vec![];
    for _ in 0..6 + r.idx(24) {
        let (rd, a, b) = (r.below(32) as u32, r.below(31) as u32, r.below(31) as u32);
        match r.below(10) {
            0..=5 => {
                let (f7, f3) = *r.pick(&RR);
                w.push(enc::r(f7, b, a, f3, if r.chance(1, 2) { 31 } else { rd }, 0x33));
            }
            6 => w.push(gen::alu(r)),
            7 => w.push(enc::b(8, b, a, *r.pick(&[0, 1, 4, 5, 6, 7]))),
            8 => {
                let f3 = *r.pick(&[0u32, 1, 2]);
                w.push(enc::s(r.below(4096) as i32 - 2048, b, 31, f3));
                w.push(enc::i(r.below(4096) as i32 - 2048, 31, *r.pick(&[0, 1, 2, 4, 5]), rd, 3));
            }
            _ => {
                // a memory round trip in the data segment
                gen::li(&mut w, 31, DATA + r.below(60) as u32);
                w.push(enc::s(0, b, 31, *r.pick(&[0, 1, 2])));
                w.push(enc::i(0, 31, *r.pick(&[0, 1, 2, 4, 5]), rd, 3));
            }
        }
    }
    // a branch over the last word must still reach the halt
    w.push(enc::i(0, 0, 0, 0, 0x13));
    code(w, regs)
}

/// A program around system calls.
pub fn ecall_program(r: &mut Rng) -> Case {
    let mut w = vec![];
    let mut long = 0;
    for _ in 0..1 + r.idx(5) {
        match r.below(6) {
            0 | 1 => {
                let len = 8 * r.below(9) as u32;
                let p = DATA + r.below(64) as u32;
                let o = if r.chance(1, 3) { p.wrapping_add(r.below(32) as u32) } else { DATA + 128 + r.below(64) as u32 };
                gen::ecall(&mut w, [3, p, len, o]);
            }
            2 => w.push(gen::alu(r)),
            3 => {
                let d = r.below(48) as u32;
                gen::li(&mut w, 31, DATA + d);
                w.push(enc::i(0, 31, *r.pick(&[0, 1, 2, 4, 5]), 5 + r.below(5) as u32, 3));
            }
            _ => {
                let id = *r.pick(&[2u32, 4, 5, 6, 7, 8, 9]);
                let n = *r.pick(&[0u32, 1, 2, 3, 7, 8, 31, 32, 33, 60]);
                let n = if long > 2 { n.min(8) } else { n };
                long += u32::from(n > 8);
                let p = *r.pick(&[DATA, DATA + 3, 0x0050_0000, 0xffff_ffff - 64, 0]);
                // address zero holds no code in these programs
                gen::ecall(&mut w, [id, p, n, 0]);
            }
        }
    }
    let mut c = code(w, vec![]);
    c.tapes = gen::tapes(r, 100);
    c
}

/// Programs whose traces are small: for mutation and proof monitors.
pub fn tiny(r: &mut Rng) -> Case {
    match r.below(3) {
        0 => {
            let mut w = vec![];
            let regs: Vec<(u8, u32)> = (1..32).map(|i| (i as u8, *r.pick(&EDGE))).collect();
            for _ in 0..1 + r.idx(5) {
                let (f7, f3) = *r.pick(&RR);
                w.push(enc::r(f7, r.below(32) as u32, r.below(32) as u32, f3, r.below(32) as u32, 0x33));
            }
            code(w, regs)
        }
        1 => edge_program(r),
        _ => ecall_program(r),
    }
}

/// Does the record use a feature with a recorded finding?  Such runs are judged by the directed cases.
pub fn excluded(run: &Run) -> Option<&'static str> {
    for row in &run.record.executed {
        if row.instruction.op == mozak_runner::instruction::Op::ECALL {
            let a0 = row.state.registers[10];
            if a0 == 1 || a0 > 9 {
                return Some("ecall-without-selector");
            }
            if (a0 == 7 || a0 == 8) && row.state.registers[12] < 32 {
                return Some("commitment-partial-read");
            }
            if a0 == 3 && row.state.registers[12] % 8 != 0 {
                return Some("poseidon2-unaligned");
            }
        }
    }
    None
}

/// Corner cases by name.
pub fn directed() -> Vec<(String, Case)> {
    let mut v: Vec<(String, Case)> = vec![];
    // every arithmetic operation on every pair of edge operands
    let edges: Vec<u32> = EDGE.iter().copied().chain((2..40).map(|k: u32| k.wrapping_neg())).collect();
    for (f7, f3) in RR {
        for (i, a) in edges.iter().enumerate() {
            // x1 = a; the others are the second operand, in groups
            for (g, bs) in edges.chunks(29).enumerate() {
                let mut regs = vec![(1u8, *a)];
                let mut w = vec![];
                for (k, b) in bs.iter().enumerate() {
                    regs.push((2 + k as u8, *b));
                    w.push(enc::r(f7, 2 + k as u32, 1, f3, 31, 0x33));
                }
                let _ = i;
                v.push((format!("op-{f7:x}-{f3}/{a:#x}/{g}"), code(w, regs)));
            }
        }
    }
    for f3 in [0u32, 1, 4, 5, 6, 7] {
        for a in EDGE {
            let mut regs = vec![(1u8, a)];
            let mut w = vec![];
            for (k, b) in EDGE.iter().take(29).enumerate() {
                regs.push((2 + k as u8, *b));
                w.push(enc::b(4, 2 + k as u32, 1, f3));
                w.push(enc::b(4, 1, 2 + k as u32, f3));
            }
            v.push((format!("branch-{f3}/{a:#x}"), code(w, regs)));
        }
    }
    let one = |name: &str, w: Vec<u32>, regs: Vec<(u8, u32)>| (name.to_string(), code(w, regs));
    for f3 in [0u32, 1, 2, 4, 5] {
        for (n, base, imm) in [("wrap-up", u32::MAX, 5), ("wrap-down", 0x8, -16), ("end", u32::MAX - 4, 0), ("cross", u32::MAX, 0), ("zero", 0, 0)] {
            v.push(one(&format!("load-{f3}-{n}"), vec![enc::i(imm, 1, f3, 2, 3)], vec![(1, base)]));
            if f3 < 3 {
                for x in [0x80u32, 0xffff_ffff, 0x1234_8765] {
                    v.push(one(&format!("store-{f3}-{n}-{x:x}"), vec![enc::s(imm, 2, 1, f3), enc::i(imm, 1, f3, 3, 3)], vec![(1, base), (2, x)]));
                }
            }
        }
    }
    v.push(one("halt-only", vec![], vec![]));
    v.push(one("jalr-wrap", vec![enc::i(0x7ff, 1, 0, 2, 0x67), enc::i(1, 1, 0, 3, 0x13)], vec![(1, 0x1004u32.wrapping_sub(0x7ff))]));
    v.push(one("jalr-odd", vec![enc::i(1, 1, 0, 2, 0x67), enc::i(1, 1, 0, 3, 0x13)], vec![(1, 0x1004)]));
    v.push(one("jalr-same", vec![enc::i(0, 1, 0, 1, 0x67), enc::i(1, 1, 0, 3, 0x13)], vec![(1, 0x1004)]));
    v.push(one("auipc-wrap", vec![enc::u(0xffff_f000, 2, 0x17)], vec![]));
    v.push(one("fence", vec![0x0ff0_000f, 0x0010_0073], vec![]));
    let mut w = vec![];
    gen::ecall(&mut w, [3, DATA, 64, DATA]);
    v.push(one("poseidon-in-place", w, vec![]));
    let mut w = vec![];
    gen::ecall(&mut w, [3, DATA, 8, u32::MAX - 31]);
    v.push(one("poseidon-output-at-end", w, vec![]));
    let mut w = vec![];
    gen::ecall(&mut w, [3, u32::MAX - 7, 8, DATA]);
    v.push(one("poseidon-input-at-end", w, vec![]));
    let mut w = vec![];
    gen::ecall(&mut w, [3, u32::MAX - 3, 16, DATA]);
    v.push(one("poseidon-input-wrap", w, vec![]));
    let mut w = vec![];
    gen::ecall(&mut w, [3, DATA, 8, u32::MAX - 15]);
    v.push(one("poseidon-output-wrap", w, vec![]));
    let mut w = vec![];
    gen::ecall(&mut w, [3, DATA, 12, DATA + 128]);
    v.push(one("poseidon-unaligned", w, vec![]));
    for (name, id) in [("ecall-without-selector", 10u32), ("ecall-without-selector", 11), ("ecall-without-selector", u32::MAX)] {
        let mut w = vec![];
        gen::ecall(&mut w, [id, DATA, 0, 0]);
        v.push(one(name, w, vec![]));
    }
    let mut r = Rng::new(7);
    let tapes = gen::tapes(&mut r, 90);
    for id in [2u32, 4, 5, 6, 7, 8, 9] {
        for (a, la) in [(DATA, 0u32), (DATA, 1), (DATA, 2), (DATA, 32), (DATA, 33), (u32::MAX - 31, 32), (u32::MAX - 9, 32)] {
            for lb in [0u32, 1, 2, 31, 32] {
                let mut w = vec![];
                gen::ecall(&mut w, [id, a, la, 0]);
                gen::ecall(&mut w, [id, DATA + 64, lb, 0]);
                let mut c = code(w, vec![]);
                c.tapes = tapes.clone();
                let partial = (id == 7 || id == 8) && (la < 32 || lb < 32);
                v.push((if partial { format!("commitment-partial-read/{la}/{lb}") } else { format!("tape-{id}-{a:x}-{la}-{lb}") }, c));
            }
        }
    }
    v
}
