//! Program generators.
use monlib::refvm::{enc, Seg, Tapes, R, W, X};
use monlib::Rng;

use crate::lockstep::Case;

pub fn words(w: &[u32]) -> Vec<u8> { w.iter().flat_map(|x| x.to_le_bytes()).collect() }

pub fn code_seg(base: u32, w: &[u32]) -> Seg {
    let data = words(w);
    Seg { p_type: 1, flags: R | X, vaddr: base, memsz: data.len() as u32, data }
}

pub fn li(v: &mut Vec<u32>, rd: u32, x: u32) { v.extend(enc::li(rd, x)); }

pub fn ecall(v: &mut Vec<u32>, a: [u32; 4]) {
    for (i, x) in a.iter().enumerate() {
        li(v, 10 + i as u32, *x);
    }
    v.push(enc::ECALL);
}

pub fn halt(v: &mut Vec<u32>) {
    li(v, 10, 0);
    v.push(enc::ECALL);
}

fn reg(r: &mut Rng) -> u32 {
    match r.below(4) {
        0 => r.below(32) as u32,
        1 => 0,
        _ => 5 + r.below(6) as u32,
    }
}

/// A register-to-register or register-immediate computation.
pub fn alu(r: &mut Rng) -> u32 {
    let (rd, a, b) = (reg(r), reg(r), reg(r));
    match r.below(10) {
        0..=3 => {
            let f7 = *r.pick(&[0u32, 0, 0x20, 1, 1]);
            let f3 = if f7 == 0x20 { *r.pick(&[0, 5]) } else { r.below(8) as u32 };
            enc::r(f7, b, a, f3, rd, 0x33)
        }
        4..=6 => {
            let f3 = *r.pick(&[0u32, 2, 3, 4, 6, 7]);
            let imm = if r.chance(1, 3) { *r.pick(&[0, 1, -1, 2047, -2048, 31, 32, -4]) } else { r.below(4096) as i32 - 2048 };
            enc::i(imm, a, f3, rd, 0x13)
        }
        7 => enc::r(*r.pick(&[0, 0x20]), r.below(32) as u32, a, 5, rd, 0x13),
        8 => enc::r(0, r.below(32) as u32, a, 1, rd, 0x13),
        _ => enc::u(r.edge32(), rd, *r.pick(&[0x37, 0x17])),
    }
}

pub fn system_nop(r: &mut Rng) -> u32 {
    match r.below(4) {
        0 => 0x0ff0_000f,
        1 => 0x0010_0073,
        2 => 0x3020_0073,
        _ => enc::i(r.below(4096) as i32, reg(r), *r.pick(&[1, 2, 5]), reg(r), 0x73),
    }
}

pub fn mem_op(r: &mut Rng, base: u32) -> u32 {
    let imm = if r.chance(1, 2) { r.below(24) as i32 - 8 } else { r.below(4096) as i32 - 2048 };
    if r.chance(1, 2) {
        enc::i(imm, base, *r.pick(&[0, 1, 2, 4, 5]), reg(r), 0x03)
    } else {
        enc::s(imm, reg(r), base, *r.pick(&[0, 1, 2]))
    }
}

pub const BASES: [u32; 7] = [0, 0x1000, 0x0002_0000, 0x7fff_ff00, 0x8000_0000, 0xffff_f000, 0xffff_fe00];

/// A free-running program: any control flow, bounded by the step limit.
pub fn free(r: &mut Rng) -> Case {
    let base = *r.pick(&BASES);
    let n = 4 + r.idx(60);
    let data = 0x0040_0000 + (r.below(1 << 12) as u32);
    let wrap = r.chance(1, 4);
    let n = if base == 0xffff_fe00 { n.min(100) } else { n };
    let mut w = vec![];
    // x28/x29 hold data pointers, x30 an address inside the code, x31 an arbitrary address
    let mut regs: Vec<(u8, u32)> = (1..32).map(|i| (i as u8, r.edge32())).collect();
    regs.push((28, data));
    regs.push((29, if wrap { 0xffff_ffff - r.below(8) as u32 } else { data + r.below(64) as u32 }));
    let code_at = |k: usize| base.wrapping_add(4 * k as u32);
    for k in 0..n {
        let x = match r.below(20) {
            0..=10 => alu(r),
            11..=13 => { let b = *r.pick(&[28, 28, 29, 31]); mem_op(r, b) }
            14..=16 => {
                let t = r.idx(n);
                let off = code_at(t).wrapping_sub(code_at(k)) as i32;
                enc::b(off, reg(r), reg(r), *r.pick(&[0, 1, 4, 5, 6, 7]))
            }
            17 => {
                let t = if r.chance(1, 8) { r.idx(n) } else { k + 1 + r.idx(n - k) };
                enc::j(code_at(t).wrapping_sub(code_at(k)) as i32, *r.pick(&[0, 1, 5]))
            }
            18 => {
                // jalr through x30 which points to the code base; the low bit must be dropped
                let t = r.idx(n) as i32 * 4 + i32::from(r.chance(1, 3));
                enc::i(t, 30, 0, *r.pick(&[0, 1, 30, 6]), 0x67)
            }
            _ => system_nop(r),
        };
        w.push(x);
    }
    halt(&mut w);
    regs.push((30, base));
    let mut segs = vec![code_seg(base, &w)];
    let dn = 64 + r.idx(64);
    segs.push(Seg { p_type: 1, flags: R | W, vaddr: data & !63, memsz: 256, data: r.bytes(dn) });
    Case { entry: base, segs, regs, tapes: Tapes::default(), max_steps: 400 }
}

/// One instruction on chosen operands.
pub fn single(word: u32, a: (u8, u32), b: (u8, u32), pc: u32) -> Case {
    let mut w = vec![word];
    halt(&mut w);
    Case { entry: pc, segs: vec![code_seg(pc, &w)], regs: vec![a, b], tapes: Tapes::default(), max_steps: 2 }
}

/// A halting program mixing everything, including system calls.
pub fn halting(r: &mut Rng) -> Case {
    let base = *r.pick(&[0u32, 0x1000, 0x8000_0000]);
    let data = 0x0040_0000u32;
    let mut w: Vec<u32> = vec![];
    let blocks = 1 + r.idx(6);
    li(&mut w, 28, data + r.below(32) as u32);
    li(&mut w, 29, 0xffff_fff0 + r.below(16) as u32);
    for _ in 0..blocks {
        match r.below(8) {
            0..=2 => {
                for _ in 0..r.idx(10) {
                    let x = alu(r);
                    // keep the pointers and the loop counter
                    if ![27, 28, 29].contains(&((x >> 7) & 31)) {
                        w.push(x);
                    }
                }
            }
            3 => {
                for _ in 0..r.idx(8) {
                    let b = *r.pick(&[28, 29]);
                    let x = mem_op(r, b);
                    if x & 0x7f == 0x23 || ![27, 28, 29].contains(&((x >> 7) & 31)) {
                        w.push(x);
                    }
                }
            }
            4 => {
                // counted loop
                let n = 1 + r.below(5) as u32;
                li(&mut w, 27, n);
                let top = w.len();
                for _ in 0..1 + r.idx(4) {
                    let x = alu(r);
                    if ![27, 28, 29].contains(&((x >> 7) & 31)) {
                        w.push(x);
                    }
                }
                w.push(enc::i(-1, 27, 0, 27, 0x13));
                let off = (top as i32 - w.len() as i32) * 4;
                w.push(enc::b(off, 0, 27, 1));
            }
            5 => {
                // forward branch or jump over a few instructions
                let skip = 1 + r.idx(3) as i32;
                w.push(if r.chance(1, 2) { enc::b(4 * (skip + 1), reg(r), reg(r), *r.pick(&[0, 1, 4, 5, 6, 7])) } else { enc::j(4 * (skip + 1), *r.pick(&[0, 1, 6])) });
                for _ in 0..skip {
                    w.push(enc::i(r.below(100) as i32, 5, 0, 5, 0x13));
                }
            }
            6 => {
                let len = *r.pick(&[0u32, 1, 3, 4, 8, 31, 32, 33, 100]);
                let code = *r.pick(&[2u32, 4, 5, 6, 7, 8, 9]);
                let p = *r.pick(&[data + 64, data + 65, 0xffff_fff8, 0x0050_0000]);
                ecall(&mut w, [code, p, len, 0]);
            }
            _ => match r.below(3) {
                0 => {
                    let len = 8 * (1 + r.below(6)) as u32;
                    let p = data + r.below(64) as u32;
                    let o = if r.chance(1, 2) { data + 128 + r.below(64) as u32 } else { p.wrapping_add(r.below(u64::from(len) + 32) as u32).wrapping_sub(32) };
                    ecall(&mut w, [3, p, len, o]);
                }
                1 => ecall(&mut w, [*r.pick(&[10u32, 11, 12, 99, 0x8000_0000, u32::MAX]), data, 0, 0]),
                _ => w.push(system_nop(r)),
            },
        }
    }
    halt(&mut w);
    let mut regs: Vec<(u8, u32)> = (1..32).map(|i| (i as u8, r.edge32())).collect();
    if r.chance(1, 3) {
        regs.clear();
    }
    let tapes = tapes(r, 120);
    let dn = r.idx(200);
    Case {
        entry: base,
        segs: vec![code_seg(base, &w), Seg { p_type: 1, flags: R | W, vaddr: data, memsz: 256, data: r.bytes(dn) }],
        regs,
        tapes,
        max_steps: 5000,
    }
}

pub fn tapes(r: &mut Rng, max: usize) -> Tapes {
    Tapes { seq: core::array::from_fn(|_| { let n = r.idx(max); r.bytes(n) }), fixed: core::array::from_fn(|_| r.arr()) }
}
