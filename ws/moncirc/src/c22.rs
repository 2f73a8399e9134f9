//! Cheating provers: wrong executions, changed cells, changed rows, each followed by a search for further
//! changes that make the whole constraint system hold again.
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

use mozak_circuits::cpu::columns::CpuState;
use mozak_circuits::ops::add::columns::Add;
use mozak_circuits::ops::blt_taken::columns::BltTaken;
use mozak_circuits::register::general::columns::Register;
use mozak_circuits::stark::mozak_stark::TableKind as K;
use mozak_circuits::storage_device::columns::StorageDevice;
use mozak_circuits::public_sub_table::PublicSubTable;
use mozak_circuits::tape_commitments::columns::{make_event_commitment_tape_public, TapeCommitments};
use mozak_runner::elf::Program;
use mozak_runner::instruction::Op;
use mozak_runner::state::State;
use mozak_runner::vm::{ExecutionRecord, Row};
use monlib::refvm::{enc, Seg, Tapes, R, W};
use monlib::{guard, Mon, Rng};
use plonky2::field::types::Field;

use crate::gen;
use crate::lockstep::{boot, Case};
use crate::progs::{self, Run, DATA, EDGE, RR};
use crate::spec;
use crate::sys::{self, tabs, u, Traces, F};
use crate::world::{index, Cell, World};

// ---- programs: registers and memory set up by the machine's start, then what is attacked, then a halt ----

/// x10 is 0, so that a lone `ecall` halts.
fn short(w: Vec<u32>, regs: Vec<(u8, u32)>, tapes: Tapes) -> Case {
    let mut w = w;
    w.push(0x73);
    let data = Seg { p_type: 1, flags: R | W, vaddr: DATA, memsz: 16, data: vec![0x80, 0x7f, 0xff, 0x01, 0xfe, 0x80, 0, 5] };
    let fixed = Seg { p_type: 1, flags: R, vaddr: FIXED, memsz: 16, data: vec![3, 0x81, 0xff, 0x7f, 0, 0x80, 9] };
    Case { entry: 0x1000, segs: vec![gen::code_seg(0x1000, &w), data, fixed], regs, tapes, max_steps: 200 }
}

/// Memory that may not be written.
const FIXED: u32 = DATA + 0x200;

fn val(r: &mut Rng) -> u32 { if r.chance(3, 4) { *r.pick(&EDGE) } else { r.u64() as u32 } }

/// The program and the step to attack.
fn program(r: &mut Rng) -> (Case, usize) {
    let (a, b) = (val(r), if r.chance(1, 5) { 0 } else { val(r) });
    let regs = vec![(6, a), (7, b), (5, val(r))];
    let rd = if r.chance(1, 12) { 0 } else if r.chance(1, 8) { 6 } else { 5 };
    match r.below(12) {
        0..=4 => {
            let (f7, f3) = *r.pick(&RR);
            let (x, y) = if r.chance(1, 10) { (6, 6) } else { (7, 6) };
            (short(vec![enc::r(f7, x, y, f3, rd, 0x33)], regs, Tapes::default()), 0)
        }
        5 => {
            // immediates
            let f3 = *r.pick(&[0u32, 2, 3, 4, 6, 7]);
            (short(vec![enc::i(r.below(4096) as i32 - 2048, 6, f3, rd, 0x13)], regs, Tapes::default()), 0)
        }
        6 => {
            // branches: both ways end in a halt
            let f3 = *r.pick(&[0u32, 1, 4, 5, 6, 7]);
            (short(vec![enc::b(8, 7, 6, f3), 0x73], regs, Tapes::default()), 0)
        }
        7 => {
            let w = if r.chance(1, 2) { vec![enc::j(8, rd), 0x73] } else { vec![enc::i(0, 6, 0, rd, 0x67), 0x73] };
            let mut regs = regs;
            regs[0].1 = 0x1000 + 4 + 4 * r.below(2) as u32;
            (short(w, regs, Tapes::default()), 0)
        }
        8 | 9 => {
            // memory
            let p = DATA + r.below(9) as u32;
            let mut regs = regs;
            regs[0].1 = p;
            let ld = enc::i(0, 6, *r.pick(&[0, 1, 2, 4, 5]), if rd == 6 { 5 } else { rd }, 3);
            match r.below(3) {
                0 => (short(vec![ld], regs, Tapes::default()), 0),
                _ => (short(vec![enc::s(0, 7, 6, *r.pick(&[0, 1, 2])), ld], regs, Tapes::default()), r.idx(2)),
            }
        }
        10 => {
            // tapes
            let id = *r.pick(&[2u32, 4, 5, 6, 7, 8, 9]);
            let n = if id >= 7 { 32 } else { r.below(6) as u32 };
            let t = Tapes { seq: std::array::from_fn(|_| r.bytes(3)), fixed: std::array::from_fn(|_| std::array::from_fn(|_| r.u8())) };
            let n = if id >= 7 && r.chance(1, 6) { 30 + r.below(5) as u32 } else { n };
            let twice = r.chance(1, 3);
            (short(if twice { vec![0x73, 0x73, enc::i(0, 0, 0, 10, 0x13)] } else { vec![0x73, enc::i(0, 0, 0, 10, 0x13)] }, vec![(10, id), (11, DATA), (12, n)], t), r.idx(1 + twice as usize))
        }
        _ => {
            let n = 8 * (1 + r.below(2) as u32);
            (short(vec![0x73, enc::i(0, 0, 0, 10, 0x13)], vec![(10, 3), (11, DATA), (12, n), (13, DATA + 32)], Tapes::default()), 0)
        }
    }
}

// ---- wrong executions ----

fn other(r: &mut Rng, v: u32, also: &[u32]) -> u32 {
    match r.below(9) {
        0 => v.wrapping_add(1),
        1 => v.wrapping_sub(1),
        2 => v ^ (1 << r.below(32)),
        3 => v.wrapping_neg(),
        4 => !v,
        5 => v ^ 0x8000_0000,
        6 if !also.is_empty() => *r.pick(also),
        7 => *r.pick(&EDGE),
        _ => v ^ 0xffff_ff00,
    }
}

/// Continues the machine from `st` (at most 50 steps), collecting rows.
fn go(program: &Program, mut st: State<F>, rows: &mut Vec<Row<F>>) -> Option<State<F>> {
    for _ in 0..50 {
        if st.has_halted() {
            return Some(st);
        }
        let (aux, instruction, next) = st.clone().execute_instruction(program).ok()?;
        rows.push(Row { state: st, instruction, aux });
        st = next;
    }
    None
}

/// A record in which step `k` went wrong; the kind of wrong.
fn evil(run: &Run, k: usize, r: &mut Rng) -> Option<(ExecutionRecord<F>, &'static str)> {
    let p = &run.program;
    let mut rows: Vec<Row<F>> = vec![];
    let (_, mut st, _) = boot(&run.case).ok()?;
    // what the program writes goes to memory that may not be written
    let attacked = run.record.executed.get(k)?;
    let writes = match attacked.instruction.op {
        Op::SB | Op::SH | Op::SW => Some(attacked.instruction.args.rs2),
        Op::ECALL if attacked.aux.poseidon2.is_some() => Some(13),
        Op::ECALL if attacked.aux.storage_device_entry.is_some() => Some(11),
        _ => None,
    };
    if let Some(x) = writes.filter(|&x| x != 0 && r.chance(1, 4)) {
        let mut c = run.case.clone();
        c.regs.retain(|y| y.0 != x);
        c.regs.push((x, FIXED + r.below(12) as u32));
        let (_, mut st, _) = boot(&c).ok()?;
        st.memory.is_read_only.clear();
        let last = go(p, st, &mut rows)?;
        return Some((ExecutionRecord { executed: rows, last_state: last }, "read-only-store"));
    }
    for _ in 0..k {
        let (aux, instruction, next) = st.clone().execute_instruction(p).ok()?;
        rows.push(Row { state: st, instruction, aux });
        st = next;
    }
    let (mut aux, inst, mut next) = st.clone().execute_instruction(p).ok()?;
    let op = inst.op;
    let start = boot(&run.case).ok()?.1;
    // what memory held at the start: a stale value
    let stale = aux.mem.map_or(0, |m| (0..4).map(|j| u32::from(start.load_u8(m.addr.wrapping_add(j))) << (8 * j)).sum());
    let also = [aux.op1, aux.op2, aux.op2_raw, aux.dst_val, st.registers[inst.args.rd as usize], stale, stale];
    let store = matches!(op, Op::SB | Op::SH | Op::SW);
    let load = matches!(op, Op::LB | Op::LBU | Op::LH | Op::LHU | Op::LW);
    let width = match op {
        Op::SB | Op::LB | Op::LBU => 1u32,
        Op::SH | Op::LH | Op::LHU => 2,
        _ => 4,
    };
    let mut choices = vec!["operand", "clock"];
    if inst.args.rd != 0 {
        choices.extend(["result", "result"]);
    }
    if op != Op::ECALL {
        choices.extend(["jump", "other-operation", "other-operation"]);
    }
    if matches!(op, Op::BEQ | Op::BNE | Op::BLT | Op::BLTU | Op::BGE | Op::BGEU | Op::JALR) {
        choices.extend(["jump", "jump", "jump"]);
    }
    if store || load {
        choices.extend(["memory-value", "memory-value", "memory-address"]);
    }
    if aux.poseidon2.is_some() {
        choices.extend(["hash-output", "hash-output", "hash-input"]);
    }
    if aux.storage_device_entry.is_some() {
        choices.extend(["tape-address", "tape-length", "tape-length"]);
    }
    let kind = *r.pick(&choices);
    match kind {
        "result" => {
            let v = other(r, aux.dst_val, &also);
            if v == aux.dst_val {
                return None;
            }
            aux.dst_val = v;
            next.registers[inst.args.rd as usize] = v;
        }
        "jump" => {
            let t = 0x1000 + 4 * r.below(p.ro_code.len() as u64) as u32;
            if t == aux.new_pc {
                return None;
            }
            aux.new_pc = t;
            next.pc = t;
            next.halted = false;
        }
        "memory-value" => {
            let m = aux.mem.as_mut()?;
            let v = other(r, m.raw_value, &also) & if width == 4 { u32::MAX } else { (1 << (8 * width)) - 1 };
            if v == m.raw_value {
                return None;
            }
            let (addr, old) = (m.addr, m.raw_value);
            m.raw_value = v;
            if store {
                if r.chance(1, 2) {
                    aux.dst_val = v;
                }
                for j in 0..width {
                    next.memory.data.insert(addr.wrapping_add(j), (v >> (8 * j)) as u8);
                }
            } else {
                let s = 32 - 8 * width;
                aux.dst_val = match op {
                    Op::LB | Op::LH => (((v << s) as i32) >> s) as u32,
                    _ => v,
                };
                let _ = old;
                if inst.args.rd != 0 {
                    next.registers[inst.args.rd as usize] = aux.dst_val;
                }
            }
        }
        "memory-address" => {
            // the same operation at another place
            let d = *r.pick(&[1u32, 2, 4, u32::MAX, 8]);
            let rs = if load || store { inst.args.rs2 } else { return None };
            let mut s2 = st.clone();
            if rs == 0 {
                return None;
            }
            s2.registers[rs as usize] = s2.registers[rs as usize].wrapping_add(d);
            let (mut a2, _, mut n2) = s2.execute_instruction(p).ok()?;
            a2.op1 = aux.op1;
            a2.op2 = aux.op2;
            a2.op2_raw = aux.op2_raw;
            if !(load && inst.args.rd == rs) {
                n2.registers[rs as usize] = st.registers[rs as usize];
            }
            aux = a2;
            next = n2;
        }
        "operand" => {
            // a stale or foreign register value, for this step only
            let rs = if r.chance(1, 2) { inst.args.rs1 } else { inst.args.rs2 };
            let v = other(r, st.registers[rs as usize], &also);
            let mut s2 = st.clone();
            s2.registers[rs as usize] = v;
            let (a2, _, mut n2) = s2.clone().execute_instruction(p).ok()?;
            if inst.args.rd != rs {
                n2.registers[rs as usize] = st.registers[rs as usize];
            }
            aux = a2;
            next = n2;
            st = s2;
        }
        "clock" => {
            if r.chance(1, 2) {
                next.clk += 1;
            } else {
                next.clk = next.clk.checked_sub(1)?;
            }
        }
        "hash-output" => {
            let e = aux.poseidon2.as_mut()?;
            let j = r.idx(32);
            let addr = st.registers[13].wrapping_add(j as u32);
            let v = next.memory.data.get(&addr).copied().unwrap_or(0) ^ (1 << r.below(8));
            next.memory.data.insert(addr, v);
            // the last sponge state carries the bytes
            let n = e.sponge_data.len();
            let limb = u(e.sponge_data[n - 1].output[j / 8]);
            let mut b = limb.to_le_bytes();
            b[j % 8] = v;
            e.sponge_data[n - 1].output[j / 8] = F::from_noncanonical_u64(u64::from_le_bytes(b));
        }
        "hash-input" => {
            let mut s2 = st.clone();
            let a = s2.registers[11].wrapping_add(r.below(8) as u32);
            let v = s2.memory.data.get(&a).copied().unwrap_or(0);
            s2.memory.data.insert(a, v ^ 1);
            let (a2, _, mut n2) = s2.execute_instruction(p).ok()?;
            if !(0..32).any(|j| st.registers[13].wrapping_add(j) == a) {
                n2.memory.data.insert(a, v);
            }
            aux = a2;
            next = n2;
        }
        "tape-address" => {
            let e = aux.storage_device_entry.as_mut()?;
            e.addr = e.addr.wrapping_add(*r.pick(&[1, 4, u32::MAX]));
            for (j, b) in e.data.iter().enumerate() {
                next.memory.data.insert(e.addr.wrapping_add(j as u32), *b);
            }
        }
        "tape-length" => {
            let e = aux.storage_device_entry.as_mut()?;
            if r.chance(1, 2) {
                e.data.pop()?;
            } else {
                let j = e.data.len() as u32;
                e.data.push(7);
                next.memory.data.insert(e.addr.wrapping_add(j), 7);
            }
        }
        "other-operation" => {
            // the step executes another instruction of the same place
            let mut p2 = p.clone();
            let mut i2 = inst;
            match r.below(6) {
                0 => i2.args.rd = r.below(8) as u8,
                1 => i2.args.rs1 = *r.pick(&[0, 5, 6, 7]),
                2 => i2.args.rs2 = *r.pick(&[0, 5, 6, 7]),
                3 => i2.args.imm = i2.args.imm.wrapping_add(*r.pick(&[1, 4, 8, u32::MAX])),
                _ => i2.op = *r.pick(&OPS),
            }
            if i2 == inst {
                return None;
            }
            p2.ro_code.0.insert(st.pc, Ok(i2));
            let (a2, i2, n2) = st.clone().execute_instruction(&p2).ok()?;
            rows.push(Row { state: st, instruction: i2, aux: a2 });
            let last = go(p, n2, &mut rows)?;
            return Some((ExecutionRecord { executed: rows, last_state: last }, kind));
        }
        _ => unreachable!(),
    }
    rows.push(Row { state: st, instruction: inst, aux });
    let last = go(p, next, &mut rows)?;
    Some((ExecutionRecord { executed: rows, last_state: last }, kind))
}

const OPS: [Op; 34] = [
    Op::ADD, Op::SUB, Op::SRL, Op::SRA, Op::SLL, Op::SLT, Op::SLTU, Op::LB, Op::LH, Op::LW, Op::LBU, Op::LHU, Op::XOR, Op::JALR, Op::BEQ, Op::BNE,
    Op::BLT, Op::BLTU, Op::BGE, Op::BGEU, Op::AND, Op::OR, Op::SW, Op::SH, Op::SB, Op::MUL, Op::MULH, Op::MULHU, Op::MULHSU, Op::DIV, Op::DIVU,
    Op::REM, Op::REMU, Op::ADD,
];

// ---- what may be claimed ----

fn rows<X: FromIterator<F>>(tr: &Traces, k: K) -> Vec<X> {
    (0..sys::height(&tr[k])).map(|i| sys::row(&tr[k], i).into_iter().collect()).collect()
}

/// Are the traces those of an honest execution of the program, with whatever private inputs they claim?
/// `Err` tells what is not.
pub fn honest(run: &Run, tr: &Traces) -> Result<(), Vec<(String, String)>> {
    let mut c = run.case.clone();
    let no = |s: &str| Err(vec![(s.to_string(), String::new())]);
    let mut init = BTreeMap::new();
    for x in rows::<Register<F>>(tr, K::Register).into_iter().filter(|x| x.ops.is_init.is_nonzero()) {
        let (a, v) = (u(x.addr), u(x.value));
        if a >= 32 || v >> 32 != 0 {
            return no("register-init-out-of-range");
        }
        if init.insert(a as u8, v as u32).is_some_and(|o| u64::from(o) != v) {
            return no("register-init-twice");
        }
    }
    c.regs = init.into_iter().filter(|x| x.0 != 0).collect();
    let requested: BTreeMap<u64, u64> = rows::<CpuState<F>>(tr, K::Cpu).into_iter().filter(|x| x.inst.ops.ecall.is_nonzero()).map(|x| (u(x.clk), u(x.io_requested))).collect();
    for (i, k) in [K::StorageDevicePrivate, K::StorageDevicePublic, K::CallTape, K::EventTape].into_iter().enumerate() {
        // a tape that gave less than it was asked for has nothing left
        let mut reads: Vec<_> = rows::<StorageDevice<F>>(tr, k).into_iter().filter(|x| x.ops.is_storage_device.is_nonzero()).map(|x| (u(x.clk), u(x.size))).collect();
        reads.sort();
        if let Some(j) = reads.iter().position(|x| requested.get(&x.0).is_some_and(|n| x.1 < *n)) {
            if reads[j + 1..].iter().any(|x| x.1 > 0) {
                return no("short-read-before-more");
            }
        }
        let mut v = vec![];
        let mut t: Vec<_> = rows::<StorageDevice<F>>(tr, k).into_iter().filter(|x| x.ops.is_memory_store.is_nonzero()).collect();
        t.sort_by_key(|x| u(x.clk));
        for x in t {
            match u8::try_from(u(x.value)) {
                Ok(b) => v.push(b),
                Err(_) => return no("tape-byte-out-of-range"),
            }
        }
        c.tapes.seq[i] = v;
    }
    let own: Vec<_> = rows::<StorageDevice<F>>(tr, K::SelfProgIdTape).into_iter().filter(|x| x.ops.is_memory_store.is_nonzero()).collect();
    for (i, x) in own.iter().take(32).enumerate() {
        c.tapes.fixed[2][i] = u(x.value) as u8;
    }
    for (w, b) in public_values(tr).into_iter().enumerate() {
        // pairs of position and value, each with the number of its occurrences
        let b: Vec<[u64; 3]> = b;
        if b.len() != 32 || b.iter().enumerate().any(|(p, x)| x[0] != p as u64 || x[1] > 255 || x[2] != 1) {
            return no("commitment-shape");
        }
        let tape = if commitment_of(w) { 0 } else { 1 };
        for (p, x) in b.iter().enumerate() {
            c.tapes.fixed[tape][p] = x[1] as u8;
        }
    }
    let r2 = match progs::run(&c) {
        Ok(x) => x,
        Err(e) => return Err(vec![("claimed-execution-does-not-halt".into(), e)]),
    };
    let s = spec::spec(&r2).map_err(|e| vec![("claimed-execution-fails".into(), e)])?;
    let v = spec::correspondence(&s, tr);
    if v.is_empty() {
        Ok(())
    } else {
        Err(v)
    }
}

/// What a verifier sees of the traces, for each public sub-table: positions, values and how often they occur
/// there (the argument is about a multiset).
fn public_values(tr: &Traces) -> Vec<Vec<[u64; 3]>> {
    sys::sys()
        .public_sub_tables
        .iter()
        .map(|p| {
            let (kind, cols, filter) = p.table.verif_parts();
            let t = &tr[kind];
            let n = sys::height(t);
            let mut bag: BTreeMap<(u64, u64), F> = BTreeMap::new();
            for i in 0..n {
                let (lv, nv) = (sys::row(t, i), sys::row(t, (i + 1) % n));
                // the last column is the position
                let [v, p] = [0, cols.len() - 1].map(|c| u(sys::col(&cols[c], &lv, &nv)));
                *bag.entry((p, v)).or_insert(F::ZERO) += sys::col(filter, &lv, &nv);
            }
            bag.retain(|_, x| x.is_nonzero());
            bag.into_iter().map(|((p, v), n)| [p, v, u(n)]).collect()
        })
        .collect()
}

/// Is this public sub-table the one of the events?
fn commitment_of(i: usize) -> bool {
    let name = |p: &PublicSubTable| format!("{:?}", p.table.verif_parts());
    name(&sys::sys().public_sub_tables[i]) == name(&make_event_commitment_tape_public())
}

// ---- attacks ----

fn indices<X: FromIterator<usize>>(n: usize) -> X { (0..n).collect() }

/// Columns no repair may touch: what is public, what the program consumes, and what was forged.
fn freeze(w: &mut World, kind: &str) {
    for k in [K::Program, K::ElfMemoryInit, K::RegisterInit] {
        for c in 0..tabs()[index(k)].columns() {
            w.frozen_cols.insert((index(k), c));
        }
    }
    let c: CpuState<usize> = indices(tabs()[index(K::Cpu)].columns());
    let a: Add<usize> = indices(tabs()[index(K::Add)].columns());
    let b: BltTaken<usize> = indices(tabs()[index(K::BltTaken)].columns());
    let mut f = vec![
        (K::Cpu, c.clk), (K::Cpu, c.inst.pc), (K::Cpu, c.op1_value), (K::Cpu, c.op2_value_raw), (K::Cpu, c.dst_value), (K::Cpu, c.new_pc),
        (K::Add, a.clk), (K::Add, a.inst.pc), (K::Add, a.op1_value), (K::Add, a.op2_value), (K::Add, a.dst_value),
        (K::BltTaken, b.clk), (K::BltTaken, b.inst.pc), (K::BltTaken, b.op1_value), (K::BltTaken, b.op2_value),
    ];
    if kind != "other-operation" {
        f.extend(c.inst.ops.into_iter().map(|x| (K::Cpu, x)));
        for i in [c.inst.is_op1_signed, c.inst.is_op2_signed, c.inst.rs1_selected, c.inst.rs2_selected, c.inst.rd_selected, c.inst.imm_value] {
            f.push((K::Cpu, i));
        }
    } else {
        f.extend(c.inst.ops.into_iter().map(|x| (K::Cpu, x)));
    }
    if kind == "memory-value" {
        f.push((K::Cpu, c.mem_value_raw));
    }
    if kind == "memory-address" {
        f.push((K::Cpu, c.mem_addr));
    }
    for (k, i) in f {
        w.frozen_cols.insert((index(k), i));
    }
    let t: TapeCommitments<usize> = indices(tabs()[index(K::TapeCommitments)].columns());
    w.frozen_cols.insert((index(K::TapeCommitments), t.commitment_byte_row.byte));
    w.frozen_cols.insert((index(K::TapeCommitments), t.commitment_byte_row.index));
}

fn public_only(w: &mut World) {
    for k in [K::Program, K::ElfMemoryInit] {
        for c in 0..tabs()[index(k)].columns() {
            w.frozen_cols.insert((index(k), c));
        }
    }
    let t: TapeCommitments<usize> = indices(tabs()[index(K::TapeCommitments)].columns());
    w.frozen_cols.insert((index(K::TapeCommitments), t.commitment_byte_row.byte));
    w.frozen_cols.insert((index(K::TapeCommitments), t.commitment_byte_row.index));
}

/// Two adjacent rows of memory or registers change places.
fn reorder(w: &mut World, r: &mut Rng) {
    let t = index(*r.pick(&[K::Memory, K::Register]));
    let n = w.rows[t].len();
    let cand: Vec<usize> = (0..n - 1).filter(|&i| w.rows[t][i] != w.rows[t][i + 1] && (0..n).any(|j| j != i && w.rows[t][i].iter().zip(&w.rows[t][j]).filter(|(a, b)| a == b).count() > 3)).collect();
    if cand.is_empty() {
        return;
    }
    let i = *r.pick(&cand);
    let ch: Vec<(Cell, F)> = (0..tabs()[t].columns()).flat_map(|c| [((t, i, c), w.rows[t][i + 1][c]), ((t, i + 1, c), w.rows[t][i][c])]).collect();
    w.set(&ch);
}

/// A random alteration of an honest world, and its name.
fn alter(w: &mut World, r: &mut Rng) -> Option<String> {
    // tables with few rows and those with many are equally likely
    let t = loop {
        let t = r.idx(w.rows.len());
        if !matches!(tabs()[t].kind(), K::Program | K::ElfMemoryInit) && !w.rows[t].is_empty() {
            break t;
        }
    };
    let k = tabs()[t].kind();
    let n = w.rows[t].len();
    let i = if r.chance(3, 4) { r.idx(n.min(12)) } else { r.idx(n) };
    let cols = tabs()[t].columns();
    if cols == 0 {
        return None;
    }
    match r.below(8) {
        0 => {
            // a row becomes another row
            let j = r.idx(n);
            if w.rows[t][i] == w.rows[t][j] {
                return None;
            }
            let ch: Vec<(Cell, F)> = (0..cols).map(|c| ((t, i, c), w.rows[t][j][c])).collect();
            w.set(&ch);
            Some(format!("row-copy/{k:?}"))
        }
        1 => {
            let j = r.idx(n);
            if w.rows[t][i] == w.rows[t][j] {
                return None;
            }
            let ch: Vec<(Cell, F)> = (0..cols).flat_map(|c| [((t, i, c), w.rows[t][j][c]), ((t, j, c), w.rows[t][i][c])]).collect();
            w.set(&ch);
            Some(format!("row-swap/{k:?}"))
        }
        2 => {
            // a row is dropped: the later ones move up
            let last = w.rows[t][n - 1].clone();
            let ch: Vec<(Cell, F)> = (i..n).flat_map(|x| (0..cols).map(move |c| (x, c))).map(|(x, c)| ((t, x, c), if x + 1 < n { w.rows[t][x + 1][c] } else { last[c] })).collect();
            w.set(&ch);
            Some(format!("row-drop/{k:?}"))
        }
        3 => {
            // a row is doubled: the later ones move down
            if w.rows[t][n - 1] != w.rows[t][n - 2] && n > 1 && r.chance(1, 2) {
                return None;
            }
            let ch: Vec<(Cell, F)> = (i + 1..n).flat_map(|x| (0..cols).map(move |c| (x, c))).map(|(x, c)| ((t, x, c), w.rows[t][x - 1][c])).collect();
            w.set(&ch);
            Some(format!("row-double/{k:?}"))
        }
        _ => {
            let c = r.idx(cols);
            let v = w.rows[t][i][c];
            let x = match r.below(9) {
                0 => F::ZERO,
                1 => F::ONE,
                2 => v + F::ONE,
                3 => v - F::ONE,
                4 => v + F::from_canonical_u64(1 << 32),
                5 => -v,
                6 => w.rows[t][r.idx(n)][c],
                7 => w.rows[t][i][r.idx(cols)],
                _ => F::from_noncanonical_u64(r.u64()),
            };
            if x == v {
                return None;
            }
            w.set(&[((t, i, c), x)]);
            w.frozen.insert((t, i, c));
            Some(format!("cell/{k:?}"))
        }
    }
}

pub fn run() -> ! {
    let m = Mon::new("C22");
    let n = m.n(1600, 100_000);
    let seen: Mutex<HashSet<String>> = Mutex::new(HashSet::new());
    let next = AtomicU64::new(0);
    monlib::parallel(monlib::cores(), |_| loop {
        let i = next.fetch_add(1, Ordering::SeqCst);
        if i >= n || !m.within(400, 3600) {
            break;
        }
        let mut r = m.rng(i + 1);
        one(&m, &mut r, &seen);
    });
    let seen = seen.into_inner().unwrap();
    let mut total = 0;
    let mut missed = BTreeSet::new();
    for (t, tb) in tabs().iter().enumerate() {
        for c in 0..crate::world::support(t).len() {
            total += 1;
            let s = format!("{:?}/{c}", tb.kind());
            if !seen.contains(&s) {
                missed.insert(s);
            }
        }
    }
    m.count("constraints", total);
    m.count("constraints that were the only obstacle to some cheat", total - missed.len() as u64);
    m.count("relations that were the only obstacle to some cheat", (0..sys::lookups().len()).filter(|l| seen.contains(&format!("relation/{l}"))).count() as u64);
    if std::env::var("C22_MISSED").is_ok() {
        println!("{missed:?}");
        println!("{:?}", (0..sys::lookups().len()).filter(|l| !seen.contains(&format!("relation/{l}"))).collect::<Vec<_>>());
    }
    m.assume("constraints and relations are the repository's, evaluated by the stand-ins of starky and plonky2; the tables of facts (range check, xor, powers of two, bytes) are taken to provide every true fact");
    m.finish("one evaluation is one cheating attempt: a wrong execution, changed cell or changed row, followed by a search for repairs; it is a violation when every constraint and relation holds and the traces are not those of an honest execution; distinct: hash of the program and the attempt")
}

fn one(m: &Mon, r: &mut Rng, seen: &Mutex<HashSet<String>>) {
    let (case, k) = program(r);
    let Ok(run) = progs::run(&case) else {
        m.count("not-run", 1);
        return;
    };
    let Ok(tr) = guard(|| sys::traces(&run.program, &run.record)) else {
        m.count("generation-panics", 1);
        return;
    };
    let op = run.record.executed[k.min(run.record.executed.len() - 1)].instruction.op;
    let base = World::new(&tr, case.entry);
    if base.cost() != 0 {
        m.count("honest-traces-rejected", 1);
        return;
    }
    let mut local = HashSet::new();
    for attempt in 0..24 {
        let (mut w, name) = if attempt < 12 {
            let mut r2 = m_fork(r);
            let Ok(Some((rec, kind))) = guard(|| evil(&run, k, &mut r2)) else { continue };
            let Ok(t2) = guard(|| sys::traces(&run.program, &rec)) else {
                m.count("forged-record-refused-by-generation", 1);
                continue;
            };
            let mut w = World::new(&t2, case.entry);
            freeze(&mut w, kind);
            if r.chance(1, 4) {
                reorder(&mut w, r);
            }
            (w, format!("{kind}/{op:?}"))
        } else {
            let mut w = base.clone();
            let Some(name) = alter(&mut w, r) else { continue };
            public_only(&mut w);
            (w, name)
        };
        m.eval();
        m.count(&format!("attempts:{}", name.split('/').next().unwrap()), 1);
        m.nontrivial(monlib::fnv(format!("{case:?}{name}{:?}", w.violated()).as_bytes()));
        if w.repair(40, r, &mut local) {
            let t2 = w.traces();
            if public_values(&t2) != public_values(&tr) {
                m.count("another-statement", 1);
                continue;
            }
            match honest(&run, &t2) {
                Ok(()) => m.count("other-honest-witness", 1),
                Err(v) => {
                    let what: BTreeSet<String> = v.iter().map(|x| x.0.clone()).collect();
                    let what: Vec<String> = what.into_iter().collect();
                    let det: String = v.iter().map(|x| format!("{}: {}\n", x.0, x.1.chars().take(600).collect::<String>())).collect();
                    let sig = if what == ["short-read-before-more"] { "hole/short-read-before-more".to_string() } else { format!("hole/{name}/{}", what.join("+")) };
                    m.violation(&sig, format!("{det}changed cells:\n{}{}", changed(&base, &w), progs::show(&case)));
                }
            }
        } else {
            m.count("refused", 1);
        }
    }
    seen.lock().unwrap().extend(local);
}

fn changed(a: &World, b: &World) -> String {
    let mut s = String::new();
    let mut n = 0;
    for t in 0..a.rows.len() {
        if a.rows[t].len() != b.rows[t].len() {
            s += &format!("table {:?} has {} rows for {}\n", tabs()[t].kind(), b.rows[t].len(), a.rows[t].len());
            continue;
        }
        for i in 0..a.rows[t].len() {
            for c in 0..tabs()[t].columns() {
                if a.rows[t][i][c] != b.rows[t][i][c] {
                    n += 1;
                    if n < 40 {
                        s += &format!("{:?}[{i}].{c}: {} -> {}\n", tabs()[t].kind(), u(a.rows[t][i][c]), u(b.rows[t][i][c]));
                    }
                }
            }
        }
    }
    s
}
fn m_fork(r: &mut Rng) -> Rng { Rng::new(r.u64()) }
