//! What the traces of one execution must contain, derived from the reference machine alone.
use std::collections::{BTreeMap, BTreeSet};

use monlib::refvm;
use mozak_circuits::cpu::columns::CpuState;
use mozak_circuits::cpu_skeleton::columns::CpuSkeleton;
use mozak_circuits::memory::columns::Memory;
use mozak_circuits::memoryinit::columns::MemoryInit;
use mozak_circuits::ops::add::columns::Add;
use mozak_circuits::ops::blt_taken::columns::BltTaken;
use mozak_circuits::poseidon2_sponge::columns::Poseidon2Sponge;
use mozak_circuits::program::columns::ProgramRom;
use mozak_circuits::rangecheck::columns::RangeCheckColumnsView;
use mozak_circuits::register::general::columns::Register;
use mozak_circuits::register::zero_read::columns::RegisterZeroRead;
use mozak_circuits::register::zero_write::columns::RegisterZeroWrite;
use mozak_circuits::stark::mozak_stark::TableKind as K;
use mozak_circuits::storage_device::columns::StorageDevice;
use mozak_circuits::tape_commitments::columns::TapeCommitments;
use mozak_runner::instruction::{Instruction, Op};
use plonky2::field::types::Field;

use crate::progs::Run;
use crate::sys::{height, row, u, Traces, F};

type Out = Vec<(String, String)>;

fn rows<R: FromIterator<F>>(tr: &Traces, k: K) -> Vec<R> {
    let t = &tr[k];
    (0..height(t)).map(|i| row(t, i).into_iter().collect()).collect()
}

/// One executed step as the reference machine saw it.
pub struct Step {
    pub clk: u64,
    pub pc: u32,
    pub next: u32,
    pub inst: Instruction,
    pub op1: u32,
    pub op2: u32,
    pub dst: u32,
    pub a: [u32; 4],
    pub info: refvm::Info,
}

pub struct Spec {
    pub steps: Vec<Step>,
    pub init: BTreeMap<u32, (u8, bool)>,
    pub regs: [u32; 32],
    pub used: BTreeSet<u32>,
    /// (addr, clk, kind, value); kind 1 load, 2 store
    pub mem: Vec<(u32, u64, u8, u8)>,
    pub tapes: refvm::Tapes,
    pub last_pc: u32,
}

pub fn spec(run: &Run) -> Result<Spec, String> {
    let c = &run.case;
    let mut m = refvm::load(c.entry, &c.segs, c.tapes.clone());
    for (r, v) in &c.regs {
        if *r != 0 {
            m.regs[*r as usize] = *v;
        }
    }
    let mut s = Spec {
        steps: vec![],
        init: m.mem.iter().map(|(a, v)| (*a, (*v, !m.ro.contains(a)))).collect(),
        regs: m.regs,
        used: BTreeSet::from([0, u32::MAX]),
        mem: vec![],
        tapes: c.tapes.clone(),
        last_pc: 0,
    };
    let mut clk = 2u64;
    let mut i = 0;
    while !m.halted {
        let regs = m.regs;
        let inst = run.record.executed.get(i).ok_or("the record ends before the reference machine")?.instruction;
        let pre = m.mem.clone();
        let ld = |a: u32| pre.get(&a).copied().unwrap_or(0);
        let info = m.step().map_err(|e| format!("{e:?}"))?;
        let get = |r: u8| regs[r as usize];
        let a = [regs[10], regs[11], regs[12], regs[13]];
        s.used.extend(info.used.iter());
        match info.k {
            Some(refvm::K::Sb | refvm::K::Sh | refvm::K::Sw) =>
                for ad in &info.used {
                    s.mem.push((*ad, clk, 2, m.ld(*ad)));
                },
            Some(refvm::K::Lb | refvm::K::Lbu | refvm::K::Lh | refvm::K::Lhu | refvm::K::Lw) =>
                for ad in &info.used {
                    s.mem.push((*ad, clk, 1, ld(*ad)));
                },
            _ => {}
        }
        if let Some((p, _, d)) = &info.storage {
            for (j, b) in d.iter().enumerate() {
                s.mem.push((p.wrapping_add(j as u32), clk, 2, *b));
            }
        }
        if let Some((p, o, n, _)) = &info.hash {
            for j in 0..*n {
                s.mem.push((p.wrapping_add(j), clk, 1, ld(p.wrapping_add(j))));
            }
            for j in 0..32 {
                s.mem.push((o.wrapping_add(j), clk, 2, m.ld(o.wrapping_add(j))));
            }
        }
        s.steps.push(Step { clk, pc: info.pc, next: info.next, op1: get(inst.args.rs1), op2: get(inst.args.rs2), dst: m.regs[inst.args.rd as usize], inst, a, info });
        clk += 1;
        i += 1;
    }
    s.last_pc = m.pc;
    Ok(s)
}

fn diff<T: Ord + Clone + std::fmt::Debug>(what: &str, got: Vec<T>, want: Vec<T>, out: &mut Out) {
    let mut m: BTreeMap<T, i64> = BTreeMap::new();
    for x in got {
        *m.entry(x).or_default() += 1;
    }
    for x in want {
        *m.entry(x).or_default() -= 1;
    }
    m.retain(|_, v| *v != 0);
    if !m.is_empty() {
        out.push((format!("correspondence/{what}"), format!("{what}: rows in the traces but not executed (+) or executed but not in the traces (-): {:?}", m.iter().take(6).collect::<Vec<_>>())));
    }
}

/// The traces describe exactly the execution.
pub fn correspondence(s: &Spec, tr: &Traces) -> Out {
    let mut out = vec![];
    // steps
    let mut got: Vec<(u64, &str, [u64; 9])> = vec![];
    let mut cpu_other = 0;
    for r in rows::<CpuState<F>>(tr, K::Cpu) {
        let ops: Vec<F> = r.inst.ops.into_iter().collect();
        let on = ops.iter().filter(|x| x.is_nonzero()).count();
        if on == 0 {
            continue;
        }
        if on != 1 || !ops.iter().any(|x| x.is_one()) {
            cpu_other += 1;
        }
        let dst = if r.inst.rd_selected.is_zero() { F::ZERO } else { r.dst_value };
        // nothing follows a halt
        let new_pc = if r.ecall_selectors.is_halt.is_one() { r.inst.pc } else { r.new_pc };
        got.push((u(r.clk), "step", [r.inst.pc, new_pc, r.inst.rs1_selected, r.inst.rs2_selected, r.inst.rd_selected, r.inst.imm_value, r.op1_value, r.op2_value_raw, dst].map(u)));
    }
    if cpu_other > 0 {
        out.push(("correspondence/selectors".into(), format!("{cpu_other} rows have more than one operation")));
    }
    for r in rows::<Add<F>>(tr, K::Add).into_iter().filter(|r| r.is_running.is_nonzero()) {
        let dst = if r.inst.rd_selected.is_zero() { F::ZERO } else { r.dst_value };
        let i = r.inst;
        got.push((u(r.clk), "step", [i.pc, F::from_canonical_u32((u(i.pc) as u32).wrapping_add(4)), i.rs1_selected, i.rs2_selected, i.rd_selected, i.imm_value, r.op1_value, r.op2_value, dst].map(u)));
    }
    for r in rows::<BltTaken<F>>(tr, K::BltTaken).into_iter().filter(|r| r.is_running.is_nonzero()) {
        let i = r.inst;
        got.push((u(r.clk), "step", [i.pc, i.imm_value, i.rs1_selected, i.rs2_selected, F::ZERO, i.imm_value, r.op1_value, r.op2_value, F::ZERO].map(u)));
    }
    let want = s
        .steps
        .iter()
        .map(|x| {
            let a = x.inst.args;
            let dst = if a.rd == 0 { 0 } else { x.dst };
            (x.clk, "step", [x.pc, x.next, a.rs1.into(), a.rs2.into(), a.rd.into(), a.imm, x.op1, x.op2, dst].map(u64::from))
        })
        .collect();
    diff("steps", got, want, &mut out);
    // the skeleton
    let got: Vec<(u64, u64, u64)> = rows::<CpuSkeleton<F>>(tr, K::CpuSkeleton).iter().map(|r| (u(r.clk), u(r.pc), u(r.is_running))).collect();
    let want: Vec<(u64, u64, u64)> = s.steps.iter().map(|x| (x.clk, x.pc.into(), 1)).collect();
    if got.len() < want.len() || got[..want.len()] != want[..] {
        let i = (0..want.len()).find(|&i| got.get(i) != want.get(i)).unwrap_or(0);
        out.push(("correspondence/skeleton".into(), format!("row {i}: {:?} for {:?}", got.get(i), want[i])));
    } else if got[want.len()..].iter().any(|r| r.2 != 0) {
        out.push(("correspondence/skeleton".into(), "a running row after the halt".into()));
    }
    // memory
    let mut got = vec![];
    let mut prev: Option<(u64, u64)> = None;
    for r in rows::<Memory<F>>(tr, K::Memory) {
        let kind = u(r.is_load) + 2 * u(r.is_store) + 4 * u(r.is_init);
        if kind == 0 {
            continue;
        }
        let key = (u(r.addr), 4 * u(r.clk) + u(r.is_store));
        if prev.is_some_and(|p| p > key) {
            out.push(("correspondence/memory-order".into(), format!("{prev:?} before {key:?}")));
        }
        prev = Some(key);
        // memory that is never used may be initialised as well
        if kind == 4 && key.1 == 0 && r.value.is_zero() && r.is_writable.is_one() && !s.used.contains(&(key.0 as u32)) && key.0 >> 32 == 0 {
            continue;
        }
        got.push((u(r.addr), u(r.clk), kind, u(r.value), u(r.is_writable)));
    }
    let writable = |a: u32| u64::from(s.init.get(&a).map_or(true, |x| x.1));
    let want = s
        .init
        .iter()
        .map(|(a, (v, w))| (u64::from(*a), 1, 4, u64::from(*v), u64::from(*w)))
        .chain(s.used.iter().filter(|a| !s.init.contains_key(a)).map(|a| (u64::from(*a), 0, 4, 0, 1)))
        .chain(s.mem.iter().map(|(a, c, k, v)| (u64::from(*a), *c, u64::from(*k), u64::from(*v), writable(*a))))
        .collect();
    diff("memory", got, want, &mut out);
    // registers
    let mut got: Vec<(u64, u64, u64, u64)> = vec![];
    for r in rows::<Register<F>>(tr, K::Register) {
        let n = u(r.ops.is_init) + 2 * u(r.ops.is_read) + 4 * u(r.ops.is_write);
        if n != 0 {
            got.push((u(r.addr), u(r.clk), n, u(r.value)));
        }
    }
    // the rows of register zero carry nothing but how often it was used
    let mut zero: BTreeMap<(u64, u64), F> = BTreeMap::new();
    for r in rows::<RegisterZeroRead<F>>(tr, K::RegisterZeroRead) {
        *zero.entry((u(r.clk), 2)).or_insert(F::ZERO) += r.is_used;
    }
    for r in rows::<RegisterZeroWrite<F>>(tr, K::RegisterZeroWrite) {
        *zero.entry((u(r.clk), 4)).or_insert(F::ZERO) += r.is_used;
    }
    for ((clk, n), k) in zero {
        got.extend((0..u(k).min(9)).map(|_| (0, clk, n, 0)));
    }
    let mut want: Vec<(u64, u64, u64, u64)> = (1..32).map(|i| (i, 0, 1, s.regs[i as usize].into())).collect();
    for x in &s.steps {
        let a = x.inst.args;
        want.push((a.rs1.into(), x.clk, 2, x.op1.into()));
        want.push((a.rs2.into(), x.clk, 2, x.op2.into()));
        // the taken branches have no destination
        if !(x.inst.op == Op::BLTU && x.op1 < x.op2) {
            want.push((a.rd.into(), x.clk, 4, if a.rd == 0 { 0 } else { x.dst.into() }));
        }
        if x.info.storage.is_some() {
            want.push((11, x.clk, 2, x.a[1].into()));
            want.push((12, x.clk, 2, x.a[2].into()));
        }
        if x.info.hash.is_some() {
            want.extend([(11, x.clk, 2, x.a[1].into()), (12, x.clk, 2, x.a[2].into()), (13, x.clk, 2, x.a[3].into())]);
        }
    }
    // registers that are never used need no initial value
    let (there, used): (BTreeSet<u64>, BTreeSet<u64>) = (got.iter().map(|x| x.0).collect(), want.iter().filter(|x| x.2 != 1).map(|x| x.0).collect());
    want.retain(|x| there.contains(&x.0) || used.contains(&x.0));
    // the initial values are a set: the table they come from is padded with its last row
    let inits: BTreeSet<_> = got.iter().filter(|x| x.2 == 1).copied().collect();
    got.retain(|x| x.2 != 1);
    got.extend(inits);
    diff("registers", got, want, &mut out);
    // tapes
    for (t, k) in [K::StorageDevicePrivate, K::StorageDevicePublic, K::CallTape, K::EventTape, K::EventsCommitmentTape, K::CastListCommitmentTape, K::SelfProgIdTape].into_iter().enumerate() {
        let mut got: Vec<_> = rows::<StorageDevice<F>>(tr, k)
            .iter()
            .filter(|r| (r.ops.is_memory_store + r.ops.is_storage_device).is_nonzero())
            .map(|r| (u(r.clk), u(r.ops.is_storage_device), u(r.addr), u(r.size), u(r.value)))
            .collect();
        // which operation comes first does not matter
        got.sort_by_key(|x| x.0);
        let mut want = vec![];
        for x in &s.steps {
            if let Some((p, tt, d)) = &x.info.storage {
                if *tt == t {
                    want.push((x.clk, 1, u64::from(*p), d.len() as u64, 0));
                    for (j, b) in d.iter().enumerate() {
                        want.push((x.clk, 0, u64::from(p.wrapping_add(j as u32)), (d.len() - 1 - j) as u64, u64::from(*b)));
                    }
                }
            }
        }
        if got != want {
            out.push((format!("correspondence/tape-{t}"), format!("{got:?}\nexpected\n{want:?}")));
        }
    }
    // hashes
    let mut got: Vec<_> = rows::<Poseidon2Sponge<F>>(tr, K::Poseidon2Sponge)
        .iter()
        .filter(|r| (r.ops.is_permute + r.ops.is_init_permute).is_nonzero())
        .map(|r| (u(r.clk), u(r.ops.is_init_permute), u(r.input_addr), u(r.output_addr), u(r.input_len), r.preimage.map(u), r.output.map(u), u(r.gen_output)))
        .collect();
    got.sort_by_key(|x| x.0);
    let mut want = vec![];
    for x in &s.steps {
        if let Some((p, o, n, log)) = &x.info.hash {
            for (j, (pre, post)) in log.iter().enumerate() {
                want.push((x.clk, u64::from(j == 0), u64::from(p.wrapping_add(8 * j as u32)), u64::from(*o), u64::from(n - 8 * j as u32), *pre, *post, u64::from(j + 1 == log.len())));
            }
        }
    }
    if got != want {
        out.push(("correspondence/hashes".into(), format!("{got:?}\nexpected\n{want:?}")));
    }
    out
}

fn op_index(op: Op) -> u64 {
    match op {
        Op::ADD => 0,
        Op::SUB => 1,
        Op::XOR => 2,
        Op::OR => 3,
        Op::AND => 4,
        Op::DIV | Op::DIVU => 5,
        Op::REM | Op::REMU => 6,
        Op::MUL => 7,
        Op::MULH | Op::MULHU | Op::MULHSU => 8,
        Op::SLL => 9,
        Op::SLT | Op::SLTU => 10,
        Op::SRL => 11,
        Op::SRA => 12,
        Op::JALR => 13,
        Op::BEQ => 14,
        Op::BNE => 15,
        Op::SB => 16,
        Op::SH => 17,
        Op::SW => 18,
        Op::LB | Op::LBU => 19,
        Op::LH | Op::LHU => 20,
        Op::LW => 21,
        Op::BLT | Op::BLTU => 22,
        Op::BGE | Op::BGEU => 23,
        Op::ECALL => 24,
    }
}

/// The operation the circuits commit to, up to an injective encoding: what must tell instructions apart.
pub fn meaning(i: &Instruction) -> (u64, u64, u64, u64, [u64; 4]) {
    let s1 = matches!(i.op, Op::SLT | Op::DIV | Op::REM | Op::MULH | Op::MULHSU | Op::BLT | Op::BGE | Op::SRA);
    let s2 = matches!(i.op, Op::SLT | Op::DIV | Op::REM | Op::MULH | Op::BLT | Op::BGE);
    (op_index(i.op), s1.into(), s2.into(), matches!(i.op, Op::LB | Op::LH).into(), [i.args.rs1.into(), i.args.rs2.into(), i.args.rd.into(), i.args.imm.into()])
}

/// The public tables and sub-tables.
pub fn public(s: &Spec, run: &Run, tr: &Traces) -> Out {
    let mut out = vec![];
    // initial memory
    let got: Vec<_> = rows::<MemoryInit<F>>(tr, K::ElfMemoryInit).iter().filter(|r| r.filter.is_nonzero()).map(|r| (u(r.address), u(r.value), u(r.is_writable), u(r.filter))).collect();
    let want: Vec<_> = s.init.iter().map(|(a, (v, w))| (u64::from(*a), u64::from(*v), u64::from(*w), 1)).collect();
    diff("public-memory", got, want, &mut out);
    // code: every decodable word once (padding repeats the last), and rows differ exactly when the instructions do
    let got: BTreeSet<_> = rows::<ProgramRom<F>>(tr, K::Program).iter().map(|r| (u(r.pc), r.into_iter().skip(1).map(|x| u(*x)).collect::<Vec<u64>>())).collect();
    let code: BTreeMap<u32, Instruction> = run.program.ro_code.iter().filter_map(|(pc, i)| i.as_ref().ok().map(|i| (*pc, *i))).collect();
    if got.iter().map(|x| x.0).ne(code.keys().map(|x| u64::from(*x))) {
        out.push(("public-code".into(), format!("addresses {:?}\nexpected {:?}", got.iter().map(|x| x.0).collect::<Vec<_>>(), code.keys().collect::<Vec<_>>())));
    } else {
        let data: BTreeMap<u64, Vec<u64>> = got.into_iter().collect();
        let mut by: BTreeMap<Vec<u64>, (u64, u64, u64, u64, [u64; 4])> = BTreeMap::new();
        for (pc, i) in &code {
            let d = data[&u64::from(*pc)].clone();
            if let Some(o) = by.insert(d.clone(), meaning(i)) {
                if o != meaning(i) {
                    out.push(("public-code-ambiguous".into(), format!("{i:?} has the encoding {d:?} of {o:?}")));
                }
            }
        }
    }
    // commitments
    let t = rows::<TapeCommitments<F>>(tr, K::TapeCommitments);
    for (what, tape, ev) in [("castlist", s.tapes.fixed[1], false), ("events", s.tapes.fixed[0], true)] {
        let got: Vec<_> = t
            .iter()
            .filter(|r| if ev { r.is_event_commitment_tape_row.is_one() } else { r.is_castlist_commitment_tape_row.is_one() })
            .map(|r| (u(r.commitment_byte_row.index), u(r.commitment_byte_row.byte)))
            .collect();
        let want: Vec<_> = tape.iter().enumerate().map(|(i, b)| (i as u64, u64::from(*b))).collect();
        if got != want {
            out.push((format!("public-commitment-{what}"), format!("{got:?}\nexpected\n{want:?}")));
        }
    }
    let subs = &crate::sys::sys().public_sub_tables;
    let vals: Vec<Vec<u64>> = subs.iter().map(|p| p.get_values(tr).concat().into_iter().map(u).collect()).collect();
    for (what, tape) in [("castlist", s.tapes.fixed[1]), ("events", s.tapes.fixed[0])] {
        let want: Vec<u64> = tape.iter().map(|b| u64::from(*b)).collect();
        if !vals.contains(&want) {
            out.push((format!("public-subtable-{what}"), format!("{vals:?}\nno table has {want:?}")));
        }
    }
    if subs.iter().zip(&vals).any(|(p, v)| p.num_rows != v.len()) {
        out.push(("public-subtable-rows".into(), "the declared number of rows is not the number of public rows".into()));
    }
    out
}

/// Values whose width the arguments of soundness rely on: each must be received by the range check
/// table (or, for bytes, by the byte table) at least as often as it is needed.
pub fn ranges(s: &Spec, tr: &Traces) -> Out {
    let mut out = vec![];
    let mut have: BTreeMap<u64, u64> = BTreeMap::new();
    for r in rows::<RangeCheckColumnsView<F>>(tr, K::RangeCheck) {
        let v: u64 = r.limbs.iter().enumerate().map(|(i, l)| u(*l) << (8 * i)).sum();
        *have.entry(v).or_default() += u(r.multiplicity);
    }
    let mut need: BTreeMap<u64, (u64, &str)> = BTreeMap::new();
    let mut add = |v: u64, why: &'static str| {
        let e = need.entry(v).or_insert((0, why));
        e.0 += 1;
        e.1 = why;
    };
    for x in &s.steps {
        let (a, b) = (x.op1, x.op2);
        let dst = u64::from(x.info.dst);
        match x.inst.op {
            // sums are only congruent modulo 2^32 without it
            Op::ADD => add(dst, "sum"),
            Op::SUB => add(dst, "difference"),
            Op::JALR => add(dst, "link"),
            Op::BLTU if a < b => add(u64::from(b - a - 1), "taken-bltu"),
            Op::BLTU => add(u64::from(a - b), "untaken-bltu"),
            Op::BLT => add(u64::from((a as i32).abs_diff(b as i32)), "blt"),
            Op::BGE => add(u64::from((a as i32).abs_diff(b as i32)), "bge"),
            Op::BGEU => add(u64::from(a.abs_diff(b)), "bgeu"),
            Op::DIVU | Op::REMU => {
                let d = x.inst.args.imm.wrapping_add(b);
                if d != 0 {
                    add(u64::from(a / d), "quotient");
                    add(u64::from(a % d), "remainder");
                    add(u64::from(d - 1 - a % d), "remainder-slack");
                }
            }
            Op::MUL | Op::MULHU => {
                let p = u64::from(a) * u64::from(b.wrapping_add(x.inst.args.imm));
                add(p & 0xffff_ffff, "product-low");
                add(p >> 32, "product-high");
            }
            _ => {}
        }
    }
    // consecutive addresses of memory
    let mut m: Vec<(u64, u64)> = rows::<Memory<F>>(tr, K::Memory)
        .iter()
        .filter(|r| (r.is_load + r.is_store + r.is_init).is_nonzero())
        .map(|r| (u(r.addr), u(r.clk)))
        .collect();
    m.sort_unstable();
    for w in m.windows(2) {
        if w[0].0 != w[1].0 {
            add(w[1].0 - w[0].0 - 1, "memory-address");
        }
    }
    for (v, (n, why)) in &need {
        let h = have.get(v).copied().unwrap_or(0);
        if h < *n {
            out.push((format!("range-check-missing/{why}"), format!("the value {v} needs {n} range checks ({why}) and has {h}")));
        }
    }
    out
}
