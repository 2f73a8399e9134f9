//! Runs the real machine and the reference machine side by side and compares what they did.
use monlib::guard;
use monlib::refvm::{self, Info, Ref, Seg, Tapes, Trap};
use mozak_runner::elf::Program;
use mozak_runner::instruction::Op;
use mozak_runner::state::{Aux, RawTapes, State, StorageDeviceOpcode};
use mozak_runner::vm::{step, ExecutionRecord, Row};
use plonky2::field::goldilocks_field::GoldilocksField as F;
use plonky2::field::types::PrimeField64;

#[derive(Clone, Debug)]
pub struct Case {
    pub entry: u32,
    pub segs: Vec<Seg>,
    pub regs: Vec<(u8, u32)>,
    pub tapes: Tapes,
    pub max_steps: u64,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub steps: u64,
    pub stores: u64,
    pub end: String,
    pub kinds: std::collections::BTreeSet<(refvm::K, u8)>,
    pub hash: u64,
}

pub type Fail = (String, String);

pub fn raw_tapes(t: &Tapes) -> RawTapes {
    RawTapes {
        private_tape: t.seq[0].clone(),
        public_tape: t.seq[1].clone(),
        call_tape: t.seq[2].clone(),
        event_tape: t.seq[3].clone(),
        events_commitment_tape: t.fixed[0],
        cast_list_commitment_tape: t.fixed[1],
        self_prog_id_tape: t.fixed[2],
    }
}

pub fn describe(c: &Case) -> String {
    let mut s = format!("entry={:#x} regs={:x?}\n", c.entry, c.regs);
    for g in &c.segs {
        s += &format!("segment type={} flags={} vaddr={:#x} memsz={:#x} data={}\n", g.p_type, g.flags, g.vaddr, g.memsz, monlib::hex(&g.data));
    }
    for (i, t) in c.tapes.seq.iter().enumerate() {
        if !t.is_empty() {
            s += &format!("tape{i}={}\n", monlib::hex(&t[..t.len().min(4096)]));
        }
    }
    s
}

pub fn boot(c: &Case) -> Result<(Program, State<F>, Ref), Fail> {
    let bytes = refvm::elf(c.entry, &c.segs);
    let program = match guard(|| Program::vanilla_load_elf(&bytes)) {
        Ok(Ok(p)) => p,
        Ok(Err(e)) => return Err(("loader-refuses-valid-file".into(), format!("{e}\n{}", describe(c)))),
        Err(e) => return Err(("loader-panics-on-valid-file".into(), format!("{e}\n{}", describe(c)))),
    };
    let mut st = State::<F>::new(program.clone(), raw_tapes(&c.tapes));
    let mut r = refvm::load(c.entry, &c.segs, c.tapes.clone());
    for (i, v) in &c.regs {
        st = st.set_register_value(*i, *v);
        r.regs[*i as usize] = *v;
    }
    r.regs[0] = 0;
    Ok((program, st, r))
}

/// Architectural state agreement.
fn same_state(st: &State<F>, r: &Ref, what: &str) -> Result<(), Fail> {
    if st.get_pc() != r.pc {
        return Err((format!("wrong-pc/{what}"), format!("pc is {:#x}, must be {:#x}", st.get_pc(), r.pc)));
    }
    for i in 0..32u8 {
        let v = st.get_register_value(i);
        if v != r.regs[i as usize] {
            return Err((format!("wrong-register/{what}"), format!("x{i} is {v:#x}, must be {:#x}", r.regs[i as usize])));
        }
    }
    for a in &r.touched {
        if st.load_u8(*a) != r.ld(*a) {
            return Err((format!("wrong-memory/{what}"), format!("byte {a:#x} is {:#x}, must be {:#x}", st.load_u8(*a), r.ld(*a))));
        }
    }
    if st.has_halted() != r.halted {
        return Err((format!("wrong-halt/{what}"), format!("halted={} must be {}", st.has_halted(), r.halted)));
    }
    let idx = [st.private_tape.read_index, st.public_tape.read_index, st.call_tape.read_index, st.event_tape.read_index];
    if idx != r.idx {
        return Err((format!("wrong-tape-position/{what}"), format!("tape positions {idx:?}, must be {:?}", r.idx)));
    }
    Ok(())
}

/// Complete memory agreement in both directions.
pub fn same_memory(st: &State<F>, r: &Ref) -> Result<(), Fail> {
    for (a, v) in &st.memory.data {
        if *v != r.ld(*a) {
            return Err(("stray-memory-change".into(), format!("byte {a:#x} is {v:#x}, must be {:#x}", r.ld(*a))));
        }
    }
    for (a, v) in &r.mem {
        if st.load_u8(*a) != *v {
            return Err(("lost-memory-change".into(), format!("byte {a:#x} is {:#x}, must be {v:#x}", st.load_u8(*a))));
        }
    }
    Ok(())
}

fn same_aux(row_state: &State<F>, op: Op, args: &mozak_runner::instruction::Args, aux: &Aux<F>, info: &Info, r_before: &[u32; 32]) -> Result<(), Fail> {
    let k = info.k.unwrap();
    let bad = |f: &str, d: String| Err((format!("wrong-aux-{f}/{k:?}"), d));
    if aux.dst_val != info.dst {
        return bad("result", format!("recorded result {:#x}, must be {:#x}", aux.dst_val, info.dst));
    }
    if aux.new_pc != info.next {
        return bad("new-pc", format!("recorded next pc {:#x}, must be {:#x}", aux.new_pc, info.next));
    }
    let mem = aux.mem.map(|m| (m.addr, m.raw_value));
    if mem != info.mem {
        return bad("mem", format!("recorded access {mem:x?}, must be {:x?}", info.mem));
    }
    if aux.mem_addresses_used != info.used {
        return bad("addresses", format!("recorded addresses {:x?}, must be {:x?}", aux.mem_addresses_used, info.used));
    }
    if aux.will_halt != info.halt {
        return bad("halt", format!("recorded will_halt {}", aux.will_halt));
    }
    let a = r_before[args.rs1 as usize];
    let b = r_before[args.rs2 as usize];
    let op2 = match op {
        Op::BEQ | Op::BNE | Op::BLT | Op::BLTU | Op::BGE | Op::BGEU => b,
        Op::SLL | Op::SRL | Op::SRA => 1u32 << (b.wrapping_add(args.imm) & 31),
        _ => b.wrapping_add(args.imm),
    };
    if (aux.op1, aux.op2_raw, aux.op2) != (a, b, op2) {
        return bad("operands", format!("recorded operands {:x?}, must be {:x?}", (aux.op1, aux.op2_raw, aux.op2), (a, b, op2)));
    }
    let dev = aux.storage_device_entry.as_ref().map(|e| {
        let t = match e.op {
            StorageDeviceOpcode::StorePrivate => 0,
            StorageDeviceOpcode::StorePublic => 1,
            StorageDeviceOpcode::StoreCallTape => 2,
            StorageDeviceOpcode::StoreEventTape => 3,
            StorageDeviceOpcode::StoreEventsCommitmentTape => 4,
            StorageDeviceOpcode::StoreCastListCommitmentTape => 5,
            StorageDeviceOpcode::StoreSelfProgIdTape => 6,
            StorageDeviceOpcode::None => 99,
        };
        (e.addr, t, e.data.clone())
    });
    if dev != info.storage {
        return bad("storage-device", format!("recorded {dev:x?}, must be {:x?}", info.storage));
    }
    match (&aux.poseidon2, &info.hash) {
        (None, None) => {}
        (Some(e), Some((p, o, n, log))) => {
            if (e.addr, e.output_addr, e.len) != (*p, *o, *n) {
                return bad("hash", format!("recorded hash call ({:#x},{:#x},{}), must be ({p:#x},{o:#x},{n})", e.addr, e.output_addr, e.len));
            }
            let got: Vec<([u64; 12], [u64; 12], u64)> = e
                .sponge_data
                .iter()
                .map(|s| (s.preimage.map(|x| x.to_canonical_u64()), s.output.map(|x| x.to_canonical_u64()), s.gen_output.to_canonical_u64()))
                .collect();
            let last = log.len() - 1;
            let want: Vec<([u64; 12], [u64; 12], u64)> = log.iter().enumerate().map(|(i, (a, b))| (*a, *b, u64::from(i == last))).collect();
            if got != want {
                return bad("sponge", format!("recorded sponge states differ: {} vs {} permutations", got.len(), want.len()));
            }
        }
        (g, w) => return bad("hash-presence", format!("recorded {} must be {}", g.is_some(), w.is_some())),
    }
    if row_state.registers[0] != 0 {
        return bad("x0", "x0 is not zero".into());
    }
    Ok(())
}

fn note(s: &mut Stats, info: &Info) {
    let k = info.k.unwrap();
    // shape of the step: instruction kind, and sign/zero class of the result
    let c = match info.dst {
        0 => 0,
        1 => 1,
        0x7fff_ffff => 2,
        0x8000_0000 => 3,
        u32::MAX => 4,
        d if d >> 31 == 1 => 5,
        _ => 6,
    };
    s.kinds.insert((k, c));
    s.hash = (s.hash ^ u64::from(info.word) ^ (u64::from(info.dst) << 17) ^ u64::from(info.next)).wrapping_mul(0x1_0000_0000_01b3).rotate_left(5);
}

/// Steps both machines; compares architectural state after every instruction.
pub fn arch(c: &Case) -> Result<Stats, Fail> {
    let (program, mut st, mut r) = boot(c)?;
    let mut s = Stats::default();
    let fail = |(sig, d): Fail, info: &Info| -> Fail { (sig, format!("at pc {:#x} word {:#010x}: {d}\n{}", info.pc, info.word, describe(c))) };
    r.touched.clear();
    same_state(&st, &r, "initial").map_err(|(a, b)| (a, format!("{b}\n{}", describe(c))))?;
    while !r.halted && s.steps < c.max_steps {
        let pc = r.pc;
        let want = r.step();
        if let Err(Trap::TooBig) = want {
            s.end = "too-big".into(); // a length field the real machine would need minutes and gigabytes for
            break;
        }
        let got = guard(|| st.clone().execute_instruction(&program));
        match want {
            Ok(info) => {
                let k = format!("{:?}", info.k.unwrap());
                let (aux, _inst, next) = match got {
                    Ok(Ok(x)) => x,
                    Ok(Err(e)) => return Err(fail((format!("refused/{k}"), format!("real machine refuses: {e}")), &info)),
                    Err(e) => return Err(fail((format!("crash/{k}"), format!("real machine panics: {e}")), &info)),
                };
                same_state(&next, &r, &k).map_err(|e| fail(e, &info))?;
                if next.clk != st.clk + 1 {
                    return Err(fail((format!("clock/{k}"), "clock must advance by one".into()), &info));
                }
                if aux.new_pc != r.pc {
                    return Err(fail((format!("aux-new-pc/{k}"), String::new()), &info));
                }
                note(&mut s, &info);
                s.steps += 1;
                st = next;
            }
            Err(t) => {
                s.end = match &t {
                    Trap::NoCode(_) => "no-code".into(),
                    Trap::Illegal(..) => "illegal".into(),
                    Trap::ReadOnly(_) => "read-only".into(),
                    Trap::Panic(_) => "panic".into(),
                    Trap::BadHashLen(_) => "bad-hash-len".into(),
                    Trap::TooBig => "too-big".into(),
                };
                let refused = !matches!(got, Ok(Ok(_)));
                let must = match &t {
                    // reserved encodings the property leaves open
                    Trap::Illegal(_, w) => refvm::decode(*w) == Err(true),
                    Trap::TooBig => false,
                    _ => true,
                };
                if must && !refused {
                    return Err((format!("unnoticed/{}", s.end), format!("at pc {pc:#x}: must trap with {t:?} but was executed\n{}", describe(c))));
                }
                break;
            }
        }
    }
    if s.end.is_empty() {
        s.end = if r.halted { "halt".into() } else { "limit".into() };
    }
    same_memory(&st, &r).map_err(|(a, b)| (a, format!("{b}\n{}", describe(c))))?;
    for a in &r.ro {
        if !st.memory.is_read_only.contains(a) {
            return Err(("protection-lost".into(), format!("byte {a:#x} is no longer read-only\n{}", describe(c))));
        }
    }
    s.stores = r.stores;
    Ok(s)
}

pub fn record_key(rec: &ExecutionRecord<F>) -> u64 {
    let mut h = 0u64;
    let mut mix = |x: u64| h = (h ^ x).wrapping_mul(0x1_0000_0000_01b3).rotate_left(7);
    let mut row = |r: &Row<F>| {
        mix(r.state.clk);
        mix(u64::from(r.state.pc));
        r.state.registers.iter().for_each(|x| mix(u64::from(*x)));
        mix(u64::from(r.aux.dst_val) << 32 | u64::from(r.aux.new_pc));
        mix(monlib::hash_dbg(&r.instruction));
    };
    rec.executed.iter().for_each(&mut row);
    h
}

/// Runs a halting program through the public stepper and compares the whole record.
pub fn record(c: &Case) -> Result<Option<Stats>, Fail> {
    let (program, st, r0) = boot(c)?;
    let mut r = r0.clone();
    let mut n = 0u64;
    while !r.halted {
        if n > c.max_steps {
            return Ok(None);
        }
        if r.step().is_err() {
            return Ok(None);
        }
        n += 1;
    }
    let ctx = |(a, b): Fail| -> Fail { (a, format!("{b}\n{}", describe(c))) };
    let run = || guard(|| step(&program, st.clone()));
    let rec = match run() {
        Ok(Ok(x)) => x,
        Ok(Err(e)) => return Err(ctx(("run-refused".into(), e.to_string()))),
        Err(e) => return Err(ctx(("run-crashed".into(), e))),
    };
    if rec.executed.len() as u64 != n {
        return Err(ctx(("record-length".into(), format!("{} rows recorded, {n} steps executed", rec.executed.len()))));
    }
    let mut s = Stats::default();
    let mut r = r0;
    for (i, row) in rec.executed.iter().enumerate() {
        if row.state.clk != i as u64 + 2 {
            return Err(ctx(("record-clock".into(), format!("row {i} has clock {}", row.state.clk))));
        }
        if row.state.has_halted() {
            return Err(ctx(("record-halted-row".into(), format!("row {i} of {n} has a halted pre-state"))));
        }
        same_state(&row.state, &r, "record").map_err(|(a, b)| ctx((a, format!("row {i}: {b}"))))?;
        let before = r.regs;
        let info = r.step().unwrap();
        // bytes about to be touched still hold their old values in the pre-state
        match program.ro_code.get_instruction(info.pc) {
            Some(Ok(x)) if *x == row.instruction => {}
            other => return Err(ctx(("record-instruction".into(), format!("row {i} records {:?}, program has {other:?}", row.instruction)))),
        }
        same_aux(&row.state, row.instruction.op, &row.instruction.args, &row.aux, &info, &before).map_err(|(a, b)| ctx((a, format!("row {i} pc {:#x} word {:#010x}: {b}", info.pc, info.word))))?;
        let next = rec.executed.get(i + 1).map_or(&rec.last_state, |x| &x.state);
        same_state(next, &r, "record-next").map_err(|(a, b)| ctx((a, format!("row {i}: {b}"))))?;
        if next.clk != row.state.clk + 1 {
            return Err(ctx(("record-clock".into(), format!("row {i}: successor clock {}", next.clk))));
        }
        if i % 16 == 15 {
            same_memory(next, &r).map_err(|(a, b)| ctx((a, format!("row {i}: {b}"))))?;
        }
        note(&mut s, &info);
        s.steps += 1;
    }
    same_memory(&rec.last_state, &r).map_err(ctx)?;
    if !rec.last_state.has_halted() {
        return Err(ctx(("record-not-halted".into(), "last state is not halted".into())));
    }
    let again = match run() {
        Ok(Ok(x)) => x,
        _ => return Err(ctx(("not-deterministic".into(), "second run failed".into()))),
    };
    if format!("{:?}", again.executed) != format!("{:?}", rec.executed) && record_key(&again) != record_key(&rec) {
        return Err(ctx(("not-deterministic".into(), "second run differs".into())));
    }
    if n >= 2 {
        let sbf = rec.state_before_final();
        if sbf.clk != rec.executed[rec.executed.len() - 2].state.clk || sbf.pc != rec.executed[rec.executed.len() - 2].state.pc {
            return Err(ctx(("state-before-final".into(), "not the state before the last but one step".into())));
        }
    }
    s.stores = r.stores;
    s.end = "halt".into();
    Ok(Some(s))
}
