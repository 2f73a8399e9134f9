use std::sync::Arc;

use monlib::refvm::{self, enc, Ref, Seg, I, K, R, W, X};
use monlib::{cores, guard, json, parallel, Mon, Rng};
use mozak_runner::code::Code;
use mozak_runner::decode::decode_instruction;
use mozak_runner::elf::Program;
use mozak_runner::instruction::{Args, Instruction, Op};
use mozak_runner::state::{RawTapes, State};
use plonky2::field::goldilocks_field::GoldilocksField as F;

const RULE: &str = "each evaluation is one (word, pc) pair decoded by the real decoder and by an independent decoder; acceptance must agree, errors must carry the word and pc, and an operation that is not literally the expected one must act the same on 40 random machine states; non-trivial: the word is accepted by either decoder, distinct by (opcode, funct3, funct7 class, pc class)";

/// The representation the current decoder uses; only a fast path, never a verdict.
fn usual(i: &I, pc: u32) -> Option<(Op, Args)> {
    use K::*;
    let imm = i.imm as u32;
    let rt = Args { rd: i.rd, rs1: i.rs1, rs2: i.rs2, imm: 0 };
    let it = |imm| Args { rd: i.rd, rs1: i.rs1, rs2: 0, imm };
    let ld = Args { rd: i.rd, rs1: 0, rs2: i.rs1, imm };
    let st = Args { rd: 0, rs1: i.rs2, rs2: i.rs1, imm };
    let br = Args { rd: 0, rs1: i.rs1, rs2: i.rs2, imm: pc.wrapping_add(imm) };
    let ab = |imm| Args { rd: i.rd, rs1: 0, rs2: 0, imm };
    Some(match i.k {
        Lui => (Op::ADD, ab(imm)),
        Auipc => (Op::ADD, ab(pc.wrapping_add(imm))),
        Jal => (Op::JALR, ab(pc.wrapping_add(imm))),
        Jalr => (Op::JALR, it(imm)),
        Beq => (Op::BEQ, br),
        Bne => (Op::BNE, br),
        Blt => (Op::BLT, br),
        Bge => (Op::BGE, br),
        Bltu => (Op::BLTU, br),
        Bgeu => (Op::BGEU, br),
        Lb => (Op::LB, ld),
        Lh => (Op::LH, ld),
        Lw => (Op::LW, ld),
        Lbu => (Op::LBU, ld),
        Lhu => (Op::LHU, ld),
        Sb => (Op::SB, st),
        Sh => (Op::SH, st),
        Sw => (Op::SW, st),
        Addi => (Op::ADD, it(imm)),
        Slti => (Op::SLT, it(imm)),
        Sltiu => (Op::SLTU, it(imm)),
        Xori => (Op::XOR, it(imm)),
        Ori => (Op::OR, it(imm)),
        Andi => (Op::AND, it(imm)),
        Slli => (Op::MUL, it(1 << imm)),
        Srli => (Op::DIVU, it(1 << imm)),
        Srai => (Op::SRA, it(imm)),
        Add => (Op::ADD, rt),
        Sub => (Op::SUB, rt),
        Sll => (Op::SLL, rt),
        Slt => (Op::SLT, rt),
        Sltu => (Op::SLTU, rt),
        Xor => (Op::XOR, rt),
        Srl => (Op::SRL, rt),
        Sra => (Op::SRA, rt),
        Or => (Op::OR, rt),
        And => (Op::AND, rt),
        Mul => (Op::MUL, rt),
        Mulh => (Op::MULH, rt),
        Mulhsu => (Op::MULHSU, rt),
        Mulhu => (Op::MULHU, rt),
        Div => (Op::DIV, rt),
        Divu => (Op::DIVU, rt),
        Rem => (Op::REM, rt),
        Remu => (Op::REMU, rt),
        Fence | Ebreak | Mret | Csr => (Op::ADD, Args::default()),
        Ecall => return None,
    })
}

fn acts_the_same(word: u32, pc: u32, inst: &Instruction) -> Result<(), String> {
    let mut r = Rng::new(u64::from(word) << 32 | u64::from(pc));
    for t in 0..40 {
        let mut m = Ref { pc, ..Ref::default() };
        m.code.insert(pc, word);
        let program = Program { ro_code: Code(std::iter::once((pc, Ok(*inst))).collect()), entry_point: pc, ..Program::default() };
        let mut st = State::<F>::new(program.clone(), RawTapes::default());
        for i in 1..32u8 {
            let v = if t % 2 == 0 { r.edge32() } else { r.u32() };
            st = st.set_register_value(i, v);
            m.regs[i as usize] = v;
        }
        if word == enc::ECALL {
            let a = *r.pick(&[0u32, 11, 99]);
            st = st.set_register_value(10, a);
            m.regs[10] = a;
        }
        // random memory around the access
        for i in 0..32u32 {
            let a = m.regs[((word >> 15) & 31) as usize].wrapping_add(r.below(16) as u32).wrapping_add(((word as i32) >> 20) as u32).wrapping_sub(4).wrapping_add(i % 3);
            let b = r.u8();
            st = st.store_u8(a, b).unwrap();
            m.mem.insert(a, b);
        }
        let pre = st.clone();
        let want = m.step();
        let got = guard(|| st.execute_instruction(&program));
        match (want, got) {
            (Ok(_), Ok(Ok((_, _, s)))) => {
                if s.pc != m.pc {
                    return Err(format!("next pc {:#x} must be {:#x}", s.pc, m.pc));
                }
                if s.registers != m.regs {
                    return Err(format!("registers {:x?} must be {:x?} (before {:x?})", s.registers, m.regs, pre.registers));
                }
                for a in &m.touched {
                    if s.load_u8(*a) != m.ld(*a) {
                        return Err(format!("memory byte {a:#x}"));
                    }
                }
                if s.has_halted() != m.halted {
                    return Err("halting".into());
                }
            }
            (Ok(_), Ok(Err(e))) => return Err(format!("refused: {e}")),
            (Ok(_), Err(e)) => return Err(format!("crash: {e}")),
            (Err(_), _) => {}
        }
    }
    Ok(())
}

/// Returns a class for coverage, or the failure.
fn check(word: u32, pc: u32) -> Result<u64, (String, String)> {
    let want = refvm::decode(word);
    let got = decode_instruction(pc, word);
    match (&want, &got) {
        (Err(strict), Err(e)) => {
            let _ = strict;
            if e.pc != pc || e.instruction != word {
                return Err(("error-contents".into(), format!("word {word:#010x} pc {pc:#x}: error carries {e:x?}")));
            }
            Ok(0)
        }
        (Err(true), Ok(i)) => Err((format!("accepts-invalid/opcode-{:#x}", word & 0x7f), format!("word {word:#010x} pc {pc:#x} decoded as {i:?}"))),
        (Err(false), Ok(_)) => Ok(0),
        (Ok(i), Err(_)) => Err((format!("refuses-valid/{:?}", i.k), format!("word {word:#010x} pc {pc:#x} ({i:?})"))),
        (Ok(i), Ok(g)) => {
            let same = match usual(i, pc) {
                Some((op, a)) => g.op == op && g.args == a,
                None => g.op == Op::ECALL && g.args.rd == 0,
            };
            if !same {
                acts_the_same(word, pc, g).map_err(|e| (format!("wrong-meaning/{:?}", i.k), format!("word {word:#010x} pc {pc:#x} ({i:?}) decoded as {g:?}: {e}")))?;
            }
            Ok(1 + u64::from(word & 0x7f) + (u64::from(word >> 12 & 7) << 7) + (u64::from(word >> 25) << 10))
        }
    }
}

fn encodings(r: &mut Rng) -> u32 {
    // valid-looking words with every field stressed
    let op = *r.pick(&[0x37u32, 0x17, 0x6f, 0x67, 0x63, 0x03, 0x23, 0x13, 0x33, 0x0f, 0x73]);
    match r.below(4) {
        0 => (r.u32() & !0x7f) | op,
        1 => enc::r(*r.pick(&[0, 1, 0x20, 0x21, 0x40, 2]), r.below(32) as u32, r.below(32) as u32, r.below(8) as u32, r.below(32) as u32, op),
        2 => enc::i(*r.pick(&[0, 1, -1, 2047, -2048, 0x302, 0x400, 0x41f, 0x20]), r.below(32) as u32, r.below(8) as u32, r.below(32) as u32, op),
        _ => (1u32 << r.below(32)) ^ op ^ ((r.below(8) as u32) << 12),
    }
}

pub fn run() -> ! {
    let m = Arc::new(Mon::new("C02"));
    m.watchdog(600, RULE);
    let pcs = [0u32, 4, 0x1000, 0x7fff_fffc, 0x8000_0000, 0xffff_fffc, 0x1234_5678, 0x0020_0000];
    let exhaustive = m.thorough();
    parallel(cores(), |w| {
        let mut r = m.rng(w);
        let mut seen = std::collections::HashSet::new();
        let mut n = 0u64;
        let mut one = |word: u32, pc: u32| {
            n += 1;
            let res = match guard(|| check(word, pc)) {
                Ok(x) => x,
                Err(e) => Err(("decoder-crash".into(), format!("word {word:#010x} pc {pc:#x}: {e}"))),
            };
            match res {
                Ok(c) => {
                    if c != 0 {
                        seen.insert(c ^ (u64::from(pc.leading_zeros()) << 20));
                    }
                }
                Err((s, d)) => m.violation(&s, d),
            }
        };
        if exhaustive {
            // all 2^32 words, each at one of the pcs
            let mut x = w;
            while x < 1 << 32 {
                one(x as u32, pcs[(x.wrapping_mul(0x9E37_79B9) >> 28) as usize % pcs.len()]);
                x += cores();
                if x % (1 << 20) == w && m.violation_count() > 1000 {
                    break;
                }
            }
        }
        // every (opcode, funct3, funct7) with several register fields
        for k in 0..1u32 << 17 {
            if u64::from(k) % cores() != w {
                continue;
            }
            let base = (k & 0x7f) | ((k >> 7 & 7) << 12) | ((k >> 10) << 25);
            for _ in 0..3 {
                let regs = (r.u32() & 0x1f) << 7 | (r.u32() & 0x3ff) << 15;
                one(base | regs, *r.pick(&pcs));
            }
            one(base, 0);
        }
        for _ in 0..m.n(300_000, 3_000_000) {
            let pc = if r.chance(1, 2) { *r.pick(&pcs) } else { r.edge32() & !1 };
            one(encodings(&mut r), pc);
        }
        for _ in 0..m.n(300_000, 1_000_000) {
            one(r.u32(), r.u32() & !1);
        }
        m.evals(n);
        m.count("words decoded", n);
        m.nontrivials(seen);
        // direct meaning test of valid words, whatever their representation
        for _ in 0..m.n(3000, 60_000) {
            let (word, pc) = (encodings(&mut r), *r.pick(&pcs));
            if refvm::decode(word).is_ok() {
                if let Ok(i) = decode_instruction(pc, word) {
                    m.eval();
                    m.count("decoded instructions executed on random states", 1);
                    if let Err(e) = acts_the_same(word, pc, &i) {
                        m.violation(&format!("wrong-effect/{:?}", refvm::decode(word).unwrap().k), format!("word {word:#010x} pc {pc:#x} decoded as {i:?}: {e}"));
                    }
                }
            }
        }
        for _ in 0..m.n(60, 2000) {
            image(&m, &mut r);
        }
    });
    m.sample(json!({"word": "0xfff00093", "pc": 0, "decoded": format!("{:?}", decode_instruction(0, 0xfff0_0093))}));
    let mut r = m.rng(5);
    for _ in 0..3 {
        let (x, p) = (encodings(&mut r), *r.pick(&pcs));
        m.sample(json!({"word": format!("{x:#010x}"), "pc": format!("{p:#x}"), "real": format!("{:?}", decode_instruction(p, x)), "reference": format!("{:?}", refvm::decode(x))}));
    }
    m.finish(RULE)
}

/// Every word of an executable segment is executable at its own address, and nothing else is.
fn image(m: &Mon, r: &mut Rng) {
    let mut segs = vec![];
    let mut at = *r.pick(&[0u32, 0x1000, 0xffff_0000, 0x8000_0000]);
    for _ in 0..1 + r.idx(3) {
        let n = 4 * (1 + r.idx(20));
        let data: Vec<u8> = (0..n / 4).flat_map(|_| if r.chance(3, 4) { encodings(r) } else { r.u32() }.to_le_bytes()).collect();
        let f = *r.pick(&[R | X, X, R | W | X, R, R | W]);
        let memsz = n as u32 + if r.chance(1, 4) { 8 } else { 0 };
        segs.push(Seg { p_type: 1, flags: f, vaddr: at, memsz, data });
        at += memsz + 4 * r.below(5) as u32;
    }
    m.eval();
    let b = refvm::elf(segs[0].vaddr, &segs);
    let p = match guard(|| Program::vanilla_load_elf(&b)) {
        Ok(Ok(p)) => p,
        x => return m.violation("image-load", format!("{x:?} for {segs:?}")),
    };
    let want = refvm::load(0, &segs, refvm::Tapes::default()).code;
    m.nontrivial(monlib::fnv(&b));
    m.count("code images", 1);
    for s in &segs {
        for a in s.vaddr.saturating_sub(4)..s.vaddr.saturating_add(s.memsz).saturating_add(4) {
            let got = p.ro_code.get_instruction(a);
            match want.get(&a) {
                None => {
                    if let Some(Ok(g)) = got {
                        m.violation("image-extra-code", format!("address {a:#x} executes {g:?}; {segs:x?}"));
                    }
                }
                Some(w) => {
                    let ok = match got {
                        Some(Ok(g)) => Ok(*g) == decode_instruction(a, *w),
                        Some(Err(e)) => decode_instruction(a, *w).is_err() && e.pc == a && e.instruction == *w,
                        None => decode_instruction(a, *w).is_err(),
                    };
                    if !ok {
                        m.violation("image-code", format!("address {a:#x} word {w:#010x} is {got:?}; {segs:x?}"));
                    }
                }
            }
        }
    }
}
