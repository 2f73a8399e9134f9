//! Independent RV32IM reference machine working on raw instruction words, written from the
//! RISC-V unprivileged specification and the VM's documented system calls. Shares no code with
//! the repository.
use std::collections::{HashMap, HashSet};

use crate::poseidon;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum K {
    Lui, Auipc, Jal, Jalr, Beq, Bne, Blt, Bge, Bltu, Bgeu, Lb, Lh, Lw, Lbu, Lhu, Sb, Sh, Sw,
    Addi, Slti, Sltiu, Xori, Ori, Andi, Slli, Srli, Srai,
    Add, Sub, Sll, Slt, Sltu, Xor, Srl, Sra, Or, And,
    Mul, Mulh, Mulhsu, Mulhu, Div, Divu, Rem, Remu,
    Fence, Ecall, Ebreak, Mret, Csr,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct I {
    pub k: K,
    pub rd: u8,
    pub rs1: u8,
    pub rs2: u8,
    pub imm: i32,
}

/// Decodes a word. `Err(true)`: surely not a supported encoding. `Err(false)`: reserved fields
/// are set in a way the property leaves open.
pub fn decode(w: u32) -> Result<I, bool> {
    let f = |hi: u32, lo: u32| (w >> lo) & ((1u32 << (hi - lo + 1)) - 1);
    let (op, rd, f3, rs1, rs2, f7) = (f(6, 0), f(11, 7) as u8, f(14, 12), f(19, 15) as u8, f(24, 20) as u8, f(31, 25));
    let sx = |v: u32, bits: u32| -> i32 {
        let m = 1u32 << (bits - 1);
        (v ^ m).wrapping_sub(m) as i32
    };
    let ii = sx(f(31, 20), 12);
    let si = sx((f7 << 5) | u32::from(rd), 12);
    let bi = sx((f(31, 31) << 12) | (f(7, 7) << 11) | (f(30, 25) << 5) | (f(11, 8) << 1), 13);
    let ui = (w & 0xffff_f000) as i32;
    let ji = sx((f(31, 31) << 20) | (f(19, 12) << 12) | (f(20, 20) << 11) | (f(30, 21) << 1), 21);
    let i = |k, imm| Ok(I { k, rd, rs1, rs2, imm });
    use K::*;
    match op {
        0x37 => i(Lui, ui),
        0x17 => i(Auipc, ui),
        0x6f => i(Jal, ji),
        0x67 if f3 == 0 => i(Jalr, ii),
        0x63 => match f3 {
            0 => i(Beq, bi),
            1 => i(Bne, bi),
            4 => i(Blt, bi),
            5 => i(Bge, bi),
            6 => i(Bltu, bi),
            7 => i(Bgeu, bi),
            _ => Err(true),
        },
        0x03 => match f3 {
            0 => i(Lb, ii),
            1 => i(Lh, ii),
            2 => i(Lw, ii),
            4 => i(Lbu, ii),
            5 => i(Lhu, ii),
            _ => Err(true),
        },
        0x23 => match f3 {
            0 => i(Sb, si),
            1 => i(Sh, si),
            2 => i(Sw, si),
            _ => Err(true),
        },
        0x13 => match (f3, f7) {
            (0, _) => i(Addi, ii),
            (2, _) => i(Slti, ii),
            (3, _) => i(Sltiu, ii),
            (4, _) => i(Xori, ii),
            (6, _) => i(Ori, ii),
            (7, _) => i(Andi, ii),
            (1, 0) => i(Slli, rs2.into()),
            (5, 0) => i(Srli, rs2.into()),
            (5, 0x20) => i(Srai, rs2.into()),
            _ => Err(true),
        },
        0x33 => match (f7, f3) {
            (0, 0) => i(Add, 0),
            (0x20, 0) => i(Sub, 0),
            (0, 1) => i(Sll, 0),
            (0, 2) => i(Slt, 0),
            (0, 3) => i(Sltu, 0),
            (0, 4) => i(Xor, 0),
            (0, 5) => i(Srl, 0),
            (0x20, 5) => i(Sra, 0),
            (0, 6) => i(Or, 0),
            (0, 7) => i(And, 0),
            (1, 0) => i(Mul, 0),
            (1, 1) => i(Mulh, 0),
            (1, 2) => i(Mulhsu, 0),
            (1, 3) => i(Mulhu, 0),
            (1, 4) => i(Div, 0),
            (1, 5) => i(Divu, 0),
            (1, 6) => i(Rem, 0),
            (1, 7) => i(Remu, 0),
            _ => Err(true),
        },
        0x0f => match f3 {
            0 | 1 => i(Fence, 0),
            _ => Err(false),
        },
        0x73 => match (f3, f(31, 20)) {
            (0, 0 | 1 | 0x302) if rd != 0 || rs1 != 0 => Err(false),
            (0, 0) => i(Ecall, 0),
            (0, 1) => i(Ebreak, 0),
            (0, 0x302) => i(Mret, 0),
            (0, _) => Err(true),
            // Writes to read-only CSRs (`unimp` is one) trap.
            (1 | 5, 0xc00..) => Err(true),
            (1 | 2 | 5, _) => i(Csr, 0),
            // CSRRC, CSRRSI, CSRRCI are architectural but not supported; funct3 4 is not defined.
            _ => Err(true),
        },
        _ => Err(true),
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Trap {
    NoCode(u32),
    Illegal(u32, u32),
    ReadOnly(u32),
    Panic(Vec<u8>),
    BadHashLen(u32),
    TooBig,
}

#[derive(Clone, Debug, Default)]
pub struct Info {
    pub pc: u32,
    pub word: u32,
    pub k: Option<K>,
    pub dst: u32,
    pub mem: Option<(u32, u32)>,
    pub used: Vec<u32>,
    pub halt: bool,
    pub storage: Option<(u32, usize, Vec<u8>)>,
    pub hash: Option<(u32, u32, u32, Vec<([u64; 12], [u64; 12])>)>,
    pub next: u32,
}

#[derive(Clone, Debug, Default)]
pub struct Tapes {
    /// private, public, call, event
    pub seq: [Vec<u8>; 4],
    /// events commitment, cast list commitment, self program id
    pub fixed: [[u8; 32]; 3],
}

#[derive(Clone, Debug, Default)]
pub struct Ref {
    pub regs: [u32; 32],
    pub pc: u32,
    pub mem: HashMap<u32, u8>,
    pub ro: HashSet<u32>,
    pub code: HashMap<u32, u32>,
    pub tapes: Tapes,
    pub idx: [usize; 4],
    pub halted: bool,
    pub steps: u64,
    pub touched: Vec<u32>,
    pub stores: u64,
}

pub const HALT: u32 = 0;
pub const PANIC: u32 = 1;
pub const PRIVATE: u32 = 2;
pub const POSEIDON2: u32 = 3;
pub const PUBLIC: u32 = 4;
pub const CALL: u32 = 5;
pub const EVENT: u32 = 6;
pub const EVC: u32 = 7;
pub const CLC: u32 = 8;
pub const SELF: u32 = 9;
pub const TRACE: u32 = 10;

impl Ref {
    pub fn ld(&self, a: u32) -> u8 { self.mem.get(&a).copied().unwrap_or(0) }

    fn ld_n(&self, a: u32, n: u32) -> u32 { (0..n).fold(0, |acc, i| acc | (u32::from(self.ld(a.wrapping_add(i))) << (8 * i))) }

    fn st(&mut self, a: u32, bytes: &[u8]) -> Result<(), Trap> {
        let addr = |i: usize| a.wrapping_add(i as u32);
        if let Some(i) = (0..bytes.len()).find(|i| self.ro.contains(&addr(*i))) {
            return Err(Trap::ReadOnly(addr(i)));
        }
        for (i, b) in bytes.iter().enumerate() {
            self.mem.insert(addr(i), *b);
            self.touched.push(addr(i));
        }
        self.stores += 1;
        Ok(())
    }

    fn set(&mut self, rd: u8, v: u32) {
        if rd != 0 {
            self.regs[rd as usize] = v;
        }
    }

    pub fn step(&mut self) -> Result<Info, Trap> {
        self.touched.clear();
        let pc = self.pc;
        let w = *self.code.get(&pc).ok_or(Trap::NoCode(pc))?;
        let i = decode(w).map_err(|_| Trap::Illegal(pc, w))?;
        let mut info = Info { pc, word: w, k: Some(i.k), ..Info::default() };
        let a = self.regs[i.rs1 as usize];
        let b = self.regs[i.rs2 as usize];
        let imm = i.imm as u32;
        let (sa, sb) = (a as i32, b as i32);
        let mut next = pc.wrapping_add(4);
        use K::*;
        let rd: Option<u32> = match i.k {
            Lui => Some(imm),
            Auipc => Some(pc.wrapping_add(imm)),
            Jal => {
                let r = pc.wrapping_add(4);
                next = pc.wrapping_add(imm);
                Some(r)
            }
            Jalr => {
                let r = pc.wrapping_add(4);
                next = a.wrapping_add(imm) & 0xffff_fffe;
                Some(r)
            }
            Beq | Bne | Blt | Bge | Bltu | Bgeu => {
                let t = match i.k {
                    Beq => a == b,
                    Bne => a != b,
                    Blt => sa < sb,
                    Bge => sa >= sb,
                    Bltu => a < b,
                    _ => a >= b,
                };
                if t {
                    next = pc.wrapping_add(imm);
                }
                None
            }
            Lb | Lbu | Lh | Lhu | Lw => {
                let n = match i.k {
                    Lb | Lbu => 1,
                    Lh | Lhu => 2,
                    _ => 4,
                };
                let ad = a.wrapping_add(imm);
                let raw = self.ld_n(ad, n);
                info.mem = Some((ad, raw));
                info.used = (0..n).map(|j| ad.wrapping_add(j)).collect();
                self.touched.extend(info.used.iter());
                Some(match i.k {
                    Lb => raw as u8 as i8 as i32 as u32,
                    Lh => raw as u16 as i16 as i32 as u32,
                    _ => raw,
                })
            }
            Sb | Sh | Sw => {
                let n: u32 = match i.k {
                    Sb => 1,
                    Sh => 2,
                    _ => 4,
                };
                let ad = a.wrapping_add(imm);
                let bytes = b.to_le_bytes();
                self.st(ad, &bytes[..n as usize])?;
                let raw = if n == 4 { b } else { b & ((1 << (8 * n)) - 1) };
                info.mem = Some((ad, raw));
                info.used = (0..n).map(|j| ad.wrapping_add(j)).collect();
                info.dst = raw;
                None
            }
            Addi => Some(a.wrapping_add(imm)),
            Slti => Some((sa < i.imm).into()),
            Sltiu => Some((a < imm).into()),
            Xori => Some(a ^ imm),
            Ori => Some(a | imm),
            Andi => Some(a & imm),
            Slli => Some(a.wrapping_shl(imm)),
            Srli => Some(a.wrapping_shr(imm)),
            Srai => Some(sa.wrapping_shr(imm) as u32),
            Add => Some(a.wrapping_add(b)),
            Sub => Some(a.wrapping_sub(b)),
            Sll => Some(a.wrapping_shl(b & 31)),
            Slt => Some((sa < sb).into()),
            Sltu => Some((a < b).into()),
            Xor => Some(a ^ b),
            Srl => Some(a.wrapping_shr(b & 31)),
            Sra => Some(sa.wrapping_shr(b & 31) as u32),
            Or => Some(a | b),
            And => Some(a & b),
            Mul => Some((u64::from(a) * u64::from(b)) as u32),
            Mulh => Some(((i128::from(sa) * i128::from(sb)) >> 32) as u32),
            Mulhsu => Some(((i128::from(sa) * i128::from(b)) >> 32) as u32),
            Mulhu => Some(((u128::from(a) * u128::from(b)) >> 32) as u32),
            Div => Some(if b == 0 { u32::MAX } else if a == 0x8000_0000 && b == u32::MAX { 0x8000_0000 } else { (sa / sb) as u32 }),
            Divu => Some(if b == 0 { u32::MAX } else { a / b }),
            Rem => Some(if b == 0 { a } else if a == 0x8000_0000 && b == u32::MAX { 0 } else { (sa % sb) as u32 }),
            Remu => Some(if b == 0 { a } else { a % b }),
            Fence | Ebreak | Mret => None,
            Csr => None,
            Ecall => {
                let [code, p, n, o] = [self.regs[10], self.regs[11], self.regs[12], self.regs[13]];
                match code {
                    HALT => {
                        self.halted = true;
                        info.halt = true;
                        next = pc;
                    }
                    PANIC => {
                        if n > 1 << 24 {
                            return Err(Trap::TooBig);
                        }
                        return Err(Trap::Panic((0..n).map(|j| self.ld(p.wrapping_add(j))).collect()));
                    }
                    PRIVATE | PUBLIC | CALL | EVENT => {
                        let t = match code {
                            PRIVATE => 0,
                            PUBLIC => 1,
                            CALL => 2,
                            _ => 3,
                        };
                        let left = self.tapes.seq[t].len() - self.idx[t];
                        let m = left.min(n as usize);
                        let d = self.tapes.seq[t][self.idx[t]..self.idx[t] + m].to_vec();
                        self.st(p, &d)?;
                        self.idx[t] += m;
                        info.dst = m as u32;
                        info.used = (0..m as u32).map(|j| p.wrapping_add(j)).collect();
                        info.storage = Some((p, t, d));
                    }
                    EVC | CLC | SELF => {
                        let t = (code - EVC) as usize;
                        let m = 32.min(n as usize);
                        let d = self.tapes.fixed[t][..m].to_vec();
                        self.st(p, &d)?;
                        info.dst = m as u32;
                        info.used = (0..m as u32).map(|j| p.wrapping_add(j)).collect();
                        info.storage = Some((p, 4 + t, d));
                    }
                    POSEIDON2 => {
                        if n % 8 != 0 || n == 0 {
                            return Err(Trap::BadHashLen(n));
                        }
                        if n > 1 << 20 {
                            return Err(Trap::TooBig);
                        }
                        let e: Vec<u64> = (0..n).map(|j| self.ld(p.wrapping_add(j)).into()).collect();
                        let (h, log) = poseidon::hash_elems(&e);
                        let d: Vec<u8> = h.iter().flat_map(|x| x.to_le_bytes()).collect();
                        self.st(o, &d)?;
                        info.used = (0..n).map(|j| p.wrapping_add(j)).chain((0..32).map(|j| o.wrapping_add(j))).collect();
                        info.hash = Some((p, o, n, log));
                    }
                    _ => {}
                }
                None
            }
        };
        if let Some(v) = rd {
            info.dst = v;
            self.set(i.rd, v);
        }
        self.pc = next;
        info.next = next;
        self.steps += 1;
        Ok(info)
    }
}

/// Encoders.
pub mod enc {
    pub fn r(f7: u32, rs2: u32, rs1: u32, f3: u32, rd: u32, op: u32) -> u32 { (f7 << 25) | (rs2 << 20) | (rs1 << 15) | (f3 << 12) | (rd << 7) | op }
    pub fn i(imm: i32, rs1: u32, f3: u32, rd: u32, op: u32) -> u32 { ((imm as u32 & 0xfff) << 20) | (rs1 << 15) | (f3 << 12) | (rd << 7) | op }
    pub fn s(imm: i32, rs2: u32, rs1: u32, f3: u32) -> u32 {
        let m = imm as u32;
        (((m >> 5) & 0x7f) << 25) | (rs2 << 20) | (rs1 << 15) | (f3 << 12) | ((m & 31) << 7) | 0x23
    }
    pub fn b(imm: i32, rs2: u32, rs1: u32, f3: u32) -> u32 {
        let m = imm as u32;
        (((m >> 12) & 1) << 31) | (((m >> 5) & 0x3f) << 25) | (rs2 << 20) | (rs1 << 15) | (f3 << 12) | (((m >> 1) & 15) << 8) | (((m >> 11) & 1) << 7) | 0x63
    }
    pub fn u(imm: u32, rd: u32, op: u32) -> u32 { (imm & 0xffff_f000) | (rd << 7) | op }
    pub fn j(imm: i32, rd: u32) -> u32 {
        let m = imm as u32;
        (((m >> 20) & 1) << 31) | (((m >> 1) & 0x3ff) << 21) | (((m >> 11) & 1) << 20) | (((m >> 12) & 0xff) << 12) | (rd << 7) | 0x6f
    }
    pub const ECALL: u32 = 0x73;
    /// Loads a constant into a register: LUI + ADDI.
    pub fn li(rd: u32, v: u32) -> [u32; 2] {
        let lo = ((v & 0xfff) ^ 0x800).wrapping_sub(0x800);
        [u(v.wrapping_sub(lo), rd, 0x37), i(lo as i32, rd, 0, rd, 0x13)]
    }
}

/// A minimal ELF32 writer.
#[derive(Clone, Debug)]
pub struct Seg {
    pub p_type: u32,
    pub flags: u32,
    pub vaddr: u32,
    pub data: Vec<u8>,
    pub memsz: u32,
}
pub const R: u32 = 4;
pub const W: u32 = 2;
pub const X: u32 = 1;

pub fn elf(entry: u32, segs: &[Seg]) -> Vec<u8> {
    let mut o = vec![0x7f, b'E', b'L', b'F', 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0];
    let h16 = |o: &mut Vec<u8>, v: u16| o.extend(v.to_le_bytes());
    let w32 = |o: &mut Vec<u8>, v: u32| o.extend(v.to_le_bytes());
    h16(&mut o, 2);
    h16(&mut o, 243);
    w32(&mut o, 1);
    w32(&mut o, entry);
    w32(&mut o, 52);
    w32(&mut o, 0);
    w32(&mut o, 0);
    h16(&mut o, 52);
    h16(&mut o, 32);
    h16(&mut o, segs.len() as u16);
    h16(&mut o, 40);
    h16(&mut o, 0);
    h16(&mut o, 0);
    let mut off = 52 + 32 * segs.len() as u32;
    for s in segs {
        w32(&mut o, s.p_type);
        w32(&mut o, off);
        w32(&mut o, s.vaddr);
        w32(&mut o, s.vaddr);
        w32(&mut o, s.data.len() as u32);
        w32(&mut o, s.memsz);
        w32(&mut o, s.flags);
        w32(&mut o, 4);
        off += s.data.len() as u32;
    }
    for s in segs {
        o.extend(&s.data);
    }
    o
}

/// Parses the loadable segments of a well-formed ELF32 file.
pub fn parse_elf(b: &[u8]) -> (u32, Vec<Seg>) {
    let w = |o: usize| u32::from_le_bytes(b[o..o + 4].try_into().unwrap());
    let h = |o: usize| u16::from_le_bytes(b[o..o + 2].try_into().unwrap());
    let ph = w(28) as usize;
    let segs = (0..h(44) as usize)
        .map(|k| {
            let o = ph + k * h(42) as usize;
            let (off, fs) = (w(o + 4) as usize, w(o + 16) as usize);
            Seg { p_type: w(o), flags: w(o + 24), vaddr: w(o + 8), data: b[off..off + fs].to_vec(), memsz: w(o + 20) }
        })
        .filter(|s| s.p_type == 1)
        .collect();
    (w(24), segs)
}

/// The machine a well-formed file describes.
pub fn load(entry: u32, segs: &[Seg], tapes: Tapes) -> Ref {
    let mut m = Ref { pc: entry, tapes, ..Ref::default() };
    let mut x: HashMap<u32, u8> = HashMap::new();
    for s in segs.iter().filter(|s| s.p_type == 1) {
        for i in 0..s.memsz {
            let a = s.vaddr.wrapping_add(i);
            let v = s.data.get(i as usize).copied().unwrap_or(0);
            if s.flags & R != 0 {
                m.mem.insert(a, v);
                if s.flags & W == 0 {
                    m.ro.insert(a);
                }
            }
            if s.flags & X != 0 {
                x.insert(a, v);
            }
        }
    }
    for a in x.keys() {
        let k = a & !3;
        let w = u32::from_le_bytes(core::array::from_fn(|i| x.get(&k.wrapping_add(i as u32)).copied().unwrap_or(0)));
        m.code.insert(k, w);
    }
    m
}
