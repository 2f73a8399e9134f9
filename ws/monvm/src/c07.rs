use std::sync::Arc;

use monlib::refvm::{self, Seg, Tapes, R, W, X};
use monlib::{cores, guard, json, parallel, Mon, Rng};
use mozak_runner::elf::Program;
use mozak_runner::state::{RawTapes, State};
use plonky2::field::goldilocks_field::GoldilocksField as F;

const RULE: &str = "each evaluation is one file offered to both loader entry points: generated valid executables (random segments, permissions, order, alignment, bss, extra non-loadable headers) compared byte for byte with the image they describe, and hostile files (unsuitable headers, out-of-range tables and segments, truncations, random mutations of valid files) that must give an error or an image but never a crash; non-trivial: distinct files";

fn valid(r: &mut Rng) -> (u32, Vec<Seg>) {
    let mut segs = vec![];
    let mut at: u32 = *r.pick(&[0u32, 0x1001, 0x0001_0000, 0x7fff_fff0, 0xfffe_0000]);
    let n = 1 + r.idx(6);
    for _ in 0..n {
        let fs = *r.pick(&[0usize, 1, 3, 4, 16, 100, 257]);
        let fs = if r.chance(1, 3) { r.idx(300) } else { fs };
        let memsz = fs as u32 + if r.chance(1, 2) { r.below(64) as u32 } else { 0 };
        let f = *r.pick(&[R, R | W, R | X, R | W | X, R | X, R | W]);
        segs.push(Seg { p_type: 1, flags: f, vaddr: at, data: r.bytes(fs), memsz });
        at = at.wrapping_add(memsz).wrapping_add(if r.chance(1, 3) { 0 } else { r.below(5000) as u32 });
        if at > 0xffff_f000 {
            break;
        }
    }
    // up to the very end of the address space
    if r.chance(1, 6) {
        let n = 4 * (1 + r.below(10)) as u32;
        segs.push(Seg { p_type: 1, flags: *r.pick(&[R, R | W, R | X]), vaddr: 0u32.wrapping_sub(n), data: r.bytes(n as usize), memsz: n });
    }
    if r.chance(1, 2) {
        r.shuffle(&mut segs);
    }
    // headers that describe no memory
    if r.chance(1, 2) {
        for (t, f) in [(0x6474_e551u32, R | W), (0x7000_0003, R), (4, R), (6, R), (0x6474_e552, R), (0, R | W)] {
            if r.chance(1, 3) {
                let base = segs[r.idx(segs.len())].clone();
                let n = r.idx(20);
                let at = if r.chance(1, 2) { base.vaddr } else { 0 };
                segs.push(Seg { p_type: t, flags: f, vaddr: at, data: r.bytes(n), memsz: n as u32 });
            }
        }
    }
    (r.u32() & !3, segs)
}

fn check_image(m: &Mon, entry: u32, segs: &[Seg], bytes: &[u8]) {
    m.eval();
    m.nontrivial(monlib::fnv(bytes));
    for (which, res) in [("vanilla", guard(|| Program::vanilla_load_elf(bytes))), ("mozak", guard(|| Program::mozak_load_program(bytes)))] {
        let bad = |sig: &str, d: String| m.violation(&format!("{sig}/{which}"), format!("{d}\nentry {entry:#x} segments {:x?}\nfile {}", segs.iter().map(|s| (s.p_type, s.flags, s.vaddr, s.data.len(), s.memsz)).collect::<Vec<_>>(), monlib::hex(bytes)));
        let p = match res {
            Ok(Ok(p)) => p,
            Ok(Err(e)) => {
                bad("refuses-valid", e.to_string());
                continue;
            }
            Err(e) => {
                bad("crash-on-valid", e);
                continue;
            }
        };
        let want = refvm::load(entry, segs, Tapes::default());
        if p.entry_point != entry {
            bad("entry", format!("{:#x}", p.entry_point));
        }
        let st = State::<F>::new(p.clone(), RawTapes::default());
        let st2 = State::<F>::from(p.clone());
        if st.pc != entry || st2.pc != entry {
            bad("initial-pc", format!("{:#x} {:#x}", st.pc, st2.pc));
        }
        for st in [&st, &st2] {
            for (a, v) in &want.mem {
                if st.memory.data.get(a).copied() != Some(*v) {
                    bad("image-byte", format!("byte {a:#x} is {:?}, must be {v:#x}", st.memory.data.get(a)));
                    break;
                }
                let (g, w) = (st.memory.is_read_only.contains(a), want.ro.contains(a));
                if g != w {
                    bad("permission", format!("byte {a:#x} read-only={g}, must be {w}"));
                    break;
                }
            }
            for a in st.memory.data.keys() {
                if !want.mem.contains_key(a) {
                    bad("extra-byte", format!("byte {a:#x} is in the image but in no readable segment"));
                    break;
                }
            }
            for a in &st.memory.is_read_only {
                if !want.ro.contains(a) {
                    bad("extra-protection", format!("byte {a:#x} is read-only"));
                    break;
                }
            }
        }
        for (a, w) in &want.code {
            let want_ok = refvm::decode(*w).is_ok();
            match p.ro_code.get_instruction(*a) {
                Some(Err(e)) if e.instruction == *w && e.pc == *a && !want_ok => {}
                Some(Ok(i)) if mozak_runner::decode::decode_instruction(*a, *w) == Ok(*i) => {}
                None if !want_ok => {}
                g => {
                    bad("code-word", format!("word {w:#010x} at {a:#x} loaded as {g:?}"));
                    break;
                }
            }
        }
        for a in p.ro_code.keys() {
            if !want.code.contains_key(a) {
                bad("extra-code", format!("code at {a:#x}"));
                break;
            }
        }
    }
}

/// `must_refuse`: the file is unsuitable by the statement of the property.
fn hostile(m: &Mon, what: &str, bytes: &[u8], must_refuse: bool) {
    m.eval();
    m.nontrivial(monlib::fnv(bytes));
    m.count(&format!("hostile: {what}"), 1);
    for (which, res) in [("vanilla", guard(|| Program::vanilla_load_elf(bytes).map(|_| ()))), ("mozak", guard(|| Program::mozak_load_program(bytes).map(|_| ())))] {
        match res {
            Ok(Err(_)) => m.count("hostile files refused", 1),
            Ok(Ok(())) if must_refuse => m.violation(&format!("accepts-unsuitable/{what}/{which}"), format!("file {}", monlib::hex(bytes))),
            Ok(Ok(())) => m.count("hostile files loaded", 1),
            Err(e) => m.violation(&format!("crash/{what}/{which}"), format!("{e}\nfile {}", monlib::hex(&bytes[..bytes.len().min(4096)]))),
        }
    }
}

fn put32(b: &mut [u8], o: usize, v: u32) { b[o..o + 4].copy_from_slice(&v.to_le_bytes()); }
fn put16(b: &mut [u8], o: usize, v: u16) { b[o..o + 2].copy_from_slice(&v.to_le_bytes()); }

/// Keeps any segment from describing an image so large that only memory exhaustion is tested.
fn bounded(b: &[u8]) -> bool {
    if b.len() < 52 {
        return true;
    }
    let w = |o: usize| b.get(o..o + 4).map_or(0, |x| u32::from_le_bytes(x.try_into().unwrap()));
    let h = |o: usize| b.get(o..o + 2).map_or(0, |x| u16::from_le_bytes(x.try_into().unwrap()));
    let ph = w(28) as usize;
    let mut total = 0u64;
    for k in 0..h(44) as usize {
        let o = ph.saturating_add(k * 32);
        if o + 32 > b.len() {
            break;
        }
        total += u64::from(w(o + 16).max(w(o + 20)));
    }
    total < 1 << 20
}

pub fn run() -> ! {
    let m = Arc::new(Mon::new("C07"));
    m.watchdog(120, RULE);
    parallel(cores(), |wk| {
        let mut r = m.rng(wk);
        for _ in 0..m.n(1200, 20_000) {
            if !m.within(90, 1200) || m.violation_count() > 100 {
                break;
            }
            let (e, s) = valid(&mut r);
            let b = refvm::elf(e, &s);
            check_image(&m, e, &s, &b);
            m.count("valid executables", 1);
            m.count("segments", s.len() as u64);
            let ph = |k: usize| 52 + 32 * k;
            let k = r.idx(s.len());
            // each kind of unsuitable file
            let mut t = |what: &str, f: &dyn Fn(&mut Vec<u8>), must: bool| {
                let mut c = b.clone();
                f(&mut c);
                if bounded(&c) {
                    hostile(&m, what, &c, must);
                }
            };
            let (x, y) = (r.u32(), r.u8());
            t("magic", &|c| c[(y % 4) as usize] ^= 1 + (y >> 3), true);
            t("class-64", &|c| c[4] = 2, true);
            t("class-other", &|c| c[4] = 3 + (y % 200), true);
            t("big-endian", &|c| c[5] = 2, true);
            t("machine", &|c| put16(c, 18, if x as u16 == 243 { 62 } else { x as u16 }), true);
            t("type", &|c| put16(c, 16, [0, 1, 3, 4, 0xfe00][(y % 5) as usize]), true);
            t("entry-misaligned", &|c| put32(c, 24, e | (1 + u32::from(y % 3))), true);
            t("no-segment-table", &|c| { put32(c, 28, 0); put16(c, 44, 0) }, true);
            t("segment-table-out-of-range", &|c| { let n = c.len() as u32; put32(c, 28, n - 8) }, true);
            t("segment-table-offset", &|c| put32(c, 28, x | 0x0100_0000), true);
            t("too-many-headers", &|c| { put16(c, 44, 257 + u16::from(y)); let n = 52 + 32 * (257 + y as usize); c.resize(n.max(c.len()), 0) }, true);
            t("header-size", &|c| put16(c, 42, 31), true);
            let fs = s[k].data.len() as u32;
            let load = s[k].p_type == 1;
            if load && fs > 0 {
                t("file-offset-beyond", &|c| { let n = c.len() as u32; put32(c, ph(k) + 4, n + 1 + (x >> 16)) }, true);
                t("file-offset-wraps", &|c| put32(c, ph(k) + 4, 0xffff_fff0), true);
                t("file-size-beyond", &|c| { let n = c.len() as u32; put32(c, ph(k) + 16, n); put32(c, ph(k) + 20, n) }, true);
                t("address-wraps", &|c| { put32(c, ph(k) + 8, 0u32.wrapping_sub((fs / 2).max(1))); put32(c, ph(k) + 20, fs + 8) }, true);
                t("bss-wraps", &|c| { put32(c, ph(k) + 8, 0xffff_ff00 - fs); put32(c, ph(k) + 20, fs + 0x1000) }, true);
            }
            // arbitrary damage
            for _ in 0..m.n(6, 20) {
                let mut c = b.clone();
                match r.below(4) {
                    0 => c.truncate(r.idx(c.len())),
                    1 => {
                        for _ in 0..1 + r.idx(4) {
                            let o = r.idx(c.len().min(52 + 32 * s.len()));
                            c[o] = r.u8();
                        }
                    }
                    2 => {
                        let o = 4 * r.idx((52 + 32 * s.len()) / 4);
                        put32(&mut c, o, r.edge32());
                    }
                    _ => {
                        let n = r.idx(120);
                        c = r.bytes(n);
                        if n > 20 && r.chance(3, 4) {
                            c[..7].copy_from_slice(b"\x7fELF\x01\x01\x01");
                        }
                    }
                }
                if bounded(&c) {
                    hostile(&m, "mutation", &c, false);
                }
            }
        }
    });
    // compiler-made files of the repository
    if let Ok(d) = std::fs::read_dir("/repo/riscv-testdata/testdata") {
        let mut ps: Vec<_> = d.flatten().map(|e| e.path()).filter(|p| p.extension().is_none()).collect();
        ps.sort();
        for p in ps {
            let Ok(b) = std::fs::read(&p) else { continue };
            if b.len() > 52 && &b[..4] == b"\x7fELF" {
                let (e, s) = refvm::parse_elf(&b);
                check_image(&m, e, &s, &b);
                m.count("repository executables", 1);
            }
        }
    }
    let (e, s) = valid(&mut m.rng(99));
    m.sample(json!({"entry": e, "segments (type, flags, address, file size, memory size)": format!("{:x?}", s.iter().map(|s| (s.p_type, s.flags, s.vaddr, s.data.len(), s.memsz)).collect::<Vec<_>>())}));
    m.finish(RULE)
}
