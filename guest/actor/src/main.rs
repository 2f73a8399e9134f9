// A guest program that does what a script on its private tape says, through the public SDK, and
// logs everything it observed at LOG in memory, where the host reads it after the run.
#![no_main]
#![feature(restricted_std)]
mod msgs;
use std::alloc::{alloc, alloc_zeroed, dealloc, realloc, Layout};

use mozak_sdk::common::merkle::merkleize;
use mozak_sdk::common::types::{CanonicalEvent, Event, EventType, Poseidon2Hash, ProgramIdentifier, StateAddress, StateObject};
use mozak_sdk::{call_receive, call_send, event_emit, input_tape_len, poseidon2_hash_no_pad, poseidon2_hash_with_pad, read, InputTapeType};
use msgs::{Flat, Rd};

const LOG: usize = 0xE000_0000;
static mut POS: usize = LOG + 16;
fn log(b: &[u8]) {
    unsafe {
        for x in b {
            (POS as *mut u8).write_volatile(*x);
            POS += 1;
        }
        (LOG as *mut u32).write_volatile((POS - LOG - 16) as u32);
    }
}
fn log32(x: usize) { log(&(x as u32).to_le_bytes()) }

fn kind(k: u8) -> InputTapeType { if k == 0 { InputTapeType::PublicTape } else { InputTapeType::PrivateTape } }
fn event(r: &mut Rd) -> Event {
    Event {
        type_: match r.u8() {
            0 => EventType::Write,
            1 => EventType::Ensure,
            2 => EventType::Read,
            3 => EventType::GiveOwner,
            _ => EventType::TakeOwner,
        },
        object: StateObject {
            address: StateAddress(r.arr()),
            constraint_owner: ProgramIdentifier(Poseidon2Hash(r.arr())),
            data: r.vec(),
        },
    }
}
fn sp() -> usize {
    let s: usize;
    unsafe { core::arch::asm!("mv {}, sp", out(reg) s) };
    s
}

struct Block {
    ptr: *mut u8,
    size: usize,
    align: usize,
}
// bytes of a block that are written and checked: all, or both ends of a big one
fn probes(from: usize, to: usize) -> impl Iterator<Item = usize> {
    let (a, b) = if to - from.min(to) <= 4096 { (to, to) } else { (from + 64, to - 64) };
    (from..a).chain(b..to)
}
fn fill(b: &Block, seed: u8, from: usize) {
    for i in probes(from, b.size) {
        unsafe { b.ptr.add(i).write_volatile((i as u8).wrapping_mul(31) ^ seed) };
    }
}
fn intact(b: &Block, seed: u8, n: usize) -> bool { probes(0, n).all(|i| unsafe { b.ptr.add(i).read_volatile() } == (i as u8).wrapping_mul(31) ^ seed) }

fn main() {
    let mut len = [0; 4];
    let n = read(&InputTapeType::PrivateTape, &mut len).unwrap();
    log32(n);
    let mut script = vec![0; u32::from_le_bytes(len) as usize];
    let n = read(&InputTapeType::PrivateTape, &mut script).unwrap();
    log32(n);
    let mut r = Rd(&script);
    let mut blocks: Vec<Block> = Vec::with_capacity(512);
    loop {
        let op = r.u8();
        log(&[op]);
        match op {
            0 => break,
            1 => {
                let (ka, kr) = (r.u8(), r.u8());
                let mut o = vec![];
                msgs_recv(ka, kr, &mut o);
                log(&o);
            }
            2 => {
                let to = ProgramIdentifier(Poseidon2Hash(r.arr()));
                let (ka, kr) = (r.u8(), r.u8());
                let mut o = vec![];
                with_kind!(ka, A => {
                    let a = <A as Flat>::dec(&mut r);
                    with_kind!(kr, R => {
                        let x: R = call_send(to, a, |_: A| -> R { panic!("the guest must not run the resolver") });
                        x.enc(&mut o);
                    })
                });
                log(&o);
            }
            3 => event_emit(event(&mut r)),
            4 => {
                let (k, n) = (r.u8(), r.u32() as usize);
                let mut buf = vec![0xA5; n];
                let got = read(&kind(k), &mut buf);
                log32(got.map_or(usize::MAX, |x| x));
                log(&buf);
            }
            5 => {
                let k = r.u8();
                log32(input_tape_len(&kind(k)));
            }
            6 => log(&poseidon2_hash_with_pad(&r.vec()).inner()),
            7 => log(&poseidon2_hash_no_pad(&r.vec()).inner()),
            8 => log(&Poseidon2Hash::two_to_one(Poseidon2Hash(r.arr()), Poseidon2Hash(r.arr())).inner()),
            9 => {
                let c = CanonicalEvent::from_event(&event(&mut r));
                log(&c.address.inner());
                log(&[c.type_ as u8]);
                log(&c.value.inner());
                log(&c.canonical_hash().inner());
            }
            10 => {
                let n = r.u32();
                let l = (0..n).map(|_| (r.u64(), Poseidon2Hash(r.arr()))).collect();
                log(&merkleize(l).inner());
            }
            11 => {
                let (size, align, zeroed) = (r.u32() as usize, r.u32() as usize, r.u8());
                let l = Layout::from_size_align(size, align).unwrap();
                let ptr = unsafe { if zeroed == 1 { alloc_zeroed(l) } else { alloc(l) } };
                log32(ptr as usize);
                log32(sp());
                if !ptr.is_null() {
                    let dirty = if zeroed == 1 { probes(0, size).filter(|i| unsafe { ptr.add(*i).read_volatile() } != 0).count() } else { 0 };
                    log32(dirty);
                    let b = Block { ptr, size, align };
                    fill(&b, blocks.len() as u8, 0);
                    blocks.push(b);
                }
            }
            12 => {
                let (i, size) = (r.u32() as usize, r.u32() as usize);
                let b = &mut blocks[i];
                let keep = b.size.min(size);
                let p = unsafe { realloc(b.ptr, Layout::from_size_align(b.size, b.align).unwrap(), size) };
                log32(p as usize);
                log32(sp());
                if !p.is_null() {
                    let nb = Block { ptr: p, size, align: b.align };
                    log(&[u8::from(intact(&nb, i as u8, keep))]);
                    *b = nb;
                    fill(b, i as u8, keep);
                }
            }
            13 => {
                // all blocks still hold what was written to them
                let bad = blocks.iter().enumerate().filter(|(i, b)| !intact(b, *i as u8, b.size)).count();
                log32(bad);
            }
            14 => {
                let i = r.u32() as usize;
                let b = &mut blocks[i];
                unsafe { dealloc(b.ptr, Layout::from_size_align(b.size, b.align).unwrap()) };
                b.size = 0;
            }
            15 => mozak_sdk::core::env::write(&r.vec()),
            16 => {
                let h = Poseidon2Hash(r.arr());
                for x in h.to_u64s() {
                    log(&x.to_le_bytes());
                }
                log(&Poseidon2Hash::from_u64s(h.to_u64s()).inner());
                log(&Poseidon2Hash::from(h.to_u64s()).inner());
            }
            17 => {
                // ordinary collections on the guest heap
                let n = r.u32();
                let mut m = std::collections::BTreeMap::new();
                let mut v: Vec<u32> = vec![];
                let mut s = String::new();
                let mut x = r.u32();
                for i in 0..n {
                    x = x.wrapping_mul(1664525).wrapping_add(1013904223);
                    m.insert(x >> 12, i);
                    v.push(x);
                    s.push((b'a' + (x >> 28) as u8) as char);
                }
                let mut h = 0u32;
                for (k, i) in &m {
                    h = h.wrapping_mul(31).wrapping_add(k ^ i);
                }
                v.sort_unstable();
                for k in &v {
                    h = h.wrapping_mul(33).wrapping_add(*k);
                }
                for c in s.bytes() {
                    h = h.wrapping_mul(37).wrapping_add(u32::from(c));
                }
                log32(h as usize);
            }
            _ => panic!("bad script"),
        }
    }
}

fn msgs_recv(ka: u8, kr: u8, o: &mut Vec<u8>) {
    with_kind!(ka, A => with_kind!(kr, R => match call_receive::<A, R>() {
        None => o.push(0),
        Some((c, a, r)) => {
            o.push(1);
            o.extend(c.inner());
            a.enc(o);
            r.enc(o);
        }
    }))
}

mozak_sdk::entry!(main);
