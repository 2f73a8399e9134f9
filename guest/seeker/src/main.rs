// Drives the SDK's input tape reader directly (Read and Seek), as its private types do not leave
// the crate. The script comes over the call tape.
#![no_main]
#![feature(restricted_std)]
mod core {
    pub use mozak_sdk::core::*;
}
#[path = "/repo/sdk/src/mozakvm/inputtape.rs"]
mod inputtape;
use std::io::{Read, Seek, SeekFrom};

const LOG: usize = 0xE000_0000;
static mut POS: usize = LOG + 16;
fn log(b: &[u8]) {
    unsafe {
        for x in b {
            (POS as *mut u8).write_volatile(*x);
            POS += 1;
        }
        (LOG as *mut u32).write_volatile((POS - LOG - 16) as u32);
    }
}
fn log64(x: u64) { log(&x.to_le_bytes()) }

#[no_mangle]
fn bespoke_entrypoint() {
    mozak_sdk::core::always_abort();
    let mut b4 = [0; 4];
    mozak_sdk::core::ecall::ioread_public(&mut b4);
    let mut public = inputtape::PublicInputTape::with_size_hint(u32::from_le_bytes(b4) as usize);
    mozak_sdk::core::ecall::ioread_private(&mut b4);
    let mut private = inputtape::PrivateInputTape::with_size_hint(u32::from_le_bytes(b4) as usize);
    loop {
        let mut op = [0; 11];
        mozak_sdk::core::ecall::call_tape_read(&mut op);
        let v = i64::from_le_bytes(op[2..10].try_into().unwrap());
        let t: &mut inputtape::RandomAccessEcallTape = if op[1] == 0 { &mut public } else { &mut private };
        log(&op[..1]);
        match op[0] {
            0 => break,
            1 => {
                let mut buf = vec![0xA5; v as usize];
                log64(t.read(&mut buf).unwrap_or(usize::MAX) as u64);
                log(&buf);
            }
            k => {
                let p = match k {
                    2 => SeekFrom::Start(v as u64),
                    3 => SeekFrom::End(v),
                    _ => SeekFrom::Current(v),
                };
                log64(t.seek(p).unwrap_or(u64::MAX));
            }
        }
    }
}
