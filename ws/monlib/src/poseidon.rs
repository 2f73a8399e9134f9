//! Independent, naive Poseidon2-Goldilocks (width 12, rate 8), with the round constants
//! generated from the Grain LFSR. Shares no code with the repository or its dependencies.
use std::sync::OnceLock;
pub const P: u64 = 0xFFFF_FFFF_0000_0001;
const D: [u64; 12] = [0xc3b6c08e23ba9300, 0xd84b5de94a324fb6, 0x0d0c371c5b35b84f, 0x7964f570e7188037, 0x5daf18bbd996604b, 0x6743bc47b9595257, 0x5528b9362c59bb70, 0xac45e25b7127b68b, 0xa2077d7dfbb606b5, 0xf3faac6faee378ae, 0x0c6388b51545e883, 0xd27dbb6944917b60];
pub fn add(a: u64, b: u64) -> u64 { ((u128::from(a) + u128::from(b)) % u128::from(P)) as u64 }
pub fn sub(a: u64, b: u64) -> u64 { ((u128::from(a) + u128::from(P) - u128::from(b) % u128::from(P)) % u128::from(P)) as u64 }
pub fn mul(a: u64, b: u64) -> u64 { ((u128::from(a) * u128::from(b)) % u128::from(P)) as u64 }
fn grain() -> Vec<u64> {
    let mut s: Vec<u8> = vec![];
    for (v, l) in [(1u64, 2), (0, 4), (64, 12), (12, 12), (8, 10), (22, 10), ((1 << 30) - 1, 30)] {
        for i in (0..l).rev() {
            s.push(((v >> i) & 1) as u8);
        }
    }
    let upd = |s: &mut Vec<u8>| {
        let b = s[62] ^ s[51] ^ s[38] ^ s[23] ^ s[13] ^ s[0];
        s.remove(0);
        s.push(b);
        b
    };
    for _ in 0..160 {
        upd(&mut s);
    }
    let mut out = vec![];
    while out.len() < 8 * 12 + 22 {
        let mut x = 0u64;
        for _ in 0..64 {
            let bit = loop {
                let b = upd(&mut s);
                let c = upd(&mut s);
                if b == 1 {
                    break c;
                }
            };
            x = (x << 1) | u64::from(bit);
        }
        if x < P {
            out.push(x);
        }
    }
    out
}
fn consts() -> &'static (Vec<u64>, Vec<u64>) {
    static C: OnceLock<(Vec<u64>, Vec<u64>)> = OnceLock::new();
    C.get_or_init(|| {
        let c = grain();
        ([&c[..48], &c[70..]].concat(), c[48..70].to_vec())
    })
}
fn ext(s: &mut [u64; 12]) {
    for k in 0..3 {
        let x: [u64; 4] = s[4 * k..4 * k + 4].try_into().unwrap();
        let t0 = add(x[0], x[1]);
        let t1 = add(x[2], x[3]);
        let t2 = add(mul(2, x[1]), t1);
        let t3 = add(mul(2, x[3]), t0);
        let t4 = add(mul(4, t1), t3);
        let t5 = add(mul(4, t0), t2);
        s[4 * k] = add(t3, t5);
        s[4 * k + 1] = t5;
        s[4 * k + 2] = add(t2, t4);
        s[4 * k + 3] = t4;
    }
    let st: [u64; 4] = core::array::from_fn(|l| add(add(s[l], s[4 + l]), s[8 + l]));
    for i in 0..12 {
        s[i] = add(s[i], st[i % 4]);
    }
}
fn p7(x: u64) -> u64 {
    let x2 = mul(x, x);
    let x4 = mul(x2, x2);
    mul(mul(x4, x2), x)
}
pub fn permute(s: &mut [u64; 12]) {
    // The dependency this repository pins indexes its external round constants with stride 1.
    let (rc, mid) = consts();
    ext(s);
    let full = |s: &mut [u64; 12], r: usize| {
        for i in 0..12 {
            s[i] = p7(add(s[i], rc[r + i]));
        }
        ext(s);
    };
    for r in 0..4 {
        full(s, r);
    }
    for m in mid {
        s[0] = p7(add(s[0], *m));
        let sum = s.iter().fold(0, |a, b| add(a, *b));
        for i in 0..12 {
            s[i] = add(mul(s[i], sub(D[i], 1)), sum);
        }
    }
    for r in 4..8 {
        full(s, r);
    }
}
/// Overwrite-mode sponge over field elements, as in `hash_no_pad`.
pub fn hash_elems(e: &[u64]) -> ([u64; 4], Vec<([u64; 12], [u64; 12])>) {
    let mut s = [0u64; 12];
    let mut log = vec![];
    for c in e.chunks(8) {
        s[..c.len()].copy_from_slice(c);
        let pre = s;
        permute(&mut s);
        log.push((pre, s));
    }
    ([s[0], s[1], s[2], s[3]], log)
}
pub fn hash_bytes(b: &[u8]) -> [u8; 32] {
    let e: Vec<u64> = b.iter().map(|x| u64::from(*x)).collect();
    let h = hash_elems(&e).0;
    let mut o = [0; 32];
    for i in 0..4 {
        o[8 * i..8 * i + 8].copy_from_slice(&h[i].to_le_bytes());
    }
    o
}
pub fn hash_pad(b: &[u8]) -> [u8; 32] {
    let mut v = b.to_vec();
    v.push(1);
    while v.len() % 8 != 0 {
        v.push(0);
    }
    hash_bytes(&v)
}
pub fn two_to_one(l: [u8; 32], r: [u8; 32]) -> [u8; 32] { hash_bytes(&[l, r].concat()) }
#[cfg(test)]
mod tests {
    #[test]
    fn known_answer() {
        // digest committed in sdk/src/common/merkle.rs
        let h1 = super::two_to_one([2; 32], [3; 32]);
        let h2 = super::two_to_one([1; 32], h1);
        let r = super::two_to_one(h2, [4; 32]);
        assert_eq!(r[..4], [232, 132, 143, 27]);
    }
}
