// Message types exchanged by the actors; shared by the guest and the native side.
use rkyv::{Archive, Deserialize, Serialize};

#[derive(Archive, Deserialize, Serialize, PartialEq, Clone, Default, Debug)]
pub struct Msg {
    pub a: u32,
    pub b: Vec<u8>,
    pub c: Option<String>,
    pub d: (u64, u8),
}

#[derive(Archive, Deserialize, Serialize, PartialEq, Clone, Default, Debug)]
pub enum Ret {
    #[default]
    Noop,
    Id([u8; 32]),
    Blob(Vec<u8>),
    Num(u64),
}

/// Reader of the flat encoding.
pub struct Rd<'a>(pub &'a [u8]);
impl<'a> Rd<'a> {
    pub fn take(&mut self, n: usize) -> &'a [u8] {
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        a
    }
    pub fn u8(&mut self) -> u8 { self.take(1)[0] }
    pub fn u32(&mut self) -> u32 { u32::from_le_bytes(self.take(4).try_into().unwrap()) }
    pub fn u64(&mut self) -> u64 { u64::from_le_bytes(self.take(8).try_into().unwrap()) }
    pub fn arr<const N: usize>(&mut self) -> [u8; N] { self.take(N).try_into().unwrap() }
    pub fn vec(&mut self) -> Vec<u8> {
        let n = self.u32() as usize;
        self.take(n).to_vec()
    }
}

/// Flat encoding used in scripts and transcripts (independent of rkyv).
pub trait Flat: Sized {
    fn enc(&self, o: &mut Vec<u8>);
    fn dec(r: &mut Rd) -> Self;
}
impl Flat for u8 {
    fn enc(&self, o: &mut Vec<u8>) { o.push(*self) }
    fn dec(r: &mut Rd) -> Self { r.u8() }
}
impl Flat for u64 {
    fn enc(&self, o: &mut Vec<u8>) { o.extend(self.to_le_bytes()) }
    fn dec(r: &mut Rd) -> Self { r.u64() }
}
impl Flat for Vec<u8> {
    fn enc(&self, o: &mut Vec<u8>) {
        o.extend((self.len() as u32).to_le_bytes());
        o.extend(self);
    }
    fn dec(r: &mut Rd) -> Self { r.vec() }
}
impl Flat for Msg {
    fn enc(&self, o: &mut Vec<u8>) {
        o.extend(self.a.to_le_bytes());
        self.b.enc(o);
        match &self.c {
            None => o.push(0),
            Some(s) => {
                o.push(1);
                s.clone().into_bytes().enc(o);
            }
        }
        self.d.0.enc(o);
        self.d.1.enc(o);
    }
    fn dec(r: &mut Rd) -> Self {
        Msg {
            a: r.u32(),
            b: r.vec(),
            c: if r.u8() == 1 { Some(String::from_utf8(r.vec()).unwrap()) } else { None },
            d: (r.u64(), r.u8()),
        }
    }
}
impl Flat for Ret {
    fn enc(&self, o: &mut Vec<u8>) {
        match self {
            Ret::Noop => o.push(0),
            Ret::Id(i) => {
                o.push(1);
                o.extend(i);
            }
            Ret::Blob(b) => {
                o.push(2);
                b.enc(o);
            }
            Ret::Num(n) => {
                o.push(3);
                n.enc(o);
            }
        }
    }
    fn dec(r: &mut Rd) -> Self {
        match r.u8() {
            0 => Ret::Noop,
            1 => Ret::Id(r.arr()),
            2 => Ret::Blob(r.vec()),
            _ => Ret::Num(r.u64()),
        }
    }
}

/// Runs `$body` with the type alias `$t` bound to the message type with number `$k`.
#[macro_export]
macro_rules! with_kind {
    ($k:expr, $t:ident => $body:expr) => {
        match $k {
            0 => { type $t = u8; $body }
            1 => { type $t = u64; $body }
            2 => { type $t = Vec<u8>; $body }
            3 => { type $t = $crate::msgs::Msg; $body }
            _ => { type $t = $crate::msgs::Ret; $body }
        }
    };
}
pub const KINDS: u8 = 5;
