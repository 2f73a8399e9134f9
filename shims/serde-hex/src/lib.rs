//! Stand-in for serde-hex: byte arrays and vectors as hex strings.
use serde::de::Error;
use serde::{Deserialize, Deserializer, Serializer};
pub trait HexConf {
    const PFX: bool;
    const UPPER: bool = false;
}
macro_rules! conf { ($($n:ident $p:expr, $u:expr;)*) => { $(
    #[derive(Copy, Clone, Debug)] pub struct $n;
    impl HexConf for $n { const PFX: bool = $p; const UPPER: bool = $u; }
)* } }
conf! { Strict false, false; StrictPfx true, false; StrictCap false, true; StrictCapPfx true, true;
        Compact false, false; CompactPfx true, false; CompactCap false, true; CompactCapPfx true, true; }
fn enc<C: HexConf>(b: &[u8]) -> String {
    let h = if C::UPPER { hex::encode_upper(b) } else { hex::encode(b) };
    if C::PFX { format!("0x{h}") } else { h }
}
fn dec<'de, C: HexConf, D: Deserializer<'de>>(d: D) -> Result<Vec<u8>, D::Error> {
    let s = String::deserialize(d)?;
    let body = if C::PFX {
        s.strip_prefix("0x").ok_or_else(|| D::Error::custom("missing `0x` prefix"))?
    } else {
        &s
    };
    hex::decode(body).map_err(D::Error::custom)
}
pub trait SerHex<C: HexConf>: Sized {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error>;
    fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Self, D::Error>;
}
impl<C: HexConf, const N: usize> SerHex<C> for [u8; N] {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_str(&enc::<C>(self)) }
    fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        dec::<C, D>(d)?.try_into().map_err(|_| D::Error::custom("bad length"))
    }
}
pub trait SerHexSeq<C: HexConf>: Sized {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error>;
    fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Self, D::Error>;
}
impl<C: HexConf> SerHexSeq<C> for Vec<u8> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_str(&enc::<C>(self)) }
    fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { dec::<C, D>(d) }
}
