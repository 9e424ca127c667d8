//! Offline stand-in for `serde-hex`.
use serde::{de::Error, Deserialize, Deserializer, Serializer};
pub struct StrictPfx;
fn bytes<'de, D: Deserializer<'de>>(d: D) -> Result<Vec<u8>, D::Error> {
    let s = String::deserialize(d)?;
    hex::decode(s.strip_prefix("0x").ok_or_else(|| D::Error::custom("no prefix"))?).map_err(|_| D::Error::custom("not hexadecimal"))
}
pub trait SerHex<C>: Sized {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error>;
    fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Self, D::Error>;
}
impl<C, const N: usize> SerHex<C> for [u8; N] {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_str(&format!("0x{}", hex::encode(self))) }
    fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { bytes(d)?.try_into().map_err(|_| D::Error::custom("wrong length")) }
}
pub trait SerHexSeq<C>: Sized {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error>;
    fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Self, D::Error>;
}
impl<C> SerHexSeq<C> for Vec<u8> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_str(&format!("0x{}", hex::encode(self))) }
    fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { bytes(d) }
}
