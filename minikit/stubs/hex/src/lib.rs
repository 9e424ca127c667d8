//! Offline stand-in for `hex`.
#[derive(Debug)]
pub struct FromHexError;
pub fn encode(b: impl AsRef<[u8]>) -> String { b.as_ref().iter().map(|x| format!("{x:02x}")).collect() }
pub fn decode(s: impl AsRef<[u8]>) -> Result<Vec<u8>, FromHexError> {
    let s = s.as_ref();
    if s.len() % 2 == 1 { return Err(FromHexError); }
    s.chunks(2).map(|c| std::str::from_utf8(c).ok().and_then(|c| u8::from_str_radix(c, 16).ok()).ok_or(FromHexError)).collect()
}
