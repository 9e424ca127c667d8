//! A stand-in for sha3: Keccak-256.
pub struct Output(pub [u8; 32]);
impl From<Output> for [u8; 32] { fn from(o: Output) -> Self { o.0 } }
impl std::ops::Deref for Output { type Target = [u8]; fn deref(&self) -> &[u8] { &self.0 } }
pub trait Digest: Sized { fn new() -> Self; fn update(&mut self, d: impl AsRef<[u8]>); fn finalize(self) -> Output;
    fn chain_update(mut self, d: impl AsRef<[u8]>) -> Self { self.update(d); self }
    fn digest(d: impl AsRef<[u8]>) -> Output { Self::new().chain_update(d).finalize() } }
#[derive(Clone, Default)]
pub struct Keccak256(Vec<u8>);
impl Digest for Keccak256 {
    fn new() -> Self { Self(vec![]) }
    fn update(&mut self, d: impl AsRef<[u8]>) { self.0.extend(d.as_ref()); }
    fn finalize(self) -> Output { let w = absorb(&pad(&self.0)); let mut o = [0; 32]; for (c, w) in o.chunks_mut(4).zip(w) { c.copy_from_slice(&(w as u32).to_le_bytes()); } Output(o) }
}
pub fn pad(d: &[u8]) -> Vec<u64> {
    let mut v = d.to_vec(); v.push(1); while v.len() % 136 != 0 { v.push(0); } *v.last_mut().unwrap() |= 0x80;
    v.chunks(4).map(|c| u64::from(u32::from_le_bytes(c.try_into().unwrap()))).collect()
}
pub fn absorb(ws: &[u64]) -> Vec<u64> {
    let mut a = [[0u64; 5]; 5];
    for b in ws.chunks(34) {
        for i in 0..17 { a[i % 5][i / 5] ^= b[2 * i] | b[2 * i + 1] << 32; }
        let mut l = 1u8;
        for _ in 0..24 {
            let c: Vec<u64> = (0..5).map(|x| a[x].iter().fold(0, |p, q| p ^ q)).collect();
            for x in 0..5 { let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1); for y in 0..5 { a[x][y] ^= d; } }
            let (mut x, mut y, mut cur) = (1, 0, a[1][0]);
            for t in 0..24u32 { let ny = (2 * x + 3 * y) % 5; x = y; y = ny; std::mem::swap(&mut cur, &mut a[x][y]); a[x][y] = a[x][y].rotate_left((t + 1) * (t + 2) / 2 % 64); }
            for y in 0..5 { let r: Vec<u64> = (0..5).map(|x| a[x][y]).collect(); for x in 0..5 { a[x][y] = r[x] ^ !r[(x + 1) % 5] & r[(x + 2) % 5]; } }
            for j in 0..7 { if l & 1 == 1 { a[0][0] ^= 1 << ((1u32 << j) - 1); } let top = l >> 7; l = l << 1 ^ top * 0x71; }
        }
    }
    (0..8).map(|i| a[i / 2][0] >> (32 * (i % 2)) & 0xFFFF_FFFF).collect()
}
#[test]
fn known() { assert_eq!(Keccak256::digest(b"")[..4], [0xc5, 0xd2, 0x46, 0x01]); assert_eq!(Keccak256::digest(b"abc")[..4], [0x4e, 0x03, 0x65, 0x7a]); }
