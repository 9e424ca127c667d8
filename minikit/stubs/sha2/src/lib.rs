//! A stand-in for sha2: SHA-256 as written in FIPS 180-4.
pub struct Output(pub [u8; 32]);
impl From<Output> for [u8; 32] { fn from(o: Output) -> Self { o.0 } }
impl std::ops::Deref for Output { type Target = [u8]; fn deref(&self) -> &[u8] { &self.0 } }
pub trait Digest: Sized { fn new() -> Self; fn update(&mut self, d: impl AsRef<[u8]>); fn finalize(self) -> Output;
    fn chain_update(mut self, d: impl AsRef<[u8]>) -> Self { self.update(d); self }
    fn digest(d: impl AsRef<[u8]>) -> Output { Self::new().chain_update(d).finalize() } }
#[derive(Clone, Default)]
pub struct Sha256(Vec<u8>);
impl Digest for Sha256 {
    fn new() -> Self { Self(vec![]) }
    fn update(&mut self, d: impl AsRef<[u8]>) { self.0.extend(d.as_ref()); }
    fn finalize(self) -> Output { let w = compress(&pad(&self.0)); let mut o = [0; 32]; for (c, w) in o.chunks_mut(4).zip(w) { c.copy_from_slice(&(w as u32).to_be_bytes()); } Output(o) }
}
pub fn pad(d: &[u8]) -> Vec<u64> {
    let mut v = d.to_vec(); v.push(0x80); while v.len() % 64 != 56 { v.push(0); } v.extend((d.len() as u64 * 8).to_be_bytes());
    v.chunks(4).map(|c| u64::from(u32::from_be_bytes(c.try_into().unwrap()))).collect()
}
fn frac(p: u64, root: u32) -> u32 {
    // the first 32 bits of the fractional part of a root of a prime, by bisection
    let (mut lo, mut hi) = (0u128, 1u128 << 40);
    let le = |x: u128| if root == 2 { x * x <= u128::from(p) << 64 } else { x.checked_mul(x).and_then(|y| y.checked_mul(x)).is_some_and(|y| y <= u128::from(p) << 96) };
    while hi - lo > 1 { let m = (lo + hi) / 2; if le(m) { lo = m; } else { hi = m; } }
    lo as u32
}
fn primes() -> impl Iterator<Item = u64> { (2..).filter(|n| (2..*n).take_while(|d| d * d <= *n).all(|d| n % d != 0)) }
pub fn compress(ws: &[u64]) -> Vec<u64> {
    let mut h: Vec<u32> = primes().take(8).map(|p| frac(p, 2)).collect();
    let k: Vec<u32> = primes().take(64).map(|p| frac(p, 3)).collect();
    for b in ws.chunks(16) {
        let mut w: Vec<u32> = b.iter().map(|x| *x as u32).collect();
        for i in 16..64 { let (a, c) = (w[i - 15], w[i - 2]);
            w.push(w[i - 16].wrapping_add(a.rotate_right(7) ^ a.rotate_right(18) ^ a >> 3).wrapping_add(w[i - 7]).wrapping_add(c.rotate_right(17) ^ c.rotate_right(19) ^ c >> 10)); }
        let mut s = h.clone();
        for i in 0..64 {
            let t1 = s[7].wrapping_add(s[4].rotate_right(6) ^ s[4].rotate_right(11) ^ s[4].rotate_right(25)).wrapping_add(s[4] & s[5] ^ !s[4] & s[6]).wrapping_add(k[i]).wrapping_add(w[i]);
            let t2 = (s[0].rotate_right(2) ^ s[0].rotate_right(13) ^ s[0].rotate_right(22)).wrapping_add(s[0] & s[1] ^ s[0] & s[2] ^ s[1] & s[2]);
            s.rotate_right(1); s[4] = s[4].wrapping_add(t1); s[0] = t1.wrapping_add(t2);
        }
        for (a, b) in h.iter_mut().zip(s) { *a = a.wrapping_add(b); }
    }
    h.into_iter().map(u64::from).collect()
}
#[test]
fn known() { assert_eq!(Sha256::digest(b"abc")[..4], [0xba, 0x78, 0x16, 0xbf]); }
