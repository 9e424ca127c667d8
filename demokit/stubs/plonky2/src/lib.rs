//! Goldilocks and a stand-in sponge with the interface the machine uses
pub mod field {
    pub mod types {
        pub trait Field: Copy + Clone + std::fmt::Debug + Default + PartialEq + Eq + Send + Sync + 'static + std::iter::Sum
            + std::ops::Add<Output = Self> + std::ops::Sub<Output = Self> + std::ops::Mul<Output = Self> + std::ops::Neg<Output = Self>
            + std::ops::AddAssign + std::ops::SubAssign + std::ops::MulAssign + std::fmt::Display + std::hash::Hash {
            const ZERO: Self;
            const ONE: Self;
            const TWO: Self;
            const NEG_ONE: Self;
            fn from_noncanonical_u64(n: u64) -> Self;
            fn to_u64(&self) -> u64;
            fn from_canonical_u64(n: u64) -> Self { Self::from_noncanonical_u64(n) }
            fn from_canonical_u32(n: u32) -> Self { Self::from_noncanonical_u64(u64::from(n)) }
            fn from_canonical_u16(n: u16) -> Self { Self::from_noncanonical_u64(u64::from(n)) }
            fn from_canonical_u8(n: u8) -> Self { Self::from_noncanonical_u64(u64::from(n)) }
            fn from_canonical_usize(n: usize) -> Self { Self::from_noncanonical_u64(n as u64) }
            fn from_noncanonical_i64(n: i64) -> Self { if n < 0 { -Self::from_noncanonical_u64(n.unsigned_abs()) } else { Self::from_noncanonical_u64(n as u64) } }
            fn from_bool(b: bool) -> Self { Self::from_noncanonical_u64(u64::from(b)) }
            fn is_zero(&self) -> bool { *self == Self::ZERO }
            fn is_nonzero(&self) -> bool { *self != Self::ZERO }
            fn double(&self) -> Self { *self + *self }
            fn square(&self) -> Self { *self * *self }
            fn exp_u64(&self, mut e: u64) -> Self { let mut b = *self; let mut r = Self::ONE; while e > 0 { if e & 1 == 1 { r = r * b; } b = b * b; e >>= 1; } r }
            fn try_inverse(&self) -> Option<Self> { if self.is_zero() { None } else { Some(self.exp_u64(0xFFFF_FFFF_0000_0001 - 2)) } }
            fn inverse(&self) -> Self { self.try_inverse().expect("Tried to invert zero") }
        }
        pub trait PrimeField64: Field { fn to_canonical_u64(&self) -> u64 { self.to_u64() } fn to_noncanonical_u64(&self) -> u64 { self.to_u64() } }
    }
    pub mod goldilocks_field {
        use super::types::{Field, PrimeField64};
        pub const P: u64 = 0xFFFF_FFFF_0000_0001;
        #[derive(Copy, Clone, Debug, Default, PartialEq, Eq, Hash, PartialOrd, Ord, serde::Serialize, serde::Deserialize)]
        pub struct GoldilocksField(pub u64);
        impl std::fmt::Display for GoldilocksField { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.0) } }
        impl std::ops::Add for GoldilocksField { type Output = Self; fn add(self, o: Self) -> Self { Self(((u128::from(self.0) + u128::from(o.0)) % u128::from(P)) as u64) } }
        impl std::ops::Sub for GoldilocksField { type Output = Self; fn sub(self, o: Self) -> Self { Self(((u128::from(self.0) + u128::from(P) - u128::from(o.0)) % u128::from(P)) as u64) } }
        impl std::ops::Mul for GoldilocksField { type Output = Self; fn mul(self, o: Self) -> Self { Self(((u128::from(self.0) * u128::from(o.0)) % u128::from(P)) as u64) } }
        impl std::ops::Neg for GoldilocksField { type Output = Self; fn neg(self) -> Self { Self(0) - self } }
        impl std::ops::AddAssign for GoldilocksField { fn add_assign(&mut self, o: Self) { *self = *self + o; } }
        impl std::ops::SubAssign for GoldilocksField { fn sub_assign(&mut self, o: Self) { *self = *self - o; } }
        impl std::ops::MulAssign for GoldilocksField { fn mul_assign(&mut self, o: Self) { *self = *self * o; } }
        impl std::iter::Sum for GoldilocksField { fn sum<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self(0), |a, b| a + b) } }
        impl std::iter::Product for GoldilocksField { fn product<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self(1), |a, b| a * b) } }
        impl Field for GoldilocksField {
            const ZERO: Self = Self(0);
            const ONE: Self = Self(1);
            const TWO: Self = Self(2);
            const NEG_ONE: Self = Self(P - 1);
            fn from_noncanonical_u64(n: u64) -> Self { Self(n % P) }
            fn to_u64(&self) -> u64 { self.0 }
        }
        impl PrimeField64 for GoldilocksField {}
    }
}
pub mod hash {
    pub mod hash_types {
        pub const NUM_HASH_OUT_ELTS: usize = 4;
        pub trait RichField: crate::field::types::PrimeField64 {}
        impl RichField for crate::field::goldilocks_field::GoldilocksField {}
        #[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
        pub struct HashOut<F> { pub elements: [F; 4] }
        impl<F> From<[F; 4]> for HashOut<F> { fn from(elements: [F; 4]) -> Self { Self { elements } } }
        impl<F: RichField> Default for HashOut<F> { fn default() -> Self { Self { elements: [F::ZERO; 4] } } }
    }
    pub mod hashing {
        pub trait PlonkyPermutation<F>: AsRef<[F]> {
            const RATE: usize;
            const WIDTH: usize;
            fn new<I: IntoIterator<Item = F>>(elts: I) -> Self;
            fn set_elt(&mut self, e: F, i: usize);
            fn set_from_slice(&mut self, e: &[F], start: usize);
            fn permute(&mut self);
            fn squeeze(&self) -> &[F];
        }
    }
    pub mod poseidon2 {
        use super::hash_types::{HashOut, RichField};
        use super::hashing::PlonkyPermutation;
        pub const WIDTH: usize = 12;
        #[derive(Copy, Clone, Debug)]
        pub struct Poseidon2Permutation<F>([F; 12]);
        impl<F> AsRef<[F]> for Poseidon2Permutation<F> { fn as_ref(&self) -> &[F] { &self.0 } }
        impl<F: RichField> PlonkyPermutation<F> for Poseidon2Permutation<F> {
            const RATE: usize = 8;
            const WIDTH: usize = 12;
            fn new<I: IntoIterator<Item = F>>(elts: I) -> Self { let mut s = [F::ZERO; 12]; for (a, b) in s.iter_mut().zip(elts) { *a = b; } Self(s) }
            fn set_elt(&mut self, e: F, i: usize) { self.0[i] = e; }
            fn set_from_slice(&mut self, e: &[F], start: usize) { self.0[start..start + e.len()].copy_from_slice(e); }
            fn permute(&mut self) {
                for r in 0..4u64 {
                    let mut n = [F::ZERO; 12];
                    for i in 0..12 { let mut a = F::from_canonical_u64(r * 131 + i as u64 + 1);
                        for j in 0..12 { a = a + self.0[j] * F::from_canonical_u64(((i * 12 + j + 3) * (i + 7 * j + 5)) as u64); } n[i] = a.exp_u64(7); }
                    self.0 = n;
                }
            }
            fn squeeze(&self) -> &[F] { &self.0[..8] }
        }
        pub struct Poseidon2Hash;
        impl Poseidon2Hash {
            pub fn hash_no_pad<F: RichField>(input: &[F]) -> HashOut<F> {
                let mut p = Poseidon2Permutation::new(std::iter::repeat(F::ZERO));
                for c in input.chunks(8) { p.set_from_slice(c, 0); p.permute(); }
                HashOut { elements: [p.0[0], p.0[1], p.0[2], p.0[3]] }
            }
        }
    }
}
pub mod plonk {
    pub mod config {
        pub trait GenericHashOut<F> { fn to_bytes(&self) -> Vec<u8>; fn from_bytes(b: &[u8]) -> Self; }
        impl<F: crate::hash::hash_types::RichField> GenericHashOut<F> for crate::hash::hash_types::HashOut<F> {
            fn to_bytes(&self) -> Vec<u8> { self.elements.iter().flat_map(|e| e.to_u64().to_le_bytes()).collect() }
            fn from_bytes(b: &[u8]) -> Self { let mut e = [F::ZERO; 4]; for (i, c) in b.chunks(8).enumerate() { let mut x = [0u8; 8]; x[..c.len()].copy_from_slice(c); e[i] = F::from_canonical_u64(u64::from_le_bytes(x)); } Self { elements: e } }
        }
    }
}
