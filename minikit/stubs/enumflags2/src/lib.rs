//! a stand-in for sets of flags of eight bits
pub use enumflags2_derive::bitflags;
use std::marker::PhantomData;
pub trait BitFlag: Copy + 'static { const VARIANTS: &'static [Self]; const ALL_BITS: u8; fn bit(self) -> u8; }
pub struct BitFlags<T>(u8, PhantomData<T>);
impl<T> Clone for BitFlags<T> { fn clone(&self) -> Self { *self } }
impl<T> Copy for BitFlags<T> {}
impl<T> PartialEq for BitFlags<T> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl<T> Eq for BitFlags<T> {}
impl<T> std::fmt::Debug for BitFlags<T> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{:#b}", self.0) } }
impl<T> Default for BitFlags<T> { fn default() -> Self { Self(0, PhantomData) } }
impl<T: BitFlag> BitFlags<T> {
    pub const EMPTY: Self = Self(0, PhantomData);
    pub const ALL: Self = Self(T::ALL_BITS, PhantomData);
    pub fn empty() -> Self { Self::EMPTY }
    pub fn all() -> Self { Self::ALL }
    pub fn from_bits(b: u8) -> Result<Self, String> { if b & !T::ALL_BITS == 0 { Ok(Self(b, PhantomData)) } else { Err(format!("bad flags {b:#b}")) } }
    pub fn from_bits_truncate(b: u8) -> Self { Self(b & T::ALL_BITS, PhantomData) }
    pub fn bits(self) -> u8 { self.0 }
    pub fn len(self) -> usize { self.0.count_ones() as usize }
    pub fn is_empty(self) -> bool { self.0 == 0 }
    pub fn contains(self, o: impl Into<Self>) -> bool { let o = o.into(); self.0 & o.0 == o.0 }
    pub fn intersects(self, o: impl Into<Self>) -> bool { self.0 & o.into().0 != 0 }
    pub fn insert(&mut self, o: impl Into<Self>) { self.0 |= o.into().0; }
    pub fn iter(self) -> impl Iterator<Item = T> + Clone { T::VARIANTS.iter().copied().filter(move |v| self.0 & v.bit() != 0) }
}
impl<T: BitFlag> From<T> for BitFlags<T> { fn from(v: T) -> Self { Self(v.bit(), PhantomData) } }
impl<T: BitFlag, U: Into<BitFlags<T>>> std::ops::BitOr<U> for BitFlags<T> { type Output = Self; fn bitor(self, o: U) -> Self { Self(self.0 | o.into().0, PhantomData) } }
impl<T: BitFlag, U: Into<BitFlags<T>>> std::ops::BitAnd<U> for BitFlags<T> { type Output = Self; fn bitand(self, o: U) -> Self { Self(self.0 & o.into().0, PhantomData) } }
impl<T: BitFlag, U: Into<BitFlags<T>>> std::ops::BitOrAssign<U> for BitFlags<T> { fn bitor_assign(&mut self, o: U) { self.0 |= o.into().0; } }
impl<T: BitFlag> std::ops::Not for BitFlags<T> { type Output = Self; fn not(self) -> Self { Self(!self.0 & T::ALL_BITS, PhantomData) } }
impl<T: BitFlag> FromIterator<T> for BitFlags<T> { fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self { Self(i.into_iter().fold(0, |a, b| a | b.bit()), PhantomData) } }
impl<T: BitFlag> IntoIterator for BitFlags<T> { type Item = T; type IntoIter = std::vec::IntoIter<T>; fn into_iter(self) -> Self::IntoIter { self.iter().collect::<Vec<_>>().into_iter() } }
