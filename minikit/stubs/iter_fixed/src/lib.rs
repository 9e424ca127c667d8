//! a stand-in: arrays as iterators of known length
pub struct IteratorFixed<T, const N: usize>([T; N]);
pub trait IntoIteratorFixed<const N: usize> { type Item; fn into_iter_fixed(self) -> IteratorFixed<Self::Item, N>; }
impl<T, const N: usize> IntoIteratorFixed<N> for [T; N] { type Item = T; fn into_iter_fixed(self) -> IteratorFixed<T, N> { IteratorFixed(self) } }
impl<T, const N: usize> IntoIteratorFixed<N> for IteratorFixed<T, N> { type Item = T; fn into_iter_fixed(self) -> IteratorFixed<T, N> { self } }
fn gather<T, const N: usize>(i: impl Iterator<Item = T>) -> [T; N] { i.collect::<Vec<_>>().try_into().ok().expect("as long as it was") }
impl<T, const N: usize> IteratorFixed<T, N> {
    pub fn map<U>(self, f: impl FnMut(T) -> U) -> IteratorFixed<U, N> { IteratorFixed(self.0.map(f)) }
    pub fn enumerate(self) -> IteratorFixed<(usize, T), N> { IteratorFixed(gather(self.0.into_iter().enumerate())) }
    pub fn zip<J: IntoIteratorFixed<N>>(self, o: J) -> IteratorFixed<(T, J::Item), N> { IteratorFixed(gather(self.0.into_iter().zip(o.into_iter_fixed().0))) }
    pub fn rev(self) -> Self { IteratorFixed(gather(self.0.into_iter().rev())) }
    pub fn collect<U: From<[T; N]>>(self) -> U { U::from(self.0) }
}
impl<T, const N: usize> IntoIterator for IteratorFixed<T, N> { type Item = T; type IntoIter = std::array::IntoIter<T, N>; fn into_iter(self) -> Self::IntoIter { self.0.into_iter() } }
