//! Stand-in: iterators of a length known at compile time, evaluated eagerly.
pub struct IteratorFixed<T, const N: usize>([T; N]);

pub trait IntoIteratorFixed<const N: usize> {
    type Item;
    fn into_iter_fixed(self) -> IteratorFixed<Self::Item, N>;
}
impl<T, const N: usize> IntoIteratorFixed<N> for [T; N] {
    type Item = T;

    fn into_iter_fixed(self) -> IteratorFixed<T, N> { IteratorFixed(self) }
}
impl<T, const N: usize> IntoIteratorFixed<N> for IteratorFixed<T, N> {
    type Item = T;

    fn into_iter_fixed(self) -> IteratorFixed<T, N> { self }
}
impl<'a, T, const N: usize> IntoIteratorFixed<N> for &'a [T; N] {
    type Item = &'a T;

    fn into_iter_fixed(self) -> IteratorFixed<&'a T, N> { IteratorFixed(self.each_ref()) }
}
impl<T, const N: usize> IntoIterator for IteratorFixed<T, N> {
    type IntoIter = core::array::IntoIter<T, N>;
    type Item = T;

    fn into_iter(self) -> Self::IntoIter { self.0.into_iter() }
}
pub trait FromIteratorFixed<T, const N: usize> {
    fn from_iter_fixed(i: IteratorFixed<T, N>) -> Self;
}
impl<T, const N: usize> FromIteratorFixed<T, N> for [T; N] {
    fn from_iter_fixed(i: IteratorFixed<T, N>) -> Self { i.0 }
}
impl<T, const N: usize> IteratorFixed<T, N> {
    pub fn map<U>(self, f: impl FnMut(T) -> U) -> IteratorFixed<U, N> { IteratorFixed(self.0.map(f)) }

    pub fn inspect(self, mut f: impl FnMut(&T)) -> Self {
        self.0.iter().for_each(&mut f);
        self
    }

    pub fn zip<I: IntoIteratorFixed<N>>(self, o: I) -> IteratorFixed<(T, I::Item), N> {
        let mut b = o.into_iter_fixed().0.into_iter();
        IteratorFixed(self.0.map(|a| (a, b.next().unwrap())))
    }

    pub fn enumerate(self) -> IteratorFixed<(usize, T), N> {
        let mut k = 0;
        IteratorFixed(self.0.map(|a| {
            k += 1;
            (k - 1, a)
        }))
    }

    pub fn rev(mut self) -> Self {
        self.0.reverse();
        self
    }

    pub fn collect<C: FromIteratorFixed<T, N>>(self) -> C { C::from_iter_fixed(self) }
}
