//! Stand-in without threads, like plonky2_maybe_rayon without "parallel".
pub trait MaybeParIter<T> {
    fn par_iter(&self) -> core::slice::Iter<'_, T>;
}
impl<T> MaybeParIter<T> for [T] {
    fn par_iter(&self) -> core::slice::Iter<'_, T> { self.iter() }
}

pub trait MaybeIntoParIter {
    type Item;
    type Iter: Iterator<Item = Self::Item>;
    fn into_par_iter(self) -> Self::Iter;
}
impl<I: IntoIterator> MaybeIntoParIter for I {
    type Item = I::Item;
    type Iter = I::IntoIter;

    fn into_par_iter(self) -> Self::Iter { self.into_iter() }
}
pub trait MaybeParChunks<T> {
    fn par_chunks(&self, n: usize) -> core::slice::Chunks<'_, T>;
    fn par_chunks_exact(&self, n: usize) -> core::slice::ChunksExact<'_, T>;
}
impl<T> MaybeParChunks<T> for [T] {
    fn par_chunks(&self, n: usize) -> core::slice::Chunks<'_, T> { self.chunks(n) }

    fn par_chunks_exact(&self, n: usize) -> core::slice::ChunksExact<'_, T> { self.chunks_exact(n) }
}
pub trait MaybeParIterMut<T> {
    fn par_iter_mut(&mut self) -> core::slice::IterMut<'_, T>;
}
impl<T> MaybeParIterMut<T> for [T] {
    fn par_iter_mut(&mut self) -> core::slice::IterMut<'_, T> { self.iter_mut() }
}
pub trait ParallelIteratorMock: Iterator + Sized {
    fn flat_map_iter<U: IntoIterator, F: FnMut(Self::Item) -> U>(
        self,
        f: F,
    ) -> core::iter::FlatMap<Self, U, F> {
        self.flat_map(f)
    }
    fn find_any<P: FnMut(&Self::Item) -> bool>(mut self, p: P) -> Option<Self::Item> { self.find(p) }
    fn find_first<P: FnMut(&Self::Item) -> bool>(mut self, p: P) -> Option<Self::Item> { self.find(p) }
}
impl<I: Iterator> ParallelIteratorMock for I {}
