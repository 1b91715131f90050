//! Sequential stand-in for rayon used only in the solver builds.
//! Contract relied on: rayon's indexed parallel iterators deliver the same items in the
//! same order as the std iterator (`map`, `enumerate`, `collect` are order-preserving).
pub mod prelude {
    pub use std::iter::Iterator as ParallelIterator;
    pub use std::iter::Iterator as IndexedParallelIterator;

    pub trait IntoParallelIterator {
        type Iter: Iterator<Item = Self::Item>;
        type Item;
        fn into_par_iter(self) -> Self::Iter;
    }
    impl<I: IntoIterator> IntoParallelIterator for I {
        type Iter = I::IntoIter;
        type Item = I::Item;
        fn into_par_iter(self) -> I::IntoIter {
            self.into_iter()
        }
    }

    pub trait IntoParallelRefIterator<'a> {
        type Iter: Iterator<Item = Self::Item>;
        type Item: 'a;
        fn par_iter(&'a self) -> Self::Iter;
    }
    impl<'a, C: 'a + ?Sized> IntoParallelRefIterator<'a> for C
    where
        &'a C: IntoIterator,
    {
        type Iter = <&'a C as IntoIterator>::IntoIter;
        type Item = <&'a C as IntoIterator>::Item;
        fn par_iter(&'a self) -> Self::Iter {
            self.into_iter()
        }
    }

    pub trait ParallelExtend<T> {
        fn par_extend<I: IntoIterator<Item = T>>(&mut self, par_iter: I);
    }
    impl<T, C: Extend<T>> ParallelExtend<T> for C {
        fn par_extend<I: IntoIterator<Item = T>>(&mut self, par_iter: I) {
            self.extend(par_iter)
        }
    }
}
pub use prelude::*;
