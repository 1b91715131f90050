//! Sequential stand-in for rayon_croissant used only in the solver builds.
//!
//! Contract relied on (rayon_croissant's documentation and source): the input is split into
//! contiguous chunks; the first chunk folds into the caller's `target`, every other chunk folds
//! into a fresh `Default` target; targets of adjacent chunks are then reduced pairwise
//! (left absorbs right), in some association order; outputs keep the input order.
//!
//! Where the splits fall, and in which order adjacent targets are reduced, is a free choice of
//! the scheduler: `CHOOSE` is asked. Harnesses make its answers symbolic.

pub static mut CHOOSE: Option<fn() -> bool> = None;

pub fn set_schedule(choose: Option<fn() -> bool>) {
    unsafe { CHOOSE = choose }
}
fn choose() -> bool {
    match unsafe { CHOOSE } {
        Some(f) => f(),
        None => false,
    }
}

pub trait ParallelIteratorExt: Iterator + Sized {
    fn mapfold_reduce_into<'t, Output, Target, Mapfold, Reduce>(
        self,
        target: &'t mut Target,
        mapfold: Mapfold,
        reduce: Reduce,
    ) -> MapfoldReduce<'t, Target, Self, Mapfold, Reduce>
    where
        Target: Default + 't,
        Mapfold: Clone + Fn(&mut Target, Self::Item) -> Output,
        Reduce: Clone + Fn(&mut Target, Target),
    {
        MapfoldReduce {
            target,
            input: self,
            mapfold,
            reduce,
            index: 0,
            chunks: Vec::new(),
            done: false,
        }
    }
}

impl<I: Iterator> ParallelIteratorExt for I {}

pub struct MapfoldReduce<'t, Target, Input, Mapfold, Reduce> {
    target: &'t mut Target,
    input: Input,
    mapfold: Mapfold,
    reduce: Reduce,
    index: u32,
    chunks: Vec<Target>,
    done: bool,
}

impl<'t, Output, Target, Input, Mapfold, Reduce> Iterator
    for MapfoldReduce<'t, Target, Input, Mapfold, Reduce>
where
    Input: Iterator,
    Target: Default + 't,
    Mapfold: Clone + Fn(&mut Target, Input::Item) -> Output,
    Reduce: Clone + Fn(&mut Target, Target),
{
    type Item = Output;
    fn next(&mut self) -> Option<Output> {
        if let Some(item) = self.input.next() {
            if self.index > 0 && choose() {
                self.chunks.push(Target::default());
            }
            self.index += 1;
            let target = match self.chunks.last_mut() {
                Some(t) => t,
                None => &mut *self.target,
            };
            Some((self.mapfold)(target, item))
        } else {
            if !self.done {
                self.done = true;
                while !self.chunks.is_empty() {
                    // Reduce chunk i - 1 (0: the caller's target) and the next.
                    let mut i = 0;
                    while i + 1 < self.chunks.len() && choose() {
                        i += 1
                    }
                    let right = self.chunks.remove(i);
                    match i.checked_sub(1) {
                        Some(i) => (self.reduce)(&mut self.chunks[i], right),
                        None => (self.reduce)(&mut *self.target, right),
                    }
                }
            }
            None
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.input.size_hint()
    }
}
