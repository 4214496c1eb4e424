//! `rand` with every random choice left to the harness: `vchoice(n)` is any number below n.
extern "C-unwind" {
    fn vchoice(n: u64) -> u64;
}
pub fn choice(n: usize) -> usize {
    unsafe { vchoice(n as u64) as usize }
}

pub trait RngCore {
    fn next_u32(&mut self) -> u32 {
        choice(u32::MAX as usize) as u32
    }
    fn next_u64(&mut self) -> u64 {
        choice(u64::MAX as usize) as u64
    }
}
pub trait Rng: RngCore {
    fn random_range<R: SampleRange>(&mut self, r: R) -> usize {
        r.pick()
    }
    fn gen_range<R: SampleRange>(&mut self, r: R) -> usize {
        r.pick()
    }
    fn random_bool(&mut self, _p: f64) -> bool {
        choice(2) == 1
    }
    fn gen_bool(&mut self, _p: f64) -> bool {
        choice(2) == 1
    }
}
impl<T: RngCore + ?Sized> Rng for T {}
pub trait SampleRange {
    fn pick(self) -> usize;
}
impl SampleRange for core::ops::Range<usize> {
    fn pick(self) -> usize {
        assert!(self.start < self.end, "cannot sample empty range");
        self.start + choice(self.end - self.start)
    }
}
impl SampleRange for core::ops::RangeInclusive<usize> {
    fn pick(self) -> usize {
        assert!(self.start() <= self.end(), "cannot sample empty range");
        *self.start() + choice(*self.end() - *self.start() + 1)
    }
}
pub trait SeedableRng: Sized {
    fn seed_from_u64(_state: u64) -> Self {
        unimplemented!()
    }
}
impl<T: RngCore + ?Sized> RngCore for &mut T {}

pub mod rngs {
    #[derive(Clone, Debug, Default)]
    pub struct ThreadRng;
    impl super::RngCore for ThreadRng {}
    #[derive(Clone, Debug)]
    pub struct StdRng;
    impl super::RngCore for StdRng {}
    impl super::SeedableRng for StdRng {
        fn seed_from_u64(_state: u64) -> Self {
            StdRng
        }
    }
    pub use StdRng as SmallRng;
}
pub fn rng() -> rngs::ThreadRng {
    rngs::ThreadRng
}
pub fn thread_rng() -> rngs::ThreadRng {
    rngs::ThreadRng
}

pub mod seq {
    use super::{choice, RngCore};
    /// What follows a shuffle depends on the order only through its first acceptable element in the
    /// code at hand; bringing any element to the front reaches every one of those.
    pub trait SliceRandom {
        fn shuffle<R: RngCore + ?Sized>(&mut self, rng: &mut R);
    }
    impl<T> SliceRandom for [T] {
        fn shuffle<R: RngCore + ?Sized>(&mut self, _rng: &mut R) {
            let n = self.len();
            if n > 1 {
                let k = choice(n);
                self.swap(0, k);
            } else {
                choice(1);
            }
        }
    }
    pub trait IndexedRandom {
        type Output;
        fn choose<R: RngCore + ?Sized>(&self, rng: &mut R) -> Option<&Self::Output>;
    }
    impl<T> IndexedRandom for [T] {
        type Output = T;
        fn choose<R: RngCore + ?Sized>(&self, _rng: &mut R) -> Option<&T> {
            if self.is_empty() {
                choice(1);
                None
            } else {
                Some(&self[choice(self.len())])
            }
        }
    }
    pub trait IteratorRandom: Iterator + Sized {
        fn choose<R: RngCore + ?Sized>(self, _rng: &mut R) -> Option<Self::Item> {
            let mut v: Vec<Self::Item> = self.collect();
            if v.is_empty() {
                choice(1);
                None
            } else {
                let k = choice(v.len());
                Some(v.swap_remove(k))
            }
        }
    }
    impl<I: Iterator> IteratorRandom for I {}
}
pub mod prelude {
    pub use crate::rngs::{StdRng, ThreadRng};
    pub use crate::seq::{IndexedRandom, IteratorRandom, SliceRandom};
    pub use crate::{rng, Rng, RngCore, SeedableRng};
}
