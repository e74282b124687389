//! `rand` whose generators may return anything: every draw is a nondeterministic value, and a draw from a range is
//! any value of that range. Long byte strings are arbitrary only at their ends.
use std::ops::{Range, RangeInclusive};

pub mod model {
    //! For the harnesses. Draws from ranges of more than 200 values are sizes: one path for each (unless of a round number of values).
    use std::sync::atomic::{AtomicU8, AtomicUsize, Ordering::Relaxed};
    static FREE: AtomicUsize = AtomicUsize::new(usize::MAX);
    static SEEN: AtomicUsize = AtomicUsize::new(0);
    static ALL: AtomicUsize = AtomicUsize::new(0);
    static WILL: AtomicUsize = AtomicUsize::new(0);
    static COUNT: AtomicUsize = AtomicUsize::new(usize::MAX);
    pub(crate) static FIXED: AtomicUsize = AtomicUsize::new(0);
    static BYTE: AtomicU8 = AtomicU8::new(0x5c);
    /// Sizes are one of the two smallest or the two largest of their range; contents do not matter.
    pub fn edges() {
        ALL.store(1, Relaxed);
        FIXED.store(1, Relaxed);
    }
    /// Size number `n` is anything in its range, the others are the smallest or the largest.
    pub fn only(n: usize) {
        ALL.store(3, Relaxed);
        FREE.store(n, Relaxed);
        FIXED.store(1, Relaxed);
    }
    /// Sizes are the smallest or the second smallest of their range.
    pub fn small() {
        ALL.store(2, Relaxed);
    }
    /// Sizes are the smallest of their range.
    pub fn least() {
        ALL.store(4, Relaxed);
    }
    /// Sizes are the largest of their range; all contents consist of this byte.
    pub fn most(byte: u8) {
        ALL.store(5, Relaxed);
        FIXED.store(1, Relaxed);
        BYTE.store(byte, Relaxed);
    }
    pub(crate) fn byte() -> Option<u8> {
        if FIXED.load(Relaxed) != 0 {
            Some(BYTE.load(Relaxed))
        } else {
            None
        }
    }
    /// Draws from ranges of up to 8 values are `n` at most.
    pub fn count(n: usize) {
        COUNT.store(n, Relaxed);
    }
    /// Draws from ranges of up to 200 values, which decide whether something is done, are the highest or the lowest.
    pub fn always(highest: bool) {
        WILL.store(1 + highest as usize, Relaxed);
    }
    /// A decision between two things.
    pub(crate) fn flip() -> bool {
        match WILL.load(Relaxed) {
            0 => nd::bool(),
            w => w == 2,
        }
    }
    pub(crate) fn below(n: u64) -> u64 {
        let decides = n <= 200 || matches!(n, 256 | 1000 | 10_000 | 65_536 | 100_000 | 1_000_000 | 0x1_0000_0000);
        if decides && WILL.load(Relaxed) != 0 {
            let m = if n > 8 { n - 1 } else { (n - 1).min(COUNT.load(Relaxed) as u64) };
            return if WILL.load(Relaxed) == 2 { m } else { 0 };
        }
        let v = nd::u64();
        if decides {
            nd::assume(v < n);
            nd::assume(n > 8 || v <= COUNT.load(Relaxed) as u64);
            return v;
        }
        let k = SEEN.load(Relaxed);
        SEEN.store(k + 1, Relaxed);
        nd::assume(match ALL.load(Relaxed) {
            1 => (v < 2) | (v < n) & (v >= n - 2),
            2 => v < 2,
            4 => v == 0,
            5 => v == n - 1,
            3 if k != FREE.load(Relaxed) => (v == 0) | (v == n - 1),
            _ => v < n,
        });
        // in two steps, to keep each choice small
        let hi = nd::conc(v >> 6);
        hi << 6 | nd::conc(v & 63)
    }
}

#[derive(Debug, Clone, Copy)]
pub struct Error;
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("rand")
    }
}
impl std::error::Error for Error {}

pub trait RngCore {
    fn next_u32(&mut self) -> u32;
    fn next_u64(&mut self) -> u64;
    fn fill_bytes(&mut self, d: &mut [u8]);
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(d);
        Ok(())
    }
    #[doc(hidden)]
    fn below(&mut self, n: u64) -> u64 {
        self.next_u64() % n
    }
    #[doc(hidden)]
    fn flip(&mut self) -> bool {
        self.next_u64() & 1 == 1
    }
}
impl<R: RngCore + ?Sized> RngCore for &mut R {
    fn next_u32(&mut self) -> u32 {
        (**self).next_u32()
    }
    fn next_u64(&mut self) -> u64 {
        (**self).next_u64()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        (**self).fill_bytes(d)
    }
    fn below(&mut self, n: u64) -> u64 {
        (**self).below(n)
    }
    fn flip(&mut self) -> bool {
        (**self).flip()
    }
}
impl<R: RngCore + ?Sized> RngCore for Box<R> {
    fn next_u32(&mut self) -> u32 {
        (**self).next_u32()
    }
    fn next_u64(&mut self) -> u64 {
        (**self).next_u64()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        (**self).fill_bytes(d)
    }
    fn below(&mut self, n: u64) -> u64 {
        (**self).below(n)
    }
    fn flip(&mut self) -> bool {
        (**self).flip()
    }
}
pub trait CryptoRng {}
pub trait SeedableRng: Sized {
    type Seed: Default + AsMut<[u8]>;
    fn from_seed(seed: Self::Seed) -> Self;
    fn seed_from_u64(x: u64) -> Self {
        let mut s = Self::Seed::default();
        s.as_mut().fill(x as u8);
        Self::from_seed(s)
    }
    fn from_entropy() -> Self;
    fn from_rng<R: RngCore>(r: R) -> Result<Self, Error>;
}
pub trait SampleUniform: Sized {
    fn between<R: RngCore + ?Sized>(r: &mut R, lo: Self, hi: Self, inclusive: bool) -> Self;
}
macro_rules! ints {
    ($($t:ty),*) => { $(
        impl SampleUniform for $t {
            fn between<R: RngCore + ?Sized>(r: &mut R, lo: Self, hi: Self, inclusive: bool) -> Self {
                assert!(if inclusive { lo <= hi } else { lo < hi }, "cannot sample empty range");
                let span = (hi as i128 - lo as i128) as u64;
                let n = if inclusive { span.wrapping_add(1) } else { span };
                let v = if n == 0 { r.next_u64() } else { r.below(n) };
                (lo as u64).wrapping_add(v) as $t
            }
        }
        impl Standard for $t {
            fn any<R: RngCore + ?Sized>(r: &mut R) -> $t {
                r.next_u64() as $t
            }
        }
    )* };
}
ints!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);
macro_rules! floats {
    ($($t:ty),*) => { $(
        impl SampleUniform for $t {
            fn between<R: RngCore + ?Sized>(r: &mut R, lo: Self, hi: Self, _: bool) -> Self {
                lo + (hi - lo) * <$t as Standard>::any(r)
            }
        }
        impl Standard for $t {
            /// one of a hundred values
            fn any<R: RngCore + ?Sized>(r: &mut R) -> $t {
                nd::conc(r.below(100)) as $t / 100.0
            }
        }
    )* };
}
floats!(f32, f64);
pub trait SampleRange<T> {
    fn sample<R: RngCore + ?Sized>(self, r: &mut R) -> T;
    fn is_empty(&self) -> bool;
}
impl<T: SampleUniform + PartialOrd> SampleRange<T> for Range<T> {
    fn sample<R: RngCore + ?Sized>(self, r: &mut R) -> T {
        T::between(r, self.start, self.end, false)
    }
    fn is_empty(&self) -> bool {
        !(self.start < self.end)
    }
}
impl<T: SampleUniform + PartialOrd + Clone> SampleRange<T> for RangeInclusive<T> {
    fn sample<R: RngCore + ?Sized>(self, r: &mut R) -> T {
        T::between(r, self.start().clone(), self.end().clone(), true)
    }
    fn is_empty(&self) -> bool {
        !(self.start() <= self.end())
    }
}
pub trait Standard: Sized {
    fn any<R: RngCore + ?Sized>(r: &mut R) -> Self;
}
impl Standard for bool {
    fn any<R: RngCore + ?Sized>(r: &mut R) -> bool {
        r.flip()
    }
}
impl<T: Standard + Copy + Default, const N: usize> Standard for [T; N] {
    fn any<R: RngCore + ?Sized>(r: &mut R) -> [T; N] {
        let mut a = [T::default(); N];
        for x in a.iter_mut() {
            *x = T::any(r);
        }
        a
    }
}
pub trait Fill {
    fn fill_from<R: RngCore + ?Sized>(&mut self, r: &mut R);
}
impl Fill for [u8] {
    fn fill_from<R: RngCore + ?Sized>(&mut self, r: &mut R) {
        r.fill_bytes(self)
    }
}
impl<const N: usize> Fill for [u8; N] {
    fn fill_from<R: RngCore + ?Sized>(&mut self, r: &mut R) {
        r.fill_bytes(self)
    }
}
pub trait Rng: RngCore {
    fn gen<T: Standard>(&mut self) -> T {
        T::any(self)
    }
    fn gen_range<T: SampleUniform, S: SampleRange<T>>(&mut self, range: S) -> T {
        assert!(!range.is_empty(), "cannot sample empty range");
        range.sample(self)
    }
    fn gen_bool(&mut self, p: f64) -> bool {
        assert!((0.0..=1.0).contains(&p), "p is outside range [0.0, 1.0]");
        p == 1.0 || p != 0.0 && self.flip()
    }
    fn gen_ratio(&mut self, n: u32, d: u32) -> bool {
        assert!(n <= d && d > 0);
        self.below(d as u64) < n as u64
    }
    fn fill<T: Fill + ?Sized>(&mut self, d: &mut T) {
        d.fill_from(self)
    }
    fn sample<T, D: distributions::Distribution<T>>(&mut self, d: D) -> T {
        d.sample(self)
    }
    fn sample_iter<T, D: distributions::Distribution<T>>(self, d: D) -> distributions::DistIter<D, Self, T>
    where
        Self: Sized,
    {
        distributions::DistIter(d, self, std::marker::PhantomData)
    }
}
impl<R: RngCore + ?Sized> Rng for R {}

macro_rules! anything {
    ($n:ident) => {
        #[derive(Clone, Debug)]
        pub struct $n(pub(crate) Option<u8>);
        impl RngCore for $n {
            fn next_u32(&mut self) -> u32 {
                match (self.0, model::byte()) {
                    (_, None) => nd::u32(),
                    (Some(b), _) | (None, Some(b)) => u32::from_le_bytes([b; 4]),
                }
            }
            fn next_u64(&mut self) -> u64 {
                match (self.0, model::byte()) {
                    (_, None) => nd::u64(),
                    (Some(b), _) | (None, Some(b)) => u64::from_le_bytes([b; 8]),
                }
            }
            fn fill_bytes(&mut self, d: &mut [u8]) {
                let n = d.len();
                if let Some(b) = model::byte() {
                    d.fill(self.0.unwrap_or(b));
                } else if n <= 32 {
                    if n > 0 {
                        nd::fill(d);
                    }
                } else {
                    d.fill(0x5c);
                    nd::fill(&mut d[..8]);
                    nd::fill(&mut d[n - 8..]);
                }
            }
            fn below(&mut self, n: u64) -> u64 {
                model::below(n)
            }
            fn flip(&mut self) -> bool {
                model::flip()
            }
        }
        impl CryptoRng for $n {}
        impl SeedableRng for $n {
            type Seed = [u8; 32];
            /// what follows from a seed is no more random than the seed
            fn from_seed(s: [u8; 32]) -> Self {
                $n(Some(s[0]))
            }
            fn from_entropy() -> Self {
                $n(None)
            }
            fn from_rng<R: RngCore>(mut r: R) -> Result<Self, Error> {
                let mut s = [0; 32];
                r.fill_bytes(&mut s);
                Ok(Self::from_seed(s))
            }
        }
    };
}
pub mod rngs {
    use crate::*;
    anything!(StdRng);
    anything!(SmallRng);
    anything!(ThreadRng);
    #[derive(Clone, Copy, Debug, Default)]
    pub struct OsRng;
    impl RngCore for OsRng {
        fn next_u32(&mut self) -> u32 {
            nd::u32()
        }
        fn next_u64(&mut self) -> u64 {
            nd::u64()
        }
        fn fill_bytes(&mut self, d: &mut [u8]) {
            StdRng(None).fill_bytes(d)
        }
        fn below(&mut self, n: u64) -> u64 {
            model::below(n)
        }
        fn flip(&mut self) -> bool {
            model::flip()
        }
    }
    impl CryptoRng for OsRng {}
    pub mod mock {
        #[derive(Clone, Debug)]
        pub struct StepRng(u64, u64);
        impl StepRng {
            pub fn new(a: u64, b: u64) -> Self {
                StepRng(a, b)
            }
        }
        impl crate::RngCore for StepRng {
            fn next_u32(&mut self) -> u32 {
                self.next_u64() as u32
            }
            fn next_u64(&mut self) -> u64 {
                let r = self.0;
                self.0 = r.wrapping_add(self.1);
                r
            }
            fn fill_bytes(&mut self, d: &mut [u8]) {
                for b in d {
                    *b = self.next_u64() as u8;
                }
            }
        }
    }
    pub(crate) fn thread() -> ThreadRng {
        ThreadRng(None)
    }
}
pub fn thread_rng() -> rngs::ThreadRng {
    rngs::thread()
}
pub fn random<T: Standard>() -> T {
    T::any(&mut thread_rng())
}
pub mod distributions {
    use crate::{Rng, SampleUniform};
    use std::marker::PhantomData;
    pub trait Distribution<T> {
        fn sample<R: Rng + ?Sized>(&self, r: &mut R) -> T;
        fn sample_iter<R: Rng>(self, r: R) -> DistIter<Self, R, T>
        where
            Self: Sized,
        {
            DistIter(self, r, PhantomData)
        }
    }
    impl<T, D: Distribution<T> + ?Sized> Distribution<T> for &D {
        fn sample<R: Rng + ?Sized>(&self, r: &mut R) -> T {
            (**self).sample(r)
        }
    }
    pub struct DistIter<D, R, T>(pub(crate) D, pub(crate) R, pub(crate) PhantomData<T>);
    impl<T, D: Distribution<T>, R: Rng> Iterator for DistIter<D, R, T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            Some(self.0.sample(&mut self.1))
        }
    }
    #[derive(Clone, Copy, Debug, Default)]
    pub struct Standard;
    impl<T: crate::Standard> Distribution<T> for Standard {
        fn sample<R: Rng + ?Sized>(&self, r: &mut R) -> T {
            T::any(r)
        }
    }
    #[derive(Clone, Copy, Debug)]
    pub struct Uniform<T>(T, T, bool);
    impl<T: SampleUniform + PartialOrd + Clone> Uniform<T> {
        pub fn new(lo: T, hi: T) -> Self {
            assert!(lo < hi, "Uniform::new called with `low >= high`");
            Uniform(lo, hi, false)
        }
        pub fn new_inclusive(lo: T, hi: T) -> Self {
            assert!(lo <= hi, "Uniform::new_inclusive called with `low > high`");
            Uniform(lo, hi, true)
        }
    }
    impl<T: SampleUniform + PartialOrd + Clone> From<std::ops::Range<T>> for Uniform<T> {
        fn from(r: std::ops::Range<T>) -> Self {
            Self::new(r.start, r.end)
        }
    }
    impl<T: SampleUniform + PartialOrd + Clone> From<std::ops::RangeInclusive<T>> for Uniform<T> {
        fn from(r: std::ops::RangeInclusive<T>) -> Self {
            Self::new_inclusive(r.start().clone(), r.end().clone())
        }
    }
    impl<T: SampleUniform + Clone> Distribution<T> for Uniform<T> {
        fn sample<R: Rng + ?Sized>(&self, r: &mut R) -> T {
            T::between(r, self.0.clone(), self.1.clone(), self.2)
        }
    }
    #[derive(Clone, Copy, Debug)]
    pub struct Bernoulli(f64);
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum BernoulliError {
        InvalidProbability,
    }
    impl Bernoulli {
        pub fn new(p: f64) -> Result<Self, BernoulliError> {
            if (0.0..=1.0).contains(&p) {
                Ok(Bernoulli(p))
            } else {
                Err(BernoulliError::InvalidProbability)
            }
        }
        pub fn from_ratio(n: u32, d: u32) -> Result<Self, BernoulliError> {
            if n > d || d == 0 {
                return Err(BernoulliError::InvalidProbability);
            }
            Self::new(n as f64 / d as f64)
        }
    }
    impl Distribution<bool> for Bernoulli {
        fn sample<R: Rng + ?Sized>(&self, r: &mut R) -> bool {
            r.gen_bool(self.0)
        }
    }
}
pub mod seq {
    use crate::*;
    pub trait SliceRandom {
        type Item;
        fn choose<R: Rng + ?Sized>(&self, r: &mut R) -> Option<&Self::Item>;
        fn shuffle<R: Rng + ?Sized>(&mut self, r: &mut R);
    }
    impl<T> SliceRandom for [T] {
        type Item = T;
        fn choose<R: Rng + ?Sized>(&self, r: &mut R) -> Option<&T> {
            if self.is_empty() {
                return None;
            }
            self.get(nd::conc(r.below(self.len() as u64)) as usize)
        }
        fn shuffle<R: Rng + ?Sized>(&mut self, r: &mut R) {
            for i in (1..self.len()).rev() {
                let j = nd::conc(r.below(i as u64 + 1)) as usize;
                self.swap(i, j);
            }
        }
    }
}
pub mod prelude {
    pub use crate::rngs::{SmallRng, StdRng, ThreadRng};
    pub use crate::seq::SliceRandom;
    pub use crate::{random, thread_rng, CryptoRng, Rng, RngCore, SeedableRng};
}
