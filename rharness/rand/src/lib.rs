//! Stand-in for the `rand` crate: every random word comes from a script, which
//! repeats when it is used up.
use std::cell::RefCell;
use std::ops::{Range, RangeInclusive};

thread_local! { static S: RefCell<(Vec<u32>, usize)> = RefCell::new((vec![], 0)); }

pub fn set_script(v: Vec<u32>) { S.with(|s| *s.borrow_mut() = (v, 0)); }

fn word() -> u32 {
    S.with(|s| {
        let mut s = s.borrow_mut();
        if s.0.is_empty() { return 0; }
        let i = s.1;
        s.1 += 1;
        // a constant script must not make a rejection loop endless
        let n = s.0.len();
        s.0[i % n].wrapping_add(if i >= 64 * n { (i / (64 * n)) as u32 } else { 0 })
    })
}

pub trait Gen: Sized { fn make() -> Self; }
macro_rules! ints { ($($t:ty),*) => { $( impl Gen for $t { fn make() -> Self { let mut v = 0u128; let mut b = 0; while b < <$t>::BITS { v |= (word() as u128) << b; b += 32; } v as $t } } )* } }
ints!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
impl Gen for bool { fn make() -> Self { word() & 1 == 1 } }
impl Gen for f32 { fn make() -> Self { (word() >> 8) as f32 / (1u32 << 24) as f32 } }
impl Gen for f64 { fn make() -> Self { (u64::make() >> 11) as f64 / (1u64 << 53) as f64 } }
impl<T: Gen + Default + Copy, const N: usize> Gen for [T; N] { fn make() -> Self { let mut a = [T::default(); N]; for x in a.iter_mut() { *x = T::make(); } a } }
impl<A: Gen, B: Gen> Gen for (A, B) { fn make() -> Self { (A::make(), B::make()) } }

pub fn random<T: Gen>() -> T { T::make() }

pub trait SampleRange<T> { fn pick(self) -> T; }
macro_rules! ranges { ($($t:ty),*) => { $(
    impl SampleRange<$t> for Range<$t> { fn pick(self) -> $t { assert!(self.start < self.end); let n = (self.end as i128 - self.start as i128) as u128; (self.start as i128 + (u64::make() as u128 % n) as i128) as $t } }
    impl SampleRange<$t> for RangeInclusive<$t> { fn pick(self) -> $t { assert!(self.start() <= self.end()); let n = (*self.end() as i128 - *self.start() as i128) as u128 + 1; (*self.start() as i128 + (u64::make() as u128 % n) as i128) as $t } }
)* } }
ranges!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);

pub trait RngCore {
    fn next_u32(&mut self) -> u32 { word() }
    fn next_u64(&mut self) -> u64 { u64::make() }
    fn fill_bytes(&mut self, d: &mut [u8]) { for x in d.iter_mut() { *x = u8::make(); } }
}
pub trait Rng: RngCore {
    fn gen<T: Gen>(&mut self) -> T { T::make() }
    fn gen_range<T, R: SampleRange<T>>(&mut self, r: R) -> T { r.pick() }
    fn gen_bool(&mut self, p: f64) -> bool { f64::make() < p }
    fn fill(&mut self, d: &mut [u32]) { for x in d.iter_mut() { *x = word(); } }
}
#[derive(Clone, Debug, Default)]
pub struct ThreadRng;
impl RngCore for ThreadRng {}
impl Rng for ThreadRng {}
pub fn thread_rng() -> ThreadRng { ThreadRng }
pub mod rngs { pub use super::ThreadRng; }
pub mod prelude { pub use super::{random, thread_rng, Rng, RngCore, ThreadRng}; }
