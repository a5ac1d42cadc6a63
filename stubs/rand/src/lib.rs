//! Stand-in for `rand` 0.7: every random number is a symbolic input.  Floats are any
//! in [0, 1) (the real crate draws multiples of 2^-53); integers are unconstrained.
extern "C" { fn __rand_bits(w: u32) -> u64; fn __rand_unit() -> f64; }
fn bits(w: u32) -> u64 { unsafe { __rand_bits(w) } }

pub mod distributions {
    pub trait Distribution<T> { fn sample<R: crate::Rng + ?Sized>(&self, rng: &mut R) -> T; }
    #[derive(Clone, Copy, Debug)]
    pub struct Standard;
    pub struct Uniform<T>(pub T, pub T);
    impl<T: crate::Draw> Distribution<T> for Standard { fn sample<R: crate::Rng + ?Sized>(&self, _: &mut R) -> T { T::draw() } }
    impl<T: crate::Draw + Copy> Uniform<T> { pub fn new(a: T, b: T) -> Self { Uniform(a, b) } }
    impl<T: crate::Range + Copy> Distribution<T> for Uniform<T> { fn sample<R: crate::Rng + ?Sized>(&self, _: &mut R) -> T { T::range(self.0, self.1) } }
}
pub trait Draw: Sized { fn draw() -> Self; }
pub trait Range: Sized { fn range(a: Self, b: Self) -> Self; }
impl Draw for f64 { fn draw() -> f64 { unsafe { __rand_unit() } } }
impl Draw for f32 { fn draw() -> f32 { bits(24) as f32 * (1.0 / 16777216.0) } }
impl Draw for bool { fn draw() -> bool { bits(1) == 1 } }
impl Range for f64 { fn range(a: f64, b: f64) -> f64 { assert!(a < b, "empty range"); let v = a + (b - a) * f64::draw(); if v < b { v } else { a } } }
macro_rules! ints { ($($t:ty, $u:ty, $w:expr);*) => { $(
    impl Draw for $t { fn draw() -> $t { bits($w) as $t } }
    impl Range for $t { fn range(a: $t, b: $t) -> $t { assert!(a < b, "empty range"); let n = (b as $u).wrapping_sub(a as $u); let v = bits($w) as $u; a.wrapping_add((v % n) as $t) } }
)* } }
ints!(u8, u8, 8; i8, u8, 8; u16, u16, 16; i16, u16, 16; u32, u32, 32; i32, u32, 32; u64, u64, 64; i64, u64, 64; usize, usize, 64; isize, usize, 64);

pub trait RngCore { fn next_u32(&mut self) -> u32 { bits(32) as u32 } fn next_u64(&mut self) -> u64 { bits(64) } }
pub trait Rng: RngCore {
    fn gen<T: Draw>(&mut self) -> T { T::draw() }
    fn gen_range<T: Range>(&mut self, a: T, b: T) -> T { T::range(a, b) }
    fn gen_bool(&mut self, _: f64) -> bool { bits(1) == 1 }
    fn sample<T, D: distributions::Distribution<T>>(&mut self, d: D) -> T { d.sample(self) }
}
impl<R: RngCore + ?Sized> Rng for R {}
pub mod rngs { #[derive(Clone, Copy, Debug, Default)] pub struct ThreadRng; impl crate::RngCore for ThreadRng {} }
pub use rngs::ThreadRng;
pub fn thread_rng() -> ThreadRng { ThreadRng }
pub fn random<T: Draw>() -> T { T::draw() }
pub mod prelude { pub use crate::{random, thread_rng, distributions::Distribution, Rng, RngCore, ThreadRng}; }
