//! Stand-in for `ahash` used only in the verification harness: every key hashes to the same value,
//! so every lookup in a `LinkedHashMap` degenerates to `Eq` comparisons against the stored keys.
//! (Consistency of the real `Hash` impls with `Eq` is decided separately, by the `ci` harnesses.)
#![no_std]
use core::hash::{BuildHasher, Hasher};
#[derive(Clone, Default, Debug)]
pub struct RandomState;
impl RandomState {
    #[inline]
    pub fn new() -> Self { RandomState }
}
#[derive(Clone, Default, Debug)]
pub struct AHasher;
impl Hasher for AHasher {
    #[inline(always)]
    fn write(&mut self, _: &[u8]) {}
    #[inline(always)]
    fn finish(&self) -> u64 { 0x2a }
}
impl BuildHasher for RandomState {
    type Hasher = AHasher;
    #[inline(always)]
    fn build_hasher(&self) -> AHasher { AHasher }
}
