//! Model of `ahash`: only the hasher-state type (the map models never hash).
use std::hash::{BuildHasher, Hasher};
#[derive(Clone, Default, Debug)]
pub struct RandomState;
impl RandomState { pub fn new() -> Self { RandomState } }
#[derive(Clone, Default)]
pub struct AHasher(u64);
impl Hasher for AHasher { fn finish(&self) -> u64 { self.0 } fn write(&mut self, _b: &[u8]) {} }
impl BuildHasher for RandomState { type Hasher = AHasher; fn build_hasher(&self) -> AHasher { AHasher(0) } }
