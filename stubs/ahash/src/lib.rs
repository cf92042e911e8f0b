//! Verification stub: a deterministic constant hasher.  Hash maps stay correct
//! (every lookup is decided by `Eq`), only their bucket layout changes.
use std::hash::{BuildHasher, Hasher};

#[derive(Clone, Copy, Debug, Default)]
pub struct AHasher;
impl Hasher for AHasher {
    #[inline]
    fn finish(&self) -> u64 {
        0x1234_5678_9abc_def0
    }
    #[inline]
    fn write(&mut self, _: &[u8]) {}
    #[inline]
    fn write_usize(&mut self, _: usize) {}
}
#[derive(Clone, Copy, Debug, Default)]
pub struct RandomState;
impl RandomState {
    pub fn new() -> Self {
        RandomState
    }
    pub fn with_seeds(_: u64, _: u64, _: u64, _: u64) -> Self {
        RandomState
    }
}
impl BuildHasher for RandomState {
    type Hasher = AHasher;
    #[inline]
    fn build_hasher(&self) -> AHasher {
        AHasher
    }
}
pub type HashMap<K, V> = std::collections::HashMap<K, V, RandomState>;
pub type HashSet<K> = std::collections::HashSet<K, RandomState>;
pub type AHashMap<K, V> = HashMap<K, V>;
pub type AHashSet<K> = HashSet<K>;
