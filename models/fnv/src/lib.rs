//! Model of the `fnv` crate: a hash function is only ever used to index hash
//! maps (uriparse's table of scheme names), where every function of the key
//! gives the same lookups; this one depends on lengths alone, so it stays
//! concrete when the hashed bytes are symbolic.
use std::collections::{HashMap, HashSet};
use std::hash::{BuildHasherDefault, Hasher};

pub struct FnvHasher(u64);
impl Default for FnvHasher {
    #[inline]
    fn default() -> FnvHasher {
        FnvHasher(0xcbf29ce484222325)
    }
}
impl FnvHasher {
    #[inline]
    pub fn with_key(key: u64) -> FnvHasher {
        FnvHasher(key)
    }
}
impl Hasher for FnvHasher {
    #[inline]
    fn finish(&self) -> u64 {
        self.0
    }
    #[inline]
    fn write(&mut self, bytes: &[u8]) {
        self.0 = (self.0 ^ bytes.len() as u64).wrapping_mul(0x100000001b3);
    }
}
pub type FnvBuildHasher = BuildHasherDefault<FnvHasher>;
pub type FnvHashMap<K, V> = HashMap<K, V, FnvBuildHasher>;
pub type FnvHashSet<T> = HashSet<T, FnvBuildHasher>;
