//! nohash-hasher: the hash of an integer is the integer.
use std::hash::{BuildHasherDefault, Hasher};
use std::marker::PhantomData;
pub struct NoHashHasher<T>(u64, PhantomData<T>);
impl<T> Default for NoHashHasher<T> {
    fn default() -> Self {
        NoHashHasher(0, PhantomData)
    }
}
pub trait IsEnabled {}
impl IsEnabled for u64 {}
impl<T: IsEnabled> Hasher for NoHashHasher<T> {
    fn write(&mut self, _: &[u8]) {
        panic!("Invalid use of NoHashHasher")
    }
    fn write_u64(&mut self, n: u64) {
        self.0 = n
    }
    fn finish(&self) -> u64 {
        self.0
    }
}
pub type BuildNoHashHasher<T> = BuildHasherDefault<NoHashHasher<T>>;
