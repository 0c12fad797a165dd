//! The hash function of `rustc-hash` 1.1: iteration order of its maps is part of what users see
//! (the order of the types listed in an inference error).
use std::collections::{HashMap, HashSet};
use std::hash::{BuildHasherDefault, Hasher};

pub type FxHashMap<K, V> = HashMap<K, V, BuildHasherDefault<FxHasher>>;
pub type FxHashSet<V> = HashSet<V, BuildHasherDefault<FxHasher>>;

#[derive(Default, Clone, Copy)]
pub struct FxHasher {
    hash: usize,
}
impl FxHasher {
    fn add(&mut self, i: usize) {
        self.hash = (self.hash.rotate_left(5) ^ i).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
}
impl Hasher for FxHasher {
    fn write(&mut self, mut b: &[u8]) {
        while b.len() >= 8 {
            self.add(u64::from_ne_bytes(b[..8].try_into().unwrap()) as usize);
            b = &b[8..];
        }
        if b.len() >= 4 {
            self.add(u32::from_ne_bytes(b[..4].try_into().unwrap()) as usize);
            b = &b[4..];
        }
        if b.len() >= 2 {
            self.add(u16::from_ne_bytes(b[..2].try_into().unwrap()) as usize);
            b = &b[2..];
        }
        if let Some(x) = b.first() {
            self.add(*x as usize);
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.add(i as usize)
    }
    fn write_u16(&mut self, i: u16) {
        self.add(i as usize)
    }
    fn write_u32(&mut self, i: u32) {
        self.add(i as usize)
    }
    fn write_u64(&mut self, i: u64) {
        self.add(i as usize)
    }
    fn write_usize(&mut self, i: usize) {
        self.add(i)
    }
    fn finish(&self) -> u64 {
        self.hash as u64
    }
}
