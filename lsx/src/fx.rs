//! A fast, deterministic hasher for the interning tables.
use std::hash::{BuildHasherDefault, Hasher};
#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Fx { #[inline] fn add(&mut self, v: u64) { self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95); } }
impl Hasher for Fx {
    #[inline] fn finish(&self) -> u64 { self.0 ^ (self.0 >> 29) }
    fn write(&mut self, b: &[u8]) { for c in b.chunks(8) { let mut x = [0; 8]; x[..c.len()].copy_from_slice(c); self.add(u64::from_le_bytes(x)); } }
    #[inline] fn write_u8(&mut self, v: u8) { self.add(v as u64) }
    #[inline] fn write_u32(&mut self, v: u32) { self.add(v as u64) }
    #[inline] fn write_u64(&mut self, v: u64) { self.add(v) }
    #[inline] fn write_u128(&mut self, v: u128) { self.add(v as u64); self.add((v >> 64) as u64) }
    #[inline] fn write_usize(&mut self, v: usize) { self.add(v as u64) }
}
pub type HashMap<K, V> = std::collections::HashMap<K, V, BuildHasherDefault<Fx>>;
pub type HashSet<K> = std::collections::HashSet<K, BuildHasherDefault<Fx>>;
