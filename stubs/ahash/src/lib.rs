//! Stand-in for the hasher of the children maps in the symbolic build.  The map must work
//! with any hash function; this one depends on the number of bytes only, so symbolic keys
//! never turn into symbolic table positions.
use std::hash::{BuildHasher, Hasher};

#[derive(Debug, Clone, Default)]
pub struct AHasher(u64);

impl Hasher for AHasher {
    fn finish(&self) -> u64 {
        self.0.wrapping_mul(0x9E37_79B9_7F4A_7C15)
    }
    fn write(&mut self, b: &[u8]) {
        self.0 += b.len() as u64 + 1;
    }
    fn write_u8(&mut self, _: u8) {
        self.0 += 1;
    }
}

#[derive(Debug, Clone, Default)]
pub struct RandomState;

impl BuildHasher for RandomState {
    type Hasher = AHasher;
    fn build_hasher(&self) -> AHasher {
        AHasher::default()
    }
}
