//! The portable path of simd-adler32, without run-time CPU detection (the checksum is not code under test).
#[derive(Clone)]
pub struct Adler32 {
    a: u16,
    b: u16,
}
impl Adler32 {
    pub fn new() -> Self {
        Adler32 { a: 1, b: 0 }
    }
    pub fn from_checksum(c: u32) -> Self {
        Adler32 { a: c as u16, b: (c >> 16) as u16 }
    }
    pub fn write(&mut self, data: &[u8]) {
        let (mut a, mut b) = (self.a as u32, self.b as u32);
        for chunk in data.chunks(5552) {
            for x in chunk {
                a = a.wrapping_add(*x as u32);
                b = b.wrapping_add(a);
            }
            a %= 65521;
            b %= 65521;
        }
        self.a = a as u16;
        self.b = b as u16;
    }
    pub fn finish(&self) -> u32 {
        (self.b as u32) << 16 | self.a as u32
    }
    pub fn reset(&mut self) {
        *self = Self::new();
    }
}
impl Default for Adler32 {
    fn default() -> Self {
        Self::new()
    }
}
