use crate::nd;
use std::sync::{Arc, RwLock};
use wz_reader::reader::WzBaseReader;
use wz_reader::util::string_decryptor::ecb_decryptor::EcbDecryptor;
use wz_reader::util::string_decryptor::{DecrypterType, Decryptor};
use wz_reader::{SharedWzStringDecryptor, WzReader, WzSliceReader};

pub fn keys0() -> SharedWzStringDecryptor {
    Arc::new(RwLock::new(EcbDecryptor::from_iv([0, 0, 0, 0])))
}

/// A decryptor with a given key stream; it insists on being told how much is needed.
#[derive(Debug)]
pub struct TestKey {
    pub key: Vec<u8>,
    pub ensured: usize,
    pub pkg2: bool,
}
impl Decryptor for TestKey {
    fn get_iv_hash(&self) -> u64 {
        7
    }
    fn set_iv(&mut self, _: u64, _: DecrypterType) {}
    fn is_enough(&self, size: usize) -> bool {
        self.ensured >= size
    }
    fn is_pkg2(&self) -> bool {
        self.pkg2
    }
    fn at(&mut self, i: usize) -> &u8 {
        &self.key[i]
    }
    fn try_at(&self, i: usize) -> Option<&u8> {
        self.key.get(i)
    }
    fn decrypt_slice(&self, d: &mut [u8]) {
        assert!(d.len() <= self.ensured, "key stream used before it was made long enough");
        for i in 0..d.len() {
            d[i] ^= self.key[i];
        }
    }
    fn ensure_key_size(&mut self, size: usize) -> Result<(), String> {
        if size > self.key.len() {
            return Err("test key too short".to_string());
        }
        if size > self.ensured {
            self.ensured = size;
        }
        Ok(())
    }
    fn get_enc_type(&self) -> DecrypterType {
        DecrypterType::Custom
    }
}
pub fn test_key(key: Vec<u8>, pkg2: bool) -> SharedWzStringDecryptor {
    Arc::new(RwLock::new(TestKey { key, ensured: 0, pkg2 }))
}
/// a concrete, irregular key stream
pub fn pattern(n: usize) -> Vec<u8> {
    (0..n).map(|i| (i as u8).wrapping_mul(37).wrapping_add(11) ^ (i >> 3) as u8).collect()
}
pub fn vec_reader(map: Vec<u8>, keys: &SharedWzStringDecryptor, pkg2: &SharedWzStringDecryptor) -> WzBaseReader<Vec<u8>> {
    WzBaseReader { map, header: Default::default(), keys: Arc::clone(keys), pkg2_keys: Arc::clone(pkg2) }
}
/// memory-mapped reader over `buf` without a string key
pub fn arc_reader(buf: &[u8]) -> Arc<WzReader> {
    Arc::new(WzReader::from_buff(buf))
}

/// text <-> stored form without a key
pub fn enc_ascii(s: &str) -> Vec<u8> {
    s.bytes().enumerate().map(|(i, b)| b ^ 0xAAu8.wrapping_add(i as u8)).collect()
}
pub fn enc_unicode(s: &str) -> Vec<u8> {
    let mut v = Vec::new();
    for (i, c) in s.encode_utf16().enumerate() {
        v.extend_from_slice(&(c ^ 0xAAAAu16.wrapping_add(i as u16)).to_le_bytes());
    }
    v
}
/// short stored string: prefix byte and body (ascii only)
pub fn wz_str(s: &str) -> Vec<u8> {
    let mut v = vec![(s.len() as u8).wrapping_neg()];
    v.extend(enc_ascii(s));
    v
}
