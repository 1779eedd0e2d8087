//! C04 key streams
use crate::nd;
use aes::cipher::{BlockEncrypt, KeyInit};
use aes::Aes256;
use wz_reader::util::string_decryptor::ecb_decryptor::EcbDecryptor;
use wz_reader::util::string_decryptor::pkg2_decryptor::{get_kmst1199_key, get_kmst1202_key};
use wz_reader::util::string_decryptor::{DecrypterType, Decryptor, Pkg2Decryptor, GLOBAL_STRING_DECRYPTOR};
use wz_reader::version::WzMapleVersion;

const GMS: [u8; 4] = [0x4D, 0x23, 0xC7, 0x2B];
const MSEA: [u8; 4] = [0xB9, 0x7D, 0x63, 0xE9];
fn default_key() -> [u8; 32] {
    let mut k = [0; 32];
    for (i, b) in [0x13, 0x08, 0x06, 0xB4, 0x1B, 0x0F, 0x33, 0x52].iter().enumerate() {
        k[i * 4] = *b;
    }
    k
}
/// first `blocks` blocks of the chain: E(iv iv iv iv), E(E(..)), ..
fn chain(iv: [u8; 4], key: [u8; 32], blocks: usize) -> Vec<u8> {
    let aes = Aes256::new(&key.into());
    let mut b = [0u8; 16];
    for i in 0..16 {
        b[i] = iv[i % 4];
    }
    let mut v = Vec::new();
    for _ in 0..blocks {
        aes.encrypt_block((&mut b).into());
        v.extend_from_slice(&b);
    }
    v
}
fn stream(d: &mut dyn Decryptor, n: usize) -> Vec<u8> {
    d.ensure_key_size(n).unwrap();
    let mut v = vec![0; n];
    d.decrypt_slice(&mut v);
    v
}

/// concrete request sizes around the growth boundaries
const REQ: [usize; 6] = [0, 1, 17, 4095, 4096, 4097];

harnesses! {
/// any non-zero iv: the whole first batch of the stream. params: 0 = default key, 1 = explicit arbitrary key
fn h_c04_iv() {
    let iv: [u8; 4] = nd::bytes();
    nd::assume(u32::from_le_bytes(iv) != 0);
    let (mut d, key) = if nd::param(0) == 0 {
        (EcbDecryptor::from_iv(iv), default_key())
    } else {
        let key: [u8; 32] = nd::bytes();
        (EcbDecryptor::new(iv, key), key)
    };
    let n = nd::param(1) as usize;
    let s = stream(&mut d, n * 16);
    let w = chain(iv, key, n);
    assert!(nd::same(&s, &w), "stream");
    assert!(d.get_iv_hash() == u32::from_le_bytes(iv) as u64 && !d.is_pkg2(), "identity");
    nd::cover(1);
}
/// arbitrary data; growing in any two steps gives the same stream. params: which iv, first and second request
fn h_c04_grow() {
    let (mut d, iv) = match nd::param(0) {
        0 => (EcbDecryptor::from_iv(GMS), GMS),
        1 => (EcbDecryptor::from_iv(MSEA), MSEA),
        2 => (EcbDecryptor::new_lua(), MSEA),
        _ => (EcbDecryptor::from_iv([1, 2, 3, 4]), [1, 2, 3, 4]),
    };
    let (a, b) = (REQ[nd::param(1) as usize], REQ[nd::param(2) as usize]);
    d.ensure_key_size(a).unwrap();
    assert!(Decryptor::is_enough(&d, a), "enough");
    let before: Vec<u8> = (0..a).map(|i| *d.try_at(i).unwrap()).collect();
    d.ensure_key_size(b).unwrap();
    let n = a.max(b);
    assert!(Decryptor::is_enough(&d, n), "enough");
    let w = chain(iv, default_key(), (n + 15) / 16);
    assert!(nd::same(&before, &w[..a]), "first part");
    let data = nd::vec(n);
    let mut x = data.clone();
    d.decrypt_slice(&mut x);
    let y: Vec<u8> = (0..n).map(|i| data[i] ^ w[i]).collect();
    assert!(nd::same(&x, &y), "decrypt");
    d.decrypt_slice(&mut x);
    assert!(nd::same(&x, &data), "involution");
    if n > 0 {
        assert!(*d.at(n - 1) == w[n - 1] && *d.try_at(n - 1).unwrap() == w[n - 1] && d.get_range(n - 1..n)[0] == w[n - 1], "single");
    }
    nd::cover(1);
}
/// byte by byte through the growing accessor. params: index
fn h_c04_at() {
    let i = nd::param(0) as usize;
    let mut d = EcbDecryptor::from_iv(GMS);
    let w = chain(GMS, default_key(), i / 16 + 1);
    assert!(*d.at(i) == w[i], "byte");
    assert!(*d.at(0) == w[0] && *d.at(i) == w[i], "byte again");
    let mut z = EcbDecryptor::from_iv([0; 4]);
    assert!(*z.at(i) == 0, "no key");
    nd::cover(1);
}
/// the zero iv leaves any data alone
fn h_c04_zero() {
    let data = nd::vec(40);
    let mut d = EcbDecryptor::from_iv([0; 4]);
    d.ensure_key_size(40).unwrap();
    assert!(Decryptor::is_enough(&d, 1 << 40), "enough");
    let mut x = data.clone();
    d.decrypt_slice(&mut x);
    assert!(nd::same(&x, &data), "unchanged");
    nd::cover(1);
}
/// changing the iv gives the stream of the new iv, whatever was generated before. params: old iv in use?, new iv
fn h_c04_set_iv() {
    let ivs = [[0; 4], GMS, MSEA];
    let (o, n) = (ivs[nd::param(0) as usize], ivs[nd::param(1) as usize]);
    let mut d = EcbDecryptor::from_iv(o);
    let first = stream(&mut d, nd::param(2) as usize);
    d.set_iv(u32::from_le_bytes(n) as u64, DecrypterType::Custom);
    assert!(d.get_iv_hash() == u32::from_le_bytes(n) as u64, "hash");
    let s = stream(&mut d, 64);
    let w = if n == [0; 4] { vec![0; 64] } else { chain(n, default_key(), 4) };
    assert!(nd::same(&s, &w), "stream");
    nd::obs(first.len() as u64);
    nd::cover(1);
}
/// PKG2: any 64-bit key, any data; stream = the key's overlapping 16-bit windows, period 8
fn h_c04_pkg2() {
    let key = nd::u64();
    let mut d = Pkg2Decryptor::new_with_key(nd::u64(), DecrypterType::KMST1198);
    d.set_iv(key, DecrypterType::KMST1199);
    let n = nd::param(0) as usize;
    let w: Vec<u8> = (0..n).map(|i| { let u = (key >> (8 * (i % 8 / 2))) as u16; (u >> (8 * (i % 2))) as u8 }).collect();
    let data = nd::vec(n);
    let mut x = data.clone();
    d.ensure_key_size(n).unwrap();
    d.decrypt_slice(&mut x);
    for i in 0..n {
        x[i] ^= w[i];
        assert!(*d.at(i) == w[i] && *d.try_at(i).unwrap() == w[i], "byte");
    }
    assert!(nd::same(&x, &data), "stream");
    assert!(d.is_pkg2() && d.get_enc_type() == DecrypterType::KMST1199 && d.get_iv_hash() == key & 0xFFFF_FFFF, "identity");
    nd::cover(1);
}
/// the derived PKG2 keys, any hashes
fn h_c04_pkg2_keys() {
    let (a, b) = (nd::u32(), nd::u32());
    let mix = |mut k: u32| { k ^= k >> 16; k = k.wrapping_mul(0x7FEB352D); k ^= k >> 15; k = k.wrapping_mul(0x846CA68B); k ^ k >> 16 };
    assert!(get_kmst1199_key(a, b) == mix(mix(a ^ b ^ 0x6D4C3B2A) ^ 0x4F4CB34A), "1199");
    let (c, e) = (nd::u64(), nd::u64());
    assert!(get_kmst1202_key(c, e) == c ^ e ^ 0x66B57FEE317FD3DF, "1202");
    nd::cover(1);
}
/// the shared decryptors: any iv, and every named version
fn h_c04_shared() {
    let iv: [u8; 4] = nd::bytes();
    let d = GLOBAL_STRING_DECRYPTOR.get_decryptor_by_iv(iv);
    assert!(d.read().unwrap().get_iv_hash() == u32::from_le_bytes(iv) as u64, "iv");
    nd::cover(1);
    let g = &GLOBAL_STRING_DECRYPTOR;
    for (v, iv) in [(WzMapleVersion::GMS, GMS), (WzMapleVersion::EMS, MSEA), (WzMapleVersion::BMS, [0; 4])] {
        assert!(g.get_decryptor_by_version(v).read().unwrap().get_iv_hash() == u32::from_le_bytes(iv) as u64, "version");
    }
    for (v, iv) in [(DecrypterType::GMS, GMS), (DecrypterType::KMS, MSEA), (DecrypterType::BMS, [0; 4]), (DecrypterType::Unknown, [0; 4])] {
        assert!(g.get_decryptor(v).read().unwrap().get_iv_hash() == u32::from_le_bytes(iv) as u64, "type");
    }
    for d in [g.get_decryptor_by_version(WzMapleVersion::KMST1198), g.get_decryptor(DecrypterType::KMST1198)] {
        assert!(d.read().unwrap().is_pkg2() && d.read().unwrap().get_iv_hash() == 0xDEADBEEF, "pkg2");
    }
}
}
