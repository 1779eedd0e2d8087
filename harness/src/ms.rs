//! C24, C25: .ms files, against ciphers and a writer of their own
use crate::nd;
use crate::util::*;
use std::sync::Arc;
use wz_reader::ms::header::MsHeader;
use wz_reader::ms::ms_image::MsEntryMeta;
use wz_reader::ms::snow2_decryptor::Snow2Decryptor;
use wz_reader::property::WzValue;
use wz_reader::{MsFile, MsImage, Reader, WzNode, WzNodeArc, WzNodeCast, WzObjectType, WzReader};

/// product in GF(2^8)
const fn gf(mut a: u32, mut b: u32, poly: u32) -> u32 {
    let mut r = 0;
    while b > 0 {
        if b & 1 == 1 {
            r ^= a;
        }
        a <<= 1;
        if a & 0x100 != 0 {
            a ^= poly;
        }
        b >>= 1;
    }
    r
}
const fn power(n: u32) -> u32 {
    let mut r = 1;
    let mut i = 0;
    while i < n {
        r = gf(r, 2, 0x1A9);
        i += 1;
    }
    r
}
const fn mul_table(e: [u32; 4]) -> [u32; 256] {
    let p = [power(e[0]), power(e[1]), power(e[2]), power(e[3])];
    let mut t = [0; 256];
    let mut c = 0;
    while c < 256 {
        t[c] = gf(p[0], c as u32, 0x1A9) << 24 | gf(p[1], c as u32, 0x1A9) << 16 | gf(p[2], c as u32, 0x1A9) << 8 | gf(p[3], c as u32, 0x1A9);
        c += 1;
    }
    t
}
/// the AES S-box followed by its column mixing
const fn mix_table() -> [u32; 256] {
    let mut t = [0; 256];
    let mut p = 1u32;
    let mut q = 1u32;
    let mut done = false;
    while !done {
        p = gf(p, 3, 0x11B);
        q = gf(q, 0xF6, 0x11B);
        let x = q as u8;
        let s = (x ^ x.rotate_left(1) ^ x.rotate_left(2) ^ x.rotate_left(3) ^ x.rotate_left(4) ^ 0x63) as u32;
        t[p as usize] = gf(3, s, 0x11B) << 24 | s << 16 | s << 8 | gf(2, s, 0x11B);
        done = p == 1;
    }
    t[0] = gf(3, 0x63, 0x11B) << 24 | 0x63 << 16 | 0x63 << 8 | gf(2, 0x63, 0x11B);
    t
}
static ALPHA: [u32; 256] = mul_table([23, 245, 48, 239]);
static ALPHA_INV: [u32; 256] = mul_table([16, 39, 6, 64]);
static MIX: [u32; 256] = mix_table();

/// SNOW 2.0
struct Snow {
    s: [u32; 16],
    r1: u32,
    r2: u32,
}
impl Snow {
    fn new(key: &[u8; 16]) -> Self {
        let mut s = [0; 16];
        for w in 0..4 {
            let mut v = 0u32;
            for b in 0..4 {
                // the key bytes are signed
                v |= (key[w * 4 + b] as i8 as i32 as u32) << (24 - 8 * b);
            }
            s[15 - w] = v;
            s[11 - w] = !v;
            s[7 - w] = v;
            s[3 - w] = !v;
        }
        let mut c = Self { s, r1: 0, r2: 0 };
        for _ in 0..32 {
            c.clock(true);
        }
        c
    }
    fn clock(&mut self, init: bool) {
        let s = &mut self.s;
        let f = self.r1.wrapping_add(s[15]) ^ self.r2;
        let mut v = (s[0] << 8) ^ ALPHA[(s[0] >> 24) as usize] ^ s[2] ^ (s[11] >> 8) ^ ALPHA_INV[(s[11] & 0xFF) as usize];
        if init {
            v ^= f;
        }
        let r1 = self.r2.wrapping_add(s[5]);
        let mut r2 = 0;
        for k in 0..4 {
            r2 ^= MIX[(self.r1 >> (8 * k) & 0xFF) as usize].rotate_left(8 * k);
        }
        self.r1 = r1;
        self.r2 = r2;
        for i in 0..15 {
            s[i] = s[i + 1];
        }
        s[15] = v;
    }
    fn next(&mut self) -> u32 {
        self.clock(false);
        self.r1.wrapping_add(self.s[15]) ^ self.r2 ^ self.s[0]
    }
}
/// encrypt whole words, the rest stays
fn snow_enc(key: &[u8; 16], data: &mut [u8]) {
    let mut s = Snow::new(key);
    for c in data.chunks_exact_mut(4) {
        let v = u32::from_le_bytes([c[0], c[1], c[2], c[3]]).wrapping_add(s.next());
        c.copy_from_slice(&v.to_le_bytes());
    }
}
/// a block of ChaCha20
fn chacha(key: &[u8; 32], nonce: &[u8; 12], counter: u32) -> [u8; 64] {
    let mut s = [0u32; 16];
    s[..4].copy_from_slice(&[0x61707865, 0x3320646e, 0x79622d32, 0x6b206574]);
    for i in 0..8 {
        s[4 + i] = u32::from_le_bytes([key[4 * i], key[4 * i + 1], key[4 * i + 2], key[4 * i + 3]]);
    }
    s[12] = counter;
    for i in 0..3 {
        s[13 + i] = u32::from_le_bytes([nonce[4 * i], nonce[4 * i + 1], nonce[4 * i + 2], nonce[4 * i + 3]]);
    }
    let mut x = s;
    let mut q = |a: usize, b: usize, c: usize, d: usize| {
        x[a] = x[a].wrapping_add(x[b]);
        x[d] = (x[d] ^ x[a]).rotate_left(16);
        x[c] = x[c].wrapping_add(x[d]);
        x[b] = (x[b] ^ x[c]).rotate_left(12);
        x[a] = x[a].wrapping_add(x[b]);
        x[d] = (x[d] ^ x[a]).rotate_left(8);
        x[c] = x[c].wrapping_add(x[d]);
        x[b] = (x[b] ^ x[c]).rotate_left(7);
    };
    for _ in 0..10 {
        q(0, 4, 8, 12);
        q(1, 5, 9, 13);
        q(2, 6, 10, 14);
        q(3, 7, 11, 15);
        q(0, 5, 10, 15);
        q(1, 6, 11, 12);
        q(2, 7, 8, 13);
        q(3, 4, 9, 14);
    }
    let mut out = [0; 64];
    for i in 0..16 {
        out[4 * i..4 * i + 4].copy_from_slice(&x[i].wrapping_add(s[i]).to_le_bytes());
    }
    out
}
const BASE: [u8; 32] = [
    0x7B, 0x2F, 0x35, 0x48, 0x43, 0x95, 0x02, 0xB9, 0xAE, 0x91, 0xA6, 0xE1, 0xD8, 0xD6, 0x24, 0xB4, 0x33, 0x10, 0x1D, 0x3D, 0xC1, 0xBB, 0xC6, 0xF4, 0xA5, 0xFE, 0xB3, 0x69, 0x6B, 0x56, 0xE4, 0x75,
];
/// the fields of the entries, encrypted one after the other
enum Out {
    Snow(Vec<u8>, [u8; 16]),
    /// data, key, place in the block, number of the block
    ChaCha(Vec<u8>, [u8; 32], usize, u32),
}
impl Out {
    fn put(&mut self, f: &[u8]) {
        match self {
            Out::Snow(v, _) => v.extend_from_slice(f),
            Out::ChaCha(v, key, at, block) => {
                let mut k = chacha(key, &[0; 12], *block);
                for x in f {
                    if *at == 64 {
                        *at = 0;
                        *block += 1;
                        k = chacha(key, &[0; 12], *block);
                    }
                    v.push(x ^ k[*at]);
                    *at += 1;
                }
                // a field that ends with a block starts the key stream over
                if *at == 64 {
                    *at = 0;
                    *block = 0;
                }
            }
        }
    }
    fn done(self) -> Vec<u8> {
        match self {
            Out::Snow(mut v, k) => {
                while v.len() % 4 != 0 {
                    v.push(0);
                }
                snow_enc(&k, &mut v);
                v
            }
            Out::ChaCha(v, ..) => v,
        }
    }
}
#[derive(Clone)]
struct Entry {
    name: Vec<u16>,
    check: i32,
    flags: i32,
    start: i32,
    size: i32,
    aligned: i32,
    unk: [i32; 4],
    key: [u8; 16],
}
fn put_entry(o: &mut Out, e: &Entry, v2: bool) {
    o.put(&(e.name.len() as i32).to_le_bytes());
    let mut n = vec![];
    for u in &e.name {
        n.extend(u.to_le_bytes());
    }
    o.put(&n);
    for v in [e.check, e.flags, e.start, e.size, e.aligned, e.unk[0], e.unk[1]] {
        o.put(&v.to_le_bytes());
    }
    o.put(&e.key);
    if v2 {
        o.put(&e.unk[2].to_le_bytes());
        o.put(&e.unk[3].to_le_bytes());
    }
}
/// file names as given, and as they count
const NAMES: [(&str, &str); 4] = [("dir/Mob_00000.MS", "mob_00000.ms"), ("a.ms", "a.ms"), ("/x/Packs/Etc_00001.ms", "etc_00001.ms"), ("zzzz", "zzzz")];
const SALTS: [&[u8]; 4] = [b"7", b"a1b2c3d4e5", &[0xE9, 0x41, 0x80], b""];
struct Ms {
    b: Vec<u8>,
    salt: String,
    full: String,
    hash: i32,
    hstart: usize,
    estart: usize,
}
impl Ms {
    fn key2(&self) -> [u8; 32] {
        let n = self.full.as_bytes();
        core::array::from_fn(|i| (i as u8).wrapping_add((i as u8 % 3 + 2).wrapping_mul(n[n.len() - 1 - i % n.len()])))
    }
    fn out(&self, v2: bool) -> Out {
        let k = self.key2();
        if v2 {
            Out::ChaCha(vec![], core::array::from_fn(|i| k[i] ^ BASE[i]), 0, 0)
        } else {
            Out::Snow(vec![], core::array::from_fn(|i| k[i]))
        }
    }
    /// everything in front of the entries. noise: where the random bytes come from
    fn new(v2: bool, name: &str, salt: &[u8], count: i32, noise: &dyn Fn(usize) -> Vec<u8>) -> Self {
        let sum: usize = name.bytes().map(|b| b as usize).sum();
        let mut b = noise(sum % 312 + 30);
        let r: Vec<u8> = b.iter().map(|x| if v2 { (*x as i8 >> 1) as u8 } else { *x }).collect();
        if v2 {
            b.push(4 ^ r[0]);
        }
        let mut l = noise(4);
        l[0] = salt.len() as u8 ^ r[0];
        b.extend(&l);
        let mut sum_of_salt = 0i32;
        for (i, c) in salt.iter().enumerate() {
            let s = [c ^ r[i] ^ if v2 { 0x4B } else { 0 }, noise(1)[0]];
            sum_of_salt = sum_of_salt.wrapping_add(u16::from_le_bytes(s) as i32);
            b.extend(s);
        }
        let hash = i32::from_le_bytes([l[0], l[1], l[2], l[3]]).wrapping_add(2).wrapping_add(count).wrapping_add(sum_of_salt);
        let salt: String = salt.iter().map(|c| *c as char).collect();
        let full = format!("{}{}", name, salt);
        let hstart = b.len();
        let key: [u8; 32] = core::array::from_fn(|i| full.as_bytes()[i % full.len()].wrapping_add(i as u8));
        let mut h = hash.to_le_bytes().to_vec();
        if v2 {
            h.extend(count.to_le_bytes());
            let k = chacha(&core::array::from_fn(|i| key[i] ^ BASE[i]), &[0; 12], 0);
            for i in 0..8 {
                h[i] ^= k[i];
            }
            h.extend(noise(sum * 3 % 212 + 64));
        } else {
            h.push(2);
            h.extend(count.to_le_bytes());
            h.extend(noise(3));
            snow_enc(&core::array::from_fn(|i| key[i]), &mut h);
            h.extend(noise(sum * 3 % 212 + 33 - 3));
        }
        b.extend(h);
        let estart = b.len();
        Self { b, salt, full, hash, hstart, estart }
    }
}
fn header(v2: bool, path: &str, r: &WzReader) -> Option<MsHeader> {
    if v2 { MsHeader::from_ms_file_v2(path, r).ok() } else { MsHeader::from_ms_file(path, r).ok() }
}
fn check_header(h: &MsHeader, m: &Ms, count: i32, v2: bool) {
    assert!(h.key_salt == m.salt && h.name_with_salt == m.full, "salt");
    assert!(h.header_hash == m.hash && h.entry_count == count, "hash and count");
    assert!(h.hstart == m.hstart && h.estart == m.estart, "places");
    assert!(h.version == if v2 { 4 } else { 2 } && h.ms_file_version == v2 as u8 + 1, "version");
}
fn file_node(b: &[u8], h: MsHeader) -> (WzNodeArc, Arc<WzReader>) {
    let r = arc_reader(b);
    let f = MsFile { reader: Arc::clone(&r), block_size: b.len(), is_parsed: false, header: h };
    (WzNode::from_str("f.ms", f, None).into_lock(), r)
}
fn utf16(s: &str) -> Vec<u16> {
    s.encode_utf16().collect()
}
/// an image as stored
fn image_enc(v2: bool, salt: &str, name: &str, key: &[u8; 16], data: &mut [u8]) {
    let mut h = 0x811C9DC5u32;
    for c in salt.chars() {
        h = (h ^ c as u32).wrapping_mul(0x1000193);
    }
    let digits: Vec<u8> = format!("{}", h).bytes().map(|b| b - b'0').collect();
    let d = |i: usize| digits[i % digits.len()];
    let units = utf16(name);
    let ik: [u8; 32] = core::array::from_fn(|i| {
        let c = units[i % units.len()] as u8;
        let e = key[(d(i + 2) as usize + i) % 16];
        let f = (d(i) % 2).wrapping_add(e).wrapping_add((d(i + 1) + i as u8) % 5);
        (i as u8).wrapping_add(c.wrapping_mul(f))
    });
    let first = data.len().min(1024);
    if v2 {
        let mut kh = vec![];
        kh.extend(h.to_le_bytes());
        kh.extend((h >> 1).to_le_bytes());
        kh.extend(((h >> 1) ^ 0x6C).to_le_bytes());
        for i in 0..12i32 {
            let v = -i + 11 * (i / 11) + ((90 + 43 * i) ^ (i >> 2)) + ((8 * i) ^ (17 * i));
            kh[i as usize] ^= v as u8;
        }
        let mut nonce = [0; 12];
        nonce[4..].copy_from_slice(&kh[..8]);
        let counter = u32::from_le_bytes([kh[8], kh[9], kh[10], kh[11]]);
        let ik = core::array::from_fn(|i| ik[i] ^ BASE[i]);
        for (n, c) in data[..first].chunks_mut(64).enumerate() {
            let k = chacha(&ik, &nonce, counter.wrapping_add(n as u32));
            for (x, k) in c.iter_mut().zip(k) {
                *x ^= k;
            }
        }
    } else {
        let ik = core::array::from_fn(|i| ik[i]);
        snow_enc(&ik, data);
        snow_enc(&ik, &mut data[..first]);
    }
}
const ENTRY_NAMES: [&str; 4] = ["Mob/0100100.img", "x", "a/b/c/d/e/f/g/h/i/j/k/l/m/n/o/p/q.img", "q\u{E9}\u{AC00}.img"];
const ENTRY_KEYS: [[u8; 16]; 2] = [[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16], [0xFF, 0, 0x80, 0x7F, 0x33, 0xC2, 0x10, 0xEE, 0x91, 0x44, 0xAB, 5, 0x6D, 0xDA, 0xB7, 0x3C]];
fn meta(v2: bool, salt: &str, name: &str, key: [u8; 16], start: usize, size: usize, aligned: usize) -> MsEntryMeta {
    MsEntryMeta {
        key_salt: salt.to_string(),
        entry_name: name.to_string(),
        start_pos: start as i32,
        size: size as i32,
        size_aligned: aligned as i32,
        entry_key: key,
        version: v2 as u8 + 1,
        ..Default::default()
    }
}
/// a file of one entry holding `v`, in an image (entry 0) or a text
pub fn sample(v2: bool, name: &str, salt: usize, entry: usize, v: u32) -> Vec<u8> {
    let ename = ENTRY_NAMES[entry];
    let m = Ms::new(v2, name, SALTS[salt], 1, &|n| vec![0xC3; n]);
    let mut im = vec![0x73, 0xF8];
    im.extend(enc_ascii("Property"));
    im.extend([0, 0, 1, 0]);
    im.extend(wz_str("k"));
    im.extend([3, 0x80]);
    im.extend(v.to_le_bytes());
    let mut im: Vec<u8> = if entry == 0 { im } else { b"#Property".iter().copied().chain(v.to_le_bytes()).collect() };
    let size = im.len();
    im.resize(1024, 0);
    image_enc(v2, &m.salt, ename, &ENTRY_KEYS[1], &mut im);
    let mut o = m.out(v2);
    put_entry(&mut o, &Entry { name: utf16(ename), check: 1, flags: 2, start: 1, size: size as i32, aligned: 1024, unk: [0; 4], key: ENTRY_KEYS[1] }, v2);
    let mut b = m.b.clone();
    b.extend(o.done());
    b.resize((b.len() + 1023) / 1024 * 1024 + 1024, 0x77);
    b.extend(&im);
    b
}
pub fn check_sample(node: &WzNodeArc, entry: usize, v: u32) {
    let ename = ENTRY_NAMES[entry];
    node.write().unwrap().parse(node).expect("entries");
    assert!(node.read().unwrap().children.len() == 1, "one entry");
    let c = node.read().unwrap().at(ename).expect("entry");
    c.write().unwrap().parse(&c).expect("image");
    let r = c.read().unwrap();
    assert!(matches!(r.object_type, WzObjectType::Image(_)) && r.name.as_str() == ename && r.children.len() == 1, "image node");
    if entry == 0 {
        let k = r.at("k").expect("value");
        assert!(matches!(k.read().unwrap().object_type, WzObjectType::Value(WzValue::Int(x)) if x as u32 == v), "value");
    } else {
        let k = r.at("text.txt").expect("text");
        assert!(nd::same(k.read().unwrap().try_as_raw_data().unwrap().get_buffer(), &v.to_le_bytes()), "text");
    }
}

harnesses! {
/// SNOW in any pieces. params: words, key
fn h_c24_snow() {
    let n = nd::param(0) as usize;
    let key: [u8; 16] = match nd::param(1) {
        0 => [0; 16],
        1 => ENTRY_KEYS[0],
        2 => ENTRY_KEYS[1],
        _ => core::array::from_fn(|i| 0x6D + i as u8),
    };
    let data = nd::vec(n * 4 + 3);
    let mut want = data.clone();
    let mut s = Snow::new(&key);
    for c in want.chunks_exact_mut(4) {
        let v = u32::from_le_bytes([c[0], c[1], c[2], c[3]]).wrapping_sub(s.next());
        c.copy_from_slice(&v.to_le_bytes());
    }
    let cut = nd::below(n as u64 + 1) as usize * 4;
    let mut d = Snow2Decryptor::new(key);
    let (a, b) = data.split_at(cut);
    let mut got = d.make_decrypt_slice(a);
    let mut rest = b.to_vec();
    assert!(d.decrypt_slice(&mut rest) == 3, "bytes left over");
    got.extend(rest);
    assert!(nd::same(&got, &want), "decrypted");
    nd::cover(1);
}
/// the header is read back. params: second format, name, salt
fn h_c24_header() {
    let v2 = nd::param(0) == 1;
    let (path, name) = NAMES[nd::param(1) as usize];
    let count = nd::i32();
    let salt = SALTS[nd::param(2) as usize];
    let m = Ms::new(v2, name, salt, count, &|n| {
        // with many salt characters, only some bytes are free: sums of many are hard
        let mut v = pattern(n);
        let free = if salt.len() < if v2 { 2 } else { 4 } { n } else if n == 1 { 0 } else { n.min(if v2 { 1 } else { 4 }) };
        nd::fill(&mut v[..free]);
        v
    });
    let mut b = m.b.clone();
    b.extend([0; 128]);
    let h = header(v2, path, &WzReader::from_buff(&b)).expect("header");
    check_header(&h, &m, count, v2);
    nd::cover(1);
}
/// entries are read back. params: second format, name, salt, entries
fn h_c24_file() {
    let v2 = nd::param(0) == 1;
    let (path, name) = NAMES[nd::param(1) as usize];
    let n = nd::param(3) as usize;
    let m = Ms::new(v2, name, SALTS[nd::param(2) as usize], n as i32, &|n| vec![0x5A; n]);
    let mut o = m.out(v2);
    let list: Vec<Entry> = (0..n)
        .map(|i| Entry {
            name: utf16(ENTRY_NAMES[i % 4]),
            check: nd::i32(),
            flags: nd::i32(),
            start: nd::u16() as i32,
            size: nd::i32(),
            aligned: nd::i32(),
            unk: [nd::i32(), nd::i32(), nd::i32(), nd::i32()],
            key: nd::bytes(),
        })
        .collect();
    for e in &list {
        nd::assume(e.size >= 0 && e.aligned >= e.size);
        put_entry(&mut o, e, v2);
    }
    let e = o.done();
    let mut b = m.b.clone();
    b.extend(&e);
    // the second format is read in blocks of 64 bytes, the first in words
    let used = if v2 { m.estart + (e.len() + 63) / 64 * 64 } else { m.estart + e.len() };
    let start = (used + 1023) / 1024 * 1024;
    b.resize(start + 1024, 0);
    let h = header(v2, path, &WzReader::from_buff(&b)).expect("header");
    let (node, r) = file_node(&b, h);
    node.write().unwrap().parse(&node).expect("entries");
    let f = node.read().unwrap();
    assert!(f.children.len() == n, "number of entries");
    for (i, e) in list.iter().enumerate() {
        let c = f.at(ENTRY_NAMES[i]).expect("entry");
        let c = c.read().unwrap();
        assert!(Arc::ptr_eq(&c.parent.upgrade().unwrap(), &node), "parent");
        let WzObjectType::MsImage(im) = &c.object_type else { panic!("ms image") };
        assert!(Arc::ptr_eq(&im.reader, &r), "reader");
        assert!(im.offset == start + e.start as usize * 1024 && im.block_size == e.aligned as usize, "place");
        let t = &im.meta;
        assert!(t.entry_name == ENTRY_NAMES[i] && t.key_salt == m.salt && t.version == v2 as u8 + 1, "names");
        assert!(t.check_sum == e.check && t.flags == e.flags && t.size == e.size && t.size_aligned == e.aligned, "sizes");
        assert!(t.start_pos as usize == im.offset && t.unk1 == e.unk[0] && t.unk2 == e.unk[1], "fields");
        assert!(nd::same(&t.entry_key, &e.key), "key");
        assert!(!v2 || t.unk3 == e.unk[2] && t.unk4 == e.unk[3], "last fields");
    }
    nd::cover(1);
}
/// an image is decrypted. params: second format, salt, name, key, size, stored size
fn h_c24_image() {
    let v2 = nd::param(0) == 1;
    let salt: String = SALTS[nd::param(1) as usize].iter().map(|c| *c as char).collect();
    let name = ENTRY_NAMES[nd::param(2) as usize];
    let key = ENTRY_KEYS[nd::param(3) as usize];
    let (size, aligned) = (nd::param(4) as usize, nd::param(5) as usize);
    let mut plain = pattern(aligned);
    for i in 0..aligned {
        if i < 12 || (1012..1036).contains(&i) || i + 4 >= aligned {
            plain[i] = nd::u8();
        }
    }
    let mut d = plain.clone();
    image_enc(v2, &salt, name, &key, &mut d);
    let mut b = vec![0x33; 64];
    b.extend(&d);
    b.extend([1; 7]);
    let im = MsImage::new(meta(v2, &salt, name, key, 64, size, aligned), &arc_reader(&b));
    let w = im.to_wz_image();
    assert!(w.name.as_str() == name && w.offset == 0 && w.block_size == size && !w.is_parsed, "image");
    assert!(w.reader.get_size() == size.max(1), "size");
    assert!(nd::same(w.reader.get_slice(0..size), &plain[..size]), "contents");
    nd::cover(1);
}
/// from the file to the values of an image. params: second format, name, salt, entry name
fn h_c24_parse() {
    let v2 = nd::param(0) == 1;
    let (path, name) = NAMES[nd::param(1) as usize];
    let (e, v) = (nd::param(3) as usize, nd::u32());
    let b = sample(v2, name, nd::param(2) as usize, e, v);
    let h = header(v2, path, &WzReader::from_buff(&b)).expect("header");
    let (node, _) = file_node(&b, h);
    for round in 0..2 {
        check_sample(&node, e, v);
        if round == 0 {
            node.write().unwrap().unparse();
            assert!(node.read().unwrap().children.is_empty(), "unparsed");
        }
    }
    nd::cover(1);
}
/// cut off or damaged headers. params: second format, name, salt, 0 cut, 1 length of the salt, 2 encrypted part, 3 version byte
fn h_c25_header() {
    let v2 = nd::param(0) == 1;
    let (path, name) = NAMES[nd::param(1) as usize];
    let m = Ms::new(v2, name, SALTS[nd::param(2) as usize], 3, &|n| pattern(n));
    let mut b = m.b.clone();
    b.extend([0; 128]);
    match nd::param(3) {
        0 => {
            let cut = nd::below(b.len() as u64) as usize;
            let h = header(v2, path, &WzReader::from_buff(&b[..cut]));
            match h {
                Some(h) => {
                    assert!(cut >= m.hstart + if v2 { 8 } else { 9 }, "accepted without its data");
                    check_header(&h, &m, 3, v2);
                    nd::cover(1);
                }
                None => {
                    assert!(cut < m.b.len(), "complete header");
                    nd::cover(2);
                }
            }
        }
        1 => {
            let at = m.hstart - 2 * m.salt.chars().count() - 4;
            b[at] = nd::conc(nd::u8() as u64) as u8;
            let same = b[at] == m.b[at];
            match header(v2, path, &WzReader::from_buff(&b)) {
                Some(h) => {
                    assert!(v2 || same, "wrong salt");
                    assert!(!same || h.key_salt == m.salt, "salt");
                    nd::cover(1);
                }
                None => {
                    assert!(!same, "good header");
                    nd::cover(2);
                }
            }
        }
        2 => {
            // any encrypted header
            let x = nd::vec(if v2 { 8 } else { 12 });
            let mut p = x.clone();
            if v2 {
                let k: [u8; 32] = core::array::from_fn(|i| m.full.as_bytes()[i % m.full.len()].wrapping_add(i as u8) ^ BASE[i]);
                let k = chacha(&k, &[0; 12], 0);
                for i in 0..8 {
                    p[i] ^= k[i];
                }
            } else {
                snow_enc(&core::array::from_fn(|i| m.full.as_bytes()[i % m.full.len()].wrapping_add(i as u8)), &mut p);
            }
            b[m.hstart..m.hstart + p.len()].copy_from_slice(&p);
            let i = |k: usize| i32::from_le_bytes([x[k], x[k + 1], x[k + 2], x[k + 3]]);
            let good = v2 || x[4] == 2 && i(0).wrapping_sub(m.hash) == i(5).wrapping_sub(3);
            match header(v2, path, &WzReader::from_buff(&b)) {
                Some(h) => {
                    assert!(good, "accepted");
                    assert!(h.header_hash == i(0) && h.entry_count == i(if v2 { 4 } else { 5 }), "fields");
                    nd::cover(1);
                }
                None => {
                    assert!(!good, "rejected");
                    nd::cover(2);
                }
            }
        }
        _ => {
            let at = m.hstart - 2 * m.salt.chars().count() - 5;
            b[at] = nd::u8();
            let same = b[at] == m.b[at];
            assert!(header(v2, path, &WzReader::from_buff(&b)).is_some() == same, "version");
            nd::cover(if same { 1 } else { 2 });
        }
    }
}
/// a file of one format is not taken for the other. params: name, salt
fn h_c25_other() {
    let (path, name) = NAMES[nd::param(0) as usize];
    let first = nd::conc(nd::u8() as u64) as u8;
    let m = Ms::new(true, name, SALTS[nd::param(1) as usize], 3, &|n| {
        let mut v = pattern(n);
        v[0] = first;
        v
    });
    let mut b = m.b;
    b.extend([0; 300]);
    let r = WzReader::from_buff(&b);
    assert!(header(false, path, &r).is_none(), "second format taken for the first");
    assert!(header(true, path, &r).is_some(), "second format");
    nd::cover(1);
}
/// damaged entries. params: second format, 0 length of a name, 1 number of entries, 2 place and sizes, 3 cut off, 4 no name
fn h_c25_entries() {
    let v2 = nd::param(0) == 1;
    let what = nd::param(1);
    let mut m = Ms::new(v2, "a.ms", b"7", 2, &|n| vec![0x5A; n]);
    let mut o = m.out(v2);
    let mut list: Vec<Entry> = ["a.img", "b.img"]
        .iter()
        .map(|n| Entry { name: utf16(n), check: 0, flags: 0, start: 0, size: 20, aligned: 32, unk: [0; 4], key: ENTRY_KEYS[0] })
        .collect();
    match what {
        2 => {
            list[1].start = nd::i32();
            list[1].size = nd::i32();
            list[1].aligned = nd::i32();
        }
        4 => list[1].name.clear(),
        _ => {}
    }
    put_entry(&mut o, &list[0], v2);
    if what == 0 {
        let mut n = nd::i32();
        if n >= 0 && n < 90 {
            n = nd::conc(n as u64) as i32;
        }
        o.put(&n.to_le_bytes());
        for _ in 0..24 {
            o.put(&[0x61, 0, 0x62, 0]);
        }
    } else {
        put_entry(&mut o, &list[1], v2);
    }
    m.b.extend(o.done());
    let mut b = m.b.clone();
    if what > 0 {
        b.resize((b.len() + 1023) / 1024 * 1024 + 40, 0x77);
    }
    let mut h = header(v2, "a.ms", &WzReader::from_buff(&b)).expect("header");
    match what {
        1 => h.entry_count = nd::i32(),
        3 => {
            let cut = m.estart + nd::below((b.len() - m.estart) as u64 / 3) as usize * 3;
            b.truncate(cut);
        }
        _ => {}
    }
    let count = h.entry_count;
    let (node, _) = file_node(&b, h);
    let ok = node.write().unwrap().parse(&node).is_ok();
    if ok {
        let kids: Vec<WzNodeArc> = node.read().unwrap().children.values().cloned().collect();
        assert!(what != 1 || count >= 0, "number of entries");
        for k in kids {
            let good = k.write().unwrap().parse(&k).is_ok();
            assert!(!good || k.read().unwrap().children.len() < 100, "image");
        }
        nd::cover(1);
    } else {
        nd::cover(2);
    }
}
}
