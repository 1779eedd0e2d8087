//! C06 headers, C07 offsets, C08 PKG1 hashes, C09 PKG2 hashes
use crate::nd;
use crate::util::*;
use wz_reader::reader::{WzBaseReader, WzSliceReader};
use wz_reader::util::offset::{decrypt_pkg2_entry_count_64_v1, WzOffsetMeta, WzOffsetVersion};
use wz_reader::util::profile::{get_all_pkg2_profiles, Pkg2Profile, WzProfileVersion};
use wz_reader::version::pkg1::VersionGen;
use wz_reader::version::pkg2::{self, Pkg2VersionGen, Pkg2VersionGenV1, Pkg2VersionGenV2, Pkg2VersionGenV3, Pkg2VersionGenV4, Pkg2VersionGenV5, Pkg2VersionGenV6, VersionGenerator};
use wz_reader::version::PKGVersion;
use wz_reader::{WzHeader, WzHeaderFlag};

fn le(b: &[u8], p: u64, n: u64) -> Option<u64> {
    if p > b.len() as u64 || b.len() as u64 - p < n {
        return None;
    }
    let mut v = 0;
    for i in 0..n as usize {
        v |= (b[p as usize + i] as u64) << (8 * i);
    }
    Some(v)
}
fn pick(b: &[u8], at: &[usize]) -> u64 {
    let mut v = 0;
    for (i, p) in at.iter().enumerate() {
        v |= (b[*p] as u64) << (8 * i);
    }
    v
}
#[derive(PartialEq)]
struct H {
    v2: bool,
    fsize: u64,
    fstart: u64,
    data_start: u64,
    encver: Option<u16>,
    hash1: u64,
    hash2: u64,
    random: u64,
}
fn header_model(b: &[u8]) -> Option<H> {
    let id = le(b, 0, 4)?;
    let one = u32::from_le_bytes(*b"PKG1") as u64;
    let two = u32::from_le_bytes(*b"PKG2") as u64;
    if id == one {
        let fsize = le(b, 4, 8)?;
        let fstart = le(b, 12, 4)?;
        let mut encver = le(b, fstart, 2).map(|v| v as u16);
        if let Some(e) = encver {
            if fsize < 2 || e > 0xFF {
                encver = None;
            } else if e == 0x80 {
                match le(b, fstart + 2, 4) {
                    None => encver = None,
                    Some(c) => {
                        if c != 0 && c <= 0xFFFF && c & 0xFF == 0 {
                            encver = None;
                        }
                    }
                }
            }
        }
        let data_start = if encver.is_some() { fstart + 2 } else { fstart };
        return Some(H { v2: false, fsize, fstart, data_start, encver, hash1: 0, hash2: 0, random: 0 });
    }
    if id == two {
        let fsize = le(b, 4, 8)?;
        let fstart = le(b, 12, 4)?;
        let hash1 = le(b, fstart, 4)?;
        let hash2 = le(b, fstart + 4, 4)?;
        return Some(H { v2: true, fsize, fstart, data_start: fstart + 8, encver: None, hash1, hash2, random: 0 });
    }
    if b.len() >= 150 && pick(b, &[0x12, 0x09, 0x02, 0x95]) == b.len() as u64 - 150 {
        return Some(H {
            v2: true,
            fsize: b.len() as u64 - 150,
            fstart: 150,
            data_start: 150,
            encver: None,
            hash1: pick(b, &[0x48, 0x24, 0x0F, 0x31, 0x46, 0x47, 0x63, 0x67]),
            hash2: pick(b, &[0x8E, 0x8C, 0x93, 0x0E, 0x64, 0x7B, 0x2E, 0x4D]),
            random: 64,
        });
    }
    if b.len() >= 68 && pick(b, &[0x15, 0x19, 0x39, 0x41]) == b.len() as u64 - 68 {
        return Some(H {
            v2: true,
            fsize: b.len() as u64 - 68,
            fstart: 68,
            data_start: 68,
            encver: None,
            hash1: pick(b, &[0x43, 0x1A, 0x30, 0x10]),
            hash2: pick(b, &[0x2D, 0x07, 0x3F, 0x2E]),
            random: 32,
        });
    }
    None
}
fn same_header(h: &WzHeader, w: &H) {
    assert!((h.ident == PKGVersion::V2) == w.v2 && (h.ident == PKGVersion::V1) == !w.v2, "package kind");
    assert!(h.fsize == w.fsize, "size");
    assert!(h.fstart as u64 == w.fstart, "content start");
    assert!(h.data_start as u64 == w.data_start, "directory start");
    assert!(h.encrypt_version == w.encver, "encrypted version");
    assert!(h.hash1 == w.hash1 && h.hash2 == w.hash2, "hashes");
    assert!(h.hash1_u32() == w.hash1 as u32 && h.hash2_u32() == w.hash2 as u32, "short hashes");
    assert!(h.is_pkg2_64() == (w.random == 64), "64-bit form");
    assert!(h.flags.contains(WzHeaderFlag::PKG2_RANDOM_HEADER) == (w.random == 32), "random header");
}
fn check_header(b: &[u8]) {
    let want = header_model(b);
    let got = WzHeader::read_from_buf(b);
    match (&got, &want) {
        (Ok((h, n)), Some(w)) => {
            same_header(h, w);
            assert!(*n as u64 == w.fstart, "consumed");
            nd::cover(1);
            nd::obs(h.data_start as u64);
        }
        (Err(_), None) => nd::cover(2),
        (Ok(_), None) => panic!("malformed header accepted"),
        (Err(_), Some(_)) => panic!("well-formed header rejected"),
    }
    // what the readers expose
    let k = keys0();
    let r = WzBaseReader::new(b.to_vec());
    let s = WzSliceReader::new_with_header(b, &k);
    for h in [r.header, r.create_header(), s.header] {
        match &want {
            Some(w) => same_header(&h, w),
            None => assert!(h.ident == PKGVersion::Unknown && h.fstart == 0 && h.data_start == 0 && h.fsize == 0 && h.encrypt_version.is_none(), "default header"),
        }
    }
}

pub fn mix(mut k: u32) -> u32 {
    k ^= k >> 16;
    k = k.wrapping_mul(0x7FEB352D);
    k ^= k >> 15;
    k = k.wrapping_mul(0x846CA68B);
    k ^ k >> 16
}
const C: u32 = 0x581C3F6D;
/// the published formulas, 32-bit wrapping arithmetic
pub fn offset_model(v: u64, fstart: u32, hash1: u32, hash: u32, pos: u32, enc: u32) -> u32 {
    let d = !pos.wrapping_sub(fstart);
    match v {
        0 => {
            let x = d.wrapping_mul(hash).wrapping_sub(C);
            (x.rotate_left(x & 31) ^ enc).wrapping_add(fstart.wrapping_mul(2))
        }
        1 => {
            let x = d.wrapping_mul(hash).wrapping_sub(C) ^ hash1.wrapping_mul(0x01010101);
            (x.rotate_left((hash ^ hash1) & 31) ^ enc).wrapping_add(fstart)
        }
        2 => {
            let x = d.wrapping_mul(hash ^ hash1).wrapping_sub(C) ^ hash1.wrapping_mul(0x01010101);
            (x.rotate_left((hash ^ hash1) & 31) ^ !enc).wrapping_add(fstart)
        }
        3 => {
            let p = hash ^ hash1;
            let m = mix(p ^ 0x6D4C3B2A) ^ 0x91E10DA5;
            let x = d.wrapping_mul(p.wrapping_add(m ^ 0xA7E3C093)).wrapping_sub(C) ^ hash1.wrapping_mul(0x01010101) ^ m.wrapping_mul(0x9E3779B9);
            (x.rotate_left((p ^ m) & 31) ^ !enc).wrapping_add(fstart)
        }
        _ => {
            let p = hash ^ hash1;
            let m = p ^ 0x33BBBB33;
            let x = d.wrapping_mul(p.wrapping_add(m ^ 0xA7E3C093)).wrapping_sub(C) ^ hash1.wrapping_mul(0x01010101) ^ m.wrapping_mul(0x9E3779B9);
            (x.rotate_left(19) ^ !enc).wrapping_add(fstart)
        }
    }
}
pub fn off_version(v: u64) -> WzOffsetVersion {
    match v {
        0 => WzOffsetVersion::Pkg1,
        1 => WzOffsetVersion::Pkg2V1,
        2 => WzOffsetVersion::Pkg2V2,
        3 => WzOffsetVersion::Pkg2V3,
        _ => WzOffsetVersion::Pkg2_64V1,
    }
}
pub fn hash_model(v: i32) -> u32 {
    let mut h = 0u32;
    for c in v.to_string().bytes() {
        h = h.wrapping_mul(32).wrapping_add(c as u32).wrapping_add(1);
    }
    h
}
fn enc_model(h: u32) -> u32 {
    !(h ^ h >> 8 ^ h >> 16 ^ h >> 24) & 0xFF
}
const K: u32 = 0x1A2B3C4D;
fn verify_model(g: u64, h1: u32, h2: u32, t: u32) -> bool {
    match g {
        1 => h1.rotate_left(7) ^ t == h2,
        2 => (h1 ^ t.wrapping_add(K)).rotate_left(t & 31) ^ t == h2,
        3 => !((h1 ^ t.wrapping_add(K)).rotate_left((t & 15) + (h1 & 15)) ^ t ^ h1) == h2,
        _ => {
            let b = h1 ^ t;
            let m = mix(b ^ 0x6D4C3B2A) ^ 0x91E10DA5;
            let x = h1 ^ (m & 0xFFFF).wrapping_add(t).wrapping_add(K);
            let x = x.rotate_left(((m ^ t) & 15) + (h1 & 15)) ^ b.wrapping_add(m);
            if g == 4 { x == !h2 } else { x ^ 0x2A2C818B == h2 }
        }
    }
}
fn verify(g: u64, h1: u32, h2: u32, t: u32) -> bool {
    match g {
        1 => Pkg2VersionGenV1::verify_hash(h1, h2, t),
        2 => Pkg2VersionGenV2::verify_hash(h1, h2, t),
        3 => Pkg2VersionGenV3::verify_hash(h1, h2, t),
        4 => Pkg2VersionGenV4::verify_hash(h1, h2, t),
        _ => Pkg2VersionGenV5::verify_hash(h1, h2, t),
    }
}
fn gen(g: u64) -> Pkg2VersionGen {
    match g {
        1 => Pkg2VersionGen::V1,
        2 => Pkg2VersionGen::V2,
        3 => Pkg2VersionGen::V3,
        4 => Pkg2VersionGen::V4,
        5 => Pkg2VersionGen::V5,
        _ => Pkg2VersionGen::V6,
    }
}

harnesses! {
/// PKG1 / PKG2 idents. params: package 1 or 2 (0: any ident), buffer length
fn h_c06_ident() {
    let n = nd::param(1) as usize;
    let mut b = nd::vec(n);
    if nd::param(0) != 0 && n >= 4 {
        b[..4].copy_from_slice(if nd::param(0) == 1 { b"PKG1" } else { b"PKG2" });
    }
    check_header(&b);
}
/// headers without ident. params: total length
fn h_c06_random() {
    let n = nd::param(0) as usize;
    let mut b = nd::vec(n);
    b[0] = b'A' | b[0] & 0x1E; // never 'P'
    for i in 1..4 { b[i] &= 0x7F; }
    check_header(&b);
}
/// every stored offset, hash, header size and entry position. param: version
fn h_c07_offset() {
    let v = nd::param(0);
    let (fstart, pos, enc) = (nd::u32(), nd::u32(), nd::u32());
    let (hash1, hash) = (nd::u64(), nd::u64());
    let header = WzHeader { fstart: fstart as usize, hash1, ..Default::default() };
    let meta = WzOffsetMeta { hash, encrypted_offset: enc, offset: pos as usize };
    let got = off_version(v).get_calculator()(&header, &meta).unwrap();
    let want = offset_model(v, fstart, hash1 as u32, hash as u32, pos, enc);
    assert!(got as u64 == want as u64, "position");
    // different stored offsets at one place decode to different positions
    let enc2 = nd::u32();
    nd::assume(enc2 != enc);
    let got2 = off_version(v).get_calculator()(&header, &WzOffsetMeta { encrypted_offset: enc2, ..meta }).unwrap();
    assert!(got2 != got, "distinct");
    nd::cover(1);
}
/// 64-bit PKG2 entry counts: any header hash, any file hash, any stored count
fn h_c07_count() {
    let (h1, h, c) = (nd::u64(), nd::u64(), nd::u64());
    let header = WzHeader { hash1: h1, ..Default::default() };
    let want = (c ^ h1 ^ h ^ 0x550EC4DD02C468EC) as i64 >> 16;
    let got = decrypt_pkg2_entry_count_64_v1(&header, h, c as i64);
    let got2 = WzOffsetVersion::Pkg2_64V1.get_entry_count_calculator()(&header, h, c as i64);
    assert!(got.is_ok() == got2.is_ok(), "selected");
    match got {
        Ok(n) => { assert!(n as u64 == want as u64 && want >= 0 && want <= i32::MAX as i64, "count"); assert!(got2.unwrap() == n, "selected"); nd::cover(1); }
        Err(_) => { assert!(want < 0 || want > i32::MAX as i64, "valid count rejected"); nd::cover(2); }
    }
}
/// version number -> hash and check value; any stored check value. params: first version, how many
fn h_c08_hash() {
    let v = nd::param(0) as i32 + nd::below(nd::param(1)) as i32;
    let h = hash_model(v);
    assert!(VersionGen::calculate_version_hash(v) == h, "hash");
    let enc = nd::i32();
    let g = VersionGen::new(enc, v, 2000).check_and_get_version_hash();
    let accept = enc == v || enc == 770 || enc as u32 == enc_model(h);
    assert!(g == if accept { h } else { 0 }, "check");
    nd::cover(1);
}
/// the search visits every version of its range once, in order, with the hash its check value admits.
/// params: first version, count
fn h_c08_search() {
    let enc = nd::u8() as i32;
    let (a, n) = (nd::param(0) as i32, nd::param(1) as i32);
    let mut it = VersionGen::new(enc, a, a + n - 1);
    for v in a..a + n {
        let (gv, gh) = it.next().unwrap();
        let h = hash_model(v);
        let w = if enc == v || enc as u32 == enc_model(h) { h } else { 0 };
        assert!(gv == v && gh == w, "item");
    }
    assert!(it.next().is_none() && it.next().is_none(), "end");
    nd::cover(1);
}
/// acceptance test of every generation, all hashes. param: generation
fn h_c09_verify() {
    let g = nd::param(0);
    if g == 6 {
        let (a, b, t) = (nd::u64(), nd::u64(), nd::u64());
        assert!(Pkg2VersionGenV6::verify_hash(a, b, t) == (t == a ^ b ^ 0xABCDEF0123456789), "accept");
        let r: Vec<u64> = gen(6).get_generator_u64(a, b).get_iter().collect();
        assert!(r.len() == 1 && Pkg2VersionGenV6::verify_hash(a, b, r[0]), "generated");
        assert!(gen(6).get_generator_u64(a, b).get_verifier()(a, b, t) == Pkg2VersionGenV6::verify_hash(a, b, t), "verifier");
    } else {
        let (a, b, t) = (nd::u32(), nd::u32(), nd::u32());
        assert!(verify(g, a, b, t) == verify_model(g, a, b, t), "accept");
        assert!(gen(g).get_generator(a as u64, b as u64).get_verifier()(a, b, t) == verify(g, a, b, t), "verifier");
        if g == 1 {
            let r: Vec<u32> = gen(1).get_generator(a as u64, b as u64).get_iter().collect();
            assert!(r.len() == 1 && verify(1, a, b, r[0]), "generated");
        }
    }
    nd::cover(1);
}
/// every acceptable hash is generated, everything generated is acceptable: any target hash.
/// params: generation (2, 3), header hash 1, seed target deciding header hash 2
fn h_c09_complete() {
    let g = nd::param(0);
    let h1 = nd::param(1) as u32;
    let t0 = nd::param(2) as u32;
    let h2 = match g {
        2 => (h1 ^ t0.wrapping_add(K)).rotate_left(t0 & 31) ^ t0,
        _ => !((h1 ^ t0.wrapping_add(K)).rotate_left((t0 & 15) + (h1 & 15)) ^ t0 ^ h1),
    };
    let r: Vec<u32> = gen(g).get_generator(h1 as u64, h2 as u64).get_iter().collect();
    for x in &r {
        assert!(verify_model(g, h1, h2, *x), "unacceptable hash generated");
    }
    let t = nd::u32();
    nd::assume(verify_model(g, h1, h2, t));
    let mut hit = false;
    for x in &r {
        hit |= *x == t;
    }
    assert!(hit, "acceptable hash missed");
    nd::cover(1);
    nd::obs(r.len() as u64);
    // the combined search yields all generations
    let all: Vec<u32> = pkg2::VersionGen::new(h1, h2).collect();
    let mut hit = false;
    for x in &all { hit |= *x == t; }
    assert!(hit, "missed by the combined search");
}
/// the profiles: every PKG2 version pairs its own generation, offsets and names key; remembered profiles recheck themselves
fn h_c09_profiles() {
    let (a, b, t) = (nd::u64(), nd::u64(), nd::u64());
    for p in get_all_pkg2_profiles() {
        let g = match p.name {
            WzProfileVersion::Pkg2V1202 => 6,
            WzProfileVersion::Pkg2V1201 | WzProfileVersion::Pkg2V1199 => 4,
            WzProfileVersion::Pkg2V1200 => 5,
            WzProfileVersion::Pkg2V1198 => 3,
            WzProfileVersion::Pkg2V1197 => 2,
            WzProfileVersion::Pkg2V1196 => 1,
            WzProfileVersion::Pkg1 => panic!("not a PKG2 profile"),
        };
        assert!(p.should_be_pkg2_64() == (g == 6), "64-bit");
        let ok = Pkg2Profile::new(p.clone(), t).verify_hash(a, b);
        let want = if g == 6 { t == a ^ b ^ 0xABCDEF0123456789 } else { verify_model(g, a as u32, b as u32, t as u32) };
        assert!(ok == want, "recheck");
        let header = WzHeader { fstart: 60, hash1: a, ..Default::default() };
        let o = p.offset_version.get_calculator()(&header, &WzOffsetMeta { hash: t, encrypted_offset: b as u32, offset: 100 }).unwrap();
        let v = match g { 6 => 4, 4 | 5 => 3, 3 | 2 => 2, _ => 1 };
        assert!(o as u64 == offset_model(v, 60, a as u32, t as u32, 100, b as u32) as u64, "offsets");
        if g == 1 || g == 6 {
            let r: Vec<u64> = p.get_hash_iter(a, b).collect();
            assert!(r.len() == 1 && Pkg2Profile::new(p.clone(), r[0]).verify_hash(a, b), "hash search");
        }
    }
    nd::cover(1);
}
}
