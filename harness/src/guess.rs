//! C26: guessing the key of an image or a package
use crate::nd;
use crate::util::*;
use std::sync::Arc;
use wz_reader::util::string_decryptor::ecb_decryptor::EcbDecryptor;
use wz_reader::util::string_decryptor::{guess_decryptor_from_wz_file, verify_decryptor_from_wz_file, Decryptor, Pkg2Decryptor, DecrypterType, SharedWzStringDecryptor};
use wz_reader::util::version::{guess_iv_from_wz_file, guess_iv_from_wz_img, verify_iv_from_wz_file, verify_iv_from_wz_img, WzMapleVersion};
use wz_reader::GLOBAL_STRING_DECRYPTOR;

/// GMS, EMS, none, and one that is none of these
pub const IVS: [[u8; 4]; 4] = [[0x4D, 0x23, 0xC7, 0x2B], [0xB9, 0x7D, 0x63, 0xE9], [0, 0, 0, 0], [1, 2, 3, 4]];
const KEY1198: [u8; 8] = [0xEF, 0xBE, 0xAD, 0xDE, 0, 0, 0, 0];
/// more than any text of this file needs
const N: usize = 64;
pub fn streams() -> Vec<Vec<u8>> {
    let of = |iv: [u8; 4]| {
        let mut k = EcbDecryptor::from_iv(iv);
        k.ensure_key_size(N).unwrap();
        let mut v = vec![0; N];
        k.decrypt_slice(&mut v);
        v
    };
    for v in [WzMapleVersion::GMS, WzMapleVersion::EMS, WzMapleVersion::BMS] {
        GLOBAL_STRING_DECRYPTOR.get_decryptor_by_version(v).write().unwrap().ensure_key_size(N).unwrap();
    }
    let mut l: Vec<Vec<u8>> = IVS.iter().map(|iv| of(*iv)).collect();
    // windows of the key, every two bytes
    l.push((0..N).map(|i| KEY1198[i % 8 / 2 + i % 2]).collect());
    l
}
#[derive(Clone, Copy, PartialEq)]
enum Ty {
    Empty,
    Wide,
    Narrow,
    Plain,
}
fn le32(b: &[u8], p: usize) -> Option<i32> {
    let s = b.get(p..p.checked_add(4)?)?;
    Some(i32::from_le_bytes([s[0], s[1], s[2], s[3]]))
}
/// a stored string: its kind, where its text starts and how many bytes it has
fn text_at(b: &[u8], p: usize) -> Option<(Ty, usize, u64)> {
    match *b.get(p)? as i8 {
        0 => Some((Ty::Empty, p + 1, 0)),
        127 => le32(b, p + 1).filter(|n| *n >= 0).map(|n| (Ty::Wide, p + 5, n as u64 * 2)),
        -128 => le32(b, p + 1).filter(|n| *n >= 0).map(|n| (Ty::Narrow, p + 5, n as u64)),
        n if n > 0 => Some((Ty::Wide, p + 1, n as u64 * 2)),
        n => Some((Ty::Narrow, p + 1, -(n as i64) as u64)),
    }
}
/// a stored number and where it ends
fn num_at(b: &[u8], p: usize) -> Option<(i32, usize)> {
    let c = *b.get(p)?;
    if c == 0x80 { Some((le32(b, p + 1)?, p + 5)) } else { Some((c as i8 as i32, p + 1)) }
}
/// where a package's first entry has its name. kind: 1, 2, or 0 for files that are no package
fn first(b: &[u8], kind: u64, fstart: usize, data_start: usize) -> Option<(Ty, usize, u64)> {
    let (n, p) = num_at(b, data_start)?;
    let t = *b.get(p)?;
    match kind {
        1 if n < 0 || n > 1000000 || n == 0 => return None,
        2 if t != 3 && t != 4 => return None,
        0 if n == 0 => return None,
        _ => {}
    }
    match t {
        2 => {
            let at = fstart as i64 + le32(b, p + 1)? as i64;
            if at < 0 { None } else { text_at(b, at as usize + 1) }
        }
        3 | 4 => text_at(b, p + 1),
        _ => None,
    }
}
/// are these entries up to the end of a second-format directory, from behind the first name on?
fn entries_end(b: &[u8], mut p: usize, count: i32) -> bool {
    loop {
        let Some((_, q)) = num_at(b, p) else { return false };
        let Some((_, q)) = num_at(b, q) else { return false };
        match b.get(q) {
            Some(3) | Some(4) => match text_at(b, q + 1) {
                Some((_, at, n)) => p = at + n as usize,
                None => return false,
            },
            _ => return num_at(b, q).is_some_and(|(n, _)| n == count),
        }
    }
}
/// where the first entry of a second-format package has its name in directories of KMST 1198
fn first2(b: &[u8], kind: u64, data_start: usize) -> Option<(Ty, usize, u64)> {
    if kind != 2 {
        return None;
    }
    let (_, p) = num_at(b, data_start)?;
    if *b.get(p)? == 0x80 {
        return None;
    }
    let n = *b.get(p + 1)? as i8;
    if n >= 0 { None } else { Some((Ty::Plain, p + 2, -(n as i64) as u64 * 2)) }
}
/// the text under a key: is it text, is it ASCII
fn judge(b: &[u8], m: (Ty, usize, u64), key: &[u8]) -> (bool, bool) {
    if m.0 == Ty::Empty {
        return (true, true);
    }
    if m.2 > b.len() as u64 || m.1 + m.2 as usize > b.len() {
        return (false, false);
    }
    let d: Vec<u8> = b[m.1..m.1 + m.2 as usize].iter().enumerate().map(|(i, x)| x ^ key[i]).collect();
    if m.0 == Ty::Narrow {
        let d: Vec<u8> = d.iter().enumerate().map(|(i, x)| x ^ 0xAAu8.wrapping_add(i as u8)).collect();
        return (utf8(&d), d.iter().fold(0, |a, x| a | x) < 0x80);
    }
    let u: Vec<u16> = d.chunks(2).enumerate().map(|(i, c)| (c[0] as u16 | (c[1] as u16) << 8) ^ if m.0 == Ty::Wide { 0xAAAAu16.wrapping_add(i as u16) } else { 0 }).collect();
    (utf16(&u), u.iter().fold(0, |a, x| a | x) < 0x80)
}
fn utf8(b: &[u8]) -> bool {
    crate::media::utf8(b) == 1
}
fn utf16(u: &[u16]) -> bool {
    let mut i = 0;
    while i < u.len() {
        if u[i] & 0xF800 == 0xD800 {
            if u[i] & 0x0400 != 0 || i + 1 == u.len() || u[i + 1] & 0xFC00 != 0xDC00 {
                return false;
            }
            i += 1;
        }
        i += 1;
    }
    true
}
const ORDER: [usize; 3] = [2, 0, 1];
fn check_file(b: &[u8], kind: u64, fstart: usize, data_start: usize, keys: &[Vec<u8>]) {
    let m = first(b, kind, fstart, data_start);
    let good = |k: usize| m.is_some_and(|m| judge(b, m, &keys[k]).0);
    // keys for a package are only taken if the directory makes sense
    let m = m.filter(|m| kind != 2 || entries_end(b, m.1 + m.2 as usize, num_at(b, data_start).unwrap().0));
    let plain = |k: usize| m.is_some_and(|m| judge(b, m, &keys[k]) == (true, true));
    // one at a time
    for k in [nd::below(4) as usize] {
        assert!(verify_iv_from_wz_file(b, &IVS[k]).is_ok() == good(k), "verify iv");
        let d: SharedWzStringDecryptor = Arc::new(std::sync::RwLock::new(EcbDecryptor::from_iv(IVS[k])));
        assert!(verify_decryptor_from_wz_file(b, &d).is_ok() == plain(k), "verify decryptor");
    }
    // guessing
    let want = ORDER.iter().copied().find(|k| good(*k)).map(|k| IVS[k]);
    assert!(guess_iv_from_wz_file(b) == want, "guess iv");
    let mut want = if m.is_some_and(|m| m.0 != Ty::Empty) { ORDER.iter().copied().find(|k| plain(*k)) } else { None };
    if want.is_none() {
        want = first2(b, kind, data_start).filter(|m| judge(b, *m, &keys[4]) == (true, true)).map(|_| 4);
    }
    match (guess_decryptor_from_wz_file(b), want) {
        (Some(d), Some(k)) => {
            let mut v = vec![0; 16];
            d.read().unwrap().decrypt_slice(&mut v);
            assert!(v == keys[k][..16], "guessed keys");
            nd::cover(1);
            nd::obs(k as u64);
        }
        (None, None) => nd::cover(2),
        _ => panic!("guess decryptor"),
    }
}
fn package(kind: u64, fstart: usize) -> (Vec<u8>, usize) {
    let mut b = vec![0x55; fstart];
    match kind {
        1 => {
            b[..4].copy_from_slice(b"PKG1");
            b[4..12].copy_from_slice(&99u64.to_le_bytes());
        }
        2 => b[..4].copy_from_slice(b"PKG2"),
        // nothing known: read from the start
        _ => return (vec![], 0),
    }
    b[12..16].copy_from_slice(&(fstart as u32).to_le_bytes());
    if kind == 1 {
        b.extend([0x12, 0]);
    } else {
        b.extend(*b"hashhash");
    }
    let n = b.len();
    (b, n)
}

harnesses! {
/// images: any contents. params: 0 a known image, 1 one with any byte changed to anything; key; form. Or: 2, length
fn h_c26_img() {
    let what = nd::param(0);
    let keys = streams();
    let b = if what == 2 {
        nd::vec(nd::param(1) as usize)
    } else {
        // "Property" under any of the keys, in any form, with one byte changed or not
        let (k, form) = (nd::param(1) as usize, nd::param(2));
        let s = b"Property";
        let mut b = vec![0x73];
        match form {
            0 => b.push((-8i8) as u8),
            1 => b.extend([0x80, 8, 0, 0, 0]),
            2 => b.push(8),
            _ => b.extend([0x7F, 8, 0, 0, 0]),
        }
        for (i, c) in s.iter().enumerate() {
            if form < 2 {
                b.push(c ^ keys[k][i] ^ 0xAAu8.wrapping_add(i as u8));
            } else {
                let u = (*c as u16) ^ 0xAAAAu16.wrapping_add(i as u16);
                b.push(u as u8 ^ keys[k][2 * i]);
                b.push((u >> 8) as u8 ^ keys[k][2 * i + 1]);
            }
        }
        if what == 0 {
            // exactly this key
            for j in 0..4 {
                assert!(verify_iv_from_wz_img(&b, &IVS[j]) == (j == k), "key of a known image");
            }
            let g = guess_iv_from_wz_img(&b);
            assert!(g == if k < 3 { Some(IVS[k]) } else { None }, "guess of a known image");
            nd::cover(1);
            return;
        }
        let at = nd::below(b.len() as u64) as usize;
        b[at] = nd::u8();
        b
    };
    let is = |k: usize| {
        text_at(&b, 1).is_some_and(|m| {
            if m.0 == Ty::Empty || m.2 > b.len() as u64 || m.1 + m.2 as usize > b.len() {
                return false;
            }
            if m.2 != if m.0 == Ty::Narrow { 8 } else { 16 } {
                return false;
            }
            let mut bad = 0u16;
            for i in 0..8 {
                let c = b"Property"[i] as u16;
                bad |= if m.0 == Ty::Narrow {
                    (b[m.1 + i] ^ keys[k][i] ^ 0xAAu8.wrapping_add(i as u8)) as u16 ^ c
                } else {
                    ((b[m.1 + 2 * i] ^ keys[k][2 * i]) as u16 | ((b[m.1 + 2 * i + 1] ^ keys[k][2 * i + 1]) as u16) << 8) ^ 0xAAAAu16.wrapping_add(i as u16) ^ c
                };
            }
            bad == 0
        })
    };
    let k = nd::below(4) as usize;
    let got = verify_iv_from_wz_img(&b, &IVS[k]);
    assert!(got == is(k), "verify");
    let want = if b.is_empty() || b[0] != 0x73 { None } else { [0usize, 1, 2].iter().copied().find(|k| is(*k)).map(|k| IVS[k]) };
    assert!(guess_iv_from_wz_img(&b) == want, "guess");
    if got { nd::cover(1) } else { nd::cover(2) }
}
/// packages with any start of the directory. params: kind, content start, bytes behind it
fn h_c26_file() {
    let (kind, fstart, n) = (nd::param(0), nd::param(1) as usize, nd::param(2) as usize);
    let keys = streams();
    let (mut b, at) = package(kind, fstart);
    b.extend(nd::vec(n));
    check_file(&b, kind, if at == 0 { 0 } else { fstart }, at, &keys);
}
/// the name of the first entry, stored in any form under any key, anywhere. params: kind, content start, form, characters
fn h_c26_name() {
    let (kind, fstart, form, n) = (nd::param(0), nd::param(1) as usize, nd::param(2), nd::param(3) as usize);
    let keys = streams();
    let (mut b, at) = package(kind, fstart);
    if nd::below(2) == 1 {
        b.extend([0x80, 2, 0, 0, 0]);
    } else {
        b.push(1);
    }
    let k = nd::below(5) as usize;
    let raw = nd::vec(if form % 4 < 2 { n } else { 2 * n });
    let mut s = vec![];
    match form % 4 {
        0 => s.push((n as u8).wrapping_neg()),
        1 => { s.push(0x80); s.extend((n as i32).to_le_bytes()); }
        2 => s.push(n as u8),
        _ => { s.push(0x7F); s.extend((n as i32).to_le_bytes()); }
    }
    s.extend(raw.iter().zip(&keys[k]).map(|(a, b)| a ^ b));
    if form < 4 {
        b.push(3 + nd::below(2) as u8);
        b.extend(s);
    } else {
        // elsewhere, with the real kind in front of it
        b.push(2);
        let target = match nd::below(6) {
            0 => 0,
            1 => -1,
            2 => i32::MIN,
            3 => i32::MAX,
            4 => -(fstart as i32) - 1,
            _ => (b.len() + 4 + 3 - fstart.min(b.len() + 4)) as i32,
        };
        let start = if kind == 0 { 0 } else { fstart };
        let target = if kind == 0 && target > 100 && target < i32::MAX { (b.len() + 7) as i32 } else { target };
        b.extend(target.to_le_bytes());
        b.extend([9, 9, 9, 4]);
        b.extend(s);
        let _ = start;
    }
    if kind == 2 {
        // size, checksum, the end
        b.extend([0x10, 0x20, if b[at] == 0x80 { 2 } else { 1 }]);
    }
    check_file(&b, kind, if at == 0 { 0 } else { fstart }, at, &keys);
}
/// second-format directories with anything behind a first name. params: 0 an ordinary name, 1 one of KMST 1198; which byte is anything
fn h_c26_pkg2() {
    let (form, i) = (nd::param(0), nd::param(1) as usize);
    let keys = streams();
    let (mut b, at) = package(2, 60);
    let k = if form == 1 { 4 } else { nd::below(3) as usize };
    b.extend([7, 3 + nd::below(2) as u8]);
    let s = *b"Ab";
    if form == 1 {
        b.push(0xFE);
        for i in 0..2 {
            b.extend([s[i] ^ keys[4][2 * i], keys[4][2 * i + 1]]);
        }
    } else {
        b.push(0xFE);
        for i in 0..2 {
            b.push(s[i] ^ keys[k][i] ^ 0xAAu8.wrapping_add(i as u8));
        }
    }
    // size, checksum, another entry, its size and checksum, the end, offsets
    let from = b.len();
    b.extend([0x10, 0x20, 4, 0xFF, 0x41, 0x80, 1, 2, 3, 4, 5, 7, 1, 1, 1, 1, 2, 2, 2, 2]);
    b[from + i] = nd::u8();
    if nd::below(2) == 1 {
        b.truncate(from + i + 1);
    }
    check_file(&b, 2, 60, at, &keys);
}
}
