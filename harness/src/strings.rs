//! C02 stored string decoding, C03 string creation round trip
use crate::nd;
use crate::util::*;
use std::sync::Arc;
use wz_reader::property::{WzString, WzStringMeta, WzStringType};
use wz_reader::reader::{self, Reader, WzSliceReader};

fn ascii_model(b: &[u8], key: &[u8]) -> Vec<u8> {
    (0..b.len()).map(|i| b[i] ^ key[i] ^ 0xAAu8.wrapping_add(i as u8)).collect()
}
fn unicode_model(b: &[u8], key: &[u8], masked: bool) -> Vec<u16> {
    (0..b.len() / 2)
        .map(|i| {
            let c = (b[2 * i] ^ key[2 * i]) as u16 | ((b[2 * i + 1] ^ key[2 * i + 1]) as u16) << 8;
            if masked { c ^ 0xAAAAu16.wrapping_add(i as u16) } else { c }
        })
        .collect()
}
fn same16(a: &[u16], b: &[u16]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}
fn text(ty: &WzStringType, b: &[u8], key: &[u8]) -> String {
    match ty {
        WzStringType::Ascii => String::from_utf8_lossy(&ascii_model(b, key)).to_string(),
        WzStringType::Unicode => String::from_utf16_lossy(&unicode_model(b, key, true)),
        WzStringType::Pkg2Dir => String::from_utf16_lossy(&unicode_model(b, key, false)),
        WzStringType::Empty => String::new(),
    }
}
fn same_s(a: &str, b: &str) -> bool {
    nd::same(a.as_bytes(), b.as_bytes())
}
/// what the stored bytes at `pos` say: (type, body start, body length) or malformed
fn parse(b: &[u8], pos: usize) -> Option<(WzStringType, usize, u64)> {
    let p = *b.get(pos)? as i8;
    let wide = || -> Option<i64> {
        let s = b.get(pos + 1..pos + 5)?;
        let v = i32::from_le_bytes([s[0], s[1], s[2], s[3]]);
        if v < 0 { None } else { Some(v as i64) }
    };
    Some(match p {
        0 => (WzStringType::Empty, pos + 1, 0),
        127 => (WzStringType::Unicode, pos + 5, wide()? as u64 * 2),
        -128 => (WzStringType::Ascii, pos + 5, wide()? as u64),
        p if p > 0 => (WzStringType::Unicode, pos + 1, p as u64 * 2),
        p => (WzStringType::Ascii, pos + 1, -(p as i64) as u64),
    })
}
/// every way of reading the string stored at `pos` of `buf` against the model
fn check_all(buf: &[u8], pos: usize, key: &[u8]) {
    let k = test_key(key.to_vec(), false);
    let want = parse(buf, pos);
    let body = want.clone().and_then(|(t, s, l)| if t == WzStringType::Empty { Some((t, s, 0)) } else if l <= buf.len() as u64 && s + l as usize <= buf.len() { Some((t, s, l as usize)) } else { None });
    let r = WzSliceReader::new(buf, &k);
    // direct
    r.seek(pos);
    let got = r.read_wz_string();
    match (&got, &body) {
        (Ok(g), Some((t, s, l))) => {
            let w = text(t, &buf[*s..*s + *l], key);
            assert!(same_s(g, &w), "text");
            assert!(r.pos.get() == s + l, "cursor after the string");
            nd::cover(1);
            nd::obs_str(g);
        }
        (Err(_), None) => nd::cover(2),
        (Ok(_), None) => panic!("malformed string accepted"),
        (Err(_), Some(_)) => panic!("well-formed string rejected"),
    }
    // at an offset: same result, cursor untouched
    r.seek(1);
    let at = r.read_wz_string_at_offset(pos);
    assert!(r.pos.get() == 1, "cursor restored");
    match (&got, &at) {
        (Ok(a), Ok(b)) => assert!(same_s(a, b), "at offset"),
        (Err(_), Err(_)) => (),
        _ => panic!("at offset"),
    }
    // lazily: location first, text later
    r.seek(pos);
    let m = r.read_wz_string_meta();
    match (&m, &want) {
        (Ok(m), Some((t, s, l))) => {
            assert!(m.string_type == *t, "type");
            assert!(m.length as u64 == *l, "length");
            assert!(r.pos.get() as u64 == *s as u64 + *l, "cursor after location");
            if *t != WzStringType::Empty {
                assert!(m.offset == *s, "offset");
            }
            let b = vec_reader(buf.to_vec(), &k, &k);
            let s1 = r.resolve_wz_string_meta(&m.string_type, m.offset, m.length as usize);
            let s2 = b.resolve_wz_string_meta(&m.string_type, m.offset, m.length as usize);
            match (&s1, &s2, &got) {
                (Ok(a), Ok(b), Ok(c)) => assert!(same_s(a, c) && same_s(b, c), "resolved text"),
                (Err(_), Err(_), Err(_)) => (),
                _ => panic!("resolved text"),
            }
        }
        (Err(_), None) => (),
        _ => panic!("location"),
    }
    let m2 = r.read_wz_string_meta_at(pos);
    match (&m, &m2) {
        (Ok(a), Ok(b)) => assert!(a.offset == b.offset && a.length == b.length && a.string_type == b.string_type, "location at offset"),
        (Err(_), Err(_)) => (),
        _ => panic!("location at offset"),
    }
}
fn make(kind: u64) -> (WzStringType, usize) {
    match kind {
        0 => (WzStringType::Ascii, 1),
        1 => (WzStringType::Unicode, 2),
        _ => (WzStringType::Pkg2Dir, 2),
    }
}

harnesses! {
/// characters before text interpretation, arbitrary data and arbitrary key stream.
/// params: kind, number of characters, start offset
fn h_c02_raw() {
    let (ty, w) = make(nd::param(0));
    let len = nd::param(1) as usize * w;
    let off = nd::param(2) as usize;
    let buf = nd::vec(off + len + 1);
    let key = nd::vec(len);
    let k = test_key(key.clone(), false);
    let none = test_key(vec![], true);
    let r = if ty == WzStringType::Pkg2Dir { vec_reader(buf.clone(), &none, &k) } else { vec_reader(buf.clone(), &k, &none) };
    let s = r.create_slice_reader();
    let b = &buf[off..off + len];
    match ty {
        WzStringType::Ascii => {
            let want = ascii_model(b, &key);
            assert!(nd::same(&r.resolve_ascii_raw(off, len).unwrap(), &want), "owned reader");
            assert!(nd::same(&s.resolve_ascii_raw(off, len).unwrap(), &want), "slice reader");
            assert!(r.resolve_ascii_raw(off, len + 2).is_err(), "past the end");
        }
        WzStringType::Unicode => {
            let want = unicode_model(b, &key, true);
            assert!(same16(&r.resolve_unicode_raw(off, len).unwrap(), &want), "owned reader");
            assert!(same16(&s.resolve_unicode_raw(off, len).unwrap(), &want), "slice reader");
            assert!(r.resolve_unicode_raw(off, len + 2).is_err(), "past the end");
        }
        _ => {
            let want = unicode_model(b, &key, false);
            assert!(same16(&r.resolve_pkg2_dir_raw(off, len).unwrap(), &want), "owned reader");
            assert!(same16(&s.resolve_pkg2_dir_raw(off, len).unwrap(), &want), "slice reader");
            assert!(r.resolve_pkg2_dir_raw(off, len + 2).is_err(), "past the end");
        }
    }
    nd::cover(1);
}
/// arbitrary short content through every reading path. params: kind, chars, long form?
fn h_c02_text() {
    let (ty, w) = make(nd::param(0));
    let n = nd::param(1) as usize;
    let mut buf = nd::vec(2);
    if nd::param(2) == 1 {
        buf.push(if w == 1 { 0x80 } else { 0x7F });
        buf.extend_from_slice(&(n as i32).to_le_bytes());
    } else {
        buf.push(if w == 1 { (n as u8).wrapping_neg() } else { n as u8 });
    }
    buf.extend(nd::vec(n * w));
    buf.push(nd::u8());
    let _ = ty;
    check_all(&buf, 2, &pattern(16));
}
/// every prefix byte, every truncation, concrete content.
/// params: 0 = in-range explicit length, 1 = any other explicit length
fn h_c02_prefix() {
    let p = nd::below(256) as u8;
    let mut buf = vec![9, 9, p];
    if p == 0x7F || p == 0x80 {
        if nd::param(0) == 0 {
            let l = nd::below(45) as u32;
            buf.extend_from_slice(&l.to_le_bytes());
        } else {
            let l = nd::u32();
            nd::assume(l > 40);
            buf.extend_from_slice(&l.to_le_bytes());
        }
    } else if nd::param(0) == 1 {
        nd::assume(false);
    }
    let body = if p == 0x7F || p == 0x80 { 40 } else { (p as i8 as i32).unsigned_abs() as usize * if p < 128 { 2 } else { 1 } };
    // a readable body: stored form of "abc.." under the key
    let key = pattern(256);
    for i in 0..body {
        let c = if p < 128 { if i % 2 == 0 { b'a' + (i / 2 % 26) as u8 } else { 0 } } else { b'a' + (i % 26) as u8 };
        let m = if p < 128 { 0xAAAAu16.wrapping_add(i as u16 / 2).to_le_bytes()[i % 2] } else { 0xAAu8.wrapping_add(i as u8) };
        buf.push(c ^ m ^ key[i]);
    }
    let cut = nd::below(3);
    if cut == 1 {
        buf.pop();
    } else if cut == 2 {
        buf.truncate(buf.len().min(5));
    }
    check_all(&buf, 2, &key);
}
/// string blocks: inline, by offset, anything else; any tag, any 32-bit offset
/// params: 0 = inline tags, 1 = offset tags, 2 = other tags
fn h_c02_block() {
    let tag = nd::u8();
    let inline = tag == 0 || tag == 0x73;
    let by_offset = tag == 1 || tag == 0x1B;
    let key = pattern(16);
    let k = test_key(key.clone(), false);
    // layout: 0..3 padding, 3: "hi" stored, 6: wide "h", 9: block
    let mut buf = vec![0, 0, 0, 0xFE];
    for (i, c) in [b'h', b'i'].iter().enumerate() { buf.push(c ^ key[i] ^ (0xAA + i as u8)); }
    buf.push(1);
    buf.push(b'w' ^ key[0] ^ 0xAA);
    buf.push(0 ^ key[1] ^ 0xAA);
    let at = buf.len();
    buf.push(tag);
    let base = nd::below(3) as usize * 2;
    let (want, used) = match nd::param(0) {
        0 => {
            nd::assume(inline);
            buf.push(0xFF);
            buf.push(b'z' ^ key[0] ^ 0xAA);
            (Some("z".to_string()), 3)
        }
        1 => {
            nd::assume(by_offset);
            let o = nd::i32();
            buf.extend_from_slice(&o.to_le_bytes());
            buf.push(0);
            let t = base as i64 + o as i64;
            nd::assume(t < 0 || t == 3 || t == 6 || t == 0 || t >= buf.len() as i64);
            (match t { 0 => Some(String::new()), 3 => Some("hi".to_string()), 6 => Some("w".to_string()), _ => None }, 5)
        }
        _ => {
            nd::assume(!inline && !by_offset);
            (Some(String::new()), 1)
        }
    };
    let r = WzSliceReader::new(&buf, &k);
    r.seek(at);
    let got = r.read_wz_string_block(base);
    match (&got, &want) {
        (Ok(g), Some(w)) => { assert!(same_s(g, w), "text"); assert!(r.pos.get() == at + used, "cursor"); nd::cover(1); nd::obs_str(g); }
        (Err(_), None) => nd::cover(2),
        _ => panic!("block outcome"),
    }
    r.seek(at);
    let m = r.read_wz_string_block_meta(base);
    match (&m, &want) {
        (Ok(m), Some(w)) => {
            assert!(r.pos.get() == at + used, "cursor after location");
            let g = r.resolve_wz_string_meta(&m.string_type, m.offset, m.length as usize).unwrap();
            assert!(same_s(&g, w), "lazy text");
        }
        (Err(_), None) => (),
        _ => panic!("lazy block outcome"),
    }
}
/// the key-less free functions agree with a reader that has no key
/// params: kind, chars, cut, long form
fn h_c02_free() {
    let (_, w) = make(nd::param(0));
    let n = nd::param(1) as usize;
    let mut buf = Vec::new();
    if nd::param(3) == 1 {
        buf.push(if w == 1 { 0x80 } else { 0x7F });
        buf.extend_from_slice(&(n as i32).to_le_bytes());
    } else {
        buf.push(if w == 1 { (n as u8).wrapping_neg() } else { n as u8 });
    }
    buf.extend(nd::vec(n * w));
    buf.truncate(buf.len() - nd::param(2) as usize);
    let k = keys0();
    let r = WzSliceReader::new(&buf, &k);
    let a = r.read_wz_string();
    let b = reader::read_wz_string(&buf);
    match (&a, &b) {
        (Ok(a), Ok(b)) => { assert!(same_s(a, b), "free function"); nd::cover(1); nd::obs_str(a); }
        (Err(_), Err(_)) => nd::cover(2),
        _ => panic!("free function outcome"),
    }
    // block forms: inline, and by offset with any base/displacement pair that lands on it
    let mut ib = vec![if nd::bool() { 0 } else { 0x73 }];
    ib.extend_from_slice(&buf);
    let mut ob = vec![if nd::bool() { 1 } else { 0x1B }];
    let base = nd::below(9) as i32;
    ob.extend_from_slice(&(5 - base).to_le_bytes());
    ob.extend_from_slice(&buf);
    for (x, base) in [(ib, 0), (ob, base as usize)] {
        match (&a, reader::read_wz_string_block(&x, base)) {
            (Ok(a), Ok(b)) => assert!(same_s(a, &b), "free block"),
            (Err(_), Err(_)) => (),
            _ => panic!("free block outcome"),
        }
    }
}
/// PKG2 directory names: i8 / i16 negative length, 16-bit units, own key. param: 0 text, 1 long length prefixes
fn h_c02_pkg2dir() {
    let key = pattern(40000);
    let k = test_key(key.clone(), true);
    let wide = nd::param(0) == 1;
    let mut buf = vec![3u8];
    let n: usize;
    if wide {
        // any length the prefix can express that fits the buffer, plus the extremes
        let l = nd::u16() as i16;
        n = if l >= 0 { 0 } else {
            nd::assume(l > -4 || l == -129 || l == i16::MIN);
            nd::conc(l.unsigned_abs() as u64) as usize
        };
        buf.extend_from_slice(&l.to_le_bytes());
    } else {
        let l = nd::below(256) as u8 as i8;
        n = if l >= 0 { 0 } else { l.unsigned_abs() as usize };
        buf.push(l as u8);
    }
    let start = buf.len();
    let small = n <= 3;
    if small { buf.extend(nd::vec(2 * n)); } else { buf.extend((0..2 * n).map(|i| if i % 2 == 0 { b'k' ^ key[i % 8] } else { key[i % 8] })); }
    let full = n > 3000 || nd::bool();
    if !full && n > 0 { buf.pop(); }
    let r = WzSliceReader::new(&buf, &k);
    r.seek(1);
    let m = if wide { r.read_wz_string_pkg2_u64_dir_meta() } else { r.read_wz_string_pkg2_dir_meta() }.unwrap();
    if n == 0 {
        assert!(m.string_type == WzStringType::Empty && m.length == 0, "empty");
        assert!(r.pos.get() == start, "cursor");
    } else {
        assert!(m.string_type == WzStringType::Pkg2Dir && m.length as usize == 2 * n && m.offset == start, "location");
        assert!(r.pos.get() == start + 2 * n, "cursor");
    }
    if n <= 3000 {
        let g = r.resolve_wz_string_meta(&m.string_type, m.offset, m.length as usize);
        assert!(g.is_ok() == (full || n == 0), "bounds");
        if let Ok(g) = &g {
            assert!(same_s(g, &text(&WzStringType::Pkg2Dir, &buf[start..start + 2 * n], &key)), "text");
            nd::cover(1);
            nd::obs_str(g);
        }
        if !wide {
            r.seek(1);
            let d = r.read_wz_string_pkg2_dir();
            match (&d, &g) {
                (Ok(a), Ok(b)) => { assert!(same_s(a, b), "direct"); assert!(r.pos.get() == start + 2 * n, "direct cursor"); }
                (Err(_), Err(_)) => nd::cover(2),
                _ => panic!("direct outcome"),
            }
        }
    }
}

/// creating a string and reading it back. params: creator (0 zero iv, 1 GMS iv, 2 MSEA iv, 3 another iv, 4 PKG2 directory), then the
/// UTF-8 width class of each character (0 ends)
fn h_c03_create() {
    let s = any_string(&[nd::param(1), nd::param(2), nd::param(3)]);
    let w = if nd::param(0) == 4 { WzString::from_str_pkg2_dir(&s) } else { WzString::from_str(&s, IVS[nd::param(0) as usize]) };
    let g = w.get_string().unwrap();
    assert!(same_s(&g, &s), "round trip");
    assert!(same_s(&w.get_string().unwrap(), &s), "second read");
    let t = if nd::param(0) == 4 { WzStringType::Pkg2Dir } else if s.is_empty() { WzStringType::Empty } else if s.is_ascii() { WzStringType::Ascii } else { WzStringType::Unicode };
    assert!(w.string_type == t, "type");
    nd::cover(1);
    nd::obs_str(&g);
}
/// the same through a reader's own encryption, any of the stored types that can hold the text; params as above (0..3), last = type
fn h_c03_encrypt() {
    let s = any_string(&[nd::param(1), nd::param(2), nd::param(3)]);
    let (ty, _) = make(nd::param(4));
    let key = pattern(64);
    let k = test_key(key.clone(), false);
    let r = vec_reader(vec![], &k, &k);
    let e = r.encrypt_str(&s, &ty);
    if ty == WzStringType::Ascii {
        assert!(nd::same(&e, &ascii_model(s.as_bytes(), &key)), "stored bytes");
    } else {
        let u: Vec<u16> = s.encode_utf16().collect();
        assert!(same16(&unicode_model(&e, &key, ty == WzStringType::Unicode), &u), "stored units");
    }
    let r2 = vec_reader(e.clone(), &k, &k);
    let g = r2.resolve_wz_string_meta(&ty, 0, e.len()).unwrap();
    assert!(same_s(&g, &s), "round trip");
    assert!(r.encrypt_str(&s, &WzStringType::Empty).is_empty(), "empty");
    nd::cover(1);
    nd::obs_bytes(&e);
}
/// long ASCII text. params: creator, length
fn h_c03_long() {
    let n = nd::param(1) as usize;
    let mut b = nd::vec(n);
    for i in 0..n { b[i] &= 0x7F; }
    let s = unsafe { String::from_utf8_unchecked(b) };
    let w = if nd::param(0) == 4 { WzString::from_str_pkg2_dir(&s) } else { WzString::from_str(&s, IVS[nd::param(0) as usize]) };
    let g = w.get_string().unwrap();
    assert!(same_s(&g, &s), "round trip");
    nd::cover(1);
}
}
const IVS: [[u8; 4]; 4] = [[0; 4], [0x4D, 0x23, 0xC7, 0x2B], [0xB9, 0x7D, 0x63, 0xE9], [1, 2, 3, 4]];
/// any string whose characters have the given UTF-8 widths
fn any_string(widths: &[u64]) -> String {
    let mut v = Vec::new();
    for w in widths {
        if *w == 0 {
            break;
        }
        let c = nd::u32();
        let (lo, hi) = [(0, 0x80), (0x80, 0x800), (0x800, 0x10000), (0x10000, 0x110000)][*w as usize - 1];
        nd::assume(c >= lo && c < hi && !(c >= 0xD800 && c < 0xE000));
        match w {
            1 => v.push(c as u8),
            2 => v.extend_from_slice(&[0xC0 | (c >> 6) as u8, 0x80 | (c & 63) as u8]),
            3 => v.extend_from_slice(&[0xE0 | (c >> 12) as u8, 0x80 | (c >> 6 & 63) as u8, 0x80 | (c & 63) as u8]),
            _ => v.extend_from_slice(&[0xF0 | (c >> 18) as u8, 0x80 | (c >> 12 & 63) as u8, 0x80 | (c >> 6 & 63) as u8, 0x80 | (c & 63) as u8]),
        }
    }
    unsafe { String::from_utf8_unchecked(v) }
}
