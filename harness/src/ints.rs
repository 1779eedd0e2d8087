//! C01: fixed-width and compressed integers
use crate::nd;
use crate::util::keys0;
use wz_reader::reader::{self, Reader, WzBaseReader, WzSliceReader};

/// little-endian value of `len` bytes at `pos`, sign-extended when `signed`
fn model(buf: &[u8], pos: u64, len: u64, signed: bool) -> Option<u64> {
    if pos > buf.len() as u64 || buf.len() as u64 - pos < len {
        return None;
    }
    let pos = pos as usize;
    let mut v = 0u64;
    for i in 0..len as usize {
        v |= (buf[pos + i] as u64) << (8 * i);
    }
    if signed && len < 8 && v >> (8 * len - 1) & 1 == 1 {
        v |= !0u64 << (8 * len);
    }
    Some(v)
}
const SHAPE: [(u64, bool); 10] = [
    (1, false), (2, false), (4, false), (8, false), (1, true), (2, true), (4, true), (8, true), (4, false), (8, false),
];
fn at<R: Reader>(r: &R, kind: usize, pos: usize) -> Option<u64> {
    match kind {
        0 => r.read_u8_at(pos).ok().map(|v| v as u64),
        1 => r.read_u16_at(pos).ok().map(|v| v as u64),
        2 => r.read_u32_at(pos).ok().map(|v| v as u64),
        3 => r.read_u64_at(pos).ok(),
        4 => r.read_i8_at(pos).ok().map(|v| v as i64 as u64),
        5 => r.read_i16_at(pos).ok().map(|v| v as i64 as u64),
        6 => r.read_i32_at(pos).ok().map(|v| v as i64 as u64),
        7 => r.read_i64_at(pos).ok().map(|v| v as u64),
        8 => r.read_float_at(pos).ok().map(|v| v.to_bits() as u64),
        _ => r.read_double_at(pos).ok().map(|v| v.to_bits()),
    }
}
fn cursor(r: &WzSliceReader, kind: usize) -> Option<u64> {
    match kind {
        0 => r.read_u8().ok().map(|v| v as u64),
        1 => r.read_u16().ok().map(|v| v as u64),
        2 => r.read_u32().ok().map(|v| v as u64),
        3 => r.read_u64().ok(),
        4 => r.read_i8().ok().map(|v| v as i64 as u64),
        5 => r.read_i16().ok().map(|v| v as i64 as u64),
        6 => r.read_i32().ok().map(|v| v as i64 as u64),
        7 => r.read_i64().ok().map(|v| v as u64),
        8 => r.read_float().ok().map(|v| v.to_bits() as u64),
        _ => r.read_double().ok().map(|v| v.to_bits()),
    }
}
fn free(buf: &[u8], kind: usize, pos: usize) -> Option<u64> {
    match kind {
        0 => reader::read_u8_at(buf, pos).ok().map(|v| v as u64),
        1 => reader::read_u16_at(buf, pos).ok().map(|v| v as u64),
        2 => reader::read_u32_at(buf, pos).ok().map(|v| v as u64),
        3 => reader::read_u64_at(buf, pos).ok(),
        4 => reader::read_i8_at(buf, pos).ok().map(|v| v as i64 as u64),
        5 => reader::read_i16_at(buf, pos).ok().map(|v| v as i64 as u64),
        6 => reader::read_i32_at(buf, pos).ok().map(|v| v as i64 as u64),
        _ => reader::read_i64_at(buf, pos).ok().map(|v| v as u64),
    }
}
fn check(got: Option<u64>, want: Option<u64>) {
    match (got, want) {
        (Some(g), Some(w)) => {
            assert!(g == w, "value");
            nd::cover(1);
            nd::obs(g);
        }
        (None, None) => nd::cover(2),
        (Some(_), None) => panic!("read past the end accepted"),
        (None, Some(_)) => panic!("in-bounds read rejected"),
    }
}
fn wzint_model(b: &[u8], pos: u64, wide: u64) -> (Option<u64>, u64) {
    match model(b, pos, 1, true) {
        None => (None, 0),
        Some(v) if v as i64 == -128 => (model(b, pos + 1, wide, true), 1 + wide),
        Some(v) => (Some(v), 1),
    }
}

harnesses! {
/// param 0: which fixed-width read; param 1: 0 owned reader, 1 slice reader, 2 free function
fn h_c01_at() {
    let kind = nd::param(0) as usize;
    let buf: [u8; 10] = nd::bytes();
    let n = nd::below(11) as usize;
    let buf = &buf[..n];
    let pos = nd::u64();
    let (len, signed) = SHAPE[kind];
    let want = model(buf, pos, len, signed);
    let got = match nd::param(1) {
        0 => at(&WzBaseReader::new(buf.to_vec()), kind, pos as usize),
        1 => { let k = keys0(); at(&WzSliceReader::new(buf, &k), kind, pos as usize) }
        _ => free(buf, kind, pos as usize),
    };
    check(got, want);
}
fn h_c01_cursor() {
    let kind = nd::param(0) as usize;
    let buf: [u8; 10] = nd::bytes();
    let n = nd::below(11) as usize;
    let buf = &buf[..n];
    let pos = nd::u64();
    nd::assume(pos < 1 << 62);
    let (len, signed) = SHAPE[kind];
    let want = model(buf, pos, len, signed);
    let k = keys0();
    let r = WzSliceReader::new(buf, &k);
    r.seek(pos as usize);
    let got = cursor(&r, kind);
    if got.is_some() {
        assert!(r.pos.get() as u64 == pos + len, "cursor");
        // a second read continues right behind the first one
        let got2 = cursor(&r, kind);
        assert!(got2 == model(buf, pos + len, len, signed), "second read");
    }
    check(got, want);
}
/// param 0: 0 = 32-bit form, 1 = 64-bit form, 2 = long alias
fn h_c01_wzint() {
    let buf: [u8; 10] = nd::bytes();
    let n = nd::below(11) as usize;
    let pos = nd::below(12);
    let buf = &buf[..n];
    let wide = if nd::param(0) == 0 { 4 } else { 8 };
    let (want, used) = wzint_model(buf, pos, wide);
    let k = keys0();
    let r = WzSliceReader::new(buf, &k);
    r.seek(pos as usize);
    let p = pos as usize;
    let (got, f) = match nd::param(0) {
        0 => (r.read_wz_int().ok().map(|v| v as i64 as u64), reader::read_wz_int(buf, Some(p)).ok().map(|v| v as i64 as u64)),
        1 => (r.read_wz_int64().ok().map(|v| v as u64), reader::read_wz_int64(buf, Some(p)).ok().map(|v| v as u64)),
        _ => (r.read_wz_long().ok().map(|v| v as u64), reader::read_wz_long(buf, Some(p)).ok().map(|v| v as u64)),
    };
    assert!(f == want, "free function");
    if p == 0 {
        let z = match nd::param(0) {
            0 => reader::read_wz_int(buf, None).ok().map(|v| v as i64 as u64),
            1 => reader::read_wz_int64(buf, None).ok().map(|v| v as u64),
            _ => reader::read_wz_long(buf, None).ok().map(|v| v as u64),
        };
        assert!(z == want, "free function without offset");
    }
    if want.is_some() {
        assert!(r.pos.get() as u64 == pos + used, "cursor");
    }
    check(got, want);
}
/// save / restore / seek / skip / available / is_valid_pos
fn h_c01_pos() {
    let buf: [u8; 4] = nd::bytes();
    let k = keys0();
    let r = WzSliceReader::new(&buf, &k);
    let a = nd::u32() as usize;
    let b = nd::u32() as usize;
    r.seek(a);
    r.save_pos();
    r.skip(b);
    assert!(r.pos.get() == a + b, "skip");
    r.restore_pos();
    assert!(r.pos.get() == a, "restore");
    assert!(r.is_valid_pos(a) == (a <= 4), "valid");
    if a <= 4 {
        assert!(r.available() == 4 - a, "available");
        nd::cover(1);
    }
}
}
