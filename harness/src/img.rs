//! C10-C12: pictures
use crate::nd;
use crate::util::*;
use image::DynamicImage;
use std::sync::Arc;
use wz_reader::property::WzPng;
use wz_reader::WzReader;

/// one final stored deflate block
fn stored(data: &[u8]) -> Vec<u8> {
    let n = data.len() as u16;
    let mut v = vec![1];
    v.extend_from_slice(&n.to_le_bytes());
    v.extend_from_slice(&(!n).to_le_bytes());
    v.extend_from_slice(data);
    v
}
fn zlib(data: &[u8]) -> Vec<u8> {
    let mut v = vec![0x78, 0x9C];
    v.extend(stored(data));
    v
}
/// picture of raw pixel data behind a plain zlib header
fn picture(fmt: u32, w: u32, h: u32, data: &[u8]) -> Result<DynamicImage, wz_reader::property::png::WzPngParseError> {
    let mut b = vec![0xEE; 3];
    b.extend(zlib(data));
    let n = b.len() - 3;
    b.extend([0xEE; 5]);
    let r = arc_reader(&b);
    let f1 = if fmt > 300 { fmt & 0xFFFFFF00 } else { 0 };
    WzPng::new(&r, (w, h), (f1, fmt - f1), (3, n), 0x9C78, 0).extract_png()
}
fn up4(x: u8) -> u8 { x * 17 }
fn up5(x: u16) -> u8 { ((x << 3) | (x >> 2)) as u8 }
fn up6(x: u16) -> u8 { ((x << 2) | (x >> 4)) as u8 }
fn rgb565(c: u16) -> [u8; 3] {
    [up5(c >> 11), up6(c >> 5 & 63), up5(c & 31)]
}
fn u16at(d: &[u8], i: usize) -> u16 { d[i] as u16 | (d[i + 1] as u16) << 8 }

/// the reference decoder: rgba or rgb bytes of one pixel
fn px(fmt: u32, d: &[u8], w: usize, x: usize, y: usize) -> [u8; 4] {
    let i = x + y * w;
    match fmt {
        1 => [up4(d[2 * i] >> 0 & 15), up4(d[2 * i] >> 4), up4(d[2 * i + 1] & 15), up4(d[2 * i + 1] >> 4)],
        2 => [d[4 * i], d[4 * i + 1], d[4 * i + 2], d[4 * i + 3]],
        257 => {
            let c = u16at(d, 2 * i);
            [up5(c & 31), up5(c >> 5 & 31), up5(c >> 10 & 31), if c >> 15 == 1 { 255 } else { 0 }]
        }
        513 => {
            let c = rgb565(u16at(d, 2 * i));
            [c[2], c[1], c[0], 255]
        }
        517 => {
            let j = x / 16 + y / 16 * (w / 16);
            let c = rgb565(u16at(d, 2 * j));
            [c[2], c[1], c[0], 255]
        }
        _ => {
            let p = u32::from_le_bytes([d[4 * i], d[4 * i + 1], d[4 * i + 2], d[4 * i + 3]]);
            [(p >> 22) as u8, (p >> 12) as u8, (p >> 2) as u8, (p >> 30) as u8 * 85]
        }
    }
}
/// bytes of a picture
fn need(fmt: u32, w: usize, h: usize) -> usize {
    match fmt {
        2 | 2562 => w * h * 4,
        517 => w * h / 128,
        _ => w * h * 2,
    }
}
fn blocks(w: usize, h: usize) -> usize {
    ((w + 3) / 4) * ((h + 3) / 4)
}
fn dxt_color(d: &[u8], k: usize) -> [u8; 3] {
    let (c0, c1) = (u16at(d, 8), u16at(d, 10));
    let (a, b) = (rgb565(c0), rgb565(c1));
    let i = d[12 + k / 4] >> (2 * (k % 4)) & 3;
    let mut out = [0; 3];
    for j in 0..3 {
        let (p, q) = (a[j] as u32, b[j] as u32);
        let two = if c0 > c1 { (2 * p + q + 1) / 3 } else { (p + q) / 2 };
        let three = if c0 > c1 { (p + 2 * q + 1) / 3 } else { 0 };
        out[j] = nd::sel(i == 0, p as u64, nd::sel(i == 1, q as u64, nd::sel(i == 2, two as u64, three as u64))) as u8;
    }
    out
}
fn dxt3_alpha(d: &[u8], k: usize) -> u8 {
    up4(d[k / 2] >> (4 * (k % 2)) & 15)
}
fn dxt5_alpha(d: &[u8], k: usize) -> u8 {
    let (a0, a1) = (d[0] as u32, d[1] as u32);
    let mut bits = 0u64;
    for i in 0..6 {
        bits |= (d[2 + i] as u64) << (8 * i);
    }
    let i = bits >> (3 * k) & 7;
    let mut r = nd::sel(i == 0, a0 as u64, a1 as u64);
    for n in 2..8u32 {
        let v = if a0 > a1 {
            ((8 - n) * a0 + (n - 1) * a1 + 3) / 7
        } else if n < 6 {
            ((6 - n) * a0 + (n - 1) * a1 + 2) / 5
        } else if n == 6 { 0 } else { 255 };
        r = nd::sel(i == n as u64, v as u64, r);
    }
    r as u8
}

harnesses! {
/// params: format, width, height. Any pixel data.
fn h_c10_raw() {
    let (f, w, h) = (nd::param(0) as u32, nd::param(1) as usize, nd::param(2) as usize);
    let d = nd::vec(need(f, w, h));
    let img = picture(f, w as u32, h as u32, &d).unwrap();
    assert!(img.width() as usize == w && img.height() as usize == h, "size");
    let mut bad = 0u8;
    match f {
        513 | 517 => {
            let im = img.as_rgb8().expect("rgb");
            for y in 0..h { for x in 0..w {
                let p = im.get_pixel(x as u32, y as u32).0;
                let q = px(f, &d, w, x, y);
                bad |= p[0] ^ q[2] | p[1] ^ q[1] | p[2] ^ q[0];
            } }
        }
        769 => {
            let im = img.as_rgba16().expect("rgba16");
            for y in 0..h { for x in 0..w {
                let p = im.get_pixel(x as u32, y as u32).0;
                let c = u16at(&d, 2 * (x + y * w));
                bad |= (p[0] ^ c) as u8 | ((p[0] ^ c) >> 8) as u8;
                assert!(p[1] == 0 && p[2] == 0 && p[3] == 0xFFFF, "fixed channels");
            } }
        }
        _ => {
            let im = img.as_rgba8().expect("rgba");
            for y in 0..h { for x in 0..w {
                let p = im.get_pixel(x as u32, y as u32).0;
                let q = px(f, &d, w, x, y);
                bad |= p[0] ^ q[2] | p[1] ^ q[1] | p[2] ^ q[0] | p[3] ^ q[3];
            } }
        }
    }
    assert!(bad == 0, "pixel differs");
    nd::cover(1);
    if w * h > 0 { nd::obs(img.as_bytes()[0] as u64); }
}
/// params: format (1026 DXT3, 3, 2050 DXT5), width, height, block that is symbolic.
fn h_c11_dxt() {
    let (f, w, h) = (nd::param(0) as u32, nd::param(1) as usize, nd::param(2) as usize);
    let nb = blocks(w, h);
    let mut d = pattern(nb * 16);
    let b = nd::param(3) as usize;
    let s = nd::vec(16);
    d[b * 16..b * 16 + 16].copy_from_slice(&s);
    let img = picture(f, w as u32, h as u32, &d).unwrap();
    assert!(img.width() as usize == w && img.height() as usize == h, "size");
    let im = img.as_rgba8().expect("rgba");
    let mut bad = 0u8;
    for y in 0..h {
        for x in 0..w {
            let k = x / 4 + y / 4 * ((w + 3) / 4);
            let blk = &d[k * 16..k * 16 + 16];
            let at = x % 4 + y % 4 * 4;
            let c = dxt_color(blk, at);
            let a = if f == 2050 { dxt5_alpha(blk, at) } else { dxt3_alpha(blk, at) };
            let p = im.get_pixel(x as u32, y as u32).0;
            bad |= p[0] ^ c[0] | p[1] ^ c[1] | p[2] ^ c[2] | p[3] ^ a;
        }
    }
    assert!(bad == 0, "pixel differs");
    nd::cover(1);
    nd::obs(img.as_bytes()[0] as u64);
}
/// BC7 block layout and channels (mode 6 blocks). params: width, height, symbolic block, symbolic half (0 colours, 1 indices)
fn h_c11_bc7() {
    let (w, h) = (nd::param(0) as usize, nd::param(1) as usize);
    let nb = blocks(w, h);
    let mut d = pattern(nb * 16);
    for k in 0..nb { d[16 * k] = d[16 * k] & 0x80 | 0x40; }
    let b = nd::param(2) as usize;
    let s = nd::vec(8);
    let half = b * 16 + 8 * nd::param(3) as usize;
    d[half..half + 8].copy_from_slice(&s);
    d[b * 16] = d[b * 16] & 0x80 | 0x40;
    let img = picture(4098, w as u32, h as u32, &d).unwrap();
    assert!(img.width() as usize == w && img.height() as usize == h, "size");
    let im = img.as_rgba8().expect("rgba");
    let mut bad = 0u8;
    for y in 0..h {
        for x in 0..w {
            let k = x / 4 + y / 4 * ((w + 3) / 4);
            let at = x % 4 + y % 4 * 4;
            let mut bits = [0u8; 16];
            bits.copy_from_slice(&d[k * 16..k * 16 + 16]);
            let v = u128::from_le_bytes(bits);
            let (ish, iw) = if at == 0 { (65, 3) } else { (64 + 4 * at as u32, 4) };
            let i = (v >> ish) as u64 & ((1 << iw) - 1);
            let mut wt = 0u64;
            for (n, c) in [0u64, 4, 9, 13, 17, 21, 26, 30, 34, 38, 43, 47, 51, 55, 60, 64].iter().enumerate() {
                wt = nd::sel(i == n as u64, *c, wt);
            }
            let p = im.get_pixel(x as u32, y as u32).0;
            for c in 0..4u32 {
                let e0 = ((v >> (7 + 14 * c)) as u64 & 127) << 1 | (v >> 63) as u64 & 1;
                let e1 = ((v >> (14 + 14 * c)) as u64 & 127) << 1 | (v >> 64) as u64 & 1;
                bad |= p[c as usize] ^ (((64 - wt) * e0 + wt * e1 + 32) >> 6) as u8;
            }
        }
    }
    assert!(bad == 0, "pixel differs");
    nd::cover(1);
    nd::obs(img.as_bytes()[0] as u64);
}
/// the four zlib headers and the block-chained encrypted form give the same pixels.
/// params: form (0-3 zlib header, 4-7 encrypted in 1, 2 or 3 blocks, 7: zlib header kept but block-chained), pixels
fn h_c12_data() {
    let (form, n) = (nd::param(0), nd::param(1) as usize);
    let d = nd::vec(n * 4);
    let key = pattern(64);
    let head = [0x9C78, 0xDA78, 0x0178, 0x5E78u32];
    let mut z = (head[form as usize & 3] as u16).to_le_bytes().to_vec();
    z.extend(stored(&d));
    let mut b = vec![0xEE; 3];
    let (header, len) = if form < 4 {
        b.extend_from_slice(&z);
        (head[form as usize] as i32, z.len())
    } else {
        let cut: &[usize] = match form { 4 | 7 => &[], 5 => &[4], _ => &[1, 9] };
        let mut start = 0;
        for e in cut.iter().copied().chain([z.len()]) {
            b.extend_from_slice(&((e - start) as u32).to_le_bytes());
            for (i, x) in z[start..e].iter().enumerate() { b.push(*x ^ key[i]); }
            start = e;
        }
        (if form == 7 { 0x9C78 } else { b[3] as i32 | (b[4] as i32) << 8 }, b.len() - 3)
    };
    if form > 4 { b.extend([0xEE; 5]); }
    let mut r = WzReader::from_buff(&b);
    r.keys = test_key(key, false);
    let p = WzPng::new(&Arc::new(r), (n as u32, 1), (2, 0), (3, len), header, 1);
    let img = p.extract_png().unwrap();
    let im = img.as_rgba8().expect("rgba");
    let mut bad = 0u8;
    for x in 0..n {
        let q = im.get_pixel(x as u32, 0).0;
        bad |= q[0] ^ d[4 * x + 2] | q[1] ^ d[4 * x + 1] | q[2] ^ d[4 * x] | q[3] ^ d[4 * x + 3];
    }
    assert!(bad == 0, "pixel differs");
    nd::cover(1);
}
/// too few bytes for the declared size: an error. params: format, height (widths 0-255 and up to 2^32-1), bytes present
fn h_c12_short() {
    let (f, h, have) = (nd::param(0) as u32, nd::param(1) as u32, nd::param(2));
    let d = nd::vec(have as usize);
    let z = zlib(&d);
    let k = nd::below(270);
    let w = [1 << 14, 1 << 16, 1 << 24, 1 << 29, 1 << 31, u32::MAX - 3, u32::MAX].get(k.wrapping_sub(256) as usize).copied().unwrap_or(k as u32);
    let (w6, h6) = (w as u64, h as u64);
    let enough = match f {
        2 | 2562 => w6 <= have / 4 / h6,
        517 => w6 / 16 <= have / 2 / (h6 / 16).max(1) || h6 < 16,
        3 | 1026 | 2050 | 4098 => (w6 + 3) / 4 <= have / 16 / ((h6 + 3) / 4),
        _ => w6 <= have / 2 / h6,
    };
    nd::assume(!enough);
    let r = arc_reader(&z);
    let p = WzPng::new(&r, (w, h), (f, 0), (0, z.len()), 0x9C78, 1);
    assert!(p.extract_png().is_err(), "picture out of too few bytes");
    nd::cover(1);
}
/// any declared position, length and header over any small buffer. param: buffer size
fn h_c12_total() {
    let n = nd::param(0) as usize;
    let b = nd::vec(n);
    let r = arc_reader(&b);
    let (o, l) = (nd::u64() as usize, nd::u64() as usize);
    let header = nd::u16() as i32;
    nd::assume(header != 0x9C78 && header != 0xDA78 && header != 0x0178 && header != 0x5E78);
    let p = WzPng::new(&r, (1, 1), (2, 0), (o, l), header, 1);
    match p.extract_png() {
        Ok(i) => { assert!(i.width() == 1 && i.height() == 1 && l <= n && o <= n - l, "range"); nd::cover(1) }
        Err(_) => nd::cover(2),
    }
}
/// every format number that is not supported is an error, whatever the data
fn h_c12_format() {
    let (f1, f2) = (nd::u32(), nd::i8() as u32);
    let f = f1.wrapping_add(f2);
    for k in [1, 2, 257, 513, 517, 1026, 3, 2050, 4098, 769, 2562] { nd::assume(f != k); }
    let z = zlib(&[1; 64]);
    let r = arc_reader(&z);
    let p = WzPng::new(&r, (2, 2), (f1, f2), (0, z.len()), 0x9C78, 1);
    assert!(p.extract_png().is_err(), "unsupported format");
    nd::cover(1);
}
}
