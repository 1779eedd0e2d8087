//! C23: nodes as what they are, names, vectors
use crate::nd;
use crate::util::*;
use std::hash::{Hash, Hasher};
use std::sync::Arc;
use wz_reader::property::*;
use wz_reader::{MsFile, MsImage, WzDirectory, WzFile, WzImage, WzImageHeaderType, WzNode, WzNodeCast, WzNodeName, WzObjectType};

/// what is hashed, as it is
#[derive(Default)]
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
}
fn hashed<T: Hash + ?Sized>(t: &T) -> Vec<u8> {
    let mut r = Rec::default();
    t.hash(&mut r);
    r.0
}
fn name(n: usize, wide: bool) -> String {
    let mut v = nd::vec(n);
    for c in &v {
        nd::assume(*c < 0x80);
    }
    if wide {
        v.extend("é한😀".bytes());
    }
    String::from_utf8(v).unwrap()
}

const FILE: u32 = 0;
const DIR: u32 = 1;
const IMG: u32 = 2;
const SUB: u32 = 3;
const VAL: u32 = 4;
const PNG: u32 = 5;
const SOUND: u32 = 6;
const STR: u32 = 7;
const ISSUB: u32 = 8;
const CONVEX: u32 = 9;
const LUA: u32 = 10;
const RAW: u32 = 11;
const VIDEO: u32 = 12;
const NULL: u32 = 13;
const VEC: u32 = 14;
const SHORT: u32 = 15;
const INT: u32 = 16;
const LONG: u32 = 17;
const FLOAT: u32 = 18;
const DOUBLE: u32 = 19;
const UOL: u32 = 20;

fn answers(n: &WzNode) -> u32 {
    let l = [
        n.try_as_file().is_some(), n.try_as_directory().is_some(), n.try_as_image().is_some(), n.try_as_sub_property().is_some(), n.try_as_value().is_some(),
        n.try_as_png().is_some(), n.try_as_sound().is_some(), n.try_as_string().is_some(), n.is_sub_property(), n.is_convex(),
        n.try_as_lua().is_some(), n.try_as_raw_data().is_some(), n.try_as_video().is_some(), n.is_null(), n.try_as_vector2d().is_some(),
        n.try_as_short().is_some(), n.try_as_int().is_some(), n.try_as_long().is_some(), n.try_as_float().is_some(), n.try_as_double().is_some(), n.try_as_uol().is_some(),
    ];
    l.iter().enumerate().map(|(i, b)| (*b as u32) << i).fold(0, |a, b| a | b)
}
fn set(l: &[u32]) -> u32 {
    l.iter().fold(0, |a, b| a | 1 << b)
}

harnesses! {
/// every kind of node. params: kind
fn h_c23_cast() {
    let kind = nd::param(0);
    let data = nd::vec(8);
    let r = arc_reader(&data);
    let v = nd::u64();
    let mk = |o: WzObjectType| WzNode::from_str("n", o, None);
    let want;
    let n = match kind {
        0 => { want = set(&[FILE]); mk(WzFile::default().into()) }
        1 => { want = set(&[DIR]); mk(WzDirectory::default().into()) }
        2 => { want = set(&[IMG]); mk(WzImage::default().into()) }
        3 => { want = 0; mk(MsFile::default().into()) }
        4 => { want = 0; mk(MsImage::default().into()) }
        5 => { want = set(&[SUB, ISSUB]); mk(WzObjectType::Property(WzSubProperty::Property)) }
        6 => { want = set(&[SUB, CONVEX]); mk(WzObjectType::Property(WzSubProperty::Convex)) }
        7 => {
            want = set(&[SUB, PNG]);
            let (w, h, a, b) = (v as u32, (v >> 32) as u32, nd::u32(), nd::u32());
            let n = mk(WzPng::new(&r, (w, h), (a, b), (1, 5), 7, 0).into());
            let p = n.try_as_png().unwrap();
            assert!(p.width == w && p.height == h && p.header == 7, "picture");
            let f = a.wrapping_add(b);
            let known = [(1, WzPngFormat::BGRA4444), (2, WzPngFormat::BGRA8888), (257, WzPngFormat::ARGB1555), (513, WzPngFormat::RGB565), (517, WzPngFormat::RGB565_517), (4097, WzPngFormat::DXT1), (1026, WzPngFormat::DXT3), (3, WzPngFormat::DXT3SM), (2050, WzPngFormat::DXT5), (4098, WzPngFormat::BC7), (769, WzPngFormat::R16), (2304, WzPngFormat::A8), (2562, WzPngFormat::RGBA1010102), (4100, WzPngFormat::RGBA32Float)];
            let want = known.into_iter().find(|k| k.0 == f).map(|k| k.1).unwrap_or(WzPngFormat::Unknown);
            assert!(p.format() == want, "picture format");
            n
        }
        8 => {
            want = set(&[SUB, SOUND]);
            let n = mk(WzSound::new(&r, 2, 5, 0, 2, v as u32, WzSoundType::Mp3).into());
            let s = n.try_as_sound().unwrap();
            assert!(s.duration == v as u32 && s.sound_type == WzSoundType::Mp3 && nd::same(&s.get_buffer(), &data[2..7]), "sound");
            n
        }
        9 => {
            want = set(&[VAL, SHORT]);
            let n = mk((v as i16).into());
            assert!(*n.try_as_short().unwrap() == v as i16, "short");
            n
        }
        10 => {
            want = set(&[VAL, INT]);
            let n = mk((v as i32).into());
            assert!(*n.try_as_int().unwrap() == v as i32, "int");
            n
        }
        11 => {
            want = set(&[VAL, LONG]);
            let n = mk((v as i64).into());
            assert!(*n.try_as_long().unwrap() == v as i64, "long");
            n
        }
        12 => {
            want = set(&[VAL, FLOAT]);
            let n = mk(f32::from_bits(v as u32).into());
            assert!(n.try_as_float().unwrap().to_bits() == v as u32, "float");
            n
        }
        13 => {
            want = set(&[VAL, DOUBLE]);
            let n = mk(f64::from_bits(v).into());
            assert!(n.try_as_double().unwrap().to_bits() == v, "double");
            n
        }
        14 => {
            want = set(&[VAL, VEC]);
            let n = mk(Vector2D::new(v as i32, (v >> 32) as i32).into());
            let p = n.try_as_vector2d().unwrap();
            assert!(p.0 == v as i32 && p.1 == (v >> 32) as i32, "vector");
            n
        }
        15 | 16 => {
            let s = WzString::from_meta(WzStringMeta::new_unicode(2, 4), &r);
            let n = if kind == 15 { mk(s.into()) } else { mk(WzObjectType::Value(WzValue::UOL(s))) };
            want = set(if kind == 15 { &[VAL, STR] } else { &[VAL, STR, UOL] });
            let s = n.try_as_string().unwrap();
            // two units, as they are stored
            nd::assume(data[3] == 0xAA && data[5] == 0xAA && data[2] < 0x80 && data[4] < 0x80);
            let t = s.get_string().unwrap();
            let want = [data[2] ^ 0xAA, data[4] ^ 0xAB];
            assert!(nd::same(t.as_bytes(), String::from_utf16(&want.map(u16::from)).unwrap().as_bytes()), "string");
            n
        }
        17 => {
            want = set(&[VAL, RAW]);
            let n = mk(WzRawData::new(&r, 1, 6).into());
            assert!(nd::same(n.try_as_raw_data().unwrap().get_buffer(), &data[1..7]), "raw data");
            n
        }
        18 => {
            want = set(&[VAL, VIDEO]);
            let n = mk(WzVideo::new(&r, 3, 4).into());
            assert!(nd::same(n.try_as_video().unwrap().get_buffer(), &data[3..7]), "video");
            n
        }
        19 => { want = set(&[VAL, LUA]); mk(WzLua::new(&r, 0, 8).into()) }
        20 => { want = set(&[VAL, NULL]); mk(WzObjectType::Value(WzValue::Null)) }
        21 => { want = set(&[VAL]); mk(WzObjectType::Value(WzValue::ParsedString("x".into()))) }
        _ => { want = set(&[VAL, NULL]); WzNode::empty() }
    };
    assert!(answers(&n) == want, "kind");
    // a copy is the same
    let c = WzNode::new(&n.name, n.object_type.clone(), None);
    assert!(answers(&c) == want && c.name == n.name && c.children.is_empty() && n.parent.upgrade().is_none(), "copy");
    nd::obs(want as u64);
    nd::cover(1);
}
/// names are equal and hash alike exactly if their texts do. params: lengths, beyond ASCII
fn h_c23_name() {
    let wide = nd::param(2) == 1;
    let (a, b) = (name(nd::param(0) as usize, wide), name(nd::param(1) as usize, wide));
    let eq = nd::same(a.as_bytes(), b.as_bytes());
    let (x, y) = (WzNodeName::new(&a), WzNodeName::from(b.clone()));
    assert!((x == y) == eq, "equal");
    assert!(nd::same(&hashed(&x), &hashed(a.as_str())) && nd::same(&hashed(&y), &hashed(b.as_str())), "hash");
    assert!(nd::same(x.as_str().as_bytes(), a.as_bytes()) && nd::same((*y).as_bytes(), b.as_bytes()), "text");
    assert!(x.to_string() == a, "shown");
    // as keys of the children of a node
    let root = WzNode::from_str("r", WzDirectory::default(), None).into_lock();
    let k = WzNode::new(&x, nd::i32(), Some(&root)).into_lock();
    root.write().unwrap().add(&k);
    let r = root.read().unwrap();
    assert!(Arc::ptr_eq(r.children.get(&x).unwrap(), &k), "child");
    match r.children.get(b.as_str()) {
        Some(c) => {
            assert!(eq && Arc::ptr_eq(c, &k), "found");
            nd::cover(1);
        }
        None => {
            assert!(!eq, "not found");
            nd::cover(2);
        }
    }
    let z = x.clone();
    assert!(z == x && WzNodeName::default().as_str().is_empty(), "copy");
}
/// vectors, wherever the result has a value
fn h_c23_vector() {
    let (a, b, c, d) = (nd::i32(), nd::i32(), nd::i32(), nd::i32());
    let (v, w) = (Vector2D::new(a, b), Vector2D(c, d));
    assert!((v == w) == (a == c && b == d), "equal");
    let fit = |x: i64| x == x as i32 as i64;
    let (a, b, c, d) = (a as i64, b as i64, c as i64, d as i64);
    match nd::below(2) {
        0 => {
            nd::assume(fit(a + c) && fit(b + d));
            let s = v + w;
            assert!(s.0 as i64 == a + c && s.1 as i64 == b + d, "sum");
        }
        _ => {
            nd::assume(fit(a - c) && fit(b - d));
            let s = v - w;
            assert!(s.0 as i64 == a - c && s.1 as i64 == b - d, "difference");
        }
    }
    nd::cover(1);
}
/// kinds of image headers: any byte
fn h_c23_header() {
    let b = nd::u8();
    let t = WzImageHeaderType::from(b);
    let known = b == 0x73 || b == 0x1B || b == 1 || b == 0x23;
    assert!(if known { t as u8 == b } else { t == WzImageHeaderType::Unknown }, "image header");
    if known { nd::cover(1) } else { nd::cover(2) }
}
}
