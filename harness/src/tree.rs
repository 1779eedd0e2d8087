//! C13, C14: property trees.  An independent encoder writes a tree with symbolic values,
//! the parser has to give exactly that tree back.
use crate::nd;
use crate::util::*;
use std::sync::Arc;
use wz_reader::property::{WzSubProperty, WzValue};
use wz_reader::{WzImage, WzNode, WzNodeArc, WzNodeCast, WzObjectType, WzReader};

#[derive(Clone)]
pub enum T {
    Null,
    Short(u8, i16),
    Int(u8, i32),
    Long(i64),
    Float(u32),
    Float0,
    Double(u64),
    Str(String),
    Uol(String),
    Vec2(i32, i32),
    Sub(Vec<(&'static str, T)>),
    /// children, width, height, four bytes of a 1x1 picture (w, h = 1) otherwise none
    Canvas(Option<Vec<(&'static str, T)>>, u32, u32, Option<[u8; 4]>),
    Convex(Vec<T>),
    /// duration, header length, data
    Sound(u32, usize, Vec<u8>),
    Raw(u8, Option<Vec<(&'static str, T)>>, Vec<u8>),
    Video(Vec<u8>),
    Unknown,
}

pub struct Enc {
    pub b: Vec<u8>,
    base: usize,
    key: Vec<u8>,
    /// strings by displacement instead of inline
    disp: bool,
    long: bool,
    pad: usize,
    pool: Vec<(usize, String)>,
}
impl Enc {
    pub fn new(base: usize, style: u64) -> Enc {
        Enc { b: vec![0xEE; base], base, key: vec![], disp: style & 1 == 1, long: style & 2 == 2, pad: (style >> 2 & 3) as usize, pool: vec![] }
    }
    pub fn raw(&mut self, d: &[u8]) {
        self.b.extend_from_slice(d)
    }
    /// compressed integer: one byte whenever `long` is off and the value is one of -127..=127.
    /// The value may be symbolic: then it takes the long form.
    pub fn int(&mut self, v: i32, small: bool) {
        if small {
            self.b.push(v as u8);
        } else {
            self.b.push(0x80);
            self.raw(&v.to_le_bytes());
        }
    }
    fn wz(&mut self, s: &str) {
        let body = enc_ascii(s);
        if s.is_empty() {
            self.b.push(0);
        } else if self.long {
            self.b.push(0x80);
            let n = body.len() as i32;
            self.raw(&n.to_le_bytes());
        } else {
            self.b.push((body.len() as u8).wrapping_neg());
        }
        for (i, x) in body.iter().enumerate() {
            let k = self.key.get(i).copied().unwrap_or(0);
            self.b.push(*x ^ k);
        }
    }
    pub fn set_key(&mut self, k: Vec<u8>) {
        self.key = k
    }
    /// string block; `tag` picks between the image-level (0/1) and nested (0x73/0x1B) forms
    fn block(&mut self, s: &str, tag: bool) {
        if self.disp {
            self.b.push(if tag { 0x1B } else { 1 });
            self.pool.push((self.b.len(), s.to_string()));
            self.raw(&[0; 4]);
        } else {
            self.b.push(if tag { 0x73 } else { 0 });
            self.wz(s);
        }
    }
    pub fn list(&mut self, l: &[(&'static str, T)]) {
        let small = !self.long;
        self.int(l.len() as i32, small);
        for (n, t) in l {
            self.block(n, false);
            self.entry(t);
        }
    }
    fn entry(&mut self, t: &T) {
        match t {
            T::Null => self.b.push(0),
            T::Short(k, v) => {
                self.b.push(*k);
                self.raw(&v.to_le_bytes())
            }
            T::Int(k, v) => {
                self.b.push(*k);
                self.int(*v, false)
            }
            T::Long(v) => {
                self.b.push(20);
                self.b.push(0x80);
                self.raw(&v.to_le_bytes())
            }
            T::Float(v) => {
                self.raw(&[4, 0x80]);
                self.raw(&v.to_le_bytes())
            }
            T::Float0 => self.raw(&[4, 0]),
            T::Double(v) => {
                self.b.push(5);
                self.raw(&v.to_le_bytes())
            }
            T::Str(s) => {
                self.b.push(8);
                self.block(s, false)
            }
            _ => {
                self.b.push(9);
                let at = self.b.len();
                self.raw(&[0; 4]);
                self.ext(t);
                for _ in 0..if matches!(t, T::Sound(..)) { 0 } else { self.pad } {
                    self.b.push(0xEE);
                }
                let n = (self.b.len() - at - 4) as u32;
                self.b[at..at + 4].copy_from_slice(&n.to_le_bytes());
            }
        }
    }
    fn kids(&mut self, k: &Option<Vec<(&'static str, T)>>) {
        match k {
            Some(l) => {
                self.raw(&[1, 0, 0]);
                self.list(l)
            }
            None => self.b.push(0),
        }
    }
    fn ext(&mut self, t: &T) {
        match t {
            T::Sub(l) => {
                self.block("Property", true);
                self.raw(&[0, 0]);
                self.list(l)
            }
            T::Canvas(l, w, h, px) => {
                self.block("Canvas", true);
                self.b.push(0);
                self.kids(l);
                self.int(*w as i32, false);
                self.int(*h as i32, false);
                self.int(2, true);
                self.b.push(0);
                self.int(0, true);
                self.int(0, true);
                self.raw(&[0, 0]);
                let mut d = vec![];
                if let Some(p) = px {
                    d.extend_from_slice(&[0x78, 0x9C, 1, 4, 0, 0xFB, 0xFF]);
                    d.extend_from_slice(p);
                } else {
                    d.extend_from_slice(&[0x78, 0x9C]);
                }
                let n = d.len() as i32 + 1;
                self.raw(&n.to_le_bytes());
                self.b.push(0);
                self.raw(&d);
            }
            T::Convex(l) => {
                self.block("Shape2D#Convex2D", true);
                self.int(l.len() as i32, true);
                for t in l {
                    self.ext(t)
                }
            }
            T::Vec2(x, y) => {
                self.block("Shape2D#Vector2D", true);
                self.int(*x, false);
                self.int(*y, false);
            }
            T::Sound(dur, hl, d) => {
                self.block("Sound_DX8", true);
                self.b.push(0);
                self.int(d.len() as i32, true);
                self.int(*dur as i32, false);
                for i in 0..*hl {
                    self.b.push(i as u8 ^ 0x5A)
                }
                self.raw(d);
            }
            T::Uol(s) => {
                self.block("UOL", true);
                self.b.push(0);
                self.block(s, false)
            }
            T::Raw(v, l, d) => {
                self.block("RawData", true);
                self.b.push(*v);
                if *v == 1 {
                    self.kids(l)
                }
                self.int(d.len() as i32, true);
                self.raw(d);
            }
            T::Video(d) => {
                self.block("Canvas#Video", true);
                self.raw(&[0, 0, 1]);
                self.int(d.len() as i32, true);
                self.raw(d);
            }
            _ => self.block("Nonsense", true),
        }
    }
    /// strings that are referred to by displacement go behind everything else
    pub fn finish(mut self) -> Vec<u8> {
        for (at, s) in std::mem::take(&mut self.pool) {
            let d = (self.b.len() - self.base) as i32;
            self.b[at..at + 4].copy_from_slice(&d.to_le_bytes());
            self.wz(&s);
        }
        self.b.extend([0xEE; 3]);
        self.b
    }
    pub fn image_head(&mut self) {
        self.b.push(0x73);
        self.wz("Property");
        self.raw(&[0, 0]);
    }
}
/// the stored image of a tree. style: bit 0 strings by displacement, bit 1 long string forms,
/// bits 2-3 unused bytes at the end of each block, bit 4 encrypted strings
pub fn image(l: &[(&'static str, T)], base: usize, style: u64) -> WzImage {
    let mut e = Enc::new(base, style);
    if style & 16 == 16 {
        e.key = pattern(64);
    }
    e.image_head();
    e.list(l);
    let n = e.b.len();
    let b = e.finish();
    let mut r = WzReader::from_buff(&b);
    if style & 16 == 16 {
        r.keys = test_key(pattern(64), false);
    }
    WzImage::new(&"t.img".into(), base, n - base, &Arc::new(r))
}

/// where contents come from: symbolic, or fixed bytes
pub struct Src(pub bool);
impl Src {
    pub fn vec(&self, n: usize) -> Vec<u8> {
        if self.0 { nd::vec(n) } else { vec![0x41; n] }
    }
    fn px(&self) -> [u8; 4] {
        let v = self.vec(4);
        [v[0], v[1], v[2], v[3]]
    }
    fn u16(&self) -> u16 {
        let v = self.vec(2);
        u16::from_le_bytes([v[0], v[1]])
    }
    fn u32(&self) -> u32 {
        u32::from_le_bytes(self.px())
    }
    fn u64(&self) -> u64 {
        self.u32() as u64 | (self.u32() as u64) << 32
    }
}
pub fn some_text(src: &Src, n: usize) -> String {
    let mut s = src.vec(n);
    for c in s.iter_mut() {
        *c &= 0x7F;
    }
    // every byte is below 0x80
    unsafe { String::from_utf8_unchecked(s) }
}
pub const KINDS: u64 = 23;
/// a value of the k-th kind, its content symbolic
pub fn value(k: u64) -> T {
    value_from(k, &Src(true))
}
pub fn value_from(k: u64, s: &Src) -> T {
    match k {
        0 => T::Null,
        1 => T::Short(2, s.u16() as i16),
        2 => T::Short(11, s.u16() as i16),
        3 => T::Int(3, s.u32() as i32),
        4 => T::Int(19, s.u32() as i32),
        5 => T::Long(s.u64() as i64),
        6 => T::Float(s.u32()),
        7 => T::Float0,
        8 => T::Double(s.u64()),
        9 => T::Str(some_text(s, 2)),
        10 => T::Uol(some_text(s, 2)),
        11 => T::Vec2(s.u32() as i32, s.u32() as i32),
        12 => T::Sub(vec![]),
        13 => T::Canvas(None, s.u32(), s.u32(), None),
        14 => T::Canvas(Some(vec![("a", T::Int(3, s.u32() as i32))]), 1, 1, Some(s.px())),
        15 => T::Convex(vec![T::Vec2(s.u32() as i32, s.u32() as i32), T::Vec2(s.u32() as i32, s.u32() as i32), T::Canvas(None, 1, 1, Some(s.px()))]),
        16 => T::Sound(s.u32(), 0x46, s.vec(3)),
        17 => T::Sound(s.u32(), 5, s.vec(2)),
        18 => T::Raw(0, None, s.vec(3)),
        19 => T::Raw(1, None, s.vec(2)),
        20 => T::Raw(1, Some(vec![("b", T::Short(2, s.u16() as i16))]), s.vec(2)),
        21 => T::Video(s.vec(3)),
        _ => T::Unknown,
    }
}

/// the node is exactly this value
pub fn check(n: &WzNodeArc, name: &str, t: &T, parent: Option<&WzNodeArc>) {
    let r = n.read().unwrap();
    assert!(r.name.as_str() == name, "name");
    match (r.parent.upgrade(), parent) {
        (Some(a), Some(b)) => assert!(Arc::ptr_eq(&a, b), "parent"),
        (None, None) => {}
        _ => panic!("parent presence"),
    }
    let none = vec![];
    let kids: &Vec<(&'static str, T)> = match t {
        T::Sub(l) => l,
        T::Canvas(Some(l), ..) | T::Raw(_, Some(l), _) => l,
        _ => &none,
    };
    if let T::Convex(l) = t {
        assert!(r.is_convex() && r.children.len() == l.len(), "convex");
        for (i, t) in l.iter().enumerate() {
            let nm = ["0", "1", "2", "3"][i];
            check(&r.at(nm).expect("convex child"), nm, t, Some(n));
        }
    } else {
        assert!(r.children.len() == kids.len(), "number of children");
        for (nm, t) in kids {
            check(&r.at(nm).expect("child"), nm, t, Some(n));
        }
    }
    match (t, &r.object_type) {
        (T::Null, WzObjectType::Value(WzValue::Null)) | (T::Unknown, WzObjectType::Value(WzValue::Null)) => {}
        (T::Short(_, v), WzObjectType::Value(WzValue::Short(x))) => assert!(v == x, "short"),
        (T::Int(_, v), WzObjectType::Value(WzValue::Int(x))) => assert!(v == x, "int"),
        (T::Long(v), WzObjectType::Value(WzValue::Long(x))) => assert!(v == x, "long"),
        (T::Float(v), WzObjectType::Value(WzValue::Float(x))) => assert!(*v == x.to_bits(), "float"),
        (T::Float0, WzObjectType::Value(WzValue::Float(x))) => assert!(x.to_bits() == 0, "zero float"),
        (T::Double(v), WzObjectType::Value(WzValue::Double(x))) => assert!(*v == x.to_bits(), "double"),
        (T::Str(v), WzObjectType::Value(WzValue::String(x))) => assert!(nd::same(v.as_bytes(), x.get_string().unwrap().as_bytes()), "string"),
        (T::Uol(v), WzObjectType::Value(WzValue::UOL(x))) => assert!(nd::same(v.as_bytes(), x.get_string().unwrap().as_bytes()), "uol"),
        (T::Vec2(a, b), WzObjectType::Value(WzValue::Vector(x))) => assert!(*a == x.0 && *b == x.1, "vector"),
        (T::Sub(_), WzObjectType::Property(WzSubProperty::Property)) => {}
        (T::Convex(_), WzObjectType::Property(WzSubProperty::Convex)) => {}
        (T::Canvas(_, w, h, px), WzObjectType::Property(WzSubProperty::PNG(p))) => {
            assert!(p.width == *w && p.height == *h, "canvas size");
            if let Some(b) = px {
                let i = p.extract_png().expect("canvas picture");
                assert!(nd::same(i.as_bytes(), &[b[2], b[1], b[0], b[3]]), "canvas pixels");
            }
        }
        (T::Sound(dur, hl, d), WzObjectType::Property(WzSubProperty::Sound(s))) => {
            assert!(s.duration == *dur, "duration");
            let b = s.get_buffer();
            if *hl == 0x46 {
                assert!(s.sound_type == wz_reader::property::WzSoundType::Wav, "wav");
                assert!(b.len() == 44 + d.len() && nd::same(&b[44..], d), "wav data");
                for i in 0..16 {
                    assert!(b[20 + i] == (0x34 + i) as u8 ^ 0x5A, "wav format");
                }
            } else {
                assert!(s.sound_type == wz_reader::property::WzSoundType::Mp3, "mp3");
                assert!(nd::same(&b, d), "mp3 data");
            }
        }
        (T::Raw(_, _, d), WzObjectType::Value(WzValue::RawData(x))) => assert!(nd::same(d, x.get_buffer()), "raw data"),
        (T::Video(d), WzObjectType::Value(WzValue::Video(x))) => assert!(nd::same(d, x.get_buffer()), "video"),
        _ => panic!("kind"),
    }
}
fn check_all(im: &WzImage, l: &[(&'static str, T)]) {
    let (v, u) = im.resolve_children(None).unwrap();
    assert!(v.len() == l.len(), "number of entries");
    for (i, (n, t)) in l.iter().enumerate() {
        assert!(v[i].0.as_str() == *n, "entry name and order");
        check(&v[i].1, n, t, None);
    }
    assert!(u.len() == uols(l), "uol list");
}
fn uols(l: &[(&'static str, T)]) -> usize {
    let mut n = 0;
    for (_, t) in l {
        n += match t {
            T::Uol(_) => 1,
            T::Sub(l) | T::Canvas(Some(l), ..) | T::Raw(_, Some(l), _) => uols(l),
            _ => 0,
        }
    }
    n
}
fn paths(im: &WzImage, at: &str, l: &[(&'static str, T)]) {
    for (n, t) in l {
        let p = if at.is_empty() { n.to_string() } else { format!("{}/{}", at, n) };
        check(&im.at_path(&p).expect("path exists"), n, t, None);
        match t {
            T::Sub(l) | T::Canvas(Some(l), ..) | T::Raw(_, Some(l), _) => paths(im, &p, l),
            T::Convex(l) => {
                for (i, t) in l.iter().enumerate() {
                    let nm = ["0", "1", "2", "3"][i];
                    check(&im.at_path(&format!("{}/{}", p, nm)).expect("path exists"), nm, t, None);
                }
            }
            _ => {}
        }
    }
}
fn total(b: &[u8], size: usize, mode: u64) {
    let im = WzImage::new(&"t.img".into(), 2, size, &arc_reader(b));
    if mode == 1 {
        for p in ["x/a", "s/a"] {
            match im.at_path(p) {
                Ok(n) => touch(&n),
                Err(_) => nd::cover(3),
            }
        }
        return;
    }
    match im.resolve_children(None) {
        Ok((v, _)) => {
            nd::cover(1);
            for (_, n) in v {
                touch(&n)
            }
        }
        Err(_) => nd::cover(2),
    }
}
/// reading out whatever was parsed
fn touch(n: &WzNodeArc) {
    let r = n.read().unwrap();
    for c in r.children.values() {
        touch(c)
    }
    match &r.object_type {
        WzObjectType::Value(WzValue::String(s)) | WzObjectType::Value(WzValue::UOL(s)) => {
            let _ = s.get_string();
        }
        WzObjectType::Property(WzSubProperty::PNG(p)) => {
            if p.width < 4 && p.height < 4 {
                let _ = p.extract_png();
            }
        }
        WzObjectType::Property(WzSubProperty::Sound(s)) => {
            let _ = s.get_buffer();
        }
        WzObjectType::Value(WzValue::RawData(x)) => {
            let _ = x.get_buffer();
        }
        WzObjectType::Value(WzValue::Video(x)) => {
            let _ = x.get_buffer();
        }
        WzObjectType::Value(WzValue::Lua(x)) => {
            let _ = x.extract_lua();
        }
        _ => {}
    }
}

harnesses! {
/// one value of each kind between two others. params: kind, base, style
fn h_c13_value() {
    let l = vec![("p", value(1)), ("x", value(nd::param(0))), ("q", value(3))];
    let im = image(&l, nd::param(1) as usize, nd::param(2));
    check_all(&im, &l);
    nd::cover(1);
}
/// nested: every pair of kinds next to and inside a sub property. params: first kind, style
fn h_c13_tree() {
    let a = nd::param(0);
    let b = nd::below(KINDS);
    let l = vec![("s", T::Sub(vec![("a", value(a)), ("b", value(b)), ("t", T::Sub(vec![("c", value(b))]))])), ("z", value(a))];
    let im = image(&l, 3, nd::param(1));
    check_all(&im, &l);
    nd::cover(1);
}
/// direct access: every path of a tree, and no other. params: first kind, style
fn h_c14_paths() {
    let a = nd::param(0);
    let b = nd::below(KINDS);
    let l = vec![("p", value(a)), ("s", T::Sub(vec![("a", value(a)), ("b", value(b)), ("t", T::Sub(vec![("c", value(b)), ("a", value(1))]))])), ("z", value(b))];
    let im = image(&l, 3, nd::param(1));
    paths(&im, "", &l);
    for m in ["", "zz", "zz/a", "zz/a/b", "s/zz", "s/zz/c", "s/t/zz", "s/t/zz/zz", "s/a/zz", "p/zz", "z/zz", "z/zz/zz", "s/", "/s", "s//t", "a", "c", "s/c", "q/t/c", "t/c", "S", "s/A"] {
        assert!(im.at_path(m).is_err(), "path that does not exist");
    }
    nd::cover(1);
}
/// corrupted images: any bytes in a window at any place. Nothing may panic, whatever is
/// returned can be read out. params: kind, style, window width, first place, places, mode (0 whole, 1 direct access)
fn h_c05_window() {
    let k = nd::param(0);
    let l = vec![("x", value_from(k, &Src(false))), ("q", T::Short(2, 7))];
    let im = image(&l, 2, nd::param(1));
    let mut b = im.reader.get_ref_slice().to_vec();
    let w = nd::param(2) as usize;
    let first = 2 + nd::param(3) as usize;
    let n = (nd::param(4) as usize).min(b.len() - w - first + 1);
    let at = nd::below(n as u64) as usize + first;
    let new = nd::vec(w);
    b[at..at + w].copy_from_slice(&new);
    total(&b, im.block_size, nd::param(5));
}
/// truncated images. params: kind, style, mode
fn h_c05_cut() {
    let l = vec![("p", value(1)), ("x", value(nd::param(0))), ("s", T::Sub(vec![("a", T::Short(2, 5))]))];
    let im = image(&l, 2, nd::param(1));
    let b = im.reader.get_ref_slice();
    let n = 3 + nd::below((b.len() - 2) as u64) as usize;
    total(&b[..n], im.block_size, nd::param(2));
}
/// any short image under any name, at any place with any declared size. params: name, bytes, how many of them are those of a packed text
fn h_c05_small() {
    let name = ["t.img", "t.lua", "t.txt"][nd::param(0) as usize];
    let mut b = nd::vec(nd::param(1) as usize);
    for i in 0..nd::param(2) as usize {
        b[i] = b"#Property"[i]
    }
    let at = nd::u32() as usize;
    let im = WzImage::new(&name.into(), at, nd::u32() as usize, &arc_reader(&b));
    match im.resolve_children(None) {
        Ok((v, _)) => {
            nd::cover(1);
            for (_, n) in v { touch(&n) }
        }
        Err(_) => nd::cover(2),
    }
}
}
