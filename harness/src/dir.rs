//! C15, C16: package directories and whole packages
use crate::nd;
use crate::pkg::{hash_model, mix, off_version, offset_model};
use crate::tree::{check, some_text, value_from, Enc, Src, T};
use crate::util::*;
use std::sync::Arc;
use wz_reader::file::WzFileMeta;
use wz_reader::util::profile::{get_all_pkg2_profiles, Pkg2Profile, WzProfileVersion, PKG2_PROFILE_CACHE};
use wz_reader::{WzDirectory, WzFile, WzNode, WzNodeArc, WzNodeCast, WzObjectType, WzReader};

pub enum D {
    Dir(String, Vec<D>),
    Img(String, Vec<(&'static str, T)>),
}
impl D {
    pub fn name(&self) -> &str {
        match self {
            D::Dir(n, _) | D::Img(n, _) => n,
        }
    }
}
/// package kinds: 0 PKG1 with a version word, 1 PKG1 without, 2-4 PKG2 with the three 32-bit
/// offset schemes, 5 the 64-bit PKG2 form, 6 the random-header 32-bit form (scheme 3)
pub struct Pk {
    pub kind: u64,
    pub b: Vec<u8>,
    pub fstart: usize,
    pub data_start: usize,
    hash1: u64,
    pub hash: u64,
    key: Vec<u8>,
    /// bit 0: long string forms, bit 1: names of some entries elsewhere (PKG1), bit 2: unknown entries in between (PKG1),
    /// bit 3: names encrypted
    style: u64,
    pool: Vec<(usize, u8, String)>,
    pub places: Vec<(usize, usize)>,
    /// where sizes and positions are stored
    pub fields: Vec<(usize, usize)>,
    /// fixed contents only
    pub plain: bool,
    /// the key of the first names of PKG2 directories, if another one
    pub first_key: Option<Vec<u8>>,
    /// no special first names
    pub plain_first: bool,
}
fn scheme(kind: u64) -> u64 {
    match kind {
        0 | 1 => 0,
        2 => 1,
        3 => 2,
        4 | 6 => 3,
        _ => 4,
    }
}
const K64: u64 = 0x550EC4DD02C468EC;
impl Pk {
    pub fn new(kind: u64, style: u64, fstart: usize, encver: u8, hash1: u64, hash2: u64, hash: u64) -> Pk {
        let fstart = match kind {
            5 => 150,
            6 => 68,
            _ => fstart,
        };
        let mut b = vec![0x55; fstart];
        match kind {
            0 | 1 => b[..4].copy_from_slice(b"PKG1"),
            2..=4 => b[..4].copy_from_slice(b"PKG2"),
            _ => {}
        }
        if kind < 5 {
            b[12..16].copy_from_slice(&(fstart as u32).to_le_bytes());
        }
        match kind {
            0 => b.extend([encver, 0]),
            2..=4 => {
                b.extend((hash1 as u32).to_le_bytes());
                b.extend((hash2 as u32).to_le_bytes());
            }
            5 => {
                for (i, p) in [0x48, 0x24, 0x0F, 0x31, 0x46, 0x47, 0x63, 0x67].iter().enumerate() {
                    b[*p] = hash1.to_le_bytes()[i]
                }
                for (i, p) in [0x8E, 0x8C, 0x93, 0x0E, 0x64, 0x7B, 0x2E, 0x4D].iter().enumerate() {
                    b[*p] = hash2.to_le_bytes()[i]
                }
            }
            6 => {
                for (i, p) in [0x43, 0x1A, 0x30, 0x10].iter().enumerate() {
                    b[*p] = hash1.to_le_bytes()[i]
                }
                for (i, p) in [0x2D, 0x07, 0x3F, 0x2E].iter().enumerate() {
                    b[*p] = hash2.to_le_bytes()[i]
                }
            }
            _ => {}
        }
        let data_start = b.len();
        Pk { kind, b, fstart, data_start, hash1, hash, key: if style & 8 == 8 { pattern(80) } else { vec![] }, style, pool: vec![], places: vec![], fields: vec![], plain: false, first_key: None, plain_first: false }
    }
    pub fn set_key(&mut self, k: &[u8]) {
        self.key = k.to_vec();
    }
    fn wz(&mut self, s: &str) {
        let body = enc_ascii(s);
        if self.style & 1 == 1 {
            self.b.push(0x80);
            self.b.extend((body.len() as i32).to_le_bytes());
        } else {
            self.b.push((body.len() as u8).wrapping_neg());
        }
        for (i, x) in body.iter().enumerate() {
            self.b.push(*x ^ self.key.get(i).copied().unwrap_or(0));
        }
    }
    /// the first name of a PKG2 directory
    fn first(&mut self, s: &str) {
        let n = s.len();
        if self.kind == 5 {
            self.b.extend((-(n as i16)).to_le_bytes());
        } else {
            self.b.push((n as u8).wrapping_neg());
        }
        let key = self.first_key.as_ref().unwrap_or(&self.key);
        for (i, c) in s.bytes().enumerate() {
            self.b.push(c ^ key.get(2 * i).copied().unwrap_or(0));
            self.b.push(key.get(2 * i + 1).copied().unwrap_or(0));
        }
    }
    fn long(&mut self, v: i32) -> usize {
        self.b.push(0x80);
        self.b.extend(v.to_le_bytes());
        self.b.len() - 4
    }
    pub fn enc_offset(&self, pos: usize, target: usize) -> u32 {
        let v = scheme(self.kind);
        let (f, p, h1, h) = (self.fstart as u32, pos as u32, self.hash1 as u32, self.hash as u32);
        // offset_model(0) = x ^ m + base, so the stored value is (target - base) ^ x ^ m
        let base = if v == 0 { f * 2 } else { f };
        offset_model(v, f, h1, h, p, 0).wrapping_sub(base) ^ (target as u32).wrapping_sub(base)
    }
    /// a directory and everything below it; where each child went is remembered in order
    pub fn dir(&mut self, l: &[D]) {
        let n = l.len();
        let enc_count = 7i32;
        match self.kind {
            0 | 1 => {
                let extra = if self.style & 4 == 4 { 1 } else { 0 };
                self.b.push((n + extra) as u8);
                if extra == 1 {
                    self.b.push(1);
                    self.b.extend([3, 4, 2, 1, 9, 9, 9, 9, 9, 9]);
                }
            }
            5 => {
                self.b.push(0x80);
                let c = (n as u64) << 16 | 0x1234;
                self.b.extend((c ^ self.hash1 ^ self.hash ^ K64).to_le_bytes());
            }
            _ => self.b.push(enc_count as u8),
        }
        let mut at = vec![]; // (position of the size, position of the offset)
        for (i, d) in l.iter().enumerate() {
            let ty = if let D::Dir(..) = d { 3 } else { 4 };
            if self.kind < 2 && self.style & 2 == 2 && i % 2 == 0 {
                self.b.push(2);
                self.pool.push((self.b.len(), ty, d.name().to_string()));
                self.b.extend([0; 4]);
            } else {
                self.b.push(ty);
                if self.kind >= 2 && i == 0 && !self.plain_first { self.first(d.name()) } else { self.wz(d.name()) }
            }
            let s = self.long(0);
            let c = if self.plain { 0x11223344 } else { nd::u32() as i32 };
            self.long(c);
            at.push((s, self.b.len()));
            if self.kind < 2 {
                self.b.extend([0; 4]);
            }
        }
        if self.kind >= 2 {
            if self.kind != 5 {
                self.b.push(enc_count as u8);
            }
            for a in at.iter_mut() {
                a.1 = self.b.len();
                self.b.extend([0; 4]);
            }
        }
        let mut kids = vec![];
        for (i, d) in l.iter().enumerate() {
            let target = self.b.len();
            let (s, o) = at[i];
            let e = self.enc_offset(o, target);
            self.b[o..o + 4].copy_from_slice(&e.to_le_bytes());
            self.fields.push((s, o));
            let slot = self.places.len();
            self.places.push((target, 0));
            match d {
                D::Dir(_, l) => self.dir(l),
                D::Img(_, l) => {
                    let mut e = Enc::new(0, 0);
                    e.set_key(self.key.clone());
                    e.image_head();
                    e.list(l);
                    self.b.extend(e.b);
                }
            }
            let n = self.b.len() - target;
            self.places[slot].1 = n;
            self.b[s..s + 4].copy_from_slice(&(n as i32).to_le_bytes());
            kids.push(target);
        }
    }
    pub fn finish(&mut self) {
        for (at, ty, s) in std::mem::take(&mut self.pool) {
            let d = (self.b.len() - self.fstart) as i32;
            self.b[at..at + 4].copy_from_slice(&d.to_le_bytes());
            self.b.push(ty);
            self.wz(&s);
        }
        let n = (self.b.len() - self.fstart) as u64;
        match self.kind {
            5 => {
                for (i, p) in [0x12, 0x09, 0x02, 0x95].iter().enumerate() {
                    self.b[*p] = n.to_le_bytes()[i]
                }
            }
            6 => {
                for (i, p) in [0x15, 0x19, 0x39, 0x41].iter().enumerate() {
                    self.b[*p] = n.to_le_bytes()[i]
                }
            }
            _ => self.b[4..12].copy_from_slice(&n.to_le_bytes()),
        }
    }
    pub fn reader(&self) -> WzReader {
        let mut r = WzReader::from_buff(&self.b);
        let k = if self.key.is_empty() { vec![0; 80] } else { self.key.clone() };
        r.keys = test_key(k.clone(), false);
        if self.kind >= 2 {
            r.pkg2_keys = test_key(k, true);
        }
        r
    }
    /// the root node of the package, not parsed
    pub fn node(&self, patch: i32) -> WzNodeArc {
        let reader = Arc::new(self.reader());
        let f = WzFile {
            offset: reader.header.data_start,
            block_size: self.b.len(),
            is_parsed: false,
            reader,
            wz_file_meta: WzFileMeta { path: "x".to_string(), patch_version: patch, wz_version_header: 0, wz_with_encrypt_version_header: true, hash: 0, string_decryptor_verified: true },
        };
        WzNode::from_str("Pkg", f, None).into_lock()
    }
}
/// children of `n` are exactly `l`; images are still unparsed at the right place
pub fn check_dir(n: &WzNodeArc, l: &[D], places: &mut std::slice::Iter<(usize, usize)>) {
    let r = n.read().unwrap();
    assert!(r.children.len() == l.len(), "number of entries");
    for d in l {
        let c = r.at(d.name()).expect("entry");
        let c = c.read().unwrap();
        assert!(c.name.as_str() == d.name(), "name");
        assert!(Arc::ptr_eq(&c.parent.upgrade().expect("parent link"), n), "parent");
        let (at, size) = *places.next().unwrap();
        match (d, &c.object_type) {
            (D::Dir(_, l), WzObjectType::Directory(w)) => {
                assert!(w.offset == at && w.block_size == size, "directory place");
                drop(c);
                check_dir(&r.at(d.name()).unwrap(), l, places);
            }
            (D::Img(..), WzObjectType::Image(w)) => {
                assert!(w.offset == at && w.block_size == size && !w.is_parsed, "image place");
                assert!(w.name.as_str() == d.name(), "image name");
                assert!(c.children.is_empty(), "not parsed yet");
            }
            _ => panic!("kind of entry"),
        }
    }
}
/// parse every image below and compare its contents
pub fn check_images(n: &WzNodeArc, l: &[D]) {
    for d in l {
        let c = n.read().unwrap().at(d.name()).expect("entry");
        match d {
            D::Dir(_, l) => check_images(&c, l),
            D::Img(_, l) => {
                c.write().unwrap().parse(&c).unwrap();
                let r = c.read().unwrap();
                assert!(r.children.len() == l.len() && r.try_as_image().unwrap().is_parsed, "parsed");
                for (nm, t) in l {
                    check(&r.at(nm).expect("value"), nm, t, Some(&c));
                }
            }
        }
    }
}
pub fn shape(k: u64) -> Vec<D> {
    shape_from(k, &Src(true))
}
pub fn shape_from(k: u64, src: &Src) -> Vec<D> {
    // any first character, no two alike in one place
    let nm = |s: &str| format!("{}{}", some_text(src, 1), s);
    let im = |n, v| D::Img(nm(n), vec![("v", value_from(v, src))]);
    match k {
        0 => vec![im("a.img", 3)],
        1 => vec![D::Dir(nm("d"), vec![im("a.img", 1)]), im("b.img", 9)],
        2 => vec![im("b.img", 11), D::Dir(nm("d"), vec![D::Dir(nm("e"), vec![im("a.img", 3), im("b.img", 1)]), im("c.img", 2)]), D::Dir(nm("f"), vec![im("a.img", 12)])],
        3 => vec![D::Dir(nm("d"), vec![]), im("a.img", 3), D::Dir(nm("e"), vec![D::Dir(nm("f"), vec![])])],
        _ => vec![],
    }
}
/// a PKG1 version and its check value
pub fn version(v: i32) -> (u8, u64) {
    let h = hash_model(v);
    (!(h ^ h >> 8 ^ h >> 16 ^ h >> 24) as u8, h as u64)
}
/// header hashes and the file hash of a PKG2 kind
pub fn hashes(kind: u64, i: u64) -> (u64, u64, u64) {
    let h1 = [0x1122334455667788u64, 0xF0E1D2C3B4A59687, 3][i as usize];
    match kind {
        5 => {
            let h = 0x0123456789ABCDEFu64.rotate_left(i as u32 * 8);
            (h1, h1 ^ h ^ 0xABCDEF0123456789, h)
        }
        _ => {
            let (a, t) = (h1 as u32, 0xCAFE1234u32.rotate_left(i as u32 * 5));
            let h2 = match kind {
                2 => a.rotate_left(7) ^ t,
                3 => !((a ^ t.wrapping_add(0x1A2B3C4D)).rotate_left((t & 15) + (a & 15)) ^ t ^ a),
                _ => {
                    let b = a ^ t;
                    let m = mix(b ^ 0x6D4C3B2A) ^ 0x91E10DA5;
                    let x = a ^ (m & 0xFFFF).wrapping_add(t).wrapping_add(0x1A2B3C4D);
                    !(x.rotate_left(((m ^ t) & 15) + (a & 15)) ^ b.wrapping_add(m))
                }
            };
            (a as u64, h2 as u64, t as u64)
        }
    }
}
/// the 32-bit PKG2 hash search is out of reach: let the profile be one of the remembered ones
pub fn remember(kind: u64, hash: u64) {
    let name = match kind {
        2 => WzProfileVersion::Pkg2V1196,
        3 => WzProfileVersion::Pkg2V1198,
        4 => WzProfileVersion::Pkg2V1199,
        6 => WzProfileVersion::Pkg2V1201,
        _ => return,
    };
    let all = get_all_pkg2_profiles();
    let mut c = PKG2_PROFILE_CACHE.write().unwrap();
    // a 64-bit one, one that fits another hash, then the right one
    c.push(Pkg2Profile::new(all[0].clone(), hash));
    let p = all.iter().find(|p| p.name == name).unwrap();
    c.push(Pkg2Profile::new(p.clone(), hash ^ 1));
    c.push(Pkg2Profile::new(p.clone(), hash));
}

harnesses! {
/// a directory tree through the directory interface with the file hash given. params: package kind, shape, style, content start, hash (4: any)
fn h_c15_dir() {
    let (kind, style) = (nd::param(0), nd::param(2));
    let (mut h1, h2, mut h) = hashes(kind, nd::param(4) & 3);
    if nd::param(4) > 3 {
        h = if kind == 5 { nd::u64() } else { nd::u32() as u64 };
        h1 = if kind == 5 { nd::u64() } else { nd::u32() as u64 };
    }
    let mut p = Pk::new(kind, style, nd::param(3) as usize, 0x11, h1, h2, h);
    let l = shape(nd::param(1));
    p.dir(&l);
    p.finish();
    let reader = Arc::new(p.reader());
    assert!(reader.header.data_start == p.data_start, "start");
    let mut d = WzDirectory::new(p.data_start, p.b.len(), &reader, false).with_hash(h);
    d.profile.offset_version = off_version(scheme(kind));
    let root = WzNode::from_str("root", d, None).into_lock();
    root.write().unwrap().parse(&root).unwrap();
    check_dir(&root, &l, &mut p.places.iter());
    check_images(&root, &l);
    nd::cover(1);
}
/// a whole package. params: package kind, shape, style, content start, version or hash, 1 to give the version
fn h_c15_file() {
    let (kind, style) = (nd::param(0), nd::param(2));
    let v = nd::param(4);
    let (enc, h1, h2, h) = if kind < 2 { let (e, h) = version(v as i32); (e, 0, 0, h) } else { let (a, b, c) = hashes(kind, v); (0, a, b, c) };
    let mut p = Pk::new(kind, style, nd::param(3) as usize, enc, h1, h2, h);
    let l = shape(nd::param(1));
    p.dir(&l);
    p.finish();
    remember(kind, h);
    let root = p.node(if nd::param(5) == 1 { v as i32 } else { -1 });
    root.write().unwrap().parse(&root).unwrap();
    check_dir(&root, &l, &mut p.places.iter());
    check_images(&root, &l);
    let r = root.read().unwrap();
    let f = r.try_as_file().unwrap();
    assert!(f.is_parsed && f.wz_file_meta.hash == h as usize, "hash found");
    assert!(f.wz_file_meta.path == "x", "path kept");
    if kind < 2 {
        assert!(f.wz_file_meta.patch_version == v as i32, "version found");
    }
    nd::cover(1);
}
/// one entry whose stored position and size are anything: accepted exactly when it lies in the file and
/// what is there can be an image or directory. params: package kind, 0 image or 1 directory, hash
fn h_c16_verify() {
    let (kind, is_dir) = (nd::param(0), nd::param(1) == 1);
    let (h1, h2, h) = hashes(kind, nd::param(2));
    let mut p = Pk::new(kind, 0, 20, 0x11, h1, h2, h);
    let l = vec![if is_dir { D::Dir("d".to_string(), vec![]) } else { D::Img("a.img".to_string(), vec![]) }];
    p.dir(&l);
    p.finish();
    // what any place may hold
    for x in [0x73u8, 1, 0x23, 0x1B, 0, 0x80, 0xFF, 0x74, 0x80, 0xFF, 0xFF, 0xFF, 0xFF, 0x80] {
        p.b.push(x);
    }
    let (size, enc) = (nd::u32() as i32, nd::u32());
    let (s, o) = p.fields[0];
    p.b[s..s + 4].copy_from_slice(&size.to_le_bytes());
    p.b[o..o + 4].copy_from_slice(&enc.to_le_bytes());
    p.finish();
    let reader = Arc::new(p.reader());
    let mut d = WzDirectory::new(p.data_start, p.b.len(), &reader, false).with_hash(h);
    d.profile.offset_version = off_version(scheme(kind));
    assert!(d.prepare_entries().is_ok(), "entries");
    assert!(d.verify_string_decryptor(), "first name");
    let got = d.calculate_offset_and_verify().is_ok();
    let at = offset_model(scheme(kind), p.fstart as u32, h1 as u32, h as u32, o as u32, enc) as u64;
    let n = p.b.len() as u64;
    let fits = size >= 0 && at + size as u64 <= n && at < n;
    if !fits {
        assert!(!got, "entry outside the file accepted");
        nd::cover(2);
    } else {
        let at = nd::conc(at) as usize;
        let ok = if is_dir {
            let wide = p.b[at] == 0x80;
            let k = if !wide { 1 } else if kind == 5 { 9 } else { 5 };
            at + k <= p.b.len() && (kind >= 2 || (p.b[if wide { at + 4 } else { at }] as i8) >= 0)
        } else {
            [0x73, 1, 0x23].contains(&p.b[at])
        };
        assert!(got == ok, "verdict on an entry inside the file");
        nd::cover(1);
    }
}
/// corrupted packages: any byte anywhere. params: package kind, shape, first place, places
fn h_c16_window() {
    let kind = nd::param(0);
    let mut p = whole(kind, nd::param(1));
    let first = nd::param(2) as usize;
    let n = (nd::param(3) as usize).min(p.b.len() - first);
    let at = first + nd::below(n as u64) as usize;
    p.b[at] = nd::u8();
    total(&p, kind);
}
/// parsing, unparsing and walking in any order. params: package kind, shape, steps
fn h_c20_history() {
    let kind = nd::param(0);
    let mut p = whole(kind, nd::param(1));
    p.plain = true;
    let l = shape_from(nd::param(1), &Src(false));
    remember(kind, p.hash);
    let root = p.node(if kind < 2 { if kind == 0 { 95 } else { 777 } } else { -1 });
    let mut st = St::new(None, &l);
    for _ in 0..nd::param(2) {
        let op = nd::below(4);
        let n = st.nodes_there();
        let mut i = nd::below(n);
        st.apply(&root, &mut i, op);
        st.check(&root);
        nd::cover(1);
    }
}
/// truncated packages. params: package kind, shape
fn h_c16_cut() {
    let kind = nd::param(0);
    let mut p = whole(kind, nd::param(1));
    let n = nd::below(p.b.len() as u64) as usize;
    p.b.truncate(n);
    total(&p, kind);
}
}
fn whole(kind: u64, sh: u64) -> Pk {
    let (enc, h1, h2, h) = if kind < 2 { let (e, h) = version(if kind == 0 { 95 } else { 777 }); (e, 0, 0, h) } else { let (a, b, c) = hashes(kind, 0); (0, a, b, c) };
    let mut p = Pk::new(kind, 6, 20, enc, h1, h2, h);
    p.plain = true;
    let l = shape_from(sh, &Src(false));
    p.dir(&l);
    p.finish();
    p
}
/// parsing gives nodes or an error; whatever is there afterwards can be parsed and read
fn total(p: &Pk, kind: u64) {
    let root = if kind < 2 {
        p.node(if kind == 0 { 95 } else { 777 })
    } else {
        // without the search for the hash, which takes too long when nothing fits
        let reader = Arc::new(p.reader());
        let mut d = WzDirectory::new(p.data_start, p.b.len(), &reader, false).with_hash(p.hash);
        d.profile.offset_version = off_version(scheme(kind));
        WzNode::from_str("root", d, None).into_lock()
    };
    let r = root.write().unwrap().parse(&root);
    match r {
        Ok(_) => nd::cover(1),
        Err(_) => nd::cover(2),
    }
    visit(&root);
}
fn visit(n: &WzNodeArc) {
    let _ = n.write().unwrap().parse(n);
    let kids: Vec<WzNodeArc> = n.read().unwrap().children.values().cloned().collect();
    for c in kids {
        visit(&c);
    }
}
/// which directories are filled and which images are parsed
struct St<'a> {
    d: Option<&'a D>,
    kids: Vec<St<'a>>,
    on: bool,
}
impl<'a> St<'a> {
    fn new(d: Option<&'a D>, l: &'a [D]) -> St<'a> {
        St {
            d,
            kids: l.iter().map(|c| St::new(Some(c), if let D::Dir(_, l) = c { l } else { &[] })).collect(),
            on: false,
        }
    }
    fn image(&self) -> bool {
        matches!(self.d, Some(D::Img(..)))
    }
    fn off(&mut self) {
        self.on = false;
        for k in self.kids.iter_mut() {
            k.off()
        }
    }
    /// directories are filled all the way down
    fn fill(&mut self) {
        if !self.on {
            self.on = true;
            for k in self.kids.iter_mut() {
                if !k.image() {
                    k.fill()
                }
            }
        }
    }
    /// what a walk with parsing leaves behind
    fn walked(&mut self) {
        self.on = !self.image();
        for k in self.kids.iter_mut() {
            k.walked()
        }
    }
    fn nodes(&self, force: bool) -> usize {
        1 + match self.d {
            Some(D::Img(_, l)) if self.on || force => l.len(),
            _ if self.on || force => self.kids.iter().map(|k| k.nodes(force)).sum(),
            _ => 0,
        }
    }
    fn check(&self, n: &WzNodeArc) {
        let r = n.read().unwrap();
        if let Some(d) = self.d {
            assert!(r.name.as_str() == d.name(), "name");
        }
        if !self.on {
            assert!(r.children.is_empty(), "nothing left of an unparsed node");
            return;
        }
        match self.d {
            Some(D::Img(_, l)) => {
                assert!(r.children.len() == l.len(), "values");
                for (nm, t) in l {
                    check(&r.at(nm).expect("value"), nm, t, Some(n));
                }
            }
            _ => {
                assert!(r.children.len() == self.kids.len(), "entries");
                for k in &self.kids {
                    let c = r.at(k.d.unwrap().name()).expect("entry");
                    assert!(Arc::ptr_eq(&c.read().unwrap().parent.upgrade().expect("parent link"), n), "parent");
                    k.check(&c);
                }
            }
        }
    }
    fn nodes_there(&self) -> u64 {
        1 + if self.on && !self.image() { self.kids.iter().map(|k| k.nodes_there()).sum() } else { 0 }
    }
    /// apply an operation to the i-th node; the node itself if it is there
    fn apply(&mut self, n: &WzNodeArc, i: &mut u64, op: u64) {
        if *i == 0 {
            *i = u64::MAX;
            match op {
                0 => {
                    n.write().unwrap().parse(n).unwrap();
                    if self.image() { self.on = true } else { self.fill() }
                }
                1 => {
                    n.write().unwrap().unparse();
                    self.off();
                }
                _ => {
                    let force = op == 3;
                    let seen = std::cell::Cell::new(0);
                    wz_reader::util::walk_node(n, force, &|_| seen.set(seen.get() + 1));
                    assert!(seen.get() == self.nodes(force), "every node visited once");
                    if force {
                        self.walked();
                        nd::cover(2);
                    }
                }
            }
            return;
        }
        *i -= 1;
        if !self.image() && self.on {
            for k in self.kids.iter_mut() {
                if *i != u64::MAX {
                    let c = n.read().unwrap().at(k.d.unwrap().name()).expect("entry");
                    k.apply(&c, i, op);
                }
            }
        }
    }
}
