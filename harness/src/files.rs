//! C27, C28: files, in a file system of their own
use crate::dir::{check_dir, check_images, hashes, remember, version, Pk, D};
use crate::guess::{streams, IVS};
use crate::nd;
use crate::pkg::mix;
use crate::tree::{check, value, Enc, T};
use crate::vfs;
use std::sync::{Arc, RwLock};
use wz_reader::reader::Reader;
use wz_reader::util::resolve_base;
use wz_reader::util::string_decryptor::ecb_decryptor::EcbDecryptor;
use wz_reader::version::WzMapleVersion;
use wz_reader::*;

/// a whole package named by its place, its names under a key. Returns what it holds, and the places
fn pack(kind: u64, key: &[u8], v: u64, l: &[D]) -> Pk {
    let (enc, h1, h2, h) = if kind < 2 { let (e, h) = version(v as i32); (e, 0, 0, h) } else { let (a, b, c) = hashes(kind, v); (0, a, b, c) };
    let mut p = Pk::new(kind, 0, 60, enc, h1, h2, h);
    p.plain = true;
    p.set_key(key);
    // first names of second-format directories have a key of their own
    p.plain_first = kind == 2;
    p.first_key = match kind {
        3 => Some(0xDEADBEEF),
        4 | 6 => Some(mix(mix(h1 as u32 ^ h as u32 ^ 0x6D4C3B2A) ^ 0x4F4CB34A) as u64),
        5 => Some(h1 ^ h ^ 0x66B57FEE317FD3DF),
        _ => None,
    }.map(|k: u64| (0..80).map(|i| (k >> (8 * (i % 8 / 2 + i % 2))) as u8).collect());
    p.dir(l);
    p.finish();
    remember(kind, h);
    p
}
fn img(n: &str, k: u64) -> D {
    D::Img(n.to_string(), vec![("v", value(k))])
}
fn ver(i: usize) -> WzMapleVersion {
    [WzMapleVersion::GMS, WzMapleVersion::EMS, WzMapleVersion::BMS, WzMapleVersion::CLASSIC][i]
}
/// a path and what it is called without its ending
const PATHS: [(&str, &str); 4] = [("/vfs/x/Map.wz", "Map"), ("/vfs/x/Map_001.wz", "Map_001"), ("/vfs/x/noend", "noend"), ("/vfs/x/a.b.c", "a.b")];

harnesses! {
/// a package is opened and parsed. params: kind, key, path, what is known: 0 nothing, 1 the version, 2 a wrong version, 3 the keys, 4 wrong keys
fn h_c27_wz() {
    let kind = nd::param(0);
    let k = nd::param(1) as usize;
    let (path, stem) = PATHS[nd::param(2) as usize];
    let known = nd::param(3);
    let keys = streams();
    // a short name fits keys by accident
    let l = vec![img(if kind >= 2 && nd::param(2) == 1 { "A.i" } else { "Abcdefg.img" }, 3), D::Dir("Second".to_string(), vec![img("Third.img", 9)])];
    let v = if kind < 2 { 777 } else { 1 };
    let p = pack(kind, &keys[k], v, &l);
    vfs::clear();
    vfs::file(path, p.b.clone());
    let parent = WzNode::empty().into_lock();
    let iv = match known {
        1 => Some(ver(k)),
        2 => Some(ver((k + 1) % 3)),
        _ => None,
    };
    let given: Option<SharedWzStringDecryptor> = match known {
        3 => Some(Arc::new(RwLock::new(EcbDecryptor::from_iv(IVS[k])))),
        4 => Some(Arc::new(RwLock::new(EcbDecryptor::from_iv(IVS[(k + 1) % 3])))),
        _ => None,
    };
    let patch = if kind < 2 && known & 1 == 1 { Some(777) } else { None };
    let n = WzNode::from_wz_file_full(path, iv, patch, Some(&parent), given.as_ref()).expect("opened");
    assert!(vfs::still_open() == 0, "closed");
    // what is on the disk does not matter any more
    vfs::clear();
    assert!(n.name.as_str() == stem && n.children.is_empty(), "name");
    assert!(Arc::ptr_eq(&n.parent.upgrade().expect("parent link"), &parent), "parent");
    {
        let f = n.try_as_file().expect("file");
        assert!(f.wz_file_meta.path == path && f.wz_file_meta.string_decryptor_verified == (kind < 4) && !f.is_parsed, "file");
        assert!(f.wz_file_meta.patch_version == patch.unwrap_or(-1) && f.block_size == p.b.len() && f.offset == p.data_start, "file");
        assert!(nd::same(&f.reader.map, &p.b), "contents");
        if let (true, 3, Some(g)) = (kind < 3, known, &given) {
            assert!(Arc::ptr_eq(&f.reader.keys, g), "the given keys are used");
        }
        let mut d = vec![0; 16];
        let used = if kind == 3 { &f.reader.pkg2_keys } else { &f.reader.keys };
        used.write().unwrap().ensure_key_size(16).unwrap();
        used.read().unwrap().decrypt_slice(&mut d);
        assert!(d == keys[if kind == 3 { 4 } else { k }][..16], "keys");
    }
    let n = n.into_lock();
    n.write().unwrap().parse(&n).expect("parsed");
    check_dir(&n, &l, &mut p.places.iter());
    check_images(&n, &l);
    assert!(n.read().unwrap().try_as_file().unwrap().wz_file_meta.hash == p.hash as usize, "hash");
    nd::cover(1);
}
/// an image is opened and parsed. params: key, what is known: 0 nothing, 1 the version, 2 a wrong version, 3 the key, 4 a wrong key
fn h_c27_img() {
    let k = nd::param(0) as usize;
    let known = nd::param(1);
    let keys = streams();
    let l = vec![("first", value(9)), ("second", value(14)), ("third", T::Sub(vec![("a", value(11))]))];
    let mut e = Enc::new(0, nd::below(2) * 2);
    e.set_key(keys[k].clone());
    e.image_head();
    e.list(&l);
    let b = e.b;
    vfs::clear();
    vfs::file("/vfs/a/Some.img", b.clone());
    let parent = WzNode::empty().into_lock();
    let wrong = (k + 1) % 4;
    let r = match known {
        3 => WzNode::from_img_file_with_iv("/vfs/a/Some.img", IVS[k], Some(&parent)),
        4 => WzNode::from_img_file_with_iv("/vfs/a/Some.img", IVS[wrong], Some(&parent)),
        _ => WzNode::from_img_file("/vfs/a/Some.img", match known { 0 => None, 1 => Some(ver(k)), _ => Some(ver(wrong)) }, Some(&parent)),
    };
    assert!(vfs::still_open() == 0, "closed");
    // a version without a key of its own has none
    let fits = match known {
        0 => k < 3,
        1 => k < 3,
        2 => k == wrong || k == 2 && wrong == 3,
        3 => true,
        _ => false,
    };
    match r {
        Err(e) => {
            assert!(!fits, "opened");
            assert!(matches!(e, node::Error::WzImageParseError(wz_image::Error::WrongVersion)) == (known > 0), "wrong version");
            assert!(matches!(e, node::Error::WzImageParseError(wz_image::Error::UnableToGuessVersion)) == (known == 0), "guess");
            nd::cover(2);
        }
        Ok(n) => {
            assert!(fits, "not opened");
            assert!(n.name.as_str() == "Some.img" && n.children.is_empty(), "name");
            assert!(Arc::ptr_eq(&n.parent.upgrade().expect("parent link"), &parent), "parent");
            let i = n.try_as_image().expect("image");
            assert!(i.name.as_str() == "Some.img" && i.offset == 0 && i.block_size == b.len() && !i.is_parsed, "image");
            let n = n.into_lock();
            n.write().unwrap().parse(&n).expect("parsed");
            let r = n.read().unwrap();
            assert!(r.children.len() == 3, "values");
            for (nm, t) in &l {
                check(&r.at(nm).expect("value"), nm, t, Some(&n));
            }
            nd::cover(1);
        }
    }
}
/// .ms files. params: second format, 0 an image or 1 a text
fn h_c27_ms() {
    let v2 = nd::param(0) == 1;
    let e = nd::param(1) as usize;
    let v = nd::u32();
    vfs::clear();
    vfs::file("/vfs/Packs/Mob_00000.ms", crate::ms::sample(v2, "mob_00000.ms", 1, e, v));
    let parent = WzNode::empty().into_lock();
    let n = WzNode::from_ms_file("/vfs/Packs/Mob_00000.ms", Some(&parent)).expect("opened");
    assert!(vfs::still_open() == 0, "closed");
    assert!(n.name.as_str() == "Mob_00000" && n.children.is_empty(), "name");
    assert!(Arc::ptr_eq(&n.parent.upgrade().expect("parent link"), &parent), "parent");
    let WzObjectType::MsFile(f) = &n.object_type else { panic!("ms file") };
    assert!(f.header.ms_file_version == v2 as u8 + 1 && !f.is_parsed, "format");
    let n = n.into_lock();
    crate::ms::check_sample(&n, e, v);
    nd::cover(1);
}
/// what cannot be opened, or is nothing. params: 0 .wz, 1 .img, 2 .ms; length of a file of any contents; kind of package or 9
fn h_c27_bad() {
    let what = nd::param(0);
    let n = nd::param(1) as usize;
    vfs::clear();
    vfs::dir("/vfs/d");
    vfs::file("/vfs/denied", vec![0x73; 100]);
    vfs::deny("/vfs/denied");
    vfs::file("/vfs/empty", vec![]);
    let mut b = nd::vec(n);
    if nd::param(2) < 9 {
        let mut f = vec![0; 16];
        f[..4].copy_from_slice(if nd::param(2) == 1 { b"PKG1" } else { b"PKG2" });
        f[12] = 16;
        f.extend(b);
        b = f;
    }
    vfs::file("/vfs/any", b);
    let open = |p: &str| match what {
        0 => WzNode::from_wz_file_full(p, None, Some(95), None, None),
        1 => WzNode::from_img_file(p, None, None),
        _ => WzNode::from_ms_file(p, None),
    };
    for p in ["/vfs/missing", "/vfs/d", "/vfs/denied"] {
        assert!(open(p).is_err(), "opened what cannot be opened");
    }
    if what == 1 {
        for iv in IVS {
            assert!(WzNode::from_img_file_with_iv("/vfs/empty", iv, None).is_err(), "empty image");
            assert!(WzNode::from_img_file_with_iv("/vfs/missing", iv, None).is_err(), "missing image");
        }
    }
    for p in ["/vfs/empty", "/vfs/any"] {
        match open(p) {
            Ok(n) => {
                let n = n.into_lock();
                let r = n.write().unwrap().parse(&n);
                if p == "/vfs/empty" {
                    assert!(r.is_err(), "nothing in it");
                }
                nd::cover(1);
            }
            Err(_) => nd::cover(2),
        }
    }
    assert!(vfs::still_open() == 0, "closed");
}
/// a whole installation is put together. params: layout, key, package kind, orders of the files (0: as listed, 1: any)
fn h_c28_layout() {
    let (layout, k, kind) = (nd::param(0), nd::param(1) as usize, nd::param(2));
    let keys = streams();
    let key = &keys[k];
    let v = if kind < 2 { 777 } else { 1 };
    vfs::clear();
    let l = std::cell::RefCell::new(vec![]);
    // 32-bit second-format directories are never empty
    let d = |n: &str, mut l: Vec<D>| {
        if l.is_empty() && kind >= 2 {
            l.push(img("only.img", 0));
        }
        D::Dir(n.to_string(), l)
    };
    let add = |path: &str, e: Vec<D>| -> Vec<D> {
        let p = pack(kind, key, v, &e);
        l.borrow_mut().push((path.to_string(), Some(p.b)));
        e
    };
    let (base, want, path) = match layout {
        // everything beside Base.wz
        0 => {
            let base = add("/vfs/r/Base.wz", vec![d("Map", vec![]), d("Mob", vec![]), img("smap.img", 3), d("Gone", vec![])]);
            let map = add("/vfs/r/Map.wz", vec![img("m.img", 3), d("Sub", vec![img("s.img", 1)])]);
            let mob = add("/vfs/r/Mob.wz", vec![img("0100.img", 2)]);
            add("/vfs/r/Other.wz", vec![img("o.img", 2)]);
            l.borrow_mut().push(("/vfs/r/smap.txt".to_string(), Some(vec![1, 2, 3])));
            l.borrow_mut().push(("/vfs/r/Map.txt".to_string(), Some(vec![])));
            (base, vec![pkg("Map", vec![map], vec![]), pkg("Mob", vec![mob], vec![])], "/vfs/r/Base.wz")
        }
        // everything in folders
        1 | 2 => {
            let base = add("/vfs/r/Base/Base.wz", vec![d("Map", vec![]), d("Gone", vec![img("g.img", 1)]), d("Mob", vec![])]);
            let map = add("/vfs/r/Map/Map.wz", vec![img("m.img", 3), d("Sub", vec![]), d("NoWz", vec![img("n.img", 1)])]);
            let map0 = add("/vfs/r/Map/Map_000.wz", vec![img("m0.img", 9), d("Deep", vec![img("d.img", 2)])]);
            let map1 = add("/vfs/r/Map/Map_001.wz", vec![img("m1.img", 1)]);
            let mut sub = vec![];
            if layout == 2 {
                sub.push(add("/vfs/r/Map/Sub/Sub.wz", vec![img("s.img", 3)]));
                sub.push(add("/vfs/r/Map/Sub/Sub_000.wz", vec![img("s0.img", 2)]));
                l.borrow_mut().push(("/vfs/r/Map/Sub".to_string(), None));
                l.borrow_mut().push(("/vfs/r/Map/NoWz".to_string(), None));
                l.borrow_mut().push(("/vfs/r/Map/Extra".to_string(), None));
                add("/vfs/r/Map/Extra/Extra.wz", vec![img("e.img", 2)]);
                l.borrow_mut().push(("/vfs/r/Gone".to_string(), None));
            }
            let mob = add("/vfs/r/Mob/Mob.wz", vec![img("0100.img", 2)]);
            l.borrow_mut().push(("/vfs/r/Map/Map_abc.wz".to_string(), Some(vec![1])));
            l.borrow_mut().push(("/vfs/r/Map/Map.ini".to_string(), Some(vec![1])));
            l.borrow_mut().push(("/vfs/r/Map/notes_1.txt".to_string(), Some(vec![1])));
            l.borrow_mut().push(("/vfs/r/Map/_".to_string(), Some(vec![])));
            for n in ["/vfs/r/Base", "/vfs/r/Map", "/vfs/r/Mob"] {
                l.borrow_mut().push((n.to_string(), None));
            }
            let nested = if layout == 2 { vec![pkg("Sub", sub, vec![])] } else { vec![] };
            (base, vec![pkg("Map", vec![map, map0, map1], nested), pkg("Mob", vec![mob], vec![])], "/vfs/r/Base/Base.wz")
        }
        // relative paths
        _ => {
            let base = add(if layout == 5 { "/vfs/r/Base/Base.wz" } else { "/vfs/r/Base.wz" }, vec![d("Map", vec![])]);
            let map = add("/vfs/r/Map.wz", vec![img("m.img", 3)]);
            vfs::cwd(if layout == 4 { "/vfs/r/work" } else { "/vfs/r" });
            l.borrow_mut().push(("/vfs/r/work".to_string(), None));
            l.borrow_mut().push(("/vfs/r/Base".to_string(), None));
            (base, vec![pkg("Map", vec![map], vec![])], ["Base.wz", "../Base.wz", "Base/Base.wz", "./Base.wz"][layout as usize - 3])
        }
    };
    l.borrow_mut().push(("/vfs/r".to_string(), None));
    let mut l = l.into_inner();
    // the directories list their files in any order
    let mut rot = if nd::param(3) == 1 { nd::below(l.len() as u64) as usize } else { 0 };
    if nd::param(3) == 1 && nd::below(2) == 1 {
        l.reverse();
    }
    while rot > 0 {
        let e = l.remove(0);
        l.push(e);
        rot -= 1;
    }
    for (n, b) in l {
        match b {
            Some(b) => vfs::file(&n, b),
            None => vfs::dir(&n),
        }
    }
    let root = resolve_base(path, if nd::param(1) == 2 { None } else { Some(ver(k)) }).expect("resolved");
    assert!(vfs::still_open() == 0, "closed");
    vfs::clear();
    check_package(&root, None, &pkg("Base", vec![base], want));
    nd::cover(1);
}
/// something is wrong with one of the files. params: which, what: 0 missing, 1 unreadable, 2 empty, 3 a directory,
/// 4 anything, 5 cut off, 6 not UTF-8
fn h_c28_bad() {
    let (which, what) = (nd::param(0) as usize, nd::param(1));
    let keys = streams();
    vfs::clear();
    let d = |n: &str| D::Dir(n.to_string(), vec![]);
    for n in ["/vfs/r", "/vfs/r/Base", "/vfs/r/Map", "/vfs/r/Map/Sub"] {
        vfs::dir(n);
    }
    let list = [
        ("/vfs/r/Base/Base.wz", vec![d("Map"), d("Mob")]),
        ("/vfs/r/Map/Map.wz", vec![d("Sub"), img("m.img", 3)]),
        ("/vfs/r/Map/Map_000.wz", vec![img("m0.img", 3)]),
        ("/vfs/r/Map/Sub/Sub.wz", vec![img("s.img", 3)]),
        ("/vfs/r/Mob.wz", vec![img("mob.img", 3)]),
    ];
    for (i, (n, l)) in list.iter().enumerate() {
        let p = pack(0, &keys[2], 95, l);
        let mut b = p.b;
        if i == which {
            match what {
                0 => continue,
                2 => b = vec![],
                3 => {
                    vfs::dir(n);
                    continue;
                }
                4 => b = nd::vec(5),
                5 => {
                    let n = nd::below(b.len() as u64) as usize;
                    b.truncate(n);
                }
                _ => {}
            }
        }
        vfs::file(n, b);
        if i == which && what == 1 {
            vfs::deny(n);
        }
    }
    let r = resolve_base("/vfs/r/Base/Base.wz", None);
    assert!(vfs::still_open() == 0, "closed");
    // a numbered file that is nothing is left out, a directory without its file stays as it is listed
    let fine = match what {
        0 => which != 0,
        1 => false,
        2 | 4 => which == 2,
        3 => which == 2 || which == 4,
        _ => r.is_ok(),
    };
    match r {
        Ok(root) => {
            assert!(fine, "resolved");
            let r = root.read().unwrap();
            assert!(r.at("Map").is_some() && r.at("Mob").is_some(), "entries");
            nd::cover(1);
        }
        Err(_) => {
            assert!(!fine, "not resolved");
            nd::cover(2);
        }
    }
    assert!(resolve_base("/vfs/r/Map/Map.wz", None).is_err(), "not a base");
}
}
/// a package: what its files hold together, and what lies in folders of its own
struct Pkg {
    name: &'static str,
    parts: Vec<Vec<D>>,
    nested: Vec<Pkg>,
}
fn pkg(name: &'static str, parts: Vec<Vec<D>>, nested: Vec<Pkg>) -> Pkg {
    Pkg { name, parts, nested }
}
fn check_package(n: &WzNodeArc, parent: Option<&WzNodeArc>, p: &Pkg) {
    link(n, parent, p.name);
    let r = n.read().unwrap();
    assert!(r.try_as_file().expect("package").is_parsed, "parsed");
    assert!(r.children.len() == p.parts.iter().map(|l| l.len()).sum::<usize>(), "number of entries");
    for d in p.parts.iter().flatten() {
        let c = r.at(d.name()).expect("entry");
        match p.nested.iter().find(|q| q.name == d.name()) {
            Some(q) => check_package(&c, Some(n), q),
            None => check_entry(&c, n, d),
        }
    }
}
fn link(n: &WzNodeArc, parent: Option<&WzNodeArc>, name: &str) {
    let r = n.read().unwrap();
    assert!(r.name.as_str() == name, "name");
    match (r.parent.upgrade(), parent) {
        (Some(a), Some(b)) => assert!(Arc::ptr_eq(&a, b), "parent"),
        (None, None) => {}
        _ => panic!("parent presence"),
    }
}
fn check_entry(n: &WzNodeArc, parent: &WzNodeArc, d: &D) {
    link(n, Some(parent), d.name());
    match d {
        D::Dir(_, l) => {
            let r = n.read().unwrap();
            assert!(r.try_as_directory().is_some() && r.children.len() == l.len(), "directory");
            for d in l {
                check_entry(&r.at(d.name()).expect("entry"), n, d);
            }
        }
        D::Img(_, l) => {
            assert!(n.read().unwrap().try_as_image().is_some(), "image");
            n.write().unwrap().parse(n).expect("image");
            let r = n.read().unwrap();
            assert!(r.children.len() == l.len(), "values");
            for (nm, t) in l {
                check(&r.at(nm).expect("value"), nm, t, Some(n));
            }
        }
    }
}
